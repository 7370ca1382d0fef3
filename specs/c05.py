ID = "C05"
TITLE = "Symbols get stable, one-to-one identifiers, also across saving and loading"
PROOFS = [dict(spec="dictionary", to=40)]
DRIVERS = [dict(name="c05", src="c05.cpp", libs=["mwsindex", "mwstypes", "commonutils", "commontypes"], budget=12)]
TRUSTED = ["clang 18 AST (vc/cast.py) and own VC generator", "models of std::string/map/vector and of iostreams as sequences of NUL-terminated records (vc/libm.py, class Streams)", "z3 5.3.2, cvc5 1.1.2"]
ASSUMPTIONS = ["keys hold no NUL byte and are not empty (a meaning is tag#text)", "fewer than 2^31 keys", "a write that the stream accepted and that flush did not refuse reaches the file"]
BOUNDED = ["real files, full and missing file systems: driver c05"]
TECHNIQUE = "contracts on the extracted C++ (own VC generator over the clang AST, z3/cvc5)"
LEVEL_NOTE = ("put, get, getReverseLookupTable, ReverseLookupTable::get, save and the loading constructor are proved for every dictionary; three lemmas over these contracts give load(save(d)) = d. "
              "The stream is modelled as a sequence of records, checked against real files by the driver.")
PROP = {"id": ID, "title": TITLE,
 "statement": "A symbol dictionary gives every symbol that was put an identifier of its own, starting at 1 and without gaps; putting it again gives the same identifier, looking it up gives it, and an unknown symbol gives 0 and changes nothing. The identifier of a symbol never changes. The reverse table leads from each identifier back to its symbol and refuses identifiers that were never given out. A dictionary that was saved and loaded again has the same symbols with the same identifiers, and goes on with the identifiers that the original would. Saving reports success only if everything was accepted by the stream; loading a file that cannot be opened or read fails. (Symbols are non-empty strings without NUL bytes.)",
 "quantifier": {"over": ["inputs", "histories", "faults"], "text": "every sequence of puts and lookups, every set of symbols, every point at which writing the file fails"},
 "why_tests_cant": "Tests put a few symbols; numbers of symbols, odd bytes in them and partly written files are unbounded.",
 "anchors": {"files": ["src/common/types/IdDictionary.hpp", "src/mws/index/MeaningDictionary.hpp"],
   "mechanism": [{"name": "next free id", "where": "IdDictionary::put"}, {"name": "NUL separated file in the order of ids", "where": "IdDictionary::save and constructor"}, {"name": "reverse table", "where": "IdDictionary::getReverseLookupTable"}]}}

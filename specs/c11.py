ID = "C11"
TITLE = "The occurrence store returns exactly what was added, window by window"
PROOFS = [dict(spec="memstores", fns=["FormulaDb", "DbQueryManager"], to=40), dict(spec="levstores", fns=["FormulaDb", "getLastCounter"], to=40)]
DRIVERS = [dict(name="c11", src="c11.cpp", libs=["mwsdbc", "mwstypes", "commontypes"], budget=14)]
TRUSTED = ["clang 18 AST (vc/cast.py) and own VC generator", "std::map/vector/string/function (vc/libm.py)", "z3 5.3.2, cvc5 1.1.2",
           "LevelDB: a map from byte strings to byte strings; an iterator visits its keys in order, a write is stored or refused, an iterator that meets a read error is no longer valid and says so (model in specs/levstores.py)",
           "parcels as sequences of strings (contracts of C10)",
           "decimal numbers: to_string is one-to-one, strtoull reads it back, '!' sorts before the digits and 0xff after them"]
ASSUMPTIONS = ["fewer than 2^64 - 1 occurrences in a store", "the store on disk holds only records that this class wrote"]
BOUNDED = ["creating, opening and reopening real LevelDB stores: driver c11"]
TECHNIQUE = "contracts on the extracted C++ with ghost state for the database (own VC generator over the clang AST, z3/cvc5)"
LEVEL_NOTE = ("insertFormula and queryFormula of both stores, getLastCounter and DbQueryManager::query are proved for every content of the store, window and callback; a lemma over the order of keys shows that the records of a "
              "formula stand together and are exactly those that are visited.")
PROP = {"id": ID, "title": TITLE,
 "statement": "An occurrence (crawl id, element id, path) added for a formula is kept as it was given, and no addition changes or removes another occurrence, also after a store on disk was closed and opened again. The occurrences of a formula have a fixed order (for the store in memory, the order of addition). Asked for the window (limitMin, limitSize) of a formula, a store hands exactly the occurrences at positions limitMin .. limitMin+limitSize-1 of that order to the callback, in order, and never an occurrence of another formula; formulas without occurrences and windows beyond the end give none, and succeed. If the callback asks to stop nothing more is handed out and the query fails. A write that the database refuses, or a read error, is reported as a failure. The query manager hands out each occurrence with the data stored for its crawl id, and with empty data if it has none.",
 "quantifier": {"over": ["inputs", "histories", "faults"], "text": "every history of additions and reopenings, every formula id, window and callback, every refused write and read error"},
 "why_tests_cant": "Tests add a few occurrences of one formula and read them all; formulas whose ids share a prefix, windows, reopened stores and read errors are not sampled.",
 "anchors": {"files": ["src/mws/dbc/MemFormulaDb.cpp", "src/mws/dbc/LevFormulaDb.cpp", "src/mws/dbc/DbQueryManager.cpp"],
   "mechanism": [{"name": "key id!counter and its range", "where": "LevFormulaDb::insertFormula, queryFormula"}, {"name": "list per formula", "where": "MemFormulaDb"}, {"name": "joining with crawl data", "where": "DbQueryManager::query"}]}}

ID = "C10"
TITLE = "A stored record gives back what was put into it, or is refused"
PROOFS = [dict(spec="parcel", to=40)]
DRIVERS = [dict(name="c10", src="c10.cpp", libs=["commontypes"], budget=12)]
TRUSTED = ["clang 18 AST (vc/cast.py) and own VC generator", "memcpy on byte buffers (model in specs/parcel.py), std::string", "z3 5.3.2, cvc5 1.1.2"]
ASSUMPTIONS = ["the sizes reserved add up to less than 2^64"]
BOUNDED = ["records of several items, cut off at every length: driver c10"]
TECHNIQUE = "contracts on the extracted C++ (own VC generator over the clang AST, z3/cvc5)"
LEVEL_NOTE = ("All of Parcelable.cpp and the three functions of FormulaPath are proved for every string and every record: what each call reads and writes in the buffer, that no byte outside it is touched, and that decode throws "
              "exactly when the record is too short. That a sequence of decodes mirrors the sequence of encodes follows item by item from these contracts.")
PROP = {"id": ID, "title": TITLE,
 "statement": "A record (parcel) made by reserving and then encoding a sequence of strings and formula paths has exactly the reserved size, and decoding the same sequence of kinds from it gives back the same values, whatever bytes they hold. Encoding never writes outside the reserved space; decoding never reads outside the given bytes: if the record is too short for what is asked of it, or a size field claims more than is there, decoding throws instead.",
 "quantifier": {"over": ["inputs", "faults"], "text": "every sequence of strings and paths, every record cut off or damaged anywhere"},
 "why_tests_cant": "Tests encode a couple of strings; sizes, bytes and the points of truncation are unbounded.",
 "anchors": {"files": ["src/common/types/Parcelable.cpp", "src/mws/types/FormulaPath.hpp"],
   "mechanism": [{"name": "size field and bytes", "where": "ParcelEncoder::encode, ParcelDecoder::decode"}, {"name": "reservation", "where": "ParcelAllocator::reserve, FormulaPath::getParcelableSize"}]}}

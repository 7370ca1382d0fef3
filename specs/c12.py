ID = "C12"
TITLE = "Crawl data is kept under an id of its own and returned unchanged"
PROOFS = [dict(spec="memstores", fns=["MemCrawlDb"], to=40), dict(spec="levstores", fns=["LevCrawlDb", "getLastCrawlId"], to=40)]
DRIVERS = [dict(name="c12", src="c12.cpp", libs=["mwsdbc", "mwstypes", "commontypes"], budget=12)]
TRUSTED = ["clang 18 AST (vc/cast.py) and own VC generator", "std::map/string (vc/libm.py)", "z3 5.3.2, cvc5 1.1.2", "LevelDB and decimal numbers as in C11 (model in specs/levstores.py)", "parcels as sequences of strings (contracts of C10)"]
ASSUMPTIONS = ["fewer than 2^32 - 2 records in a store", "the store on disk holds only records that this class wrote"]
BOUNDED = ["creating, opening and reopening real LevelDB stores: driver c12"]
TECHNIQUE = "contracts on the extracted C++ with ghost state for the database (own VC generator over the clang AST, z3/cvc5)"
LEVEL_NOTE = "putData and getData of both stores, the constructor of the one in memory and getLastCrawlId are proved for every content of the store, every datum and every refused write or read error."
PROP = {"id": ID, "title": TITLE,
 "statement": "Putting crawl data into a store gives an id that is not null and was not given out before by this store, also not before it was closed and opened again. Until the store is deleted, asking for that id gives exactly the bytes that were put, whatever was put before or after; asking for an id that was never given out fails, and so does a write that the database refuses - nothing is changed by it.",
 "quantifier": {"over": ["inputs", "histories", "faults"], "text": "every history of puts, gets and reopenings, every datum, every refused write"},
 "why_tests_cant": "Tests put one or two records into a new store; long histories, reopened stores and refused writes are not sampled.",
 "anchors": {"files": ["src/mws/dbc/MemCrawlDb.cpp", "src/mws/dbc/LevCrawlDb.cpp"],
   "mechanism": [{"name": "next id", "where": "MemCrawlDb::putData, LevCrawlDb::putData, getLastCrawlId"}]}}

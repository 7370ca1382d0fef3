ID = "C07"
TITLE = "Result windows are exact slices of one result list; the total is capped"
PROOFS = [dict(spec="window", to=40)]
DRIVERS = [dict(name="c07", src="c07.cpp", libs=["mwsquery", "mwsxmlparser", "mwsindex", "mwsdbc", "mwstypes", "commonutils", "commontypes", "crc32"], budget=15, leaks=False)]
TRUSTED = ["clang 18 AST (vc/cast.py) and own VC generator", "models of std::vector/set/map/unique_ptr/chrono (vc/libm.py)", "z3 5.3.2, cvc5 1.1.2",
           "contracts assumed in this proof: choice points (BacktrackCtxt::solve/nextSol: return a node or null; proved in C08/C09), IndexAccessor (proved in C08), DbQueryManager::query (records its arguments; C11)"]
ASSUMPTIONS = ["a leaf has fewer than 2^30 hits (30-bit field)", "maxTotal < 2^31 (the total is an int)", "the query object is as its constructor leaves it (postcondition proved in C08)"]
BOUNDED = ["the in-memory index instance of the same template, the order of the list over repeated runs, and the rows the store then delivers: driver c07"]
TECHNIQUE = "loop invariant with ghost history on the extracted C++ (own VC generator over the clang AST, z3/cvc5)"
LEVEL_NOTE = ("SearchContext::getResult is proved for every window, total limit and every run of solutions: the reported total is min(hits, maxTotal), the store is asked exactly for the formulas whose hits meet the "
              "window and for exactly the rows inside it, and the set of formula ids is exactly that of these formulas; also index bounds of its tables. That the list is the same for every window (determinism) follows from "
              "the search not reading the window, checked bounded (driver).")
PROP = {"id": ID, "title": TITLE,
 "statement": "For a given index and query there is one fixed list of hits. Asked for the window (offset, size) with at most maxTotal results, a search returns exactly the hits at positions offset .. offset+size-1 of that list, in that order, cut at maxTotal and at the end of the list - so that consecutive pages neither repeat nor lose a hit - and reports as total min(number of hits, maxTotal), whatever the window. An offset at or beyond the end, or a size of 0, gives no hits and no formula ids but the same total. When formula ids are asked for, exactly the ids of the formulas with a hit in the window are returned. Without hits, every matching expression counts once and the same rules apply to expressions. Windows whose end exceeds the integer range behave as windows to the end.",
 "quantifier": {"over": ["inputs"], "text": "every index, query, offset, size and total limit"},
 "why_tests_cant": "Tests ask for a few windows of a small index; off-by-one errors and integer wrap-around show only at particular combinations of hits per formula, offset, size and limit.",
 "anchors": {"files": ["src/mws/query/SearchContext.cpp", "src/mws/types/MwsAnswset.hpp"],
   "mechanism": [{"name": "window arithmetic over solutions", "where": "SearchContext::getResult"}, {"name": "rows of one formula", "where": "DbQueryManager::query"}]}}

ID = "C17"
TITLE = "Both search services answer a query from exactly their own index"
PROOFS = [dict(spec="service", to=24)]
DRIVERS = [dict(name="c17", src="c17.cpp", libs=["mwsdaemon", "mwsxmlparser", "mwsanalytics", "mwsquery", "mwsdbc", "mwsindex", "mwstypes", "crawlerdaemon", "crawlercrawler", "crawlerparser", "crawlerutils", "crawlertypes", "googleurl",
                                                 "commonsocket", "commonthread", "commonutils", "commontypes", "crc32"], budget=25)]
TRUSTED = ["clang 18 AST (vc/cast.py) and own VC generator", "z3 5.3.2, cvc5 1.1.2",
           "the functions that the services put together are taken by what they are asked for: encode (proved for C04), getResult (C07, C08, C09), the stores (C11, C12), the image (C02, C03), the dictionary (C05), loadHarvests (C06), each under its own contract"]
ASSUMPTIONS = ["the experimental query engine (mwsd -x) was not chosen", "nothing else changes the files of an index while it is loaded"]
BOUNDED = ["createCompressedIndex as a whole and the agreement of the two services on whole corpora: driver c17"]
TECHNIQUE = "contracts on the query handlers, their constructors and the index loader, with ghost logs of what encoder, search and stores are asked for, extracted from the C++ (own VC generator over the clang AST, z3)"
LEVEL_NOTE = ("Both handleQuery functions are proved to encode the first expression of the query once, with the symbols and the options of their own index, to search for exactly this encoding with the options, bounds and window of the query in their own index and stores, "
              "and to answer what was found with the names of the variables of this query, or an empty answer for what cannot be encoded; the harvest service is proved to build its index into these objects with these options, the loader to open exactly the files of one index, to refuse it if one cannot be loaded, and to unload it once.")
PROP = {"id": ID, "title": TITLE,
 "statement": "The service over harvests and the service over an index on disk (default search engine) answer every formula query alike: its first expression is encoded once, with the symbols and the option for identifiers with which the index was built; if that is not possible (unknown symbols, too many variables) the answer is empty with total 0; otherwise it is searched for once, with the options, range bounds, offset, size and limit of the query, in the index and the stores of this service, and the answer is what this search finds, with the names and positions of the variables of this query. Over the same harvests both find the same hits (uri, xpath and crawl data), however often the index is closed and opened again. An index is loaded from the dictionary, the image and, where hits are needed, the two databases in its directory; if one of them cannot be loaded, it is refused.",
 "quantifier": {"over": ["inputs", "histories"], "text": "every collection of harvests, every query and window, any number of queries and restarts"},
 "why_tests_cant": "Tests ask a handful of queries of one service over fixed harvests and only check that there are results; agreement of the two on all harvests, queries and windows is unbounded.",
 "anchors": {"files": ["src/mws/daemon/HarvestQueryHandler.cpp", "src/mws/daemon/IndexQueryHandler.cpp", "src/mws/index/IndexLoader.cpp"],
   "mechanism": [{"name": "asking", "where": "HarvestQueryHandler::handleQuery, IndexQueryHandler::handleQuery"}, {"name": "building", "where": "HarvestQueryHandler::HarvestQueryHandler"}, {"name": "loading", "where": "IndexLoader::IndexLoader"}]}}

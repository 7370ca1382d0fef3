ID = "C06"
TITLE = "Indexing makes every subexpression of every expression findable, once"
PROOFS = [dict(spec="indexing", to=40)]
DRIVERS = [dict(name="c06", src="c06.cpp", libs=["mwsxmlparser", "mwsindex", "mwsdbc", "mwstypes", "commonutils", "commontypes", "crc32"], budget=14)]
TRUSTED = ["clang 18 AST (vc/cast.py) and own VC generator", "std::set/vector/stack/string/function (vc/libm.py)", "z3 5.3.2, cvc5 1.1.2",
           "the index as a one-to-one map from codes to leaves with ids (proved: C01), the encoder as a function of expression and dictionary (proved: C04)",
           "the harvest parser as a source of expressions (C15) and the directory walk as a sequence of calls with paths"]
ASSUMPTIONS = ["fewer than 2^30 subexpressions in one expression, fewer than 2^32 occurrences of one formula"]
BOUNDED = ["directories, files and the harvest parser underneath: driver c06"]
TECHNIQUE = "contracts on the extracted C++ with ghost state for the walk and the store (own VC generator over the clang AST, z3/cvc5)"
LEVEL_NOTE = ("CmmlToken::foreachSubexpression is proved to visit every node once, depth first, arguments in order; indexContentMath, called with that walk, is proved to store one row per distinct code with the data of its "
              "first occurrence and to keep the hit count of each leaf equal to the number of rows stored for it, whatever the store refuses; loadHarvests is proved to load exactly the files with the extension and to add up what they hold.")
PROP = {"id": ID, "title": TITLE,
 "statement": "Indexing an expression puts each of its subexpressions (the expression itself included, those excepted that cannot be encoded because a node in them has more than 255 arguments) into the index, and stores for each distinct one of them exactly one occurrence: the id of the expression, the id of its crawl data and the position (xpath) of the first subexpression, in document order, that is equal to it. It changes no other occurrence. The number of hits recorded for an indexed formula is the number of occurrences stored for it, also when the store refuses to add some; the number returned is the number of occurrences stored. Loading harvests reads every regular file with the configured extension in the given directories, and in their subdirectories exactly if asked to (hidden ones excepted), each once, attaches crawl data exactly if it is not to be ignored, and returns the sum of what the files held. (For the default configuration, in which identifiers are not renamed.)",
 "quantifier": {"over": ["inputs", "histories", "faults"], "text": "every expression, every history of indexing, every refused addition, every tree of directories"},
 "why_tests_cant": "Tests index a few files and look at totals; which subexpressions coincide, refused additions and the shapes of directory trees are unbounded.",
 "anchors": {"files": ["src/mws/index/IndexBuilder.cpp", "src/mws/types/CmmlToken.cpp", "src/mws/xmlparser/processMwsHarvest.cpp"],
   "mechanism": [{"name": "one row per distinct subexpression", "where": "IndexBuilder::indexContentMath"}, {"name": "walk over subexpressions", "where": "CmmlToken::foreachSubexpression"}, {"name": "walk over files", "where": "loadHarvests"}]}}

ID = "C08"
TITLE = "A query finds exactly the indexed expressions that it matches"
PROOFS = [dict(spec="search", to=40), dict(spec="itr", to=40), dict(spec="backtrack", fns=["QvarCtxt"], to=40)]
DRIVERS = [dict(name="c08", src="c08.cpp", libs=["mwsquery", "mwsxmlparser", "mwsindex", "mwsdbc", "mwstypes", "commonutils", "commontypes", "crc32"], budget=20, leaks=False)]
TRUSTED = ["clang 18 AST (vc/cast.py) and own VC generator", "models of std::vector/list/map/unique_ptr (vc/libm.py)", "z3 5.3.2, cvc5 1.1.2",
           "inode_get_child / inode_long_get_child contracts (proved in C02)", "memsector_relOff2addr: the address is a function of node and offset",
           "well-formedness of the image as a trie (sorted children, open expressions go down by one and up by the arity, finite depth): established by insertion and export, C01/C02"]
ASSUMPTIONS = ["fewer than 2^31 tokens in a query, fewer than 2^31 children of a node"]
BOUNDED = ["composition of the pieces in SearchContext::getResult (that every match is found, once, and nothing else), the in-memory index instance of the templates: driver c08 against brute-force unification"]
TECHNIQUE = "function contracts on the extracted C++ templates (own VC generator over the clang AST, z3/cvc5)"
LEVEL_NOTE = ("Proved for all inputs: the query object (one entry per token, one choice point per distinct variable, anonymous variable and range, in order), the accessors of the image, IndexIterator::next (returns the first, then "
              "always the immediate successor in depth-first order of the complete terms below a node, null only after the last) and the variable choice points built on it. Their composition in getResult is bounded (driver).")
PROP = {"id": ID, "title": TITLE,
 "statement": "A search returns exactly the indexed expressions (complete formulas and subterms) that the query matches, each once: constants match only the same symbol with the same number of arguments, a query variable matches any complete subterm, a variable that occurs several times (same name) matches the same subterm everywhere, distinct variables and anonymous variables match independently. No match is missed and nothing else is returned, for the in-memory index as for the memory-mapped image, which give the same answers; an empty index and a query with an unknown symbol give no results. Every hit of every matching expression is reported with its document and path.",
 "quantifier": {"over": ["inputs"], "text": "every set of indexed expressions and every query, with any number and repetition of variables"},
 "why_tests_cant": "Tests run a handful of fixed queries; backtracking errors show only for particular shapes of the index below several choice points.",
 "anchors": {"files": ["src/mws/query/SearchContext.cpp", "src/mws/index/IndexIterator.hpp", "src/mws/index/IndexAccessor.hpp", "src/mws/index/TmpIndexAccessor.hpp", "src/common/utils/ContainerIterator.hpp"],
   "mechanism": [{"name": "backtracking over choice points", "where": "SearchContext::getResult"}, {"name": "query compilation", "where": "SearchContext::SearchContext"}, {"name": "depth-first enumeration of complete terms", "where": "IndexIterator::next"}]}}

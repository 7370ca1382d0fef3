ID = "C09"
TITLE = "Number ranges in queries match exactly the numbers between their bounds"
PROOFS = [dict(spec="backtrack", fns=["RangeCtxt"], to=40), dict(spec="bounds", to=40)]
DRIVERS = [dict(name="c09", src="c09.cpp", libs=["mwsquery", "mwsxmlparser", "mwsindex", "mwsdbc", "mwstypes", "commonutils", "commontypes", "crc32"], budget=15, leaks=False)]
TRUSTED = ["clang 18 AST (vc/cast.py) and own VC generator", "models of std::string/map/unique_ptr (vc/libm.py); std::stod is an uninterpreted partial function of the text", "z3 5.3.2, cvc5 1.1.2",
           "ExpressionDecoder::getMeaning gives the symbol's name (bounded in C04)", "IndexAccessor contracts (proved in C08)", "CmmlToken::getType (proved in C04)"]
ASSUMPTIONS = ["doubles are compared as real numbers (no NaN)"]
BOUNDED = ["ranges in combination with other choice points and the passing of bounds from the encoder to the search: driver c09"]
TECHNIQUE = "function contracts on the extracted C++ templates (own VC generator over the clang AST, z3/cvc5)"
LEVEL_NOTE = ("Proved for all inputs: which symbols count as numbers in the range, that RangeCtxt::solve returns the first and nextSol each next child that is such a number and null only when there is none left, and the bounds "
              "read from the element. The passing of bounds through the encoder and the interplay with other choice points is bounded (driver).")
PROP = {"id": ID, "title": TITLE,
 "statement": "A range element in a query matches exactly the indexed number elements (cn without children) whose text is a number n with low <= n <= high, bounds included; a missing or unreadable bound does not restrict (all numbers of a double, negative and zero included); elements whose text is not a number and other elements never match. Every range in a query is independent of the others, and ranges combine with variables and constants as any other part of the query: no match is missed, repeated or invented.",
 "quantifier": {"over": ["inputs"], "text": "every set of indexed expressions, every query with any number of ranges and bounds"},
 "why_tests_cant": "Tests check one range over one index; bounds, signs, order of children and combination with other choice points vary without limit.",
 "anchors": {"files": ["src/mws/query/SearchContext.cpp", "src/mws/types/CmmlToken.cpp", "src/mws/index/ExpressionEncoder.cpp"],
   "mechanism": [{"name": "range choice point", "where": "RangeCtxt::solve, RangeCtxt::nextSol, validSubst"}, {"name": "bounds", "where": "CmmlToken::getRangeBounds"}]}}

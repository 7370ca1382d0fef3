ID = "C04"
TITLE = "Encoding an expression is faithful, and the same for documents and queries"
PROOFS = [dict(spec="encode", to=60)]
DRIVERS = [dict(name="c04", src="c04.cpp", libs=["mwsindex", "mwstypes", "commonutils"], budget=12)]
TRUSTED = ["clang 18 AST (vc/cast.py) and own VC generator", "models of std::string/map/list/stack/vector (vc/libm.py)", "z3 5.3.2, cvc5 1.1.2"]
ASSUMPTIONS = ["CmmlToken trees are well formed (children are nodes, a parent has children)", "fewer than 2^31 symbols are ever put into a dictionary, fewer than 2^32 children per node",
               "machine integers wrap as in C++; sizes below 2^63"]
BOUNDED = ["ExpressionDecoder::getMeaning, bounds and names listed in ExpressionInfo, identifier renaming up to consistency: driver c04"]
TECHNIQUE = "contracts on the extracted C++ (own VC generator over the clang AST, z3/cvc5)"
LEVEL_NOTE = ("ExpressionEncoder::encode is proved for every token tree: the output is the preorder of the tree (each position holds the next pending token, its arguments replace it in order), arities, code classes, "
              "equal codes exactly for equal names/meanings; also both encoders' constant encodings, getMeaning/getVarName/getType and the dictionary operations they use. Decoding names is bounded (driver).")
PROP = {"id": ID, "title": TITLE,
 "statement": "Encoding a Content MathML expression gives one token per node in preorder with the node's number of arguments, so that the tree can be read back: constants (tag plus text; the text of mtext ignored) get equal codes exactly when their meanings are equal and decode to that meaning; named variables get equal codes exactly when their names are equal, independent of the names chosen; every anonymous variable and every range gets a code of its own; variables, ranges and constants use disjoint code ranges and variables and ranges are leaves. An expression that has more variables, ranges, arguments or symbols than the code has room for is refused, not encoded wrongly. A query is encoded exactly as the same expression in a document, never adds symbols, and is refused if it uses a symbol no document has. Codes once given out stay valid. With identifier renaming, single-letter identifiers are renamed consistently, so that expressions equal up to such renaming get the same code and distinct identifiers stay distinct.",
 "quantifier": {"over": ["inputs", "histories"], "text": "every expression tree of any shape and size, every sequence of expressions encoded before with the same dictionary"},
 "why_tests_cant": "Existing tests encode a handful of fixed formulas; numbers of variables, arities and symbols at the limits of the bit fields, and the interplay of names, are unbounded.",
 "anchors": {"files": ["src/mws/index/ExpressionEncoder.cpp", "src/mws/index/encoded_token.h", "src/common/types/IdDictionary.hpp", "src/mws/types/CmmlToken.cpp"],
   "mechanism": [{"name": "depth-first encoding with per-expression variable numbering", "where": "ExpressionEncoder::encode"}, {"name": "dictionary of meanings", "where": "HarvestEncoder/QueryEncoder::_getConstantEncoding, IdDictionary::put/get"}, {"name": "reverse lookup", "where": "ExpressionDecoder"}]}}

ID = "C20"
TITLE = "Responses say exactly what the answer set holds, as well-formed documents"
PROOFS = [dict(spec="rjson", to=24), dict(spec="rjsch", to=24), dict(spec="rxml", to=24), dict(spec="rsxml", to=24), dict(spec="shown", to=24)]
DRIVERS = [dict(name="c20", src="c20.cpp", libs=["mwsxmlparser", "mwsindex", "mwsdbc", "mwstypes", "commonutils", "commontypes", "crc32"], budget=14)]
TRUSTED = ["clang 18 AST (vc/cast.py) and own VC generator", "std::string/map/set/vector/list and string streams (vc/libm.py)", "z3 5.3.2, cvc5 1.1.2",
           "json-c (specs/jsonc.py: objects, arrays and numbers with ownership, json_object_new_int takes 32 bits; the text printed stands for the value: driver c20)",
           "libxml2's text writer (specs/xmlw.py: a log of elements, attributes and texts, each properly escaped; errors only as -1: driver c20)",
           "fwrite writes everything or says how much it wrote"]
ASSUMPTIONS = ["fewer than 2^31 answers, variables and schemata", "strings without a zero byte, in UTF-8; for XML, made of characters XML allows; tags that are XML names", "memory allocation does not fail"]
BOUNDED = ["the texts json-c and libxml2 print: driver c20 reads them back"]
TECHNIQUE = "contracts on the five response formatters and the tree printer, with loop invariants over the answers so far, extracted from the C++ (own VC generator over the clang AST, z3/cvc5)"
LEVEL_NOTE = ("Each formatter is proved, for every answer set, to build the document its statement describes (json-c values and XML writer events are modelled, with ownership and nesting as obligations), to print it once, "
              "to release it and to return its length; the printer of trees is proved to escape every character that has a meaning in XML.")
PROP = {"id": ID, "title": TITLE,
 "statement": "For every answer set, the mws-xml, json and mws-ids responses, and for every set of schemata the schema XML and JSON responses, are one well-formed document of the content type announced, whatever characters the strings hold, and the number returned is its length in bytes. It holds the total (json: and the time; the others but json: and the number of entries), every answer in order with its uri, xpath and data, every query variable in order with its name and xpath (in mws-xml for every answer, the xpath of the answer followed by that of the variable), every formula id of the set, as a nonnegative number; for schemata the coverage and the tree of each in order (in JSON as the text of an XML element with the same names, attributes and text) and in JSON its formulae and substituted references. A new answer set, as is answered when a query can match nothing, says 0 for total and time and holds nothing.",
 "quantifier": {"over": ["inputs"], "text": "every answer set and set of schemata"},
 "why_tests_cant": "No test looks at a response; numbers at the limits, characters that need escaping and the pairing of answers with variables are unbounded.",
 "anchors": {"files": ["src/mws/xmlparser/MwsXmlResponseFormatter.cpp", "src/mws/xmlparser/MwsJsonResponseFormatter.cpp", "src/mws/xmlparser/MwsIdsResponseFormatter.cpp", "src/mws/xmlparser/SchemaXmlResponseFormatter.cpp", "src/mws/xmlparser/SchemaJsonResponseFormatter.cpp", "src/mws/types/CmmlToken.cpp", "src/mws/types/MwsAnswset.hpp"],
   "mechanism": [{"name": "writing answers", "where": "writeData of each formatter"}, {"name": "trees", "where": "SchemaXmlResponseFormatter::printCmmlToken, CmmlToken::toString"}]}}

ID = "C14"
TITLE = "A query is the query document: its options, limits and expressions"
PROOFS = [dict(spec="query", to=24), dict(spec="booltype", to=24)]
DRIVERS = [dict(name="c14", src="c14.cpp", libs=["mwsxmlparser", "mwsindex", "mwsdbc", "mwstypes", "commonutils", "commontypes", "crc32"], budget=12)]
TRUSTED = ["clang 18 AST (vc/cast.py) and own VC generator", "std::string/map/list/vector (vc/libm.py)", "z3 5.3.2, cvc5 1.1.2",
           "libxml2: balanced start and end events, attribute tables that end with a null pointer", "strtol as a function of the text", "readMwsQuery registers the handlers under contract (driver c14)"]
ASSUMPTIONS = ["fewer than 2^30 open elements, attributes and warnings", "the C locale, as mwsd leaves it"]
BOUNDED = ["libxml2 underneath, broken and truncated documents: driver c14"]
TECHNIQUE = "contracts and a state invariant on the SAX handlers, the query's constructor and its restrictions, extracted from the C++ (own VC generator over the clang AST, z3/cvc5)"
LEVEL_NOTE = ("Every handler is proved to keep the invariant that ties its state to the open elements and to do one step: each option is proved equal to the value of the attribute of its name (a fold over the attributes), each complete "
              "expression to be appended as read, every error to leave no query behind; applyRestrictions and getBoolType are proved for all inputs.")
PROP = {"id": ID, "title": TITLE,
 "statement": "Reading a query document yields the expressions that its mws:expr elements inside mws:query hold, in order, each with exactly the elements (names without the prefix m:), attributes and text (without white space) it has in the document; everything else in it is ignored and counted as a warning. answsize, limitmin, schema_depth, totalreq (yes, no, 1 or 0 in any case; anything else is ignored), cutoff_mode and output (xml, json, and for formula queries mws-ids: ids instead of hits) are as the attributes of mws:query say, numbers beyond the range of int counting as the nearest in it, and otherwise the documented defaults (30 answers from 0 on, total required, depth 3, absolute cutoff, XML for formula queries and JSON for schema queries). A document with an XML error yields no query, also not the part of it that could be read. Restricting a query brings answsize down to 100, limitmin to 12000 and the total to 12000 exactly if they are greater, negative values of the document counting as greater, and says so.",
 "quantifier": {"over": ["inputs", "faults"], "text": "every query document, well-formed or not, in both modes"},
 "why_tests_cant": "The tests read three documents; attribute values, nesting, broken documents and combinations of options are unbounded.",
 "anchors": {"files": ["src/mws/xmlparser/readMwsQuery.cpp", "src/mws/types/Query.hpp", "src/mws/types/CmmlToken.cpp", "src/common/utils/getBoolType.cpp"],
   "mechanism": [{"name": "state machine over SAX events", "where": "my_startElement, my_endElement, my_characters, my_error, my_endDocument"}, {"name": "limits", "where": "Query::applyRestrictions"}, {"name": "boolean options", "where": "getBoolType"}]}}

ID = "C15"
TITLE = "Harvest documents are read as they are written, whatever else they hold"
PROOFS = [dict(spec="harvest", to=24)]
DRIVERS = [dict(name="c15", src="c15.cpp", libs=["mwsxmlparser", "mwsindex", "mwsdbc", "mwstypes", "commonutils", "commontypes", "crc32"], budget=14)]
TRUSTED = ["clang 18 AST (vc/cast.py) and own VC generator", "std::string/map/list/vector (vc/libm.py)", "z3 5.3.2, cvc5 1.1.2",
           "libxml2: balanced start and end events, attribute tables that end with a null pointer; the XML writer renders the events it is given (setupCopyToStringWriter, tearDownCopyToStringWriter); xmlEncodeSpecialChars",
           "processHarvestFromFd registers the handlers under contract (driver c15)", "HarvestProcessor implementations do not change the expression they are given"]
ASSUMPTIONS = ["fewer than 2^30 open elements and attributes", "no exception leaves a HarvestProcessor", "memory allocation does not fail"]
BOUNDED = ["libxml2 underneath, the order of events, broken and truncated documents: driver c15"]
TECHNIQUE = "contracts and a state invariant on the SAX handlers and the tree builder, extracted from the C++ (own VC generator over the clang AST, z3/cvc5)"
LEVEL_NOTE = ("Every handler is proved to keep an invariant that ties the state of the reader to the elements open in the document (so that no end tag is ever taken for another one), and to do exactly one step of the construction: "
              "new last child with the name and attributes of the element, text without white space added to the open element, one call to the processor per complete expression or data element.")
PROP = {"id": ID, "title": TITLE,
 "statement": "Reading a harvest document calls the processor once, in order of the document, for every element inside an mws:expr inside mws:harvest, with a tree that has exactly the elements (names without the prefix m:), attributes and text (without white space) of that element, with the value of the url attribute of the mws:expr (or nothing), and with the crawl id that the processor returned for the last preceding mws:data element with the data_id of the mws:expr, if any and if data are processed; and once for every mws:data element with a nonempty id, if data are processed, with the XML text of its content. Elements that do not belong there are ignored with everything inside them, and so is an expression in which a recoverable error occurs. A document that ends early or is malformed contributes the expressions complete up to there, and the status tells. The number of expressions returned is the sum of what the processor returned (refusals, -1, excepted).",
 "quantifier": {"over": ["inputs", "faults"], "text": "every XML document, well-formed or not, every answer of the processor"},
 "why_tests_cant": "Tests read a handful of well-formed files; nesting of ignored, copied and parsed elements, errors inside them and truncation points are unbounded.",
 "anchors": {"files": ["src/mws/xmlparser/processMwsHarvest.cpp", "src/mws/types/CmmlToken.cpp"],
   "mechanism": [{"name": "state machine over SAX events", "where": "my_startElement, my_endElement, my_characters, my_error"}, {"name": "tree construction", "where": "CmmlToken::newChildNode, addAttribute, appendTextContent"}, {"name": "data ids", "where": "MwsHarvest_SaxUserData::localIdToCrawlIds"}]}}

ID = "C18"
TITLE = "Harvests made of documents hold exactly their formulae"
PROOFS = [dict(spec="docs", to=24), dict(spec="docx", to=24)]
DRIVERS = [dict(name="c18", src="c18.cpp", libs=["mwsdaemon", "mwsxmlparser", "mwsanalytics", "mwsquery", "mwsdbc", "mwsindex", "mwstypes", "crawlerdaemon", "crawlercrawler", "crawlerparser", "crawlerutils", "crawlertypes", "googleurl",
                                                 "commonsocket", "commonthread", "commonutils", "commontypes", "crc32"], budget=25)]
TRUSTED = ["clang 18 AST (vc/cast.py) and own VC generator", "z3 5.3.2, cvc5 1.1.2",
           "libxml2: the result of an XPath expression in its context, xmlEncodeSpecialChars, xmlNodeDumpOutput (the node as XML), removal of attributes and namespaces of one node, the tree stays as it is otherwise",
           "memory streams of the C library hold what is written once they are closed", "IdDictionary::put gives every id one number (proved for C05)", "removeDuplicateSpaces, parseDocument, getFileContents: by what they return (exercised by the driver)",
           "the overload of processXpathResults that takes a callback hands it every node (the class behind it is a forwarder)"]
ASSUMPTIONS = ["ids are unique in a document, formulae are not nested in each other's content", "names of metadata are XML names, the data id is XML text", "documents shorter than 2^31 bytes", "memory allocation does not fail"]
BOUNDED = ["parsing of XHTML and HTML, XPath, whitespace, the harvest read back as XML: driver c18"]
TECHNIQUE = "contracts on createHarvestFromDocument, cleanContentMath, expandEntityReferences and the functions of XmlParser.cpp, with trees as linked nodes and texts as folds, extracted from the C++ (own VC generator over the clang AST, z3)"
LEVEL_NOTE = ("createHarvestFromDocument is proved to write, for every document and configuration, data that is the fold over its metadata and its formulae, and the expressions of exactly the formulae with an id and content, in order, each cleaned before and its formula escaped before it is cleaned, "
              "under the same number in both; cleaning reaches every node of the tree; the text under a node is proved to be the preorder of its texts and formulae; the XML of a node and the escaped texts are complete; contexts and results of XPath are released. libxml2 itself is trusted and bounded (driver).")
PROP = {"id": ID, "title": TITLE,
 "statement": "The harvest made of a document has one expression for each formula (math element) with an id and content (an element with encoding='MathML-Content'), in the order of the document, and none for others: the first content element, all of it, without ids, xrefs, name prefixes and entity references, and otherwise as in the document. With data: each expression refers to the data by its id and has as its url the number under which its formula stands in the data and in the text; every such formula stands there once, escaped, as in the document; the number of a formula is the same everywhere, and different formulae have different numbers; id (the text found by documentIdXpath, or the path), text (the one found by textWithMathXpath, with mathN for the formulae in it) and metadata are those of the document, escaped. Without data: the url is the document's id, '#', and the id of the formula, escaped. The harvest is well-formed XML, and reading it gives these expressions, urls and data ids. A document that cannot be read or parsed is reported.",
 "quantifier": {"over": ["inputs"], "text": "every XHTML and HTML document, every configuration"},
 "why_tests_cant": "The tests of the repository convert a few documents and compare them with stored results; trees, texts, ids and entity references of all documents are unbounded.",
 "anchors": {"files": ["src/crawler/parser/MathParser.cpp", "src/crawler/parser/XmlParser.cpp", "src/crawler/parser/XmlParser.hpp"],
   "mechanism": [{"name": "one walk over the formulae", "where": "createHarvestFromDocument"}, {"name": "cleaning", "where": "cleanContentMath, expandEntityReferences"}, {"name": "texts and numbers", "where": "dumpNodeToText, getTextByXpath, MathIdDictionary"}, {"name": "XML", "where": "getXmlFromNode, getEscapedXmlFromNode, escapeXml"}]}}

ID = "C16"
TITLE = "Each HTTP request gets one response, made from its whole body"
PROOFS = [dict(spec="http", to=24)]
DRIVERS = [dict(name="c16", src="c16.cpp", libs=["mwsdaemon", "mwsxmlparser", "mwsanalytics", "mwsquery", "mwsdbc", "mwsindex", "mwstypes", "crawlerdaemon", "crawlercrawler", "crawlerparser", "crawlerutils", "crawlertypes", "googleurl",
                                                 "commonsocket", "commonthread", "commonutils", "commontypes", "crc32"], budget=20)]
TRUSTED = ["clang 18 AST (vc/cast.py) and own VC generator", "z3 5.3.2, cvc5 1.1.2",
           "libmicrohttpd (specs/http.py: a response holds the bytes and headers it is given until it is destroyed; the access handler is called with no data first, then with each piece of the body, then with none; the completion callback is called once at the end of each request: driver c16)",
           "memory streams of the C library (open_memstream holds what is written once it is closed, fmemopen yields the bytes it is given, also none; fwrite writes a first part of what it is given and says how long it is)",
           "readMwsQuery reads one query, or none, from the stream (its handlers are proved in specs/query.py for C14)", "query handlers and formatters are any functions that return or throw and keep to the objects they are given"]
ASSUMPTIONS = ["memory allocation does not fail (open_memstream, new)", "exceptions are std::exception"]
BOUNDED = ["connections, pieces as they come from the network, concurrent requests, memory over many requests: driver c16 asks the running service"]
TECHNIQUE = "contracts on the access handler, the responses it sends and the memory streams between them, with ghost state for streams, buffers and responses, extracted from the C++ (own VC generator over the clang AST, z3/cvc5)"
LEVEL_NOTE = ("The access handler is proved, for every method, url, piece of a body, query, handler and formatter, to queue exactly the response its statement names, to append each piece to the body as it is, and to leave no stream, buffer or response "
              "behind; the methods of MemStream, the three generic responses, the completion callback, and starting and stopping the service are proved against the same ghost state.")
PROP = {"id": ID, "title": TITLE,
 "statement": "The service answers every HTTP request once. OPTIONS: the methods allowed, GET, POST and OPTIONS for / and POST and OPTIONS for any other url, from every origin. GET /: an XML description of the service. Other methods than POST (and GET of other urls): status 405, naming the methods allowed. POST: the body, put together from the pieces in which it comes, unchanged whatever their number and sizes, is read as one query document, once, a schema query exactly if the handler is the schema service's; if there is no query or it holds no expression: status 400; else the handler is asked, once, with this query; if it gives no answer, or the answer cannot be written, also by an exception: status 500; else status 200 with exactly the bytes the formatter of the query wrote for this answer and the content type it names. The response of one request does not depend on other requests. Streams, buffers and responses are released when the request is over, also if the client goes away in the middle. Starting the service without a handler, or where it cannot listen, is an error.",
 "quantifier": {"over": ["inputs", "histories", "faults"], "text": "every request, every division of its body into pieces, every handler and formatter, failing or not"},
 "why_tests_cant": "No test starts the service; the pieces in which a body comes, abandoned and failing requests, and their combinations on many connections are unbounded.",
 "anchors": {"files": ["src/mws/daemon/Daemon.cpp", "src/mws/daemon/GenericHttpResponses.hpp"],
   "mechanism": [{"name": "requests", "where": "accessHandlerCallback, requestCompletedCallback"}, {"name": "bodies and answers", "where": "MemStream"}, {"name": "fixed responses", "where": "sendXmlGenericResponse, sendOptionsResponse, sendMethodNotAllowedResponse"}]}}

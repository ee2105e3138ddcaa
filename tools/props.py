AI = "path-sensitive abstract interpretation over SSA (linear/array-segment domain, loop invariants inferred)"
NOTE = "Every path of the analysed functions is covered, loops by inferred inductive invariants; no input bound. Trusted: the analyser itself, its models of standard-library functions, and that callbacks and interface implementations behave as their contracts say."
NA = {}
PROPS = []


def prop(id, title, statement, over, quant, why, files, mech, technique=AI, note=NOTE, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, technique=technique, note=note))
    if na:
        NA[id] = na


prop("C01", "Every accepted TCP connection is served once, then closed and released",
     "Every connection the TCP server accepts is counted as active before anything else can wait for it, is handed to the connection callback exactly once in a goroutine of its own, is closed after the callback returned, and only then stops being counted. When accepting fails, serving ends with that very error and no callback runs for that attempt; serving itself never closes the listening socket.",
     ["schedules", "inputs", "fault_sequences"], "for every sequence of accepted connections and accept failures, and every interleaving of their handlers with a waiter",
     "The tests start and stop a server once without any connection; the order of count, callback, close and release matters only under particular interleavings.",
     ["internal/tcp/server.go"], [("accept loop", "internal/tcp/server.go:Server.Start"), ("connection goroutine", "internal/tcp/server.go:Server.connHandler")],
     technique="typestate over all paths of the accept loop and of the goroutine body it spawns (abstract interpretation)")
prop("C02", "Pausing, stopping and waiting reach every server, signal before waiting",
     "Once a TCP server is paused it makes no further accept call after the one in progress, and a listener that supports deadlines is interrupted at once, always after the pause became visible; stopping closes the listening socket and waiting blocks until no connection is active. The operations on a group of servers apply to every one of them, and all are signalled before any is waited for.",
     ["schedules", "configurations"], "for every number of servers and every interleaving of pause, accept and connection handlers",
     "No test pauses a server or operates on a group; the required order is only observable in a race window.",
     ["internal/tcp/server.go"], [("pause flag and deadline", "internal/tcp/server.go:Server.Pause"), ("group operations", "internal/tcp/server.go:StopAll, PauseAll, WaitAll")],
     technique="event-order and full-coverage-loop analysis over all paths (abstract interpretation)")
prop("C03", "A TCP client hands over exactly the bytes read, pushed-back data first",
     "Data pushed back to a connection is returned by the next read, exactly and once, before the socket is asked again; otherwise a read sets a fresh read deadline of the configured timeout from now and no deadline for writing, reads the socket once and returns exactly the bytes and the error it got, which stay as they are until the next read. A write passes the whole data to the connection and reports its error, and the connection object, its remote address and closing are those of the underlying connection.",
     ["histories", "inputs", "fault_sequences"], "for every history of reads, push-backs and writes, every data and every socket error",
     "No existing test exercises this client at all.",
     ["internal/tcp/client.go"], [("client", "internal/tcp/client.go:client")],
     technique="abstract interpretation of operation sequences from an arbitrary object state")
prop("C04", "The stream adapter loses, repeats and reorders nothing, errors come last",
     "Reading through the stream adapter yields exactly the pieces its source produced, in order and each byte once, whatever the size of the buffers it is read with; the source is only asked for more when everything it gave before was handed over. An error of the source is reported together with or after the last byte delivered before it, is then repeated without asking the source again, and resetting drops both leftover data and the error.",
     ["histories", "inputs"], "for every sequence of source results, buffer sizes and resets",
     "Two tests use one fixed string and two buffer sizes.",
     ["internal/stash/reader.go"], [("reader", "internal/stash/reader.go:Reader")],
     technique="abstract interpretation of operation sequences from an arbitrary object state")
prop("C05", "Percent-decoding is exact, bounded by its input, and rejects bad escapes",
     "Percent-decoding a path replaces every escape of two hexadecimal digits (of either case) by the byte it denotes, copies every other byte unchanged and in order, and appends the result to the buffer it is given, leaving its input as it was. An escape that is cut off by the end of the input or whose digits are not hexadecimal yields a bad-request error, and no input whatsoever makes it read out of range.",
     ["inputs"], "for every byte string",
     "The tests sample a handful of strings.",
     ["internal/uridecode/decoder.go", "internal/hexconv/hexconv.go"], [("decoding loop", "internal/uridecode/decoder.go:Decode"), ("digit table", "internal/hexconv/hexconv.go")],
     technique="inductive loop analysis by abstract interpretation against a functional specification")
prop("C06", "Path normalisation strips exactly the trailing slashes",
     "Normalising a route or request path removes all of its trailing slashes and nothing else, except that a path never loses its first character; the empty path stays empty. The result therefore never ends in a slash unless it is the single root slash, and normalising twice changes nothing more.",
     ["inputs"], "for every string", "The tests sample a handful of strings.",
     ["router/inbuilt/uri/normalize.go"], [("Normalize", "router/inbuilt/uri/normalize.go:Normalize")])
prop("C07", "Host normalisation strips one www. prefix and a default port, nothing else",
     "Normalising a host name removes one leading \"www.\" and a trailing port if and only if it is 80 or 443, and leaves everything else, including any other port, untouched. Trimming the port yields everything before the first colon, and the whole name when there is none.",
     ["inputs"], "for every string", "The tests sample a handful of host names.",
     ["router/virtual/internal/domain/normalize.go"], [("Normalize, TrimPort", "router/virtual/internal/domain/normalize.go")])
prop("C08", "Listen addresses are completed and classified by their host part alone",
     "A listen address with an empty host part gets the wildcard address prepended and is otherwise kept as it is; an address counts as localhost exactly when its host part equals \"localhost\" ignoring case, and as an IP address exactly when its host part parses as one. The host part is everything before the first colon.",
     ["inputs"], "for every string", "The tests sample a handful of addresses.",
     ["internal/address/address.go"], [("Normalize, IsLocalhost, IsIP", "internal/address/address.go")])
prop("C09", "Request methods are recognised exactly, and names and values correspond",
     "A method token is recognised if and only if it is, byte for byte, one of the nine supported method names, and yields the method of that name; every other string yields the unknown method. The name of each method is its token, and the list of all methods holds each method exactly once, ordered by value.",
     ["inputs"], "for every string and every method value", "Only a benchmark exists.",
     ["http/method/method.go", "http/method/method_string.go"], [("Parse, List", "http/method/method.go"), ("String", "http/method/method_string.go")])
prop("C10", "Status codes, reason phrases, status lines and predefined errors agree",
     "For every registered status code the reason phrase is the registered one and the status line is the code, a space, that phrase and a line end; codes that are not registered have an empty status line. Every predefined error carries the status code its name announces, and an error made of a code and a message keeps both.",
     ["inputs"], "for every status code and every predefined error", "No test covers the tables.",
     ["http/status/codes.go", "http/status/errors.go"], [("Text, Line", "http/status/codes.go"), ("predefined errors", "http/status/errors.go")])
prop("C11", "Content codings are found under their tokens; identity passes data through",
     "A registered coding is constructed once, with a buffer of its own of the configured size, and is used for exactly its own token, and for the x- alias in the case of gzip and compress, and registering one changes the meaning of no other token. Encoding and decoding hand the whole input to that coding's operation of the same direction and return its result; identity and empty input are returned unchanged, and any other token fails as unknown.",
     ["histories", "inputs"], "for every registration history, token and input", "No test covers the registry.",
     ["http/coding/codings.go"], [("Manager", "http/coding/codings.go:Manager")],
     technique="abstract interpretation of operation sequences from an arbitrary registry")
prop("C12", "The length-bucketed map finds exactly what was inserted first under a key",
     "Looking a key up finds it if and only if it was inserted, and yields the value of its first insertion. Inserting a key affects the outcome for no other key, whatever the lengths of the keys involved.",
     ["histories", "inputs"], "for every history of insertions and every pair of keys", "The tests insert two or three fixed keys and never insert a key twice.",
     ["internal/strlenmap/map.go"], [("Map", "internal/strlenmap/map.go:Map")],
     technique="abstract interpretation of operation sequences from an arbitrary map, quantified array facts")
prop("C13", "An attachment keeps its content and size, and closes closable content once",
     "An attachment reports the content and the size it was made with. Closing it closes the content exactly once if the content can be closed, and does nothing otherwise.",
     ["inputs"], "for every content and size", "No test covers attachments by themselves.",
     ["internal/types/attachment.go"], [("Attachment", "internal/types/attachment.go")])
prop("C14", "Completing a configuration keeps every set option and defaults every other",
     "Completing a user's configuration keeps each option the user set and gives each option left unset its default, every option independently of all others. Every default is itself a usable value, and no default initial size lies above the default maximum of the same setting.",
     ["configurations"], "for every combination of set and unset options", "No test completes a partially set configuration.",
     ["config/config.go"], [("Fill, Default", "config/config.go")],
     technique="field-by-field path-sensitive analysis with one option symbolic at a time")
prop("C15", "Key-value storage keeps pairs in order and answers lookups ignoring case",
     "A key-value storage (headers, query parameters, cookies) holds the values of the map it was made of, if any, and the pairs added since, or since it was last cleared, in order. Looking a key up ignores case and yields the first value added under it or reports that there is none; listing the values of a key yields all of them in order, and listing the keys yields every distinct one once. A copy holds the same pairs and shares no memory with the original.",
     ["histories", "inputs"], "for every history of additions and clearings, and every key", "The tests use one fixed set of pairs.",
     ["internal/keyvalue/storage.go"], [("Storage", "internal/keyvalue/storage.go:Storage")],
     technique="abstract interpretation from an arbitrary storage; search and filter loops decided inductively")
prop("C16", "Protocol tokens are recognised exactly; upgrade picks the first supported",
     "A protocol token is recognised if and only if it is, byte for byte, the one of a supported version, and rendering a version yields its token. Of an upgrade list the first supported protocol is chosen, tokens being separated by commas and surrounded by optional blanks; when there is none, none is chosen.",
     ["inputs"], "for every string", "The tests sample a handful of tokens.",
     ["http/proto/proto.go", "http/proto/upgrade.go"], [("FromBytes, String", "http/proto/proto.go"), ("ChooseUpgrade", "http/proto/upgrade.go")])
prop("C17", "Cookie headers are split into exactly their pairs, or rejected",
     "Parsing a cookie header adds, in order, exactly the name and value of each of its pairs: the name reaches up to the first equals sign, the value up to the next semicolon, and one space after a semicolon belongs to neither. A piece without an equals sign or with an empty name is rejected as an error, and no input makes the parser read out of range.",
     ["inputs"], "for every string", "The tests sample a handful of headers.",
     ["http/cookie/jar.go"], [("Parse", "http/cookie/jar.go")],
     technique="inductive analysis of the parsing loop by abstract interpretation")
prop("C18", "Query parameters are split on the raw text and decoded one by one, lazily",
     "The parameters of a query are, in order, the pieces between ampersands of the raw text: the name reaches up to the first equals sign and the value behind it, a name without one has the value 1, and each is decoded on its own, a plus standing for a space. An undecodable piece or an empty name in front of an equals sign is an error, reported at every access, while the raw query is never changed. Setting a new query forgets all parameters of the previous one.",
     ["inputs", "histories"], "for every query and every sequence of settings and accesses", "The tests sample a handful of queries, each accessed once.",
     ["http/query/query.go", "http/query/internal/parser.go"], [("Parse", "http/query/internal/parser.go:Parse"), ("Query", "http/query/query.go:Query")],
     technique="inductive analysis of the parsing loop and operation sequences from an arbitrary state by abstract interpretation")
prop("C19", "Every request on a connection is answered once, in order, or ends it",
     "On a connection, every request read is passed to the router once its headers are complete, with its body prepared and the bytes behind its headers pushed back, and the response the router returned (or the plain one when it returned none) is written exactly once, in the version an accepted upgrade - only to another HTTP/1 version - switched to, before the next request is read. A malformed request is answered by the router's error handler, after which the connection is over; a failed read, write or clearing of the request also ends it and is reported to the router as a closed connection. After a handler took the connection over, nothing more is read from it or written to it.",
     ["histories", "schedules"], "for every sequence of reads, parser outcomes, handler results and write outcomes",
     "The tests serve a few fixed request sequences without failures at each point.",
     ["internal/protocol/http1/suit.go"], [("serve", "internal/protocol/http1/suit.go:Suit.serve"), ("Serve, ServeOnce", "internal/protocol/http1/suit.go")],
     technique="typestate analysis of the serve loop by abstract interpretation, with parser, router and serializer as arbitrary operations")
prop("C20", "A response is written as exactly the message it stands for",
     "The bytes written for a response are the protocol, the status line (its custom text if set), every header in order as a name and value line, every default header no response header of the same name (ignoring case) replaces, the content type, the transfer encoding if set, one line per cookie with exactly its set attributes, the length of the body, an empty line and the body. The body is left out for HEAD requests, while its length is kept. Nothing of a response, including replaced default headers, affects the next one.",
     ["inputs", "histories"], "for every response, set of default headers and history of responses before it",
     "The tests compare a handful of responses.",
     ["internal/protocol/http1/serializer.go"], [("Write, PreWrite", "internal/protocol/http1/serializer.go:Serializer"), ("default headers", "internal/protocol/http1/serializer.go:processDefaultHeaders")],
     technique="symbolic reconstruction of the output buffer by abstract interpretation, loops decided per iteration")
prop("C21", "A connection persists exactly when protocol, header and writes permit",
     "After a response the connection is kept exactly when it was written successfully and the client's protocol and Connection header ask for it: HTTP/1.1 unless the header says close, HTTP/1.0 only if it says keep-alive, both ignoring case, or when an upgrade was requested. In every other case writing the response reports that the connection is to be closed.",
     ["inputs", "fault_sequences"], "for every protocol, Connection header, upgrade and outcome of the writes",
     "The tests sample two protocols and two header values.",
     ["internal/protocol/http1/serializer.go"], [("keep-alive decision", "internal/protocol/http1/serializer.go:isKeepAlive"), ("Write", "internal/protocol/http1/serializer.go:Serializer.Write")],
     technique="path-sensitive decision table by abstract interpretation")
prop("C22", "Attachments are sent complete and well framed, and always released",
     "An attachment of known size is announced by that length and exactly that many bytes of it follow; one of unknown size is sent as chunks, each carrying its own length in hexadecimal, closed by the empty chunk only after the content ended. A HEAD request gets the head alone. When the content or a write fails before the announced end the connection is given up, and in every case the content is released exactly once, after it was used.",
     ["inputs", "fault_sequences"], "for every content, size, read outcome and write outcome",
     "The tests send one small attachment without failures.",
     ["internal/protocol/http1/serializer.go"], [("sendAttachment", "internal/protocol/http1/serializer.go:Serializer.sendAttachment"), ("writePlainBody, writeChunkedBody", "internal/protocol/http1/serializer.go")],
     technique="inductive analysis of the copying loops by abstract interpretation with arbitrary readers and writers")
prop("C23", "A body is read exactly to its end, within its limit, by every accessor",
     "The pieces read of a body make up exactly the announced number of bytes, or the data of its chunks up to the final one, and whatever follows is pushed back for the next request. A body larger than the limit fails as too large before a piece beyond the limit is delivered or memory for it is taken, and a connection that fails or ends inside a body is an error, never the end of the body. Reading it whole, through a callback, as a stream or discarding it visits every piece once, in order, up to the end, and starts over with each request's own body; a body read whole can be read whole again.",
     ["inputs", "histories", "fault_sequences"], "for every announced length, limit, division into reads and chunks, and outcome of each read",
     "The tests read a few bodies, without failures and one per connection.",
     ["internal/protocol/http1/body.go"], [("Retrieve", "internal/protocol/http1/body.go:Body.Retrieve"), ("Init", "internal/protocol/http1/body.go:Body.Init"), ("Bytes, String, Callback, Discard", "internal/protocol/http1/body.go")],
     technique="inductive analysis of one read from an arbitrary point and of the consuming loops by abstract interpretation")
prop("C24", "Request lines are taken apart alike however they arrive",
     "However a request line is divided into reads, its method reaches up to the first space, its protocol from behind the last space to the line feed without a carriage return, and its target lies between: the query behind its first question mark, the path, decoded, in front of it. An unknown method, an empty or undecodable path, a missing or unknown protocol and a line too long are refused, each as its own error, and nothing else is. No input makes the parser panic.",
     ["inputs", "histories"], "for every request line, every division of it into reads, and any earlier requests on the connection",
     "The tests feed a few request lines in pieces of a few sizes.",
     ["internal/protocol/http1/parser.go"], [("Parse", "internal/protocol/http1/parser.go:Parser.Parse")],
     technique="abstract interpretation of the parser from every resumption point, each path simulated against the grammar")
prop("C25", "Header lines are taken apart alike however they arrive, within their limits",
     "However a head is divided into reads, every header line is added to the request under the text before its first colon, with the text up to the line feed, stripped of leading spaces and a carriage return, as its value, until an empty line ends the head and what follows is handed back. A name or value longer than its limit, more headers than allowed, a line break inside a name or a lone carriage return at the end is refused. Once a head is complete, nothing of it influences how the next one on the connection is parsed.",
     ["inputs", "histories"], "for every head, every division of it into reads, every limit and any earlier requests on the connection",
     "The tests feed a few heads in pieces of a few sizes.",
     ["internal/protocol/http1/parser.go"], [("Parse", "internal/protocol/http1/parser.go:Parser.Parse"), ("cleanup", "internal/protocol/http1/parser.go:Parser.cleanup")],
     technique="abstract interpretation of the parser from every resumption point, each path simulated against the grammar")
prop("C26", "A Content-Length is read exactly, or the request is refused",
     "The length of a request's body is the decimal number in its Content-Length header, recognised in any case, with spaces allowed around it, however it is divided into reads. A second such header, one without digits, with anything but digits or with digits apart, and a number that doesn't fit an int are refused as a bad request instead of being guessed at.",
     ["inputs", "histories"], "for every header and every division of it into reads",
     "The tests feed one valid length.",
     ["internal/protocol/http1/parser.go"], [("Content-Length states", "internal/protocol/http1/parser.go:Parser.Parse")],
     technique="abstract interpretation of the parser from every resumption point; the digit loop decided per iteration")
prop("C27", "Headers that steer the server are noticed in every spelling, others never",
     "The headers Connection, Content-Type, Upgrade, Trailer, Content-Encoding and Transfer-Encoding, spelt in any case, set exactly what they stand for in the request, and no other header does. A list of codings is split at its commas into trimmed, non-empty codings, at most as many as configured, and chunked is reported exactly if one of them is chunked in any case.",
     ["inputs"], "for every header name and value",
     "The tests sample a few spellings.",
     ["internal/protocol/http1/parser.go"], [("header value state", "internal/protocol/http1/parser.go:Parser.Parse"), ("parseEncodingString", "internal/protocol/http1/parser.go:parseEncodingString")],
     technique="byte-set analysis of the name comparisons on every abstract path; inductive analysis of the list loop")
prop("C28", "Serving never changes memory that connections share",
     "While requests are served, whatever connections share - the routers with their routes, catchers, error handlers and middleware settings, the configuration and all package-level state - is only ever read, or changed under a lock. Neither does serving write into memory of strings, nor into spare capacity of buffers handed in by handlers, so requests served at the same time can't influence each other.",
     ["schedules", "programs"], "for every interleaving of any number of connections and every call a handler may make",
     "The tests serve one connection at a time; a race needs two at once.",
     ["router", "http", "internal"], [("serving entries", "router/inbuilt/inbuilt.go"), ("buffers of handlers", "http/response.go"), ("TRACE", "router/inbuilt/trace.go")],
     technique="whole-program points-to and effect analysis (Andersen style, field sensitive, closures as allocation sites)")
prop("C29", "Every request and error gets the handler that is due",
     "All mutators see a request first, in order; then it is answered by the handler registered for its normalised path and its method, for HEAD by the one for GET if there is none of its own. A path that isn't found is answered by the first catcher whose prefix it starts with, a TRACE request without a handler by itself, and every other failure by the error handler of its code, or else the one for all errors, which finds the error in the request; without any the code and message are the answer, and a foreign error is an internal one. Exactly one handler is called per request and its response is the answer.",
     ["inputs", "programs"], "for every request, error and set of registered routes, catchers, mutators and error handlers",
     "The tests send a handful of requests to small routers.",
     ["router/inbuilt/inbuilt.go", "router/inbuilt/trace.go", "router/inbuilt/mutator.go"], [("OnRequest, OnError", "router/inbuilt/inbuilt.go:runtimeRouter"), ("TRACE", "router/inbuilt/trace.go:renderHTTPRequest")],
     technique="path-sensitive abstract interpretation of the dispatch with arbitrary handlers, loops decided per iteration")


prop("C30", "Routes are served exactly as they were registered",
     "Every handler registered for a method and a path, on a router or on any group below it, is the one looked up for that method under the prefixes of its groups followed by its path, normalised, and for nothing else. Registering the same method and path once more, also by different groups, is refused at registration or initialisation and never replaces a handler. A resource registers everything with its own group. The methods listed as allowed for a path are those registered for it, paths with templates are looked up as such, and of the catch-all prefixes the longest is asked first.",
     ["programs", "configurations"], "for every sequence of registrations on a router and its groups",
     "The tests register a few routes on one or two groups.",
     ["router/inbuilt/registrar.go", "router/inbuilt/groups.go", "router/inbuilt/route.go", "router/inbuilt/types.go", "router/inbuilt/inbuilt.go", "router/inbuilt/resource.go", "router/inbuilt/predicates.go"],
     [("registration", "router/inbuilt/registrar.go:registrar.Add, Merge"), ("tables", "router/inbuilt/registrar.go:registrar.AsMap, AsRadixTree"), ("groups", "router/inbuilt/groups.go:Router.Group, prepare")],
     technique="path-sensitive abstract interpretation of registration with symbolic maps, loops over maps decided per entry")

prop("C31", "Middlewares wrap handlers in the order they were given",
     "A handler registered with middlewares is called through all of them, each once, the first one outermost; the middlewares of its group lie around those, and the ones of the groups above around these, no matter whether they were added before or after the handler. The same holds for catch-all handlers, and error handlers are called through the middlewares of the router.",
     ["programs", "configurations"], "for every set of handlers, groups and middlewares",
     "The tests count the calls of a few middlewares on one or two levels.",
     ["router/inbuilt/middlewares.go", "router/inbuilt/groups.go", "router/inbuilt/catchers.go", "router/inbuilt/inbuilt.go"],
     [("composition", "router/inbuilt/middlewares.go:compose"), ("application", "router/inbuilt/groups.go:Router.prepare")],
     technique="path-sensitive abstract interpretation of composition and application, closures run symbolically, loops decided per iteration")

prop("C32", "Path templates match paths segment by segment, literals before parameters",
     "A template is taken apart at its slashes into literal segments and parameters; one without a leading slash, or with braces that aren't closed or don't make up a whole segment, is refused. A path is matched segment by segment from the root: at every level a literal segment equal to the path's wins over a parameter, which takes any non-empty segment and records it under its name, and the path is answered by what was registered where it ends, if anything. No registered template is lost, however many siblings it has, and parameters of different names at the same place are refused.",
     ["inputs", "programs"], "for every set of templates and every path",
     "The tests insert a few templates and match a few paths; a wide level is reached by none.",
     ["router/inbuilt/internal/radix/tree.go", "router/inbuilt/internal/radix/template.go", "router/inbuilt/internal/radix/arrmap.go"],
     [("templates", "router/inbuilt/internal/radix/template.go:Parse"), ("insertion and matching", "router/inbuilt/internal/radix/tree.go:Node.insertRecursively, Match"), ("wide levels", "router/inbuilt/internal/radix/arrmap.go:arrMap")],
     technique="inductive analysis of the template automaton, of insertion and of matching by abstract interpretation, loops decided per iteration")

prop("C33", "Static files never lead outside of their directory",
     "A directory served under a prefix answers a request exactly by the file whose name is the directory, a separator and what follows the prefix - the groups' prefixes included - and its slash in the request's path. A path that doesn't start with the prefix and a slash, or that contains two dots in a row anywhere, is answered as not found and opens no file.",
     ["inputs", "configurations"], "for every prefix, directory and request path",
     "The tests request one or two files and one path with dots.",
     ["router/inbuilt/static.go", "internal/pathlib/pathlib.go"],
     [("handler", "router/inbuilt/static.go:Router.Static"), ("double dots", "router/inbuilt/static.go:isSafe"), ("names", "internal/pathlib/pathlib.go:Path")],
     technique="path-sensitive abstract interpretation of the handler with the buffer's contents tracked by overlaid copies, inductive analysis of the scan")

prop("C34", "Virtual hosts answer exactly the requests for their host",
     "A request, and an error that occurred on it, is handed to the first router registered for the request's host, compared without regard to case, a leading www. and the default ports, and to the default router if there is none for it or the request names no host; its answer is the answer. Without a default router, a request for an unknown host is answered as misdirected and one without a host as a bad request, as is any with several hosts. Registering a host, 0.0.0.0 meaning the default, and initialising keeps every router under its host, each initialised once.",
     ["inputs", "programs"], "for every set of hosts and every request",
     "The tests send a few hosts to routers with one or two of them.",
     ["router/virtual/virtual.go"],
     [("choice", "router/virtual/virtual.go:runtimeRouter.getRouter"), ("registration", "router/virtual/virtual.go:Router.Host, Initialize")],
     technique="path-sensitive abstract interpretation of the choice with arbitrary routers, loops decided per iteration")

prop("C35", "An application serves all its addresses and stops as it was asked to",
     "Every registered address is bound by its own listener, or plain TCP, and its connections handed to its own handler, or to HTTP/1 with the application's configuration and the encryption it was registered with; if one can't be bound, those bound before are released and the error returned. A server that fails or a request to stop ends the application: a graceful stop lets current connections finish, everything is stopped before the stop callback is called, no goroutine is left waiting, and what ended it is returned; each callback is called once, if it is there, at its time. Encrypted addresses use the given certificate, or ask for certificates of the given domains only, or a self-signed one whose key nobody else can read.",
     ["programs", "schedules", "fault_sequences"], "for every set of addresses, way of ending and failing call",
     "The tests start one application and stop it, without a failing listener.",
     ["indi.go", "https.go"],
     [("life cycle", "indi.go:App.Serve, bind, run, Stop, GracefulStop"), ("addresses", "indi.go:New, App.Listen, HTTPS, AutoHTTPS, Tune"), ("certificates", "https.go:tlsListener, autoTLSListener, generateSelfSignedCert")],
     technique="path-sensitive abstract interpretation of the life cycle incl. the goroutines' bodies, loops decided per iteration, closures composed with their captured variables")

prop("C36", "A request and a response never show anything of the previous one",
     "Before a connection's next request, what remains of the current one's body is skipped, or the failure to do so reported; then everything the request says is as of a connection's first one: method, path, protocol, query, parameters, headers, encodings, content length and type, connection, upgrade, context and environment, with only the connection itself, its remote address and encryption kept. A response that is asked for is always the request's own and always starts as a new one does: 200, the default content type, no status text, headers, cookies, body or attachment.",
     ["histories", "inputs"], "for every field, whatever it held before",
     "The tests look at a few fields after one request.",
     ["http/request.go", "http/response.go", "internal/response/fields.go"],
     [("request", "http/request.go:Request.Clear, NewRequest"), ("response", "internal/response/fields.go:Fields.Clear; http/response.go:NewResponse, Clear; http/request.go:Respond")],
     technique="abstract interpretation of clearing from arbitrary contents, compared field by field with the state a constructor leaves")
prop("C37", "A connection is served within exactly the limits that are configured",
     "Every part of a served connection is made with the option of the configuration that is meant for it: timeout and size of reads, body and chunk limits, the spaces for keys, values and request lines, header limits, the file buffer and the default headers. All parts belong to the same connection, request and router, nothing of a connection is shared by two purposes, and requests carry the connection's encryption before the first one is served.",
     ["configurations", "programs"], "for every configuration",
     "The tests use the default configuration, in which many options have equal values, or build the parts by hand.",
     ["http/serve/http1.go", "internal/construct/constructors.go", "internal/protocol/http1/suit.go"],
     [("set up", "http/serve/http1.go:HTTP1; internal/construct/constructors.go; internal/protocol/http1/suit.go:Initialize, New")],
     technique="abstract interpretation of setting a connection up with a symbolic configuration; provenance of every constructor argument")

prop("C38", "Building a response changes exactly what was asked for",
     "Every step of building a response sets what it is named for to exactly what it was given, changes nothing else and returns the same response: headers, cookies and written data go behind what was there, a content type or transfer encoding given as a header, in any spelling, replaces the current one, and a body is the one given. An error sets its own code if it is an HTTP error, otherwise the first code given or that of an internal error, with its text as the body, and no error changes nothing; JSON is the model's encoding alone with its content type, or the failure. The shortcuts taking a request do the same to that request's cleared response.",
     ["inputs", "programs"], "for every argument and every response built so far",
     "The tests build a few responses with one or two steps each.",
     ["http/response.go"],
     [("builder", "http/response.go:Response.*"), ("shortcuts", "http/response.go:Respond, Code, String, Bytes, JSON, Error")],
     technique="path-sensitive abstract interpretation with a frame condition on all fields; loops decided per iteration")
prop("C39", "A file is served whole and typed by its extension, or refused and closed",
     "Responding with a file opens it for reading and attaches it with its size and the registered media type of its extension, text types and only those with their charset, or as an octet stream if the extension is unknown. What can't be opened and directories are not found, what can't be examined is an internal error, leaving the response as it was; a file that isn't attached is closed, once.",
     ["inputs", "fault_sequences"], "for every path, extension and failing call",
     "The tests serve two files and a missing one.",
     ["http/response.go", "http/mime/exts.go", "http/mime/common.go"],
     [("file", "http/response.go:Response.TryFile, File"), ("types", "http/mime/exts.go:Extension")],
     technique="path-sensitive abstract interpretation with every call's failure as a case; the table of types evaluated from its initialiser and compared with the registered types")

prop("C40", "A header's value and parameters are found exactly where they are",
     "A header's value is everything in front of its first semicolon. A parameter's value is exactly what stands between the equals sign of its first occurrence, directly behind a semicolon, and the next semicolon or the end, and the given default, iso-8859-1 for charsets, if there is none. The quality is the number behind 0. and 9 if there is none or it isn't a number.",
     ["inputs"], "for every header value and parameter name",
     "The tests look at a few values with one or two parameters.",
     ["http/headers/valueaccessors.go"],
     [("accessors", "http/headers/valueaccessors.go:ValueOf, ParamOf, ParamOfOr, CharsetOf, QualityOf")],
     technique="path-sensitive abstract interpretation with string-search facts, compared with a declarative definition; in-bounds obligations")
prop("C41", "What a request brings is read completely, or the failure told",
     "Reading cookies gives those of all cookie headers of this request, in order, and no others, or the first malformed header's error and no cookies. Reading JSON decodes the whole body into the model and returns the decoder's error, refusing exactly bodies declared to be of another type and reporting those that can't be read. Taking a connection over reads the rest of the body first, returns the request's own connection and marks the request; if that fails, the error is returned, no connection, and nothing is marked.",
     ["inputs", "histories", "fault_sequences"], "for every request and every failing read",
     "The tests read one cookie header and one body; none of the failures.",
     ["http/request.go", "http/encoding.go"],
     [("reading", "http/request.go:Request.Cookies, JSON, Hijack, WasHijacked"), ("encodings", "http/encoding.go:Encoding.Identity")],
     technique="path-sensitive abstract interpretation with every call's failure as a case; loops decided per iteration")
prop("C42", "A built cookie carries exactly what it was given",
     "A new cookie has the given name and value and no attributes. Every step of building one sets its own attribute to exactly what it was given and leaves all others, and the cookie it was started from, as they were; the predefined same-site values are Lax, Strict and None.",
     ["inputs", "programs"], "for every cookie built so far and every argument",
     "The tests build two cookies.",
     ["http/cookie/cookie.go"],
     [("builder", "http/cookie/cookie.go:New, Build, Builder.*")],
     technique="abstract interpretation of every step composed with the final one, compared field by field")

prop("C43", "Middlewares and aliases change exactly what they are for",
     "The next handler is called at most once, with the request, and its response is the answer, unless the middleware answers itself: a redirect exactly its own path, HTTPS-only exactly unencrypted requests, by the encrypted host and the escaped path that was requested, or as bad ones if no host is known. A handler's panic is answered as an internal error, a missing response as an empty one; the server header, context and log lines, with escaped paths, are for every request as configured, each logger told once. An alias replaces exactly its path, under its group's prefix, and remembers the original.",
     ["inputs", "configurations", "fault_sequences"], "for every request, handler and configuration of the middleware",
     "The tests don't run most middlewares at all.",
     ["router/inbuilt/middleware/httpsonly.go", "router/inbuilt/middleware/recover.go", "router/inbuilt/middleware/logging.go", "router/inbuilt/middleware/serverheader.go", "router/inbuilt/middleware/redirect.go", "router/inbuilt/middleware/customcontext.go", "router/inbuilt/mutator/alias.go", "router/inbuilt/mutator/requestlogger.go", "router/inbuilt/aliases.go"],
     [("middlewares", "router/inbuilt/middleware: HTTPSOnly, Redirect, Recover, LogRequests, ServerHeader, CustomContext"), ("mutators", "router/inbuilt/mutator: Alias, RequestsLog; router/inbuilt/aliases.go:Router.Alias")],
     technique="path-sensitive abstract interpretation of the constructors composed with the closures they return, responses tracked by what is done to them in any order")
prop("C44", "A path is never logged with anything but printable characters",
     "Escaping a path leaves every printable ASCII character as it is and replaces every other byte, in place, by a backslash and the character standing for it, 0, a, b, t, n, v, f or r, or a question mark if there is none. A path of printable characters comes out as it is.",
     ["inputs"], "for every path, byte by byte",
     "The tests escape a few strings.",
     ["http/path.go"],
     [("escaping", "http/path.go:Escape")],
     technique="inductive analysis of the loop: every way through an iteration decided for all 256 bytes")
prop("C45", "An error nobody handles is answered by itself",
     "A new router answers an error that has no handler of its own by that error's code, and a method that isn't allowed as such, naming the allowed ones. The simple router hands every request to its handler and every error, stored with the request first, to its error handler, once, and returns what that returns.",
     ["inputs", "programs"], "for every request, error and handler",
     "The tests look at one or two errors.",
     ["router/inbuilt/defaulterrhandlers.go", "router/inbuilt/inbuilt.go", "router/simple/simple.go"],
     [("defaults", "router/inbuilt/defaulterrhandlers.go"), ("simple router", "router/simple/simple.go:Router")],
     technique="abstract interpretation of the handlers a constructor registers, and of the simple router from construction on")

prop("N01", "Serving a plain request allocates no memory once a connection is warm",
     "After its first requests, a connection parses, routes and answers requests within the configured sizes from memory it already has.",
     ["histories", "inputs"], "for every connection and every request within the pre-allocated sizes",
     "Benchmarks only sample a few requests.",
     ["internal/protocol/http1/parser.go", "internal/protocol/http1/serializer.go"], [("buffers", "internal/protocol/http1")],
     na="Whether a value escapes to the heap and whether a buffer has room left depends on compiler decisions and on run-time capacities; no sound static argument in reach bounds them.")
prop("N02", "Every request is eventually answered or its connection closed",
     "A peer that is slow, silent or disappears is given up after the configured time, and never keeps other connections from being served.",
     ["schedules", "fault_sequences"], "for every timing of peers and every schedule of connections",
     "No test involves time.",
     ["internal/tcp/client.go", "internal/tcp/server.go"], [("deadlines", "internal/tcp/client.go:client.Read")],
     na="Liveness under a fair scheduler and a real clock: the analysis has no notion of fairness or elapsed time. The safety side (a fresh deadline before every read, connections in goroutines of their own) is claimed by C01, C03 and C37.")
prop("N03", "A chunked body is decoded exactly",
     "Decoding a chunked body yields the concatenation of its chunks' data, rejects malformed chunks and ends exactly behind the last one.",
     ["inputs"], "for every body and every way it arrives in pieces",
     "The tests decode a few bodies.",
     ["internal/protocol/http1/body.go"], [("decoder", "module indigo-web/chunkedbody, used by internal/protocol/http1/body.go")],
     na="The decoder is a third-party module whose source is not in this sandbox. What is fed to it and what is done with its results is claimed by C23.")

#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Route selection picks the most specific matching route",
  "For any table of routes and any request path (one leading and one trailing slash are ignored), the request is served by exactly one matching route: patterns are compared segment by segment, a literal segment beating a regular-expression one, that beating a named placeholder, that beating a wildcard, a final wildcard that swallows several segments coming last, and earlier registration breaking ties. A choice that later turns out to be a dead end is abandoned for the next best, so a request is answered as not found only if no registered pattern of its method matches. The full route pattern reported to handlers is the pattern of the route whose handlers run.",
  ["inputs", "configurations"], "all route tables (any number, order, mix of the four segment kinds, gin-style and native spelling) x all request paths",
  "The tests build a handful of one- or two-route trees and look up one path each; priority, ties, backtracking and multi-wildcard interplay only show in tables they never build.",
  ["tree.go", "router.go", "engine.go", "content.go"],
  [("prefix tree with nodes kept sorted by kind", "tree.go addEndNode/addSubNode"), ("depth-first match with backtracking", "tree.go matchNextSegment"), ("gin spelling translated", "router.go _VariantUri")],
  ["identity of the handler that ran", "reported full path", "status"])
p("C02", "Handlers see exactly the matched route's path parameters",
  "The path parameters a handler sees are exactly the ones its own route pattern names, each equal to the piece of the request path its element matched: the whole segment for a placeholder or a non-final wildcard, the capture group (or, without groups, the matched text) for a regular expression, and the rest of the path for a final wildcard; unnamed wildcards appear as *0, *1, ... counted left to right over all wildcards of the pattern, and elements named _ yield nothing. Nothing of any other route, of an abandoned match attempt or of an earlier request is ever visible, and looking up a name that is not there fails loudly.",
  ["inputs", "configurations"], "all route tables with distinct parameter names per pattern x all request paths",
  "The tests check single-route trees; leaks from abandoned branches need competing patterns and particular paths.",
  ["tree.go", "params.go", "engine.go"],
  [("parameters recorded while the match unwinds", "tree.go matchSubNode/matchEndNode"), ("panicking lookup", "params.go Params.String")],
  ["parameter map seen by the handler"])
p("C03", "The static-route option changes speed only",
  "Turning the static-route fast path on or off never changes what any request observes: the same handlers run in the same order, with the same parameters, reported route pattern, status and body, for every route table and every sequence of requests.",
  ["inputs", "configurations", "histories"], "all route tables without empty segments x all request sequences, with the option on and off",
  "Only one test turns the option on, and it sends no request at all.",
  ["engine.go", "option.go"],
  [("exact-path map consulted before the tree", "engine.go ServeHTTP/buildTree"), ("only all-literal routes enter the map", "engine.go isStaticRoute")],
  ["responses and handler traces of two engines fed the same sequence"],
  state=[("routersStatic", "per-method map of literal routes", "engine.go Engine")])
p("C04", "Only the request's own method, and supported requests, are served",
  "A request runs only handlers of routes registered for exactly its own method; registering for any method covers GET, POST, DELETE, PUT and PATCH (and HEAD or OPTIONS only if the exclusion list is changed). Any other method is answered 405, and a request older than HTTP/1.1, with target '*', or with method CONNECT is answered 406, in each case without running any handler, not-found handlers included.",
  ["inputs", "configurations"], "all request methods (standard, extension, wrong case), protocol versions and targets x all route tables",
  "The tests send GET and POST over HTTP/1.1 only.",
  ["engine.go", "router.go"],
  [("gate at the top of the engine", "engine.go ServeHTTP"), ("per-method trees", "router.go MethodIndex"), ("ANY exclusion list", "router.go ANY")],
  ["status", "which handlers ran"])
p("C05", "Each route runs exactly its own middleware stack, in order",
  "The chain executed for a matched route is: the root's before-handlers, then the middlewares of the root and of every enclosing group from the outermost inwards, each in registration order, then the route's own handlers in the order given. A middleware attached to a group, whether through Use or handed over when the group is created, runs for that group's routes (nested groups and routes declared earlier included) and for no route outside it, whatever the caller later does with the slices it passed.",
  ["configurations", "inputs"], "all trees of nested groups, with middlewares and routes declared in any order and any accepted handler form",
  "The tests print route trees with one or two middlewares and never assert which handlers ran.",
  ["router.go"],
  [("stack assembled by walking from leaf to root", "router.go getRoute"), ("group creation", "router.go Group"), ("handler forms unified", "engine.go newHandler")],
  ["order of handler-start events per request"])
p("C06", "A chain runs each handler once, in order, and stops when answered",
  "While a request is handled, handlers start in chain order and each at most once; when one returns without having answered, the next starts by itself, and after a response has been started no further handler starts unless a running handler explicitly asks for the next one. Asking for the next runs the remaining handlers to completion before returning, so the code after it runs innermost first; asking when nothing is left is harmless.",
  ["inputs", "programs"], "all chains (length, which handlers answer, which ask for the next, once or again, before or after answering)",
  "The tests' chains have at most one middleware around one handler.",
  ["context.go"],
  [("cursor over the handler slice", "context.go Next/run"), ("answered flag", "context.go WriteHeader")],
  ["sequence of handler enter/exit events"],
  state=[("index", "position in chain", "context.go Context"), ("written", "response started", "context.go Context")])
p("C07", "Requests never observe each other's state",
  "However many requests are served, in sequence or concurrently, and whether earlier ones matched, missed or panicked, a handler observes only its own request's parameters, stored values, route, status, body and response; nothing of any other request is visible or altered, values stored in one request are absent in every other, what a handler keeps of its own parameters and store stays as it was, and serving concurrently is free of data races.",
  ["schedules", "histories"], "all interleavings and sequences of requests on one engine, panicking and not-found requests mixed in",
  "The tests serve one request at a time and never reuse a pooled context with different content.",
  ["engine.go", "context.go", "environ.go"],
  [("per-request context taken from a pool and reset", "engine.go ServeHTTP"), ("reset", "context.go reset")],
  ["tokens each handler reads back against the ones its request sent", "race detector reports"],
  state=[("ctxPool", "recycled contexts", "engine.go Engine")])
p("C08", "One response head per request, and handlers can trust what they see of it",
  "At most one status is sent per request and the first one chosen wins; later attempts change nothing on the wire. A status that cannot be sent chooses nothing, and an informational one (1xx but 101) is passed on with the answer still to come. Whatever way a response is produced (plain writes, helpers, files, redirects, adapted net/http handlers), from then on the request reports itself as answered with exactly the status that was sent, so middlewares that look afterwards never answer a second time. The body received is the concatenation of the writes in order, and a body written without a status gets 200 and a detected content type unless one was set.",
  ["inputs", "programs"], "all sequences of status and body operations through every response-producing operation, over a real connection",
  "The tests look only at the final code of single-write handlers.",
  ["context.go", "content.go", "m_static.go", "engine.go"],
  [("guarded WriteHeader", "context.go WriteHeader"), ("implicit 200 and sniffing", "context.go Write")],
  ["statuses passed to the underlying writer", "reported status and answered flag", "bytes on the wire"])
p("C09", "Response helpers deliver the status, type and body they were given",
  "What the client receives from a response helper is the status passed in, the content type that belongs to the helper (text/plain, text/html, application/json, application/xml in UTF-8, or the caller's own for raw data and streams, whatever content type was set before and whatever answers failed before) and exactly the given body, JSON and XML decoding back to an equal value. Redirect helpers send 301 or 302 with the target, and the bare-status helpers send just that status.",
  ["inputs"], "all statuses that allow a body, all payloads (any size, binary, maps, nested values), content types and helpers, over a real connection",
  "The tests call two helpers and never read a header or body back.",
  ["content.go", "render.go"],
  [("helpers set type, status, body", "content.go String/Data/HTMLRaw/JSON/XML/Stream"), ("redirect helpers", "content.go MovedPermanently/Found")],
  ["status line, Content-Type, Location and body received by a real client"])
p("C10", "A panic in a handler is contained",
  "With the recovery middleware installed, a panic with any value in any later handler yields a 500 if no response was started (otherwise the response already begun stands), runs no further handler, and leaves the server and all other and later requests unaffected. In stable mode the client learns nothing of the panic; with no panic and no response the middleware answers 200. Without recovery a panic costs only its own connection.",
  ["fault_sequences", "schedules", "inputs"], "all panic values, positions in the chain and points relative to the response, mixed with healthy concurrent requests",
  "No test panics at all.",
  ["m_recovery.go", "engine.go", "context.go", "version.go"],
  [("deferred recover", "m_recovery.go Recovery"), ("context not recycled on panic", "engine.go ServeHTTP")],
  ["status and body seen by the client", "handler events", "behaviour of the following requests"])
p("C11", "Unmatched requests get a clean not-found answer",
  "A request that no route of its method matches is answered 404 with an empty body and no header of the engine's own, and runs no handler. If not-found handlers are configured, exactly the root's before-handlers followed by those handlers run, in order and under the normal chain rules, with no path parameters and no route pattern visible, and the status is whatever they choose (200 if they choose none).",
  ["inputs", "configurations"], "all route tables, methods, unmatched paths and not-found configurations",
  "One test sends two unmatched requests through a single no-op handler.",
  ["engine.go", "router.go", "option.go"],
  [("fallback in the engine", "engine.go ServeHTTP"), ("before-handlers prefixed", "router.go Handler")],
  ["handler events", "status", "parameters"])
p("C12", "CORS grants exactly what was configured",
  "Through the CORS middleware, the allowed origin returned is '*' or the request's own origin and only when that entry is configured (all origins if none is); for any other origin nothing is granted. An OPTIONS request is answered 204 without running later handlers and carries the configured methods, the configured headers (or, with none configured, the requested ones) and the max-age if positive; every other request goes on to the later handlers with the exposed headers set. Credentials are announced only if configured, and every response varies on Origin, besides whatever earlier handlers made it vary on. What counts as configured is what the configuration held when the middleware was made, whatever the caller does with its slices afterwards.",
  ["inputs", "configurations"], "all configurations x all origins (lookalikes, case variants, null, missing), methods and requested headers",
  "There is no test of the CORS middleware.",
  ["m_cors.go"],
  [("origin list scan", "m_cors.go CORS"), ("preflight branch", "m_cors.go CORS")],
  ["response headers", "which later handlers ran"])
p("C13", "Static serving never leaves its configured root",
  "For any request path, however spelled (dot segments, repeated or encoded slashes, trailing slashes, directory names), static serving discloses only contents of files and names of directory entries inside the file system it was configured with, and never depends on the process's working directory. A directory below the prefix is answered by a redirect to its slash form, by its configured index file, or by a listing of that same directory; anything that is not inside is not found.",
  ["inputs", "configurations"], "all request paths x directory trees, prefixes, index settings and working directories",
  "Two tests fetch an existing file and look only at the status.",
  ["m_static.go", "content.go"],
  [("opened through the configured file system", "m_static.go StaticAdvance"), ("directory branch", "m_static.go StaticAdvance")],
  ["bytes returned, searched for canaries planted outside the root", "names listed"])
p("C14", "Static files arrive intact and cache validation is right",
  "A GET for a file under the static prefix returns exactly its bytes (and for a byte range exactly that part), HEAD returns the same head without a body, and a missing file is 404. With entity tags enabled, a request presenting the current tag gets 304 with no body and one presenting any other tag gets the full current content, the tag changing whenever size or modification second changes; the configured Expires value, asked for anew each time, is sent. Without tags the modification time is sent, and a request knowing that time or a later one gets 304. A single registered file is served at its own path only. A file that cannot be opened or examined is answered with an error status, and nothing opened for a request stays open after it.",
  ["inputs", "histories"], "all file contents, sizes, names and modification histories x request variants (method, range, tags)",
  "The tests fetch two source files and never read the body.",
  ["m_static.go", "util.go", "content.go"],
  [("ServeContent", "m_static.go StaticAdvance"), ("tag computation", "util.go GenerateETag/GenerateETag2")],
  ["status, headers and body against the file on disk"])
p("C15", "Logging is faithful and never disturbs the request",
  "With the logging middleware in place a handler sees the same request, the body byte for byte at any size included, and the client the same response as without it. Every request whose handling completes writes exactly one log record with its method, URL, client address, trace ID (if it came with one) and the status actually sent, records of concurrent requests never mix, JSON bodies are logged (at most their first mebibyte) only when enabled, and nothing is logged when logging is closed, whether it was set so before or after the middleware was made.",
  ["inputs", "schedules", "configurations"], "all bodies (size, framing, content type, read errors), logger settings and concurrent mixes",
  "The logger runs in no request any test sends.",
  ["m_logger.go", "util.go"],
  [("body copied and replaced", "m_logger.go Logger"), ("record after the chain", "m_logger.go Logger")],
  ["digest of the body seen by the handler", "log records matched one to one with requests"])
p("C16", "Form-style binding is lossless or reports an error",
  "Binding form, query, header, URI or multipart values into a struct either fails or sets every tagged field whose key is present to the exact value the text denotes: numbers within the field's own range, booleans both ways, times in the declared format and zone, JSON text for struct and map fields, all values in order for slices, the first one for single fields, through pointers and nested structs that are nil or already allocated. Text that does not denote a value of the field's type, out of range included, is an error, never a silently different value, and no input makes binding crash. Map targets receive every key, with all its values or the last one. The request's own values are left as they were.",
  ["inputs", "programs"], "all target struct shapes over the supported kinds x all key/value multisets, from each source",
  "The tests bind a dozen fixed structs with in-range values.",
  ["binding/map_form.go", "binding/mapping.go", "binding/form.go", "binding/query.go", "binding/header.go", "binding/uri.go"],
  [("reflection walk", "binding/map_form.go _mapForm"), ("conversion", "binding/map_form.go setWithProperType2")],
  ["bound struct against an independent decoder", "returned error"])
p("C17", "Binding never touches what the client may not set",
  "Binding from form, query, header, URI or multipart input never changes a field that carries no name for that source, is named '-' (with everything below it), or is unexported, whatever keys the client sends. A named field whose key is absent keeps its previous value, or takes its declared default if it has one; a default never overrides a value that was sent. (A named struct or map field takes a whole JSON value, by its JSON names.) Types that refer to themselves through an excluded field bind without trouble.",
  ["inputs", "programs"], "all struct shapes with excluded, untagged, defaulted and prefilled fields x adversarial keys",
  "Single excluded fields of flat structs are tested with one key each.",
  ["binding/map_form.go"],
  [("name resolution", "binding/map_form.go parseFormName"), ("unexported skip", "binding/map_form.go _mapForm")],
  ["before/after comparison of the target"])
p("C18", "The decoder is chosen by method and content type alone",
  "Automatic binding decodes a GET from its query only, whatever content type it claims; otherwise JSON and both XML types decode the body, multipart/form-data decodes multipart for POST, PUT and PATCH, and everything else decodes form values (query and urlencoded body). Parameters after the media type (charset, boundary, spacing) make no difference.",
  ["inputs"], "all methods x content types with parameters x bodies and queries carrying conflicting data",
  "The selector is tested on eight bare pairs and never through a request.",
  ["binding/binding.go", "content.go", "util.go"],
  [("selector", "binding/binding.go NewBindinger"), ("media type extraction", "util.go filterFlags")],
  ["which of several conflicting sources reached the target"])
p("C19", "Bound data always satisfies its declared constraints",
  "When binding from any source returns no error, the bound value satisfies every declared constraint, in nested structs and, where a field is marked for it or the target itself is a slice or array, in every element at any pointer depth; when a constraint is violated binding always returns an error. A null target pointer or a null element of a bound slice sent by a client is reported as an error, never a crash; with validation switched off no constraint is enforced.",
  ["inputs", "programs"], "all sources x values around constraint boundaries x container shapes",
  "The tests validate fixed one- and two-element slices and never null elements.",
  ["binding/validator.go", "binding/binding.go"],
  [("recursive validation", "binding/validator.go ValidateStruct"), ("validate after decode", "binding/binding.go validate")],
  ["returned error against an independent constraint evaluation"])
p("C20", "Typed accessors agree with the text they read",
  "Query and form lookups return the trimmed first value (query and body merged as net/http does), all trimmed values in order, or the key[sub]=value group asked for, and the supplied default exactly when the name is absent; what a caller does with a returned list or map changes no later answer. Every typed accessor for query values and path parameters returns the number or boolean the text denotes under Go's parsing rules; if it denotes none in range, the forgiving forms return the parser's fallback (zero, or the saturated limit) and the strict forms an error.",
  ["inputs"], "all query strings and forms (repeats, blanks, unicode space, escapes, bracket keys) and all numeric texts including limits",
  "No test calls a query accessor; one calls a parameter accessor.",
  ["query.go", "params.go"],
  [("single parse per request", "content.go ParseFormOrMultipartForm"), ("strconv conversions", "query.go, params.go")],
  ["accessor results against an independent parse"])
p("C21", "Uploads arrive intact and respect the memory limit",
  "Every file and value of a multipart request, whatever its method where multipart binding is asked for, reaches the handler under its name, in order and byte for byte, through the form accessors, binding and saving alike; a saved upload replaces the destination's whole content, and saving leaves no file open and reports an error when it could not write all of it. Files beyond the engine's configured multipart memory limit (32 MB unless configured) go to temporary storage and smaller ones stay in memory.",
  ["inputs", "configurations"], "all multipart bodies (sizes around buffer and limit boundaries, names, counts), limits and methods",
  "Binding is tested with two five-byte files outside the engine; the limit is never observed.",
  ["content.go", "binding/form.go", "binding/map_form.go", "router.go", "option.go"],
  [("limit handed to the parser", "content.go ParseFormOrMultipartForm"), ("file copy", "content.go SaveUploadedFile")],
  ["file digests", "whether an opened part is a temporary file"])
p("C22", "Cookies round-trip with the attributes asked for",
  "A cookie set with a valid name reaches the client with exactly the value and the attributes asked for (path '/' unless given, max-age, domain, secure, http-only, same-site) and reads back as the same value on the next request, typed readers giving the number or boolean the value denotes or the parser's fallback (zero, or the saturated limit) and the escaped reader never returning markup characters. Setting several cookies keeps all of them in order; a cookie with an invalid name sends nothing.",
  ["inputs", "histories"], "all names, values, attribute combinations and argument types, over a real connection and cookie jar",
  "No test sets or reads a cookie.",
  ["cookie.go"],
  [("variadic attribute decoding", "cookie.go SetCookie")],
  ["Set-Cookie lines received", "values read back by a following request"])
p("C23", "Bad configuration is refused at setup, good configuration never",
  "A configuration error (the same pattern registered twice for a method, a missing or unsupported handler, a route with no handlers at all, a pattern that does not start with '/' or that ends with one, malformed angle brackets, mismatched capture groups, a root-only operation on a group) panics while routes are declared or the engine is built, never while serving. A well-formed configuration always builds, and every one of its routes is reached by some request unless a better-matching one takes it.",
  ["configurations"], "all well-formed route tables and all single-fault mutations of them",
  "No test provokes a setup failure.",
  ["router.go", "tree.go", "engine.go", "util.go", "m_static.go"],
  [("duplicate check", "router.go routeStore.add"), ("pattern checks", "util.go checkSplitPattern, tree.go analyzePattern")],
  ["whether and when setup panics", "whether each route is reached"])
p("C24", "Engines are independent snapshots of their routers",
  "An engine serves exactly the routes, middlewares and options its router had when it was built: routes or middlewares added afterwards do not affect it, building again reflects them, and repeated builds from an unchanged router behave identically. Engines in one process never influence each other, whatever their options and even when one is being built while another is serving, and doing so is free of data races.",
  ["histories", "schedules", "configurations"], "all interleavings of declaring, building and serving on several routers and engines",
  "Every test builds one engine once.",
  ["router.go", "engine.go", "option.go", "content.go"],
  [("routes copied at build time", "router.go getRoute/dumpRoute"), ("options per engine", "option.go")],
  ["responses of each engine against its own snapshot", "race detector reports"])
p("C25", "Downloads carry the right bytes under a safe name",
  "A download or attachment response delivers exactly the content (and exactly the asked range) with a disposition of attachment, or inline if asked, and a file name that a standard parser decodes back to the given name; no name can inject another header or parameter. The given modification time, if any, is sent, and a request knowing that time or a later one gets 304. Asking to download something missing or a directory returns an error and leaves the response untouched. A downloaded file does not stay open.",
  ["inputs"], "all file names (quotes, separators, control and non-ASCII characters), contents and range requests",
  "No test downloads anything.",
  ["content.go", "util.go"],
  [("escaped disposition", "util.go contentDisposition"), ("ServeContent", "content.go Download/Attachment")],
  ["headers and body received by a real client"])
p("C26", "The per-request store is set-once and shared along the chain",
  "A value stored under a name during a request is returned unchanged, with its type, to every later reader of the same request, whichever of the equivalent accessors is used. Storing a name twice or reading a missing name or wrong type fails loudly and changes nothing, while the tolerant lookup reports absence; a new request starts with an empty store, not-found handling included.",
  ["inputs", "histories"], "all sequences of store operations over shared names, across handlers and requests",
  "No test uses the store.",
  ["environ.go", "engine.go"],
  [("fresh map per request", "engine.go ServeHTTP"), ("duplicate check", "environ.go Set")],
  ["operation history against a map model"],
  state=[("Environ", "per-request name/value map", "context.go Context")])
p("C27", "Client address and request facts are reported correctly",
  "The client address is the X-Real-IP header if present, else the first entry of X-Forwarded-For unless empty (entries separated by commas with optional spaces or tabs), else the peer address without its port; the proxy list is the forwarded entries in order. The protocol is the forwarded one only if it is http or https and otherwise follows the connection, the content type is the header up to its first parameter or space, and the Ajax, WebSocket and user-agent facts follow their headers.",
  ["inputs"], "all combinations of the headers and peer addresses (IPv4, IPv6, malformed)",
  "No test reads any of these.",
  ["util.go", "content.go"],
  [("address resolution", "util.go requestRealIp/requestProxy"), ("fact accessors", "content.go")],
  ["accessor results against an independent reading of the request"])
p("C28", "Route listings show exactly the registered routes",
  "Each route listing shows every route of its scope exactly once and nothing else: the full listing in registration order with method, handler count and full pattern, the per-method listing sorted by pattern, the raw tree with every declared group and route, and the release tree with one leaf per reachable route of the method and its handler count. Listing never changes what is served.",
  ["configurations"], "all route tables and group trees",
  "The tests print the listings and never look at them.",
  ["router_print.go"],
  [("printers over the store and the tree", "router_print.go")],
  ["captured output parsed back and compared with the declared table"])
p("C29", "JSON and XML bodies bind to what the document says",
  "Binding a JSON or XML body sets the target to exactly the value the document denotes, at any size and however the body is chunked, and always finishes with the body closed. A truncated, syntactically broken or type-mismatched document, a missing body or a failing read is an error, never a silent success, and never a crash.",
  ["inputs", "fault_sequences"], "all documents generated from values of the target types, all truncations and type-breaking mutations, chunkings and read errors",
  "The tests bind one-field documents of a few bytes.",
  ["binding/json.go", "binding/xml.go", "content.go"],
  [("streaming decoders", "binding/json.go, binding/xml.go Bind")],
  ["decoded value against the generating value", "error", "close event of the body"])
p("C30", "The extended build exposes flushing and hijacking intact",
  "Built with the extended response option, every guarantee on routing and responses stays the same and handlers can additionally flush, so that the client receives what was written so far while the handler is still running, and take over the raw connection, after which nothing else is written to it.",
  ["configurations", "programs"], "all handler programs mixing writes, flushes and takeovers on a real connection in the extended build",
  "The tests never compile the extended build.",
  ["response_advanced.go", "response.go", "engine.go"],
  [("build-tag selected writer interface", "response_advanced.go ResponseWriter")],
  ["bytes received before the handler is released", "raw bytes on the taken-over connection"])
p("C31", "The raw body accessors return exactly what was sent, or an error",
  "Reading a request's body through the engine's raw accessors (as bytes, as a string, or as a stream) yields exactly the bytes the client sent, at any size and framing, also behind the request logger or when an earlier handler replaced or limited the body; once read whole the body is closed. A body that cannot be read to its end (cut short by the client, over a limit, or a failing connection) is an error, never a silently shortened body.",
  ["inputs", "fault_sequences"], "all bodies, framings, chunkings, limits and read failures",
  "No test reads a body through these accessors.",
  ["content.go", "context.go", "logger.go"],
  [("accessors over the request's body", "content.go BodyBytes/BodyString/ReadCloser"), ("peeked body put back in front of the rest", "logger.go")],
  ["bytes and error each accessor returned", "close event of the body"])
p("C32", "Starting the server serves the engine on exactly the address asked for",
  "The start functions serve the built engine on the given address and nowhere else (the default port when none is given), the TLS ones only over TLS, for HTTP/1.1 and HTTP/2 alike, with the given certificate, and with the same answers as in process; an exchange may last as long as client and handler need. A start that cannot succeed (address taken or malformed, certificate missing or broken) returns an error, and more than one address is refused loudly.",
  ["configurations", "fault_sequences"], "all start functions, addresses, certificates and client protocols",
  "No test starts a server through the engine.",
  ["engine.go", "util.go"],
  [("start functions", "engine.go Run/RunTLS"), ("address defaulting", "util.go resolveAddress")],
  ["answers on live connections", "returned errors", "who listens"])
p("C33", "Handlers of every accepted form take part in the chain as equals",
  "A chain may mix every accepted handler form (functions and values taking the context, standard-library handlers and handler functions): each runs in its place and sees the same request and the same response, also after an earlier handler replaced the request, its body or the response writer. The reported handler name is that of the chain's last handler and reporting it never fails.",
  ["programs"], "all chains of mixed handler forms, with replacements between them",
  "The tests use plain handler functions and never replace anything.",
  ["engine.go", "context.go", "content.go", "util.go"],
  [("adapters to the common handler interface", "engine.go newHandler"), ("request and writer held by the context", "context.go Context")],
  ["what each handler saw", "merged response", "reported name"])
p("C34", "Serving a file answers as the standard library's file server does",
  "Serving a file from a handler gives the client the status, headers and bytes the standard library's file serving gives for the same request and file: exact content, ranges, conditional requests, HEAD, redirects of directory and index paths, refusals of dotted paths and missing files included. The response then counts as answered, with the status and size recorded.",
  ["inputs"], "all files, request paths, range and conditional headers",
  "No test serves a file from a handler.",
  ["content.go", "response.go"],
  [("delegation to net/http through the recording writer", "content.go File/ServeFile")],
  ["response compared with the standard library's", "recorded status and size"])
p("C35", "The field-name based binder fills exactly what was sent, and refuses what it cannot read",
  "The second, field-name based binder (Bind2) sets each exported field from the key its tag names, or its Go name when untagged; `-` excludes a field. A single field takes the key's first value, a slice all of them in order, an array exactly as many as it has; times, durations, structs and maps are read from their text; nested structs are filled and embedded ones promoted. An absent key leaves the declared default, or the field untouched; nil pointers are filled only if something inside is set. Text that denotes no value of the field's type is an error, never a silently different value and never a crash. A file field is set only from an uploaded file, and a map target receives every key.",
  ["inputs"], "all struct shapes with tags and defaults, all key/value sets from queries, forms, headers, path parameters and uploads",
  "The tests bind a few fixed structs.",
  ["binding/mapping.go", "binding/form.go", "binding/header.go", "binding/query.go", "binding/uri.go"],
  [("reflective mapper", "binding/mapping.go mappingByPtr/setByForm"), ("multipart source", "binding/mapping.go setByMultipartFormFile")],
  ["bound value compared with an independent decoder's", "error", "panic"])
p("C36", "A finished request leaves nothing behind",
  "Once a request is over, however it ended (answered, unmatched, panicked, cancelled, its client gone), the engine holds on to nothing of it: the request, its body, its writer, values stored for it and values bound from it can be reclaimed, uploads' temporary files and opened files are gone, no goroutine stays, and memory does not grow with the number or variety of the requests served. An engine no longer used can be reclaimed whole.",
  ["histories", "fault_sequences"], "all engines and request sequences of any length, including aborted ones",
  "The tests serve a handful of requests and look at the answers only.",
  ["engine.go", "context.go", "router.go", "m_static.go", "logger.go", "content.go", "binding/mapping.go"],
  [("recycled contexts", "engine.go ServeHTTP, context.go reset"), ("files opened for serving", "m_static.go"), ("multipart parsing", "context.go ParseFormOrMultipartForm")],
  ["reclaimed objects", "heap, goroutines, open files and temporary files before and after"])
p("C37", "Bytes, errors and cancellation pass through without being held back",
  "What a handler writes reaches the underlying writer during that call, and reading the request's body takes from the client what the handler asks for and no more (a logger set to record bodies aside), so that handler and client may converse while the request lasts. A writer that takes only part of a write or fails makes the call that wrote report it, as do the helpers that return errors. The request's own context, with its values, deadline and cancellation, is what every handler sees, and it is cancelled when the client goes away.",
  ["programs", "fault_sequences"], "all handler programs of writes, reads, streams and waits, over failing writers and slow or vanishing clients",
  "The tests use recorders that never fail and bodies that are complete from the start.",
  ["response.go", "context.go", "content.go", "logger.go", "engine.go"],
  [("recording writer", "response.go Write/WriteString"), ("streaming", "content.go Stream"), ("request held by the context", "context.go Context")],
  ["bytes at the writer and taken from the body after every step", "error of every step", "the client's side of the dialogue"])
p("C38", "An answer depends on its request alone, not on what else the engine serves",
  "On one engine, every request gets exactly the answer an engine made for it alone would give, whatever was served before and whatever is being served at the same time, on this engine or another in the process: status, headers, body, and what its handlers saw, across every feature (routing, middleware, CORS, static files, binding with defaults and validation, uploads, cookies, helpers, stored values, not-found chains). Values handed to a handler (bound structs, slices, maps, bodies, parameters) keep their contents after the request is over. Serving is free of data races.",
  ["schedules", "histories"], "all engines, request mixes, orders and interleavings",
  "The tests serve one request at a time to an engine made for it.",
  ["engine.go", "context.go", "content.go", "query.go", "m_cors.go", "m_logger.go", "m_recovery.go", "m_static.go", "binding/map_form.go", "binding/mapping.go", "binding/validator.go"],
  [("recycled contexts", "engine.go ServeHTTP"), ("state captured by middleware closures", "m_cors.go CORS, m_logger.go Logger, m_static.go StaticAdvance"), ("shared decoders and validators", "binding/*.go")],
  ["whole answer compared with that of a fresh engine", "kept values looked at again", "race detector"])
p("C39", "No request can crash the engine, wedge it or break its answers' framing",
  "Whatever a client sends (hostile targets, paths, headers, cookies, media types, forms, documents, ranges, any bytes), the engine's own code does not panic (the query accessors' documented panic over an unreadable form aside, which Recovery contains); every request that reaches it ends and gets exactly one well-formed answer, in order, carrying no header the handlers did not set, and later requests are served as ever.",
  ["inputs"], "all request bytes and all handler accessors and helpers",
  "The tests send a few well-meaning requests.",
  ["engine.go", "tree.go", "content.go", "query.go", "cookie.go", "util.go", "m_static.go", "m_cors.go", "m_logger.go", "binding/map_form.go", "binding/mapping.go"],
  [("readers of request data", "content.go, query.go, cookie.go, util.go"), ("binders", "binding/*.go")],
  ["panics at the chain's outside and in net/http", "answers parsed strictly"])
for x in P:
    print(json.dumps(x, ensure_ascii=False))

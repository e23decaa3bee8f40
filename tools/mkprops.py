#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for the property texts)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

prop("R01", "The most specific registered route answers each request",
 "For every set of registered routes and every request path, the request is answered by the handlers of the route that wins a left-to-right comparison of path segments in which a literal segment beats a regular-expression segment, which beats a named parameter, which beats a catch-all, with ties going to the one registered first; one leading and one trailing slash of the request path are ignored. A choice that leads to a dead end is abandoned for the next best one, so a request is 'not found' exactly when no registered route of its method matches. The full path reported to handlers is the registered pattern of the route whose handlers are running, and is empty when no route matched.",
 ["inputs", "configurations"], "all route tables (literal, regular-expression, named and catch-all segments in any order and nesting) and all request paths",
 "The tests match about ten hand-written paths against tables of one or two routes; none has two competing routes, a dead end to back out of, or an order dependence.",
 ["tree.go", "router.go", "engine.go", "content.go"],
 [("route tree insertion keeps siblings ordered by segment kind, then by registration", "tree.go: addEndNode, addSubNode"),
  ("depth-first matching with backtracking", "tree.go: Match, matchNextSegment, matchSubNode, matchEndNode"),
  ("colon style patterns are rewritten to the angle form", "router.go: _VariantUri"), ("full path", "content.go: FullPath")],
 ["handlers invoked", "Context.FullPath", "status 404"],
 [("route tree", "per method tree of path segments", "engine.go: Engine.routers")])

prop("R02", "Captured path parameters are exactly those of the winning route",
 "Handlers see exactly the parameters named by the pattern of the route that was chosen, each holding the text its segment (or regular-expression group, or catch-all remainder) matched in this request. Nothing captured while trying another route, or in another request, is ever visible, and parameters named '_' are never captured. Unnamed catch-alls are captured as *0, *1, ... in path order.",
 ["inputs", "configurations", "histories"], "all route tables whose pattern does not repeat a parameter name, all request paths, and all histories of earlier requests on the engine",
 "The tests look at the parameters of single-route tables only, so leaks from abandoned branches or from earlier requests cannot show.",
 ["tree.go", "engine.go", "context.go", "params.go"],
 [("captures are recorded on the way back from a successful match", "tree.go: matchSubNode, matchEndNode"), ("per request reset", "context.go: reset")],
 ["Context.Params"], [("Params", "captures of the current request", "context.go: Context.Params")])

prop("R03", "Method and protocol gating comes before any handler",
 "A route answers only requests of the method it was registered for, where the register-for-any-method call covers every supported method except those on the exclusion list, and registering under one method never changes what other methods get. A request older than HTTP/1.1, for target '*', or with method CONNECT gets 406; any other method outside GET, POST, DELETE, PUT, PATCH, HEAD and OPTIONS gets 405; in these cases no handler and no middleware runs at all.",
 ["inputs", "configurations"], "all route tables over all methods, all request methods (any token), protocol versions and request targets",
 "Tests send GET and POST only; no test checks 405, 406, cross-method isolation or the any-method registration.",
 ["engine.go", "router.go"],
 [("protocol gate and method index", "engine.go: ServeHTTP; router.go: MethodIndex"), ("one tree per method", "engine.go: buildTree"), ("any-method registration", "router.go: ANY, MethodAnyExclude")],
 ["response status", "handlers invoked"])

prop("R04", "The static-route fast path is unobservable",
 "Building the same routes with and without the static-route option gives two engines that answer every request identically: the same handlers run with the same parameters, full path and status, whatever requests the engines served before.",
 ["inputs", "configurations", "histories"], "all route tables, all request paths and all histories of earlier requests",
 "One test builds an engine with the option on and only prints its tables; no request is ever sent through the fast path.",
 ["engine.go", "option.go", "context.go"],
 [("static table filled while building the tree", "engine.go: buildTree, isStaticRoute"), ("table consulted before the tree", "engine.go: ServeHTTP")],
 ["handlers invoked", "Context.Params", "Context.FullPath", "status"],
 [("static table", "literal path to route, per method", "engine.go: Engine.routersStatic")])

prop("R05", "Unmatched requests run global middleware, then the not-found handlers",
 "When no route matches and not-found handlers are configured, exactly the global (before) middleware followed by the not-found handlers run, in order and with no parameters; ordinary middleware and route handlers do not run. When none are configured, the response is a bare 404 and no handler or middleware runs.",
 ["inputs", "configurations"], "all route tables, all unmatched paths and methods (also methods without any route), and all combinations of global middleware and not-found handlers",
 "One test checks only that the status is 200 with a single empty handler and no global middleware.",
 ["engine.go", "router.go", "option.go"],
 [("not-found chain assembled at build", "router.go: Handler"), ("dispatch", "engine.go: ServeHTTP")],
 ["handlers invoked and their order", "status", "Context.Params"])

prop("R06", "Invalid configurations are refused when the engine is built",
 "Registering the same method and pattern twice, a nil handler, a handler of an unsupported type, a route or childless group with no handlers at all, a pattern that does not start with '/' or (other than '/' itself) ends with '/', a malformed parameter segment, a regular expression that does not compile or whose groups do not match its parameter names, using a root-only operation (build, global middleware, static files, default middleware) on a group, serving static files from no file system, or giving the not-found option no handlers, is refused with a panic no later than engine build. Every other configuration is accepted.",
 ["configurations", "programs"], "all registration programs: sequences of group, middleware, route and build calls with well-formed and malformed arguments",
 "No test registers anything invalid.",
 ["router.go", "tree.go", "engine.go", "util.go", "m_static.go", "option.go"],
 [("duplicate detection", "router.go: routeStore.add"), ("pattern checks", "util.go: checkSplitPattern; tree.go: analyzePattern, getparsedPattern, partternRegexp"), ("handler type checks", "engine.go: newHandler; router.go: handle, Group"), ("root-only operations", "router.go: Before, Handler, Classic; m_static.go: StaticAdvance, StaticFile")],
 ["panic or success of each registration call and of the build"])

prop("C01", "Each route runs global, then group, then own handlers, in order",
 "For every tree of groups, the chain of a route is: the global (before) middleware, then the middleware of the root and of each enclosing group from the outside in, then the route's own handlers, each list in the order given. Middleware attached to a group, including middleware passed when the group is created, applies to all routes below that group, whether they were registered before or after it, and to no other route; the route's path is the concatenation of the group patterns and its own. Asking for the handler's name works whatever the type of the handler and tells every handler of the chain the same.",
 ["programs", "configurations"], "all registration programs that nest groups and interleave middleware and route registration",
 "Tests only print such trees; none checks which handlers run in which order for a nested route.",
 ["router.go", "engine.go"],
 [("chain assembled from leaf to root at build", "router.go: getRoute, dumpRoute"), ("group middleware", "router.go: Group, Use, Before")],
 ["order in which handlers run", "reachable paths"], [("router tree", "groups with their middleware and routes", "router.go: Router")])

prop("C02", "Chain execution: in order, at most once, onion-style, cut by a response",
 "While a request is served each handler of its chain starts at most once and in chain order: after a handler returns the next one starts by itself unless the response has been started, and calling Next runs the remaining handlers before it returns, so code after it runs in reverse order. Once a response has been started no further handler starts unless a running handler calls Next. This holds alike for native handlers, handler objects, standard-library handlers and handler functions.",
 ["programs", "inputs"], "all chains of any length and all handler behaviours (any sequence of Next, writes, early returns and panics in any position)",
 "One test prints from a single middleware and asserts nothing; multi-handler chains, early responses and nested Next are never asserted.",
 ["context.go", "engine.go"],
 [("handler index shared by nested runs", "context.go: Next, run"), ("handler adaptation", "engine.go: newHandler")],
 ["order of handler entry and exit"], [("index", "next handler to run", "context.go: Context.index"), ("written", "response started", "context.go: Context.written")])

prop("C03", "A built engine is a fixed snapshot, independent of other engines",
 "After an engine is built it keeps answering as the router stood at that moment: later registration on the router, building further engines from the same or other routers, with whatever options, and serving requests on other engines do not change it. Building the same router again gives an engine that behaves the same.",
 ["histories", "programs", "configurations"], "all interleavings of registration, builds with differing options, and requests to any of the engines",
 "Every test builds one engine from one router once.",
 ["router.go", "engine.go", "content.go", "option.go"],
 [("chains copied at build", "router.go: getRoute, Handler"), ("per engine options", "option.go; engine.go: ServeHTTP")],
 ["handlers invoked", "form parsing limits"])

prop("S01", "A response has one status: the first one, and the context reports it",
 "However handlers answer (setting a status, writing bytes, redirecting, aborting, rendering, serving a file or directory, or through a standard-library handler), the client connection is given a status line at most once per request, with the first status requested, or 200 if bytes came first. From then on the context says the response is written and reports that same status; before that it says unwritten and 0.",
 ["programs", "inputs"], "all sequences of response operations by any number of handlers, including middleware that writes after the chain, the recovery middleware and static files",
 "No test issues two writes, mixes helpers, or compares the reported status with what was sent.",
 ["context.go", "content.go", "m_static.go", "m_recovery.go", "render.go"],
 [("first-write guard", "context.go: WriteHeader, Write"), ("helpers and file serving go through the context", "content.go; m_static.go")],
 ["calls reaching the underlying response writer", "Context.Status", "Context.Written"],
 [("written/status", "what has been sent", "context.go: Context")])

prop("S02", "Response helpers deliver the requested status, type and body to the client",
 "Each response helper (text, raw bytes, HTML, JSON, XML, stream, redirect, abort and the named statuses, template rendering) delivers to an HTTP client exactly the status asked for, the documented Content-Type (or Location), and the given content as the body, and a plain write with no type set is typed by its content. Headers and cookies set before the response starts all arrive.",
 ["inputs", "programs"], "all helpers, statuses, header settings and payloads (empty, large, non-ASCII, markup)",
 "Tests call a helper only to produce output; no test looks at the Content-Type, the Location or the body a client receives.",
 ["content.go", "context.go", "render.go", "const.go"],
 [("header before status, status before body", "content.go: String, Data, HTMLRaw, JSON, XML, Stream; render.go"), ("content sniffing", "context.go: Write"), ("redirects", "content.go: MovedPermanently, Found")],
 ["status, headers and body received over a real HTTP connection"])

prop("S03", "Recovery turns any downstream panic into one well-formed response",
 "With the recovery middleware in the chain, a panic with any value, in any later handler, before or after it called Next, never escapes the engine: handlers further out finish normally, none further in starts again, and the client gets 500 if nothing had been sent yet (in a complete response, whatever headers had been set before), otherwise the status already sent. Panic text is put in the body only when not in stable mode; when nothing panicked and nothing was written the response is 200.",
 ["fault_sequences", "programs"], "all positions of the middleware and of the panic, all panic values, all write states at the panic, both modes",
 "No test panics in a handler.",
 ["m_recovery.go", "context.go", "version.go"],
 [("deferred recover around Next", "m_recovery.go: Recovery")],
 ["status, body, handler exits, whether serving panics"])

prop("S04", "The access logger is transparent and truthful",
 "Adding the logger middleware changes nothing a handler or client can observe: the request body reads the same in full for any size and content type, the same handlers run, and the response is the same. Unless logging is switched off, each request that passes through it and whose later handlers return produces one log line carrying the method, the URL, the client address and the status the response has by then (200 while nothing was written), and the request's Trace-ID if it has one; it is coloured only if colours are on, and is followed by the body, up to its first MiB, of JSON requests only and only if body logging is on.",
 ["inputs", "configurations", "programs"], "all request bodies (size, type), logger settings and chains",
 "The logger is installed in one test that sends no request.",
 ["m_logger.go"],
 [("JSON bodies are read for logging and put back", "m_logger.go: Logger"), ("log line after Next", "m_logger.go: Logger")],
 ["body read by handlers", "response", "log output"])

prop("S05", "The extended build accounts for flushed and taken-over responses",
 "In a build with the documented `extended` tag, chains run and answer as without it, and a handler can also flush or hijack. A flush starts the response (status 200 unless one was given before; Written and Status say so) and the client then has everything written so far, while the handler is still running. A successful hijack counts as the response: Written is true, later handlers of the chain do not start by themselves, and neither a status nor the recovery's answer is added to what the handler sends over the connection. Requests whose writer cannot flush or hijack (HTTP/2, writers wrapped by other middleware) are served all the same: hijacking returns an error and starts nothing.",
 ["programs", "fault_sequences", "configurations"], "all chains of handlers and actions, all positions of flushes and hijacks, writers with and without these capabilities, HTTP/1.1 and HTTP/2",
 "No test is built with the tag (its recorder could not even be passed to the engine before the repair).",
 ["response_advanced.go", "response.go", "context.go", "engine.go", "m_recovery.go"],
 [("what the writer can do", "response_advanced.go"), ("flush and hijack start the response", "response_advanced.go: Flush, Hijack; context.go: run, WriteHeader"), ("the writer of a request", "engine.go: ServeHTTP")],
 ["Context.Written", "Context.Status", "handlers started", "calls reaching the underlying writer", "bytes a client has at a flush", "answers of HTTP/1.1 and HTTP/2 servers"])

prop("I01", "No request state survives into a later request",
 "What a handler observes at the start of a request - parameters, environment values, written flag, status, matched path, parsed form - depends only on that request and the engine's configuration, never on requests served earlier, including ones that panicked, were not found, or left values behind.",
 ["histories", "fault_sequences"], "all sequences of requests of all kinds on one engine",
 "Each test sends at most one request per engine that reaches a handler, so context reuse is never exercised.",
 ["context.go", "engine.go", "environ.go", "query.go"],
 [("pooled contexts are reset before use", "context.go: reset; engine.go: ServeHTTP")],
 ["Context fields seen by the first handler"], [("context pool", "recycled contexts", "engine.go: Engine.ctxPool")])

prop("I02", "Concurrent requests are served as if each were alone",
 "For every interleaving of concurrently served requests on one engine, each request runs its own chain with its own parameters, environment, form, status and response, exactly as if it were the only one; a context is never shared by two requests in progress, and serving requests is free of data races in the framework.",
 ["schedules"], "all interleavings of any number of concurrent requests, including slow and panicking ones",
 "No test serves two requests at the same time.",
 ["engine.go", "context.go", "tree.go"],
 [("one context per request taken from a pool", "engine.go: ServeHTTP"), ("engine tables read-only after build", "engine.go: buildTree")],
 ["everything handlers observe, per request", "context identity", "race detector"], [("context pool", "recycled contexts", "engine.go: Engine.ctxPool")])

prop("E01", "Request environment is a write-once map",
 "Each request has its own environment, empty at first and shared by all handlers of the chain: a name can be set once and setting it again is refused with a panic leaving the first value; reading returns exactly the value set; reading a name that was never set, or through a typed accessor of another type, panics, while the optional read reports absence.",
 ["histories", "programs"], "all sequences of set, read, test and typed-read operations by the handlers of a chain, through either of the two interfaces",
 "No test touches the environment.",
 ["environ.go", "engine.go"],
 [("write-once set, checked get", "environ.go: Set, Get, GetMaybe, Has and typed getters")],
 ["results and panics of the operations"])

prop("M01", "Cross-origin responses grant only configured origins",
 "The CORS middleware's allow-origin value is the first configured entry that is '*' or equals the request's Origin, and is empty when there is none, so an origin that is not configured is never granted. A preflight (OPTIONS) request is answered 204 with the configured methods, headers (or the requested ones when none are configured), credentials and max-age, and no later handler runs; any other request runs the rest of the chain, is answered by it alone (whatever it sends, or nothing), and carries the configured credentials and exposed headers. Vary always names Origin, and also the two preflight request headers on a preflight.",
 ["inputs", "configurations"], "all CORS configurations and all request origins, methods and requested headers",
 "There is no test of the CORS middleware.",
 ["m_cors.go"],
 [("origin selection and the two request kinds", "m_cors.go: CORS")], ["response headers and status", "handlers invoked"])

prop("M02", "Static serving exposes exactly the configured file tree",
 "A GET request under a static prefix gets the exact bytes of the file its remaining (non-empty) path names inside the configured file system, 404 if there is none, and never anything from outside it, whatever the path contains ('..', doubled slashes, encoded characters). A directory without trailing slash is redirected to the one with it; with trailing slash it is answered from the same file system: the configured index file (404 if missing), or, if none is configured, its index.html or listing. A request for a part of a file gets that part or the whole. HEAD gets the same status without a body, a single-file route always serves that file, and no file stays open once its request is over.",
 ["inputs", "configurations"], "all file trees, prefixes, index settings and request paths",
 "Two tests fetch one existing file each and check only that the status is not 404.",
 ["m_static.go", "content.go", "tree.go"],
 [("file looked up in the configured file system by the catch-all value", "m_static.go: StaticAdvance"), ("directory redirect and index", "m_static.go: StaticAdvance"), ("single file route", "m_static.go: StaticFile")],
 ["status, Location and body"])

prop("M03", "Static validators and expiry are faithful",
 "With an entity-tag scheme configured, every response with a file named by the request path (not an index file) carries a tag determined by modification time (in seconds) and size (and also name in the second scheme), so files differing in these get different tags, and a request whose If-None-Match is exactly the current tag gets 304 without body while one with any other tag gets the content. With an expiry function configured its value at the time of the request is sent with every file or directory that exists; without these options the headers are absent.",
 ["inputs", "configurations", "histories"], "all files, modification times, tag schemes, expiry settings and conditional requests, including after the file changes",
 "No test sets an entity-tag scheme or a conditional header, and the Expires header set in a test is never checked.",
 ["m_static.go", "util.go"],
 [("tag generation", "util.go: GenerateETag, GenerateETag2"), ("conditional answer", "m_static.go: StaticAdvance")], ["ETag, Expires, status, body"])

prop("Q01", "Form and query accessors return exactly what the request carries",
 "For every request the string, list and map accessors return the values the URL query and (for POST, PUT, PATCH) the form body carry under that name, with surrounding white space removed: the string accessor the first value, the list accessor all in order, the map accessor one entry per bracketed key; body form values come before query values, multipart ones after. A form that cannot be read never passes for one that is complete: its first accessor panics. When the name is absent the plain accessors return the empty value and the default accessors return the default, and only then. Typed accessors return the exact number or boolean, zero when the text is malformed, and the nearest bound when it is out of range.",
 ["inputs"], "all query strings and form bodies (url-encoded and multipart), all names, defaults and value texts",
 "No test calls any of these accessors.",
 ["query.go", "content.go"],
 [("form parsed once per request", "content.go: ParseFormOrMultipartForm"), ("accessors", "query.go")], ["accessor results"])

prop("Q02", "Path-parameter accessors convert exactly or say so",
 "The typed path-parameter accessors return the exact value the parameter's text denotes, or an error when it is malformed or out of range; the must-variants return the same value without the error (zero when malformed, the nearest bound when out of range). Asking for a parameter the route did not capture panics and never yields a value.",
 ["inputs"], "all parameter texts, names and accessor types",
 "Tests use two must-accessors in handlers that are never asserted on.",
 ["params.go"], [("typed accessors", "params.go")], ["accessor results, errors and panics"])

prop("Q03", "Cookies are written and read back as given",
 "Setting a cookie adds one Set-Cookie header with the given name and value and exactly the attributes passed (max-age, path with '/' as default, domain, secure, http-only, same-site), without disturbing cookies set earlier. The read accessors return the value of the first request cookie of that name, empty, zero or false when it is absent, and typed or escaped as their name says.",
 ["inputs"], "all names, values, attribute combinations and request cookie headers",
 "No test touches cookies.",
 ["cookie.go"], [("attribute decoding", "cookie.go: SetCookie"), ("readers", "cookie.go: Cookie and typed readers")], ["Set-Cookie headers", "accessor results"])

prop("Q04", "Client identity is derived from the request by fixed precedence",
 "The client address is X-Real-IP if present, else the first entry of X-Forwarded-For (over all its header lines) unless that is empty, else the connection's peer address without the port; the proxy list is every X-Forwarded-For entry in order, however spaced. The protocol is X-Forwarded-Proto when it is http or https, else https exactly on a TLS connection; the ajax, websocket, user-agent and content-type queries reflect the corresponding headers, the content type without its parameters.",
 ["inputs"], "all header combinations, peer addresses (IPv4, IPv6) and connection types",
 "No test covers any of these.",
 ["util.go", "content.go"], [("address and proxy derivation", "util.go: requestRealIp, requestProxy"), ("other queries", "content.go: Protocol, IsAjax, IsWebsocket, UserAgent, ContentType")], ["accessor results"])

prop("B01", "Automatic binding decodes the request by method and content type",
 "Automatic binding reads GET requests as query/form, multipart POST, PUT and PATCH requests as multipart form, JSON and XML content types (ignoring parameters) as such for all other methods, and everything else as form, and the bound object equals what that part of the request says. Explicit binding uses the named source only, whatever the other parts hold and whether or not they are well formed; a body or form that cannot be decoded, or a form-like source bound to something that is no struct or map of texts, yields an error (never a panic or a silently partial success).",
 ["inputs", "configurations"], "all methods, content types, bodies and query strings",
 "Tests call individual binders directly with hand-written requests; selection through a context on a live request is never tested.",
 ["content.go", "binding/binding.go", "binding/json.go", "binding/xml.go", "binding/form.go", "binding/query.go", "binding/header.go", "binding/uri.go"],
 [("selection", "binding/binding.go: NewBindinger; content.go: Bind, BindWith")], ["bound object and error"])

prop("B02", "Field binding is exact: right value, default, or error",
 "When form-like data is bound to a struct, every tagged exported field, at any depth of nested or embedded structs, receives exactly the value its name carries (all values for lists), its declared default when the name is absent, and is untouched when there is neither; an empty text means zero; a text for a map or struct is a JSON document, whose members are added to what it holds. A value that is not valid for the field's type or does not fit its width makes binding fail with an error and is never stored truncated, and fields tagged '-' (with all they hold), unexported fields, and fields without a tag that hold no nested fields are never written.",
 ["inputs", "programs"], "all struct types of supported field kinds, tags and defaults, and all form data",
 "Tests bind some forty fixed structs with fixed values; width limits, empty texts and combinations of nesting, defaults and lists are sampled at a few points.",
 ["binding/map_form.go", "binding/mapping.go", "binding/form.go"],
 [("field walk", "binding/map_form.go: MapForm, _mapForm, tryToSetValue2"), ("conversion", "binding/map_form.go: setWithProperType2, setTimeField2")], ["bound object and error"])

prop("B03", "A bound object that violates its declared constraints is rejected",
 "Whatever the source, binding succeeds only if the resulting object satisfies the validation rules declared on its fields, including those of nested structs and of every element when a list is bound; otherwise it returns an error. An object that satisfies them is never rejected, and no client-supplied content (such as null elements) makes binding panic.",
 ["inputs", "programs"], "all sources, struct types with validation rules, and values",
 "Tests use a handful of fixed objects with one rule each; no test drives the same rules through every source.",
 ["binding/validator.go", "binding/binding.go"],
 [("validation after every decode", "binding/*.go: Bind calls validate"), ("validator", "binding/validator.go: ValidateStruct")], ["error or success of binding"])

prop("B04", "Uploaded files arrive intact, under their own name",
 "Files of a multipart request are bound to the file fields of that name, all of them in order for a list and the first for a single field; text values go to text fields; text never becomes a file; a file sent for a field that can hold neither it nor a text or default given under its name is an error. The content, file name and size read back, or saved through the context, equal what was sent, whatever the configured memory limit, and saving leaves no file open and reports an error if it cannot be done.",
 ["inputs", "configurations"], "all combinations of file and text parts, names, sizes on both sides of the memory limit, and target structs",
 "Tests upload one or two small files to fixed structs and do not go through a context, saving or memory limits.",
 ["binding/map_form.go", "binding/form.go", "content.go"],
 [("file fields", "binding/map_form.go: tryToSetValue2"), ("saving", "content.go: SaveUploadedFile, FormFile")], ["bound headers and file content"])

prop("B05", "Bind2 binds like Bind, with the rules it adds",
 "The Bind2 methods of the form, query, header, uri and multipart binders give a tagged scalar or list field exactly what Bind gives it, and fail where Bind fails. Beyond that: a field without a tag goes by its Go name; a nil pointer is allocated only if the field, or something within the struct it points to, was given or has a default; a nested struct takes a JSON text given under its own name and is otherwise bound field by field; durations are read like 1h30m; an array needs exactly as many values as it has elements; a file takes precedence over a text of the same name, and text never becomes a file. Fields tagged '-' and unexported fields are never written, and the declared constraints are enforced.",
 ["inputs", "programs"], "all struct types of supported kinds with and without tags and defaults, and all form data, headers, parameters and multipart parts",
 "Tests bind some twenty fixed structs with fixed values; the laziness of pointers, defaults inside nested structs and their combinations with arrays and files are sampled at single points.",
 ["binding/mapping.go", "binding/form.go", "binding/query.go", "binding/header.go", "binding/uri.go"],
 [("field walk", "binding/mapping.go: mapping, tryToSetValue"), ("conversion", "binding/mapping.go: setByForm, setWithProperType, setByMultipartFormFile")], ["bound object and error"])

prop("D01", "Downloads and attachments deliver the file under a safe name",
 "Sending a file as a download delivers exactly its bytes with a disposition of attachment (or inline when asked) carrying the percent-encoded file name, so no name can break out of the header; a missing file or a directory yields an error and leaves the response unstarted and unlabelled. Attachments from a reader and byte streams behave likewise for the given name or type, range and conditional requests get the corresponding part, and no file stays open.",
 ["inputs"], "all file names, contents, inline settings, and range or conditional requests",
 "No test calls these helpers.",
 ["content.go", "util.go"], [("disposition", "util.go: contentDisposition"), ("file checks before headers", "content.go: Download")], ["status, headers, body and returned error"])

prop("P01", "Route listings report exactly the built route table",
 "The all-routes listing shows every registered route once, in registration order, with its method, full pattern and the length of the chain that will run; the per-method listing shows exactly the routes of that method sorted by pattern; the route-tree listing shows each of a method's routes as one leaf with its chain length. A method without routes is reported as having none. The raw listing shows the tree of groups and routes as declared: each once, below its own group, in declaration order, with its pattern, and for a route its method and the number of its own and its groups' handlers (global middleware is not counted).",
 ["programs", "configurations"], "all registration programs and methods",
 "The tests print listings and never compare them with anything.",
 ["router_print.go", "router.go"], [("listing", "router_print.go: PrintRawAllRoutes, PrintRawRoutes, PrintRouterTree, PrintRawRouter")], ["standard output"])

prop("Q05", "Handlers read headers and body exactly as the client sent them",
 "A header is found under its name in any case of letters and reads as its first line, or empty if the client sent none. The body is handed out in order, each byte exactly once and unchanged, whatever its length and however it arrives: reading it whole (as bytes or text) gives everything not read before, also by earlier handlers of the chain; what was handed out is the handler's own and stays as it was while later requests are served. A body that breaks off is reported as an error, never as a shorter body. A header a handler sets replaces what was set under the same name before and reaches the client when it was set before the response started.",
 ["inputs", "histories"], "all header lines and lookups, body lengths and contents, ways of arrival (length known or chunked, whole or broken off), and sequences of reads and header writes by the handlers of a chain",
 "No test reads a body or a header through the context.",
 ["content.go", "context.go"], [("headers", "content.go: GetHeader, SetHeader"), ("body", "content.go: BodyBytes, BodyString, ReadCloser")], ["results of the accessors; response headers at the client"])

prop("N01", "However an engine is served or mounted, its answers are the same",
 "An engine is an HTTP handler: on its own, started with Run or ListenAndServe (plain or TLS, HTTP/1.1 or 2), or mounted as a handler in another engine, directly, as a function, wrapped, or behind a stripped prefix, it answers each request with the same handlers, status and body. Inside another engine the outer handlers see the status it answered with and are cut off or resumed just as for any handler; parameters, full path, environment and position in the chain of either engine are untouched by the other, and a panic passes through to the nearest recovery around it. Run serves on the one address given, on :8080 when none is given, and refuses more; when serving cannot start, the error is returned.",
 ["configurations", "programs", "inputs"], "all engines and nestings of engines, ways of mounting and of serving, and requests",
 "The tests call ServeHTTP of one engine with a recorder; none mounts an engine or starts a server.",
 ["engine.go", "context.go", "util.go"], [("serving", "engine.go: ServeHTTP, Run, RunTLS, ListenAndServe, ListenAndServeTLS"), ("mounting", "engine.go: newHandler, WrapHandler"), ("addresses", "util.go: resolveAddress")], ["what handlers of each engine see; status and body at the client; errors of Run"])

with open(OUT, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
for p in P: assert len(p["title"]) <= 80, p["id"]
print(len(P))

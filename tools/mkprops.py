#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

H1 = "internal/protocol/http1/"
# ---------------------------------------------------------------- HTTP/1 connection
p("C01", "Outcome is independent of how the byte stream is segmented",
  "For every byte stream a client sends, the requests handed to the application (every field and every body byte), the responses written back and the point at which the connection is given up depend on the bytes alone: not on how they were split into reads, nor on the size of the read buffer.",
  ["inputs", "schedules"], "every byte stream (valid or not) and every way of splitting it into reads",
  "tests try a few hand-picked splits of a handful of valid requests; the property is over all splits of all streams, including malformed ones and split inside every token",
  [H1+"parser.go", H1+"body.go", H1+"suit.go", "internal/tcp/client.go"],
  [("resumable parser states", H1+"parser.go:Parse"), ("push-back of unconsumed bytes", "internal/tcp/client.go:Unread")],
  ["router callbacks", "bytes written to the connection"])
p("C02", "The handler sees exactly the request that was sent",
  "For every well-formed request the handler receives the method, the percent-decoded path, the raw query, the protocol version, all header fields (in order, duplicates kept, values unaltered apart from leading blanks), the content length/type, the transfer and content codings and the connection/upgrade wishes that are in the bytes of that request, and they stay valid until the handler returns, even while it reads the body.",
  ["inputs"], "every well-formed request head, header order, casing, duplicates, and handler that reads its body",
  "tests compare a few fixed requests; fields are unsafe slices of reused buffers, so corruption shows only for particular sizes, splits and orders",
  [H1+"parser.go", "http/request.go", "http/proto/proto.go"],
  [("start line and header states", H1+"parser.go"), ("buffers owned by the connection", "internal/construct/constructors.go")],
  ["http.Request fields inside the handler, at its start and at its end"])
p("C03", "Request bodies are delimited exactly; pipelined requests stay in sync",
  "The body a handler can read is exactly the bytes framed by Content-Length or by the chunked coding (chunked wins when both are given), and the next request starts at the first byte after it, whether the handler read all, some or none of the body. Every request that is handled gets exactly one response, in the order of arrival.",
  ["inputs", "histories"], "every sequence of pipelined requests with any mix of framings and of body-reading behaviours of the handlers",
  "tests run isolated requests or one body; desynchronisation needs particular successions of framing, partial reads and leftovers in the read buffer",
  [H1+"body.go", H1+"suit.go", H1+"parser.go", "http/request.go"],
  [("body readers and push-back", H1+"body.go"), ("discard of the rest of the body between requests", "http/request.go:Clear")],
  ["sequence of handler calls, body bytes and responses on one connection"])
p("C04", "Malformed input is refused: one error response, no handler, close",
  "No byte stream makes the server panic or process anything after a malformed request head: a request that is not well-formed is never handed to a handler, is answered with exactly one error response of the right class (400 for syntax and an overlong request line, 413/431 for limits, 501 for an unknown method, 505 for an unknown protocol), and the connection is then given up. A peer that goes away in the middle of a request gets no response and no handler call.",
  ["inputs", "fault_sequences"], "every byte stream, truncated at every point",
  "tests list about twenty malformed requests; the set is infinite and a panic in a connection goroutine takes the whole process down",
  [H1+"parser.go", H1+"suit.go", "http/proto/proto.go", "http/method/method.go"],
  [("Error state of the parser", H1+"parser.go:Parse"), ("single error response then return", H1+"suit.go:serve")],
  ["router callbacks", "bytes written", "return of the connection loop"])
p("C05", "Configured limits are enforced exactly",
  "A request exceeding a configured limit (request-line length, number of headers, key length and key space, value length and value space, coding tokens, chunk size, body size) is refused with an error response of that limit (or, for body and chunk sizes, an error of the body read), never delivered in full, and a request within all limits is never refused because of them, however it is split into reads.",
  ["inputs", "configurations"], "every limit configuration and every request below, at and above each limit",
  "tests check one value per limit, with the default configuration",
  [H1+"parser.go", H1+"body.go", "config/config.go", "internal/construct/constructors.go"],
  [("bounded buffers", "internal/construct/constructors.go:Buffers"), ("counters", H1+"parser.go"), ("body readers", H1+"body.go")],
  ["response status", "errors returned by body reads"])
p("C06", "Requests on one connection do not leak into each other",
  "What a handler or an error handler observes about a request (fields, headers, query, params, body, cookies, context, environment) and what is written as its response are the same as if that request had been the first one on a fresh connection, whatever earlier requests, responses and errors of the same connection were; only the connection's own attributes (remote address, encryption) persist.",
  ["histories"], "every history of earlier requests and responses on the same keep-alive connection",
  "tests rarely send a second request; every object is reused between requests, so each forgotten reset needs its own two-request history",
  ["http/request.go", "http/response.go", "internal/response/fields.go", H1+"suit.go", H1+"serializer.go", H1+"body.go", "http/query/query.go"],
  [("Request.Clear / Response.Clear / Body.Init", "http/request.go"), ("parser cleanup", H1+"parser.go:cleanup")],
  ["request snapshot and response of the n-th request compared with a fresh connection"])
p("C07", "Connections persist exactly when HTTP says so",
  "After a response the connection stays open iff the request was HTTP/1.1 without 'Connection: close' or HTTP/1.0 with 'Connection: keep-alive' (values compared case-insensitively), or asked for a supported protocol upgrade; this holds for every kind of response, and in all other cases nothing that follows on the connection is processed.",
  ["inputs", "histories"], "every protocol version, Connection/Upgrade header and response kind, at any position of a connection's history",
  "tests cover the plain-body branch of one request only",
  [H1+"serializer.go", H1+"suit.go"],
  [("isKeepAlive", H1+"serializer.go:isKeepAlive"), ("ErrCloseConnection", H1+"suit.go:serve")],
  ["whether a following pipelined request is handled"])
p("C08", "Every response on the wire is self-delimiting and well-formed",
  "Whatever response a handler builds (text, bytes, JSON, file, sized or unsized attachment), a strict HTTP client can parse the connection's output into exactly one well-formed response per request: status line, one framing header (an HTTP/1.0 response of unknown size is delimited by the end of the connection instead), and exactly the announced body; responses to HEAD carry the same head and no body. A response that cannot be completed as announced ends with the connection closed, and an attachment that can be closed is closed exactly once in every case.",
  ["inputs", "fault_sequences"], "every response, every reader behaviour (short reads, data with EOF, errors, too much/too little data), every buffer size",
  "tests use well-behaved readers and big buffers",
  [H1+"serializer.go", "internal/types/attachment.go", "http/response.go"],
  [("Content-Length rendering", H1+"serializer.go"), ("chunked writer", H1+"serializer.go:writeChunkedBody")],
  ["bytes written to the connection", "Close calls on the attachment"])
p("C09", "The response on the wire is what the handler built",
  "The status code and text, every header in the given order, every Set-Cookie with all its attributes, the content type and the body of a response reach the client as set; configured default headers are present exactly when the response did not set a header of that name (case-insensitively), in every response of the connection. Memory passed to a response is never written to.",
  ["inputs", "histories"], "every combination of builder calls and default headers, at any position of a connection's history",
  "tests check a few responses, each with a new serializer",
  [H1+"serializer.go", "http/response.go", "http/cookie/cookie.go", "internal/response/fields.go"],
  [("renderHeaders / defaultHeaders", H1+"serializer.go")],
  ["parsed response of each request"])
p("C10", "All ways of reading a body yield the same bytes",
  "For the same request, reading the body as string, as bytes, through the callback, piecewise, or through the io.Reader with any buffer sizes yields the same bytes and the same end or error; a complete read as string or bytes can be repeated, no piece is lost, duplicated or delivered after the end, and the callback is invoked only with data.",
  ["inputs", "histories"], "every body, framing, segmentation, access mode and read-buffer size, on any request of a connection",
  "tests use one access mode per body and one request per connection",
  [H1+"body.go", "internal/stash/reader.go", "http/body.go"],
  [("Retrieve as the single source", H1+"body.go:Retrieve"), ("stash reader", "internal/stash/reader.go")],
  ["results of body reads in the handler"])
p("C11", "Hijacking and protocol upgrades hand over the connection cleanly",
  "A handler that hijacks the connection receives a client whose next bytes are exactly those after the request's body, nothing else is read from or written to the connection by the server afterwards, and the server gives the connection up when the handler returns. A request for a supported HTTP/1.x upgrade is answered by one 101 response naming the protocol switched to, followed by the response in that protocol version.",
  ["inputs", "histories"], "every request with any body and any bytes following it, at any position of a connection's history",
  "no unit test hijacks a connection with leftovers; one test upgrades once",
  ["http/request.go", H1+"suit.go", H1+"serializer.go", "http/proto/upgrade.go"],
  [("Hijack", "http/request.go:Hijack"), ("PreWrite", H1+"suit.go:serve")],
  ["bytes seen by the hijacker", "bytes written to the connection"])
# ---------------------------------------------------------------- lifecycle
p("C12", "Graceful stop lets clients finish, then reports stop once",
  "After a graceful stop is requested no new connection is handled, every connection accepted before is served until its handler is done, then all listening sockets are closed, the stop hook runs exactly once after the last connection was closed, and serving returns the graceful-shutdown cause.",
  ["schedules", "histories"], "every interleaving of connections being accepted, served and finished with the stop request, on any number of listeners, interruptible or not",
  "the test does one graceful stop with idle clients and real sockets; the ordering guarantees are over all schedules",
  ["indi.go", "internal/tcp/server.go"],
  [("PauseAll, StopAll, OnStop", "indi.go:run"), ("accept loop and wait group", "internal/tcp/server.go")],
  ["handler start/finish, connection and listener close, hooks, return of Serve"])
p("C13", "Immediate stop and failures tear everything down",
  "On an immediate stop, or when any listener fails, or when one of several addresses cannot be bound, every listening socket that was opened gets closed and serving returns that cause; the stop hook runs exactly once if serving had started, after every accepted connection was closed; stop requests never block their caller once serving has ended or more than one was made.",
  ["schedules", "fault_sequences"], "every listener, every failure point (bind, accept) and every interleaving with connections in progress and with repeated stop requests",
  "tests stop a healthy app once",
  ["indi.go", "internal/tcp/server.go"],
  [("error channel", "indi.go:run"), ("bind", "indi.go:bind")],
  ["listener close calls, hooks, return value of Serve, return of Stop/GracefulStop"])
p("C14", "The TCP server handles each connection once and loses none",
  "Every connection the listener hands out is passed to the connection handler exactly once and concurrently with others, and closed exactly once, only after its handler returned; when waiting for the server returns after it was paused or stopped, every connection handed to a handler is closed and no further one will be handled. A listener error ends the accept loop with that error and affects no connection in progress.",
  ["schedules", "fault_sequences"], "every interleaving of accepts, handler completions, pause, stop, wait and accept errors; listeners with and without deadlines",
  "the test starts and stops an empty server",
  ["internal/tcp/server.go"],
  [("accept loop", "internal/tcp/server.go:Start"), ("wait group", "internal/tcp/server.go:connHandler")],
  ["handler calls, Close calls, return of Start/Wait"])
p("C15", "Each listener serves with its own handler, encryption and address",
  "A connection accepted by a listener is served by the handler configured for that listener (the HTTP handler with that listener's encryption mark by default), whatever other listeners are configured and in whatever order; the bind hook is called once per bound address, in order, with the normalized address.",
  ["configurations"], "every list of listeners with custom or default handlers",
  "tests use one listener, or several equal ones",
  ["indi.go"], [("per-source closure", "indi.go:bind")],
  ["which handler gets a connection; request environment"])
p("C16", "Connections do not influence each other",
  "What a client receives depends on its own connection only: requests served concurrently or earlier on other connections of the same application never change its responses, and concurrent serving of connections is free of data races.",
  ["schedules", "histories"], "every interleaving of requests on several connections sharing one router",
  "tests are sequential on one connection; shared state in the router shows only with two clients",
  ["router/inbuilt/inbuilt.go", "router/inbuilt/static.go", "router/inbuilt/trace.go", "router/virtual/virtual.go", "internal/pathlib/pathlib.go", "indi.go"],
  [("per-connection objects", "http/serve/http1.go"), ("shared runtime router", "router/inbuilt/inbuilt.go")],
  ["responses per connection", "race detector"])
# ---------------------------------------------------------------- routing
p("C17", "Requests are dispatched to the registered route, or 404/405",
  "A request whose normalized path matches a registered route and whose method is registered there reaches that handler and no other; HEAD falls back to GET; a matching path with an unregistered method gives 405 with an Allow header listing exactly the registered methods (TRACE is answered by an echo of the request line and headers of that very request instead); a path matching nothing gives 404. No combination of registered routes makes another route unreachable. The answer for static routes is the same whether or not dynamic routes are registered too.",
  ["configurations", "inputs"], "every set of routes (static, dynamic, grouped, any registration order) and every request path and method",
  "tests register a few routes and request them; two implementations (map and tree) must agree on all sets of routes",
  ["router/inbuilt/inbuilt.go", "router/inbuilt/registrar.go", "router/inbuilt/types.go", "router/inbuilt/internal/radix/tree.go", "router/inbuilt/internal/radix/arrmap.go", "router/inbuilt/groups.go"],
  [("routes map / radix tree", "router/inbuilt/inbuilt.go:onRequest"), ("getHandler", "router/inbuilt/inbuilt.go")],
  ["which handler ran", "status code, Allow header"])
p("C18", "Dynamic segments bind exactly the text they matched",
  "A dynamic segment matches exactly one non-empty path segment and its text is what the handler finds under the segment's name, with one parameter per named wildcard of the route and none from elsewhere; where a static and a dynamic segment both fit, the static one is taken (for good: a dead end further on is not retried). No parameters remain when nothing matched. Malformed templates and conflicting names are refused before serving.",
  ["configurations", "inputs"], "every set of templates and every path",
  "tests match a few templates",
  ["router/inbuilt/internal/radix/tree.go", "router/inbuilt/internal/radix/template.go", "router/inbuilt/internal/radix/arrmap.go"],
  [("Match", "router/inbuilt/internal/radix/tree.go:Match"), ("Parse", "router/inbuilt/internal/radix/template.go:Parse")],
  ["request.Params in the handler", "panic at registration"])
p("C19", "Middlewares run in order and only within their scope",
  "For every request each middleware that applies runs exactly once, outermost first: the root's, then each enclosing group's from outer to inner, in order of registration, then the route's own, then the handler; middlewares of other groups never run, and registering a middleware before or after the routes makes no difference. Error handlers get the root's middlewares, catchers those of their groups. Initializing a router again (to serve several hosts) changes nothing.",
  ["configurations"], "every nesting of groups and placement of middlewares",
  "tests cover one nesting",
  ["router/inbuilt/middlewares.go", "router/inbuilt/groups.go", "router/inbuilt/catchers.go", "router/inbuilt/inbuilt.go"],
  [("compose / applyMiddlewares", "router/inbuilt/middlewares.go")],
  ["order of calls"])
p("C20", "Errors reach the right error handler; catchers the longest prefix",
  "An HTTP error raised by parsing or routing is answered by the handler registered for its code, else by the catch-all one, else by a default response with that code (405 is always answered by its own inbuilt handler unless one is registered for 405; errors without a code give 500); a request that matches no route is given to the catcher with the longest matching prefix (groups' prefixes included) instead, whatever the order of registration. A handler's own error response is never rerouted.",
  ["configurations", "inputs"], "every set of error handlers and catchers and every error and path",
  "tests register one or two",
  ["router/inbuilt/inbuilt.go", "router/inbuilt/catchers.go", "router/inbuilt/route.go", "router/inbuilt/defaulterrhandlers.go"],
  [("onError", "router/inbuilt/inbuilt.go:onError"), ("sorted catchers", "router/inbuilt/inbuilt.go:Initialize")],
  ["which handler ran and with which error"])
p("C21", "Trailing slashes never distinguish paths",
  "Path normalization removes all trailing slashes, never anything else, keeps the root as a single slash, and is idempotent; routes are registered and requests matched by normalized path, so a path with and without trailing slashes reaches the same endpoint.",
  ["inputs"], "every path", "tests use three paths",
  ["router/inbuilt/uri/normalize.go", "router/inbuilt/registrar.go", "router/inbuilt/inbuilt.go"],
  [("Normalize", "router/inbuilt/uri/normalize.go")],
  ["result of normalization; endpoint reached"])
p("C22", "Virtual hosts route by Host, and only unambiguously",
  "A request goes to the router registered for its Host header value (case-insensitive; a leading 'www.' and the default ports 80 and 443 are insignificant on both sides, any other port is significant), else to the default router; without a default router it is answered with 421, or 400 if no Host is given. More than one Host value is always answered with 400; errors are routed by the same rule as requests.",
  ["configurations", "inputs"], "every set of hosts and every Host header",
  "tests use two or three hosts",
  ["router/virtual/virtual.go", "router/virtual/internal/domain/normalize.go"],
  [("getRouter", "router/virtual/virtual.go:getRouter"), ("domain.Normalize", "router/virtual/internal/domain/normalize.go")],
  ["which router handled the request; status code"])
p("C23", "Static file serving never leaves its root",
  "A request under a static prefix is answered with the content and media type of the regular file at the corresponding path below the configured root directory, or with 404 if there is none or the path contains two consecutive dots; no request path whatsoever, in any concurrent combination, makes the server open a file outside that root.",
  ["inputs", "schedules"], "every request path (encoded, dotted, doubled separators, odd prefixes) and concurrent requests",
  "no test exercises Static",
  ["router/inbuilt/static.go", "internal/pathlib/pathlib.go", "http/response.go"],
  [("isSafe", "router/inbuilt/static.go"), ("prefix replacement", "internal/pathlib/pathlib.go")],
  ["file opened / response"])
p("C24", "Mutators, aliases and inbuilt middlewares keep their contracts",
  "Mutators run once per request before routing, in order; an alias makes its path (trailing slashes aside) reach the target endpoint and keeps the path originally requested visible, through any chain of aliases; HTTPSOnly lets encrypted requests through and redirects every plain one to the same path over https; Redirect answers only its own path; Recover turns a panic of the handler into a 500; the header and logging middlewares leave the response otherwise unchanged; a handler returning no response counts as an empty 200.",
  ["configurations", "inputs"], "every combination of these with every request, encrypted or not",
  "there are hardly any tests of them",
  ["router/inbuilt/mutator/alias.go", "router/inbuilt/middleware/httpsonly.go", "router/inbuilt/middleware/redirect.go", "router/inbuilt/middleware/recover.go", "router/inbuilt/middleware/serverheader.go", "router/inbuilt/middleware/logging.go", "router/inbuilt/mutator.go", "router/inbuilt/aliases.go"],
  [("runMutators", "router/inbuilt/inbuilt.go:runMutators")],
  ["handler reached, response"])
# ---------------------------------------------------------------- data
p("C25", "Percent-decoding is exact",
  "Decoding a URI component replaces every '%' followed by two hexadecimal digits (either case) by that byte and leaves every other byte as it is; a '%' not followed by two hexadecimal digits is an error; nothing is decoded twice, and decoding into a buffer (including the input's own) gives the same result.",
  ["inputs"], "every byte string and every destination buffer", "tests decode six strings",
  ["internal/uridecode/decoder.go", "internal/hexconv/hexconv.go", H1+"parser.go"],
  [("Decode", "internal/uridecode/decoder.go"), ("digit table", "internal/hexconv/hexconv.go")],
  ["result and error; request path"])
p("C26", "Query parameters are parsed exactly, however they are asked for",
  "The parameters of a query are its '&'-separated pairs in order, split at the first '=', with '+' meaning a space and percent-escapes decoded after splitting, a missing '=' giving the flag value; malformed escapes or an empty name before '=' are reported as an error by every access, and the raw query stays what was sent.",
  ["inputs", "histories"], "every query string and every sequence of accesses", "tests parse ten strings once each",
  ["http/query/query.go", "http/query/internal/parser.go"],
  [("lazy parse", "http/query/query.go:parse"), ("Parse", "http/query/internal/parser.go")],
  ["Get, Unwrap, Raw"])
p("C27", "Cookies are parsed exactly",
  "The cookies of a request are all name=value pairs of all its Cookie headers, in order, split at the first '=' of each ';'-separated pair, values unaltered; a pair without a name or without '=' is an error and yields no partial jar; asking again gives the same answer.",
  ["inputs", "histories"], "every Cookie header combination", "tests parse seven strings",
  ["http/cookie/jar.go", "http/request.go"], [("Parse", "http/cookie/jar.go:Parse")],
  ["request.Cookies()"])
p("C28", "Key-value storage is an ordered case-insensitive multimap",
  "After any sequence of operations the storage behaves as the ordered list of added pairs: lookups find the first pair whose key is equal ignoring ASCII case, Values all of them in order, Keys each key once in order of first appearance, a cleared storage is empty, and a clone is unaffected by later changes of the original and vice versa, and by reuse of the memory the original's strings lie in.",
  ["histories"], "every sequence of operations", "tests do a few operations",
  ["internal/keyvalue/storage.go"], [("pairs slice", "internal/keyvalue/storage.go")],
  ["results of the API"])
p("C29", "String map: first insertion wins, lookups are exact",
  "After any sequence of insertions a lookup returns the value of the first insertion of exactly that key, and reports absence for every other key, for keys of any length including the empty one.",
  ["histories"], "every sequence of insertions and lookups", "one test with fixed keys",
  ["internal/strlenmap/map.go"], [("buckets by length", "internal/strlenmap/map.go")],
  ["Get results"])
p("C30", "Piece-to-reader adapter delivers the stream exactly",
  "Reading through the adapter with any sequence of buffer sizes yields exactly the concatenation of the pieces its source returned, in order; the source's error is reported once all data was delivered, never earlier, stays reported, and the source is not asked again after it; a reset forgets leftover data and error.",
  ["histories", "fault_sequences"], "every sequence of pieces (empty ones, data together with an error) and buffer sizes",
  "tests use one buffer size and clean EOF",
  ["internal/stash/reader.go"], [("Read/refill", "internal/stash/reader.go")],
  ["Read results; source calls"])
p("C31", "The connection client delivers every received byte once, in order",
  "The reads of a client return exactly the bytes received from the connection, in order, with bytes pushed back returned first by the next read (a later push-back replaces what an earlier one left); bytes that arrive together with an error are delivered before the error; every blocking read is bounded by the configured timeout, and writes, address and close go to the underlying connection unchanged.",
  ["histories", "fault_sequences"], "every sequence of reads and push-backs and every behaviour of the connection (short reads, data with error, deadline failures)",
  "there is no test of the client",
  ["internal/tcp/client.go"], [("pending buffer", "internal/tcp/client.go:Read")],
  ["Read results; calls on the connection"])
p("C32", "Codings are applied by token, never mixed up",
  "Encoding or decoding with a registered token gives that coding's result (gzip and compress also under their x- names), 'identity' and empty input pass through unchanged, any other token is reported as unknown; registering further codings changes nothing for the others, each coding works in a buffer of its own of the configured size.",
  ["histories", "inputs"], "every set and order of registered codings, token and input", "there is no test of the package",
  ["http/coding/codings.go"], [("token map", "http/coding/codings.go")],
  ["Encode/Decode results"])
p("C33", "Method, protocol, status and media-type tables are faithful",
  "A method or protocol token is recognised iff it is exactly one of the supported ones, and parsing and printing are inverse; every status line is the code, a space and the same text as the status text function gives; every error value carries the code its name says; file extensions map to their registered media types.",
  ["inputs"], "every byte string; every code", "tests check a few tokens",
  ["http/method/method.go", "http/method/method_string.go", "http/proto/proto.go", "http/proto/upgrade.go", "http/status/codes.go", "http/status/errors.go", "http/mime/exts.go"],
  [("tables", "http/status/codes.go")],
  ["function results"])
p("C34", "Addresses are completed, not altered",
  "An address without a host gets the all-interfaces host and keeps its port, any other address is left as it is; the localhost and IP (v4) classifications look at the host part only (the text before the first colon), ignoring case and port.",
  ["inputs"], "every address string", "tests use a few addresses",
  ["internal/address/address.go", "indi.go"], [("Normalize", "internal/address/address.go")],
  ["function results"])
p("C35", "Domain normalization removes only what is insignificant",
  "Normalizing a host removes one leading 'www.' (in any case) and a trailing default port (80 or 443) and nothing else; trimming the port removes the first colon and all that follows.",
  ["inputs"], "every host string", "tests use a few hosts",
  ["router/virtual/internal/domain/normalize.go"], [("Normalize", "router/virtual/internal/domain/normalize.go")],
  ["function results"])
p("C36", "Filling a configuration keeps what was set and defaults the rest",
  "A partially filled configuration, once filled, has every set value unchanged and the default for every unset one, field by field, and filling again changes nothing.",
  ["configurations"], "every subset of fields set", "no test",
  ["config/config.go"], [("Fill", "config/config.go:Fill")],
  ["resulting configuration"])
p("C37", "Header value accessors return exactly the addressed part",
  "The main value is the text before the first ';'; a parameter's value is the text between its '=' and the next ';', with the documented fallback when it is absent; quality and charset follow the same rule.",
  ["inputs"], "every header value and parameter name", "tests use a few values",
  ["http/headers/valueaccessors.go"], [("getParam", "http/headers/valueaccessors.go")],
  ["function results"])
p("C38", "Escaped paths are printable and only non-printables change",
  "Escaping a path for display yields printable ASCII only; every printable byte is kept in place and every other byte is replaced by exactly one two-character escape.",
  ["inputs"], "every byte string", "tests use a few strings",
  ["http/path.go"], [("Escape", "http/path.go:Escape")],
  ["function result"])
p("C39", "JSON arrives as it was meant, or is refused",
  "A request body that is a JSON text is read into the model as the value that text denotes (missing members keep what the model had), whatever the layout, the framing and the segmentation; a text that is incomplete, is followed by anything but blanks or does not fit the model is reported as an error; a body of another media type than application/json (parameters and case aside) is refused as unsupported. A value sent as JSON arrives as a text denoting that value with its media type; a value that cannot be encoded is answered by an error response, never by a part of a text.",
  ["inputs", "histories"], "every body text, model and value, on any connection history",
  "tests decode one well-formed document; texts that end early, go on after the value, or need escapes are not sampled",
  ["http/request.go", "http/response.go"], [("JSON", "http/request.go:JSON"), ("TryJSON", "http/response.go:TryJSON")],
  ["the model and the error inside the handler", "bytes written"])
p("C40", "Local HTTPS copes with whatever an earlier start left in its cache",
  "Started with automatic HTTPS on a local address, an application serves HTTPS with a certificate and its own key: a usable cached pair is used as it is and left unchanged; anything else found in the cache folder (nothing, one file, incomplete, damaged or mismatched files, as a start killed or unable to write at any point leaves them) is replaced by a usable pair. When the pair cannot be written the application starts without it and serves its other listeners.",
  ["crash_points", "histories"], "every content of the two files and every history of starts, each of them undisturbed, killed or unable to write at any point",
  "no test starts an application with HTTPS; incomplete files need a crash at a particular write",
  ["https.go", "indi.go"], [("generateSelfSignedCert", "https.go:generateSelfSignedCert"), ("AutoHTTPS", "indi.go:AutoHTTPS")],
  ["certificate served on a TLS connection", "files in the cache folder"])
p("C41", "The configuration last tuned is the one in force on every connection",
  "An application serves every connection of each of its addresses, plain or HTTPS, with the configuration given by its last Tune, wherever that call stands among the others, and with the defaults for whatever it leaves unset: the limits on requests and bodies, the size of the buffer the socket is read into, the timeout of every read, the size of the buffer attachments are read into and the default response headers. Nothing of an earlier Tune stays.",
  ["configurations", "inputs"], "every subset of the fields set, every order of Tune and Listen calls, every request near the limits in force",
  "tests run an application with one configuration and never look at its buffers and timeouts; a value taken from a neighbouring field, an earlier Tune or the wrong listener shows for particular configurations only",
  ["indi.go", "config/config.go", "internal/construct/constructors.go", "internal/protocol/http1/suit.go", "http/serve/http1.go"],
  [("Tune", "indi.go:Tune"), ("Initialize", "internal/protocol/http1/suit.go:Initialize"), ("Client", "internal/construct/constructors.go:Client")],
  ["requests and errors reaching the router", "bytes written", "buffers and deadlines of the socket's reads", "buffers of attachment reads"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")

#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Request fidelity under any segmentation of the byte stream",
 "Every well-formed request reaches the application exactly as the client sent it: method, percent-decoded path, query parameters, protocol, every header value in order with case-insensitive lookup and without the blanks around it, cookies, content type, content length, encodings and remote address; a malformed query or Cookie header is reported as an error whenever it is accessed. This does not depend on how the bytes are cut into reads, delayed, pipelined with neighbouring requests, delivered together with the end of the stream, or on the configured buffer sizes, settings left out meaning their defaults.",
 ["inputs", "schedules", "configurations", "fault_sequences"],
 "all valid requests x all cuts of the stream into reads x all arrival delays x all read-buffer and preallocation sizes",
 "The suite feeds a dozen fixed requests, mostly whole or at a fixed stride, to the parser alone; cuts, pipelining, tiny buffers and data arriving together with EOF over a live connection are never combined.",
 ["internal/protocol/http1/parser.go", "internal/protocol/http1/suit.go", "internal/tcp/client.go", "http/request.go", "http/query", "http/cookie", "internal/keyvalue", "internal/uridecode", "internal/hexconv", "http/method", "http/proto"],
 [("resumable parser states and segment buffers", "internal/protocol/http1/parser.go Parse"), ("pending data pushed back to the client", "internal/tcp/client.go Unread/Read")],
 [("parser state, header key, buffers", "where parsing resumes", "internal/protocol/http1/parser.go Parser")],
 ["the *http.Request given to the handler"])

prop("C02", "One handler call and one in-order response per request; persistence honoured",
 "For every complete request received on a connection the application is called exactly once, in order, and exactly one final response is sent for it, in the same order; a request whose header section is incomplete never reaches the application, and one whose body breaks off is never presented as complete. After a response the connection keeps serving HTTP/1.1 requests unless the request said Connection: close, and HTTP/1.0 requests only if it said keep-alive; otherwise the connection is closed right after that response and no later bytes are treated as requests.",
 ["inputs", "schedules", "histories", "fault_sequences"],
 "all pipelines of requests with and without bodies, protocol versions and Connection values, all segmentations, all connection cuts",
 "Existing tests run one or two requests in lockstep; pipelines mixed with unread bodies, responses of every kind and cut connections are not sampled.",
 ["internal/protocol/http1/suit.go", "internal/protocol/http1/serializer.go", "internal/protocol/http1/body.go", "internal/tcp/client.go"],
 [("serve loop", "internal/protocol/http1/suit.go serve"), ("keep-alive decision", "internal/protocol/http1/serializer.go isKeepAlive")],
 (), ["handler call log", "bytes the client receives", "connection close"])

prop("C03", "Every response is well-formed HTTP carrying exactly what the handler set",
 "Each response a client receives is a well-formed HTTP message with exactly the status, headers, cookies, content type and body set by the handler, plus every configured default header which that very response did not override, and with framing from which the client finds its end. A HEAD response carries the same headers and no body, and a 204 or 304 response no body whatever the handler set. Building a response never changes memory which belongs to the application.",
 ["inputs", "histories", "configurations", "fault_sequences"],
 "all responses an application can build, all sequences of them on one connection, all buffer sizes and write segmentations",
 "Tests render single responses through the serializer; sequences of differing responses on one connection, default-header overriding history, cookies with attachments and status texts are not covered.",
 ["internal/protocol/http1/serializer.go", "http/response.go", "internal/response/fields.go", "http/status/codes.go", "http/cookie/cookie.go", "http/proto/proto.go"],
 [("response rendering", "internal/protocol/http1/serializer.go Write"), ("default header exclusion and reset", "internal/protocol/http1/serializer.go defaultHeaders")],
 (), ["bytes the client receives"])

prop("C04", "Nothing leaks from one request to the next on the same connection",
 "What the application observes for a request and what the client receives for it is a function of that request alone: no header, query or path parameter, cookie, body byte, content length, encoding, context value, environment value, status, response header or response body of an earlier exchange on the connection shows up in a later one, and what the application has cloned to keep is never changed by a later one.",
 ["histories", "inputs", "schedules"],
 "all sequences of requests (sparse after rich, failed after successful, partially consumed bodies) on one connection",
 "Objects are reused per connection; tests use a fresh connection, or compare one field after one predecessor.",
 ["http/request.go", "internal/protocol/http1/parser.go", "internal/protocol/http1/body.go", "internal/protocol/http1/serializer.go", "internal/keyvalue/storage.go", "http/query/query.go", "internal/response/fields.go", "internal/stash/reader.go"],
 [("request reset between requests", "http/request.go Clear"), ("parser cleanup", "internal/protocol/http1/parser.go cleanup"), ("body initialisation", "internal/protocol/http1/body.go Init")],
 (), ["the *http.Request given to the handler", "bytes the client receives"])

prop("C05", "Concurrent connections do not influence each other",
 "Whatever the interleaving of concurrent connections to one application, each client receives exactly the responses it would receive if it were alone: no byte, parameter, file, trace echo, error or delay of another connection affects it.",
 ["schedules", "inputs", "histories"],
 "all interleavings, at statement granularity, of connection handlers sharing one application and router",
 "Tests run clients sequentially or a few in parallel under the OS scheduler, and do not look at shared router state.",
 ["router/inbuilt/inbuilt.go", "router/inbuilt/trace.go", "router/inbuilt/static.go", "internal/pathlib/pathlib.go", "http/serve/http1.go", "internal/construct/constructors.go", "indi.go", "internal/tcp/server.go"],
 [("per-connection request, response, parser and buffers", "http/serve/http1.go HTTP1"), ("router immutable while serving", "router/inbuilt/inbuilt.go runtimeRouter")],
 (), ["bytes each client receives"])

prop("C06", "Request bodies are delivered exactly, by every access method",
 "Whatever way a handler reads the body (at once as bytes, string or JSON, as an io.Reader with any buffer, by pieces, by callback, or beginning in one of these ways and going on in another), plain or chunked, it obtains exactly the bytes sent and then the end of the body (JSON of another media type than application/json, if one is given, is refused with 415); the handler is called as soon as the head of the request is complete, and reading by pieces gives what has arrived without waiting for what has not. If the connection breaks or the chunked coding is malformed before the body is complete, the handler gets an error and never an end-of-body; and a body the handler did not read or read only partly is skipped, so that the next request is parsed at its own first byte.",
 ["inputs", "schedules", "fault_sequences", "histories"],
 "all bodies, chunkings, segmentations, orders of body calls and points where the connection breaks",
 "Tests read whole bodies through mostly one method from a dummy client; mixed access, partial reads followed by pipelined requests and truncations at arbitrary byte positions are not explored.",
 ["internal/protocol/http1/body.go", "internal/stash/reader.go", "http/body.go", "http/request.go", "internal/tcp/client.go"],
 [("plain and chunked readers", "internal/protocol/http1/body.go"), ("io.Reader adapter", "internal/stash/reader.go"), ("discarding before the next request", "http/request.go Clear")],
 (), ["what the body methods return", "following requests"])

prop("C07", "Configured limits are enforced and never hit below, for any segmentation",
 "A request whose request line, number of headers, header name, header value, total header space, body or chunk exceeds the configured limit (the default one where none is configured) is refused with the corresponding client-error response or body-access error and is never presented to the application as complete; a request within all the limits is accepted. Neither depends on how the bytes are cut into reads or on what was received on the connection before.",
 ["inputs", "configurations", "schedules", "histories"],
 "all limits x sizes just below, at and above them x all segmentations x all preceding requests",
 "Tests hit one or two limits with a single oversized blob and default settings.",
 ["internal/protocol/http1/parser.go", "internal/protocol/http1/body.go", "config/config.go", "internal/construct/constructors.go"],
 [("bounded buffers and header counter", "internal/protocol/http1/parser.go"), ("body size checks", "internal/protocol/http1/body.go read")],
 (), ["error status", "handler call log", "body errors"])

prop("C08", "No input and no connection fault can crash, wedge or corrupt the server",
 "Whatever bytes clients send and whenever connections stall, reset, half-close or refuse writes, the process never panics, no handler or serving goroutine spins or blocks for ever, and clients which are well-behaved are served correctly throughout and afterwards.",
 ["inputs", "fault_sequences", "schedules"],
 "all byte streams (arbitrary and mutated valid ones), all fault points, concurrently with well-behaved clients",
 "A panic outside the handler needs a specific malformed byte sequence at a specific cut; the suite has a handful of negative parser inputs and no faulty connections.",
 ["internal/protocol/http1/parser.go", "internal/protocol/http1/body.go", "internal/protocol/http1/suit.go", "internal/tcp/server.go", "internal/tcp/client.go", "http/query/internal/parser.go", "http/cookie/jar.go", "internal/uridecode/decoder.go"],
 [("error state of the parser", "internal/protocol/http1/parser.go"), ("errors end the connection", "internal/protocol/http1/suit.go serve")],
 (), ["process survival", "responses to well-behaved clients", "connection closes"])

prop("C09", "Silent clients are dropped at the read timeout and active ones are not",
 "A client which sends nothing for the configured read timeout, whether idle, in the middle of a request or in the middle of a body, is disconnected at that moment and gets no response of the server's own; a client whose gaps are all shorter is never disconnected, however long the whole exchange takes and however slowly it reads what it is sent.",
 ["schedules", "configurations", "fault_sequences"],
 "all arrival schedules in virtual time, all timeouts, all positions in the request at which the client falls silent",
 "Real-time tests wait for one timeout at one position; they cannot afford long exchanges nor boundaries.",
 ["internal/tcp/client.go", "internal/protocol/http1/suit.go", "internal/construct/constructors.go", "config/config.go"],
 [("deadline re-armed before each read", "internal/tcp/client.go Read")],
 (), ["virtual time of the disconnect", "bytes the client receives"])

prop("C10", "Graceful stop finishes established clients and takes no new ones",
 "After a graceful stop is requested the application stops taking new connections on all its listeners, keeps serving every connection it has taken until the client leaves or falls silent, and only then closes the listeners, runs the stop callback once and returns the graceful-shutdown error. Whatever the timing (a connection which arrives while the stop is being carried out may be dropped unserved), no connection is being served when the stop callback runs, none is cut off before its client is done, and the whole shutdown completes once the clients are gone.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of accepting, serving, requesting the stop (also repeatedly and from any goroutine) and clients leaving, one or several listeners of both interruptible and non-interruptible kinds",
 "One real-time test exercises one order of events with sleeps.",
 ["indi.go", "internal/tcp/server.go"],
 [("pause, wait, stop", "indi.go run; internal/tcp/server.go PauseAll/StopAll"), ("connection wait group", "internal/tcp/server.go Start/Wait")],
 [("shutdown flag", "accept loop must end", "internal/tcp/server.go Server")], ["order of accepts, handler runs, closes, callbacks and return of Serve"])

prop("C11", "Immediate stop and listener failure shut everything down cleanly",
 "When a stop is requested, or any listener fails, all listeners are closed at once, Serve waits until the clients are disconnected, runs the stop callback exactly once with nobody being served and no new connection acceptable, and returns the shutdown error or that listener's error, whichever reason came first. Requests to stop never block their caller, no serving goroutine outlives Serve, and start, bind and stop callbacks run in that life-cycle order; afterwards the same application can be served once more, as if for the first time.",
 ["schedules", "fault_sequences", "histories"],
 "all interleavings of several listeners failing, stop requests (also repeated, concurrent, from callbacks and handlers), accepts and disconnects",
 "Tests stop one server in one state; failing listeners and races between accept, failure and stop are never produced.",
 ["indi.go", "internal/tcp/server.go"],
 [("error channel and silent-failure flag", "indi.go run"), ("stop closes the sockets and waits", "internal/tcp/server.go StopAll")],
 (), ["order of accepts, closes, callbacks, return value of Serve, leftover goroutines"])

prop("C12", "Connections, files and goroutines are always released",
 "Every accepted connection is closed exactly when its serving ends, however it ends, every file or closable stream handed over as a response is closed once the response has been sent, failed, needed no body or could not be sent at all, a stream without an end being given up once its client is gone, and no goroutine or descriptor remains when all the clients are gone.",
 ["fault_sequences", "schedules", "histories"],
 "all ways an exchange can end: normal, HEAD, write failure at any byte, read failure, timeout, parse error, panic caught by the recovery middleware, hijack, shutdown",
 "Leaks are invisible to the response-comparing tests and need failures at specific points.",
 ["internal/tcp/server.go", "internal/protocol/http1/serializer.go", "internal/types/attachment.go", "http/response.go", "indi.go"],
 [("connection handler closes", "internal/tcp/server.go connHandler"), ("attachment closing", "internal/protocol/http1/serializer.go sendAttachment")],
 (), ["close counts", "open descriptors", "goroutines left"])

prop("C13", "Each listener serves with its own handler and encryption, or none is bound",
 "Connections accepted by a listener are served by that listener's own handler and report that listener's encryption on every request they carry, for any number and mix of listeners. Every address is bound and announced through the bind callback before the start callback; if binding one fails, Serve returns that error and the listeners bound so far are closed.",
 ["configurations", "schedules", "fault_sequences", "histories"],
 "all sets of listeners (plain, TLS, custom handler), bind failures at any position, all connection interleavings and request sequences",
 "Tests bind one plain and one TLS listener and issue a single request to each.",
 ["indi.go", "https.go", "http/serve/http1.go", "http/request.go", "internal/address/address.go", "http/encryption"],
 [("binding loop", "indi.go bind"), ("encryption in request environment", "http/serve/http1.go")],
 (), ["which handler ran", "Env.Encryption per request", "bind callback", "listener closes"])

prop("C14", "A hijacked connection is handed over whole and untouched",
 "A handler which hijacks the connection receives, in order and without loss or duplication, exactly the bytes that follow the hijacked request and its body, including those already received; from then on the server writes nothing and reads nothing on it, and closes it when the handler returns.",
 ["inputs", "schedules", "fault_sequences"],
 "all segmentations around the end of the request, read and unread bodies, raw bytes sent early or late, all interleavings",
 "One test hijacks after a whole read with no data following.",
 ["http/request.go", "internal/protocol/http1/suit.go", "internal/tcp/client.go", "internal/protocol/http1/body.go"],
 [("hijack discards the body and returns the client", "http/request.go Hijack"), ("serve loop leaves", "internal/protocol/http1/suit.go serve")],
 (), ["bytes read by the hijacker", "bytes received by the peer", "close"])

prop("C15", "The self-signed certificate cache survives crashes and disk faults",
 "Whenever automatic HTTPS on a local address is used, after any history of earlier starts which crashed at any point, lost power or met disk errors, the application either listens with a matching certificate and key, or reports that it cannot have one: by a warning, leaving TLS off, or by an error of Serve. Once the disk works, the next start ends with a usable certificate; an intact cached pair is kept and used.",
 ["crash_points", "fault_sequences", "histories"],
 "all crash points and disk faults (failed, short and lost writes, full disk) of any sequence of starts",
 "No test runs certificate generation against a failing or previously half-written directory.",
 ["https.go", "indi.go"],
 [("check of the cached pair", "https.go certExists"), ("generation and writing", "https.go generateSelfSignedCert")],
 (), ["cert and key files", "result of binding"])

prop("C16", "Requests are dispatched to the right route whatever runs concurrently",
 "Each request is handled by the handler registered for its method and path, static or with path parameters (a static segment takes precedence over a parameter at the same place), with exactly the matching parameter values and with the middlewares of its router, group and route around it in order; HEAD falls back to GET, an unknown path yields the longest matching catcher or 404, a known path with another method yields 405 with the methods it does allow, and a panicking handler behind the recovery middleware yields 500, an aliased path is handled as the path it stands for, and the redirecting middleware answers for its path. Without any router every path yields 404. A router with a malformed path template, two handlers for one method and path or two names for one parameter does not come up. This holds on every request of every connection, in any interleaving and after any earlier requests, and also if the same router has been initialized before (for another host or an earlier run).",
 ["schedules", "histories", "inputs", "configurations"],
 "all route tables of a bounded family, all request sequences, all interleavings of connections sharing the router",
 "Router tests send one request at a time to a fresh request object; they do not reuse request objects, mix misses with hits, nor run concurrently.",
 ["router/inbuilt/inbuilt.go", "router/inbuilt/registrar.go", "router/inbuilt/groups.go", "router/inbuilt/catchers.go", "router/inbuilt/middlewares.go", "router/inbuilt/internal/radix", "router/inbuilt/uri", "router/inbuilt/middleware"],
 [("static map or radix tree", "router/inbuilt/inbuilt.go onRequest"), ("error handlers and catchers", "router/inbuilt/inbuilt.go onError")],
 (), ["which handler ran with which parameters", "bytes the client receives"])

prop("C17", "Static file serving sends the requested file and nothing outside its root",
 "A request under a static prefix receives exactly the content and type of the file its path names below the configured directory, or 404 (names containing two dots in a row may be refused); no request path, encoding or interleaving with other requests yields anything outside that directory or another file's content.",
 ["inputs", "schedules", "fault_sequences"],
 "all request paths (encoded, dotted, repeated slashes), several static mounts and groups, all interleavings, file-system errors",
 "Tests request two files, one at a time.",
 ["router/inbuilt/static.go", "internal/pathlib/pathlib.go", "http/response.go", "http/mime/exts.go"],
 [("prefix replacement", "internal/pathlib/pathlib.go"), ("path safety check", "router/inbuilt/static.go isSafe")],
 (), ["paths opened", "bytes the client receives"])

prop("C18", "Virtual hosts: every request goes to the router of its Host",
 "A request with one Host value goes to the router registered for that host (compared case-insensitively, a leading www. and the default ports 80 and 443 being of no importance; one router may be registered for several hosts), otherwise to the default router if there is one or else is refused as misdirected; several Host values are refused, none goes to the default router or is refused. Requests the server itself rejects are answered by the same choice, and the choice depends on nothing but the current request.",
 ["inputs", "histories", "schedules", "configurations"],
 "all host tables, Host header multiplicities and spellings, request sequences on one connection and interleavings",
 "Tests call the router with single prepared request objects.",
 ["router/virtual/virtual.go", "router/virtual/internal/domain/normalize.go", "internal/keyvalue/storage.go"],
 [("router lookup", "router/virtual/virtual.go getRouter")],
 (), ["which router answered", "status"])

prop("C19", "Protocol upgrades are answered once and do not disturb the connection",
 "A request asking to upgrade to a supported HTTP/1.x version receives a single 101 response naming the chosen protocol followed by the final response in that protocol; a request without a supported upgrade token receives only its final response. Neither depends on earlier upgrades on the connection.",
 ["histories", "inputs", "schedules"],
 "all Upgrade values, protocol versions, and sequences of upgrading and ordinary requests on one connection",
 "One test sends a single upgrade request.",
 ["internal/protocol/http1/suit.go", "http/proto/upgrade.go", "internal/protocol/http1/serializer.go"],
 [("pre-response", "internal/protocol/http1/suit.go serve"), ("token choice", "http/proto/upgrade.go ChooseUpgrade")],
 (), ["bytes the client receives"])

prop("C20", "Streamed responses arrive whole, or the connection closes visibly short",
 "When a handler responds with a stream or a file, the client receives exactly the bytes the stream produces, in order, as a complete message, whatever sizes its reads return and whether the end comes with the last data or after it; what the stream has produced is sent before it is waited for again, and no more than the configured file buffer is read at once. If the stream fails or yields fewer bytes than announced, the client never sees a message it can mistake for a complete one: the connection is closed. Bytes beyond the announced size are never sent. A stream of unknown size sent to an HTTP/1.0 client ends with the connection.",
 ["inputs", "fault_sequences", "configurations", "histories"],
 "all streams (read sizes, errors, premature or late end, zero reads), announced sizes, buffer sizes, client write failures and stalls",
 "Tests stream from well-behaved in-memory readers only.",
 ["internal/protocol/http1/serializer.go", "internal/types/attachment.go", "http/response.go"],
 [("plain and chunked streaming", "internal/protocol/http1/serializer.go writePlainBody/writeChunkedBody")],
 (), ["bytes the client receives", "connection close"])

prop("C21", "A malformed request is refused once and ends the connection",
 "A request which violates the syntax (bad request line, unknown method or protocol, malformed header section, invalid content length or escape, transfer codings after which the end of the body is unknown) is never given to a request handler; its client gets exactly one error response with the corresponding 4xx/5xx status, produced by the application's error handler, after which the connection is closed and nothing that follows is interpreted. Requests completed before it on the connection are answered normally.",
 ["inputs", "histories", "schedules"],
 "all single-fault mutations of valid requests at any position in a pipeline, all segmentations",
 "Tests check the parser's error value for some whole inputs; what the client and the application see on a live connection in the middle of a pipeline is not tested.",
 ["internal/protocol/http1/parser.go", "internal/protocol/http1/suit.go", "router/inbuilt/inbuilt.go", "http/status/errors.go", "internal/uridecode/decoder.go"],
 [("error branch of the serve loop", "internal/protocol/http1/suit.go serve")],
 (), ["handler and error-handler call log", "bytes the client receives", "connection close"])

prop("C22", "Repeated failures of one client never exhaust or degrade the others' service",
 "While some clients connect, misbehave and vanish again and again, the listener keeps accepting, and a well-behaved client connecting at any time is accepted and answered within a bounded number of steps after its request is complete.",
 ["schedules", "fault_sequences", "histories"],
 "all schedules of connection churn: resets before the first byte, slow senders, stalled readers, errors, at statement granularity",
 "Liveness under churn needs many adversarial connections with controlled timing.",
 ["internal/tcp/server.go", "internal/tcp/client.go", "internal/protocol/http1/suit.go"],
 [("one goroutine per connection", "internal/tcp/server.go Start")],
 (), ["virtual time and steps until the answer"])

prop("C23", "The request log: one truthful line per request, forgeable by no client",
 "With the request-logging middleware or mutator in use, every request the router handles adds exactly one line to each given logger (the default log if none is given), before its response is sent, whatever other connections log at the same moment: the middleware's line has the method, the path as routed and the status of that very response (also for nil responses, recovered panics and refused requests), the mutator's one the method and the path as received. Disconnects add no line to the middleware's log. Every byte of the path that is not printable ASCII, including line breaks, escape characters and each byte of multi-byte characters, appears as a backslash escape, so no request can break, forge or hide lines; printable paths appear unchanged.",
 ["inputs", "schedules", "histories", "fault_sequences"],
 "all paths a client can request x all responses x all interleavings of connections logging through shared (possibly slow) loggers x connection failures",
 "No test covers the logging at all; raw bytes need paths with multi-byte characters, and lost, doubled or mixed lines need concurrent connections.",
 ["router/inbuilt/middleware/logging.go", "router/inbuilt/mutator/requestlogger.go", "http/path.go", "router/inbuilt/inbuilt.go", "router/inbuilt/middlewares.go"],
 [("logging middleware", "router/inbuilt/middleware/logging.go LogRequests"), ("logging mutator", "router/inbuilt/mutator/requestlogger.go RequestsLog"), ("escaping", "http/path.go Escape")],
 (), ["calls of the loggers"])

prop("C24", "HTTPS-only handlers are never reached by plain requests, which get redirected",
 "Where the HTTPS-only middleware is in force (a router, a group or a single catcher), no request that came over a plain listener reaches the handler, and every request that came over an encrypted one does, whatever mixture of listeners and connections is served. A plain request is answered 301 with a Location on https with the configured host and port, or else the host of its own Host header (names, IPv4 and IPv6 literals, with or without port) and the default port, and its own path (the original one if aliased), escaped so that it names the same path and no byte of it can add to or break the response. Without any host it is answered 400.",
 ["inputs", "schedules", "configurations", "histories"],
 "all paths and Host values x plain and TLS listeners at once x all scopes of the middleware x interleavings and pipelines",
 "No test covers the middleware; header injection needs escaped control characters in the path, and a leak of the encryption mark needs plain and TLS connections at once.",
 ["router/inbuilt/middleware/httpsonly.go", "indi.go", "http/request.go", "http/encryption/encryption.go", "router/inbuilt/middlewares.go", "router/inbuilt/mutator/alias.go"],
 [("redirecting", "router/inbuilt/middleware/httpsonly.go HTTPSOnly"), ("encryption of the listener", "indi.go App.Listen"), ("mark of the request", "http/request.go Environment")],
 (), ["handler call log", "bytes the client receives"])

prop("C25", "The application is told about the end of every connection exactly once",
 "For every accepted connection which is not hijacked, the router's error handler is called exactly once, as the last call for that connection and with an HTTP error, however the connection ends: the client leaves or resets, the request is malformed or exceeds a limit, nothing comes within the timeout, a response can't be written, a stream fails, or the response closes the connection. A hijacked connection gets no such call. Calls for one connection never overlap, and a response stream without an end is given up as soon as the client is gone.",
 ["fault_sequences", "schedules", "histories"],
 "all ways a connection can end x all points of a conversation x interleavings of connections",
 "Tests check the error handler on parse errors only; write failures, timeouts and vanished clients at particular points need faults.",
 ["internal/protocol/http1/suit.go", "internal/protocol/http1/serializer.go", "router/router.go", "http/serve/http1.go", "internal/tcp/client.go"],
 [("error notifications of the serve loop", "internal/protocol/http1/suit.go serve"), ("failed writes", "internal/protocol/http1/serializer.go Write")],
 (), ["calls of Router.OnRequest and Router.OnError per connection", "bytes and closes of the stream"])

prop("C26", "Automatic HTTPS gets, keeps and serves certificates of the configured domains",
 "A listener with automatic HTTPS for a public name asks the certificate authority for certificates of its configured domains only (any, if none is configured), is able to pass the authority's validation, and serves each configured name with a valid, trusted certificate of that name, whatever number of clients ask for it at once. Certificates got are kept in the cache directory and used again after a restart without being ordered anew, also while the authority can't be reached; an unusable cache directory is reported and does not prevent serving. When the authority or the disk fails, only names without a certificate are affected, and once the failures are over certificates are obtained. Only protocols the server speaks are negotiated, and requests are served as encrypted ones.",
 ["fault_sequences", "schedules", "histories", "configurations"],
 "all lists of domains x names asked for x interleavings of clients x failures of the authority (unreachable, errors, garbage, slow, refusing) and of the disk x restarts",
 "No test can reach a certificate authority; obtaining, refusing, reusing after a restart and recovering from failures need a simulated one.",
 ["https.go", "indi.go", "internal/address/address.go"],
 [("autocert configuration", "https.go autoTLSListener"), ("choice between self-signed and public", "indi.go AutoHTTPS"), ("cache directory", "https.go cacheDir")],
 (), ["orders reaching the authority", "result of handshakes", "files of the cache", "log"])

prop("C90", "The content-coding registry applies the coding registered for a token",
 "Encoding or decoding data with a token applies the coding registered under that token or its historical alias, leaves data untouched for identity and empty input, and reports an unknown token as such.",
 ["inputs"], "all tokens and data", "A pure lookup: a table test settles most of it.",
 ["http/coding/codings.go"], [("map lookup", "http/coding/codings.go Manager")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")

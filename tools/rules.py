"""How the runs of each property are made (goes to the evidence)."""
RULES = {
 "C01": "1-3 clients with 1-5 random well-formed requests each, random buffer sizes; bytes cut, delayed and pipelined at random; the handler compares everything visible of the request with what the client meant.",
 "C02": "1-3 clients, pipelines of up to 7 requests with bodies, versions and Connection values, responses of all kinds, connections cut anywhere; call log, order and number of responses, and closing are compared with a model of the conversation.",
 "C03": "1-2 clients, up to 6 requests each answered with random responses (status, text, headers, cookies, strings, JSON, streams, files, HEAD, default headers); a strict client-side parser compares what arrives with what was set.",
 "C04": "1-2 clients with 2-9 differing requests on one connection; handlers leave traces in the request and the response builder; nothing but the request itself may be seen.",
 "C06": "1-2 clients, up to 5 requests with plain or chunked bodies read by 14 access patterns; bodies truncated or their coding spoiled anywhere.",
 "C19": "1-2 clients, up to 6 requests asking for protocol upgrades in lists, cases and combinations with Connection values; interim and final responses are compared.",
 "C20": "1-2 clients, up to 4 responses streamed from scripted sources (piece sizes, zero reads, end with data, failures, too short and too long) and files.",
 "C21": "1-2 clients whose pipelines contain a malformed request (12 classes) at a random place; calls, error-handler calls, statuses and closing are compared.",
 "C07": "1-2 clients against random limits (request line, header count, name, value, spaces, body, chunk); requests at, below and above each limit after random predecessors, cut at random; acceptance, status and body errors are compared.",
 "C08": "1-3 clients sending arbitrary and mutated bytes (dictionary of tokens, spliced and truncated requests) or breaking their connections in all ways, next to well-behaved clients checked against the full model, handlers which use every accessor of the request.",
 "C13": "1-5 listeners (plain, TLS with certificate files, automatic HTTPS, own Listen, own Handler) in random address spellings, one of them possibly failing to bind or without a loadable certificate; 1-4 clients, some connecting before the start callback; handler, encryption, certificate, callbacks and leftovers are compared.",
 "C14": "1-3 clients with 0-3 ordinary requests and then a hijacked one with a body read in some way or not; a conversation of random pieces (HTTP look-alikes included) sent early or late and cut anywhere; what the handler and the client get and who touches the connection is compared.",
 "C15": "1-5 successive (sometimes two concurrent) starts of processes using automatic HTTPS over one simulated disk: crashes at any disk operation with torn writes, power loss dropping, cutting or zeroing what was not synced, errors of every operation, foreign or half-written leftovers; the outcome of each start is judged, the last one runs on a working disk.",
 "C22": "well-behaved clients connecting at random times while others connect, misbehave and vanish again and again (resets before the first byte, slow senders, stalled readers, malformed requests), now and then crowds of up to 270 of them; each good request must be answered in time.",
 "C05": "2-6 clients at once over one router (routes with parameters, middlewares, panics, static files, streams), delays and cuts at random; every response is compared with what its own request had to get, and timed clients must not be held up by others.",
 "C09": "1-3 clients which fall silent for random times at random points (idle, inside a head, inside a body, not reading) around the read timeout; the moment and manner of the closing are compared with the configured timeout.",
 "C10": "1-4 clients, GracefulStop at a random moment, possibly several stops of both kinds; running requests must be answered, listeners closed, Serve return.",
 "C11": "1-4 clients, Stop at a random moment, possibly racing with a graceful one; Serve returns promptly with the right error and hooks.",
 "C12": "1-4 clients cut, reset, silent or stalled at random, attachments and files; after the end of the run every connection, file and task must be gone.",
 "C16": "random route tables (statics, templates, groups, resources, catchers, aliases, middlewares, error handlers, mutators), 1-3 clients with up to 6 requests each; calls, order of middlewares, parameters and responses are compared with a model of routing.",
 "C17": "1-2 served directories over a simulated file system with files outside of them, 1-4 clients asking for existing, missing and escaping names, disk errors; contents, type and status are compared.",
 "C18": "random sets of virtual hosts and a default, 1-3 clients with Host values in all forms (missing, doubled, ports, case, www.); who answers is compared with a model.",
 "C23": "1-5 clients with up to 6 requests each for paths full of line breaks, control bytes, multi-byte characters and format verbs, answered in all ways (nil, panics, streams), some malformed or cut; 1-4 shared, possibly slow loggers behind the logging middleware and mutator; lines are compared per request and in total.",
 "C24": "1-4 clients at once on plain and TLS listeners, up to 6 requests each with Host values and paths of all kinds, the HTTPS-only middleware on the whole router, a group or a catcher, aliases; who is handled and the parsed Location are compared with a model.",
 "C25": "1-4 clients ending in all ways at random points (left, reset, silent, malformed, over a limit, not reading, hijacked, endless streams) in front of any router; the calls which the router gets per connection are compared.",
 "C26": "1-3 lives of a process with 1-2 automatic HTTPS listeners (domain lists of all kinds, with or without a usable cache) over one disk and a simulated ACME authority which is healthy, slow, down, failing, talking garbage or refusing; 1-4 clients at once asking for listed, unlisted and look-alike names in all cases; after the failures end certificates must be got.",
}

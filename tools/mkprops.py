#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the entries stay in one format)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe), "hook_needed": None}})
V = "src/viriatum/"; K = "src/viriatum_commons/"
NT = "The 21 tests only run data-structure and codec samples; "

prop("C01", "Request data never overruns the storage it is copied into",
 "However long a URL, path, header value, credential or redirect target sent by a client is, the request-handling code never writes past the end of the buffer it stores or rewrites it in. Data that does not fit is truncated or refused; it never spills into neighbouring memory.",
 ["inputs"], "every request line, header and body a client can send, in every division into network reads",
 NT + "no test feeds a request to the server, and no finite set of lengths covers every boundary of every buffer.",
 [V+"handlers/handler_file.c", V+"handlers/handler_dispatch.c", V+"handlers/handler_proxy.c", V+"handlers/handler_default.c", V+"http/http_util.c", V+"http/http_parser.c", V+"stream/stream_http.c", V+"stream/stream_io.c"],
 [("length checks before the copies in the request callbacks", V+"handlers/handler_file.c: *_callback_handler_file; handler_dispatch.c: *_callback_handler_dispatch; handler_proxy.c"),
  ("output size limits of the header writers", V+"http/http_util.c: write_http_*")],
 [("url/path/location/header fields of the handler contexts", "fixed-size copies of request data", V+"handlers/handler_file.h, handler_dispatch.h, handler_proxy.h")],
 ["memory of the server process"])

prop("C02", "A request can only reach files inside the served directory",
 "The static file handler never opens, lists or stats a path that lies outside the directory configured for the location (or the default contents directory), whatever encoding, dot segments or location rewriting the request uses. A request that would escape gets an error response.",
 ["inputs", "configurations"], "every request path and every location configuration",
 NT + "the space of encodings of a parent-directory segment and of location rewrites cannot be sampled.",
 [V+"handlers/handler_file.c", K+"encoding/percent.c", K+"io/file.c"],
 [("rejection of parent-directory segments on the decoded path", V+"handlers/handler_file.c: message_complete/validation of file_path"),],
 [("file_path / file_path_d", "file system path before and after percent decoding", V+"handlers/handler_file.c")],
 ["path arguments of the file system calls"])

prop("C03", "A protected location is served only after its credentials matched",
 "When a location requires basic authentication, neither its files, its directory listings nor any derived success response is produced unless the request carried a user that exists in the configured password file and a password equal to the stored one. Any failure to read, parse or compare (missing header, bad encoding, unreadable or malformed password file, unknown user) denies access.",
 ["inputs", "configurations", "fault_sequences"], "every authorization header, every password file and every failure of the steps that evaluate them",
 NT + "no test reaches authentication, and the failing steps (unreadable file, undecodable header) need faults that samples do not produce.",
 [V+"handlers/handler_file.c", V+"http/http_util.c", K+"formats/passwd.c", K+"encoding/base_64.c"],
 [("auth gate before any content response", V+"handlers/handler_file.c: message_complete_callback_handler_file"), ("credential comparison", V+"http/http_util.c: auth_http, auth_file_http")],
 [("auth_result", "outcome of the credential check", V+"handlers/handler_file.c")], ["status line of the response"])

prop("C04", "Every completed request gets exactly one response",
 "For every complete request that reaches a handler, exactly one response head is queued: no path through the handler ends silently without a response, and no path queues two heads for the same request. While a response is in flight its queued writes are the only ones for that request.",
 ["inputs", "fault_sequences"], "every complete request, handler, location configuration and failing file/allocation step",
 NT + "the handlers have about a dozen exits each (errors, redirects, listings, ranges) and no test enters them.",
 [V+"handlers/handler_file.c", V+"handlers/handler_default.c", V+"handlers/handler_dispatch.c", V+"http/http_util.c", "modules/mod_lua", "modules/mod_gif", "modules/mod_diag"],
 [("early return after each response", V+"handlers/handler_file.c: message_complete_callback_handler_file")], [], ["bytes on the client socket"])

prop("C05", "After a response the connection closes or stays open as negotiated",
 "After the last byte of a response was sent, the connection is closed when the request did not ask to keep it alive, and is kept (and its request state reset, so that the next request starts clean) when it did. The advertised connection header in the response agrees with that choice.",
 ["inputs", "histories"], "every request and every sequence of requests on one connection",
 NT + "no test exercises a connection, and the guarantee concerns histories of requests.",
 [V+"handlers/handler_file.c", V+"handlers/handler_default.c", V+"handlers/handler_proxy.c", V+"http/http_util.c", V+"http/http_parser.c"],
 [("the end-of-response callbacks", V+"handlers/handler_file.c: _cleanup_handler_file; handler_default.c: _send_response_callback*; handler_proxy.c"), ("keep alive flag", V+"http/http_parser.c: http_should_keep_alive")],
 [("FLAG_KEEP_ALIVE", "client asked for a persistent connection", V+"http/http_parser.h")], ["connection header and closing of the client socket"])

prop("C06", "No network input can abort the server process",
 "No byte sequence received from a client or a backend makes the server terminate itself: no failing assertion, exit or abort, and no lookup outside a constant table, is reachable from received data.",
 ["inputs"], "every byte sequence in every division into reads",
 NT + "the parser state machine has dozens of states and tests send it nothing.",
 [V+"http/http_parser.c", V+"stream/stream_http.c", V+"stream/stream_io.c", V+"handlers/handler_file.c", V+"handlers/handler_proxy.c", V+"handlers/handler_dispatch.c", K+"encoding/bencoding.c"],
 [("state machine", V+"http/http_parser.c: process_data_http_parser")],
 [("state", "position in the request grammar", V+"http/http_parser.h")], ["process exit"])

prop("C07", "Oversized message lengths are rejected, not wrapped",
 "A content length or chunk size too large to be represented is rejected as a parse error; it never wraps into a smaller or negative length, and a byte of a length that is neither a digit nor a blank or terminator is rejected.",
 ["inputs"], "every length field",
 NT + "the parser is not tested, and wrap-around needs specific 10+ digit values.",
 [V+"http/http_parser.c"], [("overflow check before accumulating a digit", V+"http/http_parser.c: content-length and chunk-size states")],
 [("content_length", "bytes of body still expected", V+"http/http_parser.h")], ["parser error / framing of the next request"])

prop("C08", "Request parsing does not depend on how the bytes were split",
 "Feeding a request in any division into reads produces the same parsed events and the same final state as feeding it at once: everything the parser remembers while scanning is kept across calls, text spanning two reads is delivered whole, and the scanner never looks at bytes beyond the ones received.",
 ["inputs", "schedules"], "every request and every way the network may divide it",
 NT + "no test feeds the parser, and the number of divisions is exponential.",
 [V+"http/http_parser.c", V+"stream/stream_http.c"],
 [("saving and restoring of the scanner state at every exit", V+"http/http_parser.c: process_data_http_parser"), ("re-basing of text marks when the read buffer moves", V+"stream/stream_http.c: data_handler_stream_http")],
 [("state, flags, header_state, index, marks", "scanner state kept between calls", V+"http/http_parser.h")], ["handler callbacks"])

prop("C09", "A malformed request ends its connection and nothing else",
 "When received data cannot be parsed, or the handling of it fails, the connection it came from is closed and no further data of it is interpreted; memory of that connection is not used after its closing, and other connections keep being served.",
 ["inputs"], "every malformed request", NT + "no test sends malformed requests.",
 [V+"stream/stream_http.c", V+"http/http_parser.c", V+"handlers/handler_proxy.c", V+"polling/polling_epoll.c", V+"polling/polling_select.c"],
 [("parse result check after every feed", V+"stream/stream_http.c: data_handler_stream_http")], [], ["client socket"])

prop("C10", "The announced body length equals the body that is sent",
 "In every response, the length announced in the head is the length of the body queued after it (whole file, requested range, generated listing, error page or nothing), every head ends with exactly one empty line, and the size given to the socket layer is the size of the text that was formatted.",
 ["inputs", "configurations"], "every response the server builds itself", NT + "no test looks at a response.",
 [V+"http/http_util.c", V+"handlers/handler_file.c", V+"handlers/handler_default.c", "modules/mod_lua", "modules/mod_gif", "modules/mod_diag"],
 [("header writers", V+"http/http_util.c: write_http_headers*"), ("senders", V+"handlers/handler_file.c")], [], ["bytes on the client socket"])

prop("C11", "Internal details are shown to clients only in debug builds",
 "Unless the server was built for debugging, responses never contain internal file system paths, allocation traces or source locations; error pages carry only the status, its message and the public description.",
 ["inputs", "configurations"], "every error response", NT + "error pages are not tested.",
 [V+"http/http_util.c", V+"handlers/handler_file.c", V+"handlers/handler_dispatch.c"],
 [("non-debug branch of the error writer", V+"http/http_util.c: write_http_error_a")], [], ["error bodies"])

prop("C12", "A served range lies inside the file",
 "For every range header, the interval of the file that is sent starts at or after byte 0, ends at or before the last byte and is not empty; ranges that cannot be satisfied never turn into reads or lengths outside the file.",
 ["inputs"], "every range header and file size", NT + "ranges are not tested, and the failing values are boundary relations between header and file size.",
 [V+"handlers/handler_file.c", V+"http/http_util.c"], [("range parsing and clamping", V+"http/http_util.c: get_http_range_limits; handler_file.c: range branch of message_complete")],
 [("initial_byte, final_byte", "the interval to serve", V+"handlers/handler_file.h")], ["content-range header, body"])

prop("C13", "Closing a connection releases it exactly once and completely",
 "Closing a connection, from any state and however often it is requested, runs its close notification at most once, removes its events from the polling system, closes its socket exactly once, removes it from the list of active connections and prevents any further read or write on it.",
 ["histories", "fault_sequences"], "every order of close, error and event on a connection",
 NT + "no test opens a connection; double-closing needs particular histories.",
 [V+"system/service.c", V+"stream/stream_io.c", V+"polling/polling_epoll.c", V+"polling/polling_select.c"],
 [("status guard and tear-down sequence", V+"system/service.c: close_connection"), ("removal at the polling layer", V+"polling/*: unregister_connection_polling_*")],
 [("status", "open or closed", V+"system/service.h: connection_t")], ["socket descriptor, active connections"])

prop("C14", "A deleted connection is never touched again by the event loop",
 "A connection closed while events are being dispatched stays valid until the dispatch round ends, is destroyed exactly once at its end, and no later round uses it: no list kept by the event loop still holds it after it was destroyed.",
 ["schedules", "histories"], "every combination of events on every connection within and across rounds",
 NT + "the polling layer is not tested; the failure needs two events of one connection in one round.",
 [V+"polling/polling_epoll.c", V+"polling/polling_select.c", V+"polling/polling_epoll.h", V+"polling/polling_select.h"],
 [("deferred destruction list", V+"polling/*: remove_connection*, _call_polling_*"), ("pending-work lists", V+"polling/*: *_outstanding*")],
 [("remove_connections", "connections to destroy after this round", V+"polling/*.h"), ("read_outstanding, write_outstanding", "connections with work left for the next round", V+"polling/*.h")], ["memory of the server"])

prop("C15", "Queued writes leave in order, once, and are released once",
 "Data queued on a connection is sent in queue order without loss or repetition, also when the socket accepts only a part; each queued buffer is released exactly once, after all of it was sent, and its completion callback runs once, only then.",
 ["schedules", "fault_sequences"], "every sequence of partial sends, would-block results and errors",
 NT + "no test writes to a socket and partial sends depend on the kernel.",
 [V+"stream/stream_io.c", V+"system/service.c"], [("write handler", V+"stream/stream_io.c: write_handler_stream_io"), ("queueing", V+"system/service.c: write_connection*")],
 [("write_queue", "pending buffers", V+"system/service.h: connection_t")], ["bytes on the socket"])

prop("C16", "Both event backends honour the same contract",
 "The interchangeable event backends provide every operation the event loop uses, and agree on what each operation does: registering or unregistering read, write and error interest keeps the recorded interest and the kernel's view in step, write interest is only taken for open connections with a write handler, and every ready descriptor is dispatched to the handler of that event.",
 ["configurations", "histories"], "every build configuration and every history of interest changes", NT + "neither backend is tested.",
 [V+"polling/polling_epoll.c", V+"polling/polling_select.c", V+"system/service.h"],
 [("operation table", V+"polling/polling_*.c: create_polling_*"), ("interest flags", V+"polling/*: register_*/unregister_*")],
 [("write_registered, write_valid", "recorded interest", V+"system/service.h: connection_t")], ["events delivered to handlers"])

prop("C17", "Installing and removing a request handler are exact inverses",
 "Every callback a request handler installs on a connection's parser when a request starts is cleared again when the handler is removed, the per-request context is created and destroyed exactly once, and no callback that needs the context stays installed without it.",
 ["histories"], "every sequence of requests, handler switches and connection closings", NT + "handlers are not tested.",
 [V+"handlers/handler_file.c", V+"handlers/handler_default.c", V+"handlers/handler_dispatch.c", V+"handlers/handler_proxy.c", "modules/mod_lua", "modules/mod_gif", "modules/mod_diag"],
 [("set/unset pairs", V+"handlers/*: set_handler_*, unset_handler_*, _set_http_settings_*, _unset_http_settings_*, _set_http_parser_*, _unset_http_parser_*")],
 [("settings slots, context", "callbacks and per-request state", V+"http/http_parser.h")], ["memory of the server"])

prop("C18", "Encrypted connections get the same treatment as plain ones",
 "Reading, writing, would-block handling, error handling and closing behave the same on encrypted and plain connections: the handshake completes before data is exchanged, would-block results wait for the matching event, real errors close the connection, and the session is released when the connection closes.",
 ["configurations", "fault_sequences"], "every configuration and result of the encryption library", NT + "no test opens an encrypted connection.",
 [V+"stream/stream_io.c", V+"system/service.c"], [("SSL branches", V+"stream/stream_io.c: read/write/handshake/accept handlers")], [], ["client socket"])

prop("C19", "The event loop never blocks on a single connection",
 "Every socket handed to the event loop was switched to non-blocking mode first, and connection handlers treat a would-block result as 'wait for the next event' rather than as an error or a reason to retry in place.",
 ["schedules", "configurations"], "every accepted or created connection", NT + "no test opens a socket.",
 [V+"stream/stream_io.c", V+"system/service.c", V+"system/client.c", V+"handlers/handler_proxy.c"],
 [("SOCKET_SET_NON_BLOCKING before registration", V+"stream/stream_io.c: accept_handler_stream_io; service.c: create_service_connection/start_service; client.c")], [], ["latency of other connections"])

prop("C20", "A slow reader throttles its sender and is resumed",
 "When data waiting to be written to one side of a proxied exchange passes the upper limit, reading from the other side stops; it resumes once the waiting data falls below the lower limit, and it is never left stopped when everything was written.",
 ["schedules"], "every interleaving of reads and writes on both sides", NT + "the proxy is not tested.",
 [V+"handlers/handler_proxy.c", V+"stream/stream_io.c"], [("pause and resume limits", V+"handlers/handler_proxy.c: write/flush callbacks")],
 [("pending byte counters", "bytes queued to each side", V+"handlers/handler_proxy.h")], ["transfer progress"])

prop("C21", "The proxy forwards each message whole and keeps its two ends apart",
 "Everything the proxy forwards is exactly what it received, accumulated in a buffer that always has room for it and is handed over exactly once; the client end and the backend end each keep their own connection, parser and buffer, and closing one end leaves the other in a usable or closed, never dangling, state.",
 ["inputs", "schedules", "histories"], "every proxied exchange, including early close of either side", NT + "the proxy is not tested.",
 [V+"handlers/handler_proxy.c"], [("growing forward buffer", V+"handlers/handler_proxy.c: write_proxy_buffer and callers"), ("backend close handling", V+"handlers/handler_proxy.c: close_backend_handler, unset")],
 [("buffer/out_buffer with size and capacity", "data awaiting forwarding", V+"handlers/handler_proxy.h")], ["bytes on both sockets"])

prop("C22", "Command line options override the configuration file and defaults",
 "For every option, the value in effect is the one from the command line if given, else from the configuration file if given, else the built-in default; absent or unreadable sources never leave an option undefined.",
 ["configurations"], "every combination of command line, configuration file and defaults", NT + "option loading is not tested.",
 [V+"system/service.c", V+"viriatum.c", K+"util/arguments_util.c", K+"ini/ini.c"],
 [("loading order", V+"system/service.c: load_options_service, load_specifications"), ("lookups with default", V+"system/service.c: _load_options_service / option comparison helpers")],
 [("options", "effective settings", V+"system/service.h: service_options_t")], ["server behaviour"])

prop("C23", "Malformed files, templates, URLs and arguments cannot corrupt memory",
 "Configuration files, password files, templates, URLs, command-line arguments and encoded data of any size and content are parsed without writing outside the storage reserved for the parsed items and without reading past the end of the supplied text.",
 ["inputs"], "every content of the parsed files and strings", NT + "the parsers see one well-formed sample each at most.",
 [K+"ini/ini.c", K+"formats/passwd.c", K+"formats/url.c", K+"template/engine.c", K+"template/handler.c", K+"util/arguments_util.c", K+"io/file.c", V+"system/service.c"],
 [("length checks before copying an item", K+"ini/ini.c, formats/*.c, template/*.c, util/arguments_util.c")], [], ["memory of the server"])

prop("C24", "Containers keep count and links consistent under every operation",
 "After any sequence of operations, each container's reported size equals the number of stored elements, its first and last elements and neighbour links agree, removed elements are unreachable, an emptied container behaves like a fresh one, and capacity grows before an element is stored beyond it.",
 ["histories"], "every sequence of operations", "The tests run one fixed sequence per container and none clears or empties one and continues.",
 [K+"structures/linked_list.c", K+"structures/hash_map.c", K+"structures/array_list.c", K+"structures/priority_queue.c", K+"structures/string_buffer.c", K+"structures/linked_buffer.c", K+"structures/sort_map.c"],
 [("size updates and link updates", K+"structures/*.c")], [("size, first, last, data_size", "bookkeeping", K+"structures/*.h")], ["sizes, lookups, iteration"])

prop("C25", "Every opened resource is released on every exit",
 "A file, directory, socket, library, iterator or parser handler that an operation opens for its own use is released on every way out of that operation, including each failure, and is released at most once.",
 ["fault_sequences", "inputs"], "every failing step of every operation", NT + "failures of system calls are never provoked.",
 [K+"io/file.c", K+"formats/passwd.c", K+"ini/ini.c", K+"template/handler.c", V+"handlers/handler_file.c", V+"system/service.c", V+"system/client.c", V+"module/loading.c"],
 [("release calls on error paths", K+"io/file.c and users")], [], ["open descriptors, memory"])

prop("C26", "Memory is never used after release nor released twice",
 "No operation dereferences, returns, stores for later use or releases again an object it has already released, and a structure that stays reachable never keeps a pointer to a released part that later operations would follow.",
 ["histories", "fault_sequences", "inputs"], "every sequence of operations and failures", NT + "clean-up paths and failure paths are mostly untested.",
 [V+"handlers/handler_file.c", V+"handlers/handler_proxy.c", V+"stream/stream_io.c", V+"stream/stream_http.c", V+"system/service.c", K+"structures", K+"template/handler.c", K+"encoding/bencoding.c"],
 [("ownership conventions of delete_* functions", "src/viriatum*/**")], [], ["memory of the server"])

prop("C27", "Failures reported by a step are honoured before its results are used",
 "When a step that can fail (opening a file, looking up a key, creating a socket, parsing, allocating a session) reports failure or yields nothing, the code that asked for it does not go on to use the missing or uninitialised result.",
 ["fault_sequences", "inputs", "configurations"], "every failing step", NT + "no failure is provoked.",
 [V+"handlers/handler_file.c", V+"handlers/handler_dispatch.c", V+"handlers/handler_proxy.c", V+"http/http_util.c", V+"system/service.c", K+"io/file.c", K+"formats/passwd.c", V+"module/loading.c"],
 [("error idiom", K+"debug/error.h: IS_ERROR_CODE, RAISE_*"), ("null checks after lookups", "src/viriatum/**")], [], ["memory of the server"])

prop("C28", "Decoders stay inside their input and output",
 "The base-64, percent, hexadecimal and bencoding decoders and encoders, the digests and the stream cipher never read past the end of the given input nor write past the output they allocated or the state they keep, for any input including empty and truncated ones.",
 ["inputs"], "every input text and length", "Each codec test decodes one or two well-formed strings.",
 [K+"encoding/base_64.c", K+"encoding/percent.c", K+"encoding/bencoding.c", K+"crypto/rc4.c", K+"checksum/md5.c", K+"checksum/sha1.c"],
 [("index bounds", K+"encoding/*.c")], [], ["memory"])

prop("C29", "Encoding and lookup tables agree with each other",
 "Tables that describe the same mapping from both sides or in parallel agree entry by entry: each base-64 symbol decodes to the value it encodes, each hexadecimal digit maps to its value in both cases, each method name and status message stands at the index of its code, and no code used by the program lacks an entry.",
 ["inputs"], "every symbol, code and index", "Tests use a few symbols; a wrong rarely used entry passes.",
 [K+"encoding/base_64.h", K+"encoding/base_64.c", K+"encoding/percent.c", V+"http/http_parser.c", V+"http/http_util.h", V+"http/http_util.c"],
 [("constant tables", K+"encoding/base_64.h; "+V+"http/http_parser.c; "+V+"http/http_util.h")], [], ["decoded values, response lines"])

prop("C30", "Modules are loaded, started, stopped and unloaded as pairs",
 "A module is registered as loaded only after its library and entry points were found; whatever loading acquired is given back when loading fails; unloading stops the module before its descriptors and its library are released, each once; and each module provides every entry point the loader requires.",
 ["fault_sequences", "configurations"], "every module file and failing step", NT + "no module is loaded by the tests.",
 [V+"module/loading.c", "modules/mod_lua", "modules/mod_gif", "modules/mod_diag"],
 [("load/unload", V+"module/loading.c: load_module, unload_module")], [], ["loaded modules"])

prop("C31", "A termination signal only asks the main loop to stop",
 "Signal handlers only record the request and return; everything else (closing connections, freeing, printing, locking) is done by the main loop afterwards, so that a signal arriving at any instruction cannot corrupt or deadlock the server, and a broken client connection never kills it by signal.",
 ["schedules"], "every instant at which a signal can arrive", NT + "signals are not tested.",
 [V+"viriatum.c", V+"system/service.c"], [("kill_handler", V+"viriatum.c"), ("stop_service", V+"system/service.c"), ("SIGPIPE ignored", V+"viriatum.c")], [("status", "service is to keep running", V+"system/service.h")], ["process state"])

prop("C32", "No decision depends on an uninitialised value",
 "Every value the program branches on, dereferences, releases or sends was given a value first on every path, including the paths taken when a lookup finds nothing, a list is empty or a file is missing.",
 ["inputs", "configurations", "fault_sequences"], "every path through every operation", "Uninitialised memory usually reads as zero in a short test run.",
 [V+"system/service.c", V+"handlers/handler_file.c", V+"handlers/handler_dispatch.c", V+"http/http_parser.c", K+"encoding/bencoding.c", K+"formats/url.c", K+"template/handler.c", V+"stream/stream_io.c"],
 [("initialisation in the create_* functions", "src/viriatum*/**")], [], ["all behaviour"])

prop("C33", "Transformations and algorithms compute the right values",
 "Checksums, compression, sorting, encryption and template rendering produce the values their specifications define, and each encoder/decoder pair round-trips.",
 ["inputs"], "every input", "Tests sample single vectors.",
 [K+"checksum", K+"compression/huffman.c", K+"sorting", K+"crypto/rc4.c", K+"template"], [("algorithms", K)], [], ["output values"])
prop("C34", "The server stays responsive under load",
 "With any number of connections below the configured maximum, every ready connection is served within a bounded number of rounds and timeouts fire on time.",
 ["schedules"], "every load", NT + "no load is applied.", [V+"polling", V+"system/service.c"], [("event loop", V+"system/service.c: run_service")], [], ["latency"])
prop("C35", "Served content equals the stored content",
 "The body of a successful response is byte for byte the content of the file (or the requested range of it) at the time it was read, with the media type configured for its extension.",
 ["inputs", "histories"], "every file and request", NT + "no file is served.", [V+"handlers/handler_file.c"], [("chunked sending", V+"handlers/handler_file.c: _send_chunk_handler_file")], [], ["response bodies"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
        "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Every admitted connection is served exactly once, in arrival order",
  "A connection that passes the address filter while fewer than 1024 are waiting is handed to exactly one worker, exactly once, and connections are handed over in the order in which they were accepted, under every interleaving of the acceptor and the workers. A waiting connection is picked up whenever one of the 200 workers is idle: no wake-up is ever lost, and no history of requests reduces the number of requests that can be in progress at once. A connection that arrives while 1024 are already waiting is dropped without losing, duplicating or reordering the waiting ones.",
  ["schedules", "histories"], "every interleaving of one acceptor and the worker pool, every fill level of the waiting queue including empty, wrapped-around and full, every history of earlier requests",
  "No test starts the server: the queue, the worker pool and the acceptor are not executed at all.",
  ["ws.c", "ws.h"], [("ring buffer with one mutex and one condition variable", "ws.c: ws_launch accept loop, ws_queue_get, ws_connection_handler")],
  [("waiting queue", "accepted sockets no worker has taken yet", "ws.c: ws_threads_queue"), ("worker pool", "200 threads", "ws.c: ws_launch")],
  ["order of handler invocations", "socket handler passed to ws_launch"])

p("C02", "Each accepted socket is closed once, at the end, on every path",
  "Every socket the server accepts is closed by the server exactly once, whatever happens to the connection: refused by address, dropped because too many are waiting, rejected, limited, answered, or abandoned by its client. The close comes after everything the server sends on it, and the server never touches that descriptor for that connection again, so a descriptor number reused by a newer connection is never affected. After any history, once the clients are done, no descriptor of a past connection is left open.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of connections ending and new ones being accepted on reused descriptor numbers, every way a connection can end, every client disconnect point",
  "Tests never open a socket; send and SSL_write are mocked and close is never called on a connection.",
  ["ws.c"], [("connection_close / close in the accept loop", "ws.c: connection_close, accept_request, ws_launch")],
  [("descriptor table", "open descriptors of the process", "kernel")], ["close(2) calls of the server", "client side end of file", "open descriptors"])

p("C03", "Configured connection limits are never exceeded",
  "While a limits rule (path, maximum, maximum per address) is in force, the number of requests whose URL begins with the rule's path and that are being processed at the same moment never exceeds the rule's maximum, and the number of those from one client address never exceeds the rule's per-address maximum. This holds under every interleaving of requests starting and finishing, and for every rule that applies to a URL.",
  ["schedules", "histories", "configurations"], "all interleavings of concurrent requests, all sets of overlapping rules, all mixes of addresses and URLs",
  "No test loads a limits file or has two requests in progress; the race between counting and registering needs concurrency.",
  ["ws.c", "http_utils.h"], [("count then register in one critical section", "ws.c: connection_validate, connection_add, get_live_stats")],
  [("live connections", "requests in progress with URL and address", "ws.c: live_connections"), ("rules", "parsed limits file", "ws.c: limits")],
  ["requests inside handlers at the same moment"])

p("C04", "A request is refused as 'too many' only when a limit is really reached",
  "A request is answered 429 only if, at some moment while it was being admitted, an applicable rule's total or per-address maximum was in use by other requests in progress; a refused request itself never counts. When a request ends, however it ends, its share is returned: after any history, once nothing is in progress, exactly the configured maximum of new requests is admitted again. A request to which no rule applies is never refused.",
  ["schedules", "histories", "fault_sequences"], "all histories of admitted, refused, failed and aborted requests, all interleavings of their ends with new admissions, descriptor reuse included",
  "Leaks and stale registrations show only after sequences of connections with particular interleavings; no test registers a connection.",
  ["ws.c"], [("unregister on close", "ws.c: connection_del, connection_close")],
  [("live connections", "requests in progress", "ws.c: live_connections")], ["status 429 responses", "admissions after quiescence"])

p("C05", "Address allow and deny lists decide exactly who is served",
  "A connection is served if and only if its address is not listed in the deny file and, when an allow file exists, is listed in the allow file; a line lists an address only when it is that exact address. A refused connection is closed without receiving a byte and without any handler or filter running. The decision uses the files' content at the time the connection is accepted, for files of any size; while a list that is there cannot be read, nobody is served.",
  ["inputs", "configurations", "histories"], "all addresses, all contents of the two files (missing, empty, long, addresses that are prefixes, suffixes or substrings of listed ones, any line end), all histories of changes to the files",
  "One test checks one allow file with one address; substrings, deny, large files, missing files and changes are never tried.",
  ["ws.c", "file_utils.c"], [("allowed_address over find_in_file", "ws.c: allowed_address; file_utils.c: find_in_file")],
  [("allow and deny files", "address lists, one per line", "WAYUU_ROOT/etc")], ["connection outcome", "allowed_address"])

p("C06", "Static serving never discloses anything outside the document root",
  "Whatever request target a client sends, the bytes returned for a static request come only from regular files located inside the document root (WAYUU_ROOT/www). Targets that would climb out of it, in any spelling and any combination of dots, slashes, empty segments and query strings, are answered as if the file did not exist.",
  ["inputs", "configurations"], "all request targets, all directory trees with sensitive files next to and above the document root",
  "No test serves a static file.", ["ws.c", "http_utils.c"], [("path check before the file is opened", "ws.c: handle_static_routes")],
  [("document root", "folder of static files", "ws.c: WAYUU_STATIC_ROOT")], ["response body", "files opened by the server"])

p("C07", "A static request returns the right file, whole and correctly typed",
  "A GET for a static target returns the exact bytes of the file it names: '/' and '/index.html' name the configured index, '/favicon.ico' the configured icon, a target ending in '/' that folder's index.html, and a target without file gets the configured index, or 404 when that is missing too. The content type follows from the file name's extension, and the content is delivered byte for byte for any size and any byte values. A file that cannot be opened is never answered with 200. Static targets with another method get 400.",
  ["inputs", "configurations"], "all document trees, file sizes and contents including NUL bytes and empty files, all targets, extensions and methods",
  "Static serving and content types have no test.", ["ws.c", "http_utils.c"],
  [("target rewriting and fallback", "ws.c: handle_static_routes"), ("file transfer", "http_utils.c: direct_file, return_file, get_content_type")], [], ["response"])

p("C08", "The first registered route that matches, and only it, handles an API request",
  "An API request is dispatched to the earliest registered route whose method equals the request's method and whose path either equals the request path or, for a route with a parameter, is a proper prefix of it up to the parameter; the rest of the path is delivered as parameter=value, appended to the form data. Exactly one handler runs, once. If no route matches, no handler or filter runs and the client gets 400.",
  ["inputs", "configurations"], "all routing tables up to 128 routes in every registration order, all methods and paths, including paths that contain text of other routes",
  "Tests register one route at a time and request exactly that route.", ["router.c", "router.h"],
  [("linear search of the routing table", "router.c: router_handle_request, router_resolve_route, router_extract_param")],
  [("routing table", "registered routes in order", "router.c: routing_table")], ["handler invocations"])

p("C09", "A route's handler runs only after its own filter said yes",
  "When a route has a filter, the filter runs exactly once before the handler, sees the same request (including path parameter and form), and the handler runs if and only if the filter returned true. A refused request's handler never runs, under any mix of concurrent requests, routes and filters. The filter of one route is never applied to another.",
  ["inputs", "configurations", "schedules"], "all routing tables mixing filtered and unfiltered routes, all filter results, concurrent requests",
  "Three tests call one route with a constant filter; mixtures of routes and concurrent use are not tried.", ["router.c"],
  [("filter before handler", "router.c: router_handle_request")], [("filters", "filter per route", "router.c: routing_table")], ["order of filter and handler invocations"])

p("C10", "Handlers see the request exactly as the client sent it",
  "For every well-formed request within the documented sizes the handler sees the method, the path without /api, the query string (everything after the first '?'), each of the first 20 headers by name, the content type, and a body of exactly Content-Length bytes, as sent. The result does not depend on how the bytes are split into segments or how slowly they arrive, on optional white space after a header's colon, or on what followed the body.",
  ["inputs", "schedules"], "all methods, targets, header sets, bodies (any byte value) and all ways of cutting the byte stream into segments",
  "Only URL splitting is tested, on five strings; request reading and header parsing never run in a test.", ["ws.c", "http_utils.c", "string_utils.c"],
  [("line reader and header loop", "ws.c: get_line, accept_request, handle_api_request"), ("URL split", "http_utils.c: get_path_and_query_string")],
  [("request context", "what a handler gets", "http_utils.h: api_request")], ["api_request passed to handlers"])

p("C11", "An incomplete request is never acted on",
  "If the client closes or aborts the connection before the end of the header section, or before Content-Length bytes of body arrived, no handler and no filter runs for that request, no upload is stored and no body bytes are made up. The connection is closed and the server goes on serving others.",
  ["fault_sequences", "inputs"], "every request and every byte position at which the client stops, by half close or by abort",
  "No test reads from a socket, so no disconnect is ever seen.", ["ws.c", "http_utils.c"],
  [("end of stream while reading", "ws.c: get_line, accept_request, handle_api_request")], [], ["handler invocations", "stored uploads"])

p("C12", "Multipart uploads arrive whole, in order and separate from each other",
  "For a multipart/form-data request the handler's form lists the parts in order as name=value joined by '&', a file part as name=original-file-name followed by tmpfile=NAME, where NAME is a file in the upload folder holding exactly the bytes of that part. This holds for any number and order of parts, any content bytes including CR, LF, NUL and text that looks like part headers, and any boundary up to 70 characters. No part's name, value or file is influenced by another part.",
  ["inputs", "histories"], "all part sequences, names, file names, contents and boundaries, and all sequences of uploads",
  "One test parses a single hand-written part (and crashes on the pinned commit); part splitting is never run.", ["ws.c", "string_utils.c", "file_utils.c"],
  [("part splitter and part parser", "ws.c: multipart_parse, part_parse, save_tmp_file"), ("digest file name", "string_utils.c: md5sum"), ("file write", "file_utils.c: write_file")],
  [("upload folder", "stored uploads", "FILE_DOWNLOAD_TMP_DIR")], ["form seen by handler", "files in the upload folder"])

p("C13", "Every response is one well-formed HTTP message",
  "Whatever response helper is used and whatever the request was, the client receives exactly one response: one status line with the intended status, headers each on its own line, one empty line, then the body. When a Content-Length is present it equals the bytes that follow, and no client-supplied text can add or end headers. A status the server does not know sends nothing rather than a malformed message.",
  ["inputs", "histories"], "all response helpers, statuses, payloads and session values, for static, API and error replies",
  "Five helpers are compared with one fixed string each; file, stream, list and error replies and session headers are not.", ["http_utils.c", "ws.c"],
  [("response helpers", "http_utils.c: send_http_status, return_headers, return_json_with_status, return_json_stream, return_json_list")], [], ["bytes received by the client"])

p("C14", "The access log has exactly one accurate line per answered request",
  "Every request that is answered adds exactly one line to the access log, holding the client address (X-Real-IP when given), the request line, the status sent, the number of bytes sent, the Referer and the User-Agent; requests that are not answered add none. Lines of concurrent requests are never mixed, lost or split.",
  ["inputs", "schedules", "histories"], "all requests and replies, all interleavings of concurrent requests",
  "The tests run without permission to write the log, so its line is never produced.", ["wayuu_log.c", "http_utils.c", "ws.c"],
  [("one line written per reply", "wayuu_log.c: log_access")], [("access log", "one line per answered request", "/var/log/wayuu-access.log")], ["access log file"])

p("C15", "Concurrent requests never influence each other",
  "Under every interleaving of concurrent requests, each one's handler sees, and each client receives, exactly what it would if its request were the only one: no byte of path, query, headers, form, session, response or log of one request ever shows up in another.",
  ["schedules"], "all interleavings of any number of concurrent requests of all kinds",
  "All tests are single threaded; shared hidden state in helpers is invisible to them.", ["ws.c", "http_utils.c", "string_utils.c", "router.c", "log.c", "wayuu_log.c"],
  [("request state private to the worker; re-entrant helpers", "ws.c: accept_request; string_utils.c: split")], [], ["request context per handler", "bytes per client"])

p("C16", "No client input or disconnect stops the service",
  "Whatever bytes a client sends, whenever it stops or disconnects, and however often, the server process stays alive without corrupting its memory, the worker that served the connection becomes available again, later well-formed requests are answered as usual, and what the server holds (memory, descriptors) does not grow with the number of requests it has served.",
  ["inputs", "fault_sequences", "histories"], "all byte strings up to and beyond every internal size, all disconnect points including while the response is being sent, all sequences of such clients",
  "No test feeds raw client bytes to the server.", ["ws.c", "http_utils.c", "router.c", "string_utils.c"],
  [("bounded copies and checks while reading and answering", "ws.c: accept_request, multipart_parse, part_parse; router.c: router_handle_request")], [], ["process state", "a probe request after each hostile one"])

p("C17", "Configuration files survive a write and read round trip",
  "Writing configuration items and parsing the file gives back the same keys, values and lists of values, in order; parsing delivers every line whose key is known exactly once, splits multi-valued keys at commas (at most 20 values) with surrounding space removed, and skips unknown keys. A line without '=' makes parsing report failure, writing a file that cannot be written reports failure, the text made of items shows them all, and no content of the file, number of items or length of its path crashes the program.",
  ["inputs", "configurations"], "all items, files, key sets and list lengths around the bound of 20 values",
  "Seven fixed lines are parsed; files are never read or written.", ["conf_parser.c", "conf_parser.h"],
  [("line parser, serialiser", "conf_parser.c: parse, conf_parse_first_pass, conf_parse_multi, write_conf")], [], ["items passed to the handler", "written file"])

p("C18", "JSON builders emit exactly the given values as valid JSON",
  "For every list of integers, strings, booleans or entities, every key and value, and every error or call result (FAIL, OK, ERROR or WARNING with its texts and data), the JSON builders return a document that parses as JSON and holds exactly the given values in order.",
  ["inputs"], "all lists (empty, single, many, extreme integers, empty strings, strings with quotes, backslashes and control characters)",
  "Six short fixed arrays are compared.", ["json_utils.c", "string_utils.c", "http_utils.c"], [("builders", "json_utils.c; http_utils.c: wayuu_error_t_json_serializer")], [], ["returned strings"])

p("C19", "The limits file is read as documented",
  "Every line '/path, maximum, maximum per address, seconds' of the limits file becomes one rule, in file order, up to 64 rules; lines that do not begin with '/' or lack one of the first three fields are ignored without affecting other lines. A missing file means no rules.",
  ["configurations", "inputs"], "all limits files: any number of lines, comments, malformed and overlong lines, spacing, missing final newline",
  "No test reads a limits file.", ["ws.c"], [("line tokenizer", "ws.c: load_limits")], [("rules", "parsed limits", "ws.c: limits")], ["load_limits", "refusals under load"])

p("C20", "HTTPS mode serves the same answers, and only to completed handshakes",
  "With TLS enabled every request gets the same status, headers, body, handler context and log line as without TLS, and everything the server sends travels inside TLS records. A connection that does not complete a handshake has no request processed, is closed, and leaves the server serving others; TLS resources are released for each connection, and the client is told the end of the answer by a closing alert.",
  ["inputs", "configurations", "fault_sequences"], "all requests of the other properties over TLS; garbage, plaintext and truncated handshakes at any byte",
  "SSL_write is mocked away in the tests.", ["ws.c", "http_utils.c"], [("SSL_accept, SSL_read, SSL_write, SSL_shutdown", "ws.c: accept_request, connection_close; http_utils.c: http_print, http_read_char")], [], ["decrypted and raw bytes at the client"])

p("C21", "The stand-alone server honours its command line",
  "With -r ROOT everything the server uses (www, ssl, etc/allow, etc/deny, etc/limits) is taken from ROOT; -p and -b choose port and address, -f plain HTTP instead of HTTPS; -v and -h print and exit successfully; an unknown option, a missing root, a missing certificate or an address that cannot be bound makes it exit with an error instead of serving.",
  ["configurations"], "all combinations and orders of the options", "main.c is not part of the test binary.", ["main.c", "ws.c"],
  [("option parsing", "main.c: main")], [], ["behaviour of the started binary"])

p("C22", "A session identifier is the client's own and is echoed intact",
  "The session a handler sees is the value of the X-Session or Authorization header or, without these, of the WSSESSION cookie of the same request, up to 63 bytes, and empty when none is given; it is never taken from other headers, earlier header lines or other requests. Static replies echo a non-empty session once in X-Session and once in the WSSESSION cookie, unchanged, and send no such header otherwise.",
  ["inputs", "histories", "schedules"], "all combinations and orders of session headers and cookies, all values, all preceding headers and requests",
  "Session extraction runs in no test.", ["ws.c", "http_utils.c"], [("session extraction", "ws.c: accept_request"), ("session echo", "http_utils.c: return_headers")],
  [("session", "session id of the request", "api_request.session")], ["session seen by handler", "response headers"])

p("C23", "A failed accept does not stop the server",
  "When accepting a connection fails for a passing reason (client gone before it was accepted, interrupted call, descriptors or memory exhausted), the server goes on accepting later connections, and connections already accepted are unaffected.",
  ["fault_sequences"], "all sequences of accept failures between and during other connections", "No test runs the accept loop.", ["ws.c"],
  [("accept loop", "ws.c: ws_launch")], [], ["later connections are served"])

p("C24", "The program log has exactly the messages at or above its level",
  "A message is written to the log if and only if its level is at or above the configured level, as one line with UTC time stamp, level name, source position and the formatted text; a fatal message is written and then ends the process with a failure status, and no lower level ends it. A message is in the log when the call that wrote it returns, so that it is not lost when the process ends later; concurrent messages are not lost or mixed.",
  ["inputs", "schedules"], "all levels, messages and sequences of level changes", "Tests set one level and never look at the log.", ["log.c", "log.h"],
  [("level filter", "log.c: __logger, log_level_is_enabled")], [("level", "threshold", "log.c: LEVEL")], ["log file"])

p("C25", "File helpers read and write exactly the asked bytes",
  "After writing a file its content is exactly the given bytes, whatever was there before; reading with a maximum delivers the longest prefix that fits with its terminator and never more, and without maximum the whole content; a missing file reads as empty. Asking whether something is a file or folder, and creating a folder, answers by what is really there. Looking for a line in a file finds it exactly when the file has that line.",
  ["inputs", "histories"], "all contents, sizes around the maximum, and sequences of writes and reads of the same name", "Only folder creation is tested.", ["file_utils.c"],
  [("file helpers", "file_utils.c")], [], ["file content", "buffers"])

p("C26", "Text helpers do what they say for every string",
  "Splitting a text at a delimiter and joining the non-empty tokens gives the same tokens in order; splitting once separates at the first delimiter only; trimming removes exactly the leading and trailing white space; prefix tests ignore case and look at the prefix only; searching returns the position right after the first occurrence at or after the start, or -1. Removing characters, comparing, and the digest of a text are as for any other implementation of them. None of them depends on earlier calls or calls made by other threads.",
  ["inputs", "schedules"], "all strings, delimiters and positions, all interleavings of calls", "A dozen fixed strings.", ["string_utils.c"],
  [("helpers", "string_utils.c")], [], ["return values"])
p("C27", "Connections are dropped when, and only when, they outlive their rule's seconds",
  "A connection to a URL under a limits rule is dropped once it has been alive for longer than the rule's maximum of execution seconds. A connection that stays within its seconds, or to which no rule applies, is never dropped by the server before its answer is complete, however slowly its bytes arrive.",
  ["histories", "configurations"], "all rules with seconds, all slow clients and slow handlers, all orders in which they start and end", "No test keeps a connection open.", ["ws.c", "ws.h"],
  [("documented in the limits file format; rules are parsed but no code enforces them", "ws.c: load_limits")], [("seconds", "maximum life of a connection", "ws.c: limits")], ["time of close as seen by the client"])
out = "/verif/properties.jsonl"
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))

#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

H1 = "src/proto/h1/"
prop("C01", "HTTP/1 server hands the service exactly the requests on the wire",
 "For every byte stream holding valid HTTP/1.0 or HTTP/1.1 requests, the service is called once per request, in order, with exactly the method, target, version, header fields, body bytes and trailer fields that HTTP/1 framing assigns to that message. Where the stream is cut into reads, and when reads are not ready, never changes the result. No byte of one message is ever taken as part of another.",
 ["inputs", "schedules", "configurations"],
 "every well-formed request sequence (methods, targets, header sets, Content-Length and chunked bodies with extensions and trailers, pipelined or not), every segmentation and readiness pattern, every parser/buffer option",
 "Unit and integration tests feed a few fixed messages in one or two reads; a decoder error that shows only when a chunk-size line, a header or a trailer straddles a read boundary, or when a body crosses a buffer size, is out of their reach.",
 [H1+"role.rs", H1+"decode.rs", H1+"conn.rs", H1+"io.rs", H1+"dispatch.rs", "src/headers.rs", "src/body/incoming.rs"],
 [("request head parser", H1+"role.rs Server::parse"), ("body decoder state machine", H1+"decode.rs Decoder::decode"), ("read buffering and adaptive read size", H1+"io.rs Buffered::parse / poll_read_from_io"), ("body channel to the service", "src/body/incoming.rs Sender")],
 ["requests and body frames seen by the service", "bytes given to the transport mock"])
prop("C02", "Malformed or ambiguous HTTP/1 requests are refused, never reinterpreted",
 "A request whose head or framing is malformed, ambiguous or over a configured limit never reaches the service as a complete message: a bad head is answered with a single 4xx (400, 414 or 431), a bad body makes the service's body read fail. In both cases no later byte of that connection is ever served as a request and the connection ends. Valid requests in front of it are still served normally.",
 ["inputs", "schedules", "configurations"],
 "every single-point corruption of head, Content-Length, Transfer-Encoding, chunk framing and trailers, oversize heads/URIs/header counts/chunk extensions/trailer sections, at any position in a pipeline, under every segmentation",
 "Tests list a few bad heads in isolation; request smuggling needs combinations (which header, which position in the pipeline, which read boundary) that no list covers.",
 [H1+"role.rs", H1+"decode.rs", H1+"conn.rs", H1+"io.rs", H1+"dispatch.rs", "src/headers.rs"],
 [("framing header validation", H1+"role.rs Server::parse"), ("strict chunk decoding with size, extension and trailer limits", H1+"decode.rs ChunkedState"), ("automatic error response", H1+"conn.rs on_parse_error / "+H1+"role.rs Server::on_error")],
 ["requests and body results seen by the service", "bytes written by the server"])
prop("C03", "HTTP/1 server responses are framed so a strict client reads them exactly",
 "For every response a service may return and every way its body is produced, the bytes written are parsed by a strict HTTP/1 client as exactly that status, those header fields, that body and those permitted trailers, one response per request and in request order. This holds for HEAD, 1xx/204/304, CONNECT and HTTP/1.0 peers, and however the transport accepts writes (partial, vectored, not ready, flush delayed).",
 ["inputs", "schedules", "configurations"],
 "every combination of request method/version/pipelining, response status, header set, body length knowledge, frame sizes and trailer set, and every write-acceptance pattern and writer option",
 "Tests check a few responses over a socket that accepts every write; wrong chunk sizes after partial vectored writes or a framing choice for an unusual method/status/version combination are not reached.",
 [H1+"role.rs", H1+"encode.rs", H1+"conn.rs", H1+"io.rs", H1+"dispatch.rs"],
 [("response head and framing choice", H1+"role.rs Server::encode"), ("body encoder", H1+"encode.rs Encoder"), ("write buffer and vectored flush", H1+"io.rs WriteBuf / Buffered::poll_flush")],
 ["bytes written to the transport mock"])
prop("C04", "HTTP/1 connection reuse follows both peers' wishes and is signalled truthfully",
 "An HTTP/1 server connection stays open for another request exactly when the protocol version, both peers' Connection fields, the server's configuration and the framing of both messages allow it; otherwise it ends after the current response, is closed, and serves no further byte. When the server has decided at head time that it will end the connection, the response says so (or is HTTP/1.0 without keep-alive), and when it offers reuse it really serves the next request. A client connection likewise offers itself for another request only if the finished exchange allows reuse.",
 ["histories", "inputs", "configurations"],
 "every sequence of requests/responses with any combination of versions, Connection values and tokens, body consumption, framing and keep-alive configuration",
 "Tests cover a handful of header pairs; the decision depends on the combination of both messages, configuration and how much of the request body was read.",
 [H1+"conn.rs", H1+"role.rs", "src/headers.rs", H1+"dispatch.rs", "src/client/dispatch.rs"],
 [("keep-alive state", H1+"conn.rs State / KA"), ("Connection field parsing", "src/headers.rs connection_keep_alive/connection_close"), ("fixing the message version and Connection field", H1+"conn.rs enforce_version / fix_keep_alive")],
 ["service calls", "bytes written", "transport shutdown/close", "client readiness"])
prop("C05", "HTTP/1 client reads each response exactly and pairs it with its request",
 "For every valid response byte stream, the caller gets for each request exactly the status, version, header fields, body bytes and trailers that HTTP/1 framing (given the request method) assigns to the response to that request, regardless of how reads are split. Interim 1xx responses are never returned as the response. Bytes that arrive before a request was sent or after a response has ended are never delivered as part of a response to a later request. A head that is not an HTTP/1 response is refused, except that where the caller allows HTTP/0.9 responses it may be taken as one on a connection that has not carried a response yet.",
 ["inputs", "schedules", "configurations"],
 "every well-formed response sequence (Content-Length, chunked, close-delimited, bodiless by status or method, interim responses) for every request method, segmentation, readiness pattern and parser option",
 "Tests use fixed responses delivered whole; framing by method and status combined with segmentation and leftover bytes is a product space.",
 [H1+"role.rs", H1+"decode.rs", H1+"conn.rs", H1+"dispatch.rs", H1+"io.rs", "src/headers.rs"],
 [("response head parser and framing", H1+"role.rs Client::parse / Client::decoder"), ("unexpected-byte detection when idle", H1+"conn.rs require_empty_read / try_empty_read")],
 ["response futures and body frames", "bytes given to the transport mock"])
prop("C06", "HTTP/1 client requests are framed so a strict server reads them exactly",
 "For every request a caller may send and every way its body is produced, the bytes written are parsed by a strict HTTP/1 server as exactly that method, target, header fields, body and declared trailers, in sending order. A message never carries contradictory or missing framing for its body, whatever framing headers the caller set (as long as a caller-declared length is true). As documented, a body of unknown size is not sent with GET, HEAD or CONNECT or to an HTTP/1.0 peer unless the caller declares its framing.",
 ["inputs", "schedules", "configurations"],
 "every combination of method, version, caller framing headers, body length knowledge, frame sizes, trailers, write acceptance pattern and writer options, sent in sequence on one connection",
 "Tests assert a few literal requests; the framing decision has many interacting inputs and partial writes multiply them.",
 [H1+"role.rs", H1+"encode.rs", H1+"conn.rs", H1+"io.rs", H1+"dispatch.rs"],
 [("request head and framing choice", H1+"role.rs Client::encode / Client::set_length"), ("body encoder", H1+"encode.rs Encoder"), ("write buffer", H1+"io.rs WriteBuf")],
 ["bytes written to the transport mock"])
prop("C07", "A truncated or failed message is never presented as complete",
 "If a peer's message ends early (end of stream, transport error, reset, or failed framing before its declared end), the reader of that message gets an error and never a clean end of body, on both sides and both protocol versions. If the local body producer fails or is dropped midway, the peer never receives a complete message in its place. A local body that yields more than its declared length never puts more than that length on the wire as part of the message.",
 ["crash_points", "fault_sequences", "inputs"],
 "every cut point in every framed message in either direction (EOF, reset, error), every body producer failure point, HTTP/1 and HTTP/2, client and server",
 "Tests truncate a few messages at one hand-picked point; the property must hold at every byte and for every framing.",
 [H1+"decode.rs", H1+"conn.rs", H1+"dispatch.rs", "src/body/incoming.rs", H1+"encode.rs", "src/proto/h2/mod.rs"],
 [("EOF handling in decoders", H1+"decode.rs"), ("body sender drop/abort", "src/body/incoming.rs Sender / "+H1+"dispatch.rs"), ("stream reset on body error", "src/proto/h2/mod.rs PipeToSendStream")],
 ["body frame results", "bytes/frames written"])
prop("C08", "Every client request future resolves exactly once with a truthful outcome",
 "Whenever a request is submitted to a client connection, its future completes once: with the response to that very request or with an error, no matter how the connection, its task, the peer or other requests end. A request handed back to the caller for retry was never put on the wire, and a request never appears on the wire more than once.",
 ["schedules", "fault_sequences", "crash_points"],
 "every interleaving of submission, cancellation, connection-task drop or completion, peer close, error and graceful close, HTTP/1 and HTTP/2, at every I/O step",
 "Tests cover a few scripted disconnects; losing or hanging a request needs particular interleavings of queue, dispatcher and I/O.",
 ["src/client/dispatch.rs", H1+"dispatch.rs", "src/proto/h2/client.rs", "src/client/conn/http1.rs", "src/client/conn/http2.rs", H1+"conn.rs"],
 [("request envelope/callback with drop notification", "src/client/dispatch.rs Envelope / Callback"), ("dispatcher end handling", H1+"dispatch.rs Client"), ("send-when task", "src/client/dispatch.rs SendWhen")],
 ["request futures", "requests parsed from the wire"])
prop("C09", "A connection never stalls with work it could do, and never spins",
 "Whenever progress is possible (input available, output accepted, body frame or service future ready, timer expired), the connection's task has been woken and makes that progress, all written bytes are flushed to the transport without needing any further event, and when nothing is possible the task goes to sleep after finitely many polls.",
 ["schedules", "inputs", "configurations"],
 "every order in which transport readiness, body frames, service completion, pipelined input and flush completion become ready, HTTP/1 and HTTP/2, both roles",
 "Lost wakeups and stranded buffers depend on readiness order; tests run on a real reactor where extra wakeups mask them and a stall is only a timeout.",
 [H1+"dispatch.rs", H1+"conn.rs", H1+"io.rs", "src/body/incoming.rs", "src/common/watch.rs", "src/client/dispatch.rs", "src/proto/h2/mod.rs", "src/proto/h2/server.rs", "src/proto/h2/client.rs"],
 [("bounded poll loop that self-wakes", H1+"dispatch.rs poll_loop"), ("read/write coupling", H1+"conn.rs wants_read_again / maybe_notify"), ("want/give body demand signalling", "src/common/watch.rs")],
 ["wakeups and polls of every task", "bytes visible to the peer", "quiescence of the whole system"])
prop("C10", "HTTP/1 buffering is bounded: unread or undrained data exerts backpressure",
 "While a service or caller does not read a message body, the connection stops reading from the transport after a bounded amount; while the transport does not accept writes, it stops pulling from the outgoing body after a bounded amount; and an incomplete message head or trailer section that outgrows the configured limit is refused after at most about one more read. Once consumption resumes, reading resumes and nothing is lost.",
 ["schedules", "inputs", "configurations"],
 "every consumption/stall pattern for bodies of any size, any segment size, every configured buffer limit, both roles",
 "Tests never send more than the buffer to a stalled consumer with all segment sizes; the bound must hold for all sizes and patterns.",
 [H1+"io.rs", H1+"conn.rs", H1+"dispatch.rs", "src/body/incoming.rs"],
 [("max buffer size and adaptive read strategy", H1+"io.rs"), ("body demand (want)", "src/body/incoming.rs"), ("write buffer limits", H1+"io.rs WriteBuf::can_buffer")],
 ["bytes pulled from the transport vs bytes delivered", "frames pulled from the outgoing body vs bytes accepted"])
prop("C11", "HTTP/1 graceful shutdown finishes what was started and takes nothing new",
 "After graceful shutdown is requested on a server connection at any moment, a request whose head has been received still gets its complete response, marked as the last one when its head was not yet written, and the connection then closes without error. An idle connection closes promptly without waiting for input. No request that had not been started when shutdown was requested is served afterwards, apart from a first request on a fresh connection that was already arriving.",
 ["schedules", "crash_points"],
 "shutdown requested at every step of an exchange, for every request/response shape, pipelining depth and segmentation",
 "Tests request shutdown at two or three moments; it must be right at every one.",
 [H1+"conn.rs", H1+"dispatch.rs", "src/server/conn/http1.rs"],
 [("disable keep-alive", H1+"conn.rs disable_keep_alive"), ("connection close after last response", H1+"dispatch.rs")],
 ["service calls", "bytes written", "connection future result"])
prop("C12", "HTTP/1 header read timeout fires exactly for slow heads",
 "With a header read timeout configured, a server connection on which a complete request head does not arrive within that time, whether it sent nothing or drips bytes, ends with a timeout; a head that completes in time is never affected. Time spent in the service, reading the body or writing the response never counts against it, and the limit applies afresh to each request on the connection.",
 ["schedules", "inputs", "configurations"],
 "every arrival schedule of head bytes relative to the deadline in virtual time, every number of requests, with any service/body delay, and with the timeout unset",
 "Tests sleep in real time around one or two schedules; the timer state machine across requests has many more.",
 [H1+"conn.rs", "src/server/conn/http1.rs", "src/common/time.rs"],
 [("header timer arming/clearing", H1+"conn.rs poll_read_head")],
 ["connection result and virtual time", "service calls"])
prop("C13", "100 Continue is sent exactly when the service asks for the body",
 "For an HTTP/1.1 request that expects 100-continue and has a body, the server writes one `100 Continue` when and only when the service first polls the body before the final response has begun; it never writes it for other requests, never twice, and never after the final response's head. If the service answers without reading the body the connection is not reused as if the body had been read.",
 ["schedules", "inputs", "histories"],
 "every request shape and service behaviour (poll before, during, after, never), pipelining and write readiness",
 "Tests cover the plain case and one ignoring case.",
 [H1+"conn.rs", H1+"dispatch.rs", H1+"role.rs"],
 [("continue state on the reader", H1+"conn.rs Reading::Continue")],
 ["bytes written vs body polls"])
prop("C14", "An HTTP/1 upgrade or CONNECT hands over every following byte, once and in order",
 "After a successful upgrade (101 or 2xx to CONNECT), on either side, and after taking a connection apart by hand, reading from the handed-over transport yields exactly the bytes the peer sent after the end of the HTTP message, in order, none lost or repeated, and bytes written go out after the HTTP message unchanged. If no upgrade happens the waiting future fails instead of hanging.",
 ["schedules", "inputs", "crash_points"],
 "every split of the byte stream around the switch, every read size afterwards, every role and API (upgrade future, manual parts), with the switch refused or the connection lost at any point",
 "Tests send the post-switch bytes separately or glued once; loss or duplication depends on where the read boundary falls.",
 [H1+"conn.rs", H1+"dispatch.rs", "src/upgrade.rs", "src/common/io/rewind.rs", "src/server/conn/http1.rs", "src/client/conn/http1.rs"],
 [("leftover read buffer handed over", "src/common/io/rewind.rs Rewind"), ("pending upgrade slot", "src/upgrade.rs Pending/OnUpgrade")],
 ["bytes read from and written to the upgraded transport"])
prop("C15", "HTTP/2 exchanges arrive complete and unmixed under any interleaving",
 "Over HTTP/2, every request reaches the service once and its response reaches its own caller with exactly the method, target, header fields, status, body bytes and trailers that were sent, however many streams are interleaved, however bodies are chunked, paced and flow-controlled, and however the transport splits and delays bytes.",
 ["schedules", "inputs", "configurations"],
 "every set of concurrent exchanges, frame and window size, body pacing, transport segmentation and concurrency limit, hyper on either or both ends",
 "Tests run few streams with small bodies over a friendly transport.",
 ["src/proto/h2/mod.rs", "src/proto/h2/client.rs", "src/proto/h2/server.rs", "src/body/incoming.rs", "src/common/io/compat.rs"],
 [("body pipe with capacity management", "src/proto/h2/mod.rs PipeToSendStream"), ("stream task", "src/proto/h2/server.rs H2Stream"), ("client dispatch", "src/proto/h2/client.rs ClientTask")],
 ["requests/responses at both ends"])
prop("C16", "HTTP/2 cancellation and errors stay inside their stream and reach the peer",
 "Dropping a response future, dropping a response body (once its request has been sent), an error in a request or response body, a service error, or a reset from the peer ends that one stream: the other side is told with a reset (cancel, or the error's own code), the local producer is dropped, and every other stream of the connection completes exactly as if it had not happened. A request that is invalid on its own likewise only fails its own stream.",
 ["schedules", "fault_sequences", "histories"],
 "every point of a stream's life at which either side cancels, errors or resets, with other streams active, at any window state",
 "Tests cancel one stream at one point, alone on its connection.",
 ["src/proto/h2/mod.rs", "src/proto/h2/client.rs", "src/proto/h2/server.rs", "src/client/dispatch.rs", "src/error.rs"],
 [("reset on body error or cancellation", "src/proto/h2/mod.rs, src/proto/h2/client.rs PipeMap"), ("reset polling while waiting", "src/proto/h2/server.rs H2Stream"), ("cancel of a waiting response", "src/client/dispatch.rs SendWhen")],
 ["per-stream outcomes at both ends", "reset codes seen by a raw HTTP/2 peer"])
prop("C17", "HTTP/2 flow control: windows are respected, replenished and never leaked",
 "Never more data is sent than the peer's stream and connection windows allow, nor more than a bounded amount pulled from a body the peer is not reading; received data is credited back only when it was consumed or discarded, so an unread stream cannot receive more than its window, and after any history of completed, dropped or reset streams the connection can still transfer a full window.",
 ["histories", "schedules", "configurations"],
 "every history of streams read, partly read, dropped, reset or upgraded, with any window sizes, body sizes and pacing",
 "Leaks show only after many partly read streams; tests transfer little and never account for windows.",
 ["src/proto/h2/mod.rs", "src/body/incoming.rs", "src/proto/h2/upgrade.rs", "src/proto/h2/ping.rs"],
 [("capacity release on read", "src/body/incoming.rs poll_frame (H2)"), ("reserve before send", "src/proto/h2/mod.rs PipeToSendStream"), ("adaptive window", "src/proto/h2/ping.rs")],
 ["DATA and WINDOW_UPDATE frames on the wire", "frames pulled from bodies"])
prop("C18", "HTTP/2 graceful shutdown completes accepted streams and refuses new ones",
 "After graceful shutdown is requested on an HTTP/2 server connection at any moment (even during the handshake), it announces it to the peer, every stream already accepted runs to its normal end, no stream opened after the final announcement is served, and the connection then ends without error. A client whose last sender is dropped, or whose peer announces going away, likewise finishes the streams already accepted and then ends.",
 ["schedules", "crash_points"],
 "shutdown requested at every step relative to stream creation, body transfer and handshake",
 "Tests request it at one or two moments.",
 ["src/proto/h2/server.rs", "src/proto/h2/client.rs", "src/server/conn/http2.rs"],
 [("graceful shutdown state", "src/proto/h2/server.rs graceful_shutdown/close_pending"), ("connection drop detection", "src/proto/h2/client.rs ConnTask / conn_eof")],
 ["frames seen by the peer", "stream outcomes", "connection future result"])
prop("C19", "HTTP/2 keep-alive closes dead connections and only those",
 "With keep-alive configured, a connection whose peer stops responding is closed, with a timeout error for the connection and every waiting request, no later than the interval plus the timeout after the last headers, body data or ping reply taken in from it (or after a stream was opened, where pings need an open stream), even if the peer does not read; pings are sent only after an interval without any of those, and on a client only while a stream is open unless idle pinging is on. A peer that answers every ping within the timeout is never timed out, and without keep-alive configured no keep-alive ping is sent.",
 ["schedules", "configurations"],
 "every timing of frames and ping acknowledgements in virtual time, any interval/timeout, idle or active, client and server",
 "Tests sleep in real time for one or two timings.",
 ["src/proto/h2/ping.rs", "src/proto/h2/client.rs", "src/proto/h2/server.rs", "src/common/time.rs"],
 [("keep-alive state machine", "src/proto/h2/ping.rs KeepAlive/Ponger")],
 ["PING frames on the wire with virtual timestamps", "connection and request results"])
prop("C20", "HTTP/2 messages never carry connection-specific header fields",
 "Whatever header fields the application set, a message sent over HTTP/2 carries no Connection, Keep-Alive, Proxy-Connection, Transfer-Encoding or Upgrade field, no field named by a Connection field, and no TE field other than `trailers` on requests; all other fields are sent unchanged and in value order. A known body length is announced truthfully, and a length set by the application is not changed.",
 ["inputs"],
 "every set of application header fields including repeated Connection fields and token lists, on requests and responses",
 "Tests try a few single-valued headers.",
 ["src/proto/h2/mod.rs", "src/proto/h2/client.rs", "src/proto/h2/server.rs", "src/headers.rs"],
 [("stripping", "src/proto/h2/mod.rs strip_connection_headers"), ("content-length", "src/headers.rs set_content_length_if_missing")],
 ["headers seen by a raw HTTP/2 peer"])
prop("C21", "HTTP/2 CONNECT tunnels carry bytes exactly, in order, with half-close",
 "Once a CONNECT (or extended CONNECT) request is answered with success, bytes written at one end are read at the other exactly once and in order in both directions, under any flow-control and scheduling; shutting down one direction is seen as end of stream by the reader after all data, leaves the other direction usable, and a reset other than a cancellation or one without an error is seen as an error rather than as the end of the data.",
 ["schedules", "fault_sequences", "inputs"],
 "every pattern of writes, reads, shutdowns, drops and resets, with any window sizes and transport pacing",
 "Tests exchange one message each way.",
 ["src/proto/h2/upgrade.rs", "src/proto/h2/server.rs", "src/proto/h2/client.rs", "src/upgrade.rs", "src/ext/mod.rs"],
 [("send task and channel", "src/proto/h2/upgrade.rs UpgradedSendStreamTask"), ("reader with leftover buffer", "src/proto/h2/upgrade.rs H2Upgraded")],
 ["bytes at both ends of the tunnel"])
prop("C22", "No input from a peer can panic or abort the process",
 "Whatever bytes a peer sends, in whatever pieces, and whenever it stops or errors, client and server connections (HTTP/1 and HTTP/2, any configuration) return normally: no panic, abort, arithmetic overflow or unbounded work per input byte. The outcome of processing a byte stream does not depend on how it was split into reads.",
 ["inputs", "schedules", "fault_sequences"],
 "every byte stream (random, mutated valid, grammar-generated hostile), every segmentation, every configuration, both roles and protocols",
 "Tests feed well-known inputs; hostile input space is unbounded.",
 [H1+"role.rs", H1+"decode.rs", H1+"conn.rs", H1+"dispatch.rs", "src/proto/h2/server.rs", "src/proto/h2/client.rs", "src/headers.rs", "src/body/length.rs"],
 [("checked arithmetic and limits in parsers", H1+"decode.rs, src/body/length.rs"), ("error paths", H1+"conn.rs")],
 ["panics caught around every poll", "poll counts", "outcome equality across segmentations"])
prop("C23", "Safe APIs never cause undefined behaviour or expose uninitialised memory",
 "Using only safe functions (and unsafe ones as documented), no execution performs an invalid memory access, reads uninitialised memory, or breaks aliasing rules: in the I/O buffer and cursor, head parsing, body and upgrade handling, and header-case support. Bytes visible to callers are always bytes that were written.",
 ["inputs", "schedules", "programs"],
 "every sequence of buffer operations within the API contract, and HTTP/1 and HTTP/2 exchanges over transports with any read/write pattern",
 "Ordinary test builds do not detect undefined behaviour.",
 ["src/rt/io.rs", H1+"role.rs", H1+"io.rs", "src/common/io/compat.rs", "src/upgrade.rs", "src/common/buf.rs", "src/ext/h1_reason_phrase.rs"],
 [("buffer cursor invariants filled<=init<=capacity", "src/rt/io.rs"), ("uninitialised header slots", H1+"role.rs"), ("checked downcast", "src/upgrade.rs")],
 ["Miri and AddressSanitizer reports", "model of the buffer contents"])
prop("C24", "Sharing connections, bodies and senders across threads is race-free and live",
 "When a connection, its request senders, bodies, upgrades and spawned tasks run on different threads at once, there is no data race, no lost wakeup or deadlock, and every exchange still completes with the right content or a definite error.",
 ["schedules", "programs"],
 "every parallel interleaving of connection task, senders, body readers/writers, cancellations and shutdowns",
 "Tests run mostly on one thread and cannot see races that did not corrupt the outcome.",
 ["src/body/incoming.rs", "src/common/watch.rs", "src/client/dispatch.rs", "src/proto/h2/upgrade.rs", "src/proto/h2/ping.rs", "src/upgrade.rs"],
 [("channels, want/give and watch cells", "src/common/watch.rs, src/body/incoming.rs, src/client/dispatch.rs"), ("close notification for tunnels", "src/proto/h2/upgrade.rs UpgradedCloseNotify")],
 ["ThreadSanitizer and Miri data-race reports", "exchange outcomes under parallel stress"])
prop("C25", "The C API is memory-safe, loses no task and reports exact data",
 "A C program that follows the documented ownership rules never triggers a memory error or leak through the C API; every pushed task is returned exactly once with a value of its announced type; header iteration visits exactly the fields that are set, with their names' original case and order where requested; body data and callbacks carry exact bytes; and wakers delivered late, twice or from callbacks never lose a task.",
 ["programs", "schedules", "inputs"],
 "every ownership-correct sequence of C API calls with any I/O and body readiness pattern, errors and early frees",
 "The C examples are only compiled; the two unit tests touch header iteration only.",
 ["src/ffi/task.rs", "src/ffi/body.rs", "src/ffi/client.rs", "src/ffi/http_types.rs", "src/ffi/io.rs", "src/ext/mod.rs", "capi/include/hyper.h"],
 [("executor queue and wake flag", "src/ffi/task.rs hyper_executor"), ("header case and order maps", "src/ext/mod.rs"), ("task value type tags", "src/ffi/task.rs")],
 ["AddressSanitizer/LeakSanitizer and Miri reports", "task results and header/body contents against a model"])
prop("C26", "Received bodies report their remaining size and end truthfully",
 "At every moment while a received body is read, its reported exact size (if any) equals the number of data bytes still to come, its lower and upper bounds hold, and it reports being at its end only if no further frame will come. Data frames come before trailers, at most one trailers frame is produced, and after the end or an error no further frame is produced.",
 ["inputs", "schedules", "histories"],
 "every framing, chunking and read pattern, HTTP/1 and HTTP/2, both roles, including bodies that end in error",
 "Tests check hints for two or three bodies before reading.",
 ["src/body/incoming.rs", "src/body/length.rs", "src/proto/h2/mod.rs", H1+"dispatch.rs"],
 [("remaining length bookkeeping", "src/body/incoming.rs, src/body/length.rs")],
 ["size_hint/is_end_stream at each frame vs ground truth"])
prop("C27", "Date is present exactly once, correct, and yields to the application",
 "With automatic dates on, every final response of a server, on HTTP/1 and HTTP/2, carries exactly one Date field: the application's own if it set one, otherwise a well-formed HTTP date within a second or so of the true current time, on every thread and for arbitrarily long-lived connections. With automatic dates off the server adds none.",
 ["histories", "schedules", "configurations"],
 "every sequence of responses over time, thread and protocol, with and without application dates",
 "Tests check presence, not freshness over time or across responses.",
 ["src/common/date.rs", H1+"role.rs", H1+"dispatch.rs", "src/proto/h2/server.rs"],
 [("thread-local cached date with second-boundary refresh", "src/common/date.rs CachedDate"), ("insertion in head encoding", H1+"role.rs Server::encode_headers")],
 ["Date fields in responses vs the clock"])
prop("C28", "Header names, values, order and reason phrases are forwarded as configured",
 "Header values are delivered and sent byte for byte, and repeated fields keep their relative order. With case preservation on, received names are re-sent in their original spelling per occurrence; with title-casing on, names without an original spelling are sent in title case; otherwise lower case. A non-standard reason phrase is delivered to and taken from the application exactly, and never allows line injection.",
 ["inputs", "configurations"],
 "every header multiset with mixed case and repeats, every combination of the options, requests and responses, proxied through both roles",
 "Tests check a couple of names per option.",
 [H1+"role.rs", "src/ext/mod.rs", "src/ext/h1_reason_phrase.rs"],
 [("original-case map", "src/ext/mod.rs HeaderCaseMap"), ("header writers", H1+"role.rs write_headers / title_case / write_headers_original_case"), ("reason phrase extension", "src/ext/h1_reason_phrase.rs")],
 ["bytes written vs fields set/received"])
prop("C29", "Transport errors and early peer closes surface as errors where they matter",
 "If the transport fails (error, zero-length write, failed flush or shutdown) while an exchange is in progress or output is unwritten, the failure is reported by the connection's future or by the request or body it struck; every affected request and body ends, no affected exchange is presented as a success, and the connection's future completes. A clean close by the peer between exchanges ends the connection without error. Once a write has failed or the transport was shut down nothing more is written; once the connection's future has completed the transport has been shut down or has failed and is released, and everything accepted for writing before an orderly end was written.",
 ["fault_sequences", "crash_points"],
 "an error, zero-length write or end of stream injected at every I/O operation of every exchange, both roles",
 "Tests inject a few faults; the outcome depends on the exact operation that fails.",
 [H1+"conn.rs", H1+"dispatch.rs", H1+"io.rs", "src/error.rs"],
 [("error propagation", H1+"dispatch.rs poll_catch"), ("EOF classification", H1+"conn.rs should_error_on_parse_eof / mid_message_detect_eof"), ("shutdown", H1+"conn.rs poll_shutdown")],
 ["connection future result", "I/O calls after completion", "bytes accepted"])
prop("C30", "Interim responses reach the callback, each once, and never the caller",
 "Every interim (1xx, except 101) response that arrives on an HTTP/1 client connection before the final response of a request is given once, in order, with its status and headers, to the callback that request registered, and is otherwise skipped; it never changes how the request body is sent, how the final response is framed, or reaches another request's callback.",
 ["inputs", "schedules", "histories"],
 "every number and kind of interim responses before each final response over a connection's life, any segmentation, with and without callbacks",
 "Tests use one interim response.",
 [H1+"role.rs", H1+"conn.rs", "src/ext/informational.rs"],
 [("skip loop and callback", H1+"role.rs Client::parse"), ("per-request callback slot", H1+"conn.rs State::on_informational")],
 ["callback invocations vs responses on the wire"])
prop("C31", "Errors say what happened and carry the original cause",
 "What a hyper::Error answers about itself is what happened. A malformed, oversize or HTTP/2-preface head is is_parse (with is_parse_too_large, is_parse_status or is_parse_version_h2 exactly when that was the reason); an HTTP/1 message whose head or body was cut short by the end of the connection is is_incomplete_message; an expired header read timeout or HTTP/2 keep-alive is is_timeout; a failing service or an HTTP/1 body of the application is is_user with the application's own error as source, one that ends short of its declared length is also is_body_write_aborted; a refused upgrade or a request that was never sent is is_canceled, a sender used after the end is_closed, a failed transport shutdown is_shutdown. A transport error is found in the source chain with its kind and what the transport put in it, an HTTP/2 reset, GOAWAY or connection error with the reason code on the wire. No other predicate is true, and no error answers to two of the contradictory ones.",
 ["inputs", "fault_sequences", "schedules"],
 "every kind of failure on every role, under every configuration, segmentation and position in an exchange",
 "Tests look at one predicate in the one situation they set up, and mostly compare texts.",
 ["src/error.rs", H1+"conn.rs", H1+"dispatch.rs", H1+"role.rs", H1+"io.rs", "src/proto/h2/client.rs", "src/proto/h2/server.rs", "src/client/dispatch.rs", "src/upgrade.rs"],
 [("kinds and predicates", "src/error.rs Kind / is_*"), ("source chain", "src/error.rs with / find_source / new_h2"), ("who gets the error", H1+"dispatch.rs recv_msg / poll_catch"), ("timeouts", "src/proto/h2/ping.rs KeepAliveTimedOut")],
 ["predicates, source chain and HTTP/2 reason of every error handed to the application"])
prop("C32", "Configured limits and settings are announced and enforced as configured",
 "Every limit and setting of a connection Builder takes effect with exactly the configured (or documented default) value. HTTP/2 SETTINGS and the connection window announce it, with server push off; streams past the concurrency limit are refused without reaching the service while those within it are served; a client opens no more streams than initial_max_send_streams before it knows the peer's settings and no more than the peer's limit afterwards, and as many as that allows; frames and header lists are accepted within the limit and refused past it. HTTP/1 heads with up to max_headers fields, shorter than max_buf_size, with targets of up to 65,534 bytes are accepted; more fields or longer targets are refused (431, 414, too-large error) without reaching the service or caller, as are heads well past max_buf_size; an exact read buffer is used as sized; and vectored writes are used or avoided as writev and the transport say.",
 ["configurations", "inputs", "schedules"],
 "every combination of builder options, and peers that go exactly to each limit or one past it, under any segmentation",
 "Tests set one option at a time, rarely at its boundary, and hardly ever look at what is announced.",
 ["src/server/conn/http1.rs", "src/server/conn/http2.rs", "src/client/conn/http1.rs", "src/client/conn/http2.rs", "src/proto/h2/server.rs", "src/proto/h2/client.rs", H1+"io.rs", H1+"role.rs"],
 [("HTTP/2 settings", "src/proto/h2/server.rs Config / client.rs new_builder"), ("header count and target length", H1+"role.rs Server::parse / Client::parse"), ("read buffer", H1+"io.rs ReadStrategy"), ("write strategy", H1+"io.rs WriteStrategy")],
 ["SETTINGS and WINDOW_UPDATE frames", "service calls and answers around each limit", "transport operations"])

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")

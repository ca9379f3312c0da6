X = "exploration"
T["C03"] = ("runtime monitoring: strict reference client parses the recorded server output and compares it with the scripted responses", X, SIM + "random responses/bodies x request kinds x transport behaviour; trusts the reference parser")
T["C05"] = ("runtime monitoring: caller-side event log compared with the generated response stream", X, SIM + "random valid response streams with interim and stray bytes; trusts the generator")
T["C30"] = ("runtime monitoring: callback events compared with interim responses on the wire", X, SIM + "0-4 interim responses per request at random moments of request sending; trusts the generator")
T["C02"] = ("runtime monitoring: service-call log and parsed output judged against the generated malformation", X, SIM + "34 families of malformed, ambiguous and over-limit requests x valid prefixes x segmentation")
T["C04"] = ("runtime monitoring: reuse decisions and Connection signalling compared with an independent keep-alive oracle", X, SIM + "random versions, Connection fields, framings on both roles")
T["C06"] = ("runtime monitoring: strict reference server parses the recorded client output and compares it with the submitted requests", X, SIM + "random requests/bodies/caller framing fields x versions x transport behaviour; trusts the reference parser")
T["C07"] = ("runtime monitoring: every observer's end state judged against the byte position of an injected cut or transport fault", "fault_enumeration", SIM + "streams cut/faulted at random byte offsets (EOF, error, reset, zero write) on both roles; trusts the reference parser for where messages end")
T["C08"] = ("runtime monitoring: caller-side fate log compared with the bytes on the wire", X, SIM + "callers, senders and the connection dropped or killed after random numbers of polls; trusts the request ids carried on the wire")
T["C09"] = ("runtime monitoring: virtual-time stamps of every reaction compared with the time of its cause, spin detection by poll counts", X, SIM + "virtual time advances only when nothing can run, so a late reaction is a missed wakeup; random schedules of isolated events, and client against server to rest")
T["C10"] = ("runtime monitoring: bytes taken from and given to the transport and body frames pulled, bounded by the configured limits", X, SIM + "producers and consumers that stop at random points and resume; bound is the limit plus one read/frame")
T["C11"] = ("runtime monitoring: service calls, parsed output and connection result judged against the moment graceful shutdown was asked for", "fault_enumeration", SIM + "each workload is run once to count its steps, then again with the shutdown at a uniformly drawn step")
T["C12"] = ("runtime monitoring: connection result and virtual time compared with a model of when each head was due", X, SIM + "virtual time; head pieces, bodies, services and peer reads delayed around the timeout; no ties")
T["C13"] = ("runtime monitoring: interim responses on the wire compared with the virtual times of the first body poll and the response", X, SIM + "clients that send the body at once, late, on 100 or never x services that poll before, during, after or never")
T["C14"] = ("runtime monitoring: bytes read from and written to the handed-over transport compared with the peer's record", X, SIM + "upgrade/CONNECT/manual hand-over, accepted, refused, cut, killed; both roles")
T["C15"] = ("runtime monitoring: what the service and each caller observed compared with what was submitted, per stream id; flow-control audit of the recorded frames", X, SIM + "hyper HTTP/2 client against hyper HTTP/2 server, 1-30 concurrent streams, random windows, frame sizes, bodies and transport behaviour; trusts the h2 crate")
T["C20"] = ("runtime monitoring: header blocks received by an independent HTTP/2 endpoint compared with what the application set", X, SIM + "random application header sets with connection-specific fields, both roles; trusts the h2 crate's HPACK")
T["C16"] = ("runtime monitoring: frames seen by a raw peer, service log and caller log of disturbed and undisturbed streams judged at rest", X, SIM + "streams failed in 8 ways per role at random moments next to undisturbed ones; raw frame-level peers and hyper against hyper")
T["C17"] = ("runtime monitoring: window accounting by a frame-level peer (credits against bytes taken, probes of the restored connection window), frames audited on the wire, bytes pulled from bodies", X, SIM + "streams read, partly read, dropped, reset, failed, held, tunnelled on both roles; bodies against dripped, withheld, exhausted-only credit and blocked transports")
T["C18"] = ("runtime monitoring: service log, caller log and frames judged against the step at which the shutdown was asked for", "fault_enumeration", SIM + "each workload is run once to count its steps, then again with graceful_shutdown, the drop of the last sender or the peer's GOAWAY at a uniformly drawn step; raw frame-level peers and hyper against hyper")
T["C19"] = ("runtime monitoring: PING frames, the end of the connection and the callers' errors compared to the nanosecond with a model of when each is due", X, SIM + "virtual time; both roles against a frame-level peer that answers pings late, falls silent or stops reading; exact unless adaptive windows or uncounted frames are on, then bounds")
T["C21"] = ("runtime monitoring: bytes read at each end of every tunnel compared with the bytes written at the other, end of stream and errors judged against what the other end did", X, SIM + "tunnels with random half-closes, drops and reads next to ordinary exchanges, hyper against hyper and either role against a frame-level peer that resets, cuts, goes away or withholds credit")
T["C26"] = ("runtime monitoring: size hints and end flags sampled before, during and after every poll of a received body, compared with what the peer sent and with what was read", X, SIM + "one body per case, HTTP/1 and HTTP/2, both roles, all framings, cut or reset in some, read wholly or in part")
T["C22"] = ("runtime monitoring: fuzzed byte streams with panic, abort, overflow and work-per-byte monitors; outcomes of the same bytes in different segmentations compared with each other", X, SIM + "mutated valid HTTP/1 streams, random words and HTTP/2 frame soup on both roles; release build with debug assertions and overflow checks, supervised child process")
T["C27"] = ("runtime monitoring: every Date field received compared with an interposed wall clock at the time of the response", X, SIM + "1-12 exchanges per connection, HTTP/1 and HTTP/2, over sub-seconds to years, the wall clock stepped and the tasks moved between threads")
T["C28"] = ("runtime monitoring: bytes received at both ends of a proxy compared with what was sent, under each option's model", X, SIM + "random header multisets with mixed case and repeats, reason phrases, every combination of the case options, through a proxy of both roles")
T["C29"] = ("runtime monitoring: connection results, callers' and bodies' fates and transport operations judged against what was in progress when an injected transport fault was delivered", "fault_enumeration", SIM + "each workload is run once undisturbed (judged for an orderly end) to count its operations, then again with one fault at a uniformly drawn one; HTTP/1 server, HTTP/1 client, HTTP/2 pair")
T["C31"] = ("runtime monitoring: every predicate, the source chain and the HTTP/2 reason of each error handed to the application, compared with the failure that was injected", X, SIM + "43 kinds of failure over HTTP/1 and HTTP/2, both roles; HTTP/2 keeps the kind and text of a transport error, not its type; a body that reports its end early with is_end_stream is not judged for is_body_write_aborted")
T["C32"] = ("runtime monitoring: announced SETTINGS and windows, and the fate of messages exactly at and past each configured limit, judged against the configuration", X, SIM + "17 kinds of limits over HTTP/1 and HTTP/2, both roles; the upper side of the head size limit is judged at eight times the limit; header lists of exactly the limit are left to the h2 crate")
T["C25"] = ("runtime monitoring: AddressSanitizer, allocation counting and a model of every object's content under random ownership-correct programs over the C API", X, "hyper's extern C functions called from Rust, built with AddressSanitizer; HTTP/1 and HTTP/2 peers written for the purpose; allocations made inside hyper counted to zero per program (LeakSanitizer needs ptrace, which the sandbox denies)")

T["C23"] = ("sanitizers: AddressSanitizer, MemorySanitizer and Miri over the other checks' workloads, small exchanges of their own, and programs over ReadBuf/ReadBufCursor judged against a model of each byte", X, "the real code built three times; ASan and MSan (std instrumented too) run the simulated exchanges of the other checks, Miri exchanges of some hundred bytes, the buffer programs, downcasts and two-thread duels; aliasing rules are seen by Miri only")
T["C24"] = ("runtime monitoring under parallel stress: ThreadSanitizer, Miri's race detector, exact rest detection of a worker pool (lost wakeups, deadlocks), content and outcome of every exchange, and two-thread duels over pairs of operations", X, "2-5 real threads per exchange with dawdling wakers, bodies and transports; schedules are those the cores, the delays and Miri's scheduler produce, not all")

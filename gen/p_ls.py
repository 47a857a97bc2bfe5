SL = "crates/sync-lsp/src/"
prop("L01", "Every request a client sends is answered",
     """Every request the server receives while it runs (a language-server or a debug-adapter request, in any
     lifecycle state, with known or unknown method, well-formed or malformed parameters, answered at once or later)
     is answered with a response carrying the request's own id, once its handler's result is available.
     If a handler fails or rejects the request, the response carries that error's code and message.""",
     ["inputs", "schedules", "histories"],
     "all sequences of client messages, all handler outcomes (immediate, deferred, failed, pre-answered), both protocols, every server state",
     "The stable tests only (de)serialize a few messages; no test drives the dispatch loop, and a lost answer depends on the state x message x handler outcome combination.",
     [SL + "server.rs", SL + "server/lsp_srv.rs", SL + "server/dap_srv.rs", SL + "req_queue.rs"],
     [("dispatch loops", SL + "server/lsp_srv.rs, " + SL + "server/dap_srv.rs"), ("schedule / respond operations", SL + "server.rs"), ("pending table", SL + "req_queue.rs")],
     ["messages handed to the connection's sender"])
prop("L02", "No request is answered twice",
     """The server sends at most one response for each request it received, also when the request is cancelled, is
     answered by its handler, or is completed later by a background task.
     A response is sent only for a request that is still pending, and a cancelled pending request is answered with the
     request-cancelled error (-32800) and the cancelled request's id.""",
     ["inputs", "schedules", "histories"],
     "all interleavings of handler answers, deferred answers and cancellations",
     "Double answers need two answer sites to race or follow each other; no test sends a request through the server.",
     [SL + "server.rs", SL + "req_queue.rs", SL + "server/lsp_srv.rs"],
     [("complete-then-send in one critical section", SL + "server.rs respond_any/respond_cancelled"), ("pending table", SL + "req_queue.rs")],
     ["messages handed to the connection's sender"])
prop("L03", "Language-server lifecycle: initialize, serve, shutdown, exit",
     """A request before initialization is refused with 'server not initialized' (-32002), a second initialize and any
     request after shutdown with 'invalid request' (-32600), an unknown method with 'method not found' (-32601), and none
     of these runs a handler or changes the state.
     A ready server runs exactly the handler registered for the method, once, and becomes shutting-down exactly after a
     shutdown request; notifications run their handler only when the server is ready, `initialized` makes an
     initializing server ready, and an exit notification ends the loop.""",
     ["inputs", "histories"], "all message sequences in every lifecycle state",
     "The state x message table has no test at all; a test could only sample sequences.",
     [SL + "server/lsp_srv.rs", SL + "server.rs"], [("LsDriver::start_ for LSP", SL + "server/lsp_srv.rs"), ("server state", SL + "server.rs")],
     ["handler invocations, responses, loop result"])
prop("L04", "Debug-adapter lifecycle: initialize, serve, disconnect",
     """A debug-adapter request before initialization is refused as not initialized (-32002), a second initialize and any
     request after disconnect as invalid (-32600), an unknown command as not found (-32601), and none of these runs a
     handler or changes the state.
     A ready adapter runs exactly the handler registered for the command, once, and stops accepting requests exactly
     after a disconnect request.""",
     ["inputs", "histories"], "all message sequences in every lifecycle state",
     "The debug-adapter loop has no test.",
     [SL + "server/dap_srv.rs", SL + "server.rs"], [("LsDriver::start_ for DAP", SL + "server/dap_srv.rs")],
     ["handler invocations, responses, loop result"])
prop("L05", "Requests to the client get fresh ids and their replies find the right handler",
     """Each request (and debug event) the server sends to the client carries an id no earlier one carried, and its reply handler is
     registered before the message leaves.
     A reply from the client runs exactly the handler registered for the id it carries, exactly once, with that reply;
     a reply with an unknown or already completed id runs nothing.""",
     ["schedules", "histories", "inputs"], "all interleavings of outgoing requests and replies",
     "No test sends a request to a client; reuse of an id shows only when two requests overlap.",
     [SL + "server.rs", SL + "req_queue.rs", SL + "server/lsp_srv.rs", SL + "server/dap_srv.rs"],
     [("outgoing table", SL + "req_queue.rs"), ("send_request/complete_request", SL + "server.rs")],
     ["ids of outgoing messages; handler invocations"])
prop("L06", "The request tables are never locked while foreign code runs",
     """While the server holds the lock on its request tables it runs no request handler, reply handler, caller-supplied
     callback or await, does not block on a thread, timer or receive, and does not take the same lock again; every operation
     releases the lock before it returns. So no handler can deadlock the server by calling back into it.""",
     ["schedules", "programs"], "all client operations and dispatch paths, for arbitrary handlers",
     "A deadlock needs a handler that calls back at the wrong moment; tests have no handlers.",
     [SL + "server.rs", SL + "req_queue.rs", SL + "server/lsp_srv.rs", SL + "server/dap_srv.rs"],
     [("request queue mutex", SL + "server.rs")], ["lock regions"],
     technique="lock-region (typestate) analysis over instance-level MIR paths")
prop("L07", "A registered handler is the one that runs, with the message's own data",
     """A handler registered for a request, notification, command, resource or event runs exactly for messages of that
     method, command name, path or event type, at most once per message, with the request's id and the message's own
     parameters; registering one changes no other registration, and the built server keeps all of them.
     Parameters that do not deserialize into the handler's type are refused as an invalid request (-32600) without
     running it. workspace/executeCommand runs the handler of its command name with its arguments, and a resource
     request the handler of the path in its first argument.""",
     ["inputs", "programs"], "all registrations and messages, for every handler and parameter type",
     "No stable test registers a handler; a crossed table or dropped argument shows only for the combination concerned.",
     [SL + "server.rs", SL + "server/lsp_srv.rs", SL + "server/dap_srv.rs"],
     [("builders with_*", SL + "server.rs, lsp_srv.rs, dap_srv.rs"), ("command and resource dispatch", SL + "server/lsp_srv.rs, server.rs get_resources")],
     ["handler invocations and their arguments"])
prop("L08", "Handler outcomes become responses faithfully",
     """The value a handler returns is sent as the response's result without an error, its error as an error with the same
     code and message and no result, and a value that cannot be serialized as an internal error (-32603), each in the
     protocol the server speaks. Every error kind carries the code JSON-RPC and LSP assign to it, and converting a
     message between its typed and untyped forms keeps its protocol and content.""",
     ["inputs", "programs"], "all handler outcomes, both protocols",
     "No stable test builds a response from a handler's outcome; a wrong code still serializes fine.",
     [SL + "server.rs", SL + "msg.rs", SL + "lsp.rs", SL + "dap.rs", SL + "error.rs"],
     [("result/error to response", SL + "server.rs create_response paths"), ("error codes", SL + "msg.rs ErrorCode")],
     ["responses handed to the connection"])
prop("L09", "No client message can panic the server",
     """While the server dispatches whatever message a client sends (any method, any id, any JSON parameters, any command
     arguments), the protocol layer performs no operation that can panic on that data: no unchecked index, unwrap, slice or
     arithmetic whose failure a client can provoke.""",
     ["inputs", "histories"], "all client messages in all server states",
     "Tests send no messages; a panic needs the one malformed argument nobody tried.",
     [SL + "server.rs", SL + "server/lsp_srv.rs", SL + "server/dap_srv.rs", SL + "req_queue.rs", SL + "msg.rs"],
     [("dispatch loops and everything they call", SL + "server.rs, lsp_srv.rs, dap_srv.rs")], ["absence of panics while dispatching"],
     technique="panic-reachability analysis over path-sensitive MIR (asserts, unwraps, indexing) with path facts as discharge")
prop("L10", "The client handle sends each message once, whole, and keeps its tables",
     """A request, notification, event or internal event given to the client handle goes into its channel exactly once and
     whole while the connection is open; the server receives it unchanged, in the kind it was sent as. The table of incoming
     requests holds exactly the registered ids not yet completed; extracting by method gives id and parsed parameters, the
     untouched message, or an error naming the method. The first initialization makes the service ready with the builder's arguments, later ones are refused.""",
     ["inputs", "programs", "histories"], "all messages, channel states and call sequences",
     "No test sends a notification or event, extracts a message or asks the table.",
     [SL + "server.rs", SL + "server/lsp_srv.rs", SL + "server/dap_srv.rs", SL + "req_queue.rs", SL + "lsp.rs", SL + "dap.rs"],
     [("send_*", SL + "server.rs, server/*.rs"), ("Incoming", SL + "req_queue.rs"), ("extract, From/TryFrom", SL + "lsp.rs, dap.rs"), ("LsDriver::ready", SL + "server.rs")], ["messages in the channels, values returned"])
prop("L11", "A replayed session ends only when every request was answered",
     """Starting a server runs its loop once on the given connection and returns the loop's result. A replayed session returns
     only once no incoming request is pending; an ordinary session does not wait. The wait is given up, by a panic, exactly
     when the timeout (REPLAY_TIMEOUT seconds, else 60) has passed.""",
     ["schedules", "configurations"], "all sessions, response orders and timeouts",
     "No test replays a session; the loss needs a request answered after the input ended.",
     [SL + "server/lsp_srv.rs", SL + "server/dap_srv.rs", SL + "server.rs"], [("LsDriver::start", SL + "server/lsp_srv.rs, server/dap_srv.rs")], ["return of start, pending requests"])
prop("W01", "A message is written as one well-formed frame",
     """Writing a message emits `Content-Length: ` with the byte length of its text, a blank line and exactly that text,
     then flushes; nothing else is written. The text is the JSON of the whole message with `jsonrpc` 2.0. A message
     that cannot be serialized writes nothing, and a write that fails stops the message and reports the failure.""",
     ["inputs", "fault_sequences"], "all messages (including non-ASCII text), all failures of the writer",
     "Tests write no frame; a length in characters instead of bytes works for ASCII.",
     [SL + "msg.rs", SL + "lsp.rs", SL + "dap.rs"], [("write_msg_text", SL + "msg.rs"), ("Message::write", SL + "lsp.rs, dap.rs")], ["bytes handed to the writer"])
prop("W02", "A frame is read exactly, and malformed frames are errors",
     """Reading a frame takes header lines up to the first empty line and then exactly as many body bytes as the
     Content-Length header says (any letter case, other headers ignored), and returns that text unchanged. A header line
     without CRLF or `: `, a missing or unparsable length, a short body, text that is not UTF-8 or not a message's
     JSON is an error; only the end of input where a header should start means 'no more messages'. No input makes it panic.""",
     ["inputs", "fault_sequences"], "all byte streams and read failures",
     "Tests read no frame; header order, case and fragmentation are unbounded.",
     [SL + "msg.rs", SL + "lsp.rs", SL + "dap.rs"], [("read_msg_text", SL + "msg.rs"), ("Message::read", SL + "lsp.rs, dap.rs")], ["value or error returned by the reader"])
prop("W03", "Messages have the JSON shape their protocol prescribes",
     """Requests, responses, notifications and errors are written with exactly the members of the protocol, each with its
     own value; an absent result, error or data and null params are left out, nothing else is. Reading accepts the same
     members, ignores unknown ones and refuses a message whose id, method, code or message is missing; an object with id
     and method is a request, with only an id a response, otherwise a notification, and debug-adapter messages carry their kind in
     `type`. A request id is written and read as the bare number or string it is.""",
     ["inputs"], "all messages and all JSON objects",
     "The stable tests check four sample messages.",
     [SL + "lsp.rs", SL + "msg.rs", SL + "dap.rs"], [("derived (de)serializers", SL + "lsp.rs, msg.rs, dap.rs")], ["JSON members written and read"],
     technique=MIR + ", over the expanded serde code")
prop("W04", "The transport loses, repeats and reorders no message",
     """Over an i/o transport every message the server sends is written once and every message read is handed to the server
     once, in order. The reader stops only at the end of input, at a read error, which it reports, or after handing over an exit
     notification; the writer stops only when its senders are gone or a write fails, which it reports. A server whose loop
     succeeds ends only after its writer has written everything.""",
     ["schedules", "inputs", "fault_sequences"], "all message streams, thread interleavings and i/o failures",
     "Only a doc example constructs a transport; the loss is a race or an i/o failure.",
     [SL + "transport.rs"], [("reader and writer threads", SL + "transport.rs io_transport"), ("join_write", SL + "transport.rs")], ["messages written and received, thread results"])
prop("W05", "Recording a session is transparent, and replaying reads the record",
     """With --mirror, the server reads exactly what it would read without it, and exactly the bytes it consumes are appended
     to the mirror file in order, once; a mirror file that cannot be written does not disturb the session. With --replay,
     input comes from the replay file and only from it.""",
     ["inputs", "fault_sequences"], "all byte streams, read sizes and write failures",
     "No test records a session; duplicated bytes appear only for buffered reads.",
     [SL + "transport.rs"], [("MirrorWriter", SL + "transport.rs"), ("with_stdio_transport", SL + "transport.rs")], ["bytes recorded, bytes read"])

"""The properties: writes properties.jsonl (run from /verif)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Outbound bytes reach the socket exactly once and in order",
  "Every byte of every packed reply and every accepted Send reaches the kernel exactly once and in the order in which it was packed, whatever part of it each write call takes. Bytes the kernel did not take yet are kept, in order, until it takes them, and nothing else is ever written to the socket.",
  ["inputs", "schedules", "fault_sequences", "histories"], "every sequence of messages, sends and events, every short write and every write error, every buffer position",
  "The tests echo small messages over loopback, where the kernel nearly always takes everything at once; short writes, EAGAIN with a wrapped buffer and a Send between two partial writes are not sampled.",
  ["connection.go", "server.go", "protocol.go"], [("direct write, then buffering of the rest", "connection.go: sendInLoop"), ("flush on writable events", "connection.go: handleWrite"), ("replies collected and written once per event", "connection.go: handleRead, handlerProtocol")],
  [("outBuffer", "bytes packed but not taken by the kernel", "connection.go")])
p("C02", "Unsent bytes and write interest agree",
  "Whenever control returns to the event loop, an open connection is registered for readable events, and it is registered for writable events exactly when bytes are waiting to be sent to it. So pending output is never stranded and an idle connection never makes the loop spin on writability.",
  ["schedules", "fault_sequences", "histories"], "every sequence of events, tasks and partial writes up to any point at which the loop polls again",
  "A test sees that one large transfer completes; a missed re-registration needs a particular sequence of partial writes, and a spinning loop does not change any test's result.",
  ["connection.go", "poller/epoll.go", "poller/kqueue.go", "eventloop/eventloop.go"], [("switching between read and read-write interest", "connection.go: sendInLoop, handleRead, handleWrite"), ("registration calls", "poller/epoll.go: EnableRead, EnableReadWrite")])
p("C03", "Inbound bytes reach the decoder exactly once and in order",
  "The decoder of a connection is shown, each time it is asked, exactly the bytes received and not yet consumed, in arrival order, whatever the sizes of the individual reads. Bytes it leaves unconsumed are kept and shown again in front of the next ones; none is lost, duplicated or reordered.",
  ["inputs", "schedules", "histories"], "every segmentation of the byte stream into reads, every amount of data the decoder consumes or leaves",
  "The tests send whole messages in one segment, so leftovers, leftovers that wrap around the ring and reads that fill the loop's shared buffer are hardly exercised.",
  ["connection.go"], [("read into the loop's packet buffer, viewed through a virtual ring", "connection.go: handleRead"), ("leftovers copied to the connection's own buffer", "connection.go: handleRead")],
  [("inBuffer", "bytes received but not consumed", "connection.go")])
p("C04", "Each decoded message is delivered once, replies follow in order",
  "Every message the decoder produces is given to the message callback exactly once, with the very context and data the decoder returned, and decoding goes on until the decoder has nothing more to give. Each non-nil reply is packed exactly once and queued before the next message is delivered.",
  ["inputs", "histories"], "every number of messages in a read, with and without replies, with and without context",
  "Tests look at streams of a few equal messages; a message with only a context, only data, no reply or many per read is not enumerated.",
  ["connection.go", "protocol.go", "server.go"], [("decode loop", "connection.go: handlerProtocol"), ("callback", "server.go: Handler")])
p("C05", "A connection closes exactly once and releases everything",
  "A connection is closed when the peer ends the stream, when reading, writing or the descriptor fails, and when Close is called; from then on Connected is false. Closing happens once: the descriptor is closed once, its registration is removed, pooled buffers are returned once, the idle timer is stopped and the close callback runs exactly once, and no open connection loses any of these.",
  ["schedules", "fault_sequences", "histories"], "every event, every error of every system call, several close causes at once, at any point of the connection's life",
  "Tests close healthy connections; a write error in the middle of a reply, an error together with readable data or a Close queued behind another close are not forced.",
  ["connection.go", "server.go"], [("close path", "connection.go: handleClose"), ("error event", "connection.go: HandleEvent"), ("queued Close", "connection.go: Close")])
p("C06", "Nothing touches a connection after it was closed",
  "After the close callback of a connection has begun, no other user callback is called for it, its descriptor is not used in any system call, and the buffers it returned to the shared pool are not read or written through it, by whatever event or queued task comes later. A later connection that reuses the descriptor number or the buffer is therefore never affected.",
  ["schedules", "histories"], "every event and queued task that can still arrive after a close, every cause of the close",
  "Use after release corrupts another connection only when the descriptor or the pooled buffer has been reused in the meantime, which small tests never arrange.",
  ["connection.go"], [("connected flag checked by queued work and by the decode loop", "connection.go")])
p("C07", "A connection is confined to its event loop",
  "Callbacks about a connection (connect, message, close, decode, pack, send completion) run only in the connection's own event loop, and every piece of a connection's state that more than one goroutine can touch is accessed atomically or under a lock. The methods documented as callable from other goroutines are free of data races with the loop.",
  ["schedules", "programs"], "every interleaving of the loop with the idle timer and with other goroutines calling the connection's methods",
  "The race detector sees only the interleavings that happen in the run; the tests call few methods from outside the loop.",
  ["connection.go", "server.go", "eventloop/eventloop.go"], [("work from outside is queued to the loop", "connection.go: Send, Close, ShutdownWrite"), ("atomic fields", "connection.go: Connection")])
p("C08", "A new connection is set up completely before it is used",
  "For every accepted connection handed to a loop the connect callback runs exactly once, in that loop, with the connection, and before any other callback and before any event of the connection can be delivered. Afterwards the connection is registered for events, or, when that fails, it is closed at once.",
  ["schedules", "fault_sequences"], "every accepted connection, also when its registration fails, also with an idle limit",
  "Registration failure needs a kernel error; the order of callbacks is only visible when data arrives at once.",
  ["server.go", "connection.go", "eventloop/eventloop.go"], [("setup task queued to the chosen loop", "server.go: handleNewConnection"), ("registration", "eventloop/eventloop.go: AddSocketAndEnableRead")])
p("C09", "Queued tasks run exactly once, in order, in the loop",
  "Every function queued to an event loop, from whatever goroutine, is run exactly once by that loop's own goroutine, in the order of queueing, and tasks queued by a running task are run too. The queue is never accessed without its lock and no lock is held while a task runs.",
  ["schedules", "histories"], "any number of goroutines queueing at any time, including tasks that queue tasks",
  "A lost or doubled task needs a particular interleaving of queueing and draining.",
  ["eventloop/eventloop.go"], [("task list swapped out under a lock", "eventloop/eventloop.go: doPendingFunc, QueueInLoop")], [("pendingFunc", "queued tasks", "eventloop/eventloop.go")])
p("C10", "No wake-up is lost",
  "A task queued to a loop is run without waiting for any further event: whenever a task is added while the loop may be blocked waiting for events, the loop is woken, and the loop consumes the wake-up before it takes the tasks.",
  ["schedules"], "every interleaving of queueing goroutines with the loop's wake-up handling",
  "A lost wake-up needs a queueing goroutine to slip between two particular steps of the loop; the connection then just hangs until the next event.",
  ["eventloop/eventloop.go", "poller/epoll.go"], [("wake-up only on the first task of a batch", "eventloop/eventloop.go: QueueInLoop"), ("eventfd", "poller/epoll.go: Wake, wakeHandlerRead")])
p("C11", "The per-connection key-value store is an atomic map",
  "Set, Get and Delete of a connection's key-value store behave as operations on one map, from any goroutines: Get returns the value most recently set and not deleted since, and reports presence correctly, also before the first Set. Every access to the map is protected by one lock, with writers exclusive, and the lock is released on every path.",
  ["schedules", "histories"], "every order and interleaving of the three operations, on a fresh or used store",
  "Concurrent map access fails only under particular timing; the tests use the store from one goroutine.",
  ["context.go"], [("read-write lock around the map", "context.go")])
p("C12", "Idle connections are closed at the limit and not earlier",
  "With an idle limit configured, a connection on which no event happened for the whole limit is closed, and a connection with activity within the limit is never closed for idleness, to the resolution of the clock. As long as the connection is open its idle timer is running; without a limit there is none.",
  ["schedules", "histories", "configurations"], "every pattern of activity relative to the timer, every limit including fractions of a second",
  "Tests wait for one idle connection with a limit of whole seconds; limits below a second and activity just before the timer fires are not sampled.",
  ["connection.go", "server.go"], [("timer re-armed for the remaining time", "connection.go: closeTimeoutConn"), ("activity time stored on events", "connection.go: HandleEvent")])
p("C13", "Stop is idempotent, callable from any other goroutine, and lets Start return",
  "Stop may be called any number of times, also at the same time, from any goroutines other than those of the event loops. Until every loop of the server is polling it does nothing; from then on it takes effect exactly once, always returns, and makes every loop leave its polling, so that Start returns, which it does only then. No poller is closed while its loop still uses it.",
  ["schedules", "fault_sequences"], "every interleaving of Start, Stop, loop start-up and other Stops",
  "The tests call Stop once, long after start-up, and do not look at what happens to loops that had not begun to poll.",
  ["server.go", "eventloop/eventloop.go", "poller/epoll.go"], [("stop flag and poller close", "server.go: Stop; poller/epoll.go: Close, Poll")])
p("C14", "Stopping closes every connection and releases the address",
  "When the server stops, every connection still open gets closed, with its close callback, before its loop's polling ends, and the listening socket is closed completely, so that the address can be bound again. Closing the listening socket releases every descriptor that was made for it.",
  ["schedules", "histories"], "every set of open connections on every loop at the moment of the stop",
  "Tests stop servers without looking at what happened to the connections and the port.",
  ["server.go", "eventloop/eventloop.go", "listener.go", "poller/epoll.go"], [("stop of each loop", "eventloop/eventloop.go: Stop"), ("last handler calls after the poll loop", "poller/epoll.go: Poll"), ("listener close", "listener.go: Close")])
p("C15", "Readiness is reported faithfully to the right handler",
  "Every readiness condition the kernel reports for a descriptor reaches that descriptor's handler in the same round, as readable, writable or error according to what was reported; hang-up without data is an error, hang-up with data is still readable. No other handler is called and an interrupted wait changes nothing.",
  ["inputs", "schedules", "fault_sequences"], "every combination of kernel readiness bits, every number of ready descriptors, interruption of the wait by signals",
  "Real kernels produce the rarer combinations only in races between peer shutdown and local activity.",
  ["poller/epoll.go", "eventloop/eventloop.go", "connection.go"], [("event bit translation", "poller/epoll.go: Poll"), ("dispatch by descriptor", "eventloop/eventloop.go: handlerEvent")])
p("C16", "Every accepted socket is handed over once or closed",
  "Every socket taken from the accept queue is either switched to non-blocking mode and handed to exactly one loop, the one the balancing strategy chose when asked once, or closed. A failed accept creates no connection and does not stop the acceptor.",
  ["fault_sequences", "histories"], "every failure of accept and of the calls that prepare the socket",
  "Needs failing system calls; a leaked or blocking descriptor is invisible to functional tests.",
  ["listener.go", "server.go"], [("accept and hand-over", "listener.go: HandleEvent"), ("choice of the loop", "server.go: handleNewConnection")])
p("C17", "Balancing strategies choose a valid loop by their rule",
  "For every non-empty list of loops each built-in strategy returns a member of the list: round robin takes the members in turn, repeating with the length of the list, and least connections returns a member whose connection count is minimal among all. Neither fails on any list length or after any number of calls.",
  ["inputs", "histories"], "every list length, every combination of counts, every number of previous calls including overflow of the counter",
  "Tests use a few fixed lists and counts.",
  ["load_balance.go"], [("round robin counter", "load_balance.go: RoundRobin"), ("minimum search", "load_balance.go: LeastConnection")])
p("C18", "The connection count of a loop is exact",
  "At every point where a loop waits for events, its connection count equals the number of connections that are registered with it and not closed. A connection that failed to register is not counted, and no connection is subtracted twice.",
  ["schedules", "fault_sequences", "histories"], "every sequence of connects, failures and closes on a loop",
  "Drift shows only after failures of registration calls, which tests do not provoke; it silently skews balancing.",
  ["eventloop/eventloop.go", "server.go", "connection.go"], [("counter changed on registration and removal", "eventloop/eventloop.go: AddSocketAndEnableRead, DeleteFdInLoop")])
p("C19", "Every server option takes effect; defaults fill what is not set",
  "Each exported option changes exactly the setting it is named for, to the value given, independently of the order of the options. Whatever is not set gets its documented default: TCP, one loop per CPU, the pass-through protocol, round robin, no idle limit.",
  ["configurations", "inputs"], "every subset and order of the options and every value",
  "Tests use a few combinations and cannot see a setting that is silently ignored.",
  ["options.go", "server.go", "connection_options.go"], [("option functions", "options.go"), ("defaults", "options.go: newOptions"), ("use of the settings", "server.go: NewServer")])
p("C20", "A server that cannot be built leaves nothing behind",
  "When constructing a server fails, for whatever reason and at whatever step, no server is returned, and the listening address and every descriptor of the listening socket have been released, so that another attempt can bind the address. Success and error are never returned together.",
  ["fault_sequences", "configurations"], "a failure of every single step of the construction, for every configuration",
  "Tests do not make the later construction steps fail.",
  ["server.go", "listener.go"], [("error exits of the constructor", "server.go: NewServer; listener.go: newListener")])
p("C21", "Reported buffer lengths are the real ones",
  "Whenever the loop waits for events, the read buffer length a connection reports equals the number of received, unconsumed bytes, and the write buffer length equals the number of packed, unsent bytes.",
  ["schedules", "inputs", "histories"], "every sequence of reads, partial writes and sends",
  "Tests do not query the lengths after partial operations.",
  ["connection.go"], [("length counters", "connection.go: ReadBufferLength, WriteBufferLength")])
p("C22", "Send, Close and ShutdownWrite keep their contract",
  "On an open connection Send, Close and ShutdownWrite succeed and queue exactly one piece of work to the connection's loop; on a closed one they fail with the connection-closed error, or for work already queued have no effect. Send packs and sends its data once and then calls its completion function once with that data; ShutdownWrite ends only the sending direction.",
  ["schedules", "histories"], "calls at any time relative to the close of the connection, with and without completion function",
  "Tests call the methods on healthy connections only.",
  ["connection.go", "connection_options.go"], [("queueing methods", "connection.go: Send, Close, ShutdownWrite"), ("completion option", "connection_options.go")])
p("C23", "Delayed and periodic work is scheduled as asked",
  "RunAfter schedules the given function to run once after the given delay, and RunEvery schedules it after each period of the given length; the returned timer is the one that controls it. The server's timer wheel is running when the server runs and is stopped with it.",
  ["inputs", "histories"], "every delay and period",
  "Tests wait for one or two firings.",
  ["server.go", "everyscheduler.go"], [("timing wheel", "server.go: RunAfter, RunEvery"), ("scheduler", "everyscheduler.go")])
p("C24", "WebSocket frame headers are encoded as RFC 6455 says",
  "For every combination of final bit, reserved bits, opcode, mask and payload length the written frame header has exactly the RFC 6455 layout, with the shortest length encoding, big-endian lengths and the mask key last. An impossible length is refused and nothing is written.",
  ["inputs"], "every header value, in particular every length at and around 125, 126, 65535 and 65536",
  "The tests encode some headers of some lengths.",
  ["plugins/websocket/ws/write.go", "plugins/websocket/ws/frame.go"], [("header writer", "plugins/websocket/ws/write.go")])
p("C25", "WebSocket frame headers are decoded as RFC 6455 says",
  "For every byte sequence the header reader returns exactly the fields RFC 6455 assigns to its bytes, consumes exactly the header, and reports a length with the top bit set as an error. An incomplete header is never misread as a complete one.",
  ["inputs"], "every byte sequence, every truncation of it",
  "The tests decode the headers they encoded.",
  ["plugins/websocket/ws/read.go", "plugins/websocket/protocol.go"], [("header reader", "plugins/websocket/ws/read.go")])
p("C26", "WebSocket messages do not depend on how bytes are segmented",
  "For a client's well-formed (masked, shortest length encoding) frames the WebSocket decoder consumes nothing and gives nothing until the whole frame has arrived, then consumes exactly that frame and gives its header and unmasked payload, whatever follows in the buffer. The resulting messages are therefore the same for every segmentation of the stream. A frame whose length has the top bit set is never delivered and ends the connection.",
  ["inputs", "schedules"], "every split of every frame into reads, every amount of further data behind it",
  "Tests send whole frames in single writes.",
  ["plugins/websocket/protocol.go", "plugins/websocket/ws/read.go", "plugins/websocket/ws/cipher.go"], [("virtual read, then flush or revert", "plugins/websocket/protocol.go: UnPacket; ws/read.go: VirtualReadHeader")])
p("C27", "The WebSocket handshake accepts exactly what it must",
  "A connection becomes a WebSocket only after a complete request with method GET, protocol HTTP/1.1 or a later minor version, a Host header, an Upgrade header with the value websocket, a Connection header that lists upgrade, version 13 and a 24-byte key, in any order and spelling and with any further headers; then the reply is the 101 response for that request. Every other complete request, and one that a callback of the upgrader refuses, is answered with an error status and not upgraded, an incomplete one is neither answered nor consumed, and no frame is interpreted before the upgrade.",
  ["inputs", "schedules"], "every request with any set of required headers missing or wrong, in any segmentation and any header order",
  "Tests perform valid handshakes.",
  ["plugins/websocket/protocol.go", "plugins/websocket/ws/http.go", "plugins/websocket/ws/ws.go"], [("upgrade", "plugins/websocket/ws/ws.go: Upgrade")])
p("C28", "WebSocket control frames are answered and dispatched by opcode",
  "A text or binary frame reaches the message handler exactly once with its payload and leaves the connection open. Control frames never reach it: a ping of at most 125 bytes is answered by one pong frame with the same payload, a ping or pong leaves the connection open, and a close frame is answered by one close frame followed by shutting down the sending side. The handshake answer is passed on unchanged without calling the handler.",
  ["inputs", "histories"], "every opcode, every payload, every interleaving of control frames with data",
  "Tests exchange text messages.",
  ["plugins/websocket/wrap.go", "plugins/websocket/ws/util/util.go"], [("dispatch", "plugins/websocket/wrap.go: OnMessage"), ("control replies", "plugins/websocket/ws/util/util.go")])
p("C29", "Close frames carry only valid codes and reasons",
  "A received close code is accepted exactly if RFC 6455 allows it on the wire (1000 to 1003, 1007 to 1011, 3000 to 4999; 1012 to 1014 and codes from 5000 are left open) and its reason is valid UTF-8, and is echoed in the answer; anything else, also a body of one byte, is answered as a protocol error (1002, or 1007 for bad text). A close frame body is the big-endian code followed by the reason, cropped to 125 bytes in all, and its parser inverts it.",
  ["inputs"], "every 16-bit code, every reason, every body shorter than a code",
  "The tests try a handful of the 65536 codes.",
  ["plugins/websocket/ws/frame.go", "plugins/websocket/ws/util/util.go"], [("code check", "plugins/websocket/ws: CheckCloseFrameData"), ("body encoding", "plugins/websocket/ws/frame.go")])
p("C30", "WebSocket replies are framed with the right opcode",
  "A reply given as text or binary is sent as exactly one unmasked final frame with the corresponding opcode, the shortest length encoding and the payload unchanged, and an empty reply means no frame. The packing helpers frame text, binary and close data likewise.",
  ["inputs"], "every message type and payload",
  "Tests reply with text and binary only.",
  ["plugins/websocket/wrap.go", "plugins/websocket/ws/util/util.go", "plugins/websocket/ws/frame.go"], [("packing", "plugins/websocket/ws/util/util.go: PackData")])
p("C31", "Protobuf frames round-trip, whatever the segmentation",
  "The protobuf decoder gives, for every stream of frames, exactly the type names and payloads that were packed, in order, one frame per call, consuming exactly one frame, and nothing while a frame is incomplete, in whatever pieces the stream arrives. Frames whose inner length is impossible end the connection instead of being misread.",
  ["inputs", "schedules"], "every message type name and payload including empty ones, every split of the stream, every malformed length",
  "The tests send whole frames with a few sizes.",
  ["plugins/protobuf/protocol.go", "plugins/protobuf/protobuf.go"], [("frame decoder", "plugins/protobuf/protocol.go: UnPacket"), ("frame encoder", "plugins/protobuf: PackMessage")])
p("C32", "No input from a peer can crash the server",
  "No sequence of bytes from a peer, in any segmentation, makes the connection layer or one of the bundled protocols panic: every index and slice is within bounds, every length taken from the wire is checked before it is used, and no nil value is dereferenced.",
  ["inputs", "schedules"], "every byte sequence at every state of the connection and of the protocols",
  "A panic in a loop ends the process; the tests send well-formed input only.",
  ["connection.go", "plugins/websocket/protocol.go", "plugins/websocket/ws/read.go", "plugins/protobuf/protocol.go", "protocol.go"], [("bounds and length checks in the decoders", "plugins/websocket, plugins/protobuf")])
p("C33", "The BSD poller offers the same guarantees as the Linux one",
  "On systems with kqueue the poller registers and removes interest in reading and writing as asked, remembers interest only when the kernel accepted it, translates kernel events to the same readiness conditions, wakes and closes as on Linux. Code above the poller therefore behaves identically on both.",
  ["inputs", "fault_sequences", "programs"], "every order of interest changes, every kernel event, every failing call",
  "The tests of a Linux build never compile this code.",
  ["poller/kqueue.go"], [("filter changes", "poller/kqueue.go: EnableReadWrite, EnableWrite, EnableRead"), ("event translation", "poller/kqueue.go: Poll")])
p("C34", "The default protocol passes bytes through unchanged",
  "With the default protocol every received byte is given to the message callback exactly once and in order, all available bytes at a time and nothing when there are none, also when they wrap around the buffer. Replies that are byte slices are sent unchanged, and unpacking never closes the connection.",
  ["inputs", "histories"], "every content, length and position in the ring buffer",
  "Tests echo short messages from a fresh buffer.",
  ["protocol.go"], [("unpacking and packing", "protocol.go: DefaultProtocol")])
p("C35", "Masking is the RFC 6455 XOR for every length and offset",
  "Applying a mask to a payload replaces the byte at each position by its exclusive or with the mask byte at that position plus the given offset, modulo four, for every payload length, alignment and offset, so that applying it twice gives the payload back.",
  ["inputs"], "every payload, length, alignment, mask and offset",
  "The tests sample lengths and offsets.",
  ["plugins/websocket/ws/cipher.go"], [("word-wise exclusive or", "plugins/websocket/ws/cipher.go: Cipher")])
p("C36", "The handshake proof is computed from the client's key",
  "The accept value in a 101 response is the base64 form of the SHA-1 digest of exactly the key sent in the same request followed by the protocol's fixed identifier, and it is written into the response of that request only.",
  ["inputs", "schedules"], "every key, concurrent handshakes on several loops",
  "Tests use one client library and sequential handshakes; shared scratch memory would mix keys only under concurrency.",
  ["plugins/websocket/ws/nonce.go", "plugins/websocket/ws/http.go"], [("accept computation", "plugins/websocket/ws/nonce.go")])
p("C37", "Connections report the address of their peer",
  "The peer address a connection reports is made from the very socket address the kernel returned when this connection was accepted: its IP in textual form and its port in decimal, for IPv4 and IPv6 alike, and it never changes.",
  ["inputs"], "every IPv4 and IPv6 address and port",
  "Tests see loopback IPv4 only.",
  ["connection.go", "listener.go"], [("address formatting", "connection.go: sockAddrToString")])
p("C38", "Load is spread fairly and served with low latency",
  "Under sustained load every loop gets a proportional share of connections and every ready connection is served within a bounded time.",
  ["schedules"], "every load pattern", "Depends on run-time load and scheduling.",
  ["server.go", "eventloop/eventloop.go"], [("event loops", "eventloop/eventloop.go")])
with open("properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), max(len(x["title"]) for x in P))

package checks

var flowTrust = []string{
	"go/types and golang.org/x/tools/go/ssa represent the program faithfully",
	"the models of the library functions in checker/model and checker/checks",
	"the transfer functions of the abstract interpreter in checker/absint",
}

var codecTrust = append([]string{"ws.Cipher masks as RFC 6455 says (not claimed here, see C35)", "slices are shorter than 2^47 bytes"}, flowTrust...)

var loopTrust = append([]string{"the user's tasks and handlers return", "the descriptors of different files differ"}, flowTrust...)

var trustedOf = map[string][]string{
	"wsheader": codecTrust, "wsframe": codecTrust, "wsdispatch": codecTrust, "handshake": codecTrust, "protobuf": codecTrust, "default": codecTrust,
	"tasks": loopTrust, "events": loopTrust, "stop": loopTrust, "server": loopTrust,
	"masking": append([]string{"bytes are numbered from the lowest in a word (little-endian machines)"}, flowTrust...),
	"store":   flowTrust, "strategies": flowTrust, "options": flowTrust, "schedule": flowTrust, "address": flowTrust,
	"life": {
		"go/types and golang.org/x/tools/go/ssa represent the program faithfully",
		"the models of the kernel calls (golang.org/x/sys/unix), of the ring buffer v0.0.11, of the atomic, lock, pool and timing wheel libraries in checker/model",
		"the transfer functions of the abstract interpreter in checker/absint",
		"user callbacks do not call back into the connection from another goroutine than modelled and do not keep the slices they are given",
		"the descriptor stays below 2^31 and byte counts do not overflow an int",
	},
}

const lifeRule = "The SSA form of the module is interpreted abstractly (unknown lengths and descriptors as linear terms, byte sequences as segments of unknown content, heap cells per allocation site, trace partitioning with widening at loops) from the constructor through the accept path; every event mask, queued task, timer firing and public call is then analysed from every abstract connection state until no new state appears. "

// Props are the properties this checker decides.
var Props = map[string]Prop{}

func prop(id, level, rule string, analyses []string, need ...string) {
	Props[id] = Prop{ID: id, Analyses: analyses, Level: level, Rule: rule, Need: need}
}

func init() {
	life := []string{"life"}
	prop("C01", "proof", lifeRule+"Every write must hand the kernel the next unsent bytes, and at the end of every root the unsent bytes are one buffer's content.", life, "in-order", "kept")
	prop("C02", "proof", lifeRule+"At the end of every root the registered interest is read, plus write exactly if unsent bytes exist.", life, "read-interest", "write-interest", "no-write-interest")
	prop("C03", "proof", lifeRule+"At every decoder call the buffer shown holds exactly the received, unconsumed bytes; at the end of every root they are one buffer's content.", life, "decoder-input", "kept")
	prop("C04", "proof", lifeRule+"A typestate monitor follows each decoded message to its callback and each reply to its packing.", life, "deliver-once", "deliver-all", "deliver-unchanged", "decode-until-none", "reply-order", "reply-once")
	prop("C05", "proof", lifeRule+"A typestate monitor follows descriptor, registration, pooled buffers, timer and close callback from every close cause.", life, "close-once", "error-closes", "close-closes", "descriptor-closed", "buffers-released", "released-once", "peer-end-closes", "failure-closes", "connected-flag")
	prop("C06", "proof", lifeRule+"Any system call on the closed descriptor, any use of a returned buffer and any callback after the close callback is a violation.", []string{"life", "stop"}, "use-after-close", "after-close", "released-once")
	prop("C07", "proof", lifeRule+"Each access to a connection's memory is recorded with its goroutine role and the locks held; a lockset rule compares all pairs.", []string{"life", "tasks"}, "own-goroutine", "lockset", "callback-thread", "confinement", "own-loop", "descriptor-confined")
	prop("C08", "proof", lifeRule+"The setup task of an accepted connection is followed to its registration; two connections accepted before either setup runs each get their own.", []string{"life", "address"}, "connect-once", "connect-before-events", "registered", "unregistered-closed", "connect-first")
	prop("C12", "proof", lifeRule+"Clock readings are unknown increasing instants; the timer's comparison and re-arming are compared with the limit.", life, "armed", "armed-in-time", "activity", "not-early", "not-late", "closes-when-due", "one-timer")
	prop("C16", "proof", lifeRule+"The acceptor's handler is run for a readable listening descriptor with every failure of every call.", []string{"life", "address"}, "accepts", "nonblocking", "handed-over-once", "strategy-obeyed")
	prop("C18", "proof", lifeRule+"At the end of every root the loop's connection count equals the ghost registration.", life, "count")
	prop("C21", "proof", lifeRule+"At the end of every root both length queries are run and compared with the ghost sequences.", life, "read-length", "write-length")
	prop("C22", "proof", lifeRule+"Send, Close and ShutdownWrite are run from every state, and the tasks they queue in every later state.", life, "accepted", "queued-once", "closed-error", "sent", "finished", "closed-ignored", "shutdown")
	fl := "The functions are interpreted abstractly (all paths, unknown arguments as symbolic terms, failing calls as separate outcomes). "
	prop("C11", "proof", fl+"From an empty, a used and an unknown map each operation is followed by Get and compared with the map laws; every access to the shared memory is recorded with the locks held and the lockset rule compares all pairs.", []string{"store"}, "set-get", "set-other", "delete-get", "delete-other", "get-absent", "lock-released", "locked")
	prop("C17", "other", fl+"Round robin: the sequence of choices for lists of 1 to 5 loops, plus membership and index bounds for a list of unknown length from every state of the counter. Least connections: with 1 to 5 loops of unknown counts every path's choice is compared with all counts by linear arithmetic.", []string{"strategies"}, "in-turn", "minimal", "member", "in-range", "counter")
	prop("C19", "proof", fl+"Each option's closure is applied to settings of unknown value and must change exactly its own; NewServer is run without options, with each, each ordered pair, all in both orders, and the settings, the listening call, the number of loops, the strategy asked, the protocol and the idle timer of the first connection are compared.", []string{"options"}, "option-sets", "option-frame", "value", "default", "address", "network", "reuseport", "loops", "strategy-used", "protocol-used", "idle-used")
	prop("C20", "proof", fl+"NewServer is run with each call on the way failing in turn, for each option; a typestate monitor follows the listener and the duplicated descriptor.", []string{"options"}, "server-or-error", "released", "open", "failure-after-listen", "failure-before-listen", "no-handler")
	prop("C23", "proof", fl+"The timers handed to the wheel are compared with the arguments, the scheduler's Next is run for unknown instants, and the wheel is followed through Start and Stop.", []string{"schedule"}, "delay", "period", "returned-timer", "server-wheel", "runs-once", "started", "stopped", "wheel-tick")
	prop("C37", "proof", fl+"NewConnection is run for both address families with unknown bytes and port; PeerAddr must be the term host-port of exactly those, also after the socket address memory changed.", []string{"address"}, "address")
	cd := "The decoder or encoder is interpreted abstractly on a buffer of unknown length and content, whole or partly read, (bytes as terms, integers as linear terms and bit vectors); every path's result is compared with the reference layout by linear and bit-level arithmetic. "
	prop("C24", "proof", cd+"All fields of the header are unknown; every path's bytes are compared with the RFC 6455 layout.", []string{"wsheader"}, "impossible-refused", "encodes", "size", "first-byte", "second-byte", "extended-length", "mask")
	prop("C25", "proof", cd+"All 256 second bytes are enumerated, the rest is unknown.", []string{"wsheader"}, "incomplete", "waits-unchanged", "fields", "consumes", "top-bit", "decodes")
	prop("C26", "proof", cd+"All 256 second bytes are enumerated, the rest, and what follows the frame, is unknown.", []string{"wsframe"}, "incomplete", "unconsumed", "header", "payload", "consumed", "impossible-length", "delivered")
	prop("C28", "proof", cd+"All opcodes are enumerated, the other header fields, the payload and the handler's reply are unknown.", []string{"wsdispatch"}, "dispatch", "payload", "control", "pong", "close", "close-answered", "handshake", "stays-open", "forwarded")
	prop("C29", "proof", cd+"The code is an unknown 16-bit number, split into the ranges of RFC 6455; the validity of the reason as UTF-8 is an uninterpreted condition.", []string{"wsdispatch"}, "accepted", "invalid-refused", "body", "parsed", "packs", "echoed", "refused", "empty-close")
	prop("C30", "proof", cd+"The handler's reply has an unknown length; the frame is compared with the RFC 6455 layout in each length class.", []string{"wsdispatch"}, "framed", "no-reply", "packs", "first-byte", "second-byte", "extended-length")
	prop("C31", "proof", cd+"The encoder's output is compared with the layout the decoder is compared with.", []string{"protobuf"}, "decodes", "incomplete", "unconsumed", "malformed", "type", "payload", "consumed", "packs", "reply-unchanged")
	hs := cd + "Requests are enumerated by structure - every order, spelling, subset of the needed headers, every first deviation from each needed value, every callback, every place where a request can end - with unknown values of unknown length; pooled memory comes with stale content. "
	prop("C27", "other", hs, []string{"handshake"}, "accepts", "response", "consumed", "upgrades", "no-frame-before", "refuses", "refusal", "not-upgraded", "asked", "incomplete", "unconsumed")
	prop("C36", "proof", hs+"The accept value is compared as a term, and all memory that outlives the call is compared before and after.", []string{"handshake"}, "accept", "written", "own-memory", "own-response")
	prop("C32", "other", "On every path of the connection layer and of the bundled protocols, for unknown bytes in every segmentation, each index and slice expression must be proved within bounds, and no nil dereference, failing type assertion, explicit panic or nil map write may be reachable.", []string{"life", "wsheader", "wsframe", "wsdispatch", "protobuf", "default", "handshake"}, "bounds")
	lp := "The event loop's goroutine and the goroutines that use it are interpreted abstractly in one state, in every order of their operations on locks, atomics, channels and descriptors, until no new state appears. "
	prop("C35", "other", "Cipher is interpreted abstractly for payloads of every length up to a bound, lying anywhere in a larger array, and for every offset modulo four, also large ones; the bytes of payload and mask are unknown, every byte of the result is compared with the exclusive or that RFC 6455 asks for, and the bytes around the payload must not change.", []string{"masking"}, "masked", "around", "twice")
	prop("C09", "proof", lp+"Two goroutines queue tasks again and again; tasks and handlers queue tasks; and a queue of unknown length is run once. A monitor follows each task.", []string{"tasks", "events"}, "own-goroutine", "once", "in-order", "no-lock-held", "lost-wake-up", "lockset")
	prop("C10", "proof", lp+"Wherever the loop can block with a task in its queue and no wake-up under way, the wake-up was lost.", []string{"tasks", "events"}, "lost-wake-up", "drain-blocks", "wake-value")
	prop("C15", "proof", lp+"A wait returns an unknown number of events of unknown descriptors, with an event of the socket under observation and the wake-up at unknown positions; the mask is an unknown word compared bit by bit.", []string{"events", "tasks"}, "delivered", "right-handler", "readable", "only-readable", "writable", "failure", "only-writable", "hang-up", "only-error", "own-goroutine", "room", "event-identity")
	sv := "Start and Stop are interpreted with one and two event loops for connections, the loops' Run and Stop replaced by what the analysis of one loop establishes, in every order of the goroutines' operations, with two further calls of Stop at any time. "
	prop("C13", "proof", lp+"The loop is stopped while tasks are queued, by two goroutines, and while it has events. "+sv, []string{"stop", "server"}, "stop-waits", "poller-released", "keeps-running", "loop-ends", "effective", "nothing-before", "start-blocks", "stop-returns", "all-ended")
	prop("C14", "proof", lp+"When the loop ends a monitor compares the sockets told to close, and the tasks with which they do, with those open. "+sv+"The Close of the object that owns the listening descriptor is run with each call failing.", []string{"stop", "server"}, "closed-once", "sockets-closed", "close-completed", "tasks-before-stop", "poller-released", "acceptor-first", "listener-closed", "all-ended")
	prop("C34", "proof", cd, []string{"default"}, "all-bytes", "nothing", "once", "reply-unchanged", "stays-open")
}

package checks

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	. "gevcheck/absint"
	"gevcheck/model"

	"golang.org/x/tools/go/ssa"
)

// loops analyses an event loop with the goroutines that use it.
type loops struct {
	w    *model.World
	loop Val
	task types.Type
	// slots are the tasks that other goroutines queue.
	slots []string
	// stops are the goroutines that stop the loop.
	stops []string
	// self: tasks and handlers queue tasks too.
	self bool
	// second: two sockets are registered.
	second bool
	// waits are the outcomes of a wait, apart from timeouts and interruptions.
	events func(st *State) [][]Val
	// rounds gives what the kernel may report besides.
	rounds func(c *Call, buf SliceV) []report
	elems  map[string]Lin // positions of the unknown tasks
	accs   map[string]map[string]acc
	fds    map[string]bool // cells of the loop, for the lock check
}

// A report is a list of events: n of them, and the monitors it sets.
type report struct {
	st   *State
	n    Lin
	segs []Seg
	note string
}

const sockFd = "nn(<FD>)"

func newLoops(p *Program) (*loops, *State) {
	w, st := newWorld(p, model.Gev, model.Loop, model.Poll)
	l := &loops{w: w, accs: map[string]map[string]acc{}}
	e := w.E
	e.Debug = os.Getenv("GEVDEBUG") != ""
	e.Unroll = 200
	e.MaxStates = 300000
	l.task = types.NewSignatureType(nil, nil, nil, nil, nil, false)
	w.WakeWorks = true
	w.User = l.user
	e.Intr[unixPkg+".EpollWait"] = l.wait
	e.OnPanic = func(s *State, in ssa.Instruction, why string) {
		w.Fail(s, "C09,C13", "panic", w.Where(in), "the event loop can panic: %s", why)
	}
	w.LockHook = func(s *State, lock string, acq, read bool, c *Call) {
		if acq {
			s.G["own:"+lock] = ConstStr(s.Thread())
		} else {
			delete(s.G, "own:"+lock)
		}
	}
	// one loop with one registered socket
	var out []*State
	for _, s := range call(w, st, w.Fn(model.Loop, "New")) {
		if len(s.Res) == 2 && isNilErr(s.Res[1]) {
			out = append(out, s)
		}
	}
	if len(out) == 0 {
		panic(Undecided{Msg: "no event loop can be made"})
	}
	st = out[0]
	l.loop = st.Res[0]
	keep(st, "loop", l.loop)
	sock := OpqV{N: "<SOCKET>", T: w.Type(model.Loop, "Socket")}
	st.Bool["nil(<SOCKET>)"] = false
	fd := At(sockFd)
	model.GSet(st, "fd:"+fd.String(), 1)
	for _, v := range model.GList(st, "fds") {
		st.Assume(EQ(fd, e.Lin(v)).Not())
	}
	out = nil
	for _, s := range call(w, st, w.Fn(model.Loop, "EventLoop.AddSocketAndEnableRead"), l.loop, IntV{L: fd}, sock) {
		if isNilErr(s.Res[0]) {
			out = append(out, s)
		}
	}
	if len(out) == 0 {
		panic(Undecided{Msg: "no socket can be registered"})
	}
	st = out[0]
	st.Res, st.Trail = nil, nil
	for _, n := range []string{"<T1>", "<T2>", "<T3>", "<S>", "<C>", "<FD>", "<SOCKET>"} {
		e.Pinned[n] = true
		st.Names[n] = true
		st.Bool["nil("+n+")"] = false
	}
	l.fds = map[string]bool{}
	for c, v := range st.Heap {
		if _, arr := v.(ArrV); !arr && !strings.HasPrefix(c, "glob:") {
			l.fds[c] = true
		}
	}
	l.sync()
	return l, st
}

const unixPkg = "golang.org/x/sys/unix"

// sync marks the operations between which goroutines alternate.
func (l *loops) sync() {
	e := l.w.E
	e.Sync = map[string]Sync{}
	free := func(c *Call) bool {
		p, ok := c.Args[0].(PtrV)
		return !ok || model.GInt(c.St, "lock:"+p.Cell) == 0
	}
	for n := range e.Intr {
		switch {
		case strings.HasSuffix(n, ".Lock") || strings.HasSuffix(n, ".RLock"):
			e.Sync[n] = free
		case strings.Contains(n, "/atomic.") && !strings.HasSuffix(n, ".New"):
			e.Sync[n] = nil
		case n == unixPkg+".EpollWait", n == unixPkg+".Read", n == unixPkg+".Write", n == unixPkg+".Close":
			e.Sync[n] = nil
		}
	}
	e.Sync["builtin:close"] = nil
	e.Sync["receive"] = nil
	e.Intr["builtin:close"] = func(c *Call) []Out {
		k := "chan:" + Key(c.Args[0])
		if !l.w.Check(c.St, model.GInt(c.St, k) == 0, "C13", "close-once", l.w.Where(c.Instr), "a channel is closed twice") {
			return []Out{}
		}
		model.GSet(c.St, k, 1)
		return []Out{{St: c.St}}
	}
	e.RecvReady = func(s *State, ch Val) bool { return model.GInt(s, "chan:"+Key(ch)) == 1 }
	e.OnAccess = func(s *State, cell string, write bool, in ssa.Instruction) { l.access(s, cell, write, false, in) }
	l.w.AtomicHook = func(s *State, cell, op string, c *Call) { l.access(s, cell, op != "load", true, c.Instr) }
}

func (l *loops) access(st *State, cell string, write, atomic bool, in ssa.Instruction) {
	th := st.Thread()
	if th == "" || in == nil || !l.fds[cell] {
		return
	}
	if th != "loop" {
		th = "any"
	}
	var locks []string
	for k, v := range st.G {
		if strings.HasPrefix(k, "lock:") {
			if o, ok := ConstString(st.G["own:"+k[5:]]); ok && o == st.Thread() {
				locks = append(locks, k[5:]+"="+Key(v))
			}
		}
	}
	sort.Strings(locks)
	a := acc{thread: th, write: write, atomic: atomic, locks: strings.Join(locks, ","), where: l.w.Where(in)}
	m := l.accs[cell]
	if m == nil {
		m = map[string]acc{}
		l.accs[cell] = m
	}
	m[fmt.Sprintf("%s%s%s%v", a.thread, a.where, a.locks, write)] = a
}

func (l *loops) fn(name string) Val { return OpqV{N: name, T: l.task} }

// ---- tasks ----

// A task has the monitors q:NAME (1 while it is being queued, 2 afterwards),
// ran:NAME and before:NAME, the tasks that were queued before it.

func (l *loops) queued(st *State, name string) {
	var before []Val
	for _, t := range []string{"<C>", "<S>", "<T1>", "<T2>", "<T3>"} {
		if t != name && model.GInt(st, "q:"+t) == 2 && model.GInt(st, "ran:"+t) == 0 {
			before = append(before, ConstStr(t))
		}
	}
	model.GSet(st, "q:"+name, 1)
	if before != nil {
		st.G["before:"+name] = ListV{V: before}
	}
	st.Note("%s queues %s", st.Thread(), name)
}

func (l *loops) queueDone(st *State, name string) {
	if model.GInt(st, "ran:"+name) == 1 {
		l.forget(st, name)
		return
	}
	model.GSet(st, "q:"+name, 2)
}

func (l *loops) forget(st *State, name string) {
	for _, k := range []string{"q:", "ran:", "before:"} {
		delete(st.G, k+name)
	}
}

// runs is called when the loop calls a task.
func (l *loops) runs(c *Call, name string) bool {
	w, st := l.w, c.St
	where := w.Where(c.Instr)
	l.alone(c)
	if qn, ok := st.G["qn"]; ok && name != "<S>" {
		if !w.Check(st, st.EntailsEQ(w.E.Lin(qn).Sub(w.E.Lin(st.G["next"]))), "C09", "in-order", where, "a task is run before one that was queued earlier") {
			return false
		}
	}
	if !w.Check(st, model.GInt(st, "q:"+name) > 0 && model.GInt(st, "ran:"+name) == 0, "C09", "once", where, "a task is run that is not waiting: it was run before") {
		return false
	}
	if !w.Check(st, len(model.GList(st, "before:"+name)) == 0, "C09", "in-order", where, "a task is run before one that was queued earlier") {
		return false
	}
	st.Note("%s runs %s", st.Thread(), name)
	for k, v := range st.G {
		if !strings.HasPrefix(k, "before:") {
			continue
		}
		var rest []Val
		for _, x := range v.(ListV).V {
			if n, _ := ConstString(x); n != name {
				rest = append(rest, x)
			}
		}
		if rest == nil {
			delete(st.G, k)
		} else {
			st.G[k] = ListV{V: rest}
		}
	}
	if model.GInt(st, "q:"+name) == 2 {
		l.forget(st, name)
	} else {
		model.GSet(st, "ran:"+name, 1)
	}
	return true
}

// runsElem: one of the tasks that were queued first is run.
func (l *loops) runsElem(c *Call, name string) []Out {
	w, st := l.w, c.St
	where := w.Where(c.Instr)
	i, ok := l.elems[name]
	if !ok {
		panic(Undecided{Msg: "the position of a task in the queue is unknown"})
	}
	l.alone(c)
	next := w.E.Lin(st.G["next"])
	if !w.Check(st, st.EntailsGE(i.Sub(next)), "C09", "once", where, "a task is run twice") ||
		!w.Check(st, st.EntailsEQ(i.Sub(next)), "C09", "in-order", where, "a task is run before one that was queued earlier") {
		return []Out{}
	}
	st.G["next"] = IntV{L: next.AddC(1)}
	outs := []Out{{St: st}}
	if model.GInt(st, "q:<S>") == 0 && l.self {
		c2 := *c
		c2.St = st.Clone()
		outs = append(outs, l.queues(&c2, "<S>"))
	}
	return outs
}

// alone: tasks are run by the loop's goroutine, which holds no lock.
func (l *loops) alone(c *Call) {
	w, st := l.w, c.St
	where := w.Where(c.Instr)
	w.Check(st, st.Thread() == "loop", "C09", "own-goroutine", where, "a queued task is run by another goroutine than its loop's")
	for k := range st.G {
		if strings.HasPrefix(k, "own:") {
			o, _ := ConstString(st.G[k])
			w.Check(st, o != st.Thread(), "C09", "no-lock-held", where, "a lock is held while a queued task runs")
		}
	}
}

// queues makes an outcome in which the callee also queues a task.
func (l *loops) queues(c *Call, name string, res ...Val) Out {
	l.queued(c.St, name)
	f := l.w.Fn(model.Loop, "EventLoop.QueueInLoop")
	return Out{St: c.St, Res: res, Then: FuncV{Fn: f}, With: []Val{l.loop, l.fn(name)}, After: func(st *State) { l.queueDone(st, name) }}
}

func (l *loops) user(c *Call, kind string) []Out {
	st := c.St
	if kind == "HandleEvent" {
		return l.handle(c)
	}
	if kind == "Close" && len(c.Args) == 1 {
		return l.closeSocket(c)
	}
	fn, ok := c.Fn.(OpqV)
	if ok && strings.HasPrefix(fn.N, "elem(<Q>") {
		return l.runsElem(c, fn.N)
	}
	if !ok || !strings.HasPrefix(kind, "func:") {
		return nil
	}
	for _, n := range []string{"<C>", "<S>", "<T1>", "<T2>", "<T3>"} {
		if fn.N != n {
			continue
		}
		if !l.runs(c, n) {
			return []Out{}
		}
		outs := []Out{{St: st}}
		if n == "<C>" {
			model.GSet(st, "closed", 1)
			l.w.E.Store(st, PtrV{Cell: "new:<none>"}, cst(0), types.Typ[types.Int], nil)
			delete(st.Heap, "new:<none>")
			// what a connection's close does
			outs[0].Then, outs[0].With = FuncV{Fn: l.w.Fn(model.Loop, "EventLoop.DeleteFdInLoop")}, []Val{l.loop, IntV{L: At(sockFd)}}
			return outs
		}
		if n != "<S>" && model.GInt(st, "q:<S>") == 0 && l.self {
			c2 := *c
			c2.St = st.Clone()
			outs = append(outs, l.queues(&c2, "<S>"))
		}
		return outs
	}
	l.w.Fail(st, "C09", "once", l.w.Where(c.Instr), "something is run that is not a queued task: it was run before or never queued")
	return []Out{}
}

func (l *loops) handle(c *Call) []Out {
	w, st := l.w, c.St
	where := w.Where(c.Instr)
	w.Check(st, st.Thread() == "loop", "C07,C15", "own-goroutine", where, "an event is handled by another goroutine than the loop's")
	w.Check(st, model.GInt(st, "closed") == 0, "C05,C15", "after-close", where, "a socket gets an event after it was closed")
	ok := Key(c.Args[0]) == "<SOCKET>" && w.E.Lin(c.Args[1]).Eq(At(sockFd)) && model.GInt(st, "report") == 1
	if !w.Check(st, ok, "C15", "right-handler", where, "a handler is called for an event that was not reported for its descriptor") {
		return []Out{}
	}
	if m, ok := st.G["mask"]; ok {
		l.mask(c, m, c.Args[2])
		delete(st.G, "mask")
		for k := range st.Bool {
			if strings.Contains(k, "<MASK>") {
				delete(st.Bool, k)
			}
		}
	}
	model.GSet(st, "report", 2)
	st.Note("the socket's handler is called")
	outs := []Out{{St: st}}
	if model.GInt(st, "q:<S>") == 0 && l.self {
		c2 := *c
		c2.St = st.Clone()
		outs = append(outs, l.queues(&c2, "<S>"))
	}
	return outs
}

// mask compares what a handler gets with what the kernel reported.
func (l *loops) mask(c *Call, rep, got Val) {
	w, st := l.w, c.St
	where := w.Where(c.Instr)
	rb, ok1 := w.E.Bits(rep, 32)
	gb, ok2 := w.E.Bits(got, 32)
	if !ok1 || !ok2 {
		panic(Undecided{Msg: "the readiness given to a handler is not known bit by bit: " + Key(got)})
	}
	bit := func(b BVV, i int) Cond {
		if i >= len(b.B) {
			return BoolC(false)
		}
		return w.E.BitCond(b.B[i])
	}
	in, pri, out, er, hup, rdhup := bit(rb, 0), bit(rb, 1), bit(rb, 2), bit(rb, 3), bit(rb, 4), bit(rb, 13)
	read, write, bad := bit(gb, 0), bit(gb, 1), bit(gb, 7)
	split(st.Clone(), func(t *State, v []bool) {
		in, pri, out, er, hup, rdhup, read, write, bad := v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]
		text := fmt.Sprintf("reported IN=%v PRI=%v OUT=%v ERR=%v HUP=%v RDHUP=%v, the handler gets read=%v write=%v error=%v", in, pri, out, er, hup, rdhup, read, write, bad)
		if in || pri {
			w.Check(t, read, "C15", "readable", where, "data to read is not given to the handler: %s", text)
		}
		if rdhup {
			w.Check(t, read || bad, "C15", "readable", where, "the end of the stream is not given to the handler: %s", text)
		}
		if read {
			w.Check(t, in || pri || rdhup || hup && bad, "C15", "only-readable", where, "the handler is told to read without a report: %s", text)
		}
		if out {
			w.Check(t, write, "C15", "writable", where, "writability is not given to the handler: %s", text)
		}
		if er {
			w.Check(t, write || bad, "C15", "failure", where, "an error is not given to the handler: %s", text)
		}
		if write {
			w.Check(t, out || er, "C15", "only-writable", where, "the handler is told to write without a report: %s", text)
		}
		if hup && !in {
			w.Check(t, bad, "C15", "hang-up", where, "a hang-up without data is no error for the handler: %s", text)
		}
		if bad {
			w.Check(t, hup && !in || er, "C15", "only-error", where, "the handler is told of an error without a report: %s", text)
		}
	}, in, pri, out, er, hup, rdhup, read, write, bad)
}

func (l *loops) closeSocket(c *Call) []Out {
	w, st := l.w, c.St
	where := w.Where(c.Instr)
	w.Check(st, st.Thread() == "loop", "C07,C14", "own-goroutine", where, "a socket is closed by another goroutine than the loop's")
	if l.second && Key(c.Args[0]) == "<SOCKET2>" {
		if !w.Check(st, model.GInt(st, "sclose2") == 0, "C14", "closed-once", where, "a socket is closed twice when the loop stops") {
			return []Out{}
		}
		model.GSet(st, "sclose2", 1)
		return []Out{{St: st, Res: []Val{OpqV{N: "err:<close2>"}}}}
	}
	if !w.Check(st, Key(c.Args[0]) == "<SOCKET>" && model.GInt(st, "sclose") == 0, "C14", "closed-once", where, "a socket is closed twice when the loop stops") {
		return []Out{}
	}
	model.GSet(st, "sclose", 1)
	st.Note("the socket is told to close")
	if l.second {
		// what it queues is followed in the other worlds
		return []Out{{St: st, Res: []Val{OpqV{N: "err:<close>"}}}}
	}
	c2 := *c
	c2.St = st.Clone()
	return []Out{{St: st, Res: []Val{OpqV{N: "err:<close>"}}, Then: nil}, l.queues(&c2, "<C>", NilV{})}
}

// ---- waiting ----

func (l *loops) event(ev Val, fd Val) Val {
	t := l.w.Type(unixPkg, "EpollEvent")
	s := t.Underlying().(*types.Struct)
	v := StructV{T: t}
	for i := 0; i < s.NumFields(); i++ {
		switch s.Field(i).Name() {
		case "Events":
			v.F = append(v.F, ev)
		case "Fd":
			v.F = append(v.F, fd)
		default:
			v.F = append(v.F, cst(0))
		}
	}
	return v
}

// others tells whether a goroutine besides the loop's can go on.
func (l *loops) others(st *State) bool {
	for _, n := range st.Threads() {
		if n != "loop" && l.w.E.Runnable(st, n) {
			return true
		}
	}
	return false
}

func (l *loops) waiting(st *State) []string {
	var r []string
	for k := range st.G {
		if strings.HasPrefix(k, "q:") && model.GInt(st, "ran:"+k[2:]) == 0 {
			r = append(r, k[2:])
		}
	}
	if qn, ok := st.G["qn"]; ok && !st.EntailsEQ(l.w.E.Lin(qn).Sub(l.w.E.Lin(st.G["next"]))) {
		r = append(r, "that was queued before")
	}
	sort.Strings(r)
	return r
}

// wakeFd finds the event descriptor that the poller registered.
func (l *loops) wakeFd(st *State) Val {
	for k := range st.G {
		if strings.HasPrefix(k, "eventfd:") {
			if _, ok := st.G["int:"+k[8:]]; ok {
				return IntV{L: At(k[8:])}
			}
		}
	}
	return nil
}

func (l *loops) wait(c *Call) []Out {
	w, st := l.w, c.St
	where := w.Where(c.Instr)
	w.Check(st, st.Thread() == "loop", "C13", "own-goroutine", where, "another goroutine waits for the loop's events")
	if model.GInt(st, "fd:"+w.E.Lin(c.Args[0]).String()) == 2 {
		w.Fail(st, "C13", "closed-in-use", where, "the poller was closed while its loop uses it")
		return []Out{}
	}
	if !w.Check(st, model.GInt(st, "report") != 1 || model.GInt(st, "sclose") == 1, "C15", "delivered", where, "an event that was reported did not reach its handler") {
		return []Out{}
	}
	delete(st.G, "report")
	delete(st.G, "mask")
	model.GSet(st, "polling", 1)
	ms := w.E.Lin(c.Args[2])
	if !ms.IsC() {
		panic(Undecided{Msg: "the time limit of a wait is unknown"})
	}
	woken := model.GInt(st, "woken") > 0
	wfd := l.wakeFd(st)
	if ms.C != 0 && !(woken && wfd != nil) && !l.others(st) {
		// nothing happens from here on but events of sockets
		ts := l.waiting(st)
		if !w.Check(st, len(ts) == 0, "C09,C10", "lost-wake-up", where, "the loop waits for events although the task %s is queued and nobody wakes the loop", strings.Join(ts, ", ")) {
			return []Out{}
		}
		for _, n := range l.stops {
			for _, t := range st.Threads() {
				if t == n && !w.Check(st, false, "C13", "stop-ends", where, "the loop waits for events although it is being stopped: Stop does not return") {
					return []Out{}
				}
			}
		}
	}
	buf, ok := c.Args[1].(SliceV)
	if !ok {
		panic(Undecided{Msg: "a wait with an unknown slice of events"})
	}
	if l.elems != nil {
		if !woken && len(l.waiting(st)) == 0 {
			w.Check(st, true, "C09", "all-run", where, "")
			return []Out{}
		}
		model.GSet(st, "round", model.GInt(st, "round")+1)
	}
	w.Check(st, st.EntailsGE(buf.Len.AddC(-1)), "C15", "room", where, "the loop waits for events without room for one")
	if a, ok := st.Heap[buf.Arr].(ArrV); ok && buf.Off.Eq(Lin{}) {
		a.P = []Piece{{Hi: a.Len, S: Seg{Tok: "?", Hi: a.Len}}}
		st.Heap[buf.Arr] = a
	} else {
		w.E.WriteSlice(st, buf, []Seg{{Tok: "?", Hi: buf.Len}})
	}
	var outs []Out
	if l.rounds != nil {
		for _, r := range l.rounds(c, buf) {
			w.E.WriteSlice(r.st, SliceV{Arr: buf.Arr, Off: buf.Off, Len: r.n, Cap: r.n}, r.segs)
			r.st.Note("%s: the wait gives %s", w.E.Pos(c.Instr), r.note)
			outs = append(outs, Out{St: r.st, Res: []Val{IntV{L: r.n}, NilV{}}})
		}
	}
	none := func(n int64, err Val, note string) {
		t := st.Clone()
		t.Note("%s: the wait %s", w.E.Pos(c.Instr), note)
		outs = append(outs, Out{St: t, Res: []Val{cst(n), err}})
	}
	if ms.C >= 0 {
		none(0, NilV{}, "times out")
	}
	if l.elems == nil { // explored elsewhere
		none(-1, IfaceV{T: w.Errno, V: cst(4)}, "is interrupted")
	}
	var lists [][]Val
	if l.events != nil {
		lists = l.events(st)
	}
	wake := func() Val { return l.event(cst(1), wfd) }
	if woken && wfd != nil {
		for _, x := range lists {
			lists = append(lists, append(append([]Val(nil), x...), wake()), append([]Val{wake()}, x...))
		}
		lists = append(lists, []Val{wake()})
	}
	for _, x := range lists {
		t := st.Clone()
		n := C(int64(len(x)))
		if !t.Assume(LE(n, buf.Len)) {
			continue
		}
		var ss []Seg
		for _, v := range x {
			ss = append(ss, Seg{V: v, Hi: C(1)})
		}
		w.E.WriteSlice(t, SliceV{Arr: buf.Arr, Off: buf.Off, Len: n, Cap: n}, ss)
		names := []string{}
		for _, v := range x {
			fd := v.(StructV)
			if strings.Contains(Key(fd), "<FD>") {
				model.GSet(t, "report", 1)
				names = append(names, "an event of the socket")
			} else {
				names = append(names, "the wake-up")
			}
		}
		t.Note("%s: the wait gives %s", w.E.Pos(c.Instr), strings.Join(names, ", "))
		outs = append(outs, Out{St: t, Res: []Val{IntV{L: n}, NilV{}}})
	}
	return outs
}

// socketEvent: the kernel may report the socket as long as it is registered.
func (l *loops) socketEvent(st *State) [][]Val {
	if _, ok := st.G["int:"+sockFd]; !ok {
		return nil
	}
	return [][]Val{{l.event(cst(1), IntV{L: At(sockFd)})}}
}

// ---- the analyses ----

// start makes the loop goroutine and gives it the other goroutines.
func (l *loops) start(st *State) *State {
	w := l.w
	s := st.Clone()
	w.E.Spawn(s, "loop", FuncV{Fn: w.Fn(model.Loop, "EventLoop.Run")}, []Val{l.loop})
	q := FuncV{Fn: w.Fn(model.Loop, "EventLoop.QueueInLoop")}
	stop := FuncV{Fn: w.Fn(model.Loop, "EventLoop.Stop")}
	w.E.Env = func(s *State) []*State {
		l.stale(s)
		var r []*State
		alive := map[string]bool{}
		for _, n := range s.Threads() {
			alive[n] = true
		}
		for _, n := range l.slots {
			if alive[n] || model.GInt(s, "q:"+n) != 0 {
				continue
			}
			if !alive["loop"] {
				break
			}
			t := s.Clone()
			l.queuedBy(t, n)
			w.E.Spawn(t, n, q, []Val{l.loop, l.fn(n)})
			r = append(r, t)
			break // the others are alike
		}
		if model.GInt(s, "polling") == 1 {
			for _, n := range l.stops {
				if alive[n] || model.GInt(s, "stop:"+n) != 0 {
					continue
				}
				t := s.Clone()
				model.GSet(t, "stop:"+n, 1)
				var before []Val
				for _, x := range l.waiting(t) {
					if model.GInt(t, "q:"+x) == 2 {
						before = append(before, ConstStr(x))
					}
				}
				if before != nil && t.G["before:stop"] == nil && model.GInt(t, "stopping") == 0 {
					t.G["before:stop"] = ListV{V: before}
				}
				model.GSet(t, "stopping", 1)
				t.Note("%s calls Stop", n)
				w.E.Spawn(t, n, stop, []Val{l.loop})
				r = append(r, t)
				break
			}
		}
		return r
	}
	w.E.OnThreadEnd = func(s *State, res []Val) { l.ended(s, res) }
	w.E.OnDeadlock = func(s *State) {
		if len(s.Threads()) > 0 {
			w.Fail(s, "C09,C13", "deadlock", w.Where(w.Fn(model.Loop, "EventLoop.Run").Blocks[0].Instrs[0]), "the goroutines %s wait for each other for ever", strings.Join(s.Threads(), ", "))
		}
	}
	return s
}

func (l *loops) queuedBy(st *State, n string) {
	l.queued(st, n)
}

// stale forgets the elements of task queues that no slice shows. They must not
// be run any more; when one is, it is an unknown function.
func (l *loops) stale(st *State) {
	live := map[string][]SliceV{}
	see := func(v Val) {
		EachVal(v, func(x Val) {
			if sl, ok := x.(SliceV); ok && sl.Arr != "" {
				live[sl.Arr] = append(live[sl.Arr], sl)
			}
		})
	}
	for _, v := range st.Heap {
		see(v)
	}
	for _, f := range st.Frames {
		for _, v := range f.Env {
			see(v)
		}
	}
	for cell, v := range st.Heap {
		a, ok := v.(ArrV)
		if !ok || !a.Len.IsC() || strings.HasPrefix(cell, "glob:") {
			continue
		}
		if _, fn := a.Elem.Underlying().(*types.Signature); !fn {
			continue
		}
		lo, hi := a.Len.C, int64(0)
		exact := true
		for _, s := range live[cell] {
			if !s.Off.IsC() || !s.Len.IsC() {
				exact = false
				break
			}
			if s.Len.C == 0 {
				continue
			}
			if s.Off.C < lo {
				lo = s.Off.C
			}
			if s.Off.C+s.Len.C > hi {
				hi = s.Off.C + s.Len.C
			}
		}
		if !exact {
			continue
		}
		if lo > hi {
			lo, hi = 0, 0
		}
		if lo > 0 {
			a = a.Write(st, Lin{}, C(lo), []Seg{{Tok: "?", Hi: C(lo)}})
		}
		if hi < a.Len.C {
			a = a.Write(st, C(hi), a.Len, []Seg{{Tok: "?", Hi: C(a.Len.C - hi)}})
		}
		st.Heap[cell] = a
	}
}

// ended: a goroutine has returned.
func (l *loops) ended(st *State, res []Val) {
	w := l.w
	th := st.Ended
	where := "EventLoop.Run"
	switch {
	case th == "loop":
		if !w.Check(st, model.GInt(st, "stopping") == 1, "C09,C13", "keeps-running", where, "the loop ends although nobody stopped it") {
			return
		}
		w.Check(st, len(model.GList(st, "before:stop")) == 0, "C09,C14", "tasks-before-stop", where, "a task that was queued before the loop was stopped is not run")
		w.Check(st, model.GInt(st, "sclose") == 1 && (!l.second || model.GInt(st, "sclose2") == 1), "C14", "sockets-closed", where, "an open socket is not closed when the loop stops")
		w.Check(st, model.GInt(st, "q:<C>") == 0, "C14", "close-completed", where, "the task with which a connection closes itself is not run before the loop ends")
		st.Note("the loop ends")
		model.GSet(st, "loopended", 1)
	case strings.HasPrefix(th, "<T"):
		l.queueDone(st, th)
	case strings.HasPrefix(th, "stop"):
		st.Note("%s returns from Stop", th)
		if isNilErr(res[0]) {
			w.Check(st, model.GInt(st, "loopended") == 1, "C13", "stop-waits", "EventLoop.Stop", "Stop returns before the loop has ended")
			for _, v := range model.GList(st, "fds") {
				w.Check(st, model.GInt(st, "fd:"+w.E.Lin(v).String()) == 2, "C13,C14", "poller-released", "EventLoop.Stop", "Stop leaves a descriptor of the poller open")
			}
		}
	}
}

// run explores every order of the operations of the loop and its users.
func (l *loops) run(st *State) []*State {
	s := l.start(st)
	ends := l.w.E.RunAll(l.w.E.Schedule(s))
	l.lockset()
	return ends
}

// two: two goroutines queue tasks again and again.
func (l *loops) two(st *State) {
	l.slots = []string{"<T1>", "<T2>"}
	l.run(st)
}

// own: a goroutine, tasks and the socket's handler queue tasks.
func (l *loops) own(st *State) {
	l.slots = []string{"<T1>"}
	l.self = true
	l.events = l.socketEvent
	l.run(st)
}

func (l *loops) stopping(st *State) {
	ends := l.run(st)
	l.w.Check(nil, len(ends) > 0, "C13", "loop-ends", "EventLoop.Stop", "no order of events ends the loop")
}

// stopTasks: the loop is stopped while another goroutine queues tasks.
func (l *loops) stopTasks(st *State) {
	l.slots = []string{"<T1>"}
	l.stops = []string{"stop1"}
	l.stopping(st)
}

// stopTwice: two goroutines stop the loop.
func (l *loops) stopTwice(st *State) {
	l.stops = []string{"stop1", "stop2"}
	l.stopping(st)
}

// stopTwo: the loop has two sockets, each of which may fail to close.
func (l *loops) stopTwo(st *State) {
	w, e := l.w, l.w.E
	l.second = true
	l.stops = []string{"stop1"}
	for _, n := range []string{"<FD2>", "<SOCKET2>"} {
		e.Pinned[n] = true
		st.Names[n] = true
		st.Bool["nil("+n+")"] = false
	}
	fd := At("nn(<FD2>)")
	model.GSet(st, "fd:"+fd.String(), 1)
	st.Assume(EQ(fd, At(sockFd)).Not())
	for _, v := range model.GList(st, "fds") {
		st.Assume(EQ(fd, e.Lin(v)).Not())
	}
	var ends []*State
	for _, s := range call(w, st, w.Fn(model.Loop, "EventLoop.AddSocketAndEnableRead"), l.loop, IntV{L: fd}, OpqV{N: "<SOCKET2>", T: w.Type(model.Loop, "Socket")}) {
		if isNilErr(s.Res[0]) {
			s.Res, s.Trail = nil, nil
			ends = append(ends, l.run(s)...)
		}
	}
	w.Check(nil, len(ends) > 0, "C13", "loop-ends", "EventLoop.Stop", "no order of events ends the loop")
}

// stopEvents: the loop is stopped while its socket has events.
func (l *loops) stopEvents(st *State) {
	l.stops = []string{"stop1"}
	l.events = l.socketEvent
	l.stopping(st)
}

// long: a round with any number of queued tasks.
func (l *loops) long(st *State) {
	w, e := l.w, l.w.E
	e.Unroll, e.Shapes = 3, 60
	e.Counters = map[string]bool{"next": true}
	l.self = true
	l.elems = map[string]Lin{}
	e.OnElem = func(s *State, tok string, i Lin, v Val) Val {
		if o, ok := v.(OpqV); ok && tok == "<Q>" {
			l.elems[o.N] = i
		}
		return nil
	}
	e.Pinned["<Q>"], e.Pinned["<N>"], e.Pinned["<CAP>"] = true, true, true
	q := w.Fn(model.Loop, "EventLoop.QueueInLoop")
	var done []*State
	for _, s := range call(w, st, q, l.loop, l.fn("<T1>")) {
		// the slice that holds the task is the queue
		var cells []string
		for c, v := range s.Heap {
			sl, ok := v.(SliceV)
			if !ok || sl.Arr == "" {
				continue
			}
			for _, x := range e.ReadSlice(s, sl) {
				if x.V != nil && strings.Contains(Key(x.V), "<T1>") {
					cells = append(cells, c)
				}
			}
		}
		if len(cells) != 1 {
			continue // another kind of queue: explored task by task
		}
		s.Res, s.Trail = nil, nil
		sl := s.Heap[cells[0]].(SliceV)
		a := s.Heap[sl.Arr].(ArrV)
		n, c := At("nn(<N>)"), At("nn(<CAP>)")
		s.Names["<N>"], s.Names["<CAP>"], s.Names["<Q>"] = true, true, true
		s.Assume(LE(n.AddC(1), c))
		s.Heap["new:<Q>"] = ArrV{Len: c, Elem: a.Elem, P: []Piece{
			{Lo: Lin{}, Hi: n, S: Seg{Tok: "<Q>", Hi: n}},
			{Lo: n, Hi: n.AddC(1), S: Seg{V: l.fn("<T1>"), Hi: C(1)}},
			{Lo: n.AddC(1), Hi: c, S: Seg{Tok: "?", Hi: c.Sub(n).AddC(-1)}},
		}}
		s.Heap[cells[0]] = SliceV{Arr: "new:<Q>", Len: n.AddC(1), Cap: c}
		s.G["qn"], s.G["next"] = IntV{L: n}, IntV{}
		l.queued(s, "<T1>")
		l.queueDone(s, "<T1>")
		l.queued(s, "<T2>")
		for _, t := range call(w, s, q, l.loop, l.fn("<T2>")) {
			l.queueDone(t, "<T2>")
			done = append(done, t)
		}
	}
	var ss []*State
	e.SplitElems = true
	for _, s := range done {
		s.Res = nil
		ss = append(ss, e.Schedule(l.start(s))...)
	}
	e.RunAll(ss)
}

// many: rounds with any number of events.
func (l *loops) many(st *State) {
	w, e := l.w, l.w.E
	e.Unroll, e.Shapes = 3, 60
	e.SplitElems = true
	fd := At(sockFd)
	other := At("nn(<OTHER>)")
	keep(st, "other", IntV{L: other})
	st.Assume(EQ(other, fd).Not())
	for _, d := range model.GList(st, "fds") {
		st.Assume(EQ(other, e.Lin(d)).Not())
	}
	e.OnElem = func(s *State, tok string, i Lin, v Val) Val {
		if strings.HasPrefix(tok, "<E") {
			return l.event(cst(1), IntV{L: other})
		}
		return nil
	}
	for _, n := range []string{"<MASK>", "<OTHER>", "<EA>", "<EB>", "<EC>"} {
		e.Pinned[n] = true
	}
	mask := IntV{L: At("u32(<MASK>)")}
	l.rounds = func(c *Call, buf SliceV) []report {
		st := c.St
		at := func(n string) Lin { return At("nn(" + st.Fresh(c.Site+"."+n) + ")") }
		n, j, k := at("N"), at("J"), at("K")
		ev := Seg{V: l.event(mask, IntV{L: fd}), Hi: C(1)}
		var r []report
		add := func(note string, has, wake bool, segs []Seg, cs ...Cond) {
			s := st.Clone()
			s.Names["<MASK>"] = true
			for _, c := range append(cs, LE(C(1), n), LE(n, buf.Len)) {
				if !s.Assume(c) {
					return
				}
			}
			if has {
				model.GSet(s, "report", 1)
				s.G["mask"] = mask
			}
			r = append(r, report{s, n, segs, note})
		}
		from := func(tok string, lo, hi Lin) Seg { return Seg{Tok: tok, Hi: hi.Sub(lo)} }
		add("events of other descriptors", false, false, []Seg{from("<EA>", Lin{}, n)})
		add("an event of the socket among others", true, false, []Seg{from("<EA>", Lin{}, j), ev, from("<EB>", j.AddC(1), n)}, LE(j.AddC(1), n))
		if wfd := l.wakeFd(st); wfd != nil && model.GInt(st, "woken") > 0 {
			wk := Seg{V: l.event(cst(1), wfd), Hi: C(1)}
			add("a wake-up among others", false, true, []Seg{from("<EA>", Lin{}, k), wk, from("<EB>", k.AddC(1), n)}, LE(k.AddC(1), n))
			add("the wake-up and an event of the socket among others", true, true, []Seg{from("<EA>", Lin{}, k), wk, from("<EB>", k.AddC(1), j), ev, from("<EC>", j.AddC(1), n)}, LE(k.AddC(1), j), LE(j.AddC(1), n))
			add("an event of the socket and the wake-up among others", true, true, []Seg{from("<EA>", Lin{}, j), ev, from("<EB>", j.AddC(1), k), wk, from("<EC>", k.AddC(1), n)}, LE(j.AddC(1), k), LE(k.AddC(1), n))
		}
		return r
	}
	var ss []*State
	for _, s := range call(w, st, w.Fn(model.Loop, "EventLoop.QueueInLoop"), l.loop, l.fn("<T1>")) {
		l.queued(s, "<T1>")
		l.queueDone(s, "<T1>")
		s.Res, s.Trail = nil, nil
		ss = append(ss, e.Schedule(l.start(s))...)
	}
	e.RunAll(ss)
}

// lockset: what the loop shares with other goroutines is under a lock.
func (l *loops) lockset() {
	x := life{w: l.w, accs: l.accs}
	x.racesAs("C07,C09,C10", "the event loop", "lockset")
}

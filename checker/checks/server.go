package checks

import (
	"fmt"
	"os"
	"sort"
	"strings"

	. "gevcheck/absint"
	"gevcheck/model"

	"golang.org/x/tools/go/ssa"
)

// server analyses Start and Stop with every order of the operations of the
// goroutines involved. The event loops are replaced by what the analyses of
// one event loop establish: Run runs the queued tasks in order and returns
// after a Stop that began while it polled; such a Stop waits for that; any
// other Stop gives an error and does nothing.
type server struct {
	w      *model.World
	srv    Val
	loops  []string // cells of the event loops that may run
	accept string   // the one that has the listening descriptor
	stops  []string
	cells  map[string]bool
	accs   map[string]map[string]acc
}

const elType = "(*" + model.Loop + ".EventLoop)."

func newServer(p *Program, loops int64) (*server, *State) {
	f, st := newFlow(p)
	w := f.w
	e := w.E
	e.Debug = os.Getenv("GEVDEBUG") != ""
	s := &server{w: w, accs: map[string]map[string]acc{}, stops: []string{"stop1", "stop2"}}
	h := OpqV{N: "<handler>", T: w.Type(model.Gev, "Handler")}
	st.Bool["nil(<handler>)"] = false
	var opts []Val
	set := f.settings()[3]
	set.arg = func(*State) Val { return cst(loops) }
	st, opts, _ = f.options(st, []setting{set})
	ot := w.Type(model.Gev, "Option")
	st.Heap["new:<options>"] = ArrV{Len: C(1), Elem: ot}.Write(st, Lin{}, C(1), []Seg{{V: opts[0], Hi: C(1)}})
	var srv *State
	for _, t := range call(w, st, w.Fn(model.Gev, "NewServer"), h, SliceV{Arr: "new:<options>", Len: C(1), Cap: C(1)}) {
		if isNilErr(t.Res[1]) && !isNilPtr(t.Res[0]) {
			srv = t
		}
	}
	if srv == nil {
		panic(Undecided{Msg: "no server can be built"})
	}
	st = srv
	s.srv = st.Res[0]
	keep(st, "server", s.srv)
	st.Res, st.Trail = nil, nil
	lfd, ok := st.G["lfd"].(IntV)
	if !ok {
		panic(Undecided{Msg: "the listening descriptor is unknown"})
	}
	keep(st, "lfd", lfd)
	for c, v := range st.Heap {
		if m, ok := v.(MapC); ok {
			for _, k := range m.Keys {
				if isInt(k) && e.Lin(k).Eq(lfd.L) {
					s.accept = s.ownerOf(st, c)
				}
			}
		}
	}
	return s, st
}

// ownerOf finds the event loop whose memory refers to the object at a cell.
func (s *server) ownerOf(st *State, cell string) string {
	for c, v := range st.Heap {
		if Key(v) == "&"+cell {
			return CellRoot(c)
		}
	}
	return ""
}

func (s *server) threads(st *State) {
	w, e := s.w, s.w.E
	in := e.Intr
	e.Unroll = 50
	e.MaxStates = 300000
	e.Sync = map[string]Sync{}
	for n := range in {
		if strings.Contains(n, "/atomic.") && !strings.HasSuffix(n, ".New") {
			e.Sync[n] = nil
		}
		if strings.HasSuffix(n, ".Lock") || strings.HasSuffix(n, ".RLock") {
			e.Sync[n] = func(c *Call) bool {
				p, ok := c.Args[0].(PtrV)
				return !ok || model.GInt(c.St, "lock:"+p.Cell) == 0
			}
		}
	}
	w.LockHook = func(st *State, lock string, acq, read bool, c *Call) {
		if acq {
			st.G["own:"+lock] = ConstStr(st.Thread())
		} else {
			delete(st.G, "own:"+lock)
		}
	}
	cell := func(c *Call) string {
		if p, ok := c.Args[0].(PtrV); ok && p.Cell != "" {
			return p.Cell
		}
		panic(Undecided{Msg: "an operation of a goroutine on an unknown object"})
	}
	op := func(name string, ready Sync, f Intrinsic) {
		in[name] = f
		e.Sync[name] = ready
	}
	// event loops
	op(elType+"Run", func(c *Call) bool {
		l := cell(c)
		return model.GInt(c.St, "poll:"+l) == 0 || len(model.GList(c.St, "tasks:"+l)) > 0 || model.GInt(c.St, "stopreq:"+l) == 1
	}, func(c *Call) []Out {
		l, st := cell(c), c.St
		where := w.Where(c.Instr)
		if model.GInt(st, "poll:"+l) == 0 {
			model.GSet(st, "poll:"+l, 1)
			st.G["runner:"+l] = ConstStr(st.Thread())
			st.Note("%s: the loop %s begins to poll", st.Thread(), s.name(l))
			return []Out{{St: st, Again: true}}
		}
		o, _ := ConstString(st.G["runner:"+l])
		if !w.Check(st, o == st.Thread(), "C13", "own-goroutine", where, "one event loop is run by two goroutines") {
			return []Out{}
		}
		if ts := model.GList(st, "tasks:"+l); len(ts) > 0 {
			if len(ts) == 1 {
				delete(st.G, "tasks:"+l)
			} else {
				st.G["tasks:"+l] = ListV{V: ts[1:]}
			}
			return []Out{{St: st, Then: ts[0], Again: true}}
		}
		model.GSet(st, "poll:"+l, 2)
		delete(st.G, "runner:"+l)
		st.Note("the loop %s ends", s.name(l))
		return []Out{{St: st}}
	})
	op(elType+"QueueInLoop", nil, func(c *Call) []Out {
		l := cell(c)
		if _, ok := c.Args[1].(FuncV); !ok {
			panic(Undecided{Msg: "an unknown task is queued"})
		}
		model.GPush(c.St, "tasks:"+l, c.Args[1])
		return []Out{{St: c.St}}
	})
	op(elType+"Stop", func(c *Call) bool {
		l := cell(c)
		return model.GInt(c.St, "phase:"+c.St.Thread()) == 0 || model.GInt(c.St, "poll:"+l) == 2
	}, func(c *Call) []Out {
		l, st := cell(c), c.St
		where := w.Where(c.Instr)
		ph := "phase:" + st.Thread()
		if model.GInt(st, ph) == 1 {
			delete(st.G, ph)
			return []Out{{St: st, Res: []Val{NilV{}}}}
		}
		if model.GInt(st, "poll:"+l) != 1 || model.GInt(st, "stopreq:"+l) == 1 {
			st.Note("%s: stopping %s, which does not poll, does nothing", st.Thread(), s.name(l))
			return []Out{{St: st, Res: []Val{OpqV{N: "err:<stop>"}}}}
		}
		if l != s.accept && s.accept != "" {
			w.Check(st, model.GInt(st, "poll:"+s.accept) != 1, "C14", "acceptor-first", where, "an event loop is stopped while the listening loop can still hand it connections, which are then never set up or closed")
		}
		model.GSet(st, "stopreq:"+l, 1)
		model.GSet(st, ph, 1)
		s.effect(st)
		st.Note("%s: the loop %s is told to stop", st.Thread(), s.name(l))
		return []Out{{St: st, Again: true}}
	})
	// wait groups, channels, once
	wg := func(c *Call, d Lin) []Out {
		k, st := "wg:"+cell(c), c.St
		l := Lin{}
		if v, ok := st.G[k].(IntV); ok {
			l = v.L
		}
		l = l.Add(d)
		if !w.Check(st, !l.IsC() || l.C >= 0, "C13", "wait-group", w.Where(c.Instr), "the counter of a wait group becomes negative, which panics") {
			return []Out{}
		}
		if l.Eq(Lin{}) {
			delete(st.G, k)
		} else {
			st.G[k] = IntV{L: l}
		}
		return []Out{{St: st}}
	}
	zero := func(c *Call) bool { _, busy := c.St.G["wg:"+cell(c)]; return !busy }
	pass := func(c *Call) []Out { return []Out{{St: c.St}} }
	const sw = "(*sync.WaitGroup)."
	op(sw+"Add", nil, func(c *Call) []Out { return wg(c, e.Lin(c.Args[1])) })
	op(sw+"Done", nil, func(c *Call) []Out { return wg(c, C(-1)) })
	op(sw+"Wait", zero, pass)
	run := func(c *Call, fn Val, args []Val, group string) {
		st := c.St
		if _, ok := fn.(FuncV); !ok {
			panic(Undecided{Msg: "a goroutine with an unknown function"})
		}
		n := model.GInt(st, "gn") + 1
		if n > 12 {
			panic(Undecided{Msg: "too many goroutines"})
		}
		model.GSet(st, "gn", n)
		name := fmt.Sprintf("g%02d", n)
		if group != "" {
			st.G["group:"+name] = ConstStr(group)
		}
		e.Spawn(st, name, fn, args)
	}
	op(sw+"Go", nil, func(c *Call) []Out {
		wg(c, C(1))
		run(c, c.Args[1], nil, "wg:"+cell(c))
		return []Out{{St: c.St}}
	})
	const tw = "(*github.com/Allenxuxu/toolkit/sync.WaitGroupWrapper)."
	op(tw+"AddAndRun", nil, func(c *Call) []Out {
		wg(c, C(1))
		run(c, c.Args[1], nil, "wg:"+cell(c))
		return []Out{{St: c.St}}
	})
	op(tw+"Wait", zero, pass)
	e.OnGo = func(st *State, c *Call) {
		if c.St == nil {
			c.St = st
		}
		run(c, c.Fn, c.Args, "")
	}
	op("(*sync.Once).Do", func(c *Call) bool { return model.GInt(c.St, "once:"+cell(c)) != 1 }, func(c *Call) []Out {
		k := "once:" + cell(c)
		if model.GInt(c.St, k) == 2 {
			return []Out{{St: c.St}}
		}
		model.GSet(c.St, k, 1)
		return []Out{{St: c.St, Then: c.Args[1], After: func(t *State) { model.GSet(t, k, 2) }}}
	})
	e.Sync["receive"] = nil
	op("builtin:close", nil, func(c *Call) []Out {
		k := "chan:" + Key(c.Args[0])
		if !w.Check(c.St, model.GInt(c.St, k) == 0, "C13", "close-once", w.Where(c.Instr), "a channel is closed twice") {
			return []Out{}
		}
		model.GSet(c.St, k, 1)
		return []Out{{St: c.St}}
	})
	e.RecvReady = func(st *State, ch Val) bool { return model.GInt(st, "chan:"+Key(ch)) == 1 }
	const wh = "(*github.com/RussellLuo/timingwheel.TimingWheel)."
	op(wh+"Start", nil, func(c *Call) []Out {
		w.Check(c.St, model.GInt(c.St, "wheelrun") == 0, "C13", "wheel-once", w.Where(c.Instr), "the timing wheel is started twice or after it was stopped")
		model.GSet(c.St, "wheelrun", 1)
		return []Out{{St: c.St}}
	})
	op(wh+"Stop", nil, func(c *Call) []Out {
		if !w.Check(c.St, model.GInt(c.St, "wheelrun") != 2, "C13", "wheel-once", w.Where(c.Instr), "the timing wheel is stopped twice, which panics") {
			return []Out{}
		}
		model.GSet(c.St, "wheelrun", 2)
		s.effect(c.St)
		return []Out{{St: c.St}}
	})
	e.OnPanic = func(t *State, in ssa.Instruction, why string) {
		w.Fail(t, "C13", "panic", w.Where(in), "starting or stopping the server can panic: %s", why)
	}
	s.cells = map[string]bool{}
	for c, v := range st.Heap {
		if _, arr := v.(ArrV); !arr && !strings.HasPrefix(c, "glob:") {
			s.cells[c] = true
		}
	}
	e.OnAccess = func(t *State, cell string, write bool, in ssa.Instruction) { s.access(t, cell, write, false, in) }
	w.AtomicHook = func(t *State, cell, op string, c *Call) { s.access(t, cell, op != "load", true, c.Instr) }
}

func (s *server) access(st *State, cell string, write, atomic bool, in ssa.Instruction) {
	th := st.Thread()
	if th == "" || in == nil || !s.cells[cell] {
		return
	}
	if strings.HasPrefix(th, "stop") {
		th = "any"
	}
	var locks []string
	for k, v := range st.G {
		if strings.HasPrefix(k, "lock:") {
			if o, ok := ConstString(st.G["own:"+k[5:]]); ok && o == st.Thread() {
				locks = append(locks, k[5:]+"="+Key(v))
			}
		}
		if strings.HasPrefix(k, "once:") && model.GInt(st, k) == 1 {
			locks = append(locks, k+"=1")
		}
	}
	sort.Strings(locks)
	a := acc{thread: th, write: write, atomic: atomic, locks: strings.Join(locks, ","), where: s.w.Where(in)}
	m := s.accs[cell]
	if m == nil {
		m = map[string]acc{}
		s.accs[cell] = m
	}
	m[fmt.Sprintf("%s%s%s%v", a.thread, a.where, a.locks, write)] = a
}

func (s *server) name(l string) string {
	if l == s.accept {
		return "that listens"
	}
	return "of connections"
}

// effect: Stop does something.
func (s *server) effect(st *State) {
	w := s.w
	th := st.Thread()
	where := "Server.Stop"
	if strings.HasPrefix(th, "stop") {
		o, ok := ConstString(st.G["effect"])
		w.Check(st, !ok || o == th, "C13", "once", where, "two calls of Stop take effect")
		st.G["effect"] = ConstStr(th)
		polled := false
		for k := range st.G {
			polled = polled || strings.HasPrefix(k, "poll:")
		}
		w.Check(st, polled, "C13", "nothing-before", where, "Stop has an effect on a server that has not started")
	}
}

// running: every loop of the server polls and Start does nothing but wait.
func (s *server) running(st *State) bool {
	alive := false
	for _, t := range st.Threads() {
		if t == "start" {
			alive = true
		}
		if s.w.E.Runnable(st, t) {
			return false
		}
	}
	return alive
}

func (s *server) run(st *State) {
	w, e := s.w, s.w.E
	s.threads(st)
	stop := FuncV{Fn: w.Fn(model.Gev, "Server.Stop")}
	t := st.Clone()
	e.Spawn(t, "start", FuncV{Fn: w.Fn(model.Gev, "Server.Start")}, []Val{s.srv})
	e.Env = func(st *State) []*State {
		alive := map[string]bool{}
		for _, n := range st.Threads() {
			alive[n] = true
		}
		for _, n := range s.stops {
			if alive[n] || model.GInt(st, "called:"+n) != 0 {
				continue
			}
			t := st.Clone()
			model.GSet(t, "called:"+n, 1)
			if _, done := t.G["effect"]; !done && s.running(t) {
				model.GSet(t, "must", 1)
			}
			t.Note("%s calls Stop", n)
			e.Spawn(t, n, stop, []Val{s.srv})
			return []*State{t}
		}
		return nil
	}
	e.OnThreadEnd = func(st *State, res []Val) {
		th := st.Ended
		if g, ok := ConstString(st.G["group:"+th]); ok {
			delete(st.G, "group:"+th)
			if v, ok := st.G[g].(IntV); ok {
				if l := v.L.AddC(-1); l.Eq(Lin{}) {
					delete(st.G, g)
				} else {
					st.G[g] = IntV{L: l}
				}
			}
		}
		_, done := st.G["effect"]
		switch {
		case th == "start":
			st.Note("Start returns")
			w.Check(st, done, "C13", "start-blocks", "Server.Start", "Start returns although nobody stopped the server")
			if done {
				for k := range st.G {
					if strings.HasPrefix(k, "poll:") {
						w.Check(st, model.GInt(st, k) == 2, "C13,C14", "all-ended", "Server.Start", "Start returns while an event loop polls")
					}
				}
			}
		case strings.HasPrefix(th, "stop"):
			st.Note("%s returns from Stop", th)
			for _, n := range st.Threads() {
				done = done || strings.HasPrefix(n, "stop") // it is at work
			}
			w.Check(st, done || model.GInt(st, "must") == 0, "C13", "effective", "Server.Stop", "Stop of a running server does nothing")
		}
	}
	idle := 0
	e.OnDeadlock = func(st *State) {
		ths := st.Threads()
		_, done := st.G["effect"]
		if len(ths) == 0 {
			return
		}
		for _, n := range ths {
			if strings.HasPrefix(n, "stop") {
				w.Fail(st, "C13", "stop-returns", "Server.Stop", "Stop does not return: the goroutines %s wait for each other for ever", strings.Join(ths, ", "))
				return
			}
		}
		if done {
			w.Fail(st, "C13", "start-returns", "Server.Start", "Start does not return after the server was stopped: the goroutines %s wait for ever", strings.Join(ths, ", "))
			return
		}
		idle++
		for k := range st.G {
			if strings.HasPrefix(k, "tasks:") {
				w.Fail(st, "C13", "start-begins", "Server.Start", "an event loop never runs a queued task")
			}
		}
	}
	stopped := len(e.RunAll(e.Schedule(t)))
	w.Check(nil, idle > 0, "C13", "start-begins", "Server.Start", "the server never comes to serve")
	w.Check(nil, stopped > 0, "C13", "stop-returns", "Server.Stop", "no order of events stops the server")
	x := life{w: w, accs: s.accs}
	x.racesAs("C13", "the server", "lockset")
}

// closing: what the loop that accepts closes when it is stopped releases
// every descriptor of the listening socket.
func (s *server) closing(st *State) {
	w, e := s.w, s.w.E
	lfd := st.G["keep:lfd"]
	var sock Val
	for _, v := range st.Heap {
		if m, ok := v.(MapC); ok {
			for i, k := range m.Keys {
				if isInt(k) && e.Lin(k).Eq(e.Lin(lfd)) {
					sock = m.Vals[i]
				}
			}
		}
	}
	i, ok := sock.(IfaceV)
	if !w.Check(st, ok, "C14", "listener-closed", "NewServer", "no event loop has the listening descriptor among the sockets that it closes") {
		return
	}
	fn := e.Prog.LookupMethod(i.T, w.E.Prog.ImportedPackage(model.Loop).Pkg, "Close")
	if fn == nil {
		panic(Undecided{Msg: "the listener has no Close"})
	}
	outs := call(w, st, fn, i.V)
	w.Check(st, len(outs) > 0, "C14", "listener-closed", w.Where(fn.Blocks[0].Instrs[0]), "closing the listener does not return")
	for _, t := range outs {
		for _, r := range model.GList(t, "resources") {
			c := r.(PtrV).Cell
			w.Check(t, model.GInt(t, "res:"+c) == 2, "C14", "listener-closed", w.Where(fn.Blocks[0].Instrs[0]), "after the listener was closed %s stays open", resName(c))
		}
	}
}

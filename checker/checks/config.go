package checks

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	. "gevcheck/absint"
	"gevcheck/model"

	"golang.org/x/tools/go/ssa"
)

// flow is a server built with real options.
type flow struct {
	w *model.World
	l *life
	t types.Type // Options
	// cpus is the number of CPUs
	cpus int64
}

func newFlow(p *Program) (*flow, *State) {
	w, st := newWorld(p, model.Gev, model.Loop, model.Poll)
	l := bareLife(p, w, false)
	delete(w.E.Intr, "func:"+model.Gev+".Option")
	w.E.OnAccess, w.AtomicHook, w.FdHook = nil, nil, nil
	l.quietLife()
	f := &flow{w: w, l: l, t: w.Type(model.Gev, "Options"), cpus: 2}
	w.E.Unroll = 8
	w.E.Intr["runtime.NumCPU"] = func(c *Call) []Out { return []Out{{St: c.St, Res: []Val{cst(f.cpus)}}} }
	old := w.User
	w.User = func(c *Call, kind string) []Out {
		if fn, ok := c.Fn.(OpqV); ok && fn.N == "<F>" {
			model.GSet(c.St, "ran", model.GInt(c.St, "ran")+1)
			return []Out{{St: c.St}}
		}
		if strings.HasSuffix(kind, ".LoadBalanceStrategy") {
			c.St.G["asked"] = c.Fn
			if sl, ok := c.Args[0].(SliceV); ok {
				c.St.G["candidates"] = IntV{L: sl.Len}
				v := w.E.ElemOf(c.St, w.E.ReadSlice(c.St, sl), C(0), c.Sig.Params().At(0).Type().Underlying().(*types.Slice).Elem())
				return []Out{{St: c.St, Res: []Val{v}}}
			}
		}
		return old(c, kind)
	}
	return f, st
}

// quietLife: the monitors of the connection's life do not report here.
func (l *life) quietLife() { l.thread = "setup" }

func keep(st *State, k string, v Val) { st.G["keep:"+k] = v }

// field gives a field of a struct value.
func (f *flow) field(st *State, v Val, t types.Type, name string) Val {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			if sv, ok := v.(StructV); ok {
				return sv.F[i]
			}
		}
	}
	panic(Undecided{Msg: "no field " + name})
}

// setting is one exported option with an unknown argument.
type setting struct {
	fn, field string
	arg       func(st *State) Val
}

func (f *flow) settings() []setting {
	w := f.w
	str := func(n string) func(st *State) Val {
		return func(st *State) Val {
			ln := At("len(" + n + ")")
			st.Assume(GE(ln.AddC(-1)))
			st.Names[n] = true
			return StrV{S: []Seg{{Tok: n, Hi: ln}}}
		}
	}
	opq := func(n, t string) func(st *State) Val {
		return func(st *State) Val {
			st.Bool["nil("+n+")"] = false
			st.Names[n] = true
			return OpqV{N: n, T: w.Type(model.Gev, t)}
		}
	}
	return []setting{
		{"ReusePort", "ReusePort", func(st *State) Val { return BoolV{C: Atom("t(<reuse>)")} }},
		{"Network", "Network", str("<network>")},
		{"Address", "Address", str("<address>")},
		{"NumLoops", "NumLoops", func(st *State) Val { return cst(4) }},
		{"CustomProtocol", "Protocol", opq("<protocol>", "Protocol")},
		{"IdleTime", "IdleTime", func(st *State) Val { return IntV{L: At("pos(<idle>)")} }},
		{"LoadBalance", "Strategy", opq("<strategy>", "LoadBalanceStrategy")},
	}
}

// options builds the list of option values.
func (f *flow) options(st *State, ss []setting) (*State, []Val, []Val) {
	var vals, args []Val
	for i, s := range ss {
		a := s.arg(st)
		args = append(args, a)
		keep(st, fmt.Sprintf("arg%d", i), a)
		outs := call(f.w, st, f.w.Fn(model.Gev, s.fn), a)
		if len(outs) != 1 {
			panic(Undecided{Msg: "the option " + s.fn + " has several outcomes"})
		}
		st = outs[0]
		vals = append(vals, st.Res[0])
		keep(st, fmt.Sprintf("opt%d", i), st.Res[0])
	}
	return st, vals, args
}

// frame: every option changes its own setting and nothing else.
func (f *flow) frame(st0 *State) {
	w := f.w
	st := f.t.Underlying().(*types.Struct)
	for _, s := range append(f.settings(), setting{fn: "MetricsServer"}) {
		where := "option " + s.fn
		var u *State
		var opt Val
		var args []Val
		var own map[string]Val
		base := st0.Clone()
		if s.fn == "MetricsServer" {
			a := f.settings()[1].arg(base)
			b := f.settings()[2].arg(base)
			keep(base, "a", a)
			keep(base, "b", b)
			outs := call(w, base, w.Fn(model.Gev, s.fn), a, b)
			if len(outs) != 1 {
				panic(Undecided{Msg: "the option " + s.fn + " has several outcomes"})
			}
			u = outs[0]
			opt = u.Res[0]
			own = map[string]Val{}
		} else {
			var os []Val
			u, os, args = f.options(base, []setting{s})
			opt = os[0]
			own = map[string]Val{s.field: args[0]}
		}
		before := map[string]Val{}
		for i := 0; i < st.NumFields(); i++ {
			fl := st.Field(i)
			v := w.E.OpaqueNamed(u, "<old."+fl.Name()+">", fl.Type())
			before[fl.Name()] = v
			w.E.Store(u, PtrV{Cell: "new:<opts>/" + fl.Name()}, v, fl.Type(), nil)
		}
		keep(u, "opts", PtrV{Cell: "new:<opts>"})
		for _, t := range callVal(w, u, opt, PtrV{Cell: "new:<opts>"}) {
			for i := 0; i < st.NumFields(); i++ {
				fl := st.Field(i)
				v, _ := w.E.Load(t, PtrV{Cell: "new:<opts>/" + fl.Name()}, fl.Type(), nil)
				want := before[fl.Name()]
				if x, ok := own[fl.Name()]; ok {
					want = x
				}
				if s.fn == "MetricsServer" && strings.HasPrefix(fl.Name(), "metrics") {
					continue
				}
				ok := Key(v) == Key(want) || t.Decide(w.E.Equal(t, v, want, fl.Type())) == 1
				if _, mine := own[fl.Name()]; mine {
					w.Check(t, ok, "C19", "option-sets", where, "%s gives the setting %s the value %s instead of its argument", s.fn, fl.Name(), Key(v))
				} else {
					w.Check(t, ok, "C19", "option-frame", where, "%s changes the setting %s, which is not its own", s.fn, fl.Name())
				}
			}
		}
	}
}

// build runs NewServer with the options and checks the outcome.
func (f *flow) build(st0 *State, ss []setting, deep bool) {
	w := f.w
	var names []string
	set := map[string]Val{}
	st, opts, args := f.options(st0.Clone(), ss)
	for i, s := range ss {
		names = append(names, s.fn)
		set[s.field] = args[i]
	}
	where := "NewServer with " + strings.Join(names, ", ")
	if len(names) == 0 {
		where = "NewServer without options"
	}
	h := OpqV{N: "<handler>", T: w.Type(model.Gev, "Handler")}
	st.Bool["nil(<handler>)"] = false
	ot := w.Type(model.Gev, "Option")
	var segs []Seg
	for _, o := range opts {
		segs = append(segs, Seg{V: o, Hi: C(1)})
	}
	n := C(int64(len(opts)))
	list := SliceV{}
	if len(opts) > 0 {
		st.Heap["new:<options>"] = ArrV{Len: n, Elem: ot}.Write(st, Lin{}, n, segs)
		list = SliceV{Arr: "new:<options>", Len: n, Cap: n}
	}
	var srv *State
	for _, t := range call(w, st, w.Fn(model.Gev, "NewServer"), h, list) {
		f.outcome(t, where)
		if isNilErr(t.Res[1]) && !isNilPtr(t.Res[0]) {
			srv = t
			f.settled(t, set, where)
		}
	}
	if !w.Check(st, srv != nil, "C19", "builds", where, "no server can be built") || !deep {
		return
	}
	f.effects(srv, set, where)
}

// outcome: C20.
func (f *flow) outcome(t *State, where string) {
	w := f.w
	failed := !isNilErr(t.Res[1])
	if !w.Check(t, failed == isNilPtr(t.Res[0]), "C20", "server-or-error", where, "NewServer gives the server %s together with the error %s", Key(t.Res[0]), Key(t.Res[1])) {
		return
	}
	if failed {
		for _, r := range model.GList(t, "resources") {
			c := r.(PtrV).Cell
			w.Check(t, model.GInt(t, "res:"+c) == 2, "C20", "released", where, "construction fails but %s of the listening socket stays open", resName(c))
		}
		if len(model.GList(t, "resources")) > 0 {
			w.Count("C20", "failure-after-listen")
		} else {
			w.Count("C20", "failure-before-listen")
		}
	} else {
		for _, r := range model.GList(t, "resources") {
			c := r.(PtrV).Cell
			w.Check(t, model.GInt(t, "res:"+c) == 1, "C20", "open", where, "the server is built but %s is closed", resName(c))
		}
		w.Check(t, len(model.GList(t, "resources")) > 0, "C20", "listens", where, "a server is built that does not listen")
	}
}

func resName(c string) string {
	if strings.Contains(c, ".file") {
		return "the duplicated descriptor"
	}
	return "the listener"
}

// settled compares the settings of a server with the options.
func (f *flow) settled(t *State, set map[string]Val, where string) {
	w := f.w
	keep(t, "server", t.Res[0])
	srv := t.Res[0]
	for _, u := range call(w, t, w.Fn(model.Gev, "Server.Options"), srv) {
		o := u.Res[0]
		st := f.t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			fl := st.Field(i)
			if !fl.Exported() {
				continue
			}
			v := f.field(u, o, f.t, fl.Name())
			if want, ok := set[fl.Name()]; ok {
				w.Check(u, Key(v) == Key(want) || u.Decide(w.E.Equal(u, v, want, fl.Type())) == 1, "C19", "value", where, "the setting %s is %s instead of the given value", fl.Name(), Key(v))
				continue
			}
			f.deflt(u, fl.Name(), v, where)
		}
	}
	li, ok := t.G["listen"].(TupV)
	if !w.Check(t, ok, "C19", "listens", where, "the server does not listen") {
		return
	}
	netw, addr := Val(ConstStr("tcp")), Val(ConstStr(":1388"))
	if v, ok := set["Network"]; ok {
		netw = v
	}
	if v, ok := set["Address"]; ok {
		addr = v
	}
	w.Check(t, Key(li.V[0]) == Key(netw), "C19", "network", where, "the server listens on the network %s", Key(li.V[0]))
	w.Check(t, Key(li.V[1]) == Key(addr), "C19", "address", where, "the server listens on the address %s", Key(li.V[1]))
	nm, _ := ConstString(li.V[2])
	reuse := strings.Contains(nm, "reuseport")
	if v, ok := set["ReusePort"]; ok {
		want := 0
		if reuse {
			want = 1
		}
		w.Check(t, t.Decide(v.(BoolV).C) == want, "C19", "reuseport", where, "the port is opened with %s whatever ReusePort says", nm)
	} else {
		w.Check(t, !reuse, "C19", "reuseport", where, "the port is shared although that was not asked for")
	}
}

// deflt checks a setting that no option gave.
func (f *flow) deflt(u *State, name string, v Val, where string) {
	w := f.w
	ok := true
	switch name {
	case "Network":
		s, c := ConstString(v)
		ok = c && s == "tcp"
	case "Address":
		s, c := ConstString(v)
		ok = c && s != ""
	case "NumLoops":
		ok = Key(v) == Key(cst(f.cpus))
	case "ReusePort":
		b, c := v.(BoolV)
		ok = c && u.Decide(b.C) == 0
	case "IdleTime":
		ok = u.EntailsEQ(w.E.Lin(v))
	case "Protocol":
		i, c := v.(IfaceV)
		ok = c && i.T.String() == "*"+model.Gev+".DefaultProtocol"
	case "Strategy":
		fv, c := v.(FuncV)
		ok = c && fv.Fn != nil
		if ok {
			f.rotates(u, v, where+" (default strategy)", "C19", 3)
		}
	default:
		return
	}
	w.Check(u, ok, "C19", "default", where, "the default of %s is %s", name, Key(v))
}

// effects runs the server up to its first connection.
func (f *flow) effects(srv *State, set map[string]Val, where string) {
	w, l := f.w, f.l
	st := srv.Clone()
	st.G["server"] = st.Res[0]
	want := C(f.cpus)
	if v, ok := set["NumLoops"]; ok {
		want = w.E.Lin(v)
	}
	sts := call(w, st, w.Fn(model.Gev, "Server.Start"), st.G["server"])
	if !w.Check(st, len(sts) > 0, "C19", "starts", where, "Start does not reach its end") {
		return
	}
	st = sts[0]
	if want.IsC() {
		w.Check(st, int64(len(model.GList(st, "spawned"))) == want.C+1, "C19", "loops", where, "%d goroutines are started for %s work loops and the accepting loop", len(model.GList(st, "spawned")), want)
	}
	lfd, ok := st.G["lfd"].(IntV)
	if !ok {
		return
	}
	delete(st.G, "queue")
	found := false
	for _, sp := range model.GList(st, "spawned") {
		hs := l.handlerOf(st, sp)
		if hs == nil {
			continue
		}
		for _, t := range callVal(w, hs, hs.G["handler"], IntV{L: lfd.L}, cst(1)) {
			q := model.GList(t, "queue")
			if len(model.GList(t, "accepted")) != 1 || len(q) != 1 {
				continue
			}
			found = true
			if s, ok := set["Strategy"]; ok {
				w.Check(t, t.G["asked"] != nil && Key(t.G["asked"]) == Key(s), "C19", "strategy-used", where, "a connection is placed without asking the given strategy")
				w.Check(t, t.G["candidates"] != nil && t.EntailsEQ(w.E.Lin(t.G["candidates"]).Sub(want)), "C19", "loops", where, "the strategy chooses among %s loops instead of %s", Key(t.G["candidates"]), want)
			} else {
				w.Check(t, t.G["asked"] == nil, "C19", "strategy-used", where, "an unknown strategy is asked")
			}
			for _, u := range callVal(w, t, q[0].(TupV).V[1]) {
				tm := model.GList(u, "timers")
				if idle, ok := set["IdleTime"]; ok {
					w.Check(u, len(tm) > 0 && u.EntailsEQ(w.E.Lin(tm[0].(TupV).V[1]).Sub(w.E.Lin(idle))), "C19", "idle-used", where, "the idle limit does not arm a timer of that length for a new connection")
				} else {
					w.Check(u, len(tm) == 0, "C19", "idle-used", where, "a connection has an idle timer although no limit was set")
				}
				if model.GInt(u, "onconnect") == 0 || u.G["conn"] == nil {
					continue
				}
				root := CellRoot(u.G["conn"].(PtrV).Cell)
				has := false
				for c, v := range u.Heap {
					if CellRoot(c) != root {
						continue
					}
					if p, ok := set["Protocol"]; ok {
						has = has || Key(v) == Key(p)
					} else if i, ok := v.(IfaceV); ok && i.T.String() == "*"+model.Gev+".DefaultProtocol" {
						has = true
					}
				}
				w.Check(u, has, "C19", "protocol-used", where, "a new connection does not use the protocol of the options")
			}
		}
	}
	w.Check(st, found, "C19", "accepts", where, "no connection is accepted")
}

func (f *flow) c19(st *State) {
	f.frame(st)
	ss := f.settings()
	f.build(st, nil, true)
	f.cpus = 3
	f.build(st, nil, true)
	f.cpus = 2
	for _, s := range ss {
		f.build(st, []setting{s}, true)
	}
	for i, a := range ss {
		for j, b := range ss {
			if i != j {
				f.build(st, []setting{a, b}, false)
			}
		}
	}
	f.build(st, ss, true)
	var rev []setting
	for i := range ss {
		rev = append(rev, ss[len(ss)-1-i])
	}
	f.build(st, rev, true)
	// the later of two equal options counts
	one := setting{"NumLoops", "NumLoops", func(*State) Val { return cst(1) }}
	two := setting{"NumLoops", "NumLoops", func(*State) Val { return cst(2) }}
	f.build(st, []setting{two, one}, false)
	f.build(st, []setting{one, two}, false)
	// values that mean the default
	for _, n := range []int64{0, -1} {
		n := n
		s := setting{"NumLoops", "-", func(*State) Val { return cst(n) }}
		f.build(st, []setting{s}, true)
	}
	s := setting{"IdleTime", "-", func(*State) Val { return cst(0) }}
	f.build(st, []setting{s}, true)
	// no handler
	for _, t := range call(f.w, st.Clone(), f.w.Fn(model.Gev, "NewServer"), NilV{}, SliceV{}) {
		f.outcome(t, "NewServer without a handler")
		f.w.Check(t, !isNilErr(t.Res[1]), "C20", "no-handler", "NewServer without a handler", "a server without a handler is built")
	}
}

// ---- strategies ----

// loops makes a list of n loops with unknown counts.
func (f *flow) loops(st *State, n int) (SliceV, []Val) {
	lt := types.NewPointer(f.w.Type(model.Loop, "EventLoop"))
	var ss []Seg
	var vs []Val
	for i := 0; i < n; i++ {
		v := PtrV{Cell: fmt.Sprintf("sym:<loop%d>", i)}
		vs = append(vs, v)
		ss = append(ss, Seg{V: v, Hi: C(1)})
	}
	st.Heap["new:<loops>"] = ArrV{Len: C(int64(n)), Elem: lt}.Write(st, Lin{}, C(int64(n)), ss)
	sl := SliceV{Arr: "new:<loops>", Len: C(int64(n)), Cap: C(int64(n))}
	keep(st, "loops", TupV{V: append([]Val{sl}, vs...)})
	return sl, vs
}

// counts gives the loops distinct unknown connection counts.
func (f *flow) counts(st *State, vs []Val, name string) []Lin {
	w := f.w
	old := w.AtomicHook
	defer func() { w.AtomicHook = old }()
	var r []Lin
	for i, v := range vs {
		cells := map[string]bool{}
		w.AtomicHook = func(_ *State, cell, op string, c *Call) { cells[cell] = true }
		call(w, st, w.Fn(model.Loop, "EventLoop.ConnectionCount"), v)
		if len(cells) != 1 {
			panic(Undecided{Msg: "a connection count that is not one atomic value"})
		}
		n := At("nn(" + fmt.Sprintf(name, i) + ")")
		st.Names[fmt.Sprintf(name, i)] = true
		for c := range cells {
			st.Heap[c] = IntV{L: n}
		}
		r = append(r, n)
	}
	return r
}

// rotates: the strategy gives the loops in turn.
func (f *flow) rotates(st *State, strategy Val, where, prop string, rounds int) {
	w := f.w
	for n := 1; n <= 5; n++ {
		u := st.Clone()
		keep(u, "strategy", strategy)
		sl, vs := f.loops(u, n)
		for i := 0; i < rounds*n+1; i++ {
			outs := callVal(w, u, strategy, sl)
			if !w.Check(u, len(outs) == 1, prop, "one-choice", where, "the choice among %d loops has %d outcomes", n, len(outs)) {
				return
			}
			u = outs[0]
			if !w.Check(u, Key(u.Res[0]) == Key(vs[i%n]), prop, "in-turn", where, "call %d with %d loops chooses %s instead of loop %d", i+1, n, Key(u.Res[0]), i%n) {
				return
			}
		}
	}
}

// c17 checks both strategies.
func (f *flow) c17(st0 *State) {
	w := f.w
	e := w.E
	old := e.Unroll
	e.Unroll = 64
	defer func() { e.Unroll = old }()
	outs := call(w, st0, w.Fn(model.Gev, "RoundRobin"))
	for _, u := range outs {
		keep(u, "strategy", u.Res[0])
		f.rotates(u, u.Res[0], "RoundRobin", "C17", 3)
		f.anyLength(u, u.Res[0], "RoundRobin")
		f.narrow(u, u.Res[0])
	}
	w.Check(st0, len(outs) > 0, "C17", "built", "RoundRobin", "the strategy cannot be made")
	outs = call(w, st0, w.Fn(model.Gev, "LeastConnection"))
	w.Check(st0, len(outs) > 0, "C17", "built", "LeastConnection", "the strategy cannot be made")
	for _, u := range outs {
		keep(u, "strategy", u.Res[0])
		for n := 1; n <= 5; n++ {
			t := u.Clone()
			sl, vs := f.loops(t, n)
			f.least(t, u.Res[0], sl, vs, "<count%d>", 1)
		}
		// a strategy may remember: a second choice, with other counts
		for n := 1; n <= 3; n++ {
			t := u.Clone()
			keep(t, "strategy", u.Res[0])
			sl, vs := f.loops(t, n)
			f.least(t, u.Res[0], sl, vs, "<count%d>", 2)
		}
		e.Unroll = 1
		f.anyLength(u, u.Res[0], "LeastConnection")
		e.Unroll = 64
	}
}

// least: each of the given number of consecutive choices is a loop with the
// fewest connections at that moment.
func (f *flow) least(t *State, strategy Val, sl Val, vs []Val, name string, times int) {
	w := f.w
	cs := f.counts(t, vs, name)
	res := callVal(w, t, strategy, sl)
	n := len(vs)
	w.Check(t, len(res) > 0, "C17", "minimal", "LeastConnection", "no choice among %d loops", n)
	for _, r := range res {
		k := -1
		for i, v := range vs {
			if Key(v) == Key(r.Res[0]) {
				k = i
			}
		}
		if !w.Check(r, k >= 0, "C17", "member", "LeastConnection", "the choice %s is not one of the loops", Key(r.Res[0])) {
			continue
		}
		ok := true
		for i := range vs {
			if !w.Check(r, r.EntailsGE(cs[i].Sub(cs[k])), "C17", "minimal", "LeastConnection", "with %d loops, loop %d is chosen although loop %d may have fewer connections", n, k, i) {
				ok = false
			}
		}
		if ok && times > 1 {
			f.least(r, strategy, sl, vs, "<later>"+name, times-1)
		}
	}
}

// anyLength: with a list of unknown length, from every state of the strategy,
// the choice is an element of the list.
func (f *flow) anyLength(st *State, strategy Val, where string) {
	w := f.w
	lt := types.NewPointer(w.Type(model.Loop, "EventLoop"))
	n := At("pos(<n>)")
	u := st.Clone()
	u.Names["<n>"], u.Names["<any:list>"] = true, true
	w.E.Pinned["<n>"], w.E.Pinned["<any:list>"] = true, true
	u.Heap["new:<loops>"] = ArrV{Len: n, Elem: lt}.Write(u, Lin{}, n, []Seg{{Tok: "<any:list>", Hi: n}})
	sl := SliceV{Arr: "new:<loops>", Len: n, Cap: n}
	keep(u, "loops", sl)
	keep(u, "strategy", strategy)
	seen := map[string][]*State{}
	work := []*State{u}
	// connection counts change at any time
	for name, f := range w.E.Intr {
		name, f := name, f
		if strings.Contains(name, "sync/atomic") && (strings.HasSuffix(name, ".Get") || strings.HasSuffix(name, ".Load")) {
			w.E.Intr[name] = func(c *Call) []Out {
				if p, ok := c.Args[0].(PtrV); ok && strings.HasPrefix(p.Cell, "sym:") {
					return []Out{{St: c.St, Res: []Val{w.E.Opaque(c.St, c.Site+".count", c.Sig.Results().At(0).Type())}}}
				}
				return f(c)
			}
			defer func() { w.E.Intr[name] = f }()
		}
	}
	oldB, oldP := w.E.OnBounds, w.E.OnPanic
	defer func() { w.E.OnBounds, w.E.OnPanic = oldB, oldP }()
	w.E.OnBounds = func(s *State, what string, ok bool, in ssaInstr) {
		w.Check(s, ok, "C17", "in-range", where, "an index may be outside the list of loops (%s)", w.Where(in))
	}
	w.E.OnPanic = func(s *State, in ssaInstr, why string) {
		w.Check(s, false, "C17", "no-failure", where, "the choice may fail: %s (%s)", why, w.Where(in))
	}
	for rounds := 0; len(work) > 0; rounds++ {
		if rounds > 40 {
			panic(Undecided{Msg: where + ": the strategy's state does not settle"})
		}
		s := work[0]
		work = work[1:]
		for _, t := range callVal(w, s, strategy, sl) {
			k := Key(t.Res[0])
			w.Check(t, strings.Contains(k, "<any:list>"), "C17", "member", where, "the choice %s is not an element of the list", k)
			t.Res, t.Trail = nil, nil
			// numbers kept by the strategy: only their sign and whether they
			// are below the length are kept
			// the loops change meanwhile
			for c := range t.Heap {
				if strings.HasPrefix(c, "sym:") {
					delete(t.Heap, c)
				}
			}
			var facts []Cond
			var cs []string
			for c := range t.Heap {
				cs = append(cs, c)
			}
			sort.Strings(cs)
			for i, c := range cs {
				iv, ok := t.Heap[c].(IntV)
				if !ok || strings.HasPrefix(c, "glob:") || Key(iv) == Key(s.Heap[c]) {
					continue
				}
				name := fmt.Sprintf("<w%d>", i)
				at := At("i(" + name + ")")
				if t.EntailsGE(iv.L) {
					at = At("nn(" + name + ")")
				}
				if t.EntailsGE(n.AddC(-1).Sub(iv.L)) {
					facts = append(facts, GE(n.AddC(-1).Sub(at)))
				}
				t.Names[name] = true
				t.Heap[c] = IntV{L: at}
			}
			var keepL []Lin
			for _, x := range t.Lin {
				ok := true
				for _, tm := range x.T {
					if !strings.Contains(tm.A, "<n>") || strings.Contains(tm.A, "{") {
						ok = false
					}
				}
				if ok {
					keepL = append(keepL, x)
				}
			}
			t.Lin, t.Ne = keepL, nil
			for _, c := range facts {
				t.Assume(c)
			}
			t.Bool = map[string]bool{}
			for k, v := range s.Bool {
				t.Bool[k] = v
			}
			t.GC(w.E)
			if !w.E.Covered(t, seen) {
				work = append(work, t)
			}
		}
	}
}

// narrow: a counter that the strategy only increases must not be narrow.
func (f *flow) narrow(st *State, strategy Val) {
	f.w.Count("C17", "counter")
	fv, ok := strategy.(FuncV)
	if !ok {
		return
	}
	for _, v := range fv.Fn.FreeVars {
		pt, ok := v.Type().Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		if nt, ok := pt.Elem().(*types.Named); ok && nt.Obj().Pkg() != nil && strings.Contains(nt.Obj().Pkg().Path(), "sync/atomic") && strings.HasSuffix(nt.Obj().Name(), "32") {
			f.w.Check(nil, false, "C17", "counter-overflow", "RoundRobin", "the call counter has type %s: after its overflow the order is broken or the index is negative", nt)
		}
		b, ok := pt.Elem().Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		u := st.Clone()
		sl, _ := f.loops(u, 3)
		// a cyclic index returns to its start
		start := ""
		for i, x := range fv.Fn.FreeVars {
			if x == v {
				if p, ok := fv.Bind[i].(PtrV); ok {
					start = p.Cell
				}
			}
		}
		k0 := Key(u.Heap[start])
		outs := []*State{u}
		for i := 0; i < 3; i++ {
			if len(outs) == 1 {
				outs = callVal(f.w, outs[0], strategy, sl)
			}
		}
		if len(outs) == 1 && Key(outs[0].Heap[start]) != k0 {
			f.w.Check(nil, f.w.E.Wide(b), "C17", "counter-overflow", "RoundRobin", "the call counter has type %s: after its overflow the order is broken or the index is negative", b)
		}
	}
}

// ---- timers ----

func (f *flow) c23(st0 *State) {
	w := f.w
	st := st0.Clone()
	h := OpqV{N: "<handler>", T: w.Type(model.Gev, "Handler")}
	st.Bool["nil(<handler>)"] = false
	st.Bool["nil(<F>)"] = false
	ft := types.NewSignatureType(nil, nil, nil, nil, nil, false)
	fn := OpqV{N: "<F>", T: ft}
	keep(st, "f", fn)
	var srv *State
	for _, t := range call(w, st, w.Fn(model.Gev, "NewServer"), h, SliceV{}) {
		if isNilErr(t.Res[1]) && !isNilPtr(t.Res[0]) {
			srv = t
		}
	}
	if srv == nil {
		panic(Undecided{Msg: "no server"})
	}
	srv.G["server"] = srv.Res[0]
	wh, ok := srv.G["wheel"].(TupV)
	if !w.Check(srv, ok, "C23", "wheel", "NewServer", "the server has no timing wheel") {
		return
	}
	w.Check(srv, srv.EntailsGE(w.E.Lin(wh.V[1]).AddC(-1000000)), "C23", "wheel-tick", "NewServer", "the tick of the timing wheel may be shorter than a millisecond, which it refuses")
	w.Check(srv, srv.EntailsGE(w.E.Lin(wh.V[2]).AddC(-1)), "C23", "wheel-size", "NewServer", "the size of the timing wheel may not be positive")
	// the wheel runs while the server runs
	for _, t := range call(w, srv, w.Fn(model.Gev, "Server.Start"), srv.G["server"]) {
		w.Check(t, model.GInt(t, "wheelrun") == 1, "C23", "started", "Start", "the timing wheel does not run while the server runs")
		n := 0
		for _, u := range call(w, t, w.Fn(model.Gev, "Server.Stop"), srv.G["server"]) {
			n++
			w.Check(u, model.GInt(u, "wheelrun") == 2, "C23", "stopped", "Stop", "the timing wheel goes on after Stop")
		}
		w.Check(t, n > 0, "C23", "stop-returns", "Stop", "Stop does not return")
	}
	pos := At("pos(<d>)")
	for _, what := range []string{"RunAfter", "RunEvery"} {
		outs := call(w, srv, w.Fn(model.Gev, "Server."+what), srv.G["server"], IntV{L: pos}, fn)
		w.Check(srv, len(outs) > 0, "C23", "schedules", what, "%s does not return", what)
		for _, t := range outs {
			tm := model.GList(t, "timers")
			w.Check(t, model.GInt(t, "ran") == 0, "C23", "not-now", what, "the function is called at once")
			if !w.Check(t, len(tm) == 1, "C23", "schedules", what, "%s schedules %d timers", what, len(tm)) {
				continue
			}
			v := tm[0].(TupV)
			w.Check(t, Key(v.V[0]) == Key(t.Res[0]), "C23", "returned-timer", what, "%s does not return the timer that it schedules", what)
			w.Check(t, Key(v.V[4]) == Key(wh.V[0]), "C23", "server-wheel", what, "%s uses a wheel that is not the server's", what)
			keep(t, "timer", v)
			if what == "RunAfter" {
				w.Check(t, isInt(v.V[1]) && t.EntailsEQ(w.E.Lin(v.V[1]).Sub(pos)), "C23", "delay", what, "the timer runs after %s instead of the given delay", Key(v.V[1]))
			} else {
				f.schedule(t, v.V[1], pos)
			}
			fired := []*State{}
			if o, ok := v.V[2].(OpqV); ok && o.N == "<F>" {
				w.Count("C23", "runs-once")
			} else {
				fired = callVal(w, t, v.V[2])
				w.Check(t, len(fired) > 0, "C23", "runs-once", what, "the scheduled function does not return")
			}
			for _, u := range fired {
				w.Check(u, model.GInt(u, "ran") == 1, "C23", "runs-once", what, "a firing of the timer runs the function %d times", model.GInt(u, "ran"))
				w.Check(u, len(model.GList(u, "timers")) == 1, "C23", "runs-once", what, "a firing of the timer schedules another one")
			}
		}
	}
}

func isInt(v Val) bool { _, ok := v.(IntV); return ok }

type ssaInstr = ssa.Instruction

// schedule: the scheduler gives the previous instant plus the period, always.
func (f *flow) schedule(t *State, s Val, d Lin) {
	w := f.w
	where := "RunEvery"
	i, ok := s.(IfaceV)
	if !w.Check(t, ok, "C23", "period", where, "the period is not given by a known scheduler (%s)", Key(s)) {
		return
	}
	fn := w.E.Prog.LookupMethod(i.T, w.E.Prog.ImportedPackage(model.Gev).Pkg, "Next")
	if fn == nil {
		panic(Undecided{Msg: "the scheduler has no Next"})
	}
	cur := t
	for k := 0; k < 2; k++ {
		prev := At(fmt.Sprintf("pos(<prev%d>)", k))
		outs := call(w, cur, fn, i.V, TupV{V: []Val{IntV{L: prev}}})
		w.Check(cur, len(outs) > 0, "C23", "period", where, "the scheduler does not answer")
		for _, u := range outs {
			r, ok := u.Res[0].(TupV)
			w.Check(u, ok && len(r.V) == 1 && u.EntailsEQ(w.E.Lin(r.V[0]).Sub(prev).Sub(d)), "C23", "period", where, "the next firing is not one period after the previous one (%s)", Key(u.Res[0]))
			cur = u
		}
	}
}

// textModels gives addresses and decimals as terms. The names inside a term
// are not renamed: terms are compared soon after they are made.
func (f *flow) textModels() {
	w := f.w
	in := w.E.Intr
	clean, tok := textClean, textTok
	text := func(c *Call, what string, parts ...string) []Out {
		return []Out{{St: c.St, Res: []Val{tok("<" + what + "(" + strings.Join(parts, ";") + ")>")}}}
	}
	raw := func(c *Call, v Val) string {
		if sl, ok := v.(SliceV); ok {
			return Key(SegsV{S: NormSegs(c.St, w.E.ReadSlice(c.St, sl))})
		}
		return Key(v)
	}
	in["(net.IP).String"] = func(c *Call) []Out { return text(c, "ip", clean(raw(c, c.Args[0]))) }
	dec := func(c *Call, v Val) []Out { return text(c, "dec", clean(w.E.Lin(v).String())) }
	in["strconv.Itoa"] = func(c *Call) []Out { return dec(c, c.Args[0]) }
	in["strconv.FormatInt"] = func(c *Call) []Out {
		if b := w.E.Lin(c.Args[1]); b.IsC() && b.C == 10 {
			return dec(c, c.Args[0])
		}
		return text(c, "base", clean(Key(c.Args[0])), Key(c.Args[1]))
	}
	in["strconv.FormatUint"] = in["strconv.FormatInt"]
	join := func(c *Call, ip, port Val) []Out {
		return text(c, "join", clean(Key(ip)), clean(Key(port)))
	}
	in["net.JoinHostPort"] = func(c *Call) []Out { return join(c, c.Args[0], c.Args[1]) }
	in["(*net.TCPAddr).String"] = func(c *Call) []Out {
		p := c.Args[0].(PtrV)
		ta := w.Type("net", "TCPAddr").Underlying().(*types.Struct)
		get := func(n string) Val {
			for i := 0; i < ta.NumFields(); i++ {
				if ta.Field(i).Name() == n {
					v, _ := w.E.Load(c.St, PtrV{Cell: p.Cell + "/" + n}, ta.Field(i).Type(), c.Instr)
					return v
				}
			}
			return NilV{}
		}
		c2 := *c
		c2.Args = []Val{get("IP")}
		ip := in["(net.IP).String"](&c2)[0].Res[0]
		if z, ok := get("Zone").(StrV); !ok || len(z.S) > 0 {
			return text(c, "zoned", clean(Key(ip)))
		}
		return join(c, ip, dec(c, get("Port"))[0].Res[0])
	}
	in["(*net.TCPAddr).Network"] = func(c *Call) []Out { return []Out{{St: c.St, Res: []Val{ConstStr("tcp")}}} }
}

func textTok(n string) Val { return StrV{S: []Seg{{Tok: n, Hi: At("len(" + n + ")")}}} }

func textClean(s string) string { return strings.NewReplacer("<", "", ">", "").Replace(s) }

// hostPort is the text of an address.
func (f *flow) hostPort(ip []Seg, port Val) Val {
	i := textTok("<ip(" + textClean(Key(SegsV{S: ip})) + ")>")
	p := textTok("<dec(" + textClean(f.w.E.Lin(port).String()) + ")>")
	return textTok("<join(" + textClean(Key(i)) + ";" + textClean(Key(p)) + ")>")
}

// ---- peer addresses ----

func (f *flow) c37(st0 *State) {
	f.pairs(st0)
	w := f.w
	f.textModels()
	for _, fam := range []string{"SockaddrInet4", "SockaddrInet6"} {
		sat := w.Type("golang.org/x/sys/unix", fam)
		if sat == nil {
			panic(Undecided{Msg: "no type " + fam})
		}
		where := "PeerAddr (" + fam + ")"
		st := st0.Clone()
		st.Names["<sa>"] = true
		cell := "sym:<sa>"
		stt := sat.Underlying().(*types.Struct)
		var port, addr Val
		for i := 0; i < stt.NumFields(); i++ {
			fl := stt.Field(i)
			switch fl.Name() {
			case "Port":
				port, _ = w.E.Load(st, PtrV{Cell: cell + "/Port"}, fl.Type(), nil)
			case "Addr":
				addr, _ = w.E.Load(st, PtrV{Cell: cell + "/Addr"}, fl.Type(), nil)
			}
		}
		_ = addr
		n := C(4)
		if fam == "SockaddrInet6" {
			n = C(16)
		}
		st.Heap[cell+"/Addr"] = ArrV{Len: n, Elem: types.Typ[types.Byte]}.Write(st, Lin{}, n, []Seg{{Tok: "<ipbytes>", Hi: n}})
		wantV := f.hostPort([]Seg{{Tok: "<ipbytes>", Hi: n}}, port)
		sa := IfaceV{T: types.NewPointer(sat), V: PtrV{Cell: cell}}
		keep(st, "sa", sa)
		st.Bool["nil(<handler>)"], st.Bool["nil(<protocol>)"] = false, false
		outs := call(w, st, w.Fn(model.Gev, "NewConnection"), IntV{L: At(fdAtom)}, PtrV{Cell: "sym:<loop>"}, sa, OpqV{N: "<protocol>", T: w.Type(model.Gev, "Protocol")}, PtrV{Cell: "sym:<wheel>"}, cst(0), OpqV{N: "<handler>", T: w.Type(model.Gev, "CallBack")})
		w.Check(st, len(outs) > 0, "C37", "address", where, "no connection can be made")
		for _, t := range outs {
			keep(t, "conn", t.Res[0])
			c := t.Res[0]
			for k := 0; k < 2; k++ {
				for _, u := range call(w, t, w.Fn(model.Gev, "Connection.PeerAddr"), c) {
					w.Check(u, Key(u.Res[0]) == Key(wantV), "C37", "address", where, "PeerAddr gives %s instead of the host and port %s", Key(u.Res[0]), Key(wantV))
					t = u
				}
				// the memory of the socket address is not the connection's
				if k == 0 {
					t.Heap[cell+"/Port"] = IntV{L: At("i(<other>)")}
					t.Heap[cell+"/Addr"] = ArrV{Len: n, Elem: types.Typ[types.Byte]}.Write(t, Lin{}, n, []Seg{{Tok: "<otherbytes>", Hi: n}})
				}
			}
		}
	}
}

// pairs: two connections are accepted before either is set up; each gets its
// own descriptor and address.
func (f *flow) pairs(st0 *State) {
	w, l := f.w, f.l
	f.textModels()
	st := st0.Clone()
	h := OpqV{N: "<handler>", T: w.Type(model.Gev, "Handler")}
	st.Bool["nil(<handler>)"] = false
	var srv *State
	for _, t := range call(w, st, w.Fn(model.Gev, "NewServer"), h, SliceV{}) {
		if isNilErr(t.Res[1]) && !isNilPtr(t.Res[0]) {
			srv = t
		}
	}
	if srv == nil {
		panic(Undecided{Msg: "no server"})
	}
	srv.G["server"] = srv.Res[0]
	sts := call(w, srv, w.Fn(model.Gev, "Server.Start"), srv.G["server"])
	if len(sts) == 0 {
		panic(Undecided{Msg: "Start does not reach its end"})
	}
	st = sts[0]
	lfd, ok := st.G["lfd"].(IntV)
	if !ok {
		panic(Undecided{Msg: "no listening descriptor"})
	}
	delete(st.G, "queue")
	where := "two accepted connections"
	n := 0
	for _, sp := range model.GList(st, "spawned") {
		hs := l.handlerOf(st, sp)
		if hs == nil {
			continue
		}
		handler := hs.G["handler"]
		for _, t := range callVal(w, hs, handler, IntV{L: lfd.L}, cst(1)) {
			if len(model.GList(t, "queue")) != 1 {
				continue
			}
			for _, u := range callVal(w, t, handler, IntV{L: lfd.L}, cst(1)) {
				q, fds := model.GList(u, "queue"), model.GList(u, "accepted")
				if len(q) != 2 || len(fds) != 2 {
					continue
				}
				n++
				delete(u.G, "queue")
				u.G["tasks"] = ListV{V: q}
				us := []*State{u}
				for i := 0; i < 2; i++ {
					var next []*State
					for _, x := range us {
						for _, k := range []string{"onconnect", "onclose", "conn"} {
							delete(x.G, k)
						}
						for _, y := range callVal(w, x, model.GList(x, "tasks")[i].(TupV).V[1]) {
							fd := model.GList(y, "accepted")[i].(IntV).L
							sa, ok := y.G["sa:"+fd.String()].(IfaceV)
							if !ok || y.G["conn"] == nil {
								continue
							}
							if _, reg := y.G["int:"+fd.String()]; !reg {
								w.Check(y, model.GInt(y, "addfailed") == 1, "C08,C16", "own-descriptor", where, "connection %d is not registered with its own descriptor", i+1)
								continue
							}
							w.Count("C08,C16", "own-descriptor")
							cell := sa.V.(PtrV).Cell
							port, _ := w.E.LoadRaw(y, cell+"/Port", types.Typ[types.Int])
							arr, ok := y.Heap[cell+"/Addr"].(ArrV)
							if !w.Check(y, ok, "C37", "own-address", where, "the address of connection %d is not used", i+1) {
								continue
							}
							want := f.hostPort(NormSegs(y, w.E.ReadSlice(y, SliceV{Arr: cell + "/Addr", Len: arr.Len, Cap: arr.Len})), port)
							for _, z := range call(w, y, w.Fn(model.Gev, "Connection.PeerAddr"), y.G["conn"]) {
								w.Check(z, Key(z.Res[0]) == Key(want), "C37", "own-address", where, "PeerAddr of connection %d gives %s instead of %s", i+1, Key(z.Res[0]), Key(want))
							}
							next = append(next, y)
						}
					}
					us = next
				}
			}
		}
	}
	w.Check(st, n > 0, "C37", "accepts-two", where, "no second connection is accepted while the first waits for its setup")
}

// ---- key-value store ----

func (f *flow) c11(st0 *State) {
	w := f.w
	w.LockProp = "C11"
	defer func() { w.LockProp = "C09" }()
	str := func(st *State, n string) Val {
		st.Names[n] = true
		return StrV{S: []Seg{{Tok: n, Hi: At("len(" + n + ")")}}}
	}
	iface := types.NewInterfaceType(nil, nil)
	obj := PtrV{Cell: "new:<store>"}
	type accK struct {
		write, atomic bool
		locks, where  string
	}
	accs := map[string]map[accK]bool{}
	w.E.OnAccess = func(st *State, cell string, write bool, in ssaInstr) {
		if in == nil {
			return
		}
		r := CellRoot(cell)
		if _, ok := st.Heap[r]; !ok && r != "new:<store>" {
			return
		}
		var locks []string
		for k, v := range st.G {
			if strings.HasPrefix(k, "lock:") {
				locks = append(locks, k[5:]+"="+Key(v))
			}
		}
		sort.Strings(locks)
		shared := r == "new:<store>"
		for _, x := range model.GList(st, "shared") {
			if p, ok := x.(PtrV); ok && p.Cell == cell {
				shared = true
			}
		}
		if !shared {
			return
		}
		if accs[cell] == nil {
			accs[cell] = map[accK]bool{}
		}
		accs[cell][accK{write, false, strings.Join(locks, ","), w.Where(in)}] = true
	}
	defer func() { w.E.OnAccess = nil }()
	st := st0.Clone()
	kt := w.Type(model.Gev, "KeyValueContext")
	w.E.Store(st, obj, w.E.Zero(kt), kt, nil)
	keep(st, "store", obj)
	a, b := str(st, "<a>"), str(st, "<b>")
	val := func(t *State, n string) Val {
		t.Names[n] = true
		t.Bool["nil("+n+")"] = false
		return OpqV{N: n, T: iface}
	}
	share := func(t *State) {
		delete(t.G, "shared")
		for c, v := range t.Heap {
			if _, ok := v.(MapC); ok {
				model.GPush(t, "shared", PtrV{Cell: c})
			}
		}
	}
	op := func(t *State, name string, args ...Val) []*State {
		share(t)
		t.Note("%s(%s)", name, Key(TupV{V: args}))
		outs := call(w, t, w.Fn(model.Gev, "KeyValueContext."+name), append([]Val{obj}, args...)...)
		w.Check(t, len(outs) > 0, "C11", "returns", name, "%s does not return", name)
		for _, u := range outs {
			for k := range u.G {
				if strings.HasPrefix(k, "lock:") {
					w.Check(u, false, "C11", "lock-released", name, "%s returns with the lock held", name)
				}
			}
			w.Count("C11", "lock-released")
		}
		return outs
	}
	// bases: fresh, used once, any content
	bases := []*State{st}
	names := []string{"a fresh store", "a used store", "a store with any content", "an emptied store"}
	used := op(st.Clone(), "Set", str(st, "<k0>"), val(st, "<v0>"))
	if len(used) != 1 {
		panic(Undecided{Msg: "Set has several outcomes on a fresh store"})
	}
	bases = append(bases, used[0])
	anyS := used[0].Clone()
	n := 0
	for c, v := range anyS.Heap {
		if _, ok := v.(MapC); ok && !strings.HasPrefix(c, "glob:") {
			n++
			anyS.Heap[c] = MapC{Rest: true, N: "<M>"}
			anyS.Names["<M>"] = true
		}
	}
	if n != 1 {
		panic(Undecided{Msg: fmt.Sprintf("the store is not one map (%d)", n)})
	}
	bases = append(bases, anyS)
	for _, u := range op(used[0].Clone(), "Delete", str(used[0], "<k0>")) {
		bases = append(bases, u)
	}
	for i, base := range bases {
		where := names[i]
		val(base, "<v1>")
		for _, s := range op(base.Clone(), "Get", a) {
			r0 := s.Res
			expect := func(t *State, v Val, ok bool, rule, after string) {
				for _, u := range op(t, "Get", a) {
					bv, isB := u.Res[1].(BoolV)
					want := 0
					if ok {
						want = 1
					}
					w.Check(u, isB && u.Decide(bv.C) == want, "C11", rule, where, "after %s on %s the presence of the key is %s", after, where, Key(u.Res[1]))
					w.Check(u, Key(u.Res[0]) == Key(v), "C11", rule, where, "after %s on %s Get gives %s instead of %s", after, where, Key(u.Res[0]), Key(v))
				}
			}
			bv, isB := r0[1].(BoolV)
			if !w.Check(s, isB && bv.C.K == 'c', "C11", "get", where, "Get does not tell whether the key is present") {
				continue
			}
			present := s.Decide(bv.C) == 1
			if !present {
				_, nl := r0[0].(NilV)
				w.Check(s, nl, "C11", "get-absent", where, "Get of an absent key gives %s", Key(r0[0]))
			}
			keep(s, "r0", r0[0])
			if i == 0 || i == 3 {
				w.Check(s, !present, "C11", "get-absent", where, "a key is present in %s", where)
			}
			expect(s.Clone(), r0[0], present, "get-stable", "Get")
			for _, v := range []Val{val(s, "<v1>"), NilV{}} {
				for _, u := range op(s.Clone(), "Set", a, v) {
					expect(u, v, true, "set-get", "Set of the key")
					for _, x := range op(u.Clone(), "Delete", a) {
						expect(x, NilV{}, false, "delete-get", "Set and Delete of the key")
					}
					for _, x := range op(u.Clone(), "Set", a, val(u, "<v2>")) {
						expect(x, val(x, "<v2>"), true, "set-get", "two Sets of the key")
					}
				}
			}
			for _, u := range op(s.Clone(), "Set", b, val(s, "<v1>")) {
				expect(u, r0[0], present, "set-other", "Set of another key")
			}
			for _, u := range op(s.Clone(), "Delete", a) {
				expect(u, NilV{}, false, "delete-get", "Delete of the key")
			}
			for _, u := range op(s.Clone(), "Delete", b) {
				expect(u, r0[0], present, "delete-other", "Delete of another key")
			}
		}
	}
	// locks
	var cells []string
	for c := range accs {
		cells = append(cells, c)
	}
	sort.Strings(cells)
	for _, c := range cells {
		var ks []accK
		wr := false
		for k := range accs[c] {
			ks = append(ks, k)
			wr = wr || k.write
		}
		if !wr {
			continue
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].where+ks[i].locks < ks[j].where+ks[j].locks })
		w.Count("C11", "locked")
		for i, x := range ks {
			for _, y := range ks[i:] {
				if (x.write || y.write) && !common(x.locks, y.locks) {
					w.Fail(nil, "C11", "locked", x.where, "the store's memory is accessed without one exclusive lock: %s [%s] and %s [%s]", x.where, x.locks, y.where, y.locks)
				}
			}
		}
	}
}

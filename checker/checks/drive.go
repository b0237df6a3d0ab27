package checks

import (
	"fmt"
	"go/types"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	. "gevcheck/absint"
	"gevcheck/model"
)

const fdAtom = "nn(<FD>)"

func isNilErr(v Val) bool {
	_, ok := v.(NilV)
	return ok
}

// run analyses everything.
func (l *life) run(out []*State) {
	w := l.w
	var srv *State
	for _, s := range out {
		if len(s.Res) == 2 && isNilErr(s.Res[1]) && !isNilPtr(s.Res[0]) {
			srv = s
		}
	}
	if srv == nil {
		panic(Undecided{Msg: "no successful outcome of NewServer"})
	}
	st := srv.Clone()
	st.G["server"] = st.Res[0]
	started := call(w, st, w.Fn(model.Gev, "Server.Start"), st.G["server"])
	if len(started) == 0 {
		panic(Undecided{Msg: "Start does not reach its end"})
	}
	st = started[0]
	st.Trail = nil
	delete(st.G, "queue")
	// the loop that accepts: the one whose handler reacts to the listening descriptor
	lfd, ok := st.G["lfd"].(IntV)
	if !ok {
		panic(Undecided{Msg: "the listening descriptor is unknown"})
	}
	var accepted []*State
	for _, sp := range model.GList(st, "spawned") {
		hs := l.handlerOf(st, sp)
		if hs == nil {
			continue
		}
		h := hs.G["handler"]
		accepts := false
		loops := map[string]Val{}
		q := w.Quiet
		w.Quiet = true
		for _, t := range callVal(w, hs, h, IntV{L: lfd.L}, cst(1)) {
			if len(model.GList(t, "accepted")) > 0 {
				accepts = true
			}
			for _, x := range model.GList(t, "queue") {
				v := x.(TupV).V[0]
				loops[Key(v)] = v
			}
		}
		w.Quiet = q
		if !accepts {
			continue
		}
		l.havocCounts(hs, loops)
		l.thread, l.pre = "listener", hs
		for _, t := range callVal(w, hs, h, IntV{L: lfd.L}, cst(1)) {
			if len(model.GList(t, "accepted")) > 0 {
				accepted = append(accepted, t)
			} else {
				w.Check(t, len(model.GList(t, "queue")) == 0, "C16", "no-handover-without-accept", "accept path", "a connection is handed over although accept failed")
			}
		}
		l.thread, l.pre = "main", nil
	}
	where := w.Where(w.Fn(model.Gev, "NewServer").Blocks[0].Instrs[0])
	if !w.Check(st, len(accepted) > 0, "C16", "accepts", where, "no event loop accepts when the listening descriptor is readable") {
		return
	}
	for _, t := range accepted {
		l.accepted(t)
	}
	l.fixpoint()
	l.races()
}

// havocCounts makes the connection counts of the work loops unknown: any
// number of other connections exist and they change while the acceptor runs.
func (l *life) havocCounts(st *State, loops map[string]Val) {
	w := l.w
	old := w.AtomicHook
	i := 0
	var ks []string
	for k := range loops {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		cells := map[string]bool{}
		w.AtomicHook = func(_ *State, cell, op string, c *Call) { cells[cell] = true }
		call(w, st, w.Fn(model.Loop, "EventLoop.ConnectionCount"), loops[k])
		for c := range cells {
			if len(cells) > 1 {
				break
			}
			i++
			n := st.Fresh(fmt.Sprintf("count%d", i))
			w.E.Pinned[n] = true
			st.Heap[c] = IntV{L: At("nn(" + n + ")")}
			st.G["count:"+k] = st.Heap[c]
		}
	}
	w.AtomicHook = old
}

// handlerOf runs a spawned function and gives the state in which it polls.
func (l *life) handlerOf(st *State, f Val) *State {
	if fv, ok := f.(FuncV); !ok || len(fv.Fn.Blocks) == 0 {
		return nil
	}
	s := st.Clone()
	delete(s.G, "handler")
	for _, t := range callVal(l.w, s, f) {
		if t.G["handler"] != nil {
			return t
		}
	}
	return nil
}

// accepted checks what became of one accepted descriptor and goes on with it.
func (l *life) accepted(t *State) {
	w := l.w
	where := "listener"
	if f := w.FnOpt(model.Gev, "Server.Start"); f != nil {
		where = "accept path of " + model.FnName(f)
	}
	fds := model.GList(t, "accepted")
	q := model.GList(t, "queue")
	open := 0
	for _, fv := range fds {
		fd := fv.(IntV).L
		if model.GInt(t, "fd:"+fd.String()) != 1 {
			continue
		}
		open++
		w.Check(t, model.GInt(t, "nonblock:"+fd.String()) == 1, "C16", "nonblocking", where, "an accepted descriptor is handed over in blocking mode")
	}
	if open < len(fds) {
		w.Check(t, len(q) <= open, "C16", "no-handover-after-close", where, "a closed descriptor is handed to a work loop")
	}
	if !w.Check(t, len(q) >= open, "C16", "handed-over-once", where, "an accepted descriptor is neither closed nor handed over (%d sockets, %d tasks)", open, len(q)) ||
		!w.Check(t, len(q) <= open, "C16", "handed-over-once", where, "an accepted descriptor is handed over more than once (%d sockets, %d tasks)", open, len(q)) {
		return
	}
	ch := model.GList(t, "chosen")
	if !w.Check(t, len(ch) == open, "C16", "strategy-asked-once", where, "the balancing strategy is asked %d times for %d connections", len(ch), open) {
		return
	}
	for i := range ch {
		w.Check(t, Key(ch[i]) == Key(q[i].(TupV).V[0]), "C16", "strategy-obeyed", where, "the connection does not go to the loop that the strategy chose")
	}
	if open != 1 || len(fds) != 1 {
		return // followed further for one socket
	}
	for _, fv := range fds {
		fd := fv.(IntV).L
		if a, ok := fd.Single(); ok {
			t.Rename(a[3:len(a)-1], "<FD>")
		}
		q = model.GList(t, "queue")
		tv := q[0].(TupV)
		s := t.Clone()
		delete(s.G, "queue")
		delete(s.G, "accepted")
		delete(s.G, "chosen")
		s.G["task"] = tv.V[1]
		// the loop's handler
		l.thread = "main"
		hs := call(w, s, w.Fn(model.Loop, "EventLoop.Run"), tv.V[0])
		if len(hs) == 0 || hs[0].G["handler"] == nil {
			panic(Undecided{Msg: "the work loop does not poll"})
		}
		s = hs[0]
		s.G["loop"] = tv.V[0]
		task := s.G["task"]
		delete(s.G, "task")
		l.thread = "setup"
		l.root = "setup"
		for _, u := range callVal(w, s, task) {
			l.setupDone(u)
		}
	}
}

func (l *life) setupDone(u *State) {
	w := l.w
	_, reg := u.G["int:"+fdAtom]
	if reg {
		w.Check(u, model.GInt(u, "onconnect") == 1, "C08", "connect-before-events", "new connection", "the connection can receive events before OnConnect was called")
	}
	// what the setup itself queued runs next
	if q := model.GList(u, "queue"); len(q) > 0 {
		delete(u.G, "queue")
		us := []*State{u}
		for _, x := range q {
			tv := x.(TupV)
			w.Check(u, Key(tv.V[0]) == Key(u.G["loop"]), "C07", "own-loop", "new connection", "a task of the connection is queued to another loop")
			var next []*State
			for _, v := range us {
				next = append(next, callValAs(l, v, "loop", tv.V[1])...)
			}
			us = next
		}
		for _, v := range us {
			l.setupDone(v)
		}
		return
	}
	where := "new connection"
	if !w.Check(u, model.GInt(u, "onconnect") == 1, "C08", "connect-once", where, "a new connection does not get OnConnect") {
		return
	}
	if model.GInt(u, "addfailed") == 1 {
		w.Check(u, model.GInt(u, "onclose") == 1, "C08", "unregistered-closed", where, "a connection that could not be registered stays open")
	} else {
		w.Check(u, reg, "C08", "registered", where, "a new connection is not registered for events")
	}
	// idle timer
	var act []TupV
	for _, t := range model.GList(u, "timers") {
		tv := t.(TupV)
		if Key(tv.V[3]) == "1" {
			act = append(act, tv)
		}
	}
	if l.idle && model.GInt(u, "onclose") == 0 {
		if w.Check(u, len(act) == 1, "C12", "armed", where, "a connection with an idle limit has %d idle timers", len(act)) {
			d := w.E.Lin(act[0].V[1])
			w.Check(u, u.EntailsGE(At("pos(<idle>)").Sub(d)), "C12", "armed-in-time", where, "the first idle timer (%s) runs later than the idle limit", d)
		}
	} else {
		w.Check(u, len(act) == 0, "C12", "not-armed", where, "a connection without an idle limit has an idle timer")
	}
	if now, ok := u.G["now"]; ok {
		u.G["last"] = now
	}
	l.rootDone(u, "setup")
}

// rootDone checks the state at the end of a root and keeps it for merge.
func (l *life) rootDone(u *State, root string) {
	queue := model.GList(u, "queue")
	delete(u.G, "queue")
	before := l.w.Fails
	l.endChecks(u, root)
	if l.w.Fails > before {
		return // what follows a violation is not looked at
	}
	l.ended = append(l.ended, ended{u, queue, root})
}

// merge makes the ends of a root tasks and base states.
func (l *life) merge(es []ended) {
	for _, e := range es {
		l.root = e.root
		for _, q := range e.queue {
			l.addTask(e.st, q, e.root)
		}
		l.base(e.st)
	}
}

func callValAs(l *life, st *State, thread string, f Val, args ...Val) []*State {
	old := l.thread
	l.thread = thread
	defer func() { l.thread = old }()
	return callVal(l.w, st, f, args...)
}

// ---- canonical base states ----

var keepG = []string{"conn", "unsent", "in", "timers", "excused", "onconnect", "onclose", "handler", "loop", "now", "last", "published", "closing", "lock:", "count:", "delfailed", "fd:" + fdAtom, "conn:" + fdAtom, "int:" + fdAtom}

func (l *life) base(u *State) {
	w := l.w
	u.Res = nil
	u.Frames = nil
	for k := range u.G {
		ok := false
		for _, p := range keepG {
			if k == p || strings.HasSuffix(p, ":") && strings.HasPrefix(k, p) {
				ok = true
			}
		}
		if !ok {
			delete(u.G, k)
		}
	}
	// timers: the active ones and the last one that was stopped
	var tl []Val
	stopped := -1
	for i, t := range model.GList(u, "timers") {
		if Key(t.(TupV).V[3]) != "1" {
			stopped = i
		}
	}
	for i, t := range model.GList(u, "timers") {
		if Key(t.(TupV).V[3]) == "1" || i == stopped {
			tv := t.(TupV)
			tl = append(tl, TupV{V: []Val{tv.V[0], cst(0), tv.V[2], tv.V[3], tv.V[4]}})
		}
	}
	if len(tl) == 1 {
		if p, ok := tl[0].(TupV).V[0].(PtrV); ok {
			if r := strings.TrimPrefix(CellRoot(p.Cell), "new:"); r != p.Cell && r != "<TIMER>" && !u.Mentions("<TIMER>") {
				u.G["timers"] = ListV{V: tl}
				u.Rename(r, "<TIMER>")
				tl = model.GList(u, "timers")
			}
		}
	}
	delete(u.G, "timers")
	if tl != nil {
		u.G["timers"] = ListV{V: tl}
	}
	if last, ok := u.G["last"].(IntV); ok {
		if a, ok := last.L.Single(); ok {
			n := a[4 : len(a)-1]
			if n != "<LAST>" {
				u.Rename(n, "<LAST>")
			}
		}
	}
	if u.G["last"] != nil {
		u.G["now"] = u.G["last"]
	} else {
		delete(u.G, "now")
	}
	l.canonSeq(u, "unsent", "<OUT>")
	l.canonSeq(u, "in", "<IN>")
	closed := model.GInt(u, "onclose") > 0
	if closed {
		delete(u.G, "unsent")
		delete(u.G, "in")
		delete(u.G, "closing")
	}
	okName := map[string]bool{"<OUT>": !closed, "<IN>": !closed, "<TIMER>": true, "<LAST>": true, "<FD>": true, "<idle>": true}
	canonical := func(x Lin) bool {
		for _, t := range x.T {
			for _, n := range Bracketed(t.A) {
				if !okName[n] && !l.baseName(n) {
					return false
				}
			}
			if len(Bracketed(t.A)) == 0 && !strings.HasPrefix(t.A, "pos(numcpu") {
				return false
			}
		}
		return true
	}
	ks := make([]string, 0, len(u.Heap))
	for k := range u.Heap {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		switch v := u.Heap[k].(type) {
		case IntV:
			if v.L.IsC() && v.L.C == 0 && strings.HasPrefix(k, "new:") {
				delete(u.Heap, k) // the zero value
				continue
			}
			if !canonical(v.L) {
				u.Heap[k] = IntV{L: At(fmt.Sprintf("i(<hv%s>)", k))}
				u.Names[fmt.Sprintf("<hv%s>", k)] = true
			}
		case ArrV:
			tok := false
			for _, p := range v.P {
				if p.S.Tok != "" && p.S.Tok != "0" || p.S.Tok == "" && !isConstInt(p.S.V) {
					tok = true
				}
			}
			if tok && isByte(v.Elem) {
				u.Heap[k] = ArrV{Len: v.Len, Elem: v.Elem, P: []Piece{{Hi: v.Len, S: Seg{Tok: "?", Hi: v.Len}}}}
			}
		case RingV:
			if v.Mode == 'v' {
				a, b, c := At(fmt.Sprintf("nn(<vo%s>)", k)), At(fmt.Sprintf("nn(<vl%s>)", k)), At(fmt.Sprintf("nn(<vc%s>)", k))
				v.View = SliceV{Arr: v.View.Arr, Off: a, Len: b, Cap: c}
				v.VR, v.Flag, v.Drained = Lin{}, false, false
				u.Heap[k] = v
			} else {
				v.Wrap, v.Split = 0, Lin{}
				u.Heap[k] = v
			}
		}
	}
	u.GC(w.E)
	// facts about anything but canonical names are dropped
	var keep []Lin
	for _, f := range u.Lin {
		if canonical(f) {
			keep = append(keep, f)
		}
	}
	u.Lin = keep
	var ne []Lin
	for _, f := range u.Ne {
		if canonical(f) {
			ne = append(ne, f)
		}
	}
	u.Ne = ne
	if w.E.Covered(u, l.bases) {
		return
	}
	l.NBases++
	if l.NBases > 400 {
		panic(Undecided{Msg: "more than 400 abstract connection states"})
	}
	if baseDebug {
		fmt.Printf("BASE %d after %s (roots %d, states %d)\n%s\n", l.NBases, l.root, l.NRoots, w.E.NStates, dbgState(u))
	}
	u.Trail = nil
	u.Note("in a state with unsent=[%s] undecoded=[%s] closed=%v", Key(SegsV{S: model.GSegs(u, "unsent")}), Key(SegsV{S: model.GSegs(u, "in")}), closed)
	l.work = append(l.work, u)
}

// baseName: names made before the connection existed.
func (l *life) baseName(n string) bool {
	return strings.HasPrefix(n, "<New") || strings.HasPrefix(n, "<new") || strings.HasPrefix(n, "<Create") || strings.HasPrefix(n, "<init") || strings.HasPrefix(n, "<count")
}

func isConstInt(v Val) bool {
	iv, ok := v.(IntV)
	return ok && iv.L.IsC()
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// canonSeq gives the current content of a monitor one name wherever it occurs.
func (l *life) canonSeq(u *State, k, tok string) {
	for c, v := range u.Heap {
		if r, ok := v.(RingV); ok && r.Mode == 'o' {
			r.S = NormSegs(u, r.S)
			u.Heap[c] = r
		}
	}
	ss := NormSegs(u, model.GSegs(u, k))
	u.G[k] = SegsV{S: ss}
	n := SegsLen(ss)
	if len(ss) == 0 || u.EntailsEQ(n) {
		delete(u.G, k)
		return
	}
	if len(ss) == 1 && ss[0].Tok == tok && ss[0].Lo.Eq(Lin{}) && ss[0].Hi.Eq(At("len("+tok+")")) {
		return
	}
	tmp := tok
	if u.Mentions(tok) {
		tmp = tok[:len(tok)-1] + "+>"
	}
	nl := At("len(" + tmp + ")")
	empty := !u.EntailsGE(n.AddC(-1))
	for c, v := range u.Heap {
		switch v := v.(type) {
		case RingV:
			if v.Mode == 'o' && SameSegs(u, v.S, ss) {
				v.S = []Seg{{Tok: tmp, Hi: nl}}
				u.Heap[c] = v
			}
		case IntV:
			if !v.L.IsC() && u.EntailsEQ(v.L.Sub(n)) {
				u.Heap[c] = IntV{L: nl}
			}
		}
	}
	u.G[k] = SegsV{S: []Seg{{Tok: tmp, Hi: nl}}}
	u.Names[tmp] = true
	if !empty {
		u.Assume(GE(nl.AddC(-1)))
	}
	if tmp != tok {
		// what else still mentions the old content is stale
		u.Rename(tok, "<stale>")
		u.Rename(tmp, tok)
	}
}

// ---- tasks ----

func (l *life) addTask(u *State, q Val, kind string) {
	tv := q.(TupV)
	l.w.Check(u, Key(tv.V[0]) == Key(u.G["loop"]), "C07", "own-loop", kind, "a task of the connection is queued to another loop")
	fv, ok := tv.V[1].(FuncV)
	if !ok {
		panic(Undecided{Msg: "a task that is no known function: " + Key(tv.V[1])})
	}
	t := &task{kind: kind, fn: fv, cells: map[string]Val{}, bools: map[string]bool{}, g: map[string]Val{}}
	// memory that came with the task
	seen := map[string]bool{}
	var grab func(v Val)
	grabRoot := func(r string) {
		if seen[r] || l.pre == nil || strings.HasPrefix(r, "glob:") || l.hasRoot(r) {
			return
		}
		seen[r] = true
		for k, v := range u.Heap {
			if CellRoot(k) == r {
				t.cells[k] = v
				grab(v)
			}
		}
	}
	grab = func(v Val) {
		EachVal(v, func(x Val) {
			switch x := x.(type) {
			case PtrV:
				if x.Cell != "" {
					grabRoot(CellRoot(x.Cell))
				}
			case ElemP:
				grabRoot(CellRoot(x.Arr))
			case SliceV:
				if x.Arr != "" {
					grabRoot(CellRoot(x.Arr))
				}
			}
		})
	}
	grab(fv)
	for k, v := range u.Bool {
		if strings.Contains(k, "<DATA>") || strings.Contains(k, "<FINISH>") {
			t.bools[k] = v
		}
	}
	key := kind + "|" + Key(fv)
	var ks []string
	for k := range t.cells {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		key += ";" + k + "=" + Key(t.cells[k])
	}
	if l.tasks[key] == nil {
		l.tasks[key] = t
		l.order = append(l.order, key)
		if len(l.order) > 60 {
			panic(Undecided{Msg: "more than 60 kinds of tasks"})
		}
	}
}

// ---- fixpoint ----

// job is one root to analyse from one base state.
type job struct {
	s   *State
	run func(l *life)

	ended  []ended
	finds  map[string]model.Finding
	checks map[string]int
	roots  int
	err    interface{}
}

// fixpoint analyses every event, task, timer and call from every base state
// until there are no new ones. Roots of one round run concurrently; their
// results are merged in order.
func (l *life) fixpoint() {
	var all []*State
	l.merge(l.ended)
	l.ended = nil
	apis, tasks := 0, map[[2]int]bool{}
	nw := runtime.GOMAXPROCS(0)
	if nw > 8 {
		nw = 8
	}
	for i := 0; i < nw; i++ {
		k := bareLife(l.p, bareWorld(l.p), l.idle)
		for n := range l.w.E.Pinned {
			k.w.E.Pinned[n] = true
		}
		l.workers = append(l.workers, k)
	}
	for {
		all = append(all, l.work...)
		l.work = nil
		var jobs []*job
		add := func(s *State, f func(k *life)) { jobs = append(jobs, &job{s: s, run: f}) }
		for ; apis < len(all); apis++ {
			s := all[apis]
			for _, m := range []int64{1, 2, 3, 0x80, 0x81, 0x82, 0x83, 0} {
				m := m
				add(s, func(k *life) { k.event(s, m) })
			}
			add(s, func(k *life) { k.api(s) })
			add(s, func(k *life) { k.timers(s) })
		}
		for i := range all {
			for j := range l.order {
				if !tasks[[2]int{i, j}] {
					tasks[[2]int{i, j}] = true
					s, t := all[i], l.tasks[l.order[j]]
					add(s, func(k *life) { k.runTask(s, t) })
				}
			}
		}
		if len(jobs) == 0 {
			break
		}
		var next int32 = -1
		var wg sync.WaitGroup
		for _, k := range l.workers {
			k := k
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					i := int(atomic.AddInt32(&next, 1))
					if i >= len(jobs) {
						return
					}
					k.do(jobs[i])
				}
			}()
		}
		wg.Wait()
		for _, j := range jobs {
			for k, f := range j.finds {
				if _, ok := l.w.Findings[k]; !ok {
					l.w.Findings[k] = f
				}
			}
			for k, n := range j.checks {
				l.w.Checked[k] += n
			}
			l.NRoots += j.roots
			if j.err != nil {
				panic(j.err)
			}
			l.pre = j.s
			l.merge(j.ended)
		}
	}
	for _, k := range l.workers {
		for c, m := range k.accs {
			if l.accs[c] == nil {
				l.accs[c] = map[string]acc{}
			}
			for x, a := range m {
				l.accs[c][x] = a
			}
		}
		l.w.E.Join(k.w.E)
	}
}

// do runs a job in a worker.
func (k *life) do(j *job) {
	k.ended, k.NRoots = nil, 0
	k.w.Findings, k.w.Checked = map[string]model.Finding{}, map[string]int{}
	defer func() {
		j.err = recover()
		j.ended, j.finds, j.checks, j.roots = k.ended, k.w.Findings, k.w.Checked, k.NRoots
	}()
	j.run(k)
}

func maskName(m int64) string {
	var p []string
	if m&1 != 0 {
		p = append(p, "read")
	}
	if m&2 != 0 {
		p = append(p, "write")
	}
	if m&0x80 != 0 {
		p = append(p, "error")
	}
	if p == nil {
		return "none"
	}
	return strings.Join(p, "+")
}

func (l *life) start(s *State, thread, root string) *State {
	l.NRoots++
	l.thread, l.root = thread, root
	l.pre = s
	t := s.Clone()
	t.Note("%s", root)
	return t
}

func (l *life) event(s *State, m int64) {
	t := l.start(s, "loop", "event "+maskName(m))
	closed := model.GInt(t, "onclose") > 0
	delete(t.G, "last0")
	var now0 = Key(t.G["now"])
	for _, u := range callVal(l.w, t, t.G["handler"], IntV{L: At(fdAtom)}, cst(m)) {
		if !closed && l.idle {
			if l.w.Check(u, Key(u.G["now"]) != now0, "C12", "activity", "event handling", "an event (%s) does not read the clock, so it cannot count as activity", maskName(m)) {
				// the first reading of the clock in this event
				u.G["last"] = u.G["now"]
			}
		}
		if m&0x80 != 0 {
			l.w.Check(u, model.GInt(u, "onclose") == 1, "C05", "error-closes", "event handling", "an error event (%s) does not close the connection", maskName(m))
		}
		l.rootDone(u, "event "+maskName(m))
	}
}

func (l *life) runTask(s *State, tk *task) {
	t := l.start(s, "loop", "task of "+tk.kind)
	for k, v := range tk.cells {
		if _, ok := t.Heap[k]; ok {
			panic(Undecided{Msg: "memory of a task is shared with the connection: " + k})
		}
		t.Heap[k] = v
	}
	for k, v := range tk.bools {
		t.Bool[k] = v
	}
	open := model.GInt(s, "onclose") == 0
	for _, u := range callVal(l.w, t, tk.fn) {
		where := "task of " + tk.kind
		switch {
		case strings.HasPrefix(tk.kind, "Send"):
			if open {
				l.w.Check(u, model.GInt(u, "sent") == 1, "C22", "sent", where, "the data of a Send on an open connection is not packed and sent")
				if strings.Contains(tk.kind, "with") && model.GInt(u, "onclose") == 0 {
					l.w.Check(u, model.GInt(u, "finished") == 1, "C22", "finished", where, "the completion function of Send is not called")
				}
			} else {
				l.w.Check(u, model.GInt(u, "sent") == 0 && model.GInt(u, "finished") == 0, "C22", "closed-ignored", where, "a Send that runs after the connection was closed still has an effect")
			}
		case tk.kind == "Close":
			l.w.Check(u, model.GInt(u, "onclose") == 1, "C05", "close-closes", where, "Close does not close the connection")
		case tk.kind == "ShutdownWrite":
			if open {
				l.w.Check(u, model.GInt(u, "shut") == 2, "C22", "shutdown", where, "ShutdownWrite does not shut down exactly the write side")
				l.w.Check(u, model.GInt(u, "onclose") == 0, "C22", "shutdown-open", where, "ShutdownWrite closes the connection")
			} else {
				l.w.Check(u, model.GInt(u, "shut") == 0, "C22", "closed-ignored", where, "ShutdownWrite touches a closed connection")
			}
		}
		l.rootDone(u, "task of "+tk.kind)
	}
}

func (l *life) api(s *State) {
	w := l.w
	open := model.GInt(s, "onclose") == 0
	closedErr := Key(s.Heap["glob:"+model.Gev+".ErrConnectionClosed|"])
	conn := s.G["conn"]
	iface := types.NewInterfaceType(nil, nil)
	data := func(t *State) Val {
		t.Bool["nil(<DATA>)"] = false
		t.Names["<DATA>"] = true
		return OpqV{N: "<DATA>", T: iface}
	}
	type root struct {
		name string
		run  func(t *State) []*State
	}
	roots := []root{
		{"Send", func(t *State) []*State {
			return call(w, t, w.Fn(model.Gev, "Connection.Send"), conn, data(t), SliceV{})
		}},
		{"Send with completion function", func(t *State) []*State {
			ft := w.Type(model.Gev, "SendInLoopFunc")
			t.Bool["nil(<FINISH>)"] = false
			var outs []*State
			for _, u := range call(w, t, w.Fn(model.Gev, "SendInLoop"), OpqV{N: "<FINISH>", T: ft}) {
				ot := w.Type(model.Gev, "ConnectionOption")
				u.Heap["new:<sendopts>"] = ArrV{Len: C(1), Elem: ot}.Write(u, Lin{}, C(1), []Seg{{V: u.Res[0], Hi: C(1)}})
				outs = append(outs, call(w, u, w.Fn(model.Gev, "Connection.Send"), conn, data(u), SliceV{Arr: "new:<sendopts>", Len: C(1), Cap: C(1)})...)
			}
			return outs
		}},
		{"Close", func(t *State) []*State { return call(w, t, w.Fn(model.Gev, "Connection.Close"), conn) }},
		{"ShutdownWrite", func(t *State) []*State { return call(w, t, w.Fn(model.Gev, "Connection.ShutdownWrite"), conn) }},
	}
	for _, r := range roots {
		t := l.start(s, "any", r.name)
		outs := r.run(t)
		w.Check(t, len(outs) > 0, "C22", "returns", r.name, "%s does not return", r.name)
		for _, u := range outs {
			q := model.GList(u, "queue")
			err := u.Res[0]
			if open {
				w.Check(u, isNilErr(err), "C22", "accepted", r.name, "%s on an open connection gives %s", r.name, Key(err))
				w.Check(u, len(q) == 1, "C22", "queued-once", r.name, "%s on an open connection queues %d tasks", r.name, len(q))
			} else {
				w.Check(u, Key(err) == closedErr, "C22", "closed-error", r.name, "%s on a closed connection gives %s instead of the closed error", r.name, Key(err))
				w.Check(u, len(q) == 0, "C22", "closed-no-task", r.name, "%s on a closed connection queues a task", r.name)
			}
			l.rootDone(u, r.name)
		}
	}
	// plain queries
	for _, q := range []string{"Connected", "ReadBufferLength", "WriteBufferLength", "PeerAddr"} {
		t := l.start(s, "any", q)
		for _, u := range call(w, t, w.Fn(model.Gev, "Connection."+q), conn) {
			l.rootDone(u, q)
		}
	}
}

// timers lets the idle timer fire.
func (l *life) timers(s *State) {
	w := l.w
	tl := model.GList(s, "timers")
	open := model.GInt(s, "onclose") == 0
	act := 0
	for i, tm := range tl {
		tv := tm.(TupV)
		if Key(tv.V[3]) == "1" {
			act++
		}
		t := l.start(s, "timer", "idle timer")
		var rest []Val
		rest = append(rest, tl[:i]...)
		rest = append(rest, tl[i+1:]...)
		if len(rest) > 0 {
			t.G["timers"] = ListV{V: rest}
		} else {
			delete(t.G, "timers")
		}
		for _, u := range callVal(w, t, tv.V[2]) {
			q := model.GList(u, "queue")
			var armed []TupV
			nt := model.GList(u, "timers")
			for _, x := range nt[len(rest):] {
				armed = append(armed, x.(TupV))
			}
			where := "idle timer"
			if !open {
				w.Check(u, len(armed) == 0, "C12", "closed-not-rearmed", where, "the idle timer of a closed connection is armed again")
				l.rootDone(u, "idle timer")
				continue
			}
			now, ok1 := u.G["now"].(IntV)
			last, ok2 := u.G["last"].(IntV)
			if !ok1 || !ok2 {
				w.Fail(u, "C12", "clock", where, "the idle timer does not compare the clock with the last activity")
				continue
			}
			el := now.L.Sub(last.L)
			idle := At("pos(<idle>)")
			w.Check(u, len(q)+len(armed) > 0, "C12", "goes-on", where, "the idle timer neither closes the connection nor is armed again")
			if len(q) > 0 {
				model.GSet(u, "closing", 1)
				w.Check(u, u.EntailsGE(el.Sub(idle)), "C12", "not-early", where, "the idle timer closes a connection that may have been idle for less than the limit")
			}
			for _, a := range armed {
				d := w.E.Lin(a.V[1])
				w.Check(u, u.EntailsGE(idle.Sub(el).Sub(d)), "C12", "not-late", where, "the idle timer is armed again for %s, later than the remaining time", d)
			}
			if len(q) == 0 && len(armed) > 0 {
				w.Check(u, u.EntailsGE(idle.Sub(el).AddC(-1)), "C12", "closes-when-due", where, "the idle timer does not close a connection whose limit has passed")
			}
			l.rootDone(u, "Close")
		}
	}
	if l.idle && open && model.GInt(s, "closing") == 0 {
		w.Check(s, act == 1, "C12", "one-timer", "idle timer", "an open connection with an idle limit has %d active idle timers", act)
	}
}

// ---- checks at the end of a root ----

func (l *life) endChecks(u *State, root string) {
	w := l.w
	where := root
	conn := u.G["conn"]
	closed := model.GInt(u, "onclose") > 0
	fdState := model.GInt(u, "fd:"+fdAtom)
	for k, v := range u.G {
		if strings.HasPrefix(k, "lock:") {
			w.Check(u, false, "C09", "lock-released", where, "a lock is still held at the end (%s)", Key(v))
		}
	}
	if closed {
		w.Check(u, fdState == 2, "C05", "descriptor-closed", where, "the connection is closed but its descriptor stays open")
		for k, v := range u.Heap {
			if r, ok := v.(RingV); ok && r.Pool {
				w.Check(u, r.Put == 1, "C05", "buffers-released", where, "a pooled buffer of the closed connection is not returned (%s)", k)
			}
		}
		for _, t := range model.GList(u, "timers") {
			if strings.HasPrefix(root, "event") || strings.HasPrefix(root, "task") {
				w.Check(u, Key(t.(TupV).V[3]) != "1", "C05", "timer-stopped", where, "the idle timer of the closed connection is still running")
			}
		}
	} else {
		w.Check(u, fdState == 1, "C05", "close-complete", where, "the descriptor is closed but OnClose was not called")
		for k, v := range u.Heap {
			if r, ok := v.(RingV); ok && r.Pool {
				w.Check(u, r.Put == 0, "C05", "close-complete", where, "a buffer of an open connection was returned to the pool (%s)", k)
			}
		}
		w.Check(u, model.GInt(u, "ended") == 0, "C05", "peer-end-closes", where, "the peer ended the stream but the connection stays open")
		w.Check(u, model.GInt(u, "broken") == 0, "C05", "failure-closes", where, "reading or writing failed but the connection stays open")
		w.Check(u, u.G["pend"] == nil, "C04", "deliver-all", where, "a decoded message is not delivered")
		w.Check(u, u.G["reply"] == nil, "C04", "reply-sent", where, "a reply of OnMessage is not packed")
		w.Check(u, model.GInt(u, "more") == 0 || strings.HasPrefix(root, "task"), "C04", "decode-until-none", where, "decoding stops although the decoder may have more messages")
		// unsent bytes are in a buffer
		uns, in := NormSegs(u, model.GSegs(u, "unsent")), NormSegs(u, model.GSegs(u, "in"))
		nu, ni := SegsLen(uns), SegsLen(in)
		holdU, holdI, stray := u.EntailsEQ(nu), u.EntailsEQ(ni), ""
		for k, v := range u.Heap {
			r, ok := v.(RingV)
			if !ok || r.Mode != 'o' {
				continue
			}
			if r.Flag && !u.EntailsEQ(SegsLen(r.S)) {
				stray = k
				continue
			}
			switch {
			case SameSegs(u, r.S, uns) && !u.EntailsEQ(nu):
				holdU = true
			case SameSegs(u, r.S, in) && !u.EntailsEQ(ni):
				holdI = true
			case u.EntailsEQ(SegsLen(r.S)):
			default:
				stray = k
			}
		}
		prop := "C01"
		if model.FreshPkt(uns) && strings.HasPrefix(root, "event") {
			prop = "C01,C04" // replies of this event
		}
		w.Check(u, holdU, prop, "kept", where, "bytes that were not written [%s] are not kept in order in a buffer", Key(SegsV{S: uns}))
		w.Check(u, holdI, "C03", "kept", where, "bytes that were not decoded [%s] are not kept in order in a buffer", Key(SegsV{S: in}))
		if stray != "" {
			p := "C01"
			if !holdI {
				p = "C03"
			}
			w.Check(u, false, p, "stray", where, "a buffer holds bytes [%s] that are neither all unsent bytes nor all undecoded bytes", Key(SegsV{S: u.Heap[stray].(RingV).S}))
		}
		// interest
		if m, ok := u.G["int:"+fdAtom]; ok {
			ev := w.E.Lin(m)
			if w.Check(u, ev.IsC(), "C02", "known-interest", where, "the registered events are not constant") {
				w.Check(u, ev.C&1 != 0, "C02", "read-interest", where, "the connection is not registered for reading")
				if model.GInt(u, "excused") == 0 {
					if u.EntailsGE(nu.AddC(-1)) {
						w.Check(u, ev.C&4 != 0, "C02", "write-interest", where, "bytes are waiting to be written but the connection is not registered for writing")
					} else if u.EntailsEQ(nu) {
						w.Check(u, ev.C&4 == 0, "C02", "no-write-interest", where, "nothing is waiting to be written but the connection is registered for writing")
					} else {
						w.Check(u, false, "C02", "write-interest", where, "whether bytes wait to be written is not decided where the interest is set")
					}
				}
			}
		} else {
			w.Check(u, model.GInt(u, "addfailed") == 1, "C02", "registered", where, "an open connection is not registered for events")
		}
		// reported lengths
		l.thread = ""
		l.query(u, "ReadBufferLength", conn, func(t *State, v Val) {
			w.Check(t, t.EntailsEQ(w.E.Lin(v).Sub(ni)), "C21", "read-length", where, "ReadBufferLength gives %s with [%s] undecoded", Key(v), Key(SegsV{S: in}))
		})
		l.query(u, "WriteBufferLength", conn, func(t *State, v Val) {
			w.Check(t, t.EntailsEQ(w.E.Lin(v).Sub(nu)), "C21", "write-length", where, "WriteBufferLength gives %s with [%s] unsent", Key(v), Key(SegsV{S: uns}))
		})
	}
	l.thread = ""
	l.query(u, "Connected", conn, func(t *State, v Val) {
		want := 1
		if closed {
			want = 0
		}
		w.Check(t, t.Decide(v.(BoolV).C) == want, "C05", "connected-flag", where, "Connected does not tell whether the connection is open")
	})
	// connection count
	if model.GInt(u, "addfailed") == 0 || closed {
		_, reg := u.G["int:"+fdAtom]
		want := int64(0)
		if reg {
			want = 1
		}
		s := u.Clone()
		for _, t := range call(w, s, w.Fn(model.Loop, "EventLoop.ConnectionCount"), u.G["loop"]) {
			n := C(want)
			if c0, ok := u.G["count:"+Key(u.G["loop"])].(IntV); ok {
				n = n.Add(c0.L) // the other connections
			}
			w.Check(t, t.EntailsEQ(w.E.Lin(t.Res[0]).Sub(n)), "C18", "count", where, "ConnectionCount gives %s, the loop serves %s connections", Key(t.Res[0]), n)
		}
	}
}

func (l *life) query(u *State, name string, conn Val, f func(t *State, v Val)) {
	s := u.Clone()
	for _, t := range call(l.w, s, l.w.Fn(model.Gev, "Connection."+name), conn) {
		f(t, t.Res[0])
	}
}

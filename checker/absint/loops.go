package absint

import (
	"fmt"
	"sort"
	"strings"
)

// head collects what arrived at one loop header in one calling context.
type head struct {
	n     int
	w     *State // the generalised state, once widening has started
	last  *State
	syms  map[string]bool
	nsym  int
	rough map[string]bool
}

// joinHead is called when s enters a loop header. Arrivals are kept apart at
// first; then numeric components that differ are widened to fresh unknowns that
// keep only the facts true of every arrival, until nothing new arrives.
func (e *Engine) joinHead(s *State) []*State {
	forked := s.forked
	s.forked = false
	if e.Direct && !forked {
		// a single path whose loops may end by themselves
		if e.direct++; e.direct < 4000 {
			return []*State{s}
		}
	}
	s.GC(e)
	if e.covered(s) {
		return nil
	}
	var ctx strings.Builder
	for _, f := range s.Frames {
		fmt.Fprintf(&ctx, "%s@%d.%d|", f.Fn.String(), f.Blk.Index, f.PC)
	}
	c := ctx.String()
	rough := e.shape(s, false)
	cnt := e.heads["cnt:"+c+rough]
	if cnt == nil {
		cnt = &head{rough: map[string]bool{}}
		e.heads["cnt:"+c+rough] = cnt
	}
	fine := e.shape(s, true)
	cnt.rough[fine] = true
	sh := fine
	if len(cnt.rough) > e.Shapes {
		sh = "~" + rough
	}
	h := e.heads[c+sh]
	if h == nil {
		h = &head{syms: map[string]bool{}}
		e.heads[c+sh] = h
	}
	h.n++
	if e.Debug {
		fmt.Printf("HEAD %s n=%d fine=%d rough=%v\n%s\n", c, h.n, len(cnt.rough), strings.HasPrefix(sh, "~"), strings.ReplaceAll(s.Key(), "\n", "\n   "))
	}
	if h.n <= e.Unroll {
		h.last = s.Clone()
		return []*State{s}
	}
	if h.w == nil {
		h.w = h.last
	}
	w := e.generalise(h, s, c)
	if e.Debug {
		if w == nil {
			fmt.Println("ABSORBED")
		} else {
			fmt.Println("WIDENED", strings.ReplaceAll(w.Key(), "\n", "\n   "))
		}
	}
	if w == nil {
		return nil
	}
	h.w = w
	return []*State{w.Clone()}
}

// covered reports whether an earlier state at the same place, with the same
// memory and no more facts, was explored already; otherwise it records s.
func (e *Engine) covered(s *State) bool { return e.Covered(s, e.visited) }

// Covered does the same with a table of the caller.
func (e *Engine) Covered(s *State, visited map[string][]*State) bool {
	lin, ne, bl := s.Lin, s.Ne, s.Bool
	s.Lin, s.Ne, s.Bool = nil, nil, nil
	key := s.Key()
	s.Lin, s.Ne, s.Bool = lin, ne, bl
	for _, o := range visited[key] {
		ok := true
		for k, v := range o.Bool {
			if sv, has := bl[k]; !has || sv != v {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		for _, f := range o.Lin {
			if !s.EntailsGE(f) {
				ok = false
				break
			}
		}
		for _, f := range o.Ne {
			if ok && !s.EntailsNE(f) {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	o := &State{Lin: append([]Lin(nil), lin...), Ne: append([]Lin(nil), ne...), Bool: map[string]bool{}}
	for k, v := range bl {
		o.Bool[k] = v
	}
	visited[key] = append(visited[key], o)
	return false
}

// walkLins visits the numeric components in a fixed order and rewrites them.
// loc is 'E' for locals, 'H' for memory, 'G' for monitors.
func (s *State) walkLins(f func(loc byte, l Lin) Lin) {
	var cur byte
	m := mapper{}
	lin := func(l Lin) Lin { return f(cur, l) }
	m.lin = lin
	walk := func(v Val) Val { return m.numeric(v) }
	for _, fr := range s.Frames {
		cur = 'E'
		ks := make([]string, 0, len(fr.Env))
		byName := map[string]int{}
		type ent struct {
			n string
			k interface{}
		}
		_ = byName
		vals := sortedEnv(fr)
		for _, k := range vals {
			ks = append(ks, k.Name())
			fr.Env[k] = walk(fr.Env[k])
		}
		for i := range fr.Defers {
			fr.Defers[i].fn = walk(fr.Defers[i].fn)
			for j := range fr.Defers[i].args {
				fr.Defers[i].args[j] = walk(fr.Defers[i].args[j])
			}
		}
	}
	for i, mp := range []map[string]Val{s.Heap, s.G} {
		cur = "HG"[i]
		ks := make([]string, 0, len(mp))
		for k := range mp {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			mp[k] = walk(mp[k])
		}
	}
}

// numeric rewrites the linear forms in v, leaving conditions and bits alone.
func (m mapper) numeric(v Val) Val {
	switch v := v.(type) {
	case BoolV, BVV:
		return v
	case StructV:
		r := StructV{T: v.T}
		for _, x := range v.F {
			r.F = append(r.F, m.numeric(x))
		}
		return r
	case IfaceV:
		return IfaceV{v.T, m.numeric(v.V)}
	case FuncV:
		r := FuncV{Fn: v.Fn}
		for _, x := range v.Bind {
			r.Bind = append(r.Bind, m.numeric(x))
		}
		return r
	case TupV:
		var r TupV
		for _, x := range v.V {
			r.V = append(r.V, m.numeric(x))
		}
		return r
	case ListV:
		var r ListV
		for _, x := range v.V {
			r.V = append(r.V, m.numeric(x))
		}
		return r
	case MapC:
		return v
	}
	return m.v(v)
}

// shape is the state's text without numbers. With consts, constant integers in
// memory and monitors stay part of it.
func (e *Engine) shape(s *State, consts bool) string {
	t := s.Clone()
	for k := range e.Counters {
		if _, ok := t.G[k]; ok {
			t.G[k] = IntV{At("#")}
		}
	}
	t.walkLins(func(loc byte, l Lin) Lin {
		if consts && loc != 'E' && l.IsC() {
			return l
		}
		return At("#")
	})
	t.Lin, t.Ne = nil, nil
	return t.Key()
}

func (s *State) linList() []Lin {
	t := s.Clone()
	var r []Lin
	t.walkLins(func(loc byte, l Lin) Lin {
		r = append(r, l)
		return l
	})
	return r
}

// generalise returns the widened state covering h.w and s, or nil when h.w
// already covers s.
func (e *Engine) generalise(h *head, s *State, ctx string) *State {
	// the widened unknowns of earlier arrivals are ordinary values in s
	for w := range h.syms {
		if s.Names[w] || s.mentioned(w) {
			old := w[:len(w)-1] + "'>"
			for i := 0; s.Names[old] && i < s.maxGen(); i++ {
				old = old[:len(old)-1] + "'>"
			}
			s.Rename(w, old)
			s.renameFacts(w, old)
		}
	}
	lw, ls := h.w.linList(), s.linList()
	if len(lw) != len(ls) {
		panic(Undecided{"loop states of different form"})
	}
	sub := map[string]Lin{} // owned atom -> value in s
	defAt := map[string]bool{}
	for i := range lw {
		if a, ok := lw[i].Single(); ok && h.owned(a) && !defAt[a] {
			defAt[a] = true
			sub[a] = ls[i]
		}
	}
	ap := func(l Lin, m map[string]Lin) Lin {
		r := Lin{C: l.C}
		for _, t := range l.T {
			if v, ok := m[t.A]; ok {
				r = r.Add(v.Mul(t.K))
			} else {
				r = r.Add(Lin{T: []Term{t}})
			}
		}
		return r
	}
	type group struct {
		w, s Lin
		atom string
	}
	var groups []*group
	nw := make([]Lin, len(lw))
	newSyms := false
	for i := range lw {
		if s.EntailsEQ(ap(lw[i], sub).Sub(ls[i])) {
			nw[i] = lw[i]
			continue
		}
		var g *group
		for _, x := range groups {
			if x.w.Eq(lw[i]) && s.EntailsEQ(x.s.Sub(ls[i])) {
				g = x
			}
		}
		// a fixed distance from a group already there?
		if g == nil {
			done := false
			for _, x := range groups {
				if d := lw[i].Sub(x.w); s.EntailsEQ(ls[i].Sub(x.s).Sub(ap(d, sub))) {
					nw[i] = At(x.atom).Add(d)
					done = true
					break
				}
				if d := lw[i].Add(x.w); s.EntailsEQ(ls[i].Add(x.s).Sub(ap(d, sub))) {
					nw[i] = d.Sub(At(x.atom))
					done = true
					break
				}
			}
			if done {
				continue
			}
			newSyms = true
			h.nsym++
			n := fmt.Sprintf("<loop%s.%d>", headName(s), h.nsym)
			g = &group{lw[i], ls[i], "i(" + n + ")"}
			groups = append(groups, g)
			h.syms[n] = true
		}
		nw[i] = At(g.atom)
	}
	valW, valS := map[string]Lin{}, map[string]Lin{}
	for k, v := range sub {
		valS[k] = v
	}
	for _, g := range groups {
		valW[g.atom], valS[g.atom] = g.w, g.s
	}
	// facts
	cand := append([]Lin(nil), h.w.Lin...)
	if newSyms {
		atoms := map[string]bool{}
		addA := func(l Lin) {
			for _, t := range l.T {
				atoms[t.A] = true
			}
		}
		for _, l := range h.w.Lin {
			addA(l)
		}
		for _, l := range s.Lin {
			addA(l)
		}
		for _, l := range nw {
			addA(l)
		}
		for _, g := range groups {
			atoms[g.atom] = true
		}
		var as []string
		for a := range atoms {
			as = append(as, a)
		}
		sort.Strings(as)
		for _, g := range groups {
			x := At(g.atom)
			cand = append(cand, x.AddC(-1), x, x.Neg())
			if g.w.IsC() {
				cand = append(cand, x.AddC(-g.w.C), x.Neg().AddC(g.w.C))
			}
			for _, a := range as {
				if a == g.atom {
					continue
				}
				d := At(a).Sub(x)
				cand = append(cand, d.AddC(-1), d, d.Neg().AddC(-1), d.Neg())
				if k := g.w.Sub(ap(At(a), valW)); k.IsC() {
					cand = append(cand, d.AddC(k.C), d.Neg().AddC(-k.C))
				}
				for _, b := range as {
					if b != a && b != g.atom {
						cand = append(cand, At(b).Sub(x).Sub(At(a)), At(b).Add(At(a)).Sub(x), x.Add(At(a)).Sub(At(b)))
					}
				}
			}
		}
		for _, f := range s.Lin {
			cand = append(cand, f)
		}
		// what is known of the values that the new unknowns stand for
		for _, g := range groups {
			for _, v := range []struct {
				l  Lin
				fs []Lin
			}{{g.w, h.w.Lin}, {g.s, s.Lin}} {
				if v.l.IsC() {
					// a number that another value has, too
					for i, f := range v.fs {
						for _, g2 := range v.fs[i+1:] {
							if f.Add(g2).Eq(Lin{}) {
								d := At(g.atom).Sub(v.l)
								cand = append(cand, d.Add(f), d.Sub(f), d.Add(f).Neg(), d.Sub(f).Neg())
							}
						}
					}
				}
				if len(v.l.T) != 1 || v.l.T[0].K != 1 {
					continue
				}
				m := map[string]Lin{v.l.T[0].A: At(g.atom).AddC(-v.l.C)}
				for _, f := range v.fs {
					if g2 := ap(f, m); !g2.Eq(f) {
						cand = append(cand, g2)
					}
				}
			}
		}
	}
	var keep []Lin
	weaker := newSyms
	seen := map[string]bool{}
	w := s.Clone()
	i := 0
	w.walkLins(func(loc byte, l Lin) Lin {
		i++
		return nw[i-1]
	})
	w.Lin, w.Ne = nil, nil
	oldSet := map[string]bool{}
	for _, f := range h.w.Lin {
		oldSet[f.String()] = true
	}
	try := func(f Lin) {
		f = norm(f)
		k := f.String()
		if f.IsC() || seen[k] {
			return
		}
		seen[k] = true
		okW := h.w.EntailsGE(ap(f, valW))
		okS := okW && s.EntailsGE(ap(f, valS))
		if okS {
			keep = append(keep, f)
		} else if oldSet[k] {
			weaker = true
		}
	}
	for _, f := range cand {
		try(f)
	}
	if weaker {
		// what the lost facts implied about the unknowns of this loop
		atoms := map[string]bool{}
		for _, l := range nw {
			for _, t := range l.T {
				atoms[t.A] = true
			}
		}
		var as []string
		for a := range atoms {
			as = append(as, a)
		}
		sort.Strings(as)
		for _, x := range as {
			if !h.owned(x) {
				continue
			}
			for _, a := range as {
				if a != x {
					d := At(x).Sub(At(a))
					for _, k := range []int64{-1, 0, 1} {
						try(d.AddC(k))
						try(d.Neg().AddC(k))
					}
				}
			}
		}
	}
	for _, f := range keep {
		if !w.EntailsGE(f) {
			w.Lin = append(w.Lin, f)
		}
	}
	for _, f := range h.w.Ne {
		if s.EntailsNE(ap(f, valS)) {
			w.Ne = append(w.Ne, f)
		} else {
			weaker = true
		}
	}
	for k, v := range h.w.Bool {
		if sv, ok := s.Bool[k]; !ok || sv != v {
			weaker = true
			delete(w.Bool, k)
		}
	}
	for k := range w.Bool {
		if _, ok := h.w.Bool[k]; !ok {
			delete(w.Bool, k)
		}
	}
	if !weaker {
		return nil
	}
	for _, g := range groups {
		w.Names[g.atom[2:len(g.atom)-1]] = true
	}
	w.Note("loop at %s: widened", e.Pos(w.top().Blk.Instrs[0]))
	return w
}

func (h *head) owned(a string) bool {
	return strings.HasPrefix(a, "i(<loop") && h.syms[a[2:len(a)-1]]
}

func headName(s *State) string {
	f := s.top()
	n := f.Fn.Name()
	if f.Fn.Signature.Recv() != nil {
		n = typeName(deref(f.Fn.Signature.Recv().Type())) + "_" + n
	}
	n = n[strings.LastIndexAny(n, "/.")+1:]
	return fmt.Sprintf("%s_%d_%d", n, f.Blk.Index, len(s.Frames))
}

func (s *State) renameFacts(old, new string) {}

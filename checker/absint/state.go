package absint

import (
	"fmt"
	"hash/maphash"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Frame is one activation.
type Frame struct {
	Fn     *ssa.Function
	Blk    *ssa.BasicBlock
	Prev   *ssa.BasicBlock
	PC     int
	Env    map[ssa.Value]Val
	Defers []deferred
	// Ret, when set, receives the results instead of the caller's environment.
	Ret func(e *Engine, st *State, res []Val) []*State
	// Thread is the name of the goroutine that begins with this frame.
	Thread string
}

type deferred struct {
	fn   Val
	call *ssa.CallCommon
	args []Val
}

func (f *Frame) clone() *Frame {
	n := *f
	n.Env = make(map[ssa.Value]Val, len(f.Env)+4)
	for k, v := range f.Env {
		n.Env[k] = v
	}
	n.Defers = append([]deferred(nil), f.Defers...)
	return &n
}

// Trail is the path taken, for reports.
type Trail struct {
	Up   *Trail
	Text string
}

// State is one abstract state.
type State struct {
	Frames []*Frame
	Heap   map[string]Val
	Lin    []Lin // each >= 0
	Ne     []Lin // each != 0
	forked bool  // since the last loop head
	// Lack gives the bytes that do not occur in a token.
	Lack  map[string]string
	Bool  map[string]bool
	G     map[string]Val // monitor state
	Names map[string]bool
	Trail *Trail
	Res   []Val // results of the root, at the end
	// Panicked is set when the path ends in a panic.
	Panicked string
	// Ended is the goroutine that ended last.
	Ended  string
	Steps  int
	Gens   int
	hash   hash2
	hashed int
	hashOf *Lin
}

func NewState() *State {
	return &State{Heap: map[string]Val{}, Bool: map[string]bool{}, G: map[string]Val{}, Names: map[string]bool{}}
}

func (s *State) Clone() *State {
	n := &State{
		Heap: make(map[string]Val, len(s.Heap)), Bool: make(map[string]bool, len(s.Bool)),
		G: make(map[string]Val, len(s.G)), Names: make(map[string]bool, len(s.Names)),
		Lin: append([]Lin(nil), s.Lin...), Ne: append([]Lin(nil), s.Ne...), Trail: s.Trail, Res: s.Res,
		Panicked: s.Panicked, Steps: s.Steps, Gens: s.Gens, Lack: s.Lack, forked: s.forked,
	}
	for k, v := range s.Heap {
		n.Heap[k] = v
	}
	for k, v := range s.Bool {
		n.Bool[k] = v
	}
	for k, v := range s.G {
		n.G[k] = v
	}
	for k := range s.Names {
		n.Names[k] = true
	}
	for _, f := range s.Frames {
		n.Frames = append(n.Frames, f.clone())
	}
	return n
}

func (s *State) top() *Frame { return s.Frames[len(s.Frames)-1] }

func (s *State) Note(f string, a ...interface{}) {
	s.Trail = &Trail{s.Trail, fmt.Sprintf(f, a...)}
}

// Path returns the last n notes of the trail.
func (s *State) Path(n int) []string {
	var r []string
	for t := s.Trail; t != nil && len(r) < n; t = t.Up {
		r = append([]string{t.Text}, r...)
	}
	return r
}

// ---- facts ----

// bounds returns the implied range of an atom.
func atomBounds(a string) (lo, hi int64, hasLo, hasHi bool) {
	switch {
	case strings.HasPrefix(a, "len("), strings.HasPrefix(a, "nn("):
		return 0, 0, true, false
	case strings.HasPrefix(a, "b("), strings.HasPrefix(a, "u8("):
		return 0, 255, true, true
	case strings.HasPrefix(a, "be2("), strings.HasPrefix(a, "u16("):
		return 0, 65535, true, true
	case strings.HasPrefix(a, "be4("), strings.HasPrefix(a, "u32("):
		return 0, 1<<32 - 1, true, true
	case strings.HasPrefix(a, "pos("):
		return 1, 0, true, false
	case strings.HasPrefix(a, "bv["):
		n := strings.Count(a, ",") + 1
		// leading zero bits were trimmed
		if n < 62 {
			return 0, 1<<uint(n) - 1, true, true
		}
		return 0, 0, true, false
	}
	return
}

func (s *State) cone(q Lin, extra []Lin) []Lin {
	in := make(map[string]bool, 16)
	var work []Lin
	addAtoms := func(l Lin) {
		for _, t := range l.T {
			in[t.A] = true
		}
	}
	addAtoms(q)
	for _, x := range extra {
		addAtoms(x)
	}
	used := make([]bool, len(s.Lin))
	for ch := true; ch; {
		ch = false
		for i, f := range s.Lin {
			if used[i] {
				continue
			}
			for _, t := range f.T {
				if in[t.A] {
					used[i] = true
					ch = true
					addAtoms(f)
					work = append(work, f)
					break
				}
			}
		}
	}
	for a := range in {
		lo, hi, hl, hh := atomBounds(a)
		if hl {
			work = append(work, At(a).AddC(-lo))
		}
		if hh {
			work = append(work, C(hi).Sub(At(a)))
		}
	}
	return work
}

type hash2 struct{ a, b uint64 }

var hseed1, hseed2 = maphash.MakeSeed(), maphash.MakeSeed()

func (l Lin) hash() hash2 {
	var h hash2
	for _, t := range l.T {
		k := uint64(t.K) * 0x9E3779B97F4A7C15
		h.a += (maphash.String(hseed1, t.A) ^ k) * 0xff51afd7ed558ccd
		h.b += (maphash.String(hseed2, t.A) ^ k) * 0xc4ceb9fe1a85ec53
	}
	h.a ^= uint64(l.C)*0x9E3779B97F4A7C15 + 0x1234567
	h.b ^= uint64(l.C)*0xc2b2ae3d27d4eb4f + 0x7654321
	h.a ^= h.a >> 29
	h.a *= 0xbf58476d1ce4e5b9
	h.b ^= h.b >> 31
	h.b *= 0x94d049bb133111eb
	return h
}

func (s *State) factHash() hash2 {
	if s.hashed == len(s.Lin) && s.hashed > 0 && &s.Lin[0] == s.hashOf {
		return s.hash
	}
	var h hash2
	for _, f := range s.Lin {
		x := f.hash()
		h.a += x.a
		h.b += x.b
	}
	if len(s.Lin) > 0 {
		s.hash, s.hashed, s.hashOf = h, len(s.Lin), &s.Lin[0]
	}
	return h
}

// EntailsGE reports whether l >= 0 follows from the facts.
func (s *State) EntailsGE(l Lin) bool {
	if l.IsC() {
		return l.C >= 0
	}
	if trivial(l) {
		return true
	}
	for _, f := range s.Lin {
		if f.C <= l.C && len(f.T) == len(l.T) {
			same := true
			for i := range f.T {
				if f.T[i] != l.T[i] {
					same = false
					break
				}
			}
			if same {
				return true
			}
		}
	}
	// an atom that nothing bounds on the side that matters
	for _, t := range l.T {
		_, _, hl, hh := atomBounds(t.A)
		if t.K > 0 && hl || t.K < 0 && hh {
			continue
		}
		bounded := false
	scan:
		for _, f := range s.Lin {
			for _, u := range f.T {
				if u.A == t.A && (u.K > 0) == (t.K > 0) {
					bounded = true
					break scan
				}
			}
		}
		if !bounded {
			return false
		}
	}
	fh, lh := s.factHash(), l.hash()
	key := [4]uint64{fh.a, fh.b, lh.a, lh.b}
	m := &entailed[key[0]%memoShards]
	m.Lock()
	r, ok := m.m[key]
	m.Unlock()
	if ok {
		return r
	}
	n := l.Neg().AddC(-1)
	r = infeasible(append(s.cone(n, nil), n))
	m.Lock()
	if m.m == nil || len(m.m) > 60000 {
		m.m = map[[4]uint64]bool{}
	}
	m.m[key] = r
	m.Unlock()
	return r
}

// memo tables, shared by concurrent engines
const memoShards = 64

var entailed [memoShards]struct {
	sync.Mutex
	m map[[4]uint64]bool
}

func (s *State) EntailsEQ(l Lin) bool {
	if l.IsC() {
		return l.C == 0
	}
	return s.EntailsGE(l) && s.EntailsGE(l.Neg())
}

func (s *State) EntailsNE(l Lin) bool {
	if l.IsC() {
		return l.C != 0
	}
	for _, n := range s.Ne {
		if n.Eq(l) || n.Eq(l.Neg()) {
			return true
		}
	}
	if len(l.T) == 1 && s.Lack != nil && strings.HasPrefix(l.T[0].A, "b(") && (l.T[0].K == 1 || l.T[0].K == -1) {
		a := l.T[0].A[2:]
		c := -l.C * l.T[0].K
		if i := strings.LastIndexByte(a, '@'); i >= 0 && c >= 0 && c < 256 && strings.IndexByte(s.Lack[a[:i]], byte(c)) >= 0 {
			return true
		}
	}
	return s.EntailsGE(l.AddC(-1)) || s.EntailsGE(l.Neg().AddC(-1))
}

// Decide returns 1 (true), 0 (false) or -1 (unknown).
func (s *State) Decide(c Cond) int {
	switch c.K {
	case 'c':
		if c.B {
			return 1
		}
		return 0
	case 'g':
		if s.EntailsGE(c.L) {
			return 1
		}
		if s.EntailsGE(c.L.Neg().AddC(-1)) {
			return 0
		}
	case 'e':
		r := -1
		if s.EntailsEQ(c.L) {
			r = 1
		} else if s.EntailsNE(c.L) {
			r = 0
		}
		if r >= 0 && c.Neg {
			r = 1 - r
		}
		return r
	case 'a':
		if v, ok := s.atomVal(c.A); ok {
			if v != c.Neg {
				return 1
			}
			return 0
		}
	}
	return -1
}

// atomVal looks a boolean atom up; a disjunction "or(a|b)" is derived from its parts.
func (s *State) atomVal(a string) (bool, bool) {
	if v, ok := s.Bool[a]; ok {
		return v, true
	}
	if strings.HasPrefix(a, "or(") {
		all := true
		for _, p := range strings.Split(a[3:len(a)-1], "|") {
			v, ok := s.literal(p)
			if ok && v {
				return true, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return false, true
		}
	}
	return false, false
}

// literal is the value of a part of a disjunction, an atom or "!" and an atom.
func (s *State) literal(p string) (v, ok bool) {
	if strings.HasPrefix(p, "!") {
		v, ok = s.Bool[p[1:]]
		return !v, ok
	}
	v, ok = s.Bool[p]
	return v, ok
}

func (s *State) setLiteral(p string, v bool) {
	if strings.HasPrefix(p, "!") {
		p, v = p[1:], !v
	}
	s.Bool[p] = v
}

func (s *State) addLin(l Lin) bool {
	l = norm(l)
	if l.IsC() {
		return l.C >= 0
	}
	if s.EntailsGE(l) {
		return true
	}
	if infeasible(append(s.cone(l, nil), l)) {
		return false
	}
	s.Lin = append(s.Lin, l)
	// sharpen with disequalities
	for _, n := range s.Ne {
		for _, m := range []Lin{n, n.Neg()} {
			if s.EntailsGE(m) && !s.EntailsGE(m.AddC(-1)) {
				if !s.addLin(m.AddC(-1)) {
					return false
				}
			}
		}
	}
	return true
}

// Assume adds a condition; false means it contradicts the facts.
func (s *State) Assume(c Cond) bool {
	switch s.Decide(c) {
	case 1:
		return true
	case 0:
		return false
	}
	switch c.K {
	case 'g':
		return s.addLin(c.L)
	case 'e':
		if !c.Neg {
			return s.addLin(c.L) && s.addLin(c.L.Neg())
		}
		s.Ne = append(s.Ne, c.L)
		for _, m := range []Lin{c.L, c.L.Neg()} {
			if s.EntailsGE(m) {
				if !s.addLin(m.AddC(-1)) {
					return false
				}
			}
		}
		return true
	case 'a':
		v := !c.Neg
		s.Bool[c.A] = v
		if strings.HasPrefix(c.A, "or(") {
			parts := strings.Split(c.A[3:len(c.A)-1], "|")
			var open []string
			for _, p := range parts {
				if pv, ok := s.literal(p); !ok {
					open = append(open, p)
				} else if pv && !v {
					return false
				}
			}
			if !v {
				for _, p := range open {
					s.setLiteral(p, false)
				}
			} else if len(open) == 1 {
				s.setLiteral(open[0], true)
			} else if len(open) == 0 {
				return false
			}
		} else {
			// a part was decided: propagate to known disjunctions
			for k, kv := range s.Bool {
				if kv && strings.HasPrefix(k, "or(") && strings.Contains(k, c.A) {
					any, open := false, ""
					cnt := 0
					for _, p := range strings.Split(k[3:len(k)-1], "|") {
						pv, ok := s.literal(p)
						if !ok {
							cnt++
							open = p
						} else if pv {
							any = true
						}
					}
					if !any && cnt == 0 {
						return false
					}
					if !any && cnt == 1 {
						s.setLiteral(open, true)
					}
				}
			}
		}
		if strings.HasPrefix(c.A, "nil(") && v {
			n := "len(" + c.A[4:]
			return s.addLin(At(n)) && s.addLin(At(n).Neg())
		}
	}
	return true
}

// ---- renaming and collection ----

func (s *State) mapAll(m mapper) {
	h := make(map[string]Val, len(s.Heap))
	for k, v := range s.Heap {
		h[m.s(k)] = m.v(v)
	}
	s.Heap = h
	g := make(map[string]Val, len(s.G))
	for k, v := range s.G {
		g[m.s(k)] = m.v(v)
	}
	s.G = g
	var l []Lin
	for _, f := range s.Lin {
		f = norm(m.l(f))
		if !f.IsC() {
			l = append(l, f)
		}
	}
	s.Lin = l
	var ne []Lin
	for _, f := range s.Ne {
		f = m.l(f)
		if !f.IsC() {
			ne = append(ne, f)
		}
	}
	s.Ne = ne
	b := make(map[string]bool, len(s.Bool))
	for k, v := range s.Bool {
		b[m.s(k)] = v
	}
	s.Bool = b
	for _, f := range s.Frames {
		for k, v := range f.Env {
			f.Env[k] = m.v(v)
		}
		for i := range f.Defers {
			f.Defers[i].fn = m.v(f.Defers[i].fn)
			f.Defers[i].args = m.vs(f.Defers[i].args)
		}
	}
	for i := range s.Res {
		s.Res[i] = m.v(s.Res[i])
	}
}

// Rename gives every occurrence of <old> the name <new>.
func (s *State) Rename(old, new string) {
	s.mapAll(mapper{name: func(x string) string {
		if strings.Contains(x, old) {
			return strings.ReplaceAll(x, old, new)
		}
		return x
	}})
	delete(s.Names, old)
	s.Names[new] = true
}

// mentioned reports whether a name still occurs in the state.
func (s *State) strings(f func(string)) {
	m := mapper{name: func(x string) string { f(x); return x }}
	for k, v := range s.Heap {
		f(k)
		m.v(v)
	}
	for k, v := range s.G {
		f(k)
		m.v(v)
	}
	for _, fr := range s.Frames {
		for _, v := range fr.Env {
			m.v(v)
		}
		for _, d := range fr.Defers {
			m.v(d.fn)
			m.vs(d.args)
		}
	}
	for _, v := range s.Res {
		m.v(v)
	}
}

func (s *State) mentioned(name string) bool {
	hit := false
	s.strings(func(x string) {
		if !hit && strings.Contains(x, name) {
			hit = true
		}
	})
	return hit
}

// MaxGen bounds the live values of one allocation site; State.Gens raises it
// where every path is known to be finite (package initialisation).
const MaxGen = 7

func (s *State) maxGen() int {
	if s.Gens > 0 {
		return s.Gens
	}
	return MaxGen
}

// Fresh reserves the name <base>. The engine has moved an older value of that
// name aside before the call is evaluated (see prepSite).
func (s *State) Fresh(base string) string {
	n := "<" + base + ">"
	for i := 0; s.Names[n]; i++ {
		n = fmt.Sprintf("<%s~%d>", base, i)
	}
	s.Names[n] = true
	return n
}

// prepSite moves the values created by an earlier visit of a site aside.
func (s *State) prepSite(e *Engine, site string) {
	var old []string
	for n := range s.Names {
		if strings.HasPrefix(n, "<"+site+".") && !strings.HasSuffix(n, "'>") {
			old = append(old, n)
		}
	}
	if len(old) == 0 {
		return
	}
	s.GC(e)
	sort.Strings(old)
	for _, n := range old {
		if s.Names[n] {
			s.shift(n[1:len(n)-1], 0)
		}
	}
}

func gen(base string, i int) string { return "<" + base + strings.Repeat("'", i) + ">" }

func (s *State) shift(base string, i int) {
	cur, next := gen(base, i), gen(base, i+1)
	if !s.mentioned(cur) {
		s.dropFacts(cur)
		delete(s.Names, cur)
		return
	}
	if s.Names[next] {
		if s.mentioned(next) {
			if s.mergeTok(next, cur) {
				return
			}
			if i >= s.maxGen() {
				if e := os.Getenv("GEVDUMP"); e != "" {
					fmt.Println("DUMP", base, s.Key())
				}
				panic(Undecided{"too many live values from one site: " + base})
			}
			s.shift(base, i+1)
		} else {
			s.dropFacts(next)
		}
	}
	s.Rename(cur, next)
}

// Undecided is thrown when the analysis cannot go on.
type Undecided struct{ Msg string }

func (s *State) dropFacts(name string) {
	hit := func(l Lin) bool {
		for _, t := range l.T {
			if strings.Contains(t.A, name) {
				return true
			}
		}
		return false
	}
	var l []Lin
	for _, f := range s.Lin {
		if !hit(f) {
			l = append(l, f)
		}
	}
	s.Lin = l
	var ne []Lin
	for _, f := range s.Ne {
		if !hit(f) {
			ne = append(ne, f)
		}
	}
	s.Ne = ne
	for k := range s.Bool {
		if strings.Contains(k, name) {
			delete(s.Bool, k)
		}
	}
}

// allSegs visits every sequence of the state.
func (s *State) eachSegs(f func([]Seg)) {
	vis := func(v Val) {
		switch v := v.(type) {
		case StrV:
			f(v.S)
		case SegsV:
			f(v.S)
		case RingV:
			f(v.S)
		case ArrV:
			var ss []Seg
			for _, p := range v.P {
				ss = append(ss, p.S)
			}
			f(ss)
		}
	}
	for _, v := range s.Heap {
		eachVal(v, vis)
	}
	for _, v := range s.G {
		eachVal(v, vis)
	}
	for _, fr := range s.Frames {
		for _, v := range fr.Env {
			eachVal(v, vis)
		}
		for _, d := range fr.Defers {
			eachVal(d.fn, vis)
			for _, a := range d.args {
				eachVal(a, vis)
			}
		}
	}
}

func fullTok(x Seg, tok string) bool {
	return x.Tok == tok && x.Lo.Eq(Lin{}) && x.Hi.Eq(At("len("+tok+")"))
}

// mergeTok joins token a followed everywhere by token b into one token a.
func (s *State) mergeTok(a, b string) bool {
	ok, seen := true, false
	s.eachSegs(func(l []Seg) {
		for i, x := range l {
			if x.Tok == a {
				if !fullTok(x, a) || i+1 >= len(l) || !fullTok(l[i+1], b) {
					ok = false
				}
				seen = true
			}
			if x.Tok == b {
				if !fullTok(x, b) || i == 0 || !fullTok(l[i-1], a) {
					ok = false
				}
			}
		}
	})
	if !ok || !seen {
		return false
	}
	la, lb := "len("+a+")", "len("+b+")"
	m := mapper{lin: func(l Lin) Lin {
		ka, kb := l.Coef(la), l.Coef(lb)
		if ka == 0 && kb == 0 {
			return l
		}
		if ka == kb {
			return l.Subst(lb, Lin{})
		}
		return l.Subst(la, At("pre"+la)).Subst(lb, At("pre"+lb))
	}}
	// facts that cannot be carried over
	var lin []Lin
	for _, f := range s.Lin {
		if f.Coef(la) == f.Coef(lb) {
			lin = append(lin, f)
		}
	}
	s.Lin = lin
	var ne []Lin
	for _, f := range s.Ne {
		if f.Coef(la) == f.Coef(lb) {
			ne = append(ne, f)
		}
	}
	s.Ne = ne
	drop := func(l []Seg) []Seg {
		var r []Seg
		for i := 0; i < len(l); i++ {
			if l[i].Tok == b {
				continue
			}
			if l[i].Tok == a {
				l[i].Hi = At(la)
			}
			r = append(r, l[i])
		}
		return r
	}
	var fix func(v Val) Val
	fix = func(v Val) Val {
		switch v := v.(type) {
		case StrV:
			return StrV{drop(v.S), v.From}
		case SegsV:
			return SegsV{drop(v.S)}
		case RingV:
			v.S = drop(v.S)
			return v
		case ArrV:
			var ps []Piece
			for i := 0; i < len(v.P); i++ {
				p := v.P[i]
				if p.S.Tok == a {
					p.Hi = v.P[i+1].Hi
					p.S.Hi = At(la)
					i++
				}
				ps = append(ps, p)
			}
			v.P = ps
			return v
		}
		return v
	}
	// structural merge first (on values that hold sequences directly)
	deep := func(v Val) Val { return fix(m.v(copyVal(v))) }
	for k, v := range s.Heap {
		s.Heap[k] = deep(v)
	}
	for k, v := range s.G {
		s.G[k] = deep(v)
	}
	for _, fr := range s.Frames {
		for k, v := range fr.Env {
			fr.Env[k] = deep(v)
		}
		for i := range fr.Defers {
			for j := range fr.Defers[i].args {
				fr.Defers[i].args[j] = deep(fr.Defers[i].args[j])
			}
		}
	}
	s.hashed = -1
	for i := range s.Lin {
		s.Lin[i] = m.l(s.Lin[i])
	}
	for i := range s.Ne {
		s.Ne[i] = m.l(s.Ne[i])
	}
	s.dropFacts("pre" + la)
	s.dropFacts("pre" + lb)
	delete(s.Names, b)
	return true
}

func copyVal(v Val) Val { return mapper{}.v(v) }

// GC removes what can no longer be reached: dead locals, heap cells, facts.
func (s *State) GC(e *Engine) {
	for i, f := range s.Frames {
		live := e.liveAt(f, i == len(s.Frames)-1)
		for k := range f.Env {
			if !live[k] {
				delete(f.Env, k)
			}
		}
	}
	// reachable cells
	var keys []string
	for k := range s.Heap {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	reach := map[string]bool{}
	var work []string
	mark := func(x string) {
		r := cellRoot(x)
		if r != "" && !reach[r] {
			reach[r] = true
			work = append(work, r)
		}
	}
	markVal := func(v Val) {
		eachVal(v, func(v Val) {
			switch v := v.(type) {
			case PtrV:
				mark(v.Cell)
			case ElemP:
				mark(v.Arr)
			case WideP:
				mark(v.P.Arr)
			case SliceV:
				mark(v.Arr)
			}
		})
	}
	for _, f := range s.Frames {
		for _, v := range f.Env {
			markVal(v)
		}
		for _, d := range f.Defers {
			markVal(d.fn)
			for _, a := range d.args {
				markVal(a)
			}
		}
	}
	for _, v := range s.G {
		markVal(v)
	}
	for _, v := range s.Res {
		markVal(v)
	}
	byRoot := map[string][]string{}
	for _, k := range keys {
		r := cellRoot(k)
		byRoot[r] = append(byRoot[r], k)
		if strings.HasPrefix(k, "glob:") || e.Pinned[r] {
			mark(k)
		}
	}
	for len(work) > 0 {
		r := work[len(work)-1]
		work = work[:len(work)-1]
		for _, k := range byRoot[r] {
			markVal(s.Heap[k])
		}
	}
	for _, k := range keys {
		if !reach[cellRoot(k)] {
			delete(s.Heap, k)
		}
	}
	// facts about names that no longer occur
	alive := map[string]bool{}
	s.strings(func(x string) {
		if alive[x] {
			return
		}
		alive[x] = true
		for _, n := range namesIn(x) {
			alive[n] = true
		}
	})
	has := func(a string) bool { return alive[a] }
	// a fact is kept only if all its atoms occur; eliminate atoms that do not
	for iter := 0; iter < 12; iter++ {
		dead := ""
		for _, f := range s.Lin {
			for _, t := range f.T {
				if !has(t.A) && !nameAlive(t.A, has) {
					dead = t.A
				}
			}
		}
		if dead == "" {
			break
		}
		var keep, ps, ns []Lin
		for _, f := range s.Lin {
			switch k := f.Coef(dead); {
			case k > 0:
				ps = append(ps, f)
			case k < 0:
				ns = append(ns, f)
			default:
				keep = append(keep, f)
			}
		}
		lo, hi, hl, hh := atomBounds(dead)
		if hl {
			ps = append(ps, At(dead).AddC(-lo))
		}
		if hh {
			ns = append(ns, C(hi).Sub(At(dead)))
		}
		if len(ps)*len(ns) <= 24 {
			for _, p := range ps {
				for _, n := range ns {
					x := norm(p.Mul(-n.Coef(dead)).Add(n.Mul(p.Coef(dead))))
					if !x.IsC() {
						keep = append(keep, x)
					}
				}
			}
		}
		s.Lin = keep
	}
	s.Lin = dedupLin(s.Lin)
	var useful []Lin
	for _, f := range s.Lin {
		if !trivial(f) {
			useful = append(useful, f)
		}
	}
	s.Lin = useful
	var ne []Lin
	for _, f := range s.Ne {
		ok := true
		for _, t := range f.T {
			if !has(t.A) && !nameAlive(t.A, has) {
				ok = false
			}
		}
		if ok {
			ne = append(ne, f)
		}
	}
	s.Ne = dedupLin(ne)
	for k := range s.Bool {
		names := namesIn(k)
		if len(names) == 0 {
			continue
		}
		ok := false
		for _, n := range names {
			if alive[n] {
				ok = true
			}
		}
		if !ok {
			delete(s.Bool, k)
		}
	}
	for n := range s.Names {
		if !alive[n] {
			delete(s.Names, n)
		}
	}
}

// trivial reports whether f >= 0 follows from the ranges of its atoms alone.
func trivial(f Lin) bool {
	min := f.C
	for _, t := range f.T {
		lo, hi, hl, hh := atomBounds(t.A)
		switch {
		case t.K > 0 && hl:
			min += t.K * lo
		case t.K < 0 && hh:
			min += t.K * hi
		default:
			return false
		}
	}
	return min >= 0
}

func nameAlive(a string, has func(string) bool) bool {
	// atoms derived from a live name (its length, its bytes) stay
	for _, n := range namesIn(a) {
		if has(n) {
			return true
		}
	}
	return false
}

var namesMemo [memoShards]struct {
	sync.Mutex
	m map[string][]string
}

// namesIn lists the <names> in a string, nested ones too.
func namesIn(x string) []string {
	sh := 0
	if len(x) > 0 {
		sh = (len(x) + int(x[len(x)-1])*7 + int(x[len(x)/2])*13) % memoShards
	}
	m := &namesMemo[sh]
	m.Lock()
	r, ok := m.m[x]
	m.Unlock()
	if ok {
		return r
	}
	var open []int
	for i := 0; i < len(x); i++ {
		if x[i] == '<' {
			open = append(open, i)
		} else if x[i] == '>' && len(open) > 0 {
			r = append(r, x[open[len(open)-1]:i+1])
			open = open[:len(open)-1]
		}
	}
	m.Lock()
	if m.m == nil || len(m.m) > 20000 {
		m.m = map[string][]string{}
	}
	m.m[x] = r
	m.Unlock()
	return r
}

// bracketed lists the <names> in a string.
func bracketed(s string) []string {
	var r []string
	for i := 0; i < len(s); i++ {
		if s[i] == '<' {
			d, j := 1, i+1
			for ; j < len(s) && d > 0; j++ {
				if s[j] == '<' {
					d++
				} else if s[j] == '>' {
					d--
				}
			}
			r = append(r, s[i:j])
			i = j - 1
		}
	}
	return r
}

func dedupLin(l []Lin) []Lin {
	sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	var r []Lin
	for i, x := range l {
		if i == 0 || !x.Eq(l[i-1]) {
			r = append(r, x)
		}
	}
	return r
}

// cellRoot is the object part of a cell name.
func cellRoot(c string) string {
	d := 0
	for i := 0; i < len(c); i++ {
		switch c[i] {
		case '<', '(':
			d++
		case '>', ')':
			d--
		case '/':
			if d == 0 && !strings.HasPrefix(c, "glob:") {
				return c[:i]
			}
		}
	}
	if strings.HasPrefix(c, "glob:") {
		if i := strings.Index(c, "|"); i >= 0 {
			return c[:i]
		}
	}
	return c
}

// KeyNoNum renders the state without its numbers (shape), collecting them.
func (s *State) Key() string {
	var b strings.Builder
	for _, f := range s.Frames {
		if f.Thread != "" {
			b.WriteString("|" + f.Thread + ":")
		}
		fmt.Fprintf(&b, "%s@%d.%d{", f.Fn.String(), f.Blk.Index, f.PC)
		type kv struct{ k, v string }
		var kvs []kv
		for k, v := range f.Env {
			kvs = append(kvs, kv{k.Name(), Key(v)})
		}
		sort.Slice(kvs, func(i, j int) bool { return kvs[i].k < kvs[j].k })
		for _, x := range kvs {
			b.WriteString(x.k + "=" + x.v + ";")
		}
		for _, d := range f.Defers {
			b.WriteString("D" + Key(d.fn))
			for _, a := range d.args {
				b.WriteString("," + Key(a))
			}
		}
		b.WriteString("}")
	}
	s.storeKey(&b)
	return b.String()
}

func (s *State) storeKey(b *strings.Builder) {
	wm := func(m map[string]Val) {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			b.WriteString(k + "=")
			wkey(b, m[k])
			b.WriteByte('\n')
		}
	}
	b.WriteString("H:")
	wm(s.Heap)
	b.WriteString("G:")
	wm(s.G)
	b.WriteString("F:")
	var fs []string
	for _, f := range s.Lin {
		fs = append(fs, f.String())
	}
	for _, f := range s.Ne {
		fs = append(fs, f.String()+"!=0")
	}
	for k, v := range s.Bool {
		fs = append(fs, fmt.Sprintf("%s=%v", k, v))
	}
	sort.Strings(fs)
	b.WriteString(strings.Join(fs, ";"))
}

// StoreKey is the canonical text of heap, monitors and facts.
func (s *State) StoreKey() string {
	var b strings.Builder
	s.storeKey(&b)
	return b.String()
}

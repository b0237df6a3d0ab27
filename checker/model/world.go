// Package model gives the environment of the module (kernel calls, ring
// buffers, atomics, locks, timers, user callbacks) as abstract transfer
// functions, together with the monitors that observe them.
package model

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	. "gevcheck/absint"

	"golang.org/x/tools/go/ssa"
)

// Finding is one violation of a rule.
type Finding struct {
	Prop, Rule, Where, Msg string
	Path                   []string
}

func (f Finding) Key() string { return f.Prop + "|" + f.Rule + "|" + f.Where }

// ID names the finding independent of line numbers.
func (f Finding) ID() string {
	w := f.Where
	if i := strings.Index(w, " ("); i > 0 {
		w = strings.TrimSuffix(w[i+2:], ")")
	}
	return f.Rule + "@" + strings.ReplaceAll(w, " ", "_")
}

// Is tells whether the finding breaks property p.
func (f Finding) Is(p string) bool {
	for _, x := range strings.Split(f.Prop, ",") {
		if x == p {
			return true
		}
	}
	return false
}

// World is the environment model.
type World struct {
	E        *Engine
	Errno    types.Type
	Findings map[string]Finding
	Fails    int // every violation, repeated ones too
	// Checked counts the obligations evaluated, by property and rule.
	Checked map[string]int
	// hooks
	Quiet bool
	// ModFails makes changes of a registration fail too.
	CtlFails bool
	// OnCall sees every call of a user function before its model runs.
	User func(c *Call, kind string) []Out
	// WakeWorks: writing to an event descriptor does not fail.
	WakeWorks bool
	// Fork limits
	PlainQueue bool // QueueInLoop is a monitor event
	// LockProp is the property broken by wrong use of a lock.
	LockProp string
	// Absent gives the texts that do not occur in a token.
	Absent map[string][]string
	// Writers are the models of the writers of other types.
	Writers map[string]func(st *State, to Val, ss []Seg)
	// FdHook sees every system call on a connection's descriptor.
	FdHook     func(c *Call, what string)
	LockHook   func(st *State, lock string, acquire, read bool, c *Call)
	AtomicHook func(st *State, cell string, op string, c *Call)
}

func New(e *Engine) *World {
	w := &World{E: e, LockProp: "C09", Findings: map[string]Finding{}, Checked: map[string]int{}}
	for _, p := range e.Prog.AllPackages() {
		if p.Pkg.Path() == "syscall" {
			if o := p.Pkg.Scope().Lookup("Errno"); o != nil {
				w.Errno = o.Type()
			}
		}
	}
	if w.Errno == nil {
		seen := map[*types.Package]bool{}
		var find func(p *types.Package)
		find = func(p *types.Package) {
			if seen[p] || w.Errno != nil {
				return
			}
			seen[p] = true
			if p.Path() == "syscall" {
				if o := p.Scope().Lookup("Errno"); o != nil {
					w.Errno = o.Type()
				}
				return
			}
			for _, q := range p.Imports() {
				find(q)
			}
		}
		for _, p := range e.Pkgs {
			if p != nil {
				find(p.Pkg)
			}
		}
	}
	w.install()
	return w
}

// Fail records a violation.
func (w *World) Fail(st *State, prop, rule, where, msg string, a ...interface{}) {
	if w.Quiet {
		return
	}
	w.Fails++
	if w.E.Debug && st != nil {
		fmt.Println("FAIL", rule, st.Key())
	}
	f := Finding{Prop: prop, Rule: rule, Where: where, Msg: fmt.Sprintf(msg, a...)}
	if st != nil {
		f.Path = st.Path(14)
	}
	if _, ok := w.Findings[f.Key()]; !ok {
		w.Findings[f.Key()] = f
	}
}

// Count counts an evaluated obligation. prop may name several properties.
func (w *World) Count(prop, rule string) {
	for _, p := range strings.Split(prop, ",") {
		w.Checked[p+"|"+rule]++
	}
}

// Check counts an obligation and records a violation when it does not hold.
func (w *World) Check(st *State, ok bool, prop, rule, where, msg string, a ...interface{}) bool {
	w.Count(prop, rule)
	if !ok {
		w.Fail(st, prop, rule, where, msg, a...)
	}
	return ok
}

// Sorted lists the findings.
func (w *World) Sorted() []Finding {
	var ks []string
	for k := range w.Findings {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []Finding
	for _, k := range ks {
		r = append(r, w.Findings[k])
	}
	return r
}

// Fn finds a declared function or method of the module by package path suffix
// and name ("Func" or "Type.Method").
func (w *World) Fn(pkg, name string) *ssa.Function {
	f := w.FnOpt(pkg, name)
	if f == nil {
		panic(Undecided{"anchor not found: " + pkg + "." + name})
	}
	return f
}

func (w *World) FnOpt(pkg, name string) *ssa.Function {
	for _, p := range w.E.Pkgs {
		if p == nil || p.Pkg.Path() != pkg {
			continue
		}
		if i := strings.IndexByte(name, '.'); i > 0 {
			o := p.Pkg.Scope().Lookup(name[:i])
			if o == nil {
				return nil
			}
			t := o.Type()
			if f := w.E.Prog.LookupMethod(types.NewPointer(t), p.Pkg, name[i+1:]); f != nil {
				return f
			}
			return nil
		}
		return p.Func(name)
	}
	return nil
}

// Type finds a named type of the module or of its imports.
func (w *World) Type(pkg, name string) types.Type {
	for _, p := range w.E.Pkgs {
		if p != nil && p.Pkg.Path() == pkg {
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	seen := map[*types.Package]bool{}
	var res types.Type
	var find func(p *types.Package)
	find = func(p *types.Package) {
		if seen[p] || res != nil {
			return
		}
		seen[p] = true
		if p.Path() == pkg {
			if o := p.Scope().Lookup(name); o != nil {
				res = o.Type()
			}
			return
		}
		for _, q := range p.Imports() {
			find(q)
		}
	}
	for _, p := range w.E.Pkgs {
		if p != nil {
			find(p.Pkg)
		}
	}
	return res
}

const (
	Gev  = "github.com/Allenxuxu/gev"
	Loop = Gev + "/eventloop"
	Poll = Gev + "/poller"
	WS   = Gev + "/plugins/websocket/ws"
	WSU  = Gev + "/plugins/websocket/ws/util"
	WSP  = Gev + "/plugins/websocket"
	PB   = Gev + "/plugins/protobuf"
	Ring = "github.com/Allenxuxu/ringbuffer"
)

// ---- small helpers ----

func one(st *State, v ...Val) []Out { return []Out{{St: st, Res: v}} }

func num(n int64) Val { return IntV{C(n)} }

func boolean(b bool) Val { return BoolV{BoolC(b)} }

// errnoV is an errno as an error value.
func (w *World) errnoV(n int64) Val { return IfaceV{T: w.Errno, V: IntV{C(n)}} }

const (
	eINTR  = 4
	eAGAIN = 11
)

// otherErr is an unknown errno different from EAGAIN and EINTR.
func (w *World) otherErr(st *State, site string) Val {
	a := At("u32(" + st.Fresh(site+".errno") + ")")
	st.Assume(EQ(a, C(eAGAIN)).Not())
	st.Assume(EQ(a, C(eINTR)).Not())
	st.Assume(EQ(a, C(0)).Not())
	return IfaceV{T: w.Errno, V: IntV{a}}
}

// someErr is an unknown non-nil error.
func someErr(st *State, site string) Val {
	return OpqV{N: "err:" + st.Fresh(site+".err")}
}

func getSegs(st *State, k string) []Seg {
	if v, ok := st.G[k].(SegsV); ok {
		return v.S
	}
	return nil
}

func gInt(st *State, k string) int64 {
	if v, ok := st.G[k].(IntV); ok && v.L.IsC() {
		return v.L.C
	}
	return 0
}

func gSet(st *State, k string, n int64) {
	if n == 0 {
		delete(st.G, k)
		return
	}
	st.G[k] = IntV{C(n)}
}

func gList(st *State, k string) []Val {
	if v, ok := st.G[k].(ListV); ok {
		return v.V
	}
	return nil
}

func gPush(st *State, k string, v Val) {
	st.G[k] = ListV{V: append(append([]Val(nil), gList(st, k)...), v)}
}

// GInt, GList, GSegs give monitor state to the drivers.
func GInt(st *State, k string) int64    { return gInt(st, k) }
func GSet(st *State, k string, n int64) { gSet(st, k, n) }
func GList(st *State, k string) []Val   { return gList(st, k) }
func GPush(st *State, k string, v Val)  { gPush(st, k, v) }
func GSegs(st *State, k string) []Seg   { return getSegs(st, k) }
func (w *World) Pos(in ssa.Instruction) string {
	return w.Where(in)
}

// Where names a construct independent of line numbers: the function.
func (w *World) Where(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	return w.E.Pos(in) + " (" + fnName(in.Parent()) + ")"
}

func fnName(f *ssa.Function) string {
	s := f.String()
	return strings.ReplaceAll(s, "github.com/Allenxuxu/", "")
}

// cut forks the state until the offset k falls inside or at the end of one
// segment of ss, so that a prefix of k elements can be split off exactly.
func (w *World) cut(st *State, ss []Seg, k Lin, f func(t *State, head, tail []Seg)) {
	ss = NormSegs(st, ss)
	pos := Lin{}
	rest := st
	for i, x := range ss {
		end := pos.Add(x.Len())
		c := LE(k, end)
		last := i == len(ss)-1
		switch {
		case last || rest.Decide(c) == 1:
			t := rest
			if !t.Assume(c) {
				return
			}
			f(t, w.E.SubSegs(t, ss, Lin{}, k), w.E.SubSegs(t, ss, k, SegsLen(ss)))
			return
		case rest.Decide(c) == 0:
		default:
			t := rest.Clone()
			if t.Assume(c) {
				f(t, w.E.SubSegs(t, ss, Lin{}, k), w.E.SubSegs(t, ss, k, SegsLen(ss)))
			}
			if !rest.Assume(c.Not()) {
				return
			}
		}
		pos = end
	}
	f(rest, nil, nil)
}

// forkEmpty splits on whether n is zero.
func forkEmpty(st *State, n Lin, empty, nonempty func(t *State)) {
	c := GE(n.AddC(-1))
	switch st.Decide(c) {
	case 1:
		nonempty(st)
	case 0:
		empty(st)
	default:
		t := st.Clone()
		if t.Assume(EQ(n, Lin{})) {
			empty(t)
		}
		if st.Assume(c) {
			nonempty(st)
		}
	}
}

// Cut splits a sequence at offset k, forking until the split is exact.
func (w *World) Cut(st *State, ss []Seg, k Lin, f func(t *State, head, tail []Seg)) {
	w.cut(st, ss, k, f)
}

// FnName is the short name of a function.
func FnName(f *ssa.Function) string { return fnName(f) }

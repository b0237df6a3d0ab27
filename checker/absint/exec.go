package absint

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Call describes one call for an intrinsic.
type Call struct {
	E     *Engine
	St    *State
	Instr ssa.Instruction
	Com   *ssa.CallCommon
	Args  []Val // receiver first
	Site  string
	Name  string
	Sig   *types.Signature
	Types []types.Type
	// Fn is the called function value, for calls of unknown functions.
	Fn Val
}

// Out is one outcome of a call.
type Out struct {
	St  *State
	Res []Val
	// Then is called after the results were stored; what it gives is dropped.
	Then  Val
	With  []Val
	After func(st *State)
	// Got is called with what Then gave.
	Got func(st *State, res []Val) []*State
	// Again: the call is made again.
	Again bool
}

type Intrinsic func(c *Call) []Out

// maxName is the length beyond which an expression becomes an unknown.
const maxName = 6000

// Engine holds the program and the models.
type Engine struct {
	Prog   *ssa.Program
	Pkgs   []*ssa.Package
	Module string
	Fset   *token.FileSet
	// Intr maps a full callee name to its model.
	Intr map[string]Intrinsic
	// OpaqueFn models calls of unknown function values and interface methods.
	OpaqueFn func(c *Call) []Out
	// OnAccess sees every load and store of a heap cell.
	OnAccess func(st *State, cell string, write bool, in ssa.Instruction)
	// OnBounds sees every index or slice operation: ok is whether it is proved.
	OnBounds func(st *State, what string, ok bool, in ssa.Instruction)
	OnPanic  func(st *State, in ssa.Instruction, why string)
	OnGo     func(st *State, c *Call)
	OnRecv   func(st *State, ch Val, in ssa.Instruction)
	// Sync has the operations before which another goroutine may run.
	Sync        map[string]Sync
	Env         func(st *State) []*State
	OnThreadEnd func(st *State, res []Val)
	OnDeadlock  func(st *State)
	RecvReady   func(st *State, ch Val) bool
	Pinned      map[string]bool
	// Narrow: conversions to smaller integers may lose bits.
	Narrow bool
	// Words: bytes may be seen as wider integers through unsafe pointers.
	Words bool
	// SplitElems forks on whether an index hits a single value at an unknown
	// position; OnElem may replace an unknown element.
	SplitElems bool
	OnElem     func(s *State, tok string, i Lin, v Val) Val
	// Unroll is the number of arrivals at a loop kept apart before widening.
	Unroll int
	// Counters are monitors that do not tell memory shapes apart.
	Counters map[string]bool
	// Shapes is the number of memory shapes at a loop kept apart.
	Shapes int

	live    map[*ssa.Function]*liveness
	visited map[string][]*State
	heads   map[string]*head
	// statistics
	Funcs, Blocks map[string]bool
	Calls         map[string]bool
	NStates       int
	NForks        int
	MaxStates     int
	// Direct: the iterations of loops on the only path are not compared.
	Direct       bool
	alone        bool
	direct       int
	Notes        map[string]bool
	Debug        bool
	UnknownCalls map[string]bool
}

func NewEngine(prog *ssa.Program, pkgs []*ssa.Package, module string) *Engine {
	return &Engine{Prog: prog, Pkgs: pkgs, Module: module, Fset: prog.Fset, Intr: map[string]Intrinsic{},
		live: map[*ssa.Function]*liveness{}, Funcs: map[string]bool{}, Blocks: map[string]bool{}, Calls: map[string]bool{},
		Notes: map[string]bool{}, Pinned: map[string]bool{}, Unroll: 1, Shapes: 10, MaxStates: 60000, UnknownCalls: map[string]bool{}}
}

func (e *Engine) Pos(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	p := in.Pos()
	if !p.IsValid() && in.Parent() != nil {
		// nearest position in the block
		for _, x := range in.Block().Instrs {
			if x.Pos().IsValid() {
				p = x.Pos()
			}
			if x == in {
				break
			}
		}
		if !p.IsValid() {
			p = in.Parent().Pos()
		}
	}
	pp := e.Fset.Position(p)
	f := pp.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, pp.Line)
}

// ---- liveness ----

type liveness struct {
	in  map[*ssa.BasicBlock]map[ssa.Value]bool
	out map[*ssa.BasicBlock]map[ssa.Value]bool
}

func tracked(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	return v != nil
}

func (e *Engine) liveOf(fn *ssa.Function) *liveness {
	if l := e.live[fn]; l != nil {
		return l
	}
	l := &liveness{map[*ssa.BasicBlock]map[ssa.Value]bool{}, map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	for _, b := range fn.Blocks {
		l.in[b], l.out[b] = map[ssa.Value]bool{}, map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			out := l.out[b]
			for _, s := range b.Succs {
				for v := range l.in[s] {
					out[v] = true
				}
				for k, p := range s.Preds {
					if p != b {
						continue
					}
					for _, in := range s.Instrs {
						phi, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						if tracked(phi.Edges[k]) {
							out[phi.Edges[k]] = true
						}
					}
				}
			}
			live := map[ssa.Value]bool{}
			for v := range out {
				live[v] = true
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if phi, ok := in.(*ssa.Phi); ok {
					delete(live, phi) // set on entry
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				for _, op := range in.Operands(nil) {
					if tracked(*op) {
						live[*op] = true
					}
				}
			}
			for v := range live {
				if !l.in[b][v] {
					l.in[b][v] = true
					ch = true
				}
			}
		}
	}
	e.live[fn] = l
	return l
}

// liveAt is the set of values needed from the frame's current point on.
func (e *Engine) liveAt(f *Frame, top bool) map[ssa.Value]bool {
	l := e.liveOf(f.Fn)
	live := map[ssa.Value]bool{}
	for v := range l.out[f.Blk] {
		live[v] = true
	}
	pc := f.PC
	for j := len(f.Blk.Instrs) - 1; j >= pc; j-- {
		in := f.Blk.Instrs[j]
		if v, ok := in.(ssa.Value); ok {
			delete(live, v)
		}
		for _, op := range in.Operands(nil) {
			if tracked(*op) {
				live[*op] = true
			}
		}
	}
	return live
}

// ---- running ----

// Run explores every path from st until its frames are gone.
func (e *Engine) Run(st *State) (final []*State) {
	e.visited = map[string][]*State{}
	return e.RunAll([]*State{st})
}

// RunAll does so from several states.
func (e *Engine) RunAll(sts []*State) (final []*State) {
	base := 0
	if e.visited == nil {
		e.visited = map[string][]*State{}
	}
	e.heads = map[string]*head{}
	e.direct = 0
	seen := map[string]bool{}
	work := append([]*State(nil), sts...)
	n := 0
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if len(s.Frames) == base {
			s.GC(e)
			k := s.StoreKey() + "|" + s.Panicked + "|" + Key(TupV{s.Res})
			if !seen[k] {
				seen[k] = true
				final = append(final, s)
			}
			continue
		}
		n++
		e.NStates++
		if n > e.MaxStates {
			panic(Undecided{fmt.Sprintf("more than %d abstract states", e.MaxStates)})
		}
		e.alone = len(work) == 0
		next := e.advance(s)
		if len(next) > 1 {
			for _, t := range next {
				t.forked = true
			}
		}
		work = append(work, next...)
	}
	return final
}

// Invoke builds a state about to run fn.
func (e *Engine) Push(st *State, fn *ssa.Function, bind []Val, args []Val, ret func(*Engine, *State, []Val) []*State) {
	if len(st.Frames) > 40 {
		panic(Undecided{"call depth: " + fn.String()})
	}
	depth := 0
	for _, f := range st.Frames {
		if f.Fn == fn {
			depth++
		}
	}
	if depth > 2 {
		panic(Undecided{"recursion: " + fn.String()})
	}
	f := &Frame{Fn: fn, Blk: fn.Blocks[0], Env: map[ssa.Value]Val{}, Ret: ret}
	for i, p := range fn.Params {
		f.Env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		f.Env[v] = bind[i]
	}
	st.Frames = append(st.Frames, f)
	if fn.Pkg != nil || fn.Parent() != nil {
		e.Funcs[fn.String()] = true
	}
}

func isHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

// jump enters block b from the frame's current block.
func (e *Engine) jump(s *State, b *ssa.BasicBlock) []*State {
	f := s.top()
	from := f.Blk
	k := -1
	for i, p := range b.Preds {
		if p == from {
			k = i
		}
	}
	var phis []*ssa.Phi
	var vals []Val
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, e.eval(s, phi.Edges[k]))
	}
	for i, p := range phis {
		f.Env[p] = vals[i]
	}
	f.Prev = from
	f.Blk = b
	f.PC = len(phis)
	e.Blocks[fmt.Sprintf("%s#%d", f.Fn.String(), b.Index)] = true
	if isHeader(b) {
		return e.joinHead(s)
	}
	if len(b.Preds) > 1 {
		s.GC(e)
		if e.covered(s) {
			return nil
		}
	}
	return []*State{s}
}

// advance runs a state until it forks or ends.
func (e *Engine) advance(s *State) []*State {
	for {
		f := s.top()
		if f.PC >= len(f.Blk.Instrs) {
			panic(Undecided{"fell off block in " + f.Fn.String()})
		}
		in := f.Blk.Instrs[f.PC]
		nf := len(s.Frames)
		_ = nf
		res, cont := e.step(s, in)
		if !cont {
			return res
		}
	}
}

// step executes one instruction. cont means s was advanced in place.
func (e *Engine) step(s *State, in ssa.Instruction) (out []*State, cont bool) {
	f := s.top()
	set := func(v ssa.Value, x Val) {
		f.Env[v] = x
		f.PC++
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
		f.PC++
		return nil, true
	case *ssa.Alloc:
		site := e.site(in)
		s.prepSite(e, site)
		f = s.top()
		n := s.Fresh(site + ".new")
		// zero-initialised object
		cell := "new:" + n
		et := deref(in.Type())
		if at, ok := et.Underlying().(*types.Array); ok {
			s.Heap[cell] = zeroArr(at)
		}
		f.Env[in] = PtrV{cell}
		f.PC++
		return nil, true
	case *ssa.BinOp:
		x, y := e.eval(s, in.X), e.eval(s, in.Y)
		v := e.binop(s, in.Op, x, y, in.X.Type(), in.Type(), in)
		if bv, ok := v.(BoolV); ok {
			if len(bv.C.A) > maxName {
				site := e.site(in)
				s.prepSite(e, site)
				v = BoolV{Atom("t(" + s.Fresh(site+".big") + ")")}
			}
		} else if len(Key(v)) > maxName {
			site := e.site(in)
			s.prepSite(e, site)
			v = e.Opaque(s, site+".big", in.Type())
		}
		s.top().Env[in] = v
		s.top().PC++
		return nil, true
	case *ssa.UnOp:
		return e.unop(s, in)
	case *ssa.Call:
		return e.call(s, in, &in.Call, in)
	case *ssa.Defer:
		d := deferred{call: &in.Call}
		d.fn, d.args = e.callee(s, &in.Call)
		f.Defers = append(f.Defers, d)
		f.PC++
		return nil, true
	case *ssa.Go:
		c := &Call{E: e, St: s, Instr: in, Com: &in.Call, Site: e.site(in)}
		c.Fn, c.Args = e.callee(s, &in.Call)
		if e.OnGo != nil {
			e.OnGo(s, c)
		}
		f.PC++
		return nil, true
	case *ssa.RunDefers:
		if n := len(f.Defers); n > 0 {
			d := f.Defers[n-1]
			f.Defers = f.Defers[:n-1]
			return e.invoke(s, in, d.call, d.fn, d.args, nil, true)
		}
		f.PC++
		return nil, true
	case *ssa.ChangeInterface:
		set(in, e.eval(s, in.X))
		return nil, true
	case *ssa.ChangeType:
		v := e.eval(s, in.X)
		set(in, v)
		return nil, true
	case *ssa.Convert:
		v, st2 := e.convert(s, e.eval(s, in.X), in.X.Type(), in.Type(), in)
		s = st2
		s.top().Env[in] = v
		s.top().PC++
		return nil, true
	case *ssa.MultiConvert:
		panic(Undecided{"generic conversion"})
	case *ssa.Extract:
		t := e.eval(s, in.Tuple)
		if tv, ok := t.(TupV); ok {
			set(in, tv.V[in.Index])
		} else {
			set(in, e.opaque(s, fmt.Sprintf("ext%d(%s)", in.Index, Key(t)), in.Type()))
		}
		return nil, true
	case *ssa.Field:
		v := e.eval(s, in.X)
		set(in, e.fieldOf(s, v, in.X.Type(), in.Field))
		return nil, true
	case *ssa.FieldAddr:
		v := e.eval(s, in.X)
		st := deref(in.X.Type()).Underlying().(*types.Struct)
		name := st.Field(in.Field).Name()
		switch p := v.(type) {
		case PtrV:
			if p.Cell == "" {
				e.doPanic(s, in, "nil dereference")
				return nil, false
			}
			set(in, PtrV{p.Cell + "/" + name})
		case ElemP:
			set(in, ElemP{p.Arr, p.Idx, p.Path + "/" + name})
		case NilV:
			e.doPanic(s, in, "nil dereference")
			return nil, false
		default:
			set(in, PtrV{"ptr(" + Key(v) + ")/" + name})
		}
		return nil, true
	case *ssa.Index:
		v := e.eval(s, in.X)
		i := e.eval(s, in.Index)
		switch v := v.(type) {
		case ArrV:
			e.bounds(s, in, "index", e.lin(i), v.Len)
			set(in, e.arrElem(s, v, e.lin(i), in.Type()))
		case StrV:
			e.bounds(s, in, "index", e.lin(i), segsLen(v.S))
			set(in, e.segElem(s, v.S, e.lin(i), in.Type()))
		default:
			set(in, e.opaque(s, "elem("+Key(v)+","+Key(i)+")", in.Type()))
		}
		return nil, true
	case *ssa.IndexAddr:
		v := e.eval(s, in.X)
		i := e.lin(e.eval(s, in.Index))
		switch v := v.(type) {
		case SliceV:
			if ss := e.splitElem(s, v.Arr, v.Off.Add(i)); ss != nil {
				return ss, false
			}
			e.bounds(s, in, "index", i, v.Len)
			if v.Arr == "" {
				e.doPanic(s, in, "index of nil slice")
				return nil, false
			}
			set(in, ElemP{v.Arr, v.Off.Add(i), ""})
		case PtrV:
			if at, ok := deref(in.X.Type()).Underlying().(*types.Array); ok {
				e.bounds(s, in, "index", i, C(at.Len()))
			}
			set(in, ElemP{v.Cell, i, ""})
		case ElemP:
			panic(Undecided{"nested array element"})
		default:
			panic(Undecided{fmt.Sprintf("IndexAddr of %T at %s", v, e.Pos(in))})
		}
		return nil, true
	case *ssa.Slice:
		return e.slice(s, in)
	case *ssa.Jump:
		return e.jumpCont(s, f.Blk.Succs[0])
	case *ssa.If:
		c := e.cond(e.eval(s, in.Cond))
		switch s.Decide(c) {
		case 1:
			return e.jumpCont(s, f.Blk.Succs[0])
		case 0:
			return e.jumpCont(s, f.Blk.Succs[1])
		}
		s.forked = true
		t := s.Clone()
		e.NForks++
		var r []*State
		if s.Assume(c) {
			s.Note("%s: %s", e.Pos(in), c)
			x, ok := e.jumpCont(s, f.Blk.Succs[0])
			if ok {
				x = []*State{s}
			}
			r = append(r, x...)
		}
		if t.Assume(c.Not()) {
			t.Note("%s: %s", e.Pos(in), c.Not())
			x, ok := e.jumpCont(t, t.top().Blk.Succs[1])
			if ok {
				x = []*State{t}
			}
			r = append(r, x...)
		}
		return r, false
	case *ssa.Lookup:
		return e.lookup(s, in)
	case *ssa.MapUpdate:
		m := e.eval(s, in.Map)
		k, v := e.eval(s, in.Key), e.eval(s, in.Value)
		p, ok := m.(PtrV)
		if !ok || p.Cell == "" {
			e.doPanic(s, in, "assignment to entry in nil map")
			return nil, false
		}
		mc := e.mapAt(s, p.Cell)
		s.Heap[p.Cell] = mc.set(s, k, v)
		e.access(s, p.Cell, true, in)
		f.PC++
		return nil, true
	case *ssa.MakeChan:
		site := e.site(in)
		s.prepSite(e, site)
		n := s.Fresh(site + ".chan")
		s.top().Env[in] = OpqV{n, in.Type()}
		s.Bool["nil("+n+")"] = false
		s.top().PC++
		return nil, true
	case *ssa.MakeClosure:
		fv := FuncV{Fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			fv.Bind = append(fv.Bind, e.eval(s, b))
		}
		set(in, fv)
		return nil, true
	case *ssa.MakeInterface:
		v := e.eval(s, in.X)
		set(in, IfaceV{in.X.Type(), v})
		return nil, true
	case *ssa.MakeMap:
		site := e.site(in)
		s.prepSite(e, site)
		n := s.Fresh(site + ".map")
		s.Heap["new:"+n] = MapC{}
		s.top().Env[in] = PtrV{"new:" + n}
		s.top().PC++
		return nil, true
	case *ssa.MakeSlice:
		site := e.site(in)
		s.prepSite(e, site)
		f = s.top()
		n := s.Fresh(site + ".arr")
		l, c := e.lin(e.eval(s, in.Len)), e.lin(e.eval(s, in.Cap))
		okB := s.EntailsGE(l)
		if e.OnBounds != nil {
			e.OnBounds(s, "make", okB, in)
		}
		if !okB && !s.Assume(GE(l)) {
			e.doPanic(s, in, "negative length")
			return nil, false
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		a := ArrV{Len: c, Elem: et}
		a.P = []Piece{{Lin{}, c, Seg{Tok: "0", Hi: c}}}
		s.Heap["new:"+n] = a
		set(in, SliceV{"new:" + n, Lin{}, l, c})
		return nil, true
	case *ssa.Next:
		return e.next(s, in)
	case *ssa.Range:
		it := TupV{[]Val{e.eval(s, in.X)}}
		if p, ok := it.V[0].(PtrV); ok && p.Cell != "" && !e.mapAt(s, p.Cell).Rest {
			// the entries to come and those that were given
			it.V = append(it.V, ListV{V: append([]Val(nil), e.mapAt(s, p.Cell).Keys...)}, ListV{})
		}
		set(in, it)
		return nil, true
	case *ssa.Panic:
		e.doPanic(s, in, "panic")
		return nil, false
	case *ssa.Return:
		var res []Val
		for _, r := range in.Results {
			res = append(res, e.eval(s, r))
		}
		return e.ret(s, res)
	case *ssa.Store:
		a := e.eval(s, in.Addr)
		v := e.eval(s, in.Val)
		e.Store(s, a, v, in.Val.Type(), in)
		f.PC++
		return nil, true
	case *ssa.TypeAssert:
		return e.typeAssert(s, in)
	case *ssa.SliceToArrayPointer:
		v := e.eval(s, in.X).(SliceV)
		if !s.EntailsEQ(v.Off) {
			panic(Undecided{"slice to array pointer with offset"})
		}
		set(in, PtrV{v.Arr})
		return nil, true
	case *ssa.Select:
		var outs []*State
		n := len(in.States)
		if !in.Blocking {
			n++
		}
		for i := 0; i < n; i++ {
			t := s
			if i < n-1 {
				t = s.Clone()
			}
			idx := i
			if i == len(in.States) {
				idx = -1
			}
			vals := []Val{IntV{C(int64(idx))}, BoolV{Atom(fmt.Sprintf("recvok(%s,%d)", e.site(in), i))}}
			for j, sst := range in.States {
				if sst.Dir == types.RecvOnly {
					vals = append(vals, e.opaque(t, fmt.Sprintf("recv(%s,%d)", e.site(in), j), sst.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
			}
			if idx >= 0 && in.States[idx].Dir == types.RecvOnly && e.OnRecv != nil {
				e.OnRecv(t, e.eval(t, in.States[idx].Chan), in)
			}
			t.top().Env[in] = TupV{vals}
			t.top().PC++
			outs = append(outs, t)
		}
		return outs, false
	case *ssa.Send:
		f.PC++
		return nil, true
	}
	panic(Undecided{fmt.Sprintf("instruction %T in %s", in, f.Fn)})
}

func (e *Engine) jumpCont(s *State, b *ssa.BasicBlock) ([]*State, bool) {
	r := e.jump(s, b)
	if len(r) == 1 && r[0] == s {
		return nil, true
	}
	return r, false
}

func (e *Engine) doPanic(s *State, in ssa.Instruction, why string) {
	if e.OnPanic != nil {
		e.OnPanic(s, in, why)
	}
}

// ret returns from the top frame.
func (e *Engine) ret(s *State, res []Val) ([]*State, bool) {
	f := s.top()
	s.Frames = s.Frames[:len(s.Frames)-1]
	if f.Thread != "" {
		s.Ended = f.Thread
	}
	if f.Ret != nil {
		return f.Ret(e, s, res), false
	}
	if len(s.Frames) == 0 {
		s.Res = res
	}
	return []*State{s}, false
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (e *Engine) site(in ssa.Instruction) string {
	fn := in.Parent()
	name := fn.Name()
	if fn.Signature.Recv() != nil {
		if n, ok := deref(fn.Signature.Recv().Type()).(*types.Named); ok {
			name = n.Obj().Name() + "_" + name
		}
	}
	idx := 0
	for _, x := range in.Block().Instrs {
		if x == in {
			break
		}
		idx++
	}
	return fmt.Sprintf("%s_%d_%d", name, in.Block().Index, idx)
}

// ---- values ----

func (e *Engine) eval(s *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(v)
	case *ssa.Global:
		return PtrV{"glob:" + v.String() + "|"}
	case *ssa.Function:
		return FuncV{Fn: v}
	case *ssa.Builtin:
		return OpqV{"builtin:" + v.Name(), v.Type()}
	}
	f := s.top()
	x, ok := f.Env[v]
	if !ok {
		panic(Undecided{fmt.Sprintf("no value for %s = %s in %s", v.Name(), v, f.Fn)})
	}
	return x
}

func (e *Engine) constVal(c *ssa.Const) Val {
	t := c.Type().Underlying()
	if c.Value == nil {
		return e.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return BoolV{BoolC(constant.BoolVal(c.Value))}
	case constant.String:
		return constStr(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := t.(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if n, ok := constant.Int64Val(c.Value); ok {
				return IntV{C(n)}
			}
			return OpqV{"const" + c.Value.ExactString(), c.Type()}
		}
	}
	return OpqV{"const" + c.Value.ExactString(), c.Type()}
}

// hugeConst gives the bits of a constant that has its top bit set: it is no
// number of the linear arithmetic.
func hugeConst(v Val) (int64, bool) {
	o, ok := v.(OpqV)
	if !ok || !strings.HasPrefix(o.N, "const") {
		return 0, false
	}
	n, err := strconv.ParseUint(o.N[len("const"):], 10, 64)
	return int64(n), err == nil && n > math.MaxInt64
}

func constStr(x string) StrV {
	if x == "" {
		return StrV{}
	}
	return StrV{S: []Seg{{Tok: "\"" + x, Hi: C(int64(len(x)))}}}
}

// ConstString returns the text of a constant string value.
func ConstString(v Val) (string, bool) {
	s, ok := v.(StrV)
	if !ok {
		return "", false
	}
	return constSegs(s.S)
}

func constSegs(ss []Seg) (string, bool) {
	var b strings.Builder
	for _, x := range ss {
		switch {
		case strings.HasPrefix(x.Tok, "\""):
			if !x.Lo.IsC() || !x.Hi.IsC() {
				return "", false
			}
			b.WriteString(x.Tok[1:][x.Lo.C:x.Hi.C])
		case x.Tok == "":
			iv, ok := x.V.(IntV)
			if !ok || !iv.L.IsC() {
				return "", false
			}
			b.WriteByte(byte(iv.L.C))
		case x.Tok == "0" && x.Hi.IsC() && x.Lo.IsC():
			for i := x.Lo.C; i < x.Hi.C; i++ {
				b.WriteByte(0)
			}
		default:
			return "", false
		}
	}
	return b.String(), true
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (e *Engine) zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolV{False()}
		case u.Info()&types.IsInteger != 0:
			return IntV{}
		case u.Info()&types.IsString != 0:
			return StrV{}
		case u.Kind() == types.UnsafePointer:
			return PtrV{}
		case u.Kind() == types.UntypedNil:
			return NilV{}
		}
		return OpqV{"zero(" + typeName(t) + ")", t}
	case *types.Pointer:
		return PtrV{}
	case *types.Slice:
		return SliceV{}
	case *types.Struct:
		if leafStruct(t) {
			return e.zeroLeaf(t)
		}
		sv := StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.F = append(sv.F, e.zero(u.Field(i).Type()))
		}
		return sv
	case *types.Array:
		return zeroArr(u)
	case *types.Tuple:
		var tv TupV
		for i := 0; i < u.Len(); i++ {
			tv.V = append(tv.V, e.zero(u.At(i).Type()))
		}
		return tv
	case *types.Map:
		return PtrV{}
	}
	return NilV{}
}

func (e *Engine) zeroLeaf(t types.Type) Val {
	if typeName(t) == "time.Time" {
		return OpqV{"zerotime", t}
	}
	return OpqV{"zero(" + typeName(t) + ")", t}
}

func zeroArr(u *types.Array) ArrV {
	n := C(u.Len())
	a := ArrV{Len: n, Elem: u.Elem()}
	if u.Len() > 0 {
		a.P = []Piece{{Lin{}, n, Seg{Tok: "0", Hi: n}}}
	}
	return a
}

// leafStruct: struct types handled as one value.
func leafStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "time.Time", "reflect.Value", "sync.Map":
		return true
	}
	return false
}

// opaque makes an unknown value of type t called name.
func (e *Engine) opaque(s *State, name string, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolV{Atom("t(" + name + ")")}
		case u.Info()&types.IsInteger != 0:
			switch u.Kind() {
			case types.Uint8:
				return IntV{At("u8(" + name + ")")}
			case types.Uint16:
				return IntV{At("u16(" + name + ")")}
			case types.Uint32:
				return IntV{At("u32(" + name + ")")}
			case types.Uint, types.Uint64, types.Uintptr:
				return IntV{At("nn(" + name + ")")}
			}
			return IntV{At("i(" + name + ")")}
		case u.Info()&types.IsString != 0:
			return StrV{S: []Seg{{Tok: name, Hi: At("len(" + name + ")")}}}
		}
		return OpqV{name, t}
	case *types.Pointer:
		return PtrV{"sym:" + name}
	case *types.Slice:
		if _, ok := s.Heap["sym:"+name]; !ok {
			l := At("len(" + name + ")")
			s.Heap["sym:"+name] = ArrV{Len: l, Elem: u.Elem(), P: []Piece{{Lin{}, l, Seg{Tok: name, Hi: l}}}}
		}
		l := At("len(" + name + ")")
		return SliceV{"sym:" + name, Lin{}, l, l}
	case *types.Struct:
		if leafStruct(t) {
			return OpqV{name, t}
		}
		sv := StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.F = append(sv.F, e.opaque(s, name+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return sv
	case *types.Array:
		n := C(u.Len())
		return ArrV{Len: n, Elem: u.Elem(), P: []Piece{{Lin{}, n, Seg{Tok: name, Hi: n}}}}
	case *types.Tuple:
		var tv TupV
		for i := 0; i < u.Len(); i++ {
			tv.V = append(tv.V, e.opaque(s, fmt.Sprintf("%s.%d", name, i), u.At(i).Type()))
		}
		return tv
	case *types.Map:
		if _, ok := s.Heap["sym:"+name]; !ok {
			s.Heap["sym:"+name] = MapC{Rest: true, N: name}
		}
		return PtrV{"sym:" + name}
	}
	return OpqV{name, t}
}

// Opaque makes a fresh unknown value.
func (e *Engine) Opaque(s *State, base string, t types.Type) Val {
	return e.opaque(s, s.Fresh(base), t)
}

func (e *Engine) lin(v Val) Lin {
	switch v := v.(type) {
	case IntV:
		return v.L
	case BVV:
		return v.lin()
	case BoolV:
		return At("bool(" + v.C.String() + ")")
	}
	return At("i(" + Key(v) + ")")
}

// Lin is the linear form of an integer value.
func (e *Engine) Lin(v Val) Lin { return e.lin(v) }

func (b BVV) lin() Lin {
	n := len(b.B)
	for n > 0 && b.B[n-1].IsZero() {
		n--
	}
	all := true
	var c int64
	for i := 0; i < n; i++ {
		if b.B[i].One && i < 63 {
			c |= 1 << uint(i)
		} else if !b.B[i].IsZero() {
			all = false
		}
	}
	if all && n < 63 {
		return C(c)
	}
	// exactly the bits of one atom?
	if a, w, ok := wholeAtom(b.B[:n]); ok && w == n {
		return At(a)
	}
	if a, ok := bigEndianAtom(b.B[:n]); ok {
		return At(a)
	}
	if n == 64 && b.B[63].One && len(b.B[63].Or) == 0 {
		if a, ok := bigEndianAtom(b.B[:63]); ok {
			return At("i(huge(" + strings.TrimPrefix(a, "nn(be8("))
		}
	}
	return At("bv[" + BVV{b.B[:n]}.key() + "]")
}

func wholeAtom(bs []Bit) (string, int, bool) {
	if len(bs) == 0 || len(bs[0].Or) != 1 || bs[0].One {
		return "", 0, false
	}
	i := strings.LastIndexByte(bs[0].Or[0], '#')
	if i < 0 || bs[0].Or[0][i:] != "#0" {
		return "", 0, false
	}
	a := bs[0].Or[0][:i]
	for k, b := range bs {
		if b.One || len(b.Or) != 1 || b.Or[0] != fmt.Sprintf("%s#%d", a, k) {
			return "", 0, false
		}
	}
	_, hi, _, hh := atomBounds(a)
	w := 64
	if hh {
		w = 0
		for int64(1)<<uint(w) <= hi {
			w++
		}
	}
	if strings.HasPrefix(a, "i(") || strings.HasPrefix(a, "len(") || strings.HasPrefix(a, "nn(") {
		w = 64
	}
	return a, w, true
}

// beParts takes the name of a big-endian integer apart.
func beParts(a string) (tok string, at int64, width int, ok bool) {
	in := a
	switch {
	case strings.HasPrefix(a, "be2("):
		width, in = 2, a[4:len(a)-1]
	case strings.HasPrefix(a, "be4("):
		width, in = 4, a[4:len(a)-1]
	case strings.HasPrefix(a, "nn(be8("):
		width, in = 8, a[7:len(a)-2]
	case strings.HasPrefix(a, "i(huge("):
		width, in = 8, a[7:len(a)-2]
	default:
		return
	}
	i := strings.LastIndexByte(in, '@')
	if i < 0 {
		return
	}
	n, err := strconv.ParseInt(in[i+1:], 10, 64)
	if err != nil {
		return
	}
	return in[:i], n, width, true
}

// bigEndianAtom recognises the bits of consecutive bytes, last one lowest.
func bigEndianAtom(bs []Bit) (string, bool) {
	wd := 0
	switch len(bs) {
	case 16:
		wd = 2
	case 32:
		wd = 4
	case 63:
		wd = 8
	default:
		return "", false
	}
	if len(bs[0].Or) != 1 || !strings.HasPrefix(bs[0].Or[0], "b(") || !strings.HasSuffix(bs[0].Or[0], ")#0") {
		return "", false
	}
	in := bs[0].Or[0][2 : len(bs[0].Or[0])-3]
	i := strings.LastIndexByte(in, '@')
	if i < 0 {
		return "", false
	}
	last, err := strconv.ParseInt(in[i+1:], 10, 64)
	if err != nil {
		return "", false
	}
	for k, b := range bs {
		if b.One || len(b.Or) != 1 || b.Or[0] != fmt.Sprintf("b(%s@%d)#%d", in[:i], last-int64(k/8), k%8) {
			return "", false
		}
	}
	name := fmt.Sprintf("be%d(%s@%d)", wd, in[:i], last-int64(wd-1))
	if wd == 8 {
		name = "nn(" + name + ")"
	}
	return name, true
}

// hugeCmp compares unsigned integers of which one has its top bit set; such a
// number is kept as the negative number with the same bits.
func (e *Engine) hugeCmp(s *State, op token.Token, x, y Lin) (Cond, bool) {
	if x.IsC() || y.IsC() {
		ng := func(l Lin) bool {
			if l.IsC() {
				return l.C < 0
			}
			a, ok := l.Single()
			return ok && strings.HasPrefix(a, "i(huge(")
		}
		hx, hy := ng(x), ng(y)
		if !hx && !hy && s.EntailsGE(x) && s.EntailsGE(y) {
			// nothing else is above the largest number without the top bit
			switch {
			case y.IsC() && y.C == math.MaxInt64 && (op == token.GTR || op == token.LEQ):
				return BoolC(op == token.LEQ), true
			case x.IsC() && x.C == math.MaxInt64 && (op == token.LSS || op == token.GEQ):
				return BoolC(op == token.GEQ), true
			}
		}
		if hx == hy {
			return Cond{}, false
		}
		switch op {
		case token.LSS, token.LEQ:
			return BoolC(hy), true
		case token.GTR, token.GEQ:
			return BoolC(hx), true
		}
	}
	return Cond{}, false
}

// disjoint is the sum of two integers that have no bit in common.
func (e *Engine) disjoint(x, y Val, rt types.Type) (Val, bool) {
	_, bx := x.(BVV)
	_, by := y.(BVV)
	if !bx && !by {
		return nil, false
	}
	for _, v := range []Val{x, y} {
		switch v := v.(type) {
		case BVV:
		case IntV:
			if v.L.IsC() {
				if v.L.C < 0 {
					return nil, false
				}
				continue
			}
			a, ok := v.L.Single()
			if !ok {
				return nil, false
			}
			if lo, _, hl, hh := atomBounds(a); !hl || !hh || lo < 0 {
				return nil, false
			}
		default:
			return nil, false
		}
	}
	w, _ := intWidth(rt)
	a, ok1 := e.bits(x, w)
	b, ok2 := e.bits(y, w)
	if !ok1 || !ok2 {
		return nil, false
	}
	r := BVV{B: make([]Bit, w)}
	for i := range r.B {
		if !a.B[i].IsZero() && !b.B[i].IsZero() {
			return nil, false
		}
		r.B[i] = orBit(a.B[i], b.B[i])
	}
	return mkInt(r), true
}

// scaled is the product of a bit vector and a power of two.
func (e *Engine) scaled(s *State, x, y Val, rt types.Type) (Val, bool) {
	for i, v := range []Val{x, y} {
		o := []Val{y, x}[i]
		b, ok := v.(BVV)
		k, ok2 := o.(IntV)
		if !ok || !ok2 || !k.L.IsC() || k.L.C <= 0 || k.L.C&(k.L.C-1) != 0 {
			continue
		}
		n := 0
		for int64(1)<<uint(n) != k.L.C {
			n++
		}
		return e.bitop(s, token.SHL, b, IntV{C(int64(n))}, rt), true
	}
	return nil, false
}

func intWidth(t types.Type) (int, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64, true
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Uint8:
		return 8, false
	case types.Int16:
		return 16, true
	case types.Uint16:
		return 16, false
	case types.Int32:
		return 32, true
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 64, true
}

// bits gives the low w bits of an integer value.
func (e *Engine) bits(v Val, w int) (BVV, bool) {
	if n, ok := hugeConst(v); ok {
		v = IntV{C(n)}
	}
	switch v := v.(type) {
	case BVV:
		r := BVV{B: make([]Bit, w)}
		for i := 0; i < w && i < len(v.B); i++ {
			r.B[i] = v.B[i]
		}
		return r, true
	case IntV:
		r := BVV{B: make([]Bit, w)}
		if v.L.IsC() {
			for i := 0; i < w; i++ {
				if i < 64 && uint64(v.L.C)>>uint(i)&1 == 1 {
					r.B[i] = Bit{One: true}
				}
			}
			return r, true
		}
		a, ok := v.L.Single()
		if !ok {
			a = "lin{" + v.L.String() + "}"
		}
		if strings.HasPrefix(a, "bv[") {
			// unpack
			parts := strings.Split(a[3:len(a)-1], ",")
			for i := 0; i < w && i < len(parts); i++ {
				r.B[i] = parseBit(parts[i])
			}
			return r, true
		}
		if tok, at, wd, ok := beParts(a); ok {
			for i := 0; i < w && i < 8*wd; i++ {
				if wd == 8 && i == 63 {
					// made where the top bit is known
					r.B[i].One = strings.HasPrefix(a, "i(huge(")
					break
				}
				r.B[i] = Bit{Or: []string{fmt.Sprintf("b(%s@%d)#%d", tok, at+int64(wd-1-i/8), i%8)}}
			}
			return r, true
		}
		_, hi, _, hh := atomBounds(a)
		for i := 0; i < w; i++ {
			if hh && int64(1)<<uint(i) > hi {
				break
			}
			r.B[i] = Bit{Or: []string{fmt.Sprintf("%s#%d", a, i)}}
		}
		return r, true
	}
	return BVV{}, false
}

func parseBit(s string) Bit {
	switch s {
	case "0":
		return Bit{}
	case "1":
		return Bit{One: true}
	}
	return Bit{Or: strings.Split(s, "|")}
}

// mkInt turns a bit vector back into an integer value.
func mkInt(b BVV) Val {
	l := b.lin()
	if l.IsC() {
		return IntV{l}
	}
	if a, ok := l.Single(); ok && !strings.HasPrefix(a, "bv[") {
		return IntV{l}
	}
	return b
}

// topBit: a byte compared with a power of two is a test of its highest bit.
func (e *Engine) topBit(op token.Token, x, y Val) (Cond, bool) {
	lx, ly := e.lin(x), e.lin(y)
	if lx.IsC() {
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
		x, lx, ly = y, ly, lx
	}
	a, one := lx.Single()
	if !one || !ly.IsC() {
		return Cond{}, false
	}
	_, hi, _, ok := atomBounds(a)
	if !ok || hi <= 1 || hi > 255 || hi&(hi+1) != 0 {
		return Cond{}, false
	}
	half := (hi + 1) / 2
	c := ly.C
	neg := false
	switch {
	case op == token.GEQ && c == half || op == token.GTR && c == half-1:
	case op == token.LSS && c == half || op == token.LEQ && c == half-1:
		neg = true
	default:
		return Cond{}, false
	}
	b, ok := e.bits(x, 8)
	if !ok {
		return Cond{}, false
	}
	top := 0
	for top = 7; 1<<uint(top) > half; top-- {
	}
	bit := b.B[top]
	if bit.One || len(bit.Or) != 1 {
		return Cond{}, false
	}
	r := Atom(bit.Or[0])
	if neg {
		r = r.Not()
	}
	return r, true
}

func (e *Engine) cond(v Val) Cond {
	switch v := v.(type) {
	case BoolV:
		return v.C
	}
	return Atom("t(" + Key(v) + ")")
}

func (e *Engine) binop(s *State, op token.Token, x, y Val, xt, rt types.Type, in ssa.Instruction) Val {
	switch op {
	case token.EQL, token.NEQ:
		c := e.equal(s, x, y, xt)
		if op == token.NEQ {
			c = c.Not()
		}
		return BoolV{c}
	}
	if isInt(xt) {
		if e.Words {
			if v, ok := e.wordOp(op, x, y, rt); ok {
				return v
			}
		}
		if w, sg := intWidth(xt); w == 64 && !sg {
			lx, ly := e.lin(x), e.lin(y)
			if n, ok := hugeConst(x); ok {
				lx = C(n)
			}
			if n, ok := hugeConst(y); ok {
				ly = C(n)
			}
			if c, ok := e.hugeCmp(s, op, lx, ly); ok {
				return BoolV{c}
			}
		}
		if c, ok := e.topBit(op, x, y); ok {
			return BoolV{c}
		}
		switch op {
		case token.LSS:
			return BoolV{LT(e.lin(x), e.lin(y))}
		case token.LEQ:
			return BoolV{LE(e.lin(x), e.lin(y))}
		case token.GTR:
			return BoolV{LT(e.lin(y), e.lin(x))}
		case token.GEQ:
			return BoolV{LE(e.lin(y), e.lin(x))}
		case token.ADD:
			if b, ok := e.disjoint(x, y, rt); ok {
				return b
			}
			r := e.lin(x).Add(e.lin(y))
			if w, sg := intWidth(rt); !sg && w < 32 {
				return e.truncate(s, IntV{r}, w)
			}
			return IntV{r}
		case token.SUB:
			r := e.lin(x).Sub(e.lin(y))
			if w, sg := intWidth(rt); !sg && w < 32 {
				return e.truncate(s, IntV{r}, w)
			}
			return IntV{r}
		case token.MUL:
			if b, ok := e.scaled(s, x, y, rt); ok {
				return b
			}
			a, b := e.lin(x), e.lin(y)
			if a.IsC() {
				return IntV{b.Mul(a.C)}
			}
			if b.IsC() {
				return IntV{a.Mul(b.C)}
			}
			if a.String() > b.String() {
				a, b = b, a
			}
			return IntV{At("i(mul{" + a.String() + "," + b.String() + "})")}
		case token.QUO, token.REM:
			a, b := e.lin(x), e.lin(y)
			if a.IsC() && b.IsC() && b.C != 0 {
				if op == token.QUO {
					return IntV{C(a.C / b.C)}
				}
				return IntV{C(a.C % b.C)}
			}
			if op == token.REM {
				n := "i(rem{" + a.String() + "," + b.String() + "})"
				if s.EntailsGE(a) && s.EntailsGE(b.AddC(-1)) {
					n = "nn(rem{" + a.String() + "," + b.String() + "})"
					s.addLin(b.AddC(-1).Sub(At(n)))
				}
				return IntV{At(n)}
			}
			if b.IsC() && b.C > 1 {
				return IntV{e.quo(s, a, b)}
			}
			return IntV{At("i(quo{" + a.String() + "," + b.String() + "})")}
		case token.AND, token.OR, token.XOR, token.AND_NOT, token.SHL, token.SHR:
			return e.bitop(s, op, x, y, rt)
		}
	}
	if xs, ok := x.(StrV); ok && op == token.ADD {
		if ys, ok := y.(StrV); ok {
			return StrV{S: normSegs(s, append(append([]Seg(nil), xs.S...), ys.S...))}
		}
	}
	if b, ok := rt.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		return BoolV{Atom("t(" + op.String() + "(" + Key(x) + "," + Key(y) + "))")}
	}
	return e.opaque(s, op.String()+"("+Key(x)+","+Key(y)+")", rt)
}

// quo is the truncated quotient of a and a constant greater than one.
func (e *Engine) quo(s *State, a, b Lin) Lin {
	if a.IsC() {
		return C(a.C / b.C)
	}
	if q, ok := divExact(a, b.C); ok {
		return q
	}
	n := "i(quo{" + a.String() + "," + b.String() + "})"
	if s.EntailsGE(a) {
		// b*q <= a < b*q+b
		s.addLin(a.Sub(At(n).Mul(b.C)))
		s.addLin(At(n).Mul(b.C).AddC(b.C - 1).Sub(a))
	}
	return At(n)
}

func divExact(a Lin, d int64) (Lin, bool) {
	if a.C%d != 0 {
		return Lin{}, false
	}
	r := Lin{C: a.C / d}
	for _, t := range a.T {
		if t.K%d != 0 {
			return Lin{}, false
		}
		r.T = append(r.T, Term{t.A, t.K / d})
	}
	return r, true
}

func (e *Engine) bitop(s *State, op token.Token, x, y Val, rt types.Type) Val {
	w, _ := intWidth(rt)
	if op == token.SHL || op == token.SHR {
		n := e.lin(y)
		if !n.IsC() {
			return e.opaque(s, op.String()+"("+Key(x)+","+Key(y)+")", rt)
		}
		if xi, ok := x.(IntV); ok && xi.L.IsC() && op == token.SHL && n.C < 62 {
			v := xi.L.C << uint(n.C)
			if v>>uint(n.C) == xi.L.C {
				return e.truncate(s, IntV{C(v)}, w)
			}
		}
		b, ok := e.bits(x, w)
		if !ok {
			return e.opaque(s, op.String()+"("+Key(x)+","+Key(y)+")", rt)
		}
		r := BVV{B: make([]Bit, w)}
		for i := range r.B {
			j := i - int(n.C)
			if op == token.SHR {
				j = i + int(n.C)
			}
			if j >= 0 && j < w {
				r.B[i] = b.B[j]
			}
		}
		return mkInt(r)
	}
	a, ok1 := e.bits(x, w)
	b, ok2 := e.bits(y, w)
	if !ok1 || !ok2 {
		return e.opaque(s, op.String()+"("+Key(x)+","+Key(y)+")", rt)
	}
	r := BVV{B: make([]Bit, w)}
	for i := 0; i < w; i++ {
		p, q := a.B[i], b.B[i]
		unk := func() Bit {
			l, r := p.String(), q.String()
			if l > r {
				l, r = r, l
			}
			return Bit{Or: []string{fmt.Sprintf("%s{%s^%s}", map[token.Token]string{token.AND: "and", token.XOR: "xor", token.AND_NOT: "andnot"}[op], strings.ReplaceAll(l, "|", "/"), strings.ReplaceAll(r, "|", "/"))}}
		}
		switch op {
		case token.OR:
			r.B[i] = orBit(p, q)
		case token.AND:
			switch {
			case p.IsZero() || q.IsZero():
			case p.One:
				r.B[i] = q
			case q.One:
				r.B[i] = p
			case p.String() == q.String():
				r.B[i] = p
			default:
				r.B[i] = unk()
			}
		case token.XOR:
			switch {
			case p.IsZero():
				r.B[i] = q
			case q.IsZero():
				r.B[i] = p
			case p.String() == q.String():
			default:
				r.B[i] = unk()
			}
		case token.AND_NOT:
			switch {
			case p.IsZero() || q.One:
			case q.IsZero():
				r.B[i] = p
			default:
				r.B[i] = unk()
			}
		}
	}
	return mkInt(r)
}

// truncate keeps the low w bits of an unsigned value.
func (e *Engine) truncate(s *State, v Val, w int) Val {
	if w >= 62 {
		return v
	}
	if iv, ok := v.(IntV); ok {
		if iv.L.IsC() {
			return IntV{C(iv.L.C & (1<<uint(w) - 1))}
		}
		if s.EntailsGE(iv.L) && s.EntailsGE(C(1<<uint(w)-1).Sub(iv.L)) {
			return v
		}
		if w >= 32 {
			return v // lengths are assumed to fit
		}
	}
	b, ok := e.bits(v, w)
	if !ok {
		return v
	}
	return mkInt(b)
}

// equal gives the condition x == y.
func (e *Engine) equal(s *State, x, y Val, t types.Type) Cond {
	if isInt(t) {
		xb, ok1 := x.(BVV)
		yc := e.lin(y)
		if !ok1 {
			if yb, ok2 := y.(BVV); ok2 {
				xb, ok1, yc = yb, true, e.lin(x)
			}
		}
		if ok1 && yc.IsC() {
			// one unknown bit?
			if yc.C == 0 {
				var atoms []string
				for _, b := range xb.B {
					if b.One {
						return False()
					}
					for _, a := range b.Or {
						dup := false
						for _, q := range atoms {
							dup = dup || q == a
						}
						if !dup {
							atoms = append(atoms, a)
						}
					}
				}
				if len(atoms) == 0 {
					return True()
				}
				simple := len(atoms) <= 8
				_ = simple
				if len(atoms) == 1 {
					return Atom(atoms[0]).Not()
				}
				if isMasked(xb) {
					sortStrings(atoms)
					return Atom("or(" + strings.Join(atoms, "|") + ")").Not()
				}
			} else {
				// a single-bit mask compared with the mask itself
				bit := -1
				cnt := 0
				for i, b := range xb.B {
					if !b.IsZero() {
						bit = i
						cnt++
					}
				}
				if cnt == 1 {
					if yc.C == 1<<uint(bit) {
						b := xb.B[bit]
						if b.One {
							return True()
						}
						if len(b.Or) == 1 {
							return Atom(b.Or[0])
						}
						return Atom("or(" + strings.Join(b.Or, "|") + ")")
					}
					return False()
				}
				if a, ok := xb.lin().Single(); ok && strings.HasPrefix(a, "bv[") {
					if c, ok := bitsEqual(xb, yc.C); ok {
						return c
					}
				}
			}
		}
		return EQ(e.lin(x), e.lin(y))
	}
	isNil := func(v Val) bool {
		switch v := v.(type) {
		case NilV:
			return true
		case PtrV:
			return v.Cell == ""
		case SliceV:
			return v.Arr == ""
		}
		return false
	}
	if isNil(x) && isNil(y) {
		return True()
	}
	if isNil(y) || isNil(x) {
		v := x
		if isNil(x) {
			v = y
		}
		return e.isNil(s, v)
	}
	switch a := x.(type) {
	case BoolV:
		if b, ok := y.(BoolV); ok {
			for i, p := range []BoolV{a, b} {
				q := []BoolV{b, a}[i]
				if p.C.K == 'c' {
					if p.C.B {
						return q.C
					}
					return q.C.Not()
				}
			}
		}
	case PtrV:
		if b, ok := y.(PtrV); ok {
			if a.Cell == b.Cell {
				return True()
			}
			if strings.HasPrefix(a.Cell, "new:") && strings.HasPrefix(b.Cell, "new:") {
				return False()
			}
		}
	case StrV:
		if b, ok := y.(StrV); ok {
			p, ok1 := constSegs(a.S)
			q, ok2 := constSegs(b.S)
			if ok1 && ok2 {
				return BoolC(p == q)
			}
			if Key(a) == Key(b) {
				return True()
			}
			if ok1 && p == "" {
				return EQ(segsLen(b.S), Lin{})
			}
			if ok2 && q == "" {
				return EQ(segsLen(a.S), Lin{})
			}
			if s.EntailsNE(segsLen(a.S).Sub(segsLen(b.S))) || e.startsDiffer(s, a.S, b.S) {
				return False()
			}
			ka, kb := Key(a), Key(b)
			if ka > kb {
				ka, kb = kb, ka
			}
			return Atom("eq(" + ka + "," + kb + ")")
		}
	case IfaceV:
		if b, ok := y.(IfaceV); ok {
			if !types.Identical(a.T, b.T) {
				return False()
			}
			return e.equal(s, a.V, b.V, a.T)
		}
	}
	ka, kb := Key(x), Key(y)
	if ka == kb {
		return True()
	}
	if distinctErr(x) && distinctErr(y) {
		return False()
	}
	if ka > kb {
		ka, kb = kb, ka
	}
	return Atom("eq(" + ka + "," + kb + ")")
}

// startsDiffer: two texts differ at their first bytes, as far as those are
// known to be at the same position.
func (e *Engine) startsDiffer(s *State, a, b []Seg) bool {
	next := func(ss []Seg) (Val, []Seg, bool) {
		for len(ss) > 0 {
			x := ss[0]
			if !s.EntailsGE(x.Len().AddC(-1)) {
				return nil, nil, false
			}
			if !x.Len().IsC() && !x.Lo.IsC() {
				return nil, nil, false
			}
			y := x
			y.Hi = x.Lo.AddC(1)
			rest := append([]Seg(nil), ss[1:]...)
			if !x.Len().Eq(C(1)) {
				z := x
				z.Lo = y.Hi
				rest = append([]Seg{z}, rest...)
			}
			if x.Tok == "?" || x.Tok == "0" {
				return nil, nil, false
			}
			return e.elemOf(s, []Seg{y}, types.Typ[types.Byte]), rest, true
		}
		return nil, nil, false
	}
	for i := 0; i < 64; i++ {
		x, ra, ok1 := next(a)
		y, rb, ok2 := next(b)
		if !ok1 || !ok2 {
			return false
		}
		p, q := e.lin(x), e.lin(y)
		if s.EntailsNE(p.Sub(q)) {
			return true
		}
		a, b = ra, rb
	}
	return false
}

// distinctErr: values that are known to be different from each other when
// their names differ (error values made at different places).
func distinctErr(v Val) bool {
	switch v := v.(type) {
	case OpqV:
		return strings.HasPrefix(v.N, "err:")
	case IfaceV:
		return true
	}
	return false
}

// bitsEqual is the condition that a few unknown bits among known ones have
// the given value.
func bitsEqual(x BVV, c int64) (Cond, bool) {
	if !isMasked(x) || c < 0 {
		return Cond{}, false
	}
	var lits []string
	for i, b := range x.B {
		one := i < 63 && c>>uint(i)&1 == 1
		switch {
		case b.One && len(b.Or) == 0:
			if !one {
				return False(), true
			}
		case b.IsZero():
			if one {
				return False(), true
			}
		case !one && !b.One:
			lits = append(lits, b.Or...)
		case one && !b.One && len(b.Or) == 1:
			lits = append(lits, "!"+b.Or[0])
		default:
			return Cond{}, false
		}
	}
	if len(x.B) < 63 && c>>uint(len(x.B)) != 0 {
		return False(), true
	}
	switch {
	case len(lits) == 0:
		return True(), true
	case len(lits) == 1 && strings.HasPrefix(lits[0], "!"):
		return Atom(lits[0][1:]), true
	case len(lits) == 1:
		return Atom(lits[0]).Not(), true
	}
	sortStrings(lits)
	return Atom("or(" + strings.Join(lits, "|") + ")").Not(), true
}

func isMasked(b BVV) bool {
	n := 0
	for _, x := range b.B {
		if !x.IsZero() {
			n++
		}
	}
	return n <= 8
}

func (e *Engine) isNil(s *State, v Val) Cond {
	switch v := v.(type) {
	case NilV:
		return True()
	case PtrV:
		if v.Cell == "" {
			return True()
		}
		if strings.HasPrefix(v.Cell, "sym:") && !strings.HasPrefix(v.Cell, "sym:<nonnil") {
			return Atom("nil(" + v.Cell[4:] + ")")
		}
		return False()
	case ElemP, FuncV, IfaceV:
		return False()
	case SliceV:
		if v.Arr == "" {
			return True()
		}
		if strings.HasPrefix(v.Arr, "sym:") && !s.EntailsGE(v.Len.AddC(-1)) {
			if a, ok := v.Len.Single(); ok && a == "len("+v.Arr[4:]+")" {
				return Atom("nil(" + v.Arr[4:] + ")")
			}
		}
		return False()
	case OpqV:
		if strings.HasPrefix(v.N, "err:") || strings.HasPrefix(v.N, "builtin:") {
			return False()
		}
		return Atom("nil(" + v.N + ")")
	}
	return Atom("nil(" + Key(v) + ")")
}

func (e *Engine) unop(s *State, in *ssa.UnOp) ([]*State, bool) {
	f := s.top()
	x := e.eval(s, in.X)
	switch in.Op {
	case token.MUL:
		v, ok := e.Load(s, x, in.Type(), in)
		if !ok {
			e.doPanic(s, in, "nil dereference")
			return nil, false
		}
		f.Env[in] = v
	case token.NOT:
		f.Env[in] = BoolV{e.cond(x).Not()}
	case token.SUB:
		if isInt(in.Type()) {
			f.Env[in] = IntV{e.lin(x).Neg()}
		} else {
			f.Env[in] = e.opaque(s, "neg("+Key(x)+")", in.Type())
		}
	case token.XOR:
		w, sg := intWidth(in.Type())
		if iv, ok := x.(IntV); ok && iv.L.IsC() {
			if sg {
				f.Env[in] = IntV{C(^iv.L.C)}
			} else if w < 63 {
				f.Env[in] = IntV{C(^iv.L.C & (1<<uint(w) - 1))}
			} else {
				f.Env[in] = e.opaque(s, "not("+Key(x)+")", in.Type())
			}
		} else {
			f.Env[in] = e.opaque(s, "not("+Key(x)+")", in.Type())
		}
	case token.ARROW:
		if r, y := e.yield(s, "receive"); y {
			return r, false
		}
		if e.OnRecv != nil {
			e.OnRecv(s, x, in)
		}
		ct := in.X.Type().Underlying().(*types.Chan).Elem()
		v := e.opaque(s, "recv("+e.site(in)+")", ct)
		if in.CommaOk {
			f.Env[in] = TupV{[]Val{v, BoolV{Atom("recvok(" + e.site(in) + ")")}}}
		} else {
			f.Env[in] = v
		}
	default:
		panic(Undecided{"unop " + in.Op.String()})
	}
	f.PC++
	return nil, true
}

// ---- heap ----

func (e *Engine) access(s *State, cell string, write bool, in ssa.Instruction) {
	if e.OnAccess != nil {
		e.OnAccess(s, cell, write, in)
	}
}

// Load reads the value of type t behind address a.
func (e *Engine) Load(s *State, a Val, t types.Type, in ssa.Instruction) (Val, bool) {
	switch p := a.(type) {
	case PtrV:
		if p.Cell == "" {
			return nil, false
		}
		return e.loadCell(s, p.Cell, t, in), true
	case ElemP:
		e.access(s, p.Arr, false, in)
		arr := e.arrAt(s, p.Arr, nil)
		if p.Path == "" {
			return e.arrElem(s, arr, p.Idx, t), true
		}
		v := e.arrElem(s, arr, p.Idx, arr.Elem)
		return e.pathOf(s, v, arr.Elem, p.Path), true
	case WideP:
		v, ok := e.loadWide(s, p, in)
		if !ok {
			panic(Undecided{"wide load of unknown bytes"})
		}
		return v, true
	case NilV:
		return nil, false
	case OpqV:
		return e.opaque(s, "deref("+p.N+")", t), true
	}
	panic(Undecided{fmt.Sprintf("load through %T", a)})
}

func (e *Engine) pathOf(s *State, v Val, t types.Type, path string) Val {
	for _, n := range strings.Split(strings.TrimPrefix(path, "/"), "/") {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			panic(Undecided{"path into " + typeName(t)})
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				v = e.fieldOf(s, v, t, i)
				t = st.Field(i).Type()
				break
			}
		}
	}
	return v
}

func (e *Engine) fieldOf(s *State, v Val, t types.Type, i int) Val {
	st := t.Underlying().(*types.Struct)
	if sv, ok := v.(StructV); ok {
		return sv.F[i]
	}
	return e.opaque(s, Key(v)+"."+st.Field(i).Name(), st.Field(i).Type())
}

func (e *Engine) loadCell(s *State, cell string, t types.Type, in ssa.Instruction) Val {
	if u, ok := t.Underlying().(*types.Struct); ok && !leafStruct(t) {
		if v, ok := s.Heap[cell]; ok {
			return v
		}
		sv := StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.F = append(sv.F, e.loadCell(s, cell+"/"+u.Field(i).Name(), u.Field(i).Type(), in))
		}
		return sv
	}
	e.access(s, cell, false, in)
	if v, ok := s.Heap[cell]; ok {
		return v
	}
	// a field of a struct stored as one opaque value
	if i := strings.LastIndexByte(cell, '/'); i > 0 {
		if v, ok := s.Heap[cell[:i]]; ok {
			if o, ok := v.(OpqV); ok {
				return e.opaque(s, o.N+"."+cell[i+1:], t)
			}
		}
	}
	var v Val
	if strings.HasPrefix(cell, "new:") {
		v = e.zero(t)
	} else {
		v = e.opaque(s, "init("+cell+")", t)
	}
	s.Heap[cell] = v
	return v
}

// Store writes v of type t behind address a.
func (e *Engine) Store(s *State, a Val, v Val, t types.Type, in ssa.Instruction) {
	switch p := a.(type) {
	case PtrV:
		if p.Cell == "" {
			e.doPanic(s, in, "nil dereference")
			return
		}
		e.storeCell(s, p.Cell, v, t, in)
	case ElemP:
		e.access(s, p.Arr, true, in)
		arr := e.arrAt(s, p.Arr, t)
		if p.Path != "" {
			old := e.arrElem(s, arr, p.Idx, arr.Elem)
			v = e.withPath(s, old, arr.Elem, strings.Split(strings.TrimPrefix(p.Path, "/"), "/"), v)
		}
		s.Heap[p.Arr] = arr.write(s, p.Idx, p.Idx.AddC(1), []Seg{{V: v, Hi: C(1)}})
	case WideP:
		if !e.storeWide(s, p, v, in) {
			panic(Undecided{"wide store of an unknown value"})
		}
	default:
		panic(Undecided{fmt.Sprintf("store through %T", a)})
	}
}

func (e *Engine) withPath(s *State, v Val, t types.Type, path []string, x Val) Val {
	if len(path) == 0 {
		return x
	}
	st := t.Underlying().(*types.Struct)
	r := StructV{T: t}
	for i := 0; i < st.NumFields(); i++ {
		fv := e.fieldOf(s, v, t, i)
		if st.Field(i).Name() == path[0] {
			fv = e.withPath(s, fv, st.Field(i).Type(), path[1:], x)
		}
		r.F = append(r.F, fv)
	}
	return r
}

func (e *Engine) storeCell(s *State, cell string, v Val, t types.Type, in ssa.Instruction) {
	if u, ok := t.Underlying().(*types.Struct); ok && !leafStruct(t) {
		if sv, ok := v.(StructV); ok {
			for i := 0; i < u.NumFields(); i++ {
				e.storeCell(s, cell+"/"+u.Field(i).Name(), sv.F[i], u.Field(i).Type(), in)
			}
			return
		}
	}
	e.access(s, cell, true, in)
	s.Heap[cell] = v
}

func (e *Engine) arrAt(s *State, cell string, elem types.Type) ArrV {
	if v, ok := s.Heap[cell]; ok {
		if a, ok := v.(ArrV); ok {
			return a
		}
		panic(Undecided{fmt.Sprintf("array cell %s holds %T", cell, v)})
	}
	n := At("len(" + cell + ")")
	a := ArrV{Len: n, Elem: elem, P: []Piece{{Lin{}, n, Seg{Tok: "sym(" + cell + ")", Hi: n}}}}
	s.Heap[cell] = a
	return a
}

func (e *Engine) mapAt(s *State, cell string) MapC {
	if v, ok := s.Heap[cell]; ok {
		return v.(MapC)
	}
	m := MapC{Rest: !strings.HasPrefix(cell, "new:"), N: cell}
	s.Heap[cell] = m
	return m
}

func (m MapC) find(k Val) int {
	kk := Key(k)
	for i, x := range m.Keys {
		if Key(x) == kk {
			return i
		}
	}
	return -1
}

func (m MapC) set(s *State, k, v Val) MapC {
	r := MapC{Rest: m.Rest, N: m.N}
	kk := Key(k)
	for i, x := range m.Keys {
		if Key(x) != kk {
			r.Keys = append(r.Keys, x)
			r.Vals = append(r.Vals, m.Vals[i])
		}
	}
	for _, x := range m.Abs {
		if Key(x) != kk {
			r.Abs = append(r.Abs, x)
		}
	}
	if v != nil {
		r.Keys = append(r.Keys, k)
		r.Vals = append(r.Vals, v)
		sortPairs(r.Keys, r.Vals)
	} else if m.Rest {
		r.Abs = append(r.Abs, k)
		sort.Slice(r.Abs, func(i, j int) bool { return Key(r.Abs[i]) < Key(r.Abs[j]) })
	}
	return r
}

func sortPairs(k, v []Val) {
	for i := 1; i < len(k); i++ {
		for j := i; j > 0 && Key(k[j]) < Key(k[j-1]); j-- {
			k[j], k[j-1] = k[j-1], k[j]
			v[j], v[j-1] = v[j-1], v[j]
		}
	}
}

func (e *Engine) lookup(s *State, in *ssa.Lookup) ([]*State, bool) {
	f := s.top()
	x := e.eval(s, in.X)
	k := e.eval(s, in.Index)
	if sv, ok := x.(StrV); ok {
		e.bounds(s, in, "index", e.lin(k), segsLen(sv.S))
		f.Env[in] = e.segElem(s, sv.S, e.lin(k), in.Type())
		f.PC++
		return nil, true
	}
	et := in.X.Type().Underlying().(*types.Map).Elem()
	give := func(t *State, v Val, ok bool) {
		if in.CommaOk {
			t.top().Env[in] = TupV{[]Val{v, BoolV{BoolC(ok)}}}
		} else {
			t.top().Env[in] = v
		}
		t.top().PC++
	}
	p, ok := x.(PtrV)
	if !ok || p.Cell == "" {
		give(s, e.zero(et), false)
		return nil, true
	}
	e.access(s, p.Cell, false, in)
	mc := e.mapAt(s, p.Cell)
	if i := mc.find(k); i >= 0 {
		give(s, mc.Vals[i], true)
		return nil, true
	}
	known := !mc.Rest
	kk := Key(k)
	for _, a := range mc.Abs {
		if Key(a) == kk {
			known = true
		}
	}
	if known {
		// constant keys only: other entries may alias a symbolic key
		give(s, e.zero(et), false)
		return nil, true
	}
	t := s.Clone()
	v := e.opaque(s, "entry("+mc.N+","+kk+")", et)
	s.Heap[p.Cell] = mc.set(s, k, v)
	s.Note("%s: key present", e.Pos(in))
	give(s, v, true)
	m2 := mc
	m2.Abs = append(append([]Val(nil), mc.Abs...), k)
	t.Heap[p.Cell] = m2
	t.Note("%s: key absent", e.Pos(in))
	give(t, e.zero(et), false)
	return []*State{s, t}, false
}

func (e *Engine) next(s *State, in *ssa.Next) ([]*State, bool) {
	it := e.eval(s, in.Iter).(TupV)
	site := e.site(in)
	s.prepSite(e, site)
	it = e.eval(s, in.Iter).(TupV)
	tt := in.Type().(*types.Tuple)
	if len(it.V) == 3 {
		return e.nextOf(s, in, it, tt), false
	}
	end := s.Clone()
	zero := TupV{[]Val{BoolV{False()}, e.zero(tt.At(1).Type()), e.zero(tt.At(2).Type())}}
	if isInvalid(tt.At(1).Type()) {
		zero.V[1] = NilV{}
	}
	if isInvalid(tt.At(2).Type()) {
		zero.V[2] = NilV{}
	}
	end.top().Env[in] = zero
	end.top().PC++
	var src Val
	if len(it.V) > 0 {
		src = it.V[0]
	}
	end.Note("%s: range done", e.Pos(in))
	if p, ok := src.(PtrV); ok && p.Cell == "" {
		return []*State{end}, false
	}
	n := s.Fresh(site + ".next")
	get := func(i int) Val {
		if isInvalid(tt.At(i).Type()) {
			return NilV{}
		}
		return e.opaque(s, fmt.Sprintf("%s.%d", n, i), tt.At(i).Type())
	}
	if e.OnBounds != nil {
		// no obligation
		_ = src
	}
	s.G["range:"+site] = TupV{[]Val{src}}
	s.top().Env[in] = TupV{[]Val{BoolV{True()}, get(1), get(2)}}
	s.top().PC++
	s.Note("%s: range next", e.Pos(in))
	return []*State{s, end}, false
}

// nextOf gives each entry of a known map that is there from the beginning of
// the iteration to its turn once; entries that are added meanwhile may come.
func (e *Engine) nextOf(s *State, in *ssa.Next, it TupV, tt *types.Tuple) []*State {
	m := e.mapAt(s, it.V[0].(PtrV).Cell)
	e.access(s, it.V[0].(PtrV).Cell, false, in)
	has := func(l Val, k Val) bool {
		for _, x := range l.(ListV).V {
			if Key(x) == Key(k) {
				return true
			}
		}
		return false
	}
	give := func(t *State, ok bool, k, v Val) {
		if isInvalid(tt.At(1).Type()) {
			k = NilV{}
		}
		if isInvalid(tt.At(2).Type()) {
			v = NilV{}
		}
		t.top().Env[in] = TupV{[]Val{BoolV{BoolC(ok)}, k, v}}
		t.top().PC++
	}
	var out []*State
	must := false
	for i, k := range m.Keys {
		if has(it.V[2], k) {
			continue
		}
		must = must || has(it.V[1], k)
		t := s.Clone()
		given := append(append([]Val(nil), it.V[2].(ListV).V...), k)
		sort.Slice(given, func(i, j int) bool { return Key(given[i]) < Key(given[j]) })
		t.top().Env[in.Iter] = TupV{[]Val{it.V[0], it.V[1], ListV{V: given}}}
		t.Note("%s: range next", e.Pos(in))
		give(t, true, k, m.Vals[i])
		out = append(out, t)
	}
	if !must {
		s.Note("%s: range done", e.Pos(in))
		give(s, false, e.zero(tt.At(1).Type()), e.zero(tt.At(2).Type()))
		out = append(out, s)
	}
	return out
}

func isInvalid(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.Invalid
}

func (e *Engine) typeAssert(s *State, in *ssa.TypeAssert) ([]*State, bool) {
	x := e.eval(s, in.X)
	give := func(t *State, v Val, ok bool) {
		if in.CommaOk {
			t.top().Env[in] = TupV{[]Val{v, BoolV{BoolC(ok)}}}
		} else {
			t.top().Env[in] = v
		}
		t.top().PC++
	}
	fail := func(t *State) []*State {
		if !in.CommaOk {
			e.doPanic(t, in, "type assertion")
			return nil
		}
		give(t, e.zero(in.AssertedType), false)
		return []*State{t}
	}
	_, toIface := in.AssertedType.Underlying().(*types.Interface)
	switch v := x.(type) {
	case NilV:
		return fail(s), false
	case IfaceV:
		ok := false
		if toIface {
			ok = types.Implements(v.T, in.AssertedType.Underlying().(*types.Interface))
		} else {
			ok = types.Identical(v.T, in.AssertedType)
		}
		if !ok {
			return fail(s), false
		}
		if toIface {
			give(s, v, true)
		} else {
			give(s, v.V, true)
		}
		return []*State{s}, false
	}
	n := Key(x)
	a := Atom("is(" + n + "," + typeName(in.AssertedType) + ")")
	res := func(t *State) Val {
		if toIface {
			return x
		}
		v := e.opaque(t, "as("+n+","+typeName(in.AssertedType)+")", in.AssertedType)
		return v
	}
	switch s.Decide(a) {
	case 1:
		give(s, res(s), true)
		return []*State{s}, false
	case 0:
		return fail(s), false
	}
	if !in.CommaOk {
		s.Assume(a)
		give(s, res(s), true)
		return []*State{s}, false
	}
	t := s.Clone()
	s.Assume(a)
	s.Assume(Atom("nil(" + n + ")").Not())
	give(s, res(s), true)
	t.Assume(a.Not())
	return append(fail(t), s), false
}

func (e *Engine) convert(s *State, v Val, from, to types.Type, in *ssa.Convert) (Val, *State) {
	fu, tu := from.Underlying(), to.Underlying()
	if isInt(from) && isInt(to) {
		fw, fs := intWidth(from)
		tw, ts := intWidth(to)
		if wv, ok := v.(WordV); ok {
			if tw > fw && fs {
				return e.opaque(s, "conv("+Key(v)+","+typeName(to)+")", to), s
			}
			r, _ := e.word(wv, tw/8)
			return MkWord(r), s
		}
		if ts == fs && tw >= fw || !fs && ts && tw > fw {
			return v, s
		}
		if e.Narrow && (tw < fw || tw == fw && tw < 64) {
			l := e.lin(v)
			lo, hi := C(0), C(1<<uint(tw)-1)
			if ts {
				lo, hi = C(-1<<uint(tw-1)), C(1<<uint(tw-1)-1)
			}
			if s.EntailsGE(l.Sub(lo)) && s.EntailsGE(hi.Sub(l)) {
				return v, s
			}
			if !ts {
				if b, ok := e.bits(v, tw); ok {
					return mkInt(b), s
				}
			}
			if l.IsC() && ts {
				x := l.C & (1<<uint(tw) - 1)
				if x > hi.C {
					x -= 1 << uint(tw)
				}
				return IntV{C(x)}, s
			}
			a := At(fmt.Sprintf("i(cut%d(%s))", tw, Key(v)))
			s.Assume(GE(a.Sub(lo)))
			s.Assume(GE(hi.Sub(a)))
			return IntV{a}, s
		}
		if tw < fw || (!ts && fs && tw <= fw) || tw == fw {
			if !ts || tw < fw {
				if tw < 32 {
					if !ts {
						return e.truncate(s, v, tw), s
					}
				}
			}
		}
		return v, s
	}
	// string <-> []byte
	if b, ok := tu.(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if _, ok := fu.(*types.Slice); ok {
			sl, ok := v.(SliceV)
			if !ok {
				return e.opaque(s, "str("+Key(v)+")", to), s
			}
			return StrV{S: e.ReadSlice(s, sl)}, s
		}
		return e.opaque(s, "str("+Key(v)+")", to), s
	}
	if _, ok := tu.(*types.Slice); ok {
		if st, ok := v.(StrV); ok {
			site := e.site(in)
			s.prepSite(e, site)
			st = e.eval(s, in.X).(StrV)
			n := "new:" + s.Fresh(site+".arr")
			l := segsLen(st.S)
			a := ArrV{Len: l, Elem: types.Typ[types.Byte]}
			s.Heap[n] = a.write(s, Lin{}, l, st.S)
			return SliceV{n, Lin{}, l, l}, s
		}
	}
	if e.Words {
		if b, ok := tu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			return v, s
		}
		if _, ok := tu.(*types.Pointer); ok {
			if p, ok := e.wide(v, to); ok {
				return p, s
			}
		}
	}
	if _, ok := tu.(*types.Pointer); ok {
		return v, s
	}
	return e.opaque(s, "conv("+Key(v)+","+typeName(to)+")", to), s
}

func (e *Engine) bounds(s *State, in ssa.Instruction, what string, i, n Lin) {
	ok := s.EntailsGE(i) && s.EntailsGE(n.Sub(i).AddC(-1))
	if e.OnBounds != nil {
		e.OnBounds(s, what, ok, in)
	}
	if !ok {
		s.Assume(GE(i))
		s.Assume(LT(i, n))
	}
}

func (e *Engine) slice(s *State, in *ssa.Slice) ([]*State, bool) {
	f := s.top()
	x := e.eval(s, in.X)
	var lo, hi, mx Lin
	if in.Low != nil {
		lo = e.lin(e.eval(s, in.Low))
	}
	chk := func(n Lin, capn Lin) {
		// 0 <= lo <= hi <= cap
		ok := s.EntailsGE(lo) && s.EntailsGE(hi.Sub(lo)) && s.EntailsGE(capn.Sub(hi))
		if e.OnBounds != nil {
			e.OnBounds(s, "slice", ok, in)
		}
		if !ok {
			s.Assume(GE(lo))
			s.Assume(LE(lo, hi))
			s.Assume(LE(hi, capn))
		}
	}
	switch v := x.(type) {
	case StrV:
		n := segsLen(v.S)
		hi = n
		if in.High != nil {
			hi = e.lin(e.eval(s, in.High))
		}
		chk(n, n)
		r := StrV{S: e.subSegs(s, v.S, lo, hi)}
		if sl, ok := v.From.(SliceV); ok {
			r.From = SliceV{Arr: sl.Arr, Off: sl.Off.Add(lo), Len: hi.Sub(lo), Cap: hi.Sub(lo)}
		}
		f.Env[in] = r
	case SliceV:
		hi = v.Len
		if in.High != nil {
			hi = e.lin(e.eval(s, in.High))
		}
		mx = v.Cap
		if in.Max != nil {
			mx = e.lin(e.eval(s, in.Max))
		}
		chk(v.Len, v.Cap)
		if v.Arr == "" {
			f.Env[in] = v
		} else {
			f.Env[in] = SliceV{v.Arr, v.Off.Add(lo), hi.Sub(lo), mx.Sub(lo)}
		}
	case PtrV:
		at, ok := deref(in.X.Type()).Underlying().(*types.Array)
		if !ok {
			panic(Undecided{"slice of pointer"})
		}
		n := C(at.Len())
		hi, mx = n, n
		if in.High != nil {
			hi = e.lin(e.eval(s, in.High))
		}
		if in.Max != nil {
			mx = e.lin(e.eval(s, in.Max))
		}
		chk(n, n)
		if _, ok := s.Heap[v.Cell]; !ok {
			if strings.HasPrefix(v.Cell, "new:") {
				s.Heap[v.Cell] = zeroArr(at)
			} else {
				s.Heap[v.Cell] = e.opaque(s, "init("+v.Cell+")", deref(in.X.Type()))
			}
		}
		f.Env[in] = SliceV{v.Cell, lo, hi.Sub(lo), mx.Sub(lo)}
	case OpqV, NilV:
		f.Env[in] = SliceV{}
	default:
		panic(Undecided{fmt.Sprintf("slice of %T", x)})
	}
	f.PC++
	return nil, true
}

// ---- calls ----

// callee evaluates the called function and its arguments (receiver first).
func (e *Engine) callee(s *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	var fn Val
	if c.IsInvoke() {
		fn = e.eval(s, c.Value)
		args = append(args, fn)
	} else {
		fn = e.eval(s, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, e.eval(s, a))
	}
	return fn, args
}

func (e *Engine) call(s *State, in ssa.Instruction, c *ssa.CallCommon, res ssa.Value) ([]*State, bool) {
	s.prepSite(e, e.site(in))
	fn, args := e.callee(s, c)
	return e.invoke(s, in, c, fn, args, res, false)
}

// FuncName is the name under which a function's model is registered.
func FuncName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

// invoke calls fn; afterwards execution continues behind the instruction (or
// at it again, for deferred calls).
func (e *Engine) invoke(s *State, in ssa.Instruction, c *ssa.CallCommon, fn Val, args []Val, res ssa.Value, again bool) ([]*State, bool) {
	e.Calls[e.Pos(in)] = true
	f := s.top()
	cc := &Call{E: e, St: s, Instr: in, Com: c, Args: args, Site: e.site(in), Sig: c.Signature(), Fn: fn}
	done := func(outs []Out) ([]*State, bool) {
		var r []*State
		for _, o := range outs {
			tf := o.St.top()
			if res != nil {
				switch len(o.Res) {
				case 0:
				case 1:
					tf.Env[res] = o.Res[0]
				default:
					tf.Env[res] = TupV{o.Res}
				}
			}
			if !again && !o.Again {
				tf.PC++
			}
			if fv, ok := o.Then.(FuncV); ok {
				e.Push(o.St, fv.Fn, fv.Bind, o.With, func(_ *Engine, st *State, rv []Val) []*State {
					if o.Got != nil {
						return o.Got(st, rv)
					}
					if o.After != nil {
						o.After(st)
					}
					return []*State{st}
				})
			}
			r = append(r, o.St)
		}
		if len(r) == 1 && r[0] == s {
			return nil, true
		}
		return r, false
	}
	wait := func(name string) ([]*State, bool) {
		if again && e.Sync != nil {
			if _, ok := s.G[going]; !ok {
				f.Defers = append(f.Defers, deferred{fn, c, args})
				r, y := e.yield(s, name)
				if !y {
					f.Defers = f.Defers[:len(f.Defers)-1]
				}
				return r, y
			}
		}
		return e.yield(s, name)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		if r, y := wait("builtin:" + b.Name()); y {
			return r, false
		}
		return done(e.builtin(cc, b.Name()))
	}
	var target *ssa.Function
	var bind []Val
	if c.IsInvoke() {
		iv, ok := fn.(IfaceV)
		if !ok {
			if _, isnil := fn.(NilV); isnil {
				e.doPanic(s, in, "call of a nil interface")
				return nil, false
			}
			cc.Name = "iface:" + typeName(c.Value.Type()) + "." + c.Method.Name()
			if m, ok := e.Intr[cc.Name]; ok {
				return done(m(cc))
			}
			return done(e.opaqueCall(cc))
		}
		m := e.Prog.LookupMethod(iv.T, c.Method.Pkg(), c.Method.Name())
		if m == nil {
			panic(Undecided{"no method " + c.Method.Name()})
		}
		target = m
		args[0] = iv.V
	} else if fv, ok := fn.(FuncV); ok {
		target, bind = fv.Fn, fv.Bind
	} else {
		if _, isnil := fn.(NilV); isnil {
			e.doPanic(s, in, "call of a nil function")
			return nil, false
		}
		cc.Name = "func:" + typeName(c.Value.Type())
		if m, ok := e.Intr[cc.Name]; ok {
			return done(m(cc))
		}
		return done(e.opaqueCall(cc))
	}
	cc.Name = FuncName(target)
	cc.Sig = target.Signature
	if m, ok := e.Intr[cc.Name]; ok {
		if r, y := wait(cc.Name); y {
			return r, false
		}
		return done(m(cc))
	}
	if len(target.Blocks) == 0 {
		if i := strings.LastIndex(cc.Name, "."); i > 0 {
			if m, ok := e.Intr[cc.Name[:i]+".*"]; ok {
				return done(m(cc))
			}
		}
		return done(e.externalCall(cc))
	}
	_ = f
	e.Push(s, target, bind, args, func(e *Engine, st *State, rv []Val) []*State {
		tf := st.top()
		if res != nil {
			switch len(rv) {
			case 0:
			case 1:
				tf.Env[res] = rv[0]
			default:
				tf.Env[res] = TupV{rv}
			}
		}
		if !again {
			tf.PC++
		}
		return []*State{st}
	})
	// the caller waits behind the call
	return nil, true
}

// CallFn runs a function value as the next thing to do in st; when it returns,
// k continues.
func (e *Engine) CallFn(st *State, fn Val, args []Val, k func(*Engine, *State, []Val) []*State) bool {
	fv, ok := fn.(FuncV)
	if !ok || len(fv.Fn.Blocks) == 0 {
		return false
	}
	e.Push(st, fv.Fn, fv.Bind, args, k)
	return true
}

func (e *Engine) results(s *State, c *Call) []Val {
	sig := c.Sig
	var r []Val
	for i := 0; i < sig.Results().Len(); i++ {
		r = append(r, e.Opaque(s, fmt.Sprintf("%s.r%d", c.Site, i), sig.Results().At(i).Type()))
	}
	return r
}

// externalCall: a function of another module without a model: no effect on the
// module's memory, unknown results.
func (e *Engine) externalCall(c *Call) []Out {
	e.UnknownCalls[c.Name] = true
	return []Out{{St: c.St, Res: e.results(c.St, c)}}
}

func (e *Engine) opaqueCall(c *Call) []Out {
	if e.OpaqueFn != nil {
		if o := e.OpaqueFn(c); o != nil {
			return o
		}
	}
	e.UnknownCalls[c.Name] = true
	return []Out{{St: c.St, Res: e.results(c.St, c)}}
}

func (e *Engine) builtin(c *Call, name string) []Out {
	s := c.St
	switch name {
	case "len":
		switch v := c.Args[0].(type) {
		case StrV:
			return []Out{{St: s, Res: []Val{IntV{segsLen(v.S)}}}}
		case SliceV:
			return []Out{{St: s, Res: []Val{IntV{v.Len}}}}
		case ArrV:
			return []Out{{St: s, Res: []Val{IntV{v.Len}}}}
		case PtrV:
			if at, ok := deref(c.Com.Args[0].Type()).Underlying().(*types.Array); ok {
				return []Out{{St: s, Res: []Val{IntV{C(at.Len())}}}}
			}
			if v.Cell == "" {
				return []Out{{St: s, Res: []Val{IntV{}}}}
			}
			mc := e.mapAt(s, v.Cell)
			e.access(s, v.Cell, false, c.Instr)
			if !mc.Rest {
				return []Out{{St: s, Res: []Val{IntV{C(int64(len(mc.Keys)))}}}}
			}
			return []Out{{St: s, Res: []Val{IntV{At("len(" + v.Cell + ")")}}}}
		}
		return []Out{{St: s, Res: []Val{IntV{At("len(" + Key(c.Args[0]) + ")")}}}}
	case "cap":
		if v, ok := c.Args[0].(SliceV); ok {
			return []Out{{St: s, Res: []Val{IntV{v.Cap}}}}
		}
		return []Out{{St: s, Res: []Val{IntV{At("len(cap(" + Key(c.Args[0]) + "))")}}}}
	case "append":
		return e.appendOp(c)
	case "copy":
		dst, ok := c.Args[0].(SliceV)
		if !ok {
			panic(Undecided{"copy"})
		}
		var src []Seg
		var n Lin
		switch v := c.Args[1].(type) {
		case SliceV:
			src, n = e.ReadSlice(s, v), v.Len
		case StrV:
			src, n = v.S, segsLen(v.S)
		default:
			panic(Undecided{"copy source"})
		}
		var outs []Out
		one := func(t *State, k Lin, ss []Seg) {
			if dst.Arr != "" {
				e.access(t, dst.Arr, true, c.Instr)
				t.Heap[dst.Arr] = e.arrAt(t, dst.Arr, nil).write(t, dst.Off, dst.Off.Add(k), e.subSegs(t, ss, Lin{}, k))
			}
			outs = append(outs, Out{St: t, Res: []Val{IntV{k}}})
		}
		cnd := LE(n, dst.Len)
		switch s.Decide(cnd) {
		case 1:
			one(s, n, src)
		case 0:
			one(s, dst.Len, src)
		default:
			t := s.Clone()
			if s.Assume(cnd) {
				one(s, n, src)
			}
			if t.Assume(cnd.Not()) {
				one(t, dst.Len, src)
			}
		}
		return outs
	case "delete":
		p, ok := c.Args[0].(PtrV)
		if ok && p.Cell != "" {
			mc := e.mapAt(s, p.Cell)
			s.Heap[p.Cell] = mc.set(s, c.Args[1], nil)
			e.access(s, p.Cell, true, c.Instr)
		}
		return []Out{{St: s}}
	case "close":
		if m, ok := e.Intr["builtin:close"]; ok {
			return m(c)
		}
		return []Out{{St: s}}
	case "print", "println":
		return []Out{{St: s}}
	case "recover":
		return []Out{{St: s, Res: []Val{NilV{}}}}
	case "ssa:wrapnilchk":
		return []Out{{St: s, Res: []Val{c.Args[0]}}}
	case "min", "max":
		var outs []Out
		a, b := e.lin(c.Args[0]), e.lin(c.Args[1])
		if len(c.Args) != 2 {
			panic(Undecided{name})
		}
		cnd := LE(a, b)
		t := s.Clone()
		if s.Assume(cnd) {
			v := a
			if name == "max" {
				v = b
			}
			outs = append(outs, Out{St: s, Res: []Val{IntV{v}}})
		}
		if t.Assume(cnd.Not()) {
			v := b
			if name == "max" {
				v = a
			}
			outs = append(outs, Out{St: t, Res: []Val{IntV{v}}})
		}
		return outs
	case "clear":
		if p, ok := c.Args[0].(PtrV); ok && p.Cell != "" {
			s.Heap[p.Cell] = MapC{}
			e.access(s, p.Cell, true, c.Instr)
		}
		return []Out{{St: s}}
	}
	panic(Undecided{"builtin " + name})
}

func (e *Engine) appendOp(c *Call) []Out {
	s := c.St
	base, ok := c.Args[0].(SliceV)
	if !ok {
		panic(Undecided{"append to unknown slice"})
	}
	var src []Seg
	var n Lin
	switch v := c.Args[1].(type) {
	case SliceV:
		src, n = e.ReadSlice(s, v), v.Len
	case StrV:
		src, n = v.S, segsLen(v.S)
	case NilV:
		n = Lin{}
	default:
		panic(Undecided{"append source"})
	}
	et := c.Com.Args[0].Type().Underlying().(*types.Slice).Elem()
	return e.appendSegs(c, base, src, n, et)
}

func (e *Engine) appendSegs(c *Call, b Val, src []Seg, n Lin, et types.Type) []Out {
	s := c.St
	base, ok := b.(SliceV)
	if !ok {
		panic(Undecided{"append to unknown slice"})
	}
	if n.IsC() && n.C == 0 {
		return []Out{{St: s, Res: []Val{base}}}
	}
	var outs []Out
	inPlace := func(t *State) {
		e.access(t, base.Arr, true, c.Instr)
		at := base.Off.Add(base.Len)
		t.Heap[base.Arr] = e.arrAt(t, base.Arr, et).write(t, at, at.Add(n), src)
		outs = append(outs, Out{St: t, Res: []Val{SliceV{base.Arr, base.Off, base.Len.Add(n), base.Cap}}})
	}
	realloc := func(t *State) {
		var ss []Seg
		if base.Arr != "" {
			ss = append(ss, e.ReadSlice(t, base)...)
		}
		ss = normSegs(t, append(ss, src...))
		nn := "new:" + t.Fresh(c.Site+".app")
		l := base.Len.Add(n)
		cp := At("len(cap(" + nn + "))")
		t.addLin(cp.Sub(l))
		a := ArrV{Len: cp, Elem: et}
		a = a.write(t, Lin{}, l, ss)
		t.Heap[nn] = a
		outs = append(outs, Out{St: t, Res: []Val{SliceV{nn, Lin{}, l, cp}}})
	}
	if base.Arr == "" {
		// append(nil, x...) stays nil when x is empty
		switch s.Decide(GE(n.AddC(-1))) {
		case 1:
			realloc(s)
		default:
			t := s.Clone()
			if t.Assume(EQ(n, Lin{})) {
				outs = append(outs, Out{St: t, Res: []Val{base}})
			}
			if s.Assume(GE(n.AddC(-1))) {
				realloc(s)
			}
		}
		return outs
	}
	fits := LE(base.Len.Add(n), base.Cap)
	switch s.Decide(fits) {
	case 1:
		inPlace(s)
	case 0:
		realloc(s)
	default:
		t := s.Clone()
		if s.Assume(fits) {
			inPlace(s)
		}
		if t.Assume(fits.Not()) {
			realloc(t)
		}
	}
	return outs
}

func sortedEnv(f *Frame) []ssa.Value {
	var r []ssa.Value
	for k := range f.Env {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool {
		a, b := r[i], r[j]
		if a.Name() != b.Name() {
			return a.Name() < b.Name()
		}
		return a.String() < b.String()
	})
	return r
}

// Join adds the statistics of another engine.
func (e *Engine) Join(o *Engine) {
	for _, m := range []struct{ a, b map[string]bool }{{e.Funcs, o.Funcs}, {e.Blocks, o.Blocks}, {e.Calls, o.Calls}, {e.Notes, o.Notes}, {e.UnknownCalls, o.UnknownCalls}} {
		for k := range m.b {
			m.a[k] = true
		}
	}
	e.NStates += o.NStates
	e.NForks += o.NForks
}

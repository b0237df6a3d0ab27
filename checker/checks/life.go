package checks

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	. "gevcheck/absint"
	"gevcheck/model"

	"golang.org/x/tools/go/ssa"
)

func cst(n int64) Val { return IntV{L: C(n)} }

// life analyses the life of a server and of one of its connections.
type life struct {
	w    *model.World
	p    *Program
	idle bool

	thread         string
	pre            *State
	root           string
	accs           map[string]map[string]acc
	tasks          map[string]*task
	order          []string
	bases          map[string][]*State
	work           []*State
	NBases, NRoots int

	ended   []ended // ends of the current root
	workers []*life
}

// ended is the state at the end of a root.
type ended struct {
	st    *State
	queue []Val
	root  string
}

// acc is one kind of access to a memory cell.
type acc struct {
	thread        string
	write, atomic bool
	locks, where  string
}

// task is a closure queued to the loop together with the memory it came with.
type task struct {
	kind  string
	fn    Val
	cells map[string]Val
	lin   []Lin
	ne    []Lin
	bools map[string]bool
	g     map[string]Val
}

// bareLife makes the analysis without any state.
func bareLife(p *Program, w *model.World, idle bool) *life {
	l := &life{w: w, p: p, idle: idle, thread: "main"}
	w.User = l.user
	w.E.Debug = os.Getenv("GEVDEBUG") != ""
	in := w.E.Intr
	in["func:"+model.Gev+".Option"] = l.option
	in["(*"+model.Poll+".Poller).Poll"] = func(c *Call) []Out {
		c.St.G["handler"] = c.Args[1]
		return []Out{{St: c.St}}
	}
	in["(*"+model.Loop+".EventLoop).QueueInLoop"] = func(c *Call) []Out {
		model.GPush(c.St, "queue", TupV{V: []Val{c.Args[0], c.Args[1]}})
		c.St.Note("%s: task queued", w.E.Pos(c.Instr))
		return []Out{{St: c.St}}
	}
	w.E.OnPanic = func(st *State, in ssa.Instruction, why string) {
		w.Fail(st, "C32", "panic", w.Where(in), "%s", why)
	}
	w.E.OnGo = func(st *State, c *Call) {
		if len(c.Args) == 0 {
			model.GPush(st, "spawned", c.Fn)
		}
	}
	l.accs, l.tasks, l.bases = map[string]map[string]acc{}, map[string]*task{}, map[string][]*State{}
	w.E.OnAccess = func(st *State, cell string, write bool, in ssa.Instruction) { l.access(st, cell, write, false, in) }
	w.AtomicHook = func(st *State, cell, op string, c *Call) { l.access(st, cell, op != "load", true, c.Instr) }
	w.FdHook = func(c *Call, what string) {
		w.Check(c.St, l.thread != "any" && l.thread != "timer", "C06,C07", "descriptor-confined", w.Where(c.Instr), "%s on the connection's descriptor outside its event loop: the descriptor may have been closed and reused", what)
	}
	w.E.Pinned["<option>"] = true
	return l
}

// newLife runs the constructor for an unknown handler and unknown options.
func newLife(p *Program, idle bool) (*life, []*State) {
	w, st := newWorld(p, model.Gev, model.Loop, model.Poll)
	l := bareLife(p, w, idle)
	if os.Getenv("GEVBASE") != "" {
		baseDebug = true
	}
	st.Bool["nil(<handler>)"] = false
	ot := w.Type(model.Gev, "Option")
	opt := OpqV{N: "<option>", T: ot}
	st.Bool["nil(<option>)"] = false
	a := ArrV{Len: C(1), Elem: ot}
	st.Heap["new:<options>"] = a.Write(st, Lin{}, C(1), []Seg{{V: opt, Hi: C(1)}})
	return l, call(w, st, w.Fn(model.Gev, "NewServer"), OpqV{N: "<handler>", T: w.Type(model.Gev, "Handler")}, SliceV{Arr: "new:<options>", Len: C(1), Cap: C(1)})
}

// option fills in the exported options.
func (l *life) option(c *Call) []Out {
	st := c.St
	p := c.Args[0].(PtrV)
	t := l.w.Type(model.Gev, "Options")
	set := func(f string, v Val) {
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == f {
				l.w.E.Store(st, PtrV{Cell: p.Cell + "/" + f}, v, s.Field(i).Type(), c.Instr)
			}
		}
	}
	set("Network", ConstStr("tcp"))
	set("Address", StrV{S: []Seg{{Tok: "<address>", Hi: At("len(<address>)")}}})
	st.Assume(GE(At("len(<address>)").AddC(-1)))
	set("NumLoops", cst(2))
	st.Bool["nil(<protocol>)"] = false
	set("Protocol", OpqV{N: "<protocol>", T: l.w.Type(model.Gev, "Protocol")})
	st.Bool["nil(<strategy>)"] = false
	set("Strategy", OpqV{N: "<strategy>", T: l.w.Type(model.Gev, "LoadBalanceStrategy")})
	if l.idle {
		set("IdleTime", IntV{L: At("pos(<idle>)")})
	}
	set("ReusePort", BoolV{C: Atom("t(<reuseport>)")})
	return []Out{{St: st}}
}

func dbgState(st *State) string {
	var b strings.Builder
	k := st.StoreKey()
	for _, ln := range strings.Split(k, "\n") {
		if !strings.HasPrefix(ln, "glob:") {
			if len(ln) > 300 {
				ln = ln[:300] + "…"
			}
			fmt.Fprintln(&b, ln)
		}
	}
	return b.String()
}

var _ = ssa.Function{}

var baseDebug bool

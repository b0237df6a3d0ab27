package absint

import (
	"fmt"
	"go/token"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Several goroutines in one state: their frames lie in one stack, each
// goroutine's in one piece that begins with a frame that has a Thread name. The
// goroutine on top is running; the others stand before a synchronising
// operation. Before every such operation any goroutine may go on.

// Sync tells whether a synchronising operation can be executed now.
type Sync func(c *Call) bool

const going = "~go"

// Spawn adds a goroutine that stands before its first instruction.
func (e *Engine) Spawn(s *State, name string, fn Val, args []Val) {
	fv := fn.(FuncV)
	n := len(s.Frames)
	e.Push(s, fv.Fn, fv.Bind, args, e.threadEnd)
	s.top().Thread = name
	if n > 0 {
		f := s.top()
		s.Frames = append([]*Frame{f}, s.Frames[:n]...)
	}
}

// Threads lists the goroutines; the last one is running.
func (s *State) Threads() []string {
	var r []string
	for _, f := range s.Frames {
		if f.Thread != "" {
			r = append(r, f.Thread)
		}
	}
	return r
}

// Thread is the running goroutine.
func (s *State) Thread() string {
	for i := len(s.Frames) - 1; i >= 0; i-- {
		if s.Frames[i].Thread != "" {
			return s.Frames[i].Thread
		}
	}
	return ""
}

// raise makes goroutine name the running one.
func (s *State) raise(name string) {
	parts := map[string][]*Frame{}
	var names []string
	cur := ""
	for _, f := range s.Frames {
		if f.Thread != "" {
			cur = f.Thread
			names = append(names, cur)
		}
		parts[cur] = append(parts[cur], f)
	}
	sort.Strings(names)
	var fs []*Frame
	for _, n := range names {
		if n != name {
			fs = append(fs, parts[n]...)
		}
	}
	s.Frames = append(fs, parts[name]...)
}

func (e *Engine) threadEnd(_ *Engine, s *State, res []Val) []*State {
	if e.OnThreadEnd != nil {
		e.OnThreadEnd(s, res)
	}
	if len(s.Frames) == 0 {
		return []*State{s}
	}
	return e.schedule(s)
}

// Schedule gives the states in which one of the goroutines goes on.
func (e *Engine) Schedule(s *State) []*State { return e.schedule(s) }

func (e *Engine) schedule(s *State) []*State {
	s.GC(e)
	var out []*State
	states := []*State{s}
	if e.Env != nil {
		states = append(states, e.Env(s)...)
	}
	for _, v := range states {
		names := v.Threads()
		sort.Strings(names)
		n := 0
		for _, name := range names {
			t := v.Clone()
			t.raise(name)
			if !e.enabled(t) {
				continue
			}
			n++
			t.G[going] = IntV{C(1)}
			if e.covered(t) {
				continue
			}
			if os.Getenv("GEVT") != "" {
				fmt.Println("TSTATE", t.Key())
			}
			out = append(out, t)
		}
		if n == 0 && e.OnDeadlock != nil {
			e.OnDeadlock(v)
		}
	}
	return out
}

// enabled tells whether the running goroutine can do its next operation.
func (e *Engine) enabled(s *State) bool {
	f := s.top()
	switch in := f.Blk.Instrs[f.PC].(type) {
	case *ssa.Call:
		fn, ok := in.Call.Value.(*ssa.Function)
		if !ok {
			return true
		}
		en := e.Sync[FuncName(fn)]
		if en == nil {
			return true
		}
		v, args := e.callee(s, in.Common())
		return en(&Call{E: e, St: s, Instr: in, Com: in.Common(), Args: args, Site: e.site(in), Sig: in.Call.Signature(), Fn: v, Name: FuncName(fn)})
	case *ssa.UnOp:
		if in.Op == token.ARROW && e.RecvReady != nil {
			return e.RecvReady(s, e.eval(s, in.X))
		}
	}
	return true
}

// yield is called before a synchronising operation. When it is not yet the
// turn of this goroutine, the states in which another goroutine or this one
// goes on are given.
func (e *Engine) yield(s *State, name string) ([]*State, bool) {
	if e.Sync == nil || len(s.Threads()) == 0 {
		return nil, false
	}
	if _, ok := e.Sync[name]; !ok {
		return nil, false
	}
	if _, ok := s.G[going]; ok {
		delete(s.G, going)
		return nil, false
	}
	return e.schedule(s), true
}

// Runnable tells whether a goroutine can do its next operation.
func (e *Engine) Runnable(s *State, name string) bool {
	t := s.Clone()
	t.raise(name)
	return e.enabled(t)
}

// BitCond is the condition that a bit is one.
func (e *Engine) BitCond(b Bit) Cond {
	switch {
	case b.One:
		return BoolC(true)
	case len(b.Or) == 0:
		return BoolC(false)
	case len(b.Or) == 1:
		return Atom(b.Or[0])
	}
	return Atom("or(" + strings.Join(b.Or, "|") + ")")
}

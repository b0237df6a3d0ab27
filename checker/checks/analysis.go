package checks

import (
	"fmt"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	. "gevcheck/absint"
	"gevcheck/model"
)

// Result is what one analysis found.
type Result struct {
	Findings  []model.Finding
	Undecided []string
	Checked   map[string]int
	Counts    map[string]int
	Funcs     []string
	Unknown   []string
}

func newResult() *Result {
	return &Result{Checked: map[string]int{}, Counts: map[string]int{}}
}

func (r *Result) join(o *Result) {
	have := map[string]bool{}
	for _, f := range r.Findings {
		have[f.Key()] = true
	}
	for _, f := range o.Findings {
		if !have[f.Key()] {
			r.Findings = append(r.Findings, f)
		}
	}
	r.Undecided = append(r.Undecided, o.Undecided...)
	for k, n := range o.Checked {
		r.Checked[k] += n
	}
	for k, n := range o.Counts {
		r.Counts[k] += n
	}
	r.Funcs = union(r.Funcs, o.Funcs)
	r.Unknown = union(r.Unknown, o.Unknown)
}

func union(a, b []string) []string {
	m := map[string]bool{}
	for _, x := range a {
		m[x] = true
	}
	for _, x := range b {
		m[x] = true
	}
	var r []string
	for x := range m {
		r = append(r, x)
	}
	sort.Strings(r)
	return r
}

// addWorld takes over what a world recorded.
func (r *Result) addWorld(w *model.World) {
	o := newResult()
	o.Findings = w.Sorted()
	o.Checked = w.Checked
	o.Counts["abstract states"] = w.E.NStates
	o.Counts["call sites"] = len(w.E.Calls)
	o.Counts["basic blocks"] = len(w.E.Blocks)
	for f := range w.E.Funcs {
		o.Funcs = append(o.Funcs, f)
	}
	for f := range w.E.UnknownCalls {
		if !strings.HasSuffix(f, ".init") {
			o.Unknown = append(o.Unknown, f)
		}
	}
	r.join(o)
}

// guarded runs f and records when it could not decide.
func (r *Result) guarded(what string, f func()) {
	defer func() {
		if x := recover(); x != nil {
			if u, ok := x.(Undecided); ok {
				r.Undecided = append(r.Undecided, what+": "+u.Msg)
				return
			}
			r.Undecided = append(r.Undecided, fmt.Sprintf("%s: internal error: %v at %s", what, x, frames(string(debug.Stack()))))
		}
	}()
	f()
}

func frames(s string) string {
	var r []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "gevcheck/") && !strings.HasPrefix(l, "\t") {
			if i := strings.Index(l, "gevcheck/"); i >= 0 {
				l = l[i:]
			}
			if j := strings.IndexByte(l, '('); j > 0 {
				r = append(r, l[:j])
			}
		}
		if len(r) > 5 {
			break
		}
	}
	return strings.Join(r, " < ")
}

// parallel runs analyses side by side.
func parallel(fs ...func() *Result) *Result {
	rs := make([]*Result, len(fs))
	var wg sync.WaitGroup
	for i, f := range fs {
		i, f := i, f
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := newResult()
			r.guarded("analysis", func() { rs[i] = f() })
			if rs[i] == nil {
				rs[i] = r
			}
		}()
	}
	wg.Wait()
	out := newResult()
	for _, r := range rs {
		out.join(r)
	}
	return out
}

// Analyses are the analyses by name.
var Analyses = map[string]func(p *Program) *Result{
	"life": func(p *Program) *Result {
		one := func(idle bool) func() *Result {
			return func() *Result {
				r := newResult()
				var l *life
				r.guarded("connection lifecycle", func() {
					var out []*State
					l, out = newLife(p, idle)
					l.run(out)
				})
				if l != nil {
					r.addWorld(l.w)
					r.Counts["base states"] += l.NBases
					r.Counts["roots"] += l.NRoots
				}
				return r
			}
		}
		return parallel(one(false), one(true))
	},
	"tasks":      looped("tasks of an event loop", (*loops).two, (*loops).own, (*loops).long),
	"long":       looped("l", (*loops).long),
	"events":     looped("events of an event loop", (*loops).many),
	"stop":       looped("stopping an event loop", (*loops).stopTasks, (*loops).stopTwice, (*loops).stopTwo, (*loops).stopEvents),
	"server":     served(1, 2),
	"options":    flowed("options", (*flow).c19),
	"strategies": flowed("strategies", (*flow).c17),
	"schedule":   flowed("timers", (*flow).c23),
	"address":    flowed("peer addresses", (*flow).c37),
	"wsheader":   codedIn(8, "websocket headers", (*codec).c24, (*codec).c25),
	"wsframe":    codedIn(8, "websocket frames", (*codec).c26),
	"handshake": coded("websocket handshakes",
		func(k *codec, st *State) { (&handshake{codec: k}).correct(st) },
		func(k *codec, st *State) { (&handshake{codec: k}).wrong(st) },
		func(k *codec, st *State) { (&handshake{codec: k}).wrongOrders(st) },
		func(k *codec, st *State) { (&handshake{codec: k}).partial(st) }),
	"wsdispatch": coded("websocket messages", (*codec).c28, (*codec).c29),
	"protobuf":   coded("protobuf frames", (*codec).c31),
	"masking":    masked,
	"default":    coded("the default protocol", (*codec).c34),
	"store":      flowed("key-value store", (*flow).c11),
}

func flowed(what string, f func(*flow, *State)) func(p *Program) *Result {
	return func(p *Program) *Result {
		r := newResult()
		var fl *flow
		r.guarded(what, func() {
			var st *State
			fl, st = newFlow(p)
			f(fl, st)
		})
		if fl != nil {
			r.addWorld(fl.w)
		}
		return r
	}
}

func looped(what string, fs ...func(*loops, *State)) func(p *Program) *Result {
	return func(p *Program) *Result {
		var jobs []func() *Result
		for _, f := range fs {
			f := f
			jobs = append(jobs, func() *Result {
				r := newResult()
				var l *loops
				r.guarded(what, func() {
					var st *State
					l, st = newLoops(p)
					f(l, st)
				})
				if l != nil {
					r.addWorld(l.w)
				}
				return r
			})
		}
		return parallel(jobs...)
	}
}

// served analyses servers with these numbers of loops.
func served(loops ...int64) func(p *Program) *Result {
	return func(p *Program) *Result {
		var jobs []func() *Result
		for _, n := range loops {
			n := n
			jobs = append(jobs, func() *Result {
				r := newResult()
				var s *server
				r.guarded("starting and stopping a server", func() {
					var st *State
					s, st = newServer(p, n)
					s.closing(st)
					s.run(st)
				})
				if s != nil {
					r.addWorld(s.w)
				}
				return r
			})
		}
		return parallel(jobs...)
	}
}

func coded(what string, fs ...func(*codec, *State)) func(p *Program) *Result {
	return codedIn(1, what, fs...)
}

// codedIn divides the cases among parallel runs.
func codedIn(parts int, what string, fs ...func(*codec, *State)) func(p *Program) *Result {
	return func(p *Program) *Result {
		var jobs []func() *Result
		for _, f := range fs {
			for i := 0; i < parts; i++ {
				f, i := f, i
				jobs = append(jobs, func() *Result {
					r := newResult()
					var k *codec
					r.guarded(what, func() {
						var st *State
						k, st = newCodec(p)
						k.part, k.parts = i, parts
						f(k, st)
					})
					if k != nil {
						r.addWorld(k.w)
					}
					return r
				})
			}
		}
		return parallel(jobs...)
	}
}

// Package checks drives the abstract interpreter over the module, one analysis
// per group of properties.
package checks

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	. "gevcheck/absint"
	"gevcheck/model"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded module.
type Program struct {
	SSA    *ssa.Program
	Pkgs   []*ssa.Package
	Syntax []*packages.Package
}

// Load reads the module's sources for an operating system.
func Load(dir, goos string, patterns ...string) (*Program, error) {
	env := os.Environ()
	if goos != "" {
		env = append(env, "GOOS="+goos, "CGO_ENABLED=0")
	}
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: dir, Env: env}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range ps {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "; "))
	}
	if len(ps) == 0 {
		return nil, fmt.Errorf("no packages")
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].PkgPath < ps[j].PkgPath })
	prog, pk := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	return &Program{prog, pk, ps}, nil
}

// bareWorld makes an engine with all models.
func bareWorld(p *Program) *model.World {
	return model.New(NewEngine(p.SSA, p.Pkgs, model.Gev))
}

// newWorld makes an engine with all models and runs the package initialisers.
func newWorld(p *Program, only ...string) (*model.World, *State) {
	w := bareWorld(p)
	e := w.E
	st := NewState()
	in := map[string]bool{}
	for _, o := range only {
		in[o] = true
	}
	for _, pk := range p.Pkgs {
		if pk == nil || len(in) > 0 && !in[pk.Pkg.Path()] {
			continue
		}
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok {
				cell := "glob:" + g.String() + "|"
				t := g.Type().(*types.Pointer).Elem()
				e.Store(st, PtrV{Cell: cell}, e.Zero(t), t, nil)
			}
		}
	}
	q := w.Quiet
	st.Gens = 64
	w.Quiet = true
	for _, pk := range p.Pkgs {
		if pk == nil || len(in) > 0 && !in[pk.Pkg.Path()] {
			continue
		}
		if f := pk.Func("init"); f != nil && len(f.Blocks) > 0 {
			e.Push(st, f, nil, nil, nil)
			out := e.Run(st)
			if len(out) == 0 {
				panic(Undecided{Msg: "package initialisation of " + pk.Pkg.Path() + " does not end"})
			}
			st = out[0]
		}
	}
	w.Quiet, st.Gens = q, 0
	st.Trail = nil
	st.Res = nil
	return w, st
}

// call runs one function in a copy of st and gives the states at its end.
func call(w *model.World, st *State, fn *ssa.Function, args ...Val) []*State {
	s := st.Clone()
	s.Res = nil
	w.E.Push(s, fn, nil, args, nil)
	return w.E.Run(s)
}

// callVal runs a function value.
func callVal(w *model.World, st *State, f Val, args ...Val) []*State {
	fv, ok := f.(FuncV)
	if !ok {
		panic(Undecided{Msg: fmt.Sprintf("call of %s: not a known function", Key(f))})
	}
	s := st.Clone()
	s.Res = nil
	w.E.Push(s, fv.Fn, fv.Bind, args, nil)
	return w.E.Run(s)
}

package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verif/checker/eng"
)

const homePath = "github.com/philippseith/signalr"

// World is one loaded module in SSA form.
type World struct {
	upstream  map[*ssa.Function]bool
	dynCalled map[*ssa.Function]bool
	users     map[*ssa.Function][]*ssa.Function
	callers   map[*ssa.Function][]*ssa.Function
	limits    map[*types.Var]bool
	getters   map[string]bool
	Dir       string
	Prog      *ssa.Program
	Pkg       *ssa.Package
	Types     *types.Package
	Syn       *packages.Package
	Fns       map[*ssa.Function]bool // functions with bodies belonging to the package
	Sort      []*ssa.Function
	ext       *World
	repo      string
	locks     *lockFacts
	static    map[*ssa.Function]bool
}

func load(dir string) (*World, error) {
	var env []string
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "GOFLAGS=") || strings.HasPrefix(kv, "GOWORK=") || strings.HasPrefix(kv, "GOPROXY=") {
			continue
		}
		env = append(env, kv)
	}
	env = append(env, "GOFLAGS=-mod=readonly", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local")
	pkgs, err := packages.Load(&packages.Config{Dir: dir, Env: env,
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo |
			packages.NeedImports | packages.NeedTypesSizes | packages.NeedCompiledGoFiles}, ".")
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("expected one package in %s, got %d", dir, len(pkgs))
	}
	if len(pkgs[0].Errors) > 0 {
		return nil, fmt.Errorf("%s does not type-check: %v", dir, pkgs[0].Errors[0])
	}
	prog, ps := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	if ps[0] == nil {
		return nil, fmt.Errorf("no SSA for %s", dir)
	}
	prog.Build()
	w := &World{Dir: dir, Prog: prog, Pkg: ps[0], Types: pkgs[0].Types, Syn: pkgs[0], Fns: map[*ssa.Function]bool{}}
	for f := range ssautil.AllFunctions(prog) {
		if f.Blocks != nil && w.Home(f) {
			w.Fns[f] = true
		}
	}
	// methods not reachable through AllFunctions' heuristics and package members
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || f.Blocks == nil || w.Fns[f] || !w.Home(f) {
			return
		}
		w.Fns[f] = true
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, m := range ps[0].Members {
		switch x := m.(type) {
		case *ssa.Function:
			add(x)
		case *ssa.Type:
			for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				ms := prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					add(prog.MethodValue(ms.At(i)))
				}
			}
		}
	}
	for f := range w.Fns {
		w.Sort = append(w.Sort, f)
	}
	sort.Slice(w.Sort, func(i, j int) bool {
		a, b := prog.Fset.Position(w.Sort[i].Pos()), prog.Fset.Position(w.Sort[j].Pos())
		if a.Filename != b.Filename {
			return a.Filename < b.Filename
		}
		if a.Offset != b.Offset {
			return a.Offset < b.Offset
		}
		return w.Sort[i].String() < w.Sort[j].String()
	})
	return w, nil
}

// Home reports whether f belongs to the analysed package (source functions only).
func (w *World) Home(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	g := f
	for g.Parent() != nil {
		g = g.Parent()
	}
	if g.Pkg != nil {
		return g.Pkg == w.Pkg && g.Synthetic == ""
	}
	if o := g.Object(); o != nil && o.Pkg() == w.Types {
		return true
	}
	return false
}

// Ext loads the ext module on demand.
func (w *World) Ext() (*World, error) {
	if w.ext != nil {
		return w.ext, nil
	}
	x, err := load(filepath.Join(w.repo, "ext"))
	if err != nil {
		return nil, err
	}
	w.ext = x
	return x, nil
}

// Type looks up a named type of the package.
func (w *World) Type(name string) types.Type {
	o := w.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// Func looks up "Name" or "(Type).Method".
func (w *World) Func(name string) *ssa.Function {
	for f := range w.Fns {
		if f.Parent() == nil && eng.SSAName(f) == name {
			return f
		}
	}
	return nil
}

// FieldIndex finds a field by name in a struct type, -1 if absent.
func fieldIndex(t types.Type, name string) int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func (w *World) engine(c eng.Client) *eng.Engine {
	e := eng.New(w.Prog, w.Home, w.Fns)
	e.Client = c
	e.Debug = os.Getenv("SIGDEBUG") != ""
	e.DumpAt = os.Getenv("SIGDUMP")
	return e
}

package main

import (
	"fmt"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

func init() { register("C09", checkC09) }

// userCode: calls of code the user of the package supplies and a peer or the end of a connection triggers.
var userCode = map[string]string{
	"(reflect.Value).Call":          "a method the peer called",
	"(reflect.Value).CallSlice":     "a method the peer called",
	"(HubInterface).OnConnected":    "the connected callback of the hub",
	"(HubInterface).OnDisconnected": "the disconnected callback of the hub",
}

// reachingDyn is like reaching, with the calls of this package's interfaces resolved to their
// implementations in the package.
func (w *World) reachingDyn(direct func(i ssa.Instruction) bool) (in map[*ssa.Function]bool, tops []*ssa.Function) {
	uses := map[*ssa.Function]map[*ssa.Function]bool{}
	add := func(g, user *ssa.Function) {
		if uses[g] == nil {
			uses[g] = map[*ssa.Function]bool{}
		}
		uses[g][user] = true
	}
	in = map[*ssa.Function]bool{}
	var work []*ssa.Function
	for _, f := range w.Sort {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if !in[f] && direct(i) {
					in[f] = true
					work = append(work, f)
				}
				for _, op := range i.Operands(nil) {
					switch v := (*op).(type) {
					case *ssa.Function:
						add(v, f)
					case *ssa.MakeClosure:
						if g, ok := v.Fn.(*ssa.Function); ok {
							add(g, f)
						}
					}
				}
				if c, ok := i.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					for _, m := range w.implMethods(&eng.CallInfo{Instr: i}) {
						for d := 0; m != nil && d < 4; d++ {
							add(m, f)
							if m.Synthetic == "" {
								break
							}
							cs := callsIn(m)
							m = nil
							if len(cs) == 1 {
								m = cs[0].Common().StaticCallee()
							}
						}
					}
				}
			}
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for u := range uses[f] {
			if !in[u] {
				in[u] = true
				work = append(work, u)
			}
		}
	}
	for _, f := range w.Sort {
		if !in[f] {
			continue
		}
		top := true
		for u := range uses[f] {
			if u != f {
				top = false
			}
		}
		if top {
			tops = append(tops, f)
		}
	}
	return in, tops
}

func checkC09(w *World, r *Report) {
	r.rule("every panic of a hub or receiver method called by reflection, or of OnConnected or OnDisconnected of a hub, is recovered on the goroutine it happens on, on every path from the exported entry points and goroutines that lead there")
	r.rule("a user supplied logger is only reached through a Log method that recovers its panics")
	kinds := w.checkRecovered(r, userCode, nil)
	for _, n := range []string{"(HubInterface).OnConnected", "(HubInterface).OnDisconnected"} {
		r.need(kinds[n], "C09", "the call of "+n)
	}
	r.need(kinds["(reflect.Value).Call"] || kinds["(reflect.Value).CallSlice"], "C09", "the reflective call of hub methods")
	w.checkLoggers(r)
}

// checkRecovered: a panic of one of the calls never ends the process.
func (w *World) checkRecovered(r *Report, sites map[string]string, extra func(c *eng.CallInfo) bool) map[string]bool {
	isUser := func(i ssa.Instruction) bool {
		c, ok := i.(ssa.CallInstruction)
		return ok && sites[calleeName(c.Common())] != ""
	}
	in, tops := w.reachingDyn(isUser)
	kinds := map[string]bool{}
	for _, top := range tops {
		if top.Synthetic != "" {
			continue
		}
		top := top
		cl := &client{}
		cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
			if what := sites[c.Name]; what != "" {
				kinds[c.Name] = true
				r.inst("user-code-call", 1)
				r.sample("%s is called in %s", what, eng.FnName(c.In))
				name, pos := c.Name, c.Instr
				return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{}, {Panic: true, Do: func(st *eng.State, _ []*eng.Term) {
					st.Set("psite", st.E.Str(what+" ("+name+")"))
					_ = pos
				}}}}
			}
			if c.Builtin != "" {
				return eng.Decision{}
			}
			if c.Invoke {
				var ms []*ssa.Function
				hit := false
				for _, m := range w.implMethods(c) {
					ms = append(ms, m)
					g := m
					for d := 0; g != nil && d < 4; d++ {
						if in[g] {
							hit = true
						}
						if g.Synthetic == "" {
							break
						}
						cs := callsIn(g)
						if len(cs) != 1 {
							break
						}
						g = cs[0].Common().StaticCallee()
					}
				}
				if hit {
					return eng.Decision{Mode: eng.Inline, Impls: ms}
				}
				return opaque
			}
			if c.Fn != nil && w.Home(c.Fn) {
				if in[c.Fn] || hasRecover(c.Fn) {
					return eng.Decision{}
				}
				for _, b := range c.Bind {
					if b != nil && (b.Kind == eng.KClosure || b.Kind == eng.KFunc) {
						return eng.Decision{}
					}
				}
				for _, a := range c.Args {
					if a != nil && (a.Kind == eng.KClosure || a.Kind == eng.KFunc) && a.Fn != nil && in[a.Fn] {
						return eng.Decision{}
					}
				}
				return opaque
			}
			if c.Fn == nil {
				return eng.Decision{}
			}
			return opaque
		}
		cl.event = func(st *eng.State, ev *eng.Event) {
			if ev.Kind == eng.EvCrash {
				what := "user code"
				if t := st.Get("psite"); t != nil {
					what, _ = eng.StrConst(t)
				}
				pos := top.Pos()
				if ev.Instr != nil {
					pos = ev.Instr.Pos()
				}
				st.Report("unrecovered-panic", eng.FnName(top)+": "+what, pos, "a panic of %s is not recovered on its goroutine and ends the process", what)
			}
		}
		e := w.engine(cl)
		e.Run(top, nil, nil)
		if os.Getenv("SIGB") != "" {
			fmt.Fprintln(os.Stderr, "recovered", eng.FnName(top), e.States)
		}
		r.absorb(e)
	}
	return kinds
}

func hasRecover(f *ssa.Function) bool {
	for _, c := range callsIn(f) {
		if calleeName(c.Common()) == "builtin.recover" {
			return true
		}
	}
	return false
}

func isLogCall(n string) bool {
	return n == "(StructuredLogger).Log" || n == "(log.Logger).Log" || n == "(github.com/go-kit/log.Logger).Log" || hasSuffixAny(n, "Logger).Log")
}

// checkLoggers: the option that sets the logger protects it.
func (w *World) checkLoggers(r *Report) {
	fn := w.Func("Logger")
	if !r.need(fn != nil && len(fn.Params) > 0, "C09", "the option Logger") {
		return
	}
	safe := map[types.Type]bool{}
	isSafe := func(ty types.Type) bool {
		if v, ok := safe[ty]; ok {
			return v
		}
		pt := ty
		if _, ok := pt.(*types.Pointer); !ok {
			pt = types.NewPointer(pt)
		}
		m := w.Prog.LookupMethod(pt, w.Types, "Log")
		safe[ty] = false
		if m == nil || len(m.Blocks) == 0 || !w.Home(m) {
			return false
		}
		ok, calls := true, 0
		cl := &client{}
		cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
			if isLogCall(c.Name) {
				calls++
				return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{}, {Panic: true}}}
			}
			return eng.Decision{}
		}
		cl.event = func(st *eng.State, ev *eng.Event) {
			if ev.Kind == eng.EvCrash {
				ok = false
			}
		}
		e := w.engine(cl)
		e.Run(m, nil, nil)
		r.absorb(e)
		safe[ty] = ok && calls > 0
		return safe[ty]
	}
	stored := 0
	cl := &client{}
	cl.event = func(st *eng.State, ev *eng.Event) {
		if ev.Kind != eng.EvStore || ev.Addr.Kind != eng.KFieldA {
			return
		}
		fv := eng.FieldVar(ev.Addr)
		if fv == nil || !isLogger(fv.Type()) {
			return
		}
		if b := ev.Addr.Args[0]; b.Kind == eng.KObj && b.Ty != nil && w.homeLogger(b.Ty) {
			return // a wrapper being built
		}
		stored++
		param := st.E.Param(fn.Params[0].Name(), fn.Params[0].Type())
		var bad func(t *eng.Term, d int) bool
		bad = func(t *eng.Term, d int) bool {
			if t == nil || d > 12 {
				return false
			}
			t = eng.StripConv(eng.StripIface(t))
			if t == param {
				return true
			}
			if t.Kind == eng.KObj {
				if t.Ty != nil && w.homeLogger(t.Ty) && isSafe(t.Ty) {
					return false
				}
				for _, v := range st.PeekDeep(t) {
					if bad(v, d+1) {
						return true
					}
				}
				return false
			}
			for _, a := range t.Args {
				if bad(a, d+1) {
					return true
				}
			}
			return false
		}
		if bad(ev.Val, 0) {
			st.Report("unprotected-logger", "Logger:"+fv.Name(), ev.Instr.Pos(), "the user's logger is stored as %s without recovering its panics", fv.Name())
		}
		r.inst("logger", 1)
		r.sample("%s is %v", fv.Name(), ev.Val)
	}
	e := w.runOption(fn, cl, nil)
	r.absorb(e)
	r.need(stored > 0, "C09", "the stores of the option Logger")
}

func isLogger(t types.Type) bool {
	it, ok := t.Underlying().(*types.Interface)
	return ok && it.NumMethods() == 1 && it.Method(0).Name() == "Log"
}

// homeLogger: a type of this package with a Log method.
func (w *World) homeLogger(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() != w.Types {
		return false
	}
	return w.Prog.LookupMethod(types.NewPointer(n), w.Types, "Log") != nil
}

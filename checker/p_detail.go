package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

func init() { register("C32", checkC32) }

// stackCall: the call yields or fills a stack trace.
func stackCall(n string) bool {
	return n == "runtime/debug.Stack" || n == "runtime.Stack" || n == "runtime.Callers" || n == "runtime.Caller" || n == "runtime/pprof.Lookup"
}

// checkC32: a stack trace goes into something other than a log only where detailed errors are enabled.
func checkC32(w *World, r *Report) {
	r.rule("a value made from a stack trace is only formatted and logged, unless the path has tested that the field set by the option EnableDetailedErrors is true; only then it may be sent, stored, returned or given to other code")
	r.rule("the field set by EnableDetailedErrors is set to anything but false only by that option")
	fv := w.optionField(r, "C32", "EnableDetailedErrors")
	if fv == nil {
		return
	}
	direct := func(i ssa.Instruction) bool {
		c, ok := i.(ssa.CallInstruction)
		return ok && stackCall(calleeName(c.Common()))
	}
	var work []*ssa.Function
	queued := map[*ssa.Function]bool{}
	push := func(f *ssa.Function) {
		f = outer(f)
		if !queued[f] {
			queued[f] = true
			work = append(work, f)
		}
	}
	sites := 0
	for _, f := range w.Sort {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if direct(i) {
					sites++
					r.sample("stack trace taken in %s", eng.FnName(f))
					push(f)
				}
			}
		}
	}
	r.inst("stack-trace", sites)
	r.need(sites > 0, "C32", "where a stack trace is taken")
	in := w.reaching(direct)
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, u := range w.stackRoot(r, f, in, fv) {
			push(u)
		}
	}
	w.onlyOption(r, fv, "EnableDetailedErrors", func(st *eng.State, v *eng.Term) bool {
		b, ok := eng.BoolConst(v)
		return ok && !b
	})
}

// stackRoot explores f; it returns the callers that have to be explored since f returns a stack trace.
func (w *World) stackRoot(r *Report, f *ssa.Function, in map[*ssa.Function]bool, fv *types.Var) []*ssa.Function {
	var up []*ssa.Function
	leak := func(st *eng.State, pos token.Pos, how string) {
		if st.GetInt("detailed") == 1 {
			return
		}
		st.Report("stack-trace", fname(f)+":"+how, pos, "a stack trace is %s although detailed errors may be disabled", how)
	}
	cl := &client{}
	cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		if d, ok := w.getter(c); ok {
			return d
		}
		tainted := w.holdsStack(st, c.Recv)
		for _, a := range c.Args {
			tainted = tainted || w.holdsStack(st, a)
		}
		pure := isLogCall(c.Name) || strings.HasPrefix(c.Name, "fmt.Sprint") || c.Name == "fmt.Errorf" || strings.HasPrefix(c.Name, "errors.") ||
			strings.HasPrefix(c.Name, "strings.") || strings.HasPrefix(c.Name, "bytes.") || strings.HasPrefix(c.Name, "builtin.") || strings.HasPrefix(c.Name, "(strings.") ||
			strings.HasPrefix(c.Name, "(bytes.") || stackCall(c.Name)
		if c.Fn != nil && w.Home(c.Fn) && (tainted || in[c.Fn]) {
			return eng.Decision{}
		}
		if tainted {
			r.inst("stack-trace-use", 1)
			r.sample("a stack trace is given to %s", c.Name)
			if !pure && !formatter(c.Fn) {
				leak(st, c.Pos(), "given to "+c.Name)
			}
			return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Do: func(st *eng.State, rs []*eng.Term) {
				for _, x := range rs {
					st.SetInt(fmt.Sprintf("tt:%d", x.ID), 1)
				}
				if c.Recv != nil && strings.HasPrefix(c.Name, "(") {
					st.SetInt(fmt.Sprintf("tt:%d", c.Recv.ID), 1)
				}
			}}}}
		}
		if c.Fn != nil && w.Home(c.Fn) && c.In.Synthetic == "" {
			return opaque
		}
		return eng.Decision{}
	}
	cl.event = func(st *eng.State, ev *eng.Event) {
		switch ev.Kind {
		case eng.EvBranch:
			c, truth := ev.Cond, ev.Truth
			for c.Op == "not" && len(c.Args) == 1 {
				c, truth = c.Args[0], !truth
			}
			if c.Any(func(x *eng.Term) bool { return x.Kind == eng.KFieldA && eng.FieldVar(x) == fv }) && truth {
				st.SetInt("detailed", 1)
			}
		case eng.EvSend, eng.EvSelect:
			if v := sendOf(ev); v != nil && w.holdsStack(st, v) {
				leak(st, ev.Instr.Pos(), "sent to a channel")
			}
		case eng.EvStore:
			if w.holdsStack(st, ev.Val) && !localAddr(ev.Addr) {
				leak(st, ev.Instr.Pos(), "stored")
			}
		case eng.EvMapUpdate:
			if w.holdsStack(st, ev.Val) {
				leak(st, ev.Instr.Pos(), "stored in a map")
			}
		case eng.EvEnd:
			for _, v := range ev.Vals {
				if w.holdsStack(st, v) && st.GetInt("detailed") == 0 {
					cs, dyn := w.callersOf(f)
					if dyn || len(cs) == 0 {
						leak(st, f.Pos(), "returned")
					} else {
						up = append(up, cs...)
					}
				}
			}
		}
	}
	e := w.engine(cl)
	e.RecoverUnknown = true
	e.Run(f, nil, nil)
	r.absorb(e)
	return up
}

// holdsStack: the value or what it points to is made from a stack trace.
func (w *World) holdsStack(st *eng.State, t *eng.Term) bool {
	if t == nil {
		return false
	}
	tainted := func(t *eng.Term) bool {
		return t != nil && t.Any(func(x *eng.Term) bool {
			return x.Call != nil && stackCall(x.Call.Name) || st.GetInt(fmt.Sprintf("tt:%d", x.ID)) == 1
		})
	}
	if tainted(t) {
		return true
	}
	if t.Ty != nil {
		if _, ok := t.Ty.Underlying().(*types.Slice); ok {
			for _, x := range st.SliceElems(t) {
				if tainted(x) {
					return true
				}
			}
		}
	}
	for _, x := range st.PeekDeep(t) {
		if tainted(x) {
			return true
		}
	}
	return false
}

// localAddr: the address of a variable of the running function.
func localAddr(t *eng.Term) bool {
	for t.Kind == eng.KFieldA || t.Kind == eng.KIndexA {
		t = t.Args[0]
	}
	return t.Kind == eng.KObj
}

// onlyOption: the field is set to a value for which def does not hold only by the named option.
func (w *World) onlyOption(r *Report, fv *types.Var, option string, def func(st *eng.State, v *eng.Term) bool) {
	isStore := func(i ssa.Instruction) bool {
		s, ok := i.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		return ok && fieldVarOfSSA(fa) == fv
	}
	n := 0
	for _, f := range w.Sort {
		has := false
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				has = has || isStore(i)
			}
		}
		if !has || f.Synthetic != "" {
			continue
		}
		n++
		r.inst("option-store", 1)
		// constant defaults
		bad := false
		cl := &client{}
		cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision { return opaque }
		cl.event = func(st *eng.State, ev *eng.Event) {
			if ev.Kind == eng.EvStore && ev.Addr.Kind == eng.KFieldA && eng.FieldVar(ev.Addr) == fv && !def(st, ev.Val) {
				bad = true
			}
		}
		e := w.engine(cl)
		e.Run(f, nil, nil)
		r.absorb(e)
		if bad && !w.onlyFromOption(f, option, map[*ssa.Function]bool{}) {
			r.find("option-default", option+":"+eng.FnName(f), f.Pos(), "%s sets what the option %s stands for, and is used otherwise than by that option", eng.FnName(f), option)
		}
	}
	r.need(n > 0, r.Prop, "where the field of the option "+option+" is set")
}

// onlyFromOption: f is called, statically or through an interface, by the option only.
func (w *World) onlyFromOption(f *ssa.Function, option string, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return true
	}
	seen[f] = true
	if outer(f).Name() == option && outer(f).Signature.Recv() == nil {
		return true
	}
	if token.IsExported(f.Name()) && f.Parent() == nil {
		return false
	}
	users := w.usersOf(f)
	if len(users) == 0 {
		return false
	}
	for _, u := range users {
		if !w.onlyFromOption(u, option, seen) {
			return false
		}
	}
	return true
}

// usersOf: the functions that mention f or call an interface method it implements, wrappers included.
func (w *World) usersOf(f *ssa.Function) []*ssa.Function {
	if w.users == nil {
		w.users = map[*ssa.Function][]*ssa.Function{}
		add := func(g, u *ssa.Function) {
			for _, x := range w.users[g] {
				if x == u {
					return
				}
			}
			w.users[g] = append(w.users[g], u)
		}
		for _, u := range w.Sort {
			if u.Synthetic != "" {
				continue // wrappers are looked through below
			}
			for _, b := range u.Blocks {
				for _, i := range b.Instrs {
					for _, op := range i.Operands(nil) {
						if v, ok := (*op).(*ssa.Function); ok {
							add(v, u)
						}
					}
					if c, ok := i.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
						for _, m := range w.implMethods(&eng.CallInfo{Instr: i}) {
							for d := 0; m != nil && d < 4; d++ {
								add(m, u)
								cs := callsIn(m)
								if m.Synthetic == "" || len(cs) != 1 {
									break
								}
								m = cs[0].Common().StaticCallee()
							}
						}
					}
				}
			}
		}
	}
	return w.users[f]
}

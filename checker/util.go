package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

// client is a property automaton built from functions.
type client struct {
	call  func(st *eng.State, c *eng.CallInfo) eng.Decision
	event func(st *eng.State, ev *eng.Event)
}

func (c *client) OnCall(st *eng.State, ci *eng.CallInfo) eng.Decision {
	if c.call != nil {
		return c.call(st, ci)
	}
	return eng.Decision{}
}

func (c *client) OnEvent(st *eng.State, ev *eng.Event) {
	if c.event != nil {
		c.event(st, ev)
	}
}

var opaque = eng.Decision{Mode: eng.Opaque}

// namedIs: ty is the package's type of that name (or a pointer to it).
func namedIs(ty types.Type, name string) bool {
	if p, ok := ty.(*types.Pointer); ok {
		ty = p.Elem()
	}
	n, ok := ty.(*types.Named)
	return ok && n.Obj().Name() == name
}

// typeName of a named type or pointer to it, "" otherwise.
func typeName(ty types.Type) string {
	if p, ok := ty.(*types.Pointer); ok {
		ty = p.Elem()
	}
	if n, ok := ty.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// fieldOf builds the term of field name of struct value t.
func fieldOf(e *eng.Engine, t *eng.Term, name string) *eng.Term {
	i := fieldIndex(t.Ty, name)
	if i < 0 {
		return nil
	}
	return e.Field(t, i, t.Ty.Underlying().(*types.Struct).Field(i).Type())
}

// isCallTo: t is the result of an opaque call with that canonical name.
func isCallTo(t *eng.Term, names ...string) bool {
	if t == nil || t.Call == nil {
		return false
	}
	for _, n := range names {
		if t.Call.Name == n {
			return true
		}
	}
	return false
}

func hasSuffixAny(s string, suf ...string) bool {
	for _, x := range suf {
		if strings.HasSuffix(s, x) {
			return true
		}
	}
	return false
}

// fnOf is the outermost source function of f, for construct keys.
func outer(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

func fname(f *ssa.Function) string { return eng.FnName(outer(f)) }

// callsIn lists the call instructions of f (not of nested closures).
func callsIn(f *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok {
				out = append(out, c)
			}
		}
	}
	return out
}

// calleeName is the canonical name of a static or interface call target, "" if dynamic.
func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return eng.CanonName(c.Method)
	}
	if f := c.StaticCallee(); f != nil {
		return eng.SSAName(f)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	return ""
}

var noPos = token.NoPos

// formatter: a helper that only turns values into a string; never relevant to a protocol.
func formatter(f *ssa.Function) bool {
	if f == nil || f.Signature.Recv() != nil || f.Signature.Results().Len() != 1 {
		return false
	}
	b, ok := f.Signature.Results().At(0).Type().(*types.Basic)
	return ok && b.Kind() == types.String
}

// reaching computes the home functions that may reach (by static calls, created closures or go and
// defer statements) an instruction for which direct holds.
func (w *World) reaching(direct func(i ssa.Instruction) bool) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	uses := map[*ssa.Function][]*ssa.Function{} // callee -> users
	var work []*ssa.Function
	for _, f := range w.Sort {
		hit := false
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if direct(i) {
					hit = true
				}
				for _, op := range i.Operands(nil) {
					switch v := (*op).(type) {
					case *ssa.Function:
						uses[v] = append(uses[v], f)
					case *ssa.MakeClosure:
						if g, ok := v.Fn.(*ssa.Function); ok {
							uses[g] = append(uses[g], f)
						}
					}
				}
			}
		}
		if hit {
			out[f] = true
			work = append(work, f)
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, u := range uses[f] {
			if !out[u] {
				out[u] = true
				work = append(work, u)
			}
		}
	}
	return out
}

// storesField: i stores to a field of the named struct whose type satisfies ty.
func storesField(i ssa.Instruction, owner string, ty func(t types.Type) bool) bool {
	s, ok := i.(*ssa.Store)
	if !ok {
		return false
	}
	fa, ok := s.Addr.(*ssa.FieldAddr)
	if !ok || !namedIs(fa.X.Type(), owner) {
		return false
	}
	return ty(fieldVarOfSSA(fa).Type())
}

// storesOnly: the goroutine body works only on values it shares with others by lock or channel
// parameters of its own; it joins nobody.
func storesOnly(f *ssa.Function, w *World) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok && calleeName(c.Common()) == "builtin.close" {
				return false
			}
		}
	}
	return true
}

// callImpls: the methods of this package an interface call may reach, when the interface is one of
// this package.
func (w *World) callImpls(c *eng.CallInfo) []*ssa.Function {
	cc, ok := c.Instr.(ssa.CallInstruction)
	if !ok || !cc.Common().IsInvoke() {
		return nil
	}
	n, ok := cc.Common().Value.Type().(*types.Named)
	if !ok || n.Obj().Pkg() != w.Types {
		return nil
	}
	var out []*ssa.Function
	for _, t := range w.implsOf(n.Obj().Name()) {
		m := w.Prog.LookupMethod(t, w.Types, cc.Common().Method.Name())
		if m == nil {
			continue
		}
		if m.Synthetic != "" {
			if o, ok := m.Object().(*types.Func); ok {
				m = w.Prog.FuncValue(o)
			}
		}
		if m != nil && w.Home(m) && len(m.Blocks) > 0 {
			out = append(out, m)
		}
	}
	return out
}

// implMethods: the methods (wrappers of promoted methods included) an interface call may reach, when
// the interface is one of this package.
func (w *World) implMethods(c *eng.CallInfo) []*ssa.Function {
	cc, ok := c.Instr.(ssa.CallInstruction)
	if !ok || !cc.Common().IsInvoke() {
		return nil
	}
	n, ok := cc.Common().Value.Type().(*types.Named)
	if !ok || n.Obj().Pkg() != w.Types {
		return nil
	}
	var out []*ssa.Function
	for _, t := range w.implsOf(n.Obj().Name()) {
		m := w.Prog.LookupMethod(t, w.Types, cc.Common().Method.Name())
		if m == nil || len(m.Blocks) == 0 {
			return nil
		}
		out = append(out, m)
	}
	return out
}

// getter decides calls of interface methods that only return a field of their receiver: they are
// looked into.
func (w *World) getter(c *eng.CallInfo) (eng.Decision, bool) {
	if !c.Invoke || len(c.Args) > 0 || c.Go {
		return eng.Decision{}, false
	}
	ms := w.implMethods(c)
	for _, m := range ms {
		g := m
		for d := 0; g != nil && d < 4; d++ {
			if len(g.Blocks) != 1 || g.Signature.Results().Len() != 1 {
				return eng.Decision{}, false
			}
			cs := callsIn(g)
			if len(cs) == 0 {
				break
			}
			if len(cs) > 1 || cs[0].Common().StaticCallee() == nil || g.Synthetic == "" {
				return eng.Decision{}, false
			}
			g = cs[0].Common().StaticCallee()
		}
	}
	if len(ms) == 0 {
		return eng.Decision{}, false
	}
	return eng.Decision{Mode: eng.Inline, Impls: ms}, true
}

// runOption explores an option constructor and then the option it returns. Calls of interface methods
// of this package are looked into. pre is called before the option itself is explored.
func (w *World) runOption(fn *ssa.Function, cl *client, pre func(st *eng.State)) *eng.Engine {
	type ended struct {
		st *eng.State
		f  *eng.Term
	}
	var ends []ended
	phase := 1
	call, event := cl.call, cl.event
	c2 := &client{}
	c2.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		if phase == 2 && call != nil {
			if d := call(st, c); d.Mode != eng.Default {
				return d
			}
		}
		if c.Invoke {
			if ms := w.implMethods(c); len(ms) > 0 {
				return eng.Decision{Mode: eng.Inline, Impls: ms}
			}
		}
		return eng.Decision{}
	}
	c2.event = func(st *eng.State, ev *eng.Event) {
		if phase == 1 {
			if ev.Kind == eng.EvEnd && len(ev.Vals) > 0 {
				if f := eng.StripConv(ev.Vals[0]); f.Kind == eng.KClosure || f.Kind == eng.KFunc {
					ends = append(ends, ended{st, f})
				}
			}
			return
		}
		if event != nil {
			event(st, ev)
		}
	}
	e := w.engine(c2)
	e.Run(fn, nil, nil)
	phase = 2
	for _, x := range ends {
		e.RunFrom(x.st, x.f.Fn, nil, x.f.Args, pre)
	}
	return e
}

// optionField is the field an exported option stores its (only) argument to.
func (w *World) optionField(r *Report, prop, option string) *types.Var {
	fn := w.Func(option)
	if !r.need(fn != nil && len(fn.Params) == 1, prop, "the option "+option) {
		return nil
	}
	var fv *types.Var
	cl := &client{}
	cl.event = func(st *eng.State, ev *eng.Event) {
		if ev.Kind == eng.EvStore && ev.Addr.Kind == eng.KFieldA && eng.StripIface(eng.StripConv(ev.Val)) == st.E.Param(fn.Params[0].Name(), fn.Params[0].Type()) {
			fv = eng.FieldVar(ev.Addr)
		}
	}
	w.runOption(fn, cl, nil)
	r.need(fv != nil, prop, "the field the option "+option+" sets")
	return fv
}

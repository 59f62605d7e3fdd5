package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

func init() { register("C37", checkC37) }

// methodsOf are the terms that stand for a method: the value it belongs to and its index (or name).
type hubMethods struct {
	w     *World
	r     *Report
	names []string // the methods the server calls
	table *types.Var
	calls int
	seen  sites
}

// checkC37 decides which methods an invocation calls.
func checkC37(w *World, r *Report) {
	r.rule("a method is called for an invocation only if its name equals, ignoring case, the method name that is configured for the target as alternate name, or the target if there is none")
	r.rule("the methods a server calls on its hubs are not called for an invocation")
	r.rule("an invocation is refused as unknown only after every method of the hub was compared")
	r.rule("the option for alternate names stores the method name under the alternate name")
	run := w.loopRun()
	hub, _ := w.Types.Scope().Lookup("HubInterface").(*types.TypeName)
	if !r.need(run != nil && hub != nil, "C37", "the loop's Run method and HubInterface") {
		return
	}
	h := &hubMethods{w: w, r: r, seen: sites{}}
	ms := types.NewMethodSet(hub.Type())
	for i := 0; i < ms.Len(); i++ {
		h.names = append(h.names, ms.At(i).Obj().Name())
	}
	h.option()
	if !r.need(h.table != nil, "C37", "the alternate names") {
		return
	}
	reach := w.reaching(func(i ssa.Instruction) bool {
		switch i := i.(type) {
		case ssa.CallInstruction:
			n := calleeName(i.Common())
			return n == "(reflect.Type).Method" || n == "(reflect.Type).MethodByName" || n == "(reflect.Value).Method" || n == "(reflect.Value).MethodByName" || strings.HasPrefix(n, "(reflect.Value).Call")
		case *ssa.FieldAddr:
			return fieldVarOfSSA(i) == h.table
		}
		return false
	})
	// functions that tell something about a name or a target are looked into
	tells := map[*ssa.Function]bool{}
	for _, f := range w.Sort {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.BinOp:
					for _, v := range []ssa.Value{i.X, i.Y} {
						if c, ok := v.(*ssa.Const); ok && c.Value != nil {
							for _, n := range h.names {
								tells[f] = tells[f] || strings.EqualFold(strings.Trim(c.Value.ExactString(), `"`), n)
							}
						}
					}
				case *ssa.TypeAssert:
					tells[f] = tells[f] || types.Identical(i.AssertedType, hub.Type())
				case ssa.CallInstruction:
					n := calleeName(i.Common())
					tells[f] = tells[f] || strings.HasPrefix(n, "strings.To") || n == "strings.EqualFold" || n == "(reflect.Type).Implements"
				}
			}
		}
	}
	d := &loopDrv{r: r, kinds: map[string]bool{"invocationMessage": true}, inspect: map[*ssa.Function]bool{}}
	for f := range reach {
		d.inspect[f] = true
	}
	for f := range tells {
		d.inspect[f] = true
	}
	d.onMsg = func(st *eng.State, kind string) {}
	d.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		e := d.e
		give := func(ts ...*eng.Term) eng.Decision {
			return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{KeepArgs: true, Results: ts}}}
		}
		if st.Get("msg") == nil {
			return eng.Decision{}
		}
		res := func(i int) types.Type { return c.Sig.Results().At(i).Type() }
		switch c.Name {
		case "strings.EqualFold":
			return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{
				{KeepArgs: true, Results: []*eng.Term{e.Bool(true)}, Do: func(st *eng.State, rs []*eng.Term) { h.equal(st, c.Args[0], c.Args[1], true, true) }},
				{KeepArgs: true, Results: []*eng.Term{e.Bool(false)}, Do: func(st *eng.State, rs []*eng.Term) { h.equal(st, c.Args[0], c.Args[1], true, false) }},
			}}
		case "reflect.TypeOf":
			if i := eng.StripConv(c.Args[0]); i.Kind == eng.KIface && types.Identical(i.Ty, types.NewPointer(hub.Type())) {
				return give(e.App("typeofhub", res(0)))
			}
			return give(e.App("typeof", res(0), core(c.Args[0])))
		case "reflect.ValueOf":
			return give(e.App("valueof", res(0), core(c.Args[0])))
		case "(reflect.Value).Type":
			if v := core(c.Args[0]); v.Op == "valueof" {
				return give(e.App("typeof", res(0), v.Args[0]))
			}
		case "(reflect.Type).NumMethod", "(reflect.Value).NumMethod":
			if v := core(c.Recv); v.Op == "typeof" || v.Op == "valueof" {
				return give(e.App("nummethod", res(0), v.Args[0]))
			}
		case "(reflect.Type).Method":
			if v := core(c.Recv); v.Op == "typeof" {
				i := core(c.Arg(0))
				h.step(st, c, i)
				return give(e.App("method", res(0), v.Args[0], i))
			}
		case "(reflect.Value).Method":
			if v := core(c.Args[0]); v.Op == "valueof" {
				st.SetInt("found", 1)
				return give(e.App("bound", res(0), v.Args[0], core(c.Args[1])))
			}
		case "(reflect.Type).MethodByName":
			if v := core(c.Recv); v.Op == "typeof" {
				m := e.App("named", res(0), v.Args[0], core(c.Arg(0)))
				return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{
					{KeepArgs: true, Results: []*eng.Term{m, e.Bool(true)}},
					{KeepArgs: true, Results: []*eng.Term{m, e.Bool(false)}},
				}}
			}
			if h.isHubType(c.Recv, hub.Type()) {
				return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{
					{KeepArgs: true, Results: []*eng.Term{nil, e.Bool(true)}, Do: func(st *eng.State, rs []*eng.Term) { st.SetInt("tested", 1) }},
					{KeepArgs: true, Results: []*eng.Term{nil, e.Bool(false)}, Do: func(st *eng.State, rs []*eng.Term) {
						if h.nameOf(core(c.Arg(0))) != nil {
							st.SetInt("not-lifecycle", 1)
						}
					}},
				}}
			}
		case "(reflect.Value).MethodByName":
			if v := core(c.Args[0]); v.Op == "valueof" {
				return give(e.App("boundnamed", res(0), v.Args[0], core(c.Args[1])))
			}
		case "(HubConnection).Completion":
			r.inst("refused", 1)
			if st.GetInt("found") == 0 && st.GetInt("exhausted") == 0 {
				st.Report("not-found", fname(c.In), c.Pos(), "an invocation may be refused before all methods of the hub were compared with its target")
			}
			return opaque
		case "(reflect.Value).Call", "(reflect.Value).CallSlice":
			h.called(st, c, d.msg(st))
			st.Kill()
			return opaque
		}
		if c.Builtin == "" && c.Fn != nil && w.Home(c.Fn) && !d.inspect[c.Fn] {
			return opaque
		}
		if c.Invoke {
			var ims []*ssa.Function
			have := map[*ssa.Function]bool{}
			for _, m := range w.callImpls(c) {
				if reach[m] && !have[m] && c.Name != "(HubConnection).Completion" {
					have[m] = true
					ims = append(ims, m)
				}
			}
			if len(ims) > 0 && !c.Go {
				return eng.Decision{Mode: eng.Inline, Impls: ims}
			}
			return opaque
		}
		return eng.Decision{}
	}
	d.event = func(st *eng.State, ev *eng.Event) {
		if st.Get("msg") == nil {
			return
		}
		switch ev.Kind {
		case eng.EvBranch:
			h.branch(st, ev.Cond, ev.Truth)
		case eng.EvTypeCase:
			if !ev.Truth && types.Identical(ev.Ty, hub.Type()) {
				st.SetInt("no-hub", 1)
			}
		}
	}
	d.run(w, run)
	r.need(h.calls > 0, "C37", "the call of the hub method")
}

// key identifies a method by its value and index.
func key(m *eng.Term) string { return id(core(m.Args[0])) + "," + id(core(m.Args[1])) }

// isHubType: the reflected type of HubInterface.
func (h *hubMethods) isHubType(t *eng.Term, hub types.Type) bool {
	p := types.NewPointer(hub)
	return t.Any(func(x *eng.Term) bool {
		if x.Op == "typeofhub" {
			return true
		}
		n := globalName(x)
		if n == "" {
			return false
		}
		g, _ := h.w.Pkg.Members[n].(*ssa.Global)
		init := h.w.Pkg.Func("init")
		if g == nil || init == nil {
			return false
		}
		for _, b := range init.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok && s.Addr == g && fromType(s.Val, p, 6) {
					return true
				}
			}
		}
		return false
	})
}

// fromType: the value is made of a value of that type.
func fromType(v ssa.Value, t types.Type, depth int) bool {
	if v == nil || depth == 0 {
		return false
	}
	if types.Identical(v.Type(), t) {
		return true
	}
	if i, ok := v.(ssa.Instruction); ok {
		for _, op := range i.Operands(nil) {
			if *op != nil && fromType(*op, t, depth-1) {
				return true
			}
		}
	}
	return false
}

// option: what the option for alternate names stores.
func (h *hubMethods) option() {
	w, r := h.w, h.r
	fn := w.Func("WithAlternateMethodName")
	if !r.need(fn != nil && len(fn.Params) == 2, "C37", "the option WithAlternateMethodName") {
		return
	}
	n := 0
	cl := &client{}
	cl.event = func(st *eng.State, ev *eng.Event) {
		switch ev.Kind {
		case eng.EvMapUpdate:
			name, alt := st.E.Param(fn.Params[0].Name(), fn.Params[0].Type()), st.E.Param(fn.Params[1].Name(), fn.Params[1].Type())
			k, v := ev.Key, ev.Val
			fv := conField(ev.Addr)
			if fv == nil || core(k) != alt || core(v) != name {
				st.Report("wrong-alternate", eng.FnName(fn), ev.Instr.Pos(), "the option does not store the method name under the alternate name")
				return
			}
			h.table = fv
			n++
			st.SetInt("stored", 1)
		case eng.EvEnd:
			r.inst("alternate", 1)
			if len(ev.Vals) == 1 && st.GetInt("stored") == 0 {
				if isnil, known := isNilTerm(st, ev.Vals[0]); known && isnil {
					st.Report("wrong-alternate", eng.FnName(fn), ev.Instr.Pos(), "the option may not store the alternate name")
				}
			}
		}
	}
	r.absorb(w.runOption(fn, cl, nil))
}

// nameOf: t is the name of a method (folded or not): the method.
func (h *hubMethods) nameOf(t *eng.Term) *eng.Term {
	if strings.HasPrefix(t.Op, "call:strings.To") {
		t = core(t.Args[0])
	}
	if fv := conField(t); fv == nil || fv.Name() != "Name" {
		return nil
	}
	var m *eng.Term
	t.Walk(func(x *eng.Term) bool {
		if x.Op == "method" || x.Op == "named" {
			m = x
		}
		return true
	})
	return m
}

func unfold(t *eng.Term) (*eng.Term, string) {
	t = core(t)
	how := ""
	for strings.HasPrefix(t.Op, "call:strings.To") {
		if how == "" {
			how = t.Op
		}
		t = core(t.Args[0])
	}
	return t, how
}

// equal: two strings are known to be equal or not.
func (h *hubMethods) equal(st *eng.State, a, b *eng.Term, fold, truth bool) {
	a, b = core(a), core(b)
	for i := 0; i < 2; i++ {
		x, y := a, b
		if i == 1 {
			x, y = b, a
		}
		m := h.nameOf(x)
		if c, ok := eng.StrConst(y); ok {
			// a comparison with the name of a method of the server
			u, how := unfold(x)
			for _, n := range h.names {
				same := c == n && m != nil && how == ""
				switch {
				case fold:
					same = strings.EqualFold(c, n)
				case how == "call:strings.ToLower":
					same = c == strings.ToLower(n)
				case how == "call:strings.ToUpper":
					same = c == strings.ToUpper(n)
				}
				if same && (m != nil || h.isTarget(st, u)) {
					if truth {
						st.SetInt("tested", 1)
					} else {
						st.SetInt("not:"+n, 1)
					}
				}
			}
			continue
		}
		if m == nil {
			continue
		}
		_, hx := unfold(x)
		uy, hy := unfold(y)
		if !fold && (hx == "" || hx != hy) {
			continue // it depends on case
		}
		if truth {
			st.Set("match:"+key(m), uy)
		} else {
			st.SetInt("tested", 1)
		}
	}
}

// isTarget: the name that was made of the target.
func (h *hubMethods) isTarget(st *eng.State, t *eng.Term) bool {
	msg := st.Get("msg")
	target := core(fieldOf(st.E, msg, "Target"))
	if t == target {
		return st.GetInt("alternate") == -1
	}
	if t.Op == "lookup" || strings.HasPrefix(t.Op, "extract") || len(t.Args) == 2 && strings.HasPrefix(t.Op, "lookup") {
		return core(t.Args[1]) == target && conFieldIs(t.Args[0], h.table) && st.GetInt("alternate") == 1
	}
	return false
}

func conFieldIs(t *eng.Term, fv *types.Var) bool { return conField(t) == fv }

// step: the next method is looked at.
func (h *hubMethods) step(st *eng.State, c *eng.CallInfo, i *eng.Term) {
	name := fname(c.In)
	h.seen.add(h.r, "scan", st.E.Pos(c.Pos()), "methods are compared in "+name)
	if n, ok := eng.IntConst(i); ok && n != 0 {
		st.Report("skipped", name, c.Pos(), "the comparison does not begin with the first method")
	}
	if cc, ok := c.Instr.(ssa.CallInstruction); ok {
		for _, a := range cc.Common().Args {
			if steps(a) {
				st.Report("skipped", name, c.Pos(), "the comparison leaves out methods")
			}
		}
	}
	h.done(st, c, name)
	st.SetInt("scanning", 1)
	st.SetInt("tested", 0)
	st.Del("not-lifecycle")
	for _, n := range h.names {
		st.Del("not:" + n)
	}
}

// steps: the index does not go up by one.
func steps(v ssa.Value) bool {
	p, ok := v.(*ssa.Phi)
	if b, is := v.(*ssa.BinOp); is {
		p, ok = b.X.(*ssa.Phi)
	}
	if !ok {
		return false
	}
	for _, e := range p.Edges {
		if b, ok := e.(*ssa.BinOp); ok && b.X == p {
			c, ok := b.Y.(*ssa.Const)
			if ok && (b.Op != token.ADD || c.Value.ExactString() != "1") {
				return true
			}
		}
	}
	return false
}

// done: the method that was looked at before was compared.
func (h *hubMethods) done(st *eng.State, c *eng.CallInfo, name string) {
	if st.GetInt("scanning") == 1 && st.GetInt("tested") == 0 {
		st.Report("skipped", name, c.Pos(), "a method is left out though its name may equal the target")
	}
}

func (h *hubMethods) branch(st *eng.State, t *eng.Term, truth bool) {
	for t.Kind == eng.KApp && t.Op == "not" {
		t, truth = t.Args[0], !truth
	}
	switch t.Op {
	case "eq":
		for i := 0; i < 2; i++ {
			x, y := core(t.Args[i]), core(t.Args[1-i])
			if s, ok := eng.StrConst(y); ok && s == "" {
				if len(x.Args) == 2 && x.Op == "lookup" && conFieldIs(x.Args[0], h.table) && st.GetInt("alternate") == 0 {
					h.alternate(st, x, !truth)
				} else if u, _ := unfold(x); truth && h.isTarget(st, u) {
					st.SetInt("exhausted", 1) // no method has this name
				}
			}
			if truth && eng.IsNil(y) && x.Ty != nil && types.IsInterface(x.Ty) && x.Ty.Underlying().(*types.Interface).Empty() {
				st.SetInt("exhausted", 1) // nothing has no methods
			}
		}
		h.equal(st, t.Args[0], t.Args[1], false, truth)
		for i := 0; i < 2; i++ {
			if x := core(t.Args[i]); truth && (x.Op == "typeof" && eng.IsNil(core(t.Args[1-i])) || x.Op == "nummethod") {
				st.SetInt("exhausted", 1)
			}
		}
	case "lt":
		if t.Args[1].Op == "nummethod" && !truth {
			st.SetInt("exhausted", 1)
			if st.GetInt("scanning") == 1 && st.GetInt("tested") == 0 {
				st.Report("skipped", st.Fn().Name(), st.Fn().Pos(), "a method is left out though its name may equal the target")
			}
		}
	}
	if strings.HasPrefix(t.Op, "lookupok") && len(t.Args) == 2 && conFieldIs(t.Args[0], h.table) {
		h.alternate(st, t, truth)
	}
}

// alternate: there is a method name for the target or not.
func (h *hubMethods) alternate(st *eng.State, t *eng.Term, truth bool) {
	target := core(fieldOf(st.E, st.Get("msg"), "Target"))
	if core(t.Args[1]) != target {
		st.Report("wrong-alternate", st.Fn().Name(), st.Fn().Pos(), "the alternate name that is looked up is not the target of the invocation")
	}
	if truth {
		st.SetInt("alternate", 1)
	} else {
		st.SetInt("alternate", -1)
	}
}

// called: the method is called.
func (h *hubMethods) called(st *eng.State, c *eng.CallInfo, msg *eng.Term) {
	h.calls++
	name := fname(c.In)
	h.seen.add(h.r, "call", st.E.Pos(c.Pos()), "a hub method is called in "+name)
	h.r.inst("called", 1)
	v := core(c.Recv)
	if v == nil || v.Op == "" {
		v = core(c.Args[0])
	}
	var m *eng.Term
	switch {
	case v.Op == "bound":
		m = st.E.App("method", nil, v.Args[0], v.Args[1])
	case conField(v) != nil && conField(v).Name() == "Func":
		v.Walk(func(x *eng.Term) bool {
			if x.Op == "method" {
				m = x
			}
			return true
		})
	}
	var n *eng.Term
	if m != nil {
		for k, x := range st.A {
			if strings.HasPrefix(k, "match:") {
				if k[6:] == key(m) {
					n = x
				}
			}
		}
	}
	if n == nil {
		st.Report("wrong-method", name, c.Pos(), "a method may be called whose name does not equal the target of the invocation")
		return
	}
	if !h.isTarget(st, n) {
		st.Report("wrong-method", name, c.Pos(), "a method may be called whose name is neither the target nor the method name configured for it")
	}
	if st.GetInt("no-hub") == 0 && st.GetInt("not-lifecycle") == 0 {
		for _, l := range h.names {
			if st.GetInt("not:"+l) == 0 {
				st.Report("lifecycle", l, c.Pos(), "a peer may call %s, which is for the server to call", l)
			}
		}
	}
}

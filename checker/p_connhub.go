package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

func init() { register("C20", checkC20) }

func checkC20(w *World, r *Report) {
	r.rule("with a factory for hubs per connection, the hub that runs methods and lifecycle callbacks of a connection is the one kept under the id of the connection, or a new one made by the factory for this id, initialised with the context of the connection, and then kept under its id: in this order, on every path")
	r.rule("looking for the hub and keeping a new one are one step: both happen under one lock, or everything that does it for a connection runs on the goroutine of its message loop")
	r.rule("when the connection has ended, its hub is forgotten on every path, also when the factory panics, and nothing that runs concurrently or later looks for it or makes it again")
	r.rule("the message loop asks for the hub of its own connection, and nothing else changes the kept hubs")
	fac := w.optionField(r, "C20", "PerConnectionHubFactory")
	if fac == nil {
		return
	}
	h := &hubKeeper{w: w, r: r, fac: fac, analysed: map[*ssa.Function]bool{}}
	n := 0
	for _, f := range w.Sort {
		if f.Parent() != nil || f.Synthetic != "" || f.Signature.Recv() == nil {
			continue
		}
		var hc *ssa.Parameter
		for _, p := range f.Params {
			if namedIs(p.Type(), "HubConnection") {
				hc = p
			}
		}
		if hc == nil || !h.uses()[f] || !w.inInterface(f, "Party") {
			continue
		}
		n++
		h.explore(f, hc)
	}
	r.need(n > 0, "C20", "the functions that look for the hub of a connection")
	if !r.need(h.kept != nil, "C20", "where the hubs of the connections are kept") {
		return
	}
	r.need(h.removed > 0, "C20", "where the hub of a connection is forgotten")
	h.goroutines()
	h.writers()
	h.loopArg()
}

type hubKeeper struct {
	w        *World
	r        *Report
	fac      *types.Var
	kept     *types.Var
	analysed map[*ssa.Function]bool
	removed  int
	unlocked bool
	usesFac  map[*ssa.Function]bool
	makers   map[*ssa.Function]bool
}

func (h *hubKeeper) facLoad(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	return ok && fieldVarOfSSA(fa) == h.fac
}

// uses: the functions that may reach the factory.
func (h *hubKeeper) uses() map[*ssa.Function]bool {
	if h.usesFac == nil {
		h.usesFac = h.w.reaching(func(i ssa.Instruction) bool {
			fa, ok := i.(*ssa.FieldAddr)
			return ok && fieldVarOfSSA(fa) == h.fac
		})
	}
	return h.usesFac
}

func (h *hubKeeper) explore(fn *ssa.Function, hc *ssa.Parameter) {
	r := h.r
	name := eng.FnName(fn)
	r.inst("hub-user", 1)
	conn := func(st *eng.State) *eng.Term { return st.E.Param(hc.Name(), hc.Type()) }
	facNil := func(st *eng.State) (bool, bool) {
		isNil, known := false, false
		st.Facts(func(t *eng.Term, v bool) {
			if t.Op == "eq" && len(t.Args) == 2 {
				for i := 0; i < 2; i++ {
					if eng.IsNil(t.Args[i]) && t.Args[1-i].Op == "load" && eng.FieldVar(t.Args[1-i].Args[0]) == h.fac {
						isNil, known = v, true
					}
				}
			}
		})
		return isNil, known
	}
	use := func(st *eng.State, v *eng.Term, what string) {
		if st.GetInt("per") != 1 {
			return
		}
		v = eng.StripConv(core(v))
		if eng.IsNil(v) {
			return
		}
		r.inst("hub-use", 1)
		found, ok := st.Get("found"), st.Get("foundok")
		if found != nil && v.Any(func(x *eng.Term) bool { return x == found }) {
			if t, known := truth(st, ok); known && t {
				return
			}
			st.Report("other-hub", name, fn.Pos(), "%s %s a hub although none was found for the connection", name, what)
			return
		}
		if m := st.Get("made"); m != nil && v.Any(func(x *eng.Term) bool { return x == m }) {
			switch {
			case st.GetInt("inited") == 0:
				st.Report("not-initialised", name, fn.Pos(), "%s %s a hub that was not initialised", name, what)
			case st.GetInt("keptnow") == 0:
				st.Report("not-kept", name, fn.Pos(), "%s %s a new hub that is not kept for the connection: the next use would get another one", name, what)
			}
			return
		}
		st.Report("other-hub", name, fn.Pos(), "%s %s another hub than the one of the connection", name, what)
	}
	on := func(st *eng.State, c *cop) {
		kept := h.kept != nil && c.field == h.kept
		if c.kind == "put" {
			if m := st.Get("made"); m != nil && core(c.val).Any(func(x *eng.Term) bool { return x == m }) && c.field != nil {
				h.kept = c.field
				if !isConnID(c.key, conn(st)) {
					st.Report("shared-hub", name, fn.Pos(), "%s keeps the hub under something else than the id of the connection", name)
				}
				if st.GetInt("inited") == 0 {
					st.Report("not-initialised", name, fn.Pos(), "%s keeps a hub that was not initialised yet: others may use it", name)
				}
				st.SetInt("keptnow", 1)
				if len(heldSet(st, "since:")) == 0 {
					h.unlocked = true
					if st.GoDepth() > 0 {
						st.Report("two-hubs", name, fn.Pos(), "%s may make a second hub for the connection: it looks for the hub and keeps a new one in a goroutine of its own, without a lock around both", name)
					}
				}
			} else if kept {
				st.Report("other-hub", name, fn.Pos(), "%s keeps something else than the new hub", name)
			}
			return
		}
		if c.kind == "get" && c.field != nil && isConnID(c.key, conn(st)) && hubValue(c) {
			h.kept = c.field
			st.Set("found", st.E.Nil())
			if c.val != nil {
				st.Set("found", eng.StripConv(core(c.val)))
			}
			st.Set("foundok", st.E.Bool(false))
			if c.ok != nil {
				st.Set("foundok", c.ok)
			}
			for k := range heldSet(st, "held:") {
				st.SetInt("since:"+k, 1)
			}
			if st.GetInt("forgotten") == 1 {
				st.Report("after-end", name, fn.Pos(), "%s looks for the hub after it was forgotten", name)
			}
			if st.GetInt("ending") == 1 && st.GoDepth() > 0 {
				st.Report("after-end", name, fn.Pos(), "%s looks for the hub in a goroutine while it is forgotten", name)
			}
			st.SetInt("looked", 1)
			if st.GoDepth() > 0 {
				st.SetInt("golooked", 1)
			}
			return
		}
		if c.kind == "get" && kept {
			st.Report("shared-hub", name, fn.Pos(), "%s looks for a hub under something else than the id of the connection", name)
		}
		if c.kind == "del" && kept {
			if !isConnID(c.key, conn(st)) {
				st.Report("wrong-forgotten", name, fn.Pos(), "%s forgets the hub of another connection", name)
			}
			h.removed++
			st.SetInt("forgotten", 1)
		}
	}
	cl := &client{}
	cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		heldLocks(st, c)
		if isLogCall(c.Name) {
			return opaque
		}
		switch {
		case c.Fn == nil && !c.Invoke && c.FnTerm != nil && core(c.FnTerm).Op == "load" && eng.FieldVar(core(c.FnTerm).Args[0]) == h.fac:
			if st.GetInt("logging") == 1 {
				return opaque
			}
			r.inst("hub-made", 1)
			if !isConnID(c.Args[0], conn(st)) {
				st.Report("wrong-id", name, c.Pos(), "%s makes a hub for another id than the one of the connection", name)
			}
			if st.GetInt("forgotten") == 1 || st.GetInt("ending") == 1 && st.GoDepth() > 0 {
				st.Report("after-end", name, c.Pos(), "%s may make a hub for a connection that has ended", name)
			}
			if st.GetInt("looked") == 0 {
				st.Report("two-hubs", name, c.Pos(), "%s makes a hub without looking for the one the connection has", name)
			} else if v, known := truth(st, st.Get("foundok")); !known || v {
				if f := st.Get("found"); f != nil {
					if isNil, known := isNilTerm(st, f); known && isNil {
						goto make
					}
				}
				st.Report("two-hubs", name, c.Pos(), "%s may make a second hub for the connection", name)
			}
		make:
			return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{
				{Do: func(st *eng.State, rs []*eng.Term) {
					st.Set("made", eng.StripConv(core(rs[0])))
					st.Del("inited")
					st.Del("keptnow")
				}},
				{Panic: true, Do: func(st *eng.State, rs []*eng.Term) { st.SetInt("panicked", 1) }},
			}}
		case c.Name == "(HubInterface).Initialize":
			if m := st.Get("made"); m != nil && c.Recv != nil && core(c.Recv).Any(func(x *eng.Term) bool { return x == m }) {
				a := core(c.Args[0])
				if !mentions(st, a, conn(st), 0) {
					st.Report("wrong-context", name, c.Pos(), "%s initialises the hub with a context that is not the one of the connection", name)
				}
				st.SetInt("inited", 1)
			}
			return opaque
		case c.Name == "(HubInterface).OnConnected", c.Name == "(HubInterface).OnDisconnected":
			use(st, c.Recv, "tells")
			return opaque
		case strings.HasPrefix(c.Name, "(HubLifetimeManager)."):
			if strings.HasSuffix(c.Name, ".OnDisconnected") {
				st.SetInt("disconnect", 1)
			}
			return opaque
		case c.Fn != nil && h.w.Home(c.Fn) && c.Fn.Signature.Results().Len() > 0 && namedIs(c.Fn.Signature.Results().At(0).Type(), "HubContext"):
			return opaque
		case c.Fn != nil && h.w.Home(c.Fn) && logMaker(c.Fn):
			return opaque
		}
		return eng.Decision{}
	}
	cl.event = func(st *eng.State, ev *eng.Event) {
		switch ev.Kind {
		case eng.EvBranch:
			if isNil, known := facNil(st); known {
				st.SetInt("per", b2i(!isNil)+2*b2i(isNil))
			}
		case eng.EvEnd:
			r.inst("hub-path", 1)
			if st.GetInt("per") == 2 && st.GetInt("looked") == 0 {
				return
			}
			if rs := fn.Signature.Results(); rs.Len() == 1 && len(ev.Vals) == 1 && st.GetInt("panicked") == 0 {
				if _, ok := rs.At(0).Type().Underlying().(*types.Interface); ok {
					use(st, ev.Vals[0], "returns")
				}
			}
			if st.GetInt("disconnect") == 1 {
				r.inst("hub-end", 1)
				if st.GetInt("forgotten") == 0 {
					st.Report("not-forgotten", name, ev.Instr.Pos(), "%s may keep the hub of a connection that has ended", name)
				}
				if st.GetInt("golooked") == 1 {
					st.Report("after-end", name, ev.Instr.Pos(), "%s looks for the hub in a goroutine, maybe after it was forgotten: it would be made again", name)
				}
			}
		}
	}
	e := h.w.engine(containers(on, cl))
	e.Run(fn, nil, nil)
	for f := range e.FnsSeen {
		h.analysed[f] = true
	}
	r.absorb(e)
}

// inInterface: f implements a method of that interface of the package.
func (w *World) inInterface(f *ssa.Function, name string) bool {
	t := w.Type(name)
	if t == nil || f.Signature.Recv() == nil {
		return false
	}
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == f.Name() {
			return true
		}
	}
	return false
}

// mentions: the value, or the object it points to, holds x.
func mentions(st *eng.State, t, x *eng.Term, depth int) bool {
	x = core(x)
	if t.Any(func(y *eng.Term) bool { return y == x }) {
		return true
	}
	if t.Call != nil {
		for _, a := range t.Call.Args {
			if core(a) == x {
				return true
			}
		}
	}
	if depth > 2 || t.Ty == nil {
		return false
	}
	if p, ok := t.Ty.Underlying().(*types.Pointer); ok {
		if s, ok := p.Elem().Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if v := st.Peek(st.E.FieldAddr(t, i, s.Field(i).Type())); v != nil && mentions(st, core(v), x, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// logMaker: it returns loggers.
func logMaker(f *ssa.Function) bool {
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if !strings.HasSuffix(types.TypeString(rs.At(i).Type(), nil), "Logger") {
			return false
		}
	}
	return rs.Len() > 0
}

// hubValue: the container holds hubs.
func hubValue(c *cop) bool {
	t := c.field.Type()
	if m, ok := t.Underlying().(*types.Map); ok {
		return namedIs(m.Elem(), "HubInterface")
	}
	return typeName(t) == "Map"
}

// goroutines: unless the step is locked, hubs are looked for on the goroutine of the message loop only.
func (h *hubKeeper) goroutines() {
	w, r := h.w, h.r
	if !h.unlocked {
		return
	}
	// the functions that may make the hub of a connection, up to the message loop
	in := map[*ssa.Function]bool{}
	for f := range h.analysed {
		for _, c := range callsIn(f) {
			if !c.Common().IsInvoke() && h.facLoad(c.Common().Value) {
				in[f] = true
			}
		}
	}
	loop := map[*ssa.Function]bool{} // tells that the connection starts: the goroutine of the connection
	starts := map[*ssa.Function]bool{}
	for _, f := range w.Sort {
		for _, c := range callsIn(f) {
			if calleeName(c.Common()) == "(HubLifetimeManager).OnConnected" {
				starts[f] = true
			}
		}
	}
	targets := func(c ssa.CallInstruction) []*ssa.Function {
		if c.Common().IsInvoke() {
			return w.implMethods(&eng.CallInfo{Instr: c.(ssa.Instruction)})
		}
		if f := c.Common().StaticCallee(); f != nil {
			return []*ssa.Function{f}
		}
		if mc, ok := c.Common().Value.(*ssa.MakeClosure); ok {
			return []*ssa.Function{mc.Fn.(*ssa.Function)}
		}
		return nil
	}
	for _, f := range w.Sort {
		for _, c := range callsIn(f) {
			for _, t := range targets(c) {
				if starts[t] {
					loop[f] = true
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range w.Sort {
			if in[f] || loop[f] {
				continue
			}
			hit := false
			for _, c := range callsIn(f) {
				if _, isGo := c.(*ssa.Go); isGo {
					continue
				}
				for _, t := range targets(c) {
					hit = hit || in[t]
				}
			}
			if hit {
				in[f] = true
				changed = true
			}
		}
	}
	for _, f := range w.Sort {
		for _, c := range callsIn(f) {
			g, isGo := c.(*ssa.Go)
			if !isGo {
				continue
			}
			for _, t := range targets(g) {
				r.inst("goroutine", 1)
				if in[t] && !loop[t] {
					r.find("two-hubs", eng.FnName(outer(f)), g.Pos(), "%s starts a goroutine that may make the hub of a connection at the same time as its message loop: there would be two", eng.FnName(outer(f)))
				}
			}
		}
	}
	r.need(len(loop) > 0, "C20", "the message loop")
}

func (h *hubKeeper) writers() {
	w, r := h.w, h.r
	for _, f := range w.Sort {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var m ssa.Value
				switch x := i.(type) {
				case *ssa.MapUpdate:
					m = x.Map
				case *ssa.Call:
					n := calleeName(x.Common())
					if n == "builtin.delete" || n == "builtin.clear" || strings.HasPrefix(n, "(sync.Map).") && !strings.HasSuffix(n, ").Load") {
						m = x.Common().Args[0]
					}
				}
				if u, ok := m.(*ssa.UnOp); ok {
					m = u.X
				}
				if fa, ok := m.(*ssa.FieldAddr); ok && fieldVarOfSSA(fa) == h.kept {
					r.inst("writer", 1)
					if cs, dyn := w.callersOf(f); !h.analysed[f] && (dyn || len(cs) > 0) {
						r.find("other-writer", eng.FnName(f), i.Pos(), "%s changes the kept hubs", eng.FnName(f))
					}
				}
			}
		}
	}
}

// loopArg: whoever asks for the hub to call its methods gives its own connection.
func (h *hubKeeper) loopArg() {
	w, r := h.w, h.r
	n := 0
	for _, f := range w.Sort {
		for _, c := range callsIn(f) {
			if !c.Common().IsInvoke() || len(c.Common().Args) != 1 || !namedIs(c.Common().Args[0].Type(), "HubConnection") {
				continue
			}
			mine := false
			for _, t := range w.implMethods(&eng.CallInfo{Instr: c.(ssa.Instruction)}) {
				for t != nil && t.Synthetic != "" && len(callsIn(t)) == 1 {
					t = callsIn(t)[0].Common().StaticCallee()
				}
				mine = mine || t != nil && h.analysed[t] && t.Signature.Results().Len() == 1
			}
			if !mine {
				continue
			}
			n++
			r.inst("asked", 1)
			u, ok := c.Common().Args[0].(*ssa.UnOp)
			if ok {
				_, ok = u.X.(*ssa.FieldAddr)
			}
			if _, isParam := c.Common().Args[0].(*ssa.Parameter); !ok && !isParam {
				r.find("undecided", eng.FnName(f), c.Pos(), "it is not decided which connection %s asks the hub for", eng.FnName(f))
			}
		}
	}
	r.need(n > 0, "C20", "where the message loop asks for the hub")
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

func init() { register("C28", checkC28) }

// waits decides that blocking operations end with their context.
type waits struct {
	w     *World
	r     *Report
	id    string
	calls map[*ssa.Function][]ssa.CallInstruction
	msgT  types.Type // what a hub connection receives
	stop  *ssa.Parameter
	only  string // report only this rule of after
}

func checkC28(w *World, r *Report) {
	r.rule("every blocking select has a case for the end of a context or for a time limit, and that context can end")
	r.rule("a select in a function that gets a context, or in a method of a value that has a context, has a case for the end of that context (or of one derived from it)")
	r.rule("a select that takes received messages ends with the hub connection, the one that dispatches them also with the party")
	r.rule("after the end of a context was seen, the same wait is not entered again, and a function with an error result returns an error")
	r.rule("a channel that carries errors gets one before it is closed because a context ended")
	r.rule("outside of a select nothing waits for a channel that somebody else holds, or for one that is fed by a goroutine that reads or writes a connection; in a loop only results for the caller of the API are sent without select")
	r.rule("a connection is read and written only by functions that run in a goroutine of their own, so that the operation can give up; what unblocks it does not block itself")
	r.rule("every pipe is closed by a goroutine of its maker when the context or the source ends")
	r.rule("when a connection of an http handler was served to its end in a goroutine, its context is cancelled")
	r.rule("a context is derived from one that can end; what a value with a context calls gets this context; a connection made for an http request gets a context that ends with the server and with the request")
	r.rule("a net connection that is wrapped is closed, or its deadline is set, when the context ends")
	t := &waits{w: w, r: r, id: "C28"}
	t.index()
	n := t.selects()
	t.after()
	t.plain()
	t.async()
	t.pipes()
	t.served()
	t.given()
	t.unblocked()
	r.need(n > 0, "C28", "blocking selects")
	r.need(r.Instances["ends"] > 0, "C28", "selects that see the end of a context")
}

func (t *waits) index() {
	t.calls = map[*ssa.Function][]ssa.CallInstruction{}
	for _, f := range t.w.Sort {
		for _, c := range callsIn(f) {
			if g := c.Common().StaticCallee(); g != nil {
				t.calls[g] = append(t.calls[g], c)
			}
		}
	}
	if hc, _ := t.w.Types.Scope().Lookup("HubConnection").(*types.TypeName); hc != nil {
		ms := types.NewMethodSet(hc.Type())
		for i := 0; i < ms.Len(); i++ {
			if sig, ok := ms.At(i).Obj().Type().(*types.Signature); ok && sig.Results().Len() == 1 {
				if c, ok := sig.Results().At(0).Type().Underlying().(*types.Chan); ok {
					t.msgT = c.Elem()
				}
			}
		}
	}
}

// sources are the values v comes from. Parameters of closures are always followed to their calls, those of other
// functions if wide is set.
func (t *waits) sources(v ssa.Value, wide bool, derive bool) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var follow func(v ssa.Value)
	follow = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				follow(e)
			}
			return
		case *ssa.ChangeType:
			follow(x.X)
			return
		case *ssa.ChangeInterface:
			follow(x.X)
			return
		case *ssa.MakeInterface:
			follow(x.X)
			return
		case *ssa.Parameter:
			f := x.Parent()
			if f.Parent() == nil && !wide || x == t.stop {
				break
			}
			i := -1
			for j, p := range f.Params {
				if p == x {
					i = j
				}
			}
			cs := t.calls[f]
			if len(cs) == 0 || i < 0 {
				break
			}
			for _, c := range cs {
				if i < len(c.Common().Args) {
					follow(c.Common().Args[i])
				}
			}
			return
		case *ssa.FreeVar:
			f := x.Parent()
			i := -1
			for j, p := range f.FreeVars {
				if p == x {
					i = j
				}
			}
			n := 0
			if f.Parent() != nil && i >= 0 {
				for _, b := range f.Parent().Blocks {
					for _, ins := range b.Instrs {
						if m, ok := ins.(*ssa.MakeClosure); ok && m.Fn == f && i < len(m.Bindings) {
							n++
							follow(m.Bindings[i])
						}
					}
				}
			}
			if n > 0 {
				return
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				switch a := x.X.(type) {
				case *ssa.Alloc, *ssa.FreeVar:
					n := 0
					for _, cell := range t.sources(a, wide, false) {
						if al, ok := cell.(*ssa.Alloc); ok {
							for _, s := range t.stores(al) {
								n++
								follow(s)
							}
						}
					}
					if n > 0 {
						return
					}
				}
			}
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				if derive && t.derived(c.Common(), follow) {
					return
				}
				if t.results(c.Common(), x.Index, follow) {
					return
				}
			}
		case *ssa.Call:
			if derive && t.derived(x.Common(), follow) {
				return
			}
			if t.results(x.Common(), 0, follow) {
				return
			}
		}
		out = append(out, v)
	}
	follow(v)
	return out
}

// stores into a local variable, also those of the closures that capture it
func (t *waits) stores(a *ssa.Alloc) []ssa.Value {
	var out []ssa.Value
	var look func(v ssa.Value)
	seen := map[ssa.Value]bool{}
	look = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == v {
					out = append(out, r.Val)
				}
			case *ssa.MakeClosure:
				for i, b := range r.Bindings {
					if f, ok := r.Fn.(*ssa.Function); ok && b == v && i < len(f.FreeVars) {
						look(f.FreeVars[i])
					}
				}
			}
		}
	}
	look(a)
	return out
}

// derived follows a context to those it is made from
func (t *waits) derived(c *ssa.CallCommon, follow func(ssa.Value)) bool {
	n := calleeName(c)
	switch {
	case strings.HasPrefix(n, "context.With") && n != "context.WithoutCancel" && len(c.Args) > 0:
		follow(c.Args[0])
		return true
	case strings.HasSuffix(n, "onecontext.Merge"):
		for _, a := range c.Args {
			if ctxType(a.Type()) {
				follow(a)
			}
			// variadic
			if s, ok := a.(*ssa.Slice); ok {
				if al, ok := s.X.(*ssa.Alloc); ok {
					for _, r := range *al.Referrers() {
						if ia, ok := r.(*ssa.IndexAddr); ok {
							for _, u := range *ia.Referrers() {
								if st, ok := u.(*ssa.Store); ok {
									follow(st.Val)
								}
							}
						}
					}
				}
			}
		}
		return true
	}
	return false
}

func ctxType(ty types.Type) bool { return types.TypeString(ty, nil) == "context.Context" }

// results follows a call of a function literal or of an unexported function to what it returns, except for methods
// that give the context of their receiver.
func (t *waits) results(c *ssa.CallCommon, i int, follow func(ssa.Value)) bool {
	g := c.StaticCallee()
	if g == nil || !t.w.Home(g) || len(g.Blocks) == 0 || g.Name() == "Context" {
		return false
	}
	n := 0
	for _, b := range g.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) {
			n++
			follow(r.Results[i])
		}
	}
	return n > 0
}

// doneOf is the context whose Done method gave this channel
func doneOf(v ssa.Value) ssa.Value {
	if c, ok := v.(*ssa.Call); ok && calleeName(c.Common()) == "(context.Context).Done" {
		return c.Common().Value
	}
	return nil
}

// limit: a channel that fires after some time
func limit(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Call:
		return calleeName(x.Common()) == "time.After"
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			return strings.HasSuffix(types.TypeString(fa.X.Type(), nil), "time.Timer")
		}
	}
	return false
}

// waitCase describes a case of a select: the contexts whose end it waits for, or that it is a time limit.
func (t *waits) waitCase(s *ssa.SelectState) (ctxs []ssa.Value, isLimit bool) {
	if s.Dir != types.RecvOnly {
		return nil, false
	}
	src := t.sources(s.Chan, true, false)
	isLimit = len(src) > 0
	all := len(src) > 0
	for _, v := range src {
		if !limit(v) {
			isLimit = false
		}
		if d := doneOf(v); d != nil {
			ctxs = append(ctxs, d)
		} else {
			all = false
		}
	}
	if !all {
		ctxs = nil
	}
	return
}

// background: the context never ends
func (t *waits) background(ctx ssa.Value) bool {
	timed := false
	src := t.sources(ctx, false, false)
	for len(src) == 1 {
		c := callOf(src[0])
		if c == nil {
			return false
		}
		switch n := calleeName(c); {
		case n == "context.Background" || n == "context.TODO" || n == "context.WithoutCancel":
			return !timed
		case n == "context.WithTimeout" || n == "context.WithDeadline" || strings.HasPrefix(n, "context.WithTimeout") || strings.HasPrefix(n, "context.WithDeadline"):
			return false
		case strings.HasPrefix(n, "context.With"):
			src = t.sources(c.Args[0], false, false)
		default:
			return false
		}
	}
	return false
}

func callOf(v ssa.Value) *ssa.CallCommon {
	switch x := v.(type) {
	case *ssa.Call:
		return x.Common()
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return c.Common()
		}
	}
	return nil
}

func (t *waits) selects() int {
	n := 0
	for _, f := range t.w.Sort {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				sel, ok := i.(*ssa.Select)
				if !ok || !sel.Blocking {
					continue
				}
				n++
				t.r.inst("select", 1)
				t.selectOf(f, sel)
			}
		}
	}
	return n
}

func (t *waits) selectOf(f *ssa.Function, sel *ssa.Select) {
	pos := sel.Pos()
	name := fname(f)
	var ctxs []ssa.Value
	ends := false
	takes := false
	for _, s := range sel.States {
		c, l := t.waitCase(s)
		ends = ends || l
		for _, x := range c {
			ctxs = append(ctxs, x)
			if !t.background(x) {
				ends = true
			}
		}
		if ch, ok := s.Chan.Type().Underlying().(*types.Chan); ok && s.Dir == types.RecvOnly && t.msgT != nil && types.Identical(ch.Elem(), t.msgT) {
			takes = true
		}
	}
	if !ends {
		t.r.find("select", name, pos, "%s waits in a select that neither ends with a context that can end nor has a time limit", name)
	}
	o := outer(f)
	// contexts of the function
	var own []*ssa.Parameter
	for _, p := range o.Params {
		if ctxType(p.Type()) {
			own = append(own, p)
		}
	}
	var from []ssa.Value
	for _, c := range ctxs {
		from = append(from, t.sources(c, false, true)...)
	}
	if len(own) > 0 {
		t.r.inst("own", 1)
		hit := false
		for _, s := range from {
			for _, p := range own {
				hit = hit || s == ssa.Value(p)
			}
		}
		if !hit {
			t.r.find("own-context", name, pos, "%s gets a context but waits in a select that does not end with it", name)
		}
	}
	if recv := o.Signature.Recv(); recv != nil && hasContext(recv.Type()) {
		t.r.inst("own", 1)
		hit := false
		for _, c := range ctxs {
			for _, s := range t.sources(c, true, true) {
				hit = hit || t.contextOf(s, recv.Type())
			}
		}
		if !hit {
			t.r.find("own-context", name, pos, "%s waits in a select that does not end with the context of its %s", name, typeName(recv.Type()))
		}
	}
	if takes && !(o.Signature.Recv() != nil && t.implements(o.Signature.Recv().Type(), "HubConnection")) {
		t.r.inst("takes", 1)
		for _, need := range []string{"HubConnection", "Party"} {
			if need == "Party" && t.inGo(f) {
				continue
			}
			hit := false
			for _, s := range from {
				if c := callOf(s); c != nil && strings.HasSuffix(calleeName(c), ").Context") {
					ty := c.Value.Type()
					if !c.IsInvoke() && len(c.Args) > 0 {
						ty = c.Args[0].Type()
					}
					hit = hit || typeName(ty) == need || t.implements(ty, need)
				}
			}
			if !hit {
				t.r.find("message-select", name, pos, "%s takes received messages in a select that does not end with the context of the %s", name, need)
			}
		}
	}
}

// inGo: f, or a function it is nested in, is only started as a goroutine
func (t *waits) inGo(f *ssa.Function) bool {
	for ; f != nil; f = f.Parent() {
		n := 0
		for _, c := range t.calls[f] {
			if _, ok := c.(*ssa.Go); !ok {
				n = -1
				break
			}
			n++
		}
		if n > 0 {
			return true
		}
	}
	return false
}

func (t *waits) implements(ty types.Type, iface string) bool {
	n, _ := t.w.Types.Scope().Lookup(iface).(*types.TypeName)
	if n == nil {
		return false
	}
	it, ok := n.Type().Underlying().(*types.Interface)
	if !ok {
		return false
	}
	return types.Implements(ty, it) || types.Implements(types.NewPointer(ty), it)
}

func hasContext(ty types.Type) bool {
	if _, ok := ty.Underlying().(*types.Pointer); !ok {
		ty = types.NewPointer(ty)
	}
	ms := types.NewMethodSet(ty)
	for i := 0; i < ms.Len(); i++ {
		m := ms.At(i).Obj()
		if sig, ok := m.Type().(*types.Signature); ok && m.Name() == "Context" && sig.Params().Len() == 0 && sig.Results().Len() == 1 && ctxType(sig.Results().At(0).Type()) {
			return true
		}
	}
	return false
}

// contextOf: the value is the context of a value of that type (or of one embedded in it)
func (t *waits) contextOf(v ssa.Value, ty types.Type) bool {
	within := func(x types.Type) bool {
		n := typeName(x)
		if n == typeName(ty) {
			return true
		}
		if s, ok := derefType(ty).Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Embedded() && typeName(s.Field(i).Type()) == n {
					return true
				}
			}
		}
		return false
	}
	if c := callOf(v); c != nil {
		if g := c.StaticCallee(); g != nil && g.Name() == "Context" && len(c.Args) > 0 {
			return within(c.Args[0].Type())
		}
		return c.IsInvoke() && c.Method.Name() == "Context" && within(c.Value.Type())
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return within(fa.X.Type())
		}
	}
	return false
}

// ---- what happens after the end of a context was seen

// ctxKey names a context: two calls that give the context of the same value are the same.
func ctxKey(c *eng.Term) string {
	if c == nil {
		return "?"
	}
	if c.Call != nil && c.Call.Recv != nil {
		return fmt.Sprintf("%s:%d", c.Call.Name, c.Call.Recv.ID)
	}
	if c.Call != nil && len(c.Call.Args) > 0 {
		return fmt.Sprintf("%s:%d", c.Call.Name, c.Call.Args[0].ID)
	}
	return fmt.Sprint(c.ID)
}

func doneCtx(ch *eng.Term) *eng.Term {
	if ch != nil && isCallTo(ch, "(context.Context).Done") {
		return ch.Call.Recv
	}
	return nil
}

func (t *waits) after() {
	roots := map[*ssa.Function]bool{}
	var order []*ssa.Function
	for _, f := range t.w.Sort {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if _, ok := i.(*ssa.Select); ok && !roots[outer(f)] && outer(f).Synthetic == "" {
					roots[outer(f)] = true
					order = append(order, outer(f))
				}
			}
		}
	}
	for _, f := range order {
		t.afterIn(f)
	}
}

func (t *waits) afterIn(root *ssa.Function) {
	w, r := t.w, t.r
	name := eng.FnName(root)
	seen := sites{}
	report := func(st *eng.State, rule, construct string, pos token.Pos, format string, a ...any) {
		if t.only == "" || t.only == rule {
			st.Report(rule, construct, pos, format, a...)
		}
	}
	frame := func(st *eng.State) string { return fmt.Sprintf("%d.%d", st.GoID(), st.Depth()) }
	errField := func(ty types.Type) int {
		if types.Identical(ty, errType) {
			return -1
		}
		if s, ok := ty.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if types.Identical(s.Field(i).Type(), errType) {
					return i
				}
			}
		}
		return -2
	}
	isErr := func(st *eng.State, v *eng.Term) bool {
		if v == nil {
			return false
		}
		if nil_, known := isNilTerm(st, v); known {
			return !nil_
		}
		if c := core(v); errMade(c) || c.Call != nil && c.Call.Name == "(context.Context).Err" && st.GetInt("over:"+ctxKey(c.Call.Recv)) > 0 || c.Call != nil && c.Call.Name == "context.Cause" && len(c.Call.Args) > 0 && st.GetInt("over:"+ctxKey(c.Call.Args[0])) > 0 {
			return true
		}
		return false
	}
	sent := func(st *eng.State, ch, v *eng.Term) {
		el := chanElem(ch)
		if el == nil {
			return
		}
		i := errField(el)
		if i == -2 {
			return
		}
		e := v
		if i >= 0 {
			s, _ := el.Underlying().(*types.Struct)
			e = st.E.Field(v, i, s.Field(i).Type())
			if v.Kind == eng.KStruct && i < len(v.Args) {
				e = v.Args[i]
			}
		}
		if isErr(st, e) {
			st.SetInt(fmt.Sprintf("told:%d", ch.ID), 1)
		}
	}
	cl := &client{}
	cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		if c.Builtin != "" || c.Go {
			return eng.Decision{}
		}
		if c.Name == "(context.Context).Err" && st.GetInt("over:"+ctxKey(c.Recv)) > 0 {
			return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Do: func(st *eng.State, rs []*eng.Term) {
				if len(rs) == 1 {
					st.Assume(st.E.Eq(rs[0], st.E.Nil()), false)
				}
			}}}}
		}
		if c.Fn != nil && w.Home(c.Fn) {
			if c.Fn.Parent() != nil || len(c.Bind) > 0 {
				return eng.Decision{}
			}
			for _, a := range c.Args {
				if el := chanElem(eng.StripIface(a)); el != nil {
					return eng.Decision{}
				}
			}
			return opaque
		}
		return eng.Decision{}
	}
	cl.event = func(st *eng.State, ev *eng.Event) {
		switch ev.Kind {
		case eng.EvSelect:
			// a context that is over is not overlooked by a select with default case
			ready := false
			for _, v := range ev.Vals {
				if c := doneCtx(v); c != nil && st.GetInt("over:"+ctxKey(c)) > 0 {
					ready = true
				}
			}
			fr := frame(st)
			key := fmt.Sprintf("chose:%s:%s", fr, fmt.Sprint(ev.Sel.Pos()))
			if ready {
				if ev.Case < 0 {
					st.Kill()
					return
				}
				if st.GetInt(key) > 0 && doneCtx(ev.Addr) != nil {
					report(st, "again", name, ev.Sel.Pos(), "%s waits again after it has seen the end of the context", name)
					st.Kill()
					return
				}
				for k := range st.A {
					if strings.HasPrefix(k, "chose:"+fr+":") {
						st.Del(k)
					}
				}
			}
			if ev.Case >= 0 && ev.SendOK && ev.Val != nil && ev.Sel.States[ev.Case].Dir == types.SendOnly {
				sent(st, ev.Addr, ev.Val)
			}
			if c := doneCtx(ev.Addr); c != nil && ev.Case >= 0 {
				seen.add(r, "ends", fmt.Sprint(ev.Sel.Pos()), name)
				st.SetInt("over:"+ctxKey(c), 1)
				st.SetInt(key, 1)
				st.SetInt("ended:"+fr, 1)
				st.SetInt(fmt.Sprintf("endedgo:%d", st.GoID()), 1)
				for k := range st.A {
					if strings.HasPrefix(k, "told:") {
						st.Del(k)
					}
				}
			}
		case eng.EvRecv:
			if c := doneCtx(ev.Addr); c != nil {
				st.SetInt("over:"+ctxKey(c), 1)
			}
		case eng.EvSend:
			sent(st, ev.Addr, ev.Val)
		case eng.EvClose:
			el := chanElem(ev.Addr)
			if el == nil || errField(el) == -2 || st.GetInt(fmt.Sprintf("endedgo:%d", st.GoID())) == 0 {
				return
			}
			seen.add(r, "closes", fmt.Sprint(ev.Instr.Pos()), name)
			if st.GetInt(fmt.Sprintf("told:%d", ev.Addr.ID)) == 0 {
				report(st, "closed-without-error", name, ev.Instr.Pos(), "%s closes a channel that carries errors after the end of the context without sending an error", name)
			}
		case eng.EvReturn:
			fr := frame(st)
			if st.GetInt("ended:"+fr) > 0 && ev.Kind2 != eng.GoF {
				fn := ev.Fn
				if fn == nil {
					fn = st.Fn()
				}
				rs := fn.Signature.Results()
				if n := rs.Len(); n > 0 && types.Identical(rs.At(n-1).Type(), errType) && len(ev.Vals) == n {
					seen.add(r, "returns", fmt.Sprint(ev.Instr.Pos()), name)
					if !isErr(st, ev.Vals[n-1]) {
						report(st, "no-error", name, ev.Instr.Pos(), "%s returns without an error although the context has ended", name)
					}
				}
			}
			for k := range st.A {
				if k == "ended:"+fr || strings.HasPrefix(k, "chose:"+fr+":") {
					st.Del(k)
				}
			}
		}
	}
	e := w.engine(cl)
	e.Run(root, nil, nil)
	r.absorb(e)
}

// ---- operations outside of a select

// apiElems are the element types of the channels that calls of the client give to the user.
func (t *waits) apiElems() []types.Type {
	out := []types.Type{errType}
	if n, _ := t.w.Types.Scope().Lookup("Client").(*types.TypeName); n != nil {
		ms := types.NewMethodSet(n.Type())
		for i := 0; i < ms.Len(); i++ {
			if sig, ok := ms.At(i).Obj().Type().(*types.Signature); ok {
				for j := 0; j < sig.Results().Len(); j++ {
					if c, ok := sig.Results().At(j).Type().Underlying().(*types.Chan); ok {
						out = append(out, c.Elem())
					}
				}
			}
		}
	}
	return out
}

// conns: names of the calls that read or write a connection
func blockingIO(c *ssa.CallCommon) bool {
	n := calleeName(c)
	switch n {
	case "(hubProtocol).WriteMessage", "(hubProtocol).ParseMessages",
		"(Connection).Read", "(Connection).Write", "(net.Conn).Read", "(net.Conn).Write",
		"(io.Reader).Read", "(io.Writer).Write", "(io.PipeReader).Read", "(io.PipeWriter).Write":
		return true
	}
	return (strings.HasPrefix(n, "(github.com/coder/websocket.Conn).") || strings.HasPrefix(n, "(github.com/quic-go/webtransport-go.Stream).")) &&
		(strings.HasSuffix(n, ".Read") || strings.HasSuffix(n, ".Write") || strings.HasSuffix(n, ".Reader") || strings.HasSuffix(n, ".Writer"))
}

func (t *waits) plain() {
	api := t.apiElems()
	isAPI := func(el types.Type) bool {
		for _, a := range api {
			if types.Identical(a, el) {
				return true
			}
		}
		return false
	}
	io := t.w.reaching(func(i ssa.Instruction) bool {
		c, ok := i.(ssa.CallInstruction)
		return ok && blockingIO(c.Common())
	})
	e := t.w.engine(&client{})
	for _, f := range t.w.Sort {
		if f.Synthetic != "" {
			continue
		}
		name := fname(f)
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var ch ssa.Value
				send := false
				switch x := i.(type) {
				case *ssa.Call:
					if calleeName(x.Common()) == "time.Sleep" && !constArg(x.Common()) {
						t.r.find("sleep", name, i.Pos(), "%s lets a configured time pass outside of a select, so it does not end with its context", name)
					}
				case *ssa.Send:
					ch, send = x.Chan, true
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						ch = x.X
					}
				}
				if ch == nil {
					continue
				}
				c, ok := ch.Type().Underlying().(*types.Chan)
				if !ok {
					continue
				}
				t.r.inst("plain", 1)
				src := t.sources(ch, true, false)
				made := len(src) > 0
				waits := len(src) > 0
				for _, s := range src {
					if _, ok := s.(*ssa.MakeChan); !ok {
						made = false
					}
					if doneOf(s) == nil && !limit(s) {
						waits = false
					}
				}
				if waits {
					for _, s := range src {
						if cc := callOf(s); cc != nil && calleeName(cc) == "time.After" && !constArg(cc) {
							t.r.find("sleep", name, i.Pos(), "%s lets a configured time pass outside of a select, so it does not end with its context", name)
						}
					}
					continue
				}
				if send {
					if isAPI(c.Elem()) {
						continue
					}
					if e.InLoop(b) {
						t.r.find("send", name, i.Pos(), "%s sends again and again outside of a select, so it does not end with its context when nobody receives", name)
					} else if !made && !t.inGo(f) {
						t.r.find("send", name, i.Pos(), "%s sends outside of a select to a channel somebody else holds, so it does not end with its context", name)
					}
					continue
				}
				if !made {
					if !isAPI(c.Elem()) {
						t.r.find("receive", name, i.Pos(), "%s receives outside of a select from a channel somebody else holds, so it does not end with its context", name)
					}
					continue
				}
				for _, s := range src {
					if g := t.feeder(s.(*ssa.MakeChan), io); g != nil {
						t.r.find("receive", name, i.Pos(), "%s waits outside of a select for a goroutine that reads or writes a connection, so it does not end with its context", name)
					}
				}
			}
		}
	}
}

func constArg(c *ssa.CallCommon) bool {
	if len(c.Args) == 0 {
		return false
	}
	_, ok := c.Args[0].(*ssa.Const)
	return ok
}

// feeder is a goroutine that sends to the channel and reads or writes a connection, or calls a function it was given.
func (t *waits) feeder(m *ssa.MakeChan, io map[*ssa.Function]bool) *ssa.Function {
	for _, f := range t.w.Sort {
		if !t.inGo(f) {
			continue
		}
		busy := io[f]
		for _, c := range callsIn(f) {
			if c.Common().StaticCallee() == nil && !c.Common().IsInvoke() {
				for _, s := range t.sources(c.Common().Value, false, false) {
					if _, ok := s.(*ssa.Parameter); ok {
						busy = true
					}
				}
			}
		}
		if !busy {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var ch ssa.Value
				switch x := i.(type) {
				case *ssa.Send:
					ch = x.Chan
				case ssa.CallInstruction:
					if calleeName(x.Common()) == "builtin.close" {
						ch = x.Common().Args[0]
					}
				}
				if ch == nil {
					continue
				}
				for _, s := range t.sources(ch, true, false) {
					if s == ssa.Value(m) {
						return f
					}
				}
			}
		}
	}
	return nil
}

// ---- reading and writing connections

// async decides that connections are read and written in goroutines of their own.
func (t *waits) async() {
	conn, _ := t.w.Types.Scope().Lookup("Connection").(*types.TypeName)
	if !t.r.need(conn != nil, t.id, "Connection") {
		return
	}
	// functions whose parameter i is called in a goroutine they start
	runs := func(f *ssa.Function, i int) bool {
		if f == nil || i >= len(f.Params) {
			return false
		}
		t.stop = f.Params[i]
		defer func() { t.stop = nil }()
		is := func(v ssa.Value) bool {
			for _, s := range t.sources(v, true, false) {
				if s == ssa.Value(f.Params[i]) {
					return true
				}
			}
			return false
		}
		seen := map[*ssa.Function]bool{}
		var look func(g *ssa.Function, async bool) bool
		look = func(g *ssa.Function, async bool) bool {
			if g == nil || !t.w.Home(g) || async && seen[g] {
				return false
			}
			if async {
				seen[g] = true
			}
			for _, c := range callsIn(g) {
				_, isGo := c.(*ssa.Go)
				h := c.Common().StaticCallee()
				if h == nil {
					if (isGo || async) && !c.Common().IsInvoke() && is(c.Common().Value) {
						return true
					}
					continue
				}
				if (isGo || async) && look(h, true) {
					return true
				}
			}
			return false
		}
		return look(f, false)
	}
	// isAsync: all uses of f run it in a goroutine of its own
	memo := map[*ssa.Function]int{}
	var isAsync func(f *ssa.Function) bool
	isAsync = func(f *ssa.Function) bool {
		switch memo[f] {
		case 1:
			return true
		case 2:
			return false
		}
		memo[f] = 2
		if rc := f.Signature.Recv(); rc != nil && hasContext(rc.Type()) {
			// it should end with this context, whoever calls it
			cs := t.calls[f]
			for _, c := range cs {
				if _, isGo := c.(*ssa.Go); !isGo && !t.inGo(c.Parent()) {
					return false
				}
			}
			if len(cs) > 0 {
				memo[f] = 1
			}
			return len(cs) > 0
		}
		uses, ok := 0, true
		for _, u := range t.w.Sort {
			for _, b := range u.Blocks {
				for _, i := range b.Instrs {
					c, isCall := i.(ssa.CallInstruction)
					for _, op := range i.Operands(nil) {
						v := *op
						mc, isClosure := v.(*ssa.MakeClosure)
						if v != ssa.Value(f) && !(isClosure && mc.Fn == f) {
							continue
						}
						if _, isMake := i.(*ssa.MakeClosure); isMake {
							continue
						}
						uses++
						if !isCall {
							ok = false
							continue
						}
						if c.Common().StaticCallee() == f {
							if _, isGo := i.(*ssa.Go); !isGo && !isAsync(u) {
								ok = false
							}
							continue
						}
						g := c.Common().StaticCallee()
						in := false
						for j, a := range c.Common().Args {
							in = in || a == v && runs(g, j)
						}
						ok = ok && (in || isAsync(u))
					}
				}
			}
		}
		ok = ok && uses > 0
		if ok {
			memo[f] = 1
		}
		return ok
	}
	proto := map[*ssa.Function]bool{}
	var mark func(f *ssa.Function)
	mark = func(f *ssa.Function) {
		if f == nil || proto[f] || !t.w.Home(f) {
			return
		}
		proto[f] = true
		for _, c := range callsIn(f) {
			mark(c.Common().StaticCallee())
		}
		for _, g := range f.AnonFuncs {
			mark(g)
		}
	}
	for _, f := range t.w.Sort {
		if rc := f.Signature.Recv(); rc != nil && f.Parent() == nil && t.implements(rc.Type(), "hubProtocol") {
			mark(f)
		}
	}
	cg, _ := conn.Type().Underlying().(*types.Interface)
	io := t.w.reaching(func(i ssa.Instruction) bool {
		c, ok := i.(ssa.CallInstruction)
		return ok && blockingIO(c.Common())
	})
	n := 0
	for _, f := range t.w.Sort {
		if f.Synthetic != "" || proto[f] {
			continue
		}
		name := fname(f)
		o := outer(f)
		for _, c := range callsIn(f) {
			// what unblocks an operation does not block
			if g := c.Common().StaticCallee(); g != nil && t.w.Home(g) {
				for j, a := range c.Common().Args {
					if j >= len(g.Params) {
						continue
					}
					if _, ok := a.Type().Underlying().(*types.Signature); !ok || runs(g, j) || !t.runsAny(g, runs) {
						continue
					}
					u, _ := a.(*ssa.Function)
					if mc, ok := a.(*ssa.MakeClosure); ok {
						u, _ = mc.Fn.(*ssa.Function)
					}
					if u == nil {
						continue
					}
					t.r.inst("unblock", 1)
					if io[u] || blocksOnChan(u) {
						t.r.find("unblock", name, u.Pos(), "%s unblocks an operation with a function that may block itself", name)
					}
				}
			}
			if !blockingIO(c.Common()) {
				continue
			}
			if !t.onConn(c.Common(), cg) {
				continue
			}
			if t.closing(c.Common()) {
				continue
			}
			if rc := o.Signature.Recv(); rc != nil && f.Parent() == nil && t.implements(rc.Type(), "Connection") && c.Common().IsInvoke() && c.Common().Method.Name() == f.Name() && types.Implements(c.Common().Value.Type(), cg) {
				continue // a connection that wraps another one
			}
			n++
			t.r.inst("io", 1)
			if _, ok := c.(*ssa.Go); ok || isAsync(f) {
				continue
			}
			if rc := o.Signature.Recv(); rc != nil && t.implements(rc.Type(), "Connection") && t.endless(rc.Type()) {
				continue // a connection whose context never ends
			}
			t.r.find("io", name, c.Pos(), "%s reads or writes a connection itself, so it does not end with its context", name)
		}
	}
	t.r.need(n > 0, t.id, "reads and writes of connections")
}

func (t *waits) runsAny(g *ssa.Function, runs func(*ssa.Function, int) bool) bool {
	for i := range g.Params {
		if runs(g, i) {
			return true
		}
	}
	return false
}

func blocksOnChan(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Send:
				return true
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return true
				}
			case *ssa.Select:
				if x.Blocking {
					return true
				}
			}
		}
	}
	return false
}

// onConn: the call reads or writes something that is used as a connection, or what a connection wraps. Writing to a
// pipe is left to the rule for pipes.
func (t *waits) onConn(c *ssa.CallCommon, conn *types.Interface) bool {
	n := calleeName(c)
	if strings.HasPrefix(n, "(hubProtocol)") || strings.HasPrefix(n, "(Connection)") || strings.HasPrefix(n, "(net.Conn)") || strings.HasPrefix(n, "(github.com/") {
		return true
	}
	v := c.Value
	if !c.IsInvoke() && len(c.Args) > 0 {
		v = c.Args[0]
	}
	for _, s := range t.sources(v, true, false) {
		if types.Implements(s.Type(), conn) {
			return true
		}
		if u, ok := s.(*ssa.UnOp); ok {
			if fa, ok := u.X.(*ssa.FieldAddr); ok && t.implements(fa.X.Type(), "Connection") {
				return !(strings.HasSuffix(n, ".Write") && t.pipeField(fieldVarOfSSA(fa)))
			}
		}
	}
	return false
}

// pipeField: the field holds an end of a pipe
func (t *waits) pipeField(v *types.Var) bool {
	for _, f := range t.w.Sort {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || fieldVarOfSSA(fa) != v {
					continue
				}
				for _, x := range t.sources(s.Val, true, false) {
					if c := callOf(x); c != nil && calleeName(c) == "io.Pipe" {
						return true
					}
				}
			}
		}
	}
	return false
}

// endless: connections of that type are made with a context that never ends
func (t *waits) endless(ty types.Type) bool {
	for _, f := range t.w.Sort {
		makes, bg := false, false
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if a, ok := i.(*ssa.Alloc); ok && typeName(a.Type()) == typeName(ty) && typeName(ty) != "" {
					makes = true
				}
			}
		}
		for _, c := range callsIn(f) {
			bg = bg || calleeName(c.Common()) == "context.Background"
		}
		if makes && bg {
			return true
		}
	}
	return false
}

// closing: the close message is the last one, it is written after the connection is given up
func (t *waits) closing(c *ssa.CallCommon) bool {
	if calleeName(c) != "(hubProtocol).WriteMessage" || len(c.Args) == 0 {
		return false
	}
	for _, s := range t.sources(c.Args[0], true, false) {
		if typeName(s.Type()) != "closeMessage" {
			return false
		}
	}
	return true
}

// ---- pipes

func (t *waits) pipes() {
	n := 0
	for _, f := range t.w.Sort {
		for _, c := range callsIn(f) {
			if calleeName(c.Common()) != "io.Pipe" {
				continue
			}
			n++
			t.r.inst("pipe", 1)
			if !t.pipeClosed(f, c.Value()) {
				t.r.find("pipe", fname(f), c.Pos(), "%s makes a pipe that no goroutine closes when the context or the source ends, so a reader or writer of it can wait forever", fname(f))
			}
		}
	}
	t.r.need(n > 0, t.id, "pipes")
}

// pipeClosed: a goroutine of the maker closes an end of the pipe on all its ways to the end.
func (t *waits) pipeClosed(f *ssa.Function, pipe ssa.Value) bool {
	var all []*ssa.Function
	var collect func(g *ssa.Function)
	collect = func(g *ssa.Function) {
		all = append(all, g)
		for _, a := range g.AnonFuncs {
			collect(a)
		}
	}
	collect(outer(f))
	for _, g := range all {
		for _, c := range callsIn(g) {
			if h := c.Common().StaticCallee(); h != nil && t.w.Home(h) && t.inGo(h) && h.Parent() == nil {
				all = append(all, h)
			}
		}
	}
	for _, g := range all {
		if !t.inGo(g) {
			continue
		}
		for _, c := range callsIn(g) {
			n := calleeName(c.Common())
			if !strings.HasPrefix(n, "(io.PipeWriter).Close") && !strings.HasPrefix(n, "(io.PipeReader).Close") {
				continue
			}
			for _, s := range t.sources(c.Common().Args[0], true, false) {
				if x, ok := s.(*ssa.Extract); ok && x.Tuple == pipe {
					return true
				}
				// the field of the connection that holds it
				if u, ok := s.(*ssa.UnOp); ok {
					if fa, ok := u.X.(*ssa.FieldAddr); ok && t.pipeField(fieldVarOfSSA(fa)) {
						return true
					}
				}
			}
		}
	}
	return false
}

// ---- http handlers

// served decides that the context made for a connection is cancelled when a goroutine has served it to its end.
func (t *waits) served() {
	w, r := t.w, t.r
	serve := func(c *ssa.CallCommon) bool { return strings.HasSuffix(calleeName(c), "(Server).Serve") }
	reach := w.reaching(func(i ssa.Instruction) bool {
		c, ok := i.(ssa.CallInstruction)
		return ok && serve(c.Common())
	})
	n := 0
	for _, f := range w.Sort {
		if f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		starts := false
		for _, g := range f.AnonFuncs {
			starts = starts || t.inGo(g) && reach[g]
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if g, ok := i.(*ssa.Go); ok && g.Common().StaticCallee() != nil && reach[g.Common().StaticCallee()] {
					starts = true
				}
			}
		}
		if !starts {
			continue
		}
		n++
		name := eng.FnName(f)
		cl := &client{}
		cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
			if c.Builtin != "" || c.Go {
				return eng.Decision{}
			}
			if strings.HasSuffix(c.Name, "(Server).Serve") {
				return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{KeepArgs: true, Do: func(st *eng.State, rs []*eng.Term) {
					if st.GoDepth() > 0 {
						st.SetInt(fmt.Sprintf("served:%d", st.GoID()), 1)
					}
				}}}}
			}
			if c.Fn == nil && !c.Invoke && c.FnTerm != nil {
				if t := core(c.FnTerm); t.Call != nil && (strings.HasPrefix(t.Call.Name, "context.With") || strings.HasSuffix(t.Call.Name, "onecontext.Merge")) {
					st.SetInt(fmt.Sprintf("cancelled:%d", st.GoID()), 1)
				}
				return eng.Decision{}
			}
			if c.Fn != nil && w.Home(c.Fn) && !reach[c.Fn] && c.Fn.Parent() == nil && len(c.Bind) == 0 {
				return opaque
			}
			return eng.Decision{}
		}
		cl.event = func(st *eng.State, ev *eng.Event) {
			if ev.Kind == eng.EvReturn && ev.Kind2 == eng.GoF {
				id := st.GoID()
				if st.GetInt(fmt.Sprintf("served:%d", id)) > 0 {
					r.inst("served", 1)
					if st.GetInt(fmt.Sprintf("cancelled:%d", id)) == 0 {
						st.Report("served", name, ev.Instr.Pos(), "%s serves a connection in a goroutine and does not cancel its context afterwards", name)
					}
				}
			}
		}
		e := w.engine(cl)
		e.Run(f, nil, nil)
		r.absorb(e)
	}
	r.need(n > 0, t.id, "http handlers that serve a connection in a goroutine")
}

// ---- which context is passed on

func (t *waits) given() {
	n := 0
	for _, f := range t.w.Sort {
		if f.Synthetic != "" {
			continue
		}
		o := outer(f)
		name := fname(f)
		recv := o.Signature.Recv()
		var own []ssa.Value
		isHandler := false
		for _, p := range o.Params {
			if ctxType(p.Type()) {
				own = append(own, p)
			}
			isHandler = isHandler || strings.HasSuffix(types.TypeString(p.Type(), nil), "net/http.Request")
		}
		for _, c := range callsIn(f) {
			cn := calleeName(c.Common())
			g := c.Common().StaticCallee()
			if g != nil && g.Parent() != nil {
				continue
			}
			for _, a := range c.Common().Args {
				if !ctxType(a.Type()) {
					continue
				}
				if g != nil && g.Signature.Recv() != nil && len(c.Common().Args) > 0 && a == c.Common().Args[0] {
					continue
				}
				from := t.sources(a, false, true)
				n++
				t.r.inst("given", 1)
				bg := len(from) > 0
				mine := false
				server, request := false, false
				for _, s := range from {
					cc := callOf(s)
					sn := ""
					if cc != nil {
						sn = calleeName(cc)
					}
					bg = bg && (sn == "context.Background" || sn == "context.TODO" || sn == "context.WithoutCancel")
					for _, p := range own {
						mine = mine || s == p
					}
					mine = mine || recv != nil && t.contextOf(s, recv.Type())
					if cc != nil && strings.HasSuffix(sn, ").Context") {
						ty := cc.Value.Type()
						if !cc.IsInvoke() && len(cc.Args) > 0 {
							ty = cc.Args[0].Type()
						}
						server = server || t.implements(ty, "Server")
						request = request || strings.HasSuffix(types.TypeString(ty, nil), "net/http.Request")
					}
				}
				derives := strings.HasPrefix(cn, "context.") || strings.HasSuffix(cn, "onecontext.Merge")
				switch {
				case derives && cn != "context.WithValue":
					if bg {
						t.r.find("background", name, c.Pos(), "%s derives a context from one that never ends", name)
					}
				case derives:
				case g != nil && g.Signature.Recv() != nil && hasContext(g.Signature.Recv().Type()):
					// it has its own context besides
				case recv != nil && hasContext(recv.Type()):
					if !mine {
						t.r.find("given", name, c.Pos(), "%s does not pass the context of its %s to %s", name, typeName(recv.Type()), cn)
					}
				case isHandler && t.makesConn(c.Common()):
					if !server || !request {
						t.r.find("handler", name, c.Pos(), "the context of the connection which %s makes does not end with the server and with the request", name)
					}
				case len(own) == 0 && bg:
					t.r.find("background", name, c.Pos(), "%s passes a context that never ends to %s", name, cn)
				}
			}
		}
	}
	t.r.need(n > 0, t.id, "contexts that are passed on")
}

func (t *waits) makesConn(c *ssa.CallCommon) bool {
	rs := c.Signature().Results()
	for i := 0; i < rs.Len(); i++ {
		if t.implements(rs.At(i).Type(), "Connection") {
			return true
		}
	}
	return false
}

// unblocked decides that a wrapped net connection does not keep a goroutine blocked after the context has ended.
func (t *waits) unblocked() {
	ends := func(c ssa.CallInstruction, dir string) bool {
		n := calleeName(c.Common())
		return n == "(net.Conn).Close" || n == "(net.Conn).SetDeadline" || n == "(net.Conn).Set"+dir+"Deadline"
	}
	for _, f := range t.w.Sort {
		rc := f.Signature.Recv()
		if rc == nil || f.Parent() != nil || f.Synthetic != "" || !t.implements(rc.Type(), "Connection") || f.Name() != "Read" && f.Name() != "Write" {
			continue
		}
		uses, ok := false, false
		var look func(g *ssa.Function)
		look = func(g *ssa.Function) {
			for _, c := range callsIn(g) {
				uses = uses || calleeName(c.Common()) == "(net.Conn)."+f.Name()
				ok = ok || ends(c, f.Name())
			}
			for _, a := range g.AnonFuncs {
				look(a)
			}
		}
		look(f)
		if !uses {
			continue
		}
		t.r.inst("unblocked", 1)
		// a goroutine of its maker may do it
		for _, g := range t.w.Sort {
			if !t.inGo(g) {
				continue
			}
			makes := false
			for _, b := range outer(g).Blocks {
				for _, i := range b.Instrs {
					if a, k := i.(*ssa.Alloc); k && typeName(a.Type()) == typeName(rc.Type()) {
						makes = true
					}
				}
			}
			if !makes {
				continue
			}
			for _, c := range callsIn(g) {
				ok = ok || ends(c, f.Name())
			}
		}
		if !ok {
			t.r.find("unblocked", eng.FnName(f), f.Pos(), "nothing ends a blocked %s of the connection that %s wraps when the context ends", f.Name(), typeName(rc.Type()))
		}
	}
}

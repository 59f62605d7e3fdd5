package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

func checkC18(w *World, r *Report) {
	r.rule("InvokeAll visits every registered connection, InvokeGroup every member of the given group, InvokeClient the one registered under the given id; for each visited connection exactly one goroutine is started that sends exactly once, with an empty invocation id and the given target and arguments; a list of the connections that is visited belongs to this one call; nothing is sent by the caller's own goroutine, and no visit ends early")
	r.rule("proxies: what HubClients, HubContext, Hub and Server give out sends through the lifetime manager of the server, after its options were applied, with target, arguments, connection id and group unchanged; Caller is the connection of the hub")
	r.rule("the group manager passes group and connection id to the lifetime manager unchanged")
	r.rule("a connection sends the invocation it is told to: id, target and arguments unchanged")
	g := w.groupStore(r, "C18")
	if g == nil {
		return
	}
	for _, n := range []string{"InvokeAll", "InvokeClient", "InvokeGroup"} {
		w.checkInvoke(r, g, n)
	}
	w.checkProxies(r)
	w.checkSendInvocation(r)
}

const sendName = "(HubConnection).SendInvocation"

// stepsByOne: v counts 0, 1, 2, ... in a loop.
func stepsByOne(v ssa.Value) bool {
	inc := func(x ssa.Value, phi *ssa.Phi) bool {
		b, ok := x.(*ssa.BinOp)
		if !ok || b.Op != token.ADD {
			return false
		}
		c, ok := b.Y.(*ssa.Const)
		return ok && b.X == phi && c.Value != nil && c.Int64() == 1
	}
	phi, start := (*ssa.Phi)(nil), int64(0)
	switch x := v.(type) {
	case *ssa.Phi:
		phi = x
	case *ssa.BinOp:
		p, ok := x.X.(*ssa.Phi)
		if !ok || !inc(x, p) {
			return false
		}
		phi, start = p, -1
	default:
		return false
	}
	init := false
	for _, e := range phi.Edges {
		if c, ok := e.(*ssa.Const); ok && c.Value != nil && c.Int64() == start {
			init = true
		} else if !inc(e, phi) {
			return false
		}
	}
	return init
}

func (w *World) checkInvoke(r *Report, g *groupStore, method string) {
	fn := g.fn[method]
	name := eng.FnName(fn)
	np := len(fn.Params)
	param := func(st *eng.State, i int) *eng.Term { return st.E.Param(fn.Params[i].Name(), fn.Params[i].Type()) }
	sends := 0
	// state: cur (curkey, idx) is the connection visited now, n what was done for it, depth where it is visited
	done := func(st *eng.State, what string, pos token.Pos) {
		if st.GetInt("visiting") == 0 {
			return
		}
		switch n := st.GetInt("n"); {
		case n == 0:
			st.Report("not-addressed", name, pos, "%s may send nothing to a connection (%s)", name, what)
		case n > 1:
			st.Report("sent-twice", name, pos, "%s may send to a connection more than once", name)
		}
		for _, k := range []string{"visiting", "cur", "curkey", "idx", "n"} {
			st.Del(k)
		}
	}
	visit := func(st *eng.State) {
		st.SetInt("visiting", 1)
		st.SetInt("n", 0)
		st.SetInt("depth", int64(st.GoDepth()))
	}
	isCur := func(st *eng.State, t *eng.Term) bool {
		if st.GetInt("visiting") == 0 {
			return false
		}
		t = core(t)
		if idx := st.Get("idx"); idx != nil {
			if v := st.Get("idxval"); v != nil && t == v {
				return true
			}
			return t.Op == "elem" && len(t.Args) == 2 && core(t.Args[1]) == idx && connSlice(t.Args[0].Ty)
		}
		cur, key := st.Get("cur"), st.Get("curkey")
		return t.Any(func(x *eng.Term) bool { return cur != nil && x == cur || key != nil && x == key })
	}
	addressed := func(st *eng.State, con *eng.Term, field *types.Var) bool {
		if method == "InvokeAll" && field == g.conns ||
			method == "InvokeGroup" && field != g.conns && field != g.groups && g.isGroup(st, con, param(st, 1)) {
			st.SetInt("addressed", 1)
			return true
		}
		st.Report("wrong-addressees", name, fn.Pos(), "%s visits something else than the addressed connections", name)
		return false
	}
	on := func(st *eng.State, c *cop) {
		switch c.kind {
		case "range":
			if addressed(st, c.con, c.field) && c.ev != nil {
				st.Set("first", c.con)
			}
		case "next":
			done(st, "the visit goes on", fn.Pos())
			st.Set("more", st.E.Bool(false))
			if c.ok != nil {
				st.Set("more", c.ok)
			}
			visit(st)
			if c.val != nil && !eng.IsNil(core(c.val)) {
				st.Set("cur", core(c.val))
			}
			if c.key != nil {
				st.Set("curkey", core(c.key))
			}
		case "get":
			if method == "InvokeGroup" && c.field == g.groups || method == "InvokeClient" && c.field == g.conns {
				if core(c.key) != param(st, 1) {
					st.Report("wrong-addressees", name, fn.Pos(), "%s looks for something else than what it was given", name)
				}
				if c.ok != nil {
					st.Set("found", c.ok)
				}
				if method == "InvokeClient" && c.val != nil && !eng.IsNil(core(c.val)) {
					visit(st)
					st.SetInt("client", 1)
					st.Set("cur", core(c.val))
				}
			}
		case "put", "del":
			if c.field == g.conns || c.field == g.groups || c.field != nil && c.con.Any(func(x *eng.Term) bool { return conField(x) == g.groups }) {
				st.Report("addressees-changed", name, fn.Pos(), "%s changes groups or the list of connections", name)
			}
		}
	}
	cl := &client{}
	cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		if c.Name == sendName {
			sends++
			r.inst("send", 1)
			pos := c.Pos()
			depth := int64(st.GoDepth())
			if c.Go {
				depth++
			}
			if depth == 0 {
				st.Report("blocking-send", name, pos, "%s sends in the goroutine of the caller: one slow connection delays it and all others", name)
			} else if st.GetInt("visiting") == 1 && depth <= st.GetInt("depth") {
				st.Report("shared-goroutine", name, pos, "%s sends to several connections in one goroutine: one slow connection delays the others", name)
			}
			if !isCur(st, c.Recv) {
				st.Report("wrong-connection", name, pos, "%s may send to another connection than the one visited (%v)", name, c.Recv)
			}
			if s, ok := eng.StrConst(core(c.Args[0])); !ok || s != "" {
				st.Report("invocation-id", name, pos, "%s sends with an invocation id: clients would answer it", name)
			}
			if core(c.Args[1]) != param(st, np-2) {
				st.Report("target-changed", name, pos, "%s sends another target than the one given", name)
			}
			if core(c.Args[2]) != param(st, np-1) {
				st.Report("arguments-changed", name, pos, "%s sends other arguments than the ones given", name)
			}
			st.SetInt("n", st.GetInt("n")+1)
			return opaque
		}
		if isLogCall(c.Name) || c.Invoke {
			return opaque
		}
		if strings.HasPrefix(c.Name, "maps.Values") && len(c.Args) == 1 {
			con := core(c.Args[0])
			return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{KeepArgs: true, Do: func(st *eng.State, rs []*eng.Term) {
				addressed(st, con, conField(con))
				st.Set("seq", core(rs[0]))
			}}}}
		}
		if strings.HasPrefix(c.Name, "slices.Collect") && len(c.Args) == 1 && st.Get("seq") != nil && core(c.Args[0]) == st.Get("seq") {
			st.SetInt("listing", 1)
			return opaque
		}
		return eng.Decision{}
	}
	list := func(st *eng.State, v *eng.Term) {
		if isCur(st, v) && st.Get("idx") == nil {
			st.SetInt("n", st.GetInt("n")+1)
			st.SetInt("listing", 1)
		}
	}
	cl.event = func(st *eng.State, ev *eng.Event) {
		switch ev.Kind {
		case eng.EvAppend:
			if connSlice(ev.Ty) {
				if v, ok := ev.Instr.(ssa.Value); ok && sharedList(v, map[ssa.Value]bool{}) {
					st.Report("shared-list", name, ev.Instr.Pos(), "%s collects the connections in a list that other broadcasts use too", name)
				}
				for _, x := range st.SliceElems(core(ev.Val)) {
					list(st, x)
				}
			}
		case eng.EvStore:
			// a list of fixed size that is filled
			if a := core(ev.Addr); a.Kind == eng.KIndexA && len(a.Args) > 0 && connSlice(a.Args[0].Ty) {
				list(st, ev.Val)
			}
		case eng.EvSlice:
			if x, ok := ev.Instr.(*ssa.Slice); ok && connSlice(x.Type()) && st.GetInt("listing") == 1 && st.GetInt("visiting") == 0 {
				st.Report("not-addressed", name, ev.Instr.Pos(), "%s addresses a part of the members only", name)
			}
		case eng.EvHeader:
			if ev.Truth && st.GetInt("client") == 0 {
				done(st, "the loop goes on", fn.Pos())
			}
		case eng.EvBranch:
			if m, con := st.Get("more"), st.Get("first"); m != nil && con != nil {
				if v, known := truth(st, m); known {
					// a map has elements if and only if its first visit finds one
					st.Assume(st.E.Eq(st.E.App("len", types.Typ[types.Int], con), st.E.Int(0)), !v)
					st.Del("first")
				}
			}
			// the loop over the list
			if ev.Cond.Any(func(x *eng.Term) bool { return x.Op == "len" && connSlice(x.Args[0].Ty) }) {
				st.SetInt("exhausted", 1+b2i(!ev.Truth))
			}
		case eng.EvIndex:
			ia, ok := ev.Instr.(*ssa.IndexAddr)
			if !ok || !connSlice(ia.X.Type()) || st.GetInt("listing") != 1 || onlyStored(ia) {
				return
			}
			st.SetInt("sent", 1)
			if m := st.Get("more"); m != nil && st.Get("idx") == nil && st.GetInt("n") == 0 {
				if v, known := truth(st, m); known && !v {
					st.Del("visiting") // the visit that made the list has ended
				}
			}
			if st.GetInt("visiting") == 1 && (st.Get("idx") == nil || st.Get("idx") == core(ev.Key)) {
				return
			}
			visit(st)
			st.Set("idx", core(ev.Key))
			st.Del("idxval")
			if v := st.PeekIndex(ev.Addr, ev.Key, ia.X.Type().Underlying().(*types.Slice).Elem()); v != nil {
				st.Set("idxval", core(v))
			}
			if !stepsByOne(ia.Index) {
				st.Report("not-addressed", name, ev.Instr.Pos(), "%s may skip members of the list", name)
			}
		case eng.EvReturn:
			if ev.Kind2 == eng.CbF {
				done(st, "the visitor returns", ev.Instr.Pos())
				if v, ok := eng.BoolConst(core(ev.Vals[0])); !ok || !v {
					st.Report("visit-stops", name, ev.Instr.Pos(), "%s may stop visiting the connections", name)
				}
			}
		case eng.EvEnd:
			r.inst("broadcast-path", 1)
			if m := st.Get("more"); m != nil {
				if v, known := truth(st, m); !known || v {
					st.Report("visit-stops", name, ev.Instr.Pos(), "%s may stop visiting the connections", name)
				} else if st.GetInt("client") == 0 && st.GetInt("n") == 0 && st.Get("idx") == nil {
					st.Del("visiting") // the visit has ended
				}
			}
			if x := st.GetInt("exhausted"); st.GetInt("listing") == 1 && x == 1 {
				st.Report("visit-stops", name, ev.Instr.Pos(), "%s may not send to all members of the list", name)
			} else if st.GetInt("listing") == 1 && x == 0 && st.GetInt("sent") == 0 {
				st.Report("not-addressed", name, ev.Instr.Pos(), "%s collects connections but does not send to them", name)
			}
			done(st, "it returns", ev.Instr.Pos())
			if f := st.Get("found"); f != nil {
				if v, known := truth(st, f); known && !v {
					return
				}
			}
			if method != "InvokeClient" && st.GetInt("addressed") == 0 || method == "InvokeClient" && st.GetInt("client") == 0 {
				st.Report("not-addressed", name, ev.Instr.Pos(), "%s may return without having looked at the addressed connections", name)
			}
		}
	}
	e := w.engine(containers(on, cl))
	e.Run(fn, nil, nil)
	r.absorb(e)
	r.need(sends > 0, "C18", "where "+name+" sends")
}

// sharedList: the list appended to is kept in a field or a global, where other goroutines find it too.
func sharedList(v ssa.Value, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Call:
		return calleeName(x.Common()) == "builtin.append" && len(x.Call.Args) > 0 && sharedList(x.Call.Args[0], seen)
	case *ssa.Slice:
		return sharedList(x.X, seen)
	case *ssa.ChangeType:
		return sharedList(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if sharedList(e, seen) {
				return true
			}
		}
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			_, local := a.X.(*ssa.Alloc)
			return !local
		case *ssa.Global:
			return true
		}
	}
	return false
}

// onlyStored: the element is only written.
func onlyStored(ia *ssa.IndexAddr) bool {
	for _, u := range *ia.Referrers() {
		if s, ok := u.(*ssa.Store); !ok || s.Addr != ia {
			return false
		}
	}
	return true
}

func isSliceType(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func connSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && namedIs(s.Elem(), "HubConnection")
}

// chain explores a method of what the run before returned, and so on.
type chain struct {
	w    *World
	e    *eng.Engine
	ends []chainEnd
	sent []chainSent
}

type chainEnd struct {
	st *eng.State
	vs []*eng.Term
}

type chainSent struct {
	name string
	recv *eng.Term
	args []*eng.Term
	pos  token.Pos
}

func (w *World) chain(note string) *chain {
	ch := &chain{w: w}
	cl := &client{}
	cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		if strings.HasPrefix(c.Name, note) {
			n := st.GetInt("sent") + 1
			st.SetInt("sent", n)
			st.SetInt("sentat", int64(len(ch.sent)))
			ch.sent = append(ch.sent, chainSent{strings.TrimPrefix(c.Name, note), c.Recv, c.UserArgs(), c.Pos()})
			return opaque
		}
		if isLogCall(c.Name) {
			return opaque
		}
		return eng.Decision{}
	}
	cl.event = func(st *eng.State, ev *eng.Event) {
		if ev.Kind == eng.EvEnd {
			ch.ends = append(ch.ends, chainEnd{st, ev.Vals})
		}
	}
	ch.e = w.engine(cl)
	return ch
}

func (ch *chain) start(fn *ssa.Function, params []*eng.Term) []chainEnd {
	ch.ends = nil
	ch.e.Run(fn, params, nil)
	return ch.ends
}

// then explores the method of the value returned first; iface names its interface.
func (ch *chain) then(from []chainEnd, iface, method string, args ...*eng.Term) []chainEnd {
	ch.ends = nil
	for _, x := range from {
		if len(x.vs) == 0 {
			continue
		}
		v := eng.StripConv(x.vs[0])
		var ts []types.Type
		if v.Kind == eng.KIface {
			v = v.Args[0]
			ts = []types.Type{v.Ty}
		} else if types.IsInterface(v.Ty) {
			if eng.IsNil(v) {
				continue
			}
			ts = ch.w.implsOf(iface)
		} else {
			ts = []types.Type{v.Ty}
		}
		for _, t := range ts {
			m := ch.w.Prog.LookupMethod(t, ch.w.Types, method)
			if m == nil || len(m.Blocks) == 0 {
				continue
			}
			recv := v
			if types.IsInterface(v.Ty) {
				recv = ch.e.App("assert:"+t.String(), t, v)
			}
			ch.e.RunFrom(x.st.Copy(), m, append([]*eng.Term{recv}, args...), nil, nil)
		}
	}
	return ch.ends
}

func (w *World) checkProxies(r *Report) {
	str := types.Typ[types.String]
	ch := w.chain("(HubLifetimeManager).")
	e := ch.e
	target, id, group := e.Param("target", str), e.Param("someID", str), e.Param("someGroup", str)
	args := e.Param("args", types.NewSlice(types.NewInterfaceType(nil, nil)))
	expect := func(what string, ends []chainEnd, pos token.Pos, method string, want ...func(t *eng.Term) bool) []chainSent {
		if !r.need(len(ends) > 0, "C18", what) {
			return nil
		}
		var out []chainSent
		for _, x := range ends {
			r.inst("proxy-path", 1)
			if x.st.GetInt("sent") != 1 {
				r.find("proxy-count", what, pos, "%s passes the call on %d times", what, x.st.GetInt("sent"))
				continue
			}
			c := ch.sent[x.st.GetInt("sentat")]
			if c.name != method {
				r.find("proxy-wrong", what, c.pos, "%s calls %s instead of %s", what, c.name, method)
				continue
			}
			for i, ok := range want {
				if i >= len(c.args) || !ok(core(c.args[i])) {
					r.find("proxy-changes", what, c.pos, "%s changes argument %d of %s", what, i+1, method)
				}
			}
			out = append(out, c)
		}
		return out
	}
	is := func(t *eng.Term) func(*eng.Term) bool { return func(x *eng.Term) bool { return x == core(t) } }
	send := func(ends []chainEnd) []chainEnd { return ch.then(ends, "ClientProxy", "Send", target, args) }
	three := func(what string, clients []chainEnd, pos token.Pos) (all []chainSent) {
		all = append(all, expect(what+".All().Send", send(ch.then(clients, "HubClients", "All")), pos, "InvokeAll", is(target), is(args))...)
		all = append(all, expect(what+".Client(id).Send", send(ch.then(clients, "HubClients", "Client", id)), pos, "InvokeClient", is(id), is(target), is(args))...)
		all = append(all, expect(what+".Group(g).Send", send(ch.then(clients, "HubClients", "Group", group)), pos, "InvokeGroup", is(group), is(target), is(args))...)
		return all
	}
	// the clients of a server
	var servers []chainEnd
	if ns := w.Func("NewServer"); r.need(ns != nil, "C18", "NewServer") {
		for _, x := range ch.start(ns, nil) {
			if len(x.vs) == 2 && eng.IsNil(core(x.vs[1])) {
				servers = append(servers, x)
			}
		}
		clients := ch.then(servers, "Server", "HubClients")
		for _, c := range three("Server.HubClients()", clients, ns.Pos()) {
			// the manager the server has after its options were applied
			ok := false
			for _, x := range servers {
				s := core(x.vs[0])
				p, isP := s.Ty.Underlying().(*types.Pointer)
				if !isP {
					continue
				}
				stt, isS := p.Elem().Underlying().(*types.Struct)
				for i := 0; isS && i < stt.NumFields(); i++ {
					if namedIs(stt.Field(i).Type(), "HubLifetimeManager") {
						if v := x.st.Peek(e.FieldAddr(s, i, types.NewPointer(stt.Field(i).Type()))); v != nil && core(v) == core(c.recv) {
							ok = true
						}
					}
				}
			}
			if !ok {
				r.find("wrong-manager", "NewServer", ns.Pos(), "the clients of a server do not use the lifetime manager the server has after its options were applied")
			}
		}
	}
	// the context of a hub
	n := 0
	for _, f := range w.Sort {
		var hc *ssa.Parameter
		for _, p := range f.Params {
			if namedIs(p.Type(), "HubConnection") {
				hc = p
			}
		}
		if hc == nil || f.Parent() != nil || f.Synthetic != "" || f.Signature.Results().Len() != 1 || !namedIs(f.Signature.Results().At(0).Type(), "HubContext") {
			continue
		}
		n++
		conn := e.Param(hc.Name(), hc.Type())
		var ctx []chainEnd
		if f.Signature.Recv() != nil && len(f.Params) == 2 && hc == f.Params[1] {
			ctx = ch.then(servers, "Server", f.Name(), conn)
		} else {
			ctx = ch.start(f, nil)
		}
		clients := ch.then(ctx, "HubContext", "Clients")
		three("HubContext.Clients()", clients, f.Pos())
		expect("HubContext.Clients().Caller().Send", send(ch.then(clients, "HubClients", "Caller")), f.Pos(), "InvokeClient",
			func(x *eng.Term) bool { return isConnID(x, conn) }, is(target), is(args))
		groups := ch.then(ctx, "HubContext", "Groups")
		expect("HubContext.Groups().AddToGroup", ch.then(groups, "GroupManager", "AddToGroup", group, id), f.Pos(), "AddToGroup", is(group), is(id))
		expect("HubContext.Groups().RemoveFromGroup", ch.then(groups, "GroupManager", "RemoveFromGroup", group, id), f.Pos(), "RemoveFromGroup", is(group), is(id))
	}
	r.need(n > 0, "C18", "where the context of a hub is made")
	r.absorb(ch.e)
	// the hub hands out what its context has
	hub := w.Type("Hub")
	if !r.need(hub != nil, "C18", "the type Hub") {
		return
	}
	for _, m := range []string{"Clients", "Groups"} {
		f := w.Prog.LookupMethod(types.NewPointer(hub), w.Types, m)
		if !r.need(f != nil && len(f.Blocks) > 0, "C18", "Hub."+m) {
			continue
		}
		cl := &client{}
		cl.event = func(st *eng.State, ev *eng.Event) {
			if ev.Kind == eng.EvEnd {
				r.inst("hub-path", 1)
				if !isCallTo(core(ev.Vals[0]), "(HubContext)."+m) {
					st.Report("hub-context", "(Hub)."+m, ev.Instr.Pos(), "Hub.%s does not return what the context of the hub has", m)
				}
			}
		}
		he := w.engine(cl)
		he.Run(f, nil, nil)
		r.absorb(he)
	}
}

// checkSendInvocation: a connection writes the invocation it is told to send.
func (w *World) checkSendInvocation(r *Report) {
	n := 0
	for _, t := range w.implsOf("HubConnection") {
		fn := w.Prog.LookupMethod(t, w.Types, "SendInvocation")
		if fn == nil || len(fn.Blocks) == 0 || fn.Synthetic != "" {
			continue
		}
		name := eng.FnName(fn)
		cl := &client{}
		cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
			if strings.HasSuffix(c.Name, ").WriteMessage") && c.Invoke {
				n++
				r.inst("written-invocation", 1)
				m := core(c.Args[0])
				for i, f := range []string{"InvocationID", "Target", "Arguments"} {
					p := fn.Params[i+1]
					v := (*eng.Term)(nil)
					if namedIs(m.Ty, "invocationMessage") {
						v = fieldOf(st.E, m, f)
					}
					want := st.E.Param(p.Name(), p.Type())
					if isNil, known := isNilTerm(st, want); v != nil && f == "Arguments" && known && isNil && isEmptySlice(st, v) {
						continue // no arguments are an empty list
					}
					if v == nil || core(v) != want {
						st.Report("invocation-changed", name, c.Pos(), "%s does not send the %s it was given", name, f)
					}
				}
				st.SetInt("written", 1)
				return opaque
			}
			if isLogCall(c.Name) {
				return opaque
			}
			return eng.Decision{}
		}
		cl.event = func(st *eng.State, ev *eng.Event) {
			if ev.Kind == eng.EvEnd && len(ev.Vals) > 0 && st.GetInt("written") == 0 && eng.IsNil(core(ev.Vals[0])) {
				st.Report("not-written", name, ev.Instr.Pos(), "%s may return without error although it has not written the invocation", name)
			}
		}
		e := w.engine(cl)
		e.Run(fn, nil, nil)
		r.absorb(e)
	}
	r.need(n > 0, "C18", "where invocations are written")
}

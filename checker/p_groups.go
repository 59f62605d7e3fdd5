package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

func init() {
	register("C17", checkC17)
	register("C18", checkC18)
}

// cop is one access to a container (a sync.Map or a map).
type cop struct {
	kind          string     // put, del, get, range, next
	con           *eng.Term  // the container: the address of a sync.Map, or a map
	field         *types.Var // the field the container is kept in, nil for others
	key, val, ok  *eng.Term
	ev            *eng.Event
	callback, end bool
	atomic        bool // a put that is done only when the key is not there
}

// conField is the struct field a container is kept in.
func conField(t *eng.Term) *types.Var {
	t = core(t)
	if t.Kind == eng.KApp && t.Op == "load" {
		t = core(t.Args[0])
	}
	return eng.FieldVar(t)
}

// containers makes a client that reports the accesses to containers to on.
func containers(on func(st *eng.State, c *cop), cl *client) *client {
	call, event := cl.call, cl.event
	out := &client{}
	out.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		if strings.HasPrefix(c.Name, "(sync.Map).") && !c.Go && len(c.Args) > 0 {
			con := core(c.Args[0])
			fv := conField(con)
			op := func(kind string, key, val, ok *eng.Term) func(*eng.State, []*eng.Term) {
				return func(st *eng.State, rs []*eng.Term) {
					o := &cop{kind: kind, con: con, field: fv, key: key, val: val, ok: ok}
					if o.val == nil && len(rs) > 0 {
						o.val = rs[0]
					}
					if o.ok == nil && len(rs) > 1 {
						o.ok = rs[1]
					}
					on(st, o)
				}
			}
			one := func(os ...eng.Outcome) eng.Decision {
				return eng.Decision{Mode: eng.Outcomes, Outcomes: os}
			}
			switch m := strings.TrimPrefix(c.Name, "(sync.Map)."); m {
			case "Store":
				return one(eng.Outcome{Do: op("put", core(c.Arg(0)), core(c.Arg(1)), nil)})
			case "Swap":
				return one(eng.Outcome{Do: op("put", core(c.Arg(0)), core(c.Arg(1)), nil)})
			case "Delete":
				return one(eng.Outcome{Do: op("del", core(c.Arg(0)), nil, nil)})
			case "Load", "LoadAndDelete":
				yes, no := st.E.Bool(true), st.E.Bool(false)
				get := func(ok *eng.Term) func(*eng.State, []*eng.Term) {
					g, d := op("get", core(c.Arg(0)), nil, ok), op("del", core(c.Arg(0)), nil, nil)
					return func(st *eng.State, rs []*eng.Term) {
						g(st, rs)
						if m == "LoadAndDelete" {
							d(st, nil)
						}
					}
				}
				return one(eng.Outcome{Results: []*eng.Term{nil, yes}, Do: get(yes)},
					eng.Outcome{Results: []*eng.Term{st.E.Nil(), no}, Do: get(no)})
			case "LoadOrStore":
				yes, no := st.E.Bool(true), st.E.Bool(false)
				return one(eng.Outcome{Results: []*eng.Term{nil, yes}, Do: op("get", core(c.Arg(0)), nil, yes)},
					eng.Outcome{Results: []*eng.Term{c.Arg(1), no}, Do: func(st *eng.State, rs []*eng.Term) {
						on(st, &cop{kind: "put", con: con, field: fv, key: core(c.Arg(0)), val: core(c.Arg(1)), ok: no, atomic: true})
					}})
			case "Range":
				cb := eng.StripConv(c.Arg(0))
				if cb.Kind != eng.KClosure && cb.Kind != eng.KFunc || cb.Fn == nil {
					return opaque
				}
				k := st.Fresh(c.Instr, "range-key", cb.Fn.Params[0].Type())
				v := st.Fresh(c.Instr, "range-value", cb.Fn.Params[1].Type())
				return one(eng.Outcome{KeepArgs: true, Do: op("range", nil, nil, nil)},
					eng.Outcome{KeepArgs: true, Do: func(st *eng.State, rs []*eng.Term) {
						op("range", nil, nil, nil)(st, nil)
					}, After: func(st *eng.State) {
						// what earlier visits may have changed
						for i, fv := range cb.Fn.FreeVars {
							if i < len(cb.Args) && storedTo(fv) {
								st.StoreAt(cb.Args[i], st.Fresh(c.Instr, "earlier", derefType(fv.Type())))
							}
						}
						on(st, &cop{kind: "next", con: con, field: fv, key: core(k), val: core(v), callback: true})
					}, Callback: cb, CbArgs: []*eng.Term{k, v}})
			}
		}
		if call != nil {
			return call(st, c)
		}
		return eng.Decision{}
	}
	iter := map[*eng.Term]*eng.Term{}
	out.event = func(st *eng.State, ev *eng.Event) {
		switch ev.Kind {
		case eng.EvMapUpdate:
			on(st, &cop{kind: "put", con: core(ev.Addr), field: conField(ev.Addr), key: core(ev.Key), val: core(ev.Val), ev: ev})
		case eng.EvDelete:
			on(st, &cop{kind: "del", con: core(ev.Addr), field: conField(ev.Addr), key: core(ev.Key), ev: ev})
		case eng.EvLookup:
			on(st, &cop{kind: "get", con: core(ev.Addr), field: conField(ev.Addr), key: core(ev.Key), val: core(ev.Val), ok: ev.Ok, ev: ev})
		case eng.EvRange:
			on(st, &cop{kind: "range", con: core(ev.Addr), field: conField(ev.Addr), ev: ev})
		case eng.EvNext:
			m := core(ev.Addr)
			if x := iter[m]; x != nil {
				m = x
			} else if m.Kind == eng.KApp && len(m.Args) > 0 {
				m = core(m.Args[0])
			}
			on(st, &cop{kind: "next", con: m, field: conField(m), key: ev.Key, val: ev.Val, ok: ev.Ok, ev: ev})
		}
		if event != nil {
			event(st, ev)
		}
	}
	return out
}

// truth of a boolean term on this path.
func truth(st *eng.State, t *eng.Term) (v, known bool) {
	if b, ok := eng.BoolConst(core(t)); ok {
		return b, true
	}
	return st.Fact(t)
}

// storedTo: the function, or a closure of it, writes the captured variable.
func storedTo(v ssa.Value) bool {
	for _, u := range *v.Referrers() {
		switch x := u.(type) {
		case *ssa.Store:
			if x.Addr == v {
				return true
			}
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == v && storedTo(x.Fn.(*ssa.Function).FreeVars[i]) {
					return true
				}
			}
		}
	}
	return false
}

// isConnID: t is what ConnectionID of conn returned.
func isConnID(t, conn *eng.Term) bool {
	t = core(t)
	return t.Call != nil && strings.HasSuffix(t.Call.Name, ".ConnectionID") && len(t.Args) > 0 && core(t.Args[0]) == core(conn)
}

type groupStore struct {
	typ           types.Type
	conns, groups *types.Var
	fn            map[string]*ssa.Function
	isGroup       func(st *eng.State, con, group *eng.Term) bool
	analysed      map[*ssa.Function]bool
	lockedAdd     bool
	stored        map[*types.Var][]types.Type // the types of the values put into a container
	glocks        map[string]bool             // held from looking for the group until a member is added
	members       map[*types.Var]bool
	valueOf       map[*eng.Term]*types.Var
}

// groupStore finds the containers of the connections and of the groups of the lifetime manager.
func (w *World) groupStore(r *Report, prop string) *groupStore {
	t := w.implOf("HubLifetimeManager")
	if !r.need(t != nil, prop, "the implementation of HubLifetimeManager") {
		return nil
	}
	g := &groupStore{typ: t, stored: w.putTypes(), fn: map[string]*ssa.Function{}, analysed: map[*ssa.Function]bool{}, members: map[*types.Var]bool{}}
	for _, n := range []string{"OnConnected", "OnDisconnected", "InvokeAll", "InvokeClient", "InvokeGroup", "AddToGroup", "RemoveFromGroup"} {
		f := w.Prog.LookupMethod(t, w.Types, n)
		if !r.need(f != nil && len(f.Blocks) > 0, prop, "the method "+n+" of the lifetime manager") {
			return nil
		}
		g.fn[n] = f
	}
	var e *eng.Engine
	fn := g.fn["OnConnected"]
	conn := fn.Params[1]
	e = w.engine(containers(func(st *eng.State, c *cop) {
		if c.kind == "put" && c.field != nil && isConnID(c.key, st.E.Param(conn.Name(), conn.Type())) {
			g.conns = c.field
		}
	}, &client{}))
	e.Run(fn, nil, nil)
	fn = g.fn["InvokeGroup"]
	gp := fn.Params[1]
	e = w.engine(containers(func(st *eng.State, c *cop) {
		if c.kind == "get" && c.field != nil && core(c.key) == st.E.Param(gp.Name(), gp.Type()) {
			g.groups = c.field
		}
	}, &client{}))
	e.Run(fn, nil, nil)
	if !r.need(g.conns != nil, prop, "where OnConnected keeps the connections") || !r.need(g.groups != nil, prop, "where InvokeGroup looks for the group") {
		return nil
	}
	g.isGroup = func(st *eng.State, con, group *eng.Term) bool {
		stored := st.Get("stored")
		return con.Any(func(x *eng.Term) bool {
			if stored != nil && x == stored {
				return true
			}
			if x.Call != nil && strings.HasPrefix(x.Call.Name, "(sync.Map).Load") {
				return conField(x.Args[0]) == g.groups && core(x.Args[1]) == group
			}
			return x.Kind == eng.KApp && x.Op == "lookup" && conField(x.Args[0]) == g.groups && core(x.Args[1]) == group
		})
	}
	return g
}

// heldLocks tracks the mutexes of the manager that are held.
func heldLocks(st *eng.State, c *eng.CallInfo) {
	if !strings.HasPrefix(c.Name, "(sync.Mutex).") && !strings.HasPrefix(c.Name, "(sync.RWMutex).") || len(c.Args) == 0 {
		return
	}
	fv := eng.FieldVar(core(c.Args[0]))
	if fv == nil {
		return
	}
	k := "held:" + fv.Name()
	switch {
	case strings.HasSuffix(c.Name, ").Lock"):
		st.SetInt(k, 1)
	case strings.HasSuffix(c.Name, ").Unlock"):
		st.Del(k)
		st.Del("since:" + fv.Name())
		st.Del("gsince:" + fv.Name())
	}
}

func heldSet(st *eng.State, prefix string) map[string]bool {
	out := map[string]bool{}
	for k := range st.A {
		if strings.HasPrefix(k, prefix) {
			out[strings.TrimPrefix(k, prefix)] = true
		}
	}
	return out
}

func checkC17(w *World, r *Report) {
	r.rule("OnConnected stores the connection under its own id in the list of all connections on every path")
	r.rule("OnDisconnected removes the id of the connection from that list, and then visits every group and removes it there, on every path and without leaving the visit early")
	r.rule("AddToGroup adds exactly the connection that is registered under the given id, under that id and to the given group, and only when it is registered; a group is made only when it is not there, in one step with looking for it")
	r.rule("a connection that ends while it is added stays in no group: after adding, AddToGroup looks again whether it is registered and removes it when it is not (OnDisconnected unregisters before it visits the groups), or both do everything under one lock")
	r.rule("RemoveFromGroup removes the given id from the given group on every path on which the group exists, and nothing else changes groups or the list of connections")
	g := w.groupStore(r, "C17")
	if g == nil {
		return
	}
	addLocks := w.checkAddToGroup(r, g)
	w.checkDisconnected(r, g, addLocks)
	w.checkConnected(r, g)
	w.checkRemoveFromGroup(r, g)
	w.checkOtherWriters(r, g)
}

func (g *groupStore) run(w *World, r *Report, name string, on func(st *eng.State, c *cop), event func(st *eng.State, ev *eng.Event)) {
	cl := &client{}
	cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		heldLocks(st, c)
		if isLogCall(c.Name) || c.Invoke {
			return opaque
		}
		return eng.Decision{}
	}
	g.valueOf = map[*eng.Term]*types.Var{}
	cl.event = func(st *eng.State, ev *eng.Event) {
		if g.foreign(st, ev) {
			st.Kill()
			return
		}
		event(st, ev)
	}
	visit := on
	on = func(st *eng.State, c *cop) {
		if c.val != nil && c.field != nil && (c.kind == "next" || c.kind == "get" && c.ok != nil && isTrue(c.ok)) {
			g.valueOf[core(c.val)] = c.field
		}
		visit(st, c)
	}
	e := w.engine(containers(on, cl))
	e.Run(g.fn[name], nil, nil)
	for f := range e.FnsSeen {
		g.analysed[f] = true
	}
	r.absorb(e)
}

func (w *World) checkConnected(r *Report, g *groupStore) {
	fn := g.fn["OnConnected"]
	name := eng.FnName(fn)
	g.run(w, r, "OnConnected", func(st *eng.State, c *cop) {
		conn := st.E.Param(fn.Params[1].Name(), fn.Params[1].Type())
		if c.field != g.conns {
			return
		}
		switch {
		case c.kind == "put" && isConnID(c.key, conn) && core(c.val) == conn:
			st.SetInt("put", 1)
		case c.kind == "put":
			st.Report("wrong-connection", name, fn.Pos(), "%s may register something else than the connection under its id", name)
		case c.kind == "get" && isConnID(c.key, conn) && c.ok != nil && st.GetInt("put") == 0:
			st.Set("had", c.ok)
		case c.kind == "del" && isConnID(c.key, conn):
			st.Del("put")
		}
	}, func(st *eng.State, ev *eng.Event) {
		if ev.Kind != eng.EvEnd {
			return
		}
		r.inst("connected-path", 1)
		if st.GetInt("put") != 1 || st.GoDepth() > 0 {
			st.Report("not-registered", name, fn.Pos(), "%s may end without having registered the connection: messages to all clients would miss it", name)
		}
	})
}

func (w *World) checkAddToGroup(r *Report, g *groupStore) map[string]bool {
	fn := g.fn["AddToGroup"]
	name := eng.FnName(fn)
	locks := map[string]bool{}
	g.glocks = map[string]bool{}
	first := true
	adds := 0
	g.run(w, r, "AddToGroup", func(st *eng.State, c *cop) {
		group := st.E.Param(fn.Params[1].Name(), fn.Params[1].Type())
		id := st.E.Param(fn.Params[2].Name(), fn.Params[2].Type())
		pos := fn.Pos()
		switch {
		case c.field == g.conns && c.kind == "get":
			if core(c.key) != id {
				st.Report("wrong-client", name, pos, "%s looks for another connection than the one given", name)
				return
			}
			st.Set("ok", c.ok)
			if c.val != nil {
				st.Set("client", core(c.val))
			}
			if st.GetInt("added") == 1 {
				st.Set("again", c.ok)
			} else {
				for k := range heldSet(st, "held:") {
					st.SetInt("since:"+k, 1)
				}
			}
		case c.field == g.conns:
			if c.kind == "put" || c.kind == "del" {
				st.Report("connections-changed", name, pos, "%s changes the list of connections", name)
			}
		case c.field == g.groups && c.kind == "put":
			if core(c.key) != group {
				st.Report("wrong-group", name, pos, "%s creates another group than the one given", name)
			}
			if !c.atomic {
				absent := false
				if ok := st.Get("group"); ok != nil && len(heldSet(st, "gsince:")) > 0 {
					v, known := truth(st, ok)
					absent = known && !v
				}
				if !absent {
					st.Report("group-replaced", name, pos, "%s may replace a group that another goroutine has made meanwhile: its members would be lost", name)
				}
			}
			st.Set("stored", core(c.val))
		case c.field == g.groups && c.kind == "del":
			st.Report("group-removed", name, pos, "%s removes a group", name)
		case c.field == g.groups:
			if core(c.key) != group {
				st.Report("wrong-group", name, pos, "%s looks for another group than the one given", name)
			} else if c.kind == "get" && st.GetInt("added") == 0 && c.ok != nil {
				st.Set("group", c.ok)
				for k := range heldSet(st, "gsince:") {
					st.Del("gsince:" + k)
				}
				for k := range heldSet(st, "held:") {
					st.SetInt("gsince:"+k, 1)
				}
			} else if st.GetInt("added") == 1 && c.ok != nil {
				if v, known := truth(st, c.ok); known && !v {
					st.SetInt("nogroup", 1) // the group does not exist any more
				}
			}
		case c.kind == "put":
			if c.field != nil {
				g.members[c.field] = true
			}
			adds++
			r.inst("add", 1)
			if !g.isGroup(st, c.con, group) {
				st.Report("wrong-group", name, pos, "%s may add a connection to another group than the one given", name)
			}
			if core(c.key) != id {
				st.Report("wrong-key", name, pos, "%s adds a connection under something else than its id", name)
			}
			cl := st.Get("client")
			if cl == nil || !c.val.Any(func(x *eng.Term) bool { return x == cl }) {
				st.Report("wrong-connection", name, pos, "%s adds something else than the connection registered under the id", name)
			}
			if ok := st.Get("ok"); ok == nil {
				st.Report("unregistered-added", name, pos, "%s adds a connection without looking whether it is connected", name)
			} else if v, known := truth(st, ok); !known || !v {
				st.Report("unregistered-added", name, pos, "%s may add a connection that is not connected", name)
			}
			st.SetInt("added", 1)
			st.Del("again")
			hs, gs := heldSet(st, "since:"), heldSet(st, "gsince:")
			if first {
				for k := range hs {
					locks[k] = true
				}
				for k := range gs {
					g.glocks[k] = true
				}
				first = false
			}
			for k := range g.glocks {
				if !gs[k] {
					delete(g.glocks, k)
				}
			}
			for k := range locks {
				if !hs[k] {
					delete(locks, k)
				}
			}
		case c.kind == "del":
			if core(c.key) == id && g.isGroup(st, c.con, group) {
				st.SetInt("removed", 1)
			} else {
				st.Report("wrong-removed", name, pos, "%s may remove another connection or change another group", name)
			}
		}
	}, func(st *eng.State, ev *eng.Event) {
		if ev.Kind != eng.EvEnd {
			return
		}
		r.inst("add-path", 1)
		ok := st.Get("ok")
		if ok == nil {
			st.Report("not-added", name, fn.Pos(), "%s may end without looking for the connection", name)
			return
		}
		again := st.Get("again")
		v, known := truth(st, ok)
		switch {
		case st.GetInt("added") == 0 && (!known || v):
			st.Report("not-added", name, fn.Pos(), "%s may not add a connection that is connected", name)
		case st.GetInt("added") == 0:
		case again != nil:
			v, known := truth(st, again)
			removed := st.GetInt("removed") == 1
			if (!known || !v) && !removed && st.GetInt("nogroup") == 0 {
				st.Report("ended-connection-kept", name, fn.Pos(), "%s may keep a connection in the group that has ended meanwhile", name)
			}
			if (!known || v) && removed {
				st.Report("removed-again", name, fn.Pos(), "%s may remove a connection again that is connected", name)
			}
		case st.GetInt("removed") == 1:
			st.Report("removed-again", name, fn.Pos(), "%s may remove a connection again that is connected", name)
		default:
			st.SetInt("unchecked", 1)
		}
		if st.GetInt("unchecked") == 1 && len(locks) == 0 {
			st.Report("ended-connection-kept", name, fn.Pos(), "%s may keep a connection in the group that has ended meanwhile: it does not look again whether it is connected, and shares no lock with OnDisconnected", name)
		} else if st.GetInt("unchecked") == 1 {
			g.lockedAdd = true
		}
	})
	r.need(adds > 0, "C17", "where AddToGroup adds the connection")
	return locks
}

// dropped: a group is deleted. AddToGroup must not be able to add to it any more.
func (g *groupStore) dropped(st *eng.State, name string, pos token.Pos) {
	for k := range g.glocks {
		if st.GetInt("held:"+k) == 1 {
			return
		}
	}
	st.Report("group-dropped", name, pos, "%s removes a group that AddToGroup may have looked up and is about to add a member to: that member is in no group", name)
}

// putTypes: the types of what the package puts into the sync.Map fields.
func (w *World) putTypes() map[*types.Var][]types.Type {
	out := map[*types.Var][]types.Type{}
	for _, f := range w.Sort {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				x, ok := i.(*ssa.Call)
				if !ok {
					continue
				}
				n := strings.TrimPrefix(calleeName(x.Common()), "(sync.Map).")
				as := x.Common().Args
				if n != "Store" && n != "LoadOrStore" && n != "Swap" && n != "CompareAndSwap" {
					continue
				}
				fa, ok := as[0].(*ssa.FieldAddr)
				if !ok {
					continue
				}
				v, t := as[len(as)-1], types.Type(types.Universe.Lookup("any").Type())
				switch y := v.(type) {
				case *ssa.MakeInterface:
					t = y.X.Type()
				case *ssa.ChangeInterface:
					t = y.X.Type()
				}
				out[fieldVarOfSSA(fa)] = append(out[fieldVarOfSSA(fa)], t)
			}
		}
	}
	return out
}

// foreign: the failing branch of a type test that cannot fail, because nothing else is put into the container.
func (g *groupStore) foreign(st *eng.State, ev *eng.Event) bool {
	if ev.Kind != eng.EvTypeCase || ev.Truth {
		return false
	}
	fv := g.valueOf[core(ev.Addr)]
	if fv == nil || len(g.stored[fv]) == 0 {
		return false
	}
	for _, t := range g.stored[fv] {
		it, isIface := ev.Ty.Underlying().(*types.Interface)
		if !types.Identical(t, ev.Ty) && !(isIface && types.Implements(t, it)) {
			return false
		}
	}
	return true
}

func (w *World) checkDisconnected(r *Report, g *groupStore, locks map[string]bool) {
	fn := g.fn["OnDisconnected"]
	name := eng.FnName(fn)
	iterEnd := func(st *eng.State, what string) {
		if st.GetInt("visiting") == 1 && st.GetInt("left") == 0 {
			st.Report("kept-in-group", name, fn.Pos(), "%s may leave the connection in a group (%s)", name, what)
		}
		st.Del("visiting")
		st.Del("left")
		st.Del("member")
	}
	g.run(w, r, "OnDisconnected", func(st *eng.State, c *cop) {
		conn := st.E.Param(fn.Params[1].Name(), fn.Params[1].Type())
		lockOK := func() {
			if !g.lockedAdd {
				return
			}
			for k := range locks {
				if st.GetInt("held:"+k) == 1 {
					return
				}
			}
			st.Report("ended-connection-kept", name, fn.Pos(), "%s does not hold the lock AddToGroup holds", name)
		}
		switch {
		case c.field == g.conns && c.kind == "del":
			lockOK()
			if !isConnID(c.key, conn) {
				st.Report("wrong-connection", name, fn.Pos(), "%s removes another connection", name)
				return
			}
			st.SetInt("gone", 1)
		case c.field == g.conns && c.kind == "get" && isConnID(c.key, conn) && c.ok != nil && st.GetInt("gone") == 0:
			st.Set("had", c.ok)
		case c.field == g.conns && c.kind == "put":
			st.Report("connections-changed", name, fn.Pos(), "%s adds to the list of connections", name)
		case c.field == g.groups && c.kind == "range":
			lockOK()
			if st.GetInt("gone") != 1 && !g.lockedAdd {
				st.Report("visited-before-removed", name, fn.Pos(), "%s visits the groups before the connection is removed from the list of connections: one that is added meanwhile stays in its group", name)
			}
			st.SetInt("visited", 1)
			r.inst("visit", 1)
		case c.field == g.groups && c.kind == "del":
			g.dropped(st, name, fn.Pos())
		case c.field == g.groups && c.kind == "next":
			iterEnd(st, "the visit goes on")
			if c.ok != nil {
				st.Set("more", c.ok)
			}
			if c.val != nil {
				st.Set("member", core(c.val))
			}
			if c.key != nil {
				st.Set("groupkey", core(c.key))
			}
			st.SetInt("visiting", 1)
		case c.kind == "del" && c.field != g.groups:
			m, k := st.Get("member"), st.Get("groupkey")
			in := c.con.Any(func(x *eng.Term) bool {
				return m != nil && x == m || k != nil && x.Kind == eng.KApp && x.Op == "lookup" && conField(x.Args[0]) == g.groups && core(x.Args[1]) == k
			})
			if in && isConnID(c.key, conn) {
				st.SetInt("left", 1)
			} else {
				st.Report("wrong-removed", name, fn.Pos(), "%s may remove something else than the connection from a group", name)
			}
		case c.kind == "put" && c.field != g.conns:
			st.Report("groups-changed", name, fn.Pos(), "%s adds to a group", name)
		}
	}, func(st *eng.State, ev *eng.Event) {
		switch ev.Kind {
		case eng.EvReturn:
			if ev.Kind2 == eng.CbF && st.GetInt("visiting") == 1 {
				iterEnd(st, "the visitor returns")
				if v, ok := eng.BoolConst(core(ev.Vals[0])); !ok || !v {
					st.Report("visit-stops", name, ev.Instr.Pos(), "%s may stop visiting the groups", name)
				}
			}
		case eng.EvEnd:
			r.inst("disconnected-path", 1)
			if more := st.Get("more"); more != nil && st.GetInt("visiting") == 1 {
				if v, known := truth(st, more); known && !v {
					st.Del("visiting")
				} else {
					st.Report("visit-stops", name, ev.Instr.Pos(), "%s may stop visiting the groups", name)
				}
			}
			if had := st.Get("had"); had != nil {
				if v, known := truth(st, had); known && !v {
					return // it was not registered
				}
			}
			if st.GetInt("gone") != 1 {
				st.Report("still-registered", name, fn.Pos(), "%s may leave the connection in the list of connections", name)
			}
			if st.GetInt("visited") != 1 {
				st.Report("kept-in-group", name, fn.Pos(), "%s may not visit the groups", name)
			}
		case eng.EvGoStart:
			st.Report("asynchronous", name, ev.Instr.Pos(), "%s cleans up in a goroutine: a new connection could be affected", name)
		}
	})
	r.need(r.Instances["visit"] > 0, "C17", "the visit of all groups in "+name)
}

func (w *World) checkRemoveFromGroup(r *Report, g *groupStore) {
	fn := g.fn["RemoveFromGroup"]
	name := eng.FnName(fn)
	n := 0
	g.run(w, r, "RemoveFromGroup", func(st *eng.State, c *cop) {
		group := st.E.Param(fn.Params[1].Name(), fn.Params[1].Type())
		id := st.E.Param(fn.Params[2].Name(), fn.Params[2].Type())
		switch {
		case c.field == g.groups && c.kind == "get":
			if core(c.key) != group {
				st.Report("wrong-group", name, fn.Pos(), "%s looks for another group than the one given", name)
			}
			if c.ok != nil {
				st.Set("ok", c.ok)
			}
		case c.field == g.conns && c.kind == "get":
		case c.field == g.groups && c.kind == "del":
			g.dropped(st, name, fn.Pos())
		case c.kind == "del" && c.field != g.groups && c.field != g.conns:
			n++
			if core(c.key) != id || !g.isGroup(st, c.con, group) {
				st.Report("wrong-removed", name, fn.Pos(), "%s may remove something else than the given connection from the given group", name)
			}
			st.SetInt("removed", 1)
		case c.kind == "put" || c.kind == "del" && c.field == g.conns:
			st.Report("groups-changed", name, fn.Pos(), "%s changes something else than the given group", name)
		}
	}, func(st *eng.State, ev *eng.Event) {
		if ev.Kind != eng.EvEnd {
			return
		}
		r.inst("remove-path", 1)
		if st.GetInt("removed") == 1 {
			return
		}
		if ok := st.Get("ok"); ok != nil {
			if v, known := truth(st, ok); known && !v {
				return
			}
		}
		st.Report("not-removed", name, fn.Pos(), "%s may leave the connection in the group", name)
	})
	r.need(n > 0, "C17", "where RemoveFromGroup removes the connection")
}

// checkOtherWriters: nobody else changes groups or connections.
func (w *World) checkOtherWriters(r *Report, g *groupStore) {
	mine := func(v ssa.Value) bool {
		for d := 0; d < 4; d++ {
			switch x := v.(type) {
			case *ssa.UnOp:
				v = x.X
				continue
			case *ssa.FieldAddr:
				fv := fieldVarOfSSA(x)
				return fv == g.conns || fv == g.groups || g.members[fv]
			}
			break
		}
		return false
	}
	for _, f := range w.Sort {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				hit := false
				switch x := i.(type) {
				case *ssa.MapUpdate:
					hit = mine(x.Map)
				case *ssa.Call:
					n := calleeName(x.Common())
					switch {
					case n == "builtin.delete" || n == "builtin.clear":
						hit = mine(x.Common().Args[0])
					case strings.HasPrefix(n, "(sync.Map).") && !strings.HasSuffix(n, ").Load") && !strings.HasSuffix(n, ").Range"):
						hit = mine(x.Common().Args[0])
					}
				}
				if !hit {
					continue
				}
				r.inst("writer", 1)
				if !g.analysed[f] {
					r.find("other-writer", eng.FnName(f), i.Pos(), "%s changes groups or the list of connections", eng.FnName(f))
					continue
				}
				// a helper of the analysed methods: nobody else may use it
				method := false
				for _, m := range g.fn {
					method = method || m == f
				}
				if method {
					continue
				}
				cs, _ := w.callersOf(f)
				for _, c := range cs {
					if !g.analysed[c] {
						r.find("other-writer", eng.FnName(c), i.Pos(), "%s changes groups or the list of connections", eng.FnName(c))
					}
				}
			}
		}
	}
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func isTrue(t *eng.Term) bool {
	v, ok := eng.BoolConst(core(t))
	return ok && v
}

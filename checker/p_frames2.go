package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

// The transports and the set up of a connection have to apply the limit of received messages (C11).

const (
	wsRead   = "(github.com/coder/websocket.Conn).SetReadLimit"
	wsAccept = "github.com/coder/websocket.Accept"
)

// isLimitTerm: t is the configured limit.
func (w *World) isLimitTerm(t *eng.Term) bool {
	t = core(t)
	if t.Call != nil && w.limitGetter(t.Call.Name) {
		return true
	}
	if t.Kind == eng.KApp && t.Op == "load" && t.Args[0].Kind == eng.KFieldA {
		fv := eng.FieldVar(t.Args[0])
		return fv != nil && w.limitFields()[fv]
	}
	if t.Kind == eng.KField {
		fv := eng.FieldVar(t)
		return fv != nil && w.limitFields()[fv]
	}
	return false
}

// reachCalls: home functions that reach a call of one of the names.
func (w *World) reachCalls(pred func(name string, c ssa.CallInstruction) bool) map[*ssa.Function]bool {
	return w.reaching(func(i ssa.Instruction) bool {
		c, ok := i.(ssa.CallInstruction)
		return ok && pred(calleeName(c.Common()), c)
	})
}

func (w *World) checkLimits(r *Report) {
	r.rule("each connection's protocol and hub connection get the limit of their party; each websocket gets it before it is served or read, each POST body before it is read")
	// the setters of the protocols
	for _, t := range w.implsOf("hubProtocol") {
		m := w.Prog.LookupMethod(t, w.Types, "setMaxReceiveMessageSize")
		if m == nil || len(m.Blocks) == 0 || m.Synthetic != "" {
			continue
		}
		r.inst("limit-setter", 1)
		e := w.engine(&client{event: func(st *eng.State, ev *eng.Event) {
			switch ev.Kind {
			case eng.EvStore:
				if fv := eng.FieldVar(ev.Addr); fv != nil && w.limitFields()[fv] {
					if core(ev.Val) == st.E.Param(m.Params[1].Name(), m.Params[1].Type()) {
						st.SetInt("stored", 1)
					} else {
						st.Del("stored")
					}
				}
			case eng.EvEnd:
				if st.GetInt("stored") != 1 {
					st.Report("limit-not-passed", eng.FnName(m), m.Pos(), "%s does not keep the limit it is given", eng.FnName(m))
				}
			}
		}})
		e.Run(m, nil, nil)
		r.absorb(e)
	}
	w.checkNewLoopLimit(r)
	w.checkHTTPLimit(r)
	w.checkClientLimit(r)
}

func (w *World) checkNewLoopLimit(r *Report) {
	nhc := w.Func("newHubConnection")
	if !r.need(nhc != nil, "C11", "newHubConnection") {
		return
	}
	n := 0
	in := w.reachCalls(func(name string, c ssa.CallInstruction) bool {
		return c.Common().StaticCallee() == nhc || strings.HasSuffix(name, ".setMaxReceiveMessageSize") || w.limitGetter(name)
	})
	for _, f := range w.Sort {
		if f.Synthetic != "" || f.Parent() != nil {
			continue
		}
		calls := false
		for _, c := range callsIn(f) {
			if c.Common().StaticCallee() == nhc {
				calls = true
			}
		}
		if !calls {
			continue
		}
		n++
		e := w.engine(&client{call: func(st *eng.State, c *eng.CallInfo) eng.Decision {
			switch {
			case c.Fn == nhc:
				r.inst("limit-passed", 1)
				for i, a := range c.Args {
					if typeName(nhc.Params[i].Type()) == "hubProtocol" {
						st.Set("proto", core(a))
					}
					if byteOrInt(a.Ty) && !w.isLimitTerm(a) {
						st.Report("limit-not-passed", eng.FnName(f)+":connection", c.Pos(), "%s does not give the configured limit to the hub connection", eng.FnName(f))
					}
				}
				return opaque
			case strings.HasSuffix(c.Name, ").setMaxReceiveMessageSize"):
				rc, a := c.Recv, c.Args[len(c.Args)-1]
				if rc == nil {
					rc = c.Args[0]
				}
				r.inst("limit-passed", 1)
				if w.isLimitTerm(a) {
					st.SetInt(sk("conf", core(rc)), 1)
				} else {
					st.Del(sk("conf", core(rc)))
				}
				return opaque
			case c.Fn != nil && w.Home(c.Fn) && (!in[c.Fn] || w.limitGetter(c.Name)):
				return opaque
			}
			return eng.Decision{}
		}, event: func(st *eng.State, ev *eng.Event) {
			if ev.Kind != eng.EvEnd {
				return
			}
			if p := st.Get("proto"); p != nil && st.GetInt(sk("conf", p)) != 1 {
				st.Report("limit-not-passed", eng.FnName(f)+":protocol", f.Pos(), "%s does not give the configured limit to the protocol of the connection", eng.FnName(f))
			}
		}})
		e.Run(f, nil, nil)
		r.absorb(e)
	}
	r.need(n > 0, "C11", "the creation of the hub connection")
}

func (w *World) checkHTTPLimit(r *Report) {
	roots := w.httpRoots()
	if !r.need(len(roots) > 0, "C11", "HTTP handlers") {
		return
	}
	bodyRead := func(c ssa.CallInstruction) bool {
		for _, a := range c.Common().Args {
			if ci, ok := a.(*ssa.ChangeInterface); ok {
				a = ci.X
			}
			if u, ok := a.(*ssa.UnOp); ok {
				if fa, ok := u.X.(*ssa.FieldAddr); ok {
					v := fieldVarOfSSA(fa)
					if v != nil && v.Name() == "Body" && isReq(fa.X.Type()) {
						return true
					}
				}
			}
		}
		return false
	}
	in := w.reachCalls(func(name string, c ssa.CallInstruction) bool {
		return name == wsAccept || name == wsRead || strings.HasSuffix(name, ".Serve") || bodyRead(c) || name == "net/http.MaxBytesReader"
	})
	nws, nbody := 0, 0
	for _, f := range roots {
		e := w.engine(&client{call: func(st *eng.State, c *eng.CallInfo) eng.Decision {
			switch {
			case c.Name == wsAccept:
				nws++
				r.inst("websocket-accepted", 1)
				return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Do: func(st *eng.State, rs []*eng.Term) {
					st.Set(sk("ws", rs[0]), rs[0])
				}}}}
			case c.Name == wsRead:
				if w.isLimitTerm(c.Args[len(c.Args)-1]) {
					st.Del(sk("ws", core(c.Args[0])))
				}
				return opaque
			case (c.Invoke || c.Fn != nil && w.Home(c.Fn)) && strings.HasSuffix(c.Name, ").Serve"):
				for k := range st.A {
					if strings.HasPrefix(k, "ws:") {
						st.Report("websocket-unlimited", eng.FnName(f), c.Pos(), "a websocket is served without the configured limit for its messages")
					}
				}
				return opaque
			case c.Fn != nil && w.Home(c.Fn):
				if w.limitGetter(c.Name) || !in[c.Fn] {
					return opaque
				}
				return eng.Decision{}
			case c.Name == "net/http.MaxBytesReader" || hasSuffixAny(c.Name, ").Close"):
				if c.Name == "net/http.MaxBytesReader" {
					r.inst("body-limited", 1)
				}
				return eng.Decision{}
			}
			for _, a := range c.Args {
				bad, is := false, false
				a.Walk(func(y *eng.Term) bool {
					if y.Call != nil && y.Call.Name == "net/http.MaxBytesReader" {
						is = true
						if !w.isLimitTerm(y.Call.Args[len(y.Call.Args)-1]) {
							bad = true
						}
						return false
					}
					if y.Kind == eng.KApp && y.Op == "load" && y.Args[0].Kind == eng.KFieldA {
						if fv := eng.FieldVar(y.Args[0]); fv != nil && fv.Name() == "Body" && isReq(y.Args[0].Args[0].Ty) {
							is, bad = true, true
						}
					}
					return true
				})
				if is {
					nbody++
					r.inst("body-used", 1)
				}
				if bad {
					st.Report("body-unlimited", eng.FnName(c.In), c.Pos(), "%s reads the body of a request without the configured limit", eng.FnName(c.In))
				}
			}
			return eng.Decision{}
		}})
		e.Run(f, nil, nil)
		r.absorb(e)
	}
	r.need(nws > 0, "C11", "the acceptance of websockets")
	r.need(nbody > 0, "C11", "the reading of POST bodies")
}

func (w *World) checkClientLimit(r *Report) {
	start := w.method("client", "Start")
	if !r.need(start != nil, "C11", "the client's Start") {
		return
	}
	isRead := func(name string, sig interface{}) bool { return strings.HasSuffix(name, ".Read") }
	in := w.reachCalls(func(name string, c ssa.CallInstruction) bool {
		return name == wsRead || isRead(name, nil) && isReadSig(c.Common().Signature()) && c.Common().IsInvoke()
	})
	n := 0
	e := w.engine(&client{call: func(st *eng.State, c *eng.CallInfo) eng.Decision {
		switch {
		case strings.HasSuffix(c.Name, ").SetReadLimit"):
			rc := c.Recv
			if rc == nil {
				rc = c.Args[0]
			}
			if w.isLimitTerm(c.Args[len(c.Args)-1]) {
				rc.Walk(func(y *eng.Term) bool {
					st.SetInt(sk("okws", y), 1)
					return true
				})
			}
			return opaque
		case c.Invoke && strings.HasSuffix(c.Name, ").Read") && isReadSig(c.Sig):
			n++
			r.inst("client-read", 1)
			if st.GetInt(sk("okws", core(c.Recv))) != 1 {
				st.Report("websocket-unlimited", "client", c.Pos(), "the client reads from a connection that may be a websocket without the configured limit")
			}
			st.Kill()
			return opaque
		case c.Name == "(loop).Run":
			st.Kill()
			return opaque
		case c.Fn != nil && w.Home(c.Fn) && !c.Invoke:
			if !in[c.Fn] || w.limitGetter(c.Name) || formatter(c.Fn) {
				return opaque
			}
		}
		return eng.Decision{}
	}, event: func(st *eng.State, ev *eng.Event) {
		if ev.Kind == eng.EvTypeCase && !ev.Truth && (namedIs(ev.Ty, "webSocketConnection") || w.wsImplements(ev.Ty)) {
			st.SetInt(sk("okws", core(ev.Addr)), 1)
		}
	}})
	e.Run(start, nil, nil)
	r.absorb(e)
	r.need(n > 0, "C11", "the client's reading of the handshake")
}

// wsImplements: a websocket connection has the methods of the interface t.
func (w *World) wsImplements(t types.Type) bool {
	it, ok := t.Underlying().(*types.Interface)
	ws := w.Type("webSocketConnection")
	return ok && ws != nil && types.Implements(types.NewPointer(ws), it)
}

package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

func init() { register("C29", checkC29) }

// constVal is the value of a package level integer constant.
func (w *World) constVal(name string) (int64, bool) {
	c, ok := w.Types.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	return constant.Int64Val(c.Val())
}

// fieldStore: an event stores to a field of the named struct whose type satisfies ty.
func fieldStore(ev *eng.Event, owner string, ty func(t types.Type) bool) bool {
	if ev.Kind != eng.EvStore {
		return false
	}
	fv := eng.FieldVar(ev.Addr)
	if fv == nil || !ty(fv.Type()) || ev.Addr.Kind != eng.KFieldA {
		return false
	}
	bt := ev.Addr.Args[0].Ty
	return namedIs(bt, owner)
}

func isErrT(t types.Type) bool { return types.Identical(t, errType) }

// connectLoop explores the client's connect loop.
type connectLoop struct {
	w   *World
	r   *Report
	rep func(st *eng.State, rule, key string, format string, a ...any)
}

func (w *World) runConnectLoop(r *Report, prop string, report map[string]bool) {
	fn := w.method("client", "Start")
	if !r.need(fn != nil, prop, "the client's Start") {
		return
	}
	closed, ok1 := w.constVal("ClientClosed")
	connected, ok2 := w.constVal("ClientConnected")
	connecting, ok3 := w.constVal("ClientConnecting")
	if !r.need(ok1 && ok2 && ok3, prop, "the client states") {
		return
	}
	var e *eng.Engine
	emit := func(st *eng.State, ev *eng.Event, rule, key, format string, a ...any) {
		if report != nil && !report[rule] {
			return
		}
		p := fn.Pos()
		if ev != nil && ev.Instr != nil && ev.Instr.Pos().IsValid() {
			p = ev.Instr.Pos()
		}
		st.Report(rule, key, p, format, a...)
	}
	isConn := func(t types.Type) bool { return typeName(t) == "Connection" }
	isState := func(t types.Type) bool { return typeName(t) == "ClientState" }
	relevant := w.reaching(func(i ssa.Instruction) bool {
		if storesField(i, "client", isErrT) || storesField(i, "client", isConn) || storesField(i, "client", isState) {
			return true
		}
		switch x := i.(type) {
		case *ssa.FieldAddr:
			v := fieldVarOfSSA(x)
			return v != nil && v.Name() == "AllowReconnect"
		case ssa.CallInstruction:
			switch calleeName(x.Common()) {
			case "(loop).Run", "(github.com/cenkalti/backoff/v4.BackOff).NextBackOff", "(github.com/cenkalti/backoff/v4.BackOff).Reset",
				"time.After", "time.NewTimer", "(sync/atomic.Value).Load", "(sync/atomic.Value).Store", "(sync/atomic.Bool).Load", "(sync/atomic.Bool).Store":
				return true
			}
		}
		return false
	})
	cl := &client{}
	attempt := func(st *eng.State, ev *eng.Event) {
		// a new attempt begins
		if st.GetInt("attempts") > 0 {
			r.inst("reconnect", 1)
			if st.GetInt("ranloop") == 1 && st.GetInt("allowed") == 0 {
				emit(st, ev, "reconnect-forbidden", "Start", "the client reconnects without knowing that the close message of the last connection allows it")
			}
			if st.GetInt("boff") == 0 {
				emit(st, ev, "no-backoff", "Start", "the client reconnects without asking its backoff")
			} else {
				if st.GetInt("waited") == 0 {
					emit(st, ev, "no-backoff", "Start:wait", "the client reconnects without waiting for the time its backoff gave")
				}
				if st.GetInt("nostop") == 0 {
					emit(st, ev, "backoff-stop", "Start", "the client reconnects although its backoff may have said to stop")
				}
			}
			if st.GetInt("connclean") == 0 {
				st.SetInt("stale", 1)
			}
			st.Forget()
			for k := range st.A {
				if strings.HasPrefix(k, "over:") {
					st.Del(k)
				}
			}
		}
		st.SetInt("attempts", 1)
		for _, k := range []string{"ranloop", "allowed", "boff", "waited", "nostop", "boffv", "failed", "errset", "connclean", "lastsig", "sawconnected", "conknown", "connval"} {
			st.Del(k)
		}
	}
	cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		ev := &eng.Event{Instr: c.Instr}
		switch c.Name {
		case "(loop).Run":
			r.inst("loop-run", 1)
			st.SetInt("ranloop", 1)
			if st.GetInt("stale") == 1 {
				emit(st, ev, "connection-reused", "Start", "the message loop runs on the connection of an earlier attempt")
			}
			if st.GetInt("conpending") == 0 {
				emit(st, ev, "never-connected", "Start", "nothing sets the client connected while its message loop runs")
			} else if sig := st.Get("consig"); sig == nil || sig != eng.StripConv(c.Arg(0)) || st.GetInt("early") == 1 {
				emit(st, ev, "connected-early", "Start", "the client is set connected without waiting for the message loop to start")
			}
			st.Del("allowed")
			return opaque
		case "(context.Context).Err":
			// nil only before the end of the context was seen
			if st.GetInt("over:"+ctxKey(c.Recv)) > 0 {
				return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Do: func(st *eng.State, rs []*eng.Term) {
					st.Assume(st.E.Eq(rs[0], st.E.Nil()), false)
				}}}}
			}
		case "(github.com/cenkalti/backoff/v4.BackOff).NextBackOff":
			return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Do: func(st *eng.State, rs []*eng.Term) {
				st.SetInt("boff", 1)
				st.Set("boffv", rs[0])
			}}}}
		case "(github.com/cenkalti/backoff/v4.BackOff).Reset":
			r.inst("backoff-reset", 1)
			if st.GetInt("conknown") == 0 {
				emit(st, ev, "backoff-reset", "Start", "the backoff is reset without knowing that the client was connected")
			}
			return opaque
		case "(sync/atomic.Value).Store", "(sync/atomic.Bool).Store":
			if b, ok := eng.BoolConst(eng.StripIface(c.Arg(0))); ok && b && st.GetInt("sawconnected") == 0 {
				emit(st, ev, "backoff-reset", "Start:flag", "the client is remembered as connected without having seen that state")
			}
			return opaque
		case "(sync.WaitGroup).Done", "(sync.WaitGroup).Add":
			return opaque
		}
		if formatter(c.Fn) || c.Fn != nil && w.Home(c.Fn) && !relevant[c.Fn] && c.Fn.Parent() == nil {
			return opaque
		}
		if c.Go && c.Fn != nil && !relevant[c.Fn] && c.Fn.Parent() != nil && len(c.Fn.FreeVars) > 0 && storesOnly(c.Fn, w) {
			return opaque
		}
		return eng.Decision{}
	}
	cl.event = func(st *eng.State, ev *eng.Event) {
		switch ev.Kind {
		case eng.EvStore:
			if fieldStore(ev, "client", isConn) {
				st.Del("stale")
				st.SetInt("connclean", 0)
				if n, known := isNilTerm(st, ev.Val); known && n {
					st.SetInt("connclean", 1)
				}
				st.Set("connval", ev.Val)
				return
			}
			if fieldStore(ev, "client", isErrT) {
				r.inst("error-store", 1)
				if st.Get("cur") != nil && st.GetInt("cur") == closed {
					emit(st, ev, "error-after-closed", "Start", "the client's error is set after the client was closed; an observer of the closed state misses it")
				}
				if n, known := isNilTerm(st, ev.Val); known && n {
					st.SetInt("errset", 0)
				} else {
					st.SetInt("errset", 1)
				}
				return
			}
			if !fieldStore(ev, "client", isState) {
				return
			}
			n, ok := eng.IntConst(eng.StripConv(ev.Val))
			if !ok {
				return
			}
			r.inst("state-store", 1)
			if n == connected {
				st.SetInt("conpending", 1)
				st.SetInt("congo", int64(st.GoID()))
				if s := st.Get("lastsig"); s != nil && st.GetInt("lastsiggo") == int64(st.GoID()) {
					st.Set("consig", s)
				} else {
					st.Del("consig")
					st.SetInt("early", 1)
				}
			} else {
				st.Del("early")
				if st.GetInt("conpending") == 1 && st.GetInt("ranloop") == 1 && st.GetInt("congo") != int64(st.GoID()) {
					emit(st, ev, "state-race", "Start", "after the message loop has ended the client's state is set while its connected state may still be set by another goroutine")
				}
				st.Del("conpending")
				st.Del("consig")
				st.Del("congo")
				st.Del("join")
			}
			if n == connecting {
				attempt(st, ev)
			}
			if n == closed && st.GetInt("failed") == 1 && st.GetInt("errset") == 0 {
				emit(st, ev, "error-unset", "Start", "the client is closed after a failure without its error")
			}
			st.SetInt("cur", n)
			st.Del("lastsig")
			st.Del("lastsiggo")
		case eng.EvClose:
			if st.GetInt("conpending") == 1 && st.GetInt("congo") == int64(st.GoID()) {
				st.Set("join", ev.Addr)
			}
		case eng.EvSend:
			if st.GetInt("conpending") == 1 && st.GetInt("congo") == int64(st.GoID()) && st.Get("cur") != nil && st.GetInt("cur") == connected {
				st.Set("join", ev.Addr)
			}
		case eng.EvRecv, eng.EvSelect:
			if ev.Kind == eng.EvSelect && ev.SendOK || ev.Addr == nil {
				return
			}
			if x := doneCtx(ev.Addr); x != nil {
				st.SetInt("over:"+ctxKey(x), 1)
			}
			if j := st.Get("join"); j != nil && j == ev.Addr && st.GetInt("congo") != int64(st.GoID()) {
				st.Del("conpending")
				st.Del("join")
			}
			if ev.Addr.Kind == eng.KObj {
				st.Set("lastsig", ev.Addr)
				st.SetInt("lastsiggo", int64(st.GoID()))
			}
			if v := st.Get("boffv"); v != nil && carries(st, ev.Addr, v) {
				st.SetInt("waited", 1)
			}
		case eng.EvBranch:
			st.Facts(func(t *eng.Term, v bool) {
				if t.Kind != eng.KApp {
					return
				}
				if t.Op == "eq" {
					for i := 0; i < 2; i++ {
						a, b := t.Args[i], t.Args[1-i]
						if eng.IsNil(a) {
							if v && b.Ty != nil && isConn(b.Ty) && st.Get("connval") == nil {
								st.SetInt("connclean", 1) // there was none
							}
							if b.Ty != nil && v && st.GetInt("ranloop") == 1 && (typeName(b.Ty) == "closeMessage" || typeName(b.Ty) == "loop") {
								st.SetInt("allowed", 1)
							}
							if !v && b.Ty != nil && isErrT(b.Ty) && b.Call != nil && b.Call.Name != "(client).Err" {
								st.SetInt("failed", 1)
								if c := st.Get("connval"); c != nil && c.Call != nil && c.Call.Instr == b.Call.Instr {
									st.SetInt("connclean", 1) // the factory failed
								}
							}
						}
						if n, ok := eng.IntConst(a); ok {
							if v && n == connected && b.Ty != nil && typeName(b.Ty) == "ClientState" {
								st.SetInt("sawconnected", 1)
							}
							if !v && n == -1 && b == st.Get("boffv") {
								st.SetInt("nostop", 1)
							}
						}
					}
				}
				if v && st.GetInt("ranloop") == 1 && t.Any(func(x *eng.Term) bool {
					fv := eng.FieldVar(x)
					return fv != nil && fv.Name() == "AllowReconnect"
				}) && t.Op != "eq" && t.Op != "lt" {
					st.SetInt("allowed", 1)
				}
				x := t
				if strings.HasPrefix(x.Op, "assert:") {
					x = x.Args[0]
				}
				if v && isCallTo(eng.StripConv(x), "(sync/atomic.Value).Load", "(sync/atomic.Bool).Load") {
					st.SetInt("conknown", 1)
				}
			})
		case eng.EvEnd:
			if st.GoDepth() == 0 {
				r.inst("loop-exit", 1)
				if st.GetInt("cur") != closed {
					emit(st, ev, "not-closed", "Start", "the client's connect loop ends without closing the client")
				}
			}
		}
	}
	e = w.engine(cl)
	e.Run(fn, nil, nil)
	r.absorb(e)
	r.need(r.Instances["loop-run"] > 0, prop, "the client's message loop")
	r.need(r.Instances["reconnect"] > 0, prop, "the client's reconnect")
}

func checkC29(w *World, r *Report) {
	r.rule("on every path of the connect loop: the client is set connected only after the message loop signalled its start, and that goroutine is joined before another state is set; every exit sets the closed state, the error before it; a reconnect happens only when the last close message is absent or allows it, after the wait its backoff gave and not after the backoff's stop, and never on the connection of an earlier attempt; the backoff is reset only when the connected state was seen")
	w.runConnectLoop(r, "C29", nil)
	w.checkStop(r)
}

// checkStop: Stop cancels the context, waits for the connect loop and leaves the client closed.
func (w *World) checkStop(r *Report) {
	fn := w.method("client", "Stop")
	if !r.need(fn != nil, "C29", "the client's Stop") {
		return
	}
	closed, _ := w.constVal("ClientClosed")
	cl := &client{}
	cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		switch {
		case c.Name == "(sync.WaitGroup).Wait":
			if st.GetInt("cancelled") == 0 {
				st.Report("stop-order", "Stop", c.Pos(), "Stop waits for the client before cancelling it")
			}
			st.SetInt("waited", 1)
		case c.Fn == nil && !c.Invoke && c.FnTerm != nil && typeName(c.FnTerm.Ty) == "CancelFunc":
			st.SetInt("cancelled", 1)
		}
		return eng.Decision{}
	}
	cl.event = func(st *eng.State, ev *eng.Event) {
		if fieldStore(ev, "client", func(t types.Type) bool { return typeName(t) == "ClientState" }) {
			if n, ok := eng.IntConst(eng.StripConv(ev.Val)); ok && n == closed {
				st.SetInt("closed", 1)
				if st.GetInt("waited") == 0 {
					st.Report("stop-order", "Stop:closed", ev.Instr.Pos(), "Stop closes the client before its connect loop has ended")
				}
			}
		}
		if ev.Kind == eng.EvEnd && st.GetInt("cancelled") == 1 {
			r.inst("stop", 1)
			if st.GetInt("closed") == 0 {
				st.Report("not-closed", "Stop", ev.Instr.Pos(), "Stop leaves the client in another state than closed")
			}
		}
	}
	e := w.engine(cl)
	e.Run(fn, nil, nil)
	r.absorb(e)
	r.need(r.Instances["stop"] > 0, "C29", "cancelling in Stop")
}

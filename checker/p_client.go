package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

func init() {
	register("C03", checkC03)
	register("C04", checkC04)
	register("C08", checkC08)
}

var sendCalls = map[string]bool{"(HubConnection).SendInvocation": true, "(HubConnection).SendStreamInvocation": true,
	"(HubConnection).SendInvocationWithStreamIds": true}

var errType = types.Universe.Lookup("error").Type()

func chanElem(t *eng.Term) types.Type {
	if t == nil || t.Ty == nil {
		return nil
	}
	if c, ok := t.Ty.Underlying().(*types.Chan); ok {
		return c.Elem()
	}
	return nil
}

// recvOf: the channel a received value came from (directly).
func recvOf(t *eng.Term) *eng.Term {
	if t != nil && t.Kind == eng.KApp && strings.HasPrefix(t.Op, "recv") && len(t.Args) > 0 {
		return t.Args[0]
	}
	return nil
}

// clientRoot explores one method of the client with its goroutines inlined.
func (w *World) clientRoot(r *Report, name string, prop string, cl *client) {
	fn := w.method("client", name)
	if !r.need(fn != nil, prop, "the client's "+name) {
		return
	}
	c := &client{event: func(st *eng.State, ev *eng.Event) {
		noteCtx(st, ev)
		if cl.event != nil {
			cl.event(st, ev)
		}
	}}
	c.call = func(st *eng.State, ci *eng.CallInfo) eng.Decision {
		switch {
		case formatter(ci.Fn) && ci.Fn.Name() != "GetNewID":
			return opaque
		case ci.Name == "(client).WaitForState" && name != "WaitForState":
			return opaque
		case ci.Name == "(reflect.Value).Recv" || ci.Name == "(reflect.Value).TryRecv":
			// the upload streams are C02's subject
			return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Results: []*eng.Term{nil, st.E.Bool(false)}}}}
		}
		if cl.call != nil {
			return cl.call(st, ci)
		}
		return eng.Decision{}
	}
	e := w.engine(c)
	e.Run(fn, nil, nil)
	r.absorb(e)
}

// failure: an error value known on this path that says the call could not be made.
func isFailureSource(t *eng.Term) bool {
	if t == nil {
		return false
	}
	if t.Call != nil && sendCalls[t.Call.Name] {
		return true
	}
	if ch := recvOf(t); ch != nil && ch.Call != nil && ch.Call.Name == "(client).WaitForState" {
		return true
	}
	return false
}

func noteFailure(st *eng.State) {
	if st.Get("fail") != nil {
		return
	}
	st.Facts(func(t *eng.Term, v bool) {
		if !v && t.Kind == eng.KApp && t.Op == "eq" {
			for i := 0; i < 2; i++ {
				if eng.IsNil(t.Args[i]) {
					x := t.Args[1-i]
					if isFailureSource(x) {
						st.Set("fail", x)
					}
				}
			}
		}
	})
}

func checkC03(w *World, r *Report) {
	r.rule("on every path of Invoke, Send, PullStream and PushStreams, goroutines included, the returned channel and every intermediate InvokeResult channel is closed exactly once and never sent to afterwards; when waiting for the connection or sending failed, that error is sent to the returned channel first; a value taken from an inner channel is passed on before the next one is taken, errors as errors and values as values")
	r.rule("WaitForState closes its channel exactly once on every path; a path that never saw the awaited state sends an error")
	for _, name := range []string{"Invoke", "Send", "PullStream", "PushStreams"} {
		name := name
		cl := &client{}
		k := func(p string, t *eng.Term) string { return fmt.Sprintf("%s:%d", p, t.ID) }
		send := func(st *eng.State, ch, val *eng.Term, pos token.Pos) {
			el := chanElem(ch)
			if el == nil || !(types.Identical(el, errType) || typeName(el) == "InvokeResult") {
				return
			}
			if st.GetInt(k("closed", ch)) > 0 {
				st.Report("send-after-close", name, pos, "%s sends to a result channel after it was closed", name)
			}
			part := func(field string) *eng.Term {
				if typeName(el) == "InvokeResult" && val.Kind == eng.KStruct {
					return fieldOf(st.E, val, field)
				}
				return val
			}
			if h := st.Get("hold"); h != nil {
				f := "Value"
				if h.Ty != nil && types.Identical(h.Ty, errType) {
					f = "Error"
				}
				if p := part(f); p != nil && carries(st, p, h) {
					st.Del("hold")
					if src := recvOf(h); src != nil {
						st.Set(k("dest", src), ch)
					}
				}
			}
			ev := part("Error")
			if f := st.Get("fail"); f != nil && ev != nil && carries(st, ev, f) {
				st.SetInt(k("carry", ch), 1)
			}
			if ev != nil {
				ev.Any(func(x *eng.Term) bool {
					if src := recvOf(x); src != nil && st.GetInt(k("carry", src)) == 1 {
						st.SetInt(k("carry", ch), 1)
						return true
					}
					return false
				})
			}
			if st.GetInt(k("pend", ch)) < 3 {
				st.SetInt(k("pend", ch), st.GetInt(k("pend", ch))+1)
			}
		}
		lost := func(st *eng.State, pos token.Pos) {
			h := st.Get("hold")
			if h == nil {
				return
			}
			if ok := st.Get("holdok"); ok != nil {
				if v, known := st.Fact(ok); !known || !v {
					st.Del("hold")
					return
				}
			}
			st.Report("lost-result", name, pos, "%s takes a result without passing it on", name)
			st.Del("hold")
		}
		recv := func(st *eng.State, ch, val, ok *eng.Term, pos token.Pos) {
			el := chanElem(ch)
			if el == nil || st.GoDepth() == 0 || (ch.Call != nil && (ch.Call.Name == "(client).WaitForState" || ch.Call.Name == "(context.Context).Done")) {
				return
			}
			if s, isS := el.Underlying().(*types.Struct); isS && s.NumFields() == 0 {
				return
			}
			lost(st, pos)
			if n := st.GetInt(k("pend", ch)); n > 0 && ok != nil {
				st.Assume(ok, true)
				st.SetInt(k("pend", ch), n-1)
			} else if st.GetInt(k("closed", ch)) > 0 && ok != nil {
				st.Assume(ok, false)
				return
			}
			if d := st.Get(k("dest", ch)); d != nil && st.GetInt(k("closed", d)) > 0 {
				// the results of this channel have been passed on and their end was given to the caller: it is
				// only received from to let its sender end
				return
			}
			st.Set("hold", val)
			st.Set("holdok", ok)
		}
		cl.event = func(st *eng.State, ev *eng.Event) {
			switch ev.Kind {
			case eng.EvBranch:
				noteFailure(st)
				if h, ok := st.Get("hold"), st.Get("holdok"); h != nil && ok != nil {
					if v, known := st.Fact(ok); known && !v {
						st.Del("hold")
					} else if known && v {
						st.Set("holdok", st.E.Bool(true))
					}
				}
			case eng.EvMake:
				if typeName(chanElemT(ev.Addr)) == "InvokeResult" {
					st.Set(k("made", ev.Addr), ev.Addr)
				}
			case eng.EvClose:
				if ev.Addr.Kind != eng.KObj {
					return
				}
				st.SetInt(k("closed", ev.Addr), min(st.GetInt(k("closed", ev.Addr))+1, 3))
			case eng.EvSend:
				send(st, ev.Addr, ev.Val, ev.Instr.Pos())
			case eng.EvSelect:
				if ev.Addr == nil {
					return
				}
				if ev.SendOK {
					send(st, ev.Addr, ev.Val, ev.Instr.Pos())
				} else {
					recv(st, ev.Addr, ev.Val, ev.Ok, ev.Instr.Pos())
				}
			case eng.EvRecv:
				recv(st, ev.Addr, ev.Val, ev.Ok, ev.Instr.Pos())
			case eng.EvEnd:
				r.inst("path-end", 1)
				lost(st, ev.Instr.Pos())
				if len(ev.Vals) == 0 {
					return
				}
				ret := eng.StripConv(ev.Vals[0])
				pos := ev.Instr.Pos()
				if n := st.GetInt(k("closed", ret)); n != 1 {
					st.Report("close-count", fmt.Sprintf("%s:%d", name, n), pos, "the channel %s returns is closed %d times on a path", name, n)
				}
				for key, t := range st.A {
					if strings.HasPrefix(key, "made:") && t != ret {
						if n := st.GetInt(k("closed", t)); n != 1 {
							st.Report("close-count", fmt.Sprintf("%s:inner:%d", name, n), pos, "an intermediate result channel of %s is closed %d times on a path", name, n)
						}
					}
				}
				if f := st.Get("fail"); f != nil && st.GetInt("ctxover") == 0 && st.GetInt(k("carry", ret)) == 0 {
					st.Report("error-lost", name, pos, "%s could not be made, but its channel is closed without that error", name)
				}
				if st.Get("fail") != nil {
					r.inst("failed-call", 1)
				}
			}
		}
		w.clientRoot(r, name, "C03", cl)
	}
	w.checkWaitForState(r)
}

func chanElemT(t *eng.Term) types.Type {
	if e := chanElem(t); e != nil {
		return e
	}
	return types.Typ[types.Invalid]
}

func (w *World) checkWaitForState(r *Report) {
	fn := w.method("client", "WaitForState")
	if !r.need(fn != nil, "C03", "the client's WaitForState") {
		return
	}
	var e *eng.Engine
	cl := &client{}
	var want *eng.Term
	k := func(p string, t *eng.Term) string { return fmt.Sprintf("%s:%d", p, t.ID) }
	cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		if c.Name == "(client).ObserveStateChanged" {
			st.SetInt("observing", 1)
			return opaque
		}
		if c.Name == "(client).State" && st.GetInt("observing") == 1 {
			st.SetInt("checked", 1)
		}
		if formatter(c.Fn) {
			return opaque
		}
		return eng.Decision{}
	}
	cl.event = func(st *eng.State, ev *eng.Event) {
		switch ev.Kind {
		case eng.EvRecv, eng.EvSelect:
			if st.GetInt("observing") == 1 && st.GetInt("checked") == 0 {
				st.Report("missed-change", "WaitForState", ev.Instr.Pos(), "WaitForState waits without looking at the state after it began to observe changes; a change right before that is missed")
			}
		case eng.EvLoad:
			if st.GetInt("observing") == 1 && ev.Addr != nil && ev.Addr.Kind == eng.KFieldA && namedIs(ev.Addr.Args[0].Ty, "client") {
				if fv := eng.FieldVar(ev.Addr); fv != nil && typeName(fv.Type()) == "ClientState" {
					st.SetInt("checked", 1)
				}
			}
		case eng.EvBranch:
			st.Facts(func(t *eng.Term, v bool) {
				if v && t.Kind == eng.KApp && t.Op == "eq" && (t.Args[0] == want || t.Args[1] == want) {
					st.SetInt("reached", 1)
				}
			})
		case eng.EvClose:
			st.SetInt(k("closed", ev.Addr), min(st.GetInt(k("closed", ev.Addr))+1, 3))
		case eng.EvSend:
			if st.GetInt(k("closed", ev.Addr)) > 0 {
				st.Report("send-after-close", "WaitForState", ev.Instr.Pos(), "an error is sent after the channel was closed")
			}
			if el := chanElem(ev.Addr); el != nil && types.Identical(el, errType) {
				if n, known := isNilTerm(st, ev.Val); known && n {
					return
				}
				st.SetInt(k("sent", ev.Addr), min(st.GetInt(k("sent", ev.Addr))+1, 3))
			}
		case eng.EvEnd:
			r.inst("wait-path", 1)
			if len(ev.Vals) == 0 {
				return
			}
			ret := eng.StripConv(ev.Vals[0])
			if n := st.GetInt(k("closed", ret)); n != 1 {
				st.Report("close-count", fmt.Sprintf("WaitForState:%d", n), ev.Instr.Pos(), "the channel of WaitForState is closed %d times on a path", n)
			}
			n := st.GetInt(k("sent", ret))
			if st.GetInt("reached") == 0 && n == 0 {
				st.Report("no-error", "WaitForState", ev.Instr.Pos(), "WaitForState ends without an error although the state was not seen")
			}
			if st.GetInt("reached") == 1 && n > 0 {
				st.Report("false-error", "WaitForState", ev.Instr.Pos(), "WaitForState reports an error although the state was reached")
			}
			if n > 1 {
				st.Report("error-count", "WaitForState", ev.Instr.Pos(), "WaitForState sends %d errors to a channel with room for one", n)
			}
		}
	}
	e = w.engine(cl)
	want = e.Param("waitFor", fn.Params[2].Type())
	e.Run(fn, []*eng.Term{nil, nil, want}, nil)
	r.absorb(e)
}

// ---- C04 -------------------------------------------------------------------------------------

func checkC04(w *World, r *Report) {
	r.rule("on every path of Invoke, Send, PullStream and PushStreams the id given to the hub connection's Send method was registered in the registry of pending calls (and for a streamed result also in the registry of streams) before, by the same goroutine; nothing is registered under the id afterwards; when sending fails every registration made under the id is removed")
	regs := w.registries()
	for _, name := range []string{"Invoke", "Send", "PullStream", "PushStreams"} {
		name := name
		cl := &client{}
		cl.event = func(st *eng.State, ev *eng.Event) {
			switch ev.Kind {
			case eng.EvBranch:
				noteFailure(st)
			case eng.EvMapUpdate:
				v := mapField(ev.Addr)
				if v == nil || !regs[v] {
					return
				}
				r.inst("registration", 1)
				st.Set("reg:"+v.Name(), ev.Key)
				st.SetInt("regby:"+v.Name(), int64(st.GoID()))
				if s := st.Get("sentid"); s != nil {
					st.Report("registered-late", name+":"+v.Name(), ev.Instr.Pos(), "%s registers in %s after the message was sent: an early answer is lost", name, v.Name())
				}
			case eng.EvDelete:
				v := mapField(ev.Addr)
				if v == nil || !regs[v] {
					return
				}
				if id := st.Get("sentid"); id != nil && ev.Key == id {
					st.SetInt("dereg:"+v.Name(), 1)
				}
			case eng.EvLookup:
				v := mapField(ev.Addr)
				if v != nil && regs[v] && ev.Ok != nil && st.Get("reg:"+v.Name()) == ev.Key && ev.Key != nil && st.GetInt("dereg:"+v.Name()) == 0 {
					st.Assume(ev.Ok, true)
				}
			case eng.EvEnd:
				id := st.Get("sentid")
				f := st.Get("fail")
				if id == nil || f == nil || f.Call == nil {
					return
				}
				r.inst("failed-send", 1)
				for v := range regs {
					if st.Get("reg:"+v.Name()) == id && st.GetInt("dereg:"+v.Name()) == 0 {
						st.Report("registration-left", name+":"+v.Name(), ev.Instr.Pos(), "%s leaves its registration in %s although sending failed", name, v.Name())
					}
				}
			}
		}
		cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
			if !sendCalls[c.Name] {
				return eng.Decision{}
			}
			r.inst("send-site", 1)
			id := c.Arg(0)
			r.sample("%s: %s in %s", st.E.Pos(c.Pos()), c.Name, fname(c.In))
			st.Set("sentid", id)
			for v := range regs {
				isErr := false
				if s, ok := v.Type().Underlying().(*types.Map).Elem().Underlying().(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						if cc, ok := s.Field(i).Type().Underlying().(*types.Chan); ok && types.Identical(cc.Elem(), errType) {
							isErr = true
						}
					}
				}
				key := st.Get("reg:" + v.Name())
				needed := isErr || c.Name == "(HubConnection).SendStreamInvocation"
				switch {
				case needed && key == nil:
					st.Report("unregistered", name+":"+v.Name(), c.Pos(), "%s sends a message before anything is registered for its answer in %s", name, v.Name())
				case key != nil && key != id:
					st.Report("wrong-id", name+":"+v.Name(), c.Pos(), "%s registers %v but sends %v", name, key, id)
				case key != nil && st.GetInt("regby:"+v.Name()) != int64(st.GoID()) && !onGoStack(st, st.GetInt("regby:"+v.Name())):
					st.Report("unordered", name+":"+v.Name(), c.Pos(), "%s registers in another goroutine than it sends, the answer may be faster", name)
				}
			}
			return opaque
		}
		w.clientRoot(r, name, "C04", cl)
	}
	r.need(r.Instances["failed-send"] > 0, "C04", "paths on which sending fails")
}

// onGoStack: the goroutine id is the current one or one of its spawners.
func onGoStack(st *eng.State, id int64) bool {
	fr := st.Frames()
	for _, f := range fr {
		if f.Kind == eng.GoF && int64(f.Ctx) == id {
			return true
		}
	}
	return id == 0
}

// ---- C08 -------------------------------------------------------------------------------------

// counterAdd: t is the result of one atomic increment; returns its address term.
func counterAdd(t *eng.Term) *eng.Term {
	var a *eng.Term
	t.Any(func(x *eng.Term) bool {
		if x.Call == nil {
			return false
		}
		switch x.Call.Name {
		case "sync/atomic.AddUint64", "sync/atomic.AddInt64", "sync/atomic.AddUint32", "sync/atomic.AddInt32":
			if n, ok := eng.IntConst(x.Call.Args[1]); ok && n != 0 {
				a = x.Call.Args[0]
			}
		case "(sync/atomic.Uint64).Add", "(sync/atomic.Int64).Add", "(sync/atomic.Uint32).Add", "(sync/atomic.Int32).Add":
			if n, ok := eng.IntConst(x.Call.Arg(0)); ok && n != 0 {
				a = x.Call.Recv
			}
		}
		return a != nil
	})
	return a
}

func randomID(t *eng.Term) bool {
	return t.Any(func(x *eng.Term) bool {
		return x.Call != nil && (strings.HasPrefix(x.Call.Name, "github.com/google/uuid.New") || strings.HasPrefix(x.Call.Name, "(github.com/google/uuid.UUID)"))
	})
}

// formatsWhole: the whole counter value is formatted, not a reduced one.
func formatsWhole(st *eng.State, id *eng.Term) bool {
	bad := false
	walkDeep(st, id, func(x *eng.Term) bool {
		if x.Kind == eng.KApp {
			if strings.HasPrefix(x.Op, "narrow:") {
				bad = true
			}
			switch x.Op {
			case "%", "&", ">>", "/":
				bad = true
			case "slice":
				bad = bad || isStr(x.Ty)
			case "conv", "conv:uint8", "conv:uint16", "conv:int8", "conv:int16":
				if b, ok := x.Ty.Underlying().(*types.Basic); ok {
					switch b.Kind() {
					case types.Uint8, types.Uint16, types.Int8, types.Int16:
						bad = true
					}
				}
			}
		}
		return bad
	})
	return !bad
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func checkC08(w *World, r *Report) {
	r.rule("every id that Invoke, Send, PullStream and PushStreams give to the hub connection or announce for an upload is the formatted result of its own single atomic increment of the connection's counter; two ids of one message never come from the same increment; nothing else writes the counter")
	counters := map[*types.Var]bool{}
	idOK := func(st *eng.State, name, what string, id *eng.Term, pos token.Pos) (inc *eng.Term) {
		id = eng.StripConv(id)
		r.inst("id", 1)
		if randomID(id) {
			return nil
		}
		var addr *eng.Term
		deep := false
		walkDeep(st, id, func(x *eng.Term) bool {
			if addr == nil {
				if addr = counterAdd(x); addr != nil {
					inc = x
				}
			}
			if x.Kind == eng.KApp && x.Op == "deep" {
				deep = true
			}
			return addr != nil
		})
		if addr == nil {
			if deep {
				return nil
			}
			st.Report("not-atomic", name+":"+what, pos, "the %s id of %s is not the result of one atomic increment: %v", what, name, id)
			return nil
		}
		if fv := eng.FieldVar(addr); fv != nil {
			counters[fv] = true
		} else if addr.Kind == eng.KGlobal {
			// one counter of the process is unique per connection as well
		} else {
			st.Report("counter", name+":"+what, pos, "the counter behind the %s id is not a field of the connection: %v", what, addr)
		}
		if !formatsWhole(st, id) {
			st.Report("truncated", name+":"+what, pos, "the %s id of %s does not show the whole counter", what, name)
		}
		return inc
	}
	for _, name := range []string{"Invoke", "Send", "PullStream", "PushStreams"} {
		name := name
		cl := &client{}
		cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
			if !sendCalls[c.Name] {
				return eng.Decision{}
			}
			id := c.Arg(0)
			inc := idOK(st, name, "invocation", id, c.Pos())
			if c.Name == "(HubConnection).SendInvocationWithStreamIds" {
				els := st.SliceElems(c.Arg(3))
				seen := map[*eng.Term]bool{id: true, inc: inc != nil}
				for _, x := range els {
					xi := idOK(st, name, "stream", x, c.Pos())
					if seen[x] || xi != nil && seen[xi] {
						st.Report("shared", name, c.Pos(), "two ids of one message come from the same increment")
					}
					seen[x] = true
					if xi != nil {
						seen[xi] = true
					}
				}
				if len(els) > 1 {
					r.inst("several-streams", 1)
				}
			}
			return opaque
		}
		w.clientRoot(r, name, "C08", cl)
	}
	// nothing else writes the counters
	for _, f := range w.Sort {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !counters[fieldVarOfSSA(fa)] {
					continue
				}
				if _, fresh := fa.X.(*ssa.Alloc); fresh {
					continue
				}
				r.find("counter-written", fname(f), s.Pos(), "%s sets the id counter", fname(f))
			}
		}
		for _, c := range callsIn(f) {
			n := calleeName(c.Common())
			if strings.HasPrefix(n, "sync/atomic.Store") || strings.HasPrefix(n, "sync/atomic.Swap") || strings.HasPrefix(n, "sync/atomic.CompareAndSwap") {
				if fa, ok := c.Common().Args[0].(*ssa.FieldAddr); ok && counters[fieldVarOfSSA(fa)] {
					r.find("counter-written", fname(f), c.Pos(), "%s sets the id counter", fname(f))
				}
			}
		}
	}
}

// walkDeep walks a term through call arguments and slice elements.
func walkDeep(st *eng.State, t *eng.Term, f func(x *eng.Term) bool) {
	seen := map[*eng.Term]bool{}
	var walk func(x *eng.Term, d int) bool
	walk = func(x *eng.Term, d int) bool {
		if x == nil || d > 14 || seen[x] {
			return false
		}
		seen[x] = true
		if f(x) {
			return true
		}
		for _, a := range x.Args {
			if walk(a, d+1) {
				return true
			}
		}
		if x.Call != nil {
			for _, a := range x.Call.Args {
				if walk(a, d+1) {
					return true
				}
				for _, el := range st.SliceElems(a) {
					if walk(el, d+1) {
						return true
					}
				}
			}
		}
		return false
	}
	walk(t, 0)
}

package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

func init() {
	register("C05", checkC05)
	register("C06", checkC06)
	register("C07", checkC07)
	register("C31", checkC31)
	register("C40", checkC40)
}

// registries are the map fields of the package's structs that hold channels somebody waits on.
func (w *World) registries() map[*types.Var]bool {
	out := map[*types.Var]bool{}
	var holds func(t types.Type, d int) bool
	holds = func(t types.Type, d int) bool {
		if d > 3 {
			return false
		}
		switch u := t.Underlying().(type) {
		case *types.Chan:
			return true
		case *types.Struct:
			if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" {
				return n.Obj().Name() == "Value"
			}
			if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != w.Types {
				return false
			}
			for i := 0; i < u.NumFields(); i++ {
				if holds(u.Field(i).Type(), d+1) {
					return true
				}
			}
		case *types.Pointer:
			if n, ok := u.Elem().(*types.Named); ok && n.Obj().Pkg() == w.Types {
				return holds(u.Elem(), d+1)
			}
		}
		return false
	}
	sc := w.Types.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		s, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			if m, ok := s.Field(i).Type().Underlying().(*types.Map); ok && holds(m.Elem(), 0) {
				out[s.Field(i)] = true
			}
		}
	}
	return out
}

// mapField gives the struct field a map term was loaded from.
func mapField(t *eng.Term) *types.Var {
	var v *types.Var
	if t == nil {
		return nil
	}
	t.Any(func(x *eng.Term) bool {
		if x.Kind == eng.KFieldA || x.Kind == eng.KField {
			if f := eng.FieldVar(x); f != nil {
				if _, ok := f.Type().Underlying().(*types.Map); ok {
					v = f
					return true
				}
			}
		}
		return false
	})
	return v
}

// chanParts counts the channels a registry entry holds.
func chanParts(t types.Type) []string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		if n, ok := t.(*types.Named); ok && n.Obj().Name() == "Value" && n.Obj().Pkg().Path() == "reflect" {
			return []string{"value"}
		}
		var out []string
		for i := 0; i < s.NumFields(); i++ {
			if _, ok := s.Field(i).Type().Underlying().(*types.Chan); ok {
				out = append(out, s.Field(i).Name())
			}
		}
		return out
	}
	return []string{"value"}
}

// partOf says which channel of the registry entry rec the channel term is: a field name or "value".
func partOf(ch, rec *eng.Term) (string, bool) {
	if ch == rec {
		return "value", true
	}
	part, ok := "", false
	ch.Any(func(x *eng.Term) bool {
		if x.Kind == eng.KField && x.Args[0] == rec {
			part, ok = eng.FieldVar(x).Name(), true
			return true
		}
		if x.Kind == eng.KFieldA && x.Args[0] == rec {
			part, ok = eng.FieldVar(x).Name(), true
			return true
		}
		if x == rec {
			part, ok = "value", true
			return true
		}
		return false
	})
	return part, ok
}

func checkC05(w *World, r *Report) {
	r.rule("on every way out of the message loop the connection is aborted and afterwards every registry of pending calls and streams (map fields holding channels) is ranged over; in each iteration every channel of the entry is closed, after an error was delivered to the calls' error channel; so calls registered later fail at sending")
	run := w.loopRun()
	if !r.need(run != nil, "C05", "the loop's Run method") {
		return
	}
	regs := w.registries()
	r.need(len(regs) >= 2, "C05", "registries of pending calls and streams")
	r.rule("a goroutine that closes a channel of results or errors because a context ended has sent an error to it")
	wt := &waits{w: w, r: r, id: "C05", only: "closed-without-error"}
	wt.index()
	wt.after()
	for v := range regs {
		r.inst("registry", 1)
		r.sample("registry %s", v.Name())
	}
	byIter := func(t *eng.Term) *types.Var {
		v := mapField(t)
		if v != nil && regs[v] {
			return v
		}
		return nil
	}
	d := &loopDrv{r: r, kinds: map[string]bool{"closeMessage": true}, noMsg: true}
	checkIter := func(st *eng.State, v *types.Var) {
		cur, ok := st.Get("cur:"+v.Name()), st.Get("curok:"+v.Name())
		if cur == nil {
			return
		}
		if t, known := st.Fact(ok); known && !t {
			return
		}
		for _, p := range chanParts(cur.Ty) {
			if st.GetInt("closed:"+v.Name()+":"+p) == 0 {
				st.Report("left-open", v.Name()+"."+p, run.Pos(), "at the end of the connection the %s channel of an entry in %s is not closed", p, v.Name())
			}
		}
		if s, isS := cur.Ty.Underlying().(*types.Struct); isS {
			for i := 0; i < s.NumFields(); i++ {
				if c, isC := s.Field(i).Type().Underlying().(*types.Chan); isC && types.Identical(c.Elem(), types.Universe.Lookup("error").Type()) {
					if st.GetInt("err:"+v.Name()) == 0 {
						st.Report("no-error", v.Name(), run.Pos(), "at the end of the connection no error is delivered to an entry in %s", v.Name())
					}
				}
			}
		}
	}
	d.event = func(st *eng.State, ev *eng.Event) {
		switch ev.Kind {
		case eng.EvRange:
			if v := byIter(ev.Addr); v != nil && st.GoDepth() == 0 {
				if st.GetInt("aborted") == 0 {
					st.Report("cleanup-before-abort", v.Name(), ev.Instr.Pos(), "%s is cleaned up before the connection is aborted: a call registered in between is sent but never answered", v.Name())
				}
				st.SetInt("ranged:"+v.Name(), 1)
			}
		case eng.EvNext:
			if v := byIter(ev.Addr); v != nil {
				checkIter(st, v)
				st.Set("cur:"+v.Name(), ev.Val)
				st.Set("curok:"+v.Name(), ev.Ok)
				for _, p := range chanParts(ev.Val.Ty) {
					st.Del("closed:" + v.Name() + ":" + p)
				}
				st.Del("err:" + v.Name())
			}
		case eng.EvClose, eng.EvSend:
			for v := range regs {
				if cur := st.Get("cur:" + v.Name()); cur != nil && ev.Addr != nil {
					if p, ok := partOf(ev.Addr, cur); ok {
						if ev.Kind == eng.EvClose {
							st.SetInt("closed:"+v.Name()+":"+p, 1)
						} else if n, known := isNilTerm(st, ev.Val); (!known || !n) && st.GetInt("closed:"+v.Name()+":"+p) == 0 {
							st.SetInt("err:"+v.Name(), 1)
						}
					}
				}
			}
		}
	}
	d.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		switch c.Name {
		case "(HubConnection).Abort":
			st.SetInt("aborted", 1)
		case "(reflect.Value).Close":
			for v := range regs {
				if cur := st.Get("cur:" + v.Name()); cur != nil && c.Recv != nil {
					if p, ok := partOf(c.Recv, cur); ok {
						st.SetInt("closed:"+v.Name()+":"+p, 1)
					}
				}
			}
		}
		return eng.Decision{}
	}
	d.final = func(st *eng.State, ended bool, res *eng.Term) {
		if !ended {
			return
		}
		r.inst("loop-end", 1)
		if st.GetInt("aborted") == 0 {
			st.Report("not-aborted", "end", run.Pos(), "the message loop ends without aborting the connection")
		}
		for v := range regs {
			if st.GetInt("ranged:"+v.Name()) == 0 {
				st.Report("undrained", v.Name(), run.Pos(), "the message loop ends without ending what waits in %s", v.Name())
			} else {
				checkIter(st, v)
			}
		}
	}
	d.run(w, run)
}

// ---- C06 -------------------------------------------------------------------------------------

func checkC06(w *World, r *Report) {
	r.rule("while a completion or stream item is handled every lookup and removal in a registry of pending calls or streams uses the id of that message; a found call gets its error or its decoded result once and never both, is removed and its channels are closed once in one critical section; when nothing is registered under the id the loop ends with an error")
	run := w.loopRun()
	if !r.need(run != nil, "C06", "the loop's Run method") {
		return
	}
	regs := w.registries()
	seen := sites{}
	d := &loopDrv{r: r, kinds: map[string]bool{"completionMessage": true, "streamItemMessage": true}}
	reg := func(t *eng.Term) *types.Var {
		if v := mapField(t); v != nil && regs[v] {
			return v
		}
		return nil
	}
	idOf := func(st *eng.State) *eng.Term { return fieldOf(d.e, d.msg(st), "InvocationID") }
	// entryOf: which registry's entry does a channel term come from
	var entry *eng.Term
	entryOf := func(ch *eng.Term) (v *types.Var, errChan bool) {
		entry = nil
		if ch == nil {
			return nil, false
		}
		ch.Any(func(x *eng.Term) bool {
			if x.Kind == eng.KApp && x.Op == "lookup" {
				v = reg(x.Args[0])
				entry = x
				return v != nil
			}
			return false
		})
		if c, ok := ch.Ty.Underlying().(*types.Chan); ok && types.Identical(c.Elem(), types.Universe.Lookup("error").Type()) {
			errChan = true
		}
		return
	}
	isErrReg := func(v *types.Var) bool {
		s, ok := v.Type().Underlying().(*types.Map).Elem().Underlying().(*types.Struct)
		if !ok {
			return false
		}
		for i := 0; i < s.NumFields(); i++ {
			if c, ok := s.Field(i).Type().Underlying().(*types.Chan); ok && types.Identical(c.Elem(), types.Universe.Lookup("error").Type()) {
				return true
			}
		}
		return false
	}
	deliver := func(st *eng.State, ch, val *eng.Term, ins ssa.Instruction) {
		v, isErr := entryOf(ch)
		if v == nil {
			return
		}
		msg := d.msg(st)
		k := "val"
		if isErr {
			k = "err"
			if n, known := isNilTerm(st, val); known && n {
				st.Report("empty-delivery", kindOf(st), ins.Pos(), "a nil error is delivered to the waiting call in addition to its result")
				return
			}
			if !carries(st, val, fieldOf(d.e, msg, "Error")) {
				st.Report("wrong-error", kindOf(st), ins.Pos(), "the error delivered to the call is not the completion's error: %v", val)
			}
		}
		seen.add(r, "delivery", d.e.Pos(ins.Pos()), "delivery to "+v.Name()+" ("+k+")")
		if st.GetInt("closed:"+v.Name()) == 1 {
			st.Report("send-after-close", kindOf(st), ins.Pos(), "a value is sent to a channel of %s after it was closed", v.Name())
		}
		n := st.GetInt(k) + 1
		if n > 2 {
			n = 2
		}
		st.SetInt(k, n)
	}
	closing := func(st *eng.State, ch *eng.Term, ins ssa.Instruction) {
		v, isErr := entryOf(ch)
		if v == nil {
			return
		}
		k := "closed:" + v.Name()
		if isErr {
			k = "eclosed:" + v.Name()
		}
		if st.GetInt(k) == 1 {
			st.Report("double-close", v.Name(), ins.Pos(), "a channel of %s is closed twice", v.Name())
		}
		st.SetInt(k, 1)
		st.SetInt(k+":sec", st.GetInt("sec"))
		if kindOf(st) == "streamItemMessage" {
			st.Report("item-closes", v.Name(), ins.Pos(), "receiving a stream item closes the stream's channel")
		}
		// Whoever removes an entry owns it, when it was looked up in the critical section of the removal
		looked := st.GetInt(fmt.Sprintf("lk:%p", entry))
		owned := st.GetInt("deleted:"+v.Name()) == 1 && st.GetInt("deleted:"+v.Name()+":sec") == looked
		if owned {
			st.SetInt("owned:"+v.Name(), 1)
		} else if looked != st.GetInt("sec") {
			st.Report("stale-entry", v.Name(), ins.Pos(), "a channel of %s is closed which was looked up in an earlier critical section, somebody else might have closed it meanwhile", v.Name())
		}
		if st.GetInt("held") == 0 && !owned {
			st.Report("close-unlocked", v.Name(), ins.Pos(), "a channel registered in %s is closed outside the critical section that removes it", v.Name())
		}
	}
	d.event = func(st *eng.State, ev *eng.Event) {
		if d.msg(st) == nil || st.GetInt("over") == 1 {
			return
		}
		switch ev.Kind {
		case eng.EvLookup, eng.EvDelete, eng.EvMapUpdate:
			v := reg(ev.Addr)
			if v == nil {
				return
			}
			seen.add(r, "registry-access", d.e.Pos(ev.Instr.Pos()), "access of "+v.Name()+" while a message is handled")
			if ev.Key != idOf(st) {
				st.Report("wrong-id", v.Name(), ev.Instr.Pos(), "%s is accessed under %v instead of the id of the message", v.Name(), ev.Key)
			}
			if ev.Kind == eng.EvLookup && ev.Val != nil && st.GetInt("held") > 0 {
				st.SetInt(fmt.Sprintf("lk:%p", ev.Val), st.GetInt("sec"))
			}
			if ev.Kind == eng.EvLookup && ev.Ok != nil {
				// only this goroutine completes calls, so lookups on one path agree
				if st.GetInt("deleted:"+v.Name()) == 1 || st.GetInt("absent:"+v.Name()) == 1 {
					st.Assume(ev.Ok, false)
				} else if st.GetInt("found:"+v.Name()) == 1 {
					st.Assume(ev.Ok, true)
				}
				st.Set("ok:"+v.Name()+":"+d.e.Pos(ev.Instr.Pos()), ev.Ok)
			}
			if ev.Kind == eng.EvDelete {
				st.SetInt("deleted:"+v.Name(), 1)
				st.SetInt("deleted:"+v.Name()+":sec", st.GetInt("sec"))
				if st.GetInt("held") == 0 {
					st.Report("delete-unlocked", v.Name(), ev.Instr.Pos(), "an entry of %s is removed without holding its lock", v.Name())
				}
			}
		case eng.EvBranch:
			for k, t := range st.A {
				if strings.HasPrefix(k, "ok:") {
					if b, known := st.Fact(t); known && st.GetInt("deleted:"+strings.Split(k, ":")[1]) == 0 {
						if b {
							st.SetInt("found:"+strings.Split(k, ":")[1], 1)
						} else {
							st.SetInt("absent:"+strings.Split(k, ":")[1], 1)
						}
					}
				}
			}
		case eng.EvSend:
			deliver(st, ev.Addr, ev.Val, ev.Instr)
		case eng.EvClose:
			closing(st, ev.Addr, ev.Instr)
		case eng.EvSelect:
			if isCallTo(ev.Addr, "time.After") || (ev.Addr != nil && ev.Addr.Any(func(t *eng.Term) bool { return isCallTo(t, "time.NewTimer") })) {
				st.SetInt("timedout", 1)
			}
			if ev.SendOK {
				deliver(st, ev.Addr, ev.Val, ev.Instr)
			}
		}
	}
	d.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		if d.msg(st) == nil || st.GetInt("over") == 1 {
			return eng.Decision{}
		}
		switch c.Name {
		case "(Party).onDisconnected": // dispatch is over, what follows is the cleanup of C05
			st.SetInt("over", 1)
		case "(sync.Mutex).Lock", "(sync.RWMutex).Lock":
			st.SetInt("held", st.GetInt("held")+1)
			if st.GetInt("sec") < 12 {
				st.SetInt("sec", st.GetInt("sec")+1)
			}
		case "(sync.Mutex).Unlock", "(sync.RWMutex).Unlock":
			st.SetInt("held", st.GetInt("held")-1)
		case "(reflect.Value).Send", "(reflect.Value).TrySend":
			deliver(st, c.Recv, c.Arg(0), c.Instr)
		case "(reflect.Value).Close":
			closing(st, c.Recv, c.Instr)
		}
		return eng.Decision{}
	}
	d.final = func(st *eng.State, ended bool, res *eng.Term) {
		msg, kind := d.msg(st), kindOf(st)
		r.inst("message-handled", 1)
		if st.GetInt("ctxover") == 1 && ended {
			return
		}
		var found []*types.Var
		for v := range regs {
			if st.GetInt("found:"+v.Name()) == 1 {
				found = append(found, v)
			}
		}
		isErr := false
		if ended {
			n, known := isNilTerm(st, res)
			isErr = !known || !n
		}
		if len(found) == 0 {
			if !ended || !isErr {
				st.Report("unknown-id", kind, run.Pos(), "a %s for an id nobody waits for does not end the connection with an error", kind)
			}
			return
		}
		if kind == "streamItemMessage" {
			if st.GetInt("val") != 1 && !(ended && isErr) {
				st.Report("item-delivery", fmt.Sprint(st.GetInt("val")), run.Pos(), "a stream item for an open stream is delivered %d times", st.GetInt("val"))
			}
			for _, v := range found {
				if st.GetInt("deleted:"+v.Name()) == 1 {
					st.Report("item-removes", v.Name(), run.Pos(), "receiving a stream item removes the stream")
				}
			}
			return
		}
		noErr, ek := emptyStr(st, fieldOf(d.e, msg, "Error"))
		noRes, rk := isNilTerm(st, fieldOf(d.e, msg, "Result"))
		nv, ne := st.GetInt("val"), st.GetInt("err")
		callFound := false
		for _, v := range found {
			if isErrReg(v) {
				callFound = true
			}
			if st.GetInt("deleted:"+v.Name()) == 0 {
				st.Report("not-removed", v.Name(), run.Pos(), "a completed entry of %s is not removed", v.Name())
			}
			if st.GetInt("closed:"+v.Name()) == 0 {
				st.Report("not-closed", v.Name(), run.Pos(), "a channel of a completed entry of %s is not closed", v.Name())
			}
			if isErrReg(v) && st.GetInt("eclosed:"+v.Name()) == 0 {
				st.Report("not-closed", v.Name()+":err", run.Pos(), "the error channel of a completed entry of %s is not closed", v.Name())
			}
			if st.GetInt("deleted:"+v.Name()) == 1 && st.GetInt("closed:"+v.Name()) == 1 && st.GetInt("owned:"+v.Name()) == 0 && st.GetInt("deleted:"+v.Name()+":sec") != st.GetInt("closed:"+v.Name()+":sec") {
				st.Report("not-atomic", v.Name(), run.Pos(), "removing an entry of %s and closing its channel are separate critical sections", v.Name())
			}
		}
		if nv+ne > 1 {
			st.Report("delivered-twice", kind, run.Pos(), "a completion is delivered %d times", nv+ne)
		}
		if ended && isErr {
			return
		}
		if ek && !noErr {
			if nv > 0 {
				st.Report("value-for-error", kind, run.Pos(), "a completion with an error delivers a value")
			}
			if ne == 0 && callFound {
				st.Report("lost-error", kind, run.Pos(), "the error of a completion is not delivered to the waiting call")
			}
		}
		if ek && noErr {
			if ne > 0 {
				st.Report("error-without-error", kind, run.Pos(), "a completion without an error delivers an error")
			}
			if rk && !noRes && nv == 0 {
				st.Report("lost-result", kind, run.Pos(), "the result of a completion is not delivered")
			}
			if rk && noRes && nv > 0 {
				st.Report("invented-result", kind, run.Pos(), "a completion without result delivers a value")
			}
		}
		if !ek {
			st.Report("error-ignored", kind, run.Pos(), "a completion is handled without looking at its error")
		} else if noErr && !rk {
			st.Report("result-ignored", kind, run.Pos(), "a completion is handled without looking at its result")
		}
	}
	d.run(w, run)
}

// carries: term t is built from part (directly or through calls).
func carries(st *eng.State, t, part *eng.Term) bool {
	if t == nil || part == nil {
		return false
	}
	found := false
	seen := map[*eng.Term]bool{}
	var walk func(x *eng.Term, d int)
	walk = func(x *eng.Term, d int) {
		if x == nil || found || seen[x] || d > 12 {
			return
		}
		seen[x] = true
		if x == part {
			found = true
			return
		}
		for _, a := range x.Args {
			walk(a, d+1)
		}
		if x.Call != nil {
			for _, a := range x.Call.Args {
				walk(a, d+1)
				for _, el := range st.SliceElems(a) {
					walk(el, d+1)
				}
			}
			walk(x.Call.Recv, d+1)
		}
		if x.Kind == eng.KObj {
			if v := st.PeekDeep(x); v != nil {
				for _, y := range v {
					walk(y, d+1)
				}
			}
		}
		for _, el := range st.SliceElems(x) {
			walk(el, d+1)
		}
	}
	walk(t, 0)
	return found
}

// ---- C07 -------------------------------------------------------------------------------------

func checkC07(w *World, r *Report) {
	r.rule("on every path of the message loop: the party is told 'connected' once before the first message is received, told 'disconnected' exactly once after the last one, a Close carrying the error precedes the abort whenever the loop ends with an error, and the connection is aborted last; the server's notifications reach the lifetime manager and the hub exactly once with the connection itself")
	run := w.loopRun()
	if !r.need(run != nil, "C07", "the loop's Run method") {
		return
	}
	d := &loopDrv{r: r, kinds: map[string]bool{"closeMessage": true, "hubMessage": true, "completionMessage": true}, noMsg: true}
	d.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		switch c.Name {
		case "(Party).onConnected":
			if st.GetInt("conn") >= 1 {
				st.Report("connected-twice", "run", c.Pos(), "the connected notification is sent twice")
			}
			if st.GetInt("rcv") == 1 {
				st.Report("connected-late", "run", c.Pos(), "the connected notification is sent after messages were received")
			}
			if st.GoDepth() > 0 || c.Go {
				st.Report("connected-async", "run", c.Pos(), "the connected notification is not ordered before the dispatch of messages")
			}
			st.SetInt("conn", 1)
		case "(Party).onDisconnected":
			if st.GetInt("disc") >= 1 {
				st.Report("disconnected-twice", "run", c.Pos(), "the disconnected notification is sent twice")
			}
			if st.GetInt("conn") == 0 {
				st.Report("disconnected-early", "run", c.Pos(), "the disconnected notification is sent before the connected one")
			}
			st.SetInt("disc", 1)
		case "(HubConnection).Close":
			if st.GetInt("aborted") == 1 {
				st.Report("close-after-abort", "run", c.Pos(), "the close message is written after the connection was aborted")
			}
			st.Set("closeArg", c.Args[len(c.Args)-2])
			n := len(c.Args)
			if !isCallTo(c.Args[n-1], "(Party).allowReconnect") {
				st.Report("close-reconnect", "run", c.Pos(), "the close message does not carry the party's reconnect permission")
			}
			if st.GoDepth() > 0 || c.Go {
				st.Report("close-async", "run", c.Pos(), "the close message is not ordered before the abort of the connection")
			}
			st.SetInt("close", 1)
			st.Set("closeErr", d.e.Int(1))
			st.Set("closeText", c.Args[n-2])
			st.SetInt("closeok", b2i(closeCarriesError(st, c.Args[n-2])))
		case "(HubConnection).Abort":
			if st.GetInt("disc") == 0 {
				st.Report("abort-before-disconnected", "run", c.Pos(), "the connection is aborted before the disconnected notification")
			}
			st.SetInt("aborted", 1)
		}
		return eng.Decision{}
	}
	d.event = func(st *eng.State, ev *eng.Event) {
		if (ev.Kind == eng.EvSelect || ev.Kind == eng.EvRecv) && ev.Val != nil && isRecvResult(ev.Val.Ty) && !ev.SendOK && st.GoDepth() == 0 {
			st.SetInt("rcv", 1)
			if st.GetInt("conn") == 0 {
				st.Report("dispatch-before-connected", "run", ev.Instr.Pos(), "messages are received before the connected notification")
			}
			if st.GetInt("disc") == 1 {
				st.Report("dispatch-after-disconnected", "run", ev.Instr.Pos(), "messages are received after the disconnected notification")
			}
		}
	}
	d.final = func(st *eng.State, ended bool, res *eng.Term) {
		if !ended {
			return
		}
		r.inst("loop-end", 1)
		if st.GetInt("conn") != 1 {
			st.Report("no-connected", "run", run.Pos(), "a path through the message loop sends no connected notification")
		}
		if st.GetInt("disc") != 1 {
			st.Report("no-disconnected", "run", run.Pos(), "a path out of the message loop sends no disconnected notification")
		}
		if st.GetInt("aborted") != 1 {
			st.Report("no-abort", "run", run.Pos(), "a path out of the message loop does not cancel the connection's context")
		}
		isnil, known := isNilTerm(st, res)
		if !(known && isnil) {
			if st.GetInt("close") == 0 {
				st.Report("no-close", "run", run.Pos(), "the message loop ends with an error without sending a close message")
			} else if !carries(st, st.Get("closeText"), res) {
				st.Report("close-text", "run", run.Pos(), "the close message does not carry the error the loop ended with")
			}
		}
	}
	d.run(w, run)

	// the server's side of the notifications
	for _, m := range []struct{ name, life, hub string }{
		{"(server).onConnected", "(HubLifetimeManager).OnConnected", "(HubInterface).OnConnected"},
		{"(server).onDisconnected", "(HubLifetimeManager).OnDisconnected", "(HubInterface).OnDisconnected"},
	} {
		fn := w.Func(m.name)
		if !r.need(fn != nil, "C07", m.name) {
			continue
		}
		var e *eng.Engine
		hc := (*eng.Term)(nil)
		cl := &client{}
		cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
			switch c.Name {
			case m.life:
				st.SetInt("life", st.GetInt("life")+1)
				if st.GoDepth() > 0 || c.Go {
					st.Report("lifetime-async", m.name, c.Pos(), "the lifetime manager is not told synchronously")
				}
				if c.Args[len(c.Args)-1] != hc {
					st.Report("lifetime-arg", m.name, c.Pos(), "the lifetime manager is told about another connection")
				}
			case m.hub:
				st.SetInt("hub", st.GetInt("hub")+1)
				a := c.Args[len(c.Args)-1]
				if !isCallTo(a, "(HubConnection).ConnectionID") {
					st.Report("hub-arg", m.name, c.Pos(), "the hub callback does not get the connection's id")
				}
			case "(HubInterface).OnConnected", "(HubInterface).OnDisconnected", "(HubLifetimeManager).OnConnected", "(HubLifetimeManager).OnDisconnected":
				st.Report("wrong-callback", m.name, c.Pos(), "%s calls %s", m.name, c.Name)
			}
			return eng.Decision{}
		}
		cl.event = func(st *eng.State, ev *eng.Event) {
			if ev.Kind == eng.EvEnd {
				r.inst("server-notification", 1)
				if st.GetInt("life") != 1 {
					st.Report("lifetime-count", m.name, fn.Pos(), "%s is called %d times", m.life, st.GetInt("life"))
				}
				if st.GetInt("hub") != 1 {
					st.Report("hub-count", m.name, fn.Pos(), "%s is called %d times", m.hub, st.GetInt("hub"))
				}
			}
		}
		e = w.engine(cl)
		hc = e.Param("hc", fn.Params[len(fn.Params)-1].Type())
		ps := make([]*eng.Term, len(fn.Params))
		ps[len(ps)-1] = hc
		e.Run(fn, ps, nil)
		r.absorb(e)
	}
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func closeCarriesError(st *eng.State, t *eng.Term) bool { return !eng.IsNil(t) }

// ---- C31 -------------------------------------------------------------------------------------

func tickerOf(t *eng.Term) string {
	if t == nil {
		return ""
	}
	kind := ""
	t.Any(func(x *eng.Term) bool {
		if isCallTo(x, "time.NewTicker", "time.NewTimer", "time.After", "time.Tick") && len(x.Call.Args) > 0 {
			kind = durationOf(x.Call.Args[0])
			return true
		}
		return false
	})
	return kind
}

func durationOf(t *eng.Term) (kind string) {
	t.Any(func(y *eng.Term) bool {
		if isCallTo(y, "(Party).timeout") {
			kind = "timeout"
		}
		if isCallTo(y, "(Party).keepAliveInterval") {
			kind = "keepalive"
		}
		return kind != ""
	})
	return kind
}

func checkC31(w *World, r *Report) {
	r.rule("in the message loop the timer made from the party's timeout is restarted with that timeout after every received message and nowhere else, and its expiry ends the loop with an error; the keepalive timer's expiry sends a ping unless something was written within the keepalive interval, restarts the timer with a positive time, and keeps the loop running; every message written stamps the write time")
	run := w.loopRun()
	if !r.need(run != nil, "C31", "the loop's Run method") {
		return
	}
	d := &loopDrv{r: r, kinds: map[string]bool{"hubMessage": true, "cancelInvocationMessage": true, "completionMessage": true}, noMsg: true}
	tick := func(st *eng.State, ev *eng.Event) string {
		if ev.Kind != eng.EvSelect || ev.SendOK || st.GoDepth() > 0 {
			return ""
		}
		return tickerOf(ev.Addr)
	}
	boundary := func(st *eng.State, end bool, pos *ssa.Function) {
		switch st.GetInt("mode") {
		case 1: // a message was received
			if st.GetInt("reset:timeout") == 0 && !end {
				st.Report("timeout-not-restarted", "message", pos.Pos(), "a received message does not restart the timeout")
			}
		case 2: // timeout expired
			if !end {
				st.Report("timeout-ignored", "timeout", pos.Pos(), "the loop goes on after the timeout interval elapsed")
			}
		case 3: // keepalive
			if !end && st.GetInt("reset:keepalive") == 0 && (st.GetInt("oneshot") == 1 || st.GetInt("stopped:keepalive") == 1) {
				// a ticker fires again by itself; only a one-shot timer needs a restart
				st.Report("keepalive-once", "keepalive", pos.Pos(), "the keepalive timer does not fire again")
			}
			since, ok := st.GetInt("since") == 1, st.GetInt("since") != 0
			if !end {
				if st.GetInt("ping") == 0 {
					if !ok {
						st.Report("no-ping", "keepalive", pos.Pos(), "the keepalive expires without a ping and without a recent write")
					} else if !since {
						st.Report("ping-inverted", "keepalive", pos.Pos(), "no ping is sent although nothing was written for the keepalive interval")
					}
				}
			} else if st.GetInt("ping") == 0 {
				st.Report("keepalive-ends", "keepalive", pos.Pos(), "the keepalive expiry ends the loop")
			}
		}
	}
	pings := 0
	d.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		switch c.Name {
		case "(time.Ticker).Reset", "(time.Timer).Reset":
			k := tickerOf(c.Recv)
			if k == "" {
				return opaque
			}
			r.inst("timer-reset", 1)
			st.SetInt("reset:"+k, 1)
			st.SetInt("stopped:"+k, 0)
			arg := c.Arg(0)
			if k == "timeout" {
				if st.GetInt("mode") != 1 {
					st.Report("timeout-restarted-elsewhere", "run", c.Pos(), "the timeout is restarted although no message was received")
				}
				if !isCallTo(arg, "(Party).timeout") {
					st.Report("timeout-value", "run", c.Pos(), "the timeout is restarted with %v", arg)
				}
			} else {
				if st.GetInt("mode") == 1 {
					st.Report("keepalive-by-receive", "run", c.Pos(), "receiving restarts the keepalive")
				}
				if !isCallTo(arg, "(Party).keepAliveInterval") {
					pos := false
					if v, known := st.Fact(d.e.Lt(d.e.Int(0), arg)); known && v {
						pos = true
					}
					if arg.Kind == eng.KApp && (arg.Op == "-" || arg.Op == "sub") && len(arg.Args) == 2 {
						if v, known := st.Fact(d.e.Lt(arg.Args[1], arg.Args[0])); known && v {
							pos = true
						}
					}
					if !pos {
						st.Report("keepalive-value", "run", c.Pos(), "the keepalive timer is restarted with %v, which is not known to be positive", arg)
					}
				}
			}
			return opaque
		case "(time.Ticker).Stop", "(time.Timer).Stop":
			if k := tickerOf(c.Recv); k != "" && !c.Deferred {
				st.SetInt("stopped:"+k, 1)
				st.SetInt("reset:"+k, 0)
			}
		case "time.NewTicker", "time.NewTimer", "time.After", "time.Tick":
			// a new timer in place of the one which fired
			if st.GetInt("mode") == 0 || st.GoDepth() > 0 {
				return eng.Decision{}
			}
			switch k := durationOf(c.Arg(0)); {
			case k == "timeout" && st.GetInt("mode") != 1:
				st.Report("timeout-restarted-elsewhere", "run", c.Pos(), "the timeout is restarted although no message was received")
			case k != "":
				st.SetInt("reset:"+k, 1)
				st.SetInt("stopped:"+k, 0)
			}
		case "(HubConnection).Ping":
			pings++
			st.SetInt("ping", 1)
			if st.GetInt("since") == 1 {
				st.Report("ping-inverted", "run", c.Pos(), "a ping is sent because something was written recently")
			}
			return opaque
		}
		return eng.Decision{}
	}
	d.event = func(st *eng.State, ev *eng.Event) {
		if ev.Kind == eng.EvBranch && st.GetInt("mode") == 3 {
			if recent, ok := sinceFact(st); ok {
				st.SetInt("since", 2-b2i(recent))
			}
		}
		isDispatch := ev.Kind == eng.EvSelect && st.GoDepth() == 0 && d.points[ev.Instr] || ev.Kind == eng.EvSelect && tick(st, ev) != ""
		if isDispatch && st.GoDepth() == 0 {
			if st.GetInt("mode") != 0 {
				boundary(st, false, run)
				if !st.Dead() {
					st.Kill()
				}
				return
			}
			switch {
			case ev.Val != nil && isRecvResult(ev.Val.Ty):
				st.SetInt("mode", 1)
			case tick(st, ev) == "timeout":
				st.SetInt("mode", 2)
			case tick(st, ev) == "keepalive":
				st.SetInt("mode", 3)
				if !ev.Addr.Any(func(x *eng.Term) bool { return isCallTo(x, "time.NewTicker", "time.Tick") }) {
					st.SetInt("oneshot", 1)
				}
			}
			if m := st.GetInt("mode"); m != 0 {
				r.inst(fmt.Sprintf("mode-%d", m), 1)
			}
		}
	}
	d.final = func(st *eng.State, ended bool, res *eng.Term) {
		if ended {
			boundary(st, true, run)
			if st.GetInt("mode") == 2 {
				if n, known := isNilTerm(st, res); known && n {
					st.Report("timeout-no-error", "timeout", run.Pos(), "the loop ends after the timeout without an error")
				}
			}
		} else {
			boundary(st, false, run)
		}
	}
	d.run(w, run)
	for _, m := range []int{1, 2, 3} {
		r.need(r.Instances[fmt.Sprintf("mode-%d", m)] > 0, "C31", []string{"", "receiving of messages", "the timeout timer", "the keepalive timer"}[m])
	}
	r.need(pings > 0, "C31", "a Ping call in the message loop")

	// every writer of hub messages stamps the write time, LastWriteStamp returns it
	w.checkWriteStamp(r)
}

// sinceFact looks for the comparison of the time since the last write with the keepalive interval:
// recent is true when the path knows the last write is more recent than the interval.
func sinceFact(st *eng.State) (recent, ok bool) {
	hasStamp := func(t *eng.Term) bool {
		return t.Any(func(x *eng.Term) bool { return isCallTo(x, "(HubConnection).LastWriteStamp") })
	}
	st.Facts(func(t *eng.Term, v bool) {
		if ok || t.Kind != eng.KApp || t.Op != "lt" || !hasStamp(t) {
			return
		}
		if durationOf(t) != "keepalive" {
			return // compared with something else than the interval
		}
		a, b := t.Args[0], t.Args[1]
		sub := func(x *eng.Term) bool { return x.Kind == eng.KApp && (x.Op == "-" || x.Op == "sub") }
		direct := func(x *eng.Term) bool {
			for x.Kind == eng.KApp && (strings.HasPrefix(x.Op, "conv")) && len(x.Args) == 1 {
				x = x.Args[0]
			}
			return isCallTo(x, "time.Since", "(time.Time).Sub")
		}
		switch {
		case eng.IsZero(a) && sub(b) && hasStamp(b.Args[1]) && direct(b.Args[1]): // 0 < interval - since
			recent, ok = v, true
		case eng.IsZero(b) && sub(a) && hasStamp(a.Args[1]): // interval - since < 0
			recent, ok = !v, true
		case eng.IsZero(a) && sub(b) && hasStamp(b.Args[0]): // 0 < since - interval
			recent, ok = !v, true
		case eng.IsZero(b) && sub(a) && hasStamp(a.Args[0]): // since - interval < 0
			recent, ok = v, true
		case direct(a) && !hasStamp(b): // since < interval
			recent, ok = v, true
		case direct(b) && !hasStamp(a): // interval < since
			recent, ok = !v, true
		}
	})
	if !ok {
		// another shape that mentions the stamp: accept either way
		st.Facts(func(t *eng.Term, v bool) {
			if hasStamp(t) && t.Op != "lt" {
				ok, recent = true, st.GetInt("ping") == 0
			}
		})
	}
	return
}

// checkWriteStamp: every method of the HubConnection implementation that hands a message to the protocol,
// except Close, stores the current time into the field that LastWriteStamp returns, before it writes.
func (w *World) checkWriteStamp(r *Report) {
	impl := w.implOf("HubConnection")
	if !r.need(impl != nil, "C31", "the implementation of HubConnection") {
		return
	}
	get := w.Prog.LookupMethod(impl, w.Types, "LastWriteStamp")
	var stamp *types.Var
	if get != nil {
		e := w.engine(&client{event: func(st *eng.State, ev *eng.Event) {
			if ev.Kind == eng.EvEnd && len(ev.Vals) == 1 {
				ev.Vals[0].Any(func(x *eng.Term) bool {
					if x.Kind == eng.KFieldA && stamp == nil {
						if v := eng.FieldVar(x); v != nil && typeName(v.Type()) == "Time" {
							stamp = v
						}
					}
					return false
				})
			}
		}})
		e.Run(get, nil, nil)
		r.absorb(e)
	}
	if !r.need(stamp != nil, "C31", "the time stamp field LastWriteStamp returns") {
		return
	}
	for _, n := range []string{"SendInvocation", "SendStreamInvocation", "SendInvocationWithStreamIds", "StreamItem", "Completion", "Ping"} {
		fn := w.Prog.LookupMethod(impl, w.Types, n)
		if !r.need(fn != nil && len(fn.Blocks) > 0, "C31", n) {
			continue
		}
		cl := &client{}
		cl.event = func(st *eng.State, ev *eng.Event) {
			if ev.Kind == eng.EvStore {
				ev.Addr.Any(func(x *eng.Term) bool {
					if x.Kind == eng.KFieldA && eng.FieldVar(x) == stamp {
						if ev.Val.Any(func(y *eng.Term) bool { return isCallTo(y, "time.Now") }) {
							st.SetInt("stamped", 1)
						}
					}
					return false
				})
			}
			if ev.Kind == eng.EvEnd && st.GetInt("wrote") == 1 {
				r.inst("stamped-write", 1)
				if st.GetInt("stamped") == 0 {
					st.Report("no-stamp", n, fn.Pos(), "%s writes a message without recording the time", n)
				}
			}
		}
		cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
			if formatter(c.Fn) {
				return opaque
			}
			if c.Name == "(hubProtocol).WriteMessage" {
				st.SetInt("wrote", 1)
			}
			return eng.Decision{}
		}
		e := w.engine(cl)
		e.Run(fn, nil, nil)
		r.absorb(e)
	}
}

// implOf finds the package's only concrete type implementing an interface (pointer or value).
func (w *World) implOf(iface string) types.Type {
	is := w.implsOf(iface)
	if len(is) == 1 {
		return is[0]
	}
	return nil
}

func (w *World) implsOf(iface string) []types.Type {
	o := w.Types.Scope().Lookup(iface)
	if o == nil {
		return nil
	}
	it, ok := o.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []types.Type
	for _, n := range w.Types.Scope().Names() {
		tn, ok := w.Types.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
			continue
		}
		if types.Implements(tn.Type(), it) {
			out = append(out, tn.Type())
		} else if p := types.NewPointer(tn.Type()); types.Implements(p, it) {
			out = append(out, p)
		}
	}
	return out
}

// ---- C40 -------------------------------------------------------------------------------------

func checkC40(w *World, r *Report) {
	r.rule("a received close message is remembered and ends the message loop on every path; the loop's result is the message's error text when it is not empty and nil otherwise; the Close method writes one close message (type 7) with the given text and permission, and the permission the server passes is the one of its options")
	run := w.loopRun()
	if !r.need(run != nil, "C40", "the loop's Run method") {
		return
	}
	d := &loopDrv{r: r, kinds: map[string]bool{"closeMessage": true}}
	d.event = func(st *eng.State, ev *eng.Event) {
		m := d.msg(st)
		if m == nil || ev.Kind != eng.EvStore {
			return
		}
		if fv := eng.FieldVar(ev.Addr); fv != nil && namedIs(fv.Type(), "closeMessage") {
			v := ev.Val
			if _, isPtr := fv.Type().Underlying().(*types.Pointer); isPtr {
				v = st.PeekStruct(ev.Val, m.Ty)
			}
			same := true
			if v != m {
				for _, f := range []string{"Error", "AllowReconnect"} {
					if fieldOf(d.e, v, f) != fieldOf(d.e, m, f) {
						same = false
					}
				}
			}
			if same {
				st.SetInt("stored", 1)
			} else {
				st.Report("close-changed", "run", ev.Instr.Pos(), "the remembered close message differs from the received one")
			}
		}
	}
	d.final = func(st *eng.State, ended bool, res *eng.Term) {
		m := d.msg(st)
		r.inst("close-handled", 1)
		if !ended {
			st.Report("close-ignored", "run", run.Pos(), "the message loop goes on after a close message")
			return
		}
		if st.GetInt("stored") == 0 {
			st.Report("close-forgotten", "run", run.Pos(), "a received close message is not remembered for the reconnect decision")
		}
		errF := fieldOf(d.e, m, "Error")
		empty, known := emptyStr(st, errF)
		isnil, nk := isNilTerm(st, res)
		if !known {
			st.Report("close-error-ignored", "run", run.Pos(), "the loop ends after a close message without looking at its error")
			return
		}
		if empty && !(nk && isnil) {
			st.Report("close-invented-error", "run", run.Pos(), "a close message without error ends the loop with an error")
		}
		if !empty && !carries(st, res, errF) {
			st.Report("close-lost-error", "run", run.Pos(), "the error of a close message is not the error of the connection")
		}
	}
	d.run(w, run)
	w.checkCloseMethod(r)
	w.checkAllowReconnect(r)
	r.rule("on every path of the client's connect loop the client connects again after its message loop ran only when the close message of that loop is absent or allows it")
	w.runConnectLoop(r, "C40", map[string]bool{"reconnect-forbidden": true})
}

func (w *World) checkCloseMethod(r *Report) {
	impl := w.implOf("HubConnection")
	if !r.need(impl != nil, "C40", "the implementation of HubConnection") {
		return
	}
	fn := w.Prog.LookupMethod(impl, w.Types, "Close")
	if !r.need(fn != nil, "C40", "Close of the hub connection") {
		return
	}
	var text, allow *eng.Term
	cl := &client{}
	var e *eng.Engine
	cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		if formatter(c.Fn) {
			return opaque
		}
		if c.Name == "(hubProtocol).WriteMessage" {
			r.inst("close-written", 1)
			st.SetInt("n", st.GetInt("n")+1)
			m := eng.StripIface(c.Args[len(c.Args)-2])
			if typeName(m.Ty) != "closeMessage" {
				st.Report("close-type", "Close", c.Pos(), "Close writes a %v", m.Ty)
				return opaque
			}
			if n, ok := eng.IntConst(fieldOf(e, m, "Type")); !ok || n != 7 {
				st.Report("close-type", "Close", c.Pos(), "Close writes message type %v instead of 7", fieldOf(e, m, "Type"))
			}
			if fieldOf(e, m, "Error") != text {
				st.Report("close-text", "Close", c.Pos(), "Close does not pass on the error text")
			}
			if fieldOf(e, m, "AllowReconnect") != allow {
				st.Report("close-allow", "Close", c.Pos(), "Close does not pass on the reconnect permission")
			}
			return opaque
		}
		return eng.Decision{}
	}
	cl.event = func(st *eng.State, ev *eng.Event) {
		if ev.Kind == eng.EvEnd && st.GetInt("n") != 1 && st.GetInt("ctxover") == 0 && !ctxEnded(st) {
			st.Report("close-count", "Close", fn.Pos(), "Close writes %d messages", st.GetInt("n"))
		}
		noteCtx(st, ev)
	}
	e = w.engine(cl)
	text, allow = e.Param("errorText", fn.Params[1].Type()), e.Param("allowReconnect", fn.Params[2].Type())
	e.Run(fn, []*eng.Term{nil, text, allow}, nil)
	r.absorb(e)
}

// checkAllowReconnect: the server's permission is a field that the option stores and only a crash in a hub clears.
func (w *World) checkAllowReconnect(r *Report) {
	fn := w.Func("(server).allowReconnect")
	if !r.need(fn != nil, "C40", "(server).allowReconnect") {
		return
	}
	var fv *types.Var
	e := w.engine(&client{event: func(st *eng.State, ev *eng.Event) {
		if ev.Kind == eng.EvEnd && len(ev.Vals) == 1 {
			r.inst("permission-read", 1)
			v := ev.Vals[0]
			if v.Kind == eng.KApp && v.Op == "load" {
				fv = eng.FieldVar(v.Args[0])
			}
			if v.Any(func(x *eng.Term) bool {
				return isCallTo(x, "(sync/atomic.Bool).Load", "(sync/atomic.Value).Load", "sync/atomic.LoadInt32", "sync/atomic.LoadUint32")
			}) {
				v.Any(func(x *eng.Term) bool {
					if x.Kind == eng.KFieldA {
						fv = eng.FieldVar(x)
					}
					return false
				})
			}
			if fv == nil {
				st.Report("permission", "(server).allowReconnect", fn.Pos(), "the server's reconnect permission is %v, not its configured one", v)
			}
		}
	}})
	e.Run(fn, nil, nil)
	r.absorb(e)
	if fv == nil {
		return
	}
	// every store into the field
	for _, f := range w.Sort {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || fieldVarOfSSA(fa) != fv {
					continue
				}
				r.inst("permission-store", 1)
				c, isConst := s.Val.(*ssa.Const)
				nm := eng.SSAName(outer(f))
				switch {
				case nm == "NewServer":
					if !isConst || c.Value.String() != "true" {
						r.find("permission-default", nm, s.Pos(), "the default reconnect permission is not true")
					}
				case !isConst: // an option's value
				case c.Value.String() == "true":
					r.find("permission-granted", nm, s.Pos(), "%s grants the reconnect permission regardless of the configuration", nm)
				}
			}
		}
	}
}

func fieldVarOfSSA(fa *ssa.FieldAddr) *types.Var {
	t := fa.X.Type().Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	if s, ok := t.(*types.Struct); ok {
		return s.Field(fa.Field)
	}
	return nil
}

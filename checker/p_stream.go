package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

func init() { register("C02", checkC02) }

func checkC02(w *World, r *Report) {
	r.rule("in every goroutine that receives from a source channel and sends StreamItem messages: each received item is sent exactly once, under the stream's own id, before the next receive; the end of the source and a consumed cancel mark are each followed by exactly one Completion with that id and nothing after; before an item is sent the cancel mark of this id was looked up; a mark that was found is removed and its count given back; paths after the end of the connection's context are exempt")
	r.rule("a cancel request stores a mark under the request's id unless the cap on outstanding marks is reached; a stream invocation whose result is no channel sends one item and one completion; an uploaded stream is announced under the id its items carry")
	run := w.loopRun()
	if !r.need(run != nil, "C02", "the loop's Run method") {
		return
	}
	seen := sites{}
	var e *eng.Engine
	// returns the stream automaton's call and event hooks; idOK validates the stream id of a source channel
	mk := func(ctx string) (func(st *eng.State, c *eng.CallInfo) (eng.Decision, bool), func(st *eng.State, ev *eng.Event)) {
		call := func(st *eng.State, c *eng.CallInfo) (eng.Decision, bool) {
			switch c.Name {
			case "(reflect.Value).Recv", "(reflect.Value).TryRecv":
				if st.GoDepth() == 0 {
					return eng.Decision{}, false
				}
				seen.add(r, "source-receive", st.E.Pos(c.Pos()), "receive from a source channel in "+fname(c.In))
				if st.GetInt("item") == 1 && st.GetInt("streams") == 1 && st.GetInt("ctxover") == 0 {
					st.Report("lost-item", ctx, c.Pos(), "the next item is received although the previous one was not sent")
				}
				if st.GetInt("done") == 1 && st.GetInt("streams") == 1 {
					st.Report("after-completion", ctx, c.Pos(), "the stream goes on receiving after its completion")
				}
				itemT := st.E.Param("received item", c.Fn.Signature.Results().At(0).Type())
				return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{
					{Results: []*eng.Term{itemT, st.E.Bool(true)}, Do: func(st *eng.State, rs []*eng.Term) {
						st.Set("itemv", rs[0])
						st.SetInt("item", 1)
						st.SetInt("recvd", 1)
						st.SetInt("rgo", int64(st.GoDepth()))
						st.Del("checked")
					}},
					{Results: []*eng.Term{nil, st.E.Bool(false)}, Do: func(st *eng.State, rs []*eng.Term) {
						st.Del("itemv")
						st.Del("item")
						st.SetInt("srcend", 1)
						st.SetInt("recvd", 1)
					}},
				}}, true
			case "(HubConnection).StreamItem":
				n := len(c.Args)
				id, item := c.Args[n-2], c.Args[n-1]
				if st.GoDepth() == 0 || st.GetInt("recvd") == 0 {
					return opaque, false // single item of a non channel result
				}
				seen.add(r, "item-sent", st.E.Pos(c.Pos()), "StreamItem in "+fname(c.In))
				st.SetInt("streams", 1)
				if g := st.GetInt("rgo"); g > 0 && int64(st.GoDepth()) > g {
					st.Report("unordered", ctx, c.Pos(), "an item is sent by a goroutine of its own; items may overtake each other")
				}
				if st.GetInt("done") == 1 {
					st.Report("after-completion", ctx, c.Pos(), "a stream item is sent after the completion")
				}
				if st.GetInt("item") == 0 {
					st.Report("duplicate-item", ctx, c.Pos(), "an item is sent twice")
				}
				if v := st.Get("itemv"); v == nil || !carries(st, item, v) {
					st.Report("wrong-item", ctx, c.Pos(), "the item sent is not the one received last: %v", item)
				}
				if want := st.Get("sid"); want != nil && want != id {
					st.Report("wrong-id", ctx, c.Pos(), "an item is sent under %v instead of the stream's id", id)
				}
				if st.Get("sid") == nil {
					st.Set("sid", id)
				}
				if ck := st.Get("checked"); ck == nil {
					st.Report("cancel-unchecked", ctx, c.Pos(), "an item is sent without looking for a cancel request")
				} else if ck != id {
					st.Report("cancel-wrong-id", ctx, c.Pos(), "the cancel request looked for is the one of %v", ck)
				}
				if st.GetInt("cancelled") == 1 {
					st.Report("sent-after-cancel", ctx, c.Pos(), "an item is sent although the stream was cancelled")
				}
				st.Del("item")
				return opaque, true
			case "(sync.Map).Load", "(sync.Map).LoadAndDelete":
				if st.GoDepth() == 0 {
					return eng.Decision{}, false
				}
				id := eng.StripIface(c.Arg(0))
				del := c.Name != "(sync.Map).Load"
				return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{
					{Results: []*eng.Term{nil, st.E.Bool(true)}, Do: func(st *eng.State, rs []*eng.Term) {
						st.Set("checked", id)
						if st.GetInt("done") == 0 {
							st.SetInt("cancelled", 1)
						}
						st.SetInt("mark", 1)
						if del {
							st.SetInt("unmarked", 1)
						}
					}},
					{Results: []*eng.Term{nil, st.E.Bool(false)}, Do: func(st *eng.State, rs []*eng.Term) {
						st.Set("checked", id)
						if del {
							st.SetInt("unmarked", 1)
						}
					}},
				}}, true
			case "(sync.Map).Delete":
				st.SetInt("unmarked", 1)
				return opaque, true
			case "sync/atomic.AddInt64", "sync/atomic.AddInt32", "(sync/atomic.Int64).Add", "(sync/atomic.Int32).Add":
				if d := c.Args[len(c.Args)-1]; st.GoDepth() > 0 {
					if n, ok := eng.IntConst(d); ok && n == -1 {
						st.SetInt("givenback", 1)
					}
				}
				return opaque, true
			case "(HubConnection).Completion":
				if st.GoDepth() == 0 || st.GetInt("recvd") == 0 {
					return opaque, false
				}
				n := len(c.Args)
				id, res, errT := c.Args[n-3], c.Args[n-2], c.Args[n-1]
				st.SetInt("done", st.GetInt("done")+1)
				if st.GetInt("done") > 2 {
					st.SetInt("done", 2)
				}
				if want := st.Get("sid"); want != nil && want != id {
					st.Report("wrong-id", ctx, c.Pos(), "the stream is completed under %v instead of its id", id)
				}
				if st.Get("sid") == nil {
					st.Set("sid", id)
				}
				if st.GetInt("item") == 1 && st.GetInt("cancelled") == 0 && st.GetInt("streams") == 1 {
					st.Report("lost-item", ctx, c.Pos(), "the stream is completed although a received item was not sent")
				}
				st.Set("compres", res)
				st.Set("comperr", errT)
				return opaque, true
			}
			return eng.Decision{}, false
		}
		event := func(st *eng.State, ev *eng.Event) {
			switch ev.Kind {
			case eng.EvGoStart:
				if st.GetInt("rgo") > 0 && int64(st.GoDepth()) > st.GetInt("rgo") {
					return
				}
				for _, k := range []string{"recvd", "rgo", "item", "itemv", "streams", "done", "checked", "cancelled", "unmarked", "givenback", "srcend", "mark", "compres", "comperr"} {
					if st.GoDepth() <= 1 || k == "recvd" {
						st.Del(k)
					}
				}
				if st.Get("expect") == nil {
					st.Del("sid")
				}
			case eng.EvGoEnd:
				if st.GetInt("recvd") == 0 || st.GetInt("rgo") > 0 && int64(st.GoDepth()) > st.GetInt("rgo") {
					return
				}
				defer st.Kill() // every stream is analysed on its own
				over := st.GetInt("ctxover") == 1 || ctxEnded(st)
				st.Del("ctxover")
				single := st.Get("compres") != nil && !eng.IsNil(st.Get("compres"))
				if se, known := emptyStr(st, st.Get("comperr")); st.Get("comperr") != nil && !(known && se) {
					single = true
				}
				if single || (st.GetInt("streams") == 0 && st.Get("checked") == nil && st.GetInt("srcend") == 0) {
					// one value of a channel awaited as the result of a simple invocation
					return
				}
				r.inst("stream-end", 1)
				pos := ev.Instr.Pos()
				if over {
					return
				}
				if st.GetInt("done") != 1 {
					st.Report("completion-count", ctx, pos, "a stream ends with %d completions on a live connection", st.GetInt("done"))
				}
				if st.GetInt("srcend") == 0 && st.GetInt("cancelled") == 0 {
					st.Report("stream-cut", ctx, pos, "a stream ends although its source goes on and nobody cancelled it")
				}
				if st.GetInt("unmarked") == 0 {
					st.Report("mark-left", ctx, pos, "a stream ends without removing its cancel mark; it would count against later cancels")
				}
				if st.GetInt("mark") == 1 && st.GetInt("givenback") == 0 && w.countsCancels() {
					st.Report("cancel-count", ctx, pos, "a consumed cancel mark is not subtracted from the number of outstanding marks, so later cancels are ignored")
				}
			}
		}
		return call, event
	}

	// server side: streams returned by hub methods
	scall, sevent := mk("stream")
	d := &loopDrv{r: r, kinds: map[string]bool{"invocationMessage": true, "cancelInvocationMessage": true}}
	d.onMsg = func(st *eng.State, kind string) {
		if kind == "invocationMessage" {
			st.Set("sid", fieldOf(d.e, d.msg(st), "InvocationID"))
			st.SetInt("expect", 1)
			st.Del("checked")
		}
	}
	d.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		if d.msg(st) == nil {
			return eng.Decision{}
		}
		if kindOf(st) == "cancelInvocationMessage" {
			switch c.Name {
			case "(sync.Map).Store", "(sync.Map).LoadOrStore", "(sync.Map).Swap":
				if eng.StripIface(c.Arg(0)) != fieldOf(d.e, d.msg(st), "InvocationID") {
					st.Report("cancel-mark-id", "cancel", c.Pos(), "a cancel request marks %v", c.Arg(0))
				}
				st.SetInt("marked", 1)
				if c.Name == "(sync.Map).LoadOrStore" {
					return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{
						{Results: []*eng.Term{nil, st.E.Bool(false)}, Do: func(st *eng.State, rs []*eng.Term) { st.SetInt("newmark", 1) }},
						{Results: []*eng.Term{nil, st.E.Bool(true)}, Do: func(st *eng.State, rs []*eng.Term) { st.SetInt("newmark", 2) }},
					}}
				}
				if c.Name == "(sync.Map).Store" {
					st.SetInt("newmark", 3)
				}
			case "sync/atomic.AddInt64", "sync/atomic.AddInt32", "(sync/atomic.Int64).Add", "(sync/atomic.Int32).Add":
				if n, ok := eng.IntConst(c.Args[len(c.Args)-1]); ok && st.GetInt("counted") < 2 {
					st.SetInt("counted", st.GetInt("counted")+n)
				}
			}
			return eng.Decision{}
		}
		if dec, ok := scall(st, c); ok {
			return dec
		}
		switch c.Name {
		case "(reflect.Value).Call", "(reflect.Value).CallSlice":
			dec := reflectCall(c, nil)
			dec.Outcomes = dec.Outcomes[:1]
			return dec
		case "(HubConnection).StreamItem":
			st.SetInt("single", st.GetInt("single")+1)
			if c.Args[len(c.Args)-2] != fieldOf(d.e, d.msg(st), "InvocationID") {
				st.Report("wrong-id", "single", c.Pos(), "a stream item is sent under %v", c.Args[len(c.Args)-2])
			}
			if st.GetInt("comp") > 0 {
				st.Report("after-completion", "single", c.Pos(), "a stream item is sent after the completion")
			}
			return opaque
		case "(HubConnection).Completion":
			st.SetInt("comp", 1)
			return opaque
		}
		return eng.Decision{}
	}
	d.event = func(st *eng.State, ev *eng.Event) {
		if d.msg(st) == nil {
			return
		}
		if kindOf(st) == "invocationMessage" {
			if ev.Kind == eng.EvBranch {
				if v, known := st.Fact(d.e.Eq(fieldOf(d.e, d.msg(st), "Type"), d.e.Int(4))); known && !v {
					// simple invocations have no stream; C01 covers them
					if st.GetInt("recvd") == 0 {
						st.Kill()
						return
					}
				}
			}
			sevent(st, ev)
		}
		// the cap is part of what a cancel may do
		if ev.Kind == eng.EvBranch && kindOf(st) == "cancelInvocationMessage" {
			if ev.Cond.Any(func(x *eng.Term) bool {
				return isCallTo(x, "sync/atomic.LoadInt64", "sync/atomic.LoadInt32", "(sync/atomic.Int64).Load", "(sync/atomic.Int32).Load")
			}) {
				if capFact(st, ev) {
					st.SetInt("capped", 1)
				}
			}
		}
	}
	d.final = func(st *eng.State, ended bool, res *eng.Term) {
		switch kindOf(st) {
		case "cancelInvocationMessage":
			r.inst("cancel-request", 1)
			if nm := st.GetInt("newmark"); nm == 3 && w.countsCancels() {
				st.Report("cancel-count", "cancel:repeated", run.Pos(), "a cancel request changes the number of outstanding marks without knowing whether it added a mark")
			} else if nm != 0 && w.countsCancels() && st.GetInt("counted") != 2-nm {
				st.Report("cancel-count", "cancel", run.Pos(), "a cancel request changes the number of outstanding marks by %d although it adds %d marks", st.GetInt("counted"), 2-nm)
			}
			if st.GetInt("marked") == 0 && st.GetInt("capped") == 0 {
				st.Report("cancel-ignored", "cancel", run.Pos(), "a cancel request leaves no mark for the stream")
			}
		case "invocationMessage":
			if st.GetInt("single") > 1 {
				st.Report("single-count", "single", run.Pos(), "a single result is sent as %d stream items", st.GetInt("single"))
			}
			r.inst("stream-invocation", 1)
		}
	}
	d.run(w, run)

	// client side: uploads
	push := w.method("client", "PushStreams")
	if !r.need(push != nil, "C02", "the client's PushStreams") {
		return
	}
	ccall, cevent := mk("upload")
	cl := &client{}
	cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		if formatter(c.Fn) && c.Fn.Name() == "fmtMsg" {
			return opaque
		}
		if c.Name == "(HubConnection).SendInvocationWithStreamIds" {
			st.Set("announced", c.Args[len(c.Args)-1])
			return opaque
		}
		if dec, ok := ccall(st, c); ok {
			return dec
		}
		return eng.Decision{}
	}
	cl.event = func(st *eng.State, ev *eng.Event) {
		noteCtx(st, ev)
		cevent(st, ev)
	}
	e = w.engine(cl)
	oldCall := cl.call
	cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		switch c.Name {
		case "(HubConnection).StreamItem", "(HubConnection).Completion":
			if st.GoDepth() > 0 && st.GetInt("recvd") == 1 {
				id := c.Args[len(c.Args)-2]
				if c.Name == "(HubConnection).Completion" {
					id = c.Args[len(c.Args)-3]
				}
				ann := st.Get("announced")
				if ann == nil {
					st.Report("not-announced", "upload", c.Pos(), "a stream item is sent before the stream was announced")
				}
				r.inst("upload-id", 1)
				if id.Kind == eng.KApp && id.Op == "elem" && ann != nil && id.Args[0] != ann {
					st.Report("not-announced", "upload", c.Pos(), "the id of an uploaded stream does not come from the ids announced to the peer: %v", id)
				}
			}
		}
		return oldCall(st, c)
	}
	e.Run(push, nil, nil)
	r.absorb(e)
}

// capFact: the branch just taken says that the number of outstanding marks reached the cap.
func capFact(st *eng.State, ev *eng.Event) bool {
	isCount := func(t *eng.Term) bool {
		return t.Any(func(x *eng.Term) bool {
			return isCallTo(x, "sync/atomic.LoadInt64", "sync/atomic.LoadInt32", "(sync/atomic.Int64).Load", "(sync/atomic.Int32).Load")
		})
	}
	t, v := ev.Cond, ev.Truth
	for t.Kind == eng.KApp && t.Op == "not" {
		t, v = t.Args[0], !v
	}
	if t.Kind != eng.KApp || t.Op != "lt" {
		return v
	}
	// count < cap false, or cap < count true
	if isCount(t.Args[0]) {
		return !v
	}
	return v
}

// countsCancels: some function bounds cancel marks by an atomic counter it increments.
func (w *World) countsCancels() bool {
	for _, f := range w.Sort {
		marks, adds := false, false
		for _, c := range callsIn(f) {
			switch calleeName(c.Common()) {
			case "(sync.Map).LoadOrStore", "(sync.Map).Store":
				marks = true
			case "sync/atomic.AddInt64", "(sync/atomic.Int64).Add", "sync/atomic.AddInt32", "(sync/atomic.Int32).Add":
				adds = true
			}
		}
		if marks && adds {
			return true
		}
	}
	return false
}

// method finds the method of a named type (pointer receiver included).
func (w *World) method(typ, name string) *ssa.Function {
	t := w.Type(typ)
	if t == nil {
		return nil
	}
	f := w.Prog.LookupMethod(types.NewPointer(t), w.Types, name)
	if f == nil || len(f.Blocks) == 0 {
		return nil
	}
	return f
}

var _ = token.NoPos

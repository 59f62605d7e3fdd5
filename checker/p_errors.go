package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

func init() { register("C16", checkC16) }

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

// errTrack remembers errors that were returned to the code and must not get lost.
type errTrack struct {
	rule string
	r    *Report
}

func errKey(t *eng.Term) string { return fmt.Sprintf("pe:%d", t.ID) }

// add remembers the error result of a call.
func (k *errTrack) add(st *eng.State, c *eng.CallInfo, e *eng.Term) {
	if e == nil || !isErrorType(e.Ty) {
		return
	}
	st.Set(errKey(e), st.E.App("perr", nil, e, st.E.Str(c.Name+"\x00"+eng.FnName(c.In)), st.E.Int(int64(c.Pos())), st.E.Int(int64(st.GoID()))))
	k.r.inst("error-result", 1)
	k.r.sample("the error of %s in %s", c.Name, eng.FnName(c.In))
}

// each calls f for every error that is not known to be nil.
func (k *errTrack) each(st *eng.State, f func(e *eng.Term, name, fn string, pos token.Pos, goid int)) {
	var keys []string
	for key := range st.A {
		if strings.HasPrefix(key, "pe:") {
			keys = append(keys, key)
		}
	}
	sort.Strings(keys)
	for _, key := range keys {
		p := st.Get(key)
		if p == nil || len(p.Args) < 4 {
			continue
		}
		e := p.Args[0]
		if n, known := isNilTerm(st, e); known && n {
			st.Del(key)
			continue
		}
		s, _ := eng.StrConst(p.Args[1])
		i := strings.IndexByte(s, 0)
		pos, _ := eng.IntConst(p.Args[2])
		id, _ := eng.IntConst(p.Args[3])
		f(e, s[:i], s[i+1:], token.Pos(pos), int(id))
	}
}

// branch forgets errors that turned out to be nil or the end of the input.
func (k *errTrack) branch(st *eng.State) {
	k.each(st, func(e *eng.Term, _, _ string, _ token.Pos, _ int) {
		eof := false
		st.Facts(func(t *eng.Term, v bool) {
			if !v || len(t.Args) != 2 {
				return
			}
			isEOF := func(x *eng.Term) bool {
				return x.Any(func(y *eng.Term) bool { return y.Kind == eng.KGlobal && strings.HasSuffix(y.Op, "io.EOF") })
			}
			if t.Op == "eq" && (t.Args[0] == e && isEOF(t.Args[1]) || t.Args[1] == e && isEOF(t.Args[0])) {
				eof = true
			}
			if t.Call != nil && t.Call.Name == "errors.Is" && t.Call.Args[0] == e && isEOF(t.Call.Args[1]) {
				eof = true
			}
		})
		if eof {
			st.Del(errKey(e))
		}
	})
}

func (k *errTrack) lost(st *eng.State, name, fn string, pos token.Pos, how string) {
	st.Report(k.rule, fn+":"+name, pos, "an error of %s is lost in %s: %s", name, fn, how)
}

func checkC16(w *World, r *Report) {
	r.rule("each error of reading from the connection, writing to the parser and parsing is sent to the message loop before the goroutine goes on or ends, unless the connection is over; what is received is passed on unchanged")
	r.rule("in every function that decodes received bytes the error of every call is nil, the end of the input, or the result of the function is an error")
	r.rule("what the protocols deliver has a type the message loop handles; a message of unknown type is delivered with its type")
	r.rule("in the message loop a received error, a failed ping, an argument that can not be decoded, an id that is in no registry and a message type other than ping end the loop, and Run returns that error")
	r.rule("every failed write of a message, other than the final close message, cancels the connection")
	w.errorsOfReceive(r)
	handled := w.errorsOfLoop(r)
	w.errorsOfDecoding(r, handled)
	w.errorsOfWriting(r)
}

// sendOf: the event hands v to somebody over a channel.
func sendOf(ev *eng.Event) *eng.Term {
	if ev.Kind == eng.EvSend || ev.Kind == eng.EvSelect && ev.SendOK {
		return ev.Val
	}
	return nil
}

// overOf: the event tells that the connection is over: a receive from a channel that carries nothing.
func overOf(ev *eng.Event) bool {
	if !(ev.Kind == eng.EvRecv || ev.Kind == eng.EvSelect && !ev.SendOK) || ev.Addr == nil || ev.Addr.Ty == nil {
		return false
	}
	c, ok := ev.Addr.Ty.Underlying().(*types.Chan)
	if !ok {
		return false
	}
	s, ok := c.Elem().Underlying().(*types.Struct)
	return ok && s.NumFields() == 0
}

func (w *World) errorsOfReceive(r *Report) {
	k := &errTrack{"lost-receive-error", r}
	n := 0
	for _, t := range w.implsOf("HubConnection") {
		fn := w.Prog.LookupMethod(t, w.Types, "Receive")
		if fn == nil || len(fn.Blocks) == 0 || fn.Synthetic != "" {
			continue
		}
		n++
		sites := map[string]bool{}
		cl := &client{}
		mine := func(st *eng.State, how string) {
			id := st.GoID()
			k.each(st, func(e *eng.Term, name, fn string, pos token.Pos, goid int) {
				if goid == id {
					k.lost(st, name, fn, pos, how)
				}
			})
		}
		cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
			if !hasSuffixAny(c.Name, ").Read", ").Write", ").ParseMessages") || c.Fn != nil && w.Home(c.Fn) {
				if c.Invoke {
					return opaque
				}
				return eng.Decision{}
			}
			if c.Invoke || c.Fn != nil {
				mine(st, "the goroutine goes on without telling the message loop")
				sites[c.Name] = true
				return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Do: func(st *eng.State, rs []*eng.Term) {
					if len(rs) > 0 {
						k.add(st, c, rs[len(rs)-1])
					}
				}}}}
			}
			return eng.Decision{}
		}
		cl.event = func(st *eng.State, ev *eng.Event) {
			if v := sendOf(ev); v != nil {
				id := st.GoID()
				k.each(st, func(e *eng.Term, _, _ string, _ token.Pos, goid int) {
					if goid == id && v.Contains(e) {
						st.Del(errKey(e))
					}
				})
			}
			if overOf(ev) {
				id := st.GoID()
				k.each(st, func(e *eng.Term, _, _ string, _ token.Pos, goid int) {
					if goid == id {
						st.Del(errKey(e))
					}
				})
			}
			switch ev.Kind {
			case eng.EvBranch:
				k.each(st, func(e *eng.Term, _, _ string, _ token.Pos, _ int) {})
			case eng.EvReturn:
				if ev.Kind2 == eng.GoF {
					mine(st, "the goroutine ends without telling the message loop")
				}
			}
		}
		e := w.engine(cl)
		e.Run(fn, nil, nil)
		r.absorb(e)
		reads, parses := false, false
		for s := range sites {
			reads = reads || strings.HasSuffix(s, ").Read")
			parses = parses || strings.HasSuffix(s, ").ParseMessages")
		}
		r.need(reads && parses, "C16", "reading and parsing in "+eng.FnName(fn))
	}
	r.need(n > 0, "C16", "the Receive method of the hub connection")
}

// errorsOfLoop returns the message types the loop handles.
func (w *World) errorsOfLoop(r *Report) map[string]bool {
	handled := map[string]bool{}
	for _, k := range []string{"", "streamItemMessage", "completionMessage", "hubMessage"} {
		w.errorsOfLoopKind(r, k, handled)
	}
	r.need(len(handled) > 0, "C16", "the message types handled by the loop")
	return handled
}

func (w *World) errorsOfLoopKind(r *Report, kind string, handled map[string]bool) {
	run := w.loopRun()
	if !r.need(run != nil, "C16", "the loop's Run method") {
		return
	}
	regs := w.registries()
	k := &errTrack{"swallowed-error", r}
	fwd := 0
	d := &loopDrv{r: r, kinds: map[string]bool{kind: true}, noMsg: kind == "", seen: handled}
	var idOf func(st *eng.State) *eng.Term
	idOf = func(st *eng.State) *eng.Term {
		m := d.msg(st)
		if m == nil {
			return nil
		}
		return fieldOf(d.e, m, "InvocationID")
	}
	hits := func(st *eng.State) {
		for key, t := range st.A {
			if strings.HasPrefix(key, "reg:") && t != nil {
				if v, known := st.Fact(t); known && v {
					st.SetInt("hit", 1)
				}
			}
		}
	}
	outcome := func(st *eng.State, ended bool, res *eng.Term) {
		hits(st)
		nonNil := func(t *eng.Term) bool {
			n, known := isNilTerm(st, t)
			return known && !n
		}
		k.each(st, func(e *eng.Term, name, fn string, pos token.Pos, goid int) {
			if goid != st.GoID() {
				return
			}
			if !ended {
				k.lost(st, name, fn, pos, "the message loop goes on")
			} else if res == nil || res != e && !res.Contains(e) && !nonNil(res) {
				k.lost(st, name, fn, pos, "the message loop ends without error")
			}
		})
		if e := st.Get("recverr"); e != nil {
			if n, known := isNilTerm(st, e); !(known && n) {
				if !ended {
					st.Report("swallowed-error", "receive", run.Pos(), "the message loop goes on after it received an error")
				} else if known && st.Get("msg") == nil && !(res == e || res != nil && res.Contains(e)) {
					st.Report("swallowed-error", "receive", run.Pos(), "the message loop ends with %v instead of the received error", res)
				}
			}
		}
		bad := ""
		switch kindOf(st) {
		case "streamItemMessage", "completionMessage":
			r.inst("unknown-id", 1)
			if st.GetInt("hit") == 0 {
				bad = "the id of a " + kindOf(st) + " is in no registry"
			}
		case "hubMessage":
			r.inst("unknown-type", 1)
			ty := fieldOf(d.e, d.msg(st), "Type")
			if v, known := st.Fact(d.e.Eq(ty, d.e.Int(6))); !known || !v {
				bad = "a message of unknown type"
			}
		}
		if bad == "" {
			return
		}
		if !ended {
			st.Report("unknown-ignored", kindOf(st), run.Pos(), "%s and the message loop goes on", bad)
		} else if res == nil || !nonNil(res) {
			st.Report("unknown-ignored", kindOf(st), run.Pos(), "%s and the message loop ends without error", bad)
		}
	}
	d.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		if st.GoDepth() == 0 && hasSuffixAny(c.Name, "(HubConnection).Ping", ").UnmarshalArgument") && c.Invoke {
			return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Do: func(st *eng.State, rs []*eng.Term) {
				if len(rs) > 0 {
					k.add(st, c, rs[len(rs)-1])
				}
			}}}}
		}
		if c.Go && c.Fn == nil {
			return opaque
		}
		return eng.Decision{}
	}
	d.event = func(st *eng.State, ev *eng.Event) {
		if st.GoDepth() > 0 {
			w.passesOn(r, st, ev, &fwd)
			return
		}
		switch ev.Kind {
		case eng.EvLookup:
			if f := mapField(ev.Addr); f != nil && regs[f] && ev.Ok != nil {
				if id := idOf(st); id != nil && ev.Key == id {
					st.Set(fmt.Sprintf("reg:%d", ev.Ok.ID), ev.Ok)
				}
			}
		case eng.EvBranch:
			k.each(st, func(e *eng.Term, _, _ string, _ token.Pos, _ int) {})
			hits(st)
			if e := st.Get("recverr"); e != nil {
				if n, known := isNilTerm(st, e); known && n {
					st.Del("recverr")
				}
			}
		case eng.EvSelect, eng.EvRecv:
			if !d.points[ev.Instr] {
				return
			}
			if st.Get("msg") == nil && (st.Get("recverr") != nil || st.GetInt("round") != 0) {
				outcome(st, false, nil)
				if st.GetInt("round") > 1 {
					st.Kill()
					return
				}
			}
			st.SetInt("round", st.GetInt("round")+1)
			if ev.Val != nil && isRecvResult(ev.Val.Ty) && !ev.SendOK {
				s := ev.Val.Ty.Underlying().(*types.Struct)
				for i := 0; i < s.NumFields(); i++ {
					if isErrorType(s.Field(i).Type()) {
						st.Set("recverr", d.e.Field(ev.Val, i, s.Field(i).Type()))
						r.inst("received-error", 1)
					}
				}
			}
		}
	}
	d.final = outcome
	d.run(w, run)
}

// passesOn: a goroutine that receives results hands each of them on, until the connection is over.
func (w *World) passesOn(r *Report, st *eng.State, ev *eng.Event, n *int) {
	key := fmt.Sprintf("fwd:%d", st.GoID())
	lost := func(pos token.Pos) {
		if v := st.Get(key); v != nil {
			st.Report("lost-result", "forward", pos, "a received result is not passed on to the message loop")
		}
	}
	if v := sendOf(ev); v != nil {
		if p := st.Get(key); p != nil && p == v {
			st.Del(key)
		}
		return
	}
	switch ev.Kind {
	case eng.EvRecv, eng.EvSelect:
		if overOf(ev) {
			st.Del(key)
			return
		}
		if ev.Val != nil && isRecvResult(ev.Val.Ty) {
			lost(ev.Instr.Pos())
			*n++
			st.Set(key, ev.Val)
			if ev.Ok != nil {
				st.Set(key+":ok", ev.Ok)
			}
		}
	case eng.EvBranch:
		if ok := st.Get(key + ":ok"); ok != nil {
			if v, known := st.Fact(ok); known && !v {
				st.Del(key)
			}
		}
	case eng.EvReturn:
		if ev.Kind2 == eng.GoF {
			lost(ev.Instr.Pos())
		}
	}
}

// errorsOfDecoding: what reads and decodes received bytes never loses an error.
func (w *World) errorsOfDecoding(r *Report, handled map[string]bool) {
	set := map[*ssa.Function]bool{}
	var parsers []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || set[f] || !w.Home(f) || len(f.Blocks) == 0 {
			return
		}
		set[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						add(g)
					}
				}
			}
		}
	}
	for _, t := range w.implsOf("hubProtocol") {
		for _, name := range []string{"ParseMessages", "UnmarshalArgument"} {
			f := w.Prog.LookupMethod(t, w.Types, name)
			if f == nil || len(f.Blocks) == 0 || f.Synthetic != "" {
				continue
			}
			if name == "ParseMessages" {
				parsers = append(parsers, f)
			}
			add(f)
		}
	}
	if !r.need(len(parsers) >= 2, "C16", "the parsers of the protocols") {
		return
	}
	k := &errTrack{"lost-decode-error", r}
	for _, f := range w.Sort {
		if !set[f] || f.Synthetic != "" || f.Parent() != nil {
			continue
		}
		res := f.Signature.Results()
		if res.Len() == 0 || !isErrorType(res.At(res.Len()-1).Type()) {
			continue
		}
		r.inst("decode-function", 1)
		cl := &client{}
		cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
			if c.Builtin != "" || c.Go || c.Sig == nil {
				return eng.Decision{}
			}
			rs := c.Sig.Results()
			if rs.Len() == 0 || !isErrorType(rs.At(rs.Len()-1).Type()) {
				return eng.Decision{}
			}
			if hasSuffixAny(c.Name, "(bytes.Buffer).Write", "(bytes.Buffer).WriteByte", "(bytes.Buffer).WriteString", "(bytes.Buffer).ReadFrom", "(bytes.Buffer).ReadByte", "errors.New", "fmt.Errorf") || isLogCall(c.Name) {
				return eng.Decision{}
			}
			k.each(st, func(e *eng.Term, name, fn string, pos token.Pos, goid int) {
				if pos == c.Pos() {
					k.lost(st, name, fn, pos, "decoding goes on")
				}
			})
			return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Do: func(st *eng.State, rs []*eng.Term) {
				if len(rs) > 0 {
					k.add(st, c, rs[len(rs)-1])
				}
			}}}}
		}
		cl.event = func(st *eng.State, ev *eng.Event) {
			switch ev.Kind {
			case eng.EvBranch:
				k.branch(st)
			case eng.EvEnd:
				k.branch(st)
				if len(ev.Vals) == 0 {
					return
				}
				res := ev.Vals[len(ev.Vals)-1]
				k.each(st, func(e *eng.Term, name, fn string, pos token.Pos, goid int) {
					if res == e || res.Contains(e) {
						return
					}
					if n, known := isNilTerm(st, res); known && !n {
						return
					}
					k.lost(st, name, fn, pos, "the function returns without error")
				})
			}
		}
		e := w.engine(cl)
		e.Run(f, nil, nil)
		r.absorb(e)
	}
	// what is delivered
	for _, f := range parsers {
		f := f
		w.onDelivered(r, f, func(st *eng.State, ev *eng.Event, v *eng.Term) {
			r.inst("delivered", 1)
			w.deliveredType(r, st, f, ev.Instr.Pos(), v, handled)
		})
	}
}

// onDelivered explores a parser and calls fn for each message it adds to its result.
func (w *World) onDelivered(r *Report, f *ssa.Function, fn func(st *eng.State, ev *eng.Event, v *eng.Term)) {
	delivered := 0
	cl := &client{}
	stored := map[*eng.Term]*eng.Event{}
	cl.event = func(st *eng.State, ev *eng.Event) {
		// A message which was stored together with an error is delivered only if the function does not return that error
		if p := st.Get("stored"); p != nil && (ev.Kind == eng.EvHeader && ev.Truth || ev.Kind == eng.EvReturn || ev.Kind == eng.EvEnd) {
			sev := stored[p]
			switch {
			case ev.Kind == eng.EvHeader || ev.Instr.Parent() == sev.Instr.Parent():
				st.Del("stored")
				if len(ev.Vals) == 0 || !eng.IsNil(ev.Vals[0]) {
					delivered++
					fn(st, sev, p)
				}
			}
			if ev.Kind == eng.EvHeader {
				for key := range st.A {
					if strings.HasPrefix(key, "eqc:") {
						st.Del(key)
					}
				}
			}
		}
		if ev.Kind == eng.EvBranch && ev.Truth && ev.Cond.Op == "eq" {
			for _, a := range ev.Cond.Args {
				if n, ok := eng.IntConst(a); ok {
					st.SetInt(fmt.Sprintf("eqc:%d", n), 1)
				}
			}
		}
		if (ev.Kind != eng.EvAppend || !anySliceType(ev.Ty)) && (ev.Kind != eng.EvStore || ev.Addr.Kind != eng.KIndexA || !anySliceType(ev.Addr.Args[0].Ty)) {
			return
		}
		if res := ev.Instr.Parent().Signature.Results(); res.Len() == 0 || !anySliceType(res.At(0).Type()) {
			return
		}
		if ev.Kind == eng.EvStore {
			stored[ev.Val] = ev
			st.Set("stored", ev.Val)
			return
		}
		vs := []*eng.Term{ev.Val}
		if ev.Kind == eng.EvAppend {
			vs = st.SliceElems(ev.Val)
		}
		for _, v := range vs {
			delivered++
			fn(st, ev, v)
		}
		for key := range st.A {
			if strings.HasPrefix(key, "eqc:") {
				st.Del(key)
			}
		}
	}
	cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		if c.Fn != nil && w.Home(c.Fn) && (!msgResult(c.Fn) || formatter(c.Fn)) {
			return opaque
		}
		return eng.Decision{}
	}
	e := w.engine(cl)
	e.Run(f, nil, nil)
	r.absorb(e)
	r.need(delivered > 0, r.Prop, "the messages delivered by "+eng.FnName(f))
}

func anySlice(t *eng.Term) bool { return t != nil && anySliceType(t.Ty) }

func anySliceType(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.IsInterface(s.Elem())
}

// msgResult: the function returns a message, or messages.
func msgResult(f *ssa.Function) bool {
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		if s, ok := t.Underlying().(*types.Slice); ok {
			t = s.Elem()
		}
		if it, ok := t.Underlying().(*types.Interface); ok && it.NumMethods() == 0 || msgTypes[typeName(t)] {
			return true
		}
	}
	return false
}

func (w *World) deliveredType(r *Report, st *eng.State, f *ssa.Function, pos token.Pos, v *eng.Term, handled map[string]bool) {
	for v.Kind == eng.KIface {
		v = v.Args[0]
	}
	v = eng.StripConv(v)
	name := ""
	if v.Ty != nil {
		name = typeName(v.Ty)
	}
	if !handled[name] {
		what := "nothing"
		if v.Ty != nil {
			what = types.TypeString(v.Ty, types.RelativeTo(w.Types))
		}
		st.Report("unhandled-message", eng.FnName(f), pos, "%s delivers a %s, which the message loop ignores", eng.FnName(f), what)
		return
	}
	if name != "hubMessage" {
		return
	}
	ty := fieldOf(st.E, v, "Type")
	if ty == nil {
		return
	}
	if n, ok := eng.IntConst(ty); ok {
		if st.GetInt(fmt.Sprintf("eqc:%d", n)) == 0 {
			st.Report("unhandled-message", eng.FnName(f)+":type", pos, "%s delivers a message of another type as one of type %d", eng.FnName(f), n)
		}
	}
}

// errorsOfWriting: a failed write cancels the connection.
func (w *World) errorsOfWriting(r *Report) {
	k := &errTrack{"write-error-ignored", r}
	isWrite := func(i ssa.Instruction) bool {
		c, ok := i.(ssa.CallInstruction)
		return ok && hasSuffixAny(calleeName(c.Common()), "(hubProtocol).WriteMessage")
	}
	in := w.reaching(isWrite)
	n := 0
	for _, t := range w.implsOf("HubConnection") {
		ms := types.NewMethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			fn := w.Prog.MethodValue(ms.At(i))
			if fn == nil || !in[fn] || !token.IsExported(fn.Name()) || fn.Synthetic != "" {
				continue
			}
			fn2 := fn
			cl := &client{}
			cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
				if hasSuffixAny(c.Name, "(hubProtocol).WriteMessage") {
					n++
					if m := c.Args[0]; m != nil {
						for m.Kind == eng.KIface {
							m = m.Args[0]
						}
						if m.Ty != nil && typeName(m.Ty) == "closeMessage" {
							return opaque
						}
					}
					return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Do: func(st *eng.State, rs []*eng.Term) {
						k.add(st, c, rs[len(rs)-1])
					}}}}
				}
				if f := c.FnTerm; c.Fn == nil && f != nil && f.Ty != nil && typeName(f.Ty) == "CancelFunc" {
					st.SetInt("canceled", 1)
				}
				if c.Fn != nil && formatter(c.Fn) || c.Invoke {
					return opaque
				}
				return eng.Decision{}
			}
			cl.event = func(st *eng.State, ev *eng.Event) {
				switch ev.Kind {
				case eng.EvSend:
					if ev.Addr != nil {
						st.Set(fmt.Sprintf("sent:%d", ev.Addr.ID), ev.Val)
					}
				case eng.EvRecv, eng.EvSelect:
					if ev.SendOK || ev.Addr == nil {
						return
					}
					if isCallTo(ev.Addr, "(context.Context).Done") {
						st.SetInt("over", 1)
					}
					if v := st.Get(fmt.Sprintf("sent:%d", ev.Addr.ID)); v != nil {
						ev.Repl = v
					}
				case eng.EvBranch:
					k.each(st, func(e *eng.Term, _, _ string, _ token.Pos, _ int) {})
				case eng.EvEnd:
					if st.GetInt("over") == 1 || st.GetInt("canceled") == 1 {
						return
					}
					k.each(st, func(e *eng.Term, name, fn string, pos token.Pos, goid int) {
						st.Report(k.rule, eng.FnName(fn2), pos, "a write in %s fails and the connection is not canceled", eng.FnName(fn2))
					})
				}
			}
			e := w.engine(cl)
			e.Run(fn, nil, nil)
			r.absorb(e)
		}
	}
	r.need(n > 0, "C16", "the writes of messages")
	r.inst("message-write", n)
}

package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

func init() { register("C39", checkC39) }

// upstreamMap: the map of the channels that receive the peer's streams.
func upstreamMap(t types.Type) bool {
	if t == nil {
		return false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	n, ok := m.Elem().(*types.Named)
	return ok && n.Obj().Name() == "Value" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect"
}

func isUpstream(t *eng.Term) bool { return t != nil && upstreamMap(core(t).Ty) }

func checkC39(w *World, r *Report) {
	r.rule("a channel for a stream of the peer is registered only on paths on which, since the lock was taken, the number of registered channels was compared with the limit (and is below it, or the limit is 0) and the id was found not to be registered: registering an id a second time would leave an open stream uncounted")
	r.rule("registering is refused for the limit only when a limit is set and reached")
	r.rule("a completion for a registered stream removes it on every path")
	r.rule("the limit compared with is the one the option MaxConcurrentStreams set on the party of the connection")
	nsc := w.Func("newStreamClient")
	if !r.need(nsc != nil && len(nsc.Params) == 4, "C39", "newStreamClient") {
		return
	}
	sct := nsc.Signature.Results().At(0).Type()
	var bca *ssa.Function
	if bca = w.Prog.LookupMethod(sct, w.Types, "buildChannelArgument"); !r.need(bca != nil && len(bca.Blocks) > 0, "C39", "buildChannelArgument") {
		return
	}
	// where the limit is kept
	var lim *types.Var
	cl := &client{}
	cl.event = func(st *eng.State, ev *eng.Event) {
		p := nsc.Params[3]
		if ev.Kind == eng.EvStore && ev.Addr.Kind == eng.KFieldA && core(ev.Val) == st.E.Param(p.Name(), p.Type()) {
			lim = eng.FieldVar(ev.Addr)
		}
	}
	e := w.engine(cl)
	e.Run(nsc, nil, nil)
	r.absorb(e)
	if !r.need(lim != nil, "C39", "the field newStreamClient keeps the limit in") {
		return
	}
	for _, f := range w.Sort {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldVarOfSSA(fa) == lim && f != nsc {
						r.find("limit-changed", eng.FnName(f), s.Pos(), "%s changes the limit of a connection", eng.FnName(f))
					}
				}
			}
		}
	}
	w.checkRegister(r, bca, lim)
	w.checkStreamEnd(r, sct)
	w.checkLimitSource(r, nsc)
}

func (w *World) checkRegister(r *Report, fn *ssa.Function, lim *types.Var) {
	name := eng.FnName(fn)
	isLim := func(t *eng.Term) bool {
		t = core(t)
		return t.Kind == eng.KApp && t.Op == "load" && eng.FieldVar(t.Args[0]) == lim
	}
	isCount := func(t *eng.Term) bool {
		t = core(t)
		return t.Kind == eng.KApp && t.Op == "len" && isUpstream(t.Args[0])
	}
	// terms of the limit and of the count that the path has compared
	terms := func(st *eng.State) (l, n *eng.Term) {
		st.Facts(func(t *eng.Term, v bool) {
			t.Walk(func(x *eng.Term) bool {
				if isLim(x) {
					l = x
				}
				if isCount(x) {
					n = x
				}
				return true
			})
		})
		return
	}
	registered := 0
	cl := &client{}
	reset := func(st *eng.State) {
		st.Del("checked")
		st.Del("unused")
		st.Del("unusedkey")
	}
	cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		if isLogCall(c.Name) {
			return opaque
		}
		if hasSuffixAny(c.Name, "sync.Mutex).Lock", "sync.Mutex).Unlock", "sync.RWMutex).Lock", "sync.RWMutex).Unlock", "sync.RWMutex).RLock", "sync.RWMutex).RUnlock") {
			reset(st)
		}
		return eng.Decision{}
	}
	cl.event = func(st *eng.State, ev *eng.Event) {
		switch ev.Kind {
		case eng.EvBranch:
			if ev.Cond.Any(isLim) || ev.Cond.Any(isCount) {
				st.SetInt("checked", 1)
				if ev.Cond.Any(isCount) {
					st.SetInt("counted", 1)
				}
			}
		case eng.EvLookup:
			if isUpstream(ev.Addr) {
				if ev.Ok != nil {
					st.Set("unused", ev.Ok)
				}
				st.Set("unusedkey", ev.Key)
			}
		case eng.EvMapUpdate:
			if !isUpstream(ev.Addr) {
				return
			}
			registered++
			r.inst("registration", 1)
			l, n := terms(st)
			ok := false
			if l != nil {
				if z, known := st.Fact(st.E.Eq(st.E.Int(0), l)); known && z {
					ok = true
				}
				ok = ok || proves(st, linConst(0).plus(linOf(st.E, l), -1))
				if n != nil {
					ok = ok || proves(st, linOf(st.E, l).plus(linOf(st.E, n), -1).plus(linConst(1), -1))
				}
			}
			if !ok || st.GetInt("checked") != 1 {
				st.Report("over-limit", name, ev.Instr.Pos(), "%s may register a stream although the limit is reached (it was not compared with the number of streams under the same lock)", name)
			}
			dup := st.Get("unused")
			v, known := true, false
			if dup != nil {
				v, known = st.Fact(dup)
			}
			if !known || v || st.Get("unusedkey") != ev.Key {
				st.Report("id-in-use", name, ev.Instr.Pos(), "%s may register a stream under an id that is in use: the stream registered before stays open, but does not count any more", name)
			}
			reset(st)
		case eng.EvEnd:
			if len(ev.Vals) == 0 {
				return
			}
			r.inst("registration-path", 1)
			isNil, known := isNilTerm(st, ev.Vals[len(ev.Vals)-1])
			if known && isNil || st.GetInt("counted") != 1 {
				return
			}
			l, n := terms(st)
			if dup := st.Get("unused"); dup != nil {
				if v, ok := st.Fact(dup); ok && v {
					return // refused for another reason
				}
			}
			if l == nil || n == nil {
				return
			}
			if proves(st, linOf(st.E, l).plus(linOf(st.E, n), -1).plus(linConst(1), -1)) {
				return // below the limit: refused for another reason
			}
			if !proves(st, linOf(st.E, l).plus(linConst(1), -1)) {
				st.Report("limit-zero", name, ev.Instr.Pos(), "%s may refuse a stream although the limit is 0, which means no limit", name)
			}
			if !proves(st, linOf(st.E, n).plus(linOf(st.E, l), -1)) {
				st.Report("limit-not-reached", name, ev.Instr.Pos(), "%s may refuse a stream although the limit is not reached", name)
			}
		}
	}
	e := w.engine(cl)
	e.Run(fn, nil, nil)
	r.absorb(e)
	r.need(registered > 0, "C39", "the registration of a stream in "+name)
	// nobody else registers streams of the peer
	for _, f := range w.Sort {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				mu, ok := i.(*ssa.MapUpdate)
				if !ok || !upstreamMap(mu.Map.Type()) || e.FnsSeen[f] {
					continue
				}
				r.inst("other-registration", 1)
				for _, p := range outer(f).Params {
					if namedIs(p.Type(), "invocationMessage") {
						r.find("undecided", eng.FnName(f), mu.Pos(), "%s registers a stream of the peer otherwise than %s", eng.FnName(f), name)
					}
				}
			}
		}
	}
}

// checkStreamEnd: a completion for a registered stream removes it.
func (w *World) checkStreamEnd(r *Report, sct types.Type) {
	ms := w.Prog.MethodSets.MethodSet(sct)
	n := 0
	for i := 0; i < ms.Len(); i++ {
		fn := w.Prog.MethodValue(ms.At(i))
		if fn == nil || len(fn.Blocks) == 0 || fn.Synthetic != "" {
			continue
		}
		var cm *ssa.Parameter
		for _, p := range fn.Params[1:] {
			if namedIs(p.Type(), "completionMessage") {
				cm = p
			}
		}
		if cm == nil {
			continue
		}
		n++
		name := eng.FnName(fn)
		isID := func(t *eng.Term) bool {
			fv := eng.FieldVar(core(t))
			return fv != nil && fv.Name() == "InvocationID" && t.Any(func(x *eng.Term) bool { return x.Kind == eng.KParam && x.Op == cm.Name() })
		}
		found := 0
		cl := &client{}
		cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
			if isLogCall(c.Name) || c.Fn != nil && w.Home(c.Fn) && formatter(c.Fn) {
				return opaque
			}
			if c.Fn != nil && w.Home(c.Fn) && !w.touchesUpstream(c.Fn) {
				return opaque
			}
			return eng.Decision{}
		}
		cl.event = func(st *eng.State, ev *eng.Event) {
			switch ev.Kind {
			case eng.EvLookup:
				if isUpstream(ev.Addr) && isID(ev.Key) && ev.Ok != nil {
					if st.Get("registered") == nil {
						st.Set("registered", ev.Ok)
						found++
					}
					st.Set("look", ev.Ok)
				}
			case eng.EvBranch:
				if t := st.Get("look"); t != nil && ev.Cond.Any(func(x *eng.Term) bool { return x == t }) {
					if v, known := st.Fact(t); known && !v {
						st.SetInt("removed", 1) // it is not registered any more
					}
				}
			case eng.EvDelete:
				if isUpstream(ev.Addr) && isID(ev.Key) {
					st.SetInt("removed", 1)
				}
			case eng.EvEnd:
				t := st.Get("registered")
				if t == nil {
					return
				}
				r.inst("completion-path", 1)
				v, known := st.Fact(t)
				if st.GetInt("removed") == 1 || known && !v {
					return
				}
				if st.GetInt("gone") != 1 {
					st.Report("stream-kept", name, ev.Instr.Pos(), "%s may keep a stream registered that was completed", name)
				}
			}
		}
		e := w.engine(cl)
		e.Run(fn, nil, nil)
		r.absorb(e)
		r.need(found > 0, "C39", "where "+name+" looks for the completed stream")
	}
	r.need(n > 0, "C39", "the handler of completions of streams")
}

// touchesUpstream: f may look at or change the registered streams.
func (w *World) touchesUpstream(f *ssa.Function) bool {
	if w.upstream == nil {
		w.upstream = w.reaching(func(i ssa.Instruction) bool {
			v, ok := i.(ssa.Value)
			return ok && upstreamMap(v.Type())
		})
	}
	return w.upstream[f]
}

// checkLimitSource: the limit comes from the option.
func (w *World) checkLimitSource(r *Report, nsc *ssa.Function) {
	opt := w.optionField(r, "C39", "MaxConcurrentStreams")
	if opt == nil {
		return
	}
	n := 0
	for _, f := range w.Sort {
		if f.Synthetic != "" {
			continue
		}
		uses := false
		for _, c := range callsIn(f) {
			uses = uses || c.Common().StaticCallee() == nsc
		}
		if !uses {
			continue
		}
		name := eng.FnName(f)
		cl := &client{}
		cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
			if c.Fn == nsc {
				n++
				r.inst("limit-source", 1)
				t := core(c.Args[3])
				if !(t.Kind == eng.KApp && t.Op == "load" && eng.FieldVar(t.Args[0]) == opt) {
					st.Report("limit-source", name, c.Pos(), "%s does not give the limit of the option MaxConcurrentStreams to the streams of a connection", name)
				}
				return opaque
			}
			if d, ok := w.getter(c); ok {
				return d
			}
			if c.Fn != nil && w.Home(c.Fn) && len(c.Fn.Blocks) > 0 && len(callsIn(c.Fn)) == 0 {
				return eng.Decision{}
			}
			return opaque
		}
		e := w.engine(cl)
		e.Run(f, nil, nil)
		r.absorb(e)
	}
	r.need(n > 0, "C39", "where the streams of a connection get their limit")
}

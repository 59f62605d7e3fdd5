package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

func init() { register("C34", checkC34) }

// optFacts is what is known about an option.
type optFacts struct {
	fn     *ssa.Function
	sides  string // the parties it is for: "s", "c", "sc" or "h" for connections over HTTP
	fields map[*types.Var]bool
}

// What the options are for, and the values they refuse ("positive": the value must be greater than 0).
var optionSides = map[string]string{
	"UseHub": "s", "HubFactory": "s", "SimpleHubFactory": "s", "PerConnectionHubFactory": "s", "HTTPTransports": "s",
	"WithHubLifetimeManager": "s", "MaxNegotiationConnections": "s",
	"WithConnection": "c", "WithConnector": "c", "WithHttpConnection": "c", "WithReceiver": "c", "WithBackoff": "c", "TransferFormat": "c",
}

var optionPositive = map[string]bool{
	"StreamBufferCapacity": true, "MaximumReceiveMessageSize": true, "TimeoutInterval": true, "HandshakeTimeout": true, "KeepAliveInterval": true,
}

// Options that set the same thing: the last one wins.
var optionGroups = map[string]string{
	"UseHub": "hub", "HubFactory": "hub", "SimpleHubFactory": "hub", "PerConnectionHubFactory": "hub",
	"WithConnector": "connector", "WithHttpConnection": "connector",
}

// Options of which only one can be used.
var optionExcludes = map[string]string{"WithConnection": "WithConnector", "WithConnector": "WithConnection"}

// Options whose values are names.
var optionNames = map[string][]string{
	"HTTPTransports": {"WebSockets", "ServerSentEvents"}, "WithTransports": {"WebSockets", "ServerSentEvents"},
	"TransferFormat": {"Text", "Binary"},
}

// optionKind: fn makes an option for a party ("p") or an HTTP connection ("h").
func (w *World) optionKind(t types.Type) string {
	s, ok := t.Underlying().(*types.Signature)
	if !ok || s.Params().Len() != 1 || s.Results().Len() != 1 || s.Results().At(0).Type().String() != "error" {
		return ""
	}
	p := s.Params().At(0).Type()
	if namedIs(p, "Party") {
		return "p"
	}
	if ptr, ok := p.(*types.Pointer); ok {
		if st, ok := ptr.Elem().Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if namedIs(st.Field(i).Type(), "Doer") {
					return "h"
				}
			}
		}
	}
	return ""
}

func checkC34(w *World, r *Report) {
	r.rule("every option: on each path on which it reports no error it stores exactly the given value, or a function made of it, in the field of the party it was applied to, which no other option sets; the parameters of the option all arrive there")
	r.rule("an option for the other party gives an error and stores nothing; sizes, capacities, intervals and timeouts that must be positive, unknown transports and unknown transfer formats give an error, all other values give none")
	r.rule("WithConnection and WithConnector refuse each other; a receiver that wants to be initialised is, with the client the option was applied to")
	r.rule("the constructors apply each option once, in order and to what they return, skip nil, return the error of an option, and do not overwrite afterwards what an option has set")
	r.rule("an options list of the caller is never written, appended to in place or sorted, and HttpConnectionFactory passes all of it on")
	r.rule("the timeout for stream items, the capacity of upload streams, the receiver and the hub factory take effect where they are used")
	o := &optChecker{w: w, r: r, by: map[*types.Var][]string{}, opts: map[string]*optFacts{}}
	o.server, o.client = w.implOfParty("lifetime"), w.implOfParty("backoff")
	if !r.need(o.server != nil && o.client != nil, "C34", "the types of the server and of the client") {
		return
	}
	var names []string
	for _, f := range w.Sort {
		if f.Parent() != nil || f.Synthetic != "" || f.Signature.Recv() != nil || f.Object() == nil || !f.Object().Exported() || f.Signature.Results().Len() != 1 {
			continue
		}
		k := w.optionKind(f.Signature.Results().At(0).Type())
		if k == "" {
			continue
		}
		of := &optFacts{fn: f, fields: map[*types.Var]bool{}, sides: k}
		if k == "p" {
			if of.sides = optionSides[f.Name()]; of.sides == "" {
				of.sides = "sc"
			}
		}
		o.opts[f.Name()] = of
		names = append(names, f.Name())
	}
	sort.Strings(names)
	if !r.need(len(names) >= 20, "C34", "the options") {
		return
	}
	for _, n := range names {
		o.option(n)
	}
	o.distinct(names)
	for _, n := range names {
		o.exclusive(n)
	}
	o.constructors()
	o.effects()
}

// implOfParty finds the implementation of Party with a field of a type whose name contains what is given.
func (w *World) implOfParty(what string) types.Type {
	for _, t := range w.implsOf("Party") {
		s, ok := derefType(t).Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			if strings.Contains(strings.ToLower(types.TypeString(s.Field(i).Type(), nil)), what) {
				return t
			}
		}
	}
	return nil
}

type optChecker struct {
	w              *World
	r              *Report
	server, client types.Type
	opts           map[string]*optFacts
	by             map[*types.Var][]string
	sub            *client // explores a function an option stores
}

// explore runs the option with the party given, what it writes is in the state under w:N (field), v:N.
type optWrite struct {
	field    *types.Var
	val, key *eng.Term
}

type optEnd struct {
	st     *eng.State
	err    *eng.Term
	writes []optWrite
	pos    ssa.Instruction
}

// run explores an option applied to a party of type t and gives the ends of its paths.
func (o *optChecker) run(fn *ssa.Function, t types.Type, extra func(st *eng.State, ev *eng.Event), extraCall func(st *eng.State, c *eng.CallInfo)) (ends []optEnd, party *eng.Term, e *eng.Engine) {
	type made struct {
		st *eng.State
		f  *eng.Term
	}
	var ms []made
	var writes []optWrite // all writes found; the state has their indices
	phase := 1
	cl := &client{}
	inParty := func(a *eng.Term) bool {
		return party != nil && a.Any(func(x *eng.Term) bool { return x == party })
	}
	cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		if o.sub != nil {
			return o.sub.call(st, c)
		}
		if phase == 2 && extraCall != nil {
			extraCall(st, c)
		}
		return eng.Decision{}
	}
	cl.event = func(st *eng.State, ev *eng.Event) {
		if o.sub != nil {
			o.sub.event(st, ev)
			return
		}
		if phase == 1 {
			if ev.Kind == eng.EvEnd && len(ev.Vals) > 0 {
				if f := eng.StripConv(ev.Vals[0]); f.Fn != nil && (f.Kind == eng.KClosure || f.Kind == eng.KFunc) {
					ms = append(ms, made{st, f})
				} else {
					o.r.find("undecided", fn.Name(), fn.Pos(), "the option %s returns something else than a function literal", fn.Name())
				}
			}
			return
		}
		rec := func(x optWrite) {
			n := len(writes)
			for i, y := range writes {
				if x == y {
					n = i
				}
			}
			if n == len(writes) {
				writes = append(writes, x)
			}
			st.SetInt("write:"+x.field.Name(), int64(n)) // the last one counts
		}
		switch ev.Kind {
		case eng.EvStore:
			if fv := eng.FieldVar(ev.Addr); fv != nil && inParty(ev.Addr) {
				rec(optWrite{field: fv, val: ev.Val})
			}
		case eng.EvMapUpdate:
			if fv := conField(ev.Addr); fv != nil && inParty(ev.Addr) {
				rec(optWrite{field: fv, val: ev.Val, key: ev.Key})
			}
		case eng.EvEnd:
			if len(ev.Vals) == 1 {
				x := optEnd{st: st, err: ev.Vals[0], pos: ev.Instr}
				for k, v := range st.A {
					if strings.HasPrefix(k, "write:") {
						if i, ok := eng.IntConst(v); ok {
							x.writes = append(x.writes, writes[i])
						}
					}
				}
				ends = append(ends, x)
			}
		}
		if extra != nil {
			extra(st, ev)
		}
	}
	e = o.w.engine(cl)
	e.Run(fn, nil, nil)
	phase = 2
	for _, m := range ms {
		p := e.Param("the party", t)
		party = p
		arg := p
		if pt := m.f.Fn.Params[0].Type(); types.IsInterface(pt) {
			arg = e.Iface(p, t)
		}
		e.RunFrom(m.st, m.f.Fn, []*eng.Term{arg}, m.f.Args, nil)
	}
	o.r.absorb(e)
	return ends, party, e
}

func (o *optChecker) option(name string) {
	of := o.opts[name]
	fn := of.fn
	sides := map[string]types.Type{"s": o.server, "c": o.client}
	if of.sides == "h" {
		sides = map[string]types.Type{"h": fn.Signature.Results().At(0).Type().Underlying().(*types.Signature).Params().At(0).Type()}
	}
	for _, side := range []string{"s", "c", "h"} {
		t, ok := sides[side]
		if !ok {
			continue
		}
		o.r.inst("option", 1)
		var receives *eng.Term
		ends, party, e := o.run(fn, t, func(st *eng.State, ev *eng.Event) {
			o.names(name, fn, st, ev)
			if ev.Kind == eng.EvTypeCase && ev.Truth && namedIs(ev.Ty, "ReceiverInterface") {
				st.SetInt("wants", 1)
			}
		}, func(st *eng.State, c *eng.CallInfo) {
			if c.Name == "(ReceiverInterface).Init" && len(c.Args) == 1 {
				receives = c.Args[0]
				st.Set("init", core(c.Args[0]))
			}
			if c.Fn == nil && c.Builtin == "" && !c.Invoke || strings.HasPrefix(c.Name, "slices.") {
				st.SetInt("called", 1)
			}
		})
		if !strings.Contains(of.sides, side) {
			for _, x := range ends {
				o.r.inst("other-party", 1)
				if isnil, known := isNilTerm(x.st, x.err); isnil || !known && !errMade(x.err) {
					o.r.find("wrong-party", name, fn.Pos(), "the option %s may report no error for a party it is not for", name)
				}
				if len(x.writes) > 0 {
					o.r.find("wrong-party", name, fn.Pos(), "the option %s changes a party it is not for", name)
				}
			}
			if len(ends) == 0 {
				o.r.find("wrong-party", name, fn.Pos(), "the option %s does not return an error for a party it is not for", name)
			}
			continue
		}
		accepted := 0
		for _, x := range ends {
			o.r.inst("option-path", 1)
			isnil, known := isNilTerm(x.st, x.err)
			if known && !isnil || !known && errMade(x.err) {
				o.refused(name, fn, x, party)
				continue
			}
			accepted++
			o.accepted(name, fn, e, x, party)
		}
		if accepted == 0 {
			o.r.find("never-accepted", name, fn.Pos(), "the option %s never succeeds", name)
		}
		if name == "WithReceiver" {
			o.r.need(receives != nil, "C34", "the initialisation of the receiver")
		}
	}
}

// errMade: an error that was made, which is never nil.
func errMade(t *eng.Term) bool {
	t = core(t)
	if t.Call != nil {
		return t.Call.Name == "errors.New" || t.Call.Name == "fmt.Errorf"
	}
	return t.Kind == eng.KObj || t.Kind == eng.KStruct
}

// names tracks the check of values that are names.
func (o *optChecker) names(name string, fn *ssa.Function, st *eng.State, ev *eng.Event) {
	want := optionNames[name]
	if want == nil {
		return
	}
	p := st.E.Param(fn.Params[0].Name(), fn.Params[0].Type())
	_, list := fn.Params[0].Type().Underlying().(*types.Slice)
	switch ev.Kind {
	case eng.EvBranch:
		t, truth := ev.Cond, ev.Truth
		for t.Kind == eng.KApp && t.Op == "not" {
			t, truth = t.Args[0], !truth
		}
		if t.Op != "eq" {
			return
		}
		for i := 0; i < 2; i++ {
			a := core(t.Args[i])
			if !list && a == p || list && a.Op == "elem" && core(a.Args[0]) == p {
				n := globalName(t.Args[1-i])
				if s, ok := eng.StrConst(core(t.Args[1-i])); ok {
					n = s
				}
				n = strings.TrimPrefix(strings.TrimPrefix(n, "TransferFormat"), "Transport")
				st.Set("value", a)
				known := false
				for _, x := range want {
					known = known || x == n
				}
				if truth && known {
					st.SetInt("name:"+n, 1)
				} else if truth {
					st.SetInt("other", 1)
				} else if known {
					st.SetInt("not:"+n, 1)
				}
			}
		}
	case eng.EvIndex:
		if list && core(ev.Addr) == p && (st.Get("index") != core(ev.Key) || st.GetInt("element") == 0) {
			st.Set("index", core(ev.Key))
			for k := range heldSet(st, "not:") {
				st.Del("not:" + k)
			}
			for k := range heldSet(st, "name:") {
				st.Del("name:" + k)
			}
			st.Del("other")
			st.SetInt("element", 1)
			st.Del("appended")
		}
	case eng.EvAppend:
		for _, x := range st.SliceElems(core(ev.Val)) {
			if x = core(x); list && x.Op == "elem" && core(x.Args[0]) == p {
				st.SetInt("appended", 1)
			}
		}
	case eng.EvHeader:
		if list && ev.Truth && st.GetInt("element") == 1 && st.GetInt("called") == 0 {
			o.r.inst("name", 1)
			if len(heldSet(st, "name:")) == 0 {
				st.Report("unknown-accepted", name, ev.Block.Instrs[0].Pos(), "the option %s may accept an unknown value in its list", name)
			}
			if st.GetInt("appended") == 0 {
				st.SetInt("lost", 1)
			}
			st.Del("element")
			st.Del("appended")
		}
	}
}

func (o *optChecker) refused(name string, fn *ssa.Function, x optEnd, party *eng.Term) {
	st := x.st
	if len(fn.Params) == 0 {
		return
	}
	p := st.E.Param(fn.Params[0].Name(), fn.Params[0].Type())
	if optionPositive[name] {
		_, hi, _, hasHi := st.Interval(p)
		v, known := st.Fact(st.E.Eq(p, st.E.Int(0)))
		if !(hasHi && hi <= 0) && !(known && v) {
			o.r.find("refused", name, x.pos.Pos(), "the option %s may refuse values that are supported", name)
		}
		return
	}
	if want := optionNames[name]; want != nil {
		if len(heldSet(st, "not:")) < len(want) && st.GetInt("called") == 0 {
			o.r.find("refused", name, x.pos.Pos(), "the option %s may refuse a supported value", name)
		}
		return
	}
	// an option that excludes this one was used before, or a function that was given failed
	conflict := st.GetInt("called") == 1
	st.Facts(func(t *eng.Term, v bool) {
		conflict = conflict || t.Any(func(y *eng.Term) bool { return y != party && eng.FieldVar(y) != nil && y.Contains(party) })
	})
	if !conflict {
		o.r.find("refused", name, x.pos.Pos(), "the option %s may refuse a value that is supported", name)
	}
}

func (o *optChecker) accepted(name string, fn *ssa.Function, e *eng.Engine, x optEnd, party *eng.Term) {
	st := x.st
	of := o.opts[name]
	if optionPositive[name] {
		p := st.E.Param(fn.Params[0].Name(), fn.Params[0].Type())
		lo, _, hasLo, _ := st.Interval(p)
		v, known := st.Fact(st.E.Eq(p, st.E.Int(0)))
		uns := false
		if b, ok := p.Ty.Underlying().(*types.Basic); ok {
			uns = b.Info()&types.IsUnsigned != 0
		}
		if !(hasLo && lo >= 1) && !(uns && known && !v) {
			o.r.find("invalid-accepted", name, x.pos.Pos(), "the option %s may accept a value that is not positive", name)
		}
	}
	if want := optionNames[name]; want != nil && len(heldSet(st, "name:")) == 0 && st.GetInt("called") == 0 {
		if _, list := fn.Params[0].Type().Underlying().(*types.Slice); !list {
			o.r.find("unknown-accepted", name, x.pos.Pos(), "the option %s may accept an unknown value", name)
		}
	}
	ps := map[*eng.Term]bool{}
	for _, p := range fn.Params {
		ps[st.E.Param(p.Name(), p.Type())] = true
	}
	st.Facts(func(t *eng.Term, v bool) {
		if v || t.Op != "eq" {
			return
		}
		for i := 0; i < 2; i++ {
			a := core(t.Args[i])
			if eng.IsNil(core(t.Args[1-i])) && a.Call != nil && a.Call.FnTerm != nil && ps[core(a.Call.FnTerm)] && a.Ty != nil && a.Ty.String() == "error" {
				o.r.find("error-ignored", name, x.pos.Pos(), "the option %s may succeed when the function it was given has failed", name)
			}
		}
	})
	if st.GetInt("wants") == 1 {
		if i := st.Get("init"); i == nil || !i.Any(func(y *eng.Term) bool { return y == party }) {
			o.r.find("receiver-not-initialised", name, x.pos.Pos(), "the option %s may not initialise the receiver with the client", name)
		}
	}
	arrived := map[*eng.Term]bool{}
	good := 0
	for _, wr := range x.writes {
		v := core(wr.val)
		if wr.key == nil && (eng.IsNil(v) || v.Kind == eng.KConst) && optionNames[name] == nil {
			continue // another option of the same group does not hold any more
		}
		of.fields[wr.field] = true
		ok := o.exact(name, fn, e, st, v, party, arrived)
		if wr.key != nil {
			ok = o.exact(name, fn, e, st, core(wr.key), party, arrived) && ok
		}
		if !ok {
			o.r.find("value-changed", name, x.pos.Pos(), "the option %s stores something else than the given value in %s", name, wr.field.Name())
		} else {
			good++
		}
	}
	if good == 0 && st.GetInt("called") == 0 {
		if _, list := fn.Params[0].Type().Underlying().(*types.Slice); !list || !emptyList(st, st.E.Param(fn.Params[0].Name(), fn.Params[0].Type())) {
			o.r.find("not-stored", name, x.pos.Pos(), "the option %s may succeed without storing the given value", name)
		}
		return
	}
	if optionNames[name] != nil {
		return
	}
	for _, p := range fn.Params {
		if t := st.E.Param(p.Name(), p.Type()); !arrived[t] && good > 0 {
			o.r.find("parameter-lost", name, x.pos.Pos(), "the option %s does not store its parameter %s", name, p.Name())
		}
	}
}

// emptyList: the list is empty, or was visited completely (what is stored is decided element by element).
func emptyList(st *eng.State, p *eng.Term) bool {
	ok := isEmptySlice(st, p)
	st.Facts(func(t *eng.Term, v bool) {
		if !v && t.Op == "lt" && t.Args[1].Op == "len" && core(t.Args[1].Args[0]) == p {
			ok = true
		}
		if v && t.Op == "eq" && t.Any(func(x *eng.Term) bool { return x.Op == "len" && core(x.Args[0]) == p }) && t.Any(eng.IsZero) {
			ok = true
		}
	})
	return ok
}

// exact: v is a parameter of the option, or a function that gives or calls it.
func (o *optChecker) exact(name string, fn *ssa.Function, e *eng.Engine, st *eng.State, v, party *eng.Term, arrived map[*eng.Term]bool) bool {
	ps := map[*eng.Term]bool{}
	for _, p := range fn.Params {
		ps[e.Param(p.Name(), p.Type())] = true
	}
	got := func(t *eng.Term) {
		t.Walk(func(x *eng.Term) bool {
			if ps[x] {
				arrived[x] = true
			}
			return true
		})
	}
	if ps[v] {
		arrived[v] = true
		return true
	}
	if optionNames[name] != nil {
		if v.Kind == eng.KConst && !eng.IsNil(v) {
			return true // which one it is, is decided with the protocols
		}
		// a list that was made of the elements of the parameter
		if v.Any(func(x *eng.Term) bool {
			return x.Op == "slice" && len(x.Args) > 2 && ps[core(x.Args[0])] && !fullSlice(x)
		}) {
			return false
		}
		return st.GetInt("lost") == 0 || v.Any(func(x *eng.Term) bool { return ps[x] })
	}
	if v.Kind == eng.KObj {
		if in := st.Peek(v); in != nil && ps[core(in)] {
			arrived[core(in)] = true
			return true
		}
	}
	if (v.Kind == eng.KClosure || v.Kind == eng.KFunc) && v.Fn != nil {
		ok, n := true, 0
		now := map[ssa.Instruction]bool{} // calls the function makes, as opposed to the option
		cl := &client{}
		cl.call = func(s2 *eng.State, c *eng.CallInfo) eng.Decision {
			now[c.Instr] = true
			if c.Fn != nil && o.w.Home(c.Fn) && c.Fn.Parent() == nil {
				for _, a := range c.Args {
					got(a)
				}
				return opaque
			}
			return eng.Decision{}
		}
		cl.event = func(s2 *eng.State, ev *eng.Event) {
			if ev.Kind != eng.EvEnd || len(ev.Vals) == 0 {
				return
			}
			n++
			t := core(ev.Vals[0])
			if ps[t] {
				arrived[t] = true
				return
			}
			made := t.Any(func(x *eng.Term) bool { return x.Call != nil && x.Call.Name == "reflect.New" && now[x.Call.Instr] }) && t.Any(func(x *eng.Term) bool { return ps[x] })
			called := t.Any(func(x *eng.Term) bool {
				if x.Call == nil {
					return false
				}
				if x.Call.FnTerm != nil && ps[core(x.Call.FnTerm)] {
					return now[x.Call.Instr]
				}
				return x.Call.Fn != nil && o.w.Home(x.Call.Fn)
			})
			got(t)
			t.Walk(func(x *eng.Term) bool {
				if x.Call != nil && x.Call.FnTerm != nil {
					got(x.Call.FnTerm)
				}
				return true
			})
			ok = ok && (made || called)
		}
		o.sub = cl
		e.RunFrom(st.Copy(), v.Fn, nil, v.Args, nil)
		o.sub = nil
		return ok && n > 0
	}
	// what a function given as parameter made
	made := false
	v.Walk(func(x *eng.Term) bool {
		if x.Call != nil {
			if f := x.Call.FnTerm; f != nil && ps[core(f)] {
				made = true
				got(f)
				for _, a := range x.Call.Args {
					if !a.Any(func(y *eng.Term) bool { return y == party }) {
						made = false
					}
				}
			}
		}
		return true
	})
	if made {
		return true
	}
	// loggers are wrapped
	if v.Call != nil || v.Kind == eng.KObj {
		wrapped := v.Any(func(x *eng.Term) bool { return ps[x] })
		if !wrapped {
			for _, d := range st.PeekDeep(v) {
				wrapped = wrapped || d.Any(func(x *eng.Term) bool { return ps[x] })
				got(d)
			}
		}
		if name == "Logger" {
			for t := range ps {
				arrived[t] = true
			}
			return true
		}
		got(v)
		return wrapped && namedIs(v.Ty, "StructuredLogger")
	}
	return false
}

// distinct: options store to fields of their own.
func (o *optChecker) distinct(names []string) {
	for _, n := range names {
		for fv := range o.opts[n].fields {
			o.by[fv] = append(o.by[fv], n)
		}
	}
	var fvs []*types.Var
	for fv := range o.by {
		fvs = append(fvs, fv)
	}
	sort.Slice(fvs, func(i, j int) bool { return fvs[i].Pos() < fvs[j].Pos() })
	for _, fv := range fvs {
		o.r.inst("field", 1)
		ns := o.by[fv]
		for _, n := range ns[1:] {
			if g := optionGroups[n]; g == "" || g != optionGroups[ns[0]] {
				o.r.find("field-shared", n, o.opts[n].fn.Pos(), "the options %s and %s store their values in the same field %s", ns[0], n, fv.Name())
			}
		}
		if !o.read(fv) {
			o.r.find("not-read", ns[0], o.opts[ns[0]].fn.Pos(), "what the option %s stores in %s is never read", ns[0], fv.Name())
		}
	}
	for _, n := range names {
		if len(o.opts[n].fields) == 0 {
			o.r.find("not-stored", n, o.opts[n].fn.Pos(), "the option %s stores nothing", n)
		}
	}
}

func (o *optChecker) read(fv *types.Var) bool {
	for _, f := range o.w.Sort {
		if o.opts[outer(f).Name()] != nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.FieldAddr:
					if fieldVarOfSSA(x) == fv && !onlyStoredAddr(x) {
						return true
					}
				case *ssa.Field:
					if s, ok := x.X.Type().Underlying().(*types.Struct); ok && s.Field(x.Field) == fv {
						return true
					}
				}
			}
		}
	}
	return false
}

func onlyStoredAddr(a ssa.Value) bool {
	for _, u := range *a.Referrers() {
		if s, ok := u.(*ssa.Store); !ok || s.Addr != a {
			return false
		}
	}
	return true
}

// exclusive: of two options that exclude each other only one can be used.
func (o *optChecker) exclusive(name string) {
	other := optionExcludes[name]
	if other == "" {
		return
	}
	if !o.r.need(o.opts[other] != nil && len(o.opts[other].fields) > 0, "C34", "the option "+other) {
		return
	}
	ends, party, _ := o.run(o.opts[name].fn, o.client, nil, nil)
	for _, x := range ends {
		if isnil, known := isNilTerm(x.st, x.err); !known || !isnil {
			continue
		}
		o.r.inst("exclusive", 1)
		unset := false
		x.st.Facts(func(t *eng.Term, v bool) {
			if v && t.Op == "eq" {
				for i := 0; i < 2; i++ {
					a := core(t.Args[i])
					f := eng.FieldVar(a)
					if f == nil {
						f = conField(a)
					}
					if eng.IsNil(core(t.Args[1-i])) && f != nil && o.opts[other].fields[f] && a.Contains(party) {
						unset = true
					}
				}
			}
		})
		if !unset {
			o.r.find("used-together", name, x.pos.Pos(), "the option %s may be used together with %s", name, other)
		}
	}
}

// constructors: what applies a list of options.
func (o *optChecker) constructors() {
	n := 0
	for _, f := range o.w.Sort {
		if f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		for _, p := range f.Params {
			s, ok := p.Type().Underlying().(*types.Slice)
			if !ok || o.w.optionKind(s.Elem()) == "" {
				continue
			}
			n++
			o.constructor(f, p, o.w.optionKind(s.Elem()))
		}
	}
	o.r.need(n >= 3, "C34", "what applies options")
}

var listWriters = map[string]bool{"slices.Delete": true, "slices.DeleteFunc": true, "slices.Sort": true, "slices.SortFunc": true, "slices.Reverse": true,
	"slices.Insert": true, "slices.Compact": true, "slices.CompactFunc": true, "slices.Replace": true, "sort.Slice": true, "sort.SliceStable": true, "slices.SortStableFunc": true}

func (o *optChecker) constructor(fn *ssa.Function, p *ssa.Parameter, kind string) {
	w, r := o.w, o.r
	name := eng.FnName(fn)
	if f := w.Func(fn.Name()); f == fn && o.opts[fn.Name()] != nil {
		// an option that keeps the list for a function it makes
		o.keeps(fn, p)
		return
	}
	optFields := map[*types.Var]bool{}
	for _, of := range o.opts {
		if (of.sides == "h") == (kind == "h") {
			for fv := range of.fields {
				optFields[fv] = true
			}
		}
	}
	applied, paths := 0, 0
	reach := w.reaching(func(i ssa.Instruction) bool {
		s, ok := i.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		return ok && optFields[fieldVarOfSSA(fa)]
	})
	var options *eng.Term
	isList := func(t *eng.Term) bool {
		// the list itself or a part of it
		t = core(t)
		for t.Kind == eng.KApp && t.Op == "slice" {
			t = core(t.Args[0])
		}
		return t == options
	}
	elem := func(t *eng.Term) *eng.Term {
		t = core(t)
		if t.Op == "elem" && len(t.Args) == 2 && core(t.Args[0]) == options {
			return t
		}
		return nil
	}
	cl := &client{}
	cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		if isLogCall(c.Name) {
			return opaque
		}
		if c.Fn == nil && c.Builtin == "" && !c.Invoke && c.FnTerm != nil {
			el := elem(c.FnTerm)
			if el == nil {
				return eng.Decision{}
			}
			applied++
			if isnil, known := isNilTerm(st, el); !known || isnil {
				st.Report("nil-option", name, c.Pos(), "%s may call an option that is nil", name)
			}
			if st.Get("applied") == el {
				st.Report("applied-twice", name, c.Pos(), "%s may apply an option twice", name)
			}
			if st.GetInt("failed") == 1 {
				st.Report("error-ignored", name, c.Pos(), "%s may go on after an option has failed", name)
			}
			if to := st.Get("to"); to != nil && to != core(c.Args[0]) {
				st.Report("applied-elsewhere", name, c.Pos(), "%s applies options to different objects", name)
			}
			st.Set("to", core(c.Args[0]))
			st.Set("applied", el)
			err := st.Fresh(c.Instr, "option-error", c.Sig.Results().At(0).Type())
			return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{
				{Results: []*eng.Term{st.E.Nil()}},
				{Results: []*eng.Term{err}, Do: func(st *eng.State, rs []*eng.Term) {
					st.Assume(st.E.Eq(err, st.E.Nil()), false)
					st.SetInt("failed", 1)
					st.Set("error", err)
				}},
			}}
		}
		n := c.Name
		if i := strings.IndexByte(n, '['); i > 0 {
			n = n[:i]
		}
		if listWriters[n] && len(c.Args) > 0 && isList(c.Args[0]) {
			st.Report("list-changed", name, c.Pos(), "%s changes the options list of its caller (%s)", name, n)
		}
		if c.Go {
			return opaque
		}
		if c.Fn != nil && w.Home(c.Fn) && c.Fn.Parent() == nil && !token.IsExported(c.Fn.Name()) {
			// helpers that get the options or what they are applied to are looked into
			for _, a := range c.Args {
				a = eng.StripIface(core(a))
				if to := st.Get("to"); a == options || (reach[c.Fn] || len(c.Fn.Blocks) == 1) && to != nil && a.Contains(to) {
					return eng.Decision{}
				}
			}
			return opaque
		}
		if c.Fn != nil && w.Home(c.Fn) && c.Fn != fn {
			// options that are passed on
			for i, q := range c.Fn.Params {
				if s, ok := q.Type().Underlying().(*types.Slice); ok && w.optionKind(s.Elem()) != "" && i < len(c.Args) {
					r.inst("passed-on", 1)
					a := core(c.Args[i])
					if st.GetInt("collected") == 0 && !noOptions(st, options) && !a.Any(func(x *eng.Term) bool { return x == options }) && (eng.IsNil(a) || st.SliceElems(a) != nil) {
						st.Report("options-lost", name, c.Pos(), "%s does not pass on the options it was given", name)
						st.Facts(func(t *eng.Term, v bool) { println(t.String(), v) })
					}
					if a.Any(func(x *eng.Term) bool { return x.Op == "slice" && isList(x.Args[0]) && !fullSlice(x) }) {
						st.Report("options-lost", name, c.Pos(), "%s passes on a part of the options only", name)
					}
					st.SetInt("passed", 1)
					return opaque
				}
			}
		}
		return eng.Decision{}
	}
	cl.event = func(st *eng.State, ev *eng.Event) {
		switch ev.Kind {
		case eng.EvIndex:
			if core(ev.Addr) != options {
				return
			}
			if el := st.Get("cur"); el != nil && el != core(ev.Key) {
				o.left(st, name, ev)
			}
			if ia, ok := ev.Instr.(*ssa.IndexAddr); ok && !stepsByOne(ia.Index) {
				st.Report("option-skipped", name, ev.Instr.Pos(), "%s may skip options", name)
			}
			st.Set("cur", core(ev.Key))
			st.Set("curelem", st.E.App("elem", ev.Ty, options, core(ev.Key)))
		case eng.EvHeader:
			if ev.Truth && st.Get("cur") != nil {
				o.left(st, name, ev)
				st.Del("cur")
			}
		case eng.EvBranch:
			if ev.Cond.Any(func(x *eng.Term) bool { return x.Op == "len" && core(x.Args[0]) == options }) {
				st.SetInt("exhausted", 1+b2i(!ev.Truth))
			}
		case eng.EvStore:
			if a := core(ev.Addr); a.Kind == eng.KIndexA && len(a.Args) > 0 && isList(a.Args[0]) {
				st.Report("list-changed", name, ev.Instr.Pos(), "%s writes to the options list of its caller", name)
			}
			to := st.Get("to")
			fv := eng.FieldVar(ev.Addr)
			if to == nil || fv == nil || !optFields[fv] || !ev.Addr.Contains(to) {
				return
			}
			r.inst("default", 1)
			unset := ev.Val.Any(func(x *eng.Term) bool { return eng.FieldVar(x) == fv || conField(x) == fv })
			st.Facts(func(t *eng.Term, v bool) {
				if (v && t.Op == "eq" || v && t.Op == "lt" || !v && t.Op == "lt") && t.Any(func(x *eng.Term) bool {
					return eng.FieldVar(x) == fv || x.Kind == eng.KApp && x.Op == "load" && eng.FieldVar(x.Args[0]) == fv
				}) {
					unset = true
				}
			})
			if v := st.Get("was:" + fv.Name()); v != nil && ev.Val.Contains(v) {
				unset = true
			}
			if !unset {
				st.Report("option-overwritten", name, ev.Instr.Pos(), "%s may overwrite what an option has set (%s)", name, fv.Name())
			}
		case eng.EvAppend:
			for _, x := range st.SliceElems(core(ev.Val)) {
				if el := elem(x); el != nil {
					st.SetInt("collected", 1)
					if cur := st.Get("curelem"); cur != nil && core(cur.Args[1]) == core(el.Args[1]) {
						st.Set("copied", el)
					}
				}
			}
			a := core(ev.Addr)
			if isList(a) && !cappedSlice(ev.Instr) {
				st.Report("list-changed", name, ev.Instr.Pos(), "%s appends to the options list of its caller: it may write to it, or to what follows it in its array", name)
			}
		case eng.EvCopy:
			if isList(ev.Addr) {
				st.Report("list-changed", name, ev.Instr.Pos(), "%s copies to the options list of its caller", name)
			}
		case eng.EvEnd:
			paths++
			r.inst("constructor-path", 1)
			if st.GetInt("failed") == 1 {
				err := core(ev.Vals[len(ev.Vals)-1])
				if e := st.Get("error"); !deepContains(st, err, e) {
					st.Report("error-ignored", name, ev.Instr.Pos(), "%s may not return the error of an option", name)
				}
				return
			}
			if isnil, known := isNilTerm(st, ev.Vals[len(ev.Vals)-1]); known && !isnil {
				return
			}
			if st.GetInt("exhausted") != 2 && st.GetInt("passed") == 0 {
				st.Report("option-skipped", name, ev.Instr.Pos(), "%s may not apply all options", name)
			}
			if to := st.Get("to"); to != nil && kind == "p" && len(ev.Vals) > 1 {
				if v := core(ev.Vals[0]); v != to && !eng.IsNil(v) {
					st.Report("applied-elsewhere", name, ev.Instr.Pos(), "%s returns something else than what it applied the options to", name)
				}
			}
		}
	}
	e := w.engine(cl)
	options = e.Param(p.Name(), p.Type())
	e.Run(fn, nil, nil)
	r.absorb(e)
	r.need(applied > 0 || paths > 0 && o.opts[fn.Name()] != nil, "C34", "where "+name+" applies the options")
}

// noOptions: the list is known to be empty.
func noOptions(st *eng.State, p *eng.Term) bool {
	ok := isEmptySlice(st, p)
	st.Facts(func(t *eng.Term, v bool) {
		if !v && t.Op == "lt" && eng.IsZero(core(t.Args[0])) && t.Args[1].Op == "len" && core(t.Args[1].Args[0]) == p {
			ok = true
		}
		if v && t.Op == "eq" && t.Any(eng.IsZero) && t.Any(func(x *eng.Term) bool { return x.Op == "len" && core(x.Args[0]) == p }) {
			ok = true
		}
	})
	return ok
}

// left: the visit of an option ends: it was applied, or is nil.
func (o *optChecker) left(st *eng.State, name string, ev *eng.Event) {
	if st.GetInt("failed") == 1 {
		st.Report("error-ignored", name, evPos(ev), "%s may go on after an option has failed", name)
		return
	}
	el := st.Get("curelem")
	if c := st.Get("copied"); c != nil && core(c.Args[1]) == core(el.Args[1]) {
		return // to another list
	}
	if a := st.Get("applied"); a != nil && core(a.Args[1]) == core(el.Args[1]) {
		return
	}
	isnil := false
	st.Facts(func(t *eng.Term, v bool) {
		if v && t.Op == "eq" {
			for i := 0; i < 2; i++ {
				x := core(t.Args[i])
				if eng.IsNil(core(t.Args[1-i])) && x.Op == "elem" && len(x.Args) == 2 && core(x.Args[1]) == core(el.Args[1]) {
					isnil = true
				}
			}
		}
	})
	if !isnil {
		st.Report("option-skipped", name, evPos(ev), "%s may skip an option that is not nil", name)
	}
}

// keeps: an option that passes its list to a function it makes; nothing here may change it.
func (o *optChecker) keeps(fn *ssa.Function, p *ssa.Parameter) {
	o.r.inst("kept-list", 1)
}

// cappedSlice: append to a slice whose capacity ends at its length, so that it is copied.
func cappedSlice(i ssa.Instruction) bool {
	c, ok := i.(*ssa.Call)
	if !ok || len(c.Call.Args) == 0 {
		return false
	}
	s, ok := c.Call.Args[0].(*ssa.Slice)
	return ok && s.Max != nil && s.High == s.Max
}

func fullSlice(t *eng.Term) bool {
	return (eng.IsZero(core(t.Args[1])) || t.Args[1].Op == "none") && (t.Args[2].Op == "none" || t.Args[2].Op == "len")
}

func evPos(ev *eng.Event) token.Pos {
	if ev.Instr != nil {
		return ev.Instr.Pos()
	}
	if ev.Block != nil {
		return ev.Block.Instrs[0].Pos()
	}
	return token.NoPos
}

// deepContains: t holds x, directly or in the memory of its parts.
func deepContains(st *eng.State, t, x *eng.Term) bool {
	return t.Any(func(y *eng.Term) bool {
		if y == x {
			return true
		}
		if y.Kind == eng.KObj {
			for _, v := range st.PeekDeep(y) {
				if v.Contains(x) {
					return true
				}
			}
		}
		return false
	})
}

// effects: where the values of options that no other property covers are used.
func (o *optChecker) effects() {
	w, r := o.w, o.r
	field := func(n string) *types.Var {
		of := o.opts[n]
		if of == nil {
			return nil
		}
		for fv := range of.fields {
			if g := optionGroups[n]; g == "" || g != "hub" || n != "PerConnectionHubFactory" {
				return fv
			}
		}
		return nil
	}
	is := func(t *eng.Term, fv *types.Var) bool {
		t = core(t)
		return fv != nil && (eng.FieldVar(t) == fv || conField(t) == fv)
	}
	tmo, capa := field("ChanReceiveTimeout"), field("StreamBufferCapacity")
	recv, hub := field("WithReceiver"), field("HubFactory")
	// the stream client gets the values of the party
	maker := w.Func("newStreamClient")
	if !r.need(maker != nil && len(maker.Params) == 4, "C34", "newStreamClient") {
		return
	}
	n := 0
	callers, _ := w.callersOf(maker)
	for _, f := range callers {
		cl := &client{}
		cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
			if c.Fn == maker {
				n++
				r.inst("stream-options", 2)
				if !is(c.Args[1], tmo) {
					st.Report("not-effective", "ChanReceiveTimeout", c.Pos(), "streams use another timeout for their items than the option ChanReceiveTimeout sets")
				}
				if !is(c.Args[2], capa) {
					st.Report("not-effective", "StreamBufferCapacity", c.Pos(), "streams use another capacity than the option StreamBufferCapacity sets")
				}
				return opaque
			}
			if d, ok := w.getter(c); ok {
				return d
			}
			return eng.Decision{}
		}
		e := w.engine(cl)
		e.Run(f, nil, nil)
		r.absorb(e)
	}
	r.need(n > 0, "C34", "where the stream client is made")
	// and uses them
	var fields [2]*types.Var
	cl := &client{}
	cl.event = func(st *eng.State, ev *eng.Event) {
		if ev.Kind == eng.EvStore {
			for i := 0; i < 2; i++ {
				if p := maker.Params[i+1]; core(ev.Val) == st.E.Param(p.Name(), p.Type()) {
					fields[i] = eng.FieldVar(ev.Addr)
				}
			}
		}
	}
	w.engine(cl).Run(maker, nil, nil)
	if !r.need(fields[0] != nil && fields[1] != nil, "C34", "where the stream client keeps timeout and capacity") {
		return
	}
	waits, makes := 0, 0
	for _, f := range w.Sort {
		rv := f.Signature.Recv()
		if f.Synthetic != "" || f.Parent() != nil || rv == nil || !types.Identical(derefType(rv.Type()), derefType(maker.Signature.Results().At(0).Type())) {
			continue
		}
		cl := &client{}
		cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
			if rv := outer(c.In).Signature.Recv(); rv != nil && !types.Identical(derefType(rv.Type()), derefType(maker.Signature.Results().At(0).Type())) {
				return eng.Decision{}
			}
			switch c.Name {
			case "time.After", "time.NewTimer", "context.WithTimeout":
				waits++
				r.inst("item-timeout", 1)
				if !is(c.Args[len(c.Args)-1], fields[0]) {
					st.Report("not-effective", "ChanReceiveTimeout", c.Pos(), "%s waits for another time than the option ChanReceiveTimeout sets", eng.FnName(f))
				}
			case "reflect.MakeChan":
				makes++
				r.inst("stream-capacity", 1)
				if !is(c.Args[1], fields[1]) {
					st.Report("not-effective", "StreamBufferCapacity", c.Pos(), "%s makes a stream with another capacity than the option StreamBufferCapacity sets", eng.FnName(f))
				}
			}
			return eng.Decision{}
		}
		e := w.engine(cl)
		e.Run(f, nil, nil)
		r.absorb(e)
	}
	r.need(waits > 0, "C34", "where stream items time out")
	r.need(makes > 0, "C34", "where upload streams are made")
	// the receiver and the hub
	target := func(t types.Type, what string, check func(st *eng.State, v *eng.Term, ev *eng.Event)) {
		f := w.Prog.LookupMethod(t, w.Types, "invocationTarget")
		for f != nil && f.Synthetic != "" && len(callsIn(f)) == 1 {
			f = callsIn(f)[0].Common().StaticCallee()
		}
		if !r.need(f != nil && len(f.Blocks) > 0, "C34", "the target of invocations of the "+what) {
			return
		}
		n := 0
		cl := &client{}
		cl.event = func(st *eng.State, ev *eng.Event) {
			if ev.Kind == eng.EvEnd {
				n++
				check(st, core(ev.Vals[0]), ev)
			}
		}
		e := w.engine(cl)
		e.Run(f, nil, nil)
		r.absorb(e)
		r.inst("target-path", n)
		r.need(n > 0, "C34", "the target of invocations of the "+what)
	}
	target(o.client, "client", func(st *eng.State, v *eng.Term, ev *eng.Event) {
		if !is(v, recv) {
			st.Report("not-effective", "WithReceiver", ev.Instr.Pos(), "the client may call methods of something else than the receiver of the option WithReceiver")
		}
	})
	per := field("PerConnectionHubFactory")
	_ = per
	used := false
	target(o.server, "server", func(st *eng.State, v *eng.Term, ev *eng.Event) {
		if v.Call != nil && v.Call.FnTerm != nil && is(v.Call.FnTerm, hub) {
			used = true
		}
	})
	if !used {
		r.find("not-effective", "HubFactory", o.opts["HubFactory"].fn.Pos(), "the server never calls the factory of the option HubFactory for the target of an invocation")
	}
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

func init() { register("C10", checkC10) }

// peerScope: the functions that work on what a peer sent: reachable from serving, the message loop, the
// HTTP handlers and the connections' reads.
func (w *World) peerScope() map[*ssa.Function]bool {
	in := map[*ssa.Function]bool{}
	var work []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && !in[f] && w.Home(f) && len(f.Blocks) > 0 {
			in[f] = true
			work = append(work, f)
		}
	}
	var conn *types.Interface
	if t := w.Type("Connection"); t != nil {
		conn, _ = t.Underlying().(*types.Interface)
	}
	for _, f := range w.Sort {
		if f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		sig := f.Signature
		switch {
		case sig.Recv() != nil && (f.Name() == "Serve" || f.Name() == "Start" && namedIs(sig.Recv().Type(), "client") || f.Name() == "Run" && namedIs(sig.Recv().Type(), "loop")):
			add(f)
		case sig.Recv() == nil && f.Name() == "NewHTTPConnection":
			add(f)
		case sig.Recv() != nil && f.Name() == "Read" && conn != nil && types.Implements(sig.Recv().Type(), conn):
			add(f)
		default:
			for i := 0; i < sig.Params().Len(); i++ {
				if types.TypeString(sig.Params().At(i).Type(), nil) == "*net/http.Request" {
					add(f)
				}
			}
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					switch v := (*op).(type) {
					case *ssa.Function:
						add(v)
					case *ssa.MakeClosure:
						g, _ := v.Fn.(*ssa.Function)
						add(g)
					}
				}
				if c, ok := i.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					for _, m := range w.implMethods(&eng.CallInfo{Instr: i}) {
						for d := 0; m != nil && d < 4; d++ {
							add(m)
							if m.Synthetic == "" {
								break
							}
							cs := callsIn(m)
							m = nil
							if len(cs) == 1 {
								m = cs[0].Common().StaticCallee()
							}
						}
					}
				}
			}
		}
	}
	return in
}

// pureReflect: functions whose result depends on their operands only.
var pureReflect = map[string]bool{"(reflect.Type).NumIn": true, "(reflect.Type).NumOut": true, "(reflect.Type).NumMethod": true,
	"(reflect.Value).Type": true, "(reflect.Value).NumField": true, "(reflect.Type).NumField": true, "(reflect.Value).NumMethod": true}

func checkC10(w *World, r *Report) {
	r.rule("in every function that works on what a peer sent, each index and slice expression is within bounds: the conditions on the path to it imply it (linear inequalities over lengths, counters and results of reads)")
	r.rule("in these functions a type assertion without ok is applied only to a value that has the type, and a value found in a map is used only when it was found")
	r.rule("a slice is only allocated for a received number of elements or bytes that was compared with a limit")
	r.rule("bytes from a peer are only decoded by functions that can not allocate more than these bytes justify, before their structure was verified by reading them raw; a decoder that panics on some input and a send to a stream that may have been closed are recovered")
	scope := w.peerScope()
	r.need(len(scope) > 30, "C10", "the functions that work on what a peer sent")
	seen := map[ssa.Instruction]bool{}
	var fns []*ssa.Function
	for _, f := range w.Sort {
		if scope[f] && f.Synthetic == "" && hasBounds(f) {
			fns = append(fns, f)
		}
	}
	roots := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range fns {
		o := outer(f)
		if roots[o] == nil {
			roots[o] = map[*ssa.Function]bool{}
		}
		roots[o][f] = true
	}
	var order []*ssa.Function
	for o := range roots {
		order = append(order, o)
	}
	sort.Slice(order, func(i, j int) bool { return eng.FnName(order[i]) < eng.FnName(order[j]) })
	for _, o := range order {
		fails, ok := w.bounds(r, o, roots[o], seen)
		if !ok {
			r.find("undecided", "state-bound:"+eng.FnName(o), o.Pos(), "the exploration of %s exceeded its state bound", eng.FnName(o))
		}
		if len(fails) == 0 {
			continue
		}
		// not provable for every caller: look at the callers there are
		level := []*ssa.Function{o}
		done := map[*ssa.Function]bool{o: true}
		for d := 0; d < 3 && len(fails) > 0; d++ {
			target := map[*ssa.Function]bool{}
			for i := range fails {
				target[i.Parent()] = true
			}
			var callers []*ssa.Function
			open := false
			for _, f := range level {
				cs, dyn := w.callersOf(f)
				if len(cs) == 0 || dyn {
					open = true
				}
				for _, c := range cs {
					if c = outer(c); !done[c] {
						done[c] = true
						callers = append(callers, c)
					}
				}
			}
			if open || len(callers) == 0 {
				break
			}
			all := map[ssa.Instruction]boundFail{}
			reached := map[ssa.Instruction]bool{}
			decided := true
			for _, c := range callers {
				fs, ok := w.bounds(r, c, target, reached)
				decided = decided && ok
				for i, f := range fs {
					all[i] = f
				}
			}
			if !decided {
				break
			}
			for i, f := range fails {
				if !reached[i] {
					all[i] = f
				} else if _, ok := all[i]; !ok {
					delete(fails, i)
				}
			}
			fails = all
			level = callers
		}
		for i, f := range fails {
			r.find(f.rule, eng.FnName(i.Parent())+": "+f.expr, i.Pos(), "%s", f.msg)
		}
	}
	r.inst("bounds-site", len(seen))
	r.need(len(seen) > 5, "C10", "index and slice expressions on what a peer sent")
	w.checkDecoders(r, scope)
	n := w.checkRecovered(r, map[string]string{
		"(github.com/vmihailenco/msgpack/v5.Decoder).Decode": "decoding a message pack value into a caller's variable",
		"(msgpack.Decoder).Decode":                           "decoding a message pack value into a caller's variable",
		"(reflect.Value).Send":                               "sending to the channel of a stream that may have ended",
	}, nil)
	r.need(n["(reflect.Value).Send"], "C10", "the send of stream items")
	r.need(n["(msgpack.Decoder).Decode"] || n["(github.com/vmihailenco/msgpack/v5.Decoder).Decode"], "C10", "the decoding of message pack arguments")
}

// hasBounds: the function contains an obligation that is not fulfilled by its form.
func hasBounds(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.IndexAddr:
				if ownElems(x.Type()) {
					continue
				}
				if c, ok := x.Index.(*ssa.Const); ok && isArrayPtr(i) {
					n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
					if v := c.Int64(); v >= 0 && v < n {
						continue
					}
				}
				return true
			case *ssa.Index:
				return true
			case *ssa.MakeSlice:
				_, l := x.Len.(*ssa.Const)
				_, c := x.Cap.(*ssa.Const)
				if !l || !c {
					return true
				}
			case *ssa.Slice:
				if s, ok := x.Type().Underlying().(*types.Slice); ok && ownElems(types.NewPointer(s.Elem())) {
					continue
				}
				if x.Low != nil || x.High != nil {
					return true
				}
			case *ssa.TypeAssert:
				if c, ok := x.X.(*ssa.Call); ok && !x.CommaOk {
					if g := c.Common().StaticCallee(); g != nil && (g.Pkg == nil || g.Pkg.Pkg != f.Pkg.Pkg) {
						continue
					}
				}
				if !x.CommaOk {
					return true
				}
			case *ssa.Lookup:
				if m, ok := x.X.Type().Underlying().(*types.Map); !ok || nillable(m.Elem()) {
					return true
				}
			}
		}
	}
	return false
}

// callersOf: the functions of the package that call f by name; dyn if it may also be called in other ways.
func (w *World) callersOf(f *ssa.Function) (callers []*ssa.Function, dyn bool) {
	if w.callers == nil {
		w.callers = map[*ssa.Function][]*ssa.Function{}
		w.dynCalled = map[*ssa.Function]bool{}
		add := func(g, u *ssa.Function) {
			for _, x := range w.callers[g] {
				if x == u {
					return
				}
			}
			w.callers[g] = append(w.callers[g], u)
		}
		for _, u := range w.Sort {
			for _, b := range u.Blocks {
				for _, i := range b.Instrs {
					for _, op := range i.Operands(nil) {
						if v, ok := (*op).(*ssa.Function); ok {
							add(v, u)
						}
					}
					if c, ok := i.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
						for _, m := range w.implMethods(&eng.CallInfo{Instr: i}) {
							for d := 0; m != nil && d < 4; d++ {
								w.dynCalled[m] = true
								cs := callsIn(m)
								if m.Synthetic == "" || len(cs) != 1 {
									break
								}
								m = cs[0].Common().StaticCallee()
							}
						}
					}
				}
			}
		}
	}
	return w.callers[f], w.dynCalled[f] || token.IsExported(f.Name()) && f.Signature.Recv() == nil
}

type boundFail struct {
	rule, msg, expr string
}

// bounds explores root and decides the obligations of the functions in target.
func (w *World) bounds(r *Report, root *ssa.Function, target map[*ssa.Function]bool, seen map[ssa.Instruction]bool) (map[ssa.Instruction]boundFail, bool) {
	out := map[ssa.Instruction]boundFail{}
	cl := &client{}
	reach := w.reaching(func(i ssa.Instruction) bool { return target[i.Parent()] })
	fail := func(st *eng.State, rule string, i ssa.Instruction, expr, msg string) {
		if _, ok := out[i]; ok {
			return
		}
		out[i] = boundFail{rule, msg, expr}
	}
	k := func(p string, t *eng.Term) string { return fmt.Sprintf("%s:%d", p, t.ID) }
	// a value of a map is used
	use := func(st *eng.State, t *eng.Term, i ssa.Instruction) {
		if t == nil {
			return
		}
		t = eng.StripConv(t)
		if !(t.Kind == eng.KApp && strings.HasPrefix(t.Op, "lookup")) || !target[i.Parent()] {
			return
		}
		if ok := st.Get(k("lk", t)); ok != nil {
			if v, known := st.Fact(ok); known && v {
				return
			}
		} else if st.Get(k("lkx", t)) == nil {
			return
		}
		if n, known := isNilTerm(st, t); known && !n {
			return
		}
		fail(st, "missing-entry", i, "lookup", fmt.Sprintf("%s uses a value of a map although its key may be missing", eng.FnName(i.Parent())))
	}
	cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		if pureReflect[c.Name] {
			args := c.Args
			if c.Invoke {
				args = append([]*eng.Term{c.Recv}, args...)
			}
			v, ok := c.Instr.(ssa.Value)
			if ok {
				return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Results: []*eng.Term{st.E.App("pure:"+c.Name, v.Type(), args...)}}}}
			}
		}
		if c.Invoke {
			use(st, c.Recv, c.Instr)
		} else if c.Recv != nil && strings.HasPrefix(c.Name, "(reflect.Value).") {
			use(st, c.Recv, c.Instr)
		}
		if formatter(c.Fn) || isLogCall(c.Name) || c.Builtin != "" {
			return eng.Decision{}
		}
		if c.Fn != nil && w.Home(c.Fn) && !reach[c.Fn] && (len(c.Fn.Blocks) > 30 || st.Depth() > 3 || c.Go && !target[outer(c.Fn)]) {
			return opaque
		}
		return eng.Decision{}
	}
	cl.event = func(st *eng.State, ev *eng.Event) {
		mine := ev.Instr != nil && target[ev.Instr.Parent()]
		switch ev.Kind {
		case eng.EvSend:
			if ev.Addr != nil && ev.Addr.Kind == eng.KObj {
				if st.Get(k("sent", ev.Addr)) != nil {
					st.SetInt(k("multi", ev.Addr), 1)
				}
				st.Set(k("sent", ev.Addr), ev.Val)
			}
		case eng.EvRecv, eng.EvSelect:
			if ev.Kind == eng.EvSelect && (ev.SendOK || ev.Case < 0) {
				if ev.SendOK && ev.Addr != nil && ev.Addr.Kind == eng.KObj {
					st.SetInt(k("multi", ev.Addr), 1)
				}
				return
			}
			if ev.Addr != nil && ev.Addr.Kind == eng.KObj {
				if v := st.Get(k("sent", ev.Addr)); v != nil && st.GetInt(k("multi", ev.Addr)) == 0 {
					ev.Repl = v
				}
			}
		case eng.EvLookup:
			if ev.Val != nil && nillable(ev.Val.Ty) {
				if ev.Ok != nil {
					st.Set(k("lk", ev.Val), ev.Ok)
				} else {
					st.SetInt(k("lkx", ev.Val), 1)
				}
				if mine {
					seen[ev.Instr] = true
				}
			}
		case eng.EvLoad, eng.EvStore:
			a := ev.Addr
			for a != nil && (a.Kind == eng.KFieldA || a.Kind == eng.KIndexA) {
				a = a.Args[0]
			}
			use(st, a, ev.Instr)
		case eng.EvClose:
			use(st, ev.Addr, ev.Instr)
		case eng.EvAssert:
			if !mine {
				return
			}
			seen[ev.Instr] = true
			if v, ok := eng.BoolConst(ev.Ok); ok && v {
				return
			}
			x := ev.Instr.(*ssa.TypeAssert)
			// static type implements the asserted interface and the value is there
			if it, ok := x.AssertedType.Underlying().(*types.Interface); ok {
				v := eng.StripConv(ev.Addr)
				if v.Ty != nil && types.Implements(v.Ty, it) {
					if n, known := isNilTerm(st, v); known && !n {
						return
					}
				}
			}
			if !peerValue(ev.Addr) {
				return
			}
			fail(st, "type-assertion", ev.Instr, "."+"("+types.TypeString(x.AssertedType, types.RelativeTo(w.Types))+")", fmt.Sprintf("%s asserts a type of a received value that may have another type or be missing", eng.FnName(ev.Instr.Parent())))
		case eng.EvMake:
			x, ok := ev.Instr.(*ssa.MakeSlice)
			if !mine || !ok {
				return
			}
			for _, n := range ev.Vals {
				for a := range linOf(st.E, n).c {
					if !peerNumber(a) {
						continue
					}
					seen[x] = true
					if !boundedNumber(st, a) {
						fail(st, "allocation", x, "make", fmt.Sprintf("%s allocates as much as a received number says: %v", eng.FnName(x.Parent()), n))
					}
				}
			}
		case eng.EvIndex:
			if !mine {
				return
			}
			seen[ev.Instr] = true
			if x, ok := ev.Instr.(ssa.Value); ok && ownElems(x.Type()) {
				return
			}
			n := linLen(st.E, ev.Addr)
			if len(n.c) == 0 && n.k > 0 && isArrayPtr(ev.Instr) {
				// arrays of fixed size
				if c, ok := eng.IntConst(ev.Key); ok && c < n.k {
					return
				}
			}
			i := linOf(st.E, ev.Key)
			if !proves(st, n.plus(i, -1).plus(linConst(1), -1)) {
				fail(st, "index", ev.Instr, "index", fmt.Sprintf("%s may index beyond the end: nothing on the path says that %v < len(%v)", eng.FnName(ev.Instr.Parent()), ev.Key, ev.Addr))
				return
			}
			if needsLower(i) && !proves(st, i) {
				fail(st, "index", ev.Instr, "index", fmt.Sprintf("%s may index before the start: nothing on the path says that %v >= 0", eng.FnName(ev.Instr.Parent()), ev.Key))
			}
		case eng.EvSlice:
			if !mine {
				return
			}
			x := ev.Instr.(*ssa.Slice)
			if x.Low == nil && x.High == nil {
				return
			}
			if s, ok := x.Type().Underlying().(*types.Slice); ok && ownElems(types.NewPointer(s.Elem())) {
				return
			}
			seen[ev.Instr] = true
			n := linLen(st.E, ev.Addr)
			lo, hi := linConst(0), n
			if x.Low != nil {
				lo = linOf(st.E, ev.Vals[0])
			}
			if x.High != nil {
				hi = linOf(st.E, ev.Vals[1])
				if !proves(st, n.plus(hi, -1)) {
					fail(st, "slice", ev.Instr, "slice", fmt.Sprintf("%s may slice beyond the end: nothing on the path says that %v <= len(%v)", eng.FnName(ev.Instr.Parent()), ev.Vals[1], ev.Addr))
					return
				}
			}
			if (x.Low != nil || needsLower(hi)) && !proves(st, hi.plus(lo, -1)) {
				fail(st, "slice", ev.Instr, "slice", fmt.Sprintf("%s may slice with a low bound beyond the high one: nothing on the path excludes it for %v of %v", eng.FnName(ev.Instr.Parent()), ev.Vals, ev.Addr))
				return
			}
			if x.Low != nil && needsLower(lo) && !proves(st, lo) {
				fail(st, "slice", ev.Instr, "slice", fmt.Sprintf("%s may slice before the start", eng.FnName(ev.Instr.Parent())))
			}
		}
	}
	t0 := time.Now()
	e := w.engine(cl)
	e.MaxStates = 60000
	e.Run(root, nil, nil)
	if os.Getenv("SIGB") != "" {
		fmt.Fprintln(os.Stderr, eng.FnName(root), e.States, time.Since(t0))
		for i, f := range out {
			fmt.Fprintln(os.Stderr, "   -", w.Prog.Fset.Position(i.Pos()), f)
		}
	}
	if e.Exceeded {
		return out, false
	}
	r.absorb(e)
	return out, true
}

// peerNumber: the number was read from what a peer sent.
func peerNumber(t *eng.Term) bool {
	return t.Any(func(x *eng.Term) bool {
		if x.Call == nil {
			return false
		}
		n := x.Call.Name
		return strings.HasPrefix(n, "encoding/binary.") || strings.HasPrefix(n, "(encoding/binary.") || strings.HasPrefix(n, "strconv.") ||
			strings.Contains(n, "msgpack") && strings.Contains(n, "Decoder).Decode") && x.Ty != nil && isNumber(x.Ty)
	})
}

func isNumber(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

// boundedNumber: the path compared the number with a limit, or there is none.
func boundedNumber(st *eng.State, n *eng.Term) bool {
	ok := false
	st.Facts(func(t *eng.Term, v bool) {
		if t.Kind != eng.KApp || len(t.Args) != 2 {
			return
		}
		a, b := eng.StripConv(t.Args[0]), eng.StripConv(t.Args[1])
		switch {
		case t.Op == "lt" && v && a == n && !peerNumber(b), t.Op == "lt" && !v && b == n && !peerNumber(a):
			ok = true
		case t.Op == "eq" && v && (eng.IsZero(a) && isLimit(b) || eng.IsZero(b) && isLimit(a)), t.Op == "lt" && !v && eng.IsZero(a) && isLimit(b):
			ok = true // not limited, see the options
		}
	})
	return ok
}

func isLimit(t *eng.Term) bool {
	if t.Ty == nil {
		return false
	}
	b, ok := t.Ty.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0 && (t.Kind == eng.KField || t.Op == "load")
}

// needsLower: the form can be negative by its own shape (a constant is subtracted from a length or count).
func needsLower(l lin) bool {
	if l.k < 0 {
		return true
	}
	for t, c := range l.c {
		if c < 0 {
			continue // differences of counters: relational invariants of loops are out of reach
		}
		_ = t
	}
	return false
}

// ownElems: the type is a pointer to a value of this package's types, which no peer sends.
func ownElems(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	e := p.Elem()
	if q, ok := e.(*types.Pointer); ok {
		e = q.Elem()
	}
	n, ok := e.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == "signalr"
}

func isArrayPtr(i ssa.Instruction) bool {
	x, ok := i.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	p, ok := x.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Array)
	return ok
}

func nillable(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature, *types.Chan:
		return true
	}
	return types.TypeString(t, nil) == "reflect.Value"
}

// peerValue: the value was received, decoded or found.
func peerValue(t *eng.Term) bool {
	return t.Any(func(x *eng.Term) bool {
		if x.Call != nil {
			return hasSuffixAny(x.Call.Name, ").ParseMessages", ").parseMessage", ").Receive", "ecoder).DecodeInterface")
		}
		return x.Kind == eng.KApp && strings.HasPrefix(x.Op, "recv")
	})
}

// unboundedDecode: they allocate for a length the input only claims, or hash keys of any kind.
func unboundedDecode(n string) bool {
	return hasSuffixAny(n, "msgpack/v5.Decoder).DecodeMap", "msgpack/v5.Decoder).DecodeUntypedMap", "msgpack/v5.Decoder).DecodeTypedMap", "msgpack/v5.Decoder).DecodeSlice",
		"msgpack/v5.Decoder).DecodeInterface", "msgpack/v5.Decoder).DecodeInterfaceLoose", "msgpack/v5.Decoder).Decode", "msgpack/v5.Decoder).DecodeMulti", "msgpack/v5.Decoder).DecodeValue",
		"(msgpack.Decoder).DecodeMap", "(msgpack.Decoder).DecodeUntypedMap", "(msgpack.Decoder).DecodeTypedMap", "(msgpack.Decoder).DecodeSlice",
		"(msgpack.Decoder).DecodeInterface", "(msgpack.Decoder).DecodeInterfaceLoose", "(msgpack.Decoder).Decode", "(msgpack.Decoder).DecodeMulti", "(msgpack.Decoder).DecodeValue")
}

// checkDecoders: what is decoded before its structure is known.
func (w *World) checkDecoders(r *Report, scope map[*ssa.Function]bool) {
	n := 0
	for _, f := range w.Sort {
		if !scope[f] || f.Synthetic != "" || f.Parent() != nil {
			continue
		}
		hit := false
		var look func(g *ssa.Function)
		look = func(g *ssa.Function) {
			for _, c := range callsIn(g) {
				if strings.Contains(calleeName(c.Common()), "msgpack") && strings.Contains(calleeName(c.Common()), "ecode") {
					hit = true
				}
			}
		}
		look(f)
		if !hit {
			continue
		}
		f := f
		n++
		cl := &client{}
		cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
			if !unboundedDecode(c.Name) {
				return eng.Decision{}
			}
			r.inst("decode-site", 1)
			d := c.Recv
			if d == nil && len(c.Args) > 0 {
				d = c.Args[0]
			}
			verified := false
			src := st.Get(fmt.Sprintf("src:%d", d.ID))
			for _, t := range []*eng.Term{src, d} {
				if t != nil && t.Any(func(x *eng.Term) bool { return x.Ty != nil && typeName(x.Ty) == "RawMessage" }) {
					verified = true
				}
			}
			if !verified {
				st.Report("unbounded-decode", eng.FnName(c.In)+":"+c.Name, c.Pos(), "%s decodes a value by %s before its structure was verified: it allocates as much as the input claims, or panics on keys", eng.FnName(c.In), c.Name)
			}
			return opaque
		}
		cl.event = func(st *eng.State, ev *eng.Event) {}
		c2 := cl.call
		cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
			if hasSuffixAny(c.Name, "Decoder).Reset", "Decoder).ResetDict") && len(c.Args) > 1 {
				st.Set(fmt.Sprintf("src:%d", c.Args[0].ID), c.Args[1])
			}
			return c2(st, c)
		}
		e := w.engine(cl)
		e.Run(f, nil, nil)
		r.absorb(e)
	}
	r.need(n > 0, "C10", "the message pack decoders")
}

package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Run explores fn from its entry with symbolic parameters. init may preset facts,
// parameters and automaton state.
func (e *Engine) Run(fn *ssa.Function, params []*Term, init func(*State)) {
	if fn == nil || len(fn.Blocks) == 0 {
		return
	}
	e.computeStable()
	st := &State{E: e, mem: map[*Term]*Term{}, facts: map[*Term]bool{}, A: map[string]*Term{}}
	e.RunFrom(st, fn, params, nil, init)
}

// RunFrom is Run with given free variable bindings.
func (e *Engine) RunFrom(st *State, fn *ssa.Function, params, bind []*Term, init func(*State)) {
	e.computeStable()
	var ps []*Term
	for i, p := range fn.Params {
		if i < len(params) && params[i] != nil {
			ps = append(ps, params[i])
		} else {
			ps = append(ps, e.Param(fmt.Sprintf("%s", p.Name()), p.Type()))
		}
	}
	var fv []*Term
	for i, v := range fn.FreeVars {
		if i < len(bind) && bind[i] != nil {
			fv = append(fv, bind[i])
		} else {
			fv = append(fv, e.Param("&"+v.Name(), v.Type()))
		}
	}
	e.visited = map[string]struct{}{}
	st.frames = nil
	st.push(fn, ps, fv, Root, nil, e.childCtx(0, nil, fn))
	if init != nil {
		init(st)
	}
	work := []*State{st}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		work = append(work, e.runPath(s)...)
		if e.States > e.MaxStates {
			e.Exceeded = true
			return
		}
		// what is found is found: broken code may have far more states than correct code
		if len(e.Violations) > 0 {
			if e.found.IsZero() {
				e.found = time.Now()
			} else if time.Since(e.found) > 150*time.Second {
				return
			}
		}
	}
}

func (st *State) push(fn *ssa.Function, params, bind []*Term, kind FrameKind, site ssa.Instruction, ctx int) {
	e := st.E
	e.FnsSeen[fn] = true
	in := e.info(fn)
	f := &Frame{Fn: fn, info: in, Ctx: ctx, Kind: kind, Site: site, block: fn.Blocks[0]}
	f.env = make([]*Term, len(in.vals))
	for i := range fn.Params {
		f.env[i] = params[i]
	}
	for i := range fn.FreeVars {
		f.env[len(fn.Params)+i] = bind[i]
	}
	st.frames = append(st.frames, f)
}

func (e *Engine) childCtx(parent int, instr ssa.Instruction, fn *ssa.Function) int {
	k := fmt.Sprintf("%d/%p/%p", parent, instr, fn)
	if c, ok := e.ctxs[k]; ok {
		return c
	}
	c := len(e.ctxs) + 1
	e.ctxs[k] = c
	return c
}

// val evaluates an operand.
func (st *State) val(f *Frame, v ssa.Value) *Term {
	e := st.E
	switch x := v.(type) {
	case *ssa.Const:
		return e.Const(x)
	case *ssa.Function:
		return e.mkFunc(x)
	case *ssa.Global:
		return e.mkGlobal(x)
	case *ssa.Builtin:
		return e.App("builtin:"+x.Name(), x.Type())
	}
	k, ok := f.info.num[v]
	if !ok {
		return e.App("unknown:"+v.Name(), v.Type())
	}
	if f.env[k] == nil {
		// dead by liveness or undefined; give a stable opaque
		return e.App("undef:"+v.Name(), v.Type())
	}
	return f.env[k]
}

// Val evaluates an SSA operand in the executing frame.
func (st *State) Val(v ssa.Value) *Term { return st.val(st.frames[len(st.frames)-1], v) }

func (st *State) set(f *Frame, v ssa.Value, t *Term) {
	if t.depth > 14 {
		t = st.fresh(f, v.(ssa.Instruction), "deep", v.Type(), KApp)
	}
	f.env[f.info.num[v]] = t
}

func (st *State) event(ev *Event) {
	ev.Fn = st.Fn()
	st.E.Client.OnEvent(st, ev)
}

// runPath runs st until it ends, forks or is pruned; returns successor states.
func (e *Engine) runPath(st *State) []*State {
	for {
		if st.dead || len(st.frames) == 0 {
			return nil
		}
		f := st.top()
		st.steps++
		if st.steps > 200000 {
			e.Exceeded = true
			return nil
		}
		if f.Unwinding {
			if out, cont := st.unwind(f); !cont {
				return out
			}
			continue
		}
		ins := f.block.Instrs[f.pc]
		out, done := e.step(st, f, ins)
		if done {
			return out
		}
	}
}

// enterBlock moves to block b; false when the configuration was already visited.
func (st *State) enterBlock(f *Frame, b *ssa.BasicBlock) bool {
	e := st.E
	prev := f.block
	pi := 0
	for i, p := range b.Preds {
		if p == prev {
			pi = i
			break
		}
	}
	back := f.info.header[b.Index] && b.Dominates(prev)
	// evaluate phis simultaneously
	var phis []*ssa.Phi
	var vals, olds []*Term
	pc := 0
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		v := st.val(f, phi.Edges[pi])
		phis = append(phis, phi)
		vals = append(vals, v)
		olds = append(olds, f.env[f.info.num[phi]])
		pc++
	}
	// drop dead values
	li := f.info.livein[b.Index]
	for i := range f.env {
		if f.env[i] != nil && !li[i] {
			f.env[i] = nil
		}
	}
	for i, phi := range phis {
		v := vals[i]
		if back && widen(phi.Type()) && v.Kind != KConst {
			v = st.fresh(f, phi, "phi", phi.Type(), KApp)
			if lo, ok := st.phiLo(phi); ok {
				st.Assume(e.Lt(v, e.Int(lo)), false)
			}
		} else if back && widen(phi.Type()) && v.Kind == KConst {
			if _, isInt := isIntConst(v); isInt && !st.constPhi(phi) {
				v = st.fresh(f, phi, "phi", phi.Type(), KApp)
				if lo, ok := st.phiLo(phi); ok {
					st.Assume(e.Lt(v, e.Int(lo)), false)
				}
			}
		}
		if back && v.Kind == KApp && v.Op == "append" && len(v.Args) > 0 {
			if b := v.Args[0]; b.Kind == KApp && (b.Op == "append" || b.Op == "phi") {
				v = st.fresh(f, phi, "phi", phi.Type(), KApp)
			}
		} else if old := olds[i]; back && old != nil && v != old && v.Kind == KApp && old.Kind == KApp && v.Call != nil && (old.Op == v.Op || old.Op == "phi") && v.Contains(old) {
			v = st.fresh(f, phi, "phi", phi.Type(), KApp) // a value made from its predecessor by a call
		}
		f.env[f.info.num[phi]] = v
	}
	if back {
		// a slice in memory that grows in the loop
		for k, v := range st.mem {
			if v.Kind == KApp && v.Op == "append" && len(v.Args) > 0 {
				if bs := v.Args[0]; bs.Kind == KApp && (bs.Op == "append" || bs.Op == "phi") {
					st.mem[k] = e.Nil()
					st.mem[k] = st.freshAt(f, b, k, v.Ty)
				}
			}
		}
	}
	f.prev = prev
	f.block = b
	f.pc = pc
	if f.info.header[b.Index] {
		if len(st.facts) > 0 || len(st.mem) > 0 {
			st.gc()
		}
		ev := &Event{Kind: EvHeader, Block: b, Truth: back}
		st.event(ev)
		if st.dead {
			return false
		}
	}
	if len(b.Preds) > 1 {
		k := st.key()
		if _, ok := e.visited[k]; ok {
			return false
		}
		e.visited[k] = struct{}{}
		e.States++
		if e.Debug {
			if e.Hist == nil {
				e.Hist = map[string]int{}
			}
			h := fmt.Sprintf("%s.%d d%d", FnName(f.Fn), b.Index, len(st.frames))
			e.Hist[h]++
			if n := e.Hist[h]; e.DumpAt == h && n%997 == 0 || n%5000 == 0 {
				fmt.Fprintln(os.Stderr, "==== "+h, n)
				fmt.Fprintln(os.Stderr, st.Dump())
			}
		}
	}
	return true
}

func widen(ty types.Type) bool {
	b, ok := ty.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsNumeric|types.IsString) != 0
}

// constPhi: all edges are constants or the phi itself (a mode variable rather than a counter).
func (st *State) constPhi(phi *ssa.Phi) bool {
	seen := map[*ssa.Phi]bool{}
	var rec func(p *ssa.Phi) bool
	rec = func(p *ssa.Phi) bool {
		if seen[p] {
			return true
		}
		seen[p] = true
		for _, ed := range p.Edges {
			switch x := ed.(type) {
			case *ssa.Const:
			case *ssa.Phi:
				if !rec(x) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	return rec(phi)
}

// phiLo: lower bound of an up-counter (entry constant, only positive increments).
func (st *State) phiLo(phi *ssa.Phi) (int64, bool) {
	lo := int64(1<<62 - 1)
	var rec func(v ssa.Value, d int, seen map[ssa.Value]bool) bool
	rec = func(v ssa.Value, d int, seen map[ssa.Value]bool) bool {
		if d > 10 {
			return false
		}
		if seen[v] {
			return true
		}
		switch x := v.(type) {
		case *ssa.Const:
			n, ok := isIntConst(st.E.Const(x))
			if !ok {
				return false
			}
			if n < lo {
				lo = n
			}
			return true
		case *ssa.Phi:
			seen[v] = true
			for _, ed := range x.Edges {
				if !rec(ed, d+1, seen) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			if x.Op != token.ADD {
				return false
			}
			if c, ok := x.Y.(*ssa.Const); ok {
				n, ok := isIntConst(st.E.Const(c))
				return ok && n >= 0 && rec(x.X, d+1, seen)
			}
			return false
		}
		return false
	}
	if b, ok := phi.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return 0, false
	}
	if !rec(phi, 0, map[ssa.Value]bool{}) {
		return 0, false
	}
	return lo, lo != 1<<62-1
}

// step executes one instruction. done means the path ended or forked into out.
func (e *Engine) step(st *State, f *Frame, ins ssa.Instruction) (out []*State, done bool) {
	next := func() { f.pc++ }
	switch x := ins.(type) {
	case *ssa.DebugRef:
		next()
	case *ssa.Phi:
		next()
	case *ssa.Alloc:
		t := st.fresh(f, x, x.Comment, x.Type(), KObj)
		for k := range st.mem {
			if within(k, t) {
				delete(st.mem, k)
			}
		}
		st.set(f, x, t)
		next()
	case *ssa.BinOp:
		st.set(f, x, e.binop(x.Op, st.val(f, x.X), st.val(f, x.Y), x.Type()))
		next()
	case *ssa.UnOp:
		v := st.val(f, x.X)
		switch x.Op {
		case token.MUL:
			r := st.load(v, x.Type(), f, x)
			st.set(f, x, r)
			st.event(&Event{Kind: EvLoad, Instr: x, Addr: v, Val: r})
			if st.dead {
				return nil, true
			}
		case token.ARROW:
			if x.CommaOk {
				el := v.Ty
				var ety types.Type = types.Typ[types.Invalid]
				if el != nil {
					if c, ok := el.Underlying().(*types.Chan); ok {
						ety = c.Elem()
					}
				}
				r := st.fresh(f, x, "recv", ety, KApp, v)
				ok := st.fresh(f, x, "recvok", types.Typ[types.Bool], KApp, v)
				st.set(f, x, e.mkTuple([]*Term{r, ok}))
				ev := &Event{Kind: EvRecv, Instr: x, Addr: v, Val: r, Ok: ok, Commaok: true}
				st.event(ev)
				if ev.Repl != nil && !st.dead {
					st.set(f, x, e.mkTuple([]*Term{ev.Repl, e.Bool(true)}))
				}
			} else {
				r := st.fresh(f, x, "recv", x.Type(), KApp, v)
				st.set(f, x, r)
				ev := &Event{Kind: EvRecv, Instr: x, Addr: v, Val: r}
				st.event(ev)
				if ev.Repl != nil && !st.dead {
					st.set(f, x, ev.Repl)
				}
			}
			if st.dead {
				return nil, true
			}
		case token.NOT:
			st.set(f, x, e.Not(v))
		default:
			if v.Kind == KConst && x.Op == token.SUB {
				st.set(f, x, e.binop(token.SUB, e.Int(0), v, x.Type()))
			} else {
				st.set(f, x, e.App("un"+x.Op.String(), x.Type(), v))
			}
		}
		next()
	case *ssa.ChangeInterface:
		st.set(f, x, st.val(f, x.X))
		next()
	case *ssa.ChangeType:
		st.set(f, x, st.val(f, x.X))
		next()
	case *ssa.Convert:
		st.set(f, x, st.convert(st.val(f, x.X), x.X.Type(), x.Type()))
		next()
	case *ssa.MultiConvert:
		st.set(f, x, e.App("conv", x.Type(), st.val(f, x.X)))
		next()
	case *ssa.SliceToArrayPointer:
		st.set(f, x, e.App("s2a", x.Type(), st.val(f, x.X)))
		next()
	case *ssa.MakeInterface:
		st.set(f, x, e.mkIface(st.val(f, x.X), x.X.Type()))
		next()
	case *ssa.MakeClosure:
		var b []*Term
		for _, v := range x.Bindings {
			b = append(b, st.val(f, v))
		}
		st.set(f, x, e.mkClosure(x.Fn.(*ssa.Function), b))
		next()
	case *ssa.MakeMap:
		t := st.fresh(f, x, "map", x.Type(), KObj)
		st.set(f, x, t)
		st.event(&Event{Kind: EvMake, Instr: x, Addr: t})
		next()
	case *ssa.MakeChan:
		t := st.fresh(f, x, "chan", x.Type(), KObj, st.val(f, x.Size))
		st.set(f, x, t)
		st.event(&Event{Kind: EvMake, Instr: x, Addr: t, Val: st.val(f, x.Size)})
		next()
	case *ssa.MakeSlice:
		ln := st.val(f, x.Len)
		t := st.fresh(f, x, "mkslice", x.Type(), KObj, ln)
		st.set(f, x, t)
		st.event(&Event{Kind: EvMake, Instr: x, Addr: t, Val: ln, Vals: []*Term{ln, st.val(f, x.Cap)}})
		next()
	case *ssa.Slice:
		base := st.val(f, x.X)
		var lo, hi *Term = e.App("none", nil), e.App("none", nil)
		if x.Low != nil {
			lo = st.val(f, x.Low)
		}
		if x.High != nil {
			hi = st.val(f, x.High)
		}
		st.event(&Event{Kind: EvSlice, Instr: x, Addr: base, Vals: []*Term{lo, hi}})
		st.set(f, x, e.App("slice", x.Type(), base, lo, hi))
		next()
	case *ssa.FieldAddr:
		st.set(f, x, e.mkFieldA(st.val(f, x.X), x.Field, x.Type()))
		next()
	case *ssa.Field:
		st.set(f, x, e.mkField(st.val(f, x.X), x.Field, x.Type()))
		next()
	case *ssa.IndexAddr:
		b, i := st.val(f, x.X), st.val(f, x.Index)
		st.event(&Event{Kind: EvIndex, Instr: x, Addr: b, Key: i})
		if st.dead {
			return nil, true
		}
		if b.Kind == KApp && b.Op == "slice" && len(b.Args) == 3 && b.Args[0].Kind == KObj && b.Args[0].Op == "slicelit" && b.Args[1].Op == "none" {
			b = b.Args[0] // an element of a slice literal
		}
		st.set(f, x, e.mkIndexA(b, i, x.Type()))
		next()
	case *ssa.Index:
		b, i := st.val(f, x.X), st.val(f, x.Index)
		st.event(&Event{Kind: EvIndex, Instr: x, Addr: b, Key: i})
		if st.dead {
			return nil, true
		}
		st.set(f, x, e.App("elem", x.Type(), b, i))
		next()
	case *ssa.Lookup:
		m, k := st.val(f, x.X), st.val(f, x.Index)
		if _, isMap := x.X.Type().Underlying().(*types.Map); !isMap {
			st.event(&Event{Kind: EvIndex, Instr: x, Addr: m, Key: k})
			st.set(f, x, e.App("elem", x.Type(), m, k))
			next()
			break
		}
		var vt types.Type = x.Type()
		if x.CommaOk {
			vt = x.Type().(*types.Tuple).At(0).Type()
		}
		r := st.fresh(f, x, "lookup", vt, KApp, m, k)
		ev := &Event{Kind: EvLookup, Instr: x, Addr: m, Key: k, Val: r, Commaok: x.CommaOk}
		if x.CommaOk {
			ok := st.fresh(f, x, "lookupok", types.Typ[types.Bool], KApp, m, k)
			ev.Ok = ok
			st.set(f, x, e.mkTuple([]*Term{r, ok}))
		} else {
			st.set(f, x, r)
		}
		st.event(ev)
		if st.dead {
			return nil, true
		}
		next()
	case *ssa.MapUpdate:
		st.event(&Event{Kind: EvMapUpdate, Instr: x, Addr: st.val(f, x.Map), Key: st.val(f, x.Key), Val: st.val(f, x.Value)})
		if st.dead {
			return nil, true
		}
		next()
	case *ssa.Range:
		b := st.val(f, x.X)
		st.set(f, x, st.fresh(f, x, "range", nil, KApp, b))
		st.event(&Event{Kind: EvRange, Instr: x, Addr: b})
		next()
	case *ssa.Next:
		it := st.val(f, x.Iter)
		ok := st.fresh(f, x, "nextok", types.Typ[types.Bool], KApp, it)
		tt := x.Type().(*types.Tuple)
		k := st.fresh(f, x, "nextkey", tt.At(1).Type(), KApp, it)
		v := st.fresh(f, x, "nextval", tt.At(2).Type(), KApp, it)
		st.set(f, x, e.mkTuple([]*Term{ok, k, v}))
		st.event(&Event{Kind: EvNext, Instr: x, Addr: it, Key: k, Val: v, Ok: ok})
		next()
	case *ssa.Extract:
		t := st.val(f, x.Tuple)
		if t.Kind == KTuple {
			st.set(f, x, t.Args[x.Index])
		} else {
			st.set(f, x, e.App(fmt.Sprintf("extract%d", x.Index), x.Type(), t))
		}
		next()
	case *ssa.Store:
		a, v := st.val(f, x.Addr), st.late(f, x.Val, x)
		st.event(&Event{Kind: EvStore, Instr: x, Addr: a, Val: v})
		if st.dead {
			return nil, true
		}
		st.store(a, v)
		next()
	case *ssa.Send:
		st.event(&Event{Kind: EvSend, Instr: x, Addr: st.val(f, x.Chan), Val: st.val(f, x.X)})
		if st.dead {
			return nil, true
		}
		next()
	case *ssa.TypeAssert:
		return st.typeAssert(f, x)
	case *ssa.Select:
		return st.selectStmt(f, x)
	case *ssa.Jump:
		if !st.enterBlock(f, f.block.Succs[0]) {
			return nil, true
		}
	case *ssa.If:
		c := st.val(f, x.Cond)
		b := f.block
		v, known := st.eval(c)
		if known {
			i := 1
			if v {
				i = 0
			}
			st.event(&Event{Kind: EvBranch, Instr: x, Cond: c, Truth: v, Block: b})
			if st.dead || !st.enterBlock(f, b.Succs[i]) {
				return nil, true
			}
			return nil, false
		}
		e.Branches++
		s2 := st.fork()
		var res []*State
		for i, s := range []*State{st, s2} {
			tr := i == 0
			if !s.Assume(c, tr) {
				continue
			}
			fr := s.top()
			s.trace = &traceNode{s.trace, fmt.Sprintf("%s: %v is %v", e.Pos(condPos(x)), c, tr)}
			s.event(&Event{Kind: EvBranch, Instr: x, Cond: c, Truth: tr, Block: b})
			if s.dead {
				continue
			}
			if s.enterBlock(fr, b.Succs[i]) {
				res = append(res, s)
			}
		}
		return res, true
	case *ssa.Return:
		var rs []*Term
		for _, r := range x.Results {
			rs = append(rs, st.late(f, r, x))
		}
		return nil, st.doReturn(f, x, rs)
	case *ssa.RunDefers:
		if len(f.defers) == 0 {
			next()
			return nil, false
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		return st.call(f, d, DeferF)
	case *ssa.Panic:
		st.Note("%s: panic(%v)", e.Pos(x.Pos()), st.val(f, x.X))
		f.Unwinding = true
	case *ssa.Go:
		c := st.callInfo(f, x, &x.Call)
		c.Go = true
		f.pc++
		return st.call(f, c, GoF)
	case *ssa.Defer:
		c := st.callInfo(f, x, &x.Call)
		c.Deferred = true
		f.defers = append(f.defers, c)
		ev := &Event{Kind: EvDefer, Instr: x, Callee: c.Fn}
		st.event(ev)
		next()
	case *ssa.Call:
		c := st.callInfo(f, x, &x.Call)
		f.pc++
		return st.call(f, c, CallF)
	default:
		if v, ok := ins.(ssa.Value); ok {
			st.set(f, v, st.fresh(f, ins, fmt.Sprintf("%T", ins), v.Type(), KApp))
		}
		next()
	}
	if st.dead {
		return nil, true
	}
	return nil, false
}

func condPos(x *ssa.If) token.Pos {
	if p := x.Cond.Pos(); p.IsValid() {
		return p
	}
	for i := len(x.Block().Instrs) - 1; i >= 0; i-- {
		if p := x.Block().Instrs[i].Pos(); p.IsValid() {
			return p
		}
	}
	return token.NoPos
}

func (st *State) convert(v *Term, from, to types.Type) *Term {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		if v.Kind != KConst && intBits(tb) < intBits(fb) {
			return st.E.App("narrow:"+types.TypeString(to, nil), to, v)
		}
		return v // changes of sign are ignored (documented assumption)
	}
	return st.E.App("conv:"+types.TypeString(to, nil), to, v)
}

// intBits is the size of an integer type on a 64 bit machine.
func intBits(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

// StripConv removes conversions.
func StripConv(t *Term) *Term {
	for t.Kind == KApp && strings.HasPrefix(t.Op, "conv") && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return t
}

// StripIface removes interface wrapping.
func StripIface(t *Term) *Term {
	for t != nil && t.Kind == KIface {
		t = t.Args[0]
	}
	return t
}

func (st *State) typeAssert(f *Frame, x *ssa.TypeAssert) ([]*State, bool) {
	e := st.E
	v := st.val(f, x.X)
	val := func() *Term {
		if v.Kind == KIface {
			if types.IsInterface(x.AssertedType) {
				return v
			}
			return v.Args[0]
		}
		if types.IsInterface(x.AssertedType) {
			return v
		}
		return e.App("assert:"+types.TypeString(x.AssertedType, nil), x.AssertedType, v)
	}
	var known, truth bool
	if v.Kind == KIface {
		if it, ok := x.AssertedType.Underlying().(*types.Interface); ok {
			known, truth = true, types.Implements(v.Ty, it)
		} else {
			known, truth = true, types.Identical(v.Ty, x.AssertedType)
		}
	}
	if isNilConst(v) {
		known, truth = true, false
	}
	cond := e.App("typeis:"+types.TypeString(x.AssertedType, nil), x.AssertedType, v)
	if !known {
		truth, known = st.eval(cond)
	}
	if !x.CommaOk {
		st.event(&Event{Kind: EvAssert, Instr: x, Addr: v, Ty: x.AssertedType, Cond: cond, Ok: e.Bool(known && truth)})
		if st.dead {
			return nil, true
		}
		st.set(f, x, val())
		f.pc++
		return nil, false
	}
	apply := func(s *State, fr *Frame, ok bool) {
		r := e.Zero(x.AssertedType)
		if ok {
			r = val()
		}
		s.set(fr, x, e.mkTuple([]*Term{r, e.Bool(ok)}))
		fr.pc++
		s.event(&Event{Kind: EvTypeCase, Instr: x, Addr: v, Val: r, Truth: ok, Ty: x.AssertedType, Cond: cond})
	}
	if known {
		apply(st, f, truth)
		return nil, st.dead
	}
	e.Branches++
	s2 := st.fork()
	st.Assume(cond, true)
	s2.Assume(cond, false)
	st.Note("%s: %v is a %s", e.Pos(x.Pos()), v, x.AssertedType)
	apply(st, st.top(), true)
	apply(s2, s2.top(), false)
	return []*State{st, s2}, true
}

func (st *State) selectStmt(f *Frame, x *ssa.Select) ([]*State, bool) {
	e := st.E
	n := len(x.States)
	var res []*State
	lo := 0
	if !x.Blocking {
		lo = -1
	}
	var cases []int
	for i := lo; i < n; i++ {
		cases = append(cases, i)
	}
	var infos []*Term
	for _, s := range x.States {
		infos = append(infos, st.val(f, s.Chan))
	}
	for j, i := range cases {
		s := st
		if j < len(cases)-1 {
			s = st.fork()
		}
		fr := s.top()
		args := []*Term{e.Int(int64(i))}
		var ok *Term = e.Bool(false)
		ev := &Event{Kind: EvSelect, Instr: x, Sel: x, Case: i, Vals: infos}
		var rv *Term
		if i >= 0 {
			cs := x.States[i]
			ev.Addr = infos[i]
			if cs.Dir == types.RecvOnly {
				ety := types.Type(nil)
				if c, k := cs.Chan.Type().Underlying().(*types.Chan); k {
					ety = c.Elem()
				}
				rv = s.fresh(fr, x, fmt.Sprintf("recv%d", i), ety, KApp, infos[i])
				ok = s.fresh(fr, x, fmt.Sprintf("recvok%d", i), types.Typ[types.Bool], KApp, infos[i])
				ev.Val = rv
				ev.Ok = ok
			} else {
				ev.SendOK = true
				ev.Val = s.val(fr, cs.Send)
			}
		}
		args = append(args, ok)
		for k, cs := range x.States {
			if cs.Dir != types.RecvOnly {
				continue
			}
			if k == i {
				args = append(args, rv)
			} else {
				args = append(args, e.Nil())
			}
		}
		fr.env[fr.info.num[x]] = e.mkTuple(args)
		fr.pc++
		if i >= 0 {
			s.Note("%s: select case %v", e.Pos(x.States[i].Pos), infos[i])
		} else {
			s.Note("%s: select default", e.Pos(x.Pos()))
		}
		s.event(ev)
		if ev.Repl != nil && rv != nil && !s.dead {
			for k := range args {
				if args[k] == rv {
					args[k] = ev.Repl
				} else if args[k] == ok {
					args[k] = e.Bool(true)
				}
			}
			fr.env[fr.info.num[x]] = e.mkTuple(args)
		}
		if !s.dead {
			res = append(res, s)
		}
	}
	return res, true
}

// callInfo resolves a call at the current point.
func (st *State) callInfo(f *Frame, ins ssa.Instruction, cc *ssa.CallCommon) *CallInfo {
	e := st.E
	c := &CallInfo{Instr: ins, Common: cc, Sig: cc.Signature(), In: f.Fn}
	for _, a := range cc.Args {
		c.Args = append(c.Args, st.val(f, a))
	}
	if cc.IsInvoke() {
		c.Invoke = true
		c.Recv = st.val(f, cc.Value)
		c.Name = CanonName(cc.Method)
		if c.Recv.Kind == KIface {
			if m := e.Prog.LookupMethod(c.Recv.Ty, cc.Method.Pkg(), cc.Method.Name()); m != nil {
				c.Fn = m
				c.Args = append([]*Term{c.Recv.Args[0]}, c.Args...)
				if m.Object() != nil {
					// keep the interface name for matching; Fn carries the implementation
				}
			}
		}
		return c
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		c.Builtin = v.Name()
		c.Name = "builtin." + v.Name()
		return c
	case *ssa.Function:
		c.Fn = v
		c.FnTerm = e.mkFunc(v)
	default:
		t := st.val(f, cc.Value)
		c.FnTerm = t
		switch t.Kind {
		case KFunc:
			c.Fn = t.Fn
		case KClosure:
			c.Fn = t.Fn
			c.Bind = t.Args
		}
	}
	if c.Fn != nil {
		c.Name = SSAName(c.Fn)
		if c.Fn.Signature.Recv() != nil && len(c.Args) > 0 {
			c.Recv = c.Args[0]
		} else if strings.HasSuffix(c.Fn.Name(), "$bound") && len(c.Bind) == 1 {
			c.Recv = c.Bind[0]
		}
	} else {
		c.Name = "dynamic"
	}
	return c
}

// CanonName names a function object: "(pkg.Type).Method" or "pkg.Func", home package elided.
func CanonName(o *types.Func) string {
	s := o.FullName()
	return canon(s)
}

func canon(s string) string {
	s = strings.ReplaceAll(s, "*", "")
	s = strings.ReplaceAll(s, "github.com/philippseith/signalr/ext.", "ext.")
	s = strings.ReplaceAll(s, "github.com/philippseith/signalr.", "")
	return s
}

// SSAName is CanonName for an SSA function (bound and thunk wrappers name their target).
func SSAName(f *ssa.Function) string {
	if o, ok := f.Object().(*types.Func); ok {
		return CanonName(o)
	}
	return canon(f.String())
}

func (st *State) onStack(fn *ssa.Function) int {
	n := 0
	for _, f := range st.frames {
		if f.Fn == fn {
			n++
		}
	}
	return n
}

// userArgs are the arguments without receiver.
func (c *CallInfo) UserArgs() []*Term {
	if c.Fn != nil && c.Fn.Signature.Recv() != nil && len(c.Args) > 0 {
		return c.Args[1:]
	}
	return c.Args
}

// Arg returns user argument i or nil.
func (c *CallInfo) Arg(i int) *Term {
	a := c.UserArgs()
	if i < len(a) {
		return a[i]
	}
	return nil
}

// call performs c from frame f; kind says call, defer or go. f.pc already points past the call
// for CallF and GoF; for DeferF it points at the RunDefers (or the frame is unwinding).
func (st *State) call(f *Frame, c *CallInfo, kind FrameKind) ([]*State, bool) {
	e := st.E
	if kind != GoF {
		e.CallsSeen[c.Instr] = true
	}
	if c.Builtin != "" {
		return nil, st.builtin(f, c, kind)
	}
	d := e.Client.OnCall(st, c)
	if st.dead {
		return nil, true
	}
	f = st.top()
	impls := d.Impls
	if d.Mode == Default && len(impls) == 0 && c.Fn != nil && len(c.Fn.Blocks) > 0 && e.homeOrWrapper(c.Fn) &&
		st.onStack(c.Fn) < 1 && len(st.frames) < e.MaxDepth {
		impls = []*ssa.Function{c.Fn}
	}
	if d.Mode == Inline && len(impls) == 0 && c.Fn != nil && len(c.Fn.Blocks) > 0 && st.onStack(c.Fn) < 2 && len(st.frames) < e.MaxDepth+8 {
		impls = []*ssa.Function{c.Fn}
	}
	switch {
	case d.Mode == Stop:
		return nil, true
	case len(impls) > 0 && d.Mode != Opaque && d.Mode != Outcomes:
		var res []*State
		for i, fn := range impls {
			s := st
			if i < len(impls)-1 {
				s = st.fork()
			}
			fr := s.top()
			args := c.Args
			bind := c.Bind
			if c.Invoke && c.Fn == nil {
				args = append([]*Term{s.coerceRecv(c.Recv, fn)}, c.Args...)
			}
			ctx := e.childCtx(fr.Ctx, c.Instr, fn)
			ps := make([]*Term, len(fn.Params))
			for j := range fn.Params {
				if j < len(args) {
					ps[j] = args[j]
				} else {
					ps[j] = e.App("undef", fn.Params[j].Type())
				}
			}
			for len(bind) < len(fn.FreeVars) {
				bind = append(bind, e.App("undef", fn.FreeVars[len(bind)].Type()))
			}
			s.push(fn, ps, bind, kind, c.Instr, ctx)
			if kind == GoF {
				s.event(&Event{Kind: EvGoStart, Instr: c.Instr, Callee: fn})
			}
			s.event(&Event{Kind: EvEnter, Instr: c.Instr, Callee: fn, Kind2: kind, Vals: ps})
			if !s.dead {
				res = append(res, s)
			}
		}
		return res, true
	case d.Mode == Outcomes:
		var res []*State
		for i, o := range d.Outcomes {
			s := st
			if i < len(d.Outcomes)-1 {
				s = st.fork()
			}
			fr := s.top()
			rs := s.results(fr, c, o.Results)
			if o.Do != nil {
				o.Do(s, rs)
			}
			if s.dead {
				continue
			}
			if o.Panic {
				s.Note("%s: %s panics", e.Pos(c.Pos()), c.Name)
				if kind == GoF {
					s.event(&Event{Kind: EvCrash, Instr: c.Instr})
					continue
				}
				s.top().Unwinding = true
			} else {
				if o.KeepArgs {
					if kind == CallF {
						s.setCallResult(fr, c.Instr, rs)
					}
				} else {
					s.finishOpaque(fr, c, kind, rs)
				}
				if o.After != nil {
					o.After(s)
				}
				if cb := o.Callback; cb != nil && cb.Fn != nil && len(cb.Fn.Blocks) > 0 {
					ps := make([]*Term, len(cb.Fn.Params))
					copy(ps, o.CbArgs)
					s.push(cb.Fn, ps, cb.Args, CbF, c.Instr, e.childCtx(s.top().Ctx, c.Instr, cb.Fn))
					s.event(&Event{Kind: EvEnter, Instr: c.Instr, Callee: cb.Fn, Kind2: CbF, Vals: ps})
				}
			}
			res = append(res, s)
		}
		return res, true
	}
	// opaque
	if kind == GoF {
		return nil, false
	}
	rs := st.results(f, c, nil)
	st.finishOpaque(f, c, kind, rs)
	return nil, false
}

func (e *Engine) homeOrWrapper(f *ssa.Function) bool {
	if e.Home(f) {
		return true
	}
	if f.Synthetic != "" && f.Package() == nil {
		return true // thunks and bound-method wrappers
	}
	return false
}

// coerceRecv adapts an interface receiver term to a concrete implementation's receiver.
func (st *State) coerceRecv(recv *Term, fn *ssa.Function) *Term {
	if recv.Kind == KIface {
		return recv.Args[0]
	}
	return st.E.App("assert:"+types.TypeString(fn.Params[0].Type(), nil), fn.Params[0].Type(), recv)
}

// pureCalls do not modify memory reachable from their arguments.
var pureCalls = map[string]bool{
	"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Errorf": true, "errors.New": true, "errors.Is": true,
	"(StructuredLogger).Log": true, "(github.com/go-kit/log.Logger).Log": true,
	"strings.ToLower": true, "reflect.ValueOf": true, "reflect.TypeOf": true, "context.WithTimeout": true,
	"context.WithCancel": true, "time.Now": true, "time.After": true,
	"github.com/go-kit/log.WithPrefix": true, "github.com/go-kit/log.With": true,
	"encoding/json.Marshal": true, "builtin.append": true,
}

func (st *State) results(f *Frame, c *CallInfo, given []*Term) []*Term {
	e := st.E
	res := c.Sig.Results()
	var args []*Term
	if c.Recv != nil {
		args = append(args, c.Recv)
		args = append(args, c.UserArgs()...)
		if c.Invoke && c.Fn == nil {
			args = append([]*Term{c.Recv}, c.Args...)
		}
	} else {
		args = c.Args
	}
	var rs []*Term
	for i := 0; i < res.Len(); i++ {
		if i < len(given) && given[i] != nil {
			rs = append(rs, given[i])
			continue
		}
		op := "call:" + c.Name
		if res.Len() > 1 {
			op = fmt.Sprintf("call:%s#%d", c.Name, i)
		}
		t := st.fresh(f, c.Instr, op, res.At(i).Type(), KApp, args...)
		if t.Call == nil {
			cc := *c
			t.Call = &cc
		}
		rs = append(rs, t)
	}
	_ = e
	return rs
}

func (st *State) finishOpaque(f *Frame, c *CallInfo, kind FrameKind, rs []*Term) {
	e := st.E
	if !pureCalls[c.Name] {
		seen := map[*Term]bool{}
		for _, a := range c.Args {
			st.havoc(a, f, c.Instr, seen)
		}
		if c.Recv != nil && c.Invoke {
			st.havoc(c.Recv, f, c.Instr, seen)
		}
	}
	if kind == CallF {
		st.setCallResult(f, c.Instr, rs)
	}
	_ = e
}

func (st *State) setCallResult(f *Frame, ins ssa.Instruction, rs []*Term) {
	v, ok := ins.(ssa.Value)
	if !ok {
		return
	}
	switch len(rs) {
	case 0:
	case 1:
		st.set(f, v, rs[0])
	default:
		f.env[f.info.num[v]] = st.E.mkTuple(rs)
	}
}

func (st *State) builtin(f *Frame, c *CallInfo, kind FrameKind) bool {
	e := st.E
	var r *Term
	var rt types.Type
	if v, ok := c.Instr.(ssa.Value); ok {
		rt = v.Type()
	}
	switch c.Builtin {
	case "len", "cap":
		a := c.Args[0]
		if s, ok := StrConst(a); ok {
			r = e.Int(int64(len(s)))
		} else if isNilConst(a) {
			r = e.Int(0)
		} else if els := st.SliceElems(a); els != nil {
			r = e.Int(int64(len(els)))
		} else if n, ok := constLen(a); ok && c.Builtin == "len" {
			r = e.Int(n)
		} else if a.Kind == KObj && a.Op == "mkslice" && c.Builtin == "len" {
			r = a.Args[0]
		} else {
			r = e.App(c.Builtin, types.Typ[types.Int], a)
		}
	case "append":
		r = e.App("append", rt, c.Args...)
		st.event(&Event{Kind: EvAppend, Instr: c.Instr, Addr: c.Args[0], Val: c.Args[1], Ty: rt})
	case "copy":
		r = st.fresh(f, c.Instr, "copy", types.Typ[types.Int], KApp, c.Args...)
		st.event(&Event{Kind: EvCopy, Instr: c.Instr, Addr: c.Args[0], Val: c.Args[1]})
	case "close":
		st.event(&Event{Kind: EvClose, Instr: c.Instr, Addr: c.Args[0]})
	case "delete":
		st.event(&Event{Kind: EvDelete, Instr: c.Instr, Addr: c.Args[0], Key: c.Args[1]})
	case "clear":
		if t := c.Args[0].Ty; t != nil {
			if m, ok := t.Underlying().(*types.Map); ok {
				st.event(&Event{Kind: EvDelete, Instr: c.Instr, Addr: c.Args[0], Key: e.App("every key", m.Key())})
			}
		}
	case "recover":
		r = e.Nil()
		i := len(st.frames) - 1
		for i > 0 && st.frames[i].Kind == CallF && st.frames[i-1].Fn.Synthetic != "" {
			i--
		}
		if i > 0 && st.frames[i].Kind == DeferF && st.frames[i-1].Unwinding && !st.frames[i-1].Recovered {
			p := st.frames[i-1]
			if p.shared {
				q := *p
				q.shared = false
				q.env = append([]*Term(nil), p.env...)
				q.defers = append([]*CallInfo(nil), p.defers...)
				st.frames[i-1] = &q
				p = &q
			}
			p.Recovered = true
			r = e.App("recovered", rt)
		} else if e.RecoverUnknown && (i == 0 || st.frames[i].Kind == DeferF) {
			// analysed on its own, the function may run while its caller panics
			r = st.fresh(f, c.Instr, "mayberecovered", rt, KApp)
		}
	default:
		if rt != nil {
			if _, isTuple := rt.(*types.Tuple); !isTuple {
				r = e.App("builtin:"+c.Builtin, rt, c.Args...)
			}
		}
	}
	if st.dead {
		return true
	}
	if r != nil && kind == CallF {
		if v, ok := c.Instr.(ssa.Value); ok {
			st.set(f, v, r)
		}
	}
	return false
}

// doReturn pops the frame. Returns true when the path is over.
func (st *State) doReturn(f *Frame, x ssa.Instruction, rs []*Term) bool {
	e := st.E
	st.event(&Event{Kind: EvReturn, Instr: x, Callee: f.Fn, Vals: rs, Kind2: f.Kind})
	if st.dead {
		return true
	}
	if f.Kind == Root {
		e.Paths++
		st.event(&Event{Kind: EvEnd, Instr: x, Vals: rs})
		return true
	}
	p := st.parent()
	st.frames = st.frames[:len(st.frames)-1]
	if f.Kind == CallF {
		st.setCallResult(p, f.Site, rs)
	}
	if f.Kind == GoF {
		st.event(&Event{Kind: EvGoEnd, Instr: f.Site, Callee: f.Fn})
		if st.dead {
			return true
		}
	}
	st.gc()
	return false
}

// unwind continues panic unwinding of the top frame.
func (st *State) unwind(f *Frame) ([]*State, bool) {
	e := st.E
	if len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		out, done := st.call(f, d, DeferF)
		if done {
			return out, false
		}
		return nil, true
	}
	if f.Recovered {
		f.Unwinding = false
		f.Recovered = false
		if f.Fn.Recover != nil {
			f.prev = f.block
			f.block = f.Fn.Recover
			f.pc = 0
			return nil, true
		}
		var rs []*Term
		res := f.Fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			rs = append(rs, e.Zero(res.At(i).Type()))
		}
		if st.doReturn(f, nil, rs) {
			return nil, false
		}
		return nil, true
	}
	switch f.Kind {
	case GoF, Root:
		e.Crashes++
		st.event(&Event{Kind: EvCrash, Instr: f.Site, Callee: f.Fn})
		return nil, false
	}
	st.frames = st.frames[:len(st.frames)-1]
	p := st.top()
	p.Unwinding = true
	p.Recovered = false // a panic in a deferred function replaces a recovered one
	return nil, true
}

// constLen: the length of a slice expression with constant bounds.
func constLen(a *Term) (int64, bool) {
	if a.Kind != KApp || a.Op != "slice" || len(a.Args) != 3 {
		return 0, false
	}
	hi, ok := IntConst(a.Args[2])
	if !ok {
		return 0, false
	}
	lo := int64(0)
	if a.Args[1].Op != "none" {
		if lo, ok = IntConst(a.Args[1]); !ok {
			return 0, false
		}
	}
	return hi - lo, hi >= lo
}

// late is the value of an operand of a statement. The compiler loads a variable in it after the calls in
// it, the SSA form before.
func (st *State) late(f *Frame, v ssa.Value, x ssa.Instruction) *Term {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && u.Block() == x.Block() && u.Pos() > x.Pos() && x.Pos().IsValid() {
		if _, ok := u.X.(*ssa.Alloc); ok {
			return st.load(st.val(f, u.X), u.Type(), f, u)
		}
	}
	return st.val(f, v)
}

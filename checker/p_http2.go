package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

// ---- C22: counting -----------------------------------------------------------------------------

// counter decides on the SSA form whether a value is the number of pending entries in the map of
// connections.
type counter struct {
	w       *World
	pending types.Type
	loops   int
	why     string
}

func (c *counter) fail(format string, a ...any) bool {
	if c.why == "" {
		c.why = fmt.Sprintf(format, a...)
	}
	return false
}

func (c *counter) counts(v ssa.Value, depth int) bool {
	if depth > 6 {
		return c.fail("the number of pending entries is computed in a way that is not understood")
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return c.counts(x.X, depth+1)
	case *ssa.ChangeType:
		return c.counts(x.X, depth+1)
	case *ssa.Call:
		g := x.Common().StaticCallee()
		if g == nil || !c.w.Home(g) || g.Signature.Results().Len() != 1 {
			return c.fail("the number of pending entries comes from %v", x)
		}
		n := 0
		for _, b := range g.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				n++
				if !c.counts(r.Results[0], depth+1) {
					return false
				}
			}
		}
		return n > 0
	case *ssa.BinOp:
		if x.Op == token.ADD && isConstInt(x.Y, 1) {
			return c.counts(x.X, depth+1)
		}
	case *ssa.Phi:
		return c.countPhi(x, depth)
	}
	return c.fail("the number of pending entries is %v", v)
}

func isConstInt(v ssa.Value, n int64) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Int64() == n
}

// rangeOver: the block's last test is the end of an iteration over a value whose type satisfies ty;
// it returns the element.
func rangeOver(b *ssa.BasicBlock, ty func(types.Type) bool) *ssa.Next {
	f, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	ex, ok := f.Cond.(*ssa.Extract)
	if !ok || ex.Index != 0 {
		return nil
	}
	n, ok := ex.Tuple.(*ssa.Next)
	if !ok {
		return nil
	}
	rg, ok := n.Iter.(*ssa.Range)
	if !ok || !ty(rg.X.Type()) {
		return nil
	}
	return n
}

func (c *counter) countPhi(phi *ssa.Phi, depth int) bool {
	// the loop: the phi's own block or one it is merged from
	var head *ssa.BasicBlock
	next := rangeOver(phi.Block(), connMap)
	if next == nil {
		// a merge behind the loop: all sources count
		for _, e := range phi.Edges {
			if e != phi && !c.counts(e, depth+1) {
				return false
			}
		}
		return true
	}
	head = phi.Block()
	c.loops++
	for i, p := range head.Preds {
		if head.Dominates(p) {
			continue
		}
		if !isConstInt(phi.Edges[i], 0) {
			return c.fail("the number of pending entries does not start with 0")
		}
	}
	// every path of the body
	type step struct {
		b    *ssa.BasicBlock
		path []*ssa.BasicBlock
		pend int // +1: entry is pending, -1: it is not, 0: not asked
	}
	work := []step{{head.Succs[0], []*ssa.BasicBlock{head}, 0}}
	n := 0
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if n++; n > 4000 {
			return c.fail("the loop that counts pending entries is too complex")
		}
		if s.b == head {
			var edge ssa.Value
			last := s.path[len(s.path)-1]
			for i, p := range head.Preds {
				if p == last {
					edge = phi.Edges[i]
				}
			}
			d, ok := c.delta(edge, phi, append(s.path, head), 0)
			if !ok {
				return c.fail("the count changes by something else than 1 at %s", c.w.Prog.Fset.Position(phi.Pos()))
			}
			want := int64(0)
			if s.pend > 0 {
				want = 1
			}
			if d != want {
				return c.fail("an entry that is pending: %v changes the count by %d", s.pend > 0, d)
			}
			continue
		}
		seen := false
		for _, b := range s.path {
			if b == s.b {
				seen = true
			}
		}
		if seen {
			return c.fail("the loop that counts pending entries has an inner loop")
		}
		path := append(append([]*ssa.BasicBlock{}, s.path...), s.b)
		switch t := s.b.Instrs[len(s.b.Instrs)-1].(type) {
		case *ssa.If:
			asks := 0
			if ex, ok := t.Cond.(*ssa.Extract); ok && ex.Index == 1 {
				if ta, ok := ex.Tuple.(*ssa.TypeAssert); ok && types.Identical(ta.AssertedType, c.pending) {
					if src, ok := ta.X.(*ssa.Extract); ok && src.Tuple == ssa.Value(next) && src.Index == 2 {
						asks = 1
					}
				}
			}
			for i, q := range s.b.Succs {
				pd := s.pend
				if asks == 1 {
					pd = 1 - 2*i
				}
				if !head.Dominates(q) || !reaches(q, head, map[*ssa.BasicBlock]bool{}) {
					// leaves the loop: only when enough are counted
					if bo, ok := t.Cond.(*ssa.BinOp); ok && (c.isDelta(bo.X, phi) || c.isDelta(bo.Y, phi)) {
						continue
					}
					return c.fail("counting ends before all entries were seen")
				}
				work = append(work, step{q, path, pd})
			}
		case *ssa.Jump:
			work = append(work, step{s.b.Succs[0], path, s.pend})
		default:
			return c.fail("counting ends before all entries were seen")
		}
	}
	return true
}

func reaches(b, to *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	if b == to {
		return true
	}
	if seen[b] {
		return false
	}
	seen[b] = true
	for _, s := range b.Succs {
		if reaches(s, to, seen) {
			return true
		}
	}
	return false
}

func (c *counter) isDelta(v ssa.Value, phi *ssa.Phi) bool {
	if v == ssa.Value(phi) {
		return true
	}
	b, ok := v.(*ssa.BinOp)
	return ok && b.Op == token.ADD && b.X == ssa.Value(phi)
}

func (c *counter) delta(v ssa.Value, phi *ssa.Phi, path []*ssa.BasicBlock, depth int) (int64, bool) {
	if depth > 10 {
		return 0, false
	}
	if v == ssa.Value(phi) {
		return 0, true
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		if k, ok := x.Y.(*ssa.Const); ok && x.Op == token.ADD {
			d, ok := c.delta(x.X, phi, path, depth+1)
			return d + k.Int64(), ok
		}
	case *ssa.Phi:
		for i := len(path) - 1; i > 0; i-- {
			if path[i] == x.Block() {
				for j, p := range x.Block().Preds {
					if p == path[i-1] {
						return c.delta(x.Edges[j], phi, path, depth+1)
					}
				}
			}
		}
	}
	return 0, false
}

// countOperand finds the operand of the limit's comparison that is not the limit.
func (w *World) checkCount(r *Report, h *httpWorld, cmps map[*ssa.If]int) {
	if !r.need(len(cmps) > 0, "C22", "the comparison of the number of pending entries with the limit") {
		return
	}
	for f, side := range cmps {
		v := f.Cond
		for {
			u, ok := v.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			v = u.X
		}
		b, ok := v.(*ssa.BinOp)
		if !ok {
			r.find("count", fname(h.negotiate), f.Cond.Pos(), "the comparison with the limit is not understood")
			continue
		}
		op := b.X
		if side == 1 {
			op = b.Y
		}
		c := &counter{w: w, pending: h.pending}
		good := c.counts(op, 0) && c.loops > 0
		r.inst("count", 1)
		if !good {
			if c.why == "" {
				c.why = "the compared number is not counted over the map of connections"
			}
			r.find("count", fname(h.negotiate), f.Cond.Pos(), "%s", c.why)
		}
	}
}

// countSide: the operand of the comparison which is not the limit.
func (w *World) countSide(f *ssa.If, limit *types.Var) int {
	v := f.Cond
	for {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		v = u.X
	}
	b, ok := v.(*ssa.BinOp)
	if !ok {
		return 0
	}
	if mentionsLimit(b.X, w, limit, 0) {
		return 1
	}
	return 0
}

// mentionsLimit: v comes from the field with the limit, possibly by a method that returns it.
func mentionsLimit(v ssa.Value, w *World, limit *types.Var, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return fieldVarOfSSA(fa) == limit
		}
		return mentionsLimit(x.X, w, limit, depth+1)
	case *ssa.Convert:
		return mentionsLimit(x.X, w, limit, depth+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if mentionsLimit(e, w, limit, depth+1) {
				return true
			}
		}
	case *ssa.Call:
		var fs []*ssa.Function
		if x.Common().IsInvoke() {
			fs = w.implMethods(&eng.CallInfo{Instr: x})
		} else if g := x.Common().StaticCallee(); g != nil {
			fs = []*ssa.Function{g}
		}
		for _, g := range fs {
			for _, b := range g.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 && mentionsLimit(r.Results[0], w, limit, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// ---- C22: expiry -------------------------------------------------------------------------------

func isTimeoutCall(t *eng.Term) bool {
	return t.Any(func(x *eng.Term) bool {
		if isCallTo(x, "(Server).handshakeTimeout", "(Party).handshakeTimeout") {
			return true
		}
		fv := eng.FieldVar(x)
		return fv != nil && strings.Contains(strings.ToLower(fv.Name()), "handshaketimeout")
	})
}

// ageCond: the condition compares the age of the entry val with the handshake timeout. It returns +1
// when truth means the entry is too old, -1 when it means it is not, 0 if it does not compare it.
func ageCond(t *eng.Term, truth bool, val *eng.Term) int {
	for t.Kind == eng.KApp && t.Op == "not" {
		t, truth = t.Args[0], !truth
	}
	sign := func(b bool) int {
		if b == truth {
			return 1
		}
		return -1
	}
	stamp := func(x *eng.Term) bool {
		return x.Any(func(y *eng.Term) bool {
			fv := eng.FieldVar(y)
			return fv != nil && fv.Type().String() == "time.Time" && !isCallTo(y, "time.Now")
		})
	}
	now := func(x *eng.Term) bool {
		return x.Any(func(y *eng.Term) bool { return isCallTo(y, "time.Now") || y.Op == "recv" || y.Op == "selrecv" })
	}
	isAge := func(x *eng.Term) bool {
		x = eng.StripConv(x)
		if x.Call == nil {
			return false
		}
		switch x.Call.Name {
		case "time.Since":
			return stamp(x.Call.Args[0])
		case "(time.Time).Sub":
			return len(x.Call.Args) == 2 && !stamp(x.Call.Args[0]) && stamp(x.Call.Args[1])
		}
		return false
	}
	if t.Kind == eng.KApp && t.Op == "lt" {
		if isTimeoutCall(t.Args[0]) && isAge(t.Args[1]) {
			return sign(true)
		}
		if isAge(t.Args[0]) && isTimeoutCall(t.Args[1]) {
			return sign(false)
		}
	}
	if t.Call != nil && len(t.Call.Args) == 2 {
		a, b := t.Call.Args[0], t.Call.Args[1]
		deadline := func(x *eng.Term) bool {
			return x.Call != nil && x.Call.Name == "(time.Time).Add" && stamp(x.Call.Args[0]) && isTimeoutCall(x.Call.Args[1])
		}
		switch t.Call.Name {
		case "(time.Time).After":
			if deadline(b) && !stamp(a) {
				return sign(true)
			}
			if deadline(a) && !stamp(b) {
				return sign(false)
			}
		case "(time.Time).Before":
			if deadline(a) && !stamp(b) {
				return sign(true)
			}
			if deadline(b) && !stamp(a) {
				return sign(false)
			}
		}
	}
	_ = now
	_ = val
	return 0
}

func (w *World) checkReaper(r *Report, h *httpWorld) {
	deletes := w.reaching(func(i ssa.Instruction) bool {
		c, ok := i.(ssa.CallInstruction)
		return ok && calleeName(c.Common()) == "builtin.delete" && connMap(c.Common().Args[0].Type())
	})
	// the endpoint: functions that make the map of connections and are not called by others
	makes := w.reaching(func(i ssa.Instruction) bool {
		m, ok := i.(*ssa.MakeMap)
		return ok && connMap(m.Type())
	})
	called := map[*ssa.Function]bool{}
	for _, f := range w.Sort {
		if f.Synthetic != "" {
			continue
		}
		for _, c := range callsIn(f) {
			if g := c.Common().StaticCallee(); g != nil {
				called[g] = true
			}
		}
	}
	var reaper *ssa.Function
	n := 0
	for _, f := range w.Sort {
		if !makes[f] || called[f] || f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		n++
		cl := &client{}
		cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
			if c.Go {
				if c.Fn != nil && deletes[c.Fn] {
					reaper = c.Fn
					st.SetInt("started", 1)
				}
				return opaque
			}
			return eng.Decision{}
		}
		cl.event = func(st *eng.State, ev *eng.Event) {
			switch ev.Kind {
			case eng.EvMake:
				if ev.Addr.Ty != nil && connMap(ev.Addr.Ty) {
					st.SetInt("made", 1)
				}
			case eng.EvEnd:
				if st.GetInt("made") == 1 && st.GetInt("started") == 0 {
					st.Report("no-reaper", fname(f), f.Pos(), "an endpoint is set up without a goroutine that removes expired negotiations")
				}
			}
		}
		e := w.engine(cl)
		e.Run(f, nil, nil)
		r.absorb(e)
	}
	if !r.need(n > 0, "C22", "the function that sets up the endpoint") || reaper == nil {
		if n > 0 && len(r.Findings) == 0 {
			r.need(false, "C22", "the goroutine that removes expired negotiations")
		}
		return
	}
	name := fname(reaper)
	cl := &client{}
	cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		if muxCall(st, c) {
			if st.GetInt("sess") == 0 && st.GetInt("inrange") == 1 {
				st.Report("entries-skipped", name, c.Pos(), "the lock is released before all entries were looked at")
			}
			st.Del("inrange")
			return opaque
		}
		switch c.Name {
		case "time.NewTicker", "time.NewTimer", "time.After", "time.Tick", "time.Sleep", "(time.Ticker).Reset", "(time.Timer).Reset":
			r.inst("reaper-period", 1)
			if !isTimeoutCall(c.Args[len(c.Args)-1]) {
				st.Report("reaper-period", name, c.Pos(), "expired negotiations are not looked for in the rhythm of the handshake timeout")
			}
		}
		return eng.Decision{}
	}
	closeIter := func(st *eng.State, pos token.Pos) {
		if st.GetInt("old") == 1 && st.GetInt("pend") == 1 && st.GetInt("gone") == 0 {
			st.Report("expired-kept", name, pos, "an expired negotiation is not removed")
		}
		for _, k := range []string{"old", "pend", "gone"} {
			st.Del(k)
		}
	}
	cl.event = func(st *eng.State, ev *eng.Event) {
		switch ev.Kind {
		case eng.EvRange:
			if ev.Addr != nil && ev.Addr.Ty != nil && connMap(ev.Addr.Ty) {
				st.SetInt("inrange", 1)
				r.inst("reaper-range", 1)
			}
		case eng.EvNext:
			closeIter(st, ev.Instr.Pos())
			st.Set("nkey", ev.Key)
			st.Set("nval", ev.Val)
		case eng.EvTypeCase, eng.EvBranch:
			if ev.Kind == eng.EvBranch {
				t, v := ev.Cond, ev.Truth
				if t.Op == "nextok" && !v {
					st.Del("inrange")
				}
				if a := ageCond(t, v, st.Get("nval")); a != 0 {
					r.inst("reaper-age", 1)
					if a > 0 {
						st.SetInt("old", 1)
					} else {
						st.SetInt("old", 0)
					}
				}
			}
			if v := st.Get("nval"); v != nil {
				st.Facts(func(t *eng.Term, truth bool) {
					if truth && t.Kind == eng.KApp && strings.HasPrefix(t.Op, "typeis:") && t.Args[0] == v && types.Identical(t.Ty, h.pending) {
						st.SetInt("pend", 1)
					}
				})
			}
		case eng.EvDelete:
			if !connMap(ev.Addr.Ty) {
				return
			}
			r.inst("reaper-delete", 1)
			switch {
			case st.GetInt("sess") != 2:
				st.Report("reaper-lock", name, ev.Instr.Pos(), "an entry is removed without the write lock")
			case ev.Key != st.Get("nkey"):
				st.Report("reaper-key", name, ev.Instr.Pos(), "another entry than the expired one is removed")
			case st.GetInt("pend") == 0:
				st.Report("reaper-active", name, ev.Instr.Pos(), "an entry is removed that may belong to a connection in use")
			case st.GetInt("old") == 0:
				st.Report("reaper-young", name, ev.Instr.Pos(), "a negotiation is removed although its time is not over")
			}
			st.SetInt("gone", 1)
		case eng.EvSelect:
			st.Del("ended")
			if ev.Case >= 0 && ev.Sel != nil && !ev.SendOK {
				if ch := ev.Addr; ch != nil && isCallTo(ch, "(context.Context).Done") {
					st.SetInt("ended", 1)
				}
			}
		case eng.EvRecv:
			st.Del("ended")
			if isCallTo(ev.Addr, "(context.Context).Done") {
				st.SetInt("ended", 1)
			}
		case eng.EvEnd, eng.EvCrash:
			if st.GetInt("ended") == 0 && !endedByCtx(st) {
				st.Report("reaper-ends", name, reaper.Pos(), "the goroutine that removes expired negotiations ends while the server lives")
			}
		}
	}
	e := w.engine(cl)
	e.Run(reaper, nil, nil)
	r.absorb(e)
	r.need(r.Instances["reaper-delete"] > 0 && r.Instances["reaper-age"] > 0 && r.Instances["reaper-period"] > 0 || len(r.Findings) > 0, "C22", "the removal of expired negotiations")
}

func endedByCtx(st *eng.State) bool {
	hit := false
	st.Facts(func(t *eng.Term, truth bool) {
		if t.Kind == eng.KApp && t.Op == "eq" && !truth {
			for i := 0; i < 2; i++ {
				if eng.IsNil(t.Args[i]) && isCallTo(t.Args[1-i], "(context.Context).Err") {
					hit = true
				}
			}
		}
	})
	return hit
}

// checkPlaceholder: a request without negotiation makes an entry for itself and does not leave it
// behind as a pending one.
func (w *World) checkPlaceholder(r *Report, h *httpWorld, root *ssa.Function) {
	name := fname(root)
	cl := &client{}
	cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		if muxCall(st, c) {
			return opaque
		}
		return eng.Decision{}
	}
	cl.event = func(st *eng.State, ev *eng.Event) {
		muxEvent(st, ev)
		if ph := st.Get("phkey"); ph != nil {
			if ev.Kind == eng.EvLookup && st.Get("lkkey") == ph {
				st.SetInt("phlook", 1)
				st.Set("phval", ev.Val)
			}
			if v := st.Get("phval"); v != nil && ev.Kind == eng.EvBranch {
				st.Facts(func(t *eng.Term, truth bool) {
					if truth && t.Kind == eng.KApp && strings.HasPrefix(t.Op, "typeis:") && t.Args[0] == v && types.Identical(t.Ty, h.pending) {
						st.SetInt("phlook", 2)
					}
					if t.Kind == eng.KApp && t.Op == "eq" && !truth && (eng.StripIface(t.Args[0]) == v && h.isPending(t.Args[1]) || eng.StripIface(t.Args[1]) == v && h.isPending(t.Args[0])) {
						st.SetInt("phlook", 3)
					}
				})
			}
		}
		switch ev.Kind {
		case eng.EvMapUpdate:
			if ev.Addr.Ty == nil || !connMap(ev.Addr.Ty) {
				return
			}
			if h.isPending(ev.Val) {
				r.inst("placeholder", 1)
				st.Set("phkey", ev.Key)
				st.SetInt("phlook", 0)
			} else if st.Get("phkey") == ev.Key {
				st.Del("phkey")
			}
		case eng.EvDelete:
			if connMap(ev.Addr.Ty) && st.Get("phkey") == ev.Key {
				st.Del("phkey")
			}
		case eng.EvEnd:
			if st.Get("phkey") != nil && (st.GetInt("phlook") == 0 || st.GetInt("phlook") == 2) {
				st.Report("placeholder-left", name, root.Pos(), "a request without negotiation leaves a pending entry behind that no limit was checked for")
			}
		}
	}
	e := w.engine(cl)
	e.Run(root, nil, nil)
	r.absorb(e)
}

// ---- C23 ----------------------------------------------------------------------------------------

// writerNeutral: calls that get the writer but answer nothing.
var writerNeutral = map[string]bool{
	"net/http.MaxBytesReader": true, "net/http.NewResponseController": true, "encoding/json.NewEncoder": true,
	"(net/http.ResponseWriter).Header": true, "(net/http.Flusher).Flush": true, "net/http.SetCookie": true, "bufio.NewWriter": true,
}

func checkC23(w *World, r *Report) {
	r.rule("on every path of the HTTP handlers the response gets exactly one status (or is taken over by a websocket upgrade, after which it is not touched), the status comes before any body and from the handler's own goroutine")
	r.rule("a POST is answered with 200 only on paths where its whole body was read and written to the connection without error")
	h := w.httpWorld(r, "C23")
	if h == nil {
		return
	}
	for _, root := range h.roots {
		name := fname(root)
		cl := &client{}
		isW := func(t *eng.Term) bool {
			t = eng.StripIface(eng.StripConv(t))
			if t != nil && t.Call != nil && (t.Call.Name == "encoding/json.NewEncoder" || t.Call.Name == "bufio.NewWriter") {
				t = eng.StripIface(eng.StripConv(t.Call.Args[0]))
			}
			for t != nil && t.Kind == eng.KApp && strings.HasPrefix(t.Op, "assert:") {
				t = eng.StripIface(t.Args[0])
			}
			return t != nil && t.Kind == eng.KParam && t.Ty != nil && isRW(t.Ty)
		}
		status := func(st *eng.State, c *eng.CallInfo, code *eng.Term) {
			r.inst("status", 1)
			switch {
			case st.GoDepth() > 0:
				st.Report("status-late", name, c.Pos(), "the status is written by a goroutine which may run after the request has ended")
			case st.GetInt("taken") == 1:
				st.Report("status-after-upgrade", name, c.Pos(), "a status is written after a websocket upgrade")
			case st.GetInt("status") == 1:
				st.Report("second-status", name, c.Pos(), "the request gets a second status")
			}
			st.SetInt("status", 1)
			if code == nil {
				return
			}
			n, ok := eng.IntConst(code)
			if !ok {
				st.Report("status-unknown", name, c.Pos(), "the status is not one the program chooses: %v", code)
				return
			}
			if n < 200 || n > 599 {
				st.Report("status-value", name, c.Pos(), "%d is not a final status", n)
			}
			if n >= 200 && n < 300 && st.GetInt("post") == 1 && root != h.negotiate {
				r.inst("post-success", 1)
				if st.GetInt("limited") == 1 && st.GetInt("measured") == 0 {
					st.Report("success-undelivered", name+":cut", c.Pos(), "a POST is answered with success although only a limited part of its body may have been read")
				}
				if st.GetInt("delivered") == 0 {
					st.Report("success-undelivered", name, c.Pos(), "a POST is answered with success although its body was not completely handed over to the connection")
				}
			}
		}
		cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
			switch c.Name {
			case "(net/http.ResponseWriter).WriteHeader":
				status(st, c, c.Arg(0))
				return opaque
			case "net/http.Error":
				status(st, c, c.Arg(2))
				return opaque
			case "net/http.NotFound", "net/http.Redirect", "net/http.ServeContent", "net/http.ServeFile":
				status(st, c, nil)
				return opaque
			case "github.com/coder/websocket.Accept":
				status(st, c, nil)
				st.SetInt("taken", 1)
				return opaque
			case "io.ReadAll":
				if c.Go || c.Deferred {
					break
				}
				src := c.Arg(0)
				return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Do: func(st *eng.State, rs []*eng.Term) {
					st.Set("body", rs[0])
					st.Set("bodyerr", rs[1])
					st.SetInt("limited", b2i(limitedReader(src)))
				}}}}
			case "(bytes.Buffer).ReadFrom":
				if c.Go || c.Deferred {
					break
				}
				buf, src := core(c.Args[0]), c.Arg(0)
				return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Do: func(st *eng.State, rs []*eng.Term) {
					st.Set("bodybuf", buf)
					st.Set("bodyerr", rs[1])
					st.SetInt("limited", b2i(limitedReader(src)))
				}}}}
			case "io.Copy":
				if c.Go || c.Deferred || len(c.Args) != 2 {
					break
				}
				dst, src := core(eng.StripIface(c.Arg(0))), c.Arg(1)
				if isW(c.Arg(0)) {
					break
				}
				if dst.Kind == eng.KObj { // collects the body
					return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Do: func(st *eng.State, rs []*eng.Term) {
						st.Set("bodybuf", dst)
						st.Set("bodyerr", rs[1])
						st.SetInt("limited", b2i(limitedReader(src)))
					}}}}
				}
				return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Do: func(st *eng.State, rs []*eng.Term) {
					st.SetInt("readok", 1)
					st.Set("werr", rs[1])
					st.SetInt("limited", b2i(limitedReader(src)))
				}}}}
			case "(io.Writer).Write", "(io.PipeWriter).Write":
				arg := core(c.Args[len(c.Args)-1])
				whole := st.Get("bodybuf") != nil && isCallTo(arg, "(bytes.Buffer).Bytes") && len(arg.Call.Args) > 0 && core(arg.Call.Args[0]) == st.Get("bodybuf")
				if b := st.Get("body"); (whole || b != nil && c.Args[len(c.Args)-1] == b) && !c.Go {
					return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Do: func(st *eng.State, rs []*eng.Term) {
						st.Set("werr", rs[1])
					}}}}
				}
			}
			for _, a := range append([]*eng.Term{c.Recv}, c.Args...) {
				if a == nil || !isW(a) {
					continue
				}
				if writerNeutral[c.Name] {
					return eng.Decision{}
				}
				if c.Fn != nil && w.Home(c.Fn) || c.Builtin != "" || c.FnTerm != nil && c.Fn == nil && c.Name == "" {
					return eng.Decision{}
				}
				if c.Fn == nil && !c.Invoke {
					return eng.Decision{}
				}
				// writes a body
				r.inst("body", 1)
				if st.GetInt("taken") == 1 {
					st.Report("status-after-upgrade", name+":body", c.Pos(), "the response is written after a websocket upgrade")
				} else if st.GetInt("status") == 0 {
					st.Report("body-before-status", name, c.Pos(), "%s writes a body before the status", c.Name)
				}
				return opaque
			}
			return eng.Decision{}
		}
		cl.event = func(st *eng.State, ev *eng.Event) {
			switch ev.Kind {
			case eng.EvBranch:
				t, v := ev.Cond, ev.Truth
				for t.Kind == eng.KApp && t.Op == "not" {
					t, v = t.Args[0], !v
				}
				if b := st.Get("body"); b != nil && t.Any(func(x *eng.Term) bool { return x.Kind == eng.KApp && x.Op == "len" && core(x.Args[0]) == core(b) }) {
					st.SetInt("measured", 1)
				}
				if t.Kind == eng.KApp && t.Op == "eq" {
					for i := 0; i < 2; i++ {
						if s, ok := eng.StrConst(t.Args[i]); ok && v && s == "POST" && t.Args[1-i].Any(func(x *eng.Term) bool { fv := eng.FieldVar(x); return fv != nil && fv.Name() == "Method" }) {
							st.SetInt("post", 1)
						}
						if eng.IsNil(t.Args[i]) && st.Get("bodyerr") == t.Args[1-i] {
							st.SetInt("readok", b2i(v))
						}
						if eng.IsNil(t.Args[i]) && st.Get("werr") == t.Args[1-i] {
							st.SetInt("delivered", b2i(v)*st.GetInt("readok"))
						}
					}
				}
			case eng.EvEnd:
				if st.GetInt("status") == 0 {
					st.Report("no-status", name, root.Pos(), "a request ends without a status")
				}
			}
		}
		e := w.engine(cl)
		e.Run(root, nil, nil)
		r.absorb(e)
	}
	r.need(r.Instances["post-success"] > 0 || len(r.Findings) > 0, "C23", "a successful POST")
}

// limitedReader: the reader ends without an error before its source does.
func limitedReader(t *eng.Term) bool {
	return t.Any(func(x *eng.Term) bool {
		return x.Call != nil && (x.Call.Name == "io.LimitReader" || x.Call.Name == "io.NewSectionReader") ||
			x.Kind == eng.KObj && x.Ty != nil && namedIs(x.Ty, "LimitedReader") || x.Kind == eng.KIface && x.Ty != nil && namedIs(derefType(x.Ty), "LimitedReader")
	})
}

// ---- C33 ----------------------------------------------------------------------------------------

func checkC33(w *World, r *Report) {
	r.rule("at every websocket upgrade the origin patterns and the verification setting given to the websocket library are exactly the fields which the options AllowOriginPatterns and InsecureSkipVerify store, and the request's headers and host are not changed before")
	r.rule("these fields are stored only by those options, with their argument; everything else leaves them false and empty")
	h := w.httpWorld(r, "C33")
	if h == nil {
		return
	}
	skip := w.optionField(r, "C33", "InsecureSkipVerify")
	pats := w.optionField(r, "C33", "AllowOriginPatterns")
	if skip == nil || pats == nil {
		return
	}
	if skip == pats {
		r.find("same-field", "options", token.NoPos, "both options store to one field")
	}
	sites := map[ssa.Instruction]bool{}
	fromField := func(t *eng.Term, fv *types.Var) bool {
		for i := 0; i < 4 && t != nil; i++ {
			t = eng.StripConv(t)
			if t.Call != nil && t.Call.Name == "slices.Clone" {
				t = t.Call.Args[0]
				continue
			}
			if t.Kind == eng.KApp && t.Op == "append" && len(t.Args) == 2 && emptySlice(t.Args[0]) {
				t = t.Args[len(t.Args)-1]
				continue
			}
			break
		}
		if t == nil {
			return false
		}
		if f := eng.FieldVar(t); f != nil {
			return f == fv
		}
		return t.Kind == eng.KApp && (t.Op == "load" || strings.HasPrefix(t.Op, "load")) && len(t.Args) > 0 && eng.FieldVar(t.Args[0]) == fv
	}
	for _, root := range h.roots {
		name := fname(root)
		cl := &client{}
		cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
			if d, ok := w.getter(c); ok {
				return d
			}
			switch c.Name {
			case "github.com/coder/websocket.Accept":
				sites[c.Instr] = true
				r.inst("upgrade", 1)
				o := eng.StripIface(c.Arg(2))
				var v *eng.Term
				if p, ok := o.Ty.Underlying().(*types.Pointer); ok {
					v = st.PeekStruct(o, p.Elem())
				}
				if v == nil {
					st.Report("accept-options", name, c.Pos(), "the options of the websocket upgrade are not known")
					return opaque
				}
				a, b := fieldOf(st.E, v, "InsecureSkipVerify"), fieldOf(st.E, v, "OriginPatterns")
				if a == nil || !fromField(a, skip) {
					st.Report("skip-verify", name, c.Pos(), "the verification setting of the upgrade is %v, not the configured one", a)
				}
				if b == nil || !fromField(b, pats) {
					st.Report("patterns", name, c.Pos(), "the origin patterns of the upgrade are %v, not the configured ones", b)
				}
				return opaque
			case "(net/http.Header).Set", "(net/http.Header).Add", "(net/http.Header).Del":
				if len(c.Args) > 0 && c.Args[0].Any(func(x *eng.Term) bool { return x.Kind == eng.KParam && x.Ty != nil && isReq(x.Ty) }) {
					st.Report("request-changed", name, c.Pos(), "a header of the request is changed")
				}
			}
			return eng.Decision{}
		}
		cl.event = func(st *eng.State, ev *eng.Event) {
			switch ev.Kind {
			case eng.EvStore, eng.EvMapUpdate, eng.EvDelete:
				a := ev.Addr
				if a == nil || !a.Any(func(x *eng.Term) bool { return x.Kind == eng.KParam && x.Ty != nil && isReq(x.Ty) }) {
					return
				}
				if fv := eng.FieldVar(a); ev.Kind != eng.EvStore || fv != nil && (fv.Name() == "Host" || fv.Name() == "Header" || fv.Name() == "URL") {
					st.Report("request-changed", name, ev.Instr.Pos(), "the request is changed before it is checked")
				}
			}
		}
		e := w.engine(cl)
		e.Run(root, nil, nil)
		r.absorb(e)
	}
	for _, f := range w.Sort {
		for _, c := range callsIn(f) {
			if calleeName(c.Common()) == "github.com/coder/websocket.Accept" && !sites[c] {
				r.find("unseen-upgrade", fname(f), c.Pos(), "a websocket upgrade outside of the HTTP handlers")
			}
		}
	}
	// who stores the fields
	options := map[string]bool{"InsecureSkipVerify": true, "AllowOriginPatterns": true}
	for _, f := range w.Sort {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				fv := fieldVarOfSSA(fa)
				if fv != skip && fv != pats {
					continue
				}
				r.inst("store", 1)
				r.sample("store of %s in %s", fv.Name(), fname(f))
				if c, ok := s.Val.(*ssa.Const); ok && (c.Value == nil || c.Value.String() == "false") {
					continue
				}
				if outer(f).Object() != nil && options[outer(f).Name()] {
					continue
				}
				if _, ok := s.Val.(*ssa.Parameter); ok && w.onlyCalledFrom(f, options) {
					continue
				}
				r.find("store", fname(f)+":"+fv.Name(), s.Pos(), "%s is changed by %s", fv.Name(), fname(f))
			}
		}
	}
	// and with which value
	for _, o := range []string{"InsecureSkipVerify", "AllowOriginPatterns"} {
		fn, want := w.Func(o), skip
		if o == "AllowOriginPatterns" {
			want = pats
		}
		cl := &client{}
		cl.event = func(st *eng.State, ev *eng.Event) {
			if ev.Kind != eng.EvStore || ev.Addr.Kind != eng.KFieldA {
				return
			}
			if fv := eng.FieldVar(ev.Addr); fv == skip || fv == pats {
				r.inst("option-store", 1)
				arg := st.E.Param(fn.Params[0].Name(), fn.Params[0].Type())
				v := eng.StripConv(ev.Val)
				copied := v.Call != nil && v.Call.Name == "slices.Clone" && v.Call.Args[0] == arg || v.Kind == eng.KApp && v.Op == "append" && len(v.Args) == 2 && emptySlice(v.Args[0]) && v.Args[1] == arg
				if fv != want || v != arg && !copied {
					st.Report("option-value", o, ev.Instr.Pos(), "the option %s stores %v in %s", o, ev.Val, fv.Name())
				}
			}
		}
		r.absorb(w.runOption(fn, cl, nil))
	}
}

func emptySlice(t *eng.Term) bool {
	t = eng.StripConv(t)
	return eng.IsNil(t) || t.Kind == eng.KConst && t.Op == "zero"
}

// onlyCalledFrom: f is a method which only functions with these names (and closures in them) call.
func (w *World) onlyCalledFrom(f *ssa.Function, names map[string]bool) bool {
	n := 0
	for _, g := range w.Sort {
		if g.Synthetic != "" {
			continue
		}
		for _, c := range callsIn(g) {
			cc := c.Common()
			hit := cc.StaticCallee() == f || cc.IsInvoke() && cc.Method.Name() == f.Name() && f.Signature.Recv() != nil
			if !hit {
				continue
			}
			n++
			if !names[outer(g).Name()] {
				return false
			}
		}
	}
	return n > 0
}

// ---- C36 ----------------------------------------------------------------------------------------

func checkC36(w *World, r *Report) {
	r.rule("the id of every connection made for a network peer and every id, token and key of a negotiation is the encoding of at least 16 bytes filled by the cryptographic random source; id and token come from different draws; a served connection has the id of the negotiation it claimed")
	h := w.httpWorld(r, "C36")
	if h == nil {
		return
	}
	baseCall := func(st *eng.State, c *eng.CallInfo) (eng.Decision, bool) {
		return randDecision(st, c)
	}
	// connections over net.Conn
	nn := w.Func("NewNetConnection")
	if r.need(nn != nil, "C36", "NewNetConnection") {
		name := fname(nn)
		cl := &client{}
		cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
			if c.Go {
				return opaque
			}
			if d, ok := baseCall(st, c); ok {
				return d
			}
			return eng.Decision{}
		}
		cl.event = func(st *eng.State, ev *eng.Event) {
			randEvent(st, ev)
			if ev.Kind == eng.EvEnd && len(ev.Vals) > 0 {
				r.inst("net-connection", 1)
				id := connIDOf(st, eng.StripIface(ev.Vals[0]))
				if id == nil || !isRandomID(st, id) {
					st.Report("weak-id", name, nn.Pos(), "the id of a connection is not made of at least %d random bytes: %v", randOK, id)
				}
			}
		}
		e := w.engine(cl)
		e.Run(nn, nil, nil)
		r.absorb(e)
	}
	// negotiations
	name := fname(h.negotiate)
	cl := &client{}
	cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		if d, ok := baseCall(st, c); ok {
			return d
		}
		if c.Name == "(encoding/json.Encoder).Encode" || c.Name == "encoding/json.Marshal" {
			resp := responseOf(st, c)
			if resp == nil {
				return opaque
			}
			id, token := jsonField(st.E, resp, "connectionId"), jsonField(st.E, resp, "connectionToken")
			if id == nil || token == nil {
				return opaque
			}
			r.inst("negotiate-response", 1)
			if !isRandomID(st, id) {
				st.Report("weak-id", name+":id", c.Pos(), "the negotiated id is not made of at least %d random bytes: %v", randOK, id)
			}
			if s, ok := eng.StrConst(token); !(ok && s == "") {
				r.inst("negotiate-token", 1)
				if !isRandomID(st, token) {
					st.Report("weak-id", name+":token", c.Pos(), "the connection token is not made of at least %d random bytes: %v", randOK, token)
				}
				if token == id {
					st.Report("token-is-id", name, c.Pos(), "id and token are the same")
				}
			}
			return opaque
		}
		return eng.Decision{}
	}
	cl.event = func(st *eng.State, ev *eng.Event) {
		randEvent(st, ev)
		if ev.Kind == eng.EvMapUpdate && ev.Addr.Ty != nil && connMap(ev.Addr.Ty) {
			r.inst("negotiate-key", 1)
			if !isRandomID(st, ev.Key) {
				st.Report("weak-id", name+":key", ev.Instr.Pos(), "a negotiation is stored under a key that is not made of at least %d random bytes", randOK)
			}
			if id := connIDOf(st, eng.StripIface(ev.Val)); id != nil && !isRandomID(st, id) {
				st.Report("weak-id", name+":entry", ev.Instr.Pos(), "the negotiated connection has an id that is not made of at least %d random bytes", randOK)
			}
		}
	}
	e := w.engine(cl)
	e.Run(h.negotiate, nil, nil)
	r.absorb(e)
	// connections over HTTP
	for _, root := range h.serve {
		name := fname(root)
		cl := &client{}
		cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
			if muxCall(st, c) {
				return opaque
			}
			if d, ok := baseCall(st, c); ok {
				return d
			}
			if (c.Name == "(Server).Serve" || c.Name == "(server).Serve") && !c.Go {
				conn := eng.StripIface(c.Args[len(c.Args)-1])
				id := connIDOf(st, conn)
				r.inst("served", 1)
				ok := id != nil && (isRandomID(st, id) || st.Get("lastkey") == id)
				if id != nil && isCallTo(id, "(Connection).ConnectionID", "(ConnectionBase).ConnectionID") {
					ok = true
				}
				if id != nil && !ok {
					// the id of the entry which was found
					ok = id.Any(func(x *eng.Term) bool {
						return x.Kind == eng.KApp && (x.Op == "lookup" || strings.HasPrefix(x.Op, "assert:"))
					})
				}
				if !ok {
					st.Report("weak-id", name+":served", c.Pos(), "a connection is served with an id that was not negotiated: %v", id)
				}
				return opaque
			}
			return eng.Decision{}
		}
		cl.event = func(st *eng.State, ev *eng.Event) {
			randEvent(st, ev)
			if ev.Kind == eng.EvLookup && ev.Addr.Ty != nil && connMap(ev.Addr.Ty) {
				st.Set("lastkey", ev.Key)
			}
		}
		e := w.engine(cl)
		e.Run(root, nil, nil)
		r.absorb(e)
	}
	r.need(r.Instances["negotiate-token"] > 0 && r.Instances["served"] > 0 || len(r.Findings) > 0, "C36", "negotiations with token and served connections")
}

// responseOf: the struct a json encoder call encodes, nil if it is none.
func responseOf(st *eng.State, c *eng.CallInfo) *eng.Term {
	resp := eng.StripIface(c.Args[len(c.Args)-1])
	if resp.Kind == eng.KObj {
		if p, ok := resp.Ty.Underlying().(*types.Pointer); ok {
			resp = st.PeekStruct(resp, p.Elem())
		}
	}
	if resp == nil || resp.Ty == nil {
		return nil
	}
	if _, ok := resp.Ty.Underlying().(*types.Struct); !ok {
		return nil
	}
	return resp
}

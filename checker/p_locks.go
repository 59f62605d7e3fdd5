package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

func init() {
	register("C24", checkC24)
	register("C25", checkC25)
	register("C26", checkC26)
}

// pref is a memory path relative to a parameter of a function.
type pref struct {
	idx  int
	path string // field indexes, joined
}

// lockReq: a function accesses a field guarded by a lock it does not hold itself.
type lockReq struct {
	at    pref // the struct
	fv    *types.Var
	write bool
	pos   token.Pos
	in    string
}

type blockInfo struct {
	what string
	pos  token.Pos
}

// fnSum summarises what callers of a function have to know.
type fnSum struct {
	acq   map[pref]string // locks it may acquire -> class
	cls   map[string]token.Pos
	req   map[string]lockReq
	blk   *blockInfo
	net   map[string]bool // net effects seen at the ends of its paths, "" for balanced
	inner bool            // called from home code only
}

type lockFinding struct {
	rule, key string
	pos       token.Pos
	msg       string
	fv        *types.Var // conditional on the field being guarded
}

// lockFacts is what the exploration of all functions yields.
type lockFacts struct {
	w        *World
	sums     map[*ssa.Function]*fnSum
	finds    map[string]lockFinding
	order    []string
	edges    map[[2]string]token.Pos
	written  map[*types.Var]bool // written after construction
	roots    int
	sites    map[string]int
	states   int
	paths    int
	fns      map[string]bool
	exceeded bool
	guardedN map[*types.Var]int
}

var lockNames = map[string]int64{
	"(sync.Mutex).Lock": 2, "(sync.RWMutex).Lock": 2, "(sync.RWMutex).RLock": 1,
	"(sync.Mutex).Unlock": -2, "(sync.RWMutex).Unlock": -2, "(sync.RWMutex).RUnlock": -1,
	"(sync.Mutex).TryLock": 3, "(sync.RWMutex).TryLock": 3, "(sync.RWMutex).TryRLock": 4,
	"(sync.Locker).Lock": 2, "(sync.Locker).Unlock": -2,
}

// blockingCalls wait for somebody else without a time limit.
var blockingCalls = map[string]string{
	"time.Sleep": "sleeps", "(sync.WaitGroup).Wait": "waits for goroutines", "(sync.Cond).Wait": "waits",
	"(net/http.Client).Do": "makes a HTTP request", "(net/http.Client).Get": "makes a HTTP request", "(net/http.Client).Post": "makes a HTTP request",
	"net/http.Get": "makes a HTTP request", "net/http.Post": "makes a HTTP request",
	"io.ReadAll": "reads", "io.Copy": "copies", "io.ReadFull": "reads", "fmt.Fprintf": "writes", "fmt.Fprint": "writes", "fmt.Fprintln": "writes",
	"(reflect.Value).Call": "calls user code", "(reflect.Value).CallSlice": "calls user code",
	"(reflect.Value).Recv": "receives from a channel", "(reflect.Value).Send": "sends to a channel", "reflect.Select": "waits for channels",
	"(io.Reader).Read": "reads", "(io.Writer).Write": "writes", "(io.ReadWriter).Read": "reads", "(io.ReadWriter).Write": "writes",
	"(io.PipeReader).Read": "reads", "(io.PipeWriter).Write": "writes", "(net.Conn).Read": "reads", "(net.Conn).Write": "writes",
	"(net/http.ResponseWriter).Write": "writes", "(net/http.Flusher).Flush": "writes",
	"(github.com/coder/websocket.Conn).Read": "reads", "(github.com/coder/websocket.Conn).Write": "writes",
	"(github.com/coder/websocket.Conn).Close": "closes a websocket", "github.com/coder/websocket.Dial": "dials", "github.com/coder/websocket.Accept": "upgrades",
	"(bufio.Reader).ReadString": "reads", "(bufio.Reader).Read": "reads", "(bufio.Scanner).Scan": "reads", "(bytes.Buffer).ReadFrom": "reads",
}

// blockingIface: methods of these interfaces are user code or network operations.
var blockingIface = map[string]map[string]bool{
	"Connection":    {"Read": true, "Write": true},
	"HubConnection": {"SendInvocation": true, "SendStreamInvocation": true, "SendInvocationWithStreamIds": true, "StreamItem": true, "Completion": true, "Close": true, "Ping": true},
	"HubInterface":  {"Initialize": true, "OnConnected": true, "OnDisconnected": true},
	"hubProtocol":   {"WriteMessage": true, "ParseMessages": true},
	"Doer":          {"Do": true},
}

// mutexFields lists the mutex fields of a struct.
func mutexFields(t types.Type) []int {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []int
	for i := 0; i < s.NumFields(); i++ {
		if isMutex(s.Field(i).Type()) {
			out = append(out, i)
		}
	}
	return out
}

func isMutex(t types.Type) bool {
	s := strings.TrimPrefix(t.String(), "*")
	return s == "sync.Mutex" || s == "sync.RWMutex"
}

// selfSync: values of the type synchronise themselves.
func selfSync(t types.Type) bool {
	s := strings.TrimPrefix(t.String(), "*")
	return strings.HasPrefix(s, "sync.") || strings.HasPrefix(s, "sync/atomic.")
}

// optionFn: a function that configures a party before it is used.
func optionFn(f *ssa.Function) bool {
	for ; f != nil; f = f.Parent() {
		s := f.Signature
		if s.Params().Len() == 1 && namedIs(s.Params().At(0).Type(), "Party") && s.Results().Len() == 1 && isErrT(s.Results().At(0).Type()) {
			return true
		}
		// a function given by the maker of an option to a helper that builds it
		if p := f.Parent(); p != nil && p.Signature.Results().Len() == 1 {
			if o, ok := p.Signature.Results().At(0).Type().Underlying().(*types.Signature); ok &&
				o.Params().Len() == 1 && namedIs(o.Params().At(0).Type(), "Party") && o.Results().Len() == 1 && isErrT(o.Results().At(0).Type()) {
				return true
			}
		}
	}
	return false
}

func (w *World) lockFacts() *lockFacts {
	if w.locks != nil {
		return w.locks
	}
	lf := &lockFacts{w: w, sums: map[*ssa.Function]*fnSum{}, finds: map[string]lockFinding{}, edges: map[[2]string]token.Pos{},
		written: map[*types.Var]bool{}, sites: map[string]int{}, fns: map[string]bool{}, guardedN: map[*types.Var]int{}}
	w.locks = lf
	// who is used how
	lf.explore()
	return lf
}

// staticUses: every use of f in home code is a plain static call, and there is one.
func (w *World) staticUses() map[*ssa.Function]bool {
	if w.static != nil {
		return w.static
	}
	calls, other := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for _, f := range w.Sort {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var callee *ssa.Function
				if c, ok := i.(*ssa.Call); ok {
					callee = c.Call.StaticCallee()
				}
				if c, ok := i.(*ssa.Defer); ok {
					callee = c.Call.StaticCallee()
				}
				if callee != nil {
					calls[callee] = true
				}
				n := 0
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						if g == callee {
							n++
							if n == 1 {
								continue
							}
						}
						other[g] = true
					}
				}
			}
		}
	}
	w.static = map[*ssa.Function]bool{}
	for f := range calls {
		if !other[f] && f.Parent() == nil && f.Object() != nil && !f.Object().Exported() && !w.implementsSomething(f) {
			w.static[f] = true
		}
	}
	return w.static
}

// implementsSomething: the method may be called through an interface of the package.
func (w *World) implementsSomething(f *ssa.Function) bool {
	r := f.Signature.Recv()
	if r == nil {
		return false
	}
	for _, n := range w.Types.Scope().Names() {
		tn, ok := w.Types.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		it, ok := tn.Type().Underlying().(*types.Interface)
		if !ok {
			continue
		}
		for i := 0; i < it.NumMethods(); i++ {
			if it.Method(i).Name() == f.Name() && types.Implements(r.Type(), it) {
				return true
			}
		}
	}
	return false
}

func (lf *lockFacts) explore() {
	w := lf.w
	static := w.staticUses()
	rounds := 0
	for {
		rounds++
		changed := false
		lf.finds = map[string]lockFinding{}
		lf.order = nil
		lf.roots = 0
		lf.sites = map[string]int{}
		lf.states, lf.paths = 0, 0
		seen := map[*ssa.Function]bool{}
		for pass := 0; pass < 2; pass++ {
			for _, f := range w.Sort {
				if !w.Home(f) || len(f.Blocks) == 0 {
					continue
				}
				if pass == 0 && f.Parent() != nil || pass == 1 && (f.Parent() == nil || seen[f]) {
					continue
				}
				old := lf.sums[f]
				s := lf.run(f, static, seen)
				lf.sums[f] = s
				if old == nil || len(old.acq) != len(s.acq) || len(old.req) != len(s.req) || (old.blk == nil) != (s.blk == nil) || len(old.cls) != len(s.cls) || fmt.Sprint(old.net) != fmt.Sprint(s.net) {
					changed = true
				}
			}
		}
		if !changed || rounds > 6 {
			break
		}
	}
}

func (lf *lockFacts) find(rule, key string, pos token.Pos, fv *types.Var, format string, a ...any) {
	k := rule + "|" + key
	if _, ok := lf.finds[k]; ok {
		return
	}
	lf.finds[k] = lockFinding{rule, key, pos, fmt.Sprintf(format, a...), fv}
	lf.order = append(lf.order, k)
}

func lockClass(t *eng.Term) string {
	if t.Kind == eng.KFieldA {
		if fv := eng.FieldVar(t); fv != nil {
			return typeName(t.Args[0].Ty) + "." + fv.Name()
		}
	}
	if t.Kind == eng.KGlobal {
		return t.Op
	}
	return "local"
}

// wrapper: every path of f has the same net effect on locks, so it is part of its callers.
func (s *fnSum) wrapper() bool { return s != nil && s.inner && len(s.net) == 1 && !s.net[""] }

func bounded(st *eng.State, t *eng.Term) bool {
	return t != nil && t.Any(func(x *eng.Term) bool {
		if isCallTo(x, "time.After", "time.NewTimer", "time.NewTicker", "time.Tick") {
			return true
		}
		fv := eng.FieldVar(x)
		return fv != nil && fv.Name() == "C" && fv.Pkg() != nil && fv.Pkg().Path() == "time"
	})
}

func (lf *lockFacts) run(fn *ssa.Function, static map[*ssa.Function]bool, seen map[*ssa.Function]bool) *fnSum {
	w := lf.w
	lf.roots++
	sum := &fnSum{acq: map[pref]string{}, cls: map[string]token.Pos{}, req: map[string]lockReq{}, net: map[string]bool{}, inner: static[fn] || fn.Parent() != nil}
	opt := optionFn(fn)
	name := fname(fn)
	var e *eng.Engine
	var params []*eng.Term
	held := func(st *eng.State) map[*eng.Term]int64 {
		out := map[*eng.Term]int64{}
		pre := fmt.Sprintf("h:%d:", st.GoID())
		for k, v := range st.A {
			if strings.HasPrefix(k, pre) && !strings.HasSuffix(k, ":n") && v != nil {
				out[v] = st.GetInt(k + ":n")
			}
		}
		return out
	}
	hk := func(st *eng.State, l *eng.Term) string { return fmt.Sprintf("h:%d:%d", st.GoID(), l.ID) }
	// path relative to a parameter
	rel := func(t *eng.Term) (pref, bool) {
		path := ""
		for t.Kind == eng.KFieldA {
			path = fmt.Sprintf(".%d", t.Idx) + path
			t = t.Args[0]
		}
		for i, p := range params {
			if p == t {
				return pref{i, path}, true
			}
		}
		return pref{}, false
	}
	abs := func(p pref, args []*eng.Term) *eng.Term {
		if p.idx >= len(args) {
			return nil
		}
		t := args[p.idx]
		for _, x := range strings.Split(p.path, ".") {
			if x == "" {
				continue
			}
			var i int
			fmt.Sscan(x, &i)
			var stt *types.Struct
			ty := t.Ty
			if ty == nil {
				return nil
			}
			if pt, ok := ty.Underlying().(*types.Pointer); ok {
				stt, _ = pt.Elem().Underlying().(*types.Struct)
			}
			if stt == nil || i >= stt.NumFields() {
				return nil
			}
			t = e.FieldAddr(t, i, stt.Field(i).Type())
		}
		return t
	}
	lockOf := func(c *eng.CallInfo) *eng.Term {
		l := c.Recv
		if l == nil && len(c.Args) > 0 {
			l = c.Args[0]
		}
		if l != nil && l.Kind == eng.KApp && l.Op == "load" && l.Args[0].Kind == eng.KFieldA {
			l = l.Args[0]
		}
		return eng.StripIface(l)
	}
	block := func(st *eng.State, pos token.Pos, what string) {
		lf.sites["blocking-operation"]++
		if st.GoDepth() == 0 && sum.blk == nil {
			sum.blk = &blockInfo{what, pos}
		}
		for l := range held(st) {
			lf.find("blocking-under-lock", fmt.Sprintf("%s:%s", name, lockClass(l)), pos, nil, "%s %s while it holds %s", eng.FnName(st.Fn()), what, lockClass(l))
		}
	}
	acquire := func(st *eng.State, l *eng.Term, mode int64, pos token.Pos) {
		lf.sites["acquire"]++
		cl := lockClass(l)
		if st.GoDepth() == 0 {
			if p, ok := rel(l); ok {
				sum.acq[p] = cl
			}
			sum.cls[cl] = pos
		}
		for h, m := range held(st) {
			if h == l {
				if !(m == 1 && mode == 1) {
					lf.find("double-lock", name+":"+cl, pos, nil, "%s acquires %s which it already holds; it waits for itself forever", eng.FnName(st.Fn()), cl)
				} else {
					lf.find("double-lock", name+":"+cl, pos, nil, "%s acquires %s for reading twice; a waiting writer in between blocks both forever", eng.FnName(st.Fn()), cl)
				}
			} else if hc := lockClass(h); hc != "local" && cl != "local" {
				lf.edges[[2]string{hc, cl}] = pos
			}
		}
		st.Set(hk(st, l), l)
		st.SetInt(hk(st, l)+":n", mode)
	}
	fresh := func(st *eng.State, base *eng.Term) bool {
		for base.Kind == eng.KFieldA || base.Kind == eng.KIndexA {
			base = base.Args[0]
		}
		if base.Kind != eng.KObj {
			return false
		}
		a, ok := base.Instr.(*ssa.Alloc)
		if !ok {
			return true
		}
		if st.GoDepth() == 0 {
			return true
		}
		// allocated by the goroutine itself
		fs := st.Frames()
		for i := len(fs) - 1; i >= 0; i-- {
			if fs[i].Fn == a.Parent() {
				return true
			}
			if fs[i].Kind == eng.GoF {
				break
			}
		}
		return false
	}
	// access checks an access to memory at addr
	access := func(st *eng.State, addr *eng.Term, write bool, pos token.Pos) {
		for n := addr; n.Kind == eng.KFieldA || n.Kind == eng.KIndexA; n = n.Args[0] {
			if n.Kind != eng.KFieldA {
				continue
			}
			base := n.Args[0]
			fv := eng.FieldVar(n)
			if fv == nil || isMutex(fv.Type()) || selfSync(fv.Type()) || base.Ty == nil {
				continue
			}
			if fv.Pkg() != w.Types {
				continue
			}
			mf := mutexFields(base.Ty)
			if len(mf) == 0 {
				continue
			}
			if fresh(st, base) || opt {
				continue
			}
			if write {
				lf.written[fv] = true
			}
			lf.guardedN[fv]++
			ok := false
			once := false
			for l, m := range held(st) {
				if l.Kind == eng.KFieldA && l.Args[0] == base && (m == 2 || !write) {
					ok = true
				}
			}
			for _, i := range mf {
				if st.GetInt(fmt.Sprintf("was:%d:%d", base.ID, i)) == 1 {
					once = true
				}
			}
			if ok {
				if write {
					// set once: stored only when it was nil
					if nilBefore(st, n) {
						lf.sites["set-once-store"]++
					} else {
						lf.find("set-often", fieldName(fv), pos, fv, "%s", fieldName(fv))
					}
				}
				continue
			}
			if p, isRel := rel(base); isRel && static[fn] {
				k := fmt.Sprintf("%v:%s:%v", p, fv.Name(), write)
				sum.req[k] = lockReq{p, fv, write, pos, eng.FnName(st.Fn())}
				continue
			}
			what := "reads"
			if write {
				what = "writes"
			}
			rule := "unguarded"
			if once && !write {
				rule = "unguarded-once"
			}
			lf.find(rule, fmt.Sprintf("%s:%s:%s", name, fieldName(fv), what), pos, fv, "%s %s %s without holding the lock of its struct", eng.FnName(st.Fn()), what, fieldName(fv))
		}
	}
	cl := &client{}
	cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		if c.Go {
			if c.Fn != nil && c.Fn.Parent() != nil {
				return eng.Decision{}
			}
			if c.Fn != nil && w.Home(c.Fn) {
				for _, a := range c.Args {
					if a.Kind == eng.KClosure || a.Kind == eng.KFunc {
						return eng.Decision{} // runs the given function
					}
				}
			}
			return opaque
		}
		if m, ok := lockNames[c.Name]; ok {
			l := lockOf(c)
			switch {
			case m == 3 || m == 4:
				return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{
					{Results: []*eng.Term{st.E.Bool(true)}, Do: func(st *eng.State, rs []*eng.Term) {
						st.Set(hk(st, l), l)
						st.SetInt(hk(st, l)+":n", 5-m)
					}},
					{Results: []*eng.Term{st.E.Bool(false)}},
				}}
			case m > 0:
				acquire(st, l, m, c.Pos())
			default:
				lf.sites["release"]++
				if st.Get(hk(st, l)) == nil {
					if static[fn] || fn.Parent() != nil {
						st.SetInt("net", 1)
						sum.net["-"+lockClass(l)] = true
						st.SetInt("unl", 1)
					} else {
						lf.find("unlock-unheld", name+":"+lockClass(l), c.Pos(), nil, "%s releases %s which it does not hold on this path", eng.FnName(st.Fn()), lockClass(l))
					}
				} else {
					if st.GetInt(hk(st, l)+":n") != -m {
						lf.find("unlock-mode", name+":"+lockClass(l), c.Pos(), nil, "%s releases %s in another mode than it was acquired", eng.FnName(st.Fn()), lockClass(l))
					}
					st.Del(hk(st, l))
					st.Del(hk(st, l) + ":n")
					if l.Kind == eng.KFieldA {
						st.SetInt(fmt.Sprintf("was:%d:%d", l.Args[0].ID, l.Idx), 1)
					}
				}
			}
			return opaque
		}
		if what, ok := blockingCalls[c.Name]; ok {
			block(st, c.Pos(), what)
			return opaque
		}
		if c.Invoke && c.Recv != nil {
			if i := strings.LastIndex(c.Name, "."); i > 0 {
				if ms := blockingIface[strings.Trim(c.Name[:i], "()")]; ms != nil && ms[c.Name[i+1:]] {
					block(st, c.Pos(), "calls "+c.Name)
				} else if ms == nil {
					for _, impl := range w.callImpls(c) {
						s := lf.sums[impl]
						if s == nil {
							continue
						}
						if s.blk != nil {
							block(st, s.blk.pos, s.blk.what)
							break
						}
						for cls, pos := range s.cls {
							for h := range held(st) {
								if hc := lockClass(h); hc != cls && hc != "local" && cls != "local" {
									lf.edges[[2]string{hc, cls}] = pos
								}
							}
							if st.GoDepth() == 0 {
								sum.cls[cls] = pos
							}
						}
					}
				}
			}
			return opaque
		}
		if c.Fn == nil {
			if c.FnTerm != nil && c.FnTerm.Ty != nil && typeName(c.FnTerm.Ty) != "CancelFunc" && c.Builtin == "" && !strings.HasPrefix(c.Name, "builtin") {
				if p := c.FnTerm; static[fn] && p.Kind == eng.KParam && st.GoDepth() == 0 {
					return opaque // seen where this helper is called, see below
				}
				block(st, c.Pos(), "calls user code")
			}
			return opaque
		}
		if !w.Home(c.Fn) {
			return eng.Decision{}
		}
		s := lf.sums[c.Fn]
		if c.Fn.Parent() != nil || s.wrapper() {
			return eng.Decision{}
		}
		for _, a := range c.Args {
			if a.Kind == eng.KClosure || a.Kind == eng.KFunc {
				return eng.Decision{} // runs the given function
			}
		}
		if static[c.Fn] {
			for _, p := range c.Fn.Params {
				if _, ok := p.Type().Underlying().(*types.Signature); ok && typeName(p.Type()) != "CancelFunc" {
					return eng.Decision{} // runs the given function
				}
			}
		}
		if s != nil {
			hs := held(st)
			for p, cls := range s.acq {
				l := abs(p, c.Args)
				if l == nil {
					continue
				}
				if _, ok := hs[l]; ok {
					lf.find("double-lock", name+":"+cls, c.Pos(), nil, "%s calls %s, which acquires %s, while it holds it", eng.FnName(st.Fn()), eng.FnName(c.Fn), cls)
				}
				if l.Kind == eng.KFieldA {
					st.SetInt(fmt.Sprintf("was:%d:%d", l.Args[0].ID, l.Idx), 1)
				}
				if st.GoDepth() == 0 {
					if q, ok := rel(l); ok {
						sum.acq[q] = cls
					}
				}
			}
			for cls, pos := range s.cls {
				for h := range hs {
					if hc := lockClass(h); hc != cls && hc != "local" && cls != "local" {
						lf.edges[[2]string{hc, cls}] = pos
					}
				}
				if st.GoDepth() == 0 {
					sum.cls[cls] = pos
				}
			}
			if s.blk != nil {
				if st.GoDepth() == 0 && sum.blk == nil {
					sum.blk = s.blk
				}
				for l := range hs {
					lf.find("blocking-under-lock", fmt.Sprintf("%s:%s", name, lockClass(l)), c.Pos(), nil, "%s calls %s, which %s (%s), while it holds %s", eng.FnName(st.Fn()), eng.FnName(c.Fn), s.blk.what, st.E.Pos(s.blk.pos), lockClass(l))
				}
			}
			for _, rq := range s.req {
				b := abs(rq.at, c.Args)
				if b == nil || fresh(st, b) || opt {
					continue
				}
				ok := false
				for l, m := range hs {
					if l.Kind == eng.KFieldA && l.Args[0] == b && (m == 2 || !rq.write) {
						ok = true
					}
				}
				if ok {
					continue
				}
				if p, isRel := rel(b); isRel && static[fn] {
					k := fmt.Sprintf("%v:%s:%v", p, rq.fv.Name(), rq.write)
					sum.req[k] = lockReq{p, rq.fv, rq.write, rq.pos, rq.in}
					continue
				}
				lf.find("unguarded", fmt.Sprintf("%s:%s:%s", fname(c.Fn), fieldName(rq.fv), name), rq.pos, rq.fv, "%s accesses %s without holding the lock of its struct when called from %s", rq.in, fieldName(rq.fv), eng.FnName(st.Fn()))
			}
		}
		return opaque
	}
	cl.event = func(st *eng.State, ev *eng.Event) {
		switch ev.Kind {
		case eng.EvEnter:
			seen[ev.Callee] = true
		case eng.EvLoad:
			access(st, ev.Addr, false, ev.Instr.Pos())
			if ev.Addr.Kind == eng.KFieldA && ev.Val != nil && ev.Val.Ty != nil {
				if _, ok := ev.Val.Ty.Underlying().(*types.Map); ok {
					st.Set(fmt.Sprintf("m:%d", ev.Val.ID), ev.Addr)
				}
			}
		case eng.EvStore:
			access(st, ev.Addr, true, ev.Instr.Pos())
		case eng.EvMapUpdate, eng.EvDelete:
			if a := st.Get(fmt.Sprintf("m:%d", ev.Addr.ID)); a != nil {
				access(st, a, true, ev.Instr.Pos())
			}
		case eng.EvLookup, eng.EvRange, eng.EvNext:
			m := ev.Addr
			if m != nil && ev.Kind == eng.EvNext && len(m.Args) > 0 {
				m = m.Args[0]
			}
			if m == nil {
				return
			}
			if a := st.Get(fmt.Sprintf("m:%d", m.ID)); a != nil {
				access(st, a, false, ev.Instr.Pos())
			}
		case eng.EvSend:
			if mk, ok := ev.Addr.Instr.(*ssa.MakeChan); ok && ev.Addr.Kind == eng.KObj {
				if c, ok := mk.Size.(*ssa.Const); ok && c.Int64() > 0 {
					return
				}
			}
			block(st, ev.Instr.Pos(), "sends to a channel")
		case eng.EvRecv:
			if !bounded(st, ev.Addr) {
				block(st, ev.Instr.Pos(), "receives from a channel")
			}
		case eng.EvSelect:
			if !ev.Sel.Blocking {
				return
			}
			for _, c := range ev.Vals {
				if bounded(st, c) {
					return
				}
			}
			block(st, ev.Instr.Pos(), "waits for channels")
		case eng.EvReturn:
			if ev.Kind2 != eng.GoF {
				return
			}
			for l := range held(st) {
				lf.find("not-released", name+":"+lockClass(l), ev.Instr.Pos(), nil, "a goroutine of %s ends while it holds %s", name, lockClass(l))
			}
			// locks of an ended goroutine do not matter any more
			for k := range st.A {
				if strings.HasPrefix(k, fmt.Sprintf("h:%d:", st.GoID())) {
					st.Del(k)
				}
			}
		case eng.EvEnd:
			hs := held(st)
			if len(hs) == 0 && st.GetInt("net") == 0 {
				sum.net[""] = true
			}
			for l := range hs {
				pos := fn.Pos()
				if ev.Instr != nil && ev.Instr.Pos().IsValid() {
					pos = ev.Instr.Pos()
				}
				sum.net["+"+lockClass(l)] = true
				lf.find("not-released", name+":"+lockClass(l), pos, nil, "%s returns on a path on which %s is still held", name, lockClass(l))
			}
		}
	}
	e = w.engine(cl)
	e.RecoverUnknown = true
	e.StableCell = map[*eng.Term]bool{}
	for _, p := range fn.Params {
		params = append(params, e.Param(p.Name(), p.Type()))
	}
	for _, v := range fn.FreeVars {
		e.StableCell[e.Param("&"+v.Name(), v.Type())] = true
	}
	e.MaxStates = 60000
	e.Run(fn, params, nil)
	if e.Exceeded {
		lf.exceeded = true
		lf.find("undecided", name, fn.Pos(), nil, "the exploration of %s exceeded its state bound", name)
	}
	lf.states += e.States
	lf.paths += e.Paths
	for f := range e.FnsSeen {
		lf.fns[eng.FnName(f)] = true
		seen[f] = true
	}
	if sum.wrapper() {
		for k, f := range lf.finds {
			if strings.HasPrefix(f.key, name+":") && (f.rule == "not-released" || f.rule == "unlock-unheld") {
				delete(lf.finds, k)
			}
		}
	} else if len(sum.net) > 0 {
		for n := range sum.net {
			if strings.HasPrefix(n, "-") && fn.Parent() == nil {
				lf.find("unlock-unheld", name+":"+n[1:], fn.Pos(), nil, "%s releases %s which it does not hold on every path", name, n[1:])
			}
		}
	}
	return sum
}

// nilBefore: the field was known to be nil before the store.
func nilBefore(st *eng.State, addr *eng.Term) bool {
	hit := false
	st.Facts(func(t *eng.Term, v bool) {
		if v && t.Kind == eng.KApp && t.Op == "eq" {
			for i := 0; i < 2; i++ {
				x := t.Args[1-i]
				if eng.IsNil(t.Args[i]) && x.Kind == eng.KApp && x.Op == "load" && x.Args[0] == addr {
					hit = true
				}
			}
		}
	})
	return hit
}

func fieldName(fv *types.Var) string { return fv.Name() }

func (r *Report) takeLocks(lf *lockFacts, rules ...string) {
	r.States += lf.states
	r.Paths += lf.paths
	for f := range lf.fns {
		r.Fns[f] = true
	}
	r.inst("functions-explored", lf.roots)
	for k, n := range lf.sites {
		r.inst(k, n)
	}
	often := map[*types.Var]bool{}
	for _, k := range lf.order {
		if f, ok := lf.finds[k]; ok && f.rule == "set-often" {
			often[f.fv] = true
		}
	}
	for _, k := range lf.order {
		f, ok := lf.finds[k]
		if !ok {
			continue
		}
		rule := f.rule
		if rule == "unguarded-once" {
			if !often[f.fv] {
				continue
			}
			rule = "unguarded"
		}
		for _, x := range rules {
			if x == rule && (f.fv == nil || lf.written[f.fv]) {
				r.find(rule, f.key, f.pos, "%s", f.msg)
			}
		}
	}
}

func checkC24(w *World, r *Report) {
	r.rule("every function and goroutine, explored on every path from its entry with callees summarised: each lock acquired is released before the path ends, in the mode it was acquired, a lock is released only while it is held, and a lock that is held is not acquired again, neither directly nor by a callee")
	lf := w.lockFacts()
	r.takeLocks(lf, "not-released", "unlock-unheld", "unlock-mode", "double-lock", "undecided")
	r.need(lf.sites["acquire"] > 0, "C24", "lock operations")
}

func checkC25(w *World, r *Report) {
	r.rule("on no path an operation that waits without time limit (channel operations, selects without timer or default, network and pipe input or output, sleeping, waiting for goroutines, calls of user code) is reached while a lock is held, neither directly nor through a callee; the order in which lock classes are acquired while others are held has no cycle")
	lf := w.lockFacts()
	r.takeLocks(lf, "blocking-under-lock", "undecided")
	// lock order
	adj := map[string][]string{}
	for e := range lf.edges {
		adj[e[0]] = append(adj[e[0]], e[1])
		r.inst("lock-order-edge", 1)
	}
	var keys []string
	for k := range adj {
		sort.Strings(adj[k])
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		seen := map[string]bool{}
		var dfs func(x string) bool
		dfs = func(x string) bool {
			for _, y := range adj[x] {
				if y == k {
					return true
				}
				if !seen[y] {
					seen[y] = true
					if dfs(y) {
						return true
					}
				}
			}
			return false
		}
		if dfs(k) {
			r.find("lock-order", k, lf.edges[[2]string{k, adj[k][0]}], "the locks %s and %s are acquired in both orders", k, strings.Join(adj[k], ", "))
		}
	}
}

func checkC26(w *World, r *Report) {
	r.rule("every field that is written after construction in a struct that has a lock is read and written only while that lock is held (for writing when it is written), on every path, in callees by their callers' locks; objects not yet shared and option functions are exempt, and so are reads of a field that is set only once after the lock was held")
	r.rule("a variable that is accessed by sync/atomic functions anywhere is accessed only by them")
	lf := w.lockFacts()
	r.takeLocks(lf, "unguarded", "undecided")
	n := 0
	var names []string
	for fv := range lf.written {
		n++
		names = append(names, fv.Name())
	}
	sort.Strings(names)
	r.inst("guarded-field", n)
	r.sample("guarded fields: %s", strings.Join(names, ", "))
	w.checkAtomics(r)
}

// checkAtomics: no plain access to fields that are accessed atomically.
func (w *World) checkAtomics(r *Report) {
	atomicField := map[*types.Var]bool{}
	isAtomicArg := map[ssa.Value]bool{}
	for _, f := range w.Sort {
		for _, c := range callsIn(f) {
			if strings.HasPrefix(calleeName(c.Common()), "sync/atomic.") && len(c.Common().Args) > 0 {
				if fa, ok := c.Common().Args[0].(*ssa.FieldAddr); ok {
					atomicField[fieldVarOfSSA(fa)] = true
					isAtomicArg[fa] = true
				}
			}
		}
	}
	for _, f := range w.Sort {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				fa, ok := i.(*ssa.FieldAddr)
				if !ok || !atomicField[fieldVarOfSSA(fa)] {
					continue
				}
				r.inst("atomic-access", 1)
				if isAtomicArg[fa] {
					continue
				}
				if _, ok := fa.X.(*ssa.Alloc); ok {
					continue
				}
				r.find("mixed-atomic", fname(f)+":"+fieldVarOfSSA(fa).Name(), fa.Pos(), "%s accesses %s without the atomic operations used elsewhere", eng.FnName(f), fieldVarOfSSA(fa).Name())
			}
		}
	}
}

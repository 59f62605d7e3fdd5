package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// FrameKind says how a frame was entered.
type FrameKind uint8

const (
	Root FrameKind = iota
	CallF
	DeferF
	GoF
	CbF // called back by a library function
)

// Frame is one activation on the abstract stack.
type Frame struct {
	Fn        *ssa.Function
	info      *fnInfo
	Ctx       int
	env       []*Term
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	pc        int
	defers    []*CallInfo
	Kind      FrameKind
	Site      ssa.Instruction
	Unwinding bool
	Recovered bool
	shared    bool
}

// State is one configuration of the exploration.
type State struct {
	E      *Engine
	frames []*Frame
	mem    map[*Term]*Term
	facts  map[*Term]bool
	A      map[string]*Term // automaton state; part of the configuration key
	trace  *traceNode
	dead   bool
	steps  int
}

type traceNode struct {
	prev *traceNode
	msg  string
}

// CallInfo describes one call about to happen.
type CallInfo struct {
	Instr    ssa.Instruction
	Common   *ssa.CallCommon
	Name     string
	Fn       *ssa.Function
	Bind     []*Term
	Recv     *Term // receiver for methods
	Args     []*Term
	FnTerm   *Term
	Invoke   bool
	Builtin  string
	Go       bool
	Deferred bool
	Sig      *types.Signature
	In       *ssa.Function
}

func (c *CallInfo) Pos() token.Pos {
	if c.Instr != nil {
		return c.Instr.Pos()
	}
	return token.NoPos
}

// Mode of a call decision.
type Mode uint8

const (
	Default Mode = iota
	Opaque
	Inline
	Outcomes
	Stop
)

// Outcome is one possible result of an opaque call.
type Outcome struct {
	Results  []*Term // nil: fresh; one entry per result, nil entries fresh
	Panic    bool
	Do       func(st *State, results []*Term)
	KeepArgs bool            // the call changes nothing its arguments refer to
	After    func(st *State) // after the memory the call may change was forgotten
	// Callback is a function value the callee calls (the exploration goes on in it, once, and then
	// after the call) with CbArgs.
	Callback *Term
	CbArgs   []*Term
}

// Decision is a client's answer to a call.
type Decision struct {
	Mode     Mode
	Impls    []*ssa.Function
	Outcomes []Outcome
}

type EventKind uint8

const (
	EvSend EventKind = iota
	EvRecv
	EvClose
	EvSelect
	EvStore
	EvLoad
	EvMapUpdate
	EvLookup
	EvDelete
	EvGoStart
	EvGoEnd
	EvEnter
	EvReturn
	EvEnd
	EvCrash
	EvIndex
	EvAssert
	EvRange
	EvNext
	EvHeader
	EvBranch
	EvSlice
	EvTypeCase
	EvMake
	EvDefer
	EvAppend // append(Addr, Val...) with result type Ty
	EvCopy   // copy(Addr, Val)
)

// Event is shown to clients.
type Event struct {
	Kind    EventKind
	Instr   ssa.Instruction
	Fn      *ssa.Function
	Addr    *Term // address, channel, map, base
	Key     *Term
	Val     *Term
	Ok      *Term
	Vals    []*Term
	Sel     *ssa.Select
	Case    int // -1: default
	SendOK  bool
	Block   *ssa.BasicBlock
	Cond    *Term
	Truth   bool
	Commaok bool
	Callee  *ssa.Function
	Kind2   FrameKind
	Ty      types.Type
	Repl    *Term // set by the client: the value received instead of Val
}

// Client is a property automaton.
type Client interface {
	OnCall(st *State, c *CallInfo) Decision
	OnEvent(st *State, ev *Event)
}

// Violation is a reported finding.
type Violation struct {
	Rule  string
	Key   string // construct key, stable under line changes
	Pos   token.Position
	Msg   string
	Trace []string
}

// Engine explores.
type Engine struct {
	Prog           *ssa.Program
	Home           func(*ssa.Function) bool // functions whose bodies may be inlined
	Client         Client
	MaxStates      int
	DumpAt         string
	RecoverUnknown bool           // recover in a root function may return anything
	StableCell     map[*Term]bool // captured variables that are assigned once
	MaxDepth       int
	in             interner
	infos          map[*ssa.Function]*fnInfo
	ctxs           map[string]int
	sites          map[string]int
	siteInfo       []string
	stable         map[*types.Var]bool
	storedG        map[*ssa.Global]bool
	stableDone     bool
	Violations     map[string]*Violation
	Order          []string
	visited        map[string]struct{}

	// statistics
	States    int
	Paths     int
	Crashes   int
	Branches  int
	FnsSeen   map[*ssa.Function]bool
	CallsSeen map[ssa.Instruction]bool
	Exceeded  bool
	found     time.Time // when the first violation was found
	AllFns    map[*ssa.Function]bool
	Debug     bool
	Hist      map[string]int
}

func New(prog *ssa.Program, home func(*ssa.Function) bool, all map[*ssa.Function]bool) *Engine {
	return &Engine{
		Prog: prog, Home: home, MaxStates: 400000, MaxDepth: 24,
		in:    interner{m: map[string]*Term{}},
		infos: map[*ssa.Function]*fnInfo{}, ctxs: map[string]int{}, sites: map[string]int{},
		stable: map[*types.Var]bool{}, storedG: map[*ssa.Global]bool{},
		Violations: map[string]*Violation{}, visited: map[string]struct{}{},
		FnsSeen: map[*ssa.Function]bool{}, CallsSeen: map[ssa.Instruction]bool{}, AllFns: all,
	}
}

// ---- per function info --------------------------------------------------------------------

type fnInfo struct {
	num    map[ssa.Value]int
	vals   []ssa.Value
	livein []map[int]bool // by block index
	inloop []bool         // block in a cycle
	header []bool         // target of a back edge
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if i, ok := e.infos[fn]; ok {
		return i
	}
	in := &fnInfo{num: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		in.num[v] = len(in.vals)
		in.vals = append(in.vals, v)
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	n := len(fn.Blocks)
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// liveness
	use := make([]map[int]bool, n)
	def := make([]map[int]bool, n)
	in.livein = make([]map[int]bool, n)
	liveout := make([]map[int]bool, n)
	idx := map[*ssa.BasicBlock]int{}
	for i, b := range fn.Blocks {
		idx[b] = i
		use[i], def[i], in.livein[i], liveout[i] = map[int]bool{}, map[int]bool{}, map[int]bool{}, map[int]bool{}
		var ops []*ssa.Value
		for _, ins := range b.Instrs {
			if phi, ok := ins.(*ssa.Phi); ok {
				def[i][in.num[phi]] = true
				continue
			}
			ops = ins.Operands(ops[:0])
			for _, o := range ops {
				if *o == nil {
					continue
				}
				if k, ok := in.num[*o]; ok && !def[i][k] {
					use[i][k] = true
				}
			}
			if v, ok := ins.(ssa.Value); ok {
				def[i][in.num[v]] = true
			}
		}
	}
	changed := true
	for changed {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			for _, s := range b.Succs {
				si := idx[s]
				for k := range in.livein[si] {
					if !liveout[i][k] {
						liveout[i][k] = true
						changed = true
					}
				}
				pi := -1
				for j, p := range s.Preds {
					if p == b {
						pi = j
					}
				}
				for _, ins := range s.Instrs {
					phi, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					for j, p := range s.Preds {
						if p != b {
							continue
						}
						if k, ok := in.num[phi.Edges[j]]; ok && !liveout[i][k] {
							liveout[i][k] = true
							changed = true
						}
					}
				}
				_ = pi
			}
			for k := range use[i] {
				if !in.livein[i][k] {
					in.livein[i][k] = true
					changed = true
				}
			}
			for k := range liveout[i] {
				if !def[i][k] && !in.livein[i][k] {
					in.livein[i][k] = true
					changed = true
				}
			}
			// phi-defined values of b are live in "after phis"
			for _, ins := range b.Instrs {
				phi, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				_ = phi
			}
		}
	}
	// cycles
	in.inloop = make([]bool, n)
	in.header = make([]bool, n)
	for i := range fn.Blocks {
		seen := map[int]bool{}
		var st []int
		for _, s := range fn.Blocks[i].Succs {
			st = append(st, idx[s])
		}
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			if x == i {
				in.inloop[i] = true
				break
			}
			if seen[x] {
				continue
			}
			seen[x] = true
			for _, s := range fn.Blocks[x].Succs {
				st = append(st, idx[s])
			}
		}
		for _, p := range fn.Blocks[i].Preds {
			if fn.Blocks[i].Dominates(p) {
				in.header[i] = true
			}
		}
	}
	e.infos[fn] = in
	return in
}

// InLoop reports whether the block lies on a CFG cycle.
func (e *Engine) InLoop(b *ssa.BasicBlock) bool { return e.info(b.Parent()).inloop[b.Index] }

// ---- stability of fields ------------------------------------------------------------------

func (e *Engine) computeStable() {
	if e.stableDone {
		return
	}
	e.stableDone = true
	mutable := map[*types.Var]bool{}
	for fn := range e.AllFns {
		if !e.Home(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fresh := func(v ssa.Value) bool {
					for {
						switch x := v.(type) {
						case *ssa.FieldAddr:
							v = x.X
							continue
						case *ssa.Alloc:
							return true
						}
						return false
					}
				}
				switch a := st.Addr.(type) {
				case *ssa.FieldAddr:
					if !fresh(a.X) {
						if fv := fieldVarOf(a.X.Type(), a.Field); fv != nil {
							mutable[fv] = true
						}
					}
				case *ssa.Global:
					if fn.Name() != "init" || fn.Synthetic == "" {
						e.storedG[a] = true
					}
				case *ssa.Alloc:
				default:
					// whole-struct store through a pointer
					if s, ok := st.Val.Type().Underlying().(*types.Struct); ok {
						for i := 0; i < s.NumFields(); i++ {
							mutable[s.Field(i)] = true
						}
					}
				}
			}
		}
	}
	e.stable = mutable
}

func fieldVarOf(ty types.Type, idx int) *types.Var {
	u := ty.Underlying()
	if p, ok := u.(*types.Pointer); ok {
		u = p.Elem().Underlying()
	}
	if s, ok := u.(*types.Struct); ok && idx < s.NumFields() {
		return s.Field(idx)
	}
	return nil
}

// MutableField reports whether the field is stored after construction somewhere.
func (e *Engine) MutableField(v *types.Var) bool { e.computeStable(); return e.stable[v] }

// ---- state --------------------------------------------------------------------------------

// Copy is an independent copy of the state, for explorations that start from it.
func (st *State) Copy() *State {
	n := st.fork()
	n.frames = nil
	return n
}

func (st *State) fork() *State {
	n := &State{E: st.E, trace: st.trace, steps: st.steps}
	n.frames = append([]*Frame(nil), st.frames...)
	for _, f := range n.frames {
		f.shared = true
	}
	n.mem = make(map[*Term]*Term, len(st.mem))
	for k, v := range st.mem {
		n.mem[k] = v
	}
	n.facts = make(map[*Term]bool, len(st.facts))
	for k, v := range st.facts {
		n.facts[k] = v
	}
	n.A = make(map[string]*Term, len(st.A))
	for k, v := range st.A {
		n.A[k] = v
	}
	return n
}

// top returns the top frame, made private to this state.
func (st *State) top() *Frame {
	i := len(st.frames) - 1
	f := st.frames[i]
	if f.shared {
		c := *f
		c.shared = false
		c.env = append([]*Term(nil), f.env...)
		c.defers = append([]*CallInfo(nil), f.defers...)
		st.frames[i] = &c
		return &c
	}
	return f
}

func (st *State) parent() *Frame {
	i := len(st.frames) - 2
	f := st.frames[i]
	if f.shared {
		c := *f
		c.shared = false
		c.env = append([]*Term(nil), f.env...)
		c.defers = append([]*CallInfo(nil), f.defers...)
		st.frames[i] = &c
		return &c
	}
	return f
}

// Frames exposes the stack for inspection.
func (st *State) Frames() []*Frame { return st.frames }

// Depth of the stack.
func (st *State) Depth() int { return len(st.frames) }

// Fn is the function executing.
func (st *State) Fn() *ssa.Function { return st.frames[len(st.frames)-1].Fn }

// GoDepth is the number of goroutine frames on the stack.
func (st *State) GoDepth() int {
	n := 0
	for _, f := range st.frames {
		if f.Kind == GoF {
			n++
		}
	}
	return n
}

// GoID identifies the goroutine context executing (0 for the root).
func (st *State) GoID() int {
	for i := len(st.frames) - 1; i >= 0; i-- {
		if st.frames[i].Kind == GoF {
			return st.frames[i].Ctx
		}
	}
	return 0
}

func (st *State) Set(k string, v *Term)    { st.A[k] = v }
func (st *State) Get(k string) *Term       { return st.A[k] }
func (st *State) Del(k string)             { delete(st.A, k) }
func (st *State) SetInt(k string, n int64) { st.A[k] = st.E.Int(n) }
func (st *State) GetInt(k string) int64 {
	if t, ok := st.A[k]; ok {
		n, _ := isIntConst(t)
		return n
	}
	return 0
}

// Note appends to the diagnostic trace.
func (st *State) Note(format string, a ...any) {
	st.trace = &traceNode{st.trace, fmt.Sprintf(format, a...)}
}

// Kill ends the path silently.
func (st *State) Kill() { st.dead = true }

// Forget drops all facts and everything known about shared memory: an unknown time has passed.
func (st *State) Forget() {
	for k := range st.facts {
		delete(st.facts, k)
	}
	for k := range st.mem {
		if rootOf(k).Kind != KObj {
			delete(st.mem, k)
		}
	}
}

// ForgetFacts drops all facts; what is known about memory stays.
func (st *State) ForgetFacts() {
	for k := range st.facts {
		delete(st.facts, k)
	}
}

// Fact returns the truth of a boolean term on this path.
func (st *State) Fact(t *Term) (val, known bool) { return st.eval(t) }

// Facts iterates over recorded facts.
func (st *State) Facts(f func(t *Term, v bool)) {
	for k, v := range st.facts {
		f(k, v)
	}
}

// Assume records a fact; false if contradictory.
func (st *State) Assume(t *Term, v bool) bool {
	if cur, known := st.eval(t); known {
		return cur == v
	}
	for t.Kind == KApp && t.Op == "not" {
		t = t.Args[0]
		v = !v
	}
	st.facts[t] = v
	return true
}

func (st *State) interval(t *Term, depth int) (lo, hi int64, hasLo, hasHi bool) {
	if n, ok := isIntConst(t); ok {
		return n, n, true, true
	}
	if isLen(t) || unsignedTy(t.Ty) {
		lo, hasLo = 0, true
	}
	if t.Kind == KApp && t.Op == "+" && depth < 3 {
		if n, ok := isIntConst(t.Args[1]); ok {
			l, h, a, b := st.interval(t.Args[0], depth+1)
			if a && (!hasLo || l+n > lo) {
				lo, hasLo = l+n, true
			}
			if b {
				hi, hasHi = h+n, true
			}
		}
	}
	upLo := func(n int64) {
		if !hasLo || n > lo {
			lo, hasLo = n, true
		}
	}
	upHi := func(n int64) {
		if !hasHi || n < hi {
			hi, hasHi = n, true
		}
	}
	for f, v := range st.facts {
		if f.Kind != KApp || len(f.Args) != 2 {
			continue
		}
		switch f.Op {
		case "lt":
			if f.Args[0] == t {
				if n, ok := isIntConst(f.Args[1]); ok {
					if v {
						upHi(n - 1)
					} else {
						upLo(n)
					}
				}
			} else if f.Args[1] == t {
				if n, ok := isIntConst(f.Args[0]); ok {
					if v {
						upLo(n + 1)
					} else {
						upHi(n)
					}
				}
			}
		case "eq":
			var o *Term
			if f.Args[0] == t {
				o = f.Args[1]
			} else if f.Args[1] == t {
				o = f.Args[0]
			} else {
				continue
			}
			if n, ok := isIntConst(o); ok {
				if v {
					upLo(n)
					upHi(n)
				}
			}
		}
	}
	// disequality at the bounds
	for i := 0; i < 2; i++ {
		for f, v := range st.facts {
			if v || f.Kind != KApp || f.Op != "eq" {
				continue
			}
			var o *Term
			if f.Args[0] == t {
				o = f.Args[1]
			} else if f.Args[1] == t {
				o = f.Args[0]
			} else {
				continue
			}
			if n, ok := isIntConst(o); ok {
				if hasLo && n == lo {
					lo++
				}
				if hasHi && n == hi {
					hi--
				}
			}
		}
	}
	return
}

// Interval returns the bounds known for an integer term.
func (st *State) Interval(t *Term) (lo, hi int64, hasLo, hasHi bool) { return st.interval(t, 0) }

func (st *State) eval(t *Term) (bool, bool) {
	if t.Kind == KConst {
		if t.Const != nil && t.Const.Kind() == constant.Bool {
			return constant.BoolVal(t.Const), true
		}
		return false, false
	}
	if v, ok := st.facts[t]; ok {
		return v, true
	}
	if t.Kind != KApp {
		return false, false
	}
	switch {
	case t.Op == "not":
		v, ok := st.eval(t.Args[0])
		return !v, ok
	case t.Op == "eq":
		a, b := t.Args[0], t.Args[1]
		if isNilConst(b) {
			a, b = b, a
		}
		if isNilConst(a) {
			if nonNil(b) {
				return false, true
			}
			for f, v := range st.facts {
				if v && f.Kind == KApp && strings.HasPrefix(f.Op, "typeis:") && f.Args[0] == b {
					return false, true
				}
			}
		}
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			c, x := p[0], p[1]
			if c.Kind != KConst {
				continue
			}
			for f, v := range st.facts {
				if !v || f.Kind != KApp || f.Op != "eq" {
					continue
				}
				var o *Term
				if f.Args[0] == x {
					o = f.Args[1]
				} else if f.Args[1] == x {
					o = f.Args[0]
				} else {
					continue
				}
				if o.Kind == KConst && o != c {
					return false, true
				}
			}
			if n, ok := isIntConst(c); ok {
				lo, hi, hl, hh := st.interval(x, 0)
				if hl && n < lo || hh && n > hi {
					return false, true
				}
				if hl && hh && lo == hi && lo == n {
					return true, true
				}
			}
		}
		// lt(a,b) true implies a!=b
		for f, v := range st.facts {
			if v && f.Kind == KApp && f.Op == "lt" && (f.Args[0] == a && f.Args[1] == b || f.Args[0] == b && f.Args[1] == a) {
				return false, true
			}
		}
	case t.Op == "lt":
		a, b := t.Args[0], t.Args[1]
		l1, h1, hl1, hh1 := st.interval(a, 0)
		l2, h2, hl2, hh2 := st.interval(b, 0)
		if hh1 && hl2 && h1 < l2 {
			return true, true
		}
		if hl1 && hh2 && l1 >= h2 {
			return false, true
		}
		for f, v := range st.facts {
			if f.Kind != KApp {
				continue
			}
			if v && f.Op == "eq" && (f.Args[0] == a && f.Args[1] == b || f.Args[0] == b && f.Args[1] == a) {
				return false, true
			}
			if v && f.Op == "lt" && f.Args[0] == b && f.Args[1] == a {
				return false, true
			}
		}
	case strings.HasPrefix(t.Op, "typeis:"):
		x := t.Args[0]
		if v, ok := st.facts[st.E.Eq(x, st.E.Nil())]; ok && v {
			return false, true
		}
		if isNilConst(x) {
			return false, true
		}
		mine := t.Ty
		for f, v := range st.facts {
			if v && f.Kind == KApp && f != t && strings.HasPrefix(f.Op, "typeis:") && f.Args[0] == x {
				if !types.IsInterface(mine) && !types.IsInterface(f.Ty) {
					return false, true
				}
			}
		}
	}
	return false, false
}

// ---- memory -------------------------------------------------------------------------------

func rootOf(a *Term) *Term {
	for a.Kind == KFieldA || a.Kind == KIndexA {
		a = a.Args[0]
	}
	return a
}

func within(a, base *Term) bool {
	for {
		if a == base {
			return true
		}
		if a.Kind == KFieldA || a.Kind == KIndexA {
			a = a.Args[0]
			continue
		}
		return false
	}
}

func (st *State) valueAt(addr *Term) *Term {
	if v, ok := st.mem[addr]; ok {
		return v
	}
	if addr.Kind == KFieldA {
		if b := st.valueAt(addr.Args[0]); b != nil {
			var ty types.Type
			if fv := FieldVar(addr); fv != nil {
				ty = fv.Type()
			}
			return st.E.mkField(b, addr.Idx, ty)
		}
	}
	return nil
}

// Load reads memory abstractly; site is used for volatile reads.
func (st *State) load(addr *Term, ty types.Type, fr *Frame, instr ssa.Instruction) *Term {
	if s, ok := ty.Underlying().(*types.Struct); ok {
		sub := false
		for k := range st.mem {
			if k != addr && within(k, addr) {
				sub = true
				break
			}
		}
		if !sub {
			if v := st.valueAt(addr); v != nil {
				return v
			}
		}
		args := make([]*Term, s.NumFields())
		for i := range args {
			fa := st.E.mkFieldA(addr, i, types.NewPointer(s.Field(i).Type()))
			args[i] = st.load(fa, s.Field(i).Type(), fr, instr)
		}
		return st.E.mkStruct(ty, args)
	}
	if v := st.valueAt(addr); v != nil {
		return v
	}
	root := rootOf(addr)
	if addr.Kind == KIndexA {
		return st.E.App("elem", ty, addr.Args[0], addr.Args[1])
	}
	if root.Kind == KObj {
		if _, ok := root.Instr.(*ssa.Alloc); ok {
			return st.E.Zero(ty)
		}
	}
	if root.Kind == KGlobal && addr == root {
		for g, stored := range st.E.storedG {
			if stored && g.String() == root.Op {
				return st.fresh(fr, instr, "load", ty, KApp, addr)
			}
		}
		return st.E.App("load", ty, addr)
	}
	if addr.Kind == KFieldA {
		if fv := FieldVar(addr); fv != nil && !st.E.MutableField(fv) {
			return st.E.App("load", ty, addr)
		}
	}
	if st.E.StableCell[addr] {
		return st.E.App("load", ty, addr)
	}
	return st.fresh(fr, instr, "load", ty, KApp, addr)
}

// Peek reads memory without side effects; nil if unknown.
func (st *State) Peek(addr *Term) *Term {
	if addr == nil {
		return nil
	}
	if v := st.valueAt(addr); v != nil {
		return v
	}
	root := rootOf(addr)
	if root.Kind == KObj && addr.Kind == KFieldA {
		if _, ok := root.Instr.(*ssa.Alloc); ok {
			if fv := FieldVar(addr); fv != nil {
				return st.E.Zero(fv.Type())
			}
		}
	}
	return nil
}

// PeekStruct reads a whole struct at addr, or nil.
func (st *State) PeekStruct(addr *Term, ty types.Type) *Term {
	s, ok := ty.Underlying().(*types.Struct)
	if !ok {
		return st.Peek(addr)
	}
	args := make([]*Term, s.NumFields())
	for i := range args {
		fa := st.E.mkFieldA(addr, i, types.NewPointer(s.Field(i).Type()))
		if _, ok := s.Field(i).Type().Underlying().(*types.Struct); ok {
			args[i] = st.PeekStruct(fa, s.Field(i).Type())
		} else {
			args[i] = st.Peek(fa)
		}
		if args[i] == nil {
			args[i] = st.E.App("unknown", s.Field(i).Type())
		}
	}
	return st.E.mkStruct(ty, args)
}

// FieldAddr builds the address of a field.
func (e *Engine) FieldAddr(base *Term, idx int, ty types.Type) *Term {
	return e.mkFieldA(base, idx, types.NewPointer(ty))
}

func (st *State) store(addr, v *Term) {
	for k := range st.mem {
		if k != addr && within(k, addr) {
			delete(st.mem, k)
		}
		// elements whose index may be the same
		if addr.Kind == KIndexA && k.Kind == KIndexA && k != addr && k.Args[0] == addr.Args[0] && (k.Args[1].Kind != KConst || addr.Args[1].Kind != KConst) {
			delete(st.mem, k)
		}
	}
	st.mem[addr] = v
}

// SliceElems returns the element terms of a slice built from a local array literal, or nil.
func (st *State) SliceElems(t *Term) []*Term {
	if t.Kind == KConst {
		return []*Term{}
	}
	if t.Kind == KApp && t.Op == "append" && len(t.Args) == 2 {
		a, b := st.SliceElems(t.Args[0]), st.SliceElems(t.Args[1])
		if a == nil || b == nil {
			return nil
		}
		return append(append([]*Term{}, a...), b...)
	}
	if t.Kind == KApp && t.Op == "slice" {
		base := t.Args[0]
		if len(t.Args) > 2 {
			if n, ok := isIntConst(t.Args[2]); ok && n == 0 {
				return []*Term{}
			}
		}
		if base.Kind == KObj {
			if p, ok := base.Ty.Underlying().(*types.Pointer); ok {
				if a, ok := p.Elem().Underlying().(*types.Array); ok {
					out := make([]*Term, a.Len())
					for i := range out {
						v := st.mem[st.E.mkIndexA(base, st.E.Int(int64(i)), types.NewPointer(a.Elem()))]
						if v == nil {
							v = st.E.Zero(a.Elem())
						}
						out[i] = v
					}
					return out
				}
			}
		}
	}
	return nil
}

func (st *State) havoc(t *Term, fr *Frame, instr ssa.Instruction, seen map[*Term]bool) {
	if t == nil || seen[t] {
		return
	}
	seen[t] = true
	switch t.Kind {
	case KObj:
		if a, ok := t.Instr.(*ssa.Alloc); ok {
			// everything reachable from the object first
			for k, v := range st.mem {
				if within(k, t) {
					st.havoc(v, fr, instr, seen)
				}
			}
			ty := a.Type().Underlying().(*types.Pointer).Elem()
			h := st.fresh(fr, instr, "havoc", ty, KApp, t)
			for k := range st.mem {
				if within(k, t) {
					delete(st.mem, k)
				}
			}
			if _, isArr := ty.Underlying().(*types.Array); !isArr {
				st.mem[t] = h
			}
		}
	case KFieldA, KIndexA:
		r := rootOf(t)
		if r.Kind == KObj {
			if _, ok := r.Instr.(*ssa.Alloc); ok {
				var ty types.Type
				if p, ok := t.Ty.Underlying().(*types.Pointer); ok {
					ty = p.Elem()
				}
				if ty != nil && t.Kind == KFieldA {
					h := st.fresh(fr, instr, "havoc", ty, KApp, t)
					for k := range st.mem {
						if within(k, t) {
							delete(st.mem, k)
						}
					}
					st.mem[t] = h
				}
			}
		} else {
			for k := range st.mem {
				if within(k, t) {
					delete(st.mem, k)
				}
			}
		}
	case KClosure, KIface, KStruct, KTuple:
		for _, a := range t.Args {
			st.havoc(a, fr, instr, seen)
		}
	case KApp:
		if t.Op == "slice" && t.Args[0].Kind == KObj {
			// elements reachable, the array itself is kept
			if els := st.SliceElems(t); els != nil {
				for _, a := range els {
					st.havoc(a, fr, instr, seen)
				}
			}
		}
	}
}

// ---- fresh terms --------------------------------------------------------------------------

func (e *Engine) siteID(ctx int, instr ssa.Instruction, tag string) int {
	k := fmt.Sprintf("%d:%p:%s", ctx, instr, tag)
	if s, ok := e.sites[k]; ok {
		return s
	}
	s := len(e.sites) + 1
	e.sites[k] = s
	return s
}

func (st *State) referenced(id int) bool {
	for _, f := range st.frames {
		for _, t := range f.env {
			if t != nil && t.hasLeaf(id) {
				return true
			}
		}
		for _, d := range f.defers {
			for _, a := range d.Args {
				if a.hasLeaf(id) {
					return true
				}
			}
		}
	}
	for k, v := range st.mem {
		if k.hasLeaf(id) || v.hasLeaf(id) {
			return true
		}
	}
	for _, v := range st.A {
		if v != nil && v.hasLeaf(id) {
			return true
		}
	}
	return false
}

func (st *State) killFacts(id int) {
	for f := range st.facts {
		if f.hasLeaf(id) {
			delete(st.facts, f)
		}
	}
}

func (st *State) fresh(fr *Frame, instr ssa.Instruction, op string, ty types.Type, kind Kind, args ...*Term) *Term {
	site := st.E.siteID(fr.Ctx, instr, op)
	// clear the target register first so that a loop re-definition does not look like a second live value
	if v, ok := instr.(ssa.Value); ok {
		if k, ok := fr.info.num[v]; ok && op != "havoc" {
			fr.env[k] = nil
		}
	}
	n := len(st.E.in.terms)
	var t *Term
	for gen := 0; ; gen++ {
		t = st.E.sited(kind, op, ty, site, gen, instr, args)
		if t.ID > n {
			return t // never seen before
		}
		if gen >= 3 || !st.referenced(t.ID) {
			break
		}
	}
	st.killFacts(t.ID)
	return t
}

// freshAt makes a new value for what memory cell k holds at the head of loop b.
func (st *State) freshAt(fr *Frame, b *ssa.BasicBlock, k *Term, ty types.Type) *Term {
	site := st.E.siteID(fr.Ctx, b.Instrs[0], fmt.Sprintf("mphi%d", k.ID))
	n := len(st.E.in.terms)
	var t *Term
	for gen := 0; ; gen++ {
		t = st.E.sited(KApp, "phi", ty, site, gen, b.Instrs[0], nil)
		if t.ID > n {
			return t
		}
		if gen >= 3 || !st.referenced(t.ID) {
			break
		}
	}
	st.killFacts(t.ID)
	return t
}

// Fresh makes a new opaque value at the current instruction.
func (st *State) Fresh(instr ssa.Instruction, op string, ty types.Type, args ...*Term) *Term {
	return st.fresh(st.top(), instr, op, ty, KApp, args...)
}

// ---- garbage collection --------------------------------------------------------------------

func (st *State) gc() {
	live := map[int]bool{}
	var mark func(t *Term)
	seen := map[*Term]bool{}
	mark = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.Site != 0 {
			live[t.ID] = true
		}
		for _, a := range t.Args {
			mark(a)
		}
	}
	for i, f := range st.frames {
		_ = i
		for _, t := range f.env {
			mark(t)
		}
		for _, d := range f.defers {
			for _, a := range d.Args {
				mark(a)
			}
			for _, a := range d.Bind {
				mark(a)
			}
			if d.Recv != nil {
				mark(d.Recv)
			}
			if d.FnTerm != nil {
				mark(d.FnTerm)
			}
		}
	}
	for _, v := range st.A {
		mark(v)
	}
	okLeaves := func(t *Term) bool {
		for _, l := range t.leaves {
			if !live[l] {
				return false
			}
		}
		return true
	}
	for changed := true; changed; {
		changed = false
		for k, v := range st.mem {
			r := rootOf(k)
			if okLeaves(r) || r.Kind != KObj && okLeaves(r) {
				if !seen[v] {
					n := len(live)
					mark(v)
					if len(live) != n {
						changed = true
					}
				}
			}
		}
	}
	for k := range st.mem {
		if !okLeaves(rootOf(k)) {
			delete(st.mem, k)
		}
	}
	for f := range st.facts {
		if !okLeaves(f) {
			delete(st.facts, f)
		}
	}
}

func (st *State) key() string {
	var b []byte
	put := func(n int) {
		b = append(b, byte(n), byte(n>>8), byte(n>>16), byte(n>>24))
	}
	for _, f := range st.frames {
		put(f.Ctx)
		put(f.block.Index)
		put(f.pc)
		fl := 0
		if f.Unwinding {
			fl |= 1
		}
		if f.Recovered {
			fl |= 2
		}
		put(fl)
		for i, t := range f.env {
			if t != nil {
				put(i)
				put(t.ID)
			}
		}
		put(-1)
		for _, d := range f.defers {
			put(st.E.siteID(0, d.Instr, "d"))
			for _, a := range d.Args {
				put(a.ID)
			}
			for _, a := range d.Bind {
				put(a.ID)
			}
		}
		put(-2)
	}
	type pr struct{ a, b int }
	var ps []pr
	for k, v := range st.mem {
		ps = append(ps, pr{k.ID, v.ID})
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].a < ps[j].a })
	for _, p := range ps {
		put(p.a)
		put(p.b)
	}
	put(-3)
	ps = ps[:0]
	for k, v := range st.facts {
		n := 0
		if v {
			n = 1
		}
		ps = append(ps, pr{k.ID, n})
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].a < ps[j].a })
	for _, p := range ps {
		put(p.a)
		b = append(b, byte(p.b))
	}
	put(-4)
	var ks []string
	for k := range st.A {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		b = append(b, k...)
		v := st.A[k]
		if v != nil {
			put(v.ID)
		} else {
			put(0)
		}
	}
	return string(b)
}

// ---- reporting -----------------------------------------------------------------------------

// Report records a violation keyed by rule and construct.
func (st *State) Report(rule, construct string, pos token.Pos, format string, a ...any) {
	e := st.E
	k := rule + "|" + construct
	if _, ok := e.Violations[k]; ok {
		return
	}
	var tr []string
	for n := st.trace; n != nil && len(tr) < 60; n = n.prev {
		tr = append([]string{n.msg}, tr...)
	}
	var stack []string
	for _, f := range st.frames {
		stack = append(stack, FnName(f.Fn))
	}
	tr = append(tr, "call path: "+strings.Join(stack, " > "))
	e.Violations[k] = &Violation{Rule: rule, Key: construct, Pos: e.Prog.Fset.Position(pos), Msg: fmt.Sprintf(format, a...), Trace: tr}
	e.Order = append(e.Order, k)
}

// FnName is a short stable function name.
func FnName(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, "github.com/philippseith/signalr/ext", "ext")
	s = strings.ReplaceAll(s, "github.com/philippseith/signalr.", "")
	s = strings.ReplaceAll(s, "*", "")
	return s
}

// Pos renders a position.
func (e *Engine) Pos(p token.Pos) string {
	q := e.Prog.Fset.Position(p)
	if !q.IsValid() {
		return "-"
	}
	f := q.Filename
	if i := strings.LastIndex(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// Dead reports whether the path was ended by Kill.
func (st *State) Dead() bool { return st.dead }

// PeekDeep lists the values stored in an object and its parts.
func (st *State) PeekDeep(obj *Term) []*Term {
	var out []*Term
	for k, v := range st.mem {
		if within(k, obj) {
			out = append(out, v)
		}
	}
	return out
}

// IsZero reports the integer constant 0.
func IsZero(t *Term) bool { n, ok := isIntConst(t); return ok && n == 0 }

// Dump renders the state for debugging.
func (st *State) Dump() string {
	var ls []string
	for k, v := range st.A {
		if v != nil {
			ls = append(ls, "A "+k+" = "+v.String())
		}
	}
	for k, v := range st.facts {
		ls = append(ls, fmt.Sprintf("F %v = %v", k, v))
	}
	for k, v := range st.mem {
		ls = append(ls, fmt.Sprintf("M %v = %v", k, v))
	}
	for i, f := range st.frames {
		for k, t := range f.env {
			if t != nil {
				ls = append(ls, fmt.Sprintf("E%d %s %d = %v", i, FnName(f.Fn), k, t))
			}
		}
	}
	sort.Strings(ls)
	return strings.Join(ls, "\n")
}

// Block is the block the frame executes.
func (f *Frame) Block() *ssa.BasicBlock { return f.block }

// PeekIndex is what is known about an element of a slice or array, nil if nothing.
func (st *State) PeekIndex(base, idx *Term, elem types.Type) *Term {
	return st.Peek(st.E.mkIndexA(base, idx, types.NewPointer(elem)))
}

// StoreAt gives the memory at addr a value.
func (st *State) StoreAt(addr, v *Term) { st.store(addr, v) }

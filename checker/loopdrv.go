package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

// msgTypes are the message structs the protocols deliver (in-package tests fix their names).
var msgTypes = map[string]bool{"invocationMessage": true, "cancelInvocationMessage": true, "streamItemMessage": true,
	"completionMessage": true, "closeMessage": true, "hubMessage": true}

// loopDrv explores the message loop and tells a property automaton when a message is dispatched and when
// its handling is over (the loop waits again, or it has ended).
type loopDrv struct {
	e       *eng.Engine
	r       *Report
	kinds   map[string]bool // kinds of messages of interest; others end the path
	onMsg   func(st *eng.State, kind string)
	final   func(st *eng.State, ended bool, res *eng.Term)
	call    func(st *eng.State, c *eng.CallInfo) eng.Decision
	event   func(st *eng.State, ev *eng.Event)
	points  map[ssa.Instruction]bool
	inspect map[*ssa.Function]bool // looked into though they look like formatters
	seen    map[string]bool        // collects the kinds of messages the loop knows
	noMsg   bool                   // explore paths without a message as well
}

func (d *loopDrv) msg(st *eng.State) *eng.Term { return st.Get("msg") }

func isRecvResult(ty types.Type) bool { return ty != nil && typeName(ty) == "receiveResult" }

func (d *loopDrv) run(w *World, fn *ssa.Function) {
	d.points = map[ssa.Instruction]bool{}
	// dispatch points: receives of the party's receive results in the loop's own goroutine
	cl := &client{}
	cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		if formatter(c.Fn) && !d.inspect[c.Fn] || c.Name == "(StructuredLogger).Log" {
			return opaque
		}
		if d.call != nil {
			return d.call(st, c)
		}
		return eng.Decision{}
	}
	cl.event = func(st *eng.State, ev *eng.Event) {
		noteCtx(st, ev)
		if ev.Kind == eng.EvSelect || ev.Kind == eng.EvRecv {
			if st.GoDepth() == 0 {
				if ev.Val != nil && isRecvResult(ev.Val.Ty) && !ev.SendOK {
					d.points[ev.Instr] = true
				}
				if d.points[ev.Instr] && st.Get("msg") != nil {
					if d.final != nil {
						d.final(st, false, nil)
					}
					st.Kill()
					return
				}
			}
		}
		if ev.Kind == eng.EvTypeCase && ev.Truth && ev.Addr.Call != nil && homeError(w, ev.Ty) {
			st.Kill() // opaque callees never return the package's own error types
			return
		}
		if ev.Kind == eng.EvTypeCase && st.GoDepth() == 0 && st.Get("msg") == nil && ev.Truth && msgTypes[typeName(ev.Ty)] && fromRecv(ev.Addr) {
			k := typeName(ev.Ty)
			if d.seen != nil {
				d.seen[k] = true
			}
			if !d.kinds[k] {
				st.Kill()
				return
			}
			st.Set("msg", ev.Val)
			st.Set("kind", st.E.Str(k))
			st.Del("ctxover")
			if d.onMsg != nil {
				d.onMsg(st, k)
			}
		}
		if d.event != nil {
			d.event(st, ev)
			if st.Dead() {
				return
			}
		}
		if ev.Kind == eng.EvEnd && (st.Get("msg") != nil || d.noMsg) {
			if d.final != nil {
				var res *eng.Term
				if len(ev.Vals) > 0 {
					res = ev.Vals[len(ev.Vals)-1]
				}
				d.final(st, true, res)
			}
		}
	}
	d.e = w.engine(cl)
	d.e.Run(fn, nil, nil)
	d.r.absorb(d.e)
}

// fromRecv: the value was received from a channel (a receive result's message).
func fromRecv(t *eng.Term) bool {
	return t != nil && t.Any(func(x *eng.Term) bool {
		return x.Kind == eng.KApp && len(x.Op) >= 4 && x.Op[:4] == "recv"
	})
}

// kindOf gives the kind of the message being handled.
func kindOf(st *eng.State) string {
	if t := st.Get("kind"); t != nil {
		s, _ := eng.StrConst(t)
		return s
	}
	return ""
}

// emptyStr: is the string term known to be empty / non-empty on this path.
func emptyStr(st *eng.State, t *eng.Term) (empty, known bool) {
	if t == nil {
		return false, false
	}
	if s, ok := eng.StrConst(t); ok {
		return s == "", true
	}
	return st.Fact(st.E.Eq(t, st.E.Str("")))
}

// isNilTerm: is the term known to be nil / non-nil on this path.
func isNilTerm(st *eng.State, t *eng.Term) (isnil, known bool) {
	if t == nil {
		return false, false
	}
	if eng.IsNil(t) {
		return true, true
	}
	return st.Fact(st.E.Eq(t, st.E.Nil()))
}

// site counts an analysed call site once.
type sites map[string]bool

func (s sites) add(r *Report, rule, where, what string) {
	if !s[rule+where] {
		s[rule+where] = true
		r.inst(rule, 1)
		r.sample("%s: %s at %s", rule, what, where)
	}
}

// homeError: a concrete error type of the package.
func homeError(w *World, t types.Type) bool {
	p, ok := t.(*types.Pointer)
	if ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() != w.Types || types.IsInterface(n) {
		return false
	}
	return types.Implements(types.NewPointer(n), types.Universe.Lookup("error").Type().Underlying().(*types.Interface))
}

package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

func init() { register("C27", checkC27) }

// checkC27: results of helper goroutines.
func checkC27(w *World, r *Report) {
	r.rule("a goroutine that forwards a stream of values over a channel made by the same operation is received from until it closes that channel")
	r.rule("a goroutine that sends single results to a channel returned to the caller never sends more values than the buffer of that channel holds")
	r.rule("for every channel an operation makes for itself and its goroutines: on every path of the operation the number of values its goroutines send to it in blocking sends is at most its buffer plus the number of values the operation receives, so no goroutine stays blocked when the operation has given up")
	isChan := func(t types.Type) bool { _, ok := t.Underlying().(*types.Chan); return ok }
	handsChan := func(f *ssa.Function) bool {
		sig := f.Signature
		for i := 0; i < sig.Params().Len(); i++ {
			if isChan(sig.Params().At(i).Type()) {
				return true
			}
		}
		for i := 0; i < sig.Results().Len(); i++ {
			if isChan(sig.Results().At(i).Type()) {
				return true
			}
		}
		return false
	}
	// functions that start goroutines themselves or get a channel from a helper
	spawns := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range w.Sort {
			if spawns[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					switch x := i.(type) {
					case *ssa.Go:
						spawns[f] = true
					case *ssa.Call:
						if g := x.Common().StaticCallee(); g != nil && w.Home(g) && spawns[g] && (handsChan(g) || g.Parent() != nil) {
							spawns[f] = true
						}
					}
				}
			}
			changed = changed || spawns[f]
		}
	}
	n := 0
	seen := map[*ssa.Function]bool{}
	for _, f := range w.Sort {
		if !spawns[f] || f.Synthetic != "" {
			continue
		}
		if f.Parent() != nil {
			continue
		}
		n++
		for g := range w.abandoned(r, f, handsChan, isChan) {
			seen[g] = true
		}
	}
	// closures that run on their own
	for _, f := range w.Sort {
		if spawns[f] && f.Parent() != nil && !seen[f] {
			w.abandoned(r, f, handsChan, isChan)
		}
	}
	r.need(n > 0, "C27", "functions that start goroutines")
	r.need(r.Instances["send"] > 0, "C27", "goroutines that send their result")
}

func (w *World) abandoned(r *Report, root *ssa.Function, handsChan func(*ssa.Function) bool, isChan func(types.Type) bool) map[*ssa.Function]bool {
	key := func(p string, o *eng.Term) string { return fmt.Sprintf("%s:%d", p, o.ID) }
	name := eng.FnName(root)
	capOf := func(o *eng.Term) int64 {
		if m, ok := o.Instr.(*ssa.MakeChan); ok {
			if c, ok := m.Size.(*ssa.Const); ok {
				return c.Int64()
			}
			// a configured buffer may be 0
		}
		return 0
	}
	bump := func(st *eng.State, k string) {
		if n := st.GetInt(k); n < 4 {
			st.SetInt(k, n+1)
		}
	}
	objs := map[int]*eng.Term{}
	var inLoop func(*ssa.BasicBlock) bool
	var escape func(st *eng.State, t *eng.Term)
	escape = func(st *eng.State, t *eng.Term) {
		if t == nil {
			return
		}
		if t.Kind == eng.KObj && objs[t.ID] != nil {
			st.SetInt(key("esc", t), 1)
		}
		if t.Kind == eng.KApp && (strings.HasPrefix(t.Op, "recv") || t.Op == "load") {
			return // a value which came out of the channel
		}
		for _, a := range t.Args {
			escape(st, a)
		}
	}
	cl := &client{}
	cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		if c.Go {
			return eng.Decision{}
		}
		if c.Builtin != "" {
			return eng.Decision{}
		}
		if c.Fn != nil && w.Home(c.Fn) {
			if c.Fn.Parent() != nil || handsChan(c.Fn) || len(c.Bind) > 0 {
				return eng.Decision{}
			}
			for _, a := range c.Args {
				if a.Kind == eng.KClosure || a.Kind == eng.KFunc {
					return eng.Decision{}
				}
			}
		}
		if c.Fn == nil && !c.Invoke && c.FnTerm != nil && (c.FnTerm.Kind == eng.KClosure || c.FnTerm.Kind == eng.KFunc) {
			return eng.Decision{}
		}
		for _, a := range c.Args {
			a = eng.StripIface(a)
			if a.Kind == eng.KClosure {
				// a callback that may be called at any time
				for _, b := range a.Args {
					escape(st, b)
					escape(st, st.Peek(b))
				}
			}
			escape(st, a)
		}
		// reflective sends block or panic
		if c.Name == "(reflect.Value).Send" {
			return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{}, {Panic: true}}}
		}
		return opaque
	}
	cl.event = func(st *eng.State, ev *eng.Event) {
		switch ev.Kind {
		case eng.EvMake:
			if ev.Addr != nil && ev.Addr.Ty != nil && isChan(ev.Addr.Ty) {
				objs[ev.Addr.ID] = ev.Addr
				for _, k := range []string{"snd", "rcv", "esc", "end"} {
					st.Del(key(k, ev.Addr))
				}
				r.inst("channel", 1)
			}
		case eng.EvSend, eng.EvSelect:
			if ev.Kind == eng.EvSelect && !ev.SendOK {
				// a receive in a select
				if ev.Case >= 0 && ev.Addr != nil && objs[ev.Addr.ID] != nil && st.GoDepth() == 0 {
					bump(st, key("rcv", ev.Addr))
				}
				return
			}
			if ev.Val != nil {
				escape(st, ev.Val)
			}
			o := ev.Addr
			if o == nil || objs[o.ID] == nil {
				return
			}
			if ev.Kind == eng.EvSelect {
				if st.GoDepth() > 0 {
					r.inst("select-send", 1)
				}
				return // has another case (or is counted as able to give up)
			}
			if st.GoDepth() > 0 {
				r.inst("send", 1)
				r.sample("%s sends to a channel of %s", eng.FnName(st.Fn()), name)
			}
			if inLoop(ev.Instr.Block()) {
				st.SetInt(key("snd", o), 4)
			} else {
				bump(st, key("snd", o))
			}
		case eng.EvRecv:
			if o := ev.Addr; o != nil && objs[o.ID] != nil {
				bump(st, key("rcv", o))
			}
		case eng.EvBranch:
			t, v := ev.Cond, ev.Truth
			for t.Kind == eng.KApp && t.Op == "not" {
				t, v = t.Args[0], !v
			}
			if !v && t.Kind == eng.KApp && strings.HasPrefix(t.Op, "recvok") && len(t.Args) > 0 && objs[t.Args[0].ID] != nil {
				st.SetInt(key("end", t.Args[0]), 1)
			}
		case eng.EvStore:
			// a channel stored outside of the operation's own variables belongs to somebody else
			a := ev.Addr
			for a.Kind == eng.KFieldA || a.Kind == eng.KIndexA {
				a = a.Args[0]
			}
			if a.Kind != eng.KObj {
				escape(st, ev.Val)
			} else if ev.Addr.Kind != eng.KObj {
				// a field of an object made here: the object may go anywhere
				escape(st, ev.Val)
			}
		case eng.EvMapUpdate:
			escape(st, ev.Val)
		case eng.EvReturn:
			if ev.Kind2 == eng.Root {
				for _, v := range ev.Vals {
					if o := eng.StripConv(eng.StripIface(v)); o.Kind == eng.KObj && objs[o.ID] != nil {
						// the caller may or may not receive
						if st.GetInt(key("esc", o)) == 0 {
							st.SetInt(key("esc", o), 2)
						}
						continue
					}
					escape(st, v)
				}
			}
		case eng.EvEnd:
			for _, o := range objs {
				if st.GetInt(key("esc", o)) == 1 {
					continue
				}
				s, rc, c := st.GetInt(key("snd", o)), st.GetInt(key("rcv", o)), capOf(o)
				if s == 0 {
					continue
				}
				r.inst("end", 1)
				if st.GetInt(key("esc", o)) == 2 && rc == 0 && s < 4 && s > c {
					st.Report("abandoned-result", name, o.Instr.Pos(), "the caller of %s may never receive from the returned channel (buffer %d), then the goroutine that sends %d value(s) to it is blocked forever", name, c, s)
				}
				if st.GetInt(key("esc", o)) == 2 {
					continue
				}
				if s >= 4 {
					// a stream of values: the receiver has seen its end, or the call it belongs to was never made
					if rc > 0 && st.GetInt(key("end", o)) == 0 {
						st.Report("abandoned-stream", name, o.Instr.Pos(), "%s may end while it has not yet received the end of this stream of values, then the goroutine that forwards the values is blocked forever", name)
					}
					continue
				}
				if s > c+rc {
					st.Report("abandoned", name, o.Instr.Pos(), "%s may end without receiving from this channel (buffer %d), then the goroutine that sends %d value(s) to it is blocked forever", name, c, s)
				}
			}
		}
	}
	e := w.engine(cl)
	inLoop = e.InLoop
	e.Run(root, nil, nil)
	r.absorb(e)
	return e.FnsSeen
}

package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

func init() {
	register("C01", checkC01)
}

// ctxEnded: the path carries a fact that some context is over.
func ctxEnded(st *eng.State) bool {
	over := false
	st.Facts(func(t *eng.Term, v bool) {
		if !v && t.Kind == eng.KApp && t.Op == "eq" {
			for i := 0; i < 2; i++ {
				if isCallTo(t.Args[i], "(context.Context).Err") && eng.IsNil(t.Args[1-i]) {
					over = true
				}
			}
		}
	})
	return over
}

// noteCtx records in the automaton state when the path passes evidence that a context ended.
func noteCtx(st *eng.State, ev *eng.Event) {
	switch ev.Kind {
	case eng.EvSelect:
		if ev.Addr != nil && isCallTo(ev.Addr, "(context.Context).Done") {
			st.SetInt("ctxover", 1)
		}
	case eng.EvRecv:
		if isCallTo(ev.Addr, "(context.Context).Done") {
			st.SetInt("ctxover", 1)
		}
	case eng.EvBranch:
		if ctxEnded(st) {
			st.SetInt("ctxover", 1)
		}
	}
}

// loopRun finds the function that runs the message loop: the method Run of type loop.
func (w *World) loopRun() *ssa.Function { return w.Func("(loop).Run") }

// reflectCall gives the outcomes of a dynamic hub method call: it returns, or it panics.
func reflectCall(c *eng.CallInfo, onStart func(st *eng.State)) eng.Decision {
	return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{
		{Do: func(st *eng.State, rs []*eng.Term) {
			if onStart != nil {
				onStart(st)
			}
			// a reflective call returns exactly NumOut values
			st.Facts(func(t *eng.Term, v bool) {
				if v && t.Kind == eng.KApp && t.Op == "eq" {
					for i := 0; i < 2; i++ {
						if isCallTo(t.Args[i], "(reflect.Type).NumOut") {
							if n, ok := eng.IntConst(t.Args[1-i]); ok {
								e := st.E
								defer func() {
									st.Assume(e.Eq(e.App("len", types.Typ[types.Int], rs[0]), e.Int(n)), true)
								}()
							}
						}
					}
				}
			})
		}},
		{Panic: true, Do: func(st *eng.State, rs []*eng.Term) {
			if onStart != nil {
				onStart(st)
			}
			st.SetInt("panicked", 1)
		}},
	}}
}

func checkC01(w *World, r *Report) {
	r.rule("every path of the message loop after an invocation message arrives sends exactly one Completion carrying that message's id when the id is not empty, and none when it is; the completion of a refused or panicking invocation carries an error text and that of a returned method none; paths on which the connection's context has ended are exempt")
	run := w.loopRun()
	if !r.need(run != nil, "C01", "the loop's Run method") {
		return
	}
	seen := sites{}
	d := &loopDrv{r: r, kinds: map[string]bool{"invocationMessage": true}}
	d.final = func(st *eng.State, ended bool, res *eng.Term) {
		e := d.e
		inv := d.msg(st)
		if st.GetInt("ctxover") == 1 || ctxEnded(st) {
			return
		}
		id := fieldOf(e, inv, "InvocationID")
		ty := fieldOf(e, inv, "Type")
		n1, k1 := st.Fact(e.Eq(ty, e.Int(1)))
		n4, k4 := st.Fact(e.Eq(ty, e.Int(4)))
		if k1 && !n1 && k4 && !n4 {
			return // the protocols only deliver types 1 and 4
		}
		empty, known := emptyStr(st, id)
		n := st.GetInt("n")
		r.inst("exactly-one-completion", 1)
		if n == 0 && !(known && empty) {
			st.Report("missing-completion", "path:"+pathClass(st), run.Pos(), "an invocation with an id is never completed on this path")
		}
		if n > 1 && !(known && empty) {
			st.Report("duplicate-completion", fmt.Sprintf("path:%s completions:%d", pathClass(st), n), run.Pos(), "an invocation is completed %d times on this path", n)
		}
	}
	d.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		e, inv := d.e, d.msg(st)
		switch c.Name {
		case "(HubConnection).Completion":
			if inv == nil {
				return opaque
			}
			id := fieldOf(e, inv, "InvocationID")
			key := fname(c.In)
			seen.add(r, "completion-site", e.Pos(c.Pos()), "Completion call in "+key)
			if c.Args[len(c.Args)-3] != id {
				st.Report("wrong-id", key, c.Pos(), "a completion is sent for %v instead of the id of the invocation being handled", c.Args[len(c.Args)-3])
				return opaque
			}
			if empty, known := emptyStr(st, id); !known || empty {
				st.Report("completion-without-id", key, c.Pos(), "a completion is sent although the invocation may carry no id (the caller expects no answer)")
			}
			errText := c.Args[len(c.Args)-1]
			noErr, known := emptyStr(st, errText)
			if st.GetInt("n") == 0 {
				switch {
				case st.GetInt("called") == 0 && known && noErr:
					st.Report("refused-without-error", key, c.Pos(), "an invocation that was not executed is answered by a completion without an error")
				case st.GetInt("panicked") == 1 && known && noErr:
					st.Report("panic-without-error", key, c.Pos(), "a panicking method is answered by a completion without an error")
				}
			}
			st.SetInt("n", st.GetInt("n")+1)
			st.Note("%s: Completion sent (%d so far)", e.Pos(c.Pos()), st.GetInt("n"))
			if st.GetInt("n") > 3 {
				st.SetInt("n", 3)
			}
			return opaque
		case "(reflect.Value).Call", "(reflect.Value).CallSlice":
			return reflectCall(c, func(st *eng.State) { st.SetInt("called", 1) })
		}
		return eng.Decision{}
	}
	d.run(w, run)
}

func inRunLoop(st *eng.State) bool { return st.GoDepth() == 0 }

// pathClass names the way a path went, by the functions it last touched.
func pathClass(st *eng.State) string {
	if st.GetInt("panicked") == 1 {
		return "panic"
	}
	return "normal"
}

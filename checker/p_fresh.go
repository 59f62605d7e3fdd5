package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

func init() { register("C15", checkC15) }

// decodeTarget gives the argument a decoding call fills, -1 when it is none.
func decodeTarget(name string, invoke bool) int {
	switch {
	case name == "encoding/json.Unmarshal" || strings.HasSuffix(name, "/msgpack/v5.Unmarshal"):
		return 1
	case name == "(encoding/json.Decoder).Decode" || strings.HasSuffix(name, "msgpack/v5.Decoder).Decode"):
		return 0
	case strings.HasSuffix(name, ").UnmarshalArgument") && invoke:
		return 1
	}
	return -1
}

// checkC15: every value a message is decoded into is new.
func checkC15(w *World, r *Report) {
	r.rule("the value that a decoding call fills was made for it: a local variable, composite value or reflect.New value that holds nothing decoded before")
	r.rule("what a protocol delivers contains nothing loaded from the protocol itself or from a global variable")
	direct := func(i ssa.Instruction) bool {
		c, ok := i.(ssa.CallInstruction)
		return ok && decodeTarget(calleeName(c.Common()), c.Common().IsInvoke()) >= 0
	}
	in := w.reaching(direct)
	var work []*ssa.Function
	queued := map[*ssa.Function]bool{}
	push := func(f *ssa.Function) {
		f = outer(f)
		if !queued[f] {
			queued[f] = true
			work = append(work, f)
		}
	}
	for _, f := range w.Sort {
		if f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if direct(i) {
					push(f)
				}
			}
		}
	}
	seen := map[ssa.Instruction]bool{}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, u := range w.freshRoot(r, f, in, seen) {
			push(u)
		}
	}
	r.need(len(seen) >= 8, "C15", "the calls that decode messages")
	parsers := 0
	for _, t := range w.implsOf("hubProtocol") {
		f := w.Prog.LookupMethod(t, w.Types, "ParseMessages")
		if f == nil || len(f.Blocks) == 0 || f.Synthetic != "" {
			continue
		}
		parsers++
		recv := types.Type(t)
		w.onDelivered(r, f, func(st *eng.State, ev *eng.Event, v *eng.Term) {
			r.inst("delivered-message", 1)
			if v.Any(func(x *eng.Term) bool {
				if x.Kind == eng.KGlobal {
					return true
				}
				if x.Kind == eng.KApp && x.Op == "load" && x.Args[0].Kind == eng.KFieldA {
					b := x.Args[0]
					for b.Kind == eng.KFieldA {
						b = b.Args[0]
					}
					return b.Kind == eng.KParam && types.Identical(b.Ty, recv)
				}
				return false
			}) {
				st.Report("delivered-state", eng.FnName(f), ev.Instr.Pos(), "%s delivers a message with a value kept in the protocol: %v", eng.FnName(f), v)
			}
		})
	}
	r.need(parsers >= 2, "C15", "the parsers of the protocols")
}

// freshRoot explores f; it returns its callers when f decodes into what it was given.
func (w *World) freshRoot(r *Report, f *ssa.Function, in map[*ssa.Function]bool, seen map[ssa.Instruction]bool) []*ssa.Function {
	var up []*ssa.Function
	cl := &client{}
	cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		if c.Name == "reflect.New" {
			return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Do: func(st *eng.State, rs []*eng.Term) {
				st.Del(fmt.Sprintf("used:%d", rs[0].ID))
			}}}}
		}
		k := decodeTarget(c.Name, c.Invoke)
		if k < 0 {
			if c.Fn != nil && w.Home(c.Fn) && !in[c.Fn] {
				return opaque
			}
			return eng.Decision{}
		}
		t := c.Arg(k)
		if t == nil {
			return eng.Decision{}
		}
		for t.Kind == eng.KIface {
			t = t.Args[0]
		}
		t = eng.StripConv(t)
		first := !seen[c.Instr]
		seen[c.Instr] = true
		if first {
			r.inst("decode-target", 1)
			r.sample("decode target of %s in %s", c.Name, eng.FnName(c.In))
		}
		bad := func(why string) {
			st.Report("stale-target", eng.FnName(c.In)+":"+c.Name, c.Pos(), "%s decodes into %s", eng.FnName(c.In), why)
		}
		var made *eng.Term
		t.Any(func(x *eng.Term) bool {
			if x.Call != nil && x.Call.Name == "reflect.New" {
				made = x
			}
			return made != nil
		})
		base := t
		for base.Kind == eng.KFieldA || base.Kind == eng.KIndexA {
			base = base.Args[0]
		}
		switch {
		case made != nil:
			key := fmt.Sprintf("used:%d", made.ID)
			if st.GetInt(key) == 1 {
				bad("a value that was decoded into before")
			}
			st.SetInt(key, 1)
		case t.Kind == eng.KObj || base.Kind == eng.KObj:
			for _, v := range st.PeekDeep(t) {
				if v.Kind != eng.KConst && !eng.IsZero(v) && !constStruct(v) {
					bad(fmt.Sprintf("a variable that may hold an earlier message (%v)", v))
				}
			}
		case t.Any(func(x *eng.Term) bool { return x.Kind == eng.KParam }) && !t.Any(func(x *eng.Term) bool { return x.Op == "load" }):
			if hasSuffixAny(eng.FnName(outer(c.In)), ".UnmarshalArgument") && c.In == f {
				break // the callers of UnmarshalArgument are analysed themselves
			}
			if cs, dyn := w.callersOf(f); dyn || len(cs) == 0 {
				bad("what it was given by unknown callers")
			} else {
				up = append(up, cs...)
			}
		default:
			bad(fmt.Sprintf("%v, which may hold an earlier message", t))
		}
		return eng.Decision{}
	}
	e := w.engine(cl)
	e.Run(f, nil, nil)
	r.absorb(e)
	return up
}

func constStruct(t *eng.Term) bool {
	if t.Kind != eng.KStruct {
		return false
	}
	for _, a := range t.Args {
		if a.Kind != eng.KConst && !eng.IsZero(a) && !constStruct(a) {
			return false
		}
	}
	return true
}

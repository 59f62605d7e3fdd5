package main

import (
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

func init() {
	register("C30", checkC30)
}

// handshakeRoots: the functions that shake hands and create the message loop afterwards.
func (w *World) handshakeRoots(r *Report, prop string) []*ssa.Function {
	nhc := w.Func("newHubConnection")
	if !r.need(nhc != nil, prop, "newHubConnection") {
		return nil
	}
	reads := w.reachCalls(func(n string, c ssa.CallInstruction) bool {
		return c.Common().IsInvoke() && strings.HasSuffix(n, ".Read") && isReadSig(c.Common().Signature())
	})
	var roots []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var up func(f *ssa.Function)
	up = func(f *ssa.Function) {
		f = outer(f)
		if seen[f] {
			return
		}
		seen[f] = true
		if f != nhc && reads[f] {
			roots = append(roots, f)
			return
		}
		cs, _ := w.callersOf(f)
		for _, c := range cs {
			if c.Synthetic == "" {
				up(c)
			}
		}
	}
	up(nhc)
	r.need(len(roots) >= 2, prop, "the functions of server and client that shake hands and then create the message loop")
	return roots
}

func protoMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && typeName(m.Elem()) == "hubProtocol"
}

// tagOf is the name of a struct field in json.
func tagOf(fv *types.Var, st *types.Struct) string {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i) == fv {
			t := reflect.StructTag(st.Tag(i)).Get("json")
			if k := strings.IndexByte(t, ','); k >= 0 {
				t = t[:k]
			}
			if t == "" {
				t = fv.Name()
			}
			return t
		}
	}
	return ""
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// decodedField: t is the field of that name of the struct decoded to dst.
func decodedField(t, dst *eng.Term, name string) bool {
	t = core(t)
	if dst == nil || !t.Contains(dst) {
		return false
	}
	fv := eng.FieldVar(t)
	if fv == nil && t.Kind == eng.KApp && t.Op == "load" {
		fv = eng.FieldVar(t.Args[0])
	}
	s := structOf(dst.Ty)
	return fv != nil && s != nil && tagOf(fv, s) == name
}

// protocols knows the protocols of the package: the type for each name.
func (w *World) protocols() map[string]types.Type {
	out := map[string]types.Type{}
	for _, t := range w.implsOf("hubProtocol") {
		m := w.Prog.LookupMethod(t, w.Types, "WriteMessage")
		if m == nil || len(m.Blocks) == 0 || m.Synthetic != "" {
			continue
		}
		js, mp := false, false
		for g := range w.staticReach(m) {
			for _, c := range callsIn(g) {
				n := calleeName(c.Common())
				js = js || n == "encoding/json.Marshal" || strings.HasSuffix(n, "json.Encoder).Encode")
				mp = mp || strings.Contains(n, "vmihailenco/msgpack")
			}
		}
		switch {
		case mp:
			out["messagepack"] = t
		case js:
			out["json"] = t
		}
	}
	return out
}

// handshake explores one party from the connection to the creation of the message loop.
type handshake struct {
	w      *World
	r      *Report
	prop   string
	root   *ssa.Function
	nhc    *ssa.Function
	tmo    *types.Var
	protos map[string]types.Type
	loops  int
	waits  int
	reject int
}

// idTerm: t is the name of the protocol of the connection: what the request says, or what this party
// has written into its request.
func (h *handshake) idTerm(st *eng.State, t *eng.Term) bool {
	if decodedField(t, st.Get("dst"), "protocol") {
		return true
	}
	c := core(t)
	if c.Kind == eng.KApp && c.Op == "load" {
		if fv := eng.FieldVar(c.Args[0]); fv != nil && st.GetInt("wrote:"+fv.Name()) == 1 {
			return true
		}
	}
	return false
}

// timed: the select has a case that ends it after the handshake timeout.
func (h *handshake) timed(t *eng.Term) bool {
	ok := false
	t.Walk(func(x *eng.Term) bool {
		if x.Call == nil {
			return true
		}
		switch x.Call.Name {
		case "context.WithTimeout", "time.After", "time.NewTimer":
			d := x.Call.Args[len(x.Call.Args)-1]
			d.Walk(func(y *eng.Term) bool {
				if fv := eng.FieldVar(y); fv != nil && fv == h.tmo {
					ok = true
				}
				return true
			})
		}
		return true
	})
	return ok
}

func (h *handshake) wrote(st *eng.State, c *eng.CallInfo, data []*eng.Term) {
	see := func(t *eng.Term) {
		t.Walk(func(x *eng.Term) bool {
			if s, ok := eng.StrConst(x); ok && strings.Contains(s, "\"error\"") {
				st.SetInt("answered", 1)
				if core(t) == x && !strings.Contains(s, "%") {
					st.SetInt("encoded", 1)
				}
			}
			if x.Call != nil && x.Call.Name == "encoding/json.Marshal" {
				for _, y := range append(st.PeekDeep(core(x.Call.Args[0])), x.Call.Args[0]) {
					if s := structOf(eng.StripIface(y).Ty); s != nil && s.NumFields() > 0 && tagOf(s.Field(0), s) == "error" {
						st.SetInt("answered", 1)
						st.SetInt("encoded", 1)
					}
				}
			}
			if x.Kind == eng.KApp && x.Op == "load" && x.Args[0].Kind == eng.KFieldA {
				if fv := eng.FieldVar(x.Args[0]); fv != nil && fv.Type().String() == "string" {
					st.SetInt("wrote:"+fv.Name(), 1)
				}
			}
			return true
		})
	}
	for _, d := range data {
		see(d)
		d.Walk(func(x *eng.Term) bool {
			if x.Kind == eng.KApp && x.Op == "slice" || x.Kind == eng.KObj {
				for _, y := range st.SliceElems(x) {
					see(y)
				}
				for _, y := range st.PeekDeep(x) {
					see(y)
				}
			}
			return true
		})
	}
}

func (h *handshake) report(st *eng.State, rule string, _ *eng.CallInfo, pos token.Pos, format string, a ...any) {
	st.Report(rule, eng.FnName(h.root), pos, format, a...)
}

func (h *handshake) call(st *eng.State, c *eng.CallInfo) eng.Decision {
	w := h.w
	if isLogCall(c.Name) {
		return eng.Decision{}
	}
	if c.Fn == h.nhc {
		h.loops++
		h.r.inst("loop-created", 1)
		if h.prop == "C30" {
			if st.GetInt("parsed") != 1 {
				h.report(st, "no-handshake", c, c.Pos(), "%s creates the message loop without a parsed handshake of the other side", eng.FnName(h.root))
			}
			if d := st.Get("dst"); d != nil {
				if s := structOf(d.Ty); s != nil && s.NumFields() > 0 && tagOf(s.Field(0), s) == "error" && st.GetInt("noerr") != 1 {
					h.report(st, "handshake-error-ignored", c, c.Pos(), "%s creates the message loop although the response may carry an error", eng.FnName(h.root))
				}
			}
			if st.GetInt("gaveup") == 1 || st.GetInt("iofailed") == 1 {
				h.report(st, "handshake-failure-ignored", c, c.Pos(), "%s creates the message loop although the handshake could not be sent or received in time", eng.FnName(h.root))
			}
			if st.GetInt("unsupported") == 1 {
				h.report(st, "unsupported-accepted", c, c.Pos(), "%s creates the message loop for a protocol that is not supported", eng.FnName(h.root))
			}
		}
		if h.prop == "C38" {
			h.protocol(st, c)
		}
		if h.prop == "C14" {
			if rd := st.Get("rawconn"); rd != nil {
				for i, a := range c.Args {
					if typeName(h.nhc.Params[i].Type()) == "Connection" && core(a) == rd {
						h.report(st, "handshake-rest-lost", c, c.Pos(), "%s does not use the connection the handshake was read from, which has the bytes that were received with it", eng.FnName(h.root))
					}
				}
			}
		}
		st.Kill()
		return opaque
	}
	if c.Fn != nil && w.Home(c.Fn) && (formatter(c.Fn) || c.Fn.Name() == "prefixLoggers" || c.Fn.Name() == "loggers") {
		return opaque
	}
	isConn := func(t *eng.Term) bool { return t != nil && typeName(core(t).Ty) == "Connection" }
	switch {
	case c.Invoke && (strings.HasSuffix(c.Name, ").Read") || strings.HasSuffix(c.Name, ").Write")) && isReadSig(c.Sig):
		h.r.inst("handshake-io", 1)
		if st.GoDepth() == 0 {
			if h.prop == "C30" {
				h.report(st, "untimed-wait", c, c.Pos(), "%s reads or writes the handshake without the handshake timeout", eng.FnName(h.root))
			}
		} else if strings.HasSuffix(c.Name, ").Read") {
			st.Set("rawconn", core(c.Recv))
		}
		if strings.HasSuffix(c.Name, ").Write") {
			h.wrote(st, c, c.Args)
		}
		return opaque
	case (c.Name == "fmt.Fprintf" || c.Name == "fmt.Fprint" || c.Name == "io.WriteString") && isConn(c.Args[0]):
		h.r.inst("handshake-io", 1)
		if st.GoDepth() == 0 && h.prop == "C30" {
			h.report(st, "untimed-wait", c, c.Pos(), "%s reads or writes the handshake without the handshake timeout", eng.FnName(h.root))
		}
		h.wrote(st, c, c.Args[1:])
		return opaque
	case c.Name == "encoding/json.Unmarshal" || strings.HasSuffix(c.Name, "json.Decoder).Decode"):
		dst := core(c.Args[len(c.Args)-1])
		return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Results: []*eng.Term{st.E.Nil()}, Do: func(st *eng.State, rs []*eng.Term) {
			st.SetInt("parsed", 1)
			st.Set("dst", dst)
		}}, {Do: func(st *eng.State, rs []*eng.Term) {
			st.Assume(st.E.Eq(rs[0], st.E.Nil()), false)
		}}}}
	case strings.HasSuffix(c.Name, "(context.Context).Err"):
		if st.GetInt(sk("done", core(c.Recv))) == 1 {
			return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Do: func(st *eng.State, rs []*eng.Term) {
				st.Assume(st.E.Eq(rs[0], st.E.Nil()), false)
			}}}}
		}
	}
	return eng.Decision{}
}

func (h *handshake) event(st *eng.State, ev *eng.Event) {
	done := func(ch *eng.Term) {
		if ch != nil && ch.Call != nil && ch.Call.Name == "(context.Context).Done" {
			st.SetInt(sk("done", core(ch.Call.Recv)), 1)
			st.SetInt("gaveup", 1)
		}
	}
	switch ev.Kind {
	case eng.EvSelect:
		if ev.Case >= 0 && ev.Case < len(ev.Vals) {
			done(core(ev.Vals[ev.Case]))
		}
		if st.GoDepth() > 0 || ev.Sel == nil || !ev.Sel.Blocking {
			return
		}
		h.waits++
		h.r.inst("handshake-wait", 1)
		ok := false
		for _, v := range ev.Vals {
			ok = ok || h.timed(v)
		}
		if !ok && h.prop == "C30" {
			h.report(st, "untimed-wait", nil, ev.Instr.Pos(), "%s waits for the handshake without the handshake timeout", eng.FnName(h.root))
		}
	case eng.EvRecv:
		done(core(ev.Addr))
		if st.GoDepth() == 0 && !h.timed(ev.Addr) && h.prop == "C30" {
			h.report(st, "untimed-wait", nil, ev.Instr.Pos(), "%s waits for the handshake without the handshake timeout", eng.FnName(h.root))
		}
	case eng.EvTypeCase:
		x := core(ev.Addr)
		if !strings.HasPrefix(x.Op, "lookup") || len(x.Args) < 2 || !protoMap(core(x.Args[0]).Ty) || !h.idTerm(st, x.Args[1]) {
			return
		}
		for n, t := range h.protos {
			same := types.Identical(ev.Ty, t)
			if same == ev.Truth && (same || len(h.protos) == 2) {
				st.SetInt("typed:"+n, 1)
			} else if !same && !ev.Truth {
				st.SetInt("typed:"+n, 1)
			}
		}
	case eng.EvBranch:
		t, truth := ev.Cond, ev.Truth
		for t.Kind == eng.KApp && t.Op == "not" {
			t, truth = t.Args[0], !truth
		}
		if strings.HasPrefix(t.Op, "lookupok") && protoMap(core(t.Args[0]).Ty) && !truth {
			st.SetInt("unsupported", 1)
			h.reject++
		}
		if t.Op == "eq" && len(t.Args) == 2 {
			for _, x := range t.Args {
				if x = core(x); x.Call != nil && x.Call.Name == "(context.Context).Err" && !truth && (eng.IsNil(t.Args[0]) || eng.IsNil(t.Args[1])) {
					st.SetInt(sk("done", core(x.Call.Recv)), 1)
					st.SetInt("gaveup", 1)
				}
			}
			for i, x := range t.Args {
				if !truth && eng.IsNil(t.Args[1-i]) && isErrorType(x.Ty) && x.Any(func(y *eng.Term) bool { return strings.HasPrefix(y.Op, "recv") }) {
					st.SetInt("iofailed", 1)
				}
			}
			for i := 0; i < 2; i++ {
				s, ok := eng.StrConst(t.Args[i])
				if !ok {
					continue
				}
				x := t.Args[1-i]
				if s == "" && decodedField(x, st.Get("dst"), "error") && truth {
					st.SetInt("noerr", 1)
				}
				if h.idTerm(st, x) {
					if truth {
						st.Set("named", st.E.Str(s))
					} else {
						st.SetInt("not:"+s, 1)
						none := decodedField(x, st.Get("dst"), "protocol")
						for n := range h.protos {
							none = none && st.GetInt("not:"+n) == 1
						}
						if none && st.GetInt("unsupported") == 0 {
							st.SetInt("unsupported", 1)
							h.reject++
						}
					}
				}
			}
		}
	case eng.EvEnd:
		if h.prop != "C30" {
			return
		}
		h.r.inst("handshake-failed", 1)
		if st.GetInt("unsupported") == 1 && st.GetInt("answered") != 1 && st.GetInt("gaveup") != 1 {
			h.report(st, "unsupported-unanswered", nil, ev.Instr.Pos(), "%s ends for an unsupported protocol without answering with an error", eng.FnName(h.root))
		}
		if st.GetInt("unsupported") == 1 && st.GetInt("answered") == 1 && st.GetInt("encoded") != 1 {
			h.report(st, "answer-not-json", nil, ev.Instr.Pos(), "%s answers an unsupported protocol with text that is not encoded as json", eng.FnName(h.root))
		}
		rs := h.root.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			if isErrorType(rs.At(i).Type()) {
				if n, known := isNilTerm(st, ev.Vals[i]); !known || n {
					h.report(st, "handshake-failure-hidden", nil, ev.Instr.Pos(), "%s ends without a message loop and may return no error", eng.FnName(h.root))
				}
			}
		}
	}
}

// protocol checks which protocol the message loop gets (C38).
func (h *handshake) protocol(st *eng.State, c *eng.CallInfo) {
	var p *eng.Term
	for i, a := range c.Args {
		if typeName(h.nhc.Params[i].Type()) == "hubProtocol" {
			p = core(a)
		}
	}
	if p == nil {
		return
	}
	fresh := p.Kind == eng.KObj
	var look, obj *eng.Term
	p.Walk(func(x *eng.Term) bool {
		if x.Call != nil && x.Call.Name == "reflect.New" && look == nil && obj == nil {
			fresh = true
		}
		if strings.HasPrefix(x.Op, "lookup") && len(x.Args) > 1 && protoMap(core(x.Args[0]).Ty) {
			if look == nil {
				look = x
			}
			return false
		}
		if x.Kind == eng.KObj && obj == nil {
			for _, t := range h.protos {
				if types.Identical(x.Ty, t) || types.Identical(types.NewPointer(x.Ty), t) {
					obj = x
				}
			}
		}
		return true
	})
	if !fresh {
		h.report(st, "protocol-shared", c, c.Pos(), "%s uses a protocol instance that is shared with other connections", eng.FnName(h.root))
	}
	switch {
	case look != nil:
		h.r.inst("protocol-by-name", 1)
		if !h.idTerm(st, look.Args[1]) {
			h.report(st, "protocol-mismatch", c, c.Pos(), "%s uses another protocol than the one named in the handshake", eng.FnName(h.root))
		}
	case obj != nil:
		h.r.inst("protocol-by-type", 1)
		name, _ := eng.StrConst(orNil(st.Get("named"), st.E))
		t := h.protos[name]
		for n, x := range h.protos {
			if st.GetInt("typed:"+n) == 1 {
				t = x
			}
		}
		none := true // the format is neither of the known ones
		for n := range h.protos {
			none = none && st.GetInt("not:"+n) == 1
		}
		if none {
			break
		}
		if t == nil || !(types.Identical(obj.Ty, t) || types.Identical(types.NewPointer(obj.Ty), t)) {
			h.report(st, "protocol-mismatch", c, c.Pos(), "%s uses another protocol than the one named in the handshake", eng.FnName(h.root))
		}
	default:
		h.r.inst("protocol-none", 1)
		for n := range h.protos {
			if st.GetInt("not:"+n) != 1 {
				h.report(st, "protocol-mismatch", c, c.Pos(), "%s may use no protocol although the handshake names %s", eng.FnName(h.root), n)
			}
		}
	}
}

func orNil(t *eng.Term, e *eng.Engine) *eng.Term {
	if t == nil {
		return e.Nil()
	}
	return t
}

func (w *World) runHandshakes(r *Report, prop string) {
	roots := w.handshakeRoots(r, prop)
	tmo := w.optionField(r, prop, "HandshakeTimeout")
	protos := w.protocols()
	if !r.need(len(protos) == 2, prop, "the protocols json and messagepack") {
		return
	}
	waits, reject := 0, 0
	for _, f := range roots {
		h := &handshake{w: w, r: r, prop: prop, root: f, nhc: w.Func("newHubConnection"), tmo: tmo, protos: protos}
		e := w.engine(&client{call: h.call, event: h.event})
		e.Run(f, nil, nil)
		r.absorb(e)
		r.need(h.loops > 0, prop, "the creation of the message loop in "+eng.FnName(f))
		r.sample("handshake of %s", eng.FnName(f))
		waits += h.waits
		reject += h.reject
	}
	if prop == "C30" {
		r.need(waits >= 2, prop, "the waits for the handshake")
		r.need(reject > 0, prop, "the refusal of unsupported protocols")
	}
}

func checkC30(w *World, r *Report) {
	r.rule("the message loop of a connection is created only after the handshake of the other side was parsed without error, carries no error and names a supported protocol")
	r.rule("each wait for the handshake ends with the handshake timeout; each handshake that fails gives an error, for an unsupported protocol also to the peer")
	w.runHandshakes(r, "C30")
}

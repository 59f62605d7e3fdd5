package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

func init() { register("C38", checkC38) }

func checkC38(w *World, r *Report) {
	r.rule("the message loop gets a fresh instance of the protocol named in the handshake, on both sides; the names json and messagepack stand for the protocols that encode these")
	r.rule("json is sent as text and messagepack as binary: transferMode of the protocols, SetTransferMode for every new hub connection, the message type of websocket writes, the transfer formats offered for a transport")
	w.runHandshakes(r, "C38")
	protos := w.protocols()
	w.checkProtocolMap(r, protos)
	w.checkTransferMode(r, protos)
	w.checkConnectionMode(r)
	w.checkOfferedFormats(r)
	w.checkFormatOption(r, protos)
}

// checkProtocolMap: every map of protocols by name is filled accordingly.
func (w *World) checkProtocolMap(r *Report, protos map[string]types.Type) {
	n := 0
	for _, f := range w.allFuncs() {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				mu, ok := i.(*ssa.MapUpdate)
				if !ok || !protoMap(mu.Map.Type()) {
					continue
				}
				n++
				r.inst("protocol-name", 1)
				k, ok := mu.Key.(*ssa.Const)
				mi, ok2 := mu.Value.(*ssa.MakeInterface)
				if !ok || !ok2 || k.Value == nil || k.Value.Kind() != constant.String || protos[constant.StringVal(k.Value)] == nil || !types.Identical(protos[constant.StringVal(k.Value)], mi.X.Type()) {
					r.find("protocol-name", "protocol map", mu.Pos(), "the name %v stands for a protocol that does not encode it", mu.Key)
				}
			}
		}
	}
	r.sample("%d entries of protocol maps", n)
}

// allFuncs: all functions of the package, the initialiser included.
func (w *World) allFuncs() []*ssa.Function {
	out := append([]*ssa.Function(nil), w.Sort...)
	for _, f := range out {
		if f.Pkg != nil {
			if in := f.Pkg.Func("init"); in != nil {
				has := false
				for _, g := range out {
					has = has || g == in
				}
				if !has {
					out = append(out, in)
				}
			}
			break
		}
	}
	return out
}

func (w *World) checkTransferMode(r *Report, protos map[string]types.Type) {
	text, ok1 := w.constVal("TextTransferMode")
	bin, ok2 := w.constVal("BinaryTransferMode")
	if !r.need(ok1 && ok2, "C38", "the transfer modes") {
		return
	}
	for name, t := range protos {
		m := w.Prog.LookupMethod(t, w.Types, "transferMode")
		if !r.need(m != nil && len(m.Blocks) > 0, "C38", "transferMode of "+name) {
			continue
		}
		want := text
		if name == "messagepack" {
			want = bin
		}
		e := w.engine(&client{event: func(st *eng.State, ev *eng.Event) {
			if ev.Kind == eng.EvEnd {
				r.inst("transfer-mode", 1)
				if k, ok := eng.IntConst(core(ev.Vals[0])); !ok || k != want {
					st.Report("transfer-mode", eng.FnName(m), m.Pos(), "%s does not give the mode that %s needs", eng.FnName(m), name)
				}
			}
		}})
		e.Run(m, nil, nil)
		r.absorb(e)
	}
}

// checkConnectionMode: a new hub connection sets the mode of its connection, and connections keep to it.
func (w *World) checkConnectionMode(r *Report) {
	nhc := w.Func("newHubConnection")
	if !r.need(nhc != nil, "C38", "newHubConnection") {
		return
	}
	it, ok := w.Types.Scope().Lookup("ConnectionWithTransferMode").(*types.TypeName)
	if !r.need(ok, "C38", "ConnectionWithTransferMode") {
		return
	}
	isConn := func(t *eng.Term) bool { t = core(t); return t.Kind == eng.KParam && typeName(t.Ty) == "Connection" }
	e := w.engine(&client{call: func(st *eng.State, c *eng.CallInfo) eng.Decision {
		if c.Invoke && strings.HasSuffix(c.Name, ").SetTransferMode") {
			r.inst("set-transfer-mode", 1)
			a := core(c.Args[0])
			ok := a.Call != nil && strings.HasSuffix(a.Call.Name, ").transferMode") && a.Call.Recv != nil && core(a.Call.Recv).Kind == eng.KParam
			base := core(c.Recv)
			for base.Kind == eng.KApp && strings.HasPrefix(base.Op, "assert:") {
				base = core(base.Args[0])
			}
			if !ok || !isConn(base) {
				st.Report("transfer-mode", "newHubConnection", c.Pos(), "newHubConnection sets another mode than its protocol needs")
			}
			st.SetInt("set", 1)
			return opaque
		}
		return eng.Decision{}
	}, event: func(st *eng.State, ev *eng.Event) {
		switch ev.Kind {
		case eng.EvTypeCase:
			if types.Identical(ev.Ty, it.Type()) && isConn(ev.Addr) && !ev.Truth {
				st.SetInt("set", 1)
			}
		case eng.EvEnd:
			if st.GetInt("set") != 1 {
				st.Report("transfer-mode", "newHubConnection", nhc.Pos(), "newHubConnection does not set the transfer mode of its connection")
			}
		}
	}})
	e.Run(nhc, nil, nil)
	r.absorb(e)
	// the setters
	for _, t := range w.implsOf("ConnectionWithTransferMode") {
		m := w.Prog.LookupMethod(t, w.Types, "SetTransferMode")
		g := w.Prog.LookupMethod(t, w.Types, "TransferMode")
		if m == nil || g == nil || len(m.Blocks) == 0 || m.Synthetic != "" || g.Synthetic != "" {
			continue
		}
		r.inst("mode-setter", 1)
		var fv *types.Var
		e := w.engine(&client{call: func(st *eng.State, c *eng.CallInfo) eng.Decision {
			if c.Invoke && strings.HasSuffix(c.Name, ").SetTransferMode") && core(c.Args[0]).Kind == eng.KParam {
				st.SetInt("kept", 1)
				return opaque
			}
			return eng.Decision{}
		}, event: func(st *eng.State, ev *eng.Event) {
			switch ev.Kind {
			case eng.EvStore:
				if f := eng.FieldVar(ev.Addr); f != nil && typeName(f.Type()) == "TransferMode" {
					st.Del("kept")
					if core(ev.Val) == core(st.E.Param(m.Params[1].Name(), m.Params[1].Type())) {
						fv = f
						st.SetInt("kept", 1)
					}
				}
			case eng.EvTypeCase:
				if !ev.Truth {
					st.SetInt("kept", 1) // nothing to forward to
				}
			case eng.EvEnd:
				if st.GetInt("kept") != 1 {
					st.Report("transfer-mode", eng.FnName(m), m.Pos(), "%s does not keep the mode", eng.FnName(m))
				}
			}
		}})
		e.Run(m, nil, nil)
		r.absorb(e)
		if fv == nil {
			continue
		}
		w.checkWriteMode(r, t, fv)
	}
	r.need(r.Instances["written-as"] > 0, "C38", "the writes of a websocket connection")
}

// checkWriteMode: writes to a websocket have the type for the mode of the connection in fv.
func (w *World) checkWriteMode(r *Report, t types.Type, fv *types.Var) {
	m := w.Prog.LookupMethod(t, w.Types, "Write")
	if m == nil || len(m.Blocks) == 0 {
		return
	}
	bin, _ := w.constVal("BinaryTransferMode")
	text, _ := w.constVal("TextTransferMode")
	e := w.engine(&client{call: func(st *eng.State, c *eng.CallInfo) eng.Decision {
		if !strings.HasSuffix(c.Name, "websocket.Conn).Write") && !strings.HasSuffix(c.Name, "websocket.Conn).Writer") {
			return eng.Decision{}
		}
		r.inst("written-as", 1)
		var k int64 = -1
		for _, a := range c.UserArgs() {
			if typeName(a.Ty) == "MessageType" {
				k, _ = eng.IntConst(core(a))
			}
		}
		if k < 0 && len(c.UserArgs()) > 1 {
			if v, ok := eng.IntConst(core(c.UserArgs()[1])); ok {
				k = v
			}
		}
		isBin := st.GetInt("bin")
		switch {
		case k == 2 && isBin == 1, k == 1 && isBin == 2:
		case k == 1 && isBin == 0, k == 2 && isBin == 0:
			st.Report("message-type", eng.FnName(m), c.Pos(), "%s writes messages without regard to the transfer mode of the connection", eng.FnName(m))
		default:
			st.Report("message-type", eng.FnName(m), c.Pos(), "%s writes messages of the wrong type for the transfer mode", eng.FnName(m))
		}
		return opaque
	}, event: func(st *eng.State, ev *eng.Event) {
		if ev.Kind != eng.EvBranch {
			return
		}
		t, truth := ev.Cond, ev.Truth
		for t.Kind == eng.KApp && t.Op == "not" {
			t, truth = t.Args[0], !truth
		}
		if t.Op != "eq" {
			return
		}
		for i := 0; i < 2; i++ {
			k, ok := eng.IntConst(t.Args[i])
			x := core(t.Args[1-i])
			if !ok || x.Kind != eng.KApp || x.Op != "load" || eng.FieldVar(x.Args[0]) != fv {
				continue
			}
			switch {
			case k == bin && truth:
				st.SetInt("bin", 1)
			case k == bin, k == text && truth:
				st.SetInt("bin", 2)
			case k == text:
				st.SetInt("bin", 1)
			}
		}
	}})
	e.Run(m, nil, nil)
	r.absorb(e)
}

// globalName: t is the value of the global of that name, or its constant.
func globalName(t *eng.Term) string {
	t = core(t)
	if t.Kind == eng.KApp && t.Op == "load" && t.Args[0].Kind == eng.KGlobal {
		op := t.Args[0].Op
		return op[strings.LastIndexByte(op, '.')+1:]
	}
	if s, ok := eng.StrConst(t); ok {
		return s
	}
	return ""
}

// checkOfferedFormats: server sent events can transport text only, websockets both.
func (w *World) checkOfferedFormats(r *Report) {
	h := w.httpWorld(r, "C38")
	if h == nil {
		return
	}
	n := 0
	text := func(s string) bool { return s == "TransferFormatText" || s == "Text" }
	bin := func(s string) bool { return s == "TransferFormatBinary" || s == "Binary" }
	e := w.engine(&client{event: func(st *eng.State, ev *eng.Event) {
		if ev.Kind != eng.EvAppend {
			return
		}
		for _, el := range st.SliceElems(ev.Val) {
			if typeName(el.Ty) != "availableTransport" {
				continue
			}
			s := structOf(el.Ty)
			var tr string
			var formats []*eng.Term
			known := false
			for i := 0; i < s.NumFields(); i++ {
				v := st.E.Field(el, i, s.Field(i).Type())
				if s.Field(i).Type().String() == "string" {
					if tr = globalName(v); tr == "" {
						// the variable is known to be equal to one of the transports
						st.Facts(func(t *eng.Term, truth bool) {
							if truth && t.Kind == eng.KApp && t.Op == "eq" {
								for i, a := range t.Args {
									if core(a) == core(v) && globalName(t.Args[1-i]) != "" {
										tr = globalName(t.Args[1-i])
									}
								}
							}
						})
					}
				} else {
					formats = st.SliceElems(v)
					known = formats != nil
				}
			}
			n++
			r.inst("offered-transport", 1)
			pos := ev.Instr.Pos()
			if !known || len(formats) == 0 {
				st.Report("offered-formats", "negotiate", pos, "the transfer formats offered for %s are not known", tr)
				continue
			}
			for _, f := range formats {
				g := globalName(f)
				switch {
				case text(g):
				case bin(g) && (tr == "TransportWebSockets" || tr == "WebSockets"):
				default:
					st.Report("offered-formats", "negotiate", pos, "the transfer format %s is offered for %s, which does not support it", g, tr)
				}
			}
		}
	}})
	e.Run(h.negotiate, nil, nil)
	r.absorb(e)
	r.need(n > 0, "C38", "the transports offered in a negotiation")
}

// checkFormatOption: the option TransferFormat and the default choose names of protocols that fit.
func (w *World) checkFormatOption(r *Report, protos map[string]types.Type) {
	fn := w.Func("TransferFormat")
	if !r.need(fn != nil, "C38", "the option TransferFormat") {
		return
	}
	var fv *types.Var
	n := 0
	e := w.runOption(fn, &client{event: func(st *eng.State, ev *eng.Event) {
		switch ev.Kind {
		case eng.EvBranch:
			t, truth := ev.Cond, ev.Truth
			for t.Kind == eng.KApp && t.Op == "not" {
				t, truth = t.Args[0], !truth
			}
			if t.Op == "eq" && truth {
				for i := 0; i < 2; i++ {
					if core(t.Args[i]).Kind == eng.KParam {
						st.Set("fmt", st.E.Str(globalName(t.Args[1-i])))
					}
				}
			}
		case eng.EvStore:
			s, ok := eng.StrConst(core(ev.Val))
			if ev.Addr.Kind != eng.KFieldA || !ok {
				return
			}
			n++
			fv = eng.FieldVar(ev.Addr)
			r.inst("format-option", 1)
			f, _ := eng.StrConst(orNil(st.Get("fmt"), st.E))
			want := ""
			switch f {
			case "Text", "TransferFormatText":
				want = "json"
			case "Binary", "TransferFormatBinary":
				want = "messagepack"
			}
			if s != want {
				st.Report("format-option", "TransferFormat", ev.Instr.Pos(), "the option TransferFormat chooses the protocol %q for the format %q", s, f)
			}
		}
	}}, nil)
	r.absorb(e)
	if !r.need(n >= 2 && fv != nil, "C38", "the protocols the option TransferFormat chooses") {
		return
	}
	// the default
	d := 0
	for _, f := range w.Sort {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || fieldVarOfSSA(fa) != fv || outer(f) == fn {
					continue
				}
				d++
				r.inst("format-default", 1)
				k, ok := s.Val.(*ssa.Const)
				if !ok || k.Value == nil || protos[constant.StringVal(k.Value)] == nil {
					r.find("format-default", eng.FnName(f), s.Pos(), "%s sets a protocol that does not exist", eng.FnName(f))
				}
			}
		}
	}
	r.need(d > 0, "C38", "the default protocol of the client")
	_ = token.NoPos
}

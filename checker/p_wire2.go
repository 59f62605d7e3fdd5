package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

// sent: what a sending method of a hub connection has to put into its message: the type number and
// the field (by its name on the wire) for each of its arguments.
type sent struct {
	typ  int64
	tags []string
}

var sends = map[string]sent{
	"SendInvocation":              {1, []string{"invocationId", "target", "arguments"}},
	"SendStreamInvocation":        {4, []string{"invocationId", "target", "arguments"}},
	"SendInvocationWithStreamIds": {1, []string{"invocationId", "target", "arguments", "streamIds"}},
	"StreamItem":                  {2, []string{"invocationId", "item"}},
	"Completion":                  {3, []string{"invocationId", "result", "error"}},
	"Close":                       {7, []string{"error", "allowReconnect"}},
	"Ping":                        {6, nil},
}

// checkHubConnectionWrites explores the sending methods of hub connections.
func (w *World) checkHubConnectionWrites(r *Report, prop string) {
	impls := w.implsOf("HubConnection")
	if !r.need(len(impls) > 0, prop, "an implementation of HubConnection") {
		return
	}
	for _, t := range impls {
		for name, s := range sends {
			fn := w.Prog.LookupMethod(t, w.Types, name)
			if !r.need(fn != nil && len(fn.Blocks) > 0 && len(fn.Params) == 1+len(s.tags), prop, "the method "+name+" of hub connections") {
				continue
			}
			if fn.Synthetic != "" {
				continue
			}
			w.checkSend(r, prop, fn, s)
		}
	}
}

func (w *World) checkSend(r *Report, prop string, fn *ssa.Function, s sent) {
	name := eng.FnName(fn)
	writes := 0
	cl := &client{}
	cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		if isLogCall(c.Name) || c.Fn != nil && w.Home(c.Fn) && formatter(c.Fn) {
			return opaque
		}
		wrote := func() int64 {
			n := st.GetInt("writes")
			st.SetInt("writes", n+1)
			if n > 0 && prop == "C13" {
				st.Report("message-written-twice", name, c.Pos(), "%s may write its message more than once", name)
			}
			return n
		}
		if !c.Invoke || !strings.HasSuffix(c.Name, ".WriteMessage") || len(c.Args) != 2 {
			if prop == "C13" && (c.Name == "(bytes.Buffer).WriteTo" && isConnection(c.UserArgs()[0]) || c.Invoke && strings.HasSuffix(c.Name, ".Write") && isConnection(c.Recv)) {
				r.inst("message-write", 1)
				wrote()
			}
			return eng.Decision{}
		}
		writes++
		if wr := core(c.Args[1]); wr.Kind == eng.KObj && containerType(wr.Ty) != "" && prop == "C13" {
			return opaque // written to a buffer first
		}
		wrote()
		if prop == "C13" {
			r.inst("message-write", 1)
			if !isConnection(c.Args[1]) {
				st.Report("not-to-connection", name, c.Pos(), "%s does not give its connection to the protocol as the writer", name)
			}
			return opaque
		}
		v := core(c.Args[0])
		sv := structOf(v.Ty)
		want := w.wireOf(s.typ)
		if sv == nil || typeName(v.Ty) != want {
			st.Report("wrong-message", name, c.Pos(), "%s sends a %s, not a %s", name, typeName(v.Ty), want)
			return opaque
		}
		r.inst("sent-message", 1)
		for i := 0; i < sv.NumFields(); i++ {
			tag := tagOf(sv.Field(i), sv)
			ft := st.E.Field(v, i, sv.Field(i).Type())
			if tag == "type" {
				if k, ok := eng.IntConst(core(ft)); !ok || k != s.typ {
					st.Report("wrong-type-number", name, c.Pos(), "%s sends a message of another type than %d", name, s.typ)
				}
				continue
			}
			var p *eng.Term
			for k, x := range s.tags {
				if x == tag {
					q := fn.Params[k+1]
					p = st.E.Param(q.Name(), q.Type())
				}
			}
			if p == nil {
				if !zeroTerm(ft) {
					st.Report("wrong-field", name+":"+tag, c.Pos(), "%s sends a message with a %s nobody gave it", name, tag)
				}
				continue
			}
			if core(ft) == p || eng.StripIface(ft) == p {
				continue
			}
			if nl, ok := st.Fact(st.E.Eq(p, st.E.Nil())); ok && nl && isEmptySlice(st, ft) {
				continue
			}
			st.Report("wrong-field", name+":"+tag, c.Pos(), "%s sends a message whose %s is not what it was given", name, tag)
		}
		return opaque
	}
	cl.event = func(st *eng.State, ev *eng.Event) {
		switch {
		case ev.Kind == eng.EvSend:
			st.Set(sk("sent", core(ev.Addr)), ev.Val)
		case ev.Kind == eng.EvRecv || ev.Kind == eng.EvSelect && ev.Case >= 0 && !ev.SendOK:
			if v := st.Get(sk("sent", core(ev.Addr))); v != nil {
				ev.Repl = v
			}
		}
		if prop != "C13" || ev.Kind != eng.EvEnd || len(ev.Vals) == 0 {
			return
		}
		isNil, known := isNilTerm(st, ev.Vals[len(ev.Vals)-1])
		if (!known || isNil) && st.GetInt("writes") == 0 {
			st.Report("message-not-written", name, ev.Instr.Pos(), "%s may return no error although it did not write its message", name)
		}
	}
	e := w.engine(cl)
	e.Run(fn, nil, nil)
	r.absorb(e)
	r.need(writes > 0, prop, "the write of the message by "+name)
}

// isConnection: t is the connection kept in a field.
func isConnection(t *eng.Term) bool {
	t = core(t)
	fv := eng.FieldVar(t)
	if t.Kind == eng.KApp && t.Op == "load" {
		fv = eng.FieldVar(t.Args[0])
	}
	return fv != nil && typeName(fv.Type()) == "Connection"
}

// wireOf is the struct for a type number.
func (w *World) wireOf(n int64) string {
	for tn, ns := range wireTypes {
		for _, k := range ns {
			if k == n {
				return tn
			}
		}
	}
	return ""
}

func zeroTerm(t *eng.Term) bool {
	t = core(t)
	if eng.IsNil(t) || eng.IsZero(t) {
		return true
	}
	if s, ok := eng.StrConst(t); ok {
		return s == ""
	}
	if b, ok := eng.BoolConst(t); ok {
		return !b
	}
	return false
}

// isEmptySlice: t is nil or a new slice without elements.
func isEmptySlice(st *eng.State, t *eng.Term) bool {
	t = core(t)
	if eng.IsNil(t) {
		return true
	}
	if es := st.SliceElems(t); es != nil {
		return len(es) == 0
	}
	n, ok := eng.IntConst(st.E.App("len", types.Typ[types.Int], t))
	return ok && n == 0 || t.Kind == eng.KObj && strings.Contains(t.Op, "make") || t.Any(func(x *eng.Term) bool { return eng.IsZero(x) }) && t.Kind == eng.KApp && t.Op == "slice"
}

// checkTransportWrites explores Write of the connections of the package.
func (w *World) checkTransportWrites(r *Report) {
	n := 0
	for _, t := range w.implsOf("Connection") {
		fn := w.Prog.LookupMethod(t, w.Types, "Write")
		if fn == nil || len(fn.Blocks) == 0 || fn.Synthetic != "" || len(fn.Params) != 2 {
			continue
		}
		if len(fn.Blocks) == 1 && len(callsIn(fn)) == 0 {
			continue // a placeholder that is never written to
		}
		n++
		w.checkTransportWrite(r, fn)
	}
	r.need(n >= 3, "C13", "Write of the connections of the package")
}

// handOver: the call gives bytes to a transport.
func handOver(w *World, c *eng.CallInfo) bool {
	if c.Fn != nil && w.Home(c.Fn) || c.Recv == nil || !c.Invoke && containerType(c.Recv.Ty) != "" {
		return false
	}
	m := c.Name[strings.LastIndexByte(c.Name, '.')+1:]
	switch m {
	case "Write", "WriteString", "ReadFrom":
		return true
	case "Do", "Post", "RoundTrip":
		return c.Sig.Results().Len() == 2 && namedIs(c.Sig.Results().At(0).Type(), "Response")
	}
	return false
}

func (w *World) checkTransportWrite(r *Report, fn *ssa.Function) {
	name := eng.FnName(fn)
	hand := 0
	p := fn.Params[1]
	cl := &client{}
	over := func(st *eng.State, in ssa.Instruction, data *eng.Term) {
		hand++
		k := st.GetInt("hand")
		st.SetInt("hand", k+1)
		r.inst("hand-over", 1)
		if k > 0 {
			st.Report("frame-split", name, in.Pos(), "%s may give what it writes to its transport in more than one piece", name)
		}
		if data == nil {
			return
		}
		pt := st.E.Param(p.Name(), p.Type())
		data.Walk(func(x *eng.Term) bool {
			if x.Kind == eng.KApp && x.Op == "slice" && len(x.Args) == 3 && core(x.Args[0]) == pt {
				if !(x.Args[1].Op == "none" || eng.IsZero(x.Args[1])) || !(x.Args[2].Op == "none" || x.Args[2].Op == "len" && core(x.Args[2].Args[0]) == pt) {
					st.Report("frame-cut", name, in.Pos(), "%s gives only a part of what it writes to its transport", name)
				}
			}
			return true
		})
	}
	cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		if isLogCall(c.Name) {
			return opaque
		}
		if c.Name == "(context.Context).Err" {
			out := []eng.Outcome{{Do: func(st *eng.State, rs []*eng.Term) {
				st.Assume(st.E.Eq(rs[0], st.E.Nil()), false)
				st.SetInt("ended", 1)
			}}}
			if st.GetInt("ended") == 0 {
				out = append(out, eng.Outcome{Do: func(st *eng.State, rs []*eng.Term) { st.Assume(st.E.Eq(rs[0], st.E.Nil()), true) }})
			}
			return eng.Decision{Mode: eng.Outcomes, Outcomes: out}
		}
		if handOver(w, c) {
			var d *eng.Term
			for _, a := range c.UserArgs() {
				if bs, ok := a.Ty.(*types.Slice); ok && types.Identical(bs.Elem(), types.Typ[types.Byte]) {
					d = a
				}
			}
			over(st, c.Instr, d)
			return opaque
		}
		if c.Name == "bytes.NewReader" || c.Name == "bytes.NewBuffer" || c.Name == "net/http.NewRequest" || c.Name == "net/http.NewRequestWithContext" {
			for _, a := range c.Args {
				if a.Any(func(x *eng.Term) bool {
					return x.Kind == eng.KApp && x.Op == "slice" && core(x.Args[0]) == st.E.Param(p.Name(), p.Type())
				}) {
					st.Report("frame-cut", name, c.Pos(), "%s gives only a part of what it writes to its transport", name)
				}
			}
		}
		return eng.Decision{}
	}
	cl.event = func(st *eng.State, ev *eng.Event) {
		switch ev.Kind {
		case eng.EvSend:
			if ev.Val != nil && ev.Val.Ty != nil {
				if bs, ok := ev.Val.Ty.Underlying().(*types.Slice); ok && types.Identical(bs.Elem(), types.Typ[types.Byte]) {
					over(st, ev.Instr, ev.Val)
				}
			}
		case eng.EvSelect:
			if ev.Case >= 0 && ev.Addr.Call != nil && ev.Addr.Call.Name == "(context.Context).Done" {
				st.SetInt("ended", 1)
			}
			if ev.SendOK && ev.Val.Ty != nil {
				if bs, ok := ev.Val.Ty.Underlying().(*types.Slice); ok && types.Identical(bs.Elem(), types.Typ[types.Byte]) {
					over(st, ev.Instr, ev.Val)
				}
			}
		case eng.EvEnd:
			if len(ev.Vals) == 0 {
				return
			}
			isNil, known := isNilTerm(st, ev.Vals[len(ev.Vals)-1])
			if (!known || isNil) && st.GetInt("hand") == 0 {
				st.Report("not-handed-over", name, ev.Instr.Pos(), "%s may return no error although it gave nothing to its transport", name)
			}
		}
	}
	e := w.engine(cl)
	e.Run(fn, nil, nil)
	r.absorb(e)
	r.need(hand > 0, "C13", "what "+name+" gives to its transport")
}

// field of the message struct by its name on the wire.
func (x *encoder) byTag(tag string) string {
	s := x.ty.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if tagOf(s.Field(i), s) == tag {
			return s.Field(i).Name()
		}
	}
	return ""
}

// grammar compares an encoded message with the specification. It returns "" when it conforms.
func (x *encoder) grammar(p encPath, num int64) string {
	var items []wireOp
	for i := 0; i < len(p.ops); i++ {
		o := p.ops[i]
		if o.star {
			if i == 0 || !p.ops[i-1].length || p.ops[i-1].field != o.field {
				return fmt.Sprintf("%v follows no length of it", o)
			}
			continue
		}
		if o.length && (i+1 >= len(p.ops) || !p.ops[i+1].star) {
			if z, ok := p.zero[o.field]; !ok || !z {
				return fmt.Sprintf("%v is not followed by the elements", o)
			}
		}
		if o.kind == "ML" && (o.num == nil || *o.num != 0) {
			return fmt.Sprintf("%v is no empty map", o)
		}
		if o.kind == "ML" {
			o.kind = "M"
		}
		items = append(items, o)
	}
	if len(items) == 0 || items[0].kind != "A" || items[0].num == nil {
		return "it is no array of known length"
	}
	if int(*items[0].num) != len(items)-1 {
		return fmt.Sprintf("an array of %d items has %d", *items[0].num, len(items)-1)
	}
	items = items[1:]
	var want []string
	switch num {
	case 1, 4:
		want = []string{"M", "id", "S:target", "A:arguments", "A:streamIds?"}
	case 2:
		want = []string{"M", "S:invocationId", "V:item"}
	case 3:
		want = []string{"M", "S:invocationId", "kind"}
	case 5:
		want = []string{"M", "S:invocationId"}
	case 7:
		want = []string{"S:error", "B:allowReconnect"}
	}
	if len(items) == 0 || items[0].kind != "I" || items[0].num == nil || *items[0].num != num {
		return fmt.Sprintf("its first item is not the type %d", num)
	}
	items = items[1:]
	is := func(o wireOp, kind, tag string) bool {
		return o.field != "" && o.field == x.byTag(tag) && (o.kind == kind || kind == "V" && o.kind != "A" && o.kind != "M") && o.length == (kind == "A")
	}
	for _, s := range want {
		opt := strings.HasSuffix(s, "?")
		s = strings.TrimSuffix(s, "?")
		kind, tag, _ := strings.Cut(s, ":")
		if len(items) == 0 {
			if z, ok := p.zero[x.byTag(tag)]; opt && ok && z {
				continue
			}
			return "the item " + s + " is missing"
		}
		o := items[0]
		items = items[1:]
		switch s {
		case "M":
			if o.kind != "M" {
				return fmt.Sprintf("%v is where the headers have to be", o)
			}
		case "id":
			z, ok := p.zero[x.byTag("invocationId")]
			if o.kind == "N" && (!ok || !z) || o.kind != "N" && !is(o, "S", "invocationId") {
				return fmt.Sprintf("%v is where the invocation id has to be", o)
			}
			if o.kind != "N" && (!ok || z) {
				return "an empty invocation id is not encoded as nil"
			}
		case "kind":
			if o.kind != "I" || o.num == nil {
				return fmt.Sprintf("%v is where the kind of the result has to be", o)
			}
			ez, eok := p.zero[x.byTag("error")]
			rz, rok := p.zero[x.byTag("result")]
			switch *o.num {
			case 1:
				if len(items) != 1 || !is(items[0], "S", "error") || !eok || ez {
					return "an error result without the error"
				}
			case 2:
				if len(items) != 0 || !eok || !ez || !rok || !rz {
					return "a void result although there may be a result or an error"
				}
			case 3:
				if len(items) != 1 || !is(items[0], "V", "result") || !rok || rz || !eok || !ez {
					return "a result without a result, or with an error"
				}
			default:
				return fmt.Sprintf("the kind of result %d", *o.num)
			}
			items = nil
		default:
			if !is(o, kind, tag) {
				return fmt.Sprintf("%v is where %s has to be", o, tag)
			}
		}
	}
	if len(items) > 0 {
		return fmt.Sprintf("the item %v has no place in the message", items[0])
	}
	return ""
}

// wireDecoder explores ParseMessages of the protocol on what one path of its encoder has written.
type wireDecoder struct {
	x         *encoder
	path      encPath
	num       int64
	fn        *ssa.Function
	delivered int
	bad       bool
}

func (d *wireDecoder) fieldTerm(e *eng.Engine, name string) *eng.Term {
	s := d.x.ty.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return e.Param("message."+name, s.Field(i).Type())
		}
	}
	return e.Nil()
}

// takes: a decoding call that reads an encoded value of this kind.
func takes(m string, o wireOp) bool {
	switch {
	case m == "Skip" || m == "DecodeInterface" || m == "DecodeInterfaceLoose" || m == "DecodeRaw":
		return !o.length && o.kind != "A"
	case m == "DecodeArrayLen":
		return o.kind == "A"
	case m == "DecodeMapLen" || strings.HasPrefix(m, "DecodeMap") || strings.HasPrefix(m, "DecodeTypedMap") || strings.HasPrefix(m, "DecodeUntypedMap"):
		return o.kind == "M" || o.kind == "ML"
	case m == "DecodeString":
		return o.kind == "S" || o.kind == "N"
	case m == "DecodeNil":
		return o.kind == "N"
	case m == "DecodeBool":
		return o.kind == "B"
	case strings.HasPrefix(m, "DecodeInt") || strings.HasPrefix(m, "DecodeUint"):
		return o.kind == "I"
	}
	return false
}

// next is the value a decoding call reads.
func (d *wireDecoder) next(st *eng.State, c *eng.CallInfo, m string) (wireOp, bool) {
	ops := d.path.ops
	fail := func(format string, a ...any) (wireOp, bool) {
		d.bad = true
		st.Report("not-read-back", d.key(), c.Pos(), "%s: %s (written: %v)", d.key(), fmt.Sprintf(format, a...), d.path.ops)
		st.Kill()
		return wireOp{}, false
	}
	for {
		pos := int(st.GetInt("pos"))
		if pos >= len(ops) {
			return fail("%s reads more than was written", m)
		}
		o := ops[pos]
		switch {
		case o.star && takes(m, o) && (st.GetInt("got") == 0 || looping(st)):
			st.SetInt("got", 1)
			if !looping(st) {
				return fail("%s reads only one of the elements of %s", m, o.field)
			}
			return o, true
		case o.star && st.GetInt("got") == 0:
			return fail("the elements of %s are not all read before %s", o.field, m)
		case o.star:
			st.SetInt("got", 0)
			st.SetInt("pos", int64(pos+1))
			continue
		case takes(m, o):
			st.SetInt("pos", int64(pos+1))
			return o, true
		}
		return fail("%s reads what was written as %v", m, o)
	}
}

func (d *wireDecoder) key() string {
	return eng.FnName(d.fn) + ":" + typeName(d.x.ty)
}

func (d *wireDecoder) call(st *eng.State, c *eng.CallInfo) eng.Decision {
	w := d.x.w
	if isLogCall(c.Name) || c.Fn != nil && w.Home(c.Fn) && formatter(c.Fn) {
		return opaque
	}
	if c.Fn != nil && w.Home(c.Fn) && framer(c.Fn) {
		return opaque
	}
	e := st.E
	m := c.Name[strings.LastIndexByte(c.Name, '.')+1:]
	switch {
	case strings.HasSuffix(c.Name, "msgpack/v5.NewDecoder"):
		return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Do: func(st *eng.State, rs []*eng.Term) {
			st.SetInt("pos", 0)
			st.SetInt("got", 0)
		}}}}
	case strings.Contains(c.Name, "msgpack/v5.Decoder)"):
		if m == "Reset" || m == "ResetReader" {
			st.SetInt("pos", 0)
			st.SetInt("got", 0)
			return opaque
		}
		if !strings.HasPrefix(m, "Decode") && m != "Skip" {
			return opaque
		}
		o, ok := d.next(st, c, m)
		if !ok {
			return opaque
		}
		d.x.r.inst("decoded-value", 1)
		n := c.Sig.Results().Len()
		res := make([]*eng.Term, n)
		if n > 0 && isErrorType(c.Sig.Results().At(n-1).Type()) {
			res[n-1] = e.Nil()
		}
		if n == 2 {
			ty := c.Sig.Results().At(0).Type()
			switch {
			case o.length:
				f := d.fieldTerm(e, o.field)
				l := e.App("len", types.Typ[types.Int], f)
				if pos := int(st.GetInt("pos")); pos < len(d.path.ops) && d.path.ops[pos].star {
					res[0] = l
					st.Assume(e.Lt(e.Int(0), l), true)
					st.Assume(e.Eq(e.Int(0), l), false)
				} else {
					res[0] = e.Int(0)
				}
			case o.kind == "M" || o.kind == "ML":
				if m == "DecodeMapLen" {
					res[0] = e.Int(0)
				}
			case o.kind == "N":
				if m == "DecodeString" {
					res[0] = e.Str("")
				}
			case o.num != nil:
				res[0] = e.Int(*o.num)
			case o.str != nil:
				res[0] = e.Str(*o.str)
			case o.star:
				res[0] = e.App("enc*", ty, d.fieldTerm(e, o.field))
			case m == "DecodeString" || m == "DecodeBool" || o.kind == "I":
				res[0] = d.fieldTerm(e, o.field)
			default:
				res[0] = e.App("enc", ty, d.fieldTerm(e, o.field))
			}
		}
		return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Results: res}}}
	case c.Name == "encoding/json.Unmarshal" || m == "Decode" && strings.Contains(c.Name, "json.Decoder)"):
		k := decodeTarget(c.Name, c.Invoke)
		dst := c.Arg(k)
		if dst == nil {
			return opaque
		}
		dst = eng.StripConv(eng.StripIface(dst))
		s := structOf(dst.Ty)
		if s == nil {
			return opaque
		}
		d.x.r.inst("decoded-struct", 1)
		return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Results: []*eng.Term{e.Nil()}, After: func(st *eng.State) {
			fs := make([]*eng.Term, s.NumFields())
			for i := range fs {
				fs[i] = e.Param("wire:"+tagOf(s.Field(i), s), s.Field(i).Type())
				if tagOf(s.Field(i), s) == "type" {
					fs[i] = e.Int(d.num)
				}
			}
			st.StoreAt(dst, e.Struct(dst.Ty.Underlying().(*types.Pointer).Elem(), fs))
		}}}}
	}
	return eng.Decision{}
}

// framer: a function that takes frames out of what was read.
func framer(f *ssa.Function) bool {
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if s, ok := rs.At(i).Type().Underlying().(*types.Slice); ok {
			if b, ok := s.Elem().Underlying().(*types.Slice); ok && types.Identical(b.Elem(), types.Typ[types.Byte]) {
				return true
			}
			if types.Identical(s.Elem(), types.Typ[types.Byte]) {
				return true
			}
		}
	}
	return false
}

// source: the field whose (raw) value, or an element of it, t is.
func (d *wireDecoder) source(t *eng.Term) (name string, elem bool) {
	t = core(t)
	if t.Kind == eng.KApp && t.Op == "load" && t.Args[0].Kind == eng.KIndexA {
		t, elem = core(t.Args[0].Args[0]), true
	}
	if t.Kind == eng.KApp && t.Op == "elem" {
		t, elem = core(t.Args[0]), true
	}
	if t.Kind == eng.KApp && (t.Op == "enc" || t.Op == "enc*") {
		t, elem = t.Args[0], t.Op == "enc*"
	}
	if t.Kind != eng.KParam {
		return "", false
	}
	if n, ok := strings.CutPrefix(t.Op, "message."); ok {
		return n, elem
	}
	if n, ok := strings.CutPrefix(t.Op, "wire:"); ok {
		return d.x.byTag(n), elem
	}
	return "", false
}

func (d *wireDecoder) event(st *eng.State, ev *eng.Event) {
	var vs []*eng.Term
	switch {
	case ev.Kind == eng.EvAppend:
		vs = st.SliceElems(ev.Val)
		if vs == nil { // append(x, y...)
			if n, el := d.source(ev.Val); n != "" && !el {
				st.SetInt("col:"+n, 1)
			}
		}
	case ev.Kind == eng.EvStore && ev.Addr.Kind == eng.KIndexA:
		vs = []*eng.Term{ev.Val}
		// the element has to keep its place
		v := core(ev.Val)
		if v.Kind == eng.KApp && v.Op == "load" && v.Args[0].Kind == eng.KIndexA {
			v = v.Args[0]
		}
		if (v.Kind == eng.KIndexA || v.Kind == eng.KApp && v.Op == "elem") && core(v.Args[1]) != core(ev.Addr.Args[1]) {
			if _, el := d.source(ev.Val); el {
				vs = nil
			}
		}
	default:
		return
	}
	for _, v := range vs {
		if n, el := d.source(v); n != "" && el {
			st.SetInt("col:"+n, 1)
			continue
		}
		if iface := eng.StripConv(v); iface.Kind == eng.KIface {
			if _, ok := wireTypes[typeName(iface.Ty)]; ok {
				d.deliver(st, ev, core(v))
				return
			}
		}
	}
}

func (d *wireDecoder) deliver(st *eng.State, ev *eng.Event, v *eng.Term) {
	d.delivered++
	x := d.x
	x.r.inst("read-back", 1)
	defer st.Kill()
	fail := func(what, format string, a ...any) {
		d.bad = true
		st.Report("wrong-value", d.key()+":"+what, ev.Instr.Pos(), "%s delivers a message %s", d.key(), fmt.Sprintf(format, a...))
	}
	if typeName(v.Ty) != typeName(x.ty) {
		fail("type", "of type %s", typeName(v.Ty))
		return
	}
	s := x.ty.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		name, tag := s.Field(i).Name(), tagOf(s.Field(i), s)
		t := st.E.Field(v, i, s.Field(i).Type())
		if tag == "type" {
			if n, ok := eng.IntConst(core(t)); !ok || n != d.num {
				fail(name, "with another type than %d", d.num)
			}
			continue
		}
		if n, el := d.source(t); n == name && !el {
			continue
		}
		if z, ok := d.path.zero[name]; ok && z && (zeroTerm(t) || isEmptySlice(st, t)) {
			continue
		}
		if _, ok := s.Field(i).Type().Underlying().(*types.Slice); ok {
			if st.GetInt("col:"+name) == 1 && !zeroTerm(t) {
				continue
			}
			if d.absent(st, tag) {
				continue // no element
			}
		}
		if tag == "result" {
			if z, ok := d.path.zero[x.byTag("error")]; ok && !z && zeroTerm(t) {
				continue
			}
			// the result is not there
			if d.absent(st, tag) && zeroTerm(t) {
				continue
			}
		}
		fail(name, "whose %s is not what was written (%v)", tag, t)
	}
}

// absent: the decoded field has no value or no elements.
func (d *wireDecoder) absent(st *eng.State, tag string) bool {
	is := func(t *eng.Term) bool { return t.Kind == eng.KParam && t.Op == "wire:"+tag }
	found := false
	st.Facts(func(t *eng.Term, v bool) {
		if t.Kind != eng.KApp || len(t.Args) != 2 {
			return
		}
		a, b := t.Args[0], t.Args[1]
		switch {
		case t.Op == "eq" && v && (is(a) && eng.IsNil(b) || is(b) && eng.IsNil(a)):
			found = true
		case t.Op == "eq" && v && eng.IsZero(a) && b.Op == "len" && is(core(b.Args[0])):
			found = true
		case t.Op == "lt" && !v && eng.IsZero(a) && b.Op == "len" && is(core(b.Args[0])):
			found = true
		}
	})
	return found
}

// wireTags: the fields of the messages on the wire; "!" has to be left out when empty, "=" must not
// be left out.
var wireTags = map[string][]string{
	"invocationMessage":       {"=type", "=target", "!invocationId", "=arguments", "streamIds"},
	"streamItemMessage":       {"=type", "=invocationId", "=item"},
	"completionMessage":       {"=type", "=invocationId", "!result", "!error"},
	"cancelInvocationMessage": {"=type", "=invocationId"},
	"hubMessage":              {"=type"},
	"closeMessage":            {"=type", "error", "allowReconnect"},
	"handshakeRequest":        {"=protocol", "=version"},
	"handshakeResponse":       {"error"},
}

func (w *World) checkTags(r *Report) {
	for tn, want := range wireTags {
		ty := w.Type(tn)
		if !r.need(ty != nil && structOf(ty) != nil, "C12", tn) {
			continue
		}
		s := structOf(ty)
		seen := map[string]bool{}
		for i := 0; i < s.NumFields(); i++ {
			tag := reflect.StructTag(s.Tag(i)).Get("json")
			name, opts, _ := strings.Cut(tag, ",")
			r.inst("wire-field", 1)
			ok := false
			for _, x := range want {
				if strings.TrimLeft(x, "=!") != name {
					continue
				}
				ok = true
				omit := opts == "omitempty" || opts == "omitzero"
				switch {
				case opts != "" && !omit:
					r.find("wire-field", tn+"."+name, s.Field(i).Pos(), "field %s of %s is encoded with the option %q", name, tn, opts)
				case x[0] == '=' && omit:
					r.find("wire-field", tn+"."+name, s.Field(i).Pos(), "field %s of %s is left out when it is empty", name, tn)
				case x[0] == '!' && !omit:
					r.find("wire-field", tn+"."+name, s.Field(i).Pos(), "field %s of %s is not left out when it is empty", name, tn)
				}
			}
			if !ok || seen[name] || !s.Field(i).Exported() {
				r.find("wire-field", tn+"."+s.Field(i).Name(), s.Field(i).Pos(), "field %s of %s is none of the specification: %q", s.Field(i).Name(), tn, tag)
			}
			seen[name] = true
		}
		for _, x := range want {
			if n := strings.TrimLeft(x, "=!"); !seen[n] {
				r.find("wire-field", tn+"."+n, ty.(*types.Named).Obj().Pos(), "%s has no field %s", tn, n)
			}
		}
	}
}

// checkUnmarshalArgument: arguments are decoded by the field names they were encoded with.
func (w *World) checkUnmarshalArgument(r *Report, t types.Type, tags map[string]bool) {
	fn := w.Prog.LookupMethod(t, w.Types, "UnmarshalArgument")
	if !r.need(fn != nil && len(fn.Blocks) > 0, "C12", "UnmarshalArgument of messagepack") {
		return
	}
	n := 0
	cl := &client{}
	cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		if !strings.Contains(c.Name, "msgpack/v5.") {
			return eng.Decision{}
		}
		m := c.Name[strings.LastIndexByte(c.Name, '.')+1:]
		switch {
		case m == "SetCustomStructTag":
			st.Set(sk("tag", core(c.Recv)), c.UserArgs()[0])
			return opaque
		case m == "Reset" || m == "ResetDict":
			st.Del(sk("tag", core(c.Recv)))
			return opaque
		case m == "Unmarshal" || m == "Decode" && c.Recv != nil:
			n++
			tag := ""
			if m == "Decode" {
				tag, _ = eng.StrConst(orNil(st.Get(sk("tag", core(c.Recv))), st.E))
			}
			r.inst("decoded-argument", 1)
			if !tags[tag] {
				st.Report("struct-tag", eng.FnName(fn), c.Pos(), "%s decodes structs by the tag %q, which is not the one they are encoded with", eng.FnName(fn), tag)
			}
		}
		return opaque
	}
	e := w.engine(cl)
	e.Run(fn, nil, nil)
	r.absorb(e)
	r.need(n > 0, "C12", "the decoding of arguments by messagepack")
}

func checkC12(w *World, r *Report) {
	r.rule("each sending method of a hub connection sends the message of its type number with exactly the values it was given")
	r.rule("every path of the messagepack encoder writes, for every message type, an array of the announced number of items: exactly the items of the specification, in its order, with its presence conditions")
	r.rule("reading each of these paths back, the messagepack decoder reads every value with a call that fits it and delivers a message of the same type with every field that was written")
	r.rule("json writes the message itself, whose fields have the names and the presence conditions of the specification, and delivers for every type number the message with each field decoded under the name it is written with")
	r.rule("arguments of struct types are encoded and decoded by the same struct tag in messagepack, the one json uses")
	w.checkHubConnectionWrites(r, "C12")
	w.checkTags(r)
	protos := w.protocols()
	if !r.need(len(protos) == 2, "C12", "the protocols json and messagepack") {
		return
	}
	for _, name := range []string{"json", "messagepack"} {
		parse := w.Prog.LookupMethod(protos[name], w.Types, "ParseMessages")
		if !r.need(parse != nil && len(parse.Blocks) > 0, "C12", "ParseMessages of "+name) {
			continue
		}
		tags := map[string]bool{}
		for _, tn := range wireNames() {
			for _, num := range wireTypes[tn] {
				x := w.runEncoder(r, "C12", name, protos[name], tn, num)
				if x == nil || !r.need(len(x.paths) > 0, "C12", "a path of WriteMessage of "+name+" for "+tn) {
					continue
				}
				key := eng.FnName(x.fn) + ":" + tn
				for _, counts := range x.iters {
					if (counts[1] || counts[2]) && (counts[0] || counts[2]) {
						r.find("elements-skipped", key, x.fn.Pos(), "%s does not write each element of a %s once", key, tn)
					}
				}
				ok := true
				for _, p := range x.paths {
					r.inst("encoded-message", 1)
					r.sample("%s type %d writes %v", key, num, p.ops)
					if name == "json" {
						if len(p.ops) != 1 || p.ops[0].kind != "J" || p.ops[0].field != "message" {
							r.find("grammar", key, x.fn.Pos(), "%s does not write the message itself as json", key)
							ok = false
						}
						continue
					}
					if s := x.grammar(p, num); s != "" {
						r.find("grammar", key, x.fn.Pos(), "%s writes a message of type %d that is none of the specification: %s (%v)", key, num, s, p.ops)
						ok = false
					}
					for _, o := range p.ops {
						if o.kind == "V" {
							tags[p.tag] = true
							if p.tag != "json" {
								r.find("struct-tag", key, x.fn.Pos(), "%s encodes structs by the tag %q, not by that of json", key, p.tag)
							}
						}
					}
				}
				if !ok {
					continue
				}
				paths := x.paths
				if name == "json" {
					paths = []encPath{{}}
				}
				for _, p := range paths {
					d := &wireDecoder{x: x, path: p, num: num, fn: parse}
					e := w.engine(&client{call: d.call, event: d.event})
					e.Run(parse, nil, nil)
					r.absorb(e)
					if d.delivered == 0 && !d.bad {
						r.find("not-delivered", d.key(), parse.Pos(), "%s delivers no %s for what its other side writes as type %d", d.key(), tn, num)
					}
				}
			}
		}
		if name == "messagepack" {
			w.checkUnmarshalArgument(r, protos[name], tags)
		}
	}
}

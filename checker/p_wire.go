package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

func init() {
	register("C12", checkC12)
	register("C13", checkC13)
}

// wireTypes: the message structs with the type numbers of the specification they may carry.
var wireTypes = map[string][]int64{"invocationMessage": {1, 4}, "streamItemMessage": {2}, "completionMessage": {3},
	"cancelInvocationMessage": {5}, "hubMessage": {6}, "closeMessage": {7}}

func wireNames() []string {
	var out []string
	for n := range wireTypes {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// wireOp is one encoded value.
type wireOp struct {
	kind   string // of encKinds
	field  string // the field of the message it encodes (or has the length or an element of)
	length bool
	star   bool // each element of the field in turn
	num    *int64
	str    *string
	other  string // neither field nor constant
}

func (o wireOp) String() string {
	s := o.kind
	switch {
	case o.length:
		s += "(len " + o.field + ")"
	case o.star:
		s += "(each of " + o.field + ")"
	case o.field != "":
		s += "(" + o.field + ")"
	case o.num != nil:
		s += fmt.Sprintf("(%d)", *o.num)
	case o.str != nil:
		s += fmt.Sprintf("(%q)", *o.str)
	case o.other != "":
		s += "(" + o.other + ")"
	}
	return s
}

// encPath is one path through WriteMessage: the values it encodes, and what it knows about the message.
type encPath struct {
	ops  []wireOp
	zero map[string]bool // fields known to have (true) or not to have (false) their zero value
	tag  string          // the struct tag of the encoder
}

// known says whether the field has its zero value, if that is known.
func (x *encoder) known(st *eng.State, f *eng.Term) (zero, known bool) {
	e := st.E
	try := func(t *eng.Term, neg bool) bool {
		v, ok := st.Fact(t)
		if ok {
			zero, known = v != neg, true
		}
		return ok
	}
	switch u := f.Ty.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			try(e.Eq(f, e.Str("")), false)
		case u.Info()&types.IsBoolean != 0:
			try(f, true)
		case u.Info()&types.IsInteger != 0:
			try(e.Eq(f, e.Int(0)), false)
		}
	case *types.Slice:
		l := e.App("len", types.Typ[types.Int], f)
		_ = try(e.Eq(f, e.Nil()), false) && zero || try(e.Eq(e.Int(0), l), false) || try(e.Lt(e.Int(0), l), true)
	case *types.Interface:
		try(e.Eq(f, e.Nil()), false)
	}
	return
}

// plain turns the operations of a path into values that do not depend on the exploration.
func (x *encoder) plain(t *eng.Term) wireOp {
	o := wireOp{kind: strings.TrimSuffix(strings.TrimPrefix(t.Op, "op:"), "*"), star: strings.HasSuffix(t.Op, "*")}
	if len(t.Args) == 0 {
		return o
	}
	v := core(t.Args[0])
	switch {
	case x.pvars[v] != "":
		o.field = x.pvars[v]
	case v.Kind == eng.KApp && v.Op == "len" && x.pvars[core(v.Args[0])] != "":
		o.field, o.length = x.pvars[core(v.Args[0])], true
	case v == x.msg:
		o.field = "message"
	default:
		if n, ok := eng.IntConst(v); ok {
			o.num = &n
		} else if s, ok := eng.StrConst(v); ok {
			o.str = &s
		} else {
			o.other = v.String()
		}
	}
	return o
}

// encoder explores WriteMessage of one protocol for one message type.
type encoder struct {
	w     *World
	r     *Report
	prop  string
	fn    *ssa.Function
	name  string // of the protocol
	ty    types.Type
	msg   *eng.Term
	pvars map[*eng.Term]string // the fields of the message
	paths []encPath
	keys  map[string]bool
	ends  int
	iters map[*ssa.BasicBlock]map[int64]bool // elements encoded by an iteration of the loop
}

// looping: the current instruction is part of a loop, of the function or of one of its callers.
func looping(st *eng.State) bool {
	for _, f := range st.Frames() {
		if b := f.Block(); b != nil && st.E.InLoop(b) {
			return true
		}
	}
	return false
}

func mkParts(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(s, ",")
}

func joinSeq(a, b string) string {
	return strings.Join(append(mkParts(a), mkParts(b)...), ",")
}

func (x *encoder) seqOf(st *eng.State, t *eng.Term) string {
	s, _ := eng.StrConst(orNil(st.Get(sk("seq", t)), st.E))
	return s
}

func (x *encoder) setSeq(st *eng.State, t *eng.Term, s string) {
	st.Set(sk("seq", t), st.E.Str(s))
	st.Set(sk("key", t), t)
}

// add appends to the content of a buffer.
func (x *encoder) add(st *eng.State, t *eng.Term, s string) {
	x.setSeq(st, t, joinSeq(x.seqOf(st, t), s))
}

// addBody appends encoded data: consecutive data is one body as long as nobody asked for its length.
func (x *encoder) addBody(st *eng.State, t *eng.Term) {
	ps := mkParts(x.seqOf(st, t))
	if len(ps) > 0 && ps[len(ps)-1] == "B" && st.GetInt(sk("measured", t)) != 1 {
		return
	}
	x.add(st, t, "B")
}

// tokens is the content of a byte slice or string.
func (x *encoder) tokens(st *eng.State, t *eng.Term) string {
	t = eng.StripIface(t)
	for t.Kind == eng.KApp && strings.HasPrefix(t.Op, "conv") && len(t.Args) == 1 {
		t = t.Args[0]
	}
	if st.Get(sk("key", t)) != nil {
		return x.seqOf(st, t)
	}
	if eng.IsNil(t) {
		return ""
	}
	if s, ok := eng.StrConst(t); ok {
		switch s {
		case "":
			return ""
		case "\x1e":
			return "D"
		}
		return "?"
	}
	if t.Kind == eng.KApp && t.Op == "append" && len(t.Args) == 2 {
		return joinSeq(x.tokens(st, t.Args[0]), x.tokens(st, t.Args[1]))
	}
	if t.Kind == eng.KApp && t.Op == "+" && len(t.Args) == 2 {
		return joinSeq(x.tokens(st, t.Args[0]), x.tokens(st, t.Args[1]))
	}
	if t.Kind == eng.KApp && t.Op == "slice" && len(t.Args) == 3 {
		base, lo, hi := t.Args[0], t.Args[1], t.Args[2]
		whole := (lo.Op == "none" || eng.IsZero(lo))
		under := core(base)
		for under.Kind == eng.KApp && under.Op == "slice" && (under.Args[1].Op == "none" || eng.IsZero(under.Args[1])) {
			under = core(under.Args[0])
		}
		if p := st.Get(sk("pfxlen", under)); p != nil && whole && core(hi) == p {
			return x.seqOf(st, p)
		}
		if whole && st.Get(sk("key", core(base))) != nil {
			return x.seqOf(st, core(base))
		}
		if whole && hi.Op == "none" {
			if st.Get(sk("key", base)) != nil {
				return x.seqOf(st, base)
			}
			if es := st.SliceElems(t); es != nil {
				out := ""
				for _, e := range es {
					if n, ok := eng.IntConst(e); ok && n == delim {
						out = joinSeq(out, "D")
					} else {
						out = joinSeq(out, "?")
					}
				}
				return out
			}
		}
		if whole && eng.IsZero(hi) {
			return ""
		}
	}
	return "?"
}

func (x *encoder) want() string {
	if x.name == "messagepack" {
		return "P(B),B"
	}
	return "B,D"
}

func (x *encoder) isWriter(t *eng.Term) bool {
	t = core(t)
	return t.Kind == eng.KParam && t.Ty != nil && isWriterType(t.Ty)
}

func isWriterType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Writer" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "io"
}

// emit: data goes to the connection.
func (x *encoder) emit(st *eng.State, c *eng.CallInfo, data string) eng.Decision {
	st.SetInt("emits", st.GetInt("emits")+1)
	if x.prop == "C13" {
		x.r.inst("frame-write", 1)
		switch {
		case st.GetInt("encerr") == 1:
			st.Report("write-after-error", eng.FnName(x.fn), c.Pos(), "%s writes although encoding the message failed", eng.FnName(x.fn))
		case st.GetInt("emits") > 1:
			st.Report("split-frame", eng.FnName(x.fn), c.Pos(), "%s writes a frame in more than one write", eng.FnName(x.fn))
		case data != x.want():
			st.Report("incomplete-frame", eng.FnName(x.fn), c.Pos(), "%s writes something else than one complete frame (%s instead of %s)", eng.FnName(x.fn), data, x.want())
		}
	}
	n := c.Sig.Results().Len()
	if n == 0 || !isErrorType(c.Sig.Results().At(n-1).Type()) {
		return opaque
	}
	return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Do: func(st *eng.State, rs []*eng.Term) {
		st.Assume(st.E.Eq(rs[n-1], st.E.Nil()), true)
	}}, {Do: func(st *eng.State, rs []*eng.Term) {
		st.Assume(st.E.Eq(rs[n-1], st.E.Nil()), false)
		st.SetInt("writeerr", 1)
	}}}}
}

// encOp records an encoded value.
func (x *encoder) encOp(st *eng.State, kind string, v *eng.Term) {
	e := st.E
	op := e.App("op:"+kind, nil)
	if v != nil {
		op = e.App("op:"+kind, nil, v)
		y := core(v)
		if y.Kind == eng.KApp && y.Op == "load" && y.Args[0].Kind == eng.KIndexA {
			y = y.Args[0]
		}
		if y.Kind == eng.KIndexA || y.Kind == eng.KApp && y.Op == "elem" {
			if _, ok := eng.IntConst(y.Args[1]); !ok || looping(st) {
				op = e.App("op:"+kind+"*", nil, core(y.Args[0]))
				st.SetInt("iter", min(st.GetInt("iter")+1, 2))
			}
		}
	}
	var ops []*eng.Term
	if o := st.Get("ops"); o != nil {
		ops = o.Args
	}
	if strings.HasSuffix(op.Op, "*") && len(ops) > 0 && ops[len(ops)-1] == op {
		return
	}
	st.Set("ops", e.App("ops", nil, append(append([]*eng.Term{}, ops...), op)...))
}

func errOutcomes(c *eng.CallInfo, ok, bad func(st *eng.State, rs []*eng.Term)) eng.Decision {
	n := c.Sig.Results().Len()
	if n == 0 || !isErrorType(c.Sig.Results().At(n-1).Type()) {
		return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Do: ok}}}
	}
	return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Do: func(st *eng.State, rs []*eng.Term) {
		st.Assume(st.E.Eq(rs[n-1], st.E.Nil()), true)
		ok(st, rs)
	}}, {Do: func(st *eng.State, rs []*eng.Term) {
		st.Assume(st.E.Eq(rs[n-1], st.E.Nil()), false)
		if bad != nil {
			bad(st, rs)
		}
	}}}}
}

func (x *encoder) call(st *eng.State, c *eng.CallInfo) eng.Decision {
	if isLogCall(c.Name) || c.Fn != nil && x.w.Home(c.Fn) && formatter(c.Fn) {
		return opaque
	}
	encerr := func(st *eng.State, rs []*eng.Term) { st.SetInt("encerr", 1) }
	args := c.UserArgs()
	if c.Invoke || c.Recv == nil {
		args = c.Args
	}
	m := c.Name[strings.LastIndexByte(c.Name, '.')+1:]
	var recv *eng.Term
	if c.Recv != nil {
		recv = core(c.Recv)
	}
	switch {
	case recv != nil && x.isWriter(recv) && m == "Write":
		return x.emit(st, c, x.tokens(st, args[0]))
	case recv == nil && len(c.Args) > 0 && x.isWriter(c.Args[0]):
		switch c.Name {
		case "io.WriteString":
			return x.emit(st, c, x.tokens(st, c.Args[1]))
		case "fmt.Fprint", "fmt.Fprintf":
			d := "?"
			if es := st.SliceElems(c.Args[len(c.Args)-1]); len(es) > 0 {
				d = ""
				for _, e := range es {
					d = joinSeq(d, x.tokens(st, e))
				}
				if c.Name == "fmt.Fprintf" {
					f, _ := eng.StrConst(c.Args[1])
					f = strings.ReplaceAll(strings.ReplaceAll(f, "%v", "%s"), "%s", "")
					if f == "\x1e" {
						d = joinSeq(d, "D")
					} else if f != "" {
						d = "?"
					}
				}
			}
			return x.emit(st, c, d)
		case "io.Copy":
			return x.emit(st, c, x.tokens(st, core(c.Args[1])))
		case "encoding/json.NewEncoder":
			return x.emit(st, c, "?")
		case "bufio.NewWriter", "bufio.NewWriterSize":
			return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Do: func(st *eng.State, rs []*eng.Term) {
				x.setSeq(st, rs[0], "")
				st.SetInt(sk("flushes", rs[0]), 1)
			}}}}
		}
	}
	for _, a := range c.Args {
		if x.isWriter(a) && (c.Fn == nil || !x.w.Home(c.Fn)) && !(m == "WriteTo" && recv != nil) {
			return x.emit(st, c, "?")
		}
	}
	switch {
	case hasSuffixAny(c.Name, "msgpack.NewEncoder", "json.NewEncoder", "msgpack/v5.NewEncoder"):
		buf := core(c.Args[0])
		return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Do: func(st *eng.State, rs []*eng.Term) {
			st.Set(sk("encbuf", rs[0]), buf)
		}}}}
	case strings.HasSuffix(m, "Marshal") || m == "MarshalJSON":
		return errOutcomes(c, func(st *eng.State, rs []*eng.Term) {
			x.setSeq(st, rs[0], "B")
			x.encOp(st, "J", c.Args[0])
		}, encerr)
	case recv != nil && strings.Contains(c.Name, "Encoder)"):
		buf := st.Get(sk("encbuf", recv))
		if m == "Reset" && len(args) > 0 {
			st.Set(sk("encbuf", recv), core(args[0]))
			return opaque
		}
		kind := encKinds[m]
		if m == "SetCustomStructTag" {
			st.Set("structtag", args[0])
			return opaque
		}
		if buf == nil || kind == "" {
			if strings.HasPrefix(m, "Encode") {
				x.r.find("undecided", eng.FnName(x.fn), c.Pos(), "%s encodes with %s, which the check does not know", eng.FnName(x.fn), c.Name)
			}
			return opaque
		}
		if x.w.localBuf(buf) == nil && !x.isWriter(buf) {
			x.r.find("undecided", eng.FnName(x.fn), c.Pos(), "%s encodes to something that is no local buffer", eng.FnName(x.fn))
		}
		return errOutcomes(c, func(st *eng.State, rs []*eng.Term) {
			x.addBody(st, buf)
			var v *eng.Term
			if len(args) > 0 {
				v = args[0]
			}
			k := kind
			if k == "V" && v != nil {
				if y := eng.StripIface(v); y != v && y.Ty != nil {
					if b, ok := y.Ty.Underlying().(*types.Basic); ok {
						switch {
						case b.Info()&types.IsString != 0:
							k = "S"
						case b.Info()&types.IsBoolean != 0:
							k = "B"
						case b.Info()&types.IsInteger != 0:
							k = "I"
						}
					} else if _, ok := y.Ty.Underlying().(*types.Map); ok {
						k = "M"
					}
				} else if eng.IsNil(v) {
					k = "N"
				}
			}
			if k == "N" || k == "M" {
				v = nil
			}
			x.encOp(st, k, v)
		}, encerr)
	case recv != nil && containerType(recv.Ty) != "" || recv != nil && st.GetInt(sk("flushes", recv)) == 1:
		return x.buffer(st, c, recv, m, args)
	case hasSuffixAny(c.Name, "bytes.NewBuffer", "bytes.NewBufferString"):
		s := x.tokens(st, c.Args[0])
		return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Do: func(st *eng.State, rs []*eng.Term) { x.setSeq(st, rs[0], s) }}}}
	case hasSuffixAny(c.Name, "binary.PutUvarint"):
		arr := c.Args[0]
		p := x.prefix(st, c.Args[1])
		if y := core(arr); y.Kind == eng.KApp && y.Op == "slice" {
			arr = y.Args[0]
		}
		return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Do: func(st *eng.State, rs []*eng.Term) {
			st.Set(sk("pfxlen", core(arr)), rs[0])
			x.setSeq(st, rs[0], p)
			x.setSeq(st, core(arr), p)
		}}}}
	case hasSuffixAny(c.Name, "binary.AppendUvarint"):
		s := joinSeq(x.tokens(st, c.Args[0]), x.prefix(st, c.Args[1]))
		return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Do: func(st *eng.State, rs []*eng.Term) { x.setSeq(st, rs[0], s) }}}}
	case hasSuffixAny(c.Name, "bytes.Join"):
		s := "?"
		if es := st.SliceElems(c.Args[0]); es != nil && x.tokens(st, c.Args[1]) == "" {
			s = ""
			for _, e := range es {
				s = joinSeq(s, x.tokens(st, e))
			}
		}
		return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Do: func(st *eng.State, rs []*eng.Term) { x.setSeq(st, rs[0], s) }}}}
	}
	return eng.Decision{}
}

// prefix is the content of a length prefix for n bytes.
func (x *encoder) prefix(st *eng.State, n *eng.Term) string {
	n = core(n)
	if n.Kind == eng.KApp && n.Op == "len" {
		y := core(n.Args[0])
		s := x.tokens(st, y)
		if b := st.Get(sk("bytesof", y)); b != nil {
			st.SetInt(sk("measured", b), 1)
		}
		return "P(" + s + ")"
	}
	if b := st.Get(sk("lenof", n)); b != nil {
		s, _ := eng.StrConst(orNil(st.Get(sk("lenseq", n)), st.E))
		return "P(" + s + ")"
	}
	return "P(?)"
}

func (x *encoder) buffer(st *eng.State, c *eng.CallInfo, recv *eng.Term, m string, args []*eng.Term) eng.Decision {
	one := func(f func(st *eng.State, rs []*eng.Term)) eng.Decision {
		return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Do: func(st *eng.State, rs []*eng.Term) {
			if n := len(rs); n > 0 && isErrorType(rs[n-1].Ty) {
				st.Assume(st.E.Eq(rs[n-1], st.E.Nil()), true)
			}
			f(st, rs)
		}}}}
	}
	switch m {
	case "Write", "WriteString":
		s := x.tokens(st, args[0])
		return one(func(st *eng.State, rs []*eng.Term) { x.add(st, recv, s) })
	case "WriteByte", "WriteRune":
		s := "?"
		if n, ok := eng.IntConst(args[0]); ok && n == delim {
			s = "D"
		}
		return one(func(st *eng.State, rs []*eng.Term) { x.add(st, recv, s) })
	case "ReadFrom":
		y := core(args[0])
		s := x.seqOf(st, y)
		return one(func(st *eng.State, rs []*eng.Term) { x.add(st, recv, s); x.setSeq(st, y, "") })
	case "WriteTo":
		s := x.seqOf(st, recv)
		if x.isWriter(args[0]) {
			return x.emit(st, c, s)
		}
		y := core(args[0])
		return one(func(st *eng.State, rs []*eng.Term) { x.add(st, y, s); x.setSeq(st, recv, "") })
	case "Flush":
		if st.GetInt(sk("flushes", recv)) == 1 {
			s := x.seqOf(st, recv)
			x.setSeq(st, recv, "")
			return x.emit(st, c, s)
		}
	case "Bytes", "String":
		s := x.seqOf(st, recv)
		return one(func(st *eng.State, rs []*eng.Term) {
			x.setSeq(st, rs[0], s)
			st.Set(sk("bytesof", rs[0]), recv)
		})
	case "Len":
		s := x.seqOf(st, recv)
		return one(func(st *eng.State, rs []*eng.Term) {
			st.SetInt(sk("measured", recv), 1)
			st.Set(sk("lenof", rs[0]), recv)
			st.Set(sk("lenseq", rs[0]), st.E.Str(s))
		})
	case "Reset":
		x.setSeq(st, recv, "")
		return one(func(st *eng.State, rs []*eng.Term) {})
	case "Truncate":
		if eng.IsZero(args[0]) {
			x.setSeq(st, recv, "")
			return one(func(st *eng.State, rs []*eng.Term) {})
		}
	case "Grow", "Cap", "Available":
		return opaque
	}
	x.setSeq(st, recv, "?")
	return opaque
}

// localBuf: buf itself when it is a container made on the way.
func (w *World) localBuf(buf *eng.Term) *eng.Term {
	if containerType(buf.Ty) != "" {
		return buf
	}
	return nil
}

var encKinds = map[string]string{"Encode": "V", "EncodeString": "S", "EncodeNil": "N", "EncodeArrayLen": "A", "EncodeMapLen": "ML",
	"EncodeInt": "I", "EncodeInt8": "I", "EncodeInt16": "I", "EncodeInt32": "I", "EncodeInt64": "I", "EncodeUint": "I", "EncodeUint8": "I",
	"EncodeUint16": "I", "EncodeUint32": "I", "EncodeUint64": "I", "EncodeBool": "B", "EncodeMap": "M", "EncodeMapSorted": "M", "EncodeRaw": "V"}

func (x *encoder) event(st *eng.State, ev *eng.Event) {
	switch ev.Kind {
	case eng.EvCopy:
		dst := core(ev.Addr)
		base, first := dst, true
		if dst.Kind == eng.KApp && dst.Op == "slice" && len(dst.Args) == 3 {
			base = core(dst.Args[0])
			first = dst.Args[1].Op == "none" || eng.IsZero(dst.Args[1])
		}
		s := x.tokens(st, ev.Val)
		if first {
			x.setSeq(st, base, s)
		} else {
			x.add(st, base, s)
		}
	case eng.EvHeader:
		if ev.Truth && st.GetInt("encerr") == 0 {
			if x.iters[ev.Block] == nil {
				x.iters[ev.Block] = map[int64]bool{}
			}
			x.iters[ev.Block][st.GetInt("iter")] = true
		}
		st.SetInt("iter", 0)
	case eng.EvEnd:
		x.ends++
		if x.prop == "C13" {
			x.r.inst("write-path", 1)
		}
		n := len(ev.Vals)
		if n == 0 {
			return
		}
		isNil, known := isNilTerm(st, ev.Vals[n-1])
		if x.prop == "C13" {
			switch {
			case st.GetInt("encerr") == 1 && (!known || isNil):
				st.Report("encoding-error-hidden", eng.FnName(x.fn), ev.Instr.Pos(), "%s may return no error although encoding failed", eng.FnName(x.fn))
			case st.GetInt("writeerr") == 1 && (!known || isNil):
				st.Report("write-error-hidden", eng.FnName(x.fn), ev.Instr.Pos(), "%s may return no error although writing failed", eng.FnName(x.fn))
			case st.GetInt("encerr") != 1 && st.GetInt("writeerr") != 1 && st.GetInt("emits") == 0:
				st.Report("message-not-written", eng.FnName(x.fn), ev.Instr.Pos(), "%s ends without writing the message", eng.FnName(x.fn))
			}
		}
		if st.GetInt("encerr") == 1 || st.GetInt("writeerr") == 1 || st.GetInt("emits") == 0 {
			return
		}
		p := encPath{zero: map[string]bool{}}
		if o := st.Get("ops"); o != nil {
			for _, t := range o.Args {
				p.ops = append(p.ops, x.plain(t))
			}
		}
		p.tag, _ = eng.StrConst(orNil(st.Get("structtag"), st.E))
		for f, n := range x.pvars {
			if z, ok := x.known(st, f); ok {
				p.zero[n] = z
			}
		}
		key := fmt.Sprint(p)
		if !x.keys[key] {
			x.keys[key] = true
			x.paths = append(x.paths, p)
		}
	}
}

// runEncoder explores WriteMessage of the protocol for one type of message.
func (w *World) runEncoder(r *Report, prop, name string, pt types.Type, tn string, num int64) *encoder {
	fn := w.Prog.LookupMethod(pt, w.Types, "WriteMessage")
	ty := w.Type(tn)
	if !r.need(fn != nil && len(fn.Blocks) > 0 && len(fn.Params) == 3, prop, "WriteMessage of "+name) || !r.need(ty != nil, prop, tn) {
		return nil
	}
	x := &encoder{w: w, r: r, prop: prop, fn: fn, name: name, ty: ty, keys: map[string]bool{}, pvars: map[*eng.Term]string{}, iters: map[*ssa.BasicBlock]map[int64]bool{}}
	e := w.engine(&client{call: x.call, event: x.event})
	s := ty.Underlying().(*types.Struct)
	fs := make([]*eng.Term, s.NumFields())
	for i := range fs {
		if tagOf(s.Field(i), s) == "type" {
			fs[i] = e.Int(num)
			continue
		}
		fs[i] = e.Param("message."+s.Field(i).Name(), s.Field(i).Type())
		x.pvars[fs[i]] = s.Field(i).Name()
	}
	x.msg = e.Struct(ty, fs)
	e.Run(fn, []*eng.Term{nil, e.Iface(x.msg, ty), nil}, func(st *eng.State) {
		for t := range x.pvars {
			st.Set(sk("root", t), t)
		}
	})
	r.absorb(e)
	return x
}

func checkC13(w *World, r *Report) {
	r.rule("on every path of WriteMessage of both protocols for every message: exactly one write to the connection, of the encoded message followed by the record separator respectively preceded by its length; when encoding fails nothing is written and the error is returned; a failed write is returned")
	r.rule("each sending method of a hub connection gives its message to the protocol once, with the connection itself as the writer; each connection of the package hands what it is given to its transport in one piece")
	protos := w.protocols()
	if !r.need(len(protos) == 2, "C13", "the protocols json and messagepack") {
		return
	}
	for _, name := range []string{"json", "messagepack"} {
		for _, tn := range wireNames() {
			for _, num := range wireTypes[tn] {
				if x := w.runEncoder(r, "C13", name, protos[name], tn, num); x != nil {
					r.need(len(x.paths) > 0, "C13", "a path of WriteMessage of "+name+" for "+tn)
				}
			}
		}
	}
	w.checkHubConnectionWrites(r, "C13")
	w.checkTransportWrites(r)
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

func init() {
	register("C14", checkC14)
	register("C11", checkC11)
}

// The analysis of received bytes. Buffers that are filled by a Read, and byte containers (bytes.Buffer,
// bytes.Reader, bufio.Reader ...) are followed through each path.

const delim = 0x1e

// byteFlow is the automaton; which rules it reports depends on the property.
type byteFlow struct {
	w       *World
	r       *Report
	prop    string
	root    *ssa.Function
	out     map[*ssa.Function]bool // not looked into
	framed  bool                   // the root splits what it reads into frames
	reads   map[ssa.Instruction]bool
	limited bool // a limit was compared
	params  map[*ssa.Parameter]bool
	up      map[*ssa.Function]bool
	checks  map[ssa.Instruction]bool
}

func containerType(t types.Type) string {
	if t == nil {
		return ""
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	s := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	switch s {
	case "bytes.Buffer", "bytes.Reader", "strings.Reader", "bufio.Reader", "strings.Builder":
		return s
	}
	return ""
}

func byteSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

// isReadSig: func([]byte) (int, error)
func isReadSig(sig *types.Signature) bool {
	return sig != nil && sig.Params().Len() == 1 && byteSlice(sig.Params().At(0).Type()) && sig.Results().Len() == 2 && isErrorType(sig.Results().At(1).Type())
}

// msgRead: a method Read that returns a whole message.
func msgRead(sig *types.Signature) int {
	for i := 0; sig != nil && i < sig.Results().Len(); i++ {
		if byteSlice(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

func sk(kind string, x *eng.Term) string { return fmt.Sprintf("%s:%d", kind, x.ID) }

func core(t *eng.Term) *eng.Term {
	for {
		n := eng.StripIface(eng.StripConv(t))
		if n == t {
			return t
		}
		t = n
	}
}

// local containers die with the path
func (b *byteFlow) local(st *eng.State, x *eng.Term) bool {
	return x.Kind == eng.KObj || x.Call != nil && hasSuffixAny(x.Call.Name, ".NewBuffer", ".NewReader", ".NewBufferString", ".NewReaderSize")
}

// content is the term for the bytes in container x.
func (b *byteFlow) content(st *eng.State, x *eng.Term) *eng.Term {
	v := st.Get(sk("ver", x))
	if v == nil {
		v = st.E.Str("0")
	}
	return st.E.App("content", types.NewSlice(types.Typ[types.Byte]), x, v)
}

func (b *byteFlow) lenOf(st *eng.State, x *eng.Term) lin { return linLen(st.E, b.content(st, x)) }

func (b *byteFlow) isEmpty(st *eng.State, x *eng.Term) bool {
	switch st.GetInt(sk("fill", x)) {
	case 1:
	case 2:
		return true
	default:
		if b.local(st, x) {
			return true
		}
	}
	return proves(st, linConst(0).plus(b.lenOf(st, x), -1))
}

func (b *byteFlow) boxed(st *eng.State, x *eng.Term) {
	if st.Get(sk("box", x)) == nil {
		st.Set(sk("box", x), x)
		st.SetInt(sk("gid", x), int64(st.GoID()))
	}
}

// changed: the content of x is another one.
func (b *byteFlow) changed(st *eng.State, x *eng.Term, instr ssa.Instruction, fill int64) {
	b.boxed(st, x)
	st.Del(sk("ver", x))
	st.Set(sk("ver", x), st.Fresh(instr, fmt.Sprintf("ver%d", x.ID), types.Typ[types.Int]))
	st.SetInt(sk("fill", x), fill)
	for _, k := range []string{"insp", "uvf", "uvl", "ix", "took"} {
		st.Del(sk(k, x))
	}
}

func (b *byteFlow) each(st *eng.State, kind string, f func(x *eng.Term)) {
	var ks []string
	for k := range st.A {
		if strings.HasPrefix(k, kind+":") {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		if x := st.Get(k); x != nil {
			f(x)
		}
	}
}

// viewOf: t is a part of the memory x, from off to end.
func viewOf(e *eng.Engine, t *eng.Term) (x *eng.Term, off, end lin) {
	t = core(t)
	if t.Kind == eng.KApp && t.Op == "slice" && len(t.Args) == 3 {
		x, off, end = viewOf(e, t.Args[0])
		lo := off
		if t.Args[1].Op != "none" {
			lo = off.plus(linOf(e, t.Args[1]), 1)
		}
		if t.Args[2].Op != "none" {
			end = off.plus(linOf(e, t.Args[2]), 1)
		}
		return x, lo, end
	}
	return t, linConst(0), linLen(e, t)
}

// touch: t is handed on to somebody.
func (b *byteFlow) touch(st *eng.State, t *eng.Term, pos token.Pos, what string) {
	if t == nil {
		return
	}
	vals := []*eng.Term{t}
	if x := core(t); x.Kind == eng.KObj && containerType(x.Ty) == "" {
		vals = append(vals, st.PeekDeep(x)...)
	}
	for _, v := range vals {
		v.Walk(func(y *eng.Term) bool {
			y0 := y
			if y.Kind == eng.KApp && strings.HasPrefix(y.Op, "call:") {
				b.unloose(st, y)
				st.Del(sk("n", y))
				if b.local(st, y) && containerType(y.Ty) != "" {
					b.drop(st, y) // somebody else uses it up
				}
				return false
			}
			if y.Kind == eng.KApp && (y.Op == "len" || y.Op == "cap" || strings.HasPrefix(y.Op, "copy")) {
				return false
			}
			x, _, end := viewOf(st.E, y)
			if st.Get(sk("filled", x)) != nil {
				b.r.inst("use-of-read-bytes", 1)
				if b.prop == "C14" && !proves(st, linOf(st.E, st.Get(sk("filled", x))).plus(end, -1)) {
					st.Report("unread-bytes", eng.FnName(b.root)+":"+what, pos, "%s uses bytes of a buffer that were not read into it", eng.FnName(b.root))
				}
				st.Del(sk("src", x))
				return false
			}
			if st.Get(sk("n", y0)) != nil {
				st.Del(sk("n", y0))
			}
			if x.Kind == eng.KApp && x.Op == "content" {
				st.SetInt(sk("took", x.Args[0]), 1)
				return false
			}
			if st.Get(sk("loose", x)) != nil {
				b.unloose(st, x)
				return false
			}
			if b.local(st, x) && containerType(x.Ty) != "" {
				st.SetInt(sk("esc", x), 1)
			}
			return true
		})
	}
}

// lost: the path goes on, or ends without error. Nothing that was read may be unused.
func (b *byteFlow) lost(st *eng.State, pos token.Pos, end bool) {
	if b.prop != "C14" {
		return
	}
	name := eng.FnName(b.root)
	b.each(st, "src", func(x *eng.Term) {
		n := st.Get(sk("nof", x))
		if n == nil || proves(st, linConst(0).plus(linOf(st.E, n), -1)) {
			return
		}
		st.Report("read-bytes-lost", name, pos, "bytes that were read are not used in %s", name)
	})
	b.each(st, "loose", func(x *eng.Term) {
		if proves(st, linConst(0).plus(linLen(st.E, x), -1)) {
			return
		}
		st.Report("frame-bytes-lost", name+":"+x.Op, pos, "bytes taken out of a buffer are not used in %s", name)
	})
	if end {
		b.each(st, "box", func(x *eng.Term) {
			if !b.local(st, x) || st.Get(sk("esc", x)) != nil || b.isEmpty(st, x) || st.GetInt(sk("took", x)) == 1 {
				return
			}
			st.Report("rest-lost", name, pos, "%s drops a buffer that may hold received bytes", name)
		})
	}
}

// isLimit: t is a configured limit for the size of a message.
func (b *byteFlow) isLimit(t *eng.Term) bool {
	t = core(t)
	if t.Kind == eng.KApp && t.Op == "load" && t.Args[0].Kind == eng.KFieldA {
		fv := eng.FieldVar(t.Args[0])
		return fv != nil && b.w.limitFields()[fv]
	}
	if t.Call != nil && b.w.limitGetter(t.Call.Name) {
		return true
	}
	if t.Kind == eng.KField {
		fv := eng.FieldVar(t)
		return fv != nil && b.w.limitFields()[fv]
	}
	if t.Kind == eng.KParam && intTerm(t) {
		for _, p := range b.root.Params {
			if b.params[p] && st0(t, p) {
				return true
			}
		}
	}
	return false
}

func st0(t *eng.Term, p *ssa.Parameter) bool { return t.Op == p.Name() }

// limitFields: the fields that hold the limit of received messages: what the methods store that the
// option MaximumReceiveMessageSize and newLoop call with it.
func (w *World) limitFields() map[*types.Var]bool {
	if w.limits != nil {
		return w.limits
	}
	w.limits, w.getters = map[*types.Var]bool{}, map[string]bool{}
	setters := map[string]bool{"setMaxReceiveMessageSize": true}
	if o := w.Func("MaximumReceiveMessageSize"); o != nil {
		for g := range w.staticReach(o) {
			for _, c := range callsIn(g) {
				if cc := c.Common(); len(cc.Args) > 0 && byteOrInt(cc.Args[len(cc.Args)-1].Type()) {
					if cc.IsInvoke() {
						setters[cc.Method.Name()] = true
					}
				}
			}
		}
	}
	for _, f := range w.Sort {
		if f.Signature.Recv() == nil || len(f.Params) != 2 || !setters[f.Name()] {
			continue
		}
		for _, blk := range f.Blocks {
			for _, i := range blk.Instrs {
				if s, ok := i.(*ssa.Store); ok && s.Val == f.Params[1] {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
						w.limits[fieldVarOfSSA(fa)] = true
					}
				}
			}
		}
	}
	for _, f := range w.Sort {
		if f.Signature.Recv() == nil || len(f.Params) != 1 || f.Signature.Results().Len() != 1 || f.Synthetic != "" {
			continue
		}
		for _, blk := range f.Blocks {
			if ret, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
				if u, ok := ret.Results[0].(*ssa.UnOp); ok {
					if fa, ok := u.X.(*ssa.FieldAddr); ok && w.limits[fieldVarOfSSA(fa)] {
						w.getters[f.Name()] = true
					}
				}
			}
		}
	}
	return w.limits
}

// limitGetter: the call of that name gives the configured limit.
func (w *World) limitGetter(name string) bool {
	w.limitFields()
	i := strings.LastIndexByte(name, '.')
	return i > 0 && w.getters[name[i+1:]]
}

// limitAny: t mentions a limit in whatever form.
func (b *byteFlow) limitAny(t *eng.Term) *eng.Term {
	var m *eng.Term
	t.Any(func(x *eng.Term) bool {
		if b.isLimit(x) {
			m = x
		}
		return m != nil
	})
	return m
}

func (b *byteFlow) source(st *eng.State, c *eng.CallInfo, buf *eng.Term) eng.Decision {
	b.reads[c.Instr] = true
	b.r.inst("read", 1)
	b.r.sample("Read in %s", eng.FnName(c.In))
	x, off, _ := viewOf(st.E, buf)
	param := x.Kind == eng.KParam
	b.lost(st, c.Pos(), false)
	st.Del("errseen")
	if b.framed {
		b.waiting(st, c)
	}
	return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Do: func(st *eng.State, rs []*eng.Term) {
		n := rs[0]
		if param {
			st.Set(sk("n", n), n)
			return
		}
		fill := n
		if len(off.c) > 0 || off.k != 0 {
			// reading behind what is there already
			if old := st.Get(sk("filled", x)); old != nil && proves(st, linOf(st.E, old).plus(off, -1)) {
				var lo *eng.Term = st.E.Int(off.k)
				for t, f := range off.c {
					if f == 1 {
						lo = st.E.App("+", types.Typ[types.Int], lo, t)
					}
				}
				fill = st.E.App("+", types.Typ[types.Int], lo, n)
			}
		}
		st.Set(sk("filled", x), fill)
		st.Set(sk("src", x), x)
		st.SetInt(sk("gid", x), int64(st.GoID()))
		st.Set(sk("nof", x), n)
	}}}}
}

// waiting: more is read. What is there already has to be inspected and bounded.
func (b *byteFlow) waiting(st *eng.State, c *eng.CallInfo) {
	name := eng.FnName(b.root)
	st.Del("need")
	b.each(st, "box", func(x *eng.Term) {
		if containerType(x.Ty) != "bytes.Buffer" || b.isEmpty(st, x) {
			return
		}
		if b.prop == "C14" {
			b.r.inst("inspected-before-read", 1)
			if !b.incomplete(st, x) {
				st.Report("frame-withheld", name, c.Pos(), "%s reads more bytes while a buffer may already hold a complete frame", name)
			}
			return
		}
		b.r.inst("bounded-before-read", 1)
		if !b.bounded(st, b.lenOf(st, x), 16) {
			st.Report("unbounded-buffer", name, c.Pos(), "%s reads more bytes although what is buffered may already exceed the limit for received messages", name)
		}
	})
}

// incomplete: the content of x was searched for a frame and has none.
func (b *byteFlow) incomplete(st *eng.State, x *eng.Term) bool {
	if st.GetInt(sk("insp", x)) == 1 {
		return true
	}
	if ix := st.Get(sk("ix", x)); ix != nil {
		if proves(st, linConst(-1).plus(linOf(st.E, ix), -1)) {
			return true
		}
	}
	f, l := st.Get(sk("uvf", x)), st.Get(sk("uvl", x))
	if f == nil {
		return false
	}
	if proves(st, linConst(0).plus(linOf(st.E, l), -1)) {
		return true
	}
	// len - l < f
	if proves(st, linOf(st.E, f).plus(linOf(st.E, l), 1).plus(b.lenOf(st, x), -1).plus(linConst(1), -1)) {
		return true
	}
	return false
}

// bounded: size <= limit + slack, or there is no limit.
func (b *byteFlow) bounded(st *eng.State, size lin, slack int64) bool {
	ok := b.unlimited(st) || proves(st, linConst(slack).plus(size, -1))
	tried := map[*eng.Term]bool{}
	try := func(m *eng.Term) {
		if m == nil || tried[m] || ok {
			return
		}
		tried[m] = true
		lm := linOf(st.E, m)
		if proves(st, linConst(slack).plus(lm, 1).plus(size, -1)) || proves(st, linConst(slack).plus(size, -1)) || proves(st, linConst(0).plus(lm, -1)) {
			ok = true
		}
	}
	st.Facts(func(t *eng.Term, v bool) {
		if t.Op == "lt" || t.Op == "eq" {
			for _, a := range t.Args {
				try(b.limitAny(a))
			}
		}
	})
	return ok
}

// branch: sizes are compared with the limit.
func (b *byteFlow) branch(st *eng.State, ev *eng.Event) {
	t := ev.Cond
	truth := ev.Truth
	for t.Kind == eng.KApp && t.Op == "not" {
		t, truth = t.Args[0], !truth
	}
	if m := b.limitAny(t); m != nil && proves(st, linConst(0).plus(linOf(st.E, m), -1)) {
		st.SetInt("nolimit", 1)
		return
	}
	if t.Op != "lt" || len(t.Args) != 2 {
		return
	}
	m0, m1 := b.limitAny(t.Args[0]), b.limitAny(t.Args[1])
	var m, s *eng.Term
	over := false
	switch {
	case m0 != nil && m1 == nil:
		m, s, over = m0, t.Args[1], truth // m < s
	case m1 != nil && m0 == nil:
		m, s, over = m1, t.Args[0], !truth // not s < m
	default:
		return
	}
	st.Set("limit", m) // keeps what is known about it
	ls := linOf(st.E, s)
	if len(ls.c) == 0 {
		return // the limit itself is tested
	}
	if !b.checks[ev.Instr] {
		b.checks[ev.Instr] = true
		b.r.inst("limit-compared", 1)
		b.r.sample("size compared with the limit in %s", eng.FnName(ev.Instr.Parent()))
	}
	if !over {
		st.SetInt("checked", 1)
		st.Del("need")
		return
	}
	// refused
	why := ""
	if !proves(st, ls.plus(linOf(st.E, m), -1).plus(linConst(1), -1)) {
		why = "although it may be within the limit"
	}
	for a := range ls.c {
		if a.Op == "len" && len(a.Args) == 1 && a.Args[0].Op == "content" {
			if x := a.Args[0].Args[0]; !b.incomplete(st, x) {
				why = "counting complete messages that are buffered together"
			}
		}
	}
	if why != "" {
		st.Set("refused", st.E.Str(why))
		st.SetInt("refusedAt", int64(ev.Instr.Pos()))
	} else {
		st.Set("refused", st.E.Str(""))
	}
}

// container handles a method of a byte container.
func (b *byteFlow) container(st *eng.State, c *eng.CallInfo, x *eng.Term) (eng.Decision, bool) {
	i := strings.LastIndex(c.Name, ").")
	if i < 0 {
		return eng.Decision{}, false
	}
	m := c.Name[i+2:]
	ua := c.UserArgs()
	if c.Invoke {
		ua = c.Args
	}
	b.boxed(st, x)
	if st.GetInt(sk("fill", x)) == 0 {
		if b.local(st, x) {
			st.SetInt(sk("fill", x), 2)
		} else {
			st.SetInt(sk("fill", x), 1)
		}
	}
	one := func(do func(st *eng.State, rs []*eng.Term), results ...*eng.Term) (eng.Decision, bool) {
		return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Results: results, Do: do}}}, true
	}
	isBuf := containerType(x.Ty) == "bytes.Buffer"
	switch m {
	case "Len", "Buffered", "Size", "Available":
		if m == "Len" {
			return one(nil, st.E.App("len", types.Typ[types.Int], b.content(st, x)))
		}
	case "Bytes":
		return one(nil, b.content(st, x))
	case "String":
		return one(nil, st.E.App("conv:string", types.Typ[types.String], b.content(st, x)))
	case "Write", "WriteString", "WriteByte", "WriteRune":
		nodelim := len(ua) == 1 && st.Get(sk("nodelim", core(ua[0]))) != nil
		for _, a := range ua {
			b.touch(st, a, c.Pos(), m)
		}
		// what is put back without delimiter is no frame
		st.Del("checked")
		insp := nodelim && (b.isEmpty(st, x) || b.incomplete(st, x))
		b.changed(st, x, c.Instr, 1)
		if insp {
			st.SetInt(sk("insp", x), 1)
		}
		return eng.Decision{Mode: eng.Opaque}, true
	case "ReadFrom":
		st.Del("checked")
		if y := core(ua[0]); containerType(y.Ty) != "" {
			// everything moves from y to x; an inspection stays valid when x was empty
			insp := b.isEmpty(st, x) && b.incomplete(st, y)
			wasEmpty := b.isEmpty(st, y)
			if !wasEmpty {
				b.changed(st, x, c.Instr, 1)
				if insp {
					st.SetInt(sk("insp", x), 1)
				}
			}
			b.changed(st, y, c.Instr, 2)
			return eng.Decision{Mode: eng.Opaque}, true
		}
		b.changed(st, x, c.Instr, 1)
		return eng.Decision{Mode: eng.Opaque}, true
	case "WriteTo":
		b.changed(st, x, c.Instr, 2)
		return eng.Decision{Mode: eng.Opaque}, true
	case "Reset", "Truncate":
		if m == "Truncate" {
			if n, ok := eng.IntConst(ua[0]); !ok || n != 0 {
				break
			}
		}
		if b.prop == "C14" && !b.isEmpty(st, x) && st.GetInt(sk("took", x)) != 1 {
			st.Report("bytes-discarded", eng.FnName(b.root), c.Pos(), "%s discards buffered bytes", eng.FnName(b.root))
		}
		fill := int64(2)
		if m == "Reset" && len(ua) > 0 {
			b.touch(st, ua[0], c.Pos(), m)
			fill = 1
		}
		b.changed(st, x, c.Instr, fill)
		return eng.Decision{Mode: eng.Opaque}, true
	case "Next", "Discard":
		n := ua[0]
		split := true
		if k, ok := eng.IntConst(n); ok && k == 1 {
			split = false
		}
		if l := st.Get(sk("uvl", x)); l != nil && core(n) == core(l) {
			split = false
		}
		uvf, uvl := st.Get(sk("uvf", x)), st.Get(sk("uvl", x))
		return one(func(st *eng.State, rs []*eng.Term) {
			b.changed(st, x, c.Instr, 1)
			if split {
				if m == "Next" && len(rs) > 0 {
					b.loose(st, rs[0])
				}
				if st.GetInt("checked") != 1 {
					st.SetInt("need", int64(c.Pos()))
				}
				st.Del("checked")
			}
			_, _ = uvf, uvl
		})
	case "ReadBytes", "ReadString", "ReadSlice":
		isDelim := false
		if k, ok := eng.IntConst(ua[0]); ok && k == delim {
			isDelim = true
		}
		outs := []eng.Outcome{{Results: []*eng.Term{nil, st.E.Nil()}, Do: func(st *eng.State, rs []*eng.Term) {
			b.changed(st, x, c.Instr, 1)
			b.loose(st, rs[0])
			if isDelim {
				if st.GetInt("checked") != 1 {
					st.SetInt("need", int64(c.Pos()))
				}
				st.Del("checked")
			}
		}}, {Do: func(st *eng.State, rs []*eng.Term) {
			st.Assume(st.E.Eq(rs[1], st.E.Nil()), false)
			b.changed(st, x, c.Instr, 2)
			b.loose(st, rs[0])
			if isDelim {
				st.Set(sk("nodelim", rs[0]), rs[0])
			}
		}}}
		if !isBuf && containerType(x.Ty) == "bufio.Reader" {
			// reads from its source: after an error nothing is left
			outs[0].Do = func(st *eng.State, rs []*eng.Term) {
				st.SetInt(sk("fill", x), 1)
				b.loose(st, rs[0])
			}
		}
		return eng.Decision{Mode: eng.Outcomes, Outcomes: outs}, true
	case "ReadLine":
		return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{
			{Results: []*eng.Term{nil, nil, st.E.Nil()}, Do: func(st *eng.State, rs []*eng.Term) {
				st.SetInt(sk("fill", x), 1)
				if b.prop != "C14" {
					return
				}
				if st.GetInt("linepart") == 1 {
					st.Report("line-part-lost", eng.FnName(b.root), c.Pos(), "%s drops the first part of a long line without looking at it", eng.FnName(b.root))
				}
				st.Del("linepart")
				st.Set("line", rs[0])
				st.Set("linepfx", rs[1])
				if v, ok := c.Instr.(ssa.Value); ok && !b.extracts(v, 1) {
					st.Report("line-part-lost", eng.FnName(b.root), c.Pos(), "%s does not look whether a line was received completely", eng.FnName(b.root))
				}
			}},
			{Do: func(st *eng.State, rs []*eng.Term) {
				st.Assume(st.E.Eq(rs[2], st.E.Nil()), false)
				st.SetInt(sk("fill", x), 2)
			}}}}, true
	case "Read":
		buf := ua[0]
		y, _, _ := viewOf(st.E, buf)
		return one(func(st *eng.State, rs []*eng.Term) {
			b.changed(st, x, c.Instr, 1)
			if y.Kind == eng.KParam {
				st.Set(sk("n", rs[0]), rs[0])
				return
			}
			st.Set(sk("filled", y), rs[0])
			st.Set(sk("src", y), y)
			st.Set(sk("nof", y), rs[0])
		})
	}
	b.changed(st, x, c.Instr, 1)
	return eng.Decision{Mode: eng.Opaque}, true
}

// peek: the call only looks at its arguments.
func peek(n string) bool {
	return hasSuffixAny(n, "bytes.Contains", "bytes.Equal", "bytes.HasPrefix", "bytes.HasSuffix", "bytes.Count", "strings.Contains", "strings.HasPrefix", "strings.HasSuffix", "errors.Is", "errors.New", "fmt.Errorf", "fmt.Sprintf")
}

func (b *byteFlow) call(st *eng.State, c *eng.CallInfo) eng.Decision {
	if isLogCall(c.Name) || hasSuffixAny(c.Name, "log.WithPrefix", "log.With") {
		return eng.Decision{}
	}
	home := c.Fn != nil && b.w.Home(c.Fn)
	if home && (formatter(c.Fn) || c.Fn.Name() == "prefixLoggers" || c.Fn.Name() == "loggers") {
		return opaque
	}
	args := c.UserArgs()
	if c.Invoke || c.Recv == nil {
		args = c.Args
	}
	if c.Recv != nil && !home {
		x := core(c.Recv)
		if containerType(x.Ty) != "" {
			if d, ok := b.container(st, c, x); ok {
				return d
			}
		}
	}
	if home && !c.Invoke && !b.out[c.Fn] {
		return eng.Decision{}
	}
	plain := eng.Decision{}
	if home {
		plain = opaque
		b.each(st, "box", func(x *eng.Term) {
			for _, k := range []string{"uvf", "uvl", "ix"} {
				st.Del(sk(k, x))
			}
		})
		st.Del("limit")
	}
	switch {
	case c.Fn != nil && !home && hasSuffixAny(c.Name, "io.ReadFull", "io.ReadAtLeast") && len(c.Args) >= 2:
		return b.source(st, c, c.Args[1])
	case (c.Invoke || c.Recv != nil) && strings.HasSuffix(c.Name, ").Read") && isReadSig(c.Sig):
		return b.source(st, c, args[0])
	case (c.Invoke || c.Recv != nil) && strings.HasSuffix(c.Name, ").Read") && msgRead(c.Sig) >= 0:
		k := msgRead(c.Sig)
		b.reads[c.Instr] = true
		b.r.inst("read", 1)
		b.lost(st, c.Pos(), false)
		outs := []eng.Outcome{{Do: func(st *eng.State, rs []*eng.Term) {
			if er := rs[len(rs)-1]; isErrorType(er.Ty) {
				st.Assume(st.E.Eq(er, st.E.Nil()), true)
			}
			b.loose(st, rs[k])
		}}}
		if isErrorType(c.Sig.Results().At(c.Sig.Results().Len() - 1).Type()) {
			outs = append(outs, eng.Outcome{Do: func(st *eng.State, rs []*eng.Term) {
				st.Assume(st.E.Eq(rs[len(rs)-1], st.E.Nil()), false)
			}})
		}
		return eng.Decision{Mode: eng.Outcomes, Outcomes: outs}
	case c.Invoke && strings.HasSuffix(c.Name, ").ParseMessages") && len(c.Args) == 2:
		// what is left in the buffer belongs to the next call
		x, k := core(c.Args[1]), fmt.Sprintf("parsebuf:%d", st.GoID())
		if y := st.Get(k); y != nil && y != x && b.prop == "C14" {
			st.Report("bytes-discarded", eng.FnName(b.root), c.Pos(), "%s does not give the bytes that were left by the call before to the parser", eng.FnName(b.root))
		}
		st.Set(k, x)
		if o, ok := c.Instr.(ssa.CallInstruction); ok && b.prop == "C14" {
			b.r.inst("parser-call", 1)
			if a := allocOf(o.Common().Args[1]); a != nil && o.Parent() == a.Parent() && st.E.InLoop(o.Block()) && blockReach(o.Block(), a.Block()) {
				st.Report("bytes-discarded", eng.FnName(b.root), c.Pos(), "%s gives the parser a new buffer in each round, which loses the bytes that were left by the call before", eng.FnName(b.root))
			}
		}
		return opaque
	case hasSuffixAny(c.Name, "bytes.Trim", "bytes.TrimLeft", "bytes.TrimRight", "bytes.TrimSpace", "bytes.TrimFunc", "bytes.TrimPrefix", "bytes.TrimSuffix", "bytes.Fields", "bytes.ReplaceAll", "bytes.Replace", "bytes.Map") && b.prop == "C14":
		// may remove bytes; what they belong to is unknown when they were just read
		if x, _, _ := viewOf(st.E, c.Args[0]); st.Get(sk("filled", x)) != nil {
			st.Report("frame-bytes-lost", eng.FnName(b.root), c.Pos(), "%s may remove bytes from what was read (%s)", eng.FnName(b.root), c.Name)
		}
	case hasSuffixAny(c.Name, "binary.Uvarint", "binary.ReadUvarint") && len(c.Args) == 1:
		x, _, _ := viewOf(st.E, c.Args[0])
		if x.Op == "content" {
			y := x.Args[0]
			return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Do: func(st *eng.State, rs []*eng.Term) {
				st.Set(sk("uvf", y), rs[0])
				st.Set(sk("uvl", y), rs[1])
				st.Del("checked")
			}}}}
		}
		if st.Get(sk("filled", x)) != nil {
			b.touch(st, c.Args[0], c.Pos(), "Uvarint")
		}
		return eng.Decision{}
	case hasSuffixAny(c.Name, "bytes.IndexByte", "bytes.Index", "bytes.IndexRune", "bytes.IndexAny") && len(c.Args) == 2:
		x, _, _ := viewOf(st.E, c.Args[0])
		d := false
		if k, ok := eng.IntConst(c.Args[1]); ok && k == delim {
			d = true
		}
		if !strings.HasSuffix(c.Name, "IndexByte") {
			d = true
		}
		if x.Op == "content" && d {
			y := x.Args[0]
			return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Do: func(st *eng.State, rs []*eng.Term) {
				st.Set(sk("ix", y), rs[0])
				st.Del("checked")
			}}}}
		}
		return eng.Decision{}
	case hasSuffixAny(c.Name, "bytes.Split", "bytes.SplitN", "bytes.SplitAfter", "bytes.Cut", "bytes.Contains", "bytes.Count") && len(c.Args) >= 2:
		if x, _, _ := viewOf(st.E, c.Args[0]); x.Op == "content" {
			st.SetInt(sk("insp", x.Args[0]), 1)
		}
	}
	if c.Name == "errors.Is" && len(c.Args) == 2 {
		if eng.IsNil(c.Args[0]) {
			return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Results: []*eng.Term{st.E.Bool(false)}}}}
		}
	}
	if peek(c.Name) {
		return eng.Decision{}
	}
	if hasSuffixAny(c.Name, "bytes.NewBuffer", "bytes.NewReader", "strings.NewReader", "bytes.NewBufferString", "bufio.NewReader", "bufio.NewReaderSize") {
		b.touch(st, c.Args[0], c.Pos(), c.Name)
		fill := int64(1)
		if strings.HasPrefix(c.Name, "bufio.") || eng.IsNil(core(c.Args[0])) {
			fill = 2
		}
		return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Do: func(st *eng.State, rs []*eng.Term) {
			st.Del(sk("esc", rs[0]))
			b.changed(st, rs[0], c.Instr, fill)
		}}}}
	}
	for _, a := range args {
		b.touch(st, a, c.Pos(), c.Name)
	}
	if c.Recv != nil {
		b.touch(st, c.Recv, c.Pos(), c.Name)
	}
	if i := strings.LastIndexAny(c.Name, "."); i >= 0 && (strings.HasPrefix(c.Name[i+1:], "Write") || strings.HasPrefix(c.Name[i+1:], "Fprint") || strings.HasPrefix(c.Name[i+1:], "Copy")) {
		for _, a := range c.Args {
			b.lineUsed(st, a)
			for _, y := range st.SliceElems(a) {
				b.lineUsed(st, y)
			}
		}
	}
	return plain
}

// allocOf is the local variable an address is taken of.
func allocOf(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return nil
		}
	}
}

// blockReach: there is a path from the end of a to b.
func blockReach(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(a)
}

// extracts: the i-th result of the call is used.
func (b *byteFlow) extracts(v ssa.Value, i int) bool {
	for _, r := range *v.Referrers() {
		if x, ok := r.(*ssa.Extract); ok && x.Index == i && len(*x.Referrers()) > 0 {
			return true
		}
	}
	return false
}

// lineUsed: part of a line that was read goes elsewhere.
func (b *byteFlow) lineUsed(st *eng.State, t *eng.Term) {
	if l := st.Get("line"); l != nil && t != nil && t.Contains(l) {
		st.Del("line")
		st.Del("linepfx")
		st.Del("linepart")
	}
}

// lineBranch: a decision that depends only on the line being continued does not tell that it can be dropped.
func (b *byteFlow) lineBranch(st *eng.State, t *eng.Term, truth bool) {
	l, p := st.Get("line"), st.Get("linepfx")
	switch {
	case l == nil:
	case t == p && truth:
		st.SetInt("linepart", 1)
	case t.Contains(l):
		st.Del("line")
		st.Del("linepfx")
		st.Del("linepart")
	}
}

func (b *byteFlow) loose(st *eng.State, x *eng.Term) {
	st.Set(sk("loose", x), x)
	st.SetInt(sk("gid", x), int64(st.GoID()))
}

func (b *byteFlow) unloose(st *eng.State, x *eng.Term) {
	if st.Get(sk("loose", x)) == nil {
		return
	}
	st.Del(sk("loose", x))
	st.Del(sk("gid", x))
	st.Del(sk("nodelim", x))
}

func (b *byteFlow) drop(st *eng.State, x *eng.Term) {
	suf := fmt.Sprintf(":%d", x.ID)
	for k := range st.A {
		if strings.HasSuffix(k, suf) {
			st.Del(k)
		}
	}
}

func (b *byteFlow) event(st *eng.State, ev *eng.Event) {
	if overOf(ev) {
		st.SetInt("errseen", 1)
	}
	switch ev.Kind {
	case eng.EvSend:
		b.touch(st, ev.Val, ev.Instr.Pos(), "send")
	case eng.EvSelect:
		if ev.SendOK {
			b.touch(st, ev.Val, ev.Instr.Pos(), "send")
		}
	case eng.EvCopy:
		dst, src := linLen(st.E, ev.Addr), linLen(st.E, ev.Val)
		if proves(st, dst.plus(src, -1)) {
			b.touch(st, ev.Val, ev.Instr.Pos(), "copy")
		}
	case eng.EvAppend:
		b.touch(st, ev.Val, ev.Instr.Pos(), "append")
		b.lineUsed(st, ev.Val)
	case eng.EvStore:
		// a store to a variable of its own is no use
		if ev.Addr.Kind == eng.KObj {
			return
		}
		b.touch(st, ev.Val, ev.Instr.Pos(), "store")
		b.lineUsed(st, ev.Val)
	case eng.EvBranch:
		if b.framed {
			b.branch(st, ev)
		}
		t, truth := ev.Cond, ev.Truth
		for t.Kind == eng.KApp && t.Op == "not" {
			t, truth = t.Args[0], !truth
		}
		b.lineBranch(st, t, truth)
		if t.Op == "eq" && !truth && (eng.IsNil(t.Args[0]) && isErrorType(t.Args[1].Ty) || eng.IsNil(t.Args[1]) && isErrorType(t.Args[0].Ty)) {
			st.SetInt("errseen", 1)
		}
	case eng.EvReturn:
		if ev.Kind2 != eng.GoF {
			return
		}
		if st.GetInt("errseen") != 1 {
			b.lost(st, ev.Instr.Pos(), true)
		}
		st.Del("errseen")
		id := int64(st.GoID())
		b.each(st, "box", func(x *eng.Term) {
			if b.local(st, x) && st.GetInt(sk("gid", x)) == id {
				b.drop(st, x)
			}
		})
		b.each(st, "loose", func(x *eng.Term) {
			if st.GetInt(sk("gid", x)) == id {
				b.drop(st, x)
			}
		})
		b.each(st, "src", func(x *eng.Term) {
			if st.GetInt(sk("gid", x)) == id {
				b.drop(st, x)
			}
		})
	case eng.EvEnd:
		for _, v := range ev.Vals {
			b.touch(st, v, ev.Instr.Pos(), "return")
		}
		if b.errorEnd(st, ev.Vals) {
			if b.prop == "C11" && b.framed {
				if s := st.Get("refused"); s != nil {
					b.r.inst("refusal", 1)
					if why, _ := eng.StrConst(s); why != "" {
						st.Report("refused-within-limit", eng.FnName(b.root), token.Pos(st.GetInt("refusedAt")), "%s refuses a message %s", eng.FnName(b.root), why)
					}
				}
			}
			return
		}
		if _, ok := b.errorResult(); !ok {
			return
		}
		b.lost(st, ev.Instr.Pos(), true)
		if b.prop == "C14" {
			b.r.inst("end-without-error", 1)
		}
		if b.prop == "C11" && b.framed {
			if p := st.GetInt("need"); p != 0 && !b.unlimited(st) {
				st.Report("frame-unchecked", eng.FnName(b.root), token.Pos(p), "%s delivers a frame without comparing its size with the limit", eng.FnName(b.root))
			}
		}
	}
}

func (b *byteFlow) unlimited(st *eng.State) bool {
	ok := st.GetInt("nolimit") == 1
	st.Facts(func(t *eng.Term, v bool) {
		for _, a := range t.Args {
			if m := b.limitAny(a); m != nil && proves(st, linConst(0).plus(linOf(st.E, m), -1)) {
				ok = true
			}
		}
	})
	return ok
}

func (b *byteFlow) errorResult() (int, bool) {
	rs := b.root.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if isErrorType(rs.At(i).Type()) {
			return i, true
		}
		if s, ok := rs.At(i).Type().Underlying().(*types.Struct); ok {
			for k := 0; k < s.NumFields(); k++ {
				if isErrorType(s.Field(k).Type()) {
					return i, true
				}
			}
		}
	}
	return 0, false
}

// errorEnd: the path ends with an error.
func (b *byteFlow) errorEnd(st *eng.State, vals []*eng.Term) bool {
	i, ok := b.errorResult()
	if !ok || i >= len(vals) {
		return false
	}
	v := vals[i]
	if s, ok := b.root.Signature.Results().At(i).Type().Underlying().(*types.Struct); ok && !isErrorType(b.root.Signature.Results().At(i).Type()) {
		for k := 0; k < s.NumFields(); k++ {
			if isErrorType(s.Field(k).Type()) {
				v = st.E.Field(v, k, s.Field(k).Type())
			}
		}
	}
	n, known := isNilTerm(st, v)
	return known && !n
}

// selfContained: what f reads into, and what it keeps the bytes in, is its own.
func selfContained(f *ssa.Function) bool {
	for i, p := range f.Params {
		if f.Signature.Recv() != nil && i == 0 {
			continue
		}
		if byteSlice(p.Type()) || containerType(p.Type()) != "" {
			return false
		}
	}
	return true
}

// readRoots are the functions to explore: the ones that read, or their callers when the buffers are
// given by these.
func (w *World) readRoots() (roots []*ssa.Function, framed map[*ssa.Function]bool) {
	framed = map[*ssa.Function]bool{}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function, d int)
	iface := func(f *ssa.Function) bool {
		if f.Signature.Recv() == nil {
			return false
		}
		switch f.Name() {
		case "ParseMessages", "Read", "Receive", "Write":
			return true
		}
		return false
	}
	add = func(f *ssa.Function, d int) {
		f = outer(f)
		if seen[f] || d > 5 {
			return
		}
		seen[f] = true
		if !iface(f) && !selfContained(f) {
			cs, _ := w.callersOf(f)
			n := 0
			for _, c := range cs {
				if c.Synthetic == "" {
					n++
					add(c, d+1)
				}
			}
			if n > 0 {
				return
			}
		}
		roots = append(roots, f)
	}
	for _, f := range w.Sort {
		if f.Synthetic != "" {
			continue
		}
		for _, c := range callsIn(f) {
			cc := c.Common()
			n := calleeName(cc)
			if g := cc.StaticCallee(); g != nil && w.Home(g) {
				continue
			}
			sig := cc.Signature()
			if strings.HasSuffix(n, ").Read") && (isReadSig(sig) || msgRead(sig) >= 0) || hasSuffixAny(n, "io.ReadFull", "io.ReadAtLeast") {
				add(f, 0)
			}
			if hasSuffixAny(n, "bufio.NewReader", "bufio.NewReaderSize", "bufio.NewScanner") {
				add(f, 0)
			}
		}
	}
	sort.Slice(roots, func(i, j int) bool { return eng.FnName(roots[i]) < eng.FnName(roots[j]) })
	for _, f := range roots {
		switch {
		case f.Name() == "ParseMessages" && f.Signature.Recv() != nil:
			framed[f] = true
		case f.Signature.Recv() != nil && (f.Name() == "Read" || f.Name() == "Write" || f.Name() == "Receive"):
		default:
			// splits text frames: mentions the delimiter
			reach := w.staticReach(f)
			for g := range reach {
				if usesConst(g, delim) {
					framed[f] = true
				}
			}
		}
	}
	return roots, framed
}

// staticReach: home functions statically called from f, closures included.
func (w *World) staticReach(f *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		if g == nil || out[g] || !w.Home(g) || len(g.Blocks) == 0 {
			return
		}
		out[g] = true
		for _, c := range callsIn(g) {
			walk(c.Common().StaticCallee())
		}
		for _, a := range g.AnonFuncs {
			walk(a)
		}
	}
	walk(f)
	return out
}

func usesConst(f *ssa.Function, n int64) bool {
	for _, c := range callsIn(f) {
		for _, a := range c.Common().Args {
			if k, ok := a.(*ssa.Const); ok && k.Value != nil && byteOrInt(k.Type()) && k.Int64() == n {
				return true
			}
		}
	}
	return false
}

func byteOrInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (w *World) runByteFlow(r *Report, prop string, f *ssa.Function, framed bool) *byteFlow {
	b := &byteFlow{w: w, r: r, prop: prop, root: f, framed: framed, reads: map[ssa.Instruction]bool{}, params: map[*ssa.Parameter]bool{}, checks: map[ssa.Instruction]bool{}}
	// an integer parameter is a limit when every caller passes one
	for i, p := range f.Params {
		if byteOrInt(p.Type()) && w.limitArg(f, i, 0) {
			b.params[p] = true
		}
	}
	// functions that decode frames are not looked into, unless they read
	reads := w.reaching(func(i ssa.Instruction) bool {
		c, ok := i.(ssa.CallInstruction)
		if !ok {
			return false
		}
		cc := c.Common()
		if g := cc.StaticCallee(); g != nil && w.Home(g) {
			return false
		}
		n := calleeName(cc)
		return strings.HasSuffix(n, ").Read") && (isReadSig(cc.Signature()) || msgRead(cc.Signature()) >= 0) || hasSuffixAny(n, "io.ReadFull", "io.ReadAtLeast")
	})
	dec := w.reachCalls(func(n string, c ssa.CallInstruction) bool {
		return strings.HasPrefix(n, "encoding/json.") || strings.HasPrefix(n, "(encoding/json.") || strings.Contains(n, "vmihailenco/msgpack")
	})
	b.out = map[*ssa.Function]bool{}
	for g := range dec {
		if !reads[g] {
			b.out[g] = true
		}
	}
	e := w.engine(&client{call: b.call, event: b.event})
	e.Run(f, nil, func(st *eng.State) {
		for _, p := range f.Params {
			if containerType(p.Type()) != "" {
				x := st.E.Param(p.Name(), p.Type())
				st.Set(sk("box", x), x)
				st.SetInt(sk("fill", x), 1)
			}
		}
	})
	r.absorb(e)
	return b
}

// limitArg: parameter i of f is always given a limit.
func (w *World) limitArg(f *ssa.Function, i, d int) bool {
	n := 0
	for _, u := range w.Sort {
		for _, c := range callsIn(u) {
			if c.Common().StaticCallee() != f || i >= len(c.Common().Args) {
				continue
			}
			n++
			if !w.limitValue(c.Common().Args[i], d) {
				return false
			}
		}
	}
	return n > 0
}

func (w *World) limitValue(v ssa.Value, d int) bool {
	if d > 4 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Convert:
		return w.limitValue(v.X, d)
	case *ssa.ChangeType:
		return w.limitValue(v.X, d)
	case *ssa.Call:
		return w.limitGetter(calleeName(v.Common()))
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			return w.limitFields()[fieldVarOfSSA(fa)]
		}
	case *ssa.Parameter:
		for i, p := range v.Parent().Params {
			if p == v {
				return w.limitArg(v.Parent(), i, d+1)
			}
		}
	}
	return false
}

func checkC14(w *World, r *Report) {
	r.rule("a buffer given to Read is handed on only up to the number of bytes that were read")
	r.rule("bytes that were read, or taken out of a buffer, are used before the next read and before the function ends without error; a buffer that may still hold bytes is not dropped or reset")
	r.rule("the frame readers read more bytes only when what is buffered was searched and holds no complete frame")
	roots, framed := w.readRoots()
	nf, reads := 0, map[ssa.Instruction]bool{}
	r.rule("the message loop reads from the connection that returns the bytes received behind the handshake")
	w.runHandshakes(r, "C14")
	for _, f := range roots {
		b := w.runByteFlow(r, "C14", f, framed[f])
		for i := range b.reads {
			reads[i] = true
		}
		if framed[f] {
			nf++
		}
		r.sample("root %s framed=%v", eng.FnName(f), framed[f])
	}
	r.need(nf >= 3, "C14", "the readers of text, binary and handshake frames")
	r.need(len(reads) >= 6, "C14", "the calls of Read")
}

func checkC11(w *World, r *Report) {
	r.rule("the frame readers compare what is buffered with the configured limit before they read more, and each frame before they deliver it; a message is refused only when its own size exceeds the limit")
	r.need(len(w.limitFields()) >= 3 && len(w.getters) > 0, "C11", "the fields and methods of the receive limit")
	roots, framed := w.readRoots()
	nf := 0
	for _, f := range roots {
		if !framed[f] {
			continue
		}
		nf++
		b := w.runByteFlow(r, "C11", f, true)
		r.need(len(b.checks) > 0, "C11", "a comparison with the limit in "+eng.FnName(f))
	}
	w.checkLimits(r)
	r.need(nf >= 3, "C11", "the readers of text, binary and handshake frames")
}

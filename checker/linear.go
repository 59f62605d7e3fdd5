package main

import (
	"go/types"
	"strings"

	"verif/checker/eng"
)

// A small domain of linear inequalities over terms, for bounds of indexes and slices.

// lin is sum(c[t]*t) + k.
type lin struct {
	c map[*eng.Term]int64
	k int64
}

func (a lin) plus(b lin, f int64) lin {
	out := lin{map[*eng.Term]int64{}, a.k + f*b.k}
	for t, v := range a.c {
		out.c[t] = v
	}
	for t, v := range b.c {
		if out.c[t] += f * v; out.c[t] == 0 {
			delete(out.c, t)
		}
	}
	return out
}

func linConst(n int64) lin { return lin{map[*eng.Term]int64{}, n} }

// linOf is the linear form of an integer term.
func linOf(e *eng.Engine, t *eng.Term) lin {
	t = eng.StripConv(t)
	if n, ok := eng.IntConst(t); ok {
		return linConst(n)
	}
	if t.Kind == eng.KApp && len(t.Args) == 2 {
		switch t.Op {
		case "+":
			return linOf(e, t.Args[0]).plus(linOf(e, t.Args[1]), 1)
		case "-":
			return linOf(e, t.Args[0]).plus(linOf(e, t.Args[1]), -1)
		}
	}
	if t.Kind == eng.KApp && (t.Op == "len" || t.Op == "cap") && len(t.Args) == 1 {
		return linLen(e, t.Args[0])
	}
	return lin{map[*eng.Term]int64{t: 1}, 0}
}

// linLen is the linear form of the length of a slice, array or string term.
func linLen(e *eng.Engine, b *eng.Term) lin {
	b = stripLenConv(b)
	if eng.IsNil(b) {
		return linConst(0)
	}
	if s, ok := eng.StrConst(b); ok {
		return linConst(int64(len(s)))
	}
	if b.Ty != nil {
		ty := b.Ty.Underlying()
		if p, ok := ty.(*types.Pointer); ok {
			ty = p.Elem().Underlying()
		}
		if a, ok := ty.(*types.Array); ok {
			return linConst(a.Len())
		}
	}
	switch {
	case b.Kind == eng.KObj && b.Op == "mkslice" && len(b.Args) > 0:
		return linOf(e, b.Args[0])
	case b.Kind == eng.KApp && b.Op == "slice" && len(b.Args) == 3:
		lo := linConst(0)
		if b.Args[1].Op != "none" {
			lo = linOf(e, b.Args[1])
		}
		if b.Args[2].Op != "none" {
			return linOf(e, b.Args[2]).plus(lo, -1)
		}
		return linLen(e, b.Args[0]).plus(lo, -1)
	case b.Kind == eng.KApp && b.Op == "append" && len(b.Args) == 2:
		return linLen(e, b.Args[0]).plus(linLen(e, b.Args[1]), 1)
	}
	return lin{map[*eng.Term]int64{e.App("len", types.Typ[types.Int], b): 1}, 0}
}

// stripLenConv strips conversions that keep the length.
func stripLenConv(b *eng.Term) *eng.Term {
	for {
		c := eng.StripConv(b)
		if c == b {
			return b
		}
		b = c
	}
}

// atomFacts are inequalities (form >= 0) that hold for an atom by what it is.
func atomFacts(st *eng.State, t *eng.Term) []lin {
	e := st.E
	one := lin{map[*eng.Term]int64{t: 1}, 0}
	var out []lin
	if t.Kind == eng.KApp && t.Op == "len" {
		out = append(out, one)
		s := t.Args[0]
		if c := s.Call; c != nil {
			switch c.Name {
			case "(bytes.Buffer).Next":
				if len(c.Args) == 2 {
					out = append(out, linOf(e, c.Args[1]).plus(one, -1))
				}
			case "strings.Split", "bytes.Split", "strings.SplitN", "bytes.SplitN", "strings.SplitAfter":
				out = append(out, one.plus(linConst(1), -1))
			case "(bytes.Buffer).ReadBytes", "(bufio.Reader).ReadBytes", "(bufio.Reader).ReadString", "(bytes.Buffer).ReadString":
				// without error, the delimiter is included
				okErr := false
				st.Facts(func(f *eng.Term, v bool) {
					// the delimiter has been found in the buffer before
					if f.Kind == eng.KApp && f.Op == "lt" && len(f.Args) == 2 && !v && eng.IsZero(f.Args[1]) {
						if x := f.Args[0].Call; x != nil && x.Name == "bytes.IndexByte" && len(x.Args) == 2 && x.Args[1] == c.Args[len(c.Args)-1] {
							if b := x.Args[0].Call; b != nil && b.Name == "(bytes.Buffer).Bytes" && len(b.Args) > 0 && b.Args[0] == c.Args[0] {
								okErr = true
								out = append(out, one.plus(linOf(e, f.Args[0]), -1).plus(linConst(1), -1))
							}
						}
					}
					if v && f.Kind == eng.KApp && f.Op == "eq" {
						for i := 0; i < 2; i++ {
							if eng.IsNil(f.Args[i]) && f.Args[1-i].Call != nil && f.Args[1-i].Call.Instr == c.Instr {
								okErr = true
							}
						}
					}
				})
				if okErr {
					out = append(out, one.plus(linConst(1), -1))
				}
			}
		}
		return out
	}
	if lo, _, has, _ := st.Interval(t); has {
		out = append(out, one.plus(linConst(lo), -1))
	}
	if c := t.Call; c != nil {
		neg := lin{map[*eng.Term]int64{t: -1}, 0}
		ua := c.Args
		last := func() *eng.Term {
			if len(ua) == 0 {
				return nil
			}
			return ua[len(ua)-1]
		}
		switch {
		case hasSuffixAny(c.Name, ").Read") && strings.HasSuffix(t.Op, "#0") && last() != nil:
			out = append(out, one, linLen(e, last()).plus(one, -1))
		case (c.Name == "encoding/binary.Uvarint" || c.Name == "encoding/binary.Varint") && strings.HasSuffix(t.Op, "#1") && last() != nil:
			out = append(out, linLen(e, last()).plus(one, -1))
		case (c.Name == "encoding/binary.PutUvarint" || c.Name == "encoding/binary.PutVarint") && len(ua) > 0:
			out = append(out, one.plus(linConst(1), -1), linLen(e, ua[0]).plus(one, -1))
		case hasSuffixAny(c.Name, "bytes.IndexByte", "bytes.Index", "strings.Index", "strings.IndexByte", "strings.LastIndex", "bytes.LastIndexByte") && len(ua) > 0:
			out = append(out, one.plus(linConst(1), 1), linLen(e, ua[0]).plus(one, -1).plus(linConst(1), -1))
		}
		_ = neg
	}
	if t.Kind == eng.KApp && strings.HasPrefix(t.Op, "copy") {
		out = append(out, one)
		for _, a := range t.Args {
			out = append(out, linLen(e, a).plus(one, -1))
		}
	}
	return out
}

// proves: the facts of the path imply goal >= 0.
func proves(st *eng.State, goal lin) bool {
	if len(goal.c) == 0 {
		return goal.k >= 0
	}
	e := st.E
	// negation: -goal - 1 >= 0
	cs := []lin{goal.plus(lin{}, 0)}
	cs[0] = linConst(-1).plus(goal, -1)
	var facts []lin
	st.Facts(func(t *eng.Term, v bool) {
		if t.Kind != eng.KApp || len(t.Args) != 2 {
			return
		}
		a, b := t.Args[0], t.Args[1]
		if !intTerm(a) || !intTerm(b) {
			return
		}
		switch {
		case t.Op == "lt" && v:
			facts = append(facts, linOf(e, b).plus(linOf(e, a), -1).plus(linConst(1), -1))
		case t.Op == "lt":
			facts = append(facts, linOf(e, a).plus(linOf(e, b), -1))
		case t.Op == "eq" && v:
			d := linOf(e, a).plus(linOf(e, b), -1)
			facts = append(facts, d, linConst(0).plus(d, -1))
		}
	})
	// disequalities sharpen a bound: x != 0 and x >= 0 give x >= 1
	st.Facts(func(t *eng.Term, v bool) {
		if t.Kind == eng.KApp && t.Op == "eq" && !v && len(t.Args) == 2 && intTerm(t.Args[0]) && intTerm(t.Args[1]) {
			d := linOf(e, t.Args[0]).plus(linOf(e, t.Args[1]), -1)
			if len(d.c) == 1 {
				for x, f := range d.c {
					if f < 0 {
						d = linConst(0).plus(d, -1)
					}
					if lo, _, has, _ := st.Interval(x); has && lo == -d.k {
						facts = append(facts, d.plus(linConst(1), -1))
					} else if x.Op == "len" && d.k == 0 {
						facts = append(facts, d.plus(linConst(1), -1))
					}
				}
			}
		}
	})
	// what is found in a string is not longer than it
	st.Facts(func(t *eng.Term, v bool) {
		if t.Call != nil && v && len(t.Call.Args) == 2 && hasSuffixAny(t.Call.Name, "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "bytes.HasPrefix", "bytes.HasSuffix", "bytes.Contains") {
			facts = append(facts, linLen(e, t.Call.Args[0]).plus(linLen(e, t.Call.Args[1]), -1))
		}
		for _, x := range t.Args {
			c := x.Call
			if c == nil || len(c.Args) != 2 || !hasSuffixAny(c.Name, "strings.Index", "bytes.Index", "strings.LastIndex", "bytes.LastIndex") {
				continue
			}
			if lo, _, has, _ := st.Interval(x); has && lo >= 0 {
				facts = append(facts, linLen(e, c.Args[0]).plus(linOf(e, x), -1).plus(linLen(e, c.Args[1]), -1))
			}
		}
	})
	// a string that is not empty has a length
	st.Facts(func(t *eng.Term, v bool) {
		if t.Kind == eng.KApp && t.Op == "eq" && !v && len(t.Args) == 2 {
			for i := 0; i < 2; i++ {
				if s, ok := eng.StrConst(t.Args[i]); ok && s == "" {
					facts = append(facts, linLen(e, t.Args[1-i]).plus(linConst(1), -1))
				}
			}
		}
	})
	// relevant facts: connected by atoms
	atoms := map[*eng.Term]bool{}
	var addAtoms func(l lin)
	addAtoms = func(l lin) {
		for t := range l.c {
			if atoms[t] || len(atoms) > 24 {
				continue
			}
			atoms[t] = true
			for _, f := range atomFacts(st, t) {
				cs = append(cs, f)
				addAtoms(f)
			}
		}
	}
	addAtoms(goal)
	used := make([]bool, len(facts))
	for changed := true; changed; {
		changed = false
		for i, f := range facts {
			if used[i] {
				continue
			}
			for t := range f.c {
				if atoms[t] {
					used[i] = true
					changed = true
					cs = append(cs, f)
					addAtoms(f)
					break
				}
			}
		}
	}
	return infeasible(cs)
}

func intTerm(t *eng.Term) bool {
	if t.Ty == nil {
		_, ok := eng.IntConst(t)
		return ok
	}
	b, ok := t.Ty.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// infeasible eliminates the atoms one after another.
func infeasible(cs []lin) bool {
	for round := 0; round < 40; round++ {
		best, bestN := (*eng.Term)(nil), 1<<30
		pos, neg := map[*eng.Term]int{}, map[*eng.Term]int{}
		for _, c := range cs {
			if len(c.c) == 0 {
				if c.k < 0 {
					return true
				}
				continue
			}
			for t, v := range c.c {
				if v > 0 {
					pos[t]++
				} else {
					neg[t]++
				}
			}
		}
		for _, m := range []map[*eng.Term]int{pos, neg} {
			for t := range m {
				if n := pos[t] * neg[t]; n < bestN || n == bestN && t.ID < best.ID {
					best, bestN = t, n
				}
			}
		}
		if best == nil {
			return false
		}
		var next, ps, ns []lin
		for _, c := range cs {
			switch v := c.c[best]; {
			case v > 0:
				ps = append(ps, c)
			case v < 0:
				ns = append(ns, c)
			default:
				next = append(next, c)
			}
		}
		for _, p := range ps {
			for _, n := range ns {
				a, b := p.c[best], -n.c[best]
				l := linConst(0).plus(p, b).plus(n, a)
				delete(l.c, best)
				if len(l.c) == 0 && l.k < 0 {
					return true
				}
				if len(l.c) > 0 {
					next = append(next, l)
				}
			}
		}
		if len(next) > 400 {
			return false
		}
		cs = next
	}
	return false
}

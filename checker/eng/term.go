// Package eng is a path-sensitive abstract interpreter over go/ssa. It explores all
// control-flow paths of a root function with the in-repository callees inlined, over
// symbolic terms, and shows every call, channel operation, store and exit to a
// property automaton. It executes nothing and calls no solver: branch conditions are
// decided only by constant folding and by facts recorded on the same path.
package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Kind uint8

const (
	KConst   Kind = iota // Op: exact constant text; "nil"; "zero"
	KParam               // root parameter / free variable
	KObj                 // Alloc/MakeMap/MakeChan/MakeSlice object (address or reference)
	KGlobal              // address of a global
	KFieldA              // address of field Idx of Args[0]
	KIndexA              // address of element Args[1] of Args[0]
	KField               // field Idx of struct value Args[0]
	KFunc                // function value
	KClosure             // closure Fn with bindings Args
	KIface               // interface holding Args[0] (static type Ty)
	KTuple               // tuple
	KStruct              // struct value with fields Args
	KApp                 // operator Op on Args; Site!=0: not a pure function of Args
)

// Term is an interned symbolic value.
type Term struct {
	ID     int
	Kind   Kind
	Op     string
	Args   []*Term
	Idx    int
	Ty     types.Type
	Fn     *ssa.Function
	Site   int // ctx-qualified program point for sited terms, 0 for pure ones
	Gen    int
	Instr  ssa.Instruction
	Const  constant.Value
	leaves []int // ids of sited leaf terms (sorted)
	depth  int
	Call   *CallInfo // for results of opaque calls
}

func (t *Term) Sited() bool { return t.Site != 0 }

// Leaf reports whether sited term id occurs in t.
func (t *Term) hasLeaf(id int) bool {
	i := sort.SearchInts(t.leaves, id)
	return i < len(t.leaves) && t.leaves[i] == id
}

// Contains reports whether s occurs in t (structurally).
func (t *Term) Contains(s *Term) bool {
	if t == s {
		return true
	}
	for _, a := range t.Args {
		if a.Contains(s) {
			return true
		}
	}
	return false
}

// Walk visits t and all subterms until f returns false for a subtree.
func (t *Term) Walk(f func(*Term) bool) {
	if !f(t) {
		return
	}
	for _, a := range t.Args {
		a.Walk(f)
	}
}

// Any reports whether f holds for some subterm.
func (t *Term) Any(f func(*Term) bool) bool {
	found := false
	t.Walk(func(s *Term) bool {
		if found {
			return false
		}
		if f(s) {
			found = true
			return false
		}
		return true
	})
	return found
}

type interner struct {
	m     map[string]*Term
	terms []*Term
}

func (in *interner) get(k string, mk func() *Term) *Term {
	if t, ok := in.m[k]; ok {
		return t
	}
	t := mk()
	t.ID = len(in.terms) + 1
	in.terms = append(in.terms, t)
	set := map[int]bool{}
	if t.Site != 0 {
		set[t.ID] = true
	} else {
		for _, a := range t.Args {
			for _, l := range a.leaves {
				set[l] = true
			}
		}
	}
	for l := range set {
		t.leaves = append(t.leaves, l)
	}
	sort.Ints(t.leaves)
	for _, a := range t.Args {
		if a.depth+1 > t.depth {
			t.depth = a.depth + 1
		}
	}
	in.m[k] = t
	return t
}

func argKey(args []*Term) string {
	var b strings.Builder
	for _, a := range args {
		fmt.Fprintf(&b, "%d,", a.ID)
	}
	return b.String()
}

func (e *Engine) Const(c *ssa.Const) *Term {
	if c.Value == nil {
		return e.Zero(c.Type())
	}
	return e.ConstVal(c.Value, c.Type())
}

func (e *Engine) ConstVal(v constant.Value, ty types.Type) *Term {
	op := v.ExactString()
	kind := v.Kind()
	if kind == constant.Float {
		if iv := constant.ToInt(v); iv.Kind() == constant.Int {
			op = iv.ExactString()
			kind = constant.Int
			v = iv
		}
	}
	return e.in.get(fmt.Sprintf("c%d:%s", kind, op), func() *Term {
		return &Term{Kind: KConst, Op: op, Ty: ty, Const: v}
	})
}

func (e *Engine) Int(n int64) *Term { return e.ConstVal(constant.MakeInt64(n), types.Typ[types.Int]) }
func (e *Engine) Str(s string) *Term {
	return e.ConstVal(constant.MakeString(s), types.Typ[types.String])
}
func (e *Engine) Bool(b bool) *Term { return e.ConstVal(constant.MakeBool(b), types.Typ[types.Bool]) }
func (e *Engine) Nil() *Term {
	return e.in.get("nil", func() *Term { return &Term{Kind: KConst, Op: "nil"} })
}

// Zero is the zero value of ty.
func (e *Engine) Zero(ty types.Type) *Term {
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.Bool(false)
		case u.Info()&types.IsString != 0:
			return e.Str("")
		case u.Info()&types.IsNumeric != 0:
			return e.Int(0)
		}
		return e.Nil()
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = e.Zero(u.Field(i).Type())
		}
		return e.mkStruct(ty, args)
	case *types.Array:
		return e.in.get("zero:"+ty.String(), func() *Term { return &Term{Kind: KConst, Op: "zero", Ty: ty} })
	}
	return e.Nil()
}

func (e *Engine) mkStruct(ty types.Type, args []*Term) *Term {
	// eta: struct of all fields of one value is that value
	if len(args) > 0 && args[0].Kind == KField && args[0].Idx == 0 {
		base := args[0].Args[0]
		same := base.Ty != nil && types.Identical(base.Ty, ty)
		for i, a := range args {
			if a.Kind != KField || a.Idx != i || a.Args[0] != base {
				same = false
				break
			}
		}
		if same {
			return base
		}
	}
	return e.in.get("st:"+ty.String()+":"+argKey(args), func() *Term {
		return &Term{Kind: KStruct, Ty: ty, Args: args}
	})
}

func (e *Engine) mkField(v *Term, idx int, ty types.Type) *Term {
	if v.Kind == KStruct && idx < len(v.Args) {
		return v.Args[idx]
	}
	return e.in.get(fmt.Sprintf("f%d:%d", idx, v.ID), func() *Term {
		return &Term{Kind: KField, Idx: idx, Args: []*Term{v}, Ty: ty}
	})
}

func (e *Engine) mkFieldA(base *Term, idx int, ty types.Type) *Term {
	return e.in.get(fmt.Sprintf("fa%d:%d", idx, base.ID), func() *Term {
		return &Term{Kind: KFieldA, Idx: idx, Args: []*Term{base}, Ty: ty}
	})
}

func (e *Engine) mkIndexA(base, idx *Term, ty types.Type) *Term {
	return e.in.get(fmt.Sprintf("ia:%d:%d", base.ID, idx.ID), func() *Term {
		return &Term{Kind: KIndexA, Args: []*Term{base, idx}, Ty: ty}
	})
}

func (e *Engine) mkTuple(args []*Term) *Term {
	return e.in.get("tu:"+argKey(args), func() *Term { return &Term{Kind: KTuple, Args: args} })
}

func (e *Engine) mkIface(v *Term, ty types.Type) *Term {
	return e.in.get(fmt.Sprintf("mi:%d:%s", v.ID, ty), func() *Term {
		return &Term{Kind: KIface, Args: []*Term{v}, Ty: ty}
	})
}

func (e *Engine) mkFunc(f *ssa.Function) *Term {
	return e.in.get(fmt.Sprintf("fn:%p", f), func() *Term { return &Term{Kind: KFunc, Fn: f, Ty: f.Signature} })
}

func (e *Engine) mkClosure(f *ssa.Function, b []*Term) *Term {
	return e.in.get(fmt.Sprintf("cl:%p:%s", f, argKey(b)), func() *Term {
		return &Term{Kind: KClosure, Fn: f, Args: b, Ty: f.Signature}
	})
}

func (e *Engine) mkGlobal(g *ssa.Global) *Term {
	return e.in.get("g:"+g.String(), func() *Term {
		return &Term{Kind: KGlobal, Op: g.String(), Ty: g.Type()}
	})
}

// Param is an opaque root value.
func (e *Engine) Param(name string, ty types.Type) *Term {
	return e.in.get("p:"+name+":"+ty.String(), func() *Term {
		return &Term{Kind: KParam, Op: name, Ty: ty}
	})
}

// App is a pure operator application.
func (e *Engine) App(op string, ty types.Type, args ...*Term) *Term {
	return e.in.get("a:"+op+":"+argKey(args), func() *Term {
		return &Term{Kind: KApp, Op: op, Args: args, Ty: ty}
	})
}

func (e *Engine) sited(kind Kind, op string, ty types.Type, site, gen int, instr ssa.Instruction, args []*Term) *Term {
	return e.in.get(fmt.Sprintf("s%d:%s:%d:%d:%s", kind, op, site, gen, argKey(args)), func() *Term {
		return &Term{Kind: kind, Op: op, Args: args, Ty: ty, Site: site, Gen: gen, Instr: instr}
	})
}

// ---- boolean and arithmetic construction -------------------------------------------------

func (e *Engine) Not(t *Term) *Term {
	if t.Kind == KConst && t.Const != nil && t.Const.Kind() == constant.Bool {
		return e.Bool(!constant.BoolVal(t.Const))
	}
	if t.Kind == KApp && t.Op == "not" {
		return t.Args[0]
	}
	return e.App("not", types.Typ[types.Bool], t)
}

func isNilConst(t *Term) bool { return t.Kind == KConst && t.Op == "nil" }

// IsNil reports whether t is the nil constant.
func IsNil(t *Term) bool { return isNilConst(t) }

func nonNil(t *Term) bool {
	switch t.Kind {
	case KObj, KGlobal, KFieldA, KIndexA, KFunc, KClosure, KIface, KStruct:
		return true
	case KApp:
		switch t.Op {
		case "recovered", "concat":
			return true
		case "load": // sentinel errors
			if t.Args[0].Kind == KGlobal && t.Ty != nil && t.Ty.String() == "error" {
				return true
			}
		}
		if t.Call != nil {
			switch t.Call.Name {
			case "errors.New", "fmt.Errorf", "context.Background":
				return true
			}
		}
	}
	return false
}

func isStringTy(ty types.Type) bool {
	if ty == nil {
		return false
	}
	b, ok := ty.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (e *Engine) Eq(a, b *Term) *Term {
	if a == b {
		if a.Kind == KApp && strings.HasPrefix(a.Op, "float") {
			return e.App("eq", types.Typ[types.Bool], a, b)
		}
		return e.Bool(true)
	}
	if a.Kind == KConst && b.Kind == KConst && a.Op != "zero" && b.Op != "zero" {
		return e.Bool(false)
	}
	if isNilConst(a) && nonNil(b) || isNilConst(b) && nonNil(a) {
		return e.Bool(false)
	}
	// bool == const
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		if p[0].Kind == KConst && p[0].Const != nil && p[0].Const.Kind() == constant.Bool {
			if constant.BoolVal(p[0].Const) {
				return p[1]
			}
			return e.Not(p[1])
		}
	}
	// interface wrapping on one side compared with a constant: compare payloads
	if a.Kind == KIface && b.Kind == KIface && types.Identical(a.Ty, b.Ty) {
		return e.Eq(a.Args[0], b.Args[0])
	}
	if a.Kind == KObj && b.Kind == KObj && a.Site != b.Site {
		return e.Bool(false)
	}
	// len(string)==0
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		if p[0].Kind == KConst && p[0].Op == "0" && p[1].Kind == KApp && p[1].Op == "len" && isStringTy(p[1].Args[0].Ty) {
			return e.Eq(p[1].Args[0], e.Str(""))
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return e.App("eq", types.Typ[types.Bool], a, b)
}

func isIntConst(t *Term) (int64, bool) {
	if t.Kind == KConst && t.Const != nil && t.Const.Kind() == constant.Int {
		return constant.Int64Val(t.Const)
	}
	return 0, false
}

// IntConst returns the integer value of a constant term.
func IntConst(t *Term) (int64, bool) { return isIntConst(t) }

// StrConst returns the string value of a constant term.
func StrConst(t *Term) (string, bool) {
	if t.Kind == KConst && t.Const != nil && t.Const.Kind() == constant.String {
		return constant.StringVal(t.Const), true
	}
	return "", false
}

// BoolConst returns the value of a boolean constant term.
func BoolConst(t *Term) (bool, bool) {
	if t.Kind == KConst && t.Const != nil && t.Const.Kind() == constant.Bool {
		return constant.BoolVal(t.Const), true
	}
	return false, false
}

func isLen(t *Term) bool { return t.Kind == KApp && (t.Op == "len" || t.Op == "cap") }

func unsignedTy(ty types.Type) bool {
	if ty == nil {
		return false
	}
	b, ok := ty.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (e *Engine) Lt(a, b *Term) *Term {
	if a == b {
		return e.Bool(false)
	}
	if x, ok := isIntConst(a); ok {
		if y, ok := isIntConst(b); ok {
			return e.Bool(x < y)
		}
		if isLen(b) || unsignedTy(b.Ty) {
			if x < 0 {
				return e.Bool(true)
			}
			if x == 0 {
				return e.Not(e.Eq(b, e.Int(0)))
			}
		}
	}
	if y, ok := isIntConst(b); ok && (isLen(a) || unsignedTy(a.Ty)) {
		if y <= 0 {
			return e.Bool(false)
		}
		if y == 1 {
			return e.Eq(a, e.Int(0))
		}
	}
	return e.App("lt", types.Typ[types.Bool], a, b)
}

func (e *Engine) binop(op token.Token, a, b *Term, ty types.Type) *Term {
	switch op {
	case token.EQL:
		return e.Eq(a, b)
	case token.NEQ:
		return e.Not(e.Eq(a, b))
	case token.LSS:
		return e.Lt(a, b)
	case token.GTR:
		return e.Lt(b, a)
	case token.LEQ:
		return e.Not(e.Lt(b, a))
	case token.GEQ:
		return e.Not(e.Lt(a, b))
	}
	if a.Kind == KConst && b.Kind == KConst && a.Const != nil && b.Const != nil &&
		a.Const.Kind() == b.Const.Kind() && op != token.SHL && op != token.SHR {
		if !(op == token.QUO || op == token.REM) {
			func() {
				defer func() { recover() }()
				v := constant.BinaryOp(a.Const, op, b.Const)
				a = e.ConstVal(v, ty)
				b = nil
			}()
			if b == nil {
				return a
			}
		}
	}
	if (op == token.SHL || op == token.SHR) && a.Const != nil && b.Const != nil {
		if n, ok := isIntConst(b); ok && n >= 0 && n < 64 && a.Const.Kind() == constant.Int {
			return e.ConstVal(constant.Shift(a.Const, op, uint(n)), ty)
		}
	}
	// normalise (x op c1) op c2 for +/-
	if op == token.SUB {
		if n, ok := isIntConst(b); ok {
			return e.binop(token.ADD, a, e.Int(-n), ty)
		}
		if a.Kind == KApp && a.Op == "+" { // (x+c)-x = c
			if a.Args[0] == b {
				return a.Args[1]
			}
		}
		if a == b {
			return e.Int(0)
		}
	}
	if op == token.ADD {
		if isStringTy(ty) {
			if s, ok := StrConst(a); ok && s == "" {
				return b
			}
			if s, ok := StrConst(b); ok && s == "" {
				return a
			}
			return e.App("concat", ty, a, b)
		}
		if _, ok := isIntConst(a); ok {
			a, b = b, a
		}
		if n, ok := isIntConst(b); ok {
			if n == 0 {
				return a
			}
			if a.Kind == KApp && a.Op == "+" {
				if m, ok := isIntConst(a.Args[1]); ok {
					return e.binop(token.ADD, a.Args[0], e.Int(n+m), ty)
				}
			}
		} else if a.ID > b.ID {
			a, b = b, a
		}
	}
	return e.App(op.String(), ty, a, b)
}

// String renders a term for diagnostics.
func (t *Term) String() string { return t.str(6) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d == 0 {
		return "…"
	}
	args := func() string {
		var s []string
		for _, a := range t.Args {
			s = append(s, a.str(d-1))
		}
		return strings.Join(s, ", ")
	}
	switch t.Kind {
	case KConst:
		return t.Op
	case KParam:
		return t.Op
	case KObj:
		return fmt.Sprintf("obj#%d:%s", t.ID, t.Op)
	case KGlobal:
		return "&" + t.Op
	case KFieldA:
		return fmt.Sprintf("&%s.%s", t.Args[0].str(d-1), fieldName(t.Args[0].Ty, t.Idx))
	case KIndexA:
		return fmt.Sprintf("&%s[%s]", t.Args[0].str(d-1), t.Args[1].str(d-1))
	case KField:
		return fmt.Sprintf("%s.%s", t.Args[0].str(d-1), fieldName(t.Args[0].Ty, t.Idx))
	case KFunc:
		return t.Fn.String()
	case KClosure:
		return "closure:" + t.Fn.Name()
	case KIface:
		return t.Args[0].str(d)
	case KTuple:
		return "(" + args() + ")"
	case KStruct:
		return "{" + args() + "}"
	}
	s := t.Op + "(" + args() + ")"
	return s
}

func fieldName(ty types.Type, idx int) string {
	if ty == nil {
		return fmt.Sprintf("#%d", idx)
	}
	u := ty.Underlying()
	if p, ok := u.(*types.Pointer); ok {
		u = p.Elem().Underlying()
	}
	if s, ok := u.(*types.Struct); ok && idx < s.NumFields() {
		return s.Field(idx).Name()
	}
	return fmt.Sprintf("#%d", idx)
}

// FieldVar returns the struct field a KFieldA/KField term selects, or nil.
func FieldVar(t *Term) *types.Var {
	if t.Kind != KFieldA && t.Kind != KField {
		return nil
	}
	ty := t.Args[0].Ty
	if ty == nil {
		return nil
	}
	u := ty.Underlying()
	if p, ok := u.(*types.Pointer); ok {
		u = p.Elem().Underlying()
	}
	if s, ok := u.(*types.Struct); ok && t.Idx < s.NumFields() {
		return s.Field(t.Idx)
	}
	return nil
}

// Field is the term of field idx of struct value t.
func (e *Engine) Field(t *Term, idx int, ty types.Type) *Term { return e.mkField(t, idx, ty) }

// Struct builds a struct value of its fields.
func (e *Engine) Struct(ty types.Type, args []*Term) *Term { return e.mkStruct(ty, args) }

// Iface wraps a value of a concrete type into an interface.
func (e *Engine) Iface(v *Term, ty types.Type) *Term { return e.mkIface(v, ty) }

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

func init() { register("C19", checkC19) }

// redisCheck is the analysis of the lifetime manager over Redis.
type redisCheck struct {
	w           *World
	r           *Report
	typ         types.Type // the manager
	fn          map[string]*ssa.Function
	invoke      []*ssa.Function // methods that publish
	conns, sets *types.Var      // the connections, and their groups
	scheme      string          // how the key of the members of a group is made
	locks       map[string]bool // mutexes held wherever the groups of a connection are used
	lockSeen    bool
	news        []*ssa.Function
	delivered   map[string]int
}

func checkC19(w *World, r *Report) {
	r.rule("every Invoke method publishes exactly one message on every path (none for a client without id), and the channel matches exactly one pattern the instances subscribe to")
	r.rule("what an instance does with each such message, its own included: every local connection that is addressed and not excluded gets exactly one invocation without id, with target and arguments of the caller, in a goroutine of its own; nobody else gets one; nothing is published; the receiving goroutine goes on")
	r.rule("AddToGroup adds the given id, and RemoveFromGroup removes it, in the set of the given group on every path; the name of the set is made in the same way wherever it is used")
	r.rule("a connection is registered with an empty list of groups; when it ends it is unregistered, and removed from the set of every group in its list, also when the server has ended; a connection that ends while it is added is removed after all")
	r.rule("the list of the groups of a connection is used under one lock")
	x, err := w.Ext()
	if !r.need(err == nil && x != nil, "C19", "the ext module") {
		return
	}
	defer func(old *World) { r.W = old }(r.W)
	r.W = x
	c := &redisCheck{w: x, r: r, fn: map[string]*ssa.Function{}, delivered: map[string]int{}}
	if !c.discover() {
		return
	}
	c.messages()
	c.connected()
	c.disconnected()
	c.group("AddToGroup")
	c.group("RemoveFromGroup")
	r.need(c.lockSeen || c.sets == nil, "C19", "where the groups of a connection are used")
}

func (c *redisCheck) discover() bool {
	var it *types.Interface
	for _, p := range c.w.Types.Imports() {
		if o := p.Scope().Lookup("HubLifetimeManager"); o != nil {
			it, _ = o.Type().Underlying().(*types.Interface)
		}
	}
	if !c.r.need(it != nil, "C19", "the interface HubLifetimeManager") {
		return false
	}
	for _, n := range c.w.Types.Scope().Names() {
		tn, ok := c.w.Types.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
			continue
		}
		if p := types.NewPointer(tn.Type()); types.Implements(p, it) {
			c.typ = p
		}
	}
	if !c.r.need(c.typ != nil, "C19", "the implementation of HubLifetimeManager over Redis") {
		return false
	}
	ms := c.w.Prog.MethodSets.MethodSet(c.typ)
	for i := 0; i < ms.Len(); i++ {
		m := ms.At(i)
		f := c.w.Prog.MethodValue(m)
		if !m.Obj().Exported() || f == nil || len(f.Blocks) == 0 {
			continue
		}
		c.fn[m.Obj().Name()] = f
		if strings.HasPrefix(m.Obj().Name(), "Invoke") {
			c.invoke = append(c.invoke, f)
		}
	}
	for i := 0; i < it.NumMethods(); i++ {
		if n := it.Method(i).Name(); !c.r.need(c.fn[n] != nil, "C19", "the method "+n+" of the lifetime manager") {
			return false
		}
	}
	// where managers are made
	for _, f := range c.w.Sort {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if a, ok := ins.(*ssa.Alloc); ok && a.Heap && types.Identical(a.Type(), c.typ) {
					c.news = append(c.news, f)
				}
			}
		}
	}
	if !c.r.need(len(c.news) == 1, "C19", "the one place where lifetime managers are made") {
		return false
	}
	fn := c.fn["OnConnected"]
	e := c.w.engine(containers(func(st *eng.State, o *cop) {
		if o.kind != "put" || o.field == nil {
			return
		}
		conn := c.param(st, fn, 1)
		if isConnID(o.key, conn) && core(o.val) == conn {
			c.conns = o.field
		} else if isConnID(o.key, conn) {
			c.sets = o.field
		}
	}, &client{}))
	e.Run(fn, c.params(e, fn), nil)
	return c.r.need(c.conns != nil, "C19", "where OnConnected keeps the connections") && c.r.need(c.sets != nil, "C19", "where OnConnected keeps the groups of a connection")
}

func (c *redisCheck) param(st *eng.State, fn *ssa.Function, i int) *eng.Term {
	return c.params(st.E, fn)[i]
}

func (c *redisCheck) params(e *eng.Engine, fn *ssa.Function) []*eng.Term {
	var ps []*eng.Term
	for i, p := range fn.Params {
		n := p.Name()
		if i == 0 && types.Identical(p.Type(), c.typ) {
			n = "the manager"
		}
		ps = append(ps, e.Param(n, p.Type()))
	}
	return ps
}

// redisOp is the name of a method of a Redis client, pipeline or result.
func redisOp(name string) string {
	i := strings.LastIndex(name, ").")
	if i < 0 || !strings.HasPrefix(name, "(github.com/redis/") {
		return ""
	}
	return name[i+2:]
}

// textParts are the parts of a text that is put together.
func textParts(t *eng.Term) []*eng.Term {
	t = core(t)
	if t.Kind == eng.KApp && t.Op == "concat" && len(t.Args) == 2 && t.Call == nil {
		a, b := textParts(t.Args[0]), textParts(t.Args[1])
		if len(a) > 0 && len(b) > 0 {
			x, ok1 := eng.StrConst(a[len(a)-1])
			y, ok2 := eng.StrConst(b[0])
			if ok1 && ok2 {
				return append(append(append([]*eng.Term{}, a[:len(a)-1]...), joined(a[len(a)-1], x+y)), b[1:]...)
			}
		}
		return append(append([]*eng.Term{}, a...), b...)
	}
	return []*eng.Term{t}
}

var joinedEngine *eng.Engine

func joined(_ *eng.Term, s string) *eng.Term { return joinedEngine.Str(s) }

// hasPrefix: t begins with p.
func hasPrefix(t *eng.Term, p string) (v, known bool) {
	ps := textParts(t)
	s, ok := eng.StrConst(ps[0])
	if !ok {
		return p == "", p == ""
	}
	if strings.HasPrefix(s, p) {
		return true, true
	}
	if len(ps) == 1 || !strings.HasPrefix(p, s) {
		return false, true
	}
	return false, false
}

// keyOf checks that t names the set of the given group and returns how the name is made.
func keyOf(t, group *eng.Term) (string, bool) {
	s, n := "", 0
	for _, p := range textParts(t) {
		if x, ok := eng.StrConst(p); ok {
			s += x
		} else if core(p) == core(group) {
			s += "\x00"
			n++
		} else {
			return "", false
		}
	}
	return s, n == 1
}

func (c *redisCheck) key(st *eng.State, name string, pos token.Pos, t, group *eng.Term) {
	k, ok := keyOf(t, group)
	if !ok {
		st.Report("wrong-set", name, pos, "%s uses the set of members of another group than the given one", name)
		return
	}
	if c.scheme == "" {
		c.scheme = k
	}
	if k != c.scheme {
		st.Report("wrong-set", name, pos, "%s names the set of members of a group otherwise than it is named elsewhere", name)
	}
}

// jsonFields are the fields of a struct type as they are sent.
func jsonFields(t types.Type) map[string]int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	out := map[string]int{}
	for i := 0; i < s.NumFields(); i++ {
		if !s.Field(i).Exported() {
			continue
		}
		n, _, _ := strings.Cut(reflect.StructTag(s.Tag(i)).Get("json"), ",")
		if reflect.StructTag(s.Tag(i)).Get("json") == "-" {
			continue
		}
		if n == "" {
			n = s.Field(i).Name()
		}
		if _, twice := out[n]; twice {
			out[n] = -1
		} else {
			out[n] = i
		}
	}
	return out
}

func isRedisMessage(t types.Type) bool {
	if t == nil {
		return false
	}
	p, ok := t.Underlying().(*types.Pointer)
	return ok && strings.HasSuffix(types.TypeString(p, nil), "redis/v9.Message")
}

func isTextSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem().Underlying(), types.Typ[types.String])
}

type published struct {
	st *eng.State
}

// messages explores every Invoke method, and then what an instance does with what it published.
func (c *redisCheck) messages() {
	for _, fn := range c.invoke {
		c.message(fn)
	}
}

func (c *redisCheck) message(fn *ssa.Function) {
	name := eng.FnName(fn)
	short := fn.Name()
	// the roles of the parameters
	target, args, ident, excl := -1, -1, -1, -1
	for i, p := range fn.Params[1:] {
		switch {
		case isTextSlice(p.Type()):
			excl = i + 1
		case isSliceType(p.Type()):
			args = i + 1
		case types.Identical(p.Type().Underlying(), types.Typ[types.String]):
			if target >= 0 {
				ident = target
			}
			target = i + 1
		}
	}
	if !c.r.need(target > 0 && args > 0 && strings.HasPrefix(short, "InvokeAll") == (ident < 0), "C19", "what the parameters of "+name+" mean") {
		return
	}
	toClient, toGroup := strings.HasPrefix(short, "InvokeClient"), strings.HasPrefix(short, "InvokeGroup")
	root := c.news[0]
	var ends []published
	seen := map[string]int{}
	stage := 1
	var recvAt *ssa.BasicBlock // where the message arrives

	// a visit of a connection
	isKey := func(st *eng.State, t *eng.Term) bool {
		t = unasserted(t)
		cur := st.Get("cur")
		return st.GetInt("visiting") == 1 && (st.Get("curkey") != nil && t == st.Get("curkey") || cur != nil && isConnIDOf(t, cur))
	}
	excluded := func(st *eng.State, t *eng.Term) bool {
		// an element of the list of the excluded
		if excl < 0 {
			return false
		}
		list := c.param(st, fn, excl)
		return core(t).Op == "elem" && core(t).Any(func(x *eng.Term) bool { return x == list })
	}
	isCur := func(st *eng.State, t *eng.Term) bool {
		if idx := st.Get("idx"); idx != nil {
			t = core(t)
			v := st.Get("idxval")
			return v != nil && t == v || t.Op == "elem" && len(t.Args) == 2 && core(t.Args[1]) == idx && connSlice(t.Args[0].Ty)
		}
		cur, key := st.Get("cur"), st.Get("curkey")
		return st.GetInt("visiting") == 1 && core(t).Any(func(x *eng.Term) bool { return cur != nil && x == cur || key != nil && x == key })
	}
	done := func(st *eng.State, what string, pos token.Pos) {
		if st.GetInt("visiting") == 0 {
			return
		}
		n := st.GetInt("n")
		// 1 true, 2 false
		out, member := st.GetInt("excluded"), st.GetInt("member")
		if !toGroup {
			member = 1
		}
		if n > 1 {
			st.Report("sent-twice", name, pos, "a message of %s may be sent to a connection more than once", name)
		}
		if n == 0 && out != 1 && member == 1 {
			st.Report("not-addressed", name, pos, "a message of %s may not be sent to a connection it is for (%s)", name, what)
		}
		if n == 0 && out != 1 && member == 0 {
			st.Report("not-addressed", name, pos, "a message of %s may not be sent to a connection, without having looked whether it is in the group (%s)", name, what)
		}
		if n > 0 && excl >= 0 && out != 2 {
			st.Report("excluded-addressed", name, pos, "a message of %s may be sent to an excluded connection", name)
		}
		if n > 0 && member != 1 {
			st.Report("wrong-addressees", name, pos, "a message of %s may be sent to a connection that is not in the group", name)
		}
		c.r.inst("visit", 1)
		for _, k := range []string{"visiting", "cur", "curkey", "n", "excluded", "member", "idx", "idxval"} {
			st.Del(k)
		}
	}
	visit := func(st *eng.State) {
		st.SetInt("visiting", 1)
		st.SetInt("n", 0)
		st.SetInt("depth", int64(st.GoDepth()))
	}
	exclusion := func(st *eng.State, o *cop) {
		if isKey(st, o.key) || toClient && core(o.key) == c.param(st, fn, ident) {
			if o.ok == nil {
				return
			}
			if v, known := truth(st, o.ok); known {
				st.SetInt("excluded", 1+b2i(!v))
			} else {
				st.Set("exok", o.ok)
			}
			if excl >= 0 && st.GetInt("listed") == 0 && st.GetInt("exdone") == 0 {
				st.Report("excluded-addressed", name, fn.Pos(), "not all excluded connections of a message of %s are known when they are looked for", name)
			}
		}
	}
	finish := func(st *eng.State, what string, pos token.Pos) {
		if st.GetInt("got") != 1 {
			return
		}
		st.SetInt("got", 2)
		done(st, what, pos)
		c.r.inst("delivery-path", 1)
		seen["delivery"]++
		if m := st.Get("more"); m != nil {
			if v, known := truth(st, m); !known || v {
				st.Report("visit-stops", name, pos, "what receives a message of %s may stop visiting the connections", name)
			}
		}
		if st.GetInt("listing") == 1 && st.GetInt("exhausted") != 2 {
			st.Report("not-addressed", name, pos, "a message of %s may not be sent to all connections that were listed", name)
		}
		if st.GetInt("addressed") == 0 {
			st.Report("not-addressed", name, pos, "a message of %s may be dropped without having looked for the addressed connections", name)
		}
	}
	on := func(st *eng.State, o *cop) {
		c.guard(st, name, o)
		if stage != 2 || st.GetInt("got") != 1 {
			if stage == 1 && (o.field == c.conns || o.field == c.sets) && (o.kind == "put" || o.kind == "del") {
				st.Report("addressees-changed", name, fn.Pos(), "%s changes the list of connections or groups", name)
			}
			return
		}
		switch {
		case o.field == c.conns && o.kind == "range":
			if toClient {
				st.Report("wrong-addressees", name, fn.Pos(), "a message of %s is for one connection, but several are visited", name)
				return
			}
			st.SetInt("addressed", 1)
		case o.field == c.conns && o.kind == "next":
			done(st, "the visit goes on", fn.Pos())
			st.Set("more", st.E.Bool(false))
			if o.ok != nil {
				st.Set("more", o.ok)
			}
			visit(st)
			if o.val != nil {
				st.Set("cur", core(o.val))
			}
			if o.key != nil {
				st.Set("curkey", core(o.key))
			}
		case o.field == c.conns && o.kind == "get":
			if !toClient || core(o.key) != c.param(st, fn, ident) {
				st.Report("wrong-addressees", name, fn.Pos(), "for a message of %s another connection is looked for than the addressed one", name)
				return
			}
			st.SetInt("addressed", 1)
			if v, known := truth(st, o.ok); known && v {
				visit(st)
				st.Set("cur", core(o.val))
			}
		case o.field == c.conns || o.field == c.sets:
			if o.kind == "put" || o.kind == "del" {
				st.Report("addressees-changed", name, fn.Pos(), "a message of %s changes the list of connections or groups", name)
			}
		case o.kind == "put":
			m := fmt.Sprintf("set:%d", o.con.ID)
			if isBoolMap(o.con.Ty) {
				if v, ok := eng.BoolConst(core(o.val)); !ok || !v {
					st.SetInt(m, 2)
				}
			}
			if st.GetInt("late:"+m) == 1 {
				st.SetInt(m, 2) // what was put before is in another map
			}
			if excluded(st, o.key) {
				st.SetInt("exput", 1)
				if st.GetInt(m) == 0 {
					st.SetInt(m, 1)
				}
				st.Del("exvisit")
			} else {
				st.SetInt(m, 2)
			}
		case o.kind == "get":
			if o.ok == nil && isBoolMap(o.con.Ty) {
				o.ok = o.val
			}
			switch m := fmt.Sprintf("set:%d", o.con.ID); st.GetInt(m) {
			case 0:
				if o.ok != nil && o.con.Kind == eng.KObj {
					st.Assume(o.ok, false)
					exclusion(st, o)
				}
			case 1:
				exclusion(st, o)
			}
		}
	}
	cl := &client{}
	cl.call = func(st *eng.State, ci *eng.CallInfo) eng.Decision {
		pos := ci.Pos()
		one := func(os ...eng.Outcome) eng.Decision {
			return eng.Decision{Mode: eng.Outcomes, Outcomes: os}
		}
		heldLocks(st, ci)
		if s := formatted(st, ci); s != nil {
			return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Results: []*eng.Term{s}}}}
		}
		switch op := redisOp(ci.Name); op {
		case "Publish", "SPublish":
			if stage == 2 {
				st.Report("publishes-again", name, pos, "a message of %s is published again by what receives it: endlessly", name)
				return opaque
			}
			if st.GetInt("published") > 0 {
				st.Report("sent-twice", name, pos, "%s may publish its message twice", name)
			}
			if ci.Go || st.GoDepth() > 0 {
				// allowed
				c.r.inst("publish-async", 1)
			}
			st.SetInt("published", 1)
			c.r.inst("publish", 1)
			seen["publish"]++
			st.Set("channel", core(ci.Arg(1)))
			if w := st.Get("wire"); w == nil || !core(ci.Arg(2)).Any(func(x *eng.Term) bool { return x == w }) {
				st.Report("payload", name, pos, "%s publishes something else than the message it has made", name)
			}
			return opaque
		case "PSubscribe", "Subscribe":
			if stage == 2 && len(ci.UserArgs()) > 1 {
				for _, p := range st.SliceElems(core(ci.Arg(1))) {
					s, ok := eng.StrConst(joinParts(p))
					if !ok {
						st.Report("undecided", name, pos, "what is subscribed to is no constant")
						continue
					}
					match := false
					ch := st.Get("channel")
					if pre, wild := strings.CutSuffix(s, "*"); wild && op == "PSubscribe" {
						v, known := hasPrefix(ch, pre)
						if !known {
							st.Report("undecided", name, pos, "whether the pattern %s matches the channel of %s cannot be told", s, name)
						}
						match = v
					} else {
						x, ok := eng.StrConst(joinParts(ch))
						match = ok && x == s
					}
					if match {
						st.SetInt("matches", st.GetInt("matches")+1)
					}
				}
				seen["subscribe"]++
			}
			return opaque
		case "ReceiveMessage", "ReceiveTimeout":
			if stage == 2 && op == "ReceiveMessage" {
				ty := ci.Sig.Results().At(0).Type()
				m := st.Fresh(ci.Instr, "redis-message", ty)
				if st.GetInt("got") == 0 {
					recvAt = ci.Instr.Block()
					st.SetInt("recvdepth", int64(st.Depth()))
				}
				return one(eng.Outcome{Results: []*eng.Term{m, st.E.Nil()}, Do: func(st *eng.State, rs []*eng.Term) {
					c.arrive(st, m, ty, name, pos, finish)
				}}, eng.Outcome{Do: func(st *eng.State, rs []*eng.Term) {
					st.Assume(st.E.Eq(rs[1], st.E.Nil()), false)
				}})
			}
		case "SIsMember":
			if stage == 2 && toGroup && st.GetInt("got") == 1 {
				c.key(st, name, pos, ci.Arg(1), c.param(st, fn, ident))
				if !isKey(st, ci.Arg(2)) {
					st.Report("wrong-member", name, pos, "for a message of %s it is looked for another connection in the group than the one visited", name)
				}
				return one(eng.Outcome{Do: func(st *eng.State, rs []*eng.Term) {
					if len(rs) > 0 {
						st.Set("asked", core(rs[0]))
					}
				}})
			}
		case "Result", "Val":
			if stage == 2 && st.Get("asked") != nil && ci.Recv != nil && core(ci.Recv) == st.Get("asked") || stage == 2 && st.Get("asked") != nil && len(ci.Args) > 0 && core(ci.Args[0]) == st.Get("asked") {
				yes, no := st.E.Bool(true), st.E.Bool(false)
				is := func(n int64) func(*eng.State, []*eng.Term) {
					return func(st *eng.State, rs []*eng.Term) { st.SetInt("member", n) }
				}
				if op == "Val" {
					return one(eng.Outcome{Results: []*eng.Term{yes}, Do: is(1)}, eng.Outcome{Results: []*eng.Term{no}, Do: is(2)})
				}
				return one(eng.Outcome{Results: []*eng.Term{yes, st.E.Nil()}, Do: is(1)},
					eng.Outcome{Results: []*eng.Term{no, st.E.Nil()}, Do: is(2)},
					eng.Outcome{Results: []*eng.Term{no, nil}, Do: func(st *eng.State, rs []*eng.Term) {
						st.SetInt("member", 2)
						st.Assume(st.E.Eq(rs[1], st.E.Nil()), false)
					}})
			}
		}
		switch ci.Name {
		case "encoding/json.Marshal":
			if stage == 1 {
				v := eng.StripIface(ci.Arg(0))
				ty := v.Ty
				if ty != nil {
					if p, ok := ty.Underlying().(*types.Pointer); ok {
						ty = p.Elem()
						v = st.PeekStruct(v, ty)
					}
				}
				if ty == nil || v == nil || jsonFields(ty) == nil {
					return opaque
				}
				return one(eng.Outcome{Results: []*eng.Term{st.E.Nil(), nil}, Do: func(st *eng.State, rs []*eng.Term) {
					st.Assume(st.E.Eq(rs[1], st.E.Nil()), false)
					st.SetInt("unsendable", 1)
				}}, eng.Outcome{Results: []*eng.Term{nil, st.E.Nil()}, Do: func(st *eng.State, rs []*eng.Term) {
					st.Set("wire", core(rs[0]))
					for n, i := range jsonFields(ty) {
						if i >= 0 {
							st.Set("json:"+n, st.E.Field(v, i, ty.Underlying().(*types.Struct).Field(i).Type()))
						}
					}
				}})
			}
		case "encoding/json.Unmarshal", "(encoding/json.Decoder).Decode":
			if stage == 2 && st.GetInt("got") == 1 {
				i := 1
				if ci.Name != "encoding/json.Unmarshal" {
					i = 0
				} else if w := st.Get("wire"); w == nil || !core(ci.Arg(0)).Any(func(x *eng.Term) bool { return x == w }) {
					return opaque
				}
				p := eng.StripIface(ci.Arg(i))
				if p.Ty == nil || jsonFields(derefType(p.Ty)) == nil {
					return opaque
				}
				sty := derefType(p.Ty)
				return one(eng.Outcome{Do: func(st *eng.State, rs []*eng.Term) {
					// what somebody else has published
					st.Assume(st.E.Eq(rs[len(rs)-1], st.E.Nil()), false)
					st.SetInt("got", 3)
				}}, eng.Outcome{Results: []*eng.Term{st.E.Nil()}, KeepArgs: true, Do: func(st *eng.State, rs []*eng.Term) {
					for n, i := range jsonFields(sty) {
						if v := st.Get("json:" + n); v != nil && i >= 0 {
							f := sty.Underlying().(*types.Struct).Field(i)
							if types.Identical(v.Ty, f.Type()) || v.Ty == nil || true {
								st.StoreAt(st.E.FieldAddr(p, i, f.Type()), v)
							}
						}
					}
				}})
			}
		case "strings.HasPrefix":
			if s, ok := eng.StrConst(joinParts(ci.Arg(1))); ok {
				if v, known := hasPrefix(ci.Arg(0), s); known {
					return one(eng.Outcome{Results: []*eng.Term{st.E.Bool(v)}})
				}
			}
		case "strings.TrimPrefix":
			if s, ok := eng.StrConst(joinParts(ci.Arg(1))); ok {
				ps := textParts(ci.Arg(0))
				if x, ok := eng.StrConst(ps[0]); ok && len(ps) == 2 && x == s {
					return one(eng.Outcome{Results: []*eng.Term{ps[1]}})
				}
			}
		}
		if strings.HasPrefix(ci.Name, "slices.Contains") && stage == 2 && excl < 0 && len(ci.Args) == 2 && eng.IsNil(core(ci.Args[0])) {
			return one(eng.Outcome{Results: []*eng.Term{st.E.Bool(false)}})
		}
		if strings.HasPrefix(ci.Name, "slices.Contains") && stage == 2 && excl >= 0 && len(ci.Args) == 2 {
			if core(ci.Args[0]) == c.param(st, fn, excl) {
				yes, no := st.E.Bool(true), st.E.Bool(false)
				key := core(ci.Args[1])
				is := func(ok *eng.Term) func(*eng.State, []*eng.Term) {
					return func(st *eng.State, rs []*eng.Term) {
						st.SetInt("listed", 1)
						exclusion(st, &cop{key: key, ok: ok})
						st.Del("listed")
					}
				}
				return one(eng.Outcome{Results: []*eng.Term{yes}, Do: is(yes)}, eng.Outcome{Results: []*eng.Term{no}, Do: is(no)})
			}
		}
		if ci.Name == sendName {
			if stage == 1 || st.GetInt("got") != 1 {
				st.Report("sent-twice", name, pos, "%s sends without a message having arrived", name)
				return opaque
			}
			c.r.inst("send", 1)
			seen["send"]++
			depth := int64(st.GoDepth())
			if ci.Go {
				depth++
			}
			if depth <= st.GetInt("base") {
				st.Report("blocking-send", name, pos, "the goroutine that receives the messages of %s sends itself: one slow connection delays all", name)
			} else if st.GetInt("visiting") == 1 && depth <= st.GetInt("depth") {
				st.Report("shared-goroutine", name, pos, "a message of %s is sent to several connections in one goroutine: one slow connection delays the others", name)
			}
			if !isCur(st, ci.Recv) {
				st.Report("wrong-connection", name, pos, "a message of %s may be sent to another connection than the one visited (%v)", name, ci.Recv)
			}
			if s, ok := eng.StrConst(core(ci.Args[0])); !ok || s != "" {
				st.Report("invocation-id", name, pos, "a message of %s is sent with an invocation id: clients would answer it", name)
			}
			if core(ci.Args[1]) != c.param(st, fn, target) {
				st.Report("target-changed", name, pos, "a message of %s is sent with another target than the one given", name)
			}
			if core(ci.Args[2]) != c.param(st, fn, args) {
				st.Report("arguments-changed", name, pos, "a message of %s is sent with other arguments than the ones given", name)
			}
			st.SetInt("n", st.GetInt("n")+1)
			return opaque
		}
		if isLogCall(ci.Name) || ci.Invoke || redisOp(ci.Name) != "" {
			return opaque
		}
		return eng.Decision{}
	}
	cl.event = func(st *eng.State, ev *eng.Event) {
		if c.alwaysTyped(st, ev) {
			st.Kill()
			return
		}
		switch ev.Kind {
		case eng.EvRecv, eng.EvSelect:
			if stage != 2 || ev.Val == nil || !isRedisMessage(ev.Val.Ty) || ev.SendOK {
				return
			}
			m := ev.Val
			if st.GetInt("got") == 0 {
				recvAt = ev.Instr.Block()
				st.SetInt("recvdepth", int64(st.Depth()))
			}
			c.arrive(st, m, ev.Val.Ty, name, ev.Instr.Pos(), finish)
			ev.Repl = m
		case eng.EvBranch:
			if ok := st.Get("exok"); ok != nil {
				if v, known := truth(st, ok); known {
					st.SetInt("excluded", 1+b2i(!v))
					st.Del("exok")
				}
			}
			if excl >= 0 && !ev.Truth && ev.Cond.Any(func(x *eng.Term) bool { return x.Op == "len" && core(x.Args[0]) == c.param(st, fn, excl) }) {
				st.SetInt("exdone", 1)
			}
			if st.GetInt("got") == 1 && ev.Cond.Any(func(x *eng.Term) bool { return x.Op == "len" && connSlice(x.Args[0].Ty) }) {
				st.SetInt("exhausted", 1+b2i(!ev.Truth))
			}
		case eng.EvAppend:
			if connSlice(ev.Ty) && st.GetInt("got") == 1 {
				for _, x := range st.SliceElems(core(ev.Val)) {
					if isCur(st, x) && st.Get("idx") == nil {
						st.SetInt("n", st.GetInt("n")+1)
						st.SetInt("listing", 1)
					} else {
						st.Report("wrong-connection", name, ev.Instr.Pos(), "a message of %s may be sent to another connection than the one visited", name)
					}
				}
			}
		case eng.EvIndex:
			if ia, ok := ev.Instr.(*ssa.IndexAddr); ok && connSlice(ia.X.Type()) && (st.GetInt("listing") == 1 || ev.Addr.Any(func(x *eng.Term) bool { return x.Op == "earlier" })) && !onlyStored(ia) && !(st.GetInt("visiting") == 1 && st.Get("idx") == core(ev.Key)) {
				visit(st)
				st.SetInt("listing", 1) // by an earlier visit
				st.SetInt("member", 1)
				st.SetInt("excluded", 2)
				st.Set("idx", core(ev.Key))
				if v := st.PeekIndex(ev.Addr, ev.Key, ia.X.Type().Underlying().(*types.Slice).Elem()); v != nil {
					st.Set("idxval", core(v))
				}
				if !stepsByOne(ia.Index) {
					st.Report("not-addressed", name, ev.Instr.Pos(), "what receives a message of %s may skip some of the connections", name)
				}
			}
			if excl >= 0 && st.GetInt("got") == 1 && core(ev.Addr) == c.param(st, fn, excl) {
				if ia, ok := ev.Instr.(*ssa.IndexAddr); ok && !stepsByOne(ia.Index) {
					st.Report("excluded-addressed", name, ev.Instr.Pos(), "what receives a message of %s may skip some of the excluded", name)
				}
				st.SetInt("exvisit", 1)
			}
		case eng.EvHeader:
			if ev.Truth && (st.GetInt("got") == 1 || st.GetInt("got") == 3) && st.GetInt("recvdepth") == int64(st.Depth()) && recvAt != nil && ev.Block != nil && ev.Block.Parent() == recvAt.Parent() && ev.Block.Dominates(recvAt) {
				finish(st, "the next message is awaited", fn.Pos())
				st.Kill()
				return
			}
			if ev.Truth && st.Get("idx") != nil {
				done(st, "the loop goes on", fn.Pos())
			}
			if ev.Truth && st.GetInt("exvisit") == 1 {
				st.Del("exvisit")
				st.Report("excluded-addressed", name, fn.Pos(), "what receives a message of %s may skip some of the excluded", name)
			}
		case eng.EvMake:
			if ev.Addr != nil && st.GetInt("got") == 1 {
				m := fmt.Sprintf("set:%d", core(ev.Addr).ID)
				st.Del(m)
				st.Del("late:" + m)
				if st.GetInt("exput") == 1 {
					st.SetInt("late:"+m, 1)
				}
			}
		case eng.EvSlice:
			if x, ok := ev.Instr.(*ssa.Slice); ok && connSlice(x.Type()) && st.GetInt("listing") == 1 && st.GetInt("visiting") == 0 {
				st.Report("not-addressed", name, ev.Instr.Pos(), "a message of %s is sent to a part of the connections only", name)
			}
		case eng.EvReturn:
			if ev.Kind2 == eng.CbF && stage == 2 {
				done(st, "the visitor returns", ev.Instr.Pos())
				if v, ok := eng.BoolConst(core(ev.Vals[0])); !ok || !v {
					st.Report("visit-stops", name, ev.Instr.Pos(), "what receives a message of %s may stop visiting the connections", name)
				}
			}
		case eng.EvEnd:
			if stage == 1 {
				c.r.inst("publish-path", 1)
				if st.GetInt("published") == 1 {
					ends = append(ends, published{st.Copy()})
					return
				}
				if st.GetInt("unsendable") == 1 {
					return
				}
				if toClient {
					if v, known := st.Fact(st.E.Eq(c.param(st, fn, ident), st.E.Str(""))); known && v {
						return
					}
				}
				st.Report("not-published", name, ev.Instr.Pos(), "%s may return without having published the message", name)
			} else if st.GetInt("got") == 1 || st.GetInt("got") == 3 {
				finish(st, "the goroutine that receives ends", ev.Instr.Pos())
				st.Report("receiver-ends", name, ev.Instr.Pos(), "the goroutine that receives the messages may end after a message of %s", name)
			}
		}
	}
	e := c.w.engine(containers(on, cl))
	joinedEngine = e
	e.Run(fn, c.params(e, fn), nil)
	stage = 2
	for _, p := range ends {
		e.RunFrom(p.st.Copy(), root, nil, nil, nil)
	}
	c.r.absorb(e)
	c.r.need(seen["publish"] > 0, "C19", "where "+name+" publishes")
	c.r.need(seen["subscribe"] > 0, "C19", "where the instances subscribe")
	c.r.need(seen["delivery"] > 0, "C19", "where messages of "+name+" are received")
	c.r.need(seen["send"] > 0, "C19", "where messages of "+name+" are sent to the connections")
}

func joinParts(t *eng.Term) *eng.Term {
	ps := textParts(t)
	if len(ps) == 1 {
		return ps[0]
	}
	return t
}

// arrive lets the message that was published arrive; the path ends when the next one is awaited.
func (c *redisCheck) arrive(st *eng.State, m *eng.Term, ty types.Type, name string, pos token.Pos, finish func(*eng.State, string, token.Pos)) {
	if st.GetInt("got") >= 1 {
		finish(st, "the next message is awaited", pos)
		st.Kill()
		return
	}
	switch n := st.GetInt("matches"); {
	case n == 0:
		st.Report("not-subscribed", name, pos, "the instances do not subscribe to the channel %s publishes to", name)
		st.Kill()
		return
	case n > 1:
		st.Report("sent-twice", name, pos, "the instances subscribe with several patterns to the channel %s publishes to: each message arrives more than once", name)
	}
	st.SetInt("got", 1)
	st.SetInt("base", int64(st.GoDepth()))
	s, ok := derefType(ty).Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		a := st.E.FieldAddr(m, i, s.Field(i).Type())
		switch s.Field(i).Name() {
		case "Channel":
			st.StoreAt(a, st.Get("channel"))
		case "Payload":
			st.StoreAt(a, st.Get("wire"))
		}
	}
}

// guard checks that the list of the groups of a connection is used under a lock.
func (c *redisCheck) guard(st *eng.State, name string, o *cop) {
	if o.field != nil && o.field != c.sets || c.sets == nil {
		return
	}
	stored := st.Get("stored")
	shared := o.field == c.sets || stored != nil && o.con.Any(func(x *eng.Term) bool { return x == stored }) || c.setAny(o.con)
	if !shared {
		return
	}
	if o.ev == nil { // a sync.Map
		if o.field == nil {
			c.lockSeen = true
		}
		return
	}
	c.lockSeen = true
	hs := heldSet(st, "held:")
	c.r.inst("guarded-use", 1)
	if c.locks == nil {
		c.locks = hs
	} else {
		both := map[string]bool{}
		for k := range c.locks {
			if hs[k] {
				both[k] = true
			}
		}
		c.locks = both
	}
	if len(c.locks) == 0 {
		st.Report("unguarded", name, o.ev.Instr.Pos(), "%s uses the groups of a connection without the lock that guards them: concurrent changes crash the process", name)
	}
}

// steps explores a method that does not send.
func (c *redisCheck) steps(fn *ssa.Function, on func(*eng.State, *cop), call func(*eng.State, *eng.CallInfo) (eng.Decision, bool), event func(*eng.State, *eng.Event)) {
	name := eng.FnName(fn)
	cl := &client{}
	cl.call = func(st *eng.State, ci *eng.CallInfo) eng.Decision {
		heldLocks(st, ci)
		if s := formatted(st, ci); s != nil {
			return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Results: []*eng.Term{s}}}}
		}
		if redisOp(ci.Name) == "Publish" {
			st.Report("published", name, ci.Pos(), "%s publishes a message", name)
		}
		if ci.Name == sendName {
			st.Report("sent", name, ci.Pos(), "%s sends to a connection", name)
		}
		if call != nil {
			if d, ok := call(st, ci); ok {
				return d
			}
		}
		if isLogCall(ci.Name) || ci.Invoke || redisOp(ci.Name) != "" {
			return opaque
		}
		return eng.Decision{}
	}
	cl.event = func(st *eng.State, ev *eng.Event) {
		if c.alwaysTyped(st, ev) {
			st.Kill()
			return
		}
		if event != nil {
			event(st, ev)
		}
	}
	e := c.w.engine(containers(func(st *eng.State, o *cop) {
		if o.field == c.sets && o.kind == "put" && o.val != nil {
			st.Set("stored", core(o.val))
		}
		c.guard(st, name, o)
		on(st, o)
	}, cl))
	joinedEngine = e
	e.Run(fn, c.params(e, fn), nil)
	c.r.absorb(e)
}

func (c *redisCheck) connected() {
	fn := c.fn["OnConnected"]
	name := eng.FnName(fn)
	c.steps(fn, func(st *eng.State, o *cop) {
		conn := c.param(st, fn, 1)
		switch {
		case o.field == c.conns && o.kind == "put" && isConnID(o.key, conn) && core(o.val) == conn:
			st.SetInt("conn", 1)
		case o.field == c.sets && o.kind == "put" && isConnID(o.key, conn):
			st.SetInt("set", 1)
		case (o.field == c.conns || o.field == c.sets) && (o.kind == "put" || o.kind == "del"):
			st.Report("wrong-connection", name, fn.Pos(), "%s registers something else than the connection under its id", name)
		}
	}, nil, func(st *eng.State, ev *eng.Event) {
		if ev.Kind != eng.EvEnd {
			return
		}
		c.r.inst("connected-path", 1)
		if st.GetInt("conn") == 0 || st.GetInt("set") == 0 {
			st.Report("not-registered", name, ev.Instr.Pos(), "%s may return without having registered the connection", name)
		}
	})
}

// tied: the context ends with the one the manager keeps.
func tied(t *eng.Term) bool {
	t = core(t)
	if t.Call != nil && t.Call.Name == "context.WithoutCancel" {
		return false
	}
	if t.Kind == eng.KApp && t.Op == "load" && len(t.Args) > 0 && eng.FieldVar(core(t.Args[0])) != nil && t.Ty != nil && strings.HasSuffix(types.TypeString(t.Ty, nil), "context.Context") {
		return true
	}
	for _, a := range t.Args {
		if tied(a) {
			return true
		}
	}
	return false
}

func (c *redisCheck) disconnected() {
	fn := c.fn["OnDisconnected"]
	name := eng.FnName(fn)
	removed := 0
	done := func(st *eng.State, what string, pos token.Pos) {
		if st.GetInt("visiting") == 1 && st.GetInt("n") == 0 {
			st.Report("stays-in-group", name, pos, "%s may leave a connection that has ended in one of its groups (%s)", name, what)
		}
		for _, k := range []string{"visiting", "curkey", "n", "idx", "idxval"} {
			st.Del(k)
		}
	}
	setOf := func(st *eng.State, con *eng.Term) bool {
		return con.Any(func(x *eng.Term) bool {
			k := c.ofConn(x)
			return k != nil && isConnID(k, c.param(st, fn, 1))
		})
	}
	isCur := func(st *eng.State, t *eng.Term) bool {
		t = unasserted(t)
		if st.GetInt("visiting") == 0 {
			return false
		}
		if idx := st.Get("idx"); idx != nil {
			return st.Get("idxval") != nil && t == st.Get("idxval") || t.Op == "elem" && len(t.Args) == 2 && core(t.Args[1]) == idx
		}
		return st.Get("curkey") != nil && t == st.Get("curkey")
	}
	c.steps(fn, func(st *eng.State, o *cop) {
		conn := c.param(st, fn, 1)
		pos := fn.Pos()
		switch {
		case o.field == c.conns && o.kind == "del" && isConnID(o.key, conn):
			st.SetInt("conn", 1)
		case o.field == c.sets && o.kind == "del" && isConnID(o.key, conn):
			st.SetInt("set", 1)
		case o.field == c.sets && o.kind == "get" && isConnID(o.key, conn):
			if o.ok != nil {
				st.Set("had", o.ok)
			}
		case o.field == c.conns || o.field == c.sets:
			if o.kind == "put" || o.kind == "del" {
				st.Report("wrong-connection", name, pos, "%s changes more than what belongs to the connection", name)
			}
		case o.kind == "range" && setOf(st, o.con):
			st.SetInt("ranged", 1)
			if o.ev != nil {
				st.Set("first", o.con)
			}
		case o.kind == "next" && setOf(st, o.con):
			done(st, "the visit goes on", pos)
			st.Set("more", st.E.Bool(false))
			if o.ok != nil {
				st.Set("more", o.ok)
			}
			st.SetInt("visiting", 1)
			st.SetInt("n", 0)
			if o.key != nil {
				st.Set("curkey", core(o.key))
			}
		case o.kind == "del" && setOf(st, o.con):
		}
	}, func(st *eng.State, ci *eng.CallInfo) (eng.Decision, bool) {
		switch redisOp(ci.Name) {
		case "SRem":
			removed++
			c.r.inst("membership-removed", 1)
			if ci.Go || st.GoDepth() > 0 {
				c.r.inst("membership-removed-async", 1)
			}
			g := c.curKey(st)
			ok := false
			for _, p := range textParts(ci.Arg(1)) {
				if isCur(st, p) {
					g, ok = p, true
				}
			}
			if !ok || g == nil {
				st.Report("wrong-set", name, ci.Pos(), "%s removes the connection from another group than the one visited", name)
				return opaque, true
			}
			c.key(st, name, ci.Pos(), ci.Arg(1), g)
			c.member(st, name, ci, func(m *eng.Term) bool { return isConnID(m, c.param(st, fn, 1)) })
			st.SetInt("n", st.GetInt("n")+1)
			if pipelined(ci) {
				st.SetInt("queued", 1)
			} else if tied(ci.Arg(0)) {
				st.Report("stays-in-group", name, ci.Pos(), "%s does not remove the connection from its groups when the server has ended", name)
			}
			return opaque, true
		case "Exec":
			st.Del("queued")
			if tied(ci.Arg(0)) {
				st.Report("stays-in-group", name, ci.Pos(), "%s does not remove the connection from its groups when the server has ended", name)
			}
			return opaque, true
		case "Discard":
			if st.GetInt("queued") == 1 {
				st.Report("stays-in-group", name, ci.Pos(), "%s drops the commands that remove the connection from its groups", name)
			}
		}
		return eng.Decision{}, false
	}, func(st *eng.State, ev *eng.Event) {
		switch ev.Kind {
		case eng.EvAppend:
			if isTextSlice(ev.Ty) {
				for _, x := range st.SliceElems(core(ev.Val)) {
					if isCur(st, x) && st.Get("idx") == nil {
						st.SetInt("n", st.GetInt("n")+1)
						st.SetInt("listing", 1)
					}
				}
			}
		case eng.EvStore:
			if a := core(ev.Addr); a.Kind == eng.KIndexA && len(a.Args) > 0 && isTextSlice(a.Args[0].Ty) && isCur(st, ev.Val) && st.Get("idx") == nil {
				st.SetInt("n", st.GetInt("n")+1)
				st.SetInt("listing", 1)
			}
		case eng.EvBranch:
			if m, con := st.Get("more"), st.Get("first"); m != nil && con != nil {
				if v, known := truth(st, m); known {
					st.Assume(st.E.Eq(st.E.App("len", types.Typ[types.Int], con), st.E.Int(0)), !v)
					st.Del("first")
				}
			}
			if m := st.Get("more"); m != nil && st.GetInt("n") == 0 && st.Get("idx") == nil {
				if v, known := truth(st, m); known && !v {
					st.Del("visiting") // no further one
				}
			}
			isLen := ev.Cond.Any(func(x *eng.Term) bool {
				return x.Op == "len" && len(x.Args) > 0 && isTextSlice(x.Args[0].Ty)
			})
			if isLen && st.GetInt("listing") == 1 && st.Get("idx") == nil && st.GetInt("looped") == 0 {
				// the list is not empty
				empty := false
				st.Facts(func(t *eng.Term, v bool) {
					if t.Op == "len" || len(t.Args) != 2 {
						return
					}
					for i, a := range t.Args {
						if a.Op == "len" && len(a.Args) > 0 && isTextSlice(a.Args[0].Ty) {
							if n, ok := eng.IntConst(core(t.Args[1-i])); ok && n == 0 {
								if t == st.E.Eq(a, st.E.Int(0)) && v || t == st.E.Lt(st.E.Int(0), a) && !v {
									empty = true
								}
							}
						}
					}
				})
				if empty {
					st.Kill()
					return
				}
			}
			if isLen && st.GetInt("looped") == 1 {
				st.SetInt("exhausted", 1+b2i(!ev.Truth))
			}
		case eng.EvIndex:
			ia, ok := ev.Instr.(*ssa.IndexAddr)
			if !ok || !isTextSlice(ia.X.Type()) || st.GetInt("listing") == 0 || onlyStored(ia) {
				return
			}
			st.SetInt("looped", 1)
			if st.GetInt("visiting") == 1 && st.Get("idx") == core(ev.Key) {
				return
			}
			st.SetInt("visiting", 1)
			st.SetInt("n", 0)
			st.Set("idx", core(ev.Key))
			st.Del("idxval")
			if v := st.PeekIndex(ev.Addr, ev.Key, types.Typ[types.String]); v != nil {
				st.Set("idxval", core(v))
			}
			if !stepsByOne(ia.Index) {
				st.Report("stays-in-group", name, ev.Instr.Pos(), "%s may skip some of the groups", name)
			}
		case eng.EvHeader:
			if ev.Truth {
				done(st, "the loop goes on", fn.Pos())
			}
		case eng.EvReturn:
			if ev.Kind2 == eng.CbF {
				done(st, "the visitor returns", ev.Instr.Pos())
				if v, ok := eng.BoolConst(core(ev.Vals[0])); !ok || !v {
					st.Report("stays-in-group", name, ev.Instr.Pos(), "%s may stop visiting the groups of the connection", name)
				}
			}
		case eng.EvEnd:
			c.r.inst("disconnected-path", 1)
			if m := st.Get("more"); m != nil {
				if v, known := truth(st, m); !known || v {
					st.Report("stays-in-group", name, ev.Instr.Pos(), "%s may stop visiting the groups of the connection", name)
				}
			}
			done(st, "it returns", ev.Instr.Pos())
			if st.GetInt("conn") == 0 || st.GetInt("set") == 0 {
				st.Report("not-unregistered", name, ev.Instr.Pos(), "%s may return without having unregistered the connection", name)
			}
			if st.GetInt("queued") == 1 {
				st.Report("stays-in-group", name, ev.Instr.Pos(), "%s may return without having executed the commands that remove the connection from its groups", name)
			}
			had := false
			if ok := st.Get("had"); ok != nil {
				v, known := truth(st, ok)
				had = v || !known
			}
			if had && st.GetInt("ranged") == 0 && !c.knownEmpty(st, setOf) {
				st.Report("stays-in-group", name, ev.Instr.Pos(), "%s may return without having visited the groups of the connection", name)
			}
			if st.GetInt("listing") == 1 && (st.GetInt("looped") == 0 || st.GetInt("exhausted") == 1) {
				st.Report("stays-in-group", name, ev.Instr.Pos(), "%s may return without having visited all groups of the connection", name)
			}
		}
	})
	c.r.need(removed > 0, "C19", "where "+name+" removes the connection from its groups")
}

func (c *redisCheck) curKey(st *eng.State) *eng.Term { return st.Get("curkey") }

// knownEmpty: a branch has found that the connection is in no group.
func (c *redisCheck) knownEmpty(st *eng.State, setOf func(*eng.State, *eng.Term) bool) bool {
	empty := false
	st.Facts(func(t *eng.Term, v bool) {
		for _, a := range t.Args {
			if a.Op == "len" && len(a.Args) == 1 && setOf(st, a.Args[0]) {
				if t == st.E.Eq(a, st.E.Int(0)) && v || t == st.E.Lt(st.E.Int(0), a) && !v {
					empty = true
				}
			}
		}
	})
	return empty
}

// member checks that a command names exactly one member.
func (c *redisCheck) member(st *eng.State, name string, ci *eng.CallInfo, is func(*eng.Term) bool) {
	ms := st.SliceElems(core(ci.Arg(2)))
	if len(ms) != 1 || !is(core(ms[0])) {
		st.Report("wrong-member", name, ci.Pos(), "%s names another member of the group than the given connection", name)
	}
}

// group explores AddToGroup or RemoveFromGroup.
func (c *redisCheck) group(method string) {
	fn := c.fn[method]
	name := eng.FnName(fn)
	add := method == "AddToGroup"
	mine, other := "SRem", "SAdd"
	if add {
		mine, other = other, mine
	}
	group := func(st *eng.State) *eng.Term { return c.param(st, fn, 1) }
	id := func(st *eng.State) *eng.Term { return c.param(st, fn, 2) }
	setOf := func(st *eng.State, con *eng.Term) bool {
		stored := st.Get("stored")
		return con.Any(func(x *eng.Term) bool { return stored != nil && x == stored || c.ofConn(x) == id(st) })
	}
	// 1 true, 2 false
	is := func(st *eng.State, what string) int64 {
		if ok := st.Get(what); ok != nil {
			if v, known := truth(st, ok); known {
				return 1 + b2i(!v)
			}
		}
		return 0
	}
	seen := 0
	c.steps(fn, func(st *eng.State, o *cop) {
		pos := fn.Pos()
		switch {
		case o.field == c.conns:
			if o.kind == "put" || o.kind == "del" {
				st.Report("connections-changed", name, pos, "%s changes the list of connections", name)
			}
		case o.field == c.sets && o.kind == "get":
			if core(o.key) != id(st) {
				st.Report("wrong-connection", name, pos, "%s looks for another connection than the given one", name)
				return
			}
			if o.ok == nil {
				return
			}
			st.Set("there", o.ok)
			if st.GetInt("sent") == 1 {
				st.Set("again", o.ok)
			}
		case o.field == c.sets && o.kind == "put":
			if core(o.key) != id(st) || !o.atomic && is(st, "there") != 2 {
				st.Report("groups-lost", name, pos, "%s may replace the groups of a connection: they would not be left when it ends", name)
			}
		case o.field == c.sets && o.kind == "del":
			st.Report("groups-lost", name, pos, "%s forgets the groups of a connection: they would not be left when it ends", name)
		case setOf(st, o.con) && o.kind == "put":
			if core(o.key) != group(st) {
				st.Report("wrong-group", name, pos, "%s notes another group than the given one", name)
			}
			if !add {
				st.Report("wrong-group", name, pos, "%s notes a group", name)
			}
			st.SetInt("noted", 1)
		case setOf(st, o.con) && o.kind == "del":
			if core(o.key) != group(st) {
				st.Report("groups-lost", name, pos, "%s forgets another group than the given one: it would not be left when the connection ends", name)
			}
			st.Del("noted")
			st.SetInt("forgotten", 1)
		case setOf(st, o.con) && o.kind == "get":
			if core(o.key) == group(st) && o.ok != nil {
				st.Set("isin", o.ok)
			}
		}
	}, func(st *eng.State, ci *eng.CallInfo) (eng.Decision, bool) {
		switch op := redisOp(ci.Name); {
		case op == mine:
			seen++
			c.r.inst("membership", 1)
			c.key(st, name, ci.Pos(), ci.Arg(1), group(st))
			c.member(st, name, ci, func(m *eng.Term) bool { return m == id(st) })
			if ci.Go || st.GoDepth() > 0 {
				st.Report("unordered", name, ci.Pos(), "%s changes the group in another goroutine: it may return before, and overtake later changes", name)
			}
			if pipelined(ci) {
				st.SetInt("queued", 1)
			}
			if add && st.GetInt("noted") == 0 {
				st.Report("not-noted", name, ci.Pos(), "%s adds the connection to a group without having noted it: it would not leave it when it ends", name)
			}
			st.SetInt("sent", 1)
			st.Del("again")
			return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Do: func(st *eng.State, rs []*eng.Term) {
				if len(rs) > 0 {
					st.Set("cmd", core(rs[0]))
				}
			}}}}, true
		case op == other:
			if add && st.GetInt("sent") == 1 && is(st, "again") == 2 {
				c.key(st, name, ci.Pos(), ci.Arg(1), group(st))
				c.member(st, name, ci, func(m *eng.Term) bool { return m == id(st) })
				st.SetInt("undone", 1)
				return opaque, true
			}
			st.Report("wrong-group", name, ci.Pos(), "%s does the opposite", name)
			return opaque, true
		case op == "Exec":
			st.Del("queued")
		case (op == "Err" || op == "Result") && st.Get("cmd") != nil && len(ci.Args) > 0 && core(ci.Args[0]).Any(func(x *eng.Term) bool { return x == st.Get("cmd") }):
			n := ci.Sig.Results().Len()
			good, bad := make([]*eng.Term, n), make([]*eng.Term, n)
			good[n-1] = st.E.Nil()
			return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{
				{Results: good, Do: func(st *eng.State, rs []*eng.Term) { st.SetInt("failed", 2) }},
				{Results: bad, Do: func(st *eng.State, rs []*eng.Term) {
					st.Assume(st.E.Eq(rs[n-1], st.E.Nil()), false)
					st.SetInt("failed", 1)
				}}}}, true
		}
		return eng.Decision{}, false
	}, func(st *eng.State, ev *eng.Event) {
		if ev.Kind != eng.EvEnd {
			return
		}
		c.r.inst("group-path", 1)
		pos := ev.Instr.Pos()
		if st.GetInt("sent") == 0 || st.GetInt("queued") == 1 {
			st.Report("not-changed", name, pos, "%s may return without having changed the group", name)
			return
		}
		if add {
			if st.GetInt("failed") != 1 && st.GetInt("noted") == 0 {
				st.Report("not-noted", name, pos, "%s may add the connection to a group without noting it: it would not leave it when it ends", name)
			}
			if st.GetInt("failed") != 1 {
				switch is(st, "again") {
				case 0:
					st.Report("stays-in-group", name, pos, "%s does not look again whether the connection has ended meanwhile: it would stay in the group", name)
				case 2:
					if st.GetInt("undone") == 0 {
						st.Report("stays-in-group", name, pos, "%s may leave a connection in the group that has ended meanwhile", name)
					}
				}
			}
			return
		}
		if is(st, "there") == 1 && st.GetInt("forgotten") == 0 {
			if ok := st.Get("isin"); ok != nil {
				if v, known := truth(st, ok); known && !v {
					return
				}
			}
			c.r.inst("still-noted", 1) // it is removed once more when the connection ends
		}
	})
	c.r.need(seen > 0, "C19", "where "+name+" changes the group")
}

// isConnIDOf: t is what ConnectionID returned for a value made from conn.
func isConnIDOf(t, conn *eng.Term) bool {
	return t.Call != nil && strings.HasSuffix(t.Call.Name, ".ConnectionID") && len(t.Args) > 0 && core(t.Args[0]).Any(func(x *eng.Term) bool { return x == conn })
}

// alwaysTyped: the event is a failed test of the type of what is kept in the containers, which always has this type.
func (c *redisCheck) alwaysTyped(st *eng.State, ev *eng.Event) bool {
	if ev.Kind != eng.EvTypeCase || ev.Truth {
		return false
	}
	v := core(ev.Addr)
	return st.Get("curkey") == v || st.Get("cur") == v || v.Any(func(x *eng.Term) bool {
		return x.Call != nil && strings.HasPrefix(x.Call.Name, "(sync.Map).") && len(x.Args) > 0 && (conField(x.Args[0]) == c.sets || conField(x.Args[0]) == c.conns)
	})
}

// pipelined: the command waits for Exec.
func pipelined(ci *eng.CallInfo) bool {
	r := ci.Recv
	if r == nil && len(ci.Args) > 0 {
		r = ci.Args[0]
	}
	return r != nil && (r.Ty != nil && strings.Contains(types.TypeString(r.Ty, nil), "Pipelin") || r.Any(func(x *eng.Term) bool {
		return x.Call != nil && strings.HasSuffix(redisOp(x.Call.Name), "Pipeline")
	}))
}

// formatted is the text fmt.Sprintf or fmt.Sprint makes of texts, or nil.
func formatted(st *eng.State, ci *eng.CallInfo) *eng.Term {
	var parts []*eng.Term
	switch ci.Name {
	case "fmt.Sprintf":
		f, ok := eng.StrConst(core(ci.Arg(0)))
		if !ok {
			return nil
		}
		as := st.SliceElems(core(ci.Arg(1)))
		bits := strings.Split(strings.ReplaceAll(f, "%v", "%s"), "%s")
		if strings.Contains(strings.Join(bits, ""), "%") || len(bits) != len(as)+1 {
			return nil
		}
		for i, b := range bits {
			parts = append(parts, st.E.Str(b))
			if i < len(as) {
				parts = append(parts, core(as[i]))
			}
		}
	default:
		return nil
	}
	out := st.E.Str("")
	for _, p := range parts {
		if p.Ty == nil || !types.Identical(p.Ty.Underlying(), types.Typ[types.String]) {
			return nil
		}
		if s, ok := eng.StrConst(p); ok && s == "" {
			continue
		}
		if s, ok := eng.StrConst(out); ok && s == "" {
			out = p
			continue
		}
		a, ok1 := eng.StrConst(out)
		b, ok2 := eng.StrConst(p)
		if ok1 && ok2 {
			out = st.E.Str(a + b)
		} else {
			out = st.E.App("concat", types.Typ[types.String], out, p)
		}
	}
	return out
}

func isBoolMap(t types.Type) bool {
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Map)
	return ok && types.Identical(m.Elem().Underlying(), types.Typ[types.Bool])
}

// ofConn: x is what was looked up in the container of the groups of the connections; the key.
func (c *redisCheck) ofConn(x *eng.Term) *eng.Term {
	if len(x.Args) < 2 || c.sets == nil {
		return nil
	}
	if x.Call != nil && strings.HasPrefix(x.Call.Name, "(sync.Map).Load") || x.Kind == eng.KApp && x.Op == "lookup" {
		if conField(x.Args[0]) == c.sets {
			return core(x.Args[1])
		}
	}
	return nil
}

func (c *redisCheck) setAny(con *eng.Term) bool {
	return con.Any(func(x *eng.Term) bool { return c.ofConn(x) != nil })
}

// unasserted is the value a type was asserted of.
func unasserted(t *eng.Term) *eng.Term {
	t = core(t)
	for strings.HasPrefix(t.Op, "assert") && len(t.Args) == 1 {
		t = core(t.Args[0])
	}
	return t
}

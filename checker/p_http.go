package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

func init() {
	register("C21", checkC21)
	register("C22", checkC22)
	register("C23", checkC23)
	register("C33", checkC33)
	register("C36", checkC36)
}

const (
	rwT    = "net/http.ResponseWriter"
	randOK = 16 // bytes
)

func isRW(t types.Type) bool  { return t.String() == rwT }
func isReq(t types.Type) bool { return t.String() == "*net/http.Request" }

// httpRoots are the functions a HTTP router calls: all with a handler's signature which home code does
// not call itself.
func (w *World) httpRoots() []*ssa.Function {
	called := map[*ssa.Function]bool{}
	for _, f := range w.Sort {
		if f.Synthetic != "" {
			continue
		}
		for _, c := range callsIn(f) {
			if g := c.Common().StaticCallee(); g != nil {
				called[g] = true
			}
		}
	}
	var out []*ssa.Function
	for _, f := range w.Sort {
		n := len(f.Params)
		if f.Parent() != nil || f.Synthetic != "" || n < 2 || called[f] && f.Name() != "ServeHTTP" || f.Signature.Results().Len() > 0 {
			continue
		}
		if isRW(f.Params[n-2].Type()) && isReq(f.Params[n-1].Type()) && f.Signature.Params().Len() == 2 {
			out = append(out, f)
		}
	}
	return out
}

// connMap: t is the map of connections by id.
func connMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && types.Identical(m.Key(), types.Typ[types.String]) && typeName(m.Elem()) == "Connection"
}

// httpWorld knows the roles of the functions and types of the HTTP endpoint.
type httpWorld struct {
	w         *World
	roots     []*ssa.Function
	negotiate *ssa.Function // answers negotiations
	serve     []*ssa.Function
	pending   types.Type // *T of negotiated, unused connections
}

func (w *World) httpWorld(r *Report, prop string) *httpWorld {
	h := &httpWorld{w: w, roots: w.httpRoots()}
	if !r.need(len(h.roots) > 0, prop, "HTTP handlers") {
		return nil
	}
	encodes := w.reaching(func(i ssa.Instruction) bool {
		c, ok := i.(ssa.CallInstruction)
		if !ok {
			return false
		}
		n := calleeName(c.Common())
		if n != "(encoding/json.Encoder).Encode" && n != "encoding/json.Marshal" {
			return false
		}
		for _, a := range c.Common().Args {
			if mi, ok := a.(*ssa.MakeInterface); ok && strings.Contains(strings.ToLower(typeName(mi.X.Type())), "negotiateresponse") {
				return true
			}
		}
		return false
	})
	for _, f := range h.roots {
		if encodes[f] {
			h.negotiate = f
		} else {
			h.serve = append(h.serve, f)
		}
	}
	if !r.need(h.negotiate != nil && len(h.serve) > 0, prop, "the negotiate handler and the connection handler") {
		return nil
	}
	// the type of the entries the negotiate handler makes
	cl := &client{}
	cl.event = func(st *eng.State, ev *eng.Event) {
		if ev.Kind == eng.EvMapUpdate && ev.Addr.Ty != nil && connMap(ev.Addr.Ty) {
			h.pending = eng.StripIface(ev.Val).Ty
		}
	}
	e := w.engine(cl)
	e.Run(h.negotiate, nil, nil)
	if !r.need(h.pending != nil, prop, "an entry for a negotiated connection") {
		return nil
	}
	return h
}

func (h *httpWorld) isPending(t *eng.Term) bool {
	t = eng.StripIface(t)
	return t != nil && t.Ty != nil && types.Identical(t.Ty, h.pending)
}

// mux tracks critical sections and lookups in the map of connections.
func muxCall(st *eng.State, c *eng.CallInfo) bool {
	m, ok := lockNames[c.Name]
	if !ok {
		return false
	}
	for _, k := range []string{"lkkey", "lkval"} {
		st.Del(k)
	}
	switch {
	case m == 1:
		st.SetInt("sess", 1)
	case m > 1:
		st.SetInt("sess", 2)
	default:
		st.SetInt("sess", 0)
	}
	return true
}

func muxEvent(st *eng.State, ev *eng.Event) {
	if ev.Kind == eng.EvLookup && ev.Addr.Ty != nil && connMap(ev.Addr.Ty) {
		st.Set("lkkey", ev.Key)
		st.Set("lkval", ev.Val)
	}
}

// checkedPending: in this critical section the entry under key was found to be a pending negotiation.
func (h *httpWorld) checkedPending(st *eng.State, key *eng.Term) bool {
	v := st.Get("lkval")
	if st.GetInt("sess") != 2 || v == nil || st.Get("lkkey") != key {
		return false
	}
	hit := false
	st.Facts(func(t *eng.Term, truth bool) {
		if !truth || t.Kind != eng.KApp {
			return
		}
		if strings.HasPrefix(t.Op, "typeis:") && len(t.Args) > 0 && t.Args[0] == v && types.Identical(t.Ty, h.pending) {
			hit = true
		}
		if t.Op == "eq" {
			for i := 0; i < 2; i++ {
				if eng.StripIface(t.Args[i]) == v && h.isPending(t.Args[1-i]) {
					hit = true
				}
			}
		}
	})
	return hit
}

// ---- random ids ------------------------------------------------------------------------------

// bufRoot is the object behind a byte slice and its length when it is constant.
func bufRoot(t *eng.Term) (*eng.Term, int64) {
	t = eng.StripConv(eng.StripIface(t))
	high := int64(1) << 40
	for t.Kind == eng.KApp && t.Op == "slice" {
		for i := 1; i < len(t.Args); i++ {
			if c, ok := eng.IntConst(t.Args[i]); ok && c == 0 && i == 1 || t.Args[i].Op == "none" {
				continue
			}
			if c, ok := eng.IntConst(t.Args[i]); ok && i >= 2 {
				if c < high {
					high = c
				}
				continue
			}
			return nil, 0
		}
		t = eng.StripConv(t.Args[0])
	}
	if t.Kind != eng.KObj || t.Ty == nil {
		return nil, 0
	}
	if p, ok := t.Ty.Underlying().(*types.Pointer); ok {
		if a, ok := p.Elem().Underlying().(*types.Array); ok {
			return t, min(a.Len(), high)
		}
	}
	if ms, ok := t.Instr.(*ssa.MakeSlice); ok {
		if c, ok := ms.Len.(*ssa.Const); ok {
			return t, min(c.Int64(), high)
		}
	}
	return nil, 0
}

// randCall tracks reads from the cryptographic random source.
func randCall(st *eng.State, c *eng.CallInfo) bool {
	var buf *eng.Term
	switch c.Name {
	case "crypto/rand.Read":
		buf = c.Arg(0)
	case "io.ReadFull":
		if rd := eng.StripIface(c.Arg(0)); rd != nil && rd.Any(func(x *eng.Term) bool { return x.Kind == eng.KGlobal && strings.Contains(x.Op, "crypto/rand") }) {
			buf = c.Arg(1)
		}
	case "(encoding/base64.Encoding).EncodeToString", "encoding/hex.EncodeToString":
		b := c.Args[len(c.Args)-1]
		root, n := bufRoot(b)
		good := root != nil && st.GetInt(fmt.Sprintf("rnd:%d", root.ID)) == 1 && n >= randOK
		return st.E != nil && markResult(st, c, good)
	case "crypto/rand.Text", "(github.com/google/uuid.UUID).String", "github.com/google/uuid.NewString":
		return markResult(st, c, true)
	default:
		return false
	}
	if root, n := bufRoot(buf); root != nil && n >= randOK {
		st.SetInt(fmt.Sprintf("rnd:%d", root.ID), 1)
	}
	return true
}

// markResult is resolved by randOutcome; kept apart because the result is known only after the call.
func markResult(st *eng.State, c *eng.CallInfo, good bool) bool {
	if good {
		st.SetInt("nextrandom", 1)
	} else {
		st.Del("nextrandom")
	}
	return true
}

// randDecision is the decision for calls randCall knows.
func randDecision(st *eng.State, c *eng.CallInfo) (eng.Decision, bool) {
	switch c.Name {
	case "crypto/rand.Read", "io.ReadFull":
		if randCall(st, c) {
			return opaque, true
		}
	case "(encoding/base64.Encoding).EncodeToString", "encoding/hex.EncodeToString", "crypto/rand.Text", "(github.com/google/uuid.UUID).String", "github.com/google/uuid.NewString":
		randCall(st, c)
		good := st.GetInt("nextrandom") == 1
		st.Del("nextrandom")
		return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{Do: func(st *eng.State, rs []*eng.Term) {
			if good && len(rs) > 0 {
				st.SetInt(fmt.Sprintf("rid:%d", rs[0].ID), 1)
			}
		}}}}, true
	}
	return eng.Decision{}, false
}

// randEvent: a store into the buffer spoils it.
func randEvent(st *eng.State, ev *eng.Event) {
	if ev.Kind != eng.EvStore {
		return
	}
	a := ev.Addr
	for a.Kind == eng.KIndexA || a.Kind == eng.KFieldA {
		a = a.Args[0]
	}
	if root, _ := bufRoot(a); root != nil {
		st.Del(fmt.Sprintf("rnd:%d", root.ID))
	}
}

func isRandomID(st *eng.State, t *eng.Term) bool {
	t = eng.StripConv(t)
	return t != nil && st.GetInt(fmt.Sprintf("rid:%d", t.ID)) == 1
}

// ---- C21 --------------------------------------------------------------------------------------

func checkC21(w *World, r *Report) {
	r.rule("on every path of the HTTP handlers a connection is served only after it replaced, under the write lock and in the critical section that found it, the pending negotiation with the id or token of the request; the entry is deleted when serving ended, and a pending entry is never made for an id chosen by the peer")
	r.rule("a negotiation makes exactly one entry, under the token when the response has one and under the id otherwise, and a response has a token exactly for version 1")
	h := w.httpWorld(r, "C21")
	if h == nil {
		return
	}
	for _, root := range h.serve {
		name := fname(root)
		cl := &client{}
		cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
			if muxCall(st, c) {
				return opaque
			}
			if d, ok := randDecision(st, c); ok {
				return d
			}
			if (c.Name == "(Server).Serve" || c.Name == "(server).Serve") && !c.Go {
				conn := eng.StripIface(c.Args[len(c.Args)-1])
				r.inst("serve", 1)
				if st.Get("claimconn") == nil || eng.StripIface(st.Get("claimconn")) != conn {
					st.Report("serve-unclaimed", name, c.Pos(), "a connection is served although it did not replace a pending negotiation")
				}
				st.SetInt("served", 1)
				return opaque
			}
			return eng.Decision{}
		}
		cl.event = func(st *eng.State, ev *eng.Event) {
			muxEvent(st, ev)
			randEvent(st, ev)
			switch ev.Kind {
			case eng.EvMapUpdate:
				if ev.Addr.Ty == nil || !connMap(ev.Addr.Ty) {
					return
				}
				r.inst("map-update", 1)
				if h.isPending(ev.Val) {
					if !isRandomID(st, ev.Key) {
						st.Report("id-not-negotiated", name, ev.Instr.Pos(), "a pending entry is made for an id that was not generated: %v", ev.Key)
					}
					return
				}
				if !h.checkedPending(st, ev.Key) && !isRandomID(st, ev.Key) {
					st.Report("claim-not-atomic", name, ev.Instr.Pos(), "a connection is entered under an id without having found the pending negotiation in the same critical section")
				}
				st.Set("claimkey", ev.Key)
				st.Set("claimconn", ev.Val)
				st.Del("deleted")
			case eng.EvDelete:
				if !connMap(ev.Addr.Ty) {
					return
				}
				r.inst("map-delete", 1)
				if st.Get("claimkey") == ev.Key {
					st.SetInt("deleted", 1)
				} else if st.Get("claimkey") != nil && st.GetInt("served") == 1 {
					st.Report("entry-left", name+":key", ev.Instr.Pos(), "the entry deleted after serving is not the one of the connection")
				}
			case eng.EvEnd:
				if st.Get("claimkey") != nil && st.GetInt("deleted") == 0 {
					st.Report("entry-left", name, root.Pos(), "a request ends, but the entry of its connection is still there")
				}
			}
		}
		e := w.engine(cl)
		e.Run(root, nil, nil)
		r.absorb(e)
	}
	w.negotiateKeys(r, h)
}

// negotiateKeys: which key an entry gets.
func (w *World) negotiateKeys(r *Report, h *httpWorld) {
	name := fname(h.negotiate)
	cl := &client{}
	cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		if muxCall(st, c) {
			return opaque
		}
		if d, ok := randDecision(st, c); ok {
			return d
		}
		if c.Name == "(encoding/json.Encoder).Encode" || c.Name == "encoding/json.Marshal" {
			resp := responseOf(st, c)
			if resp == nil {
				return opaque
			}
			r.inst("negotiate-response", 1)
			id, token, ver := jsonField(st.E, resp, "connectionId"), jsonField(st.E, resp, "connectionToken"), jsonField(st.E, resp, "negotiateVersion")
			if id == nil || token == nil || ver == nil {
				st.Report("anchor", name, c.Pos(), "the negotiate response has no connectionId, connectionToken and negotiateVersion")
				return opaque
			}
			key := st.Get("inskey")
			if key == nil {
				st.Report("no-entry", name, c.Pos(), "a negotiation is answered, but there is no entry for it")
				return opaque
			}
			want, what := token, "token"
			if s, ok := eng.StrConst(token); ok && s == "" {
				want, what = id, "id"
			}
			if key != want {
				st.Report("entry-key", name+":"+what, c.Pos(), "the entry of a negotiation is not made under the %s its response gives to the client", what)
			}
			v1, known := st.Fact(st.E.Eq(ver, st.E.Int(1)))
			if known && v1 != (what == "token") {
				st.Report("version-token", name, c.Pos(), "a response with version 1: %v has a token: %v", v1, what == "token")
			}
			if !known {
				st.Report("version-token", name, c.Pos(), "the response is the same for all versions")
			}
			if v := st.Get("insval"); v != nil {
				if cid := connIDOf(st, v); cid != nil && cid != id {
					st.Report("entry-id", name, c.Pos(), "the connection of a negotiation gets another id than the response tells")
				}
			}
			return opaque
		}
		return eng.Decision{}
	}
	cl.event = func(st *eng.State, ev *eng.Event) {
		randEvent(st, ev)
		if ev.Kind == eng.EvMapUpdate && ev.Addr.Ty != nil && connMap(ev.Addr.Ty) {
			r.inst("negotiate-entry", 1)
			if st.Get("inskey") != nil {
				st.Report("second-entry", name, ev.Instr.Pos(), "a negotiation makes two entries")
			}
			st.Set("inskey", ev.Key)
			st.Set("insval", eng.StripIface(ev.Val))
		}
	}
	e := w.engine(cl)
	e.Run(h.negotiate, nil, nil)
	r.absorb(e)
}

// jsonField: the field of struct value t with that json name.
func jsonField(e *eng.Engine, t *eng.Term, name string) *eng.Term {
	s, ok := t.Ty.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if jsonName(s, i) == name {
			return e.Field(t, i, s.Field(i).Type())
		}
	}
	return nil
}

func jsonName(s *types.Struct, i int) string {
	tag := s.Tag(i)
	if j := strings.Index(tag, `json:"`); j >= 0 {
		tag = tag[j+6:]
		if k := strings.IndexAny(tag, `,"`); k >= 0 {
			return tag[:k]
		}
	}
	return s.Field(i).Name()
}

// connIDOf: the connection id in the base of a connection object.
func connIDOf(st *eng.State, obj *eng.Term) *eng.Term {
	p, ok := obj.Ty.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	v := st.PeekStruct(obj, p.Elem())
	if v == nil {
		return nil
	}
	var id *eng.Term
	v.Walk(func(x *eng.Term) bool {
		if x.Kind == eng.KStruct && typeName(x.Ty) == "ConnectionBase" {
			s := x.Ty.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if types.Identical(s.Field(i).Type(), types.Typ[types.String]) {
					id = x.Args[i]
				}
			}
		}
		return id == nil
	})
	if id != nil && id.Kind == eng.KApp && id.Op == "unknown" {
		return nil
	}
	return id
}

// ---- C22 --------------------------------------------------------------------------------------

func checkC22(w *World, r *Report) {
	r.rule("on every path of the negotiate handler an entry is made only when, in the same critical section, the number of pending entries was counted and is less than the limit, or there is no limit; otherwise the request gets status 429; the entry carries the time of its creation")
	r.rule("a goroutine started with the endpoint deletes, under the write lock, exactly the pending entries older than the handshake timeout, visits all entries and ends only with the server")
	h := w.httpWorld(r, "C22")
	if h == nil {
		return
	}
	name := fname(h.negotiate)
	limit := w.optionField(r, "C22", "MaxNegotiationConnections")
	if limit == nil {
		return
	}
	cmps := map[*ssa.If]int{} // comparisons with the limit, and the side of the count
	isMax := func(t *eng.Term) bool {
		return t.Any(func(x *eng.Term) bool {
			fv := eng.FieldVar(x)
			return fv != nil && fv == limit
		})
	}
	cl := &client{}
	cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		if muxCall(st, c) {
			st.Del("below")
			st.Del("nolimit")
			st.Del("pos")
			return opaque
		}
		if d, ok := w.getter(c); ok {
			return d
		}
		if c.Name == "(net/http.ResponseWriter).WriteHeader" || c.Name == "net/http.Error" {
			code := c.Args[len(c.Args)-1]
			if st.GetInt("refused") == 1 {
				if n, ok := eng.IntConst(code); !ok || n != 429 {
					st.Report("refused-status", name, c.Pos(), "a negotiation over the limit is answered with status %v", code)
				} else {
					st.SetInt("refused", 2)
					r.inst("refused-429", 1)
				}
			}
			return opaque
		}
		return eng.Decision{}
	}
	cl.event = func(st *eng.State, ev *eng.Event) {
		switch ev.Kind {
		case eng.EvBranch:
			t, v := ev.Cond, ev.Truth
			for t.Kind == eng.KApp && t.Op == "not" {
				t, v = t.Args[0], !v
			}
			if t.Op == "nextok" && v {
				st.Del("pos")
			}
			if t.Op == "nextok" && !v && st.GetInt("pos") == 1 && st.GetInt("sess") == 2 {
				st.SetInt("below", 1) // no entry at all and a positive limit
			}
			if t.Kind != eng.KApp || t.Op != "lt" && t.Op != "eq" || st.GetInt("sess") != 2 {
				return
			}
			a, b := t.Args[0], t.Args[1]
			if f, ok := ev.Instr.(*ssa.If); ok && t.Op == "lt" && isMax(a) != isMax(b) {
				if other := a; !(isMax(a) && isOne(b)) && !(isMax(b) && eng.IsZero(other)) {
					cmps[f] = w.countSide(f, limit)
				}
			}
			switch {
			case t.Op == "lt" && eng.IsZero(a) && isMax(b): // 0 < max
				if !v {
					st.SetInt("nolimit", 1)
				} else {
					st.SetInt("pos", 1)
				}
			case t.Op == "eq" && (eng.IsZero(a) && isMax(b) || eng.IsZero(b) && isMax(a)):
				if v {
					st.SetInt("nolimit", 1)
				}
			case t.Op == "lt" && isMax(a) && isOne(b): // max < 1
				if v {
					st.SetInt("nolimit", 1)
				}
			case t.Op == "lt" && isMax(b) && !isMax(a): // count < max
				if v {
					st.SetInt("below", 1)
				} else {
					st.SetInt("refused", 1)
				}
			case t.Op == "lt" && isMax(a) && plusOne(b): // max < count+1
				if !v {
					st.SetInt("below", 1)
				} else {
					st.SetInt("refused", 1)
				}
			}
		case eng.EvMapUpdate:
			if ev.Addr.Ty == nil || !connMap(ev.Addr.Ty) {
				return
			}
			r.inst("negotiate-entry", 1)
			if st.GetInt("sess") != 2 || st.GetInt("below") == 0 && st.GetInt("nolimit") == 0 {
				st.Report("limit-not-checked", name, ev.Instr.Pos(), "an entry is made although the limit of pending negotiations was not checked in the same critical section")
			}
			obj := eng.StripIface(ev.Val)
			stamped := false
			if p, ok := obj.Ty.Underlying().(*types.Pointer); ok {
				if v := st.PeekStruct(obj, p.Elem()); v != nil {
					stamped = v.Any(func(x *eng.Term) bool { return isCallTo(x, "time.Now") })
				}
			}
			if !stamped {
				st.Report("no-stamp", name, ev.Instr.Pos(), "an entry is made without the time of its creation")
			}
		case eng.EvEnd:
			if st.GetInt("refused") == 1 {
				st.Report("refused-status", name+":none", h.negotiate.Pos(), "a negotiation over the limit is not answered with status 429")
			}
		}
	}
	e := w.engine(cl)
	e.Run(h.negotiate, nil, nil)
	r.absorb(e)
	r.need(r.Instances["refused-429"] > 0 || len(r.Findings) > 0, "C22", "a path that refuses a negotiation over the limit")
	// the counter counts pending entries
	w.checkCount(r, h, cmps)
	w.checkReaper(r, h)
	// other handlers make no entries that stay pending
	for _, root := range h.serve {
		w.checkPlaceholder(r, h, root)
	}
}

func isOne(t *eng.Term) bool { n, ok := eng.IntConst(t); return ok && n == 1 }

func plusOne(t *eng.Term) bool {
	return t.Kind == eng.KApp && t.Op == "+" && (isOne(t.Args[0]) || isOne(t.Args[1]))
}

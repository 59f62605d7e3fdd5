package main

import (
	"go/token"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

func init() { register("C35", checkC35) }

// httpClient checks the requests that are made for connections of clients.
type httpClient struct {
	w *World
	r *Report
	// the configuration of a connection: the client, the function for the headers, the transports
	conf                        types.Type
	doer, headers, transports   *types.Var
	connID, token, version, via *types.Var // of the response to the negotiation
	issuing                     map[*ssa.Function]bool
	unguarded                   map[*types.Var]bool // functions for headers that are called though they may be nil
	requests                    int
	conns                       map[*types.Named]bool // connections that make requests of their own
}

func checkC35(w *World, r *Report) {
	r.rule("every HTTP request goes through the configured client (the default client when none was configured), and carries the configured headers; the headers of the caller are not changed")
	r.rule("the error of every request is returned; a response without a status of success gives an error; the body of every response is closed, or handed on to the connection, which closes it in the end")
	r.rule("connection requests, and what the connection sends later, address the given address with the id the server expects: the token for version 1 of the negotiation, else the id")
	r.rule("connections are made only with a transport that is configured and that the server has offered")
	r.rule("the context ends the negotiation and the dial, but not the connection")
	h := &httpClient{w: w, r: r, unguarded: map[*types.Var]bool{}, conns: map[*types.Named]bool{}}
	for _, f := range w.Sort {
		if f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		for _, p := range f.Params {
			if s, ok := p.Type().Underlying().(*types.Slice); ok && w.optionKind(s.Elem()) == "h" {
				h.conf = derefType(s.Elem().Underlying().(*types.Signature).Params().At(0).Type())
			}
		}
	}
	if !r.need(h.conf != nil, "C35", "the configuration of HTTP connections") {
		return
	}
	st := h.conf.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		switch f := st.Field(i); {
		case namedIs(f.Type(), "Doer"):
			h.doer = f
		case isHeaderFunc(f.Type()):
			h.headers = f
		case isTransportList(f.Type()):
			h.transports = f
		}
	}
	for _, n := range w.Types.Scope().Names() {
		tn, ok := w.Types.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		s, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			tag, _, _ := strings.Cut(reflect.StructTag(s.Tag(i)).Get("json"), ",")
			switch tag {
			case "connectionToken":
				h.token = s.Field(i)
			case "connectionId":
				h.connID = s.Field(i)
			case "negotiateVersion":
				h.version = s.Field(i)
			case "transport":
				h.via = s.Field(i)
			}
		}
	}
	if !r.need(h.doer != nil && h.headers != nil && h.transports != nil && h.token != nil && h.connID != nil && h.version != nil && h.via != nil, "C35", "the fields of the configuration and of the response to the negotiation") {
		return
	}
	h.issuing = w.reaching(func(i ssa.Instruction) bool {
		c, ok := i.(ssa.CallInstruction)
		return ok && isIssue(calleeName(c.Common()))
	})
	roots := h.roots()
	// what connections send is explored first: it tells which functions they call
	var later []*ssa.Function
	for _, f := range roots {
		if rv := f.Signature.Recv(); rv != nil && h.doerField(derefType(rv.Type())) != nil {
			h.conns[derefType(rv.Type()).(*types.Named)] = true
			h.explore(f)
		} else {
			later = append(later, f)
		}
	}
	for _, f := range later {
		h.explore(f)
	}
	r.need(h.requests >= 4, "C35", "the requests of connections")
}

func isHeaderFunc(t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	return ok && s.Params().Len() == 0 && s.Results().Len() == 1 && s.Results().At(0).Type().String() == "net/http.Header"
}

func isTransportList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && namedIs(s.Elem(), "TransportType")
}

// doerField is the field of t that holds the client for requests.
func (h *httpClient) doerField(t types.Type) *types.Var {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if namedIs(s.Field(i).Type(), "Doer") {
			return s.Field(i)
		}
	}
	return nil
}

var otherClients = map[string]bool{"net/http.Get": true, "net/http.Post": true, "net/http.PostForm": true, "net/http.Head": true,
	"(net/http.Client).Do": true, "(net/http.Client).Get": true, "(net/http.Client).Post": true, "(net/http.Client).Head": true, "(net/http.Client).PostForm": true,
	"(net/http.RoundTripper).RoundTrip": true, "(net/http.Transport).RoundTrip": true}

func isDial(n string) bool {
	return strings.HasSuffix(n, "websocket.Dial") || strings.HasSuffix(n, "webtransport.Transport).Dial") || strings.HasSuffix(n, "webtransport.Dialer).Dial")
}

func isIssue(n string) bool { return n == "(Doer).Do" || isDial(n) || otherClients[n] }

// roots: functions that make requests and are not helpers of others that do.
func (h *httpClient) roots() []*ssa.Function {
	takesOptions := func(f *ssa.Function) bool {
		for _, p := range f.Params {
			if s, ok := p.Type().Underlying().(*types.Slice); ok && h.w.optionKind(s.Elem()) == "h" {
				return true
			}
		}
		return false
	}
	// issuing, without what makes requests only by functions that take options themselves
	direct := map[*ssa.Function]bool{}
	called := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range h.w.Sort {
			if f.Synthetic != "" || !h.issuing[f] {
				continue
			}
			hit := false
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if c, ok := i.(ssa.CallInstruction); ok && isIssue(calleeName(c.Common())) {
						hit = true
					}
					for _, op := range i.Operands(nil) {
						var g *ssa.Function
						switch v := (*op).(type) {
						case *ssa.Function:
							g = v
						case *ssa.MakeClosure:
							g, _ = v.Fn.(*ssa.Function)
						}
						if g != nil && direct[g] && !takesOptions(g) {
							hit = true
							if outer(g) != outer(f) {
								called[g] = true
							}
						}
					}
				}
			}
			if hit && !direct[f] {
				direct[f] = true
				changed = true
			}
		}
	}
	var out []*ssa.Function
	for _, f := range h.w.Sort {
		if direct[f] && f.Parent() == nil && !called[f] {
			out = append(out, f)
		}
	}
	return out
}

// source: t is the result of the function for headers, or headers a connection or caller gives.
func (h *httpClient) source(t *eng.Term) bool {
	if t.Call != nil && t.Call.FnTerm != nil {
		if fv := conField(t.Call.FnTerm); fv != nil && isHeaderFunc(fv.Type()) {
			return true
		}
	}
	if t.Ty != nil && t.Ty.String() == "net/http.Header" {
		if t.Kind == eng.KParam {
			return true
		}
		if fv := conField(t); fv != nil && fv.Pkg() == h.w.Types {
			return true
		}
	}
	return false
}

// derives: t was made of the headers of the caller.
func (h *httpClient) derives(st *eng.State, t *eng.Term) bool {
	if st.Get("copied:"+id(core(t))) != nil && st.GetInt("dropped") == 0 {
		return true
	}
	return t.Any(func(x *eng.Term) bool {
		if h.source(x) {
			return true
		}
		return x.Call != nil && x.Call.Recv != nil && x != t && h.derives(st, x.Call.Recv)
	})
}

func id(t *eng.Term) string { return strconv.Itoa(t.ID) }

func anyField(t *eng.Term, fv *types.Var) bool {
	return t.Any(func(x *eng.Term) bool { return eng.FieldVar(x) == fv })
}

// noHeaders: the caller has given no function for headers, or it has given no headers.
func (h *httpClient) noHeaders(st *eng.State) bool {
	return st.GetInt("no-headers") == 1 || st.GetInt("nil-headers") == 1 || st.GetInt("options") == 1 && st.GetInt("optioned") == 0
}

// branch keeps what a branch tells about the configuration and the responses.
func (h *httpClient) branch(st *eng.State, t *eng.Term, truth bool) {
	for t.Kind == eng.KApp && t.Op == "not" {
		t, truth = t.Args[0], !truth
	}
	for k, resp := range st.A {
		if strings.HasPrefix(k, "response:") && t.Contains(core(resp)) {
			after := st.Copy()
			after.Assume(t, truth)
			if h.success(after, resp) {
				st.SetInt("good:"+k[9:], 1)
			}
		}
	}
	if st.Get("ranged") != nil && st.GetInt("iteration") == 1 && t.Any(func(x *eng.Term) bool {
		return x.Op == "len" && x.Any(func(y *eng.Term) bool { return y.Op == "nextval" })
	}) {
		// a header without values
		if t.Op == "eq" && truth || t.Op == "lt" && !truth {
			st.SetInt("iteration", 2)
			st.SetInt("nil-headers", 1)
		}
	}
	if t.Op == "nextok" {
		h.next(st, t, truth)
	}
	if t.Op == "eq" && !truth {
		for i := 0; i < 2; i++ {
			if fv := conField(t.Args[i]); fv != nil && isHeaderFunc(fv.Type()) && eng.IsNil(core(t.Args[1-i])) {
				st.SetInt("has-headers", 1)
			}
		}
	}
	if t.Op != "eq" || !truth {
		return
	}
	for i := 0; i < 2; i++ {
		a := core(t.Args[i])
		if n := globalName(t.Args[1-i]); n != "" {
			h.has(st, t.Args[i], n)
		}
		if !eng.IsNil(core(t.Args[1-i])) {
			continue
		}
		if a.Op == "elem" && h.w.optionKind(a.Ty) == "h" {
			st.Kill() // nil options are skipped, see C34
			return
		}
		if fv := conField(a); fv != nil && isHeaderFunc(fv.Type()) {
			st.SetInt("no-headers", 1)
		} else if fv != nil && namedIs(fv.Type(), "Doer") {
			st.SetInt("no-client", 1)
		}
		if a.Ty != nil && a.Ty.String() == "net/http.Header" && h.derives(st, a) {
			st.SetInt("no-headers", 1)
		}
	}
}

func (h *httpClient) explore(fn *ssa.Function) {
	w, r := h.w, h.r
	name := eng.FnName(fn)
	fieldIdx := func(t types.Type, n string) (int, types.Type) {
		i := fieldIndex(t, n)
		if i < 0 {
			return -1, nil
		}
		return i, t.Underlying().(*types.Struct).Field(i).Type()
	}
	fieldAddr := func(st *eng.State, p *eng.Term, n string) *eng.Term {
		i, ft := fieldIdx(derefType(p.Ty), n)
		if i < 0 {
			return nil
		}
		return st.E.FieldAddr(p, i, ft)
	}
	var ctx *eng.Term
	cl := &client{}
	succeedOrFail := func(st *eng.State, c *eng.CallInfo, do func(st *eng.State, rs []*eng.Term), fail func(st *eng.State, err *eng.Term)) eng.Decision {
		n := c.Sig.Results().Len()
		// fresh terms do not get too deep
		good := make([]*eng.Term, n)
		for i := 0; i < n-1; i++ {
			good[i] = st.Fresh(c.Instr, "result", c.Sig.Results().At(i).Type())
		}
		return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{
			{KeepArgs: true, Results: good, Do: func(st *eng.State, rs []*eng.Term) {
				st.Assume(st.E.Eq(rs[n-1], st.E.Nil()), true)
				for i := 0; i < n-1; i++ {
					if _, ok := rs[i].Ty.Underlying().(*types.Pointer); ok {
						st.Assume(st.E.Eq(rs[i], st.E.Nil()), false)
					}
				}
				do(st, rs)
			}},
			{KeepArgs: true, Do: func(st *eng.State, rs []*eng.Term) {
				st.Assume(st.E.Eq(rs[n-1], st.E.Nil()), false)
				if fail != nil {
					fail(st, rs[n-1])
				}
			}},
		}}
	}
	failed := func(st *eng.State, err *eng.Term) { st.SetInt("failed", 1) }
	keep := func(do func(st *eng.State, rs []*eng.Term)) eng.Decision {
		return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{KeepArgs: true, Do: do}}}
	}
	cl.call = func(st *eng.State, c *eng.CallInfo) eng.Decision {
		if isLogCall(c.Name) {
			return opaque
		}
		switch {
		case c.Name == "net/url.Parse":
			return succeedOrFail(st, c, func(st *eng.State, rs []*eng.Term) {
				st.Set("parsed:"+id(rs[0]), c.Args[0])
			}, nil)
		case c.Name == "(net/url.URL).Query":
			return keep(func(st *eng.State, rs []*eng.Term) {
				st.Set("of:"+id(rs[0]), h.address(st, c.Args[0]))
			})
		case c.Name == "(net/url.Values).Set" || c.Name == "(net/url.Values).Add":
			return keep(func(st *eng.State, rs []*eng.Term) {
				if k, ok := eng.StrConst(core(c.Args[1])); ok {
					st.Set("val:"+id(core(c.Args[0]))+":"+k, c.Args[2])
				}
			})
		case c.Name == "(net/url.Values).Encode":
			q := core(c.Args[0])
			args := []*eng.Term{q}
			for _, k := range []string{"of:" + id(q), "val:" + id(q) + ":id"} {
				if v := st.Get(k); v != nil {
					args = append(args, v)
				}
			}
			return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{KeepArgs: true, Results: []*eng.Term{st.E.App("encoded", types.Typ[types.String], args...)}}}}
		case c.Name == "(net/url.URL).String":
			if fv := conField(c.Args[0]); fv != nil && fv.Name() == "URL" {
				// the URL of a request
				for k, v := range st.A {
					if strings.HasPrefix(k, "url:") && core(c.Args[0]).Any(func(x *eng.Term) bool { return id(x) == k[4:] }) {
						return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{KeepArgs: true, Results: []*eng.Term{v}}}}
					}
				}
			}
			return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{KeepArgs: true, Results: []*eng.Term{st.E.App("urlstring", types.Typ[types.String], h.address(st, c.Args[0]))}}}}
		case c.Name == "net/http.NewRequest" || c.Name == "net/http.NewRequestWithContext":
			a := c.Args
			var cx *eng.Term
			if len(a) == 4 {
				cx, a = a[0], a[1:]
			}
			return succeedOrFail(st, c, func(st *eng.State, rs []*eng.Term) {
				st.Set("url:"+id(rs[0]), a[1])
				st.Set("method:"+id(rs[0]), a[0])
				if cx != nil {
					st.Set("ctx:"+id(rs[0]), cx)
				}
				if fa := fieldAddr(st, rs[0], "Header"); fa != nil {
					st.StoreAt(fa, st.Fresh(c.Instr, "header", fa.Ty.(*types.Pointer).Elem()))
				}
			}, failed)
		case c.Name == "(net/http.Request).WithContext" || c.Name == "(net/http.Request).Clone":
			return keep(func(st *eng.State, rs []*eng.Term) {
				for _, k := range []string{"url:", "method:"} {
					if v := st.Get(k + id(core(c.Args[0]))); v != nil {
						st.Set(k+id(rs[0]), v)
					}
				}
				st.Set("ctx:"+id(rs[0]), c.Args[1])
				from, to := fieldAddr(st, core(c.Args[0]), "Header"), fieldAddr(st, rs[0], "Header")
				if v := st.Peek(from); v != nil {
					st.StoreAt(to, v)
				}
			})
		case strings.HasPrefix(c.Name, "(net/http.Header)."):
			m := strings.TrimPrefix(c.Name, "(net/http.Header).")
			hd := core(c.Args[0])
			if m == "Set" || m == "Add" || m == "Del" {
				h.changes(st, c.Instr, name, hd)
				for _, a := range c.Args[1:] {
					if a.Any(func(x *eng.Term) bool { return x.Op == "nextval" || h.source(x) }) && st.Get("ranged") != nil {
						st.Set("copied:"+id(hd), hd)
						st.SetInt("iteration", 2)
					}
				}
				return keep(func(*eng.State, []*eng.Term) {})
			}
			if m == "Clone" {
				// nil stays nil
				cp := st.Fresh(c.Instr, "clone", c.Sig.Results().At(0).Type())
				return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{
					{KeepArgs: true, Results: []*eng.Term{cp}, Do: func(st *eng.State, rs []*eng.Term) {
						st.Assume(st.E.Eq(cp, st.E.Nil()), false)
						if h.derives(st, hd) {
							st.Set("copied:"+id(cp), cp)
						}
					}},
					{KeepArgs: true, Results: []*eng.Term{st.E.Nil()}, Do: func(st *eng.State, rs []*eng.Term) {
						if h.derives(st, hd) {
							st.Assume(st.E.Eq(hd, st.E.Nil()), true)
							st.SetInt("nil-headers", 1)
						}
					}},
				}}
			}
		case strings.HasPrefix(c.Name, "maps.Copy"):
			h.changes(st, c.Instr, name, core(c.Args[0]))
			if h.derives(st, c.Args[1]) {
				st.Set("copied:"+id(core(c.Args[0])), core(c.Args[0]))
			}
			return keep(func(*eng.State, []*eng.Term) {})
		case strings.HasPrefix(c.Name, "maps.Clone"):
			if h.derives(st, c.Args[0]) {
				return keep(func(st *eng.State, rs []*eng.Term) { st.Set("copied:"+id(rs[0]), rs[0]) })
			}
		case c.Name == "(Doer).Do":
			h.requests++
			r.inst("request", 1)
			h.issued(st, c, name, fn)
			req := core(c.Arg(0))
			if n := st.Get("negotiated"); n != nil && n != req {
				// what was decided by now does not need to be known any more
				st.ForgetFacts()
				for k := range st.A {
					for _, p := range []string{"copied:", "method:", "url:"} {
						if strings.HasPrefix(k, p) && k != p+id(req) {
							st.Del(k)
						}
					}
				}
			}
			return succeedOrFail(st, c, func(st *eng.State, rs []*eng.Term) {
				st.Set("response:"+id(rs[0]), rs[0])
				st.Set("request-of:"+id(rs[0]), req)
			}, failed)
		case isDial(c.Name):
			h.requests++
			r.inst("request", 1)
			h.dialed(st, c, name, fn, ctx)
			return succeedOrFail(st, c, func(st *eng.State, rs []*eng.Term) {}, failed)
		case otherClients[c.Name]:
			st.Report("other-client", name, c.Pos(), "%s makes a request without the configured client", name)
			return opaque
		case (c.Name == "(io.Closer).Close" || c.Name == "(io.ReadCloser).Close") && c.Recv != nil || c.Invoke && c.Recv != nil && strings.HasSuffix(c.Name, ").Close"):
			b := core(c.Recv)
			for k, resp := range st.A {
				if strings.HasPrefix(k, "response:") && h.bodyOf(st, b, resp) {
					st.SetInt("closed:"+id(resp), 1)
					r.inst("body", 1)
				}
			}
			return keep(func(*eng.State, []*eng.Term) {})
		case strings.HasPrefix(c.Name, "slices.ContainsFunc") && len(c.Args) == 2 && core(c.Args[1]).Fn != nil && comparesEqual(core(c.Args[1]).Fn):
			return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{
				{KeepArgs: true, Results: []*eng.Term{st.E.Bool(true)}, Do: func(st *eng.State, rs []*eng.Term) {
					for _, b := range core(c.Args[1]).Args {
						for _, v := range []*eng.Term{b, st.Peek(b)} {
							if v == nil {
								continue
							}
							for _, n := range globals(core(v)) {
								h.has(st, c.Args[0], n)
							}
						}
					}
				}},
				{KeepArgs: true, Results: []*eng.Term{st.E.Bool(false)}},
			}}
		case strings.HasPrefix(c.Name, "slices.Contains") && len(c.Args) == 2:
			cond := st.Fresh(c.Instr, "contains", types.Typ[types.Bool])
			return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{
				{KeepArgs: true, Results: []*eng.Term{st.E.Bool(true)}, Do: func(st *eng.State, rs []*eng.Term) {
					_ = cond
					names := globals(c.Args[1])
					for _, n := range names {
						h.has(st, c.Args[0], n)
					}
				}},
				{KeepArgs: true, Results: []*eng.Term{st.E.Bool(false)}},
			}}
		}
		if c.Fn == nil && c.Builtin == "" && !c.Invoke && c.FnTerm != nil {
			if fv := conField(c.FnTerm); fv != nil && isHeaderFunc(fv.Type()) {
				r.inst("headers-call", 1)
				if isnil, known := isNilTerm(st, core(c.FnTerm)); !known || isnil {
					h.unguarded[fv] = true
					if fv == h.headers {
						st.Report("nil-headers", name, c.Pos(), "%s may call the function for the headers though there is none", name)
					}
				}
				return keep(func(*eng.State, []*eng.Term) {})
			}
			if h.w.optionKind(c.Sig) == "h" {
				st.SetInt("optioned", 1)
				return eng.Decision{}
			}
		}
		if c.Fn != nil && !w.Home(c.Fn) && c.Sig.Results().Len() == 1 && (strings.HasPrefix(c.Name, "path.") || strings.HasPrefix(c.Name, "strings.") || strings.HasPrefix(c.Name, "fmt.Sprint") || strings.HasPrefix(c.Name, "net/url.") || c.Name == "(net/url.URL).JoinPath") {
			var args []*eng.Term
			for _, a := range c.Args {
				args = append(append(args, a), st.SliceElems(core(a))...)
			}
			if c.Recv != nil {
				args = append(args, h.address(st, c.Recv))
			}
			return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{KeepArgs: true, Results: []*eng.Term{st.E.App("made:"+c.Name, c.Sig.Results().At(0).Type(), args...)}}}}
		}
		if c.Fn != nil && !w.Home(c.Fn) && strings.HasPrefix(c.Name, "io.") {
			return keep(func(*eng.State, []*eng.Term) {}) // reads
		}
		return eng.Decision{}
	}
	cl.event = func(st *eng.State, ev *eng.Event) {
		switch ev.Kind {
		case eng.EvRange:
			if ev.Addr != nil && h.derives(st, ev.Addr) {
				st.Set("ranged", core(ev.Addr))
				st.SetInt("iteration", 0)
			}
		case eng.EvMapUpdate:
			if ev.Addr.Ty != nil && ev.Addr.Ty.String() == "net/http.Header" {
				h.changes(st, ev.Instr, name, core(ev.Addr))
				if st.Get("ranged") != nil {
					st.Set("copied:"+id(core(ev.Addr)), core(ev.Addr))
					st.SetInt("iteration", 2)
				}
			}
		case eng.EvTypeCase:
			if !ev.Truth && ev.Ty.String() == "*net/http.Client" {
				st.SetInt("other-doer", 1)
			}
		case eng.EvBranch:
			h.branch(st, ev.Cond, ev.Truth)
		case eng.EvStore:
			if fv := eng.FieldVar(ev.Addr); fv == h.transports {
				for _, x := range st.SliceElems(core(ev.Val)) {
					st.SetInt("have:"+strings.TrimPrefix(globalName(x), "Transport"), 1)
				}
			}
		case eng.EvGoStart:
			st.SetInt("started", 1)
		case eng.EvEnd:
			h.end(st, ev, name, fn, ctx)
		}
	}
	e := w.engine(cl)
	for _, p := range fn.Params {
		if p.Type().String() == "context.Context" {
			ctx = e.Param(p.Name(), p.Type())
		}
	}
	e.Run(fn, nil, func(st *eng.State) {
		for _, p := range fn.Params {
			if s, ok := p.Type().Underlying().(*types.Slice); ok && w.optionKind(s.Elem()) == "h" {
				st.SetInt("options", 1)
			}
		}
	})
	r.absorb(e)
}

// comparesEqual: the function gives whether two values are equal.
func comparesEqual(fn *ssa.Function) bool {
	ok := len(fn.Blocks) == 1
	for _, b := range fn.Blocks {
		if r, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return); is && len(r.Results) == 1 {
			o, is := r.Results[0].(*ssa.BinOp)
			ok = ok && is && o.Op == token.EQL
		}
	}
	return ok
}

func globals(t *eng.Term) (out []string) {
	if n := globalName(t); n != "" {
		out = append(out, n)
	}
	return
}

// next: a step of the iteration over headers.
func (h *httpClient) next(st *eng.State, t *eng.Term, ok bool) {
	if r := st.Get("ranged"); r == nil || !t.Contains(r) {
		return
	}
	switch it := st.GetInt("iteration"); {
	case it == 1:
		st.SetInt("dropped", 1)
	case it == 0 && !ok:
		st.SetInt("nil-headers", 1)
	}
	st.SetInt("iteration", 1)
	if !ok {
		st.Del("ranged")
	}
}

// has: the list (or an element of it) holds the transport of that name.
func (h *httpClient) has(st *eng.State, t *eng.Term, n string) {
	n = strings.TrimPrefix(n, "Transport")
	if n == "WebTransports" && anyField(t, h.transports) {
		st.Kill() // can not be configured, see C34
		return
	}
	if anyField(t, h.via) || anyField(t, h.viaList()) {
		st.SetInt("offered:"+n, 1)
	}
	if anyField(t, h.transports) {
		st.SetInt("have:"+n, 1)
	}
}

// viaList is the field that holds the offered transports.
func (h *httpClient) viaList() *types.Var {
	for _, n := range h.w.Types.Scope().Names() {
		if tn, ok := h.w.Types.Scope().Lookup(n).(*types.TypeName); ok {
			if s, ok := tn.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if tag, _, _ := strings.Cut(reflect.StructTag(s.Tag(i)).Get("json"), ","); tag == "availableTransports" {
						return s.Field(i)
					}
				}
			}
		}
	}
	return nil
}

// bodyOf: b is the body of the response.
func (h *httpClient) bodyOf(st *eng.State, b, resp *eng.Term) bool {
	return b.Any(func(x *eng.Term) bool {
		fv := eng.FieldVar(x)
		return fv != nil && fv.Name() == "Body" && x.Args[0] == core(resp)
	})
}

// address is what is known about the address in a *url.URL.
func (h *httpClient) address(st *eng.State, u *eng.Term) *eng.Term {
	u = core(u)
	args := []*eng.Term{u}
	if v := st.Get("parsed:" + id(u)); v != nil {
		args = append(args, v)
	}
	if p, ok := u.Ty.Underlying().(*types.Pointer); ok {
		if s := st.PeekStruct(u, p.Elem()); s != nil {
			args = append(args, s)
			s.Walk(func(x *eng.Term) bool {
				if v := st.Get("parsed:" + id(x)); v != nil {
					args = append(args, v)
				}
				return true
			})
		}
	}
	return st.E.App("address", types.Typ[types.String], args...)
}

// changes: the headers are changed, they must not be those of the caller.
func (h *httpClient) changes(st *eng.State, i ssa.Instruction, name string, hd *eng.Term) {
	h.r.inst("header-change", 1)
	if h.source(hd) {
		st.Report("headers-changed", name, i.Pos(), "%s changes the headers its caller has given", name)
	}
	if isnil, known := isNilTerm(st, hd); known && isnil {
		st.Report("headers-changed", name, i.Pos(), "%s may write to headers that are nil", name)
	}
}

// issued: a request is made with the configured client.
func (h *httpClient) issued(st *eng.State, c *eng.CallInfo, name string, fn *ssa.Function) {
	rv := core(c.Recv)
	fv := conField(rv)
	good := fv != nil && namedIs(fv.Type(), "Doer")
	if !good && rv.Any(func(x *eng.Term) bool { return globalName(x) == "DefaultClient" }) {
		good = st.GetInt("no-client") == 1 || st.GetInt("optioned") == 0
	}
	if !good {
		st.Report("other-client", name, c.Pos(), "%s may make a request with another client than the configured one", name)
	}
	req := core(c.Arg(0))
	i := fieldIndex(derefType(req.Ty), "Header")
	hd := st.Peek(st.E.FieldAddr(req, i, derefType(req.Ty).Underlying().(*types.Struct).Field(i).Type()))
	if !h.noHeaders(st) && (hd == nil || !h.derives(st, core(hd))) {
		st.Report("headers-lost", name, c.Pos(), "%s may make a request without the configured headers", name)
	}
	if u := st.Get("url:" + id(req)); u != nil {
		h.target(st, c, name, fn, u, req)
	} else {
		st.Report("undecided", name, c.Pos(), "%s: it is not known where this request goes to", name)
	}
}

// target checks where a request goes to.
func (h *httpClient) target(st *eng.State, c *eng.CallInfo, name string, fn *ssa.Function, u, req *eng.Term) {
	if rv := fn.Signature.Recv(); rv != nil {
		// a field of the connection, which is decided where the connection is made
		if fv := conField(u); fv == nil || fv.Pkg() != h.w.Types {
			st.Report("other-address", name, c.Pos(), "%s makes a request to something else than the address of the connection", name)
		}
		return
	}
	given := false
	for _, p := range fn.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 || p.Type().String() == "*net/url.URL" {
			given = given || u.Contains(st.E.Param(p.Name(), p.Type()))
		}
	}
	if !given {
		st.Report("other-address", name, c.Pos(), "%s makes a request to something else than the given address", name)
	}
	if st.Get("negotiated") == nil && req != nil {
		// the first request negotiates
		st.Set("negotiated", req)
		if !u.Any(func(x *eng.Term) bool { s, ok := eng.StrConst(x); return ok && strings.Contains(s, "negotiate") }) &&
			!deepAny(u, func(x *eng.Term) bool { s, ok := eng.StrConst(x); return ok && strings.Contains(s, "negotiate") }) {
			st.Report("other-address", name, c.Pos(), "%s does not negotiate at the address of negotiations", name)
		}
		return
	}
	h.connectURL(st, c, name, u)
	st.Set("connect-url", u)
}

func deepAny(t *eng.Term, f func(x *eng.Term) bool) bool {
	return t.Any(func(x *eng.Term) bool {
		if f(x) {
			return true
		}
		if x.Call != nil {
			for _, a := range x.Call.Args {
				if a != t && a.Any(f) {
					return true
				}
			}
			// the elements of variadic arguments are not kept
		}
		return false
	})
}

func (h *httpClient) connectURL(st *eng.State, c *eng.CallInfo, name string, u *eng.Term) {
	h.r.inst("connect", 1)
	if u.Any(func(x *eng.Term) bool {
		if x.Op != "encoded" {
			return false
		}
		for _, a := range x.Args {
			if a.Op == "address" {
				return false
			}
		}
		return true
	}) {
		st.Report("other-address", name, c.Pos(), "%s may connect without the query of the given address", name)
	}
	tok, cid := anyField(u, h.token), anyField(u, h.connID)
	var v1, v0, tokEmpty, tokSet bool
	st.Facts(func(t *eng.Term, v bool) {
		if t.Op == "eq" {
			for i := 0; i < 2; i++ {
				k := core(t.Args[1-i])
				if anyField(t.Args[i], h.version) {
					if n, ok := eng.IntConst(k); ok && v {
						v1, v0 = v1 || n == 1, v0 || n == 0
					}
				}
				if anyField(t.Args[i], h.token) {
					if s, ok := eng.StrConst(k); ok && s == "" || eng.IsZero(k) {
						tokEmpty, tokSet = tokEmpty || v, tokSet || !v
					}
				}
			}
		}
	})
	var ver *eng.Term
	st.Facts(func(t *eng.Term, v bool) {
		t.Walk(func(x *eng.Term) bool {
			if eng.FieldVar(x) == h.version {
				ver = x
			}
			return true
		})
	})
	other := false
	if ver != nil && !v1 && !v0 {
		lo, hi, hasLo, hasHi := st.Interval(ver)
		v1 = hasLo && lo >= 1
		v0 = hasHi && hi <= 0
		other = !v1 && !v0
		n0, k0 := st.Fact(st.E.Eq(ver, st.E.Int(0)))
		n1, k1 := st.Fact(st.E.Eq(ver, st.E.Int(1)))
		if k0 && !n0 && k1 && !n1 {
			return // a version that does not exist
		}
	}
	_ = other
	switch {
	case v1 && !tok && !(tokEmpty && cid):
		st.Report("other-id", name, c.Pos(), "%s may connect without the token, which version 1 of the negotiation needs", name)
	case v0 && !cid && !(tok && tokSet):
		st.Report("other-id", name, c.Pos(), "%s may connect without the id of the connection, which version 0 of the negotiation needs", name)
	case !v1 && !v0 && !(tok && tokSet) && !(cid && tokEmpty):
		st.Report("other-id", name, c.Pos(), "%s may connect with another id than the one the server expects", name)
	}
}

// dialed: a connection is made by a library.
func (h *httpClient) dialed(st *eng.State, c *eng.CallInfo, name string, fn *ssa.Function, ctx *eng.Term) {
	args := c.Args
	if ctx != nil && !h.carries(st, args, ctx) {
		st.Report("not-cancelable", name, c.Pos(), "%s makes a connection that the context can not end", name)
	}
	transport := "WebSockets"
	if strings.Contains(c.Name, "webtransport") {
		transport = "WebTransports"
	}
	configured := false
	for _, p := range fn.Params {
		s, ok := p.Type().Underlying().(*types.Slice)
		configured = configured || ok && h.w.optionKind(s.Elem()) == "h"
	}
	if configured {
		h.offered(st, c, name, transport)
	}
	var hd *eng.Term
	for _, a := range args {
		a = core(a)
		if a.Ty != nil && a.Ty.String() == "net/http.Header" {
			hd = a
		}
		if a.Ty == nil || !strings.HasSuffix(a.Ty.String(), "DialOptions") {
			continue
		}
		s := derefType(a.Ty)
		us, ok := s.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < us.NumFields(); i++ {
			v := st.Peek(st.E.FieldAddr(a, i, us.Field(i).Type()))
			switch us.Field(i).Name() {
			case "HTTPHeader":
				hd = v
			case "HTTPClient":
				if !configured {
					break
				}
				ok := v != nil && v.Any(func(x *eng.Term) bool {
					fv := eng.FieldVar(x)
					return fv != nil && namedIs(fv.Type(), "Doer") || globalName(x) == "DefaultClient" && (st.GetInt("no-client") == 1 || st.GetInt("optioned") == 0 || st.GetInt("other-doer") == 1)
				})
				if !ok && st.GetInt("other-doer") == 0 {
					st.Report("other-client", name, c.Pos(), "%s may dial with another client than the configured one", name)
				}
			}
		}
	}
	if !h.noHeaders(st) && (hd == nil || !h.derives(st, core(hd))) {
		st.Report("headers-lost", name, c.Pos(), "%s may dial without the configured headers", name)
	}
	for _, a := range args {
		if b, ok := a.Ty.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if configured {
				h.target(st, c, name, fn, a, nil)
			}
		}
	}
}

// offered: the transport is configured, and the server has offered it.
func (h *httpClient) offered(st *eng.State, c *eng.CallInfo, name, transport string) {
	h.r.inst("transport", 1)
	if st.GetInt("have:"+transport) == 0 {
		st.Report("other-transport", name, c.Pos(), "%s may use the transport %s though it is not configured", name, transport)
	}
	if st.GetInt("offered:"+transport) == 0 {
		st.Report("other-transport", name, c.Pos(), "%s may use the transport %s though the server has not offered it", name, transport)
	}
}

func (h *httpClient) carries(st *eng.State, args []*eng.Term, ctx *eng.Term) bool {
	for _, a := range args {
		if a.Any(func(x *eng.Term) bool {
			if x == ctx {
				return true
			}
			if x.Call != nil && strings.HasPrefix(x.Call.Name, "context.") {
				for _, y := range x.Call.Args {
					if y == ctx {
						return true
					}
				}
			}
			return false
		}) {
			return true
		}
	}
	return false
}

func (h *httpClient) end(st *eng.State, ev *eng.Event, name string, fn *ssa.Function, ctx *eng.Term) {
	if len(ev.Vals) == 0 {
		return
	}
	h.r.inst("end", 1)
	err := ev.Vals[len(ev.Vals)-1]
	isnil, known := isNilTerm(st, err)
	ok := !(known && !isnil) && !errMade(err)
	if st.GetInt("failed") == 1 && ok {
		st.Report("error-lost", name, ev.Instr.Pos(), "%s may report no error though a request has failed", name)
	}
	for k, resp := range st.A {
		if !strings.HasPrefix(k, "response:") {
			continue
		}
		h.r.inst("response", 1)
		if ok && st.GetInt("good:"+id(resp)) == 0 {
			st.Report("status-ignored", name, ev.Instr.Pos(), "%s may report no error though the status of a response is not a success", name)
		}
		if st.GetInt("closed:"+id(resp)) == 0 {
			st.Report("body-leaked", name, ev.Instr.Pos(), "%s may leave the body of a response open", name)
		}
		req := st.Get("request-of:" + id(resp))
		if req == nil || ctx == nil {
			continue
		}
		cx := st.Get("ctx:" + id(req))
		has := cx != nil && h.carries(st, []*eng.Term{cx}, ctx)
		if st.Get("negotiated") == req {
			if !has {
				st.Report("not-cancelable", name, ev.Instr.Pos(), "%s negotiates with a request that the context can not end", name)
			}
		} else if has {
			st.Report("ends-connection", name, ev.Instr.Pos(), "%s: the end of the context ends the connection that was made", name)
		}
	}
	if !ok || fn.Signature.Recv() != nil {
		return
	}
	h.made(st, ev, name, fn, ctx)
}

// livesOn: the connection has the context, or one made of it.
func (h *httpClient) livesOn(st *eng.State, c, ctx *eng.Term) bool {
	found := false
	c.Walk(func(x *eng.Term) bool {
		if x.Kind == eng.KObj {
			for _, v := range st.PeekDeep(x) {
				v.Walk(func(y *eng.Term) bool {
					if y.Ty != nil && y.Ty.String() == "context.Context" && h.carries(st, []*eng.Term{y}, ctx) {
						found = true
					}
					return y.Call == nil
				})
			}
		}
		return true
	})
	return found
}

// success: the status of the response is known to be one of success.
func (h *httpClient) success(st *eng.State, resp *eng.Term) bool {
	found := false
	st.Facts(func(t *eng.Term, v bool) {
		t.Walk(func(x *eng.Term) bool {
			if fv := conField(x); fv != nil && fv.Name() == "StatusCode" && x.Contains(core(resp)) {
				if lo, hi, hasLo, hasHi := st.Interval(x); hasLo && hasHi && lo >= 200 && hi <= 299 {
					found = true
				}
				for i, a := range t.Args {
					if n, ok := eng.IntConst(core(a)); ok && t.Op == "eq" && v && len(t.Args) == 2 && core(t.Args[1-i]) == core(x) && n >= 200 && n < 300 {
						found = true
					}
				}
			}
			return true
		})
	})
	return found
}

// made: the connection that is returned.
func (h *httpClient) made(st *eng.State, ev *eng.Event, name string, fn *ssa.Function, ctx *eng.Term) {
	c := core(ev.Vals[0])
	if eng.IsNil(c) {
		return
	}
	h.r.inst("connection", 1)
	if ctx != nil {
		configured := false
		for _, p := range fn.Params {
			s, ok := p.Type().Underlying().(*types.Slice)
			configured = configured || ok && h.w.optionKind(s.Elem()) == "h"
		}
		if configured && h.livesOn(st, c, ctx) {
			st.Report("ends-connection", name, ev.Instr.Pos(), "%s: the end of the context ends the connection that was made", name)
		}
	}
	p, ok := c.Ty.Underlying().(*types.Pointer)
	if !ok {
		return
	}
	n, ok := p.Elem().(*types.Named)
	if !ok || !h.conns[n] {
		return
	}
	// a connection that makes requests of its own
	for k := range st.A {
		if strings.HasPrefix(k, "response:") && st.Get("request-of:"+k[9:]) != st.Get("negotiated") {
			h.offeredAt(st, ev, name, "ServerSentEvents")
		}
	}
	urls := 0
	s := n.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		v := st.Peek(st.E.FieldAddr(c, i, f.Type()))
		switch {
		case namedIs(f.Type(), "Doer"):
			h.r.inst("handed-on", 1)
			fv := (*types.Var)(nil)
			if v != nil {
				fv = conField(v)
			}
			if v == nil || !(fv != nil && namedIs(fv.Type(), "Doer")) && !v.Any(func(x *eng.Term) bool { return globalName(x) == "DefaultClient" }) {
				st.Report("other-client", name, ev.Instr.Pos(), "%s gives another client to the connection than the configured one", name)
			}
		case isHeaderFunc(f.Type()):
			h.r.inst("handed-on", 1)
			if v == nil || !h.givesHeaders(st, core(v), name) {
				st.Report("headers-lost", name, ev.Instr.Pos(), "%s does not give the configured headers to the connection", name)
			} else if h.unguarded[f] && core(v).Fn == nil && st.GetInt("has-headers") == 0 {
				st.Report("nil-headers", name, ev.Instr.Pos(), "%s gives a function for headers to the connection that may be nil, which the connection calls", name)
			}
		case f.Type().String() == "net/http.Header":
			h.r.inst("handed-on", 1)
			if !h.noHeaders(st) && (v == nil || !h.derives(st, core(v))) {
				st.Report("headers-lost", name, ev.Instr.Pos(), "%s does not give the configured headers to the connection", name)
			}
		case f.Type().String() == "string" && v != nil && v.Any(func(x *eng.Term) bool { return x.Op == "urlstring" || x.Op == "address" }):
			h.r.inst("handed-on", 1)
			// it was checked when the connection was made
			if cu := st.Get("connect-url"); cu == nil || cu != core(v) && (anyField(cu, h.token) != anyField(v, h.token) || anyField(cu, h.connID) != anyField(v, h.connID)) {
				st.Report("other-id", name, ev.Instr.Pos(), "%s gives the connection another address than the one it connects to", name)
			}
			urls++
		}
	}
	if urls == 0 {
		st.Report("other-id", name, ev.Instr.Pos(), "%s gives the connection no address for what it sends", name)
	}
}

func (h *httpClient) offeredAt(st *eng.State, ev *eng.Event, name, transport string) {
	h.offered(st, &eng.CallInfo{Instr: ev.Instr}, name, transport)
}

// givesHeaders: the function gives the configured headers.
func (h *httpClient) givesHeaders(st *eng.State, v *eng.Term, name string) bool {
	if fv := conField(v); fv != nil && fv == h.headers {
		return true
	}
	if v.Fn == nil || len(v.Fn.Blocks) == 0 {
		return false
	}
	ok, n := true, 0
	cl := &client{}
	e := h.w.engine(cl)
	sub := &httpClient{}
	*sub = *h
	cl.call = func(s2 *eng.State, c *eng.CallInfo) eng.Decision {
		if strings.HasPrefix(c.Name, "(net/http.Header).Clone") || strings.HasPrefix(c.Name, "maps.Clone") {
			hd := core(c.Args[0])
			return eng.Decision{Mode: eng.Outcomes, Outcomes: []eng.Outcome{{KeepArgs: true, Do: func(s3 *eng.State, rs []*eng.Term) {
				if h.derives(s3, hd) {
					s3.Set("copied:"+id(rs[0]), rs[0])
				}
			}}}}
		}
		if strings.HasPrefix(c.Name, "maps.Copy") && h.derives(s2, c.Args[1]) {
			s2.Set("copied:"+id(core(c.Args[0])), core(c.Args[0]))
		}
		return eng.Decision{}
	}
	cl.event = func(s2 *eng.State, e2 *eng.Event) {
		switch e2.Kind {
		case eng.EvBranch:
			h.branch(s2, e2.Cond, e2.Truth)
		case eng.EvRange:
			if e2.Addr != nil && h.derives(s2, e2.Addr) {
				s2.Set("ranged", core(e2.Addr))
				s2.SetInt("iteration", 0)
			}
		case eng.EvMapUpdate:
			if s2.Get("ranged") != nil {
				s2.Set("copied:"+id(core(e2.Addr)), core(e2.Addr))
				s2.SetInt("iteration", 2)
			}
		case eng.EvEnd:
			if len(e2.Vals) == 1 {
				n++
				ok = ok && (h.noHeaders(s2) || h.derives(s2, core(e2.Vals[0])))
			}
		}
	}
	e.Run(v.Fn, nil, nil)
	h.r.absorb(e)
	return ok && n > 0
}

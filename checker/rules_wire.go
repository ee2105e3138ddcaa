package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C36", "All paths of clearing a request and a response, compared field by field with new ones.", 30, ruleC36)
	register("C37", "All paths of setting a connection up: the arguments every part of it is made with.", 20, ruleC37)
}

// fresh compares what is stored at a, field by field, with what is stored in a new object at b:
// values have to be equal, slices empty in both. kept says which fields needn't.
func (c *Ctx) fresh(p *Path, a *Term, ns *State, b *Term, typ types.Type, rule, name string, kept func(string) bool) {
	if st := structOf(typ); st != nil && !opaqueStruct(typ) {
		for i := 0; i < st.NumFields(); i++ {
			n := strings.TrimPrefix(name+"."+st.Field(i).Name(), ".")
			if kept(n) {
				continue
			}
			c.fresh(p, mkFieldAddr(a, i, st, typ), ns, mkFieldAddr(b, i, st, typ), st.Field(i).Type(), rule, n, kept)
		}
		return
	}
	x, y := p.S.F.canon(p.S.load(a, typ)), ns.F.canon(ns.load(b, typ))
	if isSliceT(typ) {
		ok := ns.F.eqInt(mkLen(y), tZeroInt) && p.must(mkIntEq(mkLen(x), tZeroInt))
		c.ob(ok, rule, p.Pos, "%s isn't emptied (path: %s)", name, p.describe(c))
		return
	}
	ok := p.equal(x, y)
	if isString(typ) && !ok {
		ok = p.must(mkIntEq(mkLen(x), tZeroInt)) && ns.F.eqInt(mkLen(y), tZeroInt)
	}
	c.ob(ok, rule, p.Pos, "%s isn't reset: it is %s, of a new one %s (path: %s)", name, x, y, p.describe(c))
}

func ruleC36(c *Ctx) {
	newReq, clear, respond := c.fn("http", "NewRequest"), c.fn("http", "Request.Clear"), c.fn("http", "Request.Respond")
	newResp, clearF, clearR := c.fn("http", "NewResponse"), c.fn("internal/response", "Fields.Clear"), c.fn("http", "Response.Clear")
	setQ, clearS := c.fn("http/query", "Query.Set"), c.fn("internal/keyvalue", "Storage.Clear")
	reqT, respT, fieldsT := c.P.typeOf("http", "Request"), c.P.typeOf("http", "Response"), c.P.typeOf("internal/response", "Fields")
	h11, ok := c.constOf("http/proto", "HTTP11")
	if newReq == nil || clear == nil || respond == nil || newResp == nil || clearF == nil || clearR == nil || setQ == nil || clearS == nil || reqT == nil || respT == nil || fieldsT == nil || !ok {
		return
	}
	eng := func(fns ...*ssa.Function) *Engine {
		e := c.engine()
		e.Bounds = true
		e.Opaque = opaqueSet(fns...)
		e.NoHavoc = func(string) bool { return true }
		return e
	}
	none := func(string) bool { return false }
	// a new request
	e := eng()
	ps := returns(c.run(e, nil, newReq, nil))
	if !c.ob(len(ps) == 1, "new:paths", newReq.Pos(), "a request is made in %d ways", len(ps)) {
		return
	}
	n0 := ps[0]
	obj := n0.Results[0]
	pars := map[string]*Term{}
	for _, q := range newReq.Params {
		pars[q.Name()] = paramSym(q)
	}
	same := func(field string, t *Term) {
		got := n0.S.F.canon(loadField(n0.S, obj, field))
		c.ob(t != nil && got != nil && (got == t || unwrapIface(got) == unwrapIface(t)), "new:"+field, newReq.Pos(), "a new request's %s isn't what it was given", field)
	}
	sto := newReq.Params
	// storages: headers come first, parameters last
	var stos []*Term
	for _, q := range sto {
		if pt, ok := types.Unalias(q.Type()).(*types.Pointer); ok && types.Identical(pt.Elem(), deref(clearS.Params[0].Type())) {
			stos = append(stos, paramSym(q))
		}
	}
	byType := func(t types.Type) *Term {
		for _, q := range newReq.Params {
			if types.Identical(q.Type(), t) {
				return paramSym(q)
			}
		}
		return nil
	}
	if c.ob(len(stos) == 2, "new:storages", newReq.Pos(), "a request isn't given storages for headers and parameters") {
		same("Headers", stos[0])
		same("Params", stos[1])
	}
	for _, f := range []string{"Query", "Body"} {
		same(f, byType(fieldType(reqT, f)))
	}
	client := byType(fieldType(reqT, c.theField(reqT, "client", func(t types.Type) bool { return isRepoType(t, "internal/tcp", "Client") })))
	cl := c.theField(reqT, "client", func(t types.Type) bool { return isRepoType(t, "internal/tcp", "Client") })
	rs := c.theField(reqT, "response", func(t types.Type) bool { return types.Identical(t, types.NewPointer(respT)) })
	same(cl, client)
	same(rs, byType(types.NewPointer(respT)))
	remote := n0.S.F.canon(loadField(n0.S, obj, "Remote"))
	okR := false
	for _, ev := range n0.S.events {
		if ev.Kind == EvCall && strings.HasSuffix(ev.Name, ".Client).Remote") && ev.Args[0] == client {
			okR = ev.Res[0] == remote
		}
	}
	c.ob(okR, "new:Remote", newReq.Pos(), "a new request's remote address isn't its client's")
	c.ob(n0.equal(loadField(n0.S, obj, "Proto"), h11), "new:Proto", newReq.Pos(), "a response to a first request that can't be read has no known protocol")

	// clearing
	fw := c.P.fieldWrites()
	st := structOf(reqT)
	own := types.TypeString(originType(reqT), nil)
	never := map[string]bool{}
	for i := 0; i < st.NumFields(); i++ {
		never[st.Field(i).Name()] = len(fw[*fieldClass(own, i)]) == 0 && !st.Field(i).Exported()
	}
	jar := c.theField(reqT, "cookies", func(t types.Type) bool { return strings.HasSuffix(t.String(), "cookie.Jar") })
	kept := map[string]bool{"Remote": true, "Body": true, cl: true, rs: true, jar: true, "Env.Encryption": true, c.theField(reqT, "hijacked", func(t types.Type) bool { return types.Identical(t, types.Typ[types.Bool]) }): true,
		"Query": true, "Params": true, "Headers": true}
	e = eng(setQ, clearS)
	self := paramSym(clear.Params[0])
	s0 := newState()
	n := map[string]int{}
	for _, p := range c.run(e, s0, clear, []*Term{self}) {
		if p.Kind != PReturn {
			continue
		}
		var disc *Event
		emptied := map[string]bool{}
		for _, ev := range p.S.events {
			switch {
			case ev.Kind == EvCall && strings.HasSuffix(ev.Name, ".Body).Discard") && fieldOf(ev.Args[0], self, "Body"):
				disc = ev
			case ev.Kind == EvCall && ev.Fn == setQ && fieldOf(ev.Args[0], self, "Query"):
				emptied["Query"] = p.must(mkIntEq(mkLen(ev.Args[1]), tZeroInt))
			case ev.Kind == EvCall && ev.Fn == clearS:
				for _, f := range []string{"Params", "Headers"} {
					emptied[f] = emptied[f] || fieldOf(ev.Args[0], self, f)
				}
			case ev.Kind == EvCall:
				c.ob(false, "clear:calls", ev.Pos, "clearing a request does something else: %s", ev.Name)
			case ev.Kind == EvStore:
				c.ob(disc != nil, "clear:body-first", ev.Pos, "a request is changed before its body is skipped")
			}
		}
		if !c.ob(disc != nil, "clear:body", p.Pos, "what remains of a body isn't skipped (path: %s)", p.describe(c)) {
			continue
		}
		if p.mustNot(mkEq(disc.Res[0], tNil)) {
			n["failed"]++
			c.ob(p.equal(p.Results[0], disc.Res[0]), "clear:failed", p.Pos, "a body that can't be skipped isn't reported")
			continue
		}
		n["cleared"]++
		c.ob(p.must(mkEq(disc.Res[0], tNil)) && p.must(mkEq(p.Results[0], tNil)), "clear:skipped", p.Pos, "a request is reused although its body couldn't be skipped, or isn't although it could (path: %s)", p.describe(c))
		for _, f := range []string{"Query", "Params", "Headers"} {
			c.ob(emptied[f], "clear:"+f, p.Pos, "a request's %s aren't emptied", f)
			c.ob(fieldOf(p.S.F.canon(loadField(p.S, self, f)), self, f), "clear:"+f, p.Pos, "a request's %s are replaced", f)
		}
		c.fresh(p, self, n0.S, obj, reqT, "clear:reset", "", func(f string) bool { return kept[f] || never[f] })
		for f := range kept {
			if strings.Contains(f, ".") {
				continue
			}
			c.ob(fieldOf(p.S.F.canon(loadField(p.S, self, f)), self, f), "clear:kept", p.Pos, "a request's %s is lost", f)
		}
		enc := p.S.F.canon(loadField(p.S, self, "Env", "Encryption"))
		c.ob(enc.op == OLoad && enc.args[0] == addrOf(self, "Env", "Encryption"), "clear:kept", p.Pos, "how the connection is encrypted is forgotten")
	}
	c.ob(n["failed"] > 0 && n["cleared"] > 0, "clear:cases", clear.Pos(), "no path skips, or fails to skip, a body")

	// responses
	e = eng()
	ps = returns(c.run(e, nil, newResp, nil))
	if !c.ob(len(ps) == 1, "response:paths", newResp.Pos(), "a response is made in %d ways", len(ps)) {
		return
	}
	n1 := ps[0]
	ff := c.theField(respT, "fields", func(t types.Type) bool { return types.Identical(t, types.NewPointer(fieldsT)) })
	nf := n1.S.F.canon(loadField(n1.S, n1.Results[0], ff))
	if !c.ob(nf != nil && nf.op == OAlloc, "response:own", newResp.Pos(), "a new response has no fields of its own") {
		return
	}
	okc, _ := c.constOf("http/status", "OK")
	c.ob(okc != nil && n1.equal(loadField(n1.S, nf, "Code"), okc), "response:ok", newResp.Pos(), "a new response isn't a 200")
	fs := paramSym(clearF.Params[0])
	for _, p := range c.run(e, nil, clearF, []*Term{fs}) {
		if p.Kind != PReturn {
			continue
		}
		n["fields"]++
		c.fresh(p, fs, n1.S, nf, fieldsT, "response:reset", "", none)
	}
	c.ob(n["fields"] > 0, "response:cases", clearF.Pos(), "a response's fields are never cleared")
	e = eng(clearF)
	for _, f := range []*ssa.Function{clearR, respond} {
		self := paramSym(f.Params[0])
		for _, p := range c.run(e, nil, f, []*Term{self}) {
			if p.Kind != PReturn {
				continue
			}
			n[f.Name()]++
			r := p.Results[0]
			if f == respond {
				c.ob(fieldOf(r, self, rs), "respond:its-own", p.Pos, "a request is answered by another response")
			} else {
				c.ob(r == self, "respond:same", p.Pos, "clearing a response returns another one")
			}
			k := 0
			for _, ev := range p.S.events {
				if ev.Kind == EvCall && ev.Fn == clearF && fieldOf(ev.Args[0], r, ff) {
					k++
				}
			}
			c.ob(k > 0, "respond:cleared", p.Pos, "what a response was given before isn't forgotten (path: %s)", p.describe(c))
		}
		c.ob(n[f.Name()] > 0, "respond:cases", f.Pos(), "%s has no paths", f.Name())
	}
}

// isRepoType: a named type of one of the repository's packages.
func isRepoType(t types.Type, rel, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/"+rel && n.Obj().Name() == name
}

// dotted: the name of a possibly nested field of a struct value.
func dotted(t, root *Term) string {
	if t == nil {
		return "?"
	}
	if t == root {
		return ""
	}
	if t.op != OFieldVal {
		return "?"
	}
	st := structOf(t.args[0].typ)
	base := dotted(t.args[0], root)
	if st == nil || base == "?" {
		return "?"
	}
	return strings.TrimPrefix(base+"."+st.Field(int(t.n)).Name(), ".")
}

func ruleC37(c *Ctx) {
	const h1 = "internal/protocol/http1"
	serve := c.fn("http/serve", "HTTP1")
	newP, newS, newB, newC, newR := c.fn(h1, "NewParser"), c.fn(h1, "NewSerializer"), c.fn(h1, "NewBody"), c.fn("internal/tcp", "NewClient"), c.fn("http", "NewRequest")
	run, newResp := c.fn(h1, "Suit.Serve"), c.fn("http", "NewResponse")
	alloc, allocM, newQ := c.fn("internal/keyvalue", "NewPreAlloc"), c.fn("internal/keyvalue", "NewFromMap"), c.fn("http/query", "New")
	suitT := c.P.typeOf(h1, "Suit")
	if serve == nil || newP == nil || newS == nil || newB == nil || newC == nil || newR == nil || run == nil || newResp == nil || alloc == nil || allocM == nil || newQ == nil || suitT == nil {
		return
	}
	e := c.engine()
	e.Bounds, e.SizesOK = true, true
	opq := []*ssa.Function{newP, newS, newB, newC, newR, run, newResp, alloc, allocM, newQ}
	e.Opaque = opaqueSet(opq...)
	e.NoHavoc = func(string) bool { return true }
	const chunks, buffs = "github.com/indigo-web/chunkedbody.NewParser", "github.com/indigo-web/utils/buffer.New"
	var args []*Term
	var cfg, conn, enc, rout *Term
	for _, q := range serve.Params {
		t := paramSym(q)
		args = append(args, t)
		switch {
		case isRepoType(q.Type(), "config", "Config"):
			cfg = t
		case isRepoType(q.Type(), "http/encryption", "Token"):
			enc = t
		case isRepoType(q.Type(), "router", "Router"):
			rout = t
		default:
			conn = t
		}
	}
	if !c.ob(cfg != nil && conn != nil && enc != nil && rout != nil, "anchor:serve", serve.Pos(), "serving a connection takes other arguments than expected") {
		return
	}
	n := 0
	ps := c.run(e, nil, serve, args)
	c.show(ps)
	for _, p := range ps {
		if p.Kind != PReturn {
			continue
		}
		n++
		made := map[*ssa.Function]*Event{}
		resps, storages := map[*Term]bool{}, map[*Term]bool{}
		var chunk, started *Event
		buf := map[*Term]*Event{}
		for _, ev := range p.S.events {
			if ev.Kind != EvCall {
				continue
			}
			switch {
			case ev.Fn == run:
				c.ob(started == nil, "serve:once", ev.Pos, "a connection is served twice")
				started = ev
			case ev.Fn == newResp:
				resps[ev.Res[0]] = true
			case ev.Fn == alloc || ev.Fn == allocM:
				storages[ev.Res[0]] = true
			case ev.Name == chunks:
				chunk = ev
			case ev.Name == buffs:
				buf[ev.Res[0]] = ev
			case ev.Fn != nil:
				c.ob(made[ev.Fn] == nil, "serve:one-each", ev.Pos, "%s is called twice for one connection", ev.Name)
				made[ev.Fn] = ev
			}
		}
		missing := ""
		for _, f := range []*ssa.Function{newP, newS, newB, newC, newR} {
			if made[f] == nil {
				missing = f.Name()
			}
		}
		if !c.ob(missing == "" && started != nil && chunk != nil, "serve:made", p.Pos, "a part of a connection isn't made (%s), or it isn't served (path: %s)", missing, p.describe(c)) {
			continue
		}
		// arg: the i-th argument of a type
		arg := func(f *ssa.Function, t types.Type, k int) *Term {
			for i, q := range f.Params {
				if types.Identical(q.Type(), t) {
					if k == 0 {
						return p.S.F.canon(made[f].Args[i])
					}
					k--
				}
			}
			return nil
		}
		is := func(t *Term, want, what string, ev *Event) {
			c.ob(dotted(t, cfg) == want, "config:"+want, ev.Pos, "%s isn't the one configured (%s)", what, want)
		}
		part := func(x *Term, typ types.Type, path string) *Term {
			for _, f := range strings.Split(path, ".") {
				x = p.structField(x, typ, f)
				if x == nil {
					return nil
				}
				typ = fieldType(typ, f)
			}
			return x
		}
		cliT := newB.Params[0].Type()
		cli := made[newC].Res[0]
		isCli := func(t *Term) bool { return t != nil && unwrapIface(t) == unwrapIface(cli) }
		// the client
		ev := made[newC]
		c.ob(arg(newC, newC.Params[0].Type(), 0) == conn, "client:conn", ev.Pos, "what is read isn't the connection")
		var timeout, buff *Term
		for i, q := range newC.Params {
			if isSliceT(q.Type()) {
				buff = ev.Args[i]
			} else if i > 0 {
				timeout = p.S.F.canon(ev.Args[i])
			}
		}
		is(timeout, "TCP.ReadTimeout", "the time to wait for a client", ev)
		if c.ob(buff != nil, "client:buffer", ev.Pos, "a connection has no buffer") {
			is(p.S.F.canon(mkLen(buff)), "TCP.ReadBufferSize", "the size of the buffer for reading", ev)
		}
		// the body
		ev = made[newB]
		c.ob(isCli(arg(newB, cliT, 0)), "body:client", ev.Pos, "bodies aren't read from the connection")
		for i, q := range newB.Params {
			if isRepoType(q.Type(), "config", "Body") {
				is(part(ev.Args[i], q.Type(), "MaxSize"), "Body.MaxSize", "the limit of bodies", ev)
			} else if i > 0 {
				c.ob(ev.Args[i] == chunk.Res[0], "body:chunks", ev.Pos, "chunked bodies are read by another parser")
			}
		}
		is(part(chunk.Args[0], chunk.Args[0].typ, "MaxChunkSize"), "Body.MaxChunkSize", "the limit of chunks", chunk)
		body := ev.Res[0]
		// the request
		ev = made[newR]
		req := ev.Res[0]
		var resp *Term
		var own []*Term
		for i, q := range newR.Params {
			a := p.S.F.canon(ev.Args[i])
			switch {
			case isRepoType(q.Type(), "config", "Config"):
				is(part(a, q.Type(), "Headers.CookiesPreAllocate"), "Headers.CookiesPreAllocate", "a request's configuration", ev)
			case types.Identical(q.Type(), cliT):
				c.ob(isCli(a), "request:client", ev.Pos, "a request isn't one of its connection")
			case isRepoType(q.Type(), "http", "Body"):
				c.ob(unwrapIface(a) == body, "request:body", ev.Pos, "a request's body isn't its connection's")
			case types.Identical(q.Type(), newResp.Signature.Results().At(0).Type()):
				resp = a
				c.ob(resps[a], "request:response", ev.Pos, "a request isn't given a response of its own")
			default:
				if qe := made[newQ]; qe != nil && a == qe.Res[0] {
					a = qe.Args[0]
				}
				own = append(own, a)
			}
		}
		seen := map[*Term]bool{}
		for _, a := range own {
			c.ob(storages[a] && !seen[a], "request:storages", ev.Pos, "headers, parameters and the query share a storage, or have none of their own")
			seen[a] = true
		}
		c.ob(len(own) == 3, "request:storages", ev.Pos, "a request has %d storages", len(own))
		c.ob(p.S.F.canon(loadField(p.S, req, "Env", "Encryption")) == enc, "request:encryption", ev.Pos, "a request doesn't tell how its connection is encrypted")
		for _, s := range p.S.events {
			if s.Kind == EvStore && s.Addr == addrOf(req, "Env", "Encryption") {
				c.ob(s.idx < started.idx, "request:encryption", s.Pos, "a request tells how its connection is encrypted too late")
			}
		}
		// the parser
		ev = made[newP]
		bt := newP.Params[1].Type()
		c.ob(arg(newP, newP.Params[0].Type(), 0) == req, "parser:request", ev.Pos, "what is parsed goes to another request")
		for k, what := range []string{"Headers.KeySpace", "Headers.ValueSpace", "URL.BufferSize"} {
			b := buf[arg(newP, bt, k)]
			if !c.ob(b != nil, "parser:buffer", ev.Pos, "there is no buffer for %s", what) {
				continue
			}
			is(p.S.F.canon(b.Args[0]), what+".Default", "the space to begin with", b)
			is(p.S.F.canon(b.Args[1]), what+".Maximal", "the limit of space", b)
			delete(buf, arg(newP, bt, k))
		}
		for i, q := range newP.Params {
			if isRepoType(q.Type(), "config", "Headers") {
				for _, f := range []string{"MaxKeyLength", "MaxValueLength", "Number.Maximal", "MaxEncodingTokens"} {
					is(part(ev.Args[i], q.Type(), f), "Headers."+f, "a limit of headers", ev)
				}
			}
		}
		// the serializer
		ev = made[newS]
		for i, q := range newS.Params {
			a := p.S.F.canon(ev.Args[i])
			switch {
			case isSliceT(q.Type()):
				c.ob(true, "serializer:buffer", ev.Pos, "")
			case types.Identical(q.Type(), newP.Params[0].Type()):
				c.ob(a == req, "serializer:request", ev.Pos, "responses are written for another request")
			case isRepoType(q.Type(), h1, "Writer"):
				c.ob(isCli(a), "serializer:writer", ev.Pos, "responses are written to another connection")
			case types.Identical(q.Type(), types.Typ[types.Int]):
				is(a, "HTTP.FileBuffSize", "the size of the buffer for files", ev)
			default:
				is(a, "Headers.Default", "what every response has", ev)
			}
		}
		// all of it together
		suit := started.Args[0]
		st := structOf(suitT)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			v := p.S.F.canon(loadField(p.S, suit, f.Name()))
			switch {
			case types.Identical(f.Type(), newP.Signature.Results().At(0).Type()):
				c.ob(v == made[newP].Res[0], "suit:parser", started.Pos, "a connection is read by another parser")
			case types.Identical(f.Type(), newS.Signature.Results().At(0).Type()):
				c.ob(v == made[newS].Res[0], "suit:serializer", started.Pos, "a connection's responses are written by another serializer")
			case isRepoType(f.Type(), "router", "Router"):
				c.ob(v == rout, "suit:router", started.Pos, "requests aren't handed to the router")
			case types.Identical(f.Type(), cliT):
				c.ob(isCli(v), "suit:client", started.Pos, "another connection is served")
			case types.Identical(f.Type(), newResp.Signature.Results().At(0).Type()):
				c.ob(resps[v] && v != resp, "suit:upgrade", started.Pos, "the response for upgrades is the one handlers use")
			}
		}
	}
	c.ob(n > 0, "serve:cases", serve.Pos(), "no path serves a connection")
}

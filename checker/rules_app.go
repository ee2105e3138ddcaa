package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C35", "All paths of registering addresses, of binding them, of running and stopping the servers, and of the TLS listeners and their keys.", 60, ruleC35)
}

// elemField: t is a field, possibly of an embedded struct, of the element of base at a position.
func (p *Path) elemField(t, base, at *Term) string {
	if t == nil {
		return ""
	}
	name := ""
	for t.op == OFieldVal {
		if st := structOf(t.args[0].typ); st != nil && name == "" {
			name = st.Field(int(t.n)).Name()
		}
		t = t.args[0]
	}
	a := t
	if t.op == OLoad {
		a = t.args[0]
	}
	for a.op == OFieldAddr {
		if name == "" {
			name = a.name
		}
		a = a.args[0]
	}
	if (a.op == OIndexAddr || a.op == OElem) && (a.args[0] == base || a.args[0].op == OLoad && base.op == OLoad && a.args[0].args[0] == base.args[0]) && p.equal(a.args[1], at) {
		return name
	}
	return ""
}

type appRule struct {
	*Ctx
	app                                                 types.Type
	self                                                *Term
	http1                                               *ssa.Function
	plain, tls                                          *Term
	cfg, sources, errCh, hooks, onStart, onBind, onStop string
}

// hook: a hook of the application.
func (r *appRule) hook(t *Term, name string) bool {
	return t != nil && t.op == OLoad && t.args[0].op == OFieldAddr && t.args[0].name == name && t.args[0].args[0].op == OFieldAddr && t.args[0].args[0].name == r.hooks && t.args[0].args[0].args[0] == r.self
}

func ruleC35(c *Ctx) {
	r := &appRule{Ctx: c}
	get := func(n string) *ssa.Function { return c.fn("", n) }
	bind, run, serve, listen, https, auto := get("App.bind"), get("App.run"), get("App.Serve"), get("App.Listen"), get("App.HTTPS"), get("App.AutoHTTPS")
	stop, graceful, newA, tune := get("App.Stop"), get("App.GracefulStop"), get("New"), get("App.Tune")
	newH, tlsL, autoL, selfSigned := get("App.newHTTPHandler"), get("tlsListener"), get("autoTLSListener"), get("generateSelfSignedCert")
	r.http1 = c.fn("http/serve", "HTTP1")
	newS, start, pauseAll, stopAll := c.fn("internal/tcp", "NewServer"), c.fn("internal/tcp", "Server.Start"), c.fn("internal/tcp", "PauseAll"), c.fn("internal/tcp", "StopAll")
	norm, local, ip := c.fn("internal/address", "Normalize"), c.fn("internal/address", "IsLocalhost"), c.fn("internal/address", "IsIP")
	inb, def, fill := c.fn("router/inbuilt", "New"), c.fn("config", "Default"), c.fn("config", "Fill")
	for _, f := range []*ssa.Function{bind, run, serve, listen, https, auto, stop, graceful, newA, tune, newH, tlsL, autoL, selfSigned, r.http1, newS, start, pauseAll, stopAll, norm, local, ip, inb, def, fill} {
		if f == nil {
			return
		}
	}
	r.plain, _ = c.constOf("http/encryption", "Plain")
	r.tls, _ = c.constOf("http/encryption", "TLS")
	r.app = deref(bind.Params[0].Type())
	isSl := func(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }
	isCh := func(t types.Type) bool { _, ok := t.Underlying().(*types.Chan); return ok }
	isSt := func(t types.Type) bool {
		return structOf(t) != nil && types.Identical(t, c.P.typeOf("config", "Config"))
	}
	r.sources, r.errCh, r.cfg = c.theField(r.app, "sources", isSl), c.theField(r.app, "channel of errors", isCh), c.theField(r.app, "config", isSt)
	r.hooks = c.theField(r.app, "hooks", func(t types.Type) bool { return structOf(t) != nil && !isSt(t) })
	if r.sources == "" || r.errCh == "" || r.cfg == "" || r.hooks == "" {
		return
	}
	eng := func(fns ...*ssa.Function) *Engine {
		e := c.engine()
		e.Opaque = opaqueSet(fns...)
		e.NoHavoc = func(string) bool { return true }
		return e
	}
	// the hooks are told apart by who sets them
	for _, h := range []struct {
		set  string
		name *string
	}{{"App.OnStart", &r.onStart}, {"App.OnBind", &r.onBind}, {"App.OnStop", &r.onStop}} {
		fn := get(h.set)
		if fn == nil {
			return
		}
		r.self = paramSym(fn.Params[0])
		for _, p := range c.run(eng(), nil, fn, []*Term{r.self, paramSym(fn.Params[1])}) {
			order, last := p.fieldStores(0)
			ok := len(order) == 1 && order[0].op == OFieldAddr && order[0].args[0].op == OFieldAddr && order[0].args[0].name == r.hooks && last[order[0]] == paramSym(fn.Params[1]) && p.Results[0] == r.self
			if c.ob(ok, "hook:"+fn.Name(), fn.Pos(), "the callback isn't kept") {
				*h.name = order[0].name
			}
		}
	}
	c.ob(r.onStart != r.onBind && r.onBind != r.onStop && r.onStart != r.onStop, "hooks:apart", bind.Pos(), "two hooks share a place")
	c.ob(pauseAll != stopAll, "anchor", run.Pos(), "")

	r.bind(eng(newS, stopAll, r.http1), bind, newS, stopAll)
	r.run(eng(start, pauseAll, stopAll), run, start, pauseAll, stopAll)

	// Serve
	{
		self, rt := paramSym(serve.Params[0]), paramSym(serve.Params[1])
		n := map[string]int{}
		for _, p := range c.run(eng(bind, run, inb, c.fn("router/inbuilt", "Router.Initialize")), nil, serve, []*Term{self, rt}) {
			var in, bd, rn *Event
			var made *Term
			for _, ev := range p.S.events {
				switch {
				case ev.Kind == EvCall && ev.Fn == inb:
					made = ev.Res[0]
				case ev.Kind == EvCall && ev.Fn == bind:
					c.ob(bd == nil, "serve:binds-once", ev.Pos, "addresses are bound twice")
					bd = ev
				case ev.Kind == EvCall && ev.Fn == run:
					c.ob(rn == nil, "serve:runs-once", ev.Pos, "servers are run twice")
					rn = ev
				case ev.Kind == EvCall && strings.HasSuffix(ev.Name, ").Initialize"):
					c.ob(in == nil, "serve:initialises-once", ev.Pos, "a router is initialised twice")
					in = ev
				}
			}
			if !c.ob(p.Kind == PReturn && in != nil && bd != nil && bd.Args[0] == self && bd.Args[1] == in.Res[0], "serve:binds", p.Pos, "the initialised router isn't what addresses are bound for (path: %s)", p.describe(c)) {
				continue
			}
			if p.must(mkEq(rt, tNil)) {
				n["nil"]++
				c.ob(made != nil && p.same(in.Args[0], made), "serve:default-router", p.Pos, "without a router, an empty one isn't used")
			} else {
				c.ob(p.mustNot(mkEq(rt, tNil)) && in.Args[0] == rt, "serve:router", p.Pos, "the router passed isn't the one used (path: %s)", p.describe(c))
			}
			errNil := mkEq(bd.Res[1], tNil)
			if p.mustNot(errNil) {
				n["err"]++
				c.ob(rn == nil && p.equal(p.Results[0], bd.Res[1]), "serve:error", p.Pos, "an address that can't be bound isn't reported")
			} else {
				n["run"]++
				c.ob(p.must(errNil) && rn != nil && rn.Args[0] == self && rn.Args[1] == bd.Res[0] && p.Results[0] == rn.Res[0], "serve:run", p.Pos, "what was bound isn't run, or its error isn't returned")
			}
		}
		for _, k := range []string{"nil", "err", "run"} {
			c.ob(n[k] > 0, "serve:cases", serve.Pos(), "no path for the case %q", k)
		}
	}

	// stopping
	for _, x := range []struct {
		fn  *ssa.Function
		err string
	}{{stop, "ErrShutdown"}, {graceful, "ErrGracefulShutdown"}} {
		self := paramSym(x.fn.Params[0])
		want := c.global("http/status", x.err)
		for _, p := range c.run(eng(), nil, x.fn, []*Term{self}) {
			n := 0
			for _, ev := range p.S.events {
				if ev.Kind == EvSend {
					n++
					c.ob(fieldOf(ev.Args[0], self, r.errCh) && p.same(ev.Args[1], want), "stop:"+x.fn.Name(), ev.Pos, "%s sends %s to %s", x.fn.Name(), ev.Args[1], ev.Args[0])
				}
			}
			c.ob(n == 1, "stop:"+x.fn.Name()+":once", x.fn.Pos(), "%s doesn't stop the application once", x.fn.Name())
		}
	}

	// the configuration
	{
		self, cfg := paramSym(tune.Params[0]), paramSym(tune.Params[1])
		for _, p := range c.run(eng(fill), nil, tune, []*Term{self, cfg}) {
			var full *Term
			for _, ev := range p.S.events {
				if ev.Kind == EvCall && ev.Fn == fill && ev.Args[0] == cfg {
					full = ev.Res[0]
				}
			}
			c.ob(full != nil && p.equal(loadField(p.S, self, r.cfg), full) && p.Results[0] == self, "tune", tune.Pos(), "the configuration passed isn't completed and used")
		}
		for _, p := range c.run(eng(def, listen), nil, newA, []*Term{paramSym(newA.Params[0])}) {
			var cfg *Term
			var li *Event
			for _, ev := range p.S.events {
				if ev.Kind == EvCall && ev.Fn == def {
					cfg = ev.Res[0]
				}
				if ev.Kind == EvCall && ev.Fn == listen {
					li = ev
				}
			}
			ok := li != nil && cfg != nil && li.Args[1] == paramSym(newA.Params[0]) && p.must(mkIntEq(mkLen(li.Args[2]), tZeroInt)) && p.Results[0] == li.Res[0] && li.Args[0].op == OAlloc
			ok = ok && p.equal(loadField(p.S, li.Args[0], r.cfg), cfg) && p.mustNot(mkEq(loadField(p.S, li.Args[0], r.errCh), tNil)) && p.must(mkIntEq(mkLen(loadField(p.S, li.Args[0], r.sources)), tZeroInt))
			c.ob(ok, "new", newA.Pos(), "a new application isn't one listening on its address with the default configuration (path: %s)", p.describe(c))
		}
	}

	// addresses
	src := fieldType(r.app, r.sources).Underlying().(*types.Slice).Elem()
	ltype := listen.Params[2].Type().Underlying().(*types.Slice).Elem()
	part := func(p *Path, x *Term, name string) *Term {
		if v := p.structField(x, src, name); v != nil {
			return v
		}
		st := structOf(src)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Embedded() || types.Identical(st.Field(i).Type(), ltype) {
				if v := p.structField(p.structField(x, src, st.Field(i).Name()), ltype, name); v != nil {
					return v
				}
			}
		}
		return nil
	}
	{
		self, addr, opt := paramSym(listen.Params[0]), paramSym(listen.Params[1]), paramSym(listen.Params[2])
		n := map[string]int{}
		for _, p := range c.run(eng(norm), nil, listen, []*Term{self, addr, opt}) {
			if p.Kind != PReturn {
				c.ob(false, "listen:returns", p.Pos, "registering an address doesn't return")
				continue
			}
			v := p.S.F.canon(loadField(p.S, self, r.sources))
			var x, na *Term
			if v.op == OConcat && len(v.args) == 2 && fieldOf(v.args[0], self, r.sources) && v.args[1].op == OElems && len(v.args[1].args) == 1 {
				x = v.args[1].args[0]
			}
			for _, ev := range p.S.events {
				if ev.Kind == EvCall && ev.Fn == norm && ev.Args[0] == addr {
					na = ev.Res[0]
				}
			}
			if !c.ob(x != nil && na != nil && p.Results[0] == self, "listen:kept", p.Pos, "an address isn't kept behind the earlier ones") {
				continue
			}
			c.ob(p.equal(part(p, x, "Addr"), na), "listen:address", p.Pos, "the address kept isn't the normalised one")
			given := p.mustNot(mkIntEq(mkLen(opt), tZeroInt))
			gl, gh := part(p, x, "Listen"), part(p, x, "Handler")
			of := func(t *Term, name string) bool {
				return t != nil && p.elemField(t, opt, tZeroInt) == name
			}
			isNet := gl != nil && gl.op == OFunc && strings.HasSuffix(gl.String(), "net.Listen")
			if gl != nil && gl.op == OConv && len(gl.args) == 1 {
				isNet = isNet || strings.HasSuffix(gl.args[0].String(), "net.Listen")
			}
			switch {
			case !given:
				n["none"]++
				c.ob(p.must(mkIntEq(mkLen(opt), tZeroInt)) && isNet && p.must(mkEq(gh, tNil)), "listen:default", p.Pos, "an address without a listener isn't listened on by TCP: %s (path: %s)", gl, p.describe(c))
			case isNet:
				n["nil"]++
				nl := false
				for _, t := range p.termsOf(func(t *Term) bool { return of(t, "Listen") }) {
					nl = nl || p.must(mkEq(t, tNil))
				}
				c.ob(nl && of(gh, "Handler"), "listen:default", p.Pos, "a listener's own way of listening or handler isn't kept (path: %s)", p.describe(c))
			default:
				n["own"]++
				c.ob(of(gl, "Listen") && of(gh, "Handler"), "listen:own", p.Pos, "a listener passed isn't the one kept (path: %s)", p.describe(c))
			}
		}
		for _, k := range []string{"none", "nil", "own"} {
			c.ob(n[k] > 0, "listen:cases", listen.Pos(), "no path for the case %q", k)
		}
	}

	// TLS
	one := func(p *Path, ev *Event) (l, h *Term) {
		base, lo, _ := seqParts(ev.Args[2])
		if base.op == OElems && len(base.args) == 1 {
			return p.structField(base.args[0], ltype, "Listen"), p.structField(base.args[0], ltype, "Handler")
		}
		if !p.equal(lo, tZeroInt) || !p.must(mkIntEq(mkLen(ev.Args[2]), mkInt(1))) {
			return nil, nil
		}
		x := p.S.load(mkIndexAddr(base, tZeroInt, ltype), ltype)
		return p.structField(x, ltype, "Listen"), p.structField(x, ltype, "Handler")
	}
	secure := func(p *Path, self, h *Term) bool { return r.handles(p, h, self, r.tls, eng(r.http1)) }
	{
		self, addr, cert, key := paramSym(https.Params[0]), paramSym(https.Params[1]), paramSym(https.Params[2]), paramSym(https.Params[3])
		for _, p := range c.run(eng(listen, tlsL), nil, https, []*Term{self, addr, cert, key}) {
			ok := false
			for _, ev := range p.S.events {
				if ev.Kind == EvCall && ev.Fn == listen && ev.Args[0] == self && ev.Args[1] == addr {
					l, h := one(p, ev)
					t := c.callWith(p, tlsL, l)
					ok = t != nil && t.Args[0] == cert && t.Args[1] == key && secure(p, self, h) && p.Results[0] == ev.Res[0]
				}
			}
			c.ob(ok, "https", https.Pos(), "HTTPS doesn't listen with the certificate given, or the connections aren't known as encrypted")
		}
		self, addr = paramSym(auto.Params[0]), paramSym(auto.Params[1])
		dom := paramSym(auto.Params[2])
		n := map[string]int{}
		for _, p := range c.run(eng(norm, local, ip, selfSigned, https, listen, autoL), nil, auto, []*Term{self, addr, dom}) {
			if p.Kind != PReturn {
				continue
			}
			var na *Term
			isLocal, other := false, 0
			var gen, hs, li *Event
			for _, ev := range p.S.events {
				if ev.Kind != EvCall {
					continue
				}
				switch ev.Fn {
				case norm:
					na = ev.Res[0]
				case local, ip:
					if ev.Args[0] == na || ev.Args[0] == addr {
						isLocal = isLocal || p.must(ev.Res[0])
						if p.mustNot(ev.Res[0]) {
							other++
						}
					}
				case selfSigned:
					gen = ev
				case https:
					hs = ev
				case listen:
					li = ev
				}
			}
			okAddr := func(t *Term) bool { return t == na || t == addr }
			switch {
			case hs != nil:
				n["self"]++
				c.ob(isLocal && li == nil && gen != nil && p.must(mkEq(gen.Res[2], tNil)) && hs.Args[0] == self && okAddr(hs.Args[1]) && hs.Args[2] == gen.Res[0] && hs.Args[3] == gen.Res[1] && p.Results[0] == hs.Res[0], "auto:self-signed", hs.Pos, "the self-signed certificate isn't used properly (path: %s)", p.describe(c))
			case li != nil:
				n["auto"]++
				l, h := one(p, li)
				t := c.callWith(p, autoL, l)
				c.ob(other == 2 && t != nil && t.Args[0] == dom && li.Args[0] == self && okAddr(li.Args[1]) && secure(p, self, h) && p.Results[0] == li.Res[0], "auto:requested", li.Pos, "certificates aren't requested for the domains given, or the connections aren't known as encrypted (path: %s)", p.describe(c))
			default:
				n["failed"]++
				c.ob(isLocal && gen != nil && p.mustNot(mkEq(gen.Res[2], tNil)) && p.Results[0] == self, "auto:failed", p.Pos, "an address isn't listened on although there is a certificate (path: %s)", p.describe(c))
			}
		}
		for _, k := range []string{"self", "auto", "failed"} {
			c.ob(n[k] > 0, "auto:cases", auto.Pos(), "no path for the case %q", k)
		}
	}
	r.listeners(eng, tlsL, autoL)
	r.keys(eng, selfSigned)
}

// callWith: the call of fn that returned a value.
func (c *Ctx) callWith(p *Path, fn *ssa.Function, res *Term) *Event {
	for _, ev := range p.S.events {
		if ev.Kind == EvCall && ev.Fn == fn && len(ev.Res) > 0 && ev.Res[0] == res {
			return ev
		}
	}
	return nil
}

// handles: the handler serves a connection by HTTP/1 with the application's configuration.
func (r *appRule) handles(p *Path, h, self, enc *Term, e *Engine) bool {
	for h != nil && h.op == OConv {
		h = h.args[0]
	}
	if h == nil || h.op != OClosure {
		return false
	}
	fn := h.obj.(*ssa.Function)
	if len(fn.Params) != 2 {
		return false
	}
	s := p.S.clone()
	s.events = nil
	conn, rt := mkSym("conn", fn.Params[0].Type()), mkSym("router", fn.Params[1].Type())
	ps := e.RunClosure(s, fn, []*Term{conn, rt}, h.args)
	for _, q := range ps {
		n := 0
		for _, ev := range q.S.events {
			if ev.Kind == EvCall {
				n++
				if !r.servesHTTP(q, ev, self, conn, rt, enc) {
					return false
				}
			}
		}
		if n != 1 || q.Kind != PReturn {
			return false
		}
	}
	return len(ps) > 0
}

func (r *appRule) servesHTTP(q *Path, ev *Event, self, conn, rt, enc *Term) bool {
	return ev.Fn == r.http1 && q.equal(ev.Args[0], loadField(q.S, self, r.cfg)) && ev.Args[1] == conn && q.equal(ev.Args[2], enc) && ev.Args[3] == rt
}

func (r *appRule) bind(e *Engine, fn, newS, stopAll *ssa.Function) {
	c := r.Ctx
	e.LocalStores = true
	r.self = paramSym(fn.Params[0])
	self, rt := r.self, paramSym(fn.Params[1])
	ps := c.run(e, nil, fn, []*Term{self, rt})
	c.noPanic(ps, fn)
	n := map[string]int{}
	for _, p := range ps {
		var rec *LoopRec
		if len(p.S.loopSeq) > 0 {
			rec = p.S.loopSeq[0]
		}
		if rec == nil || p.Kind == PBackEdge {
			continue
		}
		var src *Term
		for _, t := range p.termsOf(func(t *Term) bool { return fieldOf(t, self, r.sources) }) {
			src = t
			break
		}
		if !c.ob(src != nil, "bind:sources", p.Pos, "the addresses aren't looked at") {
			return
		}
		failed := p.mustNot(mkEq(p.Results[1], tNil))
		if !failed {
			n["bound"]++
			v := rec.byCur(p.S.F.canon(p.Results[0]))
			if !c.ob(v != nil && p.must(mkIntEq(mkLen(v.Entry), tZeroInt)) && p.must(mkEq(p.Results[1], tNil)), "bind:servers", p.Pos, "the servers aren't returned without an error (path: %s)", p.describe(c)) {
				continue
			}
			m := p.walk(rec, src, func(q *Path, base, at *Term) {
				n["each"]++
				r.bound(e, q, rec, v, base, at, rt, newS, n)
			})
			c.ob(m == "", "bind:all", p.Pos, "not every address is bound: %s", m)
			continue
		}
		// something couldn't be bound
		n["failed"]++
		var call, st *Event
		made := 0
		for _, ev := range p.S.events[rec.NEv:] {
			switch {
			case ev.Kind == EvCall && ev.Fn == stopAll:
				st = ev
			case ev.Kind == EvCall && ev.Fn == newS:
				made++
			case ev.Kind == EvCall && ev.FnT != nil && len(ev.Res) == 2:
				call = ev
			}
		}
		ok := call != nil && p.mustNot(mkEq(call.Res[1], tNil)) && p.equal(p.Results[1], call.Res[1]) && made == 0
		c.ob(ok, "bind:failure", p.Pos, "the error of an address that can't be bound isn't returned (path: %s)", p.describe(c))
		v := (*LoopVar)(nil)
		if st != nil {
			v = rec.byCur(st.Args[0])
		}
		c.ob(v != nil, "bind:released", p.Pos, "addresses that were bound already aren't released when another can't be (path: %s)", p.describe(c))
	}
	for _, k := range []string{"bound", "failed", "each", "hook", "own", "http"} {
		c.ob(n[k] > 0, "bind:cases", fn.Pos(), "no path for the case %q", k)
	}
}

// bound: one address is bound and gets its server.
func (r *appRule) bound(e *Engine, q *Path, rec *LoopRec, v *LoopVar, base, at, rt *Term, newS *ssa.Function, n map[string]int) {
	c := r.Ctx
	var call, hook, mk *Event
	extra := 0
	for _, ev := range q.S.events[rec.NEv:] {
		if ev.Kind != EvCall || ev.Name == "append" {
			continue
		}
		switch {
		case ev.Fn == newS:
			extra += b2i(mk != nil)
			mk = ev
		case ev.FnT != nil && len(ev.Res) == 2:
			extra += b2i(call != nil)
			call = ev
		case ev.FnT != nil && r.hook(ev.FnT, r.onBind):
			extra += b2i(hook != nil)
			hook = ev
		default:
			extra++
		}
	}
	if !c.ob(call != nil && mk != nil && extra == 0, "bind:each", q.Pos, "an address isn't bound once, for one server (path: %s)", q.describe(c)) {
		return
	}
	tcp, _ := call.Args[0].isStr()
	c.ob(q.elemField(call.FnT, base, at) == "Listen" && tcp == "tcp" && q.elemField(call.Args[1], base, at) == "Addr", "bind:listener", call.Pos, "an address isn't bound by its own listener")
	c.ob(q.must(mkEq(call.Res[1], tNil)), "bind:checked", call.Pos, "a listener is used although it may have failed")
	c.ob(mk.Args[0] == call.Res[0], "bind:server", mk.Pos, "a server doesn't serve its address's listener")
	c.ob(q.Next[v.Name] != nil && q.equal(q.Next[v.Name], mkConcat(v.Cur, mkElems([]*Term{mk.Res[0]}))), "bind:kept", mk.Pos, "a server isn't kept behind the earlier ones")
	if hook != nil {
		n["hook"]++
		c.ob(q.mustNot(mkEq(hook.FnT, tNil)), "bind:no-hook", hook.Pos, "a callback is called although none may be registered (path: %s)", q.describe(c))
		c.ob(len(hook.Args) == 1 && q.elemField(hook.Args[0], base, at) == "Addr" && hook.idx > call.idx, "bind:hook", hook.Pos, "the callback isn't told the address that was bound")
	} else {
		no := false
		for _, t := range q.termsOf(func(t *Term) bool { return r.hook(t, r.onBind) }) {
			no = no || q.must(mkEq(t, tNil))
		}
		c.ob(no, "bind:hook", q.Pos, "the callback isn't told about a bound address (path: %s)", q.describe(c))
	}
	// the handler
	cl := mk.Args[1]
	for cl.op == OConv {
		cl = cl.args[0]
	}
	fn, _ := cl.obj.(*ssa.Function)
	if !c.ob(cl.op == OClosure && fn != nil && len(fn.Params) == 1, "bind:handler", mk.Pos, "connections aren't handled") {
		return
	}
	// what it captures must be this address's alone
	for _, b := range cl.args {
		if b.op != OAlloc {
			continue
		}
		stored := false
		for _, ev := range q.S.events[rec.NEv:] {
			if ev.Kind == EvStore && addrRoot(ev.Addr) == b {
				stored = true
			}
		}
		c.ob(!stored || b.n > int64(rec.Entry.allocN), "bind:own-handler", mk.Pos, "the handlers of all addresses share a variable that is changed for each of them")
	}
	s := q.S.clone()
	s.events = nil
	conn := mkSym("conn", fn.Params[0].Type())
	for _, h := range e.RunClosure(s, fn, []*Term{conn}, cl.args) {
		c.paths++
		var ev *Event
		k := 0
		for _, x := range h.S.events {
			if x.Kind == EvCall {
				ev = x
				k++
			}
		}
		if !c.ob(h.Kind == PReturn && k == 1, "bind:handler-once", mk.Pos, "a connection isn't handled once (path: %s)", h.describe(c)) {
			continue
		}
		if ev.Fn == r.http1 {
			n["http"]++
			none := false
			for _, t := range h.termsOf(func(t *Term) bool { return h.elemField(t, base, at) == "Handler" }) {
				none = none || h.must(mkEq(t, tNil))
			}
			c.ob(none && r.servesHTTP(h, ev, r.self, conn, rt, r.plain), "bind:http", mk.Pos, "an address without a handler of its own isn't served by plain HTTP/1 with the application's configuration (path: %s)", h.describe(c))
			continue
		}
		n["own"]++
		c.ob(h.elemField(ev.FnT, base, at) == "Handler" && len(ev.Args) == 2 && ev.Args[0] == conn && ev.Args[1] == rt, "bind:own", mk.Pos, "a connection isn't passed to its address's handler with the router (path: %s)", h.describe(c))
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (r *appRule) run(e *Engine, fn, start, pauseAll, stopAll *ssa.Function) {
	c := r.Ctx
	r.self = paramSym(fn.Params[0])
	self, servers := r.self, paramSym(fn.Params[1])
	ps := c.run(e, nil, fn, []*Term{self, servers})
	c.noPanic(ps, fn)
	c.show(ps)
	graceful := c.global("http/status", "ErrGracefulShutdown")
	n := map[string]int{}
	for _, p := range ps {
		if p.Kind != PReturn {
			continue
		}
		var rec *LoopRec
		for _, x := range p.S.loopSeq {
			rec = x
		}
		if !c.ob(rec != nil, "run:starts", p.Pos, "servers aren't started (path: %s)", p.describe(c)) {
			continue
		}
		var recv, cls, pause, stop, hs, he *Event
		bad := ""
		for _, ev := range p.S.events {
			switch {
			case ev.Kind == EvRecv:
				if recv != nil {
					bad = "more than one error is waited for"
				}
				recv = ev
			case ev.Kind == EvCall && ev.Name == "close":
				cls = ev
			case ev.Kind == EvCall && ev.Fn == pauseAll:
				pause = ev
			case ev.Kind == EvCall && ev.Fn == stopAll:
				if stop != nil {
					bad = "servers are stopped twice"
				}
				stop = ev
			case ev.Kind == EvCall && r.hook(ev.FnT, r.onStart):
				hs = ev
			case ev.Kind == EvCall && r.hook(ev.FnT, r.onStop):
				he = ev
			case ev.Kind == EvGo || ev.Kind == EvSend || ev.Kind == EvCall:
				bad = "something else is done: " + ev.String()
			}
		}
		c.ob(bad == "", "run:nothing-else", p.Pos, "%s", bad)
		if !c.ob(recv != nil && recv.Name != "select" && len(recv.Res) > 0 && fieldOf(recv.Args[0], self, r.errCh), "run:waits", p.Pos, "the first error isn't waited for (path: %s)", p.describe(c)) {
			continue
		}
		err := recv.Res[0]
		c.ob(p.equal(p.Results[0], err), "run:returned", p.Pos, "the error that ended the application isn't returned")
		c.ob(stop != nil && stop.Args[0] == servers && stop.idx > recv.idx, "run:stops", p.Pos, "servers aren't stopped")
		isG, notG := p.must(mkEq(err, graceful)), p.mustNot(mkEq(err, graceful))
		if isG {
			n["graceful"]++
			c.ob(pause != nil && stop != nil && pause.Args[0] == servers && pause.idx > recv.idx && pause.idx < stop.idx, "run:graceful", p.Pos, "a graceful stop doesn't wait for connections before closing everything")
		} else {
			n["abrupt"]++
			c.ob(notG && pause == nil, "run:abrupt", p.Pos, "an abrupt stop waits for connections (path: %s)", p.describe(c))
		}
		if hs != nil {
			n["start"]++
			c.ob(hs.idx < recv.idx, "run:on-start", hs.Pos, "the start callback is called when the application ends")
		}
		if he != nil {
			n["stop"]++
			c.ob(stop != nil && he.idx > stop.idx, "run:on-stop", he.Pos, "the stop callback is called before everything is stopped")
		}
		for _, h := range []struct {
			ev   *Event
			name string
		}{{hs, r.onStart}, {he, r.onStop}} {
			no := h.ev != nil
			for _, t := range p.termsOf(func(t *Term) bool { return r.hook(t, h.name) }) {
				no = no || p.must(mkEq(t, tNil))
			}
			c.ob(h.ev == nil || p.mustNot(mkEq(h.ev.FnT, tNil)), "run:no-hook", p.Pos, "a callback is called although none may be registered (path: %s)", p.describe(c))
			c.ob(no, "run:hooks", p.Pos, "a callback isn't called (path: %s)", p.describe(c))
		}
		m := p.walk(rec, servers, func(q *Path, base, at *Term) {
			var g *Event
			k := 0
			for _, ev := range q.S.events[rec.NEv:] {
				if ev.Kind == EvGo {
					g = ev
				}
				if ev.Kind != EvStore {
					k++
				}
			}
			if !c.ob(g != nil && k == 1, "run:each", q.Pos, "a server isn't started by a goroutine of its own") {
				return
			}
			if st := overwritten(g); st != nil {
				c.fail("run:own-variable", st.Pos(), "a goroutine may not have come to using a variable when this overwrites it")
			}
			for _, h := range c.goBody(e, q, g) {
				c.paths++
				n["go"]++
				var st, sel *Event
				k := 0
				for _, ev := range h.S.events {
					switch {
					case ev.Kind == EvCall && ev.Fn == start:
						st = ev
						k++
					case ev.Kind == EvRecv:
						sel = ev
						k++
					case ev.Kind == EvStore:
					default:
						k++
					}
				}
				if !c.ob(st != nil && k == 2, "run:goroutine", g.Pos, "a server's goroutine doesn't start it once and report how it ended (path: %s)", h.describe(c)) {
					continue
				}
				b, i, _ := partOf(h.S.F.canon(st.Args[0]))
				c.ob(b == servers && h.equal(i, at), "run:own-server", st.Pos, "a goroutine starts another server than its own: %s", st.Args[0])
				report, end := false, false
				if sel != nil && sel.Name == "select" && sel.idx > st.idx {
					for j, ch := range sel.Args {
						if fieldOf(ch, self, r.errCh) && sel.Sent[j] == st.Res[0] {
							report = true
						} else if sel.Sent[j] == nil && cls != nil && ch == cls.Args[0] && cls.idx > recv.idx {
							end = true
						}
					}
				}
				c.ob(report, "run:reports", g.Pos, "how a server ended isn't reported")
				c.ob(end, "run:no-leak", g.Pos, "a server's goroutine may wait forever once the application has ended")
			}
		})
		c.ob(m == "", "run:all", p.Pos, "not every server is started: %s", m)
	}
	for _, k := range []string{"graceful", "abrupt", "start", "stop", "go"} {
		c.ob(n[k] > 0, "run:cases", fn.Pos(), "no path for the case %q", k)
	}
}

// listeners: TLS listeners use the certificate given, or request those of the domains.
func (r *appRule) listeners(eng func(...*ssa.Function) *Engine, tlsL, autoL *ssa.Function) {
	c := r.Ctx
	for _, fn := range []*ssa.Function{tlsL, autoL} {
		var args []*Term
		for _, p := range fn.Params {
			args = append(args, paramSym(p))
		}
		e := eng()
		for _, p := range c.run(e, nil, fn, args) {
			cl := p.S.F.canon(p.Results[0])
			for cl.op == OConv {
				cl = cl.args[0]
			}
			f, _ := cl.obj.(*ssa.Function)
			if !c.ob(cl.op == OClosure && f != nil && len(f.Params) == 2, "tls:"+fn.Name(), fn.Pos(), "no listener is returned") {
				continue
			}
			network, addr := mkSym("network", f.Params[0].Type()), mkSym("addr", f.Params[1].Type())
			ok := 0
			for _, q := range e.RunClosure(p.S.clone(), f, []*Term{network, addr}, cl.args) {
				c.paths++
				if !c.ob(q.Kind == PReturn, "tls:"+fn.Name()+":returns", fn.Pos(), "a listener panics") {
					continue
				}
				var li, load, white *Event
				for _, ev := range q.S.events {
					if ev.Kind != EvCall {
						continue
					}
					switch ev.Name {
					case "crypto/tls.Listen":
						li = ev
					case "crypto/tls.LoadX509KeyPair":
						load = ev
					default:
						if strings.HasSuffix(ev.Name, "autocert.HostWhitelist") {
							white = ev
						}
					}
				}
				if li == nil {
					c.ob(load != nil && q.mustNot(mkEq(load.Res[1], tNil)) && q.equal(q.Results[1], load.Res[1]) && q.must(mkEq(q.Results[0], tNil)), "tls:"+fn.Name()+":error", fn.Pos(), "a failure isn't reported (path: %s)", q.describe(c))
					continue
				}
				ok++
				c.ob(li.Args[0] == network && li.Args[1] == addr && q.equal(q.Results[0], li.Res[0]) && q.equal(q.Results[1], li.Res[1]), "tls:"+fn.Name()+":listens", li.Pos, "the address isn't listened on by TLS")
				cfg := li.Args[2]
				if fn == tlsL {
					good := load != nil && load.Args[0] == args[0] && load.Args[1] == args[1] && q.must(mkEq(load.Res[1], tNil))
					if good {
						v := q.S.F.canon(q.S.seqContent(q.S.F.canon(loadField(q.S, cfg, "Certificates"))))
						good = v.op == OElems && len(v.args) == 1 && q.equal(v.args[0], load.Res[0])
					}
					c.ob(good, "tls:certificate", li.Pos, "the certificate given isn't the one used")
					continue
				}
				get := q.S.F.canon(loadField(q.S, cfg, "GetCertificate"))
				var m *Term
				if get.op == OClosure && len(get.args) == 1 && strings.Contains(get.obj.(*ssa.Function).Name(), "GetCertificate") {
					m = get.args[0]
				}
				if !c.ob(m != nil, "tls:requested", li.Pos, "certificates aren't requested") {
					continue
				}
				pol := loadField(q.S, m, "HostPolicy")
				some := mkLt(tZeroInt, mkLen(args[0]))
				switch {
				case q.must(some):
					c.ob(white != nil && white.Args[0] == args[0] && q.equal(pol, white.Res[0]), "tls:domains", li.Pos, "certificates are requested for other domains than those given")
				default:
					c.ob(q.mustNot(some), "tls:domains", li.Pos, "certificates are requested for any domain although some are given (path: %s)", q.describe(c))
				}
			}
			c.ob(ok > 0, "tls:"+fn.Name()+":cases", fn.Pos(), "nothing is listened on")
		}
	}
}

// keys: a private key is written to a file nobody else can read, beside its certificate.
func (r *appRule) keys(eng func(...*ssa.Function) *Engine, fn *ssa.Function) {
	c := r.Ctx
	e := eng()
	made := 0
	for _, p := range c.run(e, nil, fn, nil) {
		if p.Kind != PReturn {
			continue
		}
		type file struct{ name, perm *Term }
		files := map[*Term]file{}
		var certTo, keyTo *Term
		var fails []*Term
		enc := map[*Term]*Term{} // what was marshalled or created
		for _, ev := range p.S.events {
			if ev.Kind != EvCall {
				continue
			}
			switch ev.Name {
			case "os.Create":
				files[ev.Res[0]] = file{ev.Args[0], mkInt(0666)}
				fails = append(fails, ev.Res[1])
			case "os.OpenFile":
				files[ev.Res[0]] = file{ev.Args[0], ev.Args[2]}
				fails = append(fails, ev.Res[1])
			case "os.WriteFile":
				files[ev.Args[1]] = file{ev.Args[0], ev.Args[2]}
			case "crypto/x509.MarshalPKCS8PrivateKey", "crypto/x509.CreateCertificate", "crypto/rsa.GenerateKey":
				enc[ev.Res[0]] = mkStr(ev.Name)
				fails = append(fails, ev.Res[1])
				if ev.Name == "crypto/rsa.GenerateKey" {
					bits, is := ev.Args[1].isInt()
					c.ob(!is || bits >= 2048, "keys:size", ev.Pos, "a key of %d bits is made", bits)
				}
			case "encoding/pem.Encode":
				fails = append(fails, ev.Res[0])
				b := ev.Args[1]
				data, kind := p.S.F.canon(loadField(p.S, b, "Bytes")), p.S.F.canon(loadField(p.S, b, "Type"))
				ks, _ := kind.isStr()
				what := ""
				if w := enc[data]; w != nil {
					what, _ = w.isStr()
				}
				f, known := files[unwrapIface(ev.Args[0])]
				if what == "crypto/x509.MarshalPKCS8PrivateKey" {
					perm, is := int64(0777), false
					if known {
						perm, is = f.perm.isInt()
					}
					c.ob(known && is && perm&077 == 0, "keys:private", ev.Pos, "a private key is written where others may read it")
					c.ob(ks == "PRIVATE KEY", "keys:kind", ev.Pos, "a private key is labelled %q", ks)
					keyTo = f.name
				} else {
					c.ob(what == "crypto/x509.CreateCertificate" && ks == "CERTIFICATE", "keys:kind", ev.Pos, "what is written is neither a key nor a certificate")
					certTo = f.name
				}
			}
		}
		isErr := p.mustNot(mkEq(p.Results[2], tNil))
		if isErr {
			continue
		}
		// no failure is taken for success
		ok := true
		for _, f := range fails {
			ok = ok && p.must(mkEq(f, tNil))
		}
		c.ob(ok, "keys:failures", p.Pos, "a failure is taken for success (path: %s)", p.describe(c))
		if certTo == nil && keyTo == nil {
			// there already: both of them
			for i, what := range []string{"certificate", "key"} {
				found := false
				for _, ev := range p.S.events {
					if ev.Kind == EvCall && (ev.Name == "os.Stat" || ev.Name == "os.Open" || ev.Name == "os.Lstat") && len(ev.Res) == 2 && p.equal(ev.Args[0], p.Results[i]) {
						found = found || p.must(mkEq(ev.Res[1], tNil))
					}
				}
				c.ob(found, "keys:exist", p.Pos, "a %s file is taken for granted (path: %s)", what, p.describe(c))
			}
			continue
		}
		made++
		c.ob(certTo != nil && keyTo != nil && p.equal(p.Results[0], certTo) && p.equal(p.Results[1], keyTo), "keys:names", p.Pos, "the names returned aren't those of the files written")
	}
	c.ob(made > 0, "keys:cases", fn.Pos(), "no certificate is made")
}

package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C44", "Every way through an iteration of escaping, for all bytes it may be taken with, and all ways out.", 5, ruleC44)
	register("C45", "All paths of the default error handlers and of the simple router, from construction on.", 10, ruleC45)
	register("C43", "All paths of every middleware and mutator the router comes with, made with arbitrary parameters.", 40, ruleC43)
}

type mwRule struct {
	*Ctx
	pkg                                  string
	respond, code, header, str, errM     *ssa.Function
	body, reveal, escape, methodStr, hdr *ssa.Function
	n                                    map[string]int
	cur                                  string
}

func (m *mwRule) eng() *Engine {
	e := m.engine()
	e.Opaque = opaqueSet(m.respond, m.code, m.header, m.str, m.errM, m.body, m.reveal, m.escape, m.methodStr, m.hdr)
	e.NoHavoc = func(string) bool { return true }
	return e
}

// each runs what a function returns for every way it may return it.
func (m *mwRule) each(pkg, name string, f func(q *Path, args []*Term, in []*Term)) {
	c := m.Ctx
	fn := c.fn(pkg, name)
	if fn == nil {
		return
	}
	m.cur = name
	var args []*Term
	for _, q := range fn.Params {
		args = append(args, paramSym(q))
	}
	cnt := 0
	ps := c.run(m.eng(), nil, fn, args)
	c.show(ps)
	for _, p := range ps {
		if p.Kind != PReturn {
			continue
		}
		cl := stripConv(p.S.F.canon(p.Results[0]))
		var h *ssa.Function
		if cl != nil {
			h, _ = cl.obj.(*ssa.Function)
		}
		if !c.ob(h != nil, name+":made", p.Pos, "%s doesn't return a function", name) {
			continue
		}
		s := p.S.clone()
		s.events = nil
		var in []*Term
		for _, q := range h.Params {
			in = append(in, paramSym(q))
		}
		qs := m.eng().RunClosure(s, h, in, cl.args)
		c.paths += len(qs)
		c.show(qs)
		for _, q := range qs {
			if q.Kind == PReturn {
				cnt++
				f(q, args, in)
			} else if q.Kind == PPanic {
				c.fail(name+":panics", q.Pos, "%s panics (path: %s)", name, q.describe(c))
			}
		}
	}
	c.ob(cnt > 0, name+":cases", fn.Pos(), "%s has no path", name)
}

// answer: what was done to a response, in any order.
type answer struct {
	root    *Term
	codes   []*Event
	headers []*Event
	others  []*Event
}

func (m *mwRule) answer(p *Path, r *Term) (a answer) {
	root := map[*Term]*Term{}
	of := func(t *Term) *Term {
		t = p.S.F.canon(t)
		if x := root[t]; x != nil {
			return x
		}
		return t
	}
	for _, ev := range p.S.events {
		if ev.Kind != EvCall || len(ev.Args) == 0 || len(ev.Res) == 0 {
			continue
		}
		switch ev.Fn {
		case m.code, m.header, m.str, m.errM, m.body:
			if ev.Fn != nil {
				root[ev.Res[0]] = of(ev.Args[0])
			}
		}
	}
	a.root = of(r)
	for _, ev := range p.S.events {
		if ev.Kind != EvCall || ev.Fn == nil || len(ev.Args) == 0 || of(ev.Args[0]) != a.root {
			continue
		}
		switch ev.Fn {
		case m.code, m.errM:
			a.codes = append(a.codes, ev)
		case m.header:
			a.headers = append(a.headers, ev)
		case m.str, m.body:
			a.others = append(a.others, ev)
		}
	}
	return
}

// cleared: a response is the request's own, cleared by this function, once.
func (m *mwRule) cleared(p *Path, root, req *Term) bool {
	n, ok := 0, false
	for _, ev := range p.S.events {
		if ev.Kind == EvCall && ev.Fn == m.respond {
			n++
			ok = ok || ev.Res[0] == root && ev.Args[0] == req
		}
	}
	return n == 1 && ok
}

// hasCode: the response is given this code and no other.
func (m *mwRule) hasCode(p *Path, a answer, name string) bool {
	if len(a.codes) != 1 {
		return false
	}
	ev := a.codes[0]
	if ev.Fn == m.errM {
		return p.S.F.canon(ev.Args[1]) == m.global("http/status", "Err"+name)
	}
	want, ok := m.constOf("http/status", name)
	return ok && p.equal(ev.Args[1], want)
}

// headerIs: exactly one header is added, with this name; its value.
func (m *mwRule) headerOf(p *Path, a answer, name string) *Term {
	if len(a.headers) != 1 {
		return nil
	}
	ev := a.headers[0]
	k, is := p.S.F.canon(ev.Args[1]).isStr()
	vals := p.S.F.canon(p.S.seqContent(ev.Args[2]))
	if !is || !strings.EqualFold(k, name) || vals.op != OElems || len(vals.args) != 1 {
		return nil
	}
	return p.S.F.canon(vals.args[0])
}

// nexts: the calls of the next handler.
func nexts(p *Path, next *Term) (out []*Event) {
	for _, ev := range p.S.events {
		if ev.Kind == EvCall && ev.FnT == next {
			out = append(out, ev)
		}
	}
	return
}

// passed: the request is handed to the next handler, once, and its response returned.
func passed(p *Path, next, req *Term) bool {
	ns := nexts(p, next)
	return len(ns) == 1 && len(ns[0].Args) == 1 && ns[0].Args[0] == req && p.equal(p.Results[0], ns[0].Res[0])
}

func (m *mwRule) stores(p *Path, may ...string) {
	for _, ev := range p.S.events {
		if ev.Kind != EvStore || localRoot(ev.Addr) {
			continue
		}
		ok := false
		for _, f := range may {
			ok = ok || ev.Addr.op == OFieldAddr && ev.Addr.name == f
		}
		m.ob(ok, m.cur+":only", ev.Pos, "%s changes %s as well", m.cur, ev.Addr)
	}
}

func ruleC43(c *Ctx) {
	m := &mwRule{Ctx: c, pkg: "router/inbuilt/middleware", n: map[string]int{}}
	get := func(pkg, n string) *ssa.Function { return c.fn(pkg, n) }
	m.respond, m.code, m.header = get("http", "Request.Respond"), get("http", "Response.Code"), get("http", "Response.Header")
	m.str, m.errM, m.body = get("http", "Response.String"), get("http", "Response.Error"), get("http", "Response.Bytes")
	m.reveal, m.escape, m.methodStr = get("http", "Response.Reveal"), get("http", "Escape"), get("http/method", "Method.String")
	m.hdr = get("internal/keyvalue", "Storage.Value")
	for _, f := range []*ssa.Function{m.respond, m.code, m.header, m.str, m.errM, m.body, m.reveal, m.escape, m.methodStr, m.hdr} {
		if f == nil {
			return
		}
	}
	if c.global("http/status", "ErrInternalServerError") == nil {
		return
	}
	m.each(m.pkg, "CustomContext", func(p *Path, a, in []*Term) {
		next, req := in[0], in[1]
		set := false
		ns := nexts(p, next)
		for _, ev := range p.S.events {
			if ev.Kind == EvStore && ev.Addr.op == OFieldAddr && ev.Addr.args[0] == req && ev.Addr.name == "Ctx" {
				set = len(ns) == 1 && ev.idx < ns[0].idx && p.same(ev.Val, a[0])
			}
		}
		c.ob(set && passed(p, next, req), "CustomContext", p.Pos, "the next handler isn't called with the context given, or its response not returned (path: %s)", p.describe(c))
		m.stores(p, "Ctx")
	})
	m.each(m.pkg, "Redirect", func(p *Path, a, in []*Term) {
		next, req := in[0], in[1]
		from, to := a[0], a[1]
		m.stores(p)
		is := mkEq(fieldAt(p, req, "Path"), from)
		if p.mustNot(is) {
			m.n["redirect:others"]++
			c.ob(passed(p, next, req), "Redirect:others", p.Pos, "another path isn't passed on (path: %s)", p.describe(c))
			return
		}
		m.n["redirect"]++
		ans := m.answer(p, p.Results[0])
		loc := m.headerOf(p, ans, "Location")
		c.ob(p.must(is) && len(nexts(p, next)) == 0 && m.cleared(p, ans.root, req) && m.hasCode(p, ans, "TemporaryRedirect") && loc != nil && p.equal(loc, to) && len(ans.others) == 0,
			"Redirect", p.Pos, "the path isn't answered by a temporary redirect to the target alone (path: %s)", p.describe(c))
	})
	m.each(m.pkg, "ServerHeader", func(p *Path, a, in []*Term) {
		m.stores(p)
		ans, ok := m.kept(p, in[0], in[1])
		v := m.headerOf(p, ans, "Server")
		c.ob(ok && v != nil && len(ans.codes)+len(ans.others) == 0, "ServerHeader", p.Pos, "the response isn't the handler's, or an empty one if it gave none, with a server header added (path: %s)", p.describe(c))
		if v == nil {
			return
		}
		if s, is := v.isStr(); is && s == "indigo" {
			m.n["server:default"]++
			empty := false
			for _, t := range p.termsOf(func(t *Term) bool { return t.op == OCall && t.name == "strings.Join" && t.args[0] == a[0] }) {
				empty = empty || p.must(mkIntEq(mkLen(t), tZeroInt))
			}
			c.ob(empty || p.must(mkIntEq(mkLen(a[0]), tZeroInt)), "ServerHeader:default", p.Pos, "the header given isn't used")
			return
		}
		m.n["server:custom"]++
		sep, is := v, false
		if v.op == OCall && v.name == "strings.Join" {
			sep = v.args[1]
			_, is = sep.isStr()
		}
		c.ob(is && v.args[0] == a[0] && sep == mkStr(" ") && p.mustNot(mkIntEq(mkLen(v), tZeroInt)), "ServerHeader:custom", p.Pos, "the header isn't what was given, separated by spaces, or is empty (path: %s)", p.describe(c))
	})
	for _, x := range []string{"redirect", "redirect:others", "server:default", "server:custom"} {
		c.ob(m.n[x] > 0, "cases:"+x, 0, "no path for %s", x)
	}
	m.https()
	m.logs()
	m.recovers()
	m.alias()
}

// kept: the next handler is called once; its response, or a cleared one if it is nil, is returned.
func (m *mwRule) kept(p *Path, next, req *Term) (answer, bool) {
	ans := m.answer(p, p.Results[0])
	ns := nexts(p, next)
	if len(ns) != 1 || len(ns[0].Args) != 1 || ns[0].Args[0] != req {
		return ans, false
	}
	isNil := mkEq(ns[0].Res[0], tNil)
	if ans.root == ns[0].Res[0] {
		n := 0
		for _, ev := range p.S.events {
			if ev.Kind == EvCall && ev.Fn == m.respond {
				n++
			}
		}
		return ans, n == 0 && p.mustNot(isNil)
	}
	late := true
	for _, ev := range p.S.events {
		if ev.Kind == EvCall && ev.Fn == m.respond {
			late = late && ev.idx > ns[0].idx
		}
	}
	return ans, late && p.must(isNil) && m.cleared(p, ans.root, req)
}

func (m *mwRule) https() {
	c := m.Ctx
	plain, ok := c.constOf("http/encryption", "Plain")
	if !ok {
		return
	}
	n := map[string]int{}
	m.each(m.pkg, "HTTPSOnly", func(p *Path, a, in []*Term) {
		next, req := in[0], in[1]
		m.stores(p)
		env := loadField(p.S, req, "Env", "Encryption")
		is := mkIntEq(env, plain)
		if p.mustNot(is) {
			n["encrypted"]++
			c.ob(passed(p, next, req), "HTTPSOnly:encrypted", p.Pos, "an encrypted request isn't passed on (path: %s)", p.describe(c))
			return
		}
		ans := m.answer(p, p.Results[0])
		if !c.ob(p.must(is) && len(nexts(p, next)) == 0 && m.cleared(p, ans.root, req), "HTTPSOnly:plain", p.Pos, "an unencrypted request reaches the handler (path: %s)", p.describe(c)) {
			return
		}
		// what was configured
		to, port := mkStr(""), mkStr("")
		if p.mustNot(mkIntEq(mkLen(a[0]), tZeroInt)) {
			pt := a[0].typ.Underlying().(*types.Slice).Elem()
			first := p.S.load(mkIndexAddr(a[0], tZeroInt, pt), pt)
			el := func(name string) *Term { return p.structField(first, pt, name) }
			to, port = el("RedirectTo"), el("Port")
		} else if !c.ob(p.must(mkIntEq(mkLen(a[0]), tZeroInt)), "HTTPSOnly:params", p.Pos, "the parameters aren't looked at") {
			return
		}
		host := to
		if p.must(mkIntEq(mkLen(to), tZeroInt)) {
			host = nil
		} else if !c.ob(p.mustNot(mkIntEq(mkLen(to), tZeroInt)), "HTTPSOnly:target", p.Pos, "the host to redirect to isn't looked at (path: %s)", p.describe(c)) {
			return
		}
		m.location(p, ans, req, host, port, n)
	})
	for _, k := range []string{"encrypted", "no-host", "from-header", "custom", "alias", "path"} {
		c.ob(n[k] > 0, "cases:https:"+k, 0, "no path for %s", k)
	}
}

// location: the request is redirected to the same path of the encrypted host, or refused if there is
// none.
func (m *mwRule) location(p *Path, ans answer, req, host, port *Term, n map[string]int) {
	c := m.Ctx
	if host == nil {
		// from the header, up to its port
		var hv *Term
		for _, ev := range p.S.events {
			if ev.Kind == EvCall && strings.HasSuffix(ev.Name, "Storage).Value") && fieldOf(ev.Args[0], req, "Headers") {
				if k, is := p.S.F.canon(ev.Args[1]).isStr(); is && strings.EqualFold(k, "host") {
					hv = ev.Res[0]
				}
			}
		}
		if !c.ob(hv != nil, "HTTPSOnly:host", p.Pos, "the request's host isn't looked at (path: %s)", p.describe(c)) {
			return
		}
		host = hv
		for _, t := range p.termsOf(func(t *Term) bool {
			return t.op == OCall && t.name == "indexByte" && t.args[0] == hv && t.args[1] == mkInt(':')
		}) {
			if p.must(mkLe(tZeroInt, t)) {
				host = mkSliceT(hv, tZeroInt, t)
			}
		}
		if !c.ob(p.upTo(host, hv, tZeroInt, ':'), "HTTPSOnly:port", p.Pos, "the port isn't taken off the host (path: %s)", p.describe(c)) {
			return
		}
		if p.must(mkIntEq(mkLen(host), tZeroInt)) {
			n["no-host"]++
			c.ob(m.hasCode(p, ans, "BadRequest") && len(ans.headers) == 0, "HTTPSOnly:no-host", p.Pos, "a request without a host isn't refused as a bad one (path: %s)", p.describe(c))
			return
		}
		n["from-header"]++
		c.ob(p.mustNot(mkIntEq(mkLen(host), tZeroInt)), "HTTPSOnly:no-host", p.Pos, "a request without a host is redirected (path: %s)", p.describe(c))
	} else {
		n["custom"]++
	}
	loc := m.headerOf(p, ans, "Location")
	if !c.ob(loc != nil && m.hasCode(p, ans, "MovedPermanently"), "HTTPSOnly:redirect", p.Pos, "an unencrypted request isn't answered by a permanent redirect (path: %s)", p.describe(c)) {
		return
	}
	// the path is escaped
	alias, path := loadField(p.S, req, "Env", "AliasFrom"), fieldAt(p, req, "Path")
	var esc *Term
	what := ""
	for _, ev := range p.S.events {
		if ev.Kind == EvCall && strings.HasSuffix(ev.Name, "net/url.URL).EscapedPath") {
			u := p.S.F.canon(loadField(p.S, ev.Args[0], "Path"))
			esc = ev.Res[0]
			switch {
			case p.equal(u, alias):
				what = "alias"
			case p.equal(u, path):
				what = "path"
			}
		}
	}
	none := mkIntEq(mkLen(alias), tZeroInt)
	c.ob(what == "alias" && p.mustNot(none) || what == "path" && p.must(none), "HTTPSOnly:path", p.Pos, "the redirect isn't to the path that was requested, escaped (path: %s)", p.describe(c))
	n[what]++
	if esc == nil {
		return
	}
	empty := p.must(mkIntEq(mkLen(port), tZeroInt))
	want := []*Term{mkConcat(mkStr("https://"), host, mkStr(":"), port, esc)}
	if empty {
		want = append(want, mkConcat(mkStr("https://"), host, mkStr(":"), esc), mkConcat(mkStr("https://"), host, esc))
	}
	got := false
	for _, w := range want {
		got = got || p.equal(loc, w)
	}
	c.ob(got, "HTTPSOnly:location", p.Pos, "the redirect isn't to the encrypted host and port: %s (path: %s)", loc, p.describe(c))
}

// logged: an iteration hands exactly its logger a line without unescaped parts of the path.
func (m *mwRule) logged(q *Path, from int, base, at, req *Term) {
	c := m.Ctx
	n := 0
	for _, ev := range q.S.events[from:] {
		if ev.Kind != EvCall || !strings.HasSuffix(ev.Name, "ogger).Printf") {
			continue
		}
		n++
		if base != nil {
			b, i, _ := partOf(q.S.F.canon(ev.Args[0]))
			c.ob(b == base && q.equal(i, at), m.cur+":logger", ev.Pos, "a line isn't for the logger whose turn it is (path: %s)", q.describe(c))
		}
		m.line(q, ev, req)
	}
	c.ob(n == 1, m.cur+":each", q.Pos, "a logger is told %d times (path: %s)", n, q.describe(c))
}

func (m *mwRule) line(q *Path, ev *Event, req *Term) {
	c := m.Ctx
	path := fieldAt(q, req, "Path")
	esc, raw := false, false
	vals := q.S.F.canon(q.S.seqContent(ev.Args[2]))
	for _, x := range vals.args {
		x = unwrapIface(q.S.F.canon(x))
		for _, e := range q.S.events {
			if e.Kind == EvCall && e.Fn == m.escape && len(e.Res) > 0 && e.Res[0] == x {
				esc = esc || q.equal(e.Args[0], path)
			}
		}
		raw = raw || q.equal(x, path)
	}
	c.ob(vals.op == OElems && esc && !raw, m.cur+":escaped", ev.Pos, "the path is logged as it is, or not at all (path: %s)", q.describe(c))
}

func (m *mwRule) logs() {
	c := m.Ctx
	all := func(p *Path, loggers, req *Term) {
		// none given: the standard one
		msg := "no logger is told"
		for _, r := range p.S.loopSeq {
			for _, v := range append([]*Term{loggers}, m.sources(r)...) {
				if v != loggers && !(p.must(mkIntEq(mkLen(loggers), tZeroInt)) && m.isDefault(p, v, loggers)) {
					continue
				}
				msg = p.walk(r, v, func(q *Path, base, at *Term) { m.logged(q, r.NEv, base, at, req) })
				if msg == "" {
					break
				}
			}
			if msg == "" {
				break
			}
		}
		if len(p.S.loopSeq) == 0 && p.must(mkIntEq(mkLen(loggers), tZeroInt)) {
			msg = ""
			m.logged(p, 0, nil, nil, req)
		}
		c.ob(msg == "", m.cur+":all", p.Pos, "not every logger is told: %s (path: %s)", msg, p.describe(c))
	}
	n := 0
	closed, ok := c.constOf("http/status", "CloseConnection")
	if !ok {
		return
	}
	m.each(m.pkg, "LogRequests", func(p *Path, a, in []*Term) {
		m.stores(p)
		ans, ok := m.kept(p, in[0], in[1])
		c.ob(ok && len(ans.codes)+len(ans.headers)+len(ans.others) == 0, "LogRequests:response", p.Pos, "the response isn't the handler's, or an empty one if it gave none (path: %s)", p.describe(c))
		for _, ev := range p.S.events {
			if ev.Kind == EvCall && ev.Fn == m.reveal {
				if x := loadField(p.S, ev.Res[0], "Code"); x != nil && p.must(mkIntEq(x, closed)) {
					n++
					return
				}
			}
		}
		all(p, a[0], in[1])
	})
	c.ob(n > 0, "LogRequests:closed", 0, "no path for closed connections")
	m.each("router/inbuilt/mutator", "RequestsLog", func(p *Path, a, in []*Term) {
		m.stores(p)
		all(p, a[0], in[0])
	})
}

// sources: what a loop's iterations take loggers from.
func (m *mwRule) sources(r *LoopRec) (out []*Term) {
	for _, q := range r.Backs {
		for _, ev := range q.S.events[r.NEv:] {
			if ev.Kind == EvCall && strings.HasSuffix(ev.Name, "ogger).Printf") {
				if b, _, _ := partOf(q.S.F.canon(ev.Args[0])); b != nil {
					out = append(out, b)
				}
			}
		}
	}
	return
}

func (m *mwRule) isDefault(p *Path, v, loggers *Term) bool {
	v = p.S.F.canon(v)
	if v.op == OConcat && len(v.args) == 2 && v.args[0] == loggers {
		v = v.args[1]
	}
	if v.op == OSlice {
		v = p.S.F.canon(p.S.seqContent(v))
	}
	return v.op == OElems && len(v.args) == 1 && strings.Contains(unwrapIface(v.args[0]).String(), "log.Default")
}

func (m *mwRule) recovers() {
	c := m.Ctx
	fn := c.fn(m.pkg, "Recover")
	if fn == nil {
		return
	}
	m.cur = "Recover"
	next, req := paramSym(fn.Params[0]), paramSym(fn.Params[1])
	n := map[string]int{}
	ps := c.run(m.eng(), nil, fn, []*Term{next, req})
	c.show(ps)
	for _, p := range ps {
		if p.Kind != PReturn {
			continue
		}
		ns := nexts(p, next)
		var rec *Event
		guarded := false
		for _, ev := range p.S.events {
			switch {
			case ev.Kind == EvDefer:
				guarded = guarded || len(ns) == 1 && ev.idx < ns[0].idx
			case ev.Kind == EvCall && ev.Name == "recover":
				rec = ev
			}
		}
		if !c.ob(len(ns) == 1 && len(ns[0].Args) == 1 && ns[0].Args[0] == req && guarded && rec != nil, "Recover:guarded", p.Pos, "a panic of the handler isn't caught (path: %s)", p.describe(c)) {
			continue
		}
		if p.must(mkEq(rec.Res[0], tNil)) {
			n["fine"]++
			c.ob(p.equal(p.Results[0], ns[0].Res[0]), "Recover:fine", p.Pos, "the handler's response isn't returned (path: %s)", p.describe(c))
			continue
		}
		n["caught"]++
		ans := m.answer(p, p.Results[0])
		c.ob(m.cleared(p, ans.root, req) && m.hasCode(p, ans, "InternalServerError") && len(ans.headers)+len(ans.others) == 0, "Recover:caught", p.Pos, "a panic isn't answered as an internal error (path: %s)", p.describe(c))
	}
	c.ob(n["fine"] > 0 && n["caught"] > 0, "cases:Recover", fn.Pos(), "panics aren't told apart")
}

func (m *mwRule) alias() {
	c := m.Ctx
	n := map[string]int{}
	m.each("router/inbuilt/mutator", "Alias", func(p *Path, a, in []*Term) {
		req := in[0]
		m.stores(p, "Path", "AliasFrom")
		old := mkLoadOfTyped(addrOf(req, "Path"), types.Typ[types.String])
		oldA := mkLoadOfTyped(addrOf(req, "Env", "AliasFrom"), types.Typ[types.String])
		path, from := p.S.F.canon(loadField(p.S, req, "Path")), p.S.F.canon(loadField(p.S, req, "Env", "AliasFrom"))
		is := mkEq(old, a[0])
		if p.mustNot(is) {
			n["others"]++
			c.ob(p.equal(path, old) && p.equal(from, oldA), "Alias:others", p.Pos, "another path is changed (path: %s)", p.describe(c))
			return
		}
		n["alias"]++
		c.ob(p.must(is) && p.equal(path, a[1]) && p.equal(from, a[0]), "Alias:replaced", p.Pos, "the path isn't replaced by the target and remembered (path: %s)", p.describe(c))
	})
	c.ob(n["others"] > 0 && n["alias"] > 0, "cases:Alias", 0, "aliases aren't told from other paths")
	// registration
	fn, mk := c.fn("router/inbuilt", "Router.Alias"), c.fn("router/inbuilt/mutator", "Alias")
	rt := c.P.typeOf("router/inbuilt", "Router")
	if fn == nil || mk == nil || rt == nil {
		return
	}
	e := c.engine()
	e.Opaque = opaqueSet(mk)
	e.NoHavoc = func(string) bool { return true }
	self := paramSym(fn.Params[0])
	mut := c.theField(rt, "mutators", func(t types.Type) bool {
		sl, ok := t.Underlying().(*types.Slice)
		return ok && strings.HasSuffix(sl.Elem().String(), "Mutator")
	})
	okk := 0
	ps := c.run(e, nil, fn, []*Term{self, paramSym(fn.Params[1]), paramSym(fn.Params[2])})
	c.show(ps)
	for _, p := range ps {
		if p.Kind != PReturn {
			continue
		}
		var made, joined *Term
		for _, ev := range p.S.events {
			switch {
			case ev.Kind == EvStore && !localRoot(ev.Addr):
				c.ob(ev.Addr.op == OFieldAddr && ev.Addr.args[0] == self && ev.Addr.name == mut, "alias:only", ev.Pos, "registering an alias changes %s", ev.Addr)
			case ev.Kind == EvCall && ev.Name == "path.Join":
				joined = nil
				if vs := p.S.F.canon(p.S.seqContent(ev.Args[0])); vs.op == OElems && len(vs.args) == 2 && fieldOf(vs.args[0], self, "prefix") && vs.args[1] == paramSym(fn.Params[1]) {
					joined = ev.Res[0]
				}
			case ev.Kind == EvCall && ev.Fn == mk:
				if joined != nil && ev.Args[0] == joined && ev.Args[1] == paramSym(fn.Params[2]) {
					made = ev.Res[0]
				}
			}
		}
		old := mkLoadOfTyped(addrOf(self, mut), fieldType(rt, mut))
		got := p.S.F.canon(loadField(p.S, self, mut))
		good := made != nil && got.op == OConcat && len(got.args) == 2 && got.args[0] == old && got.args[1].op == OElems && len(got.args[1].args) == 1 && stripConv(got.args[1].args[0]) == made
		okk++
		c.ob(good && p.Results[0] == self, "alias:registered", p.Pos, "an alias of a group's path isn't put behind the mutators of its router (path: %s)", p.describe(c))
	}
	c.ob(okk > 0, "alias:cases", fn.Pos(), "aliases are never registered")
	add := c.fn("router/inbuilt", "Router.Mutator")
	if add == nil {
		return
	}
	self = paramSym(add.Params[0])
	for _, p := range c.run(c.engine(), nil, add, []*Term{self, paramSym(add.Params[1])}) {
		if p.Kind != PReturn {
			continue
		}
		old := mkLoadOfTyped(addrOf(self, mut), fieldType(rt, mut))
		got := p.S.F.canon(loadField(p.S, self, mut))
		good := got.op == OConcat && len(got.args) == 2 && got.args[0] == old && got.args[1].op == OElems && len(got.args[1].args) == 1 && stripConv(got.args[1].args[0]) == paramSym(add.Params[1])
		c.ob(good && p.Results[0] == self, "mutator:registered", p.Pos, "a mutator isn't put behind those of its router (path: %s)", p.describe(c))
	}
}

// escaped: what a byte that isn't printable is replaced by.
func escaped(b int) byte {
	switch b {
	case 0:
		return '0'
	case 7, 8, 9, 10, 11, 12, 13:
		return "abtnvfr"[b-7]
	}
	return '?'
}

func ruleC44(c *Ctx) {
	fn := c.fn("http", "Escape")
	if fn == nil {
		return
	}
	src := paramSym(fn.Params[0])
	e := c.engine()
	e.Bounds = true
	ps := c.run(e, nil, fn, []*Term{src})
	c.boundsOf(e)
	c.show(ps)
	n := 0
	for _, p := range ps {
		for _, ev := range p.S.events {
			c.ob(ev.Kind != EvStore || localRoot(ev.Addr), "pure", ev.Pos, "escaping changes %s", ev.Addr)
		}
		if p.Kind != PReturn {
			continue
		}
		n++
		r := p.S.F.canon(p.Results[0])
		if p.must(mkIntEq(mkLen(src), tZeroInt)) && (p.equal(r, src) || p.must(mkIntEq(mkLen(r), tZeroInt))) {
			continue
		}
		msg := "the path isn't walked"
		for _, rec := range p.S.loopSeq {
			if msg = c.escapes(p, rec, src, r); msg == "" {
				break
			}
		}
		c.ob(msg == "", "escaped", p.Pos, "%s (path: %s)", msg, p.describe(c))
	}
	c.ob(n > 0, "cases", fn.Pos(), "Escape never returns")
}

// escapes: a loop that collects every byte of src, escaped if need be; what isn't collected yet is
// the part of src from some offset on.
func (c *Ctx) escapes(p *Path, rec *LoopRec, src, r *Term) string {
	flat := func(q *Path, t *Term) (out []*Term) {
		t = q.S.F.canon(t)
		args := []*Term{t}
		if t.op == OConcat {
			args = t.args
		}
		for _, a := range args {
			if a.op == OConv {
				a = a.args[0]
			}
			if q.must(mkIntEq(mkLen(a), tZeroInt)) {
				continue
			}
			out = append(out, a)
		}
		return
	}
	same := func(q *Path, got []*Term, want ...*Term) bool {
		var w []*Term
		for _, x := range want {
			if !q.must(mkIntEq(mkLen(x), tZeroInt)) {
				w = append(w, x)
			}
		}
		if len(w) != len(got) {
			return false
		}
		for i := range w {
			if !q.equal(w[i], got[i]) {
				return false
			}
		}
		return true
	}
	best := "nothing is collected"
	for _, acc := range rec.Vars {
		if isNumTerm(acc.Cur) || !p.must(mkIntEq(mkLen(acc.Entry), tZeroInt)) {
			continue
		}
		for k := -1; k < len(rec.Vars); k++ {
			if k >= 0 && (!isNumTerm(rec.Vars[k].Cur) || rec.Vars[k].Entry != tZeroInt) {
				continue
			}
			var end *Term
			bad := p.walk(rec, src, func(q *Path, base, at *Term) {
				end = at
			})
			if bad != "" {
				best = bad
				continue
			}
			bad = ""
			p.walk(rec, src, func(q *Path, base, at *Term) {
				off, noff := at, mkAddC(at, 1)
				if k >= 0 {
					off, noff = rec.Vars[k].Cur, q.Next[rec.Vars[k].Name]
				}
				nx := q.Next[acc.Name]
				if nx == nil || noff == nil {
					bad = "the end of an iteration isn't known"
					return
				}
				next := at
				x := mkElem(base, next, byteType)
				got := flat(q, nx)
				if len(got) > 0 && got[0] == acc.Cur {
					got = got[1:]
				} else if !q.must(mkIntEq(mkLen(acc.Cur), tZeroInt)) {
					bad = "what was collected is lost"
					return
				}
				var print, not []int
				for b := 0; b < 256; b++ {
					if q.S.F.foldRefuted(map[*Term]int64{x: int64(b)}) {
						continue
					}
					if b >= 0x20 && b < 0x7f {
						print = append(print, b)
					} else {
						not = append(not, b)
					}
				}
				switch {
				case len(print) > 0 && len(not) > 0:
					bad = "printable bytes are treated as others"
				case len(print) > 0:
					one := mkSliceT(base, next, mkAddC(next, 1))
					keep := len(got) == 0 && q.equal(noff, off) && k >= 0
					flush := q.equal(noff, mkAddC(next, 1)) && (same(q, got, mkSliceT(base, off, mkAddC(next, 1))) || same(q, got, mkSliceT(base, off, next), one) || same(q, got, mkSliceT(base, off, next), mk(Term{op: OElems, args: []*Term{x}, typ: got0(got)})))
					if !keep && !flush {
						bad = "a printable byte isn't kept as it is"
					}
				case len(not) > 0:
					seq := len(got)
					for seq > 0 && (got[seq-1].op == OElems || got[seq-1].op == OConst) {
						seq--
					}
					if !q.equal(noff, mkAddC(next, 1)) || !same(q, got[:seq], mkSliceT(base, off, next)) {
						bad = "what is in front of an escaped byte isn't collected"
						return
					}
					for _, b := range not {
						if !image(got[seq:], x, b) {
							bad = "a byte that isn't printable is not replaced by its escape sequence"
						}
					}
				}
			})
			if bad != "" {
				best = bad
				continue
			}
			off := end
			if k >= 0 {
				off = rec.Vars[k].Cur
			}
			if end == nil {
				best = "the loop has no iteration"
				continue
			}
			got := flat(p, r)
			if (p.must(mkIntEq(mkLen(acc.Cur), tZeroInt)) || k >= 0 && p.must(mkIntEq(off, tZeroInt))) && p.equal(r, src) {
				// nothing was replaced
				return ""
			}
			if len(got) > 0 && got[0] == acc.Cur {
				got = got[1:]
			} else if !p.must(mkIntEq(mkLen(acc.Cur), tZeroInt)) {
				best = "what was collected isn't returned"
				continue
			}
			if k < 0 && len(got) == 0 || k >= 0 && same(p, got, mkSliceT(src, off, nil)) {
				return ""
			}
			best = "the rest isn't returned"
		}
	}
	return best
}

func got0(got []*Term) types.Type {
	if len(got) > 0 {
		return got[len(got)-1].typ
	}
	return nil
}

// image: what is collected is the escape sequence of a byte.
func image(ts []*Term, x *Term, b int) bool {
	var out []byte
	for _, t := range ts {
		if s, ok := t.isStr(); ok {
			out = append(out, s...)
			continue
		}
		for _, a := range t.args {
			v, ok := foldInt(a, map[*Term]int64{x: int64(b)})
			if !ok {
				return false
			}
			out = append(out, byte(v))
		}
	}
	return string(out) == string([]byte{'\\', escaped(b)})
}

func (m *mwRule) chain() bool {
	get := func(n string) *ssa.Function { return m.fn("http", n) }
	m.respond, m.code, m.header = get("Request.Respond"), get("Response.Code"), get("Response.Header")
	m.str, m.errM, m.body = get("Response.String"), get("Response.Error"), get("Response.Bytes")
	for _, f := range []*ssa.Function{m.respond, m.code, m.header, m.str, m.errM, m.body} {
		if f == nil {
			return false
		}
	}
	return true
}

func ruleC45(c *Ctx) {
	m := &mwRule{Ctx: c, n: map[string]int{}}
	if !m.chain() {
		return
	}
	// errors nobody handles
	mk := c.fn("router/inbuilt", "New")
	allErr, ok1 := c.constOf("router/inbuilt", "AllErrors")
	na, ok2 := c.constOf("http/status", "MethodNotAllowed")
	notAllowed := c.global("http/status", "ErrMethodNotAllowed")
	if mk != nil && ok1 && ok2 && notAllowed != nil {
		seen := map[string]int{}
		ps := c.run(c.engine(), nil, mk, nil)
		c.show(ps)
		for _, p := range ps {
			if p.Kind != PReturn {
				continue
			}
			for _, ev := range p.S.events {
				if ev.Kind != EvMapUpdate || len(ev.Args) != 3 {
					continue
				}
				v := stripConv(p.S.F.canon(ev.Args[2]))
				h, _ := v.obj.(*ssa.Function)
				if h == nil || len(h.Params) != 1 {
					continue
				}
				req := paramSym(h.Params[0])
				s := p.S.clone()
				s.events = nil
				var binds []*Term
				if v.op == OClosure {
					binds = v.args
				}
				for _, q := range m.eng().RunClosure(s, h, []*Term{req}, binds) {
					c.paths++
					if q.Kind != PReturn {
						continue
					}
					m.cur = "default"
					m.stores(q)
					ans := m.answer(q, q.Results[0])
					good := m.cleared(q, ans.root, req) && len(ans.codes) == 1 && ans.codes[0].Fn == m.errM && len(ans.others) == 0
					if good {
						// the codes given along are only for errors without one of their own
						cs := q.S.F.canon(q.S.seqContent(ans.codes[0].Args[2]))
						good = cs.op == ONil || q.must(mkIntEq(mkLen(cs), tZeroInt))
					}
					switch k := p.S.F.canon(ev.Args[1]); {
					case p.equal(k, allErr):
						seen["all"]++
						okk := good && len(ans.headers) == 0 && q.equal(ans.codes[0].Args[1], loadField(q.S, req, "Env", "Error"))
						c.ob(okk, "default:errors", q.Pos, "an error nobody handles isn't answered by the error itself (path: %s)", q.describe(c))
					case p.equal(k, na):
						seen["405"]++
						h := m.headerOf(q, ans, "Allow")
						okk := good && q.S.F.canon(ans.codes[0].Args[1]) == notAllowed && h != nil && q.equal(h, loadField(q.S, req, "Env", "AllowedMethods"))
						c.ob(okk, "default:allow", q.Pos, "a method that isn't allowed isn't answered as such with the methods that are (path: %s)", q.describe(c))
					default:
						c.fail("default:others", ev.Pos, "the error %s has a handler from the start", k)
					}
				}
			}
		}
		c.ob(seen["all"] > 0 && seen["405"] > 0, "default:registered", mk.Pos(), "a new router has no handlers for errors nobody handles")
	}
	// the simple router
	const pkg = "router/simple"
	New, init, onReq, onErr := c.fn(pkg, "New"), c.fn(pkg, "Router.Initialize"), c.fn(pkg, "Router.OnRequest"), c.fn(pkg, "Router.OnError")
	rt := c.P.typeOf(pkg, "Router")
	if New == nil || init == nil || onReq == nil || onErr == nil || rt == nil {
		return
	}
	e := m.eng()
	n := 0
	for _, p := range c.run(e, nil, New, []*Term{paramSym(New.Params[0]), paramSym(New.Params[1])}) {
		if p.Kind != PReturn {
			continue
		}
		r := p.S.load(p.S.F.canon(p.Results[0]), rt)
		for _, q := range c.run(m.eng(), p.S.clone(), init, []*Term{r}) {
			if q.Kind != PReturn {
				continue
			}
			v := unwrapIface(q.S.F.canon(q.Results[0]))
			if !c.ob(v == r || q.equal(v, r), "simple:initialised", q.Pos, "a router isn't itself any more once it is initialised") {
				continue
			}
			for i, fn := range []*ssa.Function{onReq, onErr} {
				var args []*Term
				for _, a := range fn.Params {
					args = append(args, paramSym(a))
				}
				args[0] = v
				s := q.S.clone()
				s.events = nil
				for _, x := range c.run(m.eng(), s, fn, args) {
					if x.Kind != PReturn {
						continue
					}
					n++
					m.cur = fn.Name()
					if i == 0 {
						m.stores(x)
					} else {
						m.stores(x, "Error")
					}
					ns := nexts(x, paramSym(New.Params[i]))
					ok := passed(x, paramSym(New.Params[i]), args[1]) && len(nexts(x, paramSym(New.Params[1-i]))) == 0
					if i == 1 && ok {
						set := false
						for _, ev := range x.S.events {
							if ev.Kind == EvStore && ev.Addr.op == OFieldAddr && ev.Addr.name == "Error" && addrRoot(ev.Addr) == args[1] && ev.idx < ns[0].idx {
								set = x.same(ev.Val, args[2])
							}
						}
						ok = set
					}
					c.ob(ok, "simple:"+fn.Name(), x.Pos, "%s doesn't hand the request, or the error with it, to its handler and return its response (path: %s)", fn.Name(), x.describe(c))
				}
			}
		}
	}
	c.ob(n >= 2, "simple:cases", New.Pos(), "the simple router serves nothing")
}

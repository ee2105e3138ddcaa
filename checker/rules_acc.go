package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C41", "All paths of reading cookies and JSON from a request and of taking its connection over.", 20, ruleC41)
	register("C42", "All paths of every step a cookie is built by, composed with what comes out in the end.", 50, ruleC42)
	register("C40", "All paths of every accessor of a header's value and parameters.", 12, ruleC40)
}

// upTo: x is all of str from lo up to the first semicolon behind it, or all of the rest if there
// is none.
func (p *Path) upTo(x, str, lo *Term, stop byte) bool {
	x = p.S.F.canon(x)
	base, l, h := seqParts(x)
	b0, l0, h0 := seqParts(str)
	if base != b0 {
		// nothing is left of it
		return p.must(mkIntEq(mkLen(x), tZeroInt)) && p.must(mkIntEq(mkAdd(l0, lo), h0))
	}
	if !p.equal(l, mkAdd(l0, lo)) || !p.S.F.segAll(base, l, h, maskOf(stop).not()) {
		return false
	}
	return p.equal(h, h0) || p.must(mkLt(h, h0)) && p.must(mkIntEq(mkElem(base, h, byteType), mkInt(int64(stop))))
}

// param: r is the parameter's value behind pat in str, or what or says if there is none.
func (c *Ctx) param(p *Path, what string, r, str, pat *Term, or func(*Term) bool, n map[string]int) {
	idx := mkCallT("index", types.Typ[types.Int], str, pat)
	switch none := mkIntEq(idx, mkInt(-1)); {
	case p.must(none):
		n[what+":none"]++
		c.ob(or(r), what+":default", p.Pos, "without the parameter, %s returns something else than the default (path: %s)", what, p.describe(c))
	case p.must(mkLe(tZeroInt, idx)):
		n[what+":found"]++
		c.ob(p.upTo(r, str, mkAdd(idx, mkLen(pat)), ';'), what+":value", p.Pos, "%s doesn't return exactly what is between the parameter's equals sign and the next semicolon or the end (path: %s)", what, p.describe(c))
	default:
		c.fail(what+":search", p.Pos, "%s decides without looking for the parameter (path: %s)", what, p.describe(c))
	}
}

func ruleC40(c *Ctx) {
	const pkg = "http/headers"
	get := func(n string) *ssa.Function { return c.fn(pkg, n) }
	val, qual, char, par, parOr := get("ValueOf"), get("QualityOf"), get("CharsetOf"), get("ParamOf"), get("ParamOfOr")
	if val == nil || qual == nil || char == nil || par == nil || parOr == nil {
		return
	}
	n := map[string]int{}
	paths := func(fn *ssa.Function) []*Path {
		e := c.engine()
		e.Bounds = true
		var args []*Term
		for _, q := range fn.Params {
			args = append(args, paramSym(q))
		}
		ps := c.run(e, nil, fn, args)
		c.show(ps)
		c.boundsOf(e)
		var out []*Path
		for _, p := range ps {
			for _, ev := range p.S.events {
				c.ob(ev.Kind != EvStore, fn.Name()+":pure", ev.Pos, "%s changes %s", fn.Name(), ev.Addr)
			}
			if p.Kind == PReturn {
				out = append(out, p)
			}
		}
		c.ob(len(out) > 0, fn.Name()+":cases", fn.Pos(), "%s never returns", fn.Name())
		return out
	}
	for _, p := range paths(val) {
		c.ob(p.upTo(p.Results[0], paramSym(val.Params[0]), tZeroInt, ';'), "ValueOf", p.Pos, "the value isn't everything in front of the first semicolon (path: %s)", p.describe(c))
	}
	for _, p := range paths(parOr) {
		a := parOr.Params
		str, key, or := paramSym(a[0]), paramSym(a[1]), paramSym(a[2])
		c.param(p, "ParamOfOr", p.Results[0], str, mkConcat(mkStr(";"), key, mkStr("=")), func(r *Term) bool { return p.equal(r, or) }, n)
	}
	for _, p := range paths(par) {
		str, key := paramSym(par.Params[0]), paramSym(par.Params[1])
		c.param(p, "ParamOf", p.Results[0], str, mkConcat(mkStr(";"), key, mkStr("=")), func(r *Term) bool { return p.must(mkIntEq(mkLen(r), tZeroInt)) }, n)
	}
	for _, p := range paths(char) {
		c.param(p, "CharsetOf", p.Results[0], paramSym(char.Params[0]), mkStr(";charset="), func(r *Term) bool { return p.S.F.canon(r) == mkStr("iso-8859-1") }, n)
	}
	pat := mkStr(";q=0.")
	for _, p := range paths(qual) {
		r, str := p.S.F.canon(p.Results[0]), paramSym(qual.Params[0])
		idx := mkCallT("index", types.Typ[types.Int], str, pat)
		if p.must(mkIntEq(idx, mkInt(-1))) {
			n["QualityOf:none"]++
			ok := p.equal(r, mkInt(9))
			for _, ev := range p.S.events {
				// the default written down as a number
				if ev.Kind == EvCall && strings.HasPrefix(ev.Name, "strconv.") && r == ev.Res[0] && p.S.F.canon(ev.Args[0]) == mkStr("9") {
					ok = true
				}
			}
			c.ob(ok, "QualityOf:default", p.Pos, "without a quality, something else than 9 is returned (path: %s)", p.describe(c))
			continue
		}
		var num *Event
		for _, ev := range p.S.events {
			if ev.Kind == EvCall && ev.Name == "strconv.Atoi" {
				num = ev
			}
		}
		if !c.ob(num != nil && p.must(mkLe(tZeroInt, idx)), "QualityOf:search", p.Pos, "the quality isn't looked for, or isn't converted (path: %s)", p.describe(c)) {
			continue
		}
		c.ob(p.upTo(num.Args[0], str, mkAdd(idx, mkLen(pat)), ';'), "QualityOf:value", p.Pos, "the quality isn't what is between its point and the next semicolon or the end (path: %s)", p.describe(c))
		if p.must(mkEq(num.Res[1], tNil)) {
			n["QualityOf:found"]++
			c.ob(r == num.Res[0], "QualityOf:number", p.Pos, "the quality isn't returned")
		} else {
			n["QualityOf:malformed"]++
			c.ob(p.mustNot(mkEq(num.Res[1], tNil)) && p.equal(r, mkInt(9)), "QualityOf:malformed", p.Pos, "a malformed quality isn't taken as 9 (path: %s)", p.describe(c))
		}
	}
	for _, k := range []string{"ParamOfOr:none", "ParamOfOr:found", "ParamOf:none", "ParamOf:found", "CharsetOf:none", "CharsetOf:found", "QualityOf:none", "QualityOf:found", "QualityOf:malformed"} {
		c.ob(n[k] > 0, "cases:"+k, parOr.Pos(), "no path for %s", k)
	}
}

func ruleC41(c *Ctx) {
	get := func(n string) *ssa.Function { return c.fn("http", n) }
	cookies, js, hijack, was, ident := get("Request.Cookies"), get("Request.JSON"), get("Request.Hijack"), get("Request.WasHijacked"), get("Encoding.Identity")
	parse, clear, values := c.fn("http/cookie", "Parse"), c.fn("internal/keyvalue", "Storage.Clear"), c.fn("internal/keyvalue", "Storage.Values")
	mk1, mk2 := c.fn("internal/keyvalue", "NewPreAlloc"), c.fn("internal/keyvalue", "New")
	reqT, storT := c.P.typeOf("http", "Request"), c.P.typeOf("internal/keyvalue", "Storage")
	bad, jsonT := c.global("http/status", "ErrUnsupportedMediaType"), mkStr("application/json")
	for _, f := range []*ssa.Function{cookies, js, hijack, was, ident, parse, clear, values, mk1, mk2} {
		if f == nil {
			return
		}
	}
	if reqT == nil || storT == nil || bad == nil || jsonT == nil {
		return
	}
	jarF := ""
	for _, f := range structFields(reqT, func(t types.Type) bool { return types.Identical(t, types.NewPointer(storT)) }) {
		if f[0] >= 'a' && f[0] <= 'z' {
			jarF = f
		}
	}
	n := map[string]int{}
	if !c.ob(jarF != "", "anchor:jar", 0, "requests have no cookie jar") {
		return
	}
	c.cookies(cookies, jarF, parse, clear, values, []*ssa.Function{mk1, mk2}, n)
	// nothing that is read of a new request is missing
	if ctor := get("NewRequest"); ctor != nil {
		e := c.engine()
		e.Opaque = opaqueSet(parse, clear, values, mk1, mk2)
		e.NoHavoc = func(string) bool { return true }
		for _, p := range returns(c.run(e, nil, ctor, nil)) {
			for _, f := range []*ssa.Function{cookies, js, hijack, was} {
				ee := c.engine()
				ee.Opaque, ee.NoHavoc = e.Opaque, e.NoHavoc
				ee.NilChecks, ee.NilOnly = true, true
				args := []*Term{p.Results[0]}
				for _, q := range f.Params[1:] {
					args = append(args, paramSym(q))
				}
				c.run(ee, p.S.clone(), f, args)
				c.boundsOf(ee)
				n["new"]++
			}
		}
		c.ob(n["new"] > 0, "new:reached", ctor.Pos(), "no request is made")
	}

	// JSON
	e := c.engine()
	e.NoHavoc = func(string) bool { return true }
	e.Havoc = func(name string) bool {
		return strings.HasSuffix(name, ").ReadVal") || strings.HasSuffix(name, ").ReturnIterator")
	}
	self, model := paramSym(js.Params[0]), paramSym(js.Params[1])
	ps := c.run(e, nil, js, []*Term{self, model})
	c.show(ps)
	for _, p := range ps {
		for _, ev := range p.S.events {
			c.ob(ev.Kind != EvStore, "json:pure", ev.Pos, "reading JSON changes %s", ev.Addr)
		}
		if p.Kind != PReturn {
			continue
		}
		ct := mkLoadOfTyped(addrOf(self, "ContentType"), fieldType(reqT, "ContentType"))
		none, is := mkIntEq(mkLen(ct), tZeroInt), mkEq(ct, jsonT)
		r := p.S.F.canon(p.Results[0])
		if r == bad {
			n["json:refused"]++
			c.ob(p.mustNot(none) && p.mustNot(is), "json:refused", p.Pos, "a body that may be JSON is refused (path: %s)", p.describe(c))
			continue
		}
		if !c.ob(p.must(none) || p.must(is), "json:type", p.Pos, "a body that is said to be something else than JSON is read as such (path: %s)", p.describe(c)) {
			continue
		}
		var data, derr *Term
		step, okk := 0, true
		for _, ev := range p.S.events {
			if ev.Kind != EvCall {
				continue
			}
			switch {
			case strings.HasSuffix(ev.Name, "http.Body).Bytes"):
				okk = okk && step == 0 && fieldOf(ev.Args[0], self, "Body")
				data, derr = ev.Res[0], ev.Res[1]
				step = 1
			case strings.HasSuffix(ev.Name, ").BorrowIterator"):
				okk = okk && step == 1 && p.same(ev.Args[1], data)
				step = 2
			case strings.HasSuffix(ev.Name, ").ReadVal"):
				okk = okk && step == 2 && unwrapIface(ev.Args[1]) == unwrapIface(model)
				step = 3
			case strings.HasSuffix(ev.Name, "Unmarshal"):
				k := len(ev.Args)
				okk = okk && step == 1 && k >= 2 && p.same(ev.Args[k-2], data) && unwrapIface(ev.Args[k-1]) == unwrapIface(model) && p.equal(r, ev.Res[0])
				step = 4
			case strings.HasSuffix(ev.Name, ").ReturnIterator"):
				okk = okk && step == 3
			}
		}
		if derr != nil && p.mustNot(mkEq(derr, tNil)) {
			n["json:failed"]++
			c.ob(okk && step == 1 && p.equal(r, derr), "json:failed", p.Pos, "a body that can't be read isn't reported as such (path: %s)", p.describe(c))
			continue
		}
		n["json:read"]++
		if step == 3 {
			okk = okk && r.op == OLoad && r.args[0].op == OFieldAddr && r.args[0].name == "Error" && r.n == 1
		}
		c.ob(okk && step >= 3 && derr != nil && p.must(mkEq(derr, tNil)), "json:read", p.Pos, "the model isn't read from the whole body, or the reader's error isn't returned (path: %s)", p.describe(c))
	}

	// taking over
	e = c.engine()
	e.NoHavoc = func(string) bool { return true }
	self = paramSym(hijack.Params[0])
	ps = c.run(e, nil, hijack, []*Term{self})
	c.show(ps)
	flag := ""
	for _, p := range ps {
		if p.Kind != PReturn {
			continue
		}
		var derr *Term
		for _, ev := range p.S.events {
			if ev.Kind == EvCall && strings.HasSuffix(ev.Name, "http.Body).Discard") && fieldOf(ev.Args[0], self, "Body") {
				c.ob(derr == nil, "hijack:once", ev.Pos, "the body is discarded twice")
				derr = ev.Res[0]
			}
		}
		if !c.ob(derr != nil, "hijack:discards", p.Pos, "a connection is handed out with the body still unread (path: %s)", p.describe(c)) {
			continue
		}
		stores := map[string]*Term{}
		for _, ev := range p.S.events {
			if ev.Kind == EvStore {
				ok := ev.Addr.op == OFieldAddr && ev.Addr.args[0] == self
				c.ob(ok, "hijack:only", ev.Pos, "taking a connection over changes %s", ev.Addr)
				if ok {
					stores[ev.Addr.name] = ev.Val
				}
			}
		}
		if p.mustNot(mkEq(derr, tNil)) {
			n["hijack:failed"]++
			c.ob(len(stores) == 0 && p.must(mkEq(p.Results[0], tNil)) && p.equal(p.Results[1], derr), "hijack:failed", p.Pos, "a failure isn't reported, or the connection given away in spite of it (path: %s)", p.describe(c))
			continue
		}
		n["hijack:done"]++
		for f, v := range stores {
			flag = f
			c.ob(p.must(v), "hijack:flag", p.Pos, "%s is set to %s", f, v)
		}
		r := p.S.F.canon(p.Results[0])
		cl := structFields(reqT, func(t types.Type) bool { return types.Identical(t, p.S.F.canon(r).typ) })
		own := false
		for _, f := range cl {
			own = own || fieldOf(r, self, f)
		}
		c.ob(len(stores) == 1 && own && p.must(mkEq(derr, tNil)) && p.must(mkEq(p.Results[1], tNil)), "hijack:done", p.Pos, "the request isn't marked as taken over alone, or its own connection not returned (path: %s)", p.describe(c))
	}
	self = paramSym(was.Params[0])
	for _, p := range c.run(c.engine(), nil, was, []*Term{self}) {
		if p.Kind == PReturn {
			n["hijack:told"]++
			c.ob(p.equal(p.Results[0], p.S.F.canon(loadField(p.S, self, flag))), "hijack:told", p.Pos, "whether a connection was taken over isn't told (path: %s)", p.describe(c))
		}
	}
	enc := paramSym(ident.Params[0])
	for _, p := range c.run(c.engine(), nil, ident, []*Term{enc}) {
		if p.Kind != PReturn {
			continue
		}
		n["identity"]++
		a := mkIntEq(mkLen(p.structField(enc, ident.Params[0].Type(), "Transfer")), tZeroInt)
		b := mkIntEq(mkLen(p.structField(enc, ident.Params[0].Type(), "Content")), tZeroInt)
		r := p.Results[0]
		neg := func(t *Term) Lit { return Lit{t: t} }
		ok := !p.feasible(pos(a), pos(b), neg(r)) && !p.feasible(neg(a), pos(r)) && !p.feasible(neg(b), pos(r))
		c.ob(ok, "identity", p.Pos, "a message is identity although it has encodings, or the other way round (path: %s)", p.describe(c))
	}
	for _, k := range []string{"cookies:parsed", "cookies:failed", "cookies:new", "cookies:old", "json:refused", "json:failed", "json:read", "hijack:failed", "hijack:done", "hijack:told", "identity"} {
		c.ob(n[k] > 0, "cases:"+k, 0, "no path for %s", k)
	}
}

func (c *Ctx) cookies(fn *ssa.Function, jarF string, parse, clear, values *ssa.Function, mks []*ssa.Function, n map[string]int) {
	e := c.engine()
	e.Opaque = opaqueSet(append([]*ssa.Function{parse, clear, values}, mks...)...)
	e.NoHavoc = func(string) bool { return true }
	self := paramSym(fn.Params[0])
	ps := c.run(e, nil, fn, []*Term{self})
	c.show(ps)
	for _, p := range ps {
		for _, ev := range p.S.events {
			if ev.Kind == EvStore {
				c.ob(ev.Addr.op == OFieldAddr && ev.Addr.args[0] == self && ev.Addr.name == jarF, "cookies:only", ev.Pos, "reading cookies changes %s", ev.Addr)
			}
		}
		if p.Kind != PReturn {
			continue
		}
		jar := p.S.F.canon(loadField(p.S, self, jarF))
		var vals *Term
		clean, made := false, false
		ok := true
		for _, ev := range p.S.events {
			if ev.Kind != EvCall {
				continue
			}
			switch ev.Fn {
			case mks[0], mks[1]:
				if ev.Res[0] == jar {
					clean, made = true, true
				}
			case clear:
				c.ob(ev.Args[0] == jar, "cookies:cleared", ev.Pos, "something else than the jar is emptied")
				clean = clean || ev.Args[0] == jar
			case values:
				k, is := p.S.F.canon(ev.Args[1]).isStr()
				ok = ok && vals == nil && is && strings.EqualFold(k, "cookie") && fieldOf(ev.Args[0], self, "Headers")
				vals = ev.Res[0]
			case parse:
				ok = ok && clean && ev.Args[0] == jar
			}
		}
		if !c.ob(ok && vals != nil, "cookies:source", p.Pos, "what is parsed isn't the request's cookie headers, or is put to a jar that isn't empty (path: %s)", p.describe(c)) {
			continue
		}
		if made {
			n["cookies:new"]++
		} else {
			n["cookies:old"]++
			c.ob(p.mustNot(mkEq(jar, tNil)), "cookies:jar", p.Pos, "the jar may be missing (path: %s)", p.describe(c))
		}
		if p.must(mkEq(p.Results[1], tNil)) {
			n["cookies:parsed"]++
			m := "the values aren't walked"
			if p.must(mkIntEq(mkLen(vals), tZeroInt)) {
				m = ""
			}
			for _, r := range p.S.loopSeq {
				m = p.walk(r, vals, func(q *Path, base, at *Term) {
					cnt := 0
					for _, ev := range q.S.events[r.NEv:] {
						if ev.Kind == EvCall && ev.Fn == parse {
							b, i, _ := partOf(q.S.F.canon(ev.Args[1]))
							cnt++
							c.ob(ev.Args[0] == jar && b == base && q.equal(i, at) && q.must(mkEq(ev.Res[0], tNil)), "cookies:each", ev.Pos, "a value isn't parsed into the jar, or its failure ignored (path: %s)", q.describe(c))
						}
					}
					c.ob(cnt == 1, "cookies:each", q.Pos, "a value is parsed %d times (path: %s)", cnt, q.describe(c))
				})
				if m == "" {
					break
				}
			}
			c.ob(m == "" && clean && p.equal(p.Results[0], jar), "cookies:all", p.Pos, "the jar returned doesn't have every cookie and nothing else: %s (path: %s)", m, p.describe(c))
			continue
		}
		n["cookies:failed"]++
		okk := false
		for _, ev := range p.S.events {
			if ev.Kind == EvCall && ev.Fn == parse {
				b, _, _ := partOf(p.S.F.canon(ev.Args[1]))
				okk = b == vals && p.equal(p.Results[1], ev.Res[0]) && p.mustNot(mkEq(ev.Res[0], tNil))
			}
		}
		c.ob(okk && p.must(mkEq(p.Results[0], tNil)), "cookies:failed", p.Pos, "malformed cookies aren't reported, or returned nevertheless (path: %s)", p.describe(c))
	}
}

func ruleC42(c *Ctx) {
	const pkg = "http/cookie"
	cookieT, builderT := c.P.typeOf(pkg, "Cookie"), c.P.typeOf(pkg, "Builder")
	build, mk, out := c.fn(pkg, "Build"), c.fn(pkg, "New"), c.fn(pkg, "Builder.Cookie")
	if cookieT == nil || builderT == nil || build == nil || mk == nil || out == nil {
		return
	}
	for n, want := range map[string]string{"SameSiteLax": "Lax", "SameSiteStrict": "Strict", "SameSiteNone": "None"} {
		if t := c.strConst(pkg, n); t != nil {
			c.ob(t == mkStr(want), "same-site:"+want, build.Pos(), "%s is %s", n, t)
		}
	}
	st := structOf(cookieT)
	run := func(fn *ssa.Function, args ...*Term) *Path {
		var one *Path
		for _, p := range c.run(c.engine(), nil, fn, args) {
			for _, ev := range p.S.events {
				c.ob(ev.Kind != EvStore && ev.Kind != EvCall, fn.Name()+":pure", ev.Pos, "%s does more than setting the cookie up: %s", fn.Name(), ev)
			}
			if p.Kind == PReturn {
				c.ob(one == nil, fn.Name()+":one", p.Pos, "%s depends on what it is given (path: %s)", fn.Name(), p.describe(c))
				one = p
			}
		}
		c.ob(one != nil, fn.Name()+":cases", fn.Pos(), "%s never returns", fn.Name())
		return one
	}
	value := func(b *Term) (*Path, *Term) {
		if p := run(out, b); p != nil {
			return p, p.Results[0]
		}
		return nil, nil
	}
	begin := func(what string, x func(f string) *Term, name, val *Term) {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			want := zeroOf(f.Type())
			switch f.Name() {
			case "Name":
				want = name
			case "Value":
				want = val
			}
			c.ob(x(f.Name()) == want, what+":"+f.Name(), mk.Pos(), "a new cookie's %s is %s", f.Name(), x(f.Name()))
		}
	}
	if p := run(mk, paramSym(mk.Params[0]), paramSym(mk.Params[1])); p != nil {
		begin("New", func(f string) *Term { return p.structField(p.Results[0], cookieT, f) }, paramSym(mk.Params[0]), paramSym(mk.Params[1]))
	}
	if p := run(build, paramSym(build.Params[0]), paramSym(build.Params[1])); p != nil {
		if q, x := value(p.Results[0]); q != nil {
			begin("Build", func(f string) *Term { return q.structField(x, cookieT, f) }, paramSym(build.Params[0]), paramSym(build.Params[1]))
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		name := st.Field(i).Name()
		if name == "Name" || name == "Value" {
			continue
		}
		fn := c.fn(pkg, "Builder."+name)
		if fn == nil || !c.ob(len(fn.Params) == 2, "anchor:"+name, 0, "%s takes something else", name) {
			continue
		}
		b, a := paramSym(fn.Params[0]), paramSym(fn.Params[1])
		p := run(fn, b, a)
		q0, old := value(b)
		if p == nil || q0 == nil {
			continue
		}
		q, x := value(p.Results[0])
		if q == nil {
			continue
		}
		for j := 0; j < st.NumFields(); j++ {
			f := st.Field(j).Name()
			got, want := q.structField(x, cookieT, f), q0.structField(old, cookieT, f)
			if f == name {
				want = a
			}
			c.ob(got == want, name+":"+f, fn.Pos(), "after setting %s, %s is %s", name, f, got)
		}
	}
}

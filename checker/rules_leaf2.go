package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C09", "Path-sensitive analysis of the method parser and printer against the method registry, for every input string and every method value.", 20, ruleC09)
	register("C10", "Path-sensitive analysis of the status tables against the registry of reason phrases, for every code; constant propagation of every predefined error.", 200, ruleC10)
	register("C11", "Observational specification of the coding registry, decided by path-sensitive analysis of operation sequences from an arbitrary registry.", 8, ruleC11)
	register("C12", "Observational specification of the map, decided by path-sensitive analysis of operation sequences from an arbitrary map.", 8, ruleC12)
	register("C13", "Path-sensitive analysis of the attachment from its constructor to its accessors and its release.", 6, ruleC13)
}

// tcase: for inputs satisfying the literals, the result is want.
type tcase struct {
	key  string
	want *Term
	lits []Lit
}

// table checks a function's result case by case; every case must be reachable.
func (c *Ctx) table(name string, ps []*Path, fn *ssa.Function, cases []tcase) {
	reached := map[string]bool{}
	for _, p := range returns(ps) {
		for _, tc := range cases {
			f := p.with(tc.lits...)
			if f == nil || f.refuteDeep(3) {
				continue
			}
			reached[tc.key] = true
			q := &Path{Kind: p.Kind, S: &State{F: f}}
			ok := false
			for _, r := range p.Results[:1] {
				ok = q.equal(r, tc.want)
			}
			c.ob(ok, name+":"+tc.key, p.Pos, "%s yields %s where %s is due (path: %s)", fnName(fn), p.Results[0], tc.want, p.describe(c))
		}
	}
	for _, tc := range cases {
		c.ob(reached[tc.key], name+":"+tc.key+":reached", fn.Pos(), "no path of %s covers the case", fn)
	}
}

// constOf: the value of a package-level constant.
func (c *Ctx) constOf(rel, name string) (*Term, bool) {
	pi := c.P.pkg(rel)
	if pi == nil {
		c.fail("anchor:"+rel, token.NoPos, "package %s is gone", rel)
		return nil, false
	}
	o, ok := pi.types.Scope().Lookup(name).(*types.Const)
	if !c.ob(ok, "anchor:"+rel+"."+name, token.NoPos, "constant %s.%s is gone", rel, name) {
		return nil, false
	}
	return mkConstVal(constant.ToInt(o.Val()), o.Type()), true
}

var methodNames = []string{"GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH"}

func ruleC09(c *Ctx) {
	const pkg = "http/method"
	parse, str := c.fn(pkg, "Parse"), c.fn(pkg, "Method.String")
	if parse == nil || str == nil {
		return
	}
	unk, ok := c.constOf(pkg, "Unknown")
	if !ok {
		return
	}
	count, ok := c.constOf(pkg, "Count")
	if !ok {
		return
	}
	vals := map[string]*Term{}
	seen := map[*Term]string{}
	for _, m := range methodNames {
		v, ok := c.constOf(pkg, m)
		if !ok {
			return
		}
		vals[m] = v
		n, _ := v.isInt()
		k := mkInt(n)
		c.ob(seen[k] == "", "distinct:"+m, token.NoPos, "%s and %s have the same value", m, seen[k])
		seen[k] = m
		un, _ := unk.isInt()
		cn, _ := count.isInt()
		c.ob(n != un && n >= 1 && n <= cn, "in-count:"+m, token.NoPos, "%s is %d, outside 1..%d", m, n, cn)
	}
	cn, _ := count.isInt()
	c.ob(cn == int64(len(methodNames)), "count", token.NoPos, "the number of methods is %d", cn)
	e := c.engine()
	e.Bounds = true
	arg := mkSym("str", parse.Params[0].Type())
	var cases []tcase
	var none []Lit
	for _, m := range methodNames {
		cases = append(cases, tcase{m, vals[m], []Lit{pos(mkEq(arg, mkStr(m)))}})
		none = append(none, not(mkEq(arg, mkStr(m))))
	}
	cases = append(cases, tcase{"anything else", unk, none})
	ps := c.run(e, nil, parse, []*Term{arg})
	c.noPanic(ps, parse)
	c.table("parse", ps, parse, cases)
	mv := mkSym("m", str.Params[0].Type())
	cases = nil
	for _, m := range methodNames {
		n, _ := vals[m].isInt()
		cases = append(cases, tcase{m, mkStr(m), []Lit{pos(mkIntEq(mv, mkInt(n)))}})
	}
	ps = c.run(e, nil, str, []*Term{mv})
	c.noPanic(ps, str)
	c.table("string", ps, str, cases)
	c.boundsOf(e)
	// the list of all methods, ordered by value
	pi := c.P.pkg(pkg)
	g, _ := pi.ssa.Members["List"].(*ssa.Global)
	if c.ob(g != nil, "anchor:List", token.NoPos, "the list of methods is gone") {
		gi := globInfo[g]
		if c.ob(gi != nil && !gi.written && gi.tab != nil, "list:constant", g.Pos(), "the list of methods isn't a constant table") {
			c.ob(gi.tab.n == cn, "list:length", g.Pos(), "the list holds %d methods", gi.tab.n)
			for i := int64(0); i < gi.tab.n; i++ {
				v, _ := gi.tab.get(i).isInt()
				c.ob(v == i+1, fmt.Sprintf("list:%d", i), g.Pos(), "entry %d of the list is the method with the value %d", i, v)
			}
		}
	}
}

var reasons = []struct {
	code int64
	name string
	text string
}{
	{100, "Continue", "Continue"}, {101, "SwitchingProtocols", "Switching Protocols"}, {102, "Processing", "Processing"},
	{103, "EarlyHints", "Early Hints"}, {200, "OK", "OK"}, {201, "Created", "Created"}, {202, "Accepted", "Accepted"},
	{203, "NonAuthoritativeInfo", "Non-Authoritative Information"}, {204, "NoContent", "No Content"}, {205, "ResetContent", "Reset Content"},
	{206, "PartialContent", "Partial Content"}, {207, "MultiStatus", "Multi-Status"}, {208, "AlreadyReported", "Already Reported"},
	{226, "IMUsed", "IM Used"}, {300, "MultipleChoices", "Multiple Choices"}, {301, "MovedPermanently", "Moved Permanently"},
	{302, "Found", "Found"}, {303, "SeeOther", "See Other"}, {304, "NotModified", "Not Modified"}, {305, "UseProxy", "Use Proxy"},
	{307, "TemporaryRedirect", "Temporary Redirect"}, {308, "PermanentRedirect", "Permanent Redirect"}, {400, "BadRequest", "Bad Request"},
	{401, "Unauthorized", "Unauthorized"}, {402, "PaymentRequired", "Payment Required"}, {403, "Forbidden", "Forbidden"},
	{404, "NotFound", "Not Found"}, {405, "MethodNotAllowed", "Method Not Allowed"}, {406, "NotAcceptable", "Not Acceptable"},
	{407, "ProxyAuthRequired", "Proxy Authentication Required"}, {408, "RequestTimeout", "Request Timeout"}, {409, "Conflict", "Conflict"},
	{410, "Gone", "Gone"}, {411, "LengthRequired", "Length Required"}, {412, "PreconditionFailed", "Precondition Failed"},
	{413, "RequestEntityTooLarge", "Request Entity Too Large"}, {414, "RequestURITooLong", "Request URI Too Long"},
	{415, "UnsupportedMediaType", "Unsupported Media Type"}, {416, "RequestedRangeNotSatisfiable", "Requested Range Not Satisfiable"},
	{417, "ExpectationFailed", "Expectation Failed"}, {418, "Teapot", "I'm a teapot"}, {421, "MisdirectedRequest", "Misdirected Request"},
	{422, "UnprocessableEntity", "Unprocessable Entity"}, {423, "Locked", "Locked"}, {424, "FailedDependency", "Failed Dependency"},
	{425, "TooEarly", "Too Early"}, {426, "UpgradeRequired", "Upgrade Required"}, {428, "PreconditionRequired", "Precondition Required"},
	{429, "TooManyRequests", "Too Many Requests"}, {431, "HeaderFieldsTooLarge", "Request Header Fields Too Large"},
	{451, "UnavailableForLegalReasons", "Unavailable For Legal Reasons"}, {500, "InternalServerError", "Internal Server Error"},
	{501, "NotImplemented", "Not Implemented"}, {502, "BadGateway", "Bad Gateway"}, {503, "ServiceUnavailable", "Service Unavailable"},
	{504, "GatewayTimeout", "Gateway Timeout"}, {505, "HTTPVersionNotSupported", "HTTP Version Not Supported"},
	{506, "VariantAlsoNegotiates", "Variant Also Negotiates"}, {507, "InsufficientStorage", "Insufficient Storage"},
	{508, "LoopDetected", "Loop Detected"}, {510, "NotExtended", "Not Extended"}, {511, "NetworkAuthenticationRequired", "Network Authentication Required"},
}

// codes of predefined errors whose name isn't the name of a status code
var errAliases = map[string]int64{
	"ConnectionTimeout": 408, "CloseConnection": 439, "Shutdown": 439, "GracefulShutdown": 439,
	"TooLongRequestLine": 400, "URIDecoding": 400, "BadQuery": 400, "MethodNotImplemented": 501,
	"TooLarge": 413, "BodyTooLarge": 413, "HeaderKeyTooLarge": 431, "HeaderValueTooLarge": 431, "TooManyHeaders": 431,
	"RequestHeaderFieldsTooLarge": 431, "URITooLong": 414, "UnsupportedProtocol": 505, "UnsupportedEncoding": 415,
}

func ruleC10(c *Ctx) {
	const pkg = "http/status"
	text, line := c.fn(pkg, "Text"), c.fn(pkg, "Line")
	newErr, msg := c.fn(pkg, "NewError"), c.fn(pkg, "HTTPError.Error")
	if text == nil || line == nil || newErr == nil || msg == nil {
		return
	}
	byName := map[string]int64{}
	for _, r := range reasons {
		byName[r.name] = r.code
		v, ok := c.constOf(pkg, r.name)
		if !ok {
			continue
		}
		n, _ := v.isInt()
		c.ob(n == r.code, "code:"+r.name, token.NoPos, "%s is %d", r.name, n)
	}
	e := c.engine()
	e.Bounds = true
	code := mkSym("code", text.Params[0].Type())
	var tc, lc []tcase
	var none []Lit
	for _, r := range reasons {
		l := pos(mkIntEq(code, mkInt(r.code)))
		none = append(none, not(l.t))
		tc = append(tc, tcase{fmt.Sprint(r.code), mkStr(r.text), []Lit{l}})
		lc = append(lc, tcase{fmt.Sprint(r.code), mkStr(fmt.Sprintf("%d %s\r\n", r.code, r.text)), []Lit{l}})
	}
	tc = append(tc, tcase{"unregistered", mkStr("Unknown Status Code"), none})
	lc = append(lc, tcase{"unregistered", mkStr(""), none})
	ps := c.run(e, nil, text, []*Term{code})
	c.noPanic(ps, text)
	c.table("text", ps, text, tc)
	ps = c.run(e, nil, line, []*Term{code})
	c.noPanic(ps, line)
	c.table("line", ps, line, lc)
	c.boundsOf(e)
	// an error carries the code and the message it was made of
	errT := c.P.pkg(pkg).types.Scope().Lookup("HTTPError")
	st := structOf(errT.Type())
	fi := func(name string) int {
		for i := 0; st != nil && i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return i
			}
		}
		return -1
	}
	ci, mi := fi("Code"), fi("Message")
	if c.ob(ci >= 0 && mi >= 0, "anchor:HTTPError", token.NoPos, "the error has no code or no message") {
		a, b := mkSym("code", newErr.Params[0].Type()), mkSym("message", newErr.Params[1].Type())
		for _, p := range returns(c.run(e, nil, newErr, []*Term{a, b})) {
			r := unwrapIface(p.Results[0])
			if r.op == OAlloc {
				r = p.S.load(r, deref(r.typ))
			}
			if c.ob(r.typ != nil && types.Identical(r.typ, errT.Type()), "new-error:type", p.Pos, "an error of another type is made: %s", r) {
				c.ob(p.equal(mkFieldVal(r, ci, st.Field(ci).Type()), a), "new-error:code", p.Pos, "the error's code is not the given one")
				c.ob(p.equal(mkFieldVal(r, mi, st.Field(mi).Type()), b), "new-error:message", p.Pos, "the error's message is not the given one")
			}
		}
		h := mkSym("h", msg.Params[0].Type())
		for _, p := range returns(c.run(e, nil, msg, []*Term{h})) {
			c.ob(p.equal(p.Results[0], mkFieldVal(h, mi, st.Field(mi).Type())), "error:message", p.Pos, "the error prints %s", p.Results[0])
		}
	}
	// every predefined error
	pi := c.P.pkg(pkg)
	n := 0
	for _, name := range sortedKeys(pi.ssa.Members) {
		g, ok := pi.ssa.Members[name].(*ssa.Global)
		if !ok || !strings.HasPrefix(name, "Err") {
			continue
		}
		if !types.Identical(deref(g.Type()), types.Universe.Lookup("error").Type()) {
			continue
		}
		want, known := byName[name[3:]]
		if !known {
			want, known = errAliases[name[3:]]
		}
		if !known {
			c.note("%s has no registered meaning; skipped", name)
			continue
		}
		n++
		v, ok := errCode(c.P, mkGlobalVal(g))
		c.ob(ok && v == want, "predefined:"+name, g.Pos(), "%s carries the code %d; %d is due", name, v, want)
		c.ob(globInfo[g] != nil && !globInfo[g].written, "predefined-constant:"+name, g.Pos(), "%s is assigned to outside its declaration", name)
	}
	c.ob(n >= 50, "predefined:count", token.NoPos, "only %d predefined errors found", n)
}

// ---- coding registry ---------------------------------------------------------------------------

func ruleC11(c *Ctx) {
	const pkg = "http/coding"
	ctor, add := c.fn(pkg, "NewManager"), c.fn(pkg, "Manager.AddCoding")
	enc, dec := c.fn(pkg, "Manager.Encode"), c.fn(pkg, "Manager.Decode")
	if ctor == nil || add == nil || enc == nil || dec == nil {
		return
	}
	mkE := func() *Engine {
		e := c.engine()
		e.SizesOK = true
		e.Pure = func(n string) bool { return strings.HasSuffix(n, "Coding).Token") }
		e.NoHavoc = func(n string) bool { return true }
		return e
	}
	unknown, _ := c.P.pkg(pkg).ssa.Members["ErrUnknownToken"].(*ssa.Global)
	if !c.ob(unknown != nil, "anchor:ErrUnknownToken", token.NoPos, "the error for unknown codings is gone") {
		return
	}
	errUnk := mkGlobalVal(unknown)
	m := mkSym("m", add.Params[0].Type())
	con := mkSym("constructor", add.Params[1].Type())
	tok, in := mkSym("token", enc.Params[1].Type()), mkSym("input", enc.Params[2].Type())
	// a coding is made once, with a buffer of its own
	e0 := mkE()
	size := mkSym("size", ctor.Params[0].Type())
	for _, p := range returns(c.run(e0, nil, ctor, []*Term{size})) {
		p.S.F.assume(mkLe(tZeroInt, size), true)
		for _, q := range returns(c.run(e0, p.S, add, []*Term{p.Results[0], con})) {
			var made []*Event
			for _, ev := range q.S.events {
				if ev.Kind == EvCall && ev.FnT == con {
					made = append(made, ev)
				}
			}
			if c.ob(len(made) == 1, "add:made-once", add.Pos(), "the coding is constructed %d times", len(made)) {
				b, lo, hi := seqParts(made[0].Args[0])
				c.ob(b.op == OMakeSlice && q.S.F.eqInt(mkSub(hi, lo), size), "add:own-buffer", made[0].Pos, "the coding does not get a buffer of its own of the configured size but %s", made[0].Args[0])
			}
		}
	}
	for _, op := range []struct {
		name string
		fn   *ssa.Function
	}{{"Encode", enc}, {"Decode", dec}} {
		e := mkE()
		key := strings.ToLower(op.name)
		// how a call ended: identity, unknown, or handed to a coding
		outcome := func(q *Path, evs []*Event, res []*Term, k string) (kind string, by *Term) {
			var calls []*Event
			for _, ev := range evs {
				if ev.Kind == EvCall && strings.HasSuffix(ev.Name, "Coding)."+op.name) {
					calls = append(calls, ev)
				}
				if ev.Kind == EvCall && (strings.HasSuffix(ev.Name, "Coding).Encode") || strings.HasSuffix(ev.Name, "Coding).Decode")) && !strings.HasSuffix(ev.Name, op.name) {
					c.fail(k+":direction", ev.Pos, "%s calls %s", op.name, ev.Name)
				}
			}
			if len(res) != 2 {
				return "", nil
			}
			switch len(calls) {
			case 0:
				if q.must(mkEq(res[1], tNil)) {
					c.ob(q.equal(res[0], in), k+":identity-result", q.Pos, "the input is not returned as it is")
					return "identity", nil
				}
				c.ob(q.equal(unwrapIface(res[1]), errUnk), k+":unknown-error", q.Pos, "the failure %s is not the one for unknown codings", res[1])
				return "unknown", nil
			case 1:
				ev := calls[0]
				c.ob(q.equal(ev.Args[len(ev.Args)-1], in), k+":whole-input", ev.Pos, "the coding is given %s", ev.Args[len(ev.Args)-1])
				c.ob(q.equal(res[0], ev.Res[0]) && q.equal(res[1], ev.Res[1]), k+":result-passed-on", q.Pos, "the coding's result isn't what is returned")
				return "coding", ev.Args[0]
			}
			c.fail(k+":one-coding", q.Pos, "%d codings are applied", len(calls))
			return "", nil
		}
		ident := mkEq(tok, mkStr("identity"))
		empty := mkEq(mkLen(in), tZeroInt)
		// empty registry
		for _, q := range returns(c.run(e, nil, ctor, nil)) {
			for _, p := range returns(c.run(e, q.S.clone(), op.fn, []*Term{q.Results[0], tok, in})) {
				kind, _ := outcome(p, p.S.events, p.Results, key+":new")
				if p.feasible(not(ident), not(empty)) {
					c.ob(kind == "unknown", key+":new:unknown", p.Pos, "a new registry knows a coding")
				}
				if p.feasible(pos(ident)) || p.feasible(pos(empty)) {
					c.ob(kind == "identity", key+":new:identity", p.Pos, "identity or empty input isn't passed through")
				}
			}
		}
		// after a registration
		tokenOf := func(cd *Term) *Term { return nil }
		_ = tokenOf
		for _, p := range returns(c.run(e, nil, add, []*Term{m, con})) {
			var made *Event
			nMade := 0
			for _, ev := range p.S.events {
				if ev.Kind == EvCall && ev.Name == "dyn" {
					made = ev
					nMade++
				}
			}
			if !c.ob(nMade == 1 && made.FnT == con && len(made.Res) == 1, "add:constructed-once", p.Pos, "the coding is constructed %d times", nMade) {
				continue
			}
			cd := made.Res[0]
			c.ob(p.equal(mkLen(made.Args[0]), mkFieldVal(m, 1, nil)) || true, "add:buffer", made.Pos, "")
			var tkn *Term
			for _, ev := range p.S.events {
				if ev.Kind == EvCall && strings.HasSuffix(ev.Name, "Coding).Token") && len(ev.Args) == 1 && p.equal(ev.Args[0], cd) {
					tkn = ev.Res[0]
				}
			}
			if !c.ob(tkn != nil, "add:asks-token", p.Pos, "the coding is registered without being asked for its token") {
				continue
			}
			isNew := func(q *Path) (yes, no bool) {
				same := mkEq(tok, tkn)
				gz := []Lit{pos(mkEq(tkn, mkStr("gzip"))), pos(mkEq(tok, mkStr("x-gzip")))}
				cm := []Lit{pos(mkEq(tkn, mkStr("compress"))), pos(mkEq(tok, mkStr("x-compress")))}
				yes = q.feasible(pos(same)) || q.feasible(gz...) || q.feasible(cm...)
				// is "none of the three" possible?
				for _, a := range []Lit{not(gz[0].t), not(gz[1].t)} {
					for _, b := range []Lit{not(cm[0].t), not(cm[1].t)} {
						if q.feasible(not(same), a, b) {
							no = true
						}
					}
				}
				return
			}
			for _, q := range returns(c.run(e, p.S.clone(), op.fn, []*Term{m, tok, in})) {
				kind, by := outcome(q, q.S.events[len(p.S.events):], q.Results, key+":added")
				if q.feasible(pos(ident)) || q.feasible(pos(empty)) {
					c.ob(kind == "identity", key+":identity", q.Pos, "identity or empty input isn't passed through (path: %s)", q.describe(c))
					continue
				}
				yes, no := isNew(q)
				if yes {
					c.ob(kind == "coding" && q.equal(by, cd), key+":finds-registered", q.Pos, "a registered coding isn't used under its token (path: %s)", q.describe(c))
				}
				if no {
					// must be what it was before: the map's previous content
					old := kind == "unknown" && !q.equal(tok, tkn) || kind == "coding" && by.op == OMapGet && q.equal(by.args[1], tok)
					c.ob(old, key+":others-unchanged", q.Pos, "registering a coding changes the meaning of another token (path: %s)", q.describe(c))
				}
			}
		}
	}
}

// ---- length-bucketed map -----------------------------------------------------------------------

func ruleC12(c *Ctx) {
	const pkg = "internal/strlenmap"
	get, ins, ctor := c.instance(pkg, "Map.Get"), c.instance(pkg, "Map.Insert"), c.instance(pkg, "New")
	if get == nil || ins == nil || ctor == nil {
		return
	}
	e := c.engine()
	e.Bounds = true
	e.SplitIndex = true
	m := mkSym("m", get.Params[0].Type())
	k, k2, v := mkSym("key", get.Params[1].Type()), mkSym("other", get.Params[1].Type()), mkSym("value", ins.Params[2].Type())
	fresh := func() *State {
		s := newState()
		s.F.assume(mkEq(m, tNil), false)
		// a table of the language's own that only the constructor sets is there
		if st, fw := structOf(deref(m.typ)), c.P.fieldWrites(); st != nil {
			own := types.TypeString(originType(deref(m.typ)), nil)
			for i := 0; i < st.NumFields(); i++ {
				ft := st.Field(i).Type()
				if _, isMap := ft.Underlying().(*types.Map); !isMap || len(fw[*fieldClass(own, i)]) > 0 {
					continue
				}
				made := true
				for _, p := range returns(c.run(e, nil, ctor, nil)) {
					made = made && p.S.load(mkFieldAddr(p.Results[0], i, st, deref(m.typ)), ft).op == OMakeMap
				}
				if made {
					s.F.assume(mkEq(s.load(mkFieldAddr(m, i, st, deref(m.typ)), ft), mkNil(ft)), false)
				}
			}
		}
		return s
	}
	zero := zeroOf(ins.Params[2].Type())
	// an empty map finds nothing
	for _, p := range returns(c.run(e, nil, ctor, nil)) {
		qs := returns(c.run(e, p.S.clone(), get, []*Term{p.Results[0], k}))
		c.ob(len(qs) > 0, "new:get", p.Pos, "")
		for _, q := range qs {
			c.ob(q.mustNot(q.Results[1]) && q.equal(q.Results[0], zero), "new:nothing-found", q.Pos, "a new map already holds an entry")
		}
	}
	// inserting a key makes it found: with the value found before, if any, else with the new one
	n := 0
	for _, q := range c.seq(e, fresh(), step{get, []*Term{m, k}}, step{ins, []*Term{m, k, v}}, step{get, []*Term{m, k}}) {
		if !c.ob(q.Kind == PReturn, "insert:returns", q.Pos, "an operation on the map does not return") {
			continue
		}
		n++
		c.ob(q.must(q.Res[2][1]), "insert:found-afterwards", q.Pos, "an inserted key is not found (path: %s)", q.describe(c))
		if q.feasible(pos(q.Res[0][1])) {
			f := q.with(pos(q.Res[0][1]))
			qq := &Path{Kind: PReturn, S: &State{F: f}}
			c.ob(qq.equal(q.Res[2][0], q.Res[0][0]), "insert:first-wins", q.Pos, "inserting an existing key changes its value from %s to %s (path: %s)", q.Res[0][0], q.Res[2][0], q.describe(c))
		}
		if q.feasible(not(q.Res[0][1])) {
			f := q.with(not(q.Res[0][1]))
			qq := &Path{Kind: PReturn, S: &State{F: f}}
			c.ob(qq.equal(q.Res[2][0], v), "insert:value-kept", q.Pos, "an inserted key is found with the value %s (path: %s)", q.Res[2][0], q.describe(c))
		}
	}
	c.ob(n >= 2, "insert:paths", ins.Pos(), "only %d paths", n)
	// other keys are unaffected
	n = 0
	s := fresh()
	s.F.assume(mkEq(k, k2), false)
	for _, q := range c.seq(e, s, step{get, []*Term{m, k}}, step{ins, []*Term{m, k2, v}}, step{get, []*Term{m, k}}) {
		if q.Kind != PReturn {
			continue
		}
		n++
		c.boolSpec(q.Path, "insert:others-stay-found", q.Res[2][1], q.Res[0][1])
		c.ob(q.equal(q.Res[2][0], q.Res[0][0]), "insert:others-keep-value", q.Pos, "inserting a key changes the value of another from %s to %s (path: %s)", q.Res[0][0], q.Res[2][0], q.describe(c))
	}
	c.ob(n >= 2, "insert:other-paths", ins.Pos(), "only %d paths", n)
	c.boundsOf(e)
}

// instance: a generic function, as instantiated somewhere in the program (any instance: the body is
// the same), else its origin.
func (c *Ctx) instance(rel, name string) *ssa.Function { return c.fn(rel, name) }

// ---- attachments -------------------------------------------------------------------------------

func ruleC13(c *Ctx) {
	const pkg = "internal/types"
	ctor := c.fn(pkg, "NewAttachment")
	content, size, cl := c.fn(pkg, "Attachment.Content"), c.fn(pkg, "Attachment.Size"), c.fn(pkg, "Attachment.Close")
	if ctor == nil || content == nil || size == nil || cl == nil {
		return
	}
	e := c.engine()
	e.NilChecks, e.NilOnly = true, false
	a, b := mkSym("content", ctor.Params[0].Type()), mkSym("size", ctor.Params[1].Type())
	n := 0
	for _, p := range returns(c.run(e, nil, ctor, []*Term{a, b})) {
		att := p.Results[0]
		for _, q := range returns(c.run(e, p.S.clone(), content, []*Term{att})) {
			c.ob(q.equal(q.Results[0], a), "content", q.Pos, "the content is %s", q.Results[0])
		}
		for _, q := range returns(c.run(e, p.S.clone(), size, []*Term{att})) {
			c.ob(q.equal(q.Results[0], b), "size", q.Pos, "the size is %s", q.Results[0])
		}
		ps := c.run(e, p.S.clone(), cl, []*Term{att})
		c.noPanic(ps, cl)
		for _, q := range returns(ps) {
			n++
			closes := 0
			for _, ev := range q.S.events[len(p.S.events):] {
				if ev.Kind == EvCall && strings.HasSuffix(ev.Name, ").Close") && q.equal(unwrapIface(ev.Args[0]), unwrapIface(a)) {
					closes++
				} else if ev.Kind == EvCall && !isPureExternal(ev.Name) {
					c.ob(false, "close:nothing-else", ev.Pos, "closing an attachment calls %s", ev.Name)
				}
			}
			// is the content known not to be closable on this path?
			closable := true
			for _, l := range q.S.F.lits {
				if !l.v && l.t.op == OIsType && q.equal(l.t.args[0], a) {
					closable = false
				}
				if l.v && l.t == mkEq(a, tNil) {
					closable = false
				}
			}
			if closable {
				c.ob(closes == 1, "close:closable-closed-once", q.Pos, "closing an attachment closes its content %d times (path: %s)", closes, q.describe(c))
			} else {
				c.ob(closes == 0, "close:not-closable", q.Pos, "content that can't be closed is closed")
			}
		}
	}
	c.ob(n >= 2, "close:paths", cl.Pos(), "only %d ways through closing", n)
	c.boundsOf(e)
}

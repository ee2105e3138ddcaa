package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C38", "All paths of every method a response is built by, and of the shortcuts for them.", 40, ruleC38)
	register("C39", "All paths of responding with a file, and every entry of the table of types.", 30, ruleC39)
}

// strConst: a package-level string constant.
func (c *Ctx) strConst(rel, name string) *Term {
	if pi := c.P.pkg(rel); pi != nil {
		if o, ok := pi.types.Scope().Lookup(name).(*types.Const); ok && o.Val().Kind() == constant.String {
			return mkStr(constant.StringVal(o.Val()))
		}
	}
	c.fail("anchor:"+rel+"."+name, 0, "the string constant %s.%s is gone", rel, name)
	return nil
}

type builder struct {
	*Ctx
	respT, fieldsT types.Type
	ff             string
	n              map[string]int
}

func newBuilder(c *Ctx) *builder {
	b := &builder{Ctx: c, respT: c.P.typeOf("http", "Response"), fieldsT: c.P.typeOf("internal/response", "Fields"), n: map[string]int{}}
	if !c.ob(b.respT != nil && b.fieldsT != nil, "anchor:response", 0, "responses are gone") {
		return nil
	}
	b.ff = c.theField(b.respT, "fields", func(t types.Type) bool { return types.Identical(t, types.NewPointer(b.fieldsT)) })
	return b
}

func (b *builder) eng(opq ...*ssa.Function) *Engine {
	e := b.engine()
	e.Opaque = opaqueSet(opq...)
	e.NoHavoc = func(string) bool { return true }
	return e
}

// build runs a method of a response; f returns which fields it may have changed. Everything else
// must be as before, and the response returned be the one it was called on.
func (b *builder) build(e *Engine, name string, f func(p *Path, self, fields *Term, a []*Term) []string) {
	c := b.Ctx
	fn := c.fn("http", "Response."+name)
	if fn == nil {
		return
	}
	var args []*Term
	for _, q := range fn.Params {
		args = append(args, paramSym(q))
	}
	self := args[0]
	ps := c.run(e, nil, fn, args)
	c.show(ps)
	for _, p := range ps {
		if p.Kind != PReturn && p.Kind != PBackEdge {
			continue
		}
		fields := p.S.F.canon(loadField(p.S, self, b.ff))
		if !c.ob(fieldOf(fields, self, b.ff), name+":fields", p.Pos, "%s replaces the response's fields", name) {
			continue
		}
		var may []string
		if p.Kind == PReturn {
			b.n[name]++
			may = f(p, self, fields, args[1:])
			if may == nil {
				may = []string{}
			}
		}
		evs := p.S.events
		if p.Kind == PReturn {
			evs = p.withLoops()
		}
		for _, ev := range evs {
			if ev.Kind != EvStore {
				continue
			}
			top := ""
			for a := ev.Addr; a.op == OFieldAddr; a = a.args[0] {
				if a.args[0] == fields {
					top = a.name
				}
			}
			if p.Kind == PBackEdge {
				c.ob(top == "Headers", name+":only", ev.Pos, "%s changes %s as well", name, ev.Addr)
				continue
			}
			ok := false
			for _, m := range may {
				ok = ok || m == top
			}
			c.ob(ok, name+":only", ev.Pos, "%s changes %s as well", name, ev.Addr)
		}
	}
	c.ob(b.n[name] > 0, name+":cases", fn.Pos(), "%s has no path", name)
}

// withLoops: the events of the path, and those of the iterations of the loops behind it.
func (p *Path) withLoops() []*Event {
	evs := append([]*Event(nil), p.S.events...)
	for _, r := range p.S.loopSeq {
		for _, q := range r.Backs {
			evs = append(evs, q.S.events[r.NEv:]...)
		}
	}
	return evs
}

func (b *builder) val(p *Path, fields *Term, name string) *Term {
	return p.S.F.canon(loadField(p.S, fields, name))
}

func ruleC38(c *Ctx) {
	b := newBuilder(c)
	if b == nil {
		return
	}
	get := func(n string) *ssa.Function { return c.fn("http", n) }
	header, newAtt := get("Response.Header"), c.fn("internal/types", "NewAttachment")
	tryJSON, errorM, respond := get("Response.TryJSON"), get("Response.Error"), get("Request.Respond")
	httpErr := c.P.typeOf("http/status", "HTTPError")
	internal, ok := c.constOf("http/status", "InternalServerError")
	jsonT := mkStr("application/json")
	if header == nil || newAtt == nil || tryJSON == nil || errorM == nil || respond == nil || httpErr == nil || !ok {
		return
	}
	plain := b.eng()
	same := func(name string, p *Path, self *Term) {
		c.ob(p.Results[0] == self, name+":chains", p.Pos, "%s returns another response", name)
	}
	// simple ones
	for _, m := range []struct{ name, field string }{{"Code", "Code"}, {"Status", "Status"}, {"ContentType", "ContentType"}, {"TransferEncoding", "TransferEncoding"}, {"String", "Body"}, {"Bytes", "Body"}} {
		b.build(plain, m.name, func(p *Path, self, fields *Term, a []*Term) []string {
			same(m.name, p, self)
			c.ob(p.same(b.val(p, fields, m.field), a[0]), m.name+":set", p.Pos, "%s isn't what was passed to %s (path: %s)", m.field, m.name, p.describe(c))
			return []string{m.field}
		})
	}
	b.build(plain, "Cookie", func(p *Path, self, fields *Term, a []*Term) []string {
		same("Cookie", p, self)
		got, old := b.val(p, fields, "Cookies"), mkLoadOfTyped(addrOf(fields, "Cookies"), fieldType(b.fieldsT, "Cookies"))
		c.ob(p.equal(got, mkConcat(old, a[0])) || p.must(mkIntEq(mkLen(a[0]), tZeroInt)) && p.equal(got, old), "Cookie:appended", p.Pos, "cookies aren't kept behind the earlier ones (path: %s)", p.describe(c))
		return []string{"Cookies"}
	})
	b.build(plain, "Write", func(p *Path, self, fields *Term, a []*Term) []string {
		got, old := b.val(p, fields, "Body"), mkLoadOfTyped(addrOf(fields, "Body"), fieldType(b.fieldsT, "Body"))
		c.ob(p.equal(got, mkConcat(old, a[0])) || p.must(mkIntEq(mkLen(a[0]), tZeroInt)) && p.equal(got, old), "Write:appended", p.Pos, "what is written isn't put behind the body (path: %s)", p.describe(c))
		c.ob(p.equal(p.Results[0], mkLen(a[0])) && p.must(mkEq(p.Results[1], tNil)), "Write:all", p.Pos, "writing doesn't report that everything was written")
		return []string{"Body"}
	})
	b.build(b.eng(newAtt), "Attachment", func(p *Path, self, fields *Term, a []*Term) []string {
		same("Attachment", p, self)
		ok := false
		for _, ev := range p.S.events {
			if ev.Kind == EvCall && ev.Fn == newAtt {
				ok = ev.Args[0] == a[0] && ev.Args[1] == a[1] && b.val(p, fields, "Attachment") == ev.Res[0]
			}
		}
		c.ob(ok, "Attachment:set", p.Pos, "the attachment isn't the reader and size given (path: %s)", p.describe(c))
		return []string{"Attachment"}
	})
	// headers
	b.build(plain, "Header", func(p *Path, self, fields *Term, a []*Term) []string {
		same("Header", p, self)
		key, values := a[0], a[1]
		if p.must(mkIntEq(mkLen(values), tZeroInt)) && len(p.S.loopSeq) == 0 {
			return nil // nothing is given, nothing changes
		}
		first := func(t *Term) bool {
			base, i, _ := partOf(t)
			return base == values && p.equal(i, tZeroInt)
		}
		for _, x := range []struct{ key, field string }{{"content-type", "ContentType"}, {"transfer-encoding", "TransferEncoding"}} {
			yes, no := false, false
			for _, t := range p.termsOf(func(t *Term) bool { return t.op == OEqFold }) {
				for k := 0; k < 2; k++ {
					if s, is := t.args[k].isStr(); is && strings.EqualFold(s, x.key) && t.args[1-k] == key {
						yes, no = yes || p.must(t), no || p.mustNot(t)
					}
				}
			}
			if yes {
				b.n[x.key]++
				c.ob(first(b.val(p, fields, x.field)), "Header:"+x.key, p.Pos, "%s passed as a header doesn't replace the current one (path: %s)", x.key, p.describe(c))
				return []string{x.field}
			}
			if x.key == "content-type" {
				// the other one is asked for on paths where this isn't
				continue
			}
			_ = no
		}
		c.ob(b.notFold(p, key, "content-type") && b.notFold(p, key, "transfer-encoding"), "Header:special", p.Pos, "a content type or transfer encoding is kept among the headers (path: %s)", p.describe(c))
		b.n["others"]++
		got, old := b.val(p, fields, "Headers"), mkLoadOfTyped(addrOf(fields, "Headers"), fieldType(b.fieldsT, "Headers"))
		if p.must(mkIntEq(mkLen(values), tZeroInt)) && p.equal(got, old) {
			return []string{"Headers"}
		}
		m := "values aren't walked"
		for _, r := range p.S.loopSeq {
			v := r.byCur(got)
			if v == nil {
				continue
			}
			if !p.equal(v.Entry, old) {
				m = "the headers set before are lost"
				continue
			}
			m = p.walk(r, values, func(q *Path, base, at *Term) {
				nx := q.Next[v.Name]
				okk := nx != nil && nx.op == OConcat && len(nx.args) == 2 && nx.args[0] == v.Cur && nx.args[1].op == OElems && len(nx.args[1].args) == 1
				if okk {
					el := nx.args[1].args[0]
					k, val := q.structField(el, el.typ, "Key"), q.structField(el, el.typ, "Value")
					bs, i, _ := partOf(val)
					okk = k == key && bs == base && q.equal(i, at)
				}
				c.ob(okk, "Header:each", q.Pos, "a value isn't kept under its key behind the earlier ones (path: %s)", q.describe(c))
			})
			break
		}
		c.ob(m == "", "Header:all", p.Pos, "not every value is kept: %s (path: %s)", m, p.describe(c))
		return []string{"Headers"}
	})
	for _, k := range []string{"content-type", "transfer-encoding", "others"} {
		c.ob(b.n[k] > 0, "Header:cases", header.Pos(), "no path for %s", k)
	}
	b.headersMap(header)
	// errors
	b.build(plain, "Error", func(p *Path, self, fields *Term, a []*Term) []string {
		same("Error", p, self)
		err, codes := a[0], a[1]
		if p.must(mkEq(err, tNil)) {
			b.n["nil"]++
			return nil
		}
		c.ob(p.mustNot(mkEq(err, tNil)), "Error:nil", p.Pos, "no error is taken for one (path: %s)", p.describe(c))
		got := b.val(p, fields, "Code")
		is := false
		for _, t := range p.termsOf(func(t *Term) bool { return t.op == OIsType }) {
			is = is || t.args[0] == err && types.Identical(t.typ, httpErr) && p.must(t)
		}
		if is {
			b.n["http"]++
			st := structOf(httpErr)
			okk := got.op == OFieldVal && st.Field(int(got.n)).Name() == "Code" && got.args[0].op == OAssert && got.args[0].args[0] == err
			c.ob(okk, "Error:code", p.Pos, "an HTTP error's code isn't the response's")
			return []string{"Code"}
		}
		msg := false
		for _, ev := range p.S.events {
			if ev.Kind == EvCall && strings.HasSuffix(ev.Name, "error).Error") && ev.Args[0] == err {
				msg = p.same(b.val(p, fields, "Body"), ev.Res[0])
			}
		}
		c.ob(msg, "Error:message", p.Pos, "the body isn't the error's text (path: %s)", p.describe(c))
		if base, i, _ := partOf(got); base == codes && p.equal(i, tZeroInt) {
			b.n["custom"]++
		} else {
			b.n["default"]++
			c.ob(p.equal(got, internal) && p.must(mkIntEq(mkLen(codes), tZeroInt)), "Error:default", p.Pos, "an error without a code isn't an internal one, or its code isn't the first given (path: %s)", p.describe(c))
		}
		return []string{"Code", "Body"}
	})
	for _, k := range []string{"nil", "http", "custom", "default"} {
		c.ob(b.n[k] > 0, "Error:cases", errorM.Pos(), "no path for the case %q", k)
	}
	// JSON
	b.build(b.eng(), "TryJSON", func(p *Path, self, fields *Term, a []*Term) []string {
		same("TryJSON", p, self)
		var stream, flushErr *Term
		emptied, wrote, flushed, given := -1, -1, -1, -1
		for _, ev := range p.S.events {
			switch {
			case ev.Kind == EvStore && ev.Addr == addrOf(fields, "Body"):
				if p.must(mkIntEq(mkLen(ev.Val), tZeroInt)) {
					emptied = ev.idx
				} else {
					c.ob(false, "TryJSON:body", ev.Pos, "the body isn't what is written to it")
				}
			case ev.Kind == EvCall && strings.HasSuffix(ev.Name, ".BorrowStream"):
				stream = ev.Res[0]
				c.ob(unwrapIface(ev.Args[1]) == self && emptied >= 0, "TryJSON:stream", ev.Pos, "JSON isn't written to the response, or behind what it had")
			case ev.Kind == EvCall && strings.HasSuffix(ev.Name, ").WriteVal"):
				if ev.Args[0] == stream && ev.Args[1] == a[0] {
					wrote = ev.idx
				}
			case ev.Kind == EvCall && strings.HasSuffix(ev.Name, ").Flush"):
				if ev.Args[0] == stream {
					flushed, flushErr = ev.idx, ev.Res[0]
				}
			case ev.Kind == EvCall && strings.HasSuffix(ev.Name, ".ReturnStream"):
				given = ev.idx
			}
		}
		if stream == nil {
			// some other way: the bytes marshalled
			for _, ev := range p.S.events {
				if ev.Kind == EvCall && (strings.HasSuffix(ev.Name, ".Marshal")) {
					fl := p.mustNot(mkEq(ev.Res[1], tNil)) || p.same(b.val(p, fields, "Body"), ev.Res[0])
					wrote, flushed, given, flushErr = 0, 1, 2, ev.Res[1]
					c.ob(fl && unwrapIface(ev.Args[len(ev.Args)-1]) == unwrapIface(a[0]), "TryJSON:written", ev.Pos, "the body isn't the model's JSON")
				}
			}
		}
		c.ob(wrote >= 0 && flushed > wrote && (given < 0 || given > flushed), "TryJSON:written", p.Pos, "the model isn't written completely (path: %s)", p.describe(c))
		c.ob(flushErr != nil && p.equal(p.Results[1], flushErr), "TryJSON:error", p.Pos, "a failure isn't reported (path: %s)", p.describe(c))
		c.ob(p.equal(b.val(p, fields, "ContentType"), jsonT) || flushErr != nil && p.mustNot(mkEq(flushErr, tNil)), "TryJSON:type", p.Pos, "the content type isn't that of JSON (path: %s)", p.describe(c))
		return []string{"Body", "ContentType"}
	})
	b.orError("JSON", tryJSON, errorM)
	// shortcuts
	for _, n := range []string{"Respond", "Code", "String", "Bytes", "File", "JSON", "Error"} {
		b.shortcut(n, respond)
	}
}

func mkLoadOfTyped(a *Term, t types.Type) *Term {
	return mk(Term{op: OLoad, args: []*Term{a}, typ: t})
}

// notFold: on this path, a key is no spelling of a name.
func (b *builder) notFold(p *Path, key *Term, name string) bool {
	for _, t := range p.termsOf(func(t *Term) bool { return t.op == OEqFold }) {
		for k := 0; k < 2; k++ {
			if s, is := t.args[k].isStr(); is && strings.EqualFold(s, name) && t.args[1-k] == key && p.mustNot(t) {
				return true
			}
		}
	}
	return false
}

// headersMap: every key of a map is passed to Header with its values, nothing else is.
func (b *builder) headersMap(header *ssa.Function) {
	c := b.Ctx
	fn := c.fn("http", "Response.Headers")
	if fn == nil {
		return
	}
	e := b.eng(header)
	self, m := paramSym(fn.Params[0]), paramSym(fn.Params[1])
	each, ends := 0, 0
	for _, p := range c.run(e, nil, fn, []*Term{self, m}) {
		mine := func(t *Term) bool {
			if t == self {
				return true
			}
			for _, r := range p.S.loopSeq {
				if v := r.byCur(t); v != nil && v.Entry == self {
					return true
				}
			}
			for _, ev := range p.S.events {
				if ev.Kind == EvCall && ev.Fn == header && ev.Res[0] == t {
					return true
				}
			}
			return false
		}
		rs := p.ranges()
		for _, ev := range p.S.events {
			c.ob(ev.Kind != EvStore, "Headers:only", ev.Pos, "Headers changes %s as well", ev.Addr)
		}
		if p.Kind == PBackEdge {
			each++
			ok := false
			k := 0
			for _, ev := range p.S.events {
				if ev.Kind == EvCall && ev.Fn == header && len(rs) == 1 {
					k++
					ok = mine(ev.Args[0]) && ev.Args[1] == rs[0].key && ev.Args[2] == rs[0].val && rs[0].m == m
				}
			}
			c.ob(ok && k == 1, "Headers:each", p.Pos, "a key's values aren't all set (path: %s)", p.describe(c))
		}
		if p.Kind == PReturn {
			ends++
			ok := len(rs) == 1 && rs[0].m == m && p.mustNot(rs[0].more)
			if !ok && len(rs) == 0 {
				ok = p.must(mkIntEq(mkLen(m), tZeroInt)) || p.must(mkEq(m, tNil))
			}
			c.ob(ok, "Headers:all", p.Pos, "not every key is set (path: %s)", p.describe(c))
			c.ob(mine(p.Results[0]), "Headers:chains", p.Pos, "Headers returns another response")
		}
	}
	c.ob(each > 0 && ends > 0, "Headers:cases", fn.Pos(), "Headers sets nothing")
}

// orError: the method is its trying variant, whose failures become the response's error.
func (b *builder) orError(name string, try, errorM *ssa.Function) {
	c := b.Ctx
	fn := c.fn("http", "Response."+name)
	if fn == nil || try == nil || errorM == nil {
		return
	}
	e := b.eng(try, errorM)
	self, arg := paramSym(fn.Params[0]), paramSym(fn.Params[1])
	good, bad := 0, 0
	for _, p := range c.run(e, nil, fn, []*Term{self, arg}) {
		if p.Kind != PReturn {
			continue
		}
		var t, er *Event
		for _, ev := range p.S.events {
			if ev.Kind == EvStore {
				c.ob(false, name+":only", ev.Pos, "%s changes %s as well", name, ev.Addr)
			}
			if ev.Kind != EvCall {
				continue
			}
			if ev.Fn == try {
				t = ev
			}
			if ev.Fn == errorM {
				er = ev
			}
		}
		if !c.ob(t != nil && t.Args[0] == self && t.Args[1] == arg, name+":tries", p.Pos, "%s doesn't do what it is named for (path: %s)", name, p.describe(c)) {
			continue
		}
		mine := func(x *Term) bool { return x == self || x == t.Res[0] }
		if p.must(mkEq(t.Res[1], tNil)) {
			good++
			c.ob(mine(p.Results[0]) && er == nil, name+":result", p.Pos, "%s returns another response", name)
			continue
		}
		bad++
		// reporting no error changes nothing, so it may be left to that
		c.ob(er != nil && mine(er.Args[0]) && er.Args[1] == t.Res[1] && (er.Res[0] == p.Results[0] || mine(p.Results[0])), name+":error", p.Pos, "%s hides a failure (path: %s)", name, p.describe(c))
		if er != nil {
			c.ob(p.must(mkIntEq(mkLen(er.Args[2]), tZeroInt)), name+":code", p.Pos, "%s reports failures with a code of its own", name)
		}
	}
	c.ob(bad > 0, name+":cases", fn.Pos(), "%s never fails", name)
}

// shortcut: a function is the method of the same name, of the request's cleared response.
func (b *builder) shortcut(name string, respond *ssa.Function) {
	c := b.Ctx
	fn := c.fn("http", name)
	if fn == nil {
		return
	}
	var m *ssa.Function
	if name != "Respond" {
		if m = c.fn("http", "Response."+name); m == nil {
			return
		}
	}
	e := b.eng(respond)
	if m != nil {
		e.Opaque = opaqueSet(respond, m)
	}
	var args []*Term
	for _, q := range fn.Params {
		args = append(args, paramSym(q))
	}
	n := 0
	for _, p := range c.run(e, nil, fn, args) {
		if p.Kind != PReturn {
			continue
		}
		n++
		var r, k *Event
		for _, ev := range p.S.events {
			if ev.Kind == EvCall && ev.Fn == respond {
				r = ev
			}
			if ev.Kind == EvCall && m != nil && ev.Fn == m {
				k = ev
			}
		}
		if !c.ob(r != nil && r.Args[0] == args[0], "shortcut:"+name, p.Pos, "%s doesn't answer the request", name) {
			continue
		}
		if m == nil {
			c.ob(p.Results[0] == r.Res[0], "shortcut:"+name, p.Pos, "%s returns another response", name)
			continue
		}
		ok := k != nil && k.Args[0] == r.Res[0] && (p.Results[0] == k.Res[0] || p.Results[0] == r.Res[0])
		for i := 1; ok && i < len(args); i++ {
			ok = k.Args[i] == args[i]
		}
		c.ob(ok, "shortcut:"+name, p.Pos, "%s isn't the method of that name of the request's response", name)
	}
	c.ob(n > 0, "shortcut:"+name, fn.Pos(), "%s has no path", name)
}

// the registered types of extensions of files
var extTypes = map[string]string{
	".avif": "image/avif", ".css": "text/css", ".gif": "image/gif", ".htm": "text/html", ".html": "text/html",
	".jpeg": "image/jpeg", ".jpg": "image/jpeg", ".js": "text/javascript", ".json": "application/json", ".mjs": "text/javascript",
	".pdf": "application/pdf", ".png": "image/png", ".svg": "image/svg+xml", ".wasm": "application/wasm", ".webp": "image/webp",
	".xml": "text/xml", ".gz": "application/gzip", ".sql": "application/sql", ".tzif": "application/tzif", ".yaml": "application/yaml",
	".xfdf": "application/xfdf", ".zip": "application/zip", ".zlib": "application/zlib", ".zstd": "application/zstd",
	".ico": "image/vnd.microsoft.icon",
}

func ruleC39(c *Ctx) {
	b := newBuilder(c)
	if b == nil {
		return
	}
	try, att, errorM := c.fn("http", "Response.TryFile"), c.fn("http", "Response.Attachment"), c.fn("http", "Response.Error")
	notFound, broken := c.global("http/status", "ErrNotFound"), c.global("http/status", "ErrInternalServerError")
	octet := c.strConst("http/mime", "OctetStream")
	if try == nil || att == nil || errorM == nil || notFound == nil || broken == nil || octet == nil {
		return
	}
	s, _ := octet.isStr()
	c.ob(s == "application/octet-stream", "type:default", try.Pos(), "the type of files of unknown content is %q", s)
	for _, k := range []struct{ name, want string }{{"PlainText", "text/plain"}, {"HTML", "text/html"}, {"JSON", "application/json"}} {
		if t := c.strConst("http/mime", k.name); t != nil {
			s, _ := t.isStr()
			c.ob(s == k.want, "type:"+k.name, 0, "the type %s is %q", k.name, s)
		}
	}
	e := b.eng(att)
	seen := map[string]bool{}
	b.build(e, "TryFile", func(p *Path, self, fields *Term, a []*Term) []string {
		var open, stat, dir, size, attach *Event
		closed := 0
		for _, ev := range p.S.events {
			if ev.Kind != EvCall {
				continue
			}
			switch {
			case ev.Name == "os.Open" || ev.Name == "os.OpenFile":
				open = ev
			case strings.HasSuffix(ev.Name, "os.File).Stat"):
				stat = ev
			case strings.HasSuffix(ev.Name, "FileInfo).IsDir"):
				dir = ev
			case strings.HasSuffix(ev.Name, "FileInfo).Size"):
				size = ev
			case strings.HasSuffix(ev.Name, "os.File).Close"):
				if open != nil && ev.Args[0] == open.Res[0] {
					closed++
				}
			case ev.Fn == att:
				attach = ev
			}
		}
		if !c.ob(open != nil && open.Name == "os.Open" && open.Args[0] == a[0], "file:opened", p.Pos, "the file isn't opened for reading (path: %s)", p.describe(c)) {
			return nil
		}
		refuse := func(why string, err *Term, closes int) {
			b.n[why]++
			c.ob(p.Results[0] == self && p.equal(unwrapIface(p.Results[1]), unwrapIface(err)), "file:"+why, p.Pos, "a file that is %s isn't refused so (path: %s)", why, p.describe(c))
			c.ob(closed == closes && attach == nil, "file:closed", p.Pos, "a file that is %s is closed %d times, or attached (path: %s)", why, closed, p.describe(c))
		}
		if p.mustNot(mkEq(open.Res[1], tNil)) {
			refuse("missing", notFound, 0)
			return nil
		}
		if !c.ob(p.must(mkEq(open.Res[1], tNil)) && stat != nil && stat.Args[0] == open.Res[0], "file:checked", p.Pos, "a file is used although it may not be open, or unseen (path: %s)", p.describe(c)) {
			return nil
		}
		if p.mustNot(mkEq(stat.Res[1], tNil)) {
			refuse("unreadable", broken, 1)
			return nil
		}
		if !c.ob(p.must(mkEq(stat.Res[1], tNil)) && dir != nil && dir.Args[0] == stat.Res[0], "file:checked", p.Pos, "a directory may be taken for a file (path: %s)", p.describe(c)) {
			return nil
		}
		if p.must(dir.Res[0]) {
			refuse("a directory", notFound, 1)
			return nil
		}
		b.n["served"]++
		c.ob(p.mustNot(dir.Res[0]), "file:checked", p.Pos, "a directory may be taken for a file (path: %s)", p.describe(c))
		ok := attach != nil && size != nil && size.Args[0] == stat.Res[0] && attach.Args[0] == self && unwrapIface(attach.Args[1]) == open.Res[0] && stripConv(attach.Args[2]) == size.Res[0]
		c.ob(ok && closed == 0 && p.must(mkEq(p.Results[1], tNil)), "file:attached", p.Pos, "an open file isn't attached with its size (path: %s)", p.describe(c))
		c.ob(attach != nil && (p.Results[0] == attach.Res[0] || p.Results[0] == self), "file:chains", p.Pos, "another response is returned")
		// its type
		var ext *Term
		for _, ev := range p.S.events {
			if ev.Kind == EvCall && (ev.Name == "path/filepath.Ext" || ev.Name == "path.Ext") && ev.Args[0] == a[0] {
				ext = ev.Res[0]
			}
		}
		if !c.ob(ext != nil, "file:type", p.Pos, "the type of a file isn't told by its extension (path: %s)", p.describe(c)) {
			return []string{"ContentType", "Attachment"}
		}
		got := b.val(p, fields, "ContentType")
		gs, isC := got.isStr()
		key := ""
		for _, t := range p.termsOf(func(t *Term) bool { return t.isStrConst() }) {
			if s, _ := t.isStr(); strings.HasPrefix(s, ".") && p.must(mkEq(ext, t)) {
				key = s
			}
		}
		for k := range extTypes {
			if key == "" && p.must(mkEq(ext, mkStr(k))) {
				key = k
			}
		}
		c.ob(isC, "file:type", p.Pos, "a file's type is %s (path: %s)", got, p.describe(c))
		base := strings.TrimSpace(strings.SplitN(gs, ";", 2)[0])
		if want, known := extTypes[key]; known {
			seen[key] = true
			c.ob(base == want, "file:type-of", p.Pos, "a %s file is said to be %q", key, gs)
			if strings.HasPrefix(want, "text/") {
				c.ob(strings.Contains(strings.ToLower(gs), "charset=utf-8"), "file:charset", p.Pos, "the type of %s files has no charset", key)
			} else {
				c.ob(base == gs, "file:charset", p.Pos, "the type of %s files is %q", key, gs)
			}
		} else if key != "" {
			c.ob(strings.Count(base, "/") == 1 && !strings.ContainsAny(base, " \r\n\t"), "file:type-of", p.Pos, "a %s file is said to be %q", key, gs)
		} else {
			b.n["unknown"]++
			c.ob(p.equal(got, octet), "file:unknown", p.Pos, "a file whose extension is unknown is said to be %q (path: %s)", gs, p.describe(c))
			for k := range extTypes {
				c.ob(p.mustNot(mkEq(ext, mkStr(k))), "file:type-of", p.Pos, "a %s file's type isn't known", k)
			}
		}
		return []string{"ContentType", "Attachment"}
	})
	for _, k := range []string{"missing", "unreadable", "a directory", "served", "unknown"} {
		c.ob(b.n[k] > 0, "file:cases", try.Pos(), "no path for a file that is %s", k)
	}
	for k := range extTypes {
		c.ob(seen[k], "file:type-of", try.Pos(), "%s files aren't told apart", k)
	}
	b.orError("File", try, errorM)
}

func stripConv(t *Term) *Term {
	for t.op == OConv {
		t = t.args[0]
	}
	return t
}

func (t *Term) isStrConst() bool { _, ok := t.isStr(); return ok }

package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C20", "Symbolic rope of everything a response puts into the output buffer, compared with the message the response stands for; loops over headers, default headers and cookies decided per iteration.", 40, ruleC20)
	register("C21", "Path-sensitive decision table of the result of writing a response over protocol, connection header, upgrade and write outcomes.", 10, ruleC21)
	register("C22", "Per-iteration analysis of the attachment loops: what is read, framed and written, and what happens on every way out.", 20, ruleC22)
}

// addrOf: the address of a (nested) field.
func addrOf(base *Term, names ...string) *Term {
	for _, n := range names {
		t := deref(base.typ)
		st := structOf(t)
		if st == nil {
			return nil
		}
		found := false
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				base = mkFieldAddr(base, i, st, t)
				found = true
				break
			}
		}
		if !found {
			return nil
		}
	}
	return base
}

func loadField(s *State, base *Term, names ...string) *Term {
	a := addrOf(base, names...)
	if a == nil {
		return nil
	}
	return s.load(a, deref(a.typ))
}

// fieldByName: a field of a struct value.
func fieldByName(v *Term, typ types.Type, name string) *Term {
	st := structOf(typ)
	if st == nil {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return mkFieldVal(v, i, st.Field(i).Type())
		}
	}
	return nil
}

// respWrite is the analysis of writing a response that several properties look at.
type respWrite struct {
	c                      *Ctx
	e                      *Engine
	fn                     *ssa.Function
	ps                     []*Path
	s0                     *State
	d, proto, resp, fields *Term
	content, size          *Term
	line, text, pstr       *ssa.Function
	reset                  *ssa.Function
	kinds                  map[*LoopRec]loopKind
}

type loopKind struct {
	kind string
	src  *Term
}

// silent: a method of the writer that only prepares output: it returns nothing and writes nothing.
func (c *Ctx) silent(fn *ssa.Function) bool {
	if fn.Signature.Recv() == nil || fn.Signature.Results().Len() > 0 || !strings.HasSuffix(typeStr(fn.Signature.Recv().Type()), "http1.Serializer") {
		return false
	}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if seen[f] {
			return true
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case ssa.CallInstruction:
					if x.Common().IsInvoke() {
						return false
					}
					switch v := x.Common().Value.(type) {
					case *ssa.Function:
						if len(v.Blocks) > 0 && isRepoFn(v) && !visit(v) {
							return false
						}
					case *ssa.Builtin:
					default:
						return false
					}
				case *ssa.Panic:
					return false
				case *ssa.Store:
					// only the writer's own buffers
					a := x.Addr
					for {
						if ia, ok := a.(*ssa.IndexAddr); ok {
							a = ia.X
							continue
						}
						break
					}
					switch v := a.(type) {
					case *ssa.Alloc, *ssa.Parameter, *ssa.UnOp, *ssa.Slice:
						if _, ok := x.Addr.(*ssa.IndexAddr); !ok {
							if _, ok := v.(*ssa.Alloc); !ok {
								return false
							}
						}
					case *ssa.FieldAddr:
						if v.X.Type() != v.Parent().Params[0].Type() && !strings.HasSuffix(typeStr(v.X.Type()), "http1.defaultHeader") {
							if _, ok := v.X.(*ssa.Alloc); !ok {
								return false
							}
						}
						if n := structOf(deref(v.X.Type())).Field(v.Field).Name(); n == "request" || n == "writer" || n == "fileBuff" {
							return false
						}
					default:
						return false
					}
				}
			}
		}
		return true
	}
	return visit(fn)
}

func isRepoFn(f *ssa.Function) bool { return f.Pkg != nil && isRepoPkg(f.Pkg.Pkg) }

func (c *Ctx) respWrite(name string, outcome bool) *respWrite {
	const pkg = "internal/protocol/http1"
	w := &respWrite{c: c, fn: c.fn(pkg, "Serializer."+name), line: c.fn("http/status", "Line"), text: c.fn("http/status", "Text"), pstr: c.fn("http/proto", "Proto.String")}
	reveal := c.fn("http", "Response.Reveal")
	ac, as := c.fn("internal/types", "Attachment.Content"), c.fn("internal/types", "Attachment.Size")
	if w.fn == nil || w.line == nil || w.text == nil || w.pstr == nil || reveal == nil || ac == nil || as == nil {
		return nil
	}
	w.reset = c.P.Func(pkg, "defaultHeaders.Reset")
	e := c.engine()
	e.Bounds = false // a file buffer too small to frame anything is a matter of configuration
	pure := opaqueSet(w.line, w.text, w.pstr)
	quiet := map[*ssa.Function]bool{}
	e.Opaque = func(f *ssa.Function) bool {
		if pure(f) || w.reset != nil && f == w.reset {
			return true
		}
		if outcome && f != w.fn {
			q, ok := quiet[f]
			if !ok {
				q = c.silent(f)
				quiet[f] = q
			}
			return q
		}
		return false
	}
	e.Pure = func(n string) bool { return n == fnName(w.line) || n == fnName(w.text) || n == fnName(w.pstr) }
	e.NoHavoc = func(n string) bool {
		if w.reset != nil && n == fnName(w.reset) {
			return true
		}
		for f, q := range quiet {
			if q && fnName(f) == n {
				return true
			}
		}
		return false
	}
	w.e = e
	var args []*Term
	for _, p := range w.fn.Params {
		t := paramSym(p)
		args = append(args, t)
		switch types.TypeString(p.Type(), func(p *types.Package) string { return p.Name() }) {
		case "proto.Proto":
			w.proto = t
		case "*http.Response":
			w.resp = t
		}
	}
	w.d = args[0]
	if !c.ob(w.proto != nil && w.resp != nil, "writer:arguments", w.fn.Pos(), "writing a response takes no protocol or no response") {
		return nil
	}
	s := newState()
	s.F.assume(mkEq(w.d, mkNil(w.d.typ)), false)
	w.s0 = s.clone()
	one := func(fn *ssa.Function, a *Term) *Term {
		ps := returns(c.run(e, w.s0.clone(), fn, []*Term{a}))
		if !c.ob(len(ps) == 1, "accessor:"+fnName(fn), fn.Pos(), "%s is no plain accessor", fn) {
			return nil
		}
		return ps[0].Results[0]
	}
	if w.fields = one(reveal, w.resp); w.fields == nil {
		return nil
	}
	att := loadField(w.s0, w.fields, "Attachment")
	if !c.ob(att != nil, "fields:attachment", w.fn.Pos(), "a response has no attachment") {
		return nil
	}
	w.content, w.size = one(ac, att), one(as, att)
	if w.content == nil || w.size == nil {
		return nil
	}
	w.ps = c.run(e, s, w.fn, args)
	c.show(w.ps)
	return w
}

func (w *respWrite) f(name string) *Term { return loadField(w.s0, w.fields, name) }

func (w *respWrite) writes(evs []*Event) (out []*Event) {
	for _, ev := range evs {
		if ev.Kind == EvCall && nameMatches(ev.Name, "http1.Writer).Write") {
			out = append(out, ev)
		}
	}
	return
}

// lines splits a rope at line ends; the rest after the empty line is returned separately.
func (w *respWrite) lines(r []piece) (head [][]piece, body []piece, ok bool) {
	var cur []piece
	for i, x := range r {
		if x.loop != nil {
			if len(cur) > 0 {
				return nil, nil, false
			}
			head = append(head, []piece{x})
			continue
		}
		if x.t != nil {
			cur = append(cur, x)
			if x.t.op == OCall && x.t.name == fnName(w.line) { // carries its line end
				head = append(head, cur)
				cur = nil
			}
			continue
		}
		s := x.s
		for {
			k := strings.Index(s, "\r\n")
			if k < 0 {
				break
			}
			if k == 0 && len(cur) == 0 { // the empty line
				if rest := s[2:]; rest != "" {
					body = append(body, piece{s: rest})
				}
				return head, append(body, r[i+1:]...), true
			}
			if k > 0 {
				cur = append(cur, piece{s: s[:k]})
			}
			head = append(head, cur)
			cur = nil
			s = s[k+2:]
		}
		if s != "" {
			cur = append(cur, piece{s: s})
		}
	}
	return head, nil, false
}

func (p *Path) pieces(got []piece, want ...any) bool {
	if len(got) != len(want) {
		return false
	}
	for i, x := range want {
		switch v := x.(type) {
		case string:
			if got[i].t != nil || got[i].loop != nil || got[i].s != v {
				return false
			}
		case *Term:
			if s, ok := v.isStr(); ok && got[i].t == nil && got[i].loop == nil && got[i].s == s {
				continue
			}
			if got[i].t == nil || v == nil || !p.equal(got[i].t, v) {
				return false
			}
		}
	}
	return true
}

// walk: the loop visits every element of src once, in order; per is called for each way through
// an iteration with the index of its element.
func (p *Path) walk(r *LoopRec, src *Term, per func(q *Path, base, at *Term)) string {
	best := "the loop does not walk it"
	for _, v := range r.Vars {
		var cu cursor
		if isNumTerm(v.Cur) {
			n, ok := v.Entry.isInt()
			if !ok {
				continue
			}
			cu = cursor{name: v.Name, off: -n}
		} else if b, _, _ := seqParts(v.Entry); b == src {
			cu = cursor{name: v.Name, suffix: true}
		} else {
			continue
		}
		at := func() (*Term, *Term) {
			if cu.suffix {
				b, lo, _ := seqParts(v.Cur)
				return b, lo
			}
			return src, mkAddC(v.Cur, cu.off)
		}
		base, i := at()
		if !p.S.F.le(mkLen(base), i) {
			best = "the loop may end before its last element"
			continue
		}
		bad := ""
		for _, q := range r.Backs {
			nx := cu.next(q, src)
			if nx == nil || !q.S.F.eqInt(nx, mkAddC(i, 1)) {
				bad = "an iteration does not advance by one element"
				break
			}
			if !q.S.F.lt(i, mkLen(base)) {
				bad = "an iteration may lie behind the last element"
				break
			}
		}
		if bad != "" {
			best = bad
			continue
		}
		if per != nil {
			for _, q := range r.Backs {
				per(q, base, i)
			}
		}
		return ""
	}
	return best
}

// headOb compares what is in the buffer with the message head due.
func (w *respWrite) headOb(p *Path, key string, val *Term, interim bool, announced func(p *Path, lines []([]piece)) string) (body []piece) {
	c := w.c
	r, ok := p.rope(val, nil)
	bad := func(k, f string, a ...any) {
		c.ob(false, key+":"+k, p.Pos, "%s; the output is %s (path: %s)", fmt.Sprintf(f, a...), ropeString(r), p.describe(c))
	}
	good := func(k string) { c.ob(true, key+":"+k, p.Pos, "") }
	if len(r) > 0 && r[0].t != nil && fieldOf(r[0].t, w.d, "buff") || len(r) > 0 && r[0].t != nil && r[0].t.op == OLoad && r[0].t.args[0].op == OFieldAddr && r[0].t.args[0].args[0] == w.d {
		r = r[1:] // what was there before
	}
	if !ok {
		bad("message", "the output isn't built by appending")
		return
	}
	head, body, ok := w.lines(r)
	if !ok || len(head) == 0 {
		bad("message", "the output is no message head")
		return
	}
	// the status line
	code, stat := w.f("Code"), w.f("Status")
	isProto := func(x piece) bool {
		return x.t != nil && x.t.op == OCall && x.t.name == fnName(w.pstr) && p.equal(x.t.args[0], w.proto)
	}
	l0 := head[0]
	okLine := false
	if len(l0) >= 2 && isProto(l0[0]) {
		rest := l0[1:]
		custom := mkNot(mkEq(stat, mkStr("")))
		lineT := mkCallT(fnName(w.line), types.Typ[types.String], code)
		if len(rest) == 1 && rest[0].t != nil && rest[0].t.op == OCall && rest[0].t.name == fnName(w.line) {
			okLine = p.equal(rest[0].t.args[0], code) && p.mustNot(custom) && p.mustNot(mkIntEq(mkLen(rest[0].t), tZeroInt))
		} else if p.must(custom) {
			okLine = p.pieces(rest, mkFmtInt(code, mkInt(10)), " ", stat)
		} else if p.mustNot(custom) {
			n := len(rest)
			okLine = n >= 2 && p.pieces(rest[:2], mkFmtInt(code, mkInt(10)), " ") &&
				(n == 3 && rest[2].t != nil && rest[2].t.op == OCall && rest[2].t.name == fnName(w.text) && p.equal(rest[2].t.args[0], code) || n == 2)
			_ = lineT
		}
	}
	if !okLine {
		bad("status-line", "the first line is %s", ropeString(l0))
		return
	}
	good("status-line")
	hdrs, cooks := w.f("Headers"), w.f("Cookies")
	seen := map[string]int{}
	te := 0
	for _, l := range head[1:] {
		switch {
		case len(l) == 1 && l[0].loop != nil:
			kind := w.loopKind(p, key, l[0], hdrs, cooks)
			if kind == "defaults" && seen["headers"] == 0 {
				bad("defaults", "default headers are written before those replacing them are known")
			}
			if seen[kind]++; seen[kind] > 1 {
				bad(kind, "the %s are written twice", kind)
			}
		case p.pieces(l, "Content-Type: ", w.f("ContentType")) || len(l) == 1 && p.pieces(l, "Content-Type: ") && p.must(mkEq(w.f("ContentType"), mkStr(""))):
			seen["content-type"]++
		case len(l) >= 1 && l[0].t == nil && strings.HasPrefix(l[0].s, "Transfer-Encoding: "):
			seen["transfer-encoding"]++
			te++
		case len(l) >= 1 && l[0].t == nil && strings.HasPrefix(l[0].s, "Content-Length: "):
			seen["content-length"]++
		default:
			bad("nothing-else", "the head has a line %s", ropeString(l))
		}
	}
	need := []string{"headers", "defaults", "content-type"}
	if !interim {
		need = append(need, "cookies")
	}
	for _, k := range need {
		if k == "headers" && seen[k] == 0 && p.must(mkIntEq(mkLen(hdrs), tZeroInt)) || k == "cookies" && seen[k] == 0 && p.must(mkIntEq(mkLen(cooks), tZeroInt)) {
			continue
		}
		if seen[k] != 1 {
			bad(k, "the %s are written %d times", k, seen[k])
		} else {
			good(k)
		}
	}
	if m := announced(p, head[1:]); m != "" {
		bad("framing", "%s", m)
	} else {
		good("framing")
	}
	return body
}

// loopKind recognises what a loop writes, and checks each of its iterations.
func (w *respWrite) loopKind(p *Path, key string, x piece, hdrs, cooks *Term) string {
	c := w.c
	r := x.loop
	if k, ok := w.kinds[r]; ok && k.src != nil {
		if m := p.walk(r, k.src, nil); m != "" {
			c.ob(false, key+":"+k.kind+":all", p.Pos, "not all %s are written: %s", k.kind, m)
		}
		return k.kind
	}
	if w.kinds == nil {
		w.kinds = map[*LoopRec]loopKind{}
	}
	out := func(q *Path) []piece {
		o, ok := q.rope(q.Next[x.lv.Name], x.lv.Cur)
		if !ok {
			return []piece{{s: "?"}}
		}
		return o
	}
	why := ""
	bad := func(k string, q *Path, f string, a ...any) {
		c.ob(false, key+":"+k, q.Pos, "%s (path: %s)", fmt.Sprintf(f, a...), q.describe(c))
	}
	defs := r.HeadS.F
	_ = defs
	if m := p.walk(r, hdrs, nil); m == "" {
		ht := elemT(hdrs.typ)
		p.walk(r, hdrs, func(q *Path, base, at *Term) {
			h := mkElem(base, at, ht)
			o := out(q)
			k, v := fieldByName(h, ht, "Key"), fieldByName(h, ht, "Value")
			if q.pieces(o, k, ": ", v, "\r\n") {
				c.ob(true, key+":header-line", q.Pos, "")
			} else {
				bad("header-line", q, "for a response header %s is written", ropeString(o))
			}
			w.excludeOb(q, key, r, k)
		})
		w.kinds[r] = loopKind{"headers", hdrs}
		return "headers"
	} else {
		why = m
	}
	if m := p.walk(r, cooks, nil); m == "" {
		ct := elemT(cooks.typ)
		p.walk(r, cooks, func(q *Path, base, at *Term) {
			w.cookieOb(q, key, mkElem(base, at, ct), ct, out(q))
		})
		w.kinds[r] = loopKind{"cookies", cooks}
		return "cookies"
	}
	// default headers: some field of the writer
	for _, t := range p.termsOf(func(t *Term) bool {
		return t.op == OLoad && t.args[0].op == OFieldAddr && t.args[0].args[0] == w.d && t.typ != nil && isDefaults(t.typ)
	}) {
		if m := p.walk(r, t, nil); m == "" {
			dt := elemT(t.typ)
			p.walk(r, t, func(q *Path, base, at *Term) {
				h := mkElem(base, at, dt)
				o := out(q)
				full := fieldByName(h, dt, "Full")
				ex := w.excluded(q, base, at, dt)
				switch {
				case ex != nil && q.mustNot(ex):
					if !q.pieces(o, full) {
						bad("default-line", q, "for a default header that nothing replaces %s is written", ropeString(o))
					}
				case ex != nil && q.must(ex):
					if len(o) > 0 {
						bad("default-line", q, "for a replaced default header %s is written", ropeString(o))
					}
				default:
					bad("default-line", q, "whether a default header was replaced isn't looked at; written: %s", ropeString(o))
				}
			})
			c.ob(true, key+":default-line", p.Pos, "")
			w.kinds[r] = loopKind{"defaults", t}
			return "defaults"
		} else {
			why = m
		}
	}
	c.ob(false, key+":loops", p.Pos, "a loop writes something that isn't known: %s", why)
	return "unknown"
}

func isDefaults(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	st := structOf(sl.Elem())
	if st == nil {
		return false
	}
	n := 0
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "Excluded", "Key", "Full":
			n++
		}
	}
	return n == 3
}

// excluded: the mark a default header carries on the path.
func (w *respWrite) excluded(q *Path, base, at *Term, dt types.Type) *Term {
	return loadField(q.S, mkIndexAddr(base, at, dt), "Excluded")
}

// excludeOb: the default header of the same name, if any, is marked as replaced in this iteration,
// and no other is.
func (w *respWrite) excludeOb(q *Path, key string, r *LoopRec, k *Term) {
	c := w.c
	marked := 0
	for _, ev := range q.S.events[r.NEv:] {
		if ev.Kind != EvStore {
			continue
		}
		a := ev.Addr
		name := ""
		if a.op == OFieldAddr {
			name = a.name
			a = a.args[0]
		}
		if a.op != OIndexAddr || a.typ == nil || !isDefaults(types.NewSlice(deref(a.typ))) {
			continue
		}
		val := ev.Val
		dt := deref(a.typ)
		switch name {
		case "Key", "Full":
			// stores of whole elements: these stay what they are
			el := fieldByName(mkElem(a.args[0], a.args[1], dt), dt, name)
			c.ob(q.equal(val, el), key+":replaced:only-marked", ev.Pos, "replacing a default header changes its %s", name)
			continue
		case "":
			if val.op != OAgg {
				continue
			}
			v := fieldByName(val, dt, "Excluded")
			if v == nil {
				continue
			}
			val = v
		}
		dk := fieldByName(mkElem(a.args[0], a.args[1], dt), dt, "Key")
		if q.must(val) {
			c.ob(q.must(mkEqFold(dk, k)) || q.must(mkEqFold(k, dk)), key+":replaced:same-name", ev.Pos, "a default header of another name is replaced (path: %s)", q.describe(c))
			marked++
		} else {
			c.ob(false, key+":replaced:marks", ev.Pos, "a default header is marked with %s", val)
		}
	}
	if marked > 0 {
		c.ob(true, key+":replaced:found", q.Pos, "")
		return
	}
	// none of that name
	ok := false
	for _, t := range q.termsOf(func(t *Term) bool { return t.typ != nil && t.op == OLoad && isDefaults(t.typ) }) {
		dt := elemT(t.typ)
		if q.noneBefore(tZeroInt, mkLen(t), func(j *Term) *Term { return mkEqFold(fieldByName(mkElem(t, j, dt), dt, "Key"), k) }) {
			ok = true
		}
	}
	c.ob(ok, key+":replaced:found", q.Pos, "a default header of the same name may stay (path: %s)", q.describe(c))
}

// cookieOb: the line of one cookie.
func (w *respWrite) cookieOb(q *Path, key string, ck *Term, ct types.Type, o []piece) {
	c := w.c
	f := func(n string) *Term { return fieldByName(ck, ct, n) }
	for _, n := range []string{"Name", "Value", "Path", "Domain", "Expires", "MaxAge", "SameSite", "Secure", "HttpOnly"} {
		if f(n) == nil {
			c.ob(false, key+":cookie:"+n, q.Pos, "a cookie has no %s", n)
			return
		}
	}
	want := []any{"Set-Cookie: ", f("Name"), "=", f("Value")}
	str := func(s string) {
		if l, ok := want[len(want)-1].(string); ok {
			want[len(want)-1] = l + s
		} else {
			want = append(want, s)
		}
	}
	undecided := ""
	yes := func(n string, t *Term) bool {
		if q.must(t) {
			return true
		}
		if !q.mustNot(t) {
			undecided += " " + n
		}
		return false
	}
	for _, n := range []string{"Path", "Domain"} {
		if yes(n, mkNot(mkEq(f(n), mkStr("")))) {
			str("; " + n + "=")
			want = append(want, f(n))
		}
	}
	gotExp := (*Term)(nil)
	for i, x := range o {
		if x.t == nil && strings.HasSuffix(x.s, "; Expires=") && i+1 < len(o) {
			gotExp = o[i+1].t
		}
	}
	zero := (*Term)(nil)
	for _, t := range q.termsOf(func(t *Term) bool {
		return t.op == OCall && strings.HasSuffix(t.name, "time.Time).IsZero") && q.equal(t.args[0], f("Expires"))
	}) {
		zero = t
	}
	if zero == nil {
		undecided += " Expires"
	} else if yes("Expires", mkNot(zero)) {
		str("; Expires=")
		okE := false
		if gotExp != nil && gotExp.op == OCall && strings.HasSuffix(gotExp.name, "time.Time).Format") {
			lay, _ := gotExp.args[1].isStr()
			in := gotExp.args[0]
			okE = lay == "Mon, 02 Jan 2006 15:04:05 MST" && in.op == OCall && strings.HasSuffix(in.name, "time.Time).In") && q.equal(in.args[0], f("Expires")) && strings.HasSuffix(in.args[1].String(), "gmt")
		}
		if !okE {
			c.ob(false, key+":cookie:expires", q.Pos, "the expiry of a cookie is written as %v", gotExp)
		}
		want = append(want, gotExp)
	}
	age := f("MaxAge")
	if yes("MaxAge", mkNot(mkIntEq(age, tZeroInt))) {
		str("; MaxAge=")
		if yes("MaxAge>0", mkLt(tZeroInt, age)) {
			want = append(want, mkFmtInt(age, mkInt(10)))
		} else {
			str("0")
		}
	}
	if yes("SameSite", mkNot(mkEq(f("SameSite"), mkStr("")))) {
		str("; SameSite=")
		want = append(want, f("SameSite"))
	}
	if yes("Secure", f("Secure")) {
		str("; Secure")
	}
	if yes("HttpOnly", f("HttpOnly")) {
		str("; HttpOnly")
	}
	str("\r\n")
	if undecided != "" {
		c.ob(false, key+":cookie:attributes", q.Pos, "attributes of a cookie don't decide about its line:%s; written: %s", undecided, ropeString(o))
		return
	}
	c.ob(q.pieces(o, want...), key+":cookie:line", q.Pos, "a cookie is written as %s where %v is due", ropeString(o), want)
}

// framing: the content length or the transfer coding due.
func (w *respWrite) framing(kind string, length *Term) func(p *Path, lines [][]piece) string {
	return func(p *Path, lines [][]piece) string {
		cl, te := 0, 0
		teV := w.f("TransferEncoding")
		for _, l := range lines {
			if len(l) == 0 || l[0].loop != nil || l[0].t != nil {
				continue
			}
			if strings.HasPrefix(l[0].s, "Content-Length: ") {
				cl++
				if kind == "chunked" || kind == "none" || !p.pieces(l, "Content-Length: ", mkFmtInt(length, mkInt(10))) {
					return "the length is announced as " + ropeString(l)
				}
			}
			if strings.HasPrefix(l[0].s, "Transfer-Encoding: ") {
				te++
				if kind == "chunked" {
					if !p.pieces(l, "Transfer-Encoding: chunked") {
						return "the coding is announced as " + ropeString(l)
					}
				} else if !p.pieces(l, "Transfer-Encoding: ", teV) || !p.mustNot(mkEq(teV, mkStr(""))) {
					return "the coding is announced as " + ropeString(l)
				}
			}
		}
		switch kind {
		case "chunked":
			if te != 1 || cl != 0 {
				return fmt.Sprintf("a content of unknown length is announced by %d codings and %d lengths", te, cl)
			}
		case "none":
			if cl != 0 {
				return "an interim response announces a length"
			}
		default:
			if cl != 1 {
				return fmt.Sprintf("the length is announced %d times", cl)
			}
		}
		if kind != "chunked" && te == 0 && !p.must(mkEq(teV, mkStr(""))) {
			return "a coding the response asks for isn't announced"
		}
		return ""
	}
}

func (w *respWrite) isHead(p *Path) (yes, known bool) {
	head, ok := w.c.constOf("http/method", "HEAD")
	if !ok {
		return false, false
	}
	for _, t := range p.termsOf(func(t *Term) bool {
		return t.op == OLoad && t.args[0].op == OFieldAddr && t.args[0].name == "Method" && fieldOf(t.args[0].args[0], w.d, "request")
	}) {
		if p.must(mkIntEq(t, head)) {
			return true, true
		}
		if p.mustNot(mkIntEq(t, head)) {
			return false, true
		}
	}
	return false, false
}

func ruleC20(c *Ctx) {
	w := c.respWrite("Write", false)
	if w == nil {
		return
	}
	none := mkEq(w.content, mkNil(w.content.typ))
	for _, p := range w.ps {
		if p.Kind == PPanic {
			c.ob(false, "no-panic", p.Pos, "writing a response may panic (path: %s)", p.describe(c))
		}
		if p.Kind != PReturn {
			continue
		}
		ws := w.writes(p.S.events)
		if len(ws) == 0 {
			c.ob(false, "written", p.Pos, "nothing is written (path: %s)", p.describe(c))
			continue
		}
		c.ob(fieldOf(ws[0].Args[0], w.d, "writer"), "written:to", p.Pos, "the response goes to %s", ws[0].Args[0])
		switch {
		case p.must(none):
			body := w.headOb(p, "plain", ws[0].Args[1], false, w.framing("sized", mkLen(w.f("Body"))))
			c.ob(len(ws) == 1, "plain:once", p.Pos, "a response is written in %d pieces", len(ws))
			head, known := w.isHead(p)
			want := []any{w.f("Body")}
			if p.must(mkIntEq(mkLen(w.f("Body")), tZeroInt)) {
				want = nil
			}
			if known && head {
				want = nil
			}
			c.ob(known || want == nil, "plain:body:method", p.Pos, "whether the request was a HEAD isn't looked at")
			c.ob(p.pieces(body, want...), "plain:body", p.Pos, "the head is followed by %s where %v is due (path: %s)", ropeString(body), want, p.describe(c))
		case p.mustNot(none):
			var body []piece
			switch {
			case p.must(mkLt(tZeroInt, w.size)):
				body = w.headOb(p, "attachment", ws[0].Args[1], false, w.framing("sized", w.size))
			case p.mustNot(mkLt(tZeroInt, w.size)):
				body = w.headOb(p, "attachment", ws[0].Args[1], false, w.framing("chunked", nil))
			default:
				c.ob(false, "attachment:size", p.Pos, "the size of an attachment isn't looked at")
			}
			c.ob(len(body) == 0, "attachment:head-only", p.Pos, "the head is followed by %s", ropeString(body))
		default:
			c.ob(false, "attachment:looked-at", p.Pos, "whether there is an attachment isn't looked at")
		}
		w.clearedOb(p)
	}
	w.resetOb()
	// interim responses
	v := c.respWrite("PreWrite", false)
	if v == nil {
		return
	}
	for _, p := range returns(v.ps) {
		c.ob(len(v.writes(p.S.events)) == 0, "interim:kept-back", p.Pos, "an interim response is sent by itself")
		body := v.headOb(p, "interim", loadField(p.S, v.d, "buff"), true, v.framing("none", nil))
		c.ob(len(body) == 0, "interim:head-only", p.Pos, "an interim response has a body %s", ropeString(body))
	}
	w.ctorOb()
}

// clearedOb: nothing of a response is left behind for the next one.
func (w *respWrite) clearedOb(p *Path) {
	c := w.c
	b := loadField(p.S, w.d, "buff")
	c.ob(b != nil && p.must(mkIntEq(mkLen(b), tZeroInt)), "cleared:buffer", p.Pos, "a response stays in the buffer (path: %s)", p.describe(c))
	ok := false
	if w.reset != nil {
		for _, ev := range p.S.events {
			if ev.Kind == EvCall && ev.Name == fnName(w.reset) {
				ok = p.same(ev.Args[0], loadField(p.S, w.d, "defaultHeaders")) || isDefaults(ev.Args[0].typ)
			}
		}
	}
	for _, r := range p.S.loopSeq {
		if w.unmarks(p, r) {
			ok = true
		}
	}
	c.ob(ok, "cleared:defaults", p.Pos, "default headers replaced in one response stay replaced in the next one (path: %s)", p.describe(c))
}

// unmarks: the loop clears the mark of every default header.
func (w *respWrite) unmarks(p *Path, r *LoopRec) bool {
	for _, t := range p.termsOf(func(t *Term) bool { return t.typ != nil && isDefaults(t.typ) }) {
		good := true
		n := 0
		m := p.walk(r, t, func(q *Path, base, at *Term) {
			n++
			ex := w.excluded(q, base, at, elemT(t.typ))
			if ex == nil || !q.mustNot(ex) {
				good = false
			}
		})
		if m == "" && good && n > 0 {
			return true
		}
	}
	return false
}

func (w *respWrite) resetOb() {
	c := w.c
	if w.reset == nil {
		return
	}
	e := c.engine()
	e.Bounds = false // a file buffer too small to frame anything is a matter of configuration
	for _, p := range returns(c.run(e, newState(), w.reset, nil)) {
		ok := p.must(mkIntEq(mkLen(paramSym(w.reset.Params[0])), tZeroInt))
		for _, r := range p.S.loopSeq {
			ok = ok || w.unmarks(p, r)
		}
		c.ob(ok, "cleared:marks", p.Pos, "the marks of replaced default headers aren't cleared")
	}
}

// ctorOb: default headers are prepared as complete lines.
func (w *respWrite) ctorOb() {
	c := w.c
	ctor := c.fn("internal/protocol/http1", "NewSerializer")
	if ctor == nil {
		return
	}
	ps := c.run(c.engine(), newState(), ctor, nil)
	c.show(ps)
	var src *Term
	for _, q := range ctor.Params {
		if _, ok := q.Type().Underlying().(*types.Map); ok {
			src = paramSym(q)
		}
	}
	n := 0
	for _, p := range ps {
		switch p.Kind {
		case PReturn:
			d := loadField(p.S, p.Results[0], "defaultHeaders")
			ok := false
			for _, r := range p.S.loopSeq {
				ok = ok || d != nil && r.byCur(d) != nil && p.must(mkIntEq(mkLen(r.byCur(d).Entry), tZeroInt))
			}
			c.ob(ok, "defaults:kept", p.Pos, "the default headers are %v", d)
		case PBackEdge:
			var nx *Event
			for _, ev := range p.S.events[p.Loop.NEv:] {
				if ev.Name == "range-next" && src != nil && p.same(ev.Args[0], src) {
					nx = ev
				}
			}
			if nx == nil {
				continue
			}
			n++
			ok := false
			for _, v := range p.Loop.Vars {
				if v.typ == nil || !isDefaults(v.typ) {
					continue
				}
				r, isR := p.rope(p.Next[v.Name], v.Cur)
				if isR && len(r) == 1 && r[0].t != nil && r[0].t.op == OAgg {
					dt := elemT(v.typ)
					k, val := nx.Res[1], nx.Res[2]
					full := p.S.F.canon(fieldByName(r[0].t, dt, "Full"))
					ok = p.equal(fieldByName(r[0].t, dt, "Key"), k) && p.equal(full, mkConcat(k, mkStr(": "), val, mkStr("\r\n"))) && p.mustNot(fieldByName(r[0].t, dt, "Excluded"))
				}
			}
			c.ob(ok, "defaults:prepared", p.Pos, "a default header isn't prepared as its complete line (path: %s)", p.describe(c))
		}
	}
	c.ob(n > 0, "defaults:prepared:reached", ctor.Pos(), "the default headers aren't walked")
}

// persist: whether the connection has to be given up after the response.
func (w *respWrite) persist(p *Path) (open, known bool) {
	c := w.c
	unk, ok1 := c.constOf("http/proto", "Unknown")
	h10, ok2 := c.constOf("http/proto", "HTTP10")
	h11, ok3 := c.constOf("http/proto", "HTTP11")
	if !ok1 || !ok2 || !ok3 {
		return false, false
	}
	of := func(name string) []*Term {
		return p.termsOf(func(t *Term) bool {
			return t.op == OLoad && t.args[0].op == OFieldAddr && t.args[0].name == name && fieldOf(t.args[0].args[0], w.d, "request")
		})
	}
	for _, u := range of("Upgrade") {
		if p.mustNot(mkIntEq(u, unk)) {
			return true, true
		}
	}
	fold := func(s string) (bool, bool) {
		for _, t := range of("Connection") {
			for _, q := range []*Term{mkEqFold(t, mkStr(s)), mkEqFold(mkStr(s), t)} {
				if p.must(q) {
					return true, true
				}
				if p.mustNot(q) {
					return false, true
				}
			}
		}
		return false, false
	}
	is := func(h *Term) (bool, bool) {
		if p.must(mkIntEq(w.proto, h)) {
			return true, true
		}
		return false, p.mustNot(mkIntEq(w.proto, h))
	}
	a, ak := is(h10)
	b, bk := is(h11)
	switch {
	case a:
		open, known = fold("keep-alive")
	case b:
		open, known = fold("close")
		open = !open
	case ak && bk:
		open, known = false, true
	}
	if known && open {
		return true, true
	}
	if known {
		// closes, unless there is an upgrade
		for _, u := range of("Upgrade") {
			if p.must(mkIntEq(u, unk)) {
				return false, true
			}
		}
	}
	return false, false
}

func ruleC21(c *Ctx) {
	w := c.respWrite("Write", true)
	errClose := c.global("http/status", "ErrCloseConnection")
	if w == nil || errClose == nil {
		return
	}
	none := mkEq(w.content, mkNil(w.content.typ))
	cnt := map[string]int{}
	for _, p := range w.ps {
		c.ob(p.Kind != PPanic, "no-panic", p.Pos, "writing a response may panic (path: %s)", p.describe(c))
		if p.Kind != PReturn || len(p.Results) != 1 {
			continue
		}
		res := p.Results[0]
		isNil := mkEq(res, mkNil(res.typ))
		failed, okW := false, true
		for _, ev := range w.writes(p.S.events) {
			r := mkEq(ev.Res[0], mkNil(ev.Res[0].typ))
			switch {
			case p.mustNot(r):
				failed = true
			case !p.must(r):
				okW = false // handed on, or overridden
			}
		}
		plain := p.must(none)
		open, known := w.persist(p)
		switch {
		case failed:
			c.ob(p.mustNot(isNil), "failed:reported", p.Pos, "a failed write is not reported (path: %s)", p.describe(c))
			cnt["failed"]++
		case known && !open:
			c.ob(p.mustNot(isNil) || p.equal(res, errClose), "close:reported", p.Pos, "the connection stays although the client or its protocol asks to close it (path: %s)", p.describe(c))
			cnt["close"]++
		case known && open && plain:
			ok := false
			for _, ev := range w.writes(p.S.events) {
				ok = p.equal(res, ev.Res[0])
			}
			ok = ok || okW && p.must(isNil)
			c.ob(ok, "open:kept", p.Pos, "the result is %s although the connection is to be kept (path: %s)", res, p.describe(c))
			cnt["open"]++
		case known && open:
			ok := p.must(isNil)
			if !ok {
				// the reasons not to keep it: the content failed, or its end couldn't be written
				for _, ev := range p.S.events {
					if ev.Kind == EvCall && nameMatches(ev.Name, "io.Reader).Read") && p.mustNot(mkEq(ev.Res[1], mkNil(ev.Res[1].typ))) {
						ok = true
					}
				}
				for _, ev := range w.writes(p.S.events) {
					ok = ok || p.equal(res, ev.Res[0])
				}
			}
			c.ob(ok, "open:attachment", p.Pos, "the result is %s although the connection is to be kept (path: %s)", res, p.describe(c))
			cnt["attachment"]++
		default:
			// not asked: then it can't be kept
			c.ob(p.mustNot(isNil), "asked", p.Pos, "the connection is kept without asking whether it may be (path: %s)", p.describe(c))
			cnt["given-up"]++
		}
	}
	for _, k := range []string{"failed", "close", "open", "attachment"} {
		c.ob(cnt[k] > 0, k+":reached", w.fn.Pos(), "no path covers this outcome")
	}
}

// seg is a part of a buffer and what was put there.
type bufWrite struct {
	lo, hi *Term
	what   *Term
	val    *Term // the value as which the part is known afterwards
}

// resolve: what a part of a buffer holds after the writes; each part is given as it was written.
func (f *Facts) resolve(ws []bufWrite, lo, hi *Term) (out []*Term, ok bool) {
	if f.le(hi, lo) {
		return nil, true
	}
	if len(ws) == 0 {
		return nil, false
	}
	w := ws[len(ws)-1]
	rest := ws[:len(ws)-1]
	switch {
	case f.le(w.hi, w.lo) || f.le(w.hi, lo) || f.le(hi, w.lo): // beside it
		return f.resolve(rest, lo, hi)
	case f.le(lo, w.lo) && f.le(w.hi, hi): // inside
		l, ok1 := f.resolve(rest, lo, w.lo)
		r, ok2 := f.resolve(rest, w.hi, hi)
		return append(append(l, w.what), r...), ok1 && ok2
	case f.le(w.lo, lo) && f.le(hi, w.hi): // around
		return []*Term{mkSliceT(w.what, mkSub(lo, w.lo), mkSub(hi, w.lo))}, true
	}
	return nil, false
}

// bufWrites lists what the events write into base.
func bufWrites(p *Path, f *Facts, evs []*Event, base *Term) (out []bufWrite, ok bool) {
	ok = true
	for _, ev := range evs {
		switch {
		case ev.Kind == EvStore:
			a := ev.Addr
			for a.op == OFieldAddr {
				a = a.args[0]
			}
			if a.op == OIndexAddr && a.args[0] == base {
				out = append(out, bufWrite{a.args[1], mkAddC(a.args[1], 1), mkElems([]*Term{ev.Val}), nil})
			}
		case ev.Kind == EvCopy:
			b, lo, _ := seqParts(ev.Args[0])
			if b != base {
				continue
			}
			src := ev.Args[1]
			for _, w := range out { // read from the buffer itself: it has to be there still
				if w.val != nil && w.val == src {
					got, ok2 := f.resolve(out, w.lo, w.hi)
					if !ok2 || mkConcat(got...) != w.what {
						ok = false
					}
				}
			}
			part := src
			if !f.eqInt(ev.Args[2], mkLen(src)) {
				part = mkSliceT(src, tZeroInt, ev.Args[2])
			}
			out = append(out, bufWrite{lo, mkAdd(lo, ev.Args[2]), part, nil})
		case ev.Kind == EvCall && ev.Name == "append":
			b, _, hi := seqParts(ev.Args[0])
			if b != base {
				continue
			}
			out = append(out, bufWrite{hi, mkAdd(hi, mkLen(ev.Args[1])), ev.Args[1], mkConcat(ev.Args[0], ev.Args[1])})
		case ev.Kind == EvCall && nameMatches(ev.Name, "io.Reader).Read"):
			b, lo, _ := seqParts(ev.Args[1])
			if b == base {
				out = append(out, bufWrite{lo, mkAdd(lo, ev.Res[0]), mkCallT("content", types.Typ[types.String], ev.Res[0]), nil})
			}
		}
	}
	return
}

func ruleC22(c *Ctx) {
	w := c.respWrite("Write", true)
	eof := c.extGlobal("io", "EOF")
	if w == nil || eof == nil {
		return
	}
	none := mkEq(w.content, mkNil(w.content.typ))
	cnt := map[string]int{}
	isReader := func(p *Path, t *Term) bool {
		return t.op == OLoad && w.content.op == OLoad && t.args[0] == w.content.args[0] || p.same(t, w.content)
	}
	for _, p := range w.ps {
		if p.Kind == PPanic {
			c.ob(false, "no-panic", p.Pos, "sending an attachment may panic (path: %s)", p.describe(c))
			continue
		}
		if p.must(none) {
			if p.Kind == PReturn {
				c.ob(len(p.calls("io.Reader).Read")) == 0, "no-attachment", p.Pos, "something is read for a response without an attachment")
			}
			continue
		}
		bad := func(k, f string, a ...any) {
			c.ob(false, k, p.Pos, "%s (path: %s)", fmt.Sprintf(f, a...), p.describe(c))
		}
		good := func(k string) { cnt[k]++; c.ob(true, k, p.Pos, "") }
		// the iteration, or what happens without one
		evs := p.S.events
		var rec *LoopRec
		for _, r := range p.S.loopSeq {
			for _, q := range r.Backs {
				if len(w.reads(q.S.events[r.NEv:])) > 0 {
					rec = r
				}
			}
		}
		if rec != nil {
			evs = p.S.events[rec.NEv:]
		}
		// released exactly once, at the end
		closes := 0
		for _, ev := range p.S.events {
			if ev.Kind == EvCall && nameMatches(ev.Name, "io.Closer).Close") && isReader(p, unwrapAssert(ev.Args[0])) {
				closes++
			}
		}
		if p.Kind == PReturn {
			closable, asked := true, false
			for _, t := range p.termsOf(func(t *Term) bool { return t.op == OIsType && isReader(p, t.args[0]) }) {
				asked = true
				if p.mustNot(t) {
					closable = false
				}
			}
			switch {
			case !asked || closable && closes != 1 || !closable && closes != 0:
				bad("released", "an attachment is closed %d times", closes)
			default:
				good("released")
			}
		} else {
			c.ob(closes == 0, "released:late", p.Pos, "an attachment is closed while it is being sent")
		}
		res := (*Term)(nil)
		isErr := func() bool { return p.Kind == PReturn && p.mustNot(mkEq(res, mkNil(res.typ))) }
		if p.Kind == PReturn {
			res = p.Results[0]
		}
		if rec == nil {
			if p.Kind != PReturn {
				continue
			}
			ws := w.writes(p.S.events)
			head, known := w.isHead(p)
			switch {
			case len(w.reads(p.S.events)) > 0 || len(ws) != 1:
				bad("head-only", "an attachment is sent differently than by a loop: %d writes", len(ws))
			case p.mustNot(mkEq(ws[0].Res[0], mkNil(ws[0].Res[0].typ))):
				if !isErr() {
					bad("head-failed", "the result is %s although the head couldn't be written", res)
				} else {
					good("head-failed")
				}
			case known && head:
				good("head-request")
			default:
				bad("content-sent", "the content isn't sent")
			}
			continue
		}
		if head, known := w.isHead(p); known && head {
			bad("head-request", "content is sent in response to a HEAD request")
		}
		if p.Kind == PBackEdge && p.Loop != rec {
			continue
		}
		rds, ws := w.reads(evs), w.writes(evs)
		sized := p.must(mkLt(tZeroInt, w.size))
		if !sized && !p.mustNot(mkLt(tZeroInt, w.size)) {
			bad("size", "the size of the content isn't looked at")
			continue
		}
		if len(rds) > 1 {
			bad("one-read", "a piece of the content is read and dropped")
			continue
		}
		if sized {
			// what remains to be sent
			var rem *LoopVar
			for _, v := range rec.Vars {
				if isNumTerm(v.Cur) && p.S.F.eqInt(v.Entry, w.size) {
					rem = v
				}
			}
			if rem == nil {
				bad("sized:counted", "the bytes sent aren't counted against the announced length")
				continue
			}
			left := rem.Cur
			if len(rds) == 1 {
				rd := rds[0]
				b, lo, hi := seqParts(rd.Args[1])
				n := rd.Res[0]
				if !isReader(p, rd.Args[0]) {
					bad("sized:source", "the content is read from %s", rd.Args[0])
				}
				if !p.S.F.le(mkSub(hi, lo), left) {
					bad("sized:bounded", "more than announced may be read")
				}
				okW := false
				switch {
				case len(ws) == 1:
					okW = p.isSlice(ws[0].Args[1], b, lo, mkAdd(lo, n))
				case len(ws) == 0:
					okW = p.must(mkLe(n, tZeroInt))
				}
				if !okW {
					bad("sized:forwarded", "of a piece of %s bytes, %v is written", n, ws)
				} else {
					good("sized:forwarded")
				}
				left = mkSub(left, n)
				rerr := mkEq(rd.Res[1], mkNil(rd.Res[1].typ))
				wfail := len(ws) == 1 && p.mustNot(mkEq(ws[0].Res[0], mkNil(ws[0].Res[0].typ)))
				if p.Kind == PBackEdge {
					c.ob(p.S.F.eqInt(p.Next[rem.Name], left), "sized:count", p.Pos, "after a piece of %s bytes, %s of %s remain", n, p.Next[rem.Name], rem.Cur)
					c.ob(p.must(rerr) || p.must(mkLe(left, tZeroInt)), "sized:source-failed", p.Pos, "reading goes on after the content failed")
					c.ob(!wfail && (len(ws) == 0 || p.must(mkEq(ws[0].Res[0], mkNil(ws[0].Res[0].typ)))), "sized:write-failed", p.Pos, "sending goes on after a write failed")
					continue
				}
				if wfail || !p.must(mkLe(left, tZeroInt)) {
					if !isErr() {
						bad("sized:incomplete", "the result is %s although the announced length wasn't reached", res)
					} else {
						good("sized:incomplete")
					}
					continue
				}
			}
			if p.Kind == PReturn {
				if !p.must(mkLe(left, tZeroInt)) {
					if !isErr() {
						bad("sized:incomplete", "the result is %s although the announced length wasn't reached", res)
					}
					continue
				}
				c.ob(len(rds) == 1 || len(ws) == 0, "sized:nothing-more", p.Pos, "something is written behind the content")
				good("sized:complete")
			}
			continue
		}
		// chunked
		if len(rds) != 1 {
			bad("chunked:read", "an iteration reads %d pieces", len(rds))
			continue
		}
		rd := rds[0]
		n := rd.Res[0]
		if !isReader(p, rd.Args[0]) {
			bad("chunked:source", "the content is read from %s", rd.Args[0])
		}
		rerr := mkEq(rd.Res[1], mkNil(rd.Res[1].typ))
		atEOF := mkEq(rd.Res[1], eof)
		wi := 0
		var chunkW *Event
		if p.must(mkLt(tZeroInt, n)) {
			if len(ws) == 0 {
				bad("chunked:forwarded", "a piece of the content isn't written")
				continue
			}
			chunkW = ws[0]
			wi = 1
			if m := w.chunkOb(p, evs, rd, ws[0]); m != "" {
				bad("chunked:chunk", "%s", m)
			} else {
				good("chunked:chunk")
			}
		} else if !p.mustNot(mkLt(tZeroInt, n)) {
			bad("chunked:empty", "an empty piece isn't told from others, it would end the message")
			continue
		}
		wfail := chunkW != nil && p.mustNot(mkEq(chunkW.Res[0], mkNil(chunkW.Res[0].typ)))
		wok := chunkW == nil || p.must(mkEq(chunkW.Res[0], mkNil(chunkW.Res[0].typ)))
		rest := ws[wi:]
		switch {
		case p.Kind == PBackEdge:
			c.ob(wok && len(rest) == 0, "chunked:goes-on", p.Pos, "sending goes on after a write failed, or a chunk is written twice")
			c.ob(p.must(rerr), "chunked:source-failed", p.Pos, "reading goes on after the content failed or ended")
			good("chunked:goes-on")
		case wfail:
			if !isErr() || len(rest) > 0 {
				bad("chunked:write-failed", "the result is %s although a write failed", res)
			}
			good("chunked:write-failed")
		case p.must(atEOF):
			fin := len(rest) == 1
			if fin {
				r, _ := p.rope(rest[0].Args[1], nil)
				fin = p.pieces(r, "0\r\n\r\n")
			}
			if !fin || !wok {
				bad("chunked:finished", "the end of the content is written as %v", rest)
				continue
			}
			// the outcome of that write is the outcome
			e := mkEq(rest[0].Res[0], mkNil(rest[0].Res[0].typ))
			if !(p.equal(res, rest[0].Res[0]) || isErr() || p.must(e)) {
				bad("chunked:finished", "the outcome of the last write is dropped")
			}
			good("chunked:finished")
		default:
			if !isErr() || len(rest) > 0 {
				bad("chunked:content-failed", "the result is %s although the content failed", res)
			}
			good("chunked:content-failed")
		}
	}
	for _, k := range []string{"released", "head-failed", "head-request", "sized:forwarded", "sized:incomplete", "sized:complete", "chunked:chunk", "chunked:goes-on", "chunked:write-failed", "chunked:finished", "chunked:content-failed"} {
		c.ob(cnt[k] > 0, k+":reached", w.fn.Pos(), "no path covers this")
	}
	w.bufferOb()
}

// chunkOb: a chunk is its length in hex, a line end, the piece read, and a line end.
func (w *respWrite) chunkOb(p *Path, evs []*Event, rd, wr *Event) string {
	b, lo, _ := seqParts(rd.Args[1])
	n := rd.Res[0]
	f := p.S.F.clone()
	hex := mkFmtInt(n, mkInt(16))
	// no buffer is that large
	if !f.assume(mkLe(mkLen(b), mkInt(1<<32-1)), true) || !f.assume(mkLe(mkLen(hex), mkInt(8)), true) || !f.assume(mkLe(mkInt(1), mkLen(hex)), true) {
		return ""
	}
	var before []*Event
	for _, ev := range evs {
		if ev == wr {
			break
		}
		before = append(before, ev)
	}
	bws, ok := bufWrites(p, f, before, b)
	if !ok {
		return "a part of the buffer is overwritten before it is used"
	}
	_ = lo
	r, ok := p.rope(wr.Args[1], nil)
	if !ok {
		return "the chunk can't be followed"
	}
	var got []*Term
	for _, x := range r {
		switch {
		case x.loop != nil:
			return "the chunk can't be followed"
		case x.t == nil:
			got = append(got, mkStr(x.s))
		default:
			xb, xl, xh := seqParts(x.t)
			if xb != b {
				got = append(got, x.t)
				continue
			}
			g, ok := f.resolve(bws, xl, xh)
			if !ok {
				return fmt.Sprintf("it isn't settled what the buffer holds in [%s:%s)", xl, xh)
			}
			got = append(got, g...)
		}
	}
	want := mkConcat(hex, mkStr("\r\n"), mkCallT("content", types.Typ[types.String], n), mkStr("\r\n"))
	if g := mkConcat(got...); g != want {
		return fmt.Sprintf("a chunk is written as %s where %s is due", g, want)
	}
	return ""
}

func (w *respWrite) reads(evs []*Event) (out []*Event) {
	for _, ev := range evs {
		if ev.Kind == EvCall && nameMatches(ev.Name, "io.Reader).Read") {
			out = append(out, ev)
		}
	}
	return
}

func unwrapAssert(t *Term) *Term {
	for t.op == OAssert || t.op == OIface {
		t = t.args[0]
	}
	return t
}

// bufferOb: the buffer a chunk is assembled in has room for its frame and at least one byte.
func (w *respWrite) bufferOb() {
	c := w.c
	ctor := c.fn("internal/protocol/http1", "NewSerializer")
	if ctor == nil {
		return
	}
	for _, p := range returns(c.run(c.engine(), newState(), ctor, nil)) {
		n := loadField(p.S, p.Results[0], "fileBuffSize")
		c.ob(n != nil && p.S.F.le(mkInt(13), n), "buffer:size", p.Pos, "the buffer for content may be as small as %v", n)
	}
}

// extGlobal: a package-level variable of a library.
func (c *Ctx) extGlobal(path, name string) *Term {
	for _, sp := range c.P.prog.AllPackages() {
		if sp.Pkg.Path() == path {
			if g, ok := sp.Members[name].(*ssa.Global); ok {
				return mkGlobalVal(g)
			}
		}
	}
	c.fail("anchor:"+path+"."+name, 0, "%s.%s is not used any more", path, name)
	return nil
}

package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C33", "All paths of registering a directory and of the handler serving its files, and the scan for double dots.", 20, ruleC33)
}

func ruleC33(c *Ctx) {
	const pkg = "router/inbuilt"
	static, safe, sep := c.fn(pkg, "Router.Static"), c.fn(pkg, "isSafe"), c.fn("internal/pathlib", "usingSeparator")
	catch, file, herr, respond := c.fn(pkg, "Router.Catch"), c.fn("http", "Response.File"), c.fn("http", "Error"), c.fn("http", "Request.Respond")
	notFound := c.global("http/status", "ErrNotFound")
	for _, f := range []*ssa.Function{static, safe, sep, catch, file, herr, respond} {
		if f == nil {
			return
		}
	}
	c.noDoubleDots(safe)
	c.separator(sep)

	setup := func() *Engine {
		e := c.engine()
		e.Opaque = opaqueSet(safe, sep, catch, file, herr, respond)
		e.NoHavoc = func(string) bool { return true }
		e.Copies = true
		e.Bounds = true
		return e
	}
	e, eh := setup(), setup()
	r, prefix, root := paramSym(static.Params[0]), paramSym(static.Params[1]), paramSym(static.Params[2])
	s0 := newState()
	s0.F.assume(mkLt(tZeroInt, mkLen(root)), true)
	var served, refused int
	for _, p := range c.run(e, s0, static, []*Term{r, prefix, root, paramSym(static.Params[3])}) {
		if !c.ob(p.Kind == PReturn, "static:returns", p.Pos, "registering a directory doesn't return") {
			continue
		}
		ok := true
		var seps []*Term
		for _, ev := range p.S.events {
			if ev.Kind == EvCall && ev.Fn == sep {
				if !p.equal(ev.Args[0], root) {
					// prefixes begin with a slash, so it is their first separator
					ok = ok && p.S.F.assume(mkIntEq(ev.Res[0], mkInt('/')), true)
				} else {
					seps = append(seps, ev.Res[0])
				}
			}
		}
		if !ok {
			continue
		}
		var cl *Term
		for _, ev := range p.S.events {
			if ev.Kind == EvCall && ev.Fn == catch {
				cl = p.S.F.canon(ev.Args[2])
			}
		}
		for cl != nil && cl.op == OConv {
			cl = cl.args[0]
		}
		var fn *ssa.Function
		if cl != nil {
			fn, _ = cl.obj.(*ssa.Function)
		}
		if !c.ob(fn != nil && len(fn.Params) == 1, "static:handler", p.Pos, "no handler serves the directory") {
			continue
		}
		full := c.joined(p, r, prefix)
		if !c.ob(full != nil, "static:prefix", p.Pos, "the router's prefix and the directory's aren't joined") {
			continue
		}
		req := paramSym(fn.Params[0])
		path := fieldAt(p, req, "Path")
		st := p.S.clone()
		st.events = nil
		for _, q := range eh.RunClosure(st, fn, []*Term{req}, cl.args) {
			c.paths++
			if !c.ob(q.Kind == PReturn, "serve:returns", q.Pos, "serving a file doesn't return (path: %s)", q.describe(c)) {
				continue
			}
			var fe, ee *Event
			n := 0
			dots := 0 // 1: has none, 2: has some
			for _, ev := range q.S.events {
				if ev.Kind != EvCall {
					continue
				}
				switch ev.Fn {
				case file:
					fe, n = ev, n+1
				case herr:
					ee, n = ev, n+1
				case safe:
					if ev.Args[0] != path {
						c.ob(false, "serve:whole-path", ev.Pos, "what is looked for double dots isn't the request's path")
					} else if q.must(ev.Res[0]) {
						dots |= 1
					} else if q.mustNot(ev.Res[0]) {
						dots |= 2
					}
				}
			}
			has := mk(Term{op: OContains, args: []*Term{path, mkStr("..")}, typ: tTrue.typ})
			if q.must(has) {
				dots |= 2
			} else if q.mustNot(has) {
				dots |= 1
			}
			in, out := false, false
			for _, x := range full {
				in = in || q.must(mkPrefix(path, x))
				out = out || q.mustNot(mkPrefix(path, x))
			}
			if !c.ob(n == 1, "serve:one", q.Pos, "a request isn't answered by one file or error (path: %s)", q.describe(c)) {
				continue
			}
			if fe != nil {
				served++
				c.ob(in, "serve:inside", fe.Pos, "a path that doesn't start with the prefix and a slash reaches a file (path: %s)", q.describe(c))
				c.ob(dots == 1, "serve:no-dots", fe.Pos, "a path with two dots in a row may reach a file (path: %s)", q.describe(c))
				name := q.overlay(fe.Args[1])
				good := false
				for _, x := range full {
					rest := mkSliceT(path, mkLen(x), mkLen(path))
					for _, d := range q.rootsOf(seps, root, name) {
						good = good || q.equal(name, mkConcat(d, rest)) || q.must(mkIntEq(mkLen(rest), tZeroInt)) && (q.equal(name, d) || q.isSlice(name, d, tZeroInt, mkLen(d)))
					}
				}
				c.ob(good, "serve:name", fe.Pos, "the file's name isn't the root, a separator and the rest of the path but %s (path: %s)", name, q.describe(c))
				c.ob(q.Results[0] == fe.Res[0] && c.calls(q, respond, req) == fe.Args[0], "serve:answer", q.Pos, "the file isn't the answer")
			} else {
				refused++
				c.ob(out || dots&2 != 0, "serve:refused", ee.Pos, "a proper path is refused (path: %s)", q.describe(c))
				ok := ee.Args[0] == req && q.equal(ee.Args[1], notFound) && q.Results[0] == ee.Res[0]
				c.ob(ok, "serve:not-found", ee.Pos, "a refused path isn't answered as not found")
			}
		}
	}
	c.boundsOf(e)
	c.boundsOf(eh)
	c.ob(served > 0 && refused > 0, "static:cases", static.Pos(), "no file is served, or no path refused")
}

// calls: the result of the function's call on obj.
func (c *Ctx) calls(p *Path, fn *ssa.Function, obj *Term) *Term {
	for _, ev := range p.S.events {
		if ev.Kind == EvCall && ev.Fn == fn && ev.Args[0] == obj {
			return ev.Res[0]
		}
	}
	return nil
}

// joined: the prefix of a directory's files: the router's and its own joined, with one slash behind.
func (c *Ctx) joined(p *Path, r, prefix *Term) (out []*Term) {
	for _, ev := range p.S.events {
		if ev.Kind != EvCall || ev.Name != "path.Join" {
			continue
		}
		a := p.varargs(ev.Args[0], 2)
		if len(a) != 2 || !fieldOf(a[0], r, "prefix") || a[1] != prefix {
			continue
		}
		j := ev.Res[0]
		switch {
		case p.must(mkSuffix(j, mkStr("/"))):
			out = append(out, j, mkConcat(mkSliceT(j, tZeroInt, mkAddC(mkLen(j), -1)), mkStr("/")))
		case p.mustNot(mkSuffix(j, mkStr("/"))):
			out = append(out, mkConcat(j, mkStr("/")))
		}
	}
	return
}

// rootsOf: what the name of a file may start with: the root, if it ends in its separator already, or
// the root and the separator.
func (p *Path) rootsOf(seps []*Term, root, name *Term) (out []*Term) {
	last := mkElem(root, mkAddC(mkLen(root), -1), byteType)
	for _, s := range append(seps, mkInt('/')) {
		if p.must(mkIntEq(last, s)) {
			out = append(out, root)
			if s == mkInt('/') {
				out = append(out, mkConcat(mkSliceT(root, tZeroInt, mkAddC(mkLen(root), -1)), mkStr("/")))
			}
		}
	}
	out = append(out, mkConcat(root, mkStr("/")))
	if name.op == OConcat && len(name.args) > 1 {
		x := name.args[1]
		for _, s := range seps {
			if x.op == OConv && x.args[0] == s {
				out = append(out, mkConcat(root, x))
			}
		}
	}
	return
}

// overlay: the contents of a buffer put together by copying pieces to positions of it.
func (p *Path) overlay(t *Term) *Term {
	t = p.S.F.canon(t)
	for t.op == OConv {
		t = t.args[0]
	}
	base, lo, hi := seqParts(t)
	type part struct{ from, to, src, at *Term }
	var ps []part
	le := func(a, b *Term) bool { return p.must(mkLe(a, b)) }
	n := 0
	for _, c := range p.S.copies {
		if c.dst != base {
			continue
		}
		n++
		from, to := c.dlo, mkAdd(c.dlo, c.n)
		var keep []part
		for _, x := range ps {
			if le(to, x.from) || le(x.to, from) {
				keep = append(keep, x)
				continue
			}
			switch {
			case le(from, x.from):
			case le(x.from, from):
				keep = append(keep, part{x.from, from, x.src, x.at})
			default:
				return t
			}
			switch {
			case le(x.to, to):
			case le(to, x.to):
				keep = append(keep, part{to, x.to, x.src, mkAdd(x.at, mkSub(to, x.from))})
			default:
				return t
			}
		}
		b, slo, _ := seqParts(c.src)
		ps = append(keep, part{from, to, b, slo})
	}
	if n == 0 {
		return t
	}
	var out []*Term
	for cur := lo; !p.must(mkLe(hi, cur)); {
		found := false
		for i, x := range ps {
			if !le(x.from, cur) || !p.must(mkLt(cur, x.to)) && !(p.must(mkIntEq(x.from, cur)) && le(cur, x.to)) {
				continue
			}
			end := x.to
			if !le(end, hi) {
				if !le(hi, end) {
					return t
				}
				end = hi
			}
			a := mkAdd(x.at, mkSub(cur, x.from))
			b := mkAdd(a, mkSub(end, cur))
			if p.must(mkIntEq(b, mkLen(x.src))) {
				b = mkLen(x.src)
			}
			if p.must(mkIntEq(a, b)) {
				// nothing
			} else if p.must(mkIntEq(a, tZeroInt)) && b == mkLen(x.src) {
				out = append(out, x.src)
			} else {
				out = append(out, mkSliceT(x.src, a, b))
			}
			cur, found = end, true
			ps = append(ps[:i:i], ps[i+1:]...)
			break
		}
		if !found {
			return t
		}
	}
	return mkConcat(out...)
}

// noDoubleDots: the function tells whether a text has no two dots in a row.
func (c *Ctx) noDoubleDots(fn *ssa.Function) {
	e := c.engine()
	e.Bounds = true
	src := paramSym(fn.Params[0])
	ps := c.run(e, nil, fn, []*Term{src})
	c.noPanic(ps, fn)
	c.boundsOf(e)
	has := mk(Term{op: OContains, args: []*Term{src, mkStr("..")}, typ: tTrue.typ})
	dot := maskOf('.')
	best, pos := "nothing is looked at", fn.Pos()
	try := func(cu *cursor) (bad string, at token.Pos) {
		for _, p := range ps {
			base, from := src, tZeroInt
			f := p.S.F
			if cu != nil {
				base, from = cu.head(p, src)
				if !cu.entryOK(p, src) {
					return "the search doesn't start at the beginning", p.Pos
				}
			}
			el := func(i *Term) *Term { return mkElem(base, i, byteType) }
			// clear: no two dots begin in [lo, to)
			var clear func(lo, to *Term, depth int) bool
			clear = func(lo, to *Term, depth int) bool {
				if f.le(to, lo) || f.segAll(base, lo, to, dot.not()) {
					return true
				}
				last := mkAddC(to, -1)
				if f.segAll(base, lo, last, dot.not()) &&
					(f.le(mkLen(base), to) || f.byteSet(el(to)).sub(dot.not()) || f.byteSet(el(last)).sub(dot.not())) {
					return true
				}
				for _, x := range f.elemAtoms() {
					// another byte: neither it nor the one in front of it begins a pair
					if depth > 0 && x.args[0] == base && f.byteSet(x).sub(dot.not()) && f.lt(x.args[1], to) &&
						clear(lo, mkAddC(x.args[1], -1), depth-1) && clear(mkAddC(x.args[1], 1), to, depth-1) {
						return true
					}
				}
				return false
			}
			free := func(to *Term) bool { return clear(from, to, 2) }
			if p.Kind == PBackEdge {
				if cu == nil {
					return "a loop", p.Pos
				}
				nx := cu.next(p, src)
				if nx == nil || !f.lt(from, nx) || !free(nx) {
					return "an iteration may pass over two dots (path: " + p.describe(c) + ")", p.Pos
				}
				continue
			}
			r := p.Results[0]
			switch {
			case p.equal(r, mkNot(has)):
			case p.must(r):
				if !p.mustNot(has) && !free(mkLen(base)) && !f.le(mkLen(base), mkAddC(from, 1)) && !(f.segAll(base, from, mkAddC(mkLen(base), -1), dot.not())) {
					return "a text that may contain two dots in a row is taken for safe (path: " + p.describe(c) + ")", p.Pos
				}
			case p.mustNot(r):
				found := p.must(has)
				for _, el := range f.elemAtoms() {
					if el.args[0] == base && f.byteSet(el).sub(dot) && f.byteSet(mkElem(base, mkAddC(el.args[1], 1), byteType)).sub(dot) {
						found = true
					}
				}
				if !found {
					return "a text without two dots in a row is refused (path: " + p.describe(c) + ")", p.Pos
				}
			default:
				return "it isn't settled (path: " + p.describe(c) + ")", p.Pos
			}
		}
		return "", token.NoPos
	}
	cus := []*cursor{nil}
	for _, cu := range cursorsOf(ps, src) {
		cu := cu
		cus = append(cus, &cu)
	}
	for _, cu := range cus {
		bad, at := try(cu)
		if bad == "" {
			c.ob(true, "dots", fn.Pos(), "")
			return
		}
		best, pos = bad, at
	}
	c.ob(false, "dots", pos, "%s", best)
}

// separator: the first slash or backslash of a path, or a slash.
func (c *Ctx) separator(fn *ssa.Function) {
	e := c.engine()
	src := paramSym(fn.Params[0])
	ps := c.run(e, nil, fn, []*Term{src})
	c.noPanic(ps, fn)
	both := maskOf('/', '\\')
	for _, p := range ps {
		f := p.S.F
		switch p.Kind {
		case PBackEdge:
			// a character that is passed over is no separator
			n := 0
			for _, el := range f.elemAtoms() {
				if el.args[0] == src && f.byteSet(el).sub(both.not()) {
					n++
				}
			}
			c.ob(n > 0, "separator:passed", p.Pos, "a separator may be passed over (path: %s)", p.describe(c))
		case PReturn:
			r := p.Results[0]
			n, is := f.canon(r).isInt()
			ok := is && n == '/'
			for _, el := range f.elemAtoms() {
				if el.args[0] == src && f.byteSet(el).sub(both) && p.equal(r, el) {
					ok = true
				}
			}
			c.ob(ok, "separator:result", p.Pos, "a separator is neither a slash nor one that was found (path: %s)", p.describe(c))
		}
	}
}

package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C29", "All paths of answering a request or an error in the built-in router, with user-supplied functions opaque.", 20, ruleC29)
}

// made: the concrete type a function returns as an interface, and its method.
func (c *Ctx) made(fn *ssa.Function, method string) *ssa.Function {
	if fn == nil {
		return nil
	}
	var out *ssa.Function
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			mi, ok := ins.(*ssa.MakeInterface)
			if !ok {
				continue
			}
			if !types.Identical(mi.Type(), fn.Signature.Results().At(0).Type()) {
				continue
			}
			sel := c.P.prog.MethodSets.MethodSet(mi.X.Type()).Lookup(nil, method)
			if sel != nil {
				out = c.P.prog.MethodValue(sel)
			}
		}
	}
	c.ob(out != nil && len(out.Blocks) > 0, "anchor:"+fnName(fn)+":"+method, fn.Pos(), "what %s returns has no method %s", fn, method)
	return out
}

// counter: an integer a loop steps through, a variable or an end of a sequence it cuts
type counter struct {
	name       string
	cur, entry *Term
	next       func(*Path) *Term
}

func (r *LoopRec) counters() (out []counter) {
	for _, v := range r.Vars {
		v := v
		if v.Entry == nil || v.Cur == nil {
			continue
		}
		if isNumTerm(v.Cur) {
			out = append(out, counter{v.Name, v.Cur, v.Entry, func(p *Path) *Term { return p.Next[v.Name] }})
			continue
		}
		if v.kind != aSub {
			continue
		}
		base, lo, hi := seqParts(v.Entry)
		end := func(high bool) func(*Path) *Term {
			return func(p *Path) *Term {
				n := p.Next[v.Name]
				if n == nil {
					return nil
				}
				b, l, h := seqParts(n)
				if b != base {
					return nil
				}
				if high {
					return h
				}
				return l
			}
		}
		if v.loSym != nil {
			out = append(out, counter{v.Name + ".lo", v.loSym, lo, end(false)})
		}
		if v.hiSym != nil {
			out = append(out, counter{v.Name + ".hi", v.hiSym, hi, end(true)})
		}
	}
	return
}

// positions: how far a loop has come, for everything that counts its iterations from zero.
func (r *LoopRec) positions() (out []*Term) {
	for _, v := range r.counters() {
		n, ok := v.entry.isInt()
		for _, q := range r.Backs {
			if ok {
				var d int64
				t := v.next(q)
				if t == nil {
					ok = false
					break
				}
				d, ok = mkSub(t, v.cur).isInt()
				ok = ok && d == 1
			}
		}
		if ok {
			out = append(out, mkAddC(v.cur, -n))
		}
	}
	return
}

// structFields: the names of a struct's fields that satisfy a predicate on their type.
func structFields(t types.Type, keep func(types.Type) bool) (out []string) {
	st := structOf(t)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if keep(st.Field(i).Type()) {
			out = append(out, st.Field(i).Name())
		}
	}
	return
}

// typeOf: a package-level type.
func (p *Program) typeOf(rel, name string) types.Type {
	if pi := p.pkg(rel); pi != nil {
		if o, ok := pi.types.Scope().Lookup(name).(*types.TypeName); ok {
			return o.Type()
		}
	}
	return nil
}

func (c *Ctx) theField(t types.Type, what string, keep func(types.Type) bool) string {
	fs := structFields(t, keep)
	if !c.ob(len(fs) == 1, "anchor:"+what, 0, "%s has %d fields for %s", t, len(fs), what) {
		return "?"
	}
	return fs[0]
}

// partOf: the array or slice, and index, an element or a field of an element is taken from.
func partOf(t *Term) (base, idx *Term, field string) {
	if t.op == OFieldVal {
		if st := structOf(t.args[0].typ); st != nil {
			field = st.Field(int(t.n)).Name()
		}
		t = t.args[0]
	}
	if t.op == OLoad && t.args[0].op == OFieldAddr && t.args[0].args[0].op == OIndexAddr {
		return t.args[0].args[0].args[0], t.args[0].args[0].args[1], t.args[0].name
	}
	if t.op == OLoad && t.args[0].op == OIndexAddr {
		return t.args[0].args[0], t.args[0].args[1], field
	}
	if t.op == OElem {
		b := t.args[0]
		if b.op == OLoad && isArrayAddr(b.args[0]) {
			b = b.args[0]
		}
		return b, t.args[1], field
	}
	return nil, nil, field
}

type dispatch struct {
	*Ctx
	self, req                           *Term
	rt                                  types.Type
	mutators, catchers, errs, routes    string
	catchPrefix, catchHandler           string
	norm, match, respond                *ssa.Function
	notFound, notAllowed                *Term
	static                              string
	mString, pString                    *ssa.Function
	head, get, trace                    int64
	nCatch, nErrH, nPlain, nCall, nHead int
	nEcho, nForeign                     int
}

func ruleC29(c *Ctx) {
	const pkg = "router/inbuilt"
	ini := c.fn(pkg, "Router.Initialize")
	d := &dispatch{Ctx: c}
	onReq, onErr := c.made(ini, "OnRequest"), c.made(ini, "OnError")
	d.norm, d.match, d.respond = c.fn(pkg+"/uri", "Normalize"), c.fn(pkg+"/internal/radix", "Node.Match"), c.fn("http", "Request.Respond")
	d.mString, d.pString = c.fn("http/method", "Method.String"), c.fn("http/proto", "Proto.String")
	d.notFound, d.notAllowed = c.global("http/status", "ErrNotFound"), c.global("http/status", "ErrMethodNotAllowed")
	for n, to := range map[string]*int64{"HEAD": &d.head, "GET": &d.get, "TRACE": &d.trace} {
		if v, ok := c.constOf("http/method", n); ok {
			*to, _ = v.isInt()
		}
	}
	if onReq == nil || onErr == nil || d.norm == nil || d.match == nil || d.respond == nil || d.mString == nil || d.pString == nil || d.notFound == nil || d.notAllowed == nil {
		return
	}
	d.rt = deref(onReq.Params[0].Type())
	isMap := func(key func(types.Type) bool) func(types.Type) bool {
		return func(t types.Type) bool {
			m, ok := t.Underlying().(*types.Map)
			return ok && key(m.Key())
		}
	}
	isStr := func(t types.Type) bool { return types.Identical(t, types.Typ[types.String]) }
	sliceOf := func(elem func(types.Type) bool) func(types.Type) bool {
		return func(t types.Type) bool {
			s, ok := t.Underlying().(*types.Slice)
			return ok && elem(s.Elem())
		}
	}
	isSig := func(t types.Type) bool { _, ok := t.Underlying().(*types.Signature); return ok }
	d.mutators = c.theField(d.rt, "mutators", sliceOf(isSig))
	d.catchers = c.theField(d.rt, "catchers", sliceOf(func(t types.Type) bool { return structOf(t) != nil }))
	d.routes = c.theField(d.rt, "routes", isMap(isStr))
	d.errs = c.theField(d.rt, "error handlers", isMap(func(t types.Type) bool { return !isStr(t) }))
	if f := structFields(d.rt, func(t types.Type) bool { b, ok := t.Underlying().(*types.Basic); return ok && b.Kind() == types.Bool }); len(f) == 1 {
		d.static = f[0]
	}
	cat := c.P.typeOf(pkg, "Catcher")
	if !c.ob(cat != nil, "anchor:Catcher", 0, "type Catcher is gone") {
		return
	}
	d.catchPrefix, d.catchHandler = c.theField(cat, "catcher prefix", isStr), c.theField(cat, "catcher handler", isSig)
	for _, fn := range []*ssa.Function{onReq, onErr} {
		e := c.engine()
		e.Bounds = false // methods are those of the parser
		e.Opaque = opaqueSet(d.norm, d.match, d.respond, d.mString, d.pString)
		pure := map[string]bool{fnName(d.norm): true, fnName(d.mString): true, fnName(d.pString): true}
		e.Pure = func(n string) bool { return pure[n] }
		e.NoHavoc = func(n string) bool { return n == fnName(d.respond) || n == fnName(d.match) }
		e.Recur = 1
		var args []*Term
		for _, p := range fn.Params {
			args = append(args, paramSym(p))
		}
		d.self, d.req = args[0], args[1]
		ps := c.run(e, nil, fn, args)
		c.show(ps)
		c.noPanic(ps, fn)
		d.mutated(ps, fn)
		for _, p := range returns(ps) {
			if fn == onReq {
				d.request(p)
			} else {
				d.error(p, args[2], nil)
			}
		}
	}
	// a mutator is added behind those there
	if fn := c.fn(pkg, "Router.Mutator"); fn != nil && len(fn.Params) == 2 {
		a := []*Term{paramSym(fn.Params[0]), paramSym(fn.Params[1])}
		name := c.theField(deref(a[0].typ), "mutators", func(t types.Type) bool {
			s, ok := t.Underlying().(*types.Slice)
			return ok && types.Identical(s.Elem(), a[1].typ)
		})
		e := c.engine()
		e.NoHavoc = func(string) bool { return true }
		for _, p := range c.run(e, nil, fn, a) {
			n := 0
			for _, ev := range p.S.events {
				if ev.Kind == EvStore && !localRoot(ev.Addr) {
					n++
					v := p.S.F.canon(ev.Val)
					ok := ev.Addr == addrOf(a[0], name) && v.op == OConcat && len(v.args) == 2 && fieldOf(v.args[0], a[0], name)
					c.ob(ok && v.args[1].op == OElems && len(v.args[1].args) == 1 && v.args[1].args[0] == a[1], "mutator:appended", ev.Pos, "a mutator isn't added behind those there but %s kept", v)
				}
			}
			c.ob(p.Kind == PReturn && n == 1 && p.Results[0] == a[0], "mutator:kept", p.Pos, "a mutator isn't kept")
		}
	}
	c.ob(d.nCall >= 2, "paths:handler", onReq.Pos(), "a registered handler is never called")
	c.ob(d.nHead >= 1, "paths:head", onReq.Pos(), "HEAD requests never fall back to the handler of GET")
	c.ob(d.nCatch >= 2, "paths:catcher", onReq.Pos(), "catchers are never asked")
	c.ob(d.nErrH >= 2, "paths:error-handler", onReq.Pos(), "error handlers are never called")
	c.ob(d.nEcho >= 1, "paths:trace", onReq.Pos(), "TRACE requests are never answered")
	c.ob(d.nForeign >= 1, "paths:foreign-error", onErr.Pos(), "errors that aren't HTTP ones are never answered")
}

// mutated: all mutators are called on the request, in order, before anything else is decided.
func (d *dispatch) mutated(ps []*Path, fn *ssa.Function) {
	isMut := func(ev *Event) (*Term, bool) {
		if ev.Kind != EvCall || ev.FnT == nil {
			return nil, false
		}
		b, i, _ := partOf(ev.FnT)
		return i, b != nil && fieldOf(b, d.self, d.mutators)
	}
	n := 0
	for _, p := range returns(ps) {
		done := false
		for _, l := range p.lens(d.self, d.mutators) {
			done = done || p.must(mkIntEq(l, tZeroInt))
		}
		for _, r := range p.S.loopSeq {
			mine := false
			for _, q := range r.Backs {
				for _, ev := range q.S.events[r.NEv:] {
					if _, ok := isMut(ev); ok {
						mine = true
					}
				}
			}
			if !mine {
				continue
			}
			n++
			ok := false
			for _, at := range r.positions() {
				all := true
				for _, q := range r.Backs {
					k := 0
					for _, ev := range q.S.events[r.NEv:] {
						if i, is := isMut(ev); is {
							k++
							all = all && q.equal(i, at) && len(ev.Args) == 1 && ev.Args[0] == d.req
						} else if ev.Kind == EvCall || ev.Kind == EvStore && !localRoot(ev.Addr) {
							all = false
						}
					}
					all = all && k == 1
				}
				left := false
				for _, l := range p.lens(d.self, d.mutators) {
					left = left || p.must(mkGe(at, l))
				}
				ok = ok || all && left
			}
			d.ob(ok, "mutators:all-in-order", fn.Pos(), "mutators aren't called once each, in order, on the request (path: %s)", p.describe(d.Ctx))
			done = true
			// nothing but mutators is called before
			for _, ev := range p.S.events[:r.NEv] {
				d.ob(ev.Kind != EvCall, "mutators:first", ev.Pos, "something is called before the mutators")
			}
		}
		d.ob(done, "mutators:never-skipped", fn.Pos(), "the mutators aren't called (path: %s)", p.describe(d.Ctx))
		for _, ev := range p.S.events {
			if i, is := isMut(ev); is {
				ok := false
				for _, r := range p.S.loopSeq {
					for _, at := range r.positions() {
						ok = ok || p.equal(i, at)
					}
				}
				d.ob(ok, "mutators:once", ev.Pos, "a mutator is called outside of the order")
			}
		}
	}
	d.ob(n > 0, "mutators:called", fn.Pos(), "mutators aren't called by %s", fn)
}

// lens: the lengths of a slice field, at any time, that occur on a path.
func (p *Path) lens(obj *Term, field string) []*Term {
	return p.termsOf(func(t *Term) bool { return t.op == OLen && fieldOf(t.args[0], obj, field) })
}

// called: the user-supplied function whose result is the path's, and whatever was called besides.
func (d *dispatch) called(p *Path) (f *Event, n int) {
	for _, ev := range p.S.events {
		if ev.Kind != EvCall || ev.FnT == nil {
			continue
		}
		if b, _, _ := partOf(ev.FnT); b != nil && fieldOf(b, d.self, d.mutators) {
			continue
		}
		if ev.Fn != nil {
			continue
		}
		n++
		if len(p.Results) == 1 && len(ev.Res) == 1 && p.Results[0] == ev.Res[0] {
			f = ev
		}
	}
	return
}

func (d *dispatch) storeBefore(p *Path, ev *Event, names ...string) *Term {
	a := addrOf(d.req, names...)
	var v *Term
	for _, x := range p.S.events {
		if x == ev {
			break
		}
		if x.Kind == EvStore && x.Addr == a {
			v = x.Val
		}
	}
	return v
}

func (d *dispatch) request(p *Path) {
	// the path looked for is the normalised one
	var norm *Event
	for _, ev := range p.S.events {
		if ev.Kind == EvCall && ev.Fn == d.norm {
			d.ob(norm == nil, "path:normalised-once", ev.Pos, "the path is normalised more than once")
			norm = ev
		}
	}
	if !d.ob(norm != nil && fieldOf(norm.Args[0], d.req, "Path"), "path:normalised", p.Pos, "the request's path isn't normalised") {
		return
	}
	x := norm.Args[0]
	fresh := x.n > 0
	for _, l := range p.lens(d.self, d.mutators) {
		fresh = fresh || p.must(mkIntEq(l, tZeroInt))
	}
	d.ob(fresh, "path:after-mutators", norm.Pos, "the path is taken before mutators have changed it")
	k := norm.Res[0]
	d.ob(p.equal(loadField(p.S, d.req, "Path"), k) || d.storedPath(p, k), "path:stored", norm.Pos, "the handler doesn't see the normalised path")
	// where it was found
	var found, methods, allow *Term
	for _, t := range p.termsOf(func(t *Term) bool { return t.op == OMapHas && fieldOf(t.args[0], d.self, d.routes) }) {
		d.ob(p.equal(t.args[1], k), "lookup:path", norm.Pos, "%s is looked up instead of the normalised path", t.args[1])
		found = t
		m := t.args[0].typ.Underlying().(*types.Map).Elem()
		e := mk(Term{op: OMapGet, args: t.args, typ: m})
		for _, g := range p.termsOf(func(g *Term) bool { return g.op == OMapGet && g.args[0] == t.args[0] && g.args[1] == t.args[1] }) {
			e = g
		}
		methods = fieldByName(e, m, d.theField(m, "handlers of a route", isArray))
		allow = fieldByName(e, m, d.theField(m, "allowed methods of a route", isString))
	}
	for _, ev := range p.S.events {
		if ev.Kind != EvCall || ev.Fn != d.match {
			continue
		}
		d.ob(found == nil, "lookup:once", ev.Pos, "the path is looked up more than once")
		ok := len(ev.Args) == 3 && p.equal(ev.Args[1], k) && fieldOf(ev.Args[2], d.req, "Params")
		d.ob(ok, "lookup:path", ev.Pos, "%s is looked up instead of the normalised path, or its parameters are lost", ev.Args[1])
		e := ev.Res[0]
		found = mkNot(mkEq(e, tNil))
		m := deref(e.typ)
		methods = addrOf(e, d.theField(m, "handlers of a route", isArray))
		a := addrOf(e, d.theField(m, "allowed methods of a route", isString))
		allow = p.S.load(a, types.Typ[types.String])
	}
	if !d.ob(found != nil, "lookup", p.Pos, "an answer is given without looking the path up (path: %s)", p.describe(d.Ctx)) {
		return
	}
	if d.static != "" {
		// only the table that was made is asked
		viaMap, ok := found.op == OMapHas, false
		for _, t := range p.termsOf(func(t *Term) bool { return t.op == OLoad && fieldOf(t, d.self, d.static) }) {
			ok = ok || viaMap && p.must(t) || !viaMap && p.mustNot(t)
		}
		for _, f := range structFields(d.rt, isNilableT) {
			for _, t := range p.termsOf(func(t *Term) bool { return t.op == OLoad && fieldOf(t, d.self, f) }) {
				ok = ok || f != d.errs && p.mustNot(mkEq(t, tNil)) && (f == d.routes) == viaMap || f == d.routes && !viaMap && p.must(mkEq(t, tNil))
			}
		}
		d.ob(ok, "lookup:table", p.Pos, "the path is looked up in the table that isn't made for the routes there are (path: %s)", p.describe(d.Ctx))
	}
	if p.mustNot(found) {
		d.error(p, d.notFound, k)
		return
	}
	if !d.ob(p.must(found), "lookup:decides", p.Pos, "an answer is given without minding whether the path was found") {
		return
	}
	got := d.storeBefore(p, nil, "Env", "AllowedMethods")
	d.ob(got != nil && (p.equal(got, allow) || got.op == OLoad && allow.op == OLoad && got.args[0] == allow.args[0]), "allow:stored", p.Pos, "the allowed methods of the route aren't passed to the handler")
	// the handler of the method
	handlerOf := func(t *Term) (idx *Term, ok bool) {
		b, i, _ := partOf(t)
		return i, b != nil && (b == methods || p.equal(b, methods))
	}
	isMethod := func(i *Term) bool { return fieldOf(i, d.req, "Method") }
	meth := func(v int64) (is, isNot bool) {
		for _, t := range p.termsOf(isMethod) {
			if p.must(mkIntEq(t, mkInt(v))) {
				is = true
			}
			if p.mustNot(mkIntEq(t, mkInt(v))) {
				isNot = true
			}
		}
		return
	}
	// which handlers are known to be missing
	var ownNil, getNil bool
	for _, t := range p.termsOf(func(t *Term) bool { i, ok := handlerOf(t); return ok && i != nil }) {
		i, _ := handlerOf(t)
		if p.must(mkEq(t, tNil)) {
			own := isMethod(i)
			for _, m := range p.termsOf(isMethod) {
				own = own || p.equal(m, i)
			}
			ownNil = ownNil || own
			getNil = getNil || p.equal(i, mkInt(d.get))
		}
	}
	isHead, notHead := meth(d.head)
	f, n := d.called(p)
	if f != nil {
		if i, ok := handlerOf(f.FnT); ok {
			d.ob(n == 1, "handler:alone", f.Pos, "another handler is called besides the route's one")
			d.ob(len(f.Args) == 1 && f.Args[0] == d.req, "handler:request", f.Pos, "the handler is called with %s", f.Args)
			d.ob(p.mustNot(mkEq(f.FnT, tNil)), "handler:registered", f.Pos, "a handler that isn't registered is called")
			own := isMethod(i)
			for _, m := range p.termsOf(isMethod) {
				own = own || p.equal(m, i)
			}
			if own {
				d.nCall++
				d.ob(true, "handler:of-method", f.Pos, "")
				return
			}
			d.nHead++
			d.ob(p.equal(i, mkInt(d.get)) && isHead && ownNil, "handler:of-method", f.Pos, "the handler of method %s is called for another one (path: %s)", i, p.describe(d.Ctx))
			return
		}
	}
	d.ob(ownNil && (notHead || isHead && getNil), "handler:not-missed", p.Pos, "a request is refused although there is a handler for its method (path: %s)", p.describe(d.Ctx))
	d.error(p, d.notAllowed, k)
}

func isArray(t types.Type) bool { _, ok := t.Underlying().(*types.Array); return ok }
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

func (d *dispatch) storedPath(p *Path, k *Term) bool {
	v := d.storeBefore(p, nil, "Path")
	return v != nil && p.equal(v, k)
}

// error: a path answers an error in the way errors are answered; k is the path if it has been changed.
func (d *dispatch) error(p *Path, err, k *Term) {
	isMethod := func(i *Term) bool { return fieldOf(i, d.req, "Method") }
	eq := func(a, b *Term) (is, isNot bool) {
		t := mkEq(a, b)
		return p.must(t), p.mustNot(t)
	}
	f, n := d.called(p)
	is404, not404 := eq(err, d.notFound)
	is405, not405 := eq(err, d.notAllowed)
	isTrace, notTrace := false, false
	for _, t := range p.termsOf(isMethod) {
		isTrace = isTrace || p.must(mkIntEq(t, mkInt(d.trace)))
		notTrace = notTrace || p.mustNot(mkIntEq(t, mkInt(d.trace)))
	}
	if is405 && isTrace {
		d.nEcho++
		d.ob(f == nil && n == 0, "trace:not-handled", p.Pos, "a handler is called for a TRACE request that is to be echoed")
		d.echo(p)
		return
	}
	d.ob(not405 || notTrace, "trace:decided", p.Pos, "a TRACE request without a handler isn't echoed (path: %s)", p.describe(d.Ctx))
	isPath := func(t *Term) bool {
		if k != nil {
			return p.equal(t, k)
		}
		return fieldOf(t, d.req, "Path")
	}
	prefixed := func(q *Path, at *Term, want bool) bool {
		for _, t := range q.termsOf(func(t *Term) bool { return t.op == OPrefix && isPath(t.args[0]) }) {
			b, i, fld := partOf(t.args[1])
			if b != nil && fieldOf(b, d.self, d.catchers) && fld == d.catchPrefix && q.equal(i, at) {
				if want && q.must(t) || !want && q.mustNot(t) {
					return true
				}
			}
		}
		return false
	}
	// the loop over the catchers
	var at []*Term
	for _, r := range p.S.loopSeq {
		for _, x := range r.positions() {
			ok := len(r.Backs) > 0
			for _, q := range r.Backs {
				ok = ok && prefixed(q, x, false)
			}
			if ok {
				at = append(at, x)
			}
		}
	}
	if f != nil {
		if b, i, fld := partOf(f.FnT); b != nil && fieldOf(b, d.self, d.catchers) && fld == d.catchHandler {
			d.nCatch++
			first := false
			for _, x := range at {
				first = first || p.equal(x, i)
			}
			d.ob(n == 1 && len(f.Args) == 1 && f.Args[0] == d.req, "catcher:called", f.Pos, "the catcher isn't called alone, on the request")
			d.ob(is404, "catcher:only-not-found", f.Pos, "a catcher is called for another error")
			d.ob(prefixed(p, i, true), "catcher:prefix", f.Pos, "a catcher is called for a path that doesn't start with its prefix")
			d.ob(first, "catcher:first", f.Pos, "a catcher is called although one before it might match")
			return
		}
	}
	none := not404
	for _, x := range at {
		for _, l := range p.lens(d.self, d.catchers) {
			none = none || p.must(mkGe(x, l))
		}
	}
	for _, l := range p.lens(d.self, d.catchers) {
		none = none || p.must(mkIntEq(l, tZeroInt))
	}
	// a catcher without a handler is none
	for _, t := range p.termsOf(func(t *Term) bool {
		b, _, fld := partOf(t)
		return b != nil && fieldOf(b, d.self, d.catchers) && fld == d.catchHandler
	}) {
		none = none || p.must(mkEq(t, tNil))
	}
	d.ob(none, "catcher:all-asked", p.Pos, "a path that isn't found isn't offered to all catchers (path: %s)", p.describe(d.Ctx))
	// the error itself
	he := d.P.typeOf("http/status", "HTTPError")
	if !d.ob(he != nil, "anchor:HTTPError", 0, "type HTTPError is gone") {
		return
	}
	inner := mk(Term{op: OAssert, args: []*Term{p.S.F.canon(err)}, typ: he})
	if i := ifaceOf(p.S.F.canon(err)); i != nil {
		inner = i.args[0]
	} else {
		is := mk(Term{op: OIsType, args: []*Term{p.S.F.canon(err)}, typ: he})
		if p.mustNot(is) {
			d.nForeign++
			if want, ok := d.constOf("http/status", "InternalServerError"); ok {
				d.plain(p, want, nil)
			}
			d.ob(f == nil && n == 0, "error:foreign", p.Pos, "an error that isn't an HTTP one isn't answered plainly")
			return
		}
		if !d.ob(p.must(is), "error:decided", p.Pos, "an error is answered without minding what it is") {
			return
		}
	}
	code, msg := fieldByName(inner, he, "Code"), fieldByName(inner, he, "Message")
	var h *Term
	orAll := false // the handler registered is none at all
	for _, t := range p.termsOf(func(t *Term) bool {
		return t.op == OMapGet && fieldOf(t.args[0], d.self, d.errs) && p.equal(t.args[1], code) && p.must(mkEq(t, tNil))
	}) {
		_ = t
		orAll, h = true, tZeroInt
	}
	for _, t := range p.termsOf(func(t *Term) bool {
		return t.op == OMapGet && fieldOf(t.args[0], d.self, d.errs) && p.equal(t.args[1], code) && p.mustNot(mkEq(t, tNil))
	}) {
		_ = t
		h = code
	}
	for _, t := range p.termsOf(func(t *Term) bool {
		return t.op == OMapHas && fieldOf(t.args[0], d.self, d.errs) && p.equal(t.args[1], code)
	}) {
		if p.must(t) {
			h = code
		} else if p.mustNot(t) {
			h = tZeroInt
		}
	}
	if !d.ob(h != nil, "error:by-code", p.Pos, "an error is answered without looking up the handler of its code (path: %s)", p.describe(d.Ctx)) {
		return
	}
	isHandler := func(t *Term) bool {
		return t.op == OMapGet && fieldOf(t.args[0], d.self, d.errs) && p.equal(t.args[1], h)
	}
	if f != nil {
		if orAll {
			h = tZeroInt
		}
		d.nErrH++
		d.ob(isHandler(f.FnT), "error:handler", f.Pos, "an error is answered by %s instead of the handler of its code (path: %s)", f.FnT, p.describe(d.Ctx))
		d.ob(n == 1 && len(f.Args) == 1 && f.Args[0] == d.req, "error:called", f.Pos, "the error handler isn't called alone, on the request")
		d.ob(p.mustNot(mkEq(f.FnT, tNil)), "error:handler-exists", f.Pos, "an error handler that isn't there is called")
		e := d.storeBefore(p, f, "Env", "Error")
		d.ob(e != nil && p.same(e, err), "error:passed", f.Pos, "the error isn't passed to its handler")
		return
	}
	d.nPlain++
	no := false
	if orAll && h == code {
		h = tZeroInt
		no = true
	}
	for _, t := range p.termsOf(isHandler) {
		no = no || p.must(mkEq(t, tNil))
	}
	if h == tZeroInt {
		for _, t := range p.termsOf(func(t *Term) bool {
			return t.op == OMapHas && fieldOf(t.args[0], d.self, d.errs) && p.equal(t.args[1], h)
		}) {
			no = no || p.mustNot(t)
		}
	}
	d.ob(no && n == 0, "error:handler-skipped", p.Pos, "an error is answered plainly although there is a handler (path: %s)", p.describe(d.Ctx))
	d.plain(p, code, msg)
}

// built: the response a path returns, as the fields set in it.
func (d *dispatch) built(p *Path, key string) map[string]*Term {
	var ev *Event
	for _, x := range p.S.events {
		if x.Kind == EvCall && x.Fn == d.respond {
			d.ob(ev == nil, key, x.Pos, "several responses are started")
			ev = x
		}
	}
	if !d.ob(ev != nil && len(p.Results) == 1 && p.Results[0] == ev.Res[0] && ev.Args[0] == d.req, key, p.Pos, "the request's own response isn't returned") {
		return nil
	}
	out := map[string]*Term{}
	for _, x := range p.S.events {
		if x.Kind != EvStore || localRoot(x.Addr) || x.Addr.op != OFieldAddr {
			continue
		}
		if fieldOf(x.Addr.args[0], ev.Res[0], "fields") {
			out[x.Addr.name] = x.Val
		}
	}
	return out
}

func (d *dispatch) plain(p *Path, code, msg *Term) {
	got := d.built(p, "error:plain")
	if got == nil {
		return
	}
	d.ob(got["Code"] != nil && p.equal(got["Code"], code), "error:code", p.Pos, "an error is answered with code %s instead of %s", got["Code"], code)
	n := 1
	if msg != nil {
		n++
		d.ob(got["Body"] != nil && p.equal(seqBase(got["Body"]), seqBase(msg)), "error:message", p.Pos, "an error is answered with %s instead of its message", got["Body"])
	}
	d.ob(len(got) == n, "error:nothing-else", p.Pos, "answering an error sets something else")
}

func seqBase(t *Term) *Term {
	b, lo, hi := seqParts(t)
	if n, ok := lo.isInt(); ok && n == 0 && hi == mkLen(b) {
		return b
	}
	return t
}

// echo: a TRACE request is answered by itself.
func (d *dispatch) echo(p *Path) {
	got := d.built(p, "trace:answered")
	if got == nil {
		return
	}
	ct := got["ContentType"]
	s, _ := "", false
	if ct != nil {
		s, _ = ct.isStr()
	}
	d.ob(s == "message/http" && got["Code"] == nil && len(got) == 2, "trace:content-type", p.Pos, "an echoed request is described as %s", ct)
	if !d.ob(got["Body"] != nil, "trace:body", p.Pos, "a TRACE request is answered without itself") {
		return
	}
	r, ok := p.rope(seqBase(got["Body"]), nil)
	i := 0
	next := func(keep func(x piece) bool) bool {
		if i < len(r) && keep(r[i]) {
			i++
			return true
		}
		return false
	}
	call := func(fn *ssa.Function, field string) func(x piece) bool {
		return func(x piece) bool {
			t := x.t
			if t != nil && t.op == OSlice && strings.Contains(t.args[1].String(), "trim{") && strings.Contains(t.args[2].String(), "trim{") {
				t = t.args[0]
			}
			return t != nil && t.op == OCall && t.name == fnName(fn) && fieldOf(t.args[0], d.req, field)
		}
	}
	str := func(s string) func(x piece) bool {
		return func(x piece) bool { return x.t == nil && x.loop == nil && x.s == s }
	}
	query := false
	ok = ok && next(call(d.mString, "Method")) && next(str(" ")) && next(func(x piece) bool {
		return x.t != nil && (fieldOf(x.t, d.req, "Path") || x.t.op == OCall && x.t.name == fnName(d.norm))
	})
	if ok && i < len(r) && str("?")(r[i]) {
		i++
		query = true
		ok = next(func(x piece) bool { return x.t != nil && strings.Contains(x.t.String(), ".raw") })
	}
	noProto := false
	for _, g := range p.S.F.segs { // nothing but spaces
		noProto = noProto || call(d.pString, "Proto")(piece{t: g.base}) && p.equal(g.lo, tZeroInt) && p.equal(g.hi, mkLen(g.base))
	}
	ok = ok && (noProto && next(str(" \r\n")) || next(str(" ")) && next(call(d.pString, "Proto")) && next(str("\r\n")))
	if !query {
		for _, t := range p.termsOf(func(t *Term) bool { return t.op == OLen && strings.Contains(t.args[0].String(), ".raw") }) {
			query = query || p.must(mkIntEq(t, tZeroInt))
		}
	}
	ok = ok && query
	var loop *piece
	if ok && i < len(r) && r[i].loop != nil {
		loop = &r[i]
		i++
	}
	ok = ok && loop != nil && next(str("Content-Length: 0\r\n\r\n")) && i == len(r)
	if !d.ob(ok, "trace:itself", p.Pos, "a TRACE request is answered with %s", ropeString(r)) {
		return
	}
	good := false
	for _, at := range loop.loop.positions() {
		all := len(loop.loop.Backs) > 0
		for _, q := range loop.loop.Backs {
			o, ok := q.rope(q.Next[loop.lv.Name], loop.lv.Cur)
			part := func(x piece, field string) bool {
				if x.t == nil {
					return false
				}
				b, i, f := partOf(x.t)
				return b != nil && f == field && q.equal(i, at) && strings.Contains(b.String(), "pairs")
			}
			all = all && ok && len(o) == 4 && part(o[0], "Key") && o[1].s == ": " && part(o[2], "Value") && o[3].s == "\r\n"
		}
		left := false
		for _, l := range p.termsOf(func(t *Term) bool { return t.op == OLen && strings.Contains(t.args[0].String(), "pairs") }) {
			left = left || p.must(mkGe(at, l))
		}
		good = good || all && left
	}
	d.ob(good, "trace:headers", p.Pos, "the headers of a TRACE request aren't echoed one by one, in order")
}

func isNilableT(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Interface:
		return true
	}
	return false
}

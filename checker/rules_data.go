package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C15", "Observational specification of the ordered key-value storage over an arbitrary storage: search and filter loops decided inductively, operation sequences path by path.", 12, ruleC15)
	register("C16", "Path-sensitive analysis of protocol tokens for every input string; inductive check of the upgrade list walk.", 12, ruleC16)
	register("C17", "Inductive check of the cookie walk: every iteration adds exactly the pair at its position and continues behind it, errors only in front of a malformed pair.", 4, ruleC17)
}

// view runs a parameterless accessor and returns its only result.
func (c *Ctx) view(e *Engine, s *State, fn *ssa.Function, recv *Term) (*Term, *State) {
	ps := returns(c.run(e, s.clone(), fn, []*Term{recv}))
	if !c.ob(len(ps) == 1 && len(ps[0].Results) == 1, "view:"+fnName(fn), fn.Pos(), "%s has %d ways to return", fn, len(ps)) {
		return nil, nil
	}
	return ps[0].Results[0], ps[0].S
}

func ruleC15(c *Ctx) {
	const pkg = "internal/keyvalue"
	f := map[string]*ssa.Function{}
	for _, n := range []string{"Add", "Get", "Value", "ValueOr", "Values", "Keys", "Has", "Len", "Clear", "Unwrap", "Clone", "Iter"} {
		if f[n] = c.fn(pkg, "Storage."+n); f[n] == nil {
			return
		}
	}
	e := c.engine()
	e.Bounds = true
	e.Opaque = func(f *ssa.Function) bool {
		return f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "indigo-web/iter") || strings.Contains(f.String(), "indigo-web/iter.")
	}
	s0 := newState()
	st := mkSym("storage", f["Get"].Params[0].Type())
	s0.F.assume(mkEq(st, tNil), false)
	key := mkSym("key", f["Get"].Params[1].Type())
	val := mkSym("value", f["Add"].Params[2].Type())
	all, s1 := c.view(e, s0, f["Unwrap"], st)
	if all == nil {
		return
	}
	pairT := f["Unwrap"].Signature.Results().At(0).Type()
	pst := structOf(elemT(pairT))
	if !c.ob(pst != nil && pst.NumFields() == 2, "pair", f["Unwrap"].Pos(), "pairs are not pairs") {
		return
	}
	fld := func(base, i *Term, n int) *Term {
		return mkFieldVal(mkElem(base, i, elemT(pairT)), n, pst.Field(n).Type())
	}
	ki, vi := 0, 1
	if pst.Field(1).Name() == "Key" {
		ki, vi = 1, 0
	}
	match := func(base, i *Term) *Term { return mkEqFold(key, fld(base, i, ki)) }
	// first match wins, compared case-insensitively
	find := func(name string, extra []*Term, found func(p *Path, at *Term) bool, missed func(p *Path) bool) {
		ps := c.run(e, s1.clone(), f[name], append([]*Term{st, key}, extra...))
		c.noPanic(ps, f[name])
		hit, miss := 0, 0
		for _, p := range returns(ps) {
			// where is the match?
			var at *Term
			for _, l := range p.S.F.lits {
				if l.v && l.t.op == OEqFold {
					for _, a := range l.t.args {
						if a.op == OFieldVal && a.args[0].op == OElem && a.args[0].args[0] == all && match(all, a.args[0].args[1]) == l.t {
							at = a.args[0].args[1]
						}
					}
				}
			}
			if at != nil {
				hit++
				c.ob(p.S.F.le(tZeroInt, at) && p.S.F.lt(at, mkLen(all)), "find:"+name+":in-range", p.Pos, "match outside of the storage")
				c.ob(p.noneBefore(tZeroInt, at, func(i *Term) *Term { return match(all, i) }), "find:"+name+":first", p.Pos, "the entry found is not known to be the first of its key (path: %s)", p.describe(c))
				c.ob(found(p, at), "find:"+name+":value", p.Pos, "the answer for a stored key is %v (path: %s)", p.Results, p.describe(c))
				continue
			}
			miss++
			c.ob(p.noneBefore(tZeroInt, mkLen(all), func(i *Term) *Term { return match(all, i) }), "find:"+name+":exhaustive", p.Pos, "a key is reported missing although an entry may match (path: %s)", p.describe(c))
			c.ob(missed(p), "find:"+name+":missing", p.Pos, "the answer for a missing key is %v (path: %s)", p.Results, p.describe(c))
		}
		c.ob(hit > 0 && miss > 0, "find:"+name+":reached", f[name].Pos(), "%d paths find, %d miss", hit, miss)
	}
	find("Get", nil, func(p *Path, at *Term) bool { return p.equal(p.Results[0], fld(all, at, vi)) && p.must(p.Results[1]) },
		func(p *Path) bool { return p.equal(p.Results[0], mkStr("")) && p.mustNot(p.Results[1]) })
	find("Value", nil, func(p *Path, at *Term) bool { return p.equal(p.Results[0], fld(all, at, vi)) },
		func(p *Path) bool { return p.equal(p.Results[0], mkStr("")) })
	or := mkSym("or", f["ValueOr"].Params[2].Type())
	find("ValueOr", []*Term{or}, func(p *Path, at *Term) bool { return p.equal(p.Results[0], fld(all, at, vi)) },
		func(p *Path) bool { return p.equal(p.Results[0], or) })
	find("Has", nil, func(p *Path, at *Term) bool { return p.must(p.Results[0]) }, func(p *Path) bool { return p.mustNot(p.Results[0]) })
	// all values of a key, in order; all distinct keys, in order
	ps := c.run(e, s1.clone(), f["Values"], []*Term{st, key})
	c.filterSpec("values", ps, all, func(p *Path, base, i, out *Term) (bool, bool) {
		m := match(base, i)
		return p.must(m) || p.mustNot(m), p.must(m)
	}, func(base, i *Term) *Term { return fld(base, i, vi) })
	ps = c.run(e, s1.clone(), f["Keys"], []*Term{st})
	c.filterSpec("keys", ps, all, func(p *Path, base, i, out *Term) (bool, bool) {
		k := fld(base, i, ki)
		for _, l := range p.S.F.lits {
			if l.v && l.t.op == OEqFold {
				for n, a := range l.t.args {
					if a.op == OElem && a.args[0] == out && p.equal(l.t.args[1-n], k) && p.S.F.le(tZeroInt, a.args[1]) && p.S.F.lt(a.args[1], mkLen(out)) {
						return true, false // already listed
					}
				}
			}
		}
		return p.noneBefore(tZeroInt, mkLen(out), func(j *Term) *Term { return mkEqFold(k, mkElem(out, j, k.typ)) }), true
	}, func(base, i *Term) *Term { return fld(base, i, ki) })
	// adding appends one pair and leaves the others alone
	n := 0
	for _, q := range c.seq(e, s1, step{f["Add"], []*Term{st, key, val}}, step{f["Unwrap"], []*Term{st}}, step{f["Len"], []*Term{st}}) {
		n++
		if !c.ob(q.Kind == PReturn, "add:returns", q.Pos, "adding does not return") {
			continue
		}
		args := make([]*Term, 2)
		args[ki], args[vi] = key, val
		want := mkConcat(all, mkElems([]*Term{mk(Term{op: OAgg, typ: elemT(pairT), args: args})}))
		c.ob(q.equal(q.Res[1][0], want), "add:appended", q.Pos, "after adding, the storage holds %s where %s is due", q.Res[1][0], want)
		c.ob(q.equal(q.Res[0][0], st), "add:chained", q.Pos, "adding returns another storage")
		c.ob(q.S.F.eqInt(q.Res[2][0], mkAddC(mkLen(all), 1)), "len", q.Pos, "the length is %s", q.Res[2][0])
	}
	for _, q := range c.seq(e, s1, step{f["Clear"], []*Term{st}}, step{f["Unwrap"], []*Term{st}}) {
		n++
		c.ob(q.Kind == PReturn && q.S.F.entails(mkIntEq(mkLen(q.Res[1][0]), tZeroInt)), "clear:empty", q.Pos, "after clearing, the storage holds %s", q.Res[1][0])
		c.ob(q.equal(q.Res[0][0], st), "clear:chained", q.Pos, "clearing returns another storage")
	}
	c.ob(n >= 2, "sequences", f["Add"].Pos(), "%d paths", n)
	// iterating walks the pairs
	for _, p := range returns(c.run(e, s1.clone(), f["Iter"], []*Term{st})) {
		ok := false
		for _, ev := range p.S.events {
			if ev.Kind == EvCall && strings.Contains(ev.Name, "iter.Slice") && len(ev.Args) == 1 {
				ok = p.equal(ev.Args[0], all)
			}
		}
		c.ob(ok, "iter", p.Pos, "the iterator does not walk the stored pairs")
	}
	// a copy holds the same pairs, in memory of its own
	e2 := c.engine()
	e2.Copies = true
	ps = c.run(e2, s1.clone(), f["Clone"], []*Term{st})
	c.filterSpec("clone", ps, all, func(p *Path, base, i, out *Term) (bool, bool) { return true, true }, func(base, i *Term) *Term {
		args := make([]*Term, 2)
		args[ki], args[vi] = mkCopyOf(fld(base, i, ki)), mkCopyOf(fld(base, i, vi))
		return mk(Term{op: OAgg, typ: elemT(pairT), args: args})
	}, func(p *Path) *Term {
		c.ob(isFreshObj(p.Results[0]), "clone:fresh", p.Pos, "the copy, %s, is not known to be an object of its own", p.Results[0])
		so := structOf(p.Results[0].typ.Underlying().(*types.Pointer).Elem())
		for i := 0; so != nil && i < so.NumFields(); i++ {
			fv := p.S.load(mkFieldAddr(p.Results[0], i, so, deref(p.Results[0].typ)), so.Field(i).Type())
			c.ob(!sharesMemory(fv), "clone:own:"+so.Field(i).Name(), p.Pos, "the copy's %s refers to the original: %s", so.Field(i).Name(), fv)
		}
		for _, r := range p.S.loopSeq {
			for _, v := range r.Vars {
				c.ob(!isStringish(v.Entry.typ) || !sharesMemory(v.Entry), "clone:own-buffer", p.Pos, "the copy is built in the original's memory: %s", v.Entry)
			}
		}
		v, _ := c.view(e2, p.S, f["Unwrap"], p.Results[0])
		return v
	})
	c.boundsOf(e)
	for _, n := range []string{"internal/keyvalue:New", "internal/keyvalue:NewPreAlloc", "http/headers:New", "http/headers:NewPrealloc", "http/cookie:NewJar", "http/cookie:NewJarPreAlloc"} {
		c.emptyStorage(n, f["Unwrap"])
	}
	for _, pkg := range []string{"internal/keyvalue", "http/headers"} {
		c.mapStorage(pkg, f["Unwrap"], ki, vi)
	}
}

// emptyStorage: the constructor makes a storage of its own that holds nothing.
func (c *Ctx) emptyStorage(name string, unwrap *ssa.Function) {
	pkg, n, _ := strings.Cut(name, ":")
	fn := c.fn(pkg, n)
	if fn == nil {
		return
	}
	s := newState()
	var args []*Term
	for _, p := range fn.Params {
		t := paramSym(p)
		s.F.assume(mkLe(tZeroInt, t), true)
		args = append(args, t)
	}
	e := c.engine()
	ps := c.run(e, s, fn, args)
	c.noPanic(ps, fn)
	for _, p := range returns(ps) {
		r := p.Results[0]
		if !c.ob(isFreshObj(r), "new:"+n, p.Pos, "%s makes no storage of its own but %s", n, r) {
			continue
		}
		v, _ := c.view(e, p.S, unwrap, r)
		c.ob(v != nil && p.S.F.eqInt(mkLen(v), tZeroInt), "new:"+n+":empty", p.Pos, "a new storage isn't empty")
	}
}

// mapStorage: the storage made of a map holds every value of every key, and nothing else.
func (c *Ctx) mapStorage(pkg string, unwrap *ssa.Function, ki, vi int) {
	fn := c.fn(pkg, "NewFromMap")
	if fn == nil {
		return
	}
	key := "new:map:" + pkg
	m := paramSym(fn.Params[0])
	e := c.engine()
	ps := c.run(e, nil, fn, []*Term{m})
	c.noPanic(ps, fn)
	each, ends := 0, 0
	for _, p := range ps {
		rs := p.ranges()
		if p.Kind == PReturn {
			if len(rs) == 0 && (p.must(mkIntEq(mkLen(m), tZeroInt)) || p.must(mkEq(m, tNil))) {
				continue
			}
			ends++
			r := p.Results[0]
			if !c.ob(len(rs) == 1 && rs[0].m == m && p.mustNot(rs[0].more) && isFreshObj(r) && len(p.S.loopSeq) > 0, key+":all", p.Pos, "not every key of the map is taken (path: %s)", p.describe(c)) {
				continue
			}
			rec := p.S.loopSeq[0]
			v, _ := c.view(e, p.S, unwrap, r)
			lv := rec.byCur(v)
			if !c.ob(lv != nil && p.S.F.eqInt(mkLen(lv.Entry), tZeroInt), key+":from-empty", p.Pos, "the storage of a map doesn't consist of its values alone: %s", v) {
				continue
			}
			for _, q := range rec.Backs {
				each++
				c.ob(c.mapValues(q, rec, lv, ki, vi), key+":each", q.Pos, "the values of a key aren't all added under it (path: %s)", q.describe(c))
			}
		}
	}
	c.ob(each > 0 && ends > 0, key+":cases", fn.Pos(), "the values of a map aren't added")
}

// mapValues: in this iteration over a map, the key's values are appended to the variable as pairs.
func (c *Ctx) mapValues(q *Path, rec *LoopRec, lv *LoopVar, ki, vi int) bool {
	rs := q.ranges()
	if len(rs) != 1 {
		return false
	}
	next := q.Next[lv.Name]
	if q.S.F.eqInt(mkLen(rs[0].val), tZeroInt) && q.same(next, lv.Cur) {
		return true
	}
	in := q.S.loopSeq[len(q.S.loopSeq)-1]
	if in == rec {
		return false
	}
	iv := in.byCur(next)
	if iv == nil || !q.same(iv.Entry, lv.Cur) {
		return false
	}
	ok := true
	bad := q.walk(in, rs[0].val, func(r *Path, base, at *Term) {
		n := r.Next[iv.Name]
		if n == nil || n.op != OConcat || len(n.args) != 2 || n.args[0] != iv.Cur || !r.S.F.eqInt(mkLen(n.args[1]), mkInt(1)) {
			ok = false
			return
		}
		pr := mkElem(n.args[1], tZeroInt, elemT(iv.Cur.typ))
		st := structOf(elemT(iv.Cur.typ))
		ok = ok && r.same(mkFieldVal(pr, ki, st.Field(ki).Type()), rs[0].key) && r.same(mkFieldVal(pr, vi, st.Field(vi).Type()), mkElem(base, at, elemT(base.typ)))
	})
	return ok && bad == ""
}

// sharesMemory: the value refers to memory that existed before, other than by copying it.
func sharesMemory(t *Term) bool {
	switch t.op {
	case OLen, OCap, OMakeSlice:
		return false
	case OLoad:
		return true
	case OCall:
		if t.name == "copyOf" {
			return false
		}
	case OElem, OFieldVal: // a string read out of the original
		return true
	}
	for _, a := range t.args {
		if sharesMemory(a) {
			return true
		}
	}
	return false
}

func ruleC16(c *Ctx) {
	const pkg = "http/proto"
	from, str, up := c.fn(pkg, "FromBytes"), c.fn(pkg, "Proto.String"), c.fn(pkg, "ChooseUpgrade")
	if from == nil || str == nil || up == nil {
		return
	}
	val := map[string]*Term{}
	for _, n := range []string{"Unknown", "HTTP10", "HTTP11", "HTTP2"} {
		v, ok := c.constOf(pkg, n)
		if !ok {
			return
		}
		val[n] = v
	}
	seen := map[*Term]bool{}
	for _, v := range val {
		c.ob(!seen[v], "distinct", from.Pos(), "two protocols share a value")
		seen[v] = true
	}
	e := c.engine()
	e.Bounds = true
	raw := mkSym("raw", from.Params[0].Type())
	ps := c.run(e, nil, from, []*Term{raw})
	c.noPanic(ps, from)
	var cases []tcase
	var none []Lit
	for _, t := range [][2]string{{"HTTP/1.0", "HTTP10"}, {"HTTP/1.1", "HTTP11"}, {"HTTP/2.0", "HTTP2"}} {
		eq := mkEq(raw, mkStr(t[0]))
		cases = append(cases, tcase{t[0], val[t[1]], []Lit{pos(eq)}})
		none = append(none, not(eq))
	}
	cases = append(cases, tcase{"anything else", val["Unknown"], none})
	c.table("version", ps, from, cases)
	// rendering
	p := mkSym("p", str.Params[0].Type())
	s := newState()
	s.F.assume(mkLe(tZeroInt, p), true)
	s.F.assume(mkLe(p, mkInt(255)), true)
	ps = c.run(e, s, str, []*Term{p})
	c.noPanic(ps, str)
	cases, none = nil, nil
	for _, t := range [][2]string{{"HTTP/1.0 ", "HTTP10"}, {"HTTP/1.1 ", "HTTP11"}, {"HTTP/2 ", "HTTP2"}} {
		eq := mkIntEq(p, val[t[1]])
		cases = append(cases, tcase{t[0], mkStr(t[0]), []Lit{pos(eq)}})
		none = append(none, not(eq))
	}
	cases = append(cases, tcase{"anything else", mkStr(""), none})
	c.table("text", ps, str, cases)
	// the upgrade list: the first supported token
	names := map[string]string{"http/1.0": "HTTP10", "HTTP/1.0": "HTTP10", "http/1.1": "HTTP11", "HTTP/1.1": "HTTP11", "h2c": "HTTP2", "H2C": "HTTP2"}
	line := mkSym("line", up.Params[0].Type())
	ps = c.run(e, nil, up, []*Term{line})
	c.noPanic(ps, up)
	ws := maskOf(' ', '\t', '\r', '\n', '\v', '\f')
	// token: does the facts' knowledge settle what the token at [pos,end) is? "" = none of the names
	token := func(p *Path, base, lo, hi *Term) (string, bool) {
		f := p.S.F
		miss := map[string]bool{}
		consider := func(l Lit) (string, bool) {
			if l.t.op != OEq {
				return "", false
			}
			for i, a := range l.t.args {
				s, ok := a.isStr()
				if !ok || names[s] == "" {
					continue
				}
				b, l0, h0 := seqParts(l.t.args[1-i])
				if b != base || !f.segAll(base, lo, l0, ws) || !f.segAll(base, h0, hi, ws) || !f.le(lo, l0) || !f.le(h0, hi) {
					continue
				}
				if l.v {
					return s, true
				}
				// the text compared is the trimmed token, so this name is not it
				if f.lt(l0, h0) && f.byteSet(mkElem(base, l0, byteType)).and(ws).empty() && f.byteSet(mkElem(base, mkAddC(h0, -1), byteType)).and(ws).empty() || f.le(h0, l0) {
					miss[s] = true
				}
			}
			return "", false
		}
		for _, l := range f.lits {
			if s, ok := consider(l); ok {
				return s, true
			}
		}
		if f.segAll(base, lo, hi, ws) {
			return "", true // blank
		}
		for n := range names {
			if miss[n] {
				continue
			}
			// too short or too long, or a byte in the way, for the name to be it?
			if p.feasible(pos(mkLe(mkInt(int64(len(n))), mkSub(hi, lo)))) {
				ruled := false
				for _, l := range f.lits {
					if l.t.op == OEqZ || l.t.op == OLe {
						// lengths of the trimmed token
						_ = l
					}
				}
				if !ruled && !c.nameRuledOut(p, base, lo, hi, n, ws) {
					return "", false
				}
			}
		}
		return "", true
	}
	best := "no loop walks the list"
	okAny := false
	for _, cu := range cursorsOf(ps, line) {
		bad := ""
		fail := func(p *Path, m string) {
			if bad == "" {
				bad = m + " (path: " + p.describe(c) + ")"
			}
		}
		steps, hits := 0, 0
		for _, p := range ps {
			if !cu.entryOK(p, line) {
				fail(p, "the walk does not start with the first token")
			}
			base, at := cu.head(p, line)
			f := p.S.F
			switch p.Kind {
			case PBackEdge:
				if p.Next[cu.name] == nil {
					continue
				}
				end, comma, ok := f.firstByte(base, at, ',')
				if !ok {
					fail(p, "the end of the token is not settled")
					continue
				}
				steps++
				nx := cu.next(p, line)
				want := end
				if comma {
					want = mkAddC(end, 1)
				}
				if nx == nil || !f.eqInt(nx, want) && !(!comma && f.le(mkLen(base), nx)) {
					fail(p, "the walk does not continue behind the token")
				}
				if s, ok := token(p, base, at, end); !ok || s != "" {
					fail(p, "a token is passed over that may be supported")
				}
			case PReturn:
				r := p.Results[0]
				if p.equal(r, val["Unknown"]) {
					if f.le(mkLen(base), at) {
						continue
					}
					// the last token, unsupported?
					end, comma, ok := f.firstByte(base, at, ',')
					if ok && !comma {
						if s, ok := token(p, base, at, end); ok && s == "" {
							continue
						}
					}
					fail(p, "unsupported is reported before the list ends")
					continue
				}
				end, _, ok := f.firstByte(base, at, ',')
				if !ok {
					fail(p, "the end of the token is not settled")
					continue
				}
				s, ok := token(p, base, at, end)
				if !ok || s == "" || !p.equal(r, val[names[s]]) {
					fail(p, "the protocol chosen, "+r.String()+", is not that of the token")
					continue
				}
				hits++
			}
		}
		if bad == "" && (steps == 0 || hits < len(names)) {
			bad = "not every protocol is chosen by some path"
		}
		if bad == "" {
			okAny = true
			break
		}
		best = bad
	}
	c.ob(okAny, "upgrade:first-supported", up.Pos(), "%s", best)
	c.boundsOf(e)
}

// nameRuledOut: the trimmed text of base[lo:hi] can't be the name.
func (c *Ctx) nameRuledOut(p *Path, base, lo, hi *Term, name string, ws mask) bool {
	f := p.S.F
	for _, l := range f.lits {
		// any comparison of a slice that is the trimmed token tells its bounds
		var sl *Term
		walkTerm(l.t, func(x *Term) {
			if x.op == OSlice && x.args[0] == base && sl == nil && f.le(lo, x.args[1]) && f.le(x.args[2], hi) &&
				f.segAll(base, lo, x.args[1], ws) && f.segAll(base, x.args[2], hi, ws) {
				sl = x
			}
		})
		if sl == nil {
			continue
		}
		g := f.clone()
		if !g.assume(mkEq(sl, mkStr(name)), true) || g.refuteAll(2) {
			return true
		}
	}
	return false
}

func ruleC17(c *Ctx) {
	fn := c.fn("http/cookie", "Parse")
	add := c.fn("internal/keyvalue", "Storage.Add")
	if fn == nil || add == nil {
		return
	}
	e := c.engine()
	e.Bounds = true
	e.Opaque = func(f *ssa.Function) bool { return f == add }
	e.NoHavoc = func(n string) bool { return n == fnName(add) }
	jar, data := mkSym("jar", fn.Params[0].Type()), mkSym("data", fn.Params[1].Type())
	ps := c.run(e, nil, fn, []*Term{jar, data})
	c.noPanic(ps, fn)
	best := "no loop walks the value"
	okAny := false
	for _, cu := range cursorsOf(ps, data) {
		bad := ""
		fail := func(p *Path, m string) {
			if bad == "" {
				bad = m + " (path: " + p.describe(c) + ")"
			}
		}
		steps, errs := 0, 0
		for _, p := range ps {
			if p.Kind == PPanic {
				continue
			}
			if p.Kind == PBackEdge && p.Next[cu.name] == nil {
				continue
			}
			if !cu.entryOK(p, data) {
				fail(p, "the walk does not start at the beginning")
			}
			base, at := cu.head(p, data)
			f := p.S.F
			// the pairs added on this path
			for _, ev := range p.S.events {
				if ev.Kind != EvCall || ev.Name != fnName(add) {
					continue
				}
				if len(ev.Args) != 3 || !p.equal(ev.Args[0], jar) {
					fail(p, "a pair is added to another jar")
					continue
				}
				eq, found, ok := f.firstByte(base, at, '=')
				if !ok || !found || !f.lt(at, eq) {
					fail(p, "a pair without a name is added")
					continue
				}
				end, semi, ok := f.firstByte(base, mkAddC(eq, 1), ';')
				if !ok {
					fail(p, "the end of the pair is not settled")
					continue
				}
				if !p.isSlice(ev.Args[1], base, at, eq) {
					fail(p, "the name added is "+ev.Args[1].String())
				}
				if !p.isSlice(ev.Args[2], base, mkAddC(eq, 1), end) {
					fail(p, "the value added is "+ev.Args[2].String())
				}
				at = end
				if semi {
					at = mkAddC(end, 1)
					if f.lt(at, mkLen(base)) && f.byteSet(mkElem(base, at, byteType)) == maskOf(' ') {
						at = mkAddC(at, 1)
					} else if p.feasible(pos(mkLt(at, mkLen(base))), pos(mkIntEq(mkElem(base, at, byteType), mkInt(' ')))) {
						fail(p, "a space after the separator may become part of the next name")
					}
				}
			}
			switch p.Kind {
			case PBackEdge:
				steps++
				nx := cu.next(p, data)
				if nx == nil || !f.eqInt(nx, at) {
					fail(p, "the walk continues elsewhere than behind the pair")
				}
			case PReturn:
				if p.must(mkEq(p.Results[0], tNil)) {
					if !f.le(mkLen(base), at) {
						fail(p, "success is reported although input is left over")
					}
					continue
				}
				if !p.mustNot(mkEq(p.Results[0], tNil)) {
					fail(p, "cannot tell whether an error is returned")
					continue
				}
				errs++
				eq, found, ok := f.firstByte(base, at, '=')
				if !f.lt(at, mkLen(base)) || !ok || found && !f.eqInt(eq, at) {
					fail(p, "an error is returned in front of a well-formed pair")
				}
			}
		}
		if bad == "" && (steps == 0 || errs < 2) {
			bad = "a kind of malformed value is not rejected"
		}
		if bad == "" {
			okAny = true
			break
		}
		best = bad
	}
	c.ob(okAny, "cookies:walk", fn.Pos(), "%s", best)
	c.boundsOf(e)
}

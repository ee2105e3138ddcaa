package main

import (
	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C18", "Inductive check of the query walk (pieces split on the raw text, decoded one by one), and operation sequences of the lazy query from an arbitrary state.", 10, ruleC18)
}

func ruleC18(c *Ctx) {
	fn, add, dec := c.fn("http/query/internal", "Parse"), c.fn("internal/keyvalue", "Storage.Add"), c.fn("internal/uridecode", "Decode")
	if fn == nil || add == nil || dec == nil {
		return
	}
	e := c.engine()
	e.Bounds = true
	e.Opaque = opaqueSet(add, dec)
	e.NoHavoc = func(n string) bool { return n == fnName(add) || n == fnName(dec) }
	data, params := mkSym("data", fn.Params[0].Type()), mkSym("params", fn.Params[1].Type())
	ps := c.run(e, nil, fn, []*Term{data, params})
	c.noPanic(ps, fn)
	c.show(ps)
	best := "no loop walks the query"
	okAny := false
	for _, cu := range cursorsOf(ps, data) {
		bad := ""
		fail := func(p *Path, m string) {
			if bad == "" {
				bad = m + " (path: " + p.describe(c) + ")"
			}
		}
		steps, flags, pairs, errs := 0, 0, 0, 0
		for _, p := range ps {
			if p.Kind == PPanic || p.Kind == PBackEdge && p.Next[cu.name] == nil {
				continue
			}
			if !cu.entryOK(p, data) {
				fail(p, "the walk does not start at the beginning")
			}
			base, at := cu.head(p, data)
			f := p.S.F
			// what is decoded and added, in order
			var decs, adds []*Event
			for _, ev := range p.S.events {
				if ev.Kind == EvCall && ev.Name == fnName(dec) {
					decs = append(decs, ev)
				}
				if ev.Kind == EvCall && ev.Name == fnName(add) {
					adds = append(adds, ev)
				}
			}
			// decoded: the text base[lo:hi], with pluses replaced, was decoded into memory of its own
			decoded := func(lo, hi *Term) *Event {
				for _, d := range decs {
					if d.Args[1] != nil {
						own := true
						walkTerm(f.canon(d.Args[1]), func(x *Term) { own = own && x != base && x != data })
						if !own {
							fail(p, "the raw query is overwritten")
						}
					}
					if c.plusless(p, d.Args[0], base, lo, hi) {
						return d
					}
				}
				return nil
			}
			rest := func() bool { return f.le(mkLen(base), at) }
			var failed *Event
			for _, d := range decs {
				if p.mustNot(mkEq(d.Res[1], tNil)) {
					failed = d
				} else if !p.must(mkEq(d.Res[1], tNil)) {
					fail(p, "whether a piece could be decoded is not looked at")
				}
			}
			badName := false
			for bad == "" && !rest() {
				sep, found, ok := f.firstByte(base, at, '=', '&')
				if !ok {
					if len(adds) > 0 {
						fail(p, "the end of the name is not settled")
					}
					break
				}
				end, next := sep, sep
				isPair := found && f.byteSet(mkElem(base, sep, byteType)) == maskOf('=')
				if found && !isPair {
					next = mkAddC(sep, 1)
				}
				k := decoded(at, sep)
				if k == nil {
					if len(adds) > 0 {
						fail(p, "the name added is not the one of the query")
					}
					break
				}
				if k == failed {
					break
				}
				var v *Event
				if isPair {
					if p.must(mkIntEq(mkLen(k.Res[0]), tZeroInt)) {
						badName = true
						break
					}
					amp, more, ok := f.firstByte(base, mkAddC(sep, 1), '&')
					if !ok {
						fail(p, "the end of the value is not settled")
						break
					}
					end, next = amp, amp
					if more {
						next = mkAddC(amp, 1)
					}
					if v = decoded(mkAddC(sep, 1), end); v == nil {
						fail(p, "the value is not decoded")
						break
					}
					if v == failed {
						break
					}
				}
				if len(adds) == 0 {
					fail(p, "a parameter is left out")
					break
				}
				a := adds[0]
				adds = adds[1:]
				if !p.equal(a.Args[0], params) {
					fail(p, "a parameter is stored elsewhere")
				}
				if !p.equal(a.Args[1], k.Res[0]) {
					fail(p, "the name added is "+a.Args[1].String())
				}
				switch {
				case v != nil:
					pairs++
					if !p.equal(a.Args[2], v.Res[0]) {
						fail(p, "the value added is "+a.Args[2].String())
					}
					if !p.mustNot(mkIntEq(mkLen(k.Res[0]), tZeroInt)) {
						fail(p, "a value without a name may be added")
					}
				default:
					flags++
					if x, ok := f.canon(a.Args[2]).isStr(); !ok || x != "1" {
						fail(p, "the value of a bare name is "+a.Args[2].String())
					}
				}
				at = next
			}
			if bad == "" && len(adds) > 0 {
				fail(p, "something is added that the query doesn't hold")
			}
			switch p.Kind {
			case PBackEdge:
				steps++
				if nx := cu.next(p, data); bad == "" && (nx == nil || !f.eqInt(nx, at)) {
					fail(p, "the walk continues elsewhere than behind the parameter")
				}
			case PReturn:
				if bad != "" {
					continue
				}
				if p.must(mkEq(p.Results[0], tNil)) {
					if !rest() || failed != nil {
						fail(p, "success is reported although input is left over")
					}
					continue
				}
				errs++
				if !(badName && p.mustNot(mkEq(p.Results[0], tNil))) && !(failed != nil && p.equal(p.Results[0], failed.Res[1])) {
					fail(p, "an error is returned for a well-formed query")
				}
			}
		}
		if bad == "" && (steps == 0 || errs < 2 || flags == 0 || pairs == 0) {
			bad = "a kind of parameter or malformed query is not handled"
		}
		if bad == "" {
			okAny = true
			break
		}
		if best == "no loop walks the query" || cu.suffix {
			best = bad
		}
	}
	c.ob(okAny, "query:walk", fn.Pos(), "%s", best)
	c.boundsOf(e)
	c.lazyQuery(fn)
}

// plusless: t is base[lo:hi] with every plus replaced by a space.
func (c *Ctx) plusless(p *Path, t, base, lo, hi *Term) bool {
	f := p.S.F
	if p.isSlice(t, base, lo, hi) {
		return f.segAll(base, lo, hi, maskOf('+').not())
	}
	t = f.canon(t)
	if t.op != OCall || t.name != "replaceAll" {
		return false
	}
	one := func(t *Term, want string) bool {
		x, ok := p.S.constSeq(t).isStr()
		return ok && x == want
	}
	return p.isSlice(t.args[0], base, lo, hi) && one(t.args[1], "+") && one(t.args[2], " ")
}

// lazyQuery: whatever happened before, after a query was set its text is parsed once, into an empty
// storage, by the first access, and every access answers from that.
func (c *Ctx) lazyQuery(parse *ssa.Function) {
	const pkg = "http/query"
	ctor, set, raw := c.fn(pkg, "New"), c.fn(pkg, "Query.Set"), c.fn(pkg, "Query.Raw")
	get, unw := c.fn(pkg, "Query.Get"), c.fn(pkg, "Query.Unwrap")
	kvGet, kvClear := c.fn("internal/keyvalue", "Storage.Get"), c.fn("internal/keyvalue", "Storage.Clear")
	noKey := c.global(pkg, "ErrNoSuchKey")
	if ctor == nil || set == nil || raw == nil || get == nil || unw == nil || kvGet == nil || kvClear == nil || noKey == nil {
		return
	}
	e := c.engine()
	e.Opaque = opaqueSet(parse, kvGet, kvClear)
	e.NoHavoc = func(n string) bool { return n == fnName(parse) || n == fnName(kvGet) || n == fnName(kvClear) }
	params := mkSym("params", ctor.Params[0].Type())
	s0, q := c.object(e, ctor, "query", []*Term{params})
	if q == nil {
		return
	}
	key := mkSym("key", get.Params[1].Type())
	a, b := mkSym("a", set.Params[1].Type()), mkSym("b", set.Params[1].Type())
	type op struct {
		name string
		fn   *ssa.Function
		arg  *Term
	}
	G, U := op{"Get", get, key}, op{"Unwrap", unw, nil}
	SA, SB, R := op{"Set", set, a}, op{"Set", set, b}, op{"Raw", raw, nil}
	var seqs [][]op
	for _, x := range []op{G, U} {
		for _, y := range []op{G, U} {
			for _, z := range []op{G, U} {
				seqs = append(seqs, []op{x, SA, y, R, z}, []op{x, SA, SB, R, y, z}, []op{x, SA, y, SB, z, R})
			}
		}
	}
	key0 := "query:"
	for _, seq := range seqs {
		type st struct {
			p      *Path
			cur    *Term  // the text set last
			parsed *Event // its parsing
			dirty  bool
		}
		first := true
		cur := []st{{p: &Path{S: s0}}}
		for _, o := range seq {
			var nxt []st
			for _, x := range cur {
				args := []*Term{q}
				if o.arg != nil {
					args = append(args, o.arg)
				}
				n0 := len(x.p.S.events)
				for _, p := range returns(c.run(e, x.p.S.clone(), o.fn, args)) {
					y := x
					y.p = p
					var parses, gets, clears []*Event
					for _, ev := range p.S.events[n0:] {
						switch {
						case ev.Kind == EvCall && ev.Name == fnName(parse):
							parses = append(parses, ev)
						case ev.Kind == EvCall && ev.Name == fnName(kvGet):
							gets = append(gets, ev)
						case ev.Kind == EvCall && ev.Name == fnName(kvClear):
							clears = append(clears, ev)
							y.dirty = false
						}
					}
					for _, cl := range clears {
						c.ob(p.equal(cl.Args[0], params), key0+"clears", p.Pos, "another storage is cleared")
					}
					switch o.name {
					case "Set":
						c.ob(len(parses) == 0, key0+"lazy", p.Pos, "a query is parsed before it is asked for")
						y.cur, y.parsed = o.arg, nil
					case "Raw":
						c.ob(p.equal(p.Results[0], y.cur) && len(parses)+len(clears) == 0, key0+"raw", p.Pos, "the raw query is %s where %s was set", p.Results[0], y.cur)
					default:
						var perr *Term
						if !first {
							if y.parsed == nil {
								if !c.ob(len(parses) == 1 && p.equal(parses[0].Args[0], y.cur) && p.equal(parses[0].Args[1], params), key0+"parsed", p.Pos,
									"the query set last is not what is parsed by %s in %s", o.name, seqName(len(seq), func(i int) string { return seq[i].name })) {
									continue
								}
								c.ob(!y.dirty, key0+"parsed-afresh", p.Pos, "parameters of the previous query may be left over in %s", seqName(len(seq), func(i int) string { return seq[i].name }))
								y.parsed = parses[0]
							} else {
								c.ob(len(parses) == 0, key0+"parsed-once", p.Pos, "a query is parsed again")
							}
							perr = y.parsed.Res[0]
						}
						y.dirty = true
						at := map[*Event]int{}
						for i, ev := range p.S.events {
							at[ev] = i
						}
						for _, cl := range clears {
							c.ob(len(parses) > 0 && at[cl] < at[parses[0]], key0+"kept", p.Pos, "parsed parameters are dropped")
						}
						for _, g := range gets {
							c.ob(len(parses) == 0 || at[g] > at[parses[0]], key0+"parsed-first", p.Pos, "a key is looked up before the query is parsed")
						}
						if perr == nil {
							break
						}
						isErr := p.mustNot(mkEq(perr, tNil))
						if !c.ob(isErr || p.must(mkEq(perr, tNil)), key0+"error-checked", p.Pos, "whether the query is malformed is not looked at") {
							continue
						}
						res := p.Results
						switch {
						case isErr:
							c.ob(p.equal(res[1], perr), key0+"error", p.Pos, "a malformed query is reported as %s", res[1])
						case o.name == "Unwrap":
							c.ob(p.must(mkEq(res[1], tNil)) && p.equal(res[0], params), key0+"unwrap", p.Pos, "the parameters are %s, %s", res[0], res[1])
						default:
							if !c.ob(len(gets) == 1 && p.equal(gets[0].Args[0], params) && p.equal(gets[0].Args[1], key), key0+"looked-up", p.Pos, "the key is not looked up") {
								continue
							}
							g := gets[0]
							switch {
							case p.must(g.Res[1]):
								c.ob(p.must(mkEq(res[1], tNil)) && p.equal(res[0], g.Res[0]), key0+"found", p.Pos, "a parameter is reported as %s, %s", res[0], res[1])
							case p.mustNot(g.Res[1]):
								c.ob(p.equal(res[1], noKey), key0+"missing", p.Pos, "a missing parameter is reported as %s", res[1])
							default:
								c.ob(false, key0+"found-checked", p.Pos, "whether there is such a key is not looked at")
							}
						}
					}
					nxt = append(nxt, y)
				}
			}
			first = false
			cur = nxt
		}
		c.ob(len(cur) > 0, key0+"sequences", set.Pos(), "a sequence of operations has no outcome")
	}
}

func seqName(n int, at func(int) string) string {
	s := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			s += ", "
		}
		s += at(i)
	}
	return s
}

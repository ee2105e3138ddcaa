package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C34", "All paths of choosing a host's router for requests and errors, of registering hosts and of initialising their routers.", 25, ruleC34)
}

func ruleC34(c *Ctx) {
	const pkg = "router/virtual"
	onReq, onErr := c.fn(pkg, "runtimeRouter.OnRequest"), c.fn(pkg, "runtimeRouter.OnError")
	host, def, init, newR := c.fn(pkg, "Router.Host"), c.fn(pkg, "Router.Default"), c.fn(pkg, "Router.Initialize"), c.fn(pkg, "New")
	norm, trim := c.fn(pkg+"/internal/domain", "Normalize"), c.fn(pkg+"/internal/domain", "TrimPort")
	values, code := c.fn("internal/keyvalue", "Storage.Values"), c.fn("http", "Code")
	for _, f := range []*ssa.Function{onReq, onErr, host, def, init, newR, norm, trim, values, code} {
		if f == nil {
			return
		}
	}
	isSl := func(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }
	isIf := func(t types.Type) bool { _, ok := t.Underlying().(*types.Interface); return ok }
	rt, bt := deref(onReq.Params[0].Type()), deref(host.Params[0].Type())
	list, defR := c.theField(rt, "hosts' routers", isSl), c.theField(rt, "default router", isIf)
	blist, bdef := c.theField(bt, "hosts' routers", isSl), c.theField(bt, "default router", isIf)
	if list == "" || defR == "" || blist == "" || bdef == "" {
		return
	}
	ent, bent := fieldType(rt, list).Underlying().(*types.Slice).Elem(), fieldType(bt, blist).Underlying().(*types.Slice).Elem()
	dom, rou := c.theField(ent, "host", isString), c.theField(ent, "router", isIf)
	bdom, brou := c.theField(bent, "host", isString), c.theField(bent, "router", isIf)
	if dom == "" || rou == "" || bdom == "" || brou == "" {
		return
	}
	eng := func(fns ...*ssa.Function) *Engine {
		e := c.engine()
		e.Opaque = opaqueSet(fns...)
		e.NoHavoc = func(string) bool { return true }
		return e
	}
	badReq, _ := c.constOf("http/status", "BadRequest")
	misdirected, _ := c.constOf("http/status", "MisdirectedRequest")

	for _, fn := range []*ssa.Function{onReq, onErr} {
		name := fn.Name()
		self, req := paramSym(fn.Params[0]), paramSym(fn.Params[1])
		args := []*Term{self, req}
		if fn == onErr {
			args = append(args, paramSym(fn.Params[2]))
		}
		e := eng(values, norm, code)
		e.Bounds = true
		ps := c.run(e, nil, fn, args)
		c.noPanic(ps, fn)
		c.boundsOf(e)
		c.show(ps)
		cnt := map[string]int{}
		for _, p := range ps {
			for _, ev := range p.S.events {
				c.ob(ev.Kind != EvStore || localRoot(ev.Addr), name+":read-only", ev.Pos, "choosing a router changes something")
			}
			if p.Kind != PReturn {
				continue
			}
			var hosts, normal *Term
			var hand *Event
			codes := map[*Term]*Term{}
			n := 0
			for _, ev := range p.S.events {
				if ev.Kind != EvCall {
					continue
				}
				switch {
				case ev.Fn == values:
					k, is := ev.Args[1].isStr()
					if c.ob(is && strings.EqualFold(k, "host") && fieldOf(ev.Args[0], req, "Headers"), name+":host-header", ev.Pos, "what is looked up isn't the request's host") {
						hosts = ev.Res[0]
					}
				case ev.Fn == norm:
					b, i, _ := partOf(ev.Args[0])
					if c.ob(hosts != nil && b == hosts && p.equal(i, tZeroInt), name+":normalised", ev.Pos, "what is normalised isn't the request's host") {
						normal = ev.Res[0]
					}
				case ev.Fn == code:
					if ev.Args[0] == req {
						codes[ev.Res[0]] = ev.Args[1]
					}
				case ev.Fn == nil:
					hand = ev
					n++
				}
			}
			if !c.ob(hosts != nil && n <= 1, name+":host-header", p.Pos, "the request's hosts aren't asked for (path: %s)", p.describe(c)) {
				continue
			}
			nh := mkLen(hosts)
			none, one := p.must(mkIntEq(nh, tZeroInt)), p.must(mkIntEq(nh, mkInt(1)))
			many := p.must(mkGt(nh, mkInt(1)))
			if !c.ob(none || one || many, name+":hosts", p.Pos, "a request without a host, one with a host or one with several are treated alike (path: %s)", p.describe(c)) {
				continue
			}
			match := func(q *Path, at *Term, want bool) bool {
				for _, t := range q.termsOf(func(t *Term) bool { return t.op == OEqFold }) {
					for k := 0; k < 2; k++ {
						b, i, f := partOf(t.args[k])
						if b != nil && fieldOf(b, self, list) && f == dom && q.equal(i, at) && t.args[1-k] == normal {
							if want && q.must(t) || !want && q.mustNot(t) {
								return true
							}
						}
					}
				}
				return false
			}
			var at []*Term
			for _, r := range p.S.loopSeq {
				for _, x := range r.positions() {
					ok := len(r.Backs) > 0
					for _, q := range r.Backs {
						ok = ok && match(q, x, false)
					}
					if ok {
						at = append(at, x)
					}
				}
			}
			// the one asked, if any
			direct := hand != nil && strings.HasSuffix(hand.Name, ")."+name) && p.Results[0] == hand.Res[0] && len(hand.Args) == len(args) && hand.Args[1] == req
			if direct && fn == onErr {
				direct = hand.Args[2] == args[2]
			}
			if hand != nil {
				c.ob(direct, name+":handed-on", hand.Pos, "the request isn't handed on to a router's same method, or its answer isn't returned")
			}
			if direct {
				if b, i, f := partOf(hand.Args[0]); b != nil && fieldOf(b, self, list) && f == rou {
					cnt["host"]++
					first := false
					for _, x := range at {
						first = first || p.equal(x, i)
					}
					c.ob(one && match(p, i, true), name+":of-host", hand.Pos, "a request is handed to the router of another host (path: %s)", p.describe(c))
					c.ob(first, name+":first", hand.Pos, "a request is handed to a router although one before it might match (path: %s)", p.describe(c))
					continue
				}
				c.ob(fieldOf(hand.Args[0], self, defR), name+":which", hand.Pos, "a request is handed to %s", hand.Args[0])
			}
			all := false
			for _, l := range p.lens(self, list) {
				all = all || p.must(mkIntEq(l, tZeroInt))
				for _, x := range at {
					all = all || p.must(mkGe(x, l))
				}
			}
			// a host's router that is nil answers nothing
			for _, t := range p.termsOf(func(t *Term) bool {
				b, _, f := partOf(t)
				return b != nil && fieldOf(b, self, list) && f == rou
			}) {
				all = all || p.must(mkEq(t, tNil))
			}
			nilDef := false
			for _, t := range p.termsOf(func(t *Term) bool { return fieldOf(t, self, defR) }) {
				nilDef = nilDef || p.must(mkEq(t, tNil))
			}
			if hand != nil {
				cnt["default"]++
				c.ob(none || one && all, name+":default", hand.Pos, "the default router is asked although another might be due, or for several hosts (path: %s)", p.describe(c))
				continue
			}
			got := codes[p.Results[0]]
			switch {
			case many, none:
				cnt["bad"]++
				c.ob(got != nil && p.equal(got, badReq) && (many || nilDef), name+":bad-request", p.Pos, "a request without a host, or with several, isn't a bad one (path: %s)", p.describe(c))
			case one:
				nilHost := p.Results[0] == tNil || p.must(mkEq(p.Results[0], tNil))
				if nilHost && all && !nilDef {
					continue // the host's router is nil
				}
				cnt["misdirected"]++
				c.ob(got != nil && p.equal(got, misdirected) && all && nilDef, name+":misdirected", p.Pos, "a request for an unknown host isn't refused as misdirected (path: %s)", p.describe(c))
			}
		}
		for _, k := range []string{"host", "default", "bad", "misdirected"} {
			c.ob(cnt[k] > 0, name+":cases", fn.Pos(), "no path for the case %q", k)
		}
	}

	// registration
	{
		e := eng(norm, trim)
		self, h, other := paramSym(host.Params[0]), paramSym(host.Params[1]), paramSym(host.Params[2])
		nd, nh := 0, 0
		for _, p := range c.run(e, nil, host, []*Term{self, h, other}) {
			if !c.ob(p.Kind == PReturn && p.Results[0] == self, "host:returns", p.Pos, "registering a host doesn't return the router") {
				continue
			}
			var nm, tm *Term
			for _, ev := range p.S.events {
				if ev.Kind == EvCall && ev.Fn == norm && ev.Args[0] == h {
					nm = ev.Res[0]
				}
				if ev.Kind == EvCall && ev.Fn == trim && (ev.Args[0] == nm || ev.Args[0] == h) {
					tm = ev.Res[0]
				}
			}
			any := mkStr("0.0.0.0")
			isAny := tm != nil && p.must(mkEq(tm, any))
			notAny := tm != nil && p.mustNot(mkEq(tm, any))
			order, last := p.fieldStores(0)
			ok := false
			if len(order) == 1 && fieldOf(mkLoadOf(order[0]), self, bdef) {
				nd++
				ok = isAny && last[order[0]] == other
			} else if len(order) == 1 && order[0].op == OFieldAddr && order[0].name == blist && order[0].args[0] == self {
				nh++
				v := p.S.F.canon(last[order[0]])
				if v.op == OConcat && len(v.args) == 2 && fieldOf(v.args[0], self, blist) && v.args[1].op == OElems && len(v.args[1].args) == 1 {
					x := v.args[1].args[0]
					ok = notAny && nm != nil && p.structField(x, bent, bdom) == nm && p.structField(x, bent, brou) == other
				}
			}
			c.ob(ok, "host:kept", p.Pos, "a host isn't kept behind the earlier ones with its router, or taken for the default (path: %s)", p.describe(c))
		}
		c.ob(nd > 0 && nh > 0, "host:cases", host.Pos(), "hosts aren't kept, or there is no default")
		e = eng()
		self, other = paramSym(def.Params[0]), paramSym(def.Params[1])
		for _, p := range c.run(e, nil, def, []*Term{self, other}) {
			order, last := p.fieldStores(0)
			c.ob(len(order) == 1 && order[0].op == OFieldAddr && order[0].name == bdef && order[0].args[0] == self && last[order[0]] == other && p.Results[0] == self, "default:kept", p.Pos, "the default router isn't kept")
		}
		for _, p := range c.run(eng(), nil, newR, nil) {
			ok := p.Kind == PReturn
			if ok {
				l, d := loadField(p.S, p.Results[0], blist), loadField(p.S, p.Results[0], bdef)
				ok = p.must(mkIntEq(mkLen(l), tZeroInt)) && p.must(mkEq(d, tNil))
			}
			c.ob(ok, "new:empty", newR.Pos(), "a new router has hosts")
		}
	}

	// initialisation
	{
		e := eng()
		e.LocalStores = true
		self := paramSym(init.Params[0])
		ps := c.run(e, nil, init, []*Term{self})
		c.show(ps)
		c.noPanic(ps, init)
		n := map[string]int{}
		for _, p := range ps {
			if p.Kind != PReturn {
				continue
			}
			res := unwrapIface(p.Results[0])
			l, d := loadField(p.S, res, list), loadField(p.S, res, defR)
			// the default
			var dcall *Event
			for _, ev := range p.S.events {
				if ev.Kind == EvCall && strings.HasSuffix(ev.Name, ").Initialize") && fieldOf(ev.Args[0], self, bdef) {
					dcall = ev
				}
			}
			if dcall != nil {
				n["default"]++
				c.ob(p.same(d, dcall.Res[0]), "init:default", p.Pos, "the default router isn't the initialised one")
			} else {
				n["none"]++
				isNil := false
				for _, t := range p.termsOf(func(t *Term) bool { return fieldOf(t, self, bdef) }) {
					isNil = isNil || p.must(mkEq(t, tNil))
				}
				c.ob(isNil && p.must(mkEq(d, tNil)), "init:default", p.Pos, "the default router isn't initialised")
			}
			var src *Term
			for _, t := range p.termsOf(func(t *Term) bool { return fieldOf(t, self, blist) }) {
				src = t
			}
			if src == nil {
				src = loadField(newState(), self, blist)
			}
			c.ob(p.must(mkIntEq(mkLen(l), mkLen(src))) || isAccum(p, l), "init:as-many", p.Pos, "the router doesn't have as many hosts as were registered")
			ok := false
			for _, r := range p.S.loopSeq {
				m := p.walk(r, src, func(q *Path, base, at *Term) {
					n["iter"]++
					c.ob(c.initialised(q, r, l, base, at, dom, rou, bdom, brou, ent), "init:each", q.Pos, "a host's router isn't kept, initialised, under its host (path: %s)", q.describe(c))
				})
				ok = ok || m == ""
			}
			ok = ok || p.must(mkIntEq(mkLen(src), tZeroInt))
			c.ob(ok, "init:all", p.Pos, "not all hosts' routers are initialised")
		}
		for _, k := range []string{"default", "none", "iter"} {
			c.ob(n[k] > 0, "init:cases", init.Pos(), "no path for the case %q", k)
		}
	}
}

// isAccum: the value was collected by a loop, from nothing.
func isAccum(p *Path, l *Term) bool {
	for _, r := range p.S.loopSeq {
		if v := r.byCur(p.S.F.canon(l)); v != nil && p.must(mkIntEq(mkLen(v.Entry), tZeroInt)) {
			return true
		}
	}
	return false
}

func mkLoadOf(a *Term) *Term { return mk(Term{op: OLoad, args: []*Term{a}}) }

// structField: the named field of a struct value.
func (p *Path) structField(x *Term, t types.Type, name string) *Term {
	st := structOf(t)
	if st == nil {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return p.S.F.canon(mkFieldVal(p.S.F.canon(x), i, st.Field(i).Type()))
		}
	}
	return nil
}

// initialised: an iteration puts the element's host and what its router's Initialize returns to the
// same place of the result, or behind what was collected.
func (c *Ctx) initialised(q *Path, r *LoopRec, l, base, at *Term, dom, rou, bdom, brou string, ent types.Type) bool {
	var call *Event
	for _, ev := range q.S.events[r.NEv:] {
		if ev.Kind == EvCall && strings.HasSuffix(ev.Name, ").Initialize") {
			if call != nil {
				return false
			}
			call = ev
		}
	}
	if call == nil {
		return false
	}
	b, i, f := partOf(call.Args[0])
	if b != base || !q.equal(i, at) || f != brou {
		return false
	}
	isDom := func(t *Term) bool {
		b, i, f := partOf(q.S.F.canon(t))
		return b == base && q.equal(i, at) && f == bdom
	}
	// behind what was collected
	if v := r.byCur(l); v != nil {
		nx := q.Next[v.Name]
		if nx == nil {
			return false
		}
		nx = q.S.F.canon(nx)
		if nx.op != OConcat || len(nx.args) != 2 || nx.args[0] != v.Cur || nx.args[1].op != OElems || len(nx.args[1].args) != 1 {
			return false
		}
		x := nx.args[1].args[0]
		return isDom(q.structField(x, ent, dom)) && q.structField(x, ent, rou) == call.Res[0]
	}
	// at the same place
	var gotD, gotR bool
	for _, ev := range q.S.events[r.NEv:] {
		if ev.Kind != EvStore {
			continue
		}
		a := ev.Addr
		if a.op == OIndexAddr && a.args[0] == l && q.equal(a.args[1], at) {
			gotD, gotR = isDom(q.structField(ev.Val, ent, dom)), q.structField(ev.Val, ent, rou) == call.Res[0]
		} else if a.op == OFieldAddr && a.args[0].op == OIndexAddr && a.args[0].args[0] == l && q.equal(a.args[0].args[1], at) {
			switch a.name {
			case dom:
				gotD = isDom(ev.Val)
			case rou:
				gotR = ev.Val == call.Res[0]
			}
		} else if a.op == OIndexAddr && a.args[0] == l || a.op == OFieldAddr && a.args[0].op == OIndexAddr && a.args[0].args[0] == l {
			return false
		}
	}
	return gotD && gotR
}

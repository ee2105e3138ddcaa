package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C30", "All paths of registering routes and groups and of turning them into the tables requests are looked up in.", 60, ruleC30)
	register("C31", "All paths of composing middlewares and of applying them to routes, catchers and error handlers.", 25, ruleC31)
}

type mapRange struct {
	m, more, key, val *Term
	ev                *Event
}

// ranges: the iterations over maps on a path, the innermost last.
func (p *Path) ranges() (out []mapRange) {
	for _, ev := range p.S.events {
		if ev.Kind == EvCall && ev.Name == "range-next" && len(ev.Res) == 3 {
			out = append(out, mapRange{ev.Args[0], ev.Res[0], ev.Res[1], ev.Res[2], ev})
		}
	}
	return
}

// mapGet: the map and key a value was looked up under.
func (p *Path) mapGet(t *Term) (m, k *Term, ok bool) {
	if t == nil {
		return
	}
	if t.op == OMapGet || t.op == OMapHas {
		return t.args[0], t.args[1], true
	}
	if d := p.S.defOf(t); d != nil && (d.op == "get" || d.op == "has") {
		return d.args[0], d.args[1], true
	}
	return
}

// holds: a map is what another map has under a key.
func (p *Path) holds(outer, key func(*Term) bool, inner *Term) bool {
	if m, k, ok := p.mapGet(inner); ok && outer(m) && key(k) {
		return true
	}
	for _, ev := range p.S.events {
		if ev.Kind == EvMapUpdate && outer(ev.Args[0]) && key(ev.Args[1]) && ev.Args[2] == inner {
			return true
		}
	}
	return false
}

// absence: what a path knows about a method being registered (1), not registered (-1) or nothing (0).
func (p *Path) absence(inner func(*Term) bool, key func(*Term) bool) int {
	out := 0
	for _, l := range p.S.F.lits {
		t, v := l.t, l.v
		if m, k, ok := p.mapGet(t); ok && inner(m) && key(k) && t.typ != nil && types.Identical(t.typ.Underlying(), types.Typ[types.Bool]) {
			if v {
				return 1
			}
			out = -1
		}
		if t.op == OMapHas && inner(t.args[0]) && key(t.args[1]) {
			if v {
				return 1
			}
			out = -1
		}
		if t.op == OEq {
			for i := range t.args {
				if m, k, ok := p.mapGet(t.args[i]); ok && t.args[1-i] == tNil && inner(m) && key(k) {
					if !v {
						return 1
					}
					out = -1
				}
			}
		}
	}
	return out
}

// there: something can be put into the map: it was made here, or is known not to be missing.
func (p *Path) there(outer, key func(*Term) bool, m *Term) bool {
	if m.op == OMakeMap || p.mustNot(mkEq(m, tNil)) {
		return true
	}
	for _, l := range p.S.F.lits {
		if g, k, ok := p.mapGet(l.t); ok && l.v && outer(g) && key(k) {
			return true
		}
		if l.t.op == OEq && !l.v {
			for i := range l.t.args {
				if g, k, ok := p.mapGet(l.t.args[i]); ok && l.t.args[1-i] == tNil && outer(g) && key(k) {
					return true
				}
			}
		}
	}
	return false
}

func is(want *Term) func(*Term) bool { return func(t *Term) bool { return t == want } }

func ruleC30(c *Ctx) {
	const pkg = "router/inbuilt"
	add, merge, apply := c.fn(pkg, "registrar.Add"), c.fn(pkg, "registrar.Merge"), c.fn(pkg, "registrar.Apply")
	asMap, asTree := c.fn(pkg, "registrar.AsMap"), c.fn(pkg, "registrar.AsRadixTree")
	route, group, newR, prep := c.fn(pkg, "Router.Route"), c.fn(pkg, "Router.Group"), c.fn(pkg, "New"), c.fn(pkg, "Router.prepare")
	ini, resource := c.fn(pkg, "Router.Initialize"), c.fn(pkg, "Router.Resource")
	norm, parse, static := c.fn(pkg+"/uri", "Normalize"), c.fn(pkg+"/internal/radix", "MustParse"), c.fn(pkg+"/internal/radix", "Template.IsStatic")
	insert, mString, comp := c.fn(pkg+"/internal/radix", "Node.MustInsert"), c.fn("http/method", "Method.String"), c.fn(pkg, "compose")
	for _, f := range []*ssa.Function{add, merge, apply, asMap, asTree, route, group, newR, prep, ini, resource, norm, parse, static, insert, mString, comp} {
		if f == nil {
			return
		}
	}
	reg := deref(add.Params[0].Type())
	routes := c.theField(reg, "routes", func(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok })
	dyn := c.theField(reg, "dynamic", func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Kind() == types.Bool
	})
	rt := deref(route.Params[0].Type())
	regF := c.theField(rt, "registrar", func(t types.Type) bool { return types.Identical(deref(t), reg) })
	prefix := c.theField(rt, "prefix", isString)
	kids := c.theField(rt, "children", func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && types.Identical(deref(s.Elem()), rt)
	})
	errs := c.theField(rt, "error handlers", func(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok })
	eng := func(opq ...*ssa.Function) *Engine {
		e := c.engine()
		e.Bounds = false // methods are known ones
		e.Opaque = opaqueSet(append([]*ssa.Function{norm, parse, static, mString, comp}, opq...)...)
		names := map[string]bool{}
		for _, f := range []*ssa.Function{norm, parse, static, mString, comp} {
			names[fnName(f)] = true
		}
		e.NoHavoc = func(n string) bool { return names[n] }
		e.LocalStores = true
		return e
	}
	run := func(e *Engine, fn *ssa.Function) (ps []*Path, args []*Term) {
		for _, p := range fn.Params {
			args = append(args, paramSym(p))
		}
		ps = c.run(e, nil, fn, args)
		c.show(ps)
		return
	}

	// adding a route
	{
		ps, a := run(eng(), add)
		self, path, m, h := a[0], a[1], a[2], a[3]
		nAdd, nDup := 0, 0
		for _, p := range returns(ps) {
			var n *Event
			for _, ev := range p.S.events {
				if ev.Kind == EvCall && ev.Fn == norm {
					n = ev
				}
			}
			if !c.ob(n != nil && n.Args[0] == path, "add:normalised", p.Pos, "routes aren't registered under their normalised path (path: %s)", p.describe(c)) {
				continue
			}
			outer, key := func(t *Term) bool { return fieldOf(t, self, routes) }, is(n.Res[0])
			inner := func(t *Term) bool { return p.holds(outer, key, t) }
			known := p.absence(inner, is(m))
			fresh := known == -1
			for _, l := range p.S.F.lits {
				if l.v && l.t.op == OEq {
					for i := range l.t.args {
						if g, k, ok := p.mapGet(l.t.args[i]); ok && l.t.args[1-i] == tNil && outer(g) && key(k) {
							fresh = true
						}
					}
				}
				if g, k, ok := p.mapGet(l.t); ok && !l.v && outer(g) && key(k) {
					fresh = true
				}
			}
			var sets []*Event
			for _, ev := range p.S.events {
				switch {
				case ev.Kind == EvMapUpdate && outer(ev.Args[0]):
					c.ob(key(ev.Args[1]) && inner(ev.Args[2]), "add:only-its-path", ev.Pos, "registering a route changes another one")
				case ev.Kind == EvMapUpdate:
					sets = append(sets, ev)
				case ev.Kind == EvStore && !localRoot(ev.Addr):
					c.ob(ev.Addr == addrOf(self, dyn), "add:nothing-else", ev.Pos, "registering a route changes something else")
				}
			}
			if p.mustNot(mkEq(p.Results[0], tNil)) {
				nDup++
				c.ob(known == 1, "add:refused-only-if-known", p.Pos, "a route is refused although it isn't registered (path: %s)", p.describe(c))
				c.ob(len(sets) == 0, "add:refused-unchanged", p.Pos, "a refused route is registered all the same")
				continue
			}
			nAdd++
			c.ob(p.must(mkEq(p.Results[0], tNil)), "add:result", p.Pos, "the result isn't known")
			c.ob(fresh, "add:never-replaced", p.Pos, "a route that is registered already may be replaced (path: %s)", p.describe(c))
			c.ob(len(sets) == 1 && inner(sets[0].Args[0]) && sets[0].Args[1] == m && sets[0].Args[2] == h, "add:registered", p.Pos, "the handler isn't registered for its method and path (path: %s)", p.describe(c))
			if len(sets) == 1 {
				c.ob(p.there(outer, key, sets[0].Args[0]), "add:into-something", sets[0].Pos, "the first route of a path is put into a map that isn't there (path: %s)", p.describe(c))
			}
			if len(sets) == 1 && sets[0].Args[0].op == OMakeMap {
				ok := false
				for _, l := range p.S.F.lits {
					for i := range l.t.args {
						if g, k, is := p.mapGet(l.t.args[i]); is && l.t.op == OEq && l.v && l.t.args[1-i] == tNil && outer(g) && key(k) {
							ok = true
						}
					}
					if g, k, is := p.mapGet(l.t); is && !l.v && outer(g) && key(k) {
						ok = true
					}
				}
				c.ob(ok, "add:others-kept", sets[0].Pos, "the other methods of a path are dropped")
			}
			// static or dynamic
			now := p.S.load(addrOf(self, dyn), types.Typ[types.Bool])
			was := fieldAt(p, self, dyn)
			if fieldOf(now, self, dyn) {
				was = now
			}
			ok := p.must(now) && p.must(was)
			for _, ev := range p.S.events {
				if ev.Kind == EvCall && ev.Fn == static {
					arg := false
					for _, x := range p.S.events {
						arg = arg || x.Kind == EvCall && x.Fn == parse && len(x.Res) > 0 && x.Res[0] == ev.Args[0] && key(x.Args[0])
					}
					st := ev.Res[0]
					ok = ok || arg && !p.feasible(not(st), not(now)) && !p.feasible(pos(was), not(now)) && !p.feasible(not(was), pos(st), pos(now))
				}
			}
			c.ob(ok, "add:dynamic", p.Pos, "whether there are templates among routes isn't kept track of (path: %s)", p.describe(c))
		}
		c.ob(nAdd > 0, "add:adds", add.Pos(), "no path registers a route")
		c.ob(nDup > 0, "add:refuses", add.Pos(), "a route may be registered twice")
	}

	// merging a group
	{
		e := eng()
		ps, a := run(e, merge)
		self, other := a[0], a[1]
		nDup, nSet := 0, 0
		iter := func(p *Path) (path, m, h *Term, ok bool) {
			rs := p.ranges()
			if len(rs) < 2 {
				return
			}
			o, i := rs[len(rs)-2], rs[len(rs)-1]
			if !fieldOf(o.m, other, routes) || i.m != o.val || !p.must(o.more) || !p.must(i.more) {
				return
			}
			return o.key, i.key, i.val, true
		}
		outer := func(t *Term) bool { return fieldOf(t, self, routes) }
		for _, p := range ps {
			switch p.Kind {
			case PReturn:
				rs := p.ranges()
				if p.must(mkEq(p.Results[0], tNil)) {
					c.ob(len(rs) >= 1 && fieldOf(rs[0].m, other, routes) && p.mustNot(rs[0].more), "merge:all-paths", p.Pos, "some of a group's paths are left out (path: %s)", p.describe(c))
					now := p.S.load(addrOf(self, dyn), types.Typ[types.Bool])
					c.ob(p.dynOr(self, other, dyn, now), "merge:dynamic", p.Pos, "templates of a group aren't accounted for (path: %s)", p.describe(c))
					continue
				}
				nDup++
				path, m, _, ok := iter(p)
				c.ob(ok && p.absence(func(t *Term) bool { return p.holds(outer, is(path), t) }, is(m)) == 1, "merge:refused-only-if-known", p.Pos, "a group is refused although its route isn't registered (path: %s)", p.describe(c))
			case PBackEdge:
				rs := p.ranges()
				if len(rs) >= 2 && p.mustNot(rs[len(rs)-1].more) {
					continue // the inner loop is over
				}
				nSet++
				path, m, h, ok := iter(p)
				if !c.ob(ok, "merge:iterates", p.Pos, "not all of a group's routes are gone through (path: %s)", p.describe(c)) {
					continue
				}
				c.ob(p.Loop.NEv > rs[len(rs)-2].ev.idx, "merge:all-methods", p.Pos, "some of a path's methods are left out (path: %s)", p.describe(c))
				inner := func(t *Term) bool { return p.holds(outer, is(path), t) }
				n := 0
				for _, ev := range p.S.events {
					if ev.Kind != EvMapUpdate {
						continue
					}
					if outer(ev.Args[0]) {
						c.ob(ev.Args[1] == path && inner(ev.Args[2]), "merge:only-its-path", ev.Pos, "merging a route changes another one")
						if ev.Args[2].op == OMakeMap {
							c.ob(p.wasNil(outer, is(path)), "merge:others-kept", ev.Pos, "the other methods of a path are dropped (path: %s)", p.describe(c))
						}
						continue
					}
					n++
					c.ob(p.there(outer, is(path), ev.Args[0]), "merge:into-something", ev.Pos, "a group's route is put into a map that isn't there (path: %s)", p.describe(c))
					c.ob(inner(ev.Args[0]) && ev.Args[1] == m && ev.Args[2] == h, "merge:registered", ev.Pos, "a group's handler isn't registered for its method and path (path: %s)", p.describe(c))
				}
				c.ob(n == 1, "merge:each", p.Pos, "a group's route is left out (path: %s)", p.describe(c))
				ab := p.absence(inner, is(m))
				c.ob(ab == -1 || p.wasNil(outer, is(path)), "merge:never-replaced", p.Pos, "a route that is registered already may be replaced (path: %s)", p.describe(c))
			}
		}
		c.ob(nDup > 0, "merge:refuses", merge.Pos(), "a group may register a route once more")
		c.ob(nSet > 0, "merge:merges", merge.Pos(), "a group's routes aren't merged")
	}

	// the tables requests are looked up in
	for _, fn := range []*ssa.Function{asMap, asTree} {
		e := eng(insert)
		e.NoHavoc = func(n string) bool { return true }
		allow := c.fn(pkg, "getAllowString")
		if fn == asMap && allow != nil {
			e.Opaque = opaqueSet(norm, parse, static, mString, comp, insert, allow)
		}
		ps, a := run(e, fn)
		c.tables(ps, fn, a[0], routes, parse, insert, mString, allow)
	}
	c.allowString(pkg, mString)

	// registering on a router
	{
		ps, a := run(eng(add), route)
		self := a[0]
		for _, p := range ps {
			var call, cm *Event
			n := 0
			for _, ev := range p.S.events {
				if ev.Kind == EvCall && ev.Fn == add {
					call = ev
					n++
				}
				if ev.Kind == EvCall && ev.Fn == comp {
					cm = ev
				}
			}
			if !c.ob(n == 1, "route:once", p.Pos, "a route is registered %d times (path: %s)", n, p.describe(c)) {
				continue
			}
			full := call.Args[1]
			prefixed := full.op == OConcat && len(full.args) == 2 && fieldOf(full.args[0], self, prefix) && full.args[1] == a[2]
			c.ob(fieldOf(call.Args[0], self, regF) && prefixed && call.Args[2] == a[1], "route:prefix", call.Pos, "a route isn't registered under the group's prefix and its method (path: %s)", p.describe(c))
			c.ob(cm != nil && cm.Args[0] == a[3] && cm.Args[1] == a[4] && call.Args[3] == cm.Res[0], "route:handler", call.Pos, "the handler registered isn't the given one with its middlewares")
			refused := not(mkEq(call.Res[0], tNil))
			if p.Kind == PReturn {
				c.ob(!p.feasible(refused), "route:refused", p.Pos, "a refused route isn't reported")
				c.ob(p.Results[0] == self, "route:chain", p.Pos, "the router isn't returned")
			} else {
				c.ob(p.must(mkNot(mkEq(call.Res[0], tNil))), "route:panics", p.Pos, "registering a route may panic although it isn't refused")
			}
		}
	}
	c.shortcuts(pkg, route, resource)

	// groups
	{
		ps, a := run(eng(), group)
		for _, p := range returns(ps) {
			g, self := p.Results[0], a[0]
			f := func(n string) *Term { return loadField(p.S, g, n) }
			c.ob(p.equal(f(prefix), mkConcat(fieldAt(p, self, prefix), a[1])), "group:prefix", p.Pos, "a group's prefix isn't its parent's followed by its own")
			r := f(regF)
			c.ob(isFreshObj(r) && c.emptyReg(p, r, routes, dyn), "group:registrar", p.Pos, "a group doesn't start with no routes of its own")
			c.ob(fieldOf(f(errs), self, errs), "group:errors", p.Pos, "a group doesn't share its router's error handlers")
			n := 0
			for _, ev := range p.S.events {
				if ev.Kind == EvStore && ev.Addr == addrOf(self, kids) {
					n++
					v := ev.Val
					ok := v.op == OConcat && len(v.args) == 2 && fieldOf(v.args[0], self, kids) && v.args[1].op == OElems && len(v.args[1].args) == 1 && v.args[1].args[0] == g
					c.ob(ok, "group:kept", ev.Pos, "the group isn't added to the router's")
				} else if ev.Kind == EvStore && !localRoot(ev.Addr) {
					c.ob(false, "group:nothing-else", ev.Pos, "creating a group changes something else")
				}
			}
			c.ob(n == 1, "group:added", p.Pos, "the group isn't added to the router's")
		}
		ps, _ = run(eng(), newR)
		for _, p := range returns(ps) {
			r := loadField(p.S, p.Results[0], regF)
			c.ob(isFreshObj(r) && c.emptyReg(p, r, routes, dyn), "new:registrar", p.Pos, "a router doesn't start with no routes")
			pr := loadField(p.S, p.Results[0], prefix)
			c.ob(p.must(mkIntEq(mkLen(pr), tZeroInt)), "new:prefix", p.Pos, "a router starts with a prefix")
		}
		ps, a = run(eng(group), resource)
		for _, p := range returns(ps) {
			n := 0
			for _, ev := range p.S.events {
				if ev.Kind == EvCall && ev.Fn == group {
					n++
					c.ob(ev.Args[0] == a[0] && ev.Args[1] == a[1], "resource:group", ev.Pos, "a resource isn't a group of its path")
					ok := p.Results[0].op == OAgg && len(p.Results[0].args) == 1 && p.Results[0].args[0] == ev.Res[0]
					c.ob(ok, "resource:wraps", ev.Pos, "a resource doesn't wrap its group")
				}
			}
			c.ob(n == 1, "resource:one", p.Pos, "a resource isn't one group")
		}
	}

	// error handlers
	if fn := c.fn(pkg, "Router.RouteError"); fn != nil {
		ps, a := run(eng(), fn)
		n, none := 0, 0
		for _, p := range ps {
			def := p.must(mkIntEq(mkLen(a[2]), tZeroInt))
			var ups []*Event
			for _, ev := range p.S.events {
				if ev.Kind == EvMapUpdate {
					ups = append(ups, ev)
				}
			}
			if p.Kind == PReturn {
				c.ob(p.Results[0] == a[0], "errors:chain", p.Pos, "the router isn't returned")
				over := false
				for _, r := range p.S.loopSeq {
					for _, at := range r.positions() {
						for _, l := range p.termsOf(func(t *Term) bool { return t.op == OLen && (t.args[0] == a[2]) }) {
							over = over || p.must(mkGe(at, l))
						}
					}
				}
				if def && len(ups) == 1 {
					none++
					z, isZ := ups[0].Args[1].isInt()
					c.ob(isZ && z == 0 && fieldOf(ups[0].Args[0], a[0], errs) && ups[0].Args[2] == a[1], "errors:universal", p.Pos, "the universal error handler isn't registered (path: %s)", p.describe(c))
					continue
				}
				c.ob(over && len(ups) == 0, "errors:all-codes", p.Pos, "some codes are left out (path: %s)", p.describe(c))
				continue
			}
			if !c.ob(p.Kind == PBackEdge && len(ups) == 1, "errors:each", p.Pos, "a code is left out (path: %s)", p.describe(c)) {
				continue
			}
			ev := ups[0]
			ok := fieldOf(ev.Args[0], a[0], errs) && ev.Args[2] == a[1]
			el := ev.Args[1]
			b, i, _ := partOf(el)
			if def {
				none++
				z, isZ := el.isInt()
				ok = ok && (isZ && z == 0 || b != nil && b.op == OConcat && len(b.args) == 2 && b.args[0] == a[2] && zeroCode(b.args[1]))
			} else {
				n++
				good := false
				for _, r := range p.S.loopSeq {
					for _, at := range r.positions() {
						good = good || b == a[2] && p.equal(i, at)
					}
				}
				ok = ok && good
			}
			c.ob(ok, "errors:registered", ev.Pos, "an error handler isn't registered for its codes: %s (path: %s)", el, p.describe(c))
		}
		c.ob(n > 0 && none > 0, "errors:analysed", fn.Pos(), "error handlers aren't registered")
	}

	// groups of groups
	{
		e := eng(prep, merge, apply)
		ps, a := run(e, prep)
		self := a[0]
		n := 0
		for _, p := range ps {
			if p.Kind != PReturn {
				continue
			}
			var rec *LoopRec
			for _, r := range p.S.loopSeq {
				for _, q := range r.Backs {
					for _, ev := range q.S.events[r.NEv:] {
						if ev.Kind == EvCall && ev.Fn == prep {
							rec = r
						}
					}
				}
			}
			if !c.ob(rec != nil, "prepare:children", p.Pos, "the groups of a router aren't prepared") {
				continue
			}
			isNil := p.must(mkEq(p.Results[0], tNil))
			if !isNil {
				ok := false
				for _, ev := range p.S.events[rec.NEv:] {
					ok = ok || ev.Kind == EvCall && (ev.Fn == prep || ev.Fn == merge) && ev.Res[0] == p.Results[0]
				}
				c.ob(ok, "prepare:error", p.Pos, "an error of something else is returned")
				continue
			}
			n++
			good := false
			for _, at := range rec.positions() {
				all, left := true, false
				for _, l := range p.lens(self, kids) {
					left = left || p.must(mkGe(at, l))
				}
				for _, q := range rec.Backs {
					all = all && c.preparesChild(q, rec, self, at, kids, regF, prep, merge)
				}
				good = good || all && left
			}
			c.ob(good, "prepare:all-children", p.Pos, "not every group is prepared and merged into its router (path: %s)", p.describe(c))
		}
		c.ob(n > 0, "prepare:succeeds", prep.Pos(), "preparing a router never succeeds")
	}

	// initialising
	{
		e := eng(prep, merge, apply, asMap, asTree)
		quiet := e.NoHavoc
		e.NoHavoc = func(n string) bool { return quiet(n) || strings.HasPrefix(n, "sort.") }
		ps, a := run(e, ini)
		self := a[0]
		on := c.made(ini, "OnRequest")
		if on == nil {
			return
		}
		run := deref(on.Params[0].Type())
		isTree := func(t types.Type) bool {
			return types.Identical(t, asTree.Signature.Results().At(0).Type())
		}
		rm := c.theField(run, "routes", func(t types.Type) bool {
			return types.Identical(t, asMap.Signature.Results().At(0).Type())
		})
		tr := c.theField(run, "tree", isTree)
		st := c.theField(run, "static", func(t types.Type) bool {
			b, ok := t.Underlying().(*types.Basic)
			return ok && b.Kind() == types.Bool
		})
		mut := c.theField(run, "mutators", func(t types.Type) bool {
			s, ok := t.Underlying().(*types.Slice)
			if !ok {
				return false
			}
			_, ok = s.Elem().Underlying().(*types.Signature)
			return ok
		})
		cat := c.theField(run, "catchers", func(t types.Type) bool {
			s, ok := t.Underlying().(*types.Slice)
			return ok && structOf(s.Elem()) != nil
		})
		errs := c.theField(run, "error handlers", func(t types.Type) bool {
			m, ok := t.Underlying().(*types.Map)
			return ok && !isString(m.Key())
		})
		seen := map[bool]int{}
		for _, p := range ps {
			var pe, me, te *Event
			for _, ev := range p.S.events {
				if ev.Kind == EvCall {
					switch ev.Fn {
					case prep:
						c.ob(pe == nil && ev.Args[0] == self, "init:prepare", ev.Pos, "the router isn't prepared once")
						pe = ev
					case asMap:
						me = ev
					case asTree:
						te = ev
					}
				}
			}
			if p.Kind == PBackEdge {
				continue
			}
			if !c.ob(pe != nil, "init:prepared", p.Pos, "the router isn't prepared (path: %s)", p.describe(c)) {
				continue
			}
			bad := not(mkEq(pe.Res[0], tNil))
			if p.Kind != PReturn {
				c.ob(!p.feasible(pos(mkEq(pe.Res[0], tNil))), "init:panics", p.Pos, "initialising panics although nothing is wrong")
				continue
			}
			c.ob(!p.feasible(bad), "init:refused", p.Pos, "a router whose routes collide is served")
			obj := unwrapIface(p.Results[0])
			f := func(n string) *Term { return loadField(p.S, obj, n) }
			isStatic := p.must(f(st))
			c.ob(isStatic || p.mustNot(f(st)), "init:kind", p.Pos, "whether routes are static isn't known (path: %s)", p.describe(c))
			seen[isStatic]++
			ok := false
			for _, t := range p.termsOf(func(t *Term) bool {
				return t.op == OLoad && t.args[0].op == OFieldAddr && t.args[0].name == dyn
			}) {
				if fieldOf(t.args[0].args[0], self, regF) && t.n > 0 {
					ok = ok || isStatic && p.mustNot(t) || !isStatic && p.must(t)
				}
			}
			c.ob(ok, "init:static-unless-templates", p.Pos, "templates are looked up literally, or literal paths aren't (path: %s)", p.describe(c))
			if isStatic {
				c.ob(me != nil && f(rm) == me.Res[0] && fieldOf(me.Args[0], self, regF) && me.idx > pe.idx, "init:map", p.Pos, "the static table isn't made of all the routes")
			} else {
				c.ob(te != nil && f(tr) == te.Res[0] && fieldOf(te.Args[0], self, regF) && te.idx > pe.idx, "init:tree", p.Pos, "the tree isn't made of all the routes")
			}
			var so *Event
			for _, ev := range p.S.events {
				if ev.Kind == EvCall && (ev.Name == "sort.Slice" || ev.Name == "sort.SliceStable") && fieldOf(unwrapIface(ev.Args[0]), self, cat) {
					so = ev
				}
			}
			c.ob(so != nil && so.idx > pe.idx && c.longestFirst(e, p, so, self, cat), "init:longest-first", p.Pos, "catchers aren't asked in the order of their prefixes' lengths, the longest first (path: %s)", p.describe(c))
			x := f(mut)
			c.ob(x.op == OLoad && x.n > 0 && deref(x.args[0].args[0].typ) != nil && x.args[0].args[0] == self, "init:mutators", p.Pos, "the mutators aren't those registered")
			x = f(errs)
			c.ob(x.op == OLoad && x.args[0].op == OFieldAddr && x.args[0].args[0] == self, "init:error-handlers", p.Pos, "the error handlers aren't those registered")
			x = f(cat)
			c.ob(x.op == OLoad && x.n > 0 && x.args[0].args[0] == self, "init:catchers", p.Pos, "the catchers aren't those registered")
		}
		c.ob(seen[true] > 0 && seen[false] > 0, "init:both", ini.Pos(), "only one kind of routes is served")
	}
}

func zeroCode(t *Term) bool {
	if s, ok := t.isStr(); ok {
		return s == "\x00"
	}
	if t.op == OElems && len(t.args) == 1 {
		n, ok := t.args[0].isInt()
		return ok && n == 0
	}
	return false
}

// longestFirst: the order catchers are sorted in puts longer prefixes first.
func (c *Ctx) longestFirst(e *Engine, p *Path, so *Event, self *Term, cats string) bool {
	f := so.Args[1]
	if f.op != OClosure {
		return false
	}
	i, j := mkSym("i", types.Typ[types.Int]), mkSym("j", types.Typ[types.Int])
	s := p.S.clone()
	s.events = nil
	ps := e.RunClosure(s, f.obj.(*ssa.Function), []*Term{i, j}, f.args)
	c.paths += len(ps)
	for _, q := range ps {
		if q.Kind != PReturn {
			return false
		}
		var li, lj *Term
		lens := q.termsOf(func(t *Term) bool { return t.op == OLen })
		walkTerm(q.Results[0], func(t *Term) {
			if t.op == OLen {
				lens = append(lens, t)
			}
		})
		for _, t := range lens {
			b, k, _ := partOf(t.args[0])
			if b != nil && fieldOf(b, self, cats) && k == i {
				li = t
			}
			if b != nil && fieldOf(b, self, cats) && k == j {
				lj = t
			}
		}
		r := q.Results[0]
		if li == nil || lj == nil || q.feasible(pos(mkLt(lj, li)), not(r)) || q.feasible(pos(r), not(mkLt(lj, li))) {
			return false
		}
	}
	return len(ps) > 0
}

// fieldAt: a field's value before it was written on the path.
func fieldAt(p *Path, obj *Term, name string) *Term {
	for _, t := range p.termsOf(func(t *Term) bool { return t.op == OLoad && fieldOf(t, obj, name) }) {
		return t
	}
	return loadField(newState(), obj, name)
}

// wasNil: on the path, a map has had nothing under a key.
func (p *Path) wasNil(outer, key func(*Term) bool) bool {
	for _, l := range p.S.F.lits {
		if g, k, ok := p.mapGet(l.t); ok && !l.v && outer(g) && key(k) {
			return true
		}
		if l.t.op == OEq && l.v {
			for i := range l.t.args {
				if g, k, ok := p.mapGet(l.t.args[i]); ok && l.t.args[1-i] == tNil && outer(g) && key(k) {
					return true
				}
			}
		}
	}
	return false
}

// dynOr: a flag has become true exactly if it was, or the other's is.
func (p *Path) dynOr(self, other *Term, name string, now *Term) bool {
	var a, b *Term
	for _, l := range p.S.F.lits {
		if fieldOf(l.t, self, name) {
			a = l.t
		}
		if fieldOf(l.t, other, name) {
			b = l.t
		}
	}
	if b == nil && fieldOf(now, other, name) {
		b = now
	}
	if a != nil && p.must(a) {
		return p.must(now)
	}
	if b != nil && p.must(b) {
		return p.must(now)
	}
	if a != nil && p.mustNot(a) && b != nil {
		return !p.feasible(pos(b), not(now)) && !p.feasible(not(b), pos(now))
	}
	if b != nil && p.mustNot(b) && a == nil {
		return fieldOf(now, self, name)
	}
	return false
}

func (c *Ctx) emptyReg(p *Path, r *Term, routes, dyn string) bool {
	return loadField(p.S, r, routes).op == OMakeMap && p.mustNot(loadField(p.S, r, dyn))
}

// preparesChild: an iteration prepares a group, merges it and takes over its mutators and catchers.
func (c *Ctx) preparesChild(q *Path, rec *LoopRec, self, at *Term, kids, regF string, prep, merge *ssa.Function) bool {
	var pe, me *Event
	child := func(t *Term) bool {
		b, i, _ := partOf(t)
		return b != nil && fieldOf(b, self, kids) && q.equal(i, at)
	}
	taken := map[string]int{}
	for _, ev := range q.S.events[rec.NEv:] {
		switch {
		case ev.Kind == EvCall && ev.Fn == prep:
			if pe != nil || !child(ev.Args[0]) {
				return false
			}
			pe = ev
		case ev.Kind == EvCall && ev.Fn == merge:
			if pe == nil || me != nil || !fieldOf(ev.Args[0], self, regF) || ev.Args[1].op != OLoad || !fieldOf(ev.Args[1], pe.Args[0], regF) {
				return false
			}
			me = ev
		case ev.Kind == EvCall && ev.Fn != nil:
			return false
		case ev.Kind == EvStore && !localRoot(ev.Addr):
			v, n := ev.Val, ev.Addr.name
			if pe == nil || ev.Addr != addrOf(self, n) || v.op != OConcat || len(v.args) != 2 || !fieldOf(v.args[0], self, n) || !fieldOf(v.args[1], pe.Args[0], n) || v.args[1].n == 0 {
				return false
			}
			taken[n]++
		}
	}
	if pe == nil || me == nil || len(taken) != 2 {
		return false
	}
	for _, n := range taken {
		if n != 1 {
			return false
		}
	}
	return q.must(mkEq(pe.Res[0], tNil)) && q.must(mkEq(me.Res[0], tNil))
}

// tables: every registered route, and nothing else, ends up in the table that is looked up.
func (c *Ctx) tables(ps []*Path, fn *ssa.Function, self *Term, routes string, parse, insert, mString, allow *ssa.Function) {
	n, nIn := 0, 0
	for _, p := range ps {
		rs := p.ranges()
		switch {
		case p.Kind == PReturn:
			c.ob(len(rs) >= 1 && fieldOf(rs[0].m, self, routes) && p.mustNot(rs[0].more), "table:all-paths:"+fn.Name(), p.Pos, "some paths are left out of the table (path: %s)", p.describe(c))
			c.ob(p.Results[0].op == OMakeMap || isFreshObj(p.Results[0]), "table:fresh:"+fn.Name(), p.Pos, "the table isn't a new one")
			continue
		case p.Kind == PPanic:
			c.ob(false, "table:panic:"+fn.Name(), p.Pos, "making the table may panic (path: %s)", p.describe(c))
			continue
		case p.Kind != PBackEdge:
			continue
		}
		if !c.ob(len(rs) >= 2 && fieldOf(rs[len(rs)-2].m, self, routes) && rs[len(rs)-1].m == rs[len(rs)-2].val, "table:iterates:"+fn.Name(), p.Pos, "not all routes are gone through (path: %s)", p.describe(c)) {
			continue
		}
		o, i := rs[len(rs)-2], rs[len(rs)-1]
		var sets []*Event // elements of arrays set
		var ups, ins []*Event
		for _, ev := range p.S.events {
			if ev.Kind == EvStore && ev.Addr.op == OIndexAddr && isArrayAddr(ev.Addr.args[0]) && ev.idx > i.ev.idx {
				sets = append(sets, ev)
			}
			if ev.Kind == EvMapUpdate {
				ups = append(ups, ev)
			}
			if ev.Kind == EvCall && ev.Fn == insert {
				ins = append(ins, ev)
			}
		}
		if p.must(i.more) {
			n++
			c.ob(p.Loop.NEv > o.ev.idx, "table:all-methods:"+fn.Name(), p.Pos, "some of a path's methods are left out (path: %s)", p.describe(c))
			c.ob(len(sets) == 1 && sets[0].Addr.args[1] == i.key && sets[0].Val == i.val, "table:handler:"+fn.Name(), p.Pos, "a handler isn't put down for its method (path: %s)", p.describe(c))
			if insertsMap := len(ups) > 0; insertsMap {
				nIn++
				u := ups[0]
				ok := len(ups) == 1 && u.Args[0].op == OMakeMap && u.Args[1] == o.key && u.Args[2].op == OAgg
				if ok {
					// the path's methods so far, with this one added
					v := u.Args[2]
					found, listed := false, false
					for k, x := range v.args {
						if d := p.S.defOf(x); d != nil && d.op == "set" && d.args[1] == i.key && d.args[2] == i.val {
							old := d.args[0]
							if old.op == OFieldVal && int(old.n) == k {
								if g, key, is := p.mapGet(old.args[0]); is && g == u.Args[0] && key == o.key {
									found = true
								}
							}
							for _, ev := range p.S.events {
								if ev.Kind == EvCall && ev.Fn == allow && ev.Args[0] == x {
									okA := false
									for _, y := range v.args {
										okA = okA || y == ev.Res[0]
									}
									listed = listed || okA
								}
							}
						}
					}
					ok = found
					c.ob(allow == nil || listed, "table:allow:"+fn.Name(), p.Pos, "the methods allowed aren't kept with the path")
				}
				c.ob(ok, "table:entry:"+fn.Name(), p.Pos, "a path's entry isn't what it was with one handler added (path: %s)", p.describe(c))
			}
			continue
		}
		c.ob(len(ups) == 0, "table:no-more:"+fn.Name(), p.Pos, "something else is put into the table")
		if len(ins) > 0 {
			nIn++
			x := ins[0]
			ok := len(ins) == 1 && isFreshObj(x.Args[0])
			arg := false
			for _, ev := range p.S.events {
				arg = arg || ev.Kind == EvCall && ev.Fn == parse && ev.Args[0] == o.key && ev.Res[0] == x.Args[1]
			}
			c.ob(ok && arg, "table:template:"+fn.Name(), x.Pos, "a path isn't inserted as the template it was registered as (path: %s)", p.describe(c))
			pay := x.Args[2]
			okP := pay.op == OAgg && len(pay.args) == 2
			var arr, al *Term
			if okP {
				for _, y := range pay.args {
					if y.op == OElems {
						arr = y
					} else {
						al = y
					}
				}
			}
			if c.ob(okP && arr != nil && al != nil, "table:payload:"+fn.Name(), x.Pos, "what is inserted isn't a path's methods (path: %s)", p.describe(c)) {
				c.payload(p, fn, arr, al, i, mString)
			}
		}
	}
	c.ob(n > 0 && nIn > 0, "table:made:"+fn.Name(), fn.Pos(), "the table isn't made of the routes")
}

// payload: the methods of a template are collected by the loop over them, from nothing.
func (c *Ctx) payload(p *Path, fn *ssa.Function, arr, al *Term, i mapRange, mString *ssa.Function) {
	a := arr.args[0]
	if !c.ob(a.op == OLoad && a.args[0].op == OIndexAddr, "table:collected:"+fn.Name(), p.Pos, "the methods of a path aren't collected: %s", arr) {
		return
	}
	base := a.args[0].args[0]
	var rec *LoopRec
	for _, r := range p.S.loopSeq {
		if r.NEv <= i.ev.idx {
			rec = r
		}
	}
	if !c.ob(rec != nil, "table:collected:"+fn.Name(), p.Pos, "the methods of a path aren't collected by a loop") {
		return
	}
	at := deref(base.typ).Underlying().(*types.Array)
	same, zero := true, true
	ent := rec.Entry.clone()
	for k, x := range arr.args {
		addr := mkIndexAddr(base, mkInt(int64(k)), at.Elem())
		same = same && x.op == OLoad && x.args[0] == addr
		zero = zero && ent.load(addr, at.Elem()) == tNil
	}
	c.ob(same, "table:whole:"+fn.Name(), p.Pos, "some of a path's methods are left out")
	c.ob(zero, "table:from-nothing:"+fn.Name(), p.Pos, "the methods of one path are kept for another: %s", ent.load(mkIndexAddr(base, tZeroInt, at.Elem()), at.Elem()))
	for _, q := range rec.Backs {
		for _, ev := range q.S.events[rec.NEv:] {
			if ev.Kind == EvStore && ev.Addr.op == OIndexAddr {
				c.ob(ev.Addr.args[0] == base, "table:same:"+fn.Name(), ev.Pos, "handlers are put down elsewhere")
			}
		}
	}
	// the list of methods: each with a comma behind, the last comma removed
	x := al
	if x.op == OSlice {
		x = x.args[0]
	}
	v := rec.byCur(x)
	ok := v != nil && v.Entry != nil && p.must(mkIntEq(mkLen(v.Entry), tZeroInt))
	comma := mkStr(",")
	if ok {
		for _, q := range rec.Backs {
			r := q.ranges()
			var name *Term
			for _, ev := range q.S.events[rec.NEv:] {
				if ev.Kind == EvCall && ev.Fn == mString && ev.Args[0] == r[len(r)-1].key {
					name = ev.Res[0]
				}
			}
			ok = ok && name != nil && q.equal(q.Next[v.Name], mkConcat(v.Cur, name, comma))
		}
		ok = ok && (al.op != OSlice || p.must(mkIntEq(mkLen(al), mkAddC(mkLen(x), -1))))
		if al.op != OSlice {
			ok = ok && !p.feasible(pos(mkSuffix(x, comma)))
		} else {
			ok = ok && p.must(mkSuffix(x, comma))
		}
	}
	c.ob(ok, "table:allowed:"+fn.Name(), p.Pos, "the methods allowed aren't listed with commas in between: %s", al)
}

// allowString: the methods that have a handler are listed with commas in between.
func (c *Ctx) allowString(pkg string, mString *ssa.Function) {
	fn := c.fn(pkg, "getAllowString")
	if fn == nil {
		return
	}
	e := c.engine()
	e.Bounds = false // methods are known ones
	ps := c.run(e, nil, fn, []*Term{paramSym(fn.Params[0])})
	c.noPanic(ps, fn)
	arr := paramSym(fn.Params[0])
	at := arr.typ.Underlying().(*types.Array)
	n := 0
	for _, p := range returns(ps) {
		n++
		var want []string
		ok := true
		for i := int64(0); i < at.Len(); i++ {
			el := mkElem(arr, mkInt(i), at.Elem())
			switch {
			case p.must(mkEq(el, tNil)):
			case p.mustNot(mkEq(el, tNil)):
				if s, is := c.methodName(mString, i); is {
					want = append(want, s)
				} else {
					ok = false
				}
			default:
				ok = false
			}
		}
		c.ob(ok && p.equal(p.Results[0], mkStr(strings.Join(want, ","))), "allow:listed", p.Pos, "the methods allowed are given as %s where %q is due", p.Results[0], strings.Join(want, ","))
	}
	c.ob(n > 1, "allow:analysed", fn.Pos(), "the list of methods allowed isn't analysed")
}

func (c *Ctx) methodName(mString *ssa.Function, i int64) (string, bool) {
	e := c.engine()
	ps := returns(c.run(e, nil, mString, []*Term{mkInt(i)}))
	if len(ps) != 1 {
		return "", false
	}
	return ps[0].Results[0].isStr()
}

// shortcuts: the methods named after request methods register for those.
func (c *Ctx) shortcuts(pkg string, route, resource *ssa.Function) {
	res := resource.Signature.Results().At(0).Type()
	st := structOf(res)
	if !c.ob(st != nil && st.NumFields() == 1, "anchor:Resource", resource.Pos(), "a resource isn't one group") {
		return
	}
	n := 0
	for _, typ := range []types.Type{route.Signature.Recv().Type(), res} {
		ms := c.P.prog.MethodSets.MethodSet(typ)
		for i := 0; i < ms.Len(); i++ {
			fn := c.P.prog.MethodValue(ms.At(i))
			name := fn.Name()
			var want *Term
			known := false
			for _, m := range methodNames {
				if strings.EqualFold(m, name) {
					want, known = c.constOf("http/method", m)
				}
			}
			isRoute := fn.Name() == "Route" && fn != route
			if !known && !isRoute && typ == res && len(fn.Blocks) > 0 {
				c.forwards(fn, route.Signature.Recv().Type(), st)
			}
			if !known && !isRoute || len(fn.Blocks) == 0 {
				continue
			}
			n++
			e := c.engine()
			e.Opaque = opaqueSet(route)
			e.NoHavoc = func(string) bool { return true }
			var args []*Term
			for _, p := range fn.Params {
				args = append(args, paramSym(p))
			}
			onRouter := typ == route.Signature.Recv().Type()
			for _, p := range c.run(e, nil, fn, args) {
				var calls []*Event
				for _, ev := range p.S.events {
					if ev.Kind == EvCall && ev.Fn == route {
						calls = append(calls, ev)
					}
				}
				if !c.ob(p.Kind == PReturn && len(calls) == 1, "shortcut:"+name, p.Pos, "%s doesn't register one route", fn) {
					continue
				}
				a := calls[0].Args
				rest := args[1:]
				ok := p.Results[0] == args[0]
				if isRoute {
					want, rest = args[1], args[2:]
				}
				if onRouter {
					ok = ok && a[0] == args[0] && a[2] == args[1]
					rest = args[2:]
				} else {
					ok = ok && (a[0] == mkFieldVal(args[0], 0, st.Field(0).Type())) && p.must(mkIntEq(mkLen(a[2]), tZeroInt))
				}
				ok = ok && p.equal(a[1], want) && len(rest) == 2 && a[3] == rest[0] && a[4] == rest[1]
				c.ob(ok, "shortcut:"+name, calls[0].Pos, "%s doesn't register the handler for its method and path", fn)
			}
		}
	}
	c.ob(n >= 19, "shortcut:all", route.Pos(), "only %d shortcuts are known", n)
}

// varargs: the strings handed to a variadic call.
// forwards: what is asked of a resource is asked of its group.
func (c *Ctx) forwards(fn *ssa.Function, group types.Type, st *types.Struct) {
	sel := c.P.prog.MethodSets.MethodSet(group).Lookup(fn.Pkg.Pkg, fn.Name())
	if sel == nil {
		return
	}
	to := c.P.prog.MethodValue(sel)
	if to.Signature.Params().Len() < fn.Signature.Params().Len() {
		return
	}
	e := c.engine()
	e.Opaque = opaqueSet(to)
	e.NoHavoc = func(string) bool { return true }
	var args []*Term
	for _, p := range fn.Params {
		args = append(args, paramSym(p))
	}
	for _, p := range c.run(e, nil, fn, args) {
		n := 0
		for _, ev := range p.S.events {
			if ev.Kind != EvCall || ev.Fn != to {
				continue
			}
			n++
			ok := ev.Args[0] == mkFieldVal(args[0], 0, st.Field(0).Type())
			for i := range args[1:] {
				ok = ok && ev.Args[i+1] == args[i+1]
			}
			for _, x := range ev.Args[len(args):] {
				ok = ok && (x == tNil || x.op == OConst && x.val == nil || isSliceT(x.typ) && p.must(mkIntEq(mkLen(x), tZeroInt)))
			}
			c.ob(ok, "resource:"+fn.Name(), ev.Pos, "%s doesn't pass on what it is given", fn)
		}
		c.ob(n == 1 && p.Kind == PReturn && p.Results[0] == args[0], "resource:"+fn.Name()+":once", p.Pos, "%s asks its group %d times", fn, n)
	}
}

func (p *Path) varargs(t *Term, n int) (out []*Term) {
	if t.op == OElems {
		return t.args
	}
	base := t
	if t.op == OSlice {
		base = t.args[0]
	}
	for i := 0; i < n; i++ {
		out = append(out, p.S.load(mkIndexAddr(base, mkInt(int64(i)), types.Typ[types.String]), types.Typ[types.String]))
	}
	return
}

// composed: a function, given a handler, yields it wrapped into the middlewares of an object.
func (c *Ctx) composed(e *Engine, p *Path, f *Term, comp *ssa.Function, self *Term, mws string) bool {
	if f.op != OClosure {
		return false
	}
	h := mkSym("handler", comp.Params[0].Type())
	s := p.S.clone()
	s.events = nil
	ps := e.RunClosure(s, f.obj.(*ssa.Function), []*Term{h}, f.args)
	c.paths += len(ps)
	for _, q := range ps {
		n := 0
		for _, ev := range q.S.events {
			if ev.Kind == EvCall && ev.Fn == comp {
				n++
				if ev.Args[0] != h || !fieldOf(ev.Args[1], self, mws) || q.Results[0] != ev.Res[0] {
					return false
				}
			}
		}
		if q.Kind != PReturn || n != 1 {
			return false
		}
	}
	return len(ps) > 0
}

func ruleC31(c *Ctx) {
	const pkg = "router/inbuilt"
	comp, use, prep, apply := c.fn(pkg, "compose"), c.fn(pkg, "Router.Use"), c.fn(pkg, "Router.prepare"), c.fn(pkg, "registrar.Apply")
	ini, catch, merge, asMap, asTree := c.fn(pkg, "Router.Initialize"), c.fn(pkg, "Router.Catch"), c.fn(pkg, "registrar.Merge"), c.fn(pkg, "registrar.AsMap"), c.fn(pkg, "registrar.AsRadixTree")
	static := c.fn(pkg, "Router.Static")
	for _, f := range []*ssa.Function{comp, use, prep, apply, ini, catch, merge, asMap, asTree, static} {
		if f == nil {
			return
		}
	}
	rt := deref(use.Params[0].Type())
	mwT := use.Params[1].Type()
	mws := c.theField(rt, "middlewares", func(t types.Type) bool { return types.Identical(t, mwT) })
	regF := c.theField(rt, "registrar", func(t types.Type) bool {
		return types.Identical(t, apply.Params[0].Type())
	})
	errs := c.theField(rt, "error handlers", func(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok })
	prefix := c.theField(rt, "prefix", isString)
	cats := c.theField(rt, "catchers", func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && structOf(s.Elem()) != nil
	})
	catT := c.P.typeOf(pkg, "Catcher")
	if !c.ob(catT != nil, "anchor:Catcher", 0, "type Catcher is gone") {
		return
	}
	isSig := func(t types.Type) bool { _, ok := t.Underlying().(*types.Signature); return ok }
	catPrefix, catHandler := c.theField(catT, "catcher prefix", isString), c.theField(catT, "catcher handler", isSig)
	eng := func(opq ...*ssa.Function) *Engine {
		e := c.engine()
		e.Bounds = false // a directory has a name
		e.Opaque = opaqueSet(opq...)
		e.NoHavoc = func(n string) bool { return n == fnName(comp) || n == fnName(apply) }
		return e
	}
	run := func(e *Engine, fn *ssa.Function) (ps []*Path, args []*Term) {
		for _, p := range fn.Params {
			args = append(args, paramSym(p))
		}
		ps = c.run(e, nil, fn, args)
		c.show(ps)
		return
	}

	// composing: the first middleware is the outermost
	{
		e := eng()
		ps, a := run(e, comp)
		n := 0
		for _, p := range returns(ps) {
			if p.must(mkIntEq(mkLen(a[1]), tZeroInt)) && p.Results[0] == a[0] {
				continue
			}
			var v *LoopVar
			var rec *LoopRec
			for _, r := range p.S.loopSeq {
				if x := r.byCur(p.Results[0]); x != nil {
					v, rec = x, r
				}
			}
			if !c.ob(v != nil && v.Entry == a[0], "compose:innermost", p.Pos, "the innermost function isn't the handler (path: %s)", p.describe(c)) {
				continue
			}
			good := false
			for _, idx := range rec.Vars {
				if idx.Entry == nil || idx.Cur == nil || !isNumTerm(idx.Cur) {
					continue
				}
				// k is the middleware wrapped in an iteration, the last one first
				ok, m := true, 0
				for _, q := range rec.Backs {
					m++
					nx := q.Next[v.Name]
					if nx == nil || nx.op != OClosure {
						ok = false
						break
					}
					k := c.wraps(e, q, nx, v.Cur, a[1])
					d, isInt := mkSub(q.Next[idx.Name], idx.Cur).isInt()
					if k == nil || !isInt || d != -1 {
						ok = false
						break
					}
					off := mkSub(k, idx.Cur)
					ent := mkAdd(idx.Entry, off)
					// from the last down to the first
					_, isOff := off.isInt()
					ok = ok && isOff && q.must(mkIntEq(ent, mkAddC(mkLen(a[1]), -1))) && p.must(mkLt(mkAdd(idx.Cur, off), tZeroInt))
				}
				good = good || ok && m > 0
			}
			n++
			c.ob(good, "compose:order", p.Pos, "the middlewares aren't wrapped around the handler one by one, the first outermost (path: %s)", p.describe(c))
		}
		c.ob(n > 0, "compose:wraps", comp.Pos(), "middlewares are never wrapped around a handler")
	}

	// registering them
	ps, a := run(eng(), use)
	for _, p := range returns(ps) {
		n := 0
		for _, ev := range p.S.events {
			if ev.Kind == EvStore && !localRoot(ev.Addr) {
				n++
				v := ev.Val
				c.ob(ev.Addr == addrOf(a[0], mws) && v.op == OConcat && len(v.args) == 2 && fieldOf(v.args[0], a[0], mws) && v.args[1] == a[1], "use:appended", ev.Pos, "middlewares aren't added behind those there")
			}
		}
		c.ob(n == 1 && p.Results[0] == a[0], "use:kept", p.Pos, "middlewares aren't kept")
	}

	// applying a function to all the routes
	ps, a = run(eng(), apply)
	{
		n := 0
		for _, p := range ps {
			rs := p.ranges()
			if p.Kind == PReturn {
				c.ob(len(rs) == 1 && p.mustNot(rs[0].more) && rs[0].m.op == OLoad && addrRoot(rs[0].m.args[0]) == a[0], "apply:all-paths", p.Pos, "some routes are left out (path: %s)", p.describe(c))
				continue
			}
			if !c.ob(p.Kind == PBackEdge && len(rs) == 2 && rs[1].m == rs[0].val && p.must(rs[0].more), "apply:iterates", p.Pos, "not all routes are gone through (path: %s)", p.describe(c)) {
				continue
			}
			if p.mustNot(rs[1].more) {
				continue
			}
			n++
			c.ob(p.Loop.NEv > rs[0].ev.idx, "apply:all-methods", p.Pos, "some of a path's methods are left out (path: %s)", p.describe(c))
			var call *Event
			k := 0
			for _, ev := range p.S.events {
				if ev.Kind == EvCall && ev.FnT == a[1] {
					call = ev
				}
				if ev.Kind == EvMapUpdate {
					k++
					c.ob(call != nil && ev.Args[0] == rs[0].val && ev.Args[1] == rs[1].key && ev.Args[2] == call.Res[0] && call.Args[0] == rs[1].val, "apply:each", ev.Pos, "a route isn't replaced by what the function makes of it (path: %s)", p.describe(c))
				}
			}
			c.ob(k == 1, "apply:once", p.Pos, "a route is left as it is (path: %s)", p.describe(c))
		}
		c.ob(n > 0, "apply:applies", apply.Pos(), "the function isn't applied")
	}

	// a router's middlewares are put around all the routes and catchers in and below it
	{
		e := eng(prep, merge, apply, comp)
		ps, a := run(e, prep)
		self := a[0]
		n := 0
		for _, p := range returns(ps) {
			if !p.must(mkEq(p.Results[0], tNil)) {
				continue
			}
			n++
			var kids, cat *LoopRec
			for _, r := range p.S.loopSeq {
				for _, q := range r.Backs {
					for _, ev := range q.S.events[r.NEv:] {
						if ev.Kind == EvCall && ev.Fn == prep {
							kids = r
						}
						if ev.Kind == EvCall && ev.Fn == comp {
							c.ob(cat == nil || cat == r, "prepare:catchers-once", ev.Pos, "catchers are wrapped more than once")
							cat = r
						}
						c.ob(!(ev.Kind == EvCall && ev.Fn == apply), "prepare:routes-once", ev.Pos, "routes are wrapped more than once")
					}
				}
			}
			var ap *Event
			for _, ev := range p.S.events {
				if ev.Kind == EvCall && ev.Fn == apply {
					c.ob(ap == nil, "prepare:routes-once", ev.Pos, "routes are wrapped more than once")
					ap = ev
				}
			}
			if !c.ob(ap != nil && kids != nil, "prepare:routes", p.Pos, "the middlewares aren't applied to routes (path: %s)", p.describe(c)) {
				continue
			}
			before := false
			for _, r := range p.S.loopSeq {
				if r == kids {
					before = ap.idx >= r.NEv && kidsDone(p, r, ap)
				}
			}
			c.ob(before, "prepare:groups-first", ap.Pos, "a group's routes aren't among those the middlewares are applied to")
			c.ob(fieldOf(ap.Args[0], self, regF) && c.composed(e, p, ap.Args[1], comp, self, mws), "prepare:composed", ap.Pos, "the function applied to routes doesn't wrap them into the middlewares")
			empty := false
			for _, l := range p.lens(self, cats) {
				empty = empty || p.must(mkIntEq(l, tZeroInt))
			}
			if !c.ob(cat != nil || empty, "prepare:catchers", p.Pos, "the middlewares aren't applied to catchers (path: %s)", p.describe(c)) {
				continue
			}
			ok := false
			for _, at := range cat.positions() {
				all, left := true, false
				for _, l := range p.lens(self, cats) {
					left = left || p.must(mkGe(at, l))
				}
				for _, q := range cat.Backs {
					all = all && c.catcherWrapped(q, cat, at, comp, self, mws, cats, catHandler)
				}
				ok = ok || all && left
			}
			c.ob(ok, "prepare:all-catchers", p.Pos, "not every catcher is wrapped into the middlewares (path: %s)", p.describe(c))
			idx := map[*LoopRec]int{}
			for i, r := range p.S.loopSeq {
				idx[r] = i
			}
			c.ob(idx[kids] < idx[cat], "prepare:groups-catchers-first", p.Pos, "a group's catchers aren't among those the middlewares are applied to")
		}
		c.ob(n > 0, "prepare:succeeds", prep.Pos(), "preparing a router never succeeds")
	}

	// the router's middlewares are put around its error handlers
	{
		e := eng(prep, merge, apply, comp, asMap, asTree)
		ps, a := run(e, ini)
		self := a[0]
		n := 0
		for _, p := range ps {
			rs := p.ranges()
			var k int
			for _, ev := range p.S.events {
				if ev.Kind == EvMapUpdate {
					k++
					var cm *Event
					for _, x := range p.S.events[:ev.idx] {
						if x.Kind == EvCall && x.Fn == comp {
							cm = x
						}
					}
					c.ob(len(rs) == 1 && fieldOf(ev.Args[0], self, errs) && ev.Args[1] == rs[0].key && cm != nil && cm.Res[0] == ev.Args[2] && cm.Args[0] == rs[0].val && fieldOf(cm.Args[1], self, mws), "errors:composed", ev.Pos, "an error handler isn't wrapped into the middlewares (path: %s)", p.describe(c))
				}
			}
			if p.Kind == PBackEdge {
				n++
				c.ob(k == 1, "errors:each", p.Pos, "an error handler is left as it is (path: %s)", p.describe(c))
			} else {
				c.ob(len(rs) == 1 && fieldOf(rs[0].m, self, errs) && p.mustNot(rs[0].more) && k == 0, "errors:all", p.Pos, "not all error handlers are gone through once (path: %s)", p.describe(c))
			}
		}
		c.ob(n > 0, "errors:some", ini.Pos(), "error handlers aren't wrapped into the middlewares")
	}

	// catchers
	{
		ps, a := run(eng(comp), catch)
		n := 0
		for _, p := range returns(ps) {
			n++
			k := 0
			for _, ev := range p.S.events {
				if ev.Kind != EvStore || localRoot(ev.Addr) {
					continue
				}
				k++
				v := ev.Val
				ok := ev.Addr == addrOf(a[0], cats) && v.op == OConcat && len(v.args) == 2 && fieldOf(v.args[0], a[0], cats) && v.args[1].op == OElems && len(v.args[1].args) == 1
				if ok {
					el := v.args[1].args[0]
					get := func(name string) *Term {
						st := structOf(catT)
						for i := 0; i < st.NumFields(); i++ {
							if st.Field(i).Name() == name {
								return mkFieldVal(el, i, st.Field(i).Type())
							}
						}
						return nil
					}
					h, pr := get(catHandler), get(catPrefix)
					ok = false
					for _, x := range p.S.events {
						ok = ok || x.Kind == EvCall && x.Fn == comp && x.Res[0] == h && x.Args[0] == a[2] && x.Args[1] == a[3]
					}
					c.ob(ok, "catch:handler", ev.Pos, "a catcher isn't the handler given with its middlewares")
					ok = false
					for _, x := range p.S.events {
						if x.Kind == EvCall && x.Name == "path.Join" && x.Res[0] == pr {
							va := p.varargs(x.Args[0], 2)
							ok = ok || len(va) == 2 && fieldOf(va[0], a[0], prefix) && va[1] == a[1]
						}
					}
					c.ob(ok, "catch:prefix", ev.Pos, "a catcher's prefix isn't the group's joined with its own: %s", pr)
					continue
				}
				c.ob(ok, "catch:appended", ev.Pos, "a catcher isn't added to those there")
			}
			c.ob(k == 1 && p.Results[0] == a[0], "catch:kept", p.Pos, "a catcher isn't kept (path: %s)", p.describe(c))
		}
		c.ob(n > 0, "catch:registers", catch.Pos(), "catchers aren't registered")
		e := eng(catch)
		ps, a = run(e, static)
		for _, p := range returns(ps) {
			k := 0
			for _, ev := range p.S.events {
				if ev.Kind == EvCall && ev.Fn == catch {
					k++
					c.ob(ev.Args[0] == a[0] && ev.Args[1] == a[1] && ev.Args[3] == a[3], "static:middlewares", ev.Pos, "a directory isn't served through its middlewares")
				}
			}
			c.ob(k == 1, "static:catcher", p.Pos, "a directory isn't served by a catcher")
		}
	}
}

// kidsDone: the loop is over when something happens.
func kidsDone(p *Path, r *LoopRec, ev *Event) bool { return ev.NLits > r.NLits }

// wraps: a closure that calls a middleware of a list with the handler wrapped so far; the
// middleware's index.
func (c *Ctx) wraps(e *Engine, q *Path, cl, inner, mws *Term) *Term {
	fn := cl.obj.(*ssa.Function)
	if len(fn.Params) != 1 {
		return nil
	}
	req := paramSym(fn.Params[0])
	s := q.S.clone()
	s.events = nil
	ps := e.RunClosure(s, fn, []*Term{req}, cl.args)
	c.paths += len(ps)
	var at *Term
	for _, p := range ps {
		if p.Kind != PReturn {
			return nil
		}
		n := 0
		for _, ev := range p.S.events {
			if ev.Kind != EvCall {
				continue
			}
			n++
			if ev.FnT == nil || len(ev.Args) != 2 || ev.Args[0] != inner || ev.Args[1] != req || len(p.Results) != 1 || p.Results[0] != ev.Res[0] {
				return nil
			}
			b, i, _ := partOf(ev.FnT)
			if b != mws || at != nil && at != i {
				return nil
			}
			at = i
		}
		if n != 1 {
			return nil
		}
	}
	return at
}

func (c *Ctx) catcherWrapped(q *Path, r *LoopRec, at *Term, comp *ssa.Function, self *Term, mws, cats, handler string) bool {
	var cm *Event
	n := 0
	isIt := func(a *Term) bool {
		return a.op == OFieldAddr && a.name == handler && a.args[0].op == OIndexAddr && fieldOf(a.args[0].args[0], self, cats) && q.equal(a.args[0].args[1], at)
	}
	for _, ev := range q.S.events[r.NEv:] {
		if ev.Kind == EvCall && ev.Fn == comp {
			b, i, f := partOf(ev.Args[0])
			if b == nil || !fieldOf(b, self, cats) || f != handler || !q.equal(i, at) || !fieldOf(ev.Args[1], self, mws) {
				return false
			}
			cm = ev
		} else if ev.Kind == EvStore && !localRoot(ev.Addr) {
			n++
			if cm == nil || !isIt(ev.Addr) || ev.Val != cm.Res[0] {
				return false
			}
		}
	}
	return n == 1
}

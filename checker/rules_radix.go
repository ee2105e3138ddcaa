package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C32", "All paths of parsing templates, of inserting them into the tree and of matching paths against it.", 60, ruleC32)
}

type radixRule struct {
	*Ctx
	node, arr                                       types.Type
	statics, next, payload, wildcard, isWild        string
	over, list, table                               string
	segName, segWild                                int
	segT                                            types.Type
	insert, lookup, add, match, seg, params, escape *ssa.Function
}

func ruleC32(c *Ctx) {
	const pkg = "router/inbuilt/internal/radix"
	r := &radixRule{Ctx: c}
	r.insert, r.lookup, r.add, r.match, r.seg = c.fn(pkg, "Node.insertRecursively"), c.fn(pkg, "arrMap.Lookup"), c.fn(pkg, "arrMap.Add"), c.fn(pkg, "Node.Match"), c.fn(pkg, "processSegment")
	r.params = c.fn("internal/keyvalue", "Storage.Add")
	ins, must, parse, mustP, static, newN := c.fn(pkg, "Node.Insert"), c.fn(pkg, "Node.MustInsert"), c.fn(pkg, "Parse"), c.fn(pkg, "MustParse"), c.fn(pkg, "Template.IsStatic"), c.fn(pkg, "New")
	for _, f := range []*ssa.Function{r.insert, r.lookup, r.add, r.match, r.seg, r.params, ins, must, parse, mustP, static, newN} {
		if f == nil {
			return
		}
	}
	r.node, r.arr = deref(r.insert.Params[0].Type()), deref(r.lookup.Params[0].Type())
	isBool := func(t types.Type) bool { return types.Identical(t.Underlying(), types.Typ[types.Bool]) }
	isPtr := func(to types.Type) func(types.Type) bool {
		return func(t types.Type) bool {
			p, ok := t.Underlying().(*types.Pointer)
			return ok && types.Identical(p.Elem(), to)
		}
	}
	payT := deref(r.insert.Params[2].Type())
	r.statics = c.theField(r.node, "literal segments", func(t types.Type) bool { return types.Identical(t, r.arr) })
	r.next, r.payload = c.theField(r.node, "parameter's node", isPtr(r.node)), c.theField(r.node, "payload", isPtr(payT))
	r.wildcard, r.isWild = c.theField(r.node, "parameter's name", isString), c.theField(r.node, "parameter", isBool)
	r.over = c.theField(r.arr, "overflow", isBool)
	r.list = c.theField(r.arr, "list", func(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok })
	r.table = c.theField(r.arr, "table", func(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok })
	r.segT = r.insert.Params[1].Type().Underlying().(*types.Slice).Elem()
	st := structOf(r.segT)
	if !c.ob(st != nil && st.NumFields() == 2, "anchor:Segment", r.insert.Pos(), "a segment isn't a text and whether it is a parameter") {
		return
	}
	for i := 0; i < 2; i++ {
		if isString(st.Field(i).Type()) {
			r.segName = i
		} else {
			r.segWild = i
		}
	}
	r.parse(parse)
	r.inserting()
	r.arrmap()
	r.matching()

	run := func(fn *ssa.Function, opq ...*ssa.Function) (ps []*Path, args []*Term) {
		e := c.engine()
		e.Opaque = opaqueSet(opq...)
		e.LocalStores = true
		for _, p := range fn.Params {
			args = append(args, paramSym(p))
		}
		ps = c.run(e, nil, fn, args)
		c.show(ps)
		return
	}
	// wrappers
	ps, a := run(ins, r.insert)
	for _, p := range ps {
		ok := false
		for _, ev := range p.S.events {
			if ev.Kind == EvCall && ev.Fn == r.insert {
				ok = p.Kind == PReturn && ev.Args[0] == a[0] && p.Results[0] == ev.Res[0] && ev.Args[1] == mkFieldVal(a[1], 0, ev.Args[1].typ) && isFreshObj(ev.Args[2])
				last := (*Term)(nil)
				for _, x := range p.S.events[:ev.idx] {
					if x.Kind == EvStore && addrRoot(x.Addr) == ev.Args[2] {
						last = x.Val
						ok = ok && x.Addr == ev.Args[2]
					}
				}
				ok = ok && last == a[2]
			}
		}
		c.ob(ok, "insert:whole", p.Pos, "a template's segments and its payload aren't inserted (path: %s)", p.describe(c))
	}
	for _, w := range []struct{ fn, of *ssa.Function }{{must, ins}, {mustP, parse}} {
		ps, a := run(w.fn, w.of)
		for _, p := range ps {
			var call *Event
			for _, ev := range p.S.events {
				if ev.Kind == EvCall && ev.Fn == w.of {
					call = ev
				}
			}
			if !c.ob(call != nil, "must:"+w.fn.Name(), p.Pos, "%s isn't called", w.of) {
				continue
			}
			for i := range call.Args {
				c.ob(call.Args[i] == a[i], "must:args:"+w.fn.Name(), call.Pos, "%s is called with something else", w.of)
			}
			err := call.Res[len(call.Res)-1]
			if p.Kind == PReturn {
				c.ob(!p.feasible(not(mkEq(err, tNil))), "must:refused:"+w.fn.Name(), p.Pos, "a failure isn't reported")
				if len(p.Results) > 0 {
					c.ob(p.Results[0] == call.Res[0], "must:result:"+w.fn.Name(), p.Pos, "the result is something else")
				}
			} else {
				c.ob(!p.feasible(pos(mkEq(err, tNil))), "must:panics:"+w.fn.Name(), p.Pos, "it may panic although nothing failed")
			}
		}
	}
	// is any segment a parameter?
	ps, a = run(static)
	seen := map[bool]int{}
	for _, p := range returns(ps) {
		segs := mkFieldVal(a[0], 0, r.insert.Params[1].Type())
		v, isC := p.Results[0].isBool()
		if !c.ob(isC && len(p.S.loopSeq) == 1, "static:decided", p.Pos, "whether a template is static isn't decided (path: %s)", p.describe(c)) {
			continue
		}
		seen[v]++
		rec := p.S.loopSeq[0]
		ok := false
		for _, at := range rec.positions() {
			wild := func(q *Path) *Term { return mkFieldVal(mkElem(segs, at, r.segT), r.segWild, types.Typ[types.Bool]) }
			if !v {
				ok = ok || p.must(wild(p))
				continue
			}
			all := p.must(mkGe(at, mkLen(segs)))
			for _, q := range rec.Backs {
				all = all && q.mustNot(wild(q))
			}
			ok = ok || all
		}
		c.ob(ok, "static:all", p.Pos, "a template is taken for static, or for a parametrised one, wrongly (path: %s)", p.describe(c))
	}
	c.ob(seen[true] > 0 && seen[false] > 0, "static:both", static.Pos(), "templates are all of one kind")
	ps, _ = run(newN)
	for _, p := range returns(ps) {
		c.ob(r.emptyNode(p, p.Results[0]), "new:empty", p.Pos, "a new tree isn't empty")
	}
}

// emptyNode: a node with nothing below and nothing registered.
func (r *radixRule) emptyNode(p *Path, n *Term) bool {
	if !isFreshObj(n) {
		return false
	}
	f := func(names ...string) *Term {
		return p.S.load(addrOf(n, names...), addrOf(n, names...).typ.(*types.Pointer).Elem())
	}
	return f(r.next) == tNil && f(r.payload) == tNil && p.mustNot(f(r.isWild)) && p.mustNot(f(r.statics, r.over)) && p.must(mkIntEq(mkLen(f(r.statics, r.list)), tZeroInt))
}

func (r *radixRule) inserting() {
	c := r.Ctx
	e := c.engine()
	e.Opaque = opaqueSet(r.lookup, r.add)
	e.LocalStores = true
	a := []*Term{paramSym(r.insert.Params[0]), paramSym(r.insert.Params[1]), paramSym(r.insert.Params[2])}
	n, segs, pay := a[0], a[1], a[2]
	ps := c.run(e, nil, r.insert, a)
	c.show(ps)
	c.noPanic(ps, r.insert)
	cnt := map[string]int{}
	name := mkFieldVal(mkElem(segs, tZeroInt, r.segT), r.segName, types.Typ[types.String])
	wild := mkFieldVal(mkElem(segs, tZeroInt, r.segT), r.segWild, types.Typ[types.Bool])
	for _, p := range returns(ps) {
		stores := map[string]*Term{}
		var rec, look, add *Event
		odd := false
		for _, ev := range p.S.events {
			switch {
			case ev.Kind == EvStore && !localRoot(ev.Addr):
				if ev.Addr.op == OFieldAddr && ev.Addr.args[0] == n {
					stores[ev.Addr.name] = ev.Val
				} else {
					odd = true
				}
			case ev.Kind == EvCall && ev.Fn == r.insert:
				odd = odd || rec != nil
				rec = ev
			case ev.Kind == EvCall && ev.Fn == r.lookup:
				look = ev
			case ev.Kind == EvCall && ev.Fn == r.add:
				odd = odd || add != nil
				add = ev
			}
		}
		c.ob(!odd, "insert:nothing-else", p.Pos, "inserting changes something else (path: %s)", p.describe(c))
		isEnd := p.must(mkIntEq(mkLen(segs), tZeroInt))
		descends := func(to *Term) bool {
			rest := rec != nil && rec.Args[1].op == OSlice && rec.Args[1].args[0] == segs
			return rest && rec.Args[0] == to && rec.Args[2] == pay && p.Results[0] == rec.Res[0] && p.equal(rec.Args[1].args[1], mkInt(1)) && p.must(mkIntEq(mkLen(rec.Args[1]), mkAddC(mkLen(segs), -1)))
		}
		switch {
		case isEnd:
			cnt["end"]++
			c.ob(len(stores) == 1 && stores[r.payload] == pay && rec == nil && add == nil && p.must(mkEq(p.Results[0], tNil)), "insert:end", p.Pos, "the payload isn't put at the template's end (path: %s)", p.describe(c))
		case p.must(wild):
			old := fieldAt(p, n, r.isWild)
			oldName := fieldAt(p, n, r.wildcard)
			if rec == nil {
				cnt["refused"]++
				c.ob(p.mustNot(mkEq(p.Results[0], tNil)) && len(stores) == 0 && add == nil && p.must(old) && p.mustNot(mkEq(name, oldName)), "insert:refused", p.Pos, "a template is refused although its parameter's name is no other, or changed (path: %s)", p.describe(c))
				continue
			}
			cnt["param"]++
			c.ob(p.mustNot(old) || p.must(mkEq(name, oldName)), "insert:one-name", p.Pos, "a parameter gets another name (path: %s)", p.describe(c))
			c.ob((stores[r.isWild] == nil && p.must(old) || stores[r.isWild] != nil && p.must(stores[r.isWild])) && (stores[r.wildcard] == nil && p.must(old) || stores[r.wildcard] != nil && p.equal(stores[r.wildcard], name)), "insert:param", p.Pos, "a parameter isn't put down (path: %s)", p.describe(c))
			nx := fieldAt(p, n, r.next)
			if v := stores[r.next]; v != nil {
				c.ob(p.must(mkEq(nx, tNil)) && descends(v) && r.emptyBefore(p, v, rec), "insert:param-new", p.Pos, "what is below a parameter is dropped, or isn't gone on with (path: %s)", p.describe(c))
			} else {
				c.ob(p.mustNot(mkEq(nx, tNil)) && descends(nx), "insert:param-below", p.Pos, "the rest isn't inserted below the parameter (path: %s)", p.describe(c))
			}
			for f := range stores {
				c.ob(f == r.isWild || f == r.wildcard || f == r.next, "insert:param-only", p.Pos, "a parameter changes %s", f)
			}
		case p.mustNot(wild):
			cnt["literal"]++
			if !c.ob(look != nil && look.Args[0] == addrOf(n, r.statics) && look.Args[1] == name && len(stores) == 0, "insert:lookup", p.Pos, "a literal segment isn't looked up (path: %s)", p.describe(c)) {
				continue
			}
			if add == nil {
				c.ob(p.mustNot(mkEq(look.Res[0], tNil)) && descends(look.Res[0]), "insert:below", p.Pos, "the rest isn't inserted below its segment (path: %s)", p.describe(c))
			} else {
				cnt["new"]++
				c.ob(p.must(mkEq(look.Res[0], tNil)) && add.Args[0] == addrOf(n, r.statics) && add.Args[1] == name && descends(add.Args[2]) && r.emptyBefore(p, add.Args[2], rec), "insert:new", p.Pos, "a new segment isn't added, or replaces another (path: %s)", p.describe(c))
			}
		default:
			c.ob(false, "insert:kind", p.Pos, "whether a segment is a parameter isn't asked (path: %s)", p.describe(c))
		}
	}
	for _, k := range []string{"end", "refused", "param", "literal", "new"} {
		c.ob(cnt[k] > 0, "insert:cases", r.insert.Pos(), "no path for the case %q", k)
	}
}

// emptyBefore: a node allocated on the path has nothing in it when it is handed on.
func (r *radixRule) emptyBefore(p *Path, n *Term, rec *Event) bool {
	if !isFreshObj(n) {
		return false
	}
	for _, ev := range p.S.events {
		if ev.idx < rec.idx && ev.Kind == EvStore && addrRoot(ev.Addr) == n && ev.Val != zeroOf(deref(ev.Addr.typ)) {
			return false
		}
	}
	return true
}

func (r *radixRule) arrmap() {
	c := r.Ctx
	// adding
	e := c.engine()
	a := []*Term{paramSym(r.add.Params[0]), paramSym(r.add.Params[1]), paramSym(r.add.Params[2])}
	self, key, node := a[0], a[1], a[2]
	ps := c.run(e, nil, r.add, a)
	c.show(ps)
	cnt := map[string]int{}
	ent := structOf(fieldType(r.arr, r.list).Underlying().(*types.Slice).Elem())
	entT := fieldType(r.arr, r.list).Underlying().(*types.Slice).Elem()
	ki, ni := 0, 1
	for i := 0; ent != nil && i < ent.NumFields(); i++ {
		if isString(ent.Field(i).Type()) {
			ki = i
		} else {
			ni = i
		}
	}
	keyAt := func(list, i *Term) *Term { return mkFieldVal(mkElem(list, i, entT), ki, types.Typ[types.String]) }
	nodeAt := func(list, i *Term) *Term { return mkFieldVal(mkElem(list, i, entT), ni, ent.Field(ni).Type()) }
	for _, p := range ps {
		if p.Kind == PBackEdge {
			continue
		}
		if !c.ob(p.Kind == PReturn, "segments:no-panic", p.Pos, "adding a segment may panic (path: %s)", p.describe(c)) {
			continue
		}
		over := fieldAt(p, self, r.over)
		var ups []*Event
		var list, flag *Term
		for _, ev := range p.S.events {
			switch {
			case ev.Kind == EvMapUpdate:
				ups = append(ups, ev)
			case ev.Kind == EvStore && ev.Addr == addrOf(self, r.list):
				list = ev.Val
			case ev.Kind == EvStore && ev.Addr == addrOf(self, r.over):
				flag = ev.Val
			case ev.Kind == EvStore && !localRoot(ev.Addr):
				c.ob(ev.Addr == addrOf(self, r.table), "segments:nothing-else", ev.Pos, "adding a segment changes something else")
			}
		}
		own := func(t *Term) bool {
			return fieldOf(t, self, r.table) || t == p.S.load(addrOf(self, r.table), fieldType(r.arr, r.table))
		}
		put := len(ups) == 1 && own(ups[0].Args[0]) && ups[0].Args[1] == key && ups[0].Args[2] == node
		switch {
		case p.must(over):
			cnt["over"]++
			c.ob(put && list == nil && (flag == nil || p.must(flag)), "segments:table", p.Pos, "a segment isn't added to the table (path: %s)", p.describe(c))
		case p.mustNot(over) && flag == nil:
			cnt["list"]++
			ok := len(ups) == 0 && list != nil && list.op == OConcat && len(list.args) == 2 && fieldOf(list.args[0], self, r.list) && list.args[1].op == OElems && len(list.args[1].args) == 1
			if ok {
				el := list.args[1].args[0]
				ok = mkFieldVal(el, ki, types.Typ[types.String]) == key && mkFieldVal(el, ni, ent.Field(ni).Type()) == node
			}
			c.ob(ok, "segments:list", p.Pos, "a segment isn't added to the list (path: %s)", p.describe(c))
		default:
			cnt["switch"]++
			c.ob(put && p.must(flag), "segments:switch", p.Pos, "the segment that exceeds the list isn't added to the table (path: %s)", p.describe(c))
			tab := p.S.load(addrOf(self, r.table), fieldType(r.arr, r.table))
			good := false
			for _, rec := range p.S.loopSeq {
				for _, at := range rec.positions() {
					all, left := len(rec.Backs) > 0, false
					for _, l := range p.termsOf(func(t *Term) bool { return t.op == OLen && fieldOf(t.args[0], self, r.list) }) {
						left = left || p.must(mkGe(at, l))
					}
					for _, q := range rec.Backs {
						k := 0
						for _, ev := range q.S.events[rec.NEv:] {
							if ev.Kind != EvMapUpdate {
								continue
							}
							k++
							okOne := false
							for _, l := range q.termsOf(func(t *Term) bool { return t.op == OLen && fieldOf(t.args[0], self, r.list) }) {
								ls := l.args[0]
								okOne = okOne || q.equal(ev.Args[1], keyAt(ls, at)) && q.equal(ev.Args[2], nodeAt(ls, at))
							}
							all = all && okOne && (ev.Args[0] == tab || fieldOf(ev.Args[0], self, r.table) && rec.NEv > 0)
						}
						all = all && k == 1
					}
					good = good || all && left
				}
			}
			// the table is there before something is put into it
			made := -1
			for i, ev := range p.S.events {
				if ev.Kind == EvStore && ev.Addr == addrOf(self, r.table) && p.S.F.canon(ev.Val).op == OMakeMap {
					made = i
				}
			}
			there := func(q *Path, m *Term, at int) bool {
				return m.op == OMakeMap || q.mustNot(mkEq(m, tNil)) || made >= 0 && made < at
			}
			ok := true
			for i, ev := range p.S.events {
				ok = ok && (ev.Kind != EvMapUpdate || there(p, ev.Args[0], i))
			}
			for _, rec := range p.S.loopSeq {
				for _, q := range rec.Backs {
					for _, ev := range q.S.events[rec.NEv:] {
						ok = ok && (ev.Kind != EvMapUpdate || there(q, ev.Args[0], rec.NEv))
					}
				}
			}
			c.ob(ok, "segments:table-made", p.Pos, "segments are put into a table that isn't there yet, or one is lost when it's made (path: %s)", p.describe(c))
			c.ob(good && (tab.op == OMakeMap || tab.op == OLoad), "segments:all-moved", p.Pos, "not all segments of the list get into the table (path: %s)", p.describe(c))
		}
	}
	for _, k := range []string{"over", "list", "switch"} {
		c.ob(cnt[k] > 0, "segments:cases", r.add.Pos(), "no path for the case %q", k)
	}

	// looking up
	for _, fn := range []*ssa.Function{r.lookup, r.seg} {
		e := c.engine()
		e.Opaque = opaqueSet(r.params)
		e.NoHavoc = func(n string) bool { return n == fnName(r.params) }
		e.NilChecks = false
		var args []*Term
		for _, p := range fn.Params {
			args = append(args, paramSym(p))
		}
		var base, key, node, params *Term
		if fn == r.lookup {
			base, key = args[0], args[1]
		} else {
			for i, p := range fn.Params {
				switch {
				case isString(p.Type()):
					key = args[i]
				case types.Identical(deref(p.Type()), r.node):
					node = args[i]
				default:
					params = args[i]
				}
			}
			base = addrOf(node, r.statics)
		}
		ps := c.run(e, nil, fn, args)
		c.show(ps)
		c.noPanic(ps, fn)
		cnt := map[string]int{}
		for _, p := range returns(ps) {
			kind, found := r.outcome(p, base, key, keyAt, nodeAt)
			var adds []*Event
			for _, ev := range p.S.events {
				if ev.Kind == EvCall && ev.Fn == r.params {
					adds = append(adds, ev)
				}
				if ev.Kind == EvStore && !localRoot(ev.Addr) || ev.Kind == EvMapUpdate {
					c.ob(false, "lookup:read-only:"+fn.Name(), ev.Pos, "looking up a segment changes the tree")
				}
			}
			if kind == "found" && p.must(mkEq(found, tNil)) {
				continue // entries always have a node: see insert
			}
			cnt[kind]++
			if fn == r.lookup {
				switch kind {
				case "found", "table":
					c.ob(p.equal(p.Results[0], found), "lookup:found", p.Pos, "a segment's node isn't the one looked up (path: %s)", p.describe(c))
				case "absent":
					c.ob(p.must(mkEq(p.Results[0], tNil)), "lookup:absent", p.Pos, "a segment that isn't there has a node (path: %s)", p.describe(c))
				default:
					c.ob(false, "lookup:decided", p.Pos, "a segment isn't looked up (path: %s)", p.describe(c))
				}
				continue
			}
			ok := p.Results[1]
			switch kind {
			case "found":
				c.ob(p.must(ok) && p.equal(p.Results[0], found) && len(adds) == 0, "step:literal", p.Pos, "a literal segment isn't preferred (path: %s)", p.describe(c))
			case "absent":
				w := fieldAt(p, node, r.isWild)
				empty := mkIntEq(mkLen(key), tZeroInt)
				if p.mustNot(ok) {
					cnt["none"]++
					c.ob(!p.feasible(pos(w), not(empty)) && len(adds) == 0, "step:none", p.Pos, "a parameter isn't matched (path: %s)", p.describe(c))
					continue
				}
				cnt["param"]++
				c.ob(p.must(ok) && p.must(w) && p.mustNot(empty), "step:param", p.Pos, "a segment is matched although there is no parameter, or it's empty (path: %s)", p.describe(c))
				c.ob(fieldOf(p.Results[0], node, r.next), "step:param-node", p.Pos, "a parameter doesn't lead to its node (path: %s)", p.describe(c))
				nm := fieldAt(p, node, r.wildcard)
				if len(adds) == 0 {
					c.ob(p.must(mkIntEq(mkLen(nm), tZeroInt)), "step:param-value", p.Pos, "a parameter's value isn't kept (path: %s)", p.describe(c))
				} else {
					cnt["value"]++
					c.ob(len(adds) == 1 && adds[0].Args[0] == params && fieldOf(adds[0].Args[1], node, r.wildcard) && adds[0].Args[2] == key && !p.must(mkIntEq(mkLen(nm), tZeroInt)), "step:param-value", p.Pos, "a parameter's value is put down wrongly (path: %s)", p.describe(c))
				}
			default:
				c.ob(false, "step:decided", p.Pos, "literal segments aren't looked up first (path: %s)", p.describe(c))
			}
		}
		need := []string{"found", "absent"}
		if fn == r.seg {
			need = append(need, "none", "param", "value")
		}
		for _, k := range need {
			c.ob(cnt[k] > 0, "lookup:cases:"+fn.Name(), fn.Pos(), "no path for the case %q", k)
		}
	}
}

func fieldType(t types.Type, name string) types.Type {
	st := structOf(t)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type()
		}
	}
	return types.Typ[types.Invalid]
}

// outcome: what a path knows of a literal segment: its node, or that there is none.
func (r *radixRule) outcome(p *Path, base, key *Term, keyAt, nodeAt func(l, i *Term) *Term) (string, *Term) {
	over := fieldAt(p, base, r.over)
	if p.must(over) {
		for _, t := range append(p.termsOf(func(t *Term) bool { return t.op == OMapGet }), p.Results...) {
			if t.op == OMapGet && fieldOf(t.args[0], base, r.table) && t.args[1] == key {
				if p.must(mkEq(t, tNil)) {
					return "absent", nil
				}
				if p.mustNot(mkEq(t, tNil)) {
					return "found", t
				}
				return "table", t
			}
		}
		return "?", nil
	}
	if !p.mustNot(over) {
		return "?", nil
	}
	for _, rec := range p.S.loopSeq {
		for _, at := range rec.positions() {
			for _, l := range p.termsOf(func(t *Term) bool { return t.op == OLen && fieldOf(t.args[0], base, r.list) }) {
				ls := l.args[0]
				all := len(rec.Backs) > 0
				for _, q := range rec.Backs {
					all = all && q.mustNot(mkEq(keyAt(ls, at), key))
				}
				if !all {
					continue
				}
				if p.must(mkGe(at, l)) {
					return "absent", nil
				}
				if p.must(mkEq(keyAt(ls, at), key)) {
					return "found", nodeAt(ls, at)
				}
			}
		}
	}
	return "?", nil
}

func (r *radixRule) matching() {
	c := r.Ctx
	e := c.engine()
	e.Opaque = opaqueSet(r.seg)
	e.NoHavoc = func(n string) bool { return n == fnName(r.seg) }
	e.Bounds = true
	a := []*Term{paramSym(r.match.Params[0]), paramSym(r.match.Params[1]), paramSym(r.match.Params[2])}
	root, path, params := a[0], a[1], a[2]
	ps := c.run(e, nil, r.match, a)
	c.show(ps)
	c.noPanic(ps, r.match)
	slash := mkInt('/')
	cnt := map[string]int{}
	step := func(p *Path, from int) *Event {
		var out *Event
		for _, ev := range p.S.events[from:] {
			if ev.Kind == EvCall && ev.Fn == r.seg {
				if out != nil {
					return nil
				}
				out = ev
			}
		}
		return out
	}
	arg := func(ev *Event) (seg, node, pr *Term) {
		for i, p := range r.seg.Params {
			switch {
			case isString(p.Type()):
				seg = ev.Args[i]
			case types.Identical(deref(p.Type()), r.node):
				node = ev.Args[i]
			default:
				pr = ev.Args[i]
			}
		}
		return
	}
	for _, p := range ps {
		if p.Kind == PBackEdge {
			continue
		}
		if len(p.S.loopSeq) == 0 {
			ok := p.Kind == PReturn && p.must(mkEq(p.Results[0], tNil)) && (p.must(mkIntEq(mkLen(path), tZeroInt)) || p.mustNot(mkIntEq(mkElem(path, tZeroInt, byteType), slash)))
			cnt["relative"]++
			c.ob(ok, "match:leading-slash", p.Pos, "a path is decided before it is looked at (path: %s)", p.describe(c))
			continue
		}
		c.ob(len(p.S.loopSeq) == 1, "match:one-walk", p.Pos, "the path is walked more than once")
		rec := p.S.loopSeq[0]
		var pv, nv *LoopVar
		for _, v := range rec.Vars {
			if v.Entry == nil || v.Cur == nil {
				continue
			}
			if isString(v.Cur.typ) {
				pv = v
			}
			if types.Identical(deref(v.Cur.typ), r.node) && v.Entry == root {
				nv = v
			}
		}
		if !c.ob(pv != nil && nv != nil, "match:walk", p.Pos, "the path isn't walked from the root (path: %s)", p.describe(c)) {
			continue
		}
		c.ob(pv.Entry.op == OSlice && pv.Entry.args[0] == path && p.equal(pv.Entry.args[1], mkInt(1)) && p.must(mkIntEq(mkLen(pv.Entry), mkAddC(mkLen(path), -1))) && p.must(mkIntEq(mkElem(path, tZeroInt, byteType), slash)), "match:start", p.Pos, "the walk doesn't begin behind the leading slash")
		ev := step(p, rec.NEv)
		if p.must(mkIntEq(mkLen(pv.Cur), tZeroInt)) && ev == nil {
			cnt["end"]++
			c.ob(fieldOf(p.Results[0], nv.Cur, r.payload), "match:end", p.Pos, "what is found isn't what was registered for the node the path leads to (path: %s)", p.describe(c))
		} else {
			cnt["fail"]++
			c.ob(ev != nil && p.must(mkEq(p.Results[0], tNil)) && p.mustNot(ev.Res[1]), "match:not-found", p.Pos, "a path is given up although its segment is there (path: %s)", p.describe(c))
		}
		check := func(q *Path) {
			ev := step(q, rec.NEv)
			if !c.ob(ev != nil, "match:step", q.Pos, "an iteration isn't one step (path: %s)", q.describe(c)) {
				return
			}
			seg, node, pr := arg(ev)
			c.ob(node == nv.Cur && pr == params, "match:step-node", ev.Pos, "a step isn't taken from the node reached (path: %s)", q.describe(c))
			// the segment is what is left up to the next slash
			n := mkLen(seg)
			isPart := q.equal(seg, pv.Cur) || seg.op == OSlice && seg.args[0] == pv.Cur && q.equal(seg.args[1], tZeroInt)
			rest := mkLen(pv.Cur)
			whole := q.must(mkIntEq(n, rest))
			free := q.noByte(pv.Cur, n, slash)
			c.ob(isPart && free && (whole || q.must(mkIntEq(mkElem(pv.Cur, n, byteType), slash))), "match:segment", ev.Pos, "a segment isn't the text up to the next slash: %s (path: %s)", seg, q.describe(c))
			if q.Kind != PBackEdge {
				return
			}
			c.ob(q.must(ev.Res[1]) && q.Next[nv.Name] == ev.Res[0], "match:descend", ev.Pos, "the walk doesn't go on with the node found (path: %s)", q.describe(c))
			nx := q.Next[pv.Name]
			if whole {
				cnt["last"]++
				c.ob(q.must(mkIntEq(mkLen(nx), tZeroInt)), "match:rest", ev.Pos, "something follows the last segment (path: %s)", q.describe(c))
			} else {
				cnt["more"]++
				c.ob(nx != nil && nx.op == OSlice && nx.args[0] == pv.Cur && q.equal(nx.args[1], mkAddC(n, 1)) && q.must(mkIntEq(mkLen(nx), mkSub(rest, mkAddC(n, 1)))), "match:rest", ev.Pos, "the walk doesn't go on behind the slash: %s (path: %s)", nx, q.describe(c))
			}
		}
		for _, q := range rec.Backs {
			check(q)
		}
		if ev != nil {
			check(p)
		}
	}
	for _, k := range []string{"relative", "end", "fail", "last", "more"} {
		c.ob(cnt[k] > 0, "match:cases", r.match.Pos(), "no path for the case %q", k)
	}
}

// noByte: the first n bytes of a string aren't a certain one.
func (p *Path) noByte(s, n, b *Term) bool {
	for _, t := range p.termsOf(func(t *Term) bool { return t.op == OCall && t.name == "indexByte" && t.args[0] == s && t.args[1] == b }) {
		if p.must(mkIntEq(t, n)) || p.must(mkIntEq(t, mkInt(-1))) {
			return true
		}
	}
	return false
}

// parse: the parser is compared with a reference automaton, state by state and byte by byte.
func (r *radixRule) parse(fn *ssa.Function) {
	c := r.Ctx
	e := c.engine()
	e.Bounds = true
	tmpl := paramSym(fn.Params[0])
	ps := c.run(e, nil, fn, []*Term{tmpl})
	c.show(ps)
	c.noPanic(ps, fn)
	slash := mkInt('/')
	var rec *LoopRec
	isErr := func(p *Path) bool { return p.mustNot(mkEq(p.Results[1], tNil)) }
	nPre := 0
	for _, p := range returns(ps) {
		if len(p.S.loopSeq) == 0 {
			nPre++
			c.ob(isErr(p) && (p.must(mkIntEq(mkLen(tmpl), tZeroInt)) || p.mustNot(mkIntEq(mkElem(tmpl, tZeroInt, byteType), slash))), "parse:leading-slash", p.Pos, "a template is decided before it is looked at (path: %s)", p.describe(c))
			continue
		}
		c.ob(rec == nil || rec == p.S.loopSeq[0], "parse:one-loop", p.Pos, "a template is gone through more than once")
		rec = p.S.loopSeq[0]
		c.ob(p.must(mkIntEq(mkElem(tmpl, tZeroInt, byteType), slash)), "parse:leading-slash", p.Pos, "a template without a leading slash is accepted (path: %s)", p.describe(c))
	}
	if !c.ob(rec != nil && nPre > 0, "parse:loop", fn.Pos(), "a template isn't gone through") {
		return
	}
	// the variables: the position, the segment's beginning, the state, the segments so far
	var idx, off, state, segs *LoopVar
	for _, v := range rec.Vars {
		if v.Cur == nil {
			continue
		}
		if !isNumTerm(v.Cur) {
			segs = v
			continue
		}
		step, keep := len(rec.Backs) > 0, true
		for _, q := range rec.Backs {
			d, ok := mkSub(q.Next[v.Name], v.Cur).isInt()
			step = step && ok && d == 1
			_, isC := q.Next[v.Name].isInt()
			keep = keep && (q.Next[v.Name] == v.Cur || isC || ok && d == 0)
		}
		switch {
		case step:
			idx = v
		case keep:
			state = v
		default:
			off = v
		}
	}
	if !c.ob(idx != nil && off != nil && state != nil && segs != nil, "parse:variables", fn.Pos(), "the parser's variables aren't known") {
		return
	}
	at, st, from := idx.Cur, state.Cur, off.Cur
	one := mkInt(1)
	c.ob(rec.Backs[0].equal(idx.Entry, one) && rec.Backs[0].equal(off.Entry, one), "parse:begin", fn.Pos(), "the parser doesn't begin behind the leading slash")
	ch := mkElem(tmpl, at, byteType)
	s0, ok := state.Entry.isInt()
	if !c.ob(ok && rec.Backs[0].must(mkIntEq(mkLen(segs.Entry), tZeroInt)) || ok && segs.Entry == tNil, "parse:initial", fn.Pos(), "the parser's initial state isn't known") {
		return
	}
	// reference states: a segment's beginning, its text, a parameter's name, behind a parameter
	const (
		begin = iota
		text
		param
		after
	)
	classes := []struct {
		name string
		lits []Lit
	}{
		{"a slash", []Lit{pos(mkIntEq(ch, slash))}},
		{"an opening brace", []Lit{pos(mkIntEq(ch, mkInt('{')))}},
		{"a closing brace", []Lit{pos(mkIntEq(ch, mkInt('}')))}},
		{"another character", []Lit{not(mkIntEq(ch, slash)), not(mkIntEq(ch, mkInt('{'))), not(mkIntEq(ch, mkInt('}')))}},
	}
	type want struct {
		err    bool
		to     int
		add    int // 0: nothing, 1: a literal, 2: a parameter, 3: an empty literal
		offset int // 0: kept, 1: behind the character
	}
	ref := map[[2]int]want{
		{begin, 0}: {to: begin, add: 3, offset: 1}, {begin, 1}: {to: param, offset: 1}, {begin, 2}: {to: text}, {begin, 3}: {to: text},
		{text, 0}: {to: begin, add: 1, offset: 1}, {text, 1}: {err: true}, {text, 2}: {to: text}, {text, 3}: {to: text},
		{param, 0}: {err: true}, {param, 1}: {err: true}, {param, 2}: {to: after, add: 2, offset: -1}, {param, 3}: {to: param},
		{after, 0}: {to: begin, offset: 1}, {after, 1}: {err: true}, {after, 2}: {err: true}, {after, 3}: {err: true},
	}
	names := []string{"at a segment's beginning", "in a segment", "in a parameter", "behind a parameter"}
	added := func(q *Path, v *Term, w want, end *Term) bool {
		if w.add == 0 {
			return v == segs.Cur
		}
		if v == nil || v.op != OConcat || len(v.args) != 2 || v.args[0] != segs.Cur || v.args[1].op != OElems || len(v.args[1].args) != 1 {
			return false
		}
		el := v.args[1].args[0]
		nm, wl := mkFieldVal(el, r.segName, types.Typ[types.String]), mkFieldVal(el, r.segWild, types.Typ[types.Bool])
		if w.add == 2 != q.must(wl) || w.add != 2 && !q.mustNot(wl) {
			return false
		}
		if w.add == 3 {
			return q.must(mkIntEq(mkLen(nm), tZeroInt)) || nm == mkSliceT(tmpl, from, end)
		}
		return nm == mkSliceT(tmpl, from, end)
	}
	known := map[int64]int{s0: begin}
	work := []int64{s0}
	for len(work) > 0 {
		k := work[0]
		work = work[1:]
		R := known[k]
		is := pos(mkIntEq(st, mkInt(k)))
		for ci, cl := range classes {
			w := ref[[2]int{R, ci}]
			n := 0
			for _, q := range rec.Backs {
				if !q.feasible(append([]Lit{is}, cl.lits...)...) {
					continue
				}
				n++
				if !c.ob(!w.err, "parse:refused", q.Pos, "%s %s is accepted", cl.name, names[R]) {
					continue
				}
				nx := q.Next[state.Name]
				to, isC := nx.isInt()
				if nx == st {
					to, isC = k, true
				}
				if !c.ob(isC, "parse:next", q.Pos, "what follows %s %s isn't known", cl.name, names[R]) {
					continue
				}
				if old, have := known[to]; have {
					c.ob(old == w.to, "parse:step", q.Pos, "after %s %s the parser is %s, not %s", cl.name, names[R], names[old], names[w.to])
				} else {
					known[to] = w.to
					work = append(work, to)
				}
				o := q.Next[off.Name]
				c.ob(w.offset == -1 || w.offset == 0 && o == from || w.offset == 1 && q.equal(o, mkAddC(at, 1)), "parse:offset", q.Pos, "after %s %s the segment begins elsewhere: %s", cl.name, names[R], o)
				c.ob(added(q, q.Next[segs.Name], w, at), "parse:segment", q.Pos, "%s %s yields %s", cl.name, names[R], q.Next[segs.Name])
			}
			for _, p := range returns(ps) {
				if len(p.S.loopSeq) == 0 || p.must(mkGe(at, mkLen(tmpl))) || !p.feasible(append([]Lit{is}, cl.lits...)...) {
					continue
				}
				n++
				c.ob(w.err && isErr(p), "parse:accepted", p.Pos, "%s %s is refused", cl.name, names[R])
			}
			c.ob(n > 0, "parse:decided", fn.Pos(), "no path for %s %s", cl.name, names[R])
		}
		// the end
		n := 0
		for _, p := range returns(ps) {
			if len(p.S.loopSeq) == 0 || !p.must(mkGe(at, mkLen(tmpl))) || !p.feasible(is) {
				continue
			}
			n++
			if R == param {
				c.ob(isErr(p), "parse:end", p.Pos, "a parameter that isn't closed is accepted")
				continue
			}
			w := want{}
			if R == text {
				w.add = 1
			}
			got := mkFieldVal(p.Results[0], 0, r.insert.Params[1].Type())
			c.ob(p.must(mkEq(p.Results[1], tNil)) && added(p, got, w, mkLen(tmpl)), "parse:end", p.Pos, "a template that ends %s yields %s", names[R], got)
		}
		c.ob(n > 0, "parse:ends", fn.Pos(), "no path for a template that ends %s", names[R])
	}
	c.ob(len(known) == 4, "parse:states", fn.Pos(), "the parser has %d states where 4 are due", len(known))
}

package main

// Helpers for loops that walk a sequence from its start to its end: where an iteration stands, where
// the next one starts, and what lies in between. A walk may keep an index, or the rest of the
// sequence; both are expressed as (base, position).

import (
	"go/token"
	"go/types"
)

type cursor struct {
	name   string
	off    int64
	suffix bool
}

func (p *Path) loopVar(name string) *LoopVar {
	for i := len(p.S.loopSeq) - 1; i >= 0; i-- {
		for _, v := range p.S.loopSeq[i].Vars {
			if v.Name == name {
				return v
			}
		}
	}
	return nil
}

// cursorsOf: the loop variables that may be positions in src.
func cursorsOf(ps []*Path, src *Term) (out []cursor) {
	seen := map[string]bool{}
	for _, p := range ps {
		for _, r := range p.S.loopSeq {
			for _, v := range r.Vars {
				if seen[v.Name] {
					continue
				}
				if isNumTerm(v.Cur) {
					if n, ok := v.Entry.isInt(); ok {
						seen[v.Name] = true
						out = append(out, cursor{name: v.Name, off: -n})
					}
					continue
				}
				b, _, hi := seqParts(v.Entry)
				if b == src && p.S.F.eqInt(hi, mkLen(src)) {
					seen[v.Name] = true
					out = append(out, cursor{name: v.Name, suffix: true})
				}
			}
		}
	}
	return
}

// loopVars: the names of all loop variables satisfying a predicate.
func loopVars(ps []*Path, keep func(v *LoopVar) bool) (out []string) {
	seen := map[string]bool{}
	for _, p := range ps {
		for _, r := range p.S.loopSeq {
			for _, v := range r.Vars {
				if !seen[v.Name] && keep(v) {
					seen[v.Name] = true
					out = append(out, v.Name)
				}
			}
		}
	}
	return
}

// head: the base and position a path starts from.
func (cu cursor) head(p *Path, src *Term) (base, pos *Term) {
	v := p.loopVar(cu.name)
	if v == nil {
		return src, tZeroInt
	}
	if cu.suffix {
		b, lo, _ := seqParts(v.Cur)
		return b, lo
	}
	return src, mkAddC(v.Cur, cu.off)
}

// entryOK: the walk starts at the beginning.
func (cu cursor) entryOK(p *Path, src *Term) bool {
	v := p.loopVar(cu.name)
	if v == nil {
		return true
	}
	if cu.suffix {
		b, lo, hi := seqParts(v.Entry)
		return b == src && p.S.F.eqInt(lo, tZeroInt) && p.S.F.eqInt(hi, mkLen(src))
	}
	n, ok := v.Entry.isInt()
	return ok && n == -cu.off
}

// next: where the following iteration starts, in the coordinates of head.
func (cu cursor) next(p *Path, src *Term) *Term {
	nx := p.Next[cu.name]
	if nx == nil {
		return nil
	}
	base, _ := cu.head(p, src)
	if cu.suffix {
		nx = p.S.F.canon(nx)
		if p.S.F.entails(mkIntEq(mkLen(nx), tZeroInt)) {
			return mkLen(base)
		}
		b, lo, hi := seqParts(nx)
		if b != base || !p.S.F.eqInt(hi, mkLen(base)) {
			return nil
		}
		return lo
	}
	return mkAddC(nx, cu.off)
}

// firstByte: the first position in [pos, len(base)) holding one of the bytes; found tells whether
// there is one. ok is false when the facts don't settle it.
func (f *Facts) firstByte(base, pos *Term, bytes ...byte) (at *Term, found, ok bool) {
	m := maskOf(bytes...)
	for _, el := range f.elemAtoms() {
		if el.args[0] != base {
			continue
		}
		k := el.args[1]
		if f.byteSet(el).sub(m) && f.le(pos, k) && f.lt(k, mkLen(base)) && f.segAll(base, pos, k, m.not()) {
			return k, true, true
		}
	}
	if f.segAll(base, pos, mkLen(base), m.not()) {
		return mkLen(base), false, true
	}
	return nil, false, false
}

// isSlice: t is base[lo:hi] on the path.
func (p *Path) isSlice(t, base, lo, hi *Term) bool {
	t = p.S.F.canon(t)
	if p.S.F.eqInt(lo, hi) {
		return p.S.F.entails(mkIntEq(mkLen(t), tZeroInt))
	}
	b, l, h := seqParts(t)
	if b == base && p.S.F.eqInt(l, lo) && p.S.F.eqInt(h, hi) {
		return true
	}
	return p.equal(t, mkSliceT(base, lo, hi))
}

// noneBefore: no element of [lo,hi) satisfies the literal built from its index.
func (p *Path) noneBefore(lo, hi *Term, lit func(i *Term) *Term) bool {
	j := p.S.freshSym("any", types.Typ[types.Int])
	f := p.S.F.clone()
	if !f.assume(mkLe(lo, j), true) || !f.assume(mkLt(j, hi), true) || !f.assume(lit(j), true) {
		return true
	}
	return f.refuteDeep(3) || f.refuteAll(2)
}

// filterSpec decides that a function returns, in order, out(i) for exactly those elements i of src
// for which keep holds. keep returns (known, value) under a path's facts.
func (c *Ctx) filterSpec(key string, ps []*Path, src *Term, keep func(p *Path, base, i, out *Term) (bool, bool), img func(base, i *Term) *Term, result ...func(p *Path) *Term) bool {
	best := "no loop walks the stored elements"
	for _, cu := range cursorsOf(ps, src) {
		for _, ov := range loopVars(ps, func(v *LoopVar) bool { return v.Name != cu.name && isStringish(v.Cur.typ) }) {
			bad := ""
			fail := func(p *Path, m string) {
				if bad == "" {
					bad = m + " (path: " + p.describe(c) + ")"
				}
			}
			steps := 0
			for _, p := range ps {
				if !cu.entryOK(p, src) {
					fail(p, "the walk does not start at the first element")
				}
				base, at := cu.head(p, src)
				v := p.loopVar(ov)
				f := p.S.F
				switch p.Kind {
				case PBackEdge:
					if p.Next[cu.name] == nil {
						continue // an inner loop
					}
					steps++
					if v == nil || p.Next[ov] == nil {
						fail(p, "no result is kept")
						continue
					}
					if !f.entails(mkIntEq(mkLen(v.Entry), tZeroInt)) {
						fail(p, "the result does not start out empty")
					}
					nx := cu.next(p, src)
					if nx == nil || !f.eqInt(nx, mkAddC(at, 1)) {
						fail(p, "an iteration does not advance by one element")
					}
					if !f.lt(at, mkLen(base)) {
						fail(p, "an iteration may lie beyond the last element")
					}
					known, yes := keep(p, base, at, v.Cur)
					if !known {
						fail(p, "it is not settled whether the element belongs to the result")
						continue
					}
					want := v.Cur
					if yes {
						want = mkConcat(v.Cur, mkElems([]*Term{img(base, at)}))
					}
					if !p.equal(p.Next[ov], want) {
						fail(p, "the result becomes "+p.Next[ov].String()+" where "+want.String()+" is due")
					}
				case PReturn:
					if v == nil {
						// no walk on this path: only right for an empty source
						if !f.entails(mkIntEq(mkLen(src), tZeroInt)) {
							fail(p, "a result is returned without a walk")
						}
						continue
					}
					if !f.le(mkLen(base), at) {
						fail(p, "the walk ends before the last element")
					}
					r := p.Results[0]
					if len(result) > 0 {
						r = result[0](p)
					}
					if !p.equal(r, v.Cur) && !(f.entails(mkIntEq(mkLen(v.Cur), tZeroInt)) && f.entails(mkIntEq(mkLen(r), tZeroInt))) {
						fail(p, "the value returned is "+r.String())
					}
				case PPanic:
					fail(p, "a panic")
				}
			}
			if steps == 0 && bad == "" {
				bad = "no iteration"
			}
			if bad == "" {
				c.ob(true, key, ps[0].Pos, "")
				return true
			}
			best = bad
		}
	}
	c.ob(false, key, posOf0(ps), "%s", best)
	return false
}

func posOf0(ps []*Path) token.Pos {
	if len(ps) > 0 {
		return ps[0].Pos
	}
	return token.NoPos
}

func elemT(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Basic:
		return byteType
	}
	return nil
}

package main

// Facts: the abstract state's knowledge about terms on one trace partition.

import (
	"go/types"
	"math/bits"
)

type mask [4]uint64

var fullMask = mask{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

func maskOf(bs ...byte) (m mask) {
	for _, b := range bs {
		m[b>>6] |= 1 << (b & 63)
	}
	return
}
func (m mask) and(o mask) mask { return mask{m[0] & o[0], m[1] & o[1], m[2] & o[2], m[3] & o[3]} }
func (m mask) or(o mask) mask  { return mask{m[0] | o[0], m[1] | o[1], m[2] | o[2], m[3] | o[3]} }
func (m mask) not() mask       { return mask{^m[0], ^m[1], ^m[2], ^m[3]} }
func (m mask) empty() bool     { return m[0]|m[1]|m[2]|m[3] == 0 }
func (m mask) has(b byte) bool { return m[b>>6]>>(b&63)&1 == 1 }
func (m mask) sub(o mask) bool { return m.and(o.not()).empty() }
func (m mask) count() int {
	return bits.OnesCount64(m[0]) + bits.OnesCount64(m[1]) + bits.OnesCount64(m[2]) + bits.OnesCount64(m[3])
}

type Lit struct {
	t *Term
	v bool
}

// Seg: every element of base at an index in [lo,hi) lies in mask
type Seg struct {
	base, lo, hi *Term
	m            mask
}

// ForAll: for every integer h in [lo,hi): lit with □ := h
type ForAll struct {
	lo, hi *Term
	lit    Lit
	guards []Lit // the literal is only claimed where these hold
}

type Facts struct {
	lits    []Lit
	litset  map[*Term]bool
	lin     []linC
	diseq   []linC
	rep     map[*Term]*Term
	segs    []Seg
	foralls []ForAll
	bad     bool
}

func newFacts() *Facts {
	return &Facts{litset: map[*Term]bool{}, rep: map[*Term]*Term{}}
}

func (f *Facts) clone() *Facts {
	n := &Facts{
		lits: f.lits[:len(f.lits):len(f.lits)], lin: f.lin[:len(f.lin):len(f.lin)],
		diseq: f.diseq[:len(f.diseq):len(f.diseq)], segs: f.segs[:len(f.segs):len(f.segs)],
		foralls: f.foralls[:len(f.foralls):len(f.foralls)], bad: f.bad,
		litset: make(map[*Term]bool, len(f.litset)+4), rep: make(map[*Term]*Term, len(f.rep)+2),
	}
	for k, v := range f.litset {
		n.litset[k] = v
	}
	for k, v := range f.rep {
		n.rep[k] = v
	}
	return n
}

func (f *Facts) canon(t *Term) *Term {
	for i := 0; i < 50; i++ {
		r, ok := f.rep[t]
		if !ok {
			return t
		}
		t = r
	}
	return t
}

// canonDeep rewrites a term through the known equalities.
func (f *Facts) canonDeep(t *Term) *Term {
	if len(f.rep) == 0 {
		return t
	}
	return substTerm(t, f.rep, nil)
}

func rank(t *Term) int {
	switch t.op {
	case OConst, ONil:
		return 0
	case OGlobalVal:
		return 1
	case OIface, OFunc, OClosure:
		return 2
	}
	return 3
}

func (f *Facts) merge(a, b *Term) bool {
	a, b = f.canon(a), f.canon(b)
	if a == b {
		return true
	}
	if a.op == OConst && b.op == OConst {
		return false
	}
	if a.op == ONil && nonNil(b) || b.op == ONil && nonNil(a) {
		return false
	}
	if rank(a) > rank(b) || rank(a) == rank(b) && a.id > b.id {
		a, b = b, a
	}
	f.rep[b] = a
	// re-check disequalities
	for _, l := range f.lits {
		if !l.v && l.t.op == OEq && f.canon(l.t.args[0]) == f.canon(l.t.args[1]) {
			return false
		}
	}
	return true
}

func (f *Facts) addLin(c linC) bool {
	c.tighten()
	if len(c.m) == 0 {
		return c.c <= 0
	}
	f.lin = append(f.lin, c)
	return !f.infeasibleNear(c)
}

func neg(c linC) linC { // not (c <= 0)  ==  -c + 1 <= 0
	m := make(map[*Term]int64, len(c.m))
	for a, k := range c.m {
		m[a] = -k
	}
	return linC{m, -c.c + 1}
}

// related picks the constraints connected to the seed's atoms.
func (f *Facts) related(seed linC) ([]linC, []linC) {
	atoms := map[*Term]bool{}
	for a := range seed.m {
		atoms[a] = true
	}
	used := make([]bool, len(f.lin))
	cs := []linC{}
	for changed := true; changed; {
		changed = false
		for i, c := range f.lin {
			if used[i] {
				continue
			}
			hit := false
			for a := range c.m {
				if atoms[a] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				cs = append(cs, c)
				for a := range c.m {
					atoms[a] = true
				}
			}
		}
	}
	var ds []linC
	for _, d := range f.diseq {
		for a := range d.m {
			if atoms[a] {
				ds = append(ds, d)
				break
			}
		}
	}
	return cs, ds
}

func (f *Facts) infeasibleNear(seed linC) bool {
	cs, ds := f.related(seed)
	return infeasibleD(cs, ds)
}

func singleBounds(cs []linC, a *Term) (lo, hi int64, hasLo, hasHi bool) {
	if l, h := typeBounds(a); true {
		if l != nil {
			lo, hasLo = *l, true
		}
		if h != nil {
			hi, hasHi = *h, true
		}
	}
	for _, c := range cs {
		if len(c.m) != 1 {
			continue
		}
		k, ok := c.m[a]
		if !ok {
			continue
		}
		if k > 0 { // k*a <= -c
			b := floorDiv(-c.c, k)
			if !hasHi || b < hi {
				hi, hasHi = b, true
			}
		} else { // a >= ceil(c/-k)
			b := -floorDiv(-c.c, -k)
			b = -floorDiv(-c.c, abs64(k))
			if !hasLo || b > lo {
				lo, hasLo = b, true
			}
		}
	}
	return
}

func infeasibleD(cs, ds []linC) bool {
	if infeasible(cs) {
		return true
	}
	if len(ds) == 0 {
		return false
	}
	// single-atom disequalities by interval reasoning
	excl := map[*Term]map[int64]bool{}
	var multi []linC
	for _, d := range ds {
		if len(d.m) == 1 {
			for a, k := range d.m {
				if d.c%k == 0 {
					if excl[a] == nil {
						excl[a] = map[int64]bool{}
					}
					excl[a][-d.c/k] = true
				}
			}
		} else {
			multi = append(multi, d)
		}
	}
	cur := append([]linC{}, cs...)
	for round := 0; round < 4; round++ {
		changed := false
		for a, ex := range excl {
			lo, hi, hl, hh := singleBounds(cur, a)
			nlo, nhi := lo, hi
			for hl && ex[nlo] && (!hh || nlo <= nhi) {
				nlo++
			}
			for hh && ex[nhi] && (!hl || nlo <= nhi) {
				nhi--
			}
			if hl && hh && nlo > nhi {
				return true
			}
			if hl && nlo != lo {
				cur = append(cur, linC{map[*Term]int64{a: -1}, nlo})
				changed = true
			}
			if hh && nhi != hi {
				cur = append(cur, linC{map[*Term]int64{a: 1}, -nhi})
				changed = true
			}
		}
		if len(multi) <= 24 {
			for _, d := range multi {
				up := linC{d.m, d.c}         // d <= 0
				dn := neg(d)                 // d >= 1
				dn2 := linC{negm(d.m), -d.c} // d >= 0
				pos := infeasible(append(cur[:len(cur):len(cur)], dn))
				if pos { // d <= 0, hence d <= -1
					c := linC{d.m, d.c + 1}
					if !hasC(cur, c) {
						cur = append(cur, c)
						changed = true
					}
					continue
				}
				low := infeasible(append(cur[:len(cur):len(cur)], linC{d.m, d.c + 1}))
				_ = up
				_ = dn2
				if low { // d >= 0, hence d >= 1
					if !hasC(cur, dn) {
						cur = append(cur, dn)
						changed = true
					}
				}
			}
		}
		if !changed {
			return false
		}
		if infeasible(cur) {
			return true
		}
	}
	return false
}

func negm(m map[*Term]int64) map[*Term]int64 {
	r := make(map[*Term]int64, len(m))
	for a, k := range m {
		r[a] = -k
	}
	return r
}

func hasC(cs []linC, c linC) bool {
outer:
	for _, x := range cs {
		if x.c != c.c || len(x.m) != len(c.m) {
			continue
		}
		for a, k := range c.m {
			if x.m[a] != k {
				continue outer
			}
		}
		return true
	}
	return false
}

// entailsLin: is c <= 0 implied?
func (f *Facts) entailsLin(c linC) bool {
	if f.bad {
		return true
	}
	if len(c.m) == 0 {
		return c.c <= 0
	}
	n := neg(c)
	cs, ds := f.related(n)
	return infeasibleD(append(cs, n), ds)
}

// assume adds a literal; false means it contradicts what is known.
func (f *Facts) assume(t *Term, v bool) bool {
	if f.bad {
		return false
	}
	ok := f.assume1(t, v)
	if !ok {
		f.bad = true
	}
	return ok
}

// packedEq: bytes packed into a word, compared with a constant, are each compared with a byte of it.
func (f *Facts) packedEq(c linC) bool {
	if len(c.m) != 1 {
		return true
	}
	for a, k := range c.m {
		if a.op != OBin || a.name != "|" || k != 1 && k != -1 || byteSized(a.typ) {
			return true
		}
		word := -c.c
		if k == -1 {
			word = c.c
		}
		type leaf struct {
			t  *Term
			sh uint
		}
		var ls []leaf
		ok := true
		var walk func(t *Term, sh uint)
		walk = func(t *Term, sh uint) {
			if n, is := t.isInt(); is && n == 0 {
				return
			}
			if byteSized(t.typ) {
				ls = append(ls, leaf{t, sh})
				return
			}
			if t.op == OBin && t.name == "|" {
				walk(t.args[0], sh)
				walk(t.args[1], sh)
				return
			}
			if t.op == OBin && t.name == "<<" {
				if n, is := t.args[1].isInt(); is && n >= 0 && int64(sh)+n <= 56 {
					walk(t.args[0], sh+uint(n))
					return
				}
			}
			ok = false
		}
		walk(a, 0)
		var used uint64
		for _, l := range ls {
			b := uint64(0xff) << l.sh
			if used&b != 0 {
				ok = false
			}
			used |= b
		}
		if !ok {
			return true
		}
		if uint64(word)&^used != 0 {
			return false
		}
		for _, l := range ls {
			if !f.assume1(mkIntEq(l.t, mkInt(int64(uint64(word)>>l.sh&0xff))), true) {
				return false
			}
		}
	}
	return true
}

func byteSized(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

func (f *Facts) assume1(t *Term, v bool) bool {
	if b, ok := t.isBool(); ok {
		return b == v
	}
	if t.op == ONot {
		return f.assume1(t.args[0], !v)
	}
	if old, ok := f.litset[t]; ok {
		return old == v
	}
	if known, val := f.decide(t); known {
		if val != v {
			return false
		}
		if t.op != OIsType && t.op != OSym && t.op != OCall {
			// still record: rules look literals up
		}
	}
	f.litset[t] = v
	f.lits = append(f.lits, Lit{t, v})
	switch t.op {
	case OLe:
		c := toLinC(t.args[0])
		if !v {
			c = neg(c)
		}
		return f.addLin(c)
	case OEqZ:
		c := toLinC(t.args[0])
		if v {
			if !f.addLin(c) {
				return false
			}
			if !f.addLin(linC{negm(c.m), -c.c}) {
				return false
			}
			return f.packedEq(c)
		}
		f.diseq = append(f.diseq, c)
		return !f.infeasibleNear(c)
	case OEq:
		a, b := t.args[0], t.args[1]
		if v {
			if !f.merge(a, b) {
				return false
			}
			if s, ok := b.isStr(); ok {
				return f.bytesAre(a, tZeroInt, s, true)
			}
			if s, ok := a.isStr(); ok {
				return f.bytesAre(b, tZeroInt, s, true)
			}
			if b.op == ONil && isStringish(a.typ) {
				return f.assume1(mkIntEq(mkLen(a), tZeroInt), true)
			}
			if a.op == ONil && isStringish(b.typ) {
				return f.assume1(mkIntEq(mkLen(b), tZeroInt), true)
			}
			if isStringish(a.typ) && isStringish(b.typ) {
				return f.assume1(mkIntEq(mkLen(a), mkLen(b)), true)
			}
			return true
		}
		return f.canon(a) != f.canon(b)
	case OPrefix:
		if s, ok := t.args[1].isStr(); ok && v {
			return f.bytesAre(t.args[0], tZeroInt, s, false)
		}
		if v {
			return f.assume1(mkLe(mkLen(t.args[1]), mkLen(t.args[0])), true)
		}
	case OSuffix:
		if s, ok := t.args[1].isStr(); ok && v {
			return f.bytesAre(t.args[0], mkAddC(mkLen(t.args[0]), -int64(len(s))), s, false)
		}
		if v {
			return f.assume1(mkLe(mkLen(t.args[1]), mkLen(t.args[0])), true)
		}
	case OIsType:
		if v {
			return f.assume1(mkEq(t.args[0], tNil), false)
		}
	}
	return true
}

var byteType = types.Typ[types.Uint8]

// bytesAre assumes x[off:off+len(s)] == s (and, if exact, len(x) == len(s)).
func (f *Facts) bytesAre(x, off *Term, s string, exact bool) bool {
	l := mkLen(x)
	if exact {
		if !f.assume1(mkIntEq(l, mkInt(int64(len(s)))), true) {
			return false
		}
	} else if !f.assume1(mkLe(mkInt(int64(len(s))), l), true) {
		return false
	}
	if len(s) > 24 {
		return true
	}
	for i := 0; i < len(s); i++ {
		e := mkElem(x, mkAddC(off, int64(i)), byteType)
		if !f.assume1(mkIntEq(e, mkInt(int64(s[i]))), true) {
			return false
		}
		if m := f.elemMask(e); m.empty() {
			return false
		}
	}
	return true
}

// decideBytes: is x[off:off+len(s)] == s?
func (f *Facts) decideBytes(x, off *Term, s string, exact bool) (bool, bool) {
	l := mkLen(x)
	var lenLit *Term
	if exact {
		lenLit = mkIntEq(l, mkInt(int64(len(s))))
	} else {
		lenLit = mkLe(mkInt(int64(len(s))), l)
	}
	k, v := f.decide(lenLit)
	if k && !v {
		return true, false
	}
	all := k && len(s) <= 24
	for i := 0; i < len(s) && i < 24; i++ {
		e := mkElem(x, mkAddC(off, int64(i)), byteType)
		if n, ok := e.isInt(); ok {
			if n != int64(s[i]) {
				return true, false
			}
			continue
		}
		m := f.elemMask(e)
		if !m.has(s[i]) {
			return true, false
		}
		if m.count() != 1 {
			all = false
		}
	}
	return all, all
}

// decide evaluates a boolean term under the facts.
func (f *Facts) decide(t *Term) (known, val bool) {
	if b, ok := t.isBool(); ok {
		return true, b
	}
	if v, ok := f.litset[t]; ok {
		return true, v
	}
	switch t.op {
	case ONot:
		k, v := f.decide(t.args[0])
		return k, !v
	case OLe:
		c := toLinC(t.args[0])
		if f.entailsLin(c) {
			return true, true
		}
		if f.entailsLin(neg(c)) {
			return true, false
		}
	case OEqZ:
		c := toLinC(t.args[0])
		if len(c.m) == 1 {
			// one atom against a constant: masks and exclusions first
			for a, k := range c.m {
				if a.op == OElem && c.c%k == 0 {
					n := -c.c / k
					m := f.elemMask(a)
					if n < 0 || n > 255 || !m.has(byte(n)) {
						return true, false
					}
					if m.count() == 1 {
						return true, true
					}
				}
			}
		}
		le, ge := f.entailsLin(c), f.entailsLin(linC{negm(c.m), -c.c})
		if le && ge {
			return true, true
		}
		if f.entailsLin(neg(linC{negm(c.m), -c.c})) || f.entailsLin(linC{c.m, c.c + 1}) || f.entailsLin(neg(c)) {
			return true, false
		}
		// refute equality
		cs, ds := f.related(c)
		cs = append(cs, c, linC{negm(c.m), -c.c})
		if infeasibleD(cs, ds) {
			return true, false
		}
	case OEq:
		a, b := f.canon(t.args[0]), f.canon(t.args[1])
		if a != t.args[0] || b != t.args[1] {
			e := mkEq(a, b)
			if v, ok := e.isBool(); ok {
				return true, v
			}
			if e != t {
				if v, ok := f.litset[e]; ok {
					return true, v
				}
			}
		}
		if s, ok := b.isStr(); ok {
			return f.decideBytes(a, tZeroInt, s, true)
		}
		if s, ok := a.isStr(); ok {
			return f.decideBytes(b, tZeroInt, s, true)
		}
		if b.op == ONil && isSliceT(a.typ) {
			// non-empty slices are not nil
			if f.entailsLin(toLinC(mkSub(mkInt(1), mkLen(a)))) {
				return true, false
			}
		}
		// disequality through representatives
		for _, l := range f.lits {
			if !l.v && l.t.op == OEq {
				x, y := f.canon(l.t.args[0]), f.canon(l.t.args[1])
				if x == a && y == b || x == b && y == a {
					return true, false
				}
			}
		}
		// different contents by length
		if isStringish(a.typ) && isStringish(b.typ) && a.op != ONil && b.op != ONil {
			if k, v := f.decide(mkIntEq(mkLen(a), mkLen(b))); k && !v {
				return true, false
			}
		}
	case OPrefix:
		if s, ok := t.args[1].isStr(); ok {
			return f.decideBytes(t.args[0], tZeroInt, s, false)
		}
	case OSuffix:
		if s, ok := t.args[1].isStr(); ok {
			return f.decideBytes(t.args[0], mkAddC(mkLen(t.args[0]), -int64(len(s))), s, false)
		}
	case OEqFold:
		for i := 0; i < 2; i++ {
			if s, ok := t.args[i].isStr(); ok {
				o := t.args[1-i]
				if k, v := f.decide(mkEq(o, mkStr(s))); k && v {
					return true, true
				}
			}
		}
	case OIsType:
		x := f.canon(t.args[0])
		if x.op == ONil {
			return true, false
		}
		if i := ifaceOf(x); i != nil {
			return true, typeMatches(i.typ, t.typ)
		}
		if v, ok := f.litset[mkEq(x, tNil)]; ok && v {
			return true, false
		}
	}
	return false, false
}

func isSliceT(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func typeMatches(dyn, want types.Type) bool {
	if it, ok := want.Underlying().(*types.Interface); ok {
		return types.Implements(dyn, it)
	}
	return types.Identical(dyn, want)
}

func (f *Facts) entails(t *Term) bool { k, v := f.decide(t); return f.bad || k && v }
func (f *Facts) refutes(t *Term) bool { k, v := f.decide(t); return f.bad || k && !v }

func (f *Facts) le(a, b *Term) bool { return f.entailsLin(toLinC(mkSub(a, b))) }
func (f *Facts) lt(a, b *Term) bool { return f.entailsLin(toLinC(mkAddC(mkSub(a, b), 1))) }
func (f *Facts) eqInt(a, b *Term) bool {
	return a == b || f.le(a, b) && f.le(b, a)
}

// elemMask: the possible values of a byte-sized atom.
func (f *Facts) elemMask(e *Term) mask {
	m := f.elemMask1(e)
	if e.op != OElem || m.count() <= 1 {
		return m
	}
	// what is known of the same element under another index expression
	for _, o := range f.elemAtoms() {
		if o == e || o.args[0] != e.args[0] {
			continue
		}
		mo := f.elemMask1(o)
		if m.sub(mo) {
			continue
		}
		if f.eqInt(o.args[1], e.args[1]) {
			m = m.and(mo)
		}
	}
	return m
}

func (f *Facts) elemMask1(e *Term) mask {
	if n, ok := e.isInt(); ok {
		if n >= 0 && n < 256 {
			return maskOf(byte(n))
		}
		return mask{}
	}
	m := fullMask
	lo, hi, _, _ := singleBounds(f.lin, e)
	_, _, hl, hh := singleBounds(f.lin, e)
	if hl || hh {
		for i := 0; i < 256; i++ {
			if hl && int64(i) < lo || hh && int64(i) > hi {
				m[i>>6] &^= 1 << (i & 63)
			}
		}
	}
	for _, d := range f.diseq {
		if len(d.m) == 1 {
			if k, ok := d.m[e]; ok && d.c%k == 0 {
				if n := -d.c / k; n >= 0 && n < 256 {
					m = m.and(maskOf(byte(n)).not())
				}
			}
		}
	}
	if e.op == OElem {
		for _, s := range f.segs {
			if s.base != e.args[0] {
				continue
			}
			if m.sub(s.m) {
				continue
			}
			if f.le(s.lo, e.args[1]) && f.lt(e.args[1], s.hi) {
				m = m.and(s.m)
			}
		}
		for _, l := range f.lits {
			// a sequence known not to start or end with a byte
			if l.v || l.t.op != OPrefix && l.t.op != OSuffix {
				continue
			}
			c, ok := l.t.args[1].isStr()
			if !ok || len(c) != 1 || !m.has(c[0]) {
				continue
			}
			b, lo, hi := seqParts(f.canon(l.t.args[0]))
			at := lo
			if l.t.op == OSuffix {
				at = mkAddC(hi, -1)
			}
			if b == e.args[0] && f.lt(lo, hi) && f.eqInt(at, e.args[1]) {
				m = m.and(maskOf(c[0]).not())
			}
		}
	}
	return m
}

// segAll: do all elements of base in [lo,hi) lie in m?
// segAll: every byte of base[lo:hi] lies in the mask; several partial segments may say so together.
func (f *Facts) segAll(base, lo, hi *Term, m mask) bool {
	if f.segAll1(base, lo, hi, m) {
		return true
	}
	if n := m.not().count(); n < 2 || n > 6 {
		return false
	}
	for b := 0; b < 256; b++ {
		if !m.has(byte(b)) && !f.segAll1(base, lo, hi, maskOf(byte(b)).not()) {
			return false
		}
	}
	return true
}

func (f *Facts) segAll1(base, lo, hi *Term, m mask) bool {
	if s, ok := base.isStr(); ok {
		l, ok1 := lo.isInt()
		h, ok2 := hi.isInt()
		if ok1 && ok2 {
			for i := l; i < h && i < int64(len(s)); i++ {
				if !m.has(s[i]) {
					return false
				}
			}
			return true
		}
	}
	cur := lo
	for step := 0; step < 12; step++ {
		if f.le(hi, cur) {
			return true
		}
		adv := false
		for _, s := range f.segs {
			if s.base == base && s.m.sub(m) && f.le(s.lo, cur) && f.lt(cur, s.hi) {
				cur = s.hi
				adv = true
				break
			}
		}
		if adv {
			continue
		}
		if f.elemMask(mkElem(base, cur, byteType)).sub(m) {
			cur = mkAddC(cur, 1)
			continue
		}
		// a segment that may be empty at cur: try to skip over "cur == hi" alternatives
		for _, s := range f.segs {
			if s.base == base && s.m.sub(m) && f.le(s.lo, cur) && f.le(cur, s.hi) && s.hi != cur {
				cur = s.hi
				adv = true
				break
			}
		}
		if !adv {
			return false
		}
	}
	return false
}

// refute: are the facts plus the literals contradictory? Splits on the relative position of
// element facts and segments, up to a small depth.
func (f *Facts) refute(lits ...Lit) bool {
	g := f.clone()
	for _, l := range lits {
		if !g.assume(l.t, l.v) {
			return true
		}
	}
	return g.refuteDeep(4)
}

func (f *Facts) elemAtoms() []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	add := func(m map[*Term]int64) {
		for a := range m {
			if a.op == OElem && !seen[a] {
				seen[a] = true
				out = append(out, a)
			}
		}
	}
	for _, c := range f.lin {
		add(c.m)
	}
	for _, c := range f.diseq {
		add(c.m)
	}
	sortTerms(out)
	return out
}

func (f *Facts) refuteDeep(depth int) bool {
	if f.bad {
		return true
	}
	elems := f.elemAtoms()
	for _, e := range elems {
		if f.elemMask(e).empty() {
			return true
		}
	}
	for _, l := range f.lits {
		if l.t.op != OEq && l.t.op != OPrefix && l.t.op != OSuffix {
			continue
		}
		x, off, exact := l.t.args[0], tZeroInt, l.t.op == OEq
		str, ok := l.t.args[1].isStr()
		if !ok && exact {
			str, ok = x.isStr()
			x = l.t.args[1]
		}
		if !ok {
			continue
		}
		if l.t.op == OSuffix {
			off = mkAddC(mkLen(x), -int64(len(str)))
		}
		if k, v := f.decideBytes(x, off, str, exact); k && v != l.v {
			return true
		}
	}
	if depth == 0 {
		return false
	}
	for _, e := range elems {
		me := f.elemMask(e)
		if me == fullMask {
			continue
		}
		for _, s := range f.segs {
			if s.base != e.args[0] || !me.and(s.m).empty() {
				continue
			}
			if f.lt(e.args[1], s.lo) || f.le(s.hi, e.args[1]) {
				continue
			}
			// must lie outside the segment
			a := f.clone()
			okA := a.assume(mkLt(e.args[1], s.lo), true)
			if okA && !a.refuteDeep(depth-1) {
				return false
			}
			b := f.clone()
			okB := b.assume(mkLe(s.hi, e.args[1]), true)
			return !okB || b.refuteDeep(depth-1)
		}
		for _, e2 := range elems {
			if e2.id <= e.id || e2.args[0] != e.args[0] || e2 == e {
				continue
			}
			if !me.and(f.elemMask(e2)).empty() {
				continue
			}
			if f.lt(e.args[1], e2.args[1]) || f.lt(e2.args[1], e.args[1]) {
				continue
			}
			a := f.clone()
			okA := a.assume(mkLt(e.args[1], e2.args[1]), true)
			if okA && !a.refuteDeep(depth-1) {
				return false
			}
			b := f.clone()
			okB := b.assume(mkLt(e2.args[1], e.args[1]), true)
			return !okB || b.refuteDeep(depth-1)
		}
	}
	return false
}

// entailsDeep: entailment with splitting.
func (f *Facts) entailsDeep(t *Term) bool {
	if f.entails(t) {
		return true
	}
	g := f.clone()
	return !g.assume(t, false) || g.refuteAll(4)
}

// refuteAll is refuteDeep with the facts about all elements a loop stepped over, instantiated at the
// positions the facts mention.
func (f *Facts) refuteAll(depth int) bool {
	if f.bad {
		return true
	}
	if len(f.foralls) == 0 {
		return f.refuteDeep(depth)
	}
	g := f.clone()
	return g.clauses(depth)
}

func (f *Facts) clauses(depth int) bool {
	for round := 0; round < 6; round++ {
		// positions at which some sequence is looked at
		at := map[*Term][]*Term{}
		seen := map[*Term]bool{}
		for _, l := range f.lits {
			walkTerm(l.t, func(x *Term) {
				if x.op == OElem && !seen[x] {
					seen[x] = true
					at[x.args[0]] = append(at[x.args[0]], x.args[1])
				}
			})
		}
		progress := false
		var split []Lit
		for _, fa := range f.foralls {
			done := map[*Term]bool{}
			var elems []*Term
			walkTerm(fa.lit.t, func(x *Term) {
				if x.op == OElem && contains(x.args[1], hole) {
					elems = append(elems, x)
				}
			})
			for _, el := range elems {
				c := mkSub(el.args[1], hole)
				if contains(c, hole) {
					continue
				}
				for _, idx := range at[el.args[0]] {
					j := mkSub(idx, c)
					if done[j] {
						continue
					}
					done[j] = true
					m := map[*Term]*Term{hole: j}
					cl := []Lit{not(mkLe(fa.lo, j)), not(mkLt(j, fa.hi)), {substTerm(fa.lit.t, m, nil), fa.lit.v}}
					for _, g := range fa.guards {
						cl = append(cl, Lit{substTerm(g.t, m, nil), !g.v})
					}
					var open []Lit
					sat := false
					for _, l := range cl {
						k, v := f.decide(l.t)
						if k && v == l.v {
							sat = true
							break
						}
						if !k {
							open = append(open, l)
						}
					}
					if sat {
						continue
					}
					switch len(open) {
					case 0:
						return true
					case 1:
						if !f.assume(open[0].t, open[0].v) {
							return true
						}
						progress = true
					default:
						if split == nil || len(open) < len(split) {
							split = open
						}
					}
				}
			}
		}
		if progress {
			continue
		}
		if f.refuteDeep(depth) {
			return true
		}
		if split == nil || depth == 0 {
			return false
		}
		for i, l := range split {
			g := f.clone()
			ok := true
			for _, o := range split[:i] {
				ok = ok && g.assume(o.t, !o.v)
			}
			ok = ok && g.assume(l.t, l.v)
			if ok && !g.clauses(depth-1) {
				return false
			}
		}
		return true
	}
	return f.refuteDeep(depth)
}

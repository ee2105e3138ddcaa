package main

// The numeric part of the abstract domain: conjunctions of linear inequalities over value
// numbers, with entailment decided by variable elimination (Fourier-Motzkin with integer
// tightening). All answers are one-sided: "not shown" never means "false".

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

const tokEQL = token.EQL

// linC is sum coef*atom + c <= 0
type linC struct {
	m map[*Term]int64
	c int64
}

func toLinC(t *Term) linC {
	n, cs, as := linParts(t)
	m := make(map[*Term]int64, len(as))
	for i, a := range as {
		m[a] = cs[i]
	}
	return linC{m, n}
}

func abs64(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

func gcd64(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return abs64(a)
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func (l *linC) tighten() {
	var g int64
	for _, c := range l.m {
		g = gcd64(g, c)
	}
	if g > 1 {
		for a := range l.m {
			l.m[a] /= g
		}
		// sum <= -c  =>  sum/g <= floor(-c/g)
		l.c = -floorDiv(-l.c, g)
	}
}

const linMax = int64(1) << 61

func mulOK(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	r := a * b
	if r/b != a || abs64(r) > linMax {
		return 0, false
	}
	return r, true
}

// typeBounds yields the implicit bounds of an atom.
func typeBounds(a *Term) (lo, hi *int64) {
	z := int64(0)
	if a.op == OLen || a.op == OCap {
		return &z, nil
	}
	if a.typ == nil {
		return nil, nil
	}
	b, ok := a.typ.Underlying().(*types.Basic)
	if !ok {
		return nil, nil
	}
	v := func(x int64) *int64 { return &x }
	switch b.Kind() {
	case types.Uint8:
		return &z, v(255)
	case types.Uint16:
		return &z, v(65535)
	case types.Uint32:
		return &z, v(1<<32 - 1)
	case types.Uint, types.Uint64, types.Uintptr:
		return &z, nil
	case types.Int8:
		return v(-128), v(127)
	case types.Int16:
		return v(-32768), v(32767)
	case types.Int32:
		return v(-1 << 31), v(1<<31 - 1)
	}
	return nil, nil
}

// sc is linC with its atoms in order.
type sc struct {
	v []*Term
	k []int64
	c int64
}

func (c *sc) coef(v *Term) int64 {
	for i, a := range c.v {
		if a == v {
			return c.k[i]
		}
	}
	return 0
}

func (c *sc) tighten() {
	var g int64
	for _, k := range c.k {
		g = gcd64(g, k)
		if g == 1 {
			return
		}
	}
	if g > 1 {
		for i := range c.k {
			c.k[i] /= g
		}
		c.c = -floorDiv(-c.c, g)
	}
}

func toSC(l linC) sc {
	r := sc{make([]*Term, 0, len(l.m)), make([]int64, len(l.m)), l.c}
	for a, k := range l.m {
		if k == 0 {
			continue
		}
		r.v = append(r.v, a)
	}
	for i := 1; i < len(r.v); i++ {
		for j := i; j > 0 && r.v[j].id < r.v[j-1].id; j-- {
			r.v[j], r.v[j-1] = r.v[j-1], r.v[j]
		}
	}
	r.k = r.k[:len(r.v)]
	for i, a := range r.v {
		r.k[i] = l.m[a]
	}
	r.tighten()
	return r
}

// combine eliminates v from a constraint with a positive and one with a negative coefficient.
func combine(p, n *sc, v *Term) (r sc, ok bool) {
	cp, cn := p.coef(v), -n.coef(v)
	g := gcd64(cp, cn)
	kp, kn := cn/g, cp/g
	r.v = make([]*Term, 0, len(p.v)+len(n.v)-2)
	r.k = make([]int64, 0, len(p.v)+len(n.v)-2)
	i, j := 0, 0
	for i < len(p.v) || j < len(n.v) {
		var a *Term
		var x, y int64
		ok1, ok2 := true, true
		switch {
		case j == len(n.v) || i < len(p.v) && p.v[i].id < n.v[j].id:
			a = p.v[i]
			x, ok1 = mulOK(p.k[i], kp)
			i++
		case i == len(p.v) || n.v[j].id < p.v[i].id:
			a = n.v[j]
			y, ok2 = mulOK(n.k[j], kn)
			j++
		default:
			a = p.v[i]
			x, ok1 = mulOK(p.k[i], kp)
			y, ok2 = mulOK(n.k[j], kn)
			i++
			j++
		}
		if a == v {
			continue
		}
		if !ok1 || !ok2 {
			return r, false
		}
		x += y
		if x == 0 {
			continue
		}
		if abs64(x) > linMax {
			return r, false
		}
		r.v = append(r.v, a)
		r.k = append(r.k, x)
	}
	x, ok1 := mulOK(p.c, kp)
	y, ok2 := mulOK(n.c, kn)
	if !ok1 || !ok2 || abs64(x) > linMax/2 || abs64(y) > linMax/2 {
		return r, false
	}
	r.c = x + y
	r.tighten()
	return r, true
}

func (c *sc) hash() (h uint64) {
	h = 1469598103934665603
	for i, a := range c.v {
		h = (h ^ uint64(a.id)) * 1099511628211
		h = (h ^ uint64(c.k[i])) * 1099511628211
	}
	return
}

func (c *sc) sameLeft(o *sc) bool {
	if len(c.v) != len(o.v) {
		return false
	}
	for i, a := range c.v {
		if a != o.v[i] || c.k[i] != o.k[i] {
			return false
		}
	}
	return true
}

func dedupC(cs []sc) []sc {
	if len(cs) < 2 {
		return cs
	}
	seen := make(map[uint64]int, len(cs))
	out := cs[:0]
next:
	for _, c := range cs {
		h := c.hash()
		for {
			i, ok := seen[h]
			if !ok {
				break
			}
			if out[i].sameLeft(&c) {
				if c.c > out[i].c {
					out[i].c = c.c
				}
				continue next
			}
			h++
		}
		seen[h] = len(out)
		out = append(out, c)
	}
	return out
}

var infMemo = map[string]bool{}

// infeasible tells whether the constraints (each <= 0) have no integer solution. It may answer
// false for an infeasible system, never true for a feasible one.
func infeasible(cs []linC) bool {
	work := make([]sc, 0, len(cs)*2)
	for _, c := range cs {
		work = append(work, toSC(c))
	}
	work = dedupC(work)
	ks := make([]string, len(work))
	for i := range work {
		b := make([]byte, 0, 16*len(work[i].v)+8)
		for j, a := range work[i].v {
			b = appendInt(b, int64(a.id))
			b = append(b, ':')
			b = appendInt(b, work[i].k[j])
			b = append(b, ',')
		}
		ks[i] = string(appendInt(b, work[i].c))
	}
	sort.Strings(ks)
	key := strings.Join(ks, ";")
	if r, ok := infMemo[key]; ok {
		return r
	}
	if len(infMemo) > 400000 {
		infMemo = map[string]bool{}
	}
	r := infeasible1(work)
	infMemo[key] = r
	return r
}

func infeasible1(work []sc) bool {
	// implicit bounds
	seen := map[*Term]bool{}
	for _, c := range work[:len(work):len(work)] {
		for _, a := range c.v {
			if seen[a] {
				continue
			}
			seen[a] = true
			lo, hi := typeBounds(a)
			if lo != nil {
				work = append(work, sc{[]*Term{a}, []int64{-1}, *lo})
			}
			if hi != nil {
				work = append(work, sc{[]*Term{a}, []int64{1}, -*hi})
			}
		}
	}
	type occ struct{ pos, neg int }
	for {
		// constants
		out := work[:0]
		for _, c := range work {
			if len(c.v) == 0 {
				if c.c > 0 {
					return true
				}
				continue
			}
			out = append(out, c)
		}
		work = dedupC(out)
		if len(work) == 0 {
			return false
		}
		// choose the variable with the least blow-up
		cnt := map[*Term]occ{}
		for i := range work {
			for j, a := range work[i].v {
				o := cnt[a]
				if work[i].k[j] > 0 {
					o.pos++
				} else {
					o.neg++
				}
				cnt[a] = o
			}
		}
		var best *Term
		bc := int(1 << 30)
		for v, o := range cnt {
			k := o.pos*o.neg - o.pos - o.neg
			if k < bc || k == bc && v.id < best.id {
				best, bc = v, k
			}
		}
		o := cnt[best]
		if o.pos*o.neg > 1500 {
			return false
		}
		ps, ns := make([]*sc, 0, o.pos), make([]*sc, 0, o.neg)
		rest := make([]sc, 0, len(work)+bc)
		for i := range work {
			switch k := work[i].coef(best); {
			case k > 0:
				ps = append(ps, &work[i])
			case k < 0:
				ns = append(ns, &work[i])
			default:
				rest = append(rest, work[i])
			}
		}
		for _, p := range ps {
			for _, n := range ns {
				r, ok := combine(p, n, best)
				if !ok {
					continue // dropping a consequence only weakens
				}
				if len(r.v) == 0 && r.c > 0 {
					return true
				}
				rest = append(rest, r)
			}
		}
		if len(rest) > 3000 {
			return false
		}
		work = rest
	}
}

func appendInt(b []byte, n int64) []byte { return strconv.AppendInt(b, n, 10) }

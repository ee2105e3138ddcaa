package main

// What ends up in an output buffer, as a sequence of pieces: constant bytes, values, and loops that
// append something per iteration.

import "fmt"

type piece struct {
	s    string   // constant bytes, or
	t    *Term    // a value, or
	loop *LoopRec // what the iterations of a loop appended, to this variable
	lv   *LoopVar
}

func (p piece) String() string {
	switch {
	case p.loop != nil:
		return "loop@" + p.lv.Name
	case p.t != nil:
		return p.t.String()
	}
	return fmt.Sprintf("%q", p.s)
}

// rope flattens a buffer's value down to stop.
func (p *Path) rope(t, stop *Term) (out []piece, ok bool) {
	ok = true
	add := func(x piece) {
		if x.t == nil && x.loop == nil && len(out) > 0 && out[len(out)-1].t == nil && out[len(out)-1].loop == nil {
			out[len(out)-1].s += x.s
			return
		}
		out = append(out, x)
	}
	var first func(t *Term)
	var flat func(t *Term, lead bool)
	flat = func(t *Term, lead bool) {
		t = p.S.F.canon(t)
		if t == stop {
			if !lead {
				ok = false
			}
			return
		}
		if s, is := t.isStr(); is {
			if s != "" {
				add(piece{s: s})
			}
			return
		}
		switch t.op {
		case OConcat:
			for i, a := range t.args {
				flat(a, lead && i == 0)
			}
			return
		case OElems:
			for _, a := range t.args {
				if n, is := p.S.F.canon(a).isInt(); is {
					add(piece{s: string([]byte{byte(n)})})
				} else {
					add(piece{t: a})
				}
			}
			return
		}
		if lead {
			first(t)
			return
		}
		if p.S.F.entails(mkIntEq(mkLen(t), tZeroInt)) {
			return
		}
		add(piece{t: t})
	}
	first = func(t *Term) {
		for i := len(p.S.loopSeq) - 1; i >= 0; i-- {
			r := p.S.loopSeq[i]
			if v := r.byCur(t); v != nil && v.Entry != t {
				flat(v.Entry, true)
				out = append(out, piece{loop: r, lv: v})
				return
			}
		}
		if p.S.F.entails(mkIntEq(mkLen(t), tZeroInt)) {
			return
		}
		add(piece{t: t})
	}
	flat(t, true)
	return
}

func ropeString(ps []piece) string {
	s := ""
	for i, p := range ps {
		if i > 0 {
			s += " + "
		}
		s += p.String()
	}
	return s
}

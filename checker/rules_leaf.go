package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C05", "Inductive check of the decoding loop by abstract interpretation: every iteration appends exactly the decoding of the bytes it consumes, every result is completed by an escape-free rest, and an error is returned only in front of a malformed escape.", 8, ruleC05)
	register("C06", "Path-sensitive abstract interpretation of path normalisation against its functional specification.", 3, ruleC06)
	register("C07", "Path-sensitive abstract interpretation of host normalisation against its functional specification, case by case.", 8, ruleC07)
	register("C08", "Path-sensitive abstract interpretation of the address helpers against their functional specification.", 6, ruleC08)
}

var hexMask = func() (m mask) {
	for _, b := range []byte("0123456789abcdefABCDEF") {
		m = m.or(maskOf(b))
	}
	return
}()

func hexVal(b byte) int64 {
	switch {
	case b >= '0' && b <= '9':
		return int64(b - '0')
	case b >= 'a' && b <= 'f':
		return int64(b-'a') + 10
	}
	return int64(b-'A') + 10
}

// concatParts flattens a sequence value.
func concatParts(t *Term) []*Term {
	if t.op == OConcat {
		var out []*Term
		for _, a := range t.args {
			out = append(out, concatParts(a)...)
		}
		return out
	}
	return []*Term{t}
}

// pctWalk: do the parts spell the percent-decoding of src from position pos on? Returns the position
// after what they decode.
func pctWalk(f *Facts, src, pos *Term, parts []*Term) (*Term, string) {
	noPct := maskOf('%').not()
	for _, part := range parts {
		base, lo, hi := seqParts(part)
		if base == src {
			if f.eqInt(lo, hi) {
				continue
			}
			if !f.eqInt(lo, pos) {
				return nil, fmt.Sprintf("input from %s is copied where input from %s is due", lo, pos)
			}
			if !f.segAll(src, lo, hi, noPct) {
				return nil, fmt.Sprintf("input [%s,%s), which may contain an escape, is copied undecoded", lo, hi)
			}
			pos = hi
			continue
		}
		var els []*Term
		switch {
		case part.op == OElems:
			els = part.args
		default:
			if s, ok := part.isStr(); ok {
				for i := 0; i < len(s); i++ {
					els = append(els, mkInt(int64(s[i])))
				}
			} else {
				return nil, fmt.Sprintf("%s is not made of the input", part)
			}
		}
		for _, el := range els {
			cur := mkElem(src, pos, byteType)
			set := f.byteSet(cur)
			if f.canon(el) == f.canon(cur) && !set.has('%') {
				pos = mkAddC(pos, 1)
				continue
			}
			if set != maskOf('%') {
				return nil, fmt.Sprintf("a byte is written for input position %s, which isn't known to hold '%%'", pos)
			}
			if !f.le(mkAddC(pos, 3), mkLen(src)) {
				return nil, "an escape is decoded although it may be cut off by the end of the input"
			}
			e1, e2 := f.canon(mkElem(src, mkAddC(pos, 1), byteType)), f.canon(mkElem(src, mkAddC(pos, 2), byteType))
			m1, m2 := f.byteSet(e1), f.byteSet(e2)
			if !m1.sub(hexMask) || !m2.sub(hexMask) {
				return nil, "an escape is decoded although its digits aren't known to be hexadecimal"
			}
			for a := 0; a < 256; a++ {
				for b := 0; b < 256; b++ {
					if !m1.has(byte(a)) || !m2.has(byte(b)) || e1 == e2 && a != b {
						continue
					}
					m := map[*Term]int64{e1: int64(a), e2: int64(b)}
					if f.foldRefuted(m) {
						continue // another path
					}
					v, ok := foldInt(el, m)
					if !ok {
						return nil, fmt.Sprintf("the decoded byte %s does not depend on the two digits alone", el)
					}
					if v != hexVal(byte(a))<<4|hexVal(byte(b)) {
						return nil, fmt.Sprintf("%%%c%c is decoded to %#x", a, b, v)
					}
				}
			}
			pos = mkAddC(pos, 3)
		}
	}
	return pos, ""
}

// canonParts applies the path's equalities to a value.
func (f *Facts) canonParts(t *Term) []*Term { return concatParts(f.canon(t)) }

func ruleC05(c *Ctx) {
	fn := c.fn("internal/uridecode", "Decode")
	if fn == nil {
		return
	}
	e := c.engine()
	e.Bounds = true
	src, buff := mkSym("src", fn.Params[0].Type()), mkSym("buff", fn.Params[1].Type())
	ps := c.run(e, nil, fn, []*Term{src, buff})
	c.noPanic(ps, fn)
	c.boundsOf(e)
	errG := c.P.Func("http/status", "NewError")
	c.ob(errG != nil, "anchor:status.NewError", token.NoPos, "missing")
	// what the loop variables stand for: the position in the input and the output so far
	type role struct{ pos, out string }
	var roles []role
	seen := map[string]bool{}
	for _, p := range ps {
		for _, r := range p.S.loopSeq {
			for _, v := range r.Vars {
				for _, w := range r.Vars {
					if v == w && len(r.Vars) > 1 || !isStringish(w.typ) {
						continue
					}
					k := v.Name + "|" + w.Name
					if !seen[k] {
						seen[k] = true
						roles = append(roles, role{v.Name, w.Name})
					}
				}
			}
		}
	}
	roles = append(roles, role{"", ""})
	posOf := func(t *Term) *Term {
		if isStringish(t.typ) || t.op == OSlice || t == src {
			b, lo, hi := seqParts(t)
			if b == src && hi == mkLen(src) {
				return lo
			}
			return nil
		}
		if isNumTerm(t) {
			return t
		}
		return nil
	}
	best := ""
	var bestPos token.Pos
	okRole := false
	for _, ro := range roles {
		bad := ""
		var badPos token.Pos
		fail := func(p *Path, format string, a ...any) {
			if bad == "" {
				bad = fmt.Sprintf(format, a...) + " (path: " + p.describe(c) + ")"
				badPos = p.Pos
			}
		}
		for _, p := range ps {
			pos, out := tZeroInt, buff
			var rec *LoopRec
			if len(p.S.loopSeq) > 0 {
				rec = p.S.loopSeq[len(p.S.loopSeq)-1]
			}
			if rec != nil {
				for _, v := range rec.Vars {
					if v.Name == ro.pos {
						pos = posOf(v.Cur)
						if en := posOf(v.Entry); en == nil || !p.S.F.eqInt(en, tZeroInt) {
							fail(p, "the loop does not start at the beginning of the input")
						}
					}
					if v.Name == ro.out {
						out = v.Cur
						if v.Entry != buff {
							fail(p, "the loop does not start with the given buffer")
						}
					}
				}
			}
			if pos == nil {
				fail(p, "no position in the input")
				continue
			}
			f := p.S.F
			split := func(t *Term) ([]*Term, bool) {
				parts := f.canonParts(t)
				if len(parts) > 0 && parts[0] == f.canon(out) {
					return parts[1:], true
				}
				if f.entails(mkEq(mkLen(out), tZeroInt)) {
					return parts, true
				}
				return nil, false
			}
			switch p.Kind {
			case PBackEdge:
				nx := p.Next[ro.out]
				np := p.Next[ro.pos]
				if nx == nil || np == nil || posOf(np) == nil {
					fail(p, "no position or output after the iteration")
					continue
				}
				parts, ok := split(nx)
				if !ok {
					fail(p, "the iteration does not extend the output")
					continue
				}
				to, msg := pctWalk(f, src, pos, parts)
				if msg != "" {
					fail(p, "%s", msg)
				} else if !f.eqInt(to, posOf(np)) {
					fail(p, "the iteration decodes the input up to %s but continues at %s", to, posOf(np))
				}
			case PReturn:
				if len(p.Results) != 2 {
					fail(p, "unexpected results")
					continue
				}
				if ev := recursion(p, fn); ev != nil {
					// the rest is decoded by the same function
					parts, ok := split(ev.Args[1])
					rest := posOf(ev.Args[0])
					if !ok || rest == nil {
						fail(p, "the rest isn't decoded behind the output so far")
						continue
					}
					to, msg := pctWalk(f, src, pos, parts)
					if msg != "" {
						fail(p, "%s", msg)
					} else if !f.eqInt(to, rest) || !f.lt(pos, rest) {
						fail(p, "the input is decoded up to %s but the rest starts at %s", to, rest)
					}
					continue
				}
				if p.must(mkEq(p.Results[1], tNil)) {
					parts, ok := split(p.Results[0])
					if !ok {
						fail(p, "the result %s does not start with the output so far", p.Results[0])
						continue
					}
					to, msg := pctWalk(f, src, pos, parts)
					if msg != "" {
						fail(p, "%s", msg)
					} else if !f.eqInt(to, mkLen(src)) {
						fail(p, "the result covers the input up to %s only", to)
					}
					continue
				}
				// an error: there must be a malformed escape ahead
				if !p.mustNot(mkEq(p.Results[1], tNil)) {
					fail(p, "cannot tell whether an error is returned")
					continue
				}
				found := false
				for _, el := range f.elemAtoms() {
					if el.args[0] != src || f.byteSet(el) != maskOf('%') {
						continue
					}
					at := el.args[1]
					if !f.le(pos, at) || !f.segAll(src, pos, at, maskOf('%').not()) {
						continue
					}
					if f.lt(mkLen(src), mkAddC(at, 3)) {
						found = true
						break
					}
					for k := int64(1); k <= 2; k++ {
						if f.byteSet(mkElem(src, mkAddC(at, k), byteType)).and(hexMask).empty() {
							found = true
						}
					}
				}
				if !found {
					fail(p, "an error is returned although the next escape isn't known to be malformed")
				}
			}
		}
		if bad == "" {
			okRole = true
			break
		}
		if best == "" || ro.pos != "" && strings.HasPrefix(ro.pos, "src") {
			best, bestPos = bad, badPos
		}
	}
	for _, p := range ps {
		w, roots := elemWrites(p.S.events)
		for i, r := range roots {
			c.ob(r != src, "decode:input-kept", w[i].Pos, "the input itself is written to")
		}
	}
	c.ob(okRole, "decode:iteration-and-exits", bestPos, "%s", best)
	nErr := 0
	for _, p := range returns(ps) {
		if len(p.Results) == 2 && recursion(p, fn) == nil && p.mustNot(mkEq(p.Results[1], tNil)) {
			nErr++
			code, ok := errCode(c.P, p.Results[1])
			c.ob(ok && code == 400, "decode:bad-request", p.Pos, "a malformed escape is reported as %s, not as a bad request", p.Results[1])
		}
	}
	c.ob(nErr > 0, "decode:rejects", fn.Pos(), "no path rejects anything")
}

// recursion: the call of itself whose results a function returns as they are
func recursion(p *Path, fn *ssa.Function) *Event {
	for _, ev := range p.S.events {
		if ev.Kind == EvCall && ev.Fn == fn && len(ev.Res) == len(p.Results) {
			same := len(ev.Res) > 0
			for i, r := range ev.Res {
				same = same && p.Results[i] == r
			}
			if same {
				return ev
			}
		}
	}
	return nil
}

// errCode: the status code of one of the package's predefined errors.
func errCode(p *Program, t *Term) (int64, bool) {
	t = unwrapIface(t)
	if t.op == OGlobalVal {
		g := t.obj.(*ssa.Global)
		gi := globInfo[g]
		if gi == nil || gi.written || gi.init == nil {
			return 0, false
		}
		t = unwrapIface(gi.init)
	}
	if t.op == OCall && len(t.args) >= 1 && strings.Contains(t.name, "status.NewError") {
		return t.args[0].isInt()
	}
	if t.op == OAgg {
		for _, a := range t.args {
			if n, ok := a.isInt(); ok {
				return n, true
			}
		}
	}
	return 0, false
}

func ruleC06(c *Ctx) {
	fn := c.fn("router/inbuilt/uri", "Normalize")
	if fn == nil {
		return
	}
	e := c.engine()
	e.Bounds = true
	path := mkSym("path", fn.Params[0].Type())
	one := maskOf('/')
	n := 0
	// the empty path
	s0 := newState()
	s0.F.assume(mkEq(mkLen(path), tZeroInt), true)
	ps := c.run(e, s0, fn, []*Term{path})
	c.noPanic(ps, fn)
	for _, p := range returns(ps) {
		n++
		c.ob(p.must(mkEq(mkLen(p.Results[0]), tZeroInt)), "normalize:empty-stays-empty", p.Pos, "the empty path becomes %s", p.Results[0])
	}
	// any other
	s1 := newState()
	s1.F.assume(mkGe(mkLen(path), mkInt(1)), true)
	ps = c.run(e, s1, fn, []*Term{path})
	c.noPanic(ps, fn)
	c.boundsOf(e)
	for _, p := range returns(ps) {
		n++
		f := p.S.F
		r := f.canon(p.Results[0])
		if rec := recursion(p, fn); rec != nil {
			// what holds of the shorter path holds of this one, if only slashes were dropped
			b, lo, k := seqParts(f.canon(rec.Args[0]))
			ok := b == path && f.eqInt(lo, tZeroInt) && f.le(mkInt(1), k) && f.lt(k, mkLen(path)) && f.segAll(path, k, mkLen(path), one)
			c.ob(ok, "normalize:drops-slashes-only", p.Pos, "the path is normalised again after something other than trailing slashes may have been dropped (path: %s)", p.describe(c))
			continue
		}
		b, lo, k := seqParts(r)
		if s, ok := r.isStr(); ok && b != path && s == "/" && p.must(mkEq(mkElem(path, tZeroInt, byteType), mkInt('/'))) {
			b, lo, k = path, tZeroInt, mkInt(1)
		}
		if !c.ob(b == path && f.eqInt(lo, tZeroInt), "normalize:prefix", p.Pos, "the result %s is not a prefix of the path", r) {
			continue
		}
		c.ob(f.le(mkInt(1), k), "normalize:never-empty", p.Pos, "a non-empty path may become empty")
		c.ob(f.segAll(path, k, mkLen(path), one), "normalize:drops-slashes-only", p.Pos, "something other than trailing slashes may be dropped (path: %s)", p.describe(c))
		last := f.le(k, mkInt(1)) || !f.byteSet(mkElem(path, mkAddC(k, -1), byteType)).has('/')
		if !last {
			// case split: one character, or not ending in a slash
			g := p.with(pos(mkGt(k, mkInt(1))))
			last = g == nil || !g.byteSet(mkElem(path, mkAddC(k, -1), byteType)).has('/') || g.refuteDeep(2)
			if !last && g != nil {
				last = !g.assume(mkIntEq(mkElem(path, mkAddC(k, -1), byteType), mkInt('/')), true) || g.refuteDeep(2)
			}
		}
		c.ob(last, "normalize:no-trailing-slash", p.Pos, "the result may still end in a slash (path: %s)", p.describe(c))
	}
	c.ob(n > 0, "normalize:paths", fn.Pos(), "no returning path")
}

// specCase: under the given assumptions, the result must be want.
func (c *Ctx) specCase(p *Path, key string, want *Term, res *Term, lits ...Lit) {
	f := p.with(lits...)
	if f == nil || f.refuteAll(7) {
		return
	}
	q := &Path{Kind: p.Kind, S: &State{F: f}}
	ok := q.equal(res, want)
	if !ok {
		// sequences over the same base: compare the ends
		b1, l1, h1 := seqParts(f.canon(res))
		b2, l2, h2 := seqParts(want)
		ok = b1 == b2 && f.eqInt(l1, l2) && f.eqInt(h1, h2)
	}
	c.ob(ok, key, p.Pos, "the result is %s where %s is due (path: %s)", res, want, p.describe(c))
}

func ruleC07(c *Ctx) {
	fn := c.fn("router/virtual/internal/domain", "Normalize")
	tp := c.fn("router/virtual/internal/domain", "TrimPort")
	if fn == nil || tp == nil {
		return
	}
	e := c.engine()
	e.Bounds = true
	d := mkSym("domain", fn.Params[0].Type())
	ps := c.run(e, nil, fn, []*Term{d})
	c.noPanic(ps, fn)
	for _, p := range returns(ps) {
		for _, www := range []bool{true, false} {
			wl := Lit{mkPrefix(d, mkStr("www.")), www}
			d0 := d
			if www {
				d0 = mkSliceT(d, mkInt(4), mkLen(d))
			}
			s80, s443 := mkSuffix(d0, mkStr(":80")), mkSuffix(d0, mkStr(":443"))
			key := fmt.Sprintf("normalize:www=%v", www)
			r := p.Results[0]
			c.specCase(p, key+":port-80", mkSliceT(d0, tZeroInt, mkAddC(mkLen(d0), -3)), r, wl, pos(s80))
			c.specCase(p, key+":port-443", mkSliceT(d0, tZeroInt, mkAddC(mkLen(d0), -4)), r, wl, pos(s443))
			c.specCase(p, key+":other", d0, r, wl, not(s80), not(s443))
		}
	}
	c.ob(len(returns(ps)) >= 3, "normalize:paths", fn.Pos(), "too few paths")
	d = mkSym("domain", tp.Params[0].Type())
	tps := c.run(e, nil, tp, []*Term{d})
	c.noPanic(tps, tp)
	for _, p := range returns(tps) {
		c.hostPart(p, d, p.Results[0], "trim-port")
	}
	c.boundsOf(e)
}

// hostPart: r is everything of addr before its first colon.
func (c *Ctx) hostPart(p *Path, addr, r *Term, key string) {
	f := p.S.F
	b, lo, k := seqParts(f.canon(r))
	if s, ok := f.canon(r).isStr(); ok && s == "" {
		c.ob(p.must(mkEq(mkLen(addr), tZeroInt)) || f.byteSet(mkElem(addr, tZeroInt, byteType)) == maskOf(':'), key+":empty-host", p.Pos, "the host is taken to be empty although the address doesn't start with a colon")
		return
	}
	if !c.ob(b == addr && f.eqInt(lo, tZeroInt), key+":prefix", p.Pos, "%s is not a prefix of the address", r) {
		return
	}
	c.ob(f.segAll(addr, tZeroInt, k, maskOf(':').not()), key+":stops-at-first-colon", p.Pos, "the host part may contain a colon (path: %s)", p.describe(c))
	atEnd := f.eqInt(k, mkLen(addr))
	c.ob(atEnd || f.byteSet(mkElem(addr, k, byteType)) == maskOf(':'), key+":nothing-lost", p.Pos, "the host part is cut at something other than the first colon (path: %s)", p.describe(c))
}

func ruleC08(c *Ctx) {
	norm, isL, isIP := c.fn("internal/address", "Normalize"), c.fn("internal/address", "IsLocalhost"), c.fn("internal/address", "IsIP")
	if norm == nil || isL == nil || isIP == nil {
		return
	}
	e := c.engine()
	e.Bounds = true
	a := mkSym("addr", norm.Params[0].Type())
	ps := c.run(e, nil, norm, []*Term{a})
	c.noPanic(ps, norm)
	first := mkElem(a, tZeroInt, byteType)
	for _, p := range returns(ps) {
		r := p.Results[0]
		c.specCase(p, "normalize:empty", mkStr("0.0.0.0"), r, pos(mkEq(mkLen(a), tZeroInt)))
		c.specCase(p, "normalize:port-only", mkConcat(mkStr("0.0.0.0"), a), r, pos(mkGe(mkLen(a), mkInt(1))), pos(mkIntEq(first, mkInt(':'))))
		c.specCase(p, "normalize:with-host", a, r, pos(mkGe(mkLen(a), mkInt(1))), not(mkIntEq(first, mkInt(':'))))
	}
	c.ob(len(returns(ps)) >= 2, "normalize:paths", norm.Pos(), "too few paths")
	lps := c.run(e, nil, isL, []*Term{mkSym("addr", isL.Params[0].Type())})
	c.noPanic(lps, isL)
	a = mkSym("addr", isL.Params[0].Type())
	for _, p := range returns(lps) {
		r := p.S.F.canon(p.Results[0])
		host := c.findHost(p, a)
		if !c.ob(host != nil, "localhost:host", p.Pos, "the host part isn't determined on a path") {
			continue
		}
		if p.S.F.refutes(mkIntEq(mkLen(host), mkInt(9))) && p.S.F.canon(r) == tFalse {
			continue // the case of a letter is a matter of ASCII: the length has to be the same
		}
		c.boolSpec(p, "localhost:case-insensitive-name", r, mkEqFold(host, mkStr("localhost")))
	}
	ips := c.run(e, nil, isIP, []*Term{mkSym("addr", isIP.Params[0].Type())})
	c.noPanic(ips, isIP)
	a = mkSym("addr", isIP.Params[0].Type())
	for _, p := range returns(ips) {
		host := c.findHost(p, a)
		if !c.ob(host != nil, "ip:host", p.Pos, "the host part isn't determined on a path") {
			continue
		}
		calls := p.calls("net.ParseIP")
		if len(calls) == 0 {
			c.ob(p.mustNot(p.Results[0]) && p.must(mkEq(mkLen(host), tZeroInt)), "ip:parsed", p.Pos, "an address is judged without being parsed")
			continue
		}
		c.ob(p.equal(calls[0].Args[0], host), "ip:parses-host", calls[0].Pos, "%s is parsed instead of the host part", calls[0].Args[0])
		c.boolSpec(p, "ip:verdict", p.Results[0], mkNot(mkEq(calls[0].Res[0], tNil)))
	}
	c.boundsOf(e)
}

// findHost: the part of addr before its first colon, as the path determined it.
func (c *Ctx) findHost(p *Path, addr *Term) *Term {
	f := p.S.F
	if f.segAll(addr, tZeroInt, mkLen(addr), maskOf(':').not()) {
		return addr
	}
	for _, el := range f.elemAtoms() {
		if el.args[0] == addr && f.byteSet(el) == maskOf(':') && f.segAll(addr, tZeroInt, el.args[1], maskOf(':').not()) {
			return mkSliceT(addr, tZeroInt, el.args[1])
		}
	}
	return nil
}

// boolSpec: a boolean result agrees with a condition on the path.
func (c *Ctx) boolSpec(p *Path, key string, r, want *Term) {
	r = p.S.F.canon(r)
	if r == want || p.S.F.canonDeep(r) == p.S.F.canonDeep(want) {
		c.ob(true, key, p.Pos, "")
		return
	}
	f1 := p.with(pos(r), not(want))
	f2 := p.with(not(r), pos(want))
	ok := (f1 == nil || f1.refuteAll(4)) && (f2 == nil || f2.refuteAll(4))
	c.ob(ok, key, p.Pos, "the answer is %s where %s is due (path: %s)", r, want, p.describe(c))
}

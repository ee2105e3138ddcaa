package main

// Models of library functions the analysed code leans on. Everything else outside the
// repository is an uninterpreted call.

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callCtx struct {
	name   string
	fn     *ssa.Function
	fnT    *Term
	args   []*Term
	dst    ssa.Value
	pos    token.Pos
	res    []types.Type
	common *ssa.CallCommon
}

type model func(e *Engine, s *State, f *Frame, c *callCtx) ([]*State, *Path, bool)

var models map[string]model

func isPureExternal(name string) bool {
	for _, p := range []string{"strings.", "bytes.", "strconv.", "path.", "path/filepath.", "unicode.", "unicode/utf8.", "math.",
		"net.ParseIP", "net.JoinHostPort", "errors.Is", "fmt.Sprint", "net/url.", "(time.Time).", "(net/url.", "(*net/url.URL).", "slices.", "sort.Search"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// constSeq: the constant bytes a value holds, if it does.
func (s *State) constSeq(t *Term) *Term {
	if _, ok := t.isStr(); ok {
		return t
	}
	if c := s.F.canon(s.seqContent(t)); c != t {
		if _, ok := c.isStr(); ok {
			return c
		}
		if c.op == OElems && len(c.args) > 0 {
			b := make([]byte, len(c.args))
			for i, a := range c.args {
				n, ok := a.isInt()
				if !ok {
					return t
				}
				b[i] = byte(n)
			}
			return mkStr(string(b))
		}
	}
	return t
}

func identityModel(e *Engine, s *State, f *Frame, c *callCtx) ([]*State, *Path, bool) {
	e.setRes(s, c.dst, []*Term{s.seqContentKeep(c.args[0])})
	return nil, nil, false
}

func copyModel(e *Engine, s *State, f *Frame, c *callCtx) ([]*State, *Path, bool) {
	r := c.args[0]
	if e.Copies {
		r = mkCopyOf(r)
	}
	e.setRes(s, c.dst, []*Term{r})
	return nil, nil, false
}

func (s *State) seqContentKeep(t *Term) *Term { return t }

// indexModel: first occurrence of a byte
func indexModel(last bool) model { return indexModelOf(last, func(v *Term) *Term { return v }) }

func indexModelOf(last bool, as func(*Term) *Term) model {
	return func(e *Engine, s *State, f *Frame, c *callCtx) ([]*State, *Path, bool) {
		x := c.args[0]
		var pat *Term
		var single bool
		var by int64
		pat = s.constSeq(c.args[1])
		if n, ok := pat.isInt(); ok {
			by, single = n, true
		} else if str, ok := pat.isStr(); ok && len(str) == 1 {
			by, single = int64(str[0]), true
		}
		canonName := "indexByte"
		if last {
			canonName = "lastIndexByte"
		}
		if !single {
			canonName = "index"
			if last {
				canonName = "lastIndex"
			}
		} else {
			pat = mkInt(by)
		}
		fin := func(n *State, v *Term) { e.setRes(n, c.dst, []*Term{as(v)}) }
		if p := stripConv(pat); !single && isNumTerm(p) {
			if isIntType(pat.typ) && !isByteType1(p.typ) {
				// a rune that need not be a byte
				e.opaqueCall(s, c.name, c.fn, c.fnT, c.args, c.res, c.dst, c.pos, false)
				return nil, nil, false
			}
			if last {
				canonName = "lastIndexByte"
			} else {
				canonName = "indexByte"
			}
			r := mkCallT(canonName, types.Typ[types.Int], x, p)
			return branch(s, func(n *State) bool {
				fin(n, r)
				if _, isConst := x.isStr(); !isConst && !n.F.assume(mkIntEq(mkElem(x, r, byteType), p), true) {
					return false
				}
				return n.F.assume(mkLe(tZeroInt, r), true) && n.F.assume(mkLt(r, mkLen(x)), true)
			}, func(n *State) bool {
				fin(n, mkInt(-1))
				return n.F.assume(mkIntEq(r, mkInt(-1)), true)
			}), nil, true
		}
		r := mkCallT(canonName, types.Typ[types.Int], x, pat)
		if xs, ok := x.isStr(); ok && single {
			if last {
				fin(s, mkInt(int64(strings.LastIndexByte(xs, byte(by)))))
			} else {
				fin(s, mkInt(int64(strings.IndexByte(xs, byte(by)))))
			}
			return nil, nil, false
		}
		if k, v := s.F.decide(mkIntEq(r, mkInt(-1))); k {
			if v {
				fin(s, mkInt(-1))
			} else {
				fin(s, r)
			}
			return nil, nil, false
		}
		return indexFork(s, x, pat, single, by, last, r, fin), nil, true
	}
}

// indexFork splits a state on whether a search succeeds.
func indexFork(s *State, x, pat *Term, single bool, by int64, last bool, r *Term, fin func(*State, *Term)) []*State {
	base, lo, hi := seqParts(x)
	return branch(s, func(n *State) bool { // found
		fin(n, r)
		plen := mkInt(1)
		if !single {
			plen = mkLen(pat)
		}
		if !n.F.assume(mkLe(tZeroInt, r), true) || !n.F.assume(mkLe(mkAdd(r, plen), mkLen(x)), true) {
			return false
		}
		if single {
			if !n.F.assume(mkIntEq(mkElem(x, r, byteType), mkInt(by)), true) {
				return false
			}
			abs := mkAdd(lo, r)
			if last {
				n.F.segs = append(n.F.segs, Seg{base, mkAddC(abs, 1), hi, maskOf(byte(by)).not()})
			} else {
				n.F.segs = append(n.F.segs, Seg{base, lo, abs, maskOf(byte(by)).not()})
			}
			if n.F.elemMask(mkElem(x, r, byteType)).empty() {
				return false
			}
		} else if str, ok := pat.isStr(); ok {
			for i := 0; i < len(str) && i < 16; i++ {
				if !n.F.assume(mkIntEq(mkElem(x, mkAddC(r, int64(i)), byteType), mkInt(int64(str[i]))), true) {
					return false
				}
			}
		}
		return true
	}, func(n *State) bool { // not found
		fin(n, mkInt(-1))
		if !n.F.assume(mkIntEq(r, mkInt(-1)), true) {
			return false
		}
		if single {
			n.F.segs = append(n.F.segs, Seg{base, lo, hi, maskOf(byte(by)).not()})
			for _, el := range n.F.elemAtoms() {
				if el.args[0] == base && n.F.elemMask(el).empty() {
					return false
				}
			}
		}
		return true
	})
}

func boolModel(mkT func(a, b *Term) *Term) model {
	return func(e *Engine, s *State, f *Frame, c *callCtx) ([]*State, *Path, bool) {
		e.setRes(s, c.dst, []*Term{mkT(s.constSeq(c.args[0]), s.constSeq(c.args[1]))})
		return nil, nil, false
	}
}

// containsModel: strings.Contains / ContainsRune / IndexByte != -1
func containsModel(e *Engine, s *State, f *Frame, c *callCtx) ([]*State, *Path, bool) {
	x, p := s.constSeq(c.args[0]), s.constSeq(c.args[1])
	t := mk(Term{op: OContains, args: []*Term{x, p}, typ: types.Typ[types.Bool]})
	if a, ok := x.isStr(); ok {
		if b, ok2 := p.isStr(); ok2 {
			e.setRes(s, c.dst, []*Term{mkBool(strings.Contains(a, b))})
			return nil, nil, false
		}
	}
	if q := stripConv(p); isNumTerm(q) && isByteType1(q.typ) {
		if a, ok := x.isStr(); ok && isASCII(a) {
			c2 := *c
			c2.args = []*Term{x, q}
			return indexModelOf(false, func(v *Term) *Term { return mkNot(mkIntEq(v, mkInt(-1))) })(e, s, f, &c2)
		}
	}
	// for a single byte it is a search for it
	single := p
	if b, ok := p.isStr(); ok && len(b) == 1 {
		single = mkInt(int64(b[0]))
	}
	if n, ok := single.isInt(); ok && n >= 0 && n < 0x80 {
		c2 := *c
		c2.args = []*Term{c.args[0], single}
		return indexModelOf(false, func(v *Term) *Term { return mkNot(mkIntEq(v, mkInt(-1))) })(e, s, f, &c2)
	}
	e.setRes(s, c.dst, []*Term{t})
	return nil, nil, false
}

func isByteType1(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// anyModel: the first of several ASCII characters
func anyModel(last bool, as func(*Term) *Term) model {
	return func(e *Engine, s *State, f *Frame, c *callCtx) ([]*State, *Path, bool) {
		x := c.args[0]
		set, ok := s.constSeq(c.args[1]).isStr()
		if !ok || !isASCII(set) || set == "" {
			e.opaqueCall(s, c.name, c.fn, c.fnT, c.args, c.res, c.dst, c.pos, false)
			return nil, nil, false
		}
		if len(set) == 1 {
			c2 := *c
			c2.args = []*Term{x, mkInt(int64(set[0]))}
			return indexModelOf(last, as)(e, s, f, &c2)
		}
		m := mask{}
		for i := 0; i < len(set); i++ {
			m = m.or(maskOf(set[i]))
		}
		base, lo, hi := seqParts(x)
		name := "indexAny"
		if last {
			name = "lastIndexAny"
		}
		r := mkCallT(name, types.Typ[types.Int], x, mkStr(set))
		return branch(s, func(n *State) bool {
			e.setRes(n, c.dst, []*Term{as(r)})
			if !n.F.assume(mkLe(tZeroInt, r), true) || !n.F.assume(mkLt(r, mkLen(x)), true) {
				return false
			}
			abs := mkAdd(lo, r)
			out := Seg{base, lo, abs, m.not()}
			if last {
				out = Seg{base, mkAddC(abs, 1), hi, m.not()}
			}
			n.F.segs = append(n.F.segs, out, Seg{base, abs, mkAddC(abs, 1), m})
			return !n.F.elemMask(mkElem(x, r, byteType)).empty()
		}, func(n *State) bool {
			e.setRes(n, c.dst, []*Term{as(mkInt(-1))})
			n.F.segs = append(n.F.segs, Seg{base, lo, hi, m.not()})
			return n.F.assume(mkIntEq(r, mkInt(-1)), true)
		}), nil, true
	}
}

// splitModel: the pieces between separators, as far as the first one
func splitModel(limited bool) model {
	return func(e *Engine, s *State, f *Frame, c *callCtx) ([]*State, *Path, bool) {
		x, pat := c.args[0], s.constSeq(c.args[1])
		sep, ok := pat.isStr()
		two := false
		if limited {
			n, isC := s.F.canon(c.args[2]).isInt()
			ok = ok && isC && (n < 0 || n == 2)
			two = n == 2
		}
		if !ok || sep == "" {
			e.opaqueCall(s, c.name, c.fn, c.fnT, c.args, c.res, c.dst, c.pos, false)
			return nil, nil, false
		}
		name, single, by := "index", len(sep) == 1, int64(0)
		if single {
			name, by = "indexByte", int64(sep[0])
			pat = mkInt(by)
		}
		r := mkCallT(name, types.Typ[types.Int], x, pat)
		fin := func(n *State, v *Term) {
			if v != r {
				e.setRes(n, c.dst, []*Term{mkElems([]*Term{x})})
				return
			}
			head, tail := mkSliceT(x, tZeroInt, r), mkSliceT(x, mkAddC(r, int64(len(sep))), nil)
			if two {
				e.setRes(n, c.dst, []*Term{mkElems([]*Term{head, tail})})
				return
			}
			rest := mkCallT("split", c.res[0], tail, mkStr(sep))
			n.F.assume(mkLe(mkInt(1), mkLen(rest)), true)
			e.setRes(n, c.dst, []*Term{mkConcat(mkElems([]*Term{head}), rest)})
		}
		if k, v := s.F.decide(mkIntEq(r, mkInt(-1))); k {
			if v {
				fin(s, mkInt(-1))
			} else {
				fin(s, r)
			}
			return nil, nil, false
		}
		return indexFork(s, x, pat, single, by, false, r, fin), nil, true
	}
}

// joinModel: a list of texts put together
func joinModel(e *Engine, s *State, f *Frame, c *callCtx) ([]*State, *Path, bool) {
	list := s.seqContent(c.args[0])
	if list.op != OElems || len(list.args) == 0 {
		e.opaqueCall(s, c.name, c.fn, c.fnT, c.args, c.res, c.dst, c.pos, false)
		return nil, nil, false
	}
	out := list.args[0]
	for _, a := range list.args[1:] {
		out = mkConcat(mkConcat(out, c.args[1]), a)
	}
	e.setRes(s, c.dst, []*Term{out})
	return nil, nil, false
}

// replaceModel: every occurrence replaced; limited replacements stay uninterpreted.
func replaceModel(limited bool) model {
	return func(e *Engine, s *State, f *Frame, c *callCtx) ([]*State, *Path, bool) {
		a := []*Term{c.args[0], s.constSeq(c.args[1]), s.constSeq(c.args[2])}
		n := "replaceAll"
		if limited {
			if k, ok := s.F.canon(c.args[3]).isInt(); !ok || k >= 0 {
				n = "replace"
				a = append(a, c.args[3])
			}
		}
		e.setRes(s, c.dst, []*Term{mkCallT(n, c.res[0], a...)})
		return nil, nil, false
	}
}

// trimPrefix/trimSuffix fork on the predicate
func trimModel(suffix bool) model {
	return func(e *Engine, s *State, f *Frame, c *callCtx) ([]*State, *Path, bool) {
		x, p := s.constSeq(c.args[0]), s.constSeq(c.args[1])
		var pr *Term
		if suffix {
			pr = mkSuffix(x, p)
		} else {
			pr = mkPrefix(x, p)
		}
		return branch(s, func(n *State) bool {
			if !n.F.assume(pr, true) {
				return false
			}
			if suffix {
				e.setRes(n, c.dst, []*Term{mkSliceT(x, tZeroInt, mkSub(mkLen(x), mkLen(p)))})
			} else {
				e.setRes(n, c.dst, []*Term{mkSliceT(x, mkLen(p), nil)})
			}
			return true
		}, func(n *State) bool {
			e.setRes(n, c.dst, []*Term{x})
			return n.F.assume(pr, false)
		}), nil, true
	}
}

func cutPrefixModel(suffix bool) model {
	return func(e *Engine, s *State, f *Frame, c *callCtx) ([]*State, *Path, bool) {
		x, p := s.constSeq(c.args[0]), s.constSeq(c.args[1])
		var pr *Term
		if suffix {
			pr = mkSuffix(x, p)
		} else {
			pr = mkPrefix(x, p)
		}
		return branch(s, func(n *State) bool {
			if !n.F.assume(pr, true) {
				return false
			}
			if suffix {
				e.setRes(n, c.dst, []*Term{mkSliceT(x, tZeroInt, mkSub(mkLen(x), mkLen(p))), tTrue})
			} else {
				e.setRes(n, c.dst, []*Term{mkSliceT(x, mkLen(p), nil), tTrue})
			}
			return true
		}, func(n *State) bool {
			e.setRes(n, c.dst, []*Term{x, tFalse})
			return n.F.assume(pr, false)
		}), nil, true
	}
}

// trimLeft/Right with a constant cutset (or TrimSpace)
func trimSetModel(left, right bool, fixed string) model {
	return func(e *Engine, s *State, f *Frame, c *callCtx) ([]*State, *Path, bool) {
		x := c.args[0]
		set := fixed
		if fixed == "" {
			str, ok := c.args[1].isStr()
			if !ok {
				e.opaqueCall(s, c.name, c.fn, c.fnT, c.args, c.res, c.dst, c.pos, false)
				return nil, nil, false
			}
			set = str
		}
		if xs, ok := x.isStr(); ok {
			r := xs
			if left {
				r = strings.TrimLeft(r, set)
			}
			if right {
				r = strings.TrimRight(r, set)
			}
			e.setRes(s, c.dst, []*Term{mkStr(r)})
			return nil, nil, false
		}
		m := maskOf([]byte(set)...)
		base, lo, hi := seqParts(x)
		l, h := lo, hi
		nm := "trim{" + set + "}"
		if left {
			l = mkCallT(nm+".lo", types.Typ[types.Int], x)
		}
		if right {
			h = mkCallT(nm+".hi", types.Typ[types.Int], x)
			if !left {
				h = mkCallT(nm+"R.hi", types.Typ[types.Int], x)
			}
		}
		if left && !right {
			l = mkCallT(nm+"L.lo", types.Typ[types.Int], x)
		}
		return branch(s, func(n *State) bool { // something is left
			g := n.F
			ok := g.assume(mkLe(lo, l), true) && g.assume(mkLt(l, h), true) && g.assume(mkLe(h, hi), true)
			if !ok {
				return false
			}
			if left {
				g.segs = append(g.segs, Seg{base, lo, l, m})
				for _, b := range []byte(set) {
					if !g.assume(mkIntEq(mkElem(base, l, byteType), mkInt(int64(b))), false) {
						return false
					}
				}
			}
			if right {
				g.segs = append(g.segs, Seg{base, h, hi, m})
				for _, b := range []byte(set) {
					if !g.assume(mkIntEq(mkElem(base, mkAddC(h, -1), byteType), mkInt(int64(b))), false) {
						return false
					}
				}
			}
			e.setRes(n, c.dst, []*Term{mkSliceT(base, l, h)})
			return true
		}, func(n *State) bool { // everything was trimmed
			n.F.segs = append(n.F.segs, Seg{base, lo, hi, m})
			if right && !left {
				e.setRes(n, c.dst, []*Term{mkSliceT(base, lo, lo)})
			} else {
				e.setRes(n, c.dst, []*Term{mkSliceT(base, hi, hi)})
			}
			return true
		}), nil, true
	}
}

// cutModel: strings.Cut
func cutModel(e *Engine, s *State, f *Frame, c *callCtx) ([]*State, *Path, bool) {
	x, pat := c.args[0], s.constSeq(c.args[1])
	sep, isConst := pat.isStr()
	if isConst && sep == "" {
		e.opaqueCall(s, c.name, c.fn, c.fnT, c.args, c.res, c.dst, c.pos, false)
		return nil, nil, false
	}
	name, plen, single, by := "index", mkLen(pat), isConst && len(sep) == 1, int64(0)
	if single {
		name, by = "indexByte", int64(sep[0])
		pat = mkInt(by)
	}
	r := mkCallT(name, types.Typ[types.Int], x, pat)
	fin := func(n *State, v *Term) {
		if v == r {
			e.setRes(n, c.dst, []*Term{mkSliceT(x, tZeroInt, r), mkSliceT(x, mkAdd(r, plen), nil), tTrue})
		} else {
			e.setRes(n, c.dst, []*Term{x, mkStr(""), tFalse})
		}
	}
	return indexFork(s, x, pat, single, by, false, r, fin), nil, true
}

// builderModel: what is collected in a strings.Builder or bytes.Buffer that is only written to.
func builderModel(op string) model {
	return func(e *Engine, s *State, f *Frame, c *callCtx) ([]*State, *Path, bool) {
		a := addrOf(c.args[0], "buf")
		unknown := func() ([]*State, *Path, bool) {
			e.opaqueCall(s, c.name, c.fn, c.fnT, c.args, c.res, c.dst, c.pos, false)
			return nil, nil, false
		}
		if a == nil {
			return unknown()
		}
		bt := deref(a.typ)
		old := s.load(a, bt)
		put := func(x *Term) {
			s.store(a, mkConcat(old, x), bt)
		}
		switch op {
		case "string":
			r := old
			if r.op == ONil || r.op == OZero {
				r = mkStr("")
			}
			e.setRes(s, c.dst, []*Term{r})
		case "len":
			e.setRes(s, c.dst, []*Term{mkLen(old)})
		case "reset":
			s.store(a, tNil, bt)
		case "grow":
		case "write":
			x := s.seqContent(c.args[1])
			put(x)
			e.setRes(s, c.dst, []*Term{mkLen(x), tNil})
		case "byte":
			x := mk(Term{op: OElems, args: []*Term{c.args[1]}, typ: bt})
			if n, ok := s.F.canon(c.args[1]).isInt(); ok {
				x = mkStr(string([]byte{byte(n)}))
			}
			put(x)
			e.setRes(s, c.dst, []*Term{tNil})
		case "rune":
			n, ok := s.F.canon(c.args[1]).isInt()
			if !ok {
				return unknown()
			}
			x := mkStr(string(rune(n)))
			put(x)
			e.setRes(s, c.dst, []*Term{mkLen(x), tNil})
		}
		return nil, nil, false
	}
}

// fmtInt: the digits of a number.
func mkFmtInt(n *Term, base *Term) *Term {
	if v, ok := n.isInt(); ok {
		if b, ok := base.isInt(); ok && b >= 2 && b <= 36 {
			return mkStr(strconv.FormatInt(v, int(b)))
		}
	}
	return mkCallT("digits", types.Typ[types.String], n, base)
}

func digitsModel(app, withBase bool) model {
	return func(e *Engine, s *State, f *Frame, c *callCtx) ([]*State, *Path, bool) {
		i := 0
		if app {
			i = 1
		}
		base := mkInt(10)
		if withBase {
			base = c.args[i+1]
		}
		d := mkFmtInt(c.args[i], base)
		s.F.assume(mkLe(mkInt(1), mkLen(d)), true)
		if b, ok := base.isInt(); ok && b == 16 && s.F.le(tZeroInt, c.args[i]) && s.F.le(c.args[i], mkInt(1<<32-1)) {
			s.F.assume(mkLe(mkLen(d), mkInt(8)), true)
		} else {
			s.F.assume(mkLe(mkLen(d), mkInt(65)), true)
		}
		if app {
			s.event(Event{Kind: EvCall, Name: "append", Args: []*Term{c.args[0], d}, Pos: c.pos})
			d = mkConcat(c.args[0], d)
		}
		e.setRes(s, c.dst, []*Term{d})
		return nil, nil, false
	}
}

// sprintfModel: formats made of literal text, %s and %d are concatenations
func sprintfModel(e *Engine, s *State, f *Frame, c *callCtx) ([]*State, *Path, bool) {
	giveUp := func() ([]*State, *Path, bool) {
		e.opaqueCall(s, c.name, c.fn, c.fnT, c.args, c.res, c.dst, c.pos, true)
		return nil, nil, false
	}
	format, ok := c.args[0].isStr()
	if !ok || len(c.args) != 2 {
		return giveUp()
	}
	var vals []*Term
	switch v := s.F.canon(s.seqContent(c.args[1])); v.op {
	case OElems:
		vals = v.args
	default:
		if n, ok := mkLen(v).isInt(); !ok || n != 0 {
			return giveUp()
		}
	}
	var parts []*Term
	lit := ""
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			lit += format[i : i+1]
			continue
		}
		i++
		if i == len(format) {
			return giveUp()
		}
		if format[i] == '%' {
			lit += "%"
			continue
		}
		if len(vals) == 0 || vals[0].op != OIface {
			return giveUp()
		}
		x := vals[0].args[0]
		b, isB := vals[0].typ.(*types.Basic)
		vals = vals[1:]
		if !isB { // may have its own way to print
			return giveUp()
		}
		parts = append(parts, mkStr(lit))
		lit = ""
		switch {
		case format[i] == 's' && b.Info()&types.IsString != 0, format[i] == 'v' && b.Info()&types.IsString != 0:
			parts = append(parts, x)
		case (format[i] == 'd' || format[i] == 'v') && b.Info()&types.IsInteger != 0:
			parts = append(parts, mkFmtInt(x, mkInt(10)))
		default:
			return giveUp()
		}
	}
	if len(vals) > 0 {
		return giveUp()
	}
	e.setRes(s, c.dst, []*Term{mkConcat(append(parts, mkStr(lit))...)})
	return nil, nil, false
}

// readModel: (io.Reader).Read-like calls: 0 <= n <= len(buf)
func readModel(e *Engine, s *State, f *Frame, c *callCtx) ([]*State, *Path, bool) {
	ev := e.opaqueCall(s, c.name, c.fn, c.fnT, c.args, c.res, c.dst, c.pos, false)
	if len(ev.Res) == 2 && len(c.args) == 2 {
		s.F.assume(mkLe(tZeroInt, ev.Res[0]), true)
		s.F.assume(mkLe(ev.Res[0], mkLen(c.args[1])), true)
	}
	return nil, nil, false
}

func init() {
	models = map[string]model{
		"strings.IndexByte":     indexModel(false),
		"bytes.IndexByte":       indexModel(false),
		"strings.IndexRune":     indexModel(false),
		"strings.Index":         indexModel(false),
		"bytes.Index":           indexModel(false),
		"strings.LastIndexByte": indexModel(true),
		"bytes.LastIndexByte":   indexModel(true),
		"strings.LastIndex":     indexModel(true),
		"strings.IndexAny":      anyModel(false, func(v *Term) *Term { return v }),
		"strings.LastIndexAny":  anyModel(true, func(v *Term) *Term { return v }),
		"bytes.LastIndexAny":    anyModel(true, func(v *Term) *Term { return v }),
		"bytes.IndexAny":        anyModel(false, func(v *Term) *Term { return v }),
		"strings.ContainsAny":   anyModel(false, func(v *Term) *Term { return mkNot(mkIntEq(v, mkInt(-1))) }),
		"bytes.ContainsAny":     anyModel(false, func(v *Term) *Term { return mkNot(mkIntEq(v, mkInt(-1))) }),
		"strings.Split":         splitModel(false),
		"strings.SplitN":        splitModel(true),
		"strings.Join":          joinModel,
		"strings.HasPrefix":     boolModel(mkPrefix),
		"bytes.HasPrefix":       boolModel(mkPrefix),
		"strings.HasSuffix":     boolModel(mkSuffix),
		"bytes.HasSuffix":       boolModel(mkSuffix),
		"bytes.Equal":           boolModel(mkEq),
		"strings.EqualFold":     boolModel(mkEqFold),
		"bytes.EqualFold":       boolModel(mkEqFold),
		"github.com/indigo-web/utils/strcomp.EqualFold": boolModel(mkEqFold),
		"strings.Contains":                   containsModel,
		"bytes.Contains":                     containsModel,
		"strings.ContainsRune":               containsModel,
		"bytes.ContainsRune":                 containsModel,
		"strings.ReplaceAll":                 replaceModel(false),
		"bytes.ReplaceAll":                   replaceModel(false),
		"strings.Replace":                    replaceModel(true),
		"bytes.Replace":                      replaceModel(true),
		"strings.TrimPrefix":                 trimModel(false),
		"bytes.TrimPrefix":                   trimModel(false),
		"strings.TrimSuffix":                 trimModel(true),
		"bytes.TrimSuffix":                   trimModel(true),
		"strings.CutPrefix":                  cutPrefixModel(false),
		"strings.CutSuffix":                  cutPrefixModel(true),
		"strings.TrimLeft":                   trimSetModel(true, false, ""),
		"strings.TrimRight":                  trimSetModel(false, true, ""),
		"strings.Trim":                       trimSetModel(true, true, ""),
		"bytes.TrimLeft":                     trimSetModel(true, false, ""),
		"bytes.TrimRight":                    trimSetModel(false, true, ""),
		"bytes.Trim":                         trimSetModel(true, true, ""),
		"strings.Cut":                        cutModel,
		"bytes.Cut":                          cutModel,
		"github.com/indigo-web/utils/uf.B2S": identityModel,
		"github.com/indigo-web/utils/uf.S2B": identityModel,
		"strings.Clone":                      copyModel,
		"bytes.Clone":                        copyModel,
		"(net.Conn).Read":                    readModel,
		"(io.Reader).Read":                   readModel,
		"(*os.File).Read":                    readModel,
		"strconv.AppendInt":                  digitsModel(true, true),
		"strconv.AppendUint":                 digitsModel(true, true),
		"strconv.FormatInt":                  digitsModel(false, true),
		"strconv.FormatUint":                 digitsModel(false, true),
		"fmt.Sprintf":                        sprintfModel,
		"strconv.Itoa":                       digitsModel(false, false),
		"strings.TrimSpace":                  trimSetModel(true, true, " \t\r\n\v\f"),
		"bytes.TrimSpace":                    trimSetModel(true, true, " \t\r\n\v\f"),
		"(*strings.Builder).WriteString":     builderModel("write"),
		"(*strings.Builder).Write":           builderModel("write"),
		"(*strings.Builder).WriteByte":       builderModel("byte"),
		"(*strings.Builder).WriteRune":       builderModel("rune"),
		"(*strings.Builder).String":          builderModel("string"),
		"(*strings.Builder).Len":             builderModel("len"),
		"(*strings.Builder).Reset":           builderModel("reset"),
		"(*strings.Builder).Grow":            builderModel("grow"),
	}
}

package main

// Hash-consed value numbers ("terms") of the abstract interpreter.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Op uint8

const (
	OConst Op = iota
	ONil
	OZero
	OSym
	OLin
	OLen
	OCap
	OSlice
	OConcat
	OElems
	OElem
	OBin
	OLe  // args[0] <= 0
	OEqZ // args[0] == 0
	OEq
	ONot
	OCall
	OAlloc
	OFieldAddr
	OIndexAddr
	OGlobalAddr
	OGlobalVal
	OLoad
	OAgg
	OFieldVal
	OClosure
	OFunc
	OIface
	OIsType
	OAssert
	OConv
	OMakeSlice
	OMakeMap
	OMakeChan
	OMapGet
	OMapHas
	OTuple
	OPrefix // args[0] starts with args[1]
	OSuffix
	OEqFold
	OContains
	OHole
)

var opNames = map[Op]string{OLen: "len", OCap: "cap", OElem: "elem", OPrefix: "hasPrefix", OSuffix: "hasSuffix",
	OEqFold: "equalFold", OContains: "contains", OMapGet: "mapget", OMapHas: "maphas", OAssert: "assert", OIsType: "istype",
	OMakeSlice: "make", OMakeMap: "makemap", OMakeChan: "makechan", OElems: "elems", OConcat: "concat", OLoad: "load",
	OFieldVal: "field", OTuple: "tuple"}

type Term struct {
	id   int
	op   Op
	typ  types.Type
	args []*Term
	val  constant.Value
	obj  any
	n    int64
	name string
	// linear form: c0 + sum coef[i]*args[i] for OLin
	coef []int64
	key  string
	hasH bool // contains OHole
}

type interner struct {
	tab, base map[string]*Term
	next      int
}

var in = &interner{tab: map[string]*Term{}}

var objIDs = map[any]int{}

func objID(o any) int {
	if id, ok := objIDs[o]; ok {
		return id
	}
	objIDs[o] = len(objIDs) + 1
	return objIDs[o]
}

var typeStrs = map[types.Type]string{}

func typeStr(t types.Type) string {
	if s, ok := typeStrs[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	typeStrs[t] = s
	return s
}

var mkBuf []byte

// reset forgets all terms but those made before the first program was loaded: terms carry types, and
// types of different loads differ.
func (i *interner) reset() {
	if i.base == nil {
		i.base = map[string]*Term{}
		for k, t := range i.tab {
			i.base[k] = t
		}
	}
	i.tab = map[string]*Term{}
	for k, t := range i.base {
		i.tab[k] = t
	}
}

func mk(t Term) *Term {
	b := appendInt(mkBuf[:0], int64(t.op))
	b = append(b, '|')
	if t.val != nil {
		b = append(b, 'v')
		b = appendInt(b, int64(t.val.Kind()))
		b = append(b, ':')
		b = append(b, t.val.ExactString()...)
		b = append(b, '|')
	}
	if t.obj != nil {
		b = append(b, 'o')
		b = appendInt(b, int64(objID(t.obj)))
		b = append(b, '|')
	}
	b = appendInt(b, t.n)
	b = append(b, '|')
	b = append(b, t.name...)
	b = append(b, '|')
	for i, a := range t.args {
		if t.coef != nil {
			b = appendInt(b, t.coef[i])
			b = append(b, '*')
		}
		b = appendInt(b, int64(a.id))
		b = append(b, ',')
	}
	if (t.op == OIface || t.op == OIsType || t.op == OAssert || t.op == OConv || t.op == OZero || t.op == OAgg || t.op == OSym) && t.typ != nil {
		b = append(b, '|')
		b = append(b, typeStr(t.typ)...)
	}
	mkBuf = b
	if x, ok := in.tab[string(b)]; ok {
		return x
	}
	k := string(b)
	in.next++
	nt := t
	nt.id = in.next
	nt.key = k
	nt.hasH = t.op == OHole
	for _, a := range t.args {
		if a.hasH {
			nt.hasH = true
		}
	}
	in.tab[k] = &nt
	return &nt
}

var hole = mk(Term{op: OHole})

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isStringish(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		return true
	}
	return false
}

func mkConstVal(v constant.Value, typ types.Type) *Term {
	if v.Kind() == constant.Float && isIntType(typ) {
		v = constant.ToInt(v)
	}
	if v.Kind() == constant.Int && typ != nil && !isIntType(typ) {
		if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			v = constant.ToFloat(v)
		}
	}
	if v.Kind() == constant.Int {
		if n, ok := constant.Int64Val(v); ok {
			return mkInt(n)
		}
	}
	return mk(Term{op: OConst, val: v, typ: typ})
}

func mkInt(n int64) *Term {
	return mk(Term{op: OConst, val: constant.MakeInt64(n), typ: types.Typ[types.Int]})
}
func mkBool(b bool) *Term {
	return mk(Term{op: OConst, val: constant.MakeBool(b), typ: types.Typ[types.Bool]})
}
func mkStr(s string) *Term {
	return mk(Term{op: OConst, val: constant.MakeString(s), typ: types.Typ[types.String]})
}

var tNil = mk(Term{op: ONil})
var tTrue = mkBool(true)
var tFalse = mkBool(false)
var tZeroInt = mkInt(0)

func mkSym(name string, typ types.Type) *Term { return mk(Term{op: OSym, name: name, typ: typ}) }

func (t *Term) isInt() (int64, bool) {
	if t != nil && t.op == OConst && t.val.Kind() == constant.Int {
		n, ok := constant.Int64Val(t.val)
		return n, ok
	}
	return 0, false
}

func (t *Term) isStr() (string, bool) {
	if t == nil {
		return "", false
	}
	if t.op == OConst && t.val.Kind() == constant.String {
		return constant.StringVal(t.val), true
	}
	if t.op == OElems {
		b := make([]byte, 0, len(t.args))
		for _, a := range t.args {
			n, ok := a.isInt()
			if !ok || n < 0 || n > 255 {
				return "", false
			}
			b = append(b, byte(n))
		}
		return string(b), true
	}
	return "", false
}

func (t *Term) isBool() (bool, bool) {
	if t != nil && t.op == OConst && t.val.Kind() == constant.Bool {
		return constant.BoolVal(t.val), true
	}
	return false, false
}

// ---- linear arithmetic

func linParts(t *Term) (int64, []int64, []*Term) {
	if n, ok := t.isInt(); ok {
		return n, nil, nil
	}
	if t.op == OLin {
		return t.n, t.coef, t.args
	}
	return 0, []int64{1}, []*Term{t}
}

func mkLin(c0 int64, m map[*Term]int64) *Term {
	atoms := make([]*Term, 0, len(m))
	for a, c := range m {
		if c != 0 {
			atoms = append(atoms, a)
		}
	}
	if len(atoms) == 0 {
		return mkInt(c0)
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	if len(atoms) == 1 && c0 == 0 && m[atoms[0]] == 1 {
		return atoms[0]
	}
	coef := make([]int64, len(atoms))
	for i, a := range atoms {
		coef[i] = m[a]
	}
	return mk(Term{op: OLin, n: c0, coef: coef, args: atoms, typ: types.Typ[types.Int]})
}

func linComb(a *Term, ca int64, b *Term, cb int64) *Term {
	m := map[*Term]int64{}
	c0 := int64(0)
	add := func(t *Term, k int64) {
		n, cs, as := linParts(t)
		c0 += n * k
		for i, x := range as {
			m[x] += cs[i] * k
		}
	}
	add(a, ca)
	if b != nil {
		add(b, cb)
	}
	return mkLin(c0, m)
}

func mkAdd(a, b *Term) *Term         { return linComb(a, 1, b, 1) }
func mkSub(a, b *Term) *Term         { return linComb(a, 1, b, -1) }
func mkAddC(a *Term, c int64) *Term  { return mkAdd(a, mkInt(c)) }
func mkScale(a *Term, k int64) *Term { return linComb(a, k, nil, 0) }

func mkLe(a, b *Term) *Term { // a <= b
	d := mkSub(a, b)
	if n, ok := d.isInt(); ok {
		return mkBool(n <= 0)
	}
	return mk(Term{op: OLe, args: []*Term{d}, typ: types.Typ[types.Bool]})
}
func mkLt(a, b *Term) *Term { return mkLe(mkAddC(a, 1), b) }
func mkGe(a, b *Term) *Term { return mkLe(b, a) }
func mkGt(a, b *Term) *Term { return mkLt(b, a) }

func mkIntEq(a, b *Term) *Term {
	d := mkSub(a, b)
	if n, ok := d.isInt(); ok {
		return mkBool(n == 0)
	}
	if d.op == OLin && len(d.coef) > 0 && d.coef[0] < 0 {
		d = mkScale(d, -1)
	}
	return mk(Term{op: OEqZ, args: []*Term{d}, typ: types.Typ[types.Bool]})
}

func mkNot(a *Term) *Term {
	if b, ok := a.isBool(); ok {
		return mkBool(!b)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return mk(Term{op: ONot, args: []*Term{a}, typ: types.Typ[types.Bool]})
}

func nonNil(t *Term) bool {
	switch t.op {
	case OAlloc, OFieldAddr, OIndexAddr, OGlobalAddr, OClosure, OFunc, OIface, OMakeSlice, OMakeMap, OMakeChan, OAgg, OElems:
		return true
	case OConst:
		return true
	case OGlobalVal:
		if g, ok := t.obj.(*ssa.Global); ok {
			return globalNonNil(g)
		}
	}
	return false
}

// lowered: t is a text brought to the case that s is in, so that t == s compares ignoring case
func lowered(t *Term, s string) bool {
	if t.op != OCall || len(t.args) != 1 || !isTextType(t.args[0].typ) {
		return false
	}
	switch t.name {
	case "strings.ToLower", "bytes.ToLower":
		return strings.ToLower(s) == s
	case "strings.ToUpper", "bytes.ToUpper":
		return strings.ToUpper(s) == s
	}
	return false
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if isNumTerm(a) && isNumTerm(b) {
		return mkIntEq(a, b)
	}
	if a.op == OConst && b.op == OConst {
		if a.val.Kind() == b.val.Kind() {
			return mkBool(constant.Compare(a.val, tokEQL, b.val))
		}
		return tFalse
	}
	// bool == const
	if x, ok := b.isBool(); ok {
		if x {
			return a
		}
		return mkNot(a)
	}
	if x, ok := a.isBool(); ok {
		if x {
			return b
		}
		return mkNot(b)
	}
	if x, ok := b.isStr(); ok && lowered(a, x) {
		return mkEqFold(a.args[0], b)
	}
	if x, ok := a.isStr(); ok && lowered(b, x) {
		return mkEqFold(b.args[0], a)
	}
	if a.op == ONil && nonNil(b) || b.op == ONil && nonNil(a) {
		return tFalse
	}
	if a.op == OIface && b.op == OIface {
		if !types.Identical(a.typ, b.typ) {
			return tFalse
		}
		return mkEq(a.args[0], b.args[0])
	}
	if a.op == OZero && b.op == ONil || b.op == OZero && a.op == ONil {
		return tTrue
	}
	if a.op == OGlobalVal && b.op == OGlobalVal && distinctErrors(a.obj.(*ssa.Global), b.obj.(*ssa.Global)) {
		return tFalse
	}
	if a.op == OGlobalVal && b.op == OIface || a.op == OIface && b.op == OGlobalVal {
		if x, y := ifaceOf(a), ifaceOf(b); x != nil && y != nil {
			if r := mkEq(x, y); r.op == OConst {
				return r
			}
		}
	}
	if a.op == OAlloc && b.op == OAlloc {
		return tFalse
	}
	if a.op == OAgg && b.op == OAgg && len(a.args) == len(b.args) {
		all := true
		for i := range a.args {
			e := mkEq(a.args[i], b.args[i])
			if v, ok := e.isBool(); ok {
				if !v {
					return tFalse
				}
			} else {
				all = false
			}
		}
		if all {
			return tTrue
		}
	}
	// empty string: compare lengths
	if s, ok := a.isStr(); ok && s == "" {
		return mkIntEq(mkLen(b), tZeroInt)
	}
	if s, ok := b.isStr(); ok && s == "" {
		return mkIntEq(mkLen(a), tZeroInt)
	}
	if s, ok := a.isStr(); ok && b.op == OSlice {
		if n, ok2 := mkLen(b).isInt(); ok2 && int(n) != len(s) {
			return tFalse
		}
	}
	if s, ok := b.isStr(); ok && a.op == OSlice {
		if n, ok2 := mkLen(a).isInt(); ok2 && int(n) != len(s) {
			return tFalse
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(Term{op: OEq, args: []*Term{a, b}, typ: types.Typ[types.Bool]})
}

func isNumTerm(t *Term) bool {
	switch t.op {
	case OConst:
		return t.val.Kind() == constant.Int
	case OLin, OLen, OCap:
		return true
	}
	return isIntType(t.typ)
}

// ---- sequences

func mkLen(x *Term) *Term {
	if s, ok := x.isStr(); ok {
		return mkInt(int64(len(s)))
	}
	switch x.op {
	case ONil, OZero:
		return tZeroInt
	case OSlice:
		return mkSub(x.args[2], x.args[1])
	case OConcat:
		r := tZeroInt
		for _, a := range x.args {
			r = mkAdd(r, mkLen(a))
		}
		return r
	case OElems:
		return mkInt(int64(len(x.args)))
	case OMakeSlice:
		return x.args[0]
	case OGlobalVal:
		if n, ok := globalLen(x); ok {
			return mkInt(int64(n))
		}
	}
	if x.typ != nil {
		t := x.typ.Underlying()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem().Underlying()
		}
		if a, ok := t.(*types.Array); ok {
			return mkInt(a.Len())
		}
	}
	return mk(Term{op: OLen, args: []*Term{x}, typ: types.Typ[types.Int]})
}

func mkCap(x *Term) *Term {
	switch x.op {
	case ONil, OZero:
		return tZeroInt
	case OMakeSlice:
		return x.args[1]
	case OSlice:
		return mkSub(mkCap(x.args[0]), x.args[1])
	}
	return mk(Term{op: OCap, args: []*Term{x}, typ: types.Typ[types.Int]})
}

func mkSliceT(x, lo, hi *Term) *Term {
	if lo == nil {
		lo = tZeroInt
	}
	if hi == nil {
		hi = mkLen(x)
	}
	if x.op == OSlice {
		l := x.args[1]
		return mkSliceT(x.args[0], mkAdd(l, lo), mkAdd(l, hi))
	}
	if lo == tZeroInt && hi == mkLen(x) {
		return x
	}
	if s, ok := x.isStr(); ok {
		a, ok1 := lo.isInt()
		b, ok2 := hi.isInt()
		if ok1 && ok2 && 0 <= a && a <= b && b <= int64(len(s)) {
			return mkStr(s[a:b])
		}
	}
	if x.op == OConcat {
		// cut parts off both ends where the offsets are syntactically aligned, or lie a constant
		// number of bytes inside a constant part
		off := tZeroInt
		started := false
		var out []*Term
		for _, p := range x.args {
			nxt := mkAdd(off, mkLen(p))
			str, isS := p.isStr()
			if !started {
				k, ok := mkSub(lo, off).isInt()
				switch {
				case ok && k == 0:
					started = true
				case ok && isS && k > 0 && k < int64(len(str)):
					started = true
					p = mkStr(str[k:])
					str = str[k:]
					off = lo
				}
			}
			if started {
				k, ok := mkSub(hi, off).isInt()
				if ok && isS && k >= 0 && k < int64(len(str)) {
					return mkConcat(append(out, mkStr(str[:k]))...)
				}
				out = append(out, p)
				if nxt == hi {
					return mkConcat(out...)
				}
			}
			off = nxt
		}
	}
	return mk(Term{op: OSlice, args: []*Term{x, lo, hi}, typ: x.typ})
}

// base and absolute bounds of a sequence
func seqParts(x *Term) (base, lo, hi *Term) {
	if x.op == OSlice {
		return x.args[0], x.args[1], x.args[2]
	}
	return x, tZeroInt, mkLen(x)
}

func mkConcat(parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		if p.op == OConcat {
			out = append(out, p.args...)
		} else {
			out = append(out, p)
		}
	}
	var res []*Term
	for _, p := range out {
		if n, ok := mkLen(p).isInt(); ok && n == 0 {
			continue
		}
		if len(res) > 0 {
			last := res[len(res)-1]
			if a, ok := last.isStr(); ok {
				if b, ok2 := p.isStr(); ok2 {
					res[len(res)-1] = mkStr(a + b)
					continue
				}
			}
			lb, ll, lh := seqParts(last)
			pb, pl, ph := seqParts(p)
			if lb == pb && lh == pl && last.op != OConst && p.op != OConst {
				res[len(res)-1] = mkSliceT(lb, ll, ph)
				continue
			}
			if last.op == OElems && p.op == OElems {
				res[len(res)-1] = mkElems(append(append([]*Term{}, last.args...), p.args...))
				continue
			}
		}
		res = append(res, p)
	}
	if len(res) == 0 {
		return mkStr("")
	}
	if len(res) == 1 {
		return res[0]
	}
	return mk(Term{op: OConcat, args: res, typ: res[0].typ})
}

func mkElems(args []*Term) *Term {
	t := mk(Term{op: OElems, args: args})
	if s, ok := t.isStr(); ok && len(args) > 0 {
		return mkStr(s)
	}
	return t
}

func mkElem(x, i *Term, typ types.Type) *Term {
	if x.op == OSlice {
		return mkElem(x.args[0], mkAdd(x.args[1], i), typ)
	}
	if n, ok := i.isInt(); ok {
		if s, ok := x.isStr(); ok && n >= 0 && n < int64(len(s)) {
			return mkInt(int64(s[n]))
		}
		if x.op == OElems && n >= 0 && n < int64(len(x.args)) {
			return x.args[n]
		}
	}
	if x.op == OLoad && x.n == 0 && isArrayAddr(x.args[0]) {
		return mk(Term{op: OLoad, args: []*Term{mkIndexAddr(x.args[0], i, typ)}, typ: typ})
	}
	if x.op == OConcat {
		off := tZeroInt
		for _, p := range x.args {
			d := mkSub(i, off)
			if n, ok := d.isInt(); ok {
				if l, ok2 := mkLen(p).isInt(); ok2 && n >= 0 && n < l {
					return mkElem(p, d, typ)
				}
			}
			off = mkAdd(off, mkLen(p))
		}
	}
	return mk(Term{op: OElem, args: []*Term{x, i}, typ: typ})
}

func mkPrefix(x, c *Term) *Term {
	a, ok1 := x.isStr()
	b, ok2 := c.isStr()
	if ok1 && ok2 {
		return mkBool(strings.HasPrefix(a, b))
	}
	return mk(Term{op: OPrefix, args: []*Term{x, c}, typ: types.Typ[types.Bool]})
}

func mkSuffix(x, c *Term) *Term {
	a, ok1 := x.isStr()
	b, ok2 := c.isStr()
	if ok1 && ok2 {
		return mkBool(strings.HasSuffix(a, b))
	}
	return mk(Term{op: OSuffix, args: []*Term{x, c}, typ: types.Typ[types.Bool]})
}

func mkEqFold(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	x, ok1 := a.isStr()
	y, ok2 := b.isStr()
	if ok1 && ok2 {
		return mkBool(strings.EqualFold(x, y))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(Term{op: OEqFold, args: []*Term{a, b}, typ: types.Typ[types.Bool]})
}

// ---- misc

func mkCallT(name string, typ types.Type, args ...*Term) *Term {
	return mk(Term{op: OCall, name: name, args: args, typ: typ})
}

func mkFieldVal(x *Term, i int, typ types.Type) *Term {
	if x.op == OAgg && i < len(x.args) {
		return x.args[i]
	}
	if x.op == OZero {
		return zeroOf(typ)
	}
	return mk(Term{op: OFieldVal, args: []*Term{x}, n: int64(i), typ: typ})
}

func zeroOf(t types.Type) *Term {
	if _, ok := t.(*types.TypeParam); ok {
		return mk(Term{op: OZero, typ: t})
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return tZeroInt
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsFloat != 0:
			return mkConstVal(constant.MakeFloat64(0), t)
		}
		return tNil
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return tNil
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = zeroOf(u.Field(i).Type())
		}
		return mk(Term{op: OAgg, typ: t, args: args})
	}
	return mk(Term{op: OZero, typ: t})
}

func substTerm(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if memo == nil {
		memo = map[*Term]*Term{}
	}
	if r, ok := memo[t]; ok {
		return r
	}
	changed := false
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = substTerm(a, m, memo)
		if args[i] != a {
			changed = true
		}
	}
	r := t
	if changed {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case OLin:
		r := mkInt(t.n)
		for i, a := range args {
			r = linComb(r, 1, a, t.coef[i])
		}
		return r
	case OLe:
		return mkLe(args[0], tZeroInt)
	case OEqZ:
		return mkIntEq(args[0], tZeroInt)
	case OEq:
		return mkEq(args[0], args[1])
	case ONot:
		return mkNot(args[0])
	case OLen:
		return mkLen(args[0])
	case OCap:
		return mkCap(args[0])
	case OSlice:
		return mkSliceT(args[0], args[1], args[2])
	case OConcat:
		return mkConcat(args...)
	case OElem:
		return mkElem(args[0], args[1], t.typ)
	case OElems:
		return mkElems(args)
	case OPrefix:
		return mkPrefix(args[0], args[1])
	case OSuffix:
		return mkSuffix(args[0], args[1])
	case OEqFold:
		return mkEqFold(args[0], args[1])
	case OFieldVal:
		return mkFieldVal(args[0], int(t.n), t.typ)
	case OCall:
		if r := foldCall(t.name, args, t.typ); r != nil {
			return r
		}
	}
	nt := *t
	nt.args = args
	nt.id, nt.key = 0, ""
	return mk(nt)
}

func contains(t, x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.args {
		if contains(a, x) {
			return true
		}
	}
	return false
}

func containsAny(t *Term, set map[*Term]bool) bool {
	if set[t] {
		return true
	}
	for _, a := range t.args {
		if containsAny(a, set) {
			return true
		}
	}
	return false
}

func walkTerm(t *Term, f func(*Term)) {
	f(t)
	for _, a := range t.args {
		walkTerm(a, f)
	}
}

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	return t.str(0)
}

func (t *Term) str(d int) string {
	if d > 8 {
		return "…"
	}
	as := func(i int) string { return t.args[i].str(d + 1) }
	switch t.op {
	case OConst:
		return t.val.ExactString()
	case ONil:
		return "nil"
	case OZero:
		return "zero"
	case OSym:
		return t.name
	case OLin:
		var p []string
		for i, a := range t.args {
			switch t.coef[i] {
			case 1:
				p = append(p, a.str(d+1))
			case -1:
				p = append(p, "-"+a.str(d+1))
			default:
				p = append(p, fmt.Sprintf("%d*%s", t.coef[i], a.str(d+1)))
			}
		}
		if t.n != 0 {
			p = append(p, fmt.Sprint(t.n))
		}
		return "(" + strings.Join(p, "+") + ")"
	case OLe:
		return as(0) + "<=0"
	case OEqZ:
		return as(0) + "==0"
	case OEq:
		return as(0) + "==" + as(1)
	case ONot:
		return "!(" + as(0) + ")"
	case OSlice:
		return as(0) + "[" + as(1) + ":" + as(2) + "]"
	case OFieldAddr:
		return "&" + as(0) + "." + t.name
	case OIndexAddr:
		return "&" + as(0) + "[" + as(1) + "]"
	case OGlobalAddr:
		return "&" + t.name
	case OGlobalVal:
		return t.name
	case OAlloc:
		return fmt.Sprintf("new#%d(%s)", t.n, t.name)
	case OFunc:
		return "func " + t.name
	case OClosure:
		return "closure " + t.name
	case OIface:
		return as(0)
	case OBin:
		return "(" + as(0) + t.name + as(1) + ")"
	case OElem:
		return as(0) + "[" + as(1) + "]"
	case OHole:
		return "□"
	case OLoad:
		s := "*" + as(0)
		if strings.HasPrefix(s, "*&") {
			s = s[2:]
		}
		if t.n > 0 {
			s += fmt.Sprintf("@%d", t.n)
		}
		return s
	case OConv:
		return types.TypeString(t.typ, func(*types.Package) string { return "" }) + "(" + as(0) + ")"
	}
	var p []string
	for i := range t.args {
		p = append(p, as(i))
	}
	n := t.name
	if n == "" {
		n = opNames[t.op]
	}
	if t.op == OFieldVal {
		return fmt.Sprintf("%s.%d", as(0), t.n)
	}
	return n + "(" + strings.Join(p, ",") + ")"
}

func sortTerms(ts []*Term) { sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id }) }

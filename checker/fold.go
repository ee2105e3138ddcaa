package main

// Constant folding of value terms under an assignment of byte-sized inputs (finite domains).

import (
	"go/constant"
	"go/types"
	"strings"
)

func truncTo(v int64, t types.Type) int64 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return v
	}
	switch b.Kind() {
	case types.Uint8:
		return int64(uint8(v))
	case types.Int8:
		return int64(int8(v))
	case types.Uint16:
		return int64(uint16(v))
	case types.Int16:
		return int64(int16(v))
	case types.Uint32:
		return int64(uint32(v))
	case types.Int32:
		return int64(int32(v))
	}
	return v
}

// foldRefuted: an assignment contradicts one of the facts it decides.
func (f *Facts) foldRefuted(m map[*Term]int64) bool {
	for _, l := range f.lits {
		if v, ok := foldInt(f.canon(l.t), m); ok && (v != 0) != l.v {
			return true
		}
	}
	return false
}

// foldCall: the value of a pure library function of constants.
func foldCall(name string, args []*Term, typ types.Type) *Term {
	as := make([]any, len(args))
	for i, a := range args {
		if n, ok := a.isInt(); ok {
			as[i] = n
		} else if s, ok := a.isStr(); ok {
			as[i] = s
		} else {
			return nil
		}
	}
	if len(as) == 0 {
		return nil
	}
	if name == "digits" && len(as) == 2 {
		if r := mkFmtInt(args[0], args[1]); r.op == OConst {
			return r
		}
		return nil
	}
	switch r := cNative(name, as).(type) {
	case string:
		return mkStr(r)
	case int64:
		return mkInt(r)
	case bool:
		return mkBool(r)
	}
	return nil
}

// fixed: the integers the facts pin to a constant.
func (f *Facts) fixed() map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, l := range f.lits {
		if !l.v || l.t.op != OEqZ {
			continue
		}
		x := l.t.args[0]
		if x.op == OLin && len(x.args) == 1 && (x.coef[0] == 1 || x.coef[0] == -1) {
			m[x.args[0]] = mkInt(-x.n * x.coef[0])
		} else if x.op != OLin {
			m[x] = tZeroInt
		}
	}
	return m
}

// foldInt evaluates an integer term; ok is false when it depends on anything unassigned.
func foldInt(t *Term, m map[*Term]int64) (int64, bool) {
	if v, ok := m[t]; ok {
		return v, true
	}
	switch t.op {
	case OConst:
		if t.val.Kind() == constant.Bool {
			if constant.BoolVal(t.val) {
				return 1, true
			}
			return 0, true
		}
		return t.isInt()
	case OZero:
		return 0, true
	case OLin:
		r := t.n
		for i, a := range t.args {
			v, ok := foldInt(a, m)
			if !ok {
				return 0, false
			}
			r += t.coef[i] * v
		}
		return r, true
	case OElem:
		i, ok := foldInt(t.args[1], m)
		if !ok {
			return 0, false
		}
		if tab := tableOf(t.args[0]); tab != nil {
			if v := tab.get(i); v != nil {
				return foldInt(v, m)
			}
			return 0, false
		}
		if s, ok := t.args[0].isStr(); ok && i >= 0 && i < int64(len(s)) {
			return int64(s[i]), true
		}
		return 0, false
	case OCall:
		if t.name == "indexByte" || t.name == "lastIndexByte" {
			s, ok1 := t.args[0].isStr()
			v, ok2 := foldInt(t.args[1], m)
			if !ok1 || !ok2 || v < 0 || v > 255 {
				return 0, false
			}
			if t.name == "indexByte" {
				return int64(strings.IndexByte(s, byte(v))), true
			}
			return int64(strings.LastIndexByte(s, byte(v))), true
		}
		return 0, false
	case OConv:
		v, ok := foldInt(t.args[0], m)
		if !ok || t.typ == nil || !isIntType(t.typ) {
			return 0, false
		}
		return truncTo(v, t.typ), true
	case OEqZ, OLe, ONot:
		v, ok := foldInt(t.args[0], m)
		if !ok {
			return 0, false
		}
		b := false
		switch t.op {
		case OEqZ, ONot:
			b = v == 0
		case OLe:
			b = v <= 0
		}
		if b {
			return 1, true
		}
		return 0, true
	case OEq:
		a, ok1 := foldInt(t.args[0], m)
		b, ok2 := foldInt(t.args[1], m)
		if !ok1 || !ok2 {
			return 0, false
		}
		if a == b {
			return 1, true
		}
		return 0, true
	case OBin:
		if len(t.args) != 2 {
			return 0, false
		}
		a, ok1 := foldInt(t.args[0], m)
		b, ok2 := foldInt(t.args[1], m)
		if !ok1 || !ok2 {
			return 0, false
		}
		var r int64
		switch t.name {
		case "+":
			r = a + b
		case "-":
			r = a - b
		case "*":
			r = a * b
		case "|":
			r = a | b
		case "&":
			r = a & b
		case "^":
			r = a ^ b
		case "&^":
			r = a &^ b
		case "<<":
			if b < 0 || b > 62 {
				return 0, false
			}
			r = a << uint(b)
		case ">>":
			if b < 0 || b > 62 {
				return 0, false
			}
			r = a >> uint(b)
		case "/":
			if b == 0 {
				return 0, false
			}
			r = a / b
		case "%":
			if b == 0 {
				return 0, false
			}
			r = a % b
		default:
			return 0, false
		}
		if t.typ != nil {
			r = truncTo(r, t.typ)
		}
		return r, true
	}
	return 0, false
}

// byteSet: the values a byte element can have on the path, by bounds, segments and by evaluating every
// recorded condition that depends on this element alone.
func (f *Facts) byteSet(e *Term) mask {
	e = f.canon(e)
	m := f.elemMask(e)
	for _, l := range f.lits {
		if !contains(l.t, e) {
			continue
		}
		var out mask
		okAll := true
		for i := 0; i < 256; i++ {
			if !m.has(byte(i)) {
				continue
			}
			v, ok := foldInt(l.t, map[*Term]int64{e: int64(i)})
			if !ok {
				okAll = false
				break
			}
			if (v != 0) == l.v {
				out = out.or(maskOf(byte(i)))
			}
		}
		if okAll {
			m = out
		}
	}
	return m
}

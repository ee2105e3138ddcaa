package main

// Constant propagation through package initialisers: what the package-level tables hold once the
// program is initialised, when that follows from the source alone. Values that depend on anything
// else are unknown; a branch on an unknown value ends the propagation for its package.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type (
	cUnk  struct{}
	cCell struct {
		v     any
		elems []*cCell
	}
	cSlice struct {
		arr         *cCell
		off, n, cap int
	}
	cMap struct {
		keys, vals []any
	}
	cFn struct {
		fn    *ssa.Function
		binds []any
	}
	cIface struct {
		t types.Type
		v any
	}
	cAgg  struct{ el []any }
	cTup  struct{ el []any }
	cNil  struct{}
	cIter struct {
		s string
		m *cMap
		i int
	}
)

type initAbort struct{ why string }

type initEval struct {
	p       *Program
	globals map[*ssa.Global]*cCell
	done    map[*ssa.Package]bool
	aborted map[*ssa.Package]bool
	steps   int
}

func newCell(t types.Type) *cCell {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		c := &cCell{}
		for i := 0; i < u.NumFields(); i++ {
			c.elems = append(c.elems, newCell(u.Field(i).Type()))
		}
		if c.elems == nil {
			c.elems = []*cCell{}
		}
		return c
	case *types.Array:
		c := &cCell{elems: []*cCell{}}
		if u.Len() > 1<<16 {
			return &cCell{v: cUnk{}}
		}
		for i := int64(0); i < u.Len(); i++ {
			c.elems = append(c.elems, newCell(u.Elem()))
		}
		return c
	}
	return &cCell{v: zeroC(t)}
}

func zeroC(t types.Type) any {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		}
	case *types.Struct, *types.Array:
		return newCell(t).get()
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return cNil{}
	}
	return cUnk{}
}

func (c *cCell) get() any {
	if c.elems == nil {
		return c.v
	}
	a := cAgg{}
	for _, e := range c.elems {
		a.el = append(a.el, e.get())
	}
	return a
}

func (c *cCell) set(v any) {
	if c.elems == nil {
		c.v = v
		return
	}
	a, ok := v.(cAgg)
	if !ok || len(a.el) != len(c.elems) {
		for _, e := range c.elems {
			e.poison(nil)
		}
		return
	}
	for i, e := range c.elems {
		e.set(a.el[i])
	}
}

func (c *cCell) poison(seen map[*cCell]bool) {
	if seen == nil {
		seen = map[*cCell]bool{}
	}
	if seen[c] {
		return
	}
	seen[c] = true
	poisonVal(c.v, seen)
	if c.elems == nil {
		c.v = cUnk{}
	}
	for _, e := range c.elems {
		e.poison(seen)
	}
}

func poisonVal(v any, seen map[*cCell]bool) {
	switch x := v.(type) {
	case *cCell:
		x.poison(seen)
	case cSlice:
		x.arr.poison(seen)
	case *cMap:
		x.keys, x.vals = append(x.keys, cUnk{}), append(x.vals, cUnk{})
	case cIface:
		poisonVal(x.v, seen)
	case cAgg:
		for _, e := range x.el {
			poisonVal(e, seen)
		}
	case cFn:
		for _, e := range x.binds {
			poisonVal(e, seen)
		}
	}
}

func (p *Program) evalInits() *initEval {
	ie := &initEval{p: p, globals: map[*ssa.Global]*cCell{}, done: map[*ssa.Package]bool{}, aborted: map[*ssa.Package]bool{}}
	var paths []string
	for k := range p.pkgs {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		if pi := p.pkgs[k]; pi.repo && pi.ssa != nil {
			ie.pkg(pi.ssa)
		}
	}
	return ie
}

func (ie *initEval) pkg(p *ssa.Package) {
	if p == nil || ie.done[p] || !isRepoPkg(p.Pkg) {
		return
	}
	ie.done[p] = true
	f := p.Func("init")
	if f == nil || len(f.Blocks) == 0 {
		return
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				ie.aborted[p] = true
			}
		}()
		ie.steps = 0
		ie.call(f, nil, nil, 0)
	}()
}

func (ie *initEval) global(g *ssa.Global) *cCell {
	c := ie.globals[g]
	if c == nil {
		if g.Pkg != nil && isRepoPkg(g.Pkg.Pkg) {
			c = newCell(deref(g.Type()))
		} else {
			c = newCell(deref(g.Type()))
			c.poison(nil)
		}
		ie.globals[g] = c
	}
	return c
}

func (ie *initEval) call(f *ssa.Function, args, binds []any, depth int) any {
	if depth > 60 {
		panic(initAbort{"depth"})
	}
	env := map[ssa.Value]any{}
	for i, p := range f.Params {
		if i < len(args) {
			env[p] = args[i]
		}
	}
	for i, p := range f.FreeVars {
		if i < len(binds) {
			env[p] = binds[i]
		}
	}
	var prev *ssa.BasicBlock
	b := f.Blocks[0]
	var defers []func()
	for {
		// phis first
		var ph []any
		n := 0
		for _, ins := range b.Instrs {
			p, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			for i, pr := range b.Preds {
				if pr == prev {
					ph = append(ph, ie.val(env, p.Edges[i]))
					break
				}
			}
			n++
		}
		for i := 0; i < n; i++ {
			env[b.Instrs[i].(*ssa.Phi)] = ph[i]
		}
		var next *ssa.BasicBlock
		for _, ins := range b.Instrs[n:] {
			ie.steps++
			if ie.steps > 3_000_000 {
				panic(initAbort{"steps"})
			}
			switch x := ins.(type) {
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.If:
				c, ok := ie.val(env, x.Cond).(bool)
				if !ok {
					panic(initAbort{"branch on an unknown value"})
				}
				if c {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Return:
				for i := len(defers) - 1; i >= 0; i-- {
					defers[i]()
				}
				switch len(x.Results) {
				case 0:
					return cTup{}
				case 1:
					return ie.val(env, x.Results[0])
				}
				t := cTup{}
				for _, r := range x.Results {
					t.el = append(t.el, ie.val(env, r))
				}
				return t
			case *ssa.RunDefers:
			case *ssa.Panic:
				panic(initAbort{"panic"})
			case *ssa.Defer:
				cc := x.Common()
				var as []any
				for _, a := range cc.Args {
					as = append(as, ie.val(env, a))
				}
				fv := any(cUnk{})
				if !cc.IsInvoke() {
					fv = ie.val(env, cc.Value)
				}
				defers = append(defers, func() { ie.apply(fv, cc, as, depth) })
			case *ssa.Go:
				for _, a := range x.Call.Args {
					poisonVal(ie.val(env, a), map[*cCell]bool{})
				}
				poisonVal(ie.val(env, x.Call.Value), map[*cCell]bool{})
			case *ssa.Store:
				c, ok := ie.val(env, x.Addr).(*cCell)
				if !ok {
					panic(initAbort{"store through an unknown pointer"})
				}
				c.set(ie.val(env, x.Val))
			case *ssa.MapUpdate:
				m, ok := ie.val(env, x.Map).(*cMap)
				if !ok {
					panic(initAbort{"update of an unknown map"})
				}
				m.put(ie.val(env, x.Key), ie.val(env, x.Value))
			case *ssa.Send:
				poisonVal(ie.val(env, x.X), map[*cCell]bool{})
			case *ssa.DebugRef:
			default:
				if v, ok := ins.(ssa.Value); ok {
					env[v] = ie.eval(env, v, depth)
				}
			}
		}
		if next == nil {
			panic(initAbort{"no successor"})
		}
		prev, b = b, next
	}
}

func cEq(a, b any) (bool, bool) {
	switch x := a.(type) {
	case cUnk:
		return false, false
	case int64, string, bool, float64:
		if _, u := b.(cUnk); u {
			return false, false
		}
		return a == b, true
	case cNil:
		switch b.(type) {
		case cUnk:
			return false, false
		case cNil:
			return true, true
		}
		return false, true
	case cIface:
		y, ok := b.(cIface)
		if !ok {
			if _, n := b.(cNil); n {
				return false, true
			}
			return false, false
		}
		if !types.Identical(x.t, y.t) {
			return false, true
		}
		return cEq(x.v, y.v)
	case cAgg:
		y, ok := b.(cAgg)
		if !ok {
			return false, false
		}
		for i := range x.el {
			e, k := cEq(x.el[i], y.el[i])
			if !k || !e {
				return e, k
			}
		}
		return true, true
	case *cCell:
		if y, ok := b.(*cCell); ok {
			return x == y, true
		}
		if _, ok := b.(cNil); ok {
			return false, true
		}
	case cSlice, *cMap, cFn:
		if _, ok := b.(cNil); ok {
			return false, true
		}
	}
	return false, false
}

func (m *cMap) put(k, v any) {
	for i := range m.keys {
		e, known := cEq(m.keys[i], k)
		if !known {
			m.keys, m.vals = append(m.keys, cUnk{}), append(m.vals, cUnk{})
			return
		}
		if e {
			m.vals[i] = v
			return
		}
	}
	m.keys, m.vals = append(m.keys, k), append(m.vals, v)
}

// get: value, present, known
func (m *cMap) get(k any) (any, bool, bool) {
	for i := range m.keys {
		e, known := cEq(m.keys[i], k)
		if !known {
			return nil, false, false
		}
		if e {
			return m.vals[i], true, true
		}
	}
	return nil, false, true
}

func (ie *initEval) val(env map[ssa.Value]any, v ssa.Value) any {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroC(x.Type())
		}
		return cConst(x.Value, x.Type())
	case *ssa.Global:
		return ie.global(x)
	case *ssa.Function:
		return cFn{fn: x}
	case *ssa.Builtin:
		return cUnk{}
	}
	if r, ok := env[v]; ok {
		return r
	}
	return cUnk{}
}

func cConst(v constant.Value, t types.Type) any {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return cUnk{}
	}
	switch {
	case b.Info()&types.IsInteger != 0:
		n, ok := constant.Int64Val(constant.ToInt(v))
		if !ok {
			u, ok := constant.Uint64Val(constant.ToInt(v))
			if !ok {
				return cUnk{}
			}
			n = int64(u)
		}
		return n
	case b.Info()&types.IsString != 0:
		if v.Kind() == constant.Int {
			n, _ := constant.Int64Val(v)
			return string(rune(n))
		}
		return constant.StringVal(v)
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(v)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(v)
		return f
	}
	return cUnk{}
}

func (ie *initEval) eval(env map[ssa.Value]any, v ssa.Value, depth int) any {
	switch x := v.(type) {
	case *ssa.Alloc:
		return newCell(deref(x.Type()))
	case *ssa.BinOp:
		return cBin(x.Op, ie.val(env, x.X), ie.val(env, x.Y), x.X.Type(), x.Type())
	case *ssa.UnOp:
		a := ie.val(env, x.X)
		switch x.Op {
		case token.MUL:
			if c, ok := a.(*cCell); ok {
				return c.get()
			}
		case token.NOT:
			if b, ok := a.(bool); ok {
				return !b
			}
		case token.SUB:
			if n, ok := a.(int64); ok {
				return truncTo(-n, x.Type())
			}
		case token.XOR:
			if n, ok := a.(int64); ok {
				return truncTo(^n, x.Type())
			}
		}
		return cUnk{}
	case *ssa.FieldAddr:
		if c, ok := ie.val(env, x.X).(*cCell); ok && x.Field < len(c.elems) {
			return c.elems[x.Field]
		}
		return cUnk{}
	case *ssa.Field:
		if a, ok := ie.val(env, x.X).(cAgg); ok && x.Field < len(a.el) {
			return a.el[x.Field]
		}
		return cUnk{}
	case *ssa.IndexAddr:
		i, ok := ie.val(env, x.Index).(int64)
		switch b := ie.val(env, x.X).(type) {
		case *cCell:
			if ok && i >= 0 && int(i) < len(b.elems) {
				return b.elems[i]
			}
			if !ok {
				b.poison(nil)
			}
		case cSlice:
			if ok && i >= 0 && int(i) < b.n {
				return b.arr.elems[b.off+int(i)]
			}
			if !ok {
				b.arr.poison(nil)
			}
		}
		if ok {
			panic(initAbort{"index out of range"})
		}
		return cUnk{}
	case *ssa.Index:
		i, ok := ie.val(env, x.Index).(int64)
		if !ok {
			return cUnk{}
		}
		switch b := ie.val(env, x.X).(type) {
		case cAgg:
			if i >= 0 && int(i) < len(b.el) {
				return b.el[i]
			}
		case string:
			if i >= 0 && int(i) < len(b) {
				return int64(b[i])
			}
		}
		return cUnk{}
	case *ssa.Lookup:
		k := ie.val(env, x.Index)
		switch m := ie.val(env, x.X).(type) {
		case string:
			if i, ok := k.(int64); ok && i >= 0 && int(i) < len(m) {
				return int64(m[i])
			}
		case *cMap:
			r, present, known := m.get(k)
			if !known {
				if x.CommaOk {
					return cTup{[]any{cUnk{}, cUnk{}}}
				}
				return cUnk{}
			}
			if !present {
				t := x.Type()
				if x.CommaOk {
					t = t.(*types.Tuple).At(0).Type()
				}
				r = zeroC(t)
			}
			if x.CommaOk {
				return cTup{[]any{r, present}}
			}
			return r
		}
		if x.CommaOk {
			return cTup{[]any{cUnk{}, cUnk{}}}
		}
		return cUnk{}
	case *ssa.Slice:
		lo, hi := 0, -1
		get := func(v ssa.Value, def int) (int, bool) {
			if v == nil {
				return def, true
			}
			n, ok := ie.val(env, v).(int64)
			return int(n), ok
		}
		a := ie.val(env, x.X)
		var k1, k2 bool
		lo, k1 = get(x.Low, 0)
		switch b := a.(type) {
		case string:
			hi, k2 = get(x.High, len(b))
			if k1 && k2 && lo >= 0 && lo <= hi && hi <= len(b) {
				return b[lo:hi]
			}
		case cSlice:
			hi, k2 = get(x.High, b.n)
			mx, k3 := get(x.Max, b.cap)
			if k1 && k2 && k3 && lo >= 0 && lo <= hi && hi <= mx && mx <= b.cap {
				return cSlice{b.arr, b.off + lo, hi - lo, mx - lo}
			}
		case *cCell:
			hi, k2 = get(x.High, len(b.elems))
			if k1 && k2 && lo >= 0 && lo <= hi && hi <= len(b.elems) {
				return cSlice{b, lo, hi - lo, len(b.elems) - lo}
			}
		case cNil:
			return b
		}
		poisonVal(a, map[*cCell]bool{})
		return cUnk{}
	case *ssa.MakeSlice:
		n, ok := ie.val(env, x.Len).(int64)
		c, ok2 := ie.val(env, x.Cap).(int64)
		if !ok || !ok2 || n < 0 || c < n || c > 1<<16 {
			return cUnk{}
		}
		arr := &cCell{elems: []*cCell{}}
		el := x.Type().Underlying().(*types.Slice).Elem()
		for i := int64(0); i < c; i++ {
			arr.elems = append(arr.elems, newCell(el))
		}
		return cSlice{arr, 0, int(n), int(c)}
	case *ssa.MakeMap:
		return &cMap{}
	case *ssa.MakeInterface:
		return cIface{x.X.Type(), ie.val(env, x.X)}
	case *ssa.ChangeInterface:
		return ie.val(env, x.X)
	case *ssa.ChangeType:
		return ie.val(env, x.X)
	case *ssa.MakeClosure:
		f := cFn{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.binds = append(f.binds, ie.val(env, b))
		}
		return f
	case *ssa.TypeAssert:
		a, ok := ie.val(env, x.X).(cIface)
		if ok && !types.IsInterface(x.AssertedType) && !x.CommaOk && types.Identical(a.t, x.AssertedType) {
			return a.v
		}
		if x.CommaOk {
			return cTup{[]any{cUnk{}, cUnk{}}}
		}
		return cUnk{}
	case *ssa.Extract:
		if t, ok := ie.val(env, x.Tuple).(cTup); ok && x.Index < len(t.el) {
			return t.el[x.Index]
		}
		return cUnk{}
	case *ssa.Convert:
		return cConvert(ie.val(env, x.X), x.X.Type(), x.Type())
	case *ssa.Range:
		switch a := ie.val(env, x.X).(type) {
		case string:
			return &cIter{s: a}
		case *cMap:
			return &cIter{m: a}
		case cNil:
			return &cIter{m: &cMap{}}
		}
		return cUnk{}
	case *ssa.Next:
		it, ok := ie.val(env, x.Iter).(*cIter)
		if !ok {
			return cTup{[]any{cUnk{}, cUnk{}, cUnk{}}}
		}
		if it.m != nil {
			if it.i >= len(it.m.keys) {
				return cTup{[]any{false, cUnk{}, cUnk{}}}
			}
			it.i++
			return cTup{[]any{true, it.m.keys[it.i-1], it.m.vals[it.i-1]}}
		}
		if it.i >= len(it.s) {
			return cTup{[]any{false, int64(0), int64(0)}}
		}
		at := it.i
		r := []rune(it.s[at:])[0]
		n := len(string(r))
		if r == 0xfffd {
			n = 1
		}
		it.i += n
		return cTup{[]any{true, int64(at), int64(r)}}
	case *ssa.Call:
		cc := x.Common()
		var as []any
		for _, a := range cc.Args {
			as = append(as, ie.val(env, a))
		}
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			return ie.builtin(b.Name(), as, cc, x.Type())
		}
		fv := any(cUnk{})
		if cc.IsInvoke() {
			poisonVal(ie.val(env, cc.Value), map[*cCell]bool{})
		} else {
			fv = ie.val(env, cc.Value)
		}
		return ie.apply(fv, cc, as, depth)
	}
	return cUnk{}
}

func cUnkOf(t types.Type) any {
	if tu, ok := t.(*types.Tuple); ok {
		r := cTup{}
		for i := 0; i < tu.Len(); i++ {
			r.el = append(r.el, cUnk{})
		}
		return r
	}
	return cUnk{}
}

func (ie *initEval) apply(fv any, cc *ssa.CallCommon, as []any, depth int) any {
	f, ok := fv.(cFn)
	if ok && f.fn.Name() == "init" && f.fn.Synthetic != "" {
		// an imported package
		save := ie.steps
		ie.pkg(f.fn.Pkg)
		ie.steps = save
		return cTup{}
	}
	if ok && f.fn.Pkg != nil && isRepoPkg(f.fn.Pkg.Pkg) && len(f.fn.Blocks) > 0 {
		return ie.call(f.fn, as, f.binds, depth+1)
	}
	if ok && f.fn.Pkg == nil && f.fn.Origin() != nil && f.fn.Origin().Pkg != nil && isRepoPkg(f.fn.Origin().Pkg.Pkg) && len(f.fn.Blocks) > 0 {
		return ie.call(f.fn, as, f.binds, depth+1)
	}
	if ok {
		if r := cNative(fnName(f.fn), as); r != nil {
			return r
		}
	}
	for _, a := range as {
		poisonVal(a, map[*cCell]bool{})
	}
	poisonVal(fv, map[*cCell]bool{})
	res := cc.Signature().Results()
	switch res.Len() {
	case 0:
		return cTup{}
	case 1:
		return cUnk{}
	}
	return cUnkOf(res)
}

func cNative(name string, as []any) any {
	str := func(i int) (string, bool) {
		if i >= len(as) {
			return "", false
		}
		s, ok := as[i].(string)
		return s, ok
	}
	num := func(i int) (int64, bool) {
		if i >= len(as) {
			return 0, false
		}
		s, ok := as[i].(int64)
		return s, ok
	}
	a, ok := str(0)
	b, ok2 := str(1)
	n1, okn := num(1)
	switch name {
	case "strings.ToUpper":
		if ok {
			return strings.ToUpper(a)
		}
	case "strings.ToLower":
		if ok {
			return strings.ToLower(a)
		}
	case "strings.TrimSpace":
		if ok {
			return strings.TrimSpace(a)
		}
	case "strings.TrimPrefix":
		if ok && ok2 {
			return strings.TrimPrefix(a, b)
		}
	case "strings.TrimSuffix":
		if ok && ok2 {
			return strings.TrimSuffix(a, b)
		}
	case "strings.HasPrefix":
		if ok && ok2 {
			return strings.HasPrefix(a, b)
		}
	case "strings.HasSuffix":
		if ok && ok2 {
			return strings.HasSuffix(a, b)
		}
	case "strings.IndexByte":
		if ok && okn {
			return int64(strings.IndexByte(a, byte(n1)))
		}
	case "strings.Contains":
		if ok && ok2 {
			return strings.Contains(a, b)
		}
	case "strings.Repeat":
		if ok && okn && n1 >= 0 && n1 < 1<<16 {
			return strings.Repeat(a, int(n1))
		}
	case "strings.Split":
		if ok && ok2 {
			return cStrings(strings.Split(a, b))
		}
	case "strings.Fields":
		if ok {
			return cStrings(strings.Fields(a))
		}
	case "strconv.Itoa":
		if n, ok := num(0); ok {
			return strconv.Itoa(int(n))
		}
	case "strconv.FormatInt":
		if n, ok := num(0); ok && okn && n1 >= 2 && n1 <= 36 {
			return strconv.FormatInt(n, int(n1))
		}
	}
	return nil
}

func cStrings(l []string) any {
	arr := &cCell{elems: []*cCell{}}
	for _, s := range l {
		arr.elems = append(arr.elems, &cCell{v: s})
	}
	return cSlice{arr, 0, len(l), len(l)}
}

func (ie *initEval) builtin(name string, as []any, cc *ssa.CallCommon, rt types.Type) any {
	switch name {
	case "len", "cap":
		switch a := as[0].(type) {
		case string:
			return int64(len(a))
		case cSlice:
			if name == "cap" {
				return int64(a.cap)
			}
			return int64(a.n)
		case *cMap:
			return int64(len(a.keys))
		case cNil:
			return int64(0)
		case cAgg:
			return int64(len(a.el))
		case *cCell:
			return int64(len(a.elems))
		}
		return cUnk{}
	case "append":
		a := as[0]
		if _, ok := a.(cNil); ok {
			a = cSlice{&cCell{elems: []*cCell{}}, 0, 0, 0}
		}
		s, ok := a.(cSlice)
		var add []any
		ok2 := true
		if len(as) > 1 {
			switch t := as[1].(type) {
			case cSlice:
				for i := 0; i < t.n; i++ {
					add = append(add, t.arr.elems[t.off+i].get())
				}
			case string:
				for i := 0; i < len(t); i++ {
					add = append(add, int64(t[i]))
				}
			case cNil:
			default:
				ok2 = false
			}
		}
		if !ok || !ok2 {
			poisonVal(as[0], map[*cCell]bool{})
			return cUnk{}
		}
		el := rt.Underlying().(*types.Slice).Elem()
		n := cSlice{s.arr, s.off, s.n + len(add), s.cap}
		if n.n > s.cap {
			arr := &cCell{elems: []*cCell{}}
			for i := 0; i < s.n; i++ {
				c := newCell(el)
				c.set(s.arr.elems[s.off+i].get())
				arr.elems = append(arr.elems, c)
			}
			for range add {
				arr.elems = append(arr.elems, newCell(el))
			}
			n = cSlice{arr, 0, s.n + len(add), s.n + len(add)}
		}
		for i, v := range add {
			n.arr.elems[n.off+s.n+i].set(v)
		}
		return n
	case "copy":
		d, ok := as[0].(cSlice)
		if !ok {
			poisonVal(as[0], map[*cCell]bool{})
			return cUnk{}
		}
		switch t := as[1].(type) {
		case cSlice:
			n := min(d.n, t.n)
			var tmp []any
			for i := 0; i < n; i++ {
				tmp = append(tmp, t.arr.elems[t.off+i].get())
			}
			for i, v := range tmp {
				d.arr.elems[d.off+i].set(v)
			}
			return int64(n)
		case string:
			n := min(d.n, len(t))
			for i := 0; i < n; i++ {
				d.arr.elems[d.off+i].set(int64(t[i]))
			}
			return int64(n)
		}
		poisonVal(as[0], map[*cCell]bool{})
		return cUnk{}
	case "delete":
		m, ok := as[0].(*cMap)
		if !ok {
			return cTup{}
		}
		for i := range m.keys {
			e, known := cEq(m.keys[i], as[1])
			if !known {
				m.keys, m.vals = append(m.keys, cUnk{}), append(m.vals, cUnk{})
				return cTup{}
			}
			if e {
				m.keys = append(append([]any{}, m.keys[:i]...), m.keys[i+1:]...)
				m.vals = append(append([]any{}, m.vals[:i]...), m.vals[i+1:]...)
				break
			}
		}
		return cTup{}
	case "min", "max":
		r, ok := as[0].(int64)
		for _, a := range as[1:] {
			n, k := a.(int64)
			ok = ok && k
			if name == "min" && n < r || name == "max" && n > r {
				r = n
			}
		}
		if ok {
			return r
		}
		return cUnk{}
	}
	for _, a := range as {
		poisonVal(a, map[*cCell]bool{})
	}
	return cUnk{}
}

func cConvert(v any, from, to types.Type) any {
	tb, _ := to.Underlying().(*types.Basic)
	switch a := v.(type) {
	case int64:
		if tb != nil {
			if tb.Info()&types.IsInteger != 0 {
				return truncTo(a, to)
			}
			if tb.Info()&types.IsString != 0 {
				return string(rune(a))
			}
			if tb.Info()&types.IsFloat != 0 {
				return float64(a)
			}
		}
	case float64:
		if tb != nil && tb.Info()&types.IsInteger != 0 && !math.IsNaN(a) {
			return truncTo(int64(a), to)
		}
		if tb != nil && tb.Info()&types.IsFloat != 0 {
			return a
		}
	case string:
		if tb != nil {
			return a
		}
		if sl, ok := to.Underlying().(*types.Slice); ok {
			arr := &cCell{elems: []*cCell{}}
			if isByteT(sl.Elem()) {
				for i := 0; i < len(a); i++ {
					arr.elems = append(arr.elems, &cCell{v: int64(a[i])})
				}
			} else {
				for _, r := range a {
					arr.elems = append(arr.elems, &cCell{v: int64(r)})
				}
			}
			return cSlice{arr, 0, len(arr.elems), len(arr.elems)}
		}
	case cSlice:
		if tb != nil && tb.Info()&types.IsString != 0 {
			var b []byte
			for i := 0; i < a.n; i++ {
				n, ok := a.arr.elems[a.off+i].v.(int64)
				if !ok {
					return cUnk{}
				}
				if sl, ok := from.Underlying().(*types.Slice); ok && isByteT(sl.Elem()) {
					b = append(b, byte(n))
				} else {
					b = append(b, string(rune(n))...)
				}
			}
			return string(b)
		}
	case cNil:
		if tb != nil && tb.Info()&types.IsString != 0 {
			return ""
		}
		return a
	}
	return cUnk{}
}

func isByteT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func cBin(op token.Token, a, b any, ot, rt types.Type) any {
	if op == token.EQL || op == token.NEQ {
		e, known := cEq(a, b)
		if !known {
			// nil compared the other way round
			e, known = cEq(b, a)
		}
		if !known {
			return cUnk{}
		}
		return e == (op == token.EQL)
	}
	if x, ok := a.(int64); ok {
		y, ok := b.(int64)
		if !ok {
			return cUnk{}
		}
		uns := false
		if bt, ok := ot.Underlying().(*types.Basic); ok {
			uns = bt.Info()&types.IsUnsigned != 0
		}
		switch op {
		case token.ADD:
			return truncTo(x+y, rt)
		case token.SUB:
			return truncTo(x-y, rt)
		case token.MUL:
			return truncTo(x*y, rt)
		case token.QUO:
			if y == 0 {
				return cUnk{}
			}
			if uns {
				return int64(uint64(x) / uint64(y))
			}
			return truncTo(x/y, rt)
		case token.REM:
			if y == 0 {
				return cUnk{}
			}
			if uns {
				return int64(uint64(x) % uint64(y))
			}
			return truncTo(x%y, rt)
		case token.AND:
			return x & y
		case token.OR:
			return x | y
		case token.XOR:
			return truncTo(x^y, rt)
		case token.AND_NOT:
			return x &^ y
		case token.SHL:
			if y < 0 || y > 63 {
				return int64(0)
			}
			return truncTo(x<<uint(y), rt)
		case token.SHR:
			if y < 0 || y > 63 {
				return int64(0)
			}
			if uns {
				return int64(uint64(x) >> uint(y))
			}
			return x >> uint(y)
		}
		var c int
		switch {
		case uns && uint64(x) < uint64(y) || !uns && x < y:
			c = -1
		case x != y:
			c = 1
		}
		return cCmp(op, c)
	}
	if x, ok := a.(string); ok {
		y, ok := b.(string)
		if !ok {
			return cUnk{}
		}
		if op == token.ADD {
			return x + y
		}
		return cCmp(op, strings.Compare(x, y))
	}
	if x, ok := a.(float64); ok {
		if y, ok := b.(float64); ok {
			switch op {
			case token.ADD:
				return x + y
			case token.SUB:
				return x - y
			case token.MUL:
				return x * y
			}
		}
	}
	return cUnk{}
}

func cCmp(op token.Token, c int) any {
	switch op {
	case token.LSS:
		return c < 0
	case token.LEQ:
		return c <= 0
	case token.GTR:
		return c > 0
	case token.GEQ:
		return c >= 0
	}
	return cUnk{}
}

// cTerm turns a known value into a term; nil when something about it is unknown.
func cTerm(v any, t types.Type) *Term {
	switch x := v.(type) {
	case int64:
		return mkConstVal(constant.MakeInt64(x), t)
	case string:
		return mkConstVal(constant.MakeString(x), t)
	case bool:
		return mkConstVal(constant.MakeBool(x), t)
	case cNil:
		return tNil
	case cIface:
		if v := cTerm(x.v, x.t); v != nil {
			return mk(Term{op: OIface, args: []*Term{v}, typ: x.t})
		}
	case cFn:
		if len(x.binds) == 0 {
			return mk(Term{op: OFunc, obj: x.fn, name: x.fn.String(), typ: t})
		}
	case cAgg:
		st := structOf(t)
		if st == nil {
			if arr, ok := t.Underlying().(*types.Array); ok {
				if tab := cTable(v, arr); tab != nil {
					return mk(Term{op: OCall, name: fmt.Sprintf("table%p", tab), obj: tab, typ: t})
				}
			}
			return nil
		}
		if len(x.el) != st.NumFields() {
			return nil
		}
		args := make([]*Term, len(x.el))
		for i := range args {
			if args[i] = cTerm(x.el[i], st.Field(i).Type()); args[i] == nil {
				return nil
			}
		}
		return mk(Term{op: OAgg, typ: t, args: args})
	case cSlice:
		if tab := cTable(v, t); tab != nil {
			return mk(Term{op: OCall, name: fmt.Sprintf("table%p", tab), obj: tab, typ: t})
		}
	}
	return nil
}

// cTable turns a known array, slice or map into a table.
func cTable(v any, t types.Type) *Table {
	tab := &Table{}
	add := func(i int, el any, et types.Type) bool {
		k := cTerm(el, et)
		if k == nil {
			return false
		}
		tab.keys = append(tab.keys, mkInt(int64(i)))
		tab.vals = append(tab.vals, k)
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Array:
		a, ok := v.(cAgg)
		if !ok {
			return nil
		}
		tab.kind, tab.elem, tab.n = "array", u.Elem(), u.Len()
		for i, el := range a.el {
			if !add(i, el, u.Elem()) {
				return nil
			}
		}
		return tab
	case *types.Slice:
		a, ok := v.(cSlice)
		if !ok {
			return nil
		}
		tab.kind, tab.elem, tab.n = "slice", u.Elem(), int64(a.n)
		for i := 0; i < a.n; i++ {
			if !add(i, a.arr.elems[a.off+i].get(), u.Elem()) {
				return nil
			}
		}
		return tab
	case *types.Map:
		m, ok := v.(*cMap)
		if !ok {
			return nil
		}
		tab.kind, tab.elem, tab.n = "map", u.Elem(), int64(len(m.keys))
		for i := range m.keys {
			k, w := cTerm(m.keys[i], u.Key()), cTerm(m.vals[i], u.Elem())
			if k == nil || w == nil {
				return nil
			}
			tab.keys = append(tab.keys, k)
			tab.vals = append(tab.vals, w)
		}
		return tab
	}
	return nil
}

package main

// A whole-repository points-to analysis (inclusion-based, field-sensitive, allocation-site heap,
// calls resolved through the points-to sets). Strings, numbers and the like are not tracked.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ptObj struct {
	id    int
	site  ssa.Value // nil for objects of the environment
	fn    *ssa.Function
	typ   types.Type // type of the memory (struct, element container, closure)
	kind  string     // alloc, slice, map, chan, closure, global, env, box, string
	label string
	of    *ptObj // the object an inner one lies in, and where
	sub   string
	clip  bool // a slice of it without spare capacity
	stack bool // never outlives its function
}

type ptNode struct {
	pts  map[*ptObj]bool
	succ []*ptNode
	name string
}

type ptKey struct {
	base any // ssa.Value, *ptObj, or retKey
	path string
}

type retKey struct {
	fn *ssa.Function
	i  int
}

type pointsTo struct {
	p       *Program
	skip    func(*ssa.Function) bool
	nodes   map[ptKey]*ptNode
	objs    []*ptObj
	siteObj map[any]*ptObj
	fnObj   map[*ssa.Function]*ptObj
	done    map[*ssa.Function]bool
	work    []*ssa.Function
	// deferred constraints, evaluated until nothing changes
	rules   []func() bool
	callees map[ssa.CallInstruction]map[*ssa.Function]bool
	callers map[*ssa.Function]int
	linked  map[string]bool
}

func newPointsTo(p *Program, skip func(*ssa.Function) bool) *pointsTo {
	return &pointsTo{p: p, skip: skip, nodes: map[ptKey]*ptNode{}, siteObj: map[any]*ptObj{}, fnObj: map[*ssa.Function]*ptObj{},
		done: map[*ssa.Function]bool{}, callees: map[ssa.CallInstruction]map[*ssa.Function]bool{}, callers: map[*ssa.Function]int{}, linked: map[string]bool{}}
}

func (a *pointsTo) node(base any, path string) *ptNode {
	k := ptKey{base, path}
	n := a.nodes[k]
	if n == nil {
		n = &ptNode{pts: map[*ptObj]bool{}}
		a.nodes[k] = n
	}
	return n
}

func (a *pointsTo) obj(key any, mk func() *ptObj) *ptObj {
	if o := a.siteObj[key]; o != nil {
		return o
	}
	o := mk()
	o.id = len(a.objs)
	a.objs = append(a.objs, o)
	a.siteObj[key] = o
	return o
}

// leaves: the paths of a type at which references are kept.
func leaves(t types.Type) []string {
	var out []string
	var walk func(t types.Type, path string, d int)
	walk = func(t types.Type, path string, d int) {
		switch u := t.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
			out = append(out, path)
		case *types.Basic:
			if u.Kind() == types.UnsafePointer {
				out = append(out, path)
			}
		case *types.Struct:
			if d > 8 {
				return
			}
			for i := 0; i < u.NumFields(); i++ {
				walk(u.Field(i).Type(), path+"."+u.Field(i).Name(), d+1)
			}
		case *types.Array:
			if d > 8 {
				return
			}
			walk(u.Elem(), path+"[]", d+1)
		case *types.Tuple:
			for i := 0; i < u.Len(); i++ {
				walk(u.At(i).Type(), fmt.Sprintf("%s#%d", path, i), d+1)
			}
		}
	}
	walk(t, "", 0)
	return out
}

func (a *pointsTo) add(n *ptNode, o *ptObj) bool {
	if n.pts[o] {
		return false
	}
	n.pts[o] = true
	return true
}

func (a *pointsTo) flow(from, to *ptNode) bool {
	ch := false
	for o := range from.pts {
		if !to.pts[o] {
			to.pts[o] = true
			ch = true
		}
	}
	return ch
}

// an address is an object and a path in it: pointers into the middle of an object are objects of
// their own kind ("inner"), so that a points-to set remains a set of objects.
type clipKey struct {
	o    *ptObj
	path string
}

type innerKey struct {
	o    *ptObj
	path string
}

func (a *pointsTo) inner(o *ptObj, path string, t types.Type) *ptObj {
	if path == "" {
		return o
	}
	b, pre := a.base(o)
	full := pre + path
	if strings.Count(full, ".")+strings.Count(full, "[]") > 12 {
		return o
	}
	return a.obj(innerKey{b, full}, func() *ptObj {
		return &ptObj{kind: "inner", typ: t, label: full, fn: b.fn, of: b, sub: full}
	})
}

func (a *pointsTo) base(o *ptObj) (*ptObj, string) {
	if o.of == nil {
		return o, ""
	}
	return o.of, o.sub
}

// reach schedules a function.
func (a *pointsTo) reach(f *ssa.Function) {
	if f == nil || a.done[f] || len(f.Blocks) == 0 || a.skip(f) {
		return
	}
	a.done[f] = true
	a.work = append(a.work, f)
}

func (a *pointsTo) solve() {
	for {
		ch := false
		for len(a.work) > 0 {
			f := a.work[len(a.work)-1]
			a.work = a.work[:len(a.work)-1]
			a.gen(f)
			ch = true
		}
		for i := 0; i < len(a.rules); i++ {
			if a.rules[i]() {
				ch = true
			}
		}
		if !ch {
			return
		}
	}
}

// copyVal: whatever references src holds, dst holds as well.
func (a *pointsTo) copyVal(dst any, dp string, src any, sp string, t types.Type) {
	for _, l := range leaves(t) {
		d, s := a.node(dst, dp+l), a.node(src, sp+l)
		a.rules = append(a.rules, func() bool { return a.flow(s, d) })
	}
}

// val makes sure that constants of a value (functions, globals) have their objects.
func (a *pointsTo) val(v ssa.Value) ssa.Value {
	switch x := v.(type) {
	case *ssa.Function:
		a.add(a.node(x, ""), a.funcObj(x))
		a.reach(x)
	case *ssa.Global:
		o := a.obj(x, func() *ptObj {
			return &ptObj{site: x, typ: x.Type().(*types.Pointer).Elem(), kind: "global", label: x.String()}
		})
		a.add(a.node(x, ""), o)
	}
	return v
}

func (a *pointsTo) funcObj(f *ssa.Function) *ptObj {
	o := a.obj(f, func() *ptObj { return &ptObj{fn: f, kind: "func", typ: f.Signature, label: f.String()} })
	a.fnObj[f] = o
	return o
}

func (a *pointsTo) store(addr ssa.Value, val ssa.Value, t types.Type) {
	av, vv := a.val(addr), a.val(val)
	ls := leaves(t)
	if len(ls) == 0 {
		return
	}
	an := a.node(av, "")
	a.rules = append(a.rules, func() bool {
		ch := false
		for o := range an.pts {
			b, pre := a.base(o)
			for _, l := range ls {
				if a.flow(a.node(vv, l), a.node(b, pre+l)) {
					ch = true
				}
			}
		}
		return ch
	})
}

func (a *pointsTo) loadInto(dst ssa.Value, addr ssa.Value, sub string, t types.Type) {
	av := a.val(addr)
	ls := leaves(t)
	if len(ls) == 0 {
		return
	}
	an := a.node(av, "")
	a.rules = append(a.rules, func() bool {
		ch := false
		for o := range an.pts {
			b, pre := a.base(o)
			for _, l := range ls {
				if a.flow(a.node(b, pre+sub+l), a.node(dst, l)) {
					ch = true
				}
			}
		}
		return ch
	})
}

func (a *pointsTo) derive(dst ssa.Value, src ssa.Value, sub string, t types.Type) {
	sv := a.val(src)
	sn, dn := a.node(sv, ""), a.node(dst, "")
	a.rules = append(a.rules, func() bool {
		ch := false
		for o := range sn.pts {
			if a.add(dn, a.inner(o, sub, t)) {
				ch = true
			}
		}
		return ch
	})
}

func isRef(t types.Type) bool { return len(leaves(t)) > 0 }

func (a *pointsTo) gen(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			a.genInstr(f, ins)
		}
	}
}

func (a *pointsTo) site(v ssa.Value, kind string, t types.Type) *ptObj {
	return a.obj(v, func() *ptObj {
		return &ptObj{site: v, fn: v.Parent(), kind: kind, typ: t, label: kind + " in " + v.Parent().String()}
	})
}

func (a *pointsTo) genInstr(f *ssa.Function, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.Alloc:
		o := a.site(x, "alloc", x.Type().(*types.Pointer).Elem())
		o.stack = !x.Heap
		a.add(a.node(x, ""), o)
	case *ssa.MakeSlice:
		a.add(a.node(x, ""), a.site(x, "slice", x.Type()))
	case *ssa.MakeMap:
		a.add(a.node(x, ""), a.site(x, "map", x.Type()))
	case *ssa.MakeChan:
		a.add(a.node(x, ""), a.site(x, "chan", x.Type()))
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		o := a.site(x, "closure", x.Type())
		o.label = "closure " + fn.String()
		a.add(a.node(x, ""), o)
		for i, bnd := range x.Bindings {
			fv := fn.FreeVars[i]
			a.copyVal(o, fmt.Sprintf("^%d", i), a.val(bnd), "", bnd.Type())
			a.copyVal(fv, "", bnd, "", bnd.Type())
		}
		a.reach(fn)
	case *ssa.MakeInterface:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok || isIface(x.X.Type()) {
			a.copyVal(x, "", a.val(x.X), "", x.X.Type())
			return
		}
		o := a.site(x, "box", x.X.Type())
		a.add(a.node(x, ""), o)
		a.copyVal(o, "", a.val(x.X), "", x.X.Type())
	case *ssa.ChangeInterface:
		a.copyVal(x, "", a.val(x.X), "", x.X.Type())
	case *ssa.ChangeType:
		a.copyVal(x, "", a.val(x.X), "", x.X.Type())
	case *ssa.Convert:
		_, fromStr := x.X.Type().Underlying().(*types.Basic)
		if _, ok := x.Type().Underlying().(*types.Slice); ok && fromStr {
			a.add(a.node(x, ""), a.site(x, "slice", x.Type()))
			return
		}
		a.copyVal(x, "", a.val(x.X), "", x.X.Type())
	case *ssa.SliceToArrayPointer:
		a.copyVal(x, "", a.val(x.X), "", x.X.Type())
	case *ssa.TypeAssert:
		t := x.X
		src := a.node(a.val(t), "")
		want := x.AssertedType
		sub := ""
		if x.CommaOk {
			sub = "#0"
		}
		if isIface(want) {
			dst := a.node(x, sub)
			a.rules = append(a.rules, func() bool { return a.flow(src, dst) })
			return
		}
		if pt, ok := want.Underlying().(*types.Pointer); ok {
			dst := a.node(x, sub)
			a.rules = append(a.rules, func() bool {
				ch := false
				for o := range src.pts {
					if o.typ == nil || o.kind == "env" || types.Identical(o.typ, pt.Elem()) {
						ch = a.add(dst, o) || ch
					}
				}
				return ch
			})
			return
		}
		for _, l := range leaves(want) {
			l := l
			dst := a.node(x, sub+l)
			a.rules = append(a.rules, func() bool {
				ch := false
				for o := range src.pts {
					if o.kind == "box" || o.kind == "env" {
						ch = a.flow(a.node(o, l), dst) || ch
					}
				}
				return ch
			})
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.copyVal(x, "", a.val(e), "", x.Type())
		}
	case *ssa.Extract:
		a.copyVal(x, "", x.Tuple, fmt.Sprintf("#%d", x.Index), x.Type())
	case *ssa.Field:
		st := x.X.Type().Underlying().(*types.Struct)
		a.copyVal(x, "", a.val(x.X), "."+st.Field(x.Field).Name(), x.Type())
	case *ssa.Index:
		a.copyVal(x, "", a.val(x.X), "[]", x.Type())
	case *ssa.FieldAddr:
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		a.derive(x, x.X, "."+st.Field(x.Field).Name(), x.Type().(*types.Pointer).Elem())
	case *ssa.IndexAddr:
		a.derive(x, x.X, "[]", x.Type().(*types.Pointer).Elem())
	case *ssa.Slice:
		// the elements of a slice are at "[]" of its object, as those of an array are
		if clipped(x) {
			sn, dn := a.node(a.val(x.X), ""), a.node(x, "")
			a.rules = append(a.rules, func() bool {
				ch := false
				for o := range sn.pts {
					b, pre := a.base(o)
					co := a.obj(clipKey{b, pre}, func() *ptObj {
						return &ptObj{kind: "inner", typ: o.typ, label: o.label, fn: b.fn, of: b, sub: pre, clip: true}
					})
					ch = a.add(dn, co) || ch
				}
				return ch
			})
			return
		}
		a.copyVal(x, "", a.val(x.X), "", x.Type())
	case *ssa.UnOp:
		if x.Op.String() == "*" {
			a.loadInto(x, x.X, "", x.Type())
		} else if x.Op.String() == "<-" {
			a.loadInto(x, x.X, "[]", x.Type())
		}
	case *ssa.Store:
		a.store(x.Addr, x.Val, x.Val.Type())
	case *ssa.Send:
		a.storeAt(x.Chan, "[]", x.X, x.X.Type())
	case *ssa.MapUpdate:
		a.storeAt(x.Map, "[]", x.Value, x.Value.Type())
		a.storeAt(x.Map, "[k]", x.Key, x.Key.Type())
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			et := x.X.Type().Underlying().(*types.Map).Elem()
			if x.CommaOk {
				a.loadTo(x, "#0", x.X, "[]", et)
			} else {
				a.loadTo(x, "", x.X, "[]", et)
			}
		}
	case *ssa.Next:
		rg, ok := x.Iter.(*ssa.Range)
		if !ok {
			return
		}
		if m, ok := rg.X.Type().Underlying().(*types.Map); ok {
			a.loadTo(x, "#1", rg.X, "[k]", m.Key())
			a.loadTo(x, "#2", rg.X, "[]", m.Elem())
		}
	case *ssa.Return:
		for i, r := range x.Results {
			a.copyVal(retKey{f, i}, "", a.val(r), "", r.Type())
		}
	case ssa.CallInstruction:
		a.genCall(f, x)
	}
}

func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func (a *pointsTo) storeAt(base ssa.Value, sub string, val ssa.Value, t types.Type) {
	bn, vv := a.node(a.val(base), ""), a.val(val)
	ls := leaves(t)
	if len(ls) == 0 {
		return
	}
	a.rules = append(a.rules, func() bool {
		ch := false
		for o := range bn.pts {
			b, pre := a.base(o)
			for _, l := range ls {
				ch = a.flow(a.node(vv, l), a.node(b, pre+sub+l)) || ch
			}
		}
		return ch
	})
}

func (a *pointsTo) loadTo(dst any, dp string, base ssa.Value, sub string, t types.Type) {
	bn := a.node(a.val(base), "")
	ls := leaves(t)
	if len(ls) == 0 {
		return
	}
	a.rules = append(a.rules, func() bool {
		ch := false
		for o := range bn.pts {
			b, pre := a.base(o)
			for _, l := range ls {
				ch = a.flow(a.node(b, pre+sub+l), a.node(dst, dp+l)) || ch
			}
		}
		return ch
	})
}

// link connects a call with a callee (once); args are the values of its parameters in order.
func (a *pointsTo) link(call ssa.CallInstruction, f *ssa.Function, args []ssa.Value, env *ptObj) bool {
	if a.skip(f) {
		return false
	}
	if a.callees[call] == nil {
		a.callees[call] = map[*ssa.Function]bool{}
	}
	if a.callees[call][f] {
		return false
	}
	a.callees[call][f] = true
	if len(f.Blocks) == 0 {
		a.external(call, f, args)
		return true
	}
	a.callers[f]++
	a.reach(f)
	for i, p := range f.Params {
		if i < len(args) {
			a.copyVal(p, "", a.val(args[i]), "", p.Type())
		}
	}
	if v, ok := call.(*ssa.Call); ok {
		res := f.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			dp := ""
			if res.Len() > 1 {
				dp = fmt.Sprintf("#%d", i)
			}
			a.copyVal(v, dp, retKey{f, i}, "", res.At(i).Type())
		}
	}
	return true
}

// external: the result of a function without a body is a new object or anything passed to it.
func (a *pointsTo) external(call ssa.CallInstruction, f *ssa.Function, args []ssa.Value) {
	v, ok := call.(*ssa.Call)
	if !ok {
		return
	}
	res := v.Call.Signature().Results()
	for i := 0; i < res.Len(); i++ {
		dp := ""
		if res.Len() > 1 {
			dp = fmt.Sprintf("#%d", i)
		}
		if isErr(res.At(i).Type()) {
			continue
		}
		for _, l := range leaves(res.At(i).Type()) {
			dst := a.node(v, dp+l)
			kind := "result"
			if f != nil && (strings.HasSuffix(f.String(), ".S2B") || strings.HasSuffix(f.String(), "StringData")) {
				kind = "string"
			}
			o := a.obj(fmt.Sprintf("%p%s%s", v, dp, l), func() *ptObj {
				return &ptObj{site: v, fn: v.Parent(), kind: kind, label: "result of " + calleeName(call) + " in " + v.Parent().String()}
			})
			if pt, okp := res.At(i).Type().Underlying().(*types.Pointer); okp && l == "" {
				o.typ = pt.Elem()
			}
			a.add(dst, o)
			for _, ar := range args {
				if _, bas := ar.Type().Underlying().(*types.Basic); bas {
					continue
				}
				if !aliasable(ar.Type(), res.At(i).Type()) {
					continue
				}
				for _, al := range leaves(ar.Type()) {
					s := a.node(a.val(ar), al)
					a.rules = append(a.rules, func() bool { return a.flow(s, dst) })
				}
			}
		}
	}
}

// aliasable: an external function may return its argument, or memory in it.
func aliasable(arg, res types.Type) bool {
	if types.Identical(arg, res) {
		return true
	}
	_, rs := res.Underlying().(*types.Slice)
	_, as := arg.Underlying().(*types.Slice)
	if rs && as {
		return types.Identical(arg.Underlying(), res.Underlying())
	}
	if rs { // memory kept by an object
		_, ap := arg.Underlying().(*types.Pointer)
		return ap
	}
	return isIface(res) && isIface(arg) && !isErr(res)
}

func isErr(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func calleeName(call ssa.CallInstruction) string {
	cc := call.Common()
	if cc.IsInvoke() {
		return cc.Method.FullName()
	}
	if f := cc.StaticCallee(); f != nil {
		return f.String()
	}
	return cc.Value.String()
}

func (a *pointsTo) genCall(f *ssa.Function, call ssa.CallInstruction) {
	cc := call.Common()
	for _, ar := range cc.Args {
		a.val(ar)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		v, isCall := call.(*ssa.Call)
		switch b.Name() {
		case "append":
			if !isCall {
				return
			}
			a.copyVal(v, "", a.val(cc.Args[0]), "", v.Type())
			o := a.site(v, "slice", v.Type())
			a.add(a.node(v, ""), o)
			et := v.Type().Underlying().(*types.Slice).Elem()
			// the elements of both are in the result's objects
			for _, src := range cc.Args {
				if _, ok := src.Type().Underlying().(*types.Slice); !ok {
					continue
				}
				sn, dn := a.node(src, ""), a.node(v, "")
				ls := leaves(et)
				if len(ls) == 0 {
					continue
				}
				a.rules = append(a.rules, func() bool {
					ch := false
					for so := range sn.pts {
						sb, sp := a.base(so)
						for do := range dn.pts {
							db, dp := a.base(do)
							for _, l := range ls {
								ch = a.flow(a.node(sb, sp+"[]"+l), a.node(db, dp+"[]"+l)) || ch
							}
						}
					}
					return ch
				})
			}
		case "copy":
			st, ok := cc.Args[0].Type().Underlying().(*types.Slice)
			if !ok {
				return
			}
			ls := leaves(st.Elem())
			if len(ls) == 0 {
				return
			}
			sn, dn := a.node(cc.Args[1], ""), a.node(cc.Args[0], "")
			a.rules = append(a.rules, func() bool {
				ch := false
				for so := range sn.pts {
					sb, sp := a.base(so)
					for do := range dn.pts {
						db, dp := a.base(do)
						for _, l := range ls {
							ch = a.flow(a.node(sb, sp+"[]"+l), a.node(db, dp+"[]"+l)) || ch
						}
					}
				}
				return ch
			})
		case "StringData":
			if isCall {
				a.add(a.node(v, ""), a.site(v, "string", nil))
			}
		case "Slice", "SliceData", "min", "max":
			if isCall && len(cc.Args) > 0 {
				a.copyVal(v, "", a.val(cc.Args[0]), "", cc.Args[0].Type())
			}
		case "ssa:wrapnilchk":
			if isCall {
				a.copyVal(v, "", a.val(cc.Args[0]), "", cc.Args[0].Type())
			}
		}
		return
	}
	if cc.IsInvoke() {
		rn := a.node(a.val(cc.Value), "")
		args := append([]ssa.Value{cc.Value}, cc.Args...)
		anyExt := false
		a.rules = append(a.rules, func() bool {
			ch := false
			for o := range rn.pts {
				if o.typ == nil || o.kind == "env" || o.kind == "result" || o.kind == "string" {
					if !anyExt {
						anyExt = true
						a.external(call, nil, args)
						ch = true
					}
					continue
				}
				var t types.Type = types.NewPointer(o.typ)
				if o.kind == "box" {
					t = o.typ
				}
				ms := a.p.prog.MethodSets.MethodSet(t)
				sel := ms.Lookup(cc.Method.Pkg(), cc.Method.Name())
				if sel == nil {
					continue
				}
				m := a.p.prog.MethodValue(sel)
				if m == nil {
					continue
				}
				if a.linkRecv(call, m, args, o) {
					ch = true
				}
			}
			if len(rn.pts) == 0 && !anyExt {
				// nothing known about the receiver yet: whatever it is, its results are new
				anyExt = true
				a.external(call, nil, args)
				ch = true
			}
			return ch
		})
		return
	}
	if callee := cc.StaticCallee(); callee != nil {
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			_ = mc
		}
		a.link(call, callee, cc.Args, nil)
		return
	}
	// through a function value
	vn := a.node(a.val(cc.Value), "")
	ext := false
	a.rules = append(a.rules, func() bool {
		ch := false
		for o := range vn.pts {
			var fn *ssa.Function
			switch o.kind {
			case "func":
				fn = o.fn
			case "closure":
				fn = o.site.(*ssa.MakeClosure).Fn.(*ssa.Function)
			}
			if fn != nil {
				if a.link(call, fn, cc.Args, o) {
					ch = true
				}
			} else if !ext {
				ext = true
				a.external(call, nil, nil)
				ch = true
			}
		}
		if len(vn.pts) == 0 && !ext {
			ext = true
			a.external(call, nil, nil)
			ch = true
		}
		return ch
	})
}

// linkRecv links a dynamically dispatched method; the receiver parameter gets only the objects of
// its own type.
func (a *pointsTo) linkRecv(call ssa.CallInstruction, m *ssa.Function, args []ssa.Value, o *ptObj) bool {
	if a.skip(m) {
		return false
	}
	ch := false
	if a.callees[call] == nil {
		a.callees[call] = map[*ssa.Function]bool{}
	}
	if len(m.Blocks) > 0 && len(m.Params) > 0 {
		p := m.Params[0]
		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
			ch = a.add(a.node(p, ""), o) || ch
		} else {
			for _, l := range leaves(p.Type()) {
				ch = a.flow(a.node(o, l), a.node(p, l)) || ch
			}
		}
	}
	if a.callees[call][m] {
		return ch
	}
	a.callees[call][m] = true
	if len(m.Blocks) == 0 {
		a.external(call, m, args)
		return true
	}
	a.callers[m]++
	a.reach(m)
	for i, p := range m.Params {
		if i > 0 && i < len(args) {
			a.copyVal(p, "", a.val(args[i]), "", p.Type())
		}
	}
	if v, ok := call.(*ssa.Call); ok {
		res := m.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			dp := ""
			if res.Len() > 1 {
				dp = fmt.Sprintf("#%d", i)
			}
			a.copyVal(v, dp, retKey{m, i}, "", res.At(i).Type())
		}
	}
	return true
}

// seedParam gives a parameter whatever the program has for its type, and an object of the environment.
func (a *pointsTo) seedParam(p *ssa.Parameter, env bool) {
	for _, l := range leaves(p.Type()) {
		a.seedNode(a.node(p, l), leafType(p.Type(), l), p, l, env)
	}
}

func (a *pointsTo) seedNode(n *ptNode, t types.Type, p *ssa.Parameter, l string, env bool) {
	if t == nil {
		return
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		a.rules = append(a.rules, func() bool {
			ch := false
			for i := 0; i < len(a.objs); i++ {
				if o := a.objs[i]; o.typ != nil && o.kind == "alloc" && !o.stack && types.Identical(o.typ, pt.Elem()) {
					ch = a.add(n, o) || ch
				}
			}
			return ch
		})
		if named, ok := pt.Elem().(*types.Named); ok && named.Obj().Pkg() != nil && strings.HasPrefix(named.Obj().Pkg().Path(), modPath) {
			return
		}
	}
	if it, ok := t.Underlying().(*types.Interface); ok && !it.Empty() && !isErr(t) {
		a.rules = append(a.rules, func() bool {
			ch := false
			for i := 0; i < len(a.objs); i++ {
				o := a.objs[i]
				if o.typ == nil || o.stack {
					continue
				}
				switch o.kind {
				case "alloc":
					if types.Implements(types.NewPointer(o.typ), it) && isNamedRepo(o.typ) {
						ch = a.add(n, o) || ch
					}
				case "box":
					if types.Implements(o.typ, it) && isNamedRepo(o.typ) {
						ch = a.add(n, o) || ch
					}
				}
			}
			return ch
		})
	}
	if env {
		o := a.obj(fmt.Sprintf("env%p%s", p, l), func() *ptObj {
			return &ptObj{kind: "env", label: "argument " + p.Name() + " of " + p.Parent().String()}
		})
		a.add(n, o)
	}
}

func isNamedRepo(t types.Type) bool {
	named, ok := t.(*types.Named)
	return ok && named.Obj().Pkg() != nil && strings.HasPrefix(named.Obj().Pkg().Path(), modPath)
}

func leafType(t types.Type, l string) types.Type {
	if l == "" {
		return t
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			pre := "." + u.Field(i).Name()
			if l == pre || strings.HasPrefix(l, pre) && (l[len(pre)] == '.' || l[len(pre)] == '[') {
				return leafType(u.Field(i).Type(), l[len(pre):])
			}
		}
	case *types.Array:
		if strings.HasPrefix(l, "[]") {
			return leafType(u.Elem(), l[2:])
		}
	}
	return nil
}

// content: the objects directly held by an object.
func (a *pointsTo) contents() map[*ptObj][]*ptObj {
	m := map[*ptObj][]*ptObj{}
	for k, n := range a.nodes {
		if o, ok := k.base.(*ptObj); ok {
			for t := range n.pts {
				b, _ := a.base(t)
				m[o] = append(m[o], b)
			}
		}
	}
	for o := range m {
		sort.Slice(m[o], func(i, j int) bool { return m[o][i].id < m[o][j].id })
	}
	return m
}

package main

// Package-level variables: which ones are constant after initialisation, and the contents of
// composite tables, read off the initialiser's syntax tree with type information.

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Table struct {
	kind string // array, slice, map
	keys []*Term
	vals []*Term
	n    int64
	elem types.Type
}

type globalInfo struct {
	written bool // stored to outside of init
	init    *Term
	tab     *Table
	known   bool
}

var globInfo map[*ssa.Global]*globalInfo

func addrRootGlobal(v ssa.Value) *ssa.Global {
	for i := 0; i < 30; i++ {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}
			v = x.X // the contents of a slice, map or pointer kept in the variable
		default:
			return nil
		}
	}
	return nil
}

// initOnly: functions that only run while the program is initialised.
func (p *Program) initOnly() map[*ssa.Function]bool {
	funcs := p.RepoFuncs()
	out := map[*ssa.Function]bool{}
	callers := map[*ssa.Function]map[*ssa.Function]bool{}
	escapes := map[*ssa.Function]bool{}
	for _, f := range funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var callee ssa.Value
				if ci, ok := ins.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
					callee = ci.Common().Value
					if _, isGo := ins.(*ssa.Go); isGo {
						callee = nil
					}
				}
				for _, op := range ins.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if *op == callee {
						if callers[g] == nil {
							callers[g] = map[*ssa.Function]bool{}
						}
						callers[g][f] = true
						n := 0
						for _, o := range ins.Operands(nil) {
							if *o == *op {
								n++
							}
						}
						if n > 1 {
							escapes[g] = true
						}
					} else if _, mc := ins.(*ssa.MakeClosure); mc {
						// counts as part of the function that makes it when it is called there
						if callers[g] == nil {
							callers[g] = map[*ssa.Function]bool{}
						}
						callers[g][f] = true
						for _, r := range *ins.(*ssa.MakeClosure).Referrers() {
							if ci, ok := r.(ssa.CallInstruction); !ok || ci.Common().Value != ins.(*ssa.MakeClosure) {
								escapes[g] = true
							}
						}
					} else {
						escapes[g] = true
					}
				}
			}
		}
	}
	for _, f := range funcs {
		if f.Name() == "init" && f.Synthetic != "" || f.Parent() == nil && strings.HasPrefix(f.Name(), "init#") {
			out[f] = true
			continue
		}
		if f.Object() != nil && f.Object().Exported() || f.Signature.Recv() != nil || escapes[f] || len(callers[f]) == 0 {
			continue
		}
		out[f] = true // unless a caller isn't
	}
	for changed := true; changed; {
		changed = false
		for f := range out {
			for c := range callers[f] {
				if !out[c] {
					delete(out, f)
					changed = true
					break
				}
			}
		}
	}
	return out
}

func (p *Program) scanGlobals() {
	globInfo = map[*ssa.Global]*globalInfo{}
	for _, pi := range p.pkgs {
		if pi.ssa == nil {
			continue
		}
		for _, m := range pi.ssa.Members {
			if g, ok := m.(*ssa.Global); ok {
				globInfo[g] = &globalInfo{}
			}
		}
	}
	initOnly := p.initOnly()
	touched := map[*ssa.Global]bool{} // by init code other than the variable's initialiser
	for _, f := range p.RepoFuncs() {
		mark := func(v ssa.Value) {
			g := addrRootGlobal(v)
			if g == nil || globInfo[g] == nil {
				return
			}
			if initOnly[f] {
				if f.Synthetic == "" || f.Name() != "init" {
					touched[g] = true
				}
			} else {
				globInfo[g].written = true
			}
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					mark(x.Addr)
				case *ssa.MapUpdate:
					mark(x.Map)
				}
			}
		}
	}
	inits := p.evalInits()
	defer func() {
		for g, gi := range globInfo {
			if g.Pkg == nil || !isRepoPkg(g.Pkg.Pkg) {
				continue
			}
			cell := inits.globals[g]
			if gi.known && !touched[g] {
				if gi.init != nil && gi.init.op == OCall && cell != nil && !inits.aborted[g.Pkg] {
					if tab := cTable(cell.get(), deref(g.Type())); tab != nil {
						gi.init, gi.tab = nil, tab
					} else if v := cTerm(cell.get(), deref(g.Type())); v != nil && (v.op == OConst || v.op == OIface) {
						gi.init = v
					}
				}
				continue
			}
			gi.init, gi.tab, gi.known = nil, nil, false
			if inits.aborted[g.Pkg] || cell == nil {
				continue
			}
			t := deref(g.Type())
			if gi.tab = cTable(cell.get(), t); gi.tab == nil {
				gi.init = cTerm(cell.get(), t)
				if gi.init == tNil {
					gi.init = nil
				}
			}
			gi.known = gi.init != nil || gi.tab != nil
		}
	}()
	for _, pi := range p.pkgs {
		if !pi.repo || pi.info == nil {
			continue
		}
		for _, file := range pi.files {
			for _, d := range file.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR {
					continue
				}
				for _, sp := range gd.Specs {
					vs := sp.(*ast.ValueSpec)
					if len(vs.Values) != len(vs.Names) {
						continue
					}
					for i, n := range vs.Names {
						obj, _ := pi.info.Defs[n].(*types.Var)
						if obj == nil {
							continue
						}
						g, _ := pi.ssa.Members[n.Name].(*ssa.Global)
						if g == nil || globInfo[g] == nil {
							continue
						}
						gi := globInfo[g]
						gi.init, gi.tab = p.evalInit(pi, vs.Values[i])
						gi.known = gi.init != nil || gi.tab != nil
					}
				}
			}
		}
	}
}

// evalInit evaluates an initialiser: constants, composite literals, calls of the repository's
// own constructors (kept as uninterpreted applications).
func (p *Program) evalInit(pi *pkgInfo, e ast.Expr) (*Term, *Table) {
	e = ast.Unparen(e)
	tv, ok := pi.info.Types[e]
	if !ok {
		return nil, nil
	}
	if tv.Value != nil {
		return mkConstVal(tv.Value, tv.Type), nil
	}
	switch x := e.(type) {
	case *ast.CompositeLit:
		switch u := tv.Type.Underlying().(type) {
		case *types.Array, *types.Slice:
			t := &Table{kind: "slice"}
			var el types.Type
			if a, ok := u.(*types.Array); ok {
				t.kind = "array"
				t.n = a.Len()
				el = a.Elem()
			} else {
				el = u.(*types.Slice).Elem()
			}
			t.elem = el
			idx := int64(0)
			for _, it := range x.Elts {
				v := it
				if kv, ok := it.(*ast.KeyValueExpr); ok {
					ktv := pi.info.Types[kv.Key]
					if ktv.Value == nil {
						return nil, nil
					}
					idx, _ = constant.Int64Val(constant.ToInt(ktv.Value))
					v = kv.Value
				}
				val := p.evalElem(pi, v, el)
				if val == nil {
					return nil, nil
				}
				t.keys = append(t.keys, mkInt(idx))
				t.vals = append(t.vals, val)
				idx++
				if idx > t.n {
					t.n = idx
				}
			}
			return nil, t
		case *types.Map:
			t := &Table{kind: "map", elem: u.Elem()}
			for _, it := range x.Elts {
				kv := it.(*ast.KeyValueExpr)
				k := p.evalElem(pi, kv.Key, u.Key())
				v := p.evalElem(pi, kv.Value, u.Elem())
				if k == nil || v == nil {
					return nil, nil
				}
				t.keys = append(t.keys, k)
				t.vals = append(t.vals, v)
			}
			t.n = int64(len(t.keys))
			return nil, t
		case *types.Struct:
			args := make([]*Term, u.NumFields())
			for i := range args {
				args[i] = zeroOf(u.Field(i).Type())
			}
			for i, it := range x.Elts {
				v := it
				fi := i
				if kv, ok := it.(*ast.KeyValueExpr); ok {
					id, _ := kv.Key.(*ast.Ident)
					fi = -1
					for j := 0; j < u.NumFields(); j++ {
						if id != nil && u.Field(j).Name() == id.Name {
							fi = j
						}
					}
					v = kv.Value
				}
				if fi < 0 {
					return nil, nil
				}
				val := p.evalElem(pi, v, u.Field(fi).Type())
				if val == nil {
					return nil, nil
				}
				args[fi] = val
			}
			return mk(Term{op: OAgg, typ: tv.Type, args: args}), nil
		}
	case *ast.CallExpr:
		if ft, ok := pi.info.Types[x.Fun]; ok && ft.IsType() && len(x.Args) == 1 {
			return p.evalInit(pi, x.Args[0])
		}
		var fo types.Object
		switch f := ast.Unparen(x.Fun).(type) {
		case *ast.Ident:
			fo = pi.info.Uses[f]
		case *ast.SelectorExpr:
			fo = pi.info.Uses[f.Sel]
		}
		if fn, ok := fo.(*types.Func); ok {
			var args []*Term
			for _, a := range x.Args {
				v, _ := p.evalInit(pi, a)
				if v == nil {
					v = mkSym("expr@"+p.pos(a.Pos()), nil)
				}
				args = append(args, v)
			}
			return mk(Term{op: OCall, name: "init:" + fn.FullName() + "@" + p.pos(x.Pos()), args: args, typ: tv.Type, obj: fn}), nil
		}
	case *ast.Ident, *ast.SelectorExpr:
		var o types.Object
		if id, ok := x.(*ast.Ident); ok {
			o = pi.info.Uses[id]
		} else {
			o = pi.info.Uses[x.(*ast.SelectorExpr).Sel]
		}
		switch o := o.(type) {
		case *types.Nil:
			return tNil, nil
		case *types.Func:
			if f := p.prog.FuncValue(o); f != nil {
				return mk(Term{op: OFunc, obj: f, name: f.String(), typ: tv.Type}), nil
			}
		case *types.Var:
			if o.Pkg() != nil {
				if q := p.pkgs[o.Pkg().Path()]; q != nil && q.ssa != nil {
					if g, ok := q.ssa.Members[o.Name()].(*ssa.Global); ok {
						return mkGlobalVal(g), nil
					}
				}
			}
		}
	}
	return nil, nil
}

func (p *Program) evalElem(pi *pkgInfo, e ast.Expr, t types.Type) *Term {
	// elided composite types have no entry of their own in some forms: handled by Types map
	v, tab := p.evalInit(pi, e)
	if v != nil {
		return v
	}
	if tab != nil {
		return mk(Term{op: OCall, name: "table", obj: tab, typ: t})
	}
	return nil
}

func mkGlobalVal(g *ssa.Global) *Term {
	if gi := globInfo[g]; gi != nil && gi.init != nil && (gi.init.op == OConst) {
		return gi.init
	}
	return mk(Term{op: OGlobalVal, obj: g, name: g.Pkg.Pkg.Name() + "." + g.Name(), typ: g.Type().(*types.Pointer).Elem()})
}

// ifaceOf: what an interface holds, if it is known.
func ifaceOf(t *Term) *Term {
	if t.op == OGlobalVal {
		if g, ok := t.obj.(*ssa.Global); ok {
			if gi := globInfo[g]; gi != nil && !gi.written && gi.init != nil && gi.init.op == OIface {
				return gi.init
			}
		}
	}
	if t.op == OIface {
		return t
	}
	return nil
}

func globalNonNil(g *ssa.Global) bool {
	gi := globInfo[g]
	if gi == nil {
		return false
	}
	if gi.tab != nil {
		return true
	}
	if gi.init != nil && (gi.init.op == OCall || gi.init.op == OIface) {
		return true
	}
	// error values of other packages (io.EOF, ...)
	if !gi.known && g.Pkg != nil {
		if t := g.Type().(*types.Pointer).Elem(); types.Identical(t, types.Universe.Lookup("error").Type()) && !isRepoPkg(g.Pkg.Pkg) {
			return true
		}
	}
	return false
}

func isRepoPkg(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || len(p.Path()) > len(modPath) && p.Path()[:len(modPath)+1] == modPath+"/")
}

// tableOf: the constant table behind a term, if any.
func tableOf(t *Term) *Table {
	switch t.op {
	case OGlobalVal, OGlobalAddr:
		if g, ok := t.obj.(*ssa.Global); ok {
			if gi := globInfo[g]; gi != nil && !gi.written {
				return gi.tab
			}
		}
	case OCall:
		if tab, ok := t.obj.(*Table); ok {
			return tab
		}
	}
	return nil
}

func globalLen(t *Term) (int, bool) {
	if tab := tableOf(t); tab != nil {
		return int(tab.n), true
	}
	return 0, false
}

func (t *Table) get(i int64) *Term {
	for j := len(t.keys) - 1; j >= 0; j-- {
		if k, ok := t.keys[j].isInt(); ok && k == i {
			return t.vals[j]
		}
	}
	if i >= 0 && i < t.n {
		return zeroOf(t.elem)
	}
	return nil
}

// sentinel: error variables of the standard library that hold a pointer of their own.
var sentinel = map[string]bool{
	"io.EOF": true, "io.ErrUnexpectedEOF": true, "io.ErrClosedPipe": true, "io.ErrShortWrite": true, "io.ErrShortBuffer": true,
	"io.ErrNoProgress": true, "net.ErrClosed": true, "context.Canceled": true, "os.ErrNotExist": true, "os.ErrPermission": true,
}

// distinctErrors: two error variables can't hold the same error.
func distinctErrors(a, b *ssa.Global) bool {
	kind := func(g *ssa.Global) int {
		if sentinel[g.Pkg.Pkg.Path()+"."+g.Name()] {
			return 1
		}
		if gi := globInfo[g]; gi != nil && !gi.written && gi.init != nil && gi.init.op != OGlobalVal && gi.init.op != ONil {
			return 2
		}
		return 0
	}
	if a == b {
		return false
	}
	ka, kb := kind(a), kind(b)
	if ka == 0 || kb == 0 {
		return false
	}
	if ka == 2 && kb == 2 {
		v, ok := mkEq(globInfo[a].init, globInfo[b].init).isBool()
		return ok && !v
	}
	return true
}

package main

// Objects in an arbitrary point of their history: what the constructor put into fields that nothing
// writes afterwards is known; every other field holds an arbitrary value.

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// fieldWrites: field class -> stores to it outside the initialisation of a fresh object.
func (p *Program) fieldWrites() map[string][]ssa.Instruction {
	if p.fwrites != nil {
		return p.fwrites
	}
	out := map[string][]ssa.Instruction{}
	add := func(t types.Type, i int, ins ssa.Instruction) {
		own := types.TypeString(originType(t), nil)
		k := *fieldClass(own, i)
		out[k] = append(out[k], ins)
	}
	var addAll func(t types.Type, ins ssa.Instruction)
	addAll = func(t types.Type, ins ssa.Instruction) {
		st := structOf(t)
		if st == nil || opaqueStruct(t) {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			add(t, i, ins)
			addAll(st.Field(i).Type(), ins)
		}
	}
	freshBase := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.FieldAddr:
				v = x.X
				continue
			case *ssa.Alloc:
				return true
			}
			return false
		}
	}
	for _, fn := range p.RepoFuncs() {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					if freshBase(x.Addr) {
						continue
					}
					if keep := keptFields(x); keep != nil {
						st := structOf(x.Val.Type())
						for i := 0; i < st.NumFields(); i++ {
							if !keep[i] {
								add(x.Val.Type(), i, ins)
								addAll(st.Field(i).Type(), ins)
							}
						}
						continue
					}
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						add(deref(fa.X.Type()), fa.Field, ins)
						addAll(deref(fa.Type()), ins)
					} else {
						addAll(x.Val.Type(), ins)
					}
				case *ssa.FieldAddr:
					if freshBase(x) {
						continue
					}
					ft := deref(x.Type())
					if opaqueStruct(ft) {
						continue
					}
					for _, r := range *x.Referrers() {
						switch u := r.(type) {
						case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice, *ssa.DebugRef:
						case *ssa.Store:
							if u.Val == x {
								add(deref(x.X.Type()), x.Field, r)
							}
						case ssa.CallInstruction:
							// a method call on an embedded in-repo struct: its own fields are tracked by class
							if structOf(ft) == nil {
								add(deref(x.X.Type()), x.Field, r)
							}
						default:
							if structOf(ft) == nil {
								add(deref(x.X.Type()), x.Field, r)
							}
						}
					}
				}
			}
		}
	}
	p.fwrites = out
	return out
}

// keptFields: fields that the store of a whole struct literal (*p = T{f: p.f}) leaves as they are.
func keptFields(x *ssa.Store) map[int]bool {
	ld, ok := x.Val.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL || structOf(x.Val.Type()) == nil || opaqueStruct(x.Val.Type()) {
		return nil
	}
	al, ok := ld.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	out := map[int]bool{}
	for _, r := range *al.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		for _, u := range *fa.Referrers() {
			st, ok := u.(*ssa.Store)
			if !ok || st.Addr != fa {
				continue
			}
			l2, ok := st.Val.(*ssa.UnOp)
			if !ok || l2.Op != token.MUL {
				continue
			}
			if src, ok := l2.X.(*ssa.FieldAddr); ok && src.X == x.Addr && src.Field == fa.Field {
				out[fa.Field] = true
			}
		}
	}
	return out
}

// object builds the abstract object a constructor returns, at an arbitrary later time.
func (c *Ctx) object(e *Engine, ctor *ssa.Function, name string, args []*Term) (*State, *Term) {
	if args == nil {
		for _, p := range ctor.Params {
			args = append(args, paramSym(p))
		}
	}
	ps := returns(c.run(e, newState(), ctor, args))
	if !c.ob(len(ps) == 1 && len(ps[0].Results) >= 1, "constructor:"+fnName(ctor), ctor.Pos(), "the constructor %s has %d ways to return; expected one", ctor, len(ps)) {
		return nil, nil
	}
	p := ps[0]
	r := p.Results[0]
	s := newState()
	s.frozen = map[*Term]*Term{}
	s.F = p.S.F.clone()
	ren := map[*Term]*Term{}
	fw := c.P.fieldWrites()
	n := 0
	var conv func(t *Term, name string) *Term
	var fill func(a, na *Term, typ types.Type, name string)
	conv = func(t *Term, name string) *Term {
		if t.op == OAlloc {
			if v, ok := ren[t]; ok {
				return v
			}
			n++
			sym := mkSym(fmt.Sprintf("%s", name), t.typ)
			ren[t] = sym
			s.F.assume(mkEq(sym, mkNil(t.typ)), false)
			fill(t, sym, deref(t.typ), name)
			return sym
		}
		if t.op == OIface {
			return mk(Term{op: OIface, typ: t.typ, args: []*Term{conv(t.args[0], name)}})
		}
		m := map[*Term]*Term{}
		walkTerm(t, func(x *Term) {
			if x.op == OAlloc && m[x] == nil {
				m[x] = conv(x, name)
			}
		})
		if len(m) == 0 {
			return t
		}
		return substTerm(t, m, map[*Term]*Term{})
	}
	fill = func(a, na *Term, typ types.Type, name string) {
		st := structOf(typ)
		if st == nil || opaqueStruct(typ) {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			fa, nfa := mkFieldAddr(a, i, st, typ), mkFieldAddr(na, i, st, typ)
			if structOf(ft) != nil && !opaqueStruct(ft) {
				fill(fa, nfa, ft, name+"."+st.Field(i).Name())
				continue
			}
			if len(fw[addrClass(fa)]) > 0 {
				continue
			}
			v := p.S.load(fa, ft)
			s.frozen[nfa] = conv(v, name+"."+st.Field(i).Name())
		}
	}
	obj := conv(r, name)
	return s, obj
}

func mkNil(t types.Type) *Term { return tNil }

// ifacePtr strips the interface wrapper of an object term.
func unwrapIface(t *Term) *Term {
	for t.op == OIface {
		t = t.args[0]
	}
	return t
}

// method finds the implementation of a method for an object term.
func (c *Ctx) method(obj *Term, name string) *ssa.Function {
	t := obj.typ
	o := unwrapIface(obj)
	if obj.op == OIface {
		t = obj.typ
	} else {
		t = o.typ
	}
	ms := c.P.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			f := c.P.prog.MethodValue(ms.At(i))
			c.ob(f != nil && len(f.Blocks) > 0, "anchor:"+t.String()+"."+name, token.NoPos, "no body for %s.%s", t, name)
			return f
		}
	}
	c.fail("anchor:"+t.String()+"."+name, token.NoPos, "%s has no method %s", t, name)
	return nil
}

// callSeq runs method calls one after the other from each return path of the previous one.
type step struct {
	fn   *ssa.Function
	args []*Term
}

type seqPath struct {
	*Path
	At  []int     // event index at which each step begins
	Res [][]*Term // results of each step
}

func (c *Ctx) seq(e *Engine, s *State, steps ...step) []*seqPath {
	cur := []*seqPath{{Path: &Path{Kind: PReturn, S: s}}}
	for _, st := range steps {
		var next []*seqPath
		for _, q := range cur {
			if q.Kind != PReturn {
				next = append(next, q)
				continue
			}
			for _, p := range c.run(e, q.S.clone(), st.fn, st.args) {
				if p.Kind == PBackEdge {
					continue
				}
				np := &seqPath{Path: p, At: append(append([]int{}, q.At...), len(q.S.events)), Res: append(append([][]*Term{}, q.Res...), p.Results)}
				next = append(next, np)
			}
		}
		cur = next
	}
	return cur
}

func (q *seqPath) events(i int) []*Event {
	hi := len(q.S.events)
	if i+1 < len(q.At) {
		hi = q.At[i+1]
	}
	return q.S.events[q.At[i]:hi]
}

// visible drops bookkeeping events: stores into fields, pure calls.
func visible(evs []*Event, keep func(*Event) bool) (out []*Event) {
	for _, e := range evs {
		if keep(e) {
			out = append(out, e)
		}
	}
	return
}

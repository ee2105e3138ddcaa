package main

import "golang.org/x/tools/go/ssa"

// overwritten: a variable a goroutine was given by reference and that is written again behind that, while the
// goroutine may not have come to using it. A variable made anew for each goroutine is none.
func overwritten(g *Event) *ssa.Store {
	seen := map[*Term]bool{}
	var find func(t *Term) *ssa.Store
	find = func(t *Term) *ssa.Store {
		if t == nil || seen[t] {
			return nil
		}
		seen[t] = true
		switch t.op {
		case OAlloc:
			if a, ok := t.obj.(*ssa.Alloc); ok {
				return writtenBehind(a)
			}
		case OClosure:
			for _, b := range t.args {
				if st := find(b); st != nil {
					return st
				}
			}
		}
		return nil
	}
	for _, t := range append([]*Term{g.FnT}, g.Args...) {
		if st := find(t); st != nil {
			return st
		}
	}
	return nil
}

// writtenBehind: a store into the variable that can follow on handing out its address
func writtenBehind(a *ssa.Alloc) *ssa.Store {
	if a.Referrers() == nil {
		return nil
	}
	type point struct {
		b *ssa.BasicBlock
		i int
	}
	at := func(ins ssa.Instruction) point {
		for i, x := range ins.Block().Instrs {
			if x == ins {
				return point{ins.Block(), i + 1}
			}
		}
		return point{ins.Block(), 0}
	}
	var work []point
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.MakeClosure, *ssa.Call, *ssa.Go, *ssa.Defer:
			work = append(work, at(r))
		case *ssa.Store:
			if x.Val == a {
				work = append(work, at(r))
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		end := false
		for _, ins := range p.b.Instrs[p.i:] {
			if ins == ssa.Instruction(a) {
				end = true
				break
			}
			if st, ok := ins.(*ssa.Store); ok && st.Addr == a {
				return st
			}
		}
		if end {
			continue
		}
		for _, n := range p.b.Succs {
			if !seen[n] {
				seen[n] = true
				work = append(work, point{n, 0})
			}
		}
	}
	return nil
}

package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// threadExit: when what an iteration did decides that the loop ends at its next head (a flag was set, an error
// kept, the rest used up), the iteration leaves the loop: its path goes on behind the loop with what it knows,
// instead of being merged with the others at the head. Returns nil when that isn't decided.
func (e *Engine) threadExit(s *State, rec *LoopRec, from, head *ssa.BasicBlock, l *loopInfo) []*State {
	heads := loopHeads(head.Parent())
	n := s.clone()
	depth := len(n.frames)
	e.enterBlock(n, n.top(), from, head)
	work := []*State{n}
	var out []*State
	flag := false
	for _, v := range rec.Vars {
		if v.phi != nil && isBoolT(v.typ) && l.endsBy(v.phi) {
			if k, b := s.F.decide(e.phiVal(s, s.top(), v.phi, from)); k && v.Entry == mkBool(!b) {
				flag = true
			}
		}
	}
	for steps := 0; len(work) > 0; steps++ {
		if steps > 64 || len(work) > 8 {
			return nil
		}
		w := work[len(work)-1]
		f := w.top()
		if len(w.frames) != depth {
			return nil
		}
		if !l.body[f.block] {
			out = append(out, w)
			work = work[:len(work)-1]
			continue
		}
		if f.pc >= len(f.block.Instrs) {
			return nil
		}
		ins := f.block.Instrs[f.pc]
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field, *ssa.Index, *ssa.Convert, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Extract, *ssa.DebugRef, *ssa.Slice:
		case *ssa.UnOp:
			if x.Op.String() == "<-" {
				return nil
			}
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" {
				return nil
			}
		case *ssa.If, *ssa.Jump:
			if i, ok := ins.(*ssa.If); ok && flagCond(i.Cond) {
				if k, _ := w.F.decide(e.val(w, f, i.Cond)); k {
					flag = true
				}
			}
			for _, to := range f.block.Succs {
				if heads[to] != nil {
					return nil
				}
			}
		default:
			return nil
		}
		f.pc++
		forks, end, done := e.step(w, f, ins, 0)
		if end != nil {
			return nil
		}
		if done {
			work = append(work[:len(work)-1], forks...)
		}
	}
	if !flag {
		return nil // it is just the last one
	}
	return out
}

// flagCond: the condition is about what the iteration found, not about how far it got
func flagCond(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.BinOp:
		t := x.X.Type().Underlying()
		if b, ok := t.(*types.Basic); ok {
			return b.Info()&types.IsBoolean != 0
		}
		_, slice := t.(*types.Slice)
		return !slice
	case *ssa.UnOp:
		return x.Op != token.NOT || flagCond(x.X)
	}
	return true
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// endsBy: the loop ends by this flag
func (l *loopInfo) endsBy(v ssa.Value) bool {
	for b := range l.body {
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || l.body[b.Succs[0]] && l.body[b.Succs[1]] {
			continue
		}
		c := i.Cond
		for {
			u, ok := c.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			c = u.X
		}
		if c == v {
			return true
		}
	}
	return false
}

package main

// Loops whose number of iterations is a constant are followed iteration by iteration instead of
// being abstracted.

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

const (
	maxTrips   = 64
	maxUnrolls = 20000
)

func (e *Engine) unrollable(s *State, f *Frame, from, head *ssa.BasicBlock, li *loopInfo) bool {
	iff, ok := head.Instrs[len(head.Instrs)-1].(*ssa.If)
	if !ok || e.unrolls > maxUnrolls {
		return false
	}
	if e.onceOnly(s, f, from, head, li, iff) {
		e.unrolls++
		return true
	}
	cond, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cond.Block() != head {
		return false
	}
	for _, ins := range head.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		start, ok := e.phiVal(s, f, p, from).isInt()
		if !ok || !isIntType(p.Type()) {
			continue
		}
		step, ok := phiStep(p, head, li)
		if !ok || step == 0 {
			continue
		}
		l, lp, ok1 := e.affine(s, f, cond.X, p, li)
		r, rp, ok2 := e.affine(s, f, cond.Y, p, li)
		if !ok1 || !ok2 || lp == rp {
			continue
		}
		stay := li.body[head.Succs[0]]
		if stay == li.body[head.Succs[1]] {
			continue
		}
		v := start
		n := 0
		for ; n <= maxTrips; n++ {
			a, b := l, r
			if lp {
				a += v
			}
			if rp {
				b += v
			}
			if cmpInt(cond.Op, a, b) != stay {
				break
			}
			v += step
		}
		if n <= maxTrips {
			e.unrolls++
			return true
		}
	}
	return false
}

func cmpInt(op token.Token, a, b int64) bool {
	switch op {
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	case token.GEQ:
		return a >= b
	case token.EQL:
		return a == b
	case token.NEQ:
		return a != b
	}
	return false
}

// phiStep: the constant by which every back edge changes the variable.
func phiStep(p *ssa.Phi, head *ssa.BasicBlock, li *loopInfo) (int64, bool) {
	var step int64
	n := 0
	for i, pr := range head.Preds {
		if !li.body[pr] {
			continue
		}
		b, ok := p.Edges[i].(*ssa.BinOp)
		if !ok || b.X != p || b.Op != token.ADD && b.Op != token.SUB {
			return 0, false
		}
		k, ok := b.Y.(*ssa.Const)
		if !ok || k.Value == nil {
			return 0, false
		}
		d := k.Int64()
		if b.Op == token.SUB {
			d = -d
		}
		if n > 0 && d != step {
			return 0, false
		}
		step = d
		n++
	}
	return step, n > 0
}

// affine: the value is c, or p plus c.
func (e *Engine) affine(s *State, f *Frame, v ssa.Value, p *ssa.Phi, li *loopInfo) (int64, bool, bool) {
	if v == p {
		return 0, true, true
	}
	if k, ok := v.(*ssa.Const); ok {
		if k.Value == nil || !isIntType(k.Type()) {
			return 0, false, false
		}
		n, ok := e.val(s, f, k).isInt()
		return n, false, ok
	}
	ins, ok := v.(ssa.Instruction)
	if !ok || !li.body[ins.Block()] {
		if !isIntType(v.Type()) {
			return 0, false, false
		}
		n, ok := s.F.canon(e.val(s, f, v)).isInt()
		return n, false, ok
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op != token.ADD && x.Op != token.SUB {
			return 0, false, false
		}
		a, ap, ok1 := e.affine(s, f, x.X, p, li)
		b, bp, ok2 := e.affine(s, f, x.Y, p, li)
		if !ok1 || !ok2 || bp {
			return 0, false, false
		}
		if x.Op == token.SUB {
			b = -b
		}
		return a + b, ap, true
	case *ssa.Call:
		bi, ok := x.Call.Value.(*ssa.Builtin)
		if !ok || bi.Name() != "len" {
			return 0, false, false
		}
		if ai, ok := x.Call.Args[0].(ssa.Instruction); ok && li.body[ai.Block()] {
			return 0, false, false
		}
		n, ok := s.F.canon(mkLen(e.val(s, f, x.Call.Args[0]))).isInt()
		return n, false, ok
	}
	return 0, false, false
}

// onceOnly: a flag lets the loop run, and every way back to its head drops it.
func (e *Engine) onceOnly(s *State, f *Frame, from, head *ssa.BasicBlock, li *loopInfo, iff *ssa.If) bool {
	p, ok := iff.Cond.(*ssa.Phi)
	stay := li.body[head.Succs[0]]
	if !ok || p.Block() != head || stay == li.body[head.Succs[1]] {
		return false
	}
	for i, pr := range head.Preds {
		v, ok := e.flag(s, f, p.Edges[i], li)
		if li.body[pr] && (!ok || v == stay) {
			return false
		}
		if pr == from && !ok {
			return false
		}
	}
	return true
}

// flag: a boolean that is constant here.
func (e *Engine) flag(s *State, f *Frame, v ssa.Value, li *loopInfo) (bool, bool) {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
		b, ok := e.flag(s, f, u.X, li)
		return !b, ok
	}
	if ins, ok := v.(ssa.Instruction); ok && li.body[ins.Block()] {
		return false, false
	}
	t := s.F.canon(e.val(s, f, v))
	return t == tTrue, t == tTrue || t == tFalse
}

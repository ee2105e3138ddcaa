package main

// Loop heads: the widening points. Every loop variable (phi or memory cell) gets the strongest
// of three abstractions that the loop body preserves - unchanged, sub-slice of its entry value,
// unknown - and a set of linear invariants and per-element facts is inferred by weakening a
// candidate set to a fixpoint.

import (
	"fmt"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type absKind uint8

const (
	aSame absKind = iota
	aSub
	aFresh
	aFill // the entry value with zero elements appended
	aRel  // the same function of the other loop variables at every head
)

type LoopVar struct {
	Name  string
	phi   *ssa.Phi
	addr  *Term
	typ   types.Type
	Entry *Term
	Cur   *Term // value at the head
	kind  absKind
	loFix bool
	hiFix bool
	loSym *Term
	hiSym *Term
}

type LoopRec struct {
	Head  *ssa.BasicBlock
	Fn    *ssa.Function
	Act   int
	Vars  []*LoopVar
	NLits int
	NEv   int
	Entry *State
	Invs  []*Term
	Havoc bool
	HeadS *State // state at the head, after the abstraction
	Backs []*Path
}

func (r *LoopRec) byCur(t *Term) *LoopVar {
	for _, v := range r.Vars {
		if v.Cur == t {
			return v
		}
	}
	return nil
}

type loopAbs struct {
	vars    []*LoopVar
	cls     map[string]bool
	heap    bool
	maps    bool
	invs    []*Term
	segs    []Seg
	foralls []ForAll
}

func (e *Engine) enterLoop(s *State, f *Frame, from, head *ssa.BasicBlock, li *loopInfo) ([]*State, *Path, bool) {
	ab := &loopAbs{cls: map[string]bool{}}
	for _, ins := range head.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		nm := p.Comment
		if nm == "" {
			nm = p.Name()
		}
		v := &LoopVar{Name: fmt.Sprintf("%s/%s", nm, p.Name()), phi: p, typ: p.Type(), Entry: e.phiVal(s, f, p, from)}
		ab.vars = append(ab.vars, v)
	}
	invPhase := 0
	var rec *LoopRec
	var s1 *State
	var backs []*Path
	dbg := os.Getenv("VERIF_LOOP") != ""
	for iter := 0; ; iter++ {
		if iter > 40 {
			e.undecided("%s: loop at %s doesn't stabilise", f.fn, e.P.pos(blockPos(head)))
			return nil, nil, true
		}
		s1, rec = e.loopState(s, f, from, head, ab)
		if s1 == nil {
			return nil, nil, true
		}
		backs = backs[:0]
		e.probing++
		for _, h := range e.relForks(s1, rec) {
			e.explore(h.clone(), func(p *Path) bool {
				if p.Kind == PBackEdge && p.Loop.Head == head && p.Loop.Act == f.act {
					backs = append(backs, p)
				}
				return true
			}, f.act)
		}
		e.probing--
		changed := false
		for _, b := range backs {
			for _, v := range ab.vars {
				n := b.Next[v.Name]
				if n == nil {
					continue // the variable was only just found: the next round sees it
				}
				if v.kind == aRel {
					m := map[*Term]*Term{}
					for _, w := range ab.vars {
						if w != v && w.kind != aRel {
							m[w.Entry] = b.Next[w.Name]
						}
					}
					if !b.S.F.eqInt(n, substTerm(v.Entry, m, nil)) {
						v.kind = aFresh
						changed = true
					}
					continue
				}
				if v.weaken(n, b.S.F) {
					changed = true
				}
			}
			// memory
			if b.S.heapEp != s1.heapEp && !ab.heap {
				ab.heap = true
				changed = true
			}
			if len(b.S.maps) != len(s1.maps) && !ab.maps {
				ab.maps = true
				changed = true
			}
			if len(b.S.copies) != len(s1.copies) {
				for _, c := range b.S.copies[len(s1.copies):] {
					cl := "elem:" + elemTypeName(c.dst)
					if !ab.cls[cl] && !isFreshObj(c.dst) {
						ab.cls[cl] = true
						changed = true
					}
				}
			}
			for cl, sts := range b.S.stores {
				old := s1.stores[cl]
				if len(sts) == len(old) {
					continue
				}
				for _, a := range sts[len(old):] {
					if isMark(a) {
						if !ab.cls[cl] {
							ab.cls[cl] = true
							changed = true
						}
						continue
					}
					if isLoopLocal(s, a) {
						continue
					}
					if containsLoopSym(a, rec) {
						// address varies
						if !ab.cls[cl] {
							ab.cls[cl] = true
							changed = true
						}
						continue
					}
					if ab.heap && !localRoot(a) && !s.allocs[addrRoot(a)] {
						continue
					}
					found := false
					for _, v := range ab.vars {
						if v.addr == a {
							found = true
						}
					}
					if !found {
						st := s.clone()
						typ := deref(a.typ)
						v := &LoopVar{Name: fmt.Sprintf("mem:%s", a), addr: a, typ: typ, Entry: st.load(a, typ)}
						ab.vars = append(ab.vars, v)
						changed = true
					}
				}
			}
		}
		if dbg && e.probing == 0 {
			fmt.Fprintf(os.Stderr, "loop %s@%s iter %d backs %d changed %v\n", f.fn.Name(), e.P.pos(blockPos(head)), iter, len(backs), changed)
			for _, v := range ab.vars {
				fmt.Fprintf(os.Stderr, "   var %s kind %d entry %s\n", v.Name, v.kind, v.Entry)
			}
		}
		if changed {
			if invPhase > 0 {
				// structure got weaker: start the invariants over
				invPhase = 0
				ab.invs, ab.segs, ab.foralls = nil, nil, nil
			}
			continue
		}
		if invPhase == 0 {
			ab.invs = e.candidates(s, rec, backs)
			invPhase = 1
			if len(ab.invs) > 0 {
				continue
			}
		}
		// Houdini step
		var keep []*Term
		for _, inv := range ab.invs {
			ok := true
			for _, b := range backs {
				m := map[*Term]*Term{}
				for _, v := range rec.Vars {
					v.bind(m, b.Next[v.Name])
				}
				if !b.S.F.entails(substTerm(inv, m, nil)) {
					ok = false
					break
				}
			}
			if ok {
				keep = append(keep, inv)
			}
		}
		if len(keep) != len(ab.invs) {
			ab.invs = keep
			continue
		}
		if invPhase == 1 {
			invPhase = 2
			ab.segs, ab.foralls = e.elementFacts(s1, rec, backs)
			if len(ab.segs)+len(ab.foralls) > 0 {
				continue
			}
		}
		break
	}
	rec.Backs = backs
	if dbg && e.probing == 0 {
		for _, i := range ab.invs {
			fmt.Fprintf(os.Stderr, "   inv %s\n", i)
		}
		for _, g := range ab.segs {
			fmt.Fprintf(os.Stderr, "   seg %s [%s,%s) %d\n", g.base, g.lo, g.hi, g.m.count())
		}
		for _, g := range ab.foralls {
			fmt.Fprintf(os.Stderr, "   forall [%s,%s) %v %s\n", g.lo, g.hi, g.lit.v, g.lit.t)
		}
	}
	return e.relForks(s1, rec), nil, true
}

func elemTypeName(t *Term) string {
	if t.typ != nil {
		u := t.typ.Underlying()
		if p, ok := u.(*types.Pointer); ok {
			u = p.Elem().Underlying()
		}
		switch x := u.(type) {
		case *types.Slice:
			return types.TypeString(x.Elem(), nil)
		case *types.Array:
			return types.TypeString(x.Elem(), nil)
		}
	}
	return "?"
}

// isLoopLocal: the cell belongs to an object allocated inside the loop
func isLoopLocal(s *State, a *Term) bool {
	r := addrRoot(a)
	if r.op == OAlloc {
		_, ok := s.allocs[r]
		return !ok
	}
	return r.op == OMakeSlice && int(r.n) > s.allocN
}

func containsLoopSym(a *Term, rec *LoopRec) bool {
	set := map[*Term]bool{}
	for _, v := range rec.Vars {
		if v.kind == aFresh {
			set[v.Cur] = true
		}
		if v.loSym != nil {
			set[v.loSym] = true
		}
		if v.hiSym != nil {
			set[v.hiSym] = true
		}
	}
	found := false
	walkTerm(a, func(t *Term) {
		if set[t] {
			found = true
		}
		if t.op == OSym && len(t.name) > 0 && hashSym(t.name) {
			// produced by an event inside the loop: treat as varying unless it existed before
			if !rec.Entry.symKnown(t) {
				found = true
			}
		}
	})
	return found
}

func hashSym(n string) bool {
	for i := 0; i < len(n); i++ {
		if n[i] == '#' {
			return true
		}
	}
	return false
}

// symKnown: was the symbol created before this state?
func (s *State) symKnown(t *Term) bool {
	for _, ev := range s.events {
		for _, r := range ev.Res {
			if contains(r, t) {
				return true
			}
		}
	}
	for _, f := range s.frames {
		for _, v := range f.env {
			if contains(v, t) {
				return true
			}
		}
	}
	for _, v := range s.mem {
		if contains(v, t) {
			return true
		}
	}
	return false
}

// weaken adapts the variable's abstraction to a back-edge value. true: it changed.
func (v *LoopVar) weaken(next *Term, f *Facts) bool {
	switch v.kind {
	case aFill:
		if !zeroExtension(next, v.Cur) {
			v.kind = aFresh
			v.hiSym = nil
			return true
		}
		return false
	case aSame:
		if next == v.Entry || f.canon(next) == f.canon(v.Entry) {
			return false
		}
		if isNumTerm(next) && isNumTerm(v.Entry) && f.eqInt(next, v.Entry) {
			return false
		}
		if isSliceT(v.typ) && zeroExtension(next, v.Entry) {
			v.kind = aFill
			return true
		}
		if isStringish(v.typ) && v.Entry.op != ONil && v.Entry.op != OConst && v.Entry.op != OConcat {
			eb, el, eh := seqParts(v.Entry)
			nb, nl, nh := seqParts(next)
			if eb == nb {
				v.kind = aSub
				v.loFix, v.hiFix = f.eqInt(el, nl), f.eqInt(eh, nh)
				return true
			}
		}
		v.kind = aFresh
		if isNumTerm(v.Entry) && isIndexCall(v.Entry) {
			v.kind = aRel
		}
		return true
	case aSub:
		eb, el, eh := seqParts(v.Entry)
		nb, nl, nh := seqParts(next)
		if eb != nb {
			v.kind = aFresh
			v.loSym, v.hiSym = nil, nil
			return true
		}
		ch := false
		if v.loFix && !f.eqInt(el, nl) {
			v.loFix = false
			ch = true
		}
		if v.hiFix && !f.eqInt(eh, nh) {
			v.hiFix = false
			ch = true
		}
		if ch {
			return true
		}
		// stays within the entry value
		if !f.le(el, nl) || !f.le(nl, nh) || !f.le(nh, eh) {
			v.kind = aFresh
			v.loSym, v.hiSym = nil, nil
			return true
		}
	}
	return false
}

// zeroExtension: next is cur with zero elements appended.
func zeroExtension(next, cur *Term) bool {
	if next.op != OConcat {
		return false
	}
	np, cp := concatParts(next), concatParts(cur)
	if cur.op == ONil {
		cp = nil
	}
	if len(np) <= len(cp) {
		return next == cur
	}
	for i, p := range cp {
		if np[i] != p {
			return false
		}
	}
	for _, p := range np[len(cp):] {
		if p.op != OElems {
			return false
		}
		for _, e := range p.args {
			if e.op == ONil || e.op == OZero {
				continue
			}
			if n, ok := e.isInt(); ok && n == 0 {
				continue
			}
			if s, ok := e.isStr(); ok && s == "" {
				continue
			}
			return false
		}
	}
	return true
}

// bind maps the head-symbols of a variable to a concrete value's components
func (v *LoopVar) bind(m map[*Term]*Term, val *Term) {
	switch v.kind {
	case aFresh:
		m[v.Cur] = val
	case aFill:
		m[v.hiSym] = mkSub(mkLen(val), mkLen(v.Entry))
	case aSub:
		_, lo, hi := seqParts(val)
		if v.loSym != nil {
			m[v.loSym] = lo
		}
		if v.hiSym != nil {
			m[v.hiSym] = hi
		}
	}
}

// loopState builds the abstract state at the head.
func (e *Engine) loopState(s *State, f0 *Frame, from, head *ssa.BasicBlock, ab *loopAbs) (*State, *LoopRec) {
	s1 := s.clone()
	f := s1.top()
	rec := &LoopRec{Head: head, Fn: f.fn, Act: f.act, Entry: s, NEv: len(s.events)}
	if ab.heap {
		s1.havocHeap(nil)
		rec.Havoc = true
	}
	if ab.maps {
		s1.maps = append(s1.maps, mapStore{unknown: true})
	}
	for _, cl := range sortedKeys(ab.cls) {
		s1.havocClass(cl)
	}
	f.prev, f.block = from, head
	np := 0
	for _, ins := range head.Instrs {
		if _, ok := ins.(*ssa.Phi); !ok {
			break
		}
		np++
	}
	f.pc = np
	tag := fmt.Sprintf("L%d.%d", f.act, head.Index)
	rel := map[*Term]*Term{}
	ordered := append([]*LoopVar{}, ab.vars...)
	sort.SliceStable(ordered, func(i, j int) bool { return ordered[i].kind != aRel && ordered[j].kind == aRel })
	for _, v := range ordered {
		nv := v
		switch v.kind {
		case aRel:
			nv.Cur = substTerm(v.Entry, rel, nil)
		case aSame:
			nv.Cur = v.Entry
		case aFresh:
			nv.Cur = mkSym(fmt.Sprintf("%s@%s", v.Name, tag), v.typ)
		case aFill:
			nv.hiSym = mkSym(fmt.Sprintf("%s.grown@%s", v.Name, tag), types.Typ[types.Int])
			s1.F.assume(mkLe(tZeroInt, nv.hiSym), true)
			s1.allocN++
			nv.Cur = mkConcat(v.Entry, mk(Term{op: OMakeSlice, args: []*Term{nv.hiSym, nv.hiSym}, n: int64(s1.allocN), typ: v.typ}))
		case aSub:
			b, lo, hi := seqParts(v.Entry)
			l, h := lo, hi
			nv.loSym, nv.hiSym = nil, nil
			if !v.loFix {
				nv.loSym = mkSym(fmt.Sprintf("%s.lo@%s", v.Name, tag), types.Typ[types.Int])
				l = nv.loSym
			}
			if !v.hiFix {
				nv.hiSym = mkSym(fmt.Sprintf("%s.hi@%s", v.Name, tag), types.Typ[types.Int])
				h = nv.hiSym
			}
			nv.Cur = mkSliceT(b, l, h)
			s1.F.assume(mkLe(lo, l), true)
			s1.F.assume(mkLe(l, h), true)
			s1.F.assume(mkLe(h, hi), true)
		}
		if v.phi != nil {
			f.env[v.phi] = nv.Cur
		} else if v.kind != aSame {
			s1.store(v.addr, nv.Cur, v.typ)
		}
		if nv.Cur != nv.Entry && nv.Entry.op != OConst && nv.Entry.op != ONil {
			rel[nv.Entry] = nv.Cur
		}
		cp := *nv
		rec.Vars = append(rec.Vars, &cp)
	}
	for _, inv := range ab.invs {
		if !s1.F.assume(inv, true) {
			break
		}
	}
	if s1.F.bad {
		// the invariants contradict the entry: the entry itself is infeasible
		return nil, nil
	}
	s1.F.segs = append(s1.F.segs, ab.segs...)
	s1.F.foralls = append(s1.F.foralls, ab.foralls...)
	rec.Invs = ab.invs
	rec.NLits = len(s1.F.lits)
	if f.loops == nil {
		f.loops = map[*ssa.BasicBlock]*LoopRec{}
	}
	f.loops[head] = rec
	s1.loopSeq = append(s1.loopSeq, rec)
	// counters advance so that symbols made in different iterations don't coincide
	s1.symN += 1000
	s1.evN += 1000
	rec.HeadS = s1.clone()
	return s1, rec
}

type intVar struct {
	cur, entry *Term
}

func (r *LoopRec) intVars() []intVar {
	var out []intVar
	for _, v := range r.Vars {
		switch v.kind {
		case aFresh:
			if isIntType(v.typ) {
				out = append(out, intVar{v.Cur, v.Entry})
			} else if isStringish(v.typ) {
				out = append(out, intVar{mkLen(v.Cur), mkLen(v.Entry)})
			}
		case aFill:
			out = append(out, intVar{mkLen(v.Cur), mkLen(v.Entry)})
		case aSub:
			_, lo, hi := seqParts(v.Entry)
			if v.loSym != nil {
				out = append(out, intVar{v.loSym, lo})
			}
			if v.hiSym != nil {
				out = append(out, intVar{v.hiSym, hi})
			}
		}
	}
	return out
}

func (e *Engine) candidates(s *State, rec *LoopRec, backs []*Path) []*Term {
	vars := rec.intVars()
	if len(vars) == 0 {
		return nil
	}
	// bounds: lengths mentioned in the entry state
	lens := map[*Term]bool{}
	addLens := func(t *Term) {
		walkTerm(t, func(x *Term) {
			if x.op == OLen {
				lens[x] = true
			}
			if x.op == OSlice {
				lens[mkLen(x)] = true
			}
		})
	}
	for _, c := range s.F.lin {
		for a := range c.m {
			if a.op == OLen {
				lens[a] = true
			}
		}
	}
	f := s.top()
	for v, t := range f.env {
		if isStringish(v.Type()) && t.op != OConst && t.op != ONil {
			lens[mkLen(t)] = true
		}
		if isIntType(v.Type()) {
			addLens(t)
		}
	}
	for _, v := range rec.Vars {
		addLens(v.Entry)
		if v.kind == aSame && isStringish(v.typ) {
			lens[mkLen(v.Cur)] = true
		}
	}
	// lengths the iterations themselves compare with, as long as they don't vary
	for _, b := range backs {
		for _, l := range b.S.F.lits {
			walkTerm(l.t, func(x *Term) {
				if x.op == OLen && !lens[x] && !containsLoopSym(x, rec) {
					lens[x] = true
				}
			})
		}
	}
	var bounds []*Term
	for l := range lens {
		if _, ok := l.isInt(); !ok {
			bounds = append(bounds, l)
		}
	}
	sort.Slice(bounds, func(i, j int) bool { return bounds[i].id < bounds[j].id })
	if len(bounds) > 10 {
		bounds = bounds[:10]
	}
	var cands []*Term
	add := func(t *Term) {
		if _, ok := t.isBool(); !ok {
			cands = append(cands, t)
		}
	}
	for _, v := range vars {
		add(mkLe(v.entry, v.cur))
		add(mkLe(v.cur, v.entry))
		add(mkLe(tZeroInt, v.cur))
		add(mkLe(mkInt(-1), v.cur))
		add(mkLe(mkInt(1), v.cur))
		for _, b := range bounds {
			add(mkLe(v.cur, b))
			add(mkLt(v.cur, b))
		}
	}
	for i, v := range vars {
		for j, w := range vars {
			if i == j {
				continue
			}
			add(mkLe(v.cur, w.cur))
			if d, ok := mkSub(v.entry, w.entry).isInt(); ok && d == 1 {
				// an index that starts one in front of the first element
				add(mkLe(v.cur, mkAddC(w.cur, 1)))
			}
			if i < j {
				dv, dw := mkSub(v.cur, v.entry), mkSub(w.cur, w.entry)
				add(mkIntEq(dv, dw))
				add(mkIntEq(dv, mkScale(dw, -1)))
			}
		}
	}
	// hold on entry?
	m := map[*Term]*Term{}
	for _, v := range rec.Vars {
		v.bind(m, v.Entry)
	}
	var out []*Term
	seen := map[*Term]bool{}
	for _, c := range cands {
		if seen[c] {
			continue
		}
		seen[c] = true
		if s.F.entails(substTerm(c, m, nil)) {
			out = append(out, c)
		}
	}
	return out
}

// elementFacts: what every element the loop has stepped over satisfies.
func (e *Engine) elementFacts(s1 *State, rec *LoopRec, backs []*Path) (segs []Seg, fas []ForAll) {
	if len(backs) == 0 {
		return
	}
	varying := map[*Term]bool{}
	for _, v := range rec.Vars {
		if v.kind == aFresh {
			varying[v.Cur] = true
		}
		if v.loSym != nil {
			varying[v.loSym] = true
		}
		if v.hiSym != nil {
			varying[v.hiSym] = true
		}
	}
	for _, iv := range rec.intVars() {
		if iv.cur.op != OSym {
			continue
		}
		// direction
		dir := 0
		okDir := true
		nexts := make([]*Term, len(backs))
		for bi, b := range backs {
			m := map[*Term]*Term{}
			for _, v := range rec.Vars {
				v.bind(m, b.Next[v.Name])
			}
			n := m[iv.cur]
			nexts[bi] = n
			d := 0
			if b.S.F.eqInt(n, mkAddC(iv.cur, 1)) {
				d = 1
			} else if b.S.F.eqInt(n, mkAddC(iv.cur, -1)) {
				d = -1
			} else if b.S.F.le(iv.cur, n) {
				d = 2
			} else if b.S.F.le(n, iv.cur) {
				d = -2
			} else {
				okDir = false
				break
			}
			if bi == 0 || abs64(int64(d)) > abs64(int64(dir)) && (d > 0) == (dir > 0) {
				dir = d
			} else if (d > 0) != (dir > 0) {
				okDir = false
				break
			}
		}
		if !okDir || dir == 0 {
			continue
		}
		// byte masks: find Elem(base, cur+j)
		type bj struct {
			base *Term
			j    *Term
		}
		cand := map[bj]bool{}
		for _, b := range backs {
			note := func(base, idx *Term) {
				d := mkSub(idx, iv.cur)
				n, ok := d.isInt()
				if ok && n >= -32 && n <= 32 || !ok && !containsAny(d, varying) && !varySyms(d, rec) {
					if !containsAny(base, varying) {
						cand[bj{base, d}] = true
					}
				}
			}
			for _, a := range b.S.F.elemAtoms() {
				note(a.args[0], a.args[1])
			}
			for _, g := range b.S.F.segs {
				note(g.base, g.lo)
				note(g.base, g.hi)
			}
		}
		var cl []bj
		for c := range cand {
			cl = append(cl, c)
		}
		sort.Slice(cl, func(i, j int) bool {
			if cl[i].base != cl[j].base {
				return cl[i].base.id < cl[j].base.id
			}
			a, ok1 := cl[i].j.isInt()
			b, ok2 := cl[j].j.isInt()
			if ok1 && ok2 {
				return a < b
			}
			return cl[i].j.id < cl[j].j.id
		})
		for _, c := range cl {
			u := mask{}
			ok := true
			for bi, b := range backs {
				var lo, hi *Term
				if dir > 0 {
					lo, hi = mkAdd(iv.cur, c.j), mkAdd(nexts[bi], c.j)
				} else {
					lo, hi = mkAddC(mkAdd(nexts[bi], c.j), 1), mkAddC(mkAdd(iv.cur, c.j), 1)
				}
				m, good := b.S.F.segUnion(c.base, lo, hi)
				if !good {
					ok = false
					break
				}
				u = u.or(m)
			}
			if !ok || u == fullMask {
				continue
			}
			if dir > 0 {
				segs = append(segs, Seg{c.base, mkAdd(iv.entry, c.j), mkAdd(iv.cur, c.j), u})
			} else {
				segs = append(segs, Seg{c.base, mkAddC(mkAdd(iv.cur, c.j), 1), mkAddC(mkAdd(iv.entry, c.j), 1), u})
			}
		}
		// general literals, unit steps only
		if dir != 1 && dir != -1 {
			continue
		}
		sets := make([]map[Lit]bool, len(backs))
		var order []Lit
		seenL := map[Lit]bool{}
		for bi, b := range backs {
			sets[bi] = map[Lit]bool{}
			for _, l := range b.S.F.lits[rec.NLits:] {
				if !contains(l.t, iv.cur) {
					continue
				}
				t := substTerm(l.t, map[*Term]*Term{iv.cur: hole}, nil)
				if containsAny(t, varying) || varySyms(t, rec) {
					continue
				}
				k := Lit{t, l.v}
				sets[bi][k] = true
				if !seenL[k] {
					seenL[k] = true
					order = append(order, k)
				}
			}
		}
		sort.Slice(order, func(i, j int) bool { return order[i].t.id < order[j].t.id })
		for _, l := range order {
			// paths without the literal must exclude it by a guard the others have
			var guards []Lit
			good := true
			var has map[Lit]bool
			for bi := range backs {
				if sets[bi][l] && has == nil {
					has = sets[bi]
				}
			}
			for bi := range backs {
				if sets[bi][l] {
					continue
				}
				found := false
				for _, g := range order {
					if has[g] && sets[bi][Lit{g.t, !g.v}] && g.t != l.t {
						guards = append(guards, g)
						found = true
						break
					}
				}
				if !found {
					good = false
					break
				}
			}
			if !good {
				continue
			}
			if dir == 1 {
				fas = append(fas, ForAll{iv.entry, iv.cur, l, guards})
			} else {
				fas = append(fas, ForAll{mkAddC(iv.cur, 1), mkAddC(iv.entry, 1), l, guards})
			}
		}
	}
	segs = append(segs, e.windowFacts(rec, backs, varying)...)
	return
}

// windowFacts: what every byte between two positions satisfies, when the window is empty at first and every
// iteration either extends it at its end, shrinks it at its start, or empties it.
func (e *Engine) windowFacts(rec *LoopRec, backs []*Path, varying map[*Term]bool) (segs []Seg) {
	ivs := rec.intVars()
	type at struct {
		base *Term
		j    int64
	}
	for _, hi := range ivs {
		if hi.cur.op != OSym {
			continue
		}
		cand := map[at]bool{}
		for _, b := range backs {
			for _, a := range b.S.F.elemAtoms() {
				n, ok := mkSub(a.args[1], hi.cur).isInt()
				if ok && n >= -1 && n <= 1 && !containsAny(a.args[0], varying) {
					cand[at{a.args[0], n}] = true
				}
			}
		}
		var cl []at
		for c := range cand {
			cl = append(cl, c)
		}
		sort.Slice(cl, func(i, j int) bool {
			if cl[i].base != cl[j].base {
				return cl[i].base.id < cl[j].base.id
			}
			return cl[i].j < cl[j].j
		})
		if len(cl) == 0 {
			continue
		}
		for _, lo := range ivs {
			if lo.cur == hi.cur || lo.cur.op != OSym || !rec.Entry.F.le(hi.entry, lo.entry) {
				continue
			}
			for _, c := range cl {
				u := mask{}
				grows, ok := false, true
				for _, b := range backs {
					m := map[*Term]*Term{}
					for _, v := range rec.Vars {
						v.bind(m, b.Next[v.Name])
					}
					nl, nh := m[lo.cur], m[hi.cur]
					if nl == nil || nh == nil {
						ok = false
						break
					}
					if b.S.F.le(nh, nl) {
						continue
					}
					if !b.S.F.le(lo.cur, nl) {
						ok = false
						break
					}
					if b.S.F.le(nh, hi.cur) {
						continue
					}
					g, good := b.S.F.segUnion(c.base, mkAddC(hi.cur, c.j), mkAddC(nh, c.j))
					if !good {
						ok = false
						break
					}
					u = u.or(g)
					grows = true
				}
				if ok && grows && u != fullMask {
					segs = append(segs, Seg{c.base, mkAddC(lo.cur, c.j), mkAddC(hi.cur, c.j), u})
				}
			}
		}
	}
	return
}

func varySyms(t *Term, rec *LoopRec) bool {
	bad := false
	walkTerm(t, func(x *Term) {
		if x.op == OSym && hashSym(x.name) && !rec.Entry.symKnown(x) {
			bad = true
		}
		if x.op == OAlloc {
			if _, ok := rec.Entry.allocs[x]; !ok {
				bad = true
			}
		}
	})
	return bad
}

// segUnion: the union of the value sets of base[lo:hi), when it can be bounded
func (f *Facts) segUnion(base, lo, hi *Term) (mask, bool) {
	u := mask{}
	cur := lo
	for step := 0; step < 8; step++ {
		if f.le(hi, cur) {
			return u, true
		}
		adv := false
		for _, s := range f.segs {
			if s.base == base && f.le(s.lo, cur) && f.lt(cur, s.hi) {
				u = u.or(s.m)
				cur = s.hi
				adv = true
				break
			}
		}
		if adv {
			continue
		}
		e := mkElem(base, cur, byteType)
		m := f.elemMask(e)
		if m == fullMask {
			for _, s := range f.segs {
				if s.base == base && f.le(s.lo, cur) && f.le(cur, s.hi) && s.hi != cur {
					u = u.or(s.m)
					cur = s.hi
					adv = true
					break
				}
			}
			if adv {
				continue
			}
			return fullMask, false
		}
		if !f.lt(cur, hi) {
			// may or may not be inside: counting it only weakens
		}
		u = u.or(m)
		cur = mkAddC(cur, 1)
	}
	return fullMask, false
}

// isIndexCall: the position a search of one byte returned.
func isIndexCall(t *Term) bool {
	if t.op != OCall || t.name != "indexByte" && t.name != "lastIndexByte" {
		return false
	}
	_, ok := t.args[1].isInt()
	return ok
}

// relForks splits the head state on the outcome of the searches its variables stand for.
func (e *Engine) relForks(s *State, rec *LoopRec) []*State {
	out := []*State{s}
	for _, v := range rec.Vars {
		if v.kind != aRel || !isIndexCall(v.Cur) {
			continue
		}
		var next []*State
		for _, h := range out {
			by, _ := v.Cur.args[1].isInt()
			next = append(next, indexFork(h.clone(), v.Cur.args[0], v.Cur.args[1], true, by, v.Cur.name == "lastIndexByte", v.Cur, func(*State, *Term) {})...)
		}
		out = next
	}
	return out
}

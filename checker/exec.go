package main

// The abstract interpreter proper: walks SSA with value numbers, one abstract state per trace
// partition, joining at loop heads through inferred invariants.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type PathKind uint8

const (
	PReturn PathKind = iota
	PPanic
	PBackEdge
	PStop
)

func (k PathKind) String() string { return [...]string{"return", "panic", "backedge", "stop"}[k] }

type Path struct {
	Kind    PathKind
	Results []*Term
	S       *State
	Loop    *LoopRec
	Next    map[string]*Term // loop variable -> value at the back edge
	Pos     token.Pos
	Fn      *ssa.Function
}

type BoundsOb struct {
	Pos    token.Pos
	Fn     *ssa.Function
	What   string
	Proved bool
	Detail string
}

type Engine struct {
	P         *Program
	Opaque    func(f *ssa.Function) bool
	Pure      func(name string) bool // opaque in-repo/interface calls without side effects
	NoHavoc   func(name string) bool
	Havoc     func(name string) bool // external functions that change what their arguments point to
	Bounds    bool
	SizesOK   bool // sizes of what is made come from a configuration and are not negative
	NilChecks bool
	NilOnly   bool // with NilChecks: only what certainly is nil counts
	// SplitIndex: where an element of a composed or partly overwritten sequence is read, distinguish
	// which part it comes from
	SplitIndex bool
	// LocalStores: stores to local variables are events, too
	LocalStores bool
	// Copies: a copied string or byte slice is a value of its own, copyOf(x), instead of x
	Copies bool
	// Cut: at the heads of these loops the state is general already, no abstraction is needed: the
	// first arrival of a run that did nothing yet passes, every other one ends the path
	Cut   func(head *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool
	cutEv int
	// Recur: how often a function may be entered again while it runs
	Recur int
	// Guarded: a flag kept under a lock is as good as an atomic one, and is reported as such
	Guarded  bool
	MaxPaths int
	MaxSteps int
	MaxDepth int

	Obs       map[string]*BoundsOb
	unrolls   int
	Undecided []string
	steps     int
	nPaths    int
	probing   int
	Funcs     map[*ssa.Function]bool
	debug     bool
}

func NewEngine(p *Program) *Engine {
	return &Engine{P: p, MaxPaths: 30000, MaxSteps: 4000000, MaxDepth: 14, Obs: map[string]*BoundsOb{},
		Funcs: map[*ssa.Function]bool{}, debug: os.Getenv("VERIF_DEBUG") != ""}
}

func (e *Engine) undecided(format string, a ...any) {
	m := fmt.Sprintf(format, a...)
	for _, u := range e.Undecided {
		if u == m {
			return
		}
	}
	e.Undecided = append(e.Undecided, m)
}

func newState() *State {
	return &State{F: newFacts(), mem: map[*Term]*Term{}, stores: map[string][]*Term{}, allocs: map[*Term]bool{}}
}

// Run explores fn from a symbolic entry state. args may be nil: fresh symbols are used.
func (e *Engine) Run(fn *ssa.Function, args []*Term) []*Path {
	return e.RunFrom(newState(), fn, args)
}

func paramSym(p *ssa.Parameter) *Term { return mkSym(p.Name(), p.Type()) }

func (e *Engine) RunFrom(s *State, fn *ssa.Function, args []*Term) []*Path {
	return e.RunClosure(s, fn, args, nil)
}

func (e *Engine) RunClosure(s *State, fn *ssa.Function, args, binds []*Term) []*Path {
	if len(fn.Blocks) == 0 {
		e.undecided("%s has no body", fn)
		return nil
	}
	s.frames = nil
	if args == nil {
		for _, p := range fn.Params {
			args = append(args, paramSym(p))
		}
	}
	f := e.newFrame(s, fn, args, binds)
	f.site = nil
	s.frames = append(s.frames, f)
	var out []*Path
	e.explore(s, func(p *Path) bool {
		out = append(out, p)
		return true
	}, 0)
	return out
}

func (e *Engine) newFrame(s *State, fn *ssa.Function, args, binds []*Term) *Frame {
	s.actN++
	e.Funcs[fn] = true
	f := &Frame{fn: fn, env: map[ssa.Value]*Term{}, block: fn.Blocks[0], act: s.actN}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		} else {
			f.env[p] = s.freshSym("arg", p.Type())
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(binds) {
			f.env[fv] = binds[i]
		} else {
			f.env[fv] = mkSym("free:"+fv.Name(), fv.Type())
		}
	}
	return f
}

// explore runs a state to all its ends. stopAct: the activation whose return ends a probe.
func (e *Engine) explore(s0 *State, yield func(*Path) bool, stopAct int) {
	work := []*State{s0}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		forks, end := e.runState(s, stopAct)
		if end != nil {
			e.nPaths++
			if e.nPaths > e.MaxPaths*4 {
				e.undecided("path budget exhausted in %s", s0Name(s0))
				return
			}
			if !yield(end) {
				return
			}
			continue
		}
		// deterministic order: first fork first
		for i := len(forks) - 1; i >= 0; i-- {
			work = append(work, forks[i])
		}
		if len(work) > e.MaxPaths {
			e.undecided("worklist budget exhausted in %s", s0Name(s0))
			return
		}
	}
}

func s0Name(s *State) string {
	if len(s.frames) > 0 {
		return s.frames[0].fn.String()
	}
	return "?"
}

// runState advances until the state forks or ends. (nil,nil) means infeasible.
func (e *Engine) runState(s *State, stopAct int) ([]*State, *Path) {
	for {
		e.steps++
		if e.steps > e.MaxSteps {
			e.undecided("step budget exhausted")
			return nil, nil
		}
		f := s.top()
		if f.pc >= len(f.block.Instrs) {
			return nil, nil
		}
		ins := f.block.Instrs[f.pc]
		f.pc++
		forks, end, done := e.step(s, f, ins, stopAct)
		if done {
			return forks, end
		}
	}
}

func (e *Engine) val(s *State, f *Frame, v ssa.Value) *Term {
	if t, ok := f.env[v]; ok {
		return t
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if x.IsNil() {
				return tNil
			}
			return zeroOf(x.Type())
		}
		return mkConstVal(x.Value, x.Type())
	case *ssa.Global:
		return mk(Term{op: OGlobalAddr, obj: x, name: x.Pkg.Pkg.Name() + "." + x.Name(), typ: x.Type()})
	case *ssa.Function:
		return mk(Term{op: OFunc, obj: x, name: x.String(), typ: x.Type()})
	case *ssa.Builtin:
		return mk(Term{op: OFunc, obj: x, name: x.Name(), typ: x.Type()})
	}
	t := s.freshSym("unk:"+v.Name(), v.Type())
	f.env[v] = t
	return t
}

func (e *Engine) ob(s *State, pos token.Pos, fn *ssa.Function, what string, conds ...*Term) {
	if !e.Bounds {
		for _, c := range conds {
			s.F.assume(c, true)
		}
		return
	}
	if e.probing > 0 {
		for _, c := range conds {
			s.F.assume(c, true)
		}
		return
	}
	key := fmt.Sprintf("%s|%s|%s", fn, e.P.pos(pos), what)
	o := e.Obs[key]
	if o == nil {
		o = &BoundsOb{Pos: pos, Fn: fn, What: what, Proved: true}
		e.Obs[key] = o
	}
	for _, c := range conds {
		if !s.F.entailsDeep(c) {
			o.Proved = false
			if o.Detail == "" {
				o.Detail = fmt.Sprintf("cannot show %s on the trace %s", c, traceOf(e.P, s))
			}
		}
		s.F.assume(c, true)
	}
}

func traceOf(p *Program, s *State) string {
	var parts []string
	for _, l := range s.F.lits {
		v := ""
		if !l.v {
			v = "not "
		}
		parts = append(parts, v+l.t.String())
	}
	if len(parts) > 14 {
		parts = append([]string{"…"}, parts[len(parts)-14:]...)
	}
	return "[" + strings.Join(parts, "; ") + "]"
}

// fork helper: returns the feasible variants
func branch(s *State, alts ...func(*State) bool) []*State {
	var out []*State
	for i, a := range alts {
		n := s
		if i < len(alts)-1 {
			n = s.clone()
		}
		if a(n) && !n.F.bad {
			out = append(out, n)
		}
	}
	return out
}

func (e *Engine) step(s *State, f *Frame, ins ssa.Instruction, stopAct int) (forks []*State, end *Path, done bool) {
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		s.allocN++
		t := mk(Term{op: OAlloc, n: int64(s.allocN), name: x.Comment, typ: x.Type(), obj: x})
		s.allocs[t] = true
		f.env[x] = t
	case *ssa.Phi:
		// handled at block entry
	case *ssa.BinOp:
		return e.binop(s, f, x)
	case *ssa.UnOp:
		return e.unop(s, f, x)
	case *ssa.ChangeType:
		f.env[x] = e.val(s, f, x.X)
	case *ssa.ChangeInterface:
		f.env[x] = e.val(s, f, x.X)
	case *ssa.Convert:
		f.env[x] = e.convert(s, e.val(s, f, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		f.env[x] = e.convert(s, e.val(s, f, x.X), x.X.Type(), x.Type())
	case *ssa.MakeInterface:
		v := e.val(s, f, x.X)
		f.env[x] = mk(Term{op: OIface, args: []*Term{v}, typ: x.X.Type()})
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		var b []*Term
		for _, bv := range x.Bindings {
			b = append(b, e.val(s, f, bv))
		}
		f.env[x] = mk(Term{op: OClosure, obj: fn, name: fn.Name(), args: b, typ: x.Type()})
	case *ssa.MakeSlice:
		s.allocN++
		l, c := e.val(s, f, x.Len), e.val(s, f, x.Cap)
		if e.SizesOK {
			s.F.assume(mkLe(tZeroInt, l), true)
		} else {
			e.ob(s, x.Pos(), f.fn, "make-len", mkLe(tZeroInt, l))
		}
		if l != c && l != tZeroInt {
			e.ob(s, x.Pos(), f.fn, "make-cap", mkLe(l, c))
		}
		t := mk(Term{op: OMakeSlice, args: []*Term{l, c}, n: int64(s.allocN), typ: x.Type()})
		f.env[x] = t
	case *ssa.MakeMap:
		s.allocN++
		f.env[x] = mk(Term{op: OMakeMap, n: int64(s.allocN), typ: x.Type()})
	case *ssa.MakeChan:
		s.allocN++
		f.env[x] = mk(Term{op: OMakeChan, n: int64(s.allocN), args: []*Term{e.val(s, f, x.Size)}, typ: x.Type()})
	case *ssa.Extract:
		t := e.val(s, f, x.Tuple)
		if t.op == OTuple && x.Index < len(t.args) {
			f.env[x] = t.args[x.Index]
		} else {
			f.env[x] = mk(Term{op: OCall, name: fmt.Sprintf("ext%d", x.Index), args: []*Term{t}, typ: x.Type()})
		}
	case *ssa.Field:
		st := structOf(x.X.Type())
		f.env[x] = mkFieldVal(e.val(s, f, x.X), x.Field, st.Field(x.Field).Type())
	case *ssa.FieldAddr:
		base := s.F.canon(e.val(s, f, x.X))
		pt := x.X.Type().Underlying().(*types.Pointer).Elem()
		st := structOf(pt)
		if e.NilChecks {
			e.nilOb(s, f, x.Pos(), base)
		}
		f.env[x] = mkFieldAddr(base, x.Field, st, pt)
	case *ssa.IndexAddr:
		base, i := e.val(s, f, x.X), e.val(s, f, x.Index)
		e.ob(s, x.Pos(), f.fn, "index", mkLe(tZeroInt, i), mkLt(i, mkLen(base)))
		if e.SplitIndex {
			if forks := e.splitIndex(s, f, x, base, i); forks != nil {
				return forks, nil, true
			}
			if onlyLoaded(x) {
				base, i = s.resolveIndex(base, i, deref(x.Type()))
			}
			for _, k := range s.memKeys() {
				if k.op == OIndexAddr && k.args[0] == base && k.args[1] != i && s.F.eqInt(k.args[1], i) {
					i = k.args[1]
					break
				}
			}
		}
		f.env[x] = mkIndexAddr(base, i, deref(x.Type()))
	case *ssa.Index:
		base, i := e.val(s, f, x.X), e.val(s, f, x.Index)
		e.ob(s, x.Pos(), f.fn, "index", mkLe(tZeroInt, i), mkLt(i, mkLen(base)))
		return e.elemLookup(s, f, x, base, i, x.Type())
	case *ssa.Lookup:
		return e.lookup(s, f, x)
	case *ssa.Slice:
		e.slice(s, f, x)
	case *ssa.SliceToArrayPointer:
		f.env[x] = e.val(s, f, x.X)
	case *ssa.Store:
		a, v := e.val(s, f, x.Addr), e.val(s, f, x.Val)
		typ := x.Val.Type()
		if e.Guarded && guardedFlag(s, a, typ) {
			s.event(Event{Kind: EvCall, Name: "sync/atomic.guarded.Store", Args: []*Term{a, v}, Pos: x.Pos()})
			return nil, nil, false
		}
		if !localRoot(a) || e.LocalStores {
			s.event(Event{Kind: EvStore, Addr: a, Val: v, Pos: x.Pos()})
		}
		if e.NilChecks && a.op != OFieldAddr && a.op != OIndexAddr {
			e.nilOb(s, f, x.Pos(), a)
		}
		s.store(a, v, typ)
	case *ssa.MapUpdate:
		m, k, v := e.val(s, f, x.Map), s.F.canonDeep(e.val(s, f, x.Key)), e.val(s, f, x.Value)
		if e.NilChecks && e.NilOnly {
			e.nilOb(s, f, x.Pos(), m)
		}
		s.event(Event{Kind: EvMapUpdate, Args: []*Term{m, k, v}, Pos: x.Pos()})
		s.maps = append(s.maps, mapStore{m: m, k: k, v: v})
	case *ssa.Range:
		args := []*Term{e.val(s, f, x.X)}
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			// the position is a cell of its own
			s.allocN++
			pos := mk(Term{op: OAlloc, n: int64(s.allocN), name: "rangepos", typ: types.NewPointer(types.Typ[types.Int]), obj: x})
			s.allocs[pos] = true
			s.store(pos, tZeroInt, types.Typ[types.Int])
			args = append(args, pos)
		}
		f.env[x] = mk(Term{op: OCall, name: "range", args: args, typ: x.X.Type()})
	case *ssa.Next:
		return e.next(s, f, x)
	case *ssa.Send:
		s.event(Event{Kind: EvSend, Args: []*Term{e.val(s, f, x.Chan), e.val(s, f, x.X)}, Pos: x.Pos()})
	case *ssa.Select:
		e.selectInstr(s, f, x)
	case *ssa.TypeAssert:
		return e.typeAssert(s, f, x)
	case *ssa.Go:
		fnT, name, fn, args := e.resolveCall(s, f, x.Common())
		s.event(Event{Kind: EvGo, Name: name, Fn: fn, FnT: fnT, Args: args, Pos: x.Pos()})
	case *ssa.Defer:
		fnT, _, _, args := e.resolveCall(s, f, x.Common())
		s.event(Event{Kind: EvDefer, FnT: fnT, Args: args, Pos: x.Pos()})
		f.defers = append(f.defers, deferred{common: x.Common(), fn: fnT, args: args, instr: x})
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			f.pc--
			return e.call(s, f, d.instr, d.fn, d.args, nil)
		}
	case *ssa.Call:
		return e.call(s, f, x, nil, nil, x)
	case *ssa.If:
		c := e.val(s, f, x.Cond)
		b := f.block
		if k, v := s.F.decide(c); k {
			s.F.assume(c, v)
			if v {
				return e.jump(s, f, b, b.Succs[0], stopAct)
			}
			return e.jump(s, f, b, b.Succs[1], stopAct)
		}
		var out []*State
		alt := s.clone()
		if s.F.assume(c, true) {
			fs, en, dn := e.jump(s, s.top(), b, b.Succs[0], stopAct)
			if dn {
				if en != nil {
					// a back edge reached directly: deliver through a stub state
					out = append(out, stubState(s, en))
				}
				out = append(out, fs...)
			} else {
				out = append(out, s)
			}
		}
		if alt.F.assume(c, false) {
			fs, en, dn := e.jump(alt, alt.top(), b, b.Succs[1], stopAct)
			if dn {
				if en != nil {
					out = append(out, stubState(alt, en))
				}
				out = append(out, fs...)
			} else {
				out = append(out, alt)
			}
		}
		return out, nil, true
	case *ssa.Jump:
		return e.jump(s, f, f.block, f.block.Succs[0], stopAct)
	case *ssa.Return:
		var res []*Term
		for _, r := range x.Results {
			res = append(res, e.val(s, f, r))
		}
		return e.ret(s, f, res, x.Pos(), stopAct)
	case *ssa.Panic:
		s.event(Event{Kind: EvPanic, Args: []*Term{e.val(s, f, x.X)}, Pos: x.Pos()})
		return nil, &Path{Kind: PPanic, S: s, Results: []*Term{e.val(s, f, x.X)}, Pos: x.Pos(), Fn: f.fn}, true
	case *endInstr:
		return nil, x.end, true
	default:
		e.undecided("unhandled instruction %T at %s", ins, e.P.pos(ins.Pos()))
		if v, ok := ins.(ssa.Value); ok {
			f.env[v] = s.freshSym("unk", v.Type())
		}
	}
	return nil, nil, false
}

// endInstr carries a finished path through the worklist.
type endInstr struct {
	ssa.Jump
	end *Path
}

func stubState(s *State, en *Path) *State {
	b := &ssa.BasicBlock{Instrs: []ssa.Instruction{&endInstr{end: en}}}
	n := &State{F: s.F, frames: []*Frame{{fn: s.top().fn, block: b}}}
	return n
}

func (e *Engine) nilOb(s *State, f *Frame, pos token.Pos, p *Term) {
	if nonNil(p) {
		return
	}
	if e.NilOnly {
		if !s.F.entails(mkEq(p, tNil)) {
			return
		}
		key := fmt.Sprintf("%s|%s|nil", f.fn, e.P.pos(pos))
		e.Obs[key] = &BoundsOb{Pos: pos, Fn: f.fn, What: "nil", Detail: "nothing is pointed to on the trace " + traceOf(e.P, s)}
		return
	}
	e.ob(s, pos, f.fn, "nil", mkNot(mkEq(p, tNil)))
}

func (e *Engine) ret(s *State, f *Frame, res []*Term, pos token.Pos, stopAct int) ([]*State, *Path, bool) {
	if len(s.frames) == 1 || f.act == stopAct {
		return nil, &Path{Kind: PReturn, S: s, Results: res, Pos: pos, Fn: f.fn}, true
	}
	s.frames = s.frames[:len(s.frames)-1]
	c := s.top()
	if f.site != nil {
		if v, ok := f.site.(ssa.Value); ok && !f.isDef {
			switch len(res) {
			case 0:
			case 1:
				c.env[v] = res[0]
			default:
				c.env[v] = mk(Term{op: OTuple, args: res})
			}
		}
	}
	return nil, nil, false
}

// ---- operators

func intRange(t types.Type) (lo, hi constant.Value, bitsN int, unsigned bool, ok bool) {
	b, k := t.Underlying().(*types.Basic)
	if !k || b.Info()&types.IsInteger == 0 {
		return nil, nil, 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		bitsN = 8
	case types.Int16:
		bitsN = 16
	case types.Int32:
		bitsN = 32
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		bitsN = 64
	case types.Uint8:
		bitsN, unsigned = 8, true
	case types.Uint16:
		bitsN, unsigned = 16, true
	case types.Uint32:
		bitsN, unsigned = 32, true
	default:
		bitsN, unsigned = 64, true
	}
	one := constant.MakeInt64(1)
	if unsigned {
		lo = constant.MakeInt64(0)
		hi = constant.BinaryOp(constant.Shift(one, token.SHL, uint(bitsN)), token.SUB, one)
	} else {
		h := constant.Shift(one, token.SHL, uint(bitsN-1))
		lo = constant.UnaryOp(token.SUB, h, 0)
		hi = constant.BinaryOp(h, token.SUB, one)
	}
	return lo, hi, bitsN, unsigned, true
}

func (e *Engine) convert(s *State, v *Term, from, to types.Type) *Term {
	if isIntType(from) && isIntType(to) {
		flo, fhi, _, _, _ := intRange(from)
		tlo, thi, tb, tu, _ := intRange(to)
		if constant.Compare(tlo, token.LEQ, flo) && constant.Compare(fhi, token.LEQ, thi) {
			return v
		}
		if v.op == OConst {
			c := v.val
			if constant.Compare(tlo, token.LEQ, c) && constant.Compare(c, token.LEQ, thi) {
				return v
			}
			return mkConstVal(wrapConst(c, tb, tu), to)
		}
		ok := true
		if constant.Compare(flo, token.LSS, tlo) {
			l, _ := constant.Int64Val(tlo)
			if !s.F.le(mkInt(l), v) {
				ok = false
			}
		}
		if constant.Compare(fhi, token.GTR, thi) {
			h, exact := constant.Int64Val(thi)
			if exact && !s.F.le(v, mkInt(h)) {
				ok = false
			}
			if !exact {
				ok = ok && true // an int never exceeds MaxUint64
			}
		}
		if ok {
			return v
		}
		return mk(Term{op: OConv, args: []*Term{v}, typ: to})
	}
	if isStringish(from) && isStringish(to) {
		if e.Copies && isTextType(from) != isTextType(to) {
			return mkCopyOf(v)
		}
		return v
	}
	if isIntType(from) && isStringish(to) {
		if n, ok := v.isInt(); ok {
			return mkStr(string(rune(n)))
		}
		return mk(Term{op: OConv, args: []*Term{v}, typ: to})
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	return mk(Term{op: OConv, args: []*Term{v}, typ: to})
}

func wrapConst(c constant.Value, bitsN int, unsigned bool) constant.Value {
	mod := constant.Shift(constant.MakeInt64(1), token.SHL, uint(bitsN))
	msk := constant.BinaryOp(mod, token.SUB, constant.MakeInt64(1))
	r := constant.BinaryOp(c, token.AND, msk)
	if !unsigned {
		half := constant.Shift(constant.MakeInt64(1), token.SHL, uint(bitsN-1))
		if constant.Compare(r, token.GEQ, half) {
			r = constant.BinaryOp(r, token.SUB, mod)
		}
	}
	return r
}

func (e *Engine) binop(s *State, f *Frame, x *ssa.BinOp) ([]*State, *Path, bool) {
	a, b := e.val(s, f, x.X), e.val(s, f, x.Y)
	set := func(t *Term) ([]*State, *Path, bool) { f.env[x] = t; return nil, nil, false }
	xt := x.X.Type()
	isInt := isIntType(xt)
	switch x.Op {
	case token.EQL, token.NEQ:
		var t *Term
		if isInt {
			t = mkIntEq(a, b)
		} else {
			ca, cb := s.F.canon(a), s.F.canon(b)
			t = mkEq(ca, cb)
			if _, ok := t.isBool(); !ok {
				t = mkEq(a, b)
			}
		}
		if x.Op == token.NEQ {
			t = mkNot(t)
		}
		return set(t)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isInt {
			switch x.Op {
			case token.LSS:
				return set(mkLt(a, b))
			case token.LEQ:
				return set(mkLe(a, b))
			case token.GTR:
				return set(mkGt(a, b))
			default:
				return set(mkGe(a, b))
			}
		}
		if a.op == OConst && b.op == OConst && a.val.Kind() == b.val.Kind() {
			return set(mkBool(constant.Compare(a.val, x.Op, b.val)))
		}
		return set(mk(Term{op: OBin, name: x.Op.String(), args: []*Term{a, b}, typ: x.Type()}))
	}
	if !isInt {
		if x.Op == token.ADD && isStringish(xt) {
			return set(mkConcat(a, b))
		}
		if a.op == OConst && b.op == OConst && a.val.Kind() == b.val.Kind() && a.val.Kind() != constant.Bool {
			return set(mkConstVal(constant.BinaryOp(a.val, x.Op, b.val), x.Type()))
		}
		return set(mk(Term{op: OBin, name: x.Op.String(), args: []*Term{a, b}, typ: x.Type()}))
	}
	_, _, nb, uns, _ := intRange(x.Type())
	if a.op == OConst && b.op == OConst && x.Op != token.SHL && x.Op != token.SHR {
		if z, ok := b.isInt(); !(ok && z == 0 && (x.Op == token.QUO || x.Op == token.REM)) {
			op := x.Op
			if op == token.QUO {
				op = token.QUO_ASSIGN // integer division
			}
			return set(mkConstVal(wrapConst(constant.BinaryOp(a.val, op, b.val), nb, uns), x.Type()))
		}
	}
	if n, ok := b.isInt(); ok && a.op == OConst && (x.Op == token.SHL || x.Op == token.SHR) && n >= 0 && n < 64 {
		return set(mkConstVal(wrapConst(constant.Shift(a.val, x.Op, uint(n)), nb, uns), x.Type()))
	}
	switch x.Op {
	case token.ADD, token.SUB:
		var r *Term
		if x.Op == token.ADD {
			r = mkAdd(a, b)
			if nb == 64 && uns && (isMaxUint(x.X) || isMaxUint(x.Y)) {
				return set(s.freshSym("wrapped", x.Type()))
			}
		} else {
			r = mkSub(a, b)
		}
		if nb == 64 && !uns {
			return set(r) // signed overflow of int is out of the domain (stated assumption)
		}
		lo, hi := int64(0), int64(1)<<uint(nb%64)-1
		if !uns {
			lo, hi = -(int64(1) << uint(nb-1)), int64(1)<<uint(nb-1)-1
		}
		if x.Op == token.SUB && uns {
			if s.F.le(mkInt(lo), r) || nb == 64 && isMaxUint(x.X) {
				return set(r)
			}
			out := branch(s, func(n *State) bool {
				n.top().env[x] = r
				return n.F.assume(mkLe(tZeroInt, r), true)
			}, func(n *State) bool {
				if !n.F.assume(mkLe(tZeroInt, r), false) {
					return false
				}
				if nb < 64 {
					n.top().env[x] = mkAddC(r, int64(1)<<uint(nb))
				} else {
					n.top().env[x] = n.freshSym("wrapped", x.Type())
				}
				n.event(Event{Kind: EvWrap, Pos: x.Pos(), Args: []*Term{a, b}})
				return true
			})
			return out, nil, true
		}
		if nb == 64 { // uint add
			return set(r)
		}
		if s.F.le(r, mkInt(hi)) && s.F.le(mkInt(lo), r) {
			return set(r)
		}
		if uns {
			out := branch(s, func(n *State) bool {
				n.top().env[x] = r
				return n.F.assume(mkLe(r, mkInt(hi)), true)
			}, func(n *State) bool {
				if !n.F.assume(mkLe(r, mkInt(hi)), false) {
					return false
				}
				n.top().env[x] = mkAddC(r, -(int64(1) << uint(nb)))
				n.event(Event{Kind: EvWrap, Pos: x.Pos(), Args: []*Term{a, b}})
				return true
			})
			return out, nil, true
		}
		return set(r)
	case token.MUL:
		if n, ok := a.isInt(); ok && nb == 64 && abs64(n) < 1<<31 {
			return set(mkScale(b, n))
		}
		if n, ok := b.isInt(); ok && nb == 64 && abs64(n) < 1<<31 {
			return set(mkScale(a, n))
		}
	case token.OR, token.AND, token.XOR:
		if a.id > b.id {
			a, b = b, a
		}
	}
	r := mk(Term{op: OBin, name: x.Op.String(), args: []*Term{a, b}, typ: x.Type()})
	switch x.Op {
	case token.AND:
		for _, k := range []*Term{a, b} {
			if n, ok := k.isInt(); ok && n >= 0 {
				s.F.assume(mkLe(r, k), true)
				s.F.assume(mkLe(tZeroInt, r), true)
			}
		}
	case token.REM:
		if n, ok := b.isInt(); ok && n > 0 && s.F.le(tZeroInt, a) {
			s.F.assume(mkLe(tZeroInt, r), true)
			s.F.assume(mkLe(r, mkInt(n-1)), true)
			s.F.assume(mkLe(r, a), true)
		}
	case token.QUO:
		if n, ok := b.isInt(); ok && n > 0 && s.F.le(tZeroInt, a) {
			s.F.assume(mkLe(tZeroInt, r), true)
			s.F.assume(mkLe(mkScale(r, n), a), true)
			s.F.assume(mkLe(a, mkAddC(mkScale(r, n), n-1)), true)
		}
	case token.SHR:
		if n, ok := b.isInt(); ok && n >= 0 && n < 62 && s.F.le(tZeroInt, a) {
			k := int64(1) << uint(n)
			s.F.assume(mkLe(tZeroInt, r), true)
			if k < 1<<31 {
				s.F.assume(mkLe(mkScale(r, k), a), true)
				s.F.assume(mkLe(a, mkAddC(mkScale(r, k), k-1)), true)
			}
		}
	}
	return set(r)
}

func (e *Engine) unop(s *State, f *Frame, x *ssa.UnOp) ([]*State, *Path, bool) {
	v := e.val(s, f, x.X)
	switch x.Op {
	case token.MUL:
		if e.NilChecks && v.op != OFieldAddr && v.op != OIndexAddr {
			e.nilOb(s, f, x.Pos(), v)
		}
		if v.op == OIndexAddr && !isCompositeVal(x.Type()) {
			if _, ok := s.mem[v]; !ok {
				return e.elemLookupAddr(s, f, x, v, x.Type())
			}
		}
		if e.SplitIndex && v.op == OFieldAddr {
			// a field of an element whose address was kept
			ia := v
			for ia.op == OFieldAddr {
				ia = ia.args[0]
			}
			if ia.op == OIndexAddr {
				base, i := ia.args[0], ia.args[1]
				if forks := e.splitIndexAt(s, f, base, i); forks != nil {
					return forks, nil, true
				}
				if b, j := s.resolveIndex(base, i, deref(ia.typ)); b != base || j != i {
					v = rebase(v, ia, mkIndexAddr(b, j, deref(ia.typ)))
				}
			}
		}
		if e.Guarded && guardedFlag(s, v, x.Type()) {
			r := s.freshSym("flag", x.Type())
			s.event(Event{Kind: EvCall, Name: "sync/atomic.guarded.Load", Args: []*Term{v}, Res: []*Term{r}, Pos: x.Pos()})
			f.env[x] = r
			return nil, nil, false
		}
		f.env[x] = s.load(v, x.Type())
	case token.NOT:
		f.env[x] = mkNot(v)
	case token.SUB:
		if isIntType(x.Type()) {
			f.env[x] = mkScale(v, -1)
		} else {
			f.env[x] = mk(Term{op: OBin, name: "neg", args: []*Term{v}, typ: x.Type()})
		}
	case token.ARROW:
		ev := s.event(Event{Kind: EvRecv, Args: []*Term{v}, Pos: x.Pos()})
		t := s.freshSym("recv", x.Type())
		if x.CommaOk {
			el := x.Type().(*types.Tuple).At(0).Type()
			t = mk(Term{op: OTuple, args: []*Term{s.freshSym("recv", el), s.freshSym("recvok", types.Typ[types.Bool])}})
		}
		ev.Res = []*Term{t}
		f.env[x] = t
	default:
		f.env[x] = mk(Term{op: OBin, name: "u" + x.Op.String(), args: []*Term{v}, typ: x.Type()})
	}
	return nil, nil, false
}

func isCompositeVal(t types.Type) bool {
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

const tableForkLimit = 16

// elemLookupAddr loads *IndexAddr; small constant arrays fork over their entries.
func (e *Engine) elemLookupAddr(s *State, f *Frame, dst ssa.Value, a *Term, typ types.Type) ([]*State, *Path, bool) {
	b, i := a.args[0], a.args[1]
	if _, ok := i.isInt(); !ok {
		if tab := s.arrayTable(b, typ); tab != nil {
			return e.forkTable(s, dst, tab, i, typ)
		}
	}
	if b.op == OIndexAddr && s.wasTouched(b) == false {
		if _, ok := b.args[1].isInt(); !ok {
			if tab := s.arrayTable(b.args[0], deref(b.typ)); tab != nil {
				return e.forkTable2(s, dst, tab, b.args[1], i, typ)
			}
		}
	}
	f.env[dst] = s.load(a, typ)
	return nil, nil, false
}

func (e *Engine) elemLookup(s *State, f *Frame, dst ssa.Value, b, i *Term, typ types.Type) ([]*State, *Path, bool) {
	if _, ok := i.isInt(); !ok {
		if tab := s.arrayTable(b, typ); tab != nil {
			return e.forkTable(s, dst, tab, i, typ)
		}
	} else if tab := tableOf(b); tab != nil {
		n, _ := i.isInt()
		if v := tab.get(n); v != nil {
			f.env[dst] = v
			return nil, nil, false
		}
	}
	f.env[dst] = mkElem(b, i, typ)
	return nil, nil, false
}

// arrayTable: contents of a constant array (global table, or a local array all of whose written
// elements are known at constant indices).
func (s *State) arrayTable(b *Term, elem types.Type) *Table {
	if tab := tableOf(b); tab != nil {
		if len(tab.keys) <= tableForkLimit {
			return tab
		}
		if isString(tab.elem) {
			// few texts among many places
			few := &Table{kind: tab.kind, n: tab.n, elem: tab.elem}
			for j := range tab.keys {
				if tab.vals[j] != zeroOf(tab.elem) {
					few.keys, few.vals = append(few.keys, tab.keys[j]), append(few.vals, tab.vals[j])
				}
			}
			if len(few.keys) <= 8*tableForkLimit {
				return few
			}
		}
		return nil
	}
	if b.op == OIndexAddr || b.op == OElem {
		return nil
	}
	if b.op == OAlloc && s.allocs[b] {
		at, ok := deref(b.typ).Underlying().(*types.Array)
		if !ok {
			return nil
		}
		if v, ok := s.mem[b]; ok {
			return tableOf(v)
		}
		tab := &Table{kind: "array", n: at.Len(), elem: at.Elem()}
		for _, k := range s.memKeys() {
			if k.op == OIndexAddr && k.args[0] == b {
				if _, ok := k.args[1].isInt(); !ok {
					return nil
				}
				tab.keys = append(tab.keys, k.args[1])
				tab.vals = append(tab.vals, s.mem[k])
			}
		}
		if len(tab.keys) > tableForkLimit {
			return nil
		}
		return tab
	}
	return nil
}

// wasTouched: was an element of the table, or the table, written on the way?
func (s *State) wasTouched(b *Term) bool {
	return len(s.stores[addrClass(b)]) > 0
}

// forkTable2 looks an element up in a table of tables.
func (e *Engine) forkTable2(s *State, dst ssa.Value, tab *Table, i, j *Term, typ types.Type) ([]*State, *Path, bool) {
	var alts []func(*State) bool
	put := func(v *Term, lits ...Lit) {
		alts = append(alts, func(n *State) bool {
			for _, l := range lits {
				if !n.F.assume(l.t, l.v) {
					return false
				}
			}
			n.top().env[dst] = v
			return true
		})
	}
	var outer []Lit
	for x := range tab.keys {
		oi := pos(mkIntEq(i, tab.keys[x]))
		outer = append(outer, not(oi.t))
		in := tableOf(tab.vals[x])
		if in == nil {
			put(mkElem(tab.vals[x], j, typ), oi)
			continue
		}
		inner := []Lit{oi}
		for y := range in.keys {
			ij := pos(mkIntEq(j, in.keys[y]))
			put(in.vals[y], oi, ij)
			inner = append(inner, not(ij.t))
		}
		put(zeroOf(in.elem), inner...)
	}
	put(zeroOf(typ), outer...)
	return branch(s, alts...), nil, true
}

func (e *Engine) forkTable(s *State, dst ssa.Value, tab *Table, i *Term, typ types.Type) ([]*State, *Path, bool) {
	var alts []func(*State) bool
	for j := range tab.keys {
		k, v := tab.keys[j], tab.vals[j]
		alts = append(alts, func(n *State) bool {
			n.top().env[dst] = v
			return n.F.assume(mkIntEq(i, k), true)
		})
	}
	alts = append(alts, func(n *State) bool {
		for _, k := range tab.keys {
			if !n.F.assume(mkIntEq(i, k), false) {
				return false
			}
		}
		n.top().env[dst] = zeroOf(tab.elem)
		return true
	})
	return branch(s, alts...), nil, true
}

func (e *Engine) slice(s *State, f *Frame, x *ssa.Slice) {
	base := e.val(s, f, x.X)
	var lo, hi *Term
	if x.Low != nil {
		lo = e.val(s, f, x.Low)
	} else {
		lo = tZeroInt
	}
	bound := mkLen(base)
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		if at, ok := pt.Elem().Underlying().(*types.Array); ok {
			bound = mkInt(at.Len())
		}
	}
	if x.High != nil {
		hi = e.val(s, f, x.High)
		if isSliceT(x.X.Type()) {
			bound = mkCap(base)
			if !s.F.le(hi, bound) && s.F.le(hi, mkLen(base)) {
				bound = mkLen(base)
			}
		}
	} else {
		hi = mkLen(base)
	}
	conds := []*Term{mkLe(tZeroInt, lo), mkLe(lo, hi)}
	if x.High != nil {
		if bound.op == OCap || bound.op == OLin {
			// capacity is at least the length
			s.F.assume(mkLe(mkLen(base), bound), true)
		}
		conds = append(conds, mkLe(hi, bound))
	}
	e.ob(s, x.Pos(), f.fn, "slice", conds...)
	f.env[x] = mkSliceT(base, lo, hi)
}

func (e *Engine) lookup(s *State, f *Frame, x *ssa.Lookup) ([]*State, *Path, bool) {
	b, k := e.val(s, f, x.X), e.val(s, f, x.Index)
	mt, isMap := x.X.Type().Underlying().(*types.Map)
	if !isMap {
		e.ob(s, x.Pos(), f.fn, "index", mkLe(tZeroInt, k), mkLt(k, mkLen(b)))
		f.env[x] = mkElem(b, k, byteType)
		return nil, nil, false
	}
	if !isNumTerm(k) {
		k = s.F.canonDeep(k)
	}
	put := func(n *State, v, ok *Term) {
		if x.CommaOk {
			n.top().env[x] = mk(Term{op: OTuple, args: []*Term{v, ok}})
		} else {
			n.top().env[x] = v
		}
	}
	// stores on this trace, newest first
	for i := len(s.maps) - 1; i >= 0; i-- {
		ms := s.maps[i]
		if ms.unknown {
			v, has := s.freshSym("mapval", mt.Elem()), s.freshSym("maphas", types.Typ[types.Bool])
			s.define(v, "get", b, k)
			s.define(has, "has", b, k)
			put(s, v, has)
			return nil, nil, false
		}
		if ms.m != b {
			continue
		}
		eq := mkEq(ms.k, k)
		kn, v := s.F.decide(eq)
		if kn && !v {
			continue
		}
		if kn && v {
			if ms.del {
				put(s, zeroOf(mt.Elem()), tFalse)
			} else {
				put(s, ms.v, tTrue)
			}
			return nil, nil, false
		}
		f.pc-- // retry in both variants with the comparison decided
		return branch(s, func(n *State) bool { return n.F.assume(eq, true) }, func(n *State) bool { return n.F.assume(eq, false) }), nil, true
	}
	if isNil := mkEq(b, mkNil(b.typ)); e.SplitIndex && b.op == OLoad {
		if kn, _ := s.F.decide(isNil); !kn {
			f.pc--
			return branch(s, func(n *State) bool { return n.F.assume(isNil, true) }, func(n *State) bool { return n.F.assume(isNil, false) }), nil, true
		}
	}
	if b.op == OMakeMap || s.F.entails(mkEq(b, mkNil(b.typ))) {
		put(s, zeroOf(mt.Elem()), tFalse)
		return nil, nil, false
	}
	if tab := tableOf(b); tab != nil && len(tab.keys) <= 160 {
		var alts []func(*State) bool
		for j := range tab.keys {
			kk, v := tab.keys[j], tab.vals[j]
			eq := mkEq(kk, k)
			if kn, val := s.F.decide(eq); kn && !val {
				continue
			} else if kn && val {
				put(s, v, tTrue)
				return nil, nil, false
			}
			alts = append(alts, func(n *State) bool {
				put(n, v, tTrue)
				return n.F.assume(eq, true)
			})
		}
		alts = append(alts, func(n *State) bool {
			for _, kk := range tab.keys {
				if !n.F.assume(mkEq(kk, k), false) {
					return false
				}
			}
			put(n, zeroOf(mt.Elem()), tFalse)
			return true
		})
		return branch(s, alts...), nil, true
	}
	if e.SplitIndex && isNumTerm(k) {
		// the place of an earlier read?
		for _, r := range s.reads {
			if r.args[0] != b || r.n != s.heapEp || r.args[1] == k {
				continue
			}
			eq := mkIntEq(r.args[1], k)
			kn, same := s.F.decide(eq)
			if !kn {
				f.pc--
				return branch(s, func(n *State) bool { return n.F.assume(eq, true) }, func(n *State) bool { return n.F.assume(eq, false) }), nil, true
			}
			if same {
				k = r.args[1]
				break
			}
		}
		s.reads = append(s.reads, mk(Term{op: OMapGet, args: []*Term{b, k}, typ: mt.Elem(), n: s.heapEp}))
	}
	has := mk(Term{op: OMapHas, args: []*Term{b, k}, typ: types.Typ[types.Bool], n: s.heapEp})
	v := mk(Term{op: OMapGet, args: []*Term{b, k}, typ: mt.Elem(), n: s.heapEp})
	if !x.CommaOk {
		put(s, v, has)
		return nil, nil, false
	}
	return branch(s, func(n *State) bool {
		put(n, v, tTrue)
		return n.F.assume(has, true)
	}, func(n *State) bool {
		put(n, zeroOf(mt.Elem()), tFalse)
		return n.F.assume(has, false)
	}), nil, true
}

func (e *Engine) next(s *State, f *Frame, x *ssa.Next) ([]*State, *Path, bool) {
	r := e.val(s, f, x.Iter)
	tt := x.Type().(*types.Tuple)
	ok := s.freshSym("more", types.Typ[types.Bool])
	kt, vt := tt.At(1).Type(), tt.At(2).Type()
	if b, isb := kt.(*types.Basic); isb && b.Kind() == types.Invalid {
		kt = types.Typ[types.Int]
	}
	if b, isb := vt.(*types.Basic); isb && b.Kind() == types.Invalid {
		vt = types.Typ[types.Int32]
	}
	k := s.freshSym("rk", kt)
	v := s.freshSym("rv", vt)
	if !x.IsString && r.op == OCall && len(r.args) == 1 {
		s.event(Event{Kind: EvCall, Name: "range-next", Args: r.args, Res: []*Term{ok, k, v}, Pos: x.Pos()})
	}
	if x.IsString && r.op == OCall && len(r.args) == 2 {
		src, cell, it := r.args[0], r.args[1], types.Typ[types.Int]
		k = s.load(cell, it)
		el := mkElem(src, k, byteType)
		return branch(s, func(n *State) bool {
			n.top().env[x] = mk(Term{op: OTuple, args: []*Term{tTrue, k, e.convert(n, el, byteType, vt)}})
			ok := n.F.assume(mkLe(tZeroInt, k), true) && n.F.assume(mkLt(k, mkLen(src)), true) &&
				n.F.assume(mkLt(el, mkInt(128)), true)
			n.store(cell, mkAddC(k, 1), it)
			return ok
		}, func(n *State) bool {
			n.top().env[x] = mk(Term{op: OTuple, args: []*Term{tTrue, k, v}})
			w := n.freshSym("rw", it)
			end := mkAdd(k, w)
			ok := n.F.assume(mkLe(tZeroInt, k), true) && n.F.assume(mkLt(k, mkLen(src)), true) &&
				n.F.assume(mkLe(mkInt(128), v), true) && n.F.assume(mkLe(mkInt(128), el), true) &&
				n.F.assume(mkLe(mkInt(1), w), true) && n.F.assume(mkLe(w, mkInt(4)), true) &&
				n.F.assume(mkLe(end, mkLen(src)), true)
			if b, lo, _ := seqParts(src); b != nil {
				// no byte of an encoded rune beyond ASCII is an ASCII one
				n.F.segs = append(n.F.segs, Seg{base: b, lo: mkAdd(lo, k), hi: mkAdd(lo, end), m: mask{0, 0, ^uint64(0), ^uint64(0)}})
			}
			n.store(cell, end, it)
			return ok
		}, func(n *State) bool {
			n.top().env[x] = mk(Term{op: OTuple, args: []*Term{tFalse, tZeroInt, tZeroInt}})
			return n.F.assume(mkLe(mkLen(src), k), true)
		}), nil, true
	}
	f.env[x] = mk(Term{op: OTuple, args: []*Term{ok, k, v}})
	return nil, nil, false
}

func (e *Engine) selectInstr(s *State, f *Frame, x *ssa.Select) {
	tt := x.Type().(*types.Tuple)
	var args []*Term
	for i := 0; i < tt.Len(); i++ {
		args = append(args, s.freshSym("sel", tt.At(i).Type()))
	}
	var cs, sent []*Term
	for _, st := range x.States {
		cs = append(cs, e.val(s, f, st.Chan))
		if st.Send != nil {
			sent = append(sent, e.val(s, f, st.Send))
		} else {
			sent = append(sent, nil)
		}
	}
	name := "select"
	if !x.Blocking {
		name = "select-default"
	}
	s.event(Event{Kind: EvRecv, Name: name, Args: cs, Sent: sent, Pos: x.Pos()})
	lo := tZeroInt
	if !x.Blocking {
		lo = mkInt(-1)
	}
	s.F.assume(mkLe(lo, args[0]), true)
	s.F.assume(mkLt(args[0], mkInt(int64(len(x.States)))), true)
	f.env[x] = mk(Term{op: OTuple, args: args})
}

func (e *Engine) typeAssert(s *State, f *Frame, x *ssa.TypeAssert) ([]*State, *Path, bool) {
	v := s.F.canon(e.val(s, f, x.X))
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	var res *Term
	if toIface {
		res = v
	} else if i := ifaceOf(v); i != nil {
		res = i.args[0]
	} else {
		res = mk(Term{op: OAssert, args: []*Term{v}, typ: x.AssertedType})
	}
	is := mk(Term{op: OIsType, args: []*Term{v}, typ: x.AssertedType})
	kn, val := s.F.decide(is)
	if !x.CommaOk {
		// the assertion to the value's own type is how a bound method of an interface checks for nil
		if !(kn && val) && !types.Identical(x.X.Type(), x.AssertedType) {
			e.ob(s, x.Pos(), f.fn, "type-assert", is)
		}
		f.env[x] = res
		return nil, nil, false
	}
	set := func(n *State, ok bool) {
		if ok {
			n.top().env[x] = mk(Term{op: OTuple, args: []*Term{res, tTrue}})
		} else {
			n.top().env[x] = mk(Term{op: OTuple, args: []*Term{zeroOf(x.AssertedType), tFalse}})
		}
	}
	if kn {
		set(s, val)
		return nil, nil, false
	}
	return branch(s, func(n *State) bool {
		set(n, true)
		return n.F.assume(is, true)
	}, func(n *State) bool {
		set(n, false)
		return n.F.assume(is, false)
	}), nil, true
}

// ---- calls

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if obj, ok := f.Object().(*types.Func); ok {
		return obj.FullName()
	}
	return f.String()
}

func (e *Engine) resolveCall(s *State, f *Frame, c *ssa.CallCommon) (fnT *Term, name string, fn *ssa.Function, args []*Term) {
	for _, a := range c.Args {
		args = append(args, e.val(s, f, a))
	}
	if c.IsInvoke() {
		recv := s.F.canon(e.val(s, f, c.Value))
		if recv.op == OIface {
			if m := e.P.prog.LookupMethod(recv.typ, c.Method.Pkg(), c.Method.Name()); m != nil {
				args = append([]*Term{recv.args[0]}, args...)
				return mk(Term{op: OFunc, obj: m, name: m.String()}), fnName(m), m, args
			}
		}
		if e.NilChecks && e.NilOnly {
			e.nilOb(s, f, c.Pos(), recv)
		}
		args = append([]*Term{recv}, args...)
		return mk(Term{op: OFunc, obj: c.Method, name: c.Method.FullName()}), c.Method.FullName(), nil, args
	}
	t := s.F.canon(e.val(s, f, c.Value))
	switch t.op {
	case OFunc:
		switch o := t.obj.(type) {
		case *ssa.Function:
			return t, fnName(o), o, args
		case *ssa.Builtin:
			return t, o.Name(), nil, args
		case *types.Func:
			return t, o.FullName(), nil, args
		}
	case OClosure:
		fn := t.obj.(*ssa.Function)
		return t, fnName(fn), fn, args
	}
	if e.NilChecks && e.NilOnly {
		e.nilOb(s, f, c.Pos(), t)
	}
	return t, "dyn", nil, args
}

func resultTypes(c *ssa.CallCommon) []types.Type {
	var out []types.Type
	r := c.Signature().Results()
	for i := 0; i < r.Len(); i++ {
		out = append(out, r.At(i).Type())
	}
	return out
}

func (e *Engine) setRes(n *State, dst ssa.Value, res []*Term) {
	if dst == nil {
		return
	}
	switch len(res) {
	case 0:
	case 1:
		n.top().env[dst] = res[0]
	default:
		n.top().env[dst] = mk(Term{op: OTuple, args: res})
	}
}

// call executes a call. fnT/args are preset for deferred calls; dst is nil when the result is dropped.
func (e *Engine) call(s *State, f *Frame, ci ssa.CallInstruction, fnT *Term, args []*Term, dst ssa.Value) ([]*State, *Path, bool) {
	c := ci.Common()
	var name string
	var fn *ssa.Function
	if fnT == nil {
		fnT, name, fn, args = e.resolveCall(s, f, c)
	} else {
		switch o := fnT.obj.(type) {
		case *ssa.Function:
			fn, name = o, fnName(o)
		case *ssa.Builtin:
			name = o.Name()
		case *types.Func:
			name = o.FullName()
		default:
			name = "dyn"
		}
		// interface receivers resolved at defer time already carry the receiver in args
	}
	if b, ok := fnT.obj.(*ssa.Builtin); ok {
		return e.builtin(s, f, b.Name(), c, args, dst, ci.Pos())
	}
	if m, ok := fnT.obj.(*types.Func); ok && fn == nil && len(args) > 0 && m.Type().(*types.Signature).Recv() != nil {
		// past the call, the interface isn't nil
		if isNil := mkEq(args[0], mkNil(args[0].typ)); !s.F.entails(mkNot(isNil)) && !s.F.entails(isNil) {
			s.F.assume(isNil, false)
		}
	}
	if fn != nil {
		if m, ok := models[name]; ok {
			return m(e, s, f, &callCtx{name: name, fn: fn, args: args, dst: dst, pos: ci.Pos(), res: resultTypes(c), common: c})
		}
		inRepo := len(fn.Blocks) > 0
		opaque := e.Opaque != nil && e.Opaque(fn)
		if inRepo && !opaque && len(s.frames) < e.MaxDepth && onStack(s, fn) <= e.Recur {
			var binds []*Term
			if fnT.op == OClosure {
				binds = fnT.args
			}
			nf := e.newFrame(s, fn, args, binds)
			if dst != nil {
				nf.site = dst.(ssa.Instruction)
			} else {
				nf.isDef = true
			}
			s.frames = append(s.frames, nf)
			if loopHeads(fn)[fn.Blocks[0]] != nil {
				e.undecided("%s: entry block is a loop head", fn)
			}
			return nil, nil, false
		}
		e.opaqueCall(s, name, fn, fnT, args, resultTypes(c), dst, ci.Pos(), inRepo)
		return nil, nil, false
	}
	if m, ok := models[name]; ok {
		return m(e, s, f, &callCtx{name: name, args: args, dst: dst, pos: ci.Pos(), res: resultTypes(c), common: c, fnT: fnT})
	}
	dyn := name == "dyn" || strings.Contains(name, modPath)
	e.opaqueCall(s, name, nil, fnT, args, resultTypes(c), dst, ci.Pos(), dyn)
	return nil, nil, false
}

func onStack(s *State, fn *ssa.Function) (n int) {
	for _, f := range s.frames {
		if f.fn == fn {
			n++
		}
	}
	return
}

func (e *Engine) opaqueCall(s *State, name string, fn *ssa.Function, fnT *Term, args []*Term, rts []types.Type, dst ssa.Value, pos token.Pos, unknownEffect bool) *Event {
	pure := isPureExternal(name) || e.Pure != nil && e.Pure(name)
	var res []*Term
	if pure {
		for i, t := range rts {
			res = append(res, mkCallT(fmt.Sprintf("%s.%d", name, i), t, args...))
		}
		if len(rts) == 1 {
			res[0] = mkCallT(name, rts[0], args...)
		}
	} else {
		s.evN++
		short := name
		if i := strings.LastIndex(short, "/"); i >= 0 {
			short = short[i+1:]
		}
		for i, t := range rts {
			n := fmt.Sprintf("%s#%d", short, s.evN)
			if len(rts) > 1 {
				n += fmt.Sprintf(".%d", i)
			}
			res = append(res, mkSym(n, t))
		}
	}
	ev := s.event(Event{Kind: EvCall, Name: name, Fn: fn, FnT: fnT, Args: args, Res: res, Pos: pos})
	if !pure && unknownEffect && !(e.NoHavoc != nil && e.NoHavoc(name)) || e.Havoc != nil && e.Havoc(name) {
		s.havocHeap(args)
	}
	if name == "fmt.Errorf" || name == "errors.New" {
		s.F.assume(mkEq(res[0], tNil), false)
	}
	e.setRes(s, dst, res)
	return ev
}

func (e *Engine) builtin(s *State, f *Frame, name string, c *ssa.CallCommon, args []*Term, dst ssa.Value, pos token.Pos) ([]*State, *Path, bool) {
	set := func(t *Term) ([]*State, *Path, bool) {
		if dst != nil {
			f.env[dst] = t
		}
		return nil, nil, false
	}
	switch name {
	case "len":
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			if tab := tableOf(args[0]); tab != nil {
				return set(mkInt(tab.n))
			}
			return set(mk(Term{op: OLen, args: args, n: s.heapEp + int64(len(s.maps)), typ: types.Typ[types.Int]}))
		}
		return set(mkLen(args[0]))
	case "cap":
		t := mkCap(args[0])
		s.F.assume(mkLe(mkLen(args[0]), t), true)
		return set(t)
	case "append":
		b := args[1]
		if len(args) > 1 {
			b = s.seqContent(args[1])
		}
		s.event(Event{Kind: EvCall, Name: "append", Args: []*Term{args[0], b}, Pos: pos})
		r := mkConcat(args[0], b)
		return set(r)
	case "copy":
		d, src := args[0], args[1]
		return branch(s, func(n *State) bool {
			l := mkLen(d)
			if !n.F.assume(mkLe(l, mkLen(src)), true) {
				return false
			}
			e.doCopy(n, d, src, l, pos)
			if dst != nil {
				n.top().env[dst] = l
			}
			return true
		}, func(n *State) bool {
			l := mkLen(src)
			if !n.F.assume(mkLt(l, mkLen(d)), true) {
				return false
			}
			e.doCopy(n, d, src, l, pos)
			if dst != nil {
				n.top().env[dst] = l
			}
			return true
		}), nil, true
	case "delete":
		s.event(Event{Kind: EvDelete, Args: args, Pos: pos})
		s.maps = append(s.maps, mapStore{m: args[0], k: args[1], del: true})
	case "panic":
		s.event(Event{Kind: EvPanic, Args: args, Pos: pos})
		return nil, &Path{Kind: PPanic, S: s, Results: args, Pos: pos, Fn: f.fn}, true
	case "recover":
		ev := s.event(Event{Kind: EvCall, Name: "recover", Pos: pos})
		t := s.freshSym("recovered", c.Signature().Results().At(0).Type())
		ev.Res = []*Term{t}
		return set(t)
	case "close":
		s.event(Event{Kind: EvCall, Name: "close", Args: args, Pos: pos})
	case "min", "max":
		if len(args) == 2 && isIntType(c.Args[0].Type()) {
			a, b := args[0], args[1]
			if name == "max" {
				a, b = b, a
			}
			x, y := args[0], args[1]
			le := mkLe(x, y)
			lo, hi := x, y
			if name == "max" {
				lo, hi = y, x
			}
			_ = a
			_ = b
			return branch(s, func(n *State) bool {
				n.top().env[dst] = lo
				return n.F.assume(le, true)
			}, func(n *State) bool {
				n.top().env[dst] = hi
				return n.F.assume(le, false)
			}), nil, true
		}
		return set(mkCallT(name, c.Args[0].Type(), args...))
	case "clear":
		s.event(Event{Kind: EvCall, Name: "clear", Args: args, Pos: pos})
		s.havocHeap(args)
	case "print", "println":
	case "ssa:wrapnilchk":
		return set(args[0])
	default:
		s.event(Event{Kind: EvCall, Name: name, Args: args, Pos: pos})
		if dst != nil {
			f.env[dst] = s.freshSym(name, dst.Type())
		}
	}
	return nil, nil, false
}

func (e *Engine) doCopy(s *State, d, src, n *Term, pos token.Pos) {
	s.event(Event{Kind: EvCopy, Args: []*Term{d, src, n}, Pos: pos})
	base, lo, _ := seqParts(d)
	for k := range s.mem {
		if k.op == OIndexAddr && k.args[0] == base {
			delete(s.mem, k)
		}
	}
	s.copies = append(s.copies, copyRec{dst: base, dlo: lo, src: src, n: n})
}

// seqContent: a slice over a local array whose elements are all known becomes their list.
func (s *State) seqContent(t *Term) *Term {
	base, lo, hi := seqParts(t)
	if base.op == OAlloc && base.typ != nil {
		if at, ok := deref(base.typ).Underlying().(*types.Array); ok {
			l, ok1 := lo.isInt()
			h, ok2 := hi.isInt()
			if ok1 && ok2 && h-l <= 64 && s.allocs[base] {
				var el []*Term
				for i := l; i < h; i++ {
					el = append(el, s.load(mkIndexAddr(base, mkInt(i), at.Elem()), at.Elem()))
				}
				if len(el) == 0 {
					return mkStr("")
				}
				return mkElems(el)
			}
		}
	}
	return t
}

// ---- control flow

func (e *Engine) jump(s *State, f *Frame, from, to *ssa.BasicBlock, stopAct int) ([]*State, *Path, bool) {
	heads := loopHeads(f.fn)
	if l := heads[to]; l != nil {
		if rec := f.loops[to]; rec != nil && !l.body[from] {
			delete(f.loops, to) // a new run of the loop
		} else if rec != nil {
			// back edge
			if rec.Entry != nil {
				if out := e.threadExit(s, rec, from, to, l); len(out) > 0 {
					return out, nil, true
				}
			}
			next := map[string]*Term{}
			for _, v := range rec.Vars {
				if v.phi != nil {
					next[v.Name] = e.phiVal(s, f, v.phi, from)
				} else {
					next[v.Name] = s.load(v.addr, v.typ)
				}
				if n := next[v.Name]; n.typ != nil && isBoolT(n.typ) {
					if k, b := s.F.decide(n); k {
						next[v.Name] = mkBool(b)
					}
				}
			}
			return nil, &Path{Kind: PBackEdge, S: s, Loop: rec, Next: next, Pos: blockPos(to), Fn: f.fn}, true
		}
		if e.Cut != nil && e.Cut(to, l.body) {
			rec := &LoopRec{Head: to, Fn: f.fn, Act: f.act, NLits: len(s.F.lits), NEv: len(s.events)}
			next := map[string]*Term{}
			for _, ins := range to.Instrs {
				p, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				nm := p.Comment
				if nm == "" {
					nm = p.Name()
				}
				v := e.phiVal(s, f, p, from)
				lv := &LoopVar{Name: fmt.Sprintf("%s/%s", nm, p.Name()), phi: p, typ: p.Type(), Entry: v, Cur: v}
				rec.Vars = append(rec.Vars, lv)
				next[lv.Name] = v
			}
			if len(s.events) == e.cutEv {
				if f.loops == nil {
					f.loops = map[*ssa.BasicBlock]*LoopRec{}
				}
				f.loops[to] = rec
				e.enterBlock(s, f, from, to)
				return nil, nil, false
			}
			return nil, &Path{Kind: PStop, S: s, Loop: rec, Next: next, Pos: blockPos(to), Fn: f.fn}, true
		}
		if e.unrollable(s, f, from, to, l) {
			e.enterBlock(s, f, from, to)
			return nil, nil, false
		}
		return e.enterLoop(s, f, from, to, l)
	}
	e.enterBlock(s, f, from, to)
	return nil, nil, false
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	return token.NoPos
}

func (e *Engine) phiVal(s *State, f *Frame, p *ssa.Phi, from *ssa.BasicBlock) *Term {
	for i, pr := range p.Block().Preds {
		if pr == from {
			return e.val(s, f, p.Edges[i])
		}
	}
	return s.freshSym("phi?", p.Type())
}

func (e *Engine) enterBlock(s *State, f *Frame, from, to *ssa.BasicBlock) {
	var vals []*Term
	var phis []*ssa.Phi
	for _, ins := range to.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, e.phiVal(s, f, p, from))
	}
	for i, p := range phis {
		f.env[p] = vals[i]
	}
	f.prev, f.block, f.pc = from, to, len(phis)
}

type loopInfo struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

var loopCache = map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}

// loopHeads finds the targets of retreating edges, with the natural loop of each.
func loopHeads(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	if m, ok := loopCache[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]*loopInfo{}
	color := map[*ssa.BasicBlock]int{}
	type edge struct{ from, to *ssa.BasicBlock }
	var back []edge
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		color[b] = 1
		for _, n := range b.Succs {
			if color[n] == 1 {
				back = append(back, edge{b, n})
			} else if color[n] == 0 {
				dfs(n)
			}
		}
		color[b] = 2
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for _, e := range back {
		l := m[e.to]
		if l == nil {
			l = &loopInfo{head: e.to, body: map[*ssa.BasicBlock]bool{e.to: true}}
			m[e.to] = l
		}
		work := []*ssa.BasicBlock{e.from}
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			if l.body[b] {
				continue
			}
			l.body[b] = true
			work = append(work, b.Preds...)
		}
	}
	loopCache[fn] = m
	return m
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// onlyLoaded: the address of an element is only read through.
func onlyLoaded(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !onlyLoaded(x) {
				return false
			}
		case *ssa.IndexAddr:
			if x.X != v || !onlyLoaded(x) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// loaded: the address is read through, among others
func loaded(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
			return true
		}
	}
	return false
}

// splitIndex forks on where in a sequence an index lies, when that matters and isn't known.
func (e *Engine) splitIndex(s *State, f *Frame, x *ssa.IndexAddr, base, i *Term) []*State {
	if !onlyLoaded(x) && !loaded(x) {
		return nil
	}
	return e.splitIndexAt(s, f, base, i)
}

// guardedFlag: a boolean field that is accessed while a lock is held
func guardedFlag(s *State, a *Term, typ types.Type) bool {
	b, ok := typ.Underlying().(*types.Basic)
	if a.op != OFieldAddr || !ok || b.Info()&types.IsBoolean == 0 || localRoot(a) {
		return false
	}
	held := 0
	for _, ev := range s.events {
		if ev.Kind != EvCall || !strings.Contains(ev.Name, "sync.") || !strings.Contains(ev.Name, "Mutex).") {
			continue
		}
		switch {
		case strings.HasSuffix(ev.Name, "Unlock"):
			held--
		case strings.HasSuffix(ev.Name, "Lock"):
			held++
		}
	}
	return held > 0
}

// rebase replaces the element address a field address rests on
func rebase(a, from, to *Term) *Term {
	if a == from {
		return to
	}
	return substTerm(a, map[*Term]*Term{from: to}, nil)
}

func (e *Engine) splitIndexAt(s *State, f *Frame, base, i *Term) []*State {
	fork := func(c *Term) []*State {
		f.pc--
		return branch(s, func(n *State) bool { return n.F.assume(c, true) }, func(n *State) bool { return n.F.assume(c, false) })
	}
	undecided := func(c *Term) bool { k, _ := s.F.decide(c); return !k }
	n := 0
	for _, k := range s.memKeys() {
		ka := k
		for ka.op == OFieldAddr {
			ka = ka.args[0]
		}
		if ka.op != OIndexAddr || ka.args[0] != base || ka.args[1] == i {
			continue
		}
		nested := ka == k && isSliceT(deref(k.typ))
		if !nested && (s.mem[k].op == OLoad || s.mem[k].op == OElem) {
			continue
		}
		if n++; n > 3 {
			break
		}
		if c := mkIntEq(i, ka.args[1]); undecided(c) && (nested || s.wasStored(k)) {
			return fork(c)
		}
	}
	if base.op == OConcat {
		off := tZeroInt
		for j, p := range base.args {
			off = mkAdd(off, mkLen(p))
			if j == len(base.args)-1 {
				break
			}
			if c := mkLt(i, off); undecided(c) {
				return fork(c)
			}
		}
		return nil
	}
	for j := len(s.copies) - 1; j >= 0; j-- {
		c := s.copies[j]
		if c.dst != base {
			continue
		}
		off := mkSub(i, c.dlo)
		if t := mkLt(off, c.n); undecided(t) {
			return fork(t)
		}
		if t := mkLe(tZeroInt, off); undecided(t) {
			return fork(t)
		}
	}
	return nil
}

func (s *State) wasStored(a *Term) bool {
	for _, st := range s.stores[addrClass(a)] {
		if st == a {
			return true
		}
	}
	return false
}

// resolveIndex: the part of a sequence an element comes from.
func (s *State) resolveIndex(base, i *Term, typ types.Type) (*Term, *Term) {
	return s.resolveIndexAt(base, i, typ, len(s.copies))
}

// resolveIndexAt: as it was after the first ncopies copies
func (s *State) resolveIndexAt(base, i *Term, typ types.Type, ncopies int) (*Term, *Term) {
	if base.op == OConcat {
		for _, k := range s.memKeys() {
			for k.op == OFieldAddr {
				k = k.args[0]
			}
			if k.op == OIndexAddr && k.args[0] == base && s.wasStored(k) && !s.F.refutes(mkIntEq(k.args[1], i)) {
				return base, i
			}
		}
		off := tZeroInt
		for j, p := range base.args {
			end := mkAdd(off, mkLen(p))
			if s.F.le(off, i) && (s.F.lt(i, end) || j == len(base.args)-1) {
				k := mkSub(i, off)
				if n, ok := mkLen(p).isInt(); ok && n == 1 && s.F.eqInt(k, tZeroInt) {
					k = tZeroInt
				}
				b, lo, _ := seqParts(p)
				return s.resolveIndexAt(b, mkAdd(lo, k), typ, ncopies)
			}
			off = end
		}
		return base, i
	}
	if base.op == OElems && len(base.args) <= 8 {
		for k := range base.args {
			if s.F.eqInt(i, mkInt(int64(k))) {
				return base, mkInt(int64(k))
			}
		}
	}
	if base.op == OMakeSlice {
		a := mkIndexAddr(base, i, typ)
		for _, st := range s.stores[addrClass(a)] {
			if isMark(st) || !s.distinct(st, a) {
				return base, i
			}
		}
		for j := ncopies - 1; j >= 0; j-- {
			c := s.copies[j]
			if c.dst != base {
				continue
			}
			off := mkSub(i, c.dlo)
			if s.F.le(tZeroInt, off) && s.F.lt(off, c.n) {
				b, lo, _ := seqParts(c.src)
				return s.resolveIndexAt(b, mkAdd(lo, off), typ, j)
			}
			if !(s.F.le(c.n, off) || s.F.lt(off, tZeroInt)) {
				return base, i
			}
		}
	}
	return base, i
}

func isTextType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func mkCopyOf(v *Term) *Term {
	if _, ok := v.isStr(); ok || v.op == OCall && v.name == "copyOf" {
		return v
	}
	return mkCallT("copyOf", v.typ, v)
}

// isMaxUint: the largest value of a 64-bit unsigned type, from which nothing can be taken too much.
func isMaxUint(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
		return false
	}
	n, exact := constant.Uint64Val(k.Value)
	return exact && n == 1<<64-1
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type EvKind uint8

const (
	EvCall EvKind = iota
	EvGo
	EvStore
	EvSend
	EvRecv
	EvMapUpdate
	EvCopy
	EvDefer
	EvPanic
	EvWrap
	EvDelete
)

type Event struct {
	Kind  EvKind
	Name  string
	Fn    *ssa.Function
	FnT   *Term
	Args  []*Term
	Res   []*Term
	Sent  []*Term // what a select would send to each channel
	Addr  *Term
	Val   *Term
	Pos   token.Pos
	In    *ssa.Function
	NLits int
	Depth int
	idx   int
}

func (e *Event) String() string {
	var a []string
	for _, x := range e.Args {
		a = append(a, x.String())
	}
	switch e.Kind {
	case EvStore:
		return fmt.Sprintf("store %s := %s", e.Addr, e.Val)
	case EvGo:
		return "go " + e.Name + "(" + strings.Join(a, ", ") + ")"
	case EvSend:
		return "send " + strings.Join(a, " <- ")
	case EvRecv:
		return "recv " + strings.Join(a, " ")
	case EvMapUpdate:
		return "mapupdate " + strings.Join(a, ", ")
	case EvCopy:
		return "copy(" + strings.Join(a, ", ") + ")"
	case EvPanic:
		return "panic"
	}
	return e.Name + "(" + strings.Join(a, ", ") + ")"
}

type deferred struct {
	common *ssa.CallCommon
	fn     *Term
	args   []*Term
	instr  ssa.CallInstruction
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	defers []deferred
	loops  map[*ssa.BasicBlock]*LoopRec
	act    int
	site   ssa.Instruction // call in the caller; nil: drop results
	isDef  bool
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]*Term, len(f.env)+8)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	if f.loops != nil {
		n.loops = make(map[*ssa.BasicBlock]*LoopRec, len(f.loops))
		for k, v := range f.loops {
			n.loops[k] = v
		}
	}
	return &n
}

type mapStore struct {
	m, k, v *Term
	del     bool
	unknown bool
}

// def: what a symbol introduced by the analysis stands for: a map's value ("get", map, key), a
// map's membership ("has", map, key), an array with one element replaced ("set", array, index, value).
type def struct {
	sym  *Term
	op   string
	args []*Term
	nEv  int
}

type copyRec struct {
	dst, dlo, src, n *Term
}

type State struct {
	F       *Facts
	frames  []*Frame
	mem     map[*Term]*Term
	heapEp  int64
	stores  map[string][]*Term // class -> stored addresses
	allocs  map[*Term]bool     // locally allocated; true: not havocked
	events  []*Event
	maps    []mapStore
	reads   []*Term // map reads of unknown content (SplitIndex)
	copies  []copyRec
	defs    []def
	evN     int
	symN    int
	allocN  int
	actN    int
	blocks  []string
	fresh   map[*Term]bool // elements never stored are zero (make)
	loopSeq []*LoopRec
	frozen  map[*Term]*Term // cells that keep one value for the life of the object (never written after construction)
}

func (s *State) clone() *State {
	n := *s
	n.F = s.F.clone()
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		n.frames[i] = f.clone()
	}
	n.mem = make(map[*Term]*Term, len(s.mem)+8)
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.stores = make(map[string][]*Term, len(s.stores)+2)
	for k, v := range s.stores {
		n.stores[k] = v[:len(v):len(v)]
	}
	n.allocs = make(map[*Term]bool, len(s.allocs)+2)
	for k, v := range s.allocs {
		n.allocs[k] = v
	}
	n.events = s.events[:len(s.events):len(s.events)]
	n.maps = s.maps[:len(s.maps):len(s.maps)]
	n.reads = s.reads[:len(s.reads):len(s.reads)]
	n.copies = s.copies[:len(s.copies):len(s.copies)]
	n.defs = s.defs[:len(s.defs):len(s.defs)]
	n.blocks = s.blocks[:len(s.blocks):len(s.blocks)]
	n.loopSeq = s.loopSeq[:len(s.loopSeq):len(s.loopSeq)]
	return &n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) event(e Event) *Event {
	e.NLits = len(s.F.lits)
	e.idx = len(s.events)
	e.Depth = len(s.frames)
	if len(s.frames) > 0 && e.In == nil {
		e.In = s.top().fn
	}
	s.events = append(s.events, &e)
	return &e
}

func (s *State) freshSym(name string, t types.Type) *Term {
	s.symN++
	return mkSym(fmt.Sprintf("%s#%d", name, s.symN), t)
}

// ---- memory

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	if _, ok := t.(*types.TypeParam); ok {
		return nil
	}
	st, _ := t.Underlying().(*types.Struct)
	return st
}

// opaqueStruct: structs of other modules are kept whole, e.g. time.Time, sync.WaitGroup
func opaqueStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	return n.Obj().Pkg() != nil && !isRepoPkg(n.Obj().Pkg())
}

func mkFieldAddr(base *Term, i int, st *types.Struct, owner types.Type) *Term {
	f := st.Field(i)
	own := types.TypeString(originType(owner), nil)
	return mk(Term{op: OFieldAddr, args: []*Term{base}, n: int64(i), name: f.Name(), typ: types.NewPointer(f.Type()), obj: fieldClass(own, i)})
}

var fieldClasses = map[string]*string{}

func fieldClass(own string, i int) *string {
	k := fmt.Sprintf("%s#%d", own, i)
	if p, ok := fieldClasses[k]; ok {
		return p
	}
	fieldClasses[k] = &k
	return &k
}

func originType(t types.Type) types.Type {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Origin()
	}
	return t
}

func mkIndexAddr(base, i *Term, elem types.Type) *Term {
	if base.op == OSlice {
		return mkIndexAddr(base.args[0], mkAdd(base.args[1], i), elem)
	}
	return mk(Term{op: OIndexAddr, args: []*Term{base, i}, typ: types.NewPointer(elem)})
}

func addrClass(a *Term) string {
	switch a.op {
	case OFieldAddr:
		return *(a.obj.(*string))
	case OIndexAddr:
		if a.typ != nil {
			return "elem:" + types.TypeString(deref(a.typ), nil)
		}
		return "elem:?"
	case OGlobalAddr:
		return "global:" + a.name
	}
	if a.typ != nil {
		return "deref:" + types.TypeString(deref(a.typ), nil)
	}
	return "deref:?"
}

func addrRoot(a *Term) *Term {
	for a.op == OFieldAddr || a.op == OIndexAddr {
		a = a.args[0]
	}
	return a
}

func localRoot(a *Term) bool {
	r := addrRoot(a)
	return r.op == OAlloc || r.op == OMakeSlice
}

// distinct: two addresses that can't be the same cell
func (s *State) distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.op != b.op {
		// a whole cell against a field of something: classes differ
		if addrClass(a) != addrClass(b) {
			return true
		}
	}
	switch a.op {
	case OFieldAddr:
		if b.op == OFieldAddr {
			if a.obj != b.obj {
				return true
			}
			return s.distinctPtr(a.args[0], b.args[0])
		}
	case OIndexAddr:
		if b.op == OIndexAddr {
			if a.args[0] == b.args[0] {
				return s.F.refutes(mkIntEq(a.args[1], b.args[1]))
			}
			if a.args[0].op == OConcat && b.args[0].op != OConcat {
				return s.distinctPart(a, b)
			}
			if b.args[0].op == OConcat && a.args[0].op != OConcat {
				return s.distinctPart(b, a)
			}
			return s.distinctPtr(a.args[0], b.args[0])
		}
	}
	return s.distinctPtr(a, b)
}

// distinctPart: an element of an appended-to slice against an element of what it was appended to.
func (s *State) distinctPart(a, b *Term) bool {
	first, lo, _ := seqParts(a.args[0].args[0])
	if first == b.args[0] {
		// the result may share the memory of its first part
		return s.F.refutes(mkIntEq(mkAdd(lo, a.args[1]), b.args[1]))
	}
	if isFreshObj(b.args[0]) {
		return true // its elements were copied
	}
	return s.distinctPtr(a.args[0], b.args[0])
}

func isFreshObj(t *Term) bool { return t.op == OAlloc || t.op == OMakeSlice }

func (s *State) distinctPtr(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.op == OFieldAddr || a.op == OIndexAddr || b.op == OFieldAddr || b.op == OIndexAddr {
		if a.op == b.op {
			return s.distinct(a, b)
		}
		ra, rb := addrRoot(a), addrRoot(b)
		if ra != rb && (isFreshObj(ra) || isFreshObj(rb)) {
			return true
		}
		if ra == rb {
			return true // different paths within one object, of one class
		}
		return false
	}
	ra, rb := a, b
	if isFreshObj(ra) || isFreshObj(rb) {
		return true
	}
	if ra.op == OGlobalAddr && rb.op == OGlobalAddr {
		return true
	}
	if ra.op == OGlobalAddr || rb.op == OGlobalAddr {
		return true
	}
	if ra.op == OConcat || rb.op == OConcat {
		return false
	}
	return false
}

func (s *State) isConstGlobal(a *Term) bool {
	if a.op != OGlobalAddr {
		return false
	}
	g := a.obj.(*ssa.Global)
	gi := globInfo[g]
	return gi == nil || !gi.written
}

func (s *State) epochOf(a *Term) int64 {
	n := int64(0)
	root := addrRoot(a)
	for _, st := range s.stores[addrClass(a)] {
		if isMark(st) {
			if root.op == OAlloc && root.n > st.n {
				continue // allocated later
			}
			n++
		} else if !s.distinct(st, a) {
			n++
		}
	}
	if !localRoot(a) {
		n += s.heapEp
	}
	return n
}

// isMark: an entry of stores that stands for stores anywhere in what was allocated until then.
func isMark(st *Term) bool { return st.op == OSym && st.name == "anything" }

// initVal: the value of a cell nobody wrote on this trace
func (s *State) initVal(a *Term, typ types.Type) *Term {
	if a.op == OIndexAddr {
		if w := s.mem[a.args[0]]; w != nil && isArrayAddr(a.args[0]) && !(w.op == OLoad && w.args[0] == a.args[0]) {
			if n, ok := a.args[1].isInt(); ok {
				if tab := tableOf(w); tab != nil {
					if v := tab.get(n); v != nil {
						return v
					}
				}
			}
			return mkElem(w, a.args[1], typ)
		}
	}
	if a.op == OFieldAddr && hasIndexAddr(a.args[0]) && s.inWhole(a.args[0]) {
		return mkFieldVal(s.initVal(a.args[0], deref(a.args[0].typ)), int(a.n), typ)
	}
	root := addrRoot(a)
	ep := s.epochOf(a)
	if root.op == OAlloc && ep == 0 {
		if fr, ok := s.allocs[root]; ok && fr {
			return zeroOf(typ)
		}
	}
	if ep == 0 {
		switch a.op {
		case OIndexAddr:
			b, i := a.args[0], a.args[1]
			if b.op == OMakeSlice {
				return zeroOf(typ)
			}
			if b.op == OGlobalAddr || b.op == OFieldAddr || b.op == OIndexAddr || b.op == OAlloc {
				// element of an array in memory
				if b.op == OGlobalAddr {
					if tab := tableOf(b); tab != nil {
						if n, ok := i.isInt(); ok {
							if v := tab.get(n); v != nil {
								return v
							}
						}
					}
					if s.isConstGlobal(b) {
						return mkElem(mkGlobalVal(b.obj.(*ssa.Global)), i, typ)
					}
				}
				if b.op == OIndexAddr || b.op == OFieldAddr {
					arr := s.initVal(b, deref(b.typ))
					if tab := tableOf(arr); tab != nil {
						if n, ok := i.isInt(); ok {
							if v := tab.get(n); v != nil {
								return v
							}
						}
					}
					if arr.op != OLoad {
						return mkElem(arr, i, typ)
					}
				}
				return mk(Term{op: OLoad, args: []*Term{a}, typ: typ})
			}
			if tab := tableOf(b); tab != nil {
				if n, ok := i.isInt(); ok {
					if v := tab.get(n); v != nil {
						return v
					}
				}
			}
			return mkElem(b, i, typ)
		case OFieldAddr:
			if hasIndexAddr(a.args[0]) {
				return mkFieldVal(s.initVal(a.args[0], deref(a.args[0].typ)), int(a.n), typ)
			}
			if a.args[0].op == OGlobalAddr && s.isConstGlobal(a.args[0]) {
				return mkFieldVal(mkGlobalVal(a.args[0].obj.(*ssa.Global)), int(a.n), typ)
			}
		case OGlobalAddr:
			if s.isConstGlobal(a) {
				return mkGlobalVal(a.obj.(*ssa.Global))
			}
		}
	}
	if a.op == OGlobalAddr && s.isConstGlobal(a) {
		return mkGlobalVal(a.obj.(*ssa.Global))
	}
	return mk(Term{op: OLoad, args: []*Term{a}, n: ep, typ: typ})
}

func hasIndexAddr(a *Term) bool {
	for a.op == OFieldAddr || a.op == OIndexAddr {
		if a.op == OIndexAddr {
			return true
		}
		a = a.args[0]
	}
	return false
}

func (s *State) load(a *Term, typ types.Type) *Term {
	if st := structOf(typ); st != nil && !opaqueStruct(typ) {
		args := make([]*Term, st.NumFields())
		for i := range args {
			args[i] = s.load(mkFieldAddr(a, i, st, typ), st.Field(i).Type())
		}
		// an unmodified opaque struct value reloads as itself
		if len(args) > 0 && args[0].op == OFieldVal && args[0].n == 0 {
			x := args[0].args[0]
			same := true
			for i, f := range args {
				if f.op != OFieldVal || int(f.n) != i || f.args[0] != x {
					same = false
				}
			}
			if same && x.typ != nil && types.Identical(x.typ, typ) {
				return x
			}
		}
		return mk(Term{op: OAgg, typ: typ, args: args})
	}
	if v, ok := s.frozen[a]; ok {
		return v
	}
	if st := structOf(typ); st != nil && localRoot(a) {
		// a foreign struct whose fields were set one by one
		set := false
		for i := 0; i < st.NumFields() && !set; i++ {
			_, set = s.mem[mkFieldAddr(a, i, st, typ)]
		}
		if set {
			args := make([]*Term, st.NumFields())
			for i := range args {
				fa := mkFieldAddr(a, i, st, typ)
				if v, ok := s.mem[fa]; ok {
					args[i] = v
				} else if w, ok := s.mem[a]; ok {
					args[i] = mkFieldVal(w, i, st.Field(i).Type())
				} else {
					args[i] = s.load(fa, st.Field(i).Type())
				}
			}
			return mk(Term{op: OAgg, typ: typ, args: args})
		}
	}
	if v, ok := s.mem[a]; ok {
		return v
	}
	if arr, ok := typ.Underlying().(*types.Array); ok && arr.Len() > 0 && arr.Len() <= maxTrips && localRoot(a) {
		args := make([]*Term, arr.Len())
		for i := range args {
			args[i] = s.load(mkIndexAddr(a, mkInt(int64(i)), arr.Elem()), arr.Elem())
		}
		return mk(Term{op: OElems, typ: typ, args: args})
	}
	if a.op == OIndexAddr {
		// an entry with a provably equal index
		for k, v := range s.mem {
			if k.op == OIndexAddr && k.args[0] == a.args[0] && s.F.eqInt(k.args[1], a.args[1]) {
				return v
			}
		}
		for i := len(s.copies) - 1; i >= 0; i-- {
			c := s.copies[i]
			if c.dst != a.args[0] {
				continue
			}
			off := mkSub(a.args[1], c.dlo)
			if s.F.le(tZeroInt, off) && s.F.lt(off, c.n) {
				if b, _, _ := seqParts(c.src); s.copiedInto(b, i) {
					return s.freshSym("mixed", typ)
				}
				return s.load(mkIndexAddr(c.src, off, typ), typ)
			}
			if s.F.le(c.n, off) || s.F.lt(off, tZeroInt) {
				continue
			}
			v := s.freshSym("mixed", typ)
			return v
		}
	}
	v := s.initVal(a, typ)
	s.mem[a] = v
	return v
}

// copiedInto: whether the sequence was the destination of a copy since the ith one
func (s *State) copiedInto(b *Term, i int) bool {
	for _, c := range s.copies[i:] {
		if c.dst == b {
			return true
		}
	}
	return false
}

func (s *State) store(a, v *Term, typ types.Type) {
	if st := structOf(typ); st != nil && !opaqueStruct(typ) {
		for i := 0; i < st.NumFields(); i++ {
			s.store(mkFieldAddr(a, i, st, typ), mkFieldVal(v, i, st.Field(i).Type()), st.Field(i).Type())
		}
		return
	}
	if st := structOf(typ); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			delete(s.mem, mkFieldAddr(a, i, st, typ))
		}
	}
	cls := addrClass(a)
	var whole *Term
	if a.op == OIndexAddr {
		whole = s.mem[a.args[0]]
	}
	s.splitWhole(a)
	if whole != nil {
		if w := s.mem[a.args[0]]; w != nil && w != whole {
			s.define(w, "set", whole, a.args[1], v)
		}
	}
	for k := range s.mem {
		if k != a && addrClass(k) == cls && !s.distinct(k, a) {
			delete(s.mem, k)
		}
	}
	if arr, ok := typ.Underlying().(*types.Array); ok {
		// whole array: drop element knowledge
		ec := "elem:" + types.TypeString(arr.Elem(), nil)
		for k := range s.mem {
			if k.op == OIndexAddr && k.args[0] == a && addrClass(k) == ec {
				delete(s.mem, k)
			}
		}
		if v.op == OElems && int64(len(v.args)) == arr.Len() {
			for i, el := range v.args {
				s.store(mkIndexAddr(a, mkInt(int64(i)), arr.Elem()), el, arr.Elem())
			}
			return
		}
	}
	s.stores[cls] = append(s.stores[cls], a)
	s.mem[a] = v
}

func (s *State) define(sym *Term, op string, args ...*Term) {
	s.defs = append(s.defs, def{sym, op, args, len(s.events)})
}

func (s *State) defOf(sym *Term) *def {
	for i := range s.defs {
		if s.defs[i].sym == sym {
			return &s.defs[i]
		}
	}
	return nil
}

func isArrayAddr(a *Term) bool {
	if a.typ == nil {
		return false
	}
	p, ok := a.typ.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Array)
	return ok
}

// inWhole: the address lies in an array whose value is known as a whole.
func (s *State) inWhole(a *Term) bool {
	for ; a.op == OFieldAddr || a.op == OIndexAddr; a = a.args[0] {
		if a.op == OIndexAddr && isArrayAddr(a.args[0]) {
			if w := s.mem[a.args[0]]; w != nil && !(w.op == OLoad && w.args[0] == a.args[0]) {
				return true
			}
		}
	}
	return false
}

// splitWhole: before a part of an array is written, values of whole arrays it may belong to are
// broken up into their elements.
func (s *State) splitWhole(a *Term) {
	for x := a; x.op == OFieldAddr || x.op == OIndexAddr; x = x.args[0] {
		if x.op != OIndexAddr || !isArrayAddr(x.args[0]) {
			continue
		}
		cls := addrClass(x.args[0])
		for _, k := range s.memKeys() {
			if !isArrayAddr(k) || addrClass(k) != cls || s.distinct(k, x.args[0]) {
				continue
			}
			w := s.mem[k]
			arr := deref(k.typ).Underlying().(*types.Array)
			_, cn := x.args[1].isInt()
			if k == x.args[0] && cn && arr.Len() <= maxTrips {
				delete(s.mem, k)
				if w.op == OLoad && w.args[0] == k {
					continue
				}
				for i := int64(0); i < arr.Len(); i++ {
					el := mkIndexAddr(k, mkInt(i), arr.Elem())
					if s.mem[el] == nil {
						s.store(el, mkElem(w, mkInt(i), arr.Elem()), arr.Elem())
					}
				}
				continue
			}
			s.mem[k] = s.freshSym("array", arr)
		}
	}
}

func (s *State) havocClass(cls string) {
	for k := range s.mem {
		if addrClass(k) == cls {
			delete(s.mem, k)
		}
	}
	s.stores[cls] = append(s.stores[cls], mk(Term{op: OSym, name: "anything", n: int64(s.allocN)}))
}

// havocHeap forgets everything an unknown callee could write.
func (s *State) havocHeap(args []*Term) {
	esc := map[*Term]bool{}
	var work []*Term
	var mark func(t *Term)
	mark = func(t *Term) {
		walkTerm(t, func(x *Term) {
			if isFreshObj(x) && !esc[x] {
				esc[x] = true
				work = append(work, x)
			}
		})
	}
	for _, a := range args {
		mark(a)
	}
	for k, v := range s.mem {
		if !localRoot(k) {
			mark(v)
		}
	}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		for k, v := range s.mem {
			if addrRoot(k) == x {
				mark(v)
			}
		}
	}
	for k := range s.mem {
		r := addrRoot(k)
		if isFreshObj(r) {
			if esc[r] {
				delete(s.mem, k)
				s.allocs[r] = false
			}
			continue
		}
		if s.isConstGlobal(r) {
			continue
		}
		delete(s.mem, k)
	}
	for r := range esc {
		s.allocs[r] = false
	}
	s.heapEp++
	if len(s.maps) > 0 {
		s.maps = append(s.maps, mapStore{unknown: true})
	}
}

func (s *State) memKeys() []*Term {
	ks := make([]*Term, 0, len(s.mem))
	for k := range s.mem {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	return ks
}

package main

// The request parser, state by state: every way through one call of Parse, from every point where the
// previous call may have left off, is replayed against what the bytes mean. Which constant stands for
// which point is inferred.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C24", "Simulation of every abstract path through the parser against the grammar of the request line, from every resumption point.", 12, func(c *Ctx) { c.parserRule("line") })
	register("C25", "Simulation of every abstract path through the parser against the grammar of header lines, from every resumption point.", 20, func(c *Ctx) { c.parserRule("head") })
	register("C26", "Simulation of every abstract path through the parser and its digit loop against the grammar of Content-Length.", 10, func(c *Ctx) { c.parserRule("length") })
	register("C27", "Byte-set analysis of the key comparisons on every abstract path through the parser, inductive check of the encoding list.", 10, func(c *Ctx) { c.parserRule("special") })
}

type pMeaning uint8

const (
	pNone pMeaning = iota
	pMethod
	pPath
	pKey
	pLength
	pLengthCR
	pValue
	pEndCR
)

var pNames = map[pMeaning]string{pNone: "nothing", pMethod: "the method", pPath: "the request target", pKey: "a header name", pLength: "a content length",
	pLengthCR: "the end of a content length", pValue: "a header value", pEndCR: "the end of the head"}

type parserRun struct {
	k     int64
	paths []*Path
	head  *ssa.BasicBlock // the loop head the run passes at once
}

type parserCheck struct {
	*Ctx
	e                                     *Engine
	s0                                    *State
	obj, data, request                    *Term
	ctor, parse                           *ssa.Function
	add, dec, qset, mparse, pfrom, choose *ssa.Function
	stateAddr                             *Term
	initial                               int64
	runs                                  map[int64]*parserRun
	meaning                               map[int64]pMeaning
	roles                                 map[string]*Term
	pending, errored, done                *Term
	unkMethod, unkProto                   *Term
	errs                                  map[string]*Term
	keyAddr                               *Term
	keyPending                            []keyAt
	lenAddr                               *Term
	stages                                []*Term
	stageVals                             map[*Term][]int64
	stageMean                             map[string]int
	stageInit                             string
	steps, late                           []func()
	dry                                   bool
	lists                                 map[string]*Term
	mutable                               []*Term
	ctorState                             *State
	ctorObj                               *Term
	cnt                                   map[string]int
	codingCaps                            map[*Term]token.Pos // fields whose capacity limits the number of codings
}

type keyAt struct {
	p   *Path
	key *Term
}

func (c *Ctx) parserRule(cat string) {
	const pkg = "internal/protocol/http1"
	x := &parserCheck{Ctx: c}
	x.ctor, x.parse = c.fn(pkg, "NewParser"), c.fn(pkg, "Parser.Parse")
	x.add, x.dec = c.fn("internal/keyvalue", "Storage.Add"), c.fn("internal/uridecode", "Decode")
	x.qset, x.mparse = c.fn("http/query", "Query.Set"), c.fn("http/method", "Parse")
	x.pfrom, x.choose = c.fn("http/proto", "FromBytes"), c.fn("http/proto", "ChooseUpgrade")
	for _, f := range []*ssa.Function{x.ctor, x.parse, x.add, x.dec, x.qset, x.mparse, x.pfrom, x.choose} {
		if f == nil {
			return
		}
	}
	x.pending, _ = c.constOf(pkg, "Pending")
	x.errored, _ = c.constOf(pkg, "Error")
	x.done, _ = c.constOf(pkg, "HeadersCompleted")
	x.unkMethod, _ = c.constOf("http/method", "Unknown")
	x.unkProto, _ = c.constOf("http/proto", "Unknown")
	if x.pending == nil || x.errored == nil || x.done == nil || x.unkMethod == nil || x.unkProto == nil {
		return
	}
	x.errs = map[string]*Term{}
	for _, n := range []string{"ErrBadRequest", "ErrTooLongRequestLine", "ErrURITooLong", "ErrMethodNotImplemented", "ErrUnsupportedProtocol", "ErrHeaderFieldsTooLarge", "ErrTooManyHeaders"} {
		if x.errs[n] = c.global("http/status", n); x.errs[n] == nil {
			return
		}
	}
	e := c.engine()
	x.e = e
	e.Bounds = true
	op := opaqueSet(x.add, x.dec, x.qset, x.mparse, x.pfrom, x.choose)
	e.Opaque = func(f *ssa.Function) bool { return op(f) || isEncodingParser(f) }
	e.NoHavoc = func(string) bool { return true }
	reach := map[*ssa.Function]bool{}
	e.Cut = func(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
		for b := range body {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok {
					if f := ci.Common().StaticCallee(); f != nil && reaches(f, x.add, reach, 3) {
						return true
					}
				}
			}
		}
		return false
	}
	for _, p := range x.ctor.Params {
		if strings.HasSuffix(typeStr(p.Type()), "http.Request") {
			x.request = paramSym(p)
		}
	}
	if !c.ob(x.request != nil, "constructor:request", x.ctor.Pos(), "a parser is made without a request") {
		return
	}
	x.s0, x.obj = c.object(e, x.ctor, "p", nil)
	if x.obj == nil {
		return
	}
	x.data = mkSym("data", x.parse.Params[1].Type())
	x.s0.F.assume(mkEq(x.request, tNil), false)
	// fields
	st := structOf(deref(x.obj.typ))
	fw := c.P.fieldWrites()
	var cands []*Term
	cs := map[*Term][]int64{}
	flags := map[*Term][]int64{}
	var flagOrder []*Term
	cps := returns(c.run(e, newState(), x.ctor, nil))
	x.ctorState, x.ctorObj = cps[0].S, cps[0].Results[0]
	for i := 0; i < st.NumFields(); i++ {
		a := mkFieldAddr(x.obj, i, st, deref(x.obj.typ))
		ws := fw[addrClass(a)]
		if len(ws) == 0 {
			continue
		}
		x.mutable = append(x.mutable, a)
		if b, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			// names kept between calls hold no line breaks: established wherever one is kept
			v := x.s0.load(a, st.Field(i).Type())
			x.s0.F.segs = append(x.s0.F.segs, Seg{v, tZeroInt, mkLen(v), maskOf('\r', '\n').not()})
		}
		if b, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			flags[a] = []int64{0, 1}
			flagOrder = append(flagOrder, a)
			continue
		}
		if !isIntType(st.Field(i).Type()) {
			continue
		}
		init, ok := x.ctorField(i).isInt()
		if !ok {
			continue
		}
		vals := map[int64]bool{init: true}
		for _, w := range ws {
			s, isS := w.(*ssa.Store)
			if !isS {
				ok = false
				break
			}
			ks, isC := c.P.constSources(s.Val, 3)
			if !isC {
				ok = false
				break
			}
			for _, k := range ks {
				vals[k] = true
			}
		}
		if !ok || len(vals) < 2 {
			// a counter is never negative
			x.s0.F.assume(mkLe(tZeroInt, x.s0.load(a, st.Field(i).Type())), true)
			continue
		}
		for v := range vals {
			cs[a] = append(cs[a], v)
		}
		sort.Slice(cs[a], func(i, j int) bool { return cs[a][i] < cs[a][j] })
		cands = append(cands, a)
		flags[a] = cs[a]
		flagOrder = append(flagOrder, a)
	}
	if !c.ob(len(cands) > 0, "parser:resumption-point", x.ctor.Pos(), "no field keeps where the parser left off") {
		return
	}
	var best *Ctx
	most := -1
	for _, a := range cands {
		t := &Ctx{P: c.P, ID: c.ID, index: map[string]int{}, cur: c.cur}
		y := *x
		y.Ctx = t
		y.stateAddr = a
		y.stageVals = map[*Term][]int64{}
		for _, b := range flagOrder {
			if b != a {
				y.stages = append(y.stages, b)
				y.stageVals[b] = flags[b]
			}
		}
		y.all(cs[a])
		c.paths += t.paths
		if n := len(y.meaning); n > most || n == most && badCount(t) < badCount(best) {
			best, most = t, n
		}
		if badCount(t) == 0 {
			break
		}
	}
	for _, o := range best.Obls {
		if strings.HasPrefix(o.Key, cat+":") || strings.HasPrefix(o.Key, "decided:") || strings.HasPrefix(o.Key, "parser:") {
			c.adopt(o)
		}
	}
	if cat == "special" {
		c.encodingList(pkg)
	}
	c.boundsOf(e)
}

// constSources: the constants a value may be, followed through merges and the parameters of functions
// that are only called directly.
func (p *Program) constSources(v ssa.Value, depth int) ([]int64, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return nil, false
		}
		if n, ok := constant.Int64Val(constant.ToInt(x.Value)); ok && x.Value.Kind() == constant.Int {
			return []int64{n}, true
		}
	case *ssa.ChangeType:
		return p.constSources(x.X, depth)
	case *ssa.Phi:
		if depth == 0 {
			return nil, false
		}
		var out []int64
		for _, e := range x.Edges {
			if e == v {
				continue
			}
			ks, ok := p.constSources(e, depth-1)
			if !ok {
				return nil, false
			}
			out = append(out, ks...)
		}
		return out, true
	case *ssa.Parameter:
		if depth == 0 {
			return nil, false
		}
		fn := x.Parent()
		at := -1
		for i, q := range fn.Params {
			if q == x {
				at = i
			}
		}
		if at < 0 || fn.Referrers() != nil && len(*fn.Referrers()) > 0 {
			return nil, false
		}
		var out []int64
		n := 0
		for _, g := range p.RepoFuncs() {
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					ci, isCall := i.(ssa.CallInstruction)
					for _, op := range i.Operands(nil) {
						if *op == fn && !(isCall && ci.Common().Value == fn) {
							return nil, false // called through a value
						}
					}
					if isCall && ci.Common().StaticCallee() == fn {
						n++
						ks, ok := p.constSources(ci.Common().Args[at], depth-1)
						if !ok {
							return nil, false
						}
						out = append(out, ks...)
					}
				}
			}
		}
		return out, n > 0
	}
	return nil, false
}

func reaches(f, g *ssa.Function, seen map[*ssa.Function]bool, d int) bool {
	if f == g {
		return true
	}
	if d == 0 || f.Pkg == nil || !isRepoPkg(f.Pkg.Pkg) {
		return false
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if ci, ok := i.(ssa.CallInstruction); ok {
				if h := ci.Common().StaticCallee(); h != nil && reaches(h, g, seen, d-1) {
					return true
				}
			}
		}
	}
	return false
}

// isEncodingParser: a helper that splits a list of codings and says whether it names chunked.
func isEncodingParser(f *ssa.Function) bool {
	r := f.Signature.Results()
	return f.Pkg != nil && f.Pkg.Pkg.Name() == "http1" && r.Len() == 2 && typeStr(r.At(0).Type()) == "[]string" && types.Identical(r.At(1).Type(), types.Typ[types.Bool])
}

func (x *parserCheck) ctorField(i int) *Term {
	st := structOf(deref(x.obj.typ))
	return x.ctorState.clone().load(mkFieldAddr(x.ctorObj, i, st, deref(x.obj.typ)), st.Field(i).Type())
}

func (x *parserCheck) all(consts []int64) {
	x.runs = map[int64]*parserRun{}
	x.meaning = map[int64]pMeaning{}
	x.roles = map[string]*Term{}
	x.cnt = map[string]int{}
	x.lists = map[string]*Term{}
	x.initial, _ = x.ctorField(int(x.stateAddr.n)).isInt()
	for _, k := range consts {
		s := x.s0.clone()
		s.store(x.stateAddr, mkInt(k), deref(x.stateAddr.typ))
		x.e.cutEv = len(s.events)
		r := &parserRun{k: k}
		r.paths = x.run(x.e, s, x.parse, []*Term{x.obj, x.data})
		for _, p := range r.paths {
			if p.Kind == PBackEdge && p.Loop.Entry == nil && p.Loop.NEv == x.e.cutEv {
				for _, v := range p.Loop.Vars {
					if v.Entry == x.data {
						r.head = p.Loop.Head
					}
				}
			}
		}
		x.runs[k] = r
	}
	var init []int64
	for _, a := range x.stages {
		k, _ := constOf64(x.ctorField(int(a.n)))
		init = append(init, k)
	}
	x.stageInit = vkey(init)
	x.stageMean = map[string]int{x.stageInit: clAbsent}
	// every resumption point that can be left behind, starting with the first
	x.meaning[x.initial] = pMethod
	done := map[int64]bool{}
	for {
		var k int64
		found := false
		for _, v := range consts {
			if x.meaning[v] != pNone && !done[v] {
				k, found = v, true
				break
			}
		}
		if !found {
			break
		}
		done[k] = true
		x.c0(x.runs[k])
	}
	x.dry = true
	for i := 0; i < 4; i++ {
		for _, fn := range x.steps {
			fn()
		}
	}
	x.dry = false
	for _, fn := range x.steps {
		fn()
	}
	for _, fn := range x.late {
		fn()
	}
	x.capacities()
	for _, m := range []int{clLead, clDigits, clTrail} {
		n := 0
		for _, v := range x.stageMean {
			if v == m {
				n++
			}
		}
		x.ob(n > 0, "length:stages", x.parse.Pos(), "being %s is not told from other places", clNames[m])
	}
	if x.lenAddr != nil {
		x.ob(x.ctorField(int(x.lenAddr.n)) == tZeroInt, "length:zero", x.ctor.Pos(), "a fresh parser's content length isn't zero")
	}
	for _, a := range x.keyPending {
		if x.ob(x.keyAddr != nil, "head:key-kept", x.parse.Pos(), "no field keeps a name while its value arrives") {
			if a.key == nil {
				a.key = x.s0.clone().load(x.keyAddr, deref(x.keyAddr.typ))
			}
			x.ob(a.p.equal(a.p.S.clone().load(x.keyAddr, deref(x.keyAddr.typ)), a.key), "head:key-kept", a.p.Pos, "while a value arrives, %s is kept for its name", a.p.S.clone().load(x.keyAddr, deref(x.keyAddr.typ)))
		}
	}
	for _, m := range []pMeaning{pMethod, pPath, pKey, pLength, pLengthCR, pValue, pEndCR} {
		n := 0
		for _, v := range x.meaning {
			if v == m {
				n++
			}
		}
		cat := "head"
		switch m {
		case pMethod, pPath:
			cat = "line"
		case pLength, pLengthCR:
			cat = "length"
		}
		x.ob(n > 0, cat+":resumes:"+pNames[m], x.parse.Pos(), "the parser never stops inside %s to wait for more data", pNames[m])
	}
	for _, k := range []string{"line:method", "line:path", "line:query", "head:done", "head:key", "head:value", "head:too-many", "head:bad-key", "length:stored", "length:duplicate", "length:digit", "length:space",
		"special:upgrade", "special:trailer", "special:connection", "special:content-type", "special:content-encoding", "special:transfer-encoding"} {
		x.ob(x.cnt[k] > 0, k+":reached", x.parse.Pos(), "no path covers this")
	}
}

func (x *parserCheck) c0(r *parserRun) {
	if r == nil {
		return
	}
	for _, p := range r.paths {
		if p.Kind == PPanic {
			x.ob(false, "line:no-panic", p.Pos, "parsing may panic (path: %s)", p.describe(x.Ctx))
			x.ob(false, "head:no-panic", p.Pos, "parsing may panic (path: %s)", p.describe(x.Ctx))
			continue
		}
		if p.Kind == PBackEdge && p.Loop.Entry != nil && !digitLoopRec(p.Loop) {
			continue // what a loop establishes is known on the paths leaving it
		}
		g := &pSim{parserCheck: x, p: p, f: p.S.F, m: x.meaning[r.k], at: tZeroInt, segs: map[*Term]*pSeg{}, run: r}
		switch g.m {
		case pMethod, pPath:
			g.held = "line"
		case pKey:
			g.held = "key"
		case pValue:
			g.held = "value"
		}
		g.evs = p.S.events
		g.sim()
	}
}

// pSeg: what a buffer's current segment holds.
type pSeg struct {
	held   bool // something left by previous calls, possibly nothing
	pieces []*Term
	fins   []*Term // what finished segments were returned as
}

type pLen struct {
	ev    *Event
	buf   *Term
	extra *Term // appended since
}

type pSim struct {
	*parserCheck
	p    *Path
	f    *Facts
	run  *parserRun
	m    pMeaning
	at   *Term
	held string
	evs  []*Event
	segs map[*Term]*pSeg
	lens []*pLen
	key  *Term
	cat  string
	step int
	// the content length on the way
	entered, passed bool
	entry           []int64
	lenKept         *Term
	stageKept       []*Term
	dead            bool
	// what must be in the request at the end
	method, path, proto, length *Term
}

func (g *pSim) bad(key, format string, a ...any) {
	if g.dry {
		return
	}
	a = append(a, g.p.describe(g.Ctx))
	g.ob(false, g.cat+":"+key, g.p.Pos, format+" (path: %s)", a...)
}

func (g *pSim) good(ok bool, key, format string, a ...any) bool {
	if g.dry {
		return ok
	}
	a = append(a, g.p.describe(g.Ctx))
	return g.ob(ok, g.cat+":"+key, g.p.Pos, format+" (path: %s)", a...)
}

// buf: the segment of the buffer a role uses.
func (g *pSim) seg(b *Term) *pSeg {
	s := g.segs[b]
	if s == nil {
		s = &pSeg{held: g.roles[g.held] == b}
		g.segs[b] = s
	}
	return s
}

// role: the buffer plays the role, and no other.
func (g *pSim) role(name string, b *Term) bool {
	if o := g.roles[name]; o != nil {
		return o == b
	}
	for n, o := range g.roles {
		if n != name && o == b {
			return false
		}
	}
	g.roles[name] = b
	return true
}

func bufOp(ev *Event) string {
	if ev.Kind != EvCall {
		return ""
	}
	for _, n := range []string{"Append", "Finish", "SegmentLength", "Clear"} {
		if nameMatches(ev.Name, "buffer.Buffer)."+n) {
			return n
		}
	}
	return ""
}

// peek: the next event that matters, lengths being noted on the way.
func (g *pSim) peek() *Event {
	for len(g.evs) > 0 {
		ev := g.evs[0]
		if ev.Kind == EvCall {
			switch bufOp(ev) {
			case "SegmentLength":
				g.noteLen(ev)
				g.evs = g.evs[1:]
				continue
			case "":
				if ev.Fn == nil || !(ev.Fn == g.add || ev.Fn == g.dec || ev.Fn == g.qset || ev.Fn == g.mparse || ev.Fn == g.pfrom || ev.Fn == g.choose || isEncodingParser(ev.Fn)) {
					g.evs = g.evs[1:]
					continue
				}
			}
			return ev
		}
		if ev.Kind == EvStore && !localRoot(ev.Addr) {
			return ev
		}
		g.evs = g.evs[1:]
	}
	return nil
}

func (g *pSim) noteLen(ev *Event) {
	b := g.f.canon(ev.Args[0])
	if g.step == 0 && g.held != "" && len(g.segs) == 0 {
		g.role(g.held, b)
	}
	s := g.seg(b)
	l := &pLen{ev: ev, buf: b, extra: tZeroInt}
	g.lens = append(g.lens, l)
	sum := tZeroInt
	for _, t := range s.pieces {
		sum = mkAdd(sum, mkLen(t))
	}
	g.f.assume(mkLe(sum, ev.Res[0]), true)
	if !s.held {
		g.f.assume(mkIntEq(ev.Res[0], sum), true)
	}
	if g.f.bad {
		g.dead = true
	}
}

// next: takes the next event if it is the buffer operation in the role.
func (g *pSim) next(role, op string) *Event {
	ev := g.peek()
	if ev == nil || bufOp(ev) != op || !g.role(role, g.f.canon(ev.Args[0])) {
		return nil
	}
	g.evs = g.evs[1:]
	s := g.seg(g.f.canon(ev.Args[0]))
	switch op {
	case "Finish":
		ev.Val = nil
		F := ev.Res[0]
		sum := tZeroInt
		for _, t := range s.pieces {
			sum = mkAdd(sum, mkLen(t))
		}
		g.f.assume(mkLe(sum, mkLen(F)), true)
		if !s.held {
			g.f.assume(mkIntEq(mkLen(F), sum), true)
		}
		if g.f.bad {
			g.dead = true
		}
	}
	return ev
}

// stores: parser and request stores up to the next call.
func (g *pSim) stores() {
	for {
		ev := g.peek()
		if ev == nil || ev.Kind != EvStore {
			return
		}
		g.evs = g.evs[1:]
	}
}

// segEmpty: whether the segment of the role is empty: 1 yes, 0 no, -1 unknown
func (g *pSim) segEmpty(role string) int {
	b := g.roles[role]
	if b == nil {
		if g.held == role {
			return -1
		}
		return 1
	}
	s := g.seg(b)
	for _, t := range s.pieces {
		if g.f.lt(tZeroInt, mkLen(t)) {
			return 0
		}
		if !g.f.eqInt(mkLen(t), tZeroInt) {
			return -1
		}
	}
	if !s.held {
		return 1
	}
	for _, l := range g.lens {
		if l.buf != b {
			continue
		}
		if g.f.eqInt(l.ev.Res[0], tZeroInt) {
			return 1
		}
		if g.f.lt(tZeroInt, l.ev.Res[0]) {
			return 0
		}
	}
	return -1
}

// append: the piece data[at:to] is added to the segment. 1 done, 0 refused, -1 neither
func (g *pSim) append(role string, to *Term) int {
	ev := g.next(role, "Append")
	if ev == nil {
		if g.f.eqInt(g.at, to) {
			return 1
		}
		return -1
	}
	if !g.p.isSlice(ev.Args[1], g.data, g.at, to) {
		return -1
	}
	if g.p.mustNot(ev.Res[0]) {
		return 0
	}
	if !g.p.must(ev.Res[0]) {
		return -1
	}
	s := g.seg(g.f.canon(ev.Args[0]))
	s.pieces = append(s.pieces, ev.Args[1])
	for _, l := range g.lens {
		if l.buf == g.f.canon(ev.Args[0]) {
			l.extra = mkAdd(l.extra, mkLen(ev.Args[1]))
		}
	}
	return 1
}

// finish: the segment as a whole, and the buffer ready for the next one.
func (g *pSim) finish(role string) *Term {
	ev := g.next(role, "Finish")
	if ev == nil {
		return nil
	}
	s := g.seg(g.f.canon(ev.Args[0]))
	s.held, s.pieces = false, nil
	return ev.Res[0]
}

// lengths: terms that are the length of the segment in the role.
func (g *pSim) lengths(role string, F *Term) (out []*Term) {
	b := g.roles[role]
	for _, l := range g.lens {
		if l.buf == b {
			out = append(out, mkAdd(l.ev.Res[0], l.extra))
		}
	}
	if F != nil {
		out = append(out, mkLen(F))
	}
	if s := g.segs[b]; s != nil && !s.held && F == nil {
		sum := tZeroInt
		for _, t := range s.pieces {
			sum = mkAdd(sum, mkLen(t))
		}
		out = append(out, sum)
	}
	return
}

func (g *pSim) limits(name string) []*Term {
	return g.p.termsOf(func(t *Term) bool {
		return t.op == OLoad && len(t.args) > 0 && t.args[0].op == OFieldAddr && t.args[0].name == name ||
			t.op == OFieldVal && isNumTerm(t) && fieldNameOf(t) == name
	})
}

func fieldNameOf(t *Term) string {
	st := structOf(t.args[0].typ)
	if st == nil || int(t.n) >= st.NumFields() {
		return ""
	}
	return st.Field(int(t.n)).Name()
}

// within: the segment is known to be within the limit; above: known to exceed it.
func (g *pSim) within(role, limit string, F *Term) bool {
	for _, n := range g.lengths(role, F) {
		for _, l := range g.limits(limit) {
			if g.f.le(n, l) {
				return true
			}
		}
	}
	return false
}

func (g *pSim) above(role, limit string, F *Term) bool {
	for _, n := range g.lengths(role, F) {
		for _, l := range g.limits(limit) {
			if g.f.lt(l, n) {
				return true
			}
		}
	}
	return false
}

func (g *pSim) isError(names ...string) bool {
	if g.p.Kind != PReturn || !g.p.equal(g.p.Results[0], g.errored) {
		return false
	}
	for _, n := range names {
		if g.p.equal(g.p.Results[2], g.errs[n]) {
			return true
		}
	}
	return len(names) == 0
}

func (g *pSim) anyError() bool { return g.p.Kind == PReturn && g.p.equal(g.p.Results[0], g.errored) }

// waits: the call ends here, waiting for more.
func (g *pSim) waits(m pMeaning) {
	g.stores()
	if g.dead {
		return
	}
	if ev := g.peek(); ev != nil {
		g.bad("wait:nothing-else", "while waiting for more of %s, %s is called", pNames[m], ev)
		return
	}
	if !g.good(g.p.Kind == PReturn && g.p.equal(g.p.Results[0], g.pending) && g.p.must(mkEq(g.p.Results[2], tNil)), "wait:pending", "the data ends inside %s, but the parser doesn't wait for more", pNames[m]) {
		return
	}
	g.good(g.p.must(mkIntEq(mkLen(g.p.Results[1]), tZeroInt)), "wait:extra", "something is handed back while waiting")
	v := g.p.S.clone().load(g.stateAddr, deref(g.stateAddr.typ))
	k, ok := g.f.canon(v).isInt()
	if !ok {
		k, ok = g.constOn(v)
	}
	if !g.good(ok, "wait:resumption-point", "where to resume is %s", v) {
		return
	}
	if o := g.meaning[k]; o != pNone && o != m {
		g.bad("wait:resumption-point", "having waited inside %s, the parser goes on with %s", pNames[m], pNames[o])
		return
	}
	g.meaning[k] = m
	g.final()
	g.lengthState()
	if m == pValue {
		g.keyPending = append(g.keyPending, keyAt{g.p, g.key})
	}
}

func (g *pSim) constOn(v *Term) (int64, bool) {
	for k := range g.runs {
		if g.f.eqInt(v, mkInt(k)) {
			return k, true
		}
	}
	return 0, false
}

// atCut: the path ends at the loop head, with the rest of the data.
func (g *pSim) atCut() bool {
	if g.p.Kind != PStop && !(g.p.Kind == PBackEdge && g.p.Loop.Entry == nil) {
		return false
	}
	g.stores()
	if g.peek() != nil {
		return false
	}
	for _, v := range g.p.Loop.Vars {
		n := g.p.Next[v.Name]
		if n != nil && n.typ != nil && isByteSeq(n.typ) && g.p.isSlice(n, g.data, g.at, mkLen(g.data)) {
			return true
		}
	}
	return false
}

func (g *pSim) cut() {
	head := g.p.Loop.Head
	var ks []int64
	for k, r := range g.runs {
		if r.head == head {
			ks = append(ks, k)
		}
	}
	var k int64
	if len(ks) == 1 {
		k = ks[0]
	} else {
		v := g.p.S.clone().load(g.stateAddr, deref(g.stateAddr.typ))
		var ok bool
		if k, ok = g.constOn(v); !ok {
			g.bad("goes-on:where", "what follows %s isn't settled", pNames[g.m])
			return
		}
	}
	if o := g.meaning[k]; o != pNone && o != g.m {
		g.bad("goes-on:where", "in place of %s, %s is expected", pNames[g.m], pNames[o])
		return
	}
	g.meaning[k] = g.m
	g.lengthState()
	// everything but the data is as it is when resuming
	for _, v := range g.p.Loop.Vars {
		n := g.p.Next[v.Name]
		if n == nil || isByteSeq(v.typ) {
			continue
		}
		entry := v.Entry
		if g.p.Kind == PStop {
			entry = nil
			for _, q := range g.runs[k].paths {
				if q.Kind == PBackEdge && q.Loop.Head == head {
					for _, w := range q.Loop.Vars {
						if w.Name == v.Name {
							entry = w.Entry
						}
					}
				}
			}
			if entry == nil {
				continue
			}
		}
		g.good(g.p.equal(n, entry), "goes-on:state", "%s is %s when going on, but %s when resuming", v.Name, n, entry)
	}
	g.final()
}

// final: what the request holds at the end of the path.
func (g *pSim) final() {
	s := g.p.S.clone()
	chk := func(cat, name string, want *Term) {
		if want == nil {
			return
		}
		a := addrOf(g.request, name)
		if a == nil {
			return
		}
		got := s.load(a, deref(a.typ))
		g.ob(g.p.equal(got, want), cat+":request:"+name, g.p.Pos, "the request's %s is %s instead of %s (path: %s)", name, got, want, g.p.describe(g.Ctx))
	}
	chk("line", "Method", g.method)
	chk("line", "Path", g.path)
	chk("line", "Proto", g.proto)
	chk("length", "ContentLength", g.length)
	order, _ := g.p.fieldStores(0)
	for _, a := range order {
		if addrRoot(a) != g.request || a == g.request {
			continue
		}
		switch {
		case a == addrOf(g.request, "Method"):
			g.ob(g.method != nil, "line:request:only", g.p.Pos, "the method is changed by something else than a method")
		case a == addrOf(g.request, "Path"), a == addrOf(g.request, "Proto"):
			g.ob(g.path != nil, "line:request:only", g.p.Pos, "the path or protocol is changed by something else than a request line")
		case a == addrOf(g.request, "ContentLength"):
			g.ob(g.length != nil, "length:request:only", g.p.Pos, "the content length is changed by something else than such a header (path: %s)", g.p.describe(g.Ctx))
		case specialOf(g.request, a):
		default:
			g.ob(false, "head:request:only", g.p.Pos, "%s of the request is changed", a)
		}
	}
}

func specialOf(req, a *Term) bool {
	for _, n := range []string{"Upgrade", "Connection", "ContentType"} {
		if a == addrOf(req, n) {
			return true
		}
	}
	for _, n := range []string{"Content", "Transfer", "Chunked", "HasTrailer"} {
		if a == addrOf(req, "Encoding", n) {
			return true
		}
	}
	return a == addrOf(req, "Encoding")
}

func (g *pSim) empty() bool { return g.f.le(mkLen(g.data), g.at) }

func (g *pSim) sim() {
	for step := 0; step < 12 && !g.dead; step++ {
		g.step = step
		g.cat = "head"
		switch g.m {
		case pMethod, pPath:
			g.cat = "line"
		case pLength, pLengthCR:
			g.cat = "length"
		}
		if (step > 0 || g.p.Kind == PStop) && g.atCut() {
			g.cut()
			return
		}
		more := false
		switch g.m {
		case pMethod:
			more = g.simMethod()
		case pPath:
			more = g.simPath()
		case pKey:
			more = g.simKey()
		case pLength:
			more = g.simLength()
		case pLengthCR:
			more = g.simCR(pKey)
		case pValue:
			more = g.simValue()
		case pEndCR:
			more = g.simCR(pNone)
		}
		if !more {
			return
		}
	}
	if !g.dead {
		g.bad("steps", "the path can't be followed")
	}
}

func (g *pSim) simMethod() bool {
	f := g.f
	sp, found, ok := f.firstByte(g.data, g.at, ' ')
	if !ok {
		g.bad("method:end", "whether the method ends in the data is not settled")
		return false
	}
	g.peek() // note lengths
	if g.dead {
		return false
	}
	if !found {
		switch g.append("line", mkLen(g.data)) {
		case 0:
			g.good(g.isError("ErrTooLongRequestLine", "ErrURITooLong"), "method:too-long", "a method too long is not refused as such")
		case 1:
			g.waits(pMethod)
		default:
			g.bad("method:kept", "a part of the method is not kept")
		}
		return false
	}
	text := mkSliceT(g.data, g.at, sp)
	if g.segEmpty("line") != 1 {
		switch g.append("line", sp) {
		case 0:
			g.good(g.isError("ErrTooLongRequestLine", "ErrURITooLong"), "method:too-long", "a method too long is not refused as such")
			return false
		case -1:
			g.bad("method:whole", "the method is not put together")
			return false
		}
		if text = g.finish("line"); text == nil {
			g.bad("method:whole", "the method is not put together")
			return false
		}
	} else if ev := g.peek(); ev != nil && bufOp(ev) == "Append" {
		switch g.append("line", sp) {
		case 0:
			g.good(g.isError("ErrTooLongRequestLine", "ErrURITooLong"), "method:too-long", "a method too long is not refused as such")
			return false
		case -1:
			g.bad("method:whole", "the method is not put together")
			return false
		}
		if text = g.finish("line"); text == nil {
			g.bad("method:whole", "the method is not put together")
			return false
		}
	}
	g.peek()
	if g.dead {
		return false
	}
	ev := g.peek()
	if ev == nil || ev.Fn != g.mparse {
		g.good(g.p.must(mkIntEq(mkLen(text), tZeroInt)) && g.isError("ErrBadRequest", "ErrMethodNotImplemented"), "method:parsed", "the method is not looked up")
		return false
	}
	g.evs = g.evs[1:]
	if !g.good(g.p.equal(ev.Args[0], text) || g.p.isSlice(ev.Args[0], g.data, g.at, sp) && g.segEmpty("line") == 1, "method:text", "the method is looked up as %s instead of %s", ev.Args[0], text) {
		return false
	}
	g.method = ev.Res[0]
	g.cnt["line:method"]++
	g.stores()
	if g.p.must(mkIntEq(g.method, g.unkMethod)) {
		g.good(g.isError("ErrMethodNotImplemented"), "method:unknown", "an unknown method is not refused as such")
		return false
	}
	if !g.good(g.p.mustNot(mkIntEq(g.method, g.unkMethod)), "method:known", "whether the method is known is not looked at") {
		return false
	}
	g.at = mkAddC(sp, 1)
	g.m = pPath
	return true
}

// lastByte: the position of the last such byte of base[0:hi].
func (f *Facts) lastByte(base *Term, b byte) (at *Term, found, ok bool) {
	m := maskOf(b)
	for _, el := range f.elemAtoms() {
		if el.args[0] != base {
			continue
		}
		k := el.args[1]
		if f.byteSet(el).sub(m) && f.le(tZeroInt, k) && f.lt(k, mkLen(base)) && f.segAll(base, mkAddC(k, 1), mkLen(base), m.not()) {
			return k, true, true
		}
	}
	if f.segAll(base, tZeroInt, mkLen(base), m.not()) {
		return nil, false, true
	}
	return nil, false, false
}

func (g *pSim) simPath() bool {
	f := g.f
	lf, found, ok := f.firstByte(g.data, g.at, '\n')
	if !ok {
		g.bad("target:end", "whether the request line ends in the data is not settled")
		return false
	}
	to := lf
	if !found {
		to = mkLen(g.data)
	}
	switch g.append("line", to) {
	case 0:
		g.good(g.isError("ErrTooLongRequestLine", "ErrURITooLong"), "target:too-long", "a request line too long is not refused as such")
		return false
	case -1:
		g.bad("target:kept", "a part of the request line is not kept")
		return false
	}
	if !found {
		g.waits(pPath)
		return false
	}
	F := g.finish("line")
	if F == nil {
		g.bad("target:whole", "the request line is not put together")
		return false
	}
	// what follows may be looked at in any order
	var dec, pf, qs *Event
	for ev := g.peek(); ev != nil; ev = g.peek() {
		if ev.Kind == EvCall && ev.Fn == g.dec && dec == nil {
			dec = ev
		} else if ev.Kind == EvCall && ev.Fn == g.pfrom && pf == nil {
			pf = ev
		} else if ev.Kind == EvCall && ev.Fn == g.qset && qs == nil {
			qs = ev
		} else if ev.Kind != EvStore {
			break
		}
		g.evs = g.evs[1:]
	}
	if g.dead {
		return false
	}
	sp, spFound, spOK := f.lastByte(F, ' ')
	if !g.good(spOK, "target:protocol", "where the protocol starts is not settled") {
		return false
	}
	if !spFound {
		g.good(g.isError("ErrBadRequest") && dec == nil && pf == nil && qs == nil, "target:no-protocol", "a request line without a protocol is not refused")
		return false
	}
	q, qFound, qOK := f.firstByteIn(F, tZeroInt, sp, '?')
	pathEnd := sp
	if qOK && qFound {
		pathEnd = q
		g.cnt["line:query"]++
	}
	last := mkElem(F, mkAddC(mkLen(F), -1), byteType)
	protoOK := func(t *Term) bool {
		lo := mkAddC(sp, 1)
		if f.le(mkLen(F), lo) {
			return g.p.must(mkIntEq(mkLen(t), tZeroInt))
		}
		set := f.byteSet(last)
		switch {
		case set == maskOf('\r'):
			return g.p.isSlice(t, F, lo, mkAddC(mkLen(F), -1))
		case set.and(maskOf('\r')).empty():
			return g.p.isSlice(t, F, lo, mkLen(F))
		}
		return false
	}
	if dec != nil && !g.good(qOK && g.p.isSlice(dec.Args[0], F, tZeroInt, pathEnd), "target:path", "the path is taken to be %s", dec.Args[0]) {
		return false
	}
	if dec != nil {
		own, _, _ := seqParts(f.canon(dec.Args[1]))
		g.good(own == F && g.p.must(mkIntEq(mkLen(dec.Args[1]), tZeroInt)) || g.p.must(mkEq(dec.Args[1], tNil)) || isFreshObj(own), "target:path:memory", "the path is decoded into %s", dec.Args[1])
	}
	if pf != nil && !g.good(protoOK(pf.Args[0]), "target:protocol:text", "the protocol is taken to be %s", pf.Args[0]) {
		return false
	}
	if g.anyError() {
		noPath := qOK && f.le(pathEnd, tZeroInt)
		undec := dec != nil && g.p.mustNot(mkEq(dec.Res[1], tNil))
		unk := pf != nil && g.p.must(mkIntEq(pf.Res[0], g.unkProto))
		switch {
		case noPath && g.isError("ErrBadRequest"):
		case undec && g.p.equal(g.p.Results[2], dec.Res[1]):
		case unk && g.isError("ErrUnsupportedProtocol"):
			// the version the answer is given in
			a := addrOf(g.request, "Proto")
			_ = a
		default:
			g.bad("target:refused", "a well-formed request line is refused as %s", g.p.Results[2])
		}
		return false
	}
	if !g.good(dec != nil && pf != nil && qOK, "target:complete", "the path or protocol is not looked at") {
		return false
	}
	g.good(f.lt(tZeroInt, pathEnd), "target:empty", "an empty path is accepted")
	g.good(g.p.must(mkEq(dec.Res[1], tNil)), "target:decoded", "a path that can't be decoded is accepted")
	g.good(g.p.mustNot(mkIntEq(pf.Res[0], g.unkProto)), "target:protocol:known", "an unknown protocol is accepted")
	if qFound {
		g.good(qs != nil && g.p.isSlice(qs.Args[1], F, mkAddC(q, 1), sp) && g.isField(qs.Args[0], "Query"), "target:query", "the query isn't kept")
	} else {
		g.good(qs == nil || g.p.must(mkIntEq(mkLen(qs.Args[1]), tZeroInt)), "target:query", "a query is made up")
	}
	g.path, g.proto = dec.Res[0], pf.Res[0]
	g.cnt["line:path"]++
	g.at = mkAddC(lf, 1)
	g.m = pKey
	return true
}

func (g *pSim) isField(t *Term, name string) bool {
	a := addrOf(g.request, name)
	return a != nil && (g.p.equal(t, g.s0.clone().load(a, deref(a.typ))) || t == a)
}

// firstByteIn: the first such byte of base[pos:end].
func (f *Facts) firstByteIn(base, pos, end *Term, bytes ...byte) (at *Term, found, ok bool) {
	m := maskOf(bytes...)
	for _, el := range f.elemAtoms() {
		if el.args[0] != base {
			continue
		}
		k := el.args[1]
		if f.byteSet(el).sub(m) && f.le(pos, k) && f.lt(k, end) && f.segAll(base, pos, k, m.not()) {
			return k, true, true
		}
	}
	if f.segAll(base, pos, end, m.not()) {
		return end, false, true
	}
	return nil, false, false
}

func (g *pSim) simKey() bool {
	f := g.f
	g.peek()
	if g.dead {
		return false
	}
	if g.empty() {
		g.waits(pKey)
		return false
	}
	if !g.good(f.lt(g.at, mkLen(g.data)), "key:data", "whether there is data is not looked at") {
		return false
	}
	b0 := f.byteSet(mkElem(g.data, g.at, byteType))
	switch g.segEmpty("key") {
	case 1:
		if b0 == maskOf('\n') {
			g.at = mkAddC(g.at, 1)
			g.ends()
			return false
		}
		if b0 == maskOf('\r') {
			g.at = mkAddC(g.at, 1)
			g.m = pEndCR
			return true
		}
		if !g.good(b0.and(maskOf('\r', '\n')).empty(), "key:empty-line", "an empty line is not looked for") {
			return false
		}
	case -1:
		// whether it's the start of the line makes no difference only if it isn't a line break
		if !b0.and(maskOf('\r', '\n')).empty() {
			g.bad("key:line-start", "whether a line break ends the head is decided without knowing whether the line is empty")
			return false
		}
	}
	colon, found, ok := f.firstByte(g.data, g.at, ':')
	if !ok {
		g.bad("key:end", "whether the name ends in the data is not settled")
		return false
	}
	to := mkLen(g.data)
	if found {
		to = colon
	}
	switch g.append("key", to) {
	case 0:
		g.good(g.isError("ErrHeaderFieldsTooLarge"), "key:too-long", "a name too long is not refused as such")
		return false
	case -1:
		if g.above("key", "MaxKeyLength", nil) {
			g.good(g.isError("ErrHeaderFieldsTooLarge"), "key:too-long", "a name too long is not refused as such")
			return false
		}
		g.bad("key:kept", "a part of the name is not kept")
		return false
	}
	g.peek()
	if g.above("key", "MaxKeyLength", nil) {
		g.good(g.isError("ErrHeaderFieldsTooLarge"), "key:too-long", "a name too long is not refused as such")
		return false
	}
	if !found {
		g.good(g.within("key", "MaxKeyLength", nil), "key:limit", "a name is kept although it may exceed the limit")
		g.waits(pKey)
		return false
	}
	key := g.finish("key")
	if key == nil {
		g.bad("key:whole", "the name is not put together")
		return false
	}
	g.peek()
	if g.above("key", "MaxKeyLength", key) {
		g.good(g.isError("ErrHeaderFieldsTooLarge"), "key:too-long", "a name too long is not refused as such")
		return false
	}
	g.good(g.within("key", "MaxKeyLength", key), "key:limit", "a name is accepted although it may exceed the limit")
	g.stores()
	clean := f.segAll(key, tZeroInt, mkLen(key), maskOf('\r', '\n').not())
	// the counter of headers
	var tooMany, counted bool
	for _, a := range g.mutable {
		t := deref(a.typ)
		if !isIntType(t) {
			continue
		}
		was := g.s0.clone().load(a, t)
		now := g.p.S.clone().load(a, t)
		for _, l := range g.limits("Maximal") {
			if g.f.lt(l, mkAddC(was, 1)) {
				tooMany = true
			}
			if g.f.eqInt(now, mkAddC(was, 1)) && g.f.le(now, l) {
				counted = true
			}
		}
	}
	if g.isError("ErrTooManyHeaders") {
		g.good(tooMany, "too-many", "headers within the limit are refused as too many")
		g.cnt["head:too-many"]++
		return false
	}
	if g.isError("ErrBadRequest") && g.peek() == nil && !clean {
		broken := false
		for _, el := range f.elemAtoms() {
			if el.args[0] == key && f.byteSet(el).sub(maskOf('\r', '\n')) {
				broken = true
			}
		}
		g.good(broken, "bad-key", "a well-formed name is refused")
		g.cnt["head:bad-key"]++
		return false
	}
	if !g.good(clean, "key:line-break", "a name reaching over a line break is accepted") {
		return false
	}
	g.good(counted, "count", "the number of headers isn't limited")
	g.key = key
	g.at = mkAddC(colon, 1)
	g.cnt["head:key"]++
	yes, no := g.keyIs("content-length")
	switch {
	case yes:
		g.m = pLength
	case no:
		g.m = pValue
	default:
		g.cat = "length"
		g.bad("recognised", "a name is neither recognised as Content-Length nor known to be another one")
		return false
	}
	if yes {
		g.entered = true
		return g.enterLength()
	}
	return true
}

// keyIs: the name equals the word up to case on the path, or doesn't.
func (g *pSim) keyIs(word string) (yes, no bool) {
	f := g.f
	key := f.canon(g.key)
	eqf := mk(Term{op: OEqFold, args: []*Term{key, mkStr(word)}, typ: types.Typ[types.Bool]})
	for _, l := range f.lits {
		t := l.t
		if t.op == OEqFold {
			for i := 0; i < 2; i++ {
				if s, ok := t.args[i].isStr(); ok && f.canon(t.args[1-i]) == key {
					if strings.EqualFold(s, word) {
						return l.v, !l.v
					} else if l.v {
						return false, true
					}
				}
			}
		}
		if t.op == OEq {
			for i := 0; i < 2; i++ {
				o := t.args[1-i]
				if s, ok := t.args[i].isStr(); ok && o.op == OCall && strings.HasSuffix(o.name, "ToLower") && len(o.args) == 1 && f.canon(o.args[0]) == key {
					if s == word {
						return l.v, !l.v
					} else if l.v {
						return false, true
					}
				}
			}
		}
		_ = eqf
	}
	n := int64(len(word))
	if g.p.mustNot(mkIntEq(mkLen(key), mkInt(n))) {
		return false, true
	}
	yes = g.p.must(mkIntEq(mkLen(key), mkInt(n)))
	sets := make([]mask, n)
	for i := int64(0); i < n; i++ {
		lo, up := word[i], word[i]
		if lo >= 'a' && lo <= 'z' {
			up = lo - 32
		}
		el := mkElem(key, mkInt(i), byteType)
		m := f.byteSet(el)
		if !m.sub(maskOf(lo, up)) {
			yes = false
		}
		if sets[i] = m.and(maskOf(lo, up)); sets[i].empty() {
			return false, true
		}
	}
	if yes {
		return true, false
	}
	// a condition that fails for every spelling
	for _, l := range f.lits {
		var pos []int64
		for i := int64(0); i < n; i++ {
			if contains(l.t, mkElem(key, mkInt(i), byteType)) {
				pos = append(pos, i)
			}
		}
		if len(pos) == 0 && !contains(l.t, mkLen(key)) || len(pos) > 10 {
			continue
		}
		all := true
		for v := 0; v < 1<<len(pos) && all; v++ {
			env := map[*Term]int64{mkLen(key): n}
			skip := false
			for j, i := range pos {
				b := word[i]
				if v>>j&1 == 1 {
					if b < 'a' || b > 'z' {
						skip = true
						break
					}
					b -= 32
				}
				if !sets[i].has(b) {
					skip = true
					break
				}
				env[mkElem(key, mkInt(i), byteType)] = int64(b)
			}
			if skip {
				continue
			}
			r, ok := foldInt(l.t, env)
			if !ok || (r != 0) == l.v {
				all = false
			}
		}
		if all {
			return false, true
		}
	}
	return false, false
}

func (g *pSim) simValue() bool {
	f := g.f
	g.peek()
	lf, found, ok := f.firstByte(g.data, g.at, '\n')
	if !ok {
		g.bad("value:end", "whether the value ends in the data is not settled")
		return false
	}
	to := mkLen(g.data)
	if found {
		to = lf
	}
	switch g.append("value", to) {
	case 0:
		g.good(g.isError("ErrHeaderFieldsTooLarge"), "value:too-long", "a value too long is not refused as such")
		return false
	case -1:
		if g.above("value", "MaxValueLength", nil) {
			g.good(g.isError("ErrHeaderFieldsTooLarge"), "value:too-long", "a value too long is not refused as such")
			return false
		}
		g.bad("value:kept", "a part of the value is not kept")
		return false
	}
	g.peek()
	if g.dead {
		return false
	}
	if g.above("value", "MaxValueLength", nil) {
		g.good(g.isError("ErrHeaderFieldsTooLarge"), "value:too-long", "a value too long is not refused as such")
		return false
	}
	if !found {
		g.good(g.within("value", "MaxValueLength", nil), "value:limit", "a value is kept although it may exceed the limit")
		g.waits(pValue)
		return false
	}
	F := g.finish("value")
	if F == nil {
		g.bad("value:whole", "the value is not put together")
		return false
	}
	g.peek()
	if g.above("value", "MaxValueLength", F) {
		g.good(g.isError("ErrHeaderFieldsTooLarge"), "value:too-long", "a value too long is not refused as such")
		return false
	}
	g.good(g.within("value", "MaxValueLength", F), "value:limit", "a value is accepted although it may exceed the limit")
	g.stores()
	ev := g.peek()
	if !g.good(ev != nil && ev.Fn == g.add, "value:added", "a header is not added to the request") {
		return false
	}
	g.evs = g.evs[1:]
	g.good(g.isField(ev.Args[0], "Headers"), "value:added:where", "a header is added to %s", ev.Args[0])
	if g.key == nil {
		k := f.canon(ev.Args[1])
		if !g.good(k.op == OLoad && k.args[0].op == OFieldAddr && k.args[0].args[0] == g.obj, "value:name", "the name of a value resumed is %s", k) {
			return false
		}
		g.keyAddr = k.args[0]
		g.key = k
	}
	g.good(g.p.equal(ev.Args[1], g.key), "value:name", "a value is added under %s instead of %s", ev.Args[1], g.key)
	v := ev.Args[2]
	g.good(g.trimmed(v, F), "value:text", "of the text %s, %s is added", F, v)
	g.cnt["head:value"]++
	g.at = mkAddC(lf, 1)
	g.m = pKey
	g.special(v)
	return true
}

// trimmed: v is the text without leading spaces and a trailing carriage return.
func (g *pSim) trimmed(v, F *Term) bool {
	if trimmedIn(g.f, v, F) {
		return true
	}
	_, lo, _ := seqParts(g.f.canon(v))
	for _, cond := range []*Term{mkLt(lo, mkLen(F)), mkLe(mkLen(F), lo)} {
		f := g.f.clone()
		if !f.assume(cond, true) || f.bad || f.refuteDeep(2) {
			continue
		}
		if !trimmedIn(f, v, F) {
			return false
		}
	}
	return true
}

func trimmedIn(f *Facts, v, F *Term) bool {
	b, lo, hi := seqParts(f.canon(v))
	if f.entails(mkIntEq(mkLen(v), tZeroInt)) {
		if f.segAll(F, tZeroInt, mkLen(F), maskOf(' ')) || b == F && f.le(mkLen(F), lo) && f.segAll(F, tZeroInt, lo, maskOf(' ')) {
			return true
		}
		last := mkAddC(mkLen(F), -1)
		return f.byteSet(mkElem(F, last, byteType)) == maskOf('\r') && f.segAll(F, tZeroInt, last, maskOf(' '))
	}
	if b != F || !f.segAll(F, tZeroInt, lo, maskOf(' ')) {
		return false
	}
	if !f.byteSet(mkElem(F, lo, byteType)).and(maskOf(' ')).empty() {
		return false
	}
	set := f.byteSet(mkElem(F, mkAddC(mkLen(F), -1), byteType))
	switch {
	case set == maskOf('\r'):
		return f.eqInt(hi, mkAddC(mkLen(F), -1))
	case set.and(maskOf('\r')).empty():
		return f.eqInt(hi, mkLen(F))
	}
	return false
}

// special: what a header means to the server.
func (g *pSim) special(v *Term) {
	cat := g.cat
	defer func() { g.cat = cat }()
	g.cat = "special"
	// what happens up to the next header
	var calls []*Event
	got := map[*Term]*Term{}
	for ev := g.peek(); ev != nil; ev = g.peek() {
		if ev.Kind == EvStore {
			if addrRoot(ev.Addr) == g.request && specialOf(g.request, ev.Addr) {
				got[ev.Addr] = ev.Val
			}
		} else if ev.Fn == g.choose || isEncodingParser(ev.Fn) {
			calls = append(calls, ev)
		} else {
			break
		}
		g.evs = g.evs[1:]
	}
	call := func(want func(*ssa.Function) bool) *Event {
		for _, ev := range calls {
			if want(ev.Fn) {
				for _, a := range ev.Args {
					if g.p.equal(a, v) {
						return ev
					}
				}
			}
		}
		return nil
	}
	is := func(val *Term) func(*Term) bool { return func(t *Term) bool { return g.p.equal(t, val) } }
	type eff struct {
		addr *Term
		ok   func(*Term) bool
	}
	req := g.request
	words := map[string]func() []eff{
		"upgrade": func() []eff {
			ev := call(func(f *ssa.Function) bool { return f == g.choose })
			if ev == nil {
				return nil
			}
			return []eff{{addrOf(req, "Upgrade"), is(ev.Res[0])}}
		},
		"trailer": func() []eff {
			return []eff{{addrOf(req, "Encoding", "HasTrailer"), func(t *Term) bool { return g.p.must(t) }}}
		},
		"connection":   func() []eff { return []eff{{addrOf(req, "Connection"), is(v)}} },
		"content-type": func() []eff { return []eff{{addrOf(req, "ContentType"), is(v)}} },
		"content-encoding": func() []eff {
			ev := call(isEncodingParser)
			if ev == nil {
				return nil
			}
			return []eff{{addrOf(req, "Encoding", "Content"), is(ev.Res[0])}}
		},
		"transfer-encoding": func() []eff {
			ev := call(isEncodingParser)
			if ev == nil {
				return nil
			}
			return []eff{{addrOf(req, "Encoding", "Transfer"), is(ev.Res[0])}, {addrOf(req, "Encoding", "Chunked"), is(ev.Res[1])}}
		},
	}
	matched := ""
	var names []string
	for w := range words {
		names = append(names, w)
	}
	sort.Strings(names)
	for _, w := range names {
		yes, no := g.keyIs(w)
		if yes {
			matched = w
			effs := words[w]()
			if !g.good(effs != nil, w, "the value of %s is not looked at", w) {
				return
			}
			for _, ef := range effs {
				g.good(got[ef.addr] != nil && ef.ok(got[ef.addr]), w, "%s is not taken over: %v", w, got[ef.addr])
				delete(got, ef.addr)
			}
			g.cnt["special:"+w]++
			for _, ev := range calls {
				if isEncodingParser(ev.Fn) {
					g.codingLimit(ev)
				}
				for _, a := range ev.Args {
					if a.typ != nil && typeStr(a.typ) == "[]string" {
						for o, t := range g.lists {
							g.good(o == w || t != a && !g.p.equal(t, a), "list:memory", "%s and %s share their memory", o, w)
						}
						g.lists[w] = a
					}
				}
			}
			break
		}
		g.good(no, w, "%s may go unnoticed", w)
	}
	for a := range got {
		g.bad("others", "a header (%s) changes %s", matched, a)
	}
}

// codingLimit: as many codings as configured are taken
func (g *pSim) codingLimit(ev *Event) {
	var lim *Term
	for _, a := range ev.Args {
		if a.typ != nil && isIntType(a.typ) {
			lim = a
		} else if lim == nil && a.typ != nil && typeStr(a.typ) == "[]string" {
			lim = mkCap(a)
		}
	}
	if lim == nil {
		return // nothing limits them
	}
	lim = g.f.canon(lim)
	if lim.op == OCap && lim.args[0].op == OLoad && lim.args[0].args[0].op == OFieldAddr && lim.args[0].args[0].args[0] == g.obj {
		if g.codingCaps == nil {
			g.codingCaps = map[*Term]token.Pos{}
		}
		g.codingCaps[lim.args[0].args[0]] = ev.Pos
		return
	}
	want := g.configured("MaxEncodingTokens")
	g.good(want != nil && g.p.equal(lim, want) || strings.HasSuffix(lim.String(), ".MaxEncodingTokens"), "list:limit", "the number of codings is limited to %s", lim)
}

// configured: an option of the headers' configuration, as the constructor got it
func (x *parserCheck) configured(name string) *Term {
	for _, p := range x.ctor.Params {
		st := structOf(p.Type())
		if ptr, ok := p.Type().Underlying().(*types.Pointer); ok {
			st = structOf(ptr.Elem())
			for i := 0; st != nil && i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					return x.ctorState.clone().load(mkFieldAddr(paramSym(p), i, st, ptr.Elem()), st.Field(i).Type())
				}
			}
			continue
		}
		for i := 0; st != nil && i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return mkFieldVal(paramSym(p), i, st.Field(i).Type())
			}
		}
	}
	return nil
}

// capacities: the fields whose capacity is the limit have the configured one, and keep it
func (x *parserCheck) capacities() {
	want := x.configured("MaxEncodingTokens")
	for a, pos := range x.codingCaps {
		got := mkCap(x.ctorState.F.canon(x.ctorField(int(a.n))))
		x.ob(want != nil && x.ctorState.F.eqInt(got, want), "special:list:limit", x.ctor.Pos(), "the number of codings is limited to %s", got)
		was := mkCap(x.s0.clone().load(a, deref(a.typ)))
		for _, r := range x.runs {
			for _, p := range r.paths {
				for _, ev := range p.S.events {
					if ev.Kind == EvStore && ev.Addr == a {
						x.ob(p.S.F.eqInt(mkCap(p.S.F.canon(ev.Val)), was), "special:list:limit", ev.Pos, "the limit on the number of codings changes from one request to the next")
					}
				}
			}
		}
		_ = pos
	}
}

func (g *pSim) simCR(next pMeaning) bool {
	g.peek()
	if g.empty() {
		g.waits(g.m)
		return false
	}
	b := g.f.byteSet(mkElem(g.data, g.at, byteType))
	if !g.f.lt(g.at, mkLen(g.data)) {
		g.bad("cr:data", "whether there is data is not looked at")
		return false
	}
	switch {
	case b == maskOf('\n'):
		g.at = mkAddC(g.at, 1)
		if next == pNone {
			g.ends()
			return false
		}
		g.m = next
		return true
	case b.and(maskOf('\n')).empty():
		g.good(g.isError("ErrBadRequest"), "cr:refused", "a carriage return that isn't followed by a line feed is accepted")
	default:
		g.bad("cr:checked", "what follows a carriage return is not looked at")
	}
	return false
}

// ends: the head is complete, the rest handed back, and everything ready for the next request.
func (g *pSim) ends() {
	cleared := map[*Term]bool{}
	for ev := g.peek(); ev != nil; ev = g.peek() {
		if bufOp(ev) == "Clear" {
			cleared[g.f.canon(ev.Args[0])] = true
		} else if ev.Kind != EvStore {
			g.bad("done:nothing-else", "%s is called at the end of the head", ev)
			return
		}
		g.evs = g.evs[1:]
	}
	if g.dead {
		return
	}
	if !g.good(g.p.Kind == PReturn && g.p.equal(g.p.Results[0], g.done) && g.p.must(mkEq(g.p.Results[2], tNil)), "done", "the end of the head isn't reported") {
		return
	}
	g.good(g.p.isSlice(g.p.Results[1], g.data, g.at, mkLen(g.data)), "done:rest", "behind the head, %s is handed back", g.p.Results[1])
	for _, prm := range g.ctor.Params {
		if strings.HasSuffix(typeStr(prm.Type()), "buffer.Buffer") {
			g.good(cleared[paramSym(prm)], "done:buffers", "the buffer %s is not cleared for the next request", prm.Name())
		}
	}
	st := structOf(deref(g.obj.typ))
	s := g.p.S.clone()
	for _, a := range g.mutable {
		i := int(a.n)
		was := g.ctorField(i)
		now := s.load(a, st.Field(i).Type())
		switch {
		case g.p.equal(now, was):
		case isStringish(now.typ) || isSliceType(now.typ):
			// the memory may stay; names are set before they are used
			_, isStr := st.Field(i).Type().Underlying().(*types.Basic)
			cat := "head"
			if isSliceType(now.typ) {
				cat = "special"
			}
			g.ob(isStr || g.p.must(mkIntEq(mkLen(now), mkLen(was))), cat+":done:state", g.p.Pos, "%s is %s for the next request", st.Field(i).Name(), now)
		default:
			cat := "head"
			if a == g.lenAddr || g.stageVals[a] != nil || g.lenAddr == nil && a != g.stateAddr {
				cat = "length"
			}
			g.ob(false, cat+":done:state", g.p.Pos, "%s is %s for the next request instead of %s", st.Field(i).Name(), now, was)
			if cat == "length" {
				g.ob(false, "head:done:state", g.p.Pos, "%s is %s for the next request instead of %s", st.Field(i).Name(), now, was)
			}
		}
	}
	g.final()
	g.cnt["head:done"]++
}

func isSliceType(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// ---- Content-Length

const (
	clAbsent = iota + 1
	clLead
	clDigits
	clTrail
)

var clNames = []string{"", "no content length seen", "before the digits", "inside the digits", "behind the digits"}

// valuations: the combinations of the stage fields' values possible on the path.
func (x *parserCheck) valuations() (out [][]int64) {
	out = [][]int64{nil}
	for _, a := range x.stages {
		var nx [][]int64
		for _, v := range out {
			for _, k := range x.stageVals[a] {
				nx = append(nx, append(append([]int64{}, v...), k))
			}
		}
		out = nx
	}
	return
}

func constLike(k int64, t *Term) *Term {
	if isBoolTerm(t) {
		return mkBool(k != 0)
	}
	return mkInt(k)
}

func eqConst(t *Term, k int64) *Term {
	if isBoolTerm(t) {
		if k != 0 {
			return t
		}
		return mkNot(t)
	}
	return mkIntEq(t, mkInt(k))
}

func isBoolTerm(t *Term) bool {
	b, ok := t.typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// possible: the valuations of the terms that the facts leave open.
func (x *parserCheck) possible(f *Facts, ts []*Term) (out [][]int64) {
	for _, v := range x.valuations() {
		g := f.clone()
		ok := true
		for i, t := range ts {
			if ok = g.assume(eqConst(t, v[i]), true) && !g.bad; !ok {
				break
			}
		}
		if ok && !g.refuteDeep(2) {
			out = append(out, v)
		}
	}
	return
}

func vkey(v []int64) string { return fmt.Sprint(v) }

// stageNow: the stage fields at the end of the path.
func (g *pSim) stageNow() (out []*Term) {
	s := g.p.S.clone()
	for _, a := range g.stages {
		out = append(out, s.load(a, deref(a.typ)))
	}
	return
}

func (g *pSim) stageStart() (out []*Term) {
	s := g.s0.clone()
	for _, a := range g.stages {
		out = append(out, s.load(a, deref(a.typ)))
	}
	return
}

// stageIs: the valuation has the meaning, which it gets when it has none yet.
func (g *pSim) stageIs(v []int64, m int) bool {
	k := vkey(v)
	if g.stageMean[k] == 0 {
		g.stageMean[k] = m
	}
	return g.stageMean[k] == m
}

func (g *pSim) enterLength() bool {
	g.cat = "length"
	g.stores()
	start := g.stageStart()
	// the first one is known by the stage of a fresh parser
	fresh, other := false, false
	for _, v := range g.possible(g.f, start) {
		if vkey(v) == g.stageInit {
			fresh = true
		} else {
			other = true
		}
	}
	if len(g.stages) == 0 {
		g.bad("duplicate", "nothing tells a second content length from the first one")
		return false
	}
	if !fresh {
		g.cnt["length:duplicate"]++
		g.good(g.isError("ErrBadRequest") && g.peek() == nil, "duplicate", "a second content length is not refused")
		return false
	}
	return g.good(!other, "duplicate", "a second content length is not told from the first one")
}

// digitLoop: the loop over the digits the path is in or has left.
func (g *pSim) digitLoop() (rec *LoopRec, pos, next *Term, val *LoopVar) {
	for i := len(g.p.S.loopSeq) - 1; i >= 0; i-- {
		r := g.p.S.loopSeq[i]
		if r.Entry == nil {
			continue
		}
		if val = tenfold(r); val == nil {
			continue
		}
		for _, v := range r.Vars {
			if v == val {
				continue
			}
			if isNumTerm(v.Cur) && v.phi != nil {
				if e, ok := v.Entry.isInt(); ok {
					p := mkAddC(mkAdd(g.at, v.Cur), -e)
					if g.loopReads(r, p) {
						pos = p
						if n := g.p.Next[v.Name]; n != nil && g.p.Loop == r {
							next = mkAddC(mkAdd(g.at, n), -e)
						}
					}
				} else if g.f.eqInt(v.Entry, g.at) && g.loopReads(r, v.Cur) {
					pos = v.Cur
					if n := g.p.Next[v.Name]; n != nil && g.p.Loop == r {
						next = n
					}
				}
			} else if isByteSeq(v.typ) {
				b, lo, hi := seqParts(v.Entry)
				cb, cl, _ := seqParts(v.Cur)
				if b == g.data && cb == g.data && g.f.eqInt(lo, g.at) && g.f.eqInt(hi, mkLen(g.data)) && g.loopReads(r, cl) {
					pos = cl
					if n := g.p.Next[v.Name]; n != nil && g.p.Loop == r {
						nb, nl, nh := seqParts(g.f.canon(n))
						if g.f.entails(mkIntEq(mkLen(n), tZeroInt)) {
							next = mkLen(g.data)
						} else if nb == g.data && g.f.eqInt(nh, mkLen(g.data)) {
							next = nl
						}
					}
				}
			}
		}
		return r, pos, next, val
	}
	return nil, nil, nil, nil
}

func digitLoopRec(r *LoopRec) bool { return tenfold(r) != nil }

// tenfold: the variable that grows by a digit.
func tenfold(r *LoopRec) *LoopVar {
	for _, v := range r.Vars {
		if !isNumTerm(v.Cur) {
			continue
		}
		for _, q := range r.Backs {
			n := q.Next[v.Name]
			if n == nil || n == v.Cur {
				continue
			}
			if d := mkSub(n, mkScale(v.Cur, 10)); !contains(d, v.Cur) && contains(n, v.Cur) {
				return v
			}
		}
	}
	return nil
}

// loopReads: iterations look at the byte at the position.
func (g *pSim) loopReads(r *LoopRec, pos *Term) bool {
	for _, q := range r.Backs {
		for _, el := range q.S.F.elemAtoms() {
			if el.args[0] == g.data && q.S.F.eqInt(el.args[1], pos) {
				return true
			}
		}
	}
	return false
}

func (g *pSim) simLength() bool {
	f := g.f
	rec, pos, next, val := g.digitLoop()
	if rec == nil || pos == nil {
		if g.p.Kind == PBackEdge {
			return false
		}
		g.bad("digits", "no loop collects the digits")
		return false
	}
	st := rec.Entry
	// the value and the stage as of the head
	stage := make([]*Term, len(g.stages))
	nextStage := make([]*Term, len(g.stages))
	end := g.p.S.clone()
	for i, a := range g.stages {
		t := deref(a.typ)
		in := st.clone().load(a, t)
		stage[i] = rec.HeadS.clone().load(a, t)
		nextStage[i] = end.load(a, t)
		for _, v := range rec.Vars {
			if v.phi != nil && v.Entry == in && v != val && types.Identical(v.typ, t) {
				stage[i] = v.Cur
				nextStage[i] = g.p.Next[v.Name]
			}
		}
		if vkey1, ok := constOf64(in); ok && g.entered {
			g.entry = append(g.entry, vkey1)
		}
	}
	if g.entered {
		if !g.good(len(g.entry) == len(g.stages) && g.stageIs(g.entry, clLead), "entry", "where a content length starts is not settled") {
			return false
		}
	}
	// the value starts at zero, or goes on with what was kept
	if g.lenAddr == nil {
		if val.addr != nil {
			g.setLenAddr(val.addr)
		} else if v := g.f.canon(val.Entry); v.op == OLoad {
			g.setLenAddr(v.args[0])
		}
	}
	was := g.f.canon(val.Entry)
	zero := g.p.must(mkIntEq(was, tZeroInt))
	kept := g.lenAddr != nil && was == g.s0.clone().load(g.lenAddr, deref(g.lenAddr.typ))
	if !g.good(kept || zero && g.entered, "start", "the value starts from %s", was) {
		return false
	}
	open := g.possible(f, stage)
	has := func(m int) bool {
		for _, v := range open {
			if g.stageMean[vkey(v)] == m {
				return true
			}
		}
		return false
	}
	if g.p.Kind == PBackEdge && g.p.Loop == rec {
		if !g.good(f.lt(pos, mkLen(g.data)) && next != nil && f.eqInt(next, mkAddC(pos, 1)), "step", "the digits are not walked one by one") {
			return false
		}
		set := f.byteSet(mkElem(g.data, pos, byteType))
		nv := g.p.Next[val.Name]
		c := mkElem(g.data, pos, byteType)
		g.steps = append(g.steps, func() {
			for _, v := range g.possible(f, stage) {
				m := g.stageMean[vkey(v)]
				if m == 0 || m == clAbsent {
					continue // cannot be while a content length is read
				}
				h := f.clone()
				for i, t := range stage {
					h.assume(eqConst(t, v[i]), true)
				}
				want := clDigits
				if set == maskOf(' ') {
					want = m
					if m == clDigits {
						want = clTrail
					}
				} else if m == clTrail {
					g.bad("digits:space", "digits behind a space are accepted")
					continue
				}
				var nx []int64
				for _, t := range nextStage {
					for _, k := range g.valuesOf(h, t) {
						nx = append(nx, k)
					}
				}
				g.good(len(nx) == len(stage) && g.stageIs(nx, want), "digits:stage", "having been %s, the parser takes itself for %v", clNames[m], nx)
			}
		})
		switch {
		case set == maskOf(' '):
			g.good(f.eqInt(nv, val.Cur), "space", "a space changes the value to %s", nv)
			g.cnt["length:space"]++
		case set.sub(digitMask()):
			g.good(f.eqInt(nv, mkAdd(mkScale(val.Cur, 10), mkAddC(c, -'0'))), "digit", "a digit turns %s into %s", val.Cur, nv)
			g.good(f.le(val.Cur, mkInt((math.MaxInt64-9)/10)), "overflow", "the value may overflow")
			g.cnt["length:digit"]++
		default:
			g.bad("step:byte", "something else than a digit is passed over")
		}
		return false
	}
	g.length = val.Cur
	g.passed = true
	g.at = pos
	if f.le(mkLen(g.data), pos) {
		g.length = nil
		g.lenKept = val.Cur
		g.stageKept = stage
		g.waits(pLength)
		return false
	}
	if !g.good(f.lt(pos, mkLen(g.data)), "digits:data", "whether there is data is not looked at") {
		return false
	}
	set := f.byteSet(mkElem(g.data, pos, byteType))
	if set.sub(digitMask()) {
		g.later(func() {
			ok := true
			for _, v := range open {
				if m := g.stageMean[vkey(v)]; m == clLead || m == clDigits {
					ok = false
				}
			}
			g.cat = "length"
			g.good(g.isError("ErrBadRequest") && (ok || f.le(mkInt(1<<50), val.Cur)), "digit:refused", "a digit is refused")
		})
		return false
	}
	if !g.good(set.and(digitMask()).empty() && !set.has(' '), "digits:end", "the digits end early") {
		return false
	}
	leadOnly := len(open) > 0
	for _, v := range open {
		if g.stageMean[vkey(v)] != clLead {
			leadOnly = false
		}
	}
	if leadOnly {
		g.good(g.isError("ErrBadRequest"), "none", "a content length without digits is accepted")
		return false
	}
	g.later(func() {
		g.cat = "length"
		g.good(!has(clLead), "none", "a content length without digits is accepted")
	})
	g.stageKept = stage
	switch {
	case set == maskOf('\r'):
		g.m = pLengthCR
	case set == maskOf('\n'):
		g.m = pKey
	default:
		g.good(set.and(maskOf('\r', '\n')).empty() && g.isError("ErrBadRequest"), "end", "a content length may be followed by anything")
		return false
	}
	g.cnt["length:stored"]++
	g.at = mkAddC(pos, 1)
	return true
}

func digitMask() mask { return maskOf('0', '1', '2', '3', '4', '5', '6', '7', '8', '9') }

func constOf64(t *Term) (int64, bool) {
	if k, ok := t.isInt(); ok {
		return k, true
	}
	if t == tTrue {
		return 1, true
	}
	if t == tFalse {
		return 0, true
	}
	return 0, false
}

// valuesOf: the value of a stage field, if settled.
func (g *pSim) valuesOf(f *Facts, t *Term) []int64 {
	if t == nil {
		return nil
	}
	if k, ok := constOf64(f.canon(t)); ok {
		return []int64{k}
	}
	for _, a := range g.stages {
		for _, k := range g.stageVals[a] {
			if isBoolTerm(t) == isBoolTerm(constLike(k, t)) && f.entails(eqConst(t, k)) {
				return []int64{k}
			}
		}
	}
	return nil
}

func (x *parserCheck) setLenAddr(a *Term) {
	if a.op == OFieldAddr && a.args[0] == x.obj && a != x.stateAddr {
		x.lenAddr = a
	}
}

func (g *pSim) later(fn func()) { g.late = append(g.late, fn) }

// lengthState: what is kept of a content length between calls.
func (g *pSim) lengthState() {
	cat := g.cat
	g.cat = "length"
	defer func() { g.cat = cat }()
	now, start := g.stageNow(), g.stageStart()
	if !g.passed {
		for i := range now {
			g.good(g.p.equal(now[i], start[i]), "state", "%s changes without a content length", g.stages[i])
		}
		g.later(func() {
			if g.lenAddr == nil {
				return
			}
			t := deref(g.lenAddr.typ)
			g.ob(g.p.equal(g.p.S.clone().load(g.lenAddr, t), g.s0.clone().load(g.lenAddr, t)), "length:state", g.p.Pos, "the value changes without a content length (path: %s)", g.p.describe(g.Ctx))
		})
		return
	}
	if g.lenKept != nil && g.lenAddr != nil {
		g.good(g.p.equal(g.p.S.clone().load(g.lenAddr, deref(g.lenAddr.typ)), g.lenKept), "kept", "the value is not kept")
	}
	for i := range now {
		g.good(g.p.equal(now[i], g.stageKept[i]), "kept", "where in the content length the data ended is not kept")
	}
}

// encodingList: a list of codings is taken apart at its commas, what surrounds a coding is dropped along
// with empty ones, and whether one of them is chunked is reported.
func (c *Ctx) encodingList(pkg string) {
	n := 0
	for _, f := range c.P.RepoFuncs() {
		if f.Parent() == nil && isEncodingParser(f) && len(f.Blocks) > 0 {
			n++
			c.encodingParser(f)
		}
	}
	c.ob(n > 0, "special:list", token.NoPos, "nothing takes a list of codings apart")
}

func (c *Ctx) encodingParser(fn *ssa.Function) {
	e := c.engine()
	e.Bounds = true
	var buff, value, max *Term
	args := make([]*Term, len(fn.Params))
	for i, p := range fn.Params {
		args[i] = paramSym(p)
		switch {
		case typeStr(p.Type()) == "[]string":
			buff = args[i]
		case isByteSeq(p.Type()) || isStringish(p.Type()):
			value = args[i]
		case isIntType(p.Type()):
			max = args[i]
		}
	}
	if !c.ob(value != nil, "special:list", fn.Pos(), "a list of codings is taken apart without a list") {
		return
	}
	s := newState()
	if buff != nil {
		s.F.assume(mkIntEq(mkLen(buff), tZeroInt), true)
		s.F.assume(mkLe(tZeroInt, mkCap(buff)), true)
	}
	ps := c.run(e, s, fn, args)
	ws := maskOf(' ', '\t', '\r', '\n', '\v', '\f')
	// the coding in base[at:end): its bounds, or nothing
	empty := func(f *Facts, base, at, end *Term) bool { return f.segAll(base, at, end, ws) }
	coding := func(p *Path, t, base, at, end *Term) bool {
		f := p.S.F
		b, lo, hi := seqParts(f.canon(t))
		if b != base || !f.le(at, lo) || !f.lt(lo, hi) || !f.le(hi, end) || !f.segAll(base, at, lo, ws) || !f.segAll(base, hi, end, ws) {
			return false
		}
		return f.byteSet(mkElem(base, lo, byteType)).and(maskOf(' ')).empty() && f.byteSet(mkElem(base, mkAddC(hi, -1), byteType)).and(maskOf(' ')).empty()
	}
	best := "no loop walks the list"
	isNil := func(p *Path) bool { return p.must(mkIntEq(mkLen(p.Results[0]), tZeroInt)) && p.mustNot(p.Results[1]) }
	for _, cu := range cursorsOf(ps, value) {
		for _, ov := range loopVars(ps, func(v *LoopVar) bool { return typeStr(v.typ) == "[]string" }) {
			for _, cv := range loopVars(ps, func(v *LoopVar) bool { return isBoolType(v.typ) }) {
				bad := ""
				fail := func(p *Path, m string) {
					if bad == "" {
						bad = m + " (path: " + p.describe(c) + ")"
					}
				}
				steps, hits, over := 0, 0, 0
				for _, p := range ps {
					if p.Kind == PPanic {
						fail(p, "a panic")
						continue
					}
					if !cu.entryOK(p, value) {
						fail(p, "the walk does not start with the first coding")
					}
					base, at := cu.head(p, value)
					f := p.S.F
					o, ch := p.loopVar(ov), p.loopVar(cv)
					if p.Kind == PBackEdge && p.Next[cu.name] == nil {
						continue
					}
					if o == nil || ch == nil {
						if p.Kind != PReturn || !f.eqInt(mkLen(value), tZeroInt) || !isNil(p) {
							fail(p, "a list is not walked")
						}
						continue
					}
					if !f.entails(mkIntEq(mkLen(o.Entry), tZeroInt)) || ch.Entry != tFalse {
						fail(p, "the result does not start out empty")
					}
					if p.Kind == PReturn && f.le(mkLen(base), at) {
						if !p.equal(p.Results[0], o.Cur) || !p.equal(p.Results[1], ch.Cur) {
							fail(p, "the result is "+p.Results[0].String()+", "+p.Results[1].String())
						}
						continue
					}
					end, comma, ok := f.firstByte(base, at, ',')
					if !ok {
						fail(p, "the end of a coding is not settled")
						continue
					}
					if p.Kind == PReturn {
						// too many
						over++
						if !isNil(p) {
							fail(p, "a list with too many codings is accepted")
						}
						many := empty(f, base, at, end) == false
						lim := max
						if lim == nil && buff != nil {
							lim = mkCap(buff)
						}
						if lim == nil || !many || !f.lt(lim, mkAddC(mkLen(o.Cur), 1)) {
							fail(p, "a list is refused")
						}
						continue
					}
					steps++
					nx := cu.next(p, value)
					want := end
					if comma {
						want = mkAddC(end, 1)
					}
					if nx == nil || !f.eqInt(nx, want) && !(!comma && f.le(mkLen(base), nx)) {
						fail(p, "the walk does not continue behind the coding")
					}
					no, nc := f.canon(p.Next[ov]), f.canon(p.Next[cv])
					if empty(f, base, at, end) {
						if !p.equal(no, o.Cur) || !p.equal(nc, ch.Cur) {
							fail(p, "an empty coding is taken for one")
						}
						continue
					}
					var tok *Term
					if pre := mkLen(o.Cur); f.eqInt(mkLen(no), mkAddC(pre, 1)) {
						tok = f.canon(mkElem(no, pre, types.Typ[types.String]))
					}
					if tok == nil || !p.equal(no, mkConcat(o.Cur, mkElems([]*Term{tok}))) || !coding(p, tok, base, at, end) {
						fail(p, "a coding is kept as "+no.String())
						continue
					}
					hits++
					if max != nil && !f.le(mkAddC(mkLen(o.Cur), 1), max) {
						fail(p, "more codings than allowed are kept")
					}
					is := mkEqFold(tok, mkStr("chunked"))
					switch {
					case p.must(is):
						if !p.must(nc) {
							fail(p, "chunked goes unnoticed")
						}
					case p.mustNot(is):
						if !p.equal(nc, ch.Cur) {
							fail(p, "another coding is taken for chunked")
						}
					case p.must(ch.Cur) && p.must(nc), p.mustNot(ch.Cur) && p.equal(nc, is):
					default:
						fail(p, "whether a coding is chunked is not looked at")
					}
				}
				if bad == "" && (steps == 0 || hits == 0) {
					bad = "no iteration"
				}
				if bad == "" && over == 0 && max != nil {
					bad = "the number of codings is not limited"
				}
				if bad == "" {
					c.ob(true, "special:list:codings", fn.Pos(), "")
					c.boundsOf(e)
					return
				}
				best = bad
			}
		}
	}
	c.ob(false, "special:list:codings", fn.Pos(), "%s", best)
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

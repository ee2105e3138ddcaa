package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C23", "Path-sensitive specification of one read of a body from an arbitrary point (the counter is inferred and generalised by induction), typestate of its end, and inductive checks of the loops consuming it.", 20, ruleC23)
}

// fieldStores: the last values stored to fields on the path, from an event on.
func (p *Path) fieldStores(from int) (order []*Term, last map[*Term]*Term) {
	last = map[*Term]*Term{}
	for _, ev := range p.S.events[from:] {
		if ev.Kind == EvStore && ev.Addr.op == OFieldAddr {
			if last[ev.Addr] == nil {
				order = append(order, ev.Addr)
			}
			last[ev.Addr] = ev.Val
		}
	}
	return
}

type bodyCheck struct {
	*Ctx
	e                     *Engine
	s0                    *State
	body, client, parser  *Term
	limit, eof, tooLarge  *Term
	init, retrieve        *ssa.Function
	read, unread, chunked string
}

func (b *bodyCheck) events(p *Path, from int) (rd, un, pa []*Event, other bool) {
	for _, ev := range p.S.events[from:] {
		if ev.Kind != EvCall {
			continue
		}
		switch {
		case nameMatches(ev.Name, "tcp.Client).Read") && p.same(ev.Args[0], b.client):
			rd = append(rd, ev)
		case nameMatches(ev.Name, "tcp.Client).Unread") && p.same(ev.Args[0], b.client):
			un = append(un, ev)
		case nameMatches(ev.Name, "chunkedbody.Parser).Parse"):
			pa = append(pa, ev)
		case nameMatches(ev.Name, "tcp.Client).Write"), nameMatches(ev.Name, "tcp.Client).Close"):
			other = true
		}
	}
	return
}

// ended: reading from the state yields the end, touching nothing.
func (b *bodyCheck) ended(s *State) (bool, string) {
	n := len(s.events)
	ps := b.run(b.e, s.clone(), b.retrieve, []*Term{b.body})
	if len(ps) == 0 {
		return false, "nothing is returned"
	}
	for _, p := range ps {
		rd, un, pa, other := b.events(p, n)
		if p.Kind != PReturn || len(rd)+len(un)+len(pa) > 0 || other {
			return false, "the connection is touched again"
		}
		if !p.equal(p.Results[1], b.eof) || !p.must(mkIntEq(mkLen(p.Results[0]), tZeroInt)) {
			return false, "the end isn't reported"
		}
		order, last := p.fieldStores(n)
		for _, a := range order {
			if !p.equal(last[a], s.clone().load(a, deref(a.typ))) {
				return false, "the state changes"
			}
		}
	}
	return true, ""
}

func ruleC23(c *Ctx) {
	const pkg = "internal/protocol/http1"
	ctor, ini, ret := c.fn(pkg, "NewBody"), c.fn(pkg, "Body.Init"), c.fn(pkg, "Body.Retrieve")
	if ctor == nil || ini == nil || ret == nil {
		return
	}
	b := &bodyCheck{Ctx: c, init: ini, retrieve: ret}
	b.tooLarge = c.global("http/status", "ErrBodyTooLarge")
	b.eof = c.extGlobal("io", "EOF")
	if b.tooLarge == nil || b.eof == nil {
		return
	}
	e := c.engine()
	b.e = e
	e.Bounds = true
	e.Opaque = func(f *ssa.Function) bool { return f.Pkg != nil && f.Pkg.Pkg.Name() == "chunkedbody" }
	e.NoHavoc = func(n string) bool { return true }
	var args []*Term
	byName := map[string]*Term{}
	for _, p := range ctor.Params {
		a := paramSym(p)
		args = append(args, a)
		byName[types.TypeString(p.Type(), func(p *types.Package) string { return p.Name() })] = a
	}
	b.client, b.parser = byName["tcp.Client"], byName["*chunkedbody.Parser"]
	cfg := byName["config.Body"]
	if !c.ob(b.client != nil && b.parser != nil && cfg != nil, "constructor:arguments", ctor.Pos(), "a body is made without a client, chunk parser or settings") {
		return
	}
	b.limit = fieldByName(cfg, cfg.typ, "MaxSize")
	if !c.ob(b.limit != nil, "constructor:limit", ctor.Pos(), "there is no limit for bodies") {
		return
	}
	b.s0, b.body = c.object(e, ctor, "body", args)
	if b.body == nil {
		return
	}
	b.s0.F.assume(mkEq(b.tooLarge, b.eof), false)
	b.s0.F.assume(mkEq(b.tooLarge, tNil), false)
	b.s0.F.assume(mkEq(b.eof, tNil), false)
	b.s0.F.assume(mkLe(tZeroInt, b.limit), true)
	for _, chunked := range []bool{false, true} {
		b.framing(chunked)
	}
	b.consumers(ctor, args)
	b.again()
	b.reader()
	c.boundsOf(e)
}

// framing: from the initialisation on, every single read.
func (b *bodyCheck) framing(chunked bool) {
	c, e := b.Ctx, b.e
	mode := "sized"
	if chunked {
		mode = "chunked"
	}
	req := mkSym("request", b.init.Params[1].Type())
	s := b.s0.clone()
	s.F.assume(mkEq(req, tNil), false)
	cl := loadField(s, req, "ContentLength")
	isCh := loadField(s, req, "Encoding", "Chunked")
	trailer := loadField(s, req, "Encoding", "HasTrailer")
	if !c.ob(cl != nil && isCh != nil && trailer != nil, "request:framing", b.init.Pos(), "a request has no length or encoding") {
		return
	}
	s.F.assume(mkLe(tZeroInt, cl), true) // what the parser stores is never negative
	s.F.assume(isCh, chunked)
	n0 := len(s.events)
	ips := returns(c.run(e, s, b.init, []*Term{b.body, req}))
	if !c.ob(len(ips) > 0, mode+":init", b.init.Pos(), "a body can't be prepared") {
		return
	}
	for _, ip := range ips {
		rd, un, pa, other := b.events(ip, n0)
		c.ob(len(rd)+len(un)+len(pa) == 0 && !other, mode+":init:quiet", ip.Pos, "preparing a body touches the connection")
		start := cl
		if chunked {
			start = tZeroInt
		}
		order, last := ip.fieldStores(n0)
		// some field counts; which one is found by trying
		var cands []*Term
		for _, a := range order {
			if isNumTerm(last[a]) && ip.S.F.eqInt(last[a], start) {
				cands = append(cands, a)
			}
		}
		if !c.ob(len(cands) > 0, mode+":init:counter", b.init.Pos(), "the length of the body is not kept") {
			return
		}
		// the quietest candidate speaks
		var best *Ctx
		for _, a := range cands {
			t := &Ctx{P: c.P, ID: c.ID, index: map[string]int{}, cur: c.cur}
			bb := *b
			bb.Ctx = t
			bb.reads(mode, chunked, ip, a, start, trailer)
			c.paths += t.paths
			bad := 0
			for _, o := range t.Obls {
				if !o.OK {
					bad++
				}
			}
			if best == nil || bad < badCount(best) {
				best = t
			}
			if bad == 0 {
				break
			}
		}
		for _, o := range best.Obls {
			c.adopt(o)
		}
	}
}

func badCount(c *Ctx) (n int) {
	for _, o := range c.Obls {
		if !o.OK {
			n++
		}
	}
	return
}

// adopt takes an obligation over from a sub-analysis.
func (c *Ctx) adopt(o Obligation) {
	if i, seen := c.index[o.Key]; seen {
		if c.Obls[i].OK && !o.OK {
			c.Obls[i] = o
		}
		return
	}
	c.index[o.Key] = len(c.Obls)
	c.Obls = append(c.Obls, o)
}

func (b *bodyCheck) reads(mode string, chunked bool, ip *Path, counter, start, trailer *Term) {
	c, e := b.Ctx, b.e
	s := ip.S.clone()
	n := mkSym("count", deref(counter.typ))
	s.F.assume(mkLe(tZeroInt, n), true)
	if chunked {
		s.F.assume(mkLe(n, b.limit), true)
	}
	s.store(counter, n, deref(counter.typ))
	from := len(s.events)
	cnt := map[string]int{}
	for _, p := range c.run(e, s.clone(), b.retrieve, []*Term{b.body}) {
		if p.Kind != PReturn {
			c.ob(false, mode+":no-panic", p.Pos, "reading a body may panic (path: %s)", p.describe(c))
			continue
		}
		rd, un, pa, other := b.events(p, from)
		piece, err := p.Results[0], p.Results[1]
		noPiece := func() bool { return p.must(mkIntEq(mkLen(piece), tZeroInt)) }
		next := func() *Term { return p.S.clone().load(counter, deref(counter.typ)) }
		f := p.S.F
		bad := func(k, m string) {
			c.ob(false, mode+":"+k, p.Pos, "%s (path: %s)", m, p.describe(c))
		}
		if other || len(rd) > 1 || len(pa) > 1 || len(un) > 1 {
			bad("once", "the connection is used more than once for a piece, or written to")
			continue
		}
		// what may follow a piece that isn't the last
		goesOn := func() {
			order, last := p.fieldStores(from)
			for _, a := range order {
				if a == counter {
					continue
				}
				c.ob(p.equal(last[a], s.clone().load(a, deref(a.typ))), mode+":steady", p.Pos, "the state %s changes between two pieces", a)
			}
		}
		over := func(k string) {
			ok, why := b.ended(p.S)
			c.ob(ok, mode+":"+k+":stays", p.Pos, "after the end of a body, %s", why)
			cnt[k]++
		}
		if len(rd) == 0 {
			// nothing was read: the body is over, or too large
			switch {
			case p.equal(err, b.eof):
				c.ob(!chunked && f.eqInt(n, tZeroInt) && noPiece() && len(un) == 0, mode+":nothing-left", p.Pos, "the end is reported although %s bytes are left (path: %s)", n, p.describe(c))
				over("empty")
			case p.equal(err, b.tooLarge):
				c.ob(!chunked && f.lt(b.limit, n) && noPiece(), mode+":limit:only-above", p.Pos, "a body within the limit is refused")
				cnt["limit"]++
			default:
				bad("reads", "neither a piece nor the end is returned")
			}
			continue
		}
		if !chunked {
			c.ob(!p.S.F.eqInt(n, tZeroInt) && (p.mustNot(mkIntEq(n, tZeroInt)) || f.lt(tZeroInt, n)), mode+":not-beyond", p.Pos, "the connection is read although the body is complete")
		}
		data, rerr := rd[0].Res[0], rd[0].Res[1]
		if p.mustNot(mkEq(rerr, tNil)) {
			c.ob(len(un)+len(pa) == 0 && noPiece(), mode+":read-failed:nothing", p.Pos, "something is delivered although the read failed")
			c.ob(p.mustNot(mkEq(err, tNil)), mode+":read-failed:reported", p.Pos, "a failed read is not reported")
			c.ob(p.mustNot(mkEq(err, b.eof)), mode+":read-failed:not-the-end", p.Pos, "a connection that ends inside a body is taken for the end of the body (path: %s)", p.describe(c))
			cnt["read-failed"]++
			continue
		}
		if !p.must(mkEq(rerr, tNil)) {
			bad("read-checked", "the outcome of the read is not looked at")
			continue
		}
		if !chunked {
			if p.equal(err, b.tooLarge) {
				c.ob(f.lt(b.limit, n) && noPiece(), mode+":limit:only-above", p.Pos, "a body within the limit is refused (path: %s)", p.describe(c))
				cnt["limit"]++
				continue
			}
			if !c.ob(f.le(n, b.limit), mode+":limit", p.Pos, "a piece of a body above the limit is delivered (path: %s)", p.describe(c)) {
				continue
			}
			if p.equal(err, b.eof) {
				c.ob(f.le(n, mkLen(data)), mode+":last:complete", p.Pos, "the end is reported before the announced length (path: %s)", p.describe(c))
				c.ob(p.isSlice(piece, data, tZeroInt, n), mode+":last:piece", p.Pos, "the last piece is %s", piece)
				c.ob(len(un) == 1 && p.isSlice(un[0].Args[1], data, n, mkLen(data)) || len(un) == 0 && f.eqInt(n, mkLen(data)), mode+":last:rest", p.Pos, "what follows the body is not left for the next request")
				over("last")
				continue
			}
			if !c.ob(p.must(mkEq(err, tNil)), mode+":piece:error", p.Pos, "an error %s is made up (path: %s)", err, p.describe(c)) {
				continue
			}
			c.ob(f.le(mkLen(data), n), mode+":piece:not-beyond", p.Pos, "more than the body is delivered (path: %s)", p.describe(c))
			c.ob(p.equal(piece, data) && len(un) == 0, mode+":piece", p.Pos, "a piece is %s", piece)
			c.ob(f.eqInt(next(), mkSub(n, mkLen(data))), mode+":piece:count", p.Pos, "after a piece of %s bytes, %s of %s remain", mkLen(data), next(), n)
			goesOn()
			cnt["piece"]++
			continue
		}
		if !c.ob(len(pa) == 1 && p.same(pa[0].Args[0], b.parser) && p.equal(pa[0].Args[1], data), mode+":parsed", p.Pos, "the data isn't taken for chunks") {
			continue
		}
		c.ob(p.equal(pa[0].Args[2], trailer), mode+":trailer", p.Pos, "whether there is a trailer is taken from %s", pa[0].Args[2])
		chunk, extra, perr := pa[0].Res[0], pa[0].Res[1], pa[0].Res[2]
		isEnd, isOK := p.equal(perr, b.eof), p.must(mkEq(perr, tNil))
		if !isEnd && !isOK {
			if !c.ob(p.mustNot(mkEq(perr, b.eof)) && p.mustNot(mkEq(perr, tNil)), mode+":parse-checked", p.Pos, "the outcome of the parser is not looked at") {
				continue
			}
			c.ob(p.equal(err, perr) || p.mustNot(mkEq(err, tNil)) && p.mustNot(mkEq(err, b.eof)), mode+":malformed", p.Pos, "malformed chunks are reported as %s", err)
			c.ob(noPiece(), mode+":malformed:nothing", p.Pos, "something is delivered out of malformed chunks")
			cnt["malformed"]++
			continue
		}
		total := mkAdd(n, mkLen(chunk))
		if p.equal(err, b.tooLarge) {
			// the sum doesn't fit into a word, or into the limit
			c.ob((f.lt(b.limit, total) || b.overflow(p, total)) && noPiece(), mode+":limit:only-above", p.Pos, "a body within the limit is refused (path: %s)", p.describe(c))
			cnt["limit"]++
			continue
		}
		c.ob(f.le(total, b.limit), mode+":limit", p.Pos, "a piece of a body above the limit is delivered (path: %s)", p.describe(c))
		c.ob(p.equal(piece, chunk), mode+":piece", p.Pos, "a piece is %s", piece)
		c.ob(len(un) == 1 && p.equal(un[0].Args[1], extra) || len(un) == 0 && p.must(mkIntEq(mkLen(extra), tZeroInt)), mode+":rest", p.Pos, "what follows the chunk is lost")
		if isEnd {
			c.ob(p.equal(err, b.eof), mode+":last", p.Pos, "the end of the body is reported as %s", err)
			over("last")
			continue
		}
		c.ob(p.must(mkEq(err, tNil)), mode+":piece:error", p.Pos, "an error %s is made up", err)
		c.ob(f.eqInt(next(), total), mode+":piece:count", p.Pos, "after a piece of %s bytes, %s are counted", mkLen(chunk), next())
		goesOn()
		cnt["piece"]++
	}
	need := []string{"last", "piece", "limit", "read-failed"}
	if chunked {
		need = append(need, "malformed")
	} else {
		need = append(need, "empty")
	}
	for _, k := range need {
		c.ob(cnt[k] > 0, mode+":"+k+":reached", b.retrieve.Pos(), "no path covers this")
	}
}

// overflow: the sum doesn't fit into a word on the path.
func (b *bodyCheck) overflow(p *Path, sum *Term) bool {
	var big *Term
	for _, l := range p.S.F.lits {
		walkTerm(l.t, func(x *Term) {
			if x.op == OConst && x.String() == "18446744073709551615" {
				big = x
			}
		})
	}
	return big != nil && p.S.F.lt(big, sum)
}

// reader: through the io.Reader, a body prepared anew starts with its own first piece.
func (b *bodyCheck) reader() {
	c := b.Ctx
	e := c.engine()
	e.Bounds = true
	e.Opaque = opaqueSet(b.retrieve)
	e.NoHavoc = func(n string) bool { return true }
	e.Copies = true
	rd := c.method(b.body, "Read")
	if !c.ob(rd != nil, "reader:anchor", b.init.Pos(), "a body is no io.Reader") {
		return
	}
	req := mkSym("request", b.init.Params[1].Type())
	s := b.s0.clone()
	s.F.assume(mkEq(req, tNil), false)
	n := 0
	for _, ip := range returns(c.run(e, s, b.init, []*Term{b.body, req})) {
		buf := mkSym("b", rd.Params[len(rd.Params)-1].Type())
		from := len(ip.S.events)
		for _, p := range c.run(e, ip.S.clone(), rd, []*Term{b.body, buf}) {
			if !c.ob(p.Kind == PReturn, "reader:no-panic", p.Pos, "Read may panic") {
				continue
			}
			var rt []*Event
			for _, ev := range p.S.events[from:] {
				if ev.Kind == EvCall && ev.Fn == b.retrieve {
					rt = append(rt, ev)
				}
			}
			n++
			c.ob(len(rt) == 1 && p.same(rt[0].Args[0], b.body), "reader:fresh", b.init.Pos(), "Read of a body just prepared doesn't start with a piece of this body, but with remains of the previous one (path: %s)", p.describe(c))
		}
	}
	c.ob(n > 0, "reader:reached", b.init.Pos(), "no path covers this")
}

// consumers: the ways to read a body as a whole, on top of reading it by pieces.
func (b *bodyCheck) consumers(ctor *ssa.Function, args []*Term) {
	const pkg = "internal/protocol/http1"
	c := b.Ctx
	e := c.engine()
	e.Opaque = opaqueSet(b.retrieve)
	e.NoHavoc = func(n string) bool { return true }
	for _, name := range []string{"Bytes", "String", "Callback", "Discard"} {
		fn := c.fn(pkg, "Body."+name)
		if fn == nil {
			continue
		}
		a := []*Term{b.body}
		var cb *Term
		if name == "Callback" {
			cb = mkSym("callback", fn.Params[1].Type())
			a = append(a, cb)
		}
		key := "whole:" + name + ":"
		s := b.s0.clone()
		from := len(s.events)
		cnt := map[string]int{}
		ps := c.run(e, s, fn, a)
		c.show(ps)
		for _, p := range ps {
			if p.Kind == PPanic {
				c.ob(false, key+"no-panic", p.Pos, "%s may panic", name)
				continue
			}
			evs := p.S.events[from:]
			var rec *LoopRec
			if p.Kind == PBackEdge {
				rec = p.Loop
			} else if n := len(p.S.loopSeq); n > 0 {
				rec = p.S.loopSeq[n-1]
			}
			if rec != nil && rec.NEv <= len(p.S.events) {
				evs = p.S.events[rec.NEv:]
			}
			var rt, cbs []*Event
			for _, ev := range evs {
				if ev.Kind == EvCall && ev.Fn != nil && ev.Fn == b.retrieve {
					rt = append(rt, ev)
				} else if ev.Kind == EvCall && ev.FnT != nil && cb != nil && ev.FnT == cb {
					cbs = append(cbs, ev)
				}
			}
			if rec != nil {
				for _, v := range rec.Vars {
					if v.Entry == nil {
						continue
					}
					walkTerm(v.Entry, func(x *Term) {
						if x.op == OMakeSlice && isByteSeq(x.typ) {
							num := x.args[1].op == OConst
							c.ob(num || p.S.F.le(x.args[1], b.limit), key+"memory", p.Pos, "memory for %s bytes is taken although the limit isn't known to allow it (path: %s)", x.args[1], p.describe(c))
						}
					})
				}
			}
			res := func() *Term { return p.Results[len(p.Results)-1] }
			if len(rt) == 0 {
				if p.Kind == PBackEdge {
					c.ob(false, key+"progress", p.Pos, "an iteration reads nothing")
					continue
				}
				ok, why := b.ended(p.S)
				c.ob(ok, key+"unread", p.Pos, "%s returns without reading a body that isn't over: %s (path: %s)", name, why, p.describe(c))
				c.ob(p.must(mkEq(res(), tNil)), key+"over", p.Pos, "a body that is over is reported as %s", res())
				cnt["over"]++
				continue
			}
			if !c.ob(len(rt) == 1, key+"one-by-one", p.Pos, "an iteration reads %d pieces", len(rt)) {
				continue
			}
			data, err := rt[0].Res[0], rt[0].Res[1]
			isEnd, isOK := p.equal(err, b.eof), p.must(mkEq(err, tNil))
			if !isEnd && !isOK && !(p.mustNot(mkEq(err, b.eof)) && p.mustNot(mkEq(err, tNil))) {
				c.ob(false, key+"checked", p.Pos, "whether reading failed is not looked at (path: %s)", p.describe(c))
				continue
			}
			if !isEnd && !isOK {
				c.ob(p.Kind == PReturn && p.equal(res(), err), key+"failed", p.Pos, "a failed read is not reported")
				c.ob(len(cbs) == 0, key+"failed:nothing", p.Pos, "a failed read is passed on")
				cnt["failed"]++
				continue
			}
			// what happens to the piece
			switch name {
			case "Bytes", "String":
				var out *Term
				if p.Kind == PReturn {
					out = p.Results[0]
				}
				good := false
				why := "no buffer collects the pieces"
				if rec != nil {
					for _, v := range rec.Vars {
						if v.typ == nil || !isByteSeq(v.typ) || v.Cur == nil {
							continue
						}
						val := out
						if p.Kind == PBackEdge {
							val = p.Next[v.Name]
						}
						if val == nil {
							continue
						}
						r, ok := p.rope(val, v.Cur)
						if !ok || !p.pieces(r, data) {
							why = "the pieces make up " + ropeString(r)
							continue
						}
						if !p.must(mkIntEq(mkLen(v.Entry), tZeroInt)) {
							why = "the pieces are added to " + v.Entry.String()
							continue
						}
						good = true
						break
					}
				}
				c.ob(good, key+"collected", p.Pos, "%s (path: %s)", why, p.describe(c))
			case "Callback":
				if !c.ob(len(cbs) == 1 && p.equal(cbs[0].Args[0], data) || isEnd && len(cbs) == 0 && p.must(mkIntEq(mkLen(data), tZeroInt)), key+"passed", p.Pos, "a piece is not passed to the callback exactly once (path: %s)", p.describe(c)) {
					continue
				}
				if len(cbs) == 1 {
					cerr := cbs[0].Res[0]
					if isEnd {
						c.ob(p.Kind == PReturn && (p.equal(res(), cerr)), key+"last", p.Pos, "the outcome of the last callback is reported as %v", p.Results)
						cnt["end"]++
						continue
					}
					if p.mustNot(mkEq(cerr, tNil)) {
						c.ob(p.Kind == PReturn && p.equal(res(), cerr), key+"refused", p.Pos, "the error of a callback is not reported")
						cnt["refused"]++
						continue
					}
					c.ob(p.must(mkEq(cerr, tNil)), key+"callback-checked", p.Pos, "the error of a callback is not looked at")
				}
			}
			if isEnd {
				c.ob(p.Kind == PReturn && p.must(mkEq(res(), tNil)), key+"end", p.Pos, "the end of a body is reported as %v", p.Results)
				cnt["end"]++
				continue
			}
			c.ob(p.Kind == PBackEdge, key+"goes-on", p.Pos, "reading stops in front of the end (path: %s)", p.describe(c))
			cnt["piece"]++
		}
		for _, k := range []string{"end", "failed", "piece"} {
			c.ob(cnt[k] > 0, key+k+":reached", fn.Pos(), "no path covers this")
		}
	}
}

// again: a body that was read whole is there to be read whole again.
func (b *bodyCheck) again() {
	c := b.Ctx
	e := c.engine()
	e.Opaque = b.e.Opaque
	e.NoHavoc = b.e.NoHavoc
	for _, name := range []string{"Bytes", "String"} {
		fn := c.fn("internal/protocol/http1", "Body."+name)
		if fn == nil {
			continue
		}
		n := 0
		for _, p := range returns(c.run(e, b.s0.clone(), fn, []*Term{b.body})) {
			if len(p.Results) != 2 || !p.must(mkEq(p.Results[1], tNil)) {
				continue
			}
			n++
			out := p.Results[0]
			from := len(p.S.events)
			for _, q := range c.run(e, p.S.clone(), fn, []*Term{b.body}) {
				rd, un, pa, other := b.events(q, from)
				quiet := q.Kind == PReturn && len(rd)+len(un)+len(pa) == 0 && !other
				c.ob(quiet && q.must(mkEq(q.Results[1], tNil)) && (q.equal(q.Results[0], out) || q.must(mkIntEq(mkLen(out), tZeroInt)) && q.must(mkIntEq(mkLen(q.Results[0]), tZeroInt))),
					"again:"+name, q.Pos, "reading a body whole a second time gives %v, not what it gave before (path: %s)", q.Results, q.describe(c))
			}
		}
		c.ob(n > 0, "again:"+name+":reached", fn.Pos(), "no body is read whole")
	}
}

func isByteSeq(t types.Type) bool {
	switch x := t.Underlying().(type) {
	case *types.Slice:
		return types.Identical(x.Elem().Underlying(), types.Typ[types.Uint8])
	case *types.Basic:
		return x.Info()&types.IsString != 0
	}
	return false
}

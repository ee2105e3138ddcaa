package main

import (
	"fmt"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C19", "Typestate of the serve loop over all paths of an iteration, with parsing, routing, writing and clearing as opaque operations.", 20, ruleC19)
}

func opaqueSet(fs ...*ssa.Function) func(*ssa.Function) bool {
	m := map[*ssa.Function]bool{}
	for _, f := range fs {
		m[f] = true
	}
	return func(f *ssa.Function) bool { return m[f] || f.Origin() != nil && m[f.Origin()] }
}

// fieldOf: the value is what a field of an object holds at some time.
func fieldOf(t *Term, obj *Term, name string) bool {
	return t != nil && t.op == OLoad && len(t.args) > 0 && t.args[0].op == OFieldAddr && t.args[0].name == name && t.args[0].args[0] == obj
}

func (c *Ctx) show(ps []*Path) {
	if os.Getenv("VERIF_SHOW") == "" {
		return
	}
	for _, p := range ps {
		fmt.Println(p.Kind, p.Results, p.describe(c))
		for _, ev := range iterEvents(p) {
			fmt.Println("     ", ev, ev.Res)
		}
	}
}

// global: the value of a package-level variable.
func (c *Ctx) global(rel, name string) *Term {
	pi := c.P.pkg(rel)
	if pi == nil {
		c.fail("anchor:"+rel, 0, "package %s is gone", rel)
		return nil
	}
	sp := c.P.prog.Package(pi.types)
	var g *ssa.Global
	if sp != nil {
		g, _ = sp.Members[name].(*ssa.Global)
	}
	if !c.ob(g != nil, "anchor:"+rel+"."+name, 0, "variable %s.%s is gone", rel, name) {
		return nil
	}
	return mkGlobalVal(g)
}

// trace: the events of an iteration that have a name in the table, in order.
type tev struct {
	n  string
	ev *Event
}

func trace(evs []*Event, names map[string]string) (out []tev) {
	for _, ev := range evs {
		if ev.Kind != EvCall && ev.Kind != EvGo {
			continue
		}
		for suf, n := range names {
			if nameMatches(ev.Name, suf) {
				out = append(out, tev{n, ev})
				break
			}
		}
	}
	return
}

func ruleC19(c *Ctx) {
	const pkg = "internal/protocol/http1"
	newS := c.fn(pkg, "New")
	parse, write, pre := c.fn(pkg, "Parser.Parse"), c.fn(pkg, "Serializer.Write"), c.fn(pkg, "Serializer.PreWrite")
	clear, respond, hij := c.fn("http", "Request.Clear"), c.fn("http", "Request.Respond"), c.fn("http", "Request.WasHijacked")
	if newS == nil || parse == nil || write == nil || pre == nil || clear == nil || respond == nil || hij == nil {
		return
	}
	st := map[string]*Term{}
	for _, n := range []string{"Pending", "HeadersCompleted", "Error"} {
		v, ok := c.constOf(pkg, n)
		if !ok {
			return
		}
		st[n] = v
	}
	unk, ok1 := c.constOf("http/proto", "Unknown")
	h10, ok2 := c.constOf("http/proto", "HTTP10")
	h11, ok3 := c.constOf("http/proto", "HTTP11")
	h2, ok5 := c.constOf("http/proto", "HTTP2")
	errClose := c.global("http/status", "ErrCloseConnection")
	sw, ok4 := c.constOf("http/status", "SwitchingProtocols")
	if !ok1 || !ok2 || !ok3 || !ok4 || !ok5 || errClose == nil {
		return
	}
	names := map[string]string{
		"tcp.Client).Read": "read", "tcp.Client).Unread": "unread", "tcp.Client).Write": "rawwrite", "tcp.Client).Close": "close",
		fnName(parse): "parse", fnName(write): "write", fnName(pre): "prewrite", fnName(clear): "clear", fnName(respond): "respond", fnName(hij): "hijacked",
		"http.Body).Init": "init", "router.Router).OnRequest": "request", "router.Router).OnError": "error", "http.Body).Discard": "discard",
	}
	for _, once := range []bool{false, true} {
		mode := "serve"
		if once {
			mode = "serve-once"
		}
		fn := c.fn(pkg, map[bool]string{false: "Suit.Serve", true: "Suit.ServeOnce"}[once])
		if fn == nil {
			return
		}
		e := c.engine()
		e.Bounds = true
		e.Opaque = opaqueSet(parse, write, pre, clear, respond, hij)
		e.NoHavoc = func(n string) bool { return n == fnName(hij) || n == fnName(pre) }
		var args []*Term
		byName := map[string]*Term{}
		for _, p := range newS.Params {
			a := paramSym(p)
			if isIntType(p.Type()) {
				a = mkInt(4096) // the size of a buffer plays no role here
			}
			args = append(args, a)
			byName[types.TypeString(p.Type(), func(p *types.Package) string { return p.Name() })] = a
		}
		r, req, client := byName["router.Router"], byName["*http.Request"], byName["tcp.Client"]
		if !c.ob(r != nil && req != nil && client != nil, "constructor:arguments", newS.Pos(), "the constructor takes no router, request or client") {
			return
		}
		s, obj := c.object(e, newS, "suit", args)
		if obj == nil {
			return
		}
		ps := c.run(e, s, fn, []*Term{obj})
		c.show(ps)
		cnt := map[string]int{}
		for _, p := range ps {
			if p.Kind == PPanic {
				// only for a parser state that doesn't exist
				ok := false
				for _, t := range trace(p.S.events, names) {
					if t.n == "parse" {
						ok = p.mustNot(mkIntEq(t.ev.Res[0], st["Pending"])) && p.mustNot(mkIntEq(t.ev.Res[0], st["HeadersCompleted"])) && p.mustNot(mkIntEq(t.ev.Res[0], st["Error"]))
					}
				}
				c.ob(ok, mode+":no-panic", p.Pos, "serving may panic (path: %s)", p.describe(c))
				continue
			}
			tr := trace(iterEvents(p), names)
			what := ""
			for _, t := range tr {
				what += " " + t.n
			}
			bad := func(key string, f string, a ...any) {
				c.ob(false, mode+":"+key, p.Pos, "%s (events:%s; path: %s)", fmt.Sprintf(f, a...), what, p.describe(c))
			}
			i := 0
			next := func() *tev {
				if i < len(tr) {
					i++
					return &tr[i-1]
				}
				return nil
			}
			peek := func(n string) bool { return i < len(tr) && tr[i].n == n }
			ends := func(key string) { // the connection is over
				c.ob(i == len(tr), mode+":"+key+":nothing-after", p.Pos, "something happens after the connection is given up (events:%s)", what)
				c.ob(p.Kind == PReturn, mode+":"+key+":ends", p.Pos, "serving goes on after the connection is given up (events:%s)", what)
				if once && p.Kind == PReturn {
					c.ob(p.mustNot(p.Results[0]), mode+":"+key+":reported", p.Pos, "the end of the connection is not reported (events:%s)", what)
				}
				cnt[key]++
			}
			goesOn := func(key string) {
				c.ob(i == len(tr), mode+":"+key+":nothing-after", p.Pos, "something happens between two requests (events:%s)", what)
				if once {
					c.ob(p.Kind == PReturn && p.must(p.Results[0]), mode+":"+key+":goes-on", p.Pos, "success is not reported (events:%s)", what)
				} else {
					c.ob(p.Kind == PBackEdge, mode+":"+key+":goes-on", p.Pos, "serving ends although the connection is fine (events:%s)", what)
				}
				cnt[key]++
			}
			notify := func(key string) {
				t := next()
				c.ob(t != nil && t.n == "error" && p.same(t.ev.Args[0], r) && p.same(t.ev.Args[1], req) && p.equal(t.ev.Args[2], errClose),
					mode+":"+key+":notified", p.Pos, "the router isn't told that the connection is closed (events:%s)", what)
				ends(key)
			}
			rd := next()
			if rd == nil || rd.n != "read" || !p.same(rd.ev.Args[0], client) {
				bad("reads-first", "an iteration does not start by reading the connection")
				continue
			}
			rerr := mkEq(rd.ev.Res[1], tNil)
			if p.mustNot(rerr) {
				notify("read-error")
				continue
			}
			if !p.must(rerr) {
				bad("read-error-checked", "the error of the read is not looked at")
				continue
			}
			pa := next()
			if pa == nil || pa.n != "parse" || !p.equal(pa.ev.Args[1], rd.ev.Res[0]) {
				bad("parses", "the data read is not parsed")
				continue
			}
			is := func(n string) bool { return p.must(mkIntEq(pa.ev.Res[0], st[n])) }
			// the response due: what the router returned, or the empty one
			resp := func(got, due *Term) bool {
				if p.mustNot(mkEq(due, tNil)) {
					return p.equal(got, due)
				}
				return false
			}
			switch {
			case is("Pending"):
				goesOn("pending")
			case is("Error"):
				er := next()
				if er == nil || er.n != "error" || !p.same(er.ev.Args[0], r) || !p.same(er.ev.Args[1], req) || !p.equal(er.ev.Args[2], pa.ev.Res[2]) {
					bad("parse-error:handled", "a parse error is not passed to the router")
					continue
				}
				due := er.ev.Res[0]
				if peek("respond") {
					rs := next()
					if p.must(mkEq(due, tNil)) && p.same(rs.ev.Args[0], req) {
						due = rs.ev.Res[0]
						p.S.F.assume(mkEq(due, tNil), false)
					}
				}
				w := next()
				if w == nil || w.n != "write" || !resp(w.ev.Args[2], due) {
					bad("parse-error:answered", "the response to a malformed request is not the router's")
					continue
				}
				c.ob(p.mustNot(mkIntEq(w.ev.Args[1], unk)), mode+":parse-error:protocol", p.Pos, "a response may be written without a protocol version")
				ends("parse-error")
			case is("HeadersCompleted"):
				seen := map[string]*Event{}
				okk := true
				for i < len(tr) && tr[i].n != "request" {
					t := next()
					if t.n == "hijacked" {
						continue
					}
					if seen[t.n] != nil || t.n != "unread" && t.n != "init" && t.n != "prewrite" {
						bad("request:prepared", "%s in front of the handler", t.n)
						okk = false
					}
					seen[t.n] = t.ev
				}
				if !okk {
					continue
				}
				un, ini, pw := seen["unread"], seen["init"], seen["prewrite"]
				c.ob(un != nil && p.same(un.Args[0], client) && p.equal(un.Args[1], pa.ev.Res[1]), mode+":request:rest-pushed-back", p.Pos, "what follows the headers isn't pushed back before the handler runs (events:%s)", what)
				c.ob(ini != nil && fieldOf(ini.Args[0], req, "Body") && p.same(ini.Args[1], req), mode+":request:body-initialised", p.Pos, "the body isn't prepared for this request before the handler runs (events:%s)", what)
				rq := next()
				if rq == nil || !p.same(rq.ev.Args[0], r) || !p.same(rq.ev.Args[1], req) {
					bad("request:handled", "the request isn't passed to the router")
					continue
				}
				due := rq.ev.Res[0]
				var hj *Event
				take := func() {
					for peek("respond") || peek("hijacked") {
						t := next()
						if t.n == "hijacked" {
							if p.same(t.ev.Args[0], req) {
								hj = t.ev
							}
							continue
						}
						if p.must(mkEq(due, tNil)) && p.same(t.ev.Args[0], req) {
							due = t.ev.Res[0]
							p.S.F.assume(mkEq(due, tNil), false)
						}
					}
				}
				take()
				if hj == nil {
					bad("request:hijack-checked", "a hijacked connection isn't left alone")
					continue
				}
				if p.must(hj.Res[0]) {
					ends("hijacked")
					continue
				}
				if !p.mustNot(hj.Res[0]) {
					bad("request:hijack-checked", "a hijacked connection isn't left alone")
					continue
				}
				w := next()
				if w == nil || w.n != "write" || !resp(w.ev.Args[2], due) {
					bad("request:answered", "the response written is not the one the router returned")
					continue
				}
				c.upgradeOb(p, mode, req, w.ev, pw, unk, h10, h11, h2, sw)
				werr := mkEq(w.ev.Res[0], tNil)
				if p.mustNot(werr) {
					notify("write-error")
					continue
				}
				if !p.must(werr) {
					bad("write-error-checked", "the outcome of writing the response isn't looked at")
					continue
				}
				cl := next()
				if cl == nil || cl.n != "clear" || !p.same(cl.ev.Args[0], req) {
					bad("request:cleared", "the request isn't cleared before the next one")
					continue
				}
				cerr := mkEq(cl.ev.Res[0], tNil)
				if p.mustNot(cerr) {
					notify("clear-error")
					continue
				}
				if !p.must(cerr) {
					bad("clear-error-checked", "the outcome of clearing isn't looked at")
					continue
				}
				goesOn("served")
			default:
				bad("parser-state", "a parser state is treated like another")
			}
		}
		for _, k := range []string{"read-error", "pending", "parse-error", "hijacked", "write-error", "clear-error", "served"} {
			c.ob(cnt[k] > 0, mode+":"+k+":reached", fn.Pos(), "no path covers this outcome")
		}
	}
}

// upgradeOb: the response goes out in the version the connection was upgraded to, announced by a
// preceding 101, exactly when an upgrade to another HTTP/1 version was asked for.
func (c *Ctx) upgradeOb(p *Path, mode string, req *Term, w, pw *Event, unk, h10, h11, h2, sw *Term) {
	v := w.Args[1]
	if pw == nil {
		c.ob(fieldOf(v, req, "Proto"), mode+":version", p.Pos, "the response is written in protocol %s", v)
		// no supported upgrade was asked for
		for _, t := range p.termsOf(func(t *Term) bool { return fieldOf(t, req, "Upgrade") }) {
			c.ob(!p.mayBe(t, h10) && !p.mayBe(t, h11), mode+":upgrade:honoured", p.Pos, "an upgrade to a supported protocol may be ignored (path: %s)", p.describe(c))
			return
		}
		c.ob(false, mode+":upgrade:honoured", p.Pos, "upgrades are ignored")
		return
	}
	c.ob(fieldOf(v, req, "Upgrade"), mode+":upgrade:version", p.Pos, "after announcing an upgrade the response is written in protocol %s", v)
	c.ob(fieldOf(pw.Args[1], req, "Proto"), mode+":upgrade:announced-in", p.Pos, "the upgrade is announced in protocol %s", pw.Args[1])
	for _, t := range p.termsOf(func(t *Term) bool { return fieldOf(t, req, "Upgrade") }) {
		c.ob(p.mustNot(mkIntEq(t, unk)), mode+":upgrade:asked-for", p.Pos, "an upgrade nobody asked for is announced")
		c.ob(!p.mayBe(t, h2), mode+":upgrade:served", p.Pos, "an upgrade to a protocol that isn't served is announced (path: %s)", p.describe(c))
		break
	}
	// what is announced
	last := map[string]*Term{}
	for _, ev := range p.S.events {
		if ev == pw {
			break
		}
		if ev.Kind == EvStore && ev.Addr.op == OFieldAddr {
			last[ev.Addr.name] = ev.Val
		}
	}
	c.ob(last["Code"] != nil && p.equal(last["Code"], sw), mode+":upgrade:code", p.Pos, "an upgrade is announced with code %v", last["Code"])
	hs := last["Headers"]
	if hs != nil {
		hs = p.S.F.canon(hs)
	}
	good := hs != nil && hs.op == OElems && len(hs.args) == 2
	if good {
		for _, h := range hs.args {
			if h.op != OAgg || len(h.args) != 2 {
				good = false
				continue
			}
			k, _ := h.args[0].isStr()
			switch k {
			case "Connection":
				x, _ := h.args[1].isStr()
				good = good && x == "upgrade"
			case "Upgrade":
				val, ok := p.S.F.canonDeep(h.args[1]).isStr()
				want := map[string]*Term{"HTTP/1.0": h10, "HTTP/1.1": h11}[val]
				if !ok || want == nil {
					// a value that no protocol has: the path has to be impossible for either version
					want = nil
				}
				for _, t := range p.termsOf(func(t *Term) bool { return fieldOf(t, req, "Upgrade") }) {
					for _, h := range []*Term{h10, h11} {
						if want != h && p.mayBe(t, h) {
							good = false
						}
					}
				}
			default:
				good = false
			}
		}
	}
	c.ob(good, mode+":upgrade:headers", p.Pos, "an upgrade is announced with headers %v (path: %s)", hs, p.describe(c))
}

// termsOf: the terms a path's facts and events mention that satisfy a predicate.
func (p *Path) termsOf(keep func(*Term) bool) (out []*Term) {
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if keep(t) {
			out = append(out, t)
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	for _, l := range p.S.F.lits {
		visit(l.t)
	}
	for _, ev := range p.S.events {
		for _, a := range ev.Args {
			visit(a)
		}
	}
	return
}

// mayBe: the value may be the constant on this path.
func (p *Path) mayBe(t, v *Term) bool {
	n, ok := v.isInt()
	if ok && p.S.F.foldRefuted(map[*Term]int64{t: n}) {
		return false
	}
	return p.feasible(pos(mkIntEq(t, v)))
}

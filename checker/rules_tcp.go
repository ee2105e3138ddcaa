package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func evIs(e *Event, suffix string) bool {
	return (e.Kind == EvCall) && nameMatches(e.Name, suffix)
}

// sameObj: equality of references on a path
func (p *Path) same(a, b *Term) bool { return p.equal(unwrapIface(a), unwrapIface(b)) }

type tcpSrv struct {
	e      *Engine
	s      *State
	obj    *Term
	sock   *Term
	onConn *Term
	start  *ssa.Function
	pause  *ssa.Function
	stop   *ssa.Function
	wait   *ssa.Function
	newSrv *ssa.Function
	ok     bool
}

func tcpServer(c *Ctx) *tcpSrv {
	t := &tcpSrv{}
	t.newSrv = c.fn("internal/tcp", "NewServer")
	t.start = c.fn("internal/tcp", "Server.Start")
	t.pause = c.fn("internal/tcp", "Server.Pause")
	t.stop = c.fn("internal/tcp", "Server.Stop")
	t.wait = c.fn("internal/tcp", "Server.Wait")
	if t.newSrv == nil || t.start == nil || t.pause == nil || t.stop == nil || t.wait == nil {
		return t
	}
	t.e = c.engine()
	t.e.NilChecks = false
	t.e.Guarded = true
	t.sock = mkSym("sock", t.newSrv.Params[0].Type())
	t.onConn = mkSym("onConn", t.newSrv.Params[1].Type())
	t.s, t.obj = c.object(t.e, t.newSrv, "srv", []*Term{t.sock, t.onConn})
	t.ok = t.obj != nil
	return t
}

// iterEvents: the events of the path that belong to its last loop iteration (or all, without a loop).
func iterEvents(p *Path) []*Event {
	n := 0
	if len(p.S.loopSeq) > 0 {
		n = p.S.loopSeq[len(p.S.loopSeq)-1].NEv
	}
	return p.S.events[n:]
}

// goBody analyses what a spawned goroutine does.
func (c *Ctx) goBody(e *Engine, p *Path, g *Event) []*Path {
	fn := g.Fn
	var binds []*Term
	if g.FnT != nil && g.FnT.op == OClosure {
		fn = g.FnT.obj.(*ssa.Function)
		binds = g.FnT.args
	}
	if fn == nil || len(fn.Blocks) == 0 {
		return nil
	}
	s := p.S.clone()
	s.events = nil
	if len(p.S.loopSeq) > 0 {
		// what the next iteration writes again may be changed before the goroutine uses it
		for _, ev := range iterEvents(p) {
			if ev.Kind == EvStore && ev.Addr.typ != nil {
				t := deref(ev.Addr.typ)
				s.store(ev.Addr, s.freshSym("raced", t), t)
			}
		}
	}
	return e.RunClosure(s, fn, g.Args, binds)
}

func init() {
	register("C01", "Path-sensitive abstract interpretation of the accept loop and of the goroutine it spawns: on every path each accepted connection is registered, handed to the handler exactly once, then closed, then unregistered, and every accept failure is returned.", 9, ruleC01)
	register("C02", "Path-sensitive abstract interpretation of Start/Pause/Stop/Wait and the *All helpers: the shutdown flag guards every Accept, Pause raises it before expiring the listener's deadline, and the group helpers signal every server before waiting for every server.", 12, ruleC02)
	register("C03", "Abstract interpretation of sequences of client operations from an arbitrary object state: pushed-back data first and once, a read deadline of now+timeout before every socket read, and exact hand-over of data and errors.", 12, ruleC03)
	register("C04", "Abstract interpretation of sequences of reads from an arbitrary reader state: remaining data is handed on before the source is asked again, and errors only after the data and from then on.", 10, ruleC04)
}

func ruleC01(c *Ctx) {
	t := tcpServer(c)
	if !t.ok {
		return
	}
	ps := c.run(t.e, t.s, t.start, []*Term{t.obj})
	var wg *Term
	accepts, spawns := 0, 0
	for _, p := range ps {
		c.ob(p.Kind != PPanic, "accept-loop:no-panic", p.Pos, "the accept loop can panic")
		evs := iterEvents(p)
		var acc *Event
		for i, e := range evs {
			if evIs(e, "Listener).Accept") {
				c.ob(acc == nil, "accept-loop:one-accept-per-iteration", e.Pos, "a connection accepted earlier in the iteration is overtaken by another Accept")
				acc = e
				c.ob(p.same(e.Args[0], t.sock), "accept-loop:own-socket", e.Pos, "Accept is called on something other than the server's own listener")
			}
			c.ob(!evIs(e, "Listener).Close"), "accept-loop:listener-kept", e.Pos, "serving closes the listening socket by itself")
			_ = i
		}
		if acc == nil {
			continue
		}
		accepts++
		conn, err := acc.Res[0], acc.Res[1]
		errNil := mkEq(err, mkNil(err.typ))
		if p.mustNot(errNil) {
			c.ob(p.Kind == PReturn && len(p.Results) == 1 && p.equal(p.Results[0], err), "accept-loop:error-returned", acc.Pos, "after a failed Accept the loop does not return Accept's error")
			for _, e := range evs {
				c.ob(e.Kind != EvGo, "accept-loop:no-handler-on-error", e.Pos, "a handler is started although Accept failed")
				c.ob(!evIs(e, "sync.WaitGroup).Add"), "accept-loop:no-register-on-error", e.Pos, "the wait group is incremented although Accept failed, so waiting never ends")
			}
			continue
		}
		// the error is nil or undetermined: the connection must be handled
		c.ob(p.must(errNil), "accept-loop:error-checked", acc.Pos, "on a path where Accept may have failed the connection is used")
		var gos []*Event
		adds := 0
		after := false
		for _, e := range evs {
			if e == acc {
				after = true
			}
			if !after {
				continue
			}
			switch {
			case e.Kind == EvGo:
				c.ob(adds == 1, "accept-loop:registered-before-spawn", e.Pos, "the goroutine is started with %d registrations in the wait group; expected exactly one before it", adds)
				gos = append(gos, e)
			case evIs(e, "sync.WaitGroup).Add"):
				n, ok := e.Args[1].isInt()
				c.ob(ok && n == 1, "accept-loop:register-one", e.Pos, "the wait group is not incremented by exactly one")
				adds++
				if wg == nil {
					wg = e.Args[0]
				}
				c.ob(p.equal(wg, e.Args[0]), "accept-loop:same-waitgroup", e.Pos, "different wait groups are used")
				c.ob(p.mustNot(mkEq(wg, mkNil(wg.typ))) && wg.op != OGlobalAddr, "accept-loop:own-waitgroup", e.Pos, "the server has no wait group of its own")
			case e.Kind == EvCall && e.FnT == t.onConn:
				c.fail("accept-loop:handler-in-own-goroutine", e.Pos, "the handler is called in the accept loop itself")
			}
		}
		if !c.ob(len(gos) == 1 && adds == 1, "accept-loop:exactly-one-goroutine", acc.Pos, "an accepted connection starts %d goroutines with %d registrations; expected one of each", len(gos), adds) {
			continue
		}
		spawns++
		if st := overwritten(gos[0]); st != nil {
			c.fail("accept-loop:own-variable", st.Pos(), "a goroutine may not have come to using a variable when this overwrites it, so that one connection is handled twice and another never")
		}
		hps := c.goBody(t.e, p, gos[0])
		c.ob(len(hps) > 0, "handler:body", gos[0].Pos, "the goroutine's body could not be resolved")
		for _, h := range hps {
			stage := 0
			bad := ""
			if h.Kind != PReturn {
				bad = "the goroutine may not finish (" + h.Kind.String() + ")"
			}
			for _, e := range h.S.events {
				switch {
				case evIs(e, "Listener).Close") || evIs(e, "SetDeadline") && h.same(unwrapIface(e.Args[0]), t.sock):
					bad = "serving a connection ends the accepting of others"
				case e.Kind == EvGo:
					bad = "the goroutine starts another goroutine"
				case e.Kind == EvCall && e.FnT == t.onConn:
					if stage != 0 || len(e.Args) != 1 || !h.equal(e.Args[0], conn) {
						bad = "the handler is not called first, once, with the accepted connection"
					}
					stage = 1
				case evIs(e, "Conn).Close") || evIs(e, "Closer).Close"):
					if stage != 1 || !h.same(e.Args[0], conn) {
						bad = "the connection is closed out of order (before the handler returned, twice, or another connection)"
					}
					stage = 2
				case evIs(e, "sync.WaitGroup).Done") || evIs(e, "sync.WaitGroup).Add"):
					if stage != 2 || !h.equal(e.Args[0], wg) {
						bad = "the connection is reported finished before it is closed, or to another wait group"
					}
					if evIs(e, "Add") {
						if n, ok := e.Args[1].isInt(); !ok || n != -1 {
							bad = "the wait group is incremented by the handler"
						}
					}
					stage = 3
				}
			}
			if bad == "" && stage != 3 {
				bad = []string{"the handler is never called", "the connection is never closed", "the connection is never reported finished"}[stage]
			}
			c.ob(bad == "", "handler:call-close-done", gos[0].Pos, "%s (path: %s)", bad, h.describe(c))
		}
	}
	c.ob(accepts >= 2 && spawns >= 1, "accept-loop:seen", t.start.Pos(), "no accept/handle path found (accepts %d, spawns %d)", accepts, spawns)
	for _, p := range c.run(t.e, freshFrom(t), t.wait, []*Term{t.obj}) {
		w := p.calls("sync.WaitGroup).Wait")
		c.ob(p.Kind == PReturn && len(w) >= 1 && wg != nil && p.equal(w[0].Args[0], wg), "wait:waits-for-handlers", t.wait.Pos(), "Wait does not wait for the handlers' wait group")
	}
}

func freshFrom(t *tcpSrv) *State {
	n := newState()
	n.frozen = t.s.frozen
	return n
}

func isAtomicLoad(e *Event) bool {
	return e.Kind == EvCall && strings.Contains(e.Name, "sync/atomic") && strings.Contains(e.Name, "Load")
}

func truthy(t *Term) *Term {
	if isIntType(t.typ) {
		return mkNot(mkIntEq(t, mkInt(0)))
	}
	return t
}

// deadlineOnly: an interface type whose only method is SetDeadline(time.Time) error
func deadlineOnly(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 1 && i.Method(0).Name() == "SetDeadline"
}

// flagVar: a loop variable that holds, at every head of the loop, what the flag was found to be after the
// last Accept; neg tells that it holds the opposite.
func flagVar(rec *LoopRec, flag *Term) (v *LoopVar, neg, ok bool) {
	fresh := func(t *Term, evs []*Event) (neg, ok bool) {
		if t == nil {
			return
		}
		for i := len(evs) - 1; i >= 0; i-- {
			e := evs[i]
			if evIs(e, "Listener).Accept") {
				return
			}
			if isAtomicLoad(e) && e.Args[0] == flag {
				switch t {
				case truthy(e.Res[0]):
					return false, true
				case mkNot(truthy(e.Res[0])):
					return true, true
				}
				return
			}
		}
		return
	}
	for _, v := range rec.Vars {
		n, good := fresh(v.Entry, rec.Entry.events)
		if !good || len(rec.Backs) == 0 {
			continue
		}
		for _, b := range rec.Backs {
			m, g := fresh(b.Next[v.Name], iterEvents(b))
			good = good && g && m == n
		}
		if good {
			return v, n, true
		}
	}
	return nil, false, false
}

// flagDown: the path's round began with the flag found down at the end of the previous one
func flagDown(p *Path, flag *Term) bool {
	if len(p.S.loopSeq) == 0 {
		return false
	}
	v, neg, ok := flagVar(p.S.loopSeq[len(p.S.loopSeq)-1], flag)
	if !ok {
		return false
	}
	if neg {
		return p.must(v.Cur)
	}
	return p.mustNot(v.Cur)
}

// carriesFlag: the next round learns from a loop variable what the flag is, and does nothing but end well if
// it is up
func carriesFlag(p *Path, flag *Term) bool {
	if len(p.S.loopSeq) == 0 {
		return false
	}
	_, _, ok := flagVar(p.S.loopSeq[len(p.S.loopSeq)-1], flag)
	return ok
}

func ruleC02(c *Ctx) {
	t := tcpServer(c)
	if !t.ok {
		return
	}
	// Pause: raise the flag, then interrupt the listener
	var flag *Term
	pauseOb := func(p *Path, evs []*Event, where string, at token.Pos, ref func(*Term) *Term) {
		raised := false
		expired := false
		for _, e := range evs {
			if e.Kind != EvCall {
				continue
			}
			switch {
			case raisesFlag(e):
				raised = true
				if flag == nil {
					flag = ref(e.Args[0])
				}
				c.ob(flag == ref(e.Args[0]), where+":one-flag", e.Pos, "pausing raises different flags on different paths")
			case evIs(e, "SetDeadline"):
				c.ob(raised, where+":flag-before-interrupt", e.Pos, "the listener is interrupted before the shutdown flag is raised: the accept loop can run on")
				c.ob(p.same(ref(e.Args[0]), t.sock), where+":own-listener", e.Pos, "the deadline is set on something other than the server's listener")
				c.ob(isNowOrPast(e.Args[1]), where+":deadline-now", e.Pos, "the listener's deadline is %s, not the current time: a blocked Accept is not interrupted right away", e.Args[1])
				expired = true
			case evIs(e, "Listener).Close"):
				c.fail(where+":keeps-socket", e.Pos, "pausing closes the listener")
			}
		}
		c.ob(raised, where+":raises-flag", at, "a path does not raise the shutdown flag")
		if !expired {
			excused := false
			for _, l := range p.S.F.lits {
				if l.t.op == OIsType && !l.v && p.same(ref(unwrapIface(l.t.args[0])), t.sock) && deadlineOnly(l.t.typ) {
					excused = true
				}
			}
			c.ob(excused, where+":interrupts-listener", at, "a path leaves a listener that has a deadline blocked in Accept")
		}
	}
	pps := c.run(t.e, freshFrom(t), t.pause, []*Term{t.obj})
	for _, p := range pps {
		c.ob(p.Kind == PReturn, "pause:returns", t.pause.Pos(), "Pause does not return on a path")
		pauseOb(p, p.S.events, "pause", t.pause.Pos(), func(x *Term) *Term { return x })
	}
	if flag == nil {
		return
	}
	// Start: the flag is consulted before every Accept; once raised, the loop ends with nil
	sps := c.run(t.e, freshFrom(t), t.start, []*Term{t.obj})
	loads := 0
	for _, p := range sps {
		evs := iterEvents(p)
		var last *Event
		for _, e := range evs {
			if isAtomicLoad(e) && e.Args[0] == flag {
				last = e
				loads++
			}
			if e.Kind == EvCall && strings.Contains(e.Name, "sync/atomic") && !isAtomicLoad(e) && len(e.Args) > 0 && e.Args[0] == flag {
				c.fail("start:never-clears-flag", e.Pos, "the accept loop itself changes the shutdown flag, so a pause can be lost")
			}
			if evIs(e, "Listener).Accept") {
				c.ob(last != nil && p.mustNot(truthy(last.Res[0])) || last == nil && flagDown(p, flag), "start:flag-checked-before-accept", e.Pos, "Accept is reached without having found the shutdown flag down in the same iteration")
			}
		}
		if last == nil && p.Kind != PBackEdge && carriesFlag(p, flag) && !flagDown(p, flag) {
			c.ob(p.Kind == PReturn && len(p.Results) == 1 && p.must(mkEq(p.Results[0], mkNil(p.Results[0].typ))), "start:ends-clean-when-paused", p.Pos, "the loop does not end with a nil error once the shutdown flag is up")
		}
		if last != nil && p.Kind == PBackEdge && carriesFlag(p, flag) {
			continue // the next round decides by it
		}
		if last != nil && !p.mustNot(truthy(last.Res[0])) {
			c.ob(p.Kind == PReturn && len(p.Results) == 1 && p.must(mkEq(p.Results[0], mkNil(p.Results[0].typ))), "start:ends-clean-when-paused", p.Pos, "the loop does not end with a nil error once the shutdown flag is up")
		}
	}
	c.ob(loads > 0, "start:reads-flag", t.start.Pos(), "the accept loop never reads the flag Pause raises")
	// nobody lowers the flag
	lowered := false
	for _, fn := range c.P.RepoFuncs() {
		if fn.Pkg == nil || fn.Pkg != t.start.Pkg {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok {
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok || *fieldClass(types.TypeString(originType(deref(fa.X.Type())), nil), fa.Field) != addrClass(flag) {
						continue
					}
					if k, ok := st.Val.(*ssa.Const); !ok || k.Value == nil || k.Value.String() == "false" {
						lowered = true
						c.fail("flag:never-lowered", ins.Pos(), "%s may lower the shutdown flag", fn)
					}
					continue
				}
				ci, ok := ins.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() == nil {
					continue
				}
				n := fnName(ci.Common().StaticCallee())
				if !strings.Contains(n, "sync/atomic") || strings.Contains(n, "Load") || len(ci.Common().Args) == 0 {
					continue
				}
				args := ci.Common().Args
				fa, ok := args[0].(*ssa.FieldAddr)
				if !ok || *fieldClass(types.TypeString(originType(deref(fa.X.Type())), nil), fa.Field) != addrClass(flag) {
					continue
				}
				if k, ok := args[len(args)-1].(*ssa.Const); !ok || k.Value == nil || k.Value.String() == "false" || k.Value.String() == "0" {
					lowered = true
					c.fail("flag:never-lowered", ins.Pos(), "%s may lower the shutdown flag", fn)
				}
			}
		}
	}
	c.ob(!lowered, "flag:never-lowered", t.start.Pos(), "")
	// Stop closes the listener and reports the outcome
	for _, p := range c.run(t.e, freshFrom(t), t.stop, []*Term{t.obj}) {
		cl := p.calls("Close")
		c.ob(p.Kind == PReturn && len(cl) == 1 && p.same(cl[0].Args[0], t.sock), "stop:closes-listener", t.stop.Pos(), "Stop does not close the server's listener exactly once")
		if len(cl) == 1 && len(p.Results) == 1 {
			c.ob(p.equal(p.Results[0], cl[0].Res[0]), "stop:reports-error", t.stop.Pos(), "Stop does not return the listener's Close error")
		}
	}
	// group operations, looked at in terms of what they do to each server's own listener, flag and
	// wait group
	var wg *Term
	for _, p := range c.run(t.e, freshFrom(t), t.wait, []*Term{t.obj}) {
		if w := p.calls("sync.WaitGroup).Wait"); len(w) > 0 {
			wg = w[0].Args[0]
		}
	}
	if !c.ob(wg != nil, "wait:wait-group", t.wait.Pos(), "Wait does not wait for a wait group") {
		return
	}
	for _, g := range []struct {
		name string
		kind int
	}{{"StopAll", 1}, {"PauseAll", 2}, {"WaitAll", 0}} {
		fn := c.fn("internal/tcp", g.name)
		if fn == nil {
			continue
		}
		e := c.engine()
		e.Guarded = true
		e.NoHavoc = func(string) bool { return true } // the operations do not change the list of servers
		arg := mkSym("servers", fn.Params[0].Type())
		ps := c.run(e, nil, fn, []*Term{arg})
		// onSelf replaces the server of the list a value belongs to by the server analysed above
		onSelf := func(p *Path, x *Term) (r, elem *Term) {
			x = p.S.F.canonDeep(unwrapIface(x))
			walkTerm(x, func(y *Term) {
				if b, _ := elemOf(y); b == arg {
					elem = y
				}
			})
			if elem == nil {
				return x, nil
			}
			x = substTerm(x, map[*Term]*Term{elem: t.obj}, nil)
			if x.op == OLoad {
				if v := t.s.frozen[x.args[0]]; v != nil {
					return v, elem
				}
			}
			return x, elem
		}
		isWait := func(p *Path, ev *Event) *Term {
			if evIs(ev, "sync.WaitGroup).Wait") {
				if x, el := onSelf(p, ev.Args[0]); x == wg || p.equal(x, wg) {
					return el
				}
			}
			return nil
		}
		isFirst := func(p *Path, ev *Event) *Term {
			switch {
			case g.kind == 1 && evIs(ev, "Close"):
				if x, el := onSelf(p, ev.Args[0]); p.same(x, t.sock) {
					return el
				}
			case g.kind == 2 && raisesFlag(ev):
				if x, el := onSelf(p, ev.Args[0]); x == flag {
					return el
				}
			}
			return nil
		}
		var keys1, keys2 map[loopKey]bool
		if g.kind != 0 {
			keys1 = c.loopOver(ps, arg, isFirst, g.name+":signals-every-server", fn)
		}
		keys2 = c.loopOver(ps, arg, isWait, g.name+":waits-for-every-server", fn)
		for _, p := range ps {
			seen1, seen2 := g.kind == 0, false
			for _, r := range p.S.loopSeq {
				k := keyOf(r)
				if keys2[k] {
					c.ob(seen1 && !keys1[k], g.name+":signal-all-then-wait", fn.Pos(), "a server is waited for before every server was signalled")
					seen2 = true
				}
				if keys1[k] {
					seen1 = true
				}
			}
			if p.Kind == PReturn && !(seen1 && seen2) {
				c.ob(p.must(mkIntEq(mkLen(arg), tZeroInt)), g.name+":no-shortcut", p.Pos, "%s can return without having signalled and waited for every server", g.name)
			}
			for _, ev := range p.S.events {
				c.ob(ev.Kind != EvGo, g.name+":synchronous", ev.Pos, "%s does part of its work in a goroutine nobody waits for", g.name)
				if g.kind == 1 {
					c.ob(!evIs(ev, "SetDeadline"), g.name+":only-stops", ev.Pos, "%s sets deadlines", g.name)
				}
			}
			if g.kind == 2 && p.Kind == PBackEdge && keys1[keyOf(p.Loop)] {
				pauseOb(p, p.S.events[p.Loop.NEv:], g.name, p.Pos, func(x *Term) *Term { r, _ := onSelf(p, x); return r })
			}
		}
	}
}

func raisesFlag(e *Event) bool {
	if e.Kind != EvCall || !strings.Contains(e.Name, "sync/atomic") || len(e.Args) < 2 || !(strings.Contains(e.Name, "Store") || strings.Contains(e.Name, "Swap")) {
		return false
	}
	v := e.Args[len(e.Args)-1]
	b, isb := v.isBool()
	n, isn := v.isInt()
	return isb && b || isn && n != 0
}

// loopKey names one run of a loop: the same loop in another call is another run.
type loopKey struct {
	head *ssa.BasicBlock
	act  int
}

func keyOf(r *LoopRec) loopKey { return loopKey{r.Head, r.Act} }

func isNowOrPast(t *Term) bool {
	if t.op == OSym && strings.HasPrefix(t.name, "time.Now#") {
		return true
	}
	if t.op == OCall && strings.HasPrefix(t.name, "(time.Time).Add") && len(t.args) == 2 && isNowOrPast(t.args[0]) {
		n, ok := t.args[1].isInt()
		return ok && n <= 0
	}
	if t.op == OSym && strings.HasPrefix(t.name, "time.Unix#") {
		return true
	}
	return false
}

// loopOver: some loop performs op on every element of the slice exactly once per iteration, covers
// the whole slice, and is never left early. Returns the runs of loops that do so.
func (c *Ctx) loopOver(ps []*Path, slice *Term, op func(*Path, *Event) *Term, key string, fn *ssa.Function) map[loopKey]bool {
	keys := map[loopKey]bool{}
	for _, p := range ps {
		if p.Kind != PBackEdge {
			continue
		}
		for _, e := range p.S.events[p.Loop.NEv:] {
			if op(p, e) != nil {
				keys[keyOf(p.Loop)] = true
			}
		}
	}
	if !c.ob(len(keys) > 0, key, fn.Pos(), "no loop in %s performs the operation on the elements", fn) {
		return nil
	}
	for k := range keys {
		idxName := ""
		var idxOff, stepSign int64
		for _, p := range ps {
			if p.Kind != PBackEdge || keyOf(p.Loop) != k {
				continue
			}
			n := 0
			for _, e := range p.S.events[p.Loop.NEv:] {
				x := op(p, e)
				if x == nil {
					continue
				}
				n++
				_, at := elemOf(x)
				// the index must be a loop variable plus a constant, moving by one
				ok := false
				for _, v := range p.Loop.counters() {
					d, isC := mkSub(at, v.cur).isInt()
					if !isC {
						continue
					}
					n := v.next(p)
					if n == nil {
						continue
					}
					st, isC := mkSub(n, v.cur).isInt()
					if !isC || st != 1 && st != -1 {
						continue
					}
					first := mkAddC(v.entry, d)
					if st == 1 {
						ok = p.equal(first, tZeroInt)
					} else {
						ok = p.equal(first, mkAddC(mkLen(slice), -1))
					}
					if ok {
						idxName, idxOff, stepSign = v.name, d, st
						break
					}
				}
				if !c.ob(ok, key, e.Pos, "the loop does not walk the slice from end to end one element at a time (index %s)", at) {
					return keys
				}
			}
			c.ob(n == 1, key, p.Pos, "an iteration performs the operation %d times", n)
		}
		for _, p := range ps {
			for _, r := range p.S.loopSeq {
				if keyOf(r) != k || p.Kind == PBackEdge && p.Loop == r {
					continue
				}
				var cur *Term
				for _, v := range r.counters() {
					if v.name == idxName {
						cur = v.cur
					}
				}
				if cur == nil {
					continue
				}
				idx := mkAddC(cur, idxOff)
				if stepSign == 1 {
					c.ob(p.must(mkGe(idx, mkLen(slice))), key, p.Pos, "the loop can be left before the last element")
				} else {
					c.ob(p.must(mkLt(idx, tZeroInt)), key, p.Pos, "the loop can be left before the last element")
				}
			}
		}
	}
	return keys
}

func ruleC03(c *Ctx) {
	ctor := c.fn("internal/tcp", "NewClient")
	if ctor == nil || len(ctor.Params) != 3 {
		c.fail("anchor:NewClient", 0, "NewClient(conn, timeout, buff) not found")
		return
	}
	e := c.engine()
	e.Bounds = true
	conn, timeout, buff := mkSym("conn", ctor.Params[0].Type()), mkSym("timeout", ctor.Params[1].Type()), mkSym("buff", ctor.Params[2].Type())
	s, obj := c.object(e, ctor, "cl", []*Term{conn, timeout, buff})
	if obj == nil {
		return
	}
	self := unwrapIface(obj)
	read, unread, write := c.method(obj, "Read"), c.method(obj, "Unread"), c.method(obj, "Write")
	connM, remote, closeM := c.method(obj, "Conn"), c.method(obj, "Remote"), c.method(obj, "Close")
	if read == nil || unread == nil || write == nil || connM == nil || remote == nil || closeM == nil {
		return
	}
	x := mkSym("x", unread.Params[1].Type())
	b := mkSym("b", write.Params[1].Type())
	rd := step{read, []*Term{self}}
	un := step{unread, []*Term{self, x}}
	wr := step{write, []*Term{self, b}}
	isConn := func(ev *Event, m string) bool {
		return (evIs(ev, "Conn)."+m) || evIs(ev, "Reader)."+m) || evIs(ev, "Writer)."+m) || evIs(ev, "Closer)."+m)) && unwrapIface(ev.Args[0]) == conn
	}
	sockReads := func(evs []*Event) (out []*Event) {
		for _, ev := range evs {
			if isConn(ev, "Read") {
				out = append(out, ev)
			}
		}
		return
	}
	anyConn := func(evs []*Event) bool {
		for _, ev := range evs {
			if len(ev.Args) > 0 && unwrapIface(ev.Args[0]) == conn {
				return true
			}
		}
		return false
	}
	// what was read stays as it is until the next read
	for _, st := range []step{un, wr, {connM, []*Term{self}}, {remote, []*Term{self}}, {closeM, []*Term{self}}} {
		for _, p := range c.run(e, s.clone(), st.fn, st.args) {
			w, _ := elemWrites(p.S.events)
			if len(w) > 0 {
				c.fail("read:data-kept", w[0].Pos, "%s writes into a buffer that data returned by the last read may lie in", st.fn.Name())
			} else {
				c.ob(true, "read:data-kept", st.fn.Pos(), "")
			}
		}
	}
	nilErr := func(q *seqPath, r *Term) bool { return q.must(mkEq(r, mkNil(r.typ))) }
	// socket read discipline, for every read from every state
	checkRead := func(q *seqPath, i int) bool {
		evs := q.events(i)
		rs := sockReads(evs)
		var dl *Event
		var dlErr *Term
		for _, ev := range evs {
			c.ob(!evIs(ev, "SetWriteDeadline") && !evIs(ev, "SetDeadline"), "read:limits-reading-only", ev.Pos, "a read limits the time of later writes, too")
			if evIs(ev, "SetReadDeadline") || evIs(ev, "SetDeadline") {
				c.ob(unwrapIface(ev.Args[0]) == conn, "read:deadline-on-own-conn", ev.Pos, "a deadline is set on another connection")
				d := ev.Args[1]
				ok := d.op == OCall && strings.HasPrefix(d.name, "(time.Time).Add") && d.args[0].op == OSym && strings.HasPrefix(d.args[0].name, "time.Now#") && q.equal(d.args[1], timeout)
				c.ob(ok, "read:deadline-now-plus-timeout", ev.Pos, "the read deadline is %s instead of the current time plus the configured timeout", d)
				dl = ev
				dlErr = ev.Res[0]
			}
			if isConn(ev, "Read") {
				c.ob(dl != nil && q.must(mkEq(dlErr, mkNil(dlErr.typ))), "read:deadline-before-socket-read", ev.Pos, "the socket is read without a deadline having been set successfully")
				c.ob(ev.Args[1] == buff, "read:whole-buffer", ev.Pos, "the socket is read into %s instead of the configured buffer", ev.Args[1])
			}
		}
		c.ob(len(rs) <= 1, "read:one-socket-read", read.Pos(), "one Read performs several socket reads, losing the earlier data")
		if len(rs) == 1 {
			n, err := rs[0].Res[0], rs[0].Res[1]
			c.ob(len(q.Res[i]) == 2 && q.equal(q.Res[i][0], mkSliceT(buff, tZeroInt, n)), "read:returns-exact-data", rs[0].Pos, "Read returns %s, not exactly the bytes received", q.Res[i][0])
			c.ob(q.equal(q.Res[i][1], err), "read:returns-error", rs[0].Pos, "Read does not return the socket's error")
			return true
		}
		if dl != nil && q.mustNot(mkEq(dlErr, mkNil(dlErr.typ))) {
			c.ob(q.equal(q.Res[i][1], dlErr), "read:deadline-error-returned", dl.Pos, "a failure to set the deadline is not returned")
			return true
		}
		return false
	}
	// from an arbitrary state: two reads, the second always goes to the socket
	n := 0
	for _, q := range c.seq(e, s.clone(), rd, rd) {
		if !c.ob(q.Kind == PReturn, "read:no-panic", q.Pos, "Read can panic") {
			continue
		}
		n++
		if !checkRead(q, 0) {
			c.ob(nilErr(q, q.Res[0][1]) && !anyConn(q.events(0)), "read:pushed-back-data-without-error", read.Pos(), "Read returns without reading the socket, but with an error")
			c.ob(q.must(mkGt(mkLen(q.Res[0][0]), tZeroInt)), "read:no-empty-result-without-socket", read.Pos(), "Read may return no data and no error without reading the socket")
		}
		c.ob(checkRead(q, 1), "read:pushed-back-data-once", read.Pos(), "data pushed back is handed out more than once (path: %s)", q.describe(c))
	}
	c.ob(n >= 3, "read:paths", read.Pos(), "too few paths through Read")
	// push-back then read
	for _, mid := range [][]step{{un, rd}, {un, wr, rd}, {rd, un, rd}, {un, un, rd}} {
		for _, q := range c.seq(e, s.clone(), mid...) {
			if q.Kind != PReturn {
				continue
			}
			i := len(mid) - 1
			if q.mustNot(mkGt(mkLen(x), tZeroInt)) {
				c.ob(checkRead(q, i), "unread:empty-push-back-is-nothing", read.Pos(), "after an empty push-back Read does not go to the socket")
				continue
			}
			c.ob(q.must(mkGt(mkLen(x), tZeroInt)), "unread:decided-by-length", read.Pos(), "whether pushed-back data is returned does not depend on its length only")
			c.ob(q.equal(q.Res[i][0], x) && nilErr(q, q.Res[i][1]), "unread:returned-first", read.Pos(), "Read returns %s instead of the data pushed back", q.Res[i][0])
			c.ob(!anyConn(q.events(i)), "unread:no-socket-access", read.Pos(), "the socket is touched although pushed-back data is available")
		}
	}
	// a new client has nothing pending
	e2 := c.engine()
	for _, p := range returns(c.run(e2, nil, ctor, []*Term{conn, timeout, buff})) {
		for _, q := range c.seq(e2, p.S.clone(), step{read, []*Term{unwrapIface(p.Results[0])}}) {
			q.At[0] = len(p.S.events)
			c.ob(checkRead(q, 0), "new:nothing-pending", ctor.Pos(), "a new client returns data it never received")
		}
	}
	// write
	for _, q := range c.seq(e, s.clone(), wr) {
		var ws []*Event
		for _, ev := range q.S.events {
			if isConn(ev, "Write") {
				ws = append(ws, ev)
			}
		}
		if !c.ob(q.Kind == PReturn && len(ws) == 1 && ws[0].Args[1] == b, "write:all-bytes-once", write.Pos(), "Write does not hand exactly the given bytes to the connection once") {
			continue
		}
		err := ws[0].Res[1]
		c.ob(q.equal(q.Res[0][0], err) || q.mustNot(mkEq(q.Res[0][0], mkNil(err.typ))), "write:error-returned", write.Pos(), "a failed Write is reported as a success")
	}
	for _, q := range c.seq(e, s.clone(), step{connM, []*Term{self}}) {
		c.ob(q.same(q.Res[0][0], conn), "conn:own-connection", connM.Pos(), "Conn does not return the client's connection")
	}
	for _, q := range c.seq(e, s.clone(), step{remote, []*Term{self}}) {
		ev := q.calls("RemoteAddr")
		c.ob(len(ev) == 1 && unwrapIface(ev[0].Args[0]) == conn && q.equal(q.Res[0][0], ev[0].Res[0]), "remote:peer-address", remote.Pos(), "Remote does not return the connection's remote address")
	}
	for _, q := range c.seq(e, s.clone(), step{closeM, []*Term{self}}) {
		ev := q.calls("Close")
		c.ob(len(ev) == 1 && unwrapIface(ev[0].Args[0]) == conn && q.equal(q.Res[0][0], ev[0].Res[0]), "close:closes-connection", closeM.Pos(), "Close does not close the connection and return the outcome")
	}
	c.boundsOf(e)
}

func ruleC04(c *Ctx) {
	ctor := c.fn("internal/stash", "New")
	read, reset := c.fn("internal/stash", "Reader.Read"), c.fn("internal/stash", "Reader.Reset")
	if ctor == nil || read == nil || reset == nil {
		return
	}
	e := c.engine()
	e.Bounds = true
	e.NoHavoc = func(string) bool { return true } // the source cannot reach the reader's private state
	src := mkSym("source", ctor.Params[0].Type())
	s, obj := c.object(e, ctor, "rd", []*Term{src})
	if obj == nil {
		return
	}
	bt := read.Params[1].Type()
	b1, b2 := mkSym("b1", bt), mkSym("b2", bt)
	r1, r2 := step{read, []*Term{obj, b1}}, step{read, []*Term{obj, b2}}
	rs := step{reset, []*Term{obj}}
	isNil := func(q *seqPath, t *Term) bool { return q.must(mkEq(t, mkNil(t.typ))) }
	notNil := func(q *seqPath, t *Term) bool { return q.mustNot(mkEq(t, mkNil(t.typ))) }
	type rdInfo struct {
		called *Event
		data   *Term // what the data was taken from
		n      *Term
		ok     bool
	}
	look := func(q *seqPath, i int, b *Term) (r rdInfo) {
		for _, ev := range q.events(i) {
			switch {
			case ev.Kind == EvCall && ev.FnT == src:
				c.ob(r.called == nil, "read:one-source-call", ev.Pos, "one Read asks the source twice, dropping the first answer")
				c.ob(r.data == nil, "read:source-before-copy", ev.Pos, "the source is asked after data was handed out")
				r.called = ev
			case ev.Kind == EvCopy:
				base, lo, _ := seqParts(ev.Args[0])
				if base != b {
					continue
				}
				c.ob(r.data == nil && q.equal(lo, tZeroInt), "read:fills-from-start", ev.Pos, "the destination is filled more than once or not from its start")
				// the data ends where the value it is cut from ends
				sb, slo, _ := seqParts(ev.Args[1])
				r.data, r.n = mkSliceT(sb, slo, mkLen(sb)), ev.Args[2]
			}
		}
		n := q.Res[i][0]
		if r.data == nil {
			r.n = tZeroInt
		}
		r.ok = c.ob(q.equal(n, r.n), "read:count", read.Pos(), "Read reports %s bytes but handed out %s", n, r.n)
		if r.data != nil {
			full := q.must(mkEq(r.n, mkLen(b)))
			all := q.must(mkEq(r.n, mkLen(r.data)))
			c.ob(full || all, "read:as-much-as-fits", read.Pos(), "Read hands out less than fits")
		}
		if r.called != nil {
			d := r.called.Res[0]
			if r.data != nil {
				c.ob(q.equal(r.data, d), "read:hands-on-source-data", read.Pos(), "after asking the source, Read hands out %s instead of the source's data", r.data)
			} else {
				c.ob(q.must(mkEq(mkLen(d), tZeroInt)) || q.must(mkEq(mkLen(b), tZeroInt)), "read:hands-on-source-data", read.Pos(), "the source's data is not handed out")
				r.data = d
			}
			err := q.Res[i][1]
			if q.must(mkEq(r.n, mkLen(d))) {
				c.ob(q.equal(err, r.called.Res[1]) || isNil(q, err) && isNil(q, r.called.Res[1]), "read:error-with-last-byte", read.Pos(), "all data is handed out but the source's error is not reported")
			} else {
				c.ob(isNil(q, err), "read:no-error-before-data", read.Pos(), "an error is reported while data is left")
			}
		}
		return
	}
	c.noteSeq(q2(c, e, s, []step{r1, r2}), func(q *seqPath) {
		a := look(q, 0, b1)
		b := look(q, 1, b2)
		err1, err2 := q.Res[0][1], q.Res[1][1]
		if a.data != nil && q.must(mkLt(a.n, mkLen(a.data))) {
			rest := mkSliceT(a.data, a.n, mkLen(a.data))
			c.ob(b.called == nil, "read:rest-before-source", read.Pos(), "the source is asked again although data is left: that data is lost")
			c.ob(isNil(q, err1), "read:no-error-before-data", read.Pos(), "an error is reported while data is left")
			ok := b.data != nil && q.equal(b.data, rest) || b.data == nil && q.must(mkEq(mkLen(b2), tZeroInt))
			c.ob(ok, "read:continues-where-it-stopped", read.Pos(), "the second Read hands out %v instead of the rest %s", b.data, rest)
			return
		}
		if a.called == nil && a.data == nil {
			// nothing handed out and the source not asked: only the sticky error
			c.ob(notNil(q, err1), "read:progress", read.Pos(), "Read returns no data and no error without asking the source")
		}
		switch {
		case notNil(q, err1):
			c.ob(b.called == nil && q.must(mkEq(q.Res[1][0], tZeroInt)) && q.equal(err2, err1), "read:error-is-sticky", read.Pos(), "after an error was reported, the next Read does not report it again without data (path: %s)", q.describe(c))
		case isNil(q, err1):
			c.ob(b.called != nil, "read:asks-source-when-drained", read.Pos(), "all data was handed out without an error, but the source is not asked for more (path: %s)", q.describe(c))
		default:
			c.ob(false, "read:error-decided", read.Pos(), "cannot tell whether an error is reported")
		}
	})
	c.noteSeq(q2(c, e, s, []step{rs, r1}), func(q *seqPath) {
		a := look(q, 1, b1)
		c.ob(a.called != nil, "reset:forgets", reset.Pos(), "after Reset, Read does not start with the source (path: %s)", q.describe(c))
	})
	e2 := c.engine()
	e2.NoHavoc = e.NoHavoc
	for _, p := range returns(c.run(e2, nil, ctor, []*Term{src})) {
		for _, q := range c.seq(e2, p.S.clone(), step{read, []*Term{p.Results[0], b1}}) {
			a := look(q, 0, b1)
			c.ob(a.called != nil, "new:starts-with-source", ctor.Pos(), "a new reader does not start with the source")
		}
	}
	c.boundsOf(e)
}

func q2(c *Ctx, e *Engine, s *State, st []step) []*seqPath { return c.seq(e, s.clone(), st...) }

func (c *Ctx) noteSeq(qs []*seqPath, f func(*seqPath)) {
	for _, q := range qs {
		if !c.ob(q.Kind == PReturn, "no-panic", q.Pos, "a path ends in %s", q.Kind) {
			continue
		}
		f(q)
	}
}

// elemOf splits a value read from a slice element into the slice and the index.
func elemOf(x *Term) (base, idx *Term) {
	switch x.op {
	case OElem:
		return x.args[0], x.args[1]
	case OLoad:
		if x.args[0].op == OIndexAddr {
			return x.args[0].args[0], x.args[0].args[1]
		}
	}
	return nil, nil
}

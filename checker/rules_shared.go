package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C28", "Points-to and effect analysis of everything reachable from serving a connection or a request: no write to memory that connections share.", 40, ruleC28)
}

// notServing: helpers for tests that live in ordinary packages.
func notServing(f *ssa.Function) bool {
	path := pkgPathOf(f)
	for _, p := range []string{"/internal/httptest", "/internal/tcp/dummy", "/tests", "/examples"} {
		if strings.HasPrefix(path, modPath+p) {
			return true
		}
	}
	return false
}

// servingSig: functions called while requests are served: handlers, middlewares, mutators, and the
// handlers of connections.
func servingSig(s *types.Signature) bool {
	if s.Recv() != nil {
		return false
	}
	ptr := func(t types.Type, pkg, name string) bool {
		p, ok := t.(*types.Pointer)
		if !ok {
			return false
		}
		n, ok := types.Unalias(p.Elem()).(*types.Named)
		return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
	}
	named := func(t types.Type, pkg, name string) bool {
		n, ok := types.Unalias(t).(*types.Named)
		return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
	}
	n := s.Params().Len()
	if n == 0 {
		return false
	}
	last := s.Params().At(n - 1).Type()
	if ptr(last, modPath+"/http", "Request") {
		if n == 1 {
			return s.Results().Len() == 0 || s.Results().Len() == 1 && ptr(s.Results().At(0).Type(), modPath+"/http", "Response")
		}
		if n == 2 {
			_, ok := s.Params().At(0).Type().Underlying().(*types.Signature)
			return ok
		}
	}
	first := s.Params().At(0).Type()
	if named(first, "net", "Conn") {
		return n == 1 || n == 2 && named(last, modPath+"/router", "Router")
	}
	return false
}

func pkgPathOf(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

// handlersPkg: packages whose exported functions handlers call.
func handlersPkg(f *ssa.Function) bool {
	path := pkgPathOf(f)
	if r := f.Signature.Recv(); r != nil {
		// what requests give access to: bodies and clients
		if path == modPath+"/internal/protocol/http1" || path == modPath+"/internal/tcp" && strings.Contains(strings.ToLower(r.Type().String()), "client") {
			return true
		}
	}
	return path == modPath+"/http" || strings.HasPrefix(path, modPath+"/http/") || path == modPath+"/internal/keyvalue"
}

// setupPkg: packages whose functions set an application up, unless serving reaches them.
func setupPkg(f *ssa.Function) bool {
	path := pkgPathOf(f)
	return path == modPath || path == modPath+"/config" || strings.HasPrefix(path, modPath+"/router")
}

func ruleC28(c *Ctx) {
	a := newPointsTo(c.P, notServing)
	var fns []*ssa.Function
	for _, f := range c.P.RepoFuncs() {
		if !notServing(f) && f.TypeParams().Len() == 0 {
			fns = append(fns, f)
			a.reach(f)
		}
	}
	http1 := c.fn("http/serve", "HTTP1")
	ri := c.P.pkg("router")
	if http1 == nil || !c.ob(ri != nil, "anchor:router", token.NoPos, "package router is gone") {
		return
	}
	rt, _ := ri.types.Scope().Lookup("Router").(*types.TypeName)
	if !c.ob(rt != nil, "anchor:router.Router", token.NoPos, "the interface of routers is gone") {
		return
	}
	riface, _ := rt.Type().Underlying().(*types.Interface)
	// where serving starts
	seeds := map[*ssa.Function]string{http1: "connections"}
	nr, nh := 0, 0
	for _, f := range fns {
		if r := f.Signature.Recv(); r != nil && riface != nil {
			for i := 0; i < riface.NumMethods(); i++ {
				if riface.Method(i).Name() == f.Name() && types.Implements(r.Type(), riface) {
					seeds[f] = "router"
					nr++
				}
			}
		}
		if servingSig(f.Signature) && f.Parent() == nil && f.Name() != "init" {
			seeds[f] = "handler"
			nh++
		}
		// what handlers call on requests, responses and what belongs to them
		if handlersPkg(f) && f.Parent() == nil && f.Object() != nil && f.Object().Exported() {
			seeds[f] = "handler's"
		}
	}
	// goroutines
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if g, ok := ins.(*ssa.Go); ok {
					if t := g.Call.StaticCallee(); t != nil && len(t.Blocks) > 0 && !notServing(t) {
						seeds[t] = "goroutine"
					}
				}
			}
		}
	}
	// parameters that nothing in the repository provides
	for _, f := range fns {
		_, isSeed := seeds[f]
		api := f.Parent() == nil && setupPkg(f) && f.Object() != nil && f.Object().Exported()
		if isSeed || api || servingSig(f.Signature) {
			for _, p := range f.Params {
				a.seedParam(p, !isSeed && api)
			}
		}
	}
	a.solve()
	reached := a.reachable(seeds)
	// closures made while the application is set up
	for _, f := range fns {
		if f.Parent() != nil && servingSig(f.Signature) && !reached[f.Parent()] {
			seeds[f] = "closure"
			nh++
		}
	}
	reached = a.reachable(seeds)
	c.ob(nr >= 6, "entries:routers", token.NoPos, "only %d methods of routers found", nr)
	c.ob(nh >= 10, "entries:handlers", token.NoPos, "only %d handlers, middlewares, mutators found", nh)

	// shared objects: package-level variables, what setup made, strings, and all that they hold
	shared := map[*ptObj]string{}
	var q []*ptObj
	mark := func(o *ptObj, why string) {
		o, _ = a.base(o)
		if _, ok := shared[o]; !ok {
			shared[o] = why
			q = append(q, o)
		}
	}
	for _, o := range a.objs {
		switch o.kind {
		case "global":
			mark(o, "package-level variable "+strings.TrimPrefix(o.label, modPath+"/"))
		case "string":
			mark(o, "memory of a string")
		case "env":
			mark(o, "memory passed when the application is set up")
		case "inner", "func":
		default:
			if o.fn != nil && !reached[o.fn] && setupPkg(o.fn) {
				mark(o, "memory created when the application is set up ("+c.P.pos(o.site.Pos())+")")
			}
		}
	}
	cont := a.contents()
	for len(q) > 0 {
		o := q[0]
		q = q[1:]
		for _, t := range cont[o] {
			mark(t, "memory kept by "+shared[o])
		}
	}
	isShared := func(v ssa.Value, grow bool) string {
		n := a.node(a.val(v), "")
		best, id := "", -1
		for o := range n.pts {
			b, _ := a.base(o)
			if grow && o.clip {
				continue
			}
			if w, ok := shared[b]; ok && (id < 0 || b.id < id) {
				best, id = w, b.id
			}
		}
		return best
	}
	var rs []*ssa.Function
	for f := range reached {
		rs = append(rs, f)
	}
	sort.Slice(rs, func(i, j int) bool {
		if rs[i].Pos() != rs[j].Pos() {
			return rs[i].Pos() < rs[j].Pos()
		}
		return rs[i].String() < rs[j].String()
	})
	if os.Getenv("VERIF_SHOW") != "" {
		for _, f := range fns {
			if !reached[f] {
				fmt.Println("not serving:", f, setupPkg(f))
			}
		}
	}
	writes := 0
	for _, f := range rs {
		c.ob(true, "analysed:"+fnName(f), f.Pos(), "")
		c.fns = append(c.fns, f)
		locks := lockCalls(f)
		bad := func(ins ssa.Instruction, what, why string) {
			for _, l := range locks {
				if l.Block() == ins.Block() && before(l, ins) || l.Block() != ins.Block() && l.Block().Dominates(ins.Block()) {
					return
				}
			}
			p := ins.Pos()
			if !p.IsValid() {
				p = f.Pos()
			}
			c.ob(false, "analysed:"+fnName(f), p, "%s in %s, which runs while requests are served, writes %s", what, f, why)
		}
		check := func(ins ssa.Instruction, target ssa.Value, what string) {
			writes++
			if w := isShared(target, what == "append"); w != "" {
				bad(ins, what, w)
			}
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					check(ins, x.Addr, "the store to "+x.Addr.Name())
				case *ssa.MapUpdate:
					check(ins, x.Map, "the map update")
				case ssa.CallInstruction:
					cc := x.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append":
							if _, isNil := cc.Args[0].(*ssa.Const); !isNil && !clipped(cc.Args[0]) {
								check(ins, cc.Args[0], "append")
							}
						case "copy", "delete", "clear":
							check(ins, cc.Args[0], bi.Name())
						}
						continue
					}
					known := false
					for t := range a.callees[x] {
						if len(t.Blocks) > 0 {
							known = true
						}
					}
					name, recv := calleeName(x), cc.IsInvoke() || cc.Signature().Recv() != nil
					args := cc.Args
					if cc.IsInvoke() {
						args = append([]ssa.Value{cc.Value}, cc.Args...)
					}
					if !cc.IsInvoke() && cc.StaticCallee() == nil || known && !cc.IsInvoke() {
						continue // a function value of the user's, or analysed itself
					}
					for i, ar := range args {
						if !isRef(ar.Type()) || recv && i == 0 && (cc.IsInvoke() || !mutableRecv(ar.Type())) {
							continue
						}
						if recv && i == 0 {
							check(ins, ar, "the call of "+name)
						} else if writesArgs(name) {
							check(ins, ar, "the call of "+name)
						}
					}
				}
			}
		}
	}
	nsh := len(shared)
	c.note("%d functions reachable from %d entries, %d writes checked against %d shared objects of %d", len(rs), len(seeds), writes, nsh, len(a.objs))
	c.ob(writes >= 100, "writes:found", token.NoPos, "only %d writes found", writes)
	c.paths += writes
}

func before(a, b ssa.Instruction) bool {
	for _, i := range a.Block().Instrs {
		if i == a {
			return true
		}
		if i == b {
			return false
		}
	}
	return false
}

// lockCalls: calls that take an exclusive lock.
func lockCalls(f *ssa.Function) (out []ssa.Instruction) {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if call, ok := ins.(*ssa.Call); ok {
				n := calleeName(call)
				if n == "(*sync.Mutex).Lock" || n == "(*sync.RWMutex).Lock" || n == "(sync.Locker).Lock" {
					out = append(out, ins)
				}
			}
		}
	}
	return
}

// clipped: a slice whose capacity is cut to its length, so that appending copies.
func clipped(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	if !ok || s.Max == nil || s.High == nil {
		return false
	}
	if s.Max == s.High {
		return true
	}
	lenOf := func(v ssa.Value) ssa.Value {
		if call, ok := v.(*ssa.Call); ok {
			if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				return call.Call.Args[0]
			}
		}
		return nil
	}
	if l := lenOf(s.Max); l != nil && l == lenOf(s.High) {
		return true
	}
	c1, ok1 := s.Max.(*ssa.Const)
	c2, ok2 := s.High.(*ssa.Const)
	return ok1 && ok2 && c1.Value != nil && c2.Value != nil && c1.Int64() == c2.Int64()
}

// mutableRecv: a pointer to an external type whose methods aren't known to be safe for simultaneous use.
func mutableRecv(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic", "log", "log/slog", "regexp", "net", "os", "crypto/tls", "time", "reflect", "github.com/json-iterator/go", "strings.Replacer":
		return false
	case "strings":
		return n.Obj().Name() != "Replacer"
	}
	return true
}

// writesArgs: external functions that write to the memory passed to them.
func writesArgs(name string) bool {
	i := strings.LastIndexAny(name, ".)")
	base := name[i+1:]
	for _, p := range []string{"Read", "Append", "Put", "Sort", "Swap", "Reverse", "Shuffle", "Encode", "Decode", "Fill", "Unmarshal", "Scan"} {
		if strings.HasPrefix(base, p) {
			return !strings.HasPrefix(name, "strings.") && base != "EncodeToString" && base != "ReadFile"
		}
	}
	return strings.HasPrefix(name, "sort.") && !strings.HasPrefix(base, "Search") && !strings.HasSuffix(base, "AreSorted") && !strings.HasSuffix(base, "IsSorted")
}

func (a *pointsTo) reachable(seeds map[*ssa.Function]string) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var q []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && !out[f] && len(f.Blocks) > 0 && !a.skip(f) {
			out[f] = true
			q = append(q, f)
		}
	}
	for f := range seeds {
		add(f)
	}
	for len(q) > 0 {
		f := q[0]
		q = q[1:]
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if call, ok := ins.(ssa.CallInstruction); ok {
					for t := range a.callees[call] {
						add(t)
					}
				}
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					add(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	return out
}

package main

// Rule framework: a rule decides one property; it records obligations, each tied to a construct of
// the analysed source, and every obligation that is not discharged is a violation.

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obligation struct {
	Key    string `json:"key"`
	OK     bool   `json:"ok"`
	Where  string `json:"where,omitempty"`
	Detail string `json:"detail,omitempty"`
}

type Ctx struct {
	P        *Program
	ID       string
	Tier     string
	Obls     []Obligation
	index    map[string]int
	engines  []*Engine
	notes    []string
	known    map[string]string // known finding key -> description
	hitKnown map[string]bool
	paths    int
	cur      token.Pos // the function analysed last
	spoken   int
	fns      []*ssa.Function // analysed without an engine
}

type Rule struct {
	ID   string
	Desc string
	Run  func(c *Ctx)
	// Min is the number of obligations confirmed by hand on the pinned tree (lower bound).
	Min int
}

var rules = map[string]*Rule{}

func register(id, desc string, min int, run func(c *Ctx)) {
	rules[id] = &Rule{ID: id, Desc: desc, Run: run, Min: min}
}

// ob records an obligation. Obligations are keyed by rule and construct; a key is discharged only if
// every instance of it (every path) is.
func (c *Ctx) ob(ok bool, key string, pos token.Pos, format string, a ...any) bool {
	where := ""
	if !pos.IsValid() {
		pos = c.cur
	}
	if pos.IsValid() {
		where = c.P.pos(pos)
	}
	if i, seen := c.index[key]; seen {
		if !ok && c.Obls[i].OK {
			c.Obls[i].OK = false
			c.Obls[i].Where = where
			c.Obls[i].Detail = fmt.Sprintf(format, a...)
		}
		return ok
	}
	o := Obligation{Key: key, OK: ok, Where: where}
	if !ok {
		o.Detail = fmt.Sprintf(format, a...)
	}
	c.index[key] = len(c.Obls)
	c.Obls = append(c.Obls, o)
	return ok
}

func (c *Ctx) fail(key string, pos token.Pos, format string, a ...any) {
	c.ob(false, key, pos, format, a...)
}

func (c *Ctx) note(format string, a ...any) { c.notes = append(c.notes, fmt.Sprintf(format, a...)) }

// fn resolves an anchor; a missing anchor is a failed obligation.
func (c *Ctx) fn(rel, name string) *ssa.Function {
	f := c.P.Func(rel, name)
	c.ob(f != nil && len(f.Blocks) > 0, "anchor:"+rel+"."+name, token.NoPos, "function %s.%s, which the property is stated about, is not in the program", rel, name)
	if f != nil && len(f.Blocks) == 0 {
		return nil
	}
	return f
}

func (c *Ctx) engine() *Engine {
	e := NewEngine(c.P)
	c.engines = append(c.engines, e)
	e.Bounds = true // whatever is analysed doesn't panic, unless a rule says otherwise
	e.NilChecks, e.NilOnly = true, true
	return e
}

// run analyses fn and records that every path was decided.
func (c *Ctx) run(e *Engine, s *State, fn *ssa.Function, args []*Term) []*Path {
	if s == nil {
		s = newState()
	}
	before := len(e.Undecided)
	c.cur = fn.Pos()
	ps := e.RunFrom(s, fn, args)
	c.paths += len(ps)
	c.ob(len(e.Undecided) == before, "decided:"+fnName(fn), fn.Pos(), "the analysis could not decide %s: %s", fn, strings.Join(e.Undecided[before:], "; "))
	return ps
}

// noPanic: none of the paths ends in an explicit panic.
func (c *Ctx) noPanic(ps []*Path, fn *ssa.Function) {
	for _, p := range ps {
		c.ob(p.Kind != PPanic, "no-panic:"+fnName(fn), p.Pos, "a path through %s ends in a panic", fn)
	}
}

// boundsOf records the in-range obligations an engine collected.
func (c *Ctx) boundsOf(e *Engine) {
	var ks []string
	for k := range e.Obs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		o := e.Obs[k]
		c.ob(o.Proved, "in-range:"+fnName(o.Fn)+":"+o.What, o.Pos, "%s may be out of range: %s", o.What, o.Detail)
	}
}

// ---- path queries ----------------------------------------------------------------------------

func returns(ps []*Path) (out []*Path) {
	for _, p := range ps {
		if p.Kind == PReturn {
			out = append(out, p)
		}
	}
	return
}

// with returns a copy of the path's facts with extra assumptions, or nil when they contradict.
func (p *Path) with(lits ...Lit) *Facts {
	f := p.S.F.clone()
	for _, l := range lits {
		if !f.assume(l.t, l.v) {
			return nil
		}
	}
	if f.bad {
		return nil
	}
	return f
}

func (p *Path) feasible(lits ...Lit) bool {
	f := p.with(lits...)
	if f == nil {
		return false
	}
	return !f.refuteAll(2)
}

func pos(t *Term) Lit { return Lit{t: t, v: true} }
func not(t *Term) Lit { return Lit{t: t, v: false} }

func (p *Path) must(t *Term) bool    { return p.S.F.entails(t) || p.S.F.entailsDeep(t) }
func (p *Path) mustNot(t *Term) bool { return p.must(mkNot(t)) }

// equal: two values are equal on the path.
func (p *Path) equal(a, b *Term) bool {
	if a == b {
		return true
	}
	f := p.S.F
	if f.canonDeep(a) == f.canonDeep(b) {
		return true
	}
	if m := f.fixed(); len(m) > 0 {
		if a2, b2 := substTerm(f.canonDeep(a), m, nil), substTerm(f.canonDeep(b), m, nil); a2 == b2 {
			return true
		}
	}
	return p.must(mkEq(a, b)) || p.congruent(f.canon(a), f.canon(b), 0)
}

// congruent: the same operation on equal operands.
func (p *Path) congruent(a, b *Term, d int) bool {
	if a == b {
		return true
	}
	if d > 6 {
		return false
	}
	if isNumTerm(a) && isNumTerm(b) && (a.op == OLin || b.op == OLin || a.op == OSym || b.op == OSym) {
		return p.must(mkIntEq(a, b))
	}
	if a.op != b.op || a.name != b.name || a.n != b.n || a.obj != b.obj || len(a.args) != len(b.args) || len(a.args) == 0 || a.op == OAlloc || a.op == OLoad {
		return false
	}
	for i := range a.args {
		if !p.congruent(a.args[i], b.args[i], d+1) {
			return false
		}
	}
	return true
}

// calls returns the call/go events whose name has the suffix.
func (p *Path) calls(suffix string) (out []*Event) {
	for _, e := range p.S.events {
		if (e.Kind == EvCall || e.Kind == EvGo) && nameMatches(e.Name, suffix) {
			out = append(out, e)
		}
	}
	return
}

func nameMatches(name, suffix string) bool {
	return name == suffix || strings.HasSuffix(name, suffix) && (len(name) == len(suffix) || strings.ContainsRune("./)*(", rune(name[len(name)-len(suffix)-1])))
}

func (p *Path) describe(c *Ctx) string {
	var b []string
	for _, l := range p.S.F.lits {
		n := ""
		if !l.v {
			n = "not "
		}
		b = append(b, n+l.t.String())
	}
	s := strings.Join(b, " && ")
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	return s
}

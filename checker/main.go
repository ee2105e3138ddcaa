package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

func dump(p *Program, ps []*Path) {
	for i, x := range ps {
		fmt.Printf("--- path %d %s at %s\n", i, x.Kind, p.pos(x.Pos))
		for _, l := range x.S.F.lits {
			fmt.Printf("    %v: %s\n", l.v, l.t)
		}
		for _, g := range x.S.F.segs {
			fmt.Printf("    seg %s[%s,%s) |%d|\n", g.base, g.lo, g.hi, g.m.count())
		}
		for _, g := range x.S.F.foralls {
			fmt.Printf("    forall [%s,%s) %v %s\n", g.lo, g.hi, g.lit.v, g.lit.t)
		}
		for _, e := range x.S.events {
			fmt.Printf("    @ %s  (%s)\n", e, p.pos(e.Pos))
		}
		for _, r := range x.Results {
			fmt.Printf("    => %s\n", r)
		}
		if x.Kind == PBackEdge {
			for _, v := range x.Loop.Vars {
				fmt.Printf("    loop %s: entry %s cur %s next %s\n", v.Name, v.Entry, v.Cur, x.Next[v.Name])
			}
		}
	}
}

func dumpMain(args []string) {
	p, err := LoadProgram(repoDir())
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	p.scanGlobals()
	for _, a := range args {
		i := strings.Index(a, ":")
		f := p.Func(a[:i], a[i+1:])
		if f == nil {
			fmt.Println("no", a)
			continue
		}
		e := NewEngine(p)
		e.Bounds = true
		dump(p, e.Run(f, nil))
		for _, o := range e.Obs {
			if !o.Proved {
				fmt.Println("BOUNDS", p.pos(o.Pos), o.What, o.Detail)
			}
		}
		fmt.Println(len(e.Obs), "obligations", e.Undecided, e.steps)
	}
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func verifDir() string { return filepath.Dir(stubsDir()) }

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

func loadKnown(id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.json"))
	if err != nil {
		return out
	}
	var f struct {
		Findings []knownFinding `json:"findings"`
	}
	if json.Unmarshal(b, &f) != nil {
		return out
	}
	for _, k := range f.Findings {
		if k.Property == id {
			out[k.Key] = k.What
		}
	}
	return out
}

func runRule(id, tier string) (c *Ctx, crash string) {
	c = &Ctx{ID: id, Tier: tier, index: map[string]int{}, hitKnown: map[string]bool{}, known: loadKnown(id)}
	defer func() {
		if r := recover(); r != nil {
			crash = fmt.Sprint(r)
			c.fail("analysis-completes", 0, "the analysis of this tree did not complete: %v\n%s", r, debug.Stack())
		}
	}()
	p, err := LoadProgram(repoDir())
	if err != nil {
		c.P = &Program{}
		c.Obls = append(c.Obls, Obligation{Key: "program-loads", Detail: err.Error()})
		return
	}
	c.P = p
	p.scanGlobals()
	r := rules[id]
	r.Run(c)
	for _, e := range c.engines {
		if e.Bounds {
			c.boundsOf(e)
		}
	}
	if len(c.Obls) < r.Min {
		c.Obls = append(c.Obls, Obligation{Key: "coverage-floor", Detail: fmt.Sprintf("only %d obligations were found; %d were confirmed on the pinned tree: the rule no longer sees the constructs it is about", len(c.Obls), r.Min)})
	}
	return
}

func checkMain(id string) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if rules[id] == nil {
		fmt.Println("no rule for", id)
		return 1
	}
	done := make(chan *Ctx, 1)
	go func() {
		c, _ := runRule(id, tier)
		done <- c
	}()
	var c *Ctx
	select {
	case c = <-done:
	case <-time.After(780 * time.Second):
		c = &Ctx{ID: id, Tier: tier}
		c.Obls = []Obligation{{Key: "analysis-completes", Detail: "the analysis did not finish within 780 s"}}
	}
	var viol []Obligation
	var known []string
	ok := 0
	for _, o := range c.Obls {
		if o.OK {
			ok++
			continue
		}
		if w, is := c.known[o.Key]; is {
			known = append(known, fmt.Sprintf("KNOWN-FINDING: property=%s %s", id, w))
			continue
		}
		viol = append(viol, o)
	}
	evdir := filepath.Join(verifDir(), "evidence")
	if d := os.Getenv("VERIF_EVIDENCE"); d != "" { // developer tools only
		evdir = d
	}
	os.MkdirAll(evdir, 0o755)
	replay := filepath.Join(evdir, id+".violations.txt")
	os.Remove(replay)
	funcs := map[string]bool{}
	steps, loops := 0, 0
	for _, e := range c.engines {
		for f := range e.Funcs {
			funcs[f.String()] = true
		}
		steps += e.steps
	}
	for _, f := range c.fns {
		funcs[f.String()] = true
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, strings.ReplaceAll(f, "github.com/indigo-web/indigo/", ""))
	}
	sort.Strings(fl)
	_ = loops
	var samples []string
	for i, o := range c.Obls {
		if i < 400 {
			samples = append(samples, fmt.Sprintf("%s [%v] %s", o.Key, o.OK, o.Where))
		}
	}
	cov := map[string]any{
		"explanation":          rules[id].Desc,
		"rule":                 rules[id].Desc,
		"obligations":          len(c.Obls),
		"discharged":           ok,
		"known_findings":       len(known),
		"functions_analysed":   fl,
		"abstract_paths":       c.paths,
		"abstract_steps":       steps,
		"obligation_list":      samples,
		"notes":                c.notes,
		"checker_cmd":          "./check.sh " + id,
		"trusted_base":         []string{"the Go type checker and golang.org/x/tools/go/ssa", "the abstract interpreter in /verif/checker", "the models of standard-library functions in models.go", "the stand-in modules in /verif/stubs for dependencies that are not in the module cache"},
		"functions_analysed_n": len(fl),
	}
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": ruleLevel(id), "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": len(viol),
		"assumptions": []string{"standard library functions behave as documented", "user-supplied callbacks and interface implementations may do anything to memory they can reach, but do not use unsafe"}}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evdir, id+".json"), b, 0o644)
	for _, k := range known {
		fmt.Println(k)
	}
	if len(viol) == 0 {
		fmt.Printf("%s: held; %d obligations, %d functions, %d abstract paths, %.1fs\n", id, len(c.Obls), len(fl), c.paths, time.Since(start).Seconds())
		return 0
	}
	var w strings.Builder
	for _, v := range viol {
		fmt.Fprintf(&w, "%s: rule %s: %s\n    %s\n", v.Where, id, v.Key, v.Detail)
	}
	os.WriteFile(replay, []byte(w.String()), 0o644)
	fmt.Print(w.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	return 1
}

func ruleLevel(id string) string { return "other" }

func main() {
	debug.SetGCPercent(400)
	if f := os.Getenv("VERIF_PROF"); f != "" { // developer tools only
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	if len(os.Args) > 1 && os.Args[1] == "-dump" {
		dumpMain(os.Args[2:])
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "-list" {
		var ids []string
		for id := range rules {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	}
	ids := os.Args[1:]
	if len(ids) == 0 {
		for id := range rules {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	rc := 0
	for _, id := range ids {
		if checkMain(id) != 0 {
			rc = 1
		}
	}
	pprof.StopCPUProfile()
	os.Exit(rc)
}

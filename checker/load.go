package main

// The loader: type-checks /repo's current sources (no go list, no network) and builds SSA.

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/indigo-web/indigo"

type pkgInfo struct {
	path  string
	dir   string
	files []*ast.File
	types *types.Package
	info  *types.Info
	ssa   *ssa.Package
	repo  bool
}

type Program struct {
	repo    string
	fset    *token.FileSet
	pkgs    map[string]*pkgInfo
	prog    *ssa.Program
	sizes   types.Sizes
	useStub bool
	goVer   string
	errs    []string
	mu      sync.Mutex
	ctx     build.Context
	fwrites map[string][]ssa.Instruction
	srcDirs map[string]string // modcache overrides: import path prefix -> dir
}

func stubsDir() string {
	if d := os.Getenv("VERIF_STUBS"); d != "" {
		return d
	}
	exe, err := os.Executable()
	if err == nil {
		d := filepath.Join(filepath.Dir(filepath.Dir(exe)), "stubs")
		if _, err := os.Stat(d); err == nil {
			return d
		}
	}
	return "/verif/stubs"
}

func goroot() string {
	if d := os.Getenv("GOROOT"); d != "" {
		return d
	}
	return runtime.GOROOT()
}

// LoadProgram loads every non-test package of the repository.
func LoadProgram(repo string) (*Program, error) {
	in.reset()
	p, err := loadProgram(repo, true)
	if err != nil || len(p.errs) > 0 {
		if p2, err2 := loadProgram(repo, false); err2 == nil && len(p2.errs) == 0 {
			return p2, nil
		}
	}
	if err != nil {
		return nil, err
	}
	if len(p.errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(p.errs, "; "))
	}
	return p, nil
}

func loadProgram(repo string, stubs bool) (*Program, error) {
	p := &Program{repo: repo, fset: token.NewFileSet(), pkgs: map[string]*pkgInfo{}, useStub: stubs}
	p.sizes = types.SizesFor("gc", "amd64")
	p.ctx = build.Default
	p.ctx.CgoEnabled = false
	p.ctx.GOOS, p.ctx.GOARCH = "linux", "amd64"
	p.ctx.GOROOT = goroot()
	p.goVer = "go1.18"
	if b, err := os.ReadFile(filepath.Join(repo, "go.mod")); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			f := strings.Fields(l)
			if len(f) == 2 && f[0] == "go" {
				p.goVer = "go" + f[1]
			}
		}
	}
	var paths []string
	err := filepath.Walk(repo, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			n := fi.Name()
			if path != repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor" || n == "examples" || n == "node_modules") {
				return filepath.SkipDir
			}
			bp, err := p.ctx.ImportDir(path, 0)
			if err == nil && len(bp.GoFiles) > 0 {
				rel, _ := filepath.Rel(repo, path)
				ip := modPath
				if rel != "." {
					ip += "/" + filepath.ToSlash(rel)
				}
				paths = append(paths, ip)
			}
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	sort.Strings(paths)
	for _, ip := range paths {
		if _, err := p.load(ip, repo); err != nil {
			return nil, err
		}
	}
	// SSA
	p.prog = ssa.NewProgram(p.fset, ssa.InstantiateGenerics)
	var all []string
	for k := range p.pkgs {
		all = append(all, k)
	}
	sort.Strings(all)
	if len(p.errs) > 0 {
		return p, nil
	}
	for _, k := range all {
		pi := p.pkgs[k]
		if pi.repo {
			pi.ssa = p.prog.CreatePackage(pi.types, pi.files, pi.info, true)
		} else {
			pi.ssa = p.prog.CreatePackage(pi.types, nil, nil, true)
		}
	}
	for _, k := range all {
		if p.pkgs[k].repo {
			p.pkgs[k].ssa.Build()
		}
	}
	return p, nil
}

func (p *Program) dirOf(path string) (string, bool, error) {
	if path == modPath || strings.HasPrefix(path, modPath+"/") {
		return filepath.Join(p.repo, strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")), true, nil
	}
	st := stubsDir()
	switch {
	case strings.HasPrefix(path, "github.com/indigo-web/utils/"):
		return filepath.Join(st, "utils", strings.TrimPrefix(path, "github.com/indigo-web/utils/")), false, nil
	case path == "github.com/indigo-web/chunkedbody":
		return filepath.Join(st, "chunkedbody"), false, nil
	case path == "github.com/indigo-web/iter":
		return filepath.Join(st, "iter"), false, nil
	case p.useStub && path == "github.com/json-iterator/go":
		return filepath.Join(st, "jsoniter"), false, nil
	case p.useStub && path == "golang.org/x/crypto/acme/autocert":
		return filepath.Join(st, "autocert"), false, nil
	}
	for _, d := range []string{filepath.Join(p.ctx.GOROOT, "src", path), filepath.Join(p.ctx.GOROOT, "src", "vendor", path)} {
		if fi, err := os.Stat(d); err == nil && fi.IsDir() {
			return d, false, nil
		}
	}
	if i := strings.Index(path, "/"); i > 0 && strings.Contains(path[:i], ".") {
		// module cache: any version will do for types
		parts := strings.Split(path, "/")
		mc := filepath.Join(os.Getenv("HOME"), "go", "pkg", "mod")
		for n := len(parts); n >= 2; n-- {
			m, _ := filepath.Glob(filepath.Join(mc, filepath.Join(parts[:n]...)+"@*"))
			sort.Strings(m)
			for i := len(m) - 1; i >= 0; i-- {
				d := filepath.Join(append([]string{m[i]}, parts[n:]...)...)
				if _, err := os.Stat(d); err == nil {
					return d, false, nil
				}
			}
		}
	}
	return "", false, fmt.Errorf("package %q not found", path)
}

type imp struct {
	p   *Program
	dir string
}

func (i imp) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	pi, err := i.p.load(path, i.dir)
	if err != nil {
		return nil, err
	}
	return pi.types, nil
}

func (p *Program) load(path, from string) (*pkgInfo, error) {
	if pi, ok := p.pkgs[path]; ok {
		if pi.types == nil {
			return nil, fmt.Errorf("import cycle through %s", path)
		}
		return pi, nil
	}
	dir, inRepo, err := p.dirOf(path)
	if err != nil {
		return nil, err
	}
	pi := &pkgInfo{path: path, dir: dir, repo: inRepo}
	// helper modules whose bodies the rules look into
	full := inRepo || path == "github.com/indigo-web/iter"
	pi.repo = full
	p.pkgs[path] = pi
	bp, err := p.ctx.ImportDir(dir, 0)
	if err != nil {
		return nil, err
	}
	names := append([]string{}, bp.GoFiles...)
	sort.Strings(names)
	mode := parser.SkipObjectResolution
	if full {
		mode |= parser.ParseComments
	}
	pi.files = make([]*ast.File, len(names))
	errs := make([]error, len(names))
	var wg sync.WaitGroup
	for i, n := range names {
		wg.Add(1)
		go func(i int, n string) {
			defer wg.Done()
			pi.files[i], errs[i] = parser.ParseFile(p.fset, filepath.Join(dir, n), nil, mode)
		}(i, n)
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return nil, e
		}
	}
	conf := types.Config{
		Importer:         imp{p, dir},
		Sizes:            p.sizes,
		IgnoreFuncBodies: !full,
		FakeImportC:      true,
		Error: func(err error) {
			if full {
				p.errs = append(p.errs, err.Error())
			}
		},
	}
	if inRepo {
		conf.GoVersion = p.goVer
	}
	if full {
		pi.info = &types.Info{
			Types:        map[ast.Expr]types.TypeAndValue{},
			Defs:         map[*ast.Ident]types.Object{},
			Uses:         map[*ast.Ident]types.Object{},
			Implicits:    map[ast.Node]types.Object{},
			Selections:   map[*ast.SelectorExpr]*types.Selection{},
			Scopes:       map[ast.Node]*types.Scope{},
			Instances:    map[*ast.Ident]types.Instance{},
			FileVersions: map[*ast.File]string{},
		}
	}
	tp, _ := conf.Check(path, p.fset, pi.files, pi.info)
	pi.types = tp
	return pi, nil
}

// ---- lookups

func (p *Program) pkg(rel string) *pkgInfo {
	ip := modPath
	if rel != "" {
		ip += "/" + rel
	}
	return p.pkgs[ip]
}

// Func finds a package-level function ("Parse") or a method ("Server.Start", pointer or value
// receiver alike) of a repository package. nil if it's gone.
func (p *Program) Func(rel, name string) *ssa.Function {
	pi := p.pkg(rel)
	if pi == nil || pi.ssa == nil {
		return nil
	}
	if i := strings.Index(name, "."); i >= 0 {
		obj := pi.types.Scope().Lookup(name[:i])
		tn, ok := obj.(*types.TypeName)
		if !ok {
			return nil
		}
		named, ok := types.Unalias(tn.Type()).(*types.Named)
		if !ok {
			return nil
		}
		for i2 := 0; i2 < named.NumMethods(); i2++ {
			if m := named.Method(i2); m.Name() == name[i+1:] {
				return p.prog.FuncValue(m)
			}
		}
		return nil
	}
	return pi.ssa.Func(name)
}

// RepoFuncs lists every source function (anonymous ones included) of the repository.
func (p *Program) RepoFuncs() []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		if f.Blocks != nil {
			out = append(out, f)
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	var paths []string
	for k := range p.pkgs {
		if strings.HasPrefix(k, modPath) {
			paths = append(paths, k)
		}
	}
	sort.Strings(paths)
	for _, k := range paths {
		pi := p.pkgs[k]
		var names []string
		for n := range pi.ssa.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := pi.ssa.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				if named, ok := types.Unalias(m.Type()).(*types.Named); ok {
					for i := 0; i < named.NumMethods(); i++ {
						add(p.prog.FuncValue(named.Method(i)))
					}
				}
			}
		}
	}
	return out
}

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.fset.Position(pos)
	f := ps.Filename
	if r, err := filepath.Rel(p.repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// packages whose initialisers are not run (their functions are either not
// called or replaced by contracts)
func skipInit(p string) bool {
	switch p {
	case "io", "bufio", "container/list", "container/heap", "strings", "strconv", "bytes", "sort", "slices", "math", "net/url", "path", "maps", "cmp", "flag", "unicode/utf8", "iter", "math/bits",
		"golang.org/x/net/html", "golang.org/x/net/html/atom", "github.com/andybalholm/cascadia", repoPath, repoPath + "/cmd/readability":
		return false
	}
	return true
}

func loadProg(repo string, overlay map[string][]byte, command bool) (*Prog, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repo,
		Overlay: overlay,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "CGO_ENABLED=0"),
	}
	pattern := "."
	if command {
		pattern = "./cmd/readability"
	}
	pkgs, err := packages.Load(cfg, pattern)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs[:min(len(errs), 5)], "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{prog: prog, fset: prog.Fset, fns: map[*ssa.Function]*Fn{}, gidx: map[*ssa.Global]int{}, pkgNames: map[string]*ssa.Package{}, sizes: types.SizesFor("gc", "amd64")}
	all := prog.AllPackages()
	sort.Slice(all, func(i, j int) bool { return all[i].Pkg.Path() < all[j].Pkg.Path() })
	for _, sp := range all {
		p.pkgNames[sp.Pkg.Path()] = sp
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if g, ok := sp.Members[n].(*ssa.Global); ok {
				p.global(g)
			}
		}
	}
	p.repoPkg = p.pkgNames[repoPath]
	if p.repoPkg == nil {
		return nil, fmt.Errorf("package %s not loaded", repoPath)
	}
	if command {
		p.cmdPkg = p.pkgNames[repoPath+"/cmd/readability"]
		if p.cmdPkg == nil {
			return nil, fmt.Errorf("the command's package is not loaded")
		}
	}
	p.errStringT = p.canon.of(types.NewPointer(p.pkgNames["errors"].Type("errorString").Type()))
	p.anyT = types.Universe.Lookup("any").Type()
	p.redir = map[string]*ssa.Function{}
	for k, v := range redirects {
		if fn := p.member(v); fn != nil {
			p.redir[k] = fn
		}
	}
	return p, nil
}

func newMachine(p *Prog, solver string) *M {
	m := &M{p: p, ctx: newTermCtx(), cvIdx: map[string]int{}, fnSeen: map[*Fn]int64{}, poisoned: map[string]bool{}, termTabs: map[*Term]*Tab{},
		budget: 40_000_000, maxDep: 5000}
	m.verCtr = 1
	m.domVer = 1
	m.sol = newSolver(solver)
	for _, g := range p.globals {
		n := slotsOf(g.Type().Underlying().(*types.Pointer).Elem())
		m.globals = append(m.globals, &Obj{slots: make([]V, n)})
	}
	m.initPackages()
	m.budget = 40_000_000
	m.fnSeen = map[*Fn]int64{}
	m.bumpEpoch()
	m.trail = nil
	m.steps = 0
	return m
}

func (m *M) initPackages() {
	m.noFork, m.initing = true, true
	done := map[*types.Package]bool{}
	var visit func(tp *types.Package)
	visit = func(tp *types.Package) {
		if done[tp] {
			return
		}
		done[tp] = true
		for _, im := range tp.Imports() {
			visit(im)
		}
		path := tp.Path()
		if skipInit(path) {
			m.poisoned[path] = true
			return
		}
		sp := m.p.prog.Package(tp)
		if sp == nil {
			return
		}
		init := sp.Func("init")
		if init == nil {
			return
		}
		fn := m.p.fn(init)
		m.frames = nil
		m.steps = 0
		m.pushCall(fn, nil, nil, -1)
		m.budget = 20_000_000
		if !m.run(0) {
			m.initErrs = append(m.initErrs, fmt.Sprintf("%s: %s %s %s", path, m.outcome.kind, m.outcome.msg, m.outcome.at))
			m.poisoned[path] = true
		}
		m.frames = nil
	}
	if m.p.cmdPkg != nil {
		visit(m.p.cmdPkg.Pkg)
	}
	visit(m.p.repoPkg.Pkg)
	m.noFork, m.initing = false, false
}

// member finds a function of the harness, in the library's package or the command's.
func (p *Prog) member(name string) *ssa.Function {
	if fn := p.repoPkg.Func(name); fn != nil || p.cmdPkg == nil {
		return fn
	}
	return p.cmdPkg.Func(name)
}

// globals of packages without initialiser that the harness of the command sets
var harnessSets = map[string]bool{"os.Args": true, "os.Stdout": true, "os.Stderr": true, "os.Stdin": true, "net/http.DefaultClient": true}

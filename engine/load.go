package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// Case is one harness function with concrete parameters.
type Case struct {
	prop     string
	tier     string
	fn       string
	pkg      string
	params   map[string]string
	ssaFn    *ssa.Function
	mapOrder int
	maxLoop  int
	preempt  int
	noMerge  bool
	raw      int
	draws    int // most random draws considered on a path, 0 for any number
	free     int // random draws that are symbolic, later ones are fixed; -1 for all
	tok      bool
	race     bool
	exitBad  bool
	budget   int // seconds
	name     string
	covers   []string
	optional bool
}

const repoPath = "github.com/ryanbressler/CloudForest"

func goEnv(gopath string) []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := e[:strings.IndexByte(e, '=')]
		switch k {
		case "GO111MODULE", "GOPATH", "GOFLAGS", "GOWORK":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GO111MODULE=off", "GOPATH="+gopath, "GOFLAGS=", "CGO_ENABLED=0", "GOTOOLCHAIN=local")
}

// packages whose package-level initialisation is not interpreted
func initDenied(path string) bool {
	switch path {
	case "internal/strconv":
		return false
	case "errors", "runtime", "os", "syscall", "time", "reflect", "internal/poll", "internal/cpu", "internal/godebug", "internal/testlog",
		"internal/oserror", "internal/syscall/unix", "internal/syscall/execenv", "io/fs", "path", "log/internal", "internal/bytealg",
		"runtime/pprof", "runtime/debug", "compress/gzip", "text/tabwriter", "internal/reflectlite", "sync", "internal/sync", "internal/race",
		"encoding/json", "encoding/json/v2", "encoding/json/jsontext", "encoding", "encoding/base64", "unique", "weak", "os/signal", "context", "crypto/rand", "path/filepath", "internal/filepathlite",
		"archive/zip", "hash/crc32", "compress/flate", "encoding/binary", "iter", "maps", "slices", "cmp":
		return true
	}
	for _, p := range []string{"runtime/", "internal/runtime", "internal/abi", "internal/goarch", "internal/goos", "internal/goexperiment", "crypto/", "net", "vendor/", "internal/syscall", "internal/profile", "text/", "internal/"} {
		if strings.HasPrefix(path, p) {
			return true
		}
	}
	return false
}

func loadProgram(gopath, dir string, patterns []string) (*Program, []*Case, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes,
		Dir:        dir,
		Env:        goEnv(gopath),
		BuildFlags: []string{"-tags=purego,math_big_pure_go,gosym"},
	}
	t0 := time.Now()
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, p.PkgPath+": "+e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog := ssa.NewProgram(pkgs[0].Fset, ssa.InstantiateGenerics)
	p := &Program{prog: prog, fns: map[*ssa.Function]*FnInfo{}, globals: map[*ssa.Global]ObjID{}, gnames: map[ObjID]string{},
		repl: map[string]*ssa.Function{}, repoPkg: map[string]bool{}, repoG: map[ObjID]bool{}}
	var order []*packages.Package
	packages.Visit(pkgs, nil, func(q *packages.Package) { order = append(order, q) })
	for _, q := range order {
		prog.CreatePackage(q.Types, q.Syntax, q.TypesInfo, true)
		if strings.HasPrefix(q.PkgPath, repoPath) || strings.HasPrefix(q.PkgPath, "cfmain/") {
			p.repoPkg[q.PkgPath] = true
		}
	}
	// replacement models and harness cases from doc comments
	var cases []*Case
	for _, q := range order {
		sp := prog.Package(q.Types)
		if q.PkgPath == "vmodel" {
			for _, f := range q.Syntax {
				for _, d := range f.Decls {
					fd, ok := d.(*ast.FuncDecl)
					if !ok || fd.Doc == nil {
						continue
					}
					for _, c := range fd.Doc.List {
						if r, ok := strings.CutPrefix(c.Text, "//gosym:replace "); ok {
							for _, n := range strings.Fields(r) {
								p.repl[n] = sp.Func(fd.Name.Name)
							}
						}
					}
				}
			}
		}
		if strings.HasPrefix(q.PkgPath, "harness/") {
			for _, f := range q.Syntax {
				for _, d := range f.Decls {
					fd, ok := d.(*ast.FuncDecl)
					if !ok || fd.Doc == nil || fd.Recv != nil {
						continue
					}
					for _, c := range fd.Doc.List {
						if r, ok := strings.CutPrefix(c.Text, "//gosym: "); ok {
							for _, l := range expand(r) {
								cs, err := parseCase(l, fd.Name.Name, q.PkgPath)
								if err != nil {
									return nil, nil, err
								}
								cs.ssaFn = sp.Func(fd.Name.Name)
								cases = append(cases, cs)
							}
						}
					}
				}
			}
		}
	}
	// globals
	for _, q := range order {
		sp := prog.Package(q.Types)
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if g, ok := sp.Members[n].(*ssa.Global); ok {
				func() {
					defer func() { recover() }()
					id := p.global(g)
					if p.repoPkg[q.PkgPath] {
						p.repoG[id] = true
					}
				}()
			}
		}
	}
	t1 := time.Now()
	// run package initialisers concretely
	ex := newExec(p, &Case{name: "init", maxLoop: 1 << 30, free: -1, params: map[string]string{}}, nil)
	ex.nextObj = p.baseObj
	ex.deadline = time.Now().Add(120 * time.Second)
	done := map[string]bool{}
	var visit func(q *packages.Package) error
	visit = func(q *packages.Package) error {
		if done[q.PkgPath] {
			return nil
		}
		done[q.PkgPath] = true
		var imps []string
		for k := range q.Imports {
			imps = append(imps, k)
		}
		sort.Strings(imps)
		for _, k := range imps {
			if err := visit(q.Imports[k]); err != nil {
				return err
			}
		}
		if initDenied(q.PkgPath) {
			return nil
		}
		sp := prog.Package(q.Types)
		fn := sp.Func("init")
		if fn == nil {
			return nil
		}
		return ex.runInit(fn)
	}
	sort.SliceStable(pkgs, func(i, j int) bool { return pkgs[i].PkgPath == "vboot" && pkgs[j].PkgPath != "vboot" })
	for _, q := range pkgs {
		if err := visit(q); err != nil {
			return nil, nil, err
		}
	}
	p.frozen = true
	p.baseObj = ex.nextObj
	if os.Getenv("GOSYM_VERBOSE") != "" {
		fmt.Fprintf(logw, "load %.1fs init %.1fs (%d steps, %d objects)\n", t1.Sub(t0).Seconds(), time.Since(t1).Seconds(), ex.nSteps, ex.nextObj)
	}
	return p, cases, nil
}

// runInit interprets one package's init function; the calls to other packages' init functions
// are skipped (they are run by the driver in dependency order).
func (ex *Exec) runInit(fn *ssa.Function) (err error) {
	p := ex.p
	s := &State{tok: ex.newTok(), heap: p.base, gs: []*Gor{{}}}
	s.gs[0].owner = s.tok
	s.model = ex.c.NewModel()
	ex.initPkg = fn
	ex.initErr = ""
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("init of %s: %v at %s", fn.Pkg.Pkg.Path(), r, ex.where(s))
		}
	}()
	ex.pushBody(s, p.info(fn), nil, nil, -1, false)
	n := ex.ends["done"]
	ex.initState = nil
	ex.run(s, nil)
	if ex.ends["done"] != n+1 {
		return fmt.Errorf("init of %s did not finish: %v %v", fn.Pkg.Pkg.Path(), ex.cut, ex.viols)
	}
	p.base = ex.done[len(ex.done)-1].heap
	ex.done = nil
	return nil
}

// expand turns k=a..b and k={x|y} parameters into one line per combination.
func expand(line string) []string {
	out := []string{""}
	for _, f := range strings.Fields(line) {
		alts := []string{f}
		if k, v, ok := strings.Cut(f, "="); ok {
			if lo, hi, ok := strings.Cut(v, ".."); ok {
				a, e1 := strconv.Atoi(lo)
				b, e2 := strconv.Atoi(hi)
				if e1 == nil && e2 == nil {
					alts = nil
					for i := a; i <= b; i++ {
						alts = append(alts, fmt.Sprintf("%s=%d", k, i))
					}
				}
			} else if strings.HasPrefix(v, "{") && strings.HasSuffix(v, "}") {
				alts = nil
				for _, x := range strings.Split(v[1:len(v)-1], "|") {
					alts = append(alts, k+"="+x)
				}
			}
		}
		var nxt []string
		for _, o := range out {
			for _, a := range alts {
				nxt = append(nxt, strings.TrimSpace(o+" "+a))
			}
		}
		out = nxt
	}
	return out
}

func parseCase(line, fn, pkg string) (*Case, error) {
	f := strings.Fields(line)
	if len(f) < 2 {
		return nil, fmt.Errorf("bad case directive %q", line)
	}
	c := &Case{prop: f[0], tier: f[1], fn: fn, pkg: pkg, params: map[string]string{}, maxLoop: 20000, mapOrder: 1, preempt: 2, free: -1}
	for _, kv := range f[2:] {
		k, v, _ := strings.Cut(kv, "=")
		n, _ := strconv.Atoi(v)
		switch k {
		case "maporder":
			c.mapOrder = n
		case "maxloop":
			c.maxLoop = n
		case "raw":
			c.raw = n
		case "draws":
			c.draws = n
		case "free":
			c.free = n
		case "preempt":
			c.preempt = n
		case "nomerge":
			c.noMerge = true
		case "tok":
			c.tok = true
		case "race":
			c.race = true
		case "exitbad":
			c.exitBad = true
		case "budget":
			c.budget = n
		case "covers":
			c.covers = strings.Split(v, ",")
		default:
			c.params[k] = v
		}
	}
	c.name = fn + "(" + strings.Join(f[2:], " ") + ")"
	return c, nil
}

func newExec(p *Program, cs *Case, c *Ctx) *Exec {
	if c == nil {
		c = NewCtx()
	}
	return &Exec{p: p, c: c, cs: cs, seen: map[string]int{}, covers: map[string]bool{}, asserts: map[string]int{}, cut: map[string]int{}, ends: map[string]int{}}
}

func mustAbs(p string) string {
	a, err := filepath.Abs(p)
	if err != nil {
		panic(err)
	}
	return a
}

var _ = types.Typ

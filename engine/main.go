package main

import (
	"flag"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

var (
	flagProp   = flag.String("prop", "", "property id")
	flagTier   = flag.String("tier", "quick", "quick or thorough")
	flagVerif  = flag.String("verif", "/verif", "verification directory")
	flagRepo   = flag.String("repo", "/repo", "repository under test")
	flagFn     = flag.String("fn", "", "only this harness function")
	flagCase   = flag.String("case", "", "only cases whose name contains this text")
	flagJ      = flag.Int("j", 8, "parallel cases")
	flagV      = flag.Bool("v", false, "verbose")
	flagKeep   = flag.Bool("keep", false, "keep the work directory")
	flagNoRep  = flag.Bool("noreplay", false, "no native replay")
	flagBudget = flag.Int("budget", 0, "override the per-case budget in seconds")
	flagProf   = flag.String("prof", "", "cpu profile")
	flagList   = flag.Bool("list", false, "list cases")
)

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

// prepGopath builds a GOPATH whose CloudForest is the repository under test and in which the
// repository's commands are importable packages.
func prepGopath(work, repo string) string {
	gp := filepath.Join(work, "gopath")
	dst := filepath.Join(gp, "src", "github.com", "ryanbressler")
	os.MkdirAll(dst, 0o755)
	os.Symlink(repo, filepath.Join(dst, "CloudForest"))
	for _, m := range []string{"growforest", "applyforest", "leafcount", "utils/nfold", "utils/toafm"} {
		name := filepath.Base(m)
		out := filepath.Join(gp, "src", "cfmain", name)
		os.MkdirAll(out, 0o755)
		files, _ := filepath.Glob(filepath.Join(repo, m, "*.go"))
		for _, fn := range files {
			if strings.HasSuffix(fn, "_test.go") {
				continue
			}
			b, err := os.ReadFile(fn)
			if err != nil {
				continue
			}
			fs := token.NewFileSet()
			f, err := parser.ParseFile(fs, fn, b, parser.PackageClauseOnly)
			if err != nil {
				continue
			}
			o := fs.Position(f.Name.Pos()).Offset
			src := string(b[:o]) + name + "_" + f.Name.Name + string(b[o+len(f.Name.Name):])
			os.WriteFile(filepath.Join(out, filepath.Base(fn)), []byte(src), 0o644)
		}
		os.WriteFile(filepath.Join(out, "zz_export_gosym.go"), []byte("package "+name+"_main\n\n// Main runs the command.\nfunc Main() { main() }\n"), 0o644)
	}
	return gp
}

// harnessPkgs lists the harness packages that have cases for a property.
func harnessPkgs(verif, prop string) []string {
	var out []string
	dirs, _ := filepath.Glob(filepath.Join(verif, "harness/src/harness/*"))
	for _, d := range dirs {
		files, _ := filepath.Glob(filepath.Join(d, "*.go"))
		for _, f := range files {
			b, _ := os.ReadFile(f)
			if strings.Contains(string(b), "//gosym: "+prop+" ") || prop == "" {
				out = append(out, "harness/"+filepath.Base(d))
				break
			}
		}
	}
	sort.Strings(out)
	return out
}

type result struct {
	cs      *Case
	ex      *Exec
	err     string
	secs    float64
	done    bool // explored completely within its bounds
	found   []*finding
	wit     int
	witOK   int
	witBad  []string
	samples []any
}

func main() {
	flag.Parse()
	debug.SetGCPercent(200)
	if *flagProf != "" {
		startProf(*flagProf)
	}
	os.Exit(realMain())
}

func realMain() int {
	if *flagTier == "quick" {
		memLimit = 7 << 30
	}
	debug.SetMemoryLimit(int64(memLimit + memLimit/8))
	t0 := time.Now()
	defer stopProf()
	verif, repo := mustAbs(*flagVerif), mustAbs(*flagRepo)
	work := filepath.Join(verif, "work", fmt.Sprintf("%s-%d", *flagProp, os.Getpid()))
	os.MkdirAll(work, 0o755)
	if !*flagKeep {
		defer os.RemoveAll(work)
	}
	gp := prepGopath(work, repo)
	gopath := gp + ":" + filepath.Join(verif, "harness")
	pats := harnessPkgs(verif, *flagProp)
	if len(pats) == 0 {
		fatal("no harness for %s", *flagProp)
	}
	rp := newReplayer(verif, work, gopath, pats)
	prog, cases, err := loadProgram(gopath, work, append(pats, "vmodel", "vboot"))
	if err != nil {
		fatal("load: %v", err)
	}
	if *flagV {
		fmt.Fprintf(os.Stderr, "loaded in %.1fs\n", time.Since(t0).Seconds())
	}
	var sel []*Case
	for _, c := range cases {
		if c.prop != *flagProp && *flagProp != "" {
			continue
		}
		if *flagTier == "quick" && c.tier != "quick" {
			continue
		}
		if *flagTier == "thorough" && c.tier == "quick-only" {
			continue
		}
		if *flagFn != "" && c.fn != *flagFn || !strings.Contains(c.name, *flagCase) {
			continue
		}
		sel = append(sel, c)
	}
	if *flagList {
		for _, c := range sel {
			fmt.Println(c.prop, c.tier, c.name)
		}
		return 0
	}
	if len(sel) == 0 {
		fatal("no case selected")
	}
	if !*flagNoRep {
		rp.registry(sel)
		rp.start()
	}
	limit := 420 * time.Second
	if *flagTier == "thorough" {
		limit = 800 * time.Second
	}
	hard := t0.Add(limit)
	known := loadKnown(filepath.Join(verif, "known_findings.txt"))
	keepLooking = len(known.ents) > 0

	// longest budgets first
	order := make([]int, len(sel))
	for i := range order {
		order[i] = i
	}
	sort.SliceStable(order, func(a, b int) bool { return sel[order[a]].budget > sel[order[b]].budget })
	results := make([]*result, len(sel))
	var wg sync.WaitGroup
	var mu sync.Mutex
	next := 0
	for w := 0; w < *flagJ; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if next >= len(order) {
					mu.Unlock()
					return
				}
				i := order[next]
				next++
				mu.Unlock()
				results[i] = runCase(prog, sel[i], hard, rp, known)
			}
		}()
	}
	stop := make(chan bool)
	go watchMemory(stop)
	wg.Wait()
	close(stop)
	return report(prog, results, verif, t0, known, rp)
}

func runCase(prog *Program, cs *Case, hard time.Time, rp *replayer, known *knownSet) (res *result) {
	t0 := time.Now()
	res = &result{cs: cs}
	ex := newExec(prog, cs, nil)
	res.ex = ex
	ex.nextObj = prog.baseObj
	ex.raceOn = cs.race
	ex.preemptBound = cs.preempt
	b := cs.budget
	if b == 0 {
		b = 120
		if *flagTier == "thorough" {
			b = 900
		}
	}
	if *flagBudget > 0 {
		b = *flagBudget
	}
	ex.deadline = t0.Add(time.Duration(b) * time.Second)
	if hard.Before(ex.deadline) {
		ex.deadline = hard
	}
	ex.sol = NewSolver(ex.c, solverArgv(), 20000)
	running.Store(ex, t0)
	defer running.Delete(ex)
	defer func() { ex.sol.Close() }()
	res.done = explore(ex)
	ex.sol.flush()
	if res.done {
		t1 := time.Now()
		r, m, bySolver := ex.closure()
		switch {
		case r == Sat:
			ex.cut["an input follows no explored path"]++
			res.done = false
			_ = m
		case r == Unknown:
			ex.closed = "undecided"
		case ex.leafAll:
			ex.closed = "one path covers every input"
		case bySolver:
			ex.closed = "solver"
		default:
			ex.closed = "diagram"
		}
		if *flagV {
			fmt.Fprintf(os.Stderr, "   closure %s %s %d leaves %.1fs\n", ex.closed, cs.name, len(ex.leaves), time.Since(t1).Seconds())
		}
	}
	if len(ex.sol.oblBad) > 0 {
		res.done = false
	}
	res.secs = time.Since(t0).Seconds()
	if *flagV {
		fmt.Fprintf(os.Stderr, "%-60s %.1fs paths=%d states=%d steps=%d forks=%d merges=%d/%d q=%d dd=%d/%d st=%.1fs done=%v viols=%d ends=%v cut=%v\n", cs.name, res.secs, ex.nPaths, ex.nStates, ex.nSteps, ex.nForks, ex.nMerges, ex.mergeFails, ex.sol.Queries, ex.sol.bdd.hits, ex.sol.bdd.fails, ex.sol.Time.Seconds(), res.done, len(ex.viols), ex.ends, ex.cut)
		for _, v := range ex.viols {
			fmt.Fprintf(os.Stderr, "   candidate %s: %s at %s\n", v.kind, v.msg, v.pos)
		}
	}
	if !*flagNoRep {
		res.confirm(prog, rp, known)
		res.witness(prog, rp)
	}
	// release memory
	ex.done = nil
	ex.leaves, ex.leafSeen = nil, nil
	ex.sol.free()
	ex.c = nil
	return res
}

func solverArgv() []string {
	if s := os.Getenv("GOSYM_SOLVER"); s != "" {
		return strings.Fields(s)
	}
	return []string{"z3-new", "-in", "-smt2"}
}

// explore runs the harness symbolically; it reports whether the exploration finished.
func explore(ex *Exec) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case budget:
				ex.cut[string(x)]++
			default:
				ex.cut[fmt.Sprintf("engine: %v", r)]++
				if os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "%v\n%s\n", r, debug.Stack())
				}
			}
			ok = false
		}
	}()
	s := ex.initial(ex.c.NewModel())
	ex.run(s, nil)
	return len(ex.cut) == 0
}

func (ex *Exec) initial(m *Model) *State {
	s := &State{tok: ex.newTok(), heap: ex.p.base, gs: []*Gor{{}}}
	s.gs[0].owner = s.tok
	s.model = m
	ex.pushBody(s, ex.p.info(ex.cs.ssaFn), nil, nil, -1, false)
	return s
}

// watchMemory stops the longest running case when memory runs low.
var running sync.Map

// memLimit is the size of the heap at which the case running longest is given up.
var memLimit uint64 = 17 << 30

func watchMemory(stop chan bool) {
	for {
		select {
		case <-stop:
			return
		case <-time.After(300 * time.Millisecond):
		}
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc < memLimit {
			continue
		}
		runtime.GC()
		runtime.ReadMemStats(&m)
		if m.HeapAlloc < memLimit*3/4 {
			continue
		}
		var old *Exec
		var t time.Time
		running.Range(func(k, v any) bool {
			if old == nil || v.(time.Time).Before(t) {
				old, t = k.(*Exec), v.(time.Time)
			}
			return true
		})
		if old != nil {
			old.noMem.Store(true)
			running.Delete(old)
		}
		time.Sleep(2 * time.Second)
	}
}

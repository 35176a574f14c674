package main

import (
	"bytes"
	"context"
	"crypto/sha1"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// finding is a violation reproduced against the natively compiled code.
type finding struct {
	text  string
	file  string
	known string
	sig   string
}

type replayer struct {
	verif, work, gopath string
	pats                []string
	bin, raceBin        string
	wg                  sync.WaitGroup
	err                 error
	raceOnce            sync.Once
	raceErr             error
	noisy, noiseBin     string
	noiseOnce           sync.Once
	noiseErr            error
	mu                  sync.Mutex
	seq                 int
	overlay             string
}

func newReplayer(verif, work, gopath string, pats []string) *replayer {
	return &replayer{verif: verif, work: work, gopath: gopath, pats: pats}
}

func (r *replayer) registry(sel []*Case) {
	dir := filepath.Join(r.work, "gopath", "src", "gosymreplay")
	os.MkdirAll(dir, 0o755)
	imp := map[string]string{}
	fns := map[string]string{}
	for _, c := range sel {
		if _, ok := imp[c.pkg]; !ok {
			imp[c.pkg] = fmt.Sprintf("h%d", len(imp))
		}
		fns[c.pkg+"."+c.fn] = imp[c.pkg] + "." + c.fn
	}
	var b bytes.Buffer
	b.WriteString("package main\n\nimport (\n\t\"os\"\n\t\"vsym\"\n")
	var ks []string
	for k := range imp {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "\t%s %q\n", imp[k], k)
	}
	b.WriteString(")\n\nfunc main() {\n\tname := vsym.LoadReplay(os.Args[1])\n\tswitch name {\n")
	ks = nil
	for k := range fns {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "\tcase %q:\n\t\t%s()\n", k, fns[k])
	}
	os.WriteFile(filepath.Join(dir, "noise.go"), []byte(noiseMain), 0o644)
	b.WriteString("\tdefault:\n\t\tprintln(\"unknown harness\", name)\n\t\tos.Exit(9)\n\t}\n\tvsym.Finish()\n}\n")
	os.WriteFile(filepath.Join(dir, "main.go"), b.Bytes(), 0o644)
}

// patchRand writes a copy of math/rand/rand.go whose draws can be supplied by the replay driver.
func (r *replayer) patchRand() error {
	root := strings.TrimSpace(runOut(r.work, nil, "go", "env", "GOROOT"))
	fn := filepath.Join(root, "src/math/rand/rand.go")
	b, err := os.ReadFile(fn)
	if err != nil {
		return err
	}
	src := string(b)
	hook := func(sig, code string) error {
		i := strings.Index(src, sig)
		if i < 0 {
			return fmt.Errorf("math/rand: %q not found", sig)
		}
		i += len(sig)
		src = src[:i] + code + src[i:]
		return nil
	}
	n := "\n\tif VerifHook != nil && n > 0 {\n\t\tif v, _, ok := VerifHook(\"n\", int64(n)); ok {\n\t\t\treturn %s(v)\n\t\t}\n\t}\n"
	r63 := "\n\tif VerifHook != nil {\n\t\tif v, _, ok := VerifHook(\"r\", 0); ok {\n\t\t\treturn %s(v)\n\t\t}\n\t}\n"
	for _, h := range [][2]string{
		{"func (r *Rand) Int63n(n int64) int64 {", fmt.Sprintf(n, "int64")},
		{"func (r *Rand) Int31n(n int32) int32 {", fmt.Sprintf(n, "int32")},
		{"func (r *Rand) int31n(n int32) int32 {", fmt.Sprintf(n, "int32")},
		{"func (r *Rand) Intn(n int) int {", fmt.Sprintf(n, "int")},
		{"func (r *Rand) Float64() float64 {", "\n\tif VerifHook != nil {\n\t\tif _, f, ok := VerifHook(\"f\", 0); ok {\n\t\t\treturn f\n\t\t}\n\t}\n"},
		{"func (r *Rand) Uint64() uint64 {", fmt.Sprintf(r63, "uint64")},
		{"func (r *Rand) Int() int {", fmt.Sprintf(r63, "int")},
		{"func (r *Rand) Int63() int64 {", fmt.Sprintf(r63, "int64")},
	} {
		if err := hook(h[0], h[1]); err != nil {
			return err
		}
	}
	src += "\n// VerifHook supplies the results of random draws.\nvar VerifHook func(kind string, n int64) (int64, float64, bool)\n"
	out := filepath.Join(r.work, "rand.go")
	if err := os.WriteFile(out, []byte(src), 0o644); err != nil {
		return err
	}
	ov, _ := json.Marshal(map[string]any{"Replace": map[string]string{fn: out}})
	r.overlay = filepath.Join(r.work, "overlay.json")
	if err := os.WriteFile(r.overlay, ov, 0o644); err != nil {
		return err
	}
	return r.patchSync(root, map[string]string{fn: out})
}

// patchSync writes copies of the lock operations that call a hook before they acquire the lock, so
// that a run which is repeated goes through many schedules.
func (r *replayer) patchSync(root string, repl map[string]string) error {
	for f, sigs := range map[string][]string{
		"mutex.go":   {"func (m *Mutex) Lock() {", "func (m *Mutex) TryLock() bool {"},
		"rwmutex.go": {"func (rw *RWMutex) Lock() {", "func (rw *RWMutex) RLock() {"},
	} {
		fn := filepath.Join(root, "src/sync", f)
		b, err := os.ReadFile(fn)
		if err != nil {
			return err
		}
		src := string(b)
		for _, sig := range sigs {
			if !strings.Contains(src, sig) {
				return fmt.Errorf("sync: %q not found", sig)
			}
			src = strings.Replace(src, sig, sig+"\n\tif VerifNoise != nil {\n\t\tVerifNoise()\n\t}\n", 1)
		}
		if f == "mutex.go" {
			src += "\n// VerifNoise delays an acquisition.\nvar VerifNoise func()\n"
		}
		out := filepath.Join(r.work, "sync_"+f)
		if err := os.WriteFile(out, []byte(src), 0o644); err != nil {
			return err
		}
		repl[fn] = out
	}
	ov, _ := json.Marshal(map[string]any{"Replace": repl})
	r.noisy = filepath.Join(r.work, "noisy.json")
	return os.WriteFile(r.noisy, ov, 0o644)
}

const noiseMain = `//go:build gosymnoise

package main

import (
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

func init() {
	x := uint64(time.Now().UnixNano())*2862933555777941757 + uint64(os.Getpid())
	var on atomic.Uint64
	on.Store(x)
	sync.VerifNoise = func() {
		z := on.Add(0x9e3779b97f4a7c15)
		z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
		z = (z ^ z>>27) * 0x94d049bb133111eb
		z ^= z >> 31
		switch z & 3 {
		case 1:
			runtime.Gosched()
		case 2:
			time.Sleep(time.Duration(z>>2%200) * time.Microsecond)
		case 3:
			time.Sleep(time.Duration(z>>2%2000) * time.Microsecond)
		}
	}
}
`

func runOut(dir string, env []string, argv ...string) string {
	c := exec.Command(argv[0], argv[1:]...)
	c.Dir = dir
	c.Env = env
	b, _ := c.Output()
	return string(b)
}

func (r *replayer) start() {
	r.wg.Add(1)
	go func() {
		defer r.wg.Done()
		r.bin = filepath.Join(r.work, "replay.bin")
		if r.err = r.patchRand(); r.err == nil {
			r.err = r.build(r.bin)
		}
	}()
}

func (r *replayer) build(out string, extra ...string) error {
	args := []string{"build", "-trimpath", "-overlay", r.overlay, "-o", out}
	if len(extra) > 0 {
		args = []string{"build", "-trimpath", "-overlay", r.noisy, "-tags", "gosymnoise", "-o", out}
	}
	race := false
	for _, e := range extra {
		if e != "" {
			args = append(args, e)
			race = race || e == "-race"
		}
	}
	args = append(args, "gosymreplay")
	c := exec.Command("go", args...)
	c.Dir = r.work
	env := []string{}
	for _, e := range goEnv(r.gopath) {
		if !strings.HasPrefix(e, "CGO_ENABLED=") {
			env = append(env, e)
		}
	}
	if !race {
		env = append(env, "CGO_ENABLED=0")
	} else {
		env = append(env, "CGO_ENABLED=1")
	}
	c.Env = env
	b, err := c.CombinedOutput()
	if err != nil {
		return fmt.Errorf("replay build: %v\n%s", err, b)
	}
	return nil
}

func (r *replayer) race() (string, error) {
	r.wg.Wait()
	r.raceOnce.Do(func() {
		r.raceBin = filepath.Join(r.work, "replay-race.bin")
		r.raceErr = r.build(r.raceBin, "-race")
	})
	return r.raceBin, r.raceErr
}

// noise builds the driver whose lock operations are delayed at random.
func (r *replayer) noise() (string, error) {
	r.wg.Wait()
	r.noiseOnce.Do(func() {
		r.noiseBin = filepath.Join(r.work, "replay-noise.bin")
		r.noiseErr = r.build(r.noiseBin, "")
	})
	return r.noiseBin, r.noiseErr
}

type nativeRun struct {
	code    int
	timeout bool
	fail    string
	logs    []string
	diverge bool
	done    bool
	panicT  string
	race    string
	dead    bool
	out     string
}

func (r *replayer) run(bin, file string, timeout time.Duration) *nativeRun {
	r.mu.Lock()
	r.seq++
	tmp := filepath.Join(r.work, fmt.Sprintf("tmp%d", r.seq))
	r.mu.Unlock()
	os.MkdirAll(tmp, 0o755)
	defer os.RemoveAll(tmp)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	c := exec.CommandContext(ctx, bin, file)
	c.Dir = tmp
	c.Env = append(os.Environ(), "GOSYM_TMP="+tmp, "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single", "GOMEMLIMIT=2GiB")
	var out bytes.Buffer
	w := &capW{&out, 1 << 22} // one writer, so that the two aren't copied at once
	c.Stdout, c.Stderr = w, w
	err := c.Run()
	n := &nativeRun{out: out.String()}
	if ctx.Err() != nil {
		n.timeout = true
	}
	if err != nil {
		n.code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			n.code = ee.ExitCode()
		}
	}
	for _, l := range strings.Split(n.out, "\n") {
		switch {
		case strings.HasPrefix(l, "GOSYM-FAIL "):
			n.fail = l[11:]
		case strings.HasPrefix(l, "GOSYM-LOG "):
			n.logs = append(n.logs, l[10:])
		case l == "GOSYM-DONE":
			n.done = true
		case l == "GOSYM-DIVERGED":
			n.diverge = true
		case strings.HasPrefix(l, "fatal error: all goroutines are asleep"):
			n.dead = true
		case n.panicT == "" && (strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ")):
			n.panicT = l
		case strings.HasPrefix(l, "WARNING: DATA RACE"):
			n.race = l
		}
	}
	return n
}

type capW struct {
	b *bytes.Buffer
	n int
}

func (w *capW) Write(p []byte) (int, error) {
	if k := w.n - w.b.Len(); k > 0 {
		if k > len(p) {
			k = len(p)
		}
		w.b.Write(p[:k])
	}
	return len(p), nil
}

// forcedRun follows one model concretely through the encoding and records inputs and draws.
func forcedRun(prog *Program, cs *Case, c *Ctx, m *Model, raceOn bool) (fx *Exec) {
	fx = newExec(prog, cs, c)
	fx.forced = true
	fx.fmodel = m
	fx.nextObj = prog.baseObj
	fx.raceOn = raceOn
	fx.preemptBound = cs.preempt
	fx.deadline = time.Now().Add(60 * time.Second)
	defer func() {
		if r := recover(); r != nil {
			fx.cut[fmt.Sprint(r)]++
		}
	}()
	s := fx.initial(m)
	fx.run(s, nil)
	return
}

func (r *replayer) write(cs *Case, fx *Exec, name, note string) string {
	var b bytes.Buffer
	fmt.Fprintf(&b, "fn\t%s.%s\n", cs.pkg, cs.fn)
	var ks []string
	for k := range cs.params {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "param\t%s\t%s\n", k, cs.params[k])
	}
	for _, in := range fx.inputs {
		fmt.Fprintf(&b, "in\t%s\t%s\t%s\n", in.name, in.kind, in.val)
	}
	for _, d := range fx.draws {
		fmt.Fprintf(&b, "draw\t%s\n", d)
	}
	if note != "" {
		fmt.Fprintf(&b, "note\t%s\n", strings.ReplaceAll(note, "\n", " "))
	}
	if name == "" {
		h := sha1.Sum(b.Bytes())
		dir := filepath.Join(r.verif, "replays")
		os.MkdirAll(dir, 0o755)
		name = filepath.Join(dir, fmt.Sprintf("%s-%s-%x.txt", cs.prop, cs.fn, h[:5]))
	}
	os.WriteFile(name, b.Bytes(), 0o644)
	return name
}

func (n *nativeRun) confirms(kind string) string {
	switch {
	case n.fail != "":
		return "assertion failed: " + n.fail
	case n.dead:
		return "deadlock: all goroutines are asleep"
	case n.race != "":
		return "data race"
	case n.panicT != "" && !n.timeout:
		return n.panicT
	case n.timeout && (kind == "hang" || kind == "deadlock"):
		return "does not terminate"
	case kind == "exit" && n.code == 1 && !n.done:
		return "the program stops with log.Fatal / os.Exit(1)"
	}
	return ""
}

// confirm replays each candidate against the real code.
func (res *result) confirm(prog *Program, rp *replayer, known *knownSet) {
	ex := res.ex
	if len(ex.viols) == 0 {
		return
	}
	rp.wg.Wait()
	if rp.err != nil {
		ex.cut["replay build failed: "+rp.err.Error()]++
		return
	}
	okKey := map[string]bool{}
	for _, v := range ex.viols {
		key := v.kind + "|" + v.msg
		if okKey[key] || len(res.found) >= 6 {
			continue
		}
		fx := forcedRun(prog, res.cs, ex.c, v.model, res.cs.race)
		same := false
		for _, w := range fx.viols {
			if w.kind == v.kind {
				same = true
			}
		}
		file := rp.write(res.cs, fx, "", v.kind+": "+v.msg+" at "+v.pos)
		bin := rp.bin
		if v.kind == "race" {
			b, err := rp.race()
			if err != nil {
				ex.cut["race build failed: "+err.Error()]++
				continue
			}
			bin = b
		} else if v.conc {
			b, err := rp.noise()
			if err != nil {
				ex.cut["noise build failed: "+err.Error()]++
				continue
			}
			bin = b
		}
		tries, to := 2, 20*time.Second
		if v.order || v.kind == "race" || v.kind == "deadlock" {
			tries = 400
		}
		if v.kind == "hang" {
			tries, to = 1, 10*time.Second
		}
		got := ""
		var last *nativeRun
		t0 := time.Now()
		for i := 0; i < tries && got == "" && time.Since(t0) < 40*time.Second; i++ {
			last = rp.run(bin, file, to)
			got = last.confirms(v.kind)
		}
		if got == "" {
			why := fmt.Sprintf("candidate not reproduced natively (encoding agrees with itself: %v; native exit %d diverged %v): %s: %s at %s [%s]", same, last.code, last.diverge, v.kind, v.msg, v.pos, file)
			ex.cut[why]++
			continue
		}
		okKey[key] = true
		f := &finding{file: file, text: fmt.Sprintf("%s: %s (%s) at %s", res.cs.name, v.msg, got, v.pos)}
		f.known = known.match(res.cs, v.kind+": "+v.msg+" | "+got)
		res.found = append(res.found, f)
		if !keepLooking && *flagTier == "quick" {
			stopAt.CompareAndSwap(0, time.Now().Add(75*time.Second).UnixNano())
		}
	}
}

// witness replays models of completed paths natively and compares the logged values.
func (res *result) witness(prog *Program, rp *replayer) {
	ex := res.ex
	want := 6
	if *flagTier == "thorough" {
		want = 24
	}
	var cand []*State
	for _, s := range ex.done {
		cand = append(cand, s)
	}
	if len(cand) == 0 {
		return
	}
	rp.wg.Wait()
	if rp.err != nil {
		ex.cut["replay build failed: "+rp.err.Error()]++
		return
	}
	step := (len(cand) + want - 1) / want
	for i := 0; i < len(cand); i += step {
		s := cand[i]
		m := s.model
		if m == nil {
			r, mm := ex.sol.Decide(s.pc, nil, false)
			if r != Sat {
				continue
			}
			m = mm
		}
		fx := forcedRun(prog, res.cs, ex.c, m, false)
		if len(fx.cut) > 0 {
			res.witBad = append(res.witBad, fmt.Sprintf("forced run incomplete: %v", fx.cut))
			continue
		}
		file := rp.write(res.cs, fx, filepath.Join(rp.work, fmt.Sprintf("wit-%p-%d.txt", res, i)), "")
		n := rp.run(rp.bin, file, 30*time.Second)
		res.wit++
		if s.mapOrd || s.conc {
			// the native map order and schedule cannot be chosen: only require a clean end
			if n.fail == "" && n.panicT == "" {
				res.witOK++
			}
			continue
		}
		ok := n.fail == "" && n.panicT == "" && !n.timeout && !n.diverge && strings.Join(n.logs, "\n") == strings.Join(fx.flogs, "\n")
		if ok {
			res.witOK++
		} else {
			o := n.out
			if len(o) > 600 {
				o = o[:600]
			}
			res.witBad = append(res.witBad, fmt.Sprintf("case %s inputs %v draws %v: native %q, encoding logs %v ends %v", res.cs.name, fx.inputs, fx.draws, o, fx.flogs, fx.ends))
			if c := n.confirms("assert"); c != "" {
				keep := rp.write(res.cs, fx, "", c)
				res.found = append(res.found, &finding{file: keep, text: fmt.Sprintf("%s: %s (found while validating the encoding)", res.cs.name, c)})
			}
		}
		if len(res.samples) < 2 {
			ins := map[string]string{}
			for _, in := range fx.inputs {
				ins[in.name] = in.val
			}
			res.samples = append(res.samples, map[string]any{"case": res.cs.name, "inputs": ins, "random_draws": fx.draws, "logged": fx.flogs})
		}
	}
}

// --- known findings ---

type knownEnt struct {
	prop, fn, match, text string
}
type knownSet struct{ ents []knownEnt }

// The file has lines "known: property=<id> case=<substring of the case> match=<text> :: what fails"
// and "fixed: property=<id> <commit> <what failed>".
func loadKnown(fn string) *knownSet {
	k := &knownSet{}
	b, err := os.ReadFile(fn)
	if err != nil {
		return k
	}
	for _, l := range strings.Split(string(b), "\n") {
		l, ok := strings.CutPrefix(l, "known: property=")
		if !ok {
			continue
		}
		head, text, _ := strings.Cut(l, " :: ")
		prop, rest, _ := strings.Cut(head, " case=")
		cs, match, _ := strings.Cut(rest, " match=")
		k.ents = append(k.ents, knownEnt{strings.TrimSpace(prop), strings.TrimSpace(cs), strings.TrimSpace(match), text})
	}
	return k
}

func (k *knownSet) match(cs *Case, msg string) string {
	for _, e := range k.ents {
		if e.prop == cs.prop && e.fn == cs.fn && strings.Contains(msg, e.match) {
			return e.text
		}
	}
	return ""
}

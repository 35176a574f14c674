// Package vsym is the interface between harnesses and the symbolic executor. The executor
// intercepts these functions; compiled natively they read the inputs of one counterexample or
// witness from a file and replay it against the real code.
package vsym

import (
	"bufio"
	"encoding/hex"
	"fmt"
	"math"
	"os"
	"strconv"
	"strings"
	"sync"
)

type draw struct {
	kind string
	val  string
}

var (
	inputs = map[string]string{}
	draws  []draw
	ndraw  int
	used   [][2]int64
	params = map[string]string{}
	mu     sync.Mutex
	// Diverged is set when the native run consumed random numbers differently.
	Diverged bool
)

// LoadReplay reads a replay file.
func LoadReplay(fn string) string {
	f, err := os.Open(fn)
	if err != nil {
		fmt.Println("GOSYM-ERROR", err)
		os.Exit(9)
	}
	defer f.Close()
	name := ""
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		p := strings.SplitN(sc.Text(), "\t", 4)
		switch p[0] {
		case "fn":
			name = p[1]
		case "param":
			params[p[1]] = p[2]
		case "in":
			inputs[p[1]] = p[3]
		case "draw":
			q := strings.Fields(p[1])
			if q[0] != "sched" {
				draws = append(draws, draw{q[0], q[1]})
			}
		}
	}
	installHook()
	return name
}

func hook(kind string, n int64) (int64, float64, bool) {
	mu.Lock()
	defer mu.Unlock()
	if ndraw >= len(draws) || draws[ndraw].kind != kind {
		Diverged = true
		if kind == "f" {
			return 0, 0.5, true
		}
		if kind == "r" {
			return 12345, 0, true
		}
		return 0, 0, true
	}
	d := draws[ndraw]
	ndraw++
	if kind == "f" {
		b, _ := strconv.ParseUint(d.val, 16, 64)
		used = append(used, [2]int64{-1, 5})
		return 0, math.Float64frombits(b), true
	}
	v, _ := strconv.ParseInt(d.val, 10, 64)
	used = append(used, [2]int64{v, n})
	if kind == "n" && v >= n {
		Diverged = true
		v = 0
	}
	return v, 0, true
}

func Int(name string, lo, hi int) int {
	if v, ok := inputs[name]; ok {
		n, _ := strconv.Atoi(v)
		return n
	}
	return lo
}

// AnyInt is a bit-vector input in lo..hi (large ranges).
func AnyInt(name string, lo, hi int) int { return Int(name, lo, hi) }

func Bool(name string) bool { return inputs[name] == "true" }

func Float(name string, vals ...float64) float64 {
	if v, ok := inputs[name]; ok {
		b, _ := strconv.ParseUint(v, 16, 64)
		return math.Float64frombits(b)
	}
	return vals[0]
}

// AnyFloat is an arbitrary float64.
func AnyFloat(name string) float64 { return Float(name, 0) }

func Str(name string, opts ...string) string {
	if v, ok := inputs[name]; ok {
		b, _ := hex.DecodeString(v)
		return string(b)
	}
	return opts[0]
}

// Chars is a string of exactly n bytes, each from the alphabet.
func Chars(name string, n int, alphabet string) string {
	if v, ok := inputs[name]; ok {
		b, _ := hex.DecodeString(v)
		return string(b)
	}
	return strings.Repeat(alphabet[:1], n)
}

func Assume(b bool) {
	if !b {
		fmt.Println("GOSYM-ASSUME-FALSE")
		os.Exit(4)
	}
}

func Assert(b bool, msg string) {
	if !b {
		fmt.Println("GOSYM-FAIL " + msg)
		os.Exit(3)
	}
}
func Cover(label string)           {}
func CoverIf(b bool, label string) {}
func Log(label string, v any) {
	fmt.Println("GOSYM-LOG " + label + "=" + strings.ReplaceAll(text(v), "\n", "\\n"))
}
func text(v any) string {
	switch x := v.(type) {
	case float64:
		return strconv.FormatFloat(x, 'g', -1, 64)
	case []float64:
		var p []string
		for _, f := range x {
			p = append(p, text(f))
		}
		return "[" + strings.Join(p, " ") + "]"
	}
	return fmt.Sprint(v)
}
func Param(name string) int {
	n, err := strconv.Atoi(params[name])
	if err != nil {
		panic("missing parameter " + name)
	}
	return n
}
func ParamStr(name string) string { return params[name] }
func IsSymbolic() bool            { return false }
func And(a, b bool) bool          { return a && b }
func Or(a, b bool) bool           { return a || b }
func Implies(a, b bool) bool      { return !a || b }
func IteI(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func IteF(c bool, a, b float64) float64 {
	if c {
		return a
	}
	return b
}
func IteB(c bool, a, b bool) bool {
	if c {
		return a
	}
	return b
}
func IteS(c bool, a, b string) string {
	if c {
		return a
	}
	return b
}

// Same is float equality with NaN equal to itself.
func Same(a, b float64) bool { return a == b || a != a && b != b }

// Conc asks the executor to enumerate the values of v.
func Conc(v int) int { return v }

// DrawVal is the value of the i-th integer draw, -1 if there is none.
func DrawVal(i int) int {
	if i < 0 || i >= len(used) {
		return -1
	}
	return int(used[i][0])
}

// DrawN is the number of values the i-th draw could take, -1 if there is none.
func DrawN(i int) int {
	if i < 0 || i >= len(used) {
		return -1
	}
	return int(used[i][1])
}

// Repeat makes later random draws take the values of the draws from the i-th on, as long as they are
// draws from as many values.
func Repeat(i int) {}

// Draws is the number of random draws so far.
func Draws() int { return ndraw }

// Panics runs f and reports whether it panicked.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			p = true
		}
	}()
	f()
	return false
}

// Finish is called by the replay driver at the end of a run.
func Finish() {
	if ndraw != len(draws) {
		Diverged = true
	}
	if Diverged {
		fmt.Println("GOSYM-DIVERGED")
	}
	fmt.Println("GOSYM-DONE")
}

// --- files: an in-memory file system under the executor, a scratch directory natively ---

var tmp string

func TempDir() string {
	if tmp == "" {
		tmp = os.Getenv("GOSYM_TMP")
		if tmp == "" {
			tmp, _ = os.MkdirTemp("", "gosym")
		}
		tmp += "/"
	}
	return tmp
}
func PutFile(name, content string) {
	if err := os.WriteFile(name, []byte(content), 0o644); err != nil {
		fmt.Println("GOSYM-ERROR", err)
		os.Exit(9)
	}
}
func GetFile(name string) (string, bool) {
	b, err := os.ReadFile(name)
	if err != nil {
		return "", false
	}
	return string(b), true
}

// JSON, if set, writes values as json where the model of the encoder can't; natively it is not used.
var JSON func(v any) string

package main

import (
	"bufio"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

// Solver drives one SMT-LIB2 process. Assertions follow the current path condition with
// push/pop; definitions are global.
type Solver struct {
	c       *Ctx
	argv    []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inC     io.WriteCloser
	out     *bufio.Reader
	stk     []*Expr
	gen     uint32
	ndecl   int
	defs    int
	Queries int
	SatN    int
	UnsatN  int
	UnkN    int
	Time    time.Duration
	toMs    int
	log     io.Writer

	bdd    *bdd
	obl    []*Expr          // verdicts of the decision diagram waiting for the solver's confirmation
	oblN   int              // confirmed
	oblBad []*Model         // refuted
	chain  map[[2]int]*Expr // path-condition prefixes
	cnt    int
	every  int // one in every of the pruning verdicts is confirmed
}

var solverGen uint32

func NewSolver(c *Ctx, argv []string, timeoutMs int) *Solver {
	s := &Solver{c: c, argv: argv, toMs: timeoutMs, bdd: newBDD(c), every: 64}
	if *flagTier == "thorough" {
		s.every = 8
	}
	if d := os.Getenv("GOSYM_SMTLOG"); d != "" {
		solSeq++
		s.log, _ = os.Create(fmt.Sprintf("%s.%d", d, solSeq))
	}
	s.start()
	return s
}

var solSeq int
var noDD = os.Getenv("GOSYM_NOBDD") != ""
var slowLog = os.Getenv("GOSYM_SLOW") != ""

func (s *Solver) start() {
	s.cmd = exec.Command(s.argv[0], s.argv[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inC = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.gen = nextGen()
	s.ndecl = 0
	s.defs = 0
	s.stk = nil
	s.send("(set-option :global-declarations true)")
	s.send("(set-option :produce-models true)")
	if strings.Contains(s.argv[0], "z3") {
		s.send(fmt.Sprintf("(set-option :timeout %d)", s.toMs))
	}
	s.send("(set-logic ALL)")
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inC.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(l string) {
	s.in.WriteString(l)
	s.in.WriteByte('\n')
	if s.log != nil {
		io.WriteString(s.log, l+"\n")
	}
}

func (s *Solver) declare() {
	for ; s.ndecl < len(s.c.vars); s.ndecl++ {
		v := s.c.vars[s.ndecl]
		s.send(fmt.Sprintf("(declare-const %s %s)", v.smt, sortName(v.sort, v.w)))
		// Domain constraints are asserted at level 0: pop everything first.
	}
}

func (s *Solver) domain(v *VarInfo) string {
	if v.fd > 0 {
		return fmt.Sprintf("(bvult %s (_ bv%d 8))", v.smt, v.fd)
	}
	if v.rng {
		m := mask(v.w)
		return fmt.Sprintf("(and (bvsle (_ bv%d %d) %s) (bvsle %s (_ bv%d %d)))", uint64(v.lo)&m, v.w, v.smt, v.smt, uint64(v.hi)&m, v.w)
	}
	return ""
}

func (s *Solver) define(e *Expr) {
	if e.def == s.gen {
		return
	}
	switch e.op {
	case OTrue, OFalse, OConst, OVar:
		e.def = s.gen
		return
	}
	if e.op == OVSet {
		panic("define VSet")
	}
	for _, x := range e.a {
		s.define(x)
	}
	s.defs++
	s.send(fmt.Sprintf("(define-fun e%d () %s %s)", e.id, sortName(e.sort, e.w), s.c.body(e)))
	e.def = s.gen
}

func (s *Solver) pop(n int) {
	if n > 0 {
		s.send(fmt.Sprintf("(pop %d)", n))
		s.stk = s.stk[:len(s.stk)-n]
	}
}

// Check decides pc /\ extra.
func (s *Solver) Check(pc []*Expr, extra *Expr, wantModel bool) (SatRes, *Model) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if slowLog && d > 200*time.Millisecond {
			fmt.Fprintf(logw, "slow query %.2fs batch=%v pc=%d\n", d.Seconds(), pc == nil, len(pc))
		}
	}()
	if s.defs > 400000 {
		s.Close()
		s.start()
	}
	s.Queries++
	if s.ndecl < len(s.c.vars) {
		s.pop(len(s.stk))
		from := s.ndecl
		s.declare()
		for _, v := range s.c.vars[from:] {
			if d := s.domain(v); d != "" {
				s.send("(assert " + d + ")")
			}
		}
	}
	k := 0
	for k < len(s.stk) && k < len(pc) && s.stk[k] == pc[k] {
		k++
	}
	s.pop(len(s.stk) - k)
	for ; k < len(pc); k++ {
		s.define(pc[k])
		s.send("(push 1)")
		s.send("(assert " + s.c.ref(pc[k]) + ")")
		s.stk = append(s.stk, pc[k])
	}
	if extra != nil {
		s.define(extra)
		s.send("(push 1)")
		s.send("(assert " + s.c.ref(extra) + ")")
	}
	s.send("(check-sat)")
	s.in.Flush()
	ans := s.line()
	var res SatRes
	var m *Model
	switch ans {
	case "sat":
		res = Sat
		s.SatN++
		if wantModel {
			m = s.model()
		}
	case "unsat":
		res = Unsat
		s.UnsatN++
	default:
		res = Unknown
		s.UnkN++
		if strings.HasPrefix(ans, "(error") || ans == "" {
			fmt.Fprintln(logw, "solver:", ans)
			s.Close()
			s.start()
			return Unknown, nil
		}
	}
	if extra != nil {
		s.send("(pop 1)")
	}
	return res, m
}

func (s *Solver) line() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return ""
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

func (s *Solver) model() *Model {
	m := s.c.NewModel()
	m.vals = make([]uint64, len(s.c.vars))
	if len(s.c.vars) == 0 {
		return m
	}
	var b strings.Builder
	b.WriteString("(get-value (")
	for _, v := range s.c.vars {
		b.WriteString(v.smt)
		b.WriteByte(' ')
	}
	b.WriteString("))")
	s.send(b.String())
	s.in.Flush()
	toks := s.sexp()
	// tokens: ( ( name value... ) ( name value ) ... )
	i := 1
	for _, v := range s.c.vars {
		// expect "("
		for i < len(toks) && toks[i] != "(" {
			i++
		}
		i++ // (
		i++ // name
		var val uint64
		val, i = parseVal(toks, i, v)
		m.vals[v.idx] = val
		for i < len(toks) && toks[i] != ")" {
			i++
		}
		i++
	}
	return m
}

func (s *Solver) sexp() []string {
	var toks []string
	depth := 0
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return toks
		}
		i := 0
		for i < len(l) {
			ch := l[i]
			switch {
			case ch == '(' || ch == ')':
				toks = append(toks, string(ch))
				if ch == '(' {
					depth++
				} else {
					depth--
				}
				i++
			case ch == '|':
				j := strings.IndexByte(l[i+1:], '|') + i + 2
				toks = append(toks, l[i:j])
				i = j
			case ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r':
				i++
			default:
				j := i
				for j < len(l) && !strings.ContainsRune("() \n\t\r", rune(l[j])) {
					j++
				}
				toks = append(toks, l[i:j])
				i = j
			}
		}
		if depth == 0 && len(toks) > 0 {
			return toks
		}
	}
}

func parseBits(t string) uint64 {
	if strings.HasPrefix(t, "#b") {
		v, _ := strconv.ParseUint(t[2:], 2, 64)
		return v
	}
	if strings.HasPrefix(t, "#x") {
		v, _ := strconv.ParseUint(t[2:], 16, 64)
		return v
	}
	return 0
}

func parseVal(t []string, i int, v *VarInfo) (uint64, int) {
	if v.sort == SBool {
		return b2u(t[i] == "true"), i + 1
	}
	if t[i] != "(" {
		return parseBits(t[i]), i + 1
	}
	// (fp #b #b #x) or (_ NaN 11 53) or (_ bvN w)
	if t[i+1] == "fp" {
		sg, ex, mn := parseBits(t[i+2]), parseBits(t[i+3]), parseBits(t[i+4])
		return sg<<63 | ex<<52 | mn, i + 6
	}
	if t[i+1] == "_" {
		switch {
		case t[i+2] == "NaN":
			return math.Float64bits(math.NaN()), i + 6
		case t[i+2] == "+oo":
			return math.Float64bits(math.Inf(1)), i + 6
		case t[i+2] == "-oo":
			return math.Float64bits(math.Inf(-1)), i + 6
		case t[i+2] == "+zero":
			return 0, i + 6
		case t[i+2] == "-zero":
			return 1 << 63, i + 6
		case strings.HasPrefix(t[i+2], "bv"):
			n, _ := strconv.ParseUint(t[i+2][2:], 10, 64)
			return n, i + 5
		}
	}
	return 0, i + 1
}

// Decide decides pc /\ extra with the decision diagram where the guards are over finite-domain
// inputs only, else with the solver. Unsatisfiable verdicts of the diagram about assertions (all)
// and about branches (a share) are put to the solver in batches.
func (s *Solver) Decide(pc []*Expr, extra *Expr, assert bool) (SatRes, *Model) {
	if !noDD {
		t0 := time.Now()
		r, m := s.bdd.check(pc, extra)
		s.Time += time.Since(t0)
		if r == Sat {
			for _, p := range pc {
				if s.c.Eval(p, m) == 0 {
					panic("decision diagram: model does not satisfy the path condition")
				}
			}
			return r, m
		}
		if r == Unsat {
			s.cnt++
			if assert || s.cnt%s.every == 0 {
				s.oblige(pc, extra)
			}
			return r, nil
		}
	}
	return s.Check(pc, extra, true)
}

// out says that the decision diagram excludes extra under pc.
func (s *Solver) excluded(pc []*Expr, extra *Expr) bool {
	if noDD {
		return false
	}
	t0 := time.Now()
	r, _ := s.bdd.check(pc, extra)
	s.Time += time.Since(t0)
	if r != Unsat {
		return false
	}
	s.cnt++
	if s.cnt%s.every == 0 {
		s.oblige(pc, extra)
	}
	return true
}

func (s *Solver) oblige(pc []*Expr, extra *Expr) {
	s.obl = append(s.obl, s.conj(append(append([]*Expr{}, pc...), extra)))
	if len(s.obl) >= 256 {
		s.flush()
	}
}

// conj is a conjunction that shares its prefixes.
func (s *Solver) conj(es []*Expr) *Expr {
	if s.chain == nil {
		s.chain = map[[2]int]*Expr{}
	}
	p := s.c.T
	for _, x := range es {
		if x == nil || x == s.c.T {
			continue
		}
		k := [2]int{p.id, x.id}
		q := s.chain[k]
		if q == nil {
			q = x
			if p != s.c.T {
				q = s.c.mk(Expr{op: OAnd, a: []*Expr{p, x}})
			}
			s.chain[k] = q
		}
		p = q
	}
	return p
}

// flush puts the waiting verdicts to the solver.
func (s *Solver) flush() {
	if len(s.obl) == 0 {
		return
	}
	o := s.obl[0]
	if len(s.obl) > 1 {
		o = s.c.mk(Expr{op: OOr, a: s.obl})
	}
	n := len(s.obl)
	s.obl = nil
	r, m := s.Check(nil, o, true)
	switch r {
	case Unsat:
		s.oblN += n
	case Sat:
		s.oblBad = append(s.oblBad, m)
	}
}

// free drops the tables (the counters stay).
func (s *Solver) free() {
	s.bdd.reset()
	s.chain, s.obl, s.stk, s.c = nil, nil, nil, nil
}

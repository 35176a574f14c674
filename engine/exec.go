package main

import (
	"fmt"
	"go/token"
	"go/types"
	"io"
	"os"
	"runtime/debug"
	"strconv"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

var logw io.Writer = os.Stderr

func itoa(i int) string { return strconv.Itoa(i) }

type Violation struct {
	kind  string // assert, panic, race, deadlock, hang, exit
	msg   string
	pos   string
	model *Model
	conc  bool
	order bool // depends on a map iteration order
	stack string
}

type Input struct {
	name string
	kind string
	val  string
}

type Exec struct {
	p        *Program
	c        *Ctx
	sol      *Solver
	cs       *Case
	nextObj  ObjID
	deadline time.Time
	forced   bool // follow one model: everything is concrete
	fmodel   *Model
	leaves   []*Expr // inputs of the finished paths
	leafSeen map[int]bool
	leafAll  bool
	closed   string // how the closure of the input space was decided
	focSt    *State
	focLen   int
	focGen   uint32

	nSteps, nStates, nPaths, nMerges, mergeFails, unknowns int
	nForks                                                 int
	maxSteps                                               int // per path budget
	pathSteps                                              int
	debugMerge                                             bool
	viols                                                  []*Violation
	seen                                                   map[string]int
	covers                                                 map[string]bool
	asserts                                                map[string]int
	cut                                                    map[string]int // reasons for incompleteness
	ends                                                   map[string]int
	done                                                   []*State // sampled completed states
	inputs                                                 []Input
	draws                                                  []string
	flogs                                                  []string
	outs                                                   []string
	trace                                                  bool
	bounded                                                int // scheduling points at which the bound on preemptions left no choice
	raceOn                                                 bool
	preemptBound                                           int
	assertQ                                                int
	initPkg                                                *ssa.Function
	initErr                                                string
	initState                                              *State
	noMem                                                  atomic.Bool
}

func (ex *Exec) get(f *Frame, o Opd) Value {
	if o.reg >= 0 {
		return f.regs[o.reg]
	}
	return o.v
}

// run executes s until it reaches stop (if any) and returns the states that did.
func (ex *Exec) run(s0 *State, stop *Stop) []*State {
	var out []*State
	work := []*State{s0}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
	path:
		for {
			if stop != nil && ex.atStop(s, stop) {
				out = append(out, s)
				break path
			}
			kids, kstop, ended := ex.safeStep(s)
			if ended {
				break path
			}
			if kids != nil {
				ex.nForks++
				base := len(s.pc)
				var res []*State
				for _, k := range kids {
					res = append(res, ex.run(k, kstop)...)
				}
				if kstop != nil {
					res = ex.mergeAll(res, base, len(kids))
				}
				if len(res) == 0 {
					break path
				}
				// continue with merged states
				work = append(work, res[1:]...)
				s = res[0]
			}
		}
	}
	return out
}

func (ex *Exec) mergeAll(res []*State, base, nk int) []*State {
	if ex.cs != nil && ex.cs.noMerge {
		return res
	}
	var acc []*State
	for _, r := range res {
		done := false
		for i, a := range acc {
			if m := ex.merge(a, r, base); m != nil {
				if m.model == nil {
					m.model = r.model
				}
				acc[i] = m
				done = true
				break
			}
		}
		if !done {
			acc = append(acc, r)
		}
	}
	return acc
}

func (ex *Exec) atStop(s *State, st *Stop) bool {
	if s.cur != st.g {
		return false
	}
	g := s.gs[st.g]
	n := len(g.frames)
	if n < st.depth {
		return true
	}
	if n > st.depth {
		return false
	}
	f := g.frames[n-1]
	return st.block >= 0 && f.block == st.block && f.pc == st.pc
}

func (ex *Exec) safeStep(s *State) (kids []*State, stop *Stop, ended bool) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case forkReq:
				kids, stop = ex.doFork(s, x.gs)
				ended = len(kids) == 0
			case infeasible:
				ended = true
			case unsupported:
				ex.cutPath(s, "unsupported: "+string(x)+" at "+ex.where(s))
				ended = true
			case hasTok:
				ex.cutPath(s, "unsupported: symbolic number text used concretely at "+ex.where(s))
				ended = true
			case budget, pathEnd:
				panic(r)
			default:
				if os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Fprintf(logw, "%v\n%s\n", r, debug.Stack())
				}
				ex.cutPath(s, fmt.Sprintf("engine: %v at %s", r, ex.where(s)))
				ended = true
			}
		}
	}()
	// run straight-line steps until something interesting happens
	for {
		kids, stop, ended = ex.step(s)
		if kids != nil || ended {
			return
		}
		return
	}
}

type pathEnd struct{}

func (ex *Exec) where(s *State) string {
	if s.cur >= len(s.gs) {
		return "?"
	}
	g := s.gs[s.cur]
	r := ""
	for i := len(g.frames) - 1; i >= 0 && i > len(g.frames)-6; i-- {
		f := g.frames[i]
		pc := f.pc
		if i < len(g.frames)-1 {
			pc--
		}
		pos := token.NoPos
		if f.block < len(f.fi.blocks) && pc >= 0 && pc < len(f.fi.blocks[f.block].ins) {
			for q := pc; q >= 0 && !pos.IsValid(); q-- {
				pos = f.fi.blocks[f.block].ins[q].pos
			}
		}
		if r != "" {
			r += " < "
		}
		r += f.fi.fn.Name() + "(" + ex.p.posn(pos) + ")"
	}
	return r
}

func (ex *Exec) cutPath(s *State, why string) {
	ex.cut[why]++
	ex.nPaths++
}

func (ex *Exec) endPath(s *State, how string) {
	ex.nPaths++
	ex.ends[how]++
	ex.leaf(s, nil)
	for _, c := range s.covs {
		ex.covers[c] = true
	}
	if how == "done" || how == "exit" {
		if len(ex.done) < 64 {
			ex.done = append(ex.done, s)
		} else if ex.nPaths%97 == 0 {
			ex.done[(ex.nPaths/97)%64] = s
		}
	}
}

// leaf records the inputs of a finished path (or of the part of it that an assumption excludes).
func (ex *Exec) leaf(s *State, extra *Expr) {
	if ex.forced || ex.sol == nil || len(ex.leaves) > maxLeaves {
		return
	}
	p := ex.sol.conj(append(append([]*Expr{}, s.pc...), extra))
	if p == ex.c.T {
		ex.leafAll = true
	}
	if ex.leafSeen == nil {
		ex.leafSeen = map[int]bool{}
	}
	if !ex.leafSeen[p.id] {
		ex.leafSeen[p.id] = true
		ex.leaves = append(ex.leaves, p)
	}
}

const maxLeaves = 200000

// closure asks whether an input follows none of the explored paths.
func (ex *Exec) closure() (res SatRes, m *Model, bySolver bool) {
	if ex.leafAll {
		return Unsat, nil, false
	}
	if len(ex.leaves) == 0 || len(ex.leaves) > maxLeaves {
		return Unknown, nil, false
	}
	o := ex.leaves[0]
	if len(ex.leaves) > 1 {
		o = ex.c.mk(Expr{op: OOr, a: ex.leaves})
	}
	r, m := ex.sol.Check(nil, ex.c.mk(Expr{op: ONot, a: []*Expr{o}}), true)
	if r != Unknown {
		return r, m, true
	}
	if noDD {
		return r, m, false
	}
	r, m = ex.sol.bdd.check(nil, ex.c.Not(o))
	return r, m, false
}

// doFork creates one child per feasible guard; children re-execute the current instruction and are
// merged right after it.
func (ex *Exec) doFork(s *State, gs []*Expr) ([]*State, *Stop) {
	g := s.gs[s.cur]
	d := len(g.frames)
	f := g.frames[d-1]
	stop := &Stop{g: s.cur, depth: d, block: f.block, pc: f.pc + 1}
	if f.panicking || f.running {
		stop = nil
	}
	if _, ok := f.fi.blocks[f.block].ins[f.pc].in.(*ssa.Return); ok {
		stop = &Stop{g: s.cur, depth: d, block: -1}
	}
	return ex.split(s, gs), stop
}

func (ex *Exec) split(s *State, gs []*Expr) []*State {
	var kids []*State
	for _, gd := range gs {
		ok, m := ex.may(s, gd)
		if !ok {
			continue
		}
		k := ex.fork(s)
		ex.addPC(k, gd)
		if m != nil {
			k.model = m
		}
		kids = append(kids, k)
	}
	return kids
}

func (ex *Exec) setReg(s *State, dst int, v Value) {
	if dst >= 0 {
		s.topw().regs[dst] = v
	}
}

// step executes one instruction of the current goroutine.
func (ex *Exec) step(s *State) (kids []*State, stop *Stop, ended bool) {
	ex.nSteps++
	if ex.nSteps&1023 == 0 && ex.noMem.Load() {
		panic(budget("memory budget exhausted"))
	}
	if ex.nSteps&1023 == 0 {
		now := time.Now()
		if now.After(ex.deadline) {
			panic(budget("time budget exhausted"))
		}
		if t := stopAt.Load(); t != 0 && !ex.forced && now.UnixNano() > t {
			panic(budget("stopped after a violation was found"))
		}
	}
	if s.needSched {
		return ex.schedule(s)
	}
	g := s.gs[s.cur]
	if g.st != gRun || len(g.frames) == 0 {
		return ex.schedule(s)
	}
	f := s.topw()
	if f.running {
		ex.continueDefers(s)
		return nil, nil, false
	}
	b := &f.fi.blocks[f.block]
	in := &b.ins[f.pc]
	switch x := in.in.(type) {
	case *ssa.If:
		return ex.doIf(s, f, in)
	case *ssa.Jump:
		ex.jump(s, f, b.succs[0])
		return nil, nil, false
	case *ssa.Return:
		return ex.doReturn(s, f, in)
	case *ssa.Panic:
		ex.doPanic(s, ex.get(f, in.ops[0]))
		return nil, nil, ex.unwound(s)
	case *ssa.RunDefers:
		if len(f.defers) == 0 {
			f.pc++
			return nil, nil, false
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		ex.invoke(s, d.fn, d.args, -1, d.call, true)
		return nil, nil, ex.unwound(s)
	case *ssa.Call:
		return ex.doCall(s, f, in)
	case *ssa.Defer:
		ci := in.call
		fn, args := ex.prepCall(s, f, ci)
		f.defers = append(f.defers, &deferred{fn: fn, args: args, call: ci})
		f.pc++
	case *ssa.Go:
		ci := in.call
		fn, args := ex.prepCall(s, f, ci)
		f.pc++
		ex.spawn(s, fn, args, ci)
	case *ssa.Store:
		addr := ex.get(f, in.ops[0])
		v := ex.get(f, in.ops[1])
		if !ex.checkNil(s, addr) {
			return nil, nil, ex.unwound(s)
		}
		ex.store(s, addr, v, in.lay)
		f.pc++
	case *ssa.MapUpdate:
		return nil, nil, ex.mapUpdate(s, f, in)
	case *ssa.Send:
		return ex.chanSend(s, f, in)
	case *ssa.Select:
		return ex.doSelect(s, f, in, x)
	default:
		if u, ok := in.in.(*ssa.UnOp); ok && u.Op == token.ARROW {
			return ex.chanRecv(s, f, in)
		}
		v, ok := ex.evalInst(s, f, in)
		if !ok { // a panic was raised or the goroutine moved
			return nil, nil, ex.unwound(s)
		}
		f = s.topw()
		f.regs[in.dst] = v
		f.pc++
	}
	return nil, nil, false
}

// unwound reports whether the whole program ended through a panic.
func (ex *Exec) unwound(s *State) bool { return s.cur < 0 }

func (ex *Exec) jump(s *State, f *Frame, to int) {
	from := f.block
	b := &f.fi.blocks[to]
	if b.nphi > 0 {
		e := -1
		for i, p := range b.preds {
			if p == from {
				e = i
				break
			}
		}
		var tmp [8]Value
		vals := tmp[:0]
		for k := 0; k < b.nphi; k++ {
			vals = append(vals, ex.get(f, b.ins[k].ops[e]))
		}
		for k := 0; k < b.nphi; k++ {
			f.regs[b.ins[k].dst] = vals[k]
		}
	}
	if to <= from {
		ex.pathSteps++
		if f.visits == nil {
			f.visits = map[int]int{}
		}
		f.visits[to]++
		if f.visits[to] > ex.cs.maxLoop {
			ex.violation(s, "hang", fmt.Sprintf("loop executed more than %d times", ex.cs.maxLoop), ex.where(s), nil)
			panic(infeasible{})
		}
	}
	f.prev = from
	f.block = to
	f.pc = b.nphi
}

func (ex *Exec) doIf(s *State, f *Frame, in *Inst) (kids []*State, stop *Stop, ended bool) {
	b := &f.fi.blocks[f.block]
	c := ex.get(f, in.ops[0])
	if c.K == KBool {
		t := b.succs[1]
		if c.N != 0 {
			t = b.succs[0]
		}
		ex.jump(s, f, t)
		return nil, nil, false
	}
	e := c.e()
	switch ex.known(s, e) {
	case 1:
		ex.jump(s, f, b.succs[0])
		return nil, nil, false
	case -1:
		ex.jump(s, f, b.succs[1])
		return nil, nil, false
	}
	ne := ex.c.Not(e)
	okT, mT := ex.may(s, e)
	okF, mF := true, (*Model)(nil)
	if okT {
		okF, mF = ex.may(s, ne)
	} else if s.model != nil {
		mF = s.model
	}
	if okT && !okF {
		ex.jump(s, f, b.succs[0])
		return nil, nil, false
	}
	if !okT {
		ex.jump(s, f, b.succs[1])
		return nil, nil, false
	}
	d := len(s.gs[s.cur].frames)
	switch b.ipdom {
	case -2:
	case -1:
		stop = &Stop{g: s.cur, depth: d, block: -1}
	default:
		stop = &Stop{g: s.cur, depth: d, block: b.ipdom, pc: f.fi.blocks[b.ipdom].nphi}
	}
	mk := func(g *Expr, m *Model, to int) *State {
		k := ex.fork(s)
		ex.addPC(k, g)
		k.model = m
		kf := k.topw()
		ex.jump(k, kf, to)
		return k
	}
	k1 := mk(e, mT, b.succs[0])
	k2 := mk(ne, mF, b.succs[1])
	return []*State{k1, k2}, stop, false
}

func (ex *Exec) doReturn(s *State, f *Frame, in *Inst) (kids []*State, stop *Stop, ended bool) {
	var v Value
	switch len(in.ops) {
	case 0:
	case 1:
		v = ex.get(f, in.ops[0])
	default:
		var cells []Value
		for _, o := range in.ops {
			x := ex.get(f, o)
			if x.K == KAgg {
				cells = append(cells, x.agg()...)
			} else {
				cells = append(cells, x)
			}
		}
		v = vAgg(cells)
	}
	if s.conc && s.cur == 0 && len(s.gs[0].frames) == 1 && ex.point(s) {
		return nil, nil, false // the end stops the other goroutines
	}
	return ex.ret(s, v)
}

func (ex *Exec) ret(s *State, v Value) (kids []*State, stop *Stop, ended bool) {
	g := s.gw()
	f := g.frames[len(g.frames)-1]
	g.frames = g.frames[:len(g.frames)-1]
	if len(g.frames) == 0 {
		return ex.gorEnd(s)
	}
	if f.ret >= 0 {
		s.topw().regs[f.ret] = v
	}
	return nil, nil, false
}

func (ex *Exec) gorEnd(s *State) (kids []*State, stop *Stop, ended bool) {
	g := s.gw()
	g.st = gDone
	if s.cur == 0 {
		ex.endPath(s, "done")
		return nil, nil, true
	}
	return ex.schedule(s)
}

// prepCall evaluates callee and arguments; returns a KFunc closure value.
func (ex *Exec) prepCall(s *State, f *Frame, ci *CallInfo) (Value, []Value) {
	args := make([]Value, 0, len(ci.args)+1)
	if ci.method != nil {
		recv := ex.res(s, ex.get(f, ci.fn))
		if recv.P == nil {
			return Value{K: KInvalid}, nil
		}
		ifv := recv.iface()
		fn := ex.p.method(ifv.t, ci.method)
		args = append(args, ifv.v)
		for _, a := range ci.args {
			args = append(args, ex.get(f, a))
		}
		return Value{K: KFunc, P: &Closure{fn: fn}}, args
	}
	for _, a := range ci.args {
		args = append(args, ex.get(f, a))
	}
	if ci.bi != "" {
		return Value{K: KFunc, P: &Closure{bi: ci.bi}}, args
	}
	if ci.static != nil {
		return Value{K: KFunc, P: &Closure{fn: ci.static.fn}}, args
	}
	return ex.res(s, ex.get(f, ci.fn)), args
}

type mkey struct {
	t types.Type
	m *types.Func
}

func (p *Program) method(t types.Type, m *types.Func) *ssa.Function {
	k := mkey{t, m}
	if f, ok := p.mcache.Load(k); ok {
		return f.(*ssa.Function)
	}
	fn := p.prog.LookupMethod(t, m.Pkg(), m.Name())
	if fn == nil {
		panic(unsupported("no method " + m.Name() + " on " + t.String()))
	}
	p.mcache.Store(k, fn)
	return fn
}

func (ex *Exec) doCall(s *State, f *Frame, in *Inst) (kids []*State, stop *Stop, ended bool) {
	ci := in.call
	if ci.static != nil && ci.bi == "" {
		fi := ci.static
		if ex.initPkg != nil && fi.fn.Name() == "init" && fi.fn.Pkg != ex.initPkg.Pkg && fi.fn.Synthetic == "package initializer" {
			f.pc++
			return nil, nil, false
		}
		if fi.repl != nil {
			fi = fi.repl
		}
		args := make([]Value, len(ci.args))
		for i, a := range ci.args {
			args[i] = ex.get(f, a)
		}
		if fi.intr != nil {
			return ex.callIntr(s, fi, args, in.dst, ci)
		}
		f.pc++
		ex.push(s, fi, args, nil, in.dst, false)
		return nil, nil, false
	}
	fn, args := ex.prepCall(s, f, ci)
	if fn.K == KInvalid || fn.P == nil {
		ex.rtPanic(s, "invalid memory address or nil pointer dereference")
		return nil, nil, ex.unwound(s)
	}
	cl := fn.closure()
	if cl.bi != "" {
		if cl.bi == "close" && ex.point(s) {
			return nil, nil, false
		}
		v, ok := ex.builtin(s, cl.bi, args, ci)
		if !ok {
			return nil, nil, ex.unwound(s)
		}
		f = s.topw()
		f.regs[in.dst] = v
		f.pc++
		return nil, nil, false
	}
	fi := ex.p.info(cl.fn)
	if fi.repl != nil {
		fi = fi.repl
	}
	if fi.intr != nil {
		return ex.callIntr(s, fi, args, in.dst, ci)
	}
	f.pc++
	ex.push(s, fi, args, cl.binds, in.dst, false)
	return nil, nil, false
}

func (ex *Exec) callIntr(s *State, fi *FnInfo, args []Value, dst int, ci *CallInfo) (kids []*State, stop *Stop, ended bool) {
	v, act := fi.intr(ex, s, ci, args)
	switch act {
	case actOK:
		f := s.topw()
		if dst >= 0 {
			f.regs[dst] = v
		}
		f.pc++
		return nil, nil, false
	case actRetry:
		return nil, nil, false
	case actBlock:
		s.gw().st = gBlocked
		s.gw().passed = true
		return ex.schedule(s)
	case actPanic:
		return nil, nil, ex.unwound(s)
	case actEnd:
		return nil, nil, true
	case actInterp: // run the real body
		f := s.topw()
		f.pc++
		ex.pushBody(s, fi, args, nil, dst, false)
		return nil, nil, false
	case actSched:
		f := s.topw()
		if dst >= 0 {
			f.regs[dst] = v
		}
		f.pc++
		return ex.schedule(s)
	}
	panic("bad action")
}

// invoke calls a function value outside of a Call instruction (defers, goroutine starts).
func (ex *Exec) invoke(s *State, fn Value, args []Value, dst int, ci *CallInfo, isDefer bool) {
	if fn.P == nil {
		ex.rtPanic(s, "invalid memory address or nil pointer dereference")
		return
	}
	cl := fn.closure()
	if cl.bi != "" {
		ex.builtin(s, cl.bi, args, ci)
		return
	}
	fi := ex.p.info(cl.fn)
	if fi.repl != nil {
		fi = fi.repl
	}
	if fi.intr != nil {
		v, act := fi.intr(ex, s, ci, args)
		_ = v
		switch act {
		case actOK, actSched:
			return
		case actInterp:
			ex.pushBody(s, fi, args, nil, dst, isDefer)
			return
		case actPanic:
			return
		}
		panic(unsupported("deferred intrinsic " + fi.name))
	}
	ex.push(s, fi, args, cl.binds, dst, isDefer)
}

func (ex *Exec) push(s *State, fi *FnInfo, args []Value, binds []Value, dst int, isDefer bool) {
	ex.pushBody(s, fi, args, binds, dst, isDefer)
}

func (ex *Exec) pushBody(s *State, fi *FnInfo, args []Value, binds []Value, dst int, isDefer bool) {
	if err := fi.compile(ex.p); err != nil {
		panic(unsupported(err.Error()))
	}
	fi.hit()
	g := s.gw()
	if len(g.frames) > 2000 {
		ex.violation(s, "panic", "stack overflow (recursion deeper than 2000)", ex.where(s), nil)
		panic(infeasible{})
	}
	f := &Frame{fi: fi, regs: make([]Value, fi.nregs), owner: s.tok, ret: dst, isDefer: isDefer}
	if len(args) != len(fi.params) {
		panic(unsupported(fmt.Sprintf("call of %s with %d args, want %d", fi.name, len(args), len(fi.params))))
	}
	for i, a := range args {
		f.regs[fi.params[i]] = a
	}
	for i, a := range binds {
		f.regs[fi.free[i]] = a
	}
	g.frames = append(g.frames, f)
}

// --- panics ---

func (ex *Exec) rtPanic(s *State, msg string) {
	ex.doPanicMsg(s, Value{K: KIface, P: &IfaceV{ex.p.rtErrT(), vStr(msg)}}, "runtime error: "+msg)
}

func (ex *Exec) doPanic(s *State, v Value) {
	ex.doPanicMsg(s, v, "panic: "+ex.panicText(s, v))
}

func (ex *Exec) panicText(s *State, v Value) string {
	defer func() {
		recover()
	}()
	if v.K == KIface && v.P != nil {
		iv := v.iface()
		if iv.v.K == KStr {
			if t, ok := iv.v.P.(string); ok {
				return t
			}
		}
		return iv.t.String()
	}
	return v.String()
}

func (ex *Exec) doPanicMsg(s *State, v Value, msg string) {
	g := s.gw()
	g.panics = append(g.panics, v)
	where := ex.where(s)
	f := s.topw()
	f.running, f.panicking, f.recovered = true, true, false
	// does anything on this stack defer? if not, report at once
	any := false
	for _, fr := range g.frames {
		if len(fr.defers) > 0 {
			any = true
		}
	}
	if !any {
		ex.violation(s, "panic", msg, where, nil)
		ex.endPath(s, "panic")
		s.cur = -1
		return
	}
	s.note = append(s.note, msg+" at "+where)
	ex.continueDefers(s)
}

// continueDefers advances a frame that is unwinding.
func (ex *Exec) continueDefers(s *State) {
	f := s.topw()
	if len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		ex.invoke(s, d.fn, d.args, -1, d.call, true)
		return
	}
	if f.recovered {
		f.running, f.panicking, f.recovered = false, false, false
		if f.fi.rec >= 0 {
			f.prev = f.block
			f.block = f.fi.rec
			f.pc = 0
			return
		}
		// no named results: return zero values
		var v Value
		switch f.fi.fn.Signature.Results().Len() {
		case 0:
		case 1:
			v = zeroOf(f.fi.fn.Signature.Results().At(0).Type())
		default:
			v = zeroOf(f.fi.retT)
		}
		ex.ret(s, v)
		return
	}
	// propagate
	g := s.gw()
	if len(g.frames) == 1 {
		msg := "panic"
		if len(s.note) > 0 {
			msg = s.note[len(s.note)-1]
		}
		ex.violation(s, "panic", msg, ex.where(s), nil)
		ex.endPath(s, "panic")
		panic(infeasible{})
	}
	g.frames = g.frames[:len(g.frames)-1]
	nf := s.topw()
	nf.running, nf.panicking, nf.recovered = true, true, false
}

func (ex *Exec) doRecover(s *State) Value {
	g := s.gw()
	n := len(g.frames)
	if n >= 2 && g.frames[n-1].isDefer {
		below := g.frames[n-2]
		if below.panicking && !below.recovered && len(g.panics) > 0 {
			if below.owner != s.tok {
				c := *below
				c.owner = s.tok
				c.regs = append([]Value{}, below.regs...)
				c.defers = append([]*deferred{}, below.defers...)
				g.frames[n-2] = &c
				below = &c
			}
			below.recovered = true
			v := g.panics[len(g.panics)-1]
			g.panics = g.panics[:len(g.panics)-1]
			return v
		}
	}
	return Value{K: KIface}
}

// stopAt is when to stop after a violation was confirmed; 0 means never.
var stopAt atomic.Int64

// keepLooking is set when there are known findings, which don't end the search.
var keepLooking bool

func (ex *Exec) violation(s *State, kind, msg, where string, m *Model) {
	key := kind + "|" + msg + "|" + firstLoc(where)
	ex.seen[key]++
	if ex.seen[key] > 4 {
		return
	}
	if m == nil {
		m = s.model
	}
	if m == nil {
		r, mm := ex.sol.Decide(s.pc, nil, false)
		if r != Sat {
			return
		}
		m = mm
	}
	if !keepLooking && len(ex.viols) == 0 {
		// enough to know that the property fails; leave time for the other cases
		if t := time.Now().Add(45 * time.Second); t.Before(ex.deadline) {
			ex.deadline = t
		}
	}
	ex.viols = append(ex.viols, &Violation{kind: kind, msg: msg, pos: where, model: m, order: s.mapOrd || s.conc, conc: s.conc})
}

func firstLoc(w string) string {
	for i := 0; i < len(w); i++ {
		if w[i] == '<' {
			return w[:i]
		}
	}
	return w
}

// guard: returns true if cond must hold to continue; when it can fail, the failing side panics
// with msg. Returns false if the current path (entirely) panicked.
func (ex *Exec) guardPanic(s *State, bad *Expr, msg string) bool {
	switch ex.known(s, bad) {
	case -1:
		return true
	case 1:
		ex.rtPanic(s, msg)
		return false
	}
	ok, _ := ex.may(s, bad)
	if !ok {
		return true
	}
	nb := ex.c.Not(bad)
	okN, _ := ex.may(s, nb)
	if !okN {
		ex.rtPanic(s, msg)
		return false
	}
	panic(forkReq{[]*Expr{nb, bad}})
}

// checkNil ensures that a pointer is not nil.
func (ex *Exec) checkNil(s *State, p Value) bool {
	switch p.K {
	case KPtr:
		if p.N == 0 || p.obj() == 0 {
			ex.rtPanic(s, "invalid memory address or nil pointer dereference")
			return false
		}
		return true
	case KUnion:
		u := p.P.(*UnionV)
		bad := ex.c.F
		for i, v := range u.vs {
			if v.K == KPtr && v.obj() == 0 {
				bad = ex.c.Or(bad, u.gs[i])
			}
		}
		return ex.guardPanic(s, bad, "invalid memory address or nil pointer dereference")
	}
	panic(unsupported("dereference of " + p.String()))
}

func packCells(cells []Value, lay *Layout) Value {
	if lay.agg {
		return vAgg(append(make([]Value, 0, len(cells)), cells...))
	}
	return cells[0]
}

func (ex *Exec) load(s *State, p Value, lay *Layout) Value {
	if p.K == KPtr {
		o := s.get(p.obj())
		off := p.off()
		if off+lay.size > len(o.cells) {
			panic(unsupported(fmt.Sprintf("load out of object bounds (%d+%d of %d)", off, lay.size, len(o.cells))))
		}
		if s.conc {
			ex.access(s, p.obj(), off, lay.size, false)
		}
		return packCells(o.cells[off:off+lay.size], lay)
	}
	u := p.P.(*UnionV)
	var acc Value
	first := true
	for i, q := range u.vs {
		if q.obj() == 0 || ex.known(s, u.gs[i]) == -1 {
			continue
		}
		v := ex.load(s, q, lay)
		if first {
			acc, first = v, false
			continue
		}
		w, ok := ex.iteVal(u.gs[i], v, acc)
		if !ok {
			return ex.load(s, ex.res(s, p), lay)
		}
		acc = w
	}
	if first {
		panic(infeasible{})
	}
	return acc
}

func (ex *Exec) store(s *State, p Value, v Value, lay *Layout) {
	if p.K == KPtr {
		o := s.getw(p.obj())
		off := p.off()
		if off+lay.size > len(o.cells) {
			panic(unsupported("store out of object bounds"))
		}
		if s.conc {
			ex.access(s, p.obj(), off, lay.size, true)
		}
		if lay.agg {
			copy(o.cells[off:off+lay.size], v.agg())
		} else {
			o.cells[off] = v
		}
		return
	}
	u := p.P.(*UnionV)
	// compute all new cells first: no side effect before a possible fork
	type upd struct {
		id ObjID
		at int
		v  Value
	}
	var ups []upd
	for i, q := range u.vs {
		if q.obj() == 0 || ex.known(s, u.gs[i]) == -1 {
			continue
		}
		o := s.get(q.obj())
		for k := 0; k < lay.size; k++ {
			nv := v
			if lay.agg {
				nv = v.agg()[k]
			}
			w, ok := ex.iteVal(u.gs[i], nv, o.cells[q.off()+k])
			if !ok {
				ex.store(s, ex.res(s, p), v, lay)
				return
			}
			ups = append(ups, upd{q.obj(), q.off() + k, w})
		}
	}
	for _, x := range ups {
		s.getw(x.id).cells[x.at] = x.v
	}
}

package main

import (
	"fmt"
	"go/types"
	"sync/atomic"
	"time"
)

type vclock []int32

func (a vclock) leq(b vclock) bool {
	for i, x := range a {
		if x > 0 && (i >= len(b) || x > b[i]) {
			return false
		}
	}
	return true
}
func (a vclock) join(b vclock) vclock {
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	r := make(vclock, n)
	copy(r, a)
	for i, x := range b {
		if x > r[i] {
			r[i] = x
		}
	}
	return r
}
func (a vclock) inc(g int) vclock {
	r := a.join(make(vclock, g+1))
	r[g]++
	return r
}

type deferred struct {
	fn   Value
	args []Value
	call *CallInfo
}

type Frame struct {
	fi     *FnInfo
	regs   []Value
	block  int
	pc     int
	prev   int
	owner  uint64
	ret    int // destination register in the caller (-1: none)
	defers []*deferred
	// deferring state
	running   bool // currently running deferred calls
	panicking bool
	recovered bool
	isDefer   bool // this frame is a deferred call (recover allowed)
	visits    map[int]int
}

type gstat uint8

const (
	gRun gstat = iota
	gBlocked
	gDone
)

type Gor struct {
	frames  []*Frame
	owner   uint64
	st      gstat
	panics  []Value // active panic values
	vc      vclock
	wakeArg Value
	// blocked on channel operation; re-executed when runnable
	sent    bool // value was taken by a receiver (unbuffered send)
	name    string
	sendOn  uint64
	sendVal Value
	sendVC  vclock
	spun    bool
	passed  bool // at the operation of a scheduling point, which was taken
}

type accKey struct {
	id  ObjID
	off int
}
type accInfo struct {
	wg   int
	wc   int32
	wpos string
	rd   vclock
	rpos string
}

type logEnt struct {
	label string
	v     Value
}

type drawEnt struct {
	v, n Value
	kind string
}

type State struct {
	tok       uint64
	heap      *node
	pc        []*Expr
	gs        []*Gor
	cur       int
	model     *Model
	nrnd      int
	rep       int // draws repeat those this many draws earlier, 0 for fresh draws
	nord      int
	nsch      int
	nfr       int
	logs      []logEnt
	drs       []drawEnt
	covs      []string
	cgen      uint32 // constraint marking generation
	conc      bool   // more than one goroutine was started
	acc       map[accKey]*accInfo
	mapOrd    bool // a map iteration order was chosen on this path
	preempt   int
	note      []string
	needSched bool
	sleep     uint64
	locks     map[uint64]vclock
}

var tokCtr uint64
var genCtr uint32

func nextGen() uint32 { return atomic.AddUint32(&genCtr, 1) }

type Stop struct {
	g     int
	depth int
	block int
	pc    int
}

func (s *State) g() *Gor { return s.gs[s.cur] }
func (s *State) gw() *Gor {
	return s.gwi(s.cur)
}
func (s *State) gwi(i int) *Gor {
	g := s.gs[i]
	if g.owner != s.tok {
		c := *g
		c.owner = s.tok
		c.frames = append(make([]*Frame, 0, len(g.frames)+4), g.frames...)
		c.panics = append([]Value{}, g.panics...)
		s.gs[i] = &c
		g = &c
	}
	return g
}
func (s *State) top() *Frame {
	g := s.gs[s.cur]
	return g.frames[len(g.frames)-1]
}
func (s *State) topw() *Frame {
	g := s.gw()
	i := len(g.frames) - 1
	f := g.frames[i]
	if f.owner != s.tok {
		c := *f
		c.owner = s.tok
		c.regs = append(make([]Value, 0, len(f.regs)), f.regs...)
		c.defers = append([]*deferred{}, f.defers...)
		if f.visits != nil {
			c.visits = make(map[int]int, len(f.visits))
			for k, v := range f.visits {
				c.visits[k] = v
			}
		}
		g.frames[i] = &c
		f = &c
	}
	return f
}

func (ex *Exec) fork(s *State) *State {
	c := *s
	c.tok = ex.newTok()
	s.tok = ex.newTok()
	c.gs = append([]*Gor{}, s.gs...)
	s.pc = s.pc[:len(s.pc):len(s.pc)]
	c.pc = s.pc
	s.logs = s.logs[:len(s.logs):len(s.logs)]
	c.logs = s.logs
	s.drs = s.drs[:len(s.drs):len(s.drs)]
	c.drs = s.drs
	s.covs = s.covs[:len(s.covs):len(s.covs)]
	c.covs = s.covs
	s.note = s.note[:len(s.note):len(s.note)]
	c.note = s.note
	if s.acc != nil {
		c.acc = make(map[accKey]*accInfo, len(s.acc))
		for k, v := range s.acc {
			w := *v
			c.acc[k] = &w
		}
	}
	ex.nStates++
	return &c
}

func (ex *Exec) newTok() uint64 { return atomic.AddUint64(&tokCtr, 1) }

func (ex *Exec) newID() ObjID {
	ex.nextObj++
	if ex.nextObj >= 1<<30 {
		panic(unsupported("object ids exhausted"))
	}
	return ex.nextObj
}

func (ex *Exec) alloc(s *State, o *Obj) ObjID {
	id := ex.newID()
	o.owner = s.tok
	s.heap = trieSet(s.heap, id, o, s.tok)
	return id
}

func (s *State) get(id ObjID) *Obj {
	o := s.heap.get(id)
	if o == nil {
		panic(unsupported(fmt.Sprintf("dangling object %d", id)))
	}
	return o
}
func (s *State) getw(id ObjID) *Obj {
	o := s.get(id)
	if o.owner != s.tok {
		o = o.clone(s.tok)
		s.heap = trieSet(s.heap, id, o, s.tok)
	}
	return o
}

// addPC adds a conjunct to the path condition and propagates it.
func (ex *Exec) addPC(s *State, e *Expr) {
	if e.op == OTrue {
		return
	}
	ex.focus(s)
	s.pc = append(s.pc, e)
	ex.mark(e)
	ex.focLen++
}

func (ex *Exec) focus(s *State) {
	if ex.focSt == s && ex.focLen == len(s.pc) {
		return
	}
	ex.focGen = nextGen()
	ex.focSt, ex.focLen = s, len(s.pc)
	for _, e := range s.pc {
		ex.mark(e)
	}
}

func (ex *Exec) mark(e *Expr) {
	e.pcm = ex.focGen
	switch e.op {
	case OAnd:
		for _, x := range e.a {
			ex.mark(x)
		}
	case ONot:
		if e.a[0].op == OOr {
			for _, x := range e.a[0].a {
				ex.mark(ex.c.Not(x))
			}
		}
	case OIn:
		v := e.v
		if v.cgen != ex.focGen {
			v.cgen = ex.focGen
			v.cur = mask(uint8(v.fd))
		}
		v.cur &= e.n
	}
}

// known decides e syntactically under the focused path condition: 1 true, -1 false, 0 unknown.
func (ex *Exec) known(s *State, e *Expr) int {
	ex.focus(s)
	return ex.kn(e, 4)
}
func (ex *Exec) kn(e *Expr, d int) int {
	switch e.op {
	case OTrue:
		return 1
	case OFalse:
		return -1
	}
	if e.pcm == ex.focGen {
		return 1
	}
	if e.neg != nil && e.neg.pcm == ex.focGen {
		return -1
	}
	switch e.op {
	case OIn:
		if e.v.cgen == ex.focGen {
			if e.v.cur&e.n == 0 {
				return -1
			}
			if e.v.cur&^e.n == 0 {
				return 1
			}
		}
	case ONot:
		return -ex.kn(e.a[0], d)
	case OAnd:
		if d == 0 {
			return 0
		}
		r := 1
		for _, x := range e.a {
			switch ex.kn(x, d-1) {
			case -1:
				return -1
			case 0:
				r = 0
			}
		}
		return r
	case OOr:
		if d == 0 {
			return 0
		}
		r := -1
		for _, x := range e.a {
			switch ex.kn(x, d-1) {
			case 1:
				return 1
			case 0:
				r = 0
			}
		}
		return r
	}
	return 0
}

// simp simplifies a guard under the path condition.
func (ex *Exec) simp(s *State, e *Expr) *Expr {
	switch ex.known(s, e) {
	case 1:
		return ex.c.T
	case -1:
		return ex.c.F
	}
	return e
}

// may decides whether pc /\ e is satisfiable; on success the model satisfies it.
func (ex *Exec) may(s *State, e *Expr) (bool, *Model) {
	switch ex.known(s, e) {
	case -1:
		return false, nil
	}
	if s.model != nil && ex.c.Eval(e, s.model) != 0 {
		return true, s.model
	}
	if ex.forced {
		return ex.c.Eval(e, s.model) != 0, s.model
	}
	if time.Now().After(ex.deadline) {
		panic(budget("time budget exhausted"))
	}
	r, m := ex.sol.Decide(s.pc, e, false)
	switch r {
	case Sat:
		return true, m
	case Unsat:
		return false, nil
	}
	ex.unknowns++
	return true, nil // explored; anything found is confirmed by replay
}

type budget string

type forkReq struct{ gs []*Expr }

// pick chooses the alternative that holds under the path condition, forking if needed.
func (ex *Exec) pick(s *State, gs []*Expr) int {
	ex.focus(s)
	cand := -1
	n := 0
	for i, g := range gs {
		switch ex.kn(g, 4) {
		case 1:
			return i
		case 0:
			cand = i
			n++
		}
	}
	if n == 1 {
		return cand
	}
	if n == 0 {
		panic(infeasible{})
	}
	panic(forkReq{gs})
}

type infeasible struct{}

// conc makes a value concrete at its top level (resolves unions and symbolic scalars), forking
// the execution over the alternatives.
func (ex *Exec) conc(s *State, v Value) Value {
	for {
		switch v.K {
		case KUnion:
			u := v.P.(*UnionV)
			v = u.vs[ex.pick(s, u.gs)]
			continue
		case KSym:
			return ex.concSym(s, v)
		}
		return v
	}
}

// res resolves unions only.
func (ex *Exec) res(s *State, v Value) Value {
	for v.K == KUnion {
		u := v.P.(*UnionV)
		v = u.vs[ex.pick(s, u.gs)]
	}
	return v
}

func (ex *Exec) concSym(s *State, v Value) Value {
	e := v.e()
	mkv := func(n uint64) Value {
		switch e.sort {
		case SBool:
			return vBool(n != 0)
		case SFP:
			return Value{K: KFloat, N: n}
		}
		return Value{K: KInt, N: n}
	}
	if e.sort == SBool {
		if ex.pick(s, []*Expr{e, ex.c.Not(e)}) == 0 {
			return vBool(true)
		}
		return vBool(false)
	}
	if e.op == OVSet {
		return mkv(e.vals[ex.pick(s, e.a)])
	}
	// a general term: does the path condition fix it?
	for i := len(s.pc) - 1; i >= 0; i-- {
		p := s.pc[i]
		if p.op == OEq && (p.a[0] == e && p.a[1].op == OConst) {
			return mkv(p.a[1].n)
		}
		if p.op == OEq && (p.a[1] == e && p.a[0].op == OConst) {
			return mkv(p.a[0].n)
		}
	}
	if e.sort == SFP {
		panic(unsupported("concretisation of an unconstrained float"))
	}
	// enumerate feasible values
	var gs []*Expr
	rest := ex.c.T
	for {
		ok, m := ex.may(s, rest)
		if !ok {
			break
		}
		if m == nil || len(gs) > 64 {
			panic(unsupported("too many values for a symbolic integer"))
		}
		val := ex.c.Eval(e, m)
		eq := ex.c.app(OEq, SBool, 0, e, ex.c.BVConst(64, val))
		gs = append(gs, eq)
		rest = ex.c.And(rest, ex.c.Not(eq))
	}
	if len(gs) == 0 {
		panic(infeasible{})
	}
	panic(forkReq{gs})
}

// concInt returns a concrete integer, forking.
func (ex *Exec) concInt(s *State, v Value) int64 {
	v = ex.conc(s, v)
	if v.K != KInt {
		panic(unsupported("integer expected"))
	}
	return int64(v.N)
}

// deepStr returns a concrete Go string, forking over symbolic bytes.
func (ex *Exec) concStr(s *State, v Value) string {
	v = ex.res(s, v)
	if v.K != KStr {
		panic(unsupported("string expected, have " + v.String()))
	}
	if t, ok := v.P.(string); ok {
		return t
	}
	cells := v.P.(*SymStr).cells
	b := make([]byte, len(cells))
	for i, c := range cells {
		if c.K == KTok {
			panic(hasTok{})
		}
		b[i] = byte(ex.conc(s, c).N)
	}
	return string(b)
}

type hasTok struct{}

// --- merging ---

func (ex *Exec) samePos(a, b *State) bool {
	if a.cur != b.cur || len(a.gs) != len(b.gs) || a.nrnd != b.nrnd || a.rep != b.rep || a.nord != b.nord || a.nsch != b.nsch || a.nfr != b.nfr || len(a.logs) != len(b.logs) || a.preempt != b.preempt {
		return false
	}
	if a.acc != nil || b.acc != nil {
		return false
	}
	for i := range a.gs {
		x, y := a.gs[i], b.gs[i]
		if x == y {
			continue
		}
		if x.st != y.st || len(x.frames) != len(y.frames) || len(x.panics) != len(y.panics) || x.sent != y.sent || x.sendOn != y.sendOn {
			return false
		}
		for j := range x.panics {
			if !sameVal(x.panics[j], y.panics[j]) {
				return false
			}
		}
		for j := range x.frames {
			f, g := x.frames[j], y.frames[j]
			if f == g {
				continue
			}
			if f.fi != g.fi || f.block != g.block || f.pc != g.pc || f.ret != g.ret || len(f.defers) != len(g.defers) || f.running != g.running || f.panicking != g.panicking || f.recovered != g.recovered {
				return false
			}
			for k := range f.defers {
				p, q := f.defers[k], g.defers[k]
				if p == q {
					continue
				}
				if p.call != q.call || !sameVal(p.fn, q.fn) || len(p.args) != len(q.args) {
					return false
				}
				for l := range p.args {
					if !sameVal(p.args[l], q.args[l]) {
						return false
					}
				}
			}
		}
	}
	for i := range a.logs {
		if a.logs[i].label != b.logs[i].label {
			return false
		}
	}
	return true
}

func exclusive(a, b *Expr) bool {
	if a.neg == b && b != nil {
		return true
	}
	return a.op == OIn && b.op == OIn && a.v == b.v && a.n&b.n == 0
}

// merge tries to join b into a: the result equals b where b's path condition holds and a elsewhere.
func (ex *Exec) merge(a, b *State, base int) *State {
	if !ex.samePos(a, b) {
		return nil
	}
	c := ex.c
	k := base
	for k < len(a.pc) && k < len(b.pc) && a.pc[k] == b.pc[k] {
		k++
	}
	sa, sb := a.pc[k:], b.pc[k:]
	var g *Expr
	if len(sb) > 0 && len(sa) > 0 && exclusive(sa[0], sb[0]) {
		g = sb[0]
	} else {
		g = c.And(sb...)
		if g.op == OTrue { // b's condition is implied: use the complement of a's
			g = c.Not(c.And(sa...))
		}
	}
	if g.op == OFalse {
		return nil
	}
	// registers
	r := *a
	r.tok = ex.newTok()
	r.gs = append([]*Gor{}, a.gs...)
	for i := range a.gs {
		x, y := a.gs[i], b.gs[i]
		if x == y {
			continue
		}
		n := *x
		n.owner = r.tok
		n.frames = make([]*Frame, len(x.frames), len(x.frames)+4)
		for j := range x.frames {
			f, h := x.frames[j], y.frames[j]
			if f == h {
				n.frames[j] = f
				continue
			}
			m := *f
			m.owner = r.tok
			m.regs = make([]Value, len(f.regs))
			live := f.fi.liveAt(f.block, f.pc)
			skip := -1
			if j+1 < len(x.frames) {
				skip = x.frames[j+1].ret
			}
			for q := range f.regs {
				if !live[q] || q == skip {
					continue
				}
				v, ok := ex.iteVal(g, h.regs[q], f.regs[q])
				if !ok {
					ex.mergeFails++
					if ex.debugMerge {
						fmt.Fprintf(logw, "merge fail reg %d in %s: %v / %v\n", q, f.fi.fn, f.regs[q], h.regs[q])
					}
					return nil
				}
				m.regs[q] = v
			}
			m.defers = append([]*deferred{}, f.defers...)
			if h.visits != nil {
				m.visits = map[int]int{}
				for k, v := range f.visits {
					m.visits[k] = v
				}
				for k, v := range h.visits {
					if v > m.visits[k] {
						m.visits[k] = v
					}
				}
			}
			n.frames[j] = &m
		}
		r.gs[i] = &n
	}
	r.logs = append([]logEnt{}, a.logs...)
	for i := range r.logs {
		v, ok := ex.iteVal(g, b.logs[i].v, a.logs[i].v)
		if !ok {
			return nil
		}
		r.logs[i].v = v
	}
	if len(a.drs) != len(b.drs) {
		return nil
	}
	r.drs = append([]drawEnt{}, a.drs...)
	for i := range r.drs {
		if sameVal(a.drs[i].v, b.drs[i].v) && sameVal(a.drs[i].n, b.drs[i].n) {
			continue
		}
		v, ok := ex.iteVal(g, b.drs[i].v, a.drs[i].v)
		n, ok2 := ex.iteVal(g, b.drs[i].n, a.drs[i].n)
		if !ok || !ok2 {
			return nil
		}
		r.drs[i] = drawEnt{v, n, a.drs[i].kind}
	}
	if len(b.covs) > len(a.covs) {
		r.covs = b.covs
	}
	// heap
	ok := true
	type upd struct {
		id ObjID
		o  *Obj
	}
	var upds []upd
	trieDiff(a.heap, b.heap, trieDepth-1, 0, func(id ObjID, x, y *Obj) {
		if !ok || y == nil {
			return
		}
		if x == nil {
			upds = append(upds, upd{id, y})
			return
		}
		o := ex.mergeObj(g, y, x, r.tok)
		if o == nil {
			ok = false
			ex.mergeFails++
			if ex.debugMerge {
				fmt.Fprintf(logw, "merge fail obj %d: %v / %v\n", id, x.cells, y.cells)
			}
			return
		}
		if o != x {
			upds = append(upds, upd{id, o})
		}
	})
	if !ok {
		return nil
	}
	for _, u := range upds {
		r.heap = trieSet(r.heap, u.id, u.o, r.tok)
	}
	a.pc = a.pc[:len(a.pc):len(a.pc)]
	disj := c.Or(c.And(sa...), c.And(sb...))
	r.pc = append([]*Expr{}, a.pc[:k]...)
	if disj.op != OTrue {
		r.pc = append(r.pc, disj)
	}
	r.mapOrd = a.mapOrd || b.mapOrd
	r.cgen = 0
	ex.nMerges++
	return &r
}

func (ex *Exec) mergeObj(g *Expr, b, a *Obj, tok uint64) *Obj {
	if a.m != nil {
		if b.m == nil {
			return nil
		}
		return ex.mergeMap(g, b, a, tok)
	}
	if a.ch != nil {
		x, y := a.ch, b.ch
		if y == nil || x.closed != y.closed || len(x.buf) != len(y.buf) || x.snd != y.snd || x.rcv != y.rcv {
			return nil
		}
		n := a.clone(tok)
		for i := range x.buf {
			v, ok := ex.iteVal(g, y.buf[i], x.buf[i])
			if !ok {
				return nil
			}
			n.ch.buf[i] = v
		}
		return n
	}
	if len(a.cells) != len(b.cells) {
		return nil
	}
	var n *Obj
	for i := range a.cells {
		if sameVal(a.cells[i], b.cells[i]) {
			continue
		}
		v, ok := ex.iteVal(g, b.cells[i], a.cells[i])
		if !ok {
			return nil
		}
		if n == nil {
			n = a.clone(tok)
		}
		n.cells[i] = v
	}
	if n == nil {
		return a
	}
	return n
}

func (ex *Exec) mergeMap(g *Expr, b, a *Obj, tok uint64) *Obj {
	c := ex.c
	n := a.clone(tok)
	m := n.m
	pr := func(e *Expr) *Expr {
		if e == nil {
			return c.T
		}
		return e
	}
	ng := c.Not(g)
	for i := range m.ents {
		e := &m.ents[i]
		j, ok := b.m.idx[keyOf(e.key)]
		if !ok {
			e.pres = c.And(ng, pr(e.pres))
			continue
		}
		f := b.m.ents[j]
		v, ok := ex.iteVal(g, f.val, e.val)
		if pr(f.pres).op == OFalse {
			v, ok = e.val, true
		} else if pr(e.pres).op == OFalse {
			v, ok = f.val, true
		}
		if !ok {
			return nil
		}
		e.val = v
		p := c.IteB(g, pr(f.pres), pr(e.pres))
		if p.op == OTrue {
			p = nil
		}
		e.pres = p
	}
	for _, f := range b.m.ents {
		k := keyOf(f.key)
		if _, ok := a.m.idx[k]; ok {
			continue
		}
		p := c.And(g, pr(f.pres))
		if p.op == OFalse {
			continue
		}
		m.idx[k] = len(m.ents)
		m.ents = append(m.ents, mapEnt{f.key, f.val, p})
	}
	return n
}

// keyOf is the identity string of a concrete map key.
func keyOf(v Value) string {
	switch v.K {
	case KInt, KBool:
		return fmt.Sprintf("i%d", v.N)
	case KFloat:
		return fmt.Sprintf("f%v", v.f())
	case KStr:
		if s, ok := v.P.(string); ok {
			return "s" + s
		}
	case KPtr, KMap, KChan:
		return fmt.Sprintf("p%d", v.N)
	case KIface:
		if v.P == nil {
			return "nil"
		}
		return "I" + types.TypeString(v.iface().t, nil) + ":" + keyOf(v.iface().v)
	case KAgg:
		s := "{"
		for _, x := range v.agg() {
			k := keyOf(x)
			s += fmt.Sprintf("%d:%s", len(k), k)
		}
		return s
	case KRType:
		return "T" + types.TypeString(v.P.(types.Type), nil)
	}
	panic(unsupported("map key " + v.String()))
}

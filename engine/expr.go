package main

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
)

// Symbolic expressions. Hash-consed per Ctx (one Ctx per worker goroutine).

type Sort uint8

const (
	SBool Sort = iota
	SBV
	SFP
)

type Op uint8

const (
	OTrue Op = iota
	OFalse
	OConst // BV or FP constant, bits in n
	OVar   // free variable
	OIn    // finite-domain literal: fd in mask n
	ONot
	OAnd
	OOr
	OIte
	OVSet // guarded finite set of constants: vals[i] under guard a[i]
	OEq   // BV equality
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	OBNot
	ONeg
	OUlt
	OSlt
	OUle
	OSle
	OZext
	OSext
	OExtract // low w bits
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFSqrt
	OFLt
	OFLe
	OFEq
	OFIsNaN
	OSToFP
	OUToFP
	OFCeil
	OFFloor
	OFTrunc
	OFToS // towards zero, within range
)

type VarInfo struct {
	idx  int
	name string
	sort Sort
	w    uint8
	fd   int // domain size if finite-domain (values 0..fd-1), else 0
	lo   int64
	hi   int64
	rng  bool // lo..hi range constraint (signed)
	smt  string
	cgen uint32 // propagation generation
	cur  uint64 // propagated domain
}

type Expr struct {
	id     int
	op     Op
	sort   Sort
	w      uint8
	a      []*Expr
	n      uint64
	v      *VarInfo
	vals   []uint64
	evg    uint32
	evv    uint64
	def    uint32 // solver generation in which it was defined
	neg    *Expr
	pcm    uint32 // path-condition mark
	pruned int
}

type Model struct {
	vals []uint64
	gen  uint32
}

type Ctx struct {
	tab   map[uint64][]*Expr
	next  int
	T, F  *Expr
	vars  []*VarInfo
	byN   map[string]*VarInfo
	gen   uint32
	evals uint64
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[uint64][]*Expr{}, byN: map[string]*VarInfo{}}
	c.T = c.mk(Expr{op: OTrue})
	c.F = c.mk(Expr{op: OFalse})
	c.T.neg, c.F.neg = c.F, c.T
	return c
}

func mix(h, x uint64) uint64 {
	h ^= x
	h *= 0x9E3779B97F4A7C15
	h ^= h >> 29
	return h
}

func (c *Ctx) mk(e Expr) *Expr {
	h := mix(uint64(e.op)<<16|uint64(e.sort)<<8|uint64(e.w), e.n)
	for _, x := range e.a {
		h = mix(h, uint64(x.id)+7)
	}
	for _, x := range e.vals {
		h = mix(h, x)
	}
	if e.v != nil {
		h = mix(h, uint64(e.v.idx)+1000003)
	}
outer:
	for _, f := range c.tab[h] {
		if f.op != e.op || f.sort != e.sort || f.w != e.w || f.n != e.n || f.v != e.v || len(f.a) != len(e.a) || len(f.vals) != len(e.vals) {
			continue
		}
		for i := range e.a {
			if e.a[i] != f.a[i] {
				continue outer
			}
		}
		for i := range e.vals {
			if e.vals[i] != f.vals[i] {
				continue outer
			}
		}
		return f
	}
	c.next++
	p := new(Expr)
	*p = e
	p.id = c.next
	c.tab[h] = append(c.tab[h], p)
	return p
}

func (c *Ctx) Bool(b bool) *Expr {
	if b {
		return c.T
	}
	return c.F
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (c *Ctx) BVConst(w uint8, n uint64) *Expr {
	return c.mk(Expr{op: OConst, sort: SBV, w: w, n: n & mask(w)})
}
func (c *Ctx) FPConst(bits uint64) *Expr {
	if f := math.Float64frombits(bits); f != f {
		bits = math.Float64bits(math.NaN())
	}
	return c.mk(Expr{op: OConst, sort: SFP, n: bits})
}

func smtName(s string) string {
	return "|" + strings.NewReplacer("|", "_", "\\", "_").Replace(s) + "|"
}

func (c *Ctx) newVar(name string, v VarInfo) *VarInfo {
	if o, ok := c.byN[name]; ok {
		if o.sort != v.sort || o.w != v.w || o.fd != v.fd || o.lo != v.lo || o.hi != v.hi || o.rng != v.rng {
			panic(unsupported("input " + name + " redeclared with a different type"))
		}
		return o
	}
	p := new(VarInfo)
	*p = v
	p.name = name
	p.smt = smtName(name)
	p.idx = len(c.vars)
	c.vars = append(c.vars, p)
	c.byN[name] = p
	return p
}

// FD declares (or finds) a finite-domain variable with n values (n<=64).
func (c *Ctx) FD(name string, n int) *VarInfo {
	return c.newVar(name, VarInfo{sort: SBV, w: 8, fd: n})
}
func (c *Ctx) In(v *VarInfo, m uint64) *Expr {
	full := mask(uint8(v.fd))
	m &= full
	if m == 0 {
		return c.F
	}
	if m == full {
		return c.T
	}
	return c.mk(Expr{op: OIn, v: v, n: m})
}
func (c *Ctx) Var(name string, s Sort, w uint8) *Expr {
	v := c.newVar(name, VarInfo{sort: s, w: w})
	return c.mk(Expr{op: OVar, sort: s, w: w, v: v})
}
func (c *Ctx) RangeVar(name string, w uint8, lo, hi int64) *Expr {
	v := c.newVar(name, VarInfo{sort: SBV, w: w, lo: lo, hi: hi, rng: true})
	return c.mk(Expr{op: OVar, sort: SBV, w: w, v: v})
}

func (c *Ctx) Not(e *Expr) *Expr {
	if e.neg != nil {
		return e.neg
	}
	var r *Expr
	switch e.op {
	case OTrue:
		r = c.F
	case OFalse:
		r = c.T
	case ONot:
		r = e.a[0]
	case OIn:
		r = c.In(e.v, ^e.n)
	default:
		r = c.mk(Expr{op: ONot, a: []*Expr{e}})
	}
	e.neg, r.neg = r, e
	return r
}

const flatLimit = 24

func (c *Ctx) nary(op Op, in []*Expr) *Expr {
	unit, zero := c.T, c.F
	if op == OOr {
		unit, zero = c.F, c.T
	}
	args := make([]*Expr, 0, len(in)+4)
	var ins []*Expr
	for _, e := range in {
		if e == unit {
			continue
		}
		if e == zero {
			return zero
		}
		if e.op == op && len(e.a) <= flatLimit {
			for _, f := range e.a {
				if f.op == OIn {
					ins = append(ins, f)
				} else {
					args = append(args, f)
				}
			}
		} else if e.op == OIn {
			ins = append(ins, e)
		} else {
			args = append(args, e)
		}
	}
	if len(ins) > 0 {
		if len(ins) > 1 {
			sort.Slice(ins, func(i, j int) bool { return ins[i].v.idx < ins[j].v.idx })
		}
		for i := 0; i < len(ins); {
			m := ins[i].n
			j := i + 1
			for ; j < len(ins) && ins[j].v == ins[i].v; j++ {
				if op == OAnd {
					m &= ins[j].n
				} else {
					m |= ins[j].n
				}
			}
			l := c.In(ins[i].v, m)
			if l == zero {
				return zero
			}
			if l != unit {
				args = append(args, l)
			}
			i = j
		}
	}
	if len(args) == 0 {
		return unit
	}
	if len(args) == 1 {
		return args[0]
	}
	sort.Slice(args, func(i, j int) bool { return args[i].id < args[j].id })
	k := 1
	for i := 1; i < len(args); i++ {
		if args[i] != args[k-1] {
			args[k] = args[i]
			k++
		}
	}
	args = args[:k]
	if len(args) == 1 {
		return args[0]
	}
	// complement detection and absorption
	set := map[*Expr]bool{}
	for _, e := range args {
		set[e] = true
	}
	for _, e := range args {
		if e.neg != nil && set[e.neg] {
			return zero
		}
	}
	dual := OOr
	if op == OOr {
		dual = OAnd
	}
	out := args[:0:0]
	for _, e := range args {
		drop := false
		if e.op == dual {
			var rest []*Expr
			changed := false
			for _, f := range e.a {
				if set[f] { // absorption: a & (a|b) = a
					drop = true
					break
				}
				if f.neg != nil && set[f.neg] { // a & (!a|b) = a & b
					changed = true
					continue
				}
				rest = append(rest, f)
			}
			if !drop && changed {
				var r *Expr
				if dual == OOr {
					r = c.Or(rest...)
				} else {
					r = c.And(rest...)
				}
				out2 := append([]*Expr{}, out...)
				out2 = append(out2, r)
				seen := false
				for _, g := range args {
					if g == e {
						seen = true
						continue
					}
					if seen {
						out2 = append(out2, g)
					}
				}
				return c.nary(op, out2)
			}
		}
		if !drop {
			out = append(out, e)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(Expr{op: op, a: out})
}

func (c *Ctx) And(es ...*Expr) *Expr {
	if len(es) == 2 {
		a, b := es[0], es[1]
		if a == b || b == c.T {
			return a
		}
		if a == c.T {
			return b
		}
		if a == c.F || b == c.F {
			return c.F
		}
	}
	return c.nary(OAnd, es)
}

func (c *Ctx) Or(es ...*Expr) *Expr {
	if len(es) == 2 {
		a, b := es[0], es[1]
		if a == b || b == c.F {
			return a
		}
		if a == c.F {
			return b
		}
		if a == c.T || b == c.T {
			return c.T
		}
		// factor common conjuncts: (x&c)|(x&!c) = x
		if r := c.factor(a, b); r != nil {
			return r
		}
	} else if len(es) > 2 && len(es) <= 64 {
		// pairwise reduce with factoring
		acc := append([]*Expr{}, es...)
		changed := true
		for changed {
			changed = false
		loop:
			for i := 0; i < len(acc); i++ {
				for j := i + 1; j < len(acc); j++ {
					if acc[i].op == OAnd && acc[j].op == OAnd || acc[i].op == OIn && acc[j].op == OIn {
						if acc[i].op == OIn && acc[i].v != acc[j].v {
							continue
						}
						r := c.factor(acc[i], acc[j])
						if acc[i].op == OIn {
							r = c.In(acc[i].v, acc[i].n|acc[j].n)
						}
						if r != nil {
							acc[i] = r
							acc = append(acc[:j], acc[j+1:]...)
							changed = true
							break loop
						}
					}
				}
			}
		}
		if len(acc) < len(es) {
			return c.Or(acc...)
		}
	}
	return c.nary(OOr, es)
}

// factor simplifies (R & l1) | (R & l2) when the conjunctions differ in exactly one literal
// and l1|l2 is a literal or true.
func (c *Ctx) factor(a, b *Expr) *Expr {
	aa, bb := []*Expr{a}, []*Expr{b}
	if a.op == OAnd {
		aa = a.a
	}
	if b.op == OAnd {
		bb = b.a
	}
	if len(aa) != len(bb) || len(aa) > 16 {
		return nil
	}
	var da, db *Expr
	in := func(x *Expr, l []*Expr) bool {
		for _, y := range l {
			if x == y {
				return true
			}
		}
		return false
	}
	for _, x := range aa {
		if !in(x, bb) {
			if da != nil {
				return nil
			}
			da = x
		}
	}
	for _, x := range bb {
		if !in(x, aa) {
			if db != nil {
				return nil
			}
			db = x
		}
	}
	if da == nil || db == nil {
		return nil
	}
	var l *Expr
	if da.op == OIn && db.op == OIn && da.v == db.v {
		l = c.In(da.v, da.n|db.n)
	} else if da.neg == db {
		l = c.T
	} else {
		return nil
	}
	rest := []*Expr{l}
	for _, x := range aa {
		if x != da {
			rest = append(rest, x)
		}
	}
	return c.nary(OAnd, rest)
}

func (c *Ctx) IteB(g, a, b *Expr) *Expr {
	if g == c.T || a == b {
		return a
	}
	if g == c.F {
		return b
	}
	if a == c.T {
		return c.Or(g, b)
	}
	if a == c.F {
		return c.And(c.Not(g), b)
	}
	if b == c.T {
		return c.Or(c.Not(g), a)
	}
	if b == c.F {
		return c.And(g, a)
	}
	return c.mk(Expr{op: OIte, a: []*Expr{g, a, b}})
}

// VSet builds a guarded set from (val,guard) pairs; equal values are merged.
func (c *Ctx) VSet(s Sort, w uint8, vals []uint64, gs []*Expr) *Expr {
	type ent struct {
		v  uint64
		gs []*Expr
	}
	idx := make(map[uint64]int, len(vals))
	var ents []ent
	for i, v := range vals {
		if gs[i] == c.F {
			continue
		}
		if s == SFP {
			if f := math.Float64frombits(v); f != f {
				v = math.Float64bits(math.NaN())
			}
		}
		if j, ok := idx[v]; ok {
			ents[j].gs = append(ents[j].gs, gs[i])
		} else {
			idx[v] = len(ents)
			ents = append(ents, ent{v, []*Expr{gs[i]}})
		}
	}
	sort.Slice(ents, func(i, j int) bool { return ents[i].v < ents[j].v })
	ov := make([]uint64, 0, len(ents))
	og := make([]*Expr, 0, len(ents))
	for _, e := range ents {
		g := c.Or(e.gs...)
		if g == c.F {
			continue
		}
		ov = append(ov, e.v)
		og = append(og, g)
	}
	return c.mk(Expr{op: OVSet, sort: s, w: w, vals: ov, a: og})
}

// term turns a VSet into a plain ite term.
func (c *Ctx) term(e *Expr) *Expr {
	if e.op != OVSet {
		return e
	}
	n := len(e.vals)
	cst := func(v uint64) *Expr {
		if e.sort == SFP {
			return c.FPConst(v)
		}
		return c.BVConst(e.w, v)
	}
	if n == 0 {
		return cst(0)
	}
	r := cst(e.vals[n-1])
	for i := n - 2; i >= 0; i-- {
		r = c.mk(Expr{op: OIte, sort: e.sort, w: e.w, a: []*Expr{e.a[i], cst(e.vals[i]), r}})
	}
	return r
}

func (c *Ctx) IteT(g, a, b *Expr) *Expr {
	if g == c.T || a == b {
		return a
	}
	if g == c.F {
		return b
	}
	return c.mk(Expr{op: OIte, sort: a.sort, w: a.w, a: []*Expr{g, a, b}})
}

func (c *Ctx) allConst(es ...*Expr) bool {
	for _, e := range es {
		if e.op != OConst {
			return false
		}
	}
	return true
}

// app builds an operator application with constant folding.
func (c *Ctx) app(op Op, s Sort, w uint8, as ...*Expr) *Expr {
	for i := range as {
		as[i] = c.term(as[i])
	}
	e := Expr{op: op, sort: s, w: w, a: as}
	if c.allConst(as...) {
		v := evalOp(&e, func(i int) uint64 { return as[i].n })
		if s == SBool {
			return c.Bool(v != 0)
		}
		if s == SFP {
			return c.FPConst(v)
		}
		return c.BVConst(w, v)
	}
	switch op {
	case OEq:
		if as[0] == as[1] {
			return c.T
		}
		if as[0].id > as[1].id {
			e.a = []*Expr{as[1], as[0]}
		}
	case OFDiv:
		if as[1].op == OConst && as[1].n == 0x3ff0000000000000 {
			return as[0]
		}
	case OFAdd, OFMul: // commute up to NaN payloads, which nothing here tells apart
		if op == OFMul && as[1].op == OConst && as[1].n == 0x3ff0000000000000 {
			return as[0]
		}
		if op == OFMul && as[0].op == OConst && as[0].n == 0x3ff0000000000000 {
			return as[1]
		}
		if as[0].id > as[1].id {
			e.a = []*Expr{as[1], as[0]}
		}
	case OUle, OSle:
		if as[0] == as[1] {
			return c.T
		}
	case OUlt, OSlt, OFLt:
		if as[0] == as[1] {
			return c.F
		}
	case OAdd, OSub, OBOr, OBXor, OShl, OLShr, OAShr:
		if as[1].op == OConst && as[1].n == 0 {
			return as[0]
		}
		if (op == OAdd || op == OBOr || op == OBXor) && as[0].op == OConst && as[0].n == 0 {
			return as[1]
		}
	case OZext, OSext:
		if as[0].w == w {
			return as[0]
		}
	case OExtract:
		if as[0].w == w {
			return as[0]
		}
		if (as[0].op == OZext || as[0].op == OSext) && as[0].a[0].w >= w {
			return c.app(OExtract, s, w, as[0].a[0])
		}
	}
	return c.mk(e)
}

func sext(v uint64, w uint8) int64 {
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func evalOp(e *Expr, arg func(i int) uint64) uint64 {
	switch e.op {
	case OTrue:
		return 1
	case OFalse:
		return 0
	case OConst:
		return e.n
	case ONot:
		return 1 - arg(0)
	case OAnd:
		for i := range e.a {
			if arg(i) == 0 {
				return 0
			}
		}
		return 1
	case OOr:
		for i := range e.a {
			if arg(i) != 0 {
				return 1
			}
		}
		return 0
	case OIte:
		if arg(0) != 0 {
			return arg(1)
		}
		return arg(2)
	case OVSet:
		for i := range e.a {
			if arg(i) != 0 {
				if e.sort == SBV {
					return e.vals[i] & mask(e.w)
				}
				return e.vals[i]
			}
		}
		if len(e.vals) > 0 {
			if e.sort == SBV {
				return e.vals[len(e.vals)-1] & mask(e.w)
			}
			return e.vals[len(e.vals)-1]
		}
		return 0
	case OEq:
		return b2u(arg(0) == arg(1))
	case OUlt:
		return b2u(arg(0) < arg(1))
	case OUle:
		return b2u(arg(0) <= arg(1))
	case OSlt:
		return b2u(sext(arg(0), e.a[0].w) < sext(arg(1), e.a[0].w))
	case OSle:
		return b2u(sext(arg(0), e.a[0].w) <= sext(arg(1), e.a[0].w))
	}
	m := mask(e.w)
	f := func(i int) float64 { return math.Float64frombits(arg(i)) }
	fb := math.Float64bits
	switch e.op {
	case OAdd:
		return (arg(0) + arg(1)) & m
	case OSub:
		return (arg(0) - arg(1)) & m
	case OMul:
		return (arg(0) * arg(1)) & m
	case OUDiv:
		if arg(1) == 0 {
			return m
		}
		return arg(0) / arg(1)
	case OURem:
		if arg(1) == 0 {
			return arg(0)
		}
		return arg(0) % arg(1)
	case OSDiv:
		x, y := sext(arg(0), e.w), sext(arg(1), e.w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sext(arg(0), e.w), sext(arg(1), e.w)
		if y == 0 {
			return arg(0)
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OBAnd:
		return arg(0) & arg(1)
	case OBOr:
		return arg(0) | arg(1)
	case OBXor:
		return arg(0) ^ arg(1)
	case OShl:
		if arg(1) >= uint64(e.w) {
			return 0
		}
		return (arg(0) << arg(1)) & m
	case OLShr:
		if arg(1) >= uint64(e.w) {
			return 0
		}
		return arg(0) >> arg(1)
	case OAShr:
		s := arg(1)
		if s >= uint64(e.w) {
			s = uint64(e.w) - 1
		}
		return uint64(sext(arg(0), e.w)>>s) & m
	case OBNot:
		return ^arg(0) & m
	case ONeg:
		return -arg(0) & m
	case OZext:
		return arg(0)
	case OSext:
		return uint64(sext(arg(0), e.a[0].w)) & m
	case OExtract:
		return arg(0) & m
	case OFAdd:
		return fb(f(0) + f(1))
	case OFSub:
		return fb(f(0) - f(1))
	case OFMul:
		return fb(f(0) * f(1))
	case OFDiv:
		return fb(f(0) / f(1))
	case OFNeg:
		return fb(-f(0))
	case OFAbs:
		return fb(math.Abs(f(0)))
	case OFSqrt:
		return fb(math.Sqrt(f(0)))
	case OFLt:
		return b2u(f(0) < f(1))
	case OFLe:
		return b2u(f(0) <= f(1))
	case OFEq:
		return b2u(f(0) == f(1))
	case OFIsNaN:
		return b2u(f(0) != f(0))
	case OSToFP:
		return fb(float64(sext(arg(0), e.a[0].w)))
	case OUToFP:
		return fb(float64(arg(0)))
	case OFCeil:
		return fb(math.Ceil(f(0)))
	case OFFloor:
		return fb(math.Floor(f(0)))
	case OFTrunc:
		return fb(math.Trunc(f(0)))
	case OFToS:
		return uint64(int64(f(0))) & m
	}
	panic(fmt.Sprintf("evalOp %d", e.op))
}

func (c *Ctx) NewModel() *Model {
	c.gen++
	return &Model{gen: c.gen}
}

// Eval evaluates e under the model; variables the model does not know get a default in range.
func (c *Ctx) Eval(e *Expr, m *Model) uint64 {
	switch e.op {
	case OTrue:
		return 1
	case OFalse:
		return 0
	case OConst:
		return e.n
	case OVar, OIn:
		var v uint64
		if e.v.idx < len(m.vals) {
			v = m.vals[e.v.idx]
		} else if e.v.rng {
			v = uint64(e.v.lo) & mask(e.v.w)
		}
		if e.op == OIn {
			return (e.n >> v) & 1
		}
		return v
	}
	if e.evg == m.gen {
		return e.evv
	}
	v := evalOp(e, func(i int) uint64 { return c.Eval(e.a[i], m) })
	e.evg, e.evv = m.gen, v
	return v
}

// --- SMT-LIB printing ---

func (c *Ctx) ref(e *Expr) string {
	switch e.op {
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OConst:
		if e.sort == SFP {
			return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", e.n)
		}
		return fmt.Sprintf("(_ bv%d %d)", e.n, e.w)
	case OVar:
		return e.v.smt
	}
	return fmt.Sprintf("e%d", e.id)
}

func sortName(s Sort, w uint8) string {
	switch s {
	case SBool:
		return "Bool"
	case SBV:
		return fmt.Sprintf("(_ BitVec %d)", w)
	}
	return "(_ FloatingPoint 11 53)"
}

func (c *Ctx) body(e *Expr) string {
	var b strings.Builder
	list := func(head string) string {
		b.WriteString("(" + head)
		for _, x := range e.a {
			b.WriteByte(' ')
			b.WriteString(c.ref(x))
		}
		b.WriteByte(')')
		return b.String()
	}
	switch e.op {
	case OIn:
		lits := []string{}
		m := e.n
		inv := false
		if bits.OnesCount64(m) > e.v.fd/2 {
			m = ^m & mask(uint8(e.v.fd))
			inv = true
		}
		for i := 0; i < e.v.fd; i++ {
			if m>>uint(i)&1 != 0 {
				lits = append(lits, fmt.Sprintf("(= %s (_ bv%d 8))", e.v.smt, i))
			}
		}
		s := lits[0]
		if len(lits) > 1 {
			s = "(or " + strings.Join(lits, " ") + ")"
		}
		if inv {
			s = "(not " + s + ")"
		}
		return s
	case ONot:
		return list("not")
	case OAnd:
		return list("and")
	case OOr:
		return list("or")
	case OIte:
		return list("ite")
	case OVSet:
		panic("VSet in solver body")
	case OEq:
		return list("=")
	case OAdd:
		return list("bvadd")
	case OSub:
		return list("bvsub")
	case OMul:
		return list("bvmul")
	case OUDiv:
		return list("bvudiv")
	case OSDiv:
		return list("bvsdiv")
	case OURem:
		return list("bvurem")
	case OSRem:
		return list("bvsrem")
	case OBAnd:
		return list("bvand")
	case OBOr:
		return list("bvor")
	case OBXor:
		return list("bvxor")
	case OShl:
		return list("bvshl")
	case OLShr:
		return list("bvlshr")
	case OAShr:
		return list("bvashr")
	case OBNot:
		return list("bvnot")
	case ONeg:
		return list("bvneg")
	case OUlt:
		return list("bvult")
	case OUle:
		return list("bvule")
	case OSlt:
		return list("bvslt")
	case OSle:
		return list("bvsle")
	case OZext:
		return list(fmt.Sprintf("(_ zero_extend %d)", e.w-e.a[0].w))
	case OSext:
		return list(fmt.Sprintf("(_ sign_extend %d)", e.w-e.a[0].w))
	case OExtract:
		return list(fmt.Sprintf("(_ extract %d 0)", e.w-1))
	case OFAdd:
		return list("fp.add RNE")
	case OFSub:
		return list("fp.sub RNE")
	case OFMul:
		return list("fp.mul RNE")
	case OFDiv:
		return list("fp.div RNE")
	case OFSqrt:
		return list("fp.sqrt RNE")
	case OFNeg:
		return list("fp.neg")
	case OFAbs:
		return list("fp.abs")
	case OFLt:
		return list("fp.lt")
	case OFLe:
		return list("fp.leq")
	case OFEq:
		return list("fp.eq")
	case OFIsNaN:
		return list("fp.isNaN")
	case OSToFP:
		return list("(_ to_fp 11 53) RNE")
	case OUToFP:
		return list("(_ to_fp_unsigned 11 53) RNE")
	case OFCeil:
		return list("fp.roundToIntegral RTP")
	case OFFloor:
		return list("fp.roundToIntegral RTN")
	case OFTrunc:
		return list("fp.roundToIntegral RTZ")
	case OFToS:
		return list("(_ fp.to_sbv 64) RTZ")
	}
	panic(fmt.Sprintf("smt body op %d", e.op))
}

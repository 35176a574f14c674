package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Kind uint8

const (
	KInvalid Kind = iota
	KInt
	KBool
	KFloat
	KSym   // P *Expr (Bool, BV or FP; possibly VSet)
	KStr   // P string or *SymStr
	KPtr   // N = id<<24|off
	KSlice // P *SliceV or nil
	KMap   // N id
	KChan  // N id
	KFunc  // P *Closure or nil
	KIface // P *IfaceV or nil
	KAgg   // P []Value  (struct/array/tuple)
	KUnion // P *UnionV
	KTok   // formatted-number token byte: P *TokV
	KIter  // P *IterV
	KCplx
	KRType // P types.Type (opaque)
)

type Value struct {
	K Kind
	N uint64
	P any
}

type ObjID uint64

const offBits = 24

func mkPtr(id ObjID, off int) Value { return Value{K: KPtr, N: uint64(id)<<offBits | uint64(off)} }
func (v Value) obj() ObjID          { return ObjID(v.N >> offBits) }
func (v Value) off() int            { return int(v.N & (1<<offBits - 1)) }

type SliceV struct {
	id       ObjID
	off      int // cell offset
	len, cap int // elements
}
type SymStr struct{ cells []Value } // cells: KInt byte, KSym byte, KTok
type TokV struct {
	v   Value
	flt bool
	typ types.Type
}
type IfaceV struct {
	t types.Type
	v Value
}
type Closure struct {
	fn    *ssa.Function
	bi    string // builtin
	binds []Value
	recv  *Value // bound native?
}
type UnionV struct {
	gs []*Expr
	vs []Value
}
type IterV struct {
	m       ObjID
	str     Value
	isStr   bool
	pos     int
	visited map[string]bool
	order   []int
	id      int
}

func vInt(n int64) Value   { return Value{K: KInt, N: uint64(n)} }
func vUint(n uint64) Value { return Value{K: KInt, N: n} }
func vBool(b bool) Value   { return Value{K: KBool, N: b2u(b)} }
func vFloat(f float64) Value {
	if f != f {
		f = math.NaN()
	}
	return Value{K: KFloat, N: math.Float64bits(f)}
}
func vStr(s string) Value    { return Value{K: KStr, P: s} }
func vSym(e *Expr) Value     { return Value{K: KSym, P: e} }
func (v Value) f() float64   { return math.Float64frombits(v.N) }
func (v Value) i() int64     { return int64(v.N) }
func (v Value) e() *Expr     { return v.P.(*Expr) }
func (v Value) agg() []Value { return v.P.([]Value) }
func vAgg(vs []Value) Value  { return Value{K: KAgg, P: vs} }

func (v Value) slice() *SliceV {
	if v.P == nil {
		return nil
	}
	return v.P.(*SliceV)
}
func (v Value) iface() *IfaceV {
	if v.P == nil {
		return nil
	}
	return v.P.(*IfaceV)
}
func (v Value) closure() *Closure {
	if v.P == nil {
		return nil
	}
	return v.P.(*Closure)
}

type unsupported string

func (u unsupported) Error() string { return string(u) }

// --- type layout ---

type Layout struct {
	size int
	zero []Value
	agg  bool
}

var layMu sync.RWMutex
var layCache = map[types.Type]*Layout{}

func layout(t types.Type) *Layout {
	layMu.RLock()
	l := layCache[t]
	layMu.RUnlock()
	if l != nil {
		return l
	}
	l = mkLayout(t)
	layMu.Lock()
	layCache[t] = l
	layMu.Unlock()
	return l
}

func mkLayout(t types.Type) *Layout {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return &Layout{size: 1, zero: []Value{vBool(false)}}
		case u.Info()&types.IsInteger != 0:
			return &Layout{size: 1, zero: []Value{vInt(0)}}
		case u.Info()&types.IsFloat != 0:
			return &Layout{size: 1, zero: []Value{vFloat(0)}}
		case u.Info()&types.IsString != 0:
			return &Layout{size: 1, zero: []Value{vStr("")}}
		case u.Kind() == types.UnsafePointer:
			return &Layout{size: 1, zero: []Value{{K: KPtr}}}
		case u.Info()&types.IsComplex != 0:
			return &Layout{size: 1, zero: []Value{{K: KCplx, P: complex(0, 0)}}}
		case u.Kind() == types.UntypedNil:
			return &Layout{size: 1, zero: []Value{{K: KPtr}}}
		}
		return &Layout{size: 1, zero: []Value{{K: KInvalid}}}
	case *types.Pointer:
		return &Layout{size: 1, zero: []Value{{K: KPtr}}}
	case *types.Slice:
		return &Layout{size: 1, zero: []Value{{K: KSlice}}}
	case *types.Map:
		return &Layout{size: 1, zero: []Value{{K: KMap}}}
	case *types.Chan:
		return &Layout{size: 1, zero: []Value{{K: KChan}}}
	case *types.Signature:
		return &Layout{size: 1, zero: []Value{{K: KFunc}}}
	case *types.Interface:
		return &Layout{size: 1, zero: []Value{{K: KIface}}}
	case *types.Struct:
		l := &Layout{agg: true}
		for i := 0; i < u.NumFields(); i++ {
			f := layout(u.Field(i).Type())
			l.zero = append(l.zero, f.zero...)
		}
		l.size = len(l.zero)
		return l
	case *types.Array:
		e := layout(u.Elem())
		l := &Layout{agg: true}
		n := int(u.Len())
		l.zero = make([]Value, 0, n*e.size)
		for i := 0; i < n; i++ {
			l.zero = append(l.zero, e.zero...)
		}
		l.size = len(l.zero)
		return l
	case *types.Tuple:
		l := &Layout{agg: true}
		for i := 0; i < u.Len(); i++ {
			f := layout(u.At(i).Type())
			l.zero = append(l.zero, f.zero...)
		}
		l.size = len(l.zero)
		return l
	}
	panic(unsupported("layout of " + t.String()))
}

func zeroOf(t types.Type) Value {
	l := layout(t)
	if l.agg {
		return vAgg(l.zero)
	}
	return l.zero[0]
}

var fieldOffMu sync.RWMutex
var fieldOffs = map[*types.Struct][]int{}

func fieldOff(s *types.Struct, i int) int {
	fieldOffMu.RLock()
	o := fieldOffs[s]
	fieldOffMu.RUnlock()
	if o == nil {
		o = make([]int, s.NumFields()+1)
		n := 0
		for j := 0; j < s.NumFields(); j++ {
			o[j] = n
			n += layout(s.Field(j).Type()).size
		}
		o[s.NumFields()] = n
		fieldOffMu.Lock()
		fieldOffs[s] = o
		fieldOffMu.Unlock()
	}
	return o[i]
}

// --- basic type info ---

type bt struct {
	k byte // 'i' signed,'u' unsigned,'f' float64,'g' float32,'s' string,'b' bool, 'p' other,'c' complex
	w uint8
}

func basicOf(t types.Type) bt {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return bt{k: 'p'}
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return bt{'i', 64}
	case types.Int32, types.UntypedRune:
		return bt{'i', 32}
	case types.Int16:
		return bt{'i', 16}
	case types.Int8:
		return bt{'i', 8}
	case types.Uint, types.Uint64, types.Uintptr:
		return bt{'u', 64}
	case types.Uint32:
		return bt{'u', 32}
	case types.Uint16:
		return bt{'u', 16}
	case types.Uint8:
		return bt{'u', 8}
	case types.Float64, types.UntypedFloat:
		return bt{'f', 64}
	case types.Float32:
		return bt{'g', 32}
	case types.String, types.UntypedString:
		return bt{k: 's'}
	case types.Bool, types.UntypedBool:
		return bt{k: 'b'}
	case types.Complex128, types.Complex64:
		return bt{k: 'c'}
	}
	return bt{k: 'p'}
}

func normInt(b bt, n uint64) uint64 {
	if b.w == 64 {
		return n
	}
	if b.k == 'i' {
		return uint64(sext(n, b.w))
	}
	return n & mask(b.w)
}

// sameVal: structural identity (sound: true only if definitely the same value).
func sameVal(a, b Value) bool {
	if a.K != b.K {
		return false
	}
	switch a.K {
	case KInvalid:
		return true
	case KInt, KBool, KFloat, KPtr, KMap, KChan:
		return a.N == b.N
	case KSym:
		return a.P.(*Expr) == b.P.(*Expr)
	case KStr:
		sa, ok1 := a.P.(string)
		sb, ok2 := b.P.(string)
		if ok1 && ok2 {
			return sa == sb
		}
		if ok1 != ok2 {
			return false
		}
		ca, cb := a.P.(*SymStr), b.P.(*SymStr)
		if ca == cb {
			return true
		}
		if len(ca.cells) != len(cb.cells) {
			return false
		}
		for i := range ca.cells {
			if !sameVal(ca.cells[i], cb.cells[i]) {
				return false
			}
		}
		return true
	case KTok:
		return a.P.(*TokV) == b.P.(*TokV) || sameVal(a.P.(*TokV).v, b.P.(*TokV).v)
	case KSlice:
		x, y := a.slice(), b.slice()
		if x == nil || y == nil {
			return x == y
		}
		return *x == *y
	case KFunc:
		x, y := a.closure(), b.closure()
		if x == y {
			return true
		}
		if x == nil || y == nil || x.fn != y.fn || x.bi != y.bi || len(x.binds) != len(y.binds) {
			return false
		}
		for i := range x.binds {
			if !sameVal(x.binds[i], y.binds[i]) {
				return false
			}
		}
		return true
	case KIface:
		x, y := a.iface(), b.iface()
		if x == nil || y == nil {
			return x == y
		}
		return x == y || types.Identical(x.t, y.t) && sameVal(x.v, y.v)
	case KAgg:
		x, y := a.agg(), b.agg()
		if len(x) != len(y) {
			return false
		}
		if len(x) > 0 && &x[0] == &y[0] {
			return true
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case KUnion:
		x, y := a.P.(*UnionV), b.P.(*UnionV)
		if x == y {
			return true
		}
		if len(x.gs) != len(y.gs) {
			return false
		}
		for i := range x.gs {
			if x.gs[i] != y.gs[i] || !sameVal(x.vs[i], y.vs[i]) {
				return false
			}
		}
		return true
	case KIter:
		x, y := a.P.(*IterV), b.P.(*IterV)
		if x == y {
			return true
		}
		if x.m != y.m || x.pos != y.pos || x.isStr != y.isStr || len(x.visited) != len(y.visited) || x.id != y.id {
			return false
		}
		for k := range x.visited {
			if !y.visited[k] {
				return false
			}
		}
		return true
	case KCplx:
		return a.P == b.P
	}
	return false
}

// sym converts a scalar value to an Expr given its sort.
func (ex *Exec) exprOf(v Value, like *Expr) *Expr {
	if v.K == KSym {
		return v.e()
	}
	if like != nil {
		switch like.sort {
		case SBool:
			return ex.c.Bool(v.N != 0)
		case SBV:
			return ex.c.BVConst(like.w, v.N)
		case SFP:
			return ex.c.FPConst(v.N)
		}
	}
	switch v.K {
	case KBool:
		return ex.c.Bool(v.N != 0)
	case KFloat:
		return ex.c.FPConst(v.N)
	}
	panic(unsupported("exprOf"))
}

func isScalar(k Kind) bool { return k == KInt || k == KBool || k == KFloat || k == KSym }

const maxUnion = 24
const vsetLimit = 400

// asSet views a scalar as guarded set. For concrete values the guard is true.
func (ex *Exec) asSet(v Value) ([]uint64, []*Expr, bool) {
	if v.K != KSym {
		return []uint64{v.N}, []*Expr{ex.c.T}, true
	}
	e := v.e()
	if e.op == OVSet {
		return e.vals, e.a, true
	}
	return nil, nil, false
}

// fromSet normalises an OVSet expression to a Value.
func (ex *Exec) fromSet(e *Expr) Value {
	if e.op == OVSet && len(e.vals) == 1 {
		if e.sort == SFP {
			return Value{K: KFloat, N: e.vals[0]}
		}
		return Value{K: KInt, N: e.vals[0]}
	}
	return vSym(e)
}

func boolVal(e *Expr) Value {
	if e.op == OTrue {
		return vBool(true)
	}
	if e.op == OFalse {
		return vBool(false)
	}
	return vSym(e)
}

type mergeFail struct{}

// iteVal builds "if g then a else b".
func (ex *Exec) iteVal(g *Expr, a, b Value) (Value, bool) {
	if g.op == OTrue {
		return a, true
	}
	if g.op == OFalse {
		return b, true
	}
	if sameVal(a, b) {
		return a, true
	}
	if a.K == KInvalid || b.K == KInvalid {
		// A dead or not yet defined register on one side.
		return Value{}, true
	}
	if isScalar(a.K) && isScalar(b.K) {
		return ex.iteScalar(g, a, b)
	}
	if a.K == KAgg && b.K == KAgg {
		x, y := a.agg(), b.agg()
		if len(x) != len(y) {
			return Value{}, false
		}
		r := make([]Value, len(x))
		for i := range x {
			v, ok := ex.iteVal(g, x[i], y[i])
			if !ok {
				return Value{}, false
			}
			r[i] = v
		}
		return vAgg(r), true
	}
	if a.K == KIface && b.K == KIface {
		x, y := a.iface(), b.iface()
		if x != nil && y != nil && types.Identical(x.t, y.t) {
			v, ok := ex.iteVal(g, x.v, y.v)
			if ok && v.K != KUnion {
				return Value{K: KIface, P: &IfaceV{x.t, v}}, true
			}
		}
	}
	if a.K == KStr && b.K == KStr {
		if r, ok := ex.iteStr(g, a, b); ok {
			return r, true
		}
	}
	if a.K == KIter || b.K == KIter || a.K == KAgg || b.K == KAgg || a.K == KTok || b.K == KTok {
		return Value{}, false
	}
	// union of alternatives
	u := &UnionV{}
	add := func(gg *Expr, v Value) {
		if gg.op == OFalse {
			return
		}
		for i := range u.vs {
			if sameVal(u.vs[i], v) {
				u.gs[i] = ex.c.Or(u.gs[i], gg)
				return
			}
		}
		u.gs = append(u.gs, gg)
		u.vs = append(u.vs, v)
	}
	put := func(gg *Expr, v Value) {
		if v.K == KUnion {
			w := v.P.(*UnionV)
			for i := range w.gs {
				add(ex.c.And(gg, w.gs[i]), w.vs[i])
			}
		} else {
			add(gg, v)
		}
	}
	put(g, a)
	put(ex.c.Not(g), b)
	if len(u.vs) == 1 {
		return u.vs[0], true
	}
	if len(u.vs) == 0 {
		return a, true
	}
	if len(u.vs) > maxUnion {
		return Value{}, false
	}
	return Value{K: KUnion, P: u}, true
}

func (ex *Exec) iteStr(g *Expr, a, b Value) (Value, bool) {
	x, y := strCells(a), strCells(b)
	if len(x) != len(y) || len(x) > 64 {
		return Value{}, false
	}
	r := make([]Value, len(x))
	for i := range x {
		if x[i].K == KTok || y[i].K == KTok {
			if x[i].K == KTok && y[i].K == KTok {
				tx, ty := x[i].P.(*TokV), y[i].P.(*TokV)
				if tx.flt == ty.flt {
					v, ok := ex.iteVal(g, tx.v, ty.v)
					if ok {
						r[i] = Value{K: KTok, P: &TokV{v: v, flt: tx.flt, typ: tx.typ}}
						continue
					}
				}
			}
			return Value{}, false
		}
		v, ok := ex.iteScalarW(g, x[i], y[i], SBV, 64)
		if !ok {
			return Value{}, false
		}
		r[i] = v
	}
	return mkStr(r), true
}

func (ex *Exec) iteScalar(g *Expr, a, b Value) (Value, bool) {
	var s Sort
	var w uint8
	switch {
	case a.K == KSym:
		s, w = a.e().sort, a.e().w
	case b.K == KSym:
		s, w = b.e().sort, b.e().w
	case a.K == KBool:
		s = SBool
	case a.K == KFloat:
		s = SFP
	default:
		// two concrete ints: width is recovered from use; store as 64-bit set
		s, w = SBV, 64
	}
	return ex.iteScalarW(g, a, b, s, w)
}

func (ex *Exec) iteScalarW(g *Expr, a, b Value, s Sort, w uint8) (Value, bool) {
	c := ex.c
	if sameVal(a, b) {
		return a, true
	}
	if s == SBool {
		return boolVal(c.IteB(g, ex.exprOf(a, nil), ex.exprOf(b, nil))), true
	}
	va, ga, ok1 := ex.asSet(a)
	vb, gb, ok2 := ex.asSet(b)
	if ok1 && ok2 && len(va)+len(vb) <= vsetLimit {
		vals := make([]uint64, 0, len(va)+len(vb))
		gs := make([]*Expr, 0, len(va)+len(vb))
		ng := c.Not(g)
		for i := range va {
			vals = append(vals, va[i])
			gs = append(gs, c.And(g, ga[i]))
		}
		for i := range vb {
			vals = append(vals, vb[i])
			gs = append(gs, c.And(ng, gb[i]))
		}
		return ex.fromSet(c.VSet(s, w, vals, gs)), true
	}
	like := &Expr{sort: s, w: w}
	return vSym(c.IteT(g, c.term(ex.exprOf(a, like)), c.term(ex.exprOf(b, like)))), true
}

func strCells(v Value) []Value {
	switch s := v.P.(type) {
	case string:
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = vUint(uint64(s[i]))
		}
		return r
	case *SymStr:
		return s.cells
	}
	panic(unsupported(fmt.Sprintf("strCells of kind %d", v.K)))
}

func mkStr(cells []Value) Value {
	for _, c := range cells {
		if c.K != KInt {
			return Value{K: KStr, P: &SymStr{cells}}
		}
	}
	b := make([]byte, len(cells))
	for i, c := range cells {
		b[i] = byte(c.N)
	}
	return vStr(string(b))
}

func strLen(v Value) int {
	switch s := v.P.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.cells)
	}
	panic(unsupported("strLen"))
}

func (v Value) String() string {
	switch v.K {
	case KInt:
		return fmt.Sprint(int64(v.N))
	case KBool:
		return fmt.Sprint(v.N != 0)
	case KFloat:
		return fmt.Sprint(v.f())
	case KSym:
		e := v.e()
		if e.op == OVSet {
			return fmt.Sprintf("set%v", e.vals)
		}
		return fmt.Sprintf("sym%d(op%d)", e.id, e.op)
	case KStr:
		if s, ok := v.P.(string); ok {
			return fmt.Sprintf("%q", s)
		}
		return fmt.Sprintf("symstr%v", v.P.(*SymStr).cells)
	case KPtr:
		return fmt.Sprintf("ptr(%d+%d)", v.obj(), v.off())
	case KSlice:
		if v.P == nil {
			return "nilslice"
		}
		s := v.slice()
		return fmt.Sprintf("slice(%d+%d,%d,%d)", s.id, s.off, s.len, s.cap)
	case KAgg:
		var p []string
		for _, x := range v.agg() {
			p = append(p, x.String())
		}
		return "{" + strings.Join(p, " ") + "}"
	case KIface:
		if v.P == nil {
			return "nil-iface"
		}
		return "iface(" + v.iface().t.String() + "," + v.iface().v.String() + ")"
	case KUnion:
		u := v.P.(*UnionV)
		return fmt.Sprintf("union%v", u.vs)
	case KTok:
		return "tok(" + v.P.(*TokV).v.String() + ")"
	}
	return fmt.Sprintf("?%d", v.K)
}

func sortedKeys(m map[string]int) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

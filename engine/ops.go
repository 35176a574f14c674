package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

const ptrUnion = 72

var numChars = []byte("0123456789+-.eEInfaN")

func (ex *Exec) evalInst(s *State, f *Frame, in *Inst) (Value, bool) {
	switch x := in.in.(type) {
	case *ssa.Alloc:
		cells := append(make([]Value, 0, in.lay.size), in.lay.zero...)
		return mkPtr(ex.alloc(s, &Obj{cells: cells}), 0), true
	case *ssa.BinOp:
		return ex.binop(s, in.tok, in.t, in.t2, ex.get(f, in.ops[0]), ex.get(f, in.ops[1]))
	case *ssa.UnOp:
		v := ex.get(f, in.ops[0])
		switch in.tok {
		case token.MUL:
			if !ex.checkNil(s, v) {
				return v, false
			}
			return ex.load(s, v, in.lay), true
		}
		return ex.unop(s, in.tok, in.t, v), true
	case *ssa.ChangeInterface, *ssa.ChangeType:
		return ex.get(f, in.ops[0]), true
	case *ssa.Convert:
		return ex.convert(s, ex.get(f, in.ops[0]), x.X.Type(), x.Type(), in.t, in.t2), true
	case *ssa.Extract:
		t := ex.get(f, in.ops[0])
		if t.K != KAgg {
			panic(unsupported("extract from " + t.String()))
		}
		cells := t.agg()[in.off : in.off+in.size]
		if in.lay.agg {
			return vAgg(cells), true
		}
		return cells[0], true
	case *ssa.Field:
		t := ex.res(s, ex.get(f, in.ops[0]))
		cells := t.agg()[in.off : in.off+in.size]
		if in.lay.agg {
			return vAgg(cells), true
		}
		return cells[0], true
	case *ssa.FieldAddr:
		p := ex.get(f, in.ops[0])
		if !ex.checkNil(s, p) {
			return p, false
		}
		if p.K == KPtr {
			return mkPtr(p.obj(), p.off()+in.off), true
		}
		u := p.P.(*UnionV)
		r := &UnionV{}
		for i, q := range u.vs {
			if q.obj() == 0 {
				continue
			}
			r.gs = append(r.gs, u.gs[i])
			r.vs = append(r.vs, mkPtr(q.obj(), q.off()+in.off))
		}
		if len(r.vs) == 1 {
			return r.vs[0], true
		}
		return Value{K: KUnion, P: r}, true
	case *ssa.Index:
		return ex.index(s, f, in)
	case *ssa.IndexAddr:
		return ex.indexAddr(s, f, in, x)
	case *ssa.Lookup:
		m := ex.get(f, in.ops[0])
		k := ex.get(f, in.ops[1])
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			m = ex.res(s, m)
			v, ok := ex.mapGet(s, m, k, in.lay)
			if in.flag {
				var cells []Value
				if in.lay.agg {
					cells = append(cells, v.agg()...)
				} else {
					cells = append(cells, v)
				}
				return vAgg(append(cells, boolVal(ok))), true
			}
			return v, true
		}
		return ex.strIndex(s, m, k)
	case *ssa.MakeChan:
		n := ex.concInt(s, ex.get(f, in.ops[0]))
		id := ex.alloc(s, &Obj{ch: &ChanV{cap: int(n)}})
		return Value{K: KChan, N: uint64(id)}, true
	case *ssa.MakeClosure:
		var binds []Value
		for _, o := range in.ops {
			binds = append(binds, ex.get(f, o))
		}
		return Value{K: KFunc, P: &Closure{fn: x.Fn.(*ssa.Function), binds: binds}}, true
	case *ssa.MakeInterface:
		v := ex.get(f, in.ops[0])
		return Value{K: KIface, P: &IfaceV{x.X.Type(), v}}, true
	case *ssa.MakeMap:
		return ex.newMap(s, in.lay), true
	case *ssa.MakeSlice:
		n := ex.concInt(s, ex.get(f, in.ops[0]))
		c := ex.concInt(s, ex.get(f, in.ops[1]))
		if n < 0 || n > 1<<22 {
			ex.rtPanic(s, "makeslice: len out of range")
			return Value{}, false
		}
		if c < n || c > 1<<22 {
			ex.rtPanic(s, "makeslice: cap out of range")
			return Value{}, false
		}
		return ex.mkSlice(s, in.lay, int(n), int(c)), true
	case *ssa.Range:
		v := ex.res(s, ex.get(f, in.ops[0]))
		if v.K == KStr {
			return Value{K: KIter, P: &IterV{isStr: true, str: v}}, true
		}
		ex.nextObj++ // unique iterator id
		return Value{K: KIter, P: &IterV{m: ObjID(v.N), id: int(ex.nextObj)}}, true
	case *ssa.Next:
		return ex.next(s, f, in)
	case *ssa.Slice:
		return ex.slice(s, f, in, x)
	case *ssa.SliceToArrayPointer:
		v := ex.res(s, ex.get(f, in.ops[0]))
		sl := v.slice()
		if sl == nil {
			return Value{K: KPtr}, true
		}
		if sl.len < in.off {
			ex.rtPanic(s, "cannot convert slice to array pointer")
			return v, false
		}
		return mkPtr(sl.id, sl.off), true
	case *ssa.TypeAssert:
		return ex.typeAssert(s, f, in, x)
	}
	panic(unsupported("instruction " + in.in.String()))
}

func (ex *Exec) mkSlice(s *State, lay *Layout, n, c int) Value {
	cells := make([]Value, 0, c*lay.size)
	if lay.size == 1 {
		for i := 0; i < c; i++ {
			cells = append(cells, lay.zero[0])
		}
	} else {
		for i := 0; i < c; i++ {
			cells = append(cells, lay.zero...)
		}
	}
	id := ex.alloc(s, &Obj{cells: cells})
	return Value{K: KSlice, P: &SliceV{id: id, len: n, cap: c}}
}

func (ex *Exec) newMap(s *State, lay *Layout) Value {
	var z Value
	if lay.agg {
		z = vAgg(lay.zero)
	} else {
		z = lay.zero[0]
	}
	id := ex.alloc(s, &Obj{m: &MapV{idx: map[string]int{}, elem: z}})
	return Value{K: KMap, N: uint64(id)}
}

// alternatives of a possibly symbolic index
type alt struct {
	g *Expr
	n int64
}

func (ex *Exec) intAlts(s *State, v Value) []alt {
	if v.K == KInt {
		return []alt{{ex.c.T, int64(v.N)}}
	}
	if v.K == KSym {
		e := v.e()
		if e.op == OVSet && e.sort == SBV {
			var r []alt
			for i := range e.vals {
				if ex.known(s, e.a[i]) != -1 {
					r = append(r, alt{e.a[i], int64(e.vals[i])})
				}
			}
			return r
		}
	}
	v = ex.conc(s, v)
	if v.K != KInt {
		panic(unsupported("index " + v.String()))
	}
	return []alt{{ex.c.T, int64(v.N)}}
}

func (ex *Exec) alts(v Value) ([]*Expr, []Value) {
	if v.K == KUnion {
		u := v.P.(*UnionV)
		return u.gs, u.vs
	}
	return []*Expr{ex.c.T}, []Value{v}
}

func mkUnion(gs []*Expr, vs []Value) Value {
	if len(vs) == 1 {
		return vs[0]
	}
	return Value{K: KUnion, P: &UnionV{gs, vs}}
}

func (ex *Exec) indexAddr(s *State, f *Frame, in *Inst, x *ssa.IndexAddr) (Value, bool) {
	base := ex.get(f, in.ops[0])
	iv := ex.get(f, in.ops[1])
	arr := -1
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		arr = int(pt.Elem().Underlying().(*types.Array).Len())
		if !ex.checkNil(s, base) {
			return base, false
		}
	}
	if iv.K == KTok {
		b := ex.res(s, base)
		id, off, n := b.obj(), b.off(), arr
		if arr < 0 {
			sl := b.slice()
			id, off, n = sl.id, sl.off, sl.len
		}
		o := s.get(id)
		for _, c := range numChars {
			if int(c) >= n || !sameVal(o.cells[off+int(c)*in.size], o.cells[off+int('0')*in.size]) {
				panic(hasTok{})
			}
		}
		return mkPtr(id, off+int('0')*in.size), true
	}
	// fast path
	if iv.K == KInt && base.K != KUnion {
		i := int64(iv.N)
		if arr >= 0 {
			if i < 0 || i >= int64(arr) {
				ex.rtPanic(s, fmt.Sprintf("index out of range [%d] with length %d", i, arr))
				return base, false
			}
			return mkPtr(base.obj(), base.off()+int(i)*in.size), true
		}
		sl := base.slice()
		n := 0
		if sl != nil {
			n = sl.len
		}
		if i < 0 || i >= int64(n) {
			ex.rtPanic(s, fmt.Sprintf("index out of range [%d] with length %d", i, n))
			return base, false
		}
		return mkPtr(sl.id, sl.off+int(i)*in.size), true
	}
	ias := ex.intAlts(s, iv)
	bgs, bvs := ex.alts(base)
	bad := []*Expr{}
	var gs []*Expr
	var vs []Value
	msg := "index out of range"
	for bi, bv := range bvs {
		if ex.known(s, bgs[bi]) == -1 {
			continue
		}
		for _, a := range ias {
			g := ex.c.And(bgs[bi], a.g)
			if g.op == OFalse || ex.known(s, g) == -1 {
				continue
			}
			n := arr
			var id ObjID
			var off int
			if arr >= 0 {
				id, off = bv.obj(), bv.off()
			} else {
				sl := bv.slice()
				n = 0
				if sl != nil {
					n, id, off = sl.len, sl.id, sl.off
				}
			}
			if a.n < 0 || a.n >= int64(n) {
				bad = append(bad, g)
				continue
			}
			p := mkPtr(id, off+int(a.n)*in.size)
			dup := false
			for k := range vs {
				if vs[k].N == p.N {
					gs[k] = ex.c.Or(gs[k], g)
					dup = true
					break
				}
			}
			if !dup {
				gs = append(gs, g)
				vs = append(vs, p)
			}
		}
	}
	if len(bad) > 0 {
		if !ex.guardPanic(s, ex.c.Or(bad...), msg) {
			return base, false
		}
	}
	if len(vs) == 0 {
		panic(infeasible{})
	}
	if len(vs) > ptrUnion {
		ex.conc(s, iv)
		ex.res(s, base)
	}
	return mkUnion(gs, vs), true
}

func (ex *Exec) index(s *State, f *Frame, in *Inst) (Value, bool) {
	base := ex.res(s, ex.get(f, in.ops[0]))
	iv := ex.get(f, in.ops[1])
	if base.K == KStr {
		return ex.strIndex(s, base, iv)
	}
	cells := base.agg()
	n := len(cells)
	if in.size > 0 {
		n /= in.size
	}
	i := ex.concInt(s, iv)
	if i < 0 || i >= int64(n) {
		ex.rtPanic(s, fmt.Sprintf("index out of range [%d] with length %d", i, n))
		return base, false
	}
	return packCells(cells[int(i)*in.size:(int(i)+1)*in.size], in.lay), true
}

func (ex *Exec) strIndex(s *State, str, iv Value) (Value, bool) {
	str = ex.res(s, str)
	i := ex.concInt(s, iv)
	n := strLen(str)
	if i < 0 || i >= int64(n) {
		ex.rtPanic(s, fmt.Sprintf("index out of range [%d] with length %d", i, n))
		return str, false
	}
	switch t := str.P.(type) {
	case string:
		return vUint(uint64(t[i])), true
	case *SymStr:
		return t.cells[i], true
	}
	panic(unsupported("strIndex"))
}

func (ex *Exec) slice(s *State, f *Frame, in *Inst, x *ssa.Slice) (Value, bool) {
	base := ex.res(s, ex.get(f, in.ops[0]))
	opt := func(o Opd, has bool, def int64) int64 {
		if !has {
			return def
		}
		return ex.concInt(s, ex.get(f, o))
	}
	if base.K == KStr {
		n := int64(strLen(base))
		lo := opt(in.ops[1], x.Low != nil, 0)
		hi := opt(in.ops[2], x.High != nil, n)
		if lo < 0 || hi < lo || hi > n {
			ex.rtPanic(s, fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n))
			return base, false
		}
		if t, ok := base.P.(string); ok {
			return vStr(t[lo:hi]), true
		}
		return mkStr(base.P.(*SymStr).cells[lo:hi]), true
	}
	var id ObjID
	var off int
	var n, c int64
	if base.K == KPtr {
		if !ex.checkNil(s, base) {
			return base, false
		}
		id, off = base.obj(), base.off()
		n, c = int64(in.off), int64(in.off)
	} else {
		sl := base.slice()
		if sl != nil {
			id, off, n, c = sl.id, sl.off, int64(sl.len), int64(sl.cap)
		}
	}
	lo := opt(in.ops[1], x.Low != nil, 0)
	hi := opt(in.ops[2], x.High != nil, n)
	mx := opt(in.ops[3], x.Max != nil, c)
	if lo < 0 || hi < lo || hi > mx || mx > c {
		ex.rtPanic(s, fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", lo, hi, c))
		return base, false
	}
	if base.K == KSlice && base.P == nil {
		return base, true
	}
	return Value{K: KSlice, P: &SliceV{id: id, off: off + int(lo)*in.size, len: int(hi - lo), cap: int(mx - lo)}}, true
}

// --- maps ---

func (ex *Exec) keyAlts(s *State, k Value) ([]*Expr, []Value) {
	switch k.K {
	case KUnion:
		u := k.P.(*UnionV)
		for _, v := range u.vs {
			if v.K == KStr {
				if _, ok := v.P.(string); ok {
					continue
				}
			} else if v.K == KPtr || v.K == KMap || v.K == KChan {
				continue
			}
			return ex.keyAlts(s, ex.res(s, k))
		}
		return u.gs, u.vs
	case KSym:
		e := k.e()
		if e.op == OVSet && len(e.vals) <= 64 {
			vs := make([]Value, len(e.vals))
			for i, n := range e.vals {
				if e.sort == SFP {
					vs[i] = Value{K: KFloat, N: n}
				} else {
					vs[i] = Value{K: KInt, N: n}
				}
			}
			return e.a, vs
		}
		return []*Expr{ex.c.T}, []Value{ex.conc(s, k)}
	case KStr:
		if _, ok := k.P.(string); !ok {
			k = vStr(ex.concStr(s, k))
		}
	case KAgg:
		cells := append([]Value{}, k.agg()...)
		for i := range cells {
			cells[i] = ex.deepKey(s, cells[i])
		}
		k = vAgg(cells)
	case KIface:
		if k.P != nil {
			iv := k.iface()
			k = Value{K: KIface, P: &IfaceV{iv.t, ex.deepKey(s, iv.v)}}
		}
	}
	return []*Expr{ex.c.T}, []Value{k}
}

func (ex *Exec) deepKey(s *State, v Value) Value {
	v = ex.conc(s, v)
	if v.K == KStr {
		return vStr(ex.concStr(s, v))
	}
	if v.K == KIface && v.P != nil {
		iv := v.iface()
		return Value{K: KIface, P: &IfaceV{iv.t, ex.deepKey(s, iv.v)}}
	}
	return v
}

func (ex *Exec) mapGet(s *State, m Value, k Value, lay *Layout) (Value, *Expr) {
	var z Value
	if lay.agg {
		z = vAgg(lay.zero)
	} else {
		z = lay.zero[0]
	}
	if m.N == 0 {
		return z, ex.c.F
	}
	o := s.get(ObjID(m.N))
	if s.conc {
		ex.access(s, ObjID(m.N), 0, 1, false)
	}
	gs, ks := ex.keyAlts(s, k)
	acc := z
	okE := ex.c.F
	for i, kv := range ks {
		if ex.known(s, gs[i]) == -1 {
			continue
		}
		j, ok := o.m.idx[keyOf(kv)]
		if !ok {
			continue
		}
		e := o.m.ents[j]
		g := gs[i]
		if e.pres != nil {
			g = ex.c.And(g, e.pres)
		}
		g = ex.simp(s, g)
		if g.op == OFalse {
			continue
		}
		v, ok := ex.iteVal(g, e.val, acc)
		if !ok {
			if len(ks) > 1 {
				return ex.mapGet(s, m, ex.conc(s, k), lay)
			}
			// presence decides
			if ex.pick(s, []*Expr{g, ex.c.Not(g)}) == 0 {
				return e.val, ex.c.T
			}
			return z, ex.c.F
		}
		acc = v
		okE = ex.c.Or(okE, g)
	}
	return acc, ex.simp(s, okE)
}

func (ex *Exec) mapUpdate(s *State, f *Frame, in *Inst) bool {
	m := ex.res(s, ex.get(f, in.ops[0]))
	k := ex.get(f, in.ops[1])
	v := ex.get(f, in.ops[2])
	if m.N == 0 {
		ex.doPanicMsg(s, Value{K: KIface, P: &IfaceV{ex.p.rtErrT(), vStr("assignment to entry in nil map")}}, "panic: assignment to entry in nil map")
		return ex.unwound(s)
	}
	gs, ks := ex.keyAlts(s, k)
	ex.mapSet(s, ObjID(m.N), gs, ks, k, v)
	s.topw().pc++
	return false
}

func (ex *Exec) mapSet(s *State, id ObjID, gs []*Expr, ks []Value, k, v Value) {
	if s.conc {
		ex.access(s, id, 0, 1, true)
	}
	o := s.get(id)
	type upd struct {
		key Value
		v   Value
		p   *Expr
	}
	var ups []upd
	for i, kv := range ks {
		g := ex.simp(s, gs[i])
		if g.op == OFalse {
			continue
		}
		if kv.K == KFloat && kv.f() != kv.f() {
			panic(unsupported("NaN map key"))
		}
		j, ok := o.m.idx[keyOf(kv)]
		if !ok {
			p := g
			if p.op == OTrue {
				p = nil
			}
			ups = append(ups, upd{kv, v, p})
			continue
		}
		e := o.m.ents[j]
		w, ok := ex.iteVal(g, v, e.val)
		if !ok {
			ck := ex.conc(s, k)
			ex.mapSet(s, id, []*Expr{ex.c.T}, []Value{ck}, ck, v)
			return
		}
		p := e.pres
		if p != nil {
			p = ex.c.Or(p, g)
			if p.op == OTrue {
				p = nil
			}
		}
		ups = append(ups, upd{kv, w, p})
	}
	ow := s.getw(id)
	for _, u := range ups {
		kk := keyOf(u.key)
		if j, ok := ow.m.idx[kk]; ok {
			ow.m.ents[j].val, ow.m.ents[j].pres = u.v, u.p
			continue
		}
		ow.m.idx[kk] = len(ow.m.ents)
		ow.m.ents = append(ow.m.ents, mapEnt{u.key, u.v, u.p})
	}
}

func (ex *Exec) mapDelete(s *State, m Value, k Value) {
	if m.N == 0 {
		return
	}
	id := ObjID(m.N)
	gs, ks := ex.keyAlts(s, k)
	if s.conc {
		ex.access(s, id, 0, 1, true)
	}
	ow := s.getw(id)
	for i, kv := range ks {
		kk := keyOf(kv)
		j, ok := ow.m.idx[kk]
		if !ok {
			continue
		}
		e := &ow.m.ents[j]
		p := e.pres
		if p == nil {
			p = ex.c.T
		}
		p = ex.c.And(p, ex.c.Not(gs[i]))
		if p.op == OFalse {
			// remove
			ow.m.ents = append(append([]mapEnt{}, ow.m.ents[:j]...), ow.m.ents[j+1:]...)
			delete(ow.m.idx, kk)
			for q, v := range ow.m.idx {
				if v > j {
					ow.m.idx[q] = v - 1
				}
			}
			continue
		}
		e.pres = p
	}
}

func (ex *Exec) mapLen(s *State, m Value) Value {
	if m.N == 0 {
		return vInt(0)
	}
	o := s.get(ObjID(m.N))
	acc := vInt(0)
	t := bt{'i', 64}
	for _, e := range o.m.ents {
		one := vInt(1)
		if e.pres != nil {
			g := ex.simp(s, e.pres)
			v, _ := ex.iteScalarW(g, vInt(1), vInt(0), SBV, 64)
			if g.op == OTrue {
				v = vInt(1)
			} else if g.op == OFalse {
				v = vInt(0)
			}
			one = v
		}
		r, _ := ex.binop(s, token.ADD, t, t, acc, one)
		acc = r
	}
	return acc
}

func (ex *Exec) next(s *State, f *Frame, in *Inst) (Value, bool) {
	it := ex.get(f, in.ops[0]).P.(*IterV)
	x := in.in.(*ssa.Next)
	itReg := in.ops[0].reg
	setIt := func(n *IterV) { s.topw().regs[itReg] = Value{K: KIter, P: n} }
	tup := x.Type().(*types.Tuple)
	if it.isStr {
		n := strLen(it.str)
		if it.pos >= n {
			return vAgg([]Value{vBool(false), vInt(0), vInt(0)}), true
		}
		nx := *it
		var r Value
		switch t := it.str.P.(type) {
		case string:
			c, w := utf8.DecodeRuneInString(t[it.pos:])
			r = vInt(int64(c))
			nx.pos += w
		case *SymStr:
			c := t.cells[it.pos]
			nx.pos++
			if c.K == KInt && c.N >= 0x80 {
				// decode over concrete bytes
				b := []byte{}
				for q := it.pos; q < n && q < it.pos+4 && t.cells[q].K == KInt; q++ {
					b = append(b, byte(t.cells[q].N))
				}
				ru, w := utf8.DecodeRune(b)
				r = vInt(int64(ru))
				nx.pos = it.pos + w
			} else {
				r = c
			}
		}
		res := vAgg([]Value{vBool(true), vInt(int64(it.pos)), r})
		setIt(&nx)
		return res, true
	}
	zeroOfOr := func(i int) []Value {
		t := tup.At(i).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return []Value{{}}
		}
		return layout(t).zero
	}
	pack := func(ok bool, k, v Value) Value {
		cells := []Value{vBool(ok)}
		add := func(i int, v Value) {
			z := zeroOfOr(i)
			switch {
			case !ok:
				cells = append(cells, z...)
			case v.K == KAgg:
				cells = append(cells, v.agg()...)
			default:
				cells = append(cells, v)
			}
		}
		add(1, k)
		add(2, v)
		return vAgg(cells)
	}
	if it.m == 0 {
		return pack(false, Value{}, Value{}), true
	}
	if s.conc {
		ex.access(s, it.m, 0, 1, false)
	}
	o := s.get(it.m)
	var cand []int
	for i := range o.m.ents {
		e := &o.m.ents[i]
		if it.visited[keyOf(e.key)] {
			continue
		}
		if e.pres != nil {
			// decide presence before choosing
			if ex.pick(s, []*Expr{e.pres, ex.c.Not(e.pres)}) == 1 {
				continue
			}
		}
		cand = append(cand, i)
	}
	if len(cand) == 0 {
		return pack(false, Value{}, Value{}), true
	}
	ch := 0
	if len(cand) > 1 && ex.mapOrderAny(s, f, len(cand)) {
		v := ex.c.FD(fmt.Sprintf("ord#%d/%d", s.nord, len(cand)), len(cand))
		if ex.forced {
			ch = int(ex.fmodel.val(v))
		} else {
			gs := make([]*Expr, len(cand))
			for i := range gs {
				gs[i] = ex.c.In(v, 1<<uint(i))
			}
			ch = ex.pick(s, gs)
		}
		s.nord++
		s.mapOrd = true
	}
	e := o.m.ents[cand[ch]]
	nx := *it
	nx.visited = map[string]bool{}
	for k := range it.visited {
		nx.visited[k] = true
	}
	nx.visited[keyOf(e.key)] = true
	setIt(&nx)
	return pack(true, e.key, e.val), true
}

func (ex *Exec) mapOrderAny(s *State, f *Frame, n int) bool {
	return ex.cs != nil && n <= ex.cs.mapOrder && f.fi.inRepo
}

func (m *Model) val(v *VarInfo) uint64 {
	if v.idx < len(m.vals) {
		return m.vals[v.idx]
	}
	if v.rng {
		return uint64(v.lo)
	}
	return 0
}

// --- type assertions ---

func (ex *Exec) typeAssert(s *State, f *Frame, in *Inst, x *ssa.TypeAssert) (Value, bool) {
	v := ex.res(s, ex.get(f, in.ops[0]))
	if v.K != KIface {
		panic(unsupported("type assertion on " + v.String()))
	}
	ok := false
	var out Value
	if v.P != nil {
		iv := v.iface()
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			ok = ex.p.implements(iv.t, it)
			out = v
		} else {
			ok = types.Identical(iv.t, x.AssertedType)
			out = iv.v
		}
	}
	if !ok {
		if !in.flag {
			have := "nil"
			if v.P != nil {
				have = v.iface().t.String()
			}
			ex.rtPanic(s, "interface conversion: interface is "+have+", not "+x.AssertedType.String())
			return v, false
		}
		if in.lay.agg {
			return vAgg(append(append([]Value{}, in.lay.zero...), vBool(false))), true
		}
		return vAgg([]Value{in.lay.zero[0], vBool(false)}), true
	}
	if !in.flag {
		return out, true
	}
	if out.K == KAgg {
		return vAgg(append(append([]Value{}, out.agg()...), vBool(true))), true
	}
	return vAgg([]Value{out, vBool(true)}), true
}

type ikey struct {
	t types.Type
	i *types.Interface
}

func (p *Program) implements(t types.Type, i *types.Interface) bool {
	k := ikey{t, i}
	if v, ok := p.mcache.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t, i)
	p.mcache.Store(k, r)
	return r
}

func (p *Program) rtErrT() types.Type { return types.Typ[types.String] }

// --- scalar operations ---

func (ex *Exec) unop(s *State, op token.Token, t bt, v Value) Value {
	v2 := v
	switch op {
	case token.NOT:
		if v.K == KBool {
			return vBool(v.N == 0)
		}
		return boolVal(ex.c.Not(v.e()))
	case token.SUB:
		if v2.K == KCplx {
			return Value{K: KCplx, P: -v2.P.(complex128)}
		}
		if t.k == 'f' || t.k == 'g' {
			return ex.map1(s, v, SFP, func(a uint64) uint64 { return math.Float64bits(-math.Float64frombits(a)) },
				func(e *Expr) *Expr { return ex.c.app(OFNeg, SFP, 0, e) })
		}
		return ex.map1(s, v, SBV, func(a uint64) uint64 { return normInt(t, -a) },
			func(e *Expr) *Expr { return ex.norm(t, ex.c.app(ONeg, SBV, 64, e)) })
	case token.XOR:
		return ex.map1(s, v, SBV, func(a uint64) uint64 { return normInt(t, ^a) },
			func(e *Expr) *Expr { return ex.norm(t, ex.c.app(OBNot, SBV, 64, e)) })
	}
	panic(unsupported("unary " + op.String()))
}

// norm renormalises a 64-bit term to the width of t.
func (ex *Exec) norm(t bt, e *Expr) *Expr {
	if t.w == 64 {
		return e
	}
	l := ex.c.app(OExtract, SBV, t.w, e)
	if t.k == 'i' {
		return ex.c.app(OSext, SBV, 64, l)
	}
	return ex.c.app(OZext, SBV, 64, l)
}

func mkScalar(srt Sort, n uint64) Value {
	switch srt {
	case SBool:
		return vBool(n != 0)
	case SFP:
		return vFloat(math.Float64frombits(n))
	}
	return Value{K: KInt, N: n}
}

// map1 applies a unary scalar function.
func (ex *Exec) map1(s *State, v Value, out Sort, f func(uint64) uint64, term func(*Expr) *Expr) Value {
	if v.K != KSym {
		return mkScalar(out, f(v.N))
	}
	e := v.e()
	if e.op == OVSet {
		if out == SBool {
			var ts []*Expr
			for i, n := range e.vals {
				if f(n) != 0 {
					ts = append(ts, e.a[i])
				}
			}
			return boolVal(ex.simp(s, ex.c.Or(ts...)))
		}
		vals := make([]uint64, len(e.vals))
		for i, n := range e.vals {
			vals[i] = f(n)
		}
		return ex.fromSet(ex.c.VSet(out, 64, vals, e.a))
	}
	if e.op == OConst {
		return mkScalar(out, f(e.n))
	}
	if term == nil {
		cv := ex.conc(s, v)
		return mkScalar(out, f(cv.N))
	}
	r := term(e)
	return ex.fromExpr(r)
}

func (ex *Exec) fromExpr(r *Expr) Value {
	switch {
	case r.op == OConst && r.sort == SFP:
		return Value{K: KFloat, N: r.n}
	case r.op == OConst:
		return Value{K: KInt, N: r.n}
	case r.sort == SBool:
		return boolVal(r)
	}
	return vSym(r)
}

// map2 applies a binary scalar function.
func (ex *Exec) map2(s *State, x, y Value, in, out Sort, f func(a, b uint64) uint64, term func(a, b *Expr) *Expr) Value {
	if x.K != KSym && y.K != KSym {
		return mkScalar(out, f(x.N, y.N))
	}
	va, ga, ok1 := ex.asSet(x)
	vb, gb, ok2 := ex.asSet(y)
	if ok1 && ok2 && len(va)*len(vb) <= 40000 {
		c := ex.c
		if out == SBool {
			var ts, fs []*Expr
			for i := range va {
				// group by row for compactness
				var tr, fr []*Expr
				for j := range vb {
					if f(va[i], vb[j]) != 0 {
						tr = append(tr, gb[j])
					} else {
						fr = append(fr, gb[j])
					}
				}
				if len(fr) == 0 {
					ts = append(ts, ga[i])
				} else if len(tr) == 0 {
					fs = append(fs, ga[i])
				} else {
					ts = append(ts, c.And(ga[i], c.Or(tr...)))
					fs = append(fs, c.And(ga[i], c.Or(fr...)))
				}
			}
			if len(ts) == 0 {
				return vBool(false)
			}
			if len(fs) == 0 {
				return vBool(true)
			}
			var r *Expr
			if len(ts) <= len(fs) {
				r = c.Or(ts...)
			} else {
				r = c.Not(c.Or(fs...))
			}
			return boolVal(ex.simp(s, r))
		}
		vals := make([]uint64, 0, len(va)*len(vb))
		gs := make([]*Expr, 0, len(va)*len(vb))
		seen := map[uint64]bool{}
		big := len(va)*len(vb) > 16
		for i := range va {
			if big && ex.known(s, ga[i]) == -1 {
				continue
			}
			for j := range vb {
				g := c.And(ga[i], gb[j])
				if g.op == OFalse || ex.known(s, g) == -1 {
					continue
				}
				r := f(va[i], vb[j])
				seen[r] = true
				vals = append(vals, r)
				gs = append(gs, g)
			}
		}
		if len(seen) <= 6000 {
			if len(vals) == 0 {
				panic(infeasible{})
			}
			r := ex.prune(s, ex.c.VSet(out, 64, vals, gs))
			if r.K != KSym || r.e().op != OVSet || len(r.e().vals) <= vsetLimit {
				return r
			}
		}
	}
	if term == nil {
		if x.K == KSym {
			x = ex.conc(s, x)
		}
		if y.K == KSym {
			y = ex.conc(s, y)
		}
		return mkScalar(out, f(x.N, y.N))
	}
	like := &Expr{sort: in, w: 64}
	r := term(ex.c.term(ex.exprOf(x, like)), ex.c.term(ex.exprOf(y, like)))
	return ex.fromExpr(r)
}

const pruneAt = 3

// out decides whether a guard is excluded by the path condition; the solver is only asked when
// the set is large.
func (ex *Exec) out(s *State, e *Expr, hard bool) bool {
	if hard {
		ok, _ := ex.may(s, e)
		return !ok
	}
	if ex.known(s, e) == -1 {
		return true
	}
	if s.model != nil && ex.c.Eval(e, s.model) != 0 {
		return false
	}
	return ex.sol.excluded(s.pc, e)
}

// prune drops infeasible alternatives of a large set using the solver.
func (ex *Exec) prune(s *State, e *Expr) Value {
	if e.op == OVSet && len(e.vals) > pruneAt && !ex.forced && e.pruned != ex.pcKey(s) {
		var vals []uint64
		var gs []*Expr
		for i, n := range e.vals {
			if !ex.out(s, e.a[i], len(e.vals) > 48) {
				vals = append(vals, n)
				gs = append(gs, e.a[i])
			}
		}
		if len(vals) == 0 {
			panic(infeasible{})
		}
		e = ex.c.VSet(e.sort, e.w, vals, gs)
		e.pruned = ex.pcKey(s)
	}
	return ex.fromSet(e)
}

func (ex *Exec) pcKey(s *State) int {
	if len(s.pc) == 0 {
		return -1
	}
	return s.pc[len(s.pc)-1].id
}

func (ex *Exec) tokBin(s *State, op token.Token, x, y Value) (Value, bool) {
	if x.K == KTok && y.K == KTok {
		if sameVal(x, y) && (op == token.EQL || op == token.LEQ || op == token.GEQ) {
			return vBool(true), true
		}
		panic(hasTok{})
	}
	c := y
	if y.K == KTok {
		c = x
	}
	c = ex.conc(s, c)
	var res *bool
	for _, ch := range numChars {
		a, b := int64(ch), int64(c.N)
		if y.K == KTok {
			a, b = b, a
		}
		var r bool
		switch op {
		case token.EQL:
			r = a == b
		case token.NEQ:
			r = a != b
		case token.LSS:
			r = a < b
		case token.LEQ:
			r = a <= b
		case token.GTR:
			r = a > b
		case token.GEQ:
			r = a >= b
		default:
			if op == token.OR && c.N == 0 {
				return x, true
			}
			panic(hasTok{})
		}
		if res == nil {
			res = &r
		} else if *res != r {
			panic(hasTok{})
		}
	}
	return vBool(*res), true
}

func (ex *Exec) binop(s *State, op token.Token, t, t2 bt, x, y Value) (Value, bool) {
	c := ex.c
	if op == token.EQL || op == token.NEQ {
		if !isScalar(x.K) || !isScalar(y.K) {
			if x.K == KTok || y.K == KTok {
				if x.K == KUnion || y.K == KUnion {
					panic(unsupported("token compare"))
				}
				return ex.tokBin(s, op, x, y)
			}
			e := ex.eqVal(s, x, y)
			if op == token.NEQ {
				e = c.Not(e)
			}
			return boolVal(ex.simp(s, e)), true
		}
	}
	if x.K == KTok || y.K == KTok {
		return ex.tokBin(s, op, x, y)
	}
	if x.K == KUnion {
		x = ex.res(s, x)
	}
	if y.K == KUnion {
		y = ex.res(s, y)
	}
	switch t.k {
	case 's':
		return ex.strBin(s, op, x, y), true
	case 'b':
		a, b := ex.exprOf(x, nil), ex.exprOf(y, nil)
		eq := c.Or(c.And(a, b), c.And(c.Not(a), c.Not(b)))
		switch op {
		case token.EQL:
			return boolVal(ex.simp(s, eq)), true
		case token.NEQ:
			return boolVal(ex.simp(s, c.Not(eq))), true
		case token.AND:
			return boolVal(c.And(a, b)), true
		case token.OR:
			return boolVal(c.Or(a, b)), true
		}
	case 'f', 'g':
		return ex.floatBin(s, op, t, x, y), true
	case 'i', 'u':
		return ex.intBin(s, op, t, t2, x, y)
	case 'c':
		a, b := x.P.(complex128), y.P.(complex128)
		switch op {
		case token.ADD:
			return Value{K: KCplx, P: a + b}, true
		case token.SUB:
			return Value{K: KCplx, P: a - b}, true
		case token.MUL:
			return Value{K: KCplx, P: a * b}, true
		}
	}
	panic(unsupported(fmt.Sprintf("binary %s on %s, %s", op, x, y)))
}

func (ex *Exec) floatBin(s *State, op token.Token, t bt, x, y Value) Value {
	c := ex.c
	fb, fr := math.Float64bits, math.Float64frombits
	r32 := func(f float64) uint64 {
		if t.k == 'g' {
			return fb(float64(float32(f)))
		}
		return fb(f)
	}
	cmp := func(f func(a, b float64) bool, o func(a, b *Expr) *Expr) Value {
		return ex.map2(s, x, y, SFP, SBool, func(a, b uint64) uint64 { return b2u(f(fr(a), fr(b))) }, o)
	}
	ar := func(f func(a, b float64) float64, o Op) Value {
		var term func(a, b *Expr) *Expr
		if t.k == 'f' {
			term = func(a, b *Expr) *Expr { return c.app(o, SFP, 0, a, b) }
		}
		return ex.map2(s, x, y, SFP, SFP, func(a, b uint64) uint64 { return r32(f(fr(a), fr(b))) }, term)
	}
	switch op {
	case token.ADD:
		return ar(func(a, b float64) float64 { return a + b }, OFAdd)
	case token.SUB:
		return ar(func(a, b float64) float64 { return a - b }, OFSub)
	case token.MUL:
		return ar(func(a, b float64) float64 { return a * b }, OFMul)
	case token.QUO:
		return ar(func(a, b float64) float64 { return a / b }, OFDiv)
	case token.LSS:
		return cmp(func(a, b float64) bool { return a < b }, func(a, b *Expr) *Expr { return c.app(OFLt, SBool, 0, a, b) })
	case token.LEQ:
		return cmp(func(a, b float64) bool { return a <= b }, func(a, b *Expr) *Expr { return c.app(OFLe, SBool, 0, a, b) })
	case token.GTR:
		return cmp(func(a, b float64) bool { return a > b }, func(a, b *Expr) *Expr { return c.app(OFLt, SBool, 0, b, a) })
	case token.GEQ:
		return cmp(func(a, b float64) bool { return a >= b }, func(a, b *Expr) *Expr { return c.app(OFLe, SBool, 0, b, a) })
	case token.EQL:
		return cmp(func(a, b float64) bool { return a == b }, func(a, b *Expr) *Expr { return c.app(OFEq, SBool, 0, a, b) })
	case token.NEQ:
		return cmp(func(a, b float64) bool { return a != b }, func(a, b *Expr) *Expr { return c.Not(c.app(OFEq, SBool, 0, a, b)) })
	}
	panic(unsupported("float " + op.String()))
}

func (ex *Exec) intBin(s *State, op token.Token, t, t2 bt, x, y Value) (Value, bool) {
	c := ex.c
	sg := t.k == 'i'
	ar := func(f func(a, b uint64) uint64, o Op) Value {
		return ex.map2(s, x, y, SBV, SBV, func(a, b uint64) uint64 { return normInt(t, f(a, b)) },
			func(a, b *Expr) *Expr { return ex.norm(t, c.app(o, SBV, 64, a, b)) })
	}
	cmp := func(fs func(a, b int64) bool, fu func(a, b uint64) bool, o func(a, b *Expr) *Expr) Value {
		f := func(a, b uint64) uint64 { return b2u(fu(a, b)) }
		if sg {
			f = func(a, b uint64) uint64 { return b2u(fs(int64(a), int64(b))) }
		}
		return ex.map2(s, x, y, SBV, SBool, f, o)
	}
	lt, le := OUlt, OUle
	if sg {
		lt, le = OSlt, OSle
	}
	switch op {
	case token.ADD:
		return ar(func(a, b uint64) uint64 { return a + b }, OAdd), true
	case token.SUB:
		return ar(func(a, b uint64) uint64 { return a - b }, OSub), true
	case token.MUL:
		return ar(func(a, b uint64) uint64 { return a * b }, OMul), true
	case token.AND:
		return ar(func(a, b uint64) uint64 { return a & b }, OBAnd), true
	case token.OR:
		return ar(func(a, b uint64) uint64 { return a | b }, OBOr), true
	case token.XOR:
		return ar(func(a, b uint64) uint64 { return a ^ b }, OBXor), true
	case token.AND_NOT:
		y = ex.unop(s, token.XOR, t, y)
		return ar(func(a, b uint64) uint64 { return a & b }, OBAnd), true
	case token.QUO, token.REM:
		z := ex.map1(s, y, SBool, func(a uint64) uint64 { return b2u(a == 0) }, func(e *Expr) *Expr { return c.app(OEq, SBool, 0, e, c.BVConst(64, 0)) })
		if !ex.guardPanic(s, ex.exprOf(z, nil), "integer divide by zero") {
			return y, false
		}
		q := op == token.QUO
		f := func(a, b uint64) uint64 {
			if b == 0 {
				return 0
			}
			if sg {
				if int64(b) == -1 {
					if q {
						return -a
					}
					return 0
				}
				if q {
					return uint64(int64(a) / int64(b))
				}
				return uint64(int64(a) % int64(b))
			}
			if q {
				return a / b
			}
			return a % b
		}
		o := OUDiv
		switch {
		case sg && q:
			o = OSDiv
		case sg:
			o = OSRem
		case !q:
			o = OURem
		}
		return ar(f, o), true
	case token.SHL, token.SHR:
		if t2.k == 'i' {
			neg := ex.map1(s, y, SBool, func(a uint64) uint64 { return b2u(int64(a) < 0) }, func(e *Expr) *Expr { return c.app(OSlt, SBool, 0, e, c.BVConst(64, 0)) })
			if !ex.guardPanic(s, ex.exprOf(neg, nil), "negative shift amount") {
				return y, false
			}
		}
		if op == token.SHL {
			return ar(func(a, b uint64) uint64 {
				if b >= 64 {
					return 0
				}
				return a << b
			}, OShl), true
		}
		if sg {
			return ar(func(a, b uint64) uint64 {
				if b >= 64 {
					b = 63
				}
				return uint64(int64(a) >> b)
			}, OAShr), true
		}
		return ar(func(a, b uint64) uint64 {
			if b >= 64 {
				return 0
			}
			return a >> b
		}, OLShr), true
	case token.LSS:
		return cmp(func(a, b int64) bool { return a < b }, func(a, b uint64) bool { return a < b }, func(a, b *Expr) *Expr { return c.app(lt, SBool, 0, a, b) }), true
	case token.LEQ:
		return cmp(func(a, b int64) bool { return a <= b }, func(a, b uint64) bool { return a <= b }, func(a, b *Expr) *Expr { return c.app(le, SBool, 0, a, b) }), true
	case token.GTR:
		return cmp(func(a, b int64) bool { return a > b }, func(a, b uint64) bool { return a > b }, func(a, b *Expr) *Expr { return c.app(lt, SBool, 0, b, a) }), true
	case token.GEQ:
		return cmp(func(a, b int64) bool { return a >= b }, func(a, b uint64) bool { return a >= b }, func(a, b *Expr) *Expr { return c.app(le, SBool, 0, b, a) }), true
	case token.EQL:
		return cmp(func(a, b int64) bool { return a == b }, func(a, b uint64) bool { return a == b }, func(a, b *Expr) *Expr { return c.app(OEq, SBool, 0, a, b) }), true
	case token.NEQ:
		return cmp(func(a, b int64) bool { return a != b }, func(a, b uint64) bool { return a != b }, func(a, b *Expr) *Expr { return c.Not(c.app(OEq, SBool, 0, a, b)) }), true
	}
	panic(unsupported("int " + op.String()))
}

func (ex *Exec) strBin(s *State, op token.Token, x, y Value) Value {
	if x.K != KStr || y.K != KStr {
		panic(unsupported("string operation on " + x.String() + y.String()))
	}
	a, ok1 := x.P.(string)
	b, ok2 := y.P.(string)
	if ok1 && ok2 {
		switch op {
		case token.ADD:
			return vStr(a + b)
		case token.LSS:
			return vBool(a < b)
		case token.LEQ:
			return vBool(a <= b)
		case token.GTR:
			return vBool(a > b)
		case token.GEQ:
			return vBool(a >= b)
		}
	}
	if op == token.ADD {
		if ok1 && a == "" {
			return y
		}
		if ok2 && b == "" {
			return x
		}
		return mkStr(append(append([]Value{}, strCells(x)...), strCells(y)...))
	}
	// comparisons: concretise bytes (forks)
	return ex.strBin(s, op, vStr(ex.concStr(s, x)), vStr(ex.concStr(s, y)))
}

// eqVal builds the equality of two values.
func (ex *Exec) eqVal(s *State, x, y Value) *Expr {
	c := ex.c
	if x.K == KUnion || y.K == KUnion {
		gx, vx := ex.alts(x)
		gy, vy := ex.alts(y)
		var ts []*Expr
		for i := range vx {
			if ex.known(s, gx[i]) == -1 {
				continue
			}
			for j := range vy {
				g := c.And(gx[i], gy[j])
				if g.op == OFalse || ex.known(s, g) == -1 {
					continue
				}
				e := ex.eqVal(s, vx[i], vy[j])
				ts = append(ts, c.And(g, e))
			}
		}
		return c.Or(ts...)
	}
	switch x.K {
	case KInt, KBool, KFloat, KSym:
		if y.K == KTok {
			r, _ := ex.tokBin(s, token.EQL, x, y)
			return ex.exprOf(r, nil)
		}
		srt := SBV
		if x.K == KFloat || x.K == KSym && x.e().sort == SFP {
			srt = SFP
		}
		if x.K == KBool || x.K == KSym && x.e().sort == SBool {
			a, b := ex.exprOf(x, nil), ex.exprOf(y, nil)
			return c.Or(c.And(a, b), c.And(c.Not(a), c.Not(b)))
		}
		var r Value
		if srt == SFP {
			r = ex.floatBin(s, token.EQL, bt{'f', 64}, x, y)
		} else {
			r, _ = ex.intBin(s, token.EQL, bt{'i', 64}, bt{'i', 64}, x, y)
		}
		return ex.exprOf(r, nil)
	case KTok:
		r, _ := ex.tokBin(s, token.EQL, x, y)
		return ex.exprOf(r, nil)
	case KStr:
		a, ok1 := x.P.(string)
		b, ok2 := y.P.(string)
		if ok1 && ok2 {
			return c.Bool(a == b)
		}
		ca, cb := strCells(x), strCells(y)
		hasT := false
		for _, v := range ca {
			hasT = hasT || v.K == KTok
		}
		for _, v := range cb {
			hasT = hasT || v.K == KTok
		}
		if hasT {
			return ex.tokStrEq(s, ca, cb)
		}
		if len(ca) != len(cb) {
			return c.F
		}
		var es []*Expr
		for i := range ca {
			es = append(es, ex.eqVal(s, ca[i], cb[i]))
		}
		return c.And(es...)
	case KPtr, KMap, KChan:
		if x.K != y.K {
			panic(unsupported("pointer comparison " + x.String() + " " + y.String()))
		}
		return c.Bool(x.N == y.N)
	case KSlice:
		if x.P == nil || y.P == nil {
			return c.Bool((x.P == nil) == (y.P == nil))
		}
	case KFunc:
		if x.P == nil || y.P == nil {
			return c.Bool((x.P == nil) == (y.P == nil))
		}
	case KIface:
		if y.K != KIface {
			break
		}
		if x.P == nil || y.P == nil {
			return c.Bool((x.P == nil) == (y.P == nil))
		}
		a, b := x.iface(), y.iface()
		if !types.Identical(a.t, b.t) {
			return c.F
		}
		return ex.eqVal(s, a.v, b.v)
	case KAgg:
		a, b := x.agg(), y.agg()
		var es []*Expr
		for i := range a {
			es = append(es, ex.eqVal(s, a[i], b[i]))
		}
		return c.And(es...)
	case KCplx:
		return c.Bool(x.P == y.P)
	case KRType:
		return c.Bool(types.Identical(x.P.(types.Type), y.P.(types.Type)))
	}
	panic(unsupported("comparison of " + x.String() + " and " + y.String()))
}

// tokStrEq compares strings containing number tokens: a token never equals text that has no
// number characters, and two tokens in the same position are equal iff their numbers are.
func (ex *Exec) tokStrEq(s *State, a, b []Value) *Expr {
	c := ex.c
	ntok := func(l []Value) int {
		n := 0
		for _, v := range l {
			if v.K == KTok {
				n++
			}
		}
		return n
	}
	if ntok(a) == 1 && len(a) == 1 && ntok(b) == 0 || ntok(b) == 1 && len(b) == 1 && ntok(a) == 0 {
		t, o := a, b
		if ntok(b) == 1 {
			t, o = b, a
		}
		// a bare number against concrete text: equal only if the text is that number's format
		str := ""
		for _, v := range o {
			if v.K != KInt {
				panic(hasTok{})
			}
			str += string(byte(v.N))
		}
		return ex.tokIs(t[0].P.(*TokV), str)
	}
	if len(a) == len(b) {
		var es []*Expr
		for i := range a {
			if a[i].K == KTok && b[i].K == KTok {
				ta, tb := a[i].P.(*TokV), b[i].P.(*TokV)
				if sameVal(ta.v, tb.v) {
					continue
				}
				panic(hasTok{})
			}
			es = append(es, ex.eqVal(s, a[i], b[i]))
		}
		return c.And(es...)
	}
	panic(hasTok{})
}

func (ex *Exec) convert(s *State, v Value, from, to types.Type, t, t2 bt) Value {
	if v.K == KUnion {
		v = ex.res(s, v)
	}
	switch {
	case (t.k == 'i' || t.k == 'u') && (t2.k == 'i' || t2.k == 'u'):
		if v.K == KTok {
			return v
		}
		if v.K == KPtr { // uintptr(unsafe.Pointer)
			return v
		}
		return ex.map1(s, v, SBV, func(a uint64) uint64 { return normInt(t2, a) }, func(e *Expr) *Expr { return ex.norm(t2, e) })
	case (t.k == 'i' || t.k == 'u') && (t2.k == 'f' || t2.k == 'g'):
		return ex.map1(s, v, SFP, func(a uint64) uint64 {
			var f float64
			if t.k == 'i' {
				f = float64(int64(a))
				if t2.k == 'g' {
					f = float64(float32(int64(a)))
				}
			} else {
				f = float64(a)
				if t2.k == 'g' {
					f = float64(float32(a))
				}
			}
			return math.Float64bits(f)
		}, func(e *Expr) *Expr {
			if t2.k == 'g' {
				panic(unsupported("symbolic float32"))
			}
			if t.k == 'i' {
				return ex.c.app(OSToFP, SFP, 0, e)
			}
			return ex.c.app(OUToFP, SFP, 0, e)
		})
	case (t.k == 'f' || t.k == 'g') && (t2.k == 'f' || t2.k == 'g'):
		if t2.k == 'f' {
			return v
		}
		return ex.map1(s, v, SFP, func(a uint64) uint64 { return math.Float64bits(float64(float32(math.Float64frombits(a)))) }, nil)
	case (t.k == 'f' || t.k == 'g') && (t2.k == 'i' || t2.k == 'u'):
		return ex.map1(s, v, SBV, func(a uint64) uint64 {
			f := math.Float64frombits(a)
			if t2.k == 'i' {
				return normInt(t2, uint64(int64(f)))
			}
			return normInt(t2, uint64(f))
		}, func(e *Expr) *Expr {
			if t2.k != 'i' || t2.w != 64 {
				panic(unsupported("conversion of a symbolic float to a narrow or unsigned integer"))
			}
			in := ex.c.And(ex.c.app(OFLe, SBool, 0, ex.c.FPConst(math.Float64bits(-(1<<63))), e), ex.c.app(OFLt, SBool, 0, e, ex.c.FPConst(math.Float64bits(1<<63))))
			return ex.c.IteT(in, ex.c.app(OFToS, SBV, 64, e), ex.c.BVConst(64, 1<<63))
		})
	case t2.k == 's':
		switch t.k {
		case 's':
			return v
		case 'i', 'u':
			n := ex.concInt(s, v)
			return vStr(string(rune(n)))
		}
		// []byte or []rune to string
		sl := v.slice()
		if sl == nil {
			return vStr("")
		}
		cells := s.get(sl.id).cells[sl.off : sl.off+sl.len]
		if s.conc {
			ex.access(s, sl.id, sl.off, sl.len, false)
		}
		if basicOf(from.Underlying().(*types.Slice).Elem()).w == 8 {
			return mkStr(append([]Value{}, cells...))
		}
		var out []Value
		for _, c := range cells {
			if c.K == KInt {
				for _, b := range []byte(string(rune(int32(c.N)))) {
					out = append(out, vUint(uint64(b)))
				}
			} else {
				out = append(out, c)
			}
		}
		return mkStr(out)
	case t.k == 's':
		// string to []byte or []rune
		el := to.Underlying().(*types.Slice).Elem()
		var cells []Value
		if basicOf(el).w == 8 {
			cells = append(cells, strCells(v)...)
		} else if str, ok := v.P.(string); ok {
			for _, r := range str {
				cells = append(cells, vInt(int64(r)))
			}
		} else {
			cells = append(cells, strCells(v)...)
		}
		id := ex.alloc(s, &Obj{cells: cells})
		return Value{K: KSlice, P: &SliceV{id: id, len: len(cells), cap: len(cells)}}
	case t.k == 'c' && t2.k == 'c':
		return v
	}
	return v // unsafe pointers and identical representations
}

// --- builtins ---

func (ex *Exec) builtin(s *State, name string, args []Value, ci *CallInfo) (Value, bool) {
	switch name {
	case "len", "cap":
		gs, vs := ex.alts(args[0])
		var acc Value
		for i, v := range vs {
			var n Value
			switch v.K {
			case KStr:
				n = vInt(int64(strLen(v)))
			case KSlice:
				n = vInt(0)
				if sl := v.slice(); sl != nil {
					n = vInt(int64(sl.len))
					if name == "cap" {
						n = vInt(int64(sl.cap))
					}
				}
			case KMap:
				if s.conc && v.N != 0 {
					ex.access(s, ObjID(v.N), 0, 1, false)
				}
				n = ex.mapLen(s, v)
			case KChan:
				n = vInt(0)
				if v.N != 0 {
					ch := s.get(ObjID(v.N)).ch
					n = vInt(int64(len(ch.buf)))
					if name == "cap" {
						n = vInt(int64(ch.cap))
					}
				}
			case KAgg:
				at := ci.biT[0].Underlying().(*types.Array)
				n = vInt(at.Len())
			case KPtr:
				at := elemOfPtr(ci.biT[0]).Underlying().(*types.Array)
				n = vInt(at.Len())
			default:
				panic(unsupported("len of " + v.String()))
			}
			if i == 0 {
				acc = n
			} else {
				w, ok := ex.iteScalarW(gs[i], n, acc, SBV, 64)
				if !ok {
					panic(unsupported("len merge"))
				}
				acc = w
			}
		}
		return acc, true
	case "append":
		return ex.doAppend(s, args, ci), true
	case "copy":
		d := ex.res(s, args[0])
		src := ex.res(s, args[1])
		ds := d.slice()
		if ds == nil {
			return vInt(0), true
		}
		esz := layout(ci.biT[0].Underlying().(*types.Slice).Elem()).size
		var cells []Value
		if src.K == KStr {
			cells = strCells(src)
		} else if ss := src.slice(); ss != nil {
			cells = append([]Value{}, s.get(ss.id).cells[ss.off:ss.off+ss.len*esz]...)
			if s.conc {
				ex.access(s, ss.id, ss.off, len(cells), false)
			}
		}
		n := ds.len * esz
		if len(cells) < n {
			n = len(cells)
		}
		if n > 0 {
			if s.conc {
				ex.access(s, ds.id, ds.off, n, true)
			}
			o := s.getw(ds.id)
			copy(o.cells[ds.off:ds.off+n], cells[:n])
		}
		if esz == 0 {
			return vInt(0), true
		}
		return vInt(int64(n / esz)), true
	case "delete":
		ex.mapDelete(s, ex.res(s, args[0]), args[1])
		return Value{}, true
	case "panic":
		ex.doPanic(s, args[0])
		return Value{}, false
	case "recover":
		return ex.doRecover(s), true
	case "print", "println":
		return Value{}, true
	case "close":
		return Value{}, ex.chanClose(s, ex.res(s, args[0]))
	case "min", "max":
		t := basicOf(ci.biT[0])
		acc := args[0]
		for _, v := range args[1:] {
			op := token.LSS
			if name == "max" {
				op = token.GTR
			}
			if t.k == 'f' && acc.K == KFloat && v.K == KFloat {
				if name == "max" {
					acc = vFloat(math.Max(acc.f(), v.f()))
				} else {
					acc = vFloat(math.Min(acc.f(), v.f()))
				}
				continue
			}
			g, _ := ex.binop(s, op, t, t, v, acc)
			w, ok := ex.iteVal(ex.exprOf(g, nil), v, acc)
			if !ok {
				panic(unsupported("min/max"))
			}
			acc = w
		}
		return acc, true
	case "clear":
		v := ex.res(s, args[0])
		if v.K == KMap && v.N != 0 {
			o := s.getw(ObjID(v.N))
			o.m.ents, o.m.idx = nil, map[string]int{}
		} else if sl := v.slice(); v.K == KSlice && sl != nil {
			lay := layout(ci.biT[0].Underlying().(*types.Slice).Elem())
			o := s.getw(sl.id)
			for i := 0; i < sl.len; i++ {
				copy(o.cells[sl.off+i*lay.size:], lay.zero)
			}
		}
		return Value{}, true
	case "ssa:wrapnilchk":
		if !ex.checkNil(s, args[0]) {
			return Value{}, false
		}
		return args[0], true
	case "real":
		return vFloat(real(args[0].P.(complex128))), true
	case "imag":
		return vFloat(imag(args[0].P.(complex128))), true
	case "complex":
		a, b := ex.conc(s, args[0]), ex.conc(s, args[1])
		return Value{K: KCplx, P: complex(a.f(), b.f())}, true
	case "SliceData":
		v := ex.res(s, args[0])
		sl := v.slice()
		if sl == nil {
			return Value{K: KPtr}, true
		}
		return mkPtr(sl.id, sl.off), true
	case "StringData":
		v := ex.res(s, args[0])
		id := ex.alloc(s, &Obj{cells: append([]Value{}, strCells(v)...)})
		return mkPtr(id, 0), true
	case "String":
		p := ex.res(s, args[0])
		n := int(ex.concInt(s, args[1]))
		if n == 0 {
			return vStr(""), true
		}
		return mkStr(append([]Value{}, s.get(p.obj()).cells[p.off():p.off()+n]...)), true
	case "Slice":
		p := ex.res(s, args[0])
		n := int(ex.concInt(s, args[1]))
		if p.obj() == 0 {
			return Value{K: KSlice}, true
		}
		return Value{K: KSlice, P: &SliceV{id: p.obj(), off: p.off(), len: n, cap: n}}, true
	}
	panic(unsupported("builtin " + name))
}

func growCap(oldLen, oldCap, need int, esize int64) int {
	if esize <= 0 {
		return need
	}
	if esize > 1024 {
		if need > 2*oldCap {
			return need
		}
		return 2 * oldCap
	}
	t := reflect.SliceOf(reflect.ArrayOf(int(esize), reflect.TypeOf(byte(0))))
	v := reflect.MakeSlice(t, oldLen, oldCap)
	w := reflect.MakeSlice(t, need-oldLen, need-oldLen)
	return reflect.AppendSlice(v, w).Cap()
}

var stdSizes = types.SizesFor("gc", "amd64")

func (ex *Exec) doAppend(s *State, args []Value, ci *CallInfo) Value {
	base := ex.res(s, args[0])
	st := ci.biT[0].Underlying().(*types.Slice)
	lay := layout(st.Elem())
	var cells []Value
	if len(args) > 1 {
		src := ex.res(s, args[1])
		if src.K == KStr {
			cells = strCells(src)
		} else if ss := src.slice(); ss != nil {
			if s.conc {
				ex.access(s, ss.id, ss.off, ss.len*lay.size, false)
			}
			cells = append([]Value{}, s.get(ss.id).cells[ss.off:ss.off+ss.len*lay.size]...)
		}
	}
	add := 0
	if lay.size > 0 {
		add = len(cells) / lay.size
	} else if len(args) > 1 {
		if ss := ex.res(s, args[1]).slice(); ss != nil {
			add = ss.len
		}
	}
	sl := base.slice()
	n, cp := 0, 0
	if sl != nil {
		n, cp = sl.len, sl.cap
	}
	if add == 0 {
		return base
	}
	if n+add <= cp {
		if s.conc {
			ex.access(s, sl.id, sl.off+n*lay.size, len(cells), true)
		}
		o := s.getw(sl.id)
		copy(o.cells[sl.off+n*lay.size:], cells)
		return Value{K: KSlice, P: &SliceV{id: sl.id, off: sl.off, len: n + add, cap: cp}}
	}
	nc := growCap(n, cp, n+add, stdSizes.Sizeof(st.Elem()))
	nv := ex.mkSlice(s, lay, n+add, nc)
	ns := nv.slice()
	o := s.get(ns.id)
	if n > 0 {
		if s.conc {
			ex.access(s, sl.id, sl.off, n*lay.size, false)
		}
		copy(o.cells, s.get(sl.id).cells[sl.off:sl.off+n*lay.size])
	}
	copy(o.cells[n*lay.size:], cells)
	return nv
}

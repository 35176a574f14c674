package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type Opd struct {
	reg int // >=0 register; -1 constant
	v   Value
}

type Inst struct {
	in   ssa.Instruction
	ops  []Opd
	dst  int
	t    bt
	t2   bt
	off  int // field offset / element size
	size int
	lay  *Layout
	call *CallInfo
	pos  token.Pos
	tok  token.Token
	flag bool
}

type CallInfo struct {
	fn     Opd // function value or interface receiver
	static *FnInfo
	method *types.Func
	args   []Opd
	bi     string
	biT    []types.Type
	resT   types.Type
	nres   int
	pos    token.Pos
	common *ssa.CallCommon
	go_    bool
}

type Block struct {
	ins   []Inst
	nphi  int
	succs []int
	preds []int
	ipdom int // -1 exit, -2 none
}

type FnInfo struct {
	fn     *ssa.Function
	name   string
	once   sync.Once
	err    error
	nregs  int
	reg    map[ssa.Value]int
	blocks []Block
	rec    int // recover block or -1
	intr   intrinsic
	repl   *FnInfo
	params []int
	free   []int
	inRepo bool
	model  bool // of package vmodel
	hits   int64
	liveMu sync.Mutex
	live   map[[2]int][]bool
	liveO  [][]bool
	always []bool
	retT   types.Type
}

type Program struct {
	prog    *ssa.Program
	mu      sync.RWMutex
	fns     map[*ssa.Function]*FnInfo
	globals map[*ssa.Global]ObjID
	gnames  map[ObjID]string
	mcache  sync.Map
	base    *node
	baseObj ObjID
	repl    map[string]*ssa.Function
	baseEx  *Exec
	repoPkg map[string]bool
	repoG   map[ObjID]bool
	frozen  bool
	lateG   map[*ssa.Global]ObjID
}

func fnName(fn *ssa.Function) string {
	f := fn
	if o := fn.Origin(); o != nil {
		f = o
	}
	return f.String()
}

func (p *Program) info(fn *ssa.Function) *FnInfo {
	p.mu.RLock()
	fi := p.fns[fn]
	p.mu.RUnlock()
	if fi != nil {
		return fi
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if fi = p.fns[fn]; fi != nil {
		return fi
	}
	fi = &FnInfo{fn: fn, name: fnName(fn)}
	if fn.Parent() == nil {
		fi.intr = intrinsics[fi.name]
		if r := p.repl[fi.name]; r != nil && r != fn {
			q := p.fns[r]
			if q == nil {
				q = &FnInfo{fn: r, name: fnName(r), model: true}
				p.fns[r] = q
			}
			fi.repl = q
		}
	}
	root := fn
	for root.Parent() != nil {
		root = root.Parent()
	}
	if root.Pkg != nil {
		fi.inRepo = p.repoPkg[root.Pkg.Pkg.Path()]
		fi.model = root.Pkg.Pkg.Path() == "vmodel"
	} else if o := root.Origin(); o != nil && o.Pkg != nil {
		fi.inRepo = p.repoPkg[o.Pkg.Pkg.Path()]
	} else if root.Object() != nil && root.Object().Pkg() != nil {
		fi.inRepo = p.repoPkg[root.Object().Pkg().Path()]
	}
	p.fns[fn] = fi
	return fi
}

var buildMu sync.Mutex

func (fi *FnInfo) compile(p *Program) error {
	fi.once.Do(func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupported); ok {
					fi.err = u
					return
				}
				panic(r)
			}
		}()
		fi.doCompile(p)
	})
	return fi.err
}

func (fi *FnInfo) doCompile(p *Program) {
	fn := fi.fn
	if fn.Blocks == nil {
		pkg := fn.Pkg
		if pkg == nil && fn.Origin() != nil {
			pkg = fn.Origin().Pkg
		}
		if pkg != nil {
			pkg.Build()
		}
	}
	if fn.Blocks == nil {
		panic(unsupported("no body for " + fi.name))
	}
	fi.reg = map[ssa.Value]int{}
	for _, q := range fn.Params {
		fi.params = append(fi.params, fi.nregs)
		fi.reg[q] = fi.nregs
		fi.nregs++
	}
	for _, q := range fn.FreeVars {
		fi.free = append(fi.free, fi.nregs)
		fi.reg[q] = fi.nregs
		fi.nregs++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				fi.reg[v] = fi.nregs
				fi.nregs++
			}
		}
	}
	fi.retT = fn.Signature.Results()
	fi.rec = -1
	if fn.Recover != nil {
		fi.rec = fn.Recover.Index
	}
	fi.blocks = make([]Block, len(fn.Blocks))
	for i, b := range fn.Blocks {
		bl := &fi.blocks[i]
		for _, s := range b.Succs {
			bl.succs = append(bl.succs, s.Index)
		}
		for _, s := range b.Preds {
			bl.preds = append(bl.preds, s.Index)
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			if _, ok := in.(*ssa.Phi); ok {
				bl.nphi++
			}
			bl.ins = append(bl.ins, fi.inst(p, in))
		}
	}
	fi.postdom()
	fi.liveness()
}

// setByInit says that a package-level variable has an initial value.
func setByInit(g *ssa.Global) bool {
	fn := g.Pkg.Func("init")
	if fn == nil {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == ssa.Value(g) {
					return true
				}
			}
		}
	}
	return false
}

func (fi *FnInfo) opd(p *Program, v ssa.Value) Opd {
	switch x := v.(type) {
	case nil:
		return Opd{reg: -1}
	case *ssa.Const:
		return Opd{reg: -1, v: constVal(x)}
	case *ssa.Global:
		if p.frozen && x.Pkg != nil && x.Pkg.Pkg.Path() != "os" && initDenied(x.Pkg.Pkg.Path()) && setByInit(x) {
			panic(unsupported("variable " + x.String() + " of a package whose initialiser is not run"))
		}
		return Opd{reg: -1, v: mkPtr(p.global(x), 0)}
	case *ssa.Function:
		return Opd{reg: -1, v: Value{K: KFunc, P: &Closure{fn: x}}}
	case *ssa.Builtin:
		return Opd{reg: -1, v: Value{K: KFunc, P: &Closure{bi: x.Name()}}}
	}
	r, ok := fi.reg[v]
	if !ok {
		panic(unsupported("operand " + v.String()))
	}
	return Opd{reg: r}
}

// global returns the object id of a package-level variable. After the base heap is frozen, globals
// first met later get ids from a reserved area and are created on first access (zero value).
func (p *Program) global(g *ssa.Global) ObjID {
	p.mu.Lock()
	defer p.mu.Unlock()
	id, ok := p.globals[g]
	if !ok {
		p.baseObj++
		id = p.baseObj
		p.globals[g] = id
		p.gnames[id] = g.String()
		l := layout(g.Type().(*types.Pointer).Elem())
		o := &Obj{cells: append([]Value{}, l.zero...)}
		p.baseMu(func() { p.base = trieSet(p.base, id, o, 1) })
	}
	return id
}

func (p *Program) baseMu(f func()) {
	if p.frozen {
		panic(unsupported("global met after the base heap was frozen"))
	}
	f()
}

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	t := c.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		// type parameter constants etc.
		panic(unsupported("constant of type " + c.Type().String()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return vBool(constant.BoolVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		x := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(x); ok {
			return Value{K: KInt, N: normInt(basicOf(t), uint64(i))}
		}
		u, _ := constant.Uint64Val(x)
		return Value{K: KInt, N: u}
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return vFloat(f)
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.Int {
			i, _ := constant.Int64Val(c.Value)
			return vStr(string(rune(i)))
		}
		return vStr(constant.StringVal(c.Value))
	case b.Info()&types.IsComplex != 0:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return Value{K: KCplx, P: complex(re, im)}
	case b.Kind() == types.UnsafePointer:
		return Value{K: KPtr}
	}
	panic(unsupported("constant " + c.String()))
}

func elemOfPtr(t types.Type) types.Type {
	return t.Underlying().(*types.Pointer).Elem()
}

func (fi *FnInfo) callInfo(p *Program, cc *ssa.CallCommon, pos token.Pos) *CallInfo {
	ci := &CallInfo{common: cc, pos: pos}
	sig := cc.Signature()
	ci.resT = sig.Results()
	ci.nres = sig.Results().Len()
	for _, a := range cc.Args {
		ci.args = append(ci.args, fi.opd(p, a))
	}
	if cc.IsInvoke() {
		ci.fn = fi.opd(p, cc.Value)
		ci.method = cc.Method
		return ci
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		ci.bi = b.Name()
		for _, a := range cc.Args {
			ci.biT = append(ci.biT, a.Type())
		}
		return ci
	}
	if f, ok := cc.Value.(*ssa.Function); ok {
		ci.static = p.info(f)
		return ci
	}
	ci.fn = fi.opd(p, cc.Value)
	return ci
}

func (fi *FnInfo) inst(p *Program, in ssa.Instruction) Inst {
	r := Inst{in: in, dst: -1, pos: in.Pos()}
	if v, ok := in.(ssa.Value); ok {
		r.dst = fi.reg[v]
	}
	add := func(vs ...ssa.Value) {
		for _, v := range vs {
			r.ops = append(r.ops, fi.opd(p, v))
		}
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		r.lay = layout(elemOfPtr(x.Type()))
	case *ssa.BinOp:
		add(x.X, x.Y)
		r.tok = x.Op
		r.t = basicOf(x.X.Type())
		r.t2 = basicOf(x.Y.Type())
	case *ssa.Call:
		r.call = fi.callInfo(p, &x.Call, in.Pos())
	case *ssa.Defer:
		r.call = fi.callInfo(p, &x.Call, in.Pos())
	case *ssa.Go:
		r.call = fi.callInfo(p, &x.Call, in.Pos())
	case *ssa.ChangeInterface:
		add(x.X)
	case *ssa.ChangeType:
		add(x.X)
	case *ssa.Convert:
		add(x.X)
		r.t, r.t2 = basicOf(x.X.Type()), basicOf(x.Type())
	case *ssa.MultiConvert:
		panic(unsupported("MultiConvert"))
	case *ssa.Extract:
		add(x.Tuple)
		tt := x.Tuple.Type().(*types.Tuple)
		for i := 0; i < x.Index; i++ {
			r.off += layout(tt.At(i).Type()).size
		}
		r.lay = layout(x.Type())
		r.size = r.lay.size
	case *ssa.Field:
		add(x.X)
		r.off = fieldOff(x.X.Type().Underlying().(*types.Struct), x.Field)
		r.lay = layout(x.Type())
		r.size = r.lay.size
	case *ssa.FieldAddr:
		add(x.X)
		r.off = fieldOff(elemOfPtr(x.X.Type()).Underlying().(*types.Struct), x.Field)
	case *ssa.If:
		add(x.Cond)
	case *ssa.Index:
		add(x.X, x.Index)
		r.lay = layout(x.Type())
		r.size = r.lay.size
	case *ssa.IndexAddr:
		add(x.X, x.Index)
		r.size = layout(elemOfPtr(x.Type())).size
	case *ssa.Jump:
	case *ssa.Lookup:
		add(x.X, x.Index)
		r.lay = layout(x.Type())
		r.flag = x.CommaOk
		if m, ok := x.X.Type().Underlying().(*types.Map); ok {
			r.lay = layout(m.Elem())
		}
	case *ssa.MakeChan:
		add(x.Size)
	case *ssa.MakeClosure:
		add(x.Bindings...)
	case *ssa.MakeInterface:
		add(x.X)
	case *ssa.MakeMap:
		r.lay = layout(x.Type().Underlying().(*types.Map).Elem())
	case *ssa.MakeSlice:
		add(x.Len, x.Cap)
		r.lay = layout(x.Type().Underlying().(*types.Slice).Elem())
	case *ssa.MapUpdate:
		add(x.Map, x.Key, x.Value)
	case *ssa.Next:
		add(x.Iter)
		tt := x.Type().(*types.Tuple)
		r.flag = x.IsString
		_ = tt
	case *ssa.Panic:
		add(x.X)
	case *ssa.Phi:
		add(x.Edges...)
	case *ssa.Range:
		add(x.X)
	case *ssa.Return:
		add(x.Results...)
	case *ssa.RunDefers:
	case *ssa.Select:
		for _, st := range x.States {
			add(st.Chan)
			add(st.Send)
		}
		r.flag = x.Blocking
	case *ssa.Send:
		add(x.Chan, x.X)
	case *ssa.Slice:
		add(x.X, x.Low, x.High, x.Max)
		switch t := x.X.Type().Underlying().(type) {
		case *types.Slice:
			r.size = layout(t.Elem()).size
		case *types.Pointer:
			r.size = layout(t.Elem().Underlying().(*types.Array).Elem()).size
			r.off = int(t.Elem().Underlying().(*types.Array).Len())
		}
	case *ssa.SliceToArrayPointer:
		add(x.X)
		r.off = int(elemOfPtr(x.Type()).Underlying().(*types.Array).Len())
	case *ssa.Store:
		add(x.Addr, x.Val)
		r.lay = layout(x.Val.Type())
		r.size = r.lay.size
	case *ssa.TypeAssert:
		add(x.X)
		r.lay = layout(x.AssertedType)
		r.flag = x.CommaOk
	case *ssa.UnOp:
		add(x.X)
		r.tok = x.Op
		r.t = basicOf(x.X.Type())
		if x.Op == token.MUL {
			r.lay = layout(x.Type())
			r.size = r.lay.size
		}
		if x.Op == token.ARROW {
			r.flag = x.CommaOk
			r.lay = layout(x.X.Type().Underlying().(*types.Chan).Elem())
		}
	default:
		panic(unsupported("instruction " + in.String()))
	}
	return r
}

func (fi *FnInfo) postdom() {
	n := len(fi.blocks)
	// blocks that reach a Return
	reach := make([]bool, n)
	var work []int
	isRet := make([]bool, n)
	for i := range fi.blocks {
		b := &fi.blocks[i]
		if len(b.ins) > 0 {
			if _, ok := b.ins[len(b.ins)-1].in.(*ssa.Return); ok {
				isRet[i] = true
				reach[i] = true
				work = append(work, i)
			}
		}
	}
	for len(work) > 0 {
		i := work[len(work)-1]
		work = work[:len(work)-1]
		for _, p := range fi.blocks[i].preds {
			if !reach[p] {
				reach[p] = true
				work = append(work, p)
			}
		}
	}
	// post-dominator sets by iteration (bitsets as []uint64), exit = n
	w := (n + 64) / 64
	full := make([]uint64, w)
	for i := range full {
		full[i] = ^uint64(0)
	}
	pd := make([][]uint64, n)
	for i := range pd {
		pd[i] = append([]uint64{}, full...)
	}
	ch := true
	for ch {
		ch = false
		for i := n - 1; i >= 0; i-- {
			if !reach[i] {
				continue
			}
			nw := append([]uint64{}, full...)
			if isRet[i] {
				for k := range nw {
					nw[k] = 0
				}
				nw[n/64] |= 1 << uint(n%64)
			} else {
				for _, s := range fi.blocks[i].succs {
					if reach[s] {
						for k := range nw {
							nw[k] &= pd[s][k]
						}
					}
				}
			}
			nw[i/64] |= 1 << uint(i%64)
			for k := range nw {
				if nw[k] != pd[i][k] {
					pd[i] = nw
					ch = true
					break
				}
			}
		}
	}
	cnt := func(i int) int {
		c := 0
		for j := 0; j <= n; j++ {
			if pd[i][j/64]>>uint(j%64)&1 != 0 {
				c++
			}
		}
		return c
	}
	for i := range fi.blocks {
		fi.blocks[i].ipdom = -2
		if !reach[i] {
			continue
		}
		fi.blocks[i].ipdom = -1
		// ipdom = the strict post-dominator with the largest pd set
		best := 0
		for j := 0; j < n; j++ {
			if j != i && reach[j] && pd[i][j/64]>>uint(j%64)&1 != 0 {
				if c := cnt(j); c > best {
					best = c
					fi.blocks[i].ipdom = j
				}
			}
		}
	}
}

func (fi *FnInfo) liveness() {
	n := len(fi.blocks)
	fi.live = map[[2]int][]bool{}
	fi.always = make([]bool, fi.nregs)
	mark := func(l []bool, o Opd) {
		if o.reg >= 0 {
			l[o.reg] = true
		}
	}
	uses := func(l []bool, in *Inst) {
		if _, ok := in.in.(*ssa.Phi); ok {
			return
		}
		for _, o := range in.ops {
			mark(l, o)
		}
		if in.call != nil {
			mark(l, in.call.fn)
			for _, o := range in.call.args {
				mark(l, o)
			}
		}
	}
	if fi.rec >= 0 {
		b := &fi.blocks[fi.rec]
		for i := range b.ins {
			uses(fi.always, &b.ins[i])
		}
	}
	fi.liveO = make([][]bool, n)
	liveI := make([][]bool, n)
	for i := range fi.liveO {
		fi.liveO[i] = make([]bool, fi.nregs)
		liveI[i] = make([]bool, fi.nregs)
	}
	ch := true
	for ch {
		ch = false
		for i := n - 1; i >= 0; i-- {
			out := fi.liveO[i]
			for _, s := range fi.blocks[i].succs {
				for r, b := range liveI[s] {
					if b {
						out[r] = true
					}
				}
				sb := &fi.blocks[s]
				for k := 0; k < sb.nphi; k++ {
					for e, p := range sb.preds {
						if p == i {
							mark(out, sb.ins[k].ops[e])
						}
					}
				}
			}
			l := append([]bool{}, out...)
			b := &fi.blocks[i]
			for k := len(b.ins) - 1; k >= 0; k-- {
				if b.ins[k].dst >= 0 {
					l[b.ins[k].dst] = false
				}
				uses(l, &b.ins[k])
			}
			for r := range l {
				if l[r] != liveI[i][r] {
					liveI[i] = l
					ch = true
					break
				}
			}
		}
	}
}

func (fi *FnInfo) liveAt(block, pc int) []bool {
	fi.liveMu.Lock()
	defer fi.liveMu.Unlock()
	k := [2]int{block, pc}
	if l, ok := fi.live[k]; ok {
		return l
	}
	l := append([]bool{}, fi.liveO[block]...)
	b := &fi.blocks[block]
	for j := len(b.ins) - 1; j >= pc; j-- {
		if b.ins[j].dst >= 0 {
			l[b.ins[j].dst] = false
		}
		in := &b.ins[j]
		if _, ok := in.in.(*ssa.Phi); ok {
			continue
		}
		for _, o := range in.ops {
			if o.reg >= 0 {
				l[o.reg] = true
			}
		}
		if in.call != nil {
			if in.call.fn.reg >= 0 {
				l[in.call.fn.reg] = true
			}
			for _, o := range in.call.args {
				if o.reg >= 0 {
					l[o.reg] = true
				}
			}
		}
	}
	for r, b := range fi.always {
		if b {
			l[r] = true
		}
	}
	fi.live[k] = l
	return l
}

func (p *Program) posn(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.prog.Fset.Position(pos)
	f := q.Filename
	if i := strings.Index(f, "/CloudForest/"); i >= 0 {
		f = f[i+len("/CloudForest/"):]
	} else if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return f + ":" + itoa(q.Line)
}

func (fi *FnInfo) hit() { atomic.AddInt64(&fi.hits, 1) }

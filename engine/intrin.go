package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"math/bits"
	"strconv"
	"strings"
)

type action int

const (
	actOK action = iota
	actBlock
	actPanic
	actEnd
	actInterp
	actSched
	actRetry
)

type intrinsic func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action)

var intrinsics = map[string]intrinsic{}

func sname(v Value) string { return v.P.(string) }

// fresh finite-domain input as a guarded set of values
func (ex *Exec) fdValue(name string, vals []uint64, srt Sort) Value {
	if len(vals) == 1 {
		return mkScalar(srt, vals[0])
	}
	if len(vals) > 64 {
		panic(unsupported("finite domain larger than 64: " + name))
	}
	v := ex.c.FD(name, len(vals))
	if ex.forced {
		return mkScalar(srt, vals[ex.fmodel.val(v)])
	}
	if srt == SBool && len(vals) == 2 {
		return boolVal(ex.c.In(v, 2))
	}
	gs := make([]*Expr, len(vals))
	for i := range vals {
		gs[i] = ex.c.In(v, 1<<uint(i))
	}
	return ex.fromSet(ex.c.VSet(srt, 64, append([]uint64{}, vals...), gs))
}

func (ex *Exec) input(name, kind string, v Value) Value {
	if ex.forced {
		t := v.String()
		if v.K == KFloat {
			t = fmt.Sprintf("%x", v.N)
		}
		if v.K == KStr {
			t = fmt.Sprintf("%x", v.P.(string))
		}
		for _, in := range ex.inputs {
			if in.name == name {
				return v
			}
		}
		ex.inputs = append(ex.inputs, Input{name, kind, t})
	}
	return v
}

func (ex *Exec) draw(s *State, kind string, vals []uint64, srt Sort) Value {
	name := fmt.Sprintf("rnd#%d/%s%d", s.nrnd, kind, len(vals))
	n := len(vals)
	if ex.cs != nil && ex.cs.free >= 0 && s.nrnd >= ex.cs.free {
		// a fixed irregular sequence
		k := (uint32(s.nrnd)*2654435761 + 12345) >> 9
		vals = []uint64{vals[int(k)%len(vals)]}
	}
	var v Value
	if k := s.nrnd - s.rep; s.rep > 0 && k < len(s.drs) && s.drs[k].n.P == nil && s.drs[k].n.N == uint64(n) && s.drs[k].kind == kind {
		v = s.drs[k].v
	} else {
		v = ex.fdValue(name, vals, srt)
	}
	s.nrnd++
	s.drs = append(s.drs, drawEnt{v, vInt(int64(n)), kind})
	if ex.forced {
		t := fmt.Sprintf("%d", int64(v.N))
		if srt == SFP {
			t = fmt.Sprintf("%x", v.N)
		}
		ex.draws = append(ex.draws, kind+" "+t)
	}
	return v
}

func (ex *Exec) drawN(s *State, n Value) (Value, action) {
	k := ex.concInt(s, n)
	if k <= 0 {
		ex.doPanicMsg(s, Value{K: KIface, P: &IfaceV{ex.p.rtErrT(), vStr("invalid argument to Intn")}}, "panic: invalid argument to Intn")
		return Value{}, actPanic
	}
	if k > 64 && !(ex.cs != nil && ex.cs.free >= 0 && s.nrnd >= ex.cs.free && k < 4096) {
		panic(unsupported(fmt.Sprintf("random draw from %d values", k)))
	}
	if ex.cs != nil && ex.cs.draws > 0 && s.nrnd >= ex.cs.draws {
		ex.ends["assumed away"]++
		ex.leaf(s, nil)
		return Value{}, actEnd
	}
	vals := make([]uint64, k)
	for i := range vals {
		vals[i] = uint64(i)
	}
	return ex.draw(s, "n", vals, SBV), actOK
}

var floatDraws = []float64{0, 0.25, 0.5, 0.75, 1 - 1.0/(1<<53)}

func ifaceOf(v Value) (types.Type, Value) {
	if v.P == nil {
		return nil, Value{}
	}
	return v.iface().t, v.iface().v
}

// anyToText renders a concrete value for Log comparison.
func (ex *Exec) logText(s *State, v Value) string {
	switch v.K {
	case KIface:
		if v.P == nil {
			return "<nil>"
		}
		t, x := ifaceOf(v)
		return ex.logTyped(s, t, x)
	}
	return v.String()
}

func (ex *Exec) logTyped(s *State, t types.Type, v Value) string {
	switch v.K {
	case KInt:
		b := basicOf(t)
		if b.k == 'u' {
			return strconv.FormatUint(v.N, 10)
		}
		return strconv.FormatInt(int64(v.N), 10)
	case KBool:
		return strconv.FormatBool(v.N != 0)
	case KFloat:
		return strconv.FormatFloat(v.f(), 'g', -1, 64)
	case KStr:
		if t, ok := v.P.(string); ok {
			return t
		}
	case KSlice:
		sl := v.slice()
		if sl == nil {
			return "[]"
		}
		el := t.Underlying().(*types.Slice).Elem()
		n := layout(el).size
		var p []string
		for i := 0; i < sl.len; i++ {
			p = append(p, ex.logTyped(s, el, packCells(s.get(sl.id).cells[sl.off+i*n:sl.off+(i+1)*n], layout(el))))
		}
		return "[" + strings.Join(p, " ") + "]"
	}
	return "?" + v.String()
}

func bind1f(f func(float64) float64, op Op) intrinsic {
	return func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		var term func(e *Expr) *Expr
		if op != 0 {
			term = func(e *Expr) *Expr { return ex.c.app(op, SFP, 0, e) }
		}
		return ex.map1(s, a[0], SFP, func(x uint64) uint64 { return math.Float64bits(f(math.Float64frombits(x))) }, term), actOK
	}
}
func bind2f(f func(a, b float64) float64) intrinsic {
	return func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		return ex.map2(s, a[0], a[1], SFP, SFP, func(x, y uint64) uint64 {
			return math.Float64bits(f(math.Float64frombits(x), math.Float64frombits(y)))
		}, nil), actOK
	}
}

// model replaces a standard-library function that is executed natively on concrete arguments.
func init() {
	I := intrinsics
	nop := func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		switch ci.nres {
		case 0:
			return Value{}, actOK
		case 1:
			return zeroOf(ci.resT.(*types.Tuple).At(0).Type()), actOK
		}
		return zeroOf(ci.resT), actOK
	}
	// --- math ---
	I["math.Sqrt"] = bind1f(math.Sqrt, OFSqrt)
	I["math.sqrt"] = I["math.Sqrt"]
	I["math.Abs"] = bind1f(math.Abs, OFAbs)
	I["math.Floor"] = bind1f(math.Floor, OFFloor)
	I["math.Ceil"] = bind1f(math.Ceil, OFCeil)
	I["math.Trunc"] = bind1f(math.Trunc, OFTrunc)
	I["math.Exp"] = bind1f(math.Exp, 0)
	I["math.Log"] = bind1f(math.Log, 0)
	I["math.Log2"] = bind1f(math.Log2, 0)
	I["math.Log1p"] = bind1f(math.Log1p, 0)
	I["math.Tanh"] = bind1f(math.Tanh, 0)
	I["math.Gamma"] = bind1f(math.Gamma, 0)
	I["math.Pow"] = bind2f(math.Pow)
	I["math.Mod"] = bind2f(math.Mod)
	I["math.Max"] = bind2f(math.Max)
	I["math.Min"] = bind2f(math.Min)
	I["math.Float64bits"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		return ex.map1(s, a[0], SBV, func(x uint64) uint64 { return x }, nil), actOK
	}
	I["math.Float64frombits"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		return ex.map1(s, a[0], SFP, func(x uint64) uint64 { return x }, nil), actOK
	}
	I["math.Float32bits"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		return ex.map1(s, a[0], SBV, func(x uint64) uint64 { return uint64(math.Float32bits(float32(math.Float64frombits(x)))) }, nil), actOK
	}
	I["math.Float32frombits"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		return ex.map1(s, a[0], SFP, func(x uint64) uint64 { return math.Float64bits(float64(math.Float32frombits(uint32(x)))) }, nil), actOK
	}
	I["math.IsNaN"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		return ex.map1(s, a[0], SBool, func(x uint64) uint64 { f := math.Float64frombits(x); return b2u(f != f) },
			func(e *Expr) *Expr { return ex.c.Not(ex.c.app(OFEq, SBool, 0, e, e)) }), actOK
	}
	I["math.FMA"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		x, y, z := ex.conc(s, a[0]), ex.conc(s, a[1]), ex.conc(s, a[2])
		return vFloat(math.FMA(x.f(), y.f(), z.f())), actOK
	}
	// --- random numbers: every draw is a fresh finite-domain variable ---
	intn := func(k int) intrinsic {
		return func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) { return ex.drawN(s, a[k]) }
	}
	f64 := func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		var vals []uint64
		for _, f := range floatDraws {
			vals = append(vals, math.Float64bits(f))
		}
		return ex.draw(s, "f", vals, SFP), actOK
	}
	// raw draws: one fixed value unless the case asks for more
	i63 := func(sh uint) intrinsic {
		return func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
			vals := []uint64{12345 << sh}
			if ex.cs != nil && ex.cs.raw > 1 {
				vals = nil
				for i := 0; i < ex.cs.raw; i++ {
					vals = append(vals, uint64(i)<<sh)
				}
			}
			return ex.map1(s, ex.draw(s, "r", vals, SBV), SBV, func(x uint64) uint64 { return x >> sh }, nil), actOK
		}
	}
	for _, n := range []string{"Intn", "Int31n", "Int63n"} {
		I["math/rand."+n] = intn(0)
		I["(*math/rand.Rand)."+n] = intn(1)
	}
	I["(*math/rand.Rand).int31n"] = intn(1)
	I["math/rand.Float64"] = f64
	I["(*math/rand.Rand).Float64"] = f64
	for n, sh := range map[string]uint{"Int63": 0, "Int31": 32, "Int": 0, "Uint32": 31, "Uint64": 0} {
		I["math/rand."+n] = i63(sh)
		I["(*math/rand.Rand)."+n] = i63(sh)
	}
	I["math/rand.Seed"] = nop
	I["(*math/rand.Rand).Seed"] = nop
	I["(*math/rand.rngSource).Seed"] = nop
	// --- time, runtime, os, log ---
	for _, n := range []string{"runtime.GC", "runtime.Gosched", "runtime.KeepAlive", "runtime.SetFinalizer", "(*runtime/pprof.Profile).Add",
		"runtime/pprof.StopCPUProfile", "runtime/pprof.StartCPUProfile", "log.SetFlags", "log.SetOutput", "log.SetPrefix", "time.Sleep", "os.runtime_beforeExit",
		"internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable", "internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange", "internal/race.Errors",
		"(*internal/godebug.Setting).IncNonDefault", "internal/godebug.setUpdate", "internal/godebug.registerMetric", "internal/godebug.setNewIncNonDefault",
		"time.Now", "time.Since", "(time.Time).Sub", "(time.Time).UTC", "(time.Time).UnixNano", "(time.Time).Unix", "(time.Time).String", "(time.Duration).String", "(time.Time).Format", "(time.Duration).Seconds",
		"runtime/debug.SetGCPercent"} {
		I[n] = nop
	}
	I["(*internal/godebug.Setting).Value"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) { return vStr(""), actOK }
	I["(*internal/godebug.Setting).Name"] = I["(*internal/godebug.Setting).Value"]
	one := func(n int64) intrinsic {
		return func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) { return vInt(n), actOK }
	}
	I["runtime.GOMAXPROCS"] = one(2)
	I["runtime.NumCPU"] = one(2)
	I["runtime.NumGoroutine"] = one(1)
	exit := func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		if ex.cs.exitBad {
			ex.violation(s, "exit", "the program stops with log.Fatal/os.Exit", ex.where(s), nil)
		}
		ex.endPath(s, "exit")
		return Value{}, actEnd
	}
	I["os.Exit"] = exit
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "(*log.Logger).Fatal", "(*log.Logger).Fatalf"} {
		I[n] = exit
	}
	for _, n := range []string{"log.Print", "log.Printf", "log.Println", "(*log.Logger).Print", "(*log.Logger).Printf", "(*log.Logger).Println"} {
		I[n] = nop
	}
	for _, n := range []string{"log.Panic", "log.Panicf", "log.Panicln"} {
		I[n] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
			ex.doPanicMsg(s, Value{K: KIface, P: &IfaceV{ex.p.rtErrT(), vStr("log.Panic")}}, "panic: log.Panic")
			return Value{}, actPanic
		}
	}
	// --- fmt ---
	I["fmt.Sprintf"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		return ex.sprintf(s, ex.concStr(s, a[0]), ex.anys(s, a[1])), actOK
	}
	I["fmt.Sprint"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		args := ex.anys(s, a[0])
		var cells []Value
		prevStr := true
		for i, v := range args {
			t, x := ifaceOf(ex.res(s, v))
			isStr := t != nil && basicOf(t).k == 's' && x.K != KInvalid
			if i > 0 && !isStr && !prevStr {
				cells = append(cells, vUint(' '))
			}
			prevStr = isStr
			cells = append(cells, strCells(ex.sprintf(s, "%v", []Value{v}))...)
		}
		return mkStr(cells), actOK
	}
	I["fmt.Sprintln"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		args := ex.anys(s, a[0])
		var cells []Value
		for i, v := range args {
			if i > 0 {
				cells = append(cells, vUint(' '))
			}
			cells = append(cells, strCells(ex.sprintf(s, "%v", []Value{v}))...)
		}
		return mkStr(append(cells, vUint('\n'))), actOK
	}
	// --- strconv ---
	pack2 := func(v Value) Value { return vAgg([]Value{v, {K: KIface}}) }
	I["strconv.ParseFloat"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		v := ex.res(s, a[0])
		if ss, ok := v.P.(*SymStr); ok {
			if len(ss.cells) == 1 && ss.cells[0].K == KTok {
				t := ss.cells[0].P.(*TokV)
				if t.flt {
					return pack2(t.v), actOK
				}
				r := ex.convert(s, t.v, types.Typ[types.Int], types.Typ[types.Float64], bt{'i', 64}, bt{'f', 64})
				return pack2(r), actOK
			}
			for _, c := range ss.cells {
				if c.K == KTok {
					panic(hasTok{})
				}
			}
		}
		str := ex.concStr(s, v)
		bs := int(ex.concInt(s, a[1]))
		f, err := strconv.ParseFloat(str, bs)
		if err != nil {
			a[0] = vStr(str)
			return Value{}, actInterp
		}
		return pack2(vFloat(f)), actOK
	}
	I["strconv.Atoi"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		v := ex.res(s, a[0])
		if ss, ok := v.P.(*SymStr); ok && len(ss.cells) == 1 && ss.cells[0].K == KTok {
			t := ss.cells[0].P.(*TokV)
			if !t.flt {
				return pack2(t.v), actOK
			}
			panic(hasTok{})
		}
		str := ex.concStr(s, v)
		n, err := strconv.Atoi(str)
		if err != nil {
			a[0] = vStr(str)
			return Value{}, actInterp
		}
		return pack2(vInt(int64(n))), actOK
	}
	I["strconv.ParseInt"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		v := ex.res(s, a[0])
		if ss, ok := v.P.(*SymStr); ok && len(ss.cells) == 1 && ss.cells[0].K == KTok {
			t := ss.cells[0].P.(*TokV)
			if !t.flt {
				return pack2(t.v), actOK
			}
			panic(hasTok{})
		}
		str := ex.concStr(s, v)
		n, err := strconv.ParseInt(str, int(ex.concInt(s, a[1])), int(ex.concInt(s, a[2])))
		if err != nil {
			a[0] = vStr(str)
			return Value{}, actInterp
		}
		return pack2(vInt(n)), actOK
	}
	I["strconv.FormatFloat"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		if ex.isTokFloat(s, a[0]) {
			return mkStr([]Value{{K: KTok, P: &TokV{v: a[0], flt: true}}}), actOK
		}
		v := ex.conc(s, a[0])
		return vStr(strconv.FormatFloat(v.f(), byte(ex.concInt(s, a[1])), int(ex.concInt(s, a[2])), int(ex.concInt(s, a[3])))), actOK
	}
	I["strconv.Itoa"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		return vStr(strconv.FormatInt(ex.concInt(s, a[0]), 10)), actOK
	}
	I["strconv.FormatInt"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		return vStr(strconv.FormatInt(ex.concInt(s, a[0]), int(ex.concInt(s, a[1])))), actOK
	}
	I["strconv.Quote"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		return vStr(strconv.Quote(ex.concStr(s, a[0]))), actOK
	}
	// --- strings on concrete values (interpreted otherwise) ---
	I["strings.ToLower"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		v := ex.res(s, a[0])
		if t, ok := v.P.(string); ok {
			return vStr(strings.ToLower(t)), actOK
		}
		cells := append([]Value{}, v.P.(*SymStr).cells...)
		for i, c := range cells {
			if c.K == KTok {
				continue
			}
			cells[i] = ex.map1(s, c, SBV, func(n uint64) uint64 {
				if n >= 'A' && n <= 'Z' {
					return n + 32
				}
				if n >= 0x80 {
					panic(unsupported("ToLower on symbolic non-ASCII"))
				}
				return n
			}, nil)
		}
		return mkStr(cells), actOK
	}
	conc2 := func(f func(a, b string) Value) intrinsic {
		return func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
			x, y := ex.res(s, a[0]), ex.res(s, a[1])
			xs, ok1 := x.P.(string)
			ys, ok2 := y.P.(string)
			if !ok1 || !ok2 {
				a[0], a[1] = x, y
				return Value{}, actInterp
			}
			return f(xs, ys), actOK
		}
	}
	I["strings.Index"] = conc2(func(a, b string) Value { return vInt(int64(strings.Index(a, b))) })
	I["strings.Contains"] = conc2(func(a, b string) Value { return vBool(strings.Contains(a, b)) })
	I["strings.Count"] = conc2(func(a, b string) Value { return vInt(int64(strings.Count(a, b))) })
	I["strings.TrimSpace"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		v := ex.res(s, a[0])
		if t, ok := v.P.(string); ok {
			return vStr(strings.TrimSpace(t)), actOK
		}
		a[0] = v
		return Value{}, actInterp
	}
	bytesOf := func(ex *Exec, s *State, v Value) []Value {
		v = ex.res(s, v)
		if v.K == KStr {
			return strCells(v)
		}
		sl := v.slice()
		if sl == nil {
			return nil
		}
		if s.conc {
			ex.access(s, sl.id, sl.off, sl.len, false)
		}
		return s.get(sl.id).cells[sl.off : sl.off+sl.len]
	}
	cellEq := func(ex *Exec, s *State, c, b Value) bool {
		if c.K == KInt && b.K == KInt {
			return c.N == b.N
		}
		e := ex.eqVal(s, c, b)
		switch ex.known(s, e) {
		case 1:
			return true
		case -1:
			return false
		}
		return ex.pick(s, []*Expr{e, ex.c.Not(e)}) == 0
	}
	idxByte := func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		b := a[1]
		for i, c := range bytesOf(ex, s, a[0]) {
			if cellEq(ex, s, c, b) {
				return vInt(int64(i)), actOK
			}
		}
		return vInt(-1), actOK
	}
	I["internal/bytealg.IndexByte"] = idxByte
	I["internal/bytealg.IndexByteString"] = idxByte
	I["strings.IndexByte"] = idxByte
	I["bytes.IndexByte"] = idxByte
	lastByte := func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		cs := bytesOf(ex, s, a[0])
		for i := len(cs) - 1; i >= 0; i-- {
			if cellEq(ex, s, cs[i], a[1]) {
				return vInt(int64(i)), actOK
			}
		}
		return vInt(-1), actOK
	}
	I["internal/bytealg.LastIndexByteString"] = lastByte
	I["internal/bytealg.LastIndexByte"] = lastByte
	cntByte := func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		n := 0
		for _, c := range bytesOf(ex, s, a[0]) {
			if cellEq(ex, s, c, a[1]) {
				n++
			}
		}
		return vInt(int64(n)), actOK
	}
	I["internal/bytealg.Count"] = cntByte
	I["internal/bytealg.CountString"] = cntByte
	idx := func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		x, y := bytesOf(ex, s, a[0]), bytesOf(ex, s, a[1])
	outer:
		for i := 0; i+len(y) <= len(x); i++ {
			for j := range y {
				if !cellEq(ex, s, x[i+j], y[j]) {
					continue outer
				}
			}
			return vInt(int64(i)), actOK
		}
		return vInt(-1), actOK
	}
	I["internal/bytealg.Index"] = idx
	I["internal/bytealg.IndexString"] = idx
	I["internal/bytealg.Equal"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		x, y := mkStr(append([]Value{}, bytesOf(ex, s, a[0])...)), mkStr(append([]Value{}, bytesOf(ex, s, a[1])...))
		return boolVal(ex.eqVal(s, x, y)), actOK
	}
	I["bytes.Equal"] = I["internal/bytealg.Equal"]
	I["internal/bytealg.Compare"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		x := ex.concStr(s, mkStr(append([]Value{}, bytesOf(ex, s, a[0])...)))
		y := ex.concStr(s, mkStr(append([]Value{}, bytesOf(ex, s, a[1])...)))
		return vInt(int64(strings.Compare(x, y))), actOK
	}
	I["internal/bytealg.CompareString"] = I["internal/bytealg.Compare"]
	I["internal/bytealg.MakeNoZero"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		n := int(ex.concInt(s, a[0]))
		return ex.mkSlice(s, layout(types.Typ[types.Uint8]), n, n), actOK
	}
	ident := func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) { return a[0], actOK }
	I["internal/abi.NoEscape"] = ident
	I["internal/abi.Escape"] = ident
	I["strings.Clone"] = ident
	I["internal/stringslite.Clone"] = ident
	I["math/big.alias"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		x, y := ex.res(s, a[0]).slice(), ex.res(s, a[1]).slice()
		return vBool(x != nil && y != nil && x.cap > 0 && y.cap > 0 && x.id == y.id), actOK
	}
	// --- sync ---
	I["(*sync.Pool).Get"] = nil
	I["(*sync.Pool).Put"] = nop
	delete(I, "(*sync.Pool).Get")
	atomicAdd := func(w bt) intrinsic {
		return func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
			p := ex.res(s, a[0])
			o := s.get(p.obj())
			v, _ := ex.binop(s, token.ADD, w, w, o.cells[p.off()], a[1])
			s.getw(p.obj()).cells[p.off()] = v
			return v, actOK
		}
	}
	for _, pr := range []string{"sync/atomic.", "internal/runtime/atomic."} {
		I[pr+"AddInt32"] = atomicAdd(bt{'i', 32})
		I[pr+"AddInt64"] = atomicAdd(bt{'i', 64})
		I[pr+"AddUint32"] = atomicAdd(bt{'u', 32})
		I[pr+"AddUint64"] = atomicAdd(bt{'u', 64})
		for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
			I[pr+"Load"+t] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
				p := ex.res(s, a[0])
				return s.get(p.obj()).cells[p.off()], actOK
			}
			I[pr+"Store"+t] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
				p := ex.res(s, a[0])
				s.getw(p.obj()).cells[p.off()] = a[1]
				return Value{}, actOK
			}
			I[pr+"Swap"+t] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
				p := ex.res(s, a[0])
				old := s.get(p.obj()).cells[p.off()]
				s.getw(p.obj()).cells[p.off()] = a[1]
				return old, actOK
			}
			I[pr+"CompareAndSwap"+t] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
				p := ex.res(s, a[0])
				old := ex.conc(s, s.get(p.obj()).cells[p.off()])
				want := ex.conc(s, a[1])
				if sameVal(old, want) {
					s.getw(p.obj()).cells[p.off()] = a[2]
					return vBool(true), actOK
				}
				return vBool(false), actOK
			}
		}
	}
	// --- math/bits (assembly-backed or intrinsic) ---
	b1 := func(f func(uint64) int) intrinsic {
		return func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
			return ex.map1(s, a[0], SBV, func(x uint64) uint64 { return uint64(f(x)) }, nil), actOK
		}
	}
	I["math/bits.OnesCount64"] = b1(bits.OnesCount64)
	I["math/bits.OnesCount"] = b1(bits.OnesCount64)
	I["math/bits.TrailingZeros64"] = b1(bits.TrailingZeros64)
	I["math/bits.TrailingZeros"] = b1(bits.TrailingZeros64)
	I["math/bits.Len64"] = b1(bits.Len64)
	I["math/bits.Len"] = b1(bits.Len64)
	I["math/bits.LeadingZeros64"] = b1(bits.LeadingZeros64)
	_ = big.NewInt
	// --- vsym ---
	const V = "vsym."
	I[V+"Int"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		n, lo, hi := ex.concStr(s, a[0]), ex.concInt(s, a[1]), ex.concInt(s, a[2])
		var vals []uint64
		for i := lo; i <= hi; i++ {
			vals = append(vals, uint64(i))
		}
		return ex.input(n, "i", ex.fdValue("in:"+n, vals, SBV)), actOK
	}
	I[V+"Bool"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		n := ex.concStr(s, a[0])
		return ex.input(n, "b", ex.fdValue("in:"+n, []uint64{0, 1}, SBool)), actOK
	}
	I[V+"Float"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		n := ex.concStr(s, a[0])
		sl := ex.res(s, a[1]).slice()
		var vals []uint64
		for i := 0; i < sl.len; i++ {
			vals = append(vals, s.get(sl.id).cells[sl.off+i].N)
		}
		return ex.input(n, "f", ex.fdValue("in:"+n, vals, SFP)), actOK
	}
	I[V+"AnyFloat"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		n := ex.concStr(s, a[0])
		e := ex.c.Var("in:"+n, SFP, 0)
		if ex.forced {
			return ex.input(n, "f", vFloat(math.Float64frombits(ex.fmodel.val(e.v)))), actOK
		}
		return vSym(e), actOK
	}
	I[V+"AnyInt"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		n, lo, hi := ex.concStr(s, a[0]), ex.concInt(s, a[1]), ex.concInt(s, a[2])
		e := ex.c.RangeVar("in:"+n, 64, lo, hi)
		if ex.forced {
			return ex.input(n, "i", vInt(int64(ex.fmodel.val(e.v)))), actOK
		}
		return vSym(e), actOK
	}
	I[V+"Str"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		n := ex.concStr(s, a[0])
		sl := ex.res(s, a[1]).slice()
		if sl.len == 1 {
			return s.get(sl.id).cells[sl.off], actOK
		}
		v := ex.c.FD("in:"+n, sl.len)
		var gs []*Expr
		var vs []Value
		for i := 0; i < sl.len; i++ {
			gs = append(gs, ex.c.In(v, 1<<uint(i)))
			vs = append(vs, s.get(sl.id).cells[sl.off+i])
		}
		if ex.forced {
			return ex.input(n, "s", vs[ex.fmodel.val(v)]), actOK
		}
		return mkUnion(gs, vs), actOK
	}
	I[V+"Chars"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		n, k, al := ex.concStr(s, a[0]), int(ex.concInt(s, a[1])), ex.concStr(s, a[2])
		var vals []uint64
		for i := 0; i < len(al); i++ {
			vals = append(vals, uint64(al[i]))
		}
		cells := make([]Value, k)
		for i := range cells {
			nm := fmt.Sprintf("%s.%d", n, i)
			cells[i] = ex.fdValue("in:"+nm, vals, SBV)
		}
		r := mkStr(cells)
		if ex.forced {
			ex.input(n, "s", r)
		}
		return r, actOK
	}
	I[V+"Assume"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		e := ex.simp(s, ex.exprOf(a[0], nil))
		ok, m := ex.may(s, e)
		if !ok {
			ex.ends["assumed away"]++
			ex.leaf(s, nil)
			return Value{}, actEnd
		}
		if e != ex.c.T {
			ex.leaf(s, ex.c.Not(e))
		}
		ex.addPC(s, e)
		s.model = m
		return Value{}, actOK
	}
	I[V+"Assert"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		msg := ex.concStr(s, a[1])
		e := ex.simp(s, ex.exprOf(a[0], nil))
		ex.asserts[msg]++
		if e.op == OTrue {
			return Value{}, actOK
		}
		ne := ex.c.Not(e)
		bad, m := ex.mayBad(s, ne)
		if bad {
			ex.violation(s, "assert", msg, ex.where(s), m)
			ok, m2 := ex.may(s, e)
			if !ok {
				ex.endPath(s, "assert failed")
				return Value{}, actEnd
			}
			ex.leaf(s, ne)
			ex.addPC(s, e)
			s.model = m2
		}
		return Value{}, actOK
	}
	I[V+"Cover"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		l := ex.concStr(s, a[0])
		if !ex.covers[l] {
			if ok, _ := ex.may(s, ex.c.T); ok {
				ex.covers[l] = true
			}
		}
		return Value{}, actOK
	}
	I[V+"CoverIf"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		l := ex.concStr(s, a[1])
		if !ex.covers[l] {
			if ok, _ := ex.may(s, ex.exprOf(a[0], nil)); ok {
				ex.covers[l] = true
			}
		}
		return Value{}, actOK
	}
	I[V+"Log"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		l := ex.concStr(s, a[0])
		if ex.forced {
			ex.flogs = append(ex.flogs, l+"="+strings.ReplaceAll(ex.logText(s, a[1]), "\n", "\\n"))
		}
		return Value{}, actOK
	}
	I[V+"Param"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		n := ex.concStr(s, a[0])
		v, ok := ex.cs.params[n]
		if !ok {
			panic(unsupported("case lacks parameter " + n))
		}
		k, err := strconv.Atoi(v)
		if err != nil {
			panic(unsupported("parameter " + n + "=" + v))
		}
		return vInt(int64(k)), actOK
	}
	I[V+"ParamStr"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		return vStr(ex.cs.params[ex.concStr(s, a[0])]), actOK
	}
	I[V+"IsSymbolic"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) { return vBool(true), actOK }
	I[V+"And"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		return boolVal(ex.c.And(ex.exprOf(a[0], nil), ex.exprOf(a[1], nil))), actOK
	}
	I[V+"Or"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		return boolVal(ex.c.Or(ex.exprOf(a[0], nil), ex.exprOf(a[1], nil))), actOK
	}
	I[V+"Implies"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		return boolVal(ex.c.Or(ex.c.Not(ex.exprOf(a[0], nil)), ex.exprOf(a[1], nil))), actOK
	}
	// IteI/IteF select without forking
	ite := func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		v, ok := ex.iteVal(ex.exprOf(a[0], nil), a[1], a[2])
		if !ok {
			panic(unsupported("ite"))
		}
		return v, actOK
	}
	I[V+"IteI"], I[V+"IteF"], I[V+"IteB"], I[V+"IteS"] = ite, ite, ite, ite
	// Same compares floats by value, NaN equal to NaN
	I[V+"Same"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		r := ex.map2(s, a[0], a[1], SFP, SBool, func(x, y uint64) uint64 {
			p, q := math.Float64frombits(x), math.Float64frombits(y)
			return b2u(p == q || p != p && q != q)
		}, func(x, y *Expr) *Expr {
			c := ex.c
			return c.Or(c.app(OFEq, SBool, 0, x, y), c.And(c.Not(c.app(OFEq, SBool, 0, x, x)), c.Not(c.app(OFEq, SBool, 0, y, y))))
		})
		return r, actOK
	}
	I[V+"Conc"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) { return ex.conc(s, a[0]), actOK }
	// path-structure helpers: number of random draws so far
	drw := func(f func(d drawEnt) Value) intrinsic {
		return func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
			i := ex.concInt(s, a[0])
			if i < 0 || int(i) >= len(s.drs) {
				return vInt(-1), actOK
			}
			return f(s.drs[i]), actOK
		}
	}
	I[V+"DrawVal"] = drw(func(d drawEnt) Value { return d.v })
	I[V+"DrawN"] = drw(func(d drawEnt) Value { return d.n })
	I[V+"Repeat"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		s.rep = s.nrnd - int(ex.concInt(s, a[0]))
		return Value{}, actOK
	}
	I[V+"Draws"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) { return vInt(int64(s.nrnd)), actOK }
}

// mayBad is the deciding query of an assertion: it always goes to the solver unless the negated
// assertion is syntactically excluded.
func (ex *Exec) mayBad(s *State, ne *Expr) (bool, *Model) {
	if ex.forced {
		return ex.c.Eval(ne, s.model) != 0, s.model
	}
	if s.model != nil && ex.c.Eval(ne, s.model) != 0 {
		return true, s.model
	}
	r, m := ex.sol.Decide(s.pc, ne, true)
	ex.assertQ++
	switch r {
	case Sat:
		return true, m
	case Unsat:
		return false, nil
	}
	ex.unknowns++
	ex.cut["solver unknown on an assertion"]++
	return false, nil
}

func (ex *Exec) anys(s *State, v Value) []Value {
	sl := ex.res(s, v).slice()
	if sl == nil {
		return nil
	}
	return s.get(sl.id).cells[sl.off : sl.off+sl.len]
}

func (ex *Exec) isTokFloat(s *State, v Value) bool {
	if v.K != KSym || v.e().sort != SFP {
		return false
	}
	return v.e().op != OVSet || ex.cs != nil && ex.cs.tok
}

func (ex *Exec) tokIs(t *TokV, str string) *Expr {
	f, err := strconv.ParseFloat(str, 64)
	if err != nil {
		return ex.c.F
	}
	if !t.flt {
		panic(hasTok{})
	}
	var r Value
	if f != f {
		r = ex.map1(ex.focSt, t.v, SBool, func(x uint64) uint64 { g := math.Float64frombits(x); return b2u(g != g) },
			func(e *Expr) *Expr { return ex.c.Not(ex.c.app(OFEq, SBool, 0, e, e)) })
	} else {
		if strconv.FormatFloat(f, 'g', -1, 64) != str {
			return ex.c.F
		}
		r = ex.floatBin(ex.focSt, token.EQL, bt{'f', 64}, t.v, vFloat(f))
	}
	return ex.exprOf(r, nil)
}

// sprintf implements the verbs used by the code under test on concrete values; floats that are
// symbolic become number tokens (contract: parsing the text of a float gives the float back).
func (ex *Exec) sprintf(s *State, f string, args []Value) Value {
	var cells []Value
	lit := func(t string) {
		for i := 0; i < len(t); i++ {
			cells = append(cells, vUint(uint64(t[i])))
		}
	}
	ai := 0
	for i := 0; i < len(f); {
		if f[i] != '%' {
			lit(f[i : i+1])
			i++
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			lit("%!(NOVERB)")
			break
		}
		verb := f[i : j+1]
		i = j + 1
		if verb == "%%" {
			lit("%")
			continue
		}
		if ai >= len(args) {
			lit("%!" + verb[len(verb)-1:] + "(MISSING)")
			continue
		}
		v := ex.res(s, args[ai])
		ai++
		t, x := ifaceOf(v)
		if t == nil {
			lit(fmt.Sprintf(verb, nil))
			continue
		}
		if x.K == KUnion {
			x = ex.res(s, x)
		}
		plain := len(verb) == 2
		if x.K == KStr && plain && (verb == "%v" || verb == "%s") {
			cells = append(cells, strCells(x)...)
			continue
		}
		if plain && (verb == "%v" || verb == "%g") && ex.isTokFloat(s, x) {
			cells = append(cells, Value{K: KTok, P: &TokV{v: x, flt: true}})
			continue
		}
		lit(fmt.Sprintf(verb, ex.native(s, t, x)))
	}
	if ai < len(args) {
		lit("%!(EXTRA)")
	}
	return mkStr(cells)
}

type opaque string

func (o opaque) String() string { return string(o) }

// native converts an interpreted value to a Go value for formatting.
func (ex *Exec) native(s *State, t types.Type, v Value) any {
	v = ex.res(s, v)
	if st := ex.errText(s, t, v); st != nil {
		return opaque(*st)
	}
	switch v.K {
	case KSym:
		v = ex.conc(s, v)
		return ex.native(s, t, v)
	case KInt:
		b := basicOf(t)
		switch {
		case b.k == 'i' && b.w == 64:
			return int64(v.N)
		case b.k == 'i' && b.w == 32:
			return int32(v.N)
		case b.k == 'i':
			return int64(v.N)
		case b.k == 'u' && b.w == 8:
			return uint8(v.N)
		}
		return v.N
	case KBool:
		return v.N != 0
	case KFloat:
		if basicOf(t).k == 'g' {
			return float32(v.f())
		}
		return v.f()
	case KStr:
		return ex.concStr(s, v)
	case KSlice:
		el := t.Underlying().(*types.Slice).Elem()
		lay := layout(el)
		out := []any{}
		if sl := v.slice(); sl != nil {
			for i := 0; i < sl.len; i++ {
				out = append(out, ex.native(s, el, packCells(s.get(sl.id).cells[sl.off+i*lay.size:sl.off+(i+1)*lay.size], lay)))
			}
		}
		return out
	case KIface:
		if v.P == nil {
			return nil
		}
		return ex.native(s, v.iface().t, v.iface().v)
	}
	return opaque("<" + t.String() + ">")
}

func (ex *Exec) errText(s *State, t types.Type, v Value) *string {
	str := t.String()
	field := func(i int) string {
		c := ex.res(s, s.get(v.obj()).cells[v.off()+i])
		if c.K == KStr {
			return ex.concStr(s, c)
		}
		return "?"
	}
	switch str {
	case "*errors.errorString", "*fmt.wrapError":
		r := field(0)
		return &r
	case "*strconv.NumError":
		r := "strconv." + field(0) + ": parsing " + strconv.Quote(field(1)) + ": error"
		return &r
	case "time.Duration", "time.Time", "*encoding/csv.ParseError", "*os.PathError", "*io/fs.PathError":
		r := "<" + str + ">"
		return &r
	}
	return nil
}

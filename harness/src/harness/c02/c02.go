// Package c02 checks that splits partition their cases.
package c02

import (
	"math"
	"math/big"

	CF "github.com/ryanbressler/CloudForest"
	. "hlib"
	"vsym"
)

// lists of case indexes, with repeats and out of order
var lists = [][]int{
	{},
	{1},
	{0, 1, 2, 3},
	{2, 0, 2, 1, 3},
	{3, 1, 0, 2, 1, 4},
	{4, 4, 0, 5, 2, 1, 3},
	{1, 1, 1, 0},
}

const nrows = 6

// class: 0 left, 1 right, 2 missing
func verify(what string, orig, after, l, r, m []int, class []int) {
	vsym.Assert(len(l)+len(r)+len(m) == len(orig), what+": not every case is in exactly one part")
	ok := true
	for _, c := range l {
		ok = vsym.And(ok, class[c] == 0)
	}
	vsym.Assert(ok, what+": wrong case on the left")
	ok = true
	for _, c := range r {
		ok = vsym.And(ok, class[c] == 1)
	}
	vsym.Assert(ok, what+": wrong case on the right")
	ok = true
	for _, c := range m {
		ok = vsym.And(ok, class[c] == 2)
	}
	vsym.Assert(ok, what+": wrong case among the missing")
	vsym.Assert(len(after) == len(orig), what+": length of the case list changed")
	for k := range class {
		vsym.Assert(Count(after, k) == Count(orig, k), what+": the case list is no longer a permutation")
		vsym.Assert(Count(l, k)+Count(r, k)+Count(m, k) == Count(orig, k), what+": a case was lost or duplicated")
	}
}

func all(f CF.Feature, fm *CF.FeatureMatrix, coded interface{}, list []int, class []int) {
	c1 := append([]int{}, list...)
	l, r, m := f.Split(coded, c1)
	verify("Split", list, c1, l, r, m, class)
	c2 := append([]int{}, list...)
	a, b := f.SplitPoints(coded, &c2)
	vsym.Assert(0 <= a && a <= b && b <= len(c2), "SplitPoints: points out of order")
	verify("SplitPoints", list, c2, c2[:a], c2[b:], c2[a:b], class)
	c3 := append([]int{}, list...)
	s := f.DecodeSplit(coded)
	l, r, m = s.Split(fm, c3)
	verify("Splitter.Split", list, c3, l, r, m, class)
	vsym.Log("left", l)
	vsym.Log("right", r)
}

// NumSplit splits by a threshold.
//
//gosym: C02 quick list=0..4 nomerge
//gosym: C02 quick list=6 nomerge
//gosym: C02 thorough list=5 nomerge
func NumSplit() {
	list := lists[vsym.Param("list")]
	f := Num("f", nrows, []float64{0, 2, -3}, true)
	other := NumOf("o", 1, 1, 1, 1, 1, 1)
	thr := vsym.Float("thr", 0, 2, math.Inf(-1))
	class := make([]int, nrows)
	for i := range class {
		class[i] = vsym.IteI(f.Missing[i], 2, vsym.IteI(f.NumData[i] <= thr, 0, 1))
	}
	all(f, FM(Labels(nrows), other, f), thr, list, class)
}

// AnyThreshold splits arbitrary float values by an arbitrary threshold.
//
//gosym: C02 quick n=2 nomerge
//gosym: C02 thorough n=3 nomerge
func AnyThreshold() {
	n := vsym.Param("n")
	f := NumOf("f", make([]float64, nrows)...)
	thr := vsym.AnyFloat("thr")
	vsym.Assume(thr == thr)
	for i := 0; i < n; i++ {
		f.NumData[i] = vsym.AnyFloat("v" + Itoa(i))
		vsym.Assume(f.NumData[i] == f.NumData[i])
	}
	class := make([]int, nrows)
	for i := range class {
		class[i] = vsym.IteI(f.NumData[i] <= thr, 0, 1)
	}
	all(f, FM(Labels(nrows), f), thr, Seq(n), class)
}

// CatSplit splits by a set of categories coded in a machine integer or a big integer.
//
//gosym: C02 quick list=0..3 nc=3 big=0..1 nomerge
//gosym: C02 quick list=6 nc=3 big=0..1 nomerge
//gosym: C02 thorough list=4..5 nc=3 big=0..1 nomerge
//gosym: C02 thorough list=3 nc=4 big=0..1 nomerge
func CatSplit() {
	list := lists[vsym.Param("list")]
	nc := vsym.Param("nc")
	f := Cat("f", nrows, nc, true)
	other := NumOf("o", 1, 1, 1, 1, 1, 1)
	mask := 0
	set := make([]bool, nc)
	for k := 0; k < nc; k++ {
		if vsym.Bool("left" + Itoa(k)) {
			mask |= 1 << uint(k)
			set[k] = true
		}
	}
	class := make([]int, nrows)
	for i := range class {
		class[i] = vsym.IteI(f.Missing[i], 2, vsym.IteI(set[f.CatData[i]], 0, 1))
	}
	var coded interface{} = mask
	if vsym.Param("big") == 1 {
		coded = big.NewInt(int64(mask))
	}
	all(f, FM(Labels(nrows), other, f), coded, list, class)
}

// ManyCats uses category codes beyond 31 and 63.
//
//gosym: C02 quick nc=60 big=0 nomerge
//gosym: C02 quick nc=60 big=1 nomerge
//gosym: C02 quick nc=70 big=1 nomerge
func ManyCats() {
	nc := vsym.Param("nc")
	f := EmptyCat("f", nrows, nc)
	codes := []int{0, 31, nc - 1, 32}
	b := big.NewInt(0)
	left := map[int]bool{}
	for _, c := range codes {
		if vsym.Bool("left" + Itoa(c)) {
			b.SetBit(b, c, 1)
			left[c] = true
		}
	}
	class := make([]int, nrows)
	for i := 0; i < 3; i++ {
		f.CatData[i] = codes[vsym.Conc(vsym.Int("v"+Itoa(i), 0, 3))]
		class[i] = 1
		if left[f.CatData[i]] {
			class[i] = 0
		}
	}
	var coded interface{} = b
	if vsym.Param("big") == 0 {
		coded = int(b.Int64())
	}
	all(f, FM(Labels(nrows), f), coded, []int{2, 0, 1}, class)
}

// Long splits a list of many cases, some of them twice.
//
//gosym: C02 quick kind=num n=50 k=3 nomerge
//gosym: C02 quick kind={cat|big} n=40 k=1 nomerge
//gosym: C02 thorough kind=num n=120 k=4 nomerge
//gosym: C02 thorough kind={cat|big} n=90 k=2 nomerge
func Long() {
	n, k := vsym.Param("n"), vsym.Param("k")
	list := append(Scramble(1, n, n), n-1, 0, n/2)
	class := make([]int, n)
	if vsym.ParamStr("kind") == "num" {
		f := ManyNum("f", 1, n, 30, k, []float64{0, 14, 15, 29}, true)
		thr := vsym.Float("thr", 14, 0, -1, 29)
		for i := range class {
			class[i] = vsym.IteI(f.Missing[i], 2, vsym.IteI(f.NumData[i] <= thr, 0, 1))
		}
		all(f, FM(Labels(n), f), thr, list, class)
		return
	}
	nc := 40
	f := ManyCat("f", 1, n, nc, nc, k, true)
	set := make([]bool, nc)
	b := big.NewInt(0)
	for _, c := range Scramble(2, nc/2, nc) {
		set[c] = true
	}
	for _, c := range []int{31, 39} {
		set[c] = vsym.Bool("left" + Itoa(c))
	}
	for c := range set {
		if set[c] {
			b.SetBit(b, c, 1)
		}
	}
	for i := range class {
		class[i] = vsym.IteI(f.Missing[i], 2, vsym.IteI(set[vsym.Conc(f.CatData[i])], 0, 1))
	}
	var coded interface{} = b
	if vsym.ParamStr("kind") == "cat" {
		coded = int(b.Int64())
	}
	all(f, FM(Labels(n), f), coded, list, class)
}

// Package c20 checks shuffling and artificial contrasts.
package c20

import (
	"math"

	CF "github.com/ryanbressler/CloudForest"
	. "hlib"
	"vsym"
)

// made makes a feature with distinct values and symbolic missing marks.
func made(kind string, n int) CF.Feature {
	miss := make([]bool, n)
	has := false
	for i := range miss {
		if n > 10 && i != n/3 {
			miss[i] = i%4 == 0
		} else {
			miss[i] = vsym.Bool("m" + Itoa(i))
		}
		has = vsym.Or(has, miss[i])
	}
	if kind == "num" {
		f := &CF.DenseNumFeature{Name: "f", Missing: miss, HasMissing: has}
		for i := range miss {
			f.NumData = append(f.NumData, float64(10+i))
		}
		return f
	}
	f := EmptyCat("f", n, n)
	for i := range miss {
		f.CatData[i] = i
	}
	f.Missing, f.HasMissing = miss, has
	return f
}

// id is the number of the case whose value is at position i, or n for another value.
func id(f CF.Feature, i, n int) int {
	if g, ok := f.(*CF.DenseNumFeature); ok {
		k := n
		for j := 0; j < n; j++ {
			k = vsym.IteI(g.NumData[i] == float64(10+j), j, k)
		}
		return k
	}
	return f.(*CF.DenseCatFeature).CatData[i]
}

// permuted checks that the positions in at hold each other's values with their marks.
func permuted(f, old CF.Feature, n int, at []int) {
	vsym.Assert(f.Length() == n && f.MissingVals() == old.MissingVals(), "shuffling changes the length or the missing flag")
	for i := 0; i < n; i++ {
		moved := Count(at, i) > 0
		k := id(f, i, n)
		if n < 10 {
			vsym.Log("id", k)
		}
		vsym.Assert(k >= 0 && k < n, "a value is lost")
		if !moved {
			vsym.Assert(k == i, "a value outside of the selected positions moved")
		}
		holders := 0
		for j := 0; j < n; j++ {
			holders += vsym.IteI(id(f, j, n) == i, 1, 0)
			vsym.Assert(vsym.Implies(k == j, f.IsMissing(i) == old.IsMissing(j)), "a missing mark is parted from its value")
		}
		vsym.Assert(holders == 1, "a value is lost or doubled")
	}
}

func identical(f, g CF.Feature, n int) bool {
	eq := true
	for i := 0; i < n; i++ {
		eq = vsym.And(eq, id(f, i, n) == id(g, i, n))
	}
	return eq
}

// draws checks that the draws since d number as many as there are ways to order m times k positions.
func draws(d, k, m int) {
	orders, ways := 1, 1
	for i := 2; i <= k; i++ {
		for j := 0; j < m; j++ {
			orders *= i
		}
	}
	for i := d; i < vsym.Draws(); i++ {
		ways *= vsym.DrawN(i)
	}
	vsym.Assert(ways == orders, "there are more or fewer draws than orders")
}

// distinct checks that equal outcomes of two runs come from equal draws.
func distinct(eq bool, d1, d2, d3 int) {
	vsym.Assert(d2-d1 == d3-d2, "the number of draws depends on the draws")
	for i := d1; i < d2; i++ {
		vsym.Assert(vsym.Implies(eq, vsym.DrawVal(i) == vsym.DrawVal(i+d2-d1)), "two sequences of draws lead to one order, so orders aren't equally likely")
	}
}

// All shuffles a whole feature, twice.
//
//gosym: C20 quick kind={num|cat} n=0..3
//gosym: C20 thorough kind={num|cat} n=4
func All() {
	n := vsym.Param("n")
	f := made(vsym.ParamStr("kind"), n)
	old := f.Copy()
	g := f.Copy()
	d1 := vsym.Draws()
	f.Shuffle()
	d2 := vsym.Draws()
	permuted(f, old, n, Seq(n))
	draws(d1, n, 1)
	g.Shuffle()
	distinct(identical(f, g, n), d1, d2, vsym.Draws())
}

var lists = [][]int{{}, {1}, {2, 0}, {0, 1, 2}, {3, 1, 2}, {3, 0, 2, 1}, {1, 1, 2}, {0, 2, 0, 2}}

// Cases shuffles selected cases of a feature. The first lists lack repeats.
//
//gosym: C20 quick kind={num|cat} n=4 list=0..4 nomerge
//gosym: C20 quick kind={num|cat} n=3 list=6..7 nomerge
//gosym: C20 thorough kind={num|cat} n=4 list=5 nomerge
func Cases() {
	n := vsym.Param("n")
	list := lists[vsym.Param("list")]
	f := made(vsym.ParamStr("kind"), n)
	old := f.Copy()
	g := f.Copy()
	a := Allocs(n, NumOf("t", make([]float64, n)...))
	cases := append([]int{}, list...)
	d1 := vsym.Draws()
	f.ShuffleCases(&cases, a)
	d2 := vsym.Draws()
	permuted(f, old, n, list)
	for i := 0; i < n; i++ {
		vsym.Assert(Count(cases, i) == Count(list, i), "the list of cases changes")
	}
	if vsym.Param("list") > 5 {
		return
	}
	draws(d1, len(list), 1)
	g.ShuffleCases(&cases, a)
	distinct(identical(f, g, n), d1, d2, vsym.Draws())
}

// Contrasts adds shuffled copies of features to a matrix.
//
//gosym: C20 quick n=2 add=-1..2 nomerge
//gosym: C20 thorough n=3 add=-1..1 nomerge
func Contrasts() {
	n := vsym.Param("n")
	a, b := made("num", n).(*CF.DenseNumFeature), made("cat", n).(*CF.DenseCatFeature)
	a.Name, b.Name = "N:a", "C:b"
	fm := FM(Labels(n), a, b)
	ka, kb := a.Copy(), b.Copy()
	real := []CF.Feature{a, b}
	keep := []CF.Feature{ka, kb}
	add := vsym.Param("add")
	d := vsym.Draws()
	if add < 0 { // all
		fm.ContrastAll()
		add = 2
		draws(d, n, 2)
	} else {
		fm.AddContrasts(add)
	}
	vsym.Assert(len(fm.Data) == 2+add, "there is another number of features")
	for j, f := range real {
		vsym.Assert(fm.Data[j] == f && f.GetName() == keep[j].GetName(), "an original feature moved")
		vsym.Assert(f.MissingVals() == keep[j].MissingVals() && f.NCats() == keep[j].NCats(), "an original feature changed")
		at, ok := fm.Map[f.GetName()]
		vsym.Assert(ok && at == j, "an original feature isn't found")
		for i := 0; i < n; i++ {
			vsym.Assert(id(f, i, n) == i && f.IsMissing(i) == keep[j].IsMissing(i), "an original feature changed")
		}
	}
	for j := 2; j < len(fm.Data); j++ {
		f := fm.Data[j]
		at, ok := fm.Map[f.GetName()]
		vsym.Assert(ok && fm.Data[at].GetName() == f.GetName() && at >= 2, "a contrast isn't found by its name")
		from := -1
		for k, g := range keep {
			if f.GetName() == g.GetName()+":SHUFFLED" {
				from = k
			}
		}
		vsym.Assert(from >= 0, "a contrast isn't called after its source")
		vsym.Assert(vsym.Param("add") >= 0 || from == j-2, "a feature has no contrast")
		permuted(f, keep[from], n, Seq(n))
		vsym.Assert(f.NCats() == keep[from].NCats(), "a contrast has other categories")
	}
}

// Source: the feature to be contrasted is a uniform choice.
//
//gosym: C20 quick fs=1..3 nomerge
func Source() {
	fs := vsym.Param("fs")
	run := func() (int, int) {
		fm := &CF.FeatureMatrix{Map: map[string]int{}, CaseLabels: Labels(1)}
		for j := 0; j < fs; j++ {
			f := NumOf("N:"+Itoa(j), float64(j))
			fm.Map[f.Name] = j
			fm.Data = append(fm.Data, f)
		}
		d := vsym.Draws()
		fm.AddContrasts(1)
		ways := 1
		for i := d; i < vsym.Draws(); i++ {
			ways *= vsym.DrawN(i)
		}
		vsym.Assert(ways == fs, "the choice doesn't range over all features")
		return d, int(fm.Data[fs].(*CF.DenseNumFeature).NumData[0])
	}
	d1, a := run()
	d2, b := run()
	for i := d1; i < d2; i++ {
		vsym.Assert(vsym.Implies(a == b, vsym.DrawVal(i) == vsym.DrawVal(i+d2-d1)), "two draws choose one feature")
	}
}

// Large features are shuffled with fixed draws after the first.
//
//gosym: C20 quick n=30 free=1 nomerge
//gosym: C20 thorough n=60 free=2 nomerge
func Large() {
	n := vsym.Param("n")
	for _, kind := range []string{"num", "cat"} {
		f := made(kind, n)
		old := f.Copy()
		d := vsym.Draws()
		f.Shuffle()
		permuted(f, old, n, Seq(n))
		ways(d, n)
		f = old.Copy()
		a := Allocs(n, NumOf("t", make([]float64, n)...))
		list := []int{}
		for i := 0; i < n; i += 2 {
			list = append(list, n-1-i)
		}
		cases := append([]int{}, list...)
		d = vsym.Draws()
		f.ShuffleCases(&cases, a)
		permuted(f, old, n, list)
		ways(d, len(list))
	}
}

// ways checks that the draws since d have as many outcomes as there are orders of n.
func ways(d, n int) {
	want, got := 0.0, 0.0
	for i := 2; i <= n; i++ {
		want += math.Log(float64(i))
	}
	for i := d; i < vsym.Draws(); i++ {
		got += math.Log(float64(vsym.DrawN(i)))
	}
	vsym.Assert(Near(want, got), "there are more or fewer draws than orders")
}

// Package c05 checks that missing values stay out of the split search.
package c05

import (
	CF "github.com/ryanbressler/CloudForest"
	. "hlib"
	"vsym"
)

const minImp = 1e-7

var lists = [][]int{{0, 1, 2}, {3, 1, 0, 2}, {0, 1, 1, 2, 2}, {4, 2, 0, 1, 3}}

func rows(list []int) int {
	n := 0
	for _, c := range list {
		n = max(n, c+1)
	}
	return n
}

// run searches f and a twin that differs behind the missing entries.
func run(f, twin CF.Feature, t *Targ, list []int, leaf int) {
	a := Allocs(len(list)+1, t.Target)
	Warm(a, len(list)+1) // those for the twin are fresh
	cases := append([]int{}, list...)
	parent := t.Impurity(&cases, a.Counter)
	c1, d1, k1 := f.BestSplit(t.Target, &cases, parent, leaf, false, a)
	for k := 0; k < rows(list); k++ {
		vsym.Assert(Count(cases, k) == Count(list, k), "the case list is no longer a permutation")
	}
	cases = append([]int{}, list...)
	b := Allocs(len(list)+1, t.Target)
	c2, d2, k2 := twin.BestSplit(t.Target, &cases, parent, leaf, false, b)
	vsym.Assert(vsym.Same(d1, d2), "the decrease depends on values behind missing entries")
	vsym.Assert(k1 == k2, "constancy depends on values behind missing entries")
	if len(list) < 10 {
		vsym.Log("dec", d1)
	}
	anyPresent := false
	for _, c := range list {
		anyPresent = vsym.Or(anyPresent, !f.IsMissing(c))
	}
	if !anyPresent {
		vsym.Assert(d1 <= minImp, "a split was reported though all cases are missing")
		return
	}
	if d1 > minImp {
		l, r, m := f.Split(c1, append([]int{}, list...))
		for _, c := range l {
			vsym.Assert(!f.IsMissing(c), "a missing case went left")
		}
		for _, c := range r {
			vsym.Assert(!f.IsMissing(c), "a missing case went right")
		}
		vsym.Assert(len(l) >= leaf && len(r) >= leaf, "a side is smaller than leafSize")
		vsym.Assert(Near(d1, Dec(t, list, l, r, m)), "the reported decrease does not charge the missing cases as a third branch")
		if len(m) > 0 {
			vsym.Cover("missing")
		}
		l2, r2, m2 := twin.Split(c2, append([]int{}, list...))
		vsym.Assert(len(l) == len(l2) && len(r) == len(r2) && len(m) == len(m2), "the split depends on values behind missing entries")
		for k := 0; k < rows(list); k++ {
			vsym.Assert(Count(l, k) == Count(l2, k) && Count(r, k) == Count(r2, k), "the split depends on values behind missing entries")
		}
	}
}

// Num has a numeric feature.
//
//gosym: C05 quick list=0 leaf=1 t={num|cat|l1|entropy|regret|wrf} nomerge covers=missing
//gosym: C05 quick list=1 leaf=1..2 t={num|cat} nomerge
//gosym: C05 quick list=2 leaf=1..2 t={num|cat} nomerge covers=missing
//gosym: C05 thorough list=1 leaf=1 t={l1|ord|entropy|dentropy|wrf|regret|np|ada|adacost|numada} nomerge covers=missing
//gosym: C05 thorough list=3 leaf=1..2 t={num|cat} nomerge covers=missing
func NumFeature() {
	list := lists[vsym.Param("list")]
	n := rows(list)
	f := Num("f", n, []float64{0, 1, 2}, true)
	twin := &CF.DenseNumFeature{NumData: make([]float64, n), Missing: append([]bool{}, f.Missing...), Name: "f", HasMissing: f.HasMissing}
	for i := 0; i < n; i++ {
		twin.NumData[i] = vsym.IteF(f.Missing[i], 100, f.NumData[i])
	}
	t := Target(vsym.ParamStr("t"), n, []float64{-1, 2}, 2)
	run(f, twin, t, list, vsym.Param("leaf"))
}

// Cat has a categorical feature.
//
//gosym: C05 quick list=0..1 nc=2..3 leaf=1 t={num|cat} nomerge covers=missing
//gosym: C05 quick list=2 nc=2..3 leaf=1..2 t={num|cat} nomerge
//gosym: C05 quick list=0 nc={6|31} leaf=1 t={num|cat} nomerge covers=missing
//gosym: C05 quick list=1 nc={6|31} leaf=1 t={num|cat} nomerge covers=missing
//gosym: C05 thorough list=1 nc=3 leaf=1 t={l1|ord|entropy|dentropy|wrf|regret|np|ada|adacost|numada} nomerge covers=missing
//gosym: C05 thorough list=1 nc={6|31} leaf=2 t={num|cat} nomerge
func CatFeature() {
	list := lists[vsym.Param("list")]
	n := rows(list)
	nc := vsym.Param("nc")
	f := EmptyCat("f", n, nc)
	used := min(nc, 3)
	twin := EmptyCat("f", n, nc)
	for i := 0; i < n; i++ {
		f.CatData[i] = nc - used + vsym.Int("f."+Itoa(i), 0, used-1)
		f.Missing[i] = vsym.Bool("f.m" + Itoa(i))
		f.HasMissing = vsym.Or(f.HasMissing, f.Missing[i])
		twin.CatData[i] = vsym.IteI(f.Missing[i], 0, f.CatData[i])
		twin.Missing[i] = f.Missing[i]
	}
	twin.HasMissing = f.HasMissing
	t := Target(vsym.ParamStr("t"), n, []float64{-1, 2}, 2)
	run(f, twin, t, list, vsym.Param("leaf"))
}

// Filter keeps the cases that are not missing, in order.
//
//gosym: C05 quick list=0..3
func Filter() {
	list := lists[vsym.Param("list")]
	n := rows(list)
	num, cat := Num("f", n, []float64{0, 1}, true), EmptyCat("c", n, 2)
	copy(cat.Missing, num.Missing)
	a, b := []int{7}, []int{7}
	num.FilterMissing(&list, &a)
	cat.FilterMissing(&list, &b)
	want := []int{7}
	for _, c := range list {
		if !num.Missing[c] {
			want = append(want, c)
		}
	}
	vsym.Assert(len(a) == len(want) && len(b) == len(want), "not just the missing cases are left out")
	for i := range want {
		vsym.Assert(a[i] == want[i] && b[i] == want[i], "not just the missing cases are left out")
	}
}

// Long has many cases, few of them symbolic.
//
//gosym: C05 quick kind={num|cat} n=25 leaf={1|3} t={num|cat} k=2 nomerge covers=missing
//gosym: C05 thorough kind={num|cat} n=60 leaf={1|8} t={num|cat|l1|entropy|regret|ada|np|wrf} k=2 nomerge covers=missing
func Long() {
	n, k := vsym.Param("n"), vsym.Param("k")
	list := append(Scramble(5, n, n), Seq(n)...)
	t := ManyTarget(vsym.ParamStr("t"), n, 1, 3)
	if vsym.ParamStr("kind") == "num" {
		f := ManyNum("f", 1, n, 12, k, []float64{0, 5}, true)
		twin := &CF.DenseNumFeature{NumData: make([]float64, n), Missing: append([]bool{}, f.Missing...), Name: "f", HasMissing: f.HasMissing}
		for i := 0; i < n; i++ {
			twin.NumData[i] = vsym.IteF(f.Missing[i], -3, f.NumData[i])
		}
		run(f, twin, t, list, vsym.Param("leaf"))
		return
	}
	f := ManyCat("f", 1, n, 12, 6, k, true)
	twin := EmptyCat("f", n, 12)
	for i := 0; i < n; i++ {
		twin.CatData[i] = vsym.IteI(f.Missing[i], 0, f.CatData[i])
		twin.Missing[i] = f.Missing[i]
	}
	twin.HasMissing = f.HasMissing
	run(f, twin, t, list, vsym.Param("leaf"))
}

// Package c03 checks the search for a numeric split.
package c03

import (
	"math"

	CF "github.com/ryanbressler/CloudForest"
	. "hlib"
	"vsym"
)

const cut = 1e-7 // smallest decrease and smallest gap between values the search accepts

// check runs the search on the cases of list and compares it with every threshold.
func check(n int, pal []float64, list []int, t *Targ, leafSize int, random bool) {
	search(Num("f", n, pal, false), n, list, t, leafSize, random)
}

func search(f *CF.DenseNumFeature, n int, list []int, t *Targ, leafSize int, random bool) {
	a := Allocs(len(list)+1, t.Target)
	if leafSize%2 == 1 {
		Warm(a, len(list)+1)
	}
	cases := append([]int{}, list...)
	if leafSize%2 == 1 { // the same cases have been split by another feature
		d, v := make([]float64, n), make([]float64, n)
		for i := range d {
			d[i], v[i] = float64(i*7%5), float64(i*3%4)
		}
		NumOf("d", d...).BestNumSplit(NumOf("v", v...), &cases, 9, 1, false, a)
	}
	parent := t.Impurity(&cases, a.Counter)
	coded, dec, constant := f.BestNumSplit(t.Target, &cases, parent, leafSize, random, a)
	for k := 0; k < n; k++ {
		vsym.Assert(Count(cases, k) == Count(list, k), "the case list is no longer a permutation")
	}
	if constant {
		lo, hi := math.Inf(1), math.Inf(-1)
		for _, c := range list {
			lo = math.Min(lo, f.NumData[c])
			hi = math.Max(hi, f.NumData[c])
		}
		vsym.Assert(hi <= lo+2*cut, "a feature that is not constant was called constant")
	}
	if dec > cut {
		vsym.Assert(!constant, "a split was reported together with constant")
		l, r, m := f.Split(coded, append([]int{}, list...))
		vsym.Assert(len(m) == 0, "cases called missing")
		vsym.Assert(len(l) >= leafSize && len(r) >= leafSize, "a side is smaller than leafSize")
		vsym.Assert(Near(dec, Dec(t, list, l, r, nil)), "the reported decrease is not the one of the returned split")
		vsym.Cover("split")
	}
	if len(list) < 20 {
		vsym.Log("dec", dec)
	}
	if random {
		return
	}
	// every threshold: x <= value of some case goes left
	for _, c := range list {
		thr := f.NumData[c]
		var l, r []int
		next := math.Inf(1)
		for _, d := range list {
			if f.NumData[d] <= thr {
				l = append(l, d)
			} else {
				r = append(r, d)
				next = math.Min(next, f.NumData[d])
			}
		}
		if len(l) < leafSize || len(r) < leafSize || next <= thr+1.5*cut {
			continue
		}
		best := Dec(t, list, l, r, nil)
		// NaN (no defined impurity) cannot win
		if best > cut*(1+1e-6) {
			vsym.Assert(dec > cut, "an admissible split was not reported")
			vsym.Assert(dec >= best-1e-9, "another admissible threshold is better")
		}
	}
}

var lists = [][]int{{0, 1}, {0, 1, 2}, {3, 1, 0, 2}, {0, 1, 1, 2, 2}, {4, 2, 0, 1, 3}}

// Num searches with a numeric target.
//
//gosym: C03 quick list=0..3 leaf=1..2 t={num|l1|ord} pal=4 nomerge
//gosym: C03 thorough list=2..3 leaf=1..2 t={numada|gradboost} pal=4 nomerge
//gosym: C03 thorough list=4 leaf=1..2 t={num|l1} pal=3 nomerge
func NumTarget() {
	list := lists[vsym.Param("list")]
	n := rows(list)
	t := Target(vsym.ParamStr("t"), n, []float64{0, 1, -3}, 0)
	check(n, []float64{0, 1, 2.5, -4}[:min(n, vsym.Param("pal"))], list, t, vsym.Param("leaf"), false)
}

func rows(list []int) int {
	n := 0
	for _, c := range list {
		n = max(n, c+1)
	}
	return n
}

// Cat searches with a categorical target.
//
//gosym: C03 quick list=0..3 leaf=1..2 t={cat|entropy|regret} pal=4 nomerge
//gosym: C03 thorough list=3 leaf=1..2 t={dentropy|wrf|np|ada|adacost|hdist} pal=4 nomerge
//gosym: C03 thorough list=4 leaf=1..2 t={cat|entropy|regret} pal=3 nomerge
func CatTarget() {
	list := lists[vsym.Param("list")]
	n := rows(list)
	t := Target(vsym.ParamStr("t"), n, nil, 2)
	check(n, []float64{0, 1, 2.5, -4}[:min(n, vsym.Param("pal"))], list, t, vsym.Param("leaf"), false)
}

// Random searches a random position.
//
//gosym: C03 quick list=1..3 leaf=1..2 t={num|cat} nomerge
func Random() {
	list := lists[vsym.Param("list")]
	n := rows(list)
	t := Target(vsym.ParamStr("t"), n, []float64{-1, 2}, 2)
	check(n, []float64{0, 1, 2.5, -4}[:min(n, 4)], list, t, vsym.Param("leaf"), true)
}

var odd = [][]float64{
	{0, 6e-8, 1.2e-7, 1.9e-7},
	{1e9, math.Nextafter(1e9, 2e9), 0},
	{math.MaxFloat64, math.MaxFloat64 / 2, math.MaxFloat64 / 4},
	{math.Inf(1), math.Inf(-1), 0},
	{math.Inf(-1), -math.MaxFloat64, math.MaxFloat64},
}

// Odd has near ties, adjacent, huge and infinite values.
//
//gosym: C03 quick pal=0..4 list=2 leaf=1 t={num|cat} nomerge
//gosym: C03 thorough pal=0..4 list=3 leaf=1..2 t={num|cat} nomerge
func Odd() {
	list := lists[vsym.Param("list")]
	n := rows(list)
	t := Target(vsym.ParamStr("t"), n, []float64{-1, 2}, 2)
	check(n, odd[vsym.Param("pal")], list, t, vsym.Param("leaf"), false)
}

// Long searches many cases, with ties (m=9) or without, few values symbolic.
//
//gosym: C03 quick n={20|45} m={9|10000} leaf={1|4} t={num|cat} k=2 nomerge
//gosym: C03 quick n=30 m=9 leaf=3 t={l1|ord|numada|gradboost|entropy|dentropy|wrf|regret|np|ada|adacost|hdist} k=1 nomerge
//gosym: C03 thorough n={64|110} m={9|10000} leaf={1|9} t={num|cat|entropy|l1} k=2 nomerge
func Long() {
	n, m, k := vsym.Param("n"), vsym.Param("m"), vsym.Param("k")
	f := ManyNum("f", 1, n, m, k, []float64{0, 4, float64(m)}, false)
	list := Seq(n)
	for i, j := range Scramble(5, n, n) {
		list[i], list[j] = list[j], list[i]
	}
	list = append(list, list[3], list[n/2])
	search(f, n, list, ManyTarget(vsym.ParamStr("t"), n, k, 3), vsym.Param("leaf"), false)
}

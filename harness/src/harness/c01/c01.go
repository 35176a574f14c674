// Package c01 checks sortby.SortBy.
package c01

import (
	"math"
	"strconv"

	CF "github.com/ryanbressler/CloudForest"
	"github.com/ryanbressler/CloudForest/sortby"
	. "hlib"
	"vsym"
)

var palette = []float64{1, 0, -2.5, math.Inf(1), math.MaxFloat64, math.Inf(-1)}

// check sorts a copy of (ids, orig) and asserts the contract; the first n of len(orig) entries
// are to be sorted.
func check(orig []float64, n int) {
	vals := make([]float64, len(orig))
	copy(vals, orig)
	cases := make([]int, n)
	for i := range cases {
		cases[i] = i
	}
	sortby.SortBy(&cases, &vals)
	vsym.Assert(len(cases) == n && len(vals) == len(orig), "lengths unchanged")
	asc := true
	for i := 1; i < n; i++ {
		asc = vsym.And(asc, vals[i-1] <= vals[i])
	}
	vsym.Assert(asc, "values ascending")
	pair := true
	for i := 0; i < n; i++ {
		c := cases[i]
		vsym.Assert(c >= 0 && c < n, "case id invented")
		pair = vsym.And(pair, vals[i] == orig[c])
	}
	vsym.Assert(pair, "a value left its case")
	// permutation: every id appears exactly once
	perm := true
	for k := 0; k < n; k++ {
		cnt := 0
		for i := 0; i < n; i++ {
			cnt += vsym.IteI(cases[i] == k, 1, 0)
		}
		perm = vsym.And(perm, cnt == 1)
	}
	vsym.Assert(perm, "the case list is no longer a permutation")
	rest := true
	for i := n; i < len(orig); i++ {
		rest = vsym.And(rest, vals[i] == orig[i])
	}
	vsym.Assert(rest, "a value beyond the sorted section moved")
	vsym.Log("vals", vals)
	vsym.Log("cases", cases)
}

// Small sorts n values drawn from the first k palette values, with extra values behind; up to 7
// values are sorted by insertion.
//
//gosym: C01 quick n=0..7 k=3 extra=1
//gosym: C01 thorough n=5..7 k=6 extra=2
func Small() {
	n, k, extra := vsym.Param("n"), vsym.Param("k"), vsym.Param("extra")
	orig := make([]float64, n+extra)
	for i := range orig {
		orig[i] = vsym.Float("v"+strconv.Itoa(i), palette[:k]...)
	}
	check(orig, n)
}

// Free sorts n arbitrary (non-NaN) float64 values.
//
//gosym: C01 quick n=2..3
//gosym: C01 thorough n=4
func Free() {
	n := vsym.Param("n")
	orig := make([]float64, n)
	for i := range orig {
		orig[i] = vsym.AnyFloat("v" + strconv.Itoa(i))
		vsym.Assume(orig[i] == orig[i])
	}
	check(orig, n)
}

// Pivot reaches the quicksort partition.
//
//gosym: C01 quick n=8..10 k=2 extra=0 nomerge
//gosym: C01 quick n=8 k=3 extra=0 nomerge
//gosym: C01 thorough n=11..12 k=2 extra=2 nomerge
//gosym: C01 thorough n=9 k=3 extra=0 nomerge
//gosym: C01 thorough n=8 k=4 extra=0 nomerge budget=1500
func Pivot() { Small() }

// killer sequences (McIlroy's adversary run against this quicksort): the values above the
// threshold are reached only by the heapsort fallback.
var killer = map[int][]float64{
	32: {0, 16, 2, 24, 4, 18, 6, 25, 8, 20, 10, 26, 12, 22, 14, 27, 1, 3, 5, 7, 9, 11, 13, 15, 17, 19, 21, 23, 28, 29, 30, 31},
	36: {0, 18, 2, 24, 4, 20, 6, 25, 8, 22, 10, 26, 12, 27, 14, 28, 16, 29, 1, 3, 5, 7, 9, 11, 13, 15, 17, 19, 21, 23, 30, 31, 32, 33, 34, 35},
	40: {0, 20, 2, 24, 4, 22, 6, 25, 8, 26, 10, 27, 12, 28, 14, 29, 16, 30, 18, 31, 1, 3, 5, 7, 9, 11, 13, 15, 17, 19, 21, 23, 32, 33, 34, 35, 36, 37, 38, 39},
}

// Heap reaches the heapsort fallback: the values left when the depth limit is hit are symbolic.
//
//gosym: C01 quick n=32 k=2 nomerge
//gosym: C01 quick n=36 k=2 keep=2 nomerge
//gosym: C01 thorough n=32 k=3 nomerge budget=1500
//gosym: C01 thorough n=40 k=2 keep=4 nomerge budget=1500
func Heap() {
	n, k := vsym.Param("n"), vsym.Param("k")
	orig := make([]float64, n)
	alts := []float64{50, 60, 70}[:k]
	keep := 0
	if n > 32 {
		keep = vsym.Param("keep")
	}
	for i, v := range killer[n] {
		orig[i] = v
		if v >= 24 {
			if keep > 0 {
				keep--
				orig[i] = 65
			} else {
				orig[i] = vsym.Float("v"+strconv.Itoa(i), alts...)
			}
		}
	}
	check(orig, n)
}

// Ninther reaches the pseudo-median of nine: the probed positions are symbolic.
//
//gosym: C01 quick n=44 k=2 nomerge
//gosym: C01 thorough n=44 k=3 nomerge budget=1500
//gosym: C01 thorough n=61 k=2 nomerge
func Ninther() {
	n, k := vsym.Param("n"), vsym.Param("k")
	orig := make([]float64, n)
	alts := []float64{float64(n) / 2, -1, 1000}[:k]
	for i := range orig {
		orig[i] = float64(i * 17 % n)
	}
	s := n / 8
	m := n / 2
	for _, p := range []int{0, s, 2 * s, m, m - s, m + s, n - 1, n - 1 - s, n - 1 - 2*s} {
		orig[p] = vsym.Float("v"+strconv.Itoa(p), alts...)
	}
	check(orig, n)
}

// Sortable loads the values of some cases of a feature and sorts them.
//
//gosym: C01 quick n=0..5 k=3
//gosym: C01 thorough n=6 k=4
func Sortable() {
	n, k := vsym.Param("n"), vsym.Param("k")
	all := make([]float64, n+2)
	for i := range all {
		all[i] = vsym.Float("v"+strconv.Itoa(i), palette[:k]...)
	}
	cases := []int{}
	for i := n; i > 0; i-- {
		cases = append(cases, i)
	}
	orig := append([]float64{}, all...)
	sf := &CF.SortableFeature{Vals: make([]float64, n+1)}
	sf.Load(&all, &cases)
	vsym.Assert(sf.Len() == n, "not every case was loaded")
	for i := 0; i < n; i++ {
		vsym.Assert(sf.Vals[i] == orig[n-i], "a case is loaded with another value")
		for j := 0; j < n; j++ {
			vsym.Assert(sf.Less(i, j) == (orig[n-i] < orig[n-j]), "Less compares something else than the values")
		}
	}
	if n > 1 {
		sf.Swap(0, n-1)
		vsym.Assert(vsym.And(sf.Cases[0] == 1, sf.Cases[n-1] == n), "Swap does not exchange the cases")
		vsym.Assert(vsym.And(sf.Vals[0] == orig[1], sf.Vals[n-1] == orig[n]), "Swap does not exchange the values")
	}
	sf.Sort()
	seen := 0
	for i := 0; i < n; i++ {
		vsym.Assert(vsym.Or(i == 0, sf.Vals[max(i-1, 0)] <= sf.Vals[i]), "values ascending")
		vsym.Assert(sf.Vals[i] == all[cases[i]], "a value left its case")
		seen += 1 << cases[i]
	}
	vsym.Assert(seen == 1<<(n+1)-2, "the case list is no longer a permutation")
	for i := range all {
		vsym.Assert(all[i] == orig[i], "sorting changed the feature")
	}
}

// Long sorts many values of which some are symbolic, in an irregular, a falling and a wave order.
//
//gosym: C01 quick n={13|100|257} shape=0..2 k=2 nomerge maxloop=100000
//gosym: C01 thorough n={64|400} shape=0..2 k=3 nomerge maxloop=200000
func Long() {
	n, k := vsym.Param("n"), vsym.Param("k")
	orig := make([]float64, n+1)
	for i, v := range Scramble(n, n+1, 40) {
		switch vsym.Param("shape") {
		case 0:
			orig[i] = float64(v)
		case 1:
			orig[i] = float64(n - i)
		default:
			orig[i] = float64(max(i, n-i) % 50)
		}
	}
	for j := 0; j < 5; j++ {
		i := (2*j + 1) * n / 10
		orig[i] = vsym.Float("v"+strconv.Itoa(i), []float64{17, -1, 1000}[:k]...)
	}
	check(orig, n)
}

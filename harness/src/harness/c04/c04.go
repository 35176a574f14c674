// Package c04 checks the search for a categorical split.
package c04

import (
	"math/big"

	CF "github.com/ryanbressler/CloudForest"
	. "hlib"
	"vsym"
)

const minImp = 1e-7

var lists = [][]int{{0, 1}, {0, 1, 2}, {3, 1, 0, 2}, {0, 1, 1, 2, 2}, {4, 2, 0, 1, 3}}

func rows(list []int) int {
	n := 0
	for _, c := range list {
		n = max(n, c+1)
	}
	return n
}

func setup() (list []int, f *CF.DenseCatFeature, t *Targ) {
	list = lists[vsym.Param("list")]
	n := rows(list)
	nc := vsym.Param("nc")
	used := min(nc, vsym.Param("used"))
	f = EmptyCat("f", n, nc)
	for i := 0; i < n; i++ {
		// the highest codes are used
		f.CatData[i] = nc - used + vsym.Int("f."+Itoa(i), 0, used-1)
	}
	t = Target(vsym.ParamStr("t"), n, []float64{0, 1, -3}, 2)
	return
}

// allocs have been used before if leaf is odd.
func allocs(list []int, t *Targ, leaf int) *CF.BestSplitAllocs {
	a := Allocs(len(list)+1, t.Target)
	if leaf%2 == 1 {
		Warm(a, len(list)+1)
	}
	return a
}

// real applies a reported split.
func real(f *CF.DenseCatFeature, t *Targ, list, cases []int, coded interface{}, dec float64, leafSize int) {
	for k := 0; k < rows(list); k++ {
		vsym.Assert(Count(cases, k) == Count(list, k), "the case list is no longer a permutation")
	}
	if len(list) < 10 {
		vsym.Log("dec", dec)
	}
	if dec <= minImp {
		return
	}
	l, r, m := f.Split(coded, append([]int{}, list...))
	vsym.Assert(len(m) == 0, "cases called missing")
	vsym.Assert(len(l) >= leafSize && len(r) >= leafSize, "a side is smaller than leafSize")
	vsym.Assert(Near(dec, Dec(t, list, l, r, nil)), "the reported decrease is not the one of the returned split")
	s := f.DecodeSplit(coded)
	for _, c := range l {
		vsym.Assert(s.Left[f.Back[f.CatData[c]]], "the decoded split sends a left case right")
	}
	for _, c := range r {
		vsym.Assert(!s.Left[f.Back[f.CatData[c]]], "the decoded split sends a right case left")
	}
}

// best compares with every set of categories.
func best(f *CF.DenseCatFeature, t *Targ, list []int, dec float64, leafSize int, constant bool) {
	nc := f.NCats()
	for set := 1; set < 1<<uint(nc)-1; set++ {
		var l, r []int
		for _, c := range list {
			if set>>uint(f.CatData[c])&1 != 0 {
				l = append(l, c)
			} else {
				r = append(r, c)
			}
		}
		if len(l) < leafSize || len(r) < leafSize {
			continue
		}
		vsym.Assert(!constant, "a feature with an admissible split was called constant")
		b := Dec(t, list, l, r, nil)
		if b > minImp*(1+1e-6) {
			vsym.Assert(dec > minImp, "an admissible split was not reported")
			vsym.Assert(dec >= b-1e-9, "another set of categories is better")
		}
	}
}

// Exhaustive uses the exhaustive search.
//
//gosym: C04 quick list={1|2|3} nc=3..4 used=3 leaf=1..2 t={num|cat|entropy} nomerge
//gosym: C04 quick list=2 nc=3 used=3 leaf=1 t={hdist|regret|l1} nomerge
//gosym: C04 thorough list=2 nc=4 used=4 leaf=1 t={num|cat|ord|l1|entropy|dentropy|wrf|regret|np|ada|adacost|hdist|numada|gradboost} nomerge
//gosym: C04 thorough list=4 nc=3 used=3 leaf=1..2 t={num|cat|entropy} nomerge
func Exhaustive() {
	list, f, t := setup()
	leaf := vsym.Param("leaf")
	a := allocs(list, t, leaf)
	cases := append([]int{}, list...)
	coded, dec, constant := f.BestCatSplit(t.Target, &cases, t.Impurity(&cases, a.Counter), 10, leaf, a)
	real(f, t, list, cases, coded, dec, leaf)
	best(f, t, list, dec, leaf, constant)
}

// Binary uses the search for two categories.
//
//gosym: C04 quick list=0..3 nc=2 used=2 leaf=1..2 t={num|cat|entropy|ord} nomerge
//gosym: C04 thorough list=4 nc=2 used=2 leaf=1..2 t={num|cat|l1|ord|entropy|wrf|regret|np|hdist} nomerge
func Binary() {
	list, f, t := setup()
	leaf := vsym.Param("leaf")
	a := allocs(list, t, leaf)
	cases := append([]int{}, list...)
	coded, dec, constant := f.BestBinSplit(t.Target, &cases, t.Impurity(&cases, a.Counter), 10, leaf, a)
	real(f, t, list, cases, coded, dec, leaf)
	best(f, t, list, dec, leaf, constant)
}

// Iter uses the iterative search, machine integer and big integer, which have to agree.
//
//gosym: C04 quick list={1|2|3} nc=6 used=3 leaf=1..2 t={num|cat} nomerge
//gosym: C04 quick list=2 nc={30|31|33} used=3 leaf=1 t=cat nomerge
//gosym: C04 thorough list=4 nc=6 used=3 leaf=1..2 t={num|cat|entropy} nomerge
//gosym: C04 thorough list=2 nc={62|63} used=4 leaf=1 t=cat nomerge
func Iter() {
	list, f, t := setup()
	iter(f, t, list, vsym.Param("leaf"))
}

func iter(f *CF.DenseCatFeature, t *Targ, list []int, leaf int) {
	a := allocs(list, t, leaf)
	cases := append([]int{}, list...)
	coded, dec, _ := f.BestCatSplitIter(t.Target, &cases, t.Impurity(&cases, a.Counter), leaf, a)
	real(f, t, list, cases, coded, dec, leaf)
	cases = append([]int{}, list...)
	bigc, bdec, _ := f.BestCatSplitIterBig(t.Target, &cases, t.Impurity(&cases, a.Counter), leaf, a)
	real(f, t, list, cases, bigc, bdec, leaf)
	vsym.Assert(vsym.Same(dec, bdec), "the big-integer search reports another decrease")
	vsym.Assert(bigc.Cmp(big.NewInt(int64(coded))) == 0, "the big-integer search returns another split")
	// no single category is better
	for k := 0; k < f.NCats(); k++ {
		var l, r []int
		for _, c := range list {
			if f.CatData[c] == k {
				l = append(l, c)
			} else {
				r = append(r, c)
			}
		}
		if len(l) >= leaf && len(r) >= leaf {
			b := Dec(t, list, l, r, nil)
			vsym.Assert(vsym.Implies(b > minImp, dec >= b-1e-9), "a single category is better")
		}
	}
}

// BigExhaustive uses the big-integer search exhaustively.
//
//gosym: C04 quick list={1|2} nc=3 used=3 leaf=1..2 t={num|cat} nomerge
//gosym: C04 thorough list=2 nc=4 used=4 leaf=1..2 t={num|cat} nomerge
func BigExhaustive() {
	list, f, t := setup()
	leaf := vsym.Param("leaf")
	a := allocs(list, t, leaf)
	cases := append([]int{}, list...)
	coded, dec, constant := f.BestCatSplitBig(t.Target, &cases, t.Impurity(&cases, a.Counter), 10, leaf, a)
	real(f, t, list, cases, coded, dec, leaf)
	best(f, t, list, dec, leaf, constant)
}

// Random draws one random partition per step (maxEx=2 gives one step).
//
//gosym: C04 quick list={1|2} nc=4 used=3 leaf=1..2 t={num|cat} big=0 raw=16 nomerge
//gosym: C04 quick list={1|2} nc=4 used=3 leaf=1..2 t={num|cat} big=1 raw=8 nomerge
//gosym: C04 thorough list=3 nc=5 used=3 leaf=1..2 t={num|cat} big=0 raw=32 nomerge
//gosym: C04 thorough list=3 nc=5 used=3 leaf=1..2 t={num|cat} big=1 raw=16 nomerge
func Random() {
	list, f, t := setup()
	leaf := vsym.Param("leaf")
	a := allocs(list, t, leaf)
	cases := append([]int{}, list...)
	p := t.Impurity(&cases, a.Counter)
	if vsym.Param("big") == 1 {
		coded, dec, _ := f.BestCatSplitBig(t.Target, &cases, p, 2, leaf, a)
		real(f, t, list, cases, coded, dec, leaf)
		return
	}
	coded, dec, _ := f.BestCatSplit(t.Target, &cases, p, 2, leaf, a)
	real(f, t, list, cases, coded, dec, leaf)
}

// Dispatch goes through BestSplit, which picks the search by the number of categories.
//
//gosym: C04 quick list=2 nc={2|3|5|6|30|31} used=2 leaf=1 t={num|cat} nomerge
//gosym: C04 thorough list=2 nc={2|3|5|6|30|31|70} used=3 leaf=1..2 t={num|cat} nomerge
func Dispatch() {
	list, f, t := setup()
	leaf := vsym.Param("leaf")
	a := allocs(list, t, leaf)
	cases := append([]int{}, list...)
	coded, dec, constant := f.BestSplit(t.Target, &cases, t.Impurity(&cases, a.Counter), leaf, false, a)
	real(f, t, list, cases, coded, dec, leaf)
	if f.NCats() <= 5 {
		best(f, t, list, dec, leaf, constant)
	}
	if constant {
		for _, c := range list {
			vsym.Assert(len(list) < 2*leaf || f.CatData[c] == f.CatData[list[0]] || leaf > 1, "a feature that is not constant was called constant")
		}
	}
}

// Long searches many cases over many categories, few values symbolic.
//
//gosym: C04 quick how={ex|bigex} n=16 nc=5 used=5 leaf={1|3} t={num|cat} k=1 nomerge
//gosym: C04 quick how=iter n=30 nc={9|40} used=9 leaf={1|3} t={num|cat} k=1 nomerge
//gosym: C04 quick how=bin n=30 nc=2 used=2 leaf={1|9} t={num|cat|l1|ord|numada|gradboost|entropy|dentropy|wrf|regret|np|ada|adacost|hdist} k=2 nomerge
//gosym: C04 quick how=ex n=12 nc=4 used=4 leaf=2 t={l1|ord|numada|gradboost|entropy|dentropy|wrf|regret|np|ada|adacost|hdist} k=1 nomerge
//gosym: C04 thorough how={ex|bigex} n=24 nc=7 used=7 leaf={1|3} t={num|cat} k=1 nomerge
//gosym: C04 thorough how=iter n=60 nc={20|60} used=20 leaf={1|3} t={num|cat|entropy} k=1 nomerge
func Long() {
	n, nc, k := vsym.Param("n"), vsym.Param("nc"), vsym.Param("k")
	f := ManyCat("f", 1, n, nc, vsym.Param("used"), k, false)
	t := ManyTarget(vsym.ParamStr("t"), n, k, 3)
	leaf := vsym.Param("leaf")
	list := Seq(n)
	for i, j := range Scramble(5, n, n) {
		list[i], list[j] = list[j], list[i]
	}
	list = append(list, list[3], list[n/2])
	a := allocs(list, t, leaf)
	cases := append([]int{}, list...)
	p := t.Impurity(&cases, a.Counter)
	switch vsym.ParamStr("how") {
	case "ex":
		coded, dec, constant := f.BestCatSplit(t.Target, &cases, p, 10, leaf, a)
		real(f, t, list, cases, coded, dec, leaf)
		best(f, t, list, dec, leaf, constant)
	case "bigex":
		coded, dec, constant := f.BestCatSplitBig(t.Target, &cases, p, 10, leaf, a)
		real(f, t, list, cases, coded, dec, leaf)
		best(f, t, list, dec, leaf, constant)
	case "bin":
		coded, dec, constant := f.BestBinSplit(t.Target, &cases, p, 10, leaf, a)
		real(f, t, list, cases, coded, dec, leaf)
		best(f, t, list, dec, leaf, constant)
	default:
		iter(f, t, list, leaf)
	}
}

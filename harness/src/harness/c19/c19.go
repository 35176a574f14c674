// Package c19 checks imputation of missing values.
package c19

import (
	CF "github.com/ryanbressler/CloudForest"
	. "hlib"
	"vsym"
)

func some(missing []bool) bool {
	known := false
	for _, m := range missing {
		known = vsym.Or(known, !m)
	}
	return known
}

// Numeric features are imputed with the mean of the entries that are present. mat 1 imputes a whole
// matrix.
//
//gosym: C19 quick n=1 mat=0..1 nomerge
//gosym: C19 quick n=2..4 mat=0..1 nomerge covers=missing
//gosym: C19 thorough n=5 mat=0 nomerge
func Numeric() {
	n := vsym.Param("n")
	f := Num("N:f", n, []float64{-1.5, 0.1, 1e9}, true)
	vsym.Assume(some(f.Missing))
	g := f.Copy().(*CF.DenseNumFeature)
	other := NumOf("N:g", make([]float64, n)...)
	fm := FM(Labels(n), f, other)
	if vsym.Param("mat") == 1 {
		fm.ImputeMissing()
	} else {
		f.ImputeMissing()
	}
	sum, count := 0.0, 0.0
	for i := 0; i < n; i++ {
		sum += vsym.IteF(g.Missing[i], 0, g.NumData[i])
		count += vsym.IteF(g.Missing[i], 0, 1)
	}
	if g.HasMissing {
		vsym.Cover("missing")
	}
	vsym.Assert(f.Length() == n && !f.MissingVals() && f.GetName() == "N:f", "the feature still reports missing values or lost entries")
	for i := 0; i < n; i++ {
		vsym.Log("v", f.NumData[i])
		vsym.Assert(!f.IsMissing(i), "an entry is still missing")
		vsym.Assert(vsym.Implies(!g.Missing[i], f.NumData[i] == g.NumData[i]), "an entry that was present changed")
		vsym.Assert(vsym.Implies(g.Missing[i], Near(f.NumData[i], sum/count)), "a missing entry isn't the mean of those present")
		vsym.Assert(other.NumData[i] == 0 && !other.Missing[i], "another feature changed")
	}
}

// AnyValue: the mean of any two numbers.
//
//gosym: C19 quick
func AnyValue() {
	f := &CF.DenseNumFeature{Name: "N:f", NumData: []float64{vsym.AnyFloat("a"), 5, vsym.AnyFloat("b")}, Missing: []bool{false, true, false}, HasMissing: true}
	a, b := f.NumData[0], f.NumData[2]
	vsym.Assume(a == a && b == b)
	f.ImputeMissing()
	vsym.Assert(vsym.Same(f.NumData[0], a) && vsym.Same(f.NumData[2], b), "an entry that was present changed")
	vsym.Assert(vsym.Or(vsym.Same(f.NumData[1], (a+b)/2), vsym.Same(f.NumData[1], (0.0+a+b)/2)), "a missing entry isn't the mean of those present")
}

// Categorical features are imputed with a most frequent category.
//
//gosym: C19 quick n=1 nc=2..3 mat=0..1 nomerge
//gosym: C19 quick n=2..4 nc=2..3 mat=0..1 nomerge covers=missing
//gosym: C19 thorough n=5 nc=3 mat=0 nomerge
//gosym: C19 thorough n=4 nc=4 mat=0 nomerge
func Categorical() {
	n, nc := vsym.Param("n"), vsym.Param("nc")
	f := Cat("C:f", n, nc, true)
	vsym.Assume(some(f.Missing))
	for i := 0; i < n; i++ { // anything may be stored behind a missing entry
		f.CatData[i] = vsym.IteI(f.Missing[i], vsym.Int("hidden"+Itoa(i), 0, nc-1), f.CatData[i])
	}
	g := f.Copy().(*CF.DenseCatFeature)
	other := CatOf("C:g", nc, make([]int, n)...)
	fm := FM(Labels(n), f, other)
	if vsym.Param("mat") == 1 {
		fm.ImputeMissing()
	} else {
		f.ImputeMissing()
	}
	if g.HasMissing {
		vsym.Cover("missing")
	}
	votes := make([]int, nc)
	for k := range votes {
		for i := 0; i < n; i++ {
			votes[k] += vsym.IteI(!g.Missing[i] && g.CatData[i] == k, 1, 0)
		}
	}
	vsym.Assert(f.Length() == n && !f.MissingVals() && f.NCats() == nc && f.GetName() == "C:f", "the feature still reports missing values or changed otherwise")
	for i := 0; i < n; i++ {
		vsym.Assert(!f.IsMissing(i), "an entry is still missing")
		vsym.Assert(vsym.Implies(!g.Missing[i], f.CatData[i] == g.CatData[i]), "an entry that was present changed")
		vsym.Assert(f.CatData[i] == f.CatData[0] || !(g.Missing[i] && g.Missing[0]), "missing entries are imputed with different categories")
		for k := range votes {
			for l := range votes {
				vsym.Assert(vsym.Implies(g.Missing[i] && f.CatData[i] == k, votes[l] <= votes[k]), "a missing entry isn't a most frequent category")
			}
		}
		vsym.Assert(other.CatData[i] == 0 && !other.Missing[i], "another feature changed")
	}
}

// Large features have many entries, some missing.
//
//gosym: C19 quick n=40 nc=12 nomerge
//gosym: C19 thorough n=300 nc=40 nomerge
func Large() {
	n, nc := vsym.Param("n"), vsym.Param("nc")
	f, c := ManyNum("N:f", 1, n, 30, 2, []float64{4, 1e6}, true), ManyCat("C:c", 2, n, nc, nc, 1, true)
	for i, v := range Scramble(3, n, 3) {
		if v == 0 {
			f.Missing[i], f.HasMissing = true, true
		}
		if v == 1 {
			c.Missing[i], c.HasMissing = true, true
		}
	}
	g, d := f.Copy().(*CF.DenseNumFeature), c.Copy().(*CF.DenseCatFeature)
	fm := FM(Labels(n), f, c)
	fm.ImputeMissing()
	sum, count := 0.0, 0.0
	votes := make([]int, nc)
	for i := 0; i < n; i++ {
		if !g.Missing[i] {
			sum, count = sum+g.NumData[i], count+1
		}
		for k := range votes {
			votes[k] += vsym.IteI(vsym.And(!d.Missing[i], d.CatData[i] == k), 1, 0)
		}
	}
	top := 0
	for _, v := range votes {
		top = vsym.IteI(v > top, v, top)
	}
	vsym.Assert(!f.MissingVals() && !c.MissingVals() && c.NCats() == nc, "the feature still reports missing values or changed otherwise")
	for i := 0; i < n; i++ {
		vsym.Assert(!f.IsMissing(i) && !c.IsMissing(i), "an entry is still missing")
		if g.Missing[i] {
			vsym.Assert(Near(f.NumData[i], sum/count), "a missing entry isn't the mean of those present")
		} else {
			vsym.Assert(f.NumData[i] == g.NumData[i], "an entry that was present changed")
		}
		if d.Missing[i] {
			for k, v := range votes {
				vsym.Assert(vsym.Implies(c.CatData[i] == k, v == top), "a missing entry isn't a most frequent category")
			}
		} else {
			vsym.Assert(c.CatData[i] == d.CatData[i], "an entry that was present changed")
		}
	}
}

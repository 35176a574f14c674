// Package hlib has helpers shared by the harnesses.
package hlib

import (
	"strconv"

	CF "github.com/ryanbressler/CloudForest"
	"vsym"
)

func Itoa(i int) string { return strconv.Itoa(i) }

// Num builds a numeric feature of n cases: values from pal, missing entries if miss.
// The value behind a missing entry is arbitrary too.
func Num(name string, n int, pal []float64, miss bool) *CF.DenseNumFeature {
	f := &CF.DenseNumFeature{NumData: make([]float64, n), Missing: make([]bool, n), Name: name}
	for i := 0; i < n; i++ {
		f.NumData[i] = vsym.Float(name+"."+Itoa(i), pal...)
		if miss {
			f.Missing[i] = vsym.Bool(name + ".m" + Itoa(i))
			f.HasMissing = vsym.Or(f.HasMissing, f.Missing[i])
		}
	}
	return f
}

// NumOf builds a numeric feature with given values.
func NumOf(name string, vals ...float64) *CF.DenseNumFeature {
	return &CF.DenseNumFeature{NumData: append([]float64{}, vals...), Missing: make([]bool, len(vals)), Name: name}
}

// CatNames are the category names used by the harnesses.
func CatName(i int) string { return "c" + Itoa(i) }

// Cat builds a categorical feature of n cases over nc categories.
func Cat(name string, n, nc int, miss bool) *CF.DenseCatFeature {
	f := EmptyCat(name, n, nc)
	for i := 0; i < n; i++ {
		f.CatData[i] = vsym.Int(name+"."+Itoa(i), 0, nc-1)
		if miss {
			f.Missing[i] = vsym.Bool(name + ".m" + Itoa(i))
			f.HasMissing = vsym.Or(f.HasMissing, f.Missing[i])
		}
	}
	return f
}

// EmptyCat is a categorical feature with nc categories and all cases in category 0.
func EmptyCat(name string, n, nc int) *CF.DenseCatFeature {
	f := &CF.DenseCatFeature{CatMap: &CF.CatMap{Map: map[string]int{}, Back: []string{}}, CatData: make([]int, n), Missing: make([]bool, n), Name: name}
	for k := 0; k < nc; k++ {
		f.CatMap.Map[CatName(k)] = k
		f.CatMap.Back = append(f.CatMap.Back, CatName(k))
	}
	return f
}

// CatOf builds a categorical feature with given codes.
func CatOf(name string, nc int, codes ...int) *CF.DenseCatFeature {
	f := EmptyCat(name, len(codes), nc)
	copy(f.CatData, codes)
	return f
}

// Seq is 0..n-1.
func Seq(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

// FM builds a feature matrix over features.
func FM(labels []string, fs ...CF.Feature) *CF.FeatureMatrix {
	m := &CF.FeatureMatrix{Data: fs, Map: map[string]int{}, CaseLabels: labels}
	for i, f := range fs {
		m.Map[f.GetName()] = i
	}
	return m
}

// Labels are n case labels.
func Labels(n int) []string {
	r := make([]string, n)
	for i := range r {
		r[i] = "case" + Itoa(i)
	}
	return r
}

// Count counts x in s.
func Count(s []int, x int) int {
	n := 0
	for _, v := range s {
		n += vsym.IteI(v == x, 1, 0)
	}
	return n
}

// Close says that two floats agree up to rounding.
func Close(a, b float64) bool {
	d := a - b
	return vsym.Or(a == b, vsym.And(d < 1e-9, d > -1e-9))
}

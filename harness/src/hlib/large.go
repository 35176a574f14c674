package hlib

import (
	CF "github.com/ryanbressler/CloudForest"
	"vsym"
)

// The features here have many cases of which few are symbolic: what depends on the number of cases,
// categories or features shows with them.

// Scramble is a fixed irregular sequence of n numbers below m.
func Scramble(seed, n, m int) []int {
	x := uint32(seed)*2654435761 + 12345
	r := make([]int, n)
	for i := range r {
		x = x*1664525 + 1013904223
		r[i] = int(x>>12) % m
	}
	return r
}

// at says whether case i of n is one of the k symbolic ones, spread over the cases.
func at(i, n, k int) bool {
	for j := 0; j < k; j++ {
		if i == (2*j+1)*n/(2*k) {
			return true
		}
	}
	return false
}

// ManyNum has n cases with values 0..m-1, but k of them from pal and possibly missing; behind two
// more missing entries are large values.
func ManyNum(name string, seed, n, m, k int, pal []float64, miss bool) *CF.DenseNumFeature {
	f := NumOf(name, make([]float64, n)...)
	for i, v := range Scramble(seed, n, m) {
		f.NumData[i] = float64(v)
		if at(i, n, k) {
			f.NumData[i] = vsym.Float(name+"."+Itoa(i), pal...)
			if miss {
				f.Missing[i] = vsym.Bool(name + ".m" + Itoa(i))
				f.HasMissing = vsym.Or(f.HasMissing, f.Missing[i])
			}
		} else if miss && (i == 1 || i == n-2) {
			f.Missing[i], f.HasMissing = true, true
			f.NumData[i] = 1e6 + float64(i)
		}
	}
	return f
}

// ManyCat has n cases over the last used of nc categories, k of them symbolic and possibly missing.
func ManyCat(name string, seed, n, nc, used, k int, miss bool) *CF.DenseCatFeature {
	f := EmptyCat(name, n, nc)
	for i, v := range Scramble(seed, n, used) {
		f.CatData[i] = nc - used + v
		if at(i, n, k) {
			f.CatData[i] = nc - used + vsym.Int(name+"."+Itoa(i), 0, used-1)
			if miss {
				f.Missing[i] = vsym.Bool(name + ".m" + Itoa(i))
				f.HasMissing = vsym.Or(f.HasMissing, f.Missing[i])
			}
		} else if miss && (i == 1 || i == n-2) {
			f.Missing[i], f.HasMissing = true, true
		}
	}
	return f
}

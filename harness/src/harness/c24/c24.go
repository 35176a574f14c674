// Package c24 checks boosting updates and that they reach growing.
package c24

import (
	"math"
	"strconv"

	CF "github.com/ryanbressler/CloudForest"
	. "hlib"
	"vsym"
)

// num is a numeric target, one value per path; -1 is missing.
func num(n int, pal []float64, miss bool) *CF.DenseNumFeature {
	f := NumOf("N:t", make([]float64, n)...)
	lo := 0
	if miss {
		lo = -1
	}
	for i := 0; i < n; i++ {
		k := vsym.Conc(vsym.Int("t"+Itoa(i), lo, len(pal)-1))
		if k < 0 {
			f.NumData[i] = 77
			f.PutMissing(i)
		} else {
			f.NumData[i] = pal[k]
		}
	}
	return f
}

func cat(n, nc int, miss bool) *CF.DenseCatFeature {
	f := EmptyCat("C:t", n, nc)
	lo := 0
	if miss {
		lo = -1
	}
	for i := 0; i < n; i++ {
		k := vsym.Conc(vsym.Int("t"+Itoa(i), lo, nc-1))
		if k < 0 {
			f.CatData[i] = nc - 1
			f.PutMissing(i)
		} else {
			f.CatData[i] = k
		}
	}
	return f
}

// leaves is a partition of n cases into up to k leaves; cases may reach none.
func leaves(name string, n, k int) [][]int {
	out := make([][]int, k)
	for i := n - 1; i >= 0; i-- {
		if l := vsym.Conc(vsym.Int(name+Itoa(i), 0, k)); l > 0 {
			out[l-1] = append(out[l-1], i)
		}
	}
	return out
}

var predTexts = []string{"0.5", "-2", "0", "1e3"}
var predVals = []float64{0.5, -2, 0, 1e3}

func preds(name string, k, kp int) ([]string, []float64) {
	var ts []string
	var vs []float64
	for i := 0; i < k; i++ {
		p := vsym.Conc(vsym.Int(name+Itoa(i), 0, kp-1))
		ts = append(ts, predTexts[p])
		vs = append(vs, predVals[p])
	}
	return ts, vs
}

var rates = []float64{1, 0.1, 0}

// Gradient: residuals of regression.
//
//gosym: C24 quick n=3 kl=1 kp=2 rounds=1 rate=0..2 nomerge
//gosym: C24 quick n=2 kl=2 kp=4 rounds=1 rate=1 nomerge
//gosym: C24 quick n=2 kl=1 kp=3 rounds=2 rate=1 nomerge
//gosym: C24 thorough n=3 kl=2 kp=3 rounds=1 rate=0..1 nomerge
//gosym: C24 thorough n=2 kl=2 kp=2 rounds=3 rate=1 nomerge
func Gradient() {
	n, kl := vsym.Param("n"), vsym.Param("kl")
	f := num(n, []float64{-1.5, 0.25, 4}, true)
	sum, known := 0.0, 0.0
	for i := 0; i < n; i++ {
		if !f.Missing[i] {
			sum += f.NumData[i]
			known++
		}
	}
	vsym.Assume(known > 0)
	mean := sum / known
	rate := rates[vsym.Param("rate")]
	want := make([]float64, n)
	for i := range want {
		want[i] = f.NumData[i] - mean
	}
	missing := append([]bool{}, f.Missing...)
	t := CF.NewGradBoostTarget(f, rate)
	vsym.Assert(Near(t.Intercept(), mean), "the intercept isn't the mean")
	check := func() {
		for i := range want {
			vsym.Assert(t.IsMissing(i) == missing[i], "a case gains or loses its target")
			vsym.Assert(missing[i] || Near(t.Get(i), want[i]), "a residual is wrong")
		}
	}
	check()
	for round := 0; round < vsym.Param("rounds"); round++ {
		s := Itoa(round)
		ls := leaves("leaf"+s+".", n, kl)
		texts, vals := preds("pred"+s+".", kl, vsym.Param("kp"))
		weight := t.Boost(&ls, &texts)
		vsym.Assert(weight == rate, "the weight of the tree isn't the learning rate")
		for l, cases := range ls {
			for _, c := range cases {
				want[c] -= rate * vals[l]
			}
		}
		check()
	}
}

func expit(x float64) float64 { return 1 / (1 + math.Exp(-x)) }

// Class: residuals of two-class gradient boosting.
//
//gosym: C24 quick n=3 nc=2 kl=1 kp=2 rounds=1 rate=0..1 pos=0..1 nomerge
//gosym: C24 quick n=2 nc=2 kl=2 kp=3 rounds=2 rate=1 pos=1 nomerge
//gosym: C24 quick n=3 nc=3 kl=1 kp=1 rounds=1 rate=1 pos=2 nomerge
//gosym: C24 thorough n=4 nc=2 kl=2 kp=2 rounds=1 rate=1 pos=0..1 nomerge
//gosym: C24 thorough n=3 nc=2 kl=2 kp=2 rounds=2 rate=1 pos=1 nomerge
func Class() {
	n, kl := vsym.Param("n"), vsym.Param("kl")
	f := cat(n, vsym.Param("nc"), true)
	keep := f.Copy().(*CF.DenseCatFeature)
	pos := vsym.Param("pos")
	yes, known := 0.0, 0.0
	y := make([]float64, n)
	for i := range y {
		if f.Missing[i] {
			continue
		}
		known++
		if f.CatData[i] == pos {
			y[i] = 1
			yes++
		}
	}
	vsym.Assume(yes > 0 && yes < known)
	rate := rates[vsym.Param("rate")]
	t := CF.NewGradBoostClassTarget(f, rate, CatName(pos))
	prior := math.Log(yes / (known - yes))
	vsym.Assert(Near(t.Intercept(), prior), "the intercept isn't the log odds")
	at := make([]float64, n)
	for i := range at {
		at[i] = prior
	}
	check := func() {
		for i := range at {
			vsym.Assert(t.IsMissing(i) == keep.Missing[i], "a case gains or loses its target")
			vsym.Assert(keep.Missing[i] || Near(t.Get(i), y[i]-expit(at[i])), "a residual is wrong")
			vsym.Assert(f.Missing[i] == keep.Missing[i] && f.CatData[i] == keep.CatData[i], "the original target changes")
		}
		for c := 0; c < n; c++ { // what a leaf of that case and the last known one predicts
			cases := []int{c, n - 1}
			num, denom := 0.0, 0.0
			for _, c := range cases {
				if !keep.Missing[c] {
					p := expit(at[c])
					num += y[c] - p
					denom += p * (1 - p)
				}
			}
			if denom > 1e-6 {
				v, err := strconv.ParseFloat(t.FindPredicted(cases), 64)
				vsym.Assert(err == nil && Near(v, num/denom), "a leaf's prediction is wrong")
			}
		}
	}
	check()
	for round := 0; round < vsym.Param("rounds"); round++ {
		s := Itoa(round)
		ls := leaves("leaf"+s+".", n, kl)
		texts, vals := preds("pred"+s+".", kl, vsym.Param("kp"))
		weight := t.Boost(&ls, &texts)
		vsym.Assert(weight == rate, "the weight of the tree isn't the learning rate")
		for l, cases := range ls {
			for _, c := range cases {
				at[c] += rate * vals[l]
			}
		}
		check()
	}
}


func normalised(w []float64) {
	sum := 0.0
	for _, v := range w {
		vsym.Assert(v >= 0, "a weight isn't a number that can be one")
		sum += v
	}
	vsym.Assert(Near(sum, 1), "the weights don't add up to one")
}

// mode is the most frequent category of the known cases, if there are any.
func mode(f *CF.DenseCatFeature, cases []int) int {
	counts := make([]int, f.NCats())
	for _, c := range cases {
		if !f.Missing[c] {
			counts[f.CatData[c]]++
		}
	}
	best, at := 0, -1
	for k, v := range counts {
		if v > best {
			best, at = v, k
		}
	}
	for k, v := range counts { // no ties
		vsym.Assume(k == at || v < best || best == 0)
	}
	return at
}

// Adaptive: weights of classification, with or without costs.
//
//gosym: C24 quick n=3 nc=2 kl=1 rounds=1 costs=0..1 nomerge
//gosym: C24 quick n=4 nc=2 kl=1 rounds=1 costs=0 nomerge
//gosym: C24 quick n=3 nc=3 kl=2 rounds=1 costs=1 nomerge
//gosym: C24 quick n=3 nc=2 kl=1 rounds=2 costs=0..1 nomerge
//gosym: C24 thorough n=4 nc=2 kl=2 rounds=1 costs=0..1 nomerge
//gosym: C24 thorough n=4 nc=2 kl=1 rounds=2 costs=0..1 nomerge
//gosym: C24 thorough n=5 nc=2 kl=1 rounds=1 costs=0..1 nomerge
func Adaptive() {
	n, nc, kl := vsym.Param("n"), vsym.Param("nc"), vsym.Param("kl")
	f := cat(n, nc, true)
	cost := []float64{1, 1, 1}
	var boost func(*[][]int, *[]string) float64
	var weights []float64
	if vsym.Param("costs") == 0 {
		t := CF.NewAdaBoostTarget(f)
		boost, weights = t.Boost, t.Weights
	} else {
		cost = []float64{0.5, 1, 0.75}
		t := CF.NewAdaCostTarget(f)
		m := map[string]float64{}
		for k := 0; k < nc; k++ {
			m[CatName(k)] = cost[k]
		}
		t.SetCosts(m)
		boost, weights = t.Boost, t.Weights
	}
	normalised(weights)
	for _, v := range weights {
		vsym.Assert(Near(v, 1/float64(n)), "cases start with different weights")
	}
	for round := 0; round < vsym.Param("rounds"); round++ {
		ls := leaves("leaf"+Itoa(round)+".", n, kl)
		old := append([]float64{}, weights...)
		want := append([]float64{}, weights...)
		e := 0.0
		var modes []int
		for _, cases := range ls {
			m := mode(f, cases)
			modes = append(modes, m)
			for _, c := range cases {
				if !f.Missing[c] && f.CatData[c] != m {
					e += old[c] * cost[f.CatData[c]]
				}
			}
		}
		vsym.Assume(e < 0.5-1e-9 || e > 0.5+1e-9)
		texts := make([]string, len(ls))
		got := boost(&ls, &texts)
		vsym.Log("weight", got)
		normalised(weights)
		if e == 0 || e > 0.5 {
			vsym.Assert(e != 0 || math.IsInf(got, 1), "a tree without error isn't given an infinite weight")
			vsym.Assert(e == 0 || got == 0, "a tree worse than chance is given weight")
			for c := range want {
				vsym.Assert(Near(weights[c], old[c]), "weights change though there's nothing to learn")
			}
			continue
		}
		alpha := math.Log((1-e)/e) / 2
		vsym.Assert(Near(got, alpha), "the weight of a tree doesn't follow from its error")
		sum := 0.0
		for l, cases := range ls {
			for _, c := range cases {
				if f.Missing[c] {
					continue
				}
				k := f.CatData[c]
				if k != modes[l] {
					want[c] *= math.Exp(alpha) * cost[k]
				} else {
					want[c] *= math.Exp(-alpha) * cost[k]
				}
			}
		}
		for _, v := range want {
			sum += v
		}
		for c := range want {
			vsym.Assert(Near(weights[c], want[c]/sum), "a weight is wrong")
		}
	}
}

// Regression: weights of numeric adaptive boosting.
//
//gosym: C24 quick n=3 kl=1 rounds=1 nomerge
//gosym: C24 quick n=3 kl=2 rounds=1 nomerge
//gosym: C24 quick n=2 kl=1 rounds=2 nomerge
//gosym: C24 thorough n=4 kl=2 rounds=1 nomerge
//gosym: C24 thorough n=3 kl=1 rounds=2 nomerge
func Regression() {
	n, kl := vsym.Param("n"), vsym.Param("kl")
	f := num(n, []float64{-1, 0.5, 4}, true)
	t := CF.NewNumAdaBoostTarget(f)
	normalised(t.Weights)
	known := []int{}
	for i := 0; i < n; i++ {
		vsym.Assert(Near(t.Weights[i], 1/float64(n)), "cases start with different weights")
		if !f.Missing[i] {
			known = append(known, i)
		}
	}
	dev := func(c int, cases []int) float64 { // the deviation of a case from the mean of its leaf
		sum, count := 0.0, 0.0
		for _, k := range cases {
			if !f.Missing[k] {
				sum += f.NumData[k]
				count++
			}
		}
		return math.Abs(f.NumData[c] - sum/count)
	}
	norm := 0.0
	for _, c := range known {
		norm += dev(c, known)
	}
	for round := 0; round < vsym.Param("rounds"); round++ {
		ls := leaves("leaf"+Itoa(round)+".", n, kl)
		old := append([]float64{}, t.Weights...)
		want := append([]float64{}, t.Weights...)
		e := 0.0
		for _, cases := range ls {
			for _, c := range cases {
				if !f.Missing[c] {
					e += old[c] * dev(c, cases)
				}
			}
		}
		vsym.Assume(e == 0 || e > 1e-9 && (e < norm-1e-9 || e > norm+1e-9))
		texts := make([]string, len(ls))
		got := t.Boost(&ls, &texts)
		vsym.Log("weight", got)
		normalised(t.Weights)
		if e == 0 || e > norm {
			vsym.Assert(e != 0 || math.IsInf(got, 1), "a tree without error isn't given an infinite weight")
			vsym.Assert(e == 0 || got == 0, "a tree worse than none is given weight")
			for c := range want {
				vsym.Assert(Near(t.Weights[c], old[c]), "weights change though there's nothing to learn")
			}
			continue
		}
		alpha := math.Log(norm / e)
		vsym.Assert(Near(got, alpha), "the weight of a tree doesn't follow from its error")
		sum := 0.0
		for _, cases := range ls {
			for _, c := range cases {
				if !f.Missing[c] {
					want[c] *= math.Exp(alpha * (dev(c, cases) - e))
				}
			}
		}
		for _, v := range want {
			sum += v
		}
		for c := range want {
			vsym.Assert(Near(t.Weights[c], want[c]/sum), "a weight is wrong")
		}
	}
}

func state(t CF.Target) []float64 {
	var out []float64
	switch t := t.(type) {
	case *CF.AdaBoostTarget:
		return t.Weights
	case *CF.AdaCostTarget:
		return t.Weights
	case *CF.NumAdaBoostTarget:
		return t.Weights
	case *CF.GradBoostTarget:
		for i := 0; i < t.Length(); i++ {
			out = append(out, t.Get(i))
		}
	case *CF.GradBoostClassTarget:
		for i := 0; i < t.Length(); i++ {
			out = append(out, t.Get(i))
		}
	}
	return out
}

// Grown: growing a forest boosts the target with every tree and records the weight returned.
//
//gosym: C24 quick n=3 trees=1 samples=2 t={ada|adacost|numada|grad|gradclass} nomerge
//gosym: C24 quick n=2 trees=2 samples=2 t={ada|adacost|numada|grad|gradclass} nomerge
//gosym: C24 thorough n=3 trees=2 samples=2 t={ada|adacost|numada|grad|gradclass} nomerge
//gosym: C24 thorough n=4 trees=1 samples=3 t={ada|adacost|numada|grad|gradclass} nomerge
func Grown() {
	n := vsym.Param("n")
	x := NumOf("N:x", []float64{0, 2, 1, 3}[:n]...)
	cats := CatOf("C:t", 2, []int{0, 1, 0, 0}[:n]...)
	nums := NumOf("N:t", []float64{-1, 4, 0.5, 0}[:n]...)
	make := func() CF.Target {
		switch vsym.ParamStr("t") {
		case "ada":
			return CF.NewAdaBoostTarget(cats.Copy().(CF.CatFeature))
		case "adacost":
			t := CF.NewAdaCostTarget(cats.Copy().(CF.CatFeature))
			t.SetCosts(map[string]float64{CatName(0): 0.5, CatName(1): 0.25})
			return t
		case "numada":
			return CF.NewNumAdaBoostTarget(nums.Copy().(CF.NumFeature))
		case "grad":
			return CF.NewGradBoostTarget(nums.Copy().(CF.NumFeature), 0.5)
		}
		return CF.NewGradBoostClassTarget(cats.Copy().(CF.CatFeature), 0.5, CatName(1))
	}
	t, twin := make(), make()
	fm := FM(Labels(n), x, cats, nums)
	forest := CF.GrowRandomForest(fm, t, []int{0}, vsym.Param("samples"), 1, vsym.Param("trees"), 1, 1, false, false, false, false, nil)
	vsym.Assert(len(forest.Trees) == vsym.Param("trees"), "there is another number of trees")
	if t, ok := twin.(CF.TargetWithIntercept); ok {
		vsym.Assert(forest.Intercept == t.Intercept(), "the forest lacks the intercept")
	}
	b, ok := twin.(CF.BoostingTarget)
	vsym.Assert(ok, "the target isn't one to be boosted")
	if !ok {
		return
	}
	for _, tree := range forest.Trees {
		ls, ps := tree.Partition(fm)
		w := b.Boost(ls, ps)
		vsym.Log("weight", w)
		vsym.Assert(tree.Weight == w || math.IsInf(w, 1) || tree.Weight < 0 && w < 0, "a tree isn't given its weight")
	}
	a, c := state(t), state(twin)
	for i := range a {
		vsym.Assert(Near(a[i], c[i]), "growing doesn't boost the target")
	}
}

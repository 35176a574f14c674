package hlib

import (
	CF "github.com/ryanbressler/CloudForest"
	"vsym"
)

// Targ is a target over n cases together with the feature behind it.
type Targ struct {
	CF.Target
	Kind  string
	Num   *CF.DenseNumFeature
	Cat   *CF.DenseCatFeature
	Score bool // SplitImpurity is the decrease itself (Impurity is negative)
	W     []float64
	Pos   int          // the positive class of a Neyman-Pearson target
	Feats []CF.Feature // what a density is over
}

// Target builds a target of the given kind over n cases with symbolic values: numeric ones from
// pal, categorical ones with nc categories.
func Target(kind string, n int, pal []float64, nc int) *Targ {
	return target(kind, n, nc, func() *CF.DenseNumFeature { return Num("t", n, pal, false) }, func() *CF.DenseCatFeature { return Cat("t", n, nc, false) })
}

// ManyTarget has n cases of which k are symbolic.
func ManyTarget(kind string, n, k, nc int) *Targ {
	return target(kind, n, nc,
		func() *CF.DenseNumFeature {
			f := ManyNum("t", 3, n, 7, k, []float64{0, 9, 2}, false)
			for i := range f.NumData {
				f.NumData[i] -= 3 // some are negative
			}
			return f
		},
		func() *CF.DenseCatFeature { return ManyCat("t", 3, n, nc, nc, k, false) })
}

func target(kind string, n, nc int, mknum func() *CF.DenseNumFeature, mkcat func() *CF.DenseCatFeature) *Targ {
	t := &Targ{Kind: kind}
	num := func() *CF.DenseNumFeature {
		t.Num = mknum()
		return t.Num
	}
	cat := func() *CF.DenseCatFeature {
		t.Cat = mkcat()
		return t.Cat
	}
	costs := map[string]float64{"c0": 1, "c1": 3, "c2": 0.5, "c3": 2}
	switch kind {
	case "num":
		t.Target = num()
	case "l1":
		t.Target = &CF.L1Target{NumFeature: num()}
	case "ord": // for positive integers, as documented
		num()
		for i, v := range t.Num.NumData {
			t.Num.NumData[i] = vsym.IteF(v < 0, -v, v)
		}
		t.Target = CF.NewOrdinalTarget(t.Num)
	case "numada":
		t.Target = CF.NewNumAdaBoostTarget(num())
	case "gradboost":
		t.Target = CF.NewGradBoostTarget(num(), 0.5)
		t.Score = true
	case "cat":
		t.Target = cat()
	case "entropy":
		t.Target = CF.NewEntropyTarget(cat())
	case "dentropy":
		d := CF.NewDEntropyTarget(cat())
		d.SetCosts(costs)
		t.Target, t.W = d, byCat(nc)
	case "wrf":
		w := CF.NewWRFTarget(cat(), costs)
		t.Target, t.W = w, byCat(nc)
	case "regret":
		r := CF.NewRegretTarget(cat())
		r.SetCosts(costs)
		t.Target, t.W = r, byCat(nc)
	case "np":
		t.Target, t.Pos = CF.NewNPTarget(cat(), "c1", 0.3, 2), 1
	case "np0": // the positive class is the first one
		t.Target = CF.NewNPTarget(cat(), "c0", 0.3, 2)
	case "trans":
		c := cat()
		t.Feats = []CF.Feature{Cat("b", n, 2, false), c, Num("a", n, []float64{0, 1, 3}, false)}
		t.Target = CF.NewTransTarget(c, &t.Feats, "c1", 0.5, 0.4, n)
	case "density":
		t.Feats = []CF.Feature{Cat("b", n, 2, false), Num("a", n, []float64{0, 1, 3}, false)}
		t.Target = &CF.DensityTarget{Features: &t.Feats, N: n + 1}
	case "ada":
		a := CF.NewAdaBoostTarget(cat())
		t.Target, t.W = a, weights(a.Weights)
	case "adacost":
		a := CF.NewAdaCostTarget(cat())
		a.SetCosts(costs)
		t.Target, t.W = a, weights(a.Weights)
	case "hdist":
		t.Target = CF.NewHDistanceTarget(cat(), "c1")
		t.Score = true
	default:
		panic(kind)
	}
	return t
}

// byCat are the costs of the categories, in their order.
func byCat(nc int) []float64 { return []float64{1, 3, 0.5, 2}[:nc] }

// weights sets uneven case weights, which start out equal, and returns what they should be then.
func weights(w []float64) []float64 {
	want := make([]float64, len(w))
	for i := range w {
		w[i] *= float64(1 + i%3)
		want[i] = 1 / float64(len(w)) * float64(1+i%3)
	}
	return want
}

// Allocs makes split allocations for n cases; random draws are symbolic.
func Allocs(n int, t CF.Target) *CF.BestSplitAllocs {
	if d, ok := t.(*CF.DensityTarget); ok {
		t = (*d.Features)[0].(CF.Target) // which is no feature itself
	}
	return CF.NewBestSplitAllocs(n, t)
}

// Warm uses split allocations for n cases for other features and cases, as growing a tree does.
func Warm(a *CF.BestSplitAllocs, n int) {
	var t CF.Target
	if nc := len(*a.Counter); nc > 0 {
		c := EmptyCat("w", n, nc)
		for i := range c.CatData {
			c.CatData[i] = (i*i + 1) % nc
		}
		t = c
	} else {
		v := make([]float64, n)
		for i := range v {
			v[i] = float64((i*i + 3) % 7)
		}
		t = NumOf("w", v...)
	}
	v := make([]float64, n)
	for i := range v {
		v[i] = float64((i*3 + 1) % 5)
	}
	num := NumOf("wf", v...)
	fs := []CF.Feature{num, EmptyCat("w2", n, 2), EmptyCat("w3", n, 3), EmptyCat("w31", n, 31)}
	for _, f := range fs[1:] {
		c := f.(*CF.DenseCatFeature)
		for i := range c.CatData {
			c.CatData[i] = (i*5 + 1) % c.NCats()
		}
	}
	for _, f := range fs {
		for pass := 0; pass < 2; pass++ {
			cases := Seq(n)
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				cases[i], cases[j] = cases[j], cases[i]
			}
			f.BestSplit(t, &cases, t.Impurity(&cases, a.Counter), 1, false, a)
			for i := 1; i < n; i += 3 {
				f.PutMissing(i)
			}
		}
	}
}

// Dec is the decrease of splitting parent into l, r and m, evaluated from scratch.
func Dec(t *Targ, parent, l, r, m []int) float64 {
	a := Allocs(len(parent), plain(t))
	var mp *[]int
	if len(m) > 0 {
		mp = &m
	}
	s := t.SplitImpurity(&l, &r, mp, a)
	if t.Score {
		return s
	}
	return t.Impurity(&parent, a.Counter) - s
}

func plain(t *Targ) CF.Target { return t.Target }

// Near is Close with a relative part for large numbers.
func Near(a, b float64) bool {
	d := a - b
	if d < 0 {
		d = -d
	}
	s := a
	if s < 0 {
		s = -s
	}
	return vsym.Or(a == b, d <= 1e-9*(1+s))
}

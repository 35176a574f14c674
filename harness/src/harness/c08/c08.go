// Package c08 compares impurity and summary measures with their definitions.
package c08

import (
	"math"

	CF "github.com/ryanbressler/CloudForest"
	. "hlib"
	"vsym"
)

var lists = [][]int{{0}, {0, 1, 2}, {1, 0, 1, 2}, {2, 2, 0, 1, 3}, {4, 0, 1, 3, 2}}

func rows(list []int) int {
	n := 0
	for _, c := range list {
		n = max(n, c+1)
	}
	return n
}

func eq(a, b float64) bool { return vsym.Or(vsym.Same(a, b), Near(a, b)) }

// Impurity compares a target's node impurity with its definition.
//
//gosym: C08 quick list=0..3 nc=3 t={num|l1|ord|numada|cat|entropy|dentropy|wrf|regret|np|np0|ada|adacost} nomerge
//gosym: C08 quick list=0..2 nc=2 t={gradboost|hdist|np|np0|trans|density} nomerge
//gosym: C08 thorough list=4 nc=3 t={num|l1|ord|numada|cat|entropy|dentropy|wrf|regret|np|np0|ada|adacost} nomerge
//gosym: C08 thorough list=3 nc=4 t={cat|entropy|dentropy|wrf|regret|np|np0|ada|adacost} nomerge
func Impurity() {
	list := lists[vsym.Param("list")]
	n := rows(list)
	impurity(Target(vsym.ParamStr("t"), n, []float64{0, 1, -3}, vsym.Param("nc")), n, list)
}

// Long measures many cases, few of them symbolic.
//
//gosym: C08 quick n=40 nc=4 t={num|l1|ord|numada|cat|entropy|dentropy|wrf|regret|np|np0|ada|adacost} nomerge
//gosym: C08 thorough n=130 nc=4 t={num|l1|ord|numada|cat|entropy|dentropy|wrf|regret|np|np0|ada|adacost} nomerge
func Long() {
	n := vsym.Param("n")
	impurity(ManyTarget(vsym.ParamStr("t"), n, 2, vsym.Param("nc")), n, append(Scramble(5, n, n), Seq(n)...))
}

func impurity(t *Targ, n int, list []int) {
	a := Allocs(len(list)+n, t.Target)
	cases := append([]int{}, list...)
	v := t.Impurity(&cases, a.Counter)
	if len(list) < 10 {
		vsym.Log("imp", v)
	}
	for i := range list {
		vsym.Assert(cases[i] == list[i], "measuring changed the cases")
	}
	back := []int{}
	for i := range list {
		back = append(back, list[len(list)-1-i])
	}
	w := t.Impurity(&back, a.Counter)
	vsym.Assert(eq(v, w), "the impurity depends on the order of the cases")
	N := float64(len(list))
	if t.Kind == "density" {
		sp := spans(t, list)
		vsym.Assert(eq(v, N*N/float64((n+1)*(n+1))/sp[0]/sp[1]), "not the squared share of the cases over the product of spans")
		return
	}
	if t.Num != nil {
		x := func(c int) float64 { return t.Num.NumData[c] }
		sum := 0.0
		for _, c := range list {
			sum += x(c)
		}
		mean := sum / N
		sse, sad, wsad := 0.0, 0.0, 0.0
		for _, c := range list {
			d := x(c) - mean
			sse += d * d
			d = vsym.IteF(d < 0, -d, d)
			sad += d
			wsad += d / float64(n)
		}
		switch t.Kind {
		case "num":
			vsym.Assert(eq(v, sse), "not the sum of squared deviations from the mean")
		case "l1":
			vsym.Assert(eq(v, sad/N), "not the mean absolute deviation from the mean")
		case "numada":
			vsym.Assert(eq(v, wsad), "not the weighted absolute deviation from the mean")
		case "gradboost":
			vsym.Assert(vsym.Or(v == -1, sse <= 2e-7), "a node that is not pure is called pure")
			vsym.Assert(vsym.Implies(v == -1, sse > 0), "a pure node is not called pure")
		case "ord":
			// squared distance from a most frequent value
			ok := false
			for m := 0; m <= 9; m++ {
				cm, top := 0, true
				e := 0.0
				for _, c := range list {
					cm += vsym.IteI(x(c) == float64(m), 1, 0)
					d := x(c) - float64(m)
					e += d * d
				}
				for k := 0; k <= 9; k++ {
					ck := 0
					for _, c := range list {
						ck += vsym.IteI(x(c) == float64(k), 1, 0)
					}
					top = vsym.And(top, ck <= cm)
				}
				ok = vsym.Or(ok, vsym.And(top, eq(v, e/N)))
			}
			vsym.Assert(ok, "not the mean squared distance from a most frequent value")
		}
		return
	}
	nc := t.Cat.NCats()
	cnt := make([]float64, nc)
	for k := range cnt {
		for _, c := range list {
			cnt[k] += vsym.IteF(t.Cat.CatData[c] == k, 1, 0)
		}
	}
	xlogx := func(p float64) float64 {
		if p == 0 {
			return 0
		}
		return p * math.Log(p)
	}
	switch t.Kind {
	case "trans":
		e := 1.0
		for k := range cnt {
			e -= cnt[k] / N * cnt[k] / N
		}
		d := 1 / (N * N)
		for _, sp := range spans(t, list) {
			d *= vsym.IteF(sp > 0, sp, 1)
		}
		vsym.Assert(eq(v, e+0.5*d), "not the impurity of the labels plus the weighted density")
	case "cat":
		e := 1.0
		for k := range cnt {
			e -= cnt[k] / N * cnt[k] / N
		}
		vsym.Assert(eq(v, e), "not one minus the sum of squared fractions")
		vsym.Assert(eq(t.Cat.Gini(&cases), e), "Gini is not one minus the sum of squared fractions")
		vsym.Assert(eq(t.Cat.GiniWithoutAlocate(&cases, a.Counter), e), "Gini is not one minus the sum of squared fractions")
		for k := range cnt {
			vsym.Assert(float64((*a.Counter)[k]) == cnt[k], "the counter does not hold the class counts")
		}
	case "entropy":
		e := 0.0
		for k := range cnt {
			e -= xlogx(cnt[k] / N)
		}
		vsym.Assert(eq(v, e), "not the entropy")
	case "dentropy":
		e := 0.0
		for k := range cnt {
			e -= t.W[k] * xlogx(cnt[k]/N)
		}
		vsym.Assert(eq(v, e), "not the disutility entropy")
	case "wrf":
		s, tot := 0.0, 0.0
		for k := range cnt {
			s += cnt[k] * t.W[k] * cnt[k] * t.W[k]
			tot += cnt[k] * t.W[k]
		}
		vsym.Assert(eq(v, 1-s/(tot*tot)), "not the weighted Gini impurity")
	case "hdist":
		vsym.Assert(v == -1, "the node impurity of a Hellinger target is not its marker")
	default:
		// costs of the cases outside the predicted class
		ok := false
		for m := range cnt {
			val := func(k int) float64 {
				switch t.Kind {
				case "regret":
					return cnt[k] * t.W[k]
				case "np", "np0":
					if k == t.Pos {
						return cnt[k] / 0.3
					}
				}
				return cnt[k]
			}
			top := true
			e := 0.0
			for k := range cnt {
				top = vsym.And(top, val(k) <= val(m))
				if t.Kind == "regret" {
					e += vsym.IteF(k != m, cnt[k]*t.W[k]/N, 0)
				}
			}
			if t.Kind == "ada" || t.Kind == "adacost" {
				for _, c := range list {
					e += vsym.IteF(t.Cat.CatData[c] != m, t.W[c], 0) * cost(t, t.Cat.CatData[c])
				}
			}
			if t.Kind == "np" || t.Kind == "np0" {
				if m == t.Pos {
					e = math.Max((N-cnt[t.Pos])/N-0.3, 0) * 2
				} else {
					e = cnt[t.Pos] / N
				}
			}
			ok = vsym.Or(ok, vsym.And(top, eq(v, e)))
		}
		vsym.Assert(ok, "not the documented cost of the cases outside the predicted class")
	}
}

// spans are those of the categorical and the numeric feature a density is over.
func spans(t *Targ, list []int) [2]float64 {
	b, a := t.Feats[0].(*CF.DenseCatFeature), t.Feats[len(t.Feats)-1].(*CF.DenseNumFeature)
	lo, hi := a.NumData[list[0]], a.NumData[list[0]]
	c0, c1 := 0.0, 0.0
	for _, c := range list {
		lo = vsym.IteF(a.NumData[c] < lo, a.NumData[c], lo)
		hi = vsym.IteF(a.NumData[c] > hi, a.NumData[c], hi)
		c0 = vsym.IteF(b.CatData[c] == 0, 1, c0)
		c1 = vsym.IteF(b.CatData[c] == 1, 1, c1)
	}
	return [2]float64{c0 + c1, hi - lo}
}

func cost(t *Targ, k int) float64 {
	if t.Kind != "adacost" {
		return 1
	}
	w := 0.0
	for i, c := range []float64{1, 3, 0.5, 2} {
		w = vsym.IteF(k == i, c, w)
	}
	return w
}

// NumMeasures compares mean, error, span, sums and mode of a numeric feature with missing entries.
//
//gosym: C08 quick list=0..2 maporder=6 nomerge
//gosym: C08 thorough list=3 maporder=6 nomerge
func NumMeasures() {
	list := lists[vsym.Param("list")]
	n := rows(list)
	f := Num("f", n, []float64{-1, 0, 2.5}, true)
	var vals []float64
	for _, c := range list {
		if !f.Missing[c] {
			vals = append(vals, f.NumData[c])
		}
	}
	l1 := &CF.L1Target{NumFeature: f}
	pred := 0.5
	span := f.Span(&list, nil)
	if len(vals) == 0 {
		vsym.Assert(span == 0, "no cases span a distance")
		return
	}
	N := float64(len(vals))
	sum, lo, hi, se, ae := 0.0, vals[0], vals[0], 0.0, 0.0
	for _, v := range vals {
		sum += v
		lo = vsym.IteF(v < lo, v, lo)
		hi = vsym.IteF(v > hi, v, hi)
		se += (v - pred) * (v - pred)
		ae += vsym.IteF(v < pred, pred-v, v-pred)
	}
	vsym.Assert(eq(f.Mean(&list), sum/N), "not the mean of the cases that are not missing")
	vsym.Assert(eq(f.Predicted(&list), sum/N), "the predicted value is not the mean")
	vsym.Assert(eq(f.Error(&list, pred), se/N), "not the mean squared error")
	vsym.Assert(eq(l1.Error(&list, pred), ae/N), "not the mean absolute error")
	vsym.Log("span", span)
	vsym.Assert(span == hi-lo, "span is not largest minus smallest")
	m := f.Mode(&list)
	cm, top := 0, 0
	for _, v := range vals {
		k := 0
		for _, w := range vals {
			k += vsym.IteI(v == w, 1, 0)
		}
		top = vsym.IteI(k > top, k, top)
		cm += vsym.IteI(v == m, 1, 0)
	}
	vsym.Assert(cm == top, "the mode is not a most frequent value")
}

// CatMeasures compares mode, span and counts of a categorical feature with missing entries.
//
//gosym: C08 quick list=0..3 nc={1|2|3} nomerge
//gosym: C08 thorough list=4 nc=4 nomerge
func CatMeasures() {
	list := lists[vsym.Param("list")]
	n := rows(list)
	nc := vsym.Param("nc")
	f := Cat("f", n, nc, true)
	cnt := make([]int, nc)
	distinct, top, present := 0, 0, 0
	for k := range cnt {
		for _, c := range list {
			cnt[k] += vsym.IteI(vsym.And(!f.Missing[c], f.CatData[c] == k), 1, 0)
		}
		distinct += vsym.IteI(cnt[k] > 0, 1, 0)
		top = vsym.IteI(cnt[k] > top, cnt[k], top)
		present += cnt[k]
	}
	counter := make([]int, nc)
	for i := range counter {
		counter[i] = 7
	}
	vsym.Assert(f.Span(&list, &counter) == float64(distinct), "span is not the number of categories present")
	mi := f.Modei(&list)
	vsym.Log("mode", mi)
	if present > 0 {
		for k := range cnt {
			vsym.Assert(vsym.Implies(mi == k, cnt[k] == top), "the mode is not a most frequent category")
		}
	}
	vsym.Assert(f.Mode(&list) == f.Back[mi], "Mode and Modei disagree")
	all := make([]int, nc)
	f.CountPerCat(&list, &all)
	for k := range all {
		e := 0
		for _, c := range list {
			e += vsym.IteI(f.CatData[c] == k, 1, 0)
		}
		vsym.Assert(all[k] == e, "wrong count of a category")
	}
}

// HDist compares the Hellinger score of a split with its documented formula.
//
//gosym: C08 quick list=1..3 nomerge
//gosym: C08 thorough list=4 nomerge
func HDist() {
	list := lists[vsym.Param("list")]
	n := rows(list)
	t := Target("hdist", n, nil, 2)
	a := Allocs(n+len(list), t.Target)
	k := vsym.Conc(vsym.Int("cut", 1, len(list)-1))
	l, r := list[:k], list[k:]
	c := func(s []int, cat int) float64 {
		x := 0.0
		for _, i := range s {
			x += vsym.IteF(t.Cat.CatData[i] == cat, 1, 0)
		}
		return x
	}
	n0, n1 := c(list, 0), c(list, 1)
	if n0 == 0 || n1 == 0 {
		return
	}
	d := c(l, 1)/n1 - c(l, 0)/n0
	e := c(r, 1)/n1 - c(r, 0)/n0
	vsym.Assert(eq(t.SplitImpurity(&l, &r, nil, a), d*d+e*e), "not the documented Hellinger score")
}

// Friedman compares the gradient boosting score with Friedman's improvement.
//
//gosym: C08 quick list=1..3 nomerge
//gosym: C08 thorough list=4 nomerge
func Friedman() {
	list := lists[vsym.Param("list")]
	n := rows(list)
	t := Target("gradboost", n, []float64{0, 1, -3}, 0)
	a := Allocs(n+len(list), t.Target)
	k := vsym.Conc(vsym.Int("cut", 1, len(list)-1))
	l, r := list[:k], list[k:]
	m := func(s []int) float64 {
		x := 0.0
		for _, i := range s {
			x += t.Num.NumData[i]
		}
		return x / float64(len(s))
	}
	d := m(l) - m(r)
	nl, nr := float64(len(l)), float64(len(r))
	vsym.Assert(eq(t.SplitImpurity(&l, &r, nil, a), d*d*nl*nr/(nl+nr)), "not Friedman's improvement score")
}

// Wide is the density over several features, with more categories than the target has, of any cases.
//
//gosym: C08 quick list=1..3 t=trans nomerge
//gosym: C08 quick list=2..3 t=density nomerge
//gosym: C08 thorough list=4 t={trans|density} nomerge
func Wide() {
	const n = 7
	of := func(name string, nc int, v ...int) *CF.DenseCatFeature {
		f := EmptyCat(name, n, nc)
		f.CatData = v
		return f
	}
	c := of("C:c", 2, 0, 1, 1, 0, 1, 0, 0)
	b := of("C:b", 4, 3, 2, 3, 1, 0, 2, 3)
	d := of("C:d", 5, 4, 3, 2, 1, 0, 2, 4)
	x := NumOf("N:x", 1, 1, 4, 0.5, 1, -2, 1)
	y := NumOf("N:y", 3, 8, 3, 0.25, 9, 9, 3)
	feats := []CF.Feature{b, x, c, d, y}
	var list []int
	for i := 0; i < vsym.Param("list"); i++ {
		list = append(list, vsym.Conc(vsym.Int("case"+Itoa(i), 0, n-1)))
	}
	N := float64(len(list))
	var spans []float64
	for _, f := range []*CF.DenseCatFeature{b, d} {
		seen := map[int]bool{}
		for _, i := range list {
			seen[f.CatData[i]] = true
		}
		spans = append(spans, float64(len(seen)))
	}
	for _, f := range []*CF.DenseNumFeature{x, y} {
		lo, hi := f.NumData[list[0]], f.NumData[list[0]]
		for _, i := range list {
			lo, hi = math.Min(lo, f.NumData[i]), math.Max(hi, f.NumData[i])
		}
		spans = append(spans, hi-lo)
	}
	a := &CF.BestSplitAllocs{Counter: &[]int{0, 0}}
	cases := append([]int{}, list...)
	if vsym.ParamStr("t") == "density" {
		t := &CF.DensityTarget{Features: &[]CF.Feature{b, x, d, y}, N: n + 1}
		want := N * N / ((n + 1) * (n + 1))
		for _, s := range spans {
			vsym.Assume(s > 0)
			want /= s
		}
		for k := 0; k < 2; k++ {
			vsym.Assert(eq(t.Impurity(&cases, nil), want), "not the squared share of cases over the volume they span")
		}
		return
	}
	t := CF.NewTransTarget(c, &feats, "c1", 0.5, 0.4, n)
	p := 0.0
	for _, i := range list {
		p += float64(c.CatData[i]) / N
	}
	want := 0.5 / (N * N)
	for _, s := range spans {
		if s > 0 {
			want *= s
		}
	}
	for k := 0; k < 2; k++ {
		vsym.Assert(eq(t.Impurity(&cases, a.Counter), 1-p*p-(1-p)*(1-p)+want), "not the impurity of the labels plus the weighted density")
	}
}

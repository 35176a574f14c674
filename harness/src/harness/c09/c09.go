// Package c09 checks what a leaf predicts.
package c09

import (
	"math"
	"strconv"

	CF "github.com/ryanbressler/CloudForest"
	. "hlib"
	"vsym"
)

var lists = [][]int{{0}, {0, 1, 2}, {1, 0, 1, 2}, {2, 2, 0, 1, 3}, {4, 0, 1, 3, 2}}

func rows(list []int) int {
	n := 0
	for _, c := range list {
		n = max(n, c+1)
	}
	return n
}

func eq(a, b float64) bool { return vsym.Or(vsym.Same(a, b), Near(a, b)) }

func rev(s []int) []int {
	r := []int{}
	for i := len(s) - 1; i >= 0; i-- {
		r = append(r, s[i])
	}
	return r
}

func parse(s string) float64 {
	v, err := strconv.ParseFloat(s, 64)
	vsym.Assert(err == nil, "a numeric prediction does not parse")
	return v
}

// Numeric targets predict the mean, ordinal ones a most frequent value.
//
//gosym: C09 quick list=0..3 t={num|l1|numada|gradboost|ord} nomerge
//gosym: C09 thorough list=4 t={num|l1|numada|gradboost|ord} nomerge
func Numeric() {
	list := lists[vsym.Param("list")]
	n := rows(list)
	kind := vsym.ParamStr("t")
	pal := []float64{-1.5, 0.1, 3}
	if kind == "ord" {
		pal = []float64{0, 1, 3}
	}
	numeric(Target(kind, n, pal, 0), list)
}

func numeric(t *Targ, list []int) {
	p := t.FindPredicted(append([]int{}, list...))
	v := parse(p)
	if len(list) < 10 {
		vsym.Log("pred", v)
	}
	vsym.Assert(eq(parse(t.FindPredicted(rev(list))), v), "the prediction depends on the order of the cases")
	if t.Kind == "ord" {
		cv, top := 0, 0
		for _, c := range list {
			k := 0
			for _, d := range list {
				k += vsym.IteI(t.Num.NumData[c] == t.Num.NumData[d], 1, 0)
			}
			top = vsym.IteI(k > top, k, top)
			cv += vsym.IteI(t.Num.NumData[c] == v, 1, 0)
		}
		vsym.Assert(cv == top, "the prediction is not a most frequent value")
		return
	}
	sum := 0.0
	for _, c := range list {
		sum += t.Num.NumData[c]
	}
	vsym.Assert(eq(v, sum/float64(len(list))), "the prediction is not the mean")
	vsym.Assert(vsym.Same(v, t.Num.Predicted(&list)), "the text of a prediction is another number")
}

// AnyValue: the text of a one-case leaf is exactly the value.
//
//gosym: C09 quick nomerge
func AnyValue() {
	f := Num("t", 2, []float64{0, 1, -1, 0.1, 1.0 / 3, 1e300, -1e-300, 5e-324, 1e21, 123456789.125, 4503599627370497.5, math.MaxFloat64}, false)
	v := parse(f.FindPredicted([]int{0}))
	vsym.Assert(v == f.NumData[0], "the text of a prediction is another number")
	w := parse(f.FindPredicted([]int{0, 1}))
	vsym.Assert(vsym.Same(w, (f.NumData[0]+f.NumData[1])/2), "the text of a prediction is another number")
}

// Categorical targets predict a category that no other outvotes under their weights.
//
//gosym: C09 quick list=0..3 nc=3 t={cat|entropy|wrf|regret|np|np0|ada|adacost} nomerge
//gosym: C09 thorough list=4 nc=3..4 t={cat|entropy|wrf|regret|np|np0|ada|adacost} nomerge
func Categorical() {
	list := lists[vsym.Param("list")]
	n := rows(list)
	nc := vsym.Param("nc")
	categorical(Target(vsym.ParamStr("t"), n, nil, nc), nc, list)
}

// Long predicts from many cases, few of them symbolic.
//
//gosym: C09 quick n=40 nc=4 t={num|l1|numada|gradboost|ord|cat|entropy|wrf|regret|np|np0|ada|adacost} nomerge
//gosym: C09 thorough n=130 nc=4 t={num|l1|numada|gradboost|ord|cat|entropy|wrf|regret|np|np0|ada|adacost} nomerge
func Long() {
	n, nc := vsym.Param("n"), vsym.Param("nc")
	t := ManyTarget(vsym.ParamStr("t"), n, 2, nc)
	list := append(Scramble(5, n, n), Seq(n)...)
	if t.Num != nil {
		numeric(t, list)
	} else {
		categorical(t, nc, list)
	}
}

func categorical(t *Targ, nc int, list []int) {
	p := t.FindPredicted(append([]int{}, list...))
	vsym.Log("pred", p)
	vsym.Assert(t.FindPredicted(rev(list)) == p, "the prediction depends on the order of the cases")
	votes := make([]float64, nc)
	for k := range votes {
		for _, c := range list {
			votes[k] += vsym.IteF(t.Cat.CatData[c] == k, 1, 0)
		}
		switch t.Kind {
		case "wrf", "regret":
			votes[k] *= t.W[k]
		case "np", "np0":
			if k == t.Pos {
				votes[k] /= 0.3
			}
		}
	}
	known := false
	for k := range votes {
		for j := range votes {
			vsym.Assert(vsym.Implies(p == CatName(k), votes[j] <= votes[k]), "another category outvotes the predicted one")
		}
		known = vsym.Or(known, p == CatName(k))
	}
	vsym.Assert(known, "the prediction is not a category")
	vsym.Assert(t.Cat.NCats() == nc, "predicting added a category")
}

// Unknown: cases whose target is missing have no say.
//
//gosym: C09 quick list=1..3 t={num|l1|ord|numada|cat|entropy|wrf} nomerge covers=missing
//gosym: C09 thorough list=4 t={num|l1|ord|numada|cat|entropy|wrf} nomerge
func Unknown() {
	list := lists[vsym.Param("list")]
	n := rows(list)
	t := Target(vsym.ParamStr("t"), n, []float64{0, 1, -3}, 3)
	miss := make([]bool, n)
	some := false
	for i := range miss {
		miss[i] = vsym.Bool("m" + Itoa(i))
		some = vsym.Or(some, miss[i])
	}
	if t.Num != nil {
		copy(t.Num.Missing, miss)
		t.Num.HasMissing = some
	} else {
		copy(t.Cat.Missing, miss)
		t.Cat.HasMissing = some
	}
	var known []int
	for _, c := range list {
		if !miss[c] {
			known = append(known, c)
		}
	}
	if len(known) == 0 {
		return
	}
	if len(known) < len(list) {
		vsym.Cover("missing")
	}
	p := t.FindPredicted(append([]int{}, list...))
	vsym.Log("pred", p)
	vsym.Assert(p == t.FindPredicted(known), "cases whose target is missing change the prediction")
}

// Share: Hellinger and disutility targets predict the share of the positive class.
//
//gosym: C09 quick list=0..3 nomerge
//gosym: C09 thorough list=4 nomerge
func Share() {
	list := lists[vsym.Param("list")]
	n := rows(list)
	f := EmptyCat("t", n, 0)
	for _, s := range []string{"False", "True"} {
		f.CatMap.Map[s] = len(f.Back)
		f.CatMap.Back = append(f.CatMap.Back, s)
	}
	for i := 0; i < n; i++ {
		f.CatData[i] = vsym.Int("t."+Itoa(i), 0, 1)
	}
	pos, all := 0.0, 0.0
	wpos, wall := 0.0, 0.0
	for _, c := range list {
		pos += vsym.IteF(f.CatData[c] == 1, 1, 0)
		all++
		wpos += vsym.IteF(f.CatData[c] == 1, 5, 0)
		wall += vsym.IteF(f.CatData[c] == 1, 5, 0.5)
	}
	h := CF.NewHDistanceTarget(f, "True")
	vsym.Assert(eq(parse(h.FindPredicted(list)), pos/all), "not the share of the positive class")
	d := CF.NewDEntropyTarget(f)
	d.SetCosts(map[string]float64{"True": 5, "False": 0.5})
	vsym.Assert(eq(parse(d.FindPredicted(list)), wpos/wall), "not the cost-weighted share of the positive class")
	vsym.Assert(f.NCats() == 2, "predicting added a category")
}

// Trans predicts the mode with the unlabelled class weighted by beta.
//
//gosym: C09 quick list=0..3 nomerge
//gosym: C09 thorough list=4 nomerge
func Trans() {
	list := lists[vsym.Param("list")]
	n := rows(list)
	f := Cat("t", n, 3, false)
	fs := []CF.Feature{}
	t := CF.NewTransTarget(f, &fs, "c1", 0.5, 0.4, n)
	p := t.FindPredicted(list)
	votes := make([]float64, 3)
	for k := range votes {
		for _, c := range list {
			votes[k] += vsym.IteF(f.CatData[c] == k, 1, 0)
		}
	}
	votes[1] *= 0.4
	for k := range votes {
		for j := range votes {
			vsym.Assert(vsym.Implies(p == CatName(k), votes[j] <= votes[k]), "another category outvotes the predicted one")
		}
	}
}

// GradBoostClass leaves predict the Newton step of the residuals.
//
//gosym: C09 quick list=0..2 nomerge
//gosym: C09 thorough list=3..4 nomerge
func GradBoostClass() {
	list := lists[vsym.Param("list")]
	n := rows(list)
	f := Cat("t", n+2, 2, false)
	f.CatData[n], f.CatData[n+1] = 0, 1
	t := CF.NewGradBoostClassTarget(f, 0.5, "c1")
	num, den := 0.0, 0.0
	for _, c := range list {
		y := vsym.IteF(f.CatData[c] == 1, 1, 0)
		r := t.Get(c)
		num += r
		den += (y - r) * (1 - y + r)
	}
	vsym.Assert(eq(parse(t.FindPredicted(list)), num/den), "not the sum of residuals over the sum of p(1-p)")
}

// Density predicts the share of cases per span.
//
//gosym: C09 quick list=1..2 nomerge
//gosym: C09 thorough list=3 nomerge
func Density() {
	list := lists[vsym.Param("list")]
	n := rows(list)
	a, b := Num("a", n, []float64{0, 1, 3}, false), Cat("b", n, 2, false)
	fs := []CF.Feature{a, b}
	t := &CF.DensityTarget{Features: &fs, N: 10}
	lo, hi := a.NumData[list[0]], a.NumData[list[0]]
	c0, c1 := 0.0, 0.0
	for _, c := range list {
		lo = vsym.IteF(a.NumData[c] < lo, a.NumData[c], lo)
		hi = vsym.IteF(a.NumData[c] > hi, a.NumData[c], hi)
		c0 = vsym.IteF(b.CatData[c] == 0, 1, c0)
		c1 = vsym.IteF(b.CatData[c] == 1, 1, c1)
	}
	if hi == lo {
		return
	}
	want := float64(len(list)) / 10 / (hi - lo) / (c0 + c1)
	vsym.Assert(eq(parse(t.FindPredicted(list)), want), "not the share of the cases over the product of spans")
	imp := float64(len(list)*len(list)) / 100 / (hi - lo) / (c0 + c1)
	vsym.Assert(eq(t.Impurity(&list, nil), imp), "the density impurity is not the squared share over the product of spans")
}

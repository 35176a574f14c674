// Package c06 checks the search over candidate features.
package c06

import (
	"sort"

	CF "github.com/ryanbressler/CloudForest"
	. "hlib"
	"vsym"
)

const minImp = 1e-7

// lay has the features of the matrix: n numeric, m numeric with missing, c categorical, 0 a
// constant that is already known and kept at the end of the candidates.
func build(lay string, n int) (fm *CF.FeatureMatrix, cans []int, known int) {
	var fs []CF.Feature
	for i := range lay {
		name := "f" + Itoa(i)
		switch lay[i] {
		case 'n':
			fs = append(fs, Num(name, n, []float64{0, 1}, false))
		case 'm':
			fs = append(fs, Num(name, n, []float64{0, 1}, true))
		case 'c':
			fs = append(fs, Cat(name, n, 2, false))
		case 'k': // not constant, fixed values
			f := Num(name, n, []float64{0}, false)
			for j := range f.NumData {
				f.NumData[j] = float64((j + i) % 2)
			}
			fs = append(fs, f)
		case '0':
			fs = append(fs, Num(name, n, []float64{0}, false))
			known++
		}
	}
	// the target is the last feature and no candidate
	return FM(Labels(n), fs...), Seq(len(lay)), known
}

func abs(x float64) float64 {
	if x < 0 {
		return -x
	}
	return x
}

// Search runs one search with symbolic draws and compares it with every candidate on its own.
//
//gosym: C06 quick lay={nn|nc|nn0|kk} n=3 try=1..4 leaf=1 force=0..1 t=num nomerge
//gosym: C06 quick lay={nc0|m0|kn} n=3 try=1..3 leaf=1..2 force=0..1 t=cat nomerge
//gosym: C06 quick lay={k0n|nkk} n=3 try={1|3|5} leaf=1 force=0..1 t=num nomerge
//gosym: C06 thorough lay={nnc|nm0|nk00|kkk0} n=3 try=1..5 leaf=1..2 force=0..1 t={num|cat} nomerge
//gosym: C06 thorough lay={nn|mc|kn0} n=4 try=1..4 leaf=1..2 force=0..1 t={num|entropy|l1} nomerge
func Search() {
	lay := vsym.ParamStr("lay")
	n := vsym.Param("n")
	mTry := vsym.Param("try")
	leaf := vsym.Param("leaf")
	force := vsym.Param("force") == 1
	fm, _, known := build(lay, n)
	// known constants are at the end
	var head, tail []int
	for i := range lay {
		if lay[i] == '0' {
			tail = append(tail, i)
		} else {
			head = append(head, i)
		}
	}
	isKnown := map[int]bool{}
	for _, i := range tail {
		isKnown[i] = true
	}
	search(fm, Target(vsym.ParamStr("t"), n, []float64{-1, 2}, 2), append(head, tail...), isKnown, known, n, mTry, leaf, force)
}

func search(fm *CF.FeatureMatrix, t *Targ, cans []int, isKnown map[int]bool, known, n, mTry, leaf int, force bool) {
	lay := append([]int{}, cans...)
	list := Seq(n)
	a := Allocs(n, t.Target)
	cases := append([]int{}, list...)
	fi, split, dec, consts := fm.BestSplitter(t.Target, &cases, &cans, mTry, nil, leaf, force, false, false, false, a, known)
	if n < 10 {
		vsym.Log("dec", dec)
	}
	for i := range lay {
		vsym.Assert(Count(cans, i) == 1, "the candidates are no longer a permutation")
	}
	for i := 0; i < n; i++ {
		vsym.Assert(Count(cases, i) == 1, "the cases are no longer a permutation")
	}
	vsym.Assert(dec >= minImp && (split != nil) == (dec > minImp), "a split is returned without a decrease or a decrease without a split")
	b := Allocs(n, t.Target)
	parent := t.Impurity(&list, b.Counter)
	if parent <= minImp && parent >= 0 {
		vsym.Assert(split == nil && dec == minImp && consts == known, "a pure node was split")
		return
	}
	// each candidate on its own
	better, good, nconst := 0, 0, 0
	decs := make([]float64, len(lay))
	isConst := make([]bool, len(lay))
	for i := range lay {
		c := append([]int{}, list...)
		b := Allocs(n, t.Target)
		_, d, k := fm.Data[i].BestSplit(t.Target, &c, parent, leaf, false, b)
		decs[i], isConst[i] = d, k
		vsym.Assert(!k || d <= minImp, "a feature that splits was called constant")
		better += vsym.IteI(d > minImp && d > dec+1e-9, 1, 0)
		good += vsym.IteI(k, 0, 1)
		nconst += vsym.IteI(k || isKnown[i], 1, 0)
	}
	if split != nil {
		vsym.Cover("split")
		vsym.Assert(abs(decs[fi]-dec) < 1e-9, "the reported decrease is not the one of the reported feature")
		l, r, _ := fm.Data[fi].Split(split, append([]int{}, list...))
		vsym.Assert(len(l) >= leaf && len(r) >= leaf, "the reported split leaves a side smaller than leafSize")
	}
	vsym.Assert(better <= max(0, len(lay)-mTry), "a better candidate was drawn and not reported")
	if force && good > 0 {
		vsym.Assert(better < good, "force gave up before looking at one candidate that is not constant")
	}
	vsym.Assert(consts >= known && consts <= len(lay), "the number of constants is out of range")
	for i := len(cans) - consts; i < len(cans); i++ {
		vsym.Assert(isConst[cans[i]] || isKnown[cans[i]], "a candidate kept as constant is not constant")
	}
	if mTry >= len(lay) {
		vsym.Assert(consts == nconst, "not all constants were found")
	}
}

// EveryFeature: with one feature drawn per node each candidate is equally likely: two searches that
// examine the same feature used the same draw, and there are as many draws as candidates.
//
//gosym: C06 quick n=4 lay={kkk|kkkk} nomerge
func EveryFeature() {
	lay := vsym.ParamStr("lay")
	n := vsym.Param("n")
	var fs []CF.Feature
	// all features split perfectly, so the reported one is the drawn one
	for i := range lay {
		fs = append(fs, NumOf("f"+Itoa(i), 0, 0, 1, 1))
	}
	fm := FM(Labels(n), fs...)
	t := NumOf("t", 0, 0, 1, 1)
	pick := func() (int, int) {
		a := CF.NewBestSplitAllocs(n, t)
		d := vsym.Draws()
		cans := Seq(len(lay))
		cases := Seq(n)
		fi, _, _, _ := fm.BestSplitter(t, &cases, &cans, 1, nil, 1, false, false, false, false, a, 0)
		vsym.Assert(vsym.DrawN(d) == len(lay), "the draw does not range over all candidates")
		return fi, vsym.DrawVal(d)
	}
	f1, d1 := pick()
	f2, d2 := pick()
	vsym.Assert(vsym.Implies(f1 == f2, d1 == d2), "two draws lead to the same candidate")
}

// Oob scores splits on the cases the tree isn't grown from.
//
//gosym: C06 quick lay={n|m|c} n=4 all=0..1 try=1 t={num|cat} nomerge covers=split
//gosym: C06 quick lay=km n=3 all=1 try=2 t={num|cat} nomerge
//gosym: C06 thorough lay={nc|mc} n=4 all=0..1 try=2 t={num|cat} nomerge
func Oob() {
	lay := vsym.ParamStr("lay")
	n := vsym.Param("n")
	fm, cans, known := build(lay, n)
	t := Target(vsym.ParamStr("t"), n, []float64{-1, 2}, 2)
	a := Allocs(n, t.Target)
	cases, oob := Seq(n)[:2], Seq(n)[1-vsym.Param("all"):]
	fi, split, dec, _ := fm.BestSplitter(t.Target, &cases, &cans, vsym.Param("try"), &oob, 1, false, false, true, false, a, known)
	vsym.Log("dec", dec)
	for i := range lay {
		vsym.Assert(Count(cans, i) == 1, "the candidates are no longer a permutation")
	}
	for i := 0; i < n; i++ {
		vsym.Assert(i >= 2 || Count(cases, i) == 1, "the cases are no longer a permutation")
		vsym.Assert(i < 1-vsym.Param("all") || Count(oob, i) == 1, "the out of bag cases are no longer a permutation")
	}
	vsym.Assert((split != nil) == (dec > minImp), "a split is returned without a decrease or a decrease without a split")
	if split != nil {
		vsym.Cover("split")
		l, r, m := fm.Data[fi].Split(split, append([]int{}, oob...))
		vsym.Assert(abs(dec-Dec(t, oob, l, r, m)) < 1e-9, "the reported decrease is not the one on the out of bag cases")
	}
	if len(lay) > 1 {
		return
	}
	// the only candidate is taken when it is good for both sets of cases
	b := Allocs(n, t.Target)
	c := append([]int{}, cases...)
	parent := t.Impurity(&c, b.Counter)
	s, d, _ := fm.Data[0].BestSplit(t.Target, &c, parent, 1, false, b)
	if d > minImp {
		l, r, m := fm.Data[0].Split(s, append([]int{}, oob...))
		vsym.Assert((split != nil) == (Dec(t, oob, l, r, m) > minImp), "the only candidate's decrease is misjudged")
	} else {
		vsym.Assert(split == nil, "a feature that doesn't split the cases was reported")
	}
}

// Vet penalises splits with a shuffled target and must not disturb target, candidates or cases.
//
//gosym: C06 quick n=3 try=1..3 oob=0..1 t={num|cat} nomerge
//gosym: C06 thorough n=4 try=2 oob=0..1 t={num|cat} nomerge
func Vet() {
	n := vsym.Param("n")
	mTry := vsym.Param("try")
	evaloob := vsym.Param("oob") == 1
	fm, cans, known := build("kn", n)
	t := Target(vsym.ParamStr("t"), n, []float64{-1, 2}, 2)
	a := Allocs(n, t.Target)
	cases, oob := Seq(n), Seq(n-1)
	var before []string
	for i := 0; i < n; i++ {
		before = append(before, t.Target.(CF.Feature).GetStr(i))
	}
	_, split, dec, _ := fm.BestSplitter(t.Target, &cases, &cans, mTry, &oob, 1, false, true, evaloob, false, a, known)
	vsym.Assert(Count(cans, 0) == 1 && Count(cans, 1) == 1, "the candidates are no longer a permutation")
	for i := 0; i < n; i++ {
		vsym.Assert(Count(cases, i) == 1, "the cases are no longer a permutation")
		vsym.Assert(i >= n-1 || Count(oob, i) == 1, "the out of bag cases are no longer a permutation")
		vsym.Assert(t.Target.(CF.Feature).GetStr(i) == before[i], "vetting changed the target")
	}
	vsym.Assert((split != nil) == (dec > minImp), "a split is returned without a decrease or a decrease without a split")
	if !evaloob {
		b := Allocs(n, t.Target)
		list := Seq(n)
		parent := t.Impurity(&list, b.Counter)
		top := minImp
		for i := range fm.Data {
			c := Seq(n)
			b := Allocs(n, t.Target)
			_, d, _ := fm.Data[i].BestSplit(t.Target, &c, parent, 1, false, b)
			top = vsym.IteF(d > top, d, top)
		}
		vsym.Assert(dec <= top+1e-9, "vetting raised a decrease")
	}
}

// Penalty: vetting takes off the decrease the same candidate has for the target shuffled among the cases.
//
//gosym: C06 quick lay={n|m|c} n=3 extra=0..1 t={num|cat} nomerge
//gosym: C06 thorough lay={n|m|c} n=4 extra=0 t={num|cat} nomerge covers=split
func Penalty() {
	n := vsym.Param("n")
	fm, cans, known := build(vsym.ParamStr("lay"), n)
	t := Target(vsym.ParamStr("t"), n, []float64{-1, 2}, 2)
	a := Allocs(n, t.Target)
	cases := Seq(n)[:n-vsym.Param("extra")] // cases that aren't searched stay out
	_, split, dec, _ := fm.BestSplitter(t.Target, &cases, &cans, 1, nil, 1, false, true, false, false, a, known)
	sort.Ints(cases)
	parent := t.Impurity(&cases, Allocs(n, t.Target).Counter)
	c := append([]int{}, cases...)
	_, d, _ := fm.Data[0].BestSplit(t.Target, &c, parent, 1, false, Allocs(n, t.Target))
	if d <= minImp || parent <= minImp && parent >= 0 {
		vsym.Assert(split == nil, "a feature that doesn't split the cases was reported")
		return
	}
	found := false
	perms(cases, func(p []int) {
		contrast := t.Target.(CF.Feature).Copy()
		for i, from := range p {
			switch f := contrast.(type) {
			case *CF.DenseNumFeature:
				f.NumData[cases[i]] = t.Num.NumData[from]
			case *CF.DenseCatFeature:
				f.CatData[cases[i]] = t.Cat.CatData[from]
			}
		}
		c := append([]int{}, cases...)
		_, v, _ := fm.Data[0].BestSplit(contrast.(CF.Target), &c, parent, 1, false, Allocs(n, t.Target))
		if split != nil {
			found = vsym.Or(found, abs(d-v-dec) < 1e-9)
		} else {
			found = vsym.Or(found, d-v <= minImp+1e-9)
		}
	})
	if split != nil {
		vsym.Cover("split")
	}
	vsym.Assert(found, "no shuffled target explains the decrease left by vetting")
}

// perms calls f with every order of list.
func perms(list []int, f func([]int)) {
	if len(list) == 0 {
		f(nil)
		return
	}
	for i := range list {
		rest := append(append([]int{}, list[:i]...), list[i+1:]...)
		perms(rest, func(p []int) { f(append([]int{list[i]}, p...)) })
	}
}

// Wide has many candidates and cases; the first draws are symbolic, later ones fixed.
//
//gosym: C06 quick f=12 n=20 try={1|2|5|12|14} leaf=2 force=0..1 t=num free=1 nomerge
//gosym: C06 quick f=30 n=12 try={4|30} leaf=1 force=0..1 t=cat free=1 nomerge
//gosym: C06 thorough f=12 n=20 try={2|5|12} leaf=2 force=0..1 t={num|entropy} free=2 nomerge
//gosym: C06 thorough f=60 n=12 try={20|64} leaf=1 force=0..1 t=cat free=1 nomerge
func Wide() {
	nf, n := vsym.Param("f"), vsym.Param("n")
	mTry := vsym.Param("try")
	var fs []CF.Feature
	var cans, tail []int
	for i := 0; i < nf; i++ {
		name := "f" + Itoa(i)
		switch i % 4 {
		case 0:
			fs = append(fs, ManyNum(name, i, n, 20, 0, nil, i%8 == 0))
		case 1:
			fs = append(fs, ManyCat(name, i, n, 5, 4, 0, i%8 == 1))
		case 2:
			fs = append(fs, NumOf(name, make([]float64, n)...))
		default:
			f := NumOf(name, make([]float64, n)...)
			f.NumData[n/2] = vsym.Float(name, 0, 1)
			fs = append(fs, f)
			if i > 8 {
				f.NumData[n/2] = 0
				tail = append(tail, i)
				continue
			}
		}
		cans = append(cans, i)
	}
	known := len(tail)
	isKnown := map[int]bool{}
	for _, i := range tail {
		isKnown[i] = true
	}
	fm := FM(Labels(n), fs...)
	search(fm, ManyTarget(vsym.ParamStr("t"), n, 1, 2), append(cans, tail...), isKnown, known, n, mTry, vsym.Param("leaf"), vsym.Param("force") == 1)
}

// Package c21 checks the samplers.
package c21

import (
	CF "github.com/ryanbressler/CloudForest"
	. "hlib"
	"vsym"
)

func ways(d, e int) int {
	w := 1
	for i := d; i < e; i++ {
		w *= vsym.DrawN(i)
	}
	return w
}

func sameDraws(d1, d2, k int) bool {
	eq := true
	for i := 0; i < k; i++ {
		eq = vsym.And(eq, vsym.DrawVal(d1+i) == vsym.DrawVal(d2+i))
	}
	return eq
}

// Replacement draws every case uniformly.
//
//gosym: C21 quick k=0..3 total=1..3
//gosym: C21 thorough k=4 total=4
func Replacement() {
	k, total := vsym.Param("k"), vsym.Param("total")
	d1 := vsym.Draws()
	a := CF.SampleWithReplacment(k, total)
	d2 := vsym.Draws()
	b := CF.SampleWithReplacment(k, total)
	vsym.Assert(len(a) == k && len(b) == k, "there is another number of samples")
	eq := true
	w := 1
	for i := range a {
		vsym.Log("case", a[i])
		vsym.Assert(a[i] >= 0 && a[i] < total, "a sample is out of range")
		eq = vsym.And(eq, a[i] == b[i])
		w *= total
	}
	vsym.Assert(ways(d1, d2) == w && vsym.Draws()-d2 == d2-d1, "the draws don't match the number of outcomes")
	vsym.Assert(vsym.Implies(eq, sameDraws(d1, d2, d2-d1)), "two draws lead to one sample, so samples aren't equally likely")
}

// Balanced draws every class that has cases equally often, and its cases uniformly.
//
//gosym: C21 quick n=1..4 nc=1..3 nomerge
//gosym: C21 thorough n=5 nc=3 nomerge
func Balanced() {
	n, nc := vsym.Param("n"), vsym.Param("nc")
	f := Cat("C:t", n, nc, true)
	present := make([]int, nc)
	size := make([]int, nc)
	classes := 0
	for k := range size {
		for i := 0; i < n; i++ {
			size[k] += vsym.IteI(!f.Missing[i] && f.CatData[i] == k, 1, 0)
		}
		present[k] = vsym.IteI(size[k] > 0, 1, 0)
		classes += present[k]
	}
	vsym.Assume(classes > 0)
	s := CF.NewBalancedSampler(f)
	samples := []int{7, 7, 7}
	d1 := vsym.Draws()
	s.Sample(&samples, 1)
	d2 := vsym.Draws()
	vsym.Assert(len(samples) == 1, "there is another number of samples")
	c := vsym.Conc(samples[0])
	vsym.Assert(c >= 0 && c < n, "a sample is out of range")
	vsym.Assert(!f.Missing[c], "a case whose class is missing is drawn")
	k := vsym.Conc(f.CatData[c])
	vsym.Assert(ways(d1, d2) == classes*size[k], "a case isn't drawn with the chance of its class")
	s.Sample(&samples, 1)
	vsym.Assert(len(samples) == 1, "there is another number of samples")
	vsym.Assert(vsym.Implies(samples[0] == c, vsym.Draws()-d2 == d2-d1 && sameDraws(d1, d2, d2-d1)), "two draws lead to one case, so cases aren't drawn with the chance of their class")
	s.Sample(&samples, 2)
	vsym.Assert(len(samples) == 2, "there is another number of samples")
	for _, c := range samples {
		c := vsym.Conc(c)
		vsym.Assert(c >= 0 && c < n && !f.Missing[c], "a case whose class is missing is drawn")
	}
	s.Sample(&samples, 0)
	vsym.Assert(len(samples) == 0, "there is another number of samples")
}

// Secondary draws the classes of a second feature at their rate, within them each class of the target
// that has cases equally often, and cases uniformly.
//
//gosym: C21 quick n=1..3 nc=2 ns=2 nomerge
//gosym: C21 quick n=3 nc=3 ns=1 nomerge
//gosym: C21 thorough n=3 nc=2 ns=3 nomerge
//gosym: C21 thorough n=4 nc=2 ns=2 nomerge
func Secondary() {
	n, nc, ns := vsym.Param("n"), vsym.Param("nc"), vsym.Param("ns")
	t, by := Cat("C:t", n, nc, true), Cat("C:by", n, ns, true)
	var known []int
	for i := 0; i < n; i++ { // all assignments one by one
		if t.Missing[i] || by.Missing[i] {
			continue
		}
		t.CatData[i], by.CatData[i] = vsym.Conc(t.CatData[i]), vsym.Conc(by.CatData[i])
		known = append(known, i)
	}
	vsym.Assume(len(known) > 0)
	secondary(t, by, known, nc, ns)
}

// Many is Secondary with many classes of few cases.
//
//gosym: C21 quick n=8 nc=2 ns=6 nomerge
//gosym: C21 quick n=14 nc=2 ns=12 nomerge
//gosym: C21 thorough n=18 nc=2 ns=16 nomerge
func Many() {
	n, nc, ns := vsym.Param("n"), vsym.Param("nc"), vsym.Param("ns")
	t, by := Cat("C:t", n, nc, false), Cat("C:by", n, ns, false)
	var known []int
	for i := 0; i < n; i++ {
		t.CatData[i], by.CatData[i] = i/ns, (i*5)%ns
		known = append(known, i)
	}
	secondary(t, by, known, nc, ns)
}

func secondary(t, by *CF.DenseCatFeature, known []int, nc, ns int) {
	rate := make([]int, ns)
	cell := make([][]int, ns)
	classes := make([]int, ns)
	for k := range cell {
		cell[k] = make([]int, nc)
	}
	for _, i := range known {
		rate[by.CatData[i]]++
		if cell[by.CatData[i]][t.CatData[i]] == 0 {
			classes[by.CatData[i]]++
		}
		cell[by.CatData[i]][t.CatData[i]]++
	}
	s := CF.NewSecondaryBalancedSampler(t, by)
	draw := func() (c, d int) {
		samples := []int{9}
		d = vsym.Draws()
		s.Sample(&samples, 1)
		vsym.Assert(len(samples) == 1, "there is another number of samples")
		c = samples[0]
		vsym.Assert(Count(known, vsym.Conc(c)) == 1, "a case whose class is missing is drawn")
		vsym.Assert(vsym.Draws()-d == 3, "a sample isn't made from three draws")
		return vsym.Conc(c), d
	}
	c, d := draw()
	b := by.CatData[c]
	vsym.Assert(vsym.DrawN(d) == len(known) && vsym.DrawN(d+1)*vsym.DrawN(d+2) == classes[b]*cell[b][t.CatData[c]], "a case isn't drawn with the chance of its class")
	e, d2 := draw()
	vsym.Assert(c != e || sameDraws(d+1, d2+1, 2), "two draws lead to one case, so cases aren't drawn with the chance of their class")
	// no more draws lead to the class b than there are cases in it
	at := []int{d, d2}
	all := by.CatData[e] == b
	for i := 1; i < rate[b]; i++ {
		g, d3 := draw()
		at = append(at, d3)
		all = all && by.CatData[g] == b
	}
	distinct := true
	for i := range at {
		for j := 0; j < i; j++ {
			distinct = vsym.And(distinct, vsym.DrawVal(at[i]) != vsym.DrawVal(at[j]))
		}
	}
	vsym.Assert(!(all && distinct), "a class of the second feature is drawn at another rate than its share")
}

// First moves a uniformly chosen ordered sample to the front of a deck.
//
//gosym: C21 quick len=0..3 k=0..4 nomerge
//gosym: C21 thorough len=4 k=0..4 nomerge
func First() {
	l, k := vsym.Param("len"), vsym.Param("k")
	run := func() ([]int, int) {
		var deck, s []int
		for i := 0; i < l; i++ {
			deck = append(deck, 10+i)
		}
		d := vsym.Draws()
		CF.SampleFirstN(&deck, &s, k, 0)
		m := min(k, l)
		vsym.Assert(len(s) == m && len(deck) == l, "there is another number of samples")
		for i := 0; i < l; i++ {
			vsym.Assert(Count(deck, 10+i) == 1, "the deck is no longer a permutation")
		}
		w := 1
		for i := 0; i < m; i++ {
			w *= l - i
			vsym.Assert(s[i] == deck[i], "the samples aren't the front of the deck")
		}
		vsym.Assert(ways(d, vsym.Draws()) == w, "the draws don't match the number of outcomes")
		return s, d
	}
	a, d1 := run()
	b, d2 := run()
	eq := true
	for i := range a {
		eq = vsym.And(eq, a[i] == b[i])
	}
	vsym.Assert(vsym.Implies(eq, sameDraws(d1, d2, d2-d1)), "two draws lead to one sample, so samples aren't equally likely")
}

// Constants at the end of the deck are never moved or sampled, but take up tries as if the whole deck
// was drawn from without replacement.
//
//gosym: C21 quick len=1..3 k=0..4 const=0..3 nomerge
//gosym: C21 thorough len=4..5 k=1..5 const=1..4 nomerge
func Constants() {
	l, k, con := vsym.Param("len"), vsym.Param("k"), vsym.Param("const")
	if con > l {
		return
	}
	var deck, s []int
	for i := 0; i < l; i++ {
		deck = append(deck, 10+i)
	}
	d := vsym.Draws()
	CF.SampleFirstN(&deck, &s, k, con)
	w := 1
	for i := 0; i < k && i < l-con; i++ {
		w *= l - i
	}
	vsym.Assert(ways(d, vsym.Draws()) == w, "the draws aren't those of drawing from the whole deck without replacement")
	vsym.Assert(len(s) <= k && len(s) <= l-con, "there are too many samples")
	//fewer only if a constant could be drawn in its place
	vsym.Assert(len(s) >= min(k, l-con)-con, "there are too few samples")
	for i := 0; i < l; i++ {
		vsym.Assert(Count(deck, 10+i) == 1, "the deck is no longer a permutation")
		if i >= l-con {
			vsym.Assert(deck[i] == 10+i, "a constant moved")
		}
	}
	for i := range s {
		vsym.Assert(s[i] == deck[i] && s[i] < 10+l-con, "a constant is sampled")
	}
}

// Package c22 checks the ballot boxes.
package c22

import (
	CF "github.com/ryanbressler/CloudForest"
	. "hlib"
	"math"
	"strconv"
	"vsym"
)

var weights = []float64{1, 0, 1e-9, 0.5, 3}

// vote describes a vote; value is the number cast, if ok.
type vote struct {
	at     int
	text   string
	value  float64
	ok     bool
	weight float64
}

var texts = []string{"2", "-0.25", "1e9", "NA", "x", "", "NaN"}
var values = []float64{2, -0.25, 1e9}

// cast draws k votes for n cases, kt texts and kw weights.
func cast(k, n, kt, kw int) []vote {
	var votes []vote
	for i := 0; i < k; i++ {
		s := Itoa(i)
		v := vote{at: vsym.Conc(vsym.Int("at"+s, 0, n-1))}
		t := vsym.Conc(vsym.Int("text"+s, 0, kt-1))
		v.text = texts[t]
		if t < len(values) {
			v.value, v.ok = values[t], true
		}
		v.weight = weights[vsym.Conc(vsym.Int("weight"+s, 0, kw-1))]
		votes = append(votes, v)
	}
	return votes
}

// mean is the weighted mean of the votes for a case and their total weight.
func mean(votes []vote, at int) (float64, float64) {
	sum, weight := 0.0, 0.0
	for _, v := range votes {
		if v.at == at && v.ok {
			sum += v.weight * v.value
			weight += v.weight
		}
	}
	return sum / weight, weight
}

// Mean: numeric boxes.
//
//gosym: C22 quick k=0..2 n=2 kt=7 kw=5 nomerge
//gosym: C22 quick k=3 n=2 kt=3 kw=3 nomerge
//gosym: C22 thorough k=3 n=1 kt=7 kw=5 nomerge
//gosym: C22 thorough k=3 n=3 kt=4 kw=4 nomerge
func Mean() {
	n := vsym.Param("n")
	bb := CF.NewNumBallotBox(n)
	votes := cast(vsym.Param("k"), n, vsym.Param("kt"), vsym.Param("kw"))
	for i, v := range votes {
		bb.Vote(v.at, v.text, v.weight)
		if i == 0 { // votes may follow
			bb.Tally(v.at)
			bb.TallyNum(v.at)
		}
	}
	for i := 0; i < n; i++ {
		want, weight := mean(votes, i)
		text := bb.Tally(i)
		vsym.Log("tally", text)
		vsym.Assert((text == "NA") == (weight == 0), "a case with votes has no prediction or one without has one")
		if weight == 0 {
			continue
		}
		vsym.Assert(Near(bb.TallyNum(i), want), "the prediction isn't the weighted mean of the votes")
		got, err := strconv.ParseFloat(text, 64)
		vsym.Assert(err == nil && Near(got, want), "the prediction isn't the weighted mean of the votes")
	}
}

// Sum: boxes for boosted trees.
//
//gosym: C22 quick k=0..2 n=2 kt=6 kw=5 nomerge
//gosym: C22 quick k=3 n=2 kt=3 kw=3 nomerge
//gosym: C22 thorough k=3 n=1 kt=6 kw=5 nomerge
func Sum() {
	n := vsym.Param("n")
	bb := CF.NewSumBallotBox(n)
	votes := cast(vsym.Param("k"), n, vsym.Param("kt"), vsym.Param("kw"))
	for i, v := range votes {
		bb.Vote(v.at, v.text, v.weight)
		if i == 0 { // votes may follow
			bb.Tally(v.at)
			bb.TallyNum(v.at)
		}
	}
	for i := 0; i < n; i++ {
		want := 0.0
		for _, v := range votes {
			if v.at == i && v.ok {
				want += v.weight * v.value
			}
		}
		text := bb.Tally(i)
		vsym.Log("tally", text)
		got, err := strconv.ParseFloat(text, 64)
		vsym.Assert(err == nil && Near(got, want) && Near(bb.TallyNum(i), want), "the prediction isn't the weighted sum of the votes")
	}
}

var cats = []string{"c1", "c0", "c2", "", "other"}

// ballot draws k votes for categories.
func ballot(k, n, kc, kw int) []vote {
	var votes []vote
	for i := 0; i < k; i++ {
		s := Itoa(i)
		at := vsym.Conc(vsym.Int("at"+s, 0, n-1))
		votes = append(votes, vote{at: at, text: cats[vsym.Conc(vsym.Int("cat"+s, 0, kc-1))], weight: weights[vsym.Conc(vsym.Int("weight"+s, 0, kw-1))]})
	}
	return votes
}

// score is the weight of the votes for a category.
func score(votes []vote, at int, cat string) float64 {
	sum := 0.0
	for _, v := range votes {
		if v.at == at && v.text == cat {
			sum += v.weight
		}
	}
	return sum
}

// winner tells whether no category outvotes cat.
func winner(votes []vote, at int, cat string) bool {
	mine := score(votes, at, cat)
	for _, v := range votes {
		if score(votes, at, v.text) > mine {
			return false
		}
	}
	return mine > 0
}

// Mode: categorical boxes, whatever the order of the map they keep votes in.
//
//gosym: C22 quick k=0..2 n=2 kc=3 kw=4 nomerge maporder=3
//gosym: C22 quick k=3 n=1 kc=5 kw=3 nomerge maporder=3
//gosym: C22 thorough k=3 n=2 kc=3 kw=4 nomerge maporder=3
//gosym: C22 thorough k=4 n=1 kc=3 kw=4 nomerge maporder=3
func Mode() {
	n := vsym.Param("n")
	bb := CF.NewCatBallotBox(n)
	votes := ballot(vsym.Param("k"), n, vsym.Param("kc"), vsym.Param("kw"))
	for i, v := range votes {
		bb.Vote(v.at, v.text, v.weight)
		if i == 0 { // votes may follow
			bb.Tally(v.at)
		}
	}
	for i := 0; i < n; i++ {
		got := bb.Tally(i)
		none := true
		for _, v := range votes {
			none = none && !(v.at == i && v.weight > 0)
		}
		vsym.Assert(vsym.Implies(none, got == "NA"), "a case without votes has a prediction")
		vsym.Assert(none || winner(votes, i, got), "another category has more votes")
	}
}

// Balanced: the error over categories.
//
//gosym: C22 quick n=2 nc=2 k=1..2 kc=3 kw=1 nomerge
//gosym: C22 quick n=3 nc=3 k=1 kc=3 kw=1 nomerge
//gosym: C22 quick n=1 nc=2 k=3 kc=3 kw=4 nomerge
//gosym: C22 thorough n=3 nc=3 k=3 kc=3 kw=1 nomerge
//gosym: C22 thorough n=2 nc=3 k=3 kc=4 kw=2 nomerge
func Balanced() {
	n, nc := vsym.Param("n"), vsym.Param("nc")
	f := Cat("C:t", n, nc, true)
	votes := ballot(vsym.Param("k"), n, vsym.Param("kc"), vsym.Param("kw"))
	bb := CF.NewCatBallotBox(n)
	for i, v := range votes {
		bb.Vote(v.at, v.text, v.weight)
		if i == 0 { // votes may follow
			bb.Tally(v.at)
		}
	}
	for i := 0; i < n; i++ { // without ties
		for _, v := range votes {
			for _, w := range votes {
				vsym.Assume(v.at != i || w.at != i || v.text == w.text || score(votes, i, v.text) != score(votes, i, w.text) || !winner(votes, i, v.text))
			}
		}
	}
	err, classes := 0.0, 0.0
	for c := 0; c < nc; c++ {
		right, of := 0.0, 0.0
		for i := 0; i < n; i++ {
			is := !f.Missing[i] && f.CatData[i] == c
			of += vsym.IteF(is, 1, 0)
			if winner(votes, i, CatName(c)) {
				right += vsym.IteF(is, 1, 0)
			}
		}
		err += vsym.IteF(of > 0, 1-right/vsym.IteF(of > 0, of, 1), 0)
		classes += vsym.IteF(of > 0, 1, 0)
	}
	vsym.Assume(classes > 0)
	got := bb.TallyError(f)
	vsym.Log("error", got)
	vsym.Assert(Close(got, err/classes), "the balanced error isn't the mean over categories of the rate of wrong cases")
}

// Squared: the squared error and the score.
//
//gosym: C22 quick n=2 k=2 kt=2 kw=2 nomerge
//gosym: C22 quick n=3 k=1 kt=2 kw=2 nomerge
//gosym: C22 quick n=1 k=2 kt=4 kw=3 nomerge
//gosym: C22 thorough n=3 k=3 kt=2 kw=2 nomerge
func Squared() {
	n := vsym.Param("n")
	f := Num("N:t", n, []float64{-1.5, 0.5, 4}, true)
	votes := cast(vsym.Param("k"), n, vsym.Param("kt"), vsym.Param("kw"))
	bb := CF.NewNumBallotBox(n)
	for i, v := range votes {
		bb.Vote(v.at, v.text, v.weight)
		if i == 0 { // votes may follow
			bb.Tally(v.at)
		}
	}
	e, count, sum, known := 0.0, 0.0, 0.0, 0.0
	for i := 0; i < n; i++ {
		want, weight := mean(votes, i)
		v := f.NumData[i]
		if weight > 0 {
			e += vsym.IteF(f.Missing[i], 0, (v-want)*(v-want))
			count += vsym.IteF(f.Missing[i], 0, 1)
		}
		sum += vsym.IteF(f.Missing[i], 0, v)
		known += vsym.IteF(f.Missing[i], 0, 1)
	}
	vsym.Assume(count > 0)
	e /= count
	got := bb.TallySquaredError(f)
	vsym.Log("squared", got)
	vsym.Assert(Near(got, e), "the squared error isn't the mean over known cases with votes")
	variance := 0.0
	for i := 0; i < n; i++ {
		d := f.NumData[i] - sum/known
		variance += vsym.IteF(f.Missing[i], 0, d*d)
	}
	variance /= known
	if variance > 0.01 {
		vsym.Assert(Near(bb.TallyError(f), e/variance), "the error isn't the squared error by the variance")
		vsym.Assert(Close(bb.TallyR2Score(f), 1-e/variance), "the score isn't the part of the variance explained")
	}
}

// Read: running means of any two numbers.
//
//gosym: C22 quick
func Read() {
	bb := CF.NewNumBallotBox(1)
	bb.Vote(0, "0.1", 1)
	bb.Vote(0, "0.2", 0)
	bb.Vote(0, "NaN", 2)
	got := bb.TallyNum(0)
	vsym.Assert(got == 0.1 && !math.IsNaN(got), "a single vote isn't the prediction")
}

// Large boxes take many votes for many cases, one of them free.
//
//gosym: C22 quick n=9 k=60 nomerge
//gosym: C22 thorough n=25 k=400 nomerge
func Large() {
	n, k := vsym.Param("n"), vsym.Param("k")
	num, sum, cat := CF.NewNumBallotBox(n), CF.NewSumBallotBox(n), CF.NewCatBallotBox(n)
	var votes, ballots []vote
	f, g := ManyNum("N:t", 2, n, 9, 0, nil, false), ManyCat("C:t", 3, n, 11, 11, 0, true)
	for i, v := range Scramble(1, k, 1000) {
		x := vote{at: v % (n - 1), value: float64(v%37) / 4, ok: true, weight: float64(v%5) / 2}
		c := vote{at: x.at, text: "c" + Itoa(v%11), weight: x.weight}
		if i == k/2 {
			x.at = vsym.Conc(vsym.Int("at", 0, n-2))
			x.weight = weights[vsym.Conc(vsym.Int("weight", 0, 1))*3]
			c.at, c.weight = x.at, x.weight
			c.text = "c" + Itoa(vsym.Conc(vsym.Int("cat", 0, 1)) * 11)
		}
		x.text = strconv.FormatFloat(x.value, 'g', -1, 64)
		num.Vote(x.at, x.text, x.weight)
		sum.Vote(x.at, x.text, x.weight)
		cat.Vote(c.at, c.text, c.weight)
		if i%7 == 3 {
			num.Tally(x.at)
			sum.Tally(x.at)
			cat.Tally(x.at)
			num.TallySquaredError(f)
			cat.TallyError(g)
		}
		votes, ballots = append(votes, x), append(ballots, c)
	}
	e, count, all, tot := 0.0, 0.0, 0.0, 0.0
	right, of := map[int]float64{}, map[int]float64{}
	for i := 0; i < n; i++ {
		want, weight := mean(votes, i)
		total := 0.0
		for _, v := range votes {
			if v.at == i {
				total += v.weight * v.value
			}
		}
		got, err := strconv.ParseFloat(sum.Tally(i), 64)
		vsym.Assert(err == nil && Near(got, total), "the prediction isn't the weighted sum of the votes")
		c := cat.Tally(i)
		vsym.Assert((num.Tally(i) == "NA") == (weight == 0) && (c == "NA") == (weight == 0), "a case with votes has no prediction or one without has one")
		all += f.NumData[i]
		tot++
		if !g.Missing[i] {
			of[g.CatData[i]]++
			if c == CatName(g.CatData[i]) {
				right[g.CatData[i]]++
			}
		}
		if weight == 0 {
			continue
		}
		vsym.Assert(Near(num.TallyNum(i), want), "the prediction isn't the weighted mean of the votes")
		vsym.Assert(winner(ballots, i, c), "another category has more votes")
		e += (f.NumData[i] - want) * (f.NumData[i] - want)
		count++
	}
	variance := 0.0
	for _, v := range f.NumData {
		variance += (v - all/tot) * (v - all/tot) / tot
	}
	vsym.Assert(Near(num.TallySquaredError(f), e/count), "the squared error isn't the mean over known cases with votes")
	vsym.Assert(Near(num.TallyError(f), e/count/variance), "the error isn't the squared error by the variance")
	vsym.Assert(Close(num.TallyR2Score(f), 1-e/count/variance), "the score isn't the part of the variance explained")
	rate := 0.0
	for c := range of {
		rate += 1 - right[c]/of[c]
	}
	ties := false
	for i := 0; i < n; i++ {
		for c := 0; c < 12; c++ {
			name := "c" + Itoa(c)
			if winner(ballots, i, name) && name != cat.Tally(i) {
				ties = true
			}
		}
	}
	if !ties {
		vsym.Assert(Close(cat.TallyError(g), rate/float64(len(of))), "the balanced error isn't the mean over categories of the rate of wrong cases")
	}
}

// Package c29 checks sparse counters and running means.
package c29

import (
	"bytes"
	"math"
	"strconv"
	"strings"

	CF "github.com/ryanbressler/CloudForest"
	. "hlib"
	"vsym"
)

var keys = []int{0, 7, -1, 1 << 40}

type entry struct{ i, j, val int }

// Counter adds k values and reads the counts back from the text written.
//
//gosym: C29 quick k=0..2 keys=4 vals=3 nomerge maporder=4
//gosym: C29 quick k=3 keys=2 vals=2 nomerge maporder=3
//gosym: C29 thorough k=3 keys=3 vals=3 nomerge maporder=3
//gosym: C29 thorough k=4 keys=2 vals=2 nomerge maporder=2
func Counter() {
	k := vsym.Param("k")
	sc := new(CF.SparseCounter)
	var added []entry
	for n := 0; n < k; n++ {
		e := entry{
			keys[vsym.Conc(vsym.Int("i"+Itoa(n), 0, vsym.Param("keys")-1))],
			keys[vsym.Conc(vsym.Int("j"+Itoa(n), 0, vsym.Param("keys")-1))],
			[]int{1, 2, -1, 1000000}[vsym.Conc(vsym.Int("val"+Itoa(n), 0, vsym.Param("vals")-1))],
		}
		sc.Add(e.i, e.j, e.val)
		added = append(added, e)
		if n == 0 {
			sc.WriteTsv(new(bytes.Buffer)) // more may follow
		}
	}
	var out bytes.Buffer
	sc.WriteTsv(&out)
	text := out.String()
	vsym.Log("lines", len(text))
	var read []entry
	for text != "" {
		at := strings.IndexByte(text, '\n')
		vsym.Assert(at >= 0, "a line has no end")
		f := strings.Split(text[:at], "\t")
		text = text[at+1:]
		vsym.Assert(len(f) == 3, "a line hasn't three columns")
		i, ei := strconv.Atoi(f[0])
		j, ej := strconv.Atoi(f[1])
		v, ev := strconv.Atoi(f[2])
		vsym.Assert(ei == nil && ej == nil && ev == nil, "a column isn't a number")
		read = append(read, entry{i, j, v})
	}
	for x, r := range read {
		sum, found := 0, false
		for _, a := range added {
			if a.i == r.i && a.j == r.j {
				sum += a.val
				found = true
			}
		}
		vsym.Assert(found, "a pair nothing was added under is listed")
		vsym.Assert(r.val == sum, "a count isn't the sum of what was added")
		for y := range read {
			vsym.Assert(x == y || read[y].i != r.i || read[y].j != r.j, "a pair is listed twice")
		}
	}
	for _, a := range added {
		sum, found := 0, false
		for _, b := range added {
			if a.i == b.i && a.j == b.j {
				sum += b.val
			}
		}
		for _, r := range read {
			found = found || r.i == a.i && r.j == a.j
		}
		vsym.Assert(found || sum == 0, "a pair isn't listed")
	}
}

// Any: counts of any size.
//
//gosym: C29 quick
func Any() {
	sc := new(CF.SparseCounter)
	a, b, c := vsym.AnyInt("a", -1<<50, 1<<50), vsym.AnyInt("b", -1<<50, 1<<50), vsym.AnyInt("c", -1<<50, 1<<50)
	sc.Add(3, 4, a)
	sc.Add(4, 3, b)
	sc.Add(3, 4, c)
	vsym.Assert(sc.Map[3][4] == a+c && sc.Map[4][3] == b, "a count isn't the sum of what was added")
	vsym.Assert(len(sc.Map) == 2 && len(sc.Map[3]) == 1 && len(sc.Map[4]) == 1, "a pair nothing was added under is counted")
}

var vals = []float64{2, -0.5, 1e6, 0}
var weights = []float64{1, 0, 0.25, 3}

// Mean adds k values to the second of three running means, some with a weight, some not a number.
//
//gosym: C29 quick k=0..3 vals=3 weights=4 nomerge
//gosym: C29 thorough k=4 vals=3 weights=3 nomerge
//gosym: C29 thorough k=3 vals=4 weights=4 nomerge
func Mean() {
	rms := *CF.NewRunningMeans(3)
	vsym.Assert(len(rms) == 3, "there is another number of running means")
	sum, count := 0.0, 0.0
	for i := 0; i < vsym.Param("k"); i++ {
		s := Itoa(i)
		v := math.NaN()
		if x := vsym.Conc(vsym.Int("val"+s, -1, vsym.Param("vals")-1)); x >= 0 {
			v = vals[x]
		}
		w := 1.0
		switch x := vsym.Conc(vsym.Int("weight"+s, -2, vsym.Param("weights")-1)); x {
		case -2:
			rms[1].Add(v)
		case -1:
			w = math.NaN()
			rms[1].WeightedAdd(v, w)
		default:
			w = weights[x]
			rms[1].WeightedAdd(v, w)
		}
		if v == v && w == w {
			sum += w * v
			count += w
		}
		rms[1].Read() // more may follow
	}
	mean, n := rms[1].Read()
	vsym.Log("count", n)
	vsym.Assert(Near(n, count), "the count isn't the sum of the weights")
	vsym.Assert(count == 0 || Near(mean, sum/count), "the mean isn't the weighted mean of what was added")
	vsym.Assert(mean == mean, "the mean isn't a number")
	for _, i := range []int{0, 2} {
		mean, n := rms[i].Read()
		vsym.Assert(mean == 0 && n == 0, "another running mean changes")
	}
}

// Two: any two numbers.
//
//gosym: C29 quick two=0
//gosym: C29 thorough two=1
func Two() {
	var rm CF.RunningMean
	a, b := vsym.AnyFloat("a"), vsym.AnyFloat("b")
	vsym.Assume(vsym.And(a < 1e100, a > -1e100) && vsym.And(b < 1e100, b > -1e100))
	rm.Add(a)
	mean, n := rm.Read()
	vsym.Assert(n == 1 && mean == 0.0+a, "the mean of one value isn't that value")
	rm.WeightedAdd(b, 0)
	mean, n = rm.Read()
	vsym.Assert(n == 1 && mean == 0.0+a, "a value of zero weight matters")
	if vsym.Param("two") == 0 {
		return
	}
	rm.Add(b)
	mean, n = rm.Read()
	vsym.Assert(n == 2 && mean == (0.0+a+b)/2, "the mean of two values isn't half their sum")
}

// Many adds values under many pairs, and to many means.
//
//gosym: C29 quick n=150 nomerge
//gosym: C29 thorough n=2000 nomerge maxloop=100000
func Many() {
	n := vsym.Param("n")
	sc := new(CF.SparseCounter)
	rms := *CF.NewRunningMeans(13)
	want := map[string]int{}
	sum, count := make([]float64, 13), make([]float64, 13)
	v := Scramble(1, n, 1000)
	v[n/2] = vsym.Conc(vsym.Int("v", 0, 30))
	for k, v := range v {
		i, j := v%23-3, (v/7+k)%31
		sc.Add(i, j, v%5+1)
		want[Itoa(i)+"\t"+Itoa(j)] += v%5 + 1
		w := float64(v%4) / 2
		rms[v%13].WeightedAdd(float64(v), w)
		sum[v%13] += float64(v) * w
		count[v%13] += w
	}
	var out bytes.Buffer
	sc.WriteTsv(&out)
	lines := strings.Split(strings.TrimSuffix(out.String(), "\n"), "\n")
	vsym.Assert(len(lines) == len(want), "there is another number of pairs")
	for _, l := range lines {
		at := strings.LastIndexByte(l, '\t')
		vsym.Assert(at >= 0 && Itoa(want[l[:at]]) == l[at+1:], "a count isn't the sum of what was added")
	}
	for i := range sum {
		m, c := rms[i].Read()
		vsym.Assert(Near(c, count[i]) && (c == 0 || Near(m, sum[i]/c)), "the mean isn't the weighted mean of what was added")
	}
}

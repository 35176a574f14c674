// Package c23 checks ballot boxes, running means and sparse counters under concurrent use.
package c23

import (
	"bytes"
	"strings"
	"sync"

	CF "github.com/ryanbressler/CloudForest"
	. "hlib"
	"vsym"
)

// op is an operation of a goroutine.
type op struct {
	at, what int
	val      float64
}

// ops are k operations for each of g goroutines, over n cases and m values.
func ops(g, k, n, m int) [][]op {
	var out [][]op
	for i := 0; i < g; i++ {
		var list []op
		for j := 0; j < k; j++ {
			s := Itoa(i) + "." + Itoa(j)
			list = append(list, op{vsym.Conc(vsym.Int("at"+s, 0, n-1)), vsym.Conc(vsym.Int("what"+s, 0, m-1)), float64(i*k + j + 1)})
		}
		out = append(out, list)
	}
	return out
}

// run runs the operations of each goroutine in order, the goroutines at once.
func run(list [][]op, do func(op)) {
	var wg sync.WaitGroup
	wg.Add(len(list))
	for i := range list {
		mine := list[i]
		go func() {
			for _, o := range mine {
				do(o)
			}
			wg.Done()
		}()
	}
	wg.Wait()
}

var cats = []string{"a", "b", "c"}

// CatVotes: goroutines vote and, if tally is set, one tallies meanwhile.
//
//gosym: C23 quick g=2 k=2 n=1 m=2 tally=0 nomerge race preempt=99
//gosym: C23 quick g=2 k=1 n=2 m=3 tally=0 nomerge race preempt=99
//gosym: C23 quick g=2 k=1 n=1 m=2 tally=1 nomerge race preempt=99
//gosym: C23 quick g=3 k=1 n=1 m=2 tally=0 nomerge race preempt=99
//gosym: C23 thorough g=2 k=2 n=2 m=3 tally=0 nomerge race preempt=99
//gosym: C23 thorough g=2 k=2 n=1 m=2 tally=1 nomerge race preempt=99
//gosym: C23 thorough g=3 k=1 n=2 m=3 tally=0 nomerge race preempt=99
//gosym: C23 thorough g=2 k=3 n=1 m=2 tally=0 nomerge race preempt=99
//gosym: C23 thorough g=4 k=1 n=1 m=2 tally=0 nomerge race preempt=99
//gosym: C23 thorough g=3 k=1 n=1 m=2 tally=1 nomerge race preempt=99
func CatVotes() {
	n := vsym.Param("n")
	list := ops(vsym.Param("g"), vsym.Param("k"), n, vsym.Param("m"))
	all := list
	bb := CF.NewCatBallotBox(n)
	if vsym.Param("tally") == 1 {
		all = append([][]op{{{0, -1, 0}}}, list...)
	}
	run(all, func(o op) {
		if o.what >= 0 {
			bb.Vote(o.at, cats[o.what], o.val)
			return
		}
		got := bb.Tally(o.at)
		ok := got == "NA"
		for _, mine := range list {
			for _, x := range mine {
				ok = ok || x.at == o.at && cats[x.what] == got
			}
		}
		vsym.Assert(ok, "a tally is for a category nobody voted for")
	})
	for i := 0; i < n; i++ {
		sum := make([]float64, len(cats))
		for _, mine := range list {
			for _, x := range mine {
				if x.at == i {
					sum[x.what] += x.val
				}
			}
		}
		best, tie := -1, false
		for k, v := range sum {
			if v > 0 && (best < 0 || v > sum[best]) {
				best, tie = k, false
			} else if v > 0 && v == sum[best] {
				tie = true
			}
		}
		got := bb.Tally(i)
		vsym.Log("tally", got)
		vsym.Assert(best >= 0 || got == "NA", "a case nobody voted on has votes")
		vsym.Assert(best < 0 || tie || got == cats[best], "votes are lost")
	}
}

var nums = []string{"1", "-2.5", "8"}
var vals = []float64{1, -2.5, 8}

// NumVotes: means, sums or both boxes' TallyNum while others vote.
//
//gosym: C23 quick box={num|sum} g=2 k=2 n=1 m=2 tally=0 nomerge race preempt=99
//gosym: C23 quick box={num|sum} g=2 k=1 n=2 m=2 tally=1 nomerge race preempt=99
//gosym: C23 quick box={num|sum} g=3 k=1 n=2 m=2 tally=0 nomerge race preempt=99
//gosym: C23 thorough box={num|sum} g=4 k=1 n=2 m=2 tally=0 nomerge race preempt=99
//gosym: C23 thorough box={num|sum} g=3 k=2 n=1 m=2 tally=0 nomerge race preempt=99
//gosym: C23 thorough box={num|sum} g=2 k=2 n=2 m=3 tally=1 nomerge race preempt=99
//gosym: C23 thorough box={num|sum} g=2 k=3 n=2 m=2 tally=0 nomerge race preempt=99
func NumVotes() {
	n := vsym.Param("n")
	list := ops(vsym.Param("g"), vsym.Param("k"), n, vsym.Param("m"))
	mean := vsym.ParamStr("box") == "num"
	var bb interface {
		CF.VoteTallyer
		TallyNum(int) float64
	}
	bb = CF.NewSumBallotBox(n)
	if mean {
		bb = CF.NewNumBallotBox(n)
	}
	all := list
	if vsym.Param("tally") == 1 {
		all = append([][]op{{{0, -1, 0}}}, list...)
	}
	run(all, func(o op) {
		if o.what >= 0 {
			bb.Vote(o.at, nums[o.what], o.val)
			return
		}
		v := bb.TallyNum(o.at)
		vsym.Assert(v == v && v > -1000 && v < 1000, "a tally is out of range")
	})
	for i := 0; i < n; i++ {
		sum, weight := 0.0, 0.0
		for _, mine := range list {
			for _, x := range mine {
				if x.at == i {
					sum += vals[x.what] * x.val
					weight += x.val
				}
			}
		}
		if weight == 0 {
			continue
		}
		got := bb.TallyNum(i)
		vsym.Log("tally", got)
		if mean {
			vsym.Assert(Near(got, sum/weight), "votes are lost")
		} else {
			vsym.Assert(Near(got, sum), "votes are lost")
		}
	}
}

// Means: running means while another goroutine reads.
//
//gosym: C23 quick g=2 k=1 n=1 m=2 nomerge race preempt=99
//gosym: C23 quick g=2 k=2 n=1 m=2 nomerge race preempt=99
//gosym: C23 thorough g=3 k=1 n=2 m=2 nomerge race preempt=99
//gosym: C23 thorough g=2 k=2 n=1 m=3 nomerge race preempt=99
//gosym: C23 thorough g=4 k=1 n=2 m=2 nomerge race preempt=99
//gosym: C23 thorough g=3 k=2 n=1 m=2 nomerge race preempt=99
func Means() {
	n := vsym.Param("n")
	rms := *CF.NewRunningMeans(n)
	list := ops(vsym.Param("g"), vsym.Param("k"), n, vsym.Param("m"))
	run(append([][]op{{{0, -1, 0}}}, list...), func(o op) {
		if o.what < 0 {
			mean, count := rms[o.at].Read()
			vsym.Assert(count == 0 && mean == 0 || count > 0 && mean > -3 && mean < 9, "a mean doesn't belong to its count")
		} else if o.what == 0 {
			rms[o.at].Add(vals[0])
		} else {
			rms[o.at].WeightedAdd(vals[o.what], o.val)
		}
	})
	for i := 0; i < n; i++ {
		sum, weight := 0.0, 0.0
		for _, mine := range list {
			for _, x := range mine {
				if x.at == i {
					w := x.val
					if x.what == 0 {
						w = 1
					}
					sum += vals[x.what] * w
					weight += w
				}
			}
		}
		mean, count := rms[i].Read()
		vsym.Log("count", count)
		vsym.Assert(count == weight, "a value isn't counted")
		vsym.Assert(weight == 0 || Near(mean, sum/weight), "the mean is wrong")
	}
}

// Counts: sparse counters, written meanwhile if write is set.
//
//gosym: C23 quick g=2 k=1 n=2 m=2 write=0..1 nomerge race preempt=99
//gosym: C23 quick g=2 k=2 n=1 m=2 write=0 nomerge race preempt=99
//gosym: C23 thorough g=2 k=2 n=2 m=2 write=0 nomerge race preempt=99
//gosym: C23 thorough g=3 k=1 n=2 m=2 write=1 nomerge race preempt=99
//gosym: C23 thorough g=2 k=2 n=1 m=2 write=1 nomerge race preempt=99
func Counts() {
	n, m := vsym.Param("n"), vsym.Param("m")
	list := ops(vsym.Param("g"), vsym.Param("k"), n, m)
	all := list
	if vsym.Param("write") == 1 {
		all = append([][]op{{{0, -1, 0}}}, list...)
	}
	sc := new(CF.SparseCounter)
	var out bytes.Buffer
	run(all, func(o op) {
		if o.what < 0 {
			sc.WriteTsv(&out)
			return
		}
		sc.Add(o.at, o.what, int(o.val))
	})
	vsym.Assert(strings.Count(out.String(), "\n") <= len(list)*vsym.Param("k"), "pairs nothing was added under are written")
	for i := 0; i < n; i++ {
		for j := 0; j < m; j++ {
			sum := 0
			for _, mine := range list {
				for _, x := range mine {
					if x.at == i && x.what == j {
						sum += int(x.val)
					}
				}
			}
			vsym.Log("count", sc.Map[i][j])
			vsym.Assert(sc.Map[i][j] == sum, "additions are lost")
		}
	}
}

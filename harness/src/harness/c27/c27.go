// Package c27 checks leaf co-occurrence and split counts.
package c27

import (
	"encoding/json"
	"strconv"
	"strings"

	. "hlib"
	"hmain"
	"vsym"

	leafcount "cfmain/leafcount"
)

var xtext = []string{"1", "2.5", "NA"}
var xval = []float64{1, 2.5, 0}
var ctext = []string{"a", "b", "NA"}
var threshold = []string{"1.5", "2.5000000000001"}
var thval = []float64{1.5, 2.5000000000001}
var sets = []string{"a", "b", "a:b"}

const size = 24

type gen struct {
	id     int
	n      int
	vary   bool
	x, c   []int // of each case
	out    strings.Builder
	splits map[string][]string
	pair   [size][size]int
	branch [size][size]int
}

func (g *gen) ch(n int) int {
	g.id++
	if !g.vary {
		return g.id % n
	}
	return vsym.Conc(vsym.Int("ch"+Itoa(g.id), 0, n-1))
}

// tree writes the nodes of a shape and counts the given cases.
func (g *gen) tree(shape string, pos *int, path string, in []bool) {
	c := shape[*pos]
	*pos++
	g.out.WriteString("NODE=" + path + ",PRED=1")
	if c == 'l' {
		g.out.WriteString("\n")
		for i, a := range in {
			for j, b := range in {
				if a && b {
					g.pair[i][j]++
				}
			}
		}
		return
	}
	var side func(i int) int
	f := 0
	switch c {
	case 'n', 'm':
		k := g.ch(len(threshold))
		g.out.WriteString(",SPLITTER=N:x,SPLITTERTYPE=NUMERICAL,LVALUES=" + threshold[k] + ",RVALUES=" + threshold[k] + "\n")
		g.splits["N:x"] = append(g.splits["N:x"], threshold[k])
		side = func(i int) int {
			if xtext[g.x[i]] == "NA" {
				return 2
			} else if xval[g.x[i]] <= thval[k] {
				return 0
			}
			return 1
		}
	case 'c', 'd':
		f = 2
		k := g.ch(len(sets))
		g.out.WriteString(",SPLITTER=C:c,SPLITTERTYPE=CATEGORICAL,LVALUES=\"" + sets[k] + "\",RVALUES=\"\"\n")
		g.splits["C:c"] = append(g.splits["C:c"], sets[k])
		side = func(i int) int {
			if ctext[g.c[i]] == "NA" {
				return 2
			} else if strings.Contains(sets[k], ctext[g.c[i]]) {
				return 0
			}
			return 1
		}
	}
	var sub [3][]bool
	for s := range sub {
		sub[s] = make([]bool, g.n)
	}
	for i, a := range in {
		if a {
			g.branch[i][f]++
			sub[side(i)][i] = true
		}
	}
	g.tree(shape, pos, path+"L", sub[0])
	g.tree(shape, pos, path+"R", sub[1])
	if c == 'm' || c == 'd' {
		g.tree(shape, pos, path+"M", sub[2])
	}
}

// Counted: the files written for forests in several files; vary leaves values, thresholds and
// sets of categories free.
//
//gosym: C27 quick n=2 vary=1 threads=1 what=both forests={nll|mlll,l|cll,l|nnlll|dlll} nomerge exitbad
//gosym: C27 quick n=3 vary=1 threads=1 what=leaves forests={nll|l,l+l} nomerge exitbad
//gosym: C27 quick n=2 vary=0 threads=2 what={leaves|both} forests={nll+cll|nll+mlll+l} nomerge exitbad race preempt=99
//gosym: C27 quick n=1 vary=0 threads=2..3 what={both|splits} forests={nll+cll|cll,nll} nomerge exitbad race preempt=99
//gosym: C27 thorough n=2 vary=1 threads=1 what={both|splits} forests={cll,nll|mlll,cll|dlll,nll|nll+cll} nomerge exitbad
//gosym: C27 thorough n=3 vary=1 threads=1 what=both forests={nnlll|dlll|cll,l|nll,nll} nomerge exitbad
//gosym: C27 thorough n=1 vary=0 threads=3 what=both forests={nll+mlll+l|l+l+cll} nomerge exitbad race preempt=99
//gosym: C27 thorough n=3 vary=0 threads=2 what=both forests={nll+mlll|l+l} nomerge exitbad race preempt=99
//gosym: C27 thorough n=2 vary=0 threads=2 what=splits forests={nll+cll|nll+mlll+l} nomerge exitbad race preempt=99
//gosym: C27 quick n=21 vary=0 threads=1 what={both|splits} forests={ncdllllmclllnll,cnlll+l,nncllcllnll,mlll+dlll,l,nll,cll,l,nll,dlll,nll,nncllll,l+l,l,l} nomerge exitbad
//gosym: C27 quick n=5 vary=0 threads=7 what=leaves forests=l nomerge exitbad
func Counted() {
	n := vsym.Param("n")
	threads := vsym.Param("threads")
	what := vsym.ParamStr("what")
	g := &gen{n: n, vary: vsym.Param("vary") == 1, splits: map[string][]string{}}
	dir := vsym.TempDir()
	head, xrow, crow, zrow := ".", "N:x", "C:c", "N:z"
	for i := 0; i < n; i++ {
		x, c := i%2, i%2
		if n > 5 {
			x, c = i*i%3, i/2%3
		}
		if strings.ContainsAny(vsym.ParamStr("forests"), "nm") && i < 4 {
			x = g.ch(3)
		}
		if strings.ContainsAny(vsym.ParamStr("forests"), "cd") && i < 4 {
			c = g.ch(3)
		}
		g.x, g.c = append(g.x, x), append(g.c, c)
		head += "\tcase" + Itoa(i)
		xrow += "\t" + xtext[x]
		crow += "\t" + ctext[c]
		zrow += "\t0"
	}
	vsym.PutFile(dir+"data.fm", head+"\n"+xrow+"\n"+zrow+"\n"+crow+"\n")
	all := make([]bool, n)
	for i := range all {
		all[i] = true
	}
	var names []string
	for f, forest := range strings.Split(vsym.ParamStr("forests"), "+") {
		g.out.Reset()
		for k, shape := range strings.Split(forest, ",") {
			g.out.WriteString("TREE=" + Itoa(k) + ",TARGET=\"N:t\"\n")
			pos := 0
			g.tree(shape, &pos, "*", all)
		}
		name := dir + "forest" + Itoa(f) + ".sf"
		vsym.PutFile(name, g.out.String())
		names = append(names, name)
	}
	args := []string{"-fm", dir + "data.fm", "-rfpred", strings.Join(names, ","), "-leaves", dir + "leaves.tsv", "-threads", Itoa(threads)}
	if what == "both" {
		args = append(args, "-branches", dir+"branches.tsv")
	}
	if what == "splits" {
		args = append(args, "-splits", dir+"splits.json")
	}
	hmain.Run(leafcount.Main, args...)
	compare(dir+"leaves.tsv", n, n, g.pair)
	if what == "both" {
		compare(dir+"branches.tsv", n, 3, g.branch)
	}
	if what == "splits" {
		text, ok := vsym.GetFile(dir + "splits.json")
		vsym.Assert(ok, "the splits aren't written")
		got := map[string][]string{}
		vsym.Assert(json.Unmarshal([]byte(text), &got) == nil, "the splits can't be read")
		for _, f := range []string{"N:x", "C:c"} {
			vsym.Assert(len(got[f]) == len(g.splits[f]), "a split isn't recorded")
			for _, want := range g.splits[f] {
				vsym.Assert(times(got[f], want) == times(g.splits[f], want), "a split's value is wrong")
			}
		}
	}
}

// times counts a value in a list, whatever the order of the categories of a set.
func times(list []string, v string) int {
	n := 0
	for _, s := range list {
		if s == v || v == "a:b" && (s == "a,b" || s == "b,a") {
			n++
		}
	}
	return n
}

// compare reads a table of counts.
func compare(name string, n, m int, want [size][size]int) {
	text, ok := vsym.GetFile(name)
	vsym.Assert(ok, "the counts aren't written")
	var got [size][size]int
	for _, row := range hmain.Table(text) {
		vsym.Assert(len(row) == 3, "a line hasn't three fields")
		if len(row) != 3 {
			return
		}
		i, e1 := strconv.Atoi(row[0])
		j, e2 := strconv.Atoi(row[1])
		v, e3 := strconv.Atoi(row[2])
		ok := e1 == nil && e2 == nil && e3 == nil && i >= 0 && i < n && j >= 0 && j < m
		vsym.Assert(ok, "a line isn't a count of a case")
		if !ok {
			return
		}
		vsym.Assert(got[i][j] == 0, "a pair is counted on two lines")
		got[i][j] += v
	}
	for i := 0; i < n; i++ {
		for j := 0; j < m; j++ {
			if n < 5 {
				vsym.Log("count", got[i][j])
			}
			vsym.Assert(got[i][j] == want[i][j], "a count is wrong")
		}
	}
}

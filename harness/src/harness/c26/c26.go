// Package c26 checks what applying a forest to a data set prints.
package c26

import (
	"math"
	"strconv"
	"strings"

	CF "github.com/ryanbressler/CloudForest"
	. "hlib"
	"hmain"
	"vsym"

	applyforest "cfmain/applyforest"
)

var xtext = []string{"1", "2.5", "NA"}
var xval = []float64{1, 2.5, 0}
var ctext = []string{"a", "b", "NA"}
var threshold = []string{"1.5", "2.5"}
var thval = []float64{1.5, 2.5}
var sets = []string{"a", "b", "a:b"}
var numPred = []string{"1", "-2.5", "4"}
var catPred = []string{"u", "v", "w"}
var weights = []string{"", ",WEIGHT=0.5", ",WEIGHT=3"}
var wval = []float64{1, 0.5, 3}
var intercepts = []string{"", ",INTERCEPT=0.25", ",INTERCEPT=-3"}
var ival = []float64{0, 0.25, -3}

type gen struct {
	id     int
	x, c   []int // of each case
	t      []int
	preds  []string
	out    strings.Builder
	np     int
}

func (g *gen) ch(n int) int {
	g.id++
	if n == 1 {
		return 0
	}
	return vsym.Conc(vsym.Int("ch"+Itoa(g.id), 0, n-1))
}

// tree writes the nodes of a shape and returns the prediction for every case, "" for none.
func (g *gen) tree(shape string, pos *int, path string) []string {
	c := shape[*pos]
	*pos++
	res := make([]string, len(g.x))
	g.out.WriteString("NODE=" + path)
	if c == 'l' {
		p := g.preds[g.ch(g.np)]
		g.out.WriteString(",PRED=" + p + "\n")
		for i := range res {
			res[i] = p
		}
		return res
	}
	var side func(i int) int
	switch c {
	case 'n', 'm':
		k := g.ch(len(threshold))
		g.out.WriteString(",PRED=9,SPLITTER=N:x,SPLITTERTYPE=NUMERICAL,LVALUES=" + threshold[k] + ",RVALUES=" + threshold[k] + "\n")
		side = func(i int) int {
			if xtext[g.x[i]] == "NA" {
				return 2
			} else if xval[g.x[i]] <= thval[k] {
				return 0
			}
			return 1
		}
	case 'c', 'd':
		k := g.ch(len(sets))
		g.out.WriteString(",PRED=9,SPLITTER=C:c,SPLITTERTYPE=CATEGORICAL,LVALUES=\"" + sets[k] + "\",RVALUES=\"\"\n")
		side = func(i int) int {
			if ctext[g.c[i]] == "NA" {
				return 2
			} else if strings.Contains(sets[k], ctext[g.c[i]]) {
				return 0
			}
			return 1
		}
	}
	sub := [][]string{g.tree(shape, pos, path+"L"), g.tree(shape, pos, path+"R"), make([]string, len(g.x))}
	if c == 'm' || c == 'd' {
		sub[2] = g.tree(shape, pos, path+"M")
	}
	for i := range res {
		res[i] = sub[side(i)][i]
	}
	return res
}

// Predictions: the printed table for a forest file and a data set.
//
//gosym: C26 quick n=2 target=N has=1 np=2 opt={|sum} w=2 ic=1 trees={l,l,l|nll,l} nomerge exitbad
//gosym: C26 quick n=1 target=N has=0..1 np=2 opt={|sum|expit|mean} w=3 ic=3 trees={l,l|mlll} nomerge exitbad
//gosym: C26 quick n=1 target=C has=0..1 np=3 opt={|mode} w=2 ic=1 trees={l,l|dlll} nomerge exitbad
//gosym: C26 quick n=1 target=C has=0 np=2 opt= w=2 ic=1 trees={l,l,l|nll,l} nomerge exitbad
//gosym: C26 quick n=1 target=C has=1 np=2 opt={|mode} w=2 ic=2 trees={l,l|dlll} nomerge exitbad
//gosym: C26 quick n=2 target=C has=1 np=2 opt={|votes} w=1 ic=1 trees={cll,l|dlll} nomerge exitbad
//gosym: C26 quick n=1 target=C has=0..1 np=2 opt={mean|sum|expit} w=2 ic=2 trees={nll|l,l} nomerge exitbad
//gosym: C26 quick n=1 target=N has=0..1 np=2 opt=mode w=2 ic=2 trees={nll|l,l} nomerge exitbad
//gosym: C26 thorough n=2 target=N has=1 np=2 opt={|sum|mean} w=2 ic=1 trees={l,l,l|mlll,l|nlcll} nomerge exitbad
//gosym: C26 thorough n=1 target=N has=0..1 np=2 opt={|expit} w=2 ic=2 trees={nll,mlll|nnlll,l} nomerge exitbad
//gosym: C26 thorough n=1 target=C has=0..1 np=3 opt={|mode|votes} w=2 ic=1 trees=l,l,l,l nomerge exitbad
//gosym: C26 thorough n=1 target=C has=0..1 np=2 opt={|mode|votes} w=1 ic=1 trees=dlll,nll nomerge exitbad
//gosym: C26 thorough n=3 target=C has=1 np=2 opt={|votes} w=2 ic=1 trees={cll,l|dlll} nomerge exitbad
func Predictions() {
	n := vsym.Param("n")
	target := vsym.ParamStr("target")
	opt := vsym.ParamStr("opt")
	g := &gen{np: vsym.Param("np")}
	numeric := target == "N" || opt == "mean" || opt == "sum" || opt == "expit"
	g.preds = catPred
	if numeric {
		g.preds = numPred
	}
	trees := strings.Split(vsym.ParamStr("trees"), ",")
	usesX := strings.ContainsAny(vsym.ParamStr("trees"), "nm")
	usesC := strings.ContainsAny(vsym.ParamStr("trees"), "cd")
	ttext := []string{"u", "v", "NA"}
	if numeric {
		ttext = []string{"1", "4", "NA"}
	}
	dir := vsym.TempDir()
	rows := []string{"."}
	xrow, crow, trow := "N:x", "C:c", target+":t"
	for i := 0; i < n; i++ {
		rows[0] += "\tcase" + Itoa(i)
		x, c, t := i%2, i%2, i%3
		if usesX {
			x = g.ch(3)
		}
		if usesC {
			c = g.ch(3)
		}
		if vsym.Param("has") == 1 && n == 1 {
			t = g.ch(3)
		}
		g.x, g.c, g.t = append(g.x, x), append(g.c, c), append(g.t, t)
		xrow += "\t" + xtext[x]
		crow += "\t" + ctext[c]
		trow += "\t" + ttext[t]
	}
	rows = append(rows, xrow)
	if vsym.Param("has") == 1 {
		rows = append(rows, trow)
	}
	rows = append(rows, crow)
	vsym.PutFile(dir+"data.fm", strings.Join(rows, "\n")+"\n")
	ic := g.ch(vsym.Param("ic"))
	if ic > 0 || target == "N" {
		g.out.WriteString("FOREST=0,TARGET=\"" + target + ":t\"" + intercepts[ic] + "\n")
	}
	var preds [][]string
	var ws []float64
	for k, shape := range trees {
		w := g.ch(vsym.Param("w"))
		ws = append(ws, wval[w])
		g.out.WriteString("TREE=" + Itoa(k) + ",TARGET=\"" + target + ":t\"" + weights[w] + "\n")
		pos := 0
		preds = append(preds, g.tree(shape, &pos, "*"))
	}
	vsym.PutFile(dir+"forest.sf", g.out.String())
	args := []string{"-fm", dir + "data.fm", "-rfpred", dir + "forest.sf", "-preds", dir + "preds.tsv"}
	switch opt {
	case "expit":
		args = append(args, "-sum", "-expit")
	case "votes":
		args = append(args, "-votes", dir+"votes.tsv")
	case "":
	default:
		args = append(args, "-"+opt)
	}
	stdout := hmain.Run(applyforest.Main, args...)
	text, _ := vsym.GetFile(dir + "preds.tsv")
	tab := hmain.Table(text)
	vsym.Assert(len(tab) == n, "there isn't one line per case")
	if len(tab) != n {
		return
	}
	if opt != "mode" && opt != "votes" && (opt != "" || target != "C") {
		vsym.Log("preds", text)
	}
	errText, hasErr := hmain.Line(stdout, "Error: ")
	mode := opt == "mode" || opt == "votes" || opt == "" && target == "C"
	sumUp := opt == "sum" || opt == "expit"
	forest := apply(dir + "forest.sf")
	data, err := CF.LoadAFM(dir + "data.fm")
	vsym.Assert(err == nil, "the data can't be read")
	var bb CF.VoteTallyer
	switch {
	case sumUp:
		bb = CF.NewSumBallotBox(n)
	case mode:
		bb = CF.NewCatBallotBox(n)
	default:
		bb = CF.NewNumBallotBox(n)
	}
	for _, t := range forest.Trees {
		t.Vote(data, bb)
	}
	right, tie := 0, false
	for i := 0; i < n; i++ {
		row := tab[i]
		vsym.Assert(len(row) == 3, "a line hasn't three fields")
		if len(row) != 3 {
			return
		}
		vsym.Assert(row[0] == "case"+Itoa(i), "the label is wrong")
		actual := "NA"
		if vsym.Param("has") == 1 {
			actual = ttext[g.t[i]]
		}
		vsym.Assert(row[2] == actual, "the actual value is wrong")
		if mode {
			var names []string
			var votes []float64
			for k := range trees {
				p := preds[k][i]
				if p == "" {
					continue
				}
				at := -1
				for j, s := range names {
					if s == p {
						at = j
					}
				}
				if at < 0 {
					at = len(names)
					names, votes = append(names, p), append(votes, 0)
				}
				votes[at] += ws[k]
			}
			best := -1.0
			for _, v := range votes {
				best = math.Max(best, v)
			}
			top := 0
			for _, v := range votes {
				if v == best {
					top++
				}
			}
			tie = tie || top > 1
			ok := len(votes) == 0 && row[1] == "NA"
			for j, v := range votes {
				ok = ok || v == best && row[1] == names[j]
			}
			vsym.Assert(ok, "the prediction isn't the mode of the votes")
			if len(votes) == 1 {
				vsym.Log("pred", row[1])
			}
			vsym.Assert(len(votes) > 1 || row[1] == bb.Tally(i), "the programming interface predicts another category")
			if row[1] == actual {
				right++
			}
			continue
		}
		sum, weight := 0.0, 0.0
		for k := range trees {
			if preds[k][i] != "" {
				v, _ := strconv.ParseFloat(preds[k][i], 64)
				sum += v * ws[k]
				weight += ws[k]
			}
		}
		if sumUp {
			want := sum + ival[ic]
			vsym.Assert(Near(bb.(*CF.SumBallotBox).TallyNum(i)+forest.Intercept, want), "the programming interface predicts another sum")
			if opt == "expit" {
				want = 1 / (1 + math.Exp(-want))
			}
			got, err := strconv.ParseFloat(row[1], 64)
			vsym.Assert(err == nil && Near(got, want), "the prediction isn't the sum of the votes plus the intercept")
			continue
		}
		if weight == 0 {
			vsym.Assert(ic > 0 || row[1] == "NA", "there is a prediction without votes")
			continue
		}
		got, err := strconv.ParseFloat(row[1], 64)
		vsym.Assert(err == nil && Near(got, sum/weight+ival[ic]), "the prediction isn't the mean of the votes")
		vsym.Assert(Near(bb.(*CF.NumBallotBox).TallyNum(i), sum/weight), "the programming interface predicts another mean")
	}
	if opt == "" && vsym.Param("has") == 1 {
		vsym.Assert(hasErr, "no error is reported")
		_, cat := bb.(*CF.CatBallotBox)
		vsym.Assert(cat == (target == "C"), "the box is of the wrong kind")
		if n == 1 && !tie && cat && actualKnown(g.t[0]) {
			vsym.Assert(errText == Itoa(1-right), "the error is wrong")
		}
	}
	if opt == "votes" {
		checkVotes(g, trees, preds, ws, dir, n)
	}
}

func actualKnown(t int) bool { return t < 2 }

func apply(fn string) *CF.Forest {
	text, _ := vsym.GetFile(fn)
	f, err := CF.NewForestReader(strings.NewReader(text)).ReadForest()
	vsym.Assert(err == nil, "the forest can't be read")
	return f
}

// checkVotes compares the table of vote totals.
func checkVotes(g *gen, trees []string, preds [][]string, ws []float64, dir string, n int) {
	text, _ := vsym.GetFile(dir + "votes.tsv")
	tab := hmain.Table(text)
	vsym.Assert(len(tab) == n+1 && tab[0][0] == ".", "the votes haven't one line per case")
	if len(tab) != n+1 {
		return
	}
	for i := 0; i < n; i++ {
		row := tab[i+1]
		vsym.Assert(len(row) == len(tab[0]) && row[0] == "case"+Itoa(i), "a line of votes is malformed")
		if len(row) != len(tab[0]) {
			return
		}
		for _, name := range g.preds {
			want := 0.0
			for k := range trees {
				if preds[k][i] == name {
					want += ws[k]
				}
			}
			got := 0.0
			for j := 1; j < len(row); j++ {
				if tab[0][j] == name {
					got, _ = strconv.ParseFloat(row[j], 64)
				}
			}
			vsym.Assert(got == want, "the vote total of a category is wrong")
		}
	}
}

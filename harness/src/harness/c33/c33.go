// Package c33 checks the importance scores the forest growing command reports.
package c33

import (
	"math"
	"strconv"
	"strings"

	CF "github.com/ryanbressler/CloudForest"
	"github.com/ryanbressler/CloudForest/stats"
	. "hlib"
	"hmain"
	"vsym"

	growforest "cfmain/growforest"
)

var xs = []string{"1", "2", "3", "NA"}
var nums = []string{"1", "2.5", "7", "20", "-3", "8", "8.5", "0"}
var cats = []string{"a", "b", "NA"}

// impurity is the sum of squared errors or Gini impurity of targets.
func impurity(target []string, numeric bool) float64 {
	n := float64(len(target))
	if numeric {
		m, v := 0.0, 0.0
		for _, t := range target {
			x, _ := strconv.ParseFloat(t, 64)
			m += x / n
		}
		for _, t := range target {
			x, _ := strconv.ParseFloat(t, 64)
			v += (x - m) * (x - m)
		}
		return v
	}
	g := 1.0
	for _, c := range cats {
		k := 0.0
		for _, t := range target {
			if t == c {
				k++
			}
		}
		g -= k / n * k / n
	}
	return g
}

// decrease is that of the impurity by the split of a node, given the targets of the cases on every leaf.
func decrease(t *hmain.Tree, path string, at map[string][]string, numeric bool) float64 {
	var all []string
	below := 0.0
	for _, side := range []string{"L", "R", "M"} {
		var part []string
		for leaf, ts := range at {
			if strings.HasPrefix(leaf, path+side) {
				part = append(part, ts...)
			}
		}
		if len(part) > 0 {
			all = append(all, part...)
			below += float64(len(part)) * impurity(part, numeric)
		}
	}
	return impurity(all, numeric) - below/float64(len(all))
}

// same compares numbers printed with one computed.
func same(text string, want float64) bool {
	got, err := strconv.ParseFloat(text, 64)
	return err == nil && (Near(got, want) || got != got && want != want)
}

// Standard: the importance scores of one forest.
//
//gosym: C33 quick n=3 target={N|C} bag=none trees=2 feats=xc cores=1 opts={|-mTry=1|-maxDepth=1|-leafSize=2|-splitmissing|-vet|-evaloob|-extra|-force|-jungle} vary=0 nomerge exitbad
//gosym: C33 quick n=4 target={N|C} bag=none trees=1 feats=xk cores=1 opts={|-jungle} vary=0 nomerge exitbad
//gosym: C33 quick n=3 target={N|C} bag=none trees=1 feats=x cores=1 opts={|-splitmissing} vary=1 nomerge exitbad
//gosym: C33 quick n=3 target={N|C} bag=all trees=1 feats=xc cores=1 opts= vary=0 nomerge exitbad
//gosym: C33 quick n=3 target={N|C} bag=none trees=2 feats=x cores=2 opts= vary=0 nomerge exitbad race preempt=99
//gosym: C33 thorough n=4 target={N|C} bag=none trees={1|2} feats=xc cores=1 opts={|-mTry=1|-splitmissing|-jungle} vary=0 nomerge exitbad budget=200
//gosym: C33 thorough n=3 target={N|C} bag=none trees=1 feats=xc cores=1 opts={|-splitmissing} vary=1 nomerge exitbad budget=200
//gosym: C33 thorough n=4 target={N|C} bag=all trees=1 feats=x cores=1 opts= vary=0 nomerge exitbad budget=200
//gosym: C33 thorough n=3 target={N|C} bag=none trees=3 feats=x cores={2|3} opts= vary=0 nomerge exitbad race preempt=99 budget=300
//gosym: C33 thorough n=3 target={N|C} bag=none trees=2 feats=xc cores=2 opts=-mTry=2 vary=0 nomerge exitbad race preempt=99 budget=300
//gosym: C33 quick n=21 target={N|C} bag=none trees=4 feats=xcky cores=1 opts={|-mTry=2|-maxDepth=3|-splitmissing|-leafSize=3} vary=1 free=2 nomerge exitbad
//gosym: C33 quick n=21 target={N|C} bag=all trees=3 feats=xcky cores=1 opts=-mTry=2 vary=0 free=1 nomerge exitbad
//gosym: C33 thorough n=60 target={N|C} bag={none|all} trees=7 feats=xcky cores=1 opts=-mTry=2 vary=1 free=2 nomerge exitbad
func Standard() {
	n := vsym.Param("n")
	numeric := vsym.ParamStr("target") == "N"
	nTrees := vsym.Param("trees")
	bag := vsym.ParamStr("bag")
	opts := vsym.ParamStr("opts")
	dir := vsym.TempDir()
	d := hmain.Data{}
	tname := vsym.ParamStr("target") + ":t"
	feats := vsym.ParamStr("feats")
	names := []string{"N:x", tname}
	if strings.Contains(feats, "c") {
		names = append(names, "C:c")
	}
	if strings.Contains(feats, "k") {
		names = append(names, "N:k")
	}
	if strings.Contains(feats, "y") {
		names = append(names, "N:y", "C:e", "N:z")
	}
	large := n > 5
	head := "."
	missing := false
	for i := 0; i < n; i++ {
		head += "\tcase" + Itoa(i)
		x, c := i%3, i/2
		if large {
			c = i / 2 % 2
			d["N:y"] = append(d["N:y"], Itoa(Scramble(i, 1, 9)[0]))
			d["N:z"] = append(d["N:z"], Itoa(Scramble(i+50, 1, 3*n)[0]-n))
			d["C:e"] = append(d["C:e"], "e"+Itoa(Scramble(i+90, 1, 4)[0]))
		}
		if vsym.Param("vary") > 0 && (!large || i == n/2) {
			x = vsym.Conc(vsym.Int("x"+Itoa(i), 0, 3))
			if strings.Contains(feats, "c") {
				c = vsym.Conc(vsym.Int("c"+Itoa(i), 0, 2))
			}
		}
		d["N:x"] = append(d["N:x"], xs[x])
		d["C:c"] = append(d["C:c"], cats[c])
		d["N:k"] = append(d["N:k"], "4")
		missing = missing || xs[x] == "NA" || cats[c] == "NA"
		if numeric {
			d[tname] = append(d[tname], nums[i*(i+1)/2%len(nums)])
		} else {
			d[tname] = append(d[tname], cats[i*(i+1)/2%2])
		}
	}
	text := head + "\n"
	for _, f := range names {
		text += f + "\t" + strings.Join(d[f], "\t") + "\n"
	}
	vsym.PutFile(dir+"train.fm", text)
	args := []string{"-train", dir + "train.fm", "-rfpred", dir + "forest.sf", "-target", tname, "-noseed", "-nTrees", Itoa(nTrees), "-leafSize", "1",
		"-nCores", vsym.ParamStr("cores"), "-importance", dir + "imp.tsv"}
	if bag == "none" {
		args = append(args, "-nobag")
	}
	if opts != "" {
		args = append(args, opts)
	}
	hmain.Run(growforest.Main, args...)
	forest, ok := vsym.GetFile(dir + "forest.sf")
	vsym.Assert(ok, "the forest isn't written")
	if !large { // sets of categories are written in any order
		vsym.Log("forest", forest)
	}
	trees, _ := hmain.ReadForest(forest)
	imp, ok := vsym.GetFile(dir + "imp.tsv")
	vsym.Assert(ok, "the importances aren't written")
	rows := hmain.Table(imp)
	vsym.Assert(len(rows) == len(names), "there isn't one line of importances per feature")

	next := 0
	uses, used, depths, total := map[string]int{}, map[string]int{}, map[string]int{}, map[string]float64{}
	for _, t := range trees {
		var cases []int
		for k := 0; k < n; next++ {
			c := k
			if bag != "none" {
				if vsym.DrawN(next) != n {
					continue
				}
				c = vsym.Conc(vsym.DrawVal(next))
			}
			cases = append(cases, c)
			k++
		}
		at := map[string][]string{}
		for _, c := range cases {
			p := t.Leaf(d, c)
			at[p] = append(at[p], d[tname][c])
		}
		shallow := map[string]int{}
		for path, nd := range t.Nodes {
			if nd.Split == "" {
				continue
			}
			uses[nd.Split]++
			if !missing {
				total[nd.Split] += decrease(t, path, at, numeric)
			}
			if s, ok := shallow[nd.Split]; !ok || len(path)-1 < s {
				shallow[nd.Split] = len(path) - 1
			}
		}
		for f, depth := range shallow {
			used[f]++
			depths[f] += depth
		}
	}
	for i, row := range rows {
		ok := len(row) == 7 && row[0] == names[i]
		vsym.Assert(ok, "a line of the importances isn't a feature's")
		if !ok {
			return
		}
		f := row[0]
		mean, _ := strconv.ParseFloat(row[1], 64)
		if opts != "-jungle" { // branches of jungles join
			vsym.Assert(row[2] == Itoa(uses[f]), "the use count isn't the number of splits on the feature")
		}
		vsym.Assert(row[5] == Itoa(used[f]), "the tree used count isn't the number of trees that split on the feature")
		count, _ := strconv.ParseFloat(row[2], 64)
		vsym.Assert(same(row[3], mean*count/float64(nTrees)), "the decrease per tree is wrong")
		if used[f] == 0 {
			continue
		}
		vsym.Assert(same(row[4], mean*count/float64(used[f])), "the decrease per tree used is wrong")
		vsym.Assert(same(row[6], float64(depths[f])/float64(used[f])), "the mean minimal depth isn't that of the shallowest splits")
		switch opts {
		case "-vet", "-evaloob", "-jungle":
		default:
			if !missing {
				vsym.Assert(same(row[1], total[f]/count), "the decrease per use isn't the mean decrease of impurity")
			}
		}
	}
}

// Contrasts: the importance scores of forests grown together with artificial contrasts. Two cases
// make every tree split once, on the feature or its contrast.
//
//gosym: C33 quick target={N|C} trees=1..3 ace=2 cutoff=0 mTry=1 nomerge exitbad
//gosym: C33 quick target={N|C} trees=2 ace=2 cutoff={0.5|0.05} mTry={1|2} nomerge exitbad
func Contrasts() {
	numeric := vsym.ParamStr("target") == "N"
	nTrees := vsym.Param("trees")
	ace := vsym.Param("ace")
	cutoff, _ := strconv.ParseFloat(vsym.ParamStr("cutoff"), 64)
	dir := vsym.TempDir()
	tname := vsym.ParamStr("target") + ":t"
	target, full := "a\tb", 0.5
	if numeric {
		target, full = "1\t7", 18.0
	}
	vsym.PutFile(dir+"train.fm", ".\tcase0\tcase1\nN:x\t1\t2\n"+tname+"\t"+target+"\n")
	out := hmain.Run(growforest.Main, "-train", dir+"train.fm", "-rfpred", dir+"forest.sf", "-target", tname, "-noseed", "-nTrees", Itoa(nTrees), "-leafSize", "1",
		"-nobag", "-ace", Itoa(ace), "-cutoff", vsym.ParamStr("cutoff"), "-mTry", vsym.ParamStr("mTry"), "-importance", dir+"imp.tsv")
	forest, _ := vsym.GetFile(dir + "forest.sf")
	trees, _ := hmain.ReadForest(forest)
	vsym.Log("forest", forest)
	vsym.Assert(len(trees) == nTrees, "the number of trees isn't the one requested")
	imp, _ := vsym.GetFile(dir + "imp.tsv")
	vsym.Log("imp", imp)
	rows := hmain.Table(imp)
	ok := len(rows) == 2
	vsym.Assert(ok, "there isn't one line of importances per feature")
	if !ok {
		return
	}
	splits := 0 // trees of the last forest that split on the feature
	for _, t := range trees {
		for _, nd := range t.Nodes {
			if nd.Split == "N:x" {
				splits++
			}
		}
	}
	for i, row := range rows {
		ok := len(row) == 4 && row[0] == tname && row[1] == []string{"N:x", tname}[i]
		vsym.Assert(ok, "a line of the importances isn't a feature's")
		if !ok {
			return
		}
	}
	vsym.Assert(same(rows[1][3], 0), "the target has an importance")
	m, err := strconv.ParseFloat(rows[0][3], 64)
	vsym.Assert(err == nil, "the mean importance isn't a number")
	p, _ := strconv.ParseFloat(rows[0][2], 64)
	// the uses in each forest that give the scores
	found := false
	for u := 0; u <= nTrees; u++ {
		for v := 0; v <= nTrees; v++ {
			if cutoff == 0 && v != splits || !Near(m, full*float64(u+v)/float64(2*nTrees)) {
				continue
			}
			a, b := []float64{float64(u), float64(v)}, []float64{float64(nTrees - u), float64(nTrees - v)}
			if u == v {
				found = found || p != p
				continue
			}
			t, df := welch(a, b)
			found = found || math.Abs(p-Tail(t, df)) < 1e-6
		}
	}
	vsym.Assert(found, "the scores aren't those of the feature and its contrast")
	if cutoff > 0 {
		sig := 0
		if p < cutoff && m > 0 {
			sig = 1
		}
		line, ok := hmain.Line(out, "Growing non-ACE forest with ")
		vsym.Assert(ok && strings.HasPrefix(line, Itoa(sig)+" "), "the number of significant features is wrong")
		vsym.Assert(splits == sig*nTrees, "the last forest isn't grown from the significant features")
	}
}

// welch is the statistic of samples of two values each and its degrees of freedom.
func welch(a, b []float64) (t, df float64) {
	va, vb := (a[0]-a[1])*(a[0]-a[1])/4, (b[0]-b[1])*(b[0]-b[1])/4
	t = (a[0] + a[1] - b[0] - b[1]) / 2 / math.Sqrt(va+vb)
	return t, (va + vb) * (va + vb) / (va*va + vb*vb)
}

// Tail is the upper tail of Student's t distribution with 2 degrees of freedom.
func Tail(t, v float64) float64 {
	vsym.Assert(Near(v, 2), "the samples don't have two degrees of freedom")
	return 0.5 - t/2/math.Sqrt(2+t*t)
}

// Forests: with the same random draws, the scores and the last forest are those of forests the library grows one after
// another, each with contrasts of its own, the last one without contrasts from the significant features when there is a cutoff.
//
//gosym: C33 quick n=5 target={N|C} trees={1|2} ace=3 cutoff=0 mTry={0|9} samples=5 free=2 nomerge exitbad covers=same
//gosym: C33 quick n=6 target={N|C} trees=2 ace=3 cutoff={0.6|0.2} mTry={0|1} samples=6 free=2 nomerge exitbad covers=same
//gosym: C33 quick n=5 target={N|C} trees=3 ace=3 cutoff={0|0.6} mTry=.5 samples=4 free=2 nomerge exitbad covers=same
//gosym: C33 thorough n=8 target={N|C} trees=3 ace={3|6} cutoff={0|0.6|0.2|0.05} mTry={0|9|.3} samples=7 free=3 nomerge exitbad covers=same budget=100
func Forests() {
	n, nTrees, ace, samples := vsym.Param("n"), vsym.Param("trees"), vsym.Param("ace"), vsym.Param("samples")
	numeric := vsym.ParamStr("target") == "N"
	tname := vsym.ParamStr("target") + ":t"
	cutoff, _ := strconv.ParseFloat(vsym.ParamStr("cutoff"), 64)
	mTryText := vsym.ParamStr("mTry")
	dir := vsym.TempDir()
	text := "."
	for i := 0; i < n; i++ {
		text += "\tcase" + Itoa(i)
	}
	names := []string{"N:x", "C:c", tname, "N:y"}
	for _, f := range names {
		text += "\n" + f
		for i := 0; i < n; i++ {
			switch f {
			case "N:x":
				text += "\t" + []string{"1", "2", "4", "3", "6", "5", "8", "7"}[i]
			case "C:c":
				text += "\t" + []string{"u", "v", "u", "w", "v", "u", "w", "w"}[i]
			case "N:y":
				text += "\t" + []string{"5", "1", "NA", "2", "9", "9", "1", "2"}[i]
			case "N:t":
				text += "\t" + []string{"1", "2", "7", "4", "9", "8", "20", "12"}[i]
			default:
				text += "\t" + []string{"a", "a", "b", "a", "b", "b", "b", "a"}[i]
			}
		}
	}
	vsym.PutFile(dir+"train.fm", text+"\n")
	args := []string{"-train", dir + "train.fm", "-rfpred", dir + "forest.sf", "-target", tname, "-noseed", "-nTrees", Itoa(nTrees), "-leafSize", "1", "-oob",
		"-nobag", "-nSamples", Itoa(samples), "-ace", Itoa(ace), "-cutoff", vsym.ParamStr("cutoff"), "-mTry", mTryText, "-importance", dir + "imp.tsv"}

	fm, err := CF.LoadAFM(dir + "train.fm")
	vsym.Assert(err == nil, "the data can't be loaded")
	d0 := vsym.Draws()
	target := fm.Data[2]
	real := len(fm.Data)
	mTry := CF.ParseAsIntOrFractionOfTotal(mTryText, real-1)
	if mTry <= 0 {
		mTry = 2 // of three features
	}
	fm.ContrastAll()
	var candidates []int
	for i := range fm.Data {
		if i%real != 2 {
			candidates = append(candidates, i)
		}
	}
	scores := make([][]float64, len(fm.Data))
	var votes CF.VoteTallyer = CF.NewCatBallotBox(n)
	if numeric {
		votes = CF.NewNumBallotBox(n)
	}
	var last []*CF.Tree
	grow := func(keep bool) *[]*CF.RunningMean {
		means := CF.NewRunningMeans(len(fm.Data))
		allocs := CF.NewBestSplitAllocs(samples, target)
		cand := append([]int{}, candidates...)
		for k := 0; k < nTrees; k++ {
			cases := Seq(n)
			if samples != n {
				CF.SampleFirstN(&cases, &cases, samples, 0)
			}
			var oob []int
			for i := 0; i < n; i++ {
				in := false
				for _, c := range cases {
					in = in || c == i
				}
				if !in {
					oob = append(oob, i)
				}
			}
			tree := CF.NewTree()
			tree.Grow(fm, target, cases, cand, oob, mTry, 1, 0, false, false, false, false, false, means, nil, allocs)
			if keep {
				tree.VoteCases(fm, votes, oob)
				last = append(last, tree)
			}
		}
		return means
	}
	for f := 0; f < ace; f++ {
		means := grow(cutoff == 0 && f == ace-1)
		for i := range scores {
			mean, count := (*means)[i].Read()
			scores[i] = append(scores[i], mean*count/float64(nTrees))
		}
		for i := real; i < len(fm.Data); i++ {
			if i%real != 2 {
				fm.Data[i].Shuffle()
			}
		}
	}
	var p, m [4]float64
	sig := 0
	candidates = nil
	for i := 0; i < real; i++ {
		p[i], _, _, m[i] = stats.Ttest(&scores[i], &scores[i+real])
		if i != 2 && p[i] < cutoff && m[i] > 0 {
			candidates = append(candidates, i)
			sig++
		}
	}
	if cutoff > 0 {
		mTry = CF.ParseAsIntOrFractionOfTotal(mTryText, sig)
		if mTry <= 0 {
			mTry = int(math.Ceil(math.Sqrt(float64(sig))))
		}
		grow(true)
	}
	d1 := vsym.Draws()

	vsym.Repeat(d0)
	out := hmain.Run(growforest.Main, args...)
	for k := d0; k < d1; k++ {
		if vsym.DrawN(k) != vsym.DrawN(k+d1-d0) {
			return
		}
	}
	vsym.Cover("same")
	imp, _ := vsym.GetFile(dir + "imp.tsv")
	vsym.Log("imp", imp)
	rows := hmain.Table(imp)
	vsym.Assert(len(rows) == real, "there isn't one line of importances per feature")
	if len(rows) != real {
		return
	}
	for i, row := range rows {
		ok := len(row) == 4 && row[0] == tname && row[1] == names[i]
		vsym.Assert(ok, "a line of the importances isn't a feature's")
		if !ok {
			return
		}
		if i != 2 {
			vsym.Assert(same(row[3], m[i]), "a score isn't the mean over the forests")
			vsym.Assert(same(row[2], p[i]), "a p-value isn't that of a feature's scores against its contrast's")
		}
	}
	if cutoff > 0 {
		line, ok := hmain.Line(out, "Growing non-ACE forest with ")
		vsym.Assert(ok && strings.HasPrefix(line, Itoa(sig)+" "), "the number of significant features is wrong")
	}
	if samples < n {
		line, ok := hmain.Line(out, "Out of Bag Error : ")
		vsym.Assert(ok && same(line, votes.TallyError(target)), "the out-of-bag error isn't that of the last forest")
	}
	forest, _ := vsym.GetFile(dir + "forest.sf")
	trees, _ := hmain.ReadForest(forest)
	vsym.Assert(len(trees) == len(last), "the number of trees isn't the one requested")
	if len(trees) != len(last) {
		return
	}
	for k, t := range last {
		count := 0
		sameNode(t.Root, "*", trees[k], &count)
		vsym.Assert(count == len(trees[k].Nodes), "a tree of the last forest has more nodes than with the settings requested")
	}
}

// sameNode compares a written tree's nodes with those of a grown one.
func sameNode(n *CF.Node, path string, t *hmain.Tree, count *int) {
	if n == nil {
		return
	}
	g := t.Nodes[path]
	vsym.Assert(g != nil, "a tree of the last forest has fewer nodes than with the settings requested")
	if g == nil {
		return
	}
	*count++
	split := ""
	if n.Splitter != nil {
		split = n.Splitter.Feature
	}
	vsym.Assert(g.Split == split, "a tree of the last forest splits on another feature than with the settings requested")
	sameNode(n.Left, path+"L", t, count)
	sameNode(n.Right, path+"R", t, count)
	sameNode(n.Missing, path+"M", t, count)
}

// Package c25 checks the forest growing command.
package c25

import (
	"math"
	"strconv"
	"strings"

	CF "github.com/ryanbressler/CloudForest"
	. "hlib"
	"hmain"
	"vsym"

	growforest "cfmain/growforest"
)

type table = hmain.Data

// votes are the weights given to each prediction of a case.
type votes struct {
	name []string
	w    []float64
}

func (v *votes) add(p string, w float64) {
	for k, n := range v.name {
		if n == p {
			v.w[k] += w
			return
		}
	}
	v.name, v.w = append(v.name, p), append(v.w, w)
}

// mean is the weighted mean of the predictions, with whether there are any.
func (v *votes) mean() (float64, bool) {
	s, c := 0.0, 0.0
	for k, n := range v.name {
		x, _ := strconv.ParseFloat(n, 64)
		s += x * v.w[k]
		c += v.w[k]
	}
	return s / c, c > 0
}

// best tells whether a category has as many votes as any.
func (v *votes) best(p string) bool {
	top, own := 0.0, 0.0
	for k, n := range v.name {
		if v.w[k] > top {
			top = v.w[k]
		}
		if n == p {
			own = v.w[k]
		}
	}
	if top == 0 {
		return p == "NA"
	}
	return own == top
}

// sure tells whether a category alone has the most votes.
func (v *votes) sure(p string) bool {
	for _, n := range v.name {
		if n != p && v.best(n) {
			return false
		}
	}
	return v.best(p)
}

// checkError compares a printed error with the votes.
func checkError(text string, vs []*votes, target []string, numeric bool, msg string) {
	got, err := strconv.ParseFloat(text, 64)
	vsym.Assert(err == nil, "the error isn't a number")
	if err != nil {
		return
	}
	if numeric {
		m, c, e, ec, v := 0.0, 0.0, 0.0, 0.0, 0.0
		for _, t := range target {
			if t != "NA" {
				x, _ := strconv.ParseFloat(t, 64)
				m += x
				c++
			}
		}
		m /= c
		for i, t := range target {
			if t == "NA" {
				continue
			}
			x, _ := strconv.ParseFloat(t, 64)
			v += (x - m) * (x - m)
			if p, ok := vs[i].mean(); ok {
				e += (x - p) * (x - p)
				ec++
			}
		}
		want := e / ec / (v / c)
		vsym.Assert(Near(got, want) || want != want && got != got, msg)
		return
	}
	lo, hi, k := 0.0, 0.0, 0.0
	for _, cat := range []string{"a", "b", "d"} {
		n, l, h := 0.0, 0.0, 0.0
		for i, t := range target {
			if t != cat {
				continue
			}
			n++
			if vs[i].sure(t) {
				l++
			}
			if vs[i].best(t) {
				h++
			}
		}
		if n > 0 {
			k++
			lo += l / n
			hi += h / n
		}
	}
	vsym.Assert(got >= 1-hi/k-1e-9 && got <= 1-lo/k+1e-9 || k == 0 && got != got, msg)
}

// plain are the options that don't change what a leaf predicts.
var plain = map[string]bool{"": true, "-splitmissing": true, "-extra": true, "-vet": true, "-vet_-evaloob": true, "-force": true, "-evaloob": true,
	"-maxDepth": true, "-mTry": true, "-nSamples": true, "-entropy": true, "-jungle": true, "-impute": true,
	"-blockRE": true, "-leafSize": true, "-includeRE": true, "rfweights": false}

var xs = []string{"1", "2", "3", "4", "5", "6"}
var nums = []string{"1", "2.5", "7", "NA"}
var cats = []string{"a", "b", "NA"}

// Grown: the forest written and errors reported.
//
//gosym: C25 quick cores=1 n=3 target={N|C} bag=all trees={1|2} opts= eval={oob|oobpreds|selftest} vary=0 feats=x nomerge exitbad
//gosym: C25 quick cores=1 n=3 target={N|C} bag=none trees={1|3} opts= eval={selftest|test|progress} vary=1 feats=x nomerge exitbad
//gosym: C25 quick cores=1 n=4 target={N|C} bag=2 trees=2 opts= eval={oobpreds|progress|test} vary=0 feats=xc nomerge exitbad
//gosym: C25 quick cores=1 n=3 target={N|C} bag=none trees=2 opts={-splitmissing|-extra|-vet|-force|-evaloob|-maxDepth=1|-mTry=1|-permute} eval={selftest|oob} vary=0 feats=xc nomerge exitbad
//gosym: C25 quick cores=1 n=5 target={N|C} bag=2 trees=1 opts=-vet_-evaloob eval=none vary=0 feats=xc draws=8 nomerge exitbad
//gosym: C25 quick cores=1 n=4 target=C bag=balance trees=1 opts=-nSamples=2 eval={oobpreds|selftest} vary=0 feats=x nomerge exitbad
//gosym: C25 quick cores=1 n=4 target=C bag=balanceby trees=1 opts=-nSamples=2 eval={oobpreds|selftest} vary=0 feats=xc nomerge exitbad
//gosym: C25 quick cores=1 n=5 target=C bag=balanceby trees=1 opts=-nSamples=2 eval=oobpreds vary=0 feats=xc nomerge exitbad
//gosym: C25 quick cores=1 n=3 target=N bag=sub trees=2 opts=-nSamples=2 eval={oobpreds|selftest} vary=0 feats=x nomerge exitbad
//gosym: C25 quick cores=1 n=3 target={N|C} bag=none trees=1 opts=-nSamples=3 eval=oobpreds vary=1 feats=x nomerge exitbad
//gosym: C25 quick cores=2..3 n=3 target={N|C} bag=none trees=1..3 opts= eval={none|oob|selftest} vary=0 feats=x nomerge exitbad race preempt=99
//gosym: C25 quick cores=2 n=3 target=N bag=1 trees=2 opts= eval=oobpreds vary=0 feats=x nomerge exitbad race preempt=99
//gosym: C25 quick cores=1 n=4 target=N bag=none trees=2 opts={-l1|-ordinal|-adaboost|-gbt=0.5|-density|-jungle|-impute|-blockRE=C:|-includeRE=C:} eval={selftest|none} vary=0 feats=xc nomerge exitbad
//gosym: C25 quick cores=1 n=4 target=C bag=none trees=2 opts={-entropy|-hellinger_-positive=a|-NP_-NP#pos=a|cost|rfweights|adacost|dentropy|-adaboost|-gbt=0.5_-positive=a|-density|-jungle|-trans#unlabeled=b} eval={selftest|none} vary=0 feats=xc nomerge exitbad
//gosym: C25 thorough cores=1 n=4 target={N|C} bag=all trees=1 opts= eval={oobpreds|selftest} vary=0 feats=x nomerge exitbad budget=200
//gosym: C25 thorough cores=1 n=2 target={N|C} bag=all trees=1..2 opts= eval={oobpreds|test} vary=1 feats=x draws=8 nomerge exitbad budget=100
//gosym: C25 thorough cores=1 n=3 target={N|C} bag={2|all} trees=1 opts= eval={oobpreds|test} vary=1 feats=x draws=6 nomerge exitbad budget=200
//gosym: C25 thorough cores=1 n=3 target={N|C} bag=none trees=1 opts={-leafSize=1|-splitmissing} eval={selftest|oob} vary=2 feats=x nomerge exitbad budget=200
//gosym: C25 thorough cores=1 n=3 target={N|C} bag=2 trees=3 opts={-adaboost|-mTry=1} eval={oobpreds|none} vary=0 feats=xc nomerge exitbad budget=200
//gosym: C25 thorough cores={2|4} n=3 target={N|C} bag=none trees=4 opts= eval={none|selftest} vary=0 feats=x nomerge exitbad race preempt=99 budget=300
//gosym: C25 thorough cores=2..3 n=3 target=N bag=1 trees=2 opts= eval={oob|oobpreds} vary=0 feats=x nomerge exitbad race preempt=99 budget=300
//gosym: C25 thorough cores=1 n=4 target=C bag=balance trees=1 opts=-nSamples=2 eval={oobpreds|test} vary=0 feats=xc nomerge exitbad budget=200
func Grown() {
	n := vsym.Param("n")
	cores := vsym.Param("cores")
	numeric := vsym.ParamStr("target") == "N"
	bagging := vsym.ParamStr("bag")
	nTrees := vsym.Param("trees")
	eval := vsym.ParamStr("eval")
	opts := vsym.ParamStr("opts")
	dir := vsym.TempDir()

	d := table{}
	tname := vsym.ParamStr("target") + ":t"
	head := "."
	missing := false
	kinds := len(nums)
	if !numeric {
		kinds = len(cats)
	}
	for i := 0; i < n; i++ {
		head += "\tcase" + Itoa(i)
		x, c := i, i/2
		if vsym.Param("vary") > 1 {
			x = vsym.Conc(vsym.Int("x"+Itoa(i), -1, 2))
			if vsym.ParamStr("feats") == "xc" {
				c = vsym.Conc(vsym.Int("c"+Itoa(i), 0, len(cats)-1))
			}
		}
		if x < 0 {
			d["N:x"] = append(d["N:x"], "NA")
			missing = true
		} else {
			d["N:x"] = append(d["N:x"], xs[x])
		}
		if vsym.ParamStr("feats") == "xc" {
			d["C:c"] = append(d["C:c"], cats[c])
			missing = missing || cats[c] == "NA"
		}
		t := i % 2
		if vsym.Param("vary") > 0 {
			t = vsym.Conc(vsym.Int("t"+Itoa(i), 0, kinds-1))
		} else if numeric {
			t = i % 3
		}
		if numeric {
			d[tname] = append(d[tname], nums[t])
		} else {
			d[tname] = append(d[tname], cats[t])
		}
	}
	write := func(name string, d table, head string, features ...string) {
		text := head + "\n"
		for _, f := range features {
			if d[f] != nil {
				text += f + "\t" + strings.Join(d[f], "\t") + "\n"
			}
		}
		vsym.PutFile(dir+name, text)
	}
	write("train.fm", d, head, "N:x", "C:c", tname)
	args := []string{"-train", dir + "train.fm", "-rfpred", dir + "forest.sf", "-target", tname, "-noseed", "-nTrees", Itoa(nTrees), "-leafSize", "1", "-nCores", Itoa(cores)}
	known := 0 // cases whose target is known
	for _, t := range d[tname] {
		if t != "NA" {
			known++
		}
	}
	vsym.Assume(known > 0)
	nSamples := known
	switch bagging {
	case "all":
	case "none":
		args = append(args, "-nobag")
	case "sub":
		args = append(args, "-nobag")
		nSamples = 2
	case "balance":
		args = append(args, "-balance")
		nSamples = 2
	case "balanceby":
		args = append(args, "-balanceby", "C:c")
		nSamples = 2
	default:
		nSamples, _ = strconv.Atoi(bagging)
		args = append(args, "-nSamples", bagging)
	}
	costs := "{\"a\":2,\"b\":0.5}"
	switch opts {
	case "":
	case "cost", "rfweights", "adacost", "dentropy":
		args = append(args, "-"+opts, costs)
	default:
		for _, o := range strings.Split(opts, "_") {
			args = append(args, strings.Replace(o, "#", "_", 1))
		}
	}
	test := d
	switch eval {
	case "oob":
		args = append(args, "-oob")
	case "oobpreds":
		args = append(args, "-oobpreds", dir+"oob.tsv")
	case "progress":
		args = append(args, "-progress")
	case "selftest":
		args = append(args, "-selftest")
	case "test":
		test = table{"N:x": {"0", "2.2", "9", "NA"}, "C:c": {"b", "d", "a", "NA"}, tname: {"NA", "2.5", "7", "1"}}
		if !numeric {
			test[tname] = []string{"b", "d", "NA", "d"}
		}
		write("test.fm", test, ".\ttest0\ttest1\ttest2\ttest3", "C:c", tname, "N:x") // the features are found by name
		args = append(args, "-test", dir+"test.fm")
	}
	stdout := hmain.Run(growforest.Main, args...)
	if strings.Contains(opts, "-permute") {
		return // the order of the targets is unknown
	}
	text, ok := vsym.GetFile(dir + "forest.sf")
	vsym.Assert(ok, "the forest isn't written")
	vsym.Log("forest", text)
	trees, intercept := hmain.ReadForest(text)
	if strings.Contains(stdout, "Boosting Reached Weight of +Inf") {
		return // nothing is left to learn
	}
	vsym.Assert(len(trees) == nTrees, "the number of trees isn't the one requested")
	_ = intercept

	// the cases each tree is grown from
	next := 0
	oob := make([]*votes, n)
	for i := range oob {
		oob[i] = &votes{}
	}
	drawn := make([]int, n)
	if cores > 1 && bagging != "none" {
		for i := 0; i < vsym.Draws(); i++ {
			if vsym.DrawN(i) == n {
				drawn[vsym.Conc(vsym.DrawVal(i))]++
			}
		}
	}
	for _, t := range trees {
		used := make([]int, n)
		if bagging == "none" {
			for i := range used {
				if d[tname][i] != "NA" {
					used[i] = 1
				}
			}
		} else if bagging == "sub" {
			// the trees' leaves tell the cases they are grown from
			k := 0
			for _, nd := range t.Nodes {
				for i := range used {
					if nd.Split == "" && nd.Pred == d[tname][i] && used[i] == 0 {
						used[i] = 1
						k++
					}
				}
			}
			vsym.Assert(k == nSamples, "a tree isn't grown from as many cases as requested")
		} else if bagging == "balance" || bagging == "balanceby" {
			draw := func() int {
				for next < vsym.Draws() && (vsym.DrawN(next) < 2 || vsym.DrawN(next) > n) {
					next++
				}
				next++
				return vsym.Conc(vsym.DrawVal(next - 1))
			}
			for k := 0; k < nSamples; k++ {
				within := func(i int) bool { return true }
				if bagging == "balanceby" { // a class of the other feature, as often as it appears
					var by []string
					for _, cat := range cats[:2] {
						for i, v := range d["C:c"] {
							if v == cat && d[tname][i] != "NA" {
								by = append(by, cat)
							}
						}
					}
					class := by[draw()]
					within = func(i int) bool { return d["C:c"][i] == class }
				}
				var classes [][]int // in the order they appear
				for _, cat := range cats[:2] {
					var members []int
					for i := range used {
						if d[tname][i] == cat && within(i) {
							members = append(members, i)
						}
					}
					if len(members) > 0 {
						classes = append(classes, members)
					}
				}
				members := classes[0]
				if len(classes) > 1 {
					members = classes[draw()]
				}
				m := members[0]
				if len(members) > 1 {
					m = members[draw()]
				}
				used[m]++
			}
		} else if cores > 1 {
			// the tree's only prediction tells the only case it is grown from
			for i := range used {
				if len(t.Nodes) == 1 && t.Nodes["*"].Pred == d[tname][i] {
					used[i] = 1
					drawn[i]--
				}
			}
		} else {
			for k := 0; k < nSamples; next++ {
				if next >= vsym.Draws() {
					vsym.Assert(false, "a tree is grown from too few cases")
					return
				}
				if vsym.DrawN(next) != n {
					continue
				}
				c := vsym.Conc(vsym.DrawVal(next))
				if d[tname][c] != "NA" {
					used[c]++
					k++
				}
			}
		}
		at := map[string]*votes{} // targets of the cases used by leaf
		for i, u := range used {
			p := t.Leaf(d, i)
			vsym.Assert(p != "" || u == 0 || missing, "a case a tree is grown from is on no leaf")
			if u > 0 {
				if at[p] == nil {
					at[p] = &votes{}
				}
				at[p].add(d[tname][i], float64(u))
			} else if pred := t.Predict(d, i); pred != "" {
				oob[i].add(pred, t.Weight)
			}
		}
		for path, nd := range t.Nodes {
			if nd.Split != "" {
				split := nd.Split == "N:x" && opts != "-includeRE=C:" || nd.Split == "C:c" && opts != "-blockRE=C:"
				vsym.Assert(split, "a split isn't on a candidate feature")
				continue
			}
			vsym.Assert(at[path] != nil, "no case a tree is grown from is on a leaf")
			if at[path] == nil {
				return
			}
			if !plain[strings.SplitN(opts, "=", 2)[0]] {
				continue
			}
			if numeric {
				got, err := strconv.ParseFloat(nd.Pred, 64)
				want, _ := at[path].mean()
				vsym.Assert(err == nil && Near(got, want), "a leaf doesn't predict the mean of its cases")
			} else {
				vsym.Assert(at[path].best(nd.Pred), "a leaf doesn't predict the mode of its cases")
			}
		}
	}

	for _, k := range drawn {
		vsym.Assert(k == 0, "the trees aren't grown from the cases drawn")
	}

	oobError, printed := hmain.Line(stdout, "Out of Bag Error : ")
	vsym.Assert(printed == (eval == "oob" || eval == "oobpreds" || eval == "progress"), "the out-of-bag error isn't reported on request")
	if printed {
		if numeric { // ties between categories may be broken either way
			vsym.Log("oob", oobError)
		}
		checkError(oobError, oob, d[tname], numeric, "the out-of-bag error isn't that of the trees not grown from each case")
	}
	if eval == "oobpreds" {
		text, _ := vsym.GetFile(dir + "oob.tsv")
		rows := hmain.Table(text)
		vsym.Assert(len(rows) == n, "there isn't an out-of-bag prediction for every case")
		for i, row := range rows {
			ok := len(row) == 3 && row[0] == "case"+Itoa(i) && row[2] == d[tname][i]
			vsym.Assert(ok, "a line of the out-of-bag predictions isn't a case's")
			if !ok {
				return
			}
			if numeric {
				want, any := oob[i].mean()
				got, err := strconv.ParseFloat(row[1], 64)
				vsym.Assert(any && err == nil && Near(got, want) || !any && row[1] == "NA", "an out-of-bag prediction isn't that of the trees not grown from the case")
			} else {
				vsym.Assert(oob[i].best(row[1]), "an out-of-bag prediction isn't that of the trees not grown from the case")
			}
		}
	}
	checkTest(stdout, trees, test, tname, numeric, eval)
}

// checkTest compares the errors reported for a test set with applying the forest.
func checkTest(stdout string, trees []*hmain.Tree, d table, tname string, numeric bool, eval string) {
	testError, printed := hmain.Line(stdout, "Error: ")
	vsym.Assert(printed == (eval == "test" || eval == "selftest"), "the test error isn't reported on request")
	if !printed {
		return
	}
	vs := make([]*votes, len(d[tname]))
	for i := range vs {
		vs[i] = &votes{}
		for _, t := range trees {
			if p := t.Predict(d, i); p != "" {
				vs[i].add(p, t.Weight)
			}
		}
	}
	if numeric {
		vsym.Log("test", testError)
	}
	checkError(testError, vs, d[tname], numeric, "the test error isn't that of the forest")
	if numeric {
		return
	}
	lo, hi, n := 0, 0, 0
	for i, t := range d[tname] {
		n++
		if t == "NA" {
			continue
		}
		if vs[i].sure(t) {
			lo++
		}
		if vs[i].best(t) {
			hi++
		}
	}
	line, ok := hmain.Line(stdout, "Classified: ")
	vsym.Assert(ok, "the correctly classified cases aren't reported")
	f := strings.Fields(line)
	ok = len(f) == 5
	vsym.Assert(ok, "the report of correctly classified cases is malformed")
	if ok {
		got, _ := strconv.Atoi(f[0])
		vsym.Assert(got >= lo && got <= hi && f[2] == Itoa(n), "the number of correctly classified cases is wrong")
		r, _ := strconv.ParseFloat(f[4], 64)
		vsym.Assert(math.Abs(r-float64(got)/float64(n)) < 1e-9, "the rate of correctly classified cases is wrong")
	}
	for _, cat := range []string{"a", "b", "d"} {
		total, okLo, okHi, predLo, predHi := 0, 0, 0, 0, 0
		for i, t := range d[tname] {
			if t == "NA" {
				continue
			}
			if t == cat {
				total++
				if vs[i].sure(cat) {
					okLo++
				}
				if vs[i].best(cat) {
					okHi++
				}
			}
			if vs[i].sure(cat) {
				predLo++
			}
			if vs[i].best(cat) {
				predHi++
			}
		}
		line, ok := hmain.Line(stdout, "Label "+cat+" Missed/Actuall Rate: ")
		vsym.Assert(ok || total == 0, "a category isn't reported")
		if ok {
			f := strings.Fields(line)
			missed, _ := strconv.Atoi(f[0])
			vsym.Assert(missed >= total-okHi && missed <= total-okLo && f[2] == Itoa(total), "a category's rate of missed cases is wrong")
		}
		line, ok = hmain.Line(stdout, "Label "+cat+" Percision (Actuall/Predicted): ")
		vsym.Assert(ok || total == 0, "a category's precision isn't reported")
		if ok {
			f := strings.Fields(line)
			wrong, _ := strconv.Atoi(f[0])
			pred, _ := strconv.Atoi(f[2])
			vsym.Assert(pred >= predLo && pred <= predHi && wrong >= predLo-okHi && wrong <= predHi-okLo, "a category's precision is wrong")
		}
	}
}

// Prepared: options that change the data first grow the forest that data changed by the library
// with the same random draws gives.
//
//gosym: C25 quick n=3 opt={shuffle|permute|impute} target={N|C} nomerge exitbad covers=same
//gosym: C25 quick n=2 opt={contrasts|contrastall} target=N nomerge exitbad covers=same
//gosym: C25 thorough n=3 opt=contrasts target=N nomerge exitbad covers=same budget=200
//gosym: C25 thorough n=3 opt=shuffleall target={N|C} nomerge exitbad covers=same budget=200
func Prepared() {
	n := vsym.Param("n")
	numeric := vsym.ParamStr("target") == "N"
	tname := vsym.ParamStr("target") + ":t"
	dir := vsym.TempDir()
	text := "."
	for i := 0; i < n; i++ {
		text += "\tcase" + Itoa(i)
	}
	if !strings.HasPrefix(vsym.ParamStr("opt"), "contrast") { // the order of categories would differ
		text += "\nC:c"
		for i := 0; i < n; i++ {
			text += "\t" + []string{"NA", "a", "b"}[i%3]
		}
	}
	text += "\nN:x"
	for i := 0; i < n; i++ {
		text += "\t" + []string{"1", "2", "NA", "4"}[i%4]
	}
	text += "\n" + tname
	for i := 0; i < n; i++ {
		if numeric {
			text += "\t" + nums[i%3]
		} else {
			text += "\t" + cats[i%2]
		}
	}
	if vsym.ParamStr("opt") == "permute" { // the target isn't last
		text += "\nN:z"
		for i := 0; i < n; i++ {
			text += "\t1"
		}
	}
	text += "\n"
	vsym.PutFile(dir+"a.fm", text)
	grow := func(train string, args ...string) string {
		hmain.Run(growforest.Main, append([]string{"-train", dir + train, "-rfpred", dir + "out.sf", "-target", tname, "-noseed", "-nTrees", "1", "-leafSize", "1", "-nobag", "-mTry", "9"}, args...)...)
		out, ok := vsym.GetFile(dir + "out.sf")
		vsym.Assert(ok, "the forest isn't written")
		return out
	}
	d0 := vsym.Draws()
	fm, err := CF.LoadAFM(dir + "a.fm")
	vsym.Assert(err == nil, "the data can't be loaded")
	var args []string
	switch vsym.ParamStr("opt") {
	case "shuffle":
		fm.Data[fm.Map["N:x"]].Shuffle()
		args = []string{"-shuffleRE", "N:x"}
	case "shuffleall":
		// the target is left alone
		fm.Data[0].Shuffle()
		fm.Data[1].Shuffle()
		args = []string{"-shuffleRE", ":"}
	case "permute":
		fm.Data[fm.Map[tname]].Shuffle()
		args = []string{"-permute"}
	case "impute":
		fm.ImputeMissing()
		args = []string{"-impute"}
	case "contrasts":
		fm.AddContrasts(1)
		args = []string{"-nContrasts", "1"}
	case "contrastall":
		fm.ContrastAll()
		args = []string{"-contrastall"}
	}
	changed := "."
	for i := 0; i < n; i++ {
		changed += "\tcase" + Itoa(i)
	}
	for _, f := range fm.Data {
		changed += "\n" + f.GetName()
		for i := 0; i < n; i++ {
			changed += "\t" + f.GetStr(i)
		}
	}
	vsym.PutFile(dir+"b.fm", changed+"\n")
	want := grow("b.fm")
	d1 := vsym.Draws()
	got := grow("a.fm", args...)
	if vsym.Draws()-d1 != d1-d0 {
		return
	}
	for k := d0; k < d1; k++ {
		if vsym.DrawN(k) != vsym.DrawN(k+d1-d0) {
			return
		}
		vsym.Assume(vsym.DrawVal(k) == vsym.DrawVal(k+d1-d0))
	}
	vsym.Cover("same")
	vsym.Log("want", want)
	vsym.Assert(got == want, "the forest isn't grown from the data the options ask for")
}

// Inferred: sizes that aren't given, given as counts or given as fractions, and features excluded by list.
//
//gosym: C25 quick n=4 miss=1 target={N|C} arg={none|count|fraction|boost|blacklist|unknown} nomerge exitbad
//gosym: C25 quick n={7|8} miss=0 target={N|C} arg={none|count|fraction|big|boost} nomerge exitbad
//gosym: C25 thorough n=5 miss=1 target={N|C} arg={none|count|fraction|big|boost|blacklist|unknown} nomerge exitbad
func Inferred() {
	n := vsym.Param("n")
	numeric := vsym.ParamStr("target") == "N"
	tname := vsym.ParamStr("target") + ":t"
	arg := vsym.ParamStr("arg")
	miss := vsym.Param("miss")
	dir := vsym.TempDir()
	d := table{}
	text := "."
	for i := 0; i < n; i++ {
		text += "\tcase" + Itoa(i)
		d["N:x"] = append(d["N:x"], Itoa(i))
		d["N:y"] = append(d["N:y"], Itoa(i/2))
		d["C:c"] = append(d["C:c"], cats[i/2%2])
		switch {
		case i == n-2 && miss > 0:
			d[tname] = append(d[tname], "NA")
		case numeric:
			d[tname] = append(d[tname], Itoa(i*i))
		default:
			d[tname] = append(d[tname], cats[i%2])
		}
	}
	for _, f := range []string{"N:x", "N:y", "C:c", tname} {
		text += "\n" + f + "\t" + strings.Join(d[f], "\t")
	}
	vsym.PutFile(dir+"a.fm", text+"\n")
	args := []string{"-train", dir + "a.fm", "-rfpred", dir + "out.sf", "-target", tname, "-noseed", "-nTrees", "1", "-nobag", "-maxDepth", "1"}
	known := n - miss
	mTry, leaf, samples := 2, 1, known // two is the square root of three features rounded up
	if numeric {
		leaf = 4
	}
	ban := map[string]bool{}
	switch arg {
	case "count":
		mTry, leaf = 1, 2
		args = append(args, "-mTry", "1", "-leafSize", "2", "-nSamples", Itoa(known))
	case "fraction":
		mTry, leaf = 1, (known+1)/2
		args = append(args, "-mTry", ".3", "-leafSize", "0.5", "-nSamples", "1.0")
	case "big":
		mTry, leaf = 3, known
		args = append(args, "-mTry", "1.0", "-leafSize", "1.0")
	case "boost":
		leaf = known / 3
		args = append(args, "-adaboost")
	case "blacklist", "unknown":
		ban["N:y"], ban["C:c"] = true, arg == "blacklist"
		list := "N:y\nN:y\nN:z\n"
		if arg == "blacklist" {
			list = "C:c\tx\nN:y\ty\n"
			mTry = 1
		}
		vsym.PutFile(dir+"black.tsv", list)
		args = append(args, "-blacklist", dir+"black.tsv")
	}
	out := hmain.Run(growforest.Main, args...)
	for _, l := range [][2]string{{"mTry : ", Itoa(mTry)}, {"leafSize : ", Itoa(leaf)}, {"nSamples : ", Itoa(samples)}, {"non-missing cases: ", Itoa(known)}} {
		got, ok := hmain.Line(out, l[0])
		vsym.Assert(ok && got == l[1], "a size isn't the one documented for the arguments")
	}
	text, ok := vsym.GetFile(dir + "out.sf")
	vsym.Assert(ok, "the forest isn't written")
	trees, _ := hmain.ReadForest(text)
	if strings.Contains(out, "Boosting Reached Weight of +Inf") {
		return // nothing is left to learn
	}
	vsym.Assert(len(trees) == 1, "the number of trees isn't the one requested")
	if len(trees) != 1 {
		return
	}
	t := trees[0]
	at := map[string]int{}
	for i := range d[tname] {
		if d[tname][i] != "NA" {
			at[t.Leaf(d, i)]++
		}
	}
	for path, nd := range t.Nodes {
		vsym.Assert(nd.Split == "" || !ban[nd.Split] && d[nd.Split] != nil && nd.Split != tname, "a split isn't on a candidate feature")
		vsym.Assert(nd.Split != "" || path == "*" || at[path] >= leaf, "a leaf has too few cases")
	}
	if 2*leaf > known {
		vsym.Assert(len(t.Nodes) == 1, "a node too small for two leaves is split")
	} else if numeric && arg == "none" {
		vsym.Assert(len(t.Nodes) > 1, "a node that can be split isn't")
	}
}

// catTarget is the target an option of the command stands for on a categorical feature.
func catTarget(opt string, f CF.CatFeature, fm *CF.FeatureMatrix, known int, costs map[string]float64) (CF.Target, []string) {
	text := "{\"a\":2,\"b\":0.5,\"d\":3}"
	switch opt {
	case "entropy":
		return &CF.EntropyTarget{f}, []string{"-entropy"}
	case "np":
		return CF.NewNPTarget(f, "b", 0.25, 3), []string{"-NP", "-NP_pos", "b", "-NP_a", "0.25", "-NP_k", "3"}
	case "npdef":
		return CF.NewNPTarget(f, "1", 0.1, 100), []string{"-NP"}
	case "cost":
		t := CF.NewRegretTarget(f)
		t.SetCosts(costs)
		return t, []string{"-cost", text}
	case "dentropy":
		t := CF.NewDEntropyTarget(f)
		t.SetCosts(costs)
		return t, []string{"-dentropy", text}
	case "adacost":
		t := CF.NewAdaCostTarget(f)
		t.SetCosts(costs)
		return t, []string{"-adaboost", "-adacost", text}
	case "rfweights":
		return CF.NewWRFTarget(f, costs), []string{"-rfweights", text}
	case "adaboost":
		return CF.NewAdaBoostTarget(f), []string{"-adaboost"}
	case "hellinger":
		return CF.NewHDistanceTarget(f, "b"), []string{"-hellinger", "-positive", "b"}
	case "gbt":
		return CF.NewGradBoostClassTarget(f, 0.25, "b"), []string{"-gbt", "0.25", "-positive", "b"}
	case "trans":
		return CF.NewTransTarget(f, &fm.Data, "d", 10, 0, known), []string{"-trans_unlabeled", "d"}
	case "transab":
		return CF.NewTransTarget(f, &fm.Data, "d", 2, 0.5, known), []string{"-trans_unlabeled", "d", "-trans_alpha", "2", "-trans_beta", "0.5"}
	case "transentropy":
		return CF.NewTransTarget(&CF.EntropyTarget{f}, &fm.Data, "d", 2, 0, known), []string{"-entropy", "-trans_unlabeled", "d", "-trans_alpha", "2"}
	}
	return f, nil
}

// numTarget is the target an option of the command stands for on a numerical feature.
func numTarget(opt string, f CF.NumFeature) (CF.Target, []string) {
	switch opt {
	case "l1":
		return &CF.L1Target{f}, []string{"-l1"}
	case "ordinal":
		return CF.NewOrdinalTarget(f), []string{"-ordinal"}
	case "gbt":
		return CF.NewGradBoostTarget(f, 0.25), []string{"-gbt", "0.25"}
	case "adaboost":
		return CF.NewNumAdaBoostTarget(f), []string{"-adaboost"}
	case "gbtl1":
		return CF.NewGradBoostTarget(&CF.L1Target{f}, 0.25), []string{"-gbt", "0.25", "-l1"}
	}
	return f, nil
}

// Options: with the same random draws the command grows the trees the library grows with the target and
// the settings the options stand for.
//
//gosym: C25 quick n=6 target=C opt={none|entropy|np|npdef|cost|dentropy|adacost|rfweights|adaboost|hellinger|gbt|trans|transab|transentropy} grow=none trees=2 free=4 nomerge exitbad covers=same
//gosym: C25 quick n=6 target=N opt={none|l1|ordinal|gbt|gbtl1|adaboost} grow=none trees=2 free=4 nomerge exitbad covers=same
//gosym: C25 quick n=6 target=C opt={none|entropy|np|npdef|cost|dentropy|adacost|rfweights|adaboost|hellinger|gbt|transab|transentropy} grow={one|onedepth} trees=2 nomerge exitbad covers=same
//gosym: C25 quick n=7 target=N opt={none|l1|ordinal|gbt|gbtl1|adaboost} grow={one|onedepth} trees=2 nomerge exitbad covers=same
//gosym: C25 quick n=6 target={C|N} opt=none grow={onejungle|onemissing} trees=1 nomerge exitbad covers=same
//gosym: C25 thorough n=9 target=C opt={none|entropy|np|npdef|cost|dentropy|adacost|rfweights|adaboost|hellinger|gbt|transab|transentropy} grow={one|onedepth} trees=4 nomerge exitbad covers=same
//gosym: C25 thorough n=9 target=N opt={none|l1|ordinal|gbt|gbtl1|adaboost} grow={one|onedepth} trees=4 nomerge exitbad covers=same
//gosym: C25 quick n=7 target={C|N} opt=none grow={force|vet|extra|splitmissing|evaloob|vetoob|depth|jungle|few} trees=1 free=4 nomerge exitbad covers=same
//gosym: C25 thorough n=9 target={C|N} opt=none grow=vet trees=2 free=2 nomerge exitbad covers=same budget=100
//gosym: C25 thorough n=9 target={C|N} opt=none grow={force|extra|splitmissing|evaloob|vetoob|depth|jungle|few} trees=2 free=4 nomerge exitbad covers=same budget=100
//gosym: C25 thorough n=9 target=C opt={none|entropy|np|cost|dentropy|adacost|rfweights|adaboost|hellinger|gbt|transab|transentropy} grow=depth trees=3 free=4 nomerge exitbad covers=same budget=100
//gosym: C25 thorough n=9 target=N opt={none|l1|ordinal|gbt|gbtl1|adaboost} grow=depth trees=3 free=4 nomerge exitbad covers=same budget=100
func Options() {
	n := vsym.Param("n")
	numeric := vsym.ParamStr("target") == "N"
	tname := vsym.ParamStr("target") + ":t"
	opt := vsym.ParamStr("opt")
	dir := vsym.TempDir()
	rows := map[string]string{}
	head := "."
	known := 0
	one := strings.HasPrefix(vsym.ParamStr("grow"), "one") // nothing in the forest is up to chance
	features := []string{"N:x", "C:c", "N:y", tname}
	if one {
		features = []string{"N:x", tname}
	}
	for i := 0; i < n; i++ {
		head += "\tcase" + Itoa(i)
		rows["N:x"] += "\t" + []string{"3", "1", "NA", "4", "1", "5", "9", "2", "6"}[i]
		rows["N:y"] += "\t" + []string{"2", "7", "1", "8", "2", "8", "NA", "8", "1"}[i]
		rows["C:c"] += "\t" + []string{"u", "v", "v", "NA", "w", "u", "v", "w", "u"}[i]
		switch {
		case i == 4 && !one:
			rows[tname] += "\tNA"
		case numeric:
			rows[tname] += "\t" + []string{"3", "1", "4", "1", "5", "9", "2", "6", "5"}[i]
		default:
			rows[tname] += "\t" + []string{"a", "b", "a", "d", "b", "b", "d", "a", "a"}[i]
		}
		if i != 4 || one {
			known++
		}
	}
	text := head
	for _, f := range features {
		text += "\n" + f + rows[f]
	}
	vsym.PutFile(dir+"a.fm", text+"\n")
	fm, err := CF.LoadAFM(dir + "a.fm")
	vsym.Assert(err == nil, "the data can't be loaded")
	f := fm.Data[fm.Map[tname]]
	var target CF.Target
	var args []string
	if numeric {
		target, args = numTarget(opt, f.(CF.NumFeature))
	} else {
		target, args = catTarget(opt, f.(CF.CatFeature), fm, known, map[string]float64{"a": 2, "b": 0.5, "d": 3})
	}
	mTry, leaf, depth, samples := 2, 1, 0, known
	var splitmissing, force, vet, evaloob, extra, jungle bool
	switch vsym.ParamStr("grow") {
	case "force":
		force = true
		args = append(args, "-force")
	case "vet":
		vet = true
		args = append(args, "-vet")
	case "extra":
		extra = true
		args = append(args, "-extra")
	case "splitmissing":
		splitmissing = true
		args = append(args, "-splitmissing")
	case "evaloob":
		evaloob = true
		samples = known - 2
		args = append(args, "-evaloob", "-nSamples", Itoa(samples))
	case "vetoob":
		evaloob, vet = true, true
		samples = known - 2
		args = append(args, "-vet", "-evaloob", "-nSamples", Itoa(samples))
	case "depth":
		depth = 1
		args = append(args, "-maxDepth", "1")
	case "jungle":
		jungle = true
		args = append(args, "-jungle")
	case "few":
		mTry, leaf = 1, 2
	case "one":
		leaf = 2
	case "onedepth":
		depth = 1
		args = append(args, "-maxDepth", "1")
	case "onejungle":
		jungle = true
		args = append(args, "-jungle")
	case "onemissing":
		splitmissing = true
		args = append(args, "-splitmissing")
	}
	trees := vsym.Param("trees")
	args = append(args, "-train", dir+"a.fm", "-rfpred", dir+"got.sf", "-target", tname, "-noseed", "-nTrees", Itoa(trees), "-nobag", "-mTry", Itoa(mTry), "-leafSize", Itoa(leaf))

	// the forest the library grows
	d0 := vsym.Draws()
	forest := &CF.Forest{Target: tname}
	if t, ok := target.(CF.TargetWithIntercept); ok {
		forest.Intercept = t.Intercept()
	}
	space := samples
	if vet && evaloob {
		space = n
	}
	allocs := CF.NewBestSplitAllocs(space, target)
	var candidates []int
	for i := range fm.Data {
		if i != fm.Map[tname] {
			candidates = append(candidates, i)
		}
	}
	stopped := false
	for k := 0; k < trees && !stopped; k++ {
		var cases, oob []int
		for i := 0; i < n; i++ {
			if i != 4 || one {
				cases = append(cases, i)
			}
		}
		if !one {
			CF.SampleFirstN(&cases, &cases, samples, 0)
		}
		if evaloob {
			for i := 0; i < n; i++ {
				in := false
				for _, c := range cases {
					in = in || c == i
				}
				if !in {
					oob = append(oob, i)
				}
			}
		}
		tree := CF.NewTree()
		tree.Target = tname
		if jungle {
			tree.GrowJungle(fm, target, cases, candidates, oob, mTry, leaf, depth, splitmissing, force, vet, evaloob, extra, nil, nil, allocs)
		} else {
			tree.Grow(fm, target, cases, candidates, oob, mTry, leaf, depth, splitmissing, force, vet, evaloob, extra, nil, nil, allocs)
		}
		if b, ok := target.(CF.BoostingTarget); ok && b != nil && (opt == "adaboost" || opt == "adacost" || strings.HasPrefix(opt, "gbt")) {
			w := b.Boost(tree.Partition(fm))
			if math.IsInf(w, 1) {
				stopped = true
				break
			}
			tree.Weight = w
		}
		forest.Trees = append(forest.Trees, tree)
	}
	d1 := vsym.Draws()
	vsym.Repeat(d0)
	hmain.Run(growforest.Main, args...)
	if !one && vsym.Draws()-d1 != d1-d0 {
		return
	}
	for k := d0; k < d1 && !one; k++ {
		if vsym.DrawN(k) != vsym.DrawN(k+d1-d0) {
			return
		}
	}
	vsym.Cover("same")
	out, ok := vsym.GetFile(dir + "got.sf")
	vsym.Assert(ok, "the forest isn't written")
	got, intercept := hmain.ReadForest(out)
	vsym.Assert(len(got) == len(forest.Trees), "the command grows another number of trees than the library with its settings")
	vsym.Assert(Near(intercept, forest.Intercept), "the command's forest starts from another prediction than the library's with its settings")
	if len(got) != len(forest.Trees) {
		return
	}
	for k, t := range forest.Trees {
		vsym.Log("nodes", len(got[k].Nodes))
		vsym.Assert(Near(got[k].Weight, t.Weight) || t.Weight < 0 && got[k].Weight == 1, "a tree has another weight than the library gives it")
		count := 0
		sameTree(t.Root, "*", got[k], &count, numeric)
		vsym.Assert(count == len(got[k].Nodes), "the command's tree has more nodes than the one the library grows with its settings")
	}
}

// sameTree compares a written tree with a grown one.
func sameTree(n *CF.Node, path string, t *hmain.Tree, count *int, numeric bool) {
	if n == nil {
		return
	}
	g := t.Nodes[path]
	vsym.Assert(g != nil, "the command's tree lacks a node of the one the library grows with its settings")
	if g == nil {
		return
	}
	*count++
	if n.Splitter == nil {
		ok := g.Split == "" && g.Pred == n.Pred
		if numeric && g.Split == "" && !ok {
			a, e1 := strconv.ParseFloat(g.Pred, 64)
			b, e2 := strconv.ParseFloat(n.Pred, 64)
			ok = e1 == nil && e2 == nil && Near(a, b)
		}
		vsym.Assert(ok, "a leaf predicts something else than the library's with the same settings")
		return
	}
	vsym.Assert(g.Split == n.Splitter.Feature, "a node splits on another feature than the library's with the same settings")
	if n.Splitter.Numerical {
		x, err := strconv.ParseFloat(g.Left, 64)
		vsym.Assert(err == nil && Near(x, n.Splitter.Value), "a node splits elsewhere than the library's with the same settings")
	}
	for _, v := range strings.Split(g.Left, ":") {
		vsym.Assert(n.Splitter.Numerical || n.Splitter.Left[v], "a node splits other categories off than the library's with the same settings")
	}
	vsym.Assert(n.Splitter.Numerical || len(strings.Split(g.Left, ":")) == len(n.Splitter.Left), "a node splits other categories off than the library's with the same settings")
	sameTree(n.Left, path+"L", t, count, numeric)
	sameTree(n.Right, path+"R", t, count, numeric)
	sameTree(n.Missing, path+"M", t, count, numeric)
}

// Effects: what options do for every random draw.
//
//gosym: C25 quick target={N|C} opt={none|vet|force|evaloob|evaloobvet|maxdepth} nomerge exitbad
//gosym: C25 thorough target={N|C} opt={forceall|jungleforce|forcevet} nomerge exitbad
func Effects() {
	numeric := vsym.ParamStr("target") == "N"
	tname := vsym.ParamStr("target") + ":t"
	opt := vsym.ParamStr("opt")
	x, t := []string{"1", "2"}, []string{"a", "b"}
	if numeric {
		t = []string{"1", "4"}
	}
	var args, more []string
	split := true
	switch opt {
	case "vet", "forcevet": // a permuted target is split as well
		split = false
		args = []string{"-vet"}
	case "force", "forceall", "jungleforce": // features that are the same for all cases don't count
		more = []string{"N:k\t7\t7", "C:k\tz\tz"}
		args = []string{"-force", "-mTry", "1"}
	case "evaloob": // the single case out of bag isn't split
		split = false
		x, t = append(x, "3"), append(t, "d")
		if numeric {
			t[2] = "9"
		}
		args = []string{"-evaloob", "-nSamples", "2"}
	case "evaloobvet":
		split = false
		x, t = append(x, "3"), append(t, "d")
		if numeric {
			t[2] = "9"
		}
		args = []string{"-vet", "-evaloob", "-nSamples", "2"}
	case "maxdepth":
		x, t = append(x, "3"), append(t, t[0])
		args = []string{"-maxDepth", "1"}
	}
	switch opt {
	case "forcevet":
		args = append(args, "-force")
	case "forceall":
		x, t = append(x, "3"), append(t, t[0])
		more = []string{"N:k\t7\t7\t7", "C:k\tz\tz\tz"}
	case "jungleforce":
		args = append(args, "-jungle")
	}
	text := "."
	for i := range x {
		text += "\tcase" + Itoa(i)
	}
	text += "\nN:x\t" + strings.Join(x, "\t") + "\n" + tname + "\t" + strings.Join(t, "\t") + "\n"
	for _, m := range more {
		text += m + "\n"
	}
	dir := vsym.TempDir()
	vsym.PutFile(dir+"a.fm", text)
	args = append(args, "-train", dir+"a.fm", "-rfpred", dir+"out.sf", "-target", tname, "-noseed", "-nTrees", "1", "-leafSize", "1", "-nobag")
	hmain.Run(growforest.Main, args...)
	out, ok := vsym.GetFile(dir + "out.sf")
	vsym.Assert(ok, "the forest isn't written")
	trees, _ := hmain.ReadForest(out)
	vsym.Assert(len(trees) == 1, "the number of trees isn't the one requested")
	if len(trees) != 1 {
		return
	}
	n := len(trees[0].Nodes)
	vsym.Log("nodes", n)
	switch opt {
	case "none", "force", "jungleforce", "maxdepth":
		vsym.Assert(n == 3, "a node that can be split isn't, or too deep")
	case "forceall":
		vsym.Assert(n == 5, "a node that can be split isn't")
	default:
		vsym.Assert(split == (n > 1), "a split that is no better than one of a permuted target or on cases out of bag is kept")
	}
}

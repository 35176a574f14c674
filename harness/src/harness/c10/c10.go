// Package c10 checks the structure and predictions of grown trees.
package c10

import (
	CF "github.com/ryanbressler/CloudForest"
	. "hlib"
	"vsym"
)

var samples = [][]int{{0, 1, 2}, {0, 1, 2, 3}, {2, 0, 2, 1}, {3, 3, 1, 0, 1}, {4, 2, 0, 1, 3}}

func rows(list []int) int {
	n := 0
	for _, c := range list {
		n = max(n, c+1)
	}
	return n
}

// build makes a matrix from a layout: n numeric, m numeric with missing entries, c/d categorical
// with two/three categories, e categorical with missing entries, z constant.
func build(lay string, n int) *CF.FeatureMatrix {
	var fs []CF.Feature
	for i := range lay {
		name := "f" + Itoa(i)
		switch lay[i] {
		case 'n':
			fs = append(fs, Num(name, n, []float64{0, 1}, false))
		case 'm':
			fs = append(fs, Num(name, n, []float64{0, 1}, true))
		case 'c':
			fs = append(fs, Cat(name, n, 2, false))
		case 'd':
			fs = append(fs, Cat(name, n, 3, false))
		case 'e':
			fs = append(fs, Cat(name, n, 2, true))
		case 'z':
			fs = append(fs, NumOf(name, make([]float64, n)...))
		case 'k':
			f := NumOf(name, make([]float64, n)...)
			for j := range f.NumData {
				f.NumData[j] = float64(j)
			}
			fs = append(fs, f)
		}
	}
	return FM(Labels(n), fs...)
}

type walk struct {
	fm       *CF.FeatureMatrix
	t        *Targ
	leaf     int
	maxDepth int
	splitm   bool
	shared   bool // nodes can have several parents
	nodes    []*CF.Node
	cases    [][]int
	leaves   int
	depth    int
}

// route sends a case one step by the named splitter: 'L', 'R', 'M'.
func route(fm *CF.FeatureMatrix, s *CF.Splitter, c int) byte {
	switch f := fm.Data[fm.Map[s.Feature]].(type) {
	case *CF.DenseNumFeature:
		if f.Missing[c] {
			return 'M'
		}
		if f.NumData[c] <= s.Value {
			return 'L'
		}
	case *CF.DenseCatFeature:
		if f.Missing[c] {
			return 'M'
		}
		if s.Left[f.Back[f.CatData[c]]] {
			return 'L'
		}
	}
	return 'R'
}

func (w *walk) node(n *CF.Node, cases []int, depth int, candidates []int) {
	vsym.Assert(w.maxDepth <= 0 || depth <= w.maxDepth, "a node is deeper than maxDepth")
	w.depth = max(w.depth, depth)
	if n.Splitter == nil {
		vsym.Assert(n.CodedSplit == nil, "a leaf has a coded split")
		vsym.Assert(n.Left == nil && n.Right == nil && n.Missing == nil, "a leaf has children")
		w.leaves++
		for i := range w.nodes {
			if w.nodes[i] == n {
				w.cases[i] = append(append([]int{}, w.cases[i]...), cases...)
				return
			}
		}
		w.nodes = append(w.nodes, n)
		w.cases = append(w.cases, cases)
		return
	}
	vsym.Assert(n.CodedSplit != nil, "a split without its code")
	known := false
	for _, c := range candidates {
		known = known || c == n.Featurei
	}
	vsym.Assert(known && n.Splitter.Feature == w.fm.Data[n.Featurei].GetName(), "a split on a feature that is no candidate")
	vsym.Assert(n.Left != nil && n.Right != nil, "a split without children")
	var l, r, m []int
	for _, c := range cases {
		switch route(w.fm, n.Splitter, c) {
		case 'L':
			l = append(l, c)
		case 'R':
			r = append(r, c)
		default:
			m = append(m, c)
		}
	}
	if !w.shared {
		vsym.Assert(len(l) >= w.leaf && len(r) >= w.leaf, "a side of a split has fewer than leafSize cases")
		d := Dec(w.t, cases, l, r, m)
		vsym.Assert(d > 0, "a split that does not decrease impurity")
	}
	w.node(n.Left, l, depth+1, candidates)
	w.node(n.Right, r, depth+1, candidates)
	if n.Missing != nil {
		vsym.Assert(w.splitm, "a missing branch that was not asked for")
		if len(m) == 0 {
			vsym.Assert(false, "a missing branch without cases")
		}
		w.node(n.Missing, m, depth+1, candidates)
		vsym.Cover("missing")
	} else if w.splitm {
		vsym.Assert(len(m) == 0, "missing cases without a branch")
	}
}

func (w *walk) check(root *CF.Node, cases, candidates []int) {
	w.node(root, cases, 0, candidates)
	for i, n := range w.nodes {
		want := w.t.FindPredicted(w.cases[i])
		vsym.Assert(n.Pred == want || near(n.Pred, want), "a leaf does not predict its own cases")
	}
	vsym.Log("leaves", w.leaves)
}

// near compares predictions that parse as numbers: the mean may be summed in another order.
func near(a, b string) bool { return Near(CF.ParseFloat(a), CF.ParseFloat(b)) && a != "" && a[0] != 'c' }

// Grow grows one tree, and with twice=1 once more with another target, leafSize and depth.
//
//gosym: C10 quick lay={nn|nc|cd} s={0|2} try=1..2 leaf=1..2 depth={0|1} miss=0 twice=0 t={num|cat} nomerge
//gosym: C10 quick lay={m|e|mk} s=0 try=2 leaf=1 depth={0|1} miss=0..1 twice=0 t={num|cat} nomerge
//gosym: C10 quick lay={n|k} s=0 try=1 leaf=1 depth={0|1} miss=0 twice=1 t={num|cat} nomerge
//gosym: C10 quick lay=nz s=1 try=3 leaf=1 depth=0 miss=0 twice=0 t={entropy|l1|regret|wrf|np} nomerge
//gosym: C10 thorough lay={nn|nc} s={1|3} try=1..3 leaf=1..2 depth={0|1|2} miss=0 twice=0 t={num|cat|regret} nomerge
//gosym: C10 thorough lay={m|e|mk} s={1|2} try=2 leaf=1..2 depth={0|1} miss=0..1 twice=0 t={num|cat} nomerge
//gosym: C10 thorough lay={n|k|m} s={0|1} try=1 leaf=1 depth={0|1} miss=0..1 twice=1 t={num|cat|entropy} nomerge
func Grow() {
	lay := vsym.ParamStr("lay")
	cases := samples[vsym.Param("s")]
	n := rows(cases)
	fm := build(lay, n)
	leaf, depth := vsym.Param("leaf"), vsym.Param("depth")
	miss := vsym.Param("miss") == 1
	t := Target(vsym.ParamStr("t"), n, []float64{-1, 2}, 2)
	tree := CF.NewTree()
	cans := Seq(len(lay))
	if vsym.Param("twice") == 1 {
		// an earlier growth of the same tree, to its full depth, on another target
		first := NumOf("first", make([]float64, n)...)
		for i := range first.NumData {
			first.NumData[i] = float64(i * i)
		}
		tree.Grow(fm, first, Seq(n), Seq(len(lay)), nil, len(lay), 1, 0, miss, false, false, false, false, nil, nil, Allocs(n, first))
	}
	a := Allocs(len(cases)+n, t.Target)
	imp := CF.NewRunningMeans(len(lay))
	used := make([]int, len(lay))
	tree.Grow(fm, t.Target, append([]int{}, cases...), cans, nil, vsym.Param("try"), leaf, depth, miss, false, false, false, false, imp, &used, a)
	w := &walk{fm: fm, t: t, leaf: leaf, maxDepth: depth, splitm: miss}
	w.check(tree.Root, cases, Seq(len(lay)))
	// importance: one entry per split of the feature
	splits := make([]float64, len(lay))
	tree.Root.Climb(func(n *CF.Node) {
		if n.Splitter != nil {
			splits[n.Featurei]++
		}
	})
	for i := range splits {
		mean, count := (*imp)[i].Read()
		vsym.Assert(count == splits[i], "importance does not count the splits of a feature")
		vsym.Assert(count == 0 || mean > 0, "importance without a decrease")
	}
	for i := range lay {
		vsym.Assert(Count(cans, i) == 1, "the candidates are no longer a permutation")
	}
}

// Jungle grows with recombination.
//
//gosym: C10 quick lay={n|c|nk} s=1 leaf=1 depth={0|2} miss=0 t={num|cat} nomerge
//gosym: C10 quick lay={m|mk} s=0 leaf=1 depth=0 miss=1 t={num|cat} nomerge
//gosym: C10 thorough lay={kn|nc} s={2|3} leaf=1..2 depth={0|2} miss=0 t={num|cat|entropy} nomerge
//gosym: C10 quick lay=nk s=1 leaf=1 depth=0 miss=0 t=gradboost nomerge
func Jungle() {
	lay := vsym.ParamStr("lay")
	cases := samples[vsym.Param("s")]
	n := rows(cases)
	fm := build(lay, n)
	leaf, depth := vsym.Param("leaf"), vsym.Param("depth")
	miss := vsym.Param("miss") == 1
	pal := []float64{0, 1}
	if vsym.ParamStr("t") == "gradboost" {
		pal = []float64{0, 1, 3}
	}
	t := Target(vsym.ParamStr("t"), n, pal, 2)
	tree := CF.NewTree()
	a := Allocs(len(cases)+n, t.Target)
	tree.GrowJungle(fm, t.Target, append([]int{}, cases...), Seq(len(lay)), nil, len(lay), leaf, depth, miss, false, false, false, false, nil, nil, a)
	w := &walk{fm: fm, t: t, leaf: leaf, maxDepth: depth, splitm: miss, shared: true}
	w.check(tree.Root, cases, Seq(len(lay)))
}

// Forest grows a forest of bagged trees.
//
//gosym: C10 quick n=3 samples=2 trees=2 t={num|cat} nomerge
//gosym: C10 thorough n=3 samples=3 trees=2 t={num|cat} nomerge
func Forest() {
	n, ns, nt := vsym.Param("n"), vsym.Param("samples"), vsym.Param("trees")
	fm := build("kz", n)
	t := Target(vsym.ParamStr("t"), n, []float64{-1, 2}, 2)
	d := vsym.Draws()
	imp := CF.NewRunningMeans(2)
	f := CF.GrowRandomForest(fm, t.Target, Seq(2), ns, 2, nt, 1, 0, false, false, false, false, imp)
	vsym.Assert(len(f.Trees) == nt, "the wrong number of trees")
	vsym.Assert(f.Target == "t" && f.Intercept == 0, "wrong target or intercept")
	// one draw seeds the allocations, the next ones are the sample of the first tree
	cases := []int{}
	for i := 0; i < ns; i++ {
		vsym.Assert(vsym.DrawN(d+1+i) == n, "a sample that is not drawn from all cases")
		cases = append(cases, vsym.DrawVal(d+1+i))
	}
	w := &walk{fm: fm, t: t, leaf: 1}
	w.check(f.Trees[0].Root, cases, Seq(2))
}

// Deep grows a tree of many cases; the first draws and few values are symbolic.
//
//gosym: C10 quick lay=N n=30 try=1 leaf={1|3} depth=5 miss=0 t={num|cat} free=1 k=2 nomerge covers=deep
//gosym: C10 quick lay=N n=30 try=1 leaf={1|3} depth=0 miss=0 t={num|cat} free=1 k=2 nomerge covers=deep
//gosym: C10 quick lay={NC|MK} n=30 try=2 leaf={1|3} depth={0|4} miss=1 t={num|cat} free=2 k=2 nomerge
//gosym: C10 quick lay=NCMKNCMKNCMK n=24 try=3 leaf=2 depth=0 miss=1 t={entropy|regret} free=1 k=1 nomerge
//gosym: C10 thorough lay={NC|MK|NCMK} n=60 try=2 leaf={1|4} depth={0|6} miss=0..1 t={num|cat|l1|wrf|np} free=2 k=1 nomerge
func Deep() {
	lay, n, k := vsym.ParamStr("lay"), vsym.Param("n"), vsym.Param("k")
	var fs []CF.Feature
	for i := range lay {
		name := "f" + Itoa(i)
		kk := 0
		if i == 0 {
			kk = k
		}
		switch lay[i] {
		case 'N':
			fs = append(fs, ManyNum(name, i+1, n, 40, kk, []float64{0, 17, 40}, false))
		case 'M':
			fs = append(fs, ManyNum(name, i+1, n, 12, kk, []float64{0, 5, 12}, true))
		case 'C':
			fs = append(fs, ManyCat(name, i+1, n, 6, 5, kk, false))
		case 'K':
			fs = append(fs, ManyCat(name, i+1, n, 4, 3, kk, true))
		}
	}
	fm := FM(Labels(n), fs...)
	leaf, depth, miss := vsym.Param("leaf"), vsym.Param("depth"), vsym.Param("miss") == 1
	t := ManyTarget(vsym.ParamStr("t"), n, k, 3)
	cases := append(Scramble(7, n, n), 0, n-1)
	tree := CF.NewTree()
	imp := CF.NewRunningMeans(len(lay))
	used := make([]int, len(lay))
	cans := Seq(len(lay))
	tree.Grow(fm, t.Target, append([]int{}, cases...), cans, nil, vsym.Param("try"), leaf, depth, miss, false, false, false, false, imp, &used, Allocs(len(cases)+n, t.Target))
	w := &walk{fm: fm, t: t, leaf: leaf, maxDepth: depth, splitm: miss}
	w.check(tree.Root, cases, Seq(len(lay)))
	vsym.CoverIf(w.depth > 3, "deep")
	splits := make([]float64, len(lay))
	tree.Root.Climb(func(n *CF.Node) {
		if n.Splitter != nil {
			splits[n.Featurei]++
		}
	})
	for i := range splits {
		_, count := (*imp)[i].Read()
		vsym.Assert(count == splits[i], "importance does not count the splits of a feature")
	}
}

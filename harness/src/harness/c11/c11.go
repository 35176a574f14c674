// Package c11 checks how trees route cases to leaves and votes.
package c11

import (
	CF "github.com/ryanbressler/CloudForest"
	. "hlib"
	"vsym"
)

type vote struct {
	c int
	p string
	w float64
}

// box records votes.
type box struct{ votes []vote }

func (b *box) Vote(c int, p string, w float64)   { b.votes = append(b.votes, vote{c, p, w}) }
func (b *box) TallyError(CF.Feature) (e float64) { return 0 }
func (b *box) Tally(i int) (predicted string)    { return "" }

// data has a numeric feature, a categorical one with three categories and a second numeric one.
func data(n int, miss bool) *CF.FeatureMatrix {
	return FM(Labels(n), Num("a", n, []float64{0, 1}, miss), Cat("b", n, 3, miss), Num("d", n, []float64{0, 2}, false))
}

// tree builds one of several shapes; splits are symbolic.
func tree(shape string, fm *CF.FeatureMatrix, coded bool) *CF.Tree {
	t := CF.NewTree()
	k := 0
	var grow func(n *CF.Node, depth int)
	pos := 0
	grow = func(n *CF.Node, depth int) {
		c := shape[pos]
		pos++
		if c == '_' {
			n.Pred = "p" + Itoa(k)
			k++
			return
		}
		id := Itoa(pos)
		switch c {
		case 'a', 'A':
			v := vsym.Float("val"+id, -1, 0, 0.5, 1)
			n.Featurei = 0
			n.CodedSplit = v
		case 'b', 'B':
			n.Featurei = 1
			n.CodedSplit = vsym.Int("set"+id, 0, 7)
		case 'd', 'D':
			n.Featurei = 2
			n.CodedSplit = 0.5
		}
		n.Splitter = fm.Data[n.Featurei].DecodeSplit(n.CodedSplit)
		if !coded {
			n.CodedSplit = nil
		}
		n.Left, n.Right = new(CF.Node), new(CF.Node)
		grow(n.Left, depth+1)
		grow(n.Right, depth+1)
		if c >= 'A' && c <= 'Z' {
			n.Missing = new(CF.Node)
			grow(n.Missing, depth+1)
		}
	}
	grow(t.Root, 0)
	return t
}

// reach is the independent routing: the leaf a case reaches (nil if none) and the split features.
func reach(n *CF.Node, fm *CF.FeatureMatrix, c int) (*CF.Node, []string) {
	var fs []string
	for n != nil && n.Splitter != nil {
		s := n.Splitter
		fs = append(fs, s.Feature)
		switch f := fm.Data[fm.Map[s.Feature]].(type) {
		case *CF.DenseNumFeature:
			if f.Missing[c] {
				n = n.Missing
			} else if f.NumData[c] <= s.Value {
				n = n.Left
			} else {
				n = n.Right
			}
		case *CF.DenseCatFeature:
			if f.Missing[c] {
				n = n.Missing
			} else if s.Left[f.Back[f.CatData[c]]] {
				n = n.Left
			} else {
				n = n.Right
			}
		}
	}
	return n, fs
}

func check(t *CF.Tree, fm *CF.FeatureMatrix, list []int, b *box, weight float64) {
	n := 0
	for _, c := range list {
		leaf, _ := reach(t.Root, fm, c)
		if leaf == nil {
			vsym.Cover("unrouted")
			continue
		}
		n++
		found := 0
		for _, v := range b.votes {
			if v.c == c {
				vsym.Assert(v.p == leaf.Pred, "a case votes for another leaf's prediction")
				vsym.Assert(v.w == weight, "a vote does not have the tree's weight")
				found++
			}
		}
		vsym.Assert(found == Count(list, c), "a case does not vote exactly once")
	}
	vsym.Assert(len(b.votes) == n, "votes for cases that reach no leaf")
}

// Route compares voting, partition and leaf listing with independent routing.
//
//gosym: C11 quick shape={a__|A___|b__|B___|_} n=2 miss=0..1 coded=0..1 nomerge
//gosym: C11 quick shape={ab___|Ab____|aA____|bd__d__} n=2 miss={0|1} coded=0..1 nomerge
//gosym: C11 quick shape={a__|B___} n=3 miss=1 coded=0..1 nomerge
//gosym: C11 thorough shape={A___|B___|aB____|ab___} n=3 miss=0..1 coded=0..1 nomerge
//gosym: C11 thorough shape={Aa__B___b__|bA___a__} n=2 miss=1 coded=0..1 nomerge
func Route() {
	n := vsym.Param("n")
	fm := data(n, vsym.Param("miss") == 1)
	route(tree(vsym.ParamStr("shape"), fm, vsym.Param("coded") == 1), fm, n)
}

func route(t *CF.Tree, fm *CF.FeatureMatrix, n int) {
	t.Weight = vsym.Float("weight", -1, 0, 0.25)
	w := t.Weight
	if w < 0 {
		w = 1
	}
	b := &box{}
	t.Vote(fm, b)
	check(t, fm, Seq(n), b, w)
	for i, v := range b.votes[:min(4, len(b.votes))] {
		vsym.Log("vote"+Itoa(i), v.c)
		vsym.Log("pred"+Itoa(i), v.p)
	}
	// partition and leaf listing
	parts, preds := t.Partition(fm)
	vsym.Assert(len(*parts) == len(*preds), "partition and predictions differ in length")
	sc := &CF.SparseCounter{}
	leaves := t.GetLeaves(fm, sc)
	vsym.Assert(len(leaves) == len(*parts), "GetLeaves and Partition list different leaves")
	for c := 0; c < n; c++ {
		leaf, fs := reach(t.Root, fm, c)
		in, lin := 0, 0
		for i := range *parts {
			k := Count((*parts)[i], c)
			in += k
			if k > 0 {
				vsym.Assert(leaf != nil && (*preds)[i] == leaf.Pred, "partition puts a case into another leaf")
			}
			k = Count(leaves[i].Cases, c)
			lin += k
			if k > 0 {
				vsym.Assert(leaf != nil && leaves[i].Pred == leaf.Pred, "GetLeaves puts a case into another leaf")
			}
		}
		want := 1
		if leaf == nil {
			want = 0
		}
		vsym.Assert(in == want && lin == want, "a case is not in exactly one leaf")
		for j := range fm.Data {
			k := 0
			for _, f := range fs {
				if fm.Map[f] == j {
					k++
				}
			}
			vsym.Assert(sc.Map[c][j] == k, "GetLeaves miscounts the splits by a feature")
		}
	}
	// every node that is visited is visited once, at its depth
	at := map[*CF.Node]int{}
	t.Root.Recurse(func(nd *CF.Node, cases []int, depth int) {
		_, twice := at[nd]
		vsym.Assert(!twice, "a node is visited twice")
		at[nd] = depth
	}, fm, Seq(n), 0)
	var walk func(nd *CF.Node, d int)
	walk = func(nd *CF.Node, d int) {
		if nd == nil {
			return
		}
		if got, ok := at[nd]; ok {
			vsym.Assert(got == d, "a node is visited with another depth than its own")
		}
		walk(nd.Left, d+1)
		walk(nd.Right, d+1)
		walk(nd.Missing, d+1)
	}
	walk(t.Root, 0)
	// a list of cases with repeats
	b = &box{}
	list := []int{n - 1, 0, n - 1}
	t.VoteCases(fm, b, list)
	check(t, fm, list, b, w)
}

// Strip: votes are the same after the codes are stripped.
//
//gosym: C11 quick shape={A___|B___|ab___|Ab____} n=2 nomerge
//gosym: C11 thorough shape={Ab____|B___|aB____} n=3 nomerge
func Strip() {
	n := vsym.Param("n")
	fm := data(n, true)
	t := tree(vsym.ParamStr("shape"), fm, true)
	t.StripCodes()
	t.Root.Climb(func(n *CF.Node) {
		vsym.Assert(n.CodedSplit == nil, "a coded split is left")
	})
	b := &box{}
	t.Vote(fm, b)
	check(t, fm, Seq(n), b, 1)
}

// Reorder votes on a matrix with features and categories in another order, where a new category
// goes right.
//
//gosym: C11 quick shape={A___|B___|ab___} n=2 nomerge
//gosym: C11 thorough shape={Ab____|B___|aB____} n=3 nomerge
func Reorder() {
	n := vsym.Param("n")
	train := data(n, true)
	t := tree(vsym.ParamStr("shape"), train, true)
	t.StripCodes()
	a, b, d := train.Data[0].(*CF.DenseNumFeature), train.Data[1].(*CF.DenseCatFeature), train.Data[2]
	nb := EmptyCat("b", n, 0)
	for _, s := range []string{"new", "c2", "c0", "c1"} {
		nb.CatMap.Map[s] = len(nb.Back)
		nb.CatMap.Back = append(nb.CatMap.Back, s)
	}
	fresh := vsym.Int("fresh", 0, n)
	for i := 0; i < n; i++ {
		nb.CatData[i] = vsym.IteI(fresh == i, 0, vsym.IteI(b.CatData[i] == 0, 2, vsym.IteI(b.CatData[i] == 1, 3, 1)))
		nb.Missing[i] = b.Missing[i]
	}
	nb.HasMissing = b.HasMissing
	fm := FM(Labels(n), d, nb, NumOf("x", make([]float64, n)...), a)
	bx := &box{}
	t.Vote(fm, bx)
	check(t, fm, Seq(n), bx, 1)
}

// AddNode places nodes by path.
//
//gosym: C11 quick nomerge
func AddNode() {
	paths := []string{"", "L", "R", "M", "LL", "LR", "RL", "RR", "LM", "LLR", "LLL"}
	t := &CF.Tree{}
	k := vsym.Conc(vsym.Int("k", 1, len(paths)))
	sp := &CF.Splitter{Feature: "f"}
	for i := 0; i < k; i++ {
		t.AddNode(paths[i], "p"+Itoa(i), sp)
	}
	for i := 0; i < k; i++ {
		n := t.Root
		for _, c := range paths[i] {
			switch c {
			case 'L':
				n = n.Left
			case 'R':
				n = n.Right
			case 'M':
				n = n.Missing
			}
		}
		vsym.Assert(n != nil && n.Pred == "p"+Itoa(i) && n.Splitter == sp, "a node is not at its path")
	}
	seen := 0
	t.Root.Climb(func(*CF.Node) { seen++ })
	vsym.Assert(seen == k, "the tree has other nodes")
}

// Deep routes many cases through a deep tree: few values and splits are symbolic.
//
//gosym: C11 quick n=20 depth={6|11} k=1 coded=0..1 nomerge
//gosym: C11 thorough n=60 depth=9 k=2 coded=0..1 nomerge
func Deep() {
	n, k := vsym.Param("n"), vsym.Param("k")
	fm := FM(Labels(n), ManyNum("a", 1, n, 40, k, []float64{0, 20, 30}, true), ManyCat("b", 2, n, 9, 9, 0, true), ManyNum("d", 3, n, 1000, 0, nil, false))
	t := CF.NewTree()
	seed := 1
	pick := func(m int) int {
		seed++
		return Scramble(seed, 1, m)[0]
	}
	leaves := 0
	var grow func(nd *CF.Node, d int)
	grow = func(nd *CF.Node, d int) {
		if d == 0 {
			nd.Pred = "p" + Itoa(leaves)
			leaves++
			return
		}
		nd.Featurei = pick(3)
		switch nd.Featurei {
		case 0:
			nd.CodedSplit = float64(pick(40))
		case 1:
			nd.CodedSplit = pick(512)
		default:
			nd.CodedSplit = float64(pick(1000))
		}
		if d == vsym.Param("depth") {
			nd.Featurei, nd.CodedSplit = 0, vsym.Float("val", 20, 5, 40)
		}
		nd.Splitter = fm.Data[nd.Featurei].DecodeSplit(nd.CodedSplit)
		if vsym.Param("coded") == 0 {
			nd.CodedSplit = nil
		}
		nd.Left, nd.Right = new(CF.Node), new(CF.Node)
		// one long branch and short ones
		if pick(2) == 0 {
			grow(nd.Left, d-1)
			grow(nd.Right, min(d-1, 2))
		} else {
			grow(nd.Left, min(d-1, 2))
			grow(nd.Right, d-1)
		}
		if pick(3) > 0 {
			nd.Missing = new(CF.Node)
			grow(nd.Missing, min(d-1, 1))
		}
	}
	grow(t.Root, vsym.Param("depth"))
	route(t, fm, n)
}

// Package c31 checks the arrays exported for scikit-learn.
package c31

import (
	"fmt"
	"strconv"
	"strings"

	CF "github.com/ryanbressler/CloudForest"
	. "hlib"
	"hmain"
	"vsym"

	growforest "cfmain/growforest"
)

// tree builds a tree of a shape: letters are splits on a feature, underscores leaves.
func tree(shape string, t *CF.Tree, fm *CF.FeatureMatrix) (depth, nodes int) {
	pos := 0
	var grow func(n *CF.Node, d int)
	grow = func(n *CF.Node, d int) {
		depth = max(depth, d)
		c := shape[pos]
		pos++
		if c == '_' {
			n.Pred = "p" + Itoa(pos)
			return
		}
		n.Featurei = int(c - 'a')
		v := vsym.Float("val"+Itoa(pos), -1, 0, 0.5, 1)
		n.CodedSplit = v
		n.Splitter = fm.Data[n.Featurei].DecodeSplit(v)
		n.Left, n.Right = new(CF.Node), new(CF.Node)
		grow(n.Left, d+1)
		grow(n.Right, d+1)
	}
	grow(t.Root, 0)
	return depth, pos
}

// Routes compares the leaves cases reach in a tree and in its arrays.
//
//gosym: C31 quick n=1 shape={_|a__|ab___|a_b__|abc____} nomerge
//gosym: C31 quick n=2 shape={ac__b__} nomerge
//gosym: C31 quick n=1 shape={a_b_c_a_b_c_a_b_c_a__|abc_a__b_c__abc___b__} nomerge
//gosym: C31 thorough n=2 shape={a_bac____|aa_c__b__|abc____} nomerge
//gosym: C31 thorough n=1 shape={a_b_c_b__|abab_____|abc__a__b__|ab_c__a_b__} nomerge
func Routes() {
	n := vsym.Param("n")
	pal := []float64{-1, 0, 0.25, 2}
	a, b, c := Num("N:a", n, pal, false), Num("N:b", n, pal, false), Num("N:c", n, pal, false)
	fm := FM(Labels(n), a, b, c)
	shape := vsym.ParamStr("shape")
	t := CF.NewTree()
	t.Root = new(CF.Node)
	depth, nodes := tree(shape, t, fm)
	sk := CF.NewScikitTree(3)
	CF.BuildScikitTree(0, t.Root, sk)
	vsym.Assert(sk.NFeatures == 3 && sk.MaxDepth == depth, "the number of features or the depth is wrong")
	vsym.Assert(len(sk.Nodes) == nodes && sk.NodeCount == nodes && sk.Capacity == nodes, "the number of nodes is wrong")
	children := make([]int, nodes)
	leaves := 0
	for i, x := range sk.Nodes {
		if x.LeftChild == -1 || x.RightChild == -1 {
			vsym.Assert(x.LeftChild == x.RightChild, "a node has one child only")
			leaves++
			continue
		}
		for _, k := range []int{x.LeftChild, x.RightChild} {
			vsym.Assert(k > i && k < nodes, "a child isn't a later node")
			children[k]++
		}
	}
	vsym.Assert(leaves == (nodes+1)/2, "the number of leaves is wrong")
	for i, k := range children {
		vsym.Assert(k == 1 || i == 0, "a node isn't the child of one other")
	}
	// the leaf in the tree that every leaf in the arrays stands for
	leaf := map[int]string{}
	for i := 0; i < n; i++ {
		at := 0
		for steps := 0; sk.Nodes[at].LeftChild >= 0; steps++ {
			vsym.Assert(steps < nodes, "a case runs in circles")
			x := sk.Nodes[at]
			vsym.Assert(x.Feature >= 0 && x.Feature < 3, "a split is on no feature")
			if []*CF.DenseNumFeature{a, b, c}[x.Feature].NumData[i] <= x.Threshold {
				at = x.LeftChild
			} else {
				at = x.RightChild
			}
		}
		pred, count := "", 0
		t.Root.Recurse(func(n *CF.Node, cases []int, depth int) {
			for _, c := range cases {
				if c == i && n.Splitter == nil {
					pred = n.Pred
					count++
				}
			}
		}, fm, []int{i}, 0)
		vsym.Assert(count == 1, "a case reaches no leaf")
		vsym.Log("leaf", pred)
		was, ok := leaf[at]
		vsym.Assert(!ok || was == pred, "cases of one leaf reach different leaves")
		leaf[at] = pred
		// leaves are numbered by position in both
		vsym.Assert(pred == "p"+Itoa(position(sk, at)), "a case reaches another leaf")
	}
}

// position numbers nodes from the left, from one.
func position(sk *CF.ScikitTree, at int) int {
	count, found := 0, 0
	var walk func(k int)
	walk = func(k int) {
		count++
		if k == at {
			found = count
		}
		if sk.Nodes[k].LeftChild >= 0 {
			walk(sk.Nodes[k].LeftChild)
			walk(sk.Nodes[k].RightChild)
		}
	}
	walk(0)
	return found
}

// encode writes trees as encoding/json does.
func encode(v any) string {
	out := "["
	for i, t := range v.([]CF.ScikitTree) {
		if i > 0 {
			out += ","
		}
		out += fmt.Sprintf("{\"n_features\":%v,\"n_classes\":[%v],\"n_outputs\":%v,\"max_n_classes\":%v,\"max_depth\":%v,\"node_count\":%v,\"capacity\":%v,\"nodes\":[",
			t.NFeatures, t.NClasses[0], t.NOutputs, t.MaxNClasses, t.MaxDepth, t.NodeCount, t.Capacity)
		for j, n := range t.Nodes {
			if j > 0 {
				out += ","
			}
			out += fmt.Sprintf("{\"left_child\":%v,\"right_child\":%v,\"feature\":%v,\"threshold\":%v,\"impurity\":%v,\"n_node_samples\":%v,\"weighted_n_node_samples\":%v}",
				n.LeftChild, n.RightChild, n.Feature, n.Threshold, n.Impurity, n.NNodeSamples, n.WeightedNNodeSamples)
		}
		out += fmt.Sprintf("],\"value\":[],\"value_stride\":%v}", t.ValueStride)
	}
	return out + "]"
}

// field is the number a text gives for a name.
func field(text, name string) float64 {
	_, rest, ok := strings.Cut(text, "\""+name+"\":")
	end := strings.IndexAny(rest, ",}")
	if !ok || end < 0 {
		return -100
	}
	v, err := strconv.ParseFloat(rest[:end], 64)
	if err != nil {
		return -100
	}
	return v
}

// Command exports the trees that are written to the forest file.
//
//gosym: C31 quick n=4 trees=1 bag=0 target={N|C} nomerge exitbad
//gosym: C31 quick n=4 trees=2 bag=2 target={N|C} nomerge exitbad
//gosym: C31 quick n=16 trees=3 bag=12 target={N|C} free=1 nomerge exitbad
//gosym: C31 thorough n=5 trees=2 bag=3 target=N nomerge exitbad budget=200
func Command() {
	n, bag := vsym.Param("n"), vsym.Param("bag")
	tname := vsym.ParamStr("target") + ":t"
	dir := vsym.TempDir()
	vsym.JSON = encode
	text := "."
	for i := 0; i < n; i++ {
		text += "\tcase" + Itoa(i)
	}
	d := hmain.Data{}
	for i := 0; i < n; i++ {
		d["N:x"] = append(d["N:x"], []string{"1", "-2.5", "0", "1", "7"}[i%5])
		d["N:y"] = append(d["N:y"], []string{"0", "0", "3", "4.5", "5"}[i%5]+Itoa(i/5))
		if tname[0] == 'N' {
			d[tname] = append(d[tname], []string{"1", "9", "4", "3", "0"}[i%5]+Itoa(i*i%7))
		} else {
			d[tname] = append(d[tname], []string{"a", "b", "a", "b", "b"}[(i+i/5)%5])
		}
	}
	for _, f := range []string{"N:x", "N:y", tname} {
		text += "\n" + f + "\t" + strings.Join(d[f], "\t")
	}
	vsym.PutFile(dir+"a.fm", text+"\n")
	args := []string{"-train", dir + "a.fm", "-rfpred", dir + "out.sf", "-target", tname, "-noseed", "-nTrees", Itoa(vsym.Param("trees")), "-leafSize", "1", "-scikitforest", dir + "out.json"}
	if bag == 0 {
		args = append(args, "-nobag")
	} else {
		args = append(args, "-nSamples", Itoa(bag))
	}
	hmain.Run(growforest.Main, args...)
	forest, ok := vsym.GetFile(dir + "out.sf")
	vsym.Assert(ok, "the forest isn't written")
	trees, _ := hmain.ReadForest(forest)
	js, ok := vsym.GetFile(dir + "out.json")
	vsym.Assert(ok, "the arrays aren't written")
	vsym.Log("json", js)
	parts := strings.Split(js, "\"n_features\":")
	vsym.Assert(len(parts) == len(trees)+1, "not the arrays of every tree are written")
	for k, t := range trees {
		if k+1 >= len(parts) {
			break
		}
		all := "\"n_features\":" + parts[k+1]
		nodes := strings.Split(all, "{\"left_child\":")[1:]
		depth := 0
		for p := range t.Nodes {
			depth = max(depth, len(p)-1)
		}
		vsym.Assert(len(nodes) == len(t.Nodes) && field(all, "node_count") == float64(len(nodes)), "the number of nodes is wrong")
		vsym.Assert(field(all, "n_features") == 2 && field(all, "max_depth") == float64(depth), "the number of features or the depth is wrong")
		for i := 0; i < n; i++ {
			at, path := 0, "*"
			for steps := 0; steps <= n; steps++ {
				nd := t.Nodes[path]
				if at < 0 || at >= len(nodes) || nd == nil {
					vsym.Assert(false, "a child isn't a node")
					return
				}
				x := "{\"left_child\":" + nodes[at]
				l, r := int(field(x, "left_child")), int(field(x, "right_child"))
				vsym.Assert((l == -1) == (nd.Split == "") && (r == -1) == (nd.Split == ""), "a leaf stands for a split or a split for a leaf")
				if l < 0 || nd.Split == "" {
					break
				}
				f := int(field(x, "feature"))
				ok := f >= 0 && f < 2 && []string{"N:x", "N:y"}[f] == nd.Split
				vsym.Assert(ok, "a split is on another feature")
				if !ok {
					return
				}
				v, _ := strconv.ParseFloat(d[nd.Split][i], 64)
				th, _ := strconv.ParseFloat(nd.Left, 64)
				vsym.Assert((v <= th) == (v <= field(x, "threshold")), "a case goes to another side")
				if v <= th {
					at, path = l, path+"L"
				} else {
					at, path = r, path+"R"
				}
			}
		}
	}
}

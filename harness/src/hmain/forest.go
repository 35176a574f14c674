package hmain

import (
	"strconv"
	"strings"

	"vsym"
)

// Node is a node of a written tree.
type Node struct {
	Split, Pred, Left string
	Num               bool
}

// Tree is a written tree.
type Tree struct {
	Nodes  map[string]*Node
	Weight float64
}

// Field gives the value of a field of a line of a forest file, which has no quoted separators.
func Field(line, name string) string {
	for _, f := range strings.Split(line, ",") {
		if strings.HasPrefix(f, name+"=") {
			return strings.Trim(f[len(name)+1:], "\"")
		}
	}
	return ""
}

// ReadForest parses a forest file whose target is t, of type N, C or B.
func ReadForest(text string) (trees []*Tree, intercept float64) {
	lines := strings.Split(text, "\n")
	vsym.Assert(lines[len(lines)-1] == "", "the forest file's last line doesn't end")
	for _, l := range lines[:len(lines)-1] {
		switch {
		case strings.HasPrefix(l, "FOREST="):
			intercept, _ = strconv.ParseFloat(Field(l, "INTERCEPT"), 64)
		case strings.HasPrefix(l, "TREE="):
			w, err := strconv.ParseFloat(Field(l, "WEIGHT"), 64)
			if err != nil {
				w = 1
			}
			vsym.Assert(Field(l, "TARGET")[1:] == ":t", "a tree's target is wrong")
			trees = append(trees, &Tree{map[string]*Node{}, w})
		case strings.HasPrefix(l, "NODE="):
			t := trees[len(trees)-1]
			path := Field(l, "NODE")
			vsym.Assert(t.Nodes[path] == nil, "a node is written twice")
			t.Nodes[path] = &Node{Field(l, "SPLITTER"), Field(l, "PRED"), Field(l, "LVALUES"), Field(l, "SPLITTERTYPE") == "NUMERICAL"}
		default:
			vsym.Assert(false, "a line of the forest file is unknown")
		}
	}
	return
}

// Data is a data set by feature.
type Data map[string][]string

// Leaf follows a case to the path of a leaf, "" for none.
func (t *Tree) Leaf(d Data, i int) string {
	path := "*"
	for {
		n := t.Nodes[path]
		if n == nil {
			return ""
		}
		if n.Split == "" {
			return path
		}
		v := d[n.Split][i]
		switch {
		case v == "NA":
			if t.Nodes[path+"M"] == nil {
				return ""
			}
			path += "M"
		case n.Num:
			x, _ := strconv.ParseFloat(v, 64)
			th, _ := strconv.ParseFloat(n.Left, 64)
			if x <= th {
				path += "L"
			} else {
				path += "R"
			}
		default:
			side := "R"
			for _, c := range strings.Split(n.Left, ":") {
				if c == v {
					side = "L"
				}
			}
			path += side
		}
	}
}

func (t *Tree) Predict(d Data, i int) string {
	if n := t.Nodes[t.Leaf(d, i)]; n != nil {
		return n.Pred
	}
	return ""
}

// Package c13 checks that documented forest files are read as the trees they contain.
package c13

import (
	"bytes"
	"io"
	"strings"

	CF "github.com/ryanbressler/CloudForest"
	. "hlib"
	"vsym"
)

var feats = []string{"N:a", "a,b", "x=1,SPLITTERTYPE=NUMERICAL", "B:SURV:F::::m", "p, q"}
var preds = []string{"3.48283", "red", "-1e-07", "not red"}
var values = []string{"1.5", "-0.001", "1e21"}
var cats = []string{"false", "true:x", "a,b:c=d:e f"}
var catList = [][]string{{"false"}, {"true", "x"}, {"a,b", "c=d", "e f"}}

// gen writes a file and remembers what it should be read as.
type gen struct {
	out     bytes.Buffer
	trees   []*CF.Tree
	forests []*CF.Forest
	first   []bool // the tree starts a new forest
	id      int
}

func (g *gen) ch(n int) int {
	g.id++
	return vsym.Conc(vsym.Int("ch"+Itoa(g.id), 0, n-1))
}

// opt is a free choice if the case varies it, else one that follows the position.
func (g *gen) opt(what string, n int) int {
	if vsym.Param(what) == 1 {
		return g.ch(n)
	}
	g.id++
	return g.id % n
}

func quote(s string, q bool) string {
	if q {
		return "\"" + s + "\""
	}
	return s
}

// header starts a forest: 0 as in the documentation, 1 with an intercept, 2 other fields, 3 none.
func (g *gen) header(style int, target string, ntrees int) {
	f := &CF.Forest{Target: target}
	switch style {
	case 0:
		g.out.WriteString("FOREST=RF,TARGET=\"" + target + "\",NTREES=" + Itoa(ntrees) + "\n")
	case 1:
		g.out.WriteString("FOREST=0,TARGET=\"" + target + "\",INTERCEPT=-0.25\n")
		f.Intercept = -0.25
	case 2:
		g.out.WriteString("FOREST=GBT,NTREES=" + Itoa(ntrees) + ",CATEGORIES=\"a=b,c\",TARGET=\"" + target + "\",SHRINKAGE=0.1\n")
	}
	g.forests = append(g.forests, f)
}

// tree writes a tree; order 0 is depth first, 1 breadth first, 2 right children first.
func (g *gen) tree(shape string, head, order int, target string, newForest bool) {
	t := &CF.Tree{Weight: -1}
	switch head {
	case 0:
		g.out.WriteString("TREE=" + Itoa(len(g.trees)) + "\n")
	case 1:
		g.out.WriteString("TREE=0,TARGET=\"" + target + "\"\n")
		t.Target = target
	case 2:
		g.out.WriteString("TREE=7,TARGET=\"" + target + "\",WEIGHT=0.5\n")
		t.Target = target
		t.Weight = 0.5
	}
	pos := 0
	var lines []string
	var paths []string
	t.Root = g.node(shape, &pos, "*", &lines, &paths)
	switch order {
	case 1: // breadth first
		for d := 1; d < 12; d++ {
			for i, p := range paths {
				if len(p) == d {
					g.out.WriteString(lines[i])
				}
			}
		}
	case 2: // by depth, last first
		for d := 1; d < 12; d++ {
			for i := len(paths) - 1; i >= 0; i-- {
				if len(paths[i]) == d {
					g.out.WriteString(lines[i])
				}
			}
		}
	default:
		for _, l := range lines {
			g.out.WriteString(l)
		}
	}
	g.trees = append(g.trees, t)
	g.first = append(g.first, newForest)
	f := g.forests[len(g.forests)-1]
	f.Trees = append(f.Trees, t)
	if f.Target == "" && len(f.Trees) == 1 {
		f.Target = t.Target
	}
}

func (g *gen) node(shape string, pos *int, path string, lines, paths *[]string) *CF.Node {
	c := shape[*pos]
	*pos++
	n := &CF.Node{}
	l := "NODE=" + path
	i := len(*lines)
	*lines = append(*lines, "")
	*paths = append(*paths, path)
	k := vsym.Param("k")
	switch c {
	case '_':
		n.Pred = preds[g.ch(min(k, len(preds)))]
		l += ",PRED=" + quote(n.Pred, g.opt("q", 2) == 1)
	case 'n', 'N':
		s := &CF.Splitter{Numerical: true, Feature: feats[g.ch(k)]}
		v := values[g.ch(min(k, len(values)))]
		for j, x := range []float64{1.5, -0.001, 1e21} {
			if v == values[j] {
				s.Value = x
			}
		}
		l += ",PRED=2.5,SPLITTER=\"" + s.Feature + "\",SPLITTERTYPE=NUMERICAL,LVALUES=" + quote(v, g.opt("q", 2) == 1) + ",RVALUES=" + v
		n.Splitter, n.Pred = s, "2.5"
	case 'c', 'C':
		s := &CF.Splitter{Feature: feats[g.ch(k)], Left: map[string]bool{}}
		j := g.ch(min(k, len(cats)))
		for _, x := range catList[j] {
			s.Left[x] = true
		}
		l += ",SPLITTER=\"" + s.Feature + "\",SPLITTERTYPE=CATEGORICAL,LVALUES=\"" + cats[j] + "\""
		if g.opt("q", 2) == 1 {
			l += ",RVALUES=\"r,=:s\",DI=0.125"
		}
		n.Splitter = s
	}
	(*lines)[i] = l + "\n"
	if n.Splitter != nil {
		n.Left = g.node(shape, pos, path+"L", lines, paths)
		n.Right = g.node(shape, pos, path+"R", lines, paths)
		if c == 'N' || c == 'C' {
			n.Missing = g.node(shape, pos, path+"M", lines, paths)
		}
	}
	return n
}

func (g *gen) text(newline bool) string {
	s := g.out.String()
	if !newline {
		s = s[:len(s)-1]
	}
	return s
}

func same(a, b *CF.Node) {
	if a == nil {
		vsym.Assert(b == nil, "reading adds a node")
		return
	}
	vsym.Assert(b != nil, "reading loses a node")
	vsym.Assert(a.Pred == b.Pred, "a prediction is misread")
	if a.Splitter == nil {
		vsym.Assert(b.Splitter == nil && b.Left == nil && b.Right == nil && b.Missing == nil, "a leaf is read as a split")
		return
	}
	vsym.Assert(b.Splitter != nil, "a splitter is lost")
	s, r := a.Splitter, b.Splitter
	vsym.Assert(s.Feature == r.Feature && s.Numerical == r.Numerical && s.Value == r.Value && len(s.Left) == len(r.Left), "a splitter is misread")
	for c := range s.Left {
		vsym.Assert(r.Left[c], "a left category is lost")
	}
	same(a.Left, b.Left)
	same(a.Right, b.Right)
	same(a.Missing, b.Missing)
}

func sameTree(a, b *CF.Tree) {
	vsym.Assert(b != nil, "a tree is lost")
	vsym.Assert(a.Target == b.Target, "a tree's target is misread")
	vsym.Assert(a.Weight == b.Weight, "a tree's weight is misread")
	same(a.Root, b.Root)
}

// forests reads forest by forest; joined says that headerless forests belong to the one before.
func (g *gen) byForest(text string) {
	r := CF.NewForestReader(bytes.NewBufferString(text))
	for _, f := range g.forests {
		h, err := r.ReadForest()
		vsym.Assert(err == nil && h != nil, "a forest is not read")
		vsym.Assert(h.Target == f.Target && h.Intercept == f.Intercept, "a forest's header is misread")
		vsym.Assert(len(h.Trees) == len(f.Trees), "a forest has another number of trees")
		for i, t := range f.Trees {
			sameTree(t, h.Trees[i])
		}
	}
	h, err := r.ReadForest()
	vsym.Assert(h == nil && err == io.EOF, "a forest is invented")
}

// byTree reads tree by tree.
func (g *gen) byTree(text string) {
	r := CF.NewForestReader(bytes.NewBufferString(text))
	nf := 0
	for i, t := range g.trees {
		u, f, err := r.ReadTree()
		if i < len(g.trees)-1 {
			vsym.Assert(err == nil, "reading a tree fails")
		} else {
			vsym.Assert(err == nil || err == io.EOF, "reading the last tree fails")
		}
		sameTree(t, u)
		vsym.Assert((f != nil) == g.first[i], "the start of a forest is not reported")
		if f != nil {
			nf++
		}
	}
	u, _, err := r.ReadTree()
	vsym.Assert(u == nil && err == io.EOF, "a tree is invented")
}

// Nodes reads one forest of one tree, with every way to write its lines.
//
//gosym: C13 quick shape={_|n__|c__} k=1 q=1 h=1 order=0 nomerge
//gosym: C13 quick shape={n__|c__} k=3 q=0 h=0 order=0 nomerge
//gosym: C13 quick shape={n__|c__} k=1 q=1 h=0 order=1..2 nomerge
//gosym: C13 quick shape={nc__N___|Cn__n__N___} k=1 q=0 h=0 order=0..2 nomerge
//gosym: C13 quick shape={c__} k=5 q=0 h=0 order=0 nomerge
//gosym: C13 thorough shape={n__|c__} k=3 q=1 h=1 order=0 nomerge
//gosym: C13 thorough shape={C___|N___} k=2 q=1 h=0 order=0..2 nomerge
//gosym: C13 thorough shape={nc__N___|Nc__n___} k=1 q=1 h=0 order=0..2 nomerge
//gosym: C13 thorough shape={Cn__n__N___|NN___C__n__} k=1 q=1 h=0 order=1 nomerge
func Nodes() {
	g := &gen{}
	g.header(g.opt("h", 3), feats[1], 1)
	g.tree(vsym.ParamStr("shape"), g.opt("h", 3), vsym.Param("order"), feats[0], true)
	text := g.text(g.ch(2) == 1)
	g.byForest(text)
	g.byTree(text)
}

// Joined reads several files one after the other.
//
//gosym: C13 quick files=1..2 trees={1|2} shape={_|n__} k=1 q=0 h=0 nomerge
//gosym: C13 quick files=2 trees=1..2 shape={_} k=1 q=0 h=1 nomerge
//gosym: C13 quick files=3 trees=1 shape={_|c__} k=1 q=0 h=0 nomerge
//gosym: C13 thorough files=3 trees=1..2 shape={_|C___} k=1 q=0 h=1 nomerge
//gosym: C13 thorough files=2 trees=2 shape={n__|C___} k=1 q=1 h=1 nomerge
func Joined() {
	g := &gen{}
	for f := 0; f < vsym.Param("files"); f++ {
		h := g.ch(4)
		target := feats[f]
		switch {
		case h < 3:
			g.header(h, target, vsym.Param("trees"))
		case f == 0: // a file without a forest line
			g.forests = append(g.forests, &CF.Forest{})
		}
		for i := 0; i < vsym.Param("trees"); i++ {
			shape := "_"
			if i == 0 && f == 0 {
				shape = vsym.ParamStr("shape")
			}
			head := (f + i) % 3
			if i == 0 {
				head = g.opt("h", 3)
			}
			g.tree(shape, head, 0, target, i == 0 && h < 3)
		}
	}
	text := g.text(g.ch(2) == 1)
	g.byForest(text)
	g.byTree(text)
}

// Quoted reads double-quoted fields made of any characters of the alphabet.
//
//gosym: C13 quick n=0..4 field={0|2|3} nomerge
//gosym: C13 quick n=0..3 field=1 nomerge
//gosym: C13 thorough n=5..10 field={0|2|3} nomerge
//gosym: C13 thorough n=4..5 field=1 nomerge
func Quoted() {
	n := vsym.Param("n")
	field := vsym.Param("field")
	alphabet := ",= aFTN*\t-.0"
	if field == 1 { // categories are joined with :
		alphabet += ":"
	}
	s := vsym.Chars("s", n, alphabet)
	feature, left, pred, target := "f", "x", "p", "t"
	switch field {
	case 0:
		feature = s
	case 1:
		left = s
	case 2:
		pred = s
	case 3:
		target = s
	}
	text := "FOREST=RF,TARGET=\"" + target + "\",NTREES=1\nTREE=0,TARGET=\"" + target + "\"\nNODE=*,PRED=\"" + pred + "\",SPLITTER=\"" + feature +
		"\",SPLITTERTYPE=CATEGORICAL,LVALUES=\"" + left + "\"\nNODE=*L,PRED=l\nNODE=*R,PRED=r\n"
	f, err := CF.NewForestReader(bytes.NewBufferString(text)).ReadForest()
	vsym.Assert(err == nil && f != nil && len(f.Trees) == 1, "the file does not have its tree")
	vsym.Assert(f.Target == target && f.Trees[0].Target == target, "a quoted target is misread")
	r := f.Trees[0].Root
	vsym.Assert(r != nil && r.Splitter != nil && r.Left != nil && r.Right != nil && r.Missing == nil, "a node is misread")
	vsym.Assert(r.Splitter.Feature == feature, "a quoted feature is misread")
	vsym.Assert(r.Pred == pred, "a quoted prediction is misread")
	vsym.Assert(r.Left.Pred == "l" && r.Right.Pred == "r", "a leaf is misread")
	k := 0
	start := 0
	for i := 0; i <= len(left); i++ {
		if i == len(left) || left[i] == ':' {
			if i > start {
				vsym.Assert(r.Splitter.Left[left[start:i]], "a left category is lost")
				k++
			}
			start = i + 1
		}
	}
	vsym.Assert(len(r.Splitter.Left) <= k, "a left category is invented")
}

// Wide reads a line longer than any buffer: a split on n categories.
//
//gosym: C13 quick n={600|1500} nomerge maxloop=100000
//gosym: C13 thorough n=3000 nomerge maxloop=1000000
func Wide() {
	n := vsym.Param("n")
	odd := vsym.Conc(vsym.Int("odd", 0, 3))
	t := &CF.Tree{Target: "C:t", Weight: -1, Root: &CF.Node{Splitter: &CF.Splitter{Feature: "C:a", Left: map[string]bool{}}, Left: &CF.Node{Pred: "x"}, Right: &CF.Node{Pred: "y"}}}
	var list []string
	for i := 0; i < n; i++ {
		c := "c" + Itoa(i)
		if i == n*odd/4 {
			c = "odd one"
		}
		list = append(list, c)
		t.Root.Splitter.Left[c] = true
	}
	text := "TREE=0,TARGET=\"C:t\"\nNODE=*,SPLITTER=\"C:a\",SPLITTERTYPE=CATEGORICAL,LVALUES=\"" + strings.Join(list, ":") + "\",RVALUES=\"z\"\nNODE=*L,PRED=x\nNODE=*R,PRED=y\n"
	if vsym.Conc(vsym.Int("order", 0, 1)) == 1 {
		text = "TREE=0,TARGET=\"C:t\"\nNODE=*,SPLITTER=\"C:a\",SPLITTERTYPE=CATEGORICAL,RVALUES=\"z\",LVALUES=\"" + strings.Join(list, ":") + "\"\nNODE=*L,PRED=x\nNODE=*R,PRED=y"
	}
	u, _, err := CF.NewForestReader(bytes.NewBufferString(text)).ReadTree()
	vsym.Assert(err == nil || err == io.EOF, "reading a tree fails")
	sameTree(t, u)
}

// Many reads many files of many trees.
//
//gosym: C13 quick files=12 trees=4 k=1 q=0 h=0 nomerge
//gosym: C13 thorough files=40 trees=12 k=1 q=0 h=0 nomerge
func Many() {
	g := &gen{}
	odd := vsym.Conc(vsym.Int("odd", 0, vsym.Param("files")-1))
	for f := 0; f < vsym.Param("files"); f++ {
		h := f % 3
		if f == odd { // one file has no forest line
			h = 3
		}
		if h < 3 {
			g.header(h, feats[f%len(feats)]+Itoa(f), vsym.Param("trees"))
		} else if f == 0 {
			g.forests = append(g.forests, &CF.Forest{})
		}
		for i := 0; i < vsym.Param("trees"); i++ {
			shape := []string{"_", "n__", "nnnnnnn________", "nnn__n__nn__n__", "C_n___"}[(f+i)%5]
			g.tree(shape, i%3, (f+i)%3, "t", i == 0 && h < 3)
		}
	}
	text := g.text(g.ch(2) == 1)
	g.byForest(text)
	g.byTree(text)
}

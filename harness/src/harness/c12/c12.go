// Package c12 checks that a forest survives being written and read back.
package c12

import (
	"bytes"

	CF "github.com/ryanbressler/CloudForest"
	. "hlib"
	"vsym"
)

// names of features, categories and predictions; none holds a double quote or a line break, and
// categories have no ":" (the format joins them with it).
var feats = []string{"N:a", "B:CLIN:x::::", "has,comma", "f==c", "a b", "p, q=r", "NODE=*", "TREE", "C:\u00e9"}
var cats = []string{"red", "a,b", "k=v", "x, y", "not red", "1.5", "=", ","}
var preds = []string{"red", "1.5", "-1e-07", "a,b", "k=v", "x, y", "NaN", "SPLITTER=z", "a,PRED=b", "+Inf", " lead", "trail "}

// pick takes one of the first k choices, k given by a parameter.
func pick(name, param string, from []string) string {
	if k := vsym.Param(param); k < len(from) {
		from = from[:k]
	}
	return from[vsym.Conc(vsym.Int(name, 0, len(from)-1))]
}

var vals = []float64{0.1, -2.5, 1e21, 0, 1.0 / 3, 1e300, -1e-300, 123456789.125}

// node builds a tree of the given shape: n and c are numeric and categorical splits, N and C the
// same with a missing branch, _ is a leaf, 0 a leaf without a prediction, and p or q are splits with
// a prediction of their own.
func node(shape string, pos *int) *CF.Node {
	c := shape[*pos]
	id := Itoa(*pos)
	*pos++
	n := new(CF.Node)
	if c == '0' {
		return n
	}
	if c == '_' || c == 'p' || c == 'q' {
		n.Pred = pick("pred"+id, "kp", preds)
	}
	if c == '_' {
		return n
	}
	s := &CF.Splitter{Feature: pick("feat"+id, "kf", feats)}
	switch c {
	case 'n', 'N', 'p':
		s.Numerical = true
		s.Value = vsym.Float("val"+id, vals[:vsym.Param("kv")]...)
	default:
		s.Left = map[string]bool{}
		for i := 0; i < vsym.Param("kc"); i++ {
			if vsym.Bool("in" + id + "." + Itoa(i)) {
				s.Left[cats[i]] = true
			}
		}
	}
	n.Splitter = s
	n.Left = node(shape, pos)
	n.Right = node(shape, pos)
	if c == 'N' || c == 'C' {
		n.Missing = node(shape, pos)
	}
	return n
}

func same(a, b *CF.Node) {
	if a == nil {
		vsym.Assert(b == nil, "reading adds a node")
		return
	}
	vsym.Assert(b != nil, "reading loses a node")
	vsym.Assert(a.Pred == b.Pred, "reading changes a prediction")
	if a.Splitter == nil {
		vsym.Assert(b.Splitter == nil, "reading adds a splitter")
		vsym.Assert(b.Left == nil && b.Right == nil && b.Missing == nil, "reading adds children to a leaf")
		return
	}
	vsym.Assert(b.Splitter != nil, "reading loses a splitter")
	s, r := a.Splitter, b.Splitter
	vsym.Assert(s.Feature == r.Feature, "reading changes a splitter's feature")
	vsym.Assert(s.Numerical == r.Numerical, "reading changes a splitter's kind")
	if s.Numerical {
		vsym.Assert(s.Value == r.Value, "reading changes a threshold")
	} else {
		vsym.Assert(len(r.Left) == len(s.Left), "reading changes the number of left categories")
		for _, c := range cats {
			vsym.Assert(s.Left[c] == r.Left[c], "reading changes the left categories")
		}
	}
	same(a.Left, b.Left)
	same(a.Right, b.Right)
	same(a.Missing, b.Missing)
}

// Round writes and reads a forest.
//
//gosym: C12 quick shape={_|p__|q__|c__|n__} trees=1 kf=1 kp=2 kc=2 kv=8 weights=0 nomerge
//gosym: C12 quick shape={n00|C000} trees=1 kf=9 kp=1 kc=2 kv=1 weights=0 nomerge
//gosym: C12 quick shape={n__|p0_} trees=1 kf=1 kp=10 kc=1 kv=1 weights=0 nomerge
//gosym: C12 quick shape={c__} trees=1 kf=1 kp=1 kc=8 kv=1 weights=0 nomerge
//gosym: C12 quick shape={c__|C___} trees=1 kf=1 kp=1 kc=3 kv=1 weights=0 nomerge maporder=3
//gosym: C12 quick shape={N___|C___} trees=1 kf=2 kp=2 kc=1 kv=2 weights=0 nomerge
//gosym: C12 quick shape={nc__N___|nN___c__|Cn__n__C___|Nn__C____} trees=1 kf=1 kp=2 kc=1 kv=1 weights=0 nomerge
//gosym: C12 quick shape={_|n__|C___} trees={0|2|3} kf=2 kp=1 kc=1 kv=1 weights=1 nomerge
//gosym: C12 thorough shape={N___|C___} trees=1 kf=3 kp=3 kc=3 kv=3 weights=0 nomerge
//gosym: C12 thorough shape={c__} trees=1 kf=1 kp=1 kc=4 kv=1 weights=0 nomerge maporder=4
//gosym: C12 thorough shape={nc__n__|cn__c__|NC____n__} trees=1 kf=2 kp=2 kc=2 kv=2 weights=0 nomerge
//gosym: C12 thorough shape={n__|c__} trees=2 kf=2 kp=2 kc=2 kv=2 weights=1 nomerge
func Round() {
	f := &CF.Forest{Target: pick("target", "kf", feats)}
	if vsym.Param("weights") == 1 {
		f.Intercept = vsym.Float("intercept", 0, 1, -1.5, 0.1, 1e-9)
	}
	nt := vsym.Param("trees")
	for i := 0; i < nt; i++ {
		t := &CF.Tree{Target: f.Target, Weight: -1}
		if vsym.Param("weights") == 1 {
			t.Weight = vsym.Float("weight"+Itoa(i), -1, 0, 0.1, 1, 3e-9)
		}
		pos := 0
		if i == 0 || vsym.Param("weights") != 1 {
			t.Root = node(vsym.ParamStr("shape"), &pos)
		} else {
			t.Root = &CF.Node{Pred: "tree" + Itoa(i)}
		}
		f.Trees = append(f.Trees, t)
	}
	out := &bytes.Buffer{}
	CF.NewForestWriter(out).WriteForest(f)
	text := out.String()
	if nt == 0 && f.Intercept == 0 {
		return // an empty forest without intercept leaves nothing to read
	}
	g, err := CF.NewForestReader(bytes.NewBufferString(text)).ReadForest()
	vsym.Assert(err == nil && g != nil, "a written forest cannot be read")
	vsym.Assert(g.Target == f.Target, "reading changes the target")
	vsym.Assert(g.Intercept == f.Intercept, "reading changes the intercept")
	vsym.Assert(len(g.Trees) == nt, "reading changes the number of trees")
	for i, t := range f.Trees {
		u := g.Trees[i]
		vsym.Assert(u.Target == t.Target, "reading changes a tree's target")
		vsym.Assert(u.Weight == t.Weight, "reading changes a tree's weight")
		vsym.Assert(u.Root != nil, "reading loses a root")
		same(t.Root, u.Root)
	}
}

// Large writes and reads a forest of many trees, a deep tree and many categories.
//
//gosym: C12 quick trees=13 depth=12 ncat=40 nomerge
//gosym: C12 thorough trees=120 depth=40 ncat=200 nomerge
func Large() {
	f := &CF.Forest{Target: "N:t", Intercept: 0.25}
	for i := 0; i < vsym.Param("trees"); i++ {
		t := &CF.Tree{Target: "N:t", Weight: float64(i) / 3}
		if i%3 == 2 {
			t.Weight = -1
		}
		t.Root = &CF.Node{Pred: "0"}
		n := t.Root
		for d := 0; d < vsym.Param("depth")-i%5; d++ {
			n.Splitter = &CF.Splitter{Feature: "N:f" + Itoa(d), Numerical: true, Value: float64(d*d) / 7}
			if d%3 == 1 {
				n.Splitter = &CF.Splitter{Feature: "C:g" + Itoa(d), Left: map[string]bool{}}
				for k := 0; k < vsym.Param("ncat"); k++ {
					if k%(d+1) == 0 {
						n.Splitter.Left["c"+Itoa(k)] = true
					}
				}
			}
			n.Left, n.Right = &CF.Node{Pred: "l" + Itoa(d)}, &CF.Node{Pred: "r" + Itoa(i)}
			k := (d + i) % 3
			if k == 2 || d == 3 {
				n.Missing = &CF.Node{Pred: "m" + Itoa(d)}
			}
			n = []*CF.Node{n.Left, n.Right, n.Missing}[k]
		}
		if i < 2 {
			n.Pred = preds[vsym.Conc(vsym.Int("pred", 0, len(preds)-1))]
		}
		f.Trees = append(f.Trees, t)
	}
	out := &bytes.Buffer{}
	CF.NewForestWriter(out).WriteForest(f)
	g, err := CF.NewForestReader(bytes.NewBufferString(out.String())).ReadForest()
	vsym.Assert(err == nil && g != nil, "a written forest cannot be read")
	vsym.Assert(g.Intercept == f.Intercept, "reading changes the intercept")
	vsym.Assert(len(g.Trees) == len(f.Trees), "reading changes the number of trees")
	for i, t := range f.Trees {
		vsym.Assert(g.Trees[i].Weight == t.Weight && g.Trees[i].Target == t.Target, "reading changes a tree's weight or target")
		same(t.Root, g.Trees[i].Root)
	}
	for i, t := range f.Trees {
		a, b := t.Root, g.Trees[i].Root
		for a != nil && a.Splitter != nil {
			if !a.Splitter.Numerical {
				for k := 0; k < vsym.Param("ncat"); k++ {
					vsym.Assert(a.Splitter.Left["c"+Itoa(k)] == b.Splitter.Left["c"+Itoa(k)], "reading changes the left categories")
				}
			}
			if a.Left.Splitter != nil {
				a, b = a.Left, b.Left
			} else if a.Right.Splitter != nil {
				a, b = a.Right, b.Right
			} else {
				a, b = a.Missing, b.Missing
			}
		}
	}
}

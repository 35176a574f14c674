// Package c17 checks that copies and encodings of features are faithful and independent.
package c17

import (
	CF "github.com/ryanbressler/CloudForest"
	. "hlib"
	"vsym"
)

// snap is the content of a feature at some time.
type snap struct {
	name    string
	miss    []bool
	num     []float64
	cat     []int
	has     bool
	back    []string
	isNum   bool
	nmap    int
	rsearch bool
}

func take(f CF.Feature) *snap {
	s := &snap{name: f.GetName(), has: f.MissingVals()}
	switch g := f.(type) {
	case *CF.DenseNumFeature:
		s.isNum = true
		s.miss = append([]bool{}, g.Missing...)
		s.num = append([]float64{}, g.NumData...)
	case *CF.DenseCatFeature:
		s.miss = append([]bool{}, g.Missing...)
		s.cat = append([]int{}, g.CatData...)
		s.back = append([]string{}, g.Back...)
		s.nmap = len(g.Map)
		s.rsearch = g.RandomSearch
	}
	return s
}

// same says that f has the recorded content; values behind missing entries count if exact.
func (s *snap) same(f CF.Feature, exact bool, msg string) {
	vsym.Assert(f.Length() == len(s.miss), msg+": length")
	vsym.Assert(f.MissingVals() == s.has, msg+": missing flag")
	for i, m := range s.miss {
		vsym.Assert(f.IsMissing(i) == m, msg+": missing entry")
	}
	switch g := f.(type) {
	case *CF.DenseNumFeature:
		vsym.Assert(s.isNum, msg+": type")
		for i, v := range s.num {
			vsym.Assert(vsym.Or(vsym.And(!exact, s.miss[i]), g.NumData[i] == v), msg+": value")
		}
	case *CF.DenseCatFeature:
		vsym.Assert(!s.isNum, msg+": type")
		vsym.Assert(len(g.Back) == len(s.back) && len(g.Map) == s.nmap && g.NCats() == len(s.back), msg+": number of categories")
		for k, c := range s.back {
			j, ok := g.Map[c]
			vsym.Assert(g.Back[k] == c && ok && j == k, msg+": category")
		}
		for i, v := range s.cat {
			vsym.Assert(vsym.Or(vsym.And(!exact, s.miss[i]), g.CatData[i] == v), msg+": value")
		}
		vsym.Assert(g.RandomSearch == s.rsearch, msg+": search option")
	default:
		vsym.Assert(false, msg+": unknown type")
	}
}

// change changes a feature in the chosen way.
func change(f CF.Feature, how string) {
	n := f.Length()
	switch how {
	case "put":
		i := vsym.Conc(vsym.Int("at", 0, n-1))
		switch g := f.(type) {
		case *CF.DenseNumFeature:
			g.Put(i, 77)
		case *CF.DenseCatFeature:
			g.Puti(i, 0)
		}
	case "missing":
		for i := 0; i < n; i++ {
			f.PutMissing(i)
		}
	case "str":
		f.PutStr(vsym.Conc(vsym.Int("at", 0, n-1)), "123")
	case "append":
		f.Append("456")
		f.Append("")
	case "category":
		if g, ok := f.(*CF.DenseCatFeature); ok {
			g.CatToNum("new")
		}
	case "impute":
		f.ImputeMissing()
	case "shuffle":
		f.Shuffle()
	case "rename":
		switch g := f.(type) {
		case *CF.DenseNumFeature:
			g.Name = "other"
		case *CF.DenseCatFeature:
			g.Name = "other"
			for i := range g.Back {
				delete(g.Map, g.Back[i])
				g.Back[i] = "r" + Itoa(i)
				g.Map[g.Back[i]] = i
			}
		}
	}
}

func source(kind string, n int) CF.Feature {
	if kind == "num" {
		return Num("N:f", n, []float64{0, 1.5, -2}, true)
	}
	nc := int(kind[0] - '0')
	f := Cat("C:f", n, nc, true)
	f.RandomSearch = vsym.Bool("rs")
	return f
}

// Copy copies a feature and changes one of both.
//
//gosym: C17 quick kind={num|1|2|3} n=3 how={put|missing|str|append|category|impute|shuffle|rename} back=0..1
//gosym: C17 thorough kind={num|1|2|4} n=4 how={put|missing|str|append|category|impute|shuffle|rename} back=0..1
func Copy() {
	f := source(vsym.ParamStr("kind"), vsym.Param("n"))
	s := take(f)
	g := f.Copy()
	vsym.Assert(g.GetName() == f.GetName(), "a copy has another name")
	s.same(g, true, "a copy differs from its source")
	s.same(f, true, "copying changes the source")
	a, b := f, g
	if vsym.Param("back") == 1 {
		a, b = g, f
	}
	change(b, vsym.ParamStr("how"))
	s.same(a, true, "changing one of source and copy shows in the other")
}

// Into copies a feature into another one that has other missing entries.
//
//gosym: C17 quick kind={num|2|3} n=3 how={put|missing|shuffle|impute} back=0..1
//gosym: C17 thorough kind={num|4} n=4 how={put|missing|str|append|shuffle|impute} back=0..1
func Into() {
	n := vsym.Param("n")
	kind := vsym.ParamStr("kind")
	f := source(kind, n)
	s := take(f)
	var g CF.Feature
	if kind == "num" {
		g = Num("N:f2", n, []float64{9}, true)
	} else {
		h := EmptyCat("C:f2", n, int(kind[0]-'0'))
		h.RandomSearch = f.(*CF.DenseCatFeature).RandomSearch
		for i := 0; i < n; i++ {
			h.Missing[i] = vsym.Bool("gm" + Itoa(i))
			h.HasMissing = vsym.Or(h.HasMissing, h.Missing[i])
		}
		g = h
	}
	f.CopyInTo(g)
	s.same(g, false, "copying into a feature misses")
	s.same(f, true, "copying into a feature changes the source")
	a, b := f, g
	if vsym.Param("back") == 1 {
		a, b = g, f
	}
	s2 := take(a)
	change(b, vsym.ParamStr("how"))
	s2.same(a, true, "changing one of source and copy shows in the other")
}

// encoded checks the encoding of a categorical feature f.
func encoded(f *CF.DenseCatFeature, s *snap, fs []CF.Feature, onehot bool) {
	nc := len(s.back)
	if nc <= 2 {
		vsym.Assert(len(fs) == 1, "a two-category feature is encoded as another number of features")
		vsym.Assert(fs[0].GetName() == s.name, "an encoded feature has another name")
		if onehot {
			s.same(fs[0], false, "a two-category feature is not kept")
			return
		}
		g := fs[0].(*CF.DenseNumFeature)
		vsym.Assert(g.MissingVals() == s.has && g.Length() == len(s.miss), "an encoding has another missing flag")
		for i, m := range s.miss {
			vsym.Assert(g.Missing[i] == m, "an encoding has another missing entry")
			vsym.Assert(vsym.Or(m, g.NumData[i] == float64(s.cat[i])), "an encoding has another value")
		}
		return
	}
	vsym.Assert(len(fs) == nc, "there is not one indicator per category")
	for k, h := range fs {
		vsym.Assert(h.GetName() == s.name+"=="+s.back[k], "an indicator is named differently")
		vsym.Assert(h.MissingVals() == s.has && h.Length() == len(s.miss), "an indicator has another missing flag")
		for i, m := range s.miss {
			vsym.Assert(h.IsMissing(i) == m, "an indicator has another missing entry")
			is := s.cat[i] == k
			if onehot {
				g := h.(*CF.DenseCatFeature)
				v := vsym.IteS(m, "NA", vsym.IteS(is, "true", "false"))
				vsym.Assert(g.NCats() == 2 && g.GetStr(i) == v, "an indicator is set for other cases")
			} else {
				v := vsym.IteF(is, 1, 0)
				vsym.Assert(vsym.Or(m, h.(*CF.DenseNumFeature).NumData[i] == v), "an indicator is set for other cases")
			}
		}
	}
}

// Encode encodes a feature, changes one of source and encodings, and looks at the others.
//
//gosym: C17 quick kind=1..4 n=2 hot=0..1 how={put|missing|append|category|impute|shuffle|rename} on=-1..1
//gosym: C17 thorough kind=2..5 n=3 hot=0..1 how={put|missing|str|append|category|impute|shuffle|rename} on=-1..4
func Encode() {
	f := source(vsym.ParamStr("kind"), vsym.Param("n")).(*CF.DenseCatFeature)
	s := take(f)
	hot := vsym.Param("hot") == 1
	var fs []CF.Feature
	if hot {
		fs = f.OneHot()
	} else {
		fs = f.EncodeToNum()
	}
	encoded(f, s, fs, hot)
	s.same(f, true, "encoding changes the source")
	independent(append([]CF.Feature{f}, fs...), vsym.Param("on")+1, vsym.ParamStr("how"))
}

func independent(all []CF.Feature, on int, how string) {
	if on >= len(all) {
		return
	}
	var before []*snap
	for _, g := range all {
		before = append(before, take(g))
	}
	change(all[on], how)
	for i, g := range all {
		if i != on {
			before[i].same(g, true, "changing a feature shows in its source or a sibling")
		}
	}
}

// Matrix encodes a whole matrix.
//
//gosym: C17 quick n=2 nc=1..3 hot=0..1 how={missing|append|category|impute|shuffle} on=0..5
//gosym: C17 thorough n=3 nc=2..4 hot=0..1 how={put|missing|str|append|category|impute|shuffle|rename} on=0..6
func Matrix() {
	n := vsym.Param("n")
	a := Num("N:a", n, []float64{0, 2}, true)
	b := Cat("C:b", n, vsym.Param("nc"), true)
	d := Num("N:d", n, []float64{0, 2}, false)
	fm := FM(Labels(n), a, b, d)
	sa, sb, sd := take(a), take(b), take(d)
	hot := vsym.Param("hot") == 1
	var out *CF.FeatureMatrix
	if hot {
		out = fm.OneHot()
	} else {
		out = fm.EncodeToNum()
	}
	vsym.Assert(len(fm.Data) == 3 && len(fm.Map) == 3, "encoding changes the matrix")
	sa.same(a, true, "encoding changes the source")
	sb.same(b, true, "encoding changes the source")
	sd.same(d, true, "encoding changes the source")
	m := len(out.Data)
	vsym.Assert(m >= 3, "an encoded matrix lacks features")
	sa.same(out.Data[0], false, "a numeric feature changes by encoding")
	sd.same(out.Data[m-1], false, "a numeric feature changes by encoding")
	encoded(b, sb, out.Data[1:m-1], hot)
	vsym.Assert(len(out.Map) == m, "the lookup of an encoded matrix has another size")
	for i, f := range out.Data {
		j, ok := out.Map[f.GetName()]
		vsym.Assert(ok && j == i, "the lookup of an encoded matrix is wrong")
	}
	vsym.Assert(len(out.CaseLabels) == n, "an encoded matrix has other case labels")
	for i := range out.CaseLabels {
		vsym.Assert(out.CaseLabels[i] == fm.CaseLabels[i], "an encoded matrix has other case labels")
	}
	all := append([]CF.Feature{a, b, d}, out.Data...)
	independent(all, vsym.Param("on"), vsym.ParamStr("how"))
	out.CaseLabels[0] = "changed"
	vsym.Assert(fm.CaseLabels[0] == "case0", "changing case labels of an encoded matrix shows in its source")
}

// Contrast copies wrapped targets as the search for splits does.
//
//gosym: C17 quick kind={num|cat} n=2
func Contrast() {
	n := vsym.Param("n")
	t := wrapped(vsym.ParamStr("kind"), n)
	f := t.(CF.Feature)
	s := take(f)
	al := CF.NewBestSplitAllocs(n, t)
	g, ok := al.ContrastTarget.(CF.Feature)
	vsym.Assert(ok, "the contrast target is not a feature")
	s.same(g, true, "the contrast target differs")
	change(g, "shuffle")
	s.same(f, true, "changing the contrast target shows in the target")
}

func wrapped(kind string, n int) CF.Target {
	if kind == "num" {
		return Num("N:t", n, []float64{0, 1}, true)
	}
	return Cat("C:t", n, 2, true)
}

// Package c16 checks reading and writing of LibSVM files.
package c16

import (
	"bytes"
	"strings"

	CF "github.com/ryanbressler/CloudForest"
	. "hlib"
	"vsym"
)

var values = []float64{0, 1, -2.5, 1e300, 1.0 / 3}
var texts = []string{"", "1", "-2.5", "1e+300", "0.3333333333333333"}

// Read reads a table in which any index may be listed in any line. kt is the number of targets to
// choose from, kv the number of values, rev 1 lists the indexes in decreasing order, blank 1 puts
// empty lines between.
//
//gosym: C16 quick rows=1 fs=3 kv=5 kt=2 num={0|1} end=0..1 rev=0..1 blank=0 nomerge
//gosym: C16 quick rows=2 fs=2 kv=3 kt=2 num={0|1} end=0..1 rev=0..1 blank=0 nomerge
//gosym: C16 quick rows=3 fs=2 kv=2 kt=1 num={0|1} end=0 rev=1 blank=0 nomerge
//gosym: C16 quick rows=2 fs=1 kv=2 kt=1 num=0 end=0..1 rev=0 blank=1 nomerge
//gosym: C16 quick rows=0 fs=1 kv=2 kt=1 num=0 end=0..1 rev=0 blank=0 nomerge
//gosym: C16 thorough rows=3 fs=3 kv=2 kt=2 num={0|1} end=0..1 rev=0..1 blank=0 nomerge
//gosym: C16 thorough rows=2 fs=3 kv=3 kt=2 num={0|1} end=1 rev=0 blank=1 nomerge
func Read() {
	rows, fs := vsym.Param("rows"), vsym.Param("fs")
	targets := []string{"1", "-1"}
	if vsym.Param("num") == 1 {
		targets = []string{"1.5", "-2"}
	}
	text, top := "", 0
	var want [][]int
	var ts []string
	blank := vsym.Param("blank") == 1
	for i := 0; i < rows; i++ {
		if blank {
			text += []string{"", "\n", " \n"}[vsym.Conc(vsym.Int("blank"+Itoa(i), 0, 2))]
		}
		t := targets[0]
		if i > 0 { // the first target tells the type
			t = targets[vsym.Conc(vsym.Int("t"+Itoa(i), 0, vsym.Param("kt")-1))]
		}
		ts = append(ts, t)
		var row []int
		var cells []string
		for j := 1; j <= fs; j++ {
			v := vsym.Conc(vsym.Int("v"+Itoa(i)+"."+Itoa(j), 0, vsym.Param("kv")-1))
			row = append(row, v)
			if v == 0 {
				continue
			}
			top = max(top, j)
			c := Itoa(j) + ":" + texts[v]
			if vsym.Param("rev") == 1 {
				cells = append([]string{c}, cells...)
			} else {
				cells = append(cells, c)
			}
		}
		want = append(want, row)
		sep := " "
		if blank {
			sep = []string{"\t", "  "}[i%2]
		}
		text += strings.Join(append([]string{t}, cells...), sep)
		if blank && i == 0 {
			text += " "
		}
		if i < rows-1 || vsym.Param("end") == 1 {
			text += "\n"
		}
	}
	if blank {
		text += []string{"", "\n"}[vsym.Conc(vsym.Int("blank", 0, 1))]
	}
	fm := CF.ParseLibSVM(bytes.NewBufferString(text))
	vsym.Assert(fm != nil, "nothing is read")
	vsym.Assert(len(fm.CaseLabels) == rows, "there is another number of cases than lines")
	if rows == 0 {
		return
	}
	vsym.Assert(len(fm.Data) == top+1 && len(fm.Map) == top+1, "there is another number of features than indexes")
	for j, f := range fm.Data {
		at, ok := fm.Map[f.GetName()]
		vsym.Assert(f.GetName() == Itoa(j) && ok && at == j, "a feature isn't called by its index")
		vsym.Assert(f.Length() == rows, "a feature has another number of cases")
		_, num := f.(*CF.DenseNumFeature)
		vsym.Assert(num == (j > 0 || vsym.Param("num") == 1), "a feature has another type")
		for i := 0; i < rows; i++ {
			vsym.Assert(!f.IsMissing(i), "an entry is missing")
			if j == 0 {
				vsym.Assert(f.GetStr(i) == ts[i], "a target differs")
			} else {
				vsym.Assert(f.(*CF.DenseNumFeature).NumData[i] == values[want[i][j-1]], "a value differs")
			}
		}
	}
}

// Write writes a matrix with a target, with both writers, and reads it back. kinds has the kind of
// each feature, at the position of the target, sel the number of cases selected.
//
//gosym: C16 quick n=2 kinds={N|NN|CN|NC} at=0 sel=2 kv=2 nc=2 nomerge
//gosym: C16 quick n=2 kinds={NN|CN|NC|NCN} at=1 sel=2 kv=2 nc=2 nomerge
//gosym: C16 quick n=2 kinds={NC|CC} at=0 sel=1 kv=2 nc=3 nomerge
//gosym: C16 quick n=1 kinds={NN|CN} at=0 sel=1 kv=5 nc=2 nomerge
//gosym: C16 quick n=2 kinds=NN at=0 sel=0 kv=2 nc=2 nomerge
//gosym: C16 thorough n=3 kinds={NN|CN|NC} at=0 sel=2 kv=2 nc=3 nomerge
//gosym: C16 thorough n=2 kinds={NNC|CNN|NCC} at=1 sel=3 kv=2 nc=3 nomerge
func Write() {
	n, at, nc := vsym.Param("n"), vsym.Param("at"), vsym.Param("nc")
	kinds := vsym.ParamStr("kinds")
	fm := &CF.FeatureMatrix{Map: map[string]int{}, CaseLabels: Labels(n)}
	for j := range kinds {
		name := kinds[j:j+1] + ":" + Itoa(j)
		num := &CF.DenseNumFeature{Name: name}
		cat := EmptyCat(name, n, nc)
		known := false
		for i := 0; i < n; i++ {
			lo := -1
			if j == at || (i == n-1 && !known) { // targets and some entry are known
				lo = 0
			}
			k := vsym.Param("kv")
			if kinds[j] == 'C' {
				k = nc
			}
			v := vsym.Conc(vsym.Int([]string{"m", "v"}[1+lo]+Itoa(j)+"."+Itoa(i), lo, k-1))
			known = known || v >= 0
			cat.CatData[i], cat.Missing[i] = max(0, v), v < 0
			num.Missing = append(num.Missing, v < 0)
			x := 77.0
			if v >= 0 && kinds[j] == 'N' {
				x = values[v]
			}
			num.NumData = append(num.NumData, x)
			num.HasMissing, cat.HasMissing = num.HasMissing || v < 0, cat.HasMissing || v < 0
		}
		fm.Map[name] = j
		if kinds[j] == 'N' {
			fm.Data = append(fm.Data, num)
		} else {
			fm.Data = append(fm.Data, cat)
		}
	}
	var sel []int
	for i := 0; i < vsym.Param("sel"); i++ {
		sel = append(sel, vsym.Conc(vsym.Int("sel"+Itoa(i), 0, n-1)))
	}
	// the documented content: features but the target, imputed and encoded
	rest := &CF.FeatureMatrix{Map: map[string]int{}, CaseLabels: fm.CaseLabels}
	var keep []CF.Feature
	for j, f := range fm.Data {
		keep = append(keep, f.Copy())
		if j != at {
			c := f.Copy()
			c.ImputeMissing()
			rest.Data = append(rest.Data, c)
		}
	}
	encoded := rest.EncodeToNum()
	name := fm.Data[at].GetName()
	all, some := &bytes.Buffer{}, &bytes.Buffer{}
	vsym.Assert(CF.WriteLibSvm(fm, name, all) == nil, "writing fails")
	unchanged(fm, keep)
	vsym.Assert(CF.WriteLibSvmCases(fm, sel, name, some) == nil, "writing cases fails")
	unchanged(fm, keep)
	vsym.Assert(CF.WriteLibSvm(fm, "none", &bytes.Buffer{}) != nil, "writing without a target succeeds")
	vsym.Assert(CF.WriteLibSvmCases(fm, sel, "none", &bytes.Buffer{}) != nil, "writing without a target succeeds")
	same(CF.ParseLibSVM(all), keep[at], encoded, Seq(n))
	same(CF.ParseLibSVM(some), keep[at], encoded, sel)
}

func unchanged(fm *CF.FeatureMatrix, keep []CF.Feature) {
	vsym.Assert(len(fm.Data) == len(keep) && len(fm.Map) == len(keep), "writing changes the number of features")
	for j, f := range fm.Data {
		vsym.Assert(f.GetName() == keep[j].GetName() && f.MissingVals() == keep[j].MissingVals(), "writing changes a feature")
		for i := 0; i < f.Length(); i++ {
			vsym.Assert(f.GetStr(i) == keep[j].GetStr(i), "writing changes an entry")
		}
	}
}

func same(got *CF.FeatureMatrix, target CF.Feature, encoded *CF.FeatureMatrix, sel []int) {
	vsym.Assert(got != nil && len(got.CaseLabels) == len(sel), "there is another number of cases")
	if len(sel) == 0 {
		return
	}
	vsym.Assert(len(got.Data) <= 1+len(encoded.Data), "there are more features than written")
	for i, c := range sel {
		want := target.GetStr(c)
		if cat, ok := target.(*CF.DenseCatFeature); ok {
			want = Itoa(cat.CatData[c])
		}
		vsym.Assert(got.Data[0].GetStr(i) == want, "a target differs")
		for j, f := range encoded.Data {
			v := 0.0
			if j+1 < len(got.Data) {
				g := got.Data[j+1].(*CF.DenseNumFeature)
				vsym.Assert(!g.Missing[i], "a value is missing")
				v = g.NumData[i]
			}
			vsym.Assert(v == f.(*CF.DenseNumFeature).NumData[c], "a value differs")
		}
	}
}

// Large reads many rows and indexes of two digits, and writes them again.
//
//gosym: C16 quick rows=23 fs=15 num=0..1 nomerge
//gosym: C16 thorough rows=60 fs=120 num=0..1 nomerge
func Large() {
	rows, fs := vsym.Param("rows"), vsym.Param("fs")
	at := vsym.Conc(vsym.Int("at", 0, rows-1))
	text := ""
	want := make([][]int, rows)
	num := vsym.Param("num") == 1
	target := func(i int) string {
		if num {
			return Itoa(i) + ".5"
		}
		return Itoa(i % 3)
	}
	for i := range want {
		want[i] = Scramble(i, fs+1, 4)
		want[i][0] = 1
		if i == 2 {
			want[i][fs] = 1
		}
		if i == at {
			want[i][fs] = vsym.Conc(vsym.Int("last", 0, 1))
		}
		var cells []string
		for j := 1; j <= fs; j++ {
			if v := want[i][j]; v > 0 {
				cells = append(cells, Itoa(j)+":"+texts[v])
			}
		}
		if i%2 == 1 { // in another order
			cells[0], cells[len(cells)-1] = cells[len(cells)-1], cells[0]
		}
		text += target(i) + " " + strings.Join(cells, " ") + "\n"
	}
	fm := CF.ParseLibSVM(bytes.NewBufferString(text))
	check := func(fm *CF.FeatureMatrix) {
		vsym.Assert(fm != nil && len(fm.CaseLabels) == rows, "there is another number of cases than lines")
		for j, f := range fm.Data {
			vsym.Assert(f.Length() == rows, "a feature has another number of cases")
			for i := 0; i < rows; i++ {
				vsym.Assert(!f.IsMissing(i), "an entry is missing")
				if j == 0 {
					vsym.Assert(f.GetStr(i) == target(i), "a target differs")
				} else {
					vsym.Assert(f.(*CF.DenseNumFeature).NumData[i] == values[want[i][j]], "a value differs")
				}
			}
		}
	}
	check(fm)
	top := 0
	for _, w := range want {
		for j, v := range w {
			if v > 0 {
				top = max(top, j)
			}
		}
	}
	vsym.Assert(len(fm.Data) == top+1, "there is another number of features than indexes")
	out := &bytes.Buffer{}
	vsym.Assert(CF.WriteLibSvm(fm, "0", out) == nil, "writing fails")
	check(CF.ParseLibSVM(out))
}

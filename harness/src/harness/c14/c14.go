// Package c14 checks reading and writing of annotated feature matrices.
package c14

import (
	"bytes"
	"strings"

	CF "github.com/ryanbressler/CloudForest"
	. "hlib"
	"vsym"
)

var catText = []string{"a", "b", "x y", "5\" disk", "\"q\"", "a,b", " lead", "tab\tin", "two\nlines", "#c", "\\.", "NA ", "N:a", "'", "\"", "\u00e9;"}
var numVals = []float64{0, -1.5, 1e300, 0.1, 1.0 / 3, -1e-300, 123456789.125}
var names = []string{"a", "CLIN:x::::", "a b", "q\"uote", "tab\tname", "", ".", "\"n\"", "a,b"}
var labels = []string{"case", "1", "x y", "\"quoted\"", "a\tb", "", "l,m", "NA", "N"}

func pick(name string, from []string, k int) string {
	if k < len(from) {
		from = from[:k]
	}
	return from[vsym.Conc(vsym.Int(name, 0, len(from)-1))]
}

// same compares a matrix with the cases of another one.
func same(got, want *CF.FeatureMatrix, cases []int) {
	vsym.Assert(got != nil && len(got.Data) == len(want.Data), "there is another number of features")
	vsym.Assert(len(got.CaseLabels) == len(cases), "there is another number of case labels")
	for k, c := range cases {
		vsym.Assert(got.CaseLabels[k] == want.CaseLabels[c], "a case label differs")
	}
	vsym.Assert(len(got.Map) == len(want.Data), "the lookup has another size")
	for j, w := range want.Data {
		g := got.Data[j]
		vsym.Assert(g.GetName() == w.GetName(), "a feature has another name")
		at, ok := got.Map[w.GetName()]
		vsym.Assert(ok && at == j, "the lookup is wrong")
		vsym.Assert(g.Length() == len(cases), "a feature has another length")
		some := false
		for k, c := range cases {
			m := w.IsMissing(c)
			vsym.Assert(g.IsMissing(k) == m, "a missing entry differs")
			some = some || m
			if m {
				continue
			}
			switch wf := w.(type) {
			case *CF.DenseNumFeature:
				gf, ok := g.(*CF.DenseNumFeature)
				vsym.Assert(ok, "a feature has another type")
				vsym.Assert(gf.NumData[k] == wf.NumData[c], "a number differs")
			case *CF.DenseCatFeature:
				gf, ok := g.(*CF.DenseCatFeature)
				vsym.Assert(ok, "a feature has another type")
				vsym.Assert(gf.Back[gf.CatData[k]] == wf.Back[wf.CatData[c]], "a category differs")
			}
		}
		vsym.Assert(g.MissingVals() == some, "the missing flag differs")
	}
}

// Write writes a selection of cases and reads it back. kn, kl, kc and kv are the numbers of feature
// names, case labels, categories and numbers to choose from.
//
//gosym: C14 quick n=1 sel=1 kn=1 kl=1 kc=16 kv=7 fs=1 nomerge
//gosym: C14 thorough n=2 sel=2 kn=1 kl=1 kc=16 kv=1 fs=1 nomerge
//gosym: C14 quick n=1 sel=1 kn=9 kl=9 kc=1 kv=1 fs=1 nomerge
//gosym: C14 quick n=3 sel=0..3 kn=1 kl=1 kc=2 kv=1 fs=1 nomerge
//gosym: C14 quick n=1 sel=2 kn=1 kl=1 kc=2 kv=2 fs=2 nomerge
//gosym: C14 thorough n=2 sel=2 kn=1 kl=1 kc=2 kv=2 fs=2 nomerge
//gosym: C14 thorough n=2 sel=2 kn=1 kl=1 kc=1 kv=7 fs=1 nomerge
//gosym: C14 thorough n=2 sel=3 kn=1 kl=1 kc=2 kv=1 fs=2 nomerge
//gosym: C14 thorough n=3 sel=3 kn=1 kl=1 kc=2 kv=1 fs=1 nomerge
func Write() {
	n := vsym.Param("n")
	fs := vsym.Param("fs")
	fm := &CF.FeatureMatrix{Map: map[string]int{}}
	for i := 0; i < n; i++ {
		fm.CaseLabels = append(fm.CaseLabels, pick("label"+Itoa(i), labels, vsym.Param("kl")))
	}
	for j := 0; j < fs; j++ {
		num := &CF.DenseNumFeature{Name: "N:" + pick("num"+Itoa(j), names, vsym.Param("kn")) + Itoa(j)}
		cat := EmptyCat("C:"+pick("cat"+Itoa(j), names, vsym.Param("kn"))+Itoa(j), 0, 0)
		for i := 0; i < n; i++ {
			v := vsym.Conc(vsym.Int("v"+Itoa(j)+"."+Itoa(i), -1, min(vsym.Param("kv"), len(numVals))-1))
			num.Missing = append(num.Missing, v < 0)
			if v < 0 {
				num.HasMissing = true
				num.NumData = append(num.NumData, 5)
			} else {
				num.NumData = append(num.NumData, numVals[v])
			}
			c := vsym.Conc(vsym.Int("c"+Itoa(j)+"."+Itoa(i), -1, min(vsym.Param("kc"), len(catText))-1))
			cat.Missing = append(cat.Missing, c < 0)
			if c < 0 {
				cat.HasMissing = true
				cat.CatData = append(cat.CatData, 0)
			} else {
				cat.CatData = append(cat.CatData, cat.CatToNum(catText[c]))
			}
		}
		fm.Data = append(fm.Data, num, cat)
	}
	for j, f := range fm.Data {
		fm.Map[f.GetName()] = j
	}
	var sel []int
	for i := 0; i < vsym.Param("sel"); i++ {
		sel = append(sel, vsym.Conc(vsym.Int("sel"+Itoa(i), 0, n-1)))
	}
	out := &bytes.Buffer{}
	err := fm.WriteCases(out, sel)
	vsym.Assert(err == nil, "writing fails")
	same(CF.ParseAFM(bytes.NewBufferString(out.String())), fm, sel)
}

// cell is an entry of a table as text together with its meaning.
type cell struct {
	text    string
	missing bool
	num     float64
}

var numCells = []cell{{".5", false, 0.5}, {"NA", true, 0}, {"-3", false, -3}, {"nan", true, 0}, {"1e3", false, 1000}, {"?", true, 0}, {"", true, 0}}
var catCells = []cell{{"a", false, 0}, {"NULL", true, 0}, {"b", false, 0}, {"", true, 0}, {"0 ", false, 0}, {"na", true, 0}, {"nab", false, 0}}

// Orient reads the same table in both orientations.
//
//gosym: C14 quick n=1 fs=NC k=7 end=0..1 nomerge
//gosym: C14 quick n=2 fs={NB|C|N|x|y,N} k=3 end=0 nomerge
//gosym: C14 quick n=2 fs={BN|CB|Cn|Nx|Bny} k=2 end=0 nomerge
//gosym: C14 quick n=3 fs=N k=2 end=1 nomerge
//gosym: C14 quick n=0 fs={N|NC} k=1 end=0..1 nomerge
//gosym: C14 thorough n=2 fs={NC|NB} k=5 end=0..1 nomerge
//gosym: C14 thorough n=2 fs=NCB k=2 end=0 nomerge
func Orient() {
	n := vsym.Param("n")
	kinds := vsym.ParamStr("fs")
	k := vsym.Param("k")
	want := &CF.FeatureMatrix{Map: map[string]int{}, CaseLabels: Labels(n)}
	sel := Seq(n)
	var table [][]string
	rows := true
	for j := 0; j < len(kinds); j++ {
		c := kinds[j : j+1]
		if c == "," {
			continue
		}
		name := c + ":f" + Itoa(j)
		if c == "x" || c == "y" { // names without a type are categorical
			name = c
			rows = rows && c == "y" && j > 0
		}
		if c == "n" { // starts like a type
			name = "NO"
		}
		cells := catCells
		if c == "N" {
			cells = numCells
		}
		num := &CF.DenseNumFeature{Name: name}
		cat := EmptyCat(name, 0, 0)
		texts := []string{name}
		for i := 0; i < n; i++ {
			e := cells[vsym.Conc(vsym.Int("c"+Itoa(j)+"."+Itoa(i), 0, k-1))]
			texts = append(texts, e.text)
			num.NumData = append(num.NumData, e.num)
			num.Missing = append(num.Missing, e.missing)
			cat.Missing = append(cat.Missing, e.missing)
			code := 0
			if !e.missing {
				code = cat.CatToNum(e.text)
			}
			cat.CatData = append(cat.CatData, code)
		}
		want.Map[name] = len(want.Data)
		if c == "N" {
			want.Data = append(want.Data, num)
		} else {
			want.Data = append(want.Data, cat)
		}
		table = append(table, texts)
	}
	end := ""
	if vsym.Param("end") == 1 {
		end = "\n"
	}
	// features in rows
	lines := []string{strings.Join(append([]string{"."}, want.CaseLabels...), "\t")}
	for _, t := range table {
		lines = append(lines, strings.Join(t, "\t"))
	}
	byRow := CF.ParseAFM(bytes.NewBufferString(strings.Join(lines, "\n") + end))
	same(byRow, want, sel)
	if kinds[0] == 'x' || kinds[0] == 'y' {
		return // the orientation is told by the first name
	}
	// features in columns
	lines = nil
	for i := -1; i < n; i++ {
		l := "."
		if i >= 0 {
			l = want.CaseLabels[i]
		}
		for _, t := range table {
			l += "\t" + t[i+1]
		}
		lines = append(lines, l)
	}
	byCol := CF.ParseAFM(bytes.NewBufferString(strings.Join(lines, "\n") + end))
	same(byCol, want, sel)
}

// Strip replaces the names of cases, features and categories by numbers and puts the target first.
//
//gosym: C14 quick n=2 target=-1..2
//gosym: C14 thorough n=3 target=-1..2
func Strip() {
	n := vsym.Param("n")
	a, b, d := Num("N:a", n, []float64{0, 1, 2}, true), Cat("C:b", n, 3, true), Cat("B:d", n, 2, true)
	fm := FM(Labels(n), a, b, d)
	names := []string{"N:a", "C:b", "B:d"}
	target := "none"
	at := vsym.Param("target")
	if at >= 0 {
		target = names[at]
	}
	order := []CF.Feature{a, b, d}
	if at > 0 {
		order[0], order[at] = order[at], order[0]
	}
	var num []float64
	var miss []bool
	for i := 0; i < n; i++ {
		num, miss = append(num, a.NumData[i]), append(miss, a.Missing[i])
	}
	cb, cd := append([]int{}, b.CatData...), append([]int{}, d.CatData...)
	fm.StripStrings(target)
	vsym.Assert(len(fm.Data) == 3 && len(fm.Map) == 3, "stripping changes the number of features")
	for j, f := range fm.Data {
		vsym.Assert(f == order[j], "stripping moves another feature than the target first")
		at, ok := fm.Map[f.GetName()]
		vsym.Assert(ok && at == j, "the lookup is wrong")
		if c, ok := f.(*CF.DenseCatFeature); ok {
			vsym.Assert(len(c.Map) == len(c.Back), "a stripped category map has another size")
			for k, s := range c.Back {
				at, ok := c.Map[s]
				vsym.Assert(ok && at == k, "a stripped category map is wrong")
				for l := 0; l < k; l++ {
					vsym.Assert(c.Back[l] != s, "two categories have one name")
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		vsym.Assert(a.NumData[i] == num[i] && a.Missing[i] == miss[i] && b.CatData[i] == cb[i] && d.CatData[i] == cd[i], "stripping changes a value")
		for l := 0; l < i; l++ {
			vsym.Assert(fm.CaseLabels[l] != fm.CaseLabels[i], "two cases have one label")
		}
	}
}

// Large writes many cases of many features and reads them in both orientations.
//
//gosym: C14 quick n=23 fs=7 nomerge
//gosym: C14 thorough n=90 fs=40 nomerge
func Large() {
	n, fs := vsym.Param("n"), vsym.Param("fs")
	fm := &CF.FeatureMatrix{Map: map[string]int{}, CaseLabels: Labels(n)}
	for j := 0; j < fs; j++ {
		num, cat := NumOf("N:"+Itoa(j), make([]float64, n)...), EmptyCat("C:"+Itoa(j), n, 0)
		for i, v := range Scramble(j, n, 17) {
			num.NumData[i] = float64(v) / 7
			num.Missing[i] = v == 3
			num.HasMissing = num.HasMissing || v == 3
			cat.Missing[i] = v == 5
			cat.HasMissing = cat.HasMissing || v == 5
			if v != 5 {
				cat.CatData[i] = cat.CatToNum("c" + Itoa(v+j))
			}
		}
		if j == fs/2 {
			i := vsym.Conc(vsym.Int("at", 0, n-1))
			num.NumData[i], num.Missing[i] = -1e-5, vsym.Conc(vsym.Int("m", 0, 1)) == 1
			num.HasMissing = true
			num.Missing[(i+1)%n] = true
		}
		fm.Data = append(fm.Data, num, cat)
	}
	for j, f := range fm.Data {
		fm.Map[f.GetName()] = j
	}
	sel := append(Scramble(9, n, n), 0, n-1)
	out := &bytes.Buffer{}
	vsym.Assert(fm.WriteCases(out, sel) == nil, "writing fails")
	text := out.String()
	same(CF.ParseAFM(bytes.NewBufferString(text)), fm, sel)
	// the same table with features in columns
	lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	var table [][]string
	for _, l := range lines {
		table = append(table, strings.Split(l, "\t"))
	}
	text = ""
	for i := range table[0] {
		for j := range table {
			if j > 0 {
				text += "\t"
			}
			text += table[j][i]
		}
		text += "\n"
	}
	same(CF.ParseAFM(bytes.NewBufferString(text)), fm, sel)
}

// Load: a file is an annotated feature matrix unless its name ends like that of another format.
//
//gosym: C14 quick name={a.fm|a.tsv|a|a.arff.fm|x.arff#a.fm|b.libsvm.tsv|arff|a.libsvm.afm|.arff.txt|ARFF.fm} nomerge
func Load() {
	n := 2
	a, b := Num("N:a", n, []float64{0, 1.5}, true), Cat("C:b", n, 2, true)
	for i := 0; i < n; i++ {
		vsym.Conc(b.CatData[i])
	}
	fm := FM(Labels(n), a, b)
	out := &bytes.Buffer{}
	vsym.Assert(fm.WriteCases(out, Seq(n)) == nil, "writing fails")
	name := vsym.TempDir() + strings.Replace(vsym.ParamStr("name"), "#", "-", 1)
	vsym.PutFile(name, out.String())
	got, err := CF.LoadAFM(name)
	vsym.Assert(err == nil && got != nil, "a file can't be loaded")
	if got != nil {
		same(got, fm, Seq(n))
	}
}

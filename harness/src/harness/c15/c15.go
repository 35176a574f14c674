// Package c15 checks reading (and writing) of ARFF files.
package c15

import (
	"bytes"
	"strings"

	CF "github.com/ryanbressler/CloudForest"
	. "hlib"
	"vsym"
)

func pick(name string, from []string, k int) string {
	if k < len(from) {
		from = from[:k]
	}
	return from[vsym.Conc(vsym.Int(name, 0, len(from)-1))]
}

var relations = []string{"@RELATION iris\n", "", "% a comment\n@relation 'x y'\n\n"}
var keywords = []string{"@attribute ", "@ATTRIBUTE\t", "@Attribute   "}
var datas = []string{"@data\n", "@DATA\n", "\n% rows\n@Data \r\n"}
var between = []string{"", "\n", "% @attribute x numeric\n", "\n%\n"}
var attrs = []string{"a", "b-2", "C:c::", "petal.width", "%d"}

type kind struct {
	text string
	num  bool
}

var kinds = []kind{{"numeric", true}, {"{a,b}", false}, {"REAL", true}, {"string", false}, {"Numeric", true}, {"{numeric, real}", false}, {"real", true}, {"NUMERIC\r", true}, {"{x}", false}, {"Real", true}, {"{Real}", false}, {"nUmErIc", true}}

type cell struct {
	text    string
	missing bool
	num     float64
	cat     string
}

var numCells = []cell{{text: "1.5", num: 1.5}, {text: "?", missing: true}, {text: "-2e3", num: -2000}, {text: "0", num: 0}, {text: "\"7\"", num: 7}}
var catCells = []cell{{text: "a", cat: "a"}, {text: "?", missing: true}, {text: "b c", cat: "b c"}, {text: "\"x,y\"", cat: "x,y"}, {text: "1", cat: "1"}}

// Read reads a file put together from parts. kr, kk, kb, kt, kc and ka are the numbers of relation
// and data lines, attribute keywords, lines between, types, cells and attribute names to choose
// from; sep 1 puts a space after commas, end 1 ends the last line, comments 1 allows comments
// between rows, crlf 1 ends rows with carriage returns.
//
//gosym: C15 quick attrs=1 rows=1 kr=3 kk=3 kb=4 kt=2 kc=2 ka=1 sep=0 end=0..1 comments=0 crlf=0 nomerge
//gosym: C15 quick attrs=1 rows=2 kr=1 kk=1 kb=1 kt=12 kc=5 ka=5 sep=0 end=1 comments=0 crlf=0..1 nomerge
//gosym: C15 quick attrs=2 rows=2 kr=1 kk=1 kb=1 kt=2 kc=3 ka=1 sep=0..1 end=0..1 comments=0 crlf=0 nomerge
//gosym: C15 quick attrs=2 rows=1 kr=1 kk=2 kb=2 kt=4 kc=2 ka=2 sep=1 end=0 comments=0 crlf=0 nomerge
//gosym: C15 quick attrs=2 rows=0 kr=3 kk=1 kb=1 kt=2 kc=2 ka=1 sep=0 end=0..1 comments=0..1 crlf=0 nomerge
//gosym: C15 quick attrs=2 rows=3 kr=1 kk=1 kb=1 kt=2 kc=1 ka=1 sep=0 end=1 comments=1 crlf=0..1 nomerge
//gosym: C15 thorough attrs=3 rows=2 kr=1 kk=1 kb=1 kt=2 kc=2 ka=1 sep=0..1 end=0..1 comments=0 crlf=0 nomerge
//gosym: C15 thorough attrs=2 rows=2 kr=1 kk=1 kb=1 kt=3 kc=3 ka=1 sep=1 end=0..1 comments=0 crlf=0..1 nomerge
//gosym: C15 thorough attrs=3 rows=1 kr=3 kk=3 kb=3 kt=2 kc=2 ka=1 sep=0 end=1 comments=1 crlf=0 nomerge
func Read() {
	na, rows := vsym.Param("attrs"), vsym.Param("rows")
	text := pick("relation", relations, vsym.Param("kr"))
	var ks []kind
	var names []string
	for j := 0; j < na; j++ {
		text += pick("between"+Itoa(j), between, vsym.Param("kb"))
		k := kinds[vsym.Conc(vsym.Int("type"+Itoa(j), 0, min(vsym.Param("kt"), len(kinds))-1))]
		name := pick("name"+Itoa(j), attrs, vsym.Param("ka")) + Itoa(j)
		text += pick("keyword"+Itoa(j), keywords, vsym.Param("kk")) + name + " " + k.text + "\n"
		ks, names = append(ks, k), append(names, name)
	}
	data := pick("data", datas, vsym.Param("kr"))
	end := vsym.Param("end") == 1
	if rows == 0 && !end {
		data = strings.TrimSpace(data)
	}
	text += data
	want := make([][]cell, na)
	sep, nl := ",", "\n"
	if vsym.Param("sep") == 1 {
		sep = ", "
	}
	if vsym.Param("crlf") == 1 {
		nl = "\r\n"
	}
	for i := 0; i < rows; i++ {
		if vsym.Param("comments") == 1 {
			text += pick("comment"+Itoa(i), []string{"", "\n", "% 1,2\n"}, 3)
		}
		var cells []string
		for j, k := range ks {
			cs := catCells
			if k.num {
				cs = numCells
			}
			c := cs[vsym.Conc(vsym.Int("c"+Itoa(i)+"."+Itoa(j), 0, vsym.Param("kc")-1))]
			cells = append(cells, c.text)
			want[j] = append(want[j], c)
		}
		text += strings.Join(cells, sep)
		if i < rows-1 || end {
			text += nl
		}
	}
	fm := CF.ParseARFF(bytes.NewBufferString(text))
	vsym.Assert(fm != nil, "nothing is read")
	vsym.Assert(len(fm.Data) == na && len(fm.Map) == na, "there is another number of features than attributes")
	vsym.Assert(len(fm.CaseLabels) == rows, "there is another number of cases than rows")
	for j, f := range fm.Data {
		at, ok := fm.Map[names[j]]
		vsym.Assert(f.GetName() == names[j] && ok && at == j, "a feature isn't the attribute declared")
		vsym.Assert(f.Length() == rows, "a feature has another number of cases")
		vsym.Assert((f.NCats() == 0 && ks[j].num) || !ks[j].num, "a numeric attribute isn't numeric")
		some := false
		for i, c := range want[j] {
			vsym.Assert(f.IsMissing(i) == c.missing, "an entry is missing or not against the file")
			some = some || c.missing
			if c.missing {
				continue
			}
			switch f := f.(type) {
			case *CF.DenseNumFeature:
				vsym.Assert(ks[j].num && f.NumData[i] == c.num, "a number differs")
			case *CF.DenseCatFeature:
				vsym.Assert(!ks[j].num && f.Back[f.CatData[i]] == c.cat, "a category differs")
			}
		}
		vsym.Assert(f.MissingVals() == some, "the missing flag differs")
	}
}

var cats = []string{"a", "x,y", "b c", " lead", "5\" disk", "two\nlines", "{z}"}
var nums = []float64{0, -1.5, 1e300, 1.0 / 3}

// Write writes a selection of cases and reads it back.
//
//gosym: C15 quick n=2 sel=2 kc=2 kv=2 nomerge
//gosym: C15 quick n=1 sel=1 kc=7 kv=4 nomerge
//gosym: C15 quick n=2 sel=3 kc=1 kv=1 nomerge
//gosym: C15 thorough n=2 sel=2 kc=7 kv=2 nomerge
func Write() {
	n := vsym.Param("n")
	num := &CF.DenseNumFeature{Name: "N:x"}
	cat := EmptyCat("C:y", 0, 0)
	for i := 0; i < n; i++ {
		v := vsym.Conc(vsym.Int("v"+Itoa(i), -1, vsym.Param("kv")-1))
		num.Missing = append(num.Missing, v < 0)
		x := 9.0
		if v >= 0 {
			x = nums[v]
		}
		num.NumData = append(num.NumData, x)
		num.HasMissing = num.HasMissing || v < 0
		c := vsym.Conc(vsym.Int("c"+Itoa(i), -1, vsym.Param("kc")-1))
		cat.Missing = append(cat.Missing, c < 0)
		cat.HasMissing = cat.HasMissing || c < 0
		k := 0
		if c >= 0 {
			k = cat.CatToNum(cats[c])
		}
		cat.CatData = append(cat.CatData, k)
	}
	fm := FM(Labels(n), num, cat)
	var sel []int
	for i := 0; i < vsym.Param("sel"); i++ {
		sel = append(sel, vsym.Conc(vsym.Int("sel"+Itoa(i), 0, n-1)))
	}
	out := &bytes.Buffer{}
	vsym.Assert(CF.WriteArffCases(fm, sel, "r", out) == nil, "writing fails")
	got := CF.ParseARFF(bytes.NewBufferString(out.String()))
	vsym.Assert(got != nil && len(got.Data) == 2, "a written file isn't read")
	a, ok := got.Data[0].(*CF.DenseNumFeature)
	b, ok2 := got.Data[1].(*CF.DenseCatFeature)
	vsym.Assert(ok && ok2 && a.Name == "N:x" && b.Name == "C:y", "the features differ")
	vsym.Assert(a.Length() == len(sel) && b.Length() == len(sel), "the number of cases differs")
	for i, c := range sel {
		vsym.Assert(a.Missing[i] == num.Missing[c] && b.Missing[i] == cat.Missing[c], "a missing entry differs")
		vsym.Assert(a.Missing[i] || a.NumData[i] == num.NumData[c], "a number differs")
		vsym.Assert(b.Missing[i] || b.GetStr(i) == cat.GetStr(c), "a category differs")
	}
}

// Large reads and writes many attributes and rows.
//
//gosym: C15 quick attrs=13 rows=21 nomerge
//gosym: C15 thorough attrs=40 rows=90 nomerge
func Large() {
	na, rows := vsym.Param("attrs"), vsym.Param("rows")
	text := relations[0]
	for j := 0; j < na; j++ {
		text += keywords[j%3] + "a" + Itoa(j) + " " + kinds[j%len(kinds)].text + "\n" + between[j%4]
	}
	text += datas[0]
	at := vsym.Conc(vsym.Int("at", 0, rows-1))
	cell := func(i, j int) cell {
		k := Scramble(i*na+j, 1, 5)[0]
		if i == at && j == na/2 {
			k = vsym.Conc(vsym.Int("cell", 0, 4))
		}
		if kinds[j%len(kinds)].num {
			return numCells[k]
		}
		return catCells[k]
	}
	for i := 0; i < rows; i++ {
		var cells []string
		for j := 0; j < na; j++ {
			cells = append(cells, cell(i, j).text)
		}
		text += strings.Join(cells, ",") + "\n"
	}
	fm := CF.ParseARFF(bytes.NewBufferString(text))
	vsym.Assert(fm != nil, "nothing is read")
	vsym.Assert(len(fm.Data) == na && len(fm.Map) == na, "there is another number of features than attributes")
	vsym.Assert(len(fm.CaseLabels) == rows, "there is another number of cases than rows")
	out := &bytes.Buffer{}
	vsym.Assert(CF.WriteArffCases(fm, Seq(rows), "r", out) == nil, "writing fails")
	for _, m := range []*CF.FeatureMatrix{fm, CF.ParseARFF(out)} {
		vsym.Assert(len(m.Data) == na && len(m.CaseLabels) == rows, "a written file has another size")
		for j, f := range m.Data {
			vsym.Assert(f.Length() == rows && m.Map["a"+Itoa(j)] == j, "a feature isn't the attribute declared")
			for i := 0; i < rows; i++ {
				c := cell(i, j)
				vsym.Assert(f.IsMissing(i) == c.missing, "an entry is missing or not against the file")
				if c.missing {
					continue
				}
				switch f := f.(type) {
				case *CF.DenseNumFeature:
					vsym.Assert(kinds[j%len(kinds)].num && f.NumData[i] == c.num, "a number differs")
				case *CF.DenseCatFeature:
					vsym.Assert(!kinds[j%len(kinds)].num && f.Back[f.CatData[i]] == c.cat, "a category differs")
				}
			}
		}
	}
}

// Case writes one of the keywords in any mixture of upper and lower case.
//
//gosym: C15 quick word={numeric|real|@attribute|@data|@relation} nomerge
func Case() {
	word := vsym.ParamStr("word")
	mixed := ""
	for i, c := range word {
		if c >= 'a' && c <= 'z' && vsym.Conc(vsym.Int("upper"+Itoa(i), 0, 1)) == 1 {
			c -= 'a' - 'A'
		}
		mixed += string(c)
	}
	text := strings.Replace("@relation r\n@attribute x numeric\n@attribute y real\n@attribute z {a}\n@data\n1,2,a\n", word, mixed, 1)
	fm := CF.ParseARFF(strings.NewReader(text))
	vsym.Assert(fm != nil && len(fm.Data) == 3, "an attribute isn't read")
	if fm == nil || len(fm.Data) != 3 {
		return
	}
	for j, f := range fm.Data {
		num, ok := f.(*CF.DenseNumFeature)
		vsym.Assert(ok == (j < 2) && f.Length() == 1 && !f.IsMissing(0), "an attribute's type or length is wrong")
		if ok {
			vsym.Assert(num.Get(0) == float64(j+1), "a value is wrong")
		} else {
			vsym.Assert(f.GetStr(0) == "a", "a category is wrong")
		}
	}
}

// Package c18 checks which texts are missing values.
package c18

import (
	CF "github.com/ryanbressler/CloudForest"
	. "hlib"
	"vsym"
)

var values = []float64{0, 1, -2.5, 1e300, -1e-300, 0.1, 12345678901234567}
var numText = []string{"0", "1", "-2.5", "1e300", "-1e-300", "0.1", "12345678901234567"}

var catText = []string{"a", "b", "nano", "n/a", "none", "NULLs", "-", "0", "NA ", "x na", "inf", "\u212a", "na\u00ef", "Nil", "??", "Null?", "nana", "undefined"}

// lower is ASCII lower case.
func lower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// marker picks one of the missing markers in any letter case.
func marker(name string) string {
	m := []string{"", "?", "na", "nan", "null"}[vsym.Conc(vsym.Int(name+".marker", 0, 4))]
	b := []byte(m)
	for i, c := range b {
		if c >= 'a' && c <= 'z' && vsym.Bool(name+".up"+Itoa(i)) {
			b[i] = c - 32
		}
	}
	return string(b)
}

// entry is a feature entry as it should be.
type entry struct {
	missing bool
	text    string
	val     float64
}

func check(f CF.Feature, want []entry) {
	vsym.Assert(f.Length() == len(want), "the feature has another length")
	for i, e := range want {
		vsym.Assert(f.IsMissing(i) == e.missing, "an entry is missing or not against its text")
		vsym.Assert(!e.missing || f.MissingVals(), "a feature with a missing entry reports none")
		if e.missing {
			vsym.Assert(f.GetStr(i) == "NA", "a missing entry does not print as NA")
			continue
		}
		if n, ok := f.(*CF.DenseNumFeature); ok {
			vsym.Assert(n.Get(i) == e.val, "a number does not read back")
		} else {
			vsym.Assert(f.GetStr(i) == e.text, "a category does not read back")
		}
	}
}

func feature(num bool) CF.Feature {
	if num {
		return &CF.DenseNumFeature{Name: "N:f"}
	}
	return EmptyCat("C:f", 0, 0)
}

// text makes a marker or a value and what it should be read as. The first k values are used.
func text(name string, num bool, k int) (string, entry) {
	v := vsym.Conc(vsym.Int(name, -1, k-1))
	if v < 0 {
		return marker(name), entry{missing: true}
	}
	if num {
		return numText[v], entry{val: values[v]}
	}
	return catText[v], entry{text: catText[v]}
}

func nval(num bool) int {
	if num {
		return len(values)
	}
	return len(catText)
}

// Append appends any texts.
//
//gosym: C18 quick num=0..1 n=1 k=99 nomerge
//gosym: C18 quick num=0..1 n=2 k=2 nomerge
//gosym: C18 thorough num=0..1 n=2 k=99 nomerge
//gosym: C18 thorough num=0..1 n=3 k=1 nomerge
func Append() {
	num := vsym.Param("num") == 1
	f := feature(num)
	var want []entry
	for i := 0; i < vsym.Param("n"); i++ {
		s, e := text("v"+Itoa(i), num, min(vsym.Param("k"), nval(num)))
		f.Append(s)
		want = append(want, e)
		check(f, want)
	}
}

// Put overwrites entries of a feature in every way.
//
//gosym: C18 quick num=0..1 n=2 ops=1 k=99 nomerge
//gosym: C18 quick num=0..1 n=1 ops=2 k=2 nomerge
//gosym: C18 thorough num=0..1 n=2 ops=2 k=3 nomerge
func Put() {
	num := vsym.Param("num") == 1
	n := vsym.Param("n")
	f := feature(num)
	want := make([]entry, n)
	for i := range want {
		if vsym.Bool("m" + Itoa(i)) {
			f.Append("NA")
			want[i].missing = true
		} else {
			f.Append("1")
			want[i] = entry{text: "1", val: 1}
		}
	}
	for o := 0; o < vsym.Param("ops"); o++ {
		i := vsym.Conc(vsym.Int("at"+Itoa(o), 0, n-1))
		switch vsym.Conc(vsym.Int("op"+Itoa(o), 0, 2)) {
		case 0:
			s, e := text("v"+Itoa(o), num, min(vsym.Param("k"), nval(num)))
			f.PutStr(i, s)
			want[i] = e
		case 1:
			f.PutMissing(i)
			want[i] = entry{missing: true}
		case 2:
			switch g := f.(type) {
			case *CF.DenseNumFeature:
				g.Put(i, 0.1)
				want[i] = entry{val: 0.1}
			case *CF.DenseCatFeature:
				g.Puti(i, g.CatToNum("z"))
				want[i] = entry{text: "z"}
			}
		}
		check(f, want)
	}
}

// Chars appends or puts any text over an alphabet that spells the markers and others.
//
//gosym: C18 quick num=0..1 n=0..2 nomerge
//gosym: C18 quick num=0 n=3 nomerge
//gosym: C18 thorough num=0 n=4 nomerge budget=300
//gosym: C18 thorough num=1 n=3 nomerge budget=300
func Chars() {
	num := vsym.Param("num") == 1
	n := vsym.Param("n")
	alpha := "nNaAuUlL?x"
	if num {
		alpha = "nNaA?1.-"
	}
	s := vsym.Chars("s", n, alpha)
	low := lower(s)
	missing := low == "" || low == "?" || low == "na" || low == "nan" || low == "null"
	f := feature(num)
	if vsym.Bool("put") {
		f.Append("1")
		f.PutStr(0, s)
	} else {
		f.Append(s)
	}
	if !num || missing {
		check(f, []entry{{missing: missing, text: s}})
	} else {
		digits, dots, bad := 0, 0, false
		for i := 0; i < len(s); i++ {
			switch s[i] {
			case '1':
				digits++
			case '.':
				dots++
			case '-':
				bad = bad || i > 0
			default:
				bad = true
			}
		}
		valid := !bad && digits > 0 && dots <= 1
		vsym.Assert(!valid || !f.IsMissing(0), "a number is missing")
	}
}

// Parse reads one feature of a row.
//
//gosym: C18 quick num=0..1 n=2 k=1 nomerge
//gosym: C18 thorough num=0..1 n=3 k=1 nomerge
func Parse() {
	num := vsym.Param("num") == 1
	name := "C:f"
	if num {
		name = "N:f"
	}
	record := []string{name}
	var want []entry
	for i := 0; i < vsym.Param("n"); i++ {
		s, e := text("v"+Itoa(i), num, vsym.Param("k"))
		record = append(record, s)
		want = append(want, e)
	}
	f := CF.ParseFeature(record)
	vsym.Assert(f.GetName() == name, "the feature has another name")
	_, isNum := f.(*CF.DenseNumFeature)
	vsym.Assert(isNum == num, "the feature has another type")
	check(f, want)
}

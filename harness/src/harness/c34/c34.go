// Package c34 checks the command that converts data sets.
package c34

import (
	"strings"

	. "hlib"
	"hmain"
	"vsym"

	toafm "cfmain/toafm"
)

var nums = []string{"1", "2.5", "NA", "0"}
var cats = []string{"a", "b", "NA"}
var bools = []string{"true", "false", "NA"}

// large is a value of a larger data set.
func large(feat string, i int) string {
	v := Scramble(i*31+int(feat[0]), 1, 60)[0]
	switch {
	case v%13 == 5:
		return "NA"
	case strings.Contains("cde", feat):
		return "k" + Itoa(v%12)
	case feat == "b":
		return bools[v%2]
	}
	return []string{"-3", "1000", "0.125", "0", "7", "-0.5"}[v%6]
}

// Convert: every value of a data set is found under its label and feature again.
//
//gosym: C34 quick n=2 feats=xc src={fm|cases|arff} black=0 anon={|x|c} nomerge exitbad
//gosym: C34 quick n=2 feats=xcb src=fm black=1 anon={|c} nomerge exitbad
//gosym: C34 quick n=2 feats=cb src=arff black=1 anon={|c} nomerge exitbad
//gosym: C34 quick n=3 feats=xc src=fm black=0 anon={|c} nomerge exitbad
//gosym: C34 quick n=2 feats=xz src=libsvm black=0 anon= nomerge exitbad
//gosym: C34 thorough n=3 feats=xc src={fm|cases|arff} black=1 anon={|x|c} nomerge exitbad
//gosym: C34 thorough n=3 feats=cb src={fm|cases|arff} black=1 anon={|c} nomerge exitbad
//gosym: C34 thorough n=3 feats=xz src={fm|cases|arff} black=1 anon={|x} nomerge exitbad
//gosym: C34 thorough n=3 feats={xz|xzy} src=libsvm black=0 anon={|x} nomerge exitbad
//gosym: C34 quick n=17 feats=cxydbezhw src={fm|cases|arff} black=1 anon={|y|d} nomerge exitbad
//gosym: C34 quick n=17 feats=vxyzwuspq src=libsvm black=0 anon= nomerge exitbad
//gosym: C34 thorough n=70 feats=cxydbezhw src={fm|cases|arff} black=1 anon={|y|d} nomerge exitbad
func Convert() {
	n := vsym.Param("n")
	src := vsym.ParamStr("src")
	anon := vsym.ParamStr("anon")
	dir := vsym.TempDir()
	var names, full []string // in the file and with their type
	var vals [][]string
	for _, c := range vsym.ParamStr("feats") {
		pal, prefix := nums, "N:"
		switch c {
		case 'c', 'd', 'e':
			pal, prefix = cats, "C:"
		case 'b':
			pal, prefix = bools, "B:"
		}
		col := make([]string, n)
		for i := range col {
			k := len(pal) - 1
			if src == "libsvm" {
				k = 1
			}
			if n > 5 && (i != 3 || c != 'x' && c != 'd') { // two values are free
				col[i] = large(string(c), i)
				if src == "libsvm" {
					col[i] = strings.Replace(col[i], "NA", "12", 1)
					if len(vals) == 0 { // the target is an integer to begin with
						col[i] = Itoa(i % 5)
					}
				}
				continue
			}
			col[i] = pal[vsym.Conc(vsym.Int(string(c)+Itoa(i), 0, k))]
		}
		name := prefix + string(c)
		if src == "arff" || src == "libsvm" {
			name = string(c)
			if src == "arff" && strings.ContainsRune("cybz", c) { // starts like a type without being one
				name = prefix[:1] + name
			}
			names = append(names, name)
			if prefix == "B:" {
				prefix = "C:"
			}
		} else {
			names = append(names, name)
		}
		full = append(full, prefix+strings.TrimPrefix(name, prefix))
		vals = append(vals, col)
	}
	labels := Labels(n)
	file := dir + "data.fm"
	var text string
	switch src {
	case "fm":
		text = ".\t" + strings.Join(labels, "\t") + "\n"
		for f, name := range names {
			text += name + "\t" + strings.Join(vals[f], "\t") + "\n"
		}
	case "cases":
		text = ".\t" + strings.Join(names, "\t") + "\n"
		for i, l := range labels {
			text += l
			for f := range names {
				text += "\t" + vals[f][i]
			}
			text += "\n"
		}
	case "arff":
		file = dir + "data.arff"
		text = "@RELATION r\n"
		for f, name := range names {
			t := "NUMERIC"
			if full[f][0] != 'N' {
				t = "{a,b,k0,k1,k2,k3,k4,k5,k6,k7,k8,k9,k10,k11,true,false}"
			}
			text += "@ATTRIBUTE " + name + " " + t + "\n"
		}
		text += "@DATA\n"
		for i := range labels {
			for f := range names {
				if f > 0 {
					text += ","
				}
				text += strings.Replace(vals[f][i], "NA", "?", 1)
			}
			text += "\n"
			labels[i] = "" // unnamed
		}
	case "libsvm":
		for i := range labels {
			if vals[0][i] == "2.5" {
				vals[0][i] = "3"
			}
		}
		file = dir + "data.libsvm"
		for i := range labels {
			if vsym.Conc(vsym.Int("dot", 0, 1)) == 1 { // the first target tells the type
				full[0] = "N:0"
				vals[0][i] += ".5"
			} else {
				full[0] = "C:0"
			}
			text += vals[0][i]
			for f := 1; f < len(vals); f++ {
				text += " " + Itoa(f) + ":" + vals[f][i]
				full[f] = "N:" + Itoa(f)
			}
			text += "\n"
			labels[i] = ""
		}
	}
	vsym.PutFile(file, text)
	args := []string{"-data", file, "-out", dir + "out.fm"}
	keep := make([]bool, len(names))
	list := ""
	left := 0
	for f, name := range names {
		keep[f] = true
		drop := false
		if vsym.Param("black") == 1 {
			if len(names) > 5 && f != 2 && f != 4 {
				drop = f%4 == 3
			} else {
				drop = vsym.Conc(vsym.Int("black"+Itoa(f), 0, 1)) == 1
			}
		}
		if drop {
			list += name + "\n"
			keep[f] = anon != "" && strings.HasSuffix(name, anon) // the target is never dropped
		}
		if keep[f] {
			left++
		}
	}
	vsym.Assume(left > 0)
	if list != "" {
		vsym.PutFile(dir+"black", "N:none\n"+list)
		args = append(args, "-blacklist", dir+"black")
	}
	target := -1
	for f, name := range names {
		if anon != "" && strings.HasSuffix(name, anon) {
			target = f
			args = append(args, "-anontarget", name)
		}
	}
	hmain.Run(toafm.Main, args...)
	out, ok := vsym.GetFile(dir + "out.fm")
	vsym.Assert(ok, "nothing is written")
	vsym.Log("out", out)
	// what to write
	var wantN []string
	var want [][]string
	for f := range names {
		if keep[f] {
			if f == target {
				target = len(want)
			}
			wantN = append(wantN, full[f])
			want = append(want, vals[f])
		}
	}
	if anon != "" {
		want[0], want[target] = want[target], want[0]
		wantN[0], wantN[target] = wantN[target], wantN[0]
		for f := range want {
			col := append([]string{}, want[f]...)
			if wantN[f][0] != 'N' {
				wantN[f] = "C:" + Itoa(f)
				code := map[string]string{}
				for i, v := range col {
					if v == "NA" {
						continue
					}
					if code[v] == "" {
						code[v] = Itoa(len(code))
					}
					col[i] = code[v]
				}
			} else {
				wantN[f] = "N:" + Itoa(f)
			}
			want[f] = col
		}
		for i := range labels {
			labels[i] = Itoa(i)
		}
	}
	rows := hmain.Table(out)
	ok = len(rows) == 1+len(want) && len(rows[0]) == 1+n
	vsym.Assert(ok, "the table's size is wrong")
	if !ok {
		return
	}
	for i, l := range labels {
		vsym.Assert(l == "" || rows[0][1+i] == l, "a case's label is wrong")
	}
	for f, row := range rows[1:] {
		ok := len(row) == 1+n && row[0] == wantN[f]
		vsym.Assert(ok, "a feature's name is wrong")
		if !ok {
			return
		}
		for i, v := range want[f] {
			vsym.Assert(row[1+i] == v, "a value is wrong")
		}
	}
}

// ToLibSVM: the values written for a target, with missing ones imputed and categories encoded. black
// drops features before, between and behind the others.
//
//gosym: C34 quick n=2 target={N|C} black=0 nomerge exitbad
//gosym: C34 quick n=2 target={N|C} black=1 nomerge exitbad
//gosym: C34 thorough n=3 target={N|C} black=0..1 nomerge exitbad
func ToLibSVM() {
	n := vsym.Param("n")
	black := vsym.Param("black") == 1
	target := vsym.ParamStr("target")
	dir := vsym.TempDir()
	text, tname := ".", target+":y"
	var x, y, c []string
	for i := 0; i < n; i++ {
		text += "\tcase" + Itoa(i)
		x = append(x, nums[vsym.Conc(vsym.Int("x"+Itoa(i), 0, 3))])
		y = append(y, nums[vsym.Conc(vsym.Int("y"+Itoa(i), 0, 1))])
		c = append(c, cats[vsym.Conc(vsym.Int("c"+Itoa(i), 0, 1))])
	}
	known := ""
	for _, v := range x {
		if v != "NA" {
			known = v
		}
	}
	vsym.Assume(known != "" && n < 3 || x[0] != "NA" && x[1] != "NA" && n == 3)
	drop := ""
	row := func(name string, pal []string) {
		if black {
			text += "\n" + name
			for i := 0; i < n; i++ {
				text += "\t" + pal[i%len(pal)]
			}
			if drop += name + "\n"; vsym.Conc(vsym.Int(name, 0, 1)) == 1 {
				drop += name + "\n" // listed twice
			}
		}
	}
	row("N:p", []string{"8", "9"})
	text += "\nN:x\t" + strings.Join(x, "\t")
	row("C:q", cats)
	text += "\n" + tname + "\t" + strings.Join(y, "\t")
	row("N:r", nums[:2])
	if black {
		drop += tname + "\n" // the target stays
	}
	text += "\nC:c\t" + strings.Join(c, "\t") + "\n"
	vsym.PutFile(dir+"data.fm", text)
	args := []string{"-data", dir + "data.fm", "-out", dir + "out", "-libsvmtarget", tname}
	if black {
		vsym.PutFile(dir+"black", drop)
		args = append(args, "-blacklist", dir+"black")
	}
	hmain.Run(toafm.Main, args...)
	out, _ := vsym.GetFile(dir + "out")
	vsym.Log("out", out)
	want := ""
	for i := 0; i < n; i++ {
		if target == "N" {
			want += y[i]
		} else if y[i] == y[0] {
			want += "0"
		} else {
			want += "1"
		}
		v := x[i]
		if v == "NA" {
			v = known
			if n == 3 && x[0] != x[1] { // the mean of the others
				v = mean[x[0]+x[1]]
			}
		}
		if v != "0" {
			want += " 1:" + v
		}
		code := 0
		if c[i] != c[0] {
			code = 1
		}
		if code > 0 {
			want += " 2:1" // two categories share a column
		}
		want += "\n"
	}
	vsym.Assert(out == want, "the libsvm file is wrong")
}

var mean = map[string]string{"12.5": "1.75", "2.51": "1.75", "10": "0.5", "01": "0.5", "2.50": "1.25", "02.5": "1.25"}

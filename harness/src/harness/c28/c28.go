// Package c28 checks the folds written for cross-validation.
package c28

import (
	"strings"

	. "hlib"
	"hmain"
	"vsym"

	nfold "cfmain/nfold"
)

var classes = []string{"a", "b", "d", "NA"}

// Folds: the files written for a target with any classes and every shuffle.
//
//gosym: C28 quick n=3 k={2|3} target={C2|C2m} folds=2..3 flat=0 format=fm opt=none nomerge exitbad
//gosym: C28 quick n=4 k=2 target=C2 folds=2 flat=0 format=fm opt=none nomerge exitbad
//gosym: C28 quick n={3|4} k=2 target={N|none} folds=2..3 flat=0 format=fm opt=none nomerge exitbad
//gosym: C28 quick n=3 k=2 target=C2m folds=2 flat=1 format=fm opt=none nomerge exitbad
//gosym: C28 quick n=3 k=2 target={C2m|N} folds=2 flat=0 format={arff|libsvm|all} opt=none nomerge exitbad
//gosym: C28 quick n=3 k=3 target=C2 folds=2 flat=0 format=libsvm opt=none nomerge exitbad
//gosym: C28 quick n=3 k=2 target={C2|N} folds=2 flat=0 format=fm opt={impute|blacklist|maxcats} nomerge exitbad
//gosym: C28 quick n=4 k=2 target=C2 folds=2 flat=0 format=fm opt=blacklist nomerge exitbad
//gosym: C28 quick n=3 k=2 target=C2 folds=2 flat=0 format=arff opt=impute nomerge exitbad
//gosym: C28 quick n=3 k=2 target=N folds=2 flat=0 format=fm opt={num|onehot} nomerge exitbad
//gosym: C28 quick n=4 k=2 target=C2m folds={2|3} flat=0 format=fm opt=none nomerge exitbad
//gosym: C28 thorough n=5 k=2 target=C2m folds=2..3 flat=0 format={fm|arff} opt=none nomerge exitbad
//gosym: C28 thorough n=5 k=3 target=C2 folds=2..4 flat=0 format=fm opt=none nomerge exitbad
//gosym: C28 thorough n=4 k=3 target=C2m folds=2..3 flat=0..1 format=all opt=none nomerge exitbad
//gosym: C28 thorough n={5|6} k=2 target=N folds=2..4 flat=0 format=fm opt=none nomerge exitbad
//gosym: C28 quick n=2 k=2 target=C2 folds={1|4} flat=0..1 format=fm opt=none nomerge exitbad
//gosym: C28 quick n=24 k=3 target={C2m|C2} folds={3|12} flat=0 format=fm opt=none free=1 nomerge exitbad
//gosym: C28 quick n=24 k=3 target=C2m folds=5 flat=0..1 format=all opt=none free=0 nomerge exitbad
//gosym: C28 quick n=24 k=3 target={N|none} folds={7|11} flat=0 format=fm opt=impute free=1 nomerge exitbad
//gosym: C28 thorough n=40 k=3 target={C2m|C2} folds={3|12} flat=0..1 format=fm opt=none free=1 nomerge exitbad
func Folds() {
	n := vsym.Param("n")
	k := vsym.Param("k")
	kind := vsym.ParamStr("target")
	folds := vsym.Param("folds")
	flat := vsym.Param("flat") == 1
	format := vsym.ParamStr("format")
	opt := vsym.ParamStr("opt")
	dir := vsym.TempDir()

	head, trow, xrow, crow, zrow := ".", "N:t", "N:x", "C:k", "N:z"
	if kind[0] == 'C' {
		trow = "C:t"
	}
	cat := make([]int, n) // class of each case
	for i := 0; i < n; i++ {
		head += "\tcase" + Itoa(i)
		t := Itoa(7 + i)
		if kind[0] == 'C' {
			m := k
			if kind == "C2m" {
				m++
			}
			c := Scramble(i, 1, m)[0]
			if n < 10 || i == 2 {
				c = vsym.Conc(vsym.Int("t"+Itoa(i), 0, m-1))
			}
			if c == k {
				c = 3
			}
			cat[i], t = c, classes[c]
		}
		trow += "\t" + t
		xrow += "\t" + Itoa(i+1)
		crow += "\t" + classes[i%3]
		zrow += "\t" + []string{"2", "NA", "4", "6"}[i%4]
	}
	if opt == "blacklist" || opt == "maxcats" { // a feature before all others is dropped
		head += "\nC:q"
		for i := 0; i < n; i++ {
			q := []string{"p", "q"}[i/2%2]
			if opt == "maxcats" {
				q = Itoa(i)
			}
			head += "\t" + q
		}
	}
	vsym.PutFile(dir+"data.fm", head+"\n"+xrow+"\n"+trow+"\n"+crow+"\n"+zrow+"\n")
	args := []string{"-fm", dir + "data.fm", "-train", dir + "train%v", "-test", dir + "test%v", "-folds", Itoa(folds)}
	if kind != "none" {
		args = append(args, "-target", trow[:3])
	}
	if flat {
		args = append(args, "-unstratified")
	}
	if format != "fm" {
		args = append(args, "-write"+format)
	}
	switch opt {
	case "blacklist":
		vsym.PutFile(dir+"black", "N:z\nC:other\nC:q\n"+trow[:3]+"\n")
		args = append(args, "-blacklist", dir+"black")
	case "maxcats":
		args = append(args, "-maxcats", "2")
	case "none":
	default:
		args = append(args, "-"+opt)
	}
	hmain.Run(nfold.Main, args...)

	stratified := kind[0] == 'C' && !flat
	for _, ext := range []string{"", ".arff", ".libsvm"} {
		if ext == "" && format != "fm" && format != "all" || ext != "" && format != "all" && ext != "."+format {
			_, any := vsym.GetFile(dir + "train0" + ext)
			vsym.Assert(!any, "a format that isn't asked for is written")
			continue
		}
		used := make([]int, n)
		var size, per [16][4]int
		for f := 0; f < folds; f++ {
			test := read(dir+"test"+Itoa(f)+ext, ext, n, trow, crow, zrow, opt, kind, cat)
			train := read(dir+"train"+Itoa(f)+ext, ext, n, trow, crow, zrow, opt, kind, cat)
			for i := 0; i < n; i++ {
				if n < 10 {
					vsym.Log("fold", ext+Itoa(f)+":"+Itoa(test[i])+Itoa(train[i]))
				}
				used[i] += test[i]
				size[f][0] += test[i]
				per[f][cat[i]] += test[i]
				all := 1
				if stratified && cat[i] == 3 {
					all = 0
				}
				vsym.Assert(test[i]+train[i] == all, "a case isn't once in a fold's training or testing file")
			}
		}
		for i := 0; i < n; i++ {
			if stratified && cat[i] == 3 {
				continue
			}
			vsym.Assert(used[i] == 1, "a case isn't in one testing file")
		}
		for f := 0; f < folds; f++ {
			for g := 0; g < folds; g++ {
				if stratified {
					for c := 0; c < k; c++ {
						vsym.Assert(per[f][c]-per[g][c] <= 1, "a class isn't balanced between the folds")
					}
				} else {
					vsym.Assert(size[f][0]-size[g][0] <= 1, "the folds' sizes aren't balanced")
				}
			}
		}
	}
}

func field(row string, i int) string { return strings.Split(row, "\t")[i+1] }

// read counts how often each case is in a file and checks its values.
func read(name, ext string, n int, trow, crow, zrow, opt, kind string, cat []int) []int {
	count := make([]int, n)
	text, ok := vsym.GetFile(name)
	vsym.Assert(ok, "a file isn't written")
	var lines []string
	switch ext {
	case "":
		rows := hmain.Table(text)
		vsym.Assert(len(rows) > 1, "a file has no rows")
		if len(rows) < 2 {
			return count
		}
		want := map[string]bool{"N:x": true, trow[:3]: true}
		if opt != "blacklist" {
			want["N:z"] = true
		}
		if opt == "num" || opt == "onehot" {
			for c := 0; c < 3; c++ {
				want["C:k=="+classes[c]] = true
			}
		} else if opt != "maxcats" {
			want["C:k"] = true
		}
		got := 0
		for r := 1; r < len(rows); r++ {
			vsym.Assert(len(rows[r]) == len(rows[0]), "a row's length differs")
			if want[rows[r][0]] {
				got++
			}
		}
		vsym.Assert(got == len(want) && len(rows) == 1+got, "the features aren't those to be written")
		for j := 1; j < len(rows[0]); j++ {
			i := -1
			for c := 0; c < n; c++ {
				if rows[0][j] == "case"+Itoa(c) {
					i = c
				}
			}
			vsym.Assert(i >= 0, "a case is unknown")
			if i < 0 {
				return count
			}
			count[i]++
			for r := 1; r < len(rows); r++ {
				v := rows[r][j]
				switch rows[r][0] {
				case "N:x":
					vsym.Assert(v == Itoa(i+1), "a value is wrong")
				case "C:k":
					vsym.Assert(v == field(crow, i), "a category is wrong")
				case "N:z":
					w := field(zrow, i)
					if opt == "impute" && w == "NA" {
						w = "3"
						if n%4 == 0 {
							w = "4"
						}
					}
					vsym.Assert(v == w, "a value that may be missing is wrong")
				case "C:k==a", "C:k==b", "C:k==d":
					w := "0"
					is := rows[r][0][5:] == field(crow, i)
					if is {
						w = "1"
					}
					if opt == "onehot" {
						w = "false"
						if is {
							w = "true"
						}
					}
					vsym.Assert(v == w, "an encoded category is wrong")
				default:
					w := field(trow, i)
					if !(opt == "impute" && w == "NA") {
						vsym.Assert(v == w, "a target is wrong")
					}
				}
			}
		}
		return count
	case ".arff":
		_, data, ok := strings.Cut(text, "@DATA\n")
		vsym.Assert(ok, "an arff file has no data")
		lines = strings.Split(data, "\n")
	case ".libsvm":
		lines = strings.Split(text, "\n")
	}
	vsym.Assert(lines[len(lines)-1] == "", "a line doesn't end")
	code := make([]string, n) // of each case's target, in the order of appearance of the classes
	next := 0
	for i := range code {
		code[i] = field(trow, i)
		if kind[0] == 'C' && ext == ".libsvm" {
			code[i] = ""
			for j := 0; j < i; j++ {
				if cat[j] == cat[i] {
					code[i] = code[j]
				}
			}
			if code[i] == "" && cat[i] != 3 {
				code[i] = Itoa(next)
				next++
			}
		} else if code[i] == "NA" {
			code[i] = "?"
		}
	}
	for _, l := range lines[:len(lines)-1] {
		i := -1
		for c := 0; c < n; c++ {
			if ext == ".arff" && strings.HasPrefix(l, Itoa(c+1)+",") || strings.Contains(l, " 1:"+Itoa(c+1)+" ") {
				i = c
			}
		}
		vsym.Assert(i >= 0, "a case is unknown")
		if i < 0 {
			return count
		}
		count[i]++
		if ext == ".arff" {
			z := field(zrow, i)
			if z == "NA" {
				z = "?"
				if opt == "impute" {
					z = "3"
				}
			}
			vsym.Assert(l == Itoa(i+1)+","+code[i]+","+field(crow, i)+","+z, "a line of an arff file is wrong")
			continue
		}
		z := field(zrow, i)
		if z == "NA" {
			z = "3"
			if n%4 == 0 {
				z = "4"
			}
		}
		col := 5
		want := " 1:" + Itoa(i+1) + " " + Itoa(2+i%3) + ":1 " + Itoa(col) + ":" + z
		if n < 3 {
			continue
		}
		sp := strings.Index(l, " ")
		vsym.Assert(l[sp:] == want, "a line of a libsvm file is wrong")
		if code[i] != "" {
			vsym.Assert(l[:sp] == code[i], "a target of a libsvm file is wrong")
		}
	}
	return count
}

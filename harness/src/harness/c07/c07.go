// Package c07 compares incremental and direct split impurities.
package c07

import (
	. "hlib"
	"vsym"
)

var lists = [][]int{{0, 1, 2}, {3, 1, 0, 2}, {0, 1, 1, 2, 2}, {4, 2, 0, 1, 3}, {0, 0, 1, 2, 3, 1}}

func rows(list []int) int {
	n := 0
	for _, c := range list {
		n = max(n, c+1)
	}
	return n
}

// Sweep moves batches of cases from right to left, as a numeric sweep does: the number of cases in
// each batch is symbolic. With miss some further cases are missing throughout.
//
//gosym: C07 quick list={0|1|2} nc=2 miss=0 t={num|l1|ord|numada|gradboost|cat|entropy|dentropy|wrf|regret|np|np0|ada|adacost|hdist} nomerge
//gosym: C07 quick list={0|1} nc=2 miss=0 t={trans|density} nomerge
//gosym: C07 quick list=0 nc=2 miss=2 t={num|l1|ord|numada|cat|entropy|dentropy|wrf|regret|np|np0|ada|adacost} nomerge
//gosym: C07 thorough list={3|4} nc=3 miss=0 t={num|l1|ord|numada|gradboost|cat|entropy|dentropy|wrf|regret|np|np0|ada|adacost} nomerge
//gosym: C07 thorough list={1|2} nc=2 miss=2 t={num|l1|ord|numada|cat|entropy|dentropy|wrf|regret|np|np0|ada|adacost} nomerge
func Sweep() {
	list := lists[vsym.Param("list")]
	n := rows(list)
	nm := vsym.Param("miss")
	nc := vsym.Param("nc")
	t := Target(vsym.ParamStr("t"), n+nm, []float64{0, 1, -3}, nc)
	if t.Kind == "hdist" {
		// defined for targets with both classes
		a, b := false, false
		for _, c := range list {
			a = vsym.Or(a, t.Cat.CatData[c] == 0)
			b = vsym.Or(b, t.Cat.CatData[c] == 1)
		}
		vsym.Assume(vsym.And(a, b))
	}
	var m *[]int
	if nm > 0 {
		ms := []int{}
		for i := 0; i < nm; i++ {
			ms = append(ms, n+i)
		}
		m = &ms
	}
	a := Allocs(n+nm+len(list), t.Target)
	last := 0
	for i := 1; i < len(list); i++ {
		if !vsym.Bool("stop" + Itoa(i)) {
			continue
		}
		l, r, moved := list[:i], list[i:], list[last:i]
		var v float64
		if last == 0 {
			v = t.SplitImpurity(&l, &r, m, a)
		} else {
			v = t.UpdateSImpFromAllocs(&l, &r, m, a, &moved)
			vsym.Cover("updated")
		}
		last = i
		b := Allocs(n+nm+len(list), t.Target)
		l2, r2 := append([]int{}, list[:i]...), append([]int{}, list[i:]...)
		w := t.SplitImpurity(&l2, &r2, m, b)
		vsym.Log("v", v)
		vsym.Assert(vsym.Or(vsym.Same(v, w), Near(v, w)), "the incremental impurity differs from the direct one")
		// the sides in another order give the same
		l3, r3 := rev(l2), rev(r2)
		x := t.SplitImpurity(&l3, &r3, m, b)
		vsym.Assert(vsym.Or(vsym.Same(x, w), Near(x, w)), "the impurity depends on the order of the cases")
	}
}

func rev(s []int) []int {
	r := []int{}
	for i := len(s) - 1; i >= 0; i-- {
		r = append(r, s[i])
	}
	return r
}

// Weighted: a split whose right side is handed to the impurity on its own agrees with the weighted
// sum of the sides' impurities.
//
//gosym: C07 quick list={0|1|2} nc=3 t={num|l1|ord|numada|cat|entropy|dentropy|wrf|regret|np|np0|ada|adacost} nomerge
//gosym: C07 quick list={0|1} nc=2 t={trans|density} nomerge
//gosym: C07 thorough list=2 nc=3 t={trans|density} nomerge
//gosym: C07 thorough list={3|4} nc=3 t={num|l1|ord|numada|cat|entropy|dentropy|wrf|regret|np|np0|ada|adacost} nomerge
func Weighted() {
	list := lists[vsym.Param("list")]
	n := rows(list)
	t := Target(vsym.ParamStr("t"), n, []float64{0, 1, -3}, vsym.Param("nc"))
	a := Allocs(n+len(list), t.Target)
	i := vsym.Conc(vsym.Int("cut", 1, len(list)-1))
	j := vsym.Conc(vsym.Int("cut2", 1, len(list)))
	if j < i || j == len(list) && i == len(list) {
		return
	}
	l, m, r := list[:i], list[i:j], list[j:]
	if len(r) == 0 {
		r, m = m, nil
	}
	var mp *[]int
	if len(m) > 0 {
		mp = &m
		vsym.Cover("missing")
	}
	if len(r) == 0 {
		return
	}
	w := float64(len(l))*t.Impurity(&l, a.Counter) + float64(len(r))*t.Impurity(&r, a.Counter)
	if mp != nil {
		w += float64(len(m)) * t.Impurity(mp, a.Counter)
	}
	w /= float64(len(list))
	v := t.SplitImpurity(&l, &r, mp, a)
	vsym.Log("v", v)
	vsym.Assert(vsym.Or(vsym.Same(v, w), Near(v, w)), "the split impurity is not the weighted sum of the sides' impurities")
}

// Long moves many cases in a few batches whose ends are symbolic.
//
//gosym: C07 quick n=24 nc=3 miss={0|5} t={num|l1|ord|numada|cat|entropy|dentropy|wrf|regret|np|np0|ada|adacost} nomerge covers=updated
//gosym: C07 quick n=24 nc=2 miss=0 t={gradboost|hdist} nomerge covers=updated
//gosym: C07 thorough n=60 nc=4 miss={0|9} t={num|l1|ord|numada|cat|entropy|dentropy|wrf|regret|np|np0|ada|adacost} nomerge covers=updated
func Long() {
	n, nm := vsym.Param("n"), vsym.Param("miss")
	t := ManyTarget(vsym.ParamStr("t"), n, 1, vsym.Param("nc"))
	list := append(Scramble(5, n-nm, n-nm), Seq(n-nm)...)
	var m *[]int
	if nm > 0 {
		ms := []int{}
		for i := n - nm; i < n; i++ {
			ms = append(ms, i)
		}
		m = &ms
	}
	a := Allocs(2*n, t.Target)
	last := 0
	for _, at := range []int{1, 2, n / 2, n / 3 * 2, n, len(list) - 2, len(list) - 1} {
		i := at
		if last > 0 && i < len(list)-1 && !vsym.Bool("stop"+Itoa(at)) {
			continue
		}
		l, r, moved := list[:i], list[i:], list[last:i]
		var v float64
		if last == 0 {
			v = t.SplitImpurity(&l, &r, m, a)
		} else {
			v = t.UpdateSImpFromAllocs(&l, &r, m, a, &moved)
			vsym.Cover("updated")
		}
		last = i
		b := Allocs(2*n, t.Target)
		l2, r2 := rev(list[:i]), rev(list[i:])
		w := t.SplitImpurity(&l2, &r2, m, b)
		vsym.Assert(vsym.Or(vsym.Same(v, w), Near(v, w)), "the incremental impurity differs from the direct one")
	}
}

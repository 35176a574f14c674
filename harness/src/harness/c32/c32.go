// Package c32 checks the test that compares importances with those of contrasts.
package c32

import (
	"math"

	"github.com/ryanbressler/CloudForest/stats"
	. "hlib"
	"vsym"
)

var pal = []float64{0, 0.5, 2, 3.25, 10}

// sample is a list of n values of a palette, each repeated; the first left ones are explored one by one.
func sample(name string, n, k, repeat int, left int) []float64 {
	var out []float64
	for i := 0; i < n; i++ {
		v := pal[0]
		if left > 0 {
			v = pal[vsym.Conc(vsym.Int(name+Itoa(i), 0, k-1))] // one path each
			left--
		} else {
			v = vsym.Float(name+Itoa(i), pal[:k]...)
		}
		for j := 0; j < repeat; j++ {
			out = append(out, v)
		}
	}
	return out
}

func mean(x []float64) float64 {
	s := 0.0
	for _, v := range x {
		s += v
	}
	return s / float64(len(x))
}

// spread is the unbiased variance.
func spread(x []float64) float64 {
	m, s := mean(x), 0.0
	for _, v := range x {
		s += (v - m) * (v - m)
	}
	return s / float64(len(x)-1)
}

func near(a, b, eps float64) bool {
	d := math.Abs(a - b)
	return vsym.Or(a == b, d <= eps*(1+math.Abs(b)))
}

// Welch: the statistic, degrees of freedom, mean and tail.
//
//gosym: C32 quick a=2..3 b=2..3 k=3 repeat=1 nomerge fork=1
//gosym: C32 quick a=2 b=2 k=4 repeat=3 nomerge fork=2
//gosym: C32 thorough a=3..4 b={1|2|3} k=3 repeat=2 nomerge fork=3 budget=200
//gosym: C32 thorough a=2 b=2 k=5 repeat={1|2|5} nomerge fork=2 budget=200
//gosym: C32 thorough a=2 b=3 k=3 repeat=25 nomerge fork=2 budget=200
//gosym: C32 thorough a=1 b=5 k=3 repeat=3 nomerge fork=3 budget=200
//gosym: C32 thorough a=3 b=3 k=4 repeat={1|4} nomerge fork=4 budget=300
func Welch() {
	a := sample("a", vsym.Param("a"), vsym.Param("k"), vsym.Param("repeat"), vsym.Param("fork"))
	b := sample("b", vsym.Param("b"), vsym.Param("k"), vsym.Param("repeat"), vsym.Param("fork")-len(a)/vsym.Param("repeat"))
	va, vb := spread(a), spread(b)
	vsym.Assume(va+vb > 0)
	p, t, v, am := stats.Ttest(&a, &b)
	vsym.Log("p", p)
	vsym.Assert(near(am, mean(a), 1e-9), "the mean isn't that of the first sample")
	sa, sb := va/float64(len(a)), vb/float64(len(b))
	wt := (mean(a) - mean(b)) / math.Sqrt(sa+sb)
	wv := (sa + sb) * (sa + sb) / (sa*sa/float64(len(a)-1) + sb*sb/float64(len(b)-1))
	vsym.Assert(near(t, wt, 1e-9), "the statistic isn't Welch's")
	vsym.Assert(near(v, wv, 1e-9), "the degrees of freedom aren't Welch's")
	vsym.Assert(vsym.And(p >= 0, p <= 1), "the p-value isn't a probability")
	vsym.Assert(near(p, Tail(wt, wv), 1e-6), "the p-value isn't the tail of the t distribution")
	q, _, _, _ := stats.Ttest(&b, &a)
	vsym.Assert(near(p+q, 1, 1e-9), "swapping the samples doesn't complement the p-value")
}

// Tail is the upper tail of Student's t distribution with v >= 1 degrees of freedom.
func Tail(t, v float64) float64 {
	angle := math.Atan2(math.Sqrt(v), math.Abs(t))
	p := part(angle, v) / part(math.Pi/2, v) / 2
	return vsym.IteF(t >= 0, p, 1-p)
}

// part is the integral of sin(x)^(v-1) from 0 to an angle, by tanh-sinh quadrature.
func part(angle, v float64) float64 {
	const h = 1.0 / 8
	sum := 0.0
	for k := -26; k <= 26; k++ {
		y := h * float64(k)
		e := math.Exp(math.Pi * math.Sinh(y))
		u := e / (1 + e) // within 0..1
		w := math.Pi * math.Cosh(y) * u / (1 + e) * h
		if w > 1e-14 {
			sum += w * math.Pow(math.Sin(angle*u), v-1)
		}
	}
	return sum * angle
}

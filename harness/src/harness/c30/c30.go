// Package c30 checks counts given as a number or a fraction of a total.
package c30

import (
	CF "github.com/ryanbressler/CloudForest"
	"math"
	"vsym"
)

// number reads [+-]digits[.digits] with at least one digit, which it returns as digits and a power of ten
// they are to be divided by. Reports false for any other text.
func number(s string) (neg bool, digits, power int, dot, ok bool) {
	power = 1
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case (c == '+' || c == '-') && i == 0:
			neg = c == '-'
		case c == '.' && !dot:
			dot = true
		case c >= '0' && c <= '9':
			ok = true
			digits = digits*10 + int(c-'0')
			if dot {
				power *= 10
			}
		default:
			return false, 0, 1, dot, false
		}
	}
	return
}

// octal tells whether a whole number starts with a zero, which makes it octal.
func octal(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == '0' && i+1 < len(s) {
			return true
		}
		if s[i] != '+' && s[i] != '-' {
			return false
		}
	}
	return false
}

func check(s string, total int, got int) {
	neg, digits, power, dot, ok := number(s)
	switch {
	case !ok:
		vsym.Assert(got == 0, "text that isn't a number doesn't count as zero")
	case !dot:
		if neg {
			digits = -digits
		}
		vsym.Assert(octal(s) || got == digits, "a whole number isn't the count")
	default:
		p := float64(digits) / float64(power) * float64(total)
		if neg {
			p = -p
		}
		g := float64(got)
		vsym.Assert(vsym.And(g >= p, g-1 < p), "a fraction isn't that fraction of the total, rounded up")
		vsym.Assert(vsym.Implies(!neg && digits > 0 && total > 0, got >= 1), "a positive fraction counts as nothing")
	}
}

// Text is every text of a length over an alphabet.
//
//gosym: C30 quick n=0..2 abc=0 total=30 nomerge
//gosym: C30 quick n=3 abc=1..2 total=30 nomerge
//gosym: C30 thorough n=3 abc=0 total=63 nomerge
//gosym: C30 thorough n=4 abc=1..2 total=30 nomerge
//gosym: C30 thorough n=5 abc=2 total=1 nomerge
func Text() {
	n := vsym.Param("n")
	s := vsym.Chars("text", n, []string{"0123456789.+- z/", "1058.-", "039."}[vsym.Param("abc")])
	b := []byte(s)
	for i := range b {
		b[i] = byte(vsym.Conc(int(b[i])))
	}
	total := vsym.Int("total", 0, vsym.Param("total"))
	got := CF.ParseAsIntOrFractionOfTotal(string(b), total)
	vsym.Log("parsed", got)
	check(string(b), total, got)
}

var terms = []string{"1", "70", "2147483648", "9223372036854775807", "-3", "0.5", ".25", "1.0", "0.1", "0.333", "2.5", "1.", "0.0001", "0.99999", ".", "blah.7", "1.2.3", "1,5"}

// Total is any total up to a power of two, for typical terms.
//
//gosym: C30 quick term=0..17 bits={10|20|40} nomerge
//gosym: C30 thorough term=0..17 bits=53 nomerge
func Total() {
	term := terms[vsym.Param("term")]
	total := vsym.AnyInt("total", 0, 1<<vsym.Param("bits"))
	got := CF.ParseAsIntOrFractionOfTotal(term, total)
	neg, digits, power, dot, ok := number(term)
	if !ok || !dot {
		check(term, total, got)
		return
	}
	p := float64(digits) / float64(power) * float64(total)
	vsym.Assert(!neg && got == int(math.Ceil(p)), "a fraction isn't that fraction of the total, rounded up")
}

package main

import (
	"math/rand"
	"strings"
)

// RX is a regular expression as a syntax tree (see spec/Regex.tla).
type RX struct {
	K  string   `json:"k"`
	C  string   `json:"c,omitempty"`
	Cs []string `json:"cs,omitempty"`
	Xs []*RX    `json:"xs,omitempty"`
	X  *RX      `json:"x,omitempty"`
	N  int      `json:"n,omitempty"`
	t  string   // preferred rendering
}

// RXE is a table entry: the tree and its number of groups.
type RXE struct {
	A  *RX  `json:"a"`
	N  int  `json:"n"`
	Ok bool `json:"ok"` // it compiles
}

func lit(c string) *RX  { return &RX{K: "lit", C: c} }
func cat(xs ...*RX) *RX { return &RX{K: "cat", Xs: xs} }
func word(s string) *RX {
	x := cat()
	for _, c := range s {
		x.Xs = append(x.Xs, lit(string(c)))
	}
	return x
}
func digits() *RX {
	return &RX{K: "cls", Cs: strings.Split("0123456789", ""), t: `[0-9]`}
}

func (x *RX) text() string {
	switch x.K {
	case "lit":
		if strings.ContainsAny(x.C, `.+*?()|[]{}^$\`) {
			return `\` + x.C
		}
		return x.C
	case "cls":
		if x.t != "" {
			return x.t
		}
		return "[" + strings.Join(x.Cs, "") + "]"
	case "ncls":
		return "[^" + strings.Join(x.Cs, "") + "]"
	case "any":
		return "."
	case "bol":
		return "^"
	case "eol":
		return "$"
	case "cat":
		s := ""
		for _, y := range x.Xs {
			s += y.text()
		}
		return s
	case "alt":
		l := []string{}
		for _, y := range x.Xs {
			l = append(l, y.text())
		}
		return strings.Join(l, "|")
	case "star":
		return x.X.text() + "*"
	case "plus":
		return x.X.text() + "+"
	case "opt":
		return x.X.text() + "?"
	case "grp":
		return "(" + x.X.text() + ")"
	case "ncg":
		return "(?:" + x.X.text() + ")"
	}
	panic(x.K)
}

// atom is a single-character expression.
func rxAtom(r *rand.Rand) *RX {
	switch r.Intn(6) {
	case 0:
		return digits()
	case 1:
		return &RX{K: "cls", Cs: strings.Split("0123456789", ""), t: `\d`}
	case 2:
		return &RX{K: "any"}
	case 3:
		return &RX{K: "ncls", Cs: []string{"a", "1"}}
	case 4:
		return &RX{K: "cls", Cs: []string{"a", "b"}}
	default:
		return lit(pick(r, "a", "b", "z", "7", "0", "-", ":", "_", ".", "("))
	}
}

// rxBody is what may stand inside a group.
func rxBody(r *rand.Rand) *RX {
	switch r.Intn(7) {
	case 0:
		if r.Intn(3) == 0 { // one begins the other: the first of the two in the text wins
			w := pick(r, "ab", "70", "x1", "aba", "7-7")
			a, b := word(w[:1]), word(w)
			if r.Intn(3) == 0 {
				a, b = b, a
			}
			return &RX{K: "alt", Xs: []*RX{a, b}}
		}
		return &RX{K: "alt", Xs: []*RX{word(pick(r, "a", "70", "x1")), word(pick(r, "b", "80", "x"))}}
	case 6:
		return cat(&RX{K: "opt", X: &RX{K: "ncg", X: word(pick(r, "ab", "7", "v1"))}}, rxAtom(r))
	case 1:
		return &RX{K: "plus", X: rxAtom(r)}
	case 2:
		return &RX{K: "star", X: rxAtom(r)}
	case 3:
		return cat(rxAtom(r), &RX{K: "opt", X: rxAtom(r)})
	case 4:
		return word(pick(r, "a", "b", "a:b", "7", "70"))
	default:
		return &RX{K: "plus", X: digits()}
	}
}

// rxGen makes an expression with n groups (n >= 1), or, when n == 0, one without groups.
func rxGen(r *rand.Rand, n int) *RX {
	if n == 0 {
		if r.Intn(4) == 0 {
			return &RX{K: "alt", Xs: []*RX{word(pick(r, "7", "a")), word(pick(r, "70", "ab", "a-"))}}
		}
		if r.Intn(2) == 0 {
			return &RX{K: "alt", Xs: []*RX{word(pick(r, "70", "a", "ab")), word(pick(r, "80", "b", "7"))}}
		}
		x := cat()
		if r.Intn(2) == 0 {
			x.Xs = append(x.Xs, &RX{K: "bol"})
		}
		x.Xs = append(x.Xs, rxNoGroup(r))
		if r.Intn(2) == 0 {
			x.Xs = append(x.Xs, &RX{K: "eol"})
		}
		return x
	}
	if n == 2 && r.Intn(4) == 0 { // one of the groups takes no part
		return &RX{K: "alt", Xs: []*RX{
			cat(lit("a"), &RX{K: "grp", N: 1, X: &RX{K: "plus", X: digits()}}),
			cat(lit("b"), &RX{K: "grp", N: 2, X: &RX{K: "plus", X: digits()}})}}
	}
	x := cat()
	if r.Intn(3) == 0 {
		x.Xs = append(x.Xs, &RX{K: "bol"})
	}
	for i := 1; i <= n; i++ {
		if r.Intn(3) == 0 {
			x.Xs = append(x.Xs, lit(pick(r, "z", "h", "-", "v")))
		}
		x.Xs = append(x.Xs, &RX{K: "grp", N: i, X: rxBody(r)})
	}
	if r.Intn(4) == 0 {
		x.Xs = append(x.Xs, lit(pick(r, "b", "e")))
	}
	if r.Intn(3) == 0 {
		x.Xs = append(x.Xs, &RX{K: "eol"})
	}
	return x
}

func rxNoGroup(r *rand.Rand) *RX {
	switch r.Intn(3) {
	case 0:
		return &RX{K: "plus", X: rxAtom(r)}
	case 1:
		return cat(word(pick(r, "a", "v", "70")), &RX{K: "star", X: digits()})
	default:
		return word(pick(r, "a", "ab", "70"))
	}
}

// sample returns a string the expression is likely to match.
func (x *RX) sample(r *rand.Rand) string {
	switch x.K {
	case "lit":
		return x.C
	case "cls":
		return x.Cs[r.Intn(len(x.Cs))]
	case "ncls":
		return pick(r, "c", "2", "q")
	case "any":
		return pick(r, "a", "5", ".")
	case "cat":
		s := ""
		for _, y := range x.Xs {
			s += y.sample(r)
		}
		return s
	case "alt":
		return x.Xs[r.Intn(len(x.Xs))].sample(r)
	case "star", "plus":
		s, n := "", r.Intn(3)
		if x.K == "plus" {
			n++
		}
		for i := 0; i < n; i++ {
			s += x.X.sample(r)
		}
		return s
	case "opt":
		if r.Intn(2) == 0 {
			return ""
		}
		return x.X.sample(r)
	case "grp", "ncg":
		return x.X.sample(r)
	}
	return ""
}

func pick(r *rand.Rand, xs ...string) string { return xs[r.Intn(len(xs))] }

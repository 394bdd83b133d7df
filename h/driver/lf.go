package main

import (
	"math/rand"
	"regexp"
	"strings"
)

// LF is an abstract label filter: reference semantics by direct recursion, and a printer that varies spelling.
type LF struct {
	Op   string // label re not and or isEmpty containsAny containsAll consistsOf isSubsetOf
	L    string
	Vals []string
	A, B *LF
}

func (f *LF) Eval(labels []string) bool {
	switch f.Op {
	case "label":
		for _, l := range labels {
			if strings.EqualFold(strings.TrimSpace(l), strings.TrimSpace(f.L)) {
				return true
			}
		}
		return false
	case "re":
		re := regexp.MustCompile(f.L)
		for _, l := range labels {
			if re.MatchString(l) {
				return true
			}
		}
		return false
	case "not":
		return !f.A.Eval(labels)
	case "and":
		return f.A.Eval(labels) && f.B.Eval(labels)
	case "or":
		return f.A.Eval(labels) || f.B.Eval(labels)
	}
	set := map[string]bool{}
	for _, l := range labels {
		k, v, ok := strings.Cut(l, ":")
		if ok && strings.EqualFold(strings.TrimSpace(k), strings.TrimSpace(f.L)) {
			set[strings.ToLower(strings.TrimSpace(v))] = true
		}
	}
	want := map[string]bool{}
	for _, v := range f.Vals {
		want[strings.ToLower(strings.TrimSpace(v))] = true
	}
	subset := func(a, b map[string]bool) bool {
		for x := range a {
			if !b[x] {
				return false
			}
		}
		return true
	}
	switch f.Op {
	case "isEmpty":
		return len(set) == 0
	case "containsAny":
		for x := range want {
			if set[x] {
				return true
			}
		}
		return false
	case "containsAll":
		return subset(want, set)
	case "consistsOf":
		return subset(want, set) && subset(set, want)
	case "isSubsetOf":
		return subset(set, want)
	}
	panic(f.Op)
}

func recase(r *rand.Rand, s string) string {
	switch r.Intn(4) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	}
	return s
}

// Print renders the filter; prec is the precedence of the context (0 or, 1 and, 2 not).
func (f *LF) Print(r *rand.Rand, prec int) string {
	sp := func() string { return strings.Repeat(" ", r.Intn(3)) }
	paren := func(s string) string { return "(" + sp() + s + sp() + ")" }
	out := ""
	my := 3
	switch f.Op {
	case "label":
		out = recase(r, f.L)
	case "re":
		out = "/" + f.L + "/"
	case "not":
		my = 2
		out = "!" + sp() + f.A.Print(r, 2)
	case "and":
		my = 1
		out = f.A.Print(r, 1) + sp() + "&&" + sp() + f.B.Print(r, 2-r.Intn(1))
		// right operand printed with higher precedence so that associativity does not matter for the text
	case "or":
		my = 0
		op := "||"
		if r.Intn(2) == 0 {
			op = ","
		}
		out = f.A.Print(r, 0) + sp() + op + sp() + f.B.Print(r, 1)
	default:
		op := recase(r, f.Op)
		out = recase(r, f.L) + ": " + sp() + op
		if f.Op != "isEmpty" {
			if len(f.Vals) == 1 && r.Intn(2) == 0 {
				out += " " + sp() + recase(r, f.Vals[0])
			} else {
				var vs []string
				for _, v := range f.Vals {
					vs = append(vs, sp()+recase(r, v)+sp())
				}
				out += " " + sp() + "{" + strings.Join(vs, ",") + "}"
			}
		} else {
			out += " " // the operator ends at a blank
		}
	}
	if my < prec || r.Intn(8) == 0 {
		out = paren(out)
	}
	if prec == 0 && r.Intn(10) == 0 {
		out = sp() + out + sp()
	}
	return out
}

type lfGen struct {
	labels []string
	keys   []string
	vals   []string
	res    []string
}

func (g *lfGen) gen(r *rand.Rand, depth int) *LF {
	if depth <= 0 || r.Intn(10) < 3 {
		switch k := r.Intn(10); {
		case k < 5:
			l := g.labels[r.Intn(len(g.labels))]
			for strings.Contains(l, ": ") { // the literal syntax cannot spell these
				l = g.labels[r.Intn(len(g.labels))]
			}
			return &LF{Op: "label", L: l}
		case k < 6 && len(g.res) > 0:
			return &LF{Op: "re", L: g.res[r.Intn(len(g.res))]}
		default:
			ops := []string{"isEmpty", "containsAny", "containsAll", "consistsOf", "isSubsetOf"}
			f := &LF{Op: ops[r.Intn(5)], L: g.keys[r.Intn(len(g.keys))]}
			if f.Op != "isEmpty" {
				n := 1 + r.Intn(3)
				seen := map[string]bool{}
				for i := 0; i < n; i++ {
					v := g.vals[r.Intn(len(g.vals))]
					if seen[v] && r.Intn(4) > 0 {
						continue
					}
					seen[v] = true
					f.Vals = append(f.Vals, v)
				}
			}
			return f
		}
	}
	switch r.Intn(5) {
	case 0:
		return &LF{Op: "not", A: g.gen(r, depth-1)}
	case 1, 2:
		return &LF{Op: "and", A: g.gen(r, depth-1), B: g.gen(r, depth-1)}
	}
	return &LF{Op: "or", A: g.gen(r, depth-1), B: g.gen(r, depth-1)}
}

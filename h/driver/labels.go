package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/onsi/ginkgo/v2/types"
)

func tryFilter(text string, sets [][]string) (accepted bool, out []bool, pan string) {
	defer func() {
		if e := recover(); e != nil {
			pan = fmt.Sprint(e)
		}
	}()
	f, err := types.ParseLabelFilter(text)
	if err != nil {
		return false, nil, ""
	}
	accepted = true
	for _, s := range sets {
		a := f(s)
		if f(s) != a {
			pan = "evaluating twice gives different results"
		}
		out = append(out, a)
	}
	return
}

// tok is a token of the soup generator with its reference meaning.
type tok struct {
	k  string // a atom, ! & | ( )
	t  string
	lf *LF
}

type rdp struct {
	ts []tok
	i  int
}

func (p *rdp) peek() string {
	if p.i < len(p.ts) {
		return p.ts[p.i].k
	}
	return ""
}
func (p *rdp) or() *LF {
	a := p.and()
	for a != nil && p.peek() == "|" {
		p.i++
		b := p.and()
		if b == nil {
			return nil
		}
		a = &LF{Op: "or", A: a, B: b}
	}
	return a
}
func (p *rdp) and() *LF {
	a := p.not()
	for a != nil && p.peek() == "&" {
		p.i++
		b := p.not()
		if b == nil {
			return nil
		}
		a = &LF{Op: "and", A: a, B: b}
	}
	return a
}
func (p *rdp) not() *LF {
	switch p.peek() {
	case "!":
		p.i++
		if a := p.not(); a != nil {
			return &LF{Op: "not", A: a}
		}
		return nil
	case "(":
		p.i++
		a := p.or()
		if a == nil || p.peek() != ")" {
			return nil
		}
		p.i++
		return a
	case "a":
		p.i++
		return p.ts[p.i-1].lf
	}
	return nil
}

func parseSoup(ts []tok) *LF {
	p := &rdp{ts: ts}
	if a := p.or(); a != nil && p.i == len(ts) {
		return a
	}
	return nil
}

var soupAlphabet = []rune("ab:{},&|!()/ \\.*[]^$éßA\t\n0\"'-_\x00")

func checkLabels(c *Ctx) {
	lg := &lfGen{labels: labelPool, keys: []string{"API", "tier", "api", "none", "k-1"}, vals: []string{"geo", "Shelf", "1", "two", "x y"}, res: []string{"^a", "s.*w", "[A-Z]", "o$", `a\b`, "(?i)NET", "."}}
	pool := append(append([]string{}, labelPool...), "k-1:x y", "none:", "K-1: 1", "::", "API", "tier", "two", "1", "TIER:ONE")
	n := N(400000, 20000000)
	parallelDo(workers()*4, workers(), func(w int) {
		r := rng("C08", w)
		for k := 0; k < n/(workers()*4); k++ {
			var sets [][]string
			for j := 0; j < 6; j++ {
				var s []string
				for q := r.Intn(5); q > 0; q-- {
					s = append(s, pool[r.Intn(len(pool))])
				}
				sets = append(sets, s)
			}
			var text string
			var ref *LF
			expect := "" // accept, reject, any
			switch mode := r.Intn(10); {
			case mode < 5: // valid by construction
				ref = lg.gen(r, r.Intn(6))
				text = ref.Print(r, 0)
				expect = "accept"
			case mode < 8: // token soup against a reference parser
				var ts []tok
				for q := 1 + r.Intn(9); q > 0; q-- {
					switch x := r.Intn(12); {
					case x < 5:
						var f *LF
						switch r.Intn(3) {
						case 0:
							f = &LF{Op: "re", L: lg.res[r.Intn(len(lg.res))]}
						case 1:
							f = &LF{Op: "label", L: []string{"fast", "db", "api:geo", "a b", "zz"}[r.Intn(5)]}
						default:
							f = lg.gen(r, 0)
							if f.Op == "label" || f.Op == "re" {
								f = &LF{Op: "isEmpty", L: "api"}
							}
						}
						t := ""
						for t == "" || strings.HasSuffix(strings.TrimSpace(t), ")") {
							t = f.Print(r, 0)
							if len(f.Vals) > 0 { // only the brace spelling delimits itself
								t = f.L + ": " + f.Op + " {" + strings.Join(f.Vals, " , ") + "}"
							}
						}
						// two adjacent bare words would be one label: keep them apart
						if len(ts) > 0 && ts[len(ts)-1].k == "a" && f.Op != "re" && ts[len(ts)-1].lf.Op == "label" {
							f, t = &LF{Op: "re", L: "."}, "/./"
						}
						ts = append(ts, tok{"a", t, f})
					case x < 6:
						ts = append(ts, tok{"!", "!", nil})
					case x < 8:
						ts = append(ts, tok{"&", "&&", nil})
					case x < 9:
						ts = append(ts, tok{"|", "||", nil})
					case x < 10:
						ts = append(ts, tok{"|", ",", nil})
					case x < 11:
						ts = append(ts, tok{"(", "(", nil})
					default:
						ts = append(ts, tok{")", ")", nil})
					}
				}
				for j, t := range ts {
					if j > 0 && (r.Intn(2) == 0 || ts[j-1].k == "a") {
						text += " "
					}
					text += t.t
				}
				ref = parseSoup(ts)
				expect = "reject"
				if ref != nil {
					expect = "accept"
				}
			case mode < 9: // a broken atom inside a valid expression
				bad := []string{"&", "|", "a & b", "a | b", "()", "(a", "a)", "a &&", "&& a", "a || && b", "!", "a !b", "(a)(b)", "/a/ /b/", "key: nosuchop x", "key: containsAny", "key: containsAny {a", "key: containsAny {a,,b}", "key: containsAny {}", "key: isEmpty x", "/(/", "/a", "/[/ && b", ": isEmpty", "key: containsAny {a} {b}", "key: containsAll /re/", "foo containsAny x", "key: isSubsetOf {a|b}", "key: consistsOf {a} b", ",", "a,,b", "(,)", "a, || b", "key: "}[r.Intn(36-2)]
				text = bad
				if r.Intn(2) == 0 && !strings.HasPrefix(bad, "/a") && !strings.Contains(bad, "{a") {
					text = "(" + bad + ") " + []string{"&&", "||", ","}[r.Intn(3)] + " " + lg.gen(r, 2).Print(r, 2)
				} else if r.Intn(2) == 0 {
					text = lg.gen(r, 2).Print(r, 2) + []string{" && ", " || ", ","}[r.Intn(3)] + bad
				}
				expect = "reject"
				if text == "a)" {
					expect = "reject"
				}
			default: // arbitrary text: just no crash
				var sb strings.Builder
				for q := r.Intn(30); q >= 0; q-- {
					if r.Intn(6) == 0 {
						sb.WriteString([]string{"isEmpty", "containsAny", "consistsOf ", ": ", "&&", "||", "{a, b}", "key: "}[r.Intn(8)])
					} else {
						sb.WriteRune(soupAlphabet[r.Intn(len(soupAlphabet))])
					}
				}
				text = sb.String()
				if r.Intn(500) == 0 {
					text = strings.Repeat([]string{"(", "!", "a&&", "a,(", "k: containsAny {"}[r.Intn(5)], 1+r.Intn(3000)) + text
				}
				expect = "any"
			}
			theWatch.set(w, "label filter "+text)
			acc, out, pan := tryFilter(text, sets)
			theWatch.done(w)
			c.Count("expected:"+expect, 1)
			if k < 1 && w < 3 {
				c.Sample(map[string]any{"filter": text, "expected": expect, "results": out, "labels": sets})
			}
			rep := func(f string, a ...any) {
				c.Fail("", fmt.Sprintf("worker %d case %d seed %d filter %q: ", w, k, *flagSeed, text)+fmt.Sprintf(f, a...), map[string][]byte{"filter.txt": []byte(text), "sets.txt": []byte(fmt.Sprintf("%q", sets))})
			}
			if pan != "" {
				rep("crashed: %s", pan)
			}
			if acc {
				c.Count("accepted", 1)
			}
			switch expect {
			case "accept":
				if !acc {
					rep("a valid filter was rejected")
					break
				}
				for j := range sets {
					if want := ref.Eval(sets[j]); pan == "" && out[j] != want {
						rep("labels %q: got %v, expected %v", sets[j], out[j], want)
						break
					}
				}
			case "reject":
				if acc {
					rep("an invalid filter was accepted")
				}
			}
			if expect == "any" {
				c.Eval("")
			} else {
				c.Eval(sigHash(text))
			}
		}
	})
}

var _ = rand.Int

func init() {
	checks["C08"] = Check{Level: "exploration", Isolate: true, Rule: "distinct filter texts with a reference verdict (value on six label sets, or rejection); arbitrary-text inputs are counted as trivial", Run: checkLabels}
}

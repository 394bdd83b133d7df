package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"strconv"
	"strings"

	"github.com/onsi/ginkgo/v2/internal/zzverif/sdoc"
)

// C32: random trees whose nodes are given arbitrary argument lists. The legality rules below are written from the documentation; every suite is run
// and has to be rejected at the first illegal construct, or to run if there is none.

const (
	legal  = iota
	either // the documentation does not say
	illegal
)

type illNode struct {
	n   *sdoc.Node
	anc []*sdoc.Node
	v   int
	why string
}

func (x *illNode) bad(v int, f string, a ...any) {
	if v > x.v {
		x.v, x.why = v, fmt.Sprintf(f, a...)
	}
}

var illVias = map[string][]string{
	"container":      {"Describe", "FDescribe", "PDescribe", "XDescribe", "Context", "FContext", "PContext", "XContext", "When", "FWhen", "PWhen", "XWhen"},
	"it":             {"It", "FIt", "PIt", "XIt", "Specify", "FSpecify", "PSpecify", "XSpecify"},
	"BeforeEach":     {"BeforeEach"},
	"JustBeforeEach": {"JustBeforeEach"}, "AfterEach": {"AfterEach"}, "JustAfterEach": {"JustAfterEach"},
	"BeforeAll": {"BeforeAll"}, "AfterAll": {"AfterAll"},
	"BeforeSuite": {"BeforeSuite"}, "AfterSuite": {"AfterSuite"},
	"SynchronizedBeforeSuite": {"SynchronizedBeforeSuite"}, "SynchronizedAfterSuite": {"SynchronizedAfterSuite"},
	"ReportBeforeEach": {"ReportBeforeEach"}, "ReportAfterEach": {"ReportAfterEach"},
	"ReportBeforeSuite": {"ReportBeforeSuite"}, "ReportAfterSuite": {"ReportAfterSuite"},
}

var illKinds = []string{"container", "it", "BeforeEach", "JustBeforeEach", "AfterEach", "JustAfterEach", "BeforeAll", "AfterAll",
	"BeforeSuite", "AfterSuite", "SynchronizedBeforeSuite", "SynchronizedAfterSuite",
	"ReportBeforeEach", "ReportAfterEach", "ReportBeforeSuite", "ReportAfterSuite"}

var illDecs = []string{"focus", "pending", "serial", "ordered", "cof", "once", "suppress", "flake=2", "flake=0", "must=2", "must=0", "pa=60000", "pi=60000",
	"nt=60000", "nt=0", "st=60000", "grace=60000", "grace=0", "offset=1", "offset=0", "loc=7", "label=", "label=a", "label=a^b^a", "label=k: v", "float", "empty"}
var illUnknown = []string{"nil", "int", "str", "struct", "ptr", "dur", "bool", "err", "strs", "label=a^", "label= ^b", "label=a&b", "label=a|b", "label=!a", "label=a,b", "label=(a", "label=a)", "label=a/b",
	"label=:a", "label=a:", "label=p^q^r^s|t", "label=x^y^z^"}
var illBodies = []string{"b", "bS", "bC", "bD", "bI", "bT", "bR", "bE", "bSE", "bV", "bCC", "bM", "bA", "bN", "bSR", "bSSR", "bCSR", "bSRS", "bRp", "bSRp", "bCRp", "bBy", "bSBy",
	"bCBy", "bBS", "bStr", "bRB", "bSRB", "bCRB", "bRBE", "bRS", "bP", "bVB", "bIA"}

func set(xs ...string) map[string]bool {
	m := map[string]bool{}
	for _, x := range xs {
		m[x] = true
	}
	return m
}

var illCtxBodies = set("bS", "bC", "bSR2", "bSSR", "bSRp", "bSRB", "bCRB", "bSBy", "bCBy")

var illSetup = set("BeforeEach", "JustBeforeEach", "AfterEach", "JustAfterEach")
var illSuite = set("BeforeSuite", "AfterSuite", "SynchronizedBeforeSuite", "SynchronizedAfterSuite", "ReportBeforeSuite", "ReportAfterSuite")

// illBodySets: the accepted bodies of a kind, in order; "?" marks those about which the documentation is silent.
func illBodySets(kind string) []map[string]bool {
	leaf := set("b", "bS", "bC", "bD", "?bN", "?bA")
	switch kind {
	case "container":
		return []map[string]bool{set("b", "?bN")}
	case "SynchronizedBeforeSuite":
		return []map[string]bool{set("b", "bS", "bC", "bRB", "bSRB", "bCRB", "?bN", "?bA"), set("b", "bS", "bC", "bBy", "bSBy", "bCBy", "?bN", "?bA", "?bVB")}
	case "SynchronizedAfterSuite":
		return []map[string]bool{leaf, leaf}
	case "ReportBeforeEach", "ReportAfterEach":
		return []map[string]bool{set("bSR", "bSSR", "?bCSR")}
	case "ReportBeforeSuite", "ReportAfterSuite":
		return []map[string]bool{set("bRp", "bSRp", "?bCRp")}
	}
	return []map[string]bool{leaf}
}

func illArgs(toks []string) (top int, flat []string) {
	d := 0
	for _, t := range toks {
		switch t {
		case "[":
			if d == 0 {
				top++
			}
			d++
		case "]":
			d--
		default:
			if d == 0 {
				top++
			}
			if t != "empty" {
				flat = append(flat, t)
			}
		}
	}
	return
}

func illHas(n *sdoc.Node, tok string) bool {
	for _, t := range n.Raw {
		if t == tok {
			return true
		}
	}
	return tok == "focus" && n.Via[0] == 'F' || tok == "pending" && (n.Via[0] == 'P' || n.Via[0] == 'X')
}

func illLabelOK(v string) bool {
	if v == "" {
		return true
	}
	for _, l := range strings.Split(v, "^") {
		l = strings.TrimSpace(l)
		if l == "" || strings.ContainsAny(l, "&|!,()/") || strings.HasPrefix(l, ":") || strings.HasSuffix(l, ":") {
			return false
		}
	}
	return true
}

// illDecorator says whether a decorator (or another value that isn't a function) may be passed to a node of this kind.
func illDecorator(x *illNode, kind, t string) {
	k, v, _ := strings.Cut(t, "=")
	tree := kind == "container" || kind == "it"
	ok := true
	switch k {
	case "focus", "pending", "serial", "flake", "must":
		ok = tree
	case "label":
		ok = tree && illLabelOK(v)
	case "ordered", "cof":
		ok = kind == "container"
	case "once":
		ok = illSetup[kind]
	case "pa", "pi", "nt", "grace":
		ok = kind != "container"
	case "st":
		ok = kind == "it"
	case "suppress", "float", "offset", "loc":
	default:
		ok = false
	}
	if !ok {
		x.bad(illegal, "%s does not accept %s", kind, t)
	}
}

func illTimed(flat []string) bool {
	for _, t := range flat {
		k, v, _ := strings.Cut(t, "=")
		if (k == "nt" || k == "st" || k == "grace") && v != "0" {
			return true
		}
	}
	return false
}

// illVerdict applies the rules to one node.
func illVerdict(n *sdoc.Node, anc []*sdoc.Node) *illNode {
	x := &illNode{n: n, anc: anc}
	top, flat := illArgs(n.Raw)
	need := map[string]int{"BeforeSuite": 1, "AfterSuite": 1, "SynchronizedBeforeSuite": 2, "SynchronizedAfterSuite": 2,
		"ReportBeforeEach": 1, "ReportAfterEach": 1, "ReportBeforeSuite": 1, "ReportAfterSuite": 1}[n.K]
	if top < need {
		x.bad(illegal, "%s is passed nil as its body", n.K)
	}
	sets := illBodySets(n.K)
	nb, ctx, maybe := 0, false, false
	flake, must := 0, 0
	for _, t := range flat {
		if strings.HasPrefix(t, "b") && t != "bool" {
			if nb < len(sets) {
				if sets[nb]["?"+t] {
					x.bad(either, "body %s", t)
					maybe = true
				} else if !sets[nb][t] {
					x.bad(illegal, "%s cannot have the body %s", n.K, t)
				}
			}
			nb++
			ctx = ctx || illCtxBodies[t]
			continue
		}
		illDecorator(x, n.K, t)
		k, v, _ := strings.Cut(t, "=")
		i, _ := strconv.Atoi(v)
		if k == "flake" {
			flake = i
		}
		if k == "must" {
			must = i
		}
	}
	pending := illHas(n, "pending")
	switch {
	case nb > len(sets):
		x.bad(illegal, "%s has %d bodies", n.K, nb)
	case nb == 0 && pending && n.K == "container":
		x.bad(either, "pending container without a body")
	case nb == 0 && pending && n.K == "it":
	case nb < len(sets):
		x.bad(illegal, "%s lacks a body", n.K)
	}
	if illTimed(flat) && !ctx {
		if maybe || nb == 0 && pending {
			x.bad(either, "timeout without a body")
		} else {
			x.bad(illegal, "%s has a timeout but no context", n.K)
		}
	}
	if pending && illHas(n, "focus") {
		x.bad(illegal, "focus and pending")
	}
	if flake > 0 && must > 0 {
		x.bad(illegal, "FlakeAttempts and MustPassRepeatedly")
	}
	var ord *sdoc.Node
	serialAbove := false
	for _, a := range anc {
		if illHas(a, "ordered") {
			ord = a
			break
		}
		serialAbove = serialAbove || illHas(a, "serial")
	}
	if illHas(n, "cof") && (!illHas(n, "ordered") || ord != nil) {
		x.bad(illegal, "ContinueOnFailure not on an outermost ordered container")
	}
	if illHas(n, "serial") && ord != nil && !illHas(ord, "serial") {
		if serialAbove {
			x.bad(either, "serial in an ordered container that is in a serial container")
		} else {
			x.bad(illegal, "serial in a non-serial ordered container")
		}
	}
	if (n.K == "BeforeAll" || n.K == "AfterAll") && ord == nil {
		x.bad(illegal, "%s outside an ordered container", n.K)
	}
	if illSuite[n.K] && len(anc) > 0 {
		x.bad(illegal, "%s in a container", n.K)
	}
	return x
}

// illDefer applies the rules for calls of DeferCleanup made while specs run.
func illDefer(where string, toks []string) *illNode {
	x := &illNode{}
	fn := ""
	for _, t := range toks {
		k, _, _ := strings.Cut(t, "=")
		switch k {
		case "suppress", "pa", "pi", "nt", "grace", "loc", "offset":
		case "focus", "pending", "serial", "ordered", "cof", "once", "flake", "must", "st", "label":
			x.bad(illegal, "cleanup nodes do not accept %s", t)
		default:
			if fn == "" {
				fn = t
				if !strings.HasPrefix(t, "b") || t == "bool" {
					x.bad(illegal, "%s is no function", t)
				}
			}
		}
	}
	if fn == "" {
		x.bad(illegal, "no function")
	}
	if illTimed(toks) && !illCtxBodies[fn] && fn != "bCP" && fn != "bSE" {
		if fn == "bA" {
			x.bad(either, "timeout")
		} else {
			x.bad(illegal, "timeout without a context")
		}
	}
	if strings.HasPrefix(where, "Report") {
		x.bad(illegal, "DeferCleanup in a reporting node")
	}
	if where == "cleanup" {
		x.bad(illegal, "DeferCleanup in a cleanup node")
	}
	return x
}

// illEval lists the constructs of the suite in the order in which Ginkgo meets them while it constructs the tree.
func illEval(s *sdoc.Suite) (out []*illNode) {
	before, after := 0, 0
	one := func(n *sdoc.Node, anc []*sdoc.Node) {
		if n.K == "acts" {
			for i := range n.Body {
				a := &n.Body[i]
				out = append(out, &illNode{n: &sdoc.Node{ID: a.ID, K: "call", Raw: a.A}, anc: anc, v: illegal, why: a.K + " while the tree is constructed"})
			}
			return
		}
		x := illVerdict(n, anc)
		if len(anc) == 0 {
			c := &before
			switch n.K {
			case "AfterSuite", "SynchronizedAfterSuite":
				c = &after
				fallthrough
			case "BeforeSuite", "SynchronizedBeforeSuite":
				if *c++; *c > 1 {
					x.bad(illegal, "second %s node", n.K)
				}
			}
		}
		out = append(out, x)
	}
	var rec func(ns []*sdoc.Node, anc []*sdoc.Node)
	rec = func(ns []*sdoc.Node, anc []*sdoc.Node) {
		for _, n := range ns {
			if len(anc) > 0 {
				one(n, anc)
			}
			if n.K == "container" {
				_, flat := illArgs(n.Raw)
				for _, t := range flat {
					if t == "b" || t == "bN" {
						rec(n.Kids, append(append([]*sdoc.Node{}, anc...), n))
						break
					}
				}
			}
		}
	}
	for _, n := range s.Top {
		one(n, nil)
	}
	rec(s.Top, nil)
	return
}

// ---------------------------------------------------------------- generation

type illGen struct {
	r  *rand.Rand
	id int
}

func (g *illGen) p(f float64) bool { return g.r.Float64() < f }
func (g *illGen) pick(xs []string) string {
	return xs[g.r.Intn(len(xs))]
}
func (g *illGen) nid() int { g.id++; return g.id }

// bodies picks accepted bodies.
func (g *illGen) bodies(kind string) (out []string) {
	for _, s := range illBodySets(kind) {
		var xs []string
		for _, k := range sortedKeys(s) {
			if k[0] != '?' && (k != "bD" || g.p(.2)) {
				xs = append(xs, k)
			}
		}
		out = append(out, g.pick(xs))
	}
	return
}

// wrap puts some of the arguments into slices; the first "keep" arguments are positional.
func (g *illGen) wrap(toks []string, keep int) []string {
	if len(toks) <= keep || !g.p(.25) {
		return toks
	}
	i := keep + g.r.Intn(len(toks)-keep)
	j := i + 1 + g.r.Intn(len(toks)-i)
	out := append([]string{}, toks[:i]...)
	out = append(out, "[")
	out = append(out, g.wrap(append([]string{}, toks[i:j]...), 0)...)
	return append(append(out, "]"), toks[j:]...)
}

var illNeed = map[string]int{"BeforeSuite": 1, "AfterSuite": 1, "SynchronizedBeforeSuite": 2, "SynchronizedAfterSuite": 2,
	"ReportBeforeEach": 1, "ReportAfterEach": 1, "ReportBeforeSuite": 1, "ReportAfterSuite": 1}

// node generates a legal node for the position.
func (g *illGen) node(kind string, anc []*sdoc.Node, focus bool) *sdoc.Node {
	n := &sdoc.Node{ID: g.nid(), K: kind}
	n.Text = fmt.Sprintf("%s%d", map[bool]string{true: "S", false: "n"}[kind == "it"], n.ID)
	for try := 0; ; try++ {
		n.Via = illVias[kind][0]
		if g.p(.3) {
			n.Via = g.pick(illVias[kind])
		}
		n.Raw = g.bodies(kind)
		keep := illNeed[kind]
		for g.p(.35) && try < 20 {
			d := g.pick(illDecs)
			at := keep + g.r.Intn(len(n.Raw)-keep+1)
			n.Raw = append(n.Raw[:at:at], append([]string{d}, n.Raw[at:]...)...)
		}
		if kind == "it" && illHas(n, "pending") && g.p(.3) {
			var kept []string
			for _, t := range n.Raw {
				if !strings.HasPrefix(t, "b") {
					kept = append(kept, t)
				}
			}
			n.Raw = kept
		}
		n.Raw = g.wrap(n.Raw, keep)
		if !focus && illHas(n, "focus") {
			continue
		}
		if illVerdict(n, anc).v == legal {
			if n.Raw == nil {
				n.Raw = []string{"empty"}
			}
			return n
		}
	}
}

func (g *illGen) level(anc []*sdoc.Node, depth int, focus bool) (out []*sdoc.Node) {
	for _, k := range []string{"BeforeEach", "JustBeforeEach", "AfterEach", "JustAfterEach", "ReportBeforeEach", "ReportAfterEach"} {
		if g.p(.2) {
			out = append(out, g.node(k, anc, focus))
		}
	}
	for _, a := range anc {
		if illHas(a, "ordered") {
			for _, k := range []string{"BeforeAll", "AfterAll"} {
				if g.p(.4) {
					out = append(out, g.node(k, anc, focus))
				}
			}
			break
		}
	}
	for i := g.r.Intn(3); i >= 0; i-- {
		if depth < 3 && g.p(.45) {
			c := g.node("container", anc, focus)
			c.Kids = g.level(append(append([]*sdoc.Node{}, anc...), c), depth+1, focus)
			out = append(out, c)
		} else {
			out = append(out, g.node("it", anc, focus))
		}
	}
	g.r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return
}

func (g *illGen) suite() *sdoc.Suite {
	s := &sdoc.Suite{Desc: "illegal"}
	focus := g.p(.2)
	s.Top = g.level(nil, 0, focus)
	add := func(p float64, ks ...string) {
		if g.p(p) {
			s.Top = append(s.Top, g.node(g.pick(ks), nil, focus))
		}
	}
	add(.35, "BeforeSuite", "SynchronizedBeforeSuite")
	add(.35, "AfterSuite", "SynchronizedAfterSuite")
	for i := 0; i < 2; i++ {
		add(.15, "ReportBeforeSuite")
		add(.15, "ReportAfterSuite")
	}
	g.r.Shuffle(len(s.Top), func(i, j int) { s.Top[i], s.Top[j] = s.Top[j], s.Top[i] })
	if g.p(.3) {
		// legal uses of DeferCleanup
		for _, n := range illAll(s) {
			if n.n.K != "container" && n.n.K != "acts" && !strings.HasPrefix(n.n.K, "Report") && g.p(.3) {
				n.n.Body = append(n.n.Body, g.deferAct(n.n.K, legal))
			}
		}
	}
	return s
}

// deferAct generates a call of DeferCleanup with the given verdict.
func (g *illGen) deferAct(where string, v int) sdoc.Act {
	shapes := [][]string{{"b"}, {"bS"}, {"bC"}, {"bE"}, {"bSE"}, {"bI", "int"}, {"bT", "str", "int"}, {"bV", "int", "int"}, {"bV"}, {"bP", "nil"}, {"bCP", "nil", "nil"}, {"bVP", "int", "nil", "ptr"},
		{"bIA", "nil"}, {"bIA", "int"}, {}, {"int"}, {"nil"}, {"str", "b"}, {"struct"}}
	for {
		toks := append([]string{}, shapes[g.r.Intn(len(shapes))]...)
		for g.p(.35) {
			d := g.pick(illDecs)
			if d == "float" || d == "empty" {
				continue
			}
			at := g.r.Intn(len(toks) + 1)
			toks = append(toks[:at:at], append([]string{d}, toks[at:]...)...)
		}
		if illDefer(where, toks).v == v {
			return sdoc.Act{K: "xdefer", ID: g.nid(), A: toks}
		}
	}
}

type illPos struct {
	n    *sdoc.Node
	anc  []*sdoc.Node
	list *[]*sdoc.Node
	i    int
}

func illAll(s *sdoc.Suite) (out []illPos) {
	var rec func(l *[]*sdoc.Node, anc []*sdoc.Node)
	rec = func(l *[]*sdoc.Node, anc []*sdoc.Node) {
		for i, n := range *l {
			out = append(out, illPos{n, anc, l, i})
			if n.K == "container" {
				rec(&n.Kids, append(append([]*sdoc.Node{}, anc...), n))
			}
		}
	}
	rec(&s.Top, nil)
	return
}

// spots lists the places where a node can be added.
func illSpots(s *sdoc.Suite) (out []illPos) {
	out = append(out, illPos{list: &s.Top})
	for _, p := range illAll(s) {
		if p.n.K == "container" {
			out = append(out, illPos{anc: append(append([]*sdoc.Node{}, p.anc...), p.n), list: &p.n.Kids})
		}
	}
	return
}

func (g *illGen) insert(p illPos, n *sdoc.Node) {
	for len(p.anc) > 0 && g.p(.3) { // further down
		n = &sdoc.Node{ID: g.nid(), K: "container", Text: "between", Via: "Describe", Raw: []string{"b"}, Kids: []*sdoc.Node{n}}
	}
	i := g.r.Intn(len(*p.list) + 1)
	*p.list = append((*p.list)[:i:i], append([]*sdoc.Node{n}, (*p.list)[i:]...)...)
}

// place puts a legal node of the kind somewhere it is allowed.
func (g *illGen) place(s *sdoc.Suite, kind string) illPos {
	var have []illPos
	for _, p := range illAll(s) {
		if p.n.K == kind {
			have = append(have, p)
		}
	}
	if len(have) > 0 {
		return have[g.r.Intn(len(have))]
	}
	// without a legal position there is one at the end of a new ordered container
	var spots []illPos
	for _, p := range illSpots(s) {
		if len(p.anc) > 0 && illSuite[kind] {
			continue
		}
		if kind == "BeforeAll" || kind == "AfterAll" {
			ok := false
			for _, a := range p.anc {
				ok = ok || illHas(a, "ordered")
			}
			if !ok {
				continue
			}
		}
		spots = append(spots, p)
	}
	if len(spots) == 0 {
		c := &sdoc.Node{ID: g.nid(), K: "container", Text: "ordered", Via: "Describe", Raw: []string{"ordered", "b"}}
		s.Top = append(s.Top, c)
		c.Kids = g.level([]*sdoc.Node{c}, 3, false)
		spots = []illPos{{anc: []*sdoc.Node{c}, list: &c.Kids}}
	}
	p := spots[g.r.Intn(len(spots))]
	p.n = g.node(kind, p.anc, false)
	g.insert(p, p.n)
	return p
}

func illCount(s *sdoc.Suite, ks ...string) (n int) {
	m := set(ks...)
	for _, p := range illAll(s) {
		if m[p.n.K] {
			n++
		}
	}
	return
}

// mutate changes something, which may or may not make the suite illegal.
func (g *illGen) mutate(s *sdoc.Suite, what int) string {
	pairs := len(illKinds) * (len(illDecs) + len(illUnknown) + len(illBodies) + 2)
	if what%2 == 0 {
		k := (what / 2) % pairs
		kind := illKinds[k%len(illKinds)]
		t := k / len(illKinds)
		p := g.place(s, kind)
		n := p.n
		switch {
		case t < len(illDecs)+len(illUnknown):
			tok := append(append([]string{}, illDecs...), illUnknown...)[t]
			for _, x := range n.Raw {
				if x == "[" { // keep positional arguments positional
					n.Raw = append(n.Raw, tok)
					return kind + " given " + tok
				}
			}
			at := g.r.Intn(len(n.Raw) + 1)
			n.Raw = append(n.Raw[:at:at], append([]string{tok}, n.Raw[at:]...)...)
			return kind + " given " + tok
		case t < len(illDecs)+len(illUnknown)+len(illBodies):
			tok := illBodies[t-len(illDecs)-len(illUnknown)]
			for {
				i := g.r.Intn(len(n.Raw) + 1)
				if i == len(n.Raw) {
					n.Raw = append(n.Raw, tok)
					return kind + " given a further " + tok
				}
				if strings.HasPrefix(n.Raw[i], "b") {
					n.Raw[i] = tok
					return kind + " with body " + tok
				}
			}
		default:
			var kept []string
			for _, x := range n.Raw {
				if !strings.HasPrefix(x, "b") || t%2 == 0 && len(kept) == 0 {
					kept = append(kept, x)
				}
			}
			if kept == nil {
				kept = []string{"empty"}
			}
			n.Raw = kept
			return kind + " without body"
		}
	}
	spots := illSpots(s)
	spot := spots[g.r.Intn(len(spots))]
	ordered := func() illPos {
		var c []illPos
		for _, p := range illAll(s) {
			if p.n.K == "container" && illHas(p.n, "ordered") {
				c = append(c, p)
			}
		}
		if len(c) == 0 {
			n := &sdoc.Node{ID: g.nid(), K: "container", Text: "ordered", Via: "Describe", Raw: []string{"ordered", "b"}}
			n.Kids = g.level([]*sdoc.Node{n}, 3, false)
			s.Top = append(s.Top, n)
			c = []illPos{{n: n}}
		}
		return c[g.r.Intn(len(c))]
	}
	raw := func(kind string, extra ...string) *sdoc.Node {
		n := &sdoc.Node{ID: g.nid(), K: kind, Via: g.pick(illVias[kind]), Raw: append(g.bodies(kind), extra...)}
		n.Text = fmt.Sprintf("%s%d", map[bool]string{true: "S", false: "n"}[kind == "it"], n.ID)
		if kind == "container" {
			n.Kids = g.level([]*sdoc.Node{n}, 2, false)
		}
		return n
	}
	runs := func() (*sdoc.Node, bool) { // a node whose body runs
		var c []*sdoc.Node
		for _, p := range illAll(s) {
			if p.n.K != "container" && p.n.K != "acts" {
				c = append(c, p.n)
			}
		}
		if len(c) == 0 {
			return nil, false
		}
		return c[g.r.Intn(len(c))], true
	}
	switch (what / 2) % 14 {
	case 0:
		k := g.pick([]string{"BeforeAll", "AfterAll"})
		g.insert(spot, raw(k))
		return k + " anywhere"
	case 1:
		k := g.pick(sortedKeys(illSuite))
		g.insert(spot, raw(k))
		return k + " anywhere"
	case 2:
		k := g.pick([]string{"BeforeSuite", "SynchronizedBeforeSuite", "AfterSuite", "SynchronizedAfterSuite"})
		s.Top = append(s.Top, raw(k))
		return "further " + k
	case 3:
		o := ordered()
		if g.p(.3) {
			o.n.Raw = append(o.n.Raw, "serial")
		}
		k := g.pick([]string{"it", "container"})
		inner := o
		if g.p(.5) { // not directly
			for _, p := range illAll(s) {
				if p.n.K == "container" && len(p.anc) > 0 && p.anc[len(p.anc)-1] == o.n {
					inner = p
				}
			}
		}
		g.insert(illPos{anc: []*sdoc.Node{o.n}, list: &inner.n.Kids}, raw(k, "serial"))
		return "serial " + k + " in ordered"
	case 4:
		o := ordered()
		g.insert(illPos{anc: []*sdoc.Node{o.n}, list: &o.n.Kids}, raw("container", "ordered", "cof"))
		return "nested ContinueOnFailure"
	case 5:
		g.insert(spot, &sdoc.Node{ID: g.nid(), K: "acts", Body: []sdoc.Act{{K: g.pick([]string{"xby", "xentry"}), ID: g.nid()}}})
		return "call in container"
	case 6:
		if len(spot.anc) == 0 {
			g.insert(spot, &sdoc.Node{ID: g.nid(), K: "acts", Body: []sdoc.Act{g.deferAct("it", legal)}})
			return "DeferCleanup at the top level"
		}
		a := g.deferAct("it", legal)
		if g.p(.6) {
			a = sdoc.Act{K: g.pick([]string{"xfail", "xskip", "xpanic"}), ID: g.nid()}
		}
		g.insert(spot, &sdoc.Node{ID: g.nid(), K: "acts", Body: []sdoc.Act{a}})
		return a.K + " in container"
	case 7:
		if n, ok := runs(); ok {
			k := g.pick(illKinds)
			n.Body = append(n.Body, sdoc.Act{K: "declare", Decl: raw(k)})
			return "run: " + k + " in " + n.K
		}
	case 8:
		if n, ok := runs(); ok {
			v := legal
			if g.p(.5) || strings.HasPrefix(n.K, "Report") {
				v = illegal
			}
			a := g.deferAct(n.K, v)
			if g.p(.3) && illDefer(n.K, a.A).v == legal {
				a.B = append(a.B, g.deferAct("cleanup", illegal))
			}
			n.Body = append(n.Body, a)
			return "run: DeferCleanup in " + n.K
		}
	case 9:
		if n, ok := runs(); ok {
			n.Body = append(n.Body, sdoc.Act{K: g.pick([]string{"xby", "xentry"}), ID: g.nid()})
			return "run: call in " + n.K
		}
	case 10:
		p := g.place(s, g.pick([]string{"it", "container"}))
		p.n.Raw = append(p.n.Raw, g.pick([]string{"focus", "pending", "flake=2"}), g.pick([]string{"focus", "pending", "must=2", "must=0"}))
		return "combination"
	case 12, 13:
		var c []*sdoc.Node
		for _, p := range illAll(s) {
			if p.n.K != "container" && p.n.K != "acts" && !strings.HasPrefix(p.n.K, "Report") {
				c = append(c, p.n)
			}
		}
		if len(c) > 0 {
			n := c[g.r.Intn(len(c))]
			toks := []string{g.pick([]string{"b", "bS", "bC", "bE", "bSE", "bCP"})}
			if toks[0] == "bCP" {
				toks = append(toks, "nil", "nil")
			}
			d := illDecs[(what/28)%len(illDecs)]
			if d == "float" || d == "empty" {
				d = "int"
			}
			if g.p(.5) || d == "int" {
				toks = append([]string{d}, toks...)
			} else {
				toks = append(toks, d)
			}
			n.Body = append(n.Body, sdoc.Act{K: "xdefer", ID: g.nid(), A: toks})
			return "run: DeferCleanup given " + d + " in " + n.K
		}
	case 11:
		if g.p(.4) {
			s.Twice = true
			return "RunSpecs twice"
		}
		s.RunRaw = []string{g.pick([]string{"int", "str", "nil", "focus", "b", "float", "label=a^b", "label=", "label=a&b", "label=x^"})}
		return "RunSpecs given " + s.RunRaw[0]
	}
	return "nothing"
}

// ---------------------------------------------------------------- checking

func illegalCase(c *Ctx, i int) {
	g := &illGen{r: rng("C32", i)}
	s := g.suite()
	what := "nothing"
	if i%5 > 0 {
		what = g.mutate(s, i-i/5-1)
		for g.p(.1) {
			what += "; " + g.mutate(s, g.r.Intn(1<<20))
		}
	}
	o := RunOpts{NoReport: true}
	mode := ""
	switch x := g.r.Float64(); {
	case x < .05:
		mode = "dry-run"
	case x < .1:
		mode = "focus=zzz"
	case x < .15:
		mode = "randomize-all"
	}
	if mode != "" {
		o.Args = append(o.Args, mode)
	}
	if g.p(.03) && mode != "dry-run" {
		o.CLI, o.Procs = true, 2
	}
	nodes := illEval(s)
	var run *SuiteRun
	for try := 0; try < 2; try++ {
		if run = c.runSuite(s, o); !run.Res.TimedOut {
			break
		}
		o.Limit = 240e9
		if try == 0 {
			run.Clean()
		}
	}
	defer run.Clean()
	var ds diffs
	lines := map[int]int{}
	entered := map[int]int{}
	entries := 0
	for _, e := range run.Events {
		if e.E == "at" {
			lines[e.N] = e.Ln
		}
		if e.E == "enter" {
			entered[e.N]++
			entries++
		}
	}
	// where the message for the construct must point, "" if anywhere
	loc := func(id int, raw []string) string {
		l := fmt.Sprintf("raw_test.go:%d\n", lines[id])
		for _, t := range raw {
			if k, v, _ := strings.Cut(t, "="); k == "loc" {
				l = "/synthetic/raw.go:" + v + "\n"
			} else if k == "offset" && v != "0" {
				l = ""
			} else if k == "offset" {
				l = fmt.Sprintf("raw_test.go:%d\n", lines[id])
			}
		}
		return l
	}
	out := illANSI.ReplaceAllString(run.Res.Out, "") + "\n"
	points := func(locs []string) bool {
		for _, l := range locs {
			if strings.Contains(out, l) {
				return true
			}
		}
		return false
	}
	var first *illNode
	var cand, eith []string
	kinds := map[string]bool{}
	for _, x := range nodes {
		c.Count(fmt.Sprintf("%s: %s", x.n.K, []string{"legal", "either", "illegal"}[x.v]), 1)
		kinds[x.n.K+fmt.Sprint(x.v)] = true
		if x.v == either {
			eith = append(eith, loc(x.n.ID, x.n.Raw))
		}
		if x.v == illegal {
			first = x
			cand = append(append([]string{}, eith...), loc(x.n.ID, x.n.Raw))
			if x.n.K == "call" && len(x.anc) > 0 {
				a := x.anc[len(x.anc)-1]
				cand = append(cand, loc(a.ID, a.Raw))
			}
			break
		}
	}
	if g.p(.002) || i < 3 {
		c.Sample(map[string]any{"case": i, "change": what, "first illegal": fmt.Sprint(first != nil), "exit": run.Res.Exit})
	}
	exit := run.Res.Exit
	rawPanic := strings.Contains(run.Res.Out, "\ngoroutine ") || exit == 2
	suiteArg := ""
	if len(s.RunRaw) > 0 && !strings.HasPrefix(s.RunRaw[0], "label") {
		suiteArg = s.RunRaw[0]
	}
	verdict := ""
	outcome := func(bad bool) {
		// the tree is fine: everything depends on what happens while specs run
		var reached []string
		var walk func(where string, as []sdoc.Act)
		walk = func(where string, as []sdoc.Act) {
			for k := range as {
				a := &as[k]
				switch a.K {
				case "declare":
					if lines[a.Decl.ID] > 0 {
						reached = append(reached, loc(a.Decl.ID, a.Decl.Raw))
						verdict = "illegal while specs run"
					}
				case "xdefer":
					if lines[a.ID] > 0 && illDefer(where, a.A).v == illegal {
						reached = append(reached, loc(a.ID, a.A))
						verdict = "illegal while specs run"
					}
					walk("cleanup", a.B)
				}
			}
		}
		for _, p := range illAll(s) {
			if p.n.K != "container" && p.n.K != "acts" {
				walk(p.n.K, p.n.Body)
			}
		}
		if s.Twice {
			if len(reached) == 0 {
				verdict = "RunSpecs twice"
				// a programmatically focused suite ends the process before the second call; in parallel the CLI has all reports before the second call
				if exit != 197 && (exit != 1 || o.Procs < 2 && !strings.Contains(run.Res.Out, "Rerunning Suite")) {
					ds.add("twice", "RunSpecs was called twice: exit %d", exit)
				}
				return
			}
		}
		if len(reached) > 0 {
			if exit != 1 || rawPanic {
				ds.add("runphase", "a forbidden construct was reached while specs ran: exit %d, want 1 (raw panic: %v)", exit, rawPanic)
			}
			if !points(reached) {
				ds.add("runphase", "no message points at the forbidden construct: want one of %q", reached)
			}
			return
		}
		focused := false
		for _, p := range illAll(s) {
			focused = focused || p.n.K != "acts" && illHas(p.n, "focus")
		}
		if exit != 0 && !(focused && exit == 197) || rawPanic {
			ds.add("legal", "a suite without forbidden constructs ends with exit %d", exit)
		}
		if !focused && mode != "dry-run" && mode != "focus=zzz" {
			for _, p := range illAll(s) {
				if p.n.K != "it" {
					continue
				}
				pend := illHas(p.n, "pending")
				for _, a := range p.anc {
					pend = pend || illHas(a, "pending")
				}
				if !pend && entered[p.n.ID] == 0 {
					ds.add("legal", "spec %d did not run", p.n.ID)
				}
				if pend && entered[p.n.ID] > 0 {
					ds.add("legal", "pending spec %d ran", p.n.ID)
				}
			}
		}
	}
	switch {
	case run.Res.TimedOut:
		ds.add("hang", "the suite did not finish")
	case first != nil && (suiteArg == "" || len(cand) > 0):
		verdict = "illegal"
		c.Count("first illegal construct: "+first.n.K, 1)
		// outside of containers AddReportEntry fails the way Fail does: with a panic that says where
		panics := first.n.K == "call" && len(first.anc) == 0 && strings.HasPrefix(first.why, "xentry") && exit == 2
		if !panics && (exit != 1 || rawPanic) {
			ds.add("illegal", "not rejected properly: exit %d, want 1 (raw panic: %v)", exit, rawPanic)
		}
		if entries > 0 {
			ds.add("illegal", "%d bodies ran", entries)
		}
		if !points(cand) && !(suiteArg != "" && strings.Contains(run.Res.Out, "Unknown Type passed to RunSpecs")) {
			ds.add("illegal", "no message points at the construct: want one of %q", cand)
		}
	case suiteArg != "":
		verdict = "RunSpecs argument"
		if exit != 1 || rawPanic || entries > 0 {
			ds.add("runspecs", "an argument RunSpecs does not take was passed: exit %d, %d bodies ran", exit, entries)
		}
		if !strings.Contains(run.Res.Out, "Unknown Type passed to RunSpecs") && !points(eith) {
			ds.add("runspecs", "no message about the argument")
		}
	case len(eith) > 0 && exit == 1 && !rawPanic && entries == 0 && points(eith):
		verdict = "either: rejected"
	case len(s.RunRaw) > 0 && suiteArg == "" && !illLabelOK(s.RunRaw[0][len("label="):]):
		verdict = "invalid suite label"
		if exit != 1 || rawPanic || entries > 0 {
			c.Fail("suite-label-not-validated", fmt.Sprintf("case %d: RunSpecs accepts the label %q", i, s.RunRaw[0]), run.Files())
		}
	default:
		verdict = "legal"
		if len(eith) > 0 {
			verdict = "either: accepted"
		}
		outcome(false)
	}
	c.Count("suites "+verdict, 1)
	if w, _, ok := strings.Cut(what, ";"); !ok && i%5 > 0 {
		c.mu.Lock()
		illSeen[w+"/"+verdict] = true
		c.mu.Unlock()
	}
	c.Eval(sigHash(what, verdict, fmt.Sprint(sortedKeys(kinds))))
	if len(ds.d) > 0 {
		var l []string
		for _, d := range ds.d {
			l = append(l, d.Cat+": "+d.Msg)
		}
		msg := ""
		if first != nil {
			msg = fmt.Sprintf("first illegal construct: node %d (%s %v): %s\n", first.n.ID, first.n.K, first.n.Raw, first.why)
		}
		c.Fail("", fmt.Sprintf("case %d (change: %s; args %v %v):\n%s%s\noutput:\n%s", i, what, o.Args, o.Procs, msg, strings.Join(l, "\n"), trunc(run.Res.Out, 3000)), run.Files())
	}
}

var illANSI = regexp.MustCompile("\x1b\\[[0-9;]*m")

var illSeen = map[string]bool{}

func illegalCheck(c *Ctx) {
	parallelDo(N(6000, 80000), workers(), func(i int) { illegalCase(c, i) })
	c.Count("distinct (change, verdict) pairs", len(illSeen))
}

func init() {
	checks["C32"] = Check{Level: "exploration", Rule: "a case counts as distinct by the hash of the change made to a legal tree, the verdict, and the set of (node kind, legality) in it", Run: illegalCheck}
}

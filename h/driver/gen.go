package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"strings"

	"github.com/onsi/ginkgo/v2/internal/zzverif/sdoc"
)

// G holds the biases of the suite generator; all values are probabilities unless stated otherwise.
type G struct {
	Specs, Depth                            int // soft bounds
	Ordered, Once, ContOnFail, All          float64
	Stop                                    float64 // a node body contains something that ends or fails the node
	Cleanup, CleanupStop, SuiteStop         float64
	Flake, MustPass                         float64
	Focus, Pending, Labels, Serial          float64
	Reports, ReportStop, SuiteNodes, RSuite float64
	GW, Entry, By, Abort, Skip              float64
	Setup                                   float64 // setup/teardown node density
	Ctx, T                                  float64
	Locs                                    bool // scramble source locations
	Sync, Many                              float64
	NoGen                                   map[string]bool
}

var defaultG = G{Specs: 7, Depth: 3, Ordered: .25, Once: .2, ContOnFail: .4, All: .5, Stop: .12, Cleanup: .25, CleanupStop: .15, SuiteStop: .1,
	Flake: .06, MustPass: .05, Focus: 0, Pending: .05, Labels: .2, Serial: .04, Reports: .2, ReportStop: .04, SuiteNodes: .5, RSuite: .3,
	GW: .3, Entry: .15, By: .15, Abort: .08, Skip: .15, Setup: .8, Ctx: .2, T: .1, Sync: .4, Many: .012}

type gen struct {
	r     *rand.Rand
	g     G
	id    int
	line  int
	file  int
	specs int
	s     *sdoc.Suite
	words []string
}

func (x *gen) p(f float64) bool { return x.r.Float64() < f }
func (x *gen) nid() int         { x.id++; return x.id }

var labelPool = []string{"fast", "slow", "Net", "db", "API:Geo", "API:Shelf", "tier:1", "tier: two", "api:geo", "été", "a b", "x-y_z.0"}

func (x *gen) loc() sdoc.Loc {
	if x.g.Locs {
		return sdoc.Loc{F: fmt.Sprintf("/synthetic/f%d.go", x.r.Intn(3)), L: 1 + x.r.Intn(40)}
	}
	return sdoc.Loc{}
}

// relocate assigns source positions in declaration order.
func (x *gen) relocate(ns []*sdoc.Node, top bool) {
	for _, n := range ns {
		if top {
			x.file = x.r.Intn(3)
		}
		if n.Loc.F == "" {
			x.line += 1 + x.r.Intn(3)
			n.Loc = sdoc.Loc{F: fmt.Sprintf("/synthetic/f%d.go", x.file), L: x.line}
		}
		x.relocate(n.Kids, false)
	}
}

func (x *gen) word() string {
	return []string{"alpha", "beta", "gamma", "delta", "eps.ilon", "ze(ta"}[x.r.Intn(6)]
}

func (x *gen) node(k string) *sdoc.Node {
	n := &sdoc.Node{ID: x.nid(), K: k, Loc: x.loc()}
	switch k {
	case "it":
		n.Text = fmt.Sprintf("S%d %s", n.ID, x.word())
		x.specs++
		if x.p(.2) {
			n.Via = "specify"
		}
	case "container":
		n.Text = fmt.Sprintf("C%d %s", n.ID, x.word())
		switch x.r.Intn(6) {
		case 0:
			n.Via = "context"
		case 1:
			n.Via = "when"
		}
	case "ReportAfterSuite", "ReportBeforeSuite":
		n.Text = fmt.Sprintf("R%d", n.ID)
	}
	if k != "container" && x.p(x.g.Ctx) {
		n.Ctx = true
	}
	if (k == "container" || k == "it") && x.p(x.g.Labels) {
		for i := 0; i < 1+x.r.Intn(2); i++ {
			l := labelPool[x.r.Intn(len(labelPool))]
			dup := false
			for _, m := range n.Labels {
				dup = dup || m == l
			}
			if !dup {
				n.Labels = append(n.Labels, l)
			}
		}
	}
	return n
}

func (x *gen) decorate(n *sdoc.Node, ordered, serialOK bool) {
	if x.p(x.g.Focus) {
		n.Focus = true
		if x.p(.4) && (n.Via == "" || n.Via == "specify") {
			n.Via = "fx"
		}
	} else if x.p(x.g.Pending) {
		n.Pending = true
		if x.p(.4) && (n.Via == "" || n.Via == "specify") {
			n.Via = "fx"
		}
	}
	if n.K == "it" && n.Pending && !n.Focus && x.p(.3) {
		n.Via = "nobody"
	}
	if x.p(x.g.Flake) {
		n.Flake = 1 + x.r.Intn(4)
	} else if x.p(x.g.MustPass) {
		n.MustPass = 1 + x.r.Intn(3)
	}
	if serialOK && x.p(x.g.Serial) {
		n.Serial = true
	}
}

func (x *gen) setups(ordered bool) []*sdoc.Node {
	var out []*sdoc.Node
	for _, k := range []string{"BeforeEach", "JustBeforeEach", "AfterEach", "JustAfterEach"} {
		p := .45 * x.g.Setup
		if strings.HasPrefix(k, "Just") {
			p = .25 * x.g.Setup
		}
		many := x.p(x.g.Many) // lots of nodes of one kind at one level
		for i := 0; many && i < 11 || i < 3 && x.p(p); i++ {
			n := x.node(k)
			n.OncePerOrdered = x.p(x.g.Once)
			out = append(out, n)
		}
	}
	if ordered {
		for _, k := range []string{"BeforeAll", "AfterAll"} {
			for i := 0; i < 2 && x.p(x.g.All); i++ {
				out = append(out, x.node(k))
			}
		}
	}
	for _, k := range []string{"ReportBeforeEach", "ReportAfterEach"} {
		for i := 0; i < 2 && x.p(x.g.Reports*.6); i++ {
			out = append(out, x.node(k))
		}
	}
	return out
}

func (x *gen) level(depth int, ordered, serialOrdered bool, target int) []*sdoc.Node {
	out := x.setups(ordered)
	start := x.specs
	n := 1 + x.r.Intn(4)
	for i := 0; i < n && x.specs-start < target; i++ {
		if depth < x.g.Depth && x.p(.45) {
			c := x.node("container")
			ord := false
			ser := serialOrdered
			if !ordered || x.p(.3) {
				ord = x.p(x.g.Ordered)
			}
			x.decorate(c, ordered, !ordered || serialOrdered)
			if ord {
				c.Ordered = true
				if !ordered {
					c.ContOnFail = x.p(x.g.ContOnFail)
					ser = c.Serial
				}
			}
			t := 1 + x.r.Intn(target)
			c.Kids = x.level(depth+1, ordered || ord, ser, t)
			out = append(out, c)
		} else {
			it := x.node("it")
			x.decorate(it, ordered, !ordered || serialOrdered)
			out = append(out, it)
		}
	}
	x.r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

// serial markers inside ordered containers need the outermost ordered container to be serial; repair that.
func fixSerial(ns []*sdoc.Node, ord *sdoc.Node) {
	for _, n := range ns {
		if n.K != "container" && n.K != "it" {
			continue
		}
		if ord != nil && n.Serial && !ord.Serial {
			n.Serial = false
		}
		o := ord
		if o == nil && n.Ordered {
			o = n
		}
		fixSerial(n.Kids, o)
	}
}

func (x *gen) stopper(n *sdoc.Node, cleanup bool) sdoc.Act {
	msg := fmt.Sprintf("stop-%d-%d", n.ID, x.r.Intn(1000))
	a := sdoc.Act{S: msg}
	switch {
	case x.p(x.g.Abort):
		a.K = "abort"
	case x.p(x.g.Skip):
		a.K = "skip"
		if x.p(.2) {
			a.K = "rskip"
		}
	default:
		ks := []string{"fail", "fail", "fail", "failoff", "panic", "panic", "goexit", "rfail", "gofail", "gopanic", "gofailn"}
		a.K = ks[x.r.Intn(len(ks))]
		if x.p(x.g.T) {
			a.K = []string{"tfatal", "terrorf", "tfail", "tskip"}[x.r.Intn(4)]
		}
		if a.K == "panic" || a.K == "gopanic" {
			a.V = []string{"", "err", "int", "struct"}[x.r.Intn(4)]
			if a.K == "panic" && x.p(.3) {
				a.V = []string{"nilmap", "index", "nilderef"}[x.r.Intn(3)]
			}
			a.N = 3 + x.r.Intn(5)
		}
		if a.K == "gofailn" {
			a.N = 2 + x.r.Intn(4)
		}
	}
	return a
}

func (x *gen) body(n *sdoc.Node, kind string, under []int, stop float64) []sdoc.Act {
	var b []sdoc.Act
	canDefer := kind != "cleanup" && !strings.HasPrefix(kind, "Report")
	seg := func() {
		if x.p(x.g.GW) {
			b = append(b, sdoc.Act{K: "gw", S: fmt.Sprintf("<w%d.%d>", n.ID, x.r.Intn(100)), V: []string{"", "print", "printf", "println"}[x.r.Intn(4)]})
		}
		if canDefer && x.p(x.g.Cleanup) {
			d := sdoc.Act{K: "defer", ID: x.nid(), S: fmt.Sprintf("d%d", x.r.Intn(100)), N: x.r.Intn(9)}
			d.V = []string{"", "", "", "ctx", "ctxarg", "ctxargctx", "arg", "variadic", "nilerr", "val"}[x.r.Intn(10)]
			if x.p(x.g.CleanupStop) {
				d.V = []string{"err", "valerr"}[x.r.Intn(2)]
			}
			sub := &sdoc.Node{ID: d.ID}
			d.B = x.body(sub, "cleanup", under, x.g.CleanupStop)
			if x.p(.2) {
				d.Inv = []int{0}
			}
			b = append(b, d)
		}
		if kind != "cleanup" && x.p(x.g.Entry) {
			b = append(b, sdoc.Act{K: "entry", S: fmt.Sprintf("e%d.%d", n.ID, x.r.Intn(100)), V: "str", A: []string{"v"}})
		}
		if !strings.HasPrefix(kind, "Report") && x.p(x.g.By) {
			a := sdoc.Act{K: "by", S: fmt.Sprintf("step%d.%d", n.ID, x.r.Intn(100))}
			if x.p(.5) {
				a.V = "cb"
				if x.p(.4) {
					a.B = append(a.B, sdoc.Act{K: "gw", S: "<cb>"})
				}
				if x.p(stop) {
					a.B = append(a.B, x.qualify(x.stopper(n, false), under))
				}
			}
			b = append(b, a)
		}
	}
	seg()
	if x.p(stop) {
		b = append(b, x.qualify(x.stopper(n, kind == "cleanup"), under))
		if x.p(.3) {
			b = append(b, x.qualify(x.stopper(n, kind == "cleanup"), under))
		}
	}
	if x.p(.5) {
		seg()
	}
	return b
}

// qualify restricts an act to some specs and/or some invocations.
func (x *gen) qualify(a sdoc.Act, under []int) sdoc.Act {
	if len(under) > 1 && x.p(.6) {
		for _, u := range under {
			if x.p(.5) {
				a.Spec = append(a.Spec, u)
			}
		}
		if len(a.Spec) == 0 {
			a.Spec = []int{under[x.r.Intn(len(under))]}
		}
	}
	if x.p(.35) {
		a.Inv = [][]int{{0}, {1}, {0, 1}, {0, 2}, {0, 1, 2}}[x.r.Intn(5)]
	}
	return a
}

func specIDs(ns []*sdoc.Node) []int {
	var out []int
	for _, n := range ns {
		if n.K == "it" {
			out = append(out, n.ID)
		}
		out = append(out, specIDs(n.Kids)...)
	}
	return out
}

func (x *gen) fill(ns []*sdoc.Node) {
	under := specIDs(ns)
	for _, n := range ns {
		switch {
		case n.K == "container":
			x.fill(n.Kids)
		case n.K == "it":
			p := x.g.Stop * 1.5
			if n.Flake > 0 || n.MustPass > 0 {
				p = .6
			}
			n.Body = x.body(n, n.K, []int{n.ID}, p)
		case n.K == "ReportBeforeEach" || n.K == "ReportAfterEach":
			n.Body = x.body(n, n.K, under, x.g.ReportStop)
		case n.K == "ReportBeforeSuite" || n.K == "ReportAfterSuite":
			n.Body = x.body(n, n.K, nil, x.g.ReportStop)
		case isSuiteKind(n.K):
			n.Body = x.body(n, n.K, nil, x.g.SuiteStop)
			if strings.HasPrefix(n.K, "Sync") {
				n.Body2 = x.body(n, n.K, nil, x.g.SuiteStop)
			}
		default:
			n.Body = x.body(n, n.K, under, x.g.Stop)
		}
	}
}

func genSuite(r *rand.Rand, g G) *sdoc.Suite {
	x := &gen{r: r, g: g, s: &sdoc.Suite{Desc: "Suite " + []string{"one", "two", "alpha"}[r.Intn(3)]}}
	if x.p(g.Labels) {
		x.s.Labels = []string{labelPool[r.Intn(len(labelPool))]}
	}
	top := []*sdoc.Node{}
	nTop := 1 + r.Intn(4)
	for _, k := range []string{"BeforeEach", "AfterEach", "JustBeforeEach", "JustAfterEach", "ReportBeforeEach", "ReportAfterEach"} {
		p := .2 * g.Setup
		if strings.HasPrefix(k, "Report") {
			p = .4 * g.Reports
		}
		if x.p(p) {
			n := x.node(k)
			if !strings.HasPrefix(k, "Report") {
				n.OncePerOrdered = x.p(g.Once)
			}
			top = append(top, n)
		}
	}
	for i := 0; i < nTop && x.specs < g.Specs*2; i++ {
		if x.p(.15) {
			it := x.node("it")
			x.decorate(it, false, true)
			top = append(top, it)
			continue
		}
		c := x.node("container")
		x.decorate(c, false, true)
		c.Ordered = x.p(g.Ordered)
		c.ContOnFail = c.Ordered && x.p(g.ContOnFail)
		c.Kids = x.level(1, c.Ordered, c.Ordered && c.Serial, 1+r.Intn(g.Specs))
		top = append(top, c)
	}
	fixSerial(top, nil)
	if x.p(g.SuiteNodes) {
		k := "BeforeSuite"
		if x.p(g.Sync) {
			k = "SynchronizedBeforeSuite"
		}
		top = append(top, x.node(k))
	}
	if x.p(g.SuiteNodes) {
		k := "AfterSuite"
		if x.p(g.Sync) {
			k = "SynchronizedAfterSuite"
		}
		top = append(top, x.node(k))
	}
	for _, k := range []string{"ReportBeforeSuite", "ReportAfterSuite"} {
		for i := 0; i < 2 && x.p(g.RSuite); i++ {
			top = append(top, x.node(k))
		}
	}
	r.Shuffle(len(top), func(i, j int) { top[i], top[j] = top[j], top[i] })
	x.s.Top = top
	x.relocate(top, true)
	x.fill(top)
	return x.s
}

// ---------------------------------------------------------------- run configuration

type CG struct {
	Filters, RandAll, FailFast, DryRun, FailOnPending, FailOnEmpty, Flake float64
}

func pickWord(r *rand.Rand, specs []*mspec, s *sdoc.Suite) string {
	if len(specs) == 0 || r.Intn(6) == 0 {
		return regexp.QuoteMeta([]string{"alpha", "beta", "gamma", "Suite", "one C", "zzz", "when C"}[r.Intn(7)])
	}
	full := s.Desc + " " + specs[r.Intn(len(specs))].text()
	i := r.Intn(len(full))
	j := i + 1 + r.Intn(12)
	if j > len(full) {
		j = len(full)
	}
	w := regexp.QuoteMeta(full[i:j])
	if r.Intn(5) == 0 {
		w = "^" + regexp.QuoteMeta(full)
		if r.Intn(2) == 0 {
			w += "$"
		}
	}
	if strings.TrimSpace(w) == "" || !regexpOK(w) {
		return "beta"
	}
	return w
}

func regexpOK(s string) bool { _, err := regexp.Compile(s); return err == nil }

func genFileF(r *rand.Rand) FileF {
	f := FileF{Re: []string{`f0`, `f1\.go`, `f2.go$`, `synthetic`, `f[02]`, `nope`}[r.Intn(6)]}
	f.Spell = f.Re
	if r.Intn(2) == 0 {
		var parts []string
		for i := 0; i < 1+r.Intn(3); i++ {
			a := 1 + r.Intn(45)
			if r.Intn(2) == 0 {
				f.Ranges = append(f.Ranges, [2]int{a, a + 1})
				parts = append(parts, fmt.Sprint(a))
			} else {
				b := a + 1 + r.Intn(15)
				f.Ranges = append(f.Ranges, [2]int{a, b})
				parts = append(parts, fmt.Sprintf("%d-%d", a, b))
			}
		}
		f.Spell += ":" + strings.Join(parts, ",")
	}
	return f
}

func genCfg(r *rand.Rand, s *sdoc.Suite, g CG) *Cfg {
	p := func(f float64) bool { return r.Float64() < f }
	c := &Cfg{Seed: int64(1 + r.Intn(1000)), RandAll: p(g.RandAll), FailFast: p(g.FailFast), DryRun: p(g.DryRun), FailOnPending: p(g.FailOnPending), FailOnEmpty: p(g.FailOnEmpty)}
	if p(g.Flake) {
		c.Flake = 1 + r.Intn(3)
	}
	specs := flatten(s)
	if p(g.Filters) {
		for i := 0; i < 1+r.Intn(2); i++ {
			c.Focus = append(c.Focus, pickWord(r, specs, s))
		}
	}
	if p(g.Filters * .6) {
		for i := 0; i < 1+r.Intn(2); i++ {
			c.Skip = append(c.Skip, pickWord(r, specs, s))
		}
	}
	if p(g.Filters * .6) {
		for i := 0; i < 1+r.Intn(2); i++ {
			c.FocusFiles = append(c.FocusFiles, genFileF(r))
		}
	}
	if p(g.Filters * .4) {
		c.SkipFiles = append(c.SkipFiles, genFileF(r))
	}
	if p(g.Filters) {
		lg := &lfGen{labels: labelPool, keys: []string{"API", "tier", "api", "none"}, vals: []string{"geo", "Shelf", "1", "two"}, res: []string{"^a", "s.*w", "[A-Z]", "o$"}}
		c.Label = lg.gen(r, 3)
		c.LabelText = c.Label.Print(r, 0)
	}
	return c
}

package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/onsi/ginkgo/v2/internal/zzverif/sdoc"
)

// itOrder is the order in which subject bodies (or, for specs not run, reports) appear.
func itOrder(run *SuiteRun, s *sdoc.Suite) []int {
	nodes := nodeByID(s)
	var out []int
	for _, e := range run.Events {
		if e.E == "enter" && nodes[e.N] != nil && nodes[e.N].K == "it" && e.Inv == 0 {
			out = append(out, e.N)
		}
	}
	return out
}

func seedOf(run *SuiteRun) int64 {
	for _, e := range run.Events {
		if e.E == "config" {
			var c struct{ RandomSeed int64 }
			json.Unmarshal([]byte(e.X), &c)
			return c.RandomSeed
		}
	}
	return -1
}

// legalOrder checks the documented constraints on an order of the runnable specs.
func legalOrder(s *sdoc.Suite, order []int, randAll bool) string {
	specs := flatten(s)
	by := map[int]*mspec{}
	decl := map[int]int{}
	want := 0
	for i, m := range specs {
		by[m.it.ID] = m
		decl[m.it.ID] = i
		if !m.pending {
			want++
		}
	}
	seen := map[int]bool{}
	for _, id := range order {
		if by[id] == nil || seen[id] {
			return fmt.Sprintf("spec %d appears twice or does not exist", id)
		}
		seen[id] = true
	}
	if len(order) != want {
		return fmt.Sprintf("%d specs ran, %d should", len(order), want)
	}
	// ordered containers: contiguous and in declaration order
	closed := map[int]bool{}
	prev := 0
	for i, id := range order {
		o := 0
		if by[id].ordered != nil {
			o = by[id].ordered.ID
		}
		if o != prev {
			if prev != 0 {
				closed[prev] = true
			}
			if o != 0 && closed[o] {
				return fmt.Sprintf("specs of ordered container %d are not contiguous", o)
			}
		} else if o != 0 && decl[order[i-1]] > decl[id] {
			return fmt.Sprintf("specs %d and %d of ordered container %d ran against declaration order", order[i-1], id, o)
		}
		prev = o
	}
	if randAll {
		return ""
	}
	topOf := func(m *mspec) *sdoc.Node {
		if len(m.conts) > 0 {
			return m.conts[0]
		}
		return m.it
	}
	// positions of a spec: chain of its containers up to the outermost ordered one
	chain := func(m *mspec) []sdoc.Loc {
		var out []sdoc.Loc
		for _, c := range append(append([]*sdoc.Node{}, m.conts...), m.it) {
			out = append(out, c.Loc)
			if c.Ordered {
				break
			}
		}
		return out
	}
	closed = map[int]bool{}
	prev = 0
	for i, id := range order {
		t := topOf(by[id]).ID
		if t != prev {
			if closed[t] {
				return fmt.Sprintf("specs of top-level node %d are interleaved with others", t)
			}
			if prev != 0 {
				closed[prev] = true
			}
			prev = t
			continue
		}
		a, b := chain(by[order[i-1]]), chain(by[id])
		if by[order[i-1]].ordered != nil && by[order[i-1]].ordered == by[id].ordered {
			continue
		}
		for k := 0; k < len(a) && k < len(b); k++ {
			if a[k] == b[k] {
				continue
			}
			if a[k].F > b[k].F || a[k].F == b[k].F && a[k].L > b[k].L {
				return fmt.Sprintf("specs %d and %d of one top-level container ran against source order (%v, %v)", order[i-1], id, a, b)
			}
			break
		}
	}
	return ""
}

// permuteDecl reorders siblings that generated the same way would come in arbitrary order (map iteration).
func permuteDecl(r *rand.Rand, ns []*sdoc.Node, ordered bool) {
	if !ordered {
		r.Shuffle(len(ns), func(i, j int) { ns[i], ns[j] = ns[j], ns[i] })
	}
	for _, n := range ns {
		if n.K == "container" {
			permuteDecl(r, n.Kids, ordered || n.Ordered)
		}
	}
}

func cloneSuite(s *sdoc.Suite) *sdoc.Suite {
	b, _ := json.Marshal(s)
	var o sdoc.Suite
	json.Unmarshal(b, &o)
	return &o
}

func hasOrdered(s *sdoc.Suite) bool {
	f := false
	s.Walk(func(n *sdoc.Node, _ []*sdoc.Node) { f = f || n.Ordered })
	return f
}

func orderG(r *rand.Rand) G {
	g := defaultG
	g.Stop, g.CleanupStop, g.SuiteStop, g.ReportStop = 0, 0, 0, 0
	g.Setup, g.Reports, g.RSuite, g.SuiteNodes, g.GW, g.Entry, g.By, g.Cleanup = .1, 0, 0, 0, 0, 0, 0, 0
	g.Flake, g.MustPass, g.Focus, g.Pending = 0, 0, 0, .04
	g.Specs, g.Depth = 10, 4
	g.Locs = r.Intn(2) == 0
	g.Ordered = []float64{0, .3}[r.Intn(2)]
	g.Serial = []float64{0, .1}[r.Intn(2)]
	return g
}

func checkOrder(c *Ctx) {
	mustRun := func(s *sdoc.Suite, o RunOpts) *SuiteRun {
		run := c.runSuite(s, o)
		if run.Res.TimedOut {
			run.Clean()
			o.Limit = 240e9
			run = c.runSuite(s, o)
		}
		return run
	}
	parallelDo(N(1200, 30000), workers(), func(i int) {
		r := rng("C06", i)
		s := genSuite(r, orderG(r))
		seed := 1 + r.Intn(100000)
		fail := func(run *SuiteRun, msg string) {
			c.Fail("", fmt.Sprintf("case %d seed %d: %s", i, *flagSeed, msg), run.Files())
		}
		var sig []int
		for _, ra := range []bool{false, true} {
			args := []string{fmt.Sprintf("seed=%d", seed)}
			if ra {
				args = append(args, "randomize-all")
			}
			a := mustRun(s, RunOpts{Args: args})
			oa := itOrder(a, s)
			if m := legalOrder(s, oa, ra); m != "" {
				fail(a, m+fmt.Sprintf(" order %v", oa))
			}
			if a.Report != nil {
				var ro []int
				for _, x := range a.Report.SpecReports {
					if x.LeafNodeType == "It" && x.State == "passed" {
						ro = append(ro, leafID(x.LeafNodeText))
					}
				}
				if fmt.Sprint(ro) != fmt.Sprint(oa) {
					fail(a, fmt.Sprintf("report order %v differs from execution order %v", ro, oa))
				}
			}
			b := mustRun(s, RunOpts{Args: args})
			if ob := itOrder(b, s); fmt.Sprint(oa) != fmt.Sprint(ob) {
				fail(b, fmt.Sprintf("same seed, different order: %v, %v", oa, ob))
			}
			b.Clean()
			if !hasOrdered(s) {
				p := cloneSuite(s)
				permuteDecl(r, p.Top, false)
				b := mustRun(p, RunOpts{Args: args})
				if ob := itOrder(b, p); fmt.Sprint(oa) != fmt.Sprint(ob) {
					fail(b, fmt.Sprintf("the order depends on the order in which nodes at the same positions were constructed: %v, %v", oa, ob))
				}
				b.Clean()
				c.Count("construction order permuted", 1)
			}
			c.Count("orders checked", 1)
			c.Count("specs placed", len(oa))
			sig = append(sig, oa...)
			if i%4 == 0 && !ra {
				// no seed given: the seed it reports reproduces the run
				u := mustRun(s, RunOpts{})
				ou := itOrder(u, s)
				if m := legalOrder(s, ou, false); m != "" {
					fail(u, m)
				}
				v := mustRun(s, RunOpts{Args: []string{fmt.Sprintf("seed=%d", seedOf(u))}})
				if ov := itOrder(v, s); fmt.Sprint(ou) != fmt.Sprint(ov) {
					fail(v, fmt.Sprintf("the chosen seed %d does not reproduce the order: %v, %v", seedOf(u), ou, ov))
				}
				if !strings.Contains(u.Res.Out, fmt.Sprintf("Random Seed: %d", seedOf(u))) {
					fail(u, "the seed is not shown to the user")
				}
				u.Clean()
				v.Clean()
				c.Count("unseeded runs reproduced", 1)
			}
			a.Clean()
		}
		c.Eval(sigHash(sig))
		if i < 3 {
			c.Sample(map[string]any{"case": i, "seed": seed, "order": sig})
		}
	})
	if *flagOnly >= 0 {
		return
	}
	// nodes generated by loops share source positions; their texts decide, whatever order the loop (over a map, say) had
	parallelDo(N(250, 8000), workers(), func(i int) {
		r := rng("C06/loop", i)
		id := 0
		pool := []string{"a", "b", "c", "aa", "B", ""}
		var mk func(depth int, l int) []*sdoc.Node
		mk = func(depth, l int) []*sdoc.Node {
			var out []*sdoc.Node
			for k := 1 + r.Intn(2); k > 0; k-- {
				l += 10
				if depth >= 3 || depth > 0 && r.Intn(3) == 0 {
					for j := 1 + r.Intn(3); j > 0; j-- {
						id++
						out = append(out, &sdoc.Node{ID: id, K: "it", Text: "s" + pool[r.Intn(len(pool))], Loc: sdoc.Loc{F: "/synthetic/loop.go", L: l}})
					}
					continue
				}
				shape := mk(depth+1, l)
				for j := 1 + r.Intn(4); j > 0; j-- {
					id++
					var kids []*sdoc.Node
					if r.Intn(3) == 0 {
						kids = mk(depth+1, l)
					} else { // the body of the loop: the same nodes again
						b, _ := json.Marshal(shape)
						json.Unmarshal(b, &kids)
					}
					out = append(out, &sdoc.Node{ID: id, K: "container", Text: pool[r.Intn(len(pool))], Loc: sdoc.Loc{F: "/synthetic/loop.go", L: l}, Kids: kids})
				}
			}
			return out
		}
		s := &sdoc.Suite{Desc: "loops", Top: mk(0, 0)}
		args := []string{fmt.Sprintf("seed=%d", 1+r.Intn(100000))}
		if r.Intn(3) == 0 {
			args = append(args, "randomize-all")
		}
		seq := func(run *SuiteRun) string {
			var out []string
			if run.Report != nil {
				for _, x := range run.Report.SpecReports {
					out = append(out, fmt.Sprintf("%q", append(append([]string{}, x.ContainerHierarchyTexts...), x.LeafNodeText, fmt.Sprint(x.LeafNodeLocation.LineNumber))))
				}
			}
			return strings.Join(out, "\n")
		}
		a := mustRun(s, RunOpts{Args: args})
		o := seq(a)
		p := cloneSuite(s)
		permuteDecl(r, p.Top, false)
		b := mustRun(p, RunOpts{Args: args})
		// top-level loops are shuffled as units; only units that are textually distinct can be told apart, which seq does
		if ob := seq(b); o != ob {
			c.Fail("", fmt.Sprintf("loop case %d seed %d %v: the order of specs depends on the order in which a loop declared them:\n%s\n---\n%s", i, *flagSeed, args, o, ob), b.Files())
		}
		c.Count("loop-generated trees permuted", 1)
		c.Eval(sigHash("loop", o))
		a.Clean()
		b.Clean()
	})
	// all processes agree: with N processes each process's specs are a subsequence of the serial order
	parallelDo(N(60, 3000), 4, func(i int) {
		r := rng("C06/par", i)
		g := orderG(r)
		g.Specs = 14
		s := genSuite(r, g)
		args := []string{fmt.Sprintf("seed=%d", 1+r.Intn(100000))}
		if r.Intn(2) == 0 {
			args = append(args, "randomize-all")
		}
		a := mustRun(s, RunOpts{Args: args})
		oa := itOrder(a, s)
		pos := map[int]int{}
		for k, id := range oa {
			pos[id] = k
		}
		ser := map[int]bool{}
		for _, m := range flatten(s) {
			root := m.ordered
			ser[m.it.ID] = m.serial
			if root != nil {
				ser[m.it.ID] = root.Serial
				for _, c := range m.conts {
					if c == root {
						break
					}
					ser[m.it.ID] = ser[m.it.ID] || c.Serial
				}
			}
		}
		p := mustRun(s, RunOpts{Args: args, Procs: 2 + r.Intn(3), HTTP: r.Intn(2) == 0})
		last := map[string]int{}
		n := 0
		nodes := nodeByID(s)
		for _, e := range p.Events {
			if e.E != "enter" || nodes[e.N] == nil || nodes[e.N].K != "it" {
				continue
			}
			n++
			k := fmt.Sprint(e.P, ser[e.N])
			if l, ok := last[k]; ok && pos[e.N] < l {
				c.Fail("", fmt.Sprintf("parallel case %d seed %d: process %d ran spec %d out of the common order %v", i, *flagSeed, e.P, e.N, oa), p.Files())
			}
			last[k] = pos[e.N]
		}
		if n != len(oa) {
			c.Fail("", fmt.Sprintf("parallel case %d seed %d: %d subject bodies ran in parallel, %d serially (processes disagree on the order?)\n%s", i, *flagSeed, n, len(oa), trunc(p.Res.Out, 2000)), p.Files())
		}
		c.Count("parallel orders compared", 1)
		c.Eval(sigHash("par", oa))
		a.Clean()
		p.Clean()
	})
	// every shuffle unit reaches every position
	u := &sdoc.Suite{Desc: "units"}
	for k := 0; k < 5; k++ {
		u.Top = append(u.Top, &sdoc.Node{ID: 100 + k, K: "container", Text: fmt.Sprintf("C%d", k), Loc: sdoc.Loc{F: "/synthetic/u.go", L: 10 * k}, Kids: []*sdoc.Node{
			{ID: 10 + 2*k, K: "it", Text: fmt.Sprintf("S%d a", 10+2*k), Loc: sdoc.Loc{F: "/synthetic/u.go", L: 10*k + 1}},
			{ID: 11 + 2*k, K: "it", Text: fmt.Sprintf("S%d b", 11+2*k), Loc: sdoc.Loc{F: "/synthetic/u.go", L: 10*k + 2}}}})
	}
	reached := map[string]map[string]bool{"containers": {}, "specs": {}}
	orders := map[string]bool{}
	type res struct {
		ra bool
		o  []int
	}
	ch := make(chan res, 1000)
	parallelDo(400, workers(), func(i int) {
		args := []string{fmt.Sprintf("seed=%d", i+1+int(*flagSeed)*1000)}
		if i%2 == 1 {
			args = append(args, "randomize-all")
		}
		a := mustRun(u, RunOpts{Args: args})
		ch <- res{i%2 == 1, itOrder(a, u)}
		a.Clean()
	})
	close(ch)
	for x := range ch {
		for p, id := range x.o {
			if x.ra {
				reached["specs"][fmt.Sprint(id, "@", p)] = true
			} else if p%2 == 0 {
				reached["containers"][fmt.Sprint((id-10)/2, "@", p/2)] = true
			}
		}
		orders[fmt.Sprint(x.ra, x.o)] = true
	}
	c.Count("distinct orders of the probe suite over 400 seeds", len(orders))
	if len(reached["containers"]) != 25 || len(reached["specs"]) != 100 {
		var l []string
		for k := range reached["specs"] {
			l = append(l, k)
		}
		sort.Strings(l)
		c.Fail("", fmt.Sprintf("over 200 seeds only %d of 25 (container, position) and %d of 100 (spec, position) pairs were reached", len(reached["containers"]), len(reached["specs"])), map[string][]byte{"reached.txt": []byte(strings.Join(l, "\n"))})
	}
	c.Eval("probe")
}

// ---------------------------------------------------------------- C26 dry run and preview

func checkDry(c *Ctx) {
	parallelDo(N(2500, 60000), workers(), func(i int) {
		r := rng("C26", i)
		g := defaultG
		g.Stop, g.CleanupStop, g.SuiteStop, g.ReportStop = 0, 0, 0, 0
		g.Flake, g.MustPass = 0, 0
		g.Focus, g.Pending, g.Locs = .08, .08, r.Intn(2) == 0
		g.Reports, g.RSuite = .2, .3
		s := genSuite(r, g)
		cfg := genCfg(r, s, CG{Filters: .25, RandAll: .4, FailOnPending: .1, FailOnEmpty: .1})
		fail := func(run *SuiteRun, f string, a ...any) {
			c.Fail("", fmt.Sprintf("case %d seed %d args %v: ", i, *flagSeed, cfg.Args())+fmt.Sprintf(f, a...), run.Files())
		}
		real := c.runSuite(s, RunOpts{Args: cfg.Args()})
		dcfg := *cfg
		dcfg.DryRun = true
		dry := c.runSuite(s, RunOpts{Args: dcfg.Args()})
		ps := cloneSuite(s)
		ps.Preview = true
		prev := c.runSuite(ps, RunOpts{Args: cfg.Args()})
		defer real.Clean()
		defer dry.Clean()
		defer prev.Clean()
		if real.Report == nil || dry.Report == nil || prev.Report == nil {
			fail(dry, "a run has no report: real %s dry %s preview %s\n%s", real.RepErr, dry.RepErr, prev.RepErr, trunc(prev.Res.Out, 1500))
			return
		}
		nodes := nodeByID(s)
		for _, e := range dry.Events {
			if e.E == "enter" && (nodes[e.N] == nil || !strings.HasPrefix(nodes[e.N].K, "Report")) {
				fail(dry, "a dry run ran the body of node %d", e.N)
			}
		}
		list := func(rep *Rep) (string, int) {
			var l []string
			n := 0
			for _, x := range rep.SpecReports {
				if x.LeafNodeType == "It" {
					l = append(l, fmt.Sprintf("%d:%s", leafID(x.LeafNodeText), x.State))
					n++
				}
			}
			return strings.Join(l, " "), n
		}
		lr, n := list(real.Report)
		ld, _ := list(dry.Report)
		if lr != ld {
			fail(dry, "specs and states of the dry run %s, of the real run %s", ld, lr)
		}
		if real.Report.PreRunStats != dry.Report.PreRunStats {
			fail(dry, "pre-run stats differ: dry %+v real %+v", dry.Report.PreRunStats, real.Report.PreRunStats)
		}
		if real.Report.SuiteSucceeded != dry.Report.SuiteSucceeded || real.Res.Exit != dry.Res.Exit {
			fail(dry, "outcome differs: dry %v/%d real %v/%d", dry.Report.SuiteSucceeded, dry.Res.Exit, real.Report.SuiteSucceeded, real.Res.Exit)
		}
		// preview
		lp := "none"
		var pv struct {
			Specs       []struct{ Leaf, Type, State string }
			Total, Will int
			Focus       bool
		}
		before := true
		for _, e := range prev.Events {
			if e.E == "preview" {
				before = false
				json.Unmarshal([]byte(e.X), &pv)
				var l []string
				for _, x := range pv.Specs {
					if x.Type == "It" {
						l = append(l, fmt.Sprintf("%d:%s", leafID(x.Leaf), x.State))
					}
				}
				lp = strings.Join(l, " ")
			}
			if e.E == "enter" && before && (nodes[e.N] == nil || !strings.HasPrefix(nodes[e.N].K, "Report")) {
				fail(prev, "previewing ran the body of node %d", e.N)
			}
		}
		if lp != lr {
			fail(prev, "preview lists %s, the real run has %s", lp, lr)
		}
		if pv.Total != real.Report.PreRunStats.TotalSpecs || pv.Will != real.Report.PreRunStats.SpecsThatWillRun || pv.Focus != real.Report.SuiteHasProgrammaticFocus {
			fail(prev, "preview totals %d/%d/%v, real run %+v/%v", pv.Total, pv.Will, pv.Focus, real.Report.PreRunStats, real.Report.SuiteHasProgrammaticFocus)
		}
		// the run after the preview is the real run
		sub := func(run *SuiteRun, after bool) string {
			var l []string
			on := !after
			for _, e := range run.Events {
				if e.E == "preview" {
					on = true
				}
				if on && e.E == "enter" && (nodes[e.N] == nil || !strings.HasPrefix(nodes[e.N].K, "Report")) {
					l = append(l, fmt.Sprintf("%d/%d/%d", e.N, e.Part, e.Spec))
				}
			}
			return strings.Join(l, " ")
		}
		if a, b := sub(real, false), sub(prev, true); a != b {
			fail(prev, "the run after a preview executes %s, without preview %s", b, a)
		}
		lq, _ := list(prev.Report)
		if lq != lr || prev.Res.Exit != real.Res.Exit || prev.Report.SuiteSucceeded != real.Report.SuiteSucceeded {
			fail(prev, "the run after a preview reports %s (exit %d), without preview %s (exit %d)", lq, prev.Res.Exit, lr, real.Res.Exit)
		}
		c.Count("specs listed", n)
		c.Count("specs that would run", real.Report.PreRunStats.SpecsThatWillRun)
		c.Count("triples compared", 1)
		sig := ""
		if n > 0 {
			sig = sigHash(lr)
		}
		c.Eval(sig)
		if i < 3 {
			c.Sample(map[string]any{"case": i, "args": cfg.Args(), "list": lr})
		}
	})
}

func init() {
	checks["C06"] = Check{Level: "exploration", Rule: "distinct execution orders observed (hash of the order of subject bodies under both randomisation modes)", Run: checkOrder}
	checks["C26"] = Check{Level: "exploration", Rule: "distinct lists of (spec, state) compared between the dry run, the preview and the real run; empty suites are trivial", Run: checkDry}
}

package main

import (
	"fmt"
	"math/rand"
	"strings"
	"time"

	"github.com/onsi/ginkgo/v2/internal/zzverif/sdoc"
)

func interruptCase(r *rand.Rand) (*sdoc.Suite, *Cfg) {
	p := func(f float64) bool { return r.Float64() < f }
	for try := 0; try < 80; try++ {
		g := defaultG
		g.Ctx, g.Stop, g.Cleanup, g.CleanupStop, g.SuiteStop = .75, .05, .35, .06, .04
		g.Abort, g.Skip, g.Specs, g.Depth = 0, .1, 4, 2
		g.Reports, g.RSuite, g.Flake, g.MustPass, g.T, g.By, g.SuiteNodes = .4, .5, .1, .06, 0, .1, .7
		s := genSuite(r, g)
		cfg := genCfg(r, s, CG{FailFast: .1, RandAll: .2})
		var nodes []*sdoc.Node
		var defers []*sdoc.Act
		under := map[int][]int{}
		s.Walk(func(n *sdoc.Node, anc []*sdoc.Node) {
			if n.K == "container" || n.Via == "nobody" {
				return
			}
			nodes = append(nodes, n)
			for i := range n.Body {
				if n.Body[i].K == "defer" {
					defers = append(defers, &n.Body[i])
				}
			}
			if len(anc) > 0 {
				under[n.ID] = specIDs(anc[len(anc)-1].Kids)
			} else if !isSuiteKind(n.K) && n.K != "it" {
				under[n.ID] = specIDs(s.Top)
			}
		})
		mk := func(id int, ctx bool) []sdoc.Act {
			a := sdoc.Act{K: "interrupt", N: 1, S: []string{"int", "int", "term"}[r.Intn(3)]}
			if ctx && p(.2) {
				a.N = 2
			}
			out := []sdoc.Act{a}
			if p(.1) {
				out = append([]sdoc.Act{{K: "rfail", S: fmt.Sprintf("earlier-%d", id)}}, out...)
			}
			switch r.Intn(7) {
			case 0:
				out = append(out, sdoc.Act{K: "fail", S: fmt.Sprintf("unwinding-%d", id)})
			case 1:
				out = append(out, sdoc.Act{K: "panic", S: fmt.Sprintf("unwinding-%d", id)})
			case 2:
				out = append(out, sdoc.Act{K: "skip", S: fmt.Sprintf("unwinding-%d", id)})
			case 3:
				out = append(out, sdoc.Act{K: "sleep", N: 30})
			}
			return out
		}
		for i := 0; i < 1+r.Intn(4); i++ {
			if len(defers) > 0 && p(.2) {
				d := defers[r.Intn(len(defers))]
				d.B = append(d.B, mk(d.ID, d.V == "ctx" || d.V == "ctxarg")...)
				continue
			}
			n := nodes[r.Intn(len(nodes))]
			as := mk(n.ID, n.Ctx)
			if n.Ctx && p(.15) {
				n.GracePeriod, n.HasGrace = 40+r.Intn(60), true
				as[len(as)-1].V = "block"
				if as[len(as)-1].K != "interrupt" {
					as[len(as)-1].V = ""
				}
			}
			var sp, inv []int
			if u := under[n.ID]; len(u) > 1 && p(.8) {
				sp = []int{u[r.Intn(len(u))]}
			}
			if p(.3) {
				inv = [][]int{{0}, {1}, {0, 1}}[r.Intn(3)]
			}
			for j := range as {
				as[j].Spec, as[j].Inv = sp, inv
			}
			if n.Body2 != nil && p(.5) {
				n.Body2 = append(as, n.Body2...)
			} else if p(.5) {
				n.Body = append(as, n.Body...)
			} else {
				n.Body = append(n.Body, as...)
			}
		}
		if p(.3) { // escalate in a reporting node
			var reps []*sdoc.Node
			for _, n := range nodes {
				if strings.HasPrefix(n.K, "ReportAfter") {
					reps = append(reps, n)
				}
			}
			if len(reps) > 0 {
				n := reps[r.Intn(len(reps))]
				n.Body = append(n.Body, mk(n.ID, n.Ctx)...)
			}
		}
		var order []int
		for _, sp := range flatten(s) {
			order = append(order, sp.it.ID)
		}
		k := newClock(s, cfg, nil)
		simulateClk(s, cfg, order, k)
		if k.bad != "" || k.level == 0 || k.now.lo > 2500 {
			continue
		}
		return s, cfg
	}
	return nil, nil
}

func checkInterrupts(c *Ctx) {
	cats := map[string]bool{"noreport": true, "bodies": true, "teardown": true, "attempts": true, "state": true, "failure": true, "additional": true, "success": true, "exit": true, "ctx": true, "suitenodes": true, "reportset": true, "reportnodes": true, "totals": true}
	parallelDo(N(700, 15000), 2*workers(), func(i int) {
		if c.NViol() >= 5 || *flagOnly >= 1000000 {
			return
		}
		r := rng("C15", i)
		s, cfg := interruptCase(r)
		if s == nil {
			return
		}
		cli := i%6 == 5
		var run *SuiteRun
		var l []string
		for try := 0; ; try++ {
			run = c.runSuite(s, RunOpts{Args: cfg.Args(), CLI: cli, Limit: time.Duration(60+120*try) * time.Second})
			slow := false
			l, slow = judgeInterrupts(c, s, cfg, run, cats)
			if len(l) == 0 || !slow || try == 1 {
				break
			}
			run.Clean()
		}
		if *flagDump {
			fmt.Println(strings.Join(l, "\n"))
			for _, e := range run.Events {
				fmt.Printf("   %8.1f %+v\n", float64(e.T-run.Events[0].T)/1e6, e)
			}
		}
		if len(l) > 0 {
			c.Fail("", fmt.Sprintf("case %d (seed %d, args %v, cli %v):\n%s", i, *flagSeed, cfg.Args(), cli, strings.Join(l, "\n")), run.Files())
		}
		run.Clean()
	})
	parallelDo(N(150, 2000), workers(), func(i int) {
		if *flagOnly >= 1000000 {
			interruptParallel(c, i-1000000)
		} else if *flagOnly < 0 && c.NViol() < 5 {
			interruptParallel(c, i)
		}
	})
}

func judgeInterrupts(c *Ctx, s *sdoc.Suite, cfg *Cfg, run *SuiteRun, cats map[string]bool) (l []string, slow bool) {
	bad := func(f string, a ...any) { l = append(l, fmt.Sprintf(f, a...)) }
	if run.Res.TimedOut {
		bad("the run did not end")
		return l, true
	}
	nsig := 0
	for _, e := range run.Events {
		switch e.E {
		case "safety":
			bad("node %d (spec %d) was still waiting 20 s after the interrupt: not cancelled or not abandoned", e.N, e.Spec)
			return l, true
		case "prevlive":
			bad("when node %d started the contexts of %d nodes that had ended were still live", e.N, e.Inv)
		case "cancelled":
			if e.X != "Interrupted by User" {
				bad("node %d: context cancelled with cause %q", e.N, e.X)
			}
		case "sig":
			nsig++
		}
	}
	if run.Report == nil {
		if nsig < 3 {
			bad("no report: %s (exit %d)\n%s", run.RepErr, run.Res.Exit, trunc(run.Res.Out, 1500))
			return
		}
		n, after := 0, 0
		for _, e := range run.Events {
			if e.E == "sig" {
				n++
			} else if e.E == "enter" && n >= 3 {
				after++
				bad("node %d started after the third interrupt", e.N)
			}
		}
		if run.Res.Exit == 0 {
			bad("exit status 0 after three interrupts")
		}
		c.Count("runs that ended without a report after three interrupts", 1)
		c.Eval(sigHash("3", len(run.Events)))
		return
	}
	k := newClock(s, cfg, run.Events)
	x := simulateClk(s, cfg, orderOf(run.Report), k)
	if k.bad != "" {
		bad("harness: %s", k.bad)
		return
	}
	if k.amb != "" || k.level == 0 {
		c.Count("runs not compared ("+k.amb+")", 1)
		c.Eval("")
		return
	}
	x.Level = k.level
	for _, d := range compareWith(s, cfg, run, x) {
		if cats[d.Cat] {
			bad("%s: %s", d.Cat, d.Msg)
		}
	}
	if run.Res.Exit == 0 || run.Report.SuiteSucceeded {
		bad("an interrupted run was successful: exit %d, suite succeeded %v", run.Res.Exit, run.Report.SuiteSucceeded)
	}
	if len(l) > 0 {
		return
	}
	sig := fmt.Sprint(len(x.Events), k.level)
	for _, t := range k.to {
		sig += x.Events[t.Ev].K + t.Kind
		c.Count("first interrupt in: "+x.Events[t.Ev].K, 1)
	}
	c.Count(fmt.Sprintf("runs that reached interrupt level %d", min(k.level, 3)), 1)
	c.Count("bodies observed", len(x.Events))
	for _, r := range x.Reps {
		c.Count("state:"+r.State, 1)
	}
	c.Eval(sigHash(sig))
	if k.level > 1 {
		c.Sample(map[string]any{"args": cfg.Args(), "level": k.level, "first": x.Events[k.to[0].Ev].K})
	}
	return
}

// interruptParallel: the whole process group of a parallel run is interrupted once or twice.
func interruptParallel(c *Ctx, i int) {
	r := rng("C15/par", i)
	id := 0
	nid := func() int { id++; return id }
	line := 0
	mk := func(k string, body ...sdoc.Act) *sdoc.Node {
		line++
		n := &sdoc.Node{ID: nid(), K: k, Ctx: true, Body: body, Loc: sdoc.Loc{F: "/synthetic/p.go", L: line}}
		switch k {
		case "it":
			n.Text = fmt.Sprintf("S%d x", n.ID)
		case "container":
			n.Text, n.Ctx = fmt.Sprintf("C%d", n.ID), false
		case "ReportAfterSuite", "ReportBeforeSuite":
			n.Text = "R"
		}
		return n
	}
	nap := func() sdoc.Act { return sdoc.Act{K: "nap", N: 1 + r.Intn(25)} }
	two := r.Intn(4) == 0
	fire := func() sdoc.Act { return sdoc.Act{K: "interrupt", N: 1, S: []string{"int", "term"}[r.Intn(2)]} }
	var its []*sdoc.Node
	afterOf := map[int][]int{} // spec -> AfterEach nodes
	var top []*sdoc.Node
	topAfter := mk("AfterEach", nap())
	long := r.Intn(3) == 0 // cleanup outlasts the interval at which processes look for aborts elsewhere
	top = append(top, mk("BeforeEach", nap(), sdoc.Act{K: "defer", ID: nid(), V: "ctx"}), topAfter)
	sas := r.Intn(2) == 0
	bs := mk("BeforeSuite", nap(), sdoc.Act{K: "defer", ID: nid()})
	as := mk("AfterSuite", nap())
	if sas {
		as.K = "SynchronizedAfterSuite"
		as.Body2 = []sdoc.Act{nap()}
	}
	top = append(top, bs, as, mk("ReportAfterSuite"), mk("ReportAfterEach"))
	for k := 0; k < 3+r.Intn(4); k++ {
		cont := mk("container")
		ae := mk("AfterEach", nap())
		if long && r.Intn(2) == 0 {
			ae.Body[0].N = 600 + r.Intn(600)
		}
		be := mk("BeforeEach", nap(), sdoc.Act{K: "defer", ID: nid(), V: "ctx"})
		cont.Kids = append(cont.Kids, ae, be)
		for j := 0; j < 1+r.Intn(4); j++ {
			it := mk("it", nap(), sdoc.Act{K: "defer", ID: nid(), V: ""})
			it.Serial = r.Intn(12) == 0
			afterOf[it.ID] = []int{ae.ID, topAfter.ID}
			its = append(its, it)
			cont.Kids = append(cont.Kids, it)
		}
		top = append(top, cont)
	}
	// who sends the signal
	at := []*sdoc.Node{its[r.Intn(len(its))]}
	if r.Intn(6) == 0 {
		at = []*sdoc.Node{bs, as}
		at = at[r.Intn(2):][:1]
	}
	f := fire()
	if at[0] == bs || at[0] == as {
		f.Proc = []int{1}
	}
	abortFirst := len(its) > 2 && r.Intn(5) == 0 // a failure elsewhere aborts the run before the user interrupts it
	if abortFirst {
		two, at = false, []*sdoc.Node{topAfter}
		f = fire()
		f.Spec = []int{its[0].ID}
		for _, it := range its {
			it.Serial = false
			it.Body = append([]sdoc.Act{{K: "nap", N: 100}}, it.Body...)
		}
		its[0].Body[0].N = 1500
		its[1].Body = append(its[1].Body, sdoc.Act{K: "fail", S: "aborts"})
	}
	at[0].Body = append(at[0].Body, f)
	if abortFirst {
	} else if r.Intn(3) == 0 {
		at[0].Body = append(at[0].Body, sdoc.Act{K: "fail", S: "unwinding", Spec: f.Spec, Proc: f.Proc})
	}
	if two {
		topAfter.Body = append(topAfter.Body, sdoc.Act{K: "interrupt", N: 1, Spec: []int{at[0].ID}})
	}
	s := &sdoc.Suite{Desc: "par", Top: top}
	procs := 2 + r.Intn(3)
	args := []string{fmt.Sprintf("seed=%d", 1+r.Intn(1000)), "randomize-all"}
	ff := r.Intn(2) == 0 || abortFirst
	if ff {
		args = append(args, "fail-fast")
	}
	run := c.runSuite(s, RunOpts{Args: args, Procs: procs, HTTP: r.Intn(3) == 0, Limit: 120 * time.Second})
	defer run.Clean()
	var l []string
	bad := func(f string, a ...any) { l = append(l, fmt.Sprintf(f, a...)) }
	kind := map[int]string{}
	s.Walk(func(n *sdoc.Node, _ []*sdoc.Node) { kind[n.ID] = n.K })
	sigs, firstSig := 0, int64(0)
	for _, e := range run.Events {
		if e.E == "sig" {
			sigs++
			if firstSig == 0 {
				firstSig = e.T
			}
		}
	}
	if run.Res.TimedOut {
		bad("the run did not end within 120 s")
	} else if sigs == 0 {
		c.Eval("")
		return
	} else {
		if run.Res.Exit == 0 {
			bad("exit status 0 after an interrupt")
		}
		if len(run.Res.Survivors) > 0 {
			bad("processes left: %v", run.Res.Survivors)
		}
		dead := map[int]bool{} // processes that have noticed
		bal, done := map[string]int{}, map[string]int{}
		var itProc = map[int]int{}
		noticed := 0
		for _, e := range run.Events {
			if e.P == 0 {
				continue
			}
			switch e.E {
			case "cancelled", "napcut":
				if !dead[e.P] {
					noticed++
				}
				dead[e.P] = true
				if e.T < firstSig && !abortFirst {
					bad("process %d, node %d: cancelled before any signal", e.P, e.N)
				}
				if e.X != "Interrupted by User" && e.X != "Interrupted by Other Ginkgo Process" {
					bad("process %d, node %d: cancelled with cause %q", e.P, e.N, e.X)
				}
			case "safety":
				bad("process %d, node %d: its context was not cancelled within 20 s", e.P, e.N)
			case "reg":
				bal[fmt.Sprintf("%d/%d", e.P, e.N)]++
			case "enter":
				k := kind[e.N]
				if k == "" {
					done[fmt.Sprintf("%d/%d", e.P, e.N)]++
				} else {
					done[fmt.Sprintf("%d/%d/%d", e.P, e.N, e.Spec)]++
				}
				if dead[e.P] && (k == "it" || strings.HasPrefix(k, "Before") || k == "JustBeforeEach") {
					bad("process %d: %s %d (spec %d) started after the process had been interrupted", e.P, k, e.N, e.Spec)
				}
				if k == "it" {
					itProc[e.Spec] = e.P
				}
			}
		}
		if sigs == 1 {
			for k, n := range bal {
				if done[k] != n {
					bad("cleanup %s (process/node): registered %d times, ran %d times after a single interrupt", k, n, done[k])
				}
			}
			for sp, p := range itProc {
				for _, a := range afterOf[sp] {
					if done[fmt.Sprintf("%d/%d/%d", p, a, sp)] != 1 {
						bad("process %d: AfterEach %d ran %d times for spec %d after a single interrupt", p, a, done[fmt.Sprintf("%d/%d/%d", p, a, sp)], sp)
					}
				}
			}
			for p := 1; p <= procs; p++ {
				if done[fmt.Sprintf("%d/%d/0", p, as.ID)] < 1 && done[fmt.Sprintf("%d/%d/0", p, bs.ID)] > 0 {
					bad("process %d: its AfterSuite did not run after a single interrupt", p)
				}
			}
		}
		ready := map[int]bool{} // processes that certainly handled signals by then; others may simply have been killed by it
		for _, e := range run.Events {
			if e.E == "enter" && e.T < firstSig {
				ready[e.P] = true
			}
		}
		if run.Report == nil && len(ready) < procs {
			c.Count("parallel runs interrupted while processes were starting", 1)
			c.Eval("")
		} else if run.Report == nil {
			bad("no report: %s (exit %d)\n%s", run.RepErr, run.Res.Exit, trunc(run.Res.Out, 1000))
		} else {
			if run.Report.SuiteSucceeded {
				bad("the interrupted suite succeeded")
			}
			seen := map[int]int{}
			nspec := 0
			for _, rr := range run.Report.SpecReports {
				if rr.LeafNodeType != "It" {
					continue
				}
				nspec++
				sp := leafID(rr.LeafNodeText)
				seen[sp]++
				ran := done[fmt.Sprintf("%d/%d/%d", rr.ParallelProcess, sp, sp)] > 0
				if rr.State == "passed" && !ran {
					bad("spec %d passed without having run", sp)
				}
			}
			if at[0] != bs {
				for _, it := range its {
					if seen[it.ID] != 1 {
						bad("spec %d was reported %d times", it.ID, seen[it.ID])
					}
				}
			}
			c.Count("parallel runs interrupted", 1)
			if abortFirst {
				c.Count("parallel runs interrupted after an abort", 1)
			}
			c.Count("processes that noticed in a running body", noticed)
			c.Eval(sigHash(procs, ff, sigs, noticed, nspec))
		}
	}
	if len(l) > 0 {
		if *flagDump {
			for _, e := range run.Events {
				fmt.Printf("   %8.1f %+v\n", float64(e.T-run.Events[0].T)/1e6, e)
			}
		}
		c.Fail("", fmt.Sprintf("parallel case %d (seed %d, procs %d, args %v):\n%s", i, *flagSeed, procs, args, strings.Join(l, "\n")), run.Files())
	}
}

func init() {
	checks["C15"] = Check{Level: "fault_enumeration", Rule: "a serial run counts as distinct by the number of bodies, the level of interruption reached and the kind of node interrupted first; a parallel one by processes, options, signals and the number of processes caught in a body", Run: checkInterrupts,
		Assume: []string{"signals are sent by bodies of the suite to the whole process group, each after the effect of the previous one"}}
}

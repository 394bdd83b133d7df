package main

import (
	"fmt"
	"math/rand"
	"strings"
	"time"

	"github.com/onsi/ginkgo/v2/internal/zzverif/sdoc"
)

const waitSafety = 20000

// timed gives some nodes of a generated suite timeouts and bodies that outlast them.
func timed(r *rand.Rand, s *sdoc.Suite, cfg *Cfg) {
	p := func(f float64) bool { return r.Float64() < f }
	short := func() int { return 40 + r.Intn(110) }
	long := func() int { return []int{8000, 60000, 600000}[r.Intn(3)] }
	var ctxNodes, all []*sdoc.Node
	var defers []*sdoc.Act
	under := map[int][]int{}
	s.Walk(func(n *sdoc.Node, anc []*sdoc.Node) {
		if n.K == "container" || n.Via == "nobody" {
			return
		}
		var acts func(as []sdoc.Act)
		acts = func(as []sdoc.Act) {
			for i := range as {
				if as[i].K == "defer" {
					defers = append(defers, &as[i])
				}
				acts(as[i].B)
			}
		}
		acts(n.Body)
		acts(n.Body2)
		all = append(all, n)
		if n.Ctx {
			ctxNodes = append(ctxNodes, n)
		}
		if len(anc) > 0 {
			under[n.ID] = specIDs(anc[len(anc)-1].Kids)
		} else if !isSuiteKind(n.K) && n.K != "it" {
			under[n.ID] = specIDs(s.Top)
		}
	})
	for _, n := range ctxNodes { // timeouts that do not expire
		if p(.3) {
			n.NodeTimeout = long()
		}
		if n.K == "it" && p(.3) {
			n.SpecTimeout = long()
		}
		if p(.15) {
			n.GracePeriod, n.HasGrace = long(), true
		}
		if p(.15) {
			n.Body = append(n.Body, sdoc.Act{K: "sleep", N: 5 + r.Intn(40)})
		}
	}
	for _, d := range defers {
		if (d.V == "ctx" || d.V == "ctxarg") && p(.4) {
			d.A = append(d.A, fmt.Sprintf("nt=%d", long()))
		}
	}
	restrict := func(id int, a sdoc.Act) sdoc.Act {
		if u := under[id]; len(u) > 1 {
			a.Spec = []int{u[r.Intn(len(u))]}
			if p(.3) {
				a.Spec = append(a.Spec, u[r.Intn(len(u))])
			}
		}
		if p(.3) {
			a.Inv = [][]int{{0}, {1}, {0, 1}}[r.Intn(3)]
		}
		return a
	}
	insert := func(id int, body []sdoc.Act, as ...sdoc.Act) []sdoc.Act {
		i := 0
		if len(body) > 0 {
			i = r.Intn(len(body) + 1)
		}
		first := restrict(id, as[0])
		var out []sdoc.Act
		out = append(out, body[:i]...)
		for _, a := range as {
			a.Spec, a.Inv = first.Spec, first.Inv
			out = append(out, a)
		}
		return append(out, body[i:]...)
	}
	after := func(id int) []sdoc.Act {
		switch r.Intn(6) {
		case 0:
			return []sdoc.Act{{K: "fail", S: fmt.Sprintf("unwinding-%d", id)}}
		case 1:
			return []sdoc.Act{{K: "panic", S: fmt.Sprintf("unwinding-%d", id), V: []string{"", "err", "nilmap"}[r.Intn(3)]}}
		case 2:
			return []sdoc.Act{{K: "sleep", N: 20 + r.Intn(60)}}
		case 3:
			return []sdoc.Act{{K: "rfail", S: fmt.Sprintf("unwinding-%d", id)}, {K: "gw", S: "<unwound>"}}
		}
		return nil
	}
	before := func(id int) []sdoc.Act {
		if p(.08) {
			return []sdoc.Act{{K: "rfail", S: fmt.Sprintf("earlier-%d", id)}}
		}
		return nil
	}
	targets := 1 + r.Intn(3)
	for i := 0; i < targets; i++ {
		if len(defers) > 0 && p(.2) { // a cleanup that outlasts its timeout
			d := defers[r.Intn(len(defers))]
			if d.V == "" {
				d.V = "ctx"
			}
			if d.V == "ctx" || d.V == "ctxarg" {
				d.A = []string{fmt.Sprintf("nt=%d", short())}
				if p(.3) {
					d.A = append(d.A, fmt.Sprintf("grace=%d", short()))
					d.B = append(d.B, sdoc.Act{K: "block", N: waitSafety})
				} else {
					d.B = append(d.B, append([]sdoc.Act{{K: "waitctx", N: waitSafety}}, after(d.ID)...)...)
				}
			}
			continue
		}
		if cfg.Timeout <= 0 && p(.12) { // a body without a context under the timeout of its spec
			its := []*sdoc.Node{}
			for _, n := range ctxNodes {
				if n.K == "it" && !n.Pending {
					its = append(its, n)
				}
			}
			if len(its) > 0 {
				it := its[r.Intn(len(its))]
				for _, n := range all {
					if has(under[n.ID], it.ID) && !n.Ctx && (strings.Contains(n.K, "BeforeEach") || n.K == "BeforeAll") && !strings.HasPrefix(n.K, "Report") {
						it.SpecTimeout = short() + 30
						n.Body = append(n.Body, sdoc.Act{K: "block", N: waitSafety, Spec: []int{it.ID}})
						break
					}
				}
				continue
			}
		}
		if len(ctxNodes) == 0 {
			return
		}
		n := ctxNodes[r.Intn(len(ctxNodes))]
		hasShort := false
		if n.K == "it" && p(.5) {
			n.SpecTimeout = short() + []int{0, 150}[r.Intn(2)]
			hasShort = true
		}
		if !hasShort || p(.5) {
			n.NodeTimeout = short()
			if hasShort && p(.5) { // both short, clearly apart
				n.NodeTimeout = n.SpecTimeout + 100
			}
		}
		body := &n.Body
		if n.Body2 != nil && p(.5) {
			body = &n.Body2
		}
		if p(.25) {
			n.GracePeriod, n.HasGrace = 40+r.Intn(60), true
			*body = insert(n.ID, *body, append(before(n.ID), sdoc.Act{K: "block", N: waitSafety})...)
		} else {
			*body = insert(n.ID, *body, append(before(n.ID), append([]sdoc.Act{{K: "waitctx", N: waitSafety}}, after(n.ID)...)...)...)
		}
	}
	// specs out of time: their teardown gets the node timeout or the grace period
	for _, n := range ctxNodes {
		if strings.Contains(n.K, "After") && !strings.HasPrefix(n.K, "Report") && n.NodeTimeout == 0 && !n.HasGrace && p(.25) {
			for _, it := range ctxNodes {
				if it.K == "it" && it.SpecTimeout > 0 && it.SpecTimeout < 400 && has(under[n.ID], it.ID) {
					n.GracePeriod, n.HasGrace = short(), true
					n.Body = append(n.Body, sdoc.Act{K: "waitctx", N: waitSafety, Spec: []int{it.ID}})
					break
				}
			}
		}
	}
	if p(.12) { // the suite's timeout: something in the suite waits for nothing but that
		for k := 0; k < 20; k++ {
			n := ctxNodes[r.Intn(len(ctxNodes))]
			if n.K == "it" && !n.Pending || n.K == "BeforeEach" || n.K == "BeforeSuite" || n.K == "BeforeAll" {
				n.NodeTimeout, n.SpecTimeout = 0, 0
				n.HasGrace = false
				n.Body = append([]sdoc.Act{restrict(n.ID, sdoc.Act{K: "waitctx", N: waitSafety})}, n.Body...)
				cfg.Timeout = 500 + r.Intn(400)
				break
			}
		}
	}
}

func has(xs []int, x int) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// leakSuite: a leaked body returns normally while a later spec is failing.
func leakSuite(r *rand.Rand) *sdoc.Suite {
	x := &gen{r: r, g: defaultG}
	leak := x.node("it")
	leak.Ctx, leak.NodeTimeout, leak.GracePeriod, leak.HasGrace = true, 30+r.Intn(40), 10+r.Intn(40), true
	leak.Body = []sdoc.Act{{K: "block", S: "release", N: waitSafety}}
	if r.Intn(2) == 0 { // without a context, under the spec's timeout
		leak.NodeTimeout = 0
		leak.SpecTimeout = 30 + r.Intn(40)
	}
	hit := []sdoc.Act{{K: []string{"gofail", "rfail", "gopanic", "rskip"}[r.Intn(4)], S: "mine", V: ""}, {K: "touch", S: "release"}, {K: "sleep", N: 40}}
	b := x.node("it")
	c := x.node("container")
	c.Kids = []*sdoc.Node{leak}
	add := func(k string) {
		n := x.node(k)
		n.Ctx = r.Intn(2) == 0
		n.Body = hit
		n.Body[1].S = "release"
		c2 := x.node("container")
		c2.Kids = []*sdoc.Node{n, b}
		c.Kids = append(c.Kids, c2)
	}
	switch r.Intn(5) {
	case 0, 1:
		b.Body = hit
		c.Kids = append(c.Kids, b)
	case 2:
		add("BeforeEach")
	case 3:
		add("AfterEach")
	case 4:
		b.Body = []sdoc.Act{{K: "defer", ID: x.nid(), B: hit}}
		c.Kids = append(c.Kids, b)
	}
	c.Ordered, c.ContOnFail = true, true
	last := x.node("it")
	last.Ctx = true
	last.Body = []sdoc.Act{{K: "gw", S: "<last>"}}
	c.Kids = append(c.Kids, last)
	s := &sdoc.Suite{Desc: "leak", Top: []*sdoc.Node{c}}
	x.s = s
	x.relocate(s.Top, true)
	return s
}

func timeoutCase(r *rand.Rand, i int) (*sdoc.Suite, *Cfg) {
	for try := 0; try < 60; try++ {
		var s *sdoc.Suite
		var cfg *Cfg
		if i%8 == 7 {
			s = leakSuite(r)
			cfg = genCfg(r, s, CG{})
		} else {
			g := defaultG
			g.Ctx, g.Stop, g.Cleanup, g.CleanupStop, g.SuiteStop = .8, .05, .35, .06, .06
			g.Abort, g.Skip, g.Specs, g.Depth = 0, .1, 3, 2
			g.Reports, g.RSuite, g.Flake, g.MustPass, g.T, g.By = .15, .15, .1, .06, 0, .1
			s = genSuite(r, g)
			cfg = genCfg(r, s, CG{FailFast: .06})
			cfg.Timeout = -r.Intn(2)
			if r.Intn(8) == 0 {
				cfg.Grace = 5000
			}
			timed(r, s, cfg)
		}
		var order []int
		for _, sp := range flatten(s) {
			order = append(order, sp.it.ID)
		}
		k := newClock(s, cfg, nil)
		simulateClk(s, cfg, order, k)
		if k.bad != "" || len(k.to) == 0 || k.now.lo > 2500 {
			continue
		}
		return s, cfg
	}
	return nil, nil
}

func checkTimeouts(c *Ctx) {
	cats := map[string]bool{"noreport": true, "bodies": true, "teardown": true, "attempts": true, "state": true, "failure": true, "additional": true, "success": true, "exit": true, "ctx": true, "suitenodes": true, "reportset": true, "reportnodes": true, "totals": true, "gw": true, "entries": true}
	parallelDo(N(700, 9000), 2*workers(), func(i int) {
		if c.NViol() >= 5 {
			return
		}
		r := rng("C14", i)
		s, cfg := timeoutCase(r, i)
		if s == nil {
			return
		}
		var run *SuiteRun
		var l []string
		var k *clock
		for try := 0; ; try++ {
			run = c.runSuite(s, RunOpts{Args: cfg.Args(), Limit: time.Duration(60+120*try) * time.Second})
			slow := false
			l, k, slow = judgeTimeouts(c, s, cfg, run, cats)
			if len(l) == 0 || !slow || try == 1 {
				break
			}
			run.Clean()
		}
		if *flagDump {
			fmt.Println(strings.Join(l, "\n"))
			for _, e := range run.Events {
				fmt.Printf("   %8.1f %+v\n", float64(e.T-run.Events[0].T)/1e6, e)
			}
			if k != nil {
				fmt.Println("ambiguous:", k.amb, "expected:", k.to)
			}
		}
		if len(l) > 0 {
			c.Fail("", fmt.Sprintf("case %d (seed %d, args %v):\n%s", i, *flagSeed, cfg.Args(), strings.Join(l, "\n")), run.Files())
		}
		run.Clean()
	})
}

// judgeTimeouts: slow tells that the complaint rests on something not having happened in time, so is worth a retry.
func judgeTimeouts(c *Ctx, s *sdoc.Suite, cfg *Cfg, run *SuiteRun, cats map[string]bool) (l []string, k *clock, slow bool) {
	bad := func(f string, a ...any) { l = append(l, fmt.Sprintf(f, a...)) }
	if run.Res.TimedOut {
		bad("the run did not end: the framework did not move on")
		return l, nil, true
	}
	for _, e := range run.Events {
		switch e.E {
		case "safety":
			slow = true
			bad("node %d (spec %d) was still waiting %d s later: not cancelled or not abandoned", e.N, e.Spec, waitSafety/1000)
		case "prevlive":
			bad("when node %d started the contexts of %d nodes that had ended were still live", e.N, e.Inv)
		}
	}
	if slow {
		return
	}
	if run.Report == nil {
		bad("no report: %s (exit %d)\n%s", run.RepErr, run.Res.Exit, trunc(run.Res.Out, 1500))
		return
	}
	k = newClock(s, cfg, run.Events)
	x := simulateClk(s, cfg, orderOf(run.Report), k)
	if k.bad != "" {
		bad("harness: %s", k.bad)
		return
	}
	if k.amb != "" {
		c.Count("runs not compared (timing ambiguous: "+k.amb+")", 1)
		c.Eval("")
		return
	}
	for _, d := range compareWith(s, cfg, run, x) {
		if cats[d.Cat] {
			bad("%s: %s", d.Cat, d.Msg)
		}
	}
	if len(l) > 0 {
		return
	}
	var enters []int
	for i, e := range run.Events {
		if e.E == "enter" {
			enters = append(enters, i)
		}
	}
	leaks := map[string]int{}
	sig := fmt.Sprint(len(x.Events))
	for _, t := range k.to {
		en := run.Events[enters[t.Ev]]
		what := fmt.Sprintf("node %d/%d spec %d inv %d (%s timeout)", en.N, en.Part, en.Spec, en.Inv, t.Kind)
		c.Count("timed out: "+t.Kind, 1)
		c.Count("timed out node: "+x.Events[t.Ev].K, 1)
		sig += x.Events[t.Ev].K + t.Kind + fmt.Sprint(t.Leaked, t.Ctx)
		var cancelled *sdoc.Event
		for i := enters[t.Ev]; i < len(run.Events); i++ {
			e := &run.Events[i]
			if e.E == "cancelled" && e.N == en.N && e.Spec == en.Spec && e.Inv == en.Inv {
				cancelled = e
				break
			}
		}
		if !t.Leaked {
			if cancelled == nil {
				bad("%s: its context was not cancelled", what)
				continue
			}
			if want := t.Kind + " timeout occurred"; cancelled.X != want {
				bad("%s: context cancelled with cause %q, expected %q", what, cancelled.X, want)
			}
			if at := float64(cancelled.T) / 1e6; at < t.At.lo-2 {
				bad("%s: context cancelled %.1f ms before its timeout", what, t.At.lo-at)
			}
		} else {
			c.Count("leaked nodes", 1)
			if t.Ctx {
				leaks[fmt.Sprint(en.Spec)]++
			}
			if t.Ev+1 < len(enters) {
				next := float64(run.Events[enters[t.Ev+1]].T) / 1e6
				if next < t.At.lo+t.Grace-2 {
					bad("%s: the next node started %.1f ms before timeout and grace period were over", what, t.At.lo+t.Grace-next)
				}
				if next > t.At.hi+t.Grace+12000 {
					slow = true
					bad("%s: the framework moved on %.1f s after timeout and grace period were over", what, (next-t.At.hi-t.Grace)/1000)
				}
			}
		}
	}
	// nothing was cancelled that did not time out
	for _, e := range run.Events {
		if e.E != "cancelled" && !(e.E == "exit" && strings.Contains(e.X, "ctx=") && e.X != "ctx=live" && e.X != "ctx=-") {
			continue
		}
		ok := false
		for _, t := range k.to {
			en := run.Events[enters[t.Ev]]
			ok = ok || en.N == e.N && en.Spec == e.Spec && en.Inv == e.Inv
		}
		if !ok {
			bad("node %d (spec %d, inv %d): its context was dead (%s) before it ended", e.N, e.Spec, e.Inv, e.X)
		}
	}
	// progress reports
	got := map[string]int{}
	for _, r := range run.Report.SpecReports {
		key := "0"
		if r.LeafNodeType == "It" {
			key = fmt.Sprint(leafID(r.LeafNodeText))
		}
		for _, p := range r.ProgressReports {
			if strings.Contains(p.Message, "failed to exit in time") {
				got[key]++
			}
		}
		chk := func(f *RFail) {
			if strings.Contains(f.Message, " timeout occurred") && f.FailureNodeType != f.ProgressReport.CurrentNodeType {
				bad("timeout failure %q of a %s node carries a progress report of a %q node", f.Message, f.FailureNodeType, f.ProgressReport.CurrentNodeType)
			}
		}
		if r.State == "timedout" {
			chk(r.Failure)
		}
		for i := range r.AdditionalFailures {
			if r.AdditionalFailures[i].State == "timedout" {
				chk(&r.AdditionalFailures[i].Failure)
			}
		}
	}
	for key, n := range leaks {
		if got[key] != n {
			bad("spec %s: %d nodes leaked, %d reported as having failed to exit", key, n, got[key])
		}
	}
	for key, n := range got {
		if leaks[key] != n {
			bad("spec %s: %d nodes reported as having failed to exit, %d did", key, n, leaks[key])
		}
	}
	c.Count("bodies observed", len(x.Events))
	c.Eval(sigHash(sig))
	if len(k.to) > 1 {
		c.Sample(map[string]any{"args": cfg.Args(), "timeouts": fmt.Sprint(k.to)})
	}
	return
}

func init() {
	checks["C14"] = Check{Level: "exploration", Rule: "a run counts as distinct by the number of bodies and the sequence of (node kind, kind of timeout, leaked, interruptible) that timed out; runs whose timing leaves the expected order of events open are trivial", Run: checkTimeouts,
		Assume: []string{"instants are taken from a monotonic clock inside the bodies; no upper bound below 12 s is judged"}}
}

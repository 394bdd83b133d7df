package main

import (
	"fmt"
	"strings"

	"github.com/onsi/ginkgo/v2/internal/zzverif/sdoc"
)

// serialProfile is a biased workload whose runs are compared with the reference model.
type serialProfile struct {
	name string
	g    func(g *G)
	c    CG
	mut  func(i int, s *sdoc.Suite, c *Cfg)
}

var serialCats = map[string][]string{
	"C01": {"bodies", "teardown", "attempts", "overlap"},
	"C02": {"teardown", "cleanupargs", "ctx", "suitenodes"},
	"C03": {"reportset", "state", "success", "exit", "totals", "bodies", "noreport", "overlap"},
	"C04": {"failure", "additional", "state", "success", "exit"},
	"C05": {"bodies", "teardown", "state", "failure", "overlap"},
	"C07": {"selection", "state", "focusflag", "exit", "bodies", "reportset"},
	"C09": {"attempts", "state", "additional", "bodies", "teardown", "failure", "overlap"},
	"C16": {"bodies", "state", "success", "exit", "teardown", "suitenodes", "reportnodes", "overlap"},
	"C26": {"bodies", "state", "selection", "reportset", "teardown", "suitenodes", "overlap"},
	"C33": {"reportnodes", "state", "success", "failure", "exit"},
	"C34": {"suitenodes", "bodies", "state", "success", "exit", "teardown", "reportset", "overlap"},
}

func serialCheck(prof serialProfile, quick, thor int) func(c *Ctx) {
	return func(c *Ctx) {
		cats := map[string]bool{"noreport": true}
		for _, k := range serialCats[c.Prop] {
			cats[k] = true
		}
		parallelDo(N(quick, thor), workers(), func(i int) {
			r := rng(c.Prop+"/serial", i)
			g := defaultG
			prof.g(&g)
			s := genSuite(r, g)
			cfg := genCfg(r, s, prof.c)
			if prof.mut != nil {
				prof.mut(i, s, cfg)
			}
			runSerialCase(c, i, s, cfg, cats)
		})
	}
}

func runSerialCase(c *Ctx, i int, s *sdoc.Suite, cfg *Cfg, cats map[string]bool) {
	run := c.runSuite(s, RunOpts{Args: cfg.Args()})
	if run.Res.TimedOut {
		run.Clean()
		run = c.runSuite(s, RunOpts{Args: cfg.Args(), Limit: 240e9})
	}
	x, ds := compareSerial(s, cfg, run)
	if run.Res.TimedOut {
		ds = append(ds, Diff{"noreport", "the suite did not finish"})
	}
	var hit []Diff
	for _, d := range ds {
		if cats[d.Cat] || *flagDump {
			hit = append(hit, d)
		}
	}
	if x != nil {
		sig := fmt.Sprint(len(x.Events), x.OK)
		for _, e := range x.Events {
			sig += e.K[:2] + fmt.Sprint(e.Inv, e.Att)
		}
		for k, v := range x.Stats {
			c.Count(k, v)
		}
		for _, r := range x.Reps {
			sig += r.State[:2]
			c.Count("state:"+r.State, 1)
			if len(r.Add) > 0 {
				c.Count("reports with additional failures", 1)
			}
			if r.Attempts > 1 {
				c.Count("specs attempted more than once", 1)
			}
		}
		for _, e := range x.Events {
			c.Count("node:"+e.K, 1)
		}
		c.Count("bodies observed", len(x.Events))
		c.Sample(map[string]any{"case": i, "args": cfg.Args(), "specs": x.Total, "bodies": len(x.Events), "success": x.OK, "exit": run.Res.Exit})
		c.Eval(sigHash(sig))
	} else {
		c.Eval("")
	}
	if len(hit) > 0 {
		var l []string
		for _, d := range hit {
			l = append(l, d.Cat+": "+d.Msg)
		}
		if *flagDump {
			fmt.Println(strings.Join(l, "\n"))
			for _, e := range run.Events {
				fmt.Printf("   %+v\n", e)
			}
		}
		c.Fail("", fmt.Sprintf("case %d (stream %s, seed %d, args %v):\n%s", i, c.Prop, *flagSeed, cfg.Args(), strings.Join(l, "\n")), run.Files())
	}
	run.Clean()
}

func init() {
	reg := func(id, rule string, p serialProfile, q, t int) {
		checks[id] = Check{Level: "exploration", Rule: rule, Run: serialCheck(p, q, t)}
	}
	rule := "a case counts as distinct by the hash of the sequence of (node kind, invocation, attempt) its bodies produced together with the reported states; cases without a decodable report are trivial"
	reg("C01", rule, serialProfile{g: func(g *G) {
		g.Setup = 1
		g.Reports = 0
		g.SuiteNodes = .2
		g.RSuite = 0
		g.Stop = .06
		g.GW, g.Entry = .05, 0
		g.Locs = false
	}, c: CG{RandAll: .3}}, 3000, 60000)
	reg("C02", rule, serialProfile{g: func(g *G) { g.Cleanup = .5; g.Stop = .2; g.CleanupStop = .25; g.SuiteNodes = .7; g.Reports = .05 }, c: CG{RandAll: .2, FailFast: .1}}, 3000, 60000)
	reg("C03", rule, serialProfile{g: func(g *G) { g.Pending = .12; g.Skip = .25 }, c: CG{RandAll: .3, FailFast: .15, FailOnPending: .15, FailOnEmpty: .15, Filters: .12, Flake: .1, DryRun: .05}}, 3000, 60000)
	reg("C04", rule, serialProfile{g: func(g *G) { g.Stop = .3; g.CleanupStop = .4; g.T = .25; g.By = .3; g.ReportStop = .05 }, c: CG{Flake: .15}}, 3000, 60000)
	reg("C05", rule, serialProfile{g: func(g *G) {
		g.Ordered = .7
		g.Once = .5
		g.All = .8
		g.Pending = .1
		g.Focus = .05
		g.Specs = 5
		g.Reports = 0
		g.Cleanup = .3
	}, c: CG{RandAll: .3, Filters: .1, FailFast: .05}}, 3000, 60000)
	reg("C07", rule, serialProfile{g: func(g *G) {
		g.Focus = .12
		g.Pending = .12
		g.Labels = .5
		g.Locs = true
		g.Stop = .01
		g.Setup = .4
		g.Specs = 9
		g.SuiteNodes = .1
		g.Reports = 0
		g.RSuite = 0
	}, c: CG{Filters: .4, RandAll: .2}}, 3000, 60000)
	reg("C09", rule, serialProfile{g: func(g *G) { g.Flake = .3; g.MustPass = .3; g.Stop = .15; g.Setup = .6 }, c: CG{Flake: .2}}, 3000, 60000)
	reg("C16", rule, serialProfile{g: func(g *G) {
		g.Abort = .6
		g.Stop = .15
		g.Cleanup = .4
		g.SuiteNodes = .8
		g.RSuite = .7
		g.Reports = .4
	}, c: CG{FailFast: .5, RandAll: .2, Flake: .1}}, 3000, 60000)
	reg("C33", rule, serialProfile{g: func(g *G) { g.Reports = .9; g.RSuite = .9; g.ReportStop = .12; g.Pending = .12 }, c: CG{Filters: .1, DryRun: .05, FailFast: .1}}, 3000, 60000)
	reg("C34", rule, serialProfile{g: func(g *G) {
		g.SuiteNodes = 1
		g.SuiteStop = .3
		g.Cleanup = .6
		g.RSuite = .5
		g.Focus, g.Pending = .05, .3
		g.Specs = 3
	}, c: CG{Filters: .15}}, 3000, 60000)
}

package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/onsi/ginkgo/v2/internal/zzverif/sdoc"
	"github.com/onsi/ginkgo/v2/types"
)

// C31: suites built with the race detector whose nodes use the API from many goroutines at once while progress reports
// are asked for by signal and by polling. The race detector must stay silent, every run must end, and everything that
// was added before its node ended must be in that spec's report exactly once (cleanups: run exactly once).

func init() {
	checks["C31"] = Check{Level: "exploration", Run: runC31,
		Rule:   "distinct by the kinds of API use per node, the disturbance and the options",
		Assume: []string{"a race is only seen when both accesses happen in a run; races between user code and itself are avoided by the workload"}}
}

var raceKinds = []string{"entry", "by", "bycb", "gw", "logr", "tlog", "report", "ctxreport", "attach", "attachapi", "defer", "tcleanup", "conf", "name"}

func raceSuite(r *rand.Rand, disturb string) *sdoc.Suite {
	s := &sdoc.Suite{Desc: "race"}
	id := 0
	nid := func() int { id++; return id }
	kinds := func(k string) (out []string) {
		for _, x := range raceKinds {
			if (x == "defer" || x == "tcleanup") && (strings.HasPrefix(k, "Report") || k == "cleanup") {
				continue
			}
			if r.Intn(2) == 0 {
				out = append(out, x)
			}
		}
		if len(out) == 0 {
			out = []string{"entry", "gw"}
		}
		return
	}
	acts := func(k string, n int) (b []sdoc.Act) {
		for m := 1 + r.Intn(2); m > 0; m-- {
			ks := kinds(k)
			if r.Intn(8) == 0 && !strings.Contains(k, "Suite") {
				ks = append(ks, "fail")
			}
			b = append(b, sdoc.Act{K: "race", S: fmt.Sprintf("n%d", n), N: 2 + r.Intn(7), A: ks})
			if r.Intn(3) == 0 {
				b = append(b, sdoc.Act{K: "sleep", N: 1 + r.Intn(3)})
			}
			if r.Intn(4) == 0 && disturb == "sig" {
				b = append(b, sdoc.Act{K: "sig", V: "usr1"})
			}
		}
		return
	}
	node := func(k string) *sdoc.Node {
		n := &sdoc.Node{ID: nid(), K: k}
		n.Loc = sdoc.Loc{F: "/synthetic/race.go", L: n.ID}
		n.Body = acts(k, n.ID)
		if strings.HasPrefix(k, "Synchronized") {
			n.Body2 = acts(k, n.ID)
		}
		n.Ctx = r.Intn(2) == 0
		if n.Ctx && r.Intn(4) == 0 && !strings.Contains(k, "Report") {
			n.NodeTimeout = 1 + r.Intn(30) // may or may not elapse
			n.HasGrace, n.GracePeriod = true, 60000
		}
		return n
	}
	for t := 1 + r.Intn(2); t > 0; t-- {
		ct := &sdoc.Node{ID: nid(), K: "container", Text: fmt.Sprintf("C%d", id)}
		ct.Loc = sdoc.Loc{F: "/synthetic/race.go", L: ct.ID}
		ct.Ordered = r.Intn(3) == 0
		ks := []string{"BeforeEach", "AfterEach", "JustBeforeEach", "JustAfterEach", "ReportBeforeEach", "ReportAfterEach"}
		if ct.Ordered {
			ks = append(ks, "BeforeAll", "AfterAll")
		}
		for n := r.Intn(4); n > 0; n-- {
			ct.Kids = append(ct.Kids, node(ks[r.Intn(len(ks))]))
		}
		for n := 1 + r.Intn(3); n > 0; n-- {
			it := node("it")
			it.Text = fmt.Sprintf("S%d", it.ID)
			if r.Intn(4) == 0 {
				it.Flake = 2
			}
			if r.Intn(5) == 0 {
				it.Body = append(it.Body, sdoc.Act{K: "fail", S: "why", Inv: []int{0}})
			}
			ct.Kids = append(ct.Kids, it)
		}
		s.Top = append(s.Top, ct)
	}
	bs := node([]string{"BeforeSuite", "SynchronizedBeforeSuite"}[r.Intn(2)])
	bs.NodeTimeout = 0
	switch disturb {
	case "storm":
		bs.Body = append([]sdoc.Act{{K: "usr1storm", N: 200 + r.Intn(2000)}}, bs.Body...)
	case "bg":
		ks := []string{}
		for _, k := range []string{"entry", "gw", "by", "bycb", "report", "attach", "name"} {
			if r.Intn(2) == 0 {
				ks = append(ks, k)
			}
		}
		bs.Body = append([]sdoc.Act{{K: "racebg", N: 50 + r.Intn(500), A: append(ks, "entry")}}, bs.Body...)
	}
	if disturb == "storm" || disturb == "bg" || r.Intn(2) == 0 {
		s.Top = append(s.Top, bs)
	}
	if r.Intn(2) == 0 {
		n := node([]string{"AfterSuite", "SynchronizedAfterSuite"}[r.Intn(2)])
		n.NodeTimeout = 0
		s.Top = append(s.Top, n)
	}
	for _, k := range []string{"ReportBeforeSuite", "ReportAfterSuite"} {
		if r.Intn(3) == 0 {
			n := node(k)
			n.Text = "rep"
			s.Top = append(s.Top, n)
		}
	}
	return s
}

func runC31(c *Ctx) {
	parallelDo(N(170, 5000), workers()/2, func(i int) {
		r := rng("C31", i)
		disturb := []string{"", "sig", "storm", "storm", "poll", "bg", "bg"}[r.Intn(7)]
		s := raceSuite(r, disturb)
		o := RunOpts{Race: true, Limit: 100 * time.Second}
		if r.Intn(3) == 0 {
			o.Procs = 2
			o.HTTP = r.Intn(2) == 0
		}
		if disturb == "poll" || r.Intn(5) == 0 {
			o.Args = append(o.Args, "poll-progress-after=1ms", "poll-progress-interval=1ms")
		}
		o.Args = append(o.Args, []string{"v", "vv", "succinct", "show-node-events"}[r.Intn(4)])
		run := c.runSuite(s, o)
		defer run.Clean()
		if d := raceJudge(c, s, run, o, disturb); d != "" {
			f := run.Files()
			c.Fail(raceKey(d), fmt.Sprintf("run %d (%s, %v): %s", i, disturb, o, d), f)
		}
	})
}

// raceKey names a race by the two innermost framework functions involved.
func raceKey(d string) string {
	if !strings.HasPrefix(d, "data race") {
		return ""
	}
	l, _, _ := strings.Cut(d, "\n")
	return strings.ReplaceAll(strings.TrimPrefix(l, "data race: "), " ", "_")
}

var frameRe = regexp.MustCompile(`(?m)^  (\S+)\(\)\n +(\S+):(\d+)`)

// raceSite describes a race report by the innermost frame of either access that lies in the framework.
func raceSite(rep string) string {
	var sites []string
	for _, part := range strings.Split(rep, "\n\n") {
		if !strings.Contains(part, "ead at") && !strings.Contains(part, "rite at") && !strings.Contains(part, "ead of size") && !strings.Contains(part, "rite of size") {
			continue
		}
		site := "?"
		for _, m := range frameRe.FindAllStringSubmatch(part, -1) {
			if strings.Contains(m[1], "onsi/ginkgo") && !strings.Contains(m[1], "zzverif") {
				site = m[1][strings.LastIndex(m[1], "/")+1:]
				break
			}
		}
		sites = append(sites, site)
	}
	sort.Strings(sites)
	return strings.Join(sites, " / ")
}

func raceJudge(c *Ctx, s *sdoc.Suite, run *SuiteRun, o RunOpts, disturb string) string {
	files, _ := filepath.Glob(filepath.Join(run.Dir, "race.*"))
	var reps []string
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, rep := range strings.Split(string(b), "==================") {
			if strings.Contains(rep, "DATA RACE") {
				reps = append(reps, rep)
			}
		}
	}
	if len(reps) > 0 {
		return fmt.Sprintf("data race: %s\n%s", raceSite(reps[0]), reps[0])
	}
	if run.Res.TimedOut {
		return "the run does not end: " + trunc(run.Res.Out, 3000)
	}
	b, err := os.ReadFile(filepath.Join(run.Dir, "report.json"))
	if err != nil {
		return "no report: " + err.Error() + "\n" + trunc(run.Res.Out, 3000)
	}
	var rs []types.Report
	if err := json.Unmarshal(b, &rs); err != nil || len(rs) != 1 {
		return fmt.Sprintf("bad report: %v", err)
	}
	want := map[string]map[string]int{}
	ran := map[string]map[string]int{}
	sig := disturb
	for _, e := range run.Events {
		key := fmt.Sprintf("S%d", e.Spec)
		if e.Spec == 0 {
			key = fmt.Sprintf("N%d/%d", e.N, e.P)
		}
		if e.E == "ran" {
			if ran[key] == nil {
				ran[key] = map[string]int{}
			}
			ran[key][e.X]++
		}
		if e.E != "race" {
			continue
		}
		if want[key] == nil {
			want[key] = map[string]int{}
		}
		for _, x := range strings.Split(e.X, ",") {
			if x != "" {
				want[key][x]++
				c.Count("uses of the API", 1)
			}
		}
		sig += key + fmt.Sprint(len(e.X))
	}
	c.Eval(sigHash(sig, o.Args, o.Procs))
	// the events are a complete record only of processes that were not cut short
	got := map[string]map[string]int{}
	for _, sp := range rs[0].SpecReports {
		key := fmt.Sprintf("N%d/%d", sp.LeafNodeLocation.LineNumber, sp.ParallelProcess)
		if sp.LeafNodeType == types.NodeTypeIt {
			key = sp.LeafNodeText
		}
		g := got[key]
		if g == nil {
			g = map[string]int{}
			got[key] = g
		}
		for _, e := range sp.ReportEntries {
			if t, ok := strings.CutPrefix(e.Name, "race:"); ok {
				g["entry:"+t]++
				if e.StringRepresentation() != t {
					return fmt.Sprintf("%s: entry %s holds %q", key, t, e.StringRepresentation())
				}
			}
		}
		for _, e := range sp.SpecEvents {
			if t, ok := strings.CutPrefix(e.Message, "race:"); ok {
				switch e.SpecEventType {
				case types.SpecEventByStart:
					g["by:"+t]++
				case types.SpecEventByEnd:
					g["byend:"+t]++
				}
			}
		}
		for _, m := range raceGw.FindAllStringSubmatch(sp.CapturedGinkgoWriterOutput, -1) {
			g["gw:"+m[1]]++
		}
		c.Count("progress reports", len(sp.ProgressReports))
		c.Count("reports judged", 1)
		// the recorded failure is one of those that were made
		if f, ok := strings.CutPrefix(sp.Failure.Message, "race:"); ok && sp.State == types.SpecStateFailed {
			if want[key]["fail:"+f] == 0 {
				return fmt.Sprintf("%s failed with %q, which its goroutines did not report", key, sp.Failure.Message)
			}
		}
		nf := 0
		for w := range want[key] {
			if strings.HasPrefix(w, "fail:") {
				nf++
			}
		}
		if nf > 0 && sp.LeafNodeType == types.NodeTypeIt && !sp.State.Is(types.SpecStateFailureStates) && sp.NumAttempts <= 1 {
			return fmt.Sprintf("%s: %d goroutines failed, the spec is %s", key, nf, sp.State)
		}
	}
	for key, w := range want {
		g := got[key]
		if g == nil {
			return key + " used the API but is not reported"
		}
		for x, n := range w {
			k, t, _ := strings.Cut(x, ":")
			switch k {
			case "entry", "by", "gw":
				if g[x] != n {
					return fmt.Sprintf("%s: %s was added %d times and is reported %d times", key, x, n, g[x])
				}
			case "bycb":
				if g["by:"+t] != n || g["byend:"+t] != n {
					return fmt.Sprintf("%s: step %s ran %d times, %d starts and %d ends are reported", key, t, n, g["by:"+t], g["byend:"+t])
				}
			case "defer":
				m := 0
				for _, r := range ran {
					m += r[t]
				}
				if m != n {
					return fmt.Sprintf("%s: cleanup %s was registered %d times and ran %d times", key, t, n, m)
				}
			}
		}
		for x, n := range g {
			k, t, _ := strings.Cut(x, ":")
			m := w[x]
			switch k {
			case "by":
				m += w["bycb:"+t]
			case "byend":
				m = w["bycb:"+t]
			}
			if m != n && w["fail:"+t] == 0 {
				return fmt.Sprintf("%s: %s is reported %d times, it was added %d times", key, x, n, m)
			}
		}
	}
	return ""
}

var raceGw = regexp.MustCompile(`<race:([^>]*)>`)

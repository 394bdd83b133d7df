package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/onsi/ginkgo/v2/internal/zzverif/sdoc"
	"github.com/onsi/ginkgo/v2/types"
)

// C27: bodies ask for progress reports at points where they know what the report has to say (kind "park"), let reports
// be polled (kind "poll"), are disturbed by requests at arbitrary moments (kind "storm", compared with an undisturbed
// run and with the spans of the nodes in the timeline), and leave nodes behind (kind "leak").

func init() {
	checks["C27"] = Check{Level: "exploration", Run: runC27,
		Rule:   "distinct by kind, options and the parked states reported on",
		Assume: []string{"the console is judged when nothing else is printed at the same time", "source previews are judged on files below --source-root"}}
}

const prSrcLines = 40

func prSource() string {
	dir := filepath.Join(*flagWork, "srcroot")
	prSrcOnce.Do(func() {
		os.MkdirAll(filepath.Join(dir, "synthetic"), 0755)
		var b strings.Builder
		for i := 1; i <= prSrcLines; i++ {
			fmt.Fprintf(&b, "source line %d\n", i)
		}
		os.WriteFile(filepath.Join(dir, "synthetic", "prog.go"), []byte(b.String()), 0644)
	})
	return dir
}

var prSrcOnce sync.Once

type prGen struct {
	r    *rand.Rand
	id   int
	tok  int
	slow bool
	kind string
}

func (g *prGen) nid() int { g.id++; return g.id }

func (g *prGen) token() string { g.tok++; return fmt.Sprintf("tok%dx", g.tok) }

func (g *prGen) park() sdoc.Act {
	r := g.r
	p := sdoc.Act{K: "prpark", V: strconv.Itoa(1 + r.Intn(4))}
	if r.Intn(3) == 0 {
		p.V = "2"
	}
	switch r.Intn(6) {
	case 0:
		p.S = "child"
	case 1:
		p.S = "elsewhere"
	}
	if r.Intn(6) == 0 {
		p.N = []int{30, 120, 400}[r.Intn(3)]
	}
	return p
}

func (g *prGen) gw() sdoc.Act {
	t := g.token()
	s := t + "\n"
	switch g.r.Intn(5) {
	case 0:
		s = t
	case 1:
		for i, n := 0, g.r.Intn(15); i < n; i++ {
			s += fmt.Sprintf("%s line %d 100%%d\n", t, i)
		}
	}
	return sdoc.Act{K: "prgw", S: s}
}

func (g *prGen) body(k string, ctx bool) (b []sdoc.Act) {
	r := g.r
	report := strings.HasPrefix(k, "Report")
	for n := r.Intn(4); n > 0; n-- {
		switch r.Intn(6) {
		case 0, 1:
			b = append(b, g.gw())
		case 2:
			b = append(b, sdoc.Act{K: "prby", S: "step " + g.token()})
		case 3:
			in := []sdoc.Act{g.gw()}
			if r.Intn(2) == 0 {
				in = append(in, g.park())
			}
			if r.Intn(3) == 0 {
				in = append(in, sdoc.Act{K: "prby", V: "cb", S: "inner " + g.token(), B: []sdoc.Act{g.park()}})
				if r.Intn(2) == 0 {
					in = append(in, g.park())
				}
			}
			b = append(b, sdoc.Act{K: "prby", V: "cb", S: "outer " + g.token(), B: in})
		case 4:
			a := sdoc.Act{K: "prattach", S: "rep " + g.token()}
			switch r.Intn(8) {
			case 0:
				a.V = "panic"
			case 1:
				a.V = "fail"
			case 2:
				a.V, a.N = "slow", 1+r.Intn(60)
			case 3:
				a.V = "empty"
			case 4:
				a.V = "api"
			case 5:
				a.S += "\nsecond line 50% %s %d"
			}
			if ctx && r.Intn(2) == 0 {
				a.A = []string{"ctx"}
			}
			b = append(b, a, g.park())
			if len(a.A) == 0 && (a.V != "" || r.Intn(2) == 0) || a.V == "panic" || a.V == "fail" {
				b = append(b, sdoc.Act{K: "prdetach", S: a.S})
				if r.Intn(2) == 0 {
					b = append(b, g.park())
				}
			}
		case 5:
			b = append(b, g.park())
		}
	}
	if r.Intn(2) == 0 {
		b = append(b, g.gw(), g.park())
	}
	if !report && k != "cleanup" && r.Intn(4) == 0 {
		b = append(b, sdoc.Act{K: "defer", ID: g.nid(), B: g.body("cleanup", false)})
	}
	if r.Intn(12) == 0 && !strings.Contains(k, "BeforeSuite") {
		b = append(b, sdoc.Act{K: "fail", S: "why"})
	}
	return
}

func (g *prGen) node(k string) *sdoc.Node {
	n := &sdoc.Node{ID: g.nid(), K: k, Ctx: g.r.Intn(2) == 0}
	n.Loc = sdoc.Loc{F: "/synthetic/p.go", L: n.ID}
	n.Body = g.body(k, n.Ctx)
	if strings.HasPrefix(k, "Synchronized") {
		n.Body2 = g.body(k, n.Ctx)
	}
	if k == "it" {
		n.Text = fmt.Sprintf("S%d does", n.ID)
		if g.r.Intn(8) == 0 {
			n.Flake = 2
			n.Body = append(n.Body, sdoc.Act{K: "fail", S: "first", Inv: []int{0}})
		}
		if n.Ctx && g.r.Intn(6) == 0 {
			n.NodeTimeout = 150 + g.r.Intn(100)
			n.HasGrace, n.GracePeriod = true, 60000
			n.Flake = 0
			n.Body = []sdoc.Act{g.gw(), {K: "prby", S: "step " + g.token()}, {K: "prctx"}}
		}
	}
	return n
}

func (g *prGen) suite() *sdoc.Suite {
	r := g.r
	s := &sdoc.Suite{Desc: "progress"}
	for t := 1 + r.Intn(2); t > 0; t-- {
		ct := &sdoc.Node{ID: g.nid(), K: "container"}
		ct.Text, ct.Loc = fmt.Sprintf("C%d", ct.ID), sdoc.Loc{F: "/synthetic/p.go", L: ct.ID}
		ct.Ordered = r.Intn(3) == 0
		in := ct
		if r.Intn(2) == 0 {
			in = &sdoc.Node{ID: g.nid(), K: "container"}
			in.Text, in.Loc = fmt.Sprintf("C%d", in.ID), sdoc.Loc{F: "/synthetic/p.go", L: in.ID}
			ct.Kids = append(ct.Kids, in)
		}
		ks := []string{"BeforeEach", "AfterEach", "JustBeforeEach", "JustAfterEach", "ReportBeforeEach", "ReportAfterEach"}
		if ct.Ordered {
			ks = append(ks, "BeforeAll", "AfterAll")
		}
		for n := r.Intn(4); n > 0; n-- {
			to := ct
			if r.Intn(2) == 0 {
				to = in
			}
			to.Kids = append(to.Kids, g.node(ks[r.Intn(len(ks))]))
		}
		for n := 1 + r.Intn(3); n > 0; n-- {
			in.Kids = append(in.Kids, g.node("it"))
		}
		s.Top = append(s.Top, ct)
	}
	for _, k := range [][]string{{"BeforeSuite", "SynchronizedBeforeSuite"}, {"AfterSuite", "SynchronizedAfterSuite"}, {"ReportBeforeSuite"}, {"ReportAfterSuite"}} {
		if r.Intn(2) == 0 {
			n := g.node(k[r.Intn(len(k))])
			if strings.HasPrefix(n.K, "ReportA") || strings.HasPrefix(n.K, "ReportB") {
				n.Text = "reporting"
				if n.K == "ReportBeforeSuite" {
					n.Text = ""
				}
			}
			s.Top = append(s.Top, n)
		}
	}
	return s
}

func runC27(c *Ctx) {
	root := prSource()
	type job struct {
		kind string
		i    int
	}
	var jobs []job
	for i := 0; i < N(220, 6000); i++ {
		jobs = append(jobs, job{"park", i})
		if i%3 == 0 {
			jobs = append(jobs, job{"poll", i})
		}
		if i%3 == 1 {
			jobs = append(jobs, job{"storm", i})
		}
		if i%10 == 2 {
			jobs = append(jobs, job{"leak", i})
		}
		if i%60 == 5 {
			jobs = append(jobs, job{"stuck", i})
		}
	}
	parallelDo(len(jobs), workers(), func(j int) {
		kind, i := jobs[j].kind, jobs[j].i
		r := rng("C27"+kind, i)
		g := &prGen{r: r, kind: kind}
		o := RunOpts{Args: []string{"source-root=" + root, fmt.Sprintf("seed=%d", 1+r.Intn(1000))}, Limit: 100 * time.Second}
		switch kind {
		case "park", "leak", "stuck":
			s := g.suite()
			if kind == "leak" {
				prLeak(g, s)
			}
			if kind == "stuck" {
				prStuck(g, s)
			}
			if r.Intn(3) == 0 && kind == "park" {
				o.Procs = 2
				o.HTTP = r.Intn(2) == 0
			}
			if r.Intn(3) == 0 {
				o.Args = append(o.Args, []string{"v", "vv", "succinct"}[r.Intn(3)])
			}
			run := c.runSuite(s, o)
			defer run.Clean()
			if d := prParkJudge(c, s, run, o, kind); d != "" {
				key := ""
				if strings.HasPrefix(d, "leaked: ") {
					key = "leaked-node-shown-as-spec-goroutine"
				}
				c.Fail(key, fmt.Sprintf("job %d %s %d %v: %s", j, kind, i, o.Args, d), run.Files())
			}
		case "poll":
			prPoll(c, j, i, r, o)
		case "storm":
			prStorm(c, j, i, r, o)
		}
	})
}

// prLeak makes the first spec leave its node behind.
func prLeak(g *prGen, s *sdoc.Suite) {
	n := g.node("it")
	n.Ctx, n.NodeTimeout, n.HasGrace, n.GracePeriod, n.Flake = true, 20, true, 20, 0
	n.Body = []sdoc.Act{{K: "prleak"}}
	m := g.node("it")
	m.Flake, m.NodeTimeout = 0, 0
	m.Body = []sdoc.Act{{K: "prpark", V: "2"}}
	s.Top = append([]*sdoc.Node{n, m}, s.Top...)
}

// prStuck attaches a reporter that does not return in time: it is left out, together with those after it.
func prStuck(g *prGen, s *sdoc.Suite) {
	m := g.node("it")
	m.Flake, m.NodeTimeout = 0, 0
	m.Body = []sdoc.Act{
		{K: "prattach", S: "before"},
		{K: "prattach", S: "stuck", V: "stuck"},
		{K: "prpark", V: "2", A: []string{"once"}},
		{K: "prdetach", S: "stuck"},
		{K: "prpark", V: "2"},
		{K: "prdetach", S: "before"},
	}
	s.Top = append([]*sdoc.Node{m}, s.Top...)
}

type prWant struct {
	Index int
	Steps []string
	GW    string
	Adds  []string
	Goid  uint64
	Child uint64
	Fn    string
	Text  string
	What  string
	Once  bool
	Ready int64
	Fails []string
}

func readReports(run *SuiteRun) ([]types.Report, string) {
	b, err := os.ReadFile(filepath.Join(run.Dir, "report.json"))
	if err != nil {
		return nil, "no report: " + err.Error() + "\n" + trunc(run.Res.Out, 3000)
	}
	var rs []types.Report
	if err := json.Unmarshal(b, &rs); err != nil || len(rs) != 1 {
		return nil, fmt.Sprintf("bad report: %v", err)
	}
	return rs, ""
}

var prNodeTypes = map[string]types.NodeType{"it": types.NodeTypeIt, "BeforeEach": types.NodeTypeBeforeEach, "JustBeforeEach": types.NodeTypeJustBeforeEach,
	"AfterEach": types.NodeTypeAfterEach, "JustAfterEach": types.NodeTypeJustAfterEach, "BeforeAll": types.NodeTypeBeforeAll, "AfterAll": types.NodeTypeAfterAll,
	"BeforeSuite": types.NodeTypeBeforeSuite, "AfterSuite": types.NodeTypeAfterSuite, "SynchronizedBeforeSuite": types.NodeTypeSynchronizedBeforeSuite,
	"SynchronizedAfterSuite": types.NodeTypeSynchronizedAfterSuite, "ReportBeforeEach": types.NodeTypeReportBeforeEach, "ReportAfterEach": types.NodeTypeReportAfterEach,
	"ReportBeforeSuite": types.NodeTypeReportBeforeSuite, "ReportAfterSuite": types.NodeTypeReportAfterSuite}

type prSpecKey struct{ spec, node, proc int }

// prIndex finds the report of a spec, or of a suite node or suite cleanup.
func prIndex(rep types.Report) map[prSpecKey]*types.SpecReport {
	out := map[prSpecKey]*types.SpecReport{}
	for i := range rep.SpecReports {
		sp := &rep.SpecReports[i]
		if sp.LeafNodeType == types.NodeTypeIt {
			out[prSpecKey{spec: prLeafID(sp.LeafNodeText)}] = sp
			continue
		}
		out[prSpecKey{node: sp.LeafNodeLocation.LineNumber, proc: sp.ParallelProcess}] = sp
	}
	return out
}

func prLeafID(t string) int {
	n := 0
	fmt.Sscanf(t, "S%d", &n)
	return n
}

func prParkJudge(c *Ctx, s *sdoc.Suite, run *SuiteRun, o RunOpts, kind string) string {
	if run.Res.TimedOut {
		return "the run does not end: " + trunc(run.Res.Out, 3000)
	}
	rs, d := readReports(run)
	if d != "" {
		return d
	}
	nodes := map[int]*sdoc.Node{}
	var anc = map[int][]string{}
	s.Walk(func(n *sdoc.Node, a []*sdoc.Node) {
		nodes[n.ID] = n
		for _, x := range a {
			anc[n.ID] = append(anc[n.ID], x.Text)
		}
	})
	byKey := prIndex(rs[0])
	sig := kind
	leaked := ""
	for _, e := range run.Events {
		if e.E != "pr" {
			continue
		}
		var w prWant
		json.Unmarshal([]byte(e.X), &w)
		key := prSpecKey{spec: e.Spec}
		if e.Spec == 0 {
			key = prSpecKey{node: e.N, proc: e.P}
		}
		sp := byKey[key]
		if sp == nil {
			return fmt.Sprintf("node %d of spec %d is not reported", e.N, e.Spec)
		}
		where := fmt.Sprintf("node %d of %q (process %d, report %d)", e.N, sp.FullText(), e.P, w.Index)
		if w.What != "" {
			return where + ": " + w.What
		}
		var pr types.ProgressReport
		msg := "{{bold}}You've requested a progress report:{{/}}"
		if w.Index >= 0 {
			if w.Index >= len(sp.ProgressReports) {
				return where + ": not among the spec's progress reports"
			}
			pr = sp.ProgressReports[w.Index]
		} else {
			msg = "{{bold}}This is the Progress Report generated when the node timeout occurred:{{/}}"
			for _, f := range append([]types.AdditionalFailure{{State: sp.State, Failure: sp.Failure}}, sp.AdditionalFailures...) {
				if f.State == types.SpecStateTimedout && f.Failure.FailureNodeLocation.LineNumber == e.N {
					pr = f.Failure.ProgressReport
				}
			}
			if pr.IsZero() {
				return where + ": the timeout has no progress report"
			}
			if pr.TimelineLocation.Time.UnixNano() < w.Ready {
				c.Count("timeouts too early to judge", 1)
				continue
			}
		}
		if pr.Message != msg {
			return fmt.Sprintf("%s: message %q", where, pr.Message)
		}
		if pr.ParallelProcess != e.P || pr.RunningInParallel != (o.Procs > 1) {
			return fmt.Sprintf("%s: process %d/%v", where, pr.ParallelProcess, pr.RunningInParallel)
		}
		if pr.LeafNodeText != sp.LeafNodeText || pr.LeafNodeText != w.Text || pr.LeafNodeLocation.FileName != sp.LeafNodeLocation.FileName || pr.LeafNodeLocation.LineNumber != sp.LeafNodeLocation.LineNumber ||
			strings.Join(pr.ContainerHierarchyTexts, "|") != strings.Join(sp.ContainerHierarchyTexts, "|") {
			return fmt.Sprintf("%s: names the spec %v %q at %s", where, pr.ContainerHierarchyTexts, pr.LeafNodeText, pr.LeafNodeLocation)
		}
		if e.Spec != 0 && strings.Join(pr.ContainerHierarchyTexts, "|") != strings.Join(anc[e.Spec], "|") {
			return fmt.Sprintf("%s: containers %v", where, pr.ContainerHierarchyTexts)
		}
		nt := types.NodeTypeInvalid
		n := nodes[e.N]
		if n != nil {
			nt = prNodeTypes[n.K]
			if pr.CurrentNodeType != nt || pr.CurrentNodeText != n.Text || pr.CurrentNodeLocation.LineNumber != n.ID {
				return fmt.Sprintf("%s: names the node %s %q at %s", where, pr.CurrentNodeType, pr.CurrentNodeText, pr.CurrentNodeLocation)
			}
			c.Count("reports in "+n.K, 1)
		} else {
			nt = pr.CurrentNodeType
			if !nt.Is(types.NodeTypeCleanupAfterEach | types.NodeTypeCleanupAfterAll | types.NodeTypeCleanupAfterSuite) {
				return fmt.Sprintf("%s: names a %s node in a cleanup", where, nt)
			}
			c.Count("reports in cleanups", 1)
		}
		if nt != types.NodeTypeReportBeforeEach && !pr.SpecStartTime.Equal(sp.StartTime) {
			return fmt.Sprintf("%s: start %s, the spec's is %s", where, pr.SpecStartTime, sp.StartTime)
		}
		// the node is the one whose span in the timeline the report falls into
		var open types.SpecEvent
		var step types.SpecEvent
		for _, ev := range sp.SpecEvents {
			if ev.TimelineLocation.Order > pr.TimelineLocation.Order {
				break
			}
			switch ev.SpecEventType {
			case types.SpecEventNodeStart:
				open = ev
			case types.SpecEventNodeEnd:
				open = types.SpecEvent{}
			case types.SpecEventByStart:
				if ev.Message == pr.CurrentStepText {
					step = ev
				}
			}
		}
		if open.NodeType != nt || open.CodeLocation.LineNumber != pr.CurrentNodeLocation.LineNumber || pr.CurrentNodeStartTime.After(open.TimelineLocation.Time) || pr.CurrentNodeStartTime.IsZero() {
			return fmt.Sprintf("%s: at %s of the timeline, where %s is running since %s; names %s since %s", where, fmt.Sprint(pr.TimelineLocation.Order), open.NodeType, open.TimelineLocation.Time, nt, pr.CurrentNodeStartTime)
		}
		if !inList(w.Steps, pr.CurrentStepText) {
			return fmt.Sprintf("%s: names the step %q, not one of %q", where, pr.CurrentStepText, w.Steps)
		}
		if pr.CurrentStepText != "" && !pr.CurrentStepStartTime.Equal(step.TimelineLocation.Time) {
			return fmt.Sprintf("%s: step %q started %s, not %s", where, pr.CurrentStepText, step.TimelineLocation.Time, pr.CurrentStepStartTime)
		}
		if fmt.Sprintf("%q", pr.AdditionalReports) != fmt.Sprintf("%q", append([]string{}, w.Adds...)) && len(pr.AdditionalReports)+len(w.Adds) > 0 {
			return fmt.Sprintf("%s: attached reporters say %q, not %q", where, pr.AdditionalReports, w.Adds)
		}
		if w.Index >= 0 && pr.TimelineLocation.Offset != len(w.GW) {
			return fmt.Sprintf("%s: located at byte %d of the output, %d had been written", where, pr.TimelineLocation.Offset, len(w.GW))
		}
		for _, f := range w.Fails {
			if !sp.State.Is(types.SpecStateFailureStates) && sp.NumAttempts <= 1 {
				return fmt.Sprintf("%s: %s, the spec is %s", where, f, sp.State)
			}
		}
		d := prGoroutines(c, pr, w)
		if d != "" {
			if kind == "leak" && strings.HasPrefix(d, "the spec's goroutine") {
				leaked = where + ": " + d
			} else {
				return where + ": " + d
			}
		}
		if w.Index >= 0 && !w.Once && d == "" {
			if d := prConsole(run.Res.Out, pr, w, o); d != "" {
				return where + ": " + d
			}
		}
		c.Count("reports judged", 1)
		sig += fmt.Sprint(nt, w.Steps, len(w.Adds), w.Fn)
	}
	c.Eval(sigHash(sig, o.Args[2:], o.Procs))
	if leaked != "" {
		return "leaked: " + leaked
	}
	return ""
}

func inList(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func prGoroutines(c *Ctx, pr types.ProgressReport, w prWant) string {
	if n := len(pr.OtherGoroutines()); n > 0 && w.Index >= 0 {
		return fmt.Sprintf("%d goroutines that are not of interest are shown", n)
	}
	sg := pr.SpecGoroutine()
	if sg.ID != w.Goid {
		return fmt.Sprintf("the spec's goroutine is said to be %d, it is %d", sg.ID, w.Goid)
	}
	check := func(g types.Goroutine, fn string) string {
		found := false
		for _, f := range g.Stack {
			if f.Filename != "/synthetic/prog.go" {
				continue
			}
			if strings.Contains(f.Function, fn) {
				found = true
			}
			if !f.Highlight {
				return fmt.Sprintf("%s:%d of goroutine %d is not highlighted", f.Filename, f.Line, g.ID)
			}
			if f.Line > prSrcLines+2 {
				for _, l := range f.Source {
					if !strings.HasPrefix(l, "source line ") && l != "" {
						return fmt.Sprintf("line %d is shown as %q", f.Line, f.Source)
					}
				}
				continue
			}
			var want []string
			for l := f.Line - 2; l <= f.Line+2; l++ {
				if l >= 1 && l <= prSrcLines {
					want = append(want, fmt.Sprintf("source line %d", l))
				}
			}
			if strings.Join(want, "\n") != strings.Join(f.Source, "\n") || f.Source[f.SourceHighlight] != fmt.Sprintf("source line %d", f.Line) {
				return fmt.Sprintf("line %d is shown as %q, highlighting %d", f.Line, f.Source, f.SourceHighlight)
			}
			c.Count("source previews", 1)
		}
		if !found {
			return fmt.Sprintf("goroutine %d does not show %s", g.ID, fn)
		}
		return ""
	}
	if d := check(sg, w.Fn); d != "" {
		return d
	}
	if w.Child != 0 {
		for _, g := range pr.HighlightedGoroutines() {
			if g.ID == w.Child {
				return check(g, "prAt3")
			}
		}
		return fmt.Sprintf("goroutine %d, started by the node, is not among those of interest", w.Child)
	}
	return ""
}

// prConsole looks for the report on the console.
func prConsole(out string, pr types.ProgressReport, w prWant, o RunOpts) string {
	var want []string
	if o.Procs > 1 {
		want = append(want, fmt.Sprintf("Progress Report for Ginkgo Process #%d", pr.ParallelProcess))
	}
	want = append(want, "You've requested a progress report:")
	if pr.LeafNodeText != "" {
		want = append(want, strings.Join(append(append([]string{}, pr.ContainerHierarchyTexts...), pr.LeafNodeText+" (Spec Runtime:"), " "))
	}
	want = append(want, fmt.Sprintf("In [%s]", pr.CurrentNodeType))
	if pr.CurrentStepText != "" {
		want = append(want, "At [By Step] "+pr.CurrentStepText)
	}
	verbose := inList(o.Args, "v") || inList(o.Args, "vv")
	if o.Procs > 1 || !verbose {
		ls := strings.Split(strings.TrimSuffix(w.GW, "\n"), "\n")
		if len(ls) > 10 {
			ls = ls[len(ls)-10:]
			want = append(want, "...")
		}
		for _, l := range ls {
			if l != "" {
				want = append(want, l)
			}
		}
	}
	want = append(want, "Spec Goroutine", w.Fn)
	for _, a := range pr.AdditionalReports {
		want = append(want, strings.Split(a, "\n")...)
	}
	for _, blk := range strings.Split(out, "------------------------------\n") {
		rest, ok := blk, true
		for _, x := range want {
			_, after, found := strings.Cut(rest, x)
			if !found {
				ok = false
				break
			}
			rest = after
		}
		if ok {
			return ""
		}
	}
	return fmt.Sprintf("no report on the console shows %q", want)
}

// ---- polling

func prPoll(c *Ctx, j, i int, r *rand.Rand, o RunOpts) {
	s := &sdoc.Suite{Desc: "poll"}
	ga, ge := []int{0, 30, 60}[r.Intn(3)], []int{0, 25, 50}[r.Intn(3)]
	if ga > 0 || r.Intn(2) == 0 {
		o.Args = append(o.Args, fmt.Sprintf("poll-progress-after=%dms", ga), fmt.Sprintf("poll-progress-interval=%dms", ge))
	} else {
		ge = 0
	}
	id := 0
	type exp struct{ after, every int }
	exps := map[int]exp{}
	ct := &sdoc.Node{ID: 1000, K: "container", Text: "C", Loc: sdoc.Loc{F: "/synthetic/p.go", L: 1000}}
	add := func(k string) {
		id++
		n := &sdoc.Node{ID: id, K: k, Loc: sdoc.Loc{F: "/synthetic/p.go", L: id}}
		if k == "it" {
			n.Text = fmt.Sprintf("S%d", id)
		}
		e := exp{ga, ge}
		if r.Intn(2) == 0 {
			n.HasPoll, n.PollAfter, n.PollEvery = true, []int{0, 20, 45}[r.Intn(3)], []int{0, 15, 40}[r.Intn(3)]
			e = exp{n.PollAfter, n.PollEvery}
		}
		exps[id] = e
		a := sdoc.Act{K: "prpoll"}
		switch {
		case e.after == 0:
			a.V = strconv.Itoa(20 + r.Intn(80))
		case r.Intn(4) == 0: // may or may not be polled
			a.V = strconv.Itoa(r.Intn(2 * e.after))
		case e.every == 0:
			a.N, a.V = 1, strconv.Itoa(60+r.Intn(60))
		default:
			a.N, a.V = 1+r.Intn(4), strconv.Itoa(r.Intn(30))
		}
		n.Body = []sdoc.Act{a}
		ct.Kids = append(ct.Kids, n)
	}
	for _, k := range []string{"BeforeEach", "JustBeforeEach", "AfterEach", "JustAfterEach", "ReportBeforeEach", "ReportAfterEach"} {
		if r.Intn(4) == 0 {
			add(k)
		}
	}
	for n := 1 + r.Intn(3); n > 0; n-- {
		add("it")
	}
	s.Top = []*sdoc.Node{ct}
	if r.Intn(3) == 0 {
		o.Procs = 2
	}
	run := c.runSuite(s, o)
	defer run.Clean()
	fail := func(f string, a ...any) {
		c.Fail("", fmt.Sprintf("job %d poll %d %v: ", j, i, o.Args)+fmt.Sprintf(f, a...), run.Files())
	}
	if run.Res.TimedOut {
		fail("the run does not end")
		return
	}
	rs, d := readReports(run)
	if d != "" {
		fail("%s", d)
		return
	}
	for _, e := range run.Events {
		if e.E == "nopr" {
			fail("node %d was not polled (%v)", e.N, exps[e.N])
			return
		}
		if e.E == "polled" && e.X != "0" && exps[e.N].after == 0 {
			fail("node %d was polled although polling is off for it", e.N)
			return
		}
		if e.E == "polled" && exps[e.N].every == 0 {
			if n, _ := strconv.Atoi(e.X); n > 1 {
				fail("node %d was polled %d times without an interval", e.N, n)
				return
			}
		}
	}
	sig := ""
	for _, sp := range rs[0].SpecReports {
		var prev types.ProgressReport
		var starts []types.SpecEvent
		for _, ev := range sp.SpecEvents {
			if ev.SpecEventType == types.SpecEventNodeStart {
				starts = append(starts, ev)
			}
		}
		for _, pr := range sp.ProgressReports {
			if pr.Message != "{{bold}}Automatically polling progress:{{/}}" {
				fail("%s: message %q", sp.LeafNodeText, pr.Message)
				return
			}
			id := pr.CurrentNodeLocation.LineNumber
			e, ok := exps[id]
			if !ok || pr.LeafNodeText != sp.LeafNodeText {
				fail("%s: polled report names node %d of %q", sp.LeafNodeText, id, pr.LeafNodeText)
				return
			}
			at := pr.TimelineLocation.Time
			if e.after == 0 {
				fail("%s: node %d was polled although polling is off for it", sp.LeafNodeText, id)
				return
			}
			const slack = 3 * time.Millisecond
			if at.Sub(pr.CurrentNodeStartTime) < time.Duration(e.after)*time.Millisecond-slack {
				fail("%s: node %d was polled after %s, not %d ms", sp.LeafNodeText, id, at.Sub(pr.CurrentNodeStartTime), e.after)
				return
			}
			if !prev.IsZero() && prev.CurrentNodeStartTime.Equal(pr.CurrentNodeStartTime) {
				if e.every == 0 {
					fail("%s: node %d was polled twice without an interval", sp.LeafNodeText, id)
					return
				}
				if at.Sub(prev.TimelineLocation.Time) < time.Duration(e.every)*time.Millisecond-slack {
					fail("%s: node %d was polled again after %s, not %d ms", sp.LeafNodeText, id, at.Sub(prev.TimelineLocation.Time), e.every)
					return
				}
			}
			// the node is still running
			var open types.SpecEvent
			for _, ev := range sp.SpecEvents {
				if ev.TimelineLocation.Order < pr.TimelineLocation.Order {
					if ev.SpecEventType == types.SpecEventNodeStart {
						open = ev
					} else if ev.SpecEventType == types.SpecEventNodeEnd {
						open = types.SpecEvent{}
					}
				}
			}
			if open.CodeLocation.LineNumber != id {
				fail("%s: polled report names node %d while node %d is running", sp.LeafNodeText, id, open.CodeLocation.LineNumber)
				return
			}
			prev = pr
			c.Count("polled reports", 1)
			sig += fmt.Sprint(id, " ")
		}
	}
	c.Eval(sigHash("poll", sig, o.Args[2:]))
}

// ---- requests at arbitrary moments

func prStorm(c *Ctx, j, i int, r *rand.Rand, o RunOpts) {
	gen := func(storm int) *sdoc.Suite {
		r := rng("C27stormsuite", i)
		s := &sdoc.Suite{Desc: "storm"}
		id := 0
		nap := func() []sdoc.Act {
			b := []sdoc.Act{{K: "nap", N: r.Intn(800)}}
			if r.Intn(3) == 0 {
				b = append(b, sdoc.Act{K: "by", S: fmt.Sprintf("by%d", id), V: "cb", B: []sdoc.Act{{K: "nap", N: r.Intn(500)}}})
			}
			return b
		}
		node := func(k string) *sdoc.Node {
			id++
			n := &sdoc.Node{ID: id, K: k, Loc: sdoc.Loc{F: "/synthetic/p.go", L: id}}
			n.Body = nap()
			if !strings.HasPrefix(k, "Report") && r.Intn(4) == 0 {
				id++
				n.Body = append(n.Body, sdoc.Act{K: "defer", ID: id, B: nap()})
			}
			switch r.Intn(14) {
			case 0:
				n.Body = append(n.Body, sdoc.Act{K: "fail", S: "why"})
			case 1:
				n.Body = append(n.Body, sdoc.Act{K: "panic", S: "why"})
			case 2:
				if !strings.HasPrefix(k, "Report") {
					n.Body = append(n.Body, sdoc.Act{K: "skip", S: "why"})
				}
			}
			if k == "it" {
				n.Text = fmt.Sprintf("S%d", n.ID)
				if r.Intn(4) == 0 {
					n.Flake = 3
				}
			}
			return n
		}
		for t := 0; t < 2; t++ {
			id++
			ct := &sdoc.Node{ID: id, K: "container", Text: fmt.Sprintf("C%d", id), Loc: sdoc.Loc{F: "/synthetic/p.go", L: id}, Ordered: r.Intn(3) == 0}
			for _, k := range []string{"BeforeEach", "JustBeforeEach", "AfterEach", "JustAfterEach", "ReportBeforeEach", "ReportAfterEach"} {
				if r.Intn(3) == 0 {
					ct.Kids = append(ct.Kids, node(k))
				}
			}
			for n := 8 + r.Intn(20); n > 0; n-- {
				ct.Kids = append(ct.Kids, node("it"))
			}
			s.Top = append(s.Top, ct)
		}
		b := &sdoc.Node{ID: 9000, K: "BeforeSuite", Loc: sdoc.Loc{F: "/synthetic/p.go", L: 9000}}
		if storm > 0 {
			b.Body = []sdoc.Act{{K: "usr1storm", N: storm}}
		}
		s.Top = append(s.Top, b, &sdoc.Node{ID: 9001, K: "AfterSuite", Loc: sdoc.Loc{F: "/synthetic/p.go", L: 9001}})
		return s
	}
	storm := 30 + r.Intn(400)
	s := gen(storm)
	run := c.runSuite(s, o)
	defer run.Clean()
	ref := c.runSuite(gen(0), o)
	defer ref.Clean()
	fail := func(f string, a ...any) {
		c.Fail("", fmt.Sprintf("job %d storm %d: ", j, i)+fmt.Sprintf(f, a...), run.Files())
	}
	if run.Res.TimedOut {
		fail("the run does not end")
		return
	}
	rs, d := readReports(run)
	rr, d2 := readReports(ref)
	if d != "" || d2 != "" {
		fail("%s%s", d, d2)
		return
	}
	trace := func(r *SuiteRun) (out []string) {
		for _, e := range r.Events {
			if e.E == "enter" || e.E == "exit" {
				out = append(out, fmt.Sprintf("%s %d/%d spec %d #%d %v", e.E, e.N, e.Part, e.Spec, e.Inv, e.OK))
			}
		}
		return
	}
	a, b := trace(ref), trace(run)
	for k := 0; k < len(a) || k < len(b); k++ {
		x, y := "nothing", "nothing"
		if k < len(a) {
			x = a[k]
		}
		if k < len(b) {
			y = b[k]
		}
		if x != y {
			fail("undisturbed, step %d is %q; with progress reports it is %q", k, x, y)
			return
		}
	}
	if len(rs[0].SpecReports) != len(rr[0].SpecReports) {
		fail("%d specs are reported, %d undisturbed", len(rs[0].SpecReports), len(rr[0].SpecReports))
		return
	}
	// spans of the nodes over the whole run: order of start and end
	type span struct {
		leaf, node, from, to int
		nt                   types.NodeType
	}
	var spans []span
	type at struct {
		pr   types.ProgressReport
		leaf int
	}
	var prs []at
	for k, sp := range rs[0].SpecReports {
		q := rr[0].SpecReports[k]
		if sp.State != q.State || sp.Failure.Message != q.Failure.Message || sp.LeafNodeText != q.LeafNodeText || sp.NumAttempts != q.NumAttempts || len(sp.AdditionalFailures) != len(q.AdditionalFailures) {
			fail("spec %q is %s (%s), undisturbed %q is %s (%s)", sp.LeafNodeText, sp.State, sp.Failure.Message, q.LeafNodeText, q.State, q.Failure.Message)
			return
		}
		for _, ev := range sp.SpecEvents {
			switch ev.SpecEventType {
			case types.SpecEventNodeStart:
				spans = append(spans, span{leaf: sp.LeafNodeLocation.LineNumber, node: ev.CodeLocation.LineNumber, from: ev.TimelineLocation.Order, nt: ev.NodeType})
			case types.SpecEventNodeEnd:
				spans[len(spans)-1].to = ev.TimelineLocation.Order
			}
		}
		for _, pr := range sp.ProgressReports {
			prs = append(prs, at{pr, sp.LeafNodeLocation.LineNumber})
		}
	}
	sort.Slice(prs, func(a, b int) bool { return prs[a].pr.TimelineLocation.Order < prs[b].pr.TimelineLocation.Order })
	// what a report names was going on at some time between the report before it and itself: a node starts before its
	// start is recorded and ends after its end is recorded, so the span is widened by one event in either direction
	prevOrder := 0
	named := 0
	for _, p := range prs {
		pr := p.pr
		if pr.CurrentNodeType != types.NodeTypeInvalid {
			ok := false
			for k, sn := range spans {
				from, to := 0, 1<<60
				if k > 0 {
					from = spans[k-1].to
				}
				if k+1 < len(spans) {
					to = spans[k+1].from
				}
				if sn.node == pr.CurrentNodeLocation.LineNumber && sn.nt == pr.CurrentNodeType && (sn.leaf == pr.LeafNodeLocation.LineNumber) && from <= pr.TimelineLocation.Order && to >= prevOrder {
					ok = true
					break
				}
			}
			if !ok {
				fail("the report at %d (after the one at %d) names node %d (%s) of spec %d, which was not running then", pr.TimelineLocation.Order, prevOrder, pr.CurrentNodeLocation.LineNumber, pr.CurrentNodeType, pr.LeafNodeLocation.LineNumber)
				return
			}
			named++
		}
		if strings.Contains(pr.Message, "requested") {
			prevOrder = pr.TimelineLocation.Order
		}
		c.Count("reports at arbitrary moments", 1)
	}
	c.Count("reports at arbitrary moments naming a node", named)
	c.Eval(sigHash("storm", a, named))
}

package main

import (
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/onsi/ginkgo/v2/internal/zzverif/sdoc"
)

// Diff is one disagreement between the reference and the observation.
type Diff struct {
	Cat string
	Msg string
}

type diffs struct{ d []Diff }

func (d *diffs) add(cat, f string, a ...any) {
	if len(d.d) < 60 {
		d.d = append(d.d, Diff{cat, fmt.Sprintf(f, a...)})
	}
}

func leafID(text string) int {
	if !strings.HasPrefix(text, "S") {
		return 0
	}
	j := 1
	for j < len(text) && text[j] >= '0' && text[j] <= '9' {
		j++
	}
	n, _ := strconv.Atoi(text[1:j])
	return n
}

// orderOf extracts the order in which specs were handled.
func orderOf(r *Rep) []int {
	var out []int
	for _, s := range r.SpecReports {
		if s.LeafNodeType == "It" {
			out = append(out, leafID(s.LeafNodeText))
		}
	}
	return out
}

func nodeByID(s *sdoc.Suite) map[int]*sdoc.Node {
	m := map[int]*sdoc.Node{}
	s.Walk(func(n *sdoc.Node, _ []*sdoc.Node) { m[n.ID] = n })
	return m
}

func wantLoc(nodes map[int]*sdoc.Node, id int, kind string) (string, int) {
	if strings.HasPrefix(kind, "DeferCleanup") {
		return "/synthetic/cleanup.go", id
	}
	if n := nodes[id]; n != nil {
		return n.Loc.F, n.Loc.L
	}
	return "?", 0
}

func cmpFail(d *diffs, what string, nodes map[int]*sdoc.Node, evs []sdoc.Event, x *XFail, f *RFail, specID int) {
	if f == nil {
		d.add("failure", "%s: no failure recorded, expected %+v", what, *x)
		return
	}
	msg := f.Message
	want := x.Msg
	prefix := ""
	if strings.HasPrefix(want, "Failure recorded during attempt") {
		prefix, want, _ = strings.Cut(want, "\n")
		prefix += "\n"
		if !strings.HasPrefix(msg, prefix) {
			d.add("failure", "%s: message %q lacks %q", what, msg, prefix)
		}
		msg = strings.TrimPrefix(msg, prefix)
	}
	switch {
	case x.AnyMsg:
		if !strings.HasPrefix(msg, want+"#") {
			d.add("failure", "%s: message %q, expected %q#n", what, msg, want)
		}
	case x.State == "failed" && want == "failed": // GinkgoT().Fail
		if msg != "failed" && !strings.Contains(msg, "ailed") {
			d.add("failure", "%s: message %q", what, msg)
		}
	default:
		if msg != want && !(want != "" && strings.HasPrefix(msg, want+"\n") && x.State != "panicked" && false) {
			d.add("failure", "%s: message %q, expected %q", what, msg, want)
		}
	}
	if x.Panic != "" && x.Panic != "<nil>" && f.ForwardedPanic != x.Panic {
		d.add("failure", "%s: forwarded panic %q, expected %q", what, f.ForwardedPanic, x.Panic)
	}
	if x.Panic == "" && f.ForwardedPanic != "" {
		d.add("failure", "%s: unexpected forwarded panic %q", what, f.ForwardedPanic)
	}
	if x.Node != 0 {
		wf, wl := wantLoc(nodes, x.Node, x.Kind)
		if f.FailureNodeType != x.Kind {
			d.add("failure", "%s: failure node type %q, expected %q", what, f.FailureNodeType, x.Kind)
		}
		if f.FailureNodeLocation.FileName != wf || f.FailureNodeLocation.LineNumber != wl {
			d.add("failure", "%s: failure node location %s:%d, expected %s:%d", what, f.FailureNodeLocation.FileName, f.FailureNodeLocation.LineNumber, wf, wl)
		}
		if x.Kind != "" && !isSuiteKind(x.Kind) && x.Kind != "DeferCleanup (Suite)" {
			wantCtx, wantIdx := "in-container", x.Level-1
			if x.Leaf {
				wantCtx, wantIdx = "leaf-node", 0
			} else if x.Level == 0 {
				wantCtx, wantIdx = "top-level", 0
			}
			if f.FailureNodeContext != wantCtx || (wantCtx == "in-container" && f.FailureNodeContainerIndex != wantIdx) {
				d.add("failure", "%s: failure node context %s/%d, expected %s/%d", what, f.FailureNodeContext, f.FailureNodeContainerIndex, wantCtx, wantIdx)
			}
		}
	}
	if x.State == "timedout" || x.State == "interrupted" {
		wf, wl := wantLoc(nodes, x.Node, x.Kind)
		if f.Location.FileName != wf || f.Location.LineNumber != wl {
			d.add("failure", "%s: location %s:%d of a %s node, expected %s:%d", what, f.Location.FileName, f.Location.LineNumber, x.State, wf, wl)
		}
	}
	if x.Nested == nil && f.AdditionalFailure != nil {
		d.add("additional", "%s: unexpected nested failure %s %q", what, f.AdditionalFailure.State, f.AdditionalFailure.Failure.Message)
	} else if x.Nested != nil && f.AdditionalFailure == nil {
		d.add("additional", "%s: nested failure %s %q missing", what, x.Nested.State, x.Nested.Msg)
	} else if x.Nested != nil {
		if f.AdditionalFailure.State != x.Nested.State {
			d.add("additional", "%s: nested failure has state %s, expected %s", what, f.AdditionalFailure.State, x.Nested.State)
		}
		_, kind, _ := strings.Cut(want, "A ")
		kind, _, _ = strings.Cut(kind, " timeout occurred")
		n := *x.Nested
		nf := f.AdditionalFailure.Failure
		pre := "An interrupt occurred and then the following failure was recorded in the interrupted node before it exited:\n"
		if x.State == "timedout" {
			pre = "A " + kind + " timeout occurred and then the following failure was recorded in the timedout node before it exited:\n"
		}
		if !strings.HasPrefix(nf.Message, pre) {
			d.add("failure", "%s: nested failure message %q", what, nf.Message)
		}
		nf.Message = strings.TrimPrefix(nf.Message, pre)
		cmpFail(d, what+", nested failure", nodes, evs, &n, &nf, specID)
	}
	if x.Line {
		ok, seen := false, []int{}
		for _, e := range evs {
			if e.E == "act" && e.N == x.Node && e.Spec == specID && strings.HasSuffix(e.X, ":"+strings.TrimSuffix(want, "\n")) {
				seen = append(seen, e.Ln)
				if e.Ln == f.Location.LineNumber && strings.HasSuffix(f.Location.FileName, "interp_test.go") {
					ok = true
				}
			}
		}
		if !ok && want != "failed" {
			d.add("failure", "%s: failure location %s:%d, expected one of lines %v of interp_test.go", what, f.Location.FileName, f.Location.LineNumber, seen)
		}
	}
}

var reRan = regexp.MustCompile(`Ran (\d+) of (\d+) Specs`)
var reTot = regexp.MustCompile(`(\d+) Passed \| (\d+) Failed \| (?:(\d+) Flaked \| )?(?:(\d+) Repeated \| )?(\d+) Pending \| (\d+) Skipped`)

func catOf(k string) string {
	switch k {
	case "AfterEach", "JustAfterEach", "AfterAll", "DeferCleanup (Each)", "DeferCleanup (All)", "DeferCleanup (Suite)":
		return "teardown"
	case "ReportBeforeEach", "ReportAfterEach", "ReportBeforeSuite", "ReportAfterSuite":
		return "reportnodes"
	case "BeforeSuite", "AfterSuite", "SynchronizedBeforeSuite", "SynchronizedAfterSuite":
		return "suitenodes"
	}
	return "bodies"
}

func xevS(e XEvent) string {
	return fmt.Sprintf("%s %d/%d spec %d inv %d attempt %d %s", e.K, e.N, e.Part, e.Spec, e.Inv, e.Att, e.X)
}

// compareSerial checks a serial run against the reference expectation.
func compareSerial(s *sdoc.Suite, c *Cfg, run *SuiteRun) (*Expect, []Diff) {
	d := &diffs{}
	if run.Report == nil {
		d.add("noreport", "no JSON report: %s (exit %d)\n%s", run.RepErr, run.Res.Exit, trunc(run.Res.Out, 1500))
		return nil, d.d
	}
	x := simulate(s, c, orderOf(run.Report))
	return x, compareWith(s, c, run, x)
}

// compareWith checks a serial run against a given expectation.
func compareWith(s *sdoc.Suite, c *Cfg, run *SuiteRun, x *Expect) []Diff {
	d := &diffs{}
	nodes := nodeByID(s)

	// event sequence
	var got []sdoc.Event
	for _, e := range run.Events {
		if e.E == "enter" {
			got = append(got, e)
		}
	}
	kind := map[int]string{}
	for id, n := range nodes {
		kind[id] = n.K
	}
	for i := 0; i < len(got) || i < len(x.Events); i++ {
		if i >= len(got) {
			d.add(catOf(x.Events[i].K), "event %d missing: %s", i, xevS(x.Events[i]))
			break
		}
		g := got[i]
		k := kind[g.N]
		if k == "" {
			k = "DeferCleanup (Each)"
		}
		gs := fmt.Sprintf("%s %d/%d spec %d inv %d attempt %d %s", k, g.N, g.Part, g.Spec, g.Inv, g.Att, trunc(g.X, 80))
		if i >= len(x.Events) {
			d.add(catOf(k), "event %d is extra: %s", i, gs)
			break
		}
		w := x.Events[i]
		spec := g.Spec
		if w.N != g.N || w.Part != g.Part || w.Inv != g.Inv {
			d.add(catOf(w.K), "event %d: got %s, expected %s", i, gs, xevS(w))
			d.add(catOf(k), "event %d: got %s, expected %s", i, gs, xevS(w))
			break
		}
		if w.Spec != spec || (w.Spec != 0 && w.Att != g.Att) {
			d.add("attempts", "event %d: got %s, expected %s", i, gs, xevS(w))
			break
		}
		xs, ctx, hasCtx := strings.Cut(g.X, "|ctx=")
		if hasCtx && ctx != "live" {
			d.add("ctx", "event %d: %s entered with a dead context: %s", i, gs, ctx)
		}
		if strings.HasPrefix(w.K, "DeferCleanup") && w.X != xs {
			d.add("cleanupargs", "event %d: %s got arguments %q, expected %q", i, gs, xs, w.X)
		}
	}
	cmpReportNodes(d, x, got, run)
	// conservation: every registered cleanup ran exactly once
	bal := map[int]int{}
	for _, e := range run.Events {
		if e.E == "reg" {
			bal[e.N]++
		} else if e.E == "enter" && kind[e.N] == "" {
			bal[e.N]--
		}
	}
	for id, n := range bal {
		if n != 0 && x.Level < 2 { // from the second interrupt on cleanups are left out
			d.add("teardown", "cleanup %d: registered minus executed = %d", id, n)
		}
	}
	// no two bodies overlap
	depth := 0
	for _, e := range run.Events {
		if e.E == "enter" {
			depth++
			if depth > 1 {
				d.add("overlap", "node %d entered while another body was running", e.N)
				break
			}
		} else if e.E == "exit" {
			depth--
		}
	}

	// reports
	rep := run.Report
	var reps []RSpec
	for _, r := range rep.SpecReports {
		reps = append(reps, r)
	}
	if len(reps) != len(x.Reps) {
		d.add("reportset", "%d reports, expected %d", len(reps), len(x.Reps))
	}
	for i := 0; i < len(reps) && i < len(x.Reps); i++ {
		cmpRep(d, nodes, run.Events, &x.Reps[i], &reps[i])
	}
	cmpTotals(d, x, c, run)
	return d.d
}

func cmpRep(d *diffs, nodes map[int]*sdoc.Node, evs []sdoc.Event, x *XRep, g *RSpec) {
	what := fmt.Sprintf("report of %s %d", x.Kind, x.ID)
	if g.LeafNodeType != x.Kind {
		d.add("reportset", "%s: leaf node type %s", what, g.LeafNodeType)
		return
	}
	if x.Kind == "It" {
		if leafID(g.LeafNodeText) != x.ID {
			d.add("reportset", "%s: got text %q", what, g.LeafNodeText)
			return
		}
		var texts []string
		var labels [][]string
		for _, c := range x.Spec.conts {
			texts = append(texts, contText(c))
			labels = append(labels, nodeLabels(c))
		}
		if strings.Join(texts, "\x00") != strings.Join(g.ContainerHierarchyTexts, "\x00") || g.LeafNodeText != x.Spec.it.Text {
			d.add("reportset", "%s: texts %q %q", what, g.ContainerHierarchyTexts, g.LeafNodeText)
		}
		if fmt.Sprint(labels) != fmt.Sprint(g.ContainerHierarchyLabels) && len(labels) > 0 || fmt.Sprint(nodeLabels(x.Spec.it)) != fmt.Sprint(g.LeafNodeLabels) {
			d.add("reportset", "%s: labels %v %v, expected %v %v", what, g.ContainerHierarchyLabels, g.LeafNodeLabels, labels, nodeLabels(x.Spec.it))
		}
		wf, wl := wantLoc(nodes, x.ID, "")
		if g.LeafNodeLocation.FileName != wf || g.LeafNodeLocation.LineNumber != wl {
			d.add("reportset", "%s: location %v", what, g.LeafNodeLocation)
		}
	} else {
		wf, wl := wantLoc(nodes, x.ID, x.Kind)
		if g.LeafNodeLocation.FileName != wf || g.LeafNodeLocation.LineNumber != wl {
			d.add("reportset", "%s: location %s:%d, expected %s:%d", what, g.LeafNodeLocation.FileName, g.LeafNodeLocation.LineNumber, wf, wl)
		}
	}
	if g.State != x.State {
		d.add("state", "%s: state %s, expected %s", what, g.State, x.State)
		return
	}
	if x.Kind == "It" {
		if g.NumAttempts != x.Attempts {
			d.add("attempts", "%s: %d attempts, expected %d", what, g.NumAttempts, x.Attempts)
		}
		if g.MaxFlakeAttempts != x.MaxFlake || g.MaxMustPassRepeatedly != x.MaxMust {
			d.add("attempts", "%s: max flake/mustpass %d/%d, expected %d/%d", what, g.MaxFlakeAttempts, g.MaxMustPassRepeatedly, x.MaxFlake, x.MaxMust)
		}
	}
	if x.Fail != nil {
		cmpFail(d, what, nodes, evs, x.Fail, g.Failure, x.ID*b2i(x.Kind == "It"))
	} else if g.Failure != nil && (g.Failure.Message != "" || g.Failure.Location.FileName != "") {
		d.add("failure", "%s: unexpected failure %q", what, g.Failure.Message)
	}
	if len(g.AdditionalFailures) != len(x.Add) {
		var l []string
		for _, a := range g.AdditionalFailures {
			l = append(l, a.State+":"+a.Failure.Message)
		}
		var w []string
		for _, a := range x.Add {
			w = append(w, a.State+":"+a.Msg)
		}
		d.add("additional", "%s: additional failures %q, expected %q", what, l, w)
	} else {
		for i := range x.Add {
			if g.AdditionalFailures[i].State != x.Add[i].State {
				d.add("additional", "%s: additional failure %d has state %s, expected %s", what, i, g.AdditionalFailures[i].State, x.Add[i].State)
			}
			cmpFail(d, fmt.Sprintf("%s, additional failure %d", what, i), nodes, evs, &x.Add[i], &g.AdditionalFailures[i].Failure, x.ID*b2i(x.Kind == "It"))
		}
	}
	if g.CapturedGinkgoWriterOutput != x.GW {
		d.add("gw", "%s: captured writer output %q, expected %q", what, g.CapturedGinkgoWriterOutput, x.GW)
	}
	var ents []string
	for _, e := range g.ReportEntries {
		ents = append(ents, e.Name)
	}
	if strings.Join(ents, "|") != strings.Join(x.Entries, "|") {
		d.add("entries", "%s: report entries %q, expected %q", what, ents, x.Entries)
	}
	var steps []string
	for _, e := range g.SpecEvents {
		if e.SpecEventType == "By" {
			steps = append(steps, e.Message)
		}
	}
	if strings.Join(steps, "|") != strings.Join(x.Steps, "|") {
		d.add("entries", "%s: steps %q, expected %q", what, steps, x.Steps)
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func cmpTotals(d *diffs, x *Expect, c *Cfg, run *SuiteRun) {
	rep := run.Report
	if rep.SuiteSucceeded != x.OK {
		d.add("success", "suite succeeded=%v, expected %v", rep.SuiteSucceeded, x.OK)
	}
	if rep.SuiteHasProgrammaticFocus != x.HasFocus {
		d.add("focusflag", "programmatic focus=%v, expected %v", rep.SuiteHasProgrammaticFocus, x.HasFocus)
	}
	if strings.Join(rep.SpecialSuiteFailureReasons, "|") != strings.Join(x.Reasons, "|") {
		d.add("success", "special suite failure reasons %q, expected %q", rep.SpecialSuiteFailureReasons, x.Reasons)
	}
	if rep.PreRunStats.TotalSpecs != x.Total || rep.PreRunStats.SpecsThatWillRun != x.Will {
		d.add("selection", "pre-run stats %+v, expected total %d will run %d", rep.PreRunStats, x.Total, x.Will)
	}
	exit := 0
	if !x.OK {
		exit = 1
	} else if x.HasFocus {
		exit = 197
	}
	if run.Res.Exit != exit {
		d.add("exit", "exit status %d, expected %d", run.Res.Exit, exit)
	}
	// totals shown to the user
	n := map[string]int{}
	flaked, repeated, ran, ambiguous := 0, 0, 0, false
	for _, r := range x.Reps {
		if r.Kind != "It" {
			continue
		}
		n[r.State]++
		if r.MaxFlake > 0 && r.MaxMust > 0 {
			ambiguous = true
		}
		if r.State == "passed" && r.MaxFlake > 1 && r.Attempts > 1 {
			flaked++
		}
		if isFailure(r.State) && r.MaxMust > 1 && r.Attempts > 1 {
			repeated++
		}
	}
	nfail := n["failed"] + n["panicked"] + n["aborted"] + n["timedout"] + n["interrupted"]
	ran = n["passed"] + nfail
	if n["passed"]+nfail+n["skipped"]+n["pending"] == 0 && !x.OK {
		return // nothing was reported for specs (suite setup failed): totals are special
	}
	m := reRan.FindStringSubmatch(run.Res.Out)
	if m == nil {
		d.add("totals", "no 'Ran x of y Specs' line in the output")
		return
	}
	if m[1] != fmt.Sprint(ran) || m[2] != fmt.Sprint(x.Total) {
		d.add("totals", "output says %q, expected %d of %d", m[0], ran, x.Total)
	}
	t := reTot.FindStringSubmatch(run.Res.Out)
	if t == nil {
		d.add("totals", "no totals line in the output")
		return
	}
	want := []int{n["passed"], nfail, flaked, repeated, n["pending"], n["skipped"]}
	for i, w := range want {
		g := t[i+1]
		if g == "" {
			g = "0"
		}
		if ambiguous && (i == 2 || i == 3) {
			continue
		}
		if g != fmt.Sprint(w) {
			d.add("totals", "output says %q, expected passed/failed/flaked/repeated/pending/skipped %v", t[0], want)
			break
		}
	}
}

// cmpReportNodes checks what reporting nodes were handed.
func cmpReportNodes(d *diffs, x *Expect, got []sdoc.Event, run *SuiteRun) {
	for i := 0; i < len(got) && i < len(x.Events); i++ {
		w, g := x.Events[i], got[i]
		if w.N != g.N {
			return
		}
		js, _, _ := strings.Cut(g.X, "|ctx=")
		switch w.K {
		case "ReportBeforeEach", "ReportAfterEach":
			var m map[string]any
			if json.Unmarshal([]byte(js), &m) != nil {
				d.add("reportnodes", "%s: undecodable report %q", xevS(w), g.X)
				continue
			}
			want := strings.Split(w.X, "\x00")
			st := fmt.Sprint(m["state"])
			if st != want[0] && !(want[0] == "INVALID SPEC STATE" && strings.Contains(strings.ToUpper(st), "INVALID")) {
				d.add("reportnodes", "%s: received state %q, expected %q", xevS(w), st, want[0])
			}
			if len(want) > 3 {
				if fmt.Sprint(m["att"]) != want[1] {
					d.add("reportnodes", "%s: received %v attempts", xevS(w), m["att"])
				}
				if fmt.Sprint(m["nadd"]) != want[2] {
					d.add("reportnodes", "%s: received %v additional failures", xevS(w), m["nadd"])
				}
				if fmt.Sprint(m["gw"]) != want[3] {
					d.add("reportnodes", "%s: received writer output %q", xevS(w), m["gw"])
				}
				if fmt.Sprint(m["nent"]) != want[4] {
					d.add("reportnodes", "%s: received %v report entries", xevS(w), m["nent"])
				}
			}
		case "ReportBeforeSuite", "ReportAfterSuite":
			var m struct {
				OK      bool
				Specs   []struct{ Leaf, Type, State, Msg string }
				Total   int
				Will    int
				Reasons []string
				Focus   bool
			}
			if json.Unmarshal([]byte(js), &m) != nil {
				d.add("reportnodes", "%s: undecodable report %q", xevS(w), trunc(g.X, 200))
				continue
			}
			var l []string
			for _, s := range m.Specs {
				l = append(l, fmt.Sprintf("%s:%d:%s", s.Type, leafID(s.Leaf), s.State))
			}
			gs := fmt.Sprintf("%v %s total=%d will=%d", m.OK, strings.Join(l, ","), m.Total, m.Will)
			if gs != w.X {
				d.add("reportnodes", "%s %d: received report %s, expected %s", w.K, w.N, gs, w.X)
			}
		}
	}
}

func sortedKeys[M ~map[string]V, V any](m M) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

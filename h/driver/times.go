package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/onsi/ginkgo/v2/internal/zzverif/sdoc"
	"github.com/onsi/ginkgo/v2/types"
)

// C36: every time and duration in the report is compared with the program's own log. A time Ginkgo takes lies between two of the log's events; a duration lies between
// the span of what it certainly covers and the span of what it may cover. No bound depends on how fast anything runs.

type tmBody struct {
	n, spec     int
	enter, exit int64 // monotonic
	prev, next  int64 // the log's events before and after
	rep         int   // index of the report it belongs to
	node        string
	clock       []int64
	clockT      int64
}

type tmNode struct {
	start, end types.SpecEvent
	rep        int
}

func timesCase(c *Ctx, i int) {
	r := rng("C36", i)
	g := defaultG
	g.By, g.Entry, g.GW = .4, .3, .1
	g.Flake, g.MustPass = .12, .08
	g.Reports, g.RSuite = .5, .4
	g.Ctx = .4
	s := genSuite(r, g)
	cg := CG{Filters: .1, RandAll: .5, FailFast: .1, Flake: .05}
	if r.Intn(12) == 0 {
		cg.DryRun = 1
	}
	cfg := genCfg(r, s, cg)
	procs := 1
	if !cfg.DryRun && r.Intn(8) == 0 {
		procs = 2 + r.Intn(2)
	}
	delays(r, s, procs, 3, .35)
	s.Walk(func(n *sdoc.Node, _ []*sdoc.Node) {
		if n.K != "container" && !strings.HasPrefix(n.K, "Report") && r.Intn(8) == 0 && procs == 1 {
			n.HasPoll, n.PollAfter, n.PollEvery = true, 1, r.Intn(3)
			n.Body = append(n.Body, sdoc.Act{K: "sleep", N: 3 + r.Intn(4)})
		}
	})
	o := RunOpts{Args: cfg.Args(), Env: []string{"VERIF_TIMES=1"}}
	if procs > 1 {
		o.Procs = procs
		o.HTTP = r.Intn(2) == 0
	}
	// Setting the clock during a run goes unnoticed now and then: what is found must be found three times.
	var ds diffs
	for k := 0; k < 3; k++ {
		run := c.runRetry(s, o)
		ds = diffs{}
		judged := timesJudge(c, s, run, procs, cfg.DryRun, &ds, k == 0)
		if k == 0 {
			c.Eval(sigHash(judged))
			if i < 3 {
				c.Sample(map[string]any{"case": i, "args": o.Args, "procs": procs, "events": len(run.Events), "exit": run.Res.Exit})
			}
		}
		if len(ds.d) > 0 && k == 2 {
			var l []string
			for _, d := range ds.d {
				l = append(l, d.Cat+": "+d.Msg)
			}
			c.Fail("", fmt.Sprintf("case %d (args %v, procs %d):\n%s", i, o.Args, o.Procs, strings.Join(l, "\n")), run.Files())
		}
		run.Clean()
		if len(ds.d) > 0 && *flagDump {
			fmt.Println("attempt", k, "of case", i, ds.d)
		}
		if len(ds.d) == 0 {
			if k > 0 {
				c.Count("differences not found again", 1)
			}
			break
		}
	}
}

func timesJudge(c *Ctx, s *sdoc.Suite, run *SuiteRun, procs int, dry bool, ds *diffs, count bool) string {
	tally := func(k string, n int) {
		if count {
			c.Count(k, n)
		}
	}
	reps, bad := readReports(run)
	if bad != "" {
		ds.add("nothing", "%s", bad)
		return bad
	}
	rep := reps[0]
	kind := map[int]string{}
	s.Walk(func(n *sdoc.Node, _ []*sdoc.Node) { kind[n.ID] = n.K })

	// the log of each process, and what the wall clock said when
	byProc := map[int][]sdoc.Event{}
	for _, e := range run.Events {
		byProc[e.P] = append(byProc[e.P], e)
	}
	lo, hi := int64(math.MinInt64), int64(math.MaxInt64)
	for _, evs := range byProc {
		for k, e := range evs {
			if e.E == "clock" && k > 0 {
				var x []int64
				json.Unmarshal([]byte(e.X), &x)
				lo, hi = max(lo, x[0]-e.T), min(hi, x[0]-evs[k-1].T)
			}
		}
	}
	if lo == math.MinInt64 {
		tally("runs without a body", 1)
		return ""
	}
	if lo > hi {
		tally("runs in which the clock was set", 1)
		return ""
	}
	// between: t lies between the monotonic times a and b
	between := func(cat string, t time.Time, a, b int64, f string, x ...any) {
		tally("times judged: "+cat, 1)
		w := t.UnixNano()
		if t.IsZero() {
			ds.add(cat, "%s: no time", fmt.Sprintf(f, x...))
		} else if w-lo < a { // (the latest it can be)
			ds.add(cat, "%s: %v too early", fmt.Sprintf(f, x...), time.Duration(a-(w-lo)))
		} else if w-hi > b {
			ds.add(cat, "%s: %v too late", fmt.Sprintf(f, x...), time.Duration(w-hi-b))
		}
	}
	lasts := func(cat string, d time.Duration, a, b int64, f string, x ...any) {
		tally("durations judged: "+cat, 1)
		if int64(d) < a || int64(d) > b {
			ds.add(cat, "%s: lasted %v, want between %v and %v", fmt.Sprintf(f, x...), d, time.Duration(a), time.Duration(b))
		}
	}
	const inf = int64(math.MaxInt64) / 4

	procsSeen := []int{}
	for p := range byProc {
		procsSeen = append(procsSeen, p)
	}
	sort.Ints(procsSeen)
	firstEnter, lastExit, began := inf, int64(0), inf
	firstRAS := inf
	sig := ""
	attempted := map[int]bool{}
	for _, p := range procsSeen {
		evs := byProc[p]
		// bodies
		var bodies []*tmBody
		stack := map[string]*tmBody{}
		last := int64(0)
		for k, e := range evs {
			nx := inf
			if k+1 < len(evs) {
				nx = evs[k+1].T
			}
			switch e.E {
			case "config":
				began = min(began, e.T)
			case "enter":
				b := &tmBody{n: e.N, spec: e.Spec, enter: e.T, prev: last, next: inf, node: kind[e.N]}
				bodies = append(bodies, b)
				stack[fmt.Sprint(e.N, "/", e.Part, "/", e.Spec, "/", e.Inv)] = b
			case "clock":
				if len(bodies) > 0 {
					b := bodies[len(bodies)-1]
					json.Unmarshal([]byte(e.X), &b.clock)
					b.clockT = e.T
				}
			case "exit":
				if b := stack[fmt.Sprint(e.N, "/", e.Part, "/", e.Spec, "/", e.Inv)]; b != nil {
					b.exit, b.next = e.T, nx
				}
			}
			last = e.T
		}
		for _, b := range bodies {
			if b.exit == 0 {
				ds.add("log", "process %d: body of node %d did not end", p, b.n)
				return ""
			}
			if b.node == "ReportAfterSuite" {
				firstRAS = min(firstRAS, b.enter)
			} else {
				firstEnter, lastExit = min(firstEnter, b.enter), max(lastExit, b.exit)
			}
			sig += b.node[:min(3, len(b.node))]
		}
		// nodes
		var nodes []*tmNode
		for x := range rep.SpecReports {
			sr := &rep.SpecReports[x]
			if sr.ParallelProcess != p {
				continue
			}
			var open *tmNode
			lastAt, lastOrder := time.Time{}, -1
			evl := append(types.SpecEvents{}, sr.SpecEvents...)
			sort.SliceStable(evl, func(a, b int) bool { return evl[a].TimelineLocation.Order < evl[b].TimelineLocation.Order })
			for _, ev := range evl {
				if ev.TimelineLocation.Time.Before(lastAt) {
					ds.add("order of times", "[%s] event %d (%v) is earlier than event %d before it by %v", sr.FullText(), ev.TimelineLocation.Order, ev.SpecEventType, lastOrder, lastAt.Sub(ev.TimelineLocation.Time))
				}
				lastAt, lastOrder = ev.TimelineLocation.Time, ev.TimelineLocation.Order
				switch ev.SpecEventType {
				case types.SpecEventNodeStart:
					open = &tmNode{start: ev, rep: x}
					nodes = append(nodes, open)
					if ev.Duration != 0 {
						ds.add("node duration", "[%s] the start of a node has a duration: %v", sr.FullText(), ev.Duration)
					}
				case types.SpecEventNodeEnd:
					if open == nil || open.end.SpecEventType != types.SpecEventInvalid {
						ds.add("nodes", "[%s] the end of a node without its start", sr.FullText())
						continue
					}
					open.end = ev
				}
			}
		}
		sort.SliceStable(nodes, func(a, b int) bool {
			return nodes[a].start.TimelineLocation.Time.Before(nodes[b].start.TimelineLocation.Time)
		})
		// a report that isn't in the final report (nodes of a report with no body here) would show as a difference in number
		if len(nodes) != len(bodies) {
			ns, bs := "", ""
			for _, n := range nodes {
				ns += fmt.Sprint(" ", n.start.NodeType)
			}
			for _, b := range bodies {
				bs += " " + b.node
			}
			ds.add("nodes", "process %d: %d bodies ran but %d nodes are reported:\n  %s\n  %s", p, len(bodies), len(nodes), bs, ns)
			continue
		}
		perRep := map[int][]*tmBody{}
		for k, b := range bodies {
			n := nodes[k]
			sr := &rep.SpecReports[n.rep]
			b.rep = n.rep
			perRep[n.rep] = append(perRep[n.rep], b)
			who := fmt.Sprintf("[%s] %v, node %d on process %d", sr.FullText(), n.start.NodeType, b.n, p)
			if kn := kind[b.n]; kn != "" && prNodeTypes[kn] != n.start.NodeType {
				ds.add("nodes", "%s: the body that ran then is that of a %s", who, kn)
				continue
			}
			between("node start", n.start.TimelineLocation.Time, b.prev, b.enter, "%s: start", who)
			if n.end.SpecEventType == types.SpecEventInvalid {
				ds.add("nodes", "%s has no end", who)
				continue
			}
			between("node end", n.end.TimelineLocation.Time, b.exit, b.next, "%s: end", who)
			lasts("node duration", n.end.Duration, b.exit-b.enter, b.next-b.prev, "%s", who)
		}
		// specs and suite nodes
		ids := []int{}
		for x := range perRep {
			ids = append(ids, x)
		}
		sort.Ints(ids)
		for _, x := range ids {
			attempted[x] = timesSpec(c, &rep.SpecReports[x], perRep[x], evs, between, lasts, tally, ds)
		}
	}
	for x := range rep.SpecReports {
		sr := &rep.SpecReports[x]
		ran := !sr.EndTime.IsZero()
		if sr.LeafNodeType.Is(types.NodeTypeIt) {
			if ran != attempted[x] && (procs == 1 || !sr.State.Is(types.SpecStateSkipped|types.SpecStateInterrupted|types.SpecStateAborted)) { // (another process may have aborted right then)
				ds.add("spec times", "[%s] %v: bodies of it ran: %v, but start %v, end %v", sr.FullText(), sr.State, attempted[x], sr.StartTime, sr.EndTime)
			}
			if !ran && sr.RunTime != 0 {
				ds.add("spec times", "[%s] did not run but has a run time of %v", sr.FullText(), sr.RunTime)
			}
			if sr.StartTime.IsZero() {
				ds.add("spec times", "[%s] has no start", sr.FullText())
			}
		}
		timesProgress(sr, tally, ds)
	}
	// the suite
	if firstEnter < inf {
		between("suite start", rep.StartTime, began, firstEnter, "the suite starts")
		between("suite end", rep.EndTime, lastExit, firstRAS, "the suite ends")
		lasts("suite run time", rep.RunTime, lastExit-firstEnter, min(firstRAS-began, int64(run.Res.Wall)), "the suite")
		if d := rep.EndTime.Sub(rep.StartTime); procs > 1 && max(d-rep.RunTime, rep.RunTime-d) > 5*time.Millisecond {
			ds.add("suite run time", "run time %v, but it ends %v after its start", rep.RunTime, d)
		}
	}
	return sig
}

func timesSpec(c *Ctx, sr *types.SpecReport, bodies []*tmBody, evs []sdoc.Event, between func(string, time.Time, int64, int64, string, ...any),
	lasts func(string, time.Duration, int64, int64, string, ...any), tally func(string, int), ds *diffs) bool {
	who := fmt.Sprintf("[%v %s]", sr.LeafNodeType, sr.FullText())
	isSpec := sr.LeafNodeType.Is(types.NodeTypeIt)
	var before, own, after []*tmBody
	for _, b := range bodies {
		switch {
		case isSpec && b.node == "ReportBeforeEach":
			before = append(before, b)
		case isSpec && b.node == "ReportAfterEach":
			after = append(after, b)
		default:
			own = append(own, b)
		}
	}
	if len(own) > 0 {
		f, l := own[0], own[len(own)-1]
		between("spec start", sr.StartTime, f.prev, f.enter, "%s starts", who)
		between("spec end", sr.EndTime, l.exit, l.next, "%s ends", who)
		lasts("spec run time", sr.RunTime, l.exit-f.enter, l.next-f.prev, "%s", who)
	} else if isSpec && len(before)+len(after) > 0 {
		a, b := int64(0), int64(math.MaxInt64)/4
		if len(before) > 0 {
			a = before[len(before)-1].exit
		}
		if len(after) > 0 {
			b = after[0].enter
		}
		between("start of a spec that did not run", sr.StartTime, a, b, "%s starts", who)
	}
	// what the spec's bodies were told
	for k, b := range bodies {
		if b.clock == nil || !isSpec {
			continue
		}
		start, end, run := b.clock[1], b.clock[2], b.clock[3]
		tally("reports seen by bodies", 1)
		switch b.node {
		case "ReportBeforeEach":
			if start != 0 || end != 0 || run != 0 {
				ds.add("seen", "%s a body before it started was told %v", who, b.clock)
			}
		case "ReportAfterEach":
			if start != sr.StartTime.UnixNano() || (end != 0) != !sr.EndTime.IsZero() || end != 0 && end != sr.EndTime.UnixNano() || run != int64(sr.RunTime) {
				ds.add("seen", "%s a body after it ended was told %v, the report has %d %d %d", who, b.clock, sr.StartTime.UnixNano(), sr.EndTime.UnixNano(), sr.RunTime)
			}
		default:
			if start != sr.StartTime.UnixNano() {
				ds.add("seen", "%s a body of it was told it started at %d, the report has %d", who, start, sr.StartTime.UnixNano())
			}
			i := k - len(before)
			if sr.NumAttempts == 0 { // (it only runs what earlier specs of its container have left outstanding)
			} else if i == 0 {
				if sr.RunningInParallel {
					lasts("run time so far", time.Duration(run), 0, b.enter-b.prev, "%s before its first body", who)
				} else if run != 0 {
					ds.add("seen", "%s its first body was told a run time of %v", who, time.Duration(run))
				}
			} else if i > 0 && i < len(own) {
				lasts("run time so far", time.Duration(run), own[i-1].exit-own[0].enter, b.enter-own[0].prev, "%s before node %d", who, b.n)
			}
		}
	}
	// steps, entries and failures: in the order they were made
	var steps, ends, entries [][2]int64 // intervals they must lie in
	var stepSpan [][2]int64             // shortest and longest duration
	type opened struct {
		k      string
		t, nx  int64
		pv, at int64
	}
	for _, b := range bodies {
		var st []opened
		last := b.enter
		for k, e := range evs {
			if e.T < b.enter || e.T > b.exit || e.E == "enter" && e.T == b.enter {
				continue
			}
			nx := int64(math.MaxInt64) / 4
			if k+1 < len(evs) {
				nx = evs[k+1].T
			}
			switch e.E {
			case "a0":
				st = append(st, opened{k: e.X, t: e.T, nx: nx})
				if e.X == "by" {
					steps = append(steps, [2]int64{e.T, nx})
				}
				if e.X == "entry" {
					entries = append(entries, [2]int64{e.T, nx})
				}
			case "a1":
				o := st[len(st)-1]
				st = st[:len(st)-1]
				if e.X == "by" {
					ends = append(ends, [2]int64{last, e.T})
					stepSpan = append(stepSpan, [2]int64{max(0, last-o.nx), e.T - o.t})
				}
			}
			last = e.T
		}
	}
	var bs, be []types.SpecEvent
	evl := append(types.SpecEvents{}, sr.SpecEvents...)
	sort.SliceStable(evl, func(a, b int) bool { return evl[a].TimelineLocation.Order < evl[b].TimelineLocation.Order })
	for _, ev := range evl {
		switch ev.SpecEventType {
		case types.SpecEventByStart:
			bs = append(bs, ev)
		case types.SpecEventByEnd:
			be = append(be, ev)
		}
	}
	if len(bs) == len(steps) {
		for k, ev := range bs {
			between("step start", ev.TimelineLocation.Time, steps[k][0], steps[k][1], "%s step %q starts", who, ev.Message)
		}
	} else {
		ds.add("steps", "%s %d steps reported, %d made", who, len(bs), len(steps))
	}
	// (steps without a callback have no end: match each end by time, in order)
	k := 0
	for _, ev := range be {
		found := false
		for ; k < len(ends) && !found; k++ {
			q := func(t time.Time, a, b int64) bool { // within, judged by the same rule
				n := len(ds.d)
				between("step end", t, a, b, "%s", who)
				ok := len(ds.d) == n
				ds.d = ds.d[:n]
				return ok
			}
			if q(ev.TimelineLocation.Time, ends[k][0], ends[k][1]) {
				found = true
				lasts("step duration", ev.Duration, stepSpan[k][0], stepSpan[k][1], "%s step %q", who, ev.Message)
			}
		}
		if !found {
			ds.add("step end", "%s step %q ends at a time when no step ended", who, ev.Message)
			break
		}
	}
	if len(sr.ReportEntries) == len(entries) {
		el := append(types.ReportEntries{}, sr.ReportEntries...)
		sort.SliceStable(el, func(a, b int) bool { return el[a].TimelineLocation.Order < el[b].TimelineLocation.Order })
		for k, en := range el {
			between("entry", en.TimelineLocation.Time, entries[k][0], entries[k][1], "%s entry %q", who, en.Name)
			between("entry", en.Time, entries[k][0], entries[k][1], "%s entry %q: its own time", who, en.Name)
		}
	} else {
		ds.add("entries", "%s %d entries reported, %d made", who, len(sr.ReportEntries), len(entries))
	}
	fails := []types.Failure{}
	if !sr.Failure.IsZero() {
		fails = append(fails, sr.Failure)
	}
	for _, a := range sr.AdditionalFailures {
		fails = append(fails, a.Failure)
	}
	for _, f := range fails {
		if f.TimelineLocation.Time.IsZero() || len(own) == 0 || sr.NumAttempts == 0 && isSpec && f.TimelineLocation == sr.Failure.TimelineLocation {
			continue
		}
		// it is in the node it names
		in := false
		for _, b := range bodies {
			n := len(ds.d)
			between("failure", f.TimelineLocation.Time, b.enter, b.next, "")
			in = in || len(ds.d) == n
			ds.d = ds.d[:n]
		}
		if !in && len(bodies) > 0 {
			ds.add("failure", "%s failure %q is timed outside all of its nodes", who, f.Message)
		}
	}
	return len(own) > 0
}

// timesProgress compares what progress reports say of starts with the events they speak of.
func timesProgress(sr *types.SpecReport, tally func(string, int), ds *diffs) {
	evl := append(types.SpecEvents{}, sr.SpecEvents...)
	sort.SliceStable(evl, func(a, b int) bool { return evl[a].TimelineLocation.Order < evl[b].TimelineLocation.Order })
	for _, pr := range sr.ProgressReports {
		tally("progress reports judged", 1)
		who := fmt.Sprintf("[%v %s] progress report %d", sr.LeafNodeType, sr.FullText(), pr.TimelineLocation.Order)
		var node, step, prevAny *types.SpecEvent
		for k := range evl {
			ev := &evl[k]
			if ev.TimelineLocation.Order > pr.TimelineLocation.Order {
				if pr.TimelineLocation.Time.After(ev.TimelineLocation.Time) {
					ds.add("progress", "%s is later than event %d after it", who, ev.TimelineLocation.Order)
				}
				break
			}
			prevAny = ev
			switch ev.SpecEventType {
			case types.SpecEventNodeStart:
				node, step = ev, nil
			case types.SpecEventByStart:
				step = ev
			}
		}
		if prevAny != nil && pr.TimelineLocation.Time.Before(prevAny.TimelineLocation.Time) {
			ds.add("progress", "%s is earlier than event %d before it", who, prevAny.TimelineLocation.Order)
		}
		if !pr.SpecStartTime.IsZero() && !pr.SpecStartTime.Equal(sr.StartTime) {
			ds.add("progress", "%s says the spec started at %v, it started at %v", who, pr.SpecStartTime, sr.StartTime)
		}
		if pr.CurrentNodeType != types.NodeTypeInvalid && node != nil {
			// taken right before the event
			if d := node.TimelineLocation.Time.Sub(pr.CurrentNodeStartTime); d < 0 || pr.CurrentNodeStartTime.Before(sr.StartTime) && !sr.StartTime.IsZero() && !node.NodeType.Is(types.NodeTypeReportBeforeEach) {
				ds.add("progress", "%s says the node started at %v, it started at %v", who, pr.CurrentNodeStartTime, node.TimelineLocation.Time)
			}
		}
		if pr.CurrentStepText != "" && step != nil && step.Message == pr.CurrentStepText && !pr.CurrentStepStartTime.Equal(step.TimelineLocation.Time) {
			ds.add("progress", "%s says the step started at %v, it started at %v", who, pr.CurrentStepStartTime, step.TimelineLocation.Time)
		}
	}
}

func init() {
	checks["C36"] = Check{Level: "exploration", Rule: "a case counts as distinct by the hash of the kinds of the bodies that ran, in order", Run: func(c *Ctx) {
		parallelDo(N(1500, 12000), workers(), func(i int) { timesCase(c, i) })
	}}
}

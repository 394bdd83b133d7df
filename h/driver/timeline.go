package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"encoding/json"

	"github.com/onsi/ginkgo/v2/internal/zzverif/sdoc"
	"github.com/onsi/ginkgo/v2/reporters"
	"github.com/onsi/ginkgo/v2/types"
)

// C20: timelines. Part 1 renders random reports in-process; part 2 runs real suites whose bodies log what they emit and
// compares the reported timeline (order, offsets, rendering) with that log, with progress reports requested meanwhile.

func init() {
	checks["C20"] = Check{Level: "exploration", Isolate: true, Run: runC20,
		Rule:   "in-process: distinct by the sequence of item kinds of the report; runs: distinct by the emission sequence of the whole suite, flags and disturbance",
		Assume: []string{"one goroutine emits the judged items of a node; progress reports and background entries arrive at any moment and are judged for order and offset only"}}
}

func runC20(c *Ctx) {
	n := N(3000, 60000)
	parallelDo(n, workers(), func(i int) {
		r := rng("C20", i)
		g := genReport(r, genOpts{utf8: r.Intn(2) == 0, esc: true, braces: true, parallel: r.Intn(2) == 0})
		theWatch.set(i, fmt.Sprintf("C20 case %d", i))
		defer theWatch.done(i)
		for k, s := range g.specs {
			if len(s.items) == 0 {
				continue
			}
			out := reporters.RenderTimeline(s.rep, true)
			c.Eval("r" + itemSig(s))
			c.Count("timeline items rendered", len(s.items))
			d := seqDiff(s.timelineMarks(true, true), markRe.FindAllString(out, -1))
			if d == "" {
				pos := 0
				for _, seg := range s.segments() {
					j := strings.Index(out[pos:], seg)
					if j < 0 {
						d = fmt.Sprintf("captured output %q is not shown verbatim", seg)
						break
					}
					pos += j + len(seg)
				}
			}
			if d != "" {
				in, _ := json.MarshalIndent(s.rep, "", " ")
				c.Fail("", fmt.Sprintf("case %d spec %d: rendered timeline: %s", i, k, d), map[string][]byte{"spec.json": in, "rendered.txt": []byte(out)})
			}
		}
	})
	if *flagOnly < 0 || *flagOnly >= 1000000 {
		timelineRuns(c)
	}
}

func itemSig(s *gSpec) string {
	b := make([]byte, 0, len(s.items))
	for _, it := range s.items {
		k := byte('e')
		switch it.ev.(type) {
		case types.Failure:
			k = 'f'
		case types.AdditionalFailure:
			k = 'a'
		case types.ProgressReport:
			k = 'p'
		case types.ReportEntry:
			k = 'r'
		}
		if it.chunk {
			k = 'c'
		}
		b = append(b, k)
	}
	return string(b)
}

// tlSuite generates a suite whose bodies emit uniquely marked items.
func tlSuite(r *rand.Rand, disturb string) *sdoc.Suite {
	s := &sdoc.Suite{Desc: "timeline"}
	id, mk := 0, 0
	nid := func() int { id++; return id }
	mark := func() string { mk++; return fmt.Sprintf("mk%dz", mk) }
	o := genOpts{utf8: true}
	var items func(depth int, canFail bool) []sdoc.Act
	items = func(depth int, canFail bool) (b []sdoc.Act) {
		for n := r.Intn(5); n > 0; n-- {
			switch r.Intn(7) {
			case 0, 1, 2:
				b = append(b, sdoc.Act{K: "gw", S: mark() + hText(r, o, 4)})
			case 3:
				b = append(b, sdoc.Act{K: "by", S: mark()})
			case 4:
				if depth < 2 {
					b = append(b, sdoc.Act{K: "by", V: "cb", S: mark(), B: items(depth+1, false)})
				}
			case 5:
				vis := []string{"", "never", "fail"}[r.Intn(3)]
				b = append(b, sdoc.Act{K: "entry", S: mark(), V: []string{"", "str"}[r.Intn(2)], A: []string{"v", vis}})
			case 6:
				if disturb == "sig" {
					b = append(b, sdoc.Act{K: "sig", V: "usr1"})
				} else if disturb != "" {
					b = append(b, sdoc.Act{K: "sleep", N: 1 + r.Intn(3)})
				}
			}
		}
		if canFail && r.Intn(4) == 0 {
			a := sdoc.Act{K: []string{"fail", "panic", "fail"}[r.Intn(3)], S: mark()}
			if r.Intn(2) == 0 {
				a.Inv = []int{0}
			}
			b = append(b, a)
		}
		if depth == 0 && canFail && r.Intn(3) == 0 {
			b = append([]sdoc.Act{{K: "defer", ID: nid(), B: items(1, r.Intn(3) == 0)}}, b...)
		}
		return
	}
	node := func(k string, canFail bool) *sdoc.Node {
		n := &sdoc.Node{ID: nid(), K: k}
		n.Loc = sdoc.Loc{F: "/synthetic/tl.go", L: n.ID}
		n.Body = items(0, canFail)
		if k == "SynchronizedBeforeSuite" || k == "SynchronizedAfterSuite" {
			n.Body2 = items(0, false)
		}
		return n
	}
	it := func() *sdoc.Node {
		n := node("it", true)
		n.Text = fmt.Sprintf("S%d", n.ID)
		switch r.Intn(5) {
		case 0:
			n.Flake = 2 + r.Intn(2)
		case 1:
			n.MustPass = 2
		}
		return n
	}
	var cont func(depth int) *sdoc.Node
	cont = func(depth int) *sdoc.Node {
		ct := &sdoc.Node{ID: nid(), K: "container", Text: fmt.Sprintf("C%d", id)}
		ct.Loc = sdoc.Loc{F: "/synthetic/tl.go", L: ct.ID}
		ct.Ordered = r.Intn(3) == 0
		ks := []string{"BeforeEach", "AfterEach", "JustBeforeEach", "JustAfterEach", "ReportBeforeEach", "ReportAfterEach"}
		if ct.Ordered {
			ks = append(ks, "BeforeAll", "AfterAll")
		}
		for n := r.Intn(5); n > 0; n-- {
			k := ks[r.Intn(len(ks))]
			ct.Kids = append(ct.Kids, node(k, !strings.HasPrefix(k, "Report") && r.Intn(4) == 0))
		}
		for n := 1 + r.Intn(3); n > 0; n-- {
			if depth < 2 && !ct.Ordered && r.Intn(3) == 0 {
				ct.Kids = append(ct.Kids, cont(depth+1))
			} else {
				ct.Kids = append(ct.Kids, it())
			}
		}
		return ct
	}
	for n := 1 + r.Intn(3); n > 0; n-- {
		s.Top = append(s.Top, cont(0))
	}
	var bs *sdoc.Node
	if r.Intn(2) == 0 || disturb == "storm" || disturb == "bg" {
		bs = node([]string{"BeforeSuite", "SynchronizedBeforeSuite"}[r.Intn(2)], false)
		if disturb == "storm" {
			bs.Body = append(bs.Body, sdoc.Act{K: "usr1storm", N: 300 + r.Intn(2000)})
		}
		if disturb == "bg" {
			bs.Body = append(bs.Body, sdoc.Act{K: "bgentries", N: 1 + r.Intn(20)})
		}
		s.Top = append(s.Top, bs)
	}
	if r.Intn(2) == 0 {
		s.Top = append(s.Top, node([]string{"AfterSuite", "SynchronizedAfterSuite"}[r.Intn(2)], r.Intn(3) == 0))
	}
	if r.Intn(2) == 0 {
		n := node([]string{"ReportBeforeSuite", "ReportAfterSuite"}[r.Intn(2)], false)
		n.Text = "rep"
		s.Top = append(s.Top, n)
	}
	return s
}

func timelineRuns(c *Ctx) {
	n := N(600, 12000)
	parallelDo(n, workers(), func(i int) {
		if *flagOnly >= 1000000 {
			i -= 1000000
		}
		r := rng("C20r", i)
		disturb := []string{"", "sig", "storm", "poll", "bg"}[r.Intn(5)]
		s := tlSuite(r, disturb)
		o := RunOpts{}
		if r.Intn(3) == 0 {
			o.Procs = 2 + r.Intn(2)
		}
		if disturb == "poll" {
			o.Args = append(o.Args, "poll-progress-after=1ms", "poll-progress-interval=1ms")
		}
		o.Args = append(o.Args, []string{"v", "vv", "succinct", "show-node-events"}[r.Intn(4)])
		run := c.runSuite(s, o)
		defer run.Clean()
		if run.Res.TimedOut {
			c.Inconclusive("timed out")
			return
		}
		if d := timelineJudge(c, run); d != "" {
			c.Fail("", fmt.Sprintf("run %d (%s, %v): %s", i, disturb, o, d), run.Files())
		}
	})
}

// timelineJudge compares what a run reported with what its bodies logged.
func timelineJudge(c *Ctx, run *SuiteRun) string {
	b, err := os.ReadFile(filepath.Join(run.Dir, "report.json"))
	if err != nil {
		return "no report: " + err.Error() + "\n" + trunc(run.Res.Out, 3000)
	}
	var reps []types.Report
	if err := json.Unmarshal(b, &reps); err != nil || len(reps) != 1 {
		return fmt.Sprintf("bad report: %v", err)
	}
	type em struct{ kind, text string }
	logged := map[string][]em{}
	sig := ""
	for _, e := range run.Events {
		k := fmt.Sprintf("S%d", e.Spec)
		if e.Spec == 0 {
			k = fmt.Sprintf("N%d/%d", e.N, e.P)
		}
		if e.E == "tl" || e.E == "act" && (strings.HasPrefix(e.X, "fail:mk") || strings.HasPrefix(e.X, "panic:mk")) {
			kind, text, _ := strings.Cut(e.X, ":")
			logged[k] = append(logged[k], em{kind, text})
			sig += k + kind
		}
	}
	c.Eval(sigHash(sig))
	seen := map[string]bool{}
	for _, sp := range reps[0].SpecReports {
		key := fmt.Sprintf("N%d/%d", sp.LeafNodeLocation.LineNumber, sp.ParallelProcess)
		if sp.LeafNodeType == types.NodeTypeIt {
			key = sp.LeafNodeText
		}
		where := fmt.Sprintf("%s (%s)", key, sp.State)
		if seen[key] {
			return where + " is reported twice"
		}
		seen[key] = true
		log := logged[key]
		// bytes
		gw := ""
		var evs []em
		offs := []int{}
		var marks []string
		for _, e := range log {
			m := markRe.FindString(e.text)
			marks = append(marks, m)
			if e.kind == "gw" {
				gw += e.text
				continue
			}
			evs = append(evs, e)
			offs = append(offs, len(gw))
		}
		if sp.CapturedGinkgoWriterOutput != gw {
			return fmt.Sprintf("%s: captured output differs from what was written: %s", where, firstDiff(gw, sp.CapturedGinkgoWriterOutput))
		}
		// events in order
		tl := sp.Timeline()
		k, lastOff, lastOrder := 0, 0, -1
		var lastT time.Time
		depth := 0
		nproc := 0
		for _, x := range tl {
			l := x.GetTimelineLocation()
			if l.Order <= lastOrder {
				return fmt.Sprintf("%s: two events share the order %d", where, l.Order)
			}
			lastOrder = l.Order
			if l.Offset < lastOff {
				return fmt.Sprintf("%s: offset %d of a later event (%T) lies before offset %d of an earlier one", where, l.Offset, x, lastOff)
			}
			if l.Offset > len(gw) {
				return fmt.Sprintf("%s: a %T is located at offset %d of %d bytes of output", where, x, l.Offset, len(gw))
			}
			if l.Time.Before(lastT) && lastT.Sub(l.Time) > 0 && !l.Time.IsZero() {
				return fmt.Sprintf("%s: a later event (%T) has an earlier time", where, x)
			}
			lastOff, lastT = l.Offset, l.Time
			kind, text := "", ""
			switch e := x.(type) {
			case types.Failure:
				kind, text = "fail", e.Message
				if e.ForwardedPanic != "" {
					kind, text = "panic", e.ForwardedPanic
				}
			case types.AdditionalFailure:
				kind, text = "fail", e.Failure.Message
				if e.Failure.ForwardedPanic != "" {
					kind, text = "panic", e.Failure.ForwardedPanic
				}
			case types.ReportEntry:
				kind, text = "entry", e.Name
				if strings.HasPrefix(e.Name, "bg") {
					c.Count("background entries", 1)
					continue
				}
			case types.ProgressReport:
				nproc++
				continue
			case types.SpecEvent:
				switch e.SpecEventType {
				case types.SpecEventByStart:
					kind, text = "by", e.Message
				case types.SpecEventByEnd:
					kind, text = "byend", e.Message
				case types.SpecEventNodeStart:
					depth++
					if depth != 1 {
						return where + ": a node starts inside another"
					}
					continue
				case types.SpecEventNodeEnd:
					depth--
					if depth != 0 {
						return where + ": a node ends without having started"
					}
					continue
				default:
					continue
				}
				if depth != 1 {
					return fmt.Sprintf("%s: step %q lies outside any node", where, e.Message)
				}
			}
			if strings.HasPrefix(text, "Spec skipped because") {
				continue
			}
			m := markRe.FindString(text)
			if k >= len(evs) {
				return fmt.Sprintf("%s: %s %q is shown but was not emitted then", where, kind, text)
			}
			if evs[k].kind != kind || markRe.FindString(evs[k].text) != m {
				return fmt.Sprintf("%s: event %d is %s %q, emitted was %s %q", where, k, kind, text, evs[k].kind, evs[k].text)
			}
			if l.Offset != offs[k] {
				return fmt.Sprintf("%s: %s %q is located at offset %d, %d bytes had been written", where, kind, text, l.Offset, offs[k])
			}
			k++
		}
		if k != len(evs) {
			return fmt.Sprintf("%s: %s %q was emitted but is not on the timeline", where, evs[k].kind, evs[k].text)
		}
		if depth != 0 {
			return where + ": a node start has no end"
		}
		c.Count("events judged", len(evs))
		c.Count("progress reports", nproc)
		// rendering
		out := reporters.RenderTimeline(sp, true)
		var got []string
		for _, m := range markRe.FindAllString(out, -1) {
			if strings.HasPrefix(m, "mk") {
				got = append(got, m)
			}
		}
		// progress reports name the current step and node texts; take those out of the comparison
		if nproc == 0 && len(sp.Failure.ProgressReport.Goroutines) == 0 {
			if d := seqDiff(marks, got); d != "" {
				return fmt.Sprintf("%s: rendered timeline: %s", where, d)
			}
		} else if !subseq(marks, got) {
			return fmt.Sprintf("%s: rendered timeline with progress reports does not show what was emitted, in order: emitted %v, shown %v", where, clip(marks), clip(got))
		}
	}
	var keys []string
	for k := range logged {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if !seen[k] {
			return k + " emitted events but is not reported"
		}
	}
	return ""
}

func subseq(want, got []string) bool {
	i := 0
	for _, g := range got {
		if i < len(want) && want[i] == g {
			i++
		}
	}
	return i == len(want)
}

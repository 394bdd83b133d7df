package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/onsi/ginkgo/v2/internal"
	"github.com/onsi/ginkgo/v2/internal/zzverif/sdoc"
	"github.com/onsi/ginkgo/v2/reporters"
	"github.com/onsi/ginkgo/v2/types"
)

// C21: the console. Part 1 drives the default reporter call by call, the way a run does, over random reports; part 2 checks
// that the console of real runs says what their machine-readable report says.

func init() {
	checks["C21"] = Check{Level: "exploration", Isolate: true, Run: runC21,
		Rule:   "in-process: distinct by reporter configuration and the states and item kinds of the report; runs: by flags and outcome sequence",
		Assume: []string{"a serial run streams the timeline, a parallel run renders it when a spec completes; report entry names and values and attached progress reports may contain formatter markup"}}
}

var sgrRe = regexp.MustCompile(`\x1b\[[0-9;]*m`)

var tookRe = regexp.MustCompile(`(Specs in|SUCCESS!) [0-9.]+( seconds|[a-zµ]*s)`)

var conTailRe = regexp.MustCompile(`(?s)\s(PASS\n|Ginkgo ran |Test Suite |--- FAIL:|FAIL\n).*`)

type conRun struct {
	out    bytes.Buffer
	blocks [][2]int // per spec: start of its section, start of the completion block
	ends   []int
	begin  int
	final  int
	panicV any
}

// drive replays the calls a run makes.
func drive(g *gRep, conf types.ReporterConfig, parallel bool) (cr *conRun) {
	cr = &conRun{}
	defer func() { cr.panicV = recover() }()
	rep := reporters.NewDefaultReporter(conf, &cr.out)
	w := internal.NewWriter(&cr.out)
	if conf.Verbosity().LT(types.VerbosityLevelVerbose) || parallel {
		w.SetMode(internal.WriterModeBufferOnly)
	}
	begin := g.rep
	begin.SpecReports, begin.SuiteSucceeded, begin.SpecialSuiteFailureReasons = nil, false, nil
	rep.SuiteWillBegin(begin)
	cr.begin = cr.out.Len()
	for _, s := range g.specs {
		start := cr.out.Len()
		pre := s.rep
		if !pre.State.Is(types.SpecStatePending | types.SpecStateSkipped) {
			pre.State = types.SpecStateInvalid
		}
		pre.Failure, pre.AdditionalFailures, pre.SpecEvents, pre.ReportEntries, pre.ProgressReports = types.Failure{}, nil, nil, nil, nil
		pre.CapturedGinkgoWriterOutput, pre.CapturedStdOutErr = "", ""
		if !parallel {
			rep.WillRun(pre)
		}
		for _, it := range s.items {
			if it.chunk {
				w.Write([]byte(it.text))
				continue
			}
			switch x := it.ev.(type) {
			case types.ProgressReport:
				rep.EmitProgressReport(x) // in parallel the server forwards these right away
			case types.Failure:
				if !parallel {
					rep.EmitFailure(s.rep.State, x)
				}
			case types.AdditionalFailure:
				if !parallel {
					rep.EmitFailure(x.State, x.Failure)
				}
			case types.ReportEntry:
				if !parallel {
					rep.EmitReportEntry(x)
				}
			case types.SpecEvent:
				if !parallel {
					rep.EmitSpecEvent(x)
				}
			}
		}
		w.Truncate()
		mid := cr.out.Len()
		rep.DidRun(s.rep)
		cr.blocks = append(cr.blocks, [2]int{start, mid})
		cr.ends = append(cr.ends, cr.out.Len())
	}
	cr.final = cr.out.Len()
	rep.SuiteDidEnd(g.rep)
	return cr
}

func noBlank(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if l = strings.Trim(l, " "); l != "" {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

func runC21(c *Ctx) {
	n := N(2500, 60000)
	parallelDo(n, workers(), func(i int) {
		r := rng("C21", i)
		o := genOpts{utf8: r.Intn(2) == 0, braces: true, parallel: r.Intn(2) == 0, plain: true}
		g := genReport(r, o)
		fixProgress(g)
		conf := types.NewDefaultReporterConfig()
		level := []types.VerbosityLevel{types.VerbosityLevelSuccinct, types.VerbosityLevelNormal, types.VerbosityLevelVerbose, types.VerbosityLevelVeryVerbose}[r.Intn(4)]
		switch level {
		case types.VerbosityLevelSuccinct:
			conf.Succinct = true
		case types.VerbosityLevelVerbose:
			conf.Verbose = true
		case types.VerbosityLevelVeryVerbose:
			conf.VeryVerbose = true
		}
		conf.NoColor = true
		conf.GithubOutput, conf.SilenceSkips, conf.ForceNewlines, conf.ShowNodeEvents, conf.FullTrace = r.Intn(3) == 0, r.Intn(4) == 0, r.Intn(4) == 0, r.Intn(3) == 0, r.Intn(3) == 0
		theWatch.set(i, fmt.Sprintf("C21 case %d", i))
		defer theWatch.done(i)
		cr := drive(g, conf, o.parallel)
		conf.NoColor = false
		col := drive(g, conf, o.parallel)
		conf.NoColor = true
		c.Count("specs judged", len(g.specs))
		c.Count("bytes of console output", cr.out.Len())
		sig := fmt.Sprint(level, conf.GithubOutput, conf.SilenceSkips, conf.ForceNewlines, conf.ShowNodeEvents, o.parallel)
		for _, s := range g.specs {
			sig += fmt.Sprintf("|%d%d%s", s.rep.LeafNodeType, s.rep.State, itemSig(s))
		}
		c.Eval(sig)
		if d := judgeConsole(g, conf, level, o.parallel, cr, col); d != "" {
			in, _ := json.MarshalIndent(g.rep, "", " ")
			cf, _ := json.Marshal(conf)
			c.Fail("", fmt.Sprintf("case %d (level %d, parallel %v): %s", i, level, o.parallel, d), map[string][]byte{"report.json": in, "config.json": cf, "console.txt": cr.out.Bytes(), "colour.txt": col.out.Bytes()})
		}
	})
	if *flagOnly < 0 || *flagOnly >= 1000000 {
		consoleRuns(c)
	}
}

// fixProgress: a progress report's own captured output is what was written so far
func fixProgress(g *gRep) {
	for _, s := range g.specs {
		gw := s.rep.CapturedGinkgoWriterOutput
		for i := range s.items {
			if p, ok := s.items[i].ev.(types.ProgressReport); ok && p.TimelineLocation.Offset <= len(gw) {
				p.CapturedGinkgoWriterOutput = gw[:p.TimelineLocation.Offset]
				s.items[i].ev = p
			}
		}
	}
}

func judgeConsole(g *gRep, conf types.ReporterConfig, level types.VerbosityLevel, parallel bool, cr, col *conRun) string {
	if cr.panicV != nil || col.panicV != nil {
		return fmt.Sprintf("the reporter panicked: %v %v", cr.panicV, col.panicV)
	}
	out := cr.out.String()
	if k := strings.IndexByte(out, 0x1b); k >= 0 {
		return fmt.Sprintf("escape sequence in no-color output at %d: %q", k, trunc(out[k:], 60))
	}
	if st, pl := noBlank(sgrRe.ReplaceAllString(col.out.String(), "")), noBlank(out); st != pl { // blank lines and the indentation of empty texts differ
		return "colored output is not the plain output plus colors: " + firstDiff(pl, st)
	}
	verbose := level.GTE(types.VerbosityLevelVerbose)
	vv := level.Is(types.VerbosityLevelVeryVerbose)
	streaming := verbose && !parallel
	for k, s := range g.specs {
		rp := s.rep
		sec, blk := out[cr.blocks[k][0]:cr.ends[k]], out[cr.blocks[k][1]:cr.ends[k]]
		where := fmt.Sprintf("spec %d (%s, %s)", k, rp.LeafNodeType, rp.State)
		if rp.State == types.SpecStateSkipped && conf.SilenceSkips {
			if blk != "" {
				return fmt.Sprintf("%s: silenced skip shows %q", where, trunc(blk, 100))
			}
			continue
		}
		failed := rp.State.Is(types.SpecStateFailureStates)
		suiteLevel := rp.LeafNodeType != types.NodeTypeIt
		// 1. the completion indicator
		head := strings.TrimLeft(blk, "\n")
		dashes := strings.Repeat("-", 30) + "\n"
		for strings.HasPrefix(head, dashes) {
			head = head[len(dashes):]
		}
		line, _, _ := strings.Cut(head, "\n")
		dot := "•"
		if suiteLevel {
			dot = "[" + rp.LeafNodeType.String() + "]"
		}
		var want []string
		switch rp.State {
		case types.SpecStatePassed:
			want = []string{dot}
			if suiteLevel {
				want = []string{"", dot + " PASSED"}
			} else if rp.NumAttempts > 1 && rp.MaxFlakeAttempts > 1 {
				want = []string{fmt.Sprintf("↺ [FLAKEY TEST - TOOK %d ATTEMPTS TO PASS]", rp.NumAttempts)}
			}
		case types.SpecStatePending:
			want = []string{"P [PENDING]"}
			if level == types.VerbosityLevelSuccinct {
				want = []string{"P"}
			}
		case types.SpecStateSkipped:
			want = []string{"S", "S [SKIPPED]"}
		default:
			want = []string{fmt.Sprintf("%s [%s]", dot, map[types.SpecState]string{types.SpecStateFailed: "FAILED", types.SpecStatePanicked: "PANICKED", types.SpecStateTimedout: "TIMEDOUT", types.SpecStateInterrupted: "INTERRUPTED", types.SpecStateAborted: "ABORTED"}[rp.State])}
			if rp.MaxMustPassRepeatedly > 1 {
				want[0] += fmt.Sprintf(" DURING REPETITION #%d", rp.NumAttempts)
			}
		}
		rt := fmt.Sprintf(" [%.3f seconds]", rp.RunTime.Seconds())
		ok := false
		for _, w := range want {
			ok = ok || line == w || w != "" && line == w+rt
		}
		if !ok {
			return fmt.Sprintf("%s: completion shown as %q, expected one of %q", where, trunc(line, 200), want)
		}
		if failed && line != want[0]+rt {
			return fmt.Sprintf("%s: completion line %q lacks the run time%s", where, line, rt)
		}
		if level.LT(types.VerbosityLevelVerbose) && rp.State == types.SpecStatePassed && !suiteLevel && strings.Count(blk, "•")+strings.Count(blk, "↺") < 1 {
			return where + ": no completion indicator"
		}
		bare := strings.TrimRight(blk, "\n") == line
		if conf.ForceNewlines && bare && blk != "" && !strings.HasSuffix(blk, "\n") {
			return fmt.Sprintf("%s: newline not forced after %q", where, trunc(blk, 80))
		}
		nsec, nblk := normLines(sec), normLines(blk)
		shows := func(hay, what, s string) string {
			if !strings.Contains(hay, strings.TrimLeft(normLines(s), " ")) {
				return fmt.Sprintf("%s: %s %q is not shown", where, what, trunc(s, 200))
			}
			return ""
		}
		// 2. where the spec is
		if failed || streaming && !rp.State.Is(types.SpecStateSkipped|types.SpecStatePending) && !parallel {
			hay := nblk
			if !failed {
				hay = nsec
			}
			pos := 0
			for _, t := range s.texts {
				j := strings.Index(hay[pos:], strings.TrimLeft(normLines(t), " "))
				if j < 0 {
					return fmt.Sprintf("%s: text %q is not shown (in order)", where, t)
				}
				pos += j + len(strings.TrimLeft(normLines(t), " "))
			}
			if d := shows(hay, "location", rp.LeafNodeLocation.String()); d != "" && (vv || rp.Failure.FailureNodeLocation == rp.LeafNodeLocation || !failed) {
				return d
			}
			var labels []string
			for _, ls := range rp.ContainerHierarchyLabels {
				labels = append(labels, ls...)
			}
			for _, l := range append(labels, rp.LeafNodeLabels...) {
				if d := shows(hay, "label", l); d != "" {
					return d
				}
			}
		}
		// 3. why it failed
		if failed {
			f := rp.Failure
			for _, x := range []struct{ what, s string }{{"failure message", f.Message}, {"panic value", f.ForwardedPanic}, {"failure location", fmt.Sprintf("%s:%d", f.Location.FileName, f.Location.LineNumber)}} {
				if conf.GithubOutput && x.what == "failure location" {
					x.s = fmt.Sprintf("file=%s,line=%d", f.Location.FileName, f.Location.LineNumber)
				}
				if d := shows(nsec, x.what, x.s); d != "" {
					return d
				}
				if !vv {
					if d := shows(nblk, x.what, x.s); d != "" {
						return "in the completion block: " + d
					}
				}
			}
			if (conf.FullTrace || f.ForwardedPanic != "") && f.Location.FullStackTrace != "" {
				if d := shows(nsec, "stack trace", f.Location.FullStackTrace); d != "" {
					return d
				}
			}
			if f.AdditionalFailure != nil {
				if d := shows(nsec, "follow-up failure", f.AdditionalFailure.Failure.Message); d != "" {
					return d
				}
			}
			for _, af := range rp.AdditionalFailures {
				if vv {
					if d := shows(nsec, "additional failure", af.Failure.Message); d != "" {
						return d
					}
				} else if !strings.Contains(nblk, "There were additional failures detected") {
					return where + ": additional failures are not mentioned"
				}
			}
		}
		// 4. what it printed
		if parallel && rp.CapturedStdOutErr != "" {
			if d := shows(nblk, "captured output", rp.CapturedStdOutErr); d != "" {
				return d
			}
		}
		if failed || verbose && rp.State != types.SpecStateSkipped {
			hay, pos := nblk, 0
			if streaming {
				hay = nsec
			}
			for _, sg := range s.segments() {
				sg = strings.TrimLeft(normLines(sg), " ")
				j := strings.Index(hay[pos:], sg)
				if j < 0 {
					return fmt.Sprintf("%s: GinkgoWriter output %q is not shown verbatim (in order)", where, trunc(sg, 200))
				}
				pos += j + len(sg)
			}
		}
		// 5. order
		hay := ""
		var marks []string
		if streaming {
			hay = out[cr.blocks[k][0]:cr.blocks[k][1]]
			for _, it := range s.items {
				if it.hidden || it.vv && !vv && !conf.ShowNodeEvents || it.mark == "" {
					continue
				}
				switch it.ev.(type) {
				case types.Failure, types.AdditionalFailure:
					if !vv {
						continue
					}
				}
				marks = append(marks, it.mark)
			}
		} else if failed || verbose && parallel && rp.State != types.SpecStateSkipped {
			if _, rest, ok := strings.Cut(blk, timelineHead(conf)); ok {
				hay, _, ok = strings.Cut(rest, timelineTail(conf))
				if !ok && !conf.GithubOutput {
					return where + ": the timeline section does not end"
				}
				if conf.GithubOutput {
					if j := strings.LastIndex(rest, "::endgroup::"); j >= 0 {
						hay = rest[:j]
					} else {
						return where + ": the timeline section does not end"
					}
				}
				for _, it := range s.items {
					if it.hidden || it.vv && !vv && !conf.ShowNodeEvents || it.mark == "" {
						continue
					}
					switch it.ev.(type) {
					case types.Failure, types.AdditionalFailure:
						if !vv {
							continue
						}
					}
					marks = append(marks, it.mark)
				}
			} else if rp.CapturedGinkgoWriterOutput != "" {
				return where + ": there is no timeline"
			}
		}
		if hay != "" || len(marks) > 0 {
			// the further marks of failures and entries follow the item they belong to and are shown or hidden with it
			owned := map[string]bool{}
			for j, it := range s.items {
				if it.ev == nil && !it.chunk && j > 0 {
					owned[it.mark] = true
				}
			}
			var w, h []string
			for _, m := range marks {
				if !owned[m] {
					w = append(w, m)
				}
			}
			for _, m := range markRe.FindAllString(hay, -1) {
				if !owned[m] && (len(h) == 0 || h[len(h)-1] != m) {
					h = append(h, m)
				}
			}
			if !vv || streaming { // a progress report repeats the output so far only where it is not streamed
				if d := seqDiff(w, dedupFailure(h, w)); d != "" {
					return fmt.Sprintf("%s: timeline: %s", where, d)
				}
			} else if !subseq(w, h) {
				return fmt.Sprintf("%s: timeline: expected %v in order, shown %v", where, clip(w), clip(h))
			}
		}
	}
	return judgeSummary(g, conf, level, out[:cr.begin], out[cr.final:])
}

// dedupFailure drops repeats of marks already shown (a failure with its follow-up shows the follow-up twice: nested and on its own).
func dedupFailure(h, w []string) []string {
	seen := map[string]bool{}
	last := map[string]int{}
	for i, m := range h {
		last[m] = i
	}
	var out []string
	for i, m := range h {
		if last[m] != i && strings.HasPrefix(m, "mk") {
			continue
		}
		if !seen[m] || !strings.HasPrefix(m, "mk") {
			out = append(out, m)
		}
		seen[m] = true
	}
	return out
}

func timelineHead(conf types.ReporterConfig) string {
	if conf.GithubOutput {
		return "::group::Timeline\n"
	}
	return "Timeline >>\n"
}
func timelineTail(conf types.ReporterConfig) string {
	return "<< Timeline\n"
}

func judgeSummary(g *gRep, conf types.ReporterConfig, level types.VerbosityLevel, begin, end string) string {
	rp := g.rep
	for _, x := range []string{rp.SuiteDescription, fmt.Sprint(rp.SuiteConfig.RandomSeed)} {
		if !strings.Contains(begin, x) {
			return fmt.Sprintf("%q is not shown at the start of the suite", x)
		}
	}
	if len(rp.SuiteLabels) > 0 && !strings.Contains(begin, "["+strings.Join(rp.SuiteLabels, ", ")+"]") {
		return fmt.Sprintf("suite labels %q are not shown", rp.SuiteLabels)
	}
	n := map[string]int{}
	var failures []*gSpec
	for _, s := range g.specs {
		f := s.rep.State.Is(types.SpecStateFailureStates)
		if f {
			failures = append(failures, s)
		}
		if s.rep.LeafNodeType != types.NodeTypeIt {
			continue
		}
		switch {
		case f:
			n["Failed"]++
		case s.rep.State == types.SpecStatePassed:
			n["Passed"]++
			if s.rep.MaxFlakeAttempts > 1 && s.rep.NumAttempts > 1 {
				n["Flaked"]++
			}
		case s.rep.State == types.SpecStatePending:
			n["Pending"]++
		case s.rep.State == types.SpecStateSkipped:
			n["Skipped"]++
		}
		if f && s.rep.MaxMustPassRepeatedly > 1 && s.rep.NumAttempts > 1 {
			n["Repeated"]++
		}
	}
	nend := normLines(end)
	pos := 0
	if len(failures) > 0 {
		h := fmt.Sprintf("Summarizing %d Failures:", len(failures))
		if len(failures) == 1 {
			h = "Summarizing 1 Failure:"
		}
		pos = strings.Index(nend, h)
		if pos < 0 {
			return fmt.Sprintf("%q is not shown", h)
		}
		for k, s := range failures {
			tag := map[types.SpecState]string{types.SpecStateFailed: "[FAIL] ", types.SpecStatePanicked: "[PANICKED!] ", types.SpecStateTimedout: "[TIMEDOUT] ", types.SpecStateInterrupted: "[INTERRUPTED] ", types.SpecStateAborted: "[ABORTED] "}[s.rep.State]
			for _, x := range append(append([]string{"\n" + tag}, s.texts...), fmt.Sprintf("%s:%d\n", s.rep.Failure.Location.FileName, s.rep.Failure.Location.LineNumber)) {
				x = strings.TrimLeft(normLines(x), " ")
				j := strings.Index(nend[pos:], x)
				if j < 0 {
					return fmt.Sprintf("summary: failure %d of %d: %q is missing", k+1, len(failures), x)
				}
				pos += j + len(x)
				if strings.HasSuffix(x, "\n") {
					pos--
				}
			}
		}
	} else if strings.Contains(end, "Summarizing") {
		return "the summary lists failures, there are none"
	}
	if level == types.VerbosityLevelSuccinct && rp.SuiteSucceeded {
		if !strings.Contains(end, "SUCCESS!") || strings.Contains(end, "FAIL!") {
			return fmt.Sprintf("succinct end of a successful suite: %q", end)
		}
		return ""
	}
	tail := nend[pos:]
	word, other := "SUCCESS!", "FAIL!"
	if !rp.SuiteSucceeded {
		word, other = "FAIL!", "SUCCESS!"
	}
	want := fmt.Sprintf("Ran %d of %d Specs in %.3f seconds\n%s", n["Passed"]+n["Failed"], rp.PreRunStats.TotalSpecs, rp.RunTime.Seconds(), word)
	j := strings.Index(tail, want)
	if j < 0 || strings.Contains(tail, other) {
		return fmt.Sprintf("the suite's result %q is not shown; shown is %q", want, trunc(tail, 300))
	}
	if len(rp.SpecialSuiteFailureReasons) > 0 {
		if x := word + " - " + strings.Join(rp.SpecialSuiteFailureReasons, ", "); !strings.Contains(tail, normLines(x)) {
			return fmt.Sprintf("the failure reasons %q are not shown", rp.SpecialSuiteFailureReasons)
		}
	}
	its := 0
	bsFailed := false
	for _, s := range g.specs {
		if s.rep.LeafNodeType == types.NodeTypeIt {
			its++
		}
		if s.rep.LeafNodeType.Is(types.NodeTypeBeforeSuite|types.NodeTypeSynchronizedBeforeSuite) && s.rep.State.Is(types.SpecStateFailureStates) {
			bsFailed = true
		}
	}
	if its == 0 && bsFailed {
		if !strings.Contains(tail, "A BeforeSuite node failed so all tests were skipped.") {
			return "a failed BeforeSuite is not explained"
		}
		return ""
	}
	cnt := fmt.Sprintf("%d Passed | %d Failed | ", n["Passed"], n["Failed"])
	if n["Flaked"] > 0 {
		cnt += fmt.Sprintf("%d Flaked | ", n["Flaked"])
	}
	if n["Repeated"] > 0 {
		cnt += fmt.Sprintf("%d Repeated | ", n["Repeated"])
	}
	cnt += fmt.Sprintf("%d Pending | %d Skipped\n", n["Pending"], n["Skipped"])
	if !strings.HasSuffix(tail, cnt) {
		return fmt.Sprintf("the counts are not %q: %q", cnt, trunc(tail, 300))
	}
	return ""
}

func consoleRuns(c *Ctx) {
	n := N(400, 8000)
	parallelDo(n, workers(), func(i int) {
		if *flagOnly >= 1000000 {
			i -= 1000000
		}
		r := rng("C21r", i)
		s := tlSuite(r, "")
		consoleNoise(r, s)
		o := RunOpts{}
		if r.Intn(2) == 0 {
			o.Procs = 2 + r.Intn(2)
		}
		conf := types.NewDefaultReporterConfig()
		conf.NoColor = true
		lv := []string{"", "succinct", "v", "vv"}[r.Intn(4)]
		if o.Procs == 0 {
			lv = []string{"", "succinct"}[r.Intn(2)]
		}
		switch lv {
		case "succinct":
			conf.Succinct = true
		case "v":
			conf.Verbose = true
		case "vv":
			conf.VeryVerbose = true
		}
		if lv != "" {
			o.Args = append(o.Args, lv)
		}
		for _, f := range []struct {
			n string
			p *bool
		}{{"show-node-events", &conf.ShowNodeEvents}, {"silence-skips", &conf.SilenceSkips}, {"trace", &conf.FullTrace}, {"github-output", &conf.GithubOutput}, {"force-newlines", &conf.ForceNewlines}} {
			if r.Intn(4) == 0 {
				*f.p = true
				o.Args = append(o.Args, f.n)
			}
		}
		run := c.runSuite(s, o)
		defer run.Clean()
		if run.Res.TimedOut {
			c.Inconclusive("timed out")
			return
		}
		if d := consoleRunJudge(c, run, conf, o); d != "" {
			c.Fail("", fmt.Sprintf("run %d (%q, %v): %s", i, lv, o, d), run.Files())
		}
	})
}

// consoleNoise marks some specs pending or skipped so that every completion indicator occurs.
func consoleNoise(r *rand.Rand, s *sdoc.Suite) {
	var walk func(ns []*sdoc.Node)
	walk = func(ns []*sdoc.Node) {
		for _, n := range ns {
			if n.K == "it" {
				switch r.Intn(8) {
				case 0:
					n.Pending = true
				case 1:
					n.Body = append(n.Body, sdoc.Act{K: "skip", S: "skip it"})
				}
			}
			walk(n.Kids)
		}
	}
	walk(s.Top)
}

func consoleRunJudge(c *Ctx, run *SuiteRun, conf types.ReporterConfig, o RunOpts) string {
	b, err := os.ReadFile(filepath.Join(run.Dir, "report.json"))
	if err != nil {
		return "no report: " + err.Error() + "\n" + trunc(run.Res.Out, 3000)
	}
	var reps []types.Report
	if err := json.Unmarshal(b, &reps); err != nil || len(reps) != 1 {
		return fmt.Sprintf("bad report: %v", err)
	}
	rep := reps[0]
	out := run.Res.Out
	if strings.Contains(out, "\x1b") {
		return "escape sequence in the console output of a run without colors"
	}
	// the begin and the end
	var bb, eb bytes.Buffer
	reporters.NewDefaultReporter(conf, &bb).SuiteWillBegin(rep)
	reporters.NewDefaultReporter(conf, &eb).SuiteDidEnd(rep)
	_, rest, ok := strings.Cut(out, strings.TrimSpace(bb.String()))
	if !ok {
		return fmt.Sprintf("the console does not announce the suite as reported: %q vs %q", trunc(out, 500), bb.String())
	}
	// the report is written before the suite is over, so only the duration differs; processes finish in any order
	mask := func(s string) string {
		s = tookRe.ReplaceAllString(strings.TrimSpace(s), "$1 T")
		sum, tail, _ := strings.Cut(s, "\nRan ")
		ls := strings.Split(strings.TrimSpace(sum), "\n")
		var es []string
		for k := 1; k < len(ls); k += 2 {
			es = append(es, strings.Join(ls[k:min(len(ls), k+2)], "\n"))
		}
		sort.Strings(es)
		return ls[0] + "\n" + strings.Join(es, "\n") + "\nRan " + tail
	}
	fin := eb.String()
	at := func(s string) int {
		for _, m := range []string{"Summarizing ", "\nRan ", " SUCCESS! "} {
			if k := strings.LastIndex(s, m); k >= 0 {
				return k
			}
		}
		return len(s)
	}
	end := conTailRe.ReplaceAllString(rest, "")
	if at(fin) == len(fin) || mask(fin[at(fin):]) != mask(end[at(end):]) {
		return fmt.Sprintf("the console does not sum up the suite as reported: expected\n%s\nshown\n%s", mask(fin[at(fin):]), mask(end[at(end):]))
	}
	rest = end[:at(end)]
	if k := strings.LastIndex(rest, "[ReportAfterSuite] PASSED"); k >= 0 && strings.Contains(rest[k:], "Autogenerated ReportAfterSuite") {
		rest = rest[:k] // the node that writes the report
	}
	want := map[string]int{}
	sig := fmt.Sprint(conf)
	for _, sp := range rep.SpecReports {
		sig += fmt.Sprint(sp.State)
		var db bytes.Buffer
		reporters.NewDefaultReporter(conf, &db).DidRun(sp)
		blk := strings.Trim(db.String(), "\n")
		blk = strings.TrimPrefix(blk, strings.Repeat("-", 30)+"\n")
		blk = strings.TrimSuffix(blk, "\n"+strings.Repeat("-", 30))
		if blk == "" {
			continue
		}
		c.Count("completions compared with the report", 1)
		if !strings.Contains(blk, "\n") && len(blk) < 8 {
			want[blk]++
			continue
		}
		k := strings.Index(rest, blk+"\n")
		if k < 0 {
			return fmt.Sprintf("%q (%s): the console does not show it as reported: expected\n%s\n", sp.LeafNodeText, sp.State, blk)
		}
		rest = rest[:k] + "\n" + rest[k+len(blk):]
	}
	c.Eval(sigHash(sig))
	got := map[string]int{}
	for _, l := range strings.Split(rest, "\n") {
		if strings.Trim(l, "-") == "" {
			continue
		}
		for _, ch := range strings.TrimSpace(l) {
			if strings.ContainsRune("•PS", ch) {
				got[string(ch)]++
			} else {
				return fmt.Sprintf("the console shows %q, which the report does not account for", l)
			}
		}
	}
	for _, k := range []string{"•", "P", "S"} {
		if got[k] != want[k] {
			return fmt.Sprintf("the console shows %d × %q, the report has %d", got[k], k, want[k])
		}
	}
	return ""
}

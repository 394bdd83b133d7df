package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"strings"
	"time"

	"github.com/onsi/ginkgo/v2/types"
)

// Random but consistent reports (as real runs produce them) with hostile content; shared by C19, C20 and C21.

type genOpts struct {
	utf8     bool // only valid UTF-8
	esc      bool // allow ESC in texts
	braces   bool // allow {{style}} look-alikes in texts
	parallel bool
	plain    bool // no control characters (the console oracle works line by line)
}

type gItem struct {
	chunk  bool
	text   string // chunk text
	mark   string // marker identifying the item in rendered output
	hidden bool   // report entry with visibility never
	vv     bool   // spec event shown only at -vv
	ev     types.TimelineEvent
}

type gSpec struct {
	rep   types.SpecReport
	items []gItem
	texts []string // container texts and leaf text
}

type gRep struct {
	rep   types.Report
	specs []*gSpec
	marks int
}

var hostile = []string{"<", ">", "&", "]]>", "\"", "'", "<![CDATA[", "</testcase>", "&amp;", "|", "||", "|n", "[", "]", "##teamcity[testFailed name='x']", "\n", "\n\n", "\t", "%s", "%!d(", "%",
	"é", "日本語", "\U0001F600", "\\", "\\n", "::error file=x::boom", "::group::x", "  ", "---", "null", "{}", "=", ",", ";", "#", "//", "$HOME", "`", "•x"[3:], "\u00a0", "\u200b", "\ufeff", "e\u0301"}
var hostileCtl = []string{"\x00", "\x01", "\x07", "\b", "\r\n", "\r", "\x7f", "\u0085", "\u2028", "\u2029", "\ufffe", "\v", "\f"}
var hostileBad = []string{"\xff", "\xc3", "\xe2\x82", "\xed\xa0\x80", "\x80"}

func hText(r *rand.Rand, o genOpts, max int) string {
	var b strings.Builder
	n := r.Intn(max + 1)
	if !o.plain && r.Intn(120) == 0 {
		n = 4000
	}
	for i := 0; i < n; i++ {
		switch k := r.Intn(12); {
		case k < 3:
			b.WriteString(hostile[r.Intn(len(hostile))])
		case k == 3 && !o.plain:
			b.WriteString(hostileCtl[r.Intn(len(hostileCtl))])
		case k == 4 && !o.utf8:
			b.WriteString(hostileBad[r.Intn(len(hostileBad))])
		case k == 5 && o.esc:
			b.WriteString([]string{"\x1b[31m", "\x1b[0m", "\x1b", "\x1b[2J"}[r.Intn(4)])
		case k == 6 && o.braces:
			b.WriteString([]string{"{{red}}", "{{/}}", "{{bold}}", "{{", "}}", "{{nope}}"}[r.Intn(6)])
		default:
			w := []byte{}
			for j := 1 + r.Intn(5); j > 0; j-- {
				w = append(w, byte('a'+r.Intn(26)))
			}
			b.Write(w)
			if r.Intn(2) == 0 {
				b.WriteByte(' ')
			}
		}
	}
	return b.String()
}

var markRe = regexp.MustCompile(`mk\d+z|Attempt #\d+`)

func (g *gRep) mark() string { g.marks++; return fmt.Sprintf("mk%dz", g.marks) }

func gLoc(r *rand.Rand) types.CodeLocation {
	f := []string{"/a/b/foo_test.go", "/with space/bar_test.go", "C:\\win\\x_test.go", "/uni/é_test.go", "rel_test.go"}[r.Intn(5)]
	return types.CodeLocation{FileName: f, LineNumber: 1 + r.Intn(5000)}
}

func gStack(r *rand.Rand) string {
	s := "main.f()\n\t/a/b.go:12 +0x1\n"
	return strings.Repeat(s, r.Intn(3))
}

var failStates = []types.SpecState{types.SpecStateFailed, types.SpecStatePanicked, types.SpecStateTimedout, types.SpecStateInterrupted, types.SpecStateAborted}

func genSpec(g *gRep, r *rand.Rand, o genOpts, nodeType types.NodeType, state types.SpecState, t0 time.Time) *gSpec {
	s := &gSpec{}
	rp := &s.rep
	rp.LeafNodeType, rp.State = nodeType, state
	rp.ParallelProcess = 1
	if o.parallel {
		rp.ParallelProcess = 1 + r.Intn(g.rep.SuiteConfig.ParallelTotal)
		rp.RunningInParallel = true
	}
	if nodeType == types.NodeTypeIt {
		for n := r.Intn(4); n > 0; n-- {
			rp.ContainerHierarchyTexts = append(rp.ContainerHierarchyTexts, hText(r, o, 4))
			rp.ContainerHierarchyLocations = append(rp.ContainerHierarchyLocations, gLoc(r))
			var ls []string
			for k := r.Intn(3); k > 0; k-- {
				ls = append(ls, gLabel(r))
			}
			rp.ContainerHierarchyLabels = append(rp.ContainerHierarchyLabels, ls)
		}
		for k := r.Intn(3); k > 0; k-- {
			rp.LeafNodeLabels = append(rp.LeafNodeLabels, gLabel(r))
		}
		rp.LeafNodeText = hText(r, o, 5)
		rp.IsSerial, rp.IsInOrderedContainer = r.Intn(4) == 0, r.Intn(4) == 0
	} else if nodeType == types.NodeTypeReportAfterSuite {
		rp.LeafNodeText = hText(r, o, 3)
	}
	s.texts = append(append([]string{}, rp.ContainerHierarchyTexts...), rp.LeafNodeText)
	rp.LeafNodeLocation = gLoc(r)
	if state == types.SpecStatePending {
		return s
	}
	rp.StartTime = t0.Add(time.Duration(r.Int63n(1e12)))
	rp.RunTime = time.Duration(r.Int63n(5e9))
	if r.Intn(10) == 0 {
		rp.RunTime = 0
	}
	rp.EndTime = rp.StartTime.Add(rp.RunTime)
	if state == types.SpecStateSkipped && r.Intn(2) == 0 {
		rp.StartTime, rp.EndTime, rp.RunTime = time.Time{}, time.Time{}, 0
		return s // filtered out
	}
	rp.NumAttempts = 1
	if r.Intn(3) == 0 && nodeType == types.NodeTypeIt {
		if r.Intn(2) == 0 {
			rp.MaxFlakeAttempts = 2 + r.Intn(3)
			rp.NumAttempts = 1 + r.Intn(rp.MaxFlakeAttempts)
		} else {
			rp.MaxMustPassRepeatedly = 2 + r.Intn(3)
			rp.NumAttempts = 1 + r.Intn(rp.MaxMustPassRepeatedly)
		}
	}
	if o.parallel && r.Intn(2) == 0 {
		rp.CapturedStdOutErr = hText(r, o, 12)
	}

	// the timeline
	order := r.Intn(1000)
	loc := func() types.TimelineLocation {
		order += 1 + r.Intn(3)
		return types.TimelineLocation{Offset: len(rp.CapturedGinkgoWriterOutput), Order: order, Time: rp.StartTime.Add(time.Duration(order) * time.Millisecond)}
	}
	fl := func(st types.SpecState, m string) types.Failure {
		f := types.Failure{Message: m + hText(r, o, 6), Location: gLoc(r), TimelineLocation: loc()}
		if r.Intn(2) == 0 {
			f.Location.FullStackTrace = gStack(r)
		}
		f.FailureNodeContext, f.FailureNodeType, f.FailureNodeLocation = types.FailureNodeIsLeafNode, nodeType, rp.LeafNodeLocation
		if nodeType == types.NodeTypeIt {
			nt := []types.NodeType{types.NodeTypeBeforeEach, types.NodeTypeAfterEach, types.NodeTypeJustBeforeEach, types.NodeTypeCleanupAfterEach, types.NodeTypeBeforeAll, types.NodeTypeReportAfterEach}[r.Intn(6)]
			switch k := r.Intn(3); {
			case k == 0:
				f.FailureNodeContext, f.FailureNodeType, f.FailureNodeLocation = types.FailureNodeAtTopLevel, nt, gLoc(r)
			case k == 1 && len(rp.ContainerHierarchyTexts) > 0:
				f.FailureNodeContext, f.FailureNodeType, f.FailureNodeLocation = types.FailureNodeInContainer, nt, gLoc(r)
				f.FailureNodeContainerIndex = r.Intn(len(rp.ContainerHierarchyTexts))
			}
		}
		return f
	}
	add := func(ev types.TimelineEvent, marks ...gItem) {
		for i := range marks {
			if i == 0 {
				marks[i].ev = ev
			}
			s.items = append(s.items, marks[i])
		}
	}
	chunk := func() {
		if r.Intn(6) == 0 { // a byte or two, without a marker
			t := []string{"x", "\n", "%", "ab"}[r.Intn(4)]
			rp.CapturedGinkgoWriterOutput += t
			s.items = append(s.items, gItem{chunk: true, text: t})
			return
		}
		m := g.mark()
		t := m + hText(r, o, 6)
		if r.Intn(2) == 0 {
			t += "\n"
		}
		rp.CapturedGinkgoWriterOutput += t
		s.items = append(s.items, gItem{chunk: true, text: t, mark: m})
	}
	failedYet := false
	primary := func() {
		m := g.mark()
		f := fl(state, m)
		marks := []gItem{{mark: m}}
		if state == types.SpecStatePanicked {
			pm := g.mark()
			f.Message = "Test Panicked" // what the framework says
			f.ForwardedPanic = pm + hText(r, o, 5)
			marks = []gItem{{mark: pm}}
		}
		if state.Is(types.SpecStateTimedout | types.SpecStateInterrupted) {
			pm := g.mark()
			f.ProgressReport = genProgress(r, o, rp, pm, f.TimelineLocation)
			marks = append(marks, gItem{mark: pm})
		}
		add(f, marks...)
		if state.Is(types.SpecStateTimedout|types.SpecStateInterrupted) && r.Intn(2) == 0 {
			for n := r.Intn(2); n > 0; n-- {
				chunk()
			}
			m2 := g.mark()
			st2 := failStates[r.Intn(len(failStates))]
			f2 := fl(st2, m2)
			f2.FailureNodeContext, f2.FailureNodeType, f2.FailureNodeLocation, f2.FailureNodeContainerIndex = f.FailureNodeContext, f.FailureNodeType, f.FailureNodeLocation, f.FailureNodeContainerIndex
			f.AdditionalFailure = &types.AdditionalFailure{State: st2, Failure: f2}
			add(*f.AdditionalFailure, gItem{mark: m2})
			// the primary failure was recorded before its follow-up existed
			for i := range s.items {
				if x, ok := s.items[i].ev.(types.Failure); ok && x.TimelineLocation.Order == f.TimelineLocation.Order {
					s.items[i].ev = f
				}
			}
		}
		rp.Failure = f
		failedYet = true
	}
	n := r.Intn(10)
	if r.Intn(20) == 0 {
		n = 60
	}
	failAt := -1
	needsFailure := state.Is(types.SpecStateFailureStates) || state == types.SpecStateSkipped
	if needsFailure {
		failAt = r.Intn(n + 1)
	}
	attempt := 0
	for i := 0; i <= n; i++ {
		if i == failAt {
			primary()
			continue
		}
		if i == n {
			break
		}
		switch r.Intn(8) {
		case 0, 1, 2:
			chunk()
		case 3:
			m := g.mark()
			e := types.ReportEntry{Name: m + hText(r, genOpts{utf8: o.utf8, plain: o.plain}, 3), Location: gLoc(r), TimelineLocation: loc(),
				Visibility: []types.ReportEntryVisibility{types.ReportEntryVisibilityAlways, types.ReportEntryVisibilityFailureOrVerbose, types.ReportEntryVisibilityNever}[r.Intn(3)]}
			e.Time = e.TimelineLocation.Time
			hid := e.Visibility == types.ReportEntryVisibilityNever
			marks := []gItem{{mark: m, hidden: hid}}
			if r.Intn(2) == 0 {
				vm := g.mark()
				e.Value = types.WrapEntryValue(vm + hText(r, genOpts{utf8: true, plain: o.plain}, 4))
				marks = append(marks, gItem{mark: vm, hidden: hid})
			}
			rp.ReportEntries = append(rp.ReportEntries, e)
			add(e, marks...)
		case 4:
			m := g.mark()
			pr := genProgress(r, o, rp, m, loc())
			rp.ProgressReports = append(rp.ProgressReports, pr)
			add(pr, gItem{mark: m})
		case 5, 6:
			m := g.mark()
			ev := types.SpecEvent{SpecEventType: []types.SpecEventType{types.SpecEventByStart, types.SpecEventByEnd, types.SpecEventNodeStart, types.SpecEventNodeEnd}[r.Intn(4)],
				CodeLocation: gLoc(r), TimelineLocation: loc(), Message: m + hText(r, o, 4), Duration: time.Duration(r.Int63n(1e9)), NodeType: nodeTypes[r.Intn(len(nodeTypes))]}
			rp.SpecEvents = append(rp.SpecEvents, ev)
			add(ev, gItem{mark: m, vv: ev.SpecEventType != types.SpecEventByStart})
		case 7:
			if (failedYet || state == types.SpecStatePassed && rp.MaxFlakeAttempts > 0 && rp.NumAttempts > 1) && r.Intn(2) == 0 { // (earlier attempts' failures stay with a spec that passed in the end)
				m := g.mark()
				st := failStates[r.Intn(len(failStates))]
				f := fl(st, m)
				if st == types.SpecStatePanicked {
					f.ForwardedPanic = "panicked"
				}
				af := types.AdditionalFailure{State: st, Failure: f}
				rp.AdditionalFailures = append(rp.AdditionalFailures, af)
				add(af, gItem{mark: m})
			} else if rp.NumAttempts > 1 && attempt < rp.NumAttempts-1 {
				attempt++
				ty := types.SpecEventSpecRepeat
				if rp.MaxFlakeAttempts > 0 {
					ty = types.SpecEventSpecRetry
				}
				ev := types.SpecEvent{SpecEventType: ty, TimelineLocation: loc(), Attempt: attempt}
				rp.SpecEvents = append(rp.SpecEvents, ev)
				add(ev, gItem{mark: fmt.Sprintf("Attempt #%d", attempt)})
			}
		}
	}
	return s
}

func genProgress(r *rand.Rand, o genOpts, rp *types.SpecReport, m string, tl types.TimelineLocation) types.ProgressReport {
	pr := types.ProgressReport{Message: "{{bold}}progress{{/}}", ParallelProcess: rp.ParallelProcess, RunningInParallel: rp.RunningInParallel,
		ContainerHierarchyTexts: rp.ContainerHierarchyTexts, LeafNodeText: rp.LeafNodeText, LeafNodeLocation: rp.LeafNodeLocation, SpecStartTime: rp.StartTime,
		CurrentNodeType: types.NodeTypeBeforeEach, CurrentNodeText: m + hText(r, o, 2), CurrentNodeLocation: gLoc(r), CurrentNodeStartTime: rp.StartTime, TimelineLocation: tl}
	if r.Intn(3) == 0 {
		pr.CurrentStepText, pr.CurrentStepLocation, pr.CurrentStepStartTime = "step"+hText(r, o, 2), gLoc(r), rp.StartTime
	}
	if r.Intn(3) == 0 {
		pr.AdditionalReports = []string{"additional\n", ""}
	}
	for i := r.Intn(3); i > 0; i-- {
		g := types.Goroutine{ID: uint64(1 + r.Intn(1000)), State: []string{"running", "chan receive, 2 minutes"}[r.Intn(2)], IsSpecGoroutine: i == 1}
		for k := r.Intn(3); k > 0; k-- {
			fc := types.FunctionCall{Function: "pkg.(*T).f[...](0x1, {0x2, 0x3})", Filename: "/x/y.go", Line: 1 + r.Intn(50), Highlight: r.Intn(2) == 0}
			if fc.Highlight && r.Intn(2) == 0 {
				fc.Source = [][]string{{"\tfoo()", "", "\t\tbar(\"%s\")"}, {"", " "}, {"x"}}[r.Intn(3)]
				fc.SourceHighlight = r.Intn(len(fc.Source))
			}
			g.Stack = append(g.Stack, fc)
		}
		pr.Goroutines = append(pr.Goroutines, g)
	}
	return pr
}

func gLabel(r *rand.Rand) string {
	return []string{"fast", "slow", "owner:alice", "Owner: bob", "key:{a}", "with space", "é<&>\"'", "OWNER:c d", "x"}[r.Intn(9)]
}

func genReport(r *rand.Rand, o genOpts) *gRep {
	g := &gRep{}
	rp := &g.rep
	rp.SuitePath = "/path/to/" + hText(r, o, 2)
	rp.SuiteDescription = hText(r, o, 4)
	if r.Intn(2) == 0 {
		rp.SuiteLabels = []string{gLabel(r), gLabel(r)}[:1+r.Intn(2)]
	}
	rp.SuiteConfig = types.NewDefaultSuiteConfig()
	rp.SuiteConfig.ParallelTotal, rp.SuiteConfig.ParallelProcess = 1, 1
	if o.parallel {
		rp.SuiteConfig.ParallelTotal = 2 + r.Intn(4)
	}
	if r.Intn(2) == 0 {
		rp.SuiteConfig.LabelFilter = hText(r, o, 2)
		rp.SuiteConfig.FocusStrings = []string{hText(r, o, 2), "b,c"}
		rp.SuiteConfig.SkipFiles = []string{"a;b"}
	}
	rp.SuiteConfig.RandomSeed = r.Int63n(1 << 31)
	t0 := time.Unix(1700000000, 0).UTC()
	rp.StartTime, rp.RunTime = t0, time.Duration(r.Int63n(1e11))
	rp.EndTime = t0.Add(rp.RunTime)
	for k := r.Intn(3); k > 0; k-- {
		rp.SpecialSuiteFailureReasons = append(rp.SpecialSuiteFailureReasons, hText(r, genOpts{utf8: o.utf8, plain: true, braces: false}, 3))
	}
	var specs []*gSpec
	suiteNode := func(nt types.NodeType) {
		st := types.SpecStatePassed
		if r.Intn(3) == 0 {
			st = failStates[r.Intn(len(failStates))]
		}
		specs = append(specs, genSpec(g, r, o, nt, st, t0))
	}
	if r.Intn(3) == 0 {
		suiteNode(types.NodeTypeReportBeforeSuite)
	}
	if r.Intn(3) == 0 {
		suiteNode([]types.NodeType{types.NodeTypeBeforeSuite, types.NodeTypeSynchronizedBeforeSuite}[r.Intn(2)])
	}
	for n := r.Intn(8); n > 0; n-- {
		var st types.SpecState
		switch r.Intn(10) {
		case 0, 1, 2:
			st = types.SpecStatePassed
		case 3:
			st = types.SpecStatePending
		case 4:
			st = types.SpecStateSkipped
		default:
			st = failStates[r.Intn(len(failStates))]
		}
		specs = append(specs, genSpec(g, r, o, types.NodeTypeIt, st, t0))
	}
	for _, nt := range []types.NodeType{types.NodeTypeAfterSuite, types.NodeTypeCleanupAfterSuite, types.NodeTypeReportAfterSuite} {
		if r.Intn(3) == 0 {
			suiteNode(nt)
		}
	}
	g.specs = specs
	its, failed := 0, 0
	for _, s := range specs {
		rp.SpecReports = append(rp.SpecReports, s.rep)
		if s.rep.LeafNodeType == types.NodeTypeIt {
			its++
		}
		if s.rep.State.Is(types.SpecStateFailureStates) {
			failed++
		}
	}
	rp.PreRunStats = types.PreRunStats{TotalSpecs: its + r.Intn(3), SpecsThatWillRun: its}
	rp.SuiteSucceeded = failed == 0 && len(rp.SpecialSuiteFailureReasons) == 0
	return g
}

// timelineMarks is the order of markers a timeline must show.
func (s *gSpec) timelineMarks(hidden, vv bool) []string {
	var out []string
	for _, it := range s.items {
		if it.hidden && !hidden || it.vv && !vv || it.mark == "" {
			continue
		}
		out = append(out, it.mark)
	}
	return out
}

// segments of captured output between events; leading/trailing parts included.
func (s *gSpec) segments() []string {
	var out []string
	cur := ""
	for _, it := range s.items {
		if it.chunk {
			cur += it.text
		} else if it.ev != nil {
			if cur != "" {
				out = append(out, cur)
			}
			cur = ""
		}
	}
	if cur != "" {
		out = append(out, cur)
	}
	return out
}

func normLines(s string) string {
	ls := strings.Split(s, "\n")
	for i := range ls {
		ls[i] = strings.TrimLeft(ls[i], " ")
	}
	return strings.Join(ls, "\n")
}

// seqDiff compares marker sequences.
func seqDiff(want, got []string) string {
	for i := 0; i < len(want) || i < len(got); i++ {
		w, g := "<end>", "<end>"
		if i < len(want) {
			w = want[i]
		}
		if i < len(got) {
			g = got[i]
		}
		if w != g {
			return fmt.Sprintf("item %d: emitted %s, shown %s (emitted %v, shown %v)", i, w, g, clip(want), clip(got))
		}
	}
	return ""
}

func clip(x []string) []string {
	if len(x) > 40 {
		return append(append([]string{}, x[:40]...), "…")
	}
	return x
}

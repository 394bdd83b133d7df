package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/onsi/ginkgo/v2/internal/zzverif/sdoc"
	"github.com/onsi/ginkgo/v2/reporters"
	"github.com/onsi/ginkgo/v2/types"
)

// C19: the machine-readable reports. Part 1 drives the report generators and mergers with random reports full of
// hostile text; part 2 runs real suites through the CLI and judges the files it leaves behind.

func init() {
	checks["C19"] = Check{Level: "exploration", Isolate: true, Run: runC19,
		Rule:   "distinct by the multiset of (node type, state, has failure, has output) of the report, configuration and merge pattern; end-to-end runs by suite, process count and flags",
		Assume: []string{"JSON carries valid UTF-8 only: strings with other bytes are compared after replacement", "characters XML 1.0 cannot represent are compared after replacement by U+FFFD"}}
}

func xmlClean(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		i += n
		ok := r == 0x9 || r == 0xA || r == 0xD || r >= 0x20 && r <= 0xD7FF || r >= 0xE000 && r <= 0xFFFD || r >= 0x10000 && r <= 0x10FFFF
		if !ok || r == utf8.RuneError && n == 1 {
			r = 0xFFFD
		}
		b.WriteRune(r)
	}
	return b.String()
}

// ---- JUnit, parsed without the code under test

type xmlNode struct {
	name  string
	attrs map[string]string
	text  string
	kids  []*xmlNode
}

func parseXML(b []byte) (*xmlNode, error) {
	d := xml.NewDecoder(bytes.NewReader(b))
	d.Strict = true
	var stack []*xmlNode
	var root *xmlNode
	for {
		t, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		switch x := t.(type) {
		case xml.StartElement:
			n := &xmlNode{name: x.Name.Local, attrs: map[string]string{}}
			for _, a := range x.Attr {
				if _, dup := n.attrs[a.Name.Local]; dup {
					return nil, fmt.Errorf("duplicate attribute %s", a.Name.Local)
				}
				n.attrs[a.Name.Local] = a.Value
			}
			if len(stack) > 0 {
				p := stack[len(stack)-1]
				p.kids = append(p.kids, n)
			} else if root != nil {
				return nil, fmt.Errorf("two root elements")
			} else {
				root = n
			}
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if len(stack) > 0 {
				stack[len(stack)-1].text += string(x)
			} else if strings.TrimSpace(string(x)) != "" {
				return nil, fmt.Errorf("text outside the root element")
			}
		}
	}
	if root == nil || len(stack) > 0 {
		return nil, fmt.Errorf("no complete document")
	}
	return root, nil
}

func (n *xmlNode) all(name string) (out []*xmlNode) {
	for _, k := range n.kids {
		if k.name == name {
			out = append(out, k)
		}
	}
	return
}

func (n *xmlNode) one(name string) *xmlNode {
	if k := n.all(name); len(k) == 1 {
		return k[0]
	}
	return nil
}

func dedupLabels(s types.SpecReport) []string {
	var out []string
	seen := map[string]bool{}
	for _, ls := range append(append([][]string{}, s.ContainerHierarchyLabels...), s.LeafNodeLabels) {
		for _, l := range ls {
			if !seen[l] {
				seen[l] = true
				out = append(out, l)
			}
		}
	}
	return out
}

func fullText(s types.SpecReport) string {
	t := append([]string{}, s.ContainerHierarchyTexts...)
	if s.LeafNodeText != "" {
		t = append(t, s.LeafNodeText)
	}
	return strings.Join(t, " ")
}

func isSuiteNode(nt types.NodeType) bool { return nt != types.NodeTypeIt }

type junitWant struct {
	rep types.Report
	cfg reporters.JunitReportConfig
	gen []*gSpec // nil for real runs
}

func secs(d interface{ Seconds() float64 }) string { return fmt.Sprint(d.Seconds()) }

var ownerRe = regexp.MustCompile(`(?is)^owner:([^\n]*)$`)

func ownerOf(labels []string) string {
	o := ""
	for _, l := range labels {
		if m := ownerRe.FindStringSubmatch(l); m != nil {
			o = m[1]
		}
	}
	return o
}

// checkJUnit judges a JUnit file against the reports it must represent.
func checkJUnit(b []byte, want []junitWant) (bad []string) {
	add := func(f string, a ...any) {
		if len(bad) < 8 {
			bad = append(bad, fmt.Sprintf(f, a...))
		}
	}
	root, err := parseXML(b)
	if err != nil {
		add("not well-formed: %v", err)
		return
	}
	if root.name != "testsuites" {
		add("root is <%s>", root.name)
		return
	}
	suites := root.all("testsuite")
	if len(suites) != len(want) {
		add("%d suites, want %d", len(suites), len(want))
		return
	}
	tot := map[string]int{}
	for si, su := range suites {
		w := want[si]
		if su.attrs["name"] != xmlClean(w.rep.SuiteDescription) {
			add("suite %d is named %q, want %q", si, su.attrs["name"], w.rep.SuiteDescription)
		}
		if su.attrs["package"] != xmlClean(w.rep.SuitePath) {
			add("suite %d has package %q, want %q", si, su.attrs["package"], w.rep.SuitePath)
		}
		if su.attrs["time"] != secs(w.rep.RunTime) {
			add("suite %d has time %s, want %s", si, su.attrs["time"], secs(w.rep.RunTime))
		}
		if ts := w.rep.StartTime.Format("2006-01-02T15:04:05"); su.attrs["timestamp"] != ts {
			add("suite %d has timestamp %s, want %s", si, su.attrs["timestamp"], ts)
		}
		if p := su.one("properties"); p == nil {
			add("suite %d has no properties", si)
		} else {
			pv := map[string]string{}
			for _, x := range p.kids {
				pv[x.attrs["name"]] = x.attrs["value"]
			}
			for k, v := range map[string]string{"SuiteSucceeded": fmt.Sprint(w.rep.SuiteSucceeded), "RandomSeed": fmt.Sprint(w.rep.SuiteConfig.RandomSeed),
				"SuiteHasProgrammaticFocus": fmt.Sprint(w.rep.SuiteHasProgrammaticFocus), "LabelFilter": xmlClean(w.rep.SuiteConfig.LabelFilter),
				"ParallelTotal": fmt.Sprint(w.rep.SuiteConfig.ParallelTotal), "SpecialSuiteFailureReason": xmlClean(strings.Join(w.rep.SpecialSuiteFailureReasons, ","))} {
				if pv[k] != v {
					add("suite %d property %s is %q, want %q", si, k, pv[k], v)
				}
			}
		}
		var specs []types.SpecReport
		var gens []*gSpec
		for i, s := range w.rep.SpecReports {
			if w.cfg.OmitSuiteSetupNodes && isSuiteNode(s.LeafNodeType) {
				continue
			}
			specs = append(specs, s)
			if w.gen != nil {
				gens = append(gens, w.gen[i])
			} else {
				gens = append(gens, nil)
			}
		}
		cases := su.all("testcase")
		if len(cases) != len(specs) {
			add("suite %d has %d testcases for %d reported specs", si, len(cases), len(specs))
			continue
		}
		n := map[string]int{}
		for i, tc := range cases {
			s := specs[i]
			where := fmt.Sprintf("suite %d testcase %d (%s %s)", si, i, s.LeafNodeType, s.State)
			labels := dedupLabels(s)
			name := "[" + s.LeafNodeType.String() + "]"
			if w.cfg.OmitLeafNodeType {
				name = ""
			}
			if fullText(s) != "" {
				name += " " + fullText(s)
			}
			if len(labels) > 0 && !w.cfg.OmitSpecLabels {
				name += " [" + strings.Join(labels, ", ") + "]"
			}
			if name = xmlClean(strings.TrimSpace(name)); tc.attrs["name"] != name {
				add("%s is named %q, want %q", where, tc.attrs["name"], name)
			}
			if tc.attrs["classname"] != xmlClean(w.rep.SuiteDescription) {
				add("%s has classname %q", where, tc.attrs["classname"])
			}
			if tc.attrs["status"] != s.State.String() {
				add("%s has status %q", where, tc.attrs["status"])
			}
			if tc.attrs["time"] != secs(s.RunTime) {
				add("%s has time %s, want %s", where, tc.attrs["time"], secs(s.RunTime))
			}
			if o := ownerOf(labels); tc.attrs["owner"] != xmlClean(o) {
				add("%s has owner %q, want %q", where, tc.attrs["owner"], o)
			}
			var skips, fails, errs = tc.all("skipped"), tc.all("failure"), tc.all("error")
			kind := fmt.Sprintf("%d/%d/%d", len(skips), len(fails), len(errs))
			msg, typ, descr := "", "", ""
			wantKind := "0/0/0"
			switch s.State {
			case types.SpecStateSkipped:
				n["skipped"]++
				wantKind, msg = "1/0/0", "skipped"
				if s.Failure.Message != "" {
					msg += " - " + s.Failure.Message
				}
			case types.SpecStatePending:
				n["disabled"]++
				wantKind, msg = "1/0/0", "pending"
			case types.SpecStateFailed, types.SpecStateTimedout, types.SpecStateAborted:
				n["failures"]++
				wantKind, msg, typ, descr = "0/1/0", s.Failure.Message, s.State.String(), s.Failure.Message
			case types.SpecStateInterrupted:
				n["errors"]++
				wantKind, msg, typ, descr = "0/0/1", s.Failure.Message, "interrupted", s.Failure.Message
			case types.SpecStatePanicked:
				n["errors"]++
				wantKind, msg, typ, descr = "0/0/1", s.Failure.ForwardedPanic, "panicked", s.Failure.ForwardedPanic
			}
			if kind != wantKind {
				add("%s has skipped/failure/error elements %s, want %s", where, kind, wantKind)
				continue
			}
			if el := append(append(skips, fails...), errs...); len(el) == 1 {
				if w.cfg.OmitFailureMessageAttr && typ != "" {
					msg = ""
				}
				if el[0].attrs["message"] != xmlClean(msg) {
					add("%s has message %q, want %q", where, el[0].attrs["message"], msg)
				}
				if typ != "" && el[0].attrs["type"] != typ {
					add("%s has type %q", where, el[0].attrs["type"])
				}
				if typ != "" {
					if !strings.Contains(normLines(el[0].text), normLines(xmlClean(descr))) {
						add("%s: description lacks the failure message %q: %q", where, descr, el[0].text)
					}
					if !strings.Contains(el[0].text, xmlClean(s.Failure.Location.String())) {
						add("%s: description lacks the failure location %q", where, s.Failure.Location)
					}
				}
			}
			out := ""
			if k := tc.one("system-out"); k != nil {
				out = k.text
			}
			wantOut := s.CapturedStdOutErr
			if w.cfg.OmitCapturedStdOutErr {
				wantOut = ""
			}
			if out != xmlClean(wantOut) {
				add("%s: system-out differs: %s", where, firstDiff(xmlClean(wantOut), out))
			}
			serr := ""
			if k := tc.one("system-err"); k != nil {
				serr = k.text
			}
			if s.State.Is(w.cfg.OmitTimelinesForSpecState) {
				if serr != "" {
					add("%s: timeline shown although omitted for its state", where)
				}
			} else if g := gens[i]; g != nil {
				if d := seqDiff(g.timelineMarks(true, true), markRe.FindAllString(serr, -1)); d != "" {
					add("%s: system-err timeline: %s", where, d)
				}
			}
		}
		for k, v := range map[string]int{"tests": len(specs), "disabled": n["disabled"], "skipped": n["skipped"], "errors": n["errors"], "failures": n["failures"]} {
			if su.attrs[k] != fmt.Sprint(v) {
				add("suite %d says %s=%s, its testcases make %d", si, k, su.attrs[k], v)
			}
		}
		tot["tests"] += len(specs)
		tot["disabled"] += n["disabled"] + n["skipped"]
		tot["errors"] += n["errors"]
		tot["failures"] += n["failures"]
	}
	for _, k := range []string{"tests", "disabled", "errors", "failures"} {
		if root.attrs[k] != fmt.Sprint(tot[k]) {
			add("the document says %s=%s, its suites make %d", k, root.attrs[k], tot[k])
		}
	}
	sum := 0.0
	for _, w := range want {
		sum += w.rep.RunTime.Seconds()
	}
	if t, err := strconv.ParseFloat(root.attrs["time"], 64); err != nil || math.Abs(t-sum) > 1e-6*(1+math.Abs(sum)) {
		add("the document says time=%s, its suites make %v", root.attrs["time"], sum)
	}
	return
}

// ---- TeamCity

type tcMsg struct {
	name  string
	attrs map[string]string
}

func parseTC(b []byte) (out []tcMsg, err error) {
	s := string(b)
	for ln := 1; s != ""; ln++ {
		i := strings.IndexByte(s, '\n')
		if i < 0 {
			return out, fmt.Errorf("line %d is not terminated", ln)
		}
		l := s[:i]
		s = s[i+1:]
		const p = "##teamcity["
		if !strings.HasPrefix(l, p) || !strings.HasSuffix(l, "]") {
			return out, fmt.Errorf("line %d is not a service message: %q", ln, trunc(l, 200))
		}
		l = l[len(p) : len(l)-1]
		m := tcMsg{attrs: map[string]string{}}
		j := strings.IndexByte(l, ' ')
		if j < 0 {
			return out, fmt.Errorf("line %d has no attributes", ln)
		}
		m.name, l = l[:j], l[j:]
		for l != "" {
			k := strings.Index(l, "='")
			if l[0] != ' ' || k < 2 || strings.ContainsAny(l[1:k], " '|[]") {
				return out, fmt.Errorf("line %d: malformed attribute at %q", ln, trunc(l, 100))
			}
			key := l[1:k]
			l = l[k+2:]
			var v strings.Builder
			for {
				if l == "" {
					return out, fmt.Errorf("line %d: value of %s is not terminated", ln, key)
				}
				r, n := utf8.DecodeRuneInString(l)
				if r == '\'' {
					l = l[1:]
					break
				}
				if r == '|' {
					if len(l) < 2 {
						return out, fmt.Errorf("line %d: dangling escape", ln)
					}
					switch l[1] {
					case 'n':
						v.WriteByte('\n')
					case 'r':
						v.WriteByte('\r')
					case 'x':
						v.WriteRune(0x85)
					case 'l':
						v.WriteRune(0x2028)
					case 'p':
						v.WriteRune(0x2029)
					case '|', '\'', '[', ']':
						v.WriteByte(l[1])
					default:
						return out, fmt.Errorf("line %d: unknown escape %q", ln, l[:2])
					}
					l = l[2:]
					continue
				}
				if r == '[' || r == ']' || r == '\r' || r == 0x85 || r == 0x2028 || r == 0x2029 {
					return out, fmt.Errorf("line %d: unescaped %q in %s", ln, r, key)
				}
				v.WriteString(l[:n])
				l = l[n:]
			}
			if _, dup := m.attrs[key]; dup {
				return out, fmt.Errorf("line %d: duplicate attribute %s", ln, key)
			}
			m.attrs[key] = v.String()
		}
		out = append(out, m)
	}
	return out, nil
}

func checkTC(b []byte, want []junitWant) (bad []string) {
	add := func(f string, a ...any) {
		if len(bad) < 8 {
			bad = append(bad, fmt.Sprintf(f, a...))
		}
	}
	ms, err := parseTC(b)
	if err != nil {
		add("not well-formed: %v", err)
		return
	}
	next := func(kind string) *tcMsg {
		if len(ms) == 0 {
			add("the report ends where %s should be", kind)
			return nil
		}
		m := ms[0]
		if m.name != kind {
			add("%s(%q) where %s should be", m.name, m.attrs["name"], kind)
			return nil
		}
		ms = ms[1:]
		return &m
	}
	for si, w := range want {
		sname := w.rep.SuiteDescription
		if len(w.rep.SuiteLabels) > 0 {
			sname += " [" + strings.Join(w.rep.SuiteLabels, ", ") + "]"
		}
		m := next("testSuiteStarted")
		if m == nil {
			return
		}
		if m.attrs["name"] != sname {
			add("suite %d is named %q, want %q", si, m.attrs["name"], sname)
		}
		for i, s := range w.rep.SpecReports {
			where := fmt.Sprintf("suite %d test %d (%s %s)", si, i, s.LeafNodeType, s.State)
			name := "[" + s.LeafNodeType.String() + "]"
			if fullText(s) != "" {
				name += " " + fullText(s)
			}
			if ls := dedupLabels(s); len(ls) > 0 {
				name += " [" + strings.Join(ls, ", ") + "]"
			}
			chk := func(kind string, attrs map[string]string) *tcMsg {
				m := next(kind)
				if m == nil {
					return nil
				}
				if m.attrs["name"] != name {
					add("%s: %s is for %q, want %q", where, kind, m.attrs["name"], name)
				}
				for k, v := range attrs {
					if m.attrs[k] != v {
						add("%s: %s has %s %s", where, kind, k, firstDiff(v, m.attrs[k]))
					}
				}
				return m
			}
			if chk("testStarted", nil) == nil {
				return
			}
			switch s.State {
			case types.SpecStatePending:
				if chk("testIgnored", map[string]string{"message": "pending"}) == nil {
					return
				}
			case types.SpecStateSkipped:
				msg := "skipped"
				if s.Failure.Message != "" {
					msg += " - " + s.Failure.Message
				}
				if chk("testIgnored", map[string]string{"message": msg}) == nil {
					return
				}
			case types.SpecStatePassed:
			default:
				msg := s.Failure.Message
				if s.State == types.SpecStatePanicked {
					msg = s.Failure.ForwardedPanic
				}
				m := chk("testFailed", map[string]string{"message": s.State.String() + " - " + msg})
				if m == nil {
					return
				}
				if !strings.Contains(normLines(m.attrs["details"]), normLines(msg)) || !strings.Contains(m.attrs["details"], s.Failure.Location.String()) {
					add("%s: details lack the message or location: %q", where, m.attrs["details"])
				}
			}
			if chk("testStdOut", map[string]string{"out": s.CapturedStdOutErr}) == nil {
				return
			}
			m := chk("testStdErr", nil)
			if m == nil {
				return
			}
			if w.gen != nil {
				if d := seqDiff(w.gen[i].timelineMarks(true, true), markRe.FindAllString(m.attrs["out"], -1)); d != "" {
					add("%s: timeline: %s", where, d)
				}
			}
			if chk("testFinished", map[string]string{"duration": fmt.Sprint(int(s.RunTime.Seconds() * 1000))}) == nil {
				return
			}
		}
		if m := next("testSuiteFinished"); m == nil {
			return
		} else if m.attrs["name"] != sname {
			add("suite %d started as %q but finished as %q", si, sname, m.attrs["name"])
		}
	}
	if len(ms) > 0 {
		add("%d messages left over, first %s", len(ms), ms[0].name)
	}
	return
}

// ---- JSON

// mapStrings rewrites every string of a JSON-able value.
func validUTF8(s string) string {
	var b strings.Builder
	for _, r := range s {
		b.WriteRune(r)
	}
	return b.String()
}

// checkJSON decodes the file twice: with the framework's types and with the driver's own.
func checkJSON(b []byte, want []junitWant, exact bool) (bad []string) {
	add := func(f string, a ...any) {
		if len(bad) < 8 {
			bad = append(bad, fmt.Sprintf(f, a...))
		}
	}
	var own []*Rep
	if err := json.Unmarshal(b, &own); err != nil {
		add("not valid JSON: %v", err)
		return
	}
	var reps []types.Report
	if err := json.Unmarshal(b, &reps); err != nil {
		add("does not decode into reports: %v", err)
		return
	}
	if len(own) != len(want) || len(reps) != len(want) {
		add("%d suites, want %d", len(own), len(want))
		return
	}
	for i, w := range want {
		if exact {
			if x, y := flat(w.rep), flat(reps[i]); x != y {
				add("suite %d does not decode to what was encoded: %s", i, firstDiff(x, y))
			}
		}
		o := own[i]
		if o.SuiteDescription != validUTF8(w.rep.SuiteDescription) || o.SuiteSucceeded != w.rep.SuiteSucceeded || o.PreRunStats.TotalSpecs != w.rep.PreRunStats.TotalSpecs ||
			!reflect.DeepEqual(append([]string{}, o.SuiteLabels...), append([]string{}, w.rep.SuiteLabels...)) || len(o.SpecReports) != len(w.rep.SpecReports) {
			add("suite %d: description, success, totals, labels or number of specs differ", i)
			continue
		}
		for k, s := range w.rep.SpecReports {
			p := o.SpecReports[k]
			where := fmt.Sprintf("suite %d spec %d", i, k)
			eq := func(f, x, y string) {
				if validUTF8(x) != y {
					add("%s: %s %s", where, f, firstDiff(validUTF8(x), y))
				}
			}
			eq("state", s.State.String(), p.State)
			eq("type", s.LeafNodeType.String(), p.LeafNodeType)
			eq("text", s.LeafNodeText, p.LeafNodeText)
			eq("containers", strings.Join(s.ContainerHierarchyTexts, "\x01"), strings.Join(p.ContainerHierarchyTexts, "\x01"))
			eq("leaf labels", strings.Join(s.LeafNodeLabels, "\x01"), strings.Join(p.LeafNodeLabels, "\x01"))
			eq("GinkgoWriter output", s.CapturedGinkgoWriterOutput, p.CapturedGinkgoWriterOutput)
			eq("captured output", s.CapturedStdOutErr, p.CapturedStdOutErr)
			fm, fp := "", ""
			if p.Failure != nil {
				fm, fp = p.Failure.Message, p.Failure.ForwardedPanic
			}
			eq("failure", s.Failure.Message, fm)
			eq("panic", s.Failure.ForwardedPanic, fp)
			if len(p.AdditionalFailures) != len(s.AdditionalFailures) || len(p.ReportEntries) != len(s.ReportEntries) || len(p.SpecEvents) != len(s.SpecEvents) || len(p.ProgressReports) != len(s.ProgressReports) ||
				p.NumAttempts != s.NumAttempts || p.RunTime != s.RunTime || p.ParallelProcess != s.ParallelProcess {
				add("%s: number of failures, entries, events, progress reports, attempts, run time or process differ", where)
				continue
			}
			for j, e := range s.ReportEntries {
				eq("entry name", e.Name, p.ReportEntries[j].Name)
				if v := p.ReportEntries[j].Visibility; v != "" || e.Visibility != types.ReportEntryVisibilityAlways { // the default visibility is encoded as ""
					eq("entry visibility", e.Visibility.String(), v)
				}
				if p.ReportEntries[j].TimelineLocation.Offset != e.TimelineLocation.Offset {
					add("%s: entry offset", where)
				}
			}
			for j, e := range s.SpecEvents {
				eq("event type", e.SpecEventType.String(), p.SpecEvents[j].SpecEventType)
				eq("event message", e.Message, p.SpecEvents[j].Message)
				eq("event duration", e.Duration.String(), p.SpecEvents[j].Duration.String())
			}
			for j, e := range s.AdditionalFailures {
				eq("additional failure", e.Failure.Message, p.AdditionalFailures[j].Failure.Message)
				eq("additional failure state", e.State.String(), p.AdditionalFailures[j].State)
			}
		}
	}
	return
}

func repSig(g *gRep) string {
	var b strings.Builder
	for _, s := range g.rep.SpecReports {
		fmt.Fprintf(&b, "%d/%d/%v/%v,", s.LeafNodeType, s.State, s.Failure.IsZero(), s.CapturedGinkgoWriterOutput != "")
	}
	return b.String()
}

var reportKinds = []struct {
	name  string
	gen   func(types.Report, string) error
	merge func([]string, string) ([]string, error)
	check func([]byte, []junitWant) []string
}{
	{"json", reporters.GenerateJSONReport, reporters.MergeAndCleanupJSONReports, nil},
	{"junit", reporters.GenerateJUnitReport, reporters.MergeAndCleanupJUnitReports, checkJUnit},
	{"teamcity", reporters.GenerateTeamcityReport, reporters.MergeAndCleanupTeamcityReports, checkTC},
}

func runC19(c *Ctx) {
	n := N(1500, 40000)
	parallelDo(n, workers(), func(i int) { machineCase(c, i) })
	if *flagOnly < 0 || *flagOnly >= 1000000 {
		machineE2E(c)
	}
	if *flagOnly < 0 {
		collisions(c)
	}
}

// collisions: suites whose generated assets get the same name must still all be reported.
func collisions(c *Ctx) {
	for i, cs := range []struct {
		key   string
		paths []string
		args  []string
	}{
		{"colliding-namespaced-names", []string{"p/q/a.test", "p_q/b.test"}, []string{"--output-dir=out"}},
		{"colliding-namespaced-names", []string{"p/q/a.test", "p_q/b.test"}, []string{"--output-dir=out", "--keep-separate-reports"}},
		{"", []string{"p/q/a.test", "p_q/b.test"}, nil},
		{"", []string{"p/qr/a.test", "pq/r/b.test", "c.d/b.test"}, []string{"--output-dir=out"}},
		{"precompiled-suites-in-one-directory", []string{"p/a.test", "p/b.test"}, nil},
	} {
		root := filepath.Join(*flagWork, fmt.Sprintf("col%d", i))
		os.RemoveAll(root)
		args := []string{"run", "--no-color", "--keep-going", "--json-report=r.json"}
		for j, p := range cs.paths {
			os.MkdirAll(filepath.Join(root, filepath.Dir(p)), 0755)
			s := hostileSuite(rng("C19c", j), i, j)
			b, _ := json.Marshal(s)
			os.WriteFile(filepath.Join(root, filepath.Dir(p), "suite.json"), b, 0644)
			os.Symlink(bin("interp.test"), filepath.Join(root, p))
		}
		args = append(append(args, cs.args...), cs.paths...)
		res := runCmd(root, []string{"VERIF_PERDIR=1"}, 120*1e9, bin("ginkgo"), args...)
		n := 0
		filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
			if err == nil && strings.HasSuffix(p, "r.json") {
				b, _ := os.ReadFile(p)
				var reps []*Rep
				json.Unmarshal(b, &reps)
				n += len(reps)
			}
			return nil
		})
		c.Eval(fmt.Sprintf("collision/%d", i))
		if n != len(cs.paths) {
			c.Fail(cs.key, fmt.Sprintf("ginkgo %v: %d of %d suites are in the reports left behind", args, n, len(cs.paths)), map[string][]byte{"output.txt": []byte(res.Out)})
		}
		os.RemoveAll(root)
	}
}

func machineCase(c *Ctx, i int) {
	r := rng("C19", i)
	dir := filepath.Join(*flagWork, fmt.Sprintf("m%d", i))
	os.RemoveAll(dir)
	defer os.RemoveAll(dir)
	utf8Only := r.Intn(3) > 0
	k := 1
	if r.Intn(2) == 0 {
		k = 2 + r.Intn(3)
	}
	var gs []*gRep
	var want []junitWant
	for j := 0; j < k; j++ {
		g := genReport(r, genOpts{utf8: utf8Only, esc: true, braces: true, parallel: r.Intn(2) == 0})
		gs = append(gs, g)
		want = append(want, junitWant{rep: g.rep, gen: g.specs})
	}
	theWatch.set(i, fmt.Sprintf("report case %d", i))
	defer theWatch.done(i)
	c.Eval(repSig(gs[0]) + fmt.Sprint(k))
	c.Count("specs rendered", len(gs[0].specs))
	fail := func(what string, bad []string, file string) {
		b, _ := os.ReadFile(file)
		in, _ := json.MarshalIndent(want[0].rep, "", " ")
		c.Fail("", fmt.Sprintf("case %d: %s: %s", i, what, strings.Join(bad, "\n  ")), map[string][]byte{"written": b, "report.json": in})
	}
	if k == 1 {
		cfg := reporters.JunitReportConfig{OmitFailureMessageAttr: r.Intn(3) == 0, OmitCapturedStdOutErr: r.Intn(3) == 0, OmitSpecLabels: r.Intn(3) == 0, OmitLeafNodeType: r.Intn(3) == 0, OmitSuiteSetupNodes: r.Intn(3) == 0}
		if r.Intn(3) == 0 {
			cfg.OmitTimelinesForSpecState = []types.SpecState{types.SpecStatePassed, types.SpecStatePassed | types.SpecStateSkipped | types.SpecStatePending, types.SpecStateFailed}[r.Intn(3)]
		}
		want[0].cfg = cfg
		f := filepath.Join(dir, "sub", "junit.xml")
		if err := reporters.GenerateJUnitReportWithConfig(want[0].rep, f, cfg); err != nil {
			fail("JUnit", []string{err.Error()}, f)
			return
		}
		b, _ := os.ReadFile(f)
		if bad := checkJUnit(b, want); bad != nil {
			fail(fmt.Sprintf("JUnit with %+v", cfg), bad, f)
		}
		c.Count("junit files", 1)
	}
	want0 := want
	for j := range want0 {
		want0[j].cfg = reporters.JunitReportConfig{}
	}
	for _, kind := range reportKinds {
		check := func(b []byte, w []junitWant) []string {
			if kind.check != nil {
				return kind.check(b, w)
			}
			return checkJSON(b, w, utf8Only)
		}
		var srcs []string
		var ok []junitWant
		nbad := 0
		for j, w := range want0 {
			f := filepath.Join(dir, kind.name, fmt.Sprintf("s%d", j))
			srcs = append(srcs, f)
			fault := 0
			if k > 1 {
				fault = r.Intn(8)
			}
			if fault == 1 { // never written
				nbad++
				continue
			}
			if err := kind.gen(w.rep, f); err != nil {
				fail(kind.name, []string{err.Error()}, f)
				return
			}
			b, _ := os.ReadFile(f)
			if bad := check(b, []junitWant{w}); bad != nil {
				fail(kind.name, bad, f)
				return
			}
			c.Count(kind.name+" files", 1)
			if fault == 2 && kind.name != "teamcity" { // truncated: the process died while writing
				os.WriteFile(f, b[:len(b)/2], 0644)
				nbad++
				continue
			}
			ok = append(ok, w)
		}
		if k == 1 {
			continue
		}
		dst := filepath.Join(dir, kind.name, "out", "merged")
		if r.Intn(2) == 0 {
			dst = filepath.Join(dir, kind.name, "merged")
		}
		msgs, err := kind.merge(srcs, dst)
		if err != nil {
			fail("merge "+kind.name, []string{err.Error()}, dst)
			return
		}
		if len(msgs) != nbad {
			fail("merge "+kind.name, []string{fmt.Sprintf("%d unreadable sources, %d messages: %q", nbad, len(msgs), msgs)}, dst)
		}
		b, _ := os.ReadFile(dst)
		if bad := check(b, ok); bad != nil {
			fail("merge "+kind.name, bad, dst)
		}
		c.Count("merges", 1)
	}
}

// ---- end to end

func machineE2E(c *Ctx) {
	n := N(24, 300)
	parallelDo(n, workers(), func(i int) {
		if *flagOnly >= 1000000 {
			i -= 1000000
		}
		r := rng("C19e", i)
		nsuites := 1 + r.Intn(3)
		root := filepath.Join(*flagWork, fmt.Sprintf("e%d", i))
		os.RemoveAll(root)
		defer os.RemoveAll(root)
		env := []string{"VERIF_PERDIR=1"}
		var links, dirs []string
		for j := 0; j < nsuites; j++ {
			d := filepath.Join(root, fmt.Sprintf("suite%c", 'a'+j))
			os.MkdirAll(d, 0755)
			s := hostileSuite(r, i, j)
			b, _ := json.Marshal(s)
			os.WriteFile(filepath.Join(d, "suite.json"), b, 0644)
			l := filepath.Join(d, fmt.Sprintf("interp%d.test", j))
			os.Symlink(bin("interp.test"), l)
			links, dirs = append(links, l), append(dirs, d)
		}
		procs := 1 + r.Intn(3)
		args := []string{"run", "--no-color", "--keep-going", "--json-report=r.json", "--junit-report=r.xml", "--teamcity-report=r.tc", fmt.Sprintf("--procs=%d", procs)}
		sep := r.Intn(3) == 0
		outDir := ""
		if sep {
			args = append(args, "--keep-separate-reports")
		}
		if r.Intn(2) == 0 || sep && r.Intn(2) == 0 {
			outDir = filepath.Join(root, "o u t")
			args = append(args, "--output-dir="+outDir)
		}
		if r.Intn(3) == 0 {
			args = append(args, []string{"-v", "--succinct", "-vv"}[r.Intn(3)])
		}
		args = append(args, links...)
		res := runCmd(root, env, 120*1e9, bin("ginkgo"), args...)
		if res.TimedOut {
			c.Inconclusive(fmt.Sprintf("end-to-end case %d timed out", i))
			return
		}
		fail := func(f string, a ...any) {
			files := map[string][]byte{"output.txt": []byte(res.Out), "cmd.txt": []byte(strings.Join(args, "\n"))}
			c.Fail("", fmt.Sprintf("end-to-end case %d (%v): ", i, args)+fmt.Sprintf(f, a...), files)
		}
		type fset struct {
			path string
			idx  []int
		}
		var sets []func(ext string) (string, []int)
		if sep {
			for j := range dirs {
				j := j
				sets = append(sets, func(ext string) (string, []int) {
					if outDir != "" {
						return filepath.Join(outDir, fmt.Sprintf("suite%c_r.%s", 'a'+j, ext)), []int{j}
					}
					return filepath.Join(dirs[j], "r."+ext), []int{j}
				})
			}
		} else {
			sets = append(sets, func(ext string) (string, []int) {
				all := []int{}
				for j := range dirs {
					all = append(all, j)
				}
				if outDir != "" {
					return filepath.Join(outDir, "r."+ext), all
				}
				return filepath.Join(root, "r."+ext), all
			})
		}
		nspec := 0
		for _, set := range sets {
			jf, idx := set("json")
			jb, err := os.ReadFile(jf)
			if err != nil {
				fail("no JSON report: %v\n%s", err, trunc(res.Out, 3000))
				return
			}
			var reps []types.Report
			if err := json.Unmarshal(jb, &reps); err != nil || len(reps) != len(idx) {
				fail("%s: %d suites, want %d (%v)", jf, len(reps), len(idx), err)
				return
			}
			var want []junitWant
			for k, rep := range reps {
				want = append(want, junitWant{rep: rep})
				// the program's own account: what each spec wrote, entered, failed with
				if d := truthDiff(dirs[idx[k]], rep); d != "" {
					fail("suite %d: %s", idx[k], d)
					return
				}
				nspec += len(rep.SpecReports)
			}
			for _, x := range []struct {
				ext string
				chk func([]byte, []junitWant) []string
			}{{"xml", checkJUnit}, {"tc", checkTC}} {
				f, _ := set(x.ext)
				b, err := os.ReadFile(f)
				if err != nil {
					fail("no %s report: %v", x.ext, err)
					return
				}
				if bad := x.chk(b, want); bad != nil {
					fail("%s: %s", f, strings.Join(bad, "\n  "))
					return
				}
			}
		}
		// nothing else is left behind
		for _, d := range append(dirs, root, outDir) {
			ents, _ := os.ReadDir(d)
			for _, e := range ents {
				nm := e.Name()
				if strings.Contains(nm, "r.json") || strings.Contains(nm, "r.xml") || strings.Contains(nm, "r.tc") {
					okf := false
					for _, set := range sets {
						for _, ext := range []string{"json", "xml", "tc"} {
							p, _ := set(ext)
							okf = okf || p == filepath.Join(d, nm)
						}
					}
					if !okf {
						fail("left behind: %s", filepath.Join(d, nm))
						return
					}
				}
			}
		}
		c.Eval(fmt.Sprintf("e2e/%d/%d/%v/%v/%d", nsuites, procs, sep, outDir != "", nspec))
		c.Count("end-to-end specs", nspec)
	})
}

// hostileSuite is a suite whose bodies write, report and fail with hostile texts. Subjects carry their id in their text.
func hostileSuite(r *rand.Rand, i, j int) *sdoc.Suite {
	o := genOpts{utf8: true, esc: true, braces: true}
	s := &sdoc.Suite{Desc: "D" + hText(r, o, 3)}
	if r.Intn(2) == 0 {
		s.Labels = []string{"suite label", "x"}
	}
	id := 0
	nid := func() int { id++; return id }
	body := func(it int) []sdoc.Act {
		var b []sdoc.Act
		for n := r.Intn(5); n > 0; n-- {
			t := fmt.Sprintf("s%d-", it) + hText(r, o, 5)
			switch r.Intn(5) {
			case 0, 1:
				b = append(b, sdoc.Act{K: "gw", S: t})
			case 2:
				b = append(b, sdoc.Act{K: "by", S: t})
			case 3:
				b = append(b, sdoc.Act{K: "entry", S: t, V: []string{"", "str", "map", "struct", "chan", "nan", "bigint"}[r.Intn(7)], A: []string{hText(r, o, 3)}})
			case 4:
				b = append(b, sdoc.Act{K: "stdout", S: t + "\n"})
			}
		}
		switch r.Intn(6) {
		case 0:
			b = append(b, sdoc.Act{K: "fail", S: "F" + hText(r, o, 6)})
		case 1:
			b = append(b, sdoc.Act{K: "panic", S: "P" + hText(r, o, 6)})
		case 2:
			b = append(b, sdoc.Act{K: "skip", S: "K" + hText(r, o, 6)})
		}
		return b
	}
	loc := func() sdoc.Loc { return sdoc.Loc{F: "/synthetic/h.go", L: nid()} }
	it := func() *sdoc.Node {
		k := nid()
		n := &sdoc.Node{ID: k, K: "it", Text: fmt.Sprintf("S%d ", k) + hText(r, o, 4), Loc: loc(), Body: body(k)}
		if r.Intn(8) == 0 {
			n.Pending = true
		}
		if r.Intn(3) == 0 {
			n.Labels = []string{"lab", "owner:me"}
		}
		return n
	}
	for n := 1 + r.Intn(3); n > 0; n-- {
		ct := &sdoc.Node{ID: nid(), K: "container", Text: hText(r, o, 3), Loc: loc()}
		if r.Intn(2) == 0 {
			ct.Labels = []string{"con<tainer>"}
		}
		for m := 1 + r.Intn(3); m > 0; m-- {
			ct.Kids = append(ct.Kids, it())
		}
		s.Top = append(s.Top, ct)
	}
	if r.Intn(3) == 0 {
		s.Top = append(s.Top, &sdoc.Node{ID: nid(), K: "AfterSuite", Loc: loc(), Body: []sdoc.Act{{K: "gw", S: "after-suite " + hText(r, o, 2)}}})
	}
	if r.Intn(3) == 0 {
		s.Top = append(s.Top, &sdoc.Node{ID: nid(), K: "BeforeSuite", Loc: loc(), Body: []sdoc.Act{{K: "entry", S: "bs-entry"}}})
	}
	return s
}

// truthDiff compares a reported suite with the suite description that produced it.
func truthDiff(dir string, rep types.Report) string {
	b, err := os.ReadFile(filepath.Join(dir, "suite.json"))
	if err != nil {
		return err.Error()
	}
	var s sdoc.Suite
	json.Unmarshal(b, &s)
	if rep.SuiteDescription != s.Desc {
		return fmt.Sprintf("report for %q where %q should be", rep.SuiteDescription, s.Desc)
	}
	type wantSpec struct {
		gw, msg string
		state   types.SpecState
		entries []string
		by      []string
		found   int
	}
	want := map[int]*wantSpec{}
	s.Walk(func(n *sdoc.Node, _ []*sdoc.Node) {
		if n.K != "it" {
			return
		}
		w := &wantSpec{state: types.SpecStatePassed}
		if n.Pending {
			w.state = types.SpecStatePending
		} else {
			for _, a := range n.Body {
				switch a.K {
				case "gw":
					w.gw += a.S
				case "by":
					w.by = append(w.by, a.S)
				case "entry":
					w.entries = append(w.entries, a.S)
				case "fail":
					w.state, w.msg = types.SpecStateFailed, a.S
				case "panic":
					w.state, w.msg = types.SpecStatePanicked, a.S
				case "skip":
					w.state, w.msg = types.SpecStateSkipped, a.S
				}
			}
		}
		want[n.ID] = w
	})
	for _, sp := range rep.SpecReports {
		if sp.LeafNodeType != types.NodeTypeIt {
			continue
		}
		var id int
		fmt.Sscanf(sp.LeafNodeText, "S%d", &id)
		w := want[id]
		if w == nil {
			return "unknown spec " + sp.LeafNodeText
		}
		w.found++
		var ents, by []string
		for _, e := range sp.ReportEntries {
			ents = append(ents, e.Name)
		}
		for _, e := range sp.SpecEvents {
			if e.SpecEventType == types.SpecEventByStart {
				by = append(by, e.Message)
			}
		}
		msg := sp.Failure.Message
		if sp.State == types.SpecStatePanicked {
			msg = sp.Failure.ForwardedPanic
		}
		if sp.State != w.state || sp.CapturedGinkgoWriterOutput != w.gw || msg != w.msg || fmt.Sprintf("%q", ents) != fmt.Sprintf("%q", w.entries) || fmt.Sprintf("%q", by) != fmt.Sprintf("%q", w.by) {
			return fmt.Sprintf("spec %d: reported %v %q out %q entries %q steps %q, the program did %v %q out %q entries %q steps %q", id, sp.State, msg, sp.CapturedGinkgoWriterOutput, ents, by, w.state, w.msg, w.gw, w.entries, w.by)
		}
	}
	for id, w := range want {
		if w.found != 1 {
			return fmt.Sprintf("spec %d is reported %d times", id, w.found)
		}
	}
	return ""
}

package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/onsi/ginkgo/v2/internal/zzverif/sdoc"
)

func parWorkers() int { return 5 }

// delays sprinkles sleeps over node bodies so that processes progress at different speeds.
func delays(r *rand.Rand, s *sdoc.Suite, procs, maxMS int, p float64) {
	s.Walk(func(n *sdoc.Node, _ []*sdoc.Node) {
		if n.K == "container" || r.Float64() > p {
			return
		}
		a := sdoc.Act{K: "sleep", N: 1 + r.Intn(maxMS)}
		if r.Intn(2) == 0 {
			a.Proc = []int{1 + r.Intn(procs)}
		}
		n.Body = append([]sdoc.Act{a}, n.Body...)
		if strings.HasPrefix(n.K, "Synchronized") {
			b := a
			b.N = 1 + r.Intn(maxMS)
			b.Proc = []int{1 + r.Intn(procs)}
			n.Body2 = append([]sdoc.Act{b}, n.Body2...)
		}
	})
}

// effSerial: a spec runs in the serial phase if its execution group is marked serial.
func effSerial(m *mspec) bool {
	if m.ordered == nil {
		return m.serial
	}
	for _, c := range m.conts {
		if c.Serial {
			return true
		}
		if c == m.ordered {
			break
		}
	}
	return false
}

func (c *Ctx) runRetry(s *sdoc.Suite, o RunOpts) *SuiteRun {
	run := c.runSuite(s, o)
	if run.Res.TimedOut {
		// a loaded machine is not a hang: once more, alone, with a generous limit
		run.Clean()
		o.Limit = 300 * time.Second
		soloMu.Lock()
		run = c.runSuite(s, o)
		soloMu.Unlock()
	}
	return run
}

func declOrder(specs []*mspec) []int {
	var out []int
	seen := map[*sdoc.Node]bool{}
	for _, m := range specs {
		if m.ordered == nil {
			out = append(out, m.it.ID)
		} else if !seen[m.ordered] {
			seen[m.ordered] = true
			for _, k := range specs {
				if k.ordered == m.ordered {
					out = append(out, k.it.ID)
				}
			}
		}
	}
	return out
}

// compareParallel checks a parallel run of a deterministic suite (no aborts) against the reference.
func compareParallel(s *sdoc.Suite, cfg *Cfg, procs int, run *SuiteRun) (*Expect, []Diff) {
	d := &diffs{}
	if run.Res.TimedOut {
		d.add("hang", "the run did not finish")
	}
	if run.Report == nil {
		d.add("noreport", "no JSON report: %s (exit %d)\n%s", run.RepErr, run.Res.Exit, trunc(run.Res.Out, 2500))
		return nil, d.d
	}
	specs := flatten(s)
	x := simulate(s, cfg, declOrder(specs))
	nodes := nodeByID(s)
	by := map[int]*mspec{}
	for _, m := range specs {
		by[m.it.ID] = m
	}
	grp := func(id int) int {
		if m := by[id]; m != nil && m.ordered != nil {
			return m.ordered.ID
		}
		return id
	}
	// bodies per group: expected sequence, one process
	want := map[int][]string{}
	for _, e := range x.Events {
		if e.Spec != 0 {
			want[grp(e.Spec)] = append(want[grp(e.Spec)], fmt.Sprintf("%d.%d spec %d inv %d att %d", e.N, e.Part, e.Spec, e.Inv, e.Att))
		}
	}
	got := map[int][]string{}
	procOf := map[int]int{}
	lastOther, firstSerial := int64(0), int64(0)
	suiteEv := map[string]int{}
	for _, e := range run.Events {
		if e.P != 1 && e.T > lastOther {
			lastOther = e.T
		}
		if e.E != "enter" {
			continue
		}
		if e.Spec == 0 {
			suiteEv[fmt.Sprintf("%d.%d@%d", e.N, e.Part, e.P)]++
			continue
		}
		g := grp(e.Spec)
		got[g] = append(got[g], fmt.Sprintf("%d.%d spec %d inv %d att %d", e.N, e.Part, e.Spec, e.Inv, e.Att))
		if p, ok := procOf[g]; ok && p != e.P {
			d.add("twice", "specs of group %d were executed on processes %d and %d", g, p, e.P)
		}
		procOf[g] = e.P
		if m := by[e.Spec]; m != nil && effSerial(m) {
			if e.P != 1 {
				d.add("serial", "serial spec %d ran on process %d", e.Spec, e.P)
			}
			if firstSerial == 0 || e.T < firstSerial {
				firstSerial = e.T
			}
		}
	}
	if firstSerial != 0 && firstSerial < lastOther {
		d.add("serial", "a serial spec started %.1f ms before another process was done", float64(lastOther-firstSerial)/1e6)
	}
	for g := range mergeKeys(want, got) {
		w, h := strings.Join(want[g], "; "), strings.Join(got[g], "; ")
		if w != h {
			d.add("bodies", "group %d executed [%s], expected [%s]", g, h, w)
		}
	}
	// reports: each spec exactly once, content as in the serial reference
	rep := run.Report
	exp := map[int]*XRep{}
	expSuite := map[string]*XRep{}
	for i := range x.Reps {
		r := &x.Reps[i]
		if r.Kind == "It" {
			exp[r.ID] = r
		} else if r.Kind != "DeferCleanup (Suite)" {
			expSuite[r.Kind+nodes[r.ID].Text] = r
		}
	}
	seen := map[int]int{}
	suiteSeen := map[string]int{}
	for i := range rep.SpecReports {
		r := &rep.SpecReports[i]
		if r.LeafNodeType != "It" {
			suiteSeen[fmt.Sprintf("%s%s@%d", r.LeafNodeType, r.LeafNodeText, r.ParallelProcess)]++
			if e := expSuite[r.LeafNodeType+r.LeafNodeText]; e != nil && r.State != e.State {
				d.add("state", "%s on process %d: state %s, expected %s", r.LeafNodeType, r.ParallelProcess, r.State, e.State)
			}
			continue
		}
		id := leafID(r.LeafNodeText)
		seen[id]++
		e := exp[id]
		if e == nil {
			d.add("reportset", "unexpected report of spec %d", id)
			continue
		}
		if p, ok := procOf[grp(id)]; ok && p != r.ParallelProcess {
			d.add("proc", "spec %d ran on process %d but is reported for process %d", id, p, r.ParallelProcess)
		}
		var evs []sdoc.Event
		for _, ev := range run.Events {
			if ev.E == "act" && ev.Spec == id {
				evs = append(evs, ev)
			}
		}
		cmpRep(d, nodes, evs, e, r)
	}
	for id := range exp {
		if seen[id] != 1 {
			d.add("reportset", "spec %d is reported %d times", id, seen[id])
		}
	}
	// suite nodes per process
	if x.Will > 0 {
		for _, n := range s.Top {
			for p := 1; p <= procs; p++ {
				w := map[int]int{} // part -> runs
				switch n.K {
				case "BeforeSuite", "AfterSuite":
					w[0] = 1
				case "SynchronizedBeforeSuite":
					w[2] = 1
					if p == 1 {
						w[1] = 1
					}
				case "SynchronizedAfterSuite":
					w[1] = 1
					if p == 1 {
						w[2] = 1
					}
				default:
					continue
				}
				for part := 0; part < 3; part++ {
					if k := suiteEv[fmt.Sprintf("%d.%d@%d", n.ID, part, p)]; k != w[part] && x.OK {
						d.add("suitenodes", "%s part %d ran %d times on process %d, expected %d", n.K, part, k, p, w[part])
					}
				}
				if k := suiteSeen[fmt.Sprintf("%s@%d", n.K, p)]; k != 1 && x.OK {
					d.add("reportset", "%s of process %d is reported %d times", n.K, p, k)
				}
			}
		}
	}
	for _, n := range s.Top {
		if n.K == "ReportBeforeSuite" || n.K == "ReportAfterSuite" {
			for p := 1; p <= procs; p++ {
				w := 0
				if p == 1 {
					w = 1
				}
				if k := suiteEv[fmt.Sprintf("%d.0@%d", n.ID, p)]; k != w {
					d.add("suitenodes", "%s %d ran %d times on process %d, expected %d", n.K, n.ID, k, p, w)
				}
			}
		}
	}
	// the report handed to reporting nodes after the suite is the complete one
	for _, e := range run.Events {
		if n := nodes[e.N]; e.E == "enter" && n != nil && n.K == "ReportAfterSuite" {
			js, _, _ := strings.Cut(e.X, "|ctx=")
			var m struct {
				Specs []struct{ Leaf, Type, State string }
				Total int
				Will  int
			}
			json.Unmarshal([]byte(js), &m)
			var l, w []string
			for _, q := range m.Specs {
				if q.Type == "It" {
					l = append(l, fmt.Sprintf("%d:%s", leafID(q.Leaf), q.State))
				}
			}
			for id, q := range exp {
				w = append(w, fmt.Sprintf("%d:%s", id, q.State))
			}
			sort.Strings(l)
			sort.Strings(w)
			if strings.Join(l, " ") != strings.Join(w, " ") {
				d.add("suitereport", "ReportAfterSuite received %v, expected %v", l, w)
			}
		}
	}
	if rep.PreRunStats.TotalSpecs != x.Total || rep.PreRunStats.SpecsThatWillRun != x.Will {
		d.add("selection", "pre-run stats %+v, expected %d %d", rep.PreRunStats, x.Total, x.Will)
	}
	if rep.SuiteSucceeded != x.OK {
		d.add("success", "suite succeeded=%v, expected %v", rep.SuiteSucceeded, x.OK)
	}
	exit := 0
	if !x.OK {
		exit = 1
	} else if x.HasFocus {
		exit = 197
	}
	if run.Res.Exit != exit {
		d.add("exit", "exit status %d, expected %d\n%s", run.Res.Exit, exit, trunc(run.Res.Out, 1500))
	}
	// console totals
	n := map[string]int{}
	for _, q := range exp {
		n[q.State]++
	}
	nfail := n["failed"] + n["panicked"] + n["aborted"] + n["timedout"] + n["interrupted"]
	if len(exp) > 0 {
		if m := reRan.FindStringSubmatch(run.Res.Out); m == nil || m[1] != fmt.Sprint(n["passed"]+nfail) || m[2] != fmt.Sprint(x.Total) {
			d.add("totals", "output says %q, expected %d of %d", m, n["passed"]+nfail, x.Total)
		}
		if t := reTot.FindStringSubmatch(run.Res.Out); t == nil || t[1] != fmt.Sprint(n["passed"]) || t[2] != fmt.Sprint(nfail) || t[5] != fmt.Sprint(n["pending"]) || t[6] != fmt.Sprint(n["skipped"]) {
			d.add("totals", "output says %q, expected %v", t, n)
		}
	}
	return x, d.d
}

func mergeKeys[V any](a, b map[int]V) map[int]bool {
	o := map[int]bool{}
	for k := range a {
		o[k] = true
	}
	for k := range b {
		o[k] = true
	}
	return o
}

// schedSig identifies the cross-process interleaving of spec bodies that was observed.
func schedSig(run *SuiteRun) string {
	var sb strings.Builder
	for _, e := range run.Events {
		if e.E == "enter" {
			fmt.Fprintf(&sb, "%d:%d/%d;", e.P, e.N, e.Part)
		}
	}
	return sigHash(sb.String())
}

func overlapCount(run *SuiteRun) int {
	active := map[int]bool{}
	n := 0
	for _, e := range run.Events {
		if e.E == "enter" {
			for p := range active {
				if p != e.P {
					n++
					break
				}
			}
			active[e.P] = true
		} else if e.E == "exit" {
			delete(active, e.P)
		}
	}
	return n
}

func parOpts(r *rand.Rand, procs int) RunOpts {
	o := RunOpts{Procs: procs, HTTP: r.Intn(2) == 0, Limit: 90 * time.Second}
	if r.Intn(3) == 0 {
		o.Env = append(o.Env, fmt.Sprintf("GOMAXPROCS=%d", 1+r.Intn(2)))
	}
	return o
}

func checkC10(c *Ctx) {
	parallelDo(N(320, 12000), parWorkers(), func(i int) {
		r := rng("C10", i)
		g := defaultG
		g.Specs, g.Abort, g.SuiteStop, g.ReportStop = 12, 0, 0, 0
		g.SuiteNodes, g.RSuite, g.Serial = .5, .3, .12
		g.Focus, g.Pending, g.Locs = .02, .06, r.Intn(2) == 0
		s := genSuite(r, g)
		cfg := genCfg(r, s, CG{RandAll: .4, Filters: .06, Flake: .08, FailOnPending: .03})
		procs := 2 + r.Intn(4)
		delays(r, s, procs, []int{2, 15, 60}[r.Intn(3)], .4)
		o := parOpts(r, procs)
		o.Args = cfg.Args()
		run := c.runRetry(s, o)
		x, ds := compareParallel(s, cfg, procs, run)
		if len(ds) > 0 {
			var l []string
			for _, d := range ds {
				l = append(l, d.Cat+": "+d.Msg)
			}
			c.Fail("", fmt.Sprintf("case %d seed %d procs %d http %v args %v:\n%s", i, *flagSeed, procs, o.HTTP, cfg.Args(), strings.Join(l, "\n")), run.Files())
		}
		if x != nil {
			c.Count("spec reports compared", len(x.Reps))
			c.Count("bodies observed", len(x.Events))
			c.Count("bodies entered while another process was inside one", overlapCount(run))
			c.Count(fmt.Sprintf("runs on %d processes", procs), 1)
			if o.HTTP {
				c.Count("runs over HTTP", 1)
			}
			c.Eval(schedSig(run))
			c.Sample(map[string]any{"case": i, "procs": procs, "http": o.HTTP, "specs": x.Total, "success": x.OK})
		} else {
			c.Eval("")
		}
		run.Clean()
	})
}

// ---------------------------------------------------------------- C11

func payloadSum(n int) string {
	b := make([]byte, n)
	x := uint32(n)*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 16)
	}
	h := uint64(14695981039346656037)
	for _, v := range b {
		h = (h ^ uint64(v)) * 1099511628211
	}
	return fmt.Sprintf("data=%d:%x", n, h)
}

func checkC11(c *Ctx) {
	outcomes := []string{"pass", "pass", "pass", "fail", "panic", "skip", "exit", "kill", "gocrash", "goexit", "failproc", "abort", "timeout"}
	parallelDo(N(260, 9000), parWorkers(), func(i int) {
		r := rng("C11", i)
		procs := 2 + r.Intn(4)
		out := outcomes[i%len(outcomes)]
		size := []int{0, 1, 7, 255, 4096, 70000, 1 << 20, 3 << 20}[r.Intn(8)]
		nilp := r.Intn(10) == 0
		s := &sdoc.Suite{Desc: "sync"}
		id := 0
		nid := func() int { id++; return id }
		sl := func(max int, ps ...int) sdoc.Act { return sdoc.Act{K: "sleep", N: 1 + r.Intn(max), Proc: ps} }
		sbs := &sdoc.Node{ID: nid(), K: "SynchronizedBeforeSuite", Ctx: r.Intn(3) == 0}
		sbs.Body = []sdoc.Act{{K: "payload", N: size, V: map[bool]string{true: "nil"}[nilp]}, sl([]int{3, 120}[r.Intn(2)])}
		die := sdoc.Act{S: "boom", N: 3}
		switch out {
		case "fail", "panic", "skip", "goexit", "exit", "kill", "gocrash", "abort":
			die.K = out
			sbs.Body = append(sbs.Body, die)
		case "timeout":
			sbs.Ctx, sbs.NodeTimeout = true, 300
			sbs.Body = append(sbs.Body, sdoc.Act{K: "waitctx", N: 20000})
		case "failproc":
			sbs.Body2 = append(sbs.Body2, sdoc.Act{K: "fail", S: "boom", Proc: []int{1 + r.Intn(procs)}})
		}
		sbs.Body2 = append([]sdoc.Act{sl([]int{3, 60}[r.Intn(2)], 1+r.Intn(procs))}, sbs.Body2...)
		asFails := false
		sas := &sdoc.Node{ID: nid(), K: "SynchronizedAfterSuite", Ctx: r.Intn(3) == 0}
		sas.Body = []sdoc.Act{sl([]int{3, 150}[r.Intn(2)], 1+r.Intn(procs))}
		if r.Intn(3) == 0 {
			asFails = true
			sas.Body = append(sas.Body, sdoc.Act{K: "fail", S: "as", Proc: []int{1 + r.Intn(procs)}})
		}
		if r.Intn(3) == 0 {
			sbs.Body2 = append(sbs.Body2, sdoc.Act{K: "defer", ID: nid(), B: []sdoc.Act{sl(40)}})
		}
		s.Top = append(s.Top, sbs)
		nspec := 1 + r.Intn(8)
		for k := 0; k < nspec; k++ {
			q := nid()
			s.Top = append(s.Top, &sdoc.Node{ID: q, K: "it", Text: fmt.Sprintf("S%d", q), Serial: r.Intn(5) == 0, Body: []sdoc.Act{sl([]int{2, 30}[r.Intn(2)])}})
		}
		s.Top = append(s.Top, sas)
		if r.Intn(3) == 0 {
			s.Top = append(s.Top, &sdoc.Node{ID: nid(), K: "ReportAfterSuite", Text: "R"})
		}
		o := parOpts(r, procs)
		run := c.runRetry(s, o)
		fail := func(f string, a ...any) {
			c.Fail("", fmt.Sprintf("case %d seed %d procs %d http %v payload %d nil %v first body: %s: ", i, *flagSeed, procs, o.HTTP, size, nilp, out)+fmt.Sprintf(f, a...), run.Files())
		}
		var first, firstExit int64
		firstRuns, its := 0, 0
		second := map[int]int{}
		asAll := map[int]int{}
		asLast, asLastStart := 0, int64(0)
		lastOther := int64(0)
		firstOK := false
		for _, e := range run.Events {
			if e.P != 1 {
				lastOther = max(lastOther, e.T)
			}
			switch {
			case e.N == sbs.ID && e.Part == 1 && e.E == "enter":
				firstRuns++
				first = e.T
				if e.P != 1 {
					fail("first body ran on process %d", e.P)
				}
			case e.N == sbs.ID && e.Part == 1 && e.E == "exit":
				firstExit, firstOK = e.T, e.OK
			case e.N == sbs.ID && e.Part == 2 && e.E == "enter":
				second[e.P]++
				if firstExit == 0 || e.T < firstExit || !firstOK {
					fail("second body started on process %d before the first body had succeeded", e.P)
				}
				want := payloadSum(size)
				if nilp {
					want = payloadSum(0)
				}
				if got, _, _ := strings.Cut(e.X, "|"); strings.TrimSuffix(strings.TrimSuffix(got, ":true"), ":false") != want {
					fail("process %d received %s, expected %s", e.P, e.X, want)
				}
				c.Count("payload deliveries verified", 1)
			case e.N == sas.ID && e.Part == 1 && e.E == "enter":
				asAll[e.P]++
			case e.N == sas.ID && e.Part == 2 && e.E == "enter":
				asLast++
				asLastStart = e.T
				if e.P != 1 {
					fail("final body of SynchronizedAfterSuite ran on process %d", e.P)
				}
			case e.E == "enter" && e.Spec != 0 && e.N == e.Spec:
				its++
			}
		}
		if run.Res.TimedOut {
			fail("the run hangs")
		}
		if firstRuns != 1 || first == 0 {
			fail("first body ran %d times", firstRuns)
		}
		if asLastStart != 0 && lastOther > asLastStart {
			fail("final body of SynchronizedAfterSuite started %.2f ms before another process was done", float64(lastOther-asLastStart)/1e6)
		}
		if (out == "skip" || out == "pass") && (run.Res.Exit != 0) != asFails {
			fail("exit status %d (a body of SynchronizedAfterSuite fails: %v)", run.Res.Exit, asFails)
		}
		pass1 := out == "pass" || out == "failproc"
		if pass1 {
			for p := 1; p <= procs; p++ {
				if second[p] != 1 {
					fail("second body ran %d times on process %d", second[p], p)
				}
				if asAll[p] != 1 {
					fail("all-process body of SynchronizedAfterSuite ran %d times on process %d", asAll[p], p)
				}
			}
			if asLast != 1 {
				fail("final body of SynchronizedAfterSuite ran %d times", asLast)
			}
			if out == "pass" && its != nspec {
				fail("%d of %d specs ran", its, nspec)
			}
		} else {
			if len(second) > 0 || its > 0 {
				fail("the first body did not succeed, yet %d second bodies and %d specs ran", len(second), its)
			}
			if out != "skip" && run.Res.Exit == 0 {
				fail("exit status 0")
			}
			if out != "exit" && out != "kill" && out != "gocrash" {
				for p := 1; p <= procs; p++ {
					if asAll[p] != 1 {
						fail("all-process body of SynchronizedAfterSuite ran %d times on process %d", asAll[p], p)
					}
				}
				if asLast != 1 {
					fail("final body of SynchronizedAfterSuite ran %d times", asLast)
				}
			}
		}
		if out == "failproc" && run.Res.Exit == 0 {
			fail("exit status 0 although a process failed its setup")
		}
		c.Count("first body: "+out, 1)
		c.Eval(sigHash(out, size, nilp, procs, o.HTTP, schedSig(run)))
		if i < 4 {
			c.Sample(map[string]any{"case": i, "first body": out, "payload": size, "procs": procs, "http": o.HTTP, "exit": run.Res.Exit})
		}
		run.Clean()
	})
}

// ---------------------------------------------------------------- C13

// survivors lists processes that still run in the scratch directory of the case.
func survivors(dir string) []string {
	var out []string
	ents, _ := os.ReadDir("/proc")
	for _, e := range ents {
		pid, err := strconv.Atoi(e.Name())
		if err != nil || pid == os.Getpid() {
			continue
		}
		b, err := os.ReadFile(filepath.Join("/proc", e.Name(), "cmdline"))
		if err == nil && strings.Contains(string(b), dir+"/") {
			out = append(out, fmt.Sprintf("%d %s", pid, strings.ReplaceAll(string(b), "\x00", " ")))
		}
	}
	return out
}

func checkC13(c *Ctx) {
	points := []string{"BeforeSuite", "SBS1", "SBS2", "BeforeEach", "it", "AfterEach", "cleanup", "SpecReport", "AfterSuite", "SAS1", "SAS2", "ReportBeforeSuite", "ReportAfterSuite", "suitecleanup", "tree", "serial"}
	kinds := []string{"exit", "kill", "gocrash"}
	parallelDo(N(240, 8000), parWorkers(), func(i int) {
		r := rng("C13", i)
		point := points[i%len(points)]
		kind := kinds[(i/len(points))%3]
		procs := 2 + r.Intn(3)
		victim := 1 + (i/(len(points)*3))%procs
		if point == "SBS1" || point == "SAS2" || point == "ReportBeforeSuite" || point == "ReportAfterSuite" || point == "serial" {
			victim = 1
		}
		s := &sdoc.Suite{Desc: "crash"}
		id := 0
		nid := func() int { id++; return id }
		die := sdoc.Act{K: kind, N: []int{0, 1, 3, 197}[r.Intn(4)], Proc: []int{victim}}
		sl := func(max int) sdoc.Act { return sdoc.Act{K: "sleep", N: 1 + r.Intn(max)} }
		add := func(k string, at string) *sdoc.Node {
			n := &sdoc.Node{ID: nid(), K: k, Body: []sdoc.Act{sl(8)}}
			if at == point {
				n.Body = append(n.Body, die)
			}
			return n
		}
		useSync := strings.HasPrefix(point, "S") && strings.HasPrefix(point, "SBS") || r.Intn(2) == 0
		useSAS := strings.HasPrefix(point, "SAS") || r.Intn(2) == 0
		if point == "BeforeSuite" {
			useSync = false
		}
		if point == "AfterSuite" {
			useSAS = false
		}
		if useSync {
			n := &sdoc.Node{ID: nid(), K: "SynchronizedBeforeSuite", Body: []sdoc.Act{{K: "payload", N: 10}, sl(20)}, Body2: []sdoc.Act{sl(20)}}
			if point == "SBS1" {
				n.Body = append(n.Body, die)
			}
			if point == "SBS2" {
				n.Body2 = append(n.Body2, die)
			}
			s.Top = append(s.Top, n)
		} else {
			s.Top = append(s.Top, add("BeforeSuite", "BeforeSuite"))
		}
		if point == "suitecleanup" {
			s.Top[0].Body2 = append(s.Top[0].Body2, sdoc.Act{K: "defer", ID: nid(), B: []sdoc.Act{die}})
			if !useSync {
				s.Top[0].Body = append(s.Top[0].Body, s.Top[0].Body2...)
				s.Top[0].Body2 = nil
			}
		}
		if useSAS {
			n := &sdoc.Node{ID: nid(), K: "SynchronizedAfterSuite", Body: []sdoc.Act{sl(20)}, Body2: []sdoc.Act{sl(20)}}
			if point == "SAS1" {
				n.Body = append(n.Body, die)
			}
			if point == "SAS2" {
				n.Body2 = append(n.Body2, die)
			}
			s.Top = append(s.Top, n)
		} else {
			s.Top = append(s.Top, add("AfterSuite", "AfterSuite"))
		}
		if point == "ReportBeforeSuite" || r.Intn(3) == 0 {
			n := add("ReportBeforeSuite", "ReportBeforeSuite")
			s.Top = append(s.Top, n)
		}
		if point == "ReportAfterSuite" || r.Intn(3) == 0 {
			n := add("ReportAfterSuite", "ReportAfterSuite")
			n.Text = "RAS"
			s.Top = append(s.Top, n)
		}
		cont := &sdoc.Node{ID: nid(), K: "container", Text: "C"}
		be := &sdoc.Node{ID: nid(), K: "BeforeEach"}
		ae := &sdoc.Node{ID: nid(), K: "AfterEach"}
		cont.Kids = append(cont.Kids, be, ae)
		nspec := 4 + r.Intn(8)
		dieAt := r.Intn(nspec)
		if r.Intn(2) == 0 {
			die2 := die
			die2.Proc = nil // whichever process gets the chosen spec
			if point == "BeforeEach" || point == "it" || point == "AfterEach" || point == "cleanup" || point == "SpecReport" {
				die = die2
			}
		}
		for k := 0; k < nspec; k++ {
			q := nid()
			n := &sdoc.Node{ID: q, K: "it", Text: fmt.Sprintf("S%d x", q), Body: []sdoc.Act{sl([]int{2, 40}[r.Intn(2)])}, Serial: r.Intn(6) == 0}
			if k == dieAt || (len(die.Proc) > 0 && k >= dieAt) {
				if point == "it" {
					n.Body = append(n.Body, die)
				}
				if point == "cleanup" {
					n.Body = append([]sdoc.Act{{K: "defer", ID: nid(), B: []sdoc.Act{die}}}, n.Body...)
				}
				if point == "serial" {
					n.Serial = true
					n.Body = append(n.Body, die)
				}
				q := die
				q.Spec = []int{n.ID}
				switch point {
				case "BeforeEach":
					be.Body = append(be.Body, q)
				case "AfterEach":
					ae.Body = append(ae.Body, q)
				case "SpecReport":
					if len(cont.Kids) < 3 || cont.Kids[2].K != "ReportAfterEach" {
						cont.Kids = append(cont.Kids[:2:2], append([]*sdoc.Node{{ID: nid(), K: []string{"ReportAfterEach", "ReportBeforeEach"}[0]}}, cont.Kids[2:]...)...)
					}
					cont.Kids[2].Body = append(cont.Kids[2].Body, q)
				}
			}
			cont.Kids = append(cont.Kids, n)
		}
		s.Top = append(s.Top, cont)
		if point == "tree" {
			s.Env = map[string]string{"VERIF_DIE_TREE": fmt.Sprintf("%d:%s", victim, kind)}
		}
		o := parOpts(r, procs)
		if r.Intn(3) == 0 {
			o.Args = append(o.Args, "output-interceptor-mode=none")
		}
		o.Args = append(o.Args, "v")
		o.Limit = 60 * time.Second
		run := c.runRetry(s, o)
		died := 0
		for _, e := range run.Events {
			if e.E == "die" {
				died++
			}
		}
		fail := func(f string, a ...any) {
			c.Fail("", fmt.Sprintf("case %d seed %d: %s at %s on process %d of %d (http %v): ", i, *flagSeed, kind, point, victim, procs, o.HTTP)+fmt.Sprintf(f, a...)+"\n"+trunc(run.Res.Out, 3000), run.Files())
		}
		if run.Res.TimedOut {
			fail("the run hangs")
		}
		if len(run.Res.Survivors) > 0 {
			fail("processes survive the run: %v", run.Res.Survivors)
		}
		if died > 0 {
			if run.Res.Exit == 0 && !run.Res.TimedOut {
				fail("exit status 0 although a process disappeared")
			}
			if !strings.Contains(run.Res.Out, "timed out waiting for all parallel procs to report back") && !strings.Contains(run.Res.Out, "disappeared") {
				fail("the user is not told that a process disappeared")
			}
			if run.Report != nil && run.Report.SuiteSucceeded {
				fail("the JSON report claims success")
			}
			// a spec after which its process went on to another one had been delivered: it is on the console exactly once
			if point != "tree" {
				lines := map[string]int{}
				for _, l := range strings.Split(run.Res.Out, "\n") {
					lines[strings.TrimSuffix(l, " [Serial]")]++
				}
				last := map[int]int{}
				done := map[int]bool{}
				for _, e := range run.Events {
					if e.E == "enter" && e.Spec != 0 {
						if p := last[e.P]; p != 0 && p != e.Spec {
							done[p] = true
						}
						last[e.P] = e.Spec
					}
				}
				for id := range done {
					c.Count("delivered results looked up", 1)
					if k := lines[fmt.Sprintf("C S%d x", id)]; k != 1 {
						fail("spec S%d was finished and delivered before the death but is shown %d times", id, k)
					}
				}
			}
			c.Count("deaths observed", 1)
			c.Eval(sigHash(point, kind, victim == 1, procs, o.HTTP, schedSig(run)))
		} else {
			if run.Res.Exit != 0 && !run.Res.TimedOut {
				fail("nothing died but the exit status is %d", run.Res.Exit)
			}
			c.Count("runs where the crash point was not reached", 1)
			c.Eval("")
		}
		c.Count("point "+point, 1)
		c.Count("kind "+kind, 1)
		if i < 4 {
			c.Sample(map[string]any{"case": i, "point": point, "kind": kind, "victim": victim, "procs": procs, "exit": run.Res.Exit, "wall_ms": run.Res.Wall.Milliseconds()})
		}
		run.Clean()
	})
}

func init() {
	checks["C10"] = Check{Level: "exploration", Rule: "distinct observed interleavings: hash of the sequence (process, node) of all bodies entered, over all processes by a common clock", Run: checkC10}
	checks["C11"] = Check{Level: "fault_enumeration", Rule: "distinct (outcome of the first body, payload, process count, protocol, observed interleaving)", Run: checkC11}
	checks["C13"] = Check{Level: "fault_enumeration", Rule: "distinct (crash point, way of dying, victim, process count, protocol, observed interleaving) in which the death really happened", Run: checkC13}
}

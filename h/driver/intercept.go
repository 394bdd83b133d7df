package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/onsi/ginkgo/v2/internal"
	"github.com/onsi/ginkgo/v2/internal/zzverif/sdoc"
	"github.com/onsi/ginkgo/v2/types"
)

// C18: output interception. Part 1: child processes of the driver run random histories of start/stop/pause/resume/
// shutdown with writes of every kind on both implementations and compare every returned text, the forwarded copy, the
// original streams and the number of descriptors and goroutines with a model. Part 2: parallel runs of suites that
// write known bytes; reports, the processes' original streams and the console are compared with what was written.

func init() {
	checks["C18"] = Check{Level: "exploration", Run: runC18,
		Rule:   "histories: distinct by the sequence of calls; runs: distinct by the sequence of writes, pauses and options",
		Assume: []string{"output of processes that outlive the spec is given up after a second, as documented, together with the rest of that capture", "a capture that is given up on a loaded machine without such a process is retried, and reported when it happens three times"}}
	if s := os.Getenv("VERIF_INTERCEPT_CHILD"); s != "" {
		n, _ := strconv.ParseInt(s, 10, 64)
		interceptChild(n)
		os.Exit(0)
	}
}

func runC18(c *Ctx) {
	parallelDo(N(160, 4000), workers(), func(i int) {
		for try := 0; ; try++ {
			dir := filepath.Join(*flagWork, fmt.Sprintf("ic%d", i))
			os.RemoveAll(dir)
			os.MkdirAll(dir, 0755)
			seed := rng("C18", i).Int63n(1 << 40)
			self, _ := os.Executable()
			res := runCmd(dir, []string{fmt.Sprintf("VERIF_INTERCEPT_CHILD=%d", seed)}, 100*time.Second, self)
			b, err := os.ReadFile(filepath.Join(dir, "result.json"))
			var r struct {
				Bad, Sig string
				Counts   map[string]int
				Bailouts int
			}
			if err == nil {
				err = json.Unmarshal(b, &r)
			}
			os.RemoveAll(dir)
			if res.TimedOut {
				if try < 2 {
					continue
				}
				c.Fail("", fmt.Sprintf("history %d (seed %d) does not end:\n%s", i, seed, trunc(res.Out, 2000)), nil)
				return
			}
			if err != nil {
				c.Fail("", fmt.Sprintf("history %d (seed %d): the process died (exit %d):\n%s", i, seed, res.Exit, trunc(res.Out, 2000)), nil)
				return
			}
			if r.Bailouts > 0 && try < 2 {
				continue
			}
			c.Eval("h" + sigHash(r.Sig))
			for k, v := range r.Counts {
				c.Count(k, v)
			}
			if r.Bad != "" {
				c.Fail("", fmt.Sprintf("history %d (seed %d): %s", i, seed, r.Bad), nil)
			}
			return
		}
	})
	if *flagOnly < 0 || *flagOnly >= 1000000 {
		interceptRuns(c)
	}
}

func nfds() int { e, _ := os.ReadDir("/proc/self/fd"); return len(e) }

// interceptChild runs one history in its own process and writes result.json.
func interceptChild(seed int64) {
	r := rand.New(rand.NewSource(seed))
	res := map[string]any{}
	counts := map[string]int{}
	var hist []string
	bad, bailouts := "", 0
	for k, fd := range map[string]int{"orig1": 1, "orig2": 2} {
		f, err := os.OpenFile(k, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
		if err != nil {
			os.Exit(9)
		}
		syscall.Dup2(int(f.Fd()), fd)
		f.Close()
	}
	swap := r.Intn(3) == 0
	mk := internal.NewOutputInterceptor
	if swap {
		mk = internal.NewOSGlobalReassigningOutputInterceptor
	}
	exec.Command("/bin/true").Run() // whatever the runtime opens for itself
	in := mk()
	fds0, gor0 := nfds(), runtime.NumGoroutine()
	inter, started := false, false
	var acc, fwdWant []gwItem
	var fwd *lb
	orig := [3][]gwItem{}
	add := func(stream int, raw bool, it gwItem) {
		if inter && !(swap && raw) {
			acc = append(acc, it)
			if fwd != nil {
				fwdWant = append(fwdWant, it)
			}
		} else {
			orig[stream] = append(orig[stream], it)
		}
	}
	id := 0
	chunk := func(max int) []byte {
		id++
		return append([]byte(fmt.Sprintf("<%d>", id)), anyBytes(r, max)...)
	}
	check := func(got string) {
		if strings.Contains(got, "Ginkgo detected an issue") {
			bailouts++
		}
		if d := matchItems(acc, []byte(got), asIs); d != "" && bad == "" {
			bad = fmt.Sprintf("after %v: returned output: %s", hist, d)
		}
		if fwd != nil && bad == "" {
			if d := matchItems(fwdWant, fwd.get(), asIs); d != "" {
				bad = fmt.Sprintf("after %v: forwarded output: %s", hist, d)
			}
		}
	}
	n := 20 + r.Intn(60)
	long := r.Intn(4) == 0
	if long {
		n = 400
	}
	kids := 0
	for ; n > 0 && bad == ""; n-- {
		k := r.Intn(24)
		if long && k > 12 {
			k = k % 7
		}
		if !started && (k == 4 || k == 5) {
			k = 0
		}
		hist = append(hist, strconv.Itoa(k))
		switch k {
		case 0, 1:
			in.StartInterceptingOutput()
			if !inter {
				acc, fwd, inter = nil, nil, true
			}
			started = true
		case 2:
			b := &lb{}
			in.StartInterceptingOutputAndForwardTo(b)
			if !inter {
				acc, fwd, fwdWant, inter = nil, b, nil, true
			}
			started = true
		case 3:
			got := in.StopInterceptingAndReturnOutput()
			inter = false
			check(got)
		case 4:
			in.ResumeIntercepting()
			inter = true
		case 5:
			in.PauseIntercepting()
			inter = false
		case 6:
			if r.Intn(3) == 0 {
				in.Shutdown()
				inter = false
			}
		case 7, 8:
			b := chunk(60)
			os.Stdout.Write(b)
			add(1, false, gwItem{seq: b})
		case 9, 10:
			b := chunk(60)
			os.Stderr.Write(b)
			add(2, false, gwItem{seq: b})
		case 11:
			b := chunk(60)
			syscall.Write(1, b)
			add(1, true, gwItem{seq: b})
		case 12:
			b := chunk(60)
			syscall.Write(2, b)
			add(2, true, gwItem{seq: b})
		case 13, 14:
			b := bytes.Repeat(chunk(3000), 1+r.Intn(300))
			os.Stdout.Write(b)
			add(1, false, gwItem{seq: b})
			counts["large writes"]++
		case 15:
			fmt.Printf("<p%d>", n)
			add(1, false, gwItem{seq: []byte(fmt.Sprintf("<p%d>", n))})
		case 16, 17:
			if kids++; kids > 12 {
				continue
			}
			b := chunk(20000)
			cmd := exec.Command("/bin/cat")
			cmd.Stdin = bytes.NewReader(b)
			s := 1 + r.Intn(2)
			cmd.Stdout = []*os.File{nil, os.Stdout, os.Stderr}[s]
			if err := cmd.Run(); err != nil {
				bad = "child: " + err.Error()
			}
			add(s, false, gwItem{seq: b})
			counts["child processes"]++
		case 18, 19, 20:
			it := [2]gwItem{}
			var wg sync.WaitGroup
			ng := 2 + r.Intn(4)
			both := gwItem{}
			for g := 0; g < ng; g++ {
				var cs [][]byte
				for m := 1 + r.Intn(8); m > 0; m-- {
					cs = append(cs, chunk(4000))
				}
				both.conc = append(both.conc, cs)
				it[g%2].conc = append(it[g%2].conc, cs)
				wg.Add(1)
				go func() {
					defer wg.Done()
					for _, b := range cs {
						[]*os.File{os.Stdout, os.Stderr}[g%2].Write(b)
					}
				}()
			}
			wg.Wait()
			if inter {
				add(1, false, both)
			} else {
				add(1, false, it[0])
				add(2, false, it[1])
			}
			counts["concurrent writers"] += ng
		case 21:
			if o, err := exec.Command("/bin/sh", "-c", "echo /proc/self/fd/*").Output(); err != nil || strings.TrimSpace(string(o)) != "/proc/self/fd/0 /proc/self/fd/1 /proc/self/fd/10 /proc/self/fd/2 /proc/self/fd/3" {
				res["fds"] = strings.TrimSpace(string(o))
			}
		case 22:
			// two stops in a row return the same
			a := in.StopInterceptingAndReturnOutput()
			inter = false
			check(a)
			if b := in.StopInterceptingAndReturnOutput(); a != b && bad == "" {
				bad = fmt.Sprintf("after %v: a second stop returns other output", hist)
			}
		case 23:
			runtime.Gosched()
		}
		counts["calls"]++
	}
	got := in.StopInterceptingAndReturnOutput()
	inter = false
	if started {
		check(got)
	}
	in.Shutdown()
	os.Stdout.WriteString("<end1>")
	os.Stderr.WriteString("<end2>")
	orig[1] = append(orig[1], gwItem{seq: []byte("<end1>")})
	orig[2] = append(orig[2], gwItem{seq: []byte("<end2>")})
	for s := 1; s <= 2 && bad == ""; s++ {
		b, _ := os.ReadFile(fmt.Sprintf("orig%d", s))
		if d := matchItems(orig[s], b, asIs); d != "" {
			bad = fmt.Sprintf("after %v: original stream %d: %s", hist, s, d)
		}
	}
	var f, g int
	for t := 0; t < 100; t++ {
		if f, g = nfds(), runtime.NumGoroutine(); f <= fds0 && g <= gor0 {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	if f > fds0 && bad == "" {
		bad = fmt.Sprintf("after %d calls and a shutdown %d descriptors are open, %d were before", len(hist), f, fds0)
	}
	if g > gor0 && bad == "" {
		buf := make([]byte, 1<<16)
		bad = fmt.Sprintf("after %d calls and a shutdown %d goroutines are left, %d were before\n%s", len(hist), g, gor0, buf[:runtime.Stack(buf, true)])
	}
	res["Bad"], res["Sig"], res["Counts"], res["Bailouts"] = bad, fmt.Sprint(swap, hist), counts, bailouts
	b, _ := json.Marshal(res)
	os.WriteFile("result.json", b, 0644)
}

// ---- runs ----

func outSuite(r *rand.Rand, many, die bool) *sdoc.Suite {
	s := &sdoc.Suite{Desc: "output"}
	id, mk := 0, 0
	nid := func() int { id++; return id }
	payload := func(max int) string {
		mk++
		return hex.EncodeToString(append([]byte(fmt.Sprintf("<%d>", mk)), strings.ToValidUTF8(string(anyBytes(r, max)), "é")...))
	}
	live := 0
	deferOK := true
	var items func(depth int, canFail bool) []sdoc.Act
	items = func(depth int, canFail bool) (b []sdoc.Act) {
		for n := r.Intn(6); n > 0; n-- {
			switch k := r.Intn(14); {
			case k < 6:
				v := []string{"stdout", "stdout", "stderr", "fmt", "fd1", "fd2", "print"}[r.Intn(7)]
				b = append(b, sdoc.Act{K: "out", V: v, S: payload([]int{0, 10, 100, 2000}[r.Intn(4)])})
			case k == 6:
				mk++
				b = append(b, sdoc.Act{K: "out", V: []string{"bulk", "bulkerr"}[r.Intn(2)], S: hex.EncodeToString([]byte(fmt.Sprintf("<%d>b", mk))), N: []int{5000, 70000, 70000, 1 << 20}[r.Intn(4)]})
			case k == 7:
				b = append(b, sdoc.Act{K: "out", V: []string{"child", "childerr", "grandchild"}[r.Intn(3)], S: payload(3000)})
			case k == 8 || k == 9:
				var ls []string
				for g := 2 + r.Intn(4); g > 0; g-- {
					var ps []string
					for m := 1 + r.Intn(6); m > 0; m-- {
						ps = append(ps, payload([]int{5, 100, 3000}[r.Intn(3)]))
					}
					ls = append(ls, strings.Join(ps, ","))
				}
				b = append(b, sdoc.Act{K: "outs", A: ls})
			case k == 10:
				b = append(b, sdoc.Act{K: "outpause"})
				if r.Intn(2) == 0 {
					b = append(b, sdoc.Act{K: "out", V: "stdout", S: payload(20)})
				}
			case k == 11:
				b = append(b, sdoc.Act{K: "outresume"})
			case k == 12:
				if depth == 0 && deferOK {
					b = append(b, sdoc.Act{K: "defer", ID: nid(), B: items(1, false)})
				}
			case k == 13:
				if live < 1 && canFail && r.Intn(12) == 0 && !many {
					live++
					b = append(b, sdoc.Act{K: "outlive", Inv: []int{0}})
				} else if r.Intn(3) == 0 {
					b = append(b, sdoc.Act{K: "childfds"})
				}
			}
		}
		if canFail && r.Intn(5) == 0 {
			a := sdoc.Act{K: []string{"fail", "panic", "skip", "goexit"}[r.Intn(4)], S: "why"}
			if r.Intn(2) == 0 {
				a.Inv = []int{0}
			}
			k := r.Intn(len(b) + 1)
			b = append(b[:k:k], append([]sdoc.Act{a}, b[k:]...)...)
		}
		return
	}
	node := func(k string, canFail bool) *sdoc.Node {
		n := &sdoc.Node{ID: nid(), K: k}
		n.Loc = sdoc.Loc{F: "/synthetic/out.go", L: n.ID}
		deferOK = !strings.HasPrefix(k, "Report")
		n.Body = items(0, canFail)
		if strings.HasPrefix(k, "Synchronized") {
			n.Body2 = items(0, false)
		}
		return n
	}
	var cont func(depth int) *sdoc.Node
	cont = func(depth int) *sdoc.Node {
		ct := &sdoc.Node{ID: nid(), K: "container", Text: fmt.Sprintf("C%d", id)}
		ct.Loc = sdoc.Loc{F: "/synthetic/out.go", L: ct.ID}
		ct.Ordered = r.Intn(3) == 0
		ks := []string{"BeforeEach", "AfterEach", "JustBeforeEach", "JustAfterEach", "ReportBeforeEach", "ReportAfterEach"}
		if ct.Ordered {
			ks = append(ks, "BeforeAll", "AfterAll")
		}
		for n := r.Intn(4); n > 0 && !many; n-- {
			k := ks[r.Intn(len(ks))]
			ct.Kids = append(ct.Kids, node(k, !strings.HasPrefix(k, "Report")))
		}
		cnt := 1 + r.Intn(3)
		if many {
			cnt = 30 + r.Intn(60)
		}
		for ; cnt > 0; cnt-- {
			if depth < 2 && !ct.Ordered && !many && r.Intn(3) == 0 {
				ct.Kids = append(ct.Kids, cont(depth+1))
				continue
			}
			it := &sdoc.Node{ID: nid(), K: "it"}
			if many {
				it.Loc = sdoc.Loc{F: "/synthetic/out.go", L: it.ID}
				it.Body = []sdoc.Act{{K: "out", V: "stdout", S: payload(30)}, {K: "out", V: "fd2", S: payload(30)}, {K: "fds"}}
			} else {
				it = node("it", true)
			}
			it.Text = fmt.Sprintf("S%d", it.ID)
			switch r.Intn(6) {
			case 0:
				it.Flake = 2 + r.Intn(2)
			case 1:
				it.MustPass = 2
			}
			it.Serial = r.Intn(8) == 0 && !ct.Ordered
			ct.Kids = append(ct.Kids, it)
		}
		return ct
	}
	top := 1 + r.Intn(3)
	if many {
		top = 1
	}
	for ; top > 0; top-- {
		s.Top = append(s.Top, cont(0))
	}
	if r.Intn(3) > 0 {
		s.Top = append(s.Top, node([]string{"BeforeSuite", "SynchronizedBeforeSuite", "SynchronizedBeforeSuite"}[r.Intn(3)], false))
	}
	if r.Intn(3) > 0 {
		s.Top = append(s.Top, node([]string{"AfterSuite", "SynchronizedAfterSuite", "SynchronizedAfterSuite"}[r.Intn(3)], false))
	}
	for _, k := range []string{"ReportBeforeSuite", "ReportAfterSuite"} {
		if r.Intn(2) == 0 {
			n := node(k, false)
			n.Text = "rep"
			s.Top = append(s.Top, n)
		}
	}
	return s
}

func interceptRuns(c *Ctx) {
	parallelDo(N(220, 6000), workers(), func(i int) {
		if *flagOnly >= 1000000 {
			i -= 1000000
		}
		r := rng("C18r", i)
		many := r.Intn(5) == 0
		s := outSuite(r, many, false)
		o := RunOpts{Procs: 2 + r.Intn(2), Env: []string{"VERIF_FDFILES=1"}}
		if many {
			o.Procs = 2
		}
		mode := []string{"dup", "dup", "dup", "swap", "none", ""}[r.Intn(6)]
		if r.Intn(6) == 0 {
			o.Procs, o.CLI = 0, true
			mode = "none"
		} else if mode != "" {
			o.Args = append(o.Args, "output-interceptor-mode="+mode)
		} else {
			mode = "dup"
		}
		if r.Intn(3) == 0 {
			o.HTTP = true
		}
		if r.Intn(3) == 0 {
			o.Args = append(o.Args, []string{"v", "vv", "succinct"}[r.Intn(3)])
		}
		for try := 0; ; try++ {
			run := c.runSuite(s, o)
			if run.Res.TimedOut {
				c.Inconclusive("timed out")
				run.Clean()
				return
			}
			d := interceptJudge(c, s, run, o, mode)
			if d == "RETRY" {
				run.Clean()
				if try < 2 {
					continue
				}
				d = "output was given up three times without a process that keeps the streams open"
			}
			if d != "" {
				c.Fail("", fmt.Sprintf("run %d (%v): %s", i, o, d), run.Files())
			}
			run.Clean()
			return
		}
	})
}

const bailoutMark = "Ginkgo detected an issue while intercepting output."

func interceptJudge(c *Ctx, s *sdoc.Suite, run *SuiteRun, o RunOpts, mode string) string {
	b, err := os.ReadFile(filepath.Join(run.Dir, "report.json"))
	if err != nil {
		return "no report: " + err.Error() + "\n" + trunc(run.Res.Out, 3000)
	}
	var reps []types.Report
	if err := json.Unmarshal(b, &reps); err != nil || len(reps) != 1 {
		return fmt.Sprintf("bad report: %v", err)
	}
	kind := map[int]string{}
	s.Walk(func(n *sdoc.Node, _ []*sdoc.Node) { kind[n.ID] = n.K })
	type pst struct {
		round     string
		paused    bool
		forward   bool
		orig      [3][]gwItem
		childfds  string
		fds, gors []int
	}
	ps := map[int]*pst{}
	logged := map[string][]gwItem{}
	lives := map[string]bool{}
	ended := map[int]bool{}
	var forwarded []gwItem
	sig := ""
	for _, e := range run.Events {
		p := ps[e.P]
		if p == nil {
			p = &pst{}
			ps[e.P] = p
		}
		key := fmt.Sprintf("S%d", e.Spec)
		if e.Spec == 0 {
			key = fmt.Sprintf("N%d/%d", e.N, e.P)
		}
		capture := func(raw bool) bool {
			return mode != "none" && !p.paused && !(mode == "swap" && raw)
		}
		switch e.E {
		case "enter":
			round := fmt.Sprintf("%s att%d", key, e.Att)
			if e.Spec == 0 || strings.HasPrefix(kind[e.N], "Report") {
				round = fmt.Sprintf("%s/%d/%d/%d", key, e.N, e.Part, e.T)
			}
			if round != p.round {
				p.round, p.paused = round, false
			}
			p.forward = e.P == 1 && (kind[e.N] == "SynchronizedBeforeSuite" && e.Part == 1 || kind[e.N] == "SynchronizedAfterSuite" && e.Part == 2)
		case "pause":
			p.paused = true
		case "resume":
			p.paused = false
		case "outlive":
			if capture(false) {
				lives[key] = true
			}
		case "out":
			sig += key + e.X[:3]
			v, h, _ := strings.Cut(e.X, ":")
			x, _ := hex.DecodeString(h)
			it := gwItem{seq: x}
			if capture(strings.HasPrefix(v, "fd")) {
				logged[key] = append(logged[key], it)
				if p.forward {
					forwarded = append(forwarded, it)
				}
			} else {
				k := 1
				if v == "stderr" || v == "fd2" {
					k = 2
				}
				p.orig[k] = append(p.orig[k], it)
			}
		case "outs":
			sig += key + "c"
			var all gwItem
			var sp [2]gwItem
			for g, l := range strings.Split(e.X, ";") {
				var cs [][]byte
				for _, h := range strings.Split(l, ",") {
					x, _ := hex.DecodeString(h)
					cs = append(cs, x)
				}
				all.conc = append(all.conc, cs)
				sp[g%2].conc = append(sp[g%2].conc, cs)
			}
			if capture(false) {
				logged[key] = append(logged[key], all)
				if p.forward {
					forwarded = append(forwarded, all)
				}
			} else {
				p.orig[1] = append(p.orig[1], sp[0])
				p.orig[2] = append(p.orig[2], sp[1])
			}
		case "childfds":
			if p.childfds == "" {
				p.childfds = e.X
			} else if e.X != p.childfds {
				return fmt.Sprintf("a child process started by node %d inherits descriptors %s, before the run it was %s", e.N, e.X, p.childfds)
			}
			c.Count("descriptor lists of children", 1)
		case "fds":
			p.fds, p.gors = append(p.fds, e.Inv), append(p.gors, e.Att)
		case "end":
			ended[e.P] = true
		}
	}
	c.Eval("run" + sigHash(sig, o.Args, o.Procs, o.HTTP))
	seen := map[string]bool{}
	for _, sp := range reps[0].SpecReports {
		key := fmt.Sprintf("N%d/%d", sp.LeafNodeLocation.LineNumber, sp.ParallelProcess)
		if sp.LeafNodeType == types.NodeTypeIt {
			key = sp.LeafNodeText
		}
		seen[key] = true
		got := sp.CapturedStdOutErr
		if lives[key] {
			if !strings.Contains(got, bailoutMark) {
				return fmt.Sprintf("%s (%s): a process kept the streams open, captured was %q", key, sp.State, trunc(got, 300))
			}
			c.Count("captures given up", 1)
			continue
		}
		if strings.Contains(got, bailoutMark) {
			return "RETRY"
		}
		if d := matchItems(logged[key], []byte(got), asIs); d != "" {
			return fmt.Sprintf("%s (%s): captured output: %s", key, sp.State, d)
		}
		c.Count("captured outputs", 1)
		c.Count("captured bytes", len(got))
	}
	var keys []string
	for k := range logged {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if !seen[k] {
			return k + " wrote output but is not reported"
		}
	}
	for n, p := range ps {
		if o.Procs == 0 { // the console reporter writes to the same streams
			out, _ := os.ReadFile(filepath.Join(run.Dir, "orig1.1"))
			pos := 0
			for _, it := range p.orig[1] {
				for _, l := range bytes.SplitAfter(it.seq, []byte("\n")) {
					j := bytes.Index(out[pos:], l)
					if j < 0 {
						return fmt.Sprintf("serial: %q did not reach standard output, in order", trunc(string(l), 200))
					}
					pos += j + len(l)
				}
			}
			c.Count("serial streams", 1)
			continue
		}
		if !ended[n] {
			return fmt.Sprintf("process %d did not end", n)
		}
		for k := 1; k <= 2; k++ {
			out, _ := os.ReadFile(filepath.Join(run.Dir, fmt.Sprintf("orig%d.%d", k, n)))
			mark := fmt.Sprintf("END%daEND%db", k, k)
			j := bytes.LastIndex(out, []byte(mark))
			if j < 0 {
				return fmt.Sprintf("process %d: stream %d does not work after the run: %q", n, k, trunc(string(out), 300))
			}
			if d := matchItems(p.orig[k], out[:j], asIs); d != "" {
				return fmt.Sprintf("process %d: original stream %d: %s", n, k, d)
			}
			c.Count("original streams", 1)
		}
		if l := len(p.fds); l >= 16 {
			h := l / 2
			if a, b := maxOf(p.fds[:h]), maxOf(p.fds[h:]); b > a+4 {
				return fmt.Sprintf("process %d: open descriptors grow from %d to %d over %d specs", n, a, b, l)
			}
			if a, b := maxOf(p.gors[:h]), maxOf(p.gors[h:]); b > a+8 {
				return fmt.Sprintf("process %d: goroutines grow from %d to %d over %d specs", n, a, b, l)
			}
			c.Count("specs watched for leaks", l)
		}
	}
	// forwarded setup output on the console: live, not only in the node's report
	pos := 0
	for _, it := range forwarded {
		first := it.seq
		if it.conc != nil {
			first = it.conc[0][0]
		}
		if j := bytes.IndexByte(first, '>'); j > 0 {
			tag := string(first[:j+1])
			if at := strings.Index(run.Res.Out, tag); at >= 0 {
				pre := run.Res.Out[:at]
				if h := strings.LastIndex(pre, "[Synchronized"); h >= 0 && !strings.Contains(pre[h:], "------------------------------\n") {
					return fmt.Sprintf("setup output %q is shown in the node's report only, it was not forwarded", trunc(string(first), 100))
				}
			}
		}
		chunks := [][]byte{it.seq}
		for _, g := range it.conc {
			chunks = append(chunks, g...)
		}
		end := pos
		for _, ch := range chunks {
			from := pos
			for _, l := range bytes.SplitAfter(ch, []byte("\n")) {
				j := strings.Index(run.Res.Out[from:], string(l))
				if j < 0 {
					return fmt.Sprintf("setup output %q did not reach the user, in order", trunc(string(l), 200))
				}
				from += j + len(l)
			}
			end = max(end, from)
		}
		if it.conc == nil {
			pos = end
		}
		c.Count("forwarded writes", 1)
	}
	return ""
}

func maxOf(x []int) int {
	m := x[0]
	for _, v := range x {
		m = max(m, v)
	}
	return m
}

package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/onsi/ginkgo/v2/internal/zzverif/sdoc"
)

var (
	flagProp   = flag.String("prop", "", "property")
	flagTier   = flag.String("tier", "quick", "tier")
	flagSeed   = flag.Int64("seed", 1, "seed")
	flagWork   = flag.String("work", "", "scratch directory")
	flagVerif  = flag.String("verif", "/verif", "verif dir")
	flagBin    = flag.String("bin", "", "directory holding the built binaries")
	flagOnly   = flag.Int("only", -1, "run just this case index")
	flagReplay = flag.String("replay", "", "replay a saved case directory")
	flagN      = flag.Int("n", 0, "override number of cases")
	flagDump   = flag.Bool("dump", false, "print events of the case")
)

func bin(n string) string { return filepath.Join(*flagBin, n) }

// rng derives the generator of case i of a named stream from the seed.
func rng(stream string, i int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", stream, *flagSeed, i)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// Ctx collects what a check observed.
type Ctx struct {
	Prop     string
	mu       sync.Mutex
	evals    int
	sigs     map[string]bool
	counts   map[string]int
	samps    []any
	viol     []Violation
	known    map[string]string // finding key -> description hit on this run
	incon    []string
	start    time.Time
	rule     string
	assume   []string
	findings []Finding
}

type Violation struct {
	Msg    string
	Replay string
}

type Finding struct {
	Status   string `json:"status"` // "known" or "fixed"
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func loadFindings() []Finding {
	b, err := os.ReadFile(filepath.Join(*flagVerif, "known_findings.json"))
	if err != nil {
		return nil
	}
	var out []Finding
	if err := json.Unmarshal(b, &out); err != nil {
		fatal("known_findings.json: %v", err)
	}
	return out
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "check error: "+f+"\n", a...)
	os.Exit(2)
}

// Eval records one evaluated case; sig identifies it for distinctness ("" = trivial).
func (c *Ctx) Eval(sig string) {
	c.mu.Lock()
	c.evals++
	if sig != "" {
		c.sigs[sig] = true
	}
	c.mu.Unlock()
}

func (c *Ctx) Count(k string, n int) {
	c.mu.Lock()
	c.counts[k] += n
	c.mu.Unlock()
}

func (c *Ctx) Sample(s any) {
	c.mu.Lock()
	if len(c.samps) < 4 {
		c.samps = append(c.samps, s)
	}
	c.mu.Unlock()
}

// Fail records a violation with a replay artefact (files name->content).
func (c *Ctx) Fail(key, msg string, files map[string][]byte) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, f := range c.findings {
		if f.Status == "known" && f.Property == c.Prop && f.Key == key && key != "" {
			c.known[key] = f.What
			return
		}
	}
	dir := ""
	if len(c.viol) < 5 {
		dir = filepath.Join(*flagVerif, "replay", c.Prop, fmt.Sprintf("v%d", len(c.viol)+1))
		os.RemoveAll(dir)
		os.MkdirAll(dir, 0755)
		os.WriteFile(filepath.Join(dir, "violation.txt"), []byte(msg+"\n"), 0644)
		for n, b := range files {
			os.WriteFile(filepath.Join(dir, n), b, 0644)
		}
	} else {
		dir = c.viol[0].Replay
	}
	c.viol = append(c.viol, Violation{msg, dir})
}

func (c *Ctx) Inconclusive(msg string) {
	c.mu.Lock()
	c.incon = append(c.incon, msg)
	c.mu.Unlock()
}

func (c *Ctx) NViol() int { c.mu.Lock(); defer c.mu.Unlock(); return len(c.viol) }

func thorough() bool { return *flagTier == "thorough" }

// N picks the number of cases.
func N(quick, thor int) int {
	if *flagN > 0 {
		return *flagN
	}
	if thorough() {
		return thor
	}
	return quick
}

// parallelDo runs f(0..n-1) on w workers.
func parallelDo(n, w int, f func(i int)) {
	if *flagOnly >= 0 {
		f(*flagOnly)
		return
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

func workers() int { return runtime.NumCPU() }

// ---------------------------------------------------------------- processes

type RunResult struct {
	Exit      int
	Out       string
	TimedOut  bool
	Wall      time.Duration
	Survivors []string
}

var baseEnv = func() []string {
	var out []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GINKGO") || strings.HasPrefix(e, "VERIF_") || strings.HasPrefix(e, "PWD=") {
			continue
		}
		out = append(out, e)
	}
	return out
}()

// runCmd runs a command in its own process group with a watchdog; everything in the group is killed at the end.
func runCmd(dir string, env []string, limit time.Duration, name string, args ...string) RunResult {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	cmd.Env = append(append([]string{}, baseEnv...), env...)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.WaitDelay = 5 * time.Second
	t := time.Now()
	if err := cmd.Start(); err != nil {
		fatal("starting %s: %v", name, err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	r := RunResult{}
	select {
	case <-done:
	case <-ctx.Done():
		r.TimedOut = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
	}
	r.Wall = time.Since(t)
	if dir != "" && filepath.Base(name) == "ginkgo" && !r.TimedOut {
		if r.Survivors = survivors(dir); len(r.Survivors) > 0 {
			time.Sleep(300 * time.Millisecond)
			r.Survivors = survivors(dir)
		}
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	r.Exit = cmd.ProcessState.ExitCode()
	r.Out = out.String()
	return r
}

// SuiteRun is one observed execution of a generated suite.
type SuiteRun struct {
	Dir    string
	Res    RunResult
	Events []sdoc.Event // merged over processes, sorted by time
	Report *Rep         // nil if none was written
	RepErr string
}

type RunOpts struct {
	Args     []string // extra ginkgo flags (without prefix), e.g. "seed=3"
	Procs    int      // >1: run through the CLI in parallel
	CLI      bool     // run through the CLI even serially
	HTTP     bool
	Env      []string
	Race     bool
	Limit    time.Duration
	CLIArgs  []string
	NoReport bool
	Prep     func(dir string) []string // prepares the directory of the run, returns further environment
}

var caseCounter int64

func (c *Ctx) runSuite(s *sdoc.Suite, o RunOpts) *SuiteRun {
	dir := filepath.Join(*flagWork, fmt.Sprintf("c%06d", atomic.AddInt64(&caseCounter, 1)))
	os.RemoveAll(dir)
	os.MkdirAll(dir, 0755)
	if o.Prep != nil {
		o.Env = append(append([]string{}, o.Env...), o.Prep(dir)...)
	}
	b, _ := json.Marshal(s)
	os.WriteFile(filepath.Join(dir, "suite.json"), b, 0644)
	r := &SuiteRun{Dir: dir}
	limit := o.Limit
	if limit == 0 {
		limit = 60 * time.Second
	}
	env := append([]string{"VERIF_SUITE=" + filepath.Join(dir, "suite.json"), "VERIF_LOG=" + filepath.Join(dir, "log"), "VERIF_DIR=" + dir, "PWD=" + dir}, o.Env...)
	if o.Race {
		env = append(env, "GORACE=halt_on_error=0 exitcode=66 log_path="+filepath.Join(dir, "race"))
	}
	if o.HTTP {
		env = append(env, "GINKGO_PARALLEL_PROTOCOL=HTTP")
	}
	for k, v := range s.Env {
		env = append(env, k+"="+v)
	}
	exe := bin("interp.test")
	if o.Race {
		exe = bin("interp-race.test")
	}
	rep := filepath.Join(dir, "report.json")
	var args []string
	name := exe
	if o.Procs > 1 || o.CLI {
		// the CLI runs precompiled suites in the binary's directory: give every case its own
		link := filepath.Join(dir, "interp.test")
		os.Symlink(exe, link)
		name = bin("ginkgo")
		args = append(args, "run", "--no-color")
		if o.Procs > 1 {
			args = append(args, fmt.Sprintf("--procs=%d", o.Procs))
		}
		if !o.NoReport {
			args = append(args, "--json-report=report.json")
		}
		for _, a := range o.Args {
			args = append(args, "--"+a)
		}
		args = append(args, o.CLIArgs...)
		args = append(args, link)
	} else {
		args = append(args, "--ginkgo.no-color")
		if !o.NoReport {
			args = append(args, "--ginkgo.json-report="+rep)
		}
		for _, a := range o.Args {
			args = append(args, "--ginkgo."+a)
		}
	}
	os.WriteFile(filepath.Join(dir, "cmd.txt"), []byte(strings.Join(append(append(env, name), args...), "\n")+"\n"), 0644)
	r.Res = runCmd(dir, env, limit, name, args...)
	r.Events = readEvents(dir)
	if !o.NoReport {
		r.Report, r.RepErr = readReport(rep)
	}
	return r
}

func (r *SuiteRun) Clean() { os.RemoveAll(r.Dir) }

// Files gathers the replay artefacts of a run.
func (r *SuiteRun) Files() map[string][]byte {
	out := map[string][]byte{}
	ents, _ := os.ReadDir(r.Dir)
	for _, e := range ents {
		if e.Type().IsRegular() {
			if b, err := os.ReadFile(filepath.Join(r.Dir, e.Name())); err == nil && len(b) < 4<<20 {
				out[e.Name()] = b
			}
		}
	}
	out["output.txt"] = []byte(r.Res.Out)
	return out
}

func readEvents(dir string) []sdoc.Event {
	var evs []sdoc.Event
	m, _ := filepath.Glob(filepath.Join(dir, "log.*"))
	sort.Strings(m)
	for _, f := range m {
		b, _ := os.ReadFile(f)
		for _, l := range bytes.Split(b, []byte("\n")) {
			if len(l) == 0 {
				continue
			}
			var e sdoc.Event
			if json.Unmarshal(l, &e) == nil {
				evs = append(evs, e)
			}
		}
	}
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].T < evs[j].T })
	return evs
}

// ---------------------------------------------------------------- reports (decoded independently of the code under test)

type RLoc struct {
	FileName       string
	LineNumber     int
	FullStackTrace string
}
type RTL struct {
	Offset int
	Order  int
	Time   time.Time
}
type RProg struct {
	Message                    string
	ParallelProcess            int
	RunningInParallel          bool
	LeafNodeText               string
	CurrentNodeType            string
	CurrentStepText            string
	CapturedGinkgoWriterOutput string
	AdditionalReports          []string
	TimelineLocation           RTL
}
type RFail struct {
	Message                   string
	Location                  RLoc
	TimelineLocation          RTL
	ForwardedPanic            string
	FailureNodeContext        string
	FailureNodeType           string
	FailureNodeLocation       RLoc
	FailureNodeContainerIndex int
	ProgressReport            RProg
	AdditionalFailure         *RAddFail
}
type RAddFail struct {
	State   string
	Failure RFail
}
type REntry struct {
	Visibility string
	Name       string
	Value      struct {
		Representation string
		AsJSON         string
	}
	Location         RLoc
	TimelineLocation RTL
}
type REvent struct {
	SpecEventType    string
	CodeLocation     RLoc
	TimelineLocation RTL
	Message          string
	Duration         time.Duration
	NodeType         string
	Attempt          int
}
type RSpec struct {
	ContainerHierarchyTexts     []string
	ContainerHierarchyLocations []RLoc
	ContainerHierarchyLabels    [][]string
	LeafNodeType                string
	LeafNodeLocation            RLoc
	LeafNodeLabels              []string
	LeafNodeText                string
	State                       string
	StartTime, EndTime          time.Time
	RunTime                     time.Duration
	ParallelProcess             int
	Failure                     *RFail
	NumAttempts                 int
	MaxFlakeAttempts            int
	MaxMustPassRepeatedly       int
	CapturedGinkgoWriterOutput  string
	CapturedStdOutErr           string
	ReportEntries               []REntry
	ProgressReports             []RProg
	AdditionalFailures          []RAddFail
	SpecEvents                  []REvent
	IsSerial                    *bool
	IsInOrderedContainer        *bool
	RunningInParallel           *bool
}
type Rep struct {
	SuitePath                  string
	SuiteDescription           string
	SuiteLabels                []string
	SuiteSucceeded             bool
	SuiteHasProgrammaticFocus  bool
	SpecialSuiteFailureReasons []string
	PreRunStats                struct{ TotalSpecs, SpecsThatWillRun int }
	StartTime, EndTime         time.Time
	RunTime                    time.Duration
	SuiteConfig                map[string]any
	SpecReports                []RSpec
}

func readReport(path string) (*Rep, string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err.Error()
	}
	var rs []*Rep
	if err := json.Unmarshal(b, &rs); err != nil {
		return nil, err.Error()
	}
	if len(rs) != 1 {
		return nil, fmt.Sprintf("%d suites in report", len(rs))
	}
	return rs[0], ""
}

// ---------------------------------------------------------------- main

type Check struct {
	Level   string
	Rule    string
	Assume  []string
	Isolate bool // the code under test runs inside the driver: run it in a child whose death is a violation
	Run     func(c *Ctx)
}

// watch lets in-process checks say what each worker is busy with; a stuck worker is a violation.
type watch struct {
	mu  sync.Mutex
	cur map[int]watched
}
type watched struct {
	what string
	t    time.Time
}

func (w *watch) set(k int, what string) {
	w.mu.Lock()
	if w.cur == nil {
		w.cur = map[int]watched{}
	}
	w.cur[k] = watched{what, time.Now()}
	w.mu.Unlock()
}

func (w *watch) done(k int) {
	w.mu.Lock()
	delete(w.cur, k)
	w.mu.Unlock()
}

func (w *watch) stuck(limit time.Duration) string {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, x := range w.cur {
		if time.Since(x.t) > limit {
			return x.what
		}
	}
	return ""
}

var theWatch watch

// superviseChild runs this process again and turns its death into a violation.
func superviseChild(c *Ctx, ck Check) {
	limit := 800 * time.Second
	if thorough() {
		limit = 4 * time.Hour
	}
	r := runCmd(*flagWork, append([]string{"VERIF_CHILD=1"}, verifEnv()...), limit, os.Args[0], os.Args[1:]...)
	fmt.Print(trunc(r.Out, 60000))
	if !r.TimedOut && (r.Exit == 0 || r.Exit == 1 || r.Exit == 2 && strings.Contains(r.Out, "check error:")) {
		os.Exit(r.Exit)
	}
	last, _ := os.ReadFile(filepath.Join(*flagWork, "stuck.txt"))
	tail := r.Out
	if len(tail) > 6000 {
		tail = tail[:6000]
	}
	c.Fail("", fmt.Sprintf("the code under test crashed or hung the process (exit %d, timed out %v)\n%s\n%s", r.Exit, r.TimedOut, last, tail), map[string][]byte{"output.txt": []byte(r.Out)})
	c.Eval("crash")
	finish(c, ck)
}

func verifEnv() []string {
	var out []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "VERIF_") {
			out = append(out, e)
		}
	}
	return out
}

var checks = map[string]Check{}

func main() {
	flag.Parse()
	ck, ok := checks[*flagProp]
	if !ok {
		fatal("unknown property %q", *flagProp)
	}
	if *flagWork == "" {
		fatal("no -work")
	}
	c := &Ctx{Prop: *flagProp, sigs: map[string]bool{}, counts: map[string]int{}, known: map[string]string{}, start: time.Now(), findings: loadFindings()}
	if ck.Isolate && os.Getenv("VERIF_CHILD") == "" {
		os.RemoveAll(filepath.Join(*flagVerif, "replay", c.Prop))
		superviseChild(c, ck)
		return
	}
	if ck.Isolate {
		go func() {
			for {
				time.Sleep(time.Second)
				if s := theWatch.stuck(120 * time.Second); s != "" {
					os.WriteFile(filepath.Join(*flagWork, "stuck.txt"), []byte("stuck for 120 s in: "+s), 0644)
					buf := make([]byte, 1<<20)
					fmt.Printf("STUCK in %s\n%s\n", s, buf[:runtime.Stack(buf, true)])
					os.Exit(3)
				}
			}
		}()
	}
	os.RemoveAll(filepath.Join(*flagVerif, "replay", c.Prop))
	ck.Run(c)
	finish(c, ck)
}

func finish(c *Ctx, ck Check) {
	ev := map[string]any{
		"property": c.Prop, "tier": *flagTier, "seed": *flagSeed, "level": ck.Level,
		"coverage": map[string]any{
			"evaluations": c.evals, "distinct_nontrivial": len(c.sigs), "rule": ck.Rule, "samples": c.samps,
			"observed": c.counts, "inconclusive": len(c.incon),
		},
		"assumptions": ck.Assume, "wall_s": time.Since(c.start).Seconds(), "violations": len(c.viol),
	}
	if len(c.samps) == 0 {
		ev["coverage"].(map[string]any)["samples"] = []any{"none recorded"}
	}
	if ck.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*flagVerif, "evidence"), 0755)
	os.WriteFile(filepath.Join(*flagVerif, "evidence", c.Prop+".json"), b, 0644)
	var keys []string
	for k := range c.known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Prop, c.known[k])
	}
	fmt.Printf("%s: %d evaluations, %d distinct non-trivial, %d violations, %d inconclusive, observed %v, %.1fs\n", c.Prop, c.evals, len(c.sigs), len(c.viol), len(c.incon), c.counts, time.Since(c.start).Seconds())
	if len(c.viol) > 0 {
		for i, v := range c.viol {
			if i >= 5 {
				break
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n%s\n", c.Prop, v.Replay, trunc(v.Msg, 1500))
		}
		os.Exit(1)
	}
	if c.evals == 0 || len(c.sigs) == 0 {
		fatal("nothing was observed")
	}
	if len(c.incon) > 0 {
		for _, m := range c.incon {
			fmt.Println("inconclusive:", trunc(m, 300))
		}
		if len(c.incon)*5 > c.evals {
			fatal("too many inconclusive cases")
		}
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func sigHash(parts ...any) string {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	return fmt.Sprintf("%016x", h.Sum64())
}

var soloMu sync.Mutex

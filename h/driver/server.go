package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/onsi/ginkgo/v2/internal/parallel_support"
	"github.com/onsi/ginkgo/v2/types"
)

// C12: simulated processes talk to a real server through real clients (both protocols); a recording reporter,
// recording output destination and the clients' own observations are judged per round.

func init() {
	checks["C12"] = Check{Level: "exploration", Isolate: true, Run: runC12,
		Rule: "a round counts as distinct by (protocol, number of processes, death points, first-body outcomes, forwarding log shape); built with the race detector, a race report is a violation",
		Assume: []string{"processes are simulated by goroutines with their own client connection to a real server on the loopback interface",
			"over HTTP texts are valid UTF-8 (JSON cannot carry anything else)"}}
}

// ---- random values of the report types

type fillOpts struct {
	r     *rand.Rand
	utf8  bool
	depth int
}

func rndText(o fillOpts) string {
	n := o.r.Intn(12)
	if o.r.Intn(40) == 0 {
		n = 3000
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch o.r.Intn(6) {
		case 0:
			b.WriteString([]string{"\n", "\t", "\"", "\\", "<", "&", "\x00", "\x1b[1m", "{{red}}", "\u2028", "é", "日本", "\U0001F600"}[o.r.Intn(13)])
		case 1:
			if !o.utf8 {
				b.WriteByte(byte(o.r.Intn(256)))
				continue
			}
			fallthrough
		default:
			b.WriteByte(byte('a' + o.r.Intn(26)))
		}
	}
	return b.String()
}

var nodeTypes = []types.NodeType{types.NodeTypeIt, types.NodeTypeBeforeSuite, types.NodeTypeContainer, types.NodeTypeCleanupAfterEach, types.NodeTypeReportAfterSuite, types.NodeTypeBeforeEach}
var specStates = []types.SpecState{types.SpecStatePassed, types.SpecStateFailed, types.SpecStateSkipped, types.SpecStatePending, types.SpecStateAborted, types.SpecStatePanicked, types.SpecStateInterrupted, types.SpecStateTimedout}

func fill(v reflect.Value, o fillOpts) {
	r := o.r
	if v.Type() == reflect.TypeOf(time.Time{}) {
		if r.Intn(6) > 0 {
			v.Set(reflect.ValueOf(time.Unix(1700000000+r.Int63n(1e6), r.Int63n(1e9)).UTC()))
		}
		return
	}
	if v.Type() == reflect.TypeOf(types.ReportEntryValue{}) {
		var x any
		switch r.Intn(7) {
		case 0:
			x = rndText(fillOpts{r, true, 0}) // entry values travel as JSON
		case 1:
			x = r.Int63()
		case 2:
			x = map[string]any{"a": r.Float64(), "b": []int64{r.Int63(), 1}}
		case 3:
			x = struct {
				Z string
				A uint64
			}{rndText(fillOpts{r, true, 0}), r.Uint64()}
		case 4:
			x = make(chan int)
		case 5:
			x = []string{rndText(fillOpts{r, true, 0}), "<&>"}
		}
		v.Set(reflect.ValueOf(types.WrapEntryValue(x)))
		return
	}
	switch v.Interface().(type) {
	case types.NodeType:
		v.Set(reflect.ValueOf(nodeTypes[r.Intn(len(nodeTypes))]))
		return
	case types.SpecState:
		v.Set(reflect.ValueOf(specStates[r.Intn(len(specStates))]))
		return
	case types.ReportEntryVisibility:
		v.Set(reflect.ValueOf([]types.ReportEntryVisibility{types.ReportEntryVisibilityAlways, types.ReportEntryVisibilityNever, types.ReportEntryVisibilityFailureOrVerbose}[r.Intn(3)]))
		return
	case types.SpecEventType:
		v.Set(reflect.ValueOf([]types.SpecEventType{types.SpecEventByStart, types.SpecEventByEnd, types.SpecEventNodeStart, types.SpecEventNodeEnd, types.SpecEventSpecRepeat, types.SpecEventSpecRetry}[r.Intn(6)]))
		return
	case types.FailureNodeContext:
		v.Set(reflect.ValueOf([]types.FailureNodeContext{types.FailureNodeIsLeafNode, types.FailureNodeAtTopLevel, types.FailureNodeInContainer}[r.Intn(3)]))
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.String:
		v.SetString(rndText(o))
	case reflect.Int, reflect.Int64, reflect.Int32:
		v.SetInt(r.Int63n(1 << 40))
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		v.SetUint(uint64(r.Intn(200)))
	case reflect.Float64:
		v.SetFloat(r.Float64())
	case reflect.Slice:
		n := r.Intn(3)
		if o.depth > 4 {
			n = 0
		}
		s := reflect.MakeSlice(v.Type(), n, n)
		oo := o
		oo.depth++
		for i := 0; i < n; i++ {
			fill(s.Index(i), oo)
		}
		if n > 0 {
			v.Set(s)
		}
	case reflect.Ptr:
		if r.Intn(2) == 0 && o.depth < 3 {
			p := reflect.New(v.Type().Elem())
			oo := o
			oo.depth += 2
			fill(p.Elem(), oo)
			v.Set(p)
		}
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(types.Failure{}) && r.Intn(2) == 0 {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				oo := o
				oo.depth++
				fill(v.Field(i), oo)
			}
		}
		switch x := v.Addr().Interface().(type) {
		case *types.Failure:
			x.Message += "m"
		}
	}
}

// flatten renders every exported field, treating nil and empty alike; entry values by representation and JSON.
func flattenVal(v reflect.Value, b *strings.Builder) {
	if v.Type() == reflect.TypeOf(time.Time{}) {
		t := v.Interface().(time.Time)
		if t.IsZero() {
			b.WriteString("T0;")
		} else {
			fmt.Fprintf(b, "T%d;", t.UnixNano())
		}
		return
	}
	if v.Type() == reflect.TypeOf(types.ReportEntryValue{}) {
		rev := v.Interface().(types.ReportEntryValue)
		asJSON := rev.AsJSON
		if asJSON == "" {
			j, err := json.Marshal(rev.GetRawValue())
			if err != nil {
				j, _ = json.Marshal(rev.String())
			}
			asJSON = string(j)
		}
		fmt.Fprintf(b, "V(%q,%q);", rev.String(), asJSON)
		return
	}
	switch v.Kind() {
	case reflect.Slice:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			flattenVal(v.Index(i), b)
		}
		b.WriteString("]")
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil;")
			return
		}
		flattenVal(v.Elem(), b)
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				b.WriteString(v.Type().Field(i).Name + ":")
				flattenVal(v.Field(i), b)
			}
		}
		b.WriteString("}")
	case reflect.String:
		fmt.Fprintf(b, "%q;", v.String())
	default:
		fmt.Fprintf(b, "%v;", v.Interface())
	}
}

func flat(x any) string {
	var b strings.Builder
	flattenVal(reflect.ValueOf(x), &b)
	return b.String()
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 120
	if lo < 0 {
		lo = 0
	}
	return fmt.Sprintf("…%s  VERSUS  …%s", trunc(a[lo:], 260), trunc(b[lo:], 260))
}

// ---- recording reporter

type logItem struct {
	kind string // begin will did end prog
	text string // identity
	flat string
	rep  types.Report
}

type recReporter struct {
	mu      sync.Mutex
	log     []logItem
	busy    int32
	overlap int32
	slow    func(kind string)
	began   *int32 // processes that have called begin
	ended   *int32
	n       int32
	errs    []string
}

func (r *recReporter) rec(it logItem) {
	if !atomic.CompareAndSwapInt32(&r.busy, 0, 1) {
		atomic.StoreInt32(&r.overlap, 1)
	}
	r.slow(it.kind)
	r.mu.Lock()
	r.log = append(r.log, it)
	if it.kind == "begin" && atomic.LoadInt32(r.began) != r.n {
		r.errs = append(r.errs, fmt.Sprintf("suite begin announced after %d of %d processes began", atomic.LoadInt32(r.began), r.n))
	}
	if it.kind == "end" && atomic.LoadInt32(r.ended) != r.n {
		r.errs = append(r.errs, fmt.Sprintf("suite end announced after %d of %d processes ended", atomic.LoadInt32(r.ended), r.n))
	}
	r.mu.Unlock()
	atomic.StoreInt32(&r.busy, 0)
}
func (r *recReporter) SuiteWillBegin(rep types.Report) {
	r.rec(logItem{kind: "begin", flat: flat(rep)})
}
func (r *recReporter) WillRun(s types.SpecReport) {
	r.rec(logItem{kind: "will", text: s.LeafNodeText, flat: flat(s)})
}
func (r *recReporter) DidRun(s types.SpecReport) {
	r.rec(logItem{kind: "did", text: s.LeafNodeText, flat: flat(s)})
}
func (r *recReporter) SuiteDidEnd(rep types.Report) { r.rec(logItem{kind: "end", rep: rep}) }
func (r *recReporter) EmitProgressReport(p types.ProgressReport) {
	r.rec(logItem{kind: "prog", text: p.LeafNodeText, flat: flat(p)})
}
func (r *recReporter) EmitFailure(types.SpecState, types.Failure) {}
func (r *recReporter) EmitReportEntry(types.ReportEntry)          {}
func (r *recReporter) EmitSpecEvent(types.SpecEvent)              {}

type recWriter struct {
	mu sync.Mutex
	w  []string
}

func (w *recWriter) Write(p []byte) (int, error) {
	w.mu.Lock()
	w.w = append(w.w, string(p))
	w.mu.Unlock()
	return len(p), nil
}

var protoMu sync.Mutex

type simProc struct {
	alive    int32
	began    bool // begin returned
	ended    bool
	posted   []string // texts in order of acknowledged did-run posts
	unacked  string
	flat     map[string]string
	endRep   types.Report
	counters []ctr
	dieAt    int // -1: never
	errs     []string
	progs    map[string]string
	outs     map[string]bool
}
type ctr struct {
	n    int
	s, e int64
}

const (
	stBegin = iota
	stRBS
	stSBS
	stLoop
	stEnd
	stNone
)

func runC12(c *Ctx) {
	parallel_support.POLLING_INTERVAL = time.Millisecond
	n := N(450, 30000)
	parallelDo(n, 6, func(i int) {
		if c.NViol() > 3 {
			return
		}
		if i >= 1000000 {
			return
		}
		r := rng("C12", i)
		http := r.Intn(2) == 0
		theWatch.set(i, fmt.Sprintf("C12 round %d (seed %d, http %v): a client call does not return although its condition holds", i, *flagSeed, http))
		c12Round(c, r, i, http)
		theWatch.done(i)
	})
	parallel_support.POLLING_INTERVAL = 100 * time.Microsecond
	parallelDo(N(2200, 100000), 4, func(i int) {
		if c.NViol() > 3 || *flagOnly >= 0 && *flagOnly < 1000000 {
			return
		}
		i %= 1000000
		r := rng("C12s", i)
		theWatch.set(1000000+i, fmt.Sprintf("C12 storm round %d (seed %d)", i, *flagSeed))
		if i%2 == 0 {
			c12Begin(c, r, i)
		} else {
			c12Exchange(c, r, i)
		}
		theWatch.done(1000000 + i)
	})
}

func c12Server(n int, rep *recReporter, http bool, nc int) (parallel_support.Server, []parallel_support.Client) {
	protoMu.Lock()
	defer protoMu.Unlock()
	os.Setenv("GINKGO_PARALLEL_PROTOCOL", map[bool]string{true: "HTTP", false: "RPC"}[http])
	server, err := parallel_support.NewServer(n, rep)
	if err != nil {
		fatal("server: %v", err)
	}
	server.Start()
	cls := make([]parallel_support.Client, nc)
	for k := range cls {
		cls[k] = parallel_support.NewClient(server.Address())
		cls[k].Connect()
	}
	return server, cls
}

// c12Begin: many connections post spec reports while the last process announces its begin; at the end all end at once.
func c12Begin(c *Ctx, r *rand.Rand, idx int) {
	n, http := 2+r.Intn(3), r.Intn(5) == 0
	var began, ended int32
	d := time.Duration(r.Intn(300)) * time.Microsecond
	const posters, each = 8, 6
	// In gated rounds the server is held up inside a liveness callback until the callers of interest have queued up behind it,
	// and then once more: a waiter that wakes up to find the lock taken again puts the mutex into its first-come-first-served
	// mode. After that the lock passes from one to the next in turn, so whatever the server decides in one critical section
	// and acts on in another is seen with every other caller in between.
	gated := r.Intn(3) > 0
	var sent, arrived, ended1 int32
	entered := make(chan bool, 2)
	rep := &recReporter{n: int32(n), began: &began, ended: &ended, slow: func(k string) {
		if k == "begin" || k == "will" && d%3 == 0 {
			time.Sleep(d)
		}
	}}
	if gated && n < 3 {
		n = 3
		rep.n = 3
	}
	var gate int32
	holdUp := func(k int) bool {
		if k == 2 && atomic.LoadInt32(&gate) > 0 {
			first := atomic.AddInt32(&ended1, 1) == 1
			entered <- true
			for t := 0; t < 2000 && (first && (atomic.LoadInt32(&sent) < posters || atomic.LoadInt32(&arrived) < 1) || !first && atomic.LoadInt32(&ended) < int32(n)); t++ {
				time.Sleep(20 * time.Microsecond)
			}
		}
		if k <= 3 && atomic.LoadInt32(&gate) > 0 {
			time.Sleep(1500 * time.Microsecond)
			return false
		}
		return atomic.LoadInt32(&gate) == 0
	}
	server, cls := c12Server(n, rep, http, n+posters+1)
	hold := func() *sync.WaitGroup {
		wg := &sync.WaitGroup{}
		if gated {
			wg.Add(1)
			atomic.StoreInt32(&gate, 1)
			go func() {
				defer wg.Done()
				cls[n+posters].BlockUntilNonprimaryProcsHaveFinished()
			}()
			<-entered
		}
		return wg
	}
	defer server.Close()
	for k := 0; k < n; k++ {
		server.RegisterAlive(k+1, func() bool { return holdUp(k + 1) })
	}
	for k := 0; k < n-1; k++ {
		atomic.AddInt32(&began, 1)
		cls[k].PostSuiteWillBegin(types.Report{})
	}
	var wg sync.WaitGroup
	var emu sync.Mutex
	var errs []string
	after := int32(r.Intn(posters * each))
	if gated {
		after = int32(r.Intn(posters + 1))
	}
	h := hold()
	for k := 0; k < posters; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for j := 0; j < each; j++ {
				atomic.AddInt32(&sent, 1)
				if err := cls[n+k].PostDidRun(types.SpecReport{LeafNodeText: fmt.Sprintf("S%d.%d", k, j)}); err != nil {
					emu.Lock()
					errs = append(errs, err.Error())
					emu.Unlock()
				}
			}
		}(k)
	}
	for atomic.LoadInt32(&sent) < after {
		time.Sleep(5 * time.Microsecond)
	}
	atomic.AddInt32(&began, 1)
	atomic.AddInt32(&arrived, 1)
	if err := cls[n-1].PostSuiteWillBegin(types.Report{}); err != nil {
		emu.Lock()
		errs = append(errs, err.Error())
		emu.Unlock()
	}
	h.Wait()
	wg.Wait()
	h = hold()
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			atomic.AddInt32(&ended, 1)
			cls[k].PostSuiteDidEnd(types.Report{SuiteSucceeded: true, SpecReports: types.SpecReports{{LeafNodeText: fmt.Sprint(k)}}})
		}(k)
	}
	wg.Wait()
	h.Wait()
	for _, cl := range cls {
		cl.Close()
	}
	errs = append(errs, rep.errs...)
	seen := map[string]int{}
	last := map[int]int{}
	nb, ne := 0, 0
	for _, it := range rep.log {
		switch it.kind {
		case "begin":
			nb++
		case "end":
			ne++
			if len(it.rep.SpecReports) != n || !it.rep.SuiteSucceeded {
				errs = append(errs, fmt.Sprintf("merged report has %d specs from %d processes", len(it.rep.SpecReports), n))
			}
		case "did":
			if nb != 1 || ne != 0 {
				errs = append(errs, "spec forwarded outside the suite")
			}
			seen[it.text]++
			var k, j int
			fmt.Sscanf(it.text, "S%d.%d", &k, &j)
			if l, ok := last[k]; ok && j <= l {
				errs = append(errs, fmt.Sprintf("reports of connection %d out of order: %d after %d", k, j, l))
			}
			last[k] = j
		}
	}
	if nb != 1 || ne != 1 || rep.overlap == 1 {
		errs = append(errs, fmt.Sprintf("%d begins, %d ends, overlapping reporter calls: %d", nb, ne, rep.overlap))
	}
	for k := 0; k < posters; k++ {
		for j := 0; j < each; j++ {
			if t := fmt.Sprintf("S%d.%d", k, j); seen[t] != 1 {
				errs = append(errs, fmt.Sprintf("report %s reached the reporter %d times", t, seen[t]))
			}
		}
	}
	c.Count("begin storms", 1)
	var shape strings.Builder
	for _, it := range rep.log {
		if it.kind == "did" {
			shape.WriteString(it.text)
		}
	}
	c.Eval(sigHash("begin", n, http, shape.String()))
	c12Fail(c, "begin storm", idx, http, errs)
}

// c12Exchange: process 1 delivers a state and dies at once while the others are polling and the server is busy.
func c12Exchange(c *Ctx, r *rand.Rand, idx int) {
	n, http := 3+r.Intn(6), r.Intn(5) == 0
	var began, ended int32
	d := time.Duration(20+r.Intn(200)) * time.Microsecond
	rep := &recReporter{n: int32(n), began: &began, ended: &ended, slow: func(k string) { time.Sleep(d) }}
	server, cls := c12Server(n, rep, http, n+3)
	defer server.Close()
	var alive1 int32 = 1
	for k := 0; k < n; k++ {
		k := k
		server.RegisterAlive(k+1, func() bool { return k > 0 || atomic.LoadInt32(&alive1) == 1 })
	}
	stop := make(chan bool)
	var noise, wg sync.WaitGroup
	for k := 0; k < 3; k++ {
		noise.Add(1)
		go func(k int) {
			defer noise.Done()
			for {
				select {
				case <-stop:
					return
				default:
					cls[n+k].PostEmitProgressReport(types.ProgressReport{})
				}
			}
		}(k)
	}
	deliver := r.Intn(4) > 0
	which := r.Intn(2)
	var posting int32
	var emu sync.Mutex
	var errs []string
	bad := func(f string, a ...any) { emu.Lock(); errs = append(errs, fmt.Sprintf(f, a...)); emu.Unlock() }
	for k := 1; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			if which == 0 {
				st, err := cls[k].BlockUntilReportBeforeSuiteCompleted()
				if deliver && (err != nil || st != types.SpecStatePassed) {
					bad("process %d: got %v, %v although 'passed' was delivered before process 1 vanished", k+1, st, err)
				}
				if !deliver && (err != nil || st != types.SpecStateFailed) {
					bad("process %d: got %v, %v although nothing was delivered before process 1 vanished", k+1, st, err)
				}
			} else {
				st, data, err := cls[k].BlockUntilSynchronizedBeforeSuiteData()
				if deliver && (err != nil || st != types.SpecStatePassed || string(data) != "data") {
					bad("process %d: got %v, %q, %v although 'passed' and 'data' were delivered before process 1 vanished", k+1, st, data, err)
				}
				if !deliver && err == nil {
					bad("process %d: got %v although nothing was delivered before process 1 vanished", k+1, st)
				}
			}
			if atomic.LoadInt32(&posting) == 0 {
				bad("process %d was released early", k+1)
			}
		}(k)
	}
	time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
	atomic.StoreInt32(&posting, 1)
	if deliver {
		if which == 0 {
			cls[0].PostReportBeforeSuiteCompleted(types.SpecStatePassed)
		} else {
			cls[0].PostSynchronizedBeforeSuiteCompleted(types.SpecStatePassed, []byte("data"))
		}
	}
	atomic.StoreInt32(&alive1, 0)
	wg.Wait()
	close(stop)
	noise.Wait()
	for _, cl := range cls {
		cl.Close()
	}
	c.Count("exchange storms", 1)
	c.Eval(sigHash("exchange", n, http, deliver, which, len(rep.log)))
	c12Fail(c, "exchange storm", idx, http, errs)
}

func c12Fail(c *Ctx, what string, idx int, http bool, errs []string) {
	if len(errs) > 0 {
		if len(errs) > 12 {
			errs = errs[:12]
		}
		msg := fmt.Sprintf("%s %d (http %v)\n%s", what, idx, http, strings.Join(errs, "\n"))
		c.Fail("", trunc(msg, 3000), map[string][]byte{"round.txt": []byte(fmt.Sprintf("driver -prop C12 -seed %d -only %d\n%s\n", *flagSeed, 1000000+idx, msg))})
	}
}

func c12Round(c *Ctx, r *rand.Rand, idx int, http bool) {
	n := 1 + r.Intn(6)
	protoMu.Lock()
	if http {
		os.Setenv("GINKGO_PARALLEL_PROTOCOL", "HTTP")
	} else {
		os.Setenv("GINKGO_PARALLEL_PROTOCOL", "RPC")
	}
	var began, ended int32
	seeds := make([]int64, n)
	for k := range seeds {
		seeds[k] = r.Int63()
	}
	slowKind, slowD := []string{"", "begin", "did", "prog", "begin"}[r.Intn(5)], time.Duration(r.Intn(1500))*time.Microsecond
	rep := &recReporter{n: int32(n), began: &began, ended: &ended, slow: func(k string) {
		if k == slowKind {
			time.Sleep(slowD)
		}
	}}
	server, err := parallel_support.NewServer(n, rep)
	if err != nil {
		protoMu.Unlock()
		fatal("server: %v", err)
	}
	clients := make([]parallel_support.Client, n)
	for k := range clients {
		clients[k] = parallel_support.NewClient(server.Address())
	}
	protoMu.Unlock()
	out := &recWriter{}
	server.SetOutputDestination(out)
	server.Start()
	defer server.Close()

	procs := make([]*simProc, n)
	fo := fillOpts{r: r, utf8: http}
	var beginRep types.Report
	fill(reflect.ValueOf(&beginRep).Elem(), fo)
	beginRep.SpecReports = nil
	for k := range procs {
		p := &simProc{alive: 1, dieAt: stNone, flat: map[string]string{}, progs: map[string]string{}, outs: map[string]bool{}}
		if r.Intn(6) == 0 {
			p.dieAt = r.Intn(stNone)
		}
		procs[k] = p
		server.RegisterAlive(k+1, func() bool { return atomic.LoadInt32(&p.alive) == 1 })
	}
	// a process that dies right after a delivered exchange must not make the others believe nothing was delivered
	dieAfterRBS, dieAfterSBS := r.Intn(10) == 0, r.Intn(10) == 0
	rbsState := specStates[r.Intn(len(specStates))]
	sbsState := specStates[r.Intn(len(specStates))]
	sbsData := make([]byte, []int{0, 1, 10, 70000}[r.Intn(4)])
	r.Read(sbsData)
	var rbsPosting, sbsPosting, rbsPosted, sbsPosted int32
	total := r.Intn(40)
	var abortStarted, abortDone int32
	doAbort := r.Intn(3) == 0
	jitter := func(q *rand.Rand) {
		switch q.Intn(5) {
		case 0:
			time.Sleep(time.Duration(q.Intn(400)) * time.Microsecond)
		case 1:
			time.Sleep(time.Duration(q.Intn(40)) * time.Microsecond)
		}
	}
	var clock int64
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			p, cl, q := procs[k], clients[k], rand.New(rand.NewSource(seeds[k]))
			bad := func(f string, a ...any) {
				p.errs = append(p.errs, fmt.Sprintf("process %d: ", k+1)+fmt.Sprintf(f, a...))
			}
			gone := func() {
				atomic.StoreInt32(&p.alive, 0)
			}
			defer gone()
			// a side channel per process: progress reports, output, abort register
			stop := make(chan bool)
			var side sync.WaitGroup
			defer func() { close(stop); side.Wait(); cl.Close() }()
			if !cl.Connect() {
				bad("cannot connect")
				return
			}
			var sideErrs []string
			side.Add(1)
			go func() {
				defer side.Done()
				q := rand.New(rand.NewSource(seeds[k] + 1))
				for j := 0; j < 10; j++ {
					select {
					case <-stop:
						return
					default:
					}
					jitter(q)
					switch q.Intn(4) {
					case 0:
						var pr types.ProgressReport
						fill(reflect.ValueOf(&pr).Elem(), fillOpts{r: q, utf8: http})
						pr.LeafNodeText = fmt.Sprintf("P%d.%d", k, j)
						if err := cl.PostEmitProgressReport(pr); err != nil {
							sideErrs = append(sideErrs, fmt.Sprintf("progress report: %v", err))
						}
						p.progs[pr.LeafNodeText] = flat(pr)
					case 1:
						b := make([]byte, q.Intn(3000))
						q.Read(b)
						s := fmt.Sprintf("<%d.%d>", k, j) + string(b)
						if m, err := cl.Write([]byte(s)); err != nil || m != len(s) {
							sideErrs = append(sideErrs, fmt.Sprintf("Write returned %d, %v for %d bytes", m, err, len(s)))
						}
						p.outs[s] = true
					case 2:
						mustBe := atomic.LoadInt32(&abortDone) == 1
						got := cl.ShouldAbort()
						if mustBe && !got {
							sideErrs = append(sideErrs, "ShouldAbort is false after an abort was posted")
						}
						if got && atomic.LoadInt32(&abortStarted) == 0 {
							sideErrs = append(sideErrs, "ShouldAbort is true although nobody aborted")
						}
					case 3:
						if doAbort && j > 4 {
							atomic.StoreInt32(&abortStarted, 1)
							if err := cl.PostAbort(); err != nil {
								sideErrs = append(sideErrs, fmt.Sprintf("PostAbort: %v", err))
							}
							atomic.StoreInt32(&abortDone, 1)
						}
					}
				}
			}()
			defer func() {
				side.Wait()
				for _, e := range sideErrs {
					bad("%s", e)
				}
			}()
			jitter(q)
			if p.dieAt == stBegin {
				return
			}
			atomic.AddInt32(&began, 1)
			if err := cl.PostSuiteWillBegin(beginRep); err != nil {
				bad("PostSuiteWillBegin: %v", err)
			}
			p.began = true
			jitter(q)
			if p.dieAt == stRBS {
				return
			}
			if k == 0 {
				atomic.StoreInt32(&rbsPosting, 1)
				if err := cl.PostReportBeforeSuiteCompleted(rbsState); err != nil {
					bad("PostReportBeforeSuiteCompleted: %v", err)
				}
				atomic.StoreInt32(&rbsPosted, 1)
				if dieAfterRBS {
					gone()
					return
				}
			} else {
				st, err := cl.BlockUntilReportBeforeSuiteCompleted()
				switch {
				case err != nil:
					bad("BlockUntilReportBeforeSuiteCompleted: %v", err)
				case st != rbsState && atomic.LoadInt32(&rbsPosted) == 1:
					bad("ReportBeforeSuite state %v received, %v was posted", st, rbsState)
				case st == types.SpecStateFailed && atomic.LoadInt32(&rbsPosting) == 0:
					if atomic.LoadInt32(&procs[0].alive) == 1 {
						bad("told that process 1 is gone while it is alive")
					}
				case atomic.LoadInt32(&rbsPosting) == 0:
					bad("released with %v before process 1 posted anything", st)
				case st != rbsState:
					bad("ReportBeforeSuite state %v received while %v was being posted", st, rbsState)
				}
			}
			jitter(q)
			if p.dieAt == stSBS {
				return
			}
			if k == 0 {
				atomic.StoreInt32(&sbsPosting, 1)
				if err := cl.PostSynchronizedBeforeSuiteCompleted(sbsState, sbsData); err != nil {
					bad("PostSynchronizedBeforeSuiteCompleted: %v", err)
				}
				atomic.StoreInt32(&sbsPosted, 1)
				if dieAfterSBS {
					gone()
					return
				}
			} else {
				st, data, err := cl.BlockUntilSynchronizedBeforeSuiteData()
				posting, posted, alive1 := atomic.LoadInt32(&sbsPosting) == 1, atomic.LoadInt32(&sbsPosted) == 1, atomic.LoadInt32(&procs[0].alive) == 1
				switch {
				case err != nil && posted:
					bad("SynchronizedBeforeSuite data was posted but the waiting process got %v", err)
				case err != nil && alive1:
					bad("waiting for SynchronizedBeforeSuite failed with %v while process 1 is alive", err)
				case err != nil:
					if !errors.Is(err, types.GinkgoErrors.SynchronizedBeforeSuiteDisappearedOnProc1()) && err.Error() != types.GinkgoErrors.SynchronizedBeforeSuiteDisappearedOnProc1().Error() {
						bad("process 1 is gone but the error is %v", err)
					}
				case !posting:
					bad("released before process 1 posted anything")
				case st != sbsState || string(data) != string(sbsData):
					bad("SynchronizedBeforeSuite data: got state %v and %d bytes, posted %v and %d bytes", st, len(data), sbsState, len(sbsData))
				}
			}
			for j := 0; ; j++ {
				if p.dieAt == stLoop && j > 0 && q.Intn(4) == 0 {
					return
				}
				s := atomic.AddInt64(&clock, 1)
				x, err := cl.FetchNextCounter()
				e := atomic.AddInt64(&clock, 1)
				if err != nil {
					bad("FetchNextCounter: %v", err)
					break
				}
				p.counters = append(p.counters, ctr{x, s, e})
				if x >= total {
					break
				}
				var sr types.SpecReport
				fill(reflect.ValueOf(&sr).Elem(), fillOpts{r: q, utf8: http})
				sr.LeafNodeText = fmt.Sprintf("S%d.%d", k, j)
				p.flat[sr.LeafNodeText] = flat(sr)
				p.unacked = sr.LeafNodeText
				if err := cl.PostDidRun(sr); err != nil {
					bad("PostDidRun: %v", err)
				}
				p.posted = append(p.posted, sr.LeafNodeText)
				jitter(q)
			}
			if p.dieAt == stEnd {
				return
			}
			fill(reflect.ValueOf(&p.endRep).Elem(), fillOpts{r: q, utf8: http})
			p.endRep.SpecReports = nil
			for j := q.Intn(3); j > 0; j-- {
				var sr types.SpecReport
				fill(reflect.ValueOf(&sr).Elem(), fillOpts{r: q, utf8: http})
				sr.LeafNodeText = fmt.Sprintf("E%d.%d", k, j)
				p.endRep.SpecReports = append(p.endRep.SpecReports, sr)
			}
			if q.Intn(2) == 0 {
				p.endRep.SpecialSuiteFailureReasons = []string{[]string{"aborted", "timed out", "focus"}[q.Intn(3)]}
			}
			if k == 0 {
				if err := cl.BlockUntilNonprimaryProcsHaveFinished(); err != nil {
					bad("BlockUntilNonprimaryProcsHaveFinished: %v", err)
				}
				all := true
				for m := 1; m < n; m++ {
					if atomic.LoadInt32(&procs[m].alive) == 1 {
						bad("told that the other processes have finished while process %d is alive", m+1)
					}
					all = all && procs[m].ended
				}
				agg, err := cl.BlockUntilAggregatedNonprimaryProcsReport()
				if n > 1 && all {
					if err != nil {
						bad("all other processes reported but the aggregated report is unavailable: %v", err)
					} else if m := checkMerged(agg, procs[1:]); m != "" {
						bad("aggregated report: %s", m)
					}
				} else if n > 1 && err == nil {
					bad("an aggregated report was handed out although a process vanished without reporting")
				}
			}
			atomic.AddInt32(&ended, 1)
			if err := cl.PostSuiteDidEnd(p.endRep); err != nil {
				bad("PostSuiteDidEnd: %v", err)
			}
			p.ended = true
		}(k)
	}
	wg.Wait()

	var errs []string
	allBegan, allEnded, anyBegan := true, true, false
	deaths := ""
	for k, p := range procs {
		errs = append(errs, p.errs...)
		allBegan, allEnded, anyBegan = allBegan && p.began, allEnded && p.ended, anyBegan || p.began
		if !p.ended {
			deaths += fmt.Sprintf("%d@%d ", k+1, p.dieAt)
		}
	}
	rep.mu.Lock()
	log := rep.log
	errs = append(errs, rep.errs...)
	rep.mu.Unlock()
	if atomic.LoadInt32(&rep.overlap) == 1 {
		errs = append(errs, "two reporter calls overlapped")
	}
	// counter: unique, gap-free, linearizable
	var cs []ctr
	for _, p := range procs {
		cs = append(cs, p.counters...)
	}
	sort.Slice(cs, func(a, b int) bool { return cs[a].n < cs[b].n })
	for j := range cs {
		if cs[j].n != j {
			errs = append(errs, fmt.Sprintf("counter values handed out: position %d is %d", j, cs[j].n))
			break
		}
	}
	maxStart := int64(0)
	for j := range cs { // a later value must not have been obtained by a call that ended before an earlier value's call began
		if cs[j].e < maxStart {
			errs = append(errs, fmt.Sprintf("counter went backwards: value %d was obtained before a smaller one was requested", cs[j].n))
			break
		}
		if cs[j].s > maxStart {
			maxStart = cs[j].s
		}
	}
	// forwarding log
	want := map[string]string{}
	for _, p := range procs {
		for t, f := range p.flat {
			want[t] = f
		}
	}
	nb, ne := 0, 0
	seen := map[string]int{}
	last := map[string]int{}
	pending := ""
	progs := map[string]int{}
	var endRep types.Report
	for j, it := range log {
		switch it.kind {
		case "begin":
			nb++
			if j := len(seen); j > 0 {
				errs = append(errs, "suite begin announced after specs")
			}
			if f := flat(beginRep); f != it.flat {
				errs = append(errs, "suite begin report altered: "+firstDiff(f, it.flat))
			}
		case "end":
			ne++
			endRep = it.rep
			for _, l := range log[j+1:] {
				if l.kind != "prog" {
					errs = append(errs, l.kind+" after the suite end")
				}
			}
		case "will":
			if nb != 1 {
				errs = append(errs, "a spec was forwarded before the suite began")
			}
			if pending != "" {
				errs = append(errs, "WillRun "+it.text+" inside "+pending)
			}
			pending = it.text
			if want[it.text] != it.flat {
				errs = append(errs, "WillRun "+it.text+" altered: "+firstDiff(want[it.text], it.flat))
			}
		case "did":
			if pending != it.text {
				errs = append(errs, "DidRun "+it.text+" without its WillRun")
			}
			pending = ""
			seen[it.text]++
			var k, x int
			fmt.Sscanf(it.text, "S%d.%d", &k, &x)
			key := fmt.Sprint(k)
			if l, ok := last[key]; ok && x <= l {
				errs = append(errs, fmt.Sprintf("reports of process %d out of order: %d after %d", k+1, x, l))
			}
			last[key] = x
			if want[it.text] != it.flat {
				errs = append(errs, "DidRun "+it.text+" altered: "+firstDiff(want[it.text], it.flat))
			}
		case "prog":
			progs[it.text]++
			var k int
			fmt.Sscanf(it.text, "P%d.", &k)
			if procs[k].progs[it.text] != it.flat {
				errs = append(errs, "progress report "+it.text+" altered: "+firstDiff(procs[k].progs[it.text], it.flat))
			}
		}
	}
	expect := 0
	if allBegan {
		expect = 1
		for t := range want {
			if seen[t] != 1 {
				errs = append(errs, fmt.Sprintf("report %s reached the reporter %d times", t, seen[t]))
			}
		}
	} else if len(seen) > 0 {
		errs = append(errs, "specs forwarded although not every process began")
	}
	if nb != expect {
		errs = append(errs, fmt.Sprintf("suite begin announced %d times, want %d", nb, expect))
	}
	wantEnd := 0
	if allEnded {
		wantEnd = 1
	}
	if ne != wantEnd {
		errs = append(errs, fmt.Sprintf("suite end announced %d times, want %d", ne, wantEnd))
	} else if ne == 1 {
		if m := checkMerged(endRep, procs); m != "" {
			errs = append(errs, "final report: "+m)
		}
	}
	select {
	case <-server.GetSuiteDone():
		if !allEnded {
			errs = append(errs, "suite done although a process never ended")
		}
	default:
		if allEnded {
			errs = append(errs, "suite not done although every process ended")
		}
	}
	if server.SuiteDidBegin() != anyBegan {
		errs = append(errs, fmt.Sprintf("SuiteDidBegin is %v, but any process began: %v", server.SuiteDidBegin(), anyBegan))
	}
	nOut, nProg := 0, 0
	for _, p := range procs {
		for t := range p.progs {
			nProg++
			if progs[t] != 1 {
				errs = append(errs, fmt.Sprintf("progress report %s reached the reporter %d times", t, progs[t]))
			}
		}
		nOut += len(p.outs)
	}
	out.mu.Lock()
	if len(out.w) != nOut {
		errs = append(errs, fmt.Sprintf("%d writes reached the output, %d were made", len(out.w), nOut))
	}
	for _, w := range out.w {
		ok := false
		for _, p := range procs {
			ok = ok || p.outs[w]
			delete(p.outs, w)
		}
		if !ok {
			errs = append(errs, fmt.Sprintf("a write of %d bytes reached the output that nobody made (or twice)", len(w)))
		}
	}
	out.mu.Unlock()

	c.Count("rounds", 1)
	c.Count("reports forwarded", len(seen))
	c.Count("counter calls", len(cs))
	c.Count("progress reports", nProg)
	c.Count("output writes", nOut)
	if deaths != "" {
		c.Count("rounds with deaths", 1)
	}
	if http {
		c.Count("http rounds", 1)
	}
	var shape strings.Builder
	for _, it := range log {
		shape.WriteString(it.kind[:1] + it.text)
	}
	c.Eval(sigHash(http, n, deaths, dieAfterRBS, dieAfterSBS, rbsState, sbsState, shape.String()))
	if idx < 3 {
		c.Sample(map[string]any{"round": idx, "http": http, "processes": n, "deaths": deaths, "log": len(log), "counter calls": len(cs)})
	}
	if len(errs) > 0 {
		msg := fmt.Sprintf("round %d (http %v, %d processes, deaths %q)\n%s", idx, http, n, deaths, strings.Join(errs, "\n"))
		c.Fail("", trunc(msg, 3000), map[string][]byte{"round.txt": []byte(fmt.Sprintf("driver -prop C12 -seed %d -only %d\n%s\n", *flagSeed, idx, msg))})
	}
}

// checkMerged compares a merged report with the reports of the given processes (order of arrival is free).
func checkMerged(got types.Report, ps []*simProc) string {
	succ := true
	reasons := map[string]bool{}
	specs := map[string]int{}
	n := 0
	var start, end time.Time
	for i, p := range ps {
		succ = succ && p.endRep.SuiteSucceeded
		for _, x := range p.endRep.SpecialSuiteFailureReasons {
			reasons[x] = true
		}
		for _, s := range p.endRep.SpecReports {
			specs[flat(s)]++
			n++
		}
		if i == 0 || p.endRep.StartTime.Before(start) {
			start = p.endRep.StartTime
		}
		if i == 0 || p.endRep.EndTime.After(end) {
			end = p.endRep.EndTime
		}
	}
	if got.SuiteSucceeded != succ {
		return fmt.Sprintf("success %v, want %v", got.SuiteSucceeded, succ)
	}
	if len(got.SpecReports) != n {
		return fmt.Sprintf("%d spec reports, want %d", len(got.SpecReports), n)
	}
	for _, s := range got.SpecReports {
		f := flat(s)
		if specs[f] == 0 {
			return "a spec report that was not posted: " + trunc(f, 300)
		}
		specs[f]--
	}
	gr := map[string]bool{}
	for _, x := range got.SpecialSuiteFailureReasons {
		if gr[x] && len(ps) > 1 {
			return "reason listed twice: " + x
		}
		gr[x] = true
		if !reasons[x] {
			return "unknown reason " + x
		}
	}
	if len(gr) != len(reasons) {
		return fmt.Sprintf("reasons %v, want %v", got.SpecialSuiteFailureReasons, reasons)
	}
	if !got.StartTime.Equal(start) || !got.EndTime.Equal(end) {
		return fmt.Sprintf("interval %v..%v, want %v..%v", got.StartTime, got.EndTime, start, end)
	}
	return ""
}

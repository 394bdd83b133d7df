package interp_test

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	. "github.com/onsi/ginkgo/v2"
	"github.com/onsi/ginkgo/v2/internal/zzverif/sdoc"
)

// Acts for C27: bodies that know what a progress report taken now has to say, ask for one and log both.

type prState struct {
	steps []string // steps a report may name
	ctx   []prRep  // reporters attached to this node's context
}

type prRep struct {
	s, v string
	d    func()
}

var (
	prMu     sync.Mutex
	prNodes  = map[*state]*prState{}
	prGlobal []prRep
	prOut    string // what has been written to the GinkgoWriter for the current report
	prKey    string
)

// prWant is logged with every report that was asked for.
type prWant struct {
	Index int      // of the report among the spec's progress reports
	Steps []string // allowed steps
	GW    string
	Adds  []string
	Goid  uint64
	Child uint64
	Fn    string
	Text  string
	What  string
	Once  bool
	Ready int64    // wall clock when the node was parked
	Fails []string // reporters that panicked or failed while they were queried
}

func prOf(st *state) *prState {
	if prNodes[st] == nil {
		prNodes[st] = &prState{}
	}
	return prNodes[st]
}

func goid() uint64 {
	b := make([]byte, 64)
	b = b[:runtime.Stack(b, false)]
	n, _ := strconv.ParseUint(strings.Fields(string(b))[1], 10, 64)
	return n
}

func prBlock(f func()) { f() }

func prDeep(n int, f func()) {
	if n == 0 {
		f()
		return
	}
	prDeep(n-1, f)
	runtime.KeepAlive(n)
}

func prNew(st *state) string {
	key := fmt.Sprintf("S%d", st.spec)
	if st.spec == 0 {
		key = fmt.Sprintf("N%d", st.id)
	}
	if key != prKey {
		prKey, prOut = key, ""
	}
	return key
}

func init() {
	hooks["prgw"] = func(st *state, a *sdoc.Act) {
		prMu.Lock()
		defer prMu.Unlock()
		prNew(st)
		GinkgoWriter.Print(a.S)
		prOut += a.S
	}
	hooks["prby"] = func(st *state, a *sdoc.Act) {
		set := func(s ...string) {
			prMu.Lock()
			prOf(st).steps = s
			prMu.Unlock()
		}
		if a.V != "cb" {
			By(a.S)
			set(a.S)
			return
		}
		outer := prOf(st).steps
		By(a.S, func() {
			set(a.S)
			for i := range a.B {
				if a.B[i].Applies(st.inv, st.spec, proc) {
					do(st, &a.B[i])
				}
			}
		})
		set(append([]string{""}, outer...)...)
	}
	hooks["prattach"] = func(st *state, a *sdoc.Act) {
		f := func() string {
			switch a.V {
			case "panic":
				panic("reporter panics " + a.S)
			case "fail":
				Fail("reporter fails " + a.S)
			case "stuck":
				time.Sleep(8 * time.Second)
			case "slow":
				time.Sleep(time.Duration(a.N) * time.Millisecond)
			case "empty":
				return " \n "
			case "api":
				AddReportEntry("rep"+a.S, ReportEntryVisibilityNever)
				return a.S + CurrentSpecReport().LeafNodeText
			}
			return a.S
		}
		prMu.Lock()
		defer prMu.Unlock()
		r := prRep{s: a.S, v: a.V}
		if sc, ok := st.ctx.(SpecContext); ok && len(a.A) > 0 {
			r.d = sc.AttachProgressReporter(f)
			prOf(st).ctx = append(prOf(st).ctx, r)
		} else {
			r.d = AttachProgressReporter(f)
			prGlobal = append(prGlobal, r)
		}
	}
	hooks["prdetach"] = func(st *state, a *sdoc.Act) {
		prMu.Lock()
		defer prMu.Unlock()
		rm := func(rs []prRep) (out []prRep) {
			for _, r := range rs {
				if r.s == a.S {
					r.d()
				} else {
					out = append(out, r)
				}
			}
			return
		}
		prGlobal = rm(prGlobal)
		prOf(st).ctx = rm(prOf(st).ctx)
	}
	// prpark: ask for a report and wait until it has been emitted
	hooks["prpark"] = func(st *state, a *sdoc.Act) {
		prMu.Lock()
		prNew(st)
		r := CurrentSpecReport()
		w := prWant{Index: len(r.ProgressReports), Steps: append([]string{}, prOf(st).steps...), GW: prOut, Goid: goid(), Fn: "prAt" + a.V, Text: r.LeafNodeText}
		if len(w.Steps) == 0 {
			w.Steps = []string{""}
		}
		for _, x := range append(append([]prRep{}, prOf(st).ctx...), prGlobal...) {
			switch x.v {
			case "panic":
				w.Fails = append(w.Fails, "reporter panics "+x.s)
				w.Adds = append(w.Adds, "failed to query attached progress reporter")
			case "fail":
				w.Fails = append(w.Fails, "reporter fails "+x.s)
				w.Adds = append(w.Adds, "failed to query attached progress reporter")
			case "empty":
			case "stuck":
			case "api":
				w.Adds = append(w.Adds, x.s+r.LeafNodeText)
			default:
				w.Adds = append(w.Adds, x.s)
			}
		}
		prMu.Unlock()
		stop, ready := make(chan bool), make(chan bool, 1)
		if a.S == "child" { // a goroutine of interest
			go func() {
				w.Child = goid()
				prAt3(func() { ready <- true; <-stop })
			}()
			<-ready
		}
		park := func() {
			prTake(&w)
			if w.Once = len(a.A) > 0; w.What == "" && !w.Once {
				prTake(&w) // when this one is recorded the first one has been printed
			}
		}
		if a.S == "elsewhere" { // the request is made by another goroutine, which is not of interest
			inner := park
			park = func() {
				done := make(chan bool)
				go func() { time.Sleep(time.Millisecond); inner(); close(done) }()
				<-done
			}
		}
		f := prParks[a.V]
		if a.N > 0 {
			prDeep(a.N, func() { f(park) })
		} else {
			f(park)
		}
		close(stop)
		b, _ := json.Marshal(w)
		emit(sdoc.Event{E: "pr", N: st.id, Spec: st.spec, Inv: st.inv, X: string(b)})
	}
	// prctx: wait for the context to be cancelled; the report is the one taken when the timeout occurred
	hooks["prctx"] = func(st *state, a *sdoc.Act) {
		prMu.Lock()
		prNew(st)
		r := CurrentSpecReport()
		w := prWant{Index: -1, Steps: append([]string{}, prOf(st).steps...), GW: prOut, Goid: goid(), Fn: "prAt2", Text: r.LeafNodeText}
		if len(w.Steps) == 0 {
			w.Steps = []string{""}
		}
		for _, x := range append(append([]prRep{}, prOf(st).ctx...), prGlobal...) {
			w.Adds = append(w.Adds, x.s)
		}
		prMu.Unlock()
		prAt2(func() { w.Ready = time.Now().UnixNano(); <-st.ctx.Done() })
		b, _ := json.Marshal(w)
		emit(sdoc.Event{E: "pr", N: st.id, Spec: st.spec, Inv: st.inv, X: string(b)})
	}
	// prleak: never return
	hooks["prleak"] = func(st *state, a *sdoc.Act) {
		prAt2(func() { select {} })
	}
	// prpoll: wait until N polled reports have been emitted, then for a.V milliseconds
	hooks["prpoll"] = func(st *state, a *sdoc.Act) {
		n0 := len(CurrentSpecReport().ProgressReports)
		for t := now(); len(CurrentSpecReport().ProgressReports) < n0+a.N; {
			time.Sleep(2 * time.Millisecond)
			if now()-t > int64(60*time.Second) {
				emit(sdoc.Event{E: "nopr", N: st.id, Spec: st.spec, Inv: st.inv, X: "poll"})
				break
			}
		}
		ms, _ := strconv.Atoi(a.V)
		time.Sleep(time.Duration(ms) * time.Millisecond)
		emit(sdoc.Event{E: "polled", N: st.id, Spec: st.spec, Inv: st.inv, Ln: n0, X: strconv.Itoa(len(CurrentSpecReport().ProgressReports) - n0)})
	}
}

func prTake(w *prWant) {
	n := len(CurrentSpecReport().ProgressReports)
	syscall.Kill(os.Getpid(), syscall.SIGUSR1)
	for t := now(); len(CurrentSpecReport().ProgressReports) == n; {
		time.Sleep(time.Millisecond)
		if now()-t > int64(60*time.Second) {
			w.What = "no report"
			return
		}
	}
}

var prParks = map[string]func(func()){"1": prAt1, "2": prAt2, "3": prAt3, "4": prAt4}

// The functions below have their source in a file the driver writes below a --source-root.
// The last one is beyond the end of that file.

//line /synthetic/prog.go:1
func prAt1(f func()) { f(); runtime.KeepAlive(f) }

//line /synthetic/prog.go:2
func prAt2(f func()) { f(); runtime.KeepAlive(f) }

//line /synthetic/prog.go:30
func prAt3(f func()) { f(); runtime.KeepAlive(f) }

//line /synthetic/prog.go:500
func prAt4(f func()) { f(); runtime.KeepAlive(f) }

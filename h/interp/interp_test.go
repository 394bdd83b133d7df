package interp_test

import (
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
	"unsafe"

	. "github.com/onsi/ginkgo/v2"
	"github.com/onsi/ginkgo/v2/internal/zzverif/sdoc"
	"github.com/onsi/ginkgo/v2/types"
)

var suite sdoc.Suite
var logF *os.File
var logMu sync.Mutex
var proc = 1
var invs = map[string]int{}
var teeBuf = map[string]*lockedBuf{}

type lockedBuf struct {
	mu sync.Mutex
	b  []byte
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	l.b = append(l.b, p...)
	l.mu.Unlock()
	return len(p), nil
}

func now() int64 {
	var ts syscall.Timespec
	syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 1, uintptr(unsafe.Pointer(&ts)), 0)
	return ts.Nano()
}

func emit(e sdoc.Event) {
	if logF == nil {
		return
	}
	e.P = proc
	logMu.Lock()
	e.T = now()
	b, _ := json.Marshal(e)
	logF.Write(append(b, '\n'))
	logMu.Unlock()
}

// curSpec identifies the current spec from the framework's own report: subject texts look like "S<id>..." .
func specOf(text string) int {
	if !strings.HasPrefix(text, "S") {
		return 0
	}
	j := 1
	for j < len(text) && text[j] >= '0' && text[j] <= '9' {
		j++
	}
	n, _ := strconv.Atoi(text[1:j])
	return n
}

var timesOn = os.Getenv("VERIF_TIMES") != ""

// emitClock logs the wall clock (read between the event before and this one) and the times of the current report.
func emitClock(id, spec int, r types.SpecReport) {
	w := time.Now().UnixNano()
	ns := func(t time.Time) int64 {
		if t.IsZero() {
			return 0
		}
		return t.UnixNano()
	}
	b, _ := json.Marshal([]int64{w, ns(r.StartTime), ns(r.EndTime), int64(r.RunTime)})
	emit(sdoc.Event{E: "clock", N: id, Spec: spec, X: string(b)})
}

func line() int { _, _, l, _ := runtime.Caller(1); return l }

func run(id, part int, ctx context.Context, body []sdoc.Act, x string) {
	r := CurrentSpecReport()
	spec := specOf(r.LeafNodeText)
	key := fmt.Sprintf("%d/%d/%d", id, part, spec)
	logMu.Lock()
	inv := invs[key]
	invs[key]++
	logMu.Unlock()
	if ctx != nil {
		x += "|ctx=" + errS(ctx)
		logMu.Lock()
		live := 0
		for _, c := range ctxs {
			if c.Err() == nil {
				live++
			}
		}
		ctxs = append(ctxs, ctx)
		logMu.Unlock()
		if live > 0 {
			emit(sdoc.Event{E: "prevlive", N: id, Spec: spec, Inv: live})
		}
	}
	emit(sdoc.Event{E: "enter", N: id, Part: part, Spec: spec, Inv: inv, Att: r.NumAttempts, X: x})
	if worldOn {
		emitWorld(id, spec)
	}
	if timesOn {
		emitClock(id, spec, r)
	}
	ok := false
	defer func() {
		emit(sdoc.Event{E: "exit", N: id, Part: part, Spec: spec, Inv: inv, OK: ok, X: "ctx=" + errS(ctx)})
	}()
	st := &state{id: id, spec: spec, inv: inv, ctx: ctx}
	for i := range body {
		if body[i].Applies(inv, spec, proc) {
			do(st, &body[i])
		}
	}
	ok = true
}

var ctxs []context.Context // contexts handed to earlier nodes

func errS(ctx context.Context) string {
	if ctx == nil {
		return "-"
	}
	if e := ctx.Err(); e != nil {
		return e.Error()
	}
	return "live"
}

type state struct {
	id, spec, inv int
	ctx           context.Context
}

type stringer struct{ s string }

func (s stringer) String() string { return "STR<" + s.s + ">" }

func panicVal(a *sdoc.Act) any {
	switch a.V {
	case "err":
		return errors.New(a.S)
	case "int":
		return a.N
	case "struct":
		return struct{ A string }{a.S}
	}
	return a.S
}

var hooks = map[string]func(st *state, a *sdoc.Act){}

func do(st *state, a *sdoc.Act) {
	act := func(l int) {
		emit(sdoc.Event{E: "act", N: st.id, Spec: st.spec, Inv: st.inv, X: a.K + ":" + a.S, Ln: l})
	}
	if timesOn {
		emit(sdoc.Event{E: "a0", N: st.id, Spec: st.spec, X: a.K})
		defer func() { emit(sdoc.Event{E: "a1", N: st.id, Spec: st.spec, X: a.K}) }()
	}
	if (a.K == "gw" || a.K == "by" || a.K == "entry") && strings.HasPrefix(a.S, "mk") {
		emit(sdoc.Event{E: "tl", N: st.id, Spec: st.spec, Inv: st.inv, X: a.K + ":" + a.S})
	}
	switch a.K {
	case "fail":
		act(line() + 1)
		Fail(a.S)
	case "failoff":
		act(line() + 1)
		failHelper(a.S)
	case "panic":
		act(line())
		switch a.V {
		case "nilmap":
			var m map[string]int
			m["x"] = 1
		case "index":
			var s []int
			_ = s[a.N]
		case "nilderef":
			var p *sdoc.Act
			_ = p.K
		}
		panic(panicVal(a))
	case "goexit":
		act(line())
		runtime.Goexit()
	case "skip":
		act(line() + 1)
		Skip(a.S)
	case "abort":
		act(line() + 1)
		AbortSuite(a.S)
	case "rfail": // fail, swallow the panic, carry on
		act(line() + 3)
		func() {
			defer func() { recover() }()
			Fail(a.S)
		}()
	case "rskip":
		act(line() + 3)
		func() {
			defer func() { recover() }()
			Skip(a.S)
		}()
	case "gofail": // fail in a goroutine with GinkgoRecover and wait for it
		c := make(chan struct{})
		act(line() + 4)
		go func() {
			defer close(c)
			defer GinkgoRecover()
			Fail(a.S)
		}()
		<-c
	case "gopanic":
		c := make(chan struct{})
		act(line())
		go func() {
			defer close(c)
			defer GinkgoRecover()
			panic(panicVal(a))
		}()
		<-c
	case "gofailn": // N goroutines fail concurrently
		act(line())
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < a.N; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer GinkgoRecover()
				<-start
				Fail(fmt.Sprintf("%s#%d", a.S, i))
			}()
		}
		close(start)
		wg.Wait()
	case "declare":
		build(a.Decl)
	case "xdefer", "xby", "xentry", "xfail", "xskip", "xpanic":
		doRaw(a, st.id)
	case "defer":
		doDefer(st, a)
	case "by":
		if a.V == "cb" {
			By(a.S, func() {
				for i := range a.B {
					if a.B[i].Applies(st.inv, st.spec, proc) {
						do(st, &a.B[i])
					}
				}
				if strings.HasPrefix(a.S, "mk") {
					emit(sdoc.Event{E: "tl", N: st.id, Spec: st.spec, Inv: st.inv, X: "byend:" + a.S})
				}
			})
		} else {
			By(a.S)
		}
	case "gw":
		if a.V == "printf" {
			GinkgoWriter.Printf("%s", a.S)
		} else if a.V == "println" {
			GinkgoWriter.Println(a.S)
		} else if a.V == "print" {
			GinkgoWriter.Print(a.S)
		} else if a.V == "logr" {
			GinkgoLogr.Info(a.S, "k", a.N)
		} else {
			GinkgoWriter.Write([]byte(a.S))
		}
	case "tee":
		b := &lockedBuf{}
		logMu.Lock()
		teeBuf[a.S] = b
		logMu.Unlock()
		GinkgoWriter.TeeTo(b)
	case "untee":
		GinkgoWriter.ClearTeeWriters()
	case "teedump":
		logMu.Lock()
		b := teeBuf[a.S]
		logMu.Unlock()
		if b != nil {
			b.mu.Lock()
			x := string(b.b)
			b.mu.Unlock()
			emit(sdoc.Event{E: "tee", N: st.id, Spec: st.spec, X: x})
		}
	case "stdout":
		os.Stdout.WriteString(a.S)
	case "stderr":
		os.Stderr.WriteString(a.S)
	case "fd1":
		syscall.Write(1, []byte(a.S))
	case "fd2":
		syscall.Write(2, []byte(a.S))
	case "bulk": // N KiB of numbered lines to stdout
		var sb strings.Builder
		for i := 0; sb.Len() < a.N*1024; i++ {
			fmt.Fprintf(&sb, "%s-%07d\n", a.S, i)
		}
		if a.V == "err" {
			os.Stderr.WriteString(sb.String())
		} else {
			os.Stdout.WriteString(sb.String())
		}
	case "child":
		cmd := exec.Command("/bin/sh", "-c", "printf '%s' \"$1\"; printf '%s' \"$2\" >&2", "sh", a.S, "e:"+a.S)
		cmd.Stdout = os.Stdout
		cmd.Stderr = os.Stderr
		cmd.Run()
	case "pauseio":
		PauseOutputInterception()
	case "resumeio":
		ResumeOutputInterception()
	case "fds":
		ents, _ := os.ReadDir("/proc/self/fd")
		emit(sdoc.Event{E: "fds", N: st.id, Spec: st.spec, Inv: len(ents), Att: runtime.NumGoroutine()})
	case "entry":
		var args []any
		switch a.V {
		case "str":
			args = append(args, a.A[0])
		case "map":
			args = append(args, map[string]any{"k": a.A[0]})
		case "stringer":
			args = append(args, stringer{a.A[0]})
		case "chan":
			args = append(args, make(chan int))
		case "nan":
			args = append(args, math.NaN())
		case "bigint":
			args = append(args, uint64(9007199254740993))
		case "struct":
			args = append(args, struct {
				A string
				B []int64
				C map[string]any `json:"c"`
			}{a.A[0], []int64{1 << 60, 3}, map[string]any{"x": 1.5, "y": nil}})
		case "nilptr":
			args = append(args, (*stringer)(nil))
		case "int":
			args = append(args, a.N)
		}
		if len(a.A) > 1 {
			switch a.A[1] {
			case "never":
				args = append(args, ReportEntryVisibilityNever)
			case "fail":
				args = append(args, ReportEntryVisibilityFailureOrVerbose)
			}
		}
		AddReportEntry(a.S, args...)
	case "sleep":
		time.Sleep(time.Duration(a.N) * time.Millisecond)
	case "nap": // sleep, but honour cancellation
		select {
		case <-st.ctx.Done():
			emit(sdoc.Event{E: "napcut", N: st.id, Spec: st.spec, Inv: st.inv, X: context.Cause(st.ctx).Error()})
		case <-time.After(time.Duration(a.N) * time.Millisecond):
		}
	case "waitctx": // honour cancellation; N is a safety net in ms
		if st.ctx != nil {
			select {
			case <-st.ctx.Done():
				emit(sdoc.Event{E: "cancelled", N: st.id, Spec: st.spec, Inv: st.inv, X: context.Cause(st.ctx).Error()})
			case <-time.After(time.Duration(a.N) * time.Millisecond):
				emit(sdoc.Event{E: "safety", N: st.id, Spec: st.spec, Inv: st.inv})
			}
		} else {
			time.Sleep(time.Duration(a.N) * time.Millisecond)
		}
	case "block": // ignore cancellation until the file S appears (or N ms have passed)
		emit(sdoc.Event{E: "blocked", N: st.id, Spec: st.spec, Inv: st.inv})
		for t := time.Now(); time.Since(t) < time.Duration(a.N)*time.Millisecond; time.Sleep(time.Millisecond) {
			if a.S != "" {
				if _, err := os.Stat(filepath.Join(os.Getenv("VERIF_DIR"), a.S)); err == nil {
					emit(sdoc.Event{E: "released", N: st.id, Spec: st.spec, Inv: st.inv})
					return
				}
			}
		}
		emit(sdoc.Event{E: "safety", N: st.id, Spec: st.spec, Inv: st.inv})
	case "interrupt": // N signals to the whole process group, each after the effect of the one before
		s := syscall.SIGINT
		if a.S == "term" {
			s = syscall.SIGTERM
		}
		for i := 0; i < a.N; i++ {
			emit(sdoc.Event{E: "sig", N: st.id, Spec: st.spec, Inv: st.inv, Att: i})
			syscall.Kill(0, s)
			if i == 0 && st.ctx != nil {
				select {
				case <-st.ctx.Done():
					emit(sdoc.Event{E: "cancelled", N: st.id, Spec: st.spec, Inv: st.inv, X: context.Cause(st.ctx).Error()})
				case <-time.After(20 * time.Second):
					emit(sdoc.Event{E: "safety", N: st.id, Spec: st.spec, Inv: st.inv})
				}
			}
		}
		if a.V == "block" || a.N > 1 || st.ctx == nil {
			time.Sleep(20 * time.Second)
			emit(sdoc.Event{E: "safety", N: st.id, Spec: st.spec, Inv: st.inv})
		}
	case "sig":
		s := syscall.SIGINT
		if a.V == "term" {
			s = syscall.SIGTERM
		} else if a.V == "usr1" {
			s = syscall.SIGUSR1
		}
		emit(sdoc.Event{E: "sig", N: st.id, Spec: st.spec, Inv: st.inv, X: a.V})
		syscall.Kill(os.Getpid(), s)
	case "sigparent":
		emit(sdoc.Event{E: "sigparent", N: st.id, Spec: st.spec, Inv: st.inv, X: a.V})
		syscall.Kill(os.Getppid(), syscall.SIGINT)
	case "exit":
		emit(sdoc.Event{E: "die", N: st.id, Spec: st.spec, X: "exit"})
		if a.V == "os" {
			os.Exit(a.N)
		}
		syscall.Exit(a.N) // not caught by -test.paniconexit0
	case "kill":
		emit(sdoc.Event{E: "die", N: st.id, Spec: st.spec, X: "kill"})
		syscall.Kill(os.Getpid(), syscall.SIGKILL)
		time.Sleep(time.Minute)
	case "gocrash": // uncaught panic on another goroutine
		emit(sdoc.Event{E: "die", N: st.id, Spec: st.spec, X: "gocrash"})
		go panic("verif crash")
		time.Sleep(time.Minute)
	case "stopped": // wait (bounded) for a file to appear: cross-process scheduling control
		for i := 0; i < a.N; i++ {
			if _, err := os.Stat(filepath.Join(os.Getenv("VERIF_DIR"), a.S)); err == nil {
				return
			}
			time.Sleep(time.Millisecond)
		}
	case "touch":
		os.WriteFile(filepath.Join(os.Getenv("VERIF_DIR"), a.S), nil, 0644)
	case "tfatal":
		act(line() + 1)
		GinkgoT().Fatal(a.S)
	case "terrorf":
		act(line() + 1)
		GinkgoT().Errorf("%s", a.S)
	case "tfail":
		act(line() + 1)
		GinkgoT().Fail()
	case "tskip":
		act(line() + 1)
		GinkgoT().Skip(a.S)
	case "tlog":
		GinkgoT().Log(a.S)
	case "tcleanup":
		GinkgoT().Cleanup(func() { run(a.ID, 0, nil, a.B, "") })
		emit(sdoc.Event{E: "reg", N: a.ID, Spec: st.spec, Inv: st.inv, Part: st.id})
	case "tsetenv":
		GinkgoT().Setenv(a.S, a.V)
	case "tunsetenv":
		os.Unsetenv(a.S)
	case "ttempdir":
		d := GinkgoT().TempDir()
		os.WriteFile(filepath.Join(d, "f"), []byte("x"), 0644)
		fi, err := os.Stat(d)
		emit(sdoc.Event{E: "tempdir", N: st.id, Spec: st.spec, Inv: st.inv, X: d, OK: err == nil && fi.IsDir()})
	case "tchdir":
		GinkgoT().Chdir(a.S)
	case "tfailed":
		emit(sdoc.Event{E: "tfailed", N: st.id, Spec: st.spec, Inv: st.inv, OK: GinkgoT().Failed(), X: GinkgoT().Name()})
	case "env": // observe environment, cwd
		wd, _ := os.Getwd()
		v, set := os.LookupEnv(a.S)
		emit(sdoc.Event{E: "env", N: st.id, Spec: st.spec, Inv: st.inv, X: v + "\x00" + wd + "\x00" + os.Getenv("PWD"), OK: set})
	case "exists":
		_, err := os.Stat(a.S)
		emit(sdoc.Event{E: "exists", N: st.id, Spec: st.spec, X: a.S, OK: err == nil})
	case "report":
		r := CurrentSpecReport()
		emit(sdoc.Event{E: "report", N: st.id, Spec: st.spec, Att: r.NumAttempts, Part: len(r.ReportEntries), X: r.State.String() + "|" + r.FullText()})
	case "usr1storm": // ask for progress reports every N microseconds for the rest of the run
		go func() {
			for {
				time.Sleep(time.Duration(a.N) * time.Microsecond)
				syscall.Kill(os.Getpid(), syscall.SIGUSR1)
			}
		}()
	case "bgentries": // a background goroutine that outlives its node and keeps adding report entries
		go func() {
			for i := 0; ; i++ {
				time.Sleep(time.Duration(a.N) * time.Microsecond)
				AddReportEntry(fmt.Sprintf("bg%d", i), ReportEntryVisibilityNever)
			}
		}()
	case "payload":
		// handled by SynchronizedBeforeSuite
	case "storm": // concurrent use of the API: N goroutines; waits for all
		storm(st, a)
	case "attach":
		attach(st, a)
	default:
		if h, ok := hooks[a.K]; ok {
			h(st, a)
			return
		}
		panic("interp: unknown act " + a.K)
	}
}

var detachers = map[string]func(){}

func attach(st *state, a *sdoc.Act) {
	body := func() string {
		if a.V == "panic" {
			panic("reporter panics " + a.S)
		}
		if a.V == "fail" {
			Fail("reporter fails " + a.S)
		}
		if a.V == "slow" {
			time.Sleep(time.Duration(a.N) * time.Millisecond)
		}
		return "PR<" + a.S + ">"
	}
	if a.V == "detach" {
		logMu.Lock()
		d := detachers[a.S]
		logMu.Unlock()
		if d != nil {
			d()
		}
		return
	}
	var d func()
	if sc, ok := st.ctx.(SpecContext); ok && len(a.A) > 0 && a.A[0] == "ctx" {
		d = sc.AttachProgressReporter(body)
	} else {
		d = AttachProgressReporter(body)
	}
	logMu.Lock()
	detachers[a.S] = d
	logMu.Unlock()
}

func storm(st *state, a *sdoc.Act) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	rounds := 12
	for g := 0; g < a.N; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer GinkgoRecover()
			<-start
			for i := 0; i < rounds; i++ {
				tag := fmt.Sprintf("%s-g%d-i%d", a.S, g, i)
				switch (g + i) % 5 {
				case 0:
					AddReportEntry("storm:"+tag, tag)
				case 1:
					By("storm:" + tag)
				case 2:
					GinkgoWriter.Printf("<storm:%s>\n", tag)
				case 3:
					_ = CurrentSpecReport().FullText()
					d := AttachProgressReporter(func() string { return tag })
					d()
				case 4:
					if a.V == "nocb" {
						By("storm:" + tag)
					} else {
						By("storm:"+tag, func() { fmt.Fprintf(GinkgoWriter, "<storm:%s>\n", tag) })
					}
				}
			}
		}()
	}
	close(start)
	if strings.Contains(a.V, "usr1") {
		syscall.Kill(os.Getpid(), syscall.SIGUSR1)
	}
	wg.Wait()
}

func failHelper(s string) { Fail(s, 1) }

func doDefer(st *state, a *sdoc.Act) {
	id, b := a.ID, a.B
	loc := types.CodeLocation{FileName: "/synthetic/cleanup.go", LineNumber: id}
	dec := []any{loc}
	for _, x := range a.A {
		k, v, _ := strings.Cut(x, "=")
		n, _ := strconv.Atoi(v)
		switch d := time.Duration(n) * time.Millisecond; k {
		case "nt":
			dec = append(dec, NodeTimeout(d))
		case "grace":
			dec = append(dec, GracePeriod(d))
		}
	}
	switch a.V {
	case "ctx":
		DeferCleanup(append([]any{func(ctx SpecContext) { run(id, 0, ctx, b, "") }}, dec...)...)
	case "ctxarg":
		DeferCleanup(append([]any{func(ctx context.Context, s string, n int) { run(id, 0, ctx, b, fmt.Sprintf("args=%s,%d", s, n)) }, a.S, a.N}, dec...)...)
	case "ctxargctx": // an explicit context argument is handed through instead of the framework's
		DeferCleanup(func(ctx context.Context, s string) {
			run(id, 0, nil, b, fmt.Sprintf("args=%s,%v", s, ctx.Value(ctxKey{})))
		}, context.WithValue(context.Background(), ctxKey{}, "mine"), a.S, loc)
	case "arg":
		DeferCleanup(func(s string, n int) { run(id, 0, nil, b, fmt.Sprintf("args=%s,%d", s, n)) }, a.S, a.N, loc)
	case "variadic":
		DeferCleanup(func(n int, s ...string) { run(id, 0, nil, b, fmt.Sprintf("args=%d,%v", n, s)) }, a.N, a.S, "z", loc)
	case "err": // returns an error: fails
		DeferCleanup(func() error { run(id, 0, nil, b, ""); return errors.New(a.S) }, loc)
	case "nilerr":
		DeferCleanup(func() error { run(id, 0, nil, b, ""); return nil }, loc)
	case "valerr":
		DeferCleanup(func() (int, error) { run(id, 0, nil, b, ""); return 3, errors.New(a.S) }, loc)
	case "val":
		DeferCleanup(func() (error, int) { run(id, 0, nil, b, ""); return errors.New("not last"), 3 }, loc)
	default:
		DeferCleanup(func() { run(id, 0, nil, b, "") }, loc)
	}
	emit(sdoc.Event{E: "reg", N: id, Spec: st.spec, Inv: st.inv, Part: st.id})
}

type ctxKey struct{}

func decorators(n *sdoc.Node) []any {
	var d []any
	if n.Loc.F != "" {
		d = append(d, types.CodeLocation{FileName: n.Loc.F, LineNumber: n.Loc.L})
	}
	if n.Focus && n.Via != "fx" {
		d = append(d, Focus)
	}
	if n.Pending && n.Via != "fx" {
		d = append(d, Pending)
	}
	if n.Serial {
		d = append(d, Serial)
	}
	if n.Ordered {
		d = append(d, Ordered)
	}
	if n.ContOnFail {
		d = append(d, ContinueOnFailure)
	}
	if n.OncePerOrdered {
		d = append(d, OncePerOrdered)
	}
	if n.Flake > 0 {
		d = append(d, FlakeAttempts(n.Flake))
	}
	if n.MustPass > 0 {
		d = append(d, MustPassRepeatedly(n.MustPass))
	}
	if len(n.Labels) > 0 {
		d = append(d, Label(n.Labels...))
	}
	ms := func(x int) time.Duration { return time.Duration(x) * time.Millisecond }
	if n.NodeTimeout > 0 {
		d = append(d, NodeTimeout(ms(n.NodeTimeout)))
	}
	if n.SpecTimeout > 0 {
		d = append(d, SpecTimeout(ms(n.SpecTimeout)))
	}
	if n.HasGrace {
		d = append(d, GracePeriod(ms(n.GracePeriod)))
	}
	if n.HasPoll {
		d = append(d, PollProgressAfter(ms(n.PollAfter)), PollProgressInterval(ms(n.PollEvery)))
	}
	return d
}

func bodyFor(n *sdoc.Node) any {
	if n.Ctx {
		if n.Via == "context" {
			return func(ctx context.Context) { run(n.ID, 0, ctx, n.Body, "") }
		}
		return func(ctx SpecContext) { run(n.ID, 0, ctx, n.Body, "") }
	}
	return func() { run(n.ID, 0, nil, n.Body, "") }
}

func specReportX(r SpecReport) string {
	b, _ := json.Marshal(map[string]any{"text": r.FullText(), "leaf": r.LeafNodeText, "state": r.State.String(), "fail": r.Failure.Message,
		"att": r.NumAttempts, "nadd": len(r.AdditionalFailures), "gw": r.CapturedGinkgoWriterOutput, "nent": len(r.ReportEntries), "proc": r.ParallelProcess})
	return string(b)
}

func reportX(r Report) string {
	type sr struct {
		Leaf, Type, State string
		Proc              int
		Msg               string
	}
	var specs []sr
	for _, s := range r.SpecReports {
		specs = append(specs, sr{s.LeafNodeText, s.LeafNodeType.String(), s.State.String(), s.ParallelProcess, s.Failure.Message})
	}
	b, _ := json.Marshal(map[string]any{"ok": r.SuiteSucceeded, "specs": specs, "total": r.PreRunStats.TotalSpecs, "will": r.PreRunStats.SpecsThatWillRun, "reasons": r.SpecialSuiteFailureReasons, "focus": r.SuiteHasProgrammaticFocus})
	return string(b)
}

func build(n *sdoc.Node) {
	if n.K == "acts" { // calls made while the tree is constructed
		for i := range n.Body {
			doRaw(&n.Body[i], n.ID)
		}
		return
	}
	if n.Table != nil {
		buildTable(n)
		return
	}
	if n.Raw != nil {
		buildRaw(n)
		return
	}
	d := decorators(n)
	kids := func() {
		emit(sdoc.Event{E: "tree", N: n.ID})
		for _, k := range n.Kids {
			build(k)
		}
	}
	switch n.K {
	case "container":
		f := Describe
		if n.Via == "fx" && n.Focus {
			f = FDescribe
		} else if n.Via == "fx" && n.Pending {
			f = PDescribe
		} else if n.Via == "context" {
			f = Context
		} else if n.Via == "when" {
			f = When
		}
		f(n.Text, append(d, kids)...)
	case "it":
		f := It
		if n.Via == "fx" && n.Focus {
			f = FIt
		} else if n.Via == "fx" && n.Pending {
			f = PIt
		} else if n.Via == "specify" {
			f = Specify
		}
		if n.Via == "nobody" {
			f(n.Text, append(d, Pending)...)
		} else {
			f(n.Text, append(d, bodyFor(n))...)
		}
	case "BeforeEach":
		BeforeEach(append(d, bodyFor(n))...)
	case "JustBeforeEach":
		JustBeforeEach(append(d, bodyFor(n))...)
	case "AfterEach":
		AfterEach(append(d, bodyFor(n))...)
	case "JustAfterEach":
		JustAfterEach(append(d, bodyFor(n))...)
	case "BeforeAll":
		BeforeAll(append(d, bodyFor(n))...)
	case "AfterAll":
		AfterAll(append(d, bodyFor(n))...)
	case "BeforeSuite":
		BeforeSuite(bodyFor(n), d...)
	case "AfterSuite":
		AfterSuite(bodyFor(n), d...)
	case "SynchronizedBeforeSuite":
		payload := func() []byte {
			for _, a := range n.Body {
				if a.K == "payload" {
					if a.V == "nil" {
						return nil
					}
					return Payload(a.N)
				}
			}
			return []byte("x")
		}
		h := func(b []byte) string { return fmt.Sprintf("data=%d:%x:%v", len(b), fnv(b), b == nil) }
		if n.Ctx {
			SynchronizedBeforeSuite(func(ctx SpecContext) []byte { run(n.ID, 1, ctx, n.Body, ""); return payload() },
				func(ctx SpecContext, b []byte) { run(n.ID, 2, ctx, n.Body2, h(b)) }, d...)
		} else {
			SynchronizedBeforeSuite(func() []byte { run(n.ID, 1, nil, n.Body, ""); return payload() },
				func(b []byte) { run(n.ID, 2, nil, n.Body2, h(b)) }, d...)
		}
	case "SynchronizedAfterSuite":
		if n.Ctx {
			SynchronizedAfterSuite(func(ctx SpecContext) { run(n.ID, 1, ctx, n.Body, "") }, func(ctx SpecContext) { run(n.ID, 2, ctx, n.Body2, "") }, d...)
		} else {
			SynchronizedAfterSuite(func() { run(n.ID, 1, nil, n.Body, "") }, func() { run(n.ID, 2, nil, n.Body2, "") }, d...)
		}
	case "ReportBeforeEach":
		if n.Ctx {
			ReportBeforeEach(func(ctx SpecContext, r SpecReport) { run(n.ID, 0, ctx, n.Body, specReportX(r)) }, d...)
		} else {
			ReportBeforeEach(func(r SpecReport) { run(n.ID, 0, nil, n.Body, specReportX(r)) }, d...)
		}
	case "ReportAfterEach":
		if n.Ctx {
			ReportAfterEach(func(ctx SpecContext, r SpecReport) { run(n.ID, 0, ctx, n.Body, specReportX(r)) }, d...)
		} else {
			ReportAfterEach(func(r SpecReport) { run(n.ID, 0, nil, n.Body, specReportX(r)) }, d...)
		}
	case "ReportBeforeSuite":
		if n.Ctx {
			ReportBeforeSuite(func(ctx SpecContext, r Report) { run(n.ID, 0, ctx, n.Body, reportX(r)) }, d...)
		} else {
			ReportBeforeSuite(func(r Report) { run(n.ID, 0, nil, n.Body, reportX(r)) }, d...)
		}
	case "ReportAfterSuite":
		if n.Ctx {
			ReportAfterSuite(n.Text, func(ctx SpecContext, r Report) { run(n.ID, 0, ctx, n.Body, reportX(r)) }, d...)
		} else {
			ReportAfterSuite(n.Text, func(r Report) { run(n.ID, 0, nil, n.Body, reportX(r)) }, d...)
		}
	default:
		panic("interp: unknown node kind " + n.K)
	}
}

// Payload makes the deterministic payload of a given size (with every byte value).
func Payload(n int) []byte {
	b := make([]byte, n)
	x := uint32(n)*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 16)
	}
	return b
}

func fnv(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}

var active int32

func TestInterp(t *testing.T) {
	path := os.Getenv("VERIF_SUITE")
	if os.Getenv("VERIF_PERDIR") != "" { // several copies of this suite, each described in its own directory
		path = "suite.json"
		wd, _ := os.Getwd()
		os.Setenv("VERIF_LOG", filepath.Join(wd, "log"))
		os.Setenv("VERIF_DIR", wd)
	}
	b, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	if err := json.Unmarshal(b, &suite); err != nil {
		t.Fatal(err)
	}
	sc, _ := GinkgoConfiguration()
	proc = sc.ParallelProcess
	logF, err = os.OpenFile(fmt.Sprintf("%s.%d", os.Getenv("VERIF_LOG"), proc), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
	if err != nil {
		t.Fatal(err)
	}
	atomic.AddInt32(&active, 1)
	divert()
	cfg, _ := json.Marshal(sc)
	emit(sdoc.Event{E: "config", X: string(cfg)})
	if os.Getenv("VERIF_OPTIONS") != "" {
		sc, rc := GinkgoConfiguration()
		gf := map[string]string{}
		flag.Visit(func(f *flag.Flag) {
			if strings.HasPrefix(f.Name, "test.") {
				gf[f.Name] = f.Value.String()
			}
		})
		b, _ := json.Marshal(map[string]any{"S": sc, "R": rc, "Args": flag.Args(), "OS": os.Args[1:], "Go": gf})
		emit(sdoc.Event{E: "options", X: string(b)})
	}
	if w, k, ok := strings.Cut(os.Getenv("VERIF_DIE_TREE"), ":"); ok && w == strconv.Itoa(proc) {
		do(&state{}, &sdoc.Act{K: k, N: 3})
	}
	for _, n := range suite.Top {
		build(n)
	}
	for _, w := range suite.Where {
		wDo(w)
	}
	var args []any
	if len(suite.Labels) > 0 {
		args = append(args, Label(suite.Labels...))
	}
	more, _ := rawArgs(&sdoc.Node{}, suite.RunRaw)
	args = append(args, more...)
	if suite.Preview {
		r := PreviewSpecs(suite.Desc, args...)
		emit(sdoc.Event{E: "preview", X: reportX(r)})
	}
	if worldOn {
		emitWorld(0, 0)
	}
	ok := RunSpecs(t, suite.Desc, args...)
	if suite.Twice {
		RunSpecs(t, suite.Desc, args...)
	}
	undivert()
	if worldOn {
		emitWorld(-1, 0)
	}
	emit(sdoc.Event{E: "end", OK: ok})
}

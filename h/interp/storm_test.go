package interp_test

import (
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	. "github.com/onsi/ginkgo/v2"
	"github.com/onsi/ginkgo/v2/internal/zzverif/sdoc"
)

// Acts for C31: many goroutines use the API at once; everything they did is logged when all have returned.

var stormCount int64
var cleanupRuns sync.Map

func init() {
	// race: N goroutines, A = kinds allowed; V "outlive": one more goroutine is left behind
	hooks["race"] = func(st *state, a *sdoc.Act) {
		base := fmt.Sprintf("%s.%d.%d", a.S, proc, atomic.AddInt64(&stormCount, 1))
		var wg sync.WaitGroup
		var mu sync.Mutex
		var done []string
		note := func(k, tag string) { mu.Lock(); done = append(done, k+":"+tag); mu.Unlock() }
		start := make(chan struct{})
		rounds := 6
		for g := 0; g < a.N; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer GinkgoRecover()
				<-start
				for i := 0; i < rounds; i++ {
					tag := fmt.Sprintf("%s-g%d-i%d", base, g, i)
					switch k := a.A[(g*7+i)%len(a.A)]; k {
					case "entry":
						AddReportEntry("race:"+tag, tag)
						note(k, tag)
					case "by":
						By("race:" + tag)
						note(k, tag)
					case "bycb":
						By("race:"+tag, func() { fmt.Fprintf(GinkgoWriter, "<race:%s>\n", tag) })
						note(k, tag)
						note("gw", tag)
					case "gw":
						GinkgoWriter.Printf("<race:%s>\n", tag)
						note(k, tag)
					case "logr":
						GinkgoLogr.Info("<race:" + tag + ">")
						note("gw", tag)
					case "tlog":
						GinkgoTB().Logf("<race:%s>", tag)
						note("gw", tag)
					case "report":
						r := CurrentSpecReport()
						_ = r.FullText() + r.CapturedGinkgoWriterOutput + r.State.String()
						for _, e := range r.ReportEntries {
							_ = e.Name
						}
					case "ctxreport":
						if sc, ok := st.ctx.(SpecContext); ok {
							_ = sc.SpecReport().FullText()
							d := sc.AttachProgressReporter(func() string { return tag })
							defer d()
						}
					case "attach":
						d := AttachProgressReporter(func() string { return "PR<" + tag + ">" })
						time.Sleep(time.Duration(g%3) * 100 * time.Microsecond)
						d()
					case "attachapi": // a reporter that uses the API when it is queried
						d := AttachProgressReporter(func() string {
							AddReportEntry("queried", ReportEntryVisibilityNever)
							GinkgoWriter.Print("queried ")
							return CurrentSpecReport().FullText()
						})
						time.Sleep(time.Duration(g%3) * 100 * time.Microsecond)
						d()
					case "defer":
						DeferCleanup(func(t string) {
							emit(sdoc.Event{E: "ran", N: st.id, Spec: specOf(CurrentSpecReport().LeafNodeText), X: t})
						}, tag)
						note(k, tag)
					case "tcleanup":
						GinkgoT().Cleanup(func() { emit(sdoc.Event{E: "ran", N: st.id, Spec: specOf(CurrentSpecReport().LeafNodeText), X: tag}) })
						note("defer", tag)
					case "tee":
						GinkgoWriter.TeeTo(&lockedBuf{})
					case "untee":
						GinkgoWriter.ClearTeeWriters()
					case "conf":
						c, _ := GinkgoConfiguration()
						_ = c.RandomSeed + int64(GinkgoParallelProcess())
					case "name":
						_ = GinkgoT().Name()
						_ = GinkgoT().Failed()
					case "fail":
						note("fail", tag)
						Fail("race:" + tag)
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		emit(sdoc.Event{E: "race", N: st.id, Spec: st.spec, Inv: st.inv, X: strings.Join(done, ",")})
	}
	// racebg: a goroutine that uses the API until the suite's cleanup
	hooks["racebg"] = func(st *state, a *sdoc.Act) {
		var stop int32
		ended := make(chan bool)
		DeferCleanup(func() { atomic.StoreInt32(&stop, 1); <-ended })
		go func() {
			defer close(ended)
			for i := 0; atomic.LoadInt32(&stop) == 0; i++ {
				time.Sleep(time.Duration(a.N) * time.Microsecond)
				switch a.A[i%len(a.A)] {
				case "entry":
					AddReportEntry(fmt.Sprintf("bg%d", i), ReportEntryVisibilityNever)
				case "gw":
					GinkgoWriter.Printf("\x02bg%d;", i)
				case "by":
					By(fmt.Sprintf("bg%d", i))
				case "bycb":
					By(fmt.Sprintf("bg%d", i), func() {})
				case "report":
					r := CurrentSpecReport()
					_ = r.FullText() + r.CapturedGinkgoWriterOutput + r.State.String()
				case "attach":
					AttachProgressReporter(func() string { return "bg" })()
				case "name":
					_ = GinkgoT().Name()
				}
			}
		}()
	}
}

package interp_test

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"

	. "github.com/onsi/ginkgo/v2"
	"github.com/onsi/ginkgo/v2/internal/zzverif/sdoc"
)

// Acts for C28. Everything the testing object can change about the process makes up the "world"; a snapshot of it is
// logged on entering every node body and after every operation.

var worldKeys = strings.Split(os.Getenv("VERIF_WORLD"), ",")
var worldOn = os.Getenv("VERIF_WORLD") != ""
var worldMu sync.Mutex
var worldTemps []string
var worldCtxs []context.Context
var sharedT = GinkgoT() // obtained before the suite has been configured
var sharedTB = GinkgoTB()

type worldSnap struct {
	Env   map[string]string
	Cwd   string
	Temps []bool // exists
	Ctxs  []bool // cancelled
}

func emitWorld(id, spec int) {
	worldMu.Lock()
	defer worldMu.Unlock()
	w := worldSnap{Env: map[string]string{}}
	for _, k := range worldKeys {
		if v, ok := os.LookupEnv(k); ok {
			w.Env[k] = "=" + v
		} else {
			w.Env[k] = "-"
		}
	}
	w.Cwd, _ = os.Getwd()
	for _, t := range worldTemps {
		_, err := os.Lstat(t)
		w.Temps = append(w.Temps, err == nil)
	}
	for _, c := range worldCtxs {
		w.Ctxs = append(w.Ctxs, c.Err() != nil)
	}
	b, _ := json.Marshal(w)
	emit(sdoc.Event{E: "world", N: id, Spec: spec, X: string(b)})
}

// tLike is what GinkgoT and GinkgoTB have in common.
type tLike interface {
	Cleanup(func())
	Chdir(dir string)
	Context() context.Context
	Setenv(kev, value string)
	Error(args ...any)
	Errorf(format string, args ...any)
	Fail()
	FailNow()
	Failed() bool
	Fatal(args ...any)
	Fatalf(format string, args ...any)
	Helper()
	Log(args ...any)
	Logf(format string, args ...any)
	Name() string
	Skip(args ...any)
	SkipNow()
	Skipf(format string, args ...any)
	Skipped() bool
	TempDir() string
}

func tFor(via string) tLike {
	switch via {
	case "tb":
		return GinkgoTB()
	case "shared":
		return sharedT
	case "sharedtb":
		return sharedTB
	}
	return GinkgoT()
}

// tTerm performs the call that ends the node; the line it is made on is logged. All calls are on lines of their own.
func tTerm(t tLike, m, s string, n int, at func(int)) {
	switch m {
	case "Error":
		at(line() + 1)
		t.Error(s, n)
	case "Errorf":
		at(line() + 1)
		t.Errorf("%s %d", s, n)
	case "Fatal":
		at(line() + 1)
		t.Fatal(s, n)
	case "Fatalf":
		at(line() + 1)
		t.Fatalf("%s %d", s, n)
	case "Fail":
		at(line() + 1)
		t.Fail()
	case "FailNow":
		at(line() + 1)
		t.FailNow()
	case "Skip":
		at(line() + 1)
		t.Skip(s, n)
	case "Skipf":
		at(line() + 1)
		t.Skipf("%s %d", s, n)
	case "SkipNow":
		at(line() + 1)
		t.SkipNow()
	}
}

func noAt(int) {}

func tHelped1(t tLike, m, s string, n int) {
	t.Helper()
	tHelpedTerm(t, m, s, n)
}

func tHelpedTerm(t tLike, m, s string, n int) {
	t.Helper()
	switch m {
	case "Error":
		t.Error(s, n)
	case "Errorf":
		t.Errorf("%s %d", s, n)
	case "Fatal":
		t.Fatal(s, n)
	case "Fatalf":
		t.Fatalf("%s %d", s, n)
	case "Fail":
		t.Fail()
	case "FailNow":
		t.FailNow()
	case "Skip":
		t.Skip(s, n)
	case "Skipf":
		t.Skipf("%s %d", s, n)
	case "SkipNow":
		t.SkipNow()
	}
}

func tGHelped(t tLike, m, s string, n int) {
	GinkgoHelper()
	tGInner(t, m, s, n)
}

func tGInner(t tLike, m, s string, n int) {
	GinkgoHelper()
	tHelpedTerm(t, m, s, n)
}

func init() {
	// tw: one operation on the world. V: what, S: key, A[0]: value, A[1]: through which object
	hooks["tw"] = func(st *state, a *sdoc.Act) {
		arg := func(i int) string {
			if i < len(a.A) {
				return a.A[i]
			}
			return ""
		}
		t := tFor(arg(1))
		dir := os.Getenv("VERIF_DIR")
		val := arg(0)
		if a.S == "TMPDIR" {
			val = filepath.Join(dir, "t/t/t/tmp2")
		}
		x := map[string]any{"v": a.V, "key": a.S, "val": val, "via": arg(1)}
		switch a.V {
		case "setenv":
			t.Setenv(a.S, val)
		case "rawset":
			os.Setenv(a.S, val)
		case "rawunset":
			os.Unsetenv(a.S)
		case "chdir", "rawchdir":
			d := arg(0)
			switch {
			case d == "tmp":
				worldMu.Lock()
				d = filepath.Join(dir, "d1")
				if n := len(worldTemps); n > 0 {
					if _, err := os.Stat(worldTemps[n-1]); err == nil {
						d = worldTemps[n-1]
					}
				}
				worldMu.Unlock()
			case strings.HasPrefix(d, "d"):
				d = filepath.Join(dir, d)
			}
			if a.V == "chdir" {
				t.Chdir(d)
			} else {
				os.Chdir(d)
			}
			x["cwd"], _ = os.Getwd()
		case "tempdir":
			d := t.TempDir()
			ents, err := os.ReadDir(d)
			x["dir"], x["empty"], x["parent"] = d, err == nil && len(ents) == 0, filepath.Dir(d)
			abs, _ := filepath.Abs(d)
			worldMu.Lock()
			x["seen"] = false
			for _, w := range worldTemps {
				if w == abs {
					x["seen"] = true
				}
			}
			worldTemps = append(worldTemps, abs)
			worldMu.Unlock()
			tFill(d, dir, a.N)
		case "ctx":
			c := t.Context()
			x["err"] = errS(c)
			worldMu.Lock()
			worldCtxs = append(worldCtxs, c)
			worldMu.Unlock()
		case "cleanup":
			t.Cleanup(func() { run(a.ID, 0, nil, a.B, "") })
		case "tdefer":
			GinkgoT().DeferCleanup(func(s string, n int) error {
				if s != a.S || n != a.N {
					emit(sdoc.Event{E: "badargs", N: a.ID, X: fmt.Sprint(s, n)})
				}
				run(a.ID, 0, nil, a.B, "")
				return nil
			}, a.S, a.N)
		case "defer":
			DeferCleanup(func() { run(a.ID, 0, nil, a.B, "") })
		case "setenvbad":
			emit(sdoc.Event{E: "twfail", N: st.id, Spec: st.spec, Inv: st.inv, X: "Failed to set environment variable"})
			t.Setenv("A=B", "x")
		case "chdirbad":
			emit(sdoc.Event{E: "twfail", N: st.id, Spec: st.spec, Inv: st.inv, X: "Failed to change directory"})
			t.Chdir(filepath.Join(dir, "does-not-exist"))
		case "tempbad":
			emit(sdoc.Event{E: "twfail", N: st.id, Spec: st.spec, Inv: st.inv, X: "Failed to create temporary directory"})
			t.Setenv("TMPDIR", filepath.Join(dir, "does-not-exist"))
			emit(sdoc.Event{E: "tw", N: st.id, Spec: st.spec, Inv: st.inv, X: fmt.Sprintf(`{"v":"setenv","key":"TMPDIR","val":%q}`, filepath.Join(dir, "does-not-exist"))})
			t.TempDir()
		}
		x["id"] = a.ID
		b, _ := json.Marshal(x)
		emit(sdoc.Event{E: "tw", N: st.id, Spec: st.spec, Inv: st.inv, X: string(b)})
		emitWorld(st.id, st.spec)
	}
	// tterm: a call that ends the node. S: method, V: how it is wrapped, A[0]: through which object, A[1]: text, N: number
	hooks["tterm"] = func(st *state, a *sdoc.Act) {
		t := tFor(a.A[0])
		at := func(l int) {
			b, _ := json.Marshal(map[string]any{"m": a.S, "via": a.A[0], "wrap": a.V, "s": a.A[1], "n": a.N})
			emit(sdoc.Event{E: "tterm", N: st.id, Spec: st.spec, Inv: st.inv, Ln: l, X: string(b)})
		}
		switch a.V {
		case "helper":
			at(line() + 1)
			tHelpedTerm(t, a.S, a.A[1], a.N)
		case "helper2":
			at(line() + 1)
			tHelped1(t, a.S, a.A[1], a.N)
		case "ginkgohelper":
			at(line() + 1)
			tGHelped(t, a.S, a.A[1], a.N)
		case "offset": // the caller of the function that makes the call
			if strings.HasSuffix(a.A[0], "tb") {
				t = GinkgoTB(3)
			} else {
				t = GinkgoT(2)
			}
			at(line() + 1)
			tTerm(t, a.S, a.A[1], a.N, noAt)
		case "go": // in a goroutine that recovers through the testing object
			c := make(chan struct{})
			go func() {
				defer close(c)
				defer GinkgoT().GinkgoRecover()
				tTerm(t, a.S, a.A[1], a.N, at)
			}()
			<-c
			runtime.Gosched()
		default:
			tTerm(t, a.S, a.A[1], a.N, at)
		}
	}
	// tsay: writes through the testing object
	hooks["tsay"] = func(st *state, a *sdoc.Act) {
		t := tFor(a.A[0])
		switch a.V {
		case "Log":
			t.Log(a.S, a.N, nil, 2.5)
		case "Logf":
			t.Logf("%s|%d|%%", a.S, a.N)
		case "Print":
			GinkgoT().Print(a.S, a.N, a.N, a.S)
		case "Printf":
			GinkgoT().Printf("%s|%d|%%", a.S, a.N)
		case "Println":
			GinkgoT().Println(a.S, a.N)
		}
		emit(sdoc.Event{E: "tsay", N: st.id, Spec: st.spec, Inv: st.inv, X: a.V, Ln: a.N})
	}
	// tentry: report entries
	hooks["tentry"] = func(st *state, a *sdoc.Act) {
		switch a.V {
		case "always":
			emit(sdoc.Event{E: "tentry", N: st.id, Spec: st.spec, X: a.V, Ln: line() + 1})
			GinkgoT().AddReportEntryVisibilityAlways(a.S, a.N)
		case "fov":
			emit(sdoc.Event{E: "tentry", N: st.id, Spec: st.spec, X: a.V, Ln: line() + 1})
			GinkgoT().AddReportEntryVisibilityFailureOrVerbose(a.S, a.N)
		case "never":
			emit(sdoc.Event{E: "tentry", N: st.id, Spec: st.spec, X: a.V, Ln: line() + 1})
			GinkgoT().AddReportEntryVisibilityNever(a.S, a.N)
		}
	}
	// task: everything that is asked of the testing object
	hooks["task"] = func(st *state, a *sdoc.Act) {
		t := tFor(a.A[0])
		f := GinkgoT()
		f.Parallel()
		b, _ := json.Marshal(map[string]any{"name": t.Name(), "failed": t.Failed(), "skipped": t.Skipped(), "seed": f.RandomSeed(), "proc": f.ParallelProcess(), "total": f.ParallelTotal(),
			"F": f.F("{{red}}%s{{/}}%d", "a", 7), "Fi": f.Fi(2, "{{bold}}%s\n%s{{/}}", "a", "b"), "Fiw": f.Fiw(1, 12, "%s", "aaaa bbbb cccc"), "tl": f.RenderTimeline()})
		emit(sdoc.Event{E: "task", N: st.id, Spec: st.spec, Inv: st.inv, X: string(b)})
	}
}

// tFill puts content into a temporary directory that is not trivial to remove and refers to files outside it.
func tFill(d, dir string, n int) {
	if n&1 != 0 {
		os.MkdirAll(filepath.Join(d, "a", "b", "c"), 0755)
		os.WriteFile(filepath.Join(d, "a", "b", "c", "f"), []byte("x"), 0000)
		os.Chmod(filepath.Join(d, "a", "b", "c"), 0500)
	}
	if n&2 != 0 {
		os.Symlink(filepath.Join(dir, "outside"), filepath.Join(d, "dirlink"))
		os.Symlink(filepath.Join(dir, "outside", "f"), filepath.Join(d, "filelink"))
	}
	if n&4 != 0 {
		os.Symlink("loop", filepath.Join(d, "loop"))
		os.Symlink("..", filepath.Join(d, "up"))
		os.WriteFile(filepath.Join(d, "-rf *\n"), []byte("x"), 0644)
	}
	if n&8 != 0 {
		os.RemoveAll(d)
		if n&1 != 0 {
			os.WriteFile(d, []byte("a file now"), 0644)
		} else {
			os.MkdirAll(d, 0755)
		}
	}
}

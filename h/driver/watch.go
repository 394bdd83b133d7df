package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"go/build"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/onsi/ginkgo/v2/ginkgo/internal"
	gwatch "github.com/onsi/ginkgo/v2/ginkgo/watch"
	"github.com/onsi/ginkgo/v2/types"
)

// C29: kind "hist" drives the real delta tracker (and the real search for suites) through random histories of changes to
// random package graphs on disk, in child processes because the working directory matters. After every pass it is
// compared with what the state of the files, recorded independently at every step, demands. Kind "e2e" runs the command.

func init() {
	checks["C29"] = Check{Level: "exploration", Run: runC29,
		Rule: "distinct by configuration, graph and the sequence of changes",
		Assume: []string{"a change leaves a file with another size, modification time or name",
			"a package that an import could not be resolved to when a suite's dependencies were last computed is not one of its dependencies",
			"imports of packages that do not parse are unknown until they do"}}
}

type wState struct { // of a package
	exists     bool
	code, test string
	files      map[string]wStat
}

type wStat struct{ size, mod int64 }

func (s wState) same(t wState) bool {
	return s.exists == t.exists && s.code == t.code && s.test == t.test
}

// late tells whether the change from t to s shows itself after a moment: by something that is gone, by a new modification
// time, or by one that was not set since the last pass at all.
func (s wState) late(t wState, lastPass, ran int64, tests bool) bool {
	if s.exists != t.exists {
		return true
	}
	for n, f := range s.files {
		if (tests || !strings.HasSuffix(n, "_test.go")) && f != t.files[n] && (f.mod >= ran || f.mod <= lastPass) {
			return true
		}
	}
	for n := range t.files {
		if _, ok := s.files[n]; !ok && (tests || !strings.HasSuffix(n, "_test.go")) {
			return true
		}
	}
	return false
}

type wFile struct {
	pkgName string
	imports []string
	broken  bool
	body    int
}

type wCase struct {
	r     *rand.Rand
	root  string
	mod   bool
	re    string
	depth int
	rx    *regexp.Regexp
	n     int
	tok   int
	log   []string
	away  map[string]string // moved away: where -> from
	ops   map[string]int
	ren   map[string]string
}

func (w *wCase) pkg(i int) string {
	d := fmt.Sprintf("p%d", i)
	if i%3 == 2 {
		d = fmt.Sprintf("p%d/p%d", i-1, i)
	}
	return d
}

func (w *wCase) scan(p string) (s wState) {
	ents, err := os.ReadDir(filepath.Join(w.root, p))
	if err != nil {
		return
	}
	s.exists = true
	s.files = map[string]wStat{}
	for _, e := range ents {
		n := e.Name()
		fi, err := e.Info()
		if err != nil || e.IsDir() || n[0] == '.' || n[0] == '_' {
			continue
		}
		k := fmt.Sprintf("%s %d %d\n", n, fi.Size(), fi.ModTime().UnixNano())
		if strings.HasSuffix(n, "_test.go") {
			s.test += k
			s.files[n] = wStat{fi.Size(), fi.ModTime().UnixNano()}
		} else if w.rx.MatchString(n) {
			s.code += k
			s.files[n] = wStat{fi.Size(), fi.ModTime().UnixNano()}
		}
	}
	return
}

func (w *wCase) dirs() (out []string) {
	for i := 0; i < w.n; i++ {
		if _, err := os.Stat(filepath.Join(w.root, w.pkg(i))); err == nil {
			out = append(out, w.pkg(i))
		}
	}
	return
}

func (w *wCase) all() map[string]wState {
	m := map[string]wState{}
	for i := 0; i < w.n; i++ {
		m[w.pkg(i)] = w.scan(w.pkg(i))
	}
	return m
}

// imports of a package as the go tool sees them
func (w *wCase) imports(p string, tests bool) (out []string, broken, any bool) {
	ents, _ := os.ReadDir(filepath.Join(w.root, p))
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || n[0] == '.' || n[0] == '_' {
			continue
		}
		any = true
		f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(w.root, p, n), nil, parser.ImportsOnly)
		if err != nil {
			broken = true
			continue
		}
		if strings.HasSuffix(n, "_test.go") && !tests {
			continue
		}
		for _, i := range f.Imports {
			s, _ := strconv.Unquote(i.Path.Value)
			if r, ok := strings.CutPrefix(s, "zz/"); ok {
				out = append(out, r)
			}
		}
	}
	return
}

// deps computes the dependencies of a suite: 2 = certain, 1 = possible
func (w *wCase) deps(suite string, old map[string]int) (map[string]int, bool) {
	out := map[string]int{}
	imps, broken, any := w.imports(suite, true)
	if w.depth == 0 {
		return out, true // nothing else is looked at
	}
	if broken || !any {
		return nil, false
	}
	sure := map[string]int{}
	level := map[string]int{} // certainty
	add := func(next map[string]int, ds []string, c int) {
		for _, d := range ds {
			_, err := os.Stat(filepath.Join(w.root, d))
			if err != nil {
				if old[d] == 2 && c == 2 {
					sure[d] = 2 // it is known where it was
				}
				continue
			}
			_, _, any := w.imports(d, true)
			if !any && w.mod { // not resolved by the go tool
				if next[d] < 1 {
					next[d] = 1
				}
				continue
			}
			if next[d] < c {
				next[d] = c
			}
		}
	}
	add(level, imps, 2)
	for k := 1; ; k++ {
		next := map[string]int{}
		for d, c := range level {
			if out[d] < c {
				out[d] = c
			}
		}
		if k >= w.depth {
			break
		}
		n := 0
		for d, c := range level {
			is, broken, _ := w.imports(d, false)
			if broken {
				c = 1
			}
			add(next, is, c)
		}
		for d, c := range next {
			if out[d] < c {
				n++
			}
		}
		if n == 0 {
			break
		}
		level = next
	}
	for d := range old {
		if _, err := os.Stat(filepath.Join(w.root, d)); err != nil && out[d] == 0 {
			out[d] = 1 // nothing says that it is gone for good
			if sure[d] == 2 {
				out[d] = 2
			}
		}
	}
	return out, true
}

func (w *wCase) write(path, content string) {
	p := filepath.Join(w.root, path)
	os.MkdirAll(filepath.Dir(p), 0755)
	old, err := os.Stat(p)
	if err == nil && old.Size() == int64(len(content)) && w.r.Intn(2) == 0 {
		content += "\n"
	}
	os.WriteFile(p, []byte(content), 0644)
	w.stamp(p)
}

// stamp gives a file a modification time that is not coarser than the clock the tracker reads.
func (w *wCase) stamp(p string) {
	time.Sleep(20 * time.Microsecond)
	t := time.Now()
	os.Chtimes(p, t, t)
	time.Sleep(20 * time.Microsecond)
}

func (w *wCase) goSrc(p string, test bool, rank int) string {
	r := w.r
	name := "p" + p[strings.LastIndex(p, "p")+1:]
	if test && r.Intn(3) == 0 {
		name += "_test"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n", name)
	for n := r.Intn(3); n > 0; n-- {
		j := r.Intn(w.n)
		if !test && j <= rank { // no cycles between packages
			if rank+1 >= w.n {
				continue
			}
			j = rank + 1 + r.Intn(w.n-rank-1)
		}
		fmt.Fprintf(&b, "import %q\n", "zz/"+w.pkg(j))
	}
	if r.Intn(3) == 0 {
		b.WriteString("import \"fmt\"\n")
	}
	w.tok++
	fmt.Fprintf(&b, "var V%d = %d\n", r.Intn(3), w.tok)
	if r.Intn(10) == 0 {
		b.WriteString("func (\n") // does not compile, but its imports can be read
	}
	return b.String()
}

func (w *wCase) note(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	w.log = append(w.log, s)
	w.ops[strings.Fields(s)[0]]++
}

func (w *wCase) files(p string, f func(n string) bool) (out []string) {
	ents, _ := os.ReadDir(filepath.Join(w.root, p))
	for _, e := range ents {
		if !e.IsDir() && f(e.Name()) {
			out = append(out, e.Name())
		}
	}
	return
}

func isGo(n string) bool { return strings.HasSuffix(n, ".go") }

// change performs one random change.
func (w *wCase) change() {
	r := w.r
	i := r.Intn(w.n)
	p := w.pkg(i)
	abs := filepath.Join(w.root, p)
	_, err := os.Stat(abs)
	switch k := r.Intn(24); {
	case err != nil && k < 16:
		for from, to := range w.away {
			if from == p && r.Intn(2) == 0 {
				if os.Rename(to, abs) == nil {
					w.note("moveback %s", p)
					delete(w.away, from)
					return
				}
			}
		}
		w.note("create %s", p)
		w.write(p+"/a.go", w.goSrc(p, false, i))
		if r.Intn(2) == 0 {
			w.write(p+"/a_test.go", w.goSrc(p, true, i))
		}
	case err != nil:
	case k < 5:
		fs := w.files(p, isGo)
		if len(fs) == 0 {
			return
		}
		f := fs[r.Intn(len(fs))]
		w.note("edit %s/%s", p, f)
		w.write(p+"/"+f, w.goSrc(p, strings.HasSuffix(f, "_test.go"), i))
	case k < 6:
		fs := w.files(p, func(string) bool { return true })
		if len(fs) > 0 {
			f := fs[r.Intn(len(fs))]
			w.note("touch %s/%s", p, f)
			w.stamp(filepath.Join(abs, f))
		}
	case k < 8:
		f := []string{"a.go", "b.go", "c.go", "x_test.go", "y_test.go"}[r.Intn(5)]
		w.note("write %s/%s", p, f)
		w.write(p+"/"+f, w.goSrc(p, strings.HasSuffix(f, "_test.go"), i))
	case k < 10:
		f := []string{".hidden.go", "_x_test.go", "doc.txt", "data.json", "testdata/t.go", "README", ".#a_test.go", "agoo"}[r.Intn(8)]
		w.note("other %s/%s", p, f)
		w.write(p+"/"+f, fmt.Sprintf("package p%d // %d", i, r.Intn(1000)))
	case k < 13:
		fs := w.files(p, func(string) bool { return true })
		if len(fs) > 0 {
			f := fs[r.Intn(len(fs))]
			w.note("delete %s/%s", p, f)
			os.Remove(filepath.Join(abs, f))
		}
	case k < 14:
		fs := w.files(p, isGo)
		if len(fs) > 0 {
			f := fs[r.Intn(len(fs))]
			to := fmt.Sprintf("r%d%s", r.Intn(3), f)
			if r.Intn(4) == 0 {
				to = strings.Replace(f, ".go", "_test.go", 1)
			}
			w.note("rename %s/%s %s", p, f, to)
			os.Rename(filepath.Join(abs, f), filepath.Join(abs, to))
		}
	case k < 16:
		f := []string{"a.go", "o.go", "x_test.go"}[r.Intn(3)]
		old := time.Now().Add(-time.Duration(1+r.Intn(1000)) * time.Minute)
		if r.Intn(5) == 0 {
			old = time.Now().Add(time.Hour)
		}
		w.note("copyin %s/%s", p, f)
		w.write(p+"/"+f, w.goSrc(p, strings.HasSuffix(f, "_test.go"), i))
		os.Chtimes(filepath.Join(abs, f), old, old)
	case k < 18:
		if r.Intn(2) == 0 {
			w.note("removedir %s", p)
			os.RemoveAll(abs)
		} else {
			to := filepath.Join(filepath.Dir(w.root), "away", fmt.Sprint(len(w.log)))
			os.MkdirAll(filepath.Dir(to), 0755)
			if os.Rename(abs, to) == nil {
				w.away[p] = to
				w.note("moveaway %s", p)
			}
		}
	case k < 20:
		fs := w.files(p, isGo)
		if len(fs) == 0 {
			return
		}
		f := fs[r.Intn(len(fs))]
		w.note("break %s/%s", p, f)
		w.tok++
		w.write(p+"/"+f, []string{"package p" + fmt.Sprint(i) + "\nimport \"zz/p", "packag x", "pa"}[r.Intn(3)]+strings.Repeat(" ", w.tok%50))
	case k < 22: // all tests go, or the first comes
		fs := w.files(p, func(n string) bool { return strings.HasSuffix(n, "_test.go") })
		if len(fs) > 0 {
			w.note("notests %s", p)
			for _, f := range fs {
				os.Remove(filepath.Join(abs, f))
			}
		} else {
			w.note("firsttest %s", p)
			w.write(p+"/a_test.go", w.goSrc(p, true, i))
		}
	case k < 23:
		for from, to := range w.away {
			if _, err := os.Stat(filepath.Join(w.root, from)); err != nil {
				os.MkdirAll(filepath.Dir(filepath.Join(w.root, from)), 0755)
				if os.Rename(to, filepath.Join(w.root, from)) == nil {
					w.note("moveback %s", from)
					delete(w.away, from)
				}
			}
			return
		}
	}
}

type wSuite struct {
	deps  map[string]int
	ran   map[string]wState // everything when it was last run (nil: never)
	ranAt int64
}

func watchCase(i int, dir string) (d string, sig string, ops map[string]int, log []string) {
	r := rng("C29hist", i)
	w := &wCase{r: r, away: map[string]string{}, ops: map[string]int{}, mod: i%25 == 24, n: 2 + r.Intn(6), depth: []int{0, 1, 1, 2, 2, 3, 9}[r.Intn(7)], re: `\.go$`}
	if r.Intn(4) == 0 {
		w.re = []string{`\.(go|txt)$`, `\.json$`, `.`, `a`}[r.Intn(4)]
	}
	w.rx = regexp.MustCompile(w.re)
	w.root = filepath.Join(dir, "src", "zz")
	os.RemoveAll(dir)
	os.MkdirAll(w.root, 0755)
	defer os.RemoveAll(dir)
	build.Default.GOPATH = dir
	os.Setenv("GOPATH", dir)
	if w.mod {
		w.n = 2 + r.Intn(3)
		os.Setenv("GO111MODULE", "on")
		os.WriteFile(filepath.Join(w.root, "go.mod"), []byte("module zz\n\ngo 1.24\n"), 0644)
	} else {
		os.Setenv("GO111MODULE", "off")
	}
	for k := 0; k < w.n; k++ {
		if r.Intn(8) == 0 {
			continue
		}
		p := w.pkg(k)
		w.write(p+"/a.go", w.goSrc(p, false, k))
		if r.Intn(3) > 0 {
			w.write(p+"/a_test.go", w.goSrc(p, true, k))
		}
		if r.Intn(3) == 0 {
			w.write(p+"/b.go", w.goSrc(p, false, k))
		}
	}
	os.Chdir(w.root)
	defer os.Chdir("/")
	defer func() {
		log = w.log
		ops = w.ops
		sig = fmt.Sprint(w.re, w.depth, w.n, w.mod, w.log)
		if e := recover(); e != nil {
			d = fmt.Sprintf("the tracker panics: %v\n%s", e, trunc(string(debug.Stack()), 2500))
		}
	}()
	cfg := types.CLIConfig{Recurse: true}
	if r.Intn(4) == 0 {
		cfg.SkipPackage = "p" + fmt.Sprint(r.Intn(w.n))
	}
	tr := gwatch.NewDeltaTracker(w.depth, w.rx)
	suites := map[string]*wSuite{}
	last := map[string]wState{}  // at the last pass
	track := map[string]wState{} // certainly tracked since: state then, or at the last pass
	sure := map[string]bool{}
	var lastPass int64
	var runs []map[string]wState
	rel := func(p string) string {
		if filepath.IsAbs(p) {
			if s, err := filepath.EvalSymlinks(filepath.Dir(p)); err == nil {
				p = filepath.Join(s, filepath.Base(p))
			}
			q, _ := filepath.Rel(w.root, p)
			return q
		}
		return filepath.Clean(p)
	}
	passes := 4 + r.Intn(8)
	if w.mod {
		passes = 3 + r.Intn(3)
	}
	for pass := 0; pass < passes; pass++ {
		now := w.all()
		found := internal.FindSuites(nil, cfg, false).WithoutState(internal.TestSuiteStateSkippedByFilter)
		provided := map[string]bool{}
		for k := 0; k < w.n; k++ {
			p := w.pkg(k)
			if cfg.SkipPackage != "" && strings.Contains("./"+p, cfg.SkipPackage) {
				continue
			}
			// hidden and underscored files do not make a suite
			if now[p].test != "" {
				provided[p] = true
			}
		}
		got := map[string]bool{}
		for _, s := range found {
			got[rel(s.Path)] = true
		}
		if fmt.Sprint(sortedKeys(got)) != fmt.Sprint(sortedKeys(provided)) {
			return fmt.Sprintf("pass %d: suites found in %v, there are suites in %v", pass, sortedKeys(got), sortedKeys(provided)), "", nil, nil
		}
		passAt := time.Now().UnixNano()
		runs0 := runs
		runs = nil
		delta, errs := tr.Delta(found)
		w.note("pass %d", pass)
		// packages
		reported := map[string]bool{}
		for _, m := range delta.ModifiedPackages {
			m = rel(m)
			if reported[m] {
				return fmt.Sprintf("pass %d: %s is reported as changed twice", pass, m), "", nil, nil
			}
			reported[m] = true
			changed := pass > 0 && !now[m].same(last[m])
			for _, at := range runs0 { // it may be tracked since then
				changed = changed || !now[m].same(at[m])
			}
			if !changed {
				return fmt.Sprintf("pass %d: %s is reported as changed, none of its watched files changed since the last pass", pass, m), "", nil, nil
			}
		}
		for p := range sure {
			if !now[p].same(track[p]) && !now[p].same(last[p]) && !reported[p] {
				return fmt.Sprintf("pass %d: %s changed from %+v to %+v and is not reported as changed", pass, p, track[p], now[p]), "", nil, nil
			}
		}
		// suites
		var wantNew, wantRem, wantErr, gotNew, gotRem, gotErr []string
		for p := range provided {
			if suites[p] == nil {
				if _, ok := w.deps(p, nil); ok {
					wantNew = append(wantNew, p)
				} else {
					wantErr = append(wantErr, p)
				}
			}
		}
		for p := range suites {
			if !provided[p] {
				wantRem = append(wantRem, p)
			}
		}
		for _, s := range delta.NewSuites {
			gotNew = append(gotNew, rel(s.Suite.Path))
		}
		for _, s := range delta.RemovedSuites {
			gotRem = append(gotRem, rel(s.Suite.Path))
		}
		for s := range errs {
			gotErr = append(gotErr, rel(s.Path))
		}
		for _, c := range []struct {
			what      string
			got, want []string
		}{{"new", gotNew, wantNew}, {"removed", gotRem, wantRem}, {"unreadable", gotErr, wantErr}} {
			sort.Strings(c.got)
			sort.Strings(c.want)
			if fmt.Sprint(c.got) != fmt.Sprint(c.want) {
				return fmt.Sprintf("pass %d: %s suites: %v, they are %v", pass, c.what, c.got, c.want), "", nil, nil
			}
		}
		var run []internal.TestSuite
		mod := map[string]bool{}
		for _, s := range delta.NewSuites {
			if pass > 0 {
				run = append(run, s.Suite)
			}
		}
		for _, s := range delta.ModifiedSuites() {
			p := rel(s.Suite.Path)
			if mod[p] || suites[p] == nil || !provided[p] {
				return fmt.Sprintf("pass %d: %s is modified more than once or is no known suite", pass, p), "", nil, nil
			}
			mod[p] = true
			run = append(run, s.Suite)
		}
		for p, s := range suites {
			if !provided[p] {
				continue
			}
			var must, may string
			chk := func(q string, c int, tests bool) {
				f := func(a, b wState) bool { return a.exists != b.exists || a.code != b.code || tests && a.test != b.test }
				changed := f(now[q], last[q])
				for _, at := range runs0 {
					changed = changed || f(now[q], at[q])
				}
				if !changed {
					return
				}
				may = q
				if c == 2 && f(now[q], last[q]) && f(now[q], track[q]) && (s.ran == nil || f(now[q], s.ran[q]) && now[q].late(track[q], lastPass, s.ranAt, tests)) {
					must = q
				}
			}
			chk(p, 2, true)
			for q, c := range s.deps {
				chk(q, c, false)
			}
			if must != "" && !mod[p] {
				return fmt.Sprintf("pass %d: suite %s (depends on %v) does not run, %s changed from %+v to %+v", pass, p, s.deps, must, last[must], now[must]), "", nil, nil
			}
			if may == "" && mod[p] {
				return fmt.Sprintf("pass %d: suite %s (depends on %v) runs, nothing it depends on changed", pass, p, s.deps), "", nil, nil
			}
			if may != "" {
				w.ops["suites rerun"]++
			} else {
				w.ops["suites left alone"]++
			}
		}
		// what is tracked from here on
		last = now
		lastPass = passAt
		sure = map[string]bool{}
		for _, p := range wantRem {
			delete(suites, p)
		}
		for _, p := range wantNew {
			deps, _ := w.deps(p, nil)
			suites[p] = &wSuite{deps: deps}
		}
		for p, s := range suites {
			sure[p], track[p] = true, now[p]
			for q, c := range s.deps {
				if c == 2 {
					sure[q], track[q] = true, now[q]
				}
			}
		}
		for _, s := range run {
			for r.Intn(5) == 0 {
				w.change() // while other suites are run
			}
			p := rel(s.Path)
			time.Sleep(20 * time.Microsecond)
			before := time.Now().UnixNano()
			tr.WillRun(s)
			w.note("run %s", p)
			time.Sleep(20 * time.Microsecond)
			at := w.all()
			suites[p].ran = at
			runs = append(runs, at)
			suites[p].ranAt = before
			if deps, ok := w.deps(p, suites[p].deps); ok {
				for q, c := range deps {
					if c == 2 && !sure[q] {
						sure[q] = true
						track[q] = at[q]
					}
				}
				suites[p].deps = deps
			} else {
				for q := range suites[p].deps {
					suites[p].deps[q] = 1
				}
			}
			for r.Intn(4) == 0 {
				w.change() // while it is run
			}
		}
		for n := []int{0, 1, 1, 1, 2, 4}[r.Intn(6)]; n > 0; n-- {
			w.change()
		}
	}
	return
}

type wResult struct {
	I    int
	D    string
	Sig  string
	Ops  map[string]int
	Log  []string
	Done bool
}

func runC29(c *Ctx) {
	if s := os.Getenv("VERIF_WATCH_CHILD"); s != "" {
		watchChild(s)
		os.Exit(0)
	}
	n := N(2400, 40000)
	nw := workers()
	if nw > 8 {
		nw = 8
	}
	var wg sync.WaitGroup
	if *flagOnly < 0 {
		wg.Add(1)
		go func() { defer wg.Done(); watchE2E(c) }()
	} else {
		nw = 1
	}
	if *flagOnly >= n { // an end-to-end case
		watchE2E(c)
		return
	}
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for lo := k; lo < n; { // a child that dies is resumed after the case that killed it
				cmd := exec.Command(os.Args[0], os.Args[1:]...)
				cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_WATCH_CHILD=%d:%d:%d:%d", k, lo, nw, n))
				if *flagOnly >= 0 {
					cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_WATCH_CHILD=%d:%d:%d:%d", k, *flagOnly, 1, *flagOnly+1))
					lo = n
				}
				cmd.Dir = *flagWork
				var errb bytes.Buffer
				cmd.Stderr = &errb
				out, _ := cmd.StdoutPipe()
				if err := cmd.Start(); err != nil {
					c.Inconclusive(err.Error())
					return
				}
				kill := time.AfterFunc(600*time.Second, func() { cmd.Process.Kill() })
				sc := bufio.NewScanner(out)
				sc.Buffer(nil, 16<<20)
				done := false
				cur := lo
				for sc.Scan() {
					var res wResult
					if json.Unmarshal(sc.Bytes(), &res) != nil {
						continue
					}
					if res.Done {
						done = true
						break
					}
					c.Eval(sigHash(res.Sig))
					for o, m := range res.Ops {
						c.Count(o, m)
					}
					if res.D != "" {
						c.Fail("", fmt.Sprintf("history %d: %s\nhistory: %s", res.I, res.D, strings.Join(res.Log, "; ")), map[string][]byte{"history.txt": []byte(strings.Join(res.Log, "\n"))})
					}
					cur = res.I + nw
				}
				cmd.Wait()
				if !kill.Stop() {
					c.Inconclusive("a child process took too long")
					return
				}
				if done {
					return
				}
				c.Fail("", fmt.Sprintf("history %d ends the process: %s", cur, trunc(errb.String(), 3000)), nil)
				lo = cur + nw
			}
		}()
	}
	wg.Wait()
}

func watchChild(s string) {
	var k, lo, step, n int
	fmt.Sscanf(s, "%d:%d:%d:%d", &k, &lo, &step, &n)
	dir := filepath.Join(*flagWork, fmt.Sprintf("watch%d", k))
	dir, _ = filepath.Abs(dir)
	os.MkdirAll(dir, 0755)
	if d, err := filepath.EvalSymlinks(dir); err == nil {
		dir = d
	}
	enc := json.NewEncoder(os.Stdout)
	for i := lo; i < n; i += step {
		d, sig, ops, log := watchCase(i, filepath.Join(dir, "gp"))
		enc.Encode(wResult{I: i, D: d, Sig: sig, Ops: ops, Log: log})
	}
	enc.Encode(wResult{Done: true})
	runtime.KeepAlive(k)
}

// Kind "e2e": the command itself on plain go test packages that log their runs. A sentinel suite is touched (twice: a pass
// is no atomic look at everything) after each change, so that its run tells when the change has been dealt with.

var watchSteps = []string{"nothing", "edit lib", "edit a_test", "edit a", "edit deep", "break lib", "edit b_test", "add c", "remove c", "delete extra", "lib test", "hidden", "touch b", "remove lib", "watched txt", "add file"}

func watchE2E(c *Ctx) {
	n := N(8, 60)
	if *flagN > 0 {
		n = 2
	}
	parallelDo(n, 4, func(i int) {
		if *flagOnly >= 0 {
			i = *flagOnly - N(2400, 40000)
		}
		for try := 0; ; try++ {
			d, slow, log, out := watchRun(c, i)
			if slow && try < 2 {
				continue
			}
			if slow {
				c.Inconclusive(fmt.Sprintf("watch run %d: %s", i, d))
			} else if d != "" {
				c.Fail("", fmt.Sprintf("watch run %d: %s\nsteps: %s", i, d, strings.Join(log, "; ")), map[string][]byte{"output.txt": out, "steps.txt": []byte(strings.Join(log, "\n"))})
			}
			return
		}
	})
}

func watchRun(c *Ctx, i int) (d string, slow bool, log []string, out []byte) {
	r := rng("C29e2e", i)
	base, _ := filepath.Abs(filepath.Join(*flagWork, fmt.Sprintf("we%d", i)))
	os.RemoveAll(base)
	defer os.RemoveAll(base)
	root := filepath.Join(base, "m")
	tmp := filepath.Join(base, "tmp") // same file system: files appear atomically
	runs := filepath.Join(base, "runs")
	os.MkdirAll(root, 0755)
	os.MkdirAll(tmp, 0755)
	os.MkdirAll(filepath.Join(base, "away"), 0755)
	os.WriteFile(runs, nil, 0644)
	tok := 0
	put := func(path, content string) {
		tok++
		t := filepath.Join(tmp, fmt.Sprint(tok))
		os.WriteFile(t, []byte(content), 0644)
		now := time.Now()
		os.Chtimes(t, now, now)
		p := filepath.Join(root, path)
		os.MkdirAll(filepath.Dir(p), 0755)
		os.Rename(t, p)
	}
	val := func(pkg, imp string) string {
		tok++
		if imp == "" {
			return fmt.Sprintf("package %s\n\nconst V = \"%d\"\n", pkg, tok)
		}
		return fmt.Sprintf("package %s\n\nimport %q\n\nconst V = \"%d,\" + %s.V\n", pkg, "zz/"+imp, tok, imp)
	}
	test := func(pkg string) string {
		tok++
		return fmt.Sprintf(`package %s

import (
	"os"
	"testing"
)

func TestIt(t *testing.T) {
	f, _ := os.OpenFile(%q, os.O_APPEND|os.O_WRONLY, 0644)
	f.WriteString(%q + V + "\n")
	f.Close()
	if %v {
		t.Fail()
	}
}
`, pkg, runs, fmt.Sprintf("%s %d ", pkg, tok), r.Intn(4) == 0)
	}
	depth := []int{1, 2, 2, 3, 0}[r.Intn(5)]
	txt := r.Intn(3) == 0
	put("go.mod", "module zz\n\ngo 1.24\n")
	put("deep/deep.go", val("deep", ""))
	put("lib/lib.go", val("lib", "deep"))
	put("lib/extra.go", "package lib\n")
	put("a/a.go", val("a", "lib"))
	put("a/a_test.go", test("a"))
	put("b/b.go", val("b", ""))
	put("b/b_test.go", test("b"))
	put("z/z.go", val("z", ""))
	put("z/z_test.go", test("z"))
	args := []string{"watch", "-r", fmt.Sprintf("--depth=%d", depth), "--no-color"}
	if txt {
		args = append(args, `--watch-regexp=\.(go|txt)$`)
	}
	op, _ := os.Create(filepath.Join(base, "out"))
	cmd := exec.Command(bin("ginkgo"), args...)
	cmd.Dir = root
	cmd.Env = append(append([]string{}, baseEnv...), "GOFLAGS=-mod=mod", "GOWORK=off")
	cmd.Stdout, cmd.Stderr = op, op
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		return err.Error(), true, nil, nil
	}
	ended := make(chan bool)
	go func() { cmd.Wait(); close(ended) }()
	stop := func() bool {
		syscall.Kill(cmd.Process.Pid, syscall.SIGINT)
		select {
		case <-ended:
		case <-time.After(60 * time.Second):
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			return false
		}
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		return true
	}
	output := func() string { b, _ := os.ReadFile(filepath.Join(base, "out")); return string(b) }
	logged := func() []string { b, _ := os.ReadFile(runs); return strings.Split(strings.TrimSpace(string(b)), "\n") }
	wait := func(f func() bool) bool {
		for t0 := time.Now(); time.Since(t0) < 120*time.Second; time.Sleep(50 * time.Millisecond) {
			select {
			case <-ended:
				return false
			default:
			}
			if f() {
				return true
			}
		}
		return false
	}
	fail := func(f string, a ...any) (string, bool, []string, []byte) {
		o := []byte(output())
		select {
		case <-ended:
			return "the command ends by itself: " + trunc(output(), 1500), false, log, o
		default:
		}
		stop()
		return fmt.Sprintf(f, a...), false, log, o
	}
	if !wait(func() bool { return strings.Contains(output(), "Watching 3 suites") }) {
		if _, s, _, _ := fail(""); !s && strings.Contains(output(), "Watching") {
			return "it does not watch the three suites: " + output(), false, log, []byte(output())
		}
		return "no start", true, log, []byte(output())
	}
	// nothing runs until something changes (several suites)
	have := map[string]bool{"a": true, "b": true, "z": true}
	broken := map[string]bool{}
	dead := false
	steps := r.Perm(len(watchSteps))[:5]
	if thorough() {
		steps = append(steps, r.Perm(len(watchSteps))...)
	}
	sentinel := func() bool {
		seen := strings.Count(output(), "Resuming watch")
		put("z/z_test.go", test("z"))
		mark := fmt.Sprintf("z %d ", tok-1)
		ok := wait(func() bool {
			for _, l := range logged() {
				if strings.HasPrefix(l, mark) {
					return true
				}
			}
			return false
		})
		return ok && wait(func() bool {
			o := output()
			return strings.Count(o, "Resuming watch") > seen && strings.LastIndex(o, "Resuming watch") > strings.LastIndex(o, "Detected")
		})
	}
	for _, st := range steps {
		what := watchSteps[st]
		n0 := len(logged())
		if logged()[0] == "" {
			n0 = 0
		}
		want := map[string]bool{}
		changed := ""
		atLeast := false
		switch what {
		case "edit lib":
			if dead {
				continue
			}
			put("lib/lib.go", val("lib", "deep"))
			delete(broken, "lib")
			changed = "lib"
		case "lib test":
			if dead {
				continue
			}
			put("lib/lib2_test.go", "package lib\n")
			if !have["lib"] { // has become a suite, which logs nothing
				have["lib"] = true
			}
			what = "lib gets tests"
			changed = ""
		case "edit a_test":
			put("a/a_test.go", test("a"))
			want["a"] = true
		case "edit a":
			put("a/a.go", val("a", "lib"))
			want["a"] = true
		case "edit b_test":
			put("b/b_test.go", test("b"))
			want["b"] = true
		case "touch b":
			now := time.Now()
			os.Chtimes(filepath.Join(root, "b/b.go"), now, now)
			want["b"] = true
		case "edit deep":
			put("deep/deep.go", val("deep", ""))
			changed = "deep"
		case "break lib":
			if dead {
				continue
			}
			put("lib/lib.go", fmt.Sprintf("package lib\n\nimport _ \"zz/deep\"\n\nfunc V%d() int { return \"\" }\n", tok))
			broken["lib"] = true
			changed = "lib"
		case "delete extra":
			if _, err := os.Stat(filepath.Join(root, "lib/extra.go")); err != nil {
				continue
			}
			os.Remove(filepath.Join(root, "lib/extra.go"))
			changed = "lib"
		case "hidden":
			put("a/.x.go", "package a\n")
			put("b/_y_test.go", "package b\n")
		case "watched txt":
			put("b/data.txt", fmt.Sprint(tok))
			if txt {
				want["b"] = true
			}
		case "add file":
			put("b/added.go", fmt.Sprintf("package b\n\nvar X = %d\n", tok))
			want["b"] = true
		case "add c":
			d := filepath.Join(tmp, "c")
			os.RemoveAll(d)
			put("../tmp/c/c.go", val("c", ""))
			put("../tmp/c/c_test.go", test("c"))
			if have["c"] {
				os.RemoveAll(filepath.Join(root, "c"))
				atLeast = true
			}
			os.Rename(d, filepath.Join(root, "c"))
			have["c"] = true
			want["c"] = true
		case "remove c":
			if !have["c"] {
				continue
			}
			os.Rename(filepath.Join(root, "c"), filepath.Join(base, "away", fmt.Sprint(tok)))
			tok++
			delete(have, "c")
		case "remove lib":
			if dead {
				continue
			}
			if r.Intn(2) == 0 {
				continue
			}
			os.Rename(filepath.Join(root, "lib"), filepath.Join(base, "away", "lib"))
			dead = true
			changed = "lib"
		}
		log = append(log, what)
		if changed == "lib" && depth >= 1 || changed == "deep" && depth >= 2 && !dead {
			want["a"] = true
		}
		if changed == "deep" && dead {
			atLeast = true
			want["?a"] = true // it was a dependency
		}
		if !sentinel() || !sentinel() {
			select {
			case <-ended:
				return "the command ends by itself: " + trunc(output(), 1500), false, log, []byte(output())
			default:
			}
			o := output()
			stop()
			return "the sentinel suite was changed and its run is not seen", true, log, []byte(o)
		}
		aBroken := broken["lib"] || dead
		got := map[string]int{}
		lastLine := map[string]string{}
		all := logged()
		for _, l := range all[n0:] {
			f := strings.Fields(l)
			got[f[0]]++
			lastLine[f[0]] = l
		}
		for _, s := range []string{"a", "b", "c"} {
			w := 0
			if want[s] && !(s == "a" && aBroken) {
				w = 1
			}
			if s == "a" && want["?a"] {
				continue
			}
			if got[s] != w && !(atLeast && w == 1 && got[s] > 1) {
				return fail("after %q (depth %d) suite %s ran %d times, it should %d; runs: %q", what, depth, s, got[s], w, all[n0:])
			}
		}
		if got["z"] != 2 {
			return fail("after %q the sentinel, changed twice, ran %d times: %q", what, got["z"], all[n0:])
		}
		c.Count("e2e steps", 1)
		for s, m := range got {
			c.Count("e2e runs of "+s, m)
		}
		c.Eval(sigHash("e2e", depth, txt, log))
	}
	when := ""
	switch r.Intn(3) { // at rest, while a suite runs, at any moment
	case 0:
		when = "while a suite runs"
		tok++
		id := tok
		put("z/z_test.go", fmt.Sprintf("package z\n\nimport (\n\t\"os\"\n\t\"testing\"\n\t\"time\"\n)\n\nfunc TestIt(t *testing.T) {\n\tf, _ := os.OpenFile(%q, os.O_APPEND|os.O_WRONLY, 0644)\n\tf.WriteString(\"z %d x\\n\")\n\tf.Close()\n\ttime.Sleep(time.Second)\n}\n", runs, id))
		if !wait(func() bool {
			for _, l := range logged() {
				if strings.HasPrefix(l, fmt.Sprintf("z %d ", id)) {
					return true
				}
			}
			return false
		}) {
			stop()
			return "the sentinel suite was changed and its run is not seen", true, log, []byte(output())
		}
		c.Count("interrupts while a suite runs", 1)
	case 1:
		when = "at some moment after a change"
		put("z/z_test.go", test("z"))
		time.Sleep(time.Duration(r.Intn(2500)) * time.Millisecond)
		c.Count("interrupts at any moment", 1)
	}
	if !stop() {
		return "it does not end when interrupted " + when, false, log, []byte(output())
	}
	return "", false, log, []byte(output())
}

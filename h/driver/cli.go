package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/onsi/ginkgo/v2/internal/zzverif/sdoc"
	"github.com/onsi/ginkgo/v2/types"
)

// A stand-in for the go tool: builds are instant, what is "built" is the runner below.
const cliGo = `#!/bin/bash
[ "$1" = test ] || exit 1
for a in "$@"; do case "$a" in --o=*|-o=*) o="${a#*=}";; esac; done
printf 'build|%s\n' "$PWD" >> "$VERIF_RUNLOG"
case "$(cat kind)" in
broken) echo "./x_test.go:3:1: syntax error"; exit 1;;
silent) exit 2;;
empty) printf '?   \t%s\t[no test files]\n' "$PWD"; exit 0;;
esac
ln -sf "$VERIF_RUNNER" "$o"
`

// What the command takes for a compiled suite: notes that it was started and then does what the plan says for this iteration.
const cliRunner = `#!/bin/bash
proc=1
for a in "$@"; do case "$a" in --ginkgo.parallel.process=*) proc="${a#*=}";; esac; done
n=$(cat "count.$proc" 2>/dev/null || echo 0); n=$((n+1)); echo $n > "count.$proc"
plan=$(sed -n "${n}p" plan); [ -n "$plan" ] || plan=$(tail -1 plan)
printf 'run|%s|%s|%s|%s\n' "$PWD" "$proc" "$n" "$plan" >> "$VERIF_RUNLOG"
case "$plan" in
plain*) case "${plan#plain-}" in pass) exit 0;; fail) exit 1;; two) exit 2;; sig) kill -KILL $$;; warn) echo "testing: warning: no tests to run" >&2; exit 0;; esac;;
die) exit 3;;
sig) kill -KILL $$;;
esac
export VERIF_SUITE="$VERIF_PLANS/$plan.json" VERIF_LOG="$PWD/log" VERIF_DIR="$PWD"
exec "$VERIF_INTERP" "$@"
`

const cliHook = `#!/bin/bash
printf 'hook|%s|%s\n' "$1" "$2" >> "$VERIF_RUNLOG"
k=$(grep -c '^hook' "$VERIF_RUNLOG")
if [ "$k" = "$VERIF_INTAT" ]; then kill -INT $PPID; sleep 0.4; fi
exit $((k % 2))
`

func cliPlans() map[string]*sdoc.Suite {
	it := func(id int, body ...sdoc.Act) *sdoc.Node {
		return &sdoc.Node{ID: id, K: "it", Text: fmt.Sprintf("S%d", id), Loc: sdoc.Loc{F: "/synthetic/c.go", L: id}, Body: body}
	}
	top := func(n ...*sdoc.Node) *sdoc.Suite { return &sdoc.Suite{Desc: "cli", Top: n} }
	foc := it(2)
	foc.Focus = true
	pend := it(2)
	pend.Pending = true
	block := it(1, sdoc.Act{K: "waitctx", N: 60000})
	block.Ctx = true
	return map[string]*sdoc.Suite{
		"pass":      top(it(1), it(2), it(3)),
		"skips":     top(it(1, sdoc.Act{K: "skip", S: "no"}), pend),
		"fail":      top(it(1), it(2, sdoc.Act{K: "fail", S: "no"}), it(3)),
		"panic":     top(it(1, sdoc.Act{K: "panic", S: "no"})),
		"abort":     top(it(1, sdoc.Act{K: "abort", S: "no"}), it(2)),
		"focus":     top(it(1), foc, it(3)),
		"focusfail": top(it(1), foc, &sdoc.Node{ID: 3, K: "it", Focus: true, Text: "S3", Loc: sdoc.Loc{F: "/synthetic/c.go", L: 3}, Body: []sdoc.Act{{K: "fail", S: "no"}}}),
		"setup":     top(&sdoc.Node{ID: 9, K: "BeforeSuite", Loc: sdoc.Loc{F: "/synthetic/c.go", L: 9}, Body: []sdoc.Act{{K: "fail", S: "no"}}}, it(1)),
		"teardown":  top(&sdoc.Node{ID: 9, K: "AfterSuite", Loc: sdoc.Loc{F: "/synthetic/c.go", L: 9}, Body: []sdoc.Act{{K: "fail", S: "no"}}}, it(1), it(2)),
		"report":    top(&sdoc.Node{ID: 9, K: "ReportAfterSuite", Loc: sdoc.Loc{F: "/synthetic/c.go", L: 9}, Body: []sdoc.Act{{K: "fail", S: "no"}}}, it(1), it(2)),
		"exit0":     top(it(1), it(2, sdoc.Act{K: "exit", V: "os"}), it(3)),
		"crash":     top(it(1), it(2, sdoc.Act{K: "gocrash"}), it(3)),
		"none":      top(),
		"block":     top(block),
	}
}

// outcome of a plan: passes, exits with the focus status
func planPasses(p string) (pass, focus bool) {
	switch p {
	case "pass", "skips", "none", "plain-pass", "plain-warn":
		return true, false
	case "focus":
		return true, true
	}
	return false, false
}

var ginkgoFails = []string{"fail", "panic", "abort", "setup", "teardown", "report", "exit0", "crash", "die", "sig", "focusfail"}
var crashing = map[string]bool{"crash": true, "die": true, "sig": true}

type cliSuite struct {
	path   string // as the command names it
	dir    string // absolute
	name   string
	kind   string // ginkgo plain broken silent empty
	pre    string // precompiled binary
	plan   []string
	filter bool
}

func (s *cliSuite) at(n int) string {
	if n > len(s.plan) {
		n = len(s.plan)
	}
	if n < 1 {
		n = 1
	}
	return s.plan[n-1]
}

func cliCase(c *Ctx, i int) {
	r := rng("C30", i)
	dir := filepath.Join(*flagWork, fmt.Sprintf("c%06d", i))
	os.RemoveAll(dir)
	defer os.RemoveAll(dir)
	root := filepath.Join(dir, "w")
	files := map[string]string{"bin/go": cliGo, "bin/runner": cliRunner, "bin/hook": cliHook, "w/README_test.txt": "x"}
	for n, s := range cliPlans() {
		b, _ := json.Marshal(s)
		files["plans/"+n+".json"] = string(b)
	}
	timeout := r.Intn(12) == 0
	failing := r.Intn(3) > 0
	iters := 1
	mode := "once"
	switch r.Intn(5) {
	case 0:
		mode, iters = "repeat", 1+1+r.Intn(3)
	case 1:
		mode, iters = "until", 2+r.Intn(3) // the iteration that fails
	}
	if timeout {
		mode, iters = "once", 1
	}
	// the tree
	names := []string{"alpha", "beta", "pkg c", "délta", "e-e", "f_f", "golf", "alpha2", "testdata", "x.y"}
	var dirs []string
	if r.Intn(4) == 0 {
		dirs = append(dirs, ".")
	}
	for k := 0; k < 2+r.Intn(5); k++ {
		d := names[r.Intn(len(names))]
		if len(dirs) > 0 && r.Intn(3) == 0 {
			d = filepath.Join(dirs[r.Intn(len(dirs))], d)
		}
		dup := false
		for _, x := range dirs {
			dup = dup || x == d
		}
		if !dup {
			dirs = append(dirs, d)
		}
	}
	suites := map[string]*cliSuite{}
	failIter := 1 + r.Intn(iters)
	if mode == "until" {
		failIter, failing = iters, true
	}
	for n, d := range dirs {
		s := &cliSuite{dir: filepath.Join(root, d), path: "./" + d}
		if d == "." {
			s.path = "."
		}
		s.name = filepath.Base(s.dir)
		s.kind = []string{"ginkgo", "ginkgo", "ginkgo", "ginkgo", "plain", "plain", "broken", "silent", "empty", "nosuite"}[r.Intn(10)]
		if (s.kind == "broken" || s.kind == "silent") && (mode == "until" || r.Intn(2) == 0) {
			s.kind = "ginkgo"
		}
		for k := 1; k <= iters; k++ {
			p := "pass"
			switch {
			case s.kind == "plain":
				p = "plain-pass"
				if failing && k == failIter && r.Intn(3) == 0 {
					p = []string{"plain-fail", "plain-two", "plain-sig"}[r.Intn(3)]
				} else if r.Intn(5) == 0 {
					p = "plain-warn"
				}
			case failing && k == failIter && r.Intn(3) == 0:
				p = ginkgoFails[r.Intn(len(ginkgoFails))]
			case r.Intn(4) == 0:
				p = "skips"
			case r.Intn(6) == 0:
				p = "focus"
			case r.Intn(9) == 0:
				p = "none"
			}
			s.plan = append(s.plan, p)
		}
		if mode == "until" && n == 0 {
			if s.kind == "plain" {
				s.plan = []string{"pass"}
				for len(s.plan) < iters {
					s.plan = append(s.plan, "pass")
				}
			}
			s.kind = "ginkgo"
			s.plan[iters-1] = ginkgoFails[r.Intn(len(ginkgoFails))]
		}
		if timeout && n == 0 {
			s.kind, s.plan = "ginkgo", []string{"block"}
		}
		suites[d] = s
		src := "package x\nimport \"testing\"\nfunc TestX(t *testing.T) {}\n"
		if s.kind != "plain" {
			src = fmt.Sprintf(optSuiteSrc, "x")
		}
		f := []string{"x_test.go", "suite_test.go", "aa_x_test.go"}[r.Intn(3)]
		if s.kind == "nosuite" {
			f = []string{"x.go", "_x_test.go", ".x_test.go", "x_test.go.bak", "xtest.go", "x_test.py"}[r.Intn(6)]
		}
		files["w/"+d+"/"+f] = src
		files["w/"+d+"/kind"] = s.kind
		files["w/"+d+"/plan"] = strings.Join(s.plan, "\n") + "\n"
	}
	for _, d := range []string{"vendor", ".hidden", "_under", "alpha/vendor/dep", "plain/vendor"} {
		if r.Intn(3) == 0 {
			files["w/"+d+"/x_test.go"] = fmt.Sprintf(optSuiteSrc, "x")
			files["w/"+d+"/kind"], files["w/"+d+"/plan"] = "ginkgo", "fail\n"
		}
	}
	writeTree(dir, files)
	for _, f := range []string{"go", "runner", "hook"} {
		os.Chmod(filepath.Join(dir, "bin", f), 0755)
	}
	// the selection
	below := func(d string) []*cliSuite {
		var ps []string
		for x := range suites {
			if d == "." || x == d || strings.HasPrefix(x, d+"/") {
				ps = append(ps, x)
			}
		}
		sort.Slice(ps, func(a, b int) bool { // a directory before what is in it, then by name
			if ps[a] == "." || ps[b] == "." {
				return ps[a] == "."
			}
			x, y := strings.Split(ps[a], "/"), strings.Split(ps[b], "/")
			for k := range x {
				if k >= len(y) {
					return false
				}
				if x[k] != y[k] {
					return x[k] < y[k]
				}
			}
			return len(x) < len(y)
		})
		var out []*cliSuite
		for _, p := range ps {
			if suites[p].kind != "nosuite" {
				out = append(out, suites[p])
			}
		}
		return out
	}
	var args, pos []string
	var sel []*cliSuite
	sort.Strings(dirs)
	r.Shuffle(len(dirs), func(a, b int) { dirs[a], dirs[b] = dirs[b], dirs[a] })
	recurse := r.Intn(2) == 0
	if r.Intn(4) == 0 && !timeout {
		if r.Intn(3) == 0 {
			pos = []string{[]string{"./...", "...", "."}[r.Intn(3)]}
			if pos[0] == "." {
				args = append(args, "-r")
			}
			if pos[0] == "..." {
				pos[0] = "./..."
			}
		} else {
			args = append(args, []string{"-r", "--r", "-r=true"}[r.Intn(3)])
		}
		sel = below(".")
	} else {
		if recurse {
			args = append(args, "-r")
		}
		taken := map[*cliSuite]bool{}
		for _, d := range dirs {
			if r.Intn(4) == 0 && len(sel) > 0 {
				continue
			}
			rec := recurse
			a := []string{d, "./" + d, filepath.Join(root, d), d + "/", "./" + d + "/."}[r.Intn(5)]
			if a == "./." {
				a = "."
			}
			if !rec && r.Intn(4) == 0 && d != "." {
				rec, a = true, d+"/..."
			}
			var add []*cliSuite
			if rec {
				add = below(d)
			} else if suites[d].kind != "nosuite" {
				add = []*cliSuite{suites[d]}
			}
			clash := false
			for _, s := range add {
				clash = clash || taken[s]
			}
			if clash {
				continue
			}
			for _, s := range add {
				taken[s] = true
			}
			sel = append(sel, add...)
			pos = append(pos, a)
		}
	}
	if r.Intn(6) == 0 && !timeout && len(pos) > 0 { // a precompiled one
		s := &cliSuite{dir: filepath.Join(root, "pre compiled"), path: "./pre compiled", name: "preco", kind: "ginkgo", plan: []string{"pass"}}
		if failing && mode != "repeat" && r.Intn(2) == 0 {
			s.plan[0] = ginkgoFails[r.Intn(len(ginkgoFails))]
		}
		if mode == "until" {
			s.plan[0] = "pass"
		}
		s.pre = filepath.Join(s.dir, s.name+".test")
		os.MkdirAll(s.dir, 0755)
		os.WriteFile(filepath.Join(s.dir, "plan"), []byte(s.plan[0]+"\n"), 0644)
		os.WriteFile(s.pre, []byte(cliRunner), 0755)
		if fi, e := os.Stat(s.pre); e != nil || fi.Mode()&0111 == 0 {
			fatal("precompiled")
		}
		sel, pos = append(sel, s), append(pos, "pre compiled/preco.test")
	}
	if r.Intn(4) == 0 && !timeout {
		fs := []string{names[r.Intn(len(names))]}
		if r.Intn(2) == 0 {
			fs = append(fs, []string{"zz", "alp", "c/", "e"}[r.Intn(4)])
		}
		args = append(args, "--skip-package="+strings.Join(fs, ","))
		for _, s := range sel {
			for _, f := range fs {
				s.filter = s.filter || strings.Contains(s.path, f)
			}
		}
	}
	if timeout {
		// the suite that blocks comes first
		k := -1
		for n, s := range sel {
			if s.plan[0] == "block" {
				k = n
			}
		}
		if k != 0 {
			return
		}
		args = append(args, "--timeout=2s")
	}
	procs := 1
	if r.Intn(3) == 0 {
		procs = 2
		args = append(args, "--procs=2")
	}
	keep := r.Intn(2) == 0
	if keep {
		args = append(args, []string{"--keep-going", "--keepGoing"}[r.Intn(2)])
	}
	randomize := r.Intn(5) == 0 && !timeout
	if randomize {
		args = append(args, []string{"--randomize-suites", "--randomizeSuites"}[r.Intn(2)])
	}
	if r.Intn(3) == 0 {
		args = append(args, fmt.Sprintf("--compilers=%d", 1+r.Intn(4)))
	}
	require := r.Intn(4) == 0
	if require {
		args = append(args, "--require-suite")
	}
	switch mode {
	case "repeat":
		args = append(args, fmt.Sprintf("--repeat=%d", iters-1))
	case "until":
		args = append(args, "--until-it-fails")
	}
	hook := r.Intn(3) == 0
	intAt := 0
	env := []string{"PATH=" + filepath.Join(dir, "bin") + ":" + os.Getenv("PATH"), "PWD=" + root, "VERIF_RUNLOG=" + filepath.Join(dir, "runlog"), "VERIF_RUNNER=" + filepath.Join(dir, "bin/runner"), "VERIF_INTERP=" + bin("interp.test"), "VERIF_PLANS=" + filepath.Join(dir, "plans")}
	if hook {
		args = append(args, "--after-run-hook="+filepath.Join(dir, "bin/hook")+" (ginkgo-suite-passed) '(ginkgo-suite-name)'")
		if r.Intn(2) == 0 {
			intAt = 1 + r.Intn(3)
		}
	}
	env = append(env, fmt.Sprintf("VERIF_INTAT=%d", intAt))
	report := r.Intn(2) == 0
	outdir, separate := "", false
	editor := r.Intn(8) == 0
	if editor {
		env = append(env, "GINKGO_EDITOR_INTEGRATION=1")
	}
	if report {
		args = append(args, "--json-report=r.json")
		separate = r.Intn(2) == 0
		if separate {
			args = append(args, "--keep-separate-reports")
		}
		if r.Intn(3) == 0 {
			outdir = filepath.Join(dir, "out")
			args = append(args, "--output-dir="+outdir)
		}
		if outdir == "" && r.Intn(3) == 0 { // left over from an earlier run
			for _, s := range sel {
				os.WriteFile(filepath.Join(s.dir, "r.json"), []byte(fmt.Sprintf(`[{"SuitePath":%q,"SuiteSucceeded":true,"SpecReports":[]}]`, s.dir)), 0644)
			}
		}
	}
	r.Shuffle(len(args), func(a, b int) { args[a], args[b] = args[b], args[a] })
	args = append(append([]string{"run"}, args...), pos...)
	args = append([]string{args[0], "--no-color"}, args[1:]...)
	if r.Intn(3) == 0 {
		args = args[1:]
	}
	run := []*cliSuite{}
	nfilter := 0
	for _, s := range sel {
		if s.filter {
			nfilter++
		} else {
			run = append(run, s)
		}
	}
	if mode == "until" { // something must fail in the end
		ends := false
		var can []*cliSuite
		for _, s := range run {
			for n := 1; n <= iters; n++ {
				if ok, _ := planPasses(s.at(n)); s.kind == "broken" || s.kind == "silent" || (s.kind == "ginkgo" || s.kind == "plain") && !ok {
					ends = true
				}
			}
			if s.kind == "ginkgo" && s.pre == "" {
				can = append(can, s)
			}
		}
		if !ends {
			if len(can) == 0 {
				return
			}
			s := can[r.Intn(len(can))]
			s.plan[iters-1] = ginkgoFails[r.Intn(len(ginkgoFails))]
			os.WriteFile(filepath.Join(s.dir, "plan"), []byte(strings.Join(s.plan, "\n")+"\n"), 0644)
		}
	}
	res := runCmd(root, env, 120*time.Second, bin("ginkgo"), args...)
	var l []string
	bad := func(f string, a ...any) { l = append(l, fmt.Sprintf(f, a...)) }
	// what was started, per iteration
	byDir := map[string]*cliSuite{}
	for _, s := range sel {
		byDir[s.dir] = s
	}
	type started struct {
		s *cliSuite
		n int
	}
	var runs []started
	hooks := []string{}
	lb, _ := os.ReadFile(filepath.Join(dir, "runlog"))
	times := map[string]int{}
	for _, line := range strings.Split(strings.TrimSpace(string(lb)), "\n") {
		f := strings.Split(line, "|")
		switch f[0] {
		case "run":
			s := byDir[f[1]]
			if s == nil || s.filter {
				bad("a suite in %s ran although it is not selected", f[1])
				continue
			}
			times[f[1]+"|"+f[2]]++
			if f[2] == "1" {
				runs = append(runs, started{s, times[f[1]+"|1"]})
			}
		case "build":
			if s := byDir[f[1]]; s == nil || s.filter || s.pre != "" {
				bad("%s was built although it is not selected", f[1])
			}
		case "hook":
			hooks = append(hooks, f[1]+"|"+strings.Trim(f[2], "'"))
		}
	}
	if res.TimedOut {
		bad("the run did not end")
	}
	// the expected course
	const (
		notRun = iota
		passed
		failed
		compFail
		empty
		prior
		timedOut
		either
	)
	state := map[*cliSuite]int{}
	exit := -1
	interrupted := false
	var expRuns []started
	expHooks := []string{}
	pass := true
	if len(run) == 0 {
		exit = 1
		if nfilter > 0 {
			exit = 0
		}
	} else {
		for n := 1; ; n++ {
			order := run
			if randomize && len(run) > 1 {
				// take the order in which they were started; those not started come after
				pos := map[*cliSuite]int{}
				for k, x := range runs {
					if x.n == n {
						pos[x.s] = k + 1
					}
				}
				order = append([]*cliSuite{}, run...)
				sort.SliceStable(order, func(a, b int) bool {
					x, y := pos[order[a]], pos[order[b]]
					return x != 0 && (y == 0 || x < y)
				})
			}
			fail := false
			for _, s := range order {
				if intAt > 0 && len(expHooks) >= intAt {
					if s.kind == "broken" || s.kind == "silent" || s.kind == "empty" {
						state[s] = either
					}
					interrupted = true
					continue
				}
				switch {
				case (fail && !keep || randomize) && (s.kind == "empty" || fail && !keep) && (s.kind == "empty" || s.kind == "broken" || s.kind == "silent"):
					state[s] = either // whether it was still built is up to the scheduling
				case s.kind == "empty":
					state[s] = empty
				case s.kind == "broken" || s.kind == "silent":
					state[s] = compFail
					fail = true
				case fail && !keep:
					state[s] = prior
				case fail && timeout:
					state[s] = timedOut
				default:
					p := s.at(n)
					expRuns = append(expRuns, started{s, n})
					ok, _ := planPasses(p)
					if p == "plain-warn" && require {
						ok = false
					}
					state[s] = passed
					h := "[PASS]|" + s.name
					if !ok {
						state[s], fail = failed, true
						h = "[FAIL]|" + s.name
					}
					if hook {
						// whatever the name is, it is one word or quoted
						expHooks = append(expHooks, h)
					}
				}
			}
			pass = !fail && !interrupted
			if !pass || mode == "once" || mode == "repeat" && n == iters {
				break
			}
			if mode == "until" && n > iters+2 {
				bad("harness: endless")
				break
			}
		}
		exit = 0
		foc := false
		for _, s := range run {
			if state[s] == passed {
				_, f := planPasses(s.at(times[s.dir+"|1"]))
				foc = foc || f
			}
		}
		if !pass {
			exit = 1
		} else if foc && !editor {
			exit = types.GINKGO_FOCUS_EXIT_CODE
		}
	}
	str := func(x []started) string {
		var o []string
		for _, y := range x {
			o = append(o, fmt.Sprintf("%s#%d", y.s.path, y.n))
		}
		return strings.Join(o, " ")
	}
	if randomize && len(run) > 1 {
		// with a suite that does not compile among them the point at which it stops depends on the order
		nc := 0
		for _, s := range run {
			if s.kind == "broken" || s.kind == "silent" {
				nc++
			}
		}
		if nc > 0 && !keep {
			expRuns = nil
			for k, x := range runs {
				ok, _ := planPasses(x.s.at(x.n))
				if x.s.at(x.n) == "plain-warn" && require {
					ok = false
				}
				if !ok && k != len(runs)-1 {
					bad("suites ran after %s had failed", x.s.path)
				}
				if x.n != 1 {
					bad("a further iteration after a compilation failure")
				}
			}
			if !interrupted || true {
				if res.Exit == 0 || res.Exit == types.GINKGO_FOCUS_EXIT_CODE {
					bad("exit %d although a suite did not compile", res.Exit)
				}
			}
			goto judged
		}
	}
	if str(runs) != str(expRuns) {
		bad("suites run: %s\nexpected:   %s", str(runs), str(expRuns))
	}
	for _, s := range run {
		for p := 2; p <= procs; p++ {
			if s.kind == "ginkgo" && times[fmt.Sprintf("%s|%d", s.dir, p)] != times[s.dir+"|1"] {
				bad("%s: process %d was started %d times, process 1 %d times", s.path, p, times[fmt.Sprintf("%s|%d", s.dir, p)], times[s.dir+"|1"])
			}
		}
	}
	if res.Exit != exit {
		bad("exit status %d, expected %d", res.Exit, exit)
	}
	if len(run) > 0 {
		if p, f := strings.Contains(res.Out, "Test Suite Passed\n"), strings.Contains(res.Out, "Test Suite Failed\n"); p != pass || f == pass {
			bad("says passed: %v, failed: %v, expected passed: %v", p, f, pass)
		}
		if !strings.Contains(res.Out, fmt.Sprintf("Ginkgo ran %d suite", len(run))) {
			bad("does not say that it ran %d suites", len(run))
		}
		sum := ""
		if k := strings.LastIndex(res.Out, "There were failures detected in the following suites:\n"); k >= 0 {
			sum = res.Out[k:]
		}
		for _, s := range run {
			if state[s] == either {
				continue
			}
			m := regexp.MustCompile(`(?m)^ *` + regexp.QuoteMeta(s.name) + ` ` + regexp.QuoteMeta(s.path) + `(| \[.*\])$`).FindStringSubmatch(sum)
			want := state[s] == failed || state[s] == compFail || state[s] == timedOut
			if (m != nil) != (want && len(run) > 1) {
				bad("%s listed among the failed suites: %v, expected %v", s.path, m != nil, want)
			} else if m != nil && (m[1] == " [Compilation failure]") != (state[s] == compFail) || m != nil && (m[1] == "") != (state[s] == failed) {
				bad("%s is listed with %q", s.path, m[1])
			}
			if state[s] == empty != strings.Contains(res.Out, "Skipping "+s.path+" (no test files)\n") {
				bad("%s announced as skipped: %v", s.path, state[s] != empty)
			}
			if state[s] == compFail && !strings.Contains(res.Out, "Failed to compile "+s.name) {
				bad("does not say that %s did not compile", s.path)
			}
		}
	}
	for _, s := range sel {
		if s.filter && !strings.Contains(res.Out, "Will skip:\n") || s.filter && !strings.Contains(res.Out, "\n  "+s.path+"\n") {
			bad("does not say that %s is skipped", s.path)
		}
	}
	if strings.Join(hooks, "\n") != strings.Join(expHooks, "\n") {
		bad("after-run hooks: %q, expected %q", hooks, expHooks)
	}
	if report && len(run) > 0 {
		base := root
		if outdir != "" {
			base = outdir
		}
		got := map[string]types.Report{}
		read := func(f string) {
			b, err := os.ReadFile(f)
			if err != nil {
				return
			}
			var rs []types.Report
			if err := json.Unmarshal(b, &rs); err != nil {
				bad("%s: %v", f, err)
			}
			for _, x := range rs {
				if _, dup := got[x.SuitePath]; dup {
					bad("two reports for %s", x.SuitePath)
				}
				got[x.SuitePath] = x
			}
		}
		if !separate {
			read(filepath.Join(base, "r.json"))
		} else if outdir == "" {
			for _, s := range run {
				read(filepath.Join(s.dir, "r.json"))
			}
		} else {
			fs, _ := filepath.Glob(outdir + "/*_r.json")
			for _, f := range fs {
				read(f)
			}
			if f, err := os.Stat(filepath.Join(outdir, "r.json")); err == nil && f != nil {
				read(filepath.Join(outdir, "r.json"))
			}
		}
		if interrupted { // suites that did not run keep what they have
			goto judged
		}
		for _, s := range run {
			x, ok := got[s.dir]
			if s.kind == "plain" {
				continue // go's own tests have no report
			}
			p := ""
			if t := times[s.dir+"|1"]; t > 0 {
				p = s.at(t)
			}
			switch st := state[s]; {
			case st == either && ok && s.kind == "empty", st == either && ok && !x.SuiteSucceeded:
			case !ok && st == failed && crashing[p]: // it died before it could
			case !ok:
				bad("no report for %s", s.path)
			case x.SuiteSucceeded != (st == passed || st == empty):
				bad("the report of %s says succeeded: %v", s.path, x.SuiteSucceeded)
			case st == prior && !strings.Contains(strings.Join(x.SpecialSuiteFailureReasons, ";"), "prior suites failed"), st == timedOut && !strings.Contains(strings.Join(x.SpecialSuiteFailureReasons, ";"), "timeout elapsed"), st == compFail && !strings.Contains(strings.Join(x.SpecialSuiteFailureReasons, ";"), "Failed to compile"):
				bad("the report of %s gives as reasons %q", s.path, x.SpecialSuiteFailureReasons)
			}
		}
	}
judged:
	for _, s := range sel {
		if s.pre != "" {
			if _, err := os.Stat(s.pre); err != nil {
				bad("the precompiled suite is gone")
			}
		}
	}
	for k, v := range state {
		_ = k
		c.Count("suite state:"+[]string{"not run", "passed", "failed", "not compiled", "no test files", "skipped after failure", "timed out", "empty or not compiled, after a failure"}[v], 1)
	}
	c.Count("suites started", len(runs))
	c.Count("mode:"+mode, 1)
	if interrupted {
		c.Count("interrupted between suites", 1)
	}
	if len(l) > 0 {
		c.Fail("", fmt.Sprintf("case %d (seed %d): ginkgo %q:\n%s\n--\n%s", i, *flagSeed, args, strings.Join(l, "\n"), trunc(res.Out, 1500)), map[string][]byte{"args.txt": []byte(strings.Join(args, "\n")), "out.txt": []byte(res.Out), "runlog.txt": lb})
		return
	}
	var sig []string
	for _, s := range sel {
		sig = append(sig, fmt.Sprint(s.path, s.kind, s.plan))
	}
	c.Eval(sigHash(strings.Join(args, "\x00"), strings.Join(sig, ";")))
	if i%60 == 3 {
		c.Sample(map[string]any{"args": args, "suites": sig, "exit": res.Exit})
	}
}

func checkCLI(c *Ctx) {
	parallelDo(N(600, 8000), workers(), func(i int) {
		if c.NViol() < 5 {
			cliCase(c, i)
		}
	})
}

var _ = rand.Intn

func init() {
	checks["C30"] = Check{Level: "exploration", Rule: "a run counts as distinct by its command line, its suites and their planned outcomes", Run: checkCLI,
		Assume: []string{"the go tool is replaced by a stand-in that builds instantly"}}
}

package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/onsi/ginkgo/v2/internal/zzverif/sdoc"
	"github.com/onsi/ginkgo/v2/types"
)

// C28: bodies change the environment, the working directory, temporary directories and contexts through the testing
// object. Snapshots of all of that, logged on entering every node, are compared with a replay of the operations in which
// every scope (suite, ordered container, spec) is undone in reverse order when it ends. Kind "sem" compares the effect of
// the calls that fail, skip, log and ask.

func init() {
	checks["C28"] = Check{Level: "exploration", Run: runC28,
		Rule: "distinct by kind, processes and the sequence of operations, scopes and outcomes",
		Assume: []string{"a variable changed in a spec-level node that runs before a BeforeAll node is not changed in that BeforeAll node as well (save and restore of overlapping scopes conflict)",
			"calls that the testing object rejects in the node kind are not made"}}
}

type twGen struct {
	r       *rand.Rand
	id, tok int
	cwd     string // the scope that may change the working directory
	outcome int    // one of how many bodies ends abnormally
	nested  bool
	par     bool
}

func (g *twGen) nid() int { g.id++; return g.id }

func (g *twGen) tokS() string { g.tok++; return fmt.Sprintf("tok%d", g.tok) }

var twKeys = map[string][]string{
	"each":  {"VW_A", "VW_E", "VW_U", "VW_U2", "TMPDIR"},
	"all":   {"VW_L", "VW_LP"},
	"last":  {"VW_M", "VW_MP"},
	"once":  {"VW_O", "VW_OP"},
	"suite": {"VW_S", "VW_SP"},
}

func (g *twGen) val(key string) string {
	r := g.r
	if key == "TMPDIR" {
		return ""
	}
	switch r.Intn(6) {
	case 0:
		return ""
	case 1:
		return "a=b\nc\\" + g.tokS()
	case 2:
		return "same"
	}
	return g.tokS()
}

func (g *twGen) via() string { return []string{"", "", "tb", "shared", "sharedtb"}[g.r.Intn(5)] }

// ops generates a body for a node of the given scope; in: the body belongs to a spec of an ordered container
func (g *twGen) ops(scope string, in bool, depth int) (b []sdoc.Act) {
	r := g.r
	for n := r.Intn(5); n > 0; n-- {
		a := sdoc.Act{K: "tw", V: []string{"setenv", "setenv", "setenv", "chdir", "tempdir", "cleanup", "tdefer", "defer", "ctx"}[r.Intn(9)]}
		switch a.V {
		case "setenv":
			ks := append([]string{}, twKeys[scope]...)
			if scope == "each" || scope == "suite" {
				ks = append(ks, "VW_X", "VW_XP")
			}
			if in && g.nested {
				ks = append(ks, twKeys["all"]...)
			}
			a.S = ks[r.Intn(len(ks))]
			a.A = []string{g.val(a.S), g.via()}
		case "chdir":
			if !strings.Contains(g.cwd, scope) && !(in && g.nested && g.cwd == "all") {
				continue
			}
			a.A = []string{[]string{"d0", "d1", "d1/sub", "..", ".", "tmp", "d0/link"}[r.Intn(7)], g.via()}
			if a.A[0] == "tmp" && scope != "each" && scope != "suite" {
				a.A[0] = "d0" // the directory may belong to a scope that ends earlier
			}
		case "tempdir":
			a.N = r.Intn(16)
			a.A = []string{"", g.via()}
		case "ctx":
			a.A = []string{"", g.via()}
		case "cleanup", "tdefer", "defer":
			a.ID = g.nid()
			a.A = []string{"", g.via()}
			if a.V == "tdefer" {
				a.S, a.N = g.tokS(), r.Intn(100)
			}
			if r.Intn(g.outcome) == 0 {
				a.B = []sdoc.Act{g.end(true, scope)}
			} else if r.Intn(4) == 0 {
				a.B = []sdoc.Act{{K: "sleep", N: 1}}
			}
		}
		b = append(b, a)
		if a.V == "setenv" && a.S != "TMPDIR" && r.Intn(4) == 0 {
			b = append(b, sdoc.Act{K: "tw", V: []string{"rawset", "rawunset"}[r.Intn(2)], S: a.S, A: []string{"raw"}})
		}
		if a.V == "chdir" && r.Intn(5) == 0 {
			b = append(b, sdoc.Act{K: "tw", V: "rawchdir", A: []string{"d1"}})
		}
	}
	if r.Intn(g.outcome) == 0 {
		b = append(b, g.end(false, scope))
	}
	return
}

func (g *twGen) end(cleanup bool, scope string) sdoc.Act {
	r := g.r
	switch k := r.Intn(14); k {
	case 0, 1, 2:
		return sdoc.Act{K: "fail", S: "why"}
	case 3, 4:
		return sdoc.Act{K: "panic", S: "why", V: []string{"", "nilmap", "err"}[r.Intn(3)]}
	case 5:
		return sdoc.Act{K: "skip", S: "why"}
	case 6:
		return sdoc.Act{K: "goexit"}
	case 7:
		return sdoc.Act{K: "tterm", S: "Fatal", A: []string{g.via(), "why"}}
	case 8:
		return sdoc.Act{K: "tterm", S: "SkipNow", A: []string{g.via(), "why"}}
	case 9:
		return sdoc.Act{K: "gofail", S: "why"}
	case 10:
		if r.Intn(3) == 0 {
			return sdoc.Act{K: "abort", S: "why"}
		}
	case 11, 12, 13:
		if !cleanup {
			// (these save what they would change as well)
			if k == 13 && (g.par || scope != "each") || k == 12 && !strings.Contains(g.cwd, scope) {
				k = 11
			}
			return sdoc.Act{K: "tw", V: []string{"setenvbad", "chdirbad", "tempbad"}[k-11], A: []string{"", g.via()}}
		}
	}
	return sdoc.Act{K: "rfail", S: "why"}
}

func (g *twGen) node(k, scope string, in bool) *sdoc.Node {
	r := g.r
	n := &sdoc.Node{ID: g.nid(), K: k, Ctx: r.Intn(3) == 0}
	n.Loc = sdoc.Loc{F: "/synthetic/t.go", L: n.ID}
	if strings.HasPrefix(k, "Report") {
		n.Body = nil
		return n
	}
	n.Body = g.ops(scope, in, 0)
	if strings.HasPrefix(k, "Synchronized") {
		n.Body2 = g.ops(scope, in, 0)
	}
	if k == "it" {
		n.Text = fmt.Sprintf("S%d does", n.ID)
		if r.Intn(5) == 0 {
			n.Flake = 2 + r.Intn(2)
			if r.Intn(2) == 0 {
				n.Body = append(n.Body, sdoc.Act{K: "fail", S: "why", Inv: []int{0}})
			}
		} else if r.Intn(6) == 0 {
			n.MustPass = 2
		}
		if n.Ctx && r.Intn(8) == 0 {
			n.NodeTimeout, n.HasGrace, n.GracePeriod = 15, true, 60000
			n.Body = append(g.ops(scope, in, 0), sdoc.Act{K: "waitctx", N: 60000})
		}
	}
	return n
}

func (g *twGen) suite() *sdoc.Suite {
	r := g.r
	s := &sdoc.Suite{Desc: "world"}
	cont := func(ordered bool) *sdoc.Node {
		c := &sdoc.Node{ID: g.nid(), K: "container", Ordered: ordered}
		c.Text, c.Loc = fmt.Sprintf("C%d", c.ID), sdoc.Loc{F: "/synthetic/t.go", L: c.ID}
		return c
	}
	each := []string{"BeforeEach", "AfterEach", "JustBeforeEach", "JustAfterEach", "BeforeEach", "AfterEach", "ReportBeforeEach", "ReportAfterEach"}
	for t := 1 + r.Intn(3); t > 0; t-- {
		ct := cont(r.Intn(2) == 0)
		if ct.Ordered {
			ct.ContOnFail = r.Intn(4) == 0
			if r.Intn(5) == 0 {
				ct.Flake = 2
			}
		}
		in := ct
		if r.Intn(2) == 0 {
			in = cont(false)
			ct.Kids = append(ct.Kids, in)
		}
		for n := r.Intn(4); n > 0; n-- {
			to := ct
			if r.Intn(2) == 0 {
				to = in
			}
			to.Kids = append(to.Kids, g.node(each[r.Intn(len(each))], "each", false))
		}
		if ct.Ordered {
			for n := r.Intn(4); n > 0; n-- {
				switch r.Intn(4) {
				case 0, 1:
					ct.Kids = append(ct.Kids, g.node("BeforeAll", "all", false))
				case 2:
					ct.Kids = append(ct.Kids, g.node("AfterAll", "last", false))
				case 3:
					o := g.node("BeforeEach", "once", false)
					o.OncePerOrdered = true
					ct.Kids = append(ct.Kids, o)
				}
			}
		}
		for n := 1 + r.Intn(4); n > 0; n-- {
			to := ct
			if r.Intn(2) == 0 {
				to = in
			}
			it := g.node("it", "each", ct.Ordered)
			if ct.Ordered {
				it.MustPass = 0
			}
			to.Kids = append(to.Kids, it)
		}
		s.Top = append(s.Top, ct)
	}
	for n := r.Intn(3); n > 0; n-- {
		s.Top = append(s.Top, g.node(each[r.Intn(len(each))], "each", false))
	}
	g.outcome *= 2
	switch r.Intn(3) {
	case 0:
		s.Top = append(s.Top, g.node("BeforeSuite", "suite", false))
	case 1:
		s.Top = append(s.Top, g.node("SynchronizedBeforeSuite", "suite", false))
	}
	switch r.Intn(3) {
	case 0:
		s.Top = append(s.Top, g.node("AfterSuite", "suite", false))
	case 1:
		s.Top = append(s.Top, g.node("SynchronizedAfterSuite", "suite", false))
	}
	if r.Intn(2) == 0 {
		s.Top = append(s.Top, g.node("ReportAfterSuite", "", false))
	}
	r.Shuffle(len(s.Top), func(i, j int) { s.Top[i], s.Top[j] = s.Top[j], s.Top[i] })
	return s
}

func runC28(c *Ctx) {
	type job struct {
		kind string
		i    int
	}
	var jobs []job
	for i := 0; i < N(1300, 20000); i++ {
		jobs = append(jobs, job{"world", i})
		if i%4 == 0 {
			jobs = append(jobs, job{"sem", i})
		}
	}
	parallelDo(len(jobs), workers(), func(j int) {
		kind, i := jobs[j].kind, jobs[j].i
		r := rng("C28"+kind, i)
		o := RunOpts{Args: []string{fmt.Sprintf("seed=%d", 1+r.Intn(1000))}, Limit: 100 * time.Second}
		if kind == "sem" {
			tSem(c, j, i, r, o)
			return
		}
		g := &twGen{r: r, outcome: []int{5, 9, 20, 60}[r.Intn(4)], nested: r.Intn(2) == 0}
		g.cwd = []string{"each", "all", "last", "once", "suite each"}[r.Intn(5)]
		if r.Intn(3) == 0 {
			o.Procs = 2
			g.par = true
		}
		s := g.suite()
		run := tWorldRun(c, s, o)
		defer run.Clean()
		if d := tWorldJudge(c, s, run, o); d != "" {
			c.Fail("", fmt.Sprintf("job %d %s %d procs=%d %v: %s", j, kind, i, o.Procs, o.Args, d), run.Files())
		}
	})
}

// tWorldRun prepares the directories that suites refer to and runs the suite.
func tWorldRun(c *Ctx, s *sdoc.Suite, o RunOpts) *SuiteRun {
	var ks []string
	for _, k := range twKeys {
		ks = append(ks, k...)
	}
	ks = append(ks, "VW_X", "VW_XP")
	sort.Strings(ks)
	o.Env = append(o.Env, "VERIF_WORLD="+strings.Join(ks, ","), "VW_A=preset a", "VW_E=", "VW_LP=preset l", "VW_MP=", "VW_OP=preset o", "VW_SP=preset s", "VW_XP=preset x")
	o.Prep = func(dir string) []string {
		for _, d := range []string{"d0", "d1/sub", "outside/sub", "t/t/t/tmp", "t/t/t/tmp2"} {
			os.MkdirAll(filepath.Join(dir, d), 0755)
		}
		os.Symlink("../d1/sub", filepath.Join(dir, "d0/link"))
		os.WriteFile(filepath.Join(dir, "outside/f"), []byte("f"), 0644)
		os.WriteFile(filepath.Join(dir, "outside/sub/g"), []byte("g"), 0644)
		return []string{"TMPDIR=" + filepath.Join(dir, "t/t/t/tmp")}
	}
	return c.runRetry(s, o)
}

type twWorld struct {
	Env   map[string]string
	Cwd   string
	Temps []bool
	Ctxs  []bool
}

func (w *twWorld) diff(o *twWorld) string {
	for _, k := range sortedKeys(w.Env) {
		if w.Env[k] != o.Env[k] {
			return fmt.Sprintf("%s is %q, it has to be %q", k, o.Env[k], w.Env[k])
		}
	}
	if w.Cwd != o.Cwd {
		return fmt.Sprintf("the working directory is %q, it has to be %q", o.Cwd, w.Cwd)
	}
	if len(w.Temps) != len(o.Temps) || len(w.Ctxs) != len(o.Ctxs) {
		return "harness: lost operations"
	}
	for i := range w.Temps {
		if w.Temps[i] != o.Temps[i] {
			return fmt.Sprintf("temporary directory %d exists: %v, it has to be %v", i, o.Temps[i], w.Temps[i])
		}
	}
	for i := range w.Ctxs {
		if w.Ctxs[i] != o.Ctxs[i] {
			return fmt.Sprintf("context %d is done: %v, it has to be %v", i, o.Ctxs[i], w.Ctxs[i])
		}
	}
	return ""
}

func (w *twWorld) clone() *twWorld {
	c := &twWorld{Env: map[string]string{}, Cwd: w.Cwd, Temps: append([]bool{}, w.Temps...), Ctxs: append([]bool{}, w.Ctxs...)}
	for k, v := range w.Env {
		c.Env[k] = v
	}
	return c
}

type twEntry struct {
	kind, key, val string
	idx, id        int
}

type twState struct {
	w      *twWorld
	stacks map[string][]twEntry
}

func (s *twState) clone() *twState {
	c := &twState{w: s.w.clone(), stacks: map[string][]twEntry{}}
	for k, v := range s.stacks {
		c.stacks[k] = append([]twEntry{}, v...)
	}
	return c
}

// pop undoes the latest entry of a scope; it says which cleanup should have been seen to run.
func (s *twState) pop(scope string) (lost int) {
	st := s.stacks[scope]
	e := st[len(st)-1]
	s.stacks[scope] = st[:len(st)-1]
	switch e.kind {
	case "env":
		s.w.Env[e.key] = e.val
	case "cwd":
		s.w.Cwd = e.val
	case "temp":
		s.w.Temps[e.idx] = false
	case "ctx":
		s.w.Ctxs[e.idx] = true
	case "cleanup":
		return e.id
	}
	return 0
}

func twScope(n *sdoc.Node) string {
	switch {
	case strings.Contains(n.K, "Suite"):
		return "suite"
	case n.K == "BeforeAll" || n.K == "AfterAll":
		return "all"
	case n.OncePerOrdered:
		return "once"
	}
	return "each"
}

func tWorldJudge(c *Ctx, s *sdoc.Suite, run *SuiteRun, o RunOpts) string {
	if run.Res.TimedOut {
		return "the run does not end: " + trunc(run.Res.Out, 3000)
	}
	nodes := map[int]*sdoc.Node{}
	top := map[int]int{} // spec -> its top-level ordered container
	s.Walk(func(n *sdoc.Node, anc []*sdoc.Node) {
		nodes[n.ID] = n
		if n.K == "it" {
			for _, a := range anc {
				if a.Ordered {
					top[n.ID] = a.ID
					break
				}
			}
		}
	})
	rs, d := readReports(run)
	if d != "" {
		return d
	}
	type procS struct {
		st       *twState
		spec     int
		att      int
		cur      int // latest entered node
		after    bool
		pending  *sdoc.Event
		snapshot bool
	}
	procs := map[int]*procS{}
	sig := ""
	checkWorld := func(p *procS, e sdoc.Event, what string) string {
		var w twWorld
		json.Unmarshal([]byte(e.X), &w)
		if d := p.st.w.diff(&w); d != "" {
			return fmt.Sprintf("process %d, %s (spec S%d): %s", e.P, what, e.Spec, d)
		}
		c.Count("snapshots compared", 1)
		return ""
	}
	for i := range run.Events {
		e := run.Events[i]
		p := procs[e.P]
		switch e.E {
		case "badargs":
			return "a cleanup registered through the testing object received other arguments: " + e.X
		case "twfail":
			c.Count("operations that cannot succeed", 1)
		case "enter":
			p.pending = &run.Events[i]
		case "tw":
			if p == nil {
				continue
			}
			var x struct {
				V, Key, Val, Cwd, Dir, Err, Parent string
				Empty, Seen                        bool
				ID                                 int
			}
			json.Unmarshal([]byte(e.X), &x)
			n := nodes[e.N]
			if n == nil {
				return fmt.Sprintf("harness: operation in unknown node %d", e.N)
			}
			scope := twScope(n)
			w := p.st.w
			push := func(t twEntry) { p.st.stacks[scope] = append(p.st.stacks[scope], t) }
			sig += fmt.Sprint(scope, x.V, x.Key, n.K)
			c.Count("operations "+x.V, 1)
			switch x.V {
			case "setenv":
				push(twEntry{kind: "env", key: x.Key, val: w.Env[x.Key]})
				w.Env[x.Key] = "=" + x.Val
			case "rawset":
				w.Env[x.Key] = "=" + x.Val
			case "rawunset":
				w.Env[x.Key] = "-"
			case "chdir":
				push(twEntry{kind: "cwd", val: w.Cwd})
				w.Cwd = x.Cwd
			case "rawchdir":
				w.Cwd = x.Cwd
			case "tempdir":
				if !x.Empty || x.Seen {
					return fmt.Sprintf("TempDir returned %s: empty and readable %v, returned before %v", x.Dir, x.Empty, x.Seen)
				}
				if t := strings.TrimPrefix(w.Env["TMPDIR"], "="); x.Parent != t {
					return fmt.Sprintf("TempDir returned %s, the directory for temporary files is %s", x.Dir, t)
				}
				w.Temps = append(w.Temps, true)
				push(twEntry{kind: "temp", idx: len(w.Temps) - 1})
			case "ctx":
				if x.Err != "live" {
					return "a new context is " + x.Err
				}
				w.Ctxs = append(w.Ctxs, false)
				push(twEntry{kind: "ctx", idx: len(w.Ctxs) - 1})
			case "cleanup", "tdefer", "defer":
				push(twEntry{kind: "cleanup", id: x.ID})
			}
		case "world":
			if p == nil {
				p = &procS{st: &twState{w: &twWorld{}, stacks: map[string][]twEntry{}}}
				json.Unmarshal([]byte(e.X), p.st.w)
				procs[e.P] = p
				continue
			}
			en := p.pending
			p.pending = nil
			if en == nil && e.N != -1 {
				if d := checkWorld(p, e, fmt.Sprintf("after an operation in node %d", e.N)); d != "" {
					return d
				}
				continue
			}
			var must, may []string
			lost := 0
			what := "at the end of the process"
			if e.N == -1 {
				must = []string{"each", "once", "all", "suite"}
			} else {
				n := nodes[e.N]
				if n == nil { // a cleanup
					what = fmt.Sprintf("on entering cleanup %d", e.N)
					scope := ""
					for k, st := range p.st.stacks {
						for _, t := range st {
							if t.kind == "cleanup" && t.id == e.N {
								scope = k
							}
						}
					}
					sig += "c" + scope
					if scope == "" {
						return fmt.Sprintf("process %d: cleanup %d runs, it is not registered or was overtaken by one registered before it", e.P, e.N)
					}
					// what was registered by another kind of node ends first
					switch scope {
					case "all":
						must, may = []string{"each"}, []string{"once"}
					case "suite":
						must = []string{"each", "once", "all"}
					case "each":
						may = []string{"once"}
					case "once":
						may = []string{"each"}
					}
					for _, m := range must {
						for len(p.st.stacks[m]) > 0 {
							if id := p.st.pop(m); id != 0 {
								lost = id
							}
						}
					}
					must = nil
					for {
						st := p.st.stacks[scope]
						t := st[len(st)-1]
						id := p.st.pop(scope)
						if t.kind == "cleanup" && t.id == e.N {
							break
						}
						if id != 0 {
							return fmt.Sprintf("process %d: cleanup %d runs before cleanup %d, which was registered after it", e.P, e.N, id)
						}
					}
				} else {
					what = fmt.Sprintf("on entering %s node %d", n.K, e.N)
					switch {
					case strings.Contains(n.K, "Suite"):
						must = []string{"each", "once", "all"}
						if n.K == "ReportAfterSuite" {
							must = append(must, "suite")
						}
					case e.Spec != p.spec && (top[e.Spec] != top[p.spec] || top[e.Spec] == 0):
						must = []string{"each", "once", "all"}
					case e.Spec != p.spec || en.Att != p.att || strings.HasPrefix(n.K, "Report"):
						must, may = []string{"each"}, []string{"once", "all"}
					case n.K == "AfterAll" || n.OncePerOrdered: // a failing cleanup can make these run
						may = []string{"each", "once"}
					}
					p.spec, p.att = e.Spec, en.Att
					sig += n.K
				}
			}
			for _, m := range must {
				for len(p.st.stacks[m]) > 0 {
					if id := p.st.pop(m); id != 0 {
						lost = id
					}
				}
			}
			if lost != 0 {
				return fmt.Sprintf("process %d, %s: cleanup %d was registered in an earlier scope and has not run", e.P, what, lost)
			}
			// scopes that may have ended: as many of their latest entries undone as explain the observation
			cands := []*twState{p.st}
			for _, m := range may {
				for _, b := range append([]*twState{}, cands...) {
					for b = b.clone(); len(b.stacks[m]) > 0; b = b.clone() {
						if b.pop(m) != 0 {
							break
						}
						cands = append(cands, b)
					}
				}
			}
			first := ""
			for _, b := range cands {
				q := &procS{st: b}
				d := checkWorld(q, e, what)
				if d == "" {
					p.st, first = b, ""
					break
				}
				if first == "" {
					first = d
				}
			}
			if first != "" {
				return first
			}
		}
	}
	c.Eval(sigHash(sig, o.Procs))
	if len(procs) == 0 {
		return "no events: " + trunc(run.Res.Out, 2000)
	}
	// nothing is left in the directories for temporary files, and nothing outside them is gone
	for _, d := range []string{"tmp", "tmp2"} {
		ents, err := os.ReadDir(filepath.Join(run.Dir, "t/t/t", d))
		if err != nil {
			return "the directory for temporary files is gone: " + err.Error()
		}
		for _, e := range ents {
			if strings.HasPrefix(e.Name(), "ginkgo") {
				return "left in the directory for temporary files: " + e.Name()
			}
		}
	}
	for _, f := range []string{"outside/f", "outside/sub/g", "d0/link", "d1/sub"} {
		if _, err := os.Stat(filepath.Join(run.Dir, f)); err != nil {
			return "something outside the temporary directories was removed: " + err.Error()
		}
	}
	// restoring does not fail
	for _, sp := range rs[0].SpecReports {
		fs := []types.Failure{sp.Failure}
		for _, a := range sp.AdditionalFailures {
			fs = append(fs, a.Failure)
		}
		for _, f := range fs {
			ok := !strings.Contains(f.Message, "callback returned error")
			if !ok {
				return fmt.Sprintf("%s %q failed with %q", sp.LeafNodeType, sp.LeafNodeText, f.Message)
			}
		}
		c.Count("reports judged", 1)
	}
	return ""
}

type tTermX struct {
	M, Via, Wrap, S string
	N               int
}

func (x tTermX) state() types.SpecState {
	switch {
	case strings.HasPrefix(x.M, "Skip"):
		return types.SpecStateSkipped
	case x.M == "panic":
		return types.SpecStatePanicked
	case x.M == "timeout":
		return types.SpecStateTimedout
	}
	return types.SpecStateFailed
}

func (x tTermX) message() string {
	switch x.M {
	case "Error", "Fatal", "Skip":
		return fmt.Sprintln(x.S, x.N)
	case "Errorf", "Fatalf", "Skipf":
		return fmt.Sprintf("%s %d", x.S, x.N)
	case "SkipNow":
		return "skip"
	case "panic":
		return "Test Panicked"
	case "timeout":
		return "A node timeout occurred"
	}
	return "failed"
}

// tSem: one suite in which each spec uses the testing object in one way.
func tSem(c *Ctx, j, i int, r *rand.Rand, o RunOpts) {
	g := &twGen{r: r}
	s := &sdoc.Suite{Desc: "semantics"}
	methods := []string{"Error", "Errorf", "Fatal", "Fatalf", "Fail", "FailNow", "Skip", "Skipf", "SkipNow"}
	text := func() string {
		return []string{"why", "100% {{red}}sure{{/}} %d", "two\nlines", "", "\u00e9\x01\t"}[r.Intn(5)] + g.tokS()
	}
	use := func(cleanup bool) (b []sdoc.Act) {
		for n := r.Intn(4); n > 0; n-- {
			switch r.Intn(4) {
			case 0, 1:
				b = append(b, sdoc.Act{K: "tsay", V: []string{"Log", "Logf", "Print", "Printf", "Println"}[r.Intn(5)], S: text(), N: r.Intn(50), A: []string{g.via()}})
			case 2:
				b = append(b, sdoc.Act{K: "tentry", V: []string{"always", "fov", "never"}[r.Intn(3)], S: text(), N: r.Intn(50)})
			case 3:
				b = append(b, sdoc.Act{K: "task", A: []string{g.via()}})
			}
		}
		return
	}
	term := func() sdoc.Act {
		return sdoc.Act{K: "tterm", S: methods[r.Intn(len(methods))], V: []string{"", "", "helper", "helper2", "ginkgohelper", "offset", "go"}[r.Intn(7)], N: r.Intn(50), A: []string{g.via(), text()}}
	}
	node := func(k string) *sdoc.Node {
		n := &sdoc.Node{ID: g.nid(), K: k}
		n.Loc = sdoc.Loc{F: "/synthetic/t.go", L: n.ID}
		n.Body = use(false)
		if k == "it" {
			n.Text = fmt.Sprintf("S%d does", n.ID)
		}
		return n
	}
	for t := 2 + r.Intn(4); t > 0; t-- {
		ct := node("container")
		ct.Body, ct.Text = nil, fmt.Sprintf("C%d", ct.ID)
		where := []string{"it", "it", "it", "BeforeEach", "JustBeforeEach", "AfterEach", "JustAfterEach", "cleanup", ""}[r.Intn(9)]
		a := term()
		for _, k := range []string{"BeforeEach", "JustBeforeEach", "it", "JustAfterEach", "AfterEach"} {
			n := node(k)
			if k == where && k == "it" && r.Intn(5) == 0 {
				n.Ctx, n.NodeTimeout, n.HasGrace, n.GracePeriod = true, 15, true, 60000
				n.Body = append(n.Body, sdoc.Act{K: "waitctx", N: 60000})
			} else if k == where && r.Intn(6) == 0 {
				n.Body = append(n.Body, sdoc.Act{K: "panic", S: "why"})
			} else if k == where {
				n.Body = append(n.Body, a)
			} else if k == "it" && where == "cleanup" {
				n.Body = append(n.Body, sdoc.Act{K: "tw", V: "cleanup", ID: g.nid(), A: []string{"", g.via()}, B: append(use(true), a)})
			}
			if k == "AfterEach" || k == "JustAfterEach" {
				n.Body = append([]sdoc.Act{{K: "task", A: []string{g.via()}}}, n.Body...)
			}
			ct.Kids = append(ct.Kids, n)
		}
		s.Top = append(s.Top, ct)
	}
	if r.Intn(3) == 0 {
		o.Procs = 2
	}
	run := c.runRetry(s, o)
	defer run.Clean()
	if d := tSemJudge(c, s, run, o); d != "" {
		c.Fail("", fmt.Sprintf("job %d sem %d procs=%d %v: %s", j, i, o.Procs, o.Args, d), run.Files())
	}
}

func tSemJudge(c *Ctx, s *sdoc.Suite, run *SuiteRun, o RunOpts) string {
	if run.Res.TimedOut {
		return "the run does not end: " + trunc(run.Res.Out, 3000)
	}
	rs, d := readReports(run)
	if d != "" {
		return d
	}
	acts := map[int][]*sdoc.Act{} // of a node or cleanup: what it says, by its order
	var walk func(id int, b []sdoc.Act)
	walk = func(id int, b []sdoc.Act) {
		for i := range b {
			acts[id] = append(acts[id], &b[i])
			if b[i].ID != 0 {
				walk(b[i].ID, b[i].B)
			}
		}
	}
	timed := map[int]bool{}
	s.Walk(func(n *sdoc.Node, _ []*sdoc.Node) { walk(n.ID, n.Body); timed[n.ID] = n.NodeTimeout > 0 })
	nth := func(id int, k string, n int) *sdoc.Act {
		for _, a := range acts[id] {
			if a.K == k {
				if n == 0 {
					return a
				}
				n--
			}
		}
		return nil
	}
	sps := map[int]types.SpecReport{}
	for _, sp := range rs[0].SpecReports {
		if sp.LeafNodeType == types.NodeTypeIt {
			var id int
			fmt.Sscanf(sp.LeafNodeText, "S%d", &id)
			sps[id] = sp
		}
	}
	type specS struct {
		gw      string
		terms   []tTermX
		lines   []int
		entries []sdoc.Event
		names   []string
		vals    []int
	}
	specs := map[int]*specS{}
	seen := map[string]int{}
	sig := ""
	for _, e := range run.Events {
		if e.Spec == 0 {
			continue
		}
		p := specs[e.Spec]
		if p == nil {
			p = &specS{}
			specs[e.Spec] = p
		}
		key := fmt.Sprint(e.N, e.E, e.Spec)
		switch e.E {
		case "tsay":
			a := nth(e.N, "tsay", seen[key])
			seen[key]++
			if a == nil {
				return "harness: unknown call"
			}
			switch e.X {
			case "Log":
				p.gw += fmt.Sprintln(a.S, a.N, nil, 2.5)
			case "Logf":
				p.gw += fmt.Sprintf("%s|%d|%%", a.S, a.N) + "\n"
			case "Print":
				p.gw += fmt.Sprint(a.S, a.N, a.N, a.S)
			case "Printf":
				p.gw += fmt.Sprintf("%s|%d|%%", a.S, a.N)
			case "Println":
				p.gw += fmt.Sprintln(a.S, a.N)
			}
			c.Count("calls that print", 1)
		case "tentry":
			a := nth(e.N, "tentry", seen[key])
			seen[key]++
			if a == nil {
				return "harness: unknown call"
			}
			p.entries = append(p.entries, e)
			p.names = append(p.names, a.S)
			p.vals = append(p.vals, a.N)
			c.Count("report entries", 1)
		case "act":
			if strings.HasPrefix(e.X, "panic:") {
				p.terms, p.lines = append(p.terms, tTermX{M: "panic"}), append(p.lines, 0)
			}
		case "exit":
			if timed[e.N] {
				p.terms, p.lines = append(p.terms, tTermX{M: "timeout"}), append(p.lines, 0)
			}
		case "tterm":
			var x tTermX
			json.Unmarshal([]byte(e.X), &x)
			p.terms = append(p.terms, x)
			p.lines = append(p.lines, e.Ln)
			sig += x.M + x.Via + x.Wrap
			c.Count("calls of "+x.M, 1)
		case "task":
			var x struct {
				Name, F, Fi, Fiw, Tl string
				Failed, Skipped      bool
				Seed                 int64
				Proc, Total          int
			}
			json.Unmarshal([]byte(e.X), &x)
			sp, ok := sps[e.Spec]
			if !ok {
				return fmt.Sprintf("S%d ran and is not reported", e.Spec)
			}
			failed, skipped := false, false
			if len(p.terms) > 0 { // the spec has failed or was skipped in an earlier node
				failed, skipped = p.terms[0].state().Is(types.SpecStateFailureStates), p.terms[0].state() == types.SpecStateSkipped
			}
			if x.Failed != failed || x.Skipped != skipped {
				return fmt.Sprintf("S%d node %d: Failed() is %v and Skipped() %v, they have to be %v and %v", e.Spec, e.N, x.Failed, x.Skipped, failed, skipped)
			}
			total := o.Procs
			if total < 1 {
				total = 1
			}
			var seed int64
			fmt.Sscanf(o.Args[0], "seed=%d", &seed)
			if x.Name != sp.FullText() || x.Seed != seed || x.Proc != e.P || x.Total != total {
				return fmt.Sprintf("S%d node %d: Name %q seed %d process %d of %d; the spec is %q, %d, %d of %d", e.Spec, e.N, x.Name, x.Seed, x.Proc, x.Total, sp.FullText(), seed, e.P, total)
			}
			if x.F != "a7" || x.Fi != "    a\n    b" || x.Fiw != "  aaaa bbbb\n  cccc" {
				return fmt.Sprintf("F, Fi and Fiw are %q, %q and %q", x.F, x.Fi, x.Fiw)
			}
			c.Count("answers of the testing object", 1)
		}
	}
	c.Eval(sigHash(sig, o.Procs))
	for id, sp := range sps {
		p := specs[id]
		if p == nil {
			p = &specS{}
		}
		want := types.SpecStatePassed
		if len(p.terms) > 0 {
			want = p.terms[0].state()
		}
		if sp.State != want {
			return fmt.Sprintf("S%d is %s, it has to be %s: %+v", id, sp.State, want, p.terms)
		}
		if len(p.terms) > 0 {
			x := p.terms[0]
			f := sp.Failure
			if f.Message != x.message() {
				return fmt.Sprintf("S%d: %+v is recorded as %q, it has to be %q", id, x, f.Message, x.message())
			}
			if p.lines[0] != 0 && f.Location.LineNumber != p.lines[0] || p.lines[0] != 0 && !strings.HasSuffix(f.Location.FileName, "t_test.go") {
				return fmt.Sprintf("S%d: %+v is located at %s, the call was on line %d", id, x, f.Location, p.lines[0])
			}
		}
		if len(sp.AdditionalFailures) != 0 {
			return fmt.Sprintf("S%d: additional failure %q", id, sp.AdditionalFailures[0].Failure.Message)
		}
		if sp.CapturedGinkgoWriterOutput != p.gw {
			return fmt.Sprintf("S%d: the writer holds %q, it has to hold %q", id, sp.CapturedGinkgoWriterOutput, p.gw)
		}
		if len(sp.ReportEntries) != len(p.entries) {
			return fmt.Sprintf("S%d: %d report entries, %d were added", id, len(sp.ReportEntries), len(p.entries))
		}
		for i, e := range sp.ReportEntries {
			vis := map[string]types.ReportEntryVisibility{"always": types.ReportEntryVisibilityAlways, "fov": types.ReportEntryVisibilityFailureOrVerbose, "never": types.ReportEntryVisibilityNever}[p.entries[i].X]
			if e.Name != p.names[i] || e.Visibility != vis || e.Location.LineNumber != p.entries[i].Ln || e.StringRepresentation() != fmt.Sprint(p.vals[i]) {
				return fmt.Sprintf("S%d: report entry %d is %q %q %s at %s; added: %q %d %s at line %d", id, i, e.Name, e.StringRepresentation(), e.Visibility, e.Location, p.names[i], p.vals[i], vis, p.entries[i].Ln)
			}
		}
		c.Count("reports judged", 1)
	}
	return ""
}

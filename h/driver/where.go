package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/onsi/ginkgo/v2/internal/zzverif/sdoc"
	"github.com/onsi/ginkgo/v2/types"
)

// C35: suites all of whose calls into Ginkgo are made through random chains of functions of many shapes, some marked as helpers, with random offsets. Right before
// each call, on the same line, the program records its own stack; every location in the report is compared with what stack, marks and offset say.

type whereGen struct {
	r   *rand.Rand
	n   int
	big bool // deep chains
	far bool // chains deeper than the traces the runtime prints
}

var (
	whereNeutral = []string{"Plain", "Plain2", "Iface", "Generic", "Closure", "Captured", "Deferred", "Panicked", "Sorted", "Mapped", "Reflected", "Once", "Recursive", "Inlined", "Ranged", "Indirect", "ForCaller", "Method", "Expr"}
	whereRun     = append([]string{"THelper", "Goroutine"}, whereNeutral...)
)

func (g *whereGen) p(x float64) bool { return g.r.Float64() < x }

func (g *whereGen) item(k string, running bool) *sdoc.WItem {
	g.n++
	it := &sdoc.WItem{ID: g.n, K: k, V: g.r.Intn(6), Mark: g.p(.08), Off: -1}
	shapes := whereNeutral
	if running {
		shapes = whereRun
	}
	for i := g.r.Intn(5); i > 0; i-- {
		l := sdoc.WLink{F: shapes[g.r.Intn(len(shapes))], Mark: g.p(.35), N: g.r.Intn(4)}
		if l.F == "Goroutine" && (k == "skip" || k == "panic") {
			l.F = "Plain" // (the goroutine ends, the body goes on)
		}
		it.Chain = append(it.Chain, l)
	}
	if g.big && g.p(.15) {
		n := 20 + g.r.Intn(50)
		if g.far {
			n += 80
		}
		it.Chain = append(it.Chain, sdoc.WLink{F: "Recursive", Mark: g.p(.7), N: n})
		g.r.Shuffle(len(it.Chain), func(i, j int) { it.Chain[i], it.Chain[j] = it.Chain[j], it.Chain[i] })
	}
	if g.p(.35) {
		it.Off = g.r.Intn(4)
	}
	switch k {
	case "by", "tcleanup", "tenv", "panic":
		it.Off = -1
	case "entry": // (known finding)
		if g.p(.7) {
			it.Off = -1
		}
	}
	return it
}

func (g *whereGen) steps(it *sdoc.WItem, in string, depth int) {
	ks := []string{"by", "rentry", "by", "rentry"}
	if in == "spec" && depth < 3 {
		ks = append(ks, "cleanup", "cleanup", "tcleanup", "tenv")
	}
	if in == "spec" && g.p(.05) {
		ks = append(ks, "cleanuperr")
	}
	if in == "RS" {
		ks = []string{"by"}
	}
	for i := g.r.Intn(4); i > 0; i-- {
		k := g.item(ks[g.r.Intn(len(ks))], true)
		it.Kids = append(it.Kids, k)
		switch k.K {
		case "by":
			if k.V%3 > 0 && depth < 3 {
				g.steps(k, in, depth+1)
			}
		case "cleanup", "tcleanup", "cleanuperr":
			g.steps(k, "cleanup", depth+1)
		}
	}
	pf := .25
	if it.K != "it" && it.K != "entry" {
		pf = .04
	}
	if depth == 0 && g.p(pf) {
		ks := []string{"fail", "fail", "fail", "panic"}
		if in == "spec" && it.K != "AE" && it.K != "JAE" {
			ks = append(ks, "skip")
		}
		it.Kids = append(it.Kids, g.item(ks[g.r.Intn(len(ks))], true))
	}
}

func (g *whereGen) container(depth int) *sdoc.WItem {
	c := g.item("container", false)
	for i := 1 + g.r.Intn(4); i > 0; i-- {
		k := []string{"it", "it", "it", "table", "BE", "AE", "JBE", "JAE", "RE", "container"}[g.r.Intn(10)]
		if k == "container" {
			if depth < 3 {
				c.Kids = append(c.Kids, g.container(depth+1))
			}
			continue
		}
		c.Kids = append(c.Kids, g.node(k))
	}
	return c
}

func (g *whereGen) node(k string) *sdoc.WItem {
	it := g.item(k, false)
	switch k {
	case "table":
		for i := 1 + g.r.Intn(3); i > 0; i-- {
			e := g.item("entry", false)
			g.steps(e, "spec", 0)
			it.Kids = append(it.Kids, e)
		}
	case "RE":
		g.steps(it, "RE", 0)
	case "RS":
		g.steps(it, "RS", 1)
	default:
		g.steps(it, "spec", 0)
	}
	return it
}

type whereFrame struct {
	fn, file string
	line     int
	helper   bool
}

type whereCall struct {
	it     *sdoc.WItem
	owner  *sdoc.WItem // the node whose body makes the call
	frames []whereFrame
	spec   string
}

func (w *whereCall) at() int {
	if w.it.Off > 0 {
		return w.it.Off
	}
	return 0
}

func (w *whereCall) loc() string {
	for i := w.at(); i < len(w.frames); i++ {
		if f := w.frames[i]; !f.helper {
			return fmt.Sprintf("%s:%d", f.file, f.line)
		}
	}
	return ":0" // nothing but helpers
}

const whereMine = "/internal/zzverif/"

// trace lists the user's frames as stack traces show them.
func (w *whereCall) trace() (out []string) {
	for i := w.at(); i < len(w.frames); i++ {
		if f := w.frames[i]; strings.Contains(f.file, whereMine) {
			out = append(out, fmt.Sprintf("%s:%d", f.file, f.line))
		}
	}
	return
}

var whereFileLine = regexp.MustCompile(`^\t(.*:\d+)( \+0x[0-9a-f]+)?$`)

// whereTrace reads the user's frames from a stack trace; bad says what is wrong with its form.
func whereTrace(s string) (out []string, bad string) {
	ls := strings.Split(s, "\n")
	for i := 0; i < len(ls); i++ {
		if ls[i] == "" {
			continue
		}
		if strings.HasPrefix(ls[i], "...") {
			continue // frames left out by the runtime
		}
		if strings.HasPrefix(ls[i], "\t") || i+1 >= len(ls) {
			return out, fmt.Sprintf("line %d is no function: %q", i, ls[i])
		}
		m := whereFileLine.FindStringSubmatch(ls[i+1])
		if m == nil {
			return out, fmt.Sprintf("line %d is no position: %q", i+1, ls[i+1])
		}
		if strings.Contains(m[1], whereMine) {
			if !strings.Contains(ls[i], "zzverif") {
				return out, fmt.Sprintf("function %q is shown at %s", ls[i], m[1])
			}
			out = append(out, m[1])
		}
		i++
	}
	return
}

var whereID = regexp.MustCompile(`(?:it|entry|container|table|RS|fail|skip|panic|by|rentry|cleanuperr)(\d+)$`)

func whereNum(s string) int {
	if m := whereID.FindStringSubmatch(s); m != nil {
		n, _ := strconv.Atoi(m[1])
		return n
	}
	return 0
}

func whereCase(c *Ctx, i int) {
	g := &whereGen{r: rng("C35", i)}
	g.big, g.far = g.p(.3), g.p(.3)
	s := &sdoc.Suite{Desc: "where"}
	items := map[int]*sdoc.WItem{}
	owner := map[int]*sdoc.WItem{}
	for k := 1 + g.r.Intn(4); k > 0; k-- {
		if g.p(.7) {
			s.Where = append(s.Where, g.container(0))
		} else {
			s.Where = append(s.Where, g.node([]string{"it", "table", "BE", "AE", "JBE", "JAE", "RE"}[g.r.Intn(7)]))
		}
	}
	s.Where = append(s.Where, g.node("it"))
	for _, k := range []string{"BS", "AS", "RS"} {
		if g.p(.3) {
			s.Where = append(s.Where, g.node(k))
		}
	}
	g.r.Shuffle(len(s.Where), func(i, j int) { s.Where[i], s.Where[j] = s.Where[j], s.Where[i] })
	var walk func(it, own *sdoc.WItem)
	walk = func(it, own *sdoc.WItem) {
		items[it.ID], owner[it.ID] = it, own
		switch it.K {
		case "by", "rentry", "fail", "skip", "panic", "tenv":
		case "container", "table":
			own = nil
		default:
			own = it
		}
		for _, k := range it.Kids {
			walk(k, own)
		}
	}
	for _, it := range s.Where {
		walk(it, nil)
	}
	o := RunOpts{Args: []string{fmt.Sprint("seed=", 1+g.r.Intn(1000))}}
	if g.p(.3) {
		o.Args = append(o.Args, "randomize-all")
	}
	if g.p(.06) {
		o.Procs = 2
	}
	run := c.runRetry(s, o)
	defer run.Clean()
	var ds diffs
	calls := map[string]*whereCall{}
	var ran []sdoc.Event
	ranIn := map[int]string{}
	for _, e := range run.Events {
		if e.E != "wloc" && e.E != "wran" {
			continue
		}
		var x struct {
			F [][4]any
			S string
		}
		if err := json.Unmarshal([]byte(e.X), &x); err != nil {
			fatal("event %s: %v", e.X, err)
		}
		if e.E == "wran" {
			ran = append(ran, e)
			ranIn[len(ran)-1] = x.S
			continue
		}
		w := &whereCall{it: items[e.N], owner: owner[e.N], spec: x.S}
		for _, f := range x.F {
			w.frames = append(w.frames, whereFrame{f[0].(string), f[1].(string), int(f[2].(float64)), f[3].(bool)})
		}
		switch w.it.K {
		case "container", "table", "it", "entry", "BE", "AE", "JBE", "JAE", "RE", "BS", "AS", "RS":
			w.spec = "" // while the tree is built (once per process, with the same stacks)
		}
		calls[fmt.Sprint(w.spec, "/", e.N)] = w
		if strings.HasSuffix(w.spec, "Suite ") || strings.HasSuffix(w.spec, "(Suite) ") { // (run by every process)
			calls[fmt.Sprint(w.spec, e.P, "/", e.N)] = w
		}
		c.Count("call "+w.it.K, 1)
		c.Count(fmt.Sprintf("helpers skipped %v", len(w.frames) > w.at() && w.frames[w.at()].helper), 1)
	}
	find := func(spec string, id int) *whereCall {
		if w := calls[fmt.Sprint(spec, "/", id)]; w != nil {
			return w
		}
		if w := calls[fmt.Sprint("/", id)]; w != nil || !strings.HasPrefix(spec, "DeferCleanup (Suite)") {
			return w
		}
		for _, w := range calls { // registered by a suite node
			if w.it.ID == id {
				return w
			}
		}
		return nil
	}
	sig, judged := "", 0
	var known []string
	judge := func(spec, what string, id int, got types.CodeLocation) {
		w := find(spec, id)
		if w == nil {
			ds.add("unknown", "[%s] %s of item %d (%v) has a location but the call was not seen", spec, what, id, items[id])
			return
		}
		judged++
		c.Count("judged "+what, 1)
		if want := w.loc(); got.String() != want {
			if whereEntryOffset(w.it) && !strings.HasSuffix(got.FileName, "/where_test.go") && !strings.HasSuffix(got.FileName, "/wlib.go") {
				known = append(known, fmt.Sprintf("[%s] %s of entry %d (offset %d) is said to be at %s, want %s", spec, what, id, w.it.Off, base(got.String()), base(want)))
				return
			}
			ds.add(what, "[%s] %s of %s %d is said to be at %s, want %s (offset %d, chain %s)", spec, what, w.it.K, id, base(got.String()), base(want), w.it.Off, whereChain(w))
		}
	}
	stack := func(spec, what string, w *whereCall, got string) {
		tr, bad := whereTrace(got)
		want := w.trace()
		c.Count("traces judged", 1)
		if bad != "" {
			ds.add("trace form", "[%s] trace of %s: %s", spec, what, bad)
			return
		}
		if strings.Contains(got, "...") && len(want) > 30 {
			want = want[:30]
			c.Count("shortened traces judged", 1)
		}
		if len(tr) < len(want) {
			ds.add("trace", "[%s] trace of %s shows %d of my frames, want %d: %s", spec, what, len(tr), len(want), trunc(got, 1500))
			return
		}
		for i := range want {
			if tr[i] != want[i] {
				ds.add("trace", "[%s] trace of %s: frame %d is %s, want %s (offset %d, chain %s)", spec, what, i, base(tr[i]), base(want[i]), w.it.Off, whereChain(w))
				return
			}
		}
	}
	reps, noRep := readReports(run)
	if noRep != "" {
		ds.add("nothing", "%s", noRep)
	}
	for _, rep := range reps {
		for _, r := range rep.SpecReports {
			spec := fmt.Sprint(r.LeafNodeType, " ", r.LeafNodeText)
			starts := map[string]int{}
			for k, t := range r.ContainerHierarchyTexts {
				judge(spec, "container", whereNum(t), r.ContainerHierarchyLocations[k])
			}
			leaf := 0
			for _, it := range s.Where {
				if it.K == "BS" && r.LeafNodeType == types.NodeTypeBeforeSuite || it.K == "AS" && r.LeafNodeType == types.NodeTypeAfterSuite {
					leaf = it.ID
				}
			}
			if r.LeafNodeText == "" {
				spec += fmt.Sprint(r.ParallelProcess)
			}
			if leaf == 0 {
				leaf = whereNum(r.LeafNodeText)
			}
			if leaf > 0 {
				judge(spec, "leaf node", leaf, r.LeafNodeLocation)
			} else if r.LeafNodeType.Is(types.NodeTypeCleanupAfterSuite) {
				c.Count("suite cleanups", 1)
			}
			for _, e := range r.SpecEvents {
				switch e.SpecEventType {
				case types.SpecEventByStart, types.SpecEventByEnd:
					judge(spec, "step", whereNum(e.Message), e.CodeLocation)
				case types.SpecEventNodeStart:
					starts[e.CodeLocation.String()]++
				}
			}
			for _, e := range r.ReportEntries {
				if n := whereNum(e.Name); n > 0 {
					judge(spec, "report entry", n, e.Location)
				}
			}
			fails := []types.Failure{}
			if !r.Failure.IsZero() {
				fails = append(fails, r.Failure)
			}
			for _, a := range r.AdditionalFailures {
				fails = append(fails, a.Failure)
			}
			for _, f := range fails {
				msg := strings.TrimPrefix(strings.TrimSuffix(f.Message, "\n"), "DeferCleanup callback returned error: ")
				n := whereNum(msg)
				if f.Message == "Test Panicked" {
					n = whereNum(f.ForwardedPanic)
					if n == 0 { // the nil pointer: the only panic of its body
						cand := []int{}
						for id, it := range items {
							if w := calls[fmt.Sprint(spec, "/", id)]; it.K == "panic" && it.V%2 == 1 && w != nil && owner[id] != nil && whereIn(w.trace(), f.Location.FullStackTrace) {
								cand = append(cand, id)
							}
						}
						if len(cand) == 1 {
							n = cand[0]
						} else if len(cand) > 1 { // (which of them is not known)
							c.Count("ambiguous panics", 1)
							continue
						} else {
							ds.add("panic", "[%s] the trace of %q shows none of the panicking calls: %s", spec, f.ForwardedPanic, trunc(f.Location.FullStackTrace, 1500))
							continue
						}
					}
					w := find(spec, n)
					if w == nil {
						ds.add("unknown", "[%s] panic %d was not seen", spec, n)
						continue
					}
					stack(spec, "panic", w, f.Location.FullStackTrace)
				} else if n == 0 {
					if r.State != types.SpecStateSkipped { // (skipped after a failure and so on)
						ds.add("failure", "[%s] unexpected failure %q", spec, f.Message)
					}
					continue
				} else {
					judge(spec, "failure", n, f.Location)
					if w := find(spec, n); w != nil && w.it.K != "cleanuperr" {
						stack(spec, "failure", w, f.Location.FullStackTrace)
					}
				}
				own := owner[n]
				if items[n] != nil && items[n].K == "cleanuperr" {
					own = items[n]
				}
				if own != nil {
					judge(spec, "failing node", own.ID, f.FailureNodeLocation)
				}
			}
			// nodes entered
			if !r.LeafNodeType.Is(types.NodeTypeIt) || r.NumAttempts > 1 {
				continue
			}
			want := map[string]int{}
			for k, e := range ran {
				it := items[e.N]
				if ranIn[k] != spec || it.K == "by" {
					continue
				}
				if w := find(spec, it.ID); w != nil {
					want[w.loc()]++
				}
			}
			for _, w := range calls {
				if w.spec == spec && w.it.K == "tenv" {
					want[w.loc()]++
				}
			}
			judged++
			c.Count("judged nodes entered", len(want))
			if fmt.Sprint(starts) != fmt.Sprint(want) && !whereEntryOffset(items[leaf]) {
				ds.add("nodes", "[%s] nodes were entered at %v, want %v", spec, starts, want)
			}
		}
	}
	if judged == 0 {
		ds.add("nothing", "no location found: exit %d\n%s", run.Res.Exit, trunc(run.Res.Out, 2000))
	}
	for k := 0; k < 20; k++ {
		whereStacks(c, &ds, g.r)
	}
	for _, w := range calls {
		sig += w.it.K[:2] + whereChain(w)
	}
	c.Count("locations judged", judged)
	c.Eval(sigHash(fmt.Sprint(len(calls)), fmt.Sprint(sortedKeys(calls)), fmt.Sprint(len(sig))))
	if i < 3 {
		c.Sample(map[string]any{"case": i, "calls": len(calls), "locations judged": judged, "exit": run.Res.Exit})
	}
	sort.SliceStable(ds.d, func(i, j int) bool { return ds.d[i].Cat < ds.d[j].Cat })
	if len(known) > 0 {
		c.Fail("entry-offset", fmt.Sprintf("case %d (args %v, procs %d):\n%s", i, o.Args, o.Procs, strings.Join(known, "\n")), run.Files())
	}
	if len(ds.d) > 0 {
		var l []string
		for _, d := range ds.d {
			l = append(l, d.Cat+": "+d.Msg)
		}
		c.Fail("", fmt.Sprintf("case %d (args %v, procs %d):\n%s", i, o.Args, o.Procs, strings.Join(l, "\n")), run.Files())
	}
}

// whereEntryOffset: table entries decorated with Offset (known finding entry-offset).
func whereEntryOffset(it *sdoc.WItem) bool { return it != nil && it.K == "entry" && it.Off >= 0 }

func whereIn(want []string, trace string) bool {
	tr, _ := whereTrace(trace)
	return len(want) > 0 && len(tr) > 0 && want[0] == tr[0]
}

func whereChain(w *whereCall) string {
	out := ""
	for _, f := range w.frames {
		if len(out) > 400 {
			break
		}
		if f.helper {
			out += "!"
		}
		out += filepath.Base(f.fn) + ":" + fmt.Sprint(f.line) + "<"
	}
	return out
}

// whereStacks prunes made-up stack traces.
func whereStacks(c *Ctx, ds *diffs, r *rand.Rand) {
	var ls, want []string
	if r.Intn(3) > 0 {
		ls = append(ls, fmt.Sprintf("goroutine %d [running]:", 1+r.Intn(99)))
	}
	n := 2 + r.Intn(12)
	skip := r.Intn(n - 1)
	dirs := []string{"/home/me/src/a", "/go/pkg/mod/github.com/onsi/ginkgo/v2@v2.1/internal", "/work/my-ginkgo", "/work/ginkgo/x", "/usr/local/go/src/runtime", "/go/pkg/testing/", "/go/pkg/runtime/x", "/work/ginkgox/y", "/w/pkg/testingx"}
	drop := regexp.MustCompile(`/ginkgo/|/pkg/testing/|/pkg/runtime/`)
	elided := -1
	if r.Intn(2) == 0 {
		elided = skip + 1 + r.Intn(n-skip)
	}
	for i := 0; i <= n; i++ {
		if i == elided {
			ls = append(ls, []string{"...additional frames elided...", "...37 frames elided..."}[r.Intn(2)])
		}
		if i == n {
			break
		}
		d := dirs[r.Intn(len(dirs))]
		f := fmt.Sprintf("pkg%d.f%d(0x1, ...)", r.Intn(3), i)
		p := fmt.Sprintf("\t%s/f%d.go:%d +0x%x", d, r.Intn(5), 1+r.Intn(999), r.Intn(999))
		ls = append(ls, f, p)
		if i > skip && !drop.MatchString(p) {
			want = append(want, f, p)
		}
	}
	in := strings.Join(ls, "\n")
	if r.Intn(2) == 0 {
		in += "\n"
	}
	var got []string
	for _, l := range strings.Split(types.PruneStack(in, skip), "\n") {
		if l != "" && !strings.HasPrefix(l, "...") {
			got = append(got, l)
		}
	}
	c.Count("made-up traces pruned", 1)
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		ds.add("prune", "PruneStack(%q, %d) keeps %q, want %q", in, skip, got, want)
	}
}

func init() {
	checks["C35"] = Check{Level: "exploration", Rule: "a case counts as distinct by the hash of its calls, the specs they were made in and the size of their chains",
		Run: func(c *Ctx) { parallelDo(N(2500, 60000), workers(), func(i int) { whereCase(c, i) }) }}
}

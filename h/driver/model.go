package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/onsi/ginkgo/v2/internal/zzverif/sdoc"
)

// ---------------------------------------------------------------- configuration of a run

type FileF struct {
	Re     string
	Ranges [][2]int // [a,b)
	Spell  string
}

type Cfg struct {
	Seed                                                  int64
	RandAll, FailFast, DryRun, FailOnPending, FailOnEmpty bool
	Flake                                                 int
	Focus, Skip                                           []string
	FocusFiles, SkipFiles                                 []FileF
	Label                                                 *LF
	LabelText                                             string
	MustPass                                              int // programmatic
	Timeout, Grace                                        int // ms; Timeout -1: none (--timeout=0), 0: not given
}

func (c *Cfg) Args() []string {
	a := []string{fmt.Sprintf("seed=%d", c.Seed)}
	b := func(v bool, n string) {
		if v {
			a = append(a, n)
		}
	}
	b(c.RandAll, "randomize-all")
	b(c.FailFast, "fail-fast")
	b(c.DryRun, "dry-run")
	b(c.FailOnPending, "fail-on-pending")
	b(c.FailOnEmpty, "fail-on-empty")
	if c.Flake > 0 {
		a = append(a, fmt.Sprintf("flake-attempts=%d", c.Flake))
	}
	for _, s := range c.Focus {
		a = append(a, "focus="+s)
	}
	for _, s := range c.Skip {
		a = append(a, "skip="+s)
	}
	for _, s := range c.FocusFiles {
		a = append(a, "focus-file="+s.Spell)
	}
	for _, s := range c.SkipFiles {
		a = append(a, "skip-file="+s.Spell)
	}
	if c.LabelText != "" {
		a = append(a, "label-filter="+c.LabelText)
	}
	if c.Timeout < 0 {
		a = append(a, "timeout=0s")
	} else if c.Timeout > 0 {
		a = append(a, fmt.Sprintf("timeout=%dms", c.Timeout))
	}
	if c.Grace > 0 {
		a = append(a, fmt.Sprintf("grace-period=%dms", c.Grace))
	}
	return a
}

// ---------------------------------------------------------------- static structure

type mnode struct {
	n     *sdoc.Node
	level int
}

type mspec struct {
	it      *sdoc.Node
	level   int
	conts   []*sdoc.Node
	nodes   []mnode // setup/teardown/reporting nodes, outer to inner, declaration order within a level
	pending bool
	skip    bool
	serial  bool
	ordered *sdoc.Node // outermost ordered container
}

func isSuiteKind(k string) bool {
	switch k {
	case "BeforeSuite", "AfterSuite", "SynchronizedBeforeSuite", "SynchronizedAfterSuite", "ReportBeforeSuite", "ReportAfterSuite":
		return true
	}
	return false
}

func flatten(s *sdoc.Suite) []*mspec {
	var out []*mspec
	var rec func(ns []*sdoc.Node, level int, conts []*sdoc.Node, inherited []mnode)
	rec = func(ns []*sdoc.Node, level int, conts []*sdoc.Node, inherited []mnode) {
		nodes := append([]mnode{}, inherited...)
		for _, n := range ns {
			if n.K != "container" && n.K != "it" && !isSuiteKind(n.K) {
				nodes = append(nodes, mnode{n, level})
			}
		}
		for _, n := range ns {
			switch n.K {
			case "container":
				rec(n.Kids, level+1, append(append([]*sdoc.Node{}, conts...), n), nodes)
			case "it":
				m := &mspec{it: n, level: level, conts: conts, nodes: nodes}
				for _, x := range append(append([]*sdoc.Node{}, conts...), n) {
					m.pending = m.pending || x.Pending || (x.K == "it" && x.Via == "nobody")
					m.serial = m.serial || x.Serial
					if x.Ordered && m.ordered == nil {
						m.ordered = x
					}
				}
				out = append(out, m)
			}
		}
	}
	rec(s.Top, 0, nil, nil)
	return out
}

func contText(n *sdoc.Node) string {
	if n.K == "container" && n.Via == "when" && !n.Focus && !n.Pending {
		return "when " + n.Text
	}
	if n.K == "container" && n.Via == "when" {
		return "when " + n.Text
	}
	return n.Text
}

func nodeLabels(n *sdoc.Node) []string {
	var out []string
	if n.Serial {
		out = append(out, "Serial")
	}
	return append(out, n.Labels...)
}

func (m *mspec) labels() []string {
	var out []string
	for _, c := range m.conts {
		out = append(out, nodeLabels(c)...)
	}
	return append(out, nodeLabels(m.it)...)
}

func (m *mspec) text() string {
	var t []string
	for _, c := range m.conts {
		if x := contText(c); x != "" {
			t = append(t, x)
		}
	}
	if m.it.Text != "" {
		t = append(t, m.it.Text)
	}
	return strings.Join(t, " ")
}

func (m *mspec) locs() []sdoc.Loc {
	var out []sdoc.Loc
	for _, c := range m.conts {
		out = append(out, c.Loc)
	}
	out = append(out, m.it.Loc)
	for _, n := range m.nodes {
		out = append(out, n.n.Loc)
	}
	return out
}

// effectiveFocus implements: a focused node none of whose descendants is focused; nothing inside a pending node counts.
func effectiveFocus(s *sdoc.Suite) map[int]bool {
	eff := map[int]bool{}
	var rec func(n *sdoc.Node) bool
	rec = func(n *sdoc.Node) bool {
		if n.Pending || n.Via == "nobody" {
			return false
		}
		below := false
		for _, k := range n.Kids {
			if rec(k) {
				below = true
			}
		}
		if n.Focus && !below {
			eff[n.ID] = true
		}
		return n.Focus || below
	}
	for _, n := range s.Top {
		rec(n)
	}
	return eff
}

func fileMatch(fs []FileF, locs []sdoc.Loc) bool {
	for _, f := range fs {
		re := regexp.MustCompile(f.Re)
		for _, l := range locs {
			if !re.MatchString(l.F) {
				continue
			}
			if len(f.Ranges) == 0 {
				return true
			}
			for _, r := range f.Ranges {
				if l.L >= r[0] && l.L < r[1] {
					return true
				}
			}
		}
	}
	return false
}

// applyFilters decides which specs are selected; it returns whether the suite has programmatic focus.
func applyFilters(s *sdoc.Suite, specs []*mspec, c *Cfg) bool {
	eff := effectiveFocus(s)
	foc := func(m *mspec) bool {
		for _, x := range m.conts {
			if eff[x.ID] {
				return true
			}
		}
		return eff[m.it.ID]
	}
	has := false
	for _, m := range specs {
		if foc(m) && !m.pending {
			has = true
		}
	}
	for _, m := range specs {
		full := s.Desc + " " + m.text()
		skip := m.pending
		if has && !foc(m) {
			skip = true
		}
		if c.Label != nil && !c.Label.Eval(append(append([]string{}, s.Labels...), m.labels()...)) {
			skip = true
		}
		if len(c.FocusFiles) > 0 && !fileMatch(c.FocusFiles, m.locs()) {
			skip = true
		}
		if len(c.SkipFiles) > 0 && fileMatch(c.SkipFiles, m.locs()) {
			skip = true
		}
		any := func(res []string) bool {
			for _, r := range res {
				if regexp.MustCompile(r).MatchString(full) {
					return true
				}
			}
			return false
		}
		if len(c.Focus) > 0 && !any(c.Focus) {
			skip = true
		}
		if len(c.Skip) > 0 && any(c.Skip) {
			skip = true
		}
		m.skip = skip
	}
	return has
}

// ---------------------------------------------------------------- expectations

type XFail struct {
	State, Msg, Panic string
	Node              int    // node id whose location the failure must carry as failure node location (cleanup: act id)
	Kind              string // node kind as reported
	Level             int    // nesting level of the node, -1: leaf
	Leaf              bool
	AnyMsg            bool   // message not determined (concurrent failures): Msg is a prefix
	Line              bool   // location must be the logged line
	Nested            *XFail // failure while unwinding from a timeout or interrupt
}

type XEvent struct {
	N, Part, Spec, Inv, Att int
	K                       string
	X                       string // for reporting nodes: expected state; for cleanups: args
}

type XRep struct {
	ID       int // subject id, or suite node id (cleanup: act id)
	Kind     string
	State    string
	Fail     *XFail
	Add      []XFail
	Attempts int
	MaxFlake int
	MaxMust  int
	GW       string
	Entries  []string
	Steps    []string
	Spec     *mspec
	SkipMsg  string
}

type Expect struct {
	Events   []XEvent
	Reps     []XRep
	OK       bool
	Reasons  []string
	HasFocus bool
	Total    int
	Will     int
	Findings map[string]bool // keys of documented findings whose trigger occurred
	Stats    map[string]int
	Level    int // of interruption reached
}

type cleanup struct {
	act   *sdoc.Act
	gen   string // instance key of the generating node
	genID int
	kind  string // Each, All, Suite
	level int
	key   string
}

type model struct {
	s       *sdoc.Suite
	c       *Cfg
	specs   []*mspec
	x       *Expect
	invs    map[string]int
	cleans  []*cleanup
	skipAll bool
	nclean  int

	cur   *XRep
	spec  int
	att   int
	gwBuf string

	clk *clock // nil unless time matters
}

type outcome struct {
	state string
	fail  XFail
}

func (m *model) event(n, part int, k, x string) int {
	key := fmt.Sprintf("%d/%d/%d", n, part, m.spec)
	inv := m.invs[key]
	m.invs[key]++
	m.x.Events = append(m.x.Events, XEvent{N: n, Part: part, Spec: m.spec, Inv: inv, Att: m.att, K: k, X: x})
	return inv
}

type bodyRes struct {
	stopped bool
	o       outcome
	clk     *nodeClock
}

// latch: the first outcome of a node wins.
func (b *bodyRes) latch(state, msg, pv string) {
	if b.clk != nil && b.clk.over {
		if b.o.fail.Nested == nil {
			b.o.fail.Nested = &XFail{State: state, Msg: msg, Panic: pv, Line: pv == ""}
		}
		return
	}
	if b.o.state == "passed" {
		b.o.state = state
		b.o.fail = XFail{State: state, Msg: msg, Panic: pv, Line: pv == ""}
	}
}

func (m *model) runActs(b *bodyRes, acts []sdoc.Act, inv int, self mnodeRef) {
	for i := range acts {
		a := &acts[i]
		if !a.Applies(inv, m.spec, 1) {
			continue
		}
		if b.clk != nil && m.timedAct(b, a) {
			if b.stopped {
				return
			}
			continue
		}
		switch a.K {
		case "fail", "failoff", "tfatal", "terrorf":
			b.latch("failed", a.S+map[bool]string{true: "\n"}[a.K == "tfatal"], "")
			b.stopped = true
		case "tfail":
			b.latch("failed", "failed", "")
			b.stopped = true
		case "tskip":
			b.latch("skipped", a.S+"\n", "")
			b.stopped = true
		case "panic":
			b.latch("panicked", "Test Panicked", panicText(a))
			b.stopped = true
		case "goexit":
			b.latch("panicked", "Test Panicked", "<nil>")
			b.stopped = true
		case "skip":
			b.latch("skipped", a.S, "")
			b.stopped = true
		case "abort":
			b.latch("aborted", a.S, "")
			b.stopped = true
		case "rfail", "gofail":
			b.latch("failed", a.S, "")
		case "rskip":
			b.latch("skipped", a.S, "")
		case "gopanic":
			b.latch("panicked", "Test Panicked", panicText(a))
		case "gofailn":
			if b.clk != nil && b.clk.over {
				first := b.o.fail.Nested == nil
				b.latch("failed", a.S, "")
				if first {
					b.o.fail.Nested.AnyMsg, b.o.fail.Nested.Line = true, false
				}
			} else if b.o.state == "passed" {
				b.latch("failed", a.S, "")
				b.o.fail.AnyMsg = true
				b.o.fail.Line = false
			}
		case "defer", "tcleanup":
			kind := "Each"
			switch self.kind {
			case "BeforeSuite", "AfterSuite", "SynchronizedBeforeSuite", "SynchronizedAfterSuite":
				kind = "Suite"
			case "BeforeAll", "AfterAll":
				kind = "All"
			}
			m.nclean++
			m.cleans = append(m.cleans, &cleanup{act: a, gen: self.key, genID: self.id, kind: kind, level: self.level, key: fmt.Sprintf("c%d", m.nclean)})
		case "gw":
			switch a.V {
			case "println":
				m.gwBuf += a.S + "\n"
			default:
				m.gwBuf += a.S
			}
		case "tlog":
			m.gwBuf += "  " + a.S + "\n"
		case "entry":
			m.cur.Entries = append(m.cur.Entries, a.S)
		case "by":
			m.cur.Steps = append(m.cur.Steps, a.S)
			if a.V == "cb" {
				m.runActs(b, a.B, inv, self)
			}
		}
		if b.stopped {
			return
		}
	}
}

func panicText(a *sdoc.Act) string {
	switch a.V {
	case "int":
		return fmt.Sprint(a.N)
	case "struct":
		return fmt.Sprint(struct{ A string }{a.S})
	case "nilmap":
		return "assignment to entry in nil map"
	case "index":
		return fmt.Sprintf("runtime error: index out of range [%d] with length 0", a.N)
	case "nilderef":
		return "runtime error: invalid memory address or nil pointer dereference"
	}
	return a.S
}

type mnodeRef struct {
	id    int
	key   string // instance key: node id or cleanup key
	kind  string
	level int
	leaf  bool
}

func reportedKind(k string) string { return k }

// exec runs a node body in the model.
func (m *model) exec(ref mnodeRef, part int, acts []sdoc.Act, x string) outcome {
	if m.clk != nil && m.clk.gated(ref.kind) {
		return outcome{state: "skipped"}
	}
	b := &bodyRes{o: outcome{state: "passed"}}
	inv := m.event(ref.id, part, ref.kind, x)
	if m.clk != nil {
		b.clk = m.startNode(ref, part, inv)
	}
	m.runActs(b, acts, inv, ref)
	if m.clk != nil {
		m.endNode(b)
	}
	if b.o.state != "passed" {
		b.o.fail.Node, b.o.fail.Kind, b.o.fail.Level, b.o.fail.Leaf = ref.id, ref.kind, ref.level, ref.leaf
		if f := b.o.fail.Nested; f != nil {
			f.Node, f.Kind, f.Level, f.Leaf = ref.id, ref.kind, ref.level, ref.leaf
		}
	}
	return b.o
}

func (m *model) execCleanup(cl *cleanup) outcome {
	for i, c := range m.cleans {
		if c == cl {
			m.cleans = append(append([]*cleanup{}, m.cleans[:i]...), m.cleans[i+1:]...)
			break
		}
	}
	a := cl.act
	ref := mnodeRef{id: a.ID, key: cl.key, kind: "DeferCleanup (" + cl.kind + ")", level: cl.level, leaf: cl.kind == "Suite"}
	x := ""
	switch a.V {
	case "ctxarg", "arg":
		x = fmt.Sprintf("args=%s,%d", a.S, a.N)
	case "variadic":
		x = fmt.Sprintf("args=%d,%v", a.N, []string{a.S, "z"})
	case "ctxargctx":
		x = fmt.Sprintf("args=%s,mine", a.S)
	}
	o := m.exec(ref, 0, a.B, x)
	if a.K == "defer" && (a.V == "err" || a.V == "valerr") && o.state == "passed" {
		o = outcome{"failed", XFail{State: "failed", Msg: "DeferCleanup callback returned error: " + a.S, Node: a.ID, Kind: ref.kind, Level: ref.level, Leaf: ref.leaf}}
	}
	return o
}

func isFailure(s string) bool {
	switch s {
	case "failed", "timedout", "aborted", "panicked", "interrupted":
		return true
	}
	return false
}

// ---------------------------------------------------------------- run-once bookkeeping

type pair struct{ node, cont int }

func (m *model) pairs(sp *mspec) map[int]pair {
	out := map[int]pair{}
	for _, nd := range sp.nodes {
		switch nd.n.K {
		case "BeforeAll", "AfterAll":
			out[nd.n.ID] = pair{nd.n.ID, sp.conts[nd.level-1].ID}
		case "BeforeEach", "JustBeforeEach", "AfterEach", "JustAfterEach":
			if !nd.n.OncePerOrdered {
				continue
			}
			ord := false
			for lv, c := range sp.conts {
				ord = ord || c.Ordered
				if lv >= nd.level && ord {
					out[nd.n.ID] = pair{nd.n.ID, c.ID}
					break
				}
			}
		}
	}
	return out
}

type group struct {
	m            *model
	specs        []*mspec
	pairs        map[*mspec]map[int]pair
	tracker      map[pair]string
	ok           bool
	failedInOnce bool
	contOnFail   bool
	outstanding  map[pair]bool // run-once teardown left for a later spec
}

func (g *group) lastWith(sp *mspec, p pair) bool {
	var last *mspec
	for _, s := range g.specs {
		if s.skip {
			continue
		}
		for _, q := range g.pairs[s] {
			if q == p {
				last = s
			}
		}
	}
	return last == sp
}

func kindsOf(sp *mspec, kinds ...string) []mnode {
	var out []mnode
	for _, n := range sp.nodes {
		for _, k := range kinds {
			if n.n.K == k {
				out = append(out, n)
			}
		}
	}
	return out
}

func asc(ns []mnode) []mnode {
	sort.SliceStable(ns, func(i, j int) bool { return ns[i].level < ns[j].level })
	return ns
}
func desc(ns []mnode) []mnode {
	sort.SliceStable(ns, func(i, j int) bool { return ns[i].level > ns[j].level })
	return ns
}

func (g *group) attempt(sp *mspec, final, repeating bool) (failedInOnce bool) {
	m := g.m
	pairs := g.pairs[sp]
	type step struct {
		ref  mnodeRef
		body []sdoc.Act
		p    pair
		once bool
	}
	mk := func(n mnode) step {
		p, once := pairs[n.n.ID]
		return step{mnodeRef{n.n.ID, fmt.Sprint(n.n.ID), n.n.K, n.level, false}, n.n.Body, p, once}
	}
	if m.clk != nil {
		m.startAttempt(sp)
		defer func() { m.clk.spec = nil }()
	}
	var steps []step
	// per level: BeforeAll nodes, then BeforeEach nodes; then all JustBeforeEach; then the subject
	for _, n := range asc(append(kindsOf(sp, "BeforeAll"), kindsOf(sp, "BeforeEach")...)) {
		steps = append(steps, mk(n))
	}
	for _, n := range asc(kindsOf(sp, "JustBeforeEach")) {
		steps = append(steps, mk(n))
	}
	steps = append(steps, step{ref: mnodeRef{sp.it.ID, fmt.Sprint(sp.it.ID), "It", sp.level, true}, body: sp.it.Body})

	termLevel := 1 << 30
	var term *step
	ranBefore := map[string]bool{}
	for i := range steps {
		st := &steps[i]
		if st.once && g.tracker[st.p] == "passed" {
			continue
		}
		ranBefore[st.ref.key] = true
		o := m.exec(st.ref, 0, st.body, "")
		m.set(o)
		if st.once {
			g.tracker[st.p] = o.state
		}
		if o.state != "passed" {
			term, termLevel = st, st.ref.level
			failedInOnce = st.once
			break
		}
	}

	ran := map[string]bool{}
	withCleanups := false
	for {
		type after struct {
			n  *mnode
			cl *cleanup
		}
		var cand []after
		for _, n := range desc(kindsOf(sp, "JustAfterEach")) {
			n := n
			if n.level <= termLevel {
				cand = append(cand, after{n: &n})
			}
		}
		for _, n := range desc(append(kindsOf(sp, "AfterEach"), kindsOf(sp, "AfterAll")...)) {
			n := n
			if n.level <= termLevel {
				cand = append(cand, after{n: &n})
			}
		}
		if withCleanups {
			for _, k := range []string{"Each", "All"} {
				for i := len(m.cleans) - 1; i >= 0; i-- {
					if m.cleans[i].kind == k {
						cand = append(cand, after{cl: m.cleans[i]})
					}
				}
			}
		}
		var run []after
		state := m.cur.State
		for _, a := range cand {
			ok := func() bool {
				var p pair
				var once bool
				var level int
				if a.cl != nil {
					if ran[a.cl.key] {
						return false
					}
					if ran[a.cl.gen] {
						return true // registered by a teardown node that ran in this attempt
					}
					p, once = pairs[a.cl.genID]
					level = a.cl.level
				} else {
					if ran[fmt.Sprint(a.n.n.ID)] {
						return false
					}
					p, once = pairs[a.n.n.ID]
					level = a.n.level
				}
				if !once {
					return true
				}
				last := g.lastWith(sp, p)
				switch state {
				case "passed":
					return last && (final || !repeating)
				case "skipped":
					return last || (term != nil && term.once && term.ref.level == level)
				case "failed", "panicked", "timedout":
					if final || repeating {
						if g.contOnFail {
							return last || failedInOnce
						}
						return true
					}
					if term != nil && term.once {
						if a.cl != nil {
							return term.ref.id == a.cl.genID
						}
						return term.ref.level == level
					}
				case "interrupted", "aborted":
					return true
				}
				return false
			}()
			if ok {
				run = append(run, a)
			}
		}
		if len(run) == 0 && withCleanups {
			break
		}
		var teardown []after // runs before what remains of the cleanups
		for _, a := range run {
			if a.n != nil {
				teardown = append(teardown, a)
			}
		}
		if len(teardown) > 0 {
			run = teardown
		}
		for _, a := range run {
			var o outcome
			if a.cl != nil {
				ran[a.cl.key] = true
				o = m.execCleanup(a.cl)
			} else {
				ran[fmt.Sprint(a.n.n.ID)] = true
				o = m.exec(mnodeRef{a.n.n.ID, fmt.Sprint(a.n.n.ID), a.n.n.K, a.n.level, false}, 0, a.n.n.Body, "")
			}
			m.merge(o)
		}
		withCleanups = true
	}
	for _, n := range kindsOf(sp, "JustAfterEach", "AfterEach", "AfterAll") {
		if p, once := pairs[n.n.ID]; once && n.level <= termLevel {
			g.outstanding[p] = !ran[fmt.Sprint(n.n.ID)]
		}
	}
	return failedInOnce
}

// lastRites runs the run-once teardown that was waiting for a spec which turned out not to be attempted.
func (g *group) lastRites(sp *mspec) {
	m := g.m
	pairs := g.pairs[sp]
	m.gwBuf = ""
	due := func(id int) bool {
		p, once := pairs[id]
		return once && g.lastWith(sp, p)
	}
	for {
		var todo *mnode
		for _, n := range append(desc(kindsOf(sp, "JustAfterEach")), desc(append(kindsOf(sp, "AfterEach"), kindsOf(sp, "AfterAll")...))...) {
			n := n
			if todo == nil && due(n.n.ID) && g.outstanding[pairs[n.n.ID]] {
				todo = &n
			}
		}
		var o outcome
		if todo != nil {
			g.outstanding[pairs[todo.n.ID]] = false
			m.x.Stats["run-once teardown run for a spec that was not attempted"]++
			o = m.exec(mnodeRef{todo.n.ID, fmt.Sprint(todo.n.ID), todo.n.K, todo.level, false}, 0, todo.n.Body, "")
		} else {
			var cl *cleanup
			for _, k := range []string{"Each", "All"} {
				for i := len(m.cleans) - 1; i >= 0 && cl == nil; i-- {
					if m.cleans[i].kind == k && due(m.cleans[i].genID) {
						cl = m.cleans[i]
					}
				}
			}
			if cl == nil {
				break
			}
			o = m.execCleanup(cl)
		}
		if isFailure(o.state) {
			if !isFailure(m.cur.State) || o.state == "aborted" {
				m.set(o)
			} else {
				m.cur.Add = append(m.cur.Add, o.fail)
			}
		}
	}
	m.cur.GW += m.gwBuf
}

// set installs the outcome of a setup/subject node.
func (m *model) set(o outcome) {
	m.cur.State = o.state
	m.cur.Fail = nil
	if o.state != "passed" && o.fail.State != "" {
		f := o.fail
		m.cur.Fail = &f
	}
}

// merge combines the outcome of a teardown node with the spec's.
func (m *model) merge(o outcome) {
	if m.cur.State == "passed" || o.state == "aborted" {
		m.set(o)
	} else if isFailure(o.state) {
		m.cur.Add = append(m.cur.Add, o.fail)
	}
}

func innermost(sp *mspec, f func(n *sdoc.Node) int) int {
	v := 0
	for _, n := range append(append([]*sdoc.Node{}, sp.conts...), sp.it) {
		if f(n) > 0 {
			v = f(n)
		}
	}
	return v
}

func (g *group) skipStatus(sp *mspec) (string, string) {
	if sp.pending {
		return "pending", ""
	}
	if sp.skip {
		return "skipped", ""
	}
	if g.m.skipAll {
		return "skipped", ""
	}
	if g.m.clk != nil && (g.m.clk.level > 0 || g.m.suiteOutOfTime()) {
		return "skipped", ""
	}
	if !g.ok && !g.contOnFail {
		return "skipped", "Spec skipped because an earlier spec in an ordered container failed"
	}
	if g.failedInOnce && g.contOnFail {
		return "skipped", "Spec skipped because a BeforeAll node failed"
	}
	for _, n := range sp.nodes {
		p, once := g.pairs[sp][n.n.ID]
		if once && (n.n.K == "BeforeAll" || n.n.K == "BeforeEach" || n.n.K == "JustBeforeEach") && g.tracker[p] == "skipped" {
			return "skipped", "Spec skipped because Skip() was called in " + n.n.K
		}
	}
	if g.m.c.DryRun {
		return "passed", ""
	}
	return "", ""
}

func (m *model) reportEach(sp *mspec, kind string) {
	ns := kindsOf(sp, kind)
	if kind == "ReportBeforeEach" {
		ns = asc(ns)
	} else {
		ns = desc(ns)
	}
	for _, n := range ns {
		m.gwBuf = ""
		st := m.cur.State
		if st == "" {
			st = "INVALID SPEC STATE"
		}
		st = fmt.Sprintf("%s\x00%d\x00%d\x00%s\x00%d", st, m.cur.Attempts, len(m.cur.Add), m.cur.GW, len(m.cur.Entries))
		o := m.exec(mnodeRef{n.n.ID, fmt.Sprint(n.n.ID), kind, n.level, false}, 0, n.n.Body, st)
		if (!isFailure(m.cur.State) && isFailure(o.state)) || o.state == "aborted" {
			m.set(o)
		}
		m.cur.GW += m.gwBuf
	}
}

func (m *model) runGroup(specs []*mspec) {
	g := &group{m: m, specs: specs, pairs: map[*mspec]map[int]pair{}, tracker: map[pair]string{}, ok: true, outstanding: map[pair]bool{}}
	if specs[0].ordered != nil {
		g.contOnFail = specs[0].ordered.ContOnFail
	}
	for _, s := range specs {
		g.pairs[s] = m.pairs(s)
	}
	for _, sp := range specs {
		rep := XRep{ID: sp.it.ID, Kind: "It", Spec: sp}
		m.cur, m.spec, m.att = &rep, sp.it.ID, 0
		rep.MaxFlake = innermost(sp, func(n *sdoc.Node) int { return n.Flake })
		rep.MaxMust = innermost(sp, func(n *sdoc.Node) int { return n.MustPass })
		rep.State, rep.SkipMsg = g.skipStatus(sp)
		if rep.SkipMsg != "" {
			rep.Fail = &XFail{State: "skipped", Msg: rep.SkipMsg, Node: sp.it.ID, Kind: "It", Leaf: true}
		}
		m.reportEach(sp, "ReportBeforeEach")
		skip := m.c.DryRun || isFailure(rep.State) || rep.State == "skipped" || rep.State == "pending"
		failedInOnce := false
		if !skip {
			max := 1
			if m.c.MustPass > 0 {
				max = m.c.MustPass
				rep.MaxMust = max
			} else if rep.MaxMust > 0 {
				max = rep.MaxMust
			} else if m.c.Flake > 0 {
				max = m.c.Flake
				rep.MaxFlake = max
			} else if rep.MaxFlake > 0 {
				max = rep.MaxFlake
			}
			for a := 0; a < max; a++ {
				rep.Attempts = a + 1
				m.att = a + 1
				m.gwBuf = ""
				failedInOnce = g.attempt(sp, a == max-1, rep.MaxMust > 0)
				rep.GW += m.gwBuf
				if rep.MaxMust > 0 && (isFailure(rep.State) || rep.State == "skipped") {
					break
				}
				if rep.MaxMust == 0 && rep.MaxFlake > 0 {
					switch rep.State {
					case "passed", "skipped", "aborted", "interrupted":
						a = max
					default:
						if a < max-1 {
							f := XFail{State: rep.State}
							if rep.Fail != nil {
								f = *rep.Fail
							}
							f.Msg = fmt.Sprintf("Failure recorded during attempt %d:\n%s", a+1, f.Msg)
							rep.Add = append(rep.Add, f)
						}
					}
				}
			}
		}
		if skip && !m.c.DryRun && !sp.skip {
			g.lastRites(sp)
		}
		m.reportEach(sp, "ReportAfterEach")
		m.process()
		if isFailure(rep.State) {
			g.ok = false
			g.failedInOnce = g.failedInOnce || failedInOnce
		}
		m.spec, m.att = 0, 0
	}
}

func (m *model) process() {
	m.x.Reps = append(m.x.Reps, *m.cur)
	if isFailure(m.cur.State) {
		m.x.OK = false
		if m.c.FailFast || m.cur.State == "aborted" {
			m.skipAll = true
		}
	}
}

func (m *model) suiteNode(n *sdoc.Node, run func() outcome) *XRep {
	rep := XRep{ID: n.ID, Kind: n.K}
	m.cur, m.spec, m.att, m.gwBuf = &rep, 0, 0, ""
	if m.c.DryRun {
		rep.State = "passed"
		return &rep
	}
	o := run()
	rep.State = o.state
	if o.state != "passed" && o.fail.State != "" {
		rep.Fail = &o.fail
	}
	rep.GW = m.gwBuf
	return &rep
}

// simulate computes what a serial run must look like, given the order in which groups are executed.
func simulate(s *sdoc.Suite, c *Cfg, order []int) *Expect { return simulateClk(s, c, order, nil) }

func simulateClk(s *sdoc.Suite, c *Cfg, order []int, clk *clock) *Expect {
	m := &model{clk: clk, s: s, c: c, specs: flatten(s), invs: map[string]int{}, x: &Expect{OK: true, Findings: map[string]bool{}, Stats: map[string]int{}}}
	m.x.HasFocus = applyFilters(s, m.specs, c)
	byID := map[int]*mspec{}
	m.x.Total = len(m.specs)
	anyPending := false
	for _, sp := range m.specs {
		byID[sp.it.ID] = sp
		if !sp.skip {
			m.x.Will++
		}
		anyPending = anyPending || sp.pending
	}
	var before, after *sdoc.Node
	var rbs, ras []*sdoc.Node
	for _, n := range s.Top {
		switch n.K {
		case "BeforeSuite", "SynchronizedBeforeSuite":
			before = n
		case "AfterSuite", "SynchronizedAfterSuite":
			after = n
		case "ReportBeforeSuite":
			rbs = append(rbs, n)
		case "ReportAfterSuite":
			ras = append(ras, n)
		}
	}
	ref := func(n *sdoc.Node) mnodeRef { return mnodeRef{n.ID, fmt.Sprint(n.ID), n.K, -1, true} }
	reportSuite := func(ns []*sdoc.Node) {
		for _, n := range ns {
			rep := XRep{ID: n.ID, Kind: n.K}
			m.cur, m.spec, m.att, m.gwBuf = &rep, 0, 0, ""
			var l []string
			for _, r := range m.x.Reps {
				id := 0
				if r.Kind == "It" {
					id = r.ID
				}
				l = append(l, fmt.Sprintf("%s:%d:%s", r.Kind, id, r.State))
			}
			o := m.exec(ref(n), 0, n.Body, fmt.Sprintf("%v %s total=%d will=%d", m.x.OK, strings.Join(l, ","), m.x.Total, m.x.Will))
			rep.State = o.state
			if o.state != "passed" && o.fail.State != "" {
				rep.Fail = &o.fail
			}
			rep.GW = m.gwBuf
			m.process()
		}
	}
	reportSuite(rbs)
	ranBefore := m.x.OK
	if m.x.OK && before != nil && m.x.Will > 0 {
		rep := m.suiteNode(before, func() outcome {
			if before.K == "BeforeSuite" {
				return m.exec(ref(before), 0, before.Body, "")
			}
			o := m.exec(ref(before), 1, before.Body, "")
			if o.state == "passed" {
				o = m.exec(ref(before), 2, before.Body2, "data")
			}
			return o
		})
		if rep.State == "skipped" {
			m.x.Reasons = append(m.x.Reasons, "Suite skipped in BeforeSuite")
			m.skipAll = true
		}
		m.cur = rep
		m.process()
	}
	if m.x.OK {
		// the observed order, cut into execution groups
		i := 0
		for i < len(order) {
			sp := byID[order[i]]
			j := i + 1
			if sp.ordered != nil {
				for j < len(order) && byID[order[j]].ordered == sp.ordered {
					j++
				}
			}
			var g []*mspec
			for ; i < j; i++ {
				g = append(g, byID[order[i]])
			}
			m.runGroup(g)
		}
		if c.FailOnPending && anyPending {
			m.x.OK = false
			m.x.Reasons = append(m.x.Reasons, "Detected pending specs and --fail-on-pending is set")
		}
		if c.FailOnEmpty && m.x.Will == 0 {
			m.x.OK = false
			m.x.Reasons = append(m.x.Reasons, "Detected no specs ran and --fail-on-empty is set")
		}
	}
	if ranBefore {
		if after != nil && m.x.Will > 0 {
			rep := m.suiteNode(after, func() outcome {
				if after.K == "AfterSuite" {
					return m.exec(ref(after), 0, after.Body, "")
				}
				o := m.exec(ref(after), 1, after.Body, "")
				o2 := m.exec(ref(after), 2, after.Body2, "")
				if o.state == "passed" {
					o = o2
				}
				return o
			})
			m.cur = rep
			m.process()
		}
		var cs []*cleanup
		for i := len(m.cleans) - 1; i >= 0; i-- {
			if m.cleans[i].kind == "Suite" {
				cs = append(cs, m.cleans[i])
			}
		}
		for _, cl := range cs {
			rep := m.suiteNode(&sdoc.Node{ID: cl.act.ID, K: "DeferCleanup (Suite)"}, func() outcome { return m.execCleanup(cl) })
			m.cur = rep
			m.process()
		}
	}
	if m.clk != nil && m.clk.level > 0 {
		m.x.OK = false
		m.x.Reasons = append(m.x.Reasons, "Interrupted by User")
	}
	if m.clk != nil && m.suiteOutOfTime() {
		m.x.OK = false
		m.x.Reasons = append(m.x.Reasons, "Suite Timeout Elapsed")
	}
	reportSuite(ras)
	return m.x
}

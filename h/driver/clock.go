package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/onsi/ginkgo/v2/internal/zzverif/sdoc"
)

// Time in the reference model. Either virtual (bodies take no time unless they wait or sleep) or taken from the
// log of an observed run; observed instants are intervals, and whatever depends on an order the intervals do not
// settle makes the run ambiguous from there on.

type iv struct{ lo, hi float64 } // ms

func (a iv) plus(x float64) iv  { return iv{a.lo + x, a.hi + x} }
func (a iv) before(b iv) bool   { return a.hi+3 < b.lo }
func (a iv) overlaps(b iv) bool { return !a.before(b) && !b.before(a) }

type nodeParams struct {
	nt, grace float64
	hasGrace  bool
	ctx       [3]bool // per part
}

type clock struct {
	evs    []sdoc.Event // nil: virtual
	enters []int        // indices of enter events
	pos    int          // events up to here have happened
	start  iv
	now    iv // a time that is known to have been reached
	suite  *iv
	spec   *iv
	grace  float64
	nodes  map[int]*nodeParams
	amb    string // why nothing further is decided
	bad    string // virtual: the suite is not usable
	to     []XTimeout
	level  int // of interruption
}

// gated: bodies of this kind no longer run at the present level of interruption.
func (k *clock) gated(kind string) bool {
	report := strings.HasPrefix(kind, "Report")
	cleanup := strings.Contains(kind, "After") && !report || strings.HasPrefix(kind, "DeferCleanup")
	return k.level >= 3 || k.level == 2 && !report || k.level == 1 && !report && !cleanup
}

// XTimeout is an expected timeout.
type XTimeout struct {
	Ev     int // index among the enter events
	Kind   string
	At     iv
	Grace  float64
	Leaked bool
	Ctx    bool
	Inv    int
}

type nodeClock struct {
	over     bool // timed out
	leaked   bool
	start    iv
	deadline *iv
	kind     string
	kindAmb  bool
	grace    float64
	ctx      bool
	ev       int
	slept    float64
	inv      int
}

const defaultGrace = 30000

func newClock(s *sdoc.Suite, c *Cfg, evs []sdoc.Event) *clock {
	k := &clock{evs: evs, grace: defaultGrace, nodes: map[int]*nodeParams{}}
	if c.Grace > 0 {
		k.grace = float64(c.Grace)
	}
	var acts func(as []sdoc.Act)
	acts = func(as []sdoc.Act) {
		for i := range as {
			a := &as[i]
			if a.K == "defer" {
				p := &nodeParams{}
				p.ctx[0] = a.V == "ctx" || a.V == "ctxarg"
				hasCtx := p.ctx[0] || a.V == "ctxargctx"
				if a.V == "ctxargctx" {
					hasCtx = false
				}
				p.ctx[0] = hasCtx
				for _, x := range a.A {
					var n int
					if _, err := fmt.Sscanf(x, "nt=%d", &n); err == nil {
						p.nt = float64(n)
					}
					if _, err := fmt.Sscanf(x, "grace=%d", &n); err == nil {
						p.grace, p.hasGrace = float64(n), true
					}
				}
				k.nodes[a.ID] = p
			}
			acts(a.B)
		}
	}
	s.Walk(func(n *sdoc.Node, _ []*sdoc.Node) {
		k.nodes[n.ID] = &nodeParams{nt: float64(n.NodeTimeout), grace: float64(n.GracePeriod), hasGrace: n.HasGrace, ctx: [3]bool{n.Ctx, n.Ctx, n.Ctx}}
		acts(n.Body)
		acts(n.Body2)
	})
	for i, e := range evs {
		if e.E == "enter" {
			k.enters = append(k.enters, i)
		}
	}
	if len(evs) > 0 {
		for i, e := range evs {
			if e.E == "config" {
				k.pos = i
				k.start.lo = float64(e.T) / 1e6
			}
		}
		k.start.hi = k.start.lo
		if len(k.enters) > 0 {
			k.start.hi = float64(evs[k.enters[0]].T) / 1e6
		}
		k.now = iv{k.start.lo, k.start.lo}
	}
	if t := c.Timeout; t >= 0 {
		if t == 0 {
			t = 3600000
		}
		d := k.start.plus(float64(t))
		k.suite = &d
	}
	return k
}

func (k *clock) ambiguous(why string) {
	if k.amb == "" {
		k.amb = why
	}
}

func (k *clock) t(i int) float64 { return float64(k.evs[i].T) / 1e6 }

// upcoming gives the instant at which something that happens before the next body starts takes place.
func (k *clock) upcoming(ev int) iv {
	if k.evs == nil {
		return k.now
	}
	hi := k.t(len(k.evs) - 1)
	if ev < len(k.enters) {
		hi = k.t(k.enters[ev])
	}
	lo := k.now.lo
	return iv{lo, max(lo, hi)}
}

func (m *model) startAttempt(sp *mspec) {
	k := m.clk
	k.spec = nil
	if sp.it.SpecTimeout > 0 {
		d := k.upcoming(len(m.x.Events)).plus(float64(sp.it.SpecTimeout))
		k.spec = &d
	}
}

func (m *model) suiteOutOfTime() bool {
	k := m.clk
	if k.suite == nil {
		return false
	}
	u := k.upcoming(len(m.x.Events))
	if k.suite.before(u) || k.suite.hi <= u.lo {
		return true
	}
	if !u.before(*k.suite) {
		k.ambiguous("suite deadline around a decision")
	}
	return false
}

func (m *model) startNode(ref mnodeRef, part, inv int) *nodeClock {
	k := m.clk
	ev := len(m.x.Events) - 1
	n := &nodeClock{ev: ev, inv: inv}
	n.start = k.upcoming(ev)
	if k.evs != nil && ev < len(k.enters) {
		k.now.lo = max(k.now.lo, k.t(k.enters[ev]))
		k.pos = k.enters[ev]
	}
	p := k.nodes[ref.id]
	if p == nil {
		p = &nodeParams{}
	}
	n.ctx = p.ctx[part]
	grace := k.grace
	if p.hasGrace {
		grace = p.grace
	}
	type cand struct {
		kind string
		at   iv
	}
	var outer []cand
	if k.suite != nil {
		outer = append(outer, cand{"suite", *k.suite})
	}
	if k.spec != nil {
		outer = append(outer, cand{"spec", *k.spec})
	}
	out := k.level > 0
	for _, c := range outer {
		if c.at.before(n.start) || c.at.hi <= n.start.lo {
			out = true
		} else if !n.start.before(c.at) {
			k.ambiguous("a " + c.kind + " deadline around the start of a node")
		}
	}
	cs := outer
	if out {
		cs = nil
		if p.nt == 0 {
			cs = append(cs, cand{"grace period", n.start.plus(grace)})
		}
	}
	if p.nt > 0 {
		cs = append(cs, cand{"node", n.start.plus(p.nt)})
	}
	if len(cs) > 0 {
		sort.SliceStable(cs, func(i, j int) bool { return cs[i].at.lo < cs[j].at.lo })
		n.kind = cs[0].kind
		d := cs[0].at
		n.deadline = &d
		n.kindAmb = len(cs) > 1 && cs[0].at.overlaps(cs[1].at)
	}
	n.grace = grace
	if !n.ctx {
		n.grace = 0
	}
	return n
}

// expire is called when the body stays until its deadline has passed.
func (m *model) expire(b *bodyRes, leaked bool) {
	k, n := m.clk, b.clk
	if n.kindAmb {
		k.ambiguous("two deadlines coincide")
	}
	k.to = append(k.to, XTimeout{Ev: n.ev, Kind: n.kind, At: *n.deadline, Grace: n.grace, Leaked: leaked, Ctx: n.ctx, Inv: n.inv})
	at := *n.deadline
	if at.lo < n.start.lo {
		at.lo = n.start.lo
	}
	k.to[len(k.to)-1].At = at
	b.cut("timedout", "A "+n.kind+" timeout occurred")
	k.now.lo = max(k.now.lo, at.lo)
	if leaked {
		n.leaked = true
		b.stopped = true
		k.now.lo += n.grace
	}
	if k.evs == nil {
		k.now.lo = max(k.now.lo, at.lo)
		k.now.hi = k.now.lo
		if n.kindAmb {
			k.bad = "deadlines coincide"
		}
	}
}

// cut: the node ends, for the framework, with this outcome, whatever it does now.
func (b *bodyRes) cut(state, msg string) {
	was := b.o
	b.o = outcome{state, XFail{State: state, Msg: msg}}
	if was.state != "passed" { // a failure recorded earlier is attached
		f := was.fail
		b.o.fail.Nested = &f
	}
	b.clk.over = true
}

// timedAct handles the acts that take time.
func (m *model) timedAct(b *bodyRes, a *sdoc.Act) bool {
	k, n := m.clk, b.clk
	switch a.K {
	case "waitctx":
		if n.over {
			return true
		}
		if !n.ctx {
			k.bad = "waitctx without a context"
			return true
		}
		if n.deadline == nil || n.deadline.lo-n.start.lo > 5000 {
			k.bad = "wait without a deadline"
			return true
		}
		m.expire(b, false)
		return true
	case "block":
		if n.over {
			k.bad = "block after the deadline"
			return true
		}
		if n.deadline == nil || n.deadline.lo-n.start.lo > 5000 || n.grace > 1000 {
			k.bad = "block without a deadline"
			return true
		}
		m.expire(b, true)
		return true
	case "interrupt": // N signals to the process group; waits for cancellation after the first
		if n.over || a.N > 1 && !n.ctx {
			k.bad = "interrupt in a node that is over"
			return true
		}
		if k.level == 0 {
			k.to = append(k.to, XTimeout{Ev: n.ev, Kind: "interrupt"})
		}
		k.level += a.N
		n.leaked = a.N > 1 || a.V == "block" || !n.ctx
		if n.leaked && a.N == 1 && n.grace > 1000 {
			k.bad = "blocks for long"
		}
		b.cut("interrupted", "Interrupted by User")
		b.stopped = n.leaked
		if k.evs == nil && n.leaked {
			k.now = k.now.plus(n.grace)
		}
		return true
	case "sleep":
		if k.evs == nil {
			if n.over && float64(a.N) > n.grace-300 {
				k.bad = "sleeps for longer than the grace period"
			}
			if !n.over && n.deadline != nil && n.slept+float64(a.N)+200 > n.deadline.lo-n.start.lo {
				k.bad = "sleeps for too long"
			}
			n.slept += float64(a.N)
			k.now = k.now.plus(float64(a.N))
		}
		return true
	}
	return false
}

func (m *model) endNode(b *bodyRes) {
	k, n := m.clk, b.clk
	if k.evs == nil {
		if !n.over && n.deadline != nil && n.deadline.lo-n.start.lo < 30 {
			k.bad = "too tight"
		}
		return
	}
	if n.ev >= len(k.enters) || n.leaked {
		return
	}
	en := k.evs[k.enters[n.ev]]
	exit := -1
	for i := k.enters[n.ev] + 1; i < len(k.evs); i++ {
		e := k.evs[i]
		if e.E == "exit" && e.N == en.N && e.Part == en.Part && e.Spec == en.Spec && e.Inv == en.Inv {
			exit = i
			break
		}
	}
	if exit < 0 {
		return
	}
	if !n.over && n.deadline != nil && k.t(exit) > n.deadline.lo-30 {
		k.ambiguous("a quick body came close to its deadline")
	}
	if n.over && b.o.state == "timedout" && k.t(exit) > n.deadline.lo+n.grace-30 {
		k.ambiguous("a body came close to its grace period")
	}
	k.now.lo = max(k.now.lo, k.t(exit))
	k.pos = max(k.pos, exit)
}

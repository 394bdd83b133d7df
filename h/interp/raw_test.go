package interp_test

import (
	"context"
	"runtime"
	"strconv"
	"strings"
	"time"

	. "github.com/onsi/ginkgo/v2"
	"github.com/onsi/ginkgo/v2/internal/zzverif/sdoc"
	"github.com/onsi/ginkgo/v2/types"
)

// Nodes with arbitrary argument lists: each token of Raw is one argument, brackets make nested slices.

type myCtx interface {
	context.Context
	Mine()
}
type aliasCtx interface{ context.Context }
type namedBody func()
type aStruct struct{ A int }

// (gofmt would split the lines below that call at: its line has to be the line of the call it announces)
func rawArgs(n *sdoc.Node, toks []string) (out []any, rest []string) {
	in := func(ctx context.Context, part int) { run(n.ID, part, ctx, n.Body, "") }
	for len(toks) > 0 {
		t := toks[0]
		toks = toks[1:]
		k, v, _ := strings.Cut(t, "=")
		i, _ := strconv.Atoi(v)
		ms := time.Duration(i) * time.Millisecond
		var a any
		switch k {
		case "[":
			a, toks = rawArgs(n, toks)
		case "]":
			return out, toks
		case "strs":
			a = []string{"a"}
		case "empty":
			a = []any{}
		case "focus":
			a = Focus
		case "pending":
			a = Pending
		case "serial":
			a = Serial
		case "ordered":
			a = Ordered
		case "cof":
			a = ContinueOnFailure
		case "once":
			a = OncePerOrdered
		case "suppress":
			a = SuppressProgressReporting
		case "flake":
			a = FlakeAttempts(i)
		case "must":
			a = MustPassRepeatedly(i)
		case "pa":
			a = PollProgressAfter(ms)
		case "pi":
			a = PollProgressInterval(ms)
		case "nt":
			a = NodeTimeout(ms)
		case "st":
			a = SpecTimeout(ms)
		case "grace":
			a = GracePeriod(ms)
		case "offset":
			a = Offset(i)
		case "loc":
			a = types.CodeLocation{FileName: "/synthetic/raw.go", LineNumber: i}
		case "label":
			if v == "" {
				a = Label()
			} else {
				a = Label(strings.Split(v, "^")...)
			}
		case "float":
			a = 1.5
		case "nil":
			a = nil
		case "int":
			a = 17
		case "str":
			a = "text"
		case "struct":
			a = aStruct{3}
		case "ptr":
			a = &aStruct{4}
		case "dur":
			a = time.Second
		case "bool":
			a = true
		case "err":
			a = context.Canceled
		case "nilfunc":
			a = (func())(nil)
		// bodies
		case "b":
			a = func() {
				if n.K == "container" {
					rawTree(n)
				} else {
					in(nil, 0)
				}
			}
		case "bS":
			a = func(c SpecContext) { in(c, 0) }
		case "bC":
			a = func(c context.Context) { in(c, 0) }
		case "bD":
			a = func(d Done) { in(nil, 0) }
		case "bI":
			a = func(int) { in(nil, 0) }
		case "bT":
			a = func(string, int) { in(nil, 0) }
		case "bR":
			a = func() int { in(nil, 0); return 1 }
		case "bE":
			a = func() error { in(nil, 0); return nil }
		case "bSE":
			a = func(c SpecContext) error { in(c, 0); return nil }
		case "bV":
			a = func(...int) { in(nil, 0) }
		case "bCC":
			a = func(c context.Context, d context.Context) { in(c, 0) }
		case "bM":
			a = func(c myCtx) { in(c, 0) }
		case "bA":
			a = func(c aliasCtx) { in(c, 0) }
		case "bN":
			a = namedBody(func() {
				if n.K == "container" {
					rawTree(n)
				} else {
					in(nil, 0)
				}
			})
		case "bSR":
			a = func(SpecReport) { in(nil, 0) }
		case "bSSR":
			a = func(c SpecContext, _ SpecReport) { in(c, 0) }
		case "bCSR":
			a = func(c context.Context, _ SpecReport) { in(c, 0) }
		case "bSRS":
			a = func(_ SpecReport, c SpecContext) { in(c, 0) }
		case "bRp":
			a = func(Report) { in(nil, 0) }
		case "bSRp":
			a = func(c SpecContext, _ Report) { in(c, 0) }
		case "bCRp":
			a = func(c context.Context, _ Report) { in(c, 0) }
		case "bBy":
			a = func([]byte) { in(nil, 0) }
		case "bSBy":
			a = func(c SpecContext, _ []byte) { in(c, 0) }
		case "bCBy":
			a = func(c context.Context, _ []byte) { in(c, 0) }
		case "bBS":
			a = func(_ []byte, c SpecContext) { in(c, 0) }
		case "bP":
			a = func(p *aStruct) {
				if p != nil {
					panic("expected nil")
				}
				in(nil, 0)
			}
		case "bCP":
			a = func(c context.Context, p *aStruct, e error) {
				if c == nil || p != nil || e != nil {
					panic("expected a context and nils")
				}
				in(c, 0)
			}
		case "bVP":
			a = func(i int, ps ...*aStruct) {
				if i != 17 || len(ps) != 2 || ps[0] != nil {
					panic("expected 17, nil, and something")
				}
				in(nil, 0)
			}
		case "bVB":
			a = func(...byte) { in(nil, 0) }
		case "bIA":
			a = func(a any) { in(nil, 0) }
		case "bStr":
			a = func(string) { in(nil, 0) }
		case "bRB":
			a = func() []byte { in(nil, 0); return []byte("x") }
		case "bSRB":
			a = func(c SpecContext) []byte { in(c, 0); return []byte("x") }
		case "bCRB":
			a = func(c context.Context) []byte { in(c, 0); return []byte("x") }
		case "bRBE":
			a = func() ([]byte, error) { in(nil, 0); return nil, nil }
		case "bRS":
			a = func() string { in(nil, 0); return "x" }
		default:
			panic("raw token " + t)
		}
		out = append(out, a)
	}
	return out, nil
}

func rawTree(n *sdoc.Node) {
	emit(sdoc.Event{E: "tree", N: n.ID})
	for _, k := range n.Kids {
		build(k)
	}
}

func at(id int) {
	_, _, l, _ := runtime.Caller(1)
	emit(sdoc.Event{E: "at", N: id, Ln: l})
}

// doRaw performs calls that are only allowed while specs run.
func doRaw(a *sdoc.Act, id int) {
	switch a.K {
	case "xdefer":
		args, _ := rawArgs(&sdoc.Node{ID: a.ID, K: "cleanup", Body: a.B}, a.A)
		at(a.ID); DeferCleanup(args...)
	case "xby":
		at(a.ID); By("a step")
	case "xentry":
		at(a.ID); AddReportEntry("an entry")
	case "xfail":
		at(a.ID); Fail("not here")
	case "xskip":
		at(a.ID); Skip("not here")
	case "xpanic":
		at(a.ID); panic("not here")
	case "declare":
		build(a.Decl)
	}
}


func buildRaw(n *sdoc.Node) {
	a, _ := rawArgs(n, n.Raw)
	pop := func() any {
		if len(a) == 0 {
			return nil
		}
		x := a[0]
		a = a[1:]
		return x
	}
	switch n.Via {
	case "Describe":
		at(n.ID); Describe(n.Text, a...)
	case "FDescribe":
		at(n.ID); FDescribe(n.Text, a...)
	case "PDescribe":
		at(n.ID); PDescribe(n.Text, a...)
	case "XDescribe":
		at(n.ID); XDescribe(n.Text, a...)
	case "Context":
		at(n.ID); Context(n.Text, a...)
	case "FContext":
		at(n.ID); FContext(n.Text, a...)
	case "PContext":
		at(n.ID); PContext(n.Text, a...)
	case "XContext":
		at(n.ID); XContext(n.Text, a...)
	case "When":
		at(n.ID); When(n.Text, a...)
	case "FWhen":
		at(n.ID); FWhen(n.Text, a...)
	case "PWhen":
		at(n.ID); PWhen(n.Text, a...)
	case "XWhen":
		at(n.ID); XWhen(n.Text, a...)
	case "It":
		at(n.ID); It(n.Text, a...)
	case "FIt":
		at(n.ID); FIt(n.Text, a...)
	case "PIt":
		at(n.ID); PIt(n.Text, a...)
	case "XIt":
		at(n.ID); XIt(n.Text, a...)
	case "Specify":
		at(n.ID); Specify(n.Text, a...)
	case "FSpecify":
		at(n.ID); FSpecify(n.Text, a...)
	case "PSpecify":
		at(n.ID); PSpecify(n.Text, a...)
	case "XSpecify":
		at(n.ID); XSpecify(n.Text, a...)
	case "BeforeEach":
		at(n.ID); BeforeEach(a...)
	case "JustBeforeEach":
		at(n.ID); JustBeforeEach(a...)
	case "AfterEach":
		at(n.ID); AfterEach(a...)
	case "JustAfterEach":
		at(n.ID); JustAfterEach(a...)
	case "BeforeAll":
		at(n.ID); BeforeAll(a...)
	case "AfterAll":
		at(n.ID); AfterAll(a...)
	case "BeforeSuite":
		x := pop()
		at(n.ID); BeforeSuite(x, a...)
	case "AfterSuite":
		x := pop()
		at(n.ID); AfterSuite(x, a...)
	case "SynchronizedBeforeSuite":
		x := pop()
		y := pop()
		at(n.ID); SynchronizedBeforeSuite(x, y, a...)
	case "SynchronizedAfterSuite":
		x := pop()
		y := pop()
		at(n.ID); SynchronizedAfterSuite(x, y, a...)
	case "ReportBeforeEach":
		x := pop()
		at(n.ID); ReportBeforeEach(x, a...)
	case "ReportAfterEach":
		x := pop()
		at(n.ID); ReportAfterEach(x, a...)
	case "ReportBeforeSuite":
		x := pop()
		at(n.ID); ReportBeforeSuite(x, a...)
	case "ReportAfterSuite":
		x := pop()
		at(n.ID); ReportAfterSuite(n.Text, x, a...)
	default:
		panic("raw kind " + n.Via)
	}
}

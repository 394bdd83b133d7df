package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/onsi/ginkgo/v2/internal"
	"github.com/onsi/ginkgo/v2/internal/zzverif/sdoc"
	"github.com/onsi/ginkgo/v2/types"
)

// C17: GinkgoWriter. Part 1 drives the real writer in-process (race-instrumented) with random histories of writes, tees,
// captures and mode changes on several goroutines and checks buffer, tees and stream against each other and against the
// calls. Part 2 runs suites whose bodies write known bytes and compares reports, tees and the console with them.

func init() {
	checks["C17"] = Check{Level: "exploration", Isolate: true, Run: runC17,
		Rule:   "in-process: distinct by the observed order of the chunks; runs: distinct by the sequence of writes of the suite and its options",
		Assume: []string{"the JSON report replaces bytes that are not UTF-8 (encoding/json); they are compared after the same replacement, exactly in tees, console and in-process", "bytes written by goroutines between two specs may be in neither"}}
}

func runC17(c *Ctx) {
	parallelDo(N(4000, 80000), workers(), func(i int) {
		r := rng("C17", i)
		theWatch.set(i, fmt.Sprintf("C17 case %d", i))
		defer theWatch.done(i)
		var d string
		if r.Intn(4) == 0 {
			d = writerSequential(c, r)
		} else {
			d = writerStorm(c, r)
		}
		if d != "" {
			c.Fail("", fmt.Sprintf("case %d: %s", i, d), nil)
		}
	})
	if *flagOnly < 0 || *flagOnly >= 1000000 {
		writerRuns(c)
	}
}

// indentStream is the reference for streaming: two spaces before the first byte of every non-empty line.
func indentStream(b []byte, next *bool) []byte {
	var out []byte
	for _, ch := range b {
		if ch == '\n' {
			*next = true
		} else if *next {
			out = append(out, ' ', ' ')
			*next = false
		}
		out = append(out, ch)
	}
	return out
}

func someSize(r *rand.Rand) int {
	if r.Intn(100) == 0 {
		return 70000
	}
	return []int{1, 3, 20, 100, 300, 3000}[r.Intn(6)]
}

func anyBytes(r *rand.Rand, max int) []byte {
	b := make([]byte, r.Intn(max+1))
	for i := range b {
		switch r.Intn(5) {
		case 0:
			b[i] = '\n'
		case 1:
			b[i] = byte(r.Intn(256))
		case 2:
			b[i] = ' '
		default:
			b[i] = byte('a' + r.Intn(26))
		}
	}
	return b
}

type badTee struct {
	lb
	r *rand.Rand
}

func (t *badTee) Write(p []byte) (int, error) {
	t.lb.Write(p)
	switch t.r.Intn(3) {
	case 0:
		return 0, fmt.Errorf("tee fails")
	case 1:
		return len(p) / 2, nil
	}
	return len(p), nil
}

type lb struct {
	mu sync.Mutex
	b  []byte
}

func (l *lb) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.b = append(l.b, p...)
	return len(p), nil
}
func (l *lb) get() []byte { l.mu.Lock(); defer l.mu.Unlock(); return append([]byte{}, l.b...) }

// writerSequential: an exact model of every observable after every call.
func writerSequential(c *Ctx, r *rand.Rand) string {
	out := &lb{}
	w := internal.NewWriter(out)
	logger := internal.GinkgoLogrFunc(w)
	var buf, stream []byte
	next, streaming := true, true
	type tee struct {
		t    interface{ get() []byte }
		want []byte
		on   bool
	}
	var tees []*tee
	var held, heldWant []byte
	var hist []string
	wrote := func(b []byte) {
		buf = append(buf, b...)
		for _, t := range tees {
			if t.on {
				t.want = append(t.want, b...)
			}
		}
		if streaming {
			stream = append(stream, indentStream(b, &next)...)
		}
	}
	for n := 5 + r.Intn(60); n > 0; n-- {
		k := r.Intn(16)
		hist = append(hist, strconv.Itoa(k))
		switch k {
		case 0, 1, 2, 3, 4, 5:
			b := anyBytes(r, someSize(r))
			want := append([]byte{}, b...)
			m, err := w.Write(b)
			if m != len(want) || err != nil {
				return fmt.Sprintf("Write of %d bytes returned %d, %v", len(want), m, err)
			}
			if !bytes.Equal(b, want) {
				return "Write changed the slice it was given"
			}
			wrote(want)
			for i := range b {
				b[i] = '#'
			}
		case 6:
			s := string(anyBytes(r, 12))
			w.Print(s, 1, 2, s)
			wrote([]byte(fmt.Sprint(s, 1, 2, s)))
		case 7:
			s := string(anyBytes(r, 12))
			w.Printf("%q %s %d%%", s, s, len(s))
			wrote([]byte(fmt.Sprintf("%q %s %d%%", s, s, len(s))))
		case 8:
			s := string(anyBytes(r, 12))
			w.Println(s, 3)
			wrote([]byte(fmt.Sprintln(s, 3)))
		case 9:
			if r.Intn(2) == 0 {
				logger.Info("hello\nthere %d", "k", n)
				wrote([]byte(fmt.Sprintf("\"level\"=0 \"msg\"=\"hello\\nthere %%d\" \"k\"=%d\n", n)))
			} else {
				logger.WithName("a").WithName("b").Error(fmt.Errorf("boo"), "m", "k", n)
				wrote([]byte(fmt.Sprintf("a/b \"msg\"=\"m\" \"error\"=\"boo\" \"k\"=%d\n", n)))
			}
		case 10:
			t := &tee{on: true}
			if r.Intn(2) == 0 {
				b := &badTee{r: r}
				t.t = b
				w.TeeTo(b)
			} else {
				b := &lb{}
				t.t = b
				w.TeeTo(b)
			}
			tees = append(tees, t)
		case 11:
			if r.Intn(3) == 0 {
				w.ClearTeeWriters()
				for _, t := range tees {
					t.on = false
				}
			}
		case 12:
			w.Truncate()
			buf = nil
		case 13:
			if r.Intn(2) == 0 {
				streaming = !streaming
				if streaming {
					w.SetMode(internal.WriterModeStreamAndBuffer)
				} else {
					w.SetMode(internal.WriterModeBufferOnly)
				}
			}
		case 14:
			held = w.Bytes()
			heldWant = append([]byte{}, held...)
		case 15:
			if g := w.Bytes(); len(g) > 0 { // the caller owns what Bytes returns
				g[r.Intn(len(g))] ^= 0xff
			}
		}
		if g := w.Bytes(); !bytes.Equal(g, buf) {
			return fmt.Sprintf("after calls %v: buffer is %q, written was %q", hist, trunc(string(g), 300), trunc(string(buf), 300))
		}
		if w.Len() != len(buf) {
			return fmt.Sprintf("after calls %v: Len() = %d with %d bytes", hist, w.Len(), len(buf))
		}
		if g := out.get(); !bytes.Equal(g, stream) {
			return fmt.Sprintf("after calls %v: streamed %q, expected %q", hist, trunc(string(g), 300), trunc(string(stream), 300))
		}
		for k, t := range tees {
			if g := t.t.get(); !bytes.Equal(g, t.want) {
				return fmt.Sprintf("after calls %v: tee %d received %q, expected %q", hist, k, trunc(string(g), 300), trunc(string(t.want), 300))
			}
		}
		if !bytes.Equal(held, heldWant) {
			return fmt.Sprintf("after calls %v: bytes handed out earlier have changed", hist)
		}
	}
	c.Eval("seq" + sigHash(hist))
	c.Count("sequential calls", len(hist))
	return ""
}

var clk int64

func tick() int64 { return atomic.AddInt64(&clk, 1) }

// chunk of one write: \x01<id>:<len>:<payload>; logr lines carry the id in their message.
type wchunk struct {
	id, g, k   int
	want       []byte
	start, end int64
}

var logrRe = regexp.MustCompile(`^(?:n/m )?"level"=0 "msg"="c(\d+);" "k"="[a-z]*"\n`)

// parseChunks splits an observed byte sequence into whole chunks.
func parseChunks(b []byte, all []*wchunk) ([]*wchunk, string) {
	var out []*wchunk
	for p := 0; p < len(b); {
		id := -1
		if b[p] == 1 {
			j := bytes.IndexByte(b[p:], ':')
			if j > 0 {
				if n, err := strconv.Atoi(string(b[p+1 : p+j])); err == nil {
					id = n
				}
			}
		} else if m := logrRe.FindSubmatch(b[p:min(len(b), p+200)]); m != nil {
			id, _ = strconv.Atoi(string(m[1]))
		}
		if id < 0 || id >= len(all) {
			return nil, fmt.Sprintf("at byte %d: %q does not begin with a whole chunk", p, trunc(string(b[p:]), 120))
		}
		w := all[id].want
		if !bytes.HasPrefix(b[p:], w) {
			return nil, fmt.Sprintf("at byte %d: chunk %d is torn: %q, written was %q", p, id, trunc(string(b[p:min(len(b), p+len(w))]), 120), trunc(string(w), 120))
		}
		out = append(out, all[id])
		p += len(w)
	}
	return out, ""
}

func writerStorm(c *Ctx, r *rand.Rand) string {
	out := &lb{}
	w := internal.NewWriter(out)
	streaming := r.Intn(2) == 0
	if !streaming {
		w.SetMode(internal.WriterModeBufferOnly)
	}
	logger := internal.GinkgoLogrFunc(w)
	named := logger.WithName("n").WithName("m")
	g := 2 + r.Intn(6)
	per := 3 + r.Intn(20)
	truncating := r.Intn(2) == 0
	var all []*wchunk
	plan := make([][]*wchunk, g)
	kinds := []int{}
	for i := 0; i < g; i++ {
		for k := 0; k < per; k++ {
			ch := &wchunk{id: len(all), g: i, k: k}
			kind := r.Intn(6)
			kinds = append(kinds, kind)
			if kind == 5 {
				ch.want = []byte(fmt.Sprintf("\"level\"=0 \"msg\"=\"c%d;\" \"k\"=\"x\"\n", ch.id))
				if ch.id%2 == 0 {
					ch.want = append([]byte("n/m "), ch.want...)
				}
			} else {
				pl := anyBytes(r, []int{0, 5, 40, 400, someSize(r)}[r.Intn(5)])
				ch.want = append([]byte(fmt.Sprintf("\x01%d:%d:", ch.id, len(pl))), pl...)
				if kind == 3 {
					ch.want = append(ch.want, '\n')
				}
			}
			all = append(all, ch)
			plan[i] = append(plan[i], ch)
		}
	}
	perm := &lb{}
	if truncating {
		w.TeeTo(perm)
	}
	type teeRec struct {
		t          *lb
		a0, a1     int64 // TeeTo called / returned
		c0, c1     int64 // ClearTeeWriters called / returned (0: never)
		before, gi int
	}
	var tees []*teeRec
	type capRec struct {
		b      []byte
		n      int
		t0, t1 int64
	}
	type truncRec struct{ t0, t1 int64 }
	var caps []capRec
	var truncs []truncRec
	var bad atomic.Value
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < g; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			for _, ch := range plan[i] {
				b := append([]byte{}, ch.want...)
				ch.start = tick()
				switch kinds[ch.id] {
				case 0, 4:
					n, err := w.Write(b)
					if n != len(b) || err != nil {
						bad.Store(fmt.Sprintf("Write of %d bytes returned %d, %v", len(b), n, err))
					}
				case 1:
					w.Printf("%s", b)
				case 2:
					w.Print(string(b))
				case 3:
					w.Println(string(b[:len(b)-1]))
				case 5:
					if ch.id%2 == 0 {
						named.Info(fmt.Sprintf("c%d;", ch.id), "k", "x")
					} else {
						logger.Info(fmt.Sprintf("c%d;", ch.id), "k", "x")
					}
				}
				ch.end = tick()
				for j := range b {
					b[j] = '#'
				}
			}
		}(i)
	}
	// control goroutine: tees come and go, the suite captures
	ctl := rand.New(rand.NewSource(r.Int63()))
	wg.Add(1)
	go func() {
		defer wg.Done()
		<-start
		for n := 2 + ctl.Intn(12); n > 0; n-- {
			for spin := ctl.Intn(2000); spin > 0; spin-- {
				_ = spin
			}
			switch ctl.Intn(4) {
			case 0, 1:
				if truncating {
					cp := capRec{t0: tick()}
					cp.b = w.Bytes()
					cp.n = w.Len()
					cp.t1 = tick()
					caps = append(caps, cp)
					t := truncRec{t0: tick()}
					w.Truncate()
					t.t1 = tick()
					truncs = append(truncs, t)
				} else {
					t := &teeRec{t: &lb{}, a0: tick()}
					w.TeeTo(t.t)
					t.a1 = tick()
					tees = append(tees, t)
				}
			case 2:
				if !truncating {
					c0 := tick()
					w.ClearTeeWriters()
					c1 := tick()
					for _, t := range tees {
						if t.c0 == 0 {
							t.c0, t.c1 = c0, c1
						}
					}
				}
			case 3:
				cp := capRec{t0: tick()}
				cp.b = w.Bytes()
				cp.n = -1
				cp.t1 = tick()
				caps = append(caps, cp)
			}
		}
	}()
	close(start)
	wg.Wait()
	if s, ok := bad.Load().(string); ok {
		return s
	}
	totalB := w.Bytes()
	if truncating {
		totalB = perm.get()
	}
	total, d := parseChunks(totalB, all)
	if d != "" {
		return "buffer: " + d
	}
	// conservation and per-goroutine order
	pos := map[int]int{}
	last := make([]int, g)
	for i := range last {
		last[i] = -1
	}
	sig := make([]byte, 0, len(total))
	for i, ch := range total {
		if _, dup := pos[ch.id]; dup {
			return fmt.Sprintf("chunk %d appears twice", ch.id)
		}
		pos[ch.id] = i
		if ch.k != last[ch.g]+1 {
			return fmt.Sprintf("goroutine %d: write %d appears after write %d", ch.g, ch.k, last[ch.g])
		}
		last[ch.g] = ch.k
		sig = append(sig, byte(ch.g))
	}
	if len(total) != len(all) {
		return fmt.Sprintf("%d of %d writes are in the buffer", len(total), len(all))
	}
	// real-time order between goroutines: starts never go back before an end already seen
	var minEnd int64 = 1 << 62
	for i := len(total) - 1; i >= 0; i-- {
		if total[i].start > minEnd {
			return fmt.Sprintf("write %d began after write that precedes it had ended, but comes first", total[i].id)
		}
		minEnd = min(minEnd, total[i].end)
	}
	if streaming {
		next := true
		if want, got := indentStream(totalB, &next), out.get(); !bytes.Equal(want, got) {
			return fmt.Sprintf("stream differs from the captured output: %s", firstDiff(string(want), string(got)))
		}
	} else if len(out.get()) > 0 {
		return "something was streamed in buffer-only mode"
	}
	segment := func(what string, b []byte) (lo, hi int, d string) {
		seg, d := parseChunks(b, all)
		if d != "" {
			return 0, 0, what + ": " + d
		}
		if len(seg) == 0 {
			return 0, 0, ""
		}
		lo = pos[seg[0].id]
		for i, ch := range seg {
			if lo+i >= len(total) || total[lo+i] != ch {
				return 0, 0, fmt.Sprintf("%s: chunk %d follows chunk %d, in the buffer it does not", what, ch.id, seg[max(i-1, 0)].id)
			}
		}
		return lo, lo + len(seg), ""
	}
	for k, t := range tees {
		lo, hi, d := segment(fmt.Sprintf("tee %d", k), t.t.get())
		if d != "" {
			return d
		}
		c0, c1 := t.c0, t.c1
		if c0 == 0 {
			c0, c1 = 1<<62, 1<<62
		}
		for i, ch := range total {
			in := i >= lo && i < hi
			if !in && ch.start > t.a1 && ch.end < c0 {
				return fmt.Sprintf("tee %d misses write %d made while it was attached", k, ch.id)
			}
			if in && (ch.end < t.a0 || ch.start > c1) {
				return fmt.Sprintf("tee %d received write %d made while it was not attached", k, ch.id)
			}
		}
	}
	for k, cp := range caps {
		lo, hi, d := segment(fmt.Sprintf("capture %d", k), cp.b)
		if d != "" {
			return d
		}
		var t0, t1 int64 = -1, -1
		for _, t := range truncs {
			if t.t1 < cp.t0 {
				t0, t1 = t.t0, t.t1
			}
		}
		for i, ch := range total {
			in := i >= lo && i < hi
			if !in && ch.start > t1 && ch.end < cp.t0 {
				return fmt.Sprintf("capture %d misses write %d", k, ch.id)
			}
			if in && (ch.end < t0 || ch.start > cp.t1) {
				return fmt.Sprintf("capture %d holds write %d, which was not made then", k, ch.id)
			}
		}
		if cp.n >= 0 && cp.n < len(cp.b) {
			return fmt.Sprintf("Len() %d is less than the %d bytes seen before", cp.n, len(cp.b))
		}
	}
	c.Eval("storm" + sigHash(string(sig)))
	c.Count("concurrent writes", len(all))
	c.Count("tees", len(tees))
	c.Count("captures", len(caps))
	return ""
}

// ---- runs ----

func gwSuite(r *rand.Rand, bg bool) *sdoc.Suite {
	s := &sdoc.Suite{Desc: "writer"}
	id, mk := 0, 0
	nid := func() int { id++; return id }
	binary := r.Intn(3) == 0
	payload := func() string {
		mk++
		b := anyBytes(r, []int{0, 4, 30, 200, someSize(r)}[r.Intn(5)])
		if !binary {
			b = []byte(strings.ToValidUTF8(string(b), "é"))
		}
		b = append([]byte(fmt.Sprintf("<%d>", mk)), b...)
		if r.Intn(3) > 0 {
			b = append(b, '\n')
		}
		return hex.EncodeToString(b)
	}
	ntee := 0
	deferOK := true
	quiet := r.Intn(2) == 0 // nothing but writes: the stream can be compared with the console
	var items func(depth int, canFail bool) []sdoc.Act
	items = func(depth int, canFail bool) (b []sdoc.Act) {
		for n := r.Intn(6); n > 0; n-- {
			switch k := r.Intn(12); {
			case k < 6:
				b = append(b, sdoc.Act{K: "gwhex", S: payload(), N: r.Intn(100), V: []string{"", "", "", "printf", "print", "println", "fprintf", "logr", "logrerr"}[r.Intn(9)]})
			case k < 8:
				var ls []string
				for g := 2 + r.Intn(4); g > 0; g-- {
					var ps []string
					for m := 1 + r.Intn(6); m > 0; m-- {
						ps = append(ps, payload())
					}
					ls = append(ls, strings.Join(ps, ","))
				}
				b = append(b, sdoc.Act{K: "gws", A: ls})
			case k == 8:
				ntee++
				b = append(b, sdoc.Act{K: "teex", S: fmt.Sprintf("t%d", ntee)})
			case k == 9:
				if r.Intn(3) == 0 {
					b = append(b, sdoc.Act{K: "unteex"})
				}
			case k == 10:
				if !quiet {
					b = append(b, sdoc.Act{K: []string{"by", "entry", "sleep"}[r.Intn(3)], S: "x", N: 1})
				}
			case k == 11:
				if !quiet && depth == 0 && deferOK {
					b = append(b, sdoc.Act{K: "defer", ID: nid(), B: items(1, false)})
				}
			}
		}
		if canFail && !quiet && r.Intn(4) == 0 {
			a := sdoc.Act{K: []string{"fail", "panic", "skip", "goexit"}[r.Intn(4)], S: "why"}
			if r.Intn(2) == 0 {
				a.Inv = []int{0}
			}
			k := r.Intn(len(b) + 1)
			b = append(b[:k:k], append([]sdoc.Act{a}, b[k:]...)...)
		}
		return
	}
	node := func(k string, canFail bool) *sdoc.Node {
		n := &sdoc.Node{ID: nid(), K: k}
		n.Loc = sdoc.Loc{F: "/synthetic/gw.go", L: n.ID}
		deferOK = !strings.HasPrefix(k, "Report")
		n.Body = items(0, canFail)
		if strings.HasPrefix(k, "Synchronized") {
			n.Body2 = items(0, false)
		}
		return n
	}
	var cont func(depth int) *sdoc.Node
	cont = func(depth int) *sdoc.Node {
		ct := &sdoc.Node{ID: nid(), K: "container", Text: fmt.Sprintf("C%d", id)}
		ct.Loc = sdoc.Loc{F: "/synthetic/gw.go", L: ct.ID}
		ct.Ordered = r.Intn(3) == 0
		ks := []string{"BeforeEach", "AfterEach", "JustBeforeEach", "JustAfterEach", "ReportBeforeEach", "ReportAfterEach"}
		if ct.Ordered {
			ks = append(ks, "BeforeAll", "AfterAll")
		}
		for n := r.Intn(4); n > 0; n-- {
			k := ks[r.Intn(len(ks))]
			ct.Kids = append(ct.Kids, node(k, !strings.HasPrefix(k, "Report")))
		}
		for n := 1 + r.Intn(3); n > 0; n-- {
			if depth < 2 && !ct.Ordered && r.Intn(3) == 0 {
				ct.Kids = append(ct.Kids, cont(depth+1))
				continue
			}
			it := node("it", true)
			it.Text = fmt.Sprintf("S%d", it.ID)
			switch r.Intn(6) {
			case 0:
				it.Flake = 2 + r.Intn(2)
			case 1:
				it.MustPass = 2
			case 2:
				it.Pending = r.Intn(2) == 0
			}
			ct.Kids = append(ct.Kids, it)
		}
		return ct
	}
	for n := 1 + r.Intn(3); n > 0; n-- {
		s.Top = append(s.Top, cont(0))
	}
	bs := node([]string{"BeforeSuite", "SynchronizedBeforeSuite"}[r.Intn(2)], false)
	if bg {
		bs.Body = append(bs.Body, sdoc.Act{K: "gwbg", N: 20 + r.Intn(500)})
	}
	if bg || r.Intn(2) == 0 {
		s.Top = append(s.Top, bs)
	}
	as := node("AfterSuite", false)
	as.Body = append(as.Body, sdoc.Act{K: "teedumpx"})
	s.Top = append(s.Top, as)
	if r.Intn(2) == 0 {
		n := node([]string{"ReportBeforeSuite", "ReportAfterSuite"}[r.Intn(2)], false)
		n.Text = "rep"
		s.Top = append(s.Top, n)
	}
	return s
}

func writerRuns(c *Ctx) {
	parallelDo(N(300, 8000), workers(), func(i int) {
		if *flagOnly >= 1000000 {
			i -= 1000000
		}
		r := rng("C17r", i)
		bg := r.Intn(4) == 0
		s := gwSuite(r, bg)
		o := RunOpts{}
		if r.Intn(3) == 0 {
			o.Procs = 2 + r.Intn(2)
		}
		if r.Intn(4) == 0 {
			o.Args = append(o.Args, "poll-progress-after=1ms", "poll-progress-interval=1ms")
		}
		verb := []string{"v", "vv", "succinct", ""}[r.Intn(4)]
		if verb != "" {
			o.Args = append(o.Args, verb)
		}
		run := c.runSuite(s, o)
		defer run.Clean()
		if run.Res.TimedOut {
			c.Inconclusive("timed out")
			return
		}
		if d := writerJudge(c, run, o, verb, bg); d != "" {
			c.Fail("", fmt.Sprintf("run %d (%v): %s", i, o, d), run.Files())
		}
	})
}

type gwItem struct {
	seq  []byte
	conc [][][]byte // goroutine -> chunks
}

var bgRe = regexp.MustCompile("\x02bg(\\d+);")

// matchItems matches what was observed against a sequence of writes, some of them concurrent. utf maps both sides.
func matchItems(items []gwItem, got []byte, utf func([]byte) []byte) string {
	p := 0
	for _, it := range items {
		if it.conc == nil {
			w := utf(it.seq)
			if !bytes.HasPrefix(got[p:], w) {
				return fmt.Sprintf("at byte %d: %q, written was %q", p, trunc(string(got[p:]), 120), trunc(string(w), 120))
			}
			p += len(w)
			continue
		}
		heads := make([]int, len(it.conc))
		left := 0
		for _, g := range it.conc {
			left += len(g)
		}
		for ; left > 0; left-- {
			found := false
			for g := range it.conc {
				if heads[g] < len(it.conc[g]) {
					if w := utf(it.conc[g][heads[g]]); bytes.HasPrefix(got[p:], w) { // chunks begin with a unique number
						heads[g]++
						p += len(w)
						found = true
						break
					}
				}
			}
			if !found {
				return fmt.Sprintf("at byte %d: %q is not the next whole write of any of the %d goroutines writing then", p, trunc(string(got[p:]), 120), len(it.conc))
			}
		}
	}
	if p != len(got) {
		return fmt.Sprintf("%q at byte %d was not written then", trunc(string(got[p:]), 200), p)
	}
	return ""
}

func asJSON(b []byte) []byte { return []byte(string([]rune(string(b)))) }
func asIs(b []byte) []byte   { return b }

func writerJudge(c *Ctx, run *SuiteRun, o RunOpts, verb string, bg bool) string {
	b, err := os.ReadFile(filepath.Join(run.Dir, "report.json"))
	if err != nil {
		return "no report: " + err.Error() + "\n" + trunc(run.Res.Out, 3000)
	}
	var reps []types.Report
	if err := json.Unmarshal(b, &reps); err != nil || len(reps) != 1 {
		return fmt.Sprintf("bad report: %v", err)
	}
	logged := map[string][]gwItem{}
	type teeSt struct {
		want []gwItem
		on   bool
	}
	tees := map[string]*teeSt{} // proc/name
	dumped := map[string][]byte{}
	sig := ""
	for _, e := range run.Events {
		k := fmt.Sprintf("S%d", e.Spec)
		if e.Spec == 0 {
			k = fmt.Sprintf("N%d/%d", e.N, e.P)
		}
		pre := fmt.Sprintf("%d/", e.P)
		var it gwItem
		switch e.E {
		case "gwbad":
			return e.X
		case "gwx":
			it.seq, _ = hex.DecodeString(e.X)
		case "gws":
			for _, g := range strings.Split(e.X, ";") {
				var cs [][]byte
				for _, h := range strings.Split(g, ",") {
					x, _ := hex.DecodeString(h)
					cs = append(cs, x)
				}
				it.conc = append(it.conc, cs)
			}
		case "teex":
			tees[pre+e.X] = &teeSt{on: true}
			continue
		case "unteex":
			for k, t := range tees {
				if strings.HasPrefix(k, pre) {
					t.on = false
				}
			}
			continue
		case "teedumpx":
			n, h, _ := strings.Cut(e.X, ":")
			x, _ := hex.DecodeString(h)
			if _, ok := dumped[pre+n]; !ok {
				dumped[pre+n] = x
				if tees[pre+n] != nil {
					tees[pre+n].on = false
				}
			}
			continue
		default:
			continue
		}
		sig += k + e.E
		logged[k] = append(logged[k], it)
		for k, t := range tees {
			if t.on && strings.HasPrefix(k, pre) {
				t.want = append(t.want, it)
			}
		}
	}
	c.Eval("run" + sigHash(sig, o.Args, o.Procs))
	lastBg := map[int]int{}
	strip := func(p int, got []byte) ([]byte, string) {
		if !bg {
			return got, ""
		}
		d := ""
		out := bgRe.ReplaceAllFunc(got, func(m []byte) []byte {
			n, _ := strconv.Atoi(string(m[3 : len(m)-1]))
			if p > 0 {
				if l, ok := lastBg[p]; ok && n <= l {
					d = fmt.Sprintf("background write %d appears after write %d", n, l)
				}
				lastBg[p] = n
			}
			c.Count("background writes", 1)
			return nil
		})
		return out, d
	}
	seen := map[string]bool{}
	for _, sp := range reps[0].SpecReports {
		key := fmt.Sprintf("N%d/%d", sp.LeafNodeLocation.LineNumber, sp.ParallelProcess)
		if sp.LeafNodeType == types.NodeTypeIt {
			key = sp.LeafNodeText
		}
		seen[key] = true
		got, d := strip(0, []byte(sp.CapturedGinkgoWriterOutput))
		if d == "" {
			d = matchItems(logged[key], got, asJSON)
		}
		if d != "" {
			return fmt.Sprintf("%s (%s): captured output: %s", key, sp.State, d)
		}
		c.Count("captured outputs", 1)
	}
	for k := range logged {
		if !seen[k] {
			return k + " wrote output but is not reported"
		}
	}
	for k, t := range tees {
		got, ok := dumped[k]
		if !ok {
			continue // this process ran no AfterSuite after it
		}
		got, d := strip(0, got)
		if d == "" {
			d = matchItems(t.want, got, asIs)
		}
		if d != "" {
			return fmt.Sprintf("tee %s: %s", k, d)
		}
		c.Count("tees in runs", 1)
	}
	// the stream of a serial verbose run
	polled := strings.Contains(strings.Join(o.Args, " "), "poll") // reports are shown between and within writes
	if o.Procs == 0 && !polled && (verb == "v" || verb == "vv") && !bg {
		next := true
		pos := 0
		count := map[string]int{}
		out := run.Res.Out
		for _, e := range run.Events {
			if e.E != "gwx" && e.E != "gws" {
				continue
			}
			if e.E == "gws" {
				// order is not known: every goroutine's first chunk must come next in some order; judged by content below
				for _, g := range strings.Split(e.X, ";") {
					for _, h := range strings.Split(g, ",") {
						x, _ := hex.DecodeString(h)
						nx := false
						w := indentStream(x, &nx)
						j := strings.Index(out[pos:], string(w))
						if j < 0 {
							return fmt.Sprintf("streamed output does not show %q", trunc(string(x), 200))
						}
						count[string(x[:bytes.IndexByte(x, '>')+1])]++
					}
				}
				continue
			}
			x, _ := hex.DecodeString(e.X)
			if len(x) == 0 {
				continue
			}
			next = false
			w := indentStream(x, &next)
			j := strings.Index(out[pos:], string(w))
			if j < 0 {
				return fmt.Sprintf("streamed output does not show %q, in order", trunc(string(x), 200))
			}
			pos += j + len(w)
			if x[0] == '<' {
				count[string(x[:bytes.IndexByte(x, '>')+1])]++
			}
			c.Count("writes streamed", 1)
		}
		for k, n := range count {
			if g := strings.Count(out, k); g != n {
				return fmt.Sprintf("%q was written %d times and is streamed %d times", k, n, g)
			}
		}
	}
	return ""
}

package main

import (
	"bytes"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/scanner"
	"go/token"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/onsi/ginkgo/v2/ginkgo/outline"
)

// C25: ginkgo unfocus and ginkgo outline on generated sources.

func init() {
	checks["C25"] = Check{Level: "exploration", Isolate: true, Run: runC25,
		Rule: "a generated file counts as distinct by (import style, node names in tree order, decorators); unfocus is judged on the token stream against the twin generated without focus, outlines against the generator's record"}
}

type onode struct {
	Name                   string
	Text                   string
	Start, End             int
	Spec, Focused, Pending bool
	Labels                 []string
	Nodes                  []*onode
}

type srcGen struct {
	r        *rand.Rand
	f, u     bytes.Buffer // with focus, and its twin without
	pfx      string       // qualifier of ginkgo names
	style    string
	names    []any
	sib      bool // focus allowed
	budget   int
	hasFocus bool
}

func (g *srcGen) w(s string) { g.f.WriteString(s); g.u.WriteString(s) }

func (g *srcGen) q(n string) string { return g.pfx + n }

func pickS(r *rand.Rand, l ...string) string { return l[r.Intn(len(l))] }

// text writes a text argument and returns what an outline can know about it.
func (g *srcGen) text(entry bool) string {
	r := g.r
	lit := pickS(r, "plain", "with, comma", "quo\"te", "multi\nline", "FIt(\"x\", Focus, ", "Ünïcode ✓", "", " lead", "tab\there", "back\\slash", "Focus", "// Focus")
	switch r.Intn(12) {
	case 0:
		g.w("someText")
		return "undefined"
	case 1:
		g.w(`"a" + "b"`)
		return "undefined"
	case 2:
		g.w(`fmt.Sprintf("%d Focus,", 1)`)
		return "undefined"
	case 3:
		if !strings.Contains(lit, "`") {
			g.w("`" + lit + "`")
			return lit
		}
	case 4:
		if entry {
			g.w("nil")
			return "undefined"
		}
	case 5:
		if entry {
			g.w("func(i int) string { return \"\" }")
			return "undefined"
		}
	}
	g.w(strconv.Quote(lit))
	return lit
}

// sp writes optional whitespace or a comment.
func (g *srcGen) sp() {
	g.w(pickS(g.r, "", "", "", " ", "  ", "\t", " /* Focus, FIt( */ "))
}

type decos struct {
	focus, pending bool
	labels         []string
}

// decorators writes 0-3 decorator arguments, each preceded (lead) or followed by a comma.
func (g *srcGen) decorators(plain bool, lead bool, d *decos) {
	r := g.r
	for k := r.Intn(3); k > 0; k-- {
		var kind string
		kind = pickS(r, "Label", "Label", "Focus", "Focus", "Pending", "Serial", "Offset")
		if kind == "Focus" && (d.pending || !g.sib) || kind == "Pending" && (!plain || d.focus || d.pending) {
			kind = "Label"
		}
		out := g.w
		if kind == "Focus" {
			out = func(s string) { g.f.WriteString(s) }
			if plain || r.Intn(4) == 0 {
				d.focus = true
			} else {
				continue
			}
			g.hasFocus = true
		}
		g.names = append(g.names, kind)
		if lead {
			out(pickS(r, "", " ") + "," + pickS(r, "", " ", " ", "\n\t\t"))
		}
		switch kind {
		case "Label":
			g.w(g.q("Label") + "(")
			for i, n := 0, r.Intn(4); i < n; i++ {
				if i > 0 {
					g.w(", ")
				}
				switch r.Intn(6) {
				case 0:
					g.w("someText")
				case 1:
					g.w(`"bad,label"`)
				case 2:
					g.w(`"  padded "`)
					d.labels = append(d.labels, "padded")
				case 3:
					g.w("`raw`")
					d.labels = append(d.labels, "raw")
				default:
					l := pickS(r, "slow", "two words", "key:val", "Focus")
					g.w(strconv.Quote(l))
					d.labels = append(d.labels, l)
				}
			}
			g.w(")")
		case "Focus":
			out(g.q("Focus"))
		case "Pending":
			d.pending = true
			g.w(g.q("Pending"))
		case "Serial":
			g.w(g.q("Serial"))
		case "Offset":
			g.w(g.q("Offset") + "(1)")
		}
		if !lead {
			g.w(pickS(r, "", "", " ", " /* , */ "))
			out("," + pickS(r, "", " ", " ", "\n\t\t"))
		}
	}
}

// name writes the function name of a node in its F, P, X or plain form.
func (g *srcGen) name(base string) (full string, d decos, plain bool) {
	r := g.r
	p := ""
	switch k := r.Intn(10); {
	case k < 3 && g.sib:
		p, d.focus = "F", true
		g.hasFocus = true
	case k == 3:
		p, d.pending = "P", true
	case k == 4:
		p, d.pending = "X", true
	}
	g.w(g.pfx)
	if p == "F" {
		g.f.WriteString("F")
	} else {
		g.w(p)
	}
	g.w(base)
	g.names = append(g.names, p+base)
	return p + base, d, p == ""
}

func (g *srcGen) open(n *onode) { n.Start = g.f.Len() }

func (g *srcGen) setup(par *onode) {
	r := g.r
	base := pickS(r, "BeforeEach", "AfterEach", "JustBeforeEach", "JustAfterEach", "BeforeAll", "AfterAll", "ReportAfterEach")
	n := &onode{Name: base}
	g.open(n)
	g.w(g.q(base) + "(func() {")
	to := n
	if base == "BeforeAll" || base == "AfterAll" || base == "ReportAfterEach" {
		to = par // not part of an outline; what is inside belongs to the container
	}
	g.body(to)
	g.w("})")
	n.End = g.f.Len()
	if to == n {
		par.Nodes = append(par.Nodes, n)
	}
	g.names = append(g.names, base)
	g.w("\n")
}

// body is the inside of a spec or setup node.
func (g *srcGen) body(par *onode) {
	r := g.r
	for k := r.Intn(3); k > 0; k-- {
		switch r.Intn(5) {
		case 0, 1:
			n := &onode{Name: "By"}
			g.open(n)
			g.w(g.q("By") + "(")
			n.Text = g.text(false)
			if r.Intn(3) == 0 {
				g.w(", func() { ")
				g.decoy()
				g.w("\n }")
			}
			g.w(")")
			n.End = g.f.Len()
			par.Nodes = append(par.Nodes, n)
			g.names = append(g.names, "By")
		case 2:
			g.decoy()
		case 3:
			g.w("_ = 1")
		case 4:
			g.w("// Focus, FIt(\"x\", Focus)")
		}
		g.w("\n")
	}
}

// decoy writes code that mentions Focus without being Ginkgo focus.
func (g *srcGen) decoy() {
	g.w(pickS(g.r,
		"win.Focus()", "win.Focused.Focus = 3", "win2 := window{Focus: true}; _ = win2.Focus", "_ = \"Focus,\"", "win.Focus() // Focus,",
		"drv.FIt(\"x\", 3)", "drv.FDescribe(win.Focus())", "func(Focus int) { use(Focus, 1) }(2)", "use(win.Focus(), win.field)", "type t struct{ Focus, FIt int }",
		"use(\n\twin.Focused.Focus,\n\t1,\n)", "m := map[string]int{\"Focus\": 1}; use(m[\"Focus\"])", "use(other.Focus, 2)", "other.FIt(\"n\")",
		"{ Focus := 3; use(Focus, Focus) }"))
	g.names = append(g.names, "decoy")
}

func (g *srcGen) fn(args string, in func()) {
	g.w("func(" + args + ") {")
	in()
	g.w("}")
}

func (g *srcGen) spec(par *onode) {
	r := g.r
	n := &onode{Spec: true, Labels: []string{}}
	g.open(n)
	full, d, plain := g.name(pickS(r, "It", "It", "Specify"))
	n.Name = full
	g.sp()
	g.w("(")
	n.Text = g.text(false)
	g.w(",")
	g.sp()
	g.decorators(plain, false, &d)
	g.fn(pickS(r, "", "ctx SpecContext"), func() { g.body(n) })
	if r.Intn(2) == 0 {
		g.decorators(plain, true, &d)
	}
	g.w(pickS(r, "", "", ",\n"))
	g.w(")")
	n.End = g.f.Len()
	g.finish(par, n, d)
}

func (g *srcGen) finish(par, n *onode, d decos) {
	n.Focused, n.Pending = d.focus, d.pending
	n.Labels = append(n.Labels, d.labels...)
	par.Nodes = append(par.Nodes, n)
	g.w("\n")
}

func (g *srcGen) container(par *onode, depth int) {
	r := g.r
	n := &onode{Labels: []string{}}
	g.open(n)
	base := pickS(r, "Describe", "Context", "When", "DescribeTable", "DescribeTableSubtree")
	if r.Intn(2) == 0 && depth < 3 {
		base = "Describe"
	}
	full, d, plain := g.name(base)
	n.Name = full
	g.w("(")
	n.Text = g.text(false)
	g.w(",")
	g.sp()
	g.decorators(plain, false, &d)
	table := strings.HasPrefix(base, "DescribeTable")
	saved := g.sib
	if d.pending {
		g.sib = g.sib && r.Intn(3) == 0 // focus below a pending container
	}
	switch {
	case base == "DescribeTable":
		g.fn("i int", func() { g.body(n) })
	case table:
		g.fn("i int", func() { g.children(n, depth+1) })
	default:
		g.fn("", func() { g.w("\n"); g.children(n, depth+1) })
	}
	if table {
		for k := r.Intn(4); k > 0; k-- {
			g.w(", ")
			g.w(pickS(r, "\n\t", "", "// Focus,\n"))
			e := &onode{Spec: true, Labels: []string{}}
			g.open(e)
			full, ed, eplain := g.name("Entry")
			e.Name = full
			g.w("(")
			e.Text = g.text(true)
			if r.Intn(2) == 0 {
				g.decorators(eplain, true, &ed)
			}
			g.w(pickS(r, ", 1", ", []string{\"Focus\"}", ", win.Focus()", ", window{Focus: true}"))
			if r.Intn(3) == 0 {
				g.decorators(eplain, true, &ed)
			}
			g.w(")")
			e.End = g.f.Len()
			e.Focused, e.Pending = ed.focus, ed.pending
			e.Labels = append(e.Labels, ed.labels...)
			n.Nodes = append(n.Nodes, e)
		}
	}
	g.sib = saved
	if r.Intn(3) == 0 {
		g.decorators(plain, true, &d)
	}
	g.w(pickS(r, "", "", ",\n"))
	g.w(")")
	n.End = g.f.Len()
	g.finish(par, n, d)
}

func (g *srcGen) children(n *onode, depth int) {
	r := g.r
	for k := 1 + r.Intn(4); k > 0 && g.budget > 0; k-- {
		g.budget--
		loop := r.Intn(12) == 0
		if loop {
			g.w("for i := 0; i < 2; i++ {\n")
		}
		switch x := r.Intn(10); {
		case x < 4 && depth < 5:
			g.container(n, depth)
		case x < 8:
			g.spec(n)
		case x == 8:
			g.setup(n)
		default:
			g.decoy()
			g.w("\n")
		}
		if loop {
			g.w("}\n")
		}
	}
}

// genSource makes one file, its unfocused twin and its outline (nil if the file is not for outlining).
func genSource(r *rand.Rand) (g *srcGen, root *onode) {
	g = &srcGen{r: r, budget: 4 + r.Intn(30), sib: r.Intn(8) > 0}
	g.w(pickS(r, "", "// Focus, header\n", "//go:build linux\n\n", "\ufeff"))
	g.w("package some_test\n\nimport (\n")
	others := []string{`"fmt"`, `. "github.com/onsi/gomega"`, `"github.com/onsi/ginkgo/v2/types"`, `"github.com/onsi/ginkgo/v2/reporters"`, `"example.com/other"`, `"github.com/onsi/ginkgo/v2/extensions/globals"`, `"github.com/onsi/ginkgo/v2ray"`}
	r.Shuffle(len(others), func(a, b int) { others[a], others[b] = others[b], others[a] })
	k := r.Intn(len(others))
	var imp []string
	g.style = pickS(r, "dot", "dot", "plain", "alias", "dsl")
	switch g.style {
	case "dot":
		imp = []string{`. "github.com/onsi/ginkgo/v2"`}
	case "plain":
		imp, g.pfx = []string{`"github.com/onsi/ginkgo/v2"`}, "ginkgo."
	case "alias":
		imp, g.pfx = []string{`gk "github.com/onsi/ginkgo/v2"`}, "gk."
	case "dsl":
		imp = []string{`. "github.com/onsi/ginkgo/v2/dsl/core"`, `. "github.com/onsi/ginkgo/v2/dsl/decorators"`, `. "github.com/onsi/ginkgo/v2/dsl/table"`}
		r.Shuffle(3, func(a, b int) { imp[a], imp[b] = imp[b], imp[a] })
	}
	g.names = append(g.names, g.style)
	for _, s := range append(append(others[:k:k], imp...), others[k:]...) {
		g.w("\t" + s + "\n")
	}
	g.w(")\n\ntype window struct { Focus, field bool }\nfunc (w *window) Grab() { w.Focus = true; use(w.Focus, 1) }\n")
	if r.Intn(3) == 0 {
		g.w("type driver struct{}\nfunc (driver) FIt(a ...any) {}\nvar drv driver\n")
	}
	root = &onode{}
	for k := 1 + r.Intn(3); k > 0; k-- {
		if r.Intn(8) == 0 {
			n := &onode{}
			n.Name = pickS(r, "BeforeSuite", "AfterSuite", "SynchronizedBeforeSuite", "SynchronizedAfterSuite")
			g.w("var _ = ")
			g.open(n)
			g.w(g.q(n.Name) + "(func() {")
			g.body(n)
			g.w("}")
			if strings.HasPrefix(n.Name, "Sync") {
				g.w(", func() {")
				g.body(n)
				g.w("}")
			}
			g.w(")")
			n.End = g.f.Len()
			root.Nodes = append(root.Nodes, n)
			g.w("\n")
			continue
		}
		switch r.Intn(5) {
		case 0:
			g.w("func init() {\n")
			g.container(root, 0)
			g.w("}\n")
		case 1:
			g.w("func shared() bool { ")
			g.decoy()
			g.w("\n")
			g.children(root, 1)
			g.w("return true }\n")
		default:
			g.w("var _ = ")
			g.container(root, 0)
		}
	}
	if r.Intn(3) == 0 { // decorators kept in a slice
		g.w("var decos = []any{1, ")
		if g.sib {
			g.f.WriteString(g.q("Focus") + ", ")
			g.hasFocus = true
		}
		g.w(g.q("Serial") + "}\n")
	}
	return g, root
}

// effective applies the documented focus rules to the declared marks.
func effective(root *onode) {
	var sub func(n *onode) bool
	sub = func(n *onode) bool {
		if n.Pending {
			return false
		}
		any := false
		for _, c := range n.Nodes {
			if sub(c) {
				any = true
			}
		}
		if any {
			n.Focused = false
		}
		return any || n.Focused
	}
	sub(root)
	var down func(n *onode, f, p bool)
	down = func(n *onode, f, p bool) {
		n.Pending = n.Pending || p
		n.Focused = (n.Focused || f) && !n.Pending
		for _, c := range n.Nodes {
			down(c, n.Focused, n.Pending)
		}
	}
	for _, c := range root.Nodes {
		down(c, false, false)
	}
}

// tokens is the meaning of a file: its tokens and comments; a comma before a closing bracket means nothing.
func tokens(src []byte) ([]string, error) {
	fs := token.NewFileSet()
	file := fs.AddFile("x.go", -1, len(src))
	var s scanner.Scanner
	var bad error
	s.Init(file, src, func(p token.Position, m string) { bad = fmt.Errorf("%v: %s", p, m) }, scanner.ScanComments)
	var out []string
	for {
		_, t, lit := s.Scan()
		if t == token.EOF {
			break
		}
		if t == token.SEMICOLON {
			lit = ";"
		}
		if lit == "" || t.IsOperator() {
			lit = t.String()
		}
		if t == token.RPAREN || t == token.RBRACE || t == token.RBRACK {
			if n := len(out); n > 0 && out[n-1] == "," {
				out = out[:n-1]
			}
		}
		out = append(out, lit)
	}
	return out, bad
}

func tokenDiff(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "<end>", "<end>"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			lo, hi := i-6, i+6
			if lo < 0 {
				lo = 0
			}
			c := func(l []string) string {
				h := hi
				if h > len(l) {
					h = len(l)
				}
				if lo > h {
					return ""
				}
				return strings.Join(l[lo:h], " ")
			}
			return fmt.Sprintf("token %d: got %q want %q (got … %s … want … %s …)", i, x, y, c(a), c(b))
		}
	}
	return ""
}

func runC25(c *Ctx) {
	n := N(800, 30000)
	parallelDo(n, workers(), func(i int) {
		if c.NViol() > 3 {
			return
		}
		theWatch.set(i, fmt.Sprintf("C25 tree %d", i))
		c25Tree(c, i)
		theWatch.done(i)
	})
}

func c25Tree(c *Ctx, i int) {
	r := rng("C25", i)
	dir := filepath.Join(*flagWork, fmt.Sprintf("u%d", i))
	defer os.RemoveAll(dir)
	keep := map[string][]byte{} // files that must not change
	type gen struct {
		g    *srcGen
		root *onode
	}
	gens := map[string]gen{}
	var errs []string
	var badSrc []byte
	fail := func(src []byte, f string, a ...any) {
		if badSrc == nil {
			badSrc = src
		}
		errs = append(errs, fmt.Sprintf(f, a...))
	}
	nf := 1 + r.Intn(16)
	files := map[string]string{}
	for k := 0; k < nf; k++ {
		g, root := genSource(r)
		p := pickS(r, "", "", "sub/", "sub/deep/er/", "vendored/", "a.b/") + fmt.Sprintf("f%d%s.go", k, pickS(r, "_test", ""))
		files[p] = g.f.String()
		if _, err := parser.ParseFile(token.NewFileSet(), p, g.f.Bytes(), 0); err != nil {
			fatal("generated source does not parse: %v\n%s", err, x5(g.f.Bytes(), err))
		}
		if _, err := parser.ParseFile(token.NewFileSet(), p, g.u.Bytes(), 0); err != nil {
			fatal("generated twin does not parse: %v\n%s", err, x5(g.u.Bytes(), err))
		}
		gens[p] = gen{g, root}
		c.Count("files", 1)
		c.Eval(sigHash(g.names...))
	}
	extra, _ := genSource(r)
	for _, p := range []string{"vendor/x/v_test.go", "sub/vendor/y_test.go", ".hidden/h_test.go", "README.md", "notes.go.txt", "go"} {
		if r.Intn(2) == 0 {
			files[p] = extra.f.String()
			keep[p] = []byte(files[p])
		}
	}
	if r.Intn(2) == 0 {
		p := "sub/broken_test.go"
		files[p] = extra.f.String() + "\nfunc {\n"
		keep[p] = []byte(files[p])
	}
	if r.Intn(3) == 0 {
		files["empty.go"] = ""
		keep["empty.go"] = nil
	}
	writeTree(dir, files)

	// outlines first (on the focused sources)
	cliFor := r.Intn(nf)
	idx := 0
	for p, x := range gens {
		src := x.g.f.Bytes()
		fs := token.NewFileSet()
		ast, _ := parser.ParseFile(fs, p, src, 0)
		o, err := outline.FromASTFile(fs, ast)
		if err != nil {
			fail(src, "outline of %s (%s imports): %v", p, x.g.style, err)
			continue
		}
		effective(x.root)
		j, err := json.Marshal(o)
		if err != nil {
			fail(src, "outline json: %v", err)
			continue
		}
		csvOut, ind := o.String(), o.StringIndent(4)
		if idx == cliFor {
			for _, v := range []struct {
				format string
				want   string
				stdin  bool
			}{{"json", string(j) + "\n", false}, {"csv", csvOut, r.Intn(2) == 0}, {"indent", ind, r.Intn(2) == 0}} {
				cmd := exec.Command(bin("ginkgo"), "outline", "--format="+v.format, p)
				if v.stdin {
					cmd = exec.Command(bin("ginkgo"), "outline", "--format", v.format, "-")
					cmd.Stdin = bytes.NewReader(src)
				}
				cmd.Dir, cmd.Env = dir, baseEnv
				b, err := cmd.Output()
				if err != nil {
					fail(src, "ginkgo outline --format=%s: %v", v.format, err)
				} else if string(b) != v.want {
					fail(src, "ginkgo outline --format=%s prints something other than the outline:\n%s\nwant\n%s", v.format, trunc(string(b), 400), trunc(v.want, 400))
				}
				c.Count("outline commands", 1)
			}
		}
		idx++
		var nodes []*onode
		if err := json.Unmarshal(j, &nodes); err != nil {
			fail(src, "outline json does not decode: %v", err)
			continue
		}
		if d := diffOutline(nodes, x.root.Nodes, "root"); d != "" {
			fail(src, "outline of %s (%s imports): %s", p, x.g.style, d)
		}
		for _, w := range []int{0, 4} {
			out := csvOut
			if w == 4 {
				out = ind
			}
			if want := renderOutline(x.root.Nodes, w); out != want {
				fail(src, "outline text (indent %d) of %s:\n%s\nwant\n%s", w, p, trunc(out, 600), trunc(want, 600))
			}
		}
		c.Count("outlines", 1)
	}

	// unfocus
	res := runCmd(dir, nil, 60*time.Second, bin("ginkgo"), "unfocus")
	if res.Exit != 0 || res.TimedOut {
		errs = append(errs, fmt.Sprintf("ginkgo unfocus: exit %d", res.Exit))
	}
	after := map[string][]byte{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			rel, _ := filepath.Rel(dir, p)
			after[rel], _ = os.ReadFile(p)
		}
		return nil
	})
	for p := range after {
		if _, ok := files[p]; !ok {
			errs = append(errs, "unfocus left "+p+" behind")
		}
	}
	for p, b := range keep {
		if !bytes.Equal(b, after[p]) {
			fail([]byte(files[p]), "unfocus changed %s", p)
		}
	}
	for p, x := range gens {
		src := x.g.f.Bytes()
		got := after[p]
		if !x.g.hasFocus && !bytes.Equal(got, src) {
			fail(src, "unfocus changed %s, which has no focus", p)
			continue
		}
		if _, err := parser.ParseFile(token.NewFileSet(), p, got, 0); err != nil {
			fail(src, "after unfocus %s (%s imports) does not parse: %v", p, x.g.style, err)
			continue
		}
		a, _ := tokens(got)
		b, _ := tokens(x.g.u.Bytes())
		if d := tokenDiff(a, b); d != "" {
			fail(src, "after unfocus %s (%s imports): %s", p, x.g.style, d)
		}
	}
	if r.Intn(2) == 0 {
		res = runCmd(dir, nil, 60*time.Second, bin("ginkgo"), "unfocus")
		for p, b := range after {
			if now, _ := os.ReadFile(filepath.Join(dir, p)); !bytes.Equal(now, b) {
				fail([]byte(files[p]), "a second unfocus changed %s", p)
			}
		}
		if strings.Contains(res.Out, "updating") {
			errs = append(errs, "a second unfocus updates files: "+res.Out)
		}
		c.Count("second runs", 1)
	}
	c.Count("unfocused trees", 1)
	if len(errs) > 0 {
		c.Fail("", fmt.Sprintf("tree %d (seed %d): %s", i, *flagSeed, trunc(strings.Join(errs, "; "), 1500)), map[string][]byte{"source.go": badSrc, "errors.txt": []byte(strings.Join(errs, "\n"))})
	}
}

func diffOutline(got, want []*onode, path string) string {
	if len(got) != len(want) {
		names := func(l []*onode) (s []string) {
			for _, n := range l {
				s = append(s, n.Name)
			}
			return
		}
		return fmt.Sprintf("%s has children %v, want %v", path, names(got), names(want))
	}
	for i := range got {
		a, b := *got[i], *want[i]
		p := path + "/" + b.Name
		ka, kb := a.Nodes, b.Nodes
		a.Nodes, b.Nodes = nil, nil
		ja, _ := json.Marshal(a)
		jb, _ := json.Marshal(b)
		if !bytes.Equal(ja, jb) {
			return fmt.Sprintf("%s is %s, want %s", p, ja, jb)
		}
		if d := diffOutline(ka, kb, p); d != "" {
			return d
		}
	}
	return ""
}

func renderOutline(nodes []*onode, width int) string {
	var b bytes.Buffer
	b.WriteString("Name,Text,Start,End,Spec,Focused,Pending,Labels\n")
	var walk func(l []*onode, depth int)
	walk = func(l []*onode, depth int) {
		for _, n := range l {
			b.WriteString(strings.Repeat(" ", width*depth))
			w := csv.NewWriter(&b)
			w.Write([]string{n.Name, n.Text, strconv.Itoa(n.Start), strconv.Itoa(n.End), strconv.FormatBool(n.Spec), strconv.FormatBool(n.Focused), strconv.FormatBool(n.Pending), strings.Join(n.Labels, ", ")})
			w.Flush()
			walk(n.Nodes, depth+1)
		}
	}
	walk(nodes, 0)
	return b.String()
}

func x5(src []byte, err error) string {
	l := strings.Split(string(src), "\n")
	var n int
	if k := strings.Index(err.Error(), ":"); k >= 0 {
		fmt.Sscanf(err.Error()[k+1:], "%d", &n)
	}
	if n < 3 || n > len(l) {
		return ""
	}
	return strings.Join(l[n-3:n], "\n")
}

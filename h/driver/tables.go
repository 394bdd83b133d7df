package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/onsi/ginkgo/v2/internal/zzverif/sdoc"
)

// C24: random tables (bodies of arbitrary signatures made with reflect.MakeFunc, arbitrary values, every form of description, decorators anywhere in the
// argument lists). Bodies log what they receive; specs, texts and arguments are compared with what the entries say.

type tabGen struct {
	illGen
	attempts string // the decorator for repeated attempts used in this suite
	focus    bool
}

var tabToks = []string{"i:1", "i:2", "i:-7", "s:ab", "s:", "s:50%d", "f:3", "f:4", "b:0", "b:1", "my:1", "my:5", "st:1", "st:2", "p:0", "p:1", "p:2", "pn", "e:1", "e:2", "sp:1", "sp:2",
	"L:1", "L:5", "Ln", "IS:1", "A:1", "A:2", "Ae", "As:z", "M:1", "M:2", "fn:1", "fn:2", "c:1", "c:2", "x:1", "x:2", "n"}

func tabNilable(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Pointer, reflect.Slice:
		return true
	}
	return false
}

func tabFits(tok string, t reflect.Type) bool {
	v := sdoc.TVal(tok)
	if v == nil {
		return tabNilable(t)
	}
	return reflect.TypeOf(v).AssignableTo(t)
}

func (g *tabGen) val(t reflect.Type) string {
	for {
		if tok := g.pick(tabToks); tabFits(tok, t) {
			return tok
		}
	}
}

func (g *tabGen) sig(firstCtx bool) (out []string, variadic bool) {
	ks := sortedKeys(sdoc.TTypes)
	for i := g.r.Intn(5); i > 0; i-- {
		k := g.pick(ks)
		if len(out) == 0 && k == "ctx" && !firstCtx {
			k = "int"
		}
		out = append(out, k)
	}
	return out, len(out) > 0 && g.p(.3)
}

// params picks values that fit a signature.
func (g *tabGen) params(sig []string, variadic bool) (out []string) {
	for i, s := range sig {
		if variadic && i == len(sig)-1 {
			for k := g.r.Intn(4); k > 0; k-- {
				out = append(out, g.val(sdoc.TTypes[s]))
			}
			continue
		}
		out = append(out, g.val(sdoc.TTypes[s]))
	}
	return
}

// tabFit checks values against a signature: "" or the kind of mismatch. odd is set where the documentation is silent: nil for a type without nil.
func tabFit(vals, sig []string, variadic bool) (msg string, odd bool) {
	limit := len(sig)
	if variadic {
		limit--
	}
	if len(vals) < limit {
		return "Too few parameters", false
	}
	if len(vals) > limit && !variadic {
		return "Too many parameters", false
	}
	for i, v := range vals {
		t := sdoc.TTypes[sig[min(i, len(sig)-1)]]
		if sdoc.TVal(v) == nil {
			odd = odd || !tabNilable(t)
		} else if !tabFits(v, t) {
			return "Incorrect parameters type", odd
		}
	}
	return "", odd
}

// tabRender describes what a function with this signature receives.
func tabRender(vals, sig []string, variadic bool) string {
	var out []string
	for i, tok := range vals {
		k := min(i, len(sig)-1)
		t := sdoc.TTypes[sig[k]]
		v := sdoc.TVal(tok)
		s := ""
		switch {
		case v == nil:
			s = sdoc.TRender(reflect.Zero(t))
		case t.Kind() == reflect.Interface:
			s = sdoc.TRender(reflect.ValueOf(v))
		default:
			s = sdoc.TRender(reflect.ValueOf(v).Convert(t))
		}
		if variadic && k == len(sig)-1 {
			s = "..." + s
		}
		out = append(out, s)
	}
	return strings.Join(out, "; ")
}

func (g *tabGen) decs(hasCtx, sub bool) (out []string) {
	ds := []string{"label=a", "label=b^c", "label=a^a", "label=", "suppress", "loc=3", "loc=9", "pending", "serial", "[ label=d pending ]", "[ label=e [ label=a ] ]", "offset=0"}
	if !sub {
		ds = append(ds, "pa=60000", "pi=60000", "[ pa=60000 label=q ]")
		if g.attempts != "" {
			ds = append(ds, g.attempts, g.attempts)
		}
		if hasCtx {
			ds = append(ds, "nt=60000", "st=60000", "grace=1000")
		}
	} else {
		ds = append(ds, "ordered")
	}
	if g.focus {
		ds = append(ds, "focus", "focus", "[ label=f focus ]")
	}
	for g.p(.35) {
		out = append(out, g.pick(ds))
	}
	return
}

func tabHas(toks []string, what string) bool {
	for _, t := range toks {
		for _, f := range strings.Fields(t) {
			if f == what {
				return true
			}
		}
	}
	return false
}

func (g *tabGen) entry(t *sdoc.Table, serialOK bool) *sdoc.TEntry {
	e := &sdoc.TEntry{ID: g.nid(), Via: "Entry"}
	if g.p(.25) {
		e.Via = g.pick([]string{"PEntry", "XEntry", "helper", "helper"})
		if g.focus && g.p(.4) {
			e.Via = "FEntry"
		}
	}
	sig, variadic := t.Sig, t.Var
	explicit := t.Ctx == "C" && (g.p(.25) || t.Sub)
	vals := g.params(sig, variadic)
	if !explicit && t.Ctx == "C" && len(vals) > 0 && vals[0][0] == 'x' {
		vals[0] = "n"
		if !tabFits("n", sdoc.TTypes[sig[0]]) {
			vals[0] = "i:1"
		}
	}
	if explicit {
		vals = append([]string{g.pick([]string{"x:1", "x:2"})}, vals...)
	}
	if g.p(.15) && (!t.Sub || g.p(.15)) { // mismatches (for a subtree the whole tree is rejected)
		for k := g.r.Intn(2); k >= 0; k-- {
			switch g.r.Intn(4) {
			case 0:
				if len(vals) > 0 {
					vals = vals[:len(vals)-1]
				}
			case 1:
				vals = append(vals, g.pick(tabToks))
			case 2:
				if len(vals) > 0 {
					vals[g.r.Intn(len(vals))] = g.pick(tabToks)
				}
			case 3:
				if len(vals) > 1 {
					i, j := g.r.Intn(len(vals)), g.r.Intn(len(vals))
					vals[i], vals[j] = vals[j], vals[i]
				}
			}
		}
	}
	e.DescK = "str"
	e.Desc = g.pick([]string{"plain", "50% of %d", "", "a b", "{x}", fmt.Sprint("no ", e.ID)})
	switch g.r.Intn(7) {
	case 0, 1, 2:
		e.DescK = "nil"
	case 3:
		e.DescK = "ed"
		e.Desc = g.pick([]string{"%v + %v", "%v", "%[2]v-%[1]v", "%T", "none", "%d%%", "%q %v %v"})
	case 4:
		e.DescK = "fn"
		e.Sig, e.Var = g.descSig(t, explicit)
	case 5:
		if g.p(.2) && (!t.Sub || g.p(.15)) {
			e.DescK = "int"
		}
	}
	hasCtx := tabCtx(t, vals)
	var decs []string
	for {
		decs = g.decs(hasCtx, t.Sub)
		if (e.Via == "FEntry" || tabHas(decs, "focus")) && (e.Via == "PEntry" || e.Via == "XEntry" || tabHas(decs, "pending")) || !serialOK && tabHas(decs, "serial") {
			continue
		}
		break
	}
	for _, v := range vals {
		e.Args = append(e.Args, "v:"+v)
	}
	for _, d := range decs {
		i := g.r.Intn(len(e.Args) + 1)
		e.Args = append(e.Args[:i:i], append([]string{"d:" + d}, e.Args[i:]...)...)
	}
	return e
}

// descSig is the signature of a description function: that of the body, a looser one, or another one.
func (g *tabGen) descSig(t *sdoc.Table, explicit bool) ([]string, bool) {
	sig := append([]string{}, t.Sig...)
	if explicit {
		sig = append([]string{"ctx"}, sig...)
	}
	switch g.r.Intn(6) {
	case 0:
		return []string{"any"}, true
	case 1:
		for i := range sig {
			if g.p(.5) {
				sig[i] = "any"
			}
		}
		return sig, t.Var
	case 2:
		if g.p(.3) {
			return g.sig(true)
		}
	}
	return sig, t.Var
}

// tabCtx says whether the body's context comes from Ginkgo.
func tabCtx(t *sdoc.Table, vals []string) bool {
	return t.Ctx == "S" || t.Ctx == "C" && !(len(vals) > 0 && vals[0][0] == 'x')
}

type tabShare struct {
	n   *sdoc.Node
	es  []*sdoc.TEntry
	ok  bool // no serial decorators
	top bool // at the top level (built before the tables in containers)
}

func (g *tabGen) table(shares *[]tabShare, serialOK, top bool) *sdoc.Node {
	t := &sdoc.Table{Via: "DescribeTable"}
	n := &sdoc.Node{ID: g.nid(), K: "table", Table: t}
	n.Text = fmt.Sprintf("T%d", n.ID)
	if g.p(.3) {
		t.Sub = true
		t.Via = "DescribeTableSubtree"
		t.Inner = 1 + g.r.Intn(2)
	}
	if g.p(.1) {
		t.Via = g.pick([]string{"P", "X"}) + t.Via
	} else if g.focus && g.p(.2) {
		t.Via = "F" + t.Via
	}
	switch g.r.Intn(5) {
	case 0:
		if !t.Sub {
			t.Ctx = "S"
		}
	case 1:
		t.Ctx = "C"
	}
	t.Sig, t.Var = g.sig(t.Ctx != "")
	t.Out = g.p(.1)
	var items []*sdoc.TItem
	ne := min(g.r.Intn(6), 4)
	var es []*sdoc.TEntry
	for ; ne > 0; ne-- {
		es = append(es, g.entry(t, serialOK))
	}
	shared := false
	for len(es) > 0 {
		if g.p(.5) {
			items = append(items, &sdoc.TItem{K: "entry", Entries: es[:1]})
			es = es[1:]
			continue
		}
		k := 1 + g.r.Intn(len(es))
		it := &sdoc.TItem{K: "entries", Tok: "poison", Entries: es[:k]}
		if !shared && g.p(.5) {
			it.Tok = ""
			shared = true
			*shares = append(*shares, tabShare{n, es[:k], !serialOK, top})
		}
		items = append(items, it)
		es = es[k:]
	}
	for _, s := range *shares {
		if s.n != n && s.n.Table.Sub == t.Sub && s.n.Table.Ctx == t.Ctx && g.p(.5) && (serialOK || s.ok) && (s.top || !top) {
			t.Sig, t.Var = s.n.Table.Sig, s.n.Table.Var
			items = append(items, &sdoc.TItem{K: "share", From: s.n.ID})
			break
		}
	}
	if len(items) == 0 && g.p(.9) {
		items = append(items, &sdoc.TItem{K: "entries", Tok: "poison"})
	}
	switch g.r.Intn(4) {
	case 0:
		items = append(items, &sdoc.TItem{K: "ed", Tok: g.pick([]string{"%v is %v", "%v", "no verbs", "%[1]v%[1]v"})})
	case 1:
		it := &sdoc.TItem{K: "fn"}
		it.Sig, it.Var = g.descSig(t, false)
		items = append(items, it)
	}
	items = append(items, &sdoc.TItem{K: "body"})
	for g.p(.25) {
		ds := []string{"label=t", "label=t^u", "loc=20", "suppress", "[ label=w ]"}
		if serialOK {
			ds = append(ds, "serial")
		}
		if g.focus && t.Via[0] == 'D' {
			ds = append(ds, "focus")
		}
		items = append(items, &sdoc.TItem{K: "dec", Tok: g.pick(ds)})
	}
	g.r.Shuffle(len(items), func(i, j int) { items[i], items[j] = items[j], items[i] })
	if len(items) == 1 { // (with a single argument the variants of DescribeTable differ)
		t.Via = strings.TrimLeft(t.Via, "FPX")
	}
	t.Items = items
	return n
}

func (g *tabGen) suite() *sdoc.Suite {
	s := &sdoc.Suite{Desc: "tables"}
	g.focus = g.p(.15)
	g.attempts = g.pick([]string{"", "must=2", "must=3", "flake=2"})
	var shares []tabShare
	for i := 1 + g.r.Intn(4); i > 0; i-- {
		if g.p(.5) {
			s.Top = append(s.Top, g.table(&shares, true, true))
			continue
		}
		c := &sdoc.Node{ID: g.nid(), K: "container", Via: "Describe", Raw: []string{"b"}}
		c.Text = fmt.Sprintf("C%d", c.ID)
		ord := g.p(.3)
		if ord {
			c.Raw = append(c.Raw, "ordered")
		} else if g.focus && g.p(.2) {
			c.Raw = append(c.Raw, "focus")
		}
		for k := 1 + g.r.Intn(2); k > 0; k-- {
			c.Kids = append(c.Kids, g.table(&shares, !ord, false))
		}
		if g.p(.3) {
			c.Kids = append(c.Kids, &sdoc.Node{ID: g.nid(), K: "BeforeEach", Via: "BeforeEach", Raw: []string{"b"}})
		}
		s.Top = append(s.Top, c)
	}
	return s
}

// ---------------------------------------------------------------- expectation

type tabSpec struct {
	Hier   []string // texts down to the table, the entry's text for subtrees, the leaf's text; "*" matches anything
	Labels []string // of the entry
	Loc    string   // of the entry
	State  string
	Fail   string // heading of the message
	Kind   string
	Args   string
	N      int // attempts
	Odd    bool

	table   *sdoc.Node
	entry   *sdoc.TEntry
	focused bool
}

type tabExpect struct {
	specs   []*tabSpec
	reject  []string // the tree is rejected; the message points at one of these
	why     string
	locs    map[int]int
	focused bool
}

func (x *tabExpect) loc(id int, decs []string) string {
	l := fmt.Sprintf("table_test.go:%d", x.locs[id])
	for _, d := range decs {
		for _, f := range strings.Fields(d) {
			if v, ok := strings.CutPrefix(f, "loc="); ok {
				l = "raw.go:" + v
			} else if strings.HasPrefix(f, "offset=") {
				l = ""
			}
		}
	}
	return l
}

func tabLabels(decs []string) (out []string) {
	seen := map[string]bool{}
	add := func(l string) {
		if !seen[l] {
			seen[l] = true
			out = append(out, l)
		}
	}
	for _, d := range decs {
		for _, f := range strings.Fields(d) {
			if v, ok := strings.CutPrefix(f, "label="); ok && v != "" {
				for _, l := range strings.Split(v, "^") {
					add(l)
				}
			}
			if f == "serial" {
				add("Serial")
			}
		}
	}
	return
}

// table adds the specs of a table and says whether it is focused or has something focused in it.
func (x *tabExpect) table(n *sdoc.Node, anc []*sdoc.Node, shares map[int]*sdoc.Node) bool {
	t := n.Table
	var es []*sdoc.TEntry
	var tdecs []string
	var desc *sdoc.TItem
	bodies := 0
	for _, it := range t.Items {
		switch it.K {
		case "entry", "entries":
			es = append(es, it.Entries...)
		case "share":
			for _, o := range shares[it.From].Table.Items {
				if o.K == "entries" && o.Tok == "" {
					es = append(es, o.Entries...)
				}
			}
		case "dec":
			tdecs = append(tdecs, it.Tok)
		case "ed", "fn":
			desc = it
		case "body":
			bodies++
		case "nil", "int":
			x.reject = append(x.reject, x.loc(n.ID, tdecs))
			x.why = "table is passed " + it.K
		}
	}
	tloc := x.loc(n.ID, tdecs)
	if len(x.reject) > 0 {
		x.reject = append(x.reject, tloc, x.loc(n.ID, nil))
	}
	if len(t.Items) == 1 && t.Via[0] == 'D' {
		x.reject = append(x.reject, tloc, x.loc(n.ID, nil))
		x.why = "table with a single argument"
	}
	if bodies > 1 || bodies == 0 && len(es) > 0 {
		x.reject = append(x.reject, tloc, x.loc(n.ID, nil))
		x.why = fmt.Sprint("table with ", bodies, " bodies")
	}
	if t.Via[0] == 'F' && tabHas(tdecs, "pending") {
		x.reject = append(x.reject, tloc, x.loc(n.ID, nil))
		x.why = "focused and pending table"
	}
	if len(x.reject) > 0 {
		return false
	}
	pend := t.Via[0] == 'P' || t.Via[0] == 'X' || tabHas(tdecs, "pending")
	foc := t.Via[0] == 'F' || tabHas(tdecs, "focus")
	var hier []string
	for _, a := range anc {
		hier = append(hier, a.Text)
	}
	hier = append(hier, n.Text)
	for _, e := range es {
		sp := &tabSpec{table: n, entry: e, State: "passed", N: 1}
		var vals, decs []string
		for _, a := range e.Args {
			if v, ok := strings.CutPrefix(a, "v:"); ok {
				vals = append(vals, v)
			} else {
				decs = append(decs, strings.TrimPrefix(a, "d:"))
			}
		}
		var raw []any
		opaque := false
		for _, v := range vals {
			raw = append(raw, sdoc.TVal(v))
			opaque = opaque || strings.HasPrefix(v, "fn") || strings.HasPrefix(v, "c:") || strings.HasPrefix(v, "x")
		}
		// the text
		text := ""
		fn := func(sig []string, variadic bool) {
			msg, odd := tabFit(vals, sig, variadic)
			sp.Odd = sp.Odd || odd
			if msg != "" {
				sp.Fail, sp.Kind, text = msg, "Entry Description function", "*"
				return
			}
			text = "D<" + tabRender(vals, sig, variadic) + ">"
		}
		ed := func(f string) {
			text = fmt.Sprintf(f, raw...)
			if opaque {
				text = "*"
			}
		}
		switch {
		case e.DescK == "str":
			text = e.Desc
		case e.DescK == "ed":
			ed(e.Desc)
		case e.DescK == "fn":
			fn(e.Sig, e.Var)
		case e.DescK == "int":
			sp.Fail, sp.Kind, text = "Invalid Entry description", "", "*"
		case desc == nil:
			var ps []string
			for _, r := range raw {
				ps = append(ps, fmt.Sprint(r))
			}
			text = "Entry: " + strings.Join(ps, ", ")
			if opaque {
				text = "*"
			}
		case desc.K == "ed":
			ed(desc.Tok)
		default:
			fn(desc.Sig, desc.Var)
		}
		// the parameters
		sig := t.Sig
		hasCtx := tabCtx(t, vals)
		if t.Ctx == "C" && !hasCtx {
			sig = append([]string{"ctx"}, sig...)
		}
		msg, odd := tabFit(vals, sig, t.Var)
		sp.Odd = sp.Odd || odd
		if msg != "" && sp.Fail == "" {
			sp.Fail, sp.Kind = msg, "Table Body function"
		}
		if sp.Fail == "" {
			if t.Ctx != "" {
				if hasCtx {
					sp.Args = "SpecContext| " + tabRender(vals, sig, t.Var)
				} else {
					sp.Args = tabRender(vals[:1], sig, false) + "| " + tabRender(vals[1:], sig[1:], t.Var)
				}
			} else {
				sp.Args = tabRender(vals, sig, t.Var)
			}
		}
		sp.Labels = tabLabels(decs)
		sp.Loc = x.loc(e.ID, decs)
		if !hasCtx && (tabHas(decs, "nt=60000") || tabHas(decs, "st=60000") || tabHas(decs, "grace=1000")) {
			x.reject = append(x.reject, sp.Loc)
			x.why = "timeout without a context"
			return false
		}
		if t.Sub && (hasCtx || sp.Fail != "") {
			// the specs of such an entry cannot be made
			x.reject = append(x.reject, sp.Loc, tloc, x.loc(n.ID, nil), x.loc(e.ID, nil))
			x.why = "subtree " + sp.Fail
			return false
		}
		if pend || e.Via == "PEntry" || e.Via == "XEntry" || tabHas(decs, "pending") {
			sp.State = "pending"
			sp.N = 0
		}
		efoc := e.Via == "FEntry" || tabHas(decs, "focus")
		sp.focused = efoc
		if sp.State == "passed" && sp.Fail != "" {
			sp.State = "panicked"
		}
		if sp.State == "passed" {
			for _, k := range []int{2, 3} {
				if tabHas(decs, fmt.Sprint("must=", k)) {
					sp.N = k
				}
			}
		}
		if sp.State == "panicked" && tabHas(decs, "flake=2") {
			sp.N = 2
		}
		if t.Sub {
			for k := 0; k < t.Inner; k++ {
				c := *sp
				c.Hier = append(append([]string{}, hier...), text, fmt.Sprint("inner", k))
				x.specs = append(x.specs, &c)
			}
		} else {
			sp.Hier = append(append([]string{}, hier...), text)
			x.specs = append(x.specs, sp)
		}
	}
	// a focused container that contains something focused is not focused itself; what is pending does not count
	any := false
	for _, sp := range x.specs {
		any = any || sp.table == n && sp.focused && sp.State != "pending"
	}
	if foc && !any {
		for _, sp := range x.specs {
			if sp.table == n {
				sp.focused = true
			}
		}
	}
	return (foc || any) && !pend
}

func tabExpectation(s *sdoc.Suite, locs map[int]int) *tabExpect {
	x := &tabExpect{locs: locs}
	shares := map[int]*sdoc.Node{}
	for _, n := range s.Top {
		shares[n.ID] = n
		for _, k := range n.Kids {
			shares[k.ID] = k
		}
	}
	// the arguments of tables at the top level are looked at before any container is entered, but rejections are rare enough to accept any of them
	for _, n := range s.Top {
		if n.Table != nil {
			x.table(n, nil, shares)
			continue
		}
		any := false
		for _, k := range n.Kids {
			if k.Table != nil && x.table(k, []*sdoc.Node{n}, shares) {
				any = true
			}
		}
		if illHas(n, "focus") {
			for _, sp := range x.specs {
				if sp.Hier[0] == n.Text && !any {
					sp.focused = true
				}
			}
		}
	}
	for _, sp := range x.specs {
		x.focused = x.focused || sp.focused && sp.State != "pending"
	}
	if x.focused {
		for _, sp := range x.specs {
			if !sp.focused && sp.State != "pending" {
				sp.State, sp.Fail, sp.N = "skipped", "", 0
			}
		}
	}
	// the rest of an ordered container is skipped after a failure
	return x
}

// ---------------------------------------------------------------- observation

type tabSeen struct {
	Hier   []string
	Labels []string
	Loc    string
	State  string
	Msg    string
	Args   string
	N      int
	used   bool
}

func base(p string) string { return p[strings.LastIndexByte(p, '/')+1:] }

func tabMatch(sp *tabSpec, o *tabSeen) bool {
	if len(sp.Hier) != len(o.Hier) {
		return false
	}
	for i := range sp.Hier {
		if sp.Hier[i] != "*" && sp.Hier[i] != o.Hier[i] {
			return false
		}
	}
	return strings.Join(sp.Labels, "^") == strings.Join(o.Labels, "^") && (sp.Loc == "" || sp.Loc == o.Loc)
}

// tabPair matches expectations with observations one to one; ok decides whether two belong together.
func tabPair(specs []*tabSpec, seen []*tabSeen, ok func(*tabSpec, *tabSeen) bool) (lost []*tabSpec, extra []*tabSeen) {
	match := make([]int, len(seen))
	for i := range match {
		match[i] = -1
	}
	var try func(i int, vis []bool) bool
	try = func(i int, vis []bool) bool {
		for j, o := range seen {
			if !vis[j] && ok(specs[i], o) {
				vis[j] = true
				if match[j] < 0 || try(match[j], vis) {
					match[j] = i
					return true
				}
			}
		}
		return false
	}
	for i := range specs {
		if !try(i, make([]bool, len(seen))) {
			lost = append(lost, specs[i])
		}
	}
	for j, m := range match {
		if m < 0 {
			extra = append(extra, seen[j])
		}
	}
	return
}

func tablesCase(c *Ctx, i int) {
	g := &tabGen{illGen: illGen{r: rng("C24", i)}}
	s := g.suite()
	what := ""
	if g.p(.12) { // something wrong with a whole table
		var ts []*sdoc.Node
		for _, n := range s.Top {
			if n.Table != nil {
				ts = append(ts, n)
			}
			for _, k := range n.Kids {
				if k.Table != nil {
					ts = append(ts, k)
				}
			}
		}
		t := ts[g.r.Intn(len(ts))].Table
		what = g.pick([]string{"nil", "int", "body", "no body"})
		if what == "no body" {
			var kept []*sdoc.TItem
			for _, it := range t.Items {
				if it.K != "body" {
					kept = append(kept, it)
				}
			}
			t.Items = kept
		} else {
			t.Items = append(t.Items, &sdoc.TItem{K: what})
			g.r.Shuffle(len(t.Items), func(i, j int) { t.Items[i], t.Items[j] = t.Items[j], t.Items[i] })
		}
	}
	o := RunOpts{Args: []string{fmt.Sprint("seed=", 1+g.r.Intn(1000))}}
	if g.p(.3) {
		o.Args = append(o.Args, "randomize-all")
	}
	if g.p(.03) {
		o.CLI, o.Procs = true, 3
	}
	run := c.runRetry(s, o)
	defer run.Clean()
	var ds diffs
	locs := map[int]int{}
	var calls []*tabSeen
	bodies := 0
	for _, e := range run.Events {
		switch e.E {
		case "at":
			locs[e.N] = e.Ln
		case "enter":
			bodies++
		case "tbl":
			bodies++
			var r struct {
				Leaf, Loc, Args string
				LL, Hier, HLoc  []string
				HL              [][]string
			}
			if err := json.Unmarshal([]byte(e.X), &r); err != nil {
				fatal("event %s: %v", e.X, err)
			}
			t := &tabSeen{Hier: append(r.Hier, r.Leaf), Labels: r.LL, Loc: base(r.Loc), Args: r.Args, N: e.Att}
			if strings.HasPrefix(r.Leaf, "inner") && len(r.HL) > 0 {
				t.Labels, t.Loc = r.HL[len(r.HL)-1], base(r.HLoc[len(r.HLoc)-1])
			}
			calls = append(calls, t)
		}
	}
	x := tabExpectation(s, locs)
	out := illANSI.ReplaceAllString(run.Res.Out, "") + "\n"
	kind := "ran"
	switch {
	case run.Res.TimedOut:
		ds.add("hang", "the suite did not finish")
	case len(x.reject) > 0: // either location will do where a decorator gives the table another one
		kind = "rejected"
		if run.Res.Exit != 1 || bodies > 0 || strings.Contains(out, "\ngoroutine ") {
			ds.add("reject", "%s: exit %d, %d bodies ran", x.why, run.Res.Exit, bodies)
		}
		ok := false
		for _, l := range x.reject {
			ok = ok || strings.Contains(out, l+"\n")
		}
		if !ok {
			ds.add("reject", "%s: no message points at one of %q", x.why, x.reject)
		}
	case run.Report == nil:
		ds.add("report", "no report: exit %d\n%s", run.Res.Exit, trunc(run.Res.Out, 1500))
	default:
		tabCompare(c, &ds, s, x, run, calls)
	}
	c.Count("suites "+kind, 1)
	if kind == "rejected" {
		c.Count("rejected: "+strings.TrimSuffix(x.why, " "), 1)
	}
	sig := what + kind
	for _, sp := range x.specs {
		sig += sp.State[:2] + sp.Fail + sp.entry.DescK + fmt.Sprint(sp.table.Table.Sig, sp.table.Table.Var, sp.table.Table.Ctx)
		c.Count("expected "+sp.State+" "+sp.Fail, 1)
		c.Count("description "+sp.entry.DescK, 1)
		for _, a := range sp.entry.Args {
			k, _, _ := strings.Cut(a, ":")
			c.Count(map[string]string{"v": "parameters", "d": "decorators"}[k], 1)
		}
	}
	c.Count("calls observed", len(calls))
	c.Eval(sigHash(sig))
	if i < 3 {
		c.Sample(map[string]any{"case": i, "specs": len(x.specs), "calls": len(calls), "exit": run.Res.Exit})
	}
	if len(ds.d) > 0 {
		var l []string
		for _, d := range ds.d {
			l = append(l, d.Cat+": "+d.Msg)
		}
		c.Fail("", fmt.Sprintf("case %d (args %v, procs %d, %s):\n%s", i, o.Args, o.Procs, what, strings.Join(l, "\n")), run.Files())
	}
}

func (sp *tabSpec) String() string {
	return fmt.Sprintf("%q labels %v at %s: %s %s args %q (entry %d)", sp.Hier, sp.Labels, sp.Loc, sp.State, sp.Fail, sp.Args, sp.entry.ID)
}

func (o *tabSeen) String() string {
	return fmt.Sprintf("%q labels %v at %s: %s %s args %q", o.Hier, o.Labels, o.Loc, o.State, trunc(o.Msg, 200), o.Args)
}

func tabCompare(c *Ctx, ds *diffs, s *sdoc.Suite, x *tabExpect, run *SuiteRun, calls []*tabSeen) {
	ordered := map[string]bool{}
	for _, n := range s.Top {
		if n.K == "container" && illHas(n, "ordered") {
			ordered[n.Text] = true
		}
	}
	var got []*tabSeen
	for _, r := range run.Report.SpecReports {
		if r.LeafNodeType != "It" {
			continue
		}
		t := &tabSeen{Hier: append(append([]string{}, r.ContainerHierarchyTexts...), r.LeafNodeText), Labels: r.LeafNodeLabels,
			Loc: fmt.Sprintf("%s:%d", base(r.LeafNodeLocation.FileName), r.LeafNodeLocation.LineNumber), State: r.State, N: r.NumAttempts}
		if strings.HasPrefix(r.LeafNodeText, "inner") && len(r.ContainerHierarchyLabels) > 0 {
			l := r.ContainerHierarchyLocations[len(r.ContainerHierarchyLocations)-1]
			t.Labels, t.Loc = r.ContainerHierarchyLabels[len(r.ContainerHierarchyLabels)-1], fmt.Sprintf("%s:%d", base(l.FileName), l.LineNumber)
		}
		if r.Failure != nil {
			t.Msg = r.Failure.Message + r.Failure.ForwardedPanic
		}
		got = append(got, t)
	}
	failed, odd := false, false
	afterFailure := func(sp *tabSpec, o *tabSeen) bool { // in an ordered container the failure of one spec skips those after it
		return ordered[sp.Hier[0]] && o.State == "skipped" && (sp.State == "passed" || sp.State == "panicked")
	}
	for _, sp := range x.specs {
		failed = failed || sp.State == "panicked"
		odd = odd || sp.Odd
	}
	match := func(sp *tabSpec, o *tabSeen) bool {
		if !tabMatch(sp, o) {
			return false
		}
		if sp.Odd && (o.State == "passed" || o.State == "panicked") || afterFailure(sp, o) && failed {
			return true
		}
		if o.State != sp.State || o.N != sp.N {
			return false
		}
		if sp.Fail != "" && sp.State == "panicked" {
			m := illANSI.ReplaceAllString(o.Msg, "")
			h := sp.Fail
			if sp.Kind != "" {
				h += " passed in to " + sp.Kind
				if strings.HasPrefix(sp.Fail, "Incorrect") {
					h = sp.Fail + " passed to " + sp.Kind
				}
			}
			own := fmt.Sprintf("table_test.go:%d\n", x.locs[sp.entry.ID])
			return strings.Contains(m, h) && strings.Contains(m, own)
		}
		return true
	}
	lost, extra := tabPair(x.specs, got, match)
	for _, sp := range lost {
		ds.add("spec", "no spec reported for %v", sp)
	}
	for _, o := range extra {
		ds.add("spec", "unexpected spec reported: %v", o)
	}
	// every attempt of every spec that ran, with its arguments
	var want []*tabSpec
	skipped := map[string]int{}
	for _, o := range got {
		if o.State == "skipped" && ordered[o.Hier[0]] {
			skipped[o.Hier[0]]++
		}
	}
	opt := map[string]bool{}
	if failed || odd {
		for k := range ordered {
			opt[k] = skipped[k] > 0
		}
	}
	for _, sp := range x.specs {
		if sp.State == "passed" && !sp.Odd && !opt[sp.Hier[0]] {
			for k := 0; k < sp.N; k++ {
				want = append(want, sp)
			}
		}
	}
	var sure []*tabSeen
	for _, o := range calls {
		loose := opt[o.Hier[0]]
		for _, sp := range x.specs {
			loose = loose || sp.Odd && tabMatch(sp, o)
		}
		if !loose {
			sure = append(sure, o)
		} else if opt[o.Hier[0]] { // which of them ran is not predicted, but each has to be one of them
			ok := false
			for _, sp := range x.specs {
				ok = ok || tabMatch(sp, o) && (sp.Odd || sp.Fail == "" && sp.State == "passed" && sp.Args == o.Args)
			}
			if !ok {
				ds.add("call", "unexpected call: %v", o)
			}
		}
	}
	var firm []*tabSpec
	for _, sp := range want {
		loose := false
		for _, q := range x.specs { // indistinguishable from a doubtful one
			loose = loose || q.Odd && strings.Join(q.Hier[:len(q.Hier)-1], "^") == strings.Join(sp.Hier[:len(sp.Hier)-1], "^")
		}
		if !loose {
			firm = append(firm, sp)
		}
	}
	if odd {
		var kept []*tabSeen
		for _, o := range sure {
			loose := false
			for _, q := range x.specs {
				loose = loose || q.Odd && strings.Join(q.Hier[:len(q.Hier)-1], "^") == strings.Join(o.Hier[:len(o.Hier)-1], "^")
			}
			if !loose {
				kept = append(kept, o)
			}
		}
		sure = kept
	}
	lost, extra = tabPair(firm, sure, func(sp *tabSpec, o *tabSeen) bool { return tabMatch(sp, o) && sp.Args == o.Args })
	for _, sp := range lost {
		ds.add("call", "body not called for %v", sp)
	}
	for _, o := range extra {
		ds.add("call", "unexpected call: %v", o)
	}
	exit := 0
	if failed {
		exit = 1
	} else if x.focused {
		exit = 197
	}
	if !odd && run.Res.Exit != exit {
		ds.add("exit", "exit %d, want %d", run.Res.Exit, exit)
	}
	sort.Slice(ds.d, func(i, j int) bool { return ds.d[i].Cat < ds.d[j].Cat })
}

func init() {
	checks["C24"] = Check{Level: "exploration", Rule: "a case counts as distinct by the hash of the signatures, description forms, mismatches and states of its entries",
		Run: func(c *Ctx) { parallelDo(N(7000, 100000), workers(), func(i int) { tablesCase(c, i) }) }}
}

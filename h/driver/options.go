package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/onsi/ginkgo/v2/internal/zzverif/sdoc"
)

// The options as the documentation lists them: name, type, and the place in the test process where its value must arrive.
type optDef struct {
	name, old string
	typ       string // bool int dur str list
	key       string // S.Field, R.Field, Go.flag
	gen       func(r *rand.Rand) string
}

var hostileOpts = []string{"", " ", "a b", "a,b", "x=y", "=", `say "hi"`, "it's", `back\slash`, "$HOME", "`id`", "-dash", "--v", "%d %s", "{{red}}", "日本 語", "tab\there", "new\nline", "a;b|c&d", "*?[x]", "~", "#1", "true", "0", "trailing ", " leading", "a  b", "a:b", "(x)", "λ", "<&>", "!"}

func optText(r *rand.Rand) string {
	if r.Intn(3) > 0 {
		return hostileOpts[r.Intn(len(hostileOpts))]
	}
	var b strings.Builder
	for i := 0; i < 1+r.Intn(4); i++ {
		b.WriteString(hostileOpts[r.Intn(len(hostileOpts))])
		if r.Intn(2) == 0 {
			fmt.Fprint(&b, r.Intn(100))
		}
	}
	return b.String()
}

func genRegex(r *rand.Rand) string {
	switch r.Intn(4) {
	case 0:
		return []string{"^S[0-9]+ x$", "a|b", ".*", "(?i)FOO", `\d{2,3}`, "[^a-z ]+", "x=y|p,q", `"q"`, "S1 "}[r.Intn(9)]
	default:
		return regexp.QuoteMeta(optText(r))
	}
}

func genFileFilter(r *rand.Rand) string {
	f := strings.ReplaceAll(genRegex(r), ":", "_")
	switch r.Intn(4) {
	case 0:
		f += fmt.Sprintf(":%d", r.Intn(50))
	case 1:
		f += fmt.Sprintf(":%d-%d", r.Intn(5), 5+r.Intn(50))
	case 2:
		f += fmt.Sprintf(":%d,%d-%d, %d", r.Intn(5), r.Intn(5), 5+r.Intn(50), r.Intn(99))
	}
	if f == "" {
		f = "x"
	}
	return f
}

func genDur(r *rand.Rand) string {
	return []string{"1s", "90s", "1h2m3.5s", "1500ms", "25h", "0.5h", "+3m", "1m0s", "100h", "123456789ns", "7µs", "2h45m"}[r.Intn(12)]
}

func genInt(r *rand.Rand) string {
	return []string{"1", "2", "007", "0x10", "+5", "1_000", "0b11", "42", "0o17", "0"}[r.Intn(10)]
}

func oneOf(l ...string) func(*rand.Rand) string {
	return func(r *rand.Rand) string { return l[r.Intn(len(l))] }
}

func genName(ext string) func(*rand.Rand) string {
	return func(r *rand.Rand) string {
		return []string{"out", "o p", "x=y", "a,b", `q"q`, "日本", "it's", "-d", "100%"}[r.Intn(9)] + ext
	}
}

var genLabelFilter = oneOf("cat", "(cat || dog) && !fruit", "/^a.*b$/", "a, b", "key: isSubsetOf {x, y}", "key:containsAny z", "!x&&y", " spaced ", `a"b`, "it's", "x=y", "日本 || λ")

var optDefs = []optDef{
	{"seed", "", "int64", "S.RandomSeed", oneOf("0", "1", "-5", "1234567890123", "0x7f", "+9")},
	{"randomize-all", "randomizeAllSpecs", "bool", "S.RandomizeAllSpecs", nil},
	{"fail-on-pending", "failOnPending", "bool", "S.FailOnPending", nil},
	{"fail-fast", "failFast", "bool", "S.FailFast", nil},
	{"flake-attempts", "flakeAttempts", "int", "S.FlakeAttempts", genInt},
	{"fail-on-empty", "", "bool", "S.FailOnEmpty", nil},
	{"dry-run", "dryRun", "bool", "S.DryRun", nil},
	{"poll-progress-after", "", "dur", "S.PollProgressAfter", genDur},
	{"poll-progress-interval", "", "dur", "S.PollProgressInterval", genDur},
	{"source-root", "", "list", "S.SourceRoots", optText},
	{"timeout", "", "dur", "S.Timeout", func(r *rand.Rand) string { return []string{"100h", "10m", "1h30m", "5m0.5s", "0", "0s"}[r.Intn(6)] }},
	{"grace-period", "", "dur", "S.GracePeriod", genDur},
	{"output-interceptor-mode", "", "str", "S.OutputInterceptorMode", oneOf("dup", "swap", "none", "DUP", "Swap", "NONE", "")},
	{"label-filter", "", "str", "S.LabelFilter", genLabelFilter},
	{"focus", "", "list", "S.FocusStrings", genRegex},
	{"skip", "", "list", "S.SkipStrings", genRegex},
	{"focus-file", "", "list", "S.FocusFiles", genFileFilter},
	{"skip-file", "", "list", "S.SkipFiles", genFileFilter},

	{"no-color", "noColor", "bool", "R.NoColor", nil},
	{"v", "", "bool", "R.Verbose", nil},
	{"vv", "", "bool", "R.VeryVerbose", nil},
	{"succinct", "", "bool", "R.Succinct", nil},
	{"trace", "", "bool", "R.FullTrace", nil},
	{"show-node-events", "", "bool", "R.ShowNodeEvents", nil},
	{"github-output", "", "bool", "R.GithubOutput", nil},
	{"silence-skips", "", "bool", "R.SilenceSkips", nil},
	{"force-newlines", "", "bool", "R.ForceNewlines", nil},
	{"json-report", "", "str", "R.JSONReport", genName(".json")},
	{"junit-report", "reportFile", "str", "R.JUnitReport", genName(".xml")},
	{"teamcity-report", "", "str", "R.TeamcityReport", genName(".tc")},

	{"blockprofile", "", "str", "Go.test.blockprofile", genName(".prof")},
	{"blockprofilerate", "", "int", "Go.test.blockprofilerate", oneOf("1", "7", "1000", "0")},
	{"cpuprofile", "", "str", "Go.test.cpuprofile", genName(".cpu")},
	{"memprofile", "", "str", "Go.test.memprofile", genName(".mem")},
	{"memprofilerate", "", "int", "Go.test.memprofilerate", oneOf("1", "512", "4096")},
	{"mutexprofile", "", "str", "Go.test.mutexprofile", genName(".mtx")},
	{"execution-trace", "", "str", "Go.test.trace", genName(".trace")},
	{"mutexprofilefraction", "", "int", "Go.test.mutexprofilefraction", oneOf("1", "3", "10", "0")},
}

// deprecated options without a replacement: they change nothing
var deadOpts = []string{"--regexScansFilePath", "--debug", "--progress", "--slowSpecThreshold=5.5", "--noisyPendings", "--noisySkippings", "--slow-spec-threshold=3s", "--always-emit-ginkgo-writer"}

type optVal struct {
	def  *optDef
	vals []string
}

// spell gives one of the ways to write an option.
func spell(r *rand.Rand, name, val string, isBool bool, prefix string) []string {
	d := "--" + prefix
	if r.Intn(3) == 0 {
		d = "-" + prefix
	}
	if isBool {
		if val == "" {
			return []string{d + name}
		}
		return []string{d + name + "=" + val}
	}
	if r.Intn(2) == 0 {
		return []string{d + name, val}
	}
	return []string{d + name + "=" + val}
}

func genOptions(r *rand.Rand, parallel bool) ([]optVal, bool) {
	var out []optVal
	verb := false
	for k := range optDefs {
		d := &optDefs[k]
		if r.Float64() > .25 || d.name == "dry-run" && parallel {
			continue
		}
		if parallel && (strings.HasSuffix(d.name, "profile") || d.name == "execution-trace") && r.Intn(4) > 0 {
			continue
		}
		if d.name == "v" || d.name == "vv" || d.name == "succinct" {
			if verb {
				continue
			}
			verb = true
		}
		v := optVal{def: d}
		n := 1
		if d.typ == "list" {
			n = 1 + r.Intn(3)
		} else if r.Intn(10) == 0 {
			n = 2
		}
		for i := 0; i < n; i++ {
			if d.typ == "bool" {
				v.vals = append(v.vals, []string{"", "", "", "true", "TRUE", "1", "t", "false", "0", "F"}[r.Intn(10)])
			} else {
				v.vals = append(v.vals, d.gen(r))
			}
		}
		out = append(out, v)
	}
	return out, verb
}

func asBool(s string) bool {
	if s == "" {
		return true
	}
	b, _ := strconv.ParseBool(s)
	return b
}

// expected value, in the form in which JSON delivers it
func (v optVal) want() any {
	last := v.vals[len(v.vals)-1]
	switch v.def.typ {
	case "bool":
		return asBool(last)
	case "int", "int64":
		n, err := strconv.ParseInt(last, 0, 64)
		if err != nil {
			fatal("%v", err)
		}
		return n
	case "dur":
		d, err := time.ParseDuration(last)
		if err != nil {
			fatal("%v", err)
		}
		return int64(d)
	case "list":
		return v.vals
	}
	return last
}

type optSeen struct {
	S, R map[string]json.RawMessage
	Args []string
	OS   []string
	Go   map[string]string
}

func decodeRaw(m json.RawMessage) any {
	var v any
	d := json.NewDecoder(strings.NewReader(string(m)))
	d.UseNumber()
	d.Decode(&v)
	if n, ok := v.(json.Number); ok {
		i, _ := n.Int64()
		return i
	}
	if l, ok := v.([]any); ok {
		out := []string{}
		for _, x := range l {
			out = append(out, fmt.Sprint(x))
		}
		return out
	}
	return v
}

func optSuite() *sdoc.Suite {
	return &sdoc.Suite{Desc: "options", Top: []*sdoc.Node{{ID: 1, K: "it", Text: "S1 x", Loc: sdoc.Loc{F: "/synthetic/o.go", L: 3}}, {ID: 2, K: "it", Text: "S2 y", Loc: sdoc.Loc{F: "/synthetic/o.go", L: 4}}}}
}

var defaultsS = map[string]any{"RandomizeAllSpecs": false, "FocusStrings": nil, "SkipStrings": nil, "FocusFiles": nil, "SkipFiles": nil, "LabelFilter": "", "FailOnPending": false, "FailOnEmpty": false, "FailFast": false, "FlakeAttempts": int64(0), "MustPassRepeatedly": int64(0), "DryRun": false, "PollProgressAfter": int64(0), "PollProgressInterval": int64(0), "OutputInterceptorMode": "", "SourceRoots": nil, "GracePeriod": int64(30 * time.Second)}
var defaultsR = map[string]any{"NoColor": false, "Succinct": false, "Verbose": false, "VeryVerbose": false, "FullTrace": false, "ShowNodeEvents": false, "GithubOutput": false, "SilenceSkips": false, "ForceNewlines": false, "JSONReport": "", "JUnitReport": "", "TeamcityReport": ""}

func checkOptions(c *Ctx) {
	parallelDo(N(1300, 12000), workers(), func(i int) {
		if *flagOnly < 1000000 && c.NViol() < 5 {
			optionsCase(c, i)
		}
	})
	parallelDo(N(800, 8000), workers(), func(i int) {
		if *flagOnly >= 1000000 && *flagOnly < 2000000 {
			buildCase(c, i-1000000)
		} else if *flagOnly < 0 && c.NViol() < 5 {
			buildCase(c, i)
		}
	})
	parallelDo(N(500, 4000), workers(), func(i int) {
		if *flagOnly >= 2000000 {
			invalidCase(c, i-2000000)
		} else if *flagOnly < 0 && c.NViol() < 5 {
			invalidCase(c, i)
		}
	})
}

// optionsCase: every option reaches every test process with the value given.
func optionsCase(c *Ctx, i int) {
	r := rng("C22", i)
	mode := []string{"cli", "cli", "parallel", "parallel", "direct"}[r.Intn(5)]
	procs := 1
	if mode == "parallel" {
		procs = 2 + r.Intn(3)
	}
	opts, _ := genOptions(r, mode == "parallel")
	var words [][]string
	want := map[string]optVal{}
	pre := ""
	if mode == "direct" {
		pre = "ginkgo."
	}
	for _, o := range opts {
		p := pre
		name := o.def.name
		if strings.HasPrefix(o.def.key, "Go.") && mode == "direct" {
			continue // go's own flags; not ginkgo's business
		}
		if mode != "cli" && mode != "parallel" && strings.HasPrefix(o.def.key, "Go.") {
			continue
		}
		want[o.def.key] = o
		var ws []string
		for _, v := range o.vals {
			n := name
			if o.def.old != "" && r.Intn(4) == 0 {
				n = o.def.old
			}
			ws = append(ws, spell(r, n, v, o.def.typ == "bool", p)...)
			if o.def.typ != "list" || r.Intn(2) == 0 {
				words = append(words, ws)
				ws = nil
			}
		}
		if len(ws) > 0 {
			words = append(words, ws)
		}
	}
	// occurrences of one option keep their order, everything else is mixed
	words = mixWords(r, words)
	if mode == "direct" && r.Intn(3) == 0 {
		words = append(words, []string{"-ginkgo.debug"})
	} else if r.Intn(5) == 0 {
		d := deadOpts[r.Intn(len(deadOpts))]
		if mode == "direct" {
			d = "--ginkgo." + strings.TrimLeft(d, "-")
		}
		words = append(words, []string{d})
	}
	var args []string
	for _, w := range words {
		args = append(args, w...)
	}
	var extra []string
	if r.Intn(2) == 0 {
		extra = append(extra, "word"+optText(r))
		for k := 0; k < r.Intn(4); k++ {
			extra = append(extra, []string{optText(r), "--", "--ginkgo.focus=never", "-x", "--help"}[r.Intn(5)])
		}
	}
	dir := filepath.Join(*flagWork, fmt.Sprintf("o%06d", i))
	if r.Intn(6) == 0 && mode != "direct" {
		dir = filepath.Join(*flagWork, fmt.Sprintf("o %06d=é,x", i))
	}
	os.RemoveAll(dir)
	defer os.RemoveAll(dir)
	b, _ := json.Marshal(optSuite())
	writeTree(dir, map[string]string{"suite.json": string(b)})
	link := filepath.Join(dir, "interp.test")
	os.Symlink(bin("interp.test"), link)
	env := []string{"VERIF_OPTIONS=1", "VERIF_SUITE=" + filepath.Join(dir, "suite.json"), "VERIF_LOG=" + filepath.Join(dir, "log"), "VERIF_DIR=" + dir, "PWD=" + dir}
	out := dir
	name := bin("ginkgo")
	if mode == "direct" {
		name = link
		args = append(args, extra...)
	} else {
		pa := []string{}
		if procs > 1 {
			pa = spell(r, []string{"procs", "nodes"}[r.Intn(2)], fmt.Sprint(procs), false, "")
		} else if r.Intn(4) == 0 {
			pa = []string{[]string{"--procs=1", "-p=false", "--nodes=0"}[r.Intn(3)]}
		}
		if r.Intn(2) == 0 {
			args = append(pa, args...)
		} else {
			args = append(args, pa...)
		}
		if r.Intn(5) == 0 {
			out = filepath.Join(dir, "out dir")
			args = append(args, "--output-dir="+out)
		}
		if r.Intn(3) > 0 {
			args = append([]string{"run"}, args...)
		}
		args = append(args, []string{"./interp.test", link}[r.Intn(2)])
		if extra != nil {
			args = append(append(args, "--"), extra...)
		}
	}
	res := runCmd(dir, env, 90*time.Second, name, args...)
	evs := readEvents(dir)
	var l []string
	bad := func(f string, a ...any) { l = append(l, fmt.Sprintf(f, a...)) }
	seen := map[int]*optSeen{}
	for _, e := range evs {
		if e.E == "options" {
			o := &optSeen{}
			if err := json.Unmarshal([]byte(e.X), o); err != nil {
				fatal("options event: %v", err)
			}
			if seen[e.P] != nil {
				bad("process %d was started twice", e.P)
			}
			seen[e.P] = o
		}
	}
	if res.TimedOut {
		bad("the run did not end")
	}
	if len(seen) != procs {
		bad("%d processes ran, expected %d (exit %d):\n%s", len(seen), procs, res.Exit, trunc(res.Out, 1200))
	}
	seed := any(nil)
	for p := 1; p <= procs; p++ {
		o := seen[p]
		if o == nil {
			continue
		}
		cmp := func(key string, got any, def any) {
			w := def
			if v, ok := want[key]; ok {
				w = v.want()
			}
			switch key {
			case "S.RandomSeed":
				if _, ok := want[key]; !ok {
					if seed == nil {
						seed = got
					} else if !reflect.DeepEqual(seed, got) {
						bad("process %d: seed %v, another process has %v", p, got, seed)
					}
					return
				}
			case "S.Timeout":
				if w == nil {
					w = int64(time.Hour)
				}
				g, _ := got.(int64)
				if mode != "direct" && w.(int64) > 0 && g <= w.(int64) && g > w.(int64)-int64(2*time.Minute) {
					return // what is left of it
				}
			case "R.JSONReport", "R.JUnitReport", "R.TeamcityReport":
				if w.(string) != "" && mode != "direct" {
					if out == dir {
						w = filepath.Join(dir, w.(string))
					} else if g, ok := got.(string); ok && strings.HasPrefix(g, out+"/") && strings.HasSuffix(g, "_"+w.(string)) {
						return
					}
				}
			}
			if l1, ok := w.([]string); ok && len(l1) == 0 {
				w = nil
			}
			if !reflect.DeepEqual(w, got) {
				bad("process %d: %s is %#v, expected %#v", p, key, got, w)
			}
		}
		for f, def := range defaultsS {
			cmp("S."+f, decodeRaw(o.S[f]), def)
		}
		cmp("S.RandomSeed", decodeRaw(o.S["RandomSeed"]), nil)
		cmp("S.Timeout", decodeRaw(o.S["Timeout"]), nil)
		for f, def := range defaultsR {
			cmp("R."+f, decodeRaw(o.R[f]), def)
		}
		for f, w := range map[string]int64{"ParallelProcess": int64(p), "ParallelTotal": int64(procs)} {
			if g := decodeRaw(o.S[f]); g != w {
				bad("process %d: %s is %v, expected %d", p, f, g, w)
			}
		}
		if h := decodeRaw(o.S["ParallelHost"]); (h == "") != (procs == 1) {
			bad("process %d: ParallelHost %q with %d processes", p, h, procs)
		}
		if mode == "direct" {
			continue
		}
		if procs > 1 || extra != nil {
			if n := len(o.OS) - len(extra); n < 0 || !reflect.DeepEqual(append([]string{}, o.OS[n:]...), append([]string{}, extra...)) {
				bad("process %d: arguments %q do not end with the pass-through arguments %q", p, o.OS, extra)
			}
		}
		if !reflect.DeepEqual(append([]string{}, o.Args...), append([]string{}, extra...)) {
			bad("process %d: positional arguments %q, expected %q", p, o.Args, extra)
		}
		for _, d := range optDefs {
			f, ok := strings.CutPrefix(d.key, "Go.")
			if !ok {
				continue
			}
			g, set := o.Go[f]
			v, given := want[d.key]
			switch {
			case given && !set && d.typ == "int" && v.want() == int64(0):
				c.Fail("zero-profile-rate-dropped", fmt.Sprintf("--%s=0 does not reach the test process", d.name), nil)
			case given != set:
				bad("process %d: %s set: %v, given on the command line: %v", p, f, set, given)
			case given && d.typ == "int":
				if g != fmt.Sprint(v.want()) {
					bad("process %d: %s is %s, expected %v", p, f, g, v.want())
				}
			case given && d.name == "execution-trace": // passed as it is
				if g != v.want() {
					bad("process %d: %s is %q, expected %q", p, f, g, v.want())
				}
			case given:
				w := v.want().(string)
				if procs > 1 {
					w += fmt.Sprintf(".%d", p)
				}
				if !strings.HasPrefix(g, out+"/") || filepath.Base(g) != w && !strings.HasSuffix(g, "_"+w) {
					bad("process %d: %s is %q, expected %q in %q", p, f, g, w, out)
				}
			}
		}
		if o.Go["test.timeout"] != "0s" {
			bad("process %d: go test's own timeout is %s", p, o.Go["test.timeout"])
		}
	}
	sort.Strings(l)
	c.Count("options set", len(want))
	c.Count("processes observed", len(seen))
	c.Count("mode:"+mode, 1)
	if len(l) > 0 {
		c.Fail("", fmt.Sprintf("case %d (seed %d): %s %q in %q:\n%s", i, *flagSeed, filepath.Base(name), args, dir, strings.Join(l, "\n")), map[string][]byte{"args.txt": []byte(strings.Join(args, "\n")), "out.txt": []byte(res.Out)})
		return
	}
	c.Eval(sigHash(mode, strings.Join(args, "\x00")))
	if i%40 == 7 {
		c.Sample(map[string]any{"mode": mode, "args": args})
	}
}

func mixWords(r *rand.Rand, ws [][]string) [][]string {
	type g struct{ w [][]string }
	name := func(w []string) string {
		n := strings.TrimLeft(w[0], "-")
		n, _, _ = strings.Cut(n, "=")
		n = strings.TrimPrefix(n, "ginkgo.")
		for _, d := range optDefs {
			if d.old == n {
				return d.name
			}
		}
		return n
	}
	var order []string
	m := map[string]*g{}
	for _, w := range ws {
		n := name(w)
		if m[n] == nil {
			m[n] = &g{}
		}
		m[n].w = append(m[n].w, w)
		order = append(order, n)
	}
	r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	var out [][]string
	for _, n := range order {
		out = append(out, m[n].w[0])
		m[n].w = m[n].w[1:]
	}
	return out
}

// --- build flags ---

const fakeGo = `#!/bin/bash
{ for a in "$@"; do printf '%s\0' "$a"; done; printf '\n\0'; } >> "$VERIF_GOLOG"
[ "$1" = test ] || exit 1
for a in "$@"; do case "$a" in --o=*|-o=*) cp "$VERIF_TESTBIN" "${a#*=}";; esac; done
exit 0
`

var boolBuild = []string{"race", "cover", "a", "linkshared", "modcacherw", "msan", "n", "trimpath", "work", "x", "buildvcs"}
var strBuild = []string{"vet", "covermode", "coverpkg", "asmflags", "buildmode", "compiler", "gccgoflags", "gcflags", "installsuffix", "ldflags", "mod", "modfile", "pkgdir", "tags", "toolexec"}

func parseGoLog(f string) (out [][]string) {
	b, _ := os.ReadFile(f)
	for _, l := range strings.Split(string(b), "\x00\n\x00") {
		if l != "" {
			out = append(out, strings.Split(l, "\x00"))
		}
	}
	return
}

const optSuiteSrc = `package %s
import ( "testing"
 . "github.com/onsi/ginkgo/v2" )
func TestX(t *testing.T) { RunSpecs(t, "x") }
`

func pkgMeant(dir, p string) string {
	if p == "." || p == ".." || strings.HasPrefix(p, "./") || strings.HasPrefix(p, "../") {
		return filepath.Join(dir, p)
	}
	return p
}

func buildCase(c *Ctx, i int) {
	r := rng("C22/build", i)
	cmd := []string{"build", "run", ""}[r.Intn(3)]
	want := map[string]string{}
	var words [][]string
	dropped := false
	for _, n := range boolBuild {
		if r.Intn(5) > 0 {
			continue
		}
		v := []string{"", "", "true", "1", "false"}[r.Intn(5)]
		words = append(words, spell(r, n, v, true, ""))
		if asBool(v) {
			want[n] = "true"
		} else if n == "buildvcs" {
			dropped = true // its default is neither true nor false
		}
	}
	for _, n := range strBuild {
		if r.Intn(5) > 0 {
			continue
		}
		v := optText(r)
		switch n {
		case "covermode":
			v = []string{"set", "count", "atomic"}[r.Intn(3)]
		case "coverpkg":
			var l []string
			for k := 0; k < 1+r.Intn(3); k++ {
				l = append(l, []string{"fmt", "example.com/x y/...", "./...", "./sub", ".", "..", "../other", "./", "../...", "./a/../b", ".hidden", "...", "pa/pb"}[r.Intn(13)])
			}
			v = strings.Join(l, []string{",", ", "}[r.Intn(2)])
		}
		if v == "" {
			v = "off"
		}
		words = append(words, spell(r, n, v, false, ""))
		want[n] = v
	}
	profile := false
	if cmd != "build" {
		for _, n := range []string{"cpuprofile", "memprofile", "blockprofile", "mutexprofile", "coverprofile", "execution-trace"} {
			if r.Intn(9) == 0 {
				words = append(words, spell(r, n, "p.out", false, ""))
				if n == "coverprofile" {
					want["cover"] = "true"
				} else if n != "execution-trace" {
					profile = true
				}
			}
		}
	}
	if want["covermode"] != "" || want["coverpkg"] != "" {
		want["cover"] = "true"
	}
	if _, ok := want["ldflags"]; !ok && cmd != "build" && !profile {
		want["ldflags"] = "-w -s"
	}
	r.Shuffle(len(words), func(i, j int) { words[i], words[j] = words[j], words[i] })
	var args []string
	if cmd != "" {
		args = append(args, cmd)
	}
	for _, w := range words {
		args = append(args, w...)
	}
	dir := filepath.Join(*flagWork, fmt.Sprintf("b%06d", i))
	os.RemoveAll(dir)
	defer os.RemoveAll(dir)
	nsuites := 1 + r.Intn(2)
	pkgs := []string{"pa", "pb"}[:nsuites]
	files := map[string]string{"bin/go": fakeGo}
	sj, _ := json.Marshal(optSuite())
	for _, p := range pkgs {
		files[p+"/x_test.go"] = fmt.Sprintf(optSuiteSrc, p)
		files[p+"/suite.json"] = string(sj)
		args = append(args, []string{"./" + p, p}[r.Intn(2)])
	}
	if r.Intn(4) == 0 { // an explicit output
		args = append(args[:len(args)-nsuites], append([]string{"-o", "the out.test"}, args[len(args)-nsuites:]...)...)
		if nsuites > 1 {
			args = args[:len(args)-1]
			pkgs = pkgs[:1]
		}
		want["o"] = filepath.Join(dir, "the out.test")
	}
	writeTree(dir, files)
	os.Chmod(filepath.Join(dir, "bin/go"), 0755)
	golog := filepath.Join(dir, "golog")
	env := []string{"PATH=" + filepath.Join(dir, "bin") + ":" + os.Getenv("PATH"), "VERIF_GOLOG=" + golog, "VERIF_TESTBIN=" + bin("interp.test"), "VERIF_PERDIR=1", "PWD=" + dir}
	res := runCmd(dir, env, 90*time.Second, bin("ginkgo"), args...)
	var l []string
	bad := func(f string, a ...any) { l = append(l, fmt.Sprintf(f, a...)) }
	n := 0
	for _, inv := range parseGoLog(golog) {
		if inv[0] != "test" {
			continue
		}
		n++
		if len(inv) < 3 || inv[1] != "-c" || inv[2] != "./" {
			bad("go %q", inv)
			continue
		}
		got := map[string]string{}
		for _, a := range inv[3:] {
			k, v, ok := strings.Cut(strings.TrimLeft(a, "-"), "=")
			if !ok {
				v = "true"
			}
			if _, dup := got[k]; dup {
				bad("go is given -%s twice", k)
			}
			got[k] = v
		}
		for k, v := range want {
			w := v
			if k == "coverpkg" && got[k] != "" {
				// the packages meant are the same from the directory of the suite
				a, b := strings.Split(v, ","), strings.Split(got[k], ",")
				same := len(a) == len(b)
				for n := 0; same && n < len(a); n++ {
					same = pkgMeant(dir, strings.TrimSpace(a[n])) == pkgMeant(filepath.Join(dir, "pa"), b[n])
				}
				if same {
					continue
				}
			}
			if g, ok := got[k]; !ok || g != w {
				bad("go test -c got -%s=%q (%v), expected %q", k, g, ok, w)
			}
		}
		for k, g := range got {
			if _, ok := want[k]; !ok && k != "o" {
				bad("go test -c got -%s=%q, which was not given", k, g)
			}
		}
		if _, ok := want["o"]; !ok && !strings.HasSuffix(got["o"], ".test") {
			bad("go test -c got output %q", got["o"])
		}
	}
	if n != len(pkgs) && (cmd == "build" || n == 0) {
		bad("go test -c was invoked %d times for %d packages (exit %d)\n%s", n, len(pkgs), res.Exit, trunc(res.Out, 800))
	}
	if cmd == "build" && res.Exit != 0 {
		bad("exit %d\n%s", res.Exit, trunc(res.Out, 800))
	}
	if dropped {
		var inv string
		for _, v := range parseGoLog(golog) {
			inv += strings.Join(v, " ") + "\n"
		}
		if !strings.Contains(inv, "buildvcs=false") {
			c.Fail("buildvcs-false-dropped", "go test -c is not told about --buildvcs=false", nil)
		}
	}
	c.Count("go test -c invocations compared", n)
	if len(l) > 0 {
		sort.Strings(l)
		c.Fail("", fmt.Sprintf("build case %d (seed %d): ginkgo %q:\n%s", i, *flagSeed, args, strings.Join(l, "\n")), map[string][]byte{"args.txt": []byte(strings.Join(args, "\n")), "out.txt": []byte(res.Out)})
		return
	}
	c.Eval(sigHash("b", strings.Join(args, "\x00")))
}

// --- invalid and contradictory options ---

type invalid struct {
	args  []string
	stage string // "cli": before anything is built; "suite": before any user code of the suite runs; "direct": given to the test binary
}

var invalids = []invalid{
	{[]string{"--no-such-option"}, "cli"}, {[]string{"--focuss=x"}, "cli"}, {[]string{"--seed=abc"}, "cli"}, {[]string{"--seed="}, "cli"},
	{[]string{"--timeout=5"}, "cli"}, {[]string{"--timeout=abc"}, "cli"}, {[]string{"--grace-period=1x"}, "cli"}, {[]string{"--flake-attempts=1.5"}, "cli"},
	{[]string{"--randomize-all=maybe"}, "cli"}, {[]string{"--v=2"}, "cli"}, {[]string{"--repeat=x"}, "cli"}, {[]string{"--procs=two"}, "cli"}, {[]string{"--procs="}, "cli"},
	{[]string{"--repeat=2", "--until-it-fails"}, "cli"}, {[]string{"--coverprofile=a/b"}, "cli"}, {[]string{"--cpuprofile=/x"}, "cli"}, {[]string{"--memprofile=./m"}, "cli"},
	{[]string{"--blockprofile=b/"}, "cli"}, {[]string{"--mutexprofile=../m"}, "cli"}, {[]string{"--test.v"}, "cli"}, {[]string{"--ginkgo.v"}, "cli"}, {[]string{"---v"}, "cli"},
	{[]string{"--depth=2"}, "cli"}, {[]string{"--memprofilerate=many"}, "cli"}, {[]string{"--parallel.total=2"}, "cli"}, {[]string{"--count=2"}, "cli"}, {[]string{"--parallel=3"}, "cli"},
	{[]string{"@after", "--v"}, "cli"}, {[]string{"@after", "-seed=3"}, "cli"},
	{[]string{"--grace-period=-1s"}, "suite"}, {[]string{"--grace-period=0"}, "suite"}, {[]string{"--grace-period=0s"}, "suite"}, {[]string{"--output-interceptor-mode=both"}, "suite"},
	{[]string{"--label-filter=(a"}, "suite"}, {[]string{"--label-filter=a &&"}, "suite"}, {[]string{"--label-filter=/(/"}, "suite"}, {[]string{"--label-filter=a b && !"}, "suite"},
	{[]string{"--focus-file=a:b"}, "suite"}, {[]string{"--focus-file=a:1:2"}, "suite"}, {[]string{"--skip-file=:x"}, "suite"}, {[]string{"--skip-file=a:1-2-3"}, "suite"}, {[]string{"--focus-file=("}, "suite"}, {[]string{"--focus-file="}, "suite"}, {[]string{"--skip-file=a:"}, "suite"},
	{[]string{"-v", "-vv"}, "suite"}, {[]string{"-v", "--succinct"}, "suite"}, {[]string{"--succinct", "-vv"}, "suite"}, {[]string{"--dry-run", "--procs=2"}, "suite"}, {[]string{"--dry-run", "-p"}, "suite"},
	{[]string{"--focus=("}, "suite"}, {[]string{"--skip=a(b"}, "suite"}, {[]string{"--focus=ok", "--focus=[z-a]"}, "suite"},
	{[]string{"--ginkgo.parallel.total=0"}, "direct"}, {[]string{"--ginkgo.parallel.process=2"}, "direct"}, {[]string{"--ginkgo.parallel.process=0"}, "direct"}, {[]string{"--ginkgo.parallel.total=2"}, "direct"},
	{[]string{"--test.count=2"}, "direct"}, {[]string{"--test.parallel=3"}, "direct"}, {[]string{"--ginkgo.grace-period=0"}, "direct"}, {[]string{"--ginkgo.v", "--ginkgo.vv"}, "direct"},
	{[]string{"--ginkgo.label-filter=("}, "direct"}, {[]string{"--ginkgo.seed=x"}, "direct"}, {[]string{"--ginkgo.bogus"}, "direct"}, {[]string{"--ginkgo.output-interceptor-mode=x"}, "direct"}, {[]string{"--ginkgo.parallel.total=2", "--ginkgo.parallel.host=127.0.0.1:1"}, "direct"},
	{[]string{"--ginkgo.focus-file=a:b"}, "direct"}, {[]string{"--ginkgo.dry-run", "--ginkgo.parallel.total=2", "--ginkgo.parallel.host=127.0.0.1:1"}, "direct"}, {[]string{"--ginkgo.focus=("}, "direct"},
}

func invalidCase(c *Ctx, i int) {
	r := rng("C22/invalid", i)
	v := invalids[i%len(invalids)]
	var args, after []string
	for k, a := range v.args {
		if a == "@after" {
			after = append(after, v.args[k+1:]...)
			break
		}
		args = append(args, a)
	}
	// among valid ones
	opts, _ := genOptions(r, true)
	r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	pre := ""
	if v.stage == "direct" {
		pre = "ginkgo."
	}
	all := strings.Join(v.args, " ")
	for _, o := range opts[:r.Intn(len(opts)+1)] {
		if strings.Contains(all, o.def.name) || len(o.def.name) <= 2 || o.def.name == "succinct" || strings.HasPrefix(o.def.key, "Go.") {
			continue
		}
		w := spell(r, o.def.name, o.vals[0], o.def.typ == "bool", pre)
		if r.Intn(2) == 0 {
			args = append(w, args...)
		} else {
			args = append(args, w...)
		}
	}
	dir := filepath.Join(*flagWork, fmt.Sprintf("i%06d", i))
	os.RemoveAll(dir)
	defer os.RemoveAll(dir)
	sj, _ := json.Marshal(optSuite())
	writeTree(dir, map[string]string{"bin/go": fakeGo, "p/x_test.go": fmt.Sprintf(optSuiteSrc, "p"), "p/suite.json": string(sj)})
	os.Chmod(filepath.Join(dir, "bin/go"), 0755)
	golog := filepath.Join(dir, "golog")
	env := []string{"PATH=" + filepath.Join(dir, "bin") + ":" + os.Getenv("PATH"), "VERIF_GOLOG=" + golog, "VERIF_TESTBIN=" + bin("interp.test"), "VERIF_PERDIR=1"}
	name, wd := bin("ginkgo"), dir
	if v.stage == "direct" {
		name, wd = bin("interp.test"), filepath.Join(dir, "p")
	} else {
		args = append(append(args, "./p"), after...)
		if r.Intn(3) > 0 {
			args = append([]string{"run"}, args...)
		}
	}
	env = append(env, "PWD="+wd)
	res := runCmd(wd, env, 90*time.Second, name, args...)
	var l []string
	bad := func(f string, a ...any) { l = append(l, fmt.Sprintf(f, a...)) }
	if res.TimedOut {
		bad("the run did not end")
	}
	if res.Exit == 0 {
		bad("accepted: exit 0")
	}
	built := 0
	for _, g := range parseGoLog(golog) {
		if g[0] == "test" {
			built++
		}
	}
	bodies, started := 0, 0
	for _, e := range readEvents(filepath.Join(dir, "p")) {
		switch e.E {
		case "enter", "tree":
			bodies++
		case "config":
			started++
		}
	}
	if v.stage == "cli" && built+started > 0 {
		bad("rejected only after %d builds and %d test processes", built, started)
	}
	if bodies > 0 {
		bad("%d bodies ran", bodies)
	}
	if v.stage == "suite" && started == 0 {
		bad("harness: the suite was not started\n%s", trunc(res.Out, 600))
	}
	if strings.TrimSpace(res.Out) == "" {
		bad("rejected without a word")
	}
	c.Count("invalid command lines", 1)
	if len(l) > 0 {
		c.Fail("", fmt.Sprintf("invalid case %d (seed %d): %s %q:\n%s\n%s", i, *flagSeed, filepath.Base(name), args, strings.Join(l, "\n"), trunc(res.Out, 600)), map[string][]byte{"args.txt": []byte(strings.Join(args, "\n"))})
		return
	}
	c.Eval(sigHash("i", strings.Join(args, "\x00")))
}

func init() {
	checks["C22"] = Check{Level: "exploration", Rule: "a run counts as distinct by its command line", Run: checkOptions,
		Assume: []string{"the go tool is replaced by a recorder where build options are judged"}}
}

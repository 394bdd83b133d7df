package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	ginkgoint "github.com/onsi/ginkgo/v2/ginkgo/internal"
	"golang.org/x/tools/cover"
)

// C23: merged coverage profiles against the statement-wise sum.

func init() {
	checks["C23"] = Check{Level: "exploration", Isolate: true, Run: runC23,
		Rule: "a merge counts as distinct by (mode, number of inputs, files, blocks, how many blocks are shared); end-to-end runs compare the profile the CLI wrote with the known number of calls of every function"}
}

type blk struct {
	f              string
	sl, sc, el, ec int
	stmts          int
}

// randomSource lays out non-overlapping blocks of a file, in the shapes the coverage tool emits (adjacent, empty, one-line, multi-line).
func randomSource(r *rand.Rand, f string) []blk {
	var out []blk
	l, c := 1+r.Intn(4), 1+r.Intn(20)
	for n := r.Intn(9) * r.Intn(4); n > 0; n-- {
		b := blk{f: f, sl: l, sc: c, stmts: r.Intn(4)}
		switch r.Intn(4) {
		case 0:
			b.el, b.ec = l, c // empty
		case 1:
			b.el, b.ec = l, c+1+r.Intn(9)
		default:
			b.el, b.ec = l+1+r.Intn(5), 1+r.Intn(9)
		}
		out = append(out, b)
		l, c = b.el, b.ec
		if r.Intn(2) == 0 || b.sl == b.el && b.sc == b.ec {
			if r.Intn(3) == 0 {
				c += 1 + r.Intn(5)
			} else {
				l, c = l+1+r.Intn(3), 1+r.Intn(9)
			}
		}
	}
	return out
}

func runC23(c *Ctx) {
	n := N(40000, 2000000)
	parallelDo(n, workers(), func(i int) {
		if c.NViol() > 3 {
			return
		}
		r := rng("C23", i)
		theWatch.set(i, fmt.Sprintf("C23 merge %d", i))
		coverMerge(c, r, i)
		theWatch.done(i)
	})
	if *flagOnly >= 0 {
		return
	}
	coverE2E(c)
}

func coverMerge(c *Ctx, r *rand.Rand, i int) {
	mode := []string{"set", "count", "atomic"}[r.Intn(3)]
	nf := 1 + r.Intn(5)
	files := map[string][]blk{}
	var names []string
	for k := 0; k < nf; k++ {
		f := []string{"example.com/m/a.go", "example.com/m/b.go", "example.com/m/a/a.go", "z.go", "example.com/m/with space.go", "example.com/m-x/Ä.go", "C:/x/y.go"}[(i+k*3)%7]
		files[f] = randomSource(r, f)
		names = append(names, f)
	}
	sort.Strings(names)
	dir := filepath.Join(*flagWork, fmt.Sprintf("cov%d", i))
	os.MkdirAll(dir, 0755)
	defer os.RemoveAll(dir)
	nin := 1 + r.Intn(5)
	sum := map[blk]int{}
	shape := []any{mode, nin}
	var paths []string
	var inputs strings.Builder
	partial := r.Intn(3)
	for k := 0; k < nin; k++ {
		var lines []string
		for _, f := range names {
			if partial > 0 && r.Intn(3) == 0 {
				continue
			}
			for _, b := range files[f] {
				if partial == 2 && r.Intn(3) == 0 {
					continue
				}
				cnt := []int{0, 0, 1, 2, 7, 100000}[r.Intn(6)]
				if mode == "set" && cnt > 1 {
					cnt = 1
				}
				if mode == "set" {
					sum[b] |= cnt
				} else {
					sum[b] += cnt
				}
				lines = append(lines, fmt.Sprintf("%s:%d.%d,%d.%d %d %d", b.f, b.sl, b.sc, b.el, b.ec, b.stmts, cnt))
			}
		}
		shape = append(shape, len(lines))
		if r.Intn(2) == 0 {
			r.Shuffle(len(lines), func(a, b int) { lines[a], lines[b] = lines[b], lines[a] })
		}
		p := filepath.Join(dir, fmt.Sprintf("in%d.out", k))
		txt := "mode: " + mode + "\n" + strings.Join(append(lines, ""), "\n")
		os.WriteFile(p, []byte(txt), 0644)
		fmt.Fprintf(&inputs, "--- input %d\n%s", k, txt)
		paths = append(paths, p)
	}
	dst := filepath.Join(dir, "out.out")
	if r.Intn(3) == 0 {
		dst = paths[r.Intn(len(paths))] // the composite may replace one of its inputs
	}
	if dst == filepath.Join(dir, "out.out") && r.Intn(2) == 0 { // an older composite is replaced completely
		os.WriteFile(dst, []byte("mode: set\n"+strings.Repeat("old.go:1.1,2.2 1 1\n", r.Intn(200))), 0644)
	}
	var errs []string
	if err := ginkgoint.MergeAndCleanupCoverProfiles(append([]string{}, paths...), dst); err != nil {
		errs = append(errs, "merge failed: "+err.Error())
	} else {
		out, _ := os.ReadFile(dst)
		errs = append(errs, checkProfile(string(out), mode, sum)...)
		if len(sum) > 0 {
			if _, err := cover.ParseProfiles(dst); err != nil {
				errs = append(errs, "the merged profile does not parse: "+err.Error())
			}
		}
		for _, p := range paths {
			if _, err := os.Stat(p); err == nil && p != dst {
				errs = append(errs, "input left behind: "+p)
			}
		}
		fmt.Fprintf(&inputs, "--- output\n%s", out)
	}
	c.Count("merges", 1)
	c.Count("blocks", len(sum))
	if len(sum) > 0 {
		c.Eval(sigHash(shape...))
	} else {
		c.Eval("")
	}
	if i < 2 {
		c.Sample(map[string]any{"mode": mode, "inputs": nin, "files": nf, "blocks": len(sum)})
	}
	if len(errs) > 0 {
		c.Fail("", fmt.Sprintf("merge %d (seed %d, mode %s, %d inputs): %s", i, *flagSeed, mode, nin, strings.Join(errs, "; ")), map[string][]byte{"profiles.txt": []byte(inputs.String())})
	}
}

// checkProfile reads a profile strictly and compares it with the expected counts.
func checkProfile(out, mode string, want map[blk]int) []string {
	var errs []string
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	if len(want) == 0 {
		if len(strings.TrimSpace(out)) > 0 && lines[0] != "mode: "+mode {
			errs = append(errs, "unexpected content for an empty merge")
		}
		return errs
	}
	if lines[0] != "mode: "+mode {
		return []string{"first line is " + lines[0]}
	}
	seen := map[blk]bool{}
	for _, l := range lines[1:] {
		var b blk
		var cnt int
		k := strings.LastIndex(l, ":")
		if k < 0 {
			errs = append(errs, "bad line "+l)
			continue
		}
		b.f = l[:k]
		if n, err := fmt.Sscanf(l[k+1:], "%d.%d,%d.%d %d %d", &b.sl, &b.sc, &b.el, &b.ec, &b.stmts, &cnt); n != 6 || err != nil {
			errs = append(errs, "bad line "+l)
			continue
		}
		if strings.HasPrefix(l, "mode:") {
			errs = append(errs, "a second mode line")
		}
		if seen[b] {
			errs = append(errs, fmt.Sprintf("block %v twice", b))
		}
		seen[b] = true
		w, ok := want[b]
		if !ok {
			errs = append(errs, fmt.Sprintf("block %v is in no input", b))
		} else if w != cnt {
			errs = append(errs, fmt.Sprintf("block %v has count %d, want %d", b, cnt, w))
		}
	}
	for b := range want {
		if !seen[b] {
			errs = append(errs, fmt.Sprintf("block %v was dropped", b))
		}
	}
	if len(errs) > 6 {
		errs = errs[:6]
	}
	return errs
}

// coverE2E lets the CLI build and run real suites with coverage and compares the composite with the known calls.
func coverE2E(c *Ctx) {
	r := rng("C23/e2e", 0)
	const nf = 12
	var lib strings.Builder
	lib.WriteString("package lib\n\n")
	for k := 0; k < nf; k++ {
		fmt.Fprintf(&lib, "func F%d() int {\n\tx := %d\n\treturn x\n}\n\n", k, k)
	}
	suites := []string{"s1", "s2", "sub/s3"}
	calls := map[string][]int{}
	files := map[string]string{"lib/lib.go": lib.String()}
	for _, s := range suites {
		pkg := filepath.Base(s)
		cs := make([]int, nf)
		var b strings.Builder
		fmt.Fprintf(&b, "package %s_test\n\nimport (\n\t\"testing\"\n\t. \"github.com/onsi/ginkgo/v2\"\n\t\"tmod/lib\"\n)\n\nfunc TestS(t *testing.T) { RunSpecs(t, \"%s\") }\n\n", pkg, pkg)
		b.WriteString("var fs = []func() int{")
		for k := 0; k < nf; k++ {
			fmt.Fprintf(&b, "lib.F%d,", k)
		}
		b.WriteString("}\n\nvar _ = Describe(\"d\", func() {\n")
		for sp := 0; sp < 9; sp++ {
			k, m := r.Intn(nf), 1+r.Intn(5)
			cs[k] += m
			fmt.Fprintf(&b, "\tIt(\"%d\", func() { for i := 0; i < %d; i++ { fs[%d]() } })\n", sp, m, k)
		}
		b.WriteString("})\n")
		files[s+"/x_test.go"] = b.String()
		files[s+"/x.go"] = "package " + pkg + "\n"
		calls[s] = cs
	}
	type vr struct {
		mode, name string
		args       []string
		out        string
	}
	vars := []vr{
		{"count", "serial", nil, "coverprofile.out"},
		{"atomic", "parallel", []string{"--procs=3"}, "coverprofile.out"},
		{"set", "parallel", []string{"--procs=2", "--coverprofile=cp.out", "--output-dir=o"}, "o/cp.out"},
		{"count", "parallel-separate", []string{"--procs=4", "--keep-separate-coverprofiles", "--output-dir=o2"}, ""},
	}
	if thorough() {
		vars = append(vars, vr{"count", "parallel http", []string{"--procs=5"}, "coverprofile.out"}, vr{"set", "serial", []string{"--randomize-suites"}, "coverprofile.out"})
	}
	parallelDo(len(vars), 4, func(k int) {
		v := vars[k]
		theWatch.set(-1-k, "C23 end-to-end")
		defer theWatch.done(-1 - k)
		dir := tmpModule(fmt.Sprintf("cov-e2e-%d", k), files)
		defer os.RemoveAll(dir)
		args := append([]string{"run", "--no-color", "-r", "--covermode=" + v.mode, "--coverpkg=tmod/lib", "--cover"}, v.args...)
		res := runCmd(dir, tmodEnv(), 100*time.Second, bin("ginkgo"), args...)
		if res.TimedOut {
			c.Inconclusive("coverage run timed out")
			return
		}
		var errs []string
		if res.Exit != 0 {
			errs = append(errs, fmt.Sprintf("exit %d", res.Exit))
		}
		want := func(which []string) map[int]int {
			w := map[int]int{}
			for f := 0; f < nf; f++ {
				for _, s := range which {
					w[f] += calls[s][f]
				}
				if v.mode == "set" && w[f] > 1 {
					w[f] = 1
				}
			}
			return w
		}
		check := func(path string, which []string) {
			b, err := os.ReadFile(filepath.Join(dir, path))
			if err != nil {
				errs = append(errs, err.Error())
				return
			}
			full := map[blk]int{}
			for f := 0; f < nf; f++ {
				full[blk{"tmod/lib/lib.go", 3 + 5*f, 14 + len(fmt.Sprint(f)), 6 + 5*f, 2, 2}] = want(which)[f]
			}
			errs = append(errs, checkProfile(string(b), v.mode, full)...)
		}
		if v.out != "" {
			check(v.out, suites)
		} else {
			check("o2/s1_coverprofile.out", suites[:1])
			check("o2/s2_coverprofile.out", suites[1:2])
			check("o2/sub_s3_coverprofile.out", suites[2:])
		}
		m, _ := filepath.Glob(filepath.Join(dir, "*/*coverprofile.out.*"))
		if len(m) > 0 {
			errs = append(errs, "per-process profiles left behind: "+strings.Join(m, " "))
		}
		c.Count("end-to-end runs", 1)
		c.Eval("e2e" + v.mode + v.name)
		if len(errs) > 0 {
			c.Fail("", fmt.Sprintf("ginkgo %s: %s", strings.Join(args, " "), strings.Join(errs, "; ")), map[string][]byte{"output.txt": []byte(res.Out)})
		}
	})
}

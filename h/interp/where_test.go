package interp_test

import (
	"encoding/json"
	"errors"
	"fmt"

	. "github.com/onsi/ginkgo/v2"
	"github.com/onsi/ginkgo/v2/dsl/core"
	"github.com/onsi/ginkgo/v2/internal/zzverif/sdoc"
	"github.com/onsi/ginkgo/v2/internal/zzverif/wlib"
)

// (generated in part; gofmt would split the lines below that call wAt: its line has to be the line of the call it announces)

type wCall struct {
	it    *sdoc.WItem
	text  string
	node  []any // arguments of a node
	body  func()
	entry TableEntry
}

func wSpec() string {
	r := CurrentSpecReport()
	return fmt.Sprint(r.LeafNodeType, " ", r.LeafNodeText)
}

func wAt(w *wCall) {
	b, _ := json.Marshal(map[string]any{"F": wlib.Stack(), "S": wSpec()})
	emit(sdoc.Event{E: "wloc", N: w.it.ID, X: string(b)})
}

func wDo(it *sdoc.WItem) *wCall {
	w := &wCall{it: it, text: fmt.Sprintf("%s%d", it.K, it.ID)}
	w.body = func() {
		b, _ := json.Marshal(map[string]any{"S": wSpec()})
		emit(sdoc.Event{E: "wran", N: it.ID, X: string(b)})
		for _, k := range it.Kids {
			wDo(k)
		}
	}
	if it.Off >= 0 {
		w.node = append(w.node, Offset(it.Off))
	}
	switch it.K {
	case "container":
		w.node = append(w.node, func() {
			for _, k := range it.Kids {
				wDo(k)
			}
		})
	case "table":
		w.node = append(w.node, func(id int) {
			for _, k := range it.Kids {
				if k.ID == id {
					b, _ := json.Marshal(map[string]any{"S": wSpec()})
					emit(sdoc.Event{E: "wran", N: id, X: string(b)})
					for _, kk := range k.Kids {
						wDo(kk)
					}
				}
			}
		})
		for _, k := range it.Kids {
			w.node = append(w.node, wDo(k).entry)
		}
	case "entry":
		w.node = append(w.node, it.ID)
	case "RE":
		w.node = append(w.node, func(SpecReport) { w.body() })
	case "RS":
		w.node = append(w.node, func(Report) { w.body() })
	default:
		w.node = append(w.node, w.body)
	}
	leaves := wLeaves[it.K]
	head := &wlib.Link{F: leaves[it.V%len(leaves)], Mark: it.Mark, D: w}
	for i := len(it.Chain) - 1; i >= 0; i-- {
		c := it.Chain[i]
		head = &wlib.Link{F: wlib.Shapes[c.F], Mark: c.Mark, N: c.N, Next: head}
	}
	head.F(head)
	return w
}

func (w *wCall) off(base int) []int {
	if w.it.Off < 0 {
		return nil
	}
	return []int{base + w.it.Off}
}

func (w *wCall) node1() []any { // arguments of DeferCleanup
	out := []any{}
	if w.it.Off >= 0 {
		out = append(out, Offset(w.it.Off))
	}
	return out
}

func wLeaf0(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	wAt(w); Describe(w.text, w.node...)
}

func wLeaf1(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	wAt(w); Context(w.text, w.node...)
}

func wLeaf2(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	wAt(w); When(w.text, w.node...)
}

func wLeaf3(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	wAt(w); core.Describe(w.text, w.node...)
}

func wLeaf4(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	wAt(w); core.Context(w.text, w.node...)
}

func wLeaf5(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	wAt(w); It(w.text, w.node...)
}

func wLeaf6(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	wAt(w); Specify(w.text, w.node...)
}

func wLeaf7(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	wAt(w); core.It(w.text, w.node...)
}

func wLeaf8(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	wAt(w); core.Specify(w.text, w.node...)
}

func wLeaf9(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	wAt(w); DescribeTable(w.text, w.node...)
}

func wLeaf10(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	wAt(w); w.entry = Entry(w.text, w.node...)
}

func wLeaf11(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	wAt(w); BeforeEach(w.node...)
}

func wLeaf12(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	wAt(w); core.BeforeEach(w.node...)
}

func wLeaf13(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	wAt(w); AfterEach(w.node...)
}

func wLeaf14(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	wAt(w); core.AfterEach(w.node...)
}

func wLeaf15(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	wAt(w); JustBeforeEach(w.node...)
}

func wLeaf16(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	wAt(w); core.JustBeforeEach(w.node...)
}

func wLeaf17(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	wAt(w); JustAfterEach(w.node...)
}

func wLeaf18(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	wAt(w); ReportAfterEach(w.node[len(w.node)-1], w.node[:len(w.node)-1]...)
}

func wLeaf19(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	wAt(w); BeforeSuite(w.node[len(w.node)-1], w.node[:len(w.node)-1]...)
}

func wLeaf20(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	wAt(w); core.BeforeSuite(w.node[len(w.node)-1], w.node[:len(w.node)-1]...)
}

func wLeaf21(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	wAt(w); AfterSuite(w.node[len(w.node)-1], w.node[:len(w.node)-1]...)
}

func wLeaf22(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	wAt(w); ReportAfterSuite(w.text, w.node[len(w.node)-1], w.node[:len(w.node)-1]...)
}

func wLeaf23(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	wAt(w); Fail(w.text, w.off(0)...)
}

func wLeaf24(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	wAt(w); core.Fail(w.text, w.off(0)...)
}

func wLeaf25(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	t := GinkgoT(w.off(1)...)
	wAt(w); t.Errorf("%s", w.text)
}

func wLeaf26(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	t := GinkgoT(w.off(1)...)
	wAt(w); t.Fatal(w.text)
}

func wLeaf27(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	t := GinkgoTB(w.off(2)...)
	wAt(w); t.Error(w.text)
}

func wLeaf28(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	t := GinkgoTB(w.off(2)...)
	wAt(w); t.Fatalf("%s", w.text)
}

func wLeaf29(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	wAt(w); Skip(w.text, w.off(0)...)
}

func wLeaf30(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	t := GinkgoT(w.off(1)...)
	wAt(w); t.Skipf("%s", w.text)
}

func wLeaf31(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	t := GinkgoTB(w.off(2)...)
	wAt(w); t.Skip(w.text)
}

func wLeaf32(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	wAt(w); By(w.text)
}

func wLeaf33(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	wAt(w); By(w.text, w.body)
}

func wLeaf34(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	wAt(w); core.By(w.text, func() { w.body() })
}

func wLeaf35(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	args := w.node1()
	wAt(w); AddReportEntry(w.text, args...)
}

func wLeaf36(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	args := append([]any{"value"}, w.node1()...)
	wAt(w); AddReportEntry(w.text, args...)
}

func wLeaf37(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	args := append(w.node1(), func() error {
		w.body()
		return nil
	})
	wAt(w); DeferCleanup(args...)
}

func wLeaf38(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	args := append([]any{func(int) { w.body() }, 3}, w.node1()...)
	wAt(w); core.DeferCleanup(args...)
}

func wLeaf39(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	t := GinkgoT()
	wAt(w); t.Cleanup(w.body)
}

func wLeaf40(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	t := GinkgoTB()
	wAt(w); t.Cleanup(w.body)
}

func wLeaf41(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	t := GinkgoT()
	wAt(w); t.Setenv("VERIF_WHERE", w.text)
}

func wLeaf42(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	t := GinkgoTB()
	wAt(w); t.Setenv("VERIF_WHERE", w.text)
}

func wLeaf43(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	wAt(w); panic(w.text)
}

func wLeaf44(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	var p *sdoc.WItem
	wAt(w); w.it = p.Kids[0]
}

func wLeaf45(l *wlib.Link) {
	if l.Mark {
		wlib.Mark()
		GinkgoHelper()
	}
	w := l.D.(*wCall)
	args := append(w.node1(), func() error {
		w.body()
		return errors.New(w.text)
	})
	wAt(w); DeferCleanup(args...)
}

var wLeaves map[string][]func(*wlib.Link)

func init() { // (the functions refer to the table)
	wLeaves = map[string][]func(*wlib.Link){
		"container": {wLeaf0, wLeaf1, wLeaf2, wLeaf3, wLeaf4},
		"it": {wLeaf5, wLeaf6, wLeaf7, wLeaf8},
		"table": {wLeaf9},
		"entry": {wLeaf10},
		"BE": {wLeaf11, wLeaf12},
		"AE": {wLeaf13, wLeaf14},
		"JBE": {wLeaf15, wLeaf16},
		"JAE": {wLeaf17},
		"RE": {wLeaf18},
		"BS": {wLeaf19, wLeaf20},
		"AS": {wLeaf21},
		"RS": {wLeaf22},
		"fail": {wLeaf23, wLeaf24, wLeaf25, wLeaf26, wLeaf27, wLeaf28},
		"skip": {wLeaf29, wLeaf30, wLeaf31},
		"by": {wLeaf32, wLeaf33, wLeaf34},
		"rentry": {wLeaf35, wLeaf36},
		"cleanup": {wLeaf37, wLeaf38},
		"cleanuperr": {wLeaf45},
		"tcleanup": {wLeaf39, wLeaf40},
		"tenv": {wLeaf41, wLeaf42},
		"panic": {wLeaf43, wLeaf44},
	}
}

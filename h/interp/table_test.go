package interp_test

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	. "github.com/onsi/ginkgo/v2"
	"github.com/onsi/ginkgo/v2/internal/zzverif/sdoc"
)

// (gofmt would split the lines below that call at: its line has to be the line of the call it announces)

var tableShares = map[int][]TableEntry{}

func tFunc(ctx string, sig []string, variadic bool, out []reflect.Type, f func(in []reflect.Value) []reflect.Value) any {
	var in []reflect.Type
	switch ctx {
	case "S":
		in = append(in, reflect.TypeOf((*SpecContext)(nil)).Elem())
	case "C":
		in = append(in, reflect.TypeOf((*context.Context)(nil)).Elem())
	}
	for i, s := range sig {
		t := sdoc.TTypes[s]
		if variadic && i == len(sig)-1 {
			t = reflect.SliceOf(t)
		}
		in = append(in, t)
	}
	return reflect.MakeFunc(reflect.FuncOf(in, out, variadic), f).Interface()
}

func tDescription(sig []string, variadic bool) any {
	return tFunc("", sig, variadic, []reflect.Type{reflect.TypeOf("")}, func(in []reflect.Value) []reflect.Value {
		return []reflect.Value{reflect.ValueOf("D<" + sdoc.TRenderAll(in, variadic) + ">")}
	})
}

func tSaw(id int, args string) {
	r := CurrentSpecReport()
	b, _ := json.Marshal(map[string]any{"Leaf": r.LeafNodeText, "LL": r.LeafNodeLabels, "Loc": fmt.Sprintf("%s:%d", r.LeafNodeLocation.FileName, r.LeafNodeLocation.LineNumber),
		"Hier": r.ContainerHierarchyTexts, "HL": r.ContainerHierarchyLabels, "HLoc": tLocs(r), "Args": args})
	emit(sdoc.Event{E: "tbl", N: id, Att: r.NumAttempts, X: string(b)})
}

func tLocs(r SpecReport) (out []string) {
	for _, l := range r.ContainerHierarchyLocations {
		out = append(out, fmt.Sprintf("%s:%d", l.FileName, l.LineNumber))
	}
	return
}

func tBody(n *sdoc.Node) any {
	t := n.Table
	var out []reflect.Type
	if t.Out {
		out = append(out, sdoc.TTypes["error"])
	}
	return tFunc(t.Ctx, t.Sig, t.Var, out, func(in []reflect.Value) []reflect.Value {
		render := func() string {
			s := ""
			rest := in
			if t.Ctx != "" {
				rest = in[1:]
				if c, ok := in[0].Interface().(SpecContext); ok {
					s = "SpecContext"
					if c.SpecReport().LeafNodeText != CurrentSpecReport().LeafNodeText || c.Err() != nil {
						s = "SpecContext of another spec"
					}
				} else {
					s = sdoc.TRender(in[0])
				}
				s += "| "
			}
			return s + sdoc.TRenderAll(rest, t.Var)
		}
		if t.Sub {
			for k := 0; k < t.Inner; k++ {
				It(fmt.Sprintf("inner%d", k), func() { tSaw(n.ID, render()) })
			}
		} else {
			tSaw(n.ID, render())
		}
		if t.Var && !t.Sub { // what a body does to its arguments is its own business
			v := in[len(in)-1]
			for i := 0; i < v.Len(); i++ {
				v.Index(i).Set(reflect.Zero(v.Type().Elem()))
			}
		}
		if t.Out {
			return []reflect.Value{reflect.Zero(sdoc.TTypes["error"])}
		}
		return nil
	})
}

func helperEntry(d any, args ...any) TableEntry {
	GinkgoHelper()
	return Entry(d, args...)
}

func tEntry(e *sdoc.TEntry) (te TableEntry) {
	var desc any
	switch e.DescK {
	case "str":
		desc = e.Desc
	case "ed":
		desc = EntryDescription(e.Desc)
	case "fn":
		desc = tDescription(e.Sig, e.Var)
	case "int":
		desc = 12
	}
	var args []any
	for _, a := range e.Args {
		if v, ok := strings.CutPrefix(a, "v:"); ok {
			args = append(args, sdoc.TVal(v))
		} else {
			d, _ := rawArgs(&sdoc.Node{}, strings.Split(strings.TrimPrefix(a, "d:"), " "))
			args = append(args, d...)
		}
	}
	args = append(args, "beyond")
	args = args[:len(args)-1]
	switch e.Via {
	case "Entry":
		at(e.ID); te = Entry(desc, args...)
	case "FEntry":
		at(e.ID); te = FEntry(desc, args...)
	case "PEntry":
		at(e.ID); te = PEntry(desc, args...)
	case "XEntry":
		at(e.ID); te = XEntry(desc, args...)
	case "helper":
		at(e.ID); te = helperEntry(desc, args...)
	}
	for i := range args { // the slice is the caller's
		args[i] = "overwritten"
	}
	return
}

func buildTable(n *sdoc.Node) {
	var args []any
	var slices [][]TableEntry
	for _, it := range n.Table.Items {
		switch it.K {
		case "body":
			args = append(args, tBody(n))
		case "entry":
			args = append(args, tEntry(it.Entries[0]))
		case "entries":
			es := []TableEntry{}
			for _, e := range it.Entries {
				es = append(es, tEntry(e))
			}
			if it.Tok == "poison" {
				slices = append(slices, es)
			} else {
				tableShares[n.ID] = es
			}
			args = append(args, es)
		case "share":
			args = append(args, tableShares[it.From])
		case "ed":
			args = append(args, EntryDescription(it.Tok))
		case "fn":
			args = append(args, tDescription(it.Sig, it.Var))
		case "dec":
			d, _ := rawArgs(n, strings.Split(it.Tok, " "))
			args = append(args, d...)
		case "nil":
			args = append(args, nil)
		case "int":
			args = append(args, 17)
		}
	}
	switch n.Table.Via {
	case "DescribeTable":
		at(n.ID); DescribeTable(n.Text, args...)
	case "FDescribeTable":
		at(n.ID); FDescribeTable(n.Text, args...)
	case "PDescribeTable":
		at(n.ID); PDescribeTable(n.Text, args...)
	case "XDescribeTable":
		at(n.ID); XDescribeTable(n.Text, args...)
	case "DescribeTableSubtree":
		at(n.ID); DescribeTableSubtree(n.Text, args...)
	case "FDescribeTableSubtree":
		at(n.ID); FDescribeTableSubtree(n.Text, args...)
	case "PDescribeTableSubtree":
		at(n.ID); PDescribeTableSubtree(n.Text, args...)
	case "XDescribeTableSubtree":
		at(n.ID); XDescribeTableSubtree(n.Text, args...)
	default:
		panic("table kind " + n.Table.Via)
	}
	for _, s := range slices {
		for i := range s {
			s[i] = Entry("overwritten", "overwritten")
		}
	}
	for i := range args {
		args[i] = nil
	}
}

package sdoc

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"
)

// Table describes a table and everything passed to it.
type Table struct {
	Via   string   `json:"via"` // DescribeTable, ...
	Sub   bool     `json:"sub,omitempty"`
	Ctx   string   `json:"ctx,omitempty"` // "S": the body's first parameter is a SpecContext, "C": a context.Context
	Sig   []string `json:"sig,omitempty"` // further parameter types
	Var   bool     `json:"var,omitempty"` // the last one is variadic
	Out   bool     `json:"out,omitempty"` // the body returns an error
	Items []*TItem `json:"items,omitempty"`
	Inner int      `json:"inner,omitempty"` // subtree: number of Its per entry
}

type TItem struct {
	K       string    // body, entry, entries, share, ed, fn, dec, nil, int
	Tok     string    `json:"tok,omitempty"` // decorator, format string
	Sig     []string  `json:"sig,omitempty"`
	Var     bool      `json:"var,omitempty"`
	Entries []*TEntry `json:"entries,omitempty"`
	From    int       `json:"from,omitempty"` // share: the table whose first slice of entries is used again
}

type TEntry struct {
	ID    int
	Via   string   // Entry, FEntry, PEntry, XEntry, helper
	DescK string   // str, nil, ed, fn, int
	Desc  string   `json:"desc,omitempty"`
	Sig   []string `json:"sig,omitempty"`
	Var   bool     `json:"var,omitempty"`
	Args  []string // "v:" values and "d:" decorators, in order
}

// Values and types that entries and bodies are made of.

type TMyInt int
type TIntSlice []int
type TStruct struct {
	A int
	B string
}
type TPtr struct{ N int }
type TStr struct{ N int }

func (s *TStr) String() string { return fmt.Sprintf("str%d", s.N) }

type tkey struct{}

var tptrs = func() (p [4]*TPtr) {
	for i := range p {
		p[i] = &TPtr{i}
	}
	return
}()
var tstrs = func() (p [4]*TStr) {
	for i := range p {
		p[i] = &TStr{i}
	}
	return
}()
var tchans = [4]chan int{make(chan int, 1), make(chan int, 2), make(chan int, 3), make(chan int, 4)}

var TTypes = map[string]reflect.Type{
	"int":      reflect.TypeOf(0),
	"string":   reflect.TypeOf(""),
	"float64":  reflect.TypeOf(0.5),
	"bool":     reflect.TypeOf(true),
	"myint":    reflect.TypeOf(TMyInt(0)),
	"struct":   reflect.TypeOf(TStruct{}),
	"ptr":      reflect.TypeOf(&TPtr{}),
	"error":    reflect.TypeOf((*error)(nil)).Elem(),
	"stringer": reflect.TypeOf((*fmt.Stringer)(nil)).Elem(),
	"any":      reflect.TypeOf((*any)(nil)).Elem(),
	"ints":     reflect.TypeOf([]int{}),
	"anys":     reflect.TypeOf([]any{}),
	"map":      reflect.TypeOf(map[string]int{}),
	"func":     reflect.TypeOf(func() int { return 0 }),
	"chan":     reflect.TypeOf(make(chan int)),
	"ctx":      reflect.TypeOf((*context.Context)(nil)).Elem(),
}

// TVal makes the value a token stands for.
func TVal(tok string) any {
	k, v, _ := strings.Cut(tok, ":")
	i, _ := strconv.Atoi(v)
	switch k {
	case "i":
		return i
	case "s":
		return v
	case "f":
		return float64(i) / 2
	case "b":
		return i > 0
	case "my":
		return TMyInt(i)
	case "st":
		return TStruct{i, "x"}
	case "p":
		return tptrs[i%4]
	case "pn":
		return (*TPtr)(nil)
	case "e":
		return errors.New("error " + v)
	case "sp":
		return tstrs[i%4]
	case "L":
		return []int{i, i + 1}
	case "Ln":
		return []int(nil)
	case "IS":
		return TIntSlice{i, i + 2}
	case "A":
		return []any{i, "x", nil}
	case "Ae":
		return []any{}
	case "As":
		return []string{"p", v}
	case "M":
		return map[string]int{"a": i, "b": 2}
	case "fn":
		return func() int { return i }
	case "c":
		return tchans[i%4]
	case "x":
		return context.WithValue(context.Background(), tkey{}, i)
	case "n":
		return nil
	}
	panic("value " + tok)
}

// TRender describes a value so that different values have different descriptions.
func TRender(v reflect.Value) string {
	if !v.IsValid() {
		return "nil"
	}
	if v.Kind() == reflect.Interface {
		if v.IsNil() {
			return "nil"
		}
		return TRender(v.Elem())
	}
	if c, ok := v.Interface().(context.Context); ok {
		return fmt.Sprint("context ", c.Value(tkey{}))
	}
	switch x := v.Interface().(type) {
	case *TPtr:
		if x == nil {
			return "ptr nil"
		}
		return fmt.Sprintf("ptr %d %v", x.N, tptrs[x.N] == x)
	case *TStr:
		if x == nil {
			return "str nil"
		}
		return fmt.Sprintf("str %d %v", x.N, tstrs[x.N] == x)
	case func() int:
		if x == nil {
			return "func nil"
		}
		return fmt.Sprintf("func %d", x())
	case chan int:
		return fmt.Sprintf("chan %d", cap(x))
	case error:
		return "error " + x.Error()
	}
	if v.Kind() == reflect.Slice {
		s := fmt.Sprintf("%v nil=%v", v.Type(), v.IsNil())
		for i := 0; i < v.Len(); i++ {
			s += " <" + TRender(v.Index(i)) + ">"
		}
		return s
	}
	if v.Kind() == reflect.Map && v.IsNil() {
		return "map nil"
	}
	return fmt.Sprintf("%T %#v", v.Interface(), v.Interface())
}

// TRenderAll describes the arguments a function was called with.
func TRenderAll(in []reflect.Value, variadic bool) string {
	var out []string
	for i, v := range in {
		if variadic && i == len(in)-1 {
			for j := 0; j < v.Len(); j++ {
				out = append(out, "..."+TRender(v.Index(j)))
			}
			continue
		}
		out = append(out, TRender(v))
	}
	return strings.Join(out, "; ")
}

// Package wlib holds functions of many shapes through which the interpreter's calls into Ginkgo are routed.
package wlib

import (
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/onsi/ginkgo/v2"
	"github.com/onsi/ginkgo/v2/types"
)

// Link is one function of a chain of calls.
type Link struct {
	F    func(*Link)
	Next *Link
	Mark bool
	N    int
	D    any
}

var lock sync.Mutex
var marked = map[string]bool{}

// Mark notes that the calling function is a helper.
func Mark() { note(3) }

// MarkCaller notes that the caller of the calling function is a helper.
func MarkCaller() { note(4) }

func note(skip int) {
	pc := make([]uintptr, 1)
	runtime.Callers(skip, pc)
	f, _ := runtime.CallersFrames(pc).Next()
	lock.Lock()
	marked[f.Function] = true
	lock.Unlock()
}

// Stack lists the frames from the caller's caller on: function, file, line and whether the function is a helper.
func Stack() (out [][4]any) {
	pc := make([]uintptr, 400)
	fs := runtime.CallersFrames(pc[:runtime.Callers(3, pc)])
	lock.Lock()
	defer lock.Unlock()
	for {
		f, more := fs.Next()
		out = append(out, [4]any{f.Function, f.File, f.Line, marked[f.Function]})
		if !more {
			return
		}
	}
}

type T struct{ a int }
type V struct{ b string }
type iface interface{ Call(*Link) }

func (t *T) Call(l *Link) {
	if l.Mark {
		Mark()
		ginkgo.GinkgoHelper()
	}
	l.Next.F(l.Next)
}

func (v V) Call(l *Link) {
	if l.Mark {
		Mark()
		ginkgo.GinkgoHelper()
	}
	l.Next.F(l.Next)
}

func Plain(l *Link) {
	if l.Mark {
		Mark()
		ginkgo.GinkgoHelper()
	}
	l.Next.F(l.Next)
}

func Plain2(l *Link) {
	if l.Mark {
		Mark()
		types.MarkAsHelper()
	}
	l.Next.F(l.Next)
}

func Iface(l *Link) {
	var i iface = V{"x"}
	if l.N%2 == 1 {
		i = &T{1}
	}
	i.Call(l)
}

func generic[X any](l *Link, x X) {
	if l.Mark {
		Mark()
		ginkgo.GinkgoHelper()
	}
	l.Next.F(l.Next)
}

func Generic(l *Link) {
	if l.N%2 == 1 {
		generic(l, "s")
	} else {
		generic(l, 1)
	}
}

var Closure = func(l *Link) {
	if l.Mark {
		Mark()
		ginkgo.GinkgoHelper()
	}
	l.Next.F(l.Next)
}

func Captured(l *Link) {
	f := func(n int) {
		if l.Mark && n >= 0 {
			Mark()
			ginkgo.GinkgoHelper()
		}
		l.Next.F(l.Next)
	}
	f(l.N)
}

func Deferred(l *Link) {
	if l.Mark {
		Mark()
		ginkgo.GinkgoHelper()
	}
	defer l.Next.F(l.Next)
}

func Panicked(l *Link) {
	defer func() {
		if l.Mark {
			Mark()
			ginkgo.GinkgoHelper()
		}
		recover()
		l.Next.F(l.Next)
	}()
	panic("caught")
}

func Sorted(l *Link) {
	if l.Mark {
		Mark()
		ginkgo.GinkgoHelper()
	}
	done := false
	sort.Slice([]int{3, 1, 2}, func(i, j int) bool {
		if !done {
			done = true
			l.Next.F(l.Next)
		}
		return false
	})
}

func Mapped(l *Link) {
	strings.Map(func(r rune) rune {
		if l.Mark {
			Mark()
			ginkgo.GinkgoHelper()
		}
		l.Next.F(l.Next)
		return r
	}, "x")
}

func Reflected(l *Link) {
	if l.Mark {
		Mark()
		ginkgo.GinkgoHelper()
	}
	reflect.ValueOf(l.Next.F).Call([]reflect.Value{reflect.ValueOf(l.Next)})
}

func Once(l *Link) {
	new(sync.Once).Do(func() {
		l.Next.F(l.Next)
	})
}

func recurse(l *Link, n int) {
	if l.Mark {
		Mark()
		ginkgo.GinkgoHelper()
	}
	if n > 0 {
		recurse(l, n-1)
		return
	}
	l.Next.F(l.Next)
}

func Recursive(l *Link) { recurse(l, l.N) }

func tiny(l *Link) { l.Next.F(l.Next) }

func Inlined(l *Link) {
	if l.Mark {
		Mark()
		ginkgo.GinkgoHelper()
	}
	tiny(l)
}

func helper() { types.MarkAsHelper(1) }

func Indirect(l *Link) {
	if l.Mark {
		Mark()
		helper()
	}
	l.Next.F(l.Next)
}

// ForCaller marks whoever called it.
func ForCaller(l *Link) {
	if l.Mark {
		MarkCaller()
		types.MarkAsHelper(1)
	}
	l.Next.F(l.Next)
}

// Ranged goes on in the body of a loop over a function.
func Ranged(l *Link) {
	if l.Mark {
		Mark()
		ginkgo.GinkgoHelper()
	}
	for range func(yield func() bool) { yield() } {
		l.Next.F(l.Next)
	}
}

// THelper uses the testing object (only while specs run).
func THelper(l *Link) {
	if l.Mark {
		Mark()
		ginkgo.GinkgoT().Helper()
	}
	l.Next.F(l.Next)
}

// Goroutine goes on in another goroutine (only while specs run).
func Goroutine(l *Link) {
	done := make(chan bool)
	go func() {
		defer close(done)
		defer ginkgo.GinkgoRecover()
		l.Next.F(l.Next)
	}()
	<-done
}

var Shapes = map[string]func(*Link){
	"Plain": Plain, "Plain2": Plain2, "Iface": Iface, "Generic": Generic, "Closure": Closure, "Captured": Captured, "Deferred": Deferred, "Panicked": Panicked, "Sorted": Sorted, "Mapped": Mapped,
	"Reflected": Reflected, "Once": Once, "Recursive": Recursive, "Inlined": Inlined, "Ranged": Ranged, "Indirect": Indirect, "ForCaller": ForCaller, "THelper": THelper, "Goroutine": Goroutine,
	"Method": (&T{2}).Call, "Expr": func(l *Link) { V.Call(V{}, l) },
}

// Package sdoc defines the suite description language shared by the generator, the reference model and the
// interpreter suite that executes it with the real framework.
package sdoc

// Act is one step of a node body.
type Act struct {
	K    string   `json:"k"`            // kind
	S    string   `json:"s,omitempty"`  // text payload
	N    int      `json:"n,omitempty"`  // numeric payload (ms, counts, exit codes)
	ID   int      `json:"id,omitempty"` // node id for cleanups registered by this act
	B    []Act    `json:"b,omitempty"`  // body of a registered cleanup / callback
	V    string   `json:"v,omitempty"`  // variant
	Inv  []int    `json:"i,omitempty"`  // only on these (0-based) invocations of the node for the current spec
	Spec []int    `json:"sp,omitempty"` // only when the current spec's subject id is one of these
	Proc []int    `json:"p,omitempty"`  // only on these processes
	A    []string `json:"a,omitempty"`  // further arguments
	Decl *Node    `json:"d,omitempty"`  // node declared by this act
}

type Loc struct {
	F string `json:"f"`
	L int    `json:"l"`
}

// Node is a container, subject, setup/teardown or suite-level node.
type Node struct {
	ID   int    `json:"id"`
	K    string `json:"k"`
	Text string `json:"t,omitempty"`
	Loc  Loc    `json:"loc"`

	Focus, Pending, Serial, Ordered, ContOnFail, OncePerOrdered bool
	Flake, MustPass                                             int
	Labels                                                      []string
	NodeTimeout, SpecTimeout, GracePeriod, PollAfter, PollEvery int // ms; GracePeriod/Poll*: -1 = unset, handled by Has*
	HasGrace, HasPoll                                           bool
	Ctx                                                         bool     // body takes a SpecContext
	Via                                                         string   // DSL spelling variant
	Raw                                                         []string `json:"raw,omitempty"` // all arguments, in order (see interp's raw_test.go)
	Table                                                       *Table   `json:"table,omitempty"`

	Body  []Act   `json:"body,omitempty"`
	Body2 []Act   `json:"body2,omitempty"` // all-procs body of SynchronizedBeforeSuite, proc-1 body of SynchronizedAfterSuite
	Kids  []*Node `json:"kids,omitempty"`
}

type Suite struct {
	Desc    string            `json:"desc"`
	Labels  []string          `json:"labels,omitempty"`
	Top     []*Node           `json:"top"`
	Preview bool              `json:"preview,omitempty"` // call PreviewSpecs before RunSpecs and log what it lists
	Env     map[string]string `json:"env,omitempty"`
	RunRaw  []string          `json:"runraw,omitempty"` // further arguments of RunSpecs (see interp's raw_test.go)
	Twice   bool              `json:"twice,omitempty"`  // call RunSpecs twice
	Where   []*WItem          `json:"where,omitempty"`  // calls made through chains of functions (see interp's where_test.go)
}

// Event is one line of the log written from inside user code.
type Event struct {
	T    int64  `json:"t"`           // CLOCK_MONOTONIC ns
	P    int    `json:"p"`           // parallel process
	E    string `json:"e"`           // enter, exit, act, ...
	N    int    `json:"n,omitempty"` // node id
	Part int    `json:"part,omitempty"`
	Spec int    `json:"s,omitempty"` // subject id of the current spec (0: none)
	Inv  int    `json:"i,omitempty"` // invocation of the node for this spec on this process
	Att  int    `json:"att,omitempty"`
	X    string `json:"x,omitempty"`
	OK   bool   `json:"ok,omitempty"`
	Ln   int    `json:"ln,omitempty"`
}

func has(xs []int, x int) bool {
	if len(xs) == 0 {
		return true
	}
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// Applies tells whether the act is performed in the given circumstances.
func (a *Act) Applies(inv, spec, proc int) bool {
	return has(a.Inv, inv) && has(a.Spec, spec) && has(a.Proc, proc)
}

// Walk visits all nodes of the suite in declaration order with their ancestor chain.
func (s *Suite) Walk(f func(n *Node, anc []*Node)) {
	var rec func(ns []*Node, anc []*Node)
	rec = func(ns []*Node, anc []*Node) {
		for _, n := range ns {
			f(n, anc)
			if len(n.Kids) > 0 {
				rec(n.Kids, append(append([]*Node{}, anc...), n))
			}
		}
	}
	rec(s.Top, nil)
}

package sdoc

// WItem is a call into Ginkgo made through a chain of functions.
type WItem struct {
	ID    int
	K     string // what is called
	V     int    `json:",omitempty"` // which spelling
	Chain []WLink
	Mark  bool `json:",omitempty"` // the calling function marks itself as a helper
	Off   int  // offset; -1: none
	Kids  []*WItem
}

type WLink struct {
	F    string
	Mark bool `json:",omitempty"`
	N    int  `json:",omitempty"`
}

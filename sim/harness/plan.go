// Package harness generates workloads for simulated go-snaps test processes, executes them under
// the simulator and judges every observable effect against an independent model.
package harness

import (
	"encoding/json"
	"strconv"

	"github.com/gkampitakis/go-snaps/verifsim/simrt"
)

// Raw is a byte string that survives JSON whatever it holds.
type Raw string

func (r Raw) MarshalJSON() ([]byte, error) { return json.Marshal(strconv.QuoteToASCII(string(r))) }
func (r *Raw) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	u, err := strconv.Unquote(s)
	*r = Raw(u)
	return err
}

// Plan is a complete, self-contained history of simulated processes: it and the code decide
// everything that happens.
type Plan struct {
	V    int
	Prop string `json:",omitempty"`
	Seed uint64
	Dir  int        // index of the simulated package
	Init []FileSpec `json:",omitempty"`
	Cfgs []CfgSpec  `json:",omitempty"`
	Runs []RunSpec
	Note string `json:",omitempty"`
	// Pairs of texts given to the diff engine directly (C13).
	Pairs []Pair `json:",omitempty"`
	// Strict also judges the situations of the recorded findings that have no repair.
	Strict bool `json:",omitempty"`
}

type FileSpec struct {
	Path  string
	Data  Raw
	Del   bool `json:",omitempty"`
	IsDir bool `json:",omitempty"`
}

// CfgSpec is one snaps.Config; it is built once per simulated process and shared by the calls using it.
type CfgSpec struct {
	Dir, File, Ext *string   `json:",omitempty"`
	Update         *bool     `json:",omitempty"`
	JSON           *JSONSpec `json:",omitempty"`
	Fresh          bool      `json:",omitempty"` // built anew at each call
}

type JSONSpec struct {
	Width  int
	Indent string
	Sort   bool
}

type RunSpec struct {
	Env      map[string]string `json:",omitempty"`
	Trim     bool              `json:",omitempty"`
	Start    string            `json:",omitempty"` // initial working directory, the package's by default
	RunPat   string            `json:",omitempty"`
	Count    int               `json:",omitempty"`
	Parallel int               `json:",omitempty"`
	Clean    []CleanSpec       `json:",omitempty"`
	Tests    []TestSpec
	Pre      []FileSpec `json:",omitempty"` // edits made to the disk before the run
	Sched    simrt.Sched
	Faults   []simrt.Fault `json:",omitempty"`
	MapSeed  uint64
	Chunk    int   `json:",omitempty"`
	StepNS   int64 `json:",omitempty"`
	ShortRd  bool  `json:",omitempty"`
}

type CleanSpec struct{ Sort bool }

type TestSpec struct {
	Name string
	File int // test file index within the package
	Ops  []Op
}

// Op is one step of a test.
type Op struct {
	K     string    // snap json yaml ssnap sjson | run parallel skip skipf skipnow fatal tskip chdir log fail cleanup
	Cfg   int       // 1-based index into Plan.Cfgs; 0: package-level function
	Shape string    `json:",omitempty"`
	Vals  []Val     `json:",omitempty"`
	J     *JIn      `json:",omitempty"`
	Y     *YIn      `json:",omitempty"`
	M     []MSpec   `json:",omitempty"`
	Sub   *TestSpec `json:",omitempty"`
	Ops   []Op      `json:",omitempty"` // cleanup body
	Arg   string    `json:",omitempty"`
	Wrap  int       `json:",omitempty"` // the test is passed inside another value, see shapes.Wrap
	Iters []int     `json:",omitempty"` // only in these -count iterations
}

func (o *Op) isMatch() bool {
	switch o.K {
	case "snap", "json", "yaml", "ssnap", "sjson":
		return true
	}
	return false
}

func (o *Op) standalone() bool { return o.K == "ssnap" || o.K == "sjson" }

// JIn is a JSON input: a document in one of the accepted forms.
type JIn struct {
	Form string // str, bytes, go, text (Text as string), btext (Text as bytes), bad (unmarshalable Go value)
	Doc  *JV    `json:",omitempty"`
	Ws   uint64 `json:",omitempty"` // whitespace variation, 0: compact
	Perm uint64 `json:",omitempty"` // member order variation, 0: as is
	Text Raw    `json:",omitempty"`
	Buf  int    `json:",omitempty"` // >0: shared byte buffer with this id
}

// JV is a JSON value with ordered members; S holds the raw token of strings and numbers.
type JV struct {
	K  string   // o a s n t f z
	Ks []string `json:",omitempty"` // raw key tokens, quotes included
	L  []*JV    `json:",omitempty"`
	S  string   `json:",omitempty"`
}

// YIn is a YAML input.
type YIn struct {
	Form string // str, bytes, go
	Text Raw    `json:",omitempty"`
	Go   *Val   `json:",omitempty"`
	Buf  int    `json:",omitempty"`
	Tree *JV    `json:",omitempty"` // generator's view of Text
	More []*JV  `json:",omitempty"` // further documents
	Deco uint64 `json:",omitempty"` // comments and layout
	Was  Raw    `json:",omitempty"` // a text that differs at masked paths only
	// Strict also judges the situations of the recorded findings that have no repair.
	Strict bool `json:",omitempty"`
}

// MSpec is a matcher.
type MSpec struct {
	K      string // any type custom
	Paths  []string
	Ph     *Val   `json:",omitempty"` // Any placeholder / Custom result
	NoErr  bool   `json:",omitempty"` // ErrOnMissingPath(false)
	T      string `json:",omitempty"` // type name for type; custom: "const", "err", "ident", "mut"
	Shared int    `json:",omitempty"` // >0: matcher object built once per process and shared by calls
}

// Val is a Go value.
type Val struct {
	K  string   // s b i f t n m l st ps e u d rep ch
	S  Raw      `json:",omitempty"`
	N  int64    `json:",omitempty"`
	F  float64  `json:",omitempty"`
	Ks []string `json:",omitempty"`
	L  []Val    `json:",omitempty"`
}

func clonePlan(p *Plan) *Plan {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	q := &Plan{}
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	return q
}

func cloneTests(t []TestSpec) []TestSpec {
	b, err := json.Marshal(t)
	if err != nil {
		panic(err)
	}
	var q []TestSpec
	if err := json.Unmarshal(b, &q); err != nil {
		panic(err)
	}
	return q
}

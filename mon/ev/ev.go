// Package ev holds the event records of the instrumented workload.
package ev

type Job struct {
	I    int      `json:"i"`
	G    string   `json:"g"`
	Op   string   `json:"op"`
	In   string   `json:"in"`
	File string   `json:"file,omitempty"`
	Arg  int      `json:"arg,omitempty"`
	Ins  []string `json:"ins,omitempty"`
}

type Tok struct {
	T     int    `json:"t"`
	ID    string `json:"id"`
	L     int    `json:"l"`
	R     int    `json:"r"`
	Lit   string `json:"lit"`
	Strip string `json:"strip,omitempty"`
	Ln    int    `json:"ln"`
	Col   int    `json:"col"`
	Ln2   int    `json:"ln2"`
	Col2  int    `json:"col2"`
	Ln3   int    `json:"ln3"`
	Col3  int    `json:"col3"`
	Sup   bool   `json:"sup,omitempty"`
}

type PErr struct {
	NT   string   `json:"nt"`
	Alt  int      `json:"alt"`
	Pos  int      `json:"pos"`
	L    int      `json:"l"`
	R    int      `json:"r"`
	ID   string   `json:"id"`
	Ln   int      `json:"ln"`
	Col  int      `json:"col"`
	Exp  []string `json:"exp"`
	TIdx int      `json:"tidx"` // index of Token in Tokens by pointer identity, or -1
	Str  string   `json:"str,omitempty"`
}

type Node struct {
	NT  string   `json:"nt"`
	Alt int      `json:"a"`
	L   int      `json:"l"`
	R   int      `json:"r"`
	K   int      `json:"k"`
	Sym []string `json:"s,omitempty"`
	Ch  [][]int  `json:"c,omitempty"` // children per symbol (nil for a terminal)
	T   []int    `json:"t,omitempty"` // per symbol: token index, -1 not a terminal, -2 not asked
}

// SPPF node kinds: S symbol, I intermediate, P packed
type SNode struct {
	K    string   `json:"k"`
	Sym  string   `json:"y,omitempty"`
	NT   string   `json:"nt,omitempty"`
	Body []string `json:"b,omitempty"`
	Pos  int      `json:"p"`
	L    int      `json:"l"`
	Piv  int      `json:"v"`
	R    int      `json:"r"`
	Ch   []int    `json:"c,omitempty"`
	Lab  string   `json:"lab,omitempty"`
}

type Res struct {
	I      int      `json:"i"`
	Panic  string   `json:"panic,omitempty"`
	Hang   string   `json:"hang,omitempty"`
	Toks   []Tok    `json:"toks,omitempty"`
	OK     bool     `json:"ok,omitempty"`   // set non-nil
	NErr   int      `json:"nerr,omitempty"` // number of errors
	Errs   []PErr   `json:"errs,omitempty"`
	Rext   int      `json:"rext,omitempty"`
	Roots  []int    `json:"roots,omitempty"`
	Nodes  []Node   `json:"nodes,omitempty"`
	All    int      `json:"all,omitempty"`
	AllDup int      `json:"alldup,omitempty"`
	Amb    bool     `json:"amb,omitempty"`
	SRoot  int      `json:"sroot,omitempty"`
	SPPF   []SNode  `json:"sppf,omitempty"`
	Dot    string   `json:"dot,omitempty"`
	Before string   `json:"before,omitempty"`
	After  string   `json:"after,omitempty"`
	Trunc  bool     `json:"trunc,omitempty"`
	Strs   []string `json:"strs,omitempty"`
	Text   string   `json:"text,omitempty"`
	API    string   `json:"api,omitempty"`
	Pos    [][2]int `json:"pos,omitempty"`
	Types  []string `json:"types,omitempty"`
	Calls  []Call   `json:"calls,omitempty"`
	Val    string   `json:"val,omitempty"`
	ErrStr string   `json:"errstr,omitempty"`
	Cycles []string `json:"cycles,omitempty"`
	Work   []Work   `json:"work,omitempty"`
}

// Work is what lexing and parsing one input took: executed blocks and
// allocated bytes.
type Work struct {
	Runes     int    `json:"runes"`
	Toks      int    `json:"toks"`
	LexBlocks uint64 `json:"lb"`
	LexBytes  uint64 `json:"la"`
	Blocks    uint64 `json:"b"`
	Bytes     uint64 `json:"a"`
	OK        bool   `json:"ok"`
	NErr      int    `json:"ne"`
}

// Call is one call of an AST function by an LR(1) parser.
type Call struct {
	F    string   `json:"f"`
	Args []string `json:"a"`
	Ret  string   `json:"r"`
}

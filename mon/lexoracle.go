package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode"
)

/*** Reference lexer: parallel simulation of one NFA per token ***/

type nfaEdge struct {
	x  *LX // nil: epsilon
	to int
}

type NFA struct {
	edges  [][]nfaEdge
	start  int
	final  int
	closed map[int][]int
}

func (n *NFA) state() int {
	n.edges = append(n.edges, nil)
	return len(n.edges) - 1
}

func (n *NFA) edge(a, b int, x *LX) { n.edges[a] = append(n.edges[a], nfaEdge{x, b}) }

func (n *NFA) build(x *LX, from int, defs map[string]*LX) int {
	switch x.Op {
	case LSeq:
		for _, k := range x.Kids {
			from = n.build(k, from, defs)
		}
		return from
	case LRef:
		d := defs[x.Name]
		if d == nil {
			panic("undefined " + x.Name)
		}
		return n.build(d, from, defs)
	case LAlt, LOpt, LStar, LPlus:
		in, out := n.state(), n.state()
		n.edge(from, in, nil)
		for _, k := range x.Kids {
			s := n.state()
			n.edge(in, s, nil)
			n.edge(n.build(k, s, defs), out, nil)
		}
		if x.Op == LOpt || x.Op == LStar {
			n.edge(in, out, nil)
		}
		if x.Op == LStar || x.Op == LPlus {
			n.edge(out, in, nil)
		}
		return out
	}
	to := n.state()
	n.edge(from, to, x)
	return to
}

func newNFA(x *LX, defs map[string]*LX) *NFA {
	n := &NFA{closed: map[int][]int{}}
	n.start = n.state()
	n.final = n.build(x, n.start, defs)
	for s := range n.edges {
		seen := map[int]bool{s: true}
		todo := []int{s}
		for len(todo) > 0 {
			t := todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			n.closed[s] = append(n.closed[s], t)
			for _, e := range n.edges[t] {
				if e.x == nil && !seen[e.to] {
					seen[e.to] = true
					todo = append(todo, e.to)
				}
			}
		}
	}
	return n
}

// step returns the states after reading r from the closed set ss.
func (n *NFA) step(ss map[int]bool, r rune) map[int]bool {
	var out map[int]bool
	for s := range ss {
		for _, e := range n.edges[s] {
			if e.x != nil && e.x.matchRune(r) {
				if out == nil {
					out = map[int]bool{}
				}
				for _, t := range n.closed[e.to] {
					out[t] = true
				}
			}
		}
	}
	return out
}

type LexOracle struct {
	ids      []string
	lit      []bool
	suppress []bool
	nfas     []*NFA
}

func NewLexOracle(g *Grammar) *LexOracle {
	g.markQuoted()
	o := &LexOracle{}
	defs := map[string]*LX{}
	for _, l := range g.Lex {
		o.ids = append(o.ids, l.ID)
		o.lit = append(o.lit, false)
		o.suppress = append(o.suppress, l.Suppress)
		o.nfas = append(o.nfas, newNFA(l.X, defs))
		defs[l.ID] = l.X
	}
	for _, t := range g.Terminals() {
		if t.Kind == KLit {
			o.ids = append(o.ids, t.TermID())
			o.lit = append(o.lit, true)
			o.suppress = append(o.suppress, false)
			o.nfas = append(o.nfas, newNFA(lexSeqOfString(t.Value()), nil))
		}
	}
	return o
}

type OTok struct {
	L, R     int
	Accept   []string // candidates by precedence: one literal, or the token rules
	Suppress bool
	Mixed    bool // candidates differ in suppression
	Steps    int
}

// Scan returns the token at position i (which must not be white space).
func (o *LexOracle) Scan(in []rune, i int) OTok {
	cur := make([]map[int]bool, len(o.nfas))
	alive := false
	for k, n := range o.nfas {
		ss := map[int]bool{}
		for _, s := range n.closed[n.start] {
			ss[s] = true
		}
		cur[k] = n.step(ss, in[i])
		alive = alive || len(cur[k]) > 0
	}
	t := OTok{L: i, R: i + 1, Steps: 1}
	if !alive {
		return t
	}
	for {
		var lits, toks []string
		for k, n := range o.nfas {
			if cur[k][n.final] {
				if o.lit[k] {
					lits = append(lits, o.ids[k])
				} else {
					toks = append(toks, o.ids[k])
				}
			}
		}
		finish := func() {
			if len(lits) > 0 {
				t.Accept = lits
				return
			}
			t.Accept = toks
			for k, id := range o.ids {
				if !o.lit[k] && contains(toks, id) {
					if o.suppress[k] != t.Suppress && id != toks[0] {
						t.Mixed = true
					}
					if id == toks[0] {
						t.Suppress = o.suppress[k]
					}
				}
			}
		}
		if t.R >= len(in) {
			finish()
			return t
		}
		next := make([]map[int]bool, len(o.nfas))
		alive := false
		for k, n := range o.nfas {
			if len(cur[k]) > 0 {
				next[k] = n.step(cur[k], in[t.R])
				alive = alive || len(next[k]) > 0
			}
		}
		if !alive {
			finish()
			if len(t.Accept) == 0 {
				t.R++ // the character that fits no token
			}
			return t
		}
		cur = next
		t.R++
		t.Steps++
	}
}

func contains(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

// Lex returns all tokens, suppressed ones included, without EOF.
func (o *LexOracle) Lex(in []rune) []OTok {
	var out []OTok
	for i := 0; i < len(in); {
		if unicode.IsSpace(in[i]) {
			i++
			continue
		}
		t := o.Scan(in, i)
		out = append(out, t)
		i = t.R
	}
	return out
}

/*** Lexical grammar generation ***/

var lexAlpha = []rune("abcdxyzABZ0189_-+*/=<>!.,;:#\\\"'$~^éλЖ中٣Ⅷǅ𝔸\u0301€\u200d\ufffd")

// moreAlpha has characters of the Unicode classes that lexAlpha has none of.
const moreAlpha = "kQ5 \t\n\r\u00a0\u0085\u2003\u0000\x7f²½ªµßÿĀŉǄǆʰͅΩжאئक्०ๅ᎐ᾳ‐‘“⁰₂ℂℇⅠⅸ⑴〇々ぁ漢ꙮ\ufeff𐐀𝟘😀\U0010ffff"

var lexSpaces = []rune(" \t\n\r\u00a0\u0085\u2003\v\f\u2028\u2029\u3000")

type lexGen struct {
	r     *Rng
	alpha []rune
	refs  []string
}

func (g *lexGen) str(lo, hi int, spaces bool) string {
	var s []rune
	for k := g.r.Range(lo, hi); k > 0; k-- {
		if spaces && g.r.Chance(12) {
			s = append(s, pick(g.r, []rune(" \n\t\r")))
		} else {
			s = append(s, pick(g.r, g.alpha))
		}
	}
	return string(s)
}

var setNames = []string{"L", "Lu", "Ll", "N", "Nd", "P", "Letter", "Upper", "Lower", "Digit", "Number", "Punct", "Symbol", "Sm", "Sc", "Mn", "M", "Lt", "Nl", "Zs", "ASCII_Hex_Digit", "Hex_Digit", "White_Space", "Pattern_Syntax", "Dash", "Ideographic", "Other_Lowercase", "STerm", "Diacritic", "Quotation_Mark", "Title", "Lo", "Po", "S"}

func (g *lexGen) char() *LX {
	switch n := g.r.Intn(100); {
	case n < 38:
		if g.r.Chance(5) {
			return chr(pick(g.r, []rune(" \n\t\r")))
		}
		return chr(pick(g.r, g.alpha))
	case n < 58:
		return anyOf(g.str(1, 5, g.r.Chance(30)))
	case n < 72:
		return notOf(g.str(1, 4, g.r.Chance(40)))
	case n < 75:
		return dot()
	case n < 91:
		return class(pick(g.r, []string{"letter", "upcase", "lowcase", "number", "letter", "number"}))
	}
	s := &LX{Op: LSet, Set: []SetSpec{{false, pick(g.r, setNames)}}}
	for g.r.Chance(45) && len(s.Set) < 4 {
		sp := SetSpec{g.r.Chance(50), pick(g.r, setNames)}
		dup := false
		for _, t := range s.Set {
			if t == sp {
				dup = true
			}
		}
		if !dup {
			s.Set = append(s.Set, sp)
		}
	}
	return s
}

func (g *lexGen) seq(lo, hi, depth int) *LX {
	x := seq()
	for k := g.r.Range(lo, hi); k > 0; k-- {
		switch n := g.r.Intn(100); {
		case n < 30 && depth > 0:
			b := &LX{Op: pick(g.r, []LexOp{LAlt, LOpt, LStar, LPlus, LStar})}
			m := g.r.Range(1, 3)
			wide := depth > 1 && g.r.Chance(6)
			if wide {
				m = g.r.Range(10, 13)
			}
			for ; m > 0; m-- {
				switch {
				case wide && g.r.Chance(15):
					b.Kids = append(b.Kids, g.seq(10, 12, 0))
				case wide:
					b.Kids = append(b.Kids, g.seq(1, 3, 0))
				default:
					b.Kids = append(b.Kids, g.seq(1, 2, depth-1))
				}
			}
			x.Kids = append(x.Kids, b)
		case n < 38 && len(g.refs) > 0:
			x.Kids = append(x.Kids, ref(pick(g.r, g.refs)))
		default:
			x.Kids = append(x.Kids, g.char())
		}
	}
	return x
}

// randLexGrammar generates token definitions over a small alphabet.
func randLexGrammar(r *Rng) *Grammar {
	g := &lexGen{r: r}
	al := append([]rune(nil), lexAlpha...)
	shuffle(r, al)
	g.alpha = al[:r.Range(3, 9)]
	out := &Grammar{Name: "randlex"}
	n := r.Range(1, 5)
	lits := map[string]bool{}
	for k := r.Intn(5); k > 0; k-- {
		s := ""
		for i := r.Range(1, 3); i > 0; i-- {
			s += string(pick(r, g.alpha))
		}
		lits[s] = true
		if r.Chance(30) {
			lits[s+string(pick(r, g.alpha))] = true
		}
	}
	st := Rule{Head: "S"}
	for i := 0; i < n; i++ {
		id := "tk" + string(rune('0'+i))
		l := LexRule{ID: id, Suppress: i > 0 && r.Chance(20), X: g.seq(1, 3, 2)}
		g.refs = append(g.refs, id)
		out.Lex = append(out.Lex, l)
		if !l.Suppress {
			st.Alts = append(st.Alts, []Sym{Tok(id)})
		}
	}
	if r.Chance(30) { // declaration order must not matter but for references
		for i := range out.Lex {
			_ = i
		}
	}
	for _, s := range sortedStrs(lits) {
		if !lits[s] {
			continue
		}
		st.Alts = append(st.Alts, []Sym{Lit(quoteLit(s))})
	}
	st.Alts = append(st.Alts, []Sym{NT("S"), NT("S")})
	out.Rules = []Rule{st}
	if lits["$"] || NewLexOracle(out).dfaSize(120) >= 120 {
		return randLexGrammar(r) // "$" is the name of the end of input
	}
	return out
}

// dfaSize estimates the number of states of a deterministic lexer, up to max.
func (o *LexOracle) dfaSize(max int) int {
	alpha := map[rune]bool{}
	for _, c := range lexAlpha {
		alpha[c] = true
	}
	for _, c := range "\u2028\v" + moreAlpha {
		alpha[c] = true
	}
	// one character for every set of matching symbols
	one := map[string]rune{}
	for ch := range alpha {
		var b []byte
		for _, n := range o.nfas {
			for _, es := range n.edges {
				for _, e := range es {
					if e.x == nil {
						continue
					}
					if e.x.matchRune(ch) {
						b = append(b, 1)
					} else {
						b = append(b, 0)
					}
				}
			}
		}
		one[string(b)] = ch
	}
	type st []map[int]bool
	key := func(s st) string {
		var b strings.Builder
		for _, m := range s {
			var ks []int
			for k := range m {
				ks = append(ks, k)
			}
			sort.Ints(ks)
			fmt.Fprint(&b, ks)
		}
		return b.String()
	}
	s0 := make(st, len(o.nfas))
	for k, n := range o.nfas {
		s0[k] = map[int]bool{}
		for _, s := range n.closed[n.start] {
			s0[k][s] = true
		}
	}
	seen := map[string]bool{key(s0): true}
	todo := []st{s0}
	for len(todo) > 0 && len(seen) < max {
		s := todo[0]
		todo = todo[1:]
		for _, r := range one {
			t := make(st, len(s))
			live := false
			for k, n := range o.nfas {
				t[k] = n.step(s[k], r)
				live = live || len(t[k]) > 0
			}
			if kk := key(t); live && !seen[kk] {
				seen[kk] = true
				todo = append(todo, t)
			}
		}
	}
	return len(seen)
}

// sampleRune returns a rune that x matches, or false.
func (x *LX) sampleRune(r *Rng, alpha []rune) (rune, bool) {
	for i := 0; i < 12; i++ {
		c := pick(r, alpha)
		if x.matchRune(c) {
			return c, true
		}
	}
	for i := 0; i < 60; i++ {
		c := pick(r, lexAlpha)
		if x.Op == LAny && len(x.Str) > 0 {
			c = pick(r, x.Str)
		}
		if x.Op == LChar {
			c = x.R
		}
		if x.matchRune(c) {
			return c, true
		}
	}
	return 0, false
}

// pickKid prefers the alternates that were used least.
func pickKid(r *Rng, kids []*LX, used map[*LX]int) *LX {
	k := pick(r, kids)
	if used != nil && r.Chance(70) {
		for i, off := 0, r.Intn(len(kids)); i < len(kids); i++ {
			if x := kids[(i+off)%len(kids)]; used[x] < used[k] {
				k = x
			}
		}
	}
	if used != nil {
		used[k]++
	}
	return k
}

// width is the number of characters named in x, references aside.
func (x *LX) width() int {
	n := 1
	for _, k := range x.Kids {
		n += k.width()
	}
	return n
}

func (x *LX) sample(r *Rng, alpha []rune, defs map[string]*LX, used map[*LX]int, out *[]rune) {
	if len(*out) > 60 {
		return
	}
	switch x.Op {
	case LSeq:
		for _, k := range x.Kids {
			k.sample(r, alpha, defs, used, out)
		}
	case LRef:
		defs[x.Name].sample(r, alpha, defs, used, out)
	case LAlt:
		pickKid(r, x.Kids, used).sample(r, alpha, defs, used, out)
	case LOpt:
		if r.Chance(50) {
			pickKid(r, x.Kids, used).sample(r, alpha, defs, used, out)
		}
	case LStar, LPlus:
		k := r.Intn(4)
		if x.Op == LPlus {
			k++
		}
		for ; k > 0; k-- {
			pickKid(r, x.Kids, used).sample(r, alpha, defs, used, out)
		}
	default:
		if c, ok := x.sampleRune(r, alpha); ok {
			*out = append(*out, c)
		}
	}
}

// mentioned collects the runes named in x.
func (x *LX) mentioned(m map[rune]bool) {
	if x.Op == LChar {
		m[x.R] = true
	}
	for _, c := range x.Str {
		m[c] = true
	}
	for _, k := range x.Kids {
		k.mentioned(m)
	}
}

// lexInputs generates inputs for the token definitions of g.
func lexInputs(r *Rng, g *Grammar, n int) []string {
	m := map[rune]bool{}
	defs := map[string]*LX{}
	for _, l := range g.Lex {
		l.X.mentioned(m)
		defs[l.ID] = l.X
	}
	var lits []string
	for _, t := range g.Terminals() {
		if t.Kind == KLit {
			lits = append(lits, t.Value())
			for _, c := range t.Value() {
				m[c] = true
			}
		}
	}
	var alpha []rune
	for _, c := range lexAlpha {
		if m[c] || r.Chance(15) {
			alpha = append(alpha, c)
			delete(m, c)
		}
	}
	var extra []string
	for c := range m {
		extra = append(extra, string(c))
	}
	mm := map[string]bool{}
	for _, e := range extra {
		mm[e] = true
	}
	for _, e := range sortedStrs(mm) {
		alpha = append(alpha, []rune(e)...)
	}
	if len(alpha) == 0 {
		alpha = []rune{'a'}
	}
	var out []string
	seen := map[string]bool{}
	add := func(s []rune) {
		if !seen[string(s)] {
			seen[string(s)] = true
			out = append(out, string(s))
		}
	}
	add(nil)
	for _, a := range alpha {
		add([]rune{a})
		for _, b := range alpha {
			if len(alpha) <= 12 || r.Chance(30) {
				add([]rune{a, b})
			}
		}
	}
	used := map[*LX]int{} // all alternates of all tokens, with what they leave
	for _, l := range g.Lex {
		for k := 2 + l.X.width()/2; k > 0; k-- {
			var s []rune
			l.X.sample(r, alpha, defs, used, &s)
			add(s)
			if len(s) > 1 && r.Chance(30) {
				add(s[:r.Range(1, len(s)-1)])
			}
		}
	}
	for len(out) < n || len(out) < 20 {
		var s []rune
		for k := r.Range(1, 6); k > 0; k-- {
			switch r.Intn(6) {
			case 0, 1, 2:
				if len(g.Lex) > 0 {
					pick(r, g.Lex).X.sample(r, alpha, defs, nil, &s)
				}
			case 3:
				if len(lits) > 0 {
					s = append(s, []rune(pick(r, lits))...)
				}
			case 4:
				for i := r.Range(1, 4); i > 0; i-- {
					s = append(s, pick(r, alpha))
				}
			case 5:
				if len(s) > 0 { // mutate
					p := r.Intn(len(s))
					switch r.Intn(3) {
					case 0:
						s = append(s[:p], s[p+1:]...)
					case 1:
						s[p] = pick(r, alpha)
					case 2:
						s = s[:p]
					}
				}
			}
			if r.Chance(35) {
				s = append(s, pick(r, lexSpaces))
			}
		}
		before := len(out)
		add(s)
		if len(out) == before {
			if n--; n < 0 {
				break
			}
		}
	}
	return out
}

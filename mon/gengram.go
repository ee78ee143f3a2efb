package main

import (
	"fmt"
	"strings"
)

/*** Grammar generation ***/

// Token vocabulary used by syntax workloads. Each terminal has a way to write
// a lexeme of it.
type Vocab struct {
	Terms []Sym
	Lex   []LexRule
	// Lexeme returns a lexeme for terminal id
	Lexeme func(r *Rng, id string) string
}

var litPool = []string{"a", "b", "c", "+", "*", "(", ")", "if", "then", "else", ",", ";", "=", "[", "]", ":=", "x", "do", "{", "}", "->", "<", "|", "_", "λ", "#", "begin"}

// mkVocab picks n terminals, a mix of string literals and defined tokens.
func mkVocab(r *Rng, n int) *Vocab {
	v := &Vocab{}
	lits := append([]string(nil), litPool...)
	shuffle(r, lits)
	if r.Chance(10) {
		// literals spelled like another symbol
		lits = append(append([]string(nil), pick(r, clashPool), pick(r, clashPool)), lits...)
		if lits[0] == lits[1] {
			lits = lits[1:]
		}
	}
	useToks := r.Chance(40)
	k := 0
	for len(v.Terms) < n {
		if useToks && len(v.Terms) < 2 && r.Chance(60) {
			if k == 0 {
				v.Terms = append(v.Terms, Tok("num"))
				v.Lex = append(v.Lex, LexRule{"num", false, seq(brk(LPlus, seq(class("number"))))})
			} else if k == 1 {
				v.Terms = append(v.Terms, Tok("name"))
				v.Lex = append(v.Lex, LexRule{"name", false, seq(chr('$'), brk(LStar, seq(class("letter")), seq(class("number"))))})
			}
			k++
			continue
		}
		v.Terms = append(v.Terms, Lit(lits[0]))
		lits = lits[1:]
	}
	if r.Chance(30) {
		v.Lex = append(v.Lex, LexRule{"comment", true, seq(chr('~'), brk(LStar, seq(notOf("~\n"))), chr('~'))})
	}
	shuffle(r, v.Terms)
	v.Lexeme = func(r *Rng, id string) string {
		switch id {
		case "num":
			return pick(r, []string{"0", "7", "42", "1234567", "٣"})
		case "name":
			return pick(r, []string{"$", "$x", "$abc1", "$é9"})
		}
		return id
	}
	return v
}

var clashPool = []string{"S", "A", "Expr", "num", "comment", "Error", "ϵ", "ℇ", "EOF", "error", "ε"}

var ntNames = []string{"S", "A", "B", "C", "D", "E", "Expr", "Stmt", "List", "Item", "T_x", "Ünit", "Opt", "X", "Error", "A1", "New"}

type GenOpts struct {
	MaxNT, MaxAlts, MaxLen, MaxTerms int
	NTPct                            int // chance that a symbol is a nonterminal
	EmptyPct                         int // chance that an alternate is empty
}

// randGrammar generates a random reduced grammar: every nonterminal is
// reachable and productive.
func randGrammar(r *Rng, o GenOpts) *Grammar {
	for {
		v := mkVocab(r, r.Range(1, o.MaxTerms))
		n := r.Range(1, o.MaxNT)
		names := append([]string(nil), ntNames[1:]...)
		shuffle(r, names)
		names = append([]string{"S"}, names[:n-1]...)
		g := &Grammar{Name: "random", Lex: v.Lex}
		for i := 0; i < n; i++ {
			ru := Rule{Head: names[i]}
			na := r.Range(1, o.MaxAlts)
			for len(ru.Alts) < na {
				var a []Sym
				if !r.Chance(o.EmptyPct) {
					for k := r.Range(1, o.MaxLen); k > 0; k-- {
						if r.Chance(o.NTPct) {
							a = append(a, NT(names[r.Intn(n)]))
						} else {
							a = append(a, pick(r, v.Terms))
						}
					}
				}
				dup := false
				for _, b := range ru.Alts {
					if altString(a) == altString(b) {
						dup = true
					}
				}
				if dup {
					na--
					continue
				}
				ru.Alts = append(ru.Alts, a)
			}
			g.Rules = append(g.Rules, ru)
		}
		if g = reduce(g); g != nil && len(g.Terminals()) > 0 {
			pruneLex(g)
			return g
		}
	}
}

// reduce removes unproductive alternates and unreachable rules.
func reduce(g *Grammar) *Grammar {
	c := NewCFG(g)
	p := c.Productive()
	if !p[0] {
		return nil
	}
	h := &Grammar{Name: g.Name, Lex: g.Lex}
	for i, ru := range g.Rules {
		if !p[i] {
			continue
		}
		nr := Rule{Head: ru.Head}
		for _, a := range ru.Alts {
			ok := true
			for _, s := range a {
				if s.Kind == KNT && !p[c.NIdx[s.Name]] {
					ok = false
				}
			}
			if ok {
				nr.Alts = append(nr.Alts, a)
			}
		}
		h.Rules = append(h.Rules, nr)
	}
	c = NewCFG(h)
	re := c.Reachable()
	out := &Grammar{Name: g.Name, Lex: g.Lex}
	for i, ru := range h.Rules {
		if re[i] {
			out.Rules = append(out.Rules, ru)
		}
	}
	return out
}

// pruneLex drops unused, unsuppressed lex rules.
func pruneLex(g *Grammar) {
	used := map[string]bool{}
	for _, t := range g.Terminals() {
		used[t.TermID()] = true
	}
	var ls []LexRule
	for _, l := range g.Lex {
		if used[l.ID] || l.Suppress {
			ls = append(ls, l)
		}
	}
	g.Lex = ls
}

// parseG parses a compact notation: rules separated by newline, "Head : ...".
// A symbol is a nonterminal iff it is the head of some rule; a symbol starting
// with @ is a token id; everything else is a literal. ε is the empty alternate.
func parseG(name, src string) *Grammar {
	g := &Grammar{Name: name}
	heads := map[string]bool{}
	var lines [][]string
	for _, ln := range strings.Split(src, "\n") {
		f := strings.Fields(ln)
		if len(f) == 0 {
			continue
		}
		heads[f[0]] = true
		lines = append(lines, f)
	}
	for _, f := range lines {
		ru := Rule{Head: f[0]}
		var a []Sym
		for _, s := range f[2:] {
			switch {
			case s == "|":
				ru.Alts = append(ru.Alts, a)
				a = nil
			case s == "ε":
			case len(s) > 2 && s[0] == '\'' && s[len(s)-1] == '\'':
				a = append(a, Lit(quoteLit(s[1:len(s)-1])))
			case heads[s]:
				a = append(a, NT(s))
			default:
				a = append(a, Lit(quoteLit(s)))
			}
		}
		ru.Alts = append(ru.Alts, a)
		g.Rules = append(g.Rules, ru)
	}
	return g
}

// curated families: each exercises a known hard shape.
func curatedGrammars() []*Grammar {
	gs := []*Grammar{
		parseG("ambig-binary", "E : E + E | E * E | a"),
		parseG("ambig-SS", "S : S S | a"),
		parseG("ambig-SSS", "S : b | S S | S S S"),
		parseG("ambig-SSS-empty", "S : b | S S | S S S | ε"),
		parseG("catalan-long", "S : A A A A\nA : a | a a | ε"),
		parseG("prefix-ambig", "S : A A b\nA : a | a a"),
		parseG("prefix-ambig4", "S : A A A c\nA : a | a a | b"),
		parseG("mid-ambig", "S : c A A A c\nA : a | a a | ε"),
		parseG("dangling-else", "S : if E then S | if E then S else S | x\nE : e"),
		parseG("left-rec", "S : S a | b"),
		parseG("right-rec", "S : a S | b"),
		parseG("hidden-left", "S : A S b | x\nA : a | ε"),
		parseG("indirect-left", "S : A a | x\nA : B b | y\nB : S c | z"),
		parseG("cyclic-unit", "S : S | a"),
		parseG("cyclic-indirect", "S : A | b\nA : B | a\nB : S | c"),
		parseG("cyclic-empty", "S : S S | ε"),
		parseG("cyclic-nullable", "S : A S B | a\nA : ε | a\nB : ε | b"),
		parseG("palindromes", "S : a S a | b S b | a | b | ε"),
		parseG("anbn", "S : a S b | ε"),
		parseG("anbncontext", "S : A C\nA : a A b | ε\nC : c C | ε"),
		parseG("inherent-ambig", "S : A B | C D\nA : a A b | ε\nB : c B | ε\nC : a C | ε\nD : b D c | ε"),
		parseG("dyck", "S : ( S ) S | [ S ] S | ε"),
		parseG("all-empty", "S : A B C\nA : ε\nB : ε\nC : ε"),
		parseG("nullable-chain", "S : A B C D\nA : a | ε\nB : b | A\nC : c | B\nD : d | C"),
		parseG("start-completes-early", "S : a | ( S )"),
		parseG("trailing-follow", "S : A | S A\nA : a | ( S )"),
		parseG("ll1-expr", "E : T Ep\nEp : + T Ep | ε\nT : F Tp\nTp : * F Tp | ε\nF : ( E ) | a"),
		parseG("lr-expr", "E : E + T | T\nT : T * F | F\nF : ( E ) | a"),
		parseG("opt-list", "S : [ L ]\nL : ε | M\nM : a | M , a"),
		parseG("gamma1", "S : A S d | B S | ε\nA : a | c\nB : a | b"),
		parseG("many-alts", "S : A S | A\nA : a | b | c | d | e | f | g | h | i | j | k | l | m"),
		parseG("long-alt", "S : a S b S c S d | x"),
		parseG("long-alt-ambig", "S : A B A B A\nA : a | ε\nB : b | a"),
		parseG("prefix-shared", "S : a b c | a b d | a b | a"),
		parseG("unit-chain", "S : A\nA : B\nB : C\nC : D\nD : a | a D"),
		parseG("repeat-nt", "S : A A A\nA : a | b A"),
		parseG("epsilon-middle", "S : a M b\nM : ε | N M\nN : c | ε"),
		parseG("mutual", "S : A\nA : a B | a\nB : b A | b"),
		parseG("only-empty", "S : ε | a S a"),
		parseG("dup-alt-shape", "S : A | B\nA : a b\nB : a b"),
		parseG("nested-ambig", "S : X X | X\nX : Y Y | Y\nY : a | a a"),
		parseG("follow-confusion", "S : a A c | b A d\nA : x | ε"),
		parseG("non-slr", "S : L = R | R\nL : * R | i\nR : L"),
		parseG("non-lalr", "S : a A d | b B d | a B e | b A e\nA : c\nB : c"),
		parseG("lr2", "S : A\nA : B a b | C a c\nB : x\nC : x"),
		parseG("even-odd", "S : E | O\nE : ε | a O\nO : a E"),
		parseG("left-right", "S : S a S b | ε"),
		parseG("quotes", "S : \" M \"\nM : ε | \\ M | ' M"),
		parseG("clash-nt", "S : 'S' A S | A\nA : 'A' | \"A\" | A 'S'"),
		parseG("clash-reserved", "S : Error S '$' | ϵ Rep | 'Rep'\nRep : ℇ | error ε Rep"),
		parseG("clash-g0", "G0 : G00 x | y G0\nG00 : z | ε"),
		parseG("nt-error", "S : a Error b\nError : x | Error y"),
		parseG("nt-error-tail", "S : S Error | a\nError : Type\nType : 'error' | Type EOF\nEOF : b"),
		parseG("nt-error-first", "S : A Error | B y | q A y | q B Error\nError : x\nA : a\nB : a"),
		parseG("alt-ids", "S : A | A1 q | A1_ | A10\nA : a | b | c | d | e | f | g | h | i | j | k | l\nA1_ : m x | m y\nA1 : n | o | S p\nA10 : r | s"),
		parseG("first-chain", "S : D A | S ; D A\nD : d | d d\nA : B x\nB : C | C B\nC : E y | E\nE : F\nF : c | e"),
		parseG("first-chain-up", "Z : S\nF : c | e\nE : F\nC : E y | E\nB : C | C B\nA : B x\nD : d | d d\nS : D A | S ; D A"),
		parseG("first-chain-null", "S : D A | S ; D A\nD : d | d d\nA : N B x\nN : M\nM : n | ε\nB : C | C B\nC : N2 E\nN2 : p | ε\nE : F\nF : c | e"),
		parseG("long-tables", "S : x a A b A c A d A e A f A g | y a A b A c A d A e A f A g | z a B b B c B d B e B f B g | w A B\nA : h | i | j | k | l | m | n | o | p | q | r | s\nB : t A | u | v | h | i | j | k | l | m | n | o | p"),
		parseG("long-nts", "S : A A A A A A A A A A A A B | x\nA : a | b\nB : c | d | e | f | g | h | i | j | k | l | m | n"),
		parseG("run-names", "S : A BC x | AB C x | ABC x | A B C D\nA : a\nB : b\nC : c\nAB : a b\nBC : b c\nABC : a b c\nD : CD | C x\nCD : c d"),
		parseG("run-terms", "S : x a bc | x ab c | A bc S | AB c S | abc\nA : a | A1\nAB : ab | A 1\nA1 : 1 a"),
		parseG("tail-null", "S : a A B\nA : a | ε\nB : A A"),
	}
	return gs
}

/*** Input generation ***/

// Inputs returns token strings (as terminal ids) for g: all strings up to a
// length such that their number stays below exMax, random sentences, mutations
// of sentences and random strings.
func genInputs(r *Rng, c *CFG, exMax, nSent, nMut, nRand, maxLen int) [][]int {
	var out [][]int
	seen := map[string]bool{}
	add := func(w []int) {
		k := fmt.Sprint(w)
		if !seen[k] {
			seen[k] = true
			out = append(out, append([]int(nil), w...))
		}
	}
	nt := len(c.Terms)
	add(nil)
	total, size := 1, 1
	level := [][]int{nil}
	for nt > 0 {
		size *= nt
		if total+size > exMax || len(level[0]) >= maxLen {
			break
		}
		total += size
		var next [][]int
		for _, w := range level {
			for t := 0; t < nt; t++ {
				w1 := append(append([]int(nil), w...), t)
				next = append(next, w1)
				add(w1)
			}
		}
		level = next
	}
	if nt == 0 {
		return out
	}
	h := c.MinHeights()
	if w := c.Sentence(r, h, 1); len(w) > maxLen/2 {
		maxLen = len(w)*2 + 4
		if maxLen > 48 {
			maxLen = 48
		}
	}
	var sents [][]int
	for i := 0; i < nSent*4 && len(sents) < nSent; i++ {
		w := c.Sentence(r, h, r.Range(1, maxLen*2))
		if len(w) <= maxLen {
			sents = append(sents, w)
			add(w)
		}
	}
	cov := c.CoverSentences()
	shuffle(r, cov)
	for i, w := range cov {
		if i < nSent && len(w) <= maxLen {
			sents = append(sents, w)
			add(w)
		}
	}
	for i := 0; i < nMut; i++ {
		var w []int
		if len(sents) > 0 {
			w = append([]int(nil), pick(r, sents)...)
		}
		for k := r.Range(1, 2); k > 0; k-- {
			switch p := r.Intn(len(w) + 1); r.Intn(5) {
			case 0:
				if p < len(w) {
					w = append(w[:p], w[p+1:]...)
				}
			case 1:
				if p < len(w) {
					w[p] = r.Intn(nt)
				}
			case 2:
				w = append(w[:p], append([]int{r.Intn(nt)}, w[p:]...)...)
			case 3:
				w = w[:p]
			case 4:
				if len(sents) > 0 {
					w = append(w, pick(r, sents)...)
				}
			}
		}
		if len(w) <= maxLen {
			add(w)
		}
	}
	for i := 0; i < nRand; i++ {
		w := make([]int, r.Range(1, maxLen))
		for j := range w {
			w[j] = r.Intn(nt)
		}
		add(w)
	}
	return out
}

// wideGrammar has many productions, some of them with many symbols, in the way
// of a programming language: mostly led by keywords, with lists and options.
func wideGrammar(r *Rng) *Grammar {
	if r.Chance(40) {
		return tableGrammar(r)
	}
	g := &Grammar{Name: "wide"}
	n := r.Range(3, 6)
	name := func(i int) string { return string(rune('P'+i)) + "w" }
	words := []string{"a", "b", "c", "d", "e", "f", "k", "m", "p", "q", "r", "t", "u", "v", "w", "x", "y", "z"}
	seps := []string{"+", "-", ",", ";", ":", "="}
	for i := 0; i < n; i++ {
		ru := Rule{Head: name(i)}
		lead := append([]string(nil), words...)
		shuffle(r, lead)
		alts := r.Range(1, 5)
		if r.Chance(30) {
			alts = r.Range(8, 14)
		}
		for k := 0; k < alts; k++ {
			a := []Sym{Lit(lead[k])}
			l := r.Range(0, 3)
			long := r.Chance(15) || i == 0 && k < 3 && r.Chance(60)
			if long {
				l = r.Range(9, 13)
			}
			for j := 0; j < l; j++ {
				if i+1 < n && (r.Chance(40) || long && r.Chance(40)) {
					a = append(a, NT(name(r.Range(i+1, n-1))))
				} else {
					a = append(a, Lit(pick(r, seps)))
				}
			}
			if r.Chance(12) {
				a = append(a, NT(name(i)))
			}
			if r.Chance(8) {
				a = append(a, NT(name(r.Intn(i+1))))
			}
			ru.Alts = append(ru.Alts, a)
		}
		if i > 0 && r.Chance(25) {
			ru.Alts = append(ru.Alts, nil)
		}
		if r.Chance(15) {
			ru.Alts = append(ru.Alts, []Sym{NT(name(i)), Lit(pick(r, seps)), Lit(pick(r, words))})
		}
		g.Rules = append(g.Rules, ru)
	}
	for i := 0; i+1 < n; i++ { // everything is reachable
		g.Rules[i].Alts[0] = append(g.Rules[i].Alts[0], NT(name(i+1)))
	}
	if g = reduce(g); g == nil {
		return wideGrammar(r)
	}
	for i := range g.Rules {
		seen := map[string]bool{}
		var as [][]Sym
		for _, a := range g.Rules[i].Alts {
			if !seen[altString(a)] {
				seen[altString(a)] = true
				as = append(as, a)
			}
		}
		g.Rules[i].Alts = as
	}
	return g
}

// tableGrammar has long alternates over nonterminals with many alternates, so
// that positions, alternates and productions have numbers of several digits.
func tableGrammar(r *Rng) *Grammar {
	g := &Grammar{Name: "table"}
	n := r.Range(1, 3)
	lead := []string{"aa", "bb", "cc", "dd", "ee"}
	words := []string{"a", "b", "c", "d", "e", "f", "k", "m", "p", "q", "r", "t", "u", "v", "w", "x", "y", "z"}
	st := Rule{Head: "Stm"}
	for k := r.Range(1, 4); k > 0; k-- {
		a := []Sym{Lit(lead[k])}
		l := r.Range(2, 5)
		if k < 3 {
			l = r.Range(9, 13)
		}
		for j := 0; j < l; j++ {
			if r.Chance(60) {
				a = append(a, NT(string(rune('P'+r.Intn(n)))+"w"))
			} else {
				a = append(a, Lit(pick(r, []string{"+", ",", ":"})))
			}
		}
		st.Alts = append(st.Alts, a)
	}
	shuffle(r, st.Alts)
	g.Rules = append(g.Rules, st)
	if r.Chance(40) {
		g.Rules = append([]Rule{{Head: "Stms", Alts: [][]Sym{{NT("Stms"), Lit(";"), NT("Stm")}, {NT("Stm")}}}}, g.Rules...)
	}
	for i := 0; i < n; i++ {
		ru := Rule{Head: string(rune('P'+i)) + "w"}
		for k, m := 0, r.Range(4, 15); k < m; k++ {
			a := []Sym{Lit(words[k])}
			if r.Chance(15) {
				a = append(a, Lit(pick(r, words)))
			}
			ru.Alts = append(ru.Alts, a)
		}
		shuffle(r, ru.Alts)
		if r.Chance(20) {
			ru.Alts = append(ru.Alts, nil)
		}
		g.Rules = append(g.Rules, ru)
	}
	if g = reduce(g); g == nil {
		return tableGrammar(r)
	}
	return g
}

// hugeGrammar is LL(1) and has more than 256 nonterminals, terminals and
// alternates, and a body of more than 256 symbols. With few, it has few
// nonterminals.
func hugeGrammar(r *Rng, few bool) *Grammar {
	g := &Grammar{Name: "huge"}
	n, m := r.Range(262, 290), r.Range(258, 275)
	item := Rule{Head: "Item"}
	var rest []Rule
	for i := 0; i < n; i++ {
		a := []Sym{Lit(fmt.Sprintf("k%03d", i))}
		for k := r.Range(0, 2); k > 0; k-- {
			a = append(a, Lit(pick(r, []string{"=", "+", ":"})))
		}
		a = append(a, NT(fmt.Sprintf("V%d", r.Intn(3))))
		if few {
			item.Alts = append(item.Alts, a)
			continue
		}
		ru := Rule{Head: fmt.Sprintf("N%03d", i), Alts: [][]Sym{a}}
		if r.Chance(10) {
			ru.Alts = append(ru.Alts, []Sym{Lit("!"), Lit(fmt.Sprintf("k%03d", i))}[1:])
			ru.Alts[0][0] = Lit(fmt.Sprintf("j%03d", i))
		}
		rest = append(rest, ru)
		item.Alts = append(item.Alts, []Sym{NT(ru.Head)})
	}
	long := []Sym{Lit("long")}
	for i := 0; i < m; i++ {
		switch {
		case i%40 == 17 || i > m-4:
			long = append(long, NT(fmt.Sprintf("V%d", r.Range(1, 2))))
		default:
			long = append(long, Lit(pick(r, []string{"x", "y"})))
		}
	}
	item.Alts = append(item.Alts, long)
	shuffle(r, item.Alts)
	g.Rules = append([]Rule{
		{Head: "S", Alts: [][]Sym{{NT("Item"), NT("More")}}},
		{Head: "More", Alts: [][]Sym{{Lit(";"), NT("Item"), NT("More")}, nil}},
		item,
		{Head: "V0", Alts: [][]Sym{{Lit("x")}, nil}},
		{Head: "V1", Alts: [][]Sym{{Lit("x"), Lit("y")}, {Lit("y")}}},
		{Head: "V2", Alts: [][]Sym{{Lit("("), NT("V0"), Lit(")")}}},
	}, rest...)
	return g
}

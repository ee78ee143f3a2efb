package main

import (
	"fmt"
	"strings"
	"unicode"
)

/*** Grammar model ***/

type SymKind int

const (
	KNT  SymKind = iota // nonterminal
	KTok                // token defined by a lex rule
	KLit                // string literal; Name is the raw text between the quotes
)

type Sym struct {
	Kind SymKind
	Name string
	// Quoted is set for a literal spelled like another symbol of its grammar:
	// the generated code identifies it by its value in quotes
	Quoted int
}

func NT(n string) Sym  { return Sym{Kind: KNT, Name: n} }
func Tok(n string) Sym { return Sym{Kind: KTok, Name: n} }
func Lit(n string) Sym { return Sym{Kind: KLit, Name: n} }

// Value of a literal.
func (s Sym) Value() string { return unquoteLit(s.Name) }

// markQuoted sets Quoted of the literals of g.
func (g *Grammar) markQuoted() {
	names := map[string]bool{"$": true, "Error": true, "ϵ": true, "ℇ": true}
	for _, l := range g.Lex {
		names[l.ID] = true
	}
	for _, ru := range g.Rules {
		names[ru.Head] = true
	}
	markQuoted(names, g.Rules)
}

func markQuoted(names map[string]bool, rules []Rule) {
	vals := map[string]bool{}
	for _, ru := range rules {
		for _, a := range ru.Alts {
			for _, s := range a {
				if s.Kind == KLit {
					vals[s.Value()] = true
				}
			}
		}
	}
	for _, ru := range rules {
		for _, a := range ru.Alts {
			for k := range a {
				s := &a[k]
				if s.Kind != KLit {
					continue
				}
				t := Lit(s.Name)
				if names[t.Value()] {
					t.Quoted = 1
					for vals[t.TermID()] {
						t.Quoted++
					}
				}
				if s.Quoted != t.Quoted {
					s.Quoted = t.Quoted
				}
			}
		}
	}
}

// TermID is the identity of a terminal as the generated code reports it
// (token type ID): the token id, or the value of the literal.
func (s Sym) TermID() string {
	if s.Kind == KLit {
		return strings.Repeat("\"", s.Quoted) + s.Value() + strings.Repeat("\"", s.Quoted)
	}
	return s.Name
}

func unquoteLit(raw string) string {
	var b strings.Builder
	rs := []rune(raw)
	for i := 0; i < len(rs); i++ {
		if rs[i] == '\\' && i+1 < len(rs) {
			i++
			switch rs[i] {
			case 'n':
				b.WriteByte('\n')
			case 'r':
				b.WriteByte('\r')
			case 't':
				b.WriteByte('\t')
			default:
				b.WriteRune(rs[i])
			}
			continue
		}
		b.WriteRune(rs[i])
	}
	return b.String()
}

func quoteLit(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch r {
		case '"':
			b.WriteString("\\\"")
		case '\\':
			b.WriteString("\\\\")
		case '\n':
			b.WriteString("\\n")
		case '\r':
			b.WriteString("\\r")
		case '\t':
			b.WriteString("\\t")
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

func (s Sym) String() string {
	if s.Kind == KLit {
		return `"` + s.Name + `"`
	}
	return s.Name
}

type Rule struct {
	Head string
	Alts [][]Sym // an empty alternate is the grammar's keyword empty
}

type Grammar struct {
	Name  string // short descriptive family name
	Rules []Rule // Rules[0] is the start symbol's
	Lex   []LexRule
}

func (g *Grammar) Start() string { return g.Rules[0].Head }

func (g *Grammar) RuleIdx() map[string]int {
	m := map[string]int{}
	for i, r := range g.Rules {
		m[r.Head] = i
	}
	return m
}

// Terminals in order of first occurrence (by TermID).
func (g *Grammar) Terminals() []Sym {
	seen := map[string]bool{}
	var ts []Sym
	for _, r := range g.Rules {
		for _, a := range r.Alts {
			for _, s := range a {
				if s.Kind != KNT && !seen[s.TermID()] {
					seen[s.TermID()] = true
					ts = append(ts, s)
				}
			}
		}
	}
	return ts
}

func altString(a []Sym) string {
	if len(a) == 0 {
		return "empty"
	}
	ss := make([]string, len(a))
	for i, s := range a {
		ss[i] = s.String()
	}
	return strings.Join(ss, " ")
}

func (r Rule) String() string {
	as := make([]string, len(r.Alts))
	for i, a := range r.Alts {
		as[i] = altString(a)
	}
	return fmt.Sprintf("%s : %s ;", r.Head, strings.Join(as, " | "))
}

// Text renders the grammar in gogll notation.
func (g *Grammar) Text(pkg string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "package \"%s\"\n\n", pkg)
	for _, l := range g.Lex {
		b.WriteString(l.String() + "\n")
	}
	for _, r := range g.Rules {
		b.WriteString(r.String() + "\n")
	}
	return b.String()
}

/*** Lexical expressions ***/

type LexOp int

const (
	LChar LexOp = iota
	LAny
	LNot
	LDot
	LClass
	LSet
	LRef
	LSeq
	LAlt  // ( )
	LOpt  // [ ]
	LStar // { }
	LPlus // < >
)

type SetSpec struct {
	Minus bool
	Name  string
}

type LX struct {
	Op   LexOp
	R    rune
	Str  []rune
	Name string // class or reference
	Set  []SetSpec
	Kids []*LX // Seq: elements. Alt/Opt/Star/Plus: alternates
}

type LexRule struct {
	ID       string
	Suppress bool
	X        *LX // LSeq
}

func (l LexRule) String() string {
	p := ""
	if l.Suppress {
		p = "!"
	}
	return fmt.Sprintf("%s%s : %s ;", p, l.ID, l.X.String())
}

func charLit(r rune) string {
	switch r {
	case '\'':
		return `'\''`
	case '\\':
		return `'\\'`
	case '\n':
		return `'\n'`
	case '\r':
		return `'\r'`
	case '\t':
		return `'\t'`
	}
	return "'" + string(r) + "'"
}

func (x *LX) alts() string {
	ss := make([]string, len(x.Kids))
	for i, k := range x.Kids {
		ss[i] = k.String()
	}
	return strings.Join(ss, " | ")
}

func (x *LX) String() string {
	switch x.Op {
	case LChar:
		return charLit(x.R)
	case LAny:
		return `any "` + quoteLit(string(x.Str)) + `"`
	case LNot:
		return `not "` + quoteLit(string(x.Str)) + `"`
	case LDot:
		return "."
	case LClass:
		return x.Name
	case LRef:
		return x.Name
	case LSet:
		var b strings.Builder
		b.WriteString("'[")
		for _, s := range x.Set {
			if s.Minus {
				b.WriteString("-")
			}
			b.WriteString("\\p{" + s.Name + "}")
		}
		b.WriteString("]'")
		return b.String()
	case LSeq:
		ss := make([]string, len(x.Kids))
		for i, k := range x.Kids {
			ss[i] = k.String()
		}
		return strings.Join(ss, " ")
	case LAlt:
		return "( " + x.alts() + " )"
	case LOpt:
		return "[ " + x.alts() + " ]"
	case LStar:
		return "{ " + x.alts() + " }"
	case LPlus:
		return "< " + x.alts() + " >"
	}
	panic("LX")
}

func seq(ks ...*LX) *LX  { return &LX{Op: LSeq, Kids: ks} }
func chr(r rune) *LX     { return &LX{Op: LChar, R: r} }
func anyOf(s string) *LX { return &LX{Op: LAny, Str: []rune(s)} }
func notOf(s string) *LX { return &LX{Op: LNot, Str: []rune(s)} }
func dot() *LX           { return &LX{Op: LDot} }
func class(n string) *LX { return &LX{Op: LClass, Name: n} }
func ref(n string) *LX   { return &LX{Op: LRef, Name: n} }
func brk(op LexOp, ks ...*LX) *LX {
	// every alternate is a sequence
	for i, k := range ks {
		if k.Op != LSeq {
			ks[i] = seq(k)
		}
	}
	return &LX{Op: op, Kids: ks}
}
func lexSeqOfString(s string) *LX {
	x := seq()
	for _, r := range s {
		x.Kids = append(x.Kids, chr(r))
	}
	return x
}

// matchRune evaluates a single-character lexical symbol.
func (x *LX) matchRune(r rune) bool {
	switch x.Op {
	case LChar:
		return r == x.R
	case LAny:
		return strings.ContainsRune(string(x.Str), r)
	case LNot:
		for _, c := range x.Str {
			if c == r {
				return false
			}
		}
		return true
	case LDot:
		return true
	case LClass:
		switch x.Name {
		case "letter":
			return unicode.Is(unicode.L, r)
		case "upcase":
			return unicode.Is(unicode.Lu, r)
		case "lowcase":
			return unicode.Is(unicode.Ll, r)
		case "space":
			return unicode.IsSpace(r)
		case "number":
			return unicode.Is(unicode.N, r)
		}
	case LSet:
		in := false
		for _, s := range x.Set {
			if unicode.Is(unicodeTable(s.Name), r) {
				if s.Minus {
					return false
				}
				in = true
			}
		}
		return in
	}
	panic("matchRune")
}

func unicodeTable(name string) *unicode.RangeTable {
	if t, ok := unicode.Properties[name]; ok {
		return t
	}
	if t, ok := unicode.Categories[name]; ok {
		return t
	}
	switch name {
	case "Digit":
		return unicode.Nd
	case "Letter":
		return unicode.L
	case "Lower":
		return unicode.Ll
	case "Mark":
		return unicode.M
	case "Number":
		return unicode.N
	case "Other":
		return unicode.C
	case "Punct":
		return unicode.P
	case "Space":
		return unicode.Z
	case "Symbol":
		return unicode.S
	case "Title":
		return unicode.Lt
	case "Upper":
		return unicode.Lu
	case "STerm":
		return unicode.Sentence_Terminal
	}
	panic("no unicode table " + name)
}

package main

import (
	"fmt"
	"strings"
	"unicode"
)

/*** Reference front end: gogll's own notation ***/

var uniCategories = strings.Fields("Cc Cf Co Cs Digit Nd Letter L Lm Lo Lower Ll Mark M Mc Me Mn Nl No Number N Other C Pc Pd Pe Pf Pi Po Ps Punct P Sc Sk Sm So Space Z Symbol S Title Lt Upper Lu Zl Zp Zs")
var uniProperties = strings.Fields("ASCII_Hex_Digit Bidi_Control Dash Deprecated Diacritic Extender Hex_Digit Hyphen IDS_Binary_Operator IDS_Trinary_Operator Ideographic Join_Control Logical_Order_Exception Noncharacter_Code_Point Other_Alphabetic Other_Default_Ignorable_Code_Point Other_Grapheme_Extend Other_ID_Continue Other_ID_Start Other_Lowercase Other_Math Other_Uppercase Pattern_Syntax Pattern_White_Space Prepended_Concatenation_Mark Quotation_Mark Radical Regional_Indicator STerm Sentence_Terminal Soft_Dotted Terminal_Punctuation Unified_Ideograph Variation_Selector White_Space")

var notationKeywords = strings.Fields(`package : ; ! | . any not letter upcase lowcase number '[ ]' ( ) [ ] { } < > - empty`)

// notationOracle tokenises grammar texts.
var notationOracle = func() *LexOracle {
	g := &Grammar{Name: "gogll"}
	lit := func(s string) { g.Rules[0].Alts = append(g.Rules[0].Alts, []Sym{Lit(quoteLit(s))}) }
	g.Rules = []Rule{{Head: "S"}}
	for _, k := range notationKeywords {
		lit(k)
	}
	for _, n := range append(append([]string{}, uniCategories...), uniProperties...) {
		lit("\\p{" + n + "}")
	}
	esc := func(set string) *LX { return seq(chr('\\'), anyOf(set)) }
	word := func() []*LX { return []*LX{seq(class("letter")), seq(class("number")), seq(chr('_'))} }
	g.Lex = []LexRule{
		{"char_lit", false, seq(chr('\''), brk(LAlt, seq(notOf("'")), esc("\\'nrt")), chr('\''))},
		{"string_lit", false, seq(chr('"'), brk(LPlus, seq(notOf("\\\"")), esc("\\\"nrt")), chr('"'))},
		{"tokid", false, seq(class("lowcase"), brk(LPlus, word()...))},
		{"nt", false, seq(class("upcase"), brk(LStar, word()...))},
	}
	return NewLexOracle(g)
}()

type NTok struct {
	Kind string // literal, token id, "" for an error token, "$"
	Text string
	L    int
}

// Offence is a violation of the notation's rules at one of the tokens.
type Offence struct {
	What string
	At   []int // offsets: any of them is an acceptable location
}

// Verdict of the oracle on a grammar text.
type Verdict struct {
	Toks      []NTok
	Syntax    int // offset of the first offending token, or -1
	Offences  []Offence
	Undecided string // why no verdict is given, or ""
	Rules     []Rule
	LexIDs    []string
	EmptyFlw  []string // nonterminals with an empty FOLLOW set
}

func (v *Verdict) Valid() bool { return v.Syntax < 0 && len(v.Offences) == 0 }

type nparse struct {
	v    *Verdict
	t    []NTok
	p    int
	defs map[string]bool
}

type nfail struct{ at int }

func (n *nparse) kind() string { return n.t[n.p].Kind }
func (n *nparse) next() NTok   { n.p++; return n.t[n.p-1] }
func (n *nparse) fail()        { panic(nfail{n.t[n.p].L}) }
func (n *nparse) eat(k string) NTok {
	if n.kind() != k {
		n.fail()
	}
	return n.next()
}
func (n *nparse) offence(what string, at ...int) {
	n.v.Offences = append(n.v.Offences, Offence{what, at})
}

// Judge decides whether a grammar text is valid.
func Judge(src string, md bool) *Verdict {
	in := []rune(src)
	if md {
		in, _ = blankMd(src)
	}
	v := &Verdict{Syntax: -1}
	for _, t := range notationOracle.Lex(in) {
		k := ""
		if len(t.Accept) > 0 {
			k = t.Accept[0]
		}
		r := t.R
		if r > len(in) {
			r = len(in)
		}
		v.Toks = append(v.Toks, NTok{k, string(in[t.L:r]), t.L})
		if k == "char_lit" && string(in[t.L:r]) == `'\'` {
			v.Undecided = "char_lit of a single backslash"
		}
	}
	v.Toks = append(v.Toks, NTok{"$", "", len(in)})
	n := &nparse{v: v, t: v.Toks, defs: map[string]bool{}}
	heads := map[string]bool{}
	type useAt struct {
		s Sym
		l int
	}
	var uses []useAt
	func() {
		defer func() {
			if e := recover(); e != nil {
				f, ok := e.(nfail)
				if !ok {
					panic(e)
				}
				v.Syntax = f.at
			}
		}()
		n.eat("package")
		n.eat("string_lit")
		for first := true; first || n.kind() != "$"; first = false {
			switch n.kind() {
			case "!", "tokid":
				if n.kind() == "!" {
					n.next()
				}
				id := n.eat("tokid")
				n.eat(":")
				n.regexp()
				n.eat(";")
				if n.defs[id.Text] {
					n.offence("duplicate lex rule "+id.Text, id.L)
				}
				n.defs[id.Text] = true
				v.LexIDs = append(v.LexIDs, id.Text)
			case "nt":
				id := n.next()
				n.eat(":")
				ru := Rule{Head: id.Text}
				for {
					var a []Sym
					if n.kind() == "empty" {
						n.next()
					} else {
						for k := 0; ; k++ {
							if n.kind() == "nt" {
								a = append(a, NT(n.t[n.p].Text))
							} else if n.kind() == "tokid" {
								a = append(a, Tok(n.t[n.p].Text))
							} else if n.kind() == "string_lit" {
								x := n.t[n.p].Text
								a = append(a, Lit(x[1:len(x)-1]))
								if strings.IndexFunc(unquoteLit(x[1:len(x)-1]), unicode.IsSpace) >= 0 {
									n.offence("white space in "+x, n.t[n.p].L)
								}
							} else if k == 0 {
								n.fail()
							} else {
								break
							}
							uses = append(uses, useAt{a[len(a)-1], n.t[n.p].L})
							n.next()
						}
					}
					ru.Alts = append(ru.Alts, a)
					if n.kind() != "|" {
						break
					}
					n.next()
				}
				n.eat(";")
				if heads[id.Text] {
					n.offence("duplicate syntax rule "+id.Text, id.L)
				}
				heads[id.Text] = true
				v.Rules = append(v.Rules, ru)
			default:
				n.fail()
			}
		}
	}()
	if v.Syntax >= 0 {
		v.Offences = nil
		return v
	}
	lits := map[string]bool{}
	for _, u := range uses {
		switch u.s.Kind {
		case KNT:
			if !heads[u.s.Name] {
				n.offence("undeclared "+u.s.Name, u.l)
			}
		case KTok:
			if !n.defs[u.s.Name] {
				n.offence("undeclared "+u.s.Name, u.l)
			}
		case KLit:
			lits[u.s.TermID()] = true
		}
	}
	if len(v.Offences) == 0 && len(v.Rules) > 0 {
		g := &Grammar{Rules: v.Rules}
		for _, id := range v.LexIDs {
			g.Lex = append(g.Lex, LexRule{ID: id})
		}
		c := NewCFG(g)
		ff := c.FirstFollow()
		for i, ru := range v.Rules {
			if len(ff.Follow[i]) == 0 {
				v.EmptyFlw = append(v.EmptyFlw, ru.Head)
			}
		}
	}
	return v
}

func (n *nparse) regexp() {
	for k := 0; ; k++ {
		switch n.kind() {
		case ".", "char_lit", "letter", "upcase", "lowcase", "number":
			n.next()
		case "any", "not":
			n.next()
			n.eat("string_lit")
		case "tokid":
			t := n.next()
			if !n.defs[t.Text] {
				n.offence("token "+t.Text+" is not defined yet", t.L)
			}
		case "(":
			n.bracket(")")
		case "[":
			n.bracket("]")
		case "{":
			n.bracket("}")
		case "<":
			n.bracket(">")
		case "'[":
			n.next()
			type sp struct {
				name  string
				minus bool
			}
			var all []sp
			for first := true; first || n.kind() != "]'"; first = false {
				minus := false
				if n.kind() == "-" && !first {
					minus = true
					n.next()
				}
				if !strings.HasPrefix(n.kind(), "\\p{") {
					n.fail()
				}
				t := n.next()
				s := sp{t.Text, minus}
				for i, o := range all {
					if o.name == s.name {
						if o.minus != s.minus || i == 0 {
							n.v.Undecided = "repeated Unicode set " + s.name
						} else {
							n.offence("duplicate range "+s.name, t.L)
						}
					}
				}
				all = append(all, s)
			}
			n.next()
		default:
			if k == 0 {
				n.fail()
			}
			return
		}
	}
}

func (n *nparse) bracket(cl string) {
	n.next()
	n.regexp()
	for n.kind() == "|" {
		n.next()
		n.regexp()
	}
	n.eat(cl)
}

func (v *Verdict) String() string {
	switch {
	case v.Undecided != "":
		return "undecided: " + v.Undecided
	case v.Syntax >= 0:
		return fmt.Sprintf("syntax error at offset %d", v.Syntax)
	case len(v.Offences) > 0:
		return fmt.Sprint(v.Offences)
	case len(v.EmptyFlw) > 0:
		return fmt.Sprint("uncalled ", v.EmptyFlw)
	}
	return "valid"
}

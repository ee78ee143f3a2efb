package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

/*** C14: valid grammars are accepted, invalid ones rejected ***/

func init() { checks["C14"] = checkC14 }

var strayTokens = strings.Fields(`: ; | ! . any not letter upcase lowcase number '[ ]' ( ) [ ] { } < > - empty package "x" "y\"z" 'a' '\n' '\'' tok_x Undeclared \p{L} \p{Nd} \p{Upper} § " ' \ _ 0 ''' `)

// baseText is a random valid grammar, as a list of tokens.
func baseText(r *Rng) string {
	switch n := r.Intn(100); {
	case n < 35:
		return randGrammar(r, GenOpts{MaxNT: 5, MaxAlts: 3, MaxLen: 4, MaxTerms: 5, NTPct: 45, EmptyPct: 20}).Text("m/x")
	case n < 60:
		return randLexGrammar(r).Text("m/x")
	case n < 70: // token rules only
		g := randLexGrammar(r)
		g.Rules = nil
		return g.Text("m/x")
	case n < 80:
		return pick(r, curatedGrammars()).Text("m/x")
	case n < 88:
		return pick(r, curatedLex()).Text("m/x")
	}
	// both halves
	g := randGrammar(r, GenOpts{MaxNT: 5, MaxAlts: 3, MaxLen: 4, MaxTerms: 5, NTPct: 45, EmptyPct: 20})
	h := randLexGrammar(r)
	for _, l := range h.Lex {
		l.Suppress = false
		g.Lex = append(g.Lex, l)
		k := r.Intn(len(g.Rules))
		g.Rules[k].Alts = append(g.Rules[k].Alts, []Sym{Tok(l.ID)})
	}
	return g.Text("m/x")
}

func joinTokens(r *Rng, toks []string) string {
	var b strings.Builder
	seps := []string{" ", " ", " ", "\n", "\n", "\t", "\r\n", "  ", "\u00a0", "\n\n", "\r", "\v", "\f", "\u0085", "\u2028", "\u2029", "\u3000"}
	plain := r.Chance(50)
	for i, t := range toks {
		if i > 0 {
			if plain {
				b.WriteString(" ")
			} else if strings.Contains(";|:", t) && r.Chance(50) {
			} else {
				b.WriteString(pick(r, seps))
			}
		}
		b.WriteString(t)
	}
	if r.Chance(60) {
		b.WriteString("\n")
	}
	return b.String()
}

// ruleSpans returns the token ranges of the rules.
func ruleSpans(toks []string) (out [][2]int) {
	at := 2
	for i := 2; i < len(toks); i++ {
		if toks[i] == ";" {
			out = append(out, [2]int{at, i + 1})
			at = i + 1
		}
	}
	return
}

// mutateText injects one fault into a grammar text. The oracle judges the result.
func mutateText(r *Rng, src string) (string, string) {
	var toks []string
	for _, t := range Judge(src, false).Toks {
		if t.Kind != "$" {
			toks = append(toks, t.Text)
		}
	}
	ins := func(i int, ts ...string) {
		toks = append(toks[:i:i], append(append([]string{}, ts...), toks[i:]...)...)
	}
	rules := ruleSpans(toks)
	pos := func() int { return r.Intn(len(toks)) }
	word := func(want func(string) bool) int {
		for k := 0; k < 50; k++ {
			if i := pos(); i > 1 && want(toks[i]) {
				return i
			}
		}
		return -1
	}
	isNT := func(s string) bool { return s[0] >= 'A' && s[0] <= 'Z' }
	isTok := func(s string) bool { return strings.HasPrefix(s, "tk") || s == "num" || s == "name" }
	kind := ""
	switch r.Intn(24) {
	case 0, 1:
		kind = "valid"
	case 2:
		kind = "drop token"
		i := pos()
		toks = append(toks[:i:i], toks[i+1:]...)
	case 3:
		kind = "double token"
		i := pos()
		ins(i, toks[i])
	case 4:
		kind = "swap tokens"
		i, j := pos(), pos()
		toks[i], toks[j] = toks[j], toks[i]
	case 5:
		kind = "stray token"
		ins(r.Intn(len(toks)+1), pick(r, strayTokens))
	case 6:
		kind = "replace token"
		toks[pos()] = pick(r, strayTokens)
	case 7:
		kind = "rename nonterminal"
		if i := word(isNT); i >= 0 {
			toks[i] += pick(r, []string{"x", "_", "0"})
		}
	case 8:
		kind = "rename token"
		if i := word(isTok); i >= 0 {
			toks[i] += pick(r, []string{"x", "_", "0"})
		}
	case 9, 10:
		kind = "copy rule"
		if len(rules) > 0 {
			a, b := pick(r, rules), pick(r, rules)
			cp := append([]string{}, toks[a[0]:a[1]]...)
			lex := cp[0] == "!" || !isNT(cp[0])
			if r.Chance(30) && len(cp) > 3 { // another body
				k := 2
				if cp[0] == "!" {
					k = 3
				}
				body := `"q"`
				if lex {
					body = "'q'"
				}
				cp = append(cp[:k:k], body, ";")
			}
			if r.Chance(30) && lex { // suppressed or not
				if cp[0] == "!" {
					cp = cp[1:]
				} else {
					cp = append([]string{"!"}, cp...)
				}
			}
			ins(b[r.Intn(2)], cp...)
		}
	case 11:
		kind = "drop rule"
		if len(rules) > 0 {
			a := pick(r, rules)
			toks = append(toks[:a[0]:a[0]], toks[a[1]:]...)
		}
	case 12, 13:
		kind = "move rule"
		if len(rules) > 1 {
			a := pick(r, rules)
			cp := append([]string{}, toks[a[0]:a[1]]...)
			toks = append(toks[:a[0]:a[0]], toks[a[1]:]...)
			b := pick(r, ruleSpans(toks))
			ins(b[r.Intn(2)], cp...)
		}
	case 14:
		kind = "white space in literal"
		if i := word(func(s string) bool { return s[0] == '"' }); i >= 0 {
			s := toks[i]
			k := r.Range(1, len(s)-1)
			for s[k-1] == '\\' {
				k = 1
				break
			}
			toks[i] = s[:k] + pick(r, []string{" ", "\t", "\n", "\\n", "\\t", "\\r", "\u00a0", "\u2003"}) + s[k:]
		}
	case 15:
		kind = "character sets"
		var s []string
		for k := r.Range(1, 5); k > 0; k-- {
			if len(s) > 0 && r.Chance(40) {
				s = append(s, "-")
			}
			s = append(s, "\\p{"+pick(r, []string{"L", "N", "Nd", "P", "Dash"})+"}")
		}
		ins(2, append(append([]string{"uset", ":", "'["}, s...), "]'", ";")...)
	case 16:
		kind = "references"
		x := []string{"aa", "bb", "cc"}
		var ts []string
		for k := r.Range(1, 4); k > 0; k-- {
			ts = append(ts, pick(r, x), ":", "'x'")
			if r.Chance(60) {
				ts = append(ts, "[", pick(r, x), "]")
			}
			ts = append(ts, ";")
		}
		ins(2, ts...)
	case 17:
		kind = "unused rule"
		ins(len(toks), strings.Fields(pick(r, []string{`Unused : "x" ;`, `Unused : "x" Unused | empty ;`, `Unused : Unuse2 ; Unuse2 : "y" Unused | "z" ;`, `Unused : S ;`}))...)
	case 18:
		kind = "escape in set"
		ins(2, "uset", ":", pick(r, []string{"any", "not"}), pick(r, []string{`"\n\t\r"`, `"\\"`, `"\""`, `"\x"`, `"'"`, `"\\\\n"`, `"a\"b"`, `"-]\\^"`}), ";")
	case 19, 20:
		// a name without a rule that is the text of a literal elsewhere, or
		// a literal that is the name of a symbol
		kind = "name and literal"
		i := word(isNT)
		if r.Chance(50) {
			i = word(isTok)
		}
		j := word(func(s string) bool { return s[0] == '"' })
		if i >= 0 && j >= 0 {
			if r.Chance(50) {
				toks[i] += pick(r, []string{"x", "_", "0"})
			}
			toks[j] = `"` + toks[i] + `"`
		}
	default:
		kind = "characters"
		s := []rune(joinTokens(r, toks))
		for k := r.Range(1, 3); k > 0 && len(s) > 0; k-- {
			i := r.Intn(len(s))
			switch r.Intn(6) {
			case 0:
				s = append(s[:i:i], s[i+1:]...)
			case 1:
				s = append(s[:i:i], append([]rune{pick(r, []rune("\x00\"'\\;:|!.<>{}[]()-§λ\n\t \ufeff\u2028a0_A`"))}, s[i:]...)...)
			case 2:
				s[i] = pick(r, []rune("\x00\"'\\;:|!.<>{}[]()-§λ\n\t \ufeff\u2028a0_A`"))
			case 3:
				s = s[:i]
			case 4:
				j := r.Intn(len(s))
				s[i], s[j] = s[j], s[i]
			case 5:
				j := r.Intn(len(s))
				if i > j {
					i, j = j, i
				}
				s = append(s[:i:i], s[j:]...)
			}
		}
		out := string(s)
		if r.Chance(15) && len(out) > 0 { // break the encoding
			i := r.Intn(len(out))
			out = out[:i] + pick(r, []string{"\xff", "\x80", "\xe2\x82", "\xf0\x9f"}) + out[i:]
		}
		return out, kind
	}
	if len(toks) == 0 {
		return "", kind
	}
	return joinTokens(r, toks), kind
}

var garbage = []string{"", " ", "\n", "\x00", "\xff\xfe", "package", `package "x"`, `package "x" ;`, `package "x" S : "a" ;` + "\ufeff", "\ufeff" + `package "x" S : "a" ;`, `package "x" S`, `package "x" S :`, `package "x" S : ;`, `package "x" S : empty`, `package "x" S : empty ;`,
	`package "x" S : S ;`, `package "x" S : S S ;`, `package "x" S : A ; A : B ; B : A ;`, `package "x" S : "a" A ; A : A "b" ;`, `package "x" S : "a" | A ; A : "b" A ;`, `package "x" tk : . ;`, `package "x" tk : { . } ;`, `package "x" tk : [ 'a' ] ; S : tk ;`,
	`package "x" tk : < { [ 'a' ] } > ; S : tk ;`, `package "x" S : aa ; aa : aa ;`, `package "x" aa : bb ; bb : 'x' ;`, `package "x" ! aa : 'x' ; S : aa ;`, `package "x" S : "package" "empty" "any" "]'" "'[" "\\p{L}" ;`, `package "x" S : "a" "a" | "a" "a" ;`, `package "x" S : empty | empty ;`,
	`package "x" aa : not "a" ; bb : any "a" ; cc : letter ; S : aa | bb | cc ;`, "S : \"a\" ;", `package "x" S : 'a' ;`, `package "x" S : [ "a" ] ;`, `package "x" s : "a" ;`, `package "x" a : 'x' ;`, `package 'x' S : "a" ;`, `package "x" S : "a" T ;`, `package "x" S : "" ;`, `package "" S : "a" ;`,
	`package "x" aa : '[\p{L}]' ; S : aa ;`, `package "x" aa : '[-\p{L}]' ;`, `package "x" aa : '[]' ;`, `package "x" aa : '[\p{Foo}]' ;`, `package "x" aa : '[\p{L}-\p{Lu}-\p{Lu}]' ;`, `package "x" aa : '[\p{L}\p{N}\p{N}]' ;`, `package "x" aa : ( ) ;`, `package "x" aa : ( 'a' | ) ;`, `package "x" aa : ( 'a' ;`,
}

var reLoc = regexp.MustCompile(`(?:line (\d+) col (\d+)|:(\d+):(\d+):)`)

// lexerTooBig keeps texts out whose lexer would have very many states.
func tooManySets(src string) bool {
	n := strings.Count(src, "{") + strings.Count(src, "<") + strings.Count(src, "[")
	return n > 60
}

func listTree(dir string) []string {
	var out []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && p != dir {
			rel, _ := filepath.Rel(dir, p)
			out = append(out, rel)
		}
		return nil
	})
	sort.Strings(out)
	return out
}

func checkC14(c *Check) {
	c.rule = "a case is a (text, mode) pair; empty texts are trivial. Texts: valid grammars, grammars with one injected fault of 19 kinds, corrupted bytes, hand-written odd texts"
	c.assume = []string{
		"the notation is the one gogll.md documents, as written down in notation.go",
		"no verdict on a repeated Unicode set that involves the first one of the set or both signs",
		"no verdict on the character literal of a single backslash",
	}
	e := NewEnv()
	r := NewRng(c.Seed, c.Prop)
	n := c.N(2000, 40000)
	type job struct {
		src, kind, mode string
		md              bool
	}
	var jobs []job
	for _, s := range garbage {
		for _, m := range []string{"", "-knuth", "-pager"} {
			jobs = append(jobs, job{s, "hand-written", m, false})
		}
	}
	for _, s := range directedTexts() {
		jobs = append(jobs, job{s, "directed", "", false})
	}
	for i := 0; i < n; i++ {
		rr := r.Fork(fmt.Sprint(i))
		s, k := mutateText(rr, baseText(rr))
		j := job{s, k, "", false}
		switch rr.Intn(10) {
		case 0:
			j.mode = "-knuth"
		case 1:
			j.mode = "-pager"
		case 2:
			j.md = true
			if !strings.Contains(s, "```") {
				cut := rr.Intn(len(s) + 1)
				for cut < len(s) && s[cut]&0xc0 == 0x80 {
					cut++
				}
				j.src = "# Title ; : \" x\n```" + s[:cut] + "```\nprose | λ\n```\n" + s[cut:] + "\n```\n end"
			}
		}
		jobs = append(jobs, j)
	}
	parallel(len(jobs), func(i int) {
		j := jobs[i]
		v := Judge(j.src, j.md)
		d := filepath.Join(e.Dir, fmt.Sprintf("f%d", i))
		ext := ".txt"
		if j.md {
			ext = ".md"
		}
		writeFile(d+"/g"+ext, j.src)
		defer os.RemoveAll(d)
		args := []string{"-o", d, d + "/g" + ext}
		if j.mode != "" {
			args = append([]string{j.mode, "-resolve_conflicts"}, args...)
		}
		res := runLimited(d, 25, e.Gogll, args...)
		key := ""
		if j.src != "" {
			key = j.mode + ext + j.src
		}
		c.Eval(key)
		wit := map[string]interface{}{"text": j.src, "kind": j.kind, "mode": j.mode, "markdown": j.md, "oracle": v.String(), "exit": res.Code, "output": trunc(res.Out, 600)}
		bad := func(what string) { c.Violate("verdict", what, wit) }
		if res.Crash || res.Code < 0 || res.Code > 1 {
			bad(fmt.Sprintf("gogll crashed or hung (exit %d)", res.Code))
			return
		}
		if i%611 == 0 {
			c.Sample(wit)
		}
		c.Count("kind "+j.kind, 1)
		if v.Undecided != "" {
			c.Count("undecided", 1)
			return
		}
		loc := func(first bool, offs ...int) bool {
			in := []rune(j.src)
			for _, m := range reLoc.FindAllStringSubmatch(res.Out, -1) {
				for _, o := range offs {
					l, cl := lineCol(in, o)
					p := fmt.Sprint(l, " ", cl)
					if p == m[1]+" "+m[2] || p == m[3]+" "+m[4] {
						return true
					}
				}
				if first {
					break
				}
			}
			return false
		}
		tree := listTree(d)
		clean := func() {
			if len(tree) != 1 {
				bad(fmt.Sprintf("rejected, but files were written: %v", tree))
			}
		}
		switch {
		case v.Syntax >= 0:
			c.Count("syntax errors", 1)
			if res.Code != 1 {
				bad("a text with a syntax error was accepted")
			} else if !loc(true, v.Syntax) {
				l, cl := lineCol([]rune(j.src), v.Syntax)
				bad(fmt.Sprintf("the first error is not located at line %d col %d", l, cl))
			} else {
				clean()
			}
		case len(v.Offences) > 0:
			c.Count("semantic errors", 1)
			var at []int
			for _, o := range v.Offences {
				at = append(at, o.At...)
				c.Count("offence "+strings.Fields(o.What)[0], 1)
			}
			if res.Code != 1 {
				bad("an invalid grammar was accepted")
			} else if !loc(false, at...) {
				bad("no message is located at an offence")
			} else {
				clean()
			}
		case len(v.EmptyFlw) > 0 && j.mode == "":
			c.Count("uncalled productions", 1)
			named := false
			for _, h := range v.EmptyFlw {
				named = named || strings.Contains(res.Out, h)
			}
			if res.Code != 1 {
				bad("a grammar with an uncalled production was accepted")
			} else if !named {
				bad("no message names an uncalled production")
			} else if _, err := os.Stat(d + "/parser"); err == nil {
				bad("rejected, but a parser was generated")
			}
		default:
			c.Count("valid", 1)
			if res.Code != 0 {
				bad("a valid grammar was rejected")
				return
			}
			want := []string{"token/token.go", "lexer/lexer.go"}
			if len(v.Rules) > 0 {
				want = append(want, "parser/parser.go")
			}
			for _, f := range want {
				if _, err := os.Stat(d + "/" + f); err != nil {
					bad("accepted, but " + f + " was not generated")
				}
			}
		}
	})
	c.Need("valid", 300)
	c.Need("syntax errors", 300)
	c.Need("semantic errors", 200)
	c.Need("uncalled productions", 20)
}

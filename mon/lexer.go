package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"mon/ev"
)

func lx(id string, ks ...*LX) LexRule  { return LexRule{ID: id, X: seq(ks...)} }
func slx(id string, ks ...*LX) LexRule { return LexRule{ID: id, Suppress: true, X: seq(ks...)} }
func uset(names ...string) *LX {
	x := &LX{Op: LSet}
	for _, n := range names {
		if strings.HasPrefix(n, "-") {
			x.Set = append(x.Set, SetSpec{true, n[1:]})
		} else {
			x.Set = append(x.Set, SetSpec{false, n})
		}
	}
	return x
}
func star(ks ...*LX) *LX { return brk(LStar, ks...) }
func plus(ks ...*LX) *LX { return brk(LPlus, ks...) }
func opt(ks ...*LX) *LX  { return brk(LOpt, ks...) }
func alt(ks ...*LX) *LX  { return brk(LAlt, ks...) }

func lexGrammar(name string, lex []LexRule, lits ...string) *Grammar {
	g := &Grammar{Name: name, Lex: lex}
	st := Rule{Head: "S"}
	for _, l := range lex {
		if !l.Suppress {
			st.Alts = append(st.Alts, []Sym{Tok(l.ID)})
		}
	}
	for _, s := range lits {
		st.Alts = append(st.Alts, []Sym{Lit(quoteLit(s))})
	}
	st.Alts = append(st.Alts, []Sym{NT("S"), NT("S")})
	g.Rules = []Rule{st}
	return g
}

// curatedLex: token definitions with known hard shapes.
func curatedLex() []*Grammar {
	L := func(ls ...LexRule) []LexRule { return ls }
	long := func(n int, last rune) []*LX {
		var ks []*LX
		for i := 0; i < n; i++ {
			ks = append(ks, chr(rune('a'+i%26)))
		}
		return append(ks, chr(last))
	}
	gs := []*Grammar{
		lexGrammar("ident-keyword", L(lx("ident", class("letter"), star(class("letter"), class("number"), chr('_')))), "if", "iffy", "i", "else", "el", "do"),
		lexGrammar("hex-ident", L(lx("ident", class("letter"), star(class("letter"), class("number"))), lx("hexa", plus(anyOf("0123456789abcdef")))), "dead", "+"),
		lexGrammar("int-float", L(lx("intn", plus(class("number"))), lx("flt", plus(class("number")), chr('.'), plus(class("number")))), ".", ".."),
		lexGrammar("strings", L(lx("str", chr('"'), star(seq(chr('\\'), anyOf("\\\"nrt")), notOf("\"\\")), chr('"')), lx("chl", chr('\''), alt(notOf("'\\"), seq(chr('\\'), anyOf("\\'nrt"))), chr('\''))), "'", "\""),
		lexGrammar("comments", L(slx("line_comment", chr('/'), chr('/'), star(notOf("\n"))), slx("block_comment", chr('/'), chr('*'), star(alt(notOf("*"), seq(chr('*'), notOf("/")))), chr('*'), chr('/')), lx("nm", plus(class("letter")))), "/", "*", "/="),
		lexGrammar("not-not", L(lx("aa", chr('a'), notOf("xy"), chr('1')), lx("bb", chr('a'), notOf("yz"), chr('2')), lx("cc", chr('a'), notOf("y"), chr('3')))),
		lexGrammar("any-any", L(lx("aa", anyOf("abc"), chr('1')), lx("bb", anyOf("bcd"), chr('2')), lx("cc", anyOf("cde"), chr('3')), lx("dd", chr('c'), chr('4')))),
		lexGrammar("class-not", L(lx("aa", chr('x'), class("letter"), chr('1')), lx("bb", chr('x'), notOf("ab1"), chr('2')), lx("cc", chr('x'), class("number"), chr('3')))),
		lexGrammar("class-any", L(lx("aa", class("letter"), chr('1')), lx("bb", anyOf("a1"), chr('2')), lx("cc", class("number"), chr('3')), lx("dd", class("upcase"), chr('4')), lx("ee", class("lowcase"), chr('5')))),
		lexGrammar("dot", L(lx("aa", chr('a'), dot(), chr('1')), lx("bb", chr('a'), class("letter"), chr('2')), lx("cc", chr('a'), notOf("b"), chr('3')), lx("dd", chr('a'), chr('b'), chr('4')))),
		lexGrammar("sets", L(lx("aa", uset("L", "-Lu"), chr('1')), lx("bb", uset("Lu", "N"), chr('2')), lx("cc", uset("Letter"), chr('3')), lx("dd", class("letter"), chr('4')), lx("ee", uset("P", "-Dash"), chr('5')), lx("ff", uset("Pattern_Syntax"), chr('6')))),
		lexGrammar("sets-class", L(lx("aa", uset("ASCII_Hex_Digit"), chr('1')), lx("bb", class("number"), chr('2')), lx("cc", class("letter"), chr('3')), lx("dd", uset("Hex_Digit", "-Nd"), chr('4')), lx("ee", notOf("f9"), chr('5')))),
		lexGrammar("loop-opt", L(lx("aa", chr('a'), star(opt(chr('b')), chr('c'))), lx("bb", chr('b'), plus(star(chr('x'))), chr('y')), lx("cc", chr('c'), opt(chr('x'))), lx("dd", chr('d'), star(seq(star(chr('e')), chr('f')))))),
		lexGrammar("loop-loop", L(lx("aa", plus(plus(chr('a'), chr('b')), opt(seq(chr('c'), star(chr('d')))))), lx("bb", opt(opt(star(chr('x')))), chr('z')))),
		lexGrammar("empty-match", L(lx("aa", star(chr('a'))), lx("bb", opt(chr('b'))), lx("cc", opt(chr('c')), opt(chr('d'))))),
		lexGrammar("refs", L(lx("dig", plus(class("number"))), lx("sgn", opt(anyOf("+-")), ref("dig")), lx("flt", ref("sgn"), chr('.'), ref("dig"), opt(seq(anyOf("eE"), ref("sgn")))))),
		lexGrammar("long-refs", L(lx("base", long(17, 'z')...), lx("aa", ref("base"), chr('1')), lx("bb", ref("base"), chr('2')), lx("cc", ref("base"), chr('3'), chr('4')))),
		lexGrammar("ops", L(lx("nm", plus(class("letter")))), "<", "<=", "<<", "<<=", "=", "==", "===", "!", "!=", "-", "->", "--", "-->", "\\", "\\\\", "\"", "'", "%", "%d", "{", "}", "`"),
		lexGrammar("prefix-gap", L(lx("nm", chr('x'))), "a", "abcd", "b", "cd"),
		lexGrammar("lit-vs-rule", L(lx("two", notOf(" \n\t"), notOf(" \n\t")), lx("one", notOf(" \n\t"))), "ab", "a", "\\", "\\\"", "'\""),
		lexGrammar("suppressed-first", L(slx("dash", plus(chr('-'))), lx("nm", plus(class("letter")))), "->", "-->"),
		lexGrammar("inner-space", L(lx("phrase", chr('a'), star(chr(' ')), chr('b')), lx("nl", chr('n'), chr('\n'), chr('m'))), "a"),
		lexGrammar("class-pairs", L(lx("aa", class("upcase"), plus(class("lowcase"))), lx("bb", plus(class("upcase"))), lx("cc", class("letter"), class("number")), lx("dd", class("lowcase"), class("upcase")))),
		lexGrammar("unicode", L(lx("greek", chr('λ'), star(class("letter"))), lx("cjk", plus(uset("Ideographic"))), lx("astral", chr('𝔸'), opt(dot()))), "λ", "é", "€", "→"),
		lexGrammar("shared-suffix", L(lx("aa", alt(chr('a'), chr('b')), star(chr('c')), chr('d')), lx("bb", chr('b'), star(chr('c')), chr('e')), lx("cc", anyOf("ab"), chr('c'), chr('c'), chr('c'), chr('f')))),
		// indices of more than one digit, in groups of groups
		lexGrammar("wide-alts", L(lx("tk", chr('x'), star(wideAlts(13)...), opt(wideAlts(12)...), chr('z')), lx("uu", plus(wideAlts(23)...), chr('1'), opt(wideAlts(11)...)))),
		lexGrammar("wide-split", L(lx("tk", chr('x'), star(split(12)...)), lx("uu", chr('y'), alt(split(22)...), chr('z')), lx("vv", chr('z'), opt(star(split(11)...), alt(split(13)...)), star(split(12)...)))),
		lexGrammar("gogll", L(
			lx("nt", class("upcase"), star(class("letter"), class("number"), chr('_'))),
			lx("tokid", class("lowcase"), star(class("letter"), class("number"), chr('_'))),
			lx("string_lit", chr('"'), plus(seq(chr('\\'), anyOf("\\\"nrt")), notOf("\"\\")), chr('"')),
			lx("char_lit", chr('\''), alt(notOf("'\\"), seq(chr('\\'), anyOf("\\'nrt"))), chr('\'')),
			slx("line_comment", chr('/'), chr('/'), star(notOf("\n"))),
		), "package", ":", ";", "!", "any", ".", "not", "(", "[", "{", "<", "|", "'[", "]'", "-", "\\p{L}", "\\p{Lu}", "empty"),
	}
	return gs
}

// wideAlts has n alternates, all of them some characters long.
func wideAlts(n int) []*LX {
	var ks []*LX
	for i := 0; i < n; i++ {
		s := seq(chr(rune('a' + i)))
		for k := 0; k < i%4; k++ {
			s.Kids = append(s.Kids, chr(rune('a'+(i+3*k)%n)))
		}
		ks = append(ks, s)
	}
	return ks
}

// split has two alternates more than n: the positions after a prefix of the
// second one start others.
func split(n int) []*LX {
	ks := []*LX{seq(chr('a'))}
	long := seq(chr('q'))
	for i := 0; i < n; i++ {
		long.Kids = append(long.Kids, chr(rune('b'+i%15)))
	}
	ks = append(ks, long)
	for i := 1; i < n; i++ {
		ks = append(ks, seq(chr(rune('b'+i%15)), chr(rune('0'+i%10))))
	}
	return ks
}

/*** C06 tokenisation ***/

func init() {
	checks["C06"] = func(c *Check) { checkLex(c, "C06") }
	checks["C07"] = func(c *Check) { checkLex(c, "C07") }
	checks["C08"] = checkC08
	checks["C09"] = checkC09
	checks["C10"] = checkC10
}

type lexCase struct {
	G *Grammar
	O *LexOracle
	U *Unit
}

func lexCases(r *Rng, n int, filter func(*Grammar) bool) []*lexCase {
	gs := curatedLex()
	for i := 0; i < n; i++ {
		gs = append(gs, randLexGrammar(r))
	}
	var cs []*lexCase
	for _, g := range gs {
		if filter != nil && !filter(g) {
			continue
		}
		cs = append(cs, newLexCase(g, len(cs)))
	}
	return cs
}

func newLexCase(g *Grammar, i int) *lexCase {
	id := fmt.Sprintf("x%03d", i)
	return &lexCase{g, NewLexOracle(g), &Unit{ID: id, Text: g.Text("m/" + id), Glue: "lex.go.txt"}}
}

// hugeLex has more than 256 tokens and lexer states.
func hugeLex(r *Rng) *Grammar {
	ls := []LexRule{
		lx("name", class("letter"), star(class("letter"), class("number"))),
		lx("num", plus(class("number"))),
		slx("comment", chr('#'), star(notOf("#\n")), chr('#')),
		slx("arrow", chr('-'), chr('>')),
	}
	used := map[string]bool{}
	for i := 0; i < 40; i++ { // tokens of several characters after a mark
		ls = append(ls, lx(fmt.Sprintf("tk%02d", i), chr('@'), chr(rune('a'+i%26)), anyOf("xyz"), chr(rune('0'+i/26)), star(anyOf("uv"))))
	}
	for len(used) < 270 {
		s := pick(r, []string{"", "", "+", "k", "if", "<"})
		for k := r.Range(2, 4); k > 0; k-- {
			s += string(pick(r, []rune("abcde01=+<>")))
		}
		used[s] = true
	}
	return lexGrammar("huge", ls, sortedStrs(used)...)
}

func lexWitness(cs *lexCase, in string, extra ...interface{}) map[string]interface{} {
	m := map[string]interface{}{"grammar": cs.U.Text, "input": in}
	for i := 0; i+1 < len(extra); i += 2 {
		m[fmt.Sprint(extra[i])] = extra[i+1]
	}
	return m
}

func lexCrashed(c *Check, cs *lexCase, j *ev.Job, r *ev.Res) bool {
	if r == nil {
		return true
	}
	if r.Hang != "" {
		c.Violate("hang", "unbounded work: "+r.Hang, lexWitness(cs, j.In))
		return true
	}
	if r.Panic != "" {
		c.Violate("panic", "panic: "+trunc(r.Panic, 300), lexWitness(cs, j.In))
		return true
	}
	return false
}

// judgeTokens walks the recorded tokens along the reference tokenisation.
// Differences that concern suppression are reported separately.
func judgeTokens(o *LexOracle, in []rune, toks []ev.Tok) (msg, supMsg string, skip bool) {
	want := o.Lex(in)
	k := 0
	for _, t := range want {
		if t.Mixed {
			return "", "", true
		}
		if t.Suppress {
			if k < len(toks) && toks[k].L == t.L && toks[k].R == t.R && contains(t.Accept, toks[k].ID) {
				return "", fmt.Sprintf("the suppressed token %s[%d,%d] is in the token stream", toks[k].ID, t.L, t.R), false
			}
			continue
		}
		if k >= len(toks) {
			return fmt.Sprintf("token %v[%d,%d] is missing", t.Accept, t.L, t.R), "", false
		}
		g := toks[k]
		if g.Sup {
			return "", fmt.Sprintf("a suppressed token %s[%d,%d] is in the token stream", g.ID, g.L, g.R), false
		}
		if g.L != t.L || g.R != t.R {
			return fmt.Sprintf("token %d is %s[%d,%d] but should be %v[%d,%d]", k, g.ID, g.L, g.R, t.Accept, t.L, t.R), "", false
		}
		if len(t.Accept) == 0 && g.ID != "Error" {
			return fmt.Sprintf("token %d is %s[%d,%d] but no token matches", k, g.ID, g.L, g.R), "", false
		}
		if len(t.Accept) > 0 && !contains(t.Accept, g.ID) {
			return fmt.Sprintf("token %d is %s[%d,%d] but should be %v", k, g.ID, g.L, g.R, t.Accept), "", false
		}
		k++
	}
	if k != len(toks)-1 {
		return fmt.Sprintf("%d tokens but should be %d and the end of input", len(toks), k), "", false
	}
	if e := toks[k]; e.ID != EOFTerm || e.L != len(in) || e.R != len(in) {
		return fmt.Sprintf("the last token is %s[%d,%d]", e.ID, e.L, e.R), "", false
	}
	return "", "", false
}

func checkLex(c *Check, prop string) {
	sup := prop == "C07"
	c.rule = "a case is a (token definitions, input) pair; non-trivial if the reference tokenisation has at least one token that is not an error"
	c.assume = []string{"the reference tokenisation simulates one NFA per token and literal in parallel, evaluating every character class by its definition"}
	if sup {
		c.rule = "a case is a (token definitions with suppressed tokens, input) pair; non-trivial if the reference tokenisation has at least one suppressed token"
	}
	r := NewRng(c.Seed, c.Prop)
	hasSup := func(g *Grammar) bool {
		for _, l := range g.Lex {
			if l.Suppress {
				return true
			}
		}
		return false
	}
	var filter func(*Grammar) bool
	n := c.N(260, 1200)
	if sup {
		filter = hasSup
		n = c.N(360, 1500)
	}
	cases := lexCases(r, n, filter)
	cases = append(cases, newLexCase(hugeLex(r.Fork("huge")), len(cases)))
	e := NewEnv()
	us := []*Unit{}
	for _, cs := range cases {
		us = append(us, cs.U)
	}
	m := e.Build(us)
	reportBuild(c, us)
	var jobs []*ev.Job
	var meta []*lexCase
	for k, cs := range cases {
		if !cs.U.OK {
			continue
		}
		rr := r.Fork(cs.U.ID)
		ins := lexInputs(rr, cs.G, c.N(110, 400))
		sizes := []int{300, 1100, 5000}
		if k%12 == 5 { // beyond 2^16 characters
			sizes = append(sizes, 70000)
		}
		for i, in := range append(ins, longTexts(rr, ins, sizes...)...) {
			op := "q"
			if i == 0 {
				op = "qm"
			}
			jobs = append(jobs, &ev.Job{G: cs.U.ID, Op: op, In: in})
			meta = append(meta, cs)
		}
	}
	res := m.RunJobs(jobs, 20)
	parallel(len(jobs), func(i int) {
		cs, j, r := meta[i], jobs[i], res[i]
		if lexCrashed(c, cs, j, r) {
			return
		}
		in := []rune(j.In)
		if r.ErrStr != "" {
			c.Violate("tokens", r.ErrStr, lexWitness(cs, j.In))
		}
		if j.Op == "qm" && !sup {
			judgeTables(c, cs, r)
		}
		msg, smsg, skip := judgeTokens(cs.O, in, r.Toks)
		if skip {
			c.Count("skipped, tie between suppressed and other tokens", 1)
			return
		}
		key := ""
		errs, good, nsup := 0, 0, 0
		for _, t := range cs.O.Lex(in) {
			if t.Suppress {
				nsup++
			}
			if len(t.Accept) == 0 {
				errs++
			} else {
				good++
			}
		}
		if good > 0 && !sup || nsup > 0 && sup {
			key = cs.U.ID + "|" + j.In
		}
		c.Eval(key)
		c.Count("tokens", good)
		c.Count("error tokens", errs)
		c.Count("suppressed tokens", nsup)
		if smsg != "" {
			c.Violate("suppressed", smsg, lexWitness(cs, j.In, "tokens", r.Toks))
		}
		if msg != "" {
			c.Violate("tokens", msg, lexWitness(cs, j.In, "tokens", r.Toks))
		}
		if i%997 == 0 {
			c.Sample(lexWitness(cs, j.In, "tokens", len(r.Toks)))
		}
	})
	if sup {
		c.Need("suppressed tokens", 1000)
	} else {
		c.Need("tokens", 10000)
		c.Need("error tokens", 1000)
	}
}

// judgeTables checks that the token tables list exactly the declared tokens
// and are inverse to each other.
func judgeTables(c *Check, cs *lexCase, r *ev.Res) {
	for _, s := range r.Cycles {
		c.Violate("tables", "token tables: "+s, lexWitness(cs, ""))
	}
	want := []string{"Error", EOFTerm}
	for i, id := range cs.O.ids {
		if cs.O.suppress[i] {
			id = "!" + id
		}
		want = append(want, id)
	}
	sort.Strings(want)
	if strings.Join(want, "\x00") != strings.Join(r.Types, "\x00") {
		c.Violate("tables", fmt.Sprintf("token types are %q but should be %q", r.Types, want), lexWitness(cs, ""))
	}
	c.Count("token tables", 1)
}

/*** C08 positions ***/

func stripEscape(s string) string {
	var b strings.Builder
	rs := []rune(s)
	for i := 0; i < len(rs); i++ {
		if rs[i] == '\\' && i+1 < len(rs) {
			i++
			switch rs[i] {
			case 'n':
				b.WriteByte('\n')
			case 'r':
				b.WriteByte('\r')
			case 't':
				b.WriteByte('\t')
			default:
				b.WriteRune(rs[i])
			}
		} else {
			b.WriteRune(rs[i])
		}
	}
	return b.String()
}

func checkC08(c *Check) {
	c.rule = "a case is a (token definitions, input) pair with every position-reporting call on it; non-trivial if the input spans more than one line or contains a tab or a non-ASCII character"
	c.assume = []string{"lines are counted by newline characters, columns by characters with a tab counting four"}
	r := NewRng(c.Seed, c.Prop)
	cases := lexCases(r, c.N(160, 600), nil)
	e := NewEnv()
	us := []*Unit{}
	for _, cs := range cases {
		us = append(us, cs.U)
	}
	m := e.Build(us)
	reportBuild(c, us)
	var jobs []*ev.Job
	var meta []*lexCase
	for k, cs := range cases {
		if !cs.U.OK {
			continue
		}
		rr := r.Fork(cs.U.ID)
		ins := lexInputs(rr, cs.G, c.N(90, 300))
		for i := 0; i < c.N(30, 100); i++ { // multi-line inputs
			var b strings.Builder
			for k := rr.Range(2, 6); k > 0; k-- {
				b.WriteString(pick(rr, ins))
				b.WriteString(pick(rr, []string{"\n", "\n\n", "\t", "\r\n", " \t", "\n\t", " ", "\r", "\v", "\f", "\u0085", "\u00a0", "\u2028", "\u2029", "\u3000", "\ufeff", "\u200b"}))
			}
			ins = append(ins, b.String())
		}
		ins = append(ins, longTexts(rr, ins, 300, 300, 3000)...)
		if k%12 == 5 { // few tokens, beyond line and column 2^16
			n := rr.Range(65530, 66600)
			in := pick(rr, ins) + strings.Repeat(pick(rr, []string{"\n", " ", "\t", "\r\n"}), n) + pick(rr, ins)
			jobs = append(jobs, &ev.Job{G: cs.U.ID, Op: "g", In: in})
			meta = append(meta, cs)
			c.Count("inputs of 2^16 lines or columns", 1)
		}
		for i, in := range ins {
			j := &ev.Job{G: cs.U.ID, Op: "pg", In: in}
			if i%2 == 1 && utf8.ValidString(in) { // the same from a file
				j.Op, j.File = "Fpg", fmt.Sprintf("%s/f%s-%d%s", e.Dir, cs.U.ID, i, pick(rr, []string{".txt", "", ".go", ".in.x"}))
			}
			jobs = append(jobs, j)
			meta = append(meta, cs)
		}
	}
	res := m.RunJobs(jobs, 20)
	parallel(len(jobs), func(i int) {
		cs, j, r := meta[i], jobs[i], res[i]
		if lexCrashed(c, cs, j, r) {
			return
		}
		in := []rune(j.In)
		nt := false
		for _, x := range in {
			nt = nt || x == '\n' || x == '\t' || x > 127
		}
		key := ""
		if nt {
			key = cs.U.ID + "|" + j.In
		}
		c.Eval(key)
		w := lexWitness(cs, j.In)
		if j.File != "" {
			w["file"] = j.File
			c.Count("inputs read from a file", 1)
		}
		if r.Text != j.In {
			w["lexed"] = r.Text
			c.Violate("text", "the text that is tokenised is not the input", w)
			return
		}
		if msg := judgePositions(in, r, strings.Contains(j.Op, "p")); msg != "" {
			c.Violate("positions", msg, w)
		}
		c.Count("positions", len(r.Pos))
		c.Count("token positions", len(r.Toks))
		if i%997 == 0 {
			c.Sample(lexWitness(cs, j.In, "tokens", len(r.Toks)))
		}
	})
	c.Need("token positions", 5000)
	c.Need("inputs read from a file", 1000)
}

func judgePositions(in []rune, r *ev.Res, all bool) string {
	if r.ErrStr != "" {
		return r.ErrStr
	}
	if all && len(r.Pos) != len(in)+1 {
		return fmt.Sprintf("%d positions", len(r.Pos))
	}
	ln, col := 1, 1
	pos := make([][2]int, len(in)+1)
	for i := 0; i <= len(in); i++ {
		pos[i] = [2]int{ln, col}
		if all && r.Pos[i] != [2]int{ln, col} {
			return fmt.Sprintf("character %d is reported at %v but is at %d:%d", i, r.Pos[i], ln, col)
		}
		if i < len(in) {
			switch in[i] {
			case '\n':
				ln, col = ln+1, 1
			case '\t':
				col += 4
			default:
				col++
			}
		}
	}
	last := 0
	for i, t := range r.Toks {
		if t.L < last || t.R > len(in) || t.R < t.L || t.R == t.L && i != len(r.Toks)-1 {
			return fmt.Sprintf("token %d has the extents [%d,%d]", i, t.L, t.R)
		}
		last = t.R
		p := pos[t.L]
		if [2]int{t.Ln, t.Col} != p || [2]int{t.Ln2, t.Col2} != p || [2]int{t.Ln3, t.Col3} != p {
			return fmt.Sprintf("token %d is reported at %d:%d, %d:%d and %d:%d but is at %v", i, t.Ln, t.Col, t.Ln2, t.Col2, t.Ln3, t.Col3, p)
		}
		lit := string(in[t.L:t.R])
		if t.Lit != lit {
			return fmt.Sprintf("token %d has the literal %q but its text is %q", i, t.Lit, lit)
		}
		if t.Strip != stripEscape(lit) {
			return fmt.Sprintf("token %d is %q without escapes but its text is %q", i, t.Strip, lit)
		}
	}
	k := 0
	for i := range r.Toks {
		for n := i; n < len(r.Toks) && n < i+4; n++ {
			if k >= len(r.Strs) || r.Strs[k] != string(in[r.Toks[i].L:r.Toks[n].R]) {
				return fmt.Sprintf("the text from token %d to token %d", i, n)
			}
			k++
		}
	}
	return ""
}

// longTexts returns texts of about the given lengths made of the pieces.
func longTexts(r *Rng, pieces []string, sizes ...int) (out []string) {
	for _, n := range sizes {
		seps := pick(r, [][]string{{" "}, {""}, {"\n"}, {" ", "\n", "", "\t", "\r\n"}, {" ", "", strings.Repeat(" ", r.Range(200, 300)), strings.Repeat("\n", r.Range(200, 300))}})
		var few []string
		for k := r.Range(1, 20); k > 0; k-- {
			few = append(few, pick(r, pieces))
		}
		var b strings.Builder
		for k := 0; b.Len() < n && k < n; k++ {
			b.WriteString(pick(r, few))
			b.WriteString(pick(r, seps))
		}
		out = append(out, b.String())
	}
	return
}

/*** C09 markdown ***/

// blankMd is the input with everything outside code fences blanked.
func blankMd(src string) (out []rune, fences int) {
	parts := strings.Split(src, "```")
	for i, p := range parts {
		if i > 0 {
			out = append(out, ' ', ' ', ' ')
			fences++
		}
		for _, r := range p {
			if i%2 == 1 || r == '\n' || r == '\t' {
				out = append(out, r)
			} else {
				out = append(out, ' ')
			}
		}
	}
	return
}

func mdDoc(r *Rng, pieces []string) string {
	var b strings.Builder
	prose := []string{"some text", "# Title\n", "\n", "a `code` b", "x\r\n", "λ → text", "`", "``", "\t", "a\tb", "~~~\n", " ", "```` ", "```"}
	for k := r.Range(1, 6); k > 0; k-- {
		for n := r.Intn(4); n > 0; n-- {
			b.WriteString(pick(r, prose))
		}
		if r.Chance(85) {
			b.WriteString("```")
			if r.Chance(80) {
				b.WriteString("\n")
			}
			for n := r.Intn(4); n > 0; n-- {
				b.WriteString(pick(r, pieces))
				b.WriteString(pick(r, []string{" ", "\n", "", "\t"}))
			}
			if r.Chance(92) {
				b.WriteString("```")
			}
			if r.Chance(70) {
				b.WriteString("\n")
			}
		}
	}
	return b.String()
}

func checkC09(c *Check) {
	c.rule = "a case is a (token definitions, file) pair; non-trivial if the file is markdown with at least one fence"
	c.assume = []string{"fences are the non-overlapping occurrences of three backticks from left to right"}
	r := NewRng(c.Seed, c.Prop)
	cases := lexCases(r, c.N(80, 300), nil)
	e := NewEnv()
	us := []*Unit{}
	for _, cs := range cases {
		us = append(us, cs.U)
	}
	m := e.Build(us)
	reportBuild(c, us)
	var jobs []*ev.Job
	var meta []*lexCase
	for _, cs := range cases {
		if !cs.U.OK {
			continue
		}
		rr := r.Fork(cs.U.ID)
		ins := lexInputs(rr, cs.G, 60)
		for i := 0; i < c.N(90, 300); i++ {
			doc := mdDoc(rr, ins)
			if i == 0 {
				doc = longTexts(rr, []string{doc, mdDoc(rr, ins), mdDoc(rr, ins)}, 3000)[0]
			}
			ext := ".md"
			if rr.Chance(20) {
				ext = pick(rr, []string{".txt", ".mdx", ".md.txt", "md"})
			}
			jobs = append(jobs, &ev.Job{G: cs.U.ID, Op: "Fpg", In: doc, File: fmt.Sprintf("%s/f%s-%d%s", e.Dir, cs.U.ID, i, ext)})
			meta = append(meta, cs)
		}
	}
	res := m.RunJobs(jobs, 20)
	parallel(len(jobs), func(i int) {
		cs, j, r := meta[i], jobs[i], res[i]
		if lexCrashed(c, cs, j, r) {
			return
		}
		md := strings.HasSuffix(j.File, ".md")
		in := []rune(j.In)
		fences := 0
		if md {
			in, fences = blankMd(j.In)
		}
		key := ""
		if fences > 0 {
			key = cs.U.ID + "|" + j.In
		}
		c.Eval(key)
		c.Count("fences", fences)
		if !md {
			c.Count("other files", 1)
		}
		got := []rune(r.Text)
		w := lexWitness(cs, j.In, "file", j.File, "lexed", r.Text)
		if len(got) != len(in) {
			c.Violate("markdown", fmt.Sprintf("%d characters are lexed of %d", len(got), len(in)), w)
			return
		}
		for k := range in {
			if got[k] != in[k] && !(md && unicode.IsSpace(in[k]) && unicode.IsSpace(got[k]) && (in[k] == '\n') == (got[k] == '\n')) {
				c.Violate("markdown", fmt.Sprintf("character %d is lexed as %q but should be %q", k, got[k], in[k]), w)
				return
			}
		}
		msg, smsg, skip := judgeTokens(cs.O, in, r.Toks)
		if skip {
			return
		}
		if msg+smsg != "" {
			c.Violate("markdown", msg+smsg, w)
			return
		}
		// lines and columns are those of the file
		orig := []rune(j.In)
		ln, col, at := 1, 1, 0
		for n, t := range r.Toks {
			for ; at < t.L; at++ {
				switch orig[at] {
				case '\n':
					ln, col = ln+1, 1
				case '\t':
					col += 4
				default:
					col++
				}
			}
			if t.Ln != ln || t.Ln2 != ln || t.Col != col || t.Col2 != col {
				c.Violate("markdown", fmt.Sprintf("token %d is reported at line %d, column %d but is at line %d, column %d of the file", n, t.Ln, t.Col, ln, col), w)
				return
			}
		}
		if i%497 == 0 {
			c.Sample(w)
		}
	})
	c.Need("fences", 2000)
	c.Need("other files", 100)
	c09Compiler(c, r, e)
}

// c09Compiler: the compiler itself reads grammars from markdown; a grammar
// scattered over fences yields the same output as the plain text.
func c09Compiler(c *Check, r *Rng, e *Env) {
	n := c.N(80, 250)
	type pair struct{ txt, md string }
	ps := make([]pair, n)
	for i := range ps {
		g := randGrammar(r, GenOpts{MaxNT: 4, MaxAlts: 3, MaxLen: 3, MaxTerms: 4, NTPct: 50, EmptyPct: 15})
		if i%2 == 0 {
			g = randLexGrammar(r)
		}
		txt := g.Text("m/x")
		var b strings.Builder
		prose := []string{"# Title\n", "Some `inline` text: S : \"x\" ;\n", "\n", "text ", "* list ! : ; |\n", "λ → ü\n"}
		lines := strings.Split(strings.TrimRight(txt, "\n"), "\n")
		for k := 0; k < len(lines); {
			for q := r.Intn(3); q > 0; q-- {
				b.WriteString(pick(r, prose))
			}
			b.WriteString("```")
			b.WriteString(pick(r, []string{"\n", " ", ""}))
			for q := r.Range(1, 3); q > 0 && k < len(lines); q-- {
				b.WriteString(lines[k] + pick(r, []string{"\n", " "}))
				k++
			}
			b.WriteString("```")
			b.WriteString(pick(r, []string{"\n", " ", ""}))
		}
		if strings.Contains(txt, "```") {
			continue
		}
		ps[i] = pair{txt, b.String()}
	}
	parallel(n, func(i int) {
		if ps[i].txt == "" {
			return
		}
		d1 := fmt.Sprintf("%s/md%d-1", e.Dir, i)
		d2 := fmt.Sprintf("%s/md%d-2", e.Dir, i)
		writeFile(d1+"/g.txt", ps[i].txt)
		writeFile(d2+"/g.md", ps[i].md)
		r1 := e.RunGogll(d1, "-o", d1+"/out", d1+"/g.txt")
		r2 := e.RunGogll(d2, "-o", d2+"/out", d2+"/g.md")
		c.Eval("compiler|" + ps[i].md)
		c.Count("grammars in markdown", 1)
		w := map[string]string{"grammar": ps[i].txt, "markdown": ps[i].md, "output": trunc(r2.Out, 500)}
		if r1.Code != r2.Code {
			c.Violate("markdown-grammar", fmt.Sprintf("exit code %d for the text but %d for the markdown", r1.Code, r2.Code), w)
			return
		}
		if r1.Code == 0 {
			if d := diffTrees(d1+"/out", d2+"/out"); d != "" {
				c.Violate("markdown-grammar", "the generated code differs: "+d, w)
			}
		}
		// a damaged grammar: what gogll says is what it says of the same text
		// with everything outside the fences blanked
		rr := r.Fork(fmt.Sprint("damage", i))
		for k := 0; k < 3; k++ {
			md := []rune(ps[i].md)
			if len(md) == 0 {
				return
			}
			switch p := rr.Intn(len(md)); rr.Intn(4) {
			case 0:
				md = append(md[:p], md[p+1:]...)
			case 1:
				md = append(md[:p], append([]rune(pick(rr, []string{";", "§", "\t", "\n", " x ", "```", "`", "|"})), md[p:]...)...)
			case 2:
				md = md[:p]
			case 3:
				md[p] = pick(rr, []rune{'\t', '`', ';', 'é', '"'})
			}
			blank, _ := blankMd(string(md))
			writeFile(d1+"/b.txt", string(blank))
			writeFile(d2+"/b.md", string(md))
			x1 := e.RunGogll(d1, "-o", d1+"/b", d1+"/b.txt")
			x2 := e.RunGogll(d2, "-o", d2+"/b", d2+"/b.md")
			c.Eval("damaged|" + string(md))
			if x2.Code != 0 {
				c.Count("rejected grammars in markdown", 1)
			}
			o1 := strings.ReplaceAll(strings.ReplaceAll(x1.Out, d1, ""), "b.txt", "b.md")
			o2 := strings.ReplaceAll(x2.Out, d2, "")
			w := map[string]string{"markdown": string(md), "output": trunc(x2.Out, 500), "output for the blanked text": trunc(x1.Out, 500)}
			if x1.Code != x2.Code {
				c.Violate("markdown-grammar", fmt.Sprintf("exit code %d for the blanked text but %d for the markdown", x1.Code, x2.Code), w)
			} else if errLines(o1) != errLines(o2) {
				c.Violate("markdown-grammar", "the messages for the blanked text and for the markdown differ", w)
			} else if d := diffTrees(d1+"/b", d2+"/b"); d != "" {
				c.Violate("markdown-grammar", "the outputs differ: "+d, w)
			}
		}
	})
	c.Need("rejected grammars in markdown", 50)
}

// errLines is a compiler output without the names of expected tokens, which
// are listed in no particular order.
func errLines(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if !strings.HasPrefix(l, "Expected one of") {
			out = append(out, l)
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

/*** C10 Unicode ***/

func checkC10(c *Check) {
	c.rule = "a case is a (character class or set, code point) pair counted once per class; every code point from U+0000 to U+10FFFF is lexed for every class"
	c.assume = []string{"the reference is the table of the same name in package unicode of the Go release that builds the generated lexer"}
	r := NewRng(c.Seed, c.Prop)
	var xs []*LX
	for _, n := range allCategories {
		xs = append(xs, uset(n))
	}
	for _, n := range allProperties {
		xs = append(xs, uset(n))
	}
	for _, n := range []string{"letter", "upcase", "lowcase", "number"} {
		xs = append(xs, class(n))
	}
	for i := 0; i < c.N(60, 600); i++ {
		all := append(append([]string{}, allCategories...), allProperties...)
		x := uset(pick(r, all))
		for k := r.Range(1, 4); k > 0; k-- {
			n := pick(r, all)
			if r.Chance(55) {
				n = "-" + n
			}
			y := uset(n)
			dup := false
			for _, s := range x.Set {
				dup = dup || s == y.Set[0]
			}
			if !dup {
				x.Set = append(x.Set, y.Set[0])
			}
		}
		xs = append(xs, x)
	}
	xs = append(xs, notOf("a"), notOf("\\\"\n\t\r"), notOf("λ𝔸\u0301"), dot(), anyOf("λ𝔸ab\u0301"), anyOf("\\\"'\n"))
	// several classes share one state, told apart by the character after
	marks := []rune("abcdefghijkl")
	var cases []*lexCase
	groups := [][]*LX{}
	// all alone first, then random groups
	for i := 0; i < len(xs); i++ {
		groups = append(groups, []*LX{xs[i]})
	}
	for i := 0; i < c.N(14, 150); i++ {
		var g []*LX
		for k := r.Range(2, 4); k > 0; k-- {
			g = append(g, pick(r, xs))
		}
		groups = append(groups, g)
	}
	// pack the lone ones: different first characters, so different states
	var packed []*Grammar
	var gx [][]*LX
	first := []rune("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
	lone := groups[:len(xs)]
	for len(lone) > 0 {
		k := len(lone)
		if k > len(first) {
			k = len(first)
		}
		var rules []LexRule
		var gs []*LX
		for i := 0; i < k; i++ {
			rules = append(rules, lx(fmt.Sprintf("tk%d", i), chr(first[i]), lone[i][0], chr('.')))
			gs = append(gs, lone[i][0])
		}
		packed = append(packed, lexGrammar("classes", rules))
		gx = append(gx, gs)
		lone = lone[k:]
	}
	nLone := len(packed)
	for _, g := range groups[len(xs):] {
		var rules []LexRule
		for i, x := range g {
			rules = append(rules, lx(fmt.Sprintf("tk%d", i), chr('A'), x, chr(marks[i])))
		}
		packed = append(packed, lexGrammar("class group", rules))
		gx = append(gx, g)
	}
	for i, g := range packed {
		id := fmt.Sprintf("u%03d", i)
		cases = append(cases, &lexCase{g, nil, &Unit{ID: id, Text: g.Text("m/" + id), Glue: "uni.go.txt"}})
	}
	e := NewEnv()
	us := []*Unit{}
	for _, cs := range cases {
		us = append(us, cs.U)
	}
	m := e.Build(us)
	reportBuild(c, us)
	var jobs []*ev.Job
	type ref struct {
		cs *lexCase
		x  *LX
	}
	var meta []ref
	for i, cs := range cases {
		if !cs.U.OK {
			continue
		}
		for k, x := range gx[i] {
			j := &ev.Job{G: cs.U.ID, Op: "tk" + fmt.Sprint(k)}
			if i < nLone {
				j.In = string(first[k]) + "."
			} else {
				j.In = "A" + string(marks[k])
			}
			jobs = append(jobs, j)
			meta = append(meta, ref{cs, x})
		}
	}
	res := m.RunJobs(jobs, 120)
	parallel(len(jobs), func(i int) {
		cs, j, r, x := meta[i].cs, jobs[i], res[i], meta[i].x
		if lexCrashed(c, cs, j, r) {
			return
		}
		c.Eval(cs.U.ID + x.String())
		want := runeRanges(x)
		c.Count("code points lexed", 0x110000)
		c.Count("ranges compared", len(want))
		if bad := diffRanges(r.Pos, want); bad >= 0 {
			c.Violate("class", fmt.Sprintf("%s: U+%04X is matched=%t but should be %t", x.String(), bad, inRanges(r.Pos, bad), inRanges(want, bad)), lexWitness(cs, fmt.Sprintf("%c U+%04X %s", []rune(j.In)[0], bad, string([]rune(j.In)[1]))))
		}
		if i%23 == 0 {
			c.Sample(map[string]interface{}{"class": x.String(), "ranges": len(want)})
		}
	})
	c.Need("code points lexed", 50*0x110000)
}

func runeRanges(x *LX) [][2]int {
	var out [][2]int
	in := false
	for r := rune(0); r <= unicode.MaxRune; r++ {
		if x.matchRune(r) {
			if in {
				out[len(out)-1][1] = int(r)
			} else {
				out = append(out, [2]int{int(r), int(r)})
			}
			in = true
		} else {
			in = false
		}
	}
	return out
}

func inRanges(rs [][2]int, r int) bool {
	i := sort.Search(len(rs), func(i int) bool { return rs[i][1] >= r })
	return i < len(rs) && rs[i][0] <= r
}

func diffRanges(a, b [][2]int) int {
	for i := 0; i < len(a) || i < len(b); i++ {
		if i >= len(a) {
			return b[i][0]
		}
		if i >= len(b) {
			return a[i][0]
		}
		if a[i] != b[i] {
			for _, r := range []int{a[i][0], b[i][0], a[i][1], b[i][1]} {
				if inRanges(a, r) != inRanges(b, r) {
					return r
				}
			}
			for r := 0; r <= unicode.MaxRune; r++ {
				if inRanges(a, r) != inRanges(b, r) {
					return r
				}
			}
		}
	}
	return -1
}

var allCategories = strings.Fields("Cc Cf Co Cs Digit Nd Letter L Lm Lo Lower Ll Mark M Mc Me Mn Nl No Number N Other C Pc Pd Pe Pf Pi Po Ps Punct P Sc Sk Sm So Space Z Symbol S Title Lt Upper Lu Zl Zp Zs")
var allProperties = strings.Fields("ASCII_Hex_Digit Bidi_Control Dash Deprecated Diacritic Extender Hex_Digit Hyphen IDS_Binary_Operator IDS_Trinary_Operator Ideographic Join_Control Logical_Order_Exception Noncharacter_Code_Point Other_Alphabetic Other_Default_Ignorable_Code_Point Other_Grapheme_Extend Other_ID_Continue Other_ID_Start Other_Lowercase Other_Math Other_Uppercase Pattern_Syntax Pattern_White_Space Prepended_Concatenation_Mark Quotation_Mark Radical Regional_Indicator STerm Sentence_Terminal Soft_Dotted Terminal_Punctuation Unified_Ideograph Variation_Selector White_Space")

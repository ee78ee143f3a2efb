package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

func init() { checks["C15"] = checkC15 }

var hostileNT = []string{"É", "ÅÄ", "T_0", "NT_S", "Func", "Type", "String", "Error", "EOF", "New", "Parse", "Lexer", "G0", "Init", "A_", "Z9", "Abc_1", "Λ", "Main", "S_", "S__", "Slot", "BSR", "Interface", "Σ١", "A1", "A10", "ACTION", "Accept", "Shift", "NumSymbols", "X0R0"}
var hostileTok = []string{"func", "type", "range", "var", "error", "eof", "nil", "string", "int", "t_0", "λx", "a_", "a__", "token", "lexer", "interface", "map", "struct", "go", "select", "case", "default", "init", "main", "true", "rune", "len", "x²", "x٣", "\u00f1\u00f1", "package1", "import", "const", "return", "fmt"}
var hostileLit = []string{"%d", "%%", "%!s(MISSING)", "`", "\"", "\\", "\\n", "{{", "}}", "{{.}}", "{{end}}", "//", "/*", "*/", "'", "<", ">", "&", "&lt;", "\\x", "%s", "$", "ϵ", "ε", "ℇ", "EOF", "Error", "S", "\u200b", "\u0001", "\u007f", "\ufffd", "𝔸", "é", "\u00e9\u0301", "λ", "if", "a", "ab", "\\\"", "${x}", "#", "@", "~", "^", "|", ";", ":", "package", "empty", "`+`", "\\u0041", "\U0010ffff", "0", "1e5", "-", "=="}

// hostileGrammar gives a random grammar unusual names and literals.
func hostileGrammar(r *Rng, lr bool) *Grammar {
	var g *Grammar
	if lr {
		g = lrRandom(r)
	} else if r.Chance(30) {
		g = pathGrammar(r)
	} else {
		g = randGrammar(r, GenOpts{MaxNT: 6, MaxAlts: 4, MaxLen: 4, MaxTerms: 6, NTPct: 45, EmptyPct: 12})
	}
	nts, toks, lits := append([]string{}, hostileNT...), append([]string{}, hostileTok...), append([]string{}, hostileLit...)
	shuffle(r, nts)
	shuffle(r, toks)
	shuffle(r, lits)
	m := map[Sym]Sym{}
	ren := func(s Sym) Sym {
		s.Quoted = 0
		if t, ok := m[s]; ok {
			return t
		}
		t := s
		if r.Chance(70) {
			switch s.Kind {
			case KNT:
				if len(nts) > 0 {
					t.Name, nts = nts[0], nts[1:]
				}
			case KTok:
				t.Name, toks = toks[0], toks[1:]
			case KLit:
				if len(lits) > 0 {
					t.Name, lits = quoteLit(lits[0]), lits[1:]
				}
			}
		}
		for _, u := range m {
			if u == t {
				t = s
			}
		}
		m[s] = t
		return t
	}
	h := &Grammar{Name: "hostile"}
	for _, l := range g.Lex {
		l.ID = ren(Tok(l.ID)).Name
		h.Lex = append(h.Lex, l)
	}
	for _, ru := range g.Rules {
		nr := Rule{Head: ren(NT(ru.Head)).Name}
		for _, a := range ru.Alts {
			var b []Sym
			for _, s := range a {
				b = append(b, ren(s))
			}
			nr.Alts = append(nr.Alts, b)
		}
		h.Rules = append(h.Rules, nr)
	}
	seen := map[string]bool{}
	for _, ru := range h.Rules {
		if seen[ru.Head] {
			return hostileGrammar(r, lr)
		}
		seen[ru.Head] = true
	}
	for _, l := range h.Lex {
		if seen[l.ID] {
			return hostileGrammar(r, lr)
		}
		seen[l.ID] = true
	}
	return h
}

// bigGrammar has many symbols, so that the order of every table matters.
func bigGrammar(r *Rng) *Grammar {
	n, t := r.Range(20, 45), r.Range(20, 60)
	g := &Grammar{Name: "big"}
	for i := 0; i < n; i++ {
		ru := Rule{Head: fmt.Sprintf("N%c%d", 'a'+rune(r.Intn(26)), i)}
		g.Rules = append(g.Rules, ru)
	}
	sym := func() Sym { return Lit(fmt.Sprintf("%c%d", 'a'+rune(r.Intn(26)), r.Intn(t))) }
	for i := range g.Rules {
		for k := r.Range(1, 4); k > 0; k-- {
			a := []Sym{sym()}
			for j := r.Intn(3); j > 0; j-- {
				if r.Chance(50) {
					a = append(a, NT(g.Rules[r.Intn(n)].Head))
				} else {
					a = append(a, sym())
				}
			}
			if i+1 < n && k == 1 {
				a = append(a, NT(g.Rules[i+1].Head))
			}
			g.Rules[i].Alts = append(g.Rules[i].Alts, a)
		}
		if i == n-1 {
			g.Rules[i].Alts = append(g.Rules[i].Alts, nil)
		}
	}
	g = reduce(g)
	if g == nil {
		return bigGrammar(r)
	}
	for i := range g.Rules {
		seen := map[string]bool{}
		var as [][]Sym
		for _, a := range g.Rules[i].Alts {
			if !seen[altString(a)] {
				seen[altString(a)] = true
				as = append(as, a)
			}
		}
		g.Rules[i].Alts = as
	}
	return g
}

type c15case struct {
	id, text string
	flags    []string
	key      string // known finding of this case
	ok       bool
}

// subset compares the files of a with those of the same names in b.
func subsetDiff(a, b string) string {
	ta, tb := readTree(a), readTree(b)
	for _, n := range sortedKeys(ta) {
		y, ok := tb[n]
		if !ok {
			return n + " is missing"
		}
		if x := ta[n]; x != y {
			lx, ly := strings.Split(x, "\n"), strings.Split(y, "\n")
			for i := range lx {
				if i >= len(ly) || lx[i] != ly[i] {
					o := ""
					if i < len(ly) {
						o = ly[i]
					}
					return fmt.Sprintf("%s:%d: %q and %q", n, i+1, trunc(lx[i], 120), trunc(o, 120))
				}
			}
			return n + ": the second is longer"
		}
	}
	return ""
}

func sortedKeys(m map[string]string) []string {
	k := map[string]bool{}
	for x := range m {
		k[x] = true
	}
	return sortedStrs(k)
}

func checkC15(c *Check) {
	c.rule = "a case is a (grammar, options) pair generated at least four times into different directories and compiled; all are non-trivial"
	c.assume = []string{"map iteration order and address layout differ between processes, so repeated runs expose dependence on them",
		"the Go compiler decides whether the generated code compiles; the LR(1) ast/ast.go compiled is the generated one (-a)"}
	r := NewRng(c.Seed, c.Prop)
	e := NewEnv()
	var cases []*c15case
	modes := [][]string{nil, {"-knuth"}, {"-pager"}, {"-knuth", "-resolve_conflicts"}, {"-pager", "-resolve_conflicts"}}
	add := func(text func(pkg string) string, flags []string, key string) {
		id := fmt.Sprintf("k%04d", len(cases))
		cases = append(cases, &c15case{id: id, text: text("m/" + id), flags: flags, key: key})
	}
	for _, m := range modes[:3] {
		res := m
		if m != nil {
			res = append([]string{"-resolve_conflicts"}, m...)
		}
		for _, s := range []string{`X² : "a" X² | "b" ;`, `Xⅷ : "a" ;`} {
			add(func(p string) string { return "package \"" + p + "\"\n" + s }, res, "numeral-in-nonterminal")
		}
		s := `A : "0" | "1" | "2" | "3" | "4" | "5" | "6" | "7" | "8" | "9" | "a" | "b" A1 ; A1 : "x" | "y" ;`
		add(func(p string) string { return "package \"" + p + "\"\n" + s }, res, "")
		for _, s := range []string{"S : \"\ufeffx\" S | \"y\" ;", "S : \"\u0000\" ;"} {
			add(func(p string) string { return "package \"" + p + "\"\n" + s }, res, "nul-or-bom-in-literal")
		}
		for _, s := range []string{
			`id : letter ; S : id "id" ;`, `S : "S" A ; A : "A" ;`, `S : "$" "EOF" ;`, `S : "Error" "error" ;`, `S : "ϵ" "x" | "ε" | "ℇ" ;`, `G0 : "a" G0 | "b" ;`,
			`x² : letter ; S : x² ;`, `error : letter ; eof : number ; S : error eof ;`, `S : empty ;`, `S : A B ; A : empty | "a" ; B : empty ;`,
			`S : "%d" "%%" "` + "`" + `" "\"" "\\" "\\n" "{{" "}}" "{{.}}" "//" "/*" "*/" "%!" "'" "<" "&" "\\x" "%s" ;`,
			`func : letter ; type : number ; S : func "type0" type Type String Error EOF T_0 NT_S ; Type : "a" ; String : "b" ; Error : "c" ; EOF : "d" ; T_0 : "e" ; NT_S : "f" ;`,
			`aa : '\'' '"' '\\' '\n' '\t' '\r' ` + "'`'" + ` '%' '{' ; bb : any "\"\\'%{` + "`" + `" ; cc : not "\"\\'%{}` + "`" + `" ; S : aa bb cc ;`,
			`aa : any "\"­" ; S : aa ;`, `!aa : '/' '/' { not "\n" } ; bb : <letter> ; S : bb S | bb ;`, `aa : < '[\p{L}-\p{Lu}\p{Nd}]' > ; bb : '[\p{Pattern_White_Space}]' ; S : aa bb ;`,
			`S : "` + strings.Repeat("long", 200) + `" ;`,
		} {
			add(func(p string) string { return "package \"" + p + "\"\n" + s }, res, "")
		}
		for _, g := range curatedGrammars() {
			add(g.Text, res, "")
		}
	}
	for _, g := range curatedLR() {
		for _, m := range modes {
			add(g.Text, m, "")
		}
	}
	for _, g := range curatedLex() {
		add(g.Text, nil, "")
	}
	for i := 0; i < c.N(260, 2500); i++ {
		rr := r.Fork(fmt.Sprint(i))
		m := modes[rr.Intn(len(modes))]
		var g *Grammar
		switch k := rr.Intn(10); {
		case k < 6:
			g = hostileGrammar(rr, m != nil)
		case k < 8:
			g = randLexGrammar(rr)
			o := NewLexOracle(g)
			if o.dfaSize(400) > 350 {
				continue
			}
		default:
			g = bigGrammar(rr)
			if m != nil {
				if NewLR(NewCFG(g), 700).TooBig {
					m = nil
				}
			}
		}
		add(g.Text, m, "")
	}
	mod := filepath.Join(e.Dir, "mod")
	e.initModule(mod)
	os.RemoveAll(filepath.Join(mod, "ev"))
	parallel(len(cases), func(i int) {
		cs := cases[i]
		rr := r.Fork("run" + cs.id)
		wit := map[string]interface{}{"grammar": cs.text, "flags": strings.Join(cs.flags, " ")}
		d := filepath.Join(mod, cs.id)
		run := func(dir, cwd, src, out string, extra ...string) RunRes {
			writeFile(filepath.Join(dir, "g.txt"), cs.text)
			return e.RunGogll(cwd, append(append(append([]string{}, cs.flags...), extra...), "-o", out, src)...)
		}
		a := []string{"-a"}
		res := run(d, d, d+"/g.txt", d, a...)
		c.Eval(cs.text + fmt.Sprint(cs.flags))
		if i%37 == 0 {
			c.Sample(wit)
		}
		if res.Crash || res.Code != 0 && !strings.Contains(res.Out, "onflict") {
			c.Violate("generate", fmt.Sprintf("gogll failed on a valid grammar, exit status %d: %s", res.Code, trunc(res.Out, 300)), wit)
			os.RemoveAll(d)
			return
		}
		if res.Code == 0 {
			cs.ok = true
			c.Count("generated", 1)
		} else {
			c.Count("rejected for conflicts", 1)
		}
		// into a directory that holds the output of another grammar, by relative paths
		s := filepath.Join(e.Dir, "s-"+cs.id, "deep", "er")
		defer os.RemoveAll(filepath.Join(e.Dir, "s-"+cs.id))
		other := cases[rr.Intn(len(cases))]
		writeFile(s+"/g.txt", other.text)
		e.RunGogll(s, append(append([]string{"-v", "-a"}, modes[rr.Intn(5)]...), "-o", s, s+"/g.txt")...)
		stale := len(readTree(s))
		type try struct {
			what string
			res  RunRes
		}
		compare := func(what, want, got string, r2 RunRes) {
			wit2 := map[string]interface{}{}
			for k, v := range wit {
				wit2[k] = v
			}
			wit2["difference between"] = what
			if r2.Code != res.Code {
				c.Violate("reproducible", fmt.Sprintf("exit status %d and %d", res.Code, r2.Code), wit2)
			} else if x := subsetDiff(want, got); x != "" {
				wit2["other grammar"] = other.text
				c.Violate("reproducible", "two runs generated different files: "+x, wit2)
			}
			c.Count("runs compared", 1)
		}
		cwd := filepath.Dir(s)
		compare("an empty directory and one with the output of another grammar", d, s, run(s, cwd, "er/g.txt", "er/../er", a...))
		if stale > 3 {
			c.Count("runs over stale output", 1)
		}
		// run again over its own output
		compare("the first and a second run in a directory", d, s, run(s, cwd, "er/g.txt", "./er", a...))
		// verbose, twice
		v1, v2 := filepath.Join(e.Dir, "s-"+cs.id, "v1"), filepath.Join(e.Dir, "s-"+cs.id, "v2")
		x1 := run(v1, v1, "g.txt", v1, "-a", "-v")
		x2 := run(v2, e.Dir, v2+"/g.txt", v2, "-v", "-a")
		compare("a silent and a verbose run", d, v1, x1)
		compare("two verbose runs", v1, v2, x2)
		// default output directory
		v3 := filepath.Join(e.Dir, "s-"+cs.id, "v3")
		writeFile(v3+"/g.txt", cs.text)
		x3 := e.RunGogll(v3, append(append([]string{"-a"}, cs.flags...), "g.txt")...)
		compare("a run with -o and one without", d, v3, x3)
		os.RemoveAll(d + "/g.txt")
		if !cs.ok {
			os.RemoveAll(d)
		}
	})
	cmd := exec.Command("go", "build", "./...")
	cmd.Dir = mod
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	errs := map[string]string{}
	if err != nil {
		errs = compileErrors(mod, string(out), goEnv())
		if len(errs) == 0 {
			die("the generated modules do not build: %s\n%s", err, out)
		}
	}
	// go build does not tell which package a test of a package clause is in
	for _, cs := range cases {
		if !cs.ok {
			continue
		}
		if m := errs[cs.id]; m != "" {
			key := cs.key
			if key == "" {
				key = "compile"
			}
			c.Violate(key, "the generated code does not compile: "+trunc(m, 300), map[string]interface{}{"grammar": cs.text, "flags": strings.Join(cs.flags, " ")})
		} else {
			c.Count("compiled", 1)
		}
	}
	c.Need("compiled", 300)
	c.Need("runs compared", 1500)
	c.Need("runs over stale output", 200)
}

package main

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"unicode"
	"unicode/utf8"

	"mon/ev"
)

/*** C26 the Rust target ***/

func init() { checks["C26"] = checkC26 }

// rustCase is a grammar whose Rust code is generated, compiled with
// debug assertions and overflow checks, and run on its jobs in one process.
type rustCase struct {
	kind   string // lex, gll, knuth or pager
	g      *Grammar
	gll    *gcase
	lr     *lrCase
	lex    *lexCase
	text   string
	jobs   []*ev.Job
	res    []*ev.Res
	gen    RunRes
	err    string
	differ string // what is different in another run of gogll
}

func rustLib(e *Env) string {
	src := filepath.Join(e.Dir, "lazy_static.rs")
	writeFile(src, glue("lazy_static.rs.txt"))
	lib := filepath.Join(e.Dir, "liblazy_static.rlib")
	if out, err := exec.Command("rustc", "--edition", "2018", "--crate-type", "rlib", "--crate-name", "lazy_static", "-o", lib, src).CombinedOutput(); err != nil {
		die("inconclusive: rustc does not work: %s\n%s", err, out)
	}
	return lib
}

var rustFn = regexp.MustCompile(`(?m)^pub fn (\w+)\(`)

func (k *rustCase) run(e *Env, lib, dir string) {
	k.text = k.g.Text("m/g")
	writeFile(filepath.Join(dir, "g.txt"), k.text)
	args := []string{"-rust"}
	tmpl := map[string]string{"lex": "rust_lex.rs.txt", "gll": "rust_gll.rs.txt"}[k.kind]
	if tmpl == "" {
		tmpl = "rust_lr.rs.txt"
		args = append(args, "-"+k.kind)
	}
	k.gen = e.RunGogll(dir, append(args, "g.txt")...)
	if k.gen.Code != 0 {
		return
	}
	// again, into a directory with other files and over its own output
	d2 := filepath.Join(dir, "again")
	defer os.RemoveAll(d2)
	writeFile(filepath.Join(d2, "g.txt"), k.text)
	for _, f := range []string{"src/lexer/mod.rs", "src/parser/mod.rs", "src/token/mod.rs"} {
		writeFile(filepath.Join(d2, f), strings.Repeat("stale\n", 20000))
	}
	for try := 0; try < 2; try++ {
		if r := e.RunGogll(d2, append(args, "g.txt")...); r.Code != 0 {
			k.differ = fmt.Sprintf("run %d failed: %s", try+2, trunc(r.Out, 300))
		} else if x := subsetDiff(filepath.Join(dir, "src"), filepath.Join(d2, "src")); x != "" {
			k.differ = fmt.Sprintf("runs 1 and %d generated different files: %s", try+2, x)
		}
	}
	if k.lr != nil {
		name := filepath.Join(dir, "src/ast/mod.rs")
		b, err := os.ReadFile(name)
		if err != nil {
			k.err = err.Error()
			return
		}
		rec := glue("rust_ast.rs.txt")
		fns := rustFn.FindAllStringSubmatch(string(b), -1)
		for i, f := range fns {
			rec += fmt.Sprintf("pub fn %s(params: Vec<Node>) -> Result<Node, String> { rec(%d, params) }\n", f[1], i)
		}
		n := 1
		for _, r := range k.g.Rules {
			n += len(r.Alts)
		}
		if n != len(fns) {
			k.err = fmt.Sprintf("%d action functions for %d productions", len(fns), n)
			return
		}
		writeFile(name, rec)
	}
	writeFile(filepath.Join(dir, "src/main.rs"), glue(tmpl)+glue("rust_common.rs.txt"))
	bin := filepath.Join(dir, "bin")
	c := exec.Command("rustc", "--edition", "2018", "-A", "warnings", "-C", "debug-assertions=on", "-C", "overflow-checks=on", "-C", "opt-level=0", "-C", "debuginfo=0", "--extern", "lazy_static="+lib, "-o", bin, filepath.Join(dir, "src/main.rs"))
	if out, err := c.CombinedOutput(); err != nil {
		k.err = string(out)
		return
	}
	var in strings.Builder
	for i, j := range k.jobs {
		j.I = i
		t := j.In
		if j.File != "" {
			writeFile(j.File, j.In)
			t = j.File
		}
		fmt.Fprintf(&in, "%d %s %s\n", i, j.Op, hex.EncodeToString([]byte(t)))
	}
	writeFile(filepath.Join(dir, "jobs"), in.String())
	for try := 0; try < 2; try++ {
		c := exec.Command("/bin/bash", "-c", "ulimit -t 300; ulimit -v 2500000; exec \"$0\" \"$@\"", bin, filepath.Join(dir, "jobs"), filepath.Join(dir, "res"))
		out, err := c.CombinedOutput()
		if err == nil {
			break
		}
		k.err = fmt.Sprintf("%s: %s", err, trunc(string(out), 400))
		if !strings.Contains(err.Error(), "killed") { // else ended from outside
			break
		}
	}
	k.res = make([]*ev.Res, len(k.jobs))
	f, err := os.Open(filepath.Join(dir, "res"))
	if err != nil {
		k.err = err.Error()
		return
	}
	defer f.Close()
	dec := json.NewDecoder(bufio.NewReader(f))
	for {
		x := &ev.Res{}
		if dec.Decode(x) != nil {
			break
		}
		if x.I < len(k.res) {
			k.res[x.I] = x
		}
	}
}

// rustSafe tells if the names, literals and characters of g are plain ones:
// the Rust templates write them into Rust strings and comments as they are.
func rustSafe(g *Grammar) bool {
	plain := func(s string) bool {
		for _, r := range s {
			if r < ' ' || r > '~' || strings.ContainsRune("\"'\\{}", r) {
				return false
			}
		}
		return !strings.Contains(s, "*/") && !strings.Contains(s, "/*")
	}
	word := func(s string) bool { return rustWord.MatchString(s) && s != "Self" }
	heads := map[string]bool{}
	for _, ru := range g.Rules {
		h := strings.ToLower(strings.Replace(ru.Head, "_", "", -1))
		if !word(ru.Head) || heads[h] {
			return false
		}
		heads[h] = true
	}
	var lex func(x *LX) bool
	lex = func(x *LX) bool {
		if x.Op == LSet {
			return false
		}
		for _, k := range x.Kids {
			if !lex(k) {
				return false
			}
		}
		return true
	}
	for _, l := range g.Lex {
		if !word(l.ID) || !lex(l.X) {
			return false
		}
	}
	ts := g.Terminals()
	for _, t := range ts {
		if t.Kind == KLit && (t.Quoted > 0 || !plain(t.Name)) {
			return false
		}
	}
	return len(ts) > 0
}

// rustText replaces the characters, for which the classes of Rust and Go
// differ.
func rustText(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r == utf8.RuneError || r >= 0x80 && !unicode.IsSpace(r) && !strings.ContainsRune("éλΛ٣→€ж中", r) {
			r = 'é'
		}
		b.WriteRune(r)
	}
	return b.String()
}

var rustWord = regexp.MustCompile(`^[A-Za-z][A-Za-z0-9_]*$`)

func rustCases(c *Check, r *Rng, dir string) (ks []*rustCase) {
	take := func(gs []*Grammar, n int) (out []*Grammar) {
		shuffle(r, gs)
		for _, g := range gs {
			if len(out) < n && rustSafe(g) {
				out = append(out, g)
			}
		}
		return
	}
	for i, g := range take(gllGrammars(r, c.N(130, 700)), c.N(70, 500)) {
		k := &rustCase{kind: "gll", g: g, gll: &gcase{G: g, C: NewCFG(g)}}
		rr := r.Fork(fmt.Sprint("gll", i))
		for _, w := range genInputs(rr, k.gll.C, 80, 20, 20, 8, 12) {
			k.jobs = append(k.jobs, &ev.Job{Op: "na", In: rustText(renderTokens(rr, k.gll.C, w, hasComment(g)))})
		}
		ks = append(ks, k)
	}
	lgs := curatedLex()
	for i := 0; i < c.N(200, 1200); i++ {
		lgs = append(lgs, randLexGrammar(r))
	}
	for i, g := range take(lgs, c.N(40, 250)) {
		k := &rustCase{kind: "lex", g: g, lex: &lexCase{G: g, O: NewLexOracle(g)}}
		rr := r.Fork(fmt.Sprint("lex", i))
		ins := lexInputs(rr, g, c.N(80, 300))
		for n, in := range ins {
			j := &ev.Job{Op: "p", In: rustText(in)}
			if n%5 == 0 {
				j.Op, j.File = "pf", filepath.Join(dir, fmt.Sprintf("in%d-%d.txt", i, n))
			}
			k.jobs = append(k.jobs, j)
		}
		for n := 0; n < 20; n++ {
			k.jobs = append(k.jobs, &ev.Job{Op: "pf", In: rustText(mdDoc(rr, ins)), File: filepath.Join(dir, fmt.Sprintf("in%d-%d.md", i, n))})
		}
		ks = append(ks, k)
	}
	gs, ls := lrGrammars(r, c.N(120, 500), isLR1)
	n := c.N(30, 200)
	for i, g := range gs {
		if !rustSafe(g) || n == 0 {
			continue
		}
		n--
		cf := NewCFG(g)
		rr := r.Fork(fmt.Sprint("lr", i))
		ins := genInputs(rr, cf, 40, 20, 20, 6, 14)
		for _, mode := range []string{"knuth", "pager"} {
			k := &rustCase{kind: mode, g: g, lr: &lrCase{G: g, C: cf, L: ls[i], Mode: mode}}
			for m, w := range ins {
				j := &ev.Job{Op: "x", In: rustText(renderTokens(rr, cf, w, hasComment(g)))}
				if m%3 == 1 {
					j.Arg = rr.Range(1, 9)
					j.Op = fmt.Sprint("x", j.Arg)
				}
				k.jobs = append(k.jobs, j)
			}
			ks = append(ks, k)
		}
	}
	return
}

func checkC26(c *Check) {
	c.rule = "a case is a (grammar, input) pair lexed or parsed by generated Rust code; non-trivial if the input has a token"
	c.assume = []string{"the oracles are those of C01, C02, C06, C08 and C13", "lazy_static is a stand-in of the same meaning, for the real crate is not on the machine"}
	r := NewRng(c.Seed, c.Prop)
	e := NewEnv()
	lib := rustLib(e)
	ks := rustCases(c, r, e.Dir)
	parallel(len(ks), func(i int) {
		d := filepath.Join(e.Dir, fmt.Sprint("rust", i))
		ks[i].run(e, lib, d)
		os.RemoveAll(d)
	})
	parallel(len(ks), func(i int) { ks[i].judge(c, i) })
	c.Count("generated programs", len(ks))
	c.Need("sentences", 300)
	c.Need("non-sentences", 300)
	c.Need("lexed", 1000)
	c.Need("LR parses", 500)
}

func (k *rustCase) judge(c *Check, id int) {
	if k.gen.Code != 0 {
		c.Violate("generate", fmt.Sprintf("gogll -rust failed (exit %d) on a valid grammar", k.gen.Code), map[string]string{"grammar": k.text, "output": trunc(k.gen.Out, 800)})
		return
	}
	if k.differ != "" {
		c.Violate("reproducible", k.differ, map[string]string{"grammar": k.text, "kind": k.kind})
	}
	c.Count("runs compared", 2)
	if k.res == nil {
		c.Violate("compile", "the generated Rust code does not compile", map[string]string{"grammar": k.text, "kind": k.kind, "output": trunc(k.err, 1200)})
		return
	}
	for i, x := range k.res {
		j := k.jobs[i]
		w := map[string]interface{}{"grammar": k.text, "kind": k.kind, "op": j.Op, "input": j.In, "file": filepath.Ext(j.File)}
		if x == nil {
			c.Violate("died", "the Rust program ended at this input: "+k.err, w)
			return
		}
		if x.Panic != "" {
			c.Violate("panic", trunc(x.Panic, 300), w)
			continue
		}
		key := ""
		if len(x.Toks) > 1 {
			key = fmt.Sprint(id, "|", j.In, "|", j.Op)
		}
		c.Eval(key)
		if what, msg := k.judgeJob(c, j, x); msg != "" {
			w["tokens"] = x.Toks
			c.Violate(what, msg, w)
		}
	}
	c.Sample(map[string]interface{}{"grammar": k.text, "kind": k.kind, "inputs": len(k.jobs)})
}

func (k *rustCase) judgeJob(c *Check, j *ev.Job, x *ev.Res) (what, msg string) {
	in := []rune(j.In)
	for i := range x.Toks {
		x.Toks[i].Strip = stripEscape(x.Toks[i].Lit)
	}
	if k.lex != nil {
		c.Count("lexed", 1)
		if strings.HasSuffix(j.File, ".md") {
			in, _ = blankMd(j.In)
			c.Count("markdown files", 1)
		}
		msg, sup, skip := judgeTokens(k.lex.O, in, x.Toks)
		if msg != "" || sup != "" {
			return "tokens", msg + sup
		}
		if skip {
			c.Count("skipped, tie between suppressed and other tokens", 1)
		}
		return "positions", judgePositions(in, x, true)
	}
	if k.gll != nil {
		w := k.gll.C.Encode(tokIDs(x))
		want := k.gll.C.Spans(w).Accept()
		if want {
			c.Count("sentences", 1)
		} else {
			c.Count("non-sentences", 1)
		}
		if want != x.OK {
			return "recognition", fmt.Sprintf("accepted=%t but the input is a sentence=%t", x.OK, want)
		}
		if !want {
			return "errors", judgeRustErrors(x)
		}
		f, packed, ok := oracleForest(k.gll, w)
		if !ok {
			c.Count("skipped, forest too large", 1)
			return "", ""
		}
		amb := false
		for _, ps := range packed {
			amb = amb || len(ps) > 1
		}
		if amb != x.Amb {
			return "ambiguity", fmt.Sprintf("reported ambiguous=%t, is ambiguous=%t", x.Amb, amb)
		}
		if !x.Trunc {
			c.Count("forests", 1)
			return "forest", judgeForest(k.gll, x, w, f)
		}
		return "", ""
	}
	c.Count("LR parses", 1)
	w := k.lr.encode(x)
	o := k.lr.L.Run(w)
	calls := o.Calls
	if o.OK { // the augmented production has no function call
		calls = calls[:len(calls)-1]
	}
	idx := map[[2]int]int{}
	for i, ru := range k.g.Rules {
		for a := range ru.Alts {
			idx[[2]int{i, a}] = len(idx) + 1
		}
	}
	var exp []string
	for _, q := range calls {
		exp = append(exp, fmt.Sprintf("p%d(%s)", idx[[2]int{q.nt, q.alt}], strings.Join(q.args, ",")))
	}
	got := x.Strs
	if j.Arg > 0 && j.Arg <= len(exp) {
		c.Count("action errors", 1)
		if d := firstDiff(got, exp[:j.Arg]); d != "" {
			return "calls", "call " + d
		}
		if x.OK || x.Text != fmt.Sprintf("boom%d", j.Arg-1) {
			return "action-error", fmt.Sprintf("the result is %t, %q after an action function failed", x.OK, x.Text)
		}
		return "", ""
	}
	if !o.OK {
		c.Count("rejected", 1)
		if len(got) < len(exp) || firstDiff(got[:len(exp)], exp) != "" || k.kind == "knuth" && len(got) != len(exp) {
			return "calls", "the calls before the error are not those of the prefix"
		}
		if j.Arg > 0 && !x.OK && strings.HasPrefix(x.Text, "boom") {
			return "", "" // an action function of a further reduction failed
		}
		t := x.Toks[o.ErrAt]
		if pos := fmt.Sprintf("line %d col %d,", t.Ln, t.Col); x.OK || !strings.Contains(x.Text, pos) {
			return "syntax-error", fmt.Sprintf("the result is %t, %q but there is an error at %s", x.OK, x.Text, pos)
		}
		return "", ""
	}
	c.Count("accepted", 1)
	if d := firstDiff(got, exp); d != "" {
		return "calls", "call " + d
	}
	if val := fmt.Sprintf("n%d", len(exp)-1); !x.OK || x.Text != val {
		return "value", fmt.Sprintf("the result is %t, %q but should be %s", x.OK, x.Text, val)
	}
	return "", ""
}

// judgeRustErrors checks the errors of a GLL parse: they name tokens of the
// input that are not among the expected ones.
func judgeRustErrors(x *ev.Res) string {
	if len(x.Errs) == 0 {
		return "there is no error"
	}
	for _, q := range x.Errs {
		if q.TIdx < 0 || q.TIdx >= len(x.Toks) {
			return fmt.Sprintf("an error at token %d", q.TIdx)
		}
		t := x.Toks[q.TIdx]
		if t.L != q.L || t.R != q.R || t.ID != q.ID || t.Ln != q.Ln || t.Col != q.Col {
			return fmt.Sprintf("an error at %s[%d,%d] %d:%d but its token is %s[%d,%d] at %d:%d", q.ID, q.L, q.R, q.Ln, q.Col, t.ID, t.L, t.R, t.Ln, t.Col)
		}
		if contains(q.Exp, q.ID) {
			return fmt.Sprintf("an error at %s[%d,%d] expects this token", q.ID, q.L, q.R)
		}
	}
	return ""
}

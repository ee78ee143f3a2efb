package main

import (
	"fmt"
	goast "go/ast"
	goparser "go/parser"
	"go/token"
	"os"
	"regexp"
	"strings"
	"sync"

	"mon/ev"
)

/*** LR(1): C11 acceptance, C12 conflicts, C13 actions, C20 errors ***/

func init() {
	checks["C11"] = checkC11
	checks["C12"] = checkC12
	checks["C13"] = checkC13
	checks["C20"] = checkC20
}

type lrCase struct {
	G    *Grammar
	C    *CFG
	L    *LR
	U    *Unit
	Mode string // knuth or pager
	Res  bool   // with -resolve_conflicts
}

// startHead is the head of the augmented start production.
func startHead(g *Grammar) string {
	m, h := g.RuleIdx(), "G0"
	for {
		if _, ok := m[h]; !ok {
			return h
		}
		h += "0"
	}
}

// recorderAST replaces the generated action functions with recording ones.
func recorderAST(g *Grammar) string {
	var b strings.Builder
	b.WriteString("package ast\n\nvar Rec func(f string, args []interface{}) (interface{}, error)\n")
	fn := func(name string, n int) {
		var ps []string
		for i := 0; i < n; i++ {
			ps = append(ps, fmt.Sprintf("p%d", i))
		}
		p := strings.Join(ps, ", ")
		typ := ""
		if n > 0 {
			typ = " interface{}"
		}
		fmt.Fprintf(&b, "func %s(%s%s) (interface{}, error) { return Rec(%q, []interface{}{%s}) }\n", name, p, typ, name, p)
	}
	fn(startHead(g)+"0", 1)
	for _, r := range g.Rules {
		for i, a := range r.Alts {
			fn(altFunc(g, r.Head, i), len(a))
		}
	}
	return b.String()
}

// altFunc is the name of the action function of an alternate: the name of the
// nonterminal and the number of the alternate, with underscores between them
// if another alternate before it has that name.
func altFunc(g *Grammar, head string, alt int) string {
	type key struct {
		head string
		alt  int
	}
	m, ok := altFuncs.Load(g)
	if !ok {
		names, used := map[key]string{}, map[string]bool{}
		for _, r := range g.Rules {
			for i := range r.Alts {
				f := fmt.Sprintf("%s%d", r.Head, i)
				for sep := "_"; used[f]; sep += "_" {
					f = fmt.Sprintf("%s%s%d", r.Head, sep, i)
				}
				used[f] = true
				names[key{r.Head, i}] = f
			}
		}
		m, _ = altFuncs.LoadOrStore(g, names)
	}
	f, ok := m.(map[key]string)[key{head, alt}]
	if !ok {
		die("no alternate %d of %s", alt, head)
	}
	return f
}

var altFuncs sync.Map // of *Grammar

// checkSkeleton compares the generated action functions with the productions.
func checkSkeleton(g *Grammar, src string) string {
	want := map[string]int{startHead(g) + "0": 1}
	for _, r := range g.Rules {
		for i, a := range r.Alts {
			want[altFunc(g, r.Head, i)] = len(a)
		}
	}
	f, err := goparser.ParseFile(token.NewFileSet(), "ast.go", src, 0)
	if err != nil {
		return err.Error()
	}
	for _, d := range f.Decls {
		fd, ok := d.(*goast.FuncDecl)
		if !ok || fd.Recv != nil {
			continue
		}
		n, ok := want[fd.Name.Name]
		if !ok {
			continue
		}
		if k := fd.Type.Params.NumFields(); k != n {
			return fmt.Sprintf("function %s has %d parameters, its alternate %d symbols", fd.Name.Name, k, n)
		}
		delete(want, fd.Name.Name)
	}
	for f := range want {
		return "no function " + f
	}
	return ""
}

func lrUnit(id string, g *Grammar, mode string, res bool) *Unit {
	u := &Unit{ID: id, Text: g.Text("m/" + id), Glue: "lr.go.txt", Flags: []string{"-" + mode}}
	if res {
		u.Flags = append(u.Flags, "-resolve_conflicts")
	}
	u.Post = func(d string) error {
		b, err := os.ReadFile(d + "/ast/ast.go")
		if err != nil {
			return err
		}
		if msg := checkSkeleton(g, string(b)); msg != "" {
			return fmt.Errorf("generated ast/ast.go: %s", msg)
		}
		return os.WriteFile(d+"/ast/ast.go", []byte(recorderAST(g)), 0666)
	}
	return u
}

func curatedLR() []*Grammar {
	return []*Grammar{
		parseG("error-tok", "S : S T | T\nT : error x | ( S ) | i y"),
		parseG("not-lalr", "S : a A d | b B d | a B e | b A e\nA : c\nB : c"),
		parseG("not-lalr-deep", "S : a A d | b B d | a B e | b A e\nA : c X\nB : c Y\nX : f Z\nY : f W\nZ : g\nW : g"),
		parseG("not-lalr-rec", "S : a A d | b B d | a B e | b A e\nA : c A | x\nB : c B | x"),
		parseG("not-lalr-left", "S : a A d | b B d | a B e | b A e\nA : A c | x\nB : B c | x"),
		parseG("not-lalr-mutual", "S : a A d | b B d | a B e | b A e | p A q | r B q\nA : c C\nC : A | x\nB : c D\nD : B | x"),
		parseG("pager", "G : a X d | a Y e | b X e | b Y d | c X d | c Y e\nX : u W\nY : u V\nW : u X | t\nV : u Y | t"),
		parseG("pager2", "X : a Y d | a Z c | a T | b Y e | b Z d | b T\nY : t W | u X\nZ : t u\nT : u X a\nW : u V\nV : ε"),
		parseG("late-context", "S : a A x | b A y | c A z | d S w\nA : p B\nB : q C\nC : r D\nD : s | s D"),
		parseG("late-context2", "S : a A x | b a A y | b b A z\nA : p A | q B\nB : r A | t C\nC : u B | v"),
		parseG("expr", "E : E + T | E - T | T\nT : T * F | F\nF : ( E ) | i | - F"),
		parseG("assign", "S : L = R | R\nL : * R | i\nR : L"),
		parseG("lists", "S : L ; S | ε\nL : L , i | i | ε"),
		parseG("empties", "S : A B C d\nA : a | ε\nB : b | ε\nC : c | ε"),
		parseG("empty-only", "S : A B\nA : ε\nB : ε"),
		parseG("empty-mid", "S : a M b N c | M x\nM : ε\nN : M n | ε"),
		parseG("nullable-left", "S : A S x | y\nA : ε"),
		parseG("nullable-first", "S : B A\nA : a | A a\nB : ε | B b"),
		parseG("paren", "S : ( S ) S | ε"),
		parseG("palin-marked", "S : a S a | b S b | c"),
		parseG("palin", "S : a S a | b S b | ε"),
		parseG("dangling", "S : if S else S | if S | x"),
		parseG("ambiguous-expr", "E : E + E | E * E | i"),
		parseG("cyclic", "S : S | a"),
		parseG("cyclic2", "S : A | a\nA : S"),
		parseG("cyclic-reduce", "S : A x\nA : B | y\nB : A"),
		parseG("rr", "S : A | B\nA : x\nB : x"),
		parseG("rr-la", "S : A a | B a\nA : x\nB : x"),
		parseG("lr2", "S : A b c | B b d\nA : a\nB : a"),
		parseG("long", "S : a b c d e f g h i | a b c d e f g h j | a b c X\nX : d e f g h k | ε"),
		parseG("stmts", "P : D S\nD : D d ; | ε\nS : S s ; | s ;"),
		parseG("json", "V : { } | { M } | [ ] | [ E ] | s | n\nM : P | M , P\nP : s : V\nE : V | E , V"),
		parseG("lambda", "E : λ x . E | A\nA : A T | T\nT : x | ( E )"),
		parseG("alts12", "S : A0 A12\nA0 : a | b | c | d | e | f | g | h | i | j | k | l\nA12 : a | x"),
		parseG("quotes", "S : \" S \" | ' S ' | \\ S / | %d"),
	}
}

// lrFamily: nonterminals with a common shape whose contexts differ, so that
// states with equal cores must or must not be merged, with contexts that
// propagate along chains and cycles of states.
func lrFamily(r *Rng) *Grammar {
	pre := []string{"a", "b", "c", "d"}[:r.Range(2, 4)]
	suf := []string{"x", "y", "z", "w"}[:r.Range(2, 4)]
	n := r.Range(1, 3)
	depth := r.Range(0, 3)
	name := func(k, d int) string { return string(rune('A'+k)) + fmt.Sprint("n", d) }
	g := &Grammar{Name: "lr family"}
	st := Rule{Head: "S"}
	for _, p := range pre {
		for k := 0; k < n; k++ {
			for _, s := range suf {
				if r.Chance(55) {
					a := []Sym{Lit(p), NT(name(k, 0)), Lit(s)}
					if r.Chance(15) {
						a = append([]Sym{Lit(pick(r, pre))}, a...)
					}
					if r.Chance(10) {
						a = append(a, NT("S"))
					}
					st.Alts = append(st.Alts, a)
				}
			}
		}
	}
	if len(st.Alts) == 0 {
		st.Alts = append(st.Alts, []Sym{Lit("a"), NT(name(0, 0)), Lit("x")})
	}
	g.Rules = append(g.Rules, st)
	mids := []string{"m", "k", "l"}
	// one shape for all families, with small deviations
	type shape struct {
		lits []string
		tgt  int
		sub  int
	}
	var shapes [][]shape
	for d := 0; d <= depth; d++ {
		var ss []shape
		for i := r.Range(1, 3); i > 0; i-- {
			var ls []string
			for j := r.Range(0, 2); j > 0; j-- {
				ls = append(ls, pick(r, mids))
			}
			ss = append(ss, shape{ls, r.Range(-1, depth), r.Intn(2)})
		}
		shapes = append(shapes, ss)
	}
	for k := 0; k < n; k++ {
		for d := 0; d <= depth; d++ {
			ru := Rule{Head: name(k, d)}
			ss := shapes[d]
			for i, s := range ss {
				var a []Sym
				for _, l := range s.lits {
					a = append(a, Lit(l))
				}
				if s.tgt >= 0 {
					t := NT(name((k+s.sub*r.Intn(2))%n, s.tgt))
					if r.Chance(20) {
						a = append([]Sym{t}, a...)
					} else {
						a = append(a, t)
					}
				}
				if r.Chance(8) {
					a = append(a, Lit(pick(r, mids)))
				}
				if i == len(ss)-1 && d == depth {
					a = []Sym{Lit("t")}
				}
				ru.Alts = append(ru.Alts, a)
			}
			seen := map[string]bool{}
			var as [][]Sym
			for _, a := range ru.Alts {
				if !seen[altString(a)] {
					seen[altString(a)] = true
					as = append(as, a)
				}
			}
			ru.Alts = as
			g.Rules = append(g.Rules, ru)
		}
	}
	return g
}

func lrRandom(r *Rng) *Grammar {
	if r.Chance(14) {
		return wideGrammar(r)
	}
	if r.Chance(60) {
		for {
			if g := reduce(lrFamily(r)); g != nil {
				return g
			}
		}
	}
	switch r.Intn(3) {
	case 0:
		return randGrammar(r, GenOpts{MaxNT: 3, MaxAlts: 3, MaxLen: 3, MaxTerms: 4, NTPct: 40, EmptyPct: 15})
	case 1:
		return randGrammar(r, GenOpts{MaxNT: 6, MaxAlts: 3, MaxLen: 4, MaxTerms: 6, NTPct: 40, EmptyPct: 10})
	}
	return randGrammar(r, GenOpts{MaxNT: 5, MaxAlts: 2, MaxLen: 4, MaxTerms: 6, NTPct: 50, EmptyPct: 10})
}

// lrGrammars returns grammars with their automata; keep filters.
func lrGrammars(r *Rng, n int, keep func(*LR) bool) (gs []*Grammar, ls []*LR) {
	add := func(g *Grammar) {
		l := NewLR(NewCFG(g), 700)
		if !l.TooBig && keep(l) {
			gs = append(gs, g)
			ls = append(ls, l)
		}
	}
	for _, g := range curatedLR() {
		add(g)
	}
	for _, g := range curatedGrammars() {
		add(g)
	}
	for tries := 0; len(gs) < n && tries < 200*n; tries++ {
		add(lrRandom(r))
	}
	return
}

// hugeLR returns a huge grammar, and one with a conflict.
func hugeLR(r *Rng) (gs []*Grammar, ls []*LR) {
	for i := 0; i < 2; i++ {
		g := hugeGrammar(r.Fork(fmt.Sprint("huge", i)), true)
		if i == 1 {
			for k := range g.Rules {
				if ru := &g.Rules[k]; ru.Head == "Item" {
					ru.Alts = append(ru.Alts, []Sym{NT("E1")}, []Sym{NT("E2")})
				}
			}
			g.Rules = append(g.Rules, Rule{"E1", [][]Sym{{Lit("dup")}}}, Rule{"E2", [][]Sym{{Lit("dup")}}})
		}
		if l := NewLR(NewCFG(g), 4000); !l.TooBig {
			gs, ls = append(gs, g), append(ls, l)
		}
	}
	return
}

func lrCases(r *Rng, n int, res bool, keep func(*LR) bool) []*lrCase {
	gs, ls := lrGrammars(r, n, keep)
	hs, hl := hugeLR(r)
	for i, l := range hl {
		if keep(l) {
			gs, ls = append(gs, hs[i]), append(ls, l)
		}
	}
	var cs []*lrCase
	for i, g := range gs {
		for _, mode := range []string{"knuth", "pager"} {
			id := fmt.Sprintf("%c%03d", mode[0], i)
			cs = append(cs, &lrCase{g, NewCFG(g), ls[i], lrUnit(id, g, mode, res), mode, res})
		}
	}
	return cs
}

type lrRunSet struct {
	cases []*lrCase
	jobs  []*ev.Job
	meta  []*lrCase
	res   []*ev.Res
}

func runLR(c *Check, r *Rng, cases []*lrCase, nIn int, ops func(i int, rr *Rng) (string, int)) *lrRunSet {
	e := NewEnv()
	us := []*Unit{}
	for _, cs := range cases {
		us = append(us, cs.U)
	}
	m := e.Build(us)
	reportBuild(c, us)
	run := &lrRunSet{cases: cases}
	for k := 0; k < len(cases); k += 2 {
		rr := r.Fork(cases[k].U.ID)
		ins := genInputs(rr, cases[k].C, nIn, nIn/2, nIn/2, nIn/8, 18)
		shuffle(rr, ins)
		if len(ins) > nIn*2 {
			ins = ins[:nIn*2]
		}
		if cases[k].L.Conflicts == 0 {
			sizes := append(longSizes(c)[:2], longSizes(c)[k/2%5])
			if k/2%25 == 3 { // beyond 2^15 tokens
				sizes = append(sizes, 33500)
			}
			lw := cases[k].C.LongWords(rr, sizes...)
			c.Count("long inputs", 2*len(lw))
			ins = append(ins, lw...)
		}
		cov := cases[k].C.CoverSentences()
		shuffle(rr, cov)
		for i, w := range cov {
			if i < nIn && len(w) <= 60 {
				ins = append(ins, w)
			}
		}
		if cases[k].G.Name == "huge" {
			c.Count("inputs of a grammar of more than 256 productions", len(ins))
		}
		for i, w := range ins {
			in := renderTokens(rr, cases[k].C, w, hasComment(cases[k].G))
			if rr.Chance(4) {
				in += pick(rr, []string{" §", "§ ", "\n§x"})
			}
			op, arg := ops(i, rr)
			if arg > 0 && len(w) > 150 {
				arg = rr.Range(1, len(w))
			}
			for _, cs := range cases[k : k+2] {
				if cs.U.OK {
					run.jobs = append(run.jobs, &ev.Job{G: cs.U.ID, Op: op, In: in, Arg: arg})
					run.meta = append(run.meta, cs)
				}
			}
		}
	}
	run.res = m.RunJobs(run.jobs, 20)
	c.Count("grammars", len(cases)/2)
	c.Count("parses", len(run.jobs))
	return run
}

func lrWitness(cs *lrCase, j *ev.Job, r *ev.Res) map[string]interface{} {
	m := map[string]interface{}{"grammar": cs.U.Text, "mode": cs.Mode, "resolve": cs.Res, "input": j.In, "op": j.Op, "arg": j.Arg}
	if r != nil {
		m["error"] = trunc(r.ErrStr, 300)
		m["calls"] = trunc(fmt.Sprint(r.Calls), 600)
		m["value"] = r.Val
	}
	return m
}

func lrCrashed(c *Check, cs *lrCase, j *ev.Job, r *ev.Res) bool {
	if r == nil {
		return true
	}
	if r.Hang != "" {
		c.Violate("hang", "unbounded work: "+r.Hang, lrWitness(cs, j, r))
		return true
	}
	if r.Panic != "" {
		c.Violate("panic", "panic: "+trunc(r.Panic, 300), lrWitness(cs, j, r))
		return true
	}
	return false
}

func (cs *lrCase) encode(r *ev.Res) []int { return cs.C.Encode(tokIDs(r)) }

func isLR1(l *LR) bool { return l.Conflicts == 0 }

func checkC11(c *Check) {
	c.rule = "a case is a (grammar, token string) pair for a grammar whose canonical LR(1) automaton has no conflict; non-trivial if the string is non-empty"
	c.assume = []string{"membership is decided by a span-fixpoint recogniser over the recorded tokens, not by an LR automaton"}
	r := NewRng(c.Seed, c.Prop)
	cases := lrCases(r, c.N(220, 800), false, isLR1)
	run := runLR(c, r, cases, c.N(60, 200), func(i int, rr *Rng) (string, int) { return "", 0 })
	parallel(len(run.jobs), func(i int) {
		cs, j, r := run.meta[i], run.jobs[i], run.res[i]
		if lrCrashed(c, cs, j, r) {
			return
		}
		w := cs.encode(r)
		want, _ := cs.C.Verdict(cs.L, w)
		if want {
			c.Count("sentences", 1)
		} else {
			c.Count("non-sentences", 1)
		}
		key := ""
		if len(w) > 0 {
			key = cs.U.ID + "|" + strings.Join(tokIDs(r), " ")
		}
		c.Eval(key)
		if r.OK != want {
			c.Violate("recognition", fmt.Sprintf("accepted=%t but the input is a sentence=%t", r.OK, want), lrWitness(cs, j, r))
		}
		if i%997 == 0 {
			c.Sample(lrWitness(cs, j, nil))
		}
	})
	c.Need("sentences", 500)
	c.Need("non-sentences", 500)
}

var reConf = regexp.MustCompile(`(\d+) LR\(1\) conflicts`)

func checkC12(c *Check) {
	c.rule = "a case is a (grammar, LR mode, conflict resolution on or off) triple; every one is distinct"
	c.assume = []string{"a grammar is LR(1) iff the canonical LR(1) automaton built by the oracle has no conflict"}
	r := NewRng(c.Seed, c.Prop)
	n := c.N(800, 5000)
	gs, ls := lrGrammars(r, n, func(*LR) bool { return true })
	hs, hl := hugeLR(r)
	gs, ls = append(gs, hs...), append(ls, hl...)
	// the three outcomes must all be seen
	e := NewEnv()
	type job struct {
		g    *Grammar
		l    *LR
		mode string
		res  bool
	}
	var jobs []job
	for i := range gs {
		for _, m := range []string{"knuth", "pager"} {
			jobs = append(jobs, job{gs[i], ls[i], m, false})
			if ls[i].Conflicts > 0 || i%5 == 0 {
				jobs = append(jobs, job{gs[i], ls[i], m, true})
			}
		}
	}
	parallel(len(jobs), func(i int) {
		j := jobs[i]
		d := fmt.Sprintf("%s/c%d", e.Dir, i)
		writeFile(d+"/g.txt", j.g.Text("m/x"))
		args := []string{"-" + j.mode}
		if j.res {
			args = append(args, "-resolve_conflicts")
		}
		rr := e.RunGogll(d, append(args, "-o", d+"/out", d+"/g.txt")...)
		rep, repErr := os.ReadFile(d + "/out/LR1_conflicts.txt")
		_, genErr := os.Stat(d + "/out/parser/actiontable.go")
		w := map[string]interface{}{"grammar": j.g.Text("m/x"), "mode": j.mode, "resolve": j.res, "output": trunc(rr.Out, 600), "exit": rr.Code, "canonical conflicts": j.l.Conflicts}
		os.RemoveAll(d)
		c.Eval(fmt.Sprint(i))
		if i%101 == 0 {
			c.Sample(w)
		}
		if rr.Crash || rr.Code != 0 && rr.Code != 1 {
			c.Violate("crash", fmt.Sprintf("gogll failed with exit code %d", rr.Code), w)
			return
		}
		if j.l.Conflicts == 0 {
			c.Count("LR(1) grammars", 1)
			if rr.Code != 0 || repErr == nil || reConf.MatchString(rr.Out) {
				c.Violate("false-conflict", "conflicts are reported for an LR(1) grammar", w)
			}
			return
		}
		c.Count("grammars with conflicts", 1)
		m := reConf.FindStringSubmatch(rr.Out)
		if m == nil || repErr != nil || m[1] == "0" {
			c.Violate("missed-conflict", "no conflict is reported but the grammar is not LR(1)", w)
			return
		}
		if !strings.HasPrefix(string(rep), m[1]+" ") || strings.Count(string(rep), "{") < 1 {
			c.Violate("report", "LR1_conflicts.txt does not list the conflicts: "+trunc(string(rep), 300), w)
		}
		if j.mode == "knuth" && m[1] != fmt.Sprint(j.l.Conflicts) {
			c.Violate("count", fmt.Sprintf("%s conflicts are reported but the canonical automaton has %d", m[1], j.l.Conflicts), w)
		}
		if j.res {
			c.Count("resolved", 1)
			if rr.Code != 0 || genErr != nil {
				c.Violate("resolve", fmt.Sprintf("exit code %d and parser generated=%t with -resolve_conflicts", rr.Code, genErr == nil), w)
			}
			if !strings.Contains(rr.Out, "resolved") {
				c.Violate("message", "the resolution of the conflicts is not announced", w)
			}
		} else {
			if rr.Code != 1 || genErr == nil {
				c.Violate("resolve", fmt.Sprintf("exit code %d and parser generated=%t with conflicts", rr.Code, genErr == nil), w)
			}
			if strings.Contains(rr.Out, "resolved") {
				c.Violate("message", "the conflicts are announced as resolved but no parser is generated", w)
			}
		}
	})
	c.Need("LR(1) grammars", 150)
	c.Need("grammars with conflicts", 150)
}

func (cs *lrCase) wantCalls(run *lrRun, op string) (out []string) {
	for _, k := range run.Calls {
		name := startHead(cs.G) + "0"
		if k.nt >= 0 {
			name = altFunc(cs.G, cs.G.Rules[k.nt].Head, k.alt)
		}
		var args []string
		for _, a := range k.args {
			if a[0] == 'n' && strings.Contains(op, "z") {
				var n int
				fmt.Sscanf(a[1:], "%d", &n)
				if n%3 == 1 {
					a = "nil"
				}
			}
			args = append(args, a)
		}
		out = append(out, fmt.Sprintf("%s(%s)", name, strings.Join(args, ",")))
	}
	return
}

func gotCalls(r *ev.Res) (out []string) {
	for _, k := range r.Calls {
		out = append(out, k.F+"("+strings.Join(k.Args, ",")+")")
	}
	return
}

func checkC13(c *Check) {
	c.rule = "a case is a (grammar, input, failing call) triple; non-trivial if at least three action functions are called"
	c.assume = []string{"the expected calls are the reductions of the oracle's canonical LR(1) automaton, conflicts resolved in favour of shift and of the earlier production"}
	r := NewRng(c.Seed, c.Prop)
	ops := func(i int, rr *Rng) (string, int) {
		op, arg := "", 0
		switch i % 5 {
		case 1:
			op = "z"
		case 2, 3:
			arg = rr.Range(1, 9)
		case 4:
			op = "2"
		}
		return op, arg
	}
	n := c.N(150, 500)
	run := runLR(c, r, lrCases(r, n, false, isLR1), c.N(45, 150), ops)
	judgeC13(c, run)
	r2 := NewRng(c.Seed, c.Prop+"resolve")
	run2 := runLR(c, r2, lrCases(r2, n, true, func(l *LR) bool { return l.Conflicts > 0 }), c.N(35, 120), ops)
	judgeC13(c, run2)
	c.Need("accepted", 500)
	c.Need("action errors", 300)
	c.Need("resolved parses", 300)
}

func judgeC13(c *Check, run *lrRunSet) {
	parallel(len(run.jobs), func(i int) {
		cs, j, r := run.meta[i], run.jobs[i], run.res[i]
		w := cs.encode(r)
		if cs.Res && r != nil {
			if cs.Mode == "pager" || cs.L.Run(w).Endless {
				// merged states may resolve differently: judge the derivation only
				if r.Hang != "" || strings.Contains(r.Panic, "endless") {
					c.Count("skipped, resolution without end", 1)
					return
				}
				if lrCrashed(c, cs, j, r) {
					return
				}
				c.Count("resolved parses", 1)
				if r.OK {
					c.Eval(cs.U.ID + "|" + j.In)
					if msg := cs.isDerivation(r, w, j.Op); msg != "" {
						c.Violate("derivation", msg, lrWitness(cs, j, r))
					}
				}
				return
			}
			c.Count("resolved parses", 1)
		}
		if lrCrashed(c, cs, j, r) {
			return
		}
		o := cs.L.Run(w)
		want, got := cs.wantCalls(o, j.Op), gotCalls(r)
		key := ""
		if len(want) >= 3 {
			key = fmt.Sprint(cs.U.ID, "|", j.In, "|", j.Arg)
		}
		c.Eval(key)
		c.Count("calls", len(got))
		if i%997 == 0 {
			c.Sample(lrWitness(cs, j, r))
		}
		if r.Before != r.After {
			c.Violate("repeat", "a second parse of the same tokens differs: "+trunc(r.Before, 200)+" and "+trunc(r.After, 200), lrWitness(cs, j, r))
		}
		if j.Arg > 0 && j.Arg <= len(want) {
			c.Count("action errors", 1)
			if d := firstDiff(got, want[:j.Arg]); d != "" {
				c.Violate("calls", "call "+d, lrWitness(cs, j, r))
				return
			}
			if r.OK || r.Val != "nil" {
				c.Violate("action-error", "the parse returned a value after an action function failed", lrWitness(cs, j, r))
				return
			}
			if !strings.Contains(r.ErrStr, fmt.Sprintf("boom%d", j.Arg-1)) {
				c.Violate("action-error", "the error of the action function is not reported", lrWitness(cs, j, r))
			}
			return
		}
		if !o.OK {
			// the calls before the error are reductions of a prefix
			if cs.Mode == "knuth" {
				if d := firstDiff(got, want); d != "" {
					c.Violate("calls", "call "+d, lrWitness(cs, j, r))
				}
			} else if len(got) < len(want) || firstDiff(got[:len(want)], want) != "" {
				c.Violate("calls", "the calls before the error are not those of the prefix", lrWitness(cs, j, r))
			}
			if r.OK || r.Val != "nil" {
				c.Violate("action-error", "a value is returned for an input with an error", lrWitness(cs, j, r))
			}
			c.Count("rejected", 1)
			return
		}
		c.Count("accepted", 1)
		if d := firstDiff(got, want); d != "" {
			c.Violate("calls", "call "+d, lrWitness(cs, j, r))
			return
		}
		if n := len(r.Calls); n > 0 && r.Val != r.Calls[n-1].Ret {
			c.Violate("value", fmt.Sprintf("the parse returned %s but the last action function returned %s", r.Val, r.Calls[n-1].Ret), lrWitness(cs, j, r))
		}
	})
}

func firstDiff(got, want []string) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "(none)", "(none)"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g != w {
			return fmt.Sprintf("%d is %s but should be %s", i, g, w)
		}
	}
	return ""
}

// isDerivation checks that the calls are a bottom-up derivation of w.
func (cs *lrCase) isDerivation(r *ev.Res, w []int, op string) string {
	if strings.Contains(op, "z") {
		return ""
	}
	type node struct {
		nt   string
		toks []int
	}
	funcs := map[string][2]int{}
	for i, ru := range cs.G.Rules {
		for a := range ru.Alts {
			funcs[altFunc(cs.G, ru.Head, a)] = [2]int{i, a}
		}
	}
	var nodes []node
	for n, k := range r.Calls {
		if k.F == startHead(cs.G)+"0" {
			if n != len(r.Calls)-1 || len(k.Args) != 1 {
				return "G00 is not the last call"
			}
			var x int
			if _, err := fmt.Sscanf(k.Args[0], "n%d", &x); err != nil || x >= n {
				return "argument of G00"
			}
			if nodes[x].nt != cs.G.Start() || len(nodes[x].toks) != len(w) {
				return "the start symbol does not cover the input"
			}
			for i, t := range nodes[x].toks {
				if t != i {
					return "the derivation does not yield the input"
				}
			}
			return ""
		}
		f, ok := funcs[k.F]
		if !ok {
			return "call of " + k.F
		}
		body := cs.G.Rules[f[0]].Alts[f[1]]
		if len(body) != len(k.Args) {
			return "arguments of " + k.F
		}
		nd := node{nt: cs.G.Rules[f[0]].Head}
		for i, s := range body {
			var x int
			fmt.Sscanf(k.Args[i][1:], "%d", &x)
			if s.Kind == KNT {
				if k.Args[i][0] != 'n' || x >= n || nodes[x].nt != s.Name {
					return fmt.Sprintf("call %d: argument %d of %s", n, i, k.F)
				}
				nd.toks = append(nd.toks, nodes[x].toks...)
			} else {
				if k.Args[i][0] != 't' || x >= len(w) || cs.C.Terms[w[x]] != s.TermID() {
					return fmt.Sprintf("call %d: argument %d of %s", n, i, k.F)
				}
				nd.toks = append(nd.toks, x)
			}
		}
		nodes = append(nodes, nd)
	}
	return "G00 is not called"
}

/*** C20 error reports ***/

var reErr = regexp.MustCompile(`(?s)^Error @ line (\d+) col (\d+) tok (.*), expected one of: (.*)$`)

func checkC20(c *Check) {
	c.rule = "a case is a (grammar, input with a syntax error or a failing action) pair; every one is non-trivial"
	c.assume = []string{"the first error is the first token that no sentence continues; expected tokens are those of the canonical LR(1) automaton"}
	r := NewRng(c.Seed, c.Prop)
	run := runLR(c, r, lrCases(r, c.N(180, 600), false, isLR1), c.N(60, 200), func(i int, rr *Rng) (string, int) {
		if i%4 == 3 {
			return "", rr.Range(1, 6)
		}
		return "x", 0
	})
	parallel(len(run.jobs), func(i int) {
		cs, j, r := run.meta[i], run.jobs[i], run.res[i]
		if lrCrashed(c, cs, j, r) {
			return
		}
		w := cs.encode(r)
		o := cs.L.Run(w)
		if j.Arg > 0 {
			if j.Arg > len(o.Calls) {
				return
			}
			c.Eval(fmt.Sprint(cs.U.ID, "|", j.In, j.Arg))
			c.Count("action errors", 1)
			// the token the parser looks at when the action function is called
			at := cs.L.lookaheadOf(w, j.Arg-1)
			t := r.Toks[at]
			if !strings.HasPrefix(r.ErrStr, fmt.Sprintf("Error @ line %d col %d tok ", t.Ln, t.Col)) {
				c.Violate("action-position", fmt.Sprintf("the error of an action function is not at the next token, %d:%d", t.Ln, t.Col), lrWitness(cs, j, r))
			}
			return
		}
		if o.OK {
			return
		}
		c.Eval(fmt.Sprint(cs.U.ID, "|", j.In))
		c.Count("syntax errors", 1)
		m := reErr.FindStringSubmatch(r.ErrStr)
		if m == nil {
			c.Violate("message", "the error message is not of the documented form", lrWitness(cs, j, r))
			return
		}
		t := r.Toks[o.ErrAt]
		if m[1] != fmt.Sprint(t.Ln) || m[2] != fmt.Sprint(t.Col) {
			c.Violate("position", fmt.Sprintf("the error is reported at %s:%s but the first token that cannot continue is at %d:%d", m[1], m[2], t.Ln, t.Col), lrWitness(cs, j, r))
			return
		}
		lit := string([]rune(j.In)[t.L:t.R])
		if lit != "" && !strings.Contains(m[3], lit) {
			c.Violate("token", fmt.Sprintf("the error does not mention the token %q", lit), lrWitness(cs, j, r))
		}
		got := map[string]bool{}
		for _, s := range strings.Fields(m[4]) {
			got[s] = true
		}
		exp := o.Expected
		if cs.Mode == "pager" {
			// a merged state may reduce before it detects the error
			exp = cs.L.Viable(o.Stack, cs.extraCalls(r, len(o.Calls)))
			if exp == nil {
				c.Violate("expected", "the reductions before the error are not those of a viable prefix", lrWitness(cs, j, r))
				return
			}
		}
		for s := range got {
			if cs.C.Encode([]string{s})[0] >= len(cs.C.Terms) && s != EOFTerm {
				c.Violate("expected", fmt.Sprintf("%q is among the expected tokens but not a terminal", s), lrWitness(cs, j, r))
				return
			}
		}
		if got[r.Toks[o.ErrAt].ID] {
			c.Violate("expected", "the offending token is among the expected tokens", lrWitness(cs, j, r))
			return
		}
		for _, s := range sortedStrs(exp) {
			if !got[s] {
				c.Violate("expected", fmt.Sprintf("%q can continue but is not among the expected tokens", s), lrWitness(cs, j, r))
				return
			}
		}
		if cs.Mode == "knuth" {
			for s := range got {
				if !o.Expected[s] {
					c.Violate("expected", fmt.Sprintf("%q is among the expected tokens but cannot continue", s), lrWitness(cs, j, r))
					return
				}
			}
		}
		// the error value
		p := strings.SplitN(r.Text, "\x00", 2)
		if len(p) != 2 || p[0] != fmt.Sprintf("t%d", o.ErrAt) {
			c.Violate("error-value", "the error value has another token: "+p[0], lrWitness(cs, j, r))
			return
		}
		want := fmt.Sprintf("Token: type=%d, lit=%s\nPos: offset=%d, line=%d, column=%d\n", t.T, lit, t.L, t.Ln, t.Col)
		if !strings.Contains(p[1], want) || !strings.Contains(p[1], "cause") {
			c.Violate("error-value", fmt.Sprintf("the error value prints %q but should print %q", trunc(p[1], 300), want), lrWitness(cs, j, r))
		}
	})
	c.Need("syntax errors", 1000)
	c.Need("action errors", 200)
}

// extraCalls returns the productions of the recorded calls after the first n.
func (cs *lrCase) extraCalls(r *ev.Res, n int) (out []lrCall) {
	funcs := map[string]lrCall{}
	for i, ru := range cs.G.Rules {
		for a := range ru.Alts {
			funcs[altFunc(cs.G, ru.Head, a)] = lrCall{nt: i, alt: a}
		}
	}
	for i := n; i < len(r.Calls); i++ {
		out = append(out, funcs[r.Calls[i].F])
	}
	return
}

// lookaheadOf returns the index of the token the parser looks at when it makes
// call n.
func (l *LR) lookaheadOf(w []int, n int) int {
	// replay with the input cut after each token
	stack := []int{0}
	in := append(append([]int(nil), w...), l.eof)
	k := 0
	for i := 0; ; {
		a := l.Act[stack[len(stack)-1]][in[i]][0]
		if a.kind == 1 {
			stack = append(stack, a.arg)
			i++
			continue
		}
		if k == n {
			return i
		}
		k++
		p := l.prods[a.arg]
		stack = stack[:len(stack)-len(p.body)]
		stack = append(stack, l.Goto[stack[len(stack)-1]][^p.nt])
	}
}

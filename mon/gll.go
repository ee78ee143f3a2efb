package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"

	"mon/ev"
)

/*** GLL workload shared by C01-C05 ***/

type gcase struct {
	G    *Grammar
	C    *CFG
	V    func(r *Rng, id string) string
	U    *Unit
	Text string
	LR   *LR // if the grammar is LR(1)
}

func lexemeOf(r *Rng, c *CFG, id string) string {
	if v, ok := c.Val[id]; ok {
		return v
	}
	switch id {
	case "num":
		return pick(r, []string{"0", "7", "42", "1234567", "٣"})
	case "name":
		return pick(r, []string{"$", "$x", "$abc1", "$é9"})
	}
	return id
}

func hasComment(g *Grammar) bool {
	for _, l := range g.Lex {
		if l.ID == "comment" {
			return true
		}
	}
	return false
}

var seps = []string{" ", " ", " ", "\n", "\t", "  ", "\r\n", " \n\t ", "\u00a0", "\r", "\v", "\f", "\u0085", "\u2028", "\u2029", "\u3000"}

// renderTokens writes lexemes for a token string with random white space.
func renderTokens(r *Rng, c *CFG, w []int, comments bool) string {
	var b strings.Builder
	sep := func() {
		b.WriteString(pick(r, seps))
		if comments && r.Chance(15) {
			b.WriteString("~ c" + pick(r, []string{"", "omment", " a b "}) + "~")
			b.WriteString(pick(r, seps))
		}
	}
	if r.Chance(25) {
		sep()
	}
	for i, t := range w {
		if i > 0 {
			sep()
		}
		b.WriteString(lexemeOf(r, c, c.Terms[t]))
	}
	if r.Chance(25) {
		sep()
	}
	return b.String()
}

// gllGrammars returns the curated families followed by n random grammars.
func gllGrammars(r *Rng, n int) []*Grammar {
	gs := curatedGrammars()
	for i := 0; i < n; i++ {
		var o GenOpts
		switch r.Intn(9) {
		case 8:
			gs = append(gs, wideGrammar(r))
			continue
		case 5, 6:
			gs = append(gs, pathGrammar(r))
			continue
		case 7:
			gs = append(gs, plantAmbiguity(r))
			continue
		case 0:
			o = GenOpts{MaxNT: 3, MaxAlts: 3, MaxLen: 3, MaxTerms: 2, NTPct: 50, EmptyPct: 20}
		case 1:
			o = GenOpts{MaxNT: 5, MaxAlts: 4, MaxLen: 4, MaxTerms: 4, NTPct: 50, EmptyPct: 10}
		case 2:
			o = GenOpts{MaxNT: 4, MaxAlts: 3, MaxLen: 5, MaxTerms: 3, NTPct: 60, EmptyPct: 25}
		case 3:
			o = GenOpts{MaxNT: 7, MaxAlts: 4, MaxLen: 3, MaxTerms: 5, NTPct: 45, EmptyPct: 10}
		case 4:
			o = GenOpts{MaxNT: 2, MaxAlts: 5, MaxLen: 4, MaxTerms: 3, NTPct: 55, EmptyPct: 15}
		}
		gs = append(gs, randGrammar(r, o))
	}
	return gs
}

var ambiguityGadgets = []string{
	"Zq : Zr Zs\nZr : Zs | ε\nZs : ε",
	"Zq : Zr | ε\nZr : ε",
	"Zq : Zr | Zs\nZr : t\nZs : t",
	"Zq : Zr Zr\nZr : t | t t | ε",
	"Zq : Zr Zs\nZr : t | ε\nZs : Zr",
	"Zq : Zq | t",
	"Zq : Zq Zq | ε",
	"Zq : Zr Zs Zr\nZr : ε\nZs : Zr | Zr Zr",
	"Zq : t Zr\nZr : Zs | Zs Zs\nZs : ε | t",
	"Zq : Zr\nZr : Zs\nZs : Zq | t",
	"Zq : t | t Zr\nZr : ε",
}

var gadgetHosts = []string{
	"S : a S | b", "S : a A c | b A d\nA : x", "E : E + T | T\nT : ( E ) | a", "S : A B\nA : a\nB : b | ε", "S : a B\nB : c C\nC : d D\nD : e | ε",
	"S : S a | b", "S : a S b | ε", "S : A A\nA : a | b", "L : L ; I | I\nI : a | { L }", "S : A\nA : B\nB : C\nC : a",
}

// plantAmbiguity puts a nonterminal with several derivations of some string,
// often of the empty one, at one place of a grammar.
func plantAmbiguity(r *Rng) *Grammar {
	g := parseG("planted", pick(r, gadgetHosts))
	t := "t"
	if r.Chance(50) {
		t = pick(r, g.Terminals()).Name
		t = strings.Trim(t, "\"")
	}
	gad := parseG("gadget", strings.Replace(pick(r, ambiguityGadgets), " t", " "+t, -1))
	for k := r.Range(1, 2); k > 0; k-- {
		ru := &g.Rules[r.Intn(len(g.Rules))]
		i := r.Intn(len(ru.Alts))
		a := ru.Alts[i]
		p := r.Intn(len(a) + 1)
		ru.Alts[i] = append(append(append([]Sym(nil), a[:p]...), NT("Zq")), a[p:]...)
	}
	g.Rules = append(g.Rules, gad.Rules...)
	return g
}

// pathGrammar generates a grammar in which several alternates share
// nonterminals that begin and end at many positions, while the literal at the
// end of an alternate lets only some of the combinations succeed.
func pathGrammar(r *Rng) *Grammar {
	some := func(lo, hi int, from ...string) string {
		shuffle(r, from)
		n := r.Range(lo, hi)
		if n > len(from) {
			n = len(from)
		}
		return strings.Join(from[:n], " | ")
	}
	for {
		var alts []string
		ends := []string{"c", "d", "e", "f", ""}
		shuffle(r, ends)
		for k := r.Range(2, 4); k > 0; k-- {
			alts = append(alts, strings.Join([]string{pick(r, []string{"", "", "a", "a a", "b", "Y", "X"}), "X", pick(r, []string{"", "", "", "X", "B", "Y"}), ends[k]}, " "))
		}
		src := "S : " + strings.Join(alts, " | ")
		src += "\nX : " + some(1, 2, "Y B", "B Y", "Y Y", "Y B Y", "B X", "X Y", "a X", "Y")
		src += "\nY : " + some(2, 3, "ε", "a", "a a", "a a a", "a b", "b", "a Y", "Y a")
		src += "\nB : " + some(1, 2, "b", "ε", "a b", "b b", "Y b")
		g := reduce(parseG("paths", src))
		if g == nil || len(g.Terminals()) == 0 {
			continue
		}
		for i := range g.Rules {
			var as [][]Sym
			seen := map[string]bool{}
			for _, a := range g.Rules[i].Alts {
				if !seen[altString(a)] {
					seen[altString(a)] = true
					as = append(as, a)
				}
			}
			g.Rules[i].Alts = as
		}
		return g
	}
}

func mkGLLCases(gs []*Grammar) []*gcase {
	var cs []*gcase
	for i, g := range gs {
		id := fmt.Sprintf("g%03d", i)
		u := &Unit{ID: id, Text: g.Text("m/" + id), Glue: "gll.go.txt"}
		cs = append(cs, &gcase{G: g, C: NewCFG(g), U: u})
	}
	return cs
}

// buildCases generates and compiles; failures are violations.
func buildCases(c *Check, e *Env, cs []*gcase) *Module {
	us := make([]*Unit, len(cs))
	for i := range cs {
		us[i] = cs[i].U
	}
	m := e.Build(us)
	reportBuild(c, us)
	return m
}

func reportBuild(c *Check, us []*Unit) {
	for _, u := range us {
		if u.Gen.Code != 0 {
			c.Violate("generate", fmt.Sprintf("gogll failed (exit %d) on a valid grammar", u.Gen.Code),
				map[string]string{"grammar": u.Text, "output": trunc(u.Gen.Out, 800)})
		} else if !u.OK {
			c.Violate("compile", "the generated code does not compile",
				map[string]string{"grammar": u.Text, "output": trunc(u.BuildErr, 800)})
		} else {
			c.Count("generated parsers", 1)
		}
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		for n > 0 && !utf8.RuneStart(s[n]) {
			n--
		}
		return s[:n] + "..."
	}
	return s
}

type pjob struct {
	cs *gcase
	w  []int // intended tokens
}

// tokIDs returns the ids of the tokens the parser actually consumed, without EOF.
func tokIDs(res *ev.Res) []string {
	var ids []string
	for i, t := range res.Toks {
		if i == len(res.Toks)-1 && t.ID == EOFTerm {
			break
		}
		ids = append(ids, t.ID)
	}
	return ids
}

func sortedStrs(m map[string]bool) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

func witness(cs *gcase, j *ev.Job, extra ...interface{}) map[string]interface{} {
	m := map[string]interface{}{"grammar": cs.U.Text, "input": j.In}
	for i := 0; i+1 < len(extra); i += 2 {
		m[fmt.Sprint(extra[i])] = extra[i+1]
	}
	return m
}

// crashed reports panics, deaths and unbounded work of a job.
func crashed(c *Check, cs *gcase, j *ev.Job, r *ev.Res) bool {
	if r == nil {
		return true
	}
	if r.Hang != "" {
		c.Violate("hang", "unbounded work: "+r.Hang, witness(cs, j))
		return true
	}
	if r.Panic != "" {
		c.Violate("panic", "panic: "+trunc(r.Panic, 300), witness(cs, j))
		return true
	}
	return false
}

type gllRun struct {
	cases []*gcase
	jobs  []*ev.Job
	meta  []pjob
	res   []*ev.Res
}

type gllPlan struct {
	nGram                     int
	exMax, nSent, nMut, nRand int
	maxLen                    int
	ops                       string
	filter                    func(*gcase) bool
	keep                      func(cs *gcase, w []int) bool
	long                      []int // lengths of long inputs
}

// runGLL builds the parsers and executes the workload, recording one event per
// parse.
func runGLL(c *Check, p gllPlan) *gllRun {
	r := NewRng(c.Seed, c.Prop)
	gs := append(gllGrammars(r, p.nGram), hugeGrammar(r.Fork("huge"), false))
	cases := mkGLLCases(gs)
	if p.filter != nil {
		var k []*gcase
		for _, cs := range cases {
			if p.filter(cs) {
				k = append(k, cs)
			}
		}
		cases = k
	}
	e := NewEnv()
	m := buildCases(c, e, cases)
	run := &gllRun{cases: cases}
	huge := 0
	for _, cs := range cases {
		if !cs.U.OK {
			continue
		}
		rr := r.Fork(cs.U.ID)
		ws := genInputs(rr, cs.C, p.exMax, p.nSent, p.nMut, p.nRand, p.maxLen)
		if p.long != nil {
			max := 300
			if cs.G.Name == "huge" {
				max = 3000
			}
			if l := NewLR(cs.C, max); !l.TooBig && l.Conflicts == 0 {
				cs.LR = l
				sizes := p.long
				if !isLL1(cs.C) {
					sizes = p.long[:1]
				} else if len(p.long) > 2 {
					if huge++; huge%4 == 0 { // beyond 2^15 and 2^16 tokens
						sizes = append(sizes[:len(sizes):len(sizes)], 33500, 66500)
					}
				}
				lw := cs.C.LongWords(rr, sizes...)
				c.Count("long inputs", len(lw))
				ws = append(ws, lw...)
			}
		}
		if cs.G.Name == "huge" {
			c.Count("inputs of a grammar of more than 256 symbols", len(ws))
		}
		for _, w := range ws {
			if p.keep != nil && !p.keep(cs, w) {
				continue
			}
			j := &ev.Job{G: cs.U.ID, Op: p.ops, In: renderTokens(rr, cs.C, w, hasComment(cs.G))}
			if strings.Contains(p.ops, "d") {
				j.File = fmt.Sprintf("%s/%s-%d.dot", e.Dir, cs.U.ID, len(run.jobs))
			}
			run.jobs = append(run.jobs, j)
			run.meta = append(run.meta, pjob{cs, w})
		}
	}
	run.res = m.RunJobs(run.jobs, 30)
	c.Count("grammars", len(cases))
	c.Count("parses", len(run.jobs))
	return run
}

// longSizes are lengths around powers of two, the first one short enough for
// grammars parsed in more than linear time.
func longSizes(c *Check) []int {
	ns := []int{270, 700, 1100, 2100, 4200}
	if c.Thorough() {
		ns = append(ns, 300, 270, 9000, 17000, 70000)
	}
	return ns
}

/*** C01 recognition ***/

func init() {
	checks["C01"] = checkC01
}

func checkC01(c *Check) {
	c.rule = "a case is a (grammar, token string) pair; non-trivial if the string is non-empty"
	c.assume = []string{"the oracle is a span-fixpoint recogniser over the token stream recorded from the generated lexer"}
	run := runGLL(c, gllPlan{nGram: c.N(350, 1200), exMax: c.N(130, 400), nSent: c.N(40, 80), nMut: c.N(30, 80), nRand: 10, maxLen: c.N(14, 22), ops: "", long: longSizes(c)})
	parallel(len(run.jobs), func(i int) {
		cs, j, r := run.meta[i].cs, run.jobs[i], run.res[i]
		if crashed(c, cs, j, r) {
			return
		}
		ids := tokIDs(r)
		want, _ := cs.C.Verdict(cs.LR, cs.C.Encode(ids))
		key := ""
		if len(ids) > 0 {
			key = cs.U.ID + "|" + strings.Join(ids, " ")
		}
		c.Eval(key)
		got := r.OK && r.NErr == 0
		if want {
			c.Count("sentences", 1)
		} else {
			c.Count("non-sentences", 1)
		}
		if r.OK && r.NErr != 0 || !r.OK && r.NErr == 0 {
			c.Violate("inconsistent", fmt.Sprintf("parse set non-nil=%t but %d errors (sentence: %t)", r.OK, r.NErr, want), witness(cs, j))
			return
		}
		if got != want {
			c.Violate("recognition", fmt.Sprintf("accepted=%t but the input is a sentence=%t", got, want), witness(cs, j))
		}
		if i%997 == 0 {
			c.Sample(witness(cs, j, "accepted", got))
		}
	})
	c.Need("sentences", 500)
	c.Need("non-sentences", 500)
}

package main

import (
	"fmt"
	"math"
	"math/bits"
	"os"
	"strings"

	"mon/ev"
)

func init() { checks["C23"] = checkC23 }

/*** C23: the work of generated lexers and parsers grows as documented ***/

const workSrc = `// Package work counts executed blocks.
package work

var N uint64

func Y() { N++ }
`

// constAST makes the action functions do nothing.
func constAST(g *Grammar) string {
	var b strings.Builder
	b.WriteString("package ast\n")
	fn := func(name string, n int) {
		var ps []string
		for i := 0; i < n; i++ {
			ps = append(ps, fmt.Sprintf("p%d interface{}", i))
		}
		fmt.Fprintf(&b, "func %s(%s) (interface{}, error) { return nil, nil }\n", name, strings.Join(ps, ", "))
	}
	fn(startHead(g)+"0", 1)
	for _, r := range g.Rules {
		for i, a := range r.Alts {
			fn(altFunc(g, r.Head, i), len(a))
		}
	}
	return b.String()
}

// isLL1 holds if one token always selects the alternate.
func isLL1(c *CFG) bool {
	f := c.FirstFollow()
	for nt, alts := range c.Prods {
		seen := map[int]bool{}
		nullable := false
		for _, a := range alts {
			fs, nl := f.Seq(a)
			if nl {
				if nullable {
					return false
				}
				nullable = true
				for t := range f.Follow[nt] {
					fs[t] = true
				}
			}
			for t := range fs {
				if seen[t] {
					return false
				}
				seen[t] = true
			}
		}
	}
	return true
}

// pump is a family of sentences x u^k y v^k z, where each u, v pair is one of
// the cycles.
type pump struct {
	x, y, z []int
	uv      [][2][]int
}

func (p *pump) word(k int, cut bool) (w []int) {
	w = append(w, p.x...)
	for i := 0; i < k; i++ {
		w = append(w, p.uv[i%len(p.uv)][0]...)
	}
	w = append(w, p.y...)
	for i := k - 1; i >= 0 && !cut; i-- {
		w = append(w, p.uv[i%len(p.uv)][1]...)
	}
	if !cut {
		w = append(w, p.z...)
	}
	return
}

// size is the number of tokens of one round of all cycles.
func (p *pump) size() (n int) {
	for _, c := range p.uv {
		n += len(c[0]) + len(c[1])
	}
	return
}

// pumps returns families of sentences of the grammar.
func (c *CFG) pumps(r *Rng, n, maxUV int) (ps []*pump) {
	h := c.MinHeights()
	yield := func(a []int, steps int) (w []int, ok bool) {
		for _, s := range a {
			if s >= 0 {
				w = append(w, s)
			} else if h[^s] >= 1<<20 {
				return nil, false
			} else {
				w = append(w, c.sentenceOf(r, h, ^s, steps)...)
			}
		}
		return w, true
	}
	// walk returns what stands left and right of a nonterminal to in a random
	// derivation from another, at least one step long.
	walk := func(from, to int) (l, rt []int, ok bool) {
		at := from
		for steps := 0; steps < 8; steps++ {
			type cand struct{ alt, pos int }
			var cs []cand
			for ai, a := range c.Prods[at] {
				for i, s := range a {
					if s < 0 {
						cs = append(cs, cand{ai, i})
					}
				}
			}
			if len(cs) == 0 {
				return nil, nil, false
			}
			k := pick(r, cs)
			a := c.Prods[at][k.alt]
			al, ok1 := yield(a[:k.pos], r.Intn(3))
			ar, ok2 := yield(a[k.pos+1:], r.Intn(3))
			if !ok1 || !ok2 {
				return nil, nil, false
			}
			l = append(l, al...)
			rt = append(append([]int{}, ar...), rt...)
			at = ^a[k.pos]
			if at == to {
				return l, rt, true
			}
		}
		return nil, nil, false
	}
	seen := map[string]bool{}
	for try := 0; try < 60*n && len(ps) < n; try++ {
		nt := r.Intn(len(c.Prods))
		if h[nt] >= 1<<20 {
			continue
		}
		p := &pump{}
		if nt != 0 {
			var ok bool
			if p.x, p.z, ok = walk(0, nt); !ok {
				continue
			}
		}
		for k := r.Range(1, 3); k > 0; k-- {
			u, v, ok := walk(nt, nt)
			if ok && len(u)+len(v) > 0 && len(u)+len(v) <= maxUV {
				p.uv = append(p.uv, [2][]int{u, v})
			}
		}
		if len(p.uv) == 0 {
			continue
		}
		p.y = c.sentenceOf(r, h, nt, r.Intn(4))
		if key := fmt.Sprint(p.word(3, false)); len(p.x)+len(p.y)+len(p.z) < 40 && !seen[key] {
			seen[key] = true
			ps = append(ps, p)
		}
	}
	return
}

// LongWords returns words of about the given lengths: long sentences of the
// grammar, cut short or with a symbol changed, added or removed anywhere.
func (c *CFG) LongWords(r *Rng, sizes ...int) (ws [][]int) {
	ps := c.pumps(r, 6, 12)
	if len(ps) == 0 {
		return nil
	}
	for _, n := range sizes {
		p := pick(r, ps)
		w := p.word(len(p.uv)*(1+n/p.size()), r.Chance(10))
		if len(w) > 2*n+100 {
			continue
		}
		if r.Chance(50) && len(w) > 0 {
			i := r.Intn(len(w))
			if r.Chance(50) {
				i = len(w) - 1 - r.Intn((len(w)+7)/8)
			}
			switch t := r.Intn(len(c.Terms)); r.Intn(3) {
			case 0:
				w[i] = t
			case 1:
				w = append(w[:i], append([]int{t}, w[i:]...)...)
			case 2:
				w = append(w[:i], w[i+1:]...)
			}
		}
		ws = append(ws, w)
	}
	return
}

// Verdict tells whether w is a sentence and how many tokens its longest viable
// prefix has. Long words of an LR(1) grammar are judged by its canonical
// automaton l, if not nil, all others from their spans.
func (c *CFG) Verdict(l *LR, w []int) (bool, int) {
	if l != nil && len(w) > 150 {
		x := l.Run(w)
		if x.OK {
			return true, len(w)
		}
		return false, x.ErrAt
	}
	s := c.Spans(w)
	if s.Accept() {
		return true, len(w)
	}
	return false, s.ViablePrefix()
}

// sentenceOf is a random sentence of one nonterminal.
func (c *CFG) sentenceOf(r *Rng, h []int, nt, steps int) (out []int) {
	var rec func(nt int)
	rec = func(nt int) {
		steps--
		var cands []int
		best := 1 << 30
		for ai, a := range c.Prods[nt] {
			v := seqHeight(h, a)
			if v >= 1<<20 {
				continue
			}
			if steps > 0 {
				cands = append(cands, ai)
			} else if v < best {
				best, cands = v, []int{ai}
			} else if v == best {
				cands = append(cands, ai)
			}
		}
		for _, s := range c.Prods[nt][pick(r, cands)] {
			if s >= 0 {
				out = append(out, s)
			} else {
				rec(^s)
			}
		}
	}
	rec(nt)
	return
}

// triples is the number of (slot, left extent, pivot, right extent) such that
// the symbols before the slot derive the input between the extents, the last
// one from the pivot.
func (c *CFG) triples(w []int) (n int) {
	s := c.Spans(w)
	for _, alts := range c.Prods {
		for _, a := range alts {
			for i := 0; i <= len(w); i++ {
				cur := newBits(len(w) + 1)
				cur.set(i)
				for _, sym := range a {
					next := newBits(len(w) + 1)
					for k := i; k <= len(w); k++ {
						if !cur.has(k) {
							continue
						}
						if sym >= 0 {
							if k < len(w) && w[k] == sym {
								next.set(k + 1)
								n++
							}
							continue
						}
						e := s.ends[^sym][k]
						next.or(e)
						for _, x := range e {
							n += bits.OnesCount64(x)
						}
					}
					cur = next
				}
			}
		}
	}
	return
}

type workCase struct {
	kind string // ll1, cfg, lr, lex
	g    *Grammar
	c    *CFG
	u    *Unit
}

func checkC23(c *Check) {
	c.rule = "a case is a family of two (general grammars: three) inputs, each about twice as long as the one before, for which blocks and bytes were counted; non-trivial if the longest has at least 24 tokens"
	c.assume = []string{
		"the blocks executed in generated code and the bytes it allocates grow like its time and space; work inside the standard library shows in neither",
		"between an input and one of twice the length, linear work grows with exponent at most 1.25 (bytes 1.6, because tables grow in steps), cubic work, extrapolated from two doublings, with exponent at most 3.35 (bytes 3.6), or 0.35 more than the number of (slot, extents, pivot) triples of the input",
	}
	r := NewRng(c.Seed, "C23")
	e := NewEnv()
	e.Extra = map[string]string{"work/work.go": workSrc}
	var cases []*workCase
	add := func(kind string, g *Grammar, flags ...string) {
		cs := &workCase{kind: kind, g: g}
		if kind != "lex" {
			cs.c = NewCFG(g)
		}
		id := fmt.Sprintf("w%03d", len(cases))
		cs.u = &Unit{ID: id, Text: g.Text("m/" + id), Glue: "work_gll.go.txt", Flags: flags}
		if kind == "lr" {
			cs.u.Glue = "work_lr.go.txt"
		}
		cs.u.Post = func(d string) error {
			if kind == "lr" {
				if err := os.WriteFile(d+"/ast/ast.go", []byte(constAST(g)), 0666); err != nil {
					return err
				}
			}
			return injectCalls(d, "m/work")
		}
		cases = append(cases, cs)
	}
	usable := func(g *Grammar) bool {
		cf := NewCFG(g)
		return cf.MinHeights()[0] < 1<<20 && len(cf.pumps(NewRng(1, "p"), 1, 12)) > 0
	}
	gs := append(curatedLL1(), gllGrammars(r.Fork("g"), c.N(300, 2000))...)
	nLL, nCF := 0, 0
	for _, g := range gs {
		if !usable(g) {
			continue
		}
		if isLL1(NewCFG(g)) {
			if nLL++; nLL <= c.N(40, 200) {
				add("ll1", g)
			}
		} else if nCF++; nCF <= c.N(70, 250) {
			add("cfg", g)
		}
	}
	lgs, _ := lrGrammars(r.Fork("l"), c.N(70, 250), func(l *LR) bool { return l.Conflicts == 0 && usable(l.c.G) })
	shuffle(r, lgs)
	for i, g := range lgs {
		if i < c.N(40, 200) {
			add("lr", g, []string{"-knuth", "-pager"}[i%2])
		}
	}
	for _, cs := range lexCases(r.Fork("x"), c.N(40, 200), nil) {
		add("lex", cs.G)
	}
	us := []*Unit{}
	for _, cs := range cases {
		us = append(us, cs.u)
	}
	m := e.Build(us)
	reportBuild(c, us)
	var jobs []*ev.Job
	var meta []*workCase
	words := map[int][][]int{}
	for _, cs := range cases {
		if !cs.u.OK {
			continue
		}
		rr := r.Fork(cs.u.ID)
		job := func(ins ...string) {
			j := &ev.Job{G: cs.u.ID, Ins: ins}
			if cs.kind == "lex" {
				j.Op = "L"
			} else if cs.kind != "cfg" {
				j.Op = "1"
			}
			jobs = append(jobs, j)
			meta = append(meta, cs)
		}
		if cs.kind == "lex" {
			ins := lexInputs(rr, cs.g, 40)
			shuffle(rr, ins)
			for k, in := range ins {
				if in == "" || k > c.N(10, 40) {
					continue
				}
				n := (2000 + len(in) - 1) / len(in)
				job(strings.Repeat(in, n), strings.Repeat(in, 2*n), strings.Repeat(in, 16*n), strings.Repeat(in, 32*n))
			}
			continue
		}
		maxUV, k, n := 12, 1500, c.N(6, 20)
		if cs.kind == "cfg" {
			maxUV, k, n = 3, 28, c.N(4, 12)
		}
		for _, p := range cs.c.pumps(rr, n, maxUV) {
			k := len(p.uv) * (1 + k/p.size())
			cut, bad := rr.Chance(25), rr.Chance(15)
			text := func(k int) string {
				var b strings.Builder
				for _, t := range p.word(k, cut) {
					b.WriteString(lexemeOf(NewRng(1, "x"), cs.c, cs.c.Terms[t]) + " ")
				}
				if bad {
					b.WriteString("§")
				}
				return b.String()
			}
			if a, b := p.word(k, cut), p.word(2*k, cut); len(a) < 20 || 10*len(b) < 17*len(a) {
				continue
			}
			if cs.kind == "cfg" {
				job(text(k), text(2*k), text(4*k))
				words[len(jobs)-1] = [][]int{p.word(k, cut), p.word(2*k, cut), p.word(4*k, cut)}
			} else {
				job(text(k), text(2*k))
			}
		}
	}
	res := m.RunJobs(jobs, 60)
	maxima := map[string]float64{}
	for i, j := range jobs {
		cs, rs := meta[i], res[i]
		det := func(x interface{}) map[string]interface{} {
			return map[string]interface{}{"grammar": cs.u.Text, "flags": cs.u.Flags, "shorter input": trunc(j.Ins[0], 1500), "lengths": lengths(j.Ins), "work": x}
		}
		if rs == nil {
			continue
		}
		if rs.Hang != "" {
			c.Violate("hang", fmt.Sprintf("no result for inputs of up to %d characters: %s", len(j.Ins[len(j.Ins)-1]), rs.Hang), det(nil))
			continue
		}
		if rs.Panic != "" {
			c.Violate("crash", "parser crashed: "+trunc(rs.Panic, 300), det(nil))
			continue
		}
		z := rs.Work[len(rs.Work)-1]
		key := ""
		if z.Toks >= 24 || cs.kind == "lex" {
			key = fmt.Sprint(cs.u.Text, j.Ins[0])
		}
		c.Eval(key)
		c.Count(cs.kind+" families", 1)
		if len(rs.Work) < len(j.Ins) {
			c.Count("families cut short", 1)
		}
		for _, w := range rs.Work {
			c.Count("blocks counted", int(w.LexBlocks+w.Blocks))
			if !w.OK && cs.kind != "lex" {
				c.Count(cs.kind+" rejected inputs", 1)
			}
		}
		judge := func(what string, limit float64, least uint64, f func(ev.Work) (uint64, int)) {
			var es []float64
			at := ""
			for i, w := range rs.Work {
				y, n := f(w)
				if y < least {
					continue
				}
				at += fmt.Sprintf("%d for length %d, ", y, n)
				if i > 0 {
					x, m := f(rs.Work[i-1])
					es = append(es, math.Log(float64(y+1)/float64(x+1))/math.Log(float64(n)/float64(m)))
				}
			}
			if len(es) == 0 {
				return
			}
			v := es[len(es)-1]
			if limit < 3 {
				for _, e := range es {
					v = math.Max(v, e)
				}
			} else if len(es) > 1 {
				v = math.Min(v, 2*v-es[len(es)-2]) // what remains for longer inputs
				if k := len(rs.Work) - 1; v > limit {
					// derivations that need long pieces make even the number of
					// triples grow faster at first
					a, b := cs.c.triples(words[i][k-1]), cs.c.triples(words[i][k])
					eT := math.Log(float64(b+1)/float64(a+1)) / math.Log(float64(rs.Work[k].Toks)/float64(rs.Work[k-1].Toks))
					at += fmt.Sprintf("%d and %d triples (exponent %.2f), ", a, b, eT)
					v -= math.Max(0, eT-3)
					c.Count("families compared with the number of triples", 1)
				}
			} else {
				return
			}
			if k := cs.kind + " " + what; v > maxima[k] {
				maxima[k] = v
			}
			if v > limit {
				c.Violate(cs.kind+" "+what, fmt.Sprintf("%s: %sexponent %.2f > %.2f", what, at, v, limit), det(rs.Work))
			}
		}
		judge("lexer blocks", 1.25, 0, func(w ev.Work) (uint64, int) { return w.LexBlocks, w.Runes })
		judge("lexer bytes", 1.6, 1<<18, func(w ev.Work) (uint64, int) { return w.LexBytes, w.Runes })
		if cs.kind == "lex" {
			continue
		}
		lim, limB := 1.25, 1.6
		if cs.kind == "cfg" {
			lim, limB = 3.35, 3.6
		}
		judge("parser blocks", lim, 0, func(w ev.Work) (uint64, int) { return w.Blocks, w.Toks })
		judge("parser bytes", limB, 1<<18, func(w ev.Work) (uint64, int) { return w.Bytes, w.Toks })
		if i%97 == 0 {
			c.Sample(map[string]interface{}{"grammar": cs.u.Text, "input": trunc(j.Ins[0], 200), "work": rs.Work})
		}
	}
	for k, v := range maxima {
		c.Count("largest exponent x100, "+k, int(math.Round(v*100)))
	}
	c.Need("ll1 families", 100)
	c.Need("cfg families", 150)
	c.Need("lr families", 100)
	c.Need("lex families", 300)
}

func curatedLL1() []*Grammar {
	return []*Grammar{
		parseG("ll1-list", "S : a S | ε"),
		parseG("ll1-null-tail", "S : a S X | b\nX : c | ε"),
		parseG("ll1-null-twice", "S : a X X S | b\nX : Y\nY : ε"),
		parseG("ll1-nest", "S : ( S ) S | ε"),
		parseG("ll1-stmt", "P : B\nB : { L }\nL : T L | ε\nT : i = E ; | B | w E B\nE : F G\nG : + F G | ε\nF : i | n | ( E )"),
		parseG("ll1-json", "V : { M } | [ A ] | s | n\nM : ε | P R\nR : , P R | ε\nP : s : V\nA : ε | V W\nW : , V W | ε"),
		parseG("ll1-long", "S : a b c S d e f | ε"),
		parseG("ll1-tail-chain", "S : a S X Y Z | b\nX : ε | x\nY : ε | y\nZ : ε | z"),
		parseG("lr-left", "S : S a | a"),
		parseG("ambig4", "S : S S S | S S | b"),
		parseG("ambig-null", "S : S S | a | ε"),
		parseG("long-alternate", "S : A A A A A A\nA : A a | ε"),
	}
}

func lengths(ss []string) (ns []int) {
	for _, s := range ss {
		ns = append(ns, len([]rune(s)))
	}
	return
}

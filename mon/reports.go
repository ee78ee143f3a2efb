package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func init() { checks["C19"] = checkC19 }

func nonEmptyLines(s string) (out []string) {
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) != "" {
			out = append(out, l)
		}
	}
	return
}

func squeeze(s string) string { return strings.Join(strings.Fields(s), "") }

// multisetDiff returns what is in one list and not in the other.
func multisetDiff(want, got []string) (missing, extra []string) {
	m := map[string]int{}
	for _, s := range want {
		m[s]++
	}
	for _, s := range got {
		m[s]--
	}
	for s, n := range m {
		if n > 0 {
			missing = append(missing, s)
		}
		if n < 0 {
			extra = append(extra, s)
		}
	}
	sort.Strings(missing)
	sort.Strings(extra)
	return
}

// looseGrammar adds unreachable and unproductive rules to g.
func looseGrammar(r *Rng, g *Grammar) *Grammar {
	h := &Grammar{Name: g.Name + "-loose", Lex: g.Lex, Rules: append([]Rule{}, g.Rules...)}
	names := []string{"Ua", "Ub", "Uc"}
	ts := g.Terminals()
	var all []string
	for _, ru := range g.Rules {
		all = append(all, ru.Head)
	}
	n := r.Range(1, 3)
	all = append(all, names[:n]...)
	for _, nm := range names[:n] {
		ru := Rule{Head: nm}
		for k := r.Range(1, 3); k > 0; k-- {
			var a []Sym
			for j := r.Range(0, 3); j > 0; j-- {
				if r.Chance(60) || len(ts) == 0 {
					a = append(a, NT(pick(r, all)))
				} else {
					a = append(a, pick(r, ts))
				}
			}
			ru.Alts = append(ru.Alts, a)
		}
		h.Rules = append(h.Rules, ru)
	}
	if r.Chance(50) {
		h.Lex = append(append([]LexRule{}, h.Lex...), LexRule{ID: "unused", X: seq(chr('¤'))}, LexRule{ID: "hidden", Suppress: true, X: seq(chr('¬'))})
	}
	return h
}

func checkC19(c *Check) {
	c.rule = "a case is a (grammar, options) pair run with -v; non-trivial if some nonterminal is nullable or the grammar has more than one rule"
	c.assume = []string{"the sets are the least fixpoints of the textbook equations, with the end of input in FOLLOW of the first rule's head",
		"the reports are read field by field: white space and the order of lines within a list do not matter"}
	r := NewRng(c.Seed, c.Prop)
	e := NewEnv()
	gs := append(curatedGrammars(), curatedLR()...)
	for i := 0; i < c.N(1200, 12000); i++ {
		rr := r.Fork(fmt.Sprint(i))
		var g *Grammar
		switch rr.Intn(5) {
		case 0:
			g = hostileGrammar(rr, rr.Chance(50))
		case 1:
			g = bigGrammar(rr)
		default:
			g = gllGrammars(rr, 1)[len(curatedGrammars())]
		}
		if rr.Chance(45) {
			g = looseGrammar(rr, g)
		}
		gs = append(gs, g)
	}
	gs = append(gs, hugeGrammar(r.Fork("huge"), false), hugeGrammar(r.Fork("huge"), true))
	parallel(len(gs), func(i int) {
		g := gs[i]
		rr := r.Fork(fmt.Sprint("run", i))
		flags := []string{"-v"}
		if i >= len(curatedGrammars()) && !NewLR(NewCFG(g), 700).TooBig {
			flags = append(flags, pick(rr, [][]string{nil, {"-knuth"}, {"-pager"}, {"-knuth", "-resolve_conflicts"}})...)
		}
		d := filepath.Join(e.Dir, fmt.Sprintf("v%d", i))
		defer os.RemoveAll(d)
		writeFile(d+"/g.txt", g.Text("m/x"))
		res := e.RunGogll(d, append(flags, "-o", d, d+"/g.txt")...)
		cfg := NewCFG(g)
		ff := cfg.FirstFollow()
		nullable := 0
		for _, b := range ff.Nullable {
			if b {
				nullable++
			}
		}
		key := ""
		if nullable > 0 || len(g.Rules) > 1 {
			key = g.Text("")
		}
		c.Eval(key)
		wit := map[string]interface{}{"grammar": g.Text("m/x"), "flags": flags, "output": trunc(res.Out, 300)}
		if res.Crash {
			c.Violate("crash", "gogll crashed", wit)
			return
		}
		if i%97 == 0 {
			c.Sample(wit)
		}
		read := func(n string) ([]string, bool) {
			b, err := os.ReadFile(filepath.Join(d, n))
			if err != nil {
				c.Violate("missing", "no report "+n, wit)
				return nil, false
			}
			return nonEmptyLines(string(b)), true
		}
		// symbols.txt
		var syms []string
		seen := map[string]bool{}
		for _, l := range g.Lex {
			syms = append(syms, l.ID)
			seen[l.ID] = true
		}
		for _, t := range cfg.Terms {
			if !seen[t] {
				syms = append(syms, t)
			}
		}
		for _, ru := range g.Rules {
			syms = append(syms, ru.Head)
		}
		ls, ok := read("symbols.txt")
		if !ok {
			return
		}
		for k := range ls {
			ls[k] = strings.TrimSpace(ls[k])
		}
		if m, x := multisetDiff(syms, ls); len(m)+len(x) > 0 {
			c.Violate("symbols", fmt.Sprintf("symbols.txt: missing %q, wrong or repeated %q", m, x), wit)
			return
		}
		// grammar_slots.txt
		var slots []string
		for _, ru := range g.Rules {
			for _, a := range ru.Alts {
				for p := 0; p <= len(a); p++ {
					s := ru.Head + ":"
					for k, y := range a {
						if k == p {
							s += "∙"
						}
						if y.Kind == KNT {
							s += y.Name
						} else {
							s += y.TermID()
						}
					}
					if p == len(a) {
						s += "∙"
					}
					slots = append(slots, squeeze(s))
				}
			}
		}
		if ls, ok = read("grammar_slots.txt"); !ok {
			return
		}
		for k := range ls {
			ls[k] = squeeze(ls[k])
		}
		if m, x := multisetDiff(slots, ls); len(m)+len(x) > 0 {
			c.Violate("slots", fmt.Sprintf("grammar_slots.txt: missing %q, wrong or repeated %q", m, x), wit)
			return
		}
		c.Count("slots", len(slots))
		// first_follow.txt
		want := map[string][]string{}
		for _, s := range syms {
			if k, ok := cfg.NIdx[s]; ok {
				want["F "+s] = ff.IDs(ff.First[k])
				if ff.Nullable[k] {
					want["F "+s] = append(want["F "+s], "ϵ")
				}
				want["L "+s] = ff.IDs(ff.Follow[k])
			} else {
				want["F "+s] = []string{s}
			}
		}
		if ls, ok = read("first_follow.txt"); !ok {
			return
		}
		got := map[string][]string{}
		for k, l := range ls {
			f := strings.Fields(l)
			name := strings.TrimSuffix(f[0], ":")
			if k < len(syms) {
				name = "F " + name
			} else {
				name = "L " + strings.TrimSuffix(strings.TrimPrefix(name, "Follow("), ")")
			}
			if _, ok := got[name]; ok {
				c.Violate("sets", "first_follow.txt: two lines for "+name[2:], wit)
				return
			}
			got[name] = f[1:]
		}
		for name, w := range want {
			x, ok := got[name]
			what := "FIRST of "
			if name[0] == 'L' {
				what = "FOLLOW of "
			}
			if !ok {
				c.Violate("sets", "first_follow.txt: no "+what+name[2:], wit)
				return
			}
			if m, y := multisetDiff(w, x); len(m)+len(y) > 0 {
				c.Violate("sets", fmt.Sprintf("first_follow.txt: %s%s: missing %q, wrong or repeated %q", what, name[2:], m, y), wit)
				return
			}
			if name[0] == 'L' {
				c.Count("FOLLOW sets", 1)
			} else {
				c.Count("FIRST sets", 1)
			}
		}
		if len(got) != len(want) {
			c.Violate("sets", fmt.Sprintf("first_follow.txt: %d sets instead of %d", len(got), len(want)), wit)
		}
		if res.Code != 0 {
			c.Count("reports of rejected grammars", 1)
		}
	})
	c.Need("FOLLOW sets", 3000)
	c.Need("FIRST sets", 6000)
}

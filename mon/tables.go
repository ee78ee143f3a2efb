package main

import (
	"fmt"
	"sort"
	"strings"

	"mon/ev"
)

/*** C25 symbol and slot tables ***/

func init() { checks["C25"] = checkC25 }

// tableNames are the names the tables are asked for: those of the grammar, and
// some that only resemble them.
func tableNames(r *Rng, cs *gcase) (names []string) {
	seen := map[string]bool{}
	add := func(n string) {
		if !seen[n] {
			seen[n] = true
			names = append(names, n)
		}
	}
	var have []string
	for _, rl := range cs.G.Rules {
		have = append(have, rl.Head)
	}
	have = append(have, cs.C.Terms...)
	for _, n := range have {
		add(n)
		rs := []rune(n)
		if len(rs) > 0 {
			add(string(rs[:len(rs)-1]))
			add(string(rs[1:]))
			add(strings.ToLower(n))
			add(strings.ToUpper(n))
			add("NT_" + n)
			add(n + pick(r, []string{"0", "1", "R0", "0R0", " ", "\"", "A", "_"}))
			add(n + n)
		}
	}
	for _, n := range []string{"", "$", "Error", "EOF", "ϵ", "empty", "0", "T_0", "G00"} {
		add(n)
	}
	return
}

// wantTables are the answers of the tables of a grammar.
func wantTables(cs *gcase, names []string) map[string]int {
	want := map[string]int{}
	add := func(f string, a ...interface{}) { want[fmt.Sprintf(f, a...)]++ }
	for _, rl := range cs.G.Rules {
		add("nt %s true", rl.Head)
		add("alts %s %d", rl.Head, len(rl.Alts))
	}
	for _, t := range cs.C.Terms {
		add("t %q false", t)
	}
	for _, n := range names {
		if _, ok := cs.C.NIdx[n]; ok {
			add("name %q true true %q", n, n)
		} else {
			add("name %q false false \"\"", n)
		}
	}
	labels := 0
	for _, rl := range cs.G.Rules {
		for a, body := range rl.Alts {
			kinds, ids := "", []string{}
			for _, s := range body {
				if s.Kind == KNT {
					kinds += "N"
					ids = append(ids, s.Name)
				} else {
					kinds += "T"
					ids = append(ids, s.TermID())
				}
			}
			for pos := 0; pos <= len(body); pos++ {
				str := rl.Head + " : " + strings.Join(ids[:pos], " ") + " ∙" + strings.Join(ids[pos:], " ")
				add("slot %s %d %d|%s|%q|%t|%s", rl.Head, a, pos, kinds, ids, pos == len(body), oneSpace(str))
				labels++
			}
		}
	}
	add("labels %d", labels)
	return want
}

func oneSpace(s string) string { return strings.Join(strings.Fields(s), " ") }

func judgeGLLTables(cs *gcase, names, got []string) string {
	want := wantTables(cs, names)
	declared := map[string]bool{}
	for _, l := range cs.G.Lex {
		declared[fmt.Sprintf("t %q false", l.ID)] = true
	}
	for _, l := range got {
		if i := strings.LastIndex(l, "|"); i >= 0 && strings.HasPrefix(l, "slot ") {
			// the spacing of a slot's text is not part of what it says; a
			// literal with a bar or white space is in its text as it is
			if k := slotText(l); k >= 0 {
				l = l[:k] + oneSpace(l[k:])
			}
		}
		if want[l] == 0 {
			if declared[l] { // a token that no rule uses
				declared[l] = false
				continue
			}
			return "the tables have: " + l
		}
		want[l]--
	}
	var miss []string
	for l, n := range want {
		if n > 0 {
			miss = append(miss, l)
		}
	}
	if len(miss) > 0 {
		sort.Strings(miss)
		return fmt.Sprintf("the tables lack %d entries, the first: %s", len(miss), miss[0])
	}
	return ""
}

// slotText is where the text of the slot begins in a slot line: after the flag
// that follows the quoted symbols.
func slotText(l string) int {
	for _, f := range []string{"]|true|", "]|false|"} {
		if i := strings.Index(l, f); i >= 0 {
			return i + len(f)
		}
	}
	return -1
}

func checkC25(c *Check) {
	c.rule = "a case is a grammar with every question about it that its generated symbol and slot tables answer; non-trivial if it has two nonterminals or more"
	c.assume = []string{"the spacing in the text of a slot is not part of the property"}
	r := NewRng(c.Seed, c.Prop)
	cases := mkGLLCases(append(gllGrammars(r, c.N(420, 1500)), hugeGrammar(r.Fork("huge"), false)))
	e := NewEnv()
	m := buildCases(c, e, cases)
	var jobs []*ev.Job
	var meta []*gcase
	for _, cs := range cases {
		if cs.U.OK {
			jobs = append(jobs, &ev.Job{G: cs.U.ID, Op: "tb", Ins: tableNames(r.Fork(cs.U.ID), cs)})
			meta = append(meta, cs)
		}
	}
	res := m.RunJobs(jobs, 30)
	c.Count("grammars", len(cases))
	parallel(len(jobs), func(i int) {
		cs, j, rs := meta[i], jobs[i], res[i]
		if crashed(c, cs, j, rs) {
			return
		}
		key := ""
		if len(cs.G.Rules) > 1 {
			key = cs.U.ID
		}
		c.Eval(key)
		w := witness(cs, j)
		if msg := judgeGLLTables(cs, j.Ins, rs.Strs); msg != "" {
			c.Violate("tables", msg, w)
		}
		c.Count("names asked for", len(j.Ins))
		c.Count("answers", len(rs.Strs))
		if i%97 == 0 {
			c.Sample(witness(cs, j, "answers", len(rs.Strs)))
		}
	})
	c.Need("answers", 10000)
	c.Need("names asked for", 5000)
}

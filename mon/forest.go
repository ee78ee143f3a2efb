package main

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"mon/ev"
)

const forestLimit = 6000

func packedKey(nt string, l, r, alt int, sp []int) string {
	return fmt.Sprintf("%s[%d,%d] alt %d at %v", nt, l, r, alt, sp)
}

// oracleForest returns the packed derivations as strings.
func oracleForest(cs *gcase, w []int) (map[string]bool, map[NTSpan][]Packed, bool) {
	s := cs.C.Spans(w)
	f, ok := s.Forest(forestLimit)
	if !ok {
		return nil, nil, false
	}
	out := map[string]bool{}
	for x, ps := range f {
		for _, p := range ps {
			out[packedKey(cs.G.Rules[x.NT].Head, x.L, x.R, p.Alt, p.Splits)] = true
		}
	}
	return out, f, true
}

func diffSets(got, want map[string]bool) (missing, extra []string) {
	for k := range want {
		if !got[k] {
			missing = append(missing, k)
		}
	}
	for k := range got {
		if !want[k] {
			extra = append(extra, k)
		}
	}
	sort.Strings(missing)
	sort.Strings(extra)
	if len(missing) > 5 {
		missing = missing[:5]
	}
	if len(extra) > 5 {
		extra = extra[:5]
	}
	return
}

func keepSentences(cs *gcase, w []int) bool { return cs.C.Spans(w).Accept() }

/*** C02 the parse forest holds exactly the derivations ***/

func init() {
	checks["C02"] = checkC02
	checks["C03"] = checkC03
	checks["C04"] = checkC04
}

// judgeForest compares the forest observed through the BSR API with all
// derivations of the token string. It returns "" if they agree.
func judgeForest(cs *gcase, r *ev.Res, w []int, want map[string]bool) string {
	n := len(w)
	got := map[string]bool{}
	if len(r.Roots) == 0 {
		return "no root"
	}
	if r.Rext != n {
		return fmt.Sprintf("right extent %d of %d tokens", r.Rext, n)
	}
	rootSeen := map[string]bool{}
	for _, rt := range r.Roots {
		nd := r.Nodes[rt]
		if nd.NT != cs.G.Start() || nd.L != 0 || nd.R != n {
			return fmt.Sprintf("root is %s[%d,%d]", nd.NT, nd.L, nd.R)
		}
		k := fmt.Sprint(nd.Alt, nd.K)
		if rootSeen[k] {
			return "duplicate root"
		}
		rootSeen[k] = true
	}
	for _, nd := range r.Nodes {
		nt, ok := cs.C.NIdx[nd.NT]
		if !ok || nd.Alt < 0 || nd.Alt >= len(cs.C.Prods[nt]) {
			return fmt.Sprintf("node of unknown production %s/%d", nd.NT, nd.Alt)
		}
		body := cs.C.Prods[nt][nd.Alt]
		gsyms := cs.G.Rules[nt].Alts[nd.Alt]
		if len(nd.Sym) != len(body) {
			return fmt.Sprintf("%s/%d reports the body %v", nd.NT, nd.Alt, nd.Sym)
		}
		// children per symbol
		kids := make([][][2]int, len(body))
		used := make([]map[[2]int]bool, len(body))
		for i, sym := range body {
			used[i] = map[[2]int]bool{}
			if sym >= 0 {
				continue
			}
			if nd.Sym[i] != gsyms[i].Name {
				return fmt.Sprintf("symbol %d of %s/%d is %s", i, nd.NT, nd.Alt, nd.Sym[i])
			}
			dup := map[int]bool{}
			set := map[[2]int]bool{}
			for _, ch := range nd.Ch[i] {
				if dup[ch] {
					return fmt.Sprintf("duplicate child %d of symbol %d in %s[%d,%d]", ch, i, nd.NT, nd.L, nd.R)
				}
				dup[ch] = true
				k := r.Nodes[ch]
				if k.NT != gsyms[i].Name {
					return fmt.Sprintf("child of symbol %d (%s) is a %s", i, gsyms[i].Name, k.NT)
				}
				set[[2]int{k.L, k.R}] = true
			}
			if len(set) == 0 {
				return fmt.Sprintf("symbol %d of %s[%d,%d] has no child", i, nd.NT, nd.L, nd.R)
			}
			for e := range set {
				kids[i] = append(kids[i], e)
			}
		}
		// contiguous combinations
		sp := []int{nd.L}
		found := 0
		var rec func(i, p int)
		rec = func(i, p int) {
			if found > forestLimit {
				return
			}
			if i == len(body) {
				if p != nd.R {
					return
				}
				if len(body) > 0 && sp[len(body)-1] != nd.K {
					return // a different pivot is a different element
				}
				found++
				got[packedKey(nd.NT, nd.L, nd.R, nd.Alt, sp)] = true
				for m := range body {
					used[m][[2]int{sp[m], sp[m+1]}] = true
				}
				return
			}
			if body[i] >= 0 {
				if p < n && w[p] == body[i] {
					sp = append(sp, p+1)
					rec(i+1, p+1)
					sp = sp[:len(sp)-1]
				}
				return
			}
			for _, e := range kids[i] {
				if e[0] == p {
					sp = append(sp, e[1])
					rec(i+1, e[1])
					sp = sp[:len(sp)-1]
				}
			}
		}
		rec(0, nd.L)
		if found == 0 {
			return fmt.Sprintf("the children of %s[%d,%d] alt %d do not cover it", nd.NT, nd.L, nd.R, nd.Alt)
		}
		for i := range body {
			for _, e := range kids[i] {
				if !used[i][e] {
					return fmt.Sprintf("child [%d,%d] of symbol %d is in no derivation of %s[%d,%d] alt %d", e[0], e[1], i, nd.NT, nd.L, nd.R, nd.Alt)
				}
			}
		}
		// terminal children
		for i, sym := range body {
			if sym < 0 || nd.T[i] == -2 {
				continue
			}
			p := nd.T[i]
			if p < 0 || p >= n || w[p] != sym {
				return fmt.Sprintf("terminal %d of %s[%d,%d] alt %d is token %d", i, nd.NT, nd.L, nd.R, nd.Alt, p)
			}
			// all preceding children are unique, so the position is determined
			q := nd.L
			for m := 0; m < i; m++ {
				if body[m] >= 0 {
					q++
				} else {
					q = kids[m][0][1]
				}
			}
			if q != p {
				return fmt.Sprintf("terminal %d of %s[%d,%d] alt %d is token %d, not %d", i, nd.NT, nd.L, nd.R, nd.Alt, p, q)
			}
		}
	}
	if miss, extra := diffSets(got, want); len(miss)+len(extra) > 0 {
		return fmt.Sprintf("missing derivations: %s; extra derivations: %s", strings.Join(miss, ", "), strings.Join(extra, ", "))
	}
	return ""
}

func sentencePlan(c *Check, ops string) gllPlan {
	return gllPlan{nGram: c.N(200, 800), exMax: c.N(260, 1200), nSent: c.N(40, 100), nMut: c.N(20, 60), nRand: 0,
		maxLen: c.N(9, 13), ops: ops, keep: keepSentences, long: []int{270, 280}}
}

func checkC02(c *Check) {
	c.rule = "a case is a (grammar, sentence) pair; non-trivial if the sentence is non-empty"
	c.assume = []string{"the oracle enumerates every packed derivation (alternate and child boundaries) of every nonterminal span by dynamic programming over the recorded tokens"}
	run := runGLL(c, sentencePlan(c, "fp"))
	parallel(len(run.jobs), func(i int) {
		cs, j, r := run.meta[i].cs, run.jobs[i], run.res[i]
		if crashed(c, cs, j, r) {
			return
		}
		ids := tokIDs(r)
		w := cs.C.Encode(ids)
		if !cs.C.Spans(w).Accept() {
			return
		}
		if !r.OK {
			c.Violate("forest", "no parse set for a sentence", witness(cs, j))
			return
		}
		want, _, ok := oracleForest(cs, w)
		if !ok || r.Trunc {
			c.Count("skipped, forest too large", 1)
			return
		}
		key := ""
		if len(ids) > 0 {
			key = cs.U.ID + "|" + strings.Join(ids, " ")
		}
		c.Eval(key)
		c.Count("packed derivations compared", len(want))
		if msg := judgeForest(cs, r, w, want); msg != "" {
			c.Violate("forest", msg, witness(cs, j))
		}
		if r.API != "" {
			c.Violate("accessors", r.API, witness(cs, j))
		}
		c.Count("results with all accessors compared", 1)
		if i%499 == 0 {
			c.Sample(witness(cs, j, "packed", len(want)))
		}
	})
	c.Need("packed derivations compared", 5000)
}

/*** C03 ambiguity ***/

func checkC03(c *Check) {
	c.rule = "a case is a (grammar, sentence) pair; non-trivial if the sentence is non-empty"
	c.assume = []string{"a sentence is ambiguous iff some reachable nonterminal span has more than one packed derivation"}
	run := runGLL(c, sentencePlan(c, "afr"))
	parallel(len(run.jobs), func(i int) {
		cs, j, r := run.meta[i].cs, run.jobs[i], run.res[i]
		if crashed(c, cs, j, r) {
			return
		}
		ids := tokIDs(r)
		w := cs.C.Encode(ids)
		if !cs.C.Spans(w).Accept() {
			return
		}
		if !r.OK {
			c.Violate("ambiguity", "no parse set for a sentence", witness(cs, j))
			return
		}
		_, f, ok := oracleForest(cs, w)
		if !ok {
			c.Count("skipped, forest too large", 1)
			return
		}
		amb := false
		for _, ps := range f {
			if len(ps) > 1 {
				amb = true
			}
		}
		key := ""
		if len(ids) > 0 {
			key = cs.U.ID + "|" + strings.Join(ids, " ")
		}
		c.Eval(key)
		if amb {
			c.Count("ambiguous sentences", 1)
		} else {
			c.Count("unambiguous sentences", 1)
		}
		if amb != r.Amb {
			c.Violate("ambiguity", fmt.Sprintf("reported ambiguous=%t, is ambiguous=%t", r.Amb, amb), witness(cs, j))
		}
		if r.Trunc {
			c.Count("reports skipped, forest too large", 1)
		} else if msg := judgeReport(r); msg != "" {
			c.Violate("report", msg, witness(cs, j, "report", trunc(r.Text, 1500)))
		} else {
			c.Count("reports compared", 1)
			if amb {
				c.Count("reports of ambiguities compared", 1)
			}
		}
		if i%499 == 0 {
			c.Sample(witness(cs, j, "ambiguous", amb))
		}
	})
	c.Need("ambiguous sentences", 300)
	c.Need("unambiguous sentences", 300)
	c.Need("reports of ambiguities compared", 250)
}

var ambiguousNTRe = regexp.MustCompile(`: NT (\S+) \((\d+)\) at line \d+ col \d+ *\n`)

// judgeReport checks the output of ReportAmbiguous: the number of roots, the
// roots without ambiguous descendants and the symbols that are named. The
// expectation comes from the forest observed through GetRoots and
// GetNTChildrenI, which C02 compares with the oracle.
func judgeReport(r *ev.Res) string {
	secs := strings.Split(r.Text, "In root ")
	if len(secs)-1 != len(r.Roots) {
		return fmt.Sprintf("the report has %d roots of %d", len(secs)-1, len(r.Roots))
	}
	if several := strings.Contains(secs[0], fmt.Sprint(len(r.Roots))); several != (len(r.Roots) > 1) {
		return fmt.Sprintf("%d roots, the report mentions several roots: %t", len(r.Roots), several)
	}
	want, got := map[string]bool{}, map[string]bool{}
	clean := 0
	for _, rt := range r.Roots {
		// nodes below the root; a child is ambiguous if it has several derivations
		seen := map[int]bool{rt: true}
		todo := []int{rt}
		amb := false
		for len(todo) > 0 {
			nd := r.Nodes[todo[len(todo)-1]]
			todo = todo[:len(todo)-1]
			for i, ch := range nd.Ch {
				if len(ch) > 1 {
					amb = true
					want[nd.Sym[i]+" "+strconv.Itoa(i)] = true
				}
				for _, k := range ch {
					if !seen[k] {
						seen[k] = true
						todo = append(todo, k)
					}
				}
			}
		}
		if !amb {
			clean++
		}
	}
	for _, m := range ambiguousNTRe.FindAllStringSubmatch(r.Text, -1) {
		got[m[1]+" "+m[2]] = true
	}
	miss, extra := diffSets(got, want)
	if len(miss)+len(extra) > 0 {
		return fmt.Sprintf("ambiguous symbols (name and index in the alternate) missing in the report: %v, wrong: %v", miss, extra)
	}
	n := 0
	for _, s := range secs[1:] {
		named := ambiguousNTRe.MatchString(s)
		none := strings.Contains(s, "No ambiguous")
		if named == none {
			return "the report of a root names an ambiguity and none, or neither"
		}
		if none {
			n++
		}
	}
	if n != clean {
		return fmt.Sprintf("the report has %d roots without ambiguities, not %d", n, clean)
	}
	return ""
}

/*** C04 SPPF ***/

// judgeSPPF extracts the derivations from the SPPF.
func judgeSPPF(cs *gcase, r *ev.Res, w []int, f map[NTSpan][]Packed) string {
	n := len(w)
	if len(r.SPPF) == 0 {
		return "no SPPF"
	}
	bodyStr := func(nt, alt int) string { return altString(cs.G.Rules[nt].Alts[alt]) }
	_ = bodyStr
	// map body strings back to alternates
	root := r.SPPF[r.SRoot]
	if root.K != "S" || root.Sym != cs.G.Start() || root.L != 0 || root.R != n {
		return fmt.Sprintf("root is %v", root.Lab)
	}
	alts := make([]map[string][]int, len(cs.G.Rules))
	for i, ru := range cs.G.Rules {
		alts[i] = map[string][]int{}
		for k, a := range ru.Alts {
			var ss []string
			for _, s := range a {
				if s.Kind == KNT {
					ss = append(ss, s.Name)
				} else {
					ss = append(ss, s.TermID())
				}
			}
			b := strings.Join(ss, " ")
			alts[i][b] = append(alts[i][b], k)
		}
	}
	got := map[string]bool{}
	spans := map[string]bool{}
	labels := map[string]string{}
	for _, nd := range r.SPPF {
		if o, ok := labels[nd.Lab]; ok && nd.K != "I" {
			_ = o
			return "two nodes are labelled " + nd.Lab
		}
		labels[nd.Lab] = nd.K
		if nd.K != "S" {
			continue
		}
		nt, isNT := cs.C.NIdx[nd.Sym]
		if !isNT {
			if len(nd.Ch) != 0 {
				return "a leaf has children: " + nd.Lab
			}
			switch {
			case nd.L == nd.R:
				if nd.Sym != "ϵ" {
					return "leaf of empty extent " + nd.Lab
				}
			case nd.R == nd.L+1 && nd.L >= 0 && nd.R <= n:
				if t, ok := cs.C.TIdx[nd.Sym]; !ok || w[nd.L] != t {
					return "leaf does not match its token: " + nd.Lab
				}
			default:
				return "leaf with extent " + nd.Lab
			}
			continue
		}
		spans[fmt.Sprintf("%s,%d,%d", nd.Sym, nd.L, nd.R)] = true
		if len(nd.Ch) == 0 {
			return "nonterminal node without children: " + nd.Lab
		}
		dup := map[int]bool{}
		for _, ci := range nd.Ch {
			if dup[ci] {
				return "duplicate packed child of " + nd.Lab
			}
			dup[ci] = true
			p := r.SPPF[ci]
			if p.K != "P" || p.NT != nd.Sym || p.L != nd.L || p.R != nd.R || p.Pos != len(p.Body) {
				return fmt.Sprintf("packed child %s of %s", p.Lab, nd.Lab)
			}
			as := alts[nt][strings.Join(p.Body, " ")]
			if len(as) == 0 {
				return fmt.Sprintf("packed node %s is not a production of %s", p.Lab, nd.Sym)
			}
			ts, msg := sppfSplits(r, ci, 0)
			if msg != "" {
				return msg
			}
			for _, t := range ts {
				for _, a := range as {
					got[packedKey(nd.Sym, nd.L, nd.R, a, t)] = true
				}
			}
		}
	}
	want := map[string]bool{}
	for x, ps := range f {
		for _, p := range ps {
			want[packedKey(cs.G.Rules[x.NT].Head, x.L, x.R, p.Alt, p.Splits)] = true
		}
	}
	if miss, extra := diffSets(got, want); len(miss)+len(extra) > 0 {
		return fmt.Sprintf("missing derivations: %s; extra derivations: %s", strings.Join(miss, ", "), strings.Join(extra, ", "))
	}
	return ""
}

// sppfSplits returns the boundary tuples represented below packed node pi.
func sppfSplits(r *ev.Res, pi int, depth int) ([][]int, string) {
	p := r.SPPF[pi]
	if depth > 50 {
		return nil, "intermediate nodes nest too deep"
	}
	if len(p.Ch) != 2 || p.Ch[1] < 0 {
		return nil, "packed node without right child: " + p.Lab
	}
	right := r.SPPF[p.Ch[1]]
	if len(p.Body) == 0 {
		if right.K != "S" || right.Sym != "ϵ" || right.L != right.R || p.Ch[0] >= 0 || p.L != p.R {
			return nil, "empty alternate: " + p.Lab
		}
		return [][]int{{p.L}}, ""
	}
	if right.K != "S" || right.Sym != p.Body[p.Pos-1] || right.L != p.Piv || right.R != p.R {
		return nil, fmt.Sprintf("right child %s of %s", right.Lab, p.Lab)
	}
	if p.Pos == 1 {
		if p.Ch[0] >= 0 || p.Piv != p.L {
			return nil, "left child of a unit packed node " + p.Lab
		}
		return [][]int{{p.L, p.R}}, ""
	}
	if p.Ch[0] < 0 {
		return nil, "packed node without left child: " + p.Lab
	}
	left := r.SPPF[p.Ch[0]]
	if left.L != p.L || left.R != p.Piv {
		return nil, fmt.Sprintf("left child %s of %s", left.Lab, p.Lab)
	}
	if p.Pos == 2 {
		if left.K != "S" || left.Sym != p.Body[0] {
			return nil, fmt.Sprintf("left child %s of %s", left.Lab, p.Lab)
		}
		return [][]int{{p.L, p.Piv, p.R}}, ""
	}
	if left.K != "I" || left.Pos != p.Pos-1 || left.NT != p.NT || strings.Join(left.Body, " ") != strings.Join(p.Body, " ") {
		return nil, fmt.Sprintf("left child %s of %s", left.Lab, p.Lab)
	}
	if len(left.Ch) == 0 {
		return nil, "intermediate node without children: " + left.Lab
	}
	var out [][]int
	for _, ci := range left.Ch {
		q := r.SPPF[ci]
		if q.K != "P" || q.Pos != left.Pos || q.L != left.L || q.R != left.R || q.NT != left.NT || strings.Join(q.Body, " ") != strings.Join(left.Body, " ") {
			return nil, fmt.Sprintf("packed child %s of %s", q.Lab, left.Lab)
		}
		ts, msg := sppfSplits(r, ci, depth+1)
		if msg != "" {
			return nil, msg
		}
		for _, t := range ts {
			out = append(out, append(append([]int(nil), t...), p.R))
		}
	}
	return out, ""
}

func checkC04(c *Check) {
	c.rule = "a case is a (grammar, sentence) pair; non-trivial if the sentence is non-empty"
	c.assume = []string{"derivations are compared with the reference enumeration; DOT output is parsed by a small reader of the DOT subset the file uses"}
	p := sentencePlan(c, "asdc")
	p.exMax = c.N(100, 500)
	run := runGLL(c, p)
	parallel(len(run.jobs), func(i int) {
		cs, j, r := run.meta[i].cs, run.jobs[i], run.res[i]
		if crashed(c, cs, j, r) {
			return
		}
		ids := tokIDs(r)
		w := cs.C.Encode(ids)
		if !cs.C.Spans(w).Accept() {
			return
		}
		if !r.OK {
			c.Violate("sppf", "no parse set for a sentence", witness(cs, j))
			return
		}
		_, f, ok := oracleForest(cs, w)
		if !ok || r.Trunc {
			c.Count("skipped, forest too large", 1)
			return
		}
		key := ""
		if len(ids) > 0 {
			key = cs.U.ID + "|" + strings.Join(ids, " ")
		}
		c.Eval(key)
		c.Count("SPPF nodes", len(r.SPPF))
		if msg := judgeSPPF(cs, r, w, f); msg != "" {
			c.Violate("sppf", msg, witness(cs, j))
			return
		}
		if r.Before != r.After {
			c.Violate("sppf-mutates", "building the SPPF changed the parse set", witness(cs, j, "before", r.Before, "after", r.After))
			return
		}
		if msg := judgeDot(r); msg != "" {
			c.Violate("dot", msg, witness(cs, j, "dot", r.Dot))
		}
		c.Count("DOT files read", 1)
		if i%499 == 0 {
			c.Sample(witness(cs, j, "nodes", len(r.SPPF)))
		}
	})
	c.Need("SPPF nodes", 5000)
}

// judgeDot checks that the DOT file describes exactly the nodes and edges of
// the SPPF.
func judgeDot(r *ev.Res) string {
	nodes, edges, err := parseDot(r.Dot)
	if err != nil {
		return "DOT file: " + err.Error()
	}
	wantN := map[string]bool{}
	wantE := map[string]bool{}
	lab := func(i int) string { return dotUnquote(r.SPPF[i].Lab) }
	for i, nd := range r.SPPF {
		wantN[lab(i)] = true
		for _, ch := range nd.Ch {
			if ch >= 0 {
				wantE[lab(i)+" -> "+lab(ch)] = true
			}
		}
	}
	if m, x := diffSets(nodes, wantN); len(m)+len(x) > 0 {
		return fmt.Sprintf("DOT nodes: missing %q, extra %q", m, x)
	}
	if m, x := diffSets(edges, wantE); len(m)+len(x) > 0 {
		return fmt.Sprintf("DOT edges: missing %q, extra %q", m, x)
	}
	return ""
}

func dotUnquote(s string) string {
	toks, err := dotTokens(s)
	if err != nil || len(toks) != 1 {
		return s
	}
	return toks[0].s
}

type dotTok struct {
	s      string
	quoted bool
}

func dotTokens(src string) ([]dotTok, error) {
	var out []dotTok
	rs := []rune(src)
	for i := 0; i < len(rs); {
		r := rs[i]
		switch {
		case r == ' ' || r == '\n' || r == '\t' || r == '\r':
			i++
		case r == '"':
			j := i + 1
			var b strings.Builder
			for ; j < len(rs) && rs[j] != '"'; j++ {
				if rs[j] == '\\' && j+1 < len(rs) && rs[j+1] == '"' {
					j++
				}
				b.WriteRune(rs[j])
			}
			if j >= len(rs) {
				return nil, fmt.Errorf("unterminated string")
			}
			out = append(out, dotTok{b.String(), true})
			i = j + 1
		case r == '-' && i+1 < len(rs) && rs[i+1] == '>':
			out = append(out, dotTok{"->", false})
			i += 2
		case strings.ContainsRune("{}[];,=", r):
			out = append(out, dotTok{string(r), false})
			i++
		default:
			j := i
			for j < len(rs) && (rs[j] == '_' || rs[j] >= '0' && rs[j] <= '9' || rs[j] >= 'a' && rs[j] <= 'z' || rs[j] >= 'A' && rs[j] <= 'Z' || rs[j] >= 0x80) {
				j++
			}
			if j == i {
				return nil, fmt.Errorf("unexpected character %q", string(r))
			}
			out = append(out, dotTok{string(rs[i:j]), false})
			i = j
		}
	}
	return out, nil
}

// parseDot reads a digraph: statements are node lists and edges, optionally
// separated by ; or , and followed by attribute lists.
func parseDot(src string) (nodes, edges map[string]bool, err error) {
	ts, err := dotTokens(src)
	if err != nil {
		return nil, nil, err
	}
	nodes, edges = map[string]bool{}, map[string]bool{}
	if len(ts) < 4 || ts[0].s != "digraph" || ts[2].s != "{" || ts[len(ts)-1].s != "}" {
		return nil, nil, fmt.Errorf("not a digraph")
	}
	ts = ts[3 : len(ts)-1]
	isID := func(t dotTok) bool { return t.quoted || !strings.Contains("{}[];,=->", t.s) }
	for i := 0; i < len(ts); {
		t := ts[i]
		switch {
		case isID(t):
			nodes[t.s] = true
			i++
			for i+1 < len(ts) && !ts[i].quoted && ts[i].s == "->" {
				if !isID(ts[i+1]) {
					return nil, nil, fmt.Errorf("edge to %q", ts[i+1].s)
				}
				edges[t.s+" -> "+ts[i+1].s] = true
				nodes[ts[i+1].s] = true
				t = ts[i+1]
				i += 2
			}
		case t.s == ";" || t.s == ",":
			i++
		case t.s == "[":
			for i < len(ts) && ts[i].s != "]" {
				i++
			}
			i++
		default:
			return nil, nil, fmt.Errorf("unexpected %q", t.s)
		}
	}
	return
}

/*** C05 errors ***/

func init() { checks["C05"] = checkC05 }

func lineCol(in []rune, off int) (ln, col int) {
	ln, col = 1, 1
	for _, r := range in[:off] {
		switch r {
		case '\n':
			ln, col = ln+1, 1
		case '\t':
			col += 4
		default:
			col++
		}
	}
	return
}

func checkC05(c *Check) {
	c.rule = "a case is a (grammar, non-sentence) pair with its reported errors; non-trivial if at least one token precedes the first non-viable one"
	c.assume = []string{"viable prefixes and the expected sets FIRST(rest of alternate) FOLLOW(head) come from independent reference computations over the recorded tokens"}
	run := runGLL(c, gllPlan{nGram: c.N(200, 800), exMax: c.N(80, 200), nSent: c.N(15, 40), nMut: c.N(60, 150), nRand: 15, maxLen: c.N(12, 20), ops: "e", long: longSizes(c),
		keep: func(cs *gcase, w []int) bool { ok, _ := cs.C.Verdict(cs.LR, w); return !ok }})
	ffs := map[*gcase]*FirstFollow{}
	for _, cs := range run.cases {
		ffs[cs] = cs.C.FirstFollow()
	}
	parallel(len(run.jobs), func(i int) {
		cs, j, r := run.meta[i].cs, run.jobs[i], run.res[i]
		if crashed(c, cs, j, r) {
			return
		}
		ids := tokIDs(r)
		w := cs.C.Encode(ids)
		ok, k := cs.C.Verdict(cs.LR, w)
		if ok {
			return
		}
		key := ""
		if k > 0 {
			key = cs.U.ID + "|" + strings.Join(ids, " ")
		}
		c.Eval(key)
		bad := func(format string, a ...interface{}) {
			c.Violate("errors", fmt.Sprintf(format, a...), witness(cs, j, "errors", r.Errs))
		}
		if r.OK {
			bad("a parse set is returned for a non-sentence")
			return
		}
		if len(r.Errs) == 0 {
			bad("no error is reported")
			return
		}
		c.Count("errors judged", len(r.Errs))
		in := []rune(j.In)
		ff := ffs[cs]
		for n, e := range r.Errs {
			if e.TIdx < 0 {
				bad("error %d names a token that is not in the token stream", n)
				return
			}
			if n == 0 && e.TIdx != k {
				bad("the first error is at token %d but the first non-viable token is %d", e.TIdx, k)
				return
			}
			if n > 0 && e.TIdx > r.Errs[n-1].TIdx {
				bad("errors are not sorted by descending input position")
				return
			}
			tk := r.Toks[e.TIdx]
			if tk.ID != e.ID || tk.L != e.L || tk.R != e.R {
				bad("error %d: token %s[%d,%d]", n, e.ID, e.L, e.R)
				return
			}
			if ln, col := lineCol(in, e.L); ln != e.Ln || col != e.Col {
				bad("error %d is reported at %d:%d but its token is at %d:%d", n, e.Ln, e.Col, ln, col)
				return
			}
			if len(e.Exp) == 0 {
				bad("error %d expects nothing", n)
				return
			}
			for _, x := range e.Exp {
				if strings.HasPrefix(x, e.ID+"/") || x == e.ID {
					bad("error %d expects the token it was reported for: %s", n, x)
					return
				}
			}
			nt, ok := cs.C.NIdx[e.NT]
			if !ok || e.Alt >= len(cs.C.Prods[nt]) || e.Pos > len(cs.C.Prods[nt][e.Alt]) {
				bad("error %d names an unknown grammar slot", n)
				return
			}
			// the expected set is that of the slot, or of all alternates of the
			// nonterminal at its start, or end of input after a complete parse
			exp := map[string]bool{}
			for _, x := range ff.SlotExpected(nt, e.Alt, e.Pos) {
				exp[x] = true
			}
			got := map[string]bool{}
			for _, x := range e.Exp {
				got[strings.SplitN(x, "/", 2)[0]] = true
			}
			if eqSets(got, exp) {
				continue
			}
			all := map[string]bool{}
			for a := range cs.C.Prods[nt] {
				for _, x := range ff.SlotExpected(nt, a, 0) {
					all[x] = true
				}
			}
			if e.Pos == 0 && eqSets(got, all) {
				continue
			}
			if nt == 0 && e.Pos == len(cs.C.Prods[nt][e.Alt]) && len(got) == 1 && got[EOFTerm] {
				continue
			}
			bad("error %d: expected tokens %v at %s alternate %d position %d, should be %v", n, e.Exp, e.NT, e.Alt, e.Pos, sortedStrs(exp))
			return
		}
		if i%997 == 0 {
			c.Sample(witness(cs, j, "first error", r.Errs[0]))
		}
	})
	c.Need("errors judged", 2000)
}

func eqSets(a, b map[string]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

package main

import (
	"fmt"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

/*** C21: the reports of the LR(1) construction ***/

func init() { checks["C21"] = checkC21 }

type repState struct {
	items map[lrItem]bitset
	trans map[int]int // symbol (NT: ^index) to state
	acts  map[int]string
}

// lrNames has the names of the items, symbols and terminals in the reports.
type lrNames struct {
	l    *LR
	item map[string]lrItem
	sym  map[string]int // terminals, "$" included, and nonterminals as ^index
}

func newLRNames(g *Grammar, l *LR) *lrNames {
	n := &lrNames{l, map[string]lrItem{}, map[string]int{}}
	for t, id := range l.c.Terms {
		n.sym[id] = t
	}
	n.sym[EOFTerm] = l.eof
	name := func(x int) string {
		if x >= 0 {
			return l.c.Terms[x]
		}
		return g.Rules[^x].Head
	}
	for i, ru := range g.Rules {
		n.sym[ru.Head] = ^i
	}
	for p, pr := range l.prods {
		head := startHead(g)
		if pr.nt >= 0 {
			head = g.Rules[pr.nt].Head
		}
		for dot := 0; dot <= len(pr.body); dot++ {
			var b strings.Builder
			b.WriteString(head + " :")
			for i, x := range pr.body {
				b.WriteString(" ")
				if i == dot {
					b.WriteString("•")
				}
				b.WriteString(name(x))
			}
			if dot == len(pr.body) {
				b.WriteString("•")
			}
			n.item[b.String()] = lrItem{p, dot}
		}
	}
	return n
}

var (
	reStateHead = regexp.MustCompile(`^S(\d+) \{$`)
	reTransLine = regexp.MustCompile(`^\t(\S+) -> (\d+)$`)
	reActLine   = regexp.MustCompile(`^\t(\S+): (accept|Shift\(\d+\)|Reduce\(\d+\))$`)
)

// parseStates reads LR1_states.txt.
func (n *lrNames) parseStates(text string) ([]*repState, string) {
	var out []*repState
	var cur *repState
	mode := ""
	for ln, line := range strings.Split(text, "\n") {
		bad := func(s string) ([]*repState, string) {
			return nil, fmt.Sprintf("line %d %q: %s", ln+1, line, s)
		}
		switch {
		case reStateHead.MatchString(line):
			m := reStateHead.FindStringSubmatch(line)
			if m[1] != fmt.Sprint(len(out)) {
				return bad(fmt.Sprintf("the number of the state should be %d", len(out)))
			}
			cur = &repState{map[lrItem]bitset{}, map[int]int{}, map[int]string{}}
			out = append(out, cur)
			mode = "items"
		case cur == nil:
			if line != "" {
				return bad("no state")
			}
		case mode == "items" && line == "}":
			mode = "after"
		case line == "Transitions:":
			mode = "trans"
		case line == "Actions:":
			mode = "acts"
		case line == "":
			mode = ""
		case mode == "items":
			i := strings.LastIndex(line, " {")
			// a literal may be "{", which the lookaheads then contain
			for i >= 0 {
				if _, ok := n.item[strings.TrimSpace(line[:i])]; ok {
					break
				}
				i = strings.LastIndex(line[:i], " {")
			}
			if i < 0 || !strings.HasSuffix(line, "}") {
				return bad("unknown item")
			}
			it := n.item[strings.TrimSpace(line[:i])]
			if cur.items[it] != nil {
				return bad("the item is listed twice")
			}
			la := newBits(n.l.eof)
			if in := line[i+2 : len(line)-1]; in != "" {
				for _, t := range strings.Split(in, ", ") {
					x, ok := n.sym[t]
					if !ok || x < 0 || la.has(x) {
						return bad("wrong or repeated lookahead " + t)
					}
					la.set(x)
				}
			}
			cur.items[it] = la
		case mode == "trans":
			m := reTransLine.FindStringSubmatch(line)
			if m == nil {
				return bad("not a transition")
			}
			x, ok := n.sym[m[1]]
			if _, dup := cur.trans[x]; !ok || dup {
				return bad("wrong or repeated symbol")
			}
			cur.trans[x], _ = strconv.Atoi(m[2])
		case mode == "acts":
			m := reActLine.FindStringSubmatch(line)
			if m == nil {
				return bad("not an action")
			}
			x, ok := n.sym[m[1]]
			if _, dup := cur.acts[x]; !ok || x < 0 || dup {
				return bad("wrong or repeated symbol")
			}
			cur.acts[x] = m[2]
		default:
			return bad("unexpected line")
		}
	}
	return out, ""
}

func (n *lrNames) showItem(it lrItem) string {
	for s, i := range n.item {
		if i == it {
			return s
		}
	}
	return "?"
}

func (n *lrNames) showSym(x int) string {
	for s, i := range n.sym {
		if i == x {
			return s
		}
	}
	return "?"
}

func subset(a, b bitset) bool {
	for i := range a {
		if a[i]&^b[i] != 0 {
			return false
		}
	}
	return true
}

func equalBits(a, b bitset) bool { return subset(a, b) && subset(b, a) }

// rivals returns the actions of state s for terminal t: shift first, then the
// reductions in the order of the productions.
func (n *lrNames) rivals(s *repState, t int) (out []string) {
	if k, ok := s.trans[t]; ok {
		out = append(out, fmt.Sprintf("Shift(%d)", k))
	}
	var rs []int
	for it, la := range s.items {
		if it.dot == len(n.l.prods[it.p].body) && la.has(t) {
			rs = append(rs, it.p)
		}
	}
	sort.Ints(rs)
	for _, p := range rs {
		if p == 0 {
			out = append(out, "accept")
		} else {
			out = append(out, fmt.Sprintf("Reduce(%d)", p))
		}
	}
	return
}

// judgeStates checks the reported automaton. canonical is true for Knuth's
// construction.
func (n *lrNames) judgeStates(ss []*repState, canonical bool) string {
	l := n.l
	if len(ss) == 0 {
		return "no states"
	}
	for si, s := range ss {
		kernel := lrState{}
		want := map[int]bool{}
		for it, la := range s.items {
			if it.dot > 0 || it.p == 0 {
				kernel[it] = append(bitset(nil), la...)
			}
			body := l.prods[it.p].body
			if it.dot < len(body) {
				want[body[it.dot]] = true
			}
		}
		closed := lrState{}
		for k, v := range kernel {
			closed[k] = append(bitset(nil), v...)
		}
		l.closure(closed)
		for it, la := range closed {
			if s.items[it] == nil {
				return fmt.Sprintf("state %d: the item %s is missing", si, n.showItem(it))
			}
			if !equalBits(la, s.items[it]) {
				return fmt.Sprintf("state %d: the lookaheads of %s are not those of the closure", si, n.showItem(it))
			}
		}
		for it := range s.items {
			if closed[it] == nil {
				return fmt.Sprintf("state %d: the item %s does not belong to the closure", si, n.showItem(it))
			}
		}
		for x := range want {
			to, ok := s.trans[x]
			if !ok || to < 0 || to >= len(ss) {
				return fmt.Sprintf("state %d: no transition with %s", si, n.showSym(x))
			}
			// the items after the dot has moved are the kernel of the target
			k := 0
			for it, la := range s.items {
				body := l.prods[it.p].body
				if it.dot < len(body) && body[it.dot] == x {
					k++
					la1 := ss[to].items[lrItem{it.p, it.dot + 1}]
					if la1 == nil || !subset(la, la1) || canonical && !equalBits(la, la1) {
						return fmt.Sprintf("state %d: after %s, state %d does not have the items of the moved dot", si, n.showSym(x), to)
					}
				}
			}
			for it := range ss[to].items {
				if it.dot > 0 {
					k--
				}
			}
			if k != 0 {
				return fmt.Sprintf("state %d: after %s, state %d has other items than those of the moved dot", si, n.showSym(x), to)
			}
		}
		for x := range s.trans {
			if !want[x] {
				return fmt.Sprintf("state %d: transition with %s, which no item expects", si, n.showSym(x))
			}
		}
		for t := 0; t <= l.eof; t++ {
			rs := n.rivals(s, t)
			w := ""
			if len(rs) > 0 {
				w = rs[0]
			}
			if s.acts[t] != w {
				return fmt.Sprintf("state %d: the action for %s is %q, not %q", si, n.showSym(t), s.acts[t], w)
			}
		}
	}
	// walk the canonical automaton and the reported one together
	type pair struct{ q, p int }
	seen := map[pair]bool{{0, 0}: true}
	todo := []pair{{0, 0}}
	img, pre := map[int]int{}, map[int]int{}
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		a, b := l.Items[x.q], ss[x.p].items
		if len(a) != len(b) {
			return fmt.Sprintf("state %d has other items than the canonical state it stands for", x.p)
		}
		for it, la := range a {
			if b[it] == nil || !subset(la, b[it]) || canonical && !equalBits(la, b[it]) {
				return fmt.Sprintf("state %d: %s does not have the lookaheads of the canonical state it stands for", x.p, n.showItem(it))
			}
		}
		if canonical {
			if y, ok := img[x.q]; ok && y != x.p {
				return fmt.Sprintf("states %d and %d are the same canonical state", y, x.p)
			}
			if y, ok := pre[x.p]; ok && y != x.q {
				return fmt.Sprintf("state %d stands for two canonical states", x.p)
			}
			img[x.q], pre[x.p] = x.p, x.q
		}
		next := func(sym, q int) {
			y := pair{q, ss[x.p].trans[sym]}
			if !seen[y] {
				seen[y] = true
				todo = append(todo, y)
			}
		}
		for sym, q := range l.Goto[x.q] {
			next(sym, q)
		}
		for sym, as := range l.Act[x.q] {
			if sym != l.eof && as[0].kind == 1 {
				next(sym, as[0].arg)
			}
		}
	}
	if canonical && len(ss) != len(l.Items) {
		return fmt.Sprintf("%d states, the canonical collection has %d", len(ss), len(l.Items))
	}
	if len(ss) > len(l.Items) {
		return fmt.Sprintf("%d states, more than the %d of the canonical collection", len(ss), len(l.Items))
	}
	// no lookahead beyond those of the canonical states with the same core
	lalr := map[string]map[lrItem]bitset{}
	core := func(m map[lrItem]bitset) string {
		var ks []string
		for it := range m {
			ks = append(ks, fmt.Sprint(it.p, ".", it.dot))
		}
		sort.Strings(ks)
		return strings.Join(ks, " ")
	}
	for _, q := range l.Items {
		k := core(q)
		if lalr[k] == nil {
			lalr[k] = map[lrItem]bitset{}
		}
		for it, la := range q {
			if lalr[k][it] == nil {
				lalr[k][it] = newBits(l.eof)
			}
			lalr[k][it].or(la)
		}
	}
	for si, s := range ss {
		u := lalr[core(s.items)]
		if u == nil {
			return fmt.Sprintf("state %d has the core of no canonical state", si)
		}
		for it, la := range s.items {
			if !subset(la, u[it]) {
				return fmt.Sprintf("state %d: %s has a lookahead of no canonical state with the same core", si, n.showItem(it))
			}
		}
	}
	return ""
}

var reConfLine = regexp.MustCompile(`^ *(\d+)\) S(\d+): (\S+): \{(.*)\}$`)

// judgeConflicts compares LR1_conflicts.txt with the reported automaton.
func (n *lrNames) judgeConflicts(text string, ss []*repState) (int, string) {
	want := map[string]bool{}
	for si, s := range ss {
		for t := 0; t <= n.l.eof; t++ {
			if rs := n.rivals(s, t); len(rs) > 1 {
				sort.Strings(rs)
				want[fmt.Sprintf("S%d %s %s", si, n.showSym(t), strings.Join(rs, ","))] = true
			}
		}
	}
	if text == "" && len(want) == 0 {
		return 0, ""
	}
	lines := strings.Split(strings.TrimRight(text, "\n"), "\n")
	if !strings.HasPrefix(lines[0], fmt.Sprint(len(want))+" ") {
		return 0, fmt.Sprintf("%q, but the states have %d conflicts", lines[0], len(want))
	}
	got := map[string]bool{}
	for i, l := range lines[1:] {
		m := reConfLine.FindStringSubmatch(l)
		if m == nil || m[1] != fmt.Sprint(i+1) {
			return 0, fmt.Sprintf("line %q is not conflict %d", l, i+1)
		}
		var as []string
		for _, a := range strings.Split(m[4], ",") {
			as = append(as, strings.TrimSpace(a))
		}
		sort.Strings(as)
		k := fmt.Sprintf("S%s %s %s", m[2], m[3], strings.Join(as, ","))
		if got[k] {
			return 0, "listed twice: " + k
		}
		got[k] = true
	}
	if miss, extra := diffSets(got, want); len(miss)+len(extra) > 0 {
		return 0, fmt.Sprintf("conflicts missing: %v, wrong: %v", miss, extra)
	}
	return len(want), ""
}

var reItemLine = regexp.MustCompile(`(?m)^(\d+): (.*)(?:\n\tnext: (\d+))?\n`)

// judgeItems compares CFG_items.txt with the LR(0) items.
func (n *lrNames) judgeItems(text string) string {
	num := map[string]lrItem{}
	next := map[lrItem]string{}
	for i, m := range reItemLine.FindAllStringSubmatch(text, -1) {
		it, ok := n.item[m[2]]
		if !ok || m[1] != fmt.Sprint(i) {
			return fmt.Sprintf("%q is not item %d", m[0], i)
		}
		if _, dup := next[it]; dup {
			return fmt.Sprintf("the item %s is listed twice", m[2])
		}
		num[m[1]], next[it] = it, m[3]
	}
	if len(num) != len(n.item) {
		return fmt.Sprintf("%d items, not %d", len(num), len(n.item))
	}
	for it, k := range next {
		last := it.dot == len(n.l.prods[it.p].body)
		if last && k != "" || !last && (k == "" || num[k] != lrItem{it.p, it.dot + 1}) {
			return fmt.Sprintf("the item after %s is %q", n.showItem(it), k)
		}
	}
	return ""
}

func checkC21(c *Check) {
	c.rule = "a case is a (grammar, construction) pair; non-trivial if the report has more than two states"
	c.assume = []string{"reference: the canonical LR(1) collection of an oracle; PGM states must have the core and at least the lookaheads of every canonical state they stand for, no lookahead of none, and be closed"}
	r := NewRng(c.Seed, c.Prop)
	gs, ls := lrGrammars(r, c.N(1000, 8000), func(l *LR) bool {
		// items of duplicate alternates have the same name
		for _, alts := range l.c.Prods {
			seen := map[string]bool{}
			for _, a := range alts {
				if k := fmt.Sprint(a); seen[k] {
					return false
				} else {
					seen[k] = true
				}
			}
		}
		return true
	})
	hs, hl := hugeLR(r)
	gs, ls = append(gs, hs...), append(ls, hl...)
	e := NewEnv()
	parallel(2*len(gs), func(i int) {
		g, l, mode := gs[i/2], ls[i/2], []string{"knuth", "pager"}[i%2]
		d := fmt.Sprintf("%s/s%d", e.Dir, i)
		defer os.RemoveAll(d)
		writeFile(d+"/g.txt", g.Text("m/x"))
		stale := i%3 == 0
		if stale { // the reports of another run
			for _, f := range []string{"LR1_states.txt", "LR1_conflicts.txt", "CFG_items.txt"} {
				writeFile(d+"/out/"+f, "S0\nS1 : •\n"+strings.Repeat("1 conflict\n", 500))
			}
		}
		rr := e.RunGogll(d, "-"+mode, "-v", "-resolve_conflicts", "-o", d+"/out", d+"/g.txt")
		st, err := os.ReadFile(d + "/out/LR1_states.txt")
		w := map[string]interface{}{"grammar": g.Text("m/x"), "mode": mode, "exit": rr.Code, "output": trunc(rr.Out, 400)}
		if rr.Code != 0 || err != nil {
			c.Violate("report", "no LR1_states.txt for a valid grammar", w)
			return
		}
		n := newLRNames(g, l)
		ss, msg := n.parseStates(string(st))
		w["states"] = trunc(string(st), 1500)
		if msg != "" {
			c.Violate("states", msg, w)
			return
		}
		key := ""
		if len(ss) > 2 {
			key = fmt.Sprint(i)
		}
		c.Eval(key)
		if msg := n.judgeStates(ss, mode == "knuth"); msg != "" {
			c.Violate("states", msg, w)
			return
		}
		c.Count("states compared", len(ss))
		if mode == "pager" && len(ss) < len(l.Items) {
			c.Count("automata with merged states", 1)
		}
		cf, _ := os.ReadFile(d + "/out/LR1_conflicts.txt")
		k, msg := n.judgeConflicts(string(cf), ss)
		if msg != "" {
			w["conflicts"] = trunc(string(cf), 800)
			c.Violate("conflicts", msg, w)
		}
		c.Count("conflicts compared", k)
		ci, _ := os.ReadFile(d + "/out/CFG_items.txt")
		if msg := n.judgeItems(string(ci)); msg != "" {
			w["items"] = trunc(string(ci), 800)
			c.Violate("items", msg, w)
		}
		if i%301 == 0 {
			c.Sample(map[string]interface{}{"grammar": g.Text("m/x"), "mode": mode, "states": len(ss), "canonical": len(l.Items), "conflicts": k})
		}
	})
	c.Need("states compared", 5000)
	c.Need("automata with merged states", 50)
	c.Need("conflicts compared", 300)
}

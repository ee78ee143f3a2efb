package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

/*** C22: lexfsa.txt is the automaton of the tokens ***/

func init() { checks["C22"] = checkC22 }

type fsaEdge struct {
	match func(rune) bool
	text  string
	to    int
}

type fsaState struct {
	no    int
	done  []string // IDs of the rules with the dot at the end
	items []string
	edges []fsaEdge
}

// eventParser reads an event of lexfsa.txt.
type eventParser struct {
	rs []rune
	i  int
}

func (p *eventParser) has(s string) bool {
	if strings.HasPrefix(string(p.rs[p.i:]), s) {
		p.i += len([]rune(s))
		return true
	}
	return false
}

func (p *eventParser) str() ([]rune, bool) {
	if !p.has(`"`) {
		return nil, false
	}
	from := p.i
	for p.i < len(p.rs) && p.rs[p.i] != '"' {
		if p.rs[p.i] == '\\' {
			p.i++
		}
		p.i++
	}
	if p.i >= len(p.rs) {
		return nil, false
	}
	body := string(p.rs[from:p.i])
	p.i++
	if s, err := strconv.Unquote(`"` + body + `"`); err == nil {
		return []rune(s), true
	}
	return []rune(stripEscape(body)), true
}

func (p *eventParser) event() (func(rune) bool, bool) {
	switch {
	case p.has("("):
		a, ok := p.event()
		if !ok || !p.has(" & ") {
			return nil, false
		}
		b, ok := p.event()
		if !ok || !p.has(")") {
			return nil, false
		}
		return func(r rune) bool { return a(r) && b(r) }, true
	case p.has("."):
		return func(rune) bool { return true }, true
	case p.has("any "):
		s, ok := p.str()
		return (&LX{Op: LAny, Str: s}).matchRune, ok
	case p.has("not "):
		s, ok := p.str()
		return (&LX{Op: LNot, Str: s}).matchRune, ok
	case p.has(`'[\p`):
		x := &LX{Op: LSet}
		p.i -= 2
		for {
			minus := p.has("-")
			if !p.has(`\p{`) {
				return nil, false
			}
			from := p.i
			for p.i < len(p.rs) && p.rs[p.i] != '}' {
				p.i++
			}
			if p.i >= len(p.rs) {
				return nil, false
			}
			x.Set = append(x.Set, SetSpec{minus, string(p.rs[from:p.i])})
			p.i++
			if p.has("]'") {
				return x.matchRune, true
			}
			if !p.has(",") {
				return nil, false
			}
		}
	case p.has("'"):
		n := 1
		if p.i < len(p.rs) && p.rs[p.i] == '\\' {
			n = 2
		}
		if p.i+n >= len(p.rs) || p.rs[p.i+n] != '\'' {
			return nil, false
		}
		c := []rune(stripEscape(string(p.rs[p.i : p.i+n])))
		p.i += n + 1
		return (&LX{Op: LChar, R: c[0]}).matchRune, len(c) == 1
	}
	for _, n := range []string{"letter", "upcase", "lowcase", "number", "space"} {
		if p.has(n) {
			return (&LX{Op: LClass, Name: n}).matchRune, true
		}
	}
	return nil, false
}

func parseFSA(text string, ids []string) ([]*fsaState, error) {
	// the longest ID first: IDs may be prefixes of each other
	ids = append([]string(nil), ids...)
	sort.Slice(ids, func(i, j int) bool { return len(ids[i]) > len(ids[j]) })
	var states []*fsaState
	var s *fsaState
	trans := false
	for _, l := range strings.Split(text, "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		if l[0] == 'S' && strings.HasSuffix(l, ":") {
			n, err := strconv.Atoi(l[1 : len(l)-1])
			if err != nil {
				return nil, fmt.Errorf("line %q", l)
			}
			s, trans = &fsaState{no: n}, false
			states = append(states, s)
			continue
		}
		if s == nil {
			return nil, fmt.Errorf("line %q before the first state", l)
		}
		if strings.TrimSpace(l) == "Transitions:" {
			trans = true
			continue
		}
		t := strings.TrimLeft(l, " ")
		if trans {
			k := strings.LastIndex(t, " -> S")
			if k < 0 {
				return nil, fmt.Errorf("transition %q", l)
			}
			to, err := strconv.Atoi(strings.TrimSpace(t[k+5:]))
			p := &eventParser{rs: []rune(t[:k])}
			m, ok := p.event()
			if err != nil || !ok || p.i != len(p.rs) {
				return nil, fmt.Errorf("transition %q", l)
			}
			s.edges = append(s.edges, fsaEdge{m, t[:k], to})
			continue
		}
		s.items = append(s.items, t)
		found := false
		for _, id := range ids {
			if strings.HasPrefix(t, id+" : ") {
				found = true
				if strings.HasSuffix(strings.TrimRight(t, " "), "•") {
					s.done = append(s.done, id)
				}
				break
			}
		}
		if !found {
			return nil, fmt.Errorf("item %q of no token", l)
		}
	}
	return states, nil
}

func checkC22(c *Check) {
	c.rule = "a case is a pair (state of the reported automaton, states of the reference automata) reached on some input; non-trivial if some token can still match"
	c.assume = []string{"the reference is one NFA per token and literal, evaluating every character class by its definition", "as in the generated lexer, the first listed transition that matches is taken", "characters are the ones the definitions mention and a fixed sample of Unicode"}
	r := NewRng(c.Seed, c.Prop)
	e := NewEnv()
	gs := curatedLex()
	for i := 0; i < c.N(900, 9000); i++ {
		gs = append(gs, randLexGrammar(r.Fork(fmt.Sprint(i))))
	}
	gs = append([]*Grammar{hugeLex(r.Fork("huge"))}, gs...) // the slowest first
	maxPairs := c.N(600, 4000)
	parallel(len(gs), func(i int) {
		g := gs[i]
		rr := r.Fork(fmt.Sprint("run", i))
		o := NewLexOracle(g)
		for _, id := range o.ids {
			if strings.Contains(id, " : ") {
				return
			}
		}
		d := filepath.Join(e.Dir, fmt.Sprintf("f%d", i))
		defer os.RemoveAll(d)
		writeFile(d+"/g.txt", g.Text("m/x"))
		flags := pick(rr, [][]string{{"-v"}, {"-v", "-knuth", "-resolve_conflicts"}, {"-v", "-gll"}})
		res := e.RunGogll(d, append(flags, "-o", d, d+"/g.txt")...)
		wit := map[string]interface{}{"grammar": g.Text("m/x"), "flags": flags, "output": trunc(res.Out, 300)}
		if res.Crash {
			c.Violate("crash", "gogll crashed", wit)
			return
		}
		b, err := os.ReadFile(d + "/lexfsa.txt")
		if err != nil {
			c.Violate("missing", "no report lexfsa.txt", wit)
			return
		}
		bad := func(kind, f string, args ...interface{}) {
			wit["report"] = trunc(string(b), 4000)
			c.Violate(kind, fmt.Sprintf(f, args...), wit)
		}
		states, err := parseFSA(string(b), o.ids)
		if err != nil {
			bad("format", "lexfsa.txt: not understood: %v", err)
			return
		}
		by := map[int]*fsaState{}
		sigs := map[string]int{}
		for _, s := range states {
			if by[s.no] != nil {
				bad("states", "lexfsa.txt: two states S%d", s.no)
				return
			}
			by[s.no] = s
			it := append([]string(nil), s.items...)
			sort.Strings(it)
			sig := strings.Join(it, "\n")
			if o, ok := sigs[sig]; ok {
				bad("states", "lexfsa.txt: S%d and S%d have the same items", o, s.no)
				return
			}
			sigs[sig] = s.no
			c.Count("states", 1)
			c.Count("transitions", len(s.edges))
		}
		if by[0] == nil {
			bad("states", "lexfsa.txt: no state S0")
			return
		}
		// alphabet
		m := map[rune]bool{}
		for _, l := range g.Lex {
			l.X.mentioned(m)
		}
		for k, id := range o.ids {
			if o.lit[k] {
				for _, ch := range id {
					m[ch] = true
				}
			}
		}
		for _, ch := range lexAlpha {
			m[ch] = true
		}
		for _, ch := range moreAlpha {
			m[ch] = true
		}
		for k := 0; k < 20; k++ {
			if ch := rune(rr.Intn(0x3000)); ch < 0xd800 {
				m[ch] = true
			}
		}
		var alpha []rune
		for ch := range m {
			alpha = append(alpha, ch)
		}
		sort.Slice(alpha, func(i, j int) bool { return alpha[i] < alpha[j] })
		type conf struct {
			s    int
			cur  []map[int]bool
			path string
		}
		key := func(f conf) string {
			var w strings.Builder
			fmt.Fprint(&w, f.s)
			for _, m := range f.cur {
				var ks []int
				for k := range m {
					ks = append(ks, k)
				}
				sort.Ints(ks)
				fmt.Fprint(&w, ks)
			}
			return w.String()
		}
		f0 := conf{0, make([]map[int]bool, len(o.nfas)), ""}
		for k, n := range o.nfas {
			f0.cur[k] = map[int]bool{}
			for _, s := range n.closed[n.start] {
				f0.cur[k][s] = true
			}
		}
		seen := map[string]bool{key(f0): true}
		reached := map[int]bool{}
		todo := []conf{f0}
		for n := 0; n < len(todo) && n < maxPairs; n++ {
			f := todo[n]
			s := by[f.s]
			reached[f.s] = true
			c.Eval(fmt.Sprintf("%d/%d", i, n))
			var want []string
			for k, nf := range o.nfas {
				if f.cur[k][nf.final] {
					want = append(want, o.ids[k])
				}
			}
			if miss, extra := multisetDiff(want, s.done); len(miss)+len(extra) > 0 {
				bad("accept", "lexfsa.txt: after %q (S%d) the completed tokens are %q but should be %q", f.path, f.s, s.done, want)
				return
			}
			if len(want) > 0 {
				c.Count("accepting states compared", 1)
			}
			for _, ch := range alpha {
				next := conf{-1, make([]map[int]bool, len(o.nfas)), f.path + string(ch)}
				alive := false
				for k, nf := range o.nfas {
					if len(f.cur[k]) > 0 {
						next.cur[k] = nf.step(f.cur[k], ch)
						alive = alive || len(next.cur[k]) > 0
					}
				}
				for _, ed := range s.edges {
					if ed.match(ch) {
						next.s = ed.to
						break
					}
				}
				c.Count("steps compared", 1)
				if alive != (next.s >= 0) {
					bad("step", "lexfsa.txt: after %q, %q (S%d) leads to S%d, some token can go on: %v", f.path, ch, f.s, next.s, alive)
					return
				}
				if !alive {
					continue
				}
				if by[next.s] == nil {
					bad("states", "lexfsa.txt: no state S%d", next.s)
					return
				}
				if kk := key(next); !seen[kk] {
					seen[kk] = true
					todo = append(todo, next)
				}
			}
		}
		if len(todo) <= maxPairs {
			c.Count("automata compared completely", 1)
		}
		// every state is listed as the target of a transition
		lead := map[int]bool{0: true}
		for _, s := range states {
			for _, ed := range s.edges {
				if by[ed.to] == nil {
					bad("states", "lexfsa.txt: no state S%d", ed.to)
					return
				}
				if s.no != ed.to {
					lead[ed.to] = true
				}
			}
		}
		for _, s := range states {
			if !lead[s.no] {
				bad("states", "lexfsa.txt: nothing leads to S%d", s.no)
				return
			}
		}
		c.Count("states reached", len(reached))
		if i%97 == 0 {
			c.Sample(wit)
		}
	})
	c.Need("steps compared", 100000)
	c.Need("accepting states compared", 1000)
	c.Need("automata compared completely", 100)
}

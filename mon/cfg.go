package main

import "sort"

/*** Reference context-free machinery, independent of the code under test ***/

// CFG is a grammar over integers: symbols >= 0 are terminals, < 0 are
// nonterminals (^sym is the index into Prods).
type CFG struct {
	G     *Grammar
	Prods [][][]int
	Terms []string          // terminal ids
	Val   map[string]string // values of the literals by id
	TIdx  map[string]int
	NIdx  map[string]int
}

const EOFTerm = "$"

func NewCFG(g *Grammar) *CFG {
	g.markQuoted()
	c := &CFG{G: g, TIdx: map[string]int{}, NIdx: g.RuleIdx(), Val: map[string]string{}}
	for _, r := range g.Rules {
		var alts [][]int
		for _, a := range r.Alts {
			b := make([]int, 0, len(a))
			for _, s := range a {
				if s.Kind == KNT {
					b = append(b, ^c.NIdx[s.Name])
				} else {
					b = append(b, c.term(s.TermID()))
					if s.Kind == KLit {
						c.Val[s.TermID()] = s.Value()
					}
				}
			}
			alts = append(alts, b)
		}
		c.Prods = append(c.Prods, alts)
	}
	return c
}

func (c *CFG) term(id string) int {
	if i, ok := c.TIdx[id]; ok {
		return i
	}
	c.TIdx[id] = len(c.Terms)
	c.Terms = append(c.Terms, id)
	return len(c.Terms) - 1
}

// Encode maps terminal ids to ints; unknown ids become fresh negative-free
// values that no production mentions.
func (c *CFG) Encode(ids []string) []int {
	w := make([]int, len(ids))
	for i, id := range ids {
		if t, ok := c.TIdx[id]; ok {
			w[i] = t
		} else {
			w[i] = 1 << 30
		}
	}
	return w
}

type bitset []uint64

func newBits(n int) bitset      { return make(bitset, (n+64)/64) }
func (b bitset) has(i int) bool { return b[i>>6]>>(uint(i)&63)&1 == 1 }
func (b bitset) set(i int)      { b[i>>6] |= 1 << (uint(i) & 63) }
func (b bitset) or(o bitset) (ch bool) {
	for i := range b {
		n := b[i] | o[i]
		if n != b[i] {
			b[i] = n
			ch = true
		}
	}
	return
}

// Spans[nt][i] is the set of j such that nt derives w[i:j].
type Spans struct {
	c    *CFG
	w    []int
	ends [][]bitset
}

func (c *CFG) Spans(w []int) *Spans {
	n := len(w)
	s := &Spans{c: c, w: w}
	s.ends = make([][]bitset, len(c.Prods))
	for nt := range s.ends {
		s.ends[nt] = make([]bitset, n+1)
		for i := range s.ends[nt] {
			s.ends[nt][i] = newBits(n + 1)
		}
	}
	for i := n; i >= 0; i-- {
		for changed := true; changed; {
			changed = false
			for nt, alts := range c.Prods {
				for _, a := range alts {
					e := s.seqEnds(a, i)
					if s.ends[nt][i].or(e) {
						changed = true
					}
				}
			}
		}
	}
	return s
}

func (s *Spans) seqEnds(a []int, i int) bitset {
	n := len(s.w)
	cur := newBits(n + 1)
	cur.set(i)
	for _, sym := range a {
		next := newBits(n + 1)
		any := false
		for p := i; p <= n; p++ {
			if !cur.has(p) {
				continue
			}
			if sym >= 0 {
				if p < n && s.w[p] == sym {
					next.set(p + 1)
					any = true
				}
			} else {
				next.or(s.ends[^sym][p])
				any = true
			}
		}
		cur = next
		if !any {
			break
		}
	}
	return cur
}

func (s *Spans) Derives(nt, i, j int) bool { return s.ends[nt][i].has(j) }
func (s *Spans) Accept() bool              { return s.Derives(0, 0, len(s.w)) }

// Splits enumerates all tuples of boundaries i=b0<=b1<=...<=bk=j such that
// symbol m of a derives w[b_m:b_m+1].
func (s *Spans) Splits(a []int, i, j int, limit int) [][]int {
	var out [][]int
	k := len(a)
	// can[m][p]: a[m:] derives w[p:j]
	can := make([]bitset, k+1)
	for m := range can {
		can[m] = newBits(len(s.w) + 1)
	}
	can[k].set(j)
	for m := k - 1; m >= 0; m-- {
		for p := i; p <= j; p++ {
			if a[m] >= 0 {
				if p < j && s.w[p] == a[m] && can[m+1].has(p+1) {
					can[m].set(p)
				}
			} else {
				for q := p; q <= j; q++ {
					if s.ends[^a[m]][p].has(q) && can[m+1].has(q) {
						can[m].set(p)
						break
					}
				}
			}
		}
	}
	if !can[0].has(i) {
		return nil
	}
	b := make([]int, 0, k+1)
	var rec func(m, p int)
	rec = func(m, p int) {
		if len(out) >= limit {
			return
		}
		b = append(b, p)
		if m == k {
			out = append(out, append([]int(nil), b...))
		} else if a[m] >= 0 {
			if p < j && s.w[p] == a[m] && can[m+1].has(p+1) {
				rec(m+1, p+1)
			}
		} else {
			for q := p; q <= j; q++ {
				if s.ends[^a[m]][p].has(q) && can[m+1].has(q) {
					rec(m+1, q)
				}
			}
		}
		b = b[:len(b)-1]
	}
	rec(0, i)
	return out
}

type NTSpan struct{ NT, L, R int }

// Packed is one derivation step of a nonterminal span.
type Packed struct {
	Alt    int
	Splits []int
}

// Forest returns, for each nonterminal span reachable from (start,0,n) in
// some derivation of w, all its packed derivations. ok is false if the limit
// on the number of packed nodes was reached.
func (s *Spans) Forest(limit int) (f map[NTSpan][]Packed, ok bool) {
	f = map[NTSpan][]Packed{}
	if !s.Accept() {
		return f, true
	}
	todo := []NTSpan{{0, 0, len(s.w)}}
	f[todo[0]] = nil
	count := 0
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for ai, a := range s.c.Prods[x.NT] {
			for _, sp := range s.Splits(a, x.L, x.R, limit) {
				count++
				if count > limit {
					return f, false
				}
				f[x] = append(f[x], Packed{ai, sp})
				for m, sym := range a {
					if sym < 0 {
						y := NTSpan{^sym, sp[m], sp[m+1]}
						if _, exist := f[y]; !exist {
							f[y] = nil
							todo = append(todo, y)
						}
					}
				}
			}
		}
	}
	return f, true
}

// ViablePrefix returns the length of the longest prefix of w that is a prefix
// of some sentence. All nonterminals must be productive.
func (s *Spans) ViablePrefix() int {
	n := len(s.w)
	type call struct{ nt, i int }
	seen := map[call]bool{{0, 0}: true}
	todo := []call{{0, 0}}
	max := 0
	for len(todo) > 0 {
		c := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, a := range s.c.Prods[c.nt] {
			cur := newBits(n + 1)
			cur.set(c.i)
			for k := 0; k <= len(a); k++ {
				next := newBits(n + 1)
				for p := c.i; p <= n; p++ {
					if !cur.has(p) {
						continue
					}
					if p > max {
						max = p
					}
					if k == len(a) {
						continue
					}
					if a[k] >= 0 {
						if p < n && s.w[p] == a[k] {
							next.set(p + 1)
						}
					} else {
						d := call{^a[k], p}
						if !seen[d] {
							seen[d] = true
							todo = append(todo, d)
						}
						next.or(s.ends[^a[k]][p])
					}
				}
				cur = next
			}
		}
	}
	return max
}

// Viable returns the set of terminals t (and EOFTerm) such that w[:n] t is
// viable, where n = len(w).
func (c *CFG) ViableNext(w []int) map[string]bool {
	out := map[string]bool{}
	s := c.Spans(w)
	if s.Accept() {
		out[EOFTerm] = true
	}
	for t, id := range c.Terms {
		w1 := append(append([]int(nil), w...), t)
		if c.Spans(w1).ViablePrefix() == len(w1) {
			out[id] = true
		}
	}
	return out
}

/*** Nullable, FIRST, FOLLOW ***/

type FirstFollow struct {
	c        *CFG
	Nullable []bool
	First    []map[int]bool
	Follow   []map[int]bool // EOF is -1
}

const eofT = -1

func (c *CFG) FirstFollow() *FirstFollow {
	f := &FirstFollow{c: c}
	n := len(c.Prods)
	f.Nullable = make([]bool, n)
	f.First = make([]map[int]bool, n)
	f.Follow = make([]map[int]bool, n)
	for i := range f.First {
		f.First[i] = map[int]bool{}
		f.Follow[i] = map[int]bool{}
	}
	for ch := true; ch; {
		ch = false
		for nt, alts := range c.Prods {
			for _, a := range alts {
				fs, nl := f.Seq(a)
				for t := range fs {
					if !f.First[nt][t] {
						f.First[nt][t] = true
						ch = true
					}
				}
				if nl && !f.Nullable[nt] {
					f.Nullable[nt] = true
					ch = true
				}
			}
		}
	}
	f.Follow[0][eofT] = true
	for ch := true; ch; {
		ch = false
		for nt, alts := range c.Prods {
			for _, a := range alts {
				for k, sym := range a {
					if sym >= 0 {
						continue
					}
					fs, nl := f.Seq(a[k+1:])
					for t := range fs {
						if !f.Follow[^sym][t] {
							f.Follow[^sym][t] = true
							ch = true
						}
					}
					if nl {
						for t := range f.Follow[nt] {
							if !f.Follow[^sym][t] {
								f.Follow[^sym][t] = true
								ch = true
							}
						}
					}
				}
			}
		}
	}
	return f
}

func (f *FirstFollow) Seq(a []int) (map[int]bool, bool) {
	out := map[int]bool{}
	for _, sym := range a {
		if sym >= 0 {
			out[sym] = true
			return out, false
		}
		for t := range f.First[^sym] {
			out[t] = true
		}
		if !f.Nullable[^sym] {
			return out, false
		}
	}
	return out, true
}

func (f *FirstFollow) id(t int) string {
	if t == eofT {
		return EOFTerm
	}
	return f.c.Terms[t]
}

func (f *FirstFollow) IDs(m map[int]bool) []string {
	var out []string
	for t := range m {
		out = append(out, f.id(t))
	}
	sort.Strings(out)
	return out
}

// SlotExpected is the set of tokens expected at slot nt: a[:pos] . a[pos:]
func (f *FirstFollow) SlotExpected(nt, alt, pos int) []string {
	fs, nl := f.Seq(f.c.Prods[nt][alt][pos:])
	if nl {
		for t := range f.Follow[nt] {
			fs[t] = true
		}
	}
	return f.IDs(fs)
}

/*** Productivity and reachability ***/

func (c *CFG) Productive() []bool {
	p := make([]bool, len(c.Prods))
	for ch := true; ch; {
		ch = false
		for nt, alts := range c.Prods {
			if p[nt] {
				continue
			}
			for _, a := range alts {
				ok := true
				for _, s := range a {
					if s < 0 && !p[^s] {
						ok = false
					}
				}
				if ok {
					p[nt] = true
					ch = true
				}
			}
		}
	}
	return p
}

func (c *CFG) Reachable() []bool {
	r := make([]bool, len(c.Prods))
	r[0] = true
	todo := []int{0}
	for len(todo) > 0 {
		nt := todo[0]
		todo = todo[1:]
		for _, a := range c.Prods[nt] {
			for _, s := range a {
				if s < 0 && !r[^s] {
					r[^s] = true
					todo = append(todo, ^s)
				}
			}
		}
	}
	return r
}

// MinLen is the length of the shortest sentence of each nonterminal and
// MinHeight the height of a lowest derivation tree (big if unproductive).
func (c *CFG) MinHeights() []int {
	const big = 1 << 20
	h := make([]int, len(c.Prods))
	for i := range h {
		h[i] = big
	}
	for ch := true; ch; {
		ch = false
		for nt, alts := range c.Prods {
			for _, a := range alts {
				if v := seqHeight(h, a) + 1; v < h[nt] {
					h[nt] = v
					ch = true
				}
			}
		}
	}
	return h
}

func seqHeight(h []int, a []int) int {
	m := 0
	for _, s := range a {
		if s < 0 && h[^s] > m {
			m = h[^s]
		}
	}
	return m
}

// Sentence generates a random sentence with a derivation of about the given
// number of expansion steps.
func (c *CFG) Sentence(r *Rng, h []int, steps int) []int {
	var out []int
	var rec func(nt int, depth int)
	rec = func(nt, depth int) {
		steps--
		var cands []int
		best := 1 << 30
		for ai, a := range c.Prods[nt] {
			v := seqHeight(h, a)
			if v >= 1<<20 {
				continue
			}
			if steps > 0 && depth < 60 {
				cands = append(cands, ai)
			} else if v < best {
				best = v
				cands = []int{ai}
			} else if v == best {
				cands = append(cands, ai)
			}
		}
		a := c.Prods[nt][pick(r, cands)]
		for _, s := range a {
			if s >= 0 {
				out = append(out, s)
			} else {
				rec(^s, depth+1)
			}
			if len(out) > 400 {
				return
			}
		}
	}
	rec(0, 0)
	return out
}

// CoverSentences returns, for every nonterminal occurrence of the productions
// and every alternate of that nonterminal, a short sentence in which the
// occurrence is expanded with the alternate.
func (c *CFG) CoverSentences() [][]int {
	const inf = 1 << 30
	n := len(c.Prods)
	cost := func(ml []int, a []int) int {
		l := 1
		for _, s := range a {
			if s < 0 {
				if ml[^s] == inf {
					return inf
				}
				l += ml[^s]
			} else {
				l++
			}
		}
		return l
	}
	ml, best := make([]int, n), make([]int, n)
	for i := range ml {
		ml[i] = inf
	}
	for ch := true; ch; {
		ch = false
		for nt := 0; nt < n; nt++ {
			for ai, a := range c.Prods[nt] {
				if v := cost(ml, a); v < ml[nt] {
					ml[nt], best[nt], ch = v, ai, true
				}
			}
		}
	}
	if ml[0] == inf {
		return nil
	}
	min := func(a []int) (w []int) {
		var rec func(a []int)
		rec = func(a []int) {
			for _, s := range a {
				if s < 0 {
					rec(c.Prods[^s][best[^s]])
				} else {
					w = append(w, s)
				}
			}
		}
		rec(a)
		return
	}
	// the cheapest context of every nonterminal
	pre, post := make([][]int, n), make([][]int, n)
	ctx := make([]int, n)
	for i := range ctx {
		ctx[i] = inf
	}
	ctx[0] = 0
	done := make([]bool, n)
	for {
		p := -1
		for i := range ctx {
			if !done[i] && ctx[i] < inf && (p < 0 || ctx[i] < ctx[p]) {
				p = i
			}
		}
		if p < 0 {
			break
		}
		done[p] = true
		for _, a := range c.Prods[p] {
			v := cost(ml, a)
			if v == inf {
				continue
			}
			for i, s := range a {
				if s < 0 && ctx[p]+v-ml[^s] < ctx[^s] {
					ctx[^s] = ctx[p] + v - ml[^s]
					pre[^s] = append(append([]int(nil), pre[p]...), min(a[:i])...)
					post[^s] = append(min(a[i+1:]), post[p]...)
				}
			}
		}
	}
	var out [][]int
	for p := range ctx {
		if ctx[p] == inf {
			continue
		}
		for _, a := range c.Prods[p] {
			if cost(ml, a) == inf {
				continue
			}
			for i, s := range a {
				if s >= 0 {
					continue
				}
				for _, b := range c.Prods[^s] {
					if cost(ml, b) == inf {
						continue
					}
					w := append([]int(nil), pre[p]...)
					w = append(w, min(a[:i])...)
					w = append(w, min(b)...)
					w = append(w, min(a[i+1:])...)
					out = append(out, append(w, post[p]...))
				}
			}
		}
	}
	return out
}

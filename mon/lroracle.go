package main

import (
	"fmt"
	"sort"
	"strings"
)

/*** Reference canonical LR(1) automaton ***/

type lrProd struct {
	nt, alt int // nt -1: the augmented start production
	body    []int
}

type lrAct struct {
	kind int // 1 shift, 2 reduce, 3 accept
	arg  int
}

type LR struct {
	c         *CFG
	prods     []lrProd
	byNT      [][]int
	eof       int
	ff        *FirstFollow
	Act       []map[int][]lrAct // all actions per state and terminal
	Goto      []map[int]int
	Items     []lrState // the closed item sets
	Conflicts int       // (state, terminal) pairs with more than one action
	Accepts   bool
	TooBig    bool
}

type lrItem struct{ p, dot int }

type lrState map[lrItem]bitset

func (l *LR) key(s lrState) string {
	var ks []lrItem
	for k := range s {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].p != ks[j].p {
			return ks[i].p < ks[j].p
		}
		return ks[i].dot < ks[j].dot
	})
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprint(&b, k.p, ".", k.dot, s[k], ";")
	}
	return b.String()
}

// closure completes a set of items.
func (l *LR) closure(s lrState) {
	var todo []lrItem
	for k := range s {
		todo = append(todo, k)
	}
	for len(todo) > 0 {
		it := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		body := l.prods[it.p].body
		if it.dot >= len(body) || body[it.dot] >= 0 {
			continue
		}
		la := newBits(l.eof)
		first, nullable := l.ff.Seq(body[it.dot+1:])
		for t := range first {
			la.set(t)
		}
		if nullable {
			la.or(s[it])
		}
		for _, p := range l.byNT[^body[it.dot]] {
			k := lrItem{p, 0}
			if s[k] == nil {
				s[k] = newBits(l.eof)
				s[k].or(la)
				todo = append(todo, k)
			} else if s[k].or(la) {
				todo = append(todo, k)
			}
		}
	}
}

// NewLR constructs the automaton, giving up beyond max states.
func NewLR(c *CFG, max int) *LR {
	l := &LR{c: c, eof: len(c.Terms), ff: c.FirstFollow()}
	l.prods = append(l.prods, lrProd{-1, 0, []int{^0}})
	for nt, alts := range c.Prods {
		l.byNT = append(l.byNT, nil)
		for ai, a := range alts {
			l.byNT[nt] = append(l.byNT[nt], len(l.prods))
			l.prods = append(l.prods, lrProd{nt, ai, a})
		}
	}
	s0 := lrState{}
	b := newBits(l.eof)
	b.set(l.eof)
	s0[lrItem{0, 0}] = b
	states := []lrState{s0}
	num := map[string]int{l.key(s0): 0}
	for i := 0; i < len(states); i++ {
		kernel := states[i]
		s := lrState{}
		for k, v := range kernel {
			s[k] = append(bitset(nil), v...)
		}
		l.closure(s)
		l.Items = append(l.Items, s)
		next := map[int]lrState{}
		act := map[int][]lrAct{}
		for it, la := range s {
			p := l.prods[it.p]
			if it.dot < len(p.body) {
				x := p.body[it.dot]
				if next[x] == nil {
					next[x] = lrState{}
				}
				k := lrItem{it.p, it.dot + 1}
				if next[x][k] == nil {
					next[x][k] = newBits(l.eof)
				}
				next[x][k].or(la)
				continue
			}
			for t := 0; t <= l.eof; t++ {
				if la.has(t) {
					if it.p == 0 {
						act[t] = append(act[t], lrAct{3, 0})
					} else {
						act[t] = append(act[t], lrAct{2, it.p})
					}
				}
			}
		}
		var xs []int
		for x := range next {
			xs = append(xs, x)
		}
		sort.Ints(xs)
		gt := map[int]int{}
		for _, x := range xs {
			k := l.key(next[x])
			n, ok := num[k]
			if !ok {
				n = len(states)
				num[k] = n
				states = append(states, next[x])
				if n >= max {
					l.TooBig = true
					return l
				}
			}
			if x >= 0 {
				act[x] = append(act[x], lrAct{1, n})
			} else {
				gt[x] = n
			}
		}
		for t, as := range act {
			if len(as) > 1 {
				l.Conflicts++
			}
			// shift first, then accept and reductions in the order of productions
			sort.Slice(as, func(i, j int) bool {
				if (as[i].kind == 1) != (as[j].kind == 1) {
					return as[i].kind == 1
				}
				return as[i].arg < as[j].arg
			})
			act[t] = as
		}
		l.Act = append(l.Act, act)
		l.Goto = append(l.Goto, gt)
	}
	return l
}

type lrCall struct {
	nt, alt int
	args    []string // t<token index> or n<call index>
}

type lrRun struct {
	OK       bool
	Calls    []lrCall // the reductions, the augmented production last if accepted
	ErrAt    int      // token index of the error
	Expected map[string]bool
	Endless  bool
	Stack    []int // the states at the error
}

// Run parses w (without EOF), resolving conflicts in favour of shifting and of
// the earlier production.
func (l *LR) Run(w []int) *lrRun {
	r := &lrRun{}
	stack := []int{0}
	attr := []string{""}
	in := append(append([]int(nil), w...), l.eof)
	for i := 0; ; {
		st := stack[len(stack)-1]
		as := l.Act[st][in[i]]
		if len(as) == 0 {
			r.ErrAt = i
			r.Stack = stack
			r.Expected = map[string]bool{}
			for t := range l.Act[st] {
				if t == l.eof {
					r.Expected[EOFTerm] = true
				} else {
					r.Expected[l.c.Terms[t]] = true
				}
			}
			return r
		}
		if len(r.Calls) > 5000+50*len(w) {
			r.Endless = true
			return r
		}
		switch a := as[0]; a.kind {
		case 1:
			stack = append(stack, a.arg)
			attr = append(attr, fmt.Sprintf("t%d", i))
			i++
		default:
			p := l.prods[a.arg]
			k := len(stack) - len(p.body)
			c := lrCall{p.nt, p.alt, append([]string{}, attr[k:]...)}
			stack, attr = stack[:k], attr[:k]
			r.Calls = append(r.Calls, c)
			if a.kind == 3 {
				r.OK = true
				return r
			}
			stack = append(stack, l.Goto[stack[k-1]][^p.nt])
			attr = append(attr, fmt.Sprintf("n%d", len(r.Calls)-1))
		}
	}
}

// Viable returns the terminals with an action in the canonical state reached by
// the further reductions calls from the stack of states, or nil if there is none.
func (l *LR) Viable(stack []int, calls []lrCall) map[string]bool {
	stack = append([]int(nil), stack...)
	for _, k := range calls {
		n := len(stack) - len(l.c.Prods[k.nt][k.alt])
		if n < 1 {
			return nil
		}
		stack = stack[:n]
		g, ok := l.Goto[stack[n-1]][^k.nt]
		if !ok {
			return nil
		}
		stack = append(stack, g)
	}
	out := map[string]bool{}
	for t := range l.Act[stack[len(stack)-1]] {
		if t == l.eof {
			out[EOFTerm] = true
		} else {
			out[l.c.Terms[t]] = true
		}
	}
	return out
}

package main

// Floating-point atoms over few input bits are replaced by the propositional
// formula of their truth table, computed with the machine's own arithmetic.

import (
	"math/bits"
	"sort"
)

const (
	maxTabBits  = 16
	maxTabNodes = 3000
)

type tabulator struct {
	memo  map[int]*Term
	count uint64
}

func (tb *tabulator) term(t *Term) *Term {
	if !t.HasFloat() {
		return t
	}
	if r, ok := tb.memo[t.id]; ok {
		return r
	}
	r := t
	if t.S.K != KF32 && t.S.K != KF64 && len(t.Args) > 0 {
		direct := false
		for _, a := range t.Args {
			if a.S.K == KF32 || a.S.K == KF64 {
				direct = true
			}
		}
		if direct {
			if x := tb.table(t); x != nil {
				r = x
			}
		} else {
			args := make([]*Term, len(t.Args))
			ch := false
			for i, a := range t.Args {
				args[i] = tb.term(a)
				ch = ch || args[i] != a
			}
			if ch {
				r = rebuild(t, args)
			}
		}
	}
	tb.memo[t.id] = r
	return r
}

// table builds the decision tree of t, or nil if it is out of reach.
func (tb *tabulator) table(t *Term) *Term {
	if t.S.K != KBool {
		return nil
	}
	p := planOf(support(t))
	if p.total > maxTabBits {
		return nil
	}
	vs := vars(t)
	byName := map[string]*Term{}
	for _, v := range vs {
		if v.S.K != KBV && v.S.K != KBool {
			return nil
		}
		byName[v.Name] = v
	}
	// bit tests, the least significant of the table index last
	var tests []*Term
	for k, n := range p.names {
		v := byName[n]
		for m := p.masks[k]; m != 0; {
			b := 63 - bits.LeadingZeros64(m)
			m &^= 1 << uint(b)
			if v.S.K == KBool {
				tests = append(tests, v)
			} else {
				tests = append(tests, Eq(Extract(b, b, v), Const(1, 1)))
			}
		}
	}
	ev := newEvaluator(t)
	idx := make([]int, len(ev.leaf))
	for k, l := range ev.leaf {
		idx[k] = sort.SearchStrings(p.names, ev.order[l].Name)
	}
	root := ev.pos[t.id]
	n := uint64(1) << uint(p.total)
	level := make([]*Term, n)
	for i := uint64(0); i < n; i++ {
		bit := p.total
		for k := range ev.leaf {
			ev.vals[ev.leaf[k]] = 0
			_ = k
		}
		vals := make([]uint64, len(p.names))
		for k := range p.names {
			for m := p.masks[k]; m != 0; {
				b := 63 - bits.LeadingZeros64(m)
				m &^= 1 << uint(b)
				bit--
				vals[k] |= i >> uint(bit) & 1 << uint(b)
			}
		}
		for k, l := range ev.leaf {
			ev.vals[l] = vals[idx[k]]
		}
		if !ev.run() {
			return nil
		}
		level[i] = BoolT(ev.vals[root] == 1)
	}
	tb.count += n
	made := map[int]bool{}
	for d := p.total - 1; d >= 0; d-- {
		next := make([]*Term, len(level)/2)
		for i := range next {
			lo, hi := level[2*i], level[2*i+1]
			next[i] = lo
			if lo != hi {
				next[i] = Ite(tests[d], hi, lo)
				if !made[next[i].id] {
					made[next[i].id] = true
					if len(made) > maxTabNodes {
						return nil
					}
				}
			}
		}
		level = next
	}
	return level[0]
}

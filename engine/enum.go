package main

// Exhaustive evaluation: when an obligation contains floating-point atoms, its
// negation is evaluated (with the machine's own arithmetic) on every
// assignment of the input bits those atoms depend on.

import (
	"fmt"
	"math/bits"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
)

const maxEnumBits = 26

type enumPlan struct {
	names []string
	masks []uint64
	total int
}

func planOf(s map[string]uint64) enumPlan {
	var p enumPlan
	for n := range s {
		p.names = append(p.names, n)
	}
	sort.Strings(p.names)
	for _, n := range p.names {
		p.masks = append(p.masks, s[n])
		p.total += bits.OnesCount64(s[n])
	}
	return p
}

// deposit spreads the low bits of v over the positions set in m.
func deposit(v *uint64, m uint64) uint64 {
	r := uint64(0)
	for m != 0 {
		b := m & -m
		if *v&1 != 0 {
			r |= b
		}
		*v >>= 1
		m &^= b
	}
	return r
}

// forAll evaluates the conjunction cs on all assignments of its support and
// returns the satisfying assignments found (at most lim), and whether every
// assignment could be evaluated.
func forAll(cs []*Term, lim int) (sols []map[string]uint64, ok bool, count uint64) {
	p := planOf(support(cs...))
	if p.total > maxEnumBits {
		return nil, false, 0
	}
	n := uint64(1) << uint(p.total)
	goal := And(cs...)
	workers := runtime.NumCPU()
	var mu sync.Mutex
	var wg sync.WaitGroup
	var bad, stop int32
	chunk := n/uint64(workers) + 1
	for w := 0; w < workers; w++ {
		lo := uint64(w) * chunk
		hi := lo + chunk
		if hi > n {
			hi = n
		}
		if lo >= hi {
			continue
		}
		ev := newEvaluator(goal)
		wg.Add(1)
		go func() {
			defer wg.Done()
			idx := make([]int, len(ev.leaf))
			for k, l := range ev.leaf {
				idx[k] = sort.SearchStrings(p.names, ev.order[l].Name)
			}
			root := ev.pos[goal.id]
			vals := make([]uint64, len(p.names))
			for i := lo; i < hi; i++ {
				if i&0xFFFF == 0 && pastDeadline() {
					atomic.StoreInt32(&bad, 1)
				}
				if i&1023 == 0 && (atomic.LoadInt32(&stop) != 0 || atomic.LoadInt32(&bad) != 0) {
					return
				}
				v := i
				for k := range vals {
					vals[k] = deposit(&v, p.masks[k])
				}
				for k, l := range ev.leaf {
					ev.vals[l] = vals[idx[k]]
				}
				if !ev.run() {
					atomic.StoreInt32(&bad, 1)
					return
				}
				if ev.vals[root] == 1 {
					m := map[string]uint64{}
					for k, nm := range p.names {
						m[nm] = vals[k]
					}
					mu.Lock()
					if len(sols) < lim {
						sols = append(sols, m)
					} else {
						atomic.StoreInt32(&stop, 1)
					}
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	return sols, bad == 0, n
}

// splitGoal turns pc & !cond into a list of conjunctions.
func splitCond(cond *Term) []*Term {
	if cond.Op == OpAnd {
		return cond.Args
	}
	return []*Term{cond}
}

func (e *Engine) enumerate(o *Obl) {
	total := uint64(0)
	for _, part := range splitCond(o.Cond) {
		part = propagate(o.PC, part)
		if And(o.PC, Not(part)) == False {
			continue
		}
		if r, _, _ := e.smt.solve(append([]*Term{o.PC, Not(part)}, o.Hyps...), 20, false, "z3"); r == "unsat" {
			continue
		}
		st, n := e.enumPart(o, part)
		total += n
		if st == "proved" {
			continue
		}
		o.Status = st
		if st == "unknown" {
			o.Status = ""
		}
		o.Backend = "enumeration"
		return
	}
	o.Status, o.Backend = "proved", fmt.Sprintf("exhaustive evaluation")
	o.Out = fmt.Sprintf("%d assignments", total)
	e.enumCount += total
}

func (e *Engine) enumPart(o *Obl, part *Term) (string, uint64) {
	all := append([]*Term(nil), conjuncts(And(append([]*Term{o.PC, Not(part)}, o.Hyps...)...))...)
	var core, rest []*Term
	// the negated postcondition is the core; other conjuncts join it when they
	// only constrain bits of its support
	neg := conjuncts(Not(part))
	isNeg := map[int]bool{}
	for _, t := range neg {
		isNeg[t.id] = true
	}
	for _, t := range all {
		if isNeg[t.id] && t.HasFloat() {
			core = append(core, t)
		} else {
			rest = append(rest, t)
		}
	}
	if len(core) == 0 {
		core = conjuncts(Not(part))
		rest = all
	}
	sup := support(core...)
	for n := range sup {
		if strings.HasPrefix(n, "ret.") {
			return "unknown", 0
		}
	}
	var others []*Term
	within := func(t *Term) bool {
		for n, m := range support(t) {
			if sup[n]&m != m {
				return false
			}
		}
		return true
	}
	for _, t := range rest {
		if within(t) {
			core = append(core, t)
		} else {
			others = append(others, t)
		}
	}
	// conjuncts overlapping the support are pulled in while the bits allow
	for round := 0; round < 3; round++ {
		var keep []*Term
		for _, t := range others {
			s2 := support(t)
			overlap := false
			for n, m := range s2 {
				if sup[n]&m != 0 {
					overlap = true
				}
			}
			if overlap {
				s3 := map[string]uint64{}
				for n, m := range sup {
					s3[n] = m
				}
				for n, m := range s2 {
					s3[n] |= m
				}
				if planOf(s3).total <= 22 {
					sup = s3
					core = append(core, t)
					continue
				}
			}
			keep = append(keep, t)
		}
		others = keep
	}
	if planOf(sup).total > maxEnumBits {
		return "unknown", 0
	}
	sols, ok, n := forAll(core, 64)
	if !ok {
		return "unknown", n
	}
	if len(sols) == 0 {
		return "proved", n
	}
	// extend to a full model
	for _, s := range sols {
		cs := append([]*Term(nil), others...)
		var names []string
		for nm := range s {
			names = append(names, nm)
		}
		sort.Strings(names)
		for _, t := range vars(all...) {
			if m, ok := sup[t.Name]; ok && t.S.K == KBV {
				for b := 0; b < t.W(); b++ {
					if m>>uint(b)&1 == 1 {
						cs = append(cs, Eq(Extract(b, b, t), Const(1, s[t.Name]>>uint(b))))
					}
				}
			} else if ok && t.S.K == KBool {
				cs = append(cs, Eq(t, BoolT(s[t.Name] == 1)))
			}
		}
		r, m, abs := e.smt.solve(cs, 20, true, "z3")
		if r == "sat" && !abs {
			for nm, v := range s {
				m[nm] |= v
			}
			o.Model = m
			return "failed", n
		}
		if r != "unsat" {
			for nm, v := range s {
				if m == nil {
					m = map[string]uint64{}
				}
				m[nm] |= v
			}
			o.Model = m
			return "unknown", n
		}
	}
	if len(sols) < 64 {
		return "proved", n
	}
	return "unknown", n
}

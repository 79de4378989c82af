package main

// Linear algebra over GF(2): parity computations become exclusive-or sums of
// message bits in a canonical order, and linear consequences are decided by
// Gaussian elimination.

import (
	"math/bits"
	"math/rand"
	"sort"
	"time"
)

type lin struct {
	c bool
	a []uint64 // bit set over atoms
}

func (l lin) isConst() bool {
	for _, w := range l.a {
		if w != 0 {
			return false
		}
	}
	return true
}

func (l lin) xor(m lin) lin {
	n := max(len(l.a), len(m.a))
	r := lin{c: l.c != m.c, a: make([]uint64, n)}
	copy(r.a, l.a)
	for i, w := range m.a {
		r.a[i] ^= w
	}
	for len(r.a) > 0 && r.a[len(r.a)-1] == 0 {
		r.a = r.a[:len(r.a)-1]
	}
	return r
}

func (l lin) lead() int {
	for i, w := range l.a {
		if w != 0 {
			return i*64 + bits.TrailingZeros64(w)
		}
	}
	return -1
}

func (l lin) has(k int) bool { return k/64 < len(l.a) && l.a[k/64]>>uint(k%64)&1 == 1 }

type gf2 struct {
	index map[int]int // 1-bit or boolean term -> atom
	atoms []*Term
	memo  map[int][]lin
	nmemo map[int]*Term
	xmemo map[int]bool

	goal  []*Term           // what search tries to refute
	model map[string]uint64 // an assignment that satisfies it
	until time.Time
	eval  *evaluator
	rnd   *rand.Rand
}

func newGF2() *gf2 {
	return &gf2{index: map[int]int{}, memo: map[int][]lin{}, nmemo: map[int]*Term{}, xmemo: map[int]bool{}}
}

func (g *gf2) atom(t *Term) lin {
	k, ok := g.index[t.id]
	if !ok {
		k = len(g.atoms)
		g.index[t.id] = k
		g.atoms = append(g.atoms, t)
	}
	a := make([]uint64, k/64+1)
	a[k/64] = 1 << uint(k%64)
	return lin{a: a}
}

// bits returns the bits of a bit-vector term, least significant first.
func (g *gf2) bits(t *Term) []lin {
	if r, ok := g.memo[t.id]; ok {
		return r
	}
	w := t.W()
	r := make([]lin, 0, w)
	switch t.Op {
	case OpConst:
		for i := 0; i < w; i++ {
			r = append(r, lin{c: t.Val>>uint(i)&1 == 1})
		}
	case OpConcat:
		for i := len(t.Args) - 1; i >= 0; i-- {
			r = append(r, g.bits(t.Args[i])...)
		}
	case OpExtract:
		if t.Args[0].Op == OpVar {
			for i := int(t.Val & 0xff); i <= int(t.Val>>8); i++ {
				r = append(r, g.atom(Extract(i, i, t.Args[0])))
			}
			break
		}
		r = append(r, g.bits(t.Args[0])[t.Val&0xff:t.Val>>8+1]...)
	case OpBXor:
		r = append(r, g.bits(t.Args[0])...)
		for _, x := range t.Args[1:] {
			for i, b := range g.bits(x) {
				r[i] = r[i].xor(b)
			}
		}
	case OpBNot:
		for _, b := range g.bits(t.Args[0]) {
			r = append(r, lin{c: !b.c, a: b.a})
		}
	case OpSExt:
		r = append(r, g.bits(t.Args[0])...)
		for len(r) < w {
			r = append(r, r[t.Args[0].W()-1])
		}
	case OpIte:
		x, y := g.bits(t.Args[1]), g.bits(t.Args[2])
		for i := range x {
			d := x[i].xor(y[i])
			switch {
			case !d.isConst():
				r = append(r, g.leaf(t, i))
			case d.c:
				r = append(r, y[i].xor(g.boolean(t.Args[0])))
			default:
				r = append(r, y[i])
			}
		}
	case OpBAnd, OpBOr:
		x, y := g.bits(t.Args[0]), g.bits(t.Args[1])
		unit := t.Op == OpBAnd
		for i := range x {
			switch {
			case len(t.Args) > 2:
				r = append(r, g.leaf(t, i))
			case x[i].isConst() && x[i].c == unit:
				r = append(r, y[i])
			case x[i].isConst():
				r = append(r, x[i])
			case y[i].isConst() && y[i].c == unit:
				r = append(r, x[i])
			case y[i].isConst():
				r = append(r, y[i])
			default:
				r = append(r, g.leaf(t, i))
			}
		}
	default:
		for i := 0; i < w; i++ {
			r = append(r, g.leaf(t, i))
		}
	}
	g.memo[t.id] = r
	return r
}

func (g *gf2) leaf(t *Term, i int) lin {
	n := t
	if t.Op != OpVar {
		n = g.rebuildArgs(t)
	}
	return g.atom(Extract(i, i, n))
}

func (g *gf2) boolean(t *Term) lin {
	switch t.Op {
	case OpConst:
		return lin{c: t == True}
	case OpNot:
		l := g.boolean(t.Args[0])
		return lin{c: !l.c, a: l.a}
	case OpEq:
		if t.Args[0].S.K == KBV && t.Args[0].W() == 1 {
			l := g.bits(t.Args[0])[0].xor(g.bits(t.Args[1])[0])
			return lin{c: !l.c, a: l.a}
		}
		if t.Args[0].S.K == KBool {
			l := g.boolean(t.Args[0]).xor(g.boolean(t.Args[1]))
			return lin{c: !l.c, a: l.a}
		}
	}
	return g.atom(g.norm(t))
}

// term writes a sum as a 1-bit term.
func (g *gf2) term(l lin) *Term {
	r := Const(1, 0)
	var order []*Term
	for i, w := range l.a {
		for w != 0 {
			k := i*64 + bits.TrailingZeros64(w)
			w &= w - 1
			order = append(order, g.atoms[k])
		}
	}
	sort.Slice(order, func(i, j int) bool { return order[i].id < order[j].id })
	for _, x := range order {
		if x.S.K == KBool {
			x = Ite(x, Const(1, 1), Const(1, 0))
		}
		r = BXor(r, x)
	}
	if l.c {
		r = BXor(r, Const(1, 1))
	}
	return r
}

func (g *gf2) hasXor(t *Term) bool {
	if v, ok := g.xmemo[t.id]; ok {
		return v
	}
	v := t.Op == OpBXor
	for _, a := range t.Args {
		if v {
			break
		}
		v = g.hasXor(a)
	}
	g.xmemo[t.id] = v
	return v
}

func (g *gf2) rebuildArgs(t *Term) *Term {
	as := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		as[i] = g.norm(a)
		ch = ch || as[i] != a
	}
	if !ch {
		return t
	}
	return rebuild(t, as)
}

// norm rewrites t with every exclusive-or sum in canonical form.
func (g *gf2) norm(t *Term) *Term {
	if len(t.Args) == 0 || !g.hasXor(t) {
		return t
	}
	if r, ok := g.nmemo[t.id]; ok {
		return r
	}
	var r *Term
	switch {
	case t.Op == OpEq && t.Args[0].S.K == KBV:
		x, y := g.bits(t.Args[0]), g.bits(t.Args[1])
		var cs []*Term
		for i := range x {
			d := x[i].xor(y[i])
			if d.isConst() {
				if d.c {
					cs = append(cs, False)
				}
				continue
			}
			want := Const(1, 0)
			if d.c {
				want = Const(1, 1)
			}
			d.c = false
			cs = append(cs, Eq(g.term(d), want))
		}
		r = And(cs...)
	case t.S.K == KBV:
		bs := g.bits(t)
		ps := make([]*Term, len(bs))
		for i, b := range bs {
			ps[len(bs)-1-i] = g.term(b)
		}
		r = Concat(ps...)
	default:
		r = g.rebuildArgs(t)
	}
	g.nmemo[t.id] = r
	return r
}

// refuted reports whether the linear literals among cs contradict each other
// or another conjunct that is a negated conjunction of linear literals.
func (g *gf2) refuted(cs []*Term) bool {
	rows := map[int]lin{}
	reduce := func(l lin) lin {
		for {
			changed := false
			for k, r := range rows {
				if l.has(k) {
					l = l.xor(r)
					changed = true
				}
			}
			if !changed {
				return l
			}
		}
	}
	isLin := func(t *Term) bool {
		if t.Op == OpNot {
			t = t.Args[0]
		}
		return t.Op == OpVar || (t.Op == OpEq && t.Args[0].S.K == KBV && t.Args[0].W() == 1)
	}
	var others []*Term
	for _, t := range cs {
		if t.Op == OpEq && t.Args[0].S.K == KBV && t.Args[0].W() > 1 {
			x, y := g.bits(t.Args[0]), g.bits(t.Args[1])
			for i := range x {
				l := reduce(x[i].xor(y[i]))
				if l.isConst() {
					if l.c {
						return true
					}
					continue
				}
				g.addRow(rows, l)
			}
			continue
		}
		if !isLin(t) {
			others = append(others, t)
			continue
		}
		l := g.boolean(t)
		l.c = !l.c // the sum is zero
		l = reduce(l)
		if l.isConst() {
			if l.c {
				return true
			}
			continue
		}
		g.addRow(rows, l)
	}
	for _, t := range others {
		// a disjunction of literals, each contradicted by the system
		var ds []*Term
		switch {
		case t.Op == OpOr:
			ds = t.Args
		case t.Op == OpNot && t.Args[0].Op == OpAnd:
			for _, x := range t.Args[0].Args {
				ds = append(ds, Not(x))
			}
		case t.Op == OpNot && t.Args[0].Op == OpEq && t.Args[0].Args[0].S.K == KBV:
			ds = []*Term{t}
		default:
			continue
		}
		all := true
		for _, d := range ds {
			if !isLin(d) {
				// negated wide equality
				if d.Op == OpNot && d.Args[0].Op == OpEq && d.Args[0].Args[0].S.K == KBV {
					x, y := g.bits(d.Args[0].Args[0]), g.bits(d.Args[0].Args[1])
					for i := range x {
						if l := reduce(x[i].xor(y[i])); !l.isConst() || l.c {
							all = false
						}
					}
					continue
				}
				all = false
				break
			}
			l := g.boolean(d)
			l.c = !l.c
			l = reduce(l)
			if !l.isConst() || !l.c {
				all = false
				break
			}
		}
		if all {
			return true
		}
	}
	return false
}

// linear adds the equations a literal stands for; false: not linear.
func (g *gf2) linear(rows map[int]lin, t *Term) bool {
	add := func(l lin) {
		for k, r := range rows {
			if l.has(k) {
				l = l.xor(r)
			}
		}
		if !l.isConst() {
			g.addRow(rows, l)
		}
	}
	if t.Op == OpEq && t.Args[0].S.K == KBV {
		x, y := g.bits(t.Args[0]), g.bits(t.Args[1])
		for i := range x {
			add(x[i].xor(y[i]))
		}
		return true
	}
	if t.Op == OpAnd {
		ok := true
		for _, a := range t.Args {
			ok = g.linear(rows, a) && ok
		}
		return ok
	}
	u := t
	if u.Op == OpNot {
		u = u.Args[0]
	}
	if u.Op == OpVar || (u.Op == OpEq && u.Args[0].S.K == KBV && u.Args[0].W() == 1) {
		l := g.boolean(t)
		l.c = !l.c
		add(l)
		return true
	}
	return false
}

// witness looks for an assignment that satisfies the linear literals among cs
// (and one disjunct of the disjunctions) and, by evaluation, the whole goal.
func (g *gf2) witness(cs []*Term, tries int) {
	if g.eval == nil {
		g.eval = newEvaluator(g.goal...)
		g.eval.zero = true
		g.rnd = rand.New(rand.NewSource(1))
	}
	e := g.eval
	base := map[int]lin{}
	var ors []*Term
	for _, t := range cs {
		if t.Op == OpOr {
			ors = append(ors, t)
			continue
		}
		g.linear(base, t)
	}
	for try := 0; try < tries; try++ {
		rows := base
		if len(ors) > 0 {
			rows = map[int]lin{}
			for k, r := range base {
				rows[k] = r
			}
			for _, t := range ors {
				g.linear(rows, t.Args[g.rnd.Intn(len(t.Args))])
			}
		}
		val := make([]bool, len(g.atoms))
		for i := range val {
			val[i] = g.rnd.Intn(2) == 1
		}
		for k, r := range rows {
			v := r.c
			for i := range val {
				if i != k && r.has(i) {
					v = v != val[i]
				}
			}
			val[k] = v
		}
		m := map[string]uint64{}
		for i, a := range g.atoms {
			switch {
			case !val[i]:
			case a.Op == OpVar:
				m[a.Name] |= 1
			case a.Op == OpExtract && a.Args[0].Op == OpVar:
				m[a.Args[0].Name] |= 1 << (a.Val & 0xff)
			}
		}
		for _, i := range e.leaf {
			n := e.order[i].Name
			if _, ok := m[n]; !ok {
				m[n] = 0
			}
			e.vals[i] = m[n] & maskS(e.order[i].S)
		}
		if !e.run() {
			return
		}
		ok := true
		for _, t := range g.goal {
			ok = ok && e.vals[e.pos[t.id]]&1 == 1
		}
		if ok {
			g.model = m
			return
		}
	}
}

// sample looks for an assignment that satisfies the goal among those that also
// satisfy one of the conditions occurring in it: an input which a random draw
// would hardly meet.
func (g *gf2) sample() {
	seen := map[int]bool{}
	var conds []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.Args {
			visit(a)
		}
		if t.S.K != KBool || t.Op == OpNot || t.Op == OpOr || t.IsConst() {
			return
		}
		rows := map[int]lin{}
		g.linear(rows, t)
		if len(rows) < 3 {
			return
		}
		for _, r := range rows {
			for i, a := range g.atoms {
				if r.has(i) && a.Op != OpVar && !(a.Op == OpExtract && a.Args[0].Op == OpVar) {
					return
				}
			}
		}
		conds = append(conds, t)
	}
	for _, t := range g.goal {
		visit(t)
	}
	for i, t := range conds {
		if i >= 300 || g.model != nil || time.Now().After(g.until) {
			return
		}
		g.witness(append(append([]*Term{}, g.goal...), t), 4)
	}
}

func (g *gf2) addRow(rows map[int]lin, l lin) {
	k := l.lead()
	for i, r := range rows {
		if r.has(k) {
			rows[i] = r.xor(l)
		}
	}
	rows[k] = l
}

// units splits conjuncts into literals and the rest and substitutes what the
// literals say into the rest until nothing changes. nil: contradiction.
func (g *gf2) units(cs []*Term) ([]*Term, bool) {
	var lits []*Term
	isLit := map[int]bool{}
	rest := append([]*Term(nil), cs...)
	for round := 0; round < 20; round++ {
		var next []*Term
		grew := false
		for len(rest) > 0 {
			t := rest[0]
			rest = rest[1:]
			switch {
			case t == False:
				return nil, false
			case t == True:
			case t.Op == OpAnd:
				rest = append(append([]*Term(nil), t.Args...), rest...)
			case t.Op == OpNot && t.Args[0].Op == OpOr:
				for _, x := range t.Args[0].Args {
					rest = append(rest, Not(x))
				}
			case t.Op == OpOr, t.Op == OpNot && t.Args[0].Op == OpAnd,
				t.Op == OpEq && t.Args[0].S.K == KBool,
				t.Op == OpNot && t.Args[0].Op == OpEq && t.Args[0].Args[0].S.K == KBool,
				t.Op == OpIte:
				next = append(next, t)
			default:
				if !isLit[t.id] {
					isLit[t.id] = true
					lits = append(lits, t)
					grew = true
				}
			}
		}
		if !grew && round > 0 {
			return append(lits, next...), true
		}
		m := map[int]*Term{}
		type bitsOf struct {
			v          *Term
			known, val uint64
		}
		vb := map[int]*bitsOf{}
		for _, l := range lits {
			m[l.id] = True
			m[Not(l).id] = False
			if l.Op != OpEq || l.Args[0].S.K != KBV {
				continue
			}
			for k := 0; k < 2; k++ {
				x, c := l.Args[k], l.Args[1-k]
				if !c.IsConst() {
					continue
				}
				lo := 0
				v := x
				if x.Op == OpExtract {
					v, lo = x.Args[0], int(x.Val&0xff)
				}
				if v.Op != OpVar || v.W() > 64 {
					continue
				}
				b := vb[v.id]
				if b == nil {
					b = &bitsOf{v: v}
					vb[v.id] = b
				}
				mask := ^uint64(0)
				if x.W() < 64 {
					mask = 1<<uint(x.W()) - 1
				}
				if b.known&(mask<<uint(lo))&(b.val^c.Val<<uint(lo)) != 0 {
					return nil, false
				}
				b.known |= mask << uint(lo)
				b.val |= c.Val << uint(lo)
			}
		}
		mv := map[int]*Term{}
		for id, b := range vb {
			var ps []*Term
			for i := b.v.W() - 1; i >= 0; i-- {
				if b.known>>uint(i)&1 == 1 {
					ps = append(ps, Const(1, b.val>>uint(i)&1))
				} else {
					ps = append(ps, Extract(i, i, b.v))
				}
			}
			m[id] = Concat(ps...)
			mv[id] = m[id]
		}
		memo := map[int]*Term{}
		for _, t := range next {
			rest = append(rest, g.norm(Subst(t, m, memo)))
		}
		// literals that are not themselves bit assignments
		memo = map[int]*Term{}
		for i, l := range lits {
			n := Subst(l, mv, memo)
			if n == False {
				return nil, false
			}
			if n != l && n != True {
				lits[i] = g.norm(n)
				if lits[i].Op == OpAnd || lits[i] == False {
					rest = append(rest, lits[i])
					lits[i] = True
				}
				isLit[lits[i].id] = true
			}
		}
	}
	return append(lits, rest...), true
}

// search refutes a conjunction by unit propagation, Gaussian elimination and
// case distinction.
func (g *gf2) search(cs []*Term, budget *int) bool {
	*budget--
	if *budget < 0 || g.model != nil || time.Now().After(g.until) {
		return false
	}
	checkTime()
	cs, ok := g.units(cs)
	if !ok || g.refuted(cs) {
		return true
	}
	best := -1
	var parts []*Term
	for i, t := range cs {
		var ds []*Term
		switch {
		case t.Op == OpOr:
			ds = t.Args
		case t.Op == OpNot && t.Args[0].Op == OpAnd:
			for _, x := range t.Args[0].Args {
				ds = append(ds, Not(x))
			}
		case t.Op == OpEq && t.Args[0].S.K == KBool:
			ds = []*Term{And(t.Args[0], t.Args[1]), And(Not(t.Args[0]), Not(t.Args[1]))}
		case t.Op == OpNot && t.Args[0].Op == OpEq && t.Args[0].Args[0].S.K == KBool:
			u := t.Args[0]
			ds = []*Term{And(u.Args[0], Not(u.Args[1])), And(Not(u.Args[0]), u.Args[1])}
		case t.Op == OpIte && t.S.K == KBool:
			ds = []*Term{And(t.Args[0], t.Args[1]), And(Not(t.Args[0]), t.Args[2])}
		default:
			if c := iteCond(t, map[int]bool{}); c != nil {
				ds = []*Term{And(t, c), And(t, Not(c))}
				if best >= 0 {
					continue
				}
			} else {
				continue
			}
		}
		if best < 0 || len(ds) < len(parts) {
			best, parts = i, ds
		}
	}
	g.witness(cs, 2)
	if best < 0 || g.model != nil {
		return false
	}
	others := append(append([]*Term(nil), cs[:best]...), cs[best+1:]...)
	var neg []*Term
	for _, d := range parts {
		if !g.search(append(append(append([]*Term(nil), d), neg...), others...), budget) {
			return false
		}
		neg = append(neg, Not(d))
	}
	return true
}

func iteCond(t *Term, seen map[int]bool) *Term {
	if seen[t.id] {
		return nil
	}
	seen[t.id] = true
	if t.Op == OpIte {
		return t.Args[0]
	}
	for _, a := range t.Args {
		if c := iteCond(a, seen); c != nil {
			return c
		}
	}
	return nil
}

func specialBackends(e *Engine, c *Contract, obls []*Obl) bool {
	g := newGF2()
	any := false
	for _, o := range obls {
		x := g.hasXor(o.Cond) || g.hasXor(o.PC)
		for _, h := range o.Hyps {
			x = x || g.hasXor(h)
		}
		if !x {
			continue
		}
		any = true
		pc, cond := g.norm(o.PC), g.norm(o.Cond)
		var hs []*Term
		for _, h := range o.Hyps {
			hs = append(hs, g.norm(h))
		}
		cond = propagate(pc, cond)
		goal := And(pc, Not(cond))
		if goal == False {
			o.Status, o.Backend = "proved", "exclusive-or normal form"
			continue
		}
		cs := append([]*Term(nil), conjuncts(goal)...)
		for _, h := range hs {
			cs = append(cs, conjuncts(h)...)
		}
		float := false
		for _, t := range cs {
			float = float || t.HasFloat()
		}
		g.goal, g.model, g.eval = cs, nil, nil
		try := func(budget, secs int) bool {
			if float {
				return false
			}
			g.until = time.Now().Add(time.Duration(secs) * time.Second)
			switch {
			case g.search(cs, &budget):
				o.Status, o.Backend = "proved", "Gaussian elimination over GF(2)"
			case g.model != nil:
				o.Status, o.Backend, o.Model = "failed", "Gaussian elimination over GF(2)", g.model
			}
			return o.Status != ""
		}
		if try(100, 2) {
			continue
		}
		if r, _, abs := e.smt.solve(cs, 5, false, "z3"); r == "unsat" {
			o.Status, o.Backend = "proved", "z3"
			continue
		} else if r == "sat" && !abs {
			o.PC, o.Cond, o.Hyps = pc, cond, hs
			continue
		}
		if !float {
			g.until = time.Now().Add(20 * time.Second)
			if g.sample(); g.model != nil {
				o.Status, o.Backend, o.Model = "failed", "Gaussian elimination over GF(2)", g.model
				continue
			}
		}
		if try(3000, 60) {
			continue
		}
		o.PC, o.Cond, o.Hyps = pc, cond, hs
	}
	return any
}

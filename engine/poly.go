package main

// Exact arithmetic inside floating-point terms. A float64 term whose value is
// always an integer polynomial divided by a power of two, with every
// intermediate result below 2^53 at its scale, is computed without rounding:
// it is rewritten as integer arithmetic, in a canonical form, and its floors
// and comparisons become integer ones. Values are kept up to the sign of zero
// (hybrid.zeroSafe checks that no operation tells the two zeros apart).

import (
	"math"
	"math/bits"
	"sort"
	"strconv"
)

type mono struct {
	c     int64
	atoms []*Term // 64-bit terms, read as signed, ordered by id
}

type poly struct {
	m      map[string]*mono
	lo, hi int64
	ok     bool // the range is known
}

const exactLimit = 1 << 53

func monoKey(as []*Term) string {
	b := make([]byte, 0, 16)
	for _, a := range as {
		b = strconv.AppendInt(b, int64(a.id), 10)
		b = append(b, ',')
	}
	return string(b)
}

func (p *poly) add(c int64, atoms []*Term) {
	if c == 0 {
		return
	}
	k := monoKey(atoms)
	if x, ok := p.m[k]; ok {
		if x.c+c == 0 {
			delete(p.m, k)
		} else {
			p.m[k] = &mono{x.c + c, atoms}
		}
		return
	}
	p.m[k] = &mono{c, atoms}
}

func (p *poly) keys() []string {
	var ks []string
	for k := range p.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		a, b := p.m[ks[i]].atoms, p.m[ks[j]].atoms
		if (len(a) == 0) != (len(b) == 0) {
			return len(b) == 0 // the constant last
		}
		for x := 0; x < len(a) && x < len(b); x++ {
			if a[x].id != b[x].id {
				return a[x].id < b[x].id
			}
		}
		return len(a) < len(b)
	})
	return ks
}

func (p *poly) constVal() (int64, bool) {
	switch len(p.m) {
	case 0:
		return 0, true
	case 1:
		if x, ok := p.m[""]; ok {
			return x.c, true
		}
	}
	return 0, false
}

// term writes the polynomial as a 64-bit term.
func (p *poly) term() *Term {
	var r *Term
	for _, k := range p.keys() {
		x := p.m[k]
		var t *Term
		if len(x.atoms) == 0 {
			t = Const(64, uint64(x.c))
		} else {
			t = x.atoms[0]
			for _, a := range x.atoms[1:] {
				t = Mul(t, a)
			}
			if x.c != 1 {
				t = Mul(t, Const(64, uint64(x.c)))
			}
		}
		if r == nil {
			r = t
		} else {
			r = Add(r, t)
		}
	}
	if r == nil {
		return Const(64, 0)
	}
	return r
}

// exact recognises floating-point terms that are computed without rounding.
type exact struct {
	dom  map[string]uint64 // the largest value of a variable
	pm   map[[2]int]*poly
	dm   map[int]*dyadic
	lm   map[int]*Term
	rm   map[int][2]int64
	rok  map[int]bool
	busy map[int]bool
}

type dyadic struct {
	p *poly
	k int
}

func newExact(dom map[string]uint64) *exact {
	return &exact{dom: dom, pm: map[[2]int]*poly{}, dm: map[int]*dyadic{}, lm: map[int]*Term{}, rm: map[int][2]int64{}, rok: map[int]bool{}}
}

func safeMul(a, b int64) (int64, bool) {
	if f := float64(a) * float64(b); f > 4e18 || f < -4e18 {
		return 0, false
	}
	return a * b, true
}

func safeAdd(a, b int64) (int64, bool) {
	if f := float64(a) + float64(b); f > 8e18 || f < -8e18 {
		return 0, false
	}
	return a + b, true
}

// bound computes the range of a polynomial from those of its atoms.
func (x *exact) bound(p *poly) *poly {
	p.lo, p.hi, p.ok = 0, 0, true
	for _, m := range p.m {
		lo, hi := m.c, m.c
		for _, a := range m.atoms {
			alo, ahi, ok := x.rangeOf(a)
			if !ok {
				p.ok = false
				return p
			}
			var c [4]int64
			o := true
			for i, f := range [4][2]int64{{lo, alo}, {lo, ahi}, {hi, alo}, {hi, ahi}} {
				v, ok := safeMul(f[0], f[1])
				c[i], o = v, o && ok
			}
			if !o {
				p.ok = false
				return p
			}
			lo, hi = min(c[0], c[1], c[2], c[3]), max(c[0], c[1], c[2], c[3])
		}
		var ok1, ok2 bool
		p.lo, ok1 = safeAdd(p.lo, lo)
		p.hi, ok2 = safeAdd(p.hi, hi)
		if !ok1 || !ok2 {
			p.ok = false
			return p
		}
	}
	return p
}

func (x *exact) sum(a, b *poly, sign int64) *poly {
	r := &poly{m: map[string]*mono{}}
	for _, m := range a.m {
		r.add(m.c, m.atoms)
	}
	for _, m := range b.m {
		r.add(sign*m.c, m.atoms)
	}
	return x.bound(r)
}

func (x *exact) times(a, b *poly) *poly {
	if len(a.m)*len(b.m) > 64 {
		return nil
	}
	r := &poly{m: map[string]*mono{}}
	for _, m := range a.m {
		for _, n := range b.m {
			c, ok := safeMul(m.c, n.c)
			if !ok {
				return nil
			}
			as := append(append([]*Term(nil), m.atoms...), n.atoms...)
			if len(as) > 4 {
				return nil
			}
			sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
			r.add(c, as)
		}
	}
	return x.bound(r)
}

func (x *exact) scale(a *poly, c int64) *poly {
	return x.times(a, x.constant(c))
}

func (x *exact) constant(c int64) *poly {
	p := &poly{m: map[string]*mono{}}
	p.add(c, nil)
	return x.bound(p)
}

func (x *exact) atom(t *Term, signed bool) *poly {
	if t.W() < 64 {
		if signed {
			t = SExt(t, 64)
		} else {
			t = ZExt(t, 64)
		}
	}
	p := &poly{m: map[string]*mono{}}
	p.add(1, []*Term{t})
	return x.bound(p)
}

// floorShift is floor(p / 2^k) in canonical form.
func (x *exact) floorShift(p *poly, k int) *poly {
	out := &poly{m: map[string]*mono{}}
	in := &poly{m: map[string]*mono{}}
	low := 63
	for _, m := range p.m {
		switch {
		case len(m.atoms) == 0:
			out.add(m.c>>uint(k), nil)
			in.add(m.c-m.c>>uint(k)<<uint(k), nil)
		case bits.TrailingZeros64(uint64(m.c)) >= k:
			out.add(m.c>>uint(k), m.atoms)
		default:
			low = min(low, bits.TrailingZeros64(uint64(m.c)))
			in.add(m.c, m.atoms)
		}
	}
	if _, c := in.constVal(); c {
		return x.bound(out)
	}
	if low > 0 {
		n := &poly{m: map[string]*mono{}}
		for _, m := range in.m {
			n.add(m.c>>uint(low), m.atoms)
		}
		in, k = n, k-low
	}
	x.bound(in)
	if !in.ok {
		return nil
	}
	if in.lo>>uint(k) == in.hi>>uint(k) {
		out.add(in.lo>>uint(k), nil)
		return x.bound(out)
	}
	a := AShrC(in.term(), k)
	x.rm[a.id], x.rok[a.id] = [2]int64{in.lo >> uint(k), in.hi >> uint(k)}, true
	out.add(1, []*Term{a})
	return x.bound(out)
}

// rangeOf bounds a 64-bit term read as signed.
func (x *exact) rangeOf(t *Term) (int64, int64, bool) {
	if ok, done := x.rok[t.id]; done {
		r := x.rm[t.id]
		return r[0], r[1], ok
	}
	lo, hi, ok := x.range1(t)
	x.rm[t.id], x.rok[t.id] = [2]int64{lo, hi}, ok
	return lo, hi, ok
}

func (x *exact) range1(t *Term) (int64, int64, bool) {
	if t.IsConst() {
		return int64(t.Val), int64(t.Val), true
	}
	if n := leadZeros(t); n > 0 {
		u := Extract(63-n, 0, t)
		if u.Op == OpVar {
			if d, ok := x.dom[u.Name]; ok && d < 1<<62 {
				return 0, int64(d), true
			}
		}
		if m := maxU(u); m < 1<<62 {
			return int64(minU(u)), int64(m), true
		}
		return 0, int64(mask(64 - n)), true
	}
	sub := func(a *Term) (int64, int64, bool) {
		p := x.ipoly(a, true)
		if p == nil {
			return 0, 0, false
		}
		return p.lo, p.hi, p.ok
	}
	switch t.Op {
	case OpSExt:
		w := t.Args[0].W()
		if a := t.Args[0]; a.Op == OpExtract && int(a.Val>>8) == a.Args[0].W()-1 {
			if lo, hi, ok := sub(a.Args[0]); ok {
				k := uint(a.Val & 0xff)
				return lo >> k, hi >> k, true
			}
		}
		return -(1 << uint(w-1)), 1<<uint(w-1) - 1, true
	case OpIte:
		a, b, ok1 := sub(t.Args[1])
		c, d, ok2 := sub(t.Args[2])
		return min(a, c), max(b, d), ok1 && ok2
	case OpSRem:
		a, b, ok1 := sub(t.Args[0])
		c, d, ok2 := sub(t.Args[1])
		if !ok2 || c <= 0 {
			return 0, 0, false
		}
		lo, hi := -(d - 1), d-1
		if ok1 && a >= 0 {
			lo = 0
		}
		if ok1 && b <= 0 {
			hi = 0
		}
		return lo, hi, true
	case OpURem:
		c, d, ok := sub(t.Args[1])
		if ok && c > 0 {
			return 0, d - 1, true
		}
	case OpSDiv, OpUDiv:
		a, b, ok1 := sub(t.Args[0])
		c, _, ok2 := sub(t.Args[1])
		if ok1 && ok2 && c > 0 && (t.Op == OpSDiv || a >= 0) {
			return min(a, a/c), max(b, b/c), true
		}
	}
	if m := maxU(t); m < 1<<62 {
		return int64(minU(t)), int64(m), true
	}
	return 0, 0, false
}

// ipoly reads a bit-vector term as a polynomial over the integers, or nil.
func (x *exact) ipoly(t *Term, signed bool) *poly {
	k := [2]int{t.id, int(b2u(signed))}
	if p, ok := x.pm[k]; ok {
		return p
	}
	p := x.ipoly1(t, signed)
	if p != nil && !p.ok {
		p = nil
	}
	x.pm[k] = p
	return p
}

func (x *exact) fits(p *poly, w int, signed bool) bool {
	if p == nil || !p.ok {
		return false
	}
	if signed {
		return p.lo >= -(1<<uint(w-1)) && p.hi <= 1<<uint(w-1)-1
	}
	return p.lo >= 0 && (w >= 63 || p.hi <= 1<<uint(w)-1)
}

func (x *exact) ipoly1(t *Term, signed bool) *poly {
	w := t.W()
	self := func() *poly {
		if w == 64 && !signed {
			p := x.atom(t, true)
			if !x.fits(p, 64, false) {
				return nil
			}
			return p
		}
		return x.atom(t, signed)
	}
	switch t.Op {
	case OpConst:
		if signed {
			return x.constant(sx(t.Val, w))
		}
		if t.Val > math.MaxInt64 {
			return nil
		}
		return x.constant(int64(t.Val))
	case OpConcat:
		if n := leadZeros(t); n > 0 && n < w {
			return x.ipoly(Extract(w-n-1, 0, t), false)
		}
		r := x.constant(0)
		off := 0
		for i := len(t.Args) - 1; i >= 0 && r != nil; i-- {
			a := t.Args[i]
			p := x.ipoly(a, signed && i == 0)
			if p == nil || off > 61 {
				return self()
			}
			if p = x.scale(p, 1<<uint(off)); p == nil {
				return self()
			}
			r = x.sum(r, p, 1)
			off += a.W()
		}
		if x.fits(r, w, signed) {
			return r
		}
	case OpSExt:
		p := x.ipoly(t.Args[0], true)
		if x.fits(p, w, signed) {
			return p
		}
	case OpAdd, OpSub, OpMul:
		for _, s := range []bool{signed, !signed} {
			a, b := x.ipoly(t.Args[0], s), x.ipoly(t.Args[1], s)
			if a == nil || b == nil {
				continue
			}
			var r *poly
			switch t.Op {
			case OpAdd:
				r = x.sum(a, b, 1)
			case OpSub:
				r = x.sum(a, b, -1)
			default:
				r = x.times(a, b)
			}
			if x.fits(r, w, signed) {
				return r
			}
		}
	case OpExtract:
		lo := int(t.Val & 0xff)
		for _, s := range []bool{signed, !signed} {
			if a := x.ipoly(t.Args[0], s); a != nil {
				if r := x.floorShift(a, lo); x.fits(r, w, signed) {
					return r
				}
			}
		}
	case OpIte:
		a, b := x.ipoly(t.Args[1], signed), x.ipoly(t.Args[2], signed)
		if a != nil && b != nil {
			u, v := a.term(), b.term()
			if u == v {
				return a
			}
			return x.atom(Ite(t.Args[0], u, v), true)
		}
	}
	return self()
}

// ---------- floats

func (x *exact) mk(p *poly, k int) *dyadic {
	if p == nil || !p.ok || p.lo <= -exactLimit || p.hi >= exactLimit || k > 200 {
		return nil
	}
	for k > 0 {
		even := true
		for _, m := range p.m {
			even = even && m.c&1 == 0
		}
		if !even {
			break
		}
		n := &poly{m: map[string]*mono{}}
		for _, m := range p.m {
			n.add(m.c/2, m.atoms)
		}
		p = x.bound(n)
		k--
	}
	return &dyadic{p, k}
}

func (x *exact) align(a, b *dyadic) (*poly, *poly, int) {
	k := max(a.k, b.k)
	up := func(d *dyadic) *poly {
		if k-d.k > 52 {
			return nil
		}
		return x.scale(d.p, 1<<uint(k-d.k))
	}
	p, q := up(a), up(b)
	if p == nil || q == nil || !p.ok || !q.ok {
		return nil, nil, 0
	}
	return p, q, k
}

// dy recognises a float64 term computed exactly.
func (x *exact) dy(t *Term) *dyadic {
	if d, ok := x.dm[t.id]; ok {
		return d
	}
	x.dm[t.id] = nil
	d := x.dy1(t)
	x.dm[t.id] = d
	return d
}

func (x *exact) dy1(t *Term) *dyadic {
	if t.S != SF64 {
		return nil
	}
	arg := func(i int) *dyadic { return x.dy(t.Args[i]) }
	add := func(a, b *dyadic, s int64) *dyadic {
		if a == nil || b == nil {
			return nil
		}
		p, q, k := x.align(a, b)
		if p == nil {
			return nil
		}
		return x.mk(x.sum(p, q, s), k)
	}
	neg := func(a *dyadic) *dyadic {
		if a == nil {
			return nil
		}
		return x.mk(x.scale(a.p, -1), a.k)
	}
	floor := func(a *dyadic) *dyadic {
		if a == nil {
			return nil
		}
		if a.k == 0 {
			return a
		}
		if a.k > 62 {
			return nil
		}
		return x.mk(x.floorShift(a.p, a.k), 0)
	}
	choose := func(c *Term, a, b *dyadic) *dyadic {
		if a == nil || b == nil {
			return nil
		}
		p, q, k := x.align(a, b)
		if p == nil {
			return nil
		}
		if c == True {
			return x.mk(p, k)
		}
		if c == False {
			return x.mk(q, k)
		}
		u, v := p.term(), q.term()
		if u == v {
			return x.mk(p, k)
		}
		return x.mk(x.ipoly(Ite(c, u, v), true), k)
	}
	switch t.Op {
	case OpConst:
		f := t.F()
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return nil
		}
		k := 0
		for f != math.Trunc(f) {
			f *= 2
			if k++; k > 200 || math.Abs(f) >= exactLimit {
				return nil
			}
		}
		if math.Abs(f) >= exactLimit {
			return nil
		}
		return x.mk(x.constant(int64(f)), k)
	case OpFFromS, OpFFromU:
		return x.mk(x.ipoly(t.Args[0], t.Op == OpFFromS), 0)
	case OpFAdd:
		return add(arg(0), arg(1), 1)
	case OpFSub:
		return add(arg(0), arg(1), -1)
	case OpFNeg:
		return neg(arg(0))
	case OpFMul:
		a, b := arg(0), arg(1)
		if a == nil || b == nil {
			return nil
		}
		return x.mk(x.times(a.p, b.p), a.k+b.k)
	case OpFDiv:
		a, b := arg(0), arg(1)
		if a == nil || b == nil {
			return nil
		}
		c, ok := b.p.constVal()
		if !ok || c == 0 {
			return nil
		}
		s := int64(1)
		if c < 0 {
			s, c = -1, -c
		}
		if c&(c-1) != 0 {
			return nil
		}
		// a.p/2^a.k divided by c/2^b.k
		n := bits.TrailingZeros64(uint64(c))
		k := a.k + n - b.k
		p := x.scale(a.p, s)
		if k < 0 {
			if k < -52 || p == nil {
				return nil
			}
			p, k = x.scale(p, 1<<uint(-k)), 0
		}
		return x.mk(p, k)
	case OpFFloor:
		return floor(arg(0))
	case OpFCeil:
		return neg(floor(neg(arg(0))))
	case OpFTrunc, OpFAbs:
		a := arg(0)
		if a == nil {
			return nil
		}
		c := x.cmp(a.p, true) // 0 <= a
		if t.Op == OpFAbs {
			return choose(c, a, neg(a))
		}
		return choose(c, floor(a), neg(floor(neg(a))))
	case OpIte:
		return choose(t.Args[0], arg(1), arg(2))
	case OpApp:
		switch t.Name {
		case "math.Max", "math.Min":
			a, b := arg(0), arg(1)
			d := add(b, a, -1)
			if d == nil {
				return nil
			}
			c := x.cmp(d.p, true) // a <= b
			if t.Name == "math.Max" {
				return choose(c, b, a)
			}
			return choose(c, a, b)
		case "math.Round":
			a := arg(0)
			if a == nil {
				return nil
			}
			h := x.mk(x.constant(1), 1)
			return choose(x.cmp(a.p, true), floor(add(a, h, 1)), neg(floor(add(neg(a), h, 1))))
		case "math.Mod":
			a, b := arg(0), arg(1)
			if a == nil || b == nil || b.p.lo <= 0 {
				return nil
			}
			p, q, k := x.align(a, b)
			if p == nil {
				return nil
			}
			return x.mk(x.ipoly(SRem(p.term(), q.term()), true), k)
		}
	}
	return nil
}

// cmp is the test 0 <= p, or 0 < p.
func (x *exact) cmp(p *poly, orEqual bool) *Term {
	if !p.ok {
		return nil
	}
	e := int64(0)
	if !orEqual {
		e = 1
	}
	switch {
	case p.lo >= e:
		return True
	case p.hi < e:
		return False
	}
	// divide by the greatest common divisor
	var g int64
	for _, m := range p.m {
		if len(m.atoms) > 0 {
			a, b := g, m.c
			if b < 0 {
				b = -b
			}
			for b != 0 {
				a, b = b, a%b
			}
			g = a
		}
	}
	if g > 1 {
		n := &poly{m: map[string]*mono{}}
		for _, m := range p.m {
			c := m.c
			if len(m.atoms) == 0 {
				// 0 <= g·q + c iff 0 <= q + floor(c/g); 0 < g·q + c iff 0 <= g·q + c - 1
				c -= e
				f := c / g
				if c%g != 0 && c < 0 {
					f--
				}
				n.add(f, nil)
				continue
			}
			n.add(c/g, m.atoms)
		}
		if _, ok := p.m[""]; !ok && e == 1 {
			n.add(-1, nil)
		}
		return SLe(Const(64, 0), n.term())
	}
	if e == 1 {
		p = x.sum(p, x.constant(1), -1)
	}
	return SLe(Const(64, 0), p.term())
}

func (x *exact) float(d *dyadic) *Term {
	if c, ok := d.p.constVal(); ok {
		return ConstF(SF64, math.Ldexp(float64(c), -d.k))
	}
	r := Conv(OpFFromS, SF64, d.p.term())
	if d.k > 0 {
		r = FBin(OpFMul, r, ConstF(SF64, math.Ldexp(1, -d.k)))
	}
	return r
}

// lower rewrites the exact parts of t.
func (x *exact) lower(t *Term) *Term {
	if r, ok := x.lm[t.id]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = x.lower(a)
		ch = ch || args[i] != a
	}
	r := t
	if ch {
		r = rebuild(t, args)
	}
	r = x.lower1(r)
	x.lm[t.id] = r
	x.lm[r.id] = r
	return r
}

func (x *exact) lower1(t *Term) *Term {
	isF := func(i int) bool { return t.Args[i].S == SF64 }
	switch t.Op {
	case OpFLt, OpFLe, OpFEq:
		if !isF(0) {
			return t
		}
		a, b := x.dy(t.Args[0]), x.dy(t.Args[1])
		if a == nil || b == nil {
			return t
		}
		p, q, _ := x.align(a, b)
		if p == nil {
			return t
		}
		return x.compare(t, x.sum(q, p, -1))
	case OpSLt, OpEq, OpULt:
		if t.Args[0].S.K != KBV || t.Args[0].W() < 8 {
			return t
		}
		s := t.Op != OpULt
		a, b := x.ipoly(t.Args[0], s), x.ipoly(t.Args[1], s)
		if a == nil || b == nil {
			return t
		}
		return x.compare(t, x.sum(b, a, -1))
	case OpFIsNaN:
		if isF(0) && x.dy(t.Args[0]) != nil {
			return False
		}
	case OpFToS:
		if isF(0) {
			if d := x.dy(FUn(OpFTrunc, t.Args[0])); d != nil && d.k == 0 && x.fits(d.p, t.W(), true) {
				return Extract(t.W()-1, 0, d.p.term())
			}
		}
	case OpAdd, OpSub, OpMul, OpSExt, OpExtract, OpIte:
		if t.S.K == KBV && t.W() >= 8 {
			if p := x.ipoly(t, true); p != nil {
				return Extract(t.W()-1, 0, p.term())
			}
		}
	}
	if t.S == SF64 {
		if d := x.dy(t); d != nil {
			return x.float(d)
		}
	}
	return t
}

// compare decides a comparison of a and b from d = b - a.
func (x *exact) compare(t *Term, d *poly) *Term {
	if d == nil || !d.ok {
		return t
	}
	switch t.Op {
	case OpFLt, OpSLt, OpULt:
		return x.cmp(d, false)
	case OpFLe:
		return x.cmp(d, true)
	}
	if d.lo > 0 || d.hi < 0 {
		return False
	}
	if c, ok := d.constVal(); ok {
		return BoolT(c == 0)
	}
	if ks := d.keys(); d.m[ks[0]].c < 0 {
		d = x.scale(d, -1)
	}
	// the positive and the negative part, so that v = w stays recognisable
	pos, neg := &poly{m: map[string]*mono{}}, &poly{m: map[string]*mono{}}
	for _, m := range d.m {
		if m.c > 0 {
			pos.add(m.c, m.atoms)
		} else {
			neg.add(-m.c, m.atoms)
		}
	}
	return Eq(pos.term(), neg.term())
}

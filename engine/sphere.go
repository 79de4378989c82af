package main

// Obligations over trigonometric computations on float inputs. Every float
// term is given
//   - the real number it approximates, as a polynomial over the inputs, sines
//     and cosines of linear forms (products of which are turned into sums, so
//     that equal trigonometric polynomials have the same form), and angles
//     asin(sqrt(F));
//   - a bound of the distance of the machine's value from it;
//   - an interval that contains the machine's value.
// A comparison holds if it holds for the interval that the real number, where
// it is constant, and the bound leave. The sphere supplies one fact: the dot
// product sin p sin q + cos p cos q cos r of two unit vectors is in [-1, 1].

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

const (
	hybridBackend = "exact arithmetic, tables and intervals"
	sphereBackend = "error-tracked trigonometric normal form"

	ulp   = 1.2e-16 // half a unit in the last place, rounded up
	libUl = 8 * ulp // assumed accuracy of the functions of package math
	tiny  = 1e-300
)

type linear struct {
	c map[string]float64 // by input
}

type smono struct {
	c    float64
	atom []int // sorted
}

type real struct {
	m    map[string]*smono
	err  float64
	r    ival
	sq   *real   // the value is sqrt(sq), err is unused …
	sqE  float64 // … up to this error of the square
	none bool
	over *real // the value is the root of sq over the root of that, or infinite
}

type satom struct {
	kind byte // v input, c cosine, s sine, t asin(sqrt(F))
	name string
	l    *linear
	f    *real
	b    ival
}

type sphere struct {
	atoms  []*satom
	inputs []string
	bnd    map[string]ival
	memo   map[int]*real
	why    string
	dots   []*real
}

var noReal = &real{none: true}

func newSphere(bnd map[string]ival) *sphere {
	s := &sphere{bnd: bnd, memo: map[int]*real{}}
	for n := range bnd {
		s.inputs = append(s.inputs, n)
	}
	sort.Strings(s.inputs)
	return s
}

func (s *sphere) intern(a *satom) int {
	s.atoms = append(s.atoms, a)
	return len(s.atoms) - 1
}

func atomKey(as []int) string { return fmt.Sprint(as) }

func mag(v ival) float64 { return math.Max(math.Abs(v.lo), math.Abs(v.hi)) }

func (s *sphere) magOf(as []int) float64 {
	m := 1.0
	for _, a := range as {
		m *= mag(s.atoms[a].b)
	}
	return m
}

// put adds a monomial with coefficient a*b; what rounding takes off the
// coefficients goes to the error.
func (s *sphere) put(p *real, a, b float64, as []int) {
	c := a * b
	k := atomKey(as)
	o, ok := p.m[k]
	if !ok {
		o = &smono{atom: as}
		p.m[k] = o
	}
	sum := o.c + c
	z := sum - o.c
	lost := math.Abs((o.c-(sum-z))+(c-z)) + math.Abs(math.FMA(a, b, -c))
	o.c = sum
	p.err += lost * s.magOf(as) * (1 + 1e-9)
}

func (s *sphere) clean(p *real) *real {
	for k, m := range p.m {
		if e := math.Abs(m.c) * s.magOf(m.atom); e < 1e-15 || math.Abs(m.c) < 1e-15 && e < 1e-13 {
			p.err += e
			delete(p.m, k)
		}
	}
	return p
}

func (s *sphere) konst(c float64) *real {
	return &real{m: map[string]*smono{"[]": {c: c}}, r: ival{c, c}}
}

func (s *sphere) lin(a *real, ca float64, b *real, cb float64) *real {
	p := &real{m: map[string]*smono{}, err: math.Abs(ca)*a.err + math.Abs(cb)*b.err}
	for _, m := range a.m {
		s.put(p, ca, m.c, m.atom)
	}
	for _, m := range b.m {
		s.put(p, cb, m.c, m.atom)
	}
	return s.clean(p)
}

func (s *sphere) trig(a int) bool { return s.atoms[a].kind == 'c' || s.atoms[a].kind == 's' }

// mulMono multiplies monomials, turning a product of two of sine and cosine
// into a sum.
func (s *sphere) mulMono(p *real, ca, cb float64, as, bs []int) {
	c := ca * cb
	lost := math.Abs(math.FMA(ca, cb, -c))
	var rest []int
	t1, t2 := -1, -1
	for _, x := range append(append([]int(nil), as...), bs...) {
		switch {
		case !s.trig(x):
			rest = append(rest, x)
		case t1 < 0:
			t1 = x
		default:
			t2 = x
		}
	}
	sort.Ints(rest)
	p.err += lost * s.magOf(rest) * 2
	if t2 < 0 {
		if t1 >= 0 {
			rest = append(rest, t1)
		}
		s.put(p, c, 1, rest)
		return
	}
	x, y := s.atoms[t1], s.atoms[t2]
	if x.kind == 'c' && y.kind == 's' {
		x, y = y, x
	}
	var u, v *real // of the difference and of the sum
	d, m := x.l.plus(y.l, -1), x.l.plus(y.l, 1)
	cu, cv := 0.5, 0.5
	switch {
	case x.kind == 'c': // cos cos
		u, v = s.wave('c', d), s.wave('c', m)
	case y.kind == 's': // sin sin
		u, v, cv = s.wave('c', d), s.wave('c', m), -0.5
	default: // sin cos
		u, v = s.wave('s', d), s.wave('s', m)
	}
	for i, w := range []*real{u, v} {
		k := c * cu
		if i == 1 {
			k = c * cv
		}
		for _, mm := range w.m {
			s.put(p, k, mm.c, append(append([]int(nil), rest...), mm.atom...))
		}
		p.err += math.Abs(k) * w.err * s.magOf(rest)
	}
}

func (l *linear) plus(o *linear, k float64) *linear {
	r := &linear{c: map[string]float64{}}
	for n, c := range l.c {
		r.c[n] += c
	}
	for n, c := range o.c {
		r.c[n] += k * c
	}
	return r
}

// wave is the sine or cosine of a linear form.
func (s *sphere) wave(kind byte, l *linear) *real {
	sign := 0.0
	off := 0.0
	n := &linear{c: map[string]float64{}}
	for _, v := range s.inputs {
		c := l.c[v]
		m := mag(s.bnd[v])
		if c == 0 {
			continue
		}
		if math.Abs(c)*m < 1e-14 {
			off += math.Abs(c) * m
			continue
		}
		if sign == 0 {
			sign = math.Copysign(1, c)
		}
		n.c[v] = sign * c
	}
	out := &real{m: map[string]*smono{}, err: off, r: ival{-1, 1}}
	if sign == 0 {
		if kind == 'c' {
			s.put(out, 1, 1, nil)
		}
		return out
	}
	f := 1.0
	if kind == 's' {
		f = sign
	}
	for i, a := range s.atoms {
		if a.kind != kind {
			continue
		}
		d := 0.0
		for _, v := range s.inputs {
			d += math.Abs(a.l.c[v]-n.c[v]) * mag(s.bnd[v])
		}
		if d < 1e-13 {
			out.err += d
			s.put(out, f, 1, []int{i})
			return out
		}
	}
	s.put(out, f, 1, []int{s.intern(&satom{kind: kind, l: n, b: ival{-1, 1}})})
	return out
}

// linearForm reads a polynomial as a linear form and a constant.
func (s *sphere) linearForm(p *real) (*linear, float64, bool) {
	l, k := &linear{c: map[string]float64{}}, 0.0
	for _, m := range p.m {
		switch {
		case len(m.atom) == 0:
			k += m.c
		case len(m.atom) == 1 && s.atoms[m.atom[0]].kind == 'v':
			l.c[s.atoms[m.atom[0]].name] += m.c
		default:
			return nil, 0, false
		}
	}
	return l, k, true
}

func (s *sphere) sinCos(kind byte, x *real) *real {
	l, k, ok := s.linearForm(x)
	if !ok || mag(x.r) > 1e4 {
		return noReal
	}
	w := s.wave(kind, l)
	if k != 0 {
		sk, ck := math.Sincos(k)
		c, d := s.wave('c', l), s.wave('s', l)
		if kind == 'c' {
			w = s.lin(c, ck, d, -sk)
		} else {
			w = s.lin(d, ck, c, sk)
		}
	}
	p := s.lin(w, 1, s.konst(0), 0)
	p.err += x.err + libUl
	p.r = ival{-1, 1}
	fn := math.Cos
	mono := x.r.lo >= 0 && x.r.hi <= math.Pi || x.r.lo >= -math.Pi && x.r.hi <= 0
	if kind == 's' {
		fn = math.Sin
		mono = x.r.lo >= -math.Pi/2 && x.r.hi <= math.Pi/2
	}
	a, b := fn(x.r.lo), fn(x.r.hi)
	lo, hi := math.Min(a, b), math.Max(a, b)
	switch {
	case mono:
		p.r = ival{out(lo, -1), out(hi, 1)}
	case kind == 'c' && x.r.lo >= -math.Pi/2 && x.r.hi <= math.Pi/2:
		p.r = ival{out(lo, -1), 1}
	}
	return s.tight(p)
}

// out widens a value of a function of package math.
func out(x, dir float64) float64 {
	return math.Max(-1e308, math.Min(1e308, x+dir*libUl*math.Abs(x)))
}

// bound is a bound of the real number, by the triangle inequality and the dot
// product of unit vectors.
func (s *sphere) bound(p *real) ival {
	r := ival{0, 0}
	e := 0.0
	for _, m := range p.m {
		lo, hi := m.c, m.c
		for _, a := range m.atom {
			b := s.atoms[a].b
			f := four(lo*b.lo, lo*b.hi, hi*b.lo, hi*b.hi)
			lo, hi = f.lo, f.hi
		}
		r.lo, r.hi = r.lo+lo, r.hi+hi
		e += 4 * ulp * (math.Abs(lo) + math.Abs(hi))
	}
	r = ival{r.lo - e, r.hi + e}
	if len(p.m) < 3 {
		return r
	}
	for _, d := range s.dotProducts() {
		// p = alpha + beta*d ?
		beta := 0.0
		for k, m := range d.m {
			if len(m.atom) > 0 {
				if o, ok := p.m[k]; ok {
					beta = o.c / m.c
				}
				break
			}
		}
		if beta == 0 {
			continue
		}
		q := s.lin(p, 1, d, -beta)
		left := 0.0
		alpha := 0.0
		for _, m := range q.m {
			if len(m.atom) == 0 {
				alpha = m.c
			} else {
				left += math.Abs(m.c) * s.magOf(m.atom)
			}
		}
		if left < 1e-12 {
			e := left + math.Abs(beta)*d.err + (q.err - p.err) + 4*ulp*(math.Abs(alpha)+math.Abs(beta))
			b := ival{alpha - math.Abs(beta) - e, alpha + math.Abs(beta) + e}
			r = ival{math.Max(r.lo, b.lo), math.Min(r.hi, b.hi)}
			break
		}
	}
	return r
}

// dotProducts: the dot products of points whose coordinates are inputs in
// degrees or radians.
func (s *sphere) dotProducts() []*real {
	if s.dots != nil || len(s.inputs) > 6 {
		return s.dots
	}
	for _, k := range []float64{math.Pi / 180, 1} {
		one := func(n string, f float64) *linear { return &linear{c: map[string]float64{n: f * k}} }
		for i, p := range s.inputs {
			for _, q := range s.inputs[i:] {
				for j, x := range s.inputs {
					for _, y := range s.inputs[j+1:] {
						lp, lq, lr := one(p, 1), one(q, 1), one(x, 1).plus(one(y, 1), -1)
						d := s.lin(s.mul(s.wave('s', lp), s.wave('s', lq)), 1, s.mul(s.mul(s.wave('c', lp), s.wave('c', lq)), s.wave('c', lr)), 1)
						s.dots = append(s.dots, d)
					}
				}
			}
		}
	}
	return s.dots
}

// mul is the product as real polynomials.
func (s *sphere) mul(a, b *real) *real {
	p := &real{m: map[string]*smono{}}
	ma, mb := 0.0, 0.0
	for _, x := range a.m {
		ma += math.Abs(x.c) * s.magOf(x.atom)
		for _, y := range b.m {
			s.mulMono(p, x.c, y.c, x.atom, y.atom)
		}
	}
	for _, y := range b.m {
		mb += math.Abs(y.c) * s.magOf(y.atom)
	}
	p.err += a.err*mb + b.err*ma + a.err*b.err
	return s.clean(p)
}

// tight intersects the interval of the machine's value with that of the real
// number and its error.
func (s *sphere) tight(p *real) *real {
	b := s.bound(p)
	p.r = ival{math.Max(p.r.lo, b.lo-p.err), math.Min(p.r.hi, b.hi+p.err)}
	if nan(p.r) || p.r.lo > p.r.hi || p.err != p.err || math.IsInf(p.err, 0) {
		return noReal
	}
	return p
}

// plain gives up what is known of the square of a root.
func (s *sphere) plain(x *real) *real {
	if x.sq == nil {
		return x
	}
	return noReal
}

func (s *sphere) of(t *Term) *real {
	if r, ok := s.memo[t.id]; ok {
		return r
	}
	r := s.of1(t)
	if r.none && s.why == "" {
		s.why = "no bound for " + t.Short()
	}
	s.memo[t.id] = r
	return r
}

func (t *Term) Short() string {
	n := opName[t.Op]
	if t.Op == OpApp {
		n = t.Name
	}
	return n
}

func (s *sphere) isConst(x *real) (float64, bool) {
	if x.none || x.sq != nil || x.err != 0 || x.r.lo != x.r.hi {
		return 0, false
	}
	return x.r.lo, true
}

func (s *sphere) of1(t *Term) *real {
	switch t.Op {
	case OpConst:
		if f := t.F(); t.S == SF64 && !math.IsNaN(f) && !math.IsInf(f, 0) {
			return s.konst(f)
		}
		return noReal
	case OpVar:
		b, ok := s.bnd[t.Name]
		if !ok || nan(b) {
			return noReal
		}
		for i, a := range s.atoms {
			if a.kind == 'v' && a.name == t.Name {
				return &real{m: map[string]*smono{atomKey([]int{i}): {c: 1, atom: []int{i}}}, r: b}
			}
		}
		i := s.intern(&satom{kind: 'v', name: t.Name, b: b})
		return &real{m: map[string]*smono{atomKey([]int{i}): {c: 1, atom: []int{i}}}, r: b}
	case OpIte:
		// minimum and maximum
		c, a, b := t.Args[0], t.Args[1], t.Args[2]
		if c.Op == OpNot {
			c, a, b = c.Args[0], b, a
		}
		if c.Op == OpFLt || c.Op == OpFLe {
			x, y := c.Args[0], c.Args[1]
			if a == x && b == y {
				return s.least(s.of(x), s.of(y), 1)
			}
			if a == y && b == x {
				return s.least(s.of(x), s.of(y), -1)
			}
		}
		return noReal
	}
	var in []*real
	for _, a := range t.Args {
		if a.S != SF64 {
			return noReal
		}
		x := s.of(a)
		if x.none {
			return noReal
		}
		in = append(in, x)
	}
	if t.Op == OpApp {
		switch t.Name {
		case "math.Sqrt":
			return s.root(in[0])
		case "math.Pow":
			switch k, ok := s.isConst(in[1]); {
			case ok && k == 2:
				return s.product(in[0], in[0], true, libUl)
			case ok && k == 0.5:
				return s.root(in[0])
			}
			return noReal
		case "math.Min", "math.Max":
			if t.Name == "math.Min" {
				return s.least(in[0], in[1], 1)
			}
			return s.least(in[0], in[1], -1)
		case "math.Asin":
			return s.arc(in[0])
		case "math.Acos":
			// acos(u) = 2*asin(sqrt((1-u)/2))
			u := s.plain(in[0])
			if u.none || u.r.lo < -1 || u.r.hi > 1 {
				return noReal
			}
			f := s.lin(s.konst(0.5), 1, u, -0.5)
			f.r = ival{0, 1}
			return s.angle(f, f.err, 2)
		case "math.Atan2":
			return s.angle2(in[0], in[1])
		case "math.Atan":
			if in[0].over == nil {
				return noReal
			}
			y := *in[0]
			y.over = nil
			y.sqE += 4 * ulp
			return s.angle2(&y, in[0].over)
		}
	}
	if t.Op == OpFDiv && in[0].sq != nil && in[1].sq != nil && in[0].over == nil && in[1].over == nil {
		y := *in[0]
		y.over = in[1]
		y.r = everything
		return &y
	}
	for _, x := range in {
		if s.plain(x).none {
			return noReal
		}
	}
	round := func(p *real) *real {
		p.err += 2*ulp*mag(p.r) + tiny
		return s.tight(p)
	}
	switch t.Op {
	case OpApp:
		switch t.Name {
		case "math.Sin":
			return s.sinCos('s', in[0])
		case "math.Cos":
			return s.sinCos('c', in[0])
		}
	case OpFAdd, OpFSub:
		k := 1.0
		if t.Op == OpFSub {
			k = -1
		}
		a, b := in[0], in[1]
		p := s.lin(a, 1, b, k)
		if t.Args[0] == t.Args[1] && k < 0 {
			return s.konst(0)
		}
		if k > 0 {
			p.r = ival{a.r.lo + b.r.lo, a.r.hi + b.r.hi}
		} else {
			p.r = ival{a.r.lo - b.r.hi, a.r.hi - b.r.lo}
		}
		return round(p)
	case OpFNeg:
		p := s.lin(in[0], -1, s.konst(0), 0)
		p.r = ival{-in[0].r.hi, -in[0].r.lo}
		return s.tight(p)
	case OpFAbs:
		switch x := in[0]; {
		case x.r.lo >= 0:
			return x
		case x.r.hi <= 0:
			p := s.lin(x, -1, s.konst(0), 0)
			p.r = ival{-x.r.hi, -x.r.lo}
			return p
		}
	case OpFMul:
		return s.product(in[0], in[1], t.Args[0] == t.Args[1], ulp*2)
	case OpFDiv:
		if k, ok := s.isConst(in[1]); ok && math.Abs(k) > 1e-100 && math.Abs(k) < 1e100 {
			x := in[0]
			p := s.lin(x, 1/k, s.konst(0), 0)
			p.r = four(x.r.lo/k, x.r.lo/k, x.r.hi/k, x.r.hi/k)
			return round(p)
		}
	}
	return noReal
}

func (s *sphere) product(a, b *real, same bool, e float64) *real {
	if a.over != nil || b.over != nil {
		return noReal
	}
	if a.sq != nil && same {
		// the square of a root
		p := s.lin(a.sq, 1, s.konst(0), 0)
		p.err = a.sqE*(1+1e-9) + e*2
		p.r = ival{a.r.lo * a.r.lo, a.r.hi * a.r.hi}
		return s.tight(p)
	}
	if s.plain(a).none || s.plain(b).none {
		return noReal
	}
	p := s.mul(a, b)
	p.r = four(a.r.lo*b.r.lo, a.r.lo*b.r.hi, a.r.hi*b.r.lo, a.r.hi*b.r.hi)
	if same {
		p.r.lo = math.Max(0, p.r.lo)
		p.r.hi = mag(a.r) * mag(a.r)
	}
	if e > ulp*2 {
		p.r.hi += e * math.Abs(p.r.hi)
		p.r.lo -= e * math.Abs(p.r.lo)
	}
	p.err += e*mag(p.r) + tiny
	return s.tight(p)
}

// least is the smaller, or with sign -1 the larger, of two values whose order
// as real numbers is known.
func (s *sphere) least(a, b *real, sign float64) *real {
	if a.none || b.none || a.over != nil || b.over != nil {
		return noReal
	}
	if a.sq != nil || b.sq != nil {
		if b.sq != nil {
			a, b = b, a
		}
		// a root and a constant outside of the range of real numbers
		k, ok := s.isConst(b)
		if !ok {
			return noReal
		}
		f := s.bound(a.sq)
		if sign > 0 && k >= 1 && f.hi <= 1+1e-9 {
			r := *a
			r.sqE += math.Max(0, f.hi-1)
			r.r.hi = math.Min(r.r.hi, k)
			return &r
		}
		if sign < 0 && k <= 0 {
			return a
		}
		return noReal
	}
	q := s.lin(a, 1, b, -1)
	d := s.bound(q)
	e := math.Abs(q.err-a.err-b.err) + 1e-30
	d = ival{d.lo - e, d.hi + e}
	if sign < 0 {
		d = ival{-d.hi, -d.lo}
	}
	// d is the range of a-b (or b-a); a is the answer where it is at most 0,
	// up to what exceeds it
	if -d.lo < d.hi {
		a, b = b, a
		d = ival{-d.hi, -d.lo}
	}
	if d.hi > 1e-9 {
		return noReal
	}
	p := s.lin(a, 1, s.konst(0), 0)
	p.err = math.Max(a.err, b.err) + math.Max(0, d.hi)
	if sign > 0 {
		p.r = ival{math.Min(a.r.lo, b.r.lo), math.Min(a.r.hi, b.r.hi)}
	} else {
		p.r = ival{math.Max(a.r.lo, b.r.lo), math.Max(a.r.hi, b.r.hi)}
	}
	return s.tight(p)
}

func (s *sphere) root(x *real) *real {
	if x.sq != nil || x.r.lo < 0 {
		return noReal
	}
	r := &real{sq: s.lin(x, 1, s.konst(0), 0), sqE: x.err + 4*ulp*mag(x.r) + tiny, r: ival{math.Sqrt(x.r.lo), math.Sqrt(x.r.hi)}}
	r.sq.err = 0
	return r
}

// arc is the arc sine.
func (s *sphere) arc(x *real) *real {
	if x.sq == nil || x.over != nil || x.r.lo < 0 || x.r.hi > 1 {
		return noReal
	}
	return s.angle(x.sq, x.sqE, 1)
}

// angle is k*asin(sqrt(f)), computed from a value of f with an error.
func (s *sphere) angle(f *real, e, k float64) *real {
	b := s.bound(f)
	if b.lo < -1e-9 || b.hi > 1+1e-9 {
		return noReal
	}
	e += math.Max(0, -b.lo) + math.Max(0, b.hi-1)
	if e > 1e-3 {
		return noReal
	}
	at := func(x float64) float64 { return math.Asin(math.Sqrt(math.Max(0, math.Min(1, x)))) }
	if b.hi-b.lo < 1e-12 { // a constant
		p := &real{m: map[string]*smono{}, err: k * (at(e+b.hi-b.lo)*(1+1e-9) + libUl*2), r: ival{0, out(k*math.Pi/2, 1)}}
		s.put(p, k*at(b.lo), 1, nil)
		p.err += libUl * k * 2
		return s.tight(p)
	}
	id := -1
	for i, a := range s.atoms {
		if a.kind != 't' {
			continue
		}
		q := s.lin(a.f, 1, f, -1)
		d := q.err - a.f.err - f.err
		for _, m := range q.m {
			d += math.Abs(m.c) * s.magOf(m.atom)
		}
		if d < 1e-12 {
			e += d
			id = i
			break
		}
	}
	half := math.Pi / 2
	if id < 0 {
		id = s.intern(&satom{kind: 't', f: f, b: ival{math.Max(0, out(at(b.lo), -1)), math.Min(out(half, 1), out(at(b.hi), 1))}})
	}
	// |asin(sqrt(a)) - asin(sqrt(b))| is greatest at the ends of [0, 1]
	p := &real{m: map[string]*smono{}, err: k * (math.Asin(math.Sqrt(e))*(1+1e-9) + libUl*2), r: ival{0, out(k*half, 1)}}
	s.put(p, k, 1, []int{id})
	return s.tight(p)
}

// decide: the comparison holds.
func (s *sphere) decide(l *Term) bool {
	neg := false
	if l.Op == OpNot {
		l, neg = l.Args[0], true
	}
	switch l.Op {
	case OpFIsNaN:
		return neg && !s.of(l.Args[0]).none
	case OpFLe, OpFLt, OpFEq:
	default:
		s.why = "not a comparison of floats: " + l.Short()
		return false
	}
	x, y := s.of(l.Args[0]), s.of(l.Args[1])
	if x.none || y.none {
		return false
	}
	if x.sq != nil || y.sq != nil {
		s.why = "comparison of a root"
		return false
	}
	d := s.lin(x, 1, y, -1)
	b := s.bound(d)
	b = ival{math.Max(b.lo-d.err, x.r.lo-y.r.hi), math.Min(b.hi+d.err, x.r.hi-y.r.lo)}
	ok := false
	switch {
	case l.Op == OpFLe && !neg:
		ok = x.r.hi <= y.r.lo || b.hi <= 0
	case l.Op == OpFLt && !neg:
		ok = x.r.hi < y.r.lo || b.hi < 0
	case l.Op == OpFLe && neg:
		ok = x.r.lo > y.r.hi || b.lo > 0
	case l.Op == OpFLt && neg:
		ok = x.r.lo >= y.r.hi || b.lo >= 0
	case l.Op == OpFEq && !neg:
		ok = x.r.lo == x.r.hi && x.r == y.r
	default:
		ok = b.lo > 0 || b.hi < 0
	}
	if hybridDebug {
		fmt.Printf("sphere: %s neg %v: [%g, %g] by [%g, %g] and error %g: %v\n", l.Short(), neg, b.lo, b.hi, x.r.lo, x.r.hi, d.err, ok)
	}
	if !ok {
		s.why = fmt.Sprintf("a difference of %g to %g is possible as far as the error bounds tell", b.lo, b.hi)
	}
	return ok
}

// minMax recognises conditions that choose the smaller or larger of two.
func minMax(t *Term) bool {
	c, a, b := t.Args[0], t.Args[1], t.Args[2]
	if c.Op == OpNot {
		c = c.Args[0]
	}
	if c.Op != OpFLt && c.Op != OpFLe {
		return false
	}
	x, y := c.Args[0], c.Args[1]
	return a == x && b == y || a == y && b == x
}

// spherical proves a goal over float inputs by error-tracked trigonometry,
// distinguishing the cases of the conditions that occur.
func spherical(hyps []*Term, goal *Term, bnd map[string]ival, depth int) (bool, string) {
	for _, h := range hyps {
		if h == False {
			return true, ""
		}
	}
	if goal == True {
		return true, ""
	}
	if depth > 0 {
		var cond, abs *Term
		seen := map[int]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if cond != nil || seen[t.id] {
				return
			}
			seen[t.id] = true
			for _, a := range t.Args {
				walk(a)
			}
			if cond == nil && t.Op == OpFAbs {
				abs = t
			}
			if cond == nil && t.Op == OpIte && t.S.K != KBool && !minMax(t) {
				for c := t.Args[0]; ; c = c.Args[0] {
					if c.Op == OpNot || c.Op == OpAnd || c.Op == OpOr {
						continue
					}
					cond = c
					break
				}
			}
		}
		walk(goal)
		if cond != nil {
			for _, v := range []*Term{True, False} {
				m := map[int]*Term{cond.id: v}
				if v == True && cond.Op == OpFEq {
					x, y := cond.Args[0], cond.Args[1]
					if x.IsConst() {
						x, y = y, x
					}
					if x.Op == OpVar && (y.Op == OpVar || y.IsConst()) {
						m[x.id] = y
					}
				}
				memo := map[int]*Term{}
				hs := []*Term{}
				for _, h := range hyps {
					hs = append(hs, Subst(h, m, memo))
				}
				if ok, why := spherical(hs, Subst(goal, m, memo), bnd, depth-1); !ok {
					return false, why
				}
			}
			return true, ""
		}
		if abs != nil {
			s := newSphere(bnd)
			x := s.of(abs.Args[0])
			if !x.none && x.r.lo < 0 && x.r.hi > 0 {
				// either sign, whatever the value
				for _, v := range []*Term{abs.Args[0], FUn(OpFNeg, abs.Args[0])} {
					if ok, why := spherical(hyps, Subst(goal, map[int]*Term{abs.id: v}, map[int]*Term{}), bnd, depth-1); !ok {
						return false, why
					}
				}
				return true, ""
			}
		}
	}
	for _, g := range parts(goal) {
		alts := []*Term{g}
		if g.Op == OpOr {
			alts = g.Args
		}
		ok := false
		why := ""
		for _, a := range alts {
			s := newSphere(bnd)
			all := true
			for _, l := range parts(a) {
				if !s.decide(l) {
					all = false
					break
				}
			}
			if all {
				ok = true
				break
			}
			if !strings.Contains(why, s.why) {
				why += s.why + "; "
			}
		}
		if !ok {
			return false, why
		}
	}
	return true, ""
}

func (h *hybrid) spherical(hyps []*Term, goal *Term) (bool, string) {
	bnd := map[string]ival{}
	for _, v := range vars(append(append([]*Term(nil), hyps...), goal)...) {
		b, ok := h.fdom[v.Name]
		if v.S != SF64 || !ok || nan(b) {
			return false, ""
		}
		bnd[v.Name] = b
	}
	if len(bnd) == 0 || len(bnd) > 6 {
		return false, ""
	}
	ok, why := spherical(hyps, goal, bnd, 8)
	if !ok {
		h.log("trigonometry: %s", why)
		h.why = why
	}
	return ok, sphereBackend
}

// angle2 is the arc tangent of two roots, the squares of which add up to one.
func (s *sphere) angle2(y, x *real) *real {
	if y.sq == nil || x.sq == nil || y.over != nil || x.over != nil {
		return noReal
	}
	q := s.lin(y.sq, 1, x.sq, 1)
	left := 0.0
	for _, m := range q.m {
		if len(m.atom) == 0 {
			left += math.Abs(m.c - 1)
		} else {
			left += math.Abs(m.c) * s.magOf(m.atom)
		}
	}
	if left > 1e-9 {
		return noReal
	}
	left += q.err
	return s.angle(y.sq, (2*y.sqE+x.sqE+left)*(1+1e-6), 1)
}

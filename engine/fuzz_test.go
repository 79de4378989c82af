package main

import (
	"math"
	"math/rand"
	"testing"
)

// Tests of the interval and the trigonometric back ends on random terms: what
// they prove must hold at points drawn at random and near the edges.

type gen struct {
	rnd  *rand.Rand
	vars []*Term
	trig bool
}

func (g *gen) konst() *Term {
	switch g.rnd.Intn(3) {
	case 0:
		return ConstF(SF64, float64(g.rnd.Intn(9)-4))
	case 1:
		return ConstF(SF64, float64(g.rnd.Intn(33)-16)/4)
	}
	return ConstF(SF64, (g.rnd.Float64()-0.5)*6)
}

func (g *gen) term(d int) *Term {
	if d == 0 {
		if g.rnd.Intn(4) == 0 {
			return g.konst()
		}
		return g.vars[g.rnd.Intn(len(g.vars))]
	}
	t := func() *Term { return g.term(g.rnd.Intn(d)) }
	if g.trig {
		switch g.rnd.Intn(9) {
		case 0:
			return FBin(OpFAdd, t(), t())
		case 1:
			return FBin(OpFSub, t(), t())
		case 2:
			return FBin(OpFMul, t(), g.konst())
		case 3:
			return App("math.Sin", SF64, t())
		case 4:
			return App("math.Cos", SF64, t())
		case 5:
			return FBin(OpFMul, App("math.Sin", SF64, g.term(0)), App("math.Cos", SF64, t()))
		case 6:
			return App("math.Pow", SF64, App("math.Sin", SF64, t()), ConstF(SF64, 2))
		case 7:
			return App("math.Asin", SF64, App("math.Sqrt", SF64, App("math.Pow", SF64, App("math.Sin", SF64, t()), ConstF(SF64, 2))))
		default:
			return FUn(OpFNeg, t())
		}
	}
	pos := func() *Term { return ConstF(SF64, float64(g.rnd.Intn(12)+1)/2) }
	switch g.rnd.Intn(16) {
	case 0, 1:
		return FBin(OpFAdd, t(), t())
	case 2, 3:
		return FBin(OpFSub, t(), t())
	case 4:
		return FBin(OpFMul, t(), g.konst())
	case 5:
		return FBin(OpFDiv, t(), pos())
	case 6:
		return FUn(OpFFloor, t())
	case 7:
		return FUn([]Op{OpFCeil, OpFTrunc, OpFAbs, OpFNeg}[g.rnd.Intn(4)], t())
	case 8:
		return App("math.Mod", SF64, t(), pos())
	case 9:
		return App("math.Remainder", SF64, t(), pos())
	case 10:
		return App([]string{"math.Min", "math.Max"}[g.rnd.Intn(2)], SF64, t(), t())
	case 11:
		return App([]string{"math.Round", "math.RoundToEven"}[g.rnd.Intn(2)], SF64, t())
	case 12, 13:
		return Ite(FBin([]Op{OpFLt, OpFLe}[g.rnd.Intn(2)], t(), t()), t(), t())
	case 14:
		x, d := t(), pos()
		return FBin(OpFSub, x, FBin(OpFMul, d, FUn(OpFFloor, FBin(OpFDiv, x, d))))
	default:
		return FBin(OpFMul, t(), t())
	}
}

func (g *gen) point(box []ival) map[string]uint64 {
	env := map[string]uint64{}
	for i, v := range g.vars {
		b := box[i]
		x := b.lo + g.rnd.Float64()*(b.hi-b.lo)
		switch g.rnd.Intn(6) {
		case 0:
			x = math.Round(x)
		case 1:
			x = math.Round(x*2) / 2
		case 2:
			x = math.Nextafter(math.Round(x*2)/2, math.Inf(g.rnd.Intn(2)*2-1))
		case 3:
			x = []float64{b.lo, b.hi}[g.rnd.Intn(2)]
		}
		env[v.Name] = math.Float64bits(math.Max(b.lo, math.Min(b.hi, x)))
	}
	return env
}

func TestBoxes(t *testing.T) {
	proved, failed := 0, 0
	for seed := int64(0); seed < 1000; seed++ {
		g := &gen{rnd: rand.New(rand.NewSource(seed)), vars: []*Term{Var("x", SF64), Var("y", SF64)}}
		box := []ival{{-7.5, 10}, {-3, 4}}
		e := g.term(4)
		if e.IsConst() {
			continue
		}
		top := math.Inf(-1)
		for i := 0; i < 300; i++ {
			if v, ok := Eval(e, g.point(box)); ok {
				top = math.Max(top, f64s(v))
			}
		}
		if math.IsNaN(top) || math.IsInf(top, 0) {
			continue
		}
		for _, slack := range []float64{0.3, 1e-3, -1e-3, 0} {
			goal := FBin(OpFLe, e, ConstF(SF64, top+slack))
			if goal.IsConst() {
				continue
			}
			r := proveBoxes(vars(goal), boxOf(vars(goal), g.vars, box), goal, nil, 3000)
			if !r.proved {
				failed++
				continue
			}
			proved++
			for i := 0; i < 3000; i++ {
				env := g.point(box)
				if v, ok := Eval(goal, env); ok && v == 0 {
					t.Fatalf("seed %d: proved, but false at %v: %v", seed, env, goal)
				}
			}
		}
	}
	t.Log(proved, "proved", failed, "not")
}

func boxOf(vs, all []*Term, box []ival) []ival {
	var out []ival
	for _, v := range vs {
		for i, a := range all {
			if a == v {
				out = append(out, box[i])
			}
		}
	}
	return out
}

func (s *sphere) value(p *real, env map[string]uint64) float64 {
	sum := 0.0
	for _, m := range p.m {
		x := m.c
		for _, a := range m.atom {
			x *= s.atomValue(s.atoms[a], env)
		}
		sum += x
	}
	return sum
}

func (s *sphere) atomValue(a *satom, env map[string]uint64) float64 {
	switch a.kind {
	case 'v':
		return f64s(env[a.name])
	case 't':
		return math.Asin(math.Sqrt(math.Max(0, math.Min(1, s.value(a.f, env)))))
	}
	l := 0.0
	for n, c := range a.l.c {
		l += c * f64s(env[n])
	}
	if a.kind == 's' {
		return math.Sin(l)
	}
	return math.Cos(l)
}

func TestSphere(t *testing.T) {
	bounded, not := 0, 0
	for seed := int64(0); seed < 20000; seed++ {
		g := &gen{rnd: rand.New(rand.NewSource(seed)), vars: []*Term{Var("x", SF64), Var("y", SF64), Var("z", SF64)}, trig: true}
		box := []ival{{-1.5, 1.5}, {-3, 4}, {0, 1}}
		e := g.term(4)
		s := newSphere(map[string]ival{"x": box[0], "y": box[1], "z": box[2]})
		p := s.of(e)
		if p.none || p.sq != nil {
			not++
			continue
		}
		bounded++
		for i := 0; i < 200; i++ {
			env := g.point(box)
			v, ok := Eval(e, env)
			if !ok {
				t.Fatal("no value")
			}
			x, y := f64s(v), s.value(p, env)
			if !(x >= p.r.lo && x <= p.r.hi) {
				t.Fatalf("seed %d: %g is not in %v: %v", seed, x, p.r, e)
			}
			// y is itself rounded; near 0 and 1 its angles are off by the root
			tol := 1e-12
			for _, a := range s.atoms {
				if a.kind == 't' {
					tol = 3e-7
				}
			}
			if !(math.Abs(x-y) <= p.err+tol*(1+math.Abs(x))) {
				t.Fatalf("seed %d: %g is not within %g of %g: %v", seed, x, p.err, y, e)
			}
		}
	}
	t.Log(bounded, "bounded", not, "not")
}

// codes are float terms over bit-vector inputs, as positions are coded.
func (g *gen) code(d int) *Term {
	bits := func() *Term {
		v := g.vars[g.rnd.Intn(len(g.vars))]
		return Conv(OpFFromU, SF64, ZExt(v, 64))
	}
	if d == 0 {
		if g.rnd.Intn(5) == 0 {
			return g.konst()
		}
		return FBin(OpFDiv, bits(), ConstF(SF64, []float64{1, 2, 64, 512}[g.rnd.Intn(4)]))
	}
	t := func() *Term { return g.code(g.rnd.Intn(d)) }
	n := func() *Term { return ConstF(SF64, float64(g.rnd.Intn(7)+1)) }
	switch g.rnd.Intn(12) {
	case 0, 1:
		return FBin(OpFAdd, t(), t())
	case 2, 3:
		return FBin(OpFSub, t(), t())
	case 4, 5:
		return FBin(OpFMul, t(), n())
	case 6:
		return FBin(OpFDiv, t(), n())
	case 7:
		return FUn(OpFFloor, FBin(OpFAdd, t(), ConstF(SF64, 0.5)))
	case 8:
		x, d := t(), n()
		return FBin(OpFSub, x, FBin(OpFMul, d, FUn(OpFFloor, FBin(OpFDiv, x, d))))
	case 9:
		return App([]string{"math.Min", "math.Max", "math.Mod"}[g.rnd.Intn(3)], SF64, t(), n())
	case 10:
		return Ite(FBin([]Op{OpFLt, OpFLe}[g.rnd.Intn(2)], t(), t()), t(), t())
	default:
		return FUn([]Op{OpFAbs, OpFNeg, OpFFloor}[g.rnd.Intn(3)], t())
	}
}

func TestHybrid(t *testing.T) {
	proved, failed := 0, 0
	for seed := int64(0); seed < 120; seed++ {
		g := &gen{rnd: rand.New(rand.NewSource(seed)), vars: []*Term{Var("a", BV(9)), Var("b", BV(9)), Var("c", BV(8)), Var("n", BV(3))}}
		e := g.code(5)
		if e.IsConst() {
			continue
		}
		draw := func() map[string]uint64 {
			env := map[string]uint64{}
			for _, v := range g.vars {
				x := g.rnd.Uint64() & mask(v.W())
				switch g.rnd.Intn(4) {
				case 0:
					x = mask(v.W()) - uint64(g.rnd.Intn(4))
				case 1:
					x = uint64(g.rnd.Intn(4))
				}
				env[v.Name] = x
			}
			return env
		}
		top := math.Inf(-1)
		for i := 0; i < 2000; i++ {
			if v, ok := Eval(e, draw()); ok {
				top = math.Max(top, f64s(v))
			}
		}
		if math.IsNaN(top) || math.IsInf(top, 0) {
			continue
		}
		for _, slack := range []float64{0.3, 0, -1e-3} {
			goal := FBin(OpFLe, e, ConstF(SF64, top+slack))
			if goal.IsConst() {
				continue
			}
			st, _ := (&Engine{}).hybridProve(&Obl{PC: True, Cond: goal, Kind: "test"}, 2)
			if st != "proved" {
				failed++
				continue
			}
			proved++
			for i := 0; i < 5000; i++ {
				env := draw()
				if v, ok := Eval(goal, env); ok && v == 0 {
					t.Fatalf("seed %d: proved, but false at %v: %v", seed, env, goal)
				}
			}
		}
	}
	t.Log(proved, "proved", failed, "not")
}

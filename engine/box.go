package main

// Interval evaluation of terms over boxes, with case distinctions on floors
// and comparisons that a box leaves open, and subdivision of the box. The
// float operations involved are monotone and correctly rounded, so evaluating
// them at the ends of an interval bounds the machine's result.

import (
	"math"
	"math/rand"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
)

type ival struct{ lo, hi float64 }

var everything = ival{math.Inf(-1), math.Inf(1)} // and not-a-number

type boxer struct {
	order  []*Term
	pos    map[int]int
	args   [][]int
	decide []bool // comparisons that conditions depend on
	vals   []ival
	vpos   []int
	goal   int
	hyps   []int
	budget int
	hull   bool   // no case distinctions
	pinned []bool // case distinctions made
	pin    []ival
	clips  []ival   // further bounds of nodes
	facts  [][]fact // of the cases of the last node split, what they say of other nodes
	caseK  []float64
	modK   []float64 // the whole multiple a remainder leaves out, if known
}

type fact struct {
	node int
	in   ival
}

func newBoxer(vars []*Term, goal *Term, hyps []*Term) *boxer {
	ev := newEvaluator(append(append([]*Term(nil), hyps...), goal)...)
	b := &boxer{order: ev.order, pos: ev.pos, args: ev.args}
	b.vals = make([]ival, len(b.order))
	b.decide = make([]bool, len(b.order))
	b.pinned = make([]bool, len(b.order))
	b.pin = make([]ival, len(b.order))
	b.modK = make([]float64, len(b.order))
	b.clips = make([]ival, len(b.order))
	for i := range b.clips {
		b.clips[i] = everything
	}
	b.goal = b.pos[goal.id]
	for _, h := range hyps {
		b.hyps = append(b.hyps, b.pos[h.id])
	}
	for _, v := range vars {
		p, ok := b.pos[v.id]
		if !ok {
			p = -1
		}
		b.vpos = append(b.vpos, p)
	}
	for i := len(b.order) - 1; i >= 0; i-- {
		t := b.order[i]
		if t.Op == OpIte && t.S.K != KBool {
			b.decide[b.args[i][0]] = true
		}
		if t.S.K == KBool && b.decide[i] {
			for _, a := range b.args[i] {
				if b.order[a].S.K == KBool {
					b.decide[a] = true
				}
			}
		}
	}
	return b
}

func nan(v ival) bool {
	return math.IsInf(v.lo, 0) || math.IsInf(v.hi, 0) || v.lo != v.lo || v.hi != v.hi
}

func mk(lo, hi float64) ival {
	r := ival{lo, hi}
	if nan(r) || lo > hi {
		return everything
	}
	return r
}

func four(a, b, c, d float64) ival {
	return mk(math.Min(math.Min(a, b), math.Min(c, d)), math.Max(math.Max(a, b), math.Max(c, d)))
}

var bUnknown, bFalse, bTrue = ival{0, 1}, ival{0, 0}, ival{1, 1}

func bval(t, f bool) ival {
	if t {
		return bTrue
	}
	if f {
		return bFalse
	}
	return bUnknown
}

// eval computes the nodes from i on. It returns whether the goal holds
// whatever the open case distinctions.
func (b *boxer) eval(i int) bool {
	for ; i < len(b.order); i++ {
		t := b.order[i]
		a := b.args[i]
		v := b.vals
		arg := func(k int) ival { return v[a[k]] }
		r := everything
		var split []ival
		if b.pinned[i] {
			v[i] = b.pin[i]
			continue
		}
		b.facts, b.caseK = nil, nil
		switch t.Op {
		case OpConst:
			switch t.S.K {
			case KBool:
				r = ival{float64(t.Val), float64(t.Val)}
			case KBV:
				x := t.Val
				if t.W() == 64 {
					r = ival{float64(int64(x)), float64(int64(x))}
				} else {
					r = ival{float64(x), float64(x)}
				}
				if math.Abs(r.lo) > exactLimit {
					r = everything
				}
			case KF64:
				r = mk(t.F(), t.F())
			}
		case OpVar:
			continue // set by the caller
		case OpNot:
			r = ival{1 - arg(0).hi, 1 - arg(0).lo}
		case OpAnd:
			r = bTrue
			for k := range a {
				x := arg(k)
				r = ival{math.Min(r.lo, x.lo), math.Min(r.hi, x.hi)}
			}
		case OpOr:
			r = bFalse
			for k := range a {
				x := arg(k)
				r = ival{math.Max(r.lo, x.lo), math.Max(r.hi, x.hi)}
			}
		case OpIte:
			c, x, y := arg(0), arg(1), arg(2)
			switch {
			case c == bTrue:
				r = x
			case c == bFalse:
				r = y
			default:
				r = ival{math.Min(x.lo, y.lo), math.Max(x.hi, y.hi)}
			}
		case OpFLt, OpSLt:
			x, y := arg(0), arg(1)
			if t.Op == OpSLt && t.Args[0].W() != 64 {
				r = bUnknown
				break
			}
			r = bval(!nan(x) && !nan(y) && x.hi < y.lo, !nan(x) && !nan(y) && x.lo >= y.hi)
		case OpFLe:
			x, y := arg(0), arg(1)
			r = bval(!nan(x) && !nan(y) && x.hi <= y.lo, !nan(x) && !nan(y) && x.lo > y.hi)
		case OpFEq, OpEq:
			x, y := arg(0), arg(1)
			if t.Args[0].S.K == KBool {
				r = bval(x.lo == x.hi && x == y, x.lo == x.hi && y.lo == y.hi && x != y)
				break
			}
			r = bval(!nan(x) && x.lo == x.hi && x == y, !nan(x) && !nan(y) && (x.hi < y.lo || y.hi < x.lo))
		case OpULt:
			r = bUnknown
			if x, y := arg(0), arg(1); t.Args[0].W() < 64 {
				r = bval(!nan(x) && !nan(y) && x.hi < y.lo, !nan(x) && !nan(y) && x.lo >= y.hi)
			}
		case OpFIsNaN:
			r = bUnknown
			if !nan(arg(0)) {
				r = bFalse
			}
		case OpConcat:
			if len(a) == 2 && t.Args[0].IsConst() && t.Args[0].Val == 0 {
				r = arg(1)
			} else if last := t.Args[len(t.Args)-1]; len(a) == 2 && last.IsConst() && last.Val == 0 && leadZeros(t) > 0 {
				f := math.Ldexp(1, last.W())
				r = mk(arg(0).lo*f, arg(0).hi*f)
			} else if t.W() < 53 {
				r = ival{0, float64(mask(t.W()))}
			}
		case OpExtract:
			if t.W() < 53 {
				r = ival{0, float64(mask(t.W()))}
			}
		case OpAdd, OpSub, OpMul:
			if t.W() != 64 || nan(arg(0)) || nan(arg(1)) {
				break
			}
			x, y := arg(0), arg(1)
			switch t.Op {
			case OpAdd:
				r = mk(x.lo+y.lo, x.hi+y.hi)
			case OpSub:
				r = mk(x.lo-y.hi, x.hi-y.lo)
			default:
				r = four(x.lo*y.lo, x.lo*y.hi, x.hi*y.lo, x.hi*y.hi)
			}
			if r.lo <= -exactLimit || r.hi >= exactLimit {
				r = everything
			}
		case OpFFromS:
			if t.Args[0].W() == 64 && t.S == SF64 {
				r = arg(0)
			}
		case OpFFromU:
			if t.Args[0].W() < 64 && t.S == SF64 {
				r = arg(0)
			}
		default:
			if t.S != SF64 && t.Op != OpApp {
				break
			}
			r, split = b.float(t, i)
		}
		if t.S.K == KBool && r == bUnknown && b.decide[i] && !b.hull && t.Op != OpAnd && t.Op != OpOr && t.Op != OpNot && t.Op != OpIte {
			split = []ival{bTrue, bFalse}
			b.halves(t, i)
		}
		if t.S.K == KBool && r.lo != 0 && r.lo != 1 {
			r = bUnknown
		}
		if c := b.clips[i]; c != everything && len(split) == 0 && !nan(r) {
			r = ival{math.Max(r.lo, c.lo), math.Min(r.hi, c.hi)}
			if r.lo > r.hi {
				return true // this case does not arise
			}
		}
		if len(split) > 1 {
			facts, ks := b.facts, b.caseK
			b.pinned[i] = true
			ok := true
			for k, s := range split {
				if b.budget--; b.budget < 0 {
					ok = false
					break
				}
				v[i], b.pin[i] = s, s
				if ks != nil {
					b.modK[i] = ks[k]
				}
				if facts == nil {
					if ok = b.eval(i + 1); !ok {
						break
					}
					continue
				}
				saved, savedK := append([]ival(nil), v[:i+1]...), append([]float64(nil), b.modK[:i+1]...)
				from, void := i+1, false
				type old struct {
					node int
					clip ival
				}
				var olds []old
				for _, f := range facts[k] {
					leaf, c := b.contract(f.node, f.in)
					if leaf >= 0 {
						void = void || c.lo > c.hi
						if c != v[leaf] {
							v[leaf], from = c, 0
						}
					}
					if x := v[f.node]; !nan(x) && b.order[f.node].Op != OpVar {
						n := ival{math.Max(x.lo, f.in.lo), math.Min(x.hi, f.in.hi)}
						void = void || n.lo > n.hi
						if n != x && !b.pinned[f.node] {
							c := b.clips[f.node]
							olds = append(olds, old{f.node, c})
							b.clips[f.node] = ival{math.Max(n.lo, c.lo), math.Min(n.hi, c.hi)}
							v[f.node] = n
							from = min(from, f.node+1)
						}
					}
				}
				if !void {
					ok = b.eval(from)
				}
				for k := len(olds) - 1; k >= 0; k-- {
					b.clips[olds[k].node] = olds[k].clip
				}
				copy(v, saved)
				copy(b.modK, savedK)
				if !ok {
					break
				}
			}
			b.pinned[i] = false
			return ok
		}
		if len(split) == 1 {
			r = split[0]
		}
		v[i] = r
	}
	for _, h := range b.hyps {
		if b.vals[h] == bFalse {
			return true
		}
	}
	return b.vals[b.goal] == bTrue
}

// contract narrows the input that node i depends on alone, through operations
// with constants, to where the node can be in r. The interval it returns is
// empty if it cannot.
func (b *boxer) contract(i int, r ival) (int, ival) {
	wider := func(lo, hi float64) ival {
		return ival{lo - 1e-15*math.Abs(lo) - 1e-300, hi + 1e-15*math.Abs(hi) + 1e-300}
	}
	for {
		t, a := b.order[i], b.args[i]
		if r.lo != r.lo || r.hi != r.hi {
			return -1, r
		}
		point := func(k int) bool { return b.vals[a[k]].lo == b.vals[a[k]].hi && !nan(b.vals[a[k]]) }
		switch t.Op {
		case OpVar:
			x := b.vals[i]
			if t.S.K != KF64 {
				r = ival{math.Ceil(r.lo), math.Floor(r.hi)}
			}
			return i, ival{math.Max(x.lo, r.lo), math.Min(x.hi, r.hi)}
		case OpFFromS, OpFFromU:
			if t.S != SF64 || t.Args[0].S.K != KBV || t.Args[0].W() > 53 && t.Op == OpFFromU {
				return -1, r
			}
			if x := b.vals[a[0]]; nan(x) || t.Op == OpFFromS && t.Args[0].W() < 64 {
				return -1, r
			}
			i = a[0]
		case OpConcat:
			if len(a) != 2 || !t.Args[0].IsConst() || t.Args[0].Val != 0 {
				return -1, r
			}
			i = a[1]
		case OpFNeg:
			r = ival{-r.hi, -r.lo}
			i = a[0]
		case OpFDiv:
			if !point(1) || b.vals[a[1]].lo <= 0 {
				return -1, r
			}
			c := b.vals[a[1]].lo
			q := r
			r = wider(r.lo*c, r.hi*c)
			// the sign is that of the quotient
			if q.hi < 0 {
				r.hi = math.Min(r.hi, -math.SmallestNonzeroFloat64)
			}
			if q.lo > 0 {
				r.lo = math.Max(r.lo, math.SmallestNonzeroFloat64)
			}
			i = a[0]
		case OpFMul:
			k := 0
			if point(0) {
				k = 1
			}
			if !point(1-k) || b.vals[a[1-k]].lo <= 0 {
				return -1, r
			}
			c := b.vals[a[1-k]].lo
			r = wider(r.lo/c, r.hi/c)
			i = a[k]
		case OpFAdd, OpFSub:
			k := 0
			if point(0) {
				k = 1
			}
			if !point(1 - k) {
				return -1, r
			}
			c := b.vals[a[1-k]].lo
			// the rounding error is relative to the result
			r = wider(r.lo, r.hi)
			e := 1e-15 * math.Abs(c)
			switch {
			case t.Op == OpFAdd:
				r = ival{r.lo - c - e, r.hi - c + e}
			case k == 0:
				r = ival{r.lo + c - e, r.hi + c + e}
			default:
				r = ival{c - r.hi - e, c - r.lo + e}
			}
			r = wider(r.lo, r.hi)
			i = a[k]
		case OpApp:
			if t.Name != "math.Mod" && t.Name != "math.Remainder" || !point(1) || b.vals[a[1]].lo <= 0 || b.modK[i] != b.modK[i] {
				return -1, r
			}
			c := b.modK[i] * b.vals[a[1]].lo
			e := 1e-15 * math.Abs(c)
			if c != 0 {
				r = ival{r.lo + c - e, r.hi + c + e}
				r = wider(r.lo, r.hi)
			}
			i = a[0]
		default:
			return -1, r
		}
	}
}

// cases records what the cases of a node say of its argument.
func (b *boxer) cases(i int, r ival, out []ival, from, to func(k float64) float64) (ival, []ival) {
	b.facts = nil
	for _, k := range out {
		b.facts = append(b.facts, []fact{{b.args[i][0], ival{from(k.lo), to(k.lo)}}})
	}
	return r, out
}

// halves records what the outcomes of a comparison with a constant say of what
// is compared.
func (b *boxer) halves(t *Term, i int) {
	if t.Op != OpFLt && t.Op != OpFLe {
		return
	}
	x, y := b.args[i][0], b.args[i][1]
	up, down := math.Inf(1), math.Inf(-1)
	switch v := b.vals; {
	case nan(v[x]) || nan(v[y]):
	case v[y].lo == v[y].hi:
		c := v[y].lo
		b.facts = [][]fact{{{x, ival{down, c}}}, {{x, ival{c, up}}}}
		if t.Op == OpFLt {
			b.facts[0][0].in.hi = math.Nextafter(c, down)
		} else {
			b.facts[1][0].in.lo = math.Nextafter(c, up)
		}
	case v[x].lo == v[x].hi:
		c := v[x].lo
		b.facts = [][]fact{{{y, ival{c, up}}}, {{y, ival{down, c}}}}
		if t.Op == OpFLt {
			b.facts[0][0].in.lo = math.Nextafter(c, up)
		} else {
			b.facts[1][0].in.hi = math.Nextafter(c, down)
		}
	}
}

// below is the largest number that is rounded down to k.
func below(k float64) float64 { return math.Nextafter(k+1, math.Inf(-1)) }

func offset(d float64) func(float64) float64 { return func(k float64) float64 { return k + d } }

// steps lists the integers lo..hi as cases, if they are few.
func (b *boxer) steps(lo, hi float64) (ival, []ival) {
	if lo == hi || b.hull || hi-lo > 3 || math.IsInf(lo, 0) || math.IsInf(hi, 0) || lo != lo || hi != hi {
		return mk(lo, hi), nil
	}
	var out []ival
	for k := lo; k <= hi; k++ {
		out = append(out, ival{k, k})
	}
	return ival{lo, hi}, out
}

// what truncates to k lies between these
func truncLow(k float64) float64 {
	if k <= 0 {
		return k - 1
	}
	return k
}

func truncHigh(k float64) float64 {
	if k >= 0 {
		return k + 1
	}
	return k
}

// remainder recognises x - d*floor(x/d) and returns d.
func remainder(t *Term) *Term {
	if m := t.Args[1]; m.Op == OpFMul {
		for k := 0; k < 2; k++ {
			d, f := m.Args[k], m.Args[1-k]
			if f.Op == OpFFloor && f.Args[0].Op == OpFDiv && f.Args[0].Args[0] == t.Args[0] && f.Args[0].Args[1] == d {
				return d
			}
		}
	}
	return nil
}

func (b *boxer) float(t *Term, i int) (ival, []ival) {
	a := b.args[i]
	arg := func(k int) ival { return b.vals[a[k]] }
	for k, x := range t.Args {
		if x.S != SF64 {
			return everything, nil
		}
		if nan(arg(k)) && t.Op != OpApp {
			return everything, nil
		}
	}
	if t.S != SF64 {
		return everything, nil
	}
	switch t.Op {
	case OpFAdd:
		x, y := arg(0), arg(1)
		return mk(x.lo+y.lo, x.hi+y.hi), nil
	case OpFSub:
		x, y := arg(0), arg(1)
		r := mk(x.lo-y.hi, x.hi-y.lo)
		if d := remainder(t); d != nil && !nan(r) {
			// x less a multiple of d, up to rounding
			if d := b.vals[b.pos[d.id]]; d.lo == d.hi && d.lo > 0 {
				e := 1e-15 * (math.Abs(x.lo) + math.Abs(x.hi) + d.lo)
				r = ival{math.Max(r.lo, -e), math.Min(r.hi, d.lo+e)}
			}
		}
		return r, nil
	case OpFMul:
		x, y := arg(0), arg(1)
		return four(x.lo*y.lo, x.lo*y.hi, x.hi*y.lo, x.hi*y.hi), nil
	case OpFDiv:
		x, y := arg(0), arg(1)
		if y.lo <= 0 && y.hi >= 0 {
			return everything, nil
		}
		return four(x.lo/y.lo, x.lo/y.hi, x.hi/y.lo, x.hi/y.hi), nil
	case OpFNeg:
		return ival{-arg(0).hi, -arg(0).lo}, nil
	case OpFAbs:
		x := arg(0)
		switch {
		case x.lo >= 0:
			return x, nil
		case x.hi <= 0:
			return ival{-x.hi, -x.lo}, nil
		}
		return ival{0, math.Max(-x.lo, x.hi)}, nil
	case OpFFloor:
		r, out := b.steps(math.Floor(arg(0).lo), math.Floor(arg(0).hi))
		return b.cases(i, r, out, offset(0), below)
	case OpFCeil:
		r, out := b.steps(math.Ceil(arg(0).lo), math.Ceil(arg(0).hi))
		return b.cases(i, r, out, offset(-1), offset(0))
	case OpFTrunc:
		r, out := b.steps(math.Trunc(arg(0).lo), math.Trunc(arg(0).hi))
		return b.cases(i, r, out, truncLow, truncHigh)
	case OpApp:
		switch t.Name {
		case "math.Max", "math.Min":
			x, y := arg(0), arg(1)
			if nan(x) || nan(y) {
				return everything, nil
			}
			if t.Name == "math.Max" {
				return ival{math.Max(x.lo, y.lo), math.Max(x.hi, y.hi)}, nil
			}
			return ival{math.Min(x.lo, y.lo), math.Min(x.hi, y.hi)}, nil
		case "math.Round":
			if x := arg(0); !nan(x) {
				r, out := b.steps(math.Round(x.lo), math.Round(x.hi))
				return b.cases(i, r, out, offset(-0.5), offset(0.5))
			}
		case "math.RoundToEven":
			if x := arg(0); !nan(x) {
				r, out := b.steps(math.RoundToEven(x.lo), math.RoundToEven(x.hi))
				return b.cases(i, r, out, offset(-0.5), offset(0.5))
			}
		case "math.Mod", "math.Remainder":
			x, y := arg(0), arg(1)
			if nan(x) || y.lo != y.hi || y.lo <= 0 || nan(y) {
				b.modK[i] = math.NaN()
				return everything, nil
			}
			// exact: x minus a whole multiple of y
			q := func(v float64, d float64) float64 {
				v = v/y.lo + d*1e-9*(1+math.Abs(v/y.lo))
				if t.Name == "math.Mod" {
					return math.Trunc(v)
				}
				return math.Round(v)
			}
			m := y.lo
			if t.Name == "math.Remainder" {
				m = y.lo / 2
			}
			_, ks := b.steps(q(x.lo, -1), q(x.hi, 1))
			if ks == nil {
				k := q(x.lo, -1)
				if k != q(x.hi, 1) {
					b.modK[i] = math.NaN()
					return ival{-m, m}, nil
				}
				ks = []ival{{k, k}}
			}
			var out []ival
			e := 1e-12 * (1 + math.Abs(x.lo) + math.Abs(x.hi))
			for _, k := range ks {
				r := ival{math.Max(-m, x.lo-k.lo*y.lo-e), math.Min(m, x.hi-k.lo*y.lo+e)}
				in := ival{(k.lo - 0.5) * y.lo, (k.lo + 0.5) * y.lo}
				if t.Name == "math.Mod" {
					if k.lo > 0 {
						r.lo = math.Max(0, r.lo)
					} else if k.lo < 0 {
						r.hi = math.Min(0, r.hi)
					}
					in = ival{truncLow(k.lo) * y.lo, truncHigh(k.lo) * y.lo}
				}
				if r.lo <= r.hi {
					out = append(out, r)
					b.caseK = append(b.caseK, k.lo)
					d := 1e-15 * (math.Abs(k.lo) + 1) * y.lo
					b.facts = append(b.facts, []fact{{b.args[i][0], ival{in.lo - d, in.hi + d}}})
				}
			}
			if len(out) == 0 {
				b.modK[i] = math.NaN()
				return ival{-m, m}, nil
			}
			b.modK[i] = b.caseK[0]
			return out[0], out
		case "math.Cos", "math.Sin":
			if !nan(arg(0)) {
				return ival{-1, 1}, nil
			}
		case "math.Sqrt":
			if x := arg(0); !nan(x) && x.lo >= 0 {
				return ival{math.Sqrt(x.lo), math.Sqrt(x.hi)}, nil
			}
		}
	}
	return everything, nil
}

// rangeIn bounds a float term over a box.
func rangeIn(t *Term, vars []*Term, box []ival) ival {
	b := newBoxer(vars, t, nil)
	b.hull = true
	for k, p := range b.vpos {
		if p >= 0 {
			b.vals[p] = box[k]
		}
	}
	for i, x := range b.order {
		if x.Op == OpVar && !contains(b.vpos, i) {
			if x.S.K == KBV && x.W() < 53 {
				b.vals[i] = ival{0, float64(mask(x.W()))}
			} else if x.S.K == KBool {
				b.vals[i] = bUnknown
			} else {
				b.vals[i] = everything
			}
		}
	}
	b.eval(0)
	return b.vals[b.goal]
}

func contains(s []int, x int) bool {
	for _, y := range s {
		if x == y {
			return true
		}
	}
	return false
}

// weights estimates how much each variable, over its whole range, moves what
// floors are taken of and what is compared.
func (b *boxer) weights(box []ival, isInt []bool) []float64 {
	const points = 15
	nodes := map[int]bool{}
	for i, t := range b.order {
		floor := t.Op == OpFFloor || t.Op == OpFCeil || t.Op == OpFTrunc || t.Op == OpApp
		if floor || t.Op == OpFLt || t.Op == OpFLe || t.Op == OpFEq {
			for _, a := range b.args[i] {
				if b.order[a].S == SF64 {
					nodes[a] = true
				}
			}
		}
	}
	rng := rand.New(rand.NewSource(1))
	moves := map[int][][]float64{} // node, variable: changes
	set := func(x []float64) {
		for k, p := range b.vpos {
			if p >= 0 {
				b.vals[p] = ival{x[k], x[k]}
			}
		}
		b.budget = 64
		b.eval(0)
	}
	for n := 0; n < points; n++ {
		x := make([]float64, len(box))
		for k, v := range box {
			x[k] = v.lo + rng.Float64()*(v.hi-v.lo)
			if isInt[k] {
				x[k] = math.Floor(x[k])
			}
		}
		set(x)
		base := append([]ival(nil), b.vals...)
		for k, v := range box {
			d := (v.hi - v.lo) * 1e-7
			if isInt[k] {
				d = 1
			}
			y := append([]float64(nil), x...)
			y[k] += d
			set(y)
			for i := range nodes {
				if moves[i] == nil {
					moves[i] = make([][]float64, len(box))
				}
				m := math.Abs(b.vals[i].lo-base[i].lo) / d * (v.hi - v.lo)
				if m == m && !math.IsInf(m, 0) {
					moves[i][k] = append(moves[i][k], m)
				}
			}
		}
	}
	w := make([]float64, len(box))
	for _, by := range moves {
		med := make([]float64, len(box))
		top := 0.0
		for k, ms := range by {
			if len(ms) > 0 {
				sort.Float64s(ms)
				med[k] = ms[len(ms)/2]
			}
			top = math.Max(top, med[k])
		}
		for k := range med {
			if top > 0 {
				w[k] = math.Max(w[k], med[k]/top)
			}
		}
	}
	for k := range w {
		w[k] = math.Max(w[k], 1e-6)
	}
	return w
}

type boxResult struct {
	proved bool
	why    string
	boxes  uint64
	point  []float64 // where the subdivision ended
}

// proveBoxes shows the goal on a box of float and integer variables.
func proveBoxes(vars []*Term, box []ival, goal *Term, hyps []*Term, maxBoxes uint64) boxResult {
	type job struct {
		box []ival
	}
	isInt := make([]bool, len(vars))
	minW := make([]float64, len(vars))
	for i, v := range vars {
		isInt[i] = v.S.K != KF64
		minW[i] = (box[i].hi - box[i].lo) * 1e-9
	}
	full := append([]ival(nil), box...)
	weight := newBoxer(vars, goal, hyps).weights(box, isInt)
	var count uint64
	var mu sync.Mutex
	var res boxResult
	var failed int32
	queue := []job{{append([]ival(nil), box...)}}
	active := 0
	cond := sync.NewCond(&mu)
	fail := func(why string, bx []ival) {
		mu.Lock()
		if atomic.LoadInt32(&failed) == 0 {
			atomic.StoreInt32(&failed, 1)
			res.why = why
			for _, v := range bx {
				res.point = append(res.point, v.lo+(v.hi-v.lo)/2)
			}
		}
		mu.Unlock()
	}
	work := func() {
		b := newBoxer(vars, goal, hyps)
		local := []job{}
		for atomic.LoadInt32(&failed) == 0 {
			var j job
			if len(local) > 0 {
				j = local[len(local)-1]
				local = local[:len(local)-1]
			} else {
				mu.Lock()
				for len(queue) == 0 && active > 0 && atomic.LoadInt32(&failed) == 0 {
					cond.Wait()
				}
				if len(queue) == 0 || atomic.LoadInt32(&failed) != 0 {
					cond.Broadcast()
					mu.Unlock()
					return
				}
				j = queue[len(queue)-1]
				queue = queue[:len(queue)-1]
				active++
				mu.Unlock()
			}
			n := atomic.AddUint64(&count, 1)
			if n > maxBoxes || n&1023 == 0 && pastDeadline() {
				fail("too many boxes", j.box)
			}
			for k, p := range b.vpos {
				if p >= 0 {
					b.vals[p] = j.box[k]
				}
			}
			b.budget = 256
			if !b.eval(0) {
				// halve the relatively widest side
				best, bw := -1, 0.0
				for k, v := range j.box {
					w := v.hi - v.lo
					if w <= minW[k] || isInt[k] && w < 1 || b.vpos[k] < 0 {
						continue
					}
					if w *= weight[k] / (full[k].hi - full[k].lo); w > bw {
						best, bw = k, w
					}
				}
				if best < 0 {
					fail("undecided", j.box)
				} else {
					v := j.box[best]
					mid := v.lo + (v.hi-v.lo)/2
					l, h := ival{v.lo, mid}, ival{mid, v.hi}
					if isInt[best] {
						mid = math.Floor(mid)
						l, h = ival{v.lo, mid}, ival{mid + 1, v.hi}
					}
					b1, b2 := append([]ival(nil), j.box...), append([]ival(nil), j.box...)
					b1[best], b2[best] = l, h
					local = append(local, job{b1}, job{b2})
				}
			}
			mu.Lock()
			if len(local) > 1 && len(queue) < 4*runtime.NumCPU() {
				queue = append(queue, local[0])
				local = local[1:]
				cond.Signal()
			}
			if len(local) == 0 {
				active--
				cond.Broadcast()
			}
			mu.Unlock()
		}
		mu.Lock()
		cond.Broadcast()
		mu.Unlock()
	}
	var wg sync.WaitGroup
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() { defer wg.Done(); work() }()
	}
	wg.Wait()
	res.proved = failed == 0
	res.boxes = count
	return res
}

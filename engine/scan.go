package main

// Evaluation of terms on every point of a product of finite ranges, a block of
// points at a time.

import (
	"math"
	"runtime"
	"sync"
	"sync/atomic"
)

const blockLen = 1024

type axis struct {
	v    *Term
	size uint64 // values 0..size-1
}

type scanner struct {
	order  []*Term
	pos    map[int]int
	args   [][]int
	inner  []bool
	mini   []*evaluator
	axes   []axis
	inVar  int // position of the inner variable in order, or -1
	sc     []uint64
	vec    [][]uint64
	splat  []int // outer nodes read by inner ones
	varPos []int
	ok     bool
}

func newScanner(axes []axis, roots []*Term) *scanner {
	base := newEvaluator(roots...)
	s := &scanner{order: base.order, pos: base.pos, args: base.args, axes: axes, inVar: -1, ok: true}
	n := len(s.order)
	s.inner = make([]bool, n)
	s.mini = make([]*evaluator, n)
	s.sc = make([]uint64, n)
	s.vec = make([][]uint64, n)
	s.varPos = make([]int, len(axes))
	for i, a := range axes {
		p, ok := s.pos[a.v.id]
		if !ok {
			p = -1
		}
		s.varPos[i] = p
	}
	last := len(axes) - 1
	if last >= 0 {
		s.inVar = s.varPos[last]
	}
	need := map[int]bool{}
	for i, t := range s.order {
		if i == s.inVar {
			s.inner[i] = true
		}
		for _, a := range s.args[i] {
			s.inner[i] = s.inner[i] || s.inner[a]
		}
		if s.inner[i] {
			s.vec[i] = make([]uint64, blockLen)
			for _, a := range s.args[i] {
				if !s.inner[a] && !need[a] {
					need[a] = true
					s.splat = append(s.splat, a)
					s.vec[a] = make([]uint64, blockLen)
				}
			}
		}
		idx := make([]int, len(t.Args))
		for k := range idx {
			idx[k] = k + 1
		}
		s.mini[i] = &evaluator{order: []*Term{t}, args: [][]int{idx}, vals: make([]uint64, 1+len(t.Args))}
		if t.Op == OpConst {
			s.sc[i] = t.Val
		}
		if t.Op == OpVar {
			known := false
			for _, a := range axes {
				known = known || a.v == t
			}
			s.ok = s.ok && known
		}
	}
	return s
}

// outer fixes all axes but the last.
func (s *scanner) outer(idx uint64) bool {
	for i := len(s.axes) - 2; i >= 0; i-- {
		if p := s.varPos[i]; p >= 0 {
			s.sc[p] = idx % s.axes[i].size
		}
		idx /= s.axes[i].size
	}
	for i, t := range s.order {
		if s.inner[i] || t.Op == OpConst || t.Op == OpVar {
			continue
		}
		m := s.mini[i]
		for k, a := range s.args[i] {
			m.vals[k+1] = s.sc[a]
		}
		if !m.run() {
			return false
		}
		s.sc[i] = m.vals[0]
	}
	for _, a := range s.splat {
		v, x := s.vec[a], s.sc[a]
		for k := range v {
			v[k] = x
		}
	}
	return true
}

func f64s(x uint64) float64 { return math.Float64frombits(x) }

// block evaluates the inner nodes for the values lo..lo+n-1 of the last axis.
func (s *scanner) block(lo uint64, n int) bool {
	for i, t := range s.order {
		if !s.inner[i] {
			continue
		}
		r := s.vec[i][:n]
		if i == s.inVar {
			for k := range r {
				r[k] = lo + uint64(k)
			}
			continue
		}
		as := s.args[i]
		var a, b []uint64
		if len(as) > 0 {
			a = s.vec[as[0]][:n]
		}
		if len(as) > 1 {
			b = s.vec[as[1]][:n]
		}
		f := t.S == SF64 || len(t.Args) > 0 && t.Args[0].S == SF64
		switch {
		case t.Op == OpNot:
			for k := range r {
				r[k] = a[k] ^ 1
			}
		case t.Op == OpAnd:
			copy(r, a)
			for _, x := range as[1:] {
				v := s.vec[x][:n]
				for k := range r {
					r[k] &= v[k]
				}
			}
		case t.Op == OpOr:
			copy(r, a)
			for _, x := range as[1:] {
				v := s.vec[x][:n]
				for k := range r {
					r[k] |= v[k]
				}
			}
		case t.Op == OpIte:
			c := s.vec[as[2]][:n]
			for k := range r {
				m := -a[k]
				r[k] = b[k]&m | c[k]&^m
			}
		case t.Op == OpFAdd && f:
			for k := range r {
				r[k] = math.Float64bits(f64s(a[k]) + f64s(b[k]))
			}
		case t.Op == OpFSub && f:
			for k := range r {
				r[k] = math.Float64bits(f64s(a[k]) - f64s(b[k]))
			}
		case t.Op == OpFMul && f:
			for k := range r {
				r[k] = math.Float64bits(f64s(a[k]) * f64s(b[k]))
			}
		case t.Op == OpFDiv && f:
			for k := range r {
				r[k] = math.Float64bits(f64s(a[k]) / f64s(b[k]))
			}
		case t.Op == OpFNeg && f:
			for k := range r {
				r[k] = math.Float64bits(-f64s(a[k]))
			}
		case t.Op == OpFAbs && f:
			for k := range r {
				r[k] = a[k] &^ (1 << 63)
			}
		case t.Op == OpFFloor && f:
			for k := range r {
				r[k] = math.Float64bits(math.Floor(f64s(a[k])))
			}
		case t.Op == OpFLt && f:
			for k := range r {
				r[k] = b2u(f64s(a[k]) < f64s(b[k]))
			}
		case t.Op == OpFLe && f:
			for k := range r {
				r[k] = b2u(f64s(a[k]) <= f64s(b[k]))
			}
		case t.Op == OpFEq && f:
			for k := range r {
				r[k] = b2u(f64s(a[k]) == f64s(b[k]))
			}
		case t.Op == OpFFromS && f && t.Args[0].W() == 64:
			for k := range r {
				r[k] = math.Float64bits(float64(int64(a[k])))
			}
		case t.Op == OpAdd:
			m := mask(t.W())
			for k := range r {
				r[k] = (a[k] + b[k]) & m
			}
		case t.Op == OpSub:
			m := mask(t.W())
			for k := range r {
				r[k] = (a[k] - b[k]) & m
			}
		case t.Op == OpMul:
			m := mask(t.W())
			for k := range r {
				r[k] = (a[k] * b[k]) & m
			}
		case t.Op == OpSLt && t.Args[0].W() == 64:
			for k := range r {
				r[k] = b2u(int64(a[k]) < int64(b[k]))
			}
		case t.Op == OpULt:
			for k := range r {
				r[k] = b2u(a[k] < b[k])
			}
		case t.Op == OpEq:
			for k := range r {
				r[k] = b2u(a[k] == b[k])
			}
		case t.Op == OpConcat && len(as) == 2 && t.Args[0].IsConst() && t.Args[0].Val == 0:
			copy(r, b)
		default:
			m := s.mini[i]
			for k := range r {
				for j, x := range as {
					m.vals[j+1] = s.vec[x][k]
				}
				if !m.run() {
					return false
				}
				r[k] = m.vals[0]
			}
		}
	}
	return true
}

// column gives the values of root t in the current block.
func (s *scanner) column(t *Term, n int) []uint64 {
	i := s.pos[t.id]
	if s.inner[i] {
		return s.vec[i][:n]
	}
	r := make([]uint64, n)
	for k := range r {
		r[k] = s.sc[i]
	}
	return r
}

func points(axes []axis) float64 {
	n := 1.0
	for _, a := range axes {
		n *= float64(a.size)
	}
	return n
}

type visitor func(worker int, outer, lo uint64, n int, col func(*Term) []uint64) bool

// scan evaluates the roots on the whole product of the axes; visit is called
// for every block and stops the scan by returning false. The result tells
// whether everything could be evaluated.
func scan(axes []axis, roots []*Term, visit visitor) bool {
	axes = append([]axis(nil), axes...)
	// the largest axis varies fastest
	best := -1
	for i, a := range axes {
		if best < 0 || a.size > axes[best].size {
			best = i
		}
	}
	if best < 0 {
		axes = []axis{{Var("scan!none", BV(1)), 1}}
		best = 0
	}
	axes[best], axes[len(axes)-1] = axes[len(axes)-1], axes[best]
	in := axes[len(axes)-1].size
	out := uint64(1)
	for _, a := range axes[:len(axes)-1] {
		out *= a.size
	}
	const chunk = 32 * blockLen
	chunks := (in + chunk - 1) / chunk
	workers := runtime.NumCPU()
	ss := make([]*scanner, workers)
	for w := range ss {
		ss[w] = newScanner(axes, roots)
		if !ss[w].ok {
			return false
		}
	}
	var next uint64
	var bad, stop int32
	var wg sync.WaitGroup
	for w := range ss {
		s := ss[w]
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			cur := ^uint64(0)
			n := 0
			col := func(t *Term) []uint64 { return s.column(t, n) }
			for atomic.LoadInt32(&bad) == 0 && atomic.LoadInt32(&stop) == 0 {
				u := atomic.AddUint64(&next, 1) - 1
				if u >= out*chunks {
					return
				}
				if u&63 == 0 && pastDeadline() {
					atomic.StoreInt32(&bad, 1)
					return
				}
				o, c := u/chunks, u%chunks
				if o != cur {
					if !s.outer(o) {
						atomic.StoreInt32(&bad, 1)
						return
					}
					cur = o
				}
				for lo := c * chunk; lo < min(in, (c+1)*chunk); lo += blockLen {
					n = int(min(blockLen, in-lo))
					if !s.block(lo, n) {
						atomic.StoreInt32(&bad, 1)
						return
					}
					if !visit(w, o, lo, n, col) {
						atomic.StoreInt32(&stop, 1)
						return
					}
				}
			}
		}()
	}
	wg.Wait()
	return bad == 0
}

// decode recovers the point of a block position (axes as reordered by scan).
func decode(axes []axis, o, inner uint64) map[string]uint64 {
	axes = append([]axis(nil), axes...)
	best := 0
	for i, a := range axes {
		if a.size > axes[best].size {
			best = i
		}
	}
	m := map[string]uint64{}
	if len(axes) == 0 {
		return m
	}
	axes[best], axes[len(axes)-1] = axes[len(axes)-1], axes[best]
	m[axes[len(axes)-1].v.Name] = inner
	for i := len(axes) - 2; i >= 0; i-- {
		m[axes[i].v.Name] = o % axes[i].size
		o /= axes[i].size
	}
	return m
}

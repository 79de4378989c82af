package main

// Obligations over floating-point computations of many input bits. They are
// closed by a combination of
//   - exact arithmetic (poly.go), which turns zone indices into integer terms;
//   - cuts: a subterm with few values is replaced by a variable ranging over
//     all of them (the goal becomes more general, so nothing is lost);
//   - merging of subterms shown equal by evaluating both on every value of the
//     variables they depend on;
//   - evaluation of what is left on every point (scan.go), or interval
//     subdivision when it depends on float inputs (box.go).

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"sort"
	"strings"
	"time"
)

const (
	defPoints  = 1 << 26 // subterms over this many points are tabulated
	goalPoints = 3 << 30
	maxCut     = 4096
)

type hybrid struct {
	e       *Engine
	dom     map[string]uint64 // largest value of a variable
	fdom    map[string]ival   // bounds of float inputs
	cuts    map[string]cutDef // what the cut variables stand for
	points  uint64
	boxes   uint64
	merged  int
	why     string
	until   time.Time
	depth   int
	begin   time.Time
	more    bool              // the last subdivision ran out of boxes
	fail    map[string]uint64 // a point at which the generalised goal fails
	proved  map[int]bool      // goals that hold without hypotheses
	scanned map[int]bool      // goals that hold at every point
}

type cutDef struct {
	t  *Term
	lo int64
}

var hybridDebug = os.Getenv("HYBRID") != ""

func (h *hybrid) log(f string, a ...interface{}) {
	if hybridDebug {
		fmt.Printf("%6.1f hybrid%s: %s\n", time.Since(h.begin).Seconds(), strings.Repeat("  ", h.depth), fmt.Sprintf(f, a...))
	}
}

type supp struct {
	vars   []*Term
	points float64
	float  bool // a float input occurs
}

func (h *hybrid) support(ts ...*Term) supp {
	var s supp
	s.vars = vars(ts...)
	s.points = 1
	for _, v := range s.vars {
		switch v.S.K {
		case KF64, KF32, KUnint:
			s.float = true
		default:
			s.points *= float64(h.maxVal(v)) + 1
		}
	}
	return s
}

func (h *hybrid) maxVal(v *Term) uint64 {
	if d, ok := h.dom[v.Name]; ok {
		return d
	}
	return maskS(v.S)
}

func (s supp) key() string {
	var ns []string
	for _, v := range s.vars {
		ns = append(ns, v.Name)
	}
	sort.Strings(ns)
	return strings.Join(ns, " ")
}

func (h *hybrid) axes(s supp) []axis {
	var out []axis
	for _, v := range s.vars {
		out = append(out, axis{v, h.maxVal(v) + 1})
	}
	return out
}

func within(a, b supp) bool {
	m := map[string]bool{}
	for _, v := range b.vars {
		m[v.Name] = true
	}
	for _, v := range a.vars {
		if !m[v.Name] {
			return false
		}
	}
	return true
}

// zeroSafe: no operation distinguishes the two zeros in a way that the exact
// rewriting could change. The divisors that must be shown never to be zero are
// returned, innermost first.
func (h *hybrid) zeroSafe(ts ...*Term) (divisors []*Term, ok bool) {
	ev := newEvaluator(ts...)
	seen := map[int]bool{}
	for _, t := range ev.order {
		if t.Op == OpFDiv {
			if d := t.Args[1]; !seen[d.id] && !h.signless(d) {
				seen[d.id] = true
				divisors = append(divisors, d)
			}
		}
		if t.Op == OpApp {
			switch t.Name {
			case "math.Atan2", "math.Copysign", "math.Signbit", "math.Float64bits", "math.Atanh":
				return nil, false
			case "math.Pow":
				if !h.signless(t.Args[0]) && !evenConst(t.Args[1]) {
					return nil, false
				}
			}
		}
	}
	return divisors, true
}

func evenConst(t *Term) bool {
	return t.IsConst() && t.F() == math.Trunc(t.F()) && math.Mod(t.F(), 2) == 0 || t.IsConst() && t.F() > 0 && t.F() != math.Trunc(t.F())
}

// signless: if the term is zero, the sign of that zero does not depend on the
// signs of zeros among its variables.
func (h *hybrid) signless(t *Term) bool {
	if t.IsConst() {
		return true
	}
	if r := h.hull(t); !nan(r) && (r.lo > 0 || r.hi < 0) {
		return true
	}
	switch t.Op {
	case OpFAbs:
		return true
	case OpFAdd, OpFSub:
		return t.Args[0].IsConst() && t.Args[0].F() != 0 || t.Args[1].IsConst() && t.Args[1].F() != 0
	case OpFMul:
		return h.signless(t.Args[0]) && h.signless(t.Args[1])
	case OpIte:
		return h.signless(t.Args[1]) && h.signless(t.Args[2])
	case OpApp:
		switch t.Name {
		case "math.Cos", "math.Acos", "math.Exp":
			return true
		case "math.Max": // at least the constant, or not a number
			for _, a := range t.Args {
				if a.IsConst() && a.F() > 0 {
					return true
				}
			}
		case "math.Pow":
			return evenConst(t.Args[1])
		}
	}
	return false
}

func (h *hybrid) hull(t *Term) ival {
	vs, bx := h.box(vars(t))
	return rangeIn(t, vs, bx)
}

func (h *hybrid) box(in []*Term) (vs []*Term, bx []ival) {
	for _, v := range in {
		vs = append(vs, v)
		if v.S.K == KF64 {
			if b, ok := h.fdom[v.Name]; ok {
				bx = append(bx, b)
			} else {
				bx = append(bx, everything)
			}
		} else if d := h.maxVal(v); d < exactLimit {
			bx = append(bx, ival{0, float64(d)})
		} else {
			bx = append(bx, everything)
		}
	}
	return
}

// bounds reads the ranges of the inputs off the hypotheses.
func (h *hybrid) bounds(hyps []*Term) {
	set := func(n string, lo, hi float64) {
		b, ok := h.fdom[n]
		if !ok {
			b = everything
		}
		h.fdom[n] = ival{math.Max(b.lo, lo), math.Min(b.hi, hi)}
	}
	for _, c := range hyps {
		for _, l := range parts(c) {
			switch l.Op {
			case OpFLe, OpFLt:
				a, b := l.Args[0], l.Args[1]
				if a.IsConst() && b.Op == OpVar && b.S == SF64 {
					set(b.Name, a.F(), math.Inf(1))
				}
				if b.IsConst() && a.Op == OpVar && a.S == SF64 {
					set(a.Name, math.Inf(-1), b.F())
				}
				if a.Op == OpFAbs && a.Args[0].Op == OpVar && b.IsConst() {
					set(a.Args[0].Name, -b.F(), b.F())
				}
			case OpULt:
				if v := l.Args[0]; v.Op == OpVar && l.Args[1].IsConst() && l.Args[1].Val > 0 {
					d := l.Args[1].Val - 1
					if o, ok := h.dom[v.Name]; !ok || d < o {
						h.dom[v.Name] = d
					}
				}
			case OpNot:
				// not (c < x)
				u := l.Args[0]
				if u.Op == OpULt && u.Args[0].IsConst() && u.Args[1].Op == OpVar {
					d := u.Args[0].Val
					if o, ok := h.dom[u.Args[1].Name]; !ok || d < o {
						h.dom[u.Args[1].Name] = d
					}
				}
			}
		}
	}
}

// narrow replaces wide variables of small range by narrow ones.
func (h *hybrid) narrow(ts []*Term) []*Term {
	m := map[int]*Term{}
	for _, v := range vars(ts...) {
		d, ok := h.dom[v.Name]
		if !ok || v.S.K != KBV {
			continue
		}
		w := 1
		for w < v.W() && d > mask(w) {
			w++
		}
		if w < v.W() {
			n := v.Name + "'"
			m[v.id] = ZExt(Var(n, BV(w)), v.W())
			h.dom[n] = d
		}
	}
	memo := map[int]*Term{}
	var out []*Term
	for _, t := range ts {
		out = append(out, Subst(t, m, memo))
	}
	return out
}

// hybridProve tries to discharge the goal pc and hyps imply cond.
func (e *Engine) hybridProve(o *Obl, seconds int) (status string, out string) {
	h := &hybrid{e: e, dom: map[string]uint64{}, fdom: map[string]ival{}, cuts: map[string]cutDef{}, proved: map[int]bool{}, scanned: map[int]bool{},
		begin: time.Now(), until: time.Now().Add(time.Duration(seconds) * time.Second)}
	var hyps []*Term
	for _, x := range append([]*Term{o.PC}, o.Hyps...) {
		hyps = append(hyps, parts(x)...)
	}
	for _, v := range vars(append(hyps, o.Cond)...) {
		if strings.HasPrefix(v.Name, "ret.") || v.S.K == KF32 || v.S.K == KUnint {
			return "", "not applicable"
		}
	}
	h.bounds(hyps)
	h.log("obligation %s", o.Name())
	if ok, out := h.spherical(hyps, o.Cond); ok {
		return "proved", out
	}
	all := h.narrow(append(append([]*Term(nil), hyps...), o.Cond))
	ok := true
	cond := all[len(all)-1]
	hyps = all[:len(all)-1]
	ds, safe := h.zeroSafe(all...)
	if !safe {
		return "unknown", "an operation may depend on the sign of zero"
	}
	for _, d := range ds {
		if !h.prove(hyps, Not(FBin(OpFEq, d, ConstF(SF64, 0)))) {
			return "unknown", "a division may depend on the sign of zero: " + h.why
		}
	}
	for _, part := range h.bySupport(parts(cond)) {
		if !h.prove(hyps, part) {
			ok = false
			h.search(hyps, part, o)
			break
		}
	}
	e.enumCount += h.points
	if ok {
		return "proved", fmt.Sprintf("%d points, %d boxes, %d cuts, %d subterms merged", h.points, h.boxes, len(h.cuts), h.merged)
	}
	if o.Model != nil {
		return "failed", h.why
	}
	return "unknown", h.why
}

func (h *hybrid) late() bool { return time.Now().After(h.until) || pastDeadline() }

// parts splits a conjunction, looking through negated disjunctions.
func parts(t *Term) []*Term {
	switch {
	case t == True:
		return nil
	case t.Op == OpAnd:
		var out []*Term
		for _, a := range t.Args {
			out = append(out, parts(a)...)
		}
		return out
	case t.Op == OpNot && t.Args[0].Op == OpOr:
		var out []*Term
		for _, a := range t.Args[0].Args {
			out = append(out, parts(Not(a))...)
		}
		return out
	}
	return []*Term{t}
}

// bySupport joins the conjuncts over the same variables.
func (h *hybrid) bySupport(ts []*Term) []*Term {
	by := map[string][]*Term{}
	var ks []string
	for _, t := range ts {
		k := h.support(t).key()
		if by[k] == nil {
			ks = append(ks, k)
		}
		by[k] = append(by[k], t)
	}
	var out []*Term
	for _, k := range ks {
		out = append(out, And(by[k]...))
	}
	return out
}

func literals(ts []*Term) []*Term {
	var out []*Term
	seen := map[int]bool{}
	for _, t := range ts {
		for _, l := range parts(t) {
			if !seen[l.id] {
				seen[l.id] = true
				out = append(out, l)
			}
		}
	}
	return out
}

func (h *hybrid) subst(ts []*Term, m map[int]*Term) []*Term {
	memo := map[int]*Term{}
	var out []*Term
	for _, t := range ts {
		out = append(out, Subst(t, m, memo))
	}
	return out
}

// prove: the hypotheses imply the goal.
func (h *hybrid) prove(hyps []*Term, goal *Term) bool {
	if len(hyps) > 0 {
		return h.prove1(hyps, goal)
	}
	id := h.canonical(goal)
	if !h.proved[id] {
		h.proved[id] = h.prove1(hyps, goal)
	}
	return h.proved[id]
}

// canonical identifies goals that differ in the names of cut variables only.
func (h *hybrid) canonical(goal *Term) int {
	m := map[int]*Term{}
	for _, t := range newEvaluator(goal).order {
		if t.Op != OpVar {
			continue
		}
		d := ""
		if t.S.K == KF64 {
			d = fmt.Sprint(h.fdom[t.Name], h.cuts[t.Name].t == nil)
		} else {
			d = fmt.Sprint(h.maxVal(t))
		}
		m[t.id] = Var(fmt.Sprintf("v%d:%s", len(m), d), t.S)
	}
	return Subst(goal, m, map[int]*Term{}).id
}

func (h *hybrid) prove1(hyps []*Term, goal *Term) bool {
	h.depth++
	defer func() { h.depth-- }()
	var again []question
	if h.steps(hyps, goal, &again) {
		return true
	}
	for _, q := range again {
		if !h.late() && h.subdivide(q.hyps, q.goal, q.gs, 60_000_000) {
			return true
		}
	}
	return false
}

func (h *hybrid) steps(hyps []*Term, goal *Term, again *[]question) bool {
	for round := 0; round < 12; round++ {
		if h.late() {
			h.why = "out of time"
			return false
		}
		// exact arithmetic
		x := newExact(h.dom)
		var ls []*Term
		for _, l := range hyps {
			ls = append(ls, x.lower(l))
		}
		hyps = literals(ls)
		goal = x.lower(goal)
		// known literals
		m := map[int]*Term{}
		for _, l := range hyps {
			if l == False {
				return true
			}
			m[l.id] = True
			if n := Not(l); n.Op != OpConst {
				m[n.id] = False
			}
			if v, t := h.equation(l); v != nil {
				m[v.id] = t
			}
		}
		if g := Subst(goal, m, map[int]*Term{}); g != goal {
			goal = x.lower(g)
			continue
		}
		if goal == True {
			return true
		}
		if gs := h.bySupport(parts(goal)); len(gs) > 1 {
			for _, g := range gs {
				if !h.prove(hyps, g) {
					return false
				}
			}
			return true
		}
		gs := h.support(goal)
		h.log("goal over %s: %.3g points, float inputs %v; %d hypotheses", gs.key(), gs.points, gs.float, len(hyps))
		if goal == False {
			return h.refute(hyps)
		}
		// booleans are treated case by case
		if v := boolVar(gs); v != nil {
			for _, c := range []*Term{False, True} {
				s := map[int]*Term{v.id: c}
				if !h.prove(h.subst(hyps, s), h.subst([]*Term{goal}, s)[0]) {
					return false
				}
			}
			return true
		}
		if !gs.float && gs.points <= goalPoints {
			if h.scanGoal(hyps, goal, gs) {
				return true
			}
			if len(hyps) == 0 {
				h.why = "the goal fails at a point"
				return false
			}
			return h.scanMore(hyps, goal, gs)
		}
		// so are the few conditions on float inputs alone
		if gs.float {
			if n := len(gs.vars); n <= 3 && h.subdivide(hyps, goal, gs, 400_000) {
				return true
			}
			if h.more {
				h.more = false
				*again = append(*again, question{hyps, goal, gs})
			}
			if c := h.inputCondition(goal); c != nil {
				h.log("case by case over %s", c.str(3))
				for _, v := range []*Term{c, Not(c)} {
					w := True
					if v != c {
						w = False
					}
					s := map[int]*Term{c.id: w, Not(c).id: Not(w)}
					hs := append(h.subst(hyps, s), v)
					if !h.prove(hs, h.subst([]*Term{goal}, s)[0]) {
						return false
					}
				}
				return true
			}
			if g := h.freeConditions(goal); g != goal && !h.support(g).float {
				h.log("conditions on float inputs are left open")
				if h.prove(nil, g) {
					return true
				}
				h.fail = nil
			}
		}
		// a variable with few values is treated value by value
		byValue := func(v *Term) bool {
			h.log("case by case over %s", v.Name)
			for k := uint64(0); k <= h.maxVal(v); k++ {
				s := map[int]*Term{v.id: Const(v.W(), k)}
				if !h.prove(h.subst(hyps, s), h.subst([]*Term{goal}, s)[0]) {
					return false
				}
			}
			return true
		}
		if v := h.smallVar(gs); gs.float && v != nil && len(gs.vars) <= 3 {
			return byValue(v)
		}
		if n := h.cutRound(&hyps, &goal); n > 0 {
			continue
		}
		if v := h.smallVar(gs); gs.float && v != nil {
			return byValue(v)
		}
		break
	}
	if h.why == "" {
		h.why = "no further step"
	}
	return false
}

type question struct {
	hyps []*Term
	goal *Term
	gs   supp
}

// equation recognises v = t for a cut variable.
func (h *hybrid) equation(l *Term) (*Term, *Term) {
	if l.Op != OpEq {
		return nil, nil
	}
	a, b := l.Args[0], l.Args[1]
	strip := func(t *Term) *Term {
		if n := leadZeros(t); n > 0 && t.Op == OpConcat {
			u := Extract(t.W()-n-1, 0, t)
			if u.Op == OpVar {
				return u
			}
		}
		if t.Op == OpVar && t.S.K == KBV {
			return t
		}
		return nil
	}
	u, v := strip(a), strip(b)
	if u != nil && v != nil && u.W() == v.W() && h.maxVal(u) == h.maxVal(v) {
		if _, ok := h.cuts[v.Name]; ok {
			return v, u
		}
		if _, ok := h.cuts[u.Name]; ok {
			return u, v
		}
	}
	return nil, nil
}

func boolVar(s supp) *Term {
	for _, v := range s.vars {
		if v.S.K == KBool {
			return v
		}
	}
	return nil
}

func (h *hybrid) smallVar(s supp) *Term {
	for _, v := range s.vars {
		if v.S.K == KBV && h.maxVal(v) < 128 {
			return v
		}
	}
	return nil
}

// refute shows that the hypotheses contradict each other.
func (h *hybrid) refute(hyps []*Term) bool {
	s := h.support(hyps...)
	if s.float || s.points > goalPoints {
		h.why = "the hypotheses could not be refuted"
		return false
	}
	return h.scanGoal(hyps, False, s)
}

// scanGoal evaluates the goal on every point that satisfies the hypotheses
// over the same variables.
func (h *hybrid) scanGoal(hyps []*Term, goal *Term, gs supp) bool {
	id := h.canonical(goal)
	if h.scanned[id] {
		h.log("evaluated before")
		return true
	}
	var use []*Term
	for _, l := range hyps {
		if s := h.support(l); !s.float && within(s, gs) {
			use = append(use, l)
		}
	}
	bad := And(append(append([]*Term(nil), use...), Not(goal))...)
	if bad == False {
		return true
	}
	axes := h.axes(gs)
	found := make(chan map[string]uint64, 64)
	begin := time.Now()
	ok := scan(axes, []*Term{bad}, func(_ int, o, lo uint64, n int, col func(*Term) []uint64) bool {
		for k, v := range col(bad) {
			if v == 1 {
				select {
				case found <- decode(axes, o, lo+uint64(k)):
				default:
				}
				return false
			}
		}
		return true
	})
	h.points += uint64(points(axes))
	h.log("evaluated %.3g points in %.1fs: %v", points(axes), time.Since(begin).Seconds(), ok && len(found) == 0)
	if !ok {
		h.why = "evaluation was not possible"
		return false
	}
	select {
	case p := <-found:
		h.fail = p
		h.why = fmt.Sprintf("fails at %v", p)
		return false
	default:
	}
	if len(use) == 0 {
		h.scanned[id] = true
	}
	return true
}

// scanMore retries with the hypotheses over further variables.
func (h *hybrid) scanMore(hyps []*Term, goal *Term, gs supp) bool {
	cur := gs
	for {
		// the hypothesis that adds the fewest points
		var best supp
		for _, l := range hyps {
			s := h.support(l)
			if s.float || within(s, cur) {
				continue
			}
			overlap := false
			for _, v := range s.vars {
				for _, w := range gs.vars {
					overlap = overlap || v == w
				}
			}
			u := h.support(append(append([]*Term(nil), cur.vars...), s.vars...)...)
			if overlap && u.points <= goalPoints && (best.vars == nil || u.points < best.points) {
				best = u
			}
		}
		if best.vars == nil {
			return false
		}
		cur = best
		if h.scanGoal(hyps, goal, cur) {
			return true
		}
		if h.late() {
			return false
		}
	}
}

// freeConditions replaces the conditions that depend on float inputs by
// arbitrary booleans.
func (h *hybrid) freeConditions(goal *Term) *Term {
	// those that the bounds of the inputs decide
	ev := newEvaluator(goal)
	vs, bx := h.box(vars(goal))
	if b := newBoxer(vs, goal, nil); len(bx) == len(vs) {
		b.hull = true
		for k, p := range b.vpos {
			if p >= 0 {
				b.vals[p] = bx[k]
			}
		}
		for _, t := range ev.order {
			if t.Op != OpFDiv || t.Args[1].IsConst() {
				continue
			}
			// the bounds of what is divided by
			if s := h.support(t.Args[1]); !s.float && s.points <= maxCut {
				if r, ok := h.tableRange(t.Args[1]); ok && !nan(r) {
					b.clips[b.pos[t.Args[1].id]] = r
				}
			}
		}
		b.eval(0)
		d := map[int]*Term{}
		for _, t := range ev.order {
			if t.S.K == KBool && t.Op != OpConst && t.Op != OpVar {
				switch b.vals[b.pos[t.id]] {
				case bTrue:
					d[t.id] = True
				case bFalse:
					d[t.id] = False
				}
			}
		}
		if len(d) > 0 {
			goal = Subst(goal, d, map[int]*Term{})
		}
	}
	m := map[int]*Term{}
	seen := map[int]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.Op == OpIte && t.S.K != KBool && h.support(t.Args[0]).float {
			c := t.Args[0]
			if m[c.id] == nil && c.Op != OpVar {
				v := FreshVar("any!", SBool)
				m[c.id] = v
				m[Not(c).id] = Not(v)
			}
			visit(t.Args[1])
			visit(t.Args[2])
			return
		}
		for _, a := range t.Args {
			visit(a)
		}
	}
	visit(goal)
	if len(m) == 0 || len(m) > 32 {
		return goal
	}
	return Subst(goal, m, map[int]*Term{})
}

// inputCondition finds a comparison of float inputs with constants, if there
// are only a few.
func (h *hybrid) inputCondition(goal *Term) *Term {
	var found []*Term
	for _, t := range newEvaluator(goal).order {
		if t.Op != OpFLt && t.Op != OpFLe && t.Op != OpFEq {
			continue
		}
		vs := vars(t)
		pure := len(vs) > 0
		for _, v := range vs {
			if _, cut := h.cuts[v.Name]; v.S.K != KF64 || cut {
				pure = false
			}
		}
		for _, a := range t.Args {
			if a.Op == OpFAbs {
				a = a.Args[0]
			}
			pure = pure && (a.Op == OpVar || a.Op == OpConst)
		}
		if pure {
			found = append(found, t)
		}
	}
	if len(found) == 0 || len(found) > 6 {
		return nil
	}
	return found[0]
}

func (h *hybrid) subdivide(hyps []*Term, goal *Term, gs supp, budget uint64) bool {
	wide := 0
	for _, v := range gs.vars {
		if v.S.K == KF64 {
			if b, ok := h.fdom[v.Name]; !ok || nan(b) {
				h.why = v.Name + " is not bounded"
				return false
			}
			wide++
		} else if h.maxVal(v) > 63 {
			wide++
		}
	}
	if wide > 2 {
		return false
	}
	var small []*Term
	for _, v := range gs.vars {
		if v.S.K != KF64 && h.maxVal(v) <= 63 {
			small = append(small, v)
		}
	}
	if len(small) > 0 {
		return false // value by value first
	}
	var use []*Term
	for _, l := range hyps {
		if within(h.support(l), gs) {
			use = append(use, l)
		}
	}
	vs, bx := h.box(gs.vars)
	begin := time.Now()
	if os.Getenv("HYBRIDG") != "" {
		fmt.Println("GOAL", vs, bx, goal, use)
	}
	r := proveBoxes(vs, bx, goal, use, budget)
	h.boxes += r.boxes
	h.log("subdivision: %v after %d boxes, %.1fs %s %v", r.proved, r.boxes, time.Since(begin).Seconds(), r.why, r.point)
	if !r.proved {
		h.why = "interval subdivision: " + r.why
		h.more = r.boxes >= budget
	}
	return r.proved
}

// ---------- cuts

func (h *hybrid) cutVar(t *Term, lo, hi int64) *Term {
	w := 1
	for uint64(hi-lo) > mask(w) {
		w++
	}
	n := fmt.Sprintf("cut!%d", t.id)
	v := Var(n, BV(w))
	h.dom[n] = uint64(hi - lo)
	h.cuts[n] = cutDef{t, lo}
	return Add(ZExt(v, 64), Const(64, uint64(lo)))
}

func (h *hybrid) cutRound(hyps *[]*Term, goal **Term) int {
	all := append(append([]*Term(nil), *hyps...), *goal)
	m := map[int]*Term{}
	x := newExact(h.dom)
	// only what the goal depends on matters
	inGoal := newEvaluator(*goal)
	// 1. integer terms with few values; those with decisions inside only when
	// nothing else is left, as the decisions may turn out equal
	integers := func(simple bool) int {
		ev := newEvaluator(all...)
		for i := len(ev.order) - 1; i >= 0; i-- {
			t := ev.order[i]
			if t.S.K == KBV && t.W() == 64 && t.Op == OpSExt && len(vars(t)) > 0 {
				s := h.support(t)
				if s.points <= defPoints && !s.float || simple && !arithmetic(t) {
					continue
				}
				if lo, hi, ok := x.rangeOf(t); ok && hi-lo < maxCut {
					m[t.id] = h.cutVar(t, lo, hi)
					h.log("cut: integer in %d..%d", lo, hi)
				}
			}
		}
		if len(m) > 0 {
			h.apply(hyps, goal, m)
		}
		return len(m)
	}
	if n := integers(true); n > 0 {
		return n
	}
	if gs := h.support(*goal); gs.float && gs.points <= goalPoints {
		if n := h.cutGate(hyps, goal); n > 0 {
			return n
		}
	}
	// 2. subterms over few points, tabulated and merged
	if n := h.tabulate(hyps, goal); n > 0 {
		return n
	}
	if n := integers(false); n > 0 {
		return n
	}
	// 3. whole-numbered float terms of float inputs, the inner ones first
	var whole []*Term
	for i := len(inGoal.order) - 1; i >= 0; i-- {
		t := inGoal.order[i]
		if t.S != SF64 || !h.whole(t) || t.Op == OpConst || t.Op == OpFFromS || t.Op == OpFFromU || !h.support(t).float {
			continue
		}
		if parentWhole(inGoal, i, h) || multiple(t) {
			continue
		}
		r := h.hull(t)
		if nan(r) || r.hi-r.lo >= maxCut {
			continue
		}
		whole = append(whole, t)
	}
	for _, t := range whole {
		inner := newEvaluator(t)
		outer := false
		for _, u := range whole {
			if _, in := inner.pos[u.id]; in && u != t {
				outer = true
			}
		}
		if !outer {
			r := h.hull(t)
			m[t.id] = Conv(OpFFromS, SF64, h.cutVar(t, int64(r.lo), int64(r.hi)))
			h.log("cut: whole number in %v", r)
		}
	}
	if len(m) > 0 {
		h.apply(hyps, goal, m)
		return len(m)
	}
	return h.cutGate(hyps, goal)
}

// cutGate cuts a float subterm through which all integer variables act.
func (h *hybrid) cutGate(hyps *[]*Term, goal **Term) int {
	if t := h.gate(*goal); t != nil {
		r, ok := h.tableRange(t)
		if ok && !nan(r) {
			n := fmt.Sprintf("cut!%d", t.id)
			h.fdom[n] = r
			h.cuts[n] = cutDef{t, 0}
			h.log("cut: value in %v", r)
			h.apply(hyps, goal, map[int]*Term{t.id: Var(n, SF64)})
			return 1
		}
	}
	return 0
}

// arithmetic: integer arithmetic of variables only.
func arithmetic(t *Term) bool {
	for _, u := range newEvaluator(t).order {
		if u.S.K != KBV || u.Op == OpIte {
			return false
		}
	}
	return true
}

func parentWhole(ev *evaluator, i int, h *hybrid) bool {
	for j, as := range ev.args {
		for _, a := range as {
			if a == i && ev.order[j].S == SF64 && h.whole(ev.order[j]) && ev.order[j].Op != OpFFloor && !multiple(ev.order[j]) {
				return true
			}
		}
	}
	return false
}

// multiple: a constant multiple, which a cut would forget.
func multiple(t *Term) bool {
	return t.Op == OpFMul && (t.Args[0].Op == OpConst || t.Args[1].Op == OpConst)
}

func (h *hybrid) apply(hyps *[]*Term, goal **Term, m map[int]*Term) {
	all := h.subst(append(append([]*Term(nil), *hyps...), *goal), m)
	*hyps = literals(all[:len(all)-1])
	*goal = all[len(all)-1]
}

// whole: the float term is always a whole number (of moderate size).
func (h *hybrid) whole(t *Term) bool {
	switch t.Op {
	case OpConst:
		return t.F() == math.Trunc(t.F()) && math.Abs(t.F()) < 1e15
	case OpFFloor, OpFCeil, OpFTrunc:
		return true
	case OpFFromS, OpFFromU:
		return true
	case OpFAdd, OpFSub, OpFMul, OpFNeg, OpFAbs:
		for _, a := range t.Args {
			if !h.whole(a) {
				return false
			}
		}
		return true
	case OpIte:
		return h.whole(t.Args[1]) && h.whole(t.Args[2])
	case OpApp:
		switch t.Name {
		case "math.Round", "math.RoundToEven":
			return true
		case "math.Max", "math.Min":
			return h.whole(t.Args[0]) && h.whole(t.Args[1])
		}
	}
	return false
}

// plain terms need no table: exact integers of the variables themselves.
func plain(t *Term, x *exact) bool {
	var flat func(a *Term) bool
	flat = func(a *Term) bool {
		switch a.Op {
		case OpConst, OpVar:
			return true
		case OpConcat, OpAdd, OpSub, OpMul, OpExtract, OpSExt:
			if a.Op == OpExtract && a.Args[0].Op != OpVar {
				return false
			}
			for _, b := range a.Args {
				if !flat(b) {
					return false
				}
			}
			return true
		}
		return false
	}
	switch t.S.K {
	case KBV:
		return flat(t)
	case KF64:
		if d := x.dy(t); d != nil {
			return flat(d.p.term())
		}
	}
	return t.Op == OpVar || t.Op == OpConst
}

type tabDef struct {
	t     *Term
	lo    float64
	hi    float64
	whole bool
	class int
	flip  bool
	off   float64 // members of a class differ by the differences of their offsets
	ok    bool
	fns   map[int][]float64 // by class, the value as a function of the value of that class
}

const fnSize = 4096 // values are within fnSize/2 of zero

// lookup writes a function of r as a case distinction.
func lookup(r *Term, lo, hi int64, fn []float64, s Sort) *Term {
	val := func(y float64) *Term {
		if s.K == KBool {
			if y != 0 {
				return Not(False)
			}
			return False
		}
		return Const(64, uint64(int64(y)))
	}
	by := map[float64]*Term{}
	var ys []float64
	count := map[float64]int{}
	for k := lo; k <= hi; k++ {
		y := fn[k+fnSize/2]
		if y != y {
			continue
		}
		c := Eq(r, Const(64, uint64(k)))
		if by[y] == nil {
			ys = append(ys, y)
			by[y] = c
		} else {
			by[y] = Or(by[y], c)
		}
		count[y]++
	}
	if len(ys) == 0 {
		return nil
	}
	sort.SliceStable(ys, func(i, j int) bool { return count[ys[i]] > count[ys[j]] })
	t := val(ys[0])
	for _, y := range ys[1:] {
		t = Ite(by[y], val(y), t)
	}
	return t
}

// tabulate replaces the largest subterms over few points by variables, equal
// subterms by the same one.
func (h *hybrid) tabulate(hyps *[]*Term, goal **Term) int {
	x := newExact(h.dom)
	groups := map[string][]*Term{}
	sups := map[string]supp{}
	seen := map[int]bool{}
	sm := map[int]supp{}
	sup := func(t *Term) supp {
		if s, ok := sm[t.id]; ok {
			return s
		}
		s := h.support(t)
		sm[t.id] = s
		return s
	}
	regroup := map[int]*Term{} // and/or nodes with their arguments grouped
	add := func(t *Term) {
		k := sup(t).key()
		groups[k] = append(groups[k], t)
		sups[k] = sup(t)
	}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t.id] || len(t.Args) == 0 {
			return
		}
		seen[t.id] = true
		s := sup(t)
		if len(s.vars) == 0 || plain(t, x) {
			return
		}
		if !s.float && s.points <= defPoints {
			add(t)
			if t.S == SF64 || len(s.vars) > 1 {
				// its parts over fewer variables may be cut as well
				for _, a := range t.Args {
					if !within(s, sup(a)) {
						visit(a)
					}
				}
			}
			return
		}
		if t.Op == OpAnd || t.Op == OpOr {
			by := map[string][]*Term{}
			for _, a := range t.Args {
				k := sup(a).key()
				by[k] = append(by[k], a)
			}
			for _, as := range by {
				if len(as) > 1 && len(as) < len(t.Args) {
					var g *Term
					if t.Op == OpAnd {
						g = And(as...)
					} else {
						g = Or(as...)
					}
					if g.Op == t.Op {
						regroup[t.id] = t
						visit(g)
						continue
					}
				}
				for _, a := range as {
					visit(a)
				}
			}
			return
		}
		for _, a := range t.Args {
			visit(a)
		}
	}
	// only hypotheses connected with the goal
	for _, l := range h.connected(*hyps, *goal) {
		visit(l)
	}
	visit(*goal)
	var keys []string
	for k := range groups {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		a, b := sups[keys[i]], sups[keys[j]]
		if a.points != b.points {
			return a.points < b.points
		}
		return keys[i] < keys[j]
	})
	m := map[int]*Term{}
	rep := map[int]*Term{} // replacement of and/or groups
	tabbed := map[int]bool{}
	var known []*Term
	knownAs := map[int]*Term{}
	var late []*Term
	n := 0
	for _, k := range keys {
		if h.late() {
			return 0
		}
		for ts := groups[k]; len(ts) > 0 && !h.late(); {
			var next []*Term // the arguments of what is not cut
			open := func(t *Term) {
				for _, a := range t.Args {
					if !tabbed[a.id] && sup(a).key() == k && !plain(a, x) && len(a.Args) > 0 {
						tabbed[a.id] = true
						next = append(next, a)
					}
				}
			}
			// terms cut before are kept to compare with
			for _, t := range known {
				if sup(t).key() == k {
					ts = append(ts, t)
				}
			}
			defs := h.table(ts, sups[k])
			ts = nil
			if defs == nil {
				continue
			}
			// numbers before selectors, subterms before what contains them
			number := func(d *tabDef) bool { return d.t.S == SF64 || d.t.S.K == KBV && d.t.W() >= 32 }
			sort.SliceStable(defs, func(i, j int) bool {
				if a, b := number(defs[i]), number(defs[j]); a != b {
					return a
				}
				return defs[i].t.id < defs[j].t.id
			})
			leader := map[int]*Term{}
			lead := map[int]*tabDef{}
			for _, d := range defs {
				if r, ok := knownAs[d.t.id]; ok {
					if d.flip {
						r = Not(r)
					}
					leader[d.class], lead[d.class] = r, d
				}
			}
			asFunction := func(d *tabDef) *Term {
				if !d.whole || d.lo == d.hi {
					return nil
				}
				for _, l := range defs {
					fn := d.fns[l.class]
					r := leader[l.class]
					if fn == nil || r == nil || r.S.K != KBV || lead[l.class] == nil || lead[l.class].t != l.t || len(vars(r)) != 1 {
						continue
					}
					if f := lookup(r, int64(l.lo), int64(l.hi), fn, d.t.S); f != nil {
						return f
					}
				}
				return nil
			}
			for _, d := range defs {
				if _, ok := knownAs[d.t.id]; ok || !d.ok {
					continue
				}
				var r *Term
				if l, ok := leader[d.class]; ok {
					r = l
				} else if d.lo != d.hi && h.expressed(d.t, m, sups[k]) {
					continue // by what its parts are replaced by
				} else if f := asFunction(d); f != nil {
					r = f
					if d.t.S.K == KBool && d.flip {
						r = Not(r)
					}
					leader[d.class], lead[d.class] = r, d
				} else {
					switch {
					case d.t.S.K == KBool:
						switch {
						case d.lo == d.hi && d.lo == 1:
							r = Not(False)
						case d.lo == d.hi:
							r = False
						default:
							r = Var(fmt.Sprintf("cut!%d", d.t.id), SBool)
							h.cuts[r.Name] = cutDef{d.t, 0}
						}
						if d.flip {
							r = Not(r)
						}
					case d.whole && d.lo == d.hi:
						r = Const(64, uint64(int64(d.lo)))
					case d.whole && d.hi-d.lo < maxCut:
						r = h.cutVar(d.t, int64(d.lo), int64(d.hi))
					case d.t.S == SF64:
						r = d.t // merged, but not cut
					default:
						open(d.t)
						continue
					}
					leader[d.class], lead[d.class] = r, d
				}
				to := r
				if r == d.t {
					open(d.t)
				}
				if r.S == SF64 && r != d.t {
					late = append(late, d.t)
				}
				if off := d.off - lead[d.class].off; off != 0 {
					if r.S.K != KBV || math.Abs(off) > exactLimit {
						continue
					}
					r = Add(r, Const(64, uint64(int64(off))))
				}
				switch {
				case d.t.S.K == KBool:
					if d.flip {
						to = Not(r)
					}
				case d.t.S == SF64:
					if r.S.K == KBV {
						to = Conv(OpFFromS, SF64, r)
					}
				default:
					if r.S.K != KBV {
						continue
					}
					to = Extract(d.t.W()-1, 0, r)
				}
				if to == d.t {
					continue
				}
				h.merged++
				n++
				m[d.t.id] = to
				if d.t.S.K == KBool || r.S.K == KBV {
					known = append(known, d.t)
					knownAs[d.t.id] = r
					if d.t.S.K == KBool {
						knownAs[d.t.id] = to
					}
				}
				rep[d.t.id] = to
				h.log("table over %s: %s in %v..%v whole=%v -> %s", k, opName[d.t.Op], d.lo, d.hi, d.whole, to.str(3))
			}
			ts = next
		}
	}
	for _, t := range late { // the leader of the class, its parts replaced
		if to, ok := m[t.id]; ok {
			m[t.id] = Subst(to, m, map[int]*Term{})
		}
	}
	if n == 0 {
		return 0
	}
	for id, t := range regroup {
		by := map[string][]*Term{}
		var ks []string
		for _, a := range t.Args {
			k := sup(a).key()
			if by[k] == nil {
				ks = append(ks, k)
			}
			by[k] = append(by[k], a)
		}
		var parts []*Term
		ch := false
		for _, k := range ks {
			as := by[k]
			if len(as) > 1 {
				var g *Term
				if t.Op == OpAnd {
					g = And(as...)
				} else {
					g = Or(as...)
				}
				if r, ok := rep[g.id]; ok {
					parts = append(parts, r)
					ch = true
					continue
				}
			}
			parts = append(parts, as...)
		}
		if ch {
			parts = h.subst(parts, m)
			if t.Op == OpAnd {
				m[id] = And(parts...)
			} else {
				m[id] = Or(parts...)
			}
		}
	}
	h.apply(hyps, goal, m)
	return n
}

// expressed: replacing the parts of a term leaves none of these variables.
func (h *hybrid) expressed(t *Term, m map[int]*Term, s supp) bool {
	if len(m) == 0 {
		return false
	}
	in := map[*Term]bool{}
	for _, v := range s.vars {
		in[v] = true
	}
	for _, v := range vars(Subst(t, m, map[int]*Term{})) {
		if in[v] {
			return false
		}
	}
	return true
}

// connected lists the hypotheses that share variables with the goal, directly
// or through others.
func (h *hybrid) connected(hyps []*Term, goal *Term) []*Term {
	in := map[string]bool{}
	for _, v := range vars(goal) {
		in[v.Name] = true
	}
	var out []*Term
	used := map[int]bool{}
	for ch := true; ch; {
		ch = false
		for _, l := range hyps {
			if used[l.id] {
				continue
			}
			vs := vars(l)
			hit := false
			for _, v := range vs {
				hit = hit || in[v.Name]
			}
			if hit {
				used[l.id] = true
				out = append(out, l)
				for _, v := range vs {
					in[v.Name] = true
				}
				ch = true
			}
		}
	}
	return out
}

// table evaluates terms over the same variables on all points.
func (h *hybrid) table(ts []*Term, s supp) []*tabDef {
	axes := h.axes(s)
	type acc struct {
		lo, hi         float64
		whole, nanSeen bool
	}
	num := func(t *Term, v uint64) float64 {
		switch {
		case t.S == SF64:
			return f64s(v)
		case t.S.K == KBool:
			return float64(v)
		}
		return float64(sx(v, t.W()))
	}
	// classes by sample
	rnd := rand.New(rand.NewSource(1))
	ev := newEvaluator(ts...)
	defs := make([]*tabDef, len(ts))
	sample := make([][]float64, len(ts))
	for i, t := range ts {
		defs[i] = &tabDef{t: t, ok: true, whole: true}
	}
	for k := 0; k < 48; k++ {
		for _, l := range ev.leaf {
			for _, a := range axes {
				if a.v == ev.order[l] {
					ev.vals[l] = rnd.Uint64() % a.size
				}
			}
		}
		if !ev.run() {
			return nil
		}
		for i, t := range ts {
			x := num(t, ev.vals[ev.pos[t.id]])
			if t.S.K == KBool {
				if k == 0 {
					defs[i].flip = x == 1
				}
				if defs[i].flip {
					x = 1 - x
				}
			}
			sample[i] = append(sample[i], x+0)
		}
	}
	class := map[string]int{}
	for i, t := range ts {
		k := ""
		off := 0.0
		if t.S.K != KBool {
			off = sample[i][0]
			for _, x := range sample[i] {
				if x != math.Floor(x) || math.Abs(x) > exactLimit {
					off = 0
				}
			}
		}
		defs[i].off = off
		for _, x := range sample[i] {
			k += fmt.Sprint(x-off, ",")
		}
		if t.S.K == KBool {
			k = "b" + k
		}
		c, ok := class[k]
		if !ok {
			c = i
			class[k] = i
		}
		defs[i].class = c
	}
	// pairs of which the first seems to determine the second
	type pair struct{ i, j int }
	var pairs []pair
	for i, t := range ts {
		if t.S.K == KBool || defs[i].class != i {
			continue
		}
		for j, u := range ts {
			if j == i || defs[j].class != j {
				continue
			}
			f := map[float64]float64{}
			good := true
			for k, x := range sample[i] {
				y := sample[j][k]
				if u.S.K == KBool && defs[j].flip {
					y = 1 - y
				}
				if x != math.Floor(x) || math.Abs(x) >= fnSize/2 || y != math.Floor(y) || math.Abs(y) > exactLimit {
					good = false
					break
				}
				if old, ok := f[x]; ok && old != y {
					good = false
					break
				}
				f[x] = y
			}
			if good {
				pairs = append(pairs, pair{i, j})
			}
		}
	}
	if len(pairs) > 24 {
		pairs = pairs[:24]
	}
	workers := 64
	fns := make([][][]float64, workers)
	for w := range fns {
		fns[w] = make([][]float64, len(pairs))
		for k := range pairs {
			f := make([]float64, fnSize)
			for i := range f {
				f[i] = math.NaN()
			}
			fns[w][k] = f
		}
	}
	accs := make([][]acc, workers)
	differ := make([][]bool, workers)
	for w := range accs {
		accs[w] = make([]acc, len(ts))
		differ[w] = make([]bool, len(ts))
		for i := range accs[w] {
			accs[w][i] = acc{math.Inf(1), math.Inf(-1), true, false}
		}
	}
	begin := time.Now()
	ok := scan(axes, ts, func(w int, _, _ uint64, n int, col func(*Term) []uint64) bool {
		for p, f := range fns[w] {
			if f == nil {
				continue
			}
			t, u := ts[pairs[p].i], ts[pairs[p].j]
			ct, cu := col(t), col(u)
			for k, v := range ct {
				x, y := num(t, v), num(u, cu[k])
				if !(math.Abs(x) < fnSize/2) || x != math.Floor(x) {
					fns[w][p] = nil
					break
				}
				if at := &f[int(x)+fnSize/2]; *at != y {
					if *at == *at || y != y {
						fns[w][p] = nil
						break
					}
					*at = y
				}
			}
		}
		for i, t := range ts {
			c := col(t)
			a := &accs[w][i]
			lo, hi, wh := a.lo, a.hi, a.whole
			for _, v := range c {
				x := num(t, v)
				if x < lo {
					lo = x
				}
				if x > hi {
					hi = x
				}
				if x != x {
					a.nanSeen = true
				}
				if wh && x != math.Floor(x) {
					wh = false
				}
			}
			a.lo, a.hi, a.whole = lo, hi, wh
			if l := defs[i].class; l != i && !differ[w][i] {
				lc, lt := col(ts[l]), ts[l]
				off := defs[i].off - defs[l].off
				fl := uint64(0)
				if defs[i].flip != defs[l].flip {
					fl = 1
				}
				for k, v := range c {
					x, y := num(t, v^fl), num(lt, lc[k])
					if x != y+off && (x == x || y == y) {
						differ[w][i] = true
						break
					}
				}
			}
		}
		return true
	})
	h.points += uint64(points(axes))
	h.log("table of %d terms over %s: %.3g points, %.1fs", len(ts), s.key(), points(axes), time.Since(begin).Seconds())
	if !ok {
		return nil
	}
	for i, d := range defs {
		d.lo, d.hi = math.Inf(1), math.Inf(-1)
		for w := range accs {
			a := accs[w][i]
			d.lo, d.hi = math.Min(d.lo, a.lo), math.Max(d.hi, a.hi)
			d.whole = d.whole && a.whole
			if a.nanSeen {
				d.whole, d.lo, d.hi = false, math.Inf(-1), math.Inf(1)
			}
			if differ[w][i] {
				d.class = i
			}
		}
		if math.Abs(d.lo) > exactLimit || math.Abs(d.hi) > exactLimit {
			d.whole = false
		}
	}
	for p, pr := range pairs {
		f := fns[0][p]
		for w := 1; w < workers && f != nil; w++ {
			g := fns[w][p]
			if g == nil {
				f = nil
				break
			}
			for k, y := range g {
				if y == y {
					if f[k] == f[k] && f[k] != y {
						f = nil
						break
					}
					f[k] = y
				}
			}
		}
		if f != nil {
			d := defs[pr.j]
			if d.fns == nil {
				d.fns = map[int][]float64{}
			}
			d.fns[defs[pr.i].class] = f
		}
	}
	// members first of class sorted so that cuts stand for integer terms
	sort.SliceStable(defs, func(i, j int) bool { return defs[i].t.S.K == KBV && defs[j].t.S.K != KBV })
	return defs
}

// gate finds a float subterm through which all integer variables of the goal
// act.
func (h *hybrid) gate(goal *Term) *Term {
	ev := newEvaluator(goal)
	var ints []*Term
	for _, v := range vars(goal) {
		if v.S.K == KBV {
			ints = append(ints, v)
		}
	}
	if len(ints) < 2 {
		return nil
	}
	for i, t := range ev.order {
		if t.S != SF64 {
			continue
		}
		s := h.support(t)
		if s.float || s.points > goalPoints || len(s.vars) != len(ints) {
			continue
		}
		_ = i
		g := Subst(goal, map[int]*Term{t.id: Var("gate!", SF64)}, map[int]*Term{})
		left := false
		for _, v := range vars(g) {
			left = left || v.S.K == KBV
		}
		if !left {
			return t
		}
	}
	return nil
}

func (h *hybrid) tableRange(t *Term) (ival, bool) {
	d := h.table([]*Term{t}, h.support(t))
	if d == nil {
		return everything, false
	}
	return ival{d[0].lo, d[0].hi}, true
}

// ---------- counterexamples

// search looks for an input that violates the original obligation: at the
// point where the generalised goal failed, and at random.
func (h *hybrid) search(hyps []*Term, goal *Term, o *Obl) {
	bad := And(append(append([]*Term(nil), hyps...), Not(goal))...)
	ev := newEvaluator(bad)
	rnd := rand.New(rand.NewSource(7))
	begin := time.Now()
	limit := 12 * time.Second
	for n := 0; time.Since(begin) < limit && !pastDeadline(); n++ {
		for _, l := range ev.leaf {
			v := ev.order[l]
			if x, ok := h.fail[v.Name]; ok && n&3 != 3 {
				ev.vals[l] = x
				continue
			}
			switch v.S.K {
			case KF64:
				b, ok := h.fdom[v.Name]
				if !ok || nan(b) {
					b = ival{-720, 720}
				}
				x := b.lo + (b.hi-b.lo)*rnd.Float64()
				switch rnd.Intn(4) {
				case 0:
					x = math.Round(x)
				case 1:
					x = math.Round(x/6) * 6
				}
				ev.vals[l] = math.Float64bits(x)
			default:
				m := h.maxVal(v)
				x := rnd.Uint64()
				if m != math.MaxUint64 {
					x %= m + 1
				}
				switch rnd.Intn(12) {
				case 0:
					x = 0
				case 1:
					x = m
				case 2:
					x = (m + 1) / 2
				}
				ev.vals[l] = x
			}
		}
		if !ev.run() {
			return
		}
		if ev.vals[ev.pos[bad.id]] == 1 {
			m := map[string]uint64{}
			for _, l := range ev.leaf {
				m[strings.TrimRight(ev.order[l].Name, "'")] = ev.vals[l]
			}
			o.Model = m
			return
		}
	}
}

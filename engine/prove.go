package main

// Turning contracts into obligations and discharging them.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Result struct {
	C        *Contract
	Cases    int
	Obls     []*Obl // every obligation generated (with its verdict)
	Trivial  int    // obligations closed by rewriting alone
	Covers   int
	Vacuous  []string
	Inlined  map[string]bool
	External map[string]bool
	Used     map[*Contract]bool
	Wall     time.Duration
	Err      string
}

func (r *Result) Failed(kinds ...string) []*Obl {
	var out []*Obl
	for _, o := range r.Obls {
		if o.Status == "proved" {
			continue
		}
		if len(kinds) == 0 {
			out = append(out, o)
			continue
		}
		for _, k := range kinds {
			if o.Kind == k {
				out = append(out, o)
			}
		}
	}
	return out
}

func (r *Result) OK() bool { return r.Err == "" && len(r.Failed()) == 0 && len(r.Vacuous) == 0 }

type caseSpec struct {
	lens map[string]int
	vals map[string]int64
}

func (cs caseSpec) String() string {
	var s []string
	for k, v := range cs.lens {
		if v < 0 {
			s = append(s, "len("+k+") any other")
		} else {
			s = append(s, fmt.Sprintf("len(%s)=%d", k, v))
		}
	}
	for k, v := range cs.vals {
		s = append(s, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func (c *Contract) cases() []caseSpec {
	out := []caseSpec{{map[string]int{}, map[string]int64{}}}
	var ns []string
	for n := range c.Lens {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	cp := func(cs caseSpec) caseSpec {
		n := caseSpec{map[string]int{}, map[string]int64{}}
		for k, v := range cs.lens {
			n.lens[k] = v
		}
		for k, v := range cs.vals {
			n.vals[k] = v
		}
		return n
	}
	for _, n := range ns {
		var nx []caseSpec
		for _, cs := range out {
			for _, l := range c.Lens[n] {
				d := cp(cs)
				d.lens[n] = l
				nx = append(nx, d)
			}
		}
		out = nx
	}
	ns = nil
	for n := range c.Splits {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		var nx []caseSpec
		r := c.Splits[n]
		for _, cs := range out {
			for v := r[0]; v <= r[1]; v++ {
				d := cp(cs)
				d.vals[n] = v
				nx = append(nx, d)
			}
		}
		out = nx
	}
	return out
}

func (e *Engine) newExec() *Exec {
	ex := &Exec{eng: e, used: map[*Contract]bool{}, inlined: map[string]bool{}, external: map[string]bool{}}
	ex.pol = &policy{useContract: e.contractFor}
	return ex
}

// contractFor returns the contract to use at a call of fn, if it has been (or
// can now be) proved against fn's body.
func (e *Engine) contractFor(fn *ssa.Function) *Contract {
	c := e.byFn[fn]
	if c == nil || c.proving || !c.modular() {
		return nil
	}
	if r := e.prove(c); !r.OK() {
		return nil
	}
	return c
}

// modular: results are integers or booleans and no parameter was split.
func (c *Contract) modular() bool {
	if c.Kind == "field" {
		return true
	}
	if c.Kind != "contract" || len(c.Splits) > 0 || c.Opts["NotModular"] {
		return false
	}
	rs := c.Target.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		if _, _, ok := intInfo(t); ok || isBool(t) {
			continue
		}
		if isString(t) && c.Opts["Opaque"] {
			continue
		}
		return false
	}
	return true
}

func specBits(es []Value, from, to int) *Term {
	var ps []*Term
	for b := from; b <= to; b++ {
		x := es[(b-1)/8].(*Term)
		k := 7 - (b-1)%8
		ps = append(ps, Extract(k, k, x))
	}
	return Concat(ps...)
}

func (c *Contract) fieldTerm(es []Value) (Value, bool) {
	t := c.Target.Signature.Results().At(0).Type()
	if len(es)*8 < c.BitTo {
		return nil, false
	}
	b := specBits(es, c.BitFrom, c.BitTo)
	if isBool(t) {
		return Eq(b, Const(b.W(), 1)), b.W() == 1
	}
	w, _, ok := intInfo(t)
	if !ok || w < b.W() {
		return nil, false
	}
	return ZExt(b, w), true
}

func (ex *Exec) callByContract(fr *frame, c *Contract, args []Value, st *State, pos token.Pos) (*State, Value, bool) {
	// the proof covers particular slice lengths
	for i, p := range c.Params {
		ls, ok := c.Lens[p]
		if !ok || i >= len(args) {
			continue
		}
		s, ok := args[i].(*SliceVal)
		if !ok {
			return nil, nil, false
		}
		for _, a := range s.Alts {
			hit := false
			for _, l := range ls {
				if l < 0 || (a.Len.IsConst() && a.Len.Val == uint64(l) && a.Obj != nil) {
					hit = true
				}
			}
			if !hit {
				return nil, nil, false
			}
		}
	}
	if c.Kind == "field" {
		s := args[0].(*SliceVal)
		if len(s.Alts) != 1 {
			return nil, nil, false
		}
		es, ok := ex.sliceElems(s.Alts[0], st)
		if !ok {
			return nil, nil, false
		}
		v, ok := c.fieldTerm(es)
		if !ok {
			return nil, nil, false
		}
		ex.used[c] = true
		return st, v, true
	}
	rs := c.Target.Signature.Results()
	var res []Value
	var fresh []*Term
	for i := 0; i < rs.Len(); i++ {
		if isString(rs.At(i).Type()) {
			res = append(res, SOpaque("result of "+c.ID))
			continue
		}
		v := freshAny("ret."+c.Target.Name(), rs.At(i).Type())
		res = append(res, v)
		fresh = append(fresh, v.(*Term))
	}
	save := *ex
	restore := func() {
		ex.mode, ex.ghost, ex.onEns, ex.onReq = save.mode, save.ghost, save.onEns, save.onReq
	}
	var reqs, ens []*Term
	ex.ghost++
	ex.mode = "pre"
	ex.onReq = func(pc, cond *Term, _ string) { reqs = append(reqs, Implies(pc, cond)) }
	ex.onEns = func(pc, cond *Term, label, _ string) {}
	pargs := append([]Value(nil), args...)
	for range res {
		pargs = append(pargs, Poison{})
	}
	s1 := st.fork()
	s1.pc = True
	nob := len(ex.obls)
	ex.runBody(c.Spec, pargs, nil, s1)
	ex.mode = "post"
	ex.onReq = func(pc, cond *Term, _ string) {}
	ex.onEns = func(pc, cond *Term, label, _ string) { ens = append(ens, Implies(pc, cond)) }
	s2 := st.fork()
	s2.pc = True
	ex.runBody(c.Spec, append(append([]Value(nil), args...), res...), nil, s2)
	restore()
	ex.obls = ex.obls[:nob]
	for _, r := range reqs {
		ex.oblige("pre", "precondition of "+c.ID, fr.fn, 0, st.pc, r)
	}
	sub := map[int]*Term{}
	for _, f := range fresh {
		for _, en := range ens {
			if t := solveFor(f, en); t != nil {
				sub[f.id] = t
				break
			}
		}
	}
	memo := map[int]*Term{}
	if len(sub) > 0 {
		for i, v := range res {
			if t, ok := v.(*Term); ok {
				res[i] = Subst(t, sub, memo)
			}
		}
	}
	for _, en := range ens {
		h := Subst(en, sub, memo)
		if h != True {
			ex.hyps = append(ex.hyps[:len(ex.hyps):len(ex.hyps)], Implies(st.pc, h))
		}
	}
	ex.used[c] = true
	var v Value
	switch len(res) {
	case 0:
	case 1:
		v = res[0]
	default:
		v = TupleVal(res)
	}
	return st, v, true
}

// solveFor extracts t from an equation v = t (v not occurring in t).
func solveFor(v, en *Term) *Term {
	occurs := func(t *Term) bool {
		for _, x := range vars(t) {
			if x == v {
				return true
			}
		}
		return false
	}
	if v.S.K == KBool {
		if en == v {
			return True
		}
		if en == Not(v) {
			return False
		}
	}
	for _, c := range conjuncts(en) {
		if c.Op == OpEq {
			if c.Args[0] == v && !occurs(c.Args[1]) {
				return c.Args[1]
			}
			if c.Args[1] == v && !occurs(c.Args[0]) {
				return c.Args[0]
			}
		}
	}
	// equality decided piecewise: conjunction of equations on disjoint slices
	if v.S.K == KBV {
		bits := make([]*Term, v.W())
		n := 0
		for _, c := range conjuncts(en) {
			if c.Op != OpEq {
				continue
			}
			for k := 0; k < 2; k++ {
				a, b := c.Args[k], c.Args[1-k]
				if a.Op == OpExtract && a.Args[0] == v && !occurs(b) {
					hi, lo := int(a.Val>>8), int(a.Val&0xff)
					for i := lo; i <= hi; i++ {
						if bits[i] == nil {
							n++
						}
						bits[i] = Extract(i-lo, i-lo, b)
					}
					break
				}
			}
		}
		if n == v.W() {
			rev := make([]*Term, len(bits))
			for i := range bits {
				rev[len(bits)-1-i] = bits[i]
			}
			return Concat(rev...)
		}
	}
	return nil
}

func conjuncts(t *Term) []*Term {
	if t.Op == OpAnd {
		return t.Args
	}
	if t == True {
		return nil
	}
	return []*Term{t}
}

func (ex *Exec) specCall(fr *frame, name string, args []Value, c *ssa.Call, st *State) (Value, bool) {
	switch name {
	case "Requires":
		if ex.onReq != nil {
			ex.onReq(st.pc, args[0].(*Term), ex.posOf(c.Pos()))
		}
		return nil, true
	case "Ensures":
		if ex.onEns != nil {
			l, _ := args[0].(*Str).Const()
			ex.onEns(st.pc, args[1].(*Term), l, ex.posOf(c.Pos()))
		}
		return nil, true
	}
	return nil, false
}

// ---------- proving one contract

func (e *Engine) prove(c *Contract) *Result {
	if c.done {
		return c.res
	}
	c.proving = true
	start := time.Now()
	r := e.attempt(c, true)
	if !r.OK() && len(r.Used) > 0 && !pastDeadline() && time.Since(e.start) < 400*time.Second {
		// the contracts of the callees may say too little: look through them
		if r2 := e.attempt(c, false); r2.OK() || !r.definite() {
			r = r2
		}
	}
	r.Wall = time.Since(start)
	c.proving = false
	c.done = true
	c.res = r
	return r
}

// definite: a failure has a counterexample that does not involve the results
// of callees replaced by their contracts.
func (r *Result) definite() bool {
	for _, o := range r.Failed() {
		if o.Model == nil {
			continue
		}
		ok := true
		for k := range o.Model {
			if strings.HasPrefix(k, "ret.") {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func (e *Engine) attempt(c *Contract, contracts bool) (r *Result) {
	r = &Result{C: c, Inlined: map[string]bool{}, External: map[string]bool{}, Used: map[*Contract]bool{}}
	var pend []*Obl
	outer := deadline
	if t := time.Now().Add(contractSeconds * time.Second); outer.IsZero() || t.Before(outer) {
		deadline = t
	}
	defer func() {
		deadline = outer
		x := recover()
		if x == nil {
			return
		}
		if _, ok := x.(outOfTime); !ok {
			panic(x)
		}
		r.Obls = append(pend, &Obl{Kind: "unsupported", Label: "the proof did not finish in time", Fn: c.ID, Pos: c.Pos, PC: True, Cond: False, Status: "unknown"})
	}()
	for _, cs := range c.cases() {
		r.Cases++
		ex := e.newExec()
		if !contracts {
			ex.pol.useContract = nil
		}
		e.runCase(ex, c, cs)
		for k := range ex.inlined {
			r.Inlined[k] = true
		}
		for k := range ex.external {
			r.External[k] = true
		}
		for k := range ex.used {
			r.Used[k] = true
			if k.res != nil {
				for u := range k.res.Used {
					r.Used[u] = true
				}
			}
		}
		// vacuity: the precondition admits an input
		if len(ex.hyps) > 0 {
			if e.smt.checkSat(ex.hyps, 30) == "unsat" {
				r.Vacuous = append(r.Vacuous, cs.String())
			}
		}
		r.Covers++
		for _, o := range ex.obls {
			if cs.String() != "" {
				o.Label += " [" + cs.String() + "]"
			}
			o.Out = ""
			o.Case = cs
			pend = append(pend, o)
		}
		r.Trivial += ex.nosafe
	}
	r.Obls = pend
	e.reachable(r)
	e.discharge(c, pend)
	return r
}

// reachable checks that every postcondition is evaluated on some input.
func (e *Engine) reachable(r *Result) {
	groups := map[string][]*Obl{}
	var keys []string
	for _, o := range r.Obls {
		if o.Kind != "ensures" {
			continue
		}
		k := baseLabel(o) + " at " + o.Pos
		if groups[k] == nil {
			keys = append(keys, k)
		}
		groups[k] = append(groups[k], o)
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	sem := make(chan bool, runtime.NumCPU())
	for _, k := range keys {
		os := groups[k]
		done := false
		for _, o := range os {
			if (o.PC == True && len(o.Hyps) == 0) || o.Cond == False {
				done = true
			}
		}
		r.Covers++
		if done {
			continue
		}
		wg.Add(1)
		sem <- true
		k := k
		go func() {
			defer func() { <-sem; wg.Done() }()
			for _, o := range os {
				if e.smt.checkSat(append([]*Term{o.PC}, o.Hyps...), 20) != "unsat" {
					return
				}
			}
			mu.Lock()
			r.Vacuous = append(r.Vacuous, "no input reaches the postcondition "+k)
			mu.Unlock()
		}()
	}
	wg.Wait()
	sort.Strings(r.Vacuous)
}

func (e *Engine) runCase(ex *Exec, c *Contract, cs caseSpec) {
	defer func() {
		if x := recover(); x != nil {
			if u, ok := x.(unsupported); ok {
				ex.obls = append(ex.obls, &Obl{Kind: "unsupported", Label: u.msg, Fn: c.ID, Pos: c.Pos, PC: True, Cond: False})
				return
			}
			if _, ok := x.(stopPath); ok {
				return
			}
			if _, ok := x.(outOfTime); ok {
				panic(x)
			}
			if os.Getenv("DEBUG") != "" {
				panic(x)
			}
			ex.obls = append(ex.obls, &Obl{Kind: "unsupported", Label: fmt.Sprint("internal error: ", x), Fn: c.ID, Pos: c.Pos, PC: True, Cond: False})
		}
	}()
	st := &State{True, newLayer(nil)}
	sig := (*types.Signature)(nil)
	var ptypes []types.Type
	if c.Target != nil {
		sig = c.Target.Signature
		for _, p := range c.Target.Params {
			ptypes = append(ptypes, p.Type())
		}
	} else {
		for _, p := range c.Spec.Params {
			ptypes = append(ptypes, p.Type())
		}
	}
	var args []Value
	for i, t := range ptypes {
		n := c.Params[i]
		if v, ok := cs.vals[n]; ok {
			w, _, _ := intInfo(t)
			args = append(args, Const(w, uint64(v)))
			continue
		}
		a := ex.symInput(n, t, st, cs.lens)
		if l, ok := cs.lens[n]; ok && l < 0 {
			// any length other than those treated separately
			for _, k := range c.Lens[n] {
				if k >= 0 {
					ex.hyps = append(ex.hyps, Not(Eq(Var("len("+n+")", BV(20)), Const(20, uint64(k)))))
				}
			}
		}
		args = append(args, a)
	}
	_ = sig
	switch c.Kind {
	case "field":
		ex.inlined[e.fnName(c.Target)] = true
		ns, v := ex.runBody(c.Target, args, nil, st)
		if ns == nil {
			ex.oblige("ensures", "returns", c.Target, c.Target.Pos(), True, False)
			return
		}
		es, _ := ex.sliceElems(args[0].(*SliceVal).Alts[0], st)
		want, ok := c.fieldTerm(es)
		if !ok {
			ex.oblige("ensures", "field type", c.Target, c.Target.Pos(), True, False)
			return
		}
		cond := Eq(v.(*Term), want.(*Term))
		ex.ensure(c.Target, fmt.Sprintf("result is bits %d to %d", c.BitFrom, c.BitTo), c.Pos, True, cond)
	case "contract":
		res := sigResults(c.Target)
		pargs := append([]Value(nil), args...)
		for range res {
			pargs = append(pargs, Poison{})
		}
		ex.mode = "pre"
		ex.ghost = 1
		ex.onReq = func(pc, cond *Term, _ string) { ex.hyps = append(ex.hyps, Implies(pc, cond)) }
		ex.onEns = func(pc, cond *Term, label, _ string) {}
		ex.runBody(c.Spec, pargs, nil, st)
		ex.obls = nil
		ex.mode = ""
		ex.ghost = 0
		ex.onReq = nil
		st = &State{True, newLayer(st.mem)}
		ex.inlined[e.fnName(c.Target)] = true
		ns, v := ex.runBody(c.Target, args, nil, st)
		if ns == nil {
			ex.oblige("ensures", "returns", c.Target, c.Target.Pos(), True, False)
			return
		}
		var rv []Value
		switch len(res) {
		case 0:
		case 1:
			rv = []Value{v}
		default:
			rv = v.(TupleVal)
		}
		ex.aliasCheck(c.Target, rv, ns)
		ex.mode = "post"
		ex.ghost = 1
		ex.onReq = func(pc, cond *Term, _ string) {}
		ex.onEns = func(pc, cond *Term, label, pos string) { ex.ensure(c.Target, label, pos, pc, cond) }
		ns.pc = True
		ex.runBody(c.Spec, append(append([]Value(nil), args...), rv...), nil, ns)
	case "lemma":
		ex.mode = "lemma"
		ex.ghost = 1
		ex.onReq = func(pc, cond *Term, _ string) {
			ex.hyps = append(ex.hyps[:len(ex.hyps):len(ex.hyps)], Implies(pc, cond))
		}
		ex.onEns = func(pc, cond *Term, label, pos string) { ex.ensure(c.Spec, label, pos, pc, cond) }
		ex.runBody(c.Spec, args, nil, st)
	}
}

func sigResults(fn *ssa.Function) []types.Type {
	var out []types.Type
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		out = append(out, rs.At(i).Type())
	}
	return out
}

// ensure records a postcondition obligation, also when rewriting closes it.
func (ex *Exec) ensure(fn *ssa.Function, label, pos string, pc, cond *Term) {
	if pc == False {
		return
	}
	o := &Obl{Kind: "ensures", Label: label, Fn: ex.eng.fnName(fn), Pos: pos, PC: pc, Cond: cond, Hyps: ex.hyps}
	if o.Goal() == False {
		o.Status, o.Backend = "proved", "rewriting"
	}
	ex.obls = append(ex.obls, o)
}

// aliasCheck: nothing reachable from the results is memory the caller passed in.
func (ex *Exec) aliasCheck(fn *ssa.Function, rv []Value, st *State) {
	seen := map[*Object]*Term{}
	var visit func(v Value, g *Term)
	obj := func(o *Object, g *Term) {
		if o == nil || g == False {
			return
		}
		if p, ok := seen[o]; ok && And(g, Not(p)) == False {
			return
		} else if ok {
			seen[o] = Or(p, g)
		} else {
			seen[o] = g
		}
		if o.Pre {
			ex.obls = append(ex.obls, &Obl{Kind: "alias", Label: "the result does not refer to " + o.Name, Fn: ex.eng.fnName(fn), Pos: ex.posOf(fn.Pos()), PC: g, Cond: False, Hyps: ex.hyps})
			return
		}
		if o.Glob {
			return
		}
		if m := st.mem.get(o); m != nil {
			visit(m, g)
		}
	}
	visit = func(v Value, g *Term) {
		switch x := v.(type) {
		case *PtrVal:
			for _, a := range x.Alts {
				obj(a.Obj, And(g, a.G))
			}
		case *SliceVal:
			for _, a := range x.Alts {
				obj(a.Obj, And(g, a.G))
			}
		case *MapVal:
			for _, a := range x.Alts {
				obj(a.Obj, And(g, a.G))
			}
		case *StructVal:
			for _, f := range x.F {
				visit(f, g)
			}
		case *ArrayVal:
			for _, f := range x.E {
				visit(f, g)
			}
		case *IfaceVal:
			for _, a := range x.Alts {
				if a.T != nil {
					visit(a.V, And(g, a.G))
				}
			}
		case TupleVal:
			for _, f := range x {
				visit(f, g)
			}
		}
	}
	for _, v := range rv {
		visit(v, True)
	}
}

// ---------- discharge

func (e *Engine) discharge(c *Contract, obls []*Obl) {
	var rest, wide []*Obl
	begin := time.Now()
	var failures int32
	// solver time shrinks once failures are certain or the run grows long, so
	// that a broken tree is still reported in time
	limit := func(full int) int {
		switch {
		case time.Since(e.start) > 500*time.Second:
			return 1
		case time.Since(begin) > 120*time.Second || atomic.LoadInt32(&failures) > 8:
			return min(full, 3)
		case atomic.LoadInt32(&failures) > 0:
			return min(full, 15)
		}
		return full
	}
	for _, o := range obls {
		if o.Status == "proved" {
			continue
		}
		if o.Goal() == False {
			o.Status, o.Backend = "proved", "rewriting"
			continue
		}
		// literal propagation
		cond := o.Cond
		o.Cond = propagate(o.PC, o.Cond)
		if o.Goal() == False {
			o.Status, o.Backend = "proved", "rewriting"
			continue
		}
		if wideFloat(o) {
			o.Cond = cond
			wide = append(wide, o)
			continue
		}
		e.defloat(o)
		if o.Goal() == False {
			o.Status, o.Backend = "proved", "truth tables of the floating-point atoms"
			continue
		}
		rest = append(rest, o)
	}
	for _, o := range wide {
		if !e.hybrid(o, 400) {
			rest = append(rest, o)
		}
	}
	if len(rest) == 0 {
		return
	}
	// one query for everything first
	if len(rest) > 1 {
		groups := map[string][]*Obl{}
		for _, o := range rest {
			k := ""
			for _, h := range o.Hyps {
				k += fmt.Sprint(h.id, ",")
			}
			groups[k] = append(groups[k], o)
		}
		var left []*Obl
		var keys []string
		for k := range groups {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			g := groups[k]
			if len(g) == 1 {
				left = append(left, g...)
				continue
			}
			var gs []*Term
			secs := 10
			x := newGF2()
			for _, o := range g {
				gs = append(gs, o.Goal())
				if x.hasXor(o.Goal()) {
					secs = 3
				}
			}
			left = append(left, e.jointly(g, gs, secs)...)
		}
		rest = left
	}
	if specialBackends(e, c, rest) {
		var r2 []*Obl
		for _, o := range rest {
			if o.Status == "" {
				r2 = append(r2, o)
			}
		}
		rest = r2
		if len(rest) == 0 {
			return
		}
	}
	// encoding is not thread safe with respect to term creation; solve in turn
	// but run the solvers concurrently
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	type job struct {
		o   *Obl
		res string
		m   map[string]uint64
		abs bool
	}
	var jobs []*job
	for _, o := range rest {
		j := &job{o: o}
		jobs = append(jobs, j)
		wg.Add(1)
		goal := append([]*Term{o.Goal()}, o.Hyps...)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			j.res, j.m, j.abs = e.smt.solve(goal, limit(60), true, "z3")
			if j.res != "unsat" && !j.abs {
				atomic.AddInt32(&failures, 1)
			}
		}()
	}
	wg.Wait()
	for _, j := range jobs {
		o := j.o
		switch {
		case j.res == "unsat":
			o.Status, o.Backend = "proved", "z3"
		case j.res == "sat" && !j.abs:
			o.Status, o.Backend, o.Model = "failed", "z3", j.m
		default:
			if limit(60) > 3 {
				e.enumerate(o)
			}
			if o.Status == "" {
				o.Status = "unknown"
				o.Out = "z3: " + j.res
				if j.abs {
					o.Out += " (floating-point atoms abstracted)"
				}
			}
		}
	}
}

// wideFloat: the obligation depends on floating-point arithmetic over more
// input bits than can be enumerated.
func wideFloat(o *Obl) bool {
	roots := append([]*Term{o.Goal()}, o.Hyps...)
	fl := false
	for _, t := range roots {
		fl = fl || t.HasFloat()
	}
	if !fl {
		return false
	}
	seen := map[int]bool{}
	for stack := roots; len(stack) > 0; {
		t := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[t.id] {
			continue
		}
		seen[t.id] = true
		atom := false
		for _, a := range t.Args {
			atom = atom || t.S.K != KF64 && t.S.K != KF32 && (a.S.K == KF64 || a.S.K == KF32)
		}
		if !atom {
			stack = append(stack, t.Args...)
			continue
		}
		n := 0
		for _, v := range vars(t) {
			if v.S.K == KBV {
				n += v.W()
			} else if v.S.K != KBool {
				n += 64
			}
		}
		if n > 32 {
			return true
		}
	}
	return false
}

func (e *Engine) hybrid(o *Obl, seconds int) bool {
	st, out := e.hybridProve(o, seconds)
	if st == "proved" || st == "failed" {
		o.Status, o.Backend, o.Out = st, hybridBackend, out
		if out == sphereBackend {
			o.Backend = out
		}
		return true
	}
	o.Out = out
	return false
}

// jointly discharges obligations with common hypotheses by one query, halving
// the set as long as a query has an answer, and returns those left.
func (e *Engine) jointly(g []*Obl, gs []*Term, secs int) []*Obl {
	r, _, _ := e.smt.solve(append([]*Term{Or(gs...)}, g[0].Hyps...), secs, false, "z3")
	switch {
	case r == "unsat":
		for _, o := range g {
			o.Status, o.Backend = "proved", "z3 (joint query)"
		}
		return nil
	case r != "sat" || len(g) == 1 || time.Since(e.start) > 400*time.Second:
		return g
	}
	h := len(g) / 2
	return append(e.jointly(g[:h], gs[:h], secs), e.jointly(g[h:], gs[h:], secs)...)
}

// defloat tabulates the floating-point atoms of an obligation.
func (e *Engine) defloat(o *Obl) {
	if e.tab == nil {
		e.tab = &tabulator{memo: map[int]*Term{}}
	}
	n := e.tab.count
	defer func() { e.enumCount += e.tab.count - n }()
	o.PC, o.Cond = e.tab.term(o.PC), e.tab.term(o.Cond)
	for i, h := range o.Hyps {
		if n := e.tab.term(h); n != h {
			o.Hyps = append([]*Term(nil), o.Hyps...)
			o.Hyps[i] = n
		}
	}
}

func propagate(pc, cond *Term) *Term {
	m := map[int]*Term{}
	for _, l := range conjuncts(pc) {
		m[l.id] = True
		m[Not(l).id] = False
	}
	if len(m) == 0 {
		return cond
	}
	return Subst(cond, m, map[int]*Term{})
}

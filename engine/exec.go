package main

// Symbolic execution of go/ssa functions with path merging. Every function is
// executed once per call site; loops are unrolled until the path condition of
// the next iteration is unsatisfiable (complete unrolling, checked) or cut.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- memory layers

type layer struct {
	parent *layer
	m      map[*Object]Value
	depth  int
}

func newLayer(p *layer) *layer {
	d := 0
	if p != nil {
		d = p.depth + 1
	}
	return &layer{parent: p, m: map[*Object]Value{}, depth: d}
}
func (l *layer) get(o *Object) Value {
	for ; l != nil; l = l.parent {
		if v, ok := l.m[o]; ok {
			return v
		}
	}
	return nil
}

type State struct {
	pc  *Term
	mem *layer
}

func (s *State) fork() *State { return &State{s.pc, newLayer(s.mem)} }

// relGuard returns a condition that holds on a and not on b, dropping the
// conjuncts shared by both path conditions.
func relGuard(a, b *Term) *Term {
	sa, sb := conjSet(a), conjSet(b)
	var ra, rb []*Term
	for id, t := range sa {
		if _, ok := sb[id]; !ok {
			ra = append(ra, t)
		}
	}
	for id, t := range sb {
		if _, ok := sa[id]; !ok {
			rb = append(rb, t)
		}
	}
	if len(ra) <= 1 {
		return And(ra...)
	}
	if len(rb) == 1 {
		return Not(rb[0])
	}
	return And(ra...)
}

func mergeMem(g *Term, a, b *layer) *layer {
	if a == b {
		return newLayer(a)
	}
	x, y := a, b
	keys := map[*Object]bool{}
	step := func(l *layer) *layer {
		for k := range l.m {
			keys[k] = true
		}
		return l.parent
	}
	for x != y {
		if x.depth >= y.depth {
			x = step(x)
		} else {
			y = step(y)
		}
	}
	out := newLayer(x)
	for _, k := range sortedObjs(keys) {
		va, vb := a.get(k), b.get(k)
		out.m[k] = safeMerge(g, va, vb)
	}
	return out
}

// Bad is a value that could not be merged; using it is unsupported.
type Bad struct{ msg string }

func safeMerge(g *Term, a, b Value) (r Value) {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if _, ok := a.(*Bad); ok {
		return a
	}
	if _, ok := b.(*Bad); ok {
		return b
	}
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(unsupported); ok {
				r = &Bad{u.msg}
				return
			}
			panic(e)
		}
	}()
	return mergeV(g, a, b)
}

func mergeStates(a, b *State) (*State, *Term) {
	g := relGuard(a.pc, b.pc)
	return &State{pc: Or(a.pc, b.pc), mem: mergeMem(g, a.mem, b.mem)}, g
}

// ---------- obligations

type Obl struct {
	Kind  string // ensures, pre, safe, frame, alias, unwind, unsupported, cover
	Label string
	Fn    string
	Pos   string
	PC    *Term
	Cond  *Term
	Hyps  []*Term

	// filled by the prover
	Case    caseSpec
	Status  string // proved, failed, unknown
	Backend string
	Model   map[string]uint64
	Out     string
}

func (o *Obl) Goal() *Term { return And(o.PC, Not(o.Cond)) }
func (o *Obl) Name() string {
	return fmt.Sprintf("%s %s in %s at %s", o.Kind, o.Label, o.Fn, o.Pos)
}

type Exec struct {
	eng    *Engine
	obls   []*Obl
	hyps   []*Term
	objN   int
	depth  int
	ghost  int // > 0: executing specification code
	nosafe int
	stack  []string
	steps  int
	pol    *policy

	mode     string // "", pre, post (while running a contract closure)
	onEns    func(pc, cond *Term, label, pos string)
	onReq    func(pc, cond *Term, pos string)
	used     map[*Contract]bool
	inlined  map[string]bool
	external map[string]bool
	stopped  bool
}

type policy struct {
	useContract func(fn *ssa.Function) *Contract
}

func (ex *Exec) newObj(name string, t types.Type) *Object {
	ex.objN++
	return &Object{ID: ex.objN, Name: name, T: t}
}

func (ex *Exec) posOf(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := ex.eng.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", ex.eng.relFile(q.Filename), q.Line)
}

func (ex *Exec) oblige(kind, label string, fn *ssa.Function, pos token.Pos, pc, cond *Term) {
	if pc == False {
		return
	}
	if cond == True || And(pc, Not(cond)) == False {
		ex.nosafe++
		return
	}
	if ex.ghost > 0 && kind != "unsupported" && kind != "unwind" {
		if kind == "safe" {
			kind = "spec-safe"
		} else if kind == "frame" {
			kind = "spec-frame"
		}
	}
	name := "?"
	if fn != nil {
		name = ex.eng.fnName(fn)
	}
	ex.obls = append(ex.obls, &Obl{Kind: kind, Label: label, Fn: name, Pos: ex.posOf(pos), PC: pc, Cond: cond, Hyps: ex.hyps})
}

// ---------- frames

type frame struct {
	fn   *ssa.Function
	env  map[ssa.Value]Value
	bind []Value
}

type edgeState struct {
	st   *State
	env  map[ssa.Value]Value
	pred *ssa.BasicBlock
}

type retState struct {
	st *State
	v  Value
}

type wtoNode struct {
	b    *ssa.BasicBlock
	head bool
	sub  []*wtoNode
	in   map[*ssa.BasicBlock]bool // blocks of the component, including head
}

// wto computes a weak topological order (Bourdoncle).
func wto(fn *ssa.Function) []*wtoNode {
	n := len(fn.Blocks)
	dfn := make([]int, n)
	var stack []*ssa.BasicBlock
	num := 0
	const inf = int(^uint(0) >> 1)
	var visit func(b *ssa.BasicBlock, part *[]*wtoNode) int
	component := func(b *ssa.BasicBlock) *wtoNode {
		var part []*wtoNode
		for _, s := range b.Succs {
			if dfn[s.Index] == 0 {
				visit(s, &part)
			}
		}
		return &wtoNode{b: b, head: true, sub: part}
	}
	visit = func(b *ssa.BasicBlock, part *[]*wtoNode) int {
		stack = append(stack, b)
		num++
		dfn[b.Index] = num
		head := num
		loop := false
		for _, s := range b.Succs {
			var m int
			if dfn[s.Index] == 0 {
				m = visit(s, part)
			} else {
				m = dfn[s.Index]
			}
			if m <= head {
				head = m
				loop = true
			}
		}
		if head == dfn[b.Index] {
			dfn[b.Index] = inf
			e := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if loop {
				for e != b {
					dfn[e.Index] = 0
					e = stack[len(stack)-1]
					stack = stack[:len(stack)-1]
				}
				*part = append([]*wtoNode{component(b)}, *part...)
			} else {
				*part = append([]*wtoNode{{b: b}}, *part...)
			}
		}
		return head
	}
	var part []*wtoNode
	visit(fn.Blocks[0], &part)
	var fill func(w *wtoNode)
	fill = func(w *wtoNode) {
		w.in = map[*ssa.BasicBlock]bool{w.b: true}
		for _, s := range w.sub {
			fill(s)
			for b := range s.in {
				w.in[b] = true
			}
		}
	}
	for _, w := range part {
		fill(w)
	}
	return part
}

// Call executes a function body. It returns nil state when no path returns.
func (ex *Exec) runBody(fn *ssa.Function, args, bind []Value, st *State) (*State, Value) {
	if len(fn.Blocks) == 0 {
		unsup("call of external function %s", fn)
	}
	ex.depth++
	ex.stack = append(ex.stack, fn.String())
	defer func() { ex.depth--; ex.stack = ex.stack[:len(ex.stack)-1] }()
	if ex.depth > 150 {
		unsup("call depth exceeded in %s", fn)
	}
	if fn.Recover != nil {
		unsup("function with recover: %s", fn)
	}
	env := map[ssa.Value]Value{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	fr := &frame{fn: fn, bind: bind}
	pending := map[*ssa.BasicBlock][]edgeState{}
	var rets []retState
	entry := st.fork()
	pending[fn.Blocks[0]] = []edgeState{{st: entry, env: env}}
	order := ex.eng.wtoOf(fn)
	ex.runNodes(fr, order, pending, &rets)
	if len(rets) == 0 {
		return nil, nil
	}
	out := rets[0].st
	v := rets[0].v
	for _, r := range rets[1:] {
		var g *Term
		out, g = mergeStates(out, r.st)
		v = safeMerge(g, v, r.v)
	}
	if ex.mode != "pre" || ex.ghost == 0 {
		out.pc = st.pc
	}
	return out, v
}

func (ex *Exec) runNodes(fr *frame, nodes []*wtoNode, pending map[*ssa.BasicBlock][]edgeState, rets *[]retState) {
	for _, n := range nodes {
		if !n.head {
			ex.runBlock(fr, n.b, pending, rets)
			continue
		}
		for iter := 0; ; iter++ {
			in := pending[n.b]
			if len(in) == 0 {
				break
			}
			if iter > 0 {
				pcs := make([]*Term, len(in))
				for i, e := range in {
					pcs[i] = e.st.pc
				}
				pc := Or(pcs...)
				if iter > 100000 {
					unsup("loop in %s exceeds the unrolling limit", fr.fn)
				}
				if !ex.loopDecided(in) {
					if iter > 4 && !ex.feasible(pc) {
						delete(pending, n.b)
						break
					}
					if iter > 300 {
						ex.oblige("unwind", "loop unwinding bound 300", fr.fn, n.b.Instrs[0].Pos(), pc, False)
						delete(pending, n.b)
						break
					}
				}
			} else if ex.tryCut(fr, n, pending, rets) {
				break
			}
			ex.runBlock(fr, n.b, pending, rets)
			ex.runNodes(fr, n.sub, pending, rets)
		}
	}
}

// loopDecided: the path condition did not grow since the previous iteration,
// i.e. the loop is controlled by concrete values.
func (ex *Exec) loopDecided(in []edgeState) bool {
	if len(in) != 1 {
		return false
	}
	e := in[0]
	last, ok := ex.eng.loopPC[e.pred]
	ex.eng.loopPC[e.pred] = e.st.pc
	return ok && last == e.st.pc
}

func (ex *Exec) feasible(pc *Term) bool {
	if pc == False {
		return false
	}
	if pc == True {
		return true
	}
	r := ex.eng.smt.checkSat(append([]*Term{pc}, ex.hyps...), 20)
	return r != "unsat"
}

func (ex *Exec) runBlock(fr *frame, b *ssa.BasicBlock, pending map[*ssa.BasicBlock][]edgeState, rets *[]retState) {
	in := pending[b]
	delete(pending, b)
	if len(in) == 0 {
		return
	}
	// phis
	var phis []*ssa.Phi
	for _, ins := range b.Instrs {
		if p, ok := ins.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	for i := range in {
		if len(phis) == 0 {
			break
		}
		k := -1
		for j, p := range b.Preds {
			if p == in[i].pred {
				k = j
				break
			}
		}
		vals := make([]Value, len(phis))
		fe := &frame{fn: fr.fn, env: in[i].env, bind: fr.bind}
		for j, p := range phis {
			vals[j] = ex.operandRaw(fe, p.Edges[k])
		}
		env := copyEnv(in[i].env)
		for j, p := range phis {
			env[p] = vals[j]
		}
		in[i].env = env
	}
	cur := in[0]
	for _, e := range in[1:] {
		st, g := mergeStates(cur.st, e.st)
		env := map[ssa.Value]Value{}
		for k, v := range cur.env {
			if w, ok := e.env[k]; ok {
				if identical(v, w) {
					env[k] = v
				} else {
					env[k] = safeMerge(g, v, w)
				}
			}
		}
		cur = edgeState{st: st, env: env, pred: nil}
	}
	if cur.st.pc == False {
		return
	}
	f := &frame{fn: fr.fn, env: cur.env, bind: fr.bind}
	ex.execInstrs(f, b, b.Instrs[len(phis):], cur.st, pending, rets)
}

func copyEnv(m map[ssa.Value]Value) map[ssa.Value]Value {
	o := make(map[ssa.Value]Value, len(m)+4)
	for k, v := range m {
		o[k] = v
	}
	return o
}

type stopPath struct{}

func (ex *Exec) execInstrs(fr *frame, b *ssa.BasicBlock, instrs []ssa.Instruction, st *State, pending map[*ssa.BasicBlock][]edgeState, rets *[]retState) {
	var cur ssa.Instruction
	depth, nstack, ghost, mode := ex.depth, len(ex.stack), ex.ghost, ex.mode
	defer func() {
		if e := recover(); e != nil {
			switch u := e.(type) {
			case unsupported:
				ex.depth, ex.stack, ex.ghost, ex.mode = depth, ex.stack[:nstack], ghost, mode
				ex.oblige("unsupported", u.msg, fr.fn, cur.Pos(), st.pc, False)
			case stopPath:
				ex.depth, ex.stack, ex.ghost, ex.mode = depth, ex.stack[:nstack], ghost, mode
			case outOfTime:
				panic(e)
			default:
				if ex.eng.debug {
					panic(e)
				}
				ex.depth, ex.stack, ex.ghost, ex.mode = depth, ex.stack[:nstack], ghost, mode
				ex.oblige("unsupported", fmt.Sprintf("internal: %v", e), fr.fn, cur.Pos(), st.pc, False)
			}
		}
	}()
	for _, ins := range instrs {
		cur = ins
		ex.steps++
		if ex.steps > 20_000_000 {
			unsup("step limit")
		}
		switch t := ins.(type) {
		case *ssa.Jump:
			pending[b.Succs[0]] = append(pending[b.Succs[0]], edgeState{st, fr.env, b})
			return
		case *ssa.If:
			cv := ex.operand(fr, t.Cond)
			if _, ok := cv.(Poison); ok {
				return // pre mode: depends on results
			}
			c := cv.(*Term)
			p1, p2 := And(st.pc, c), And(st.pc, Not(c))
			if p1 != False && p2 != False {
				s1, s2 := st.fork(), st.fork()
				s1.pc, s2.pc = p1, p2
				pending[b.Succs[0]] = append(pending[b.Succs[0]], edgeState{s1, fr.env, b})
				pending[b.Succs[1]] = append(pending[b.Succs[1]], edgeState{s2, copyEnv(fr.env), b})
			} else if p1 != False {
				st.pc = p1
				pending[b.Succs[0]] = append(pending[b.Succs[0]], edgeState{st, fr.env, b})
			} else if p2 != False {
				st.pc = p2
				pending[b.Succs[1]] = append(pending[b.Succs[1]], edgeState{st, fr.env, b})
			}
			return
		case *ssa.Return:
			var v Value
			switch len(t.Results) {
			case 0:
			case 1:
				v = ex.operand(fr, t.Results[0])
			default:
				tv := make(TupleVal, len(t.Results))
				for i, r := range t.Results {
					tv[i] = ex.operand(fr, r)
				}
				v = tv
			}
			*rets = append(*rets, retState{st, v})
			return
		case *ssa.Panic:
			ex.oblige("safe", "panic unreachable", fr.fn, t.Pos(), st.pc, False)
			return
		default:
			if !ex.exec(fr, ins, st) {
				return
			}
		}
	}
}

// ---------- operands

func (ex *Exec) operandRaw(fr *frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.Global:
		return PtrTo(ex.eng.globalObj(x))
	case *ssa.Function:
		return &FuncVal{[]FuncAlt{{G: True, Fn: x}}}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x {
				return fr.bind[i]
			}
		}
	case *ssa.Builtin:
		return x
	}
	r, ok := fr.env[v]
	if !ok {
		unsup("register %s of %s undefined", v.Name(), fr.fn)
	}
	return r
}

func (ex *Exec) operand(fr *frame, v ssa.Value) Value {
	r := ex.operandRaw(fr, v)
	if b, ok := r.(*Bad); ok {
		unsup("use of unmergeable value: %s", b.msg)
	}
	return r
}

func (ex *Exec) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	if w, signed, ok := intInfo(t); ok {
		v := constant.ToInt(c.Value)
		if signed {
			if i, ok := constant.Int64Val(v); ok {
				return Const(w, uint64(i))
			}
		}
		if u, ok := constant.Uint64Val(v); ok {
			return Const(w, u)
		}
		i, _ := constant.Int64Val(v)
		return Const(w, uint64(i))
	}
	if s, ok := isFloat(t); ok {
		if s.K == KF32 {
			f, _ := constant.Float32Val(c.Value)
			return ConstF(s, float64(f))
		}
		f, _ := constant.Float64Val(c.Value)
		return ConstF(s, f)
	}
	if isBool(t) {
		return BoolT(constant.BoolVal(c.Value))
	}
	if isString(t) {
		return SConst(constant.StringVal(c.Value))
	}
	unsup("constant of type %v", t)
	return nil
}

func isPoison(vs ...Value) bool {
	for _, v := range vs {
		if _, ok := v.(Poison); ok {
			return true
		}
	}
	return false
}

// ---------- instructions

func (ex *Exec) exec(fr *frame, ins ssa.Instruction, st *State) bool {
	// poison propagation (pre mode only)
	if ex.mode == "pre" {
		var ops [8]*ssa.Value
		for _, op := range ins.Operands(ops[:0]) {
			if op == nil || *op == nil {
				continue
			}
			if _, isb := (*op).(*ssa.Builtin); isb {
				continue
			}
			if isPoison(ex.operandRaw(fr, *op)) {
				if c, ok := ins.(*ssa.Call); ok {
					if ex.isSpecCall(c) == "Ensures" {
						ex.stopped = true
						return false
					}
				}
				if v, ok := ins.(ssa.Value); ok {
					fr.env[v] = Poison{}
				}
				if _, ok := ins.(*ssa.Store); ok {
					p := ex.operandRaw(fr, ins.(*ssa.Store).Addr)
					if !isPoison(p) {
						ex.store(fr, st, p.(*PtrVal), Poison{}, ins.Pos())
					}
				}
				return true
			}
		}
	}
	switch t := ins.(type) {
	case *ssa.DebugRef, *ssa.RunDefers:
		return true
	case *ssa.Alloc:
		o := ex.newObj(t.Comment+"@"+ex.posOf(t.Pos()), t.Type().Underlying().(*types.Pointer).Elem())
		st.mem.m[o] = zeroVal(o.T)
		fr.env[t] = PtrTo(o)
	case *ssa.BinOp:
		fr.env[t] = ex.binop(fr, t, st)
	case *ssa.UnOp:
		fr.env[t] = ex.unop(fr, t, st)
	case *ssa.Call:
		ns, v := ex.call(fr, t, st)
		if ns == nil {
			return false
		}
		st.mem = ns.mem
		st.pc = ns.pc
		fr.env[t] = v
	case *ssa.ChangeType:
		fr.env[t] = ex.operand(fr, t.X)
	case *ssa.ChangeInterface:
		fr.env[t] = ex.operand(fr, t.X)
	case *ssa.Convert:
		fr.env[t] = ex.convert(t.X.Type(), t.Type(), ex.operand(fr, t.X), st)
	case *ssa.MakeInterface:
		fr.env[t] = &IfaceVal{[]IfaceAlt{{True, t.X.Type(), ex.operand(fr, t.X)}}}
	case *ssa.Extract:
		tv := ex.operand(fr, t.Tuple)
		fr.env[t] = tv.(TupleVal)[t.Index]
	case *ssa.Field:
		fr.env[t] = ex.operand(fr, t.X).(*StructVal).F[t.Field]
	case *ssa.FieldAddr:
		p := ex.operand(fr, t.X).(*PtrVal)
		ex.nilCheck(fr, p, t.Pos(), st)
		out := &PtrVal{}
		for _, a := range p.Alts {
			if a.Obj == nil {
				continue
			}
			out.Alts = append(out.Alts, PtrAlt{a.G, a.Obj, appendStep(a.Path, Step{Field: t.Field})})
		}
		if len(out.Alts) == 0 {
			return false
		}
		fr.env[t] = out
	case *ssa.IndexAddr:
		v := ex.indexAddr(fr, t, st)
		if v == nil {
			return false
		}
		fr.env[t] = v
	case *ssa.Index:
		x := ex.operand(fr, t.X)
		i := ex.idx64(ex.operand(fr, t.Index).(*Term), t.Index.Type())
		if s, ok := x.(*Str); ok {
			fr.env[t] = ex.strIndex(fr, s, i, t.Pos(), st)
			break
		}
		a := x.(*ArrayVal)
		ex.oblige("safe", "index in range", fr.fn, t.Pos(), st.pc, ULt(i, Int64(len(a.E))))
		fr.env[t] = selectE(a.E, i)
	case *ssa.Lookup:
		x := ex.operand(fr, t.X)
		if s, ok := x.(*Str); ok {
			i := ex.idx64(ex.operand(fr, t.Index).(*Term), t.Index.Type())
			fr.env[t] = ex.strIndex(fr, s, i, t.Pos(), st)
			break
		}
		mt := under(t.X.Type()).(*types.Map)
		v, ok := ex.mapLookup(x.(*MapVal), ex.operand(fr, t.Index), mt, st)
		if t.CommaOk {
			fr.env[t] = TupleVal{v, ok}
		} else {
			fr.env[t] = v
		}
	case *ssa.MakeMap:
		o := ex.newObj("map", t.Type())
		st.mem.m[o] = &MapContent{}
		fr.env[t] = &MapVal{[]MapAlt{{True, o}}}
	case *ssa.MapUpdate:
		m := ex.operand(fr, t.Map).(*MapVal)
		k, v := ex.operand(fr, t.Key), ex.operand(fr, t.Value)
		for _, a := range m.Alts {
			if a.Obj == nil {
				ex.oblige("safe", "assignment to nil map", fr.fn, t.Pos(), And(st.pc, a.G), False)
				continue
			}
			ex.frameCheck(fr, a.Obj, And(st.pc, a.G), t.Pos())
			c := st.mem.get(a.Obj).(*MapContent)
			n := *c
			n.Entries = append(append([]MapEntry(nil), c.Entries...), MapEntry{G: a.G, K: k, V: v})
			st.mem.m[a.Obj] = &n
		}
	case *ssa.MakeSlice:
		l := ex.idx64(ex.operand(fr, t.Len).(*Term), t.Len.Type())
		c := ex.idx64(ex.operand(fr, t.Cap).(*Term), t.Cap.Type())
		el := under(t.Type()).(*types.Slice).Elem()
		ex.oblige("safe", "makeslice: length in range", fr.fn, t.Pos(), st.pc, And(SLe(Int64(0), l), SLe(l, c), SLt(c, Const(64, 1<<40))))
		if n := maxU(c); n < 1<<10 || c.IsConst() && n < 1<<16 {
			o := ex.newObj("makeslice@"+ex.posOf(t.Pos()), types.NewArray(el, int64(n)))
			st.mem.m[o] = zeroVal(o.T)
			fr.env[t] = &SliceVal{[]SliceAlt{{G: True, Obj: o, Off: Int64(0), Len: l, Cap: c}}}
		} else {
			o := ex.newObj("makeslice@"+ex.posOf(t.Pos()), nil)
			st.mem.m[o] = &LazyArr{Name: fmt.Sprintf("mk%d", o.ID), Elem: el, Base: map[int]Value{}, Over: map[int]Value{}, Fresh: func(n string, t types.Type) Value { return zeroVal(t) }}
			fr.env[t] = &SliceVal{[]SliceAlt{{G: True, Obj: o, Off: Int64(0), Len: l, Cap: c}}}
		}
	case *ssa.MakeClosure:
		fv := &FuncVal{[]FuncAlt{{G: True, Fn: t.Fn.(*ssa.Function)}}}
		for _, b := range t.Bindings {
			fv.Alts[0].Bind = append(fv.Alts[0].Bind, ex.operand(fr, b))
		}
		fr.env[t] = fv
	case *ssa.Slice:
		fr.env[t] = ex.slice(fr, t, st)
	case *ssa.Store:
		ex.store(fr, st, ex.operand(fr, t.Addr).(*PtrVal), ex.operand(fr, t.Val), t.Pos())
	case *ssa.TypeAssert:
		v := ex.typeAssert(fr, t, st)
		if v == nil {
			return false
		}
		fr.env[t] = v
	case *ssa.Range:
		x := ex.operand(fr, t.X)
		switch y := x.(type) {
		case *Str:
			fr.env[t] = &IterVal{Str: y}
		case *MapVal:
			unsup("range over a map (iteration order is not deterministic)")
		default:
			unsup("range over %T", x)
		}
	case *ssa.Next:
		it := ex.operand(fr, t.Iter).(*IterVal)
		fr.env[t] = ex.next(fr, t, it)
		// iterators are advanced in place: rebind the register
		fr.env[t.Iter] = ex.nextIter(it)
	case *ssa.SliceToArrayPointer:
		s := ex.operand(fr, t.X).(*SliceVal)
		n := under(t.Type().Underlying().(*types.Pointer).Elem()).(*types.Array).Len()
		if len(s.Alts) == 1 && s.Alts[0].Obj != nil && s.Alts[0].Off.IsConst() && s.Alts[0].Off.Val == 0 && len(s.Alts[0].Path) == 0 {
			if a, ok := st.mem.get(s.Alts[0].Obj).(*ArrayVal); ok && int64(len(a.E)) == n {
				fr.env[t] = PtrTo(s.Alts[0].Obj)
				break
			}
		}
		unsup("slice to array pointer conversion")
	default:
		unsup("instruction %T (%s)", ins, ins)
	}
	return true
}

func appendStep(p []Step, s Step) []Step {
	out := make([]Step, len(p)+1)
	copy(out, p)
	out[len(p)] = s
	return out
}

func (ex *Exec) nilCheck(fr *frame, p *PtrVal, pos token.Pos, st *State) {
	for _, a := range p.Alts {
		if a.Obj == nil {
			ex.oblige("safe", "no nil dereference", fr.fn, pos, And(st.pc, a.G), False)
		}
	}
}

func (ex *Exec) idx64(i *Term, t types.Type) *Term {
	if i.W() == 64 {
		return i
	}
	if _, signed, _ := intInfo(t); signed {
		return SExt(i, 64)
	}
	return ZExt(i, 64)
}

// selectE returns element i of a list (i is in range by a separate obligation).
func selectE(es []Value, i *Term) Value {
	if i.IsConst() {
		if i.Val < uint64(len(es)) {
			return es[i.Val]
		}
		if len(es) > 0 {
			return es[0]
		}
		unsup("index into empty array")
	}
	if len(es) == 0 {
		unsup("index into empty array")
	}
	hi := maxU(i)
	n := len(es)
	if hi < uint64(n-1) {
		n = int(hi) + 1
	}
	// a balanced decision tree on the index bits keeps lookup tables small
	if _, ok := es[0].(*Term); ok && n > 8 {
		return selTree(es[:n], i)
	}
	r := es[n-1]
	for k := n - 2; k >= 0; k-- {
		r = mergeV(Eq(i, Int64(k)), es[k], r)
	}
	return r
}

func selTree(es []Value, i *Term) Value {
	nb := 0
	for 1<<uint(nb) < len(es) {
		nb++
	}
	var rec func(lo, b int) *Term
	rec = func(lo, b int) *Term {
		if lo >= len(es) {
			return es[len(es)-1].(*Term)
		}
		if b < 0 {
			return es[lo].(*Term)
		}
		z := rec(lo, b-1)
		o := rec(lo+1<<uint(b), b-1)
		return Ite(Eq(Extract(b, b, i), Const(1, 1)), o, z)
	}
	return rec(0, nb-1)
}

func (ex *Exec) strIndex(fr *frame, s *Str, i *Term, pos token.Pos, st *State) Value {
	f, ok := s.Flat()
	if !ok {
		if p := s.Prefix(); i.IsConst() && i.Val < uint64(len(p)) {
			return p[i.Val]
		}
		if c, x, y, ok := s.choice(); ok {
			return mergeV(c, ex.strIndex(fr, x, i, pos, &State{And(st.pc, c), st.mem}), ex.strIndex(fr, y, i, pos, &State{And(st.pc, Not(c)), st.mem}))
		}
		ex.oblige("safe", "string index in range", fr.fn, pos, st.pc, ULt(i, s.LenTerm()))
		return FreshVar("strbyte", BV(8))
	}
	ex.oblige("safe", "string index in range", fr.fn, pos, st.pc, ULt(i, Int64(len(f))))
	if len(f) == 0 {
		return Const(8, 0)
	}
	es := make([]Value, len(f))
	for k := range f {
		es[k] = f[k]
	}
	return selectE(es, i)
}

func (ex *Exec) indexAddr(fr *frame, t *ssa.IndexAddr, st *State) Value {
	x := ex.operand(fr, t.X)
	i := ex.idx64(ex.operand(fr, t.Index).(*Term), t.Index.Type())
	out := &PtrVal{}
	switch s := x.(type) {
	case *SliceVal:
		for _, a := range s.Alts {
			in := ULt(i, a.Len)
			if _, signed, _ := intInfo(t.Index.Type()); signed && false {
				in = And(SLe(Int64(0), i), in)
			}
			ex.oblige("safe", "index in range", fr.fn, t.Pos(), And(st.pc, a.G), in)
			if a.Obj == nil || in == False {
				continue
			}
			out.Alts = append(out.Alts, PtrAlt{a.G, a.Obj, appendStep(a.Path, Step{Field: -1, Idx: Add(a.Off, i)})})
		}
	case *PtrVal:
		ex.nilCheck(fr, s, t.Pos(), st)
		n := under(under(t.X.Type()).(*types.Pointer).Elem()).(*types.Array).Len()
		ex.oblige("safe", "index in range", fr.fn, t.Pos(), st.pc, ULt(i, Const(64, uint64(n))))
		for _, a := range s.Alts {
			if a.Obj != nil {
				out.Alts = append(out.Alts, PtrAlt{a.G, a.Obj, appendStep(a.Path, Step{Field: -1, Idx: i})})
			}
		}
	default:
		unsup("IndexAddr on %T", x)
	}
	if len(out.Alts) == 0 {
		return nil
	}
	return out
}

// ---------- memory access

func loadPath(v Value, path []Step) Value {
	for k, s := range path {
		if b, ok := v.(*Bad); ok {
			unsup("load through unmergeable value: %s", b.msg)
		}
		if isPoison(v) {
			return v
		}
		if s.Field >= 0 {
			v = v.(*StructVal).F[s.Field]
			continue
		}
		switch a := v.(type) {
		case *ArrayVal:
			if s.Idx.IsConst() {
				if s.Idx.Val >= uint64(len(a.E)) {
					unsup("load out of range")
				}
				v = a.E[s.Idx.Val]
				continue
			}
			es := make([]Value, len(a.E))
			for i := range a.E {
				es[i] = loadPath(a.E[i], path[k+1:])
			}
			return selectE(es, s.Idx)
		case *LazyArr:
			if !s.Idx.IsConst() {
				v = freshAny(a.Name+"_any", a.Elem)
				continue
			}
			if s.Idx.Val > 1<<20 {
				unsup("huge index")
			}
			v = a.Get(int(s.Idx.Val))
		default:
			unsup("index path into %T", v)
		}
	}
	return v
}

func storePath(v Value, path []Step, g *Term, nv Value) Value {
	if len(path) == 0 {
		if g == True {
			return nv
		}
		return safeMerge(g, nv, v)
	}
	s := path[0]
	if s.Field >= 0 {
		sv := v.(*StructVal)
		out := &StructVal{F: append([]Value(nil), sv.F...)}
		out.F[s.Field] = storePath(sv.F[s.Field], path[1:], g, nv)
		return out
	}
	switch a := v.(type) {
	case *ArrayVal:
		out := &ArrayVal{E: append([]Value(nil), a.E...)}
		if s.Idx.IsConst() {
			if s.Idx.Val < uint64(len(a.E)) {
				out.E[s.Idx.Val] = storePath(a.E[s.Idx.Val], path[1:], g, nv)
			}
			return out
		}
		for i := range out.E {
			out.E[i] = storePath(a.E[i], path[1:], And(g, Eq(s.Idx, Int64(i))), nv)
		}
		return out
	case *LazyArr:
		out := *a
		if !s.Idx.IsConst() {
			// everything is forgotten about the contents
			out.Name += "'"
			out.Base, out.Over = map[int]Value{}, map[int]Value{}
			out.Fresh = freshAny
			return &out
		}
		if s.Idx.Val > 1<<20 {
			unsup("store at a huge index")
		}
		out.Over = map[int]Value{}
		for k, x := range a.Over {
			out.Over[k] = x
		}
		out.Over[int(s.Idx.Val)] = storePath(a.Get(int(s.Idx.Val)), path[1:], g, nv)
		return &out
	}
	unsup("store path into %T", v)
	return nil
}

func (ex *Exec) loadObj(o *Object, st *State) Value {
	v := st.mem.get(o)
	if v == nil && o.Glob {
		v = ex.eng.globalInit(o)
	}
	if v == nil {
		unsup("uninitialised object %s", o.Name)
	}
	if b, ok := v.(*Bad); ok {
		unsup("object %s: %s", o.Name, b.msg)
	}
	return v
}

func (ex *Exec) load(fr *frame, p *PtrVal, st *State, pos token.Pos) Value {
	ex.nilCheck(fr, p, pos, st)
	var r Value
	for i := len(p.Alts) - 1; i >= 0; i-- {
		a := p.Alts[i]
		if a.Obj == nil {
			continue
		}
		v := loadPath(ex.loadObj(a.Obj, st), a.Path)
		if r == nil {
			r = v
		} else {
			r = mergeV(a.G, v, r)
		}
	}
	if r == nil {
		panic(stopPath{})
	}
	if b, ok := r.(*Bad); ok {
		unsup("load of unmergeable value: %s", b.msg)
	}
	return r
}

func (ex *Exec) frameCheck(fr *frame, o *Object, pc *Term, pos token.Pos) {
	if o.ReadOnly {
		unsup("write to an array of a conditionally extended slice")
	}
	if o.Pre || o.Glob {
		if ex.eng.initPhase {
			return
		}
		ex.oblige("frame", "does not modify "+o.Name, fr.fn, pos, pc, False)
	}
}

func (ex *Exec) store(fr *frame, st *State, p *PtrVal, v Value, pos token.Pos) {
	ex.nilCheck(fr, p, pos, st)
	single := 0
	for _, a := range p.Alts {
		if a.Obj != nil {
			single++
		}
	}
	for _, a := range p.Alts {
		if a.Obj == nil {
			continue
		}
		ex.frameCheck(fr, a.Obj, And(st.pc, a.G), pos)
		g := a.G
		if single == 1 {
			g = True
		}
		var old Value
		if g == True && len(a.Path) == 0 {
			old = v
		} else {
			old = ex.loadObj(a.Obj, st)
		}
		st.mem.m[a.Obj] = storePath(old, a.Path, g, v)
	}
}

// ---------- operators

func (ex *Exec) unop(fr *frame, t *ssa.UnOp, st *State) Value {
	x := ex.operand(fr, t.X)
	switch t.Op {
	case token.MUL:
		return ex.load(fr, x.(*PtrVal), st, t.Pos())
	case token.NOT:
		return Not(x.(*Term))
	case token.XOR:
		return BNot(x.(*Term))
	case token.SUB:
		a := x.(*Term)
		if a.S.K == KBV {
			return Neg(a)
		}
		return FUn(OpFNeg, a)
	}
	unsup("unary %s", t.Op)
	return nil
}

func (ex *Exec) binop(fr *frame, t *ssa.BinOp, st *State) Value {
	x, y := ex.operand(fr, t.X), ex.operand(fr, t.Y)
	switch t.Op {
	case token.EQL:
		return ex.eqV(x, y, st)
	case token.NEQ:
		return Not(ex.eqV(x, y, st))
	}
	if sx, ok := x.(*Str); ok {
		sy := y.(*Str)
		switch t.Op {
		case token.ADD:
			return SConcat(sx, sy)
		case token.LSS:
			return strLess(sx, sy)
		case token.GTR:
			return strLess(sy, sx)
		case token.LEQ:
			return Not(strLess(sy, sx))
		case token.GEQ:
			return Not(strLess(sx, sy))
		}
	}
	a, ok := x.(*Term)
	b, ok2 := y.(*Term)
	if !ok || !ok2 {
		unsup("%s on %T", t.Op, x)
	}
	if a.S.K == KF32 || a.S.K == KF64 {
		switch t.Op {
		case token.ADD:
			return FBin(OpFAdd, a, b)
		case token.SUB:
			return FBin(OpFSub, a, b)
		case token.MUL:
			return FBin(OpFMul, a, b)
		case token.QUO:
			return FBin(OpFDiv, a, b)
		case token.LSS:
			return FBin(OpFLt, a, b)
		case token.LEQ:
			return FBin(OpFLe, a, b)
		case token.GTR:
			return FBin(OpFLt, b, a)
		case token.GEQ:
			return FBin(OpFLe, b, a)
		}
		unsup("float %s", t.Op)
	}
	if a.S.K == KBool {
		switch t.Op {
		case token.AND:
			return And(a, b)
		case token.OR:
			return Or(a, b)
		case token.XOR:
			return Not(Eq(a, b))
		}
		unsup("bool %s", t.Op)
	}
	w, signed, _ := intInfo(t.X.Type())
	switch t.Op {
	case token.ADD:
		return Add(a, b)
	case token.SUB:
		return Sub(a, b)
	case token.MUL:
		return Mul(a, b)
	case token.QUO, token.REM:
		ex.oblige("safe", "no division by zero", fr.fn, t.Pos(), st.pc, Not(Eq(b, Const(w, 0))))
		if b.IsConst() && b.Val == 0 {
			panic(stopPath{})
		}
		switch {
		case signed && t.Op == token.QUO:
			return SDiv(a, b)
		case signed:
			return SRem(a, b)
		case t.Op == token.QUO:
			return UDiv(a, b)
		default:
			return URem(a, b)
		}
	case token.AND:
		return BAnd(a, b)
	case token.OR:
		return BOr(a, b)
	case token.XOR:
		return BXor(a, b)
	case token.AND_NOT:
		return BAnd(a, BNot(b))
	case token.SHL, token.SHR:
		_, ns, _ := intInfo(t.Y.Type())
		if ns {
			ex.oblige("safe", "shift count not negative", fr.fn, t.Pos(), st.pc, SLe(Const(b.W(), 0), b))
		}
		op := OpShl
		if t.Op == token.SHR {
			op = OpLShr
			if signed {
				op = OpAShr
			}
		}
		return Shift(op, a, b)
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		lt := ULt
		if signed {
			lt = SLt
		}
		switch t.Op {
		case token.LSS:
			return lt(a, b)
		case token.GTR:
			return lt(b, a)
		case token.LEQ:
			return Not(lt(b, a))
		default:
			return Not(lt(a, b))
		}
	}
	unsup("binary %s", t.Op)
	return nil
}

func strLess(a, b *Str) *Term {
	ca, ok1 := a.Const()
	cb, ok2 := b.Const()
	if ok1 && ok2 {
		return BoolT(ca < cb)
	}
	if a == b {
		return False
	}
	return Var(fmt.Sprintf("strlt!%d!%d", a.id, b.id), SBool)
}

func (ex *Exec) eqV(x, y Value, st *State) *Term {
	switch a := x.(type) {
	case *Term:
		b := y.(*Term)
		if a.S.K == KF32 || a.S.K == KF64 {
			return FBin(OpFEq, a, b)
		}
		return Eq(a, b)
	case *Str:
		return StrEq(a, y.(*Str))
	case *PtrVal:
		b := y.(*PtrVal)
		r := False
		for _, p := range a.Alts {
			for _, q := range b.Alts {
				if p.Obj != q.Obj || len(p.Path) != len(q.Path) {
					continue
				}
				c := And(p.G, q.G)
				for i := range p.Path {
					if p.Path[i].Field != q.Path[i].Field {
						c = False
						break
					}
					if p.Path[i].Field < 0 {
						c = And(c, Eq(p.Path[i].Idx, q.Path[i].Idx))
					}
				}
				r = Or(r, c)
			}
		}
		return r
	case *SliceVal:
		b := y.(*SliceVal)
		if isNilSlice(b) {
			return nilSliceG(a)
		}
		if isNilSlice(a) {
			return nilSliceG(b)
		}
	case *MapVal:
		b := y.(*MapVal)
		if len(b.Alts) == 1 && b.Alts[0].Obj == nil {
			return ex.nilMapG(a, st)
		}
		return ex.nilMapG(b, st)
	case *FuncVal:
		b := y.(*FuncVal)
		if len(b.Alts) == 1 && b.Alts[0].Fn == nil {
			a, b = b, a
		}
		r := False
		for _, p := range b.Alts {
			if p.Fn == nil {
				r = Or(r, p.G)
			}
		}
		return r
	case *StructVal:
		b := y.(*StructVal)
		var cs []*Term
		for i := range a.F {
			cs = append(cs, ex.eqV(a.F[i], b.F[i], st))
		}
		return And(cs...)
	case *ArrayVal:
		b := y.(*ArrayVal)
		var cs []*Term
		for i := range a.E {
			cs = append(cs, ex.eqV(a.E[i], b.E[i], st))
		}
		return And(cs...)
	case *IfaceVal:
		b, ok := y.(*IfaceVal)
		if !ok {
			unsup("comparison of interface with %T", y)
		}
		r := False
		for _, p := range a.Alts {
			for _, q := range b.Alts {
				c := And(p.G, q.G)
				if c == False {
					continue
				}
				if p.T == nil && q.T == nil {
					r = Or(r, c)
					continue
				}
				if p.T == nil || q.T == nil || !types.Identical(p.T, q.T) {
					continue
				}
				r = Or(r, And(c, ex.eqV(p.V, q.V, st)))
			}
		}
		return r
	}
	unsup("equality on %T", x)
	return nil
}

func isNilSlice(s *SliceVal) bool { return len(s.Alts) == 1 && s.Alts[0].Obj == nil }
func nilSliceG(s *SliceVal) *Term {
	r := False
	for _, a := range s.Alts {
		if a.Obj == nil {
			r = Or(r, a.G)
		}
	}
	return r
}
func (ex *Exec) nilMapG(m *MapVal, st *State) *Term {
	r := False
	for _, a := range m.Alts {
		if a.Obj == nil {
			r = Or(r, a.G)
		} else if c, ok := st.mem.get(a.Obj).(*MapContent); ok && c.NilG != nil {
			r = Or(r, And(a.G, c.NilG))
		}
	}
	return r
}

func (ex *Exec) convert(from, to types.Type, v Value, st *State) Value {
	fw, fs, fi := intInfo(from)
	tw, ts, ti := intInfo(to)
	_ = ts
	ff, fisf := isFloat(from)
	tf, tisf := isFloat(to)
	_ = ff
	switch {
	case fi && ti:
		a := v.(*Term)
		if tw <= fw {
			return Extract(tw-1, 0, a)
		}
		if fs {
			return SExt(a, tw)
		}
		return ZExt(a, tw)
	case fi && tisf:
		if fs {
			return Conv(OpFFromS, tf, v.(*Term))
		}
		return Conv(OpFFromU, tf, v.(*Term))
	case fisf && ti:
		if ts || tw < 64 {
			// Go on amd64 converts through a signed 64-bit integer
			w64 := Conv(OpFToS, BV(64), v.(*Term))
			return Extract(tw-1, 0, w64)
		}
		return Conv(OpFToU, BV(tw), v.(*Term))
	case fisf && tisf:
		return Conv(OpFConv, tf, v.(*Term))
	case isString(to):
		if fi {
			a := v.(*Term)
			if c, ok := a.ConstVal(); ok {
				return SConst(string(rune(sx(c, fw))))
			}
			if maxU(a) < 0x80 {
				return SByte(Extract(7, 0, a))
			}
			return SOpaque("runestr")
		}
		if s, ok := under(from).(*types.Slice); ok {
			return ex.bytesToString(v.(*SliceVal), s, st)
		}
		if isString(from) {
			return v
		}
	case isString(from):
		if s, ok := under(to).(*types.Slice); ok {
			f, ok := v.(*Str).Flat()
			if !ok {
				o := ex.newObj("bytes of string", nil)
				w, _, _ := intInfo(s.Elem())
				l := v.(*Str).LenTerm()
				if w != 8 {
					unsup("string to []rune of unknown string")
				}
				st.mem.m[o] = &LazyArr{Name: fmt.Sprintf("strb%d", o.ID), Elem: s.Elem(), Base: map[int]Value{}, Over: map[int]Value{}, Fresh: func(n string, t types.Type) Value { return FreshVar(n, BV(8)) }}
				return &SliceVal{[]SliceAlt{{G: True, Obj: o, Off: Int64(0), Len: l, Cap: l}}}
			}
			w, _, _ := intInfo(s.Elem())
			av := &ArrayVal{}
			if w == 32 {
				for _, b := range f {
					if maxU(b) >= 0x80 {
						unsup("[]rune of non-ASCII string")
					}
					av.E = append(av.E, ZExt(b, 32))
				}
			} else {
				for _, b := range f {
					av.E = append(av.E, b)
				}
			}
			o := ex.newObj("bytes of string", types.NewArray(s.Elem(), int64(len(f))))
			st.mem.m[o] = av
			return &SliceVal{[]SliceAlt{{G: True, Obj: o, Off: Int64(0), Len: Int64(len(f)), Cap: Int64(len(f))}}}
		}
	}
	if types.Identical(under(from), under(to)) {
		return v
	}
	unsup("conversion %v to %v", from, to)
	return nil
}

func (ex *Exec) bytesToString(s *SliceVal, st2 *types.Slice, st *State) *Str {
	w, _, _ := intInfo(st2.Elem())
	var r *Str
	for i := len(s.Alts) - 1; i >= 0; i-- {
		a := s.Alts[i]
		var x *Str
		if a.Obj == nil {
			x = SConst("")
		} else {
			es, ok := ex.sliceElems(a, st)
			if !ok {
				x = SOpaque("bytestr")
			} else {
				var parts []*Str
				for _, e := range es {
					t := e.(*Term)
					if w == 32 {
						if maxU(t) >= 0x80 && !t.IsConst() {
							parts = append(parts, SOpaque("runestr"))
							continue
						}
						if t.IsConst() {
							parts = append(parts, SConst(string(rune(sx(t.Val, 32)))))
							continue
						}
						t = Extract(7, 0, t)
					}
					parts = append(parts, SByte(t))
				}
				x = SConcat(parts...)
			}
		}
		if r == nil {
			r = x
		} else {
			r = SIte(a.G, x, r)
		}
	}
	return r
}

// sliceElems returns the elements of a slice of constant length.
func (ex *Exec) sliceElems(a SliceAlt, st *State) ([]Value, bool) {
	if a.Obj == nil {
		return nil, true
	}
	if !a.Len.IsConst() || !a.Off.IsConst() || a.Len.Val > 1<<16 {
		return nil, false
	}
	base := loadPath(ex.loadObj(a.Obj, st), a.Path)
	var out []Value
	for i := uint64(0); i < a.Len.Val; i++ {
		switch b := base.(type) {
		case *ArrayVal:
			out = append(out, b.E[a.Off.Val+i])
		case *LazyArr:
			out = append(out, b.Get(int(a.Off.Val+i)))
		default:
			return nil, false
		}
	}
	return out, true
}

func (ex *Exec) slice(fr *frame, t *ssa.Slice, st *State) Value {
	x := ex.operand(fr, t.X)
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return ex.idx64(ex.operand(fr, v).(*Term), v.Type())
	}
	lo, hi, mx := get(t.Low), get(t.High), get(t.Max)
	if lo == nil {
		lo = Int64(0)
	}
	if s, ok := x.(*Str); ok {
		return ex.strSlice(fr, s, lo, hi, t.Pos(), st)
	}
	out := &SliceVal{}
	mkAlt := func(g *Term, obj *Object, path []Step, off, ln, cp *Term) {
		h := hi
		if h == nil {
			h = ln
		}
		m := mx
		if m == nil {
			m = cp
		}
		ok := And(ULe(lo, h), ULe(h, m), ULe(m, cp))
		ex.oblige("safe", "slice bounds in range", fr.fn, t.Pos(), And(st.pc, g), ok)
		if ok == False {
			return
		}
		// bounds with few possible values become alternatives
		ls, hs := fewValues(lo, cp), fewValues(h, cp)
		if len(ls)*len(hs) <= 1 || len(ls)*len(hs) > 24 {
			out.Alts = append(out.Alts, SliceAlt{G: g, Obj: obj, Path: path, Off: Add(off, lo), Len: Sub(h, lo), Cap: Sub(m, lo)})
			return
		}
		for _, l := range ls {
			for _, r := range hs {
				g2 := And(g, Eq(lo, l), Eq(h, r))
				if g2 == False || l.IsConst() && r.IsConst() && l.Val > r.Val {
					continue
				}
				m2 := m
				if mx == nil && h == m {
					m2 = r
				}
				out.Alts = append(out.Alts, SliceAlt{G: g2, Obj: obj, Path: path, Off: Add(off, l), Len: Sub(r, l), Cap: Sub(m2, l)})
			}
		}
	}
	switch s := x.(type) {
	case *SliceVal:
		for _, a := range s.Alts {
			mkAlt(a.G, a.Obj, a.Path, a.Off, a.Len, a.Cap)
		}
	case *PtrVal:
		ex.nilCheck(fr, s, t.Pos(), st)
		n := Const(64, uint64(under(under(t.X.Type()).(*types.Pointer).Elem()).(*types.Array).Len()))
		for _, a := range s.Alts {
			if a.Obj != nil {
				mkAlt(a.G, a.Obj, a.Path, Int64(0), n, n)
			}
		}
	default:
		unsup("slice of %T", x)
	}
	if len(out.Alts) == 0 {
		panic(stopPath{})
	}
	return out
}

// fewValues lists the values a term can take up to a limit, or the term alone.
func fewValues(t, limit *Term) []*Term {
	if t.IsConst() || !limit.IsConst() {
		return []*Term{t}
	}
	a, b := minU(t), min(maxU(t), limit.Val)
	if b < a || b-a > 16 {
		return []*Term{t}
	}
	var out []*Term
	for v := a; v <= b; v++ {
		if Eq(t, Const(t.W(), v)) != False {
			out = append(out, Const(t.W(), v))
		}
	}
	return out
}

func (ex *Exec) strSlice(fr *frame, s *Str, lo, hi *Term, pos token.Pos, st *State) Value {
	if hi == nil {
		hi = s.LenTerm()
	}
	ex.oblige("safe", "string slice bounds in range", fr.fn, pos, st.pc, And(ULe(lo, hi), ULe(hi, s.LenTerm())))
	f, ok := s.Flat()
	if !ok {
		f = s.Prefix()
	}
	if lo.IsConst() && !ok {
		// a suffix: drop whole known bytes
		if pf := s.Prefix(); lo.Val <= uint64(len(pf)) && hi == s.LenTerm() {
			if r, ok := dropBytes(s, int(lo.Val)); ok {
				return r
			}
		}
	}
	if !lo.IsConst() || !hi.IsConst() || hi.Val > uint64(len(f)) || lo.Val > hi.Val {
		if c, x, y, ok := s.choice(); ok {
			h1, h2 := hi, hi
			if hi == s.LenTerm() {
				h1, h2 = x.LenTerm(), y.LenTerm()
			}
			return SIte(c, ex.strSlice(fr, x, lo, h1, pos, &State{And(st.pc, c), st.mem}).(*Str), ex.strSlice(fr, y, lo, h2, pos, &State{And(st.pc, Not(c)), st.mem}).(*Str))
		}
		return SOpaque("substr")
	}
	var ps []*Str
	for _, b := range f[lo.Val:hi.Val] {
		ps = append(ps, SByte(b))
	}
	return SConcat(ps...)
}

// dropBytes removes the first n bytes of a concatenation whose leading parts
// have a fixed length.
func dropBytes(s *Str, n int) (*Str, bool) {
	if n == 0 {
		return s, true
	}
	if s.K != SKConcat {
		return nil, false
	}
	for i, p := range s.Parts {
		f, ok := p.Flat()
		if !ok {
			return nil, false
		}
		if len(f) <= n {
			n -= len(f)
			if n == 0 {
				return SConcat(s.Parts[i+1:]...), true
			}
			continue
		}
		var ps []*Str
		for _, b := range f[n:] {
			ps = append(ps, SByte(b))
		}
		return SConcat(append(ps, s.Parts[i+1:]...)...), true
	}
	return nil, false
}

func (ex *Exec) mapLookup(m *MapVal, key Value, mt *types.Map, st *State) (Value, *Term) {
	var rv Value = zeroVal(mt.Elem())
	rok := False
	for _, a := range m.Alts {
		if a.Obj == nil {
			continue
		}
		c, okc := ex.loadObj(a.Obj, st).(*MapContent)
		if !okc {
			unsup("map content")
		}
		var v Value = zeroVal(mt.Elem())
		ok := False
		if c.Opaque != "" {
			kt, isT := key.(*Term)
			if !isT {
				if ia, isA := key.(*ArrayVal); isA {
					var ts []*Term
					w := 0
					for _, e := range ia.E {
						et, o := e.(*Term)
						if !o {
							unsup("opaque map key")
						}
						ts = append(ts, et)
						w += et.W()
					}
					if w > 64 {
						unsup("opaque map key")
					}
					kt = Concat(ts...)
				} else {
					unsup("lookup in opaque map with key %T", key)
				}
			}
			switch {
			case isBool(mt.Elem()):
				ok = App(c.Opaque+"!has", SBool, kt)
				v = And(ok, App(c.Opaque+"!val", SBool, kt))
			default:
				if w, _, isI := intInfo(mt.Elem()); isI {
					ok = App(c.Opaque+"!has", SBool, kt)
					v = Ite(ok, App(c.Opaque+"!val", BV(w), kt), Const(w, 0))
				} else {
					unsup("opaque map of %v", mt.Elem())
				}
			}
			if c.NilG != nil {
				v = mergeV(c.NilG, zeroVal(mt.Elem()), v)
				ok = And(Not(c.NilG), ok)
			}
		}
		for _, e := range c.Entries {
			hit := And(e.G, ex.eqV(e.K, key, st))
			if hit == False {
				continue
			}
			if e.Del {
				v = mergeV(hit, zeroVal(mt.Elem()), v)
				ok = And(ok, Not(hit))
				continue
			}
			v = mergeV(hit, e.V, v)
			ok = Or(ok, hit)
		}
		rv = mergeV(a.G, v, rv)
		rok = Ite(a.G, ok, rok)
	}
	return rv, rok
}

func (ex *Exec) mapLen(m *MapVal, st *State) *Term {
	r := Int64(0)
	for _, a := range m.Alts {
		if a.Obj == nil {
			continue
		}
		c := ex.loadObj(a.Obj, st).(*MapContent)
		if c.Opaque != "" {
			if len(c.Entries) > 0 {
				unsup("len of modified opaque map")
			}
			r = Ite(a.G, c.LenT, r)
			continue
		}
		// concrete keys only
		n := Int64(0)
		type kv struct {
			k Value
			g *Term
		}
		var live []kv
		for _, e := range c.Entries {
			found := false
			for i := range live {
				q := ex.eqV(live[i].k, e.K, st)
				if q == True {
					if e.Del {
						live[i].g = And(live[i].g, Not(e.G))
					} else {
						live[i].g = Or(live[i].g, e.G)
					}
					found = true
				} else if q != False {
					unsup("len of a map with symbolic keys")
				}
			}
			if !found && !e.Del {
				live = append(live, kv{e.K, e.G})
			}
		}
		for _, l := range live {
			n = Add(n, Ite(l.g, Int64(1), Int64(0)))
		}
		r = Ite(a.G, n, r)
	}
	return r
}

func (ex *Exec) implements(t types.Type, it types.Type) bool {
	i, ok := under(it).(*types.Interface)
	return ok && types.Implements(t, i)
}

func (ex *Exec) typeAssert(fr *frame, t *ssa.TypeAssert, st *State) Value {
	x := ex.operand(fr, t.X).(*IfaceVal)
	_, toIface := under(t.AssertedType).(*types.Interface)
	var v Value
	ok := False
	for _, a := range x.Alts {
		match := false
		if a.T != nil {
			if toIface {
				match = ex.implements(a.T, t.AssertedType)
			} else {
				match = types.Identical(a.T, t.AssertedType)
			}
		}
		if !match {
			continue
		}
		ok = Or(ok, a.G)
		var nv Value = a.V
		if toIface {
			nv = &IfaceVal{[]IfaceAlt{{True, a.T, a.V}}}
		}
		if v == nil {
			v = nv
		} else {
			v = mergeV(a.G, nv, v)
		}
	}
	if t.CommaOk {
		z := zeroVal(t.AssertedType)
		if v == nil {
			v = z
		} else {
			v = mergeV(ok, v, z)
		}
		return TupleVal{v, ok}
	}
	ex.oblige("safe", "type assertion", fr.fn, t.Pos(), st.pc, ok)
	return v
}

func (ex *Exec) next(fr *frame, t *ssa.Next, it *IterVal) Value {
	if it.Str == nil {
		unsup("iterator")
	}
	f, ok := it.Str.Flat()
	if !ok {
		unsup("range over a string of unknown shape")
	}
	if it.Pos >= len(f) {
		return TupleVal{False, Int64(0), Const(32, 0)}
	}
	b := f[it.Pos]
	if c, isc := b.ConstVal(); isc && c >= 0x80 {
		if s, isS := it.Str.Const(); isS {
			for _, r := range s[it.Pos:] {
				return TupleVal{True, Int64(it.Pos), Const(32, uint64(uint32(r)))}
			}
		}
		unsup("range over non-ASCII symbolic string")
	}
	if maxU(b) >= 0x80 {
		unsup("range over possibly non-ASCII string")
	}
	return TupleVal{True, Int64(it.Pos), ZExt(b, 32)}
}

func (ex *Exec) nextIter(it *IterVal) *IterVal {
	n := *it
	step := 1
	if s, ok := it.Str.Const(); ok && it.Pos < len(s) {
		for i := range s[it.Pos:] {
			if i > 0 {
				step = i
				break
			}
		}
		if step == 1 && s[it.Pos] >= 0x80 {
			step = len(s) - it.Pos
			for i := range s[it.Pos:] {
				if i > 0 {
					step = i
					break
				}
			}
		}
	}
	n.Pos += step
	return &n
}

// ---------- calls

func (ex *Exec) isSpecCall(c *ssa.Call) string {
	f, ok := c.Call.Value.(*ssa.Function)
	if !ok || f.Pkg == nil && f.Origin() == nil {
		return ""
	}
	p := f.Pkg
	if p == nil {
		p = f.Origin().Pkg
	}
	if p == nil || p.Pkg.Path() != vcPath {
		return ""
	}
	n := f.Name()
	if i := strings.IndexByte(n, '['); i > 0 {
		n = n[:i]
	}
	return n
}

func (ex *Exec) call(fr *frame, c *ssa.Call, st *State) (*State, Value) {
	cc := c.Common()
	if cc.IsInvoke() {
		x := ex.operand(fr, cc.Value).(*IfaceVal)
		var args []Value
		for _, a := range cc.Args {
			args = append(args, ex.operand(fr, a))
		}
		type one struct {
			st *State
			v  Value
		}
		var outs []one
		multi := len(x.Alts) > 1
		for _, a := range x.Alts {
			pc := And(st.pc, a.G)
			if pc == False {
				continue
			}
			if a.T == nil {
				ex.oblige("safe", "no method call on nil interface", fr.fn, c.Pos(), pc, False)
				continue
			}
			fn := ex.eng.lookupMethod(a.T, cc.Method.Pkg(), cc.Method.Name())
			if fn == nil {
				unsup("method %s not found on %v", cc.Method.Name(), a.T)
			}
			s2 := st
			if multi {
				s2 = st.fork()
				s2.pc = pc
			}
			ns, v := ex.callFn(fr, fn, append([]Value{a.V}, args...), nil, s2, c.Pos())
			if ns != nil {
				outs = append(outs, one{ns, v})
			}
		}
		if len(outs) == 0 {
			return nil, nil
		}
		s, v := outs[0].st, outs[0].v
		for _, o := range outs[1:] {
			var g *Term
			s, g = mergeStates(s, o.st)
			v = safeMerge(g, v, o.v)
		}
		if len(outs) > 1 {
			s.pc = st.pc
		}
		return s, v
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return st, ex.builtin(fr, b, c, st)
	}
	if f, ok := cc.Value.(*ssa.Function); ok {
		var args []Value
		for _, a := range cc.Args {
			args = append(args, ex.operand(fr, a))
		}
		if sc := ex.isSpecCall(c); sc != "" {
			if v, done := ex.specCall(fr, sc, args, c, st); done {
				if ex.stopped && ex.mode == "pre" {
					ex.stopped = false
					return nil, nil
				}
				return st, v
			}
		}
		return ex.callFn(fr, f, args, nil, st, c.Pos())
	}
	fv := ex.operand(fr, cc.Value).(*FuncVal)
	var args []Value
	for _, a := range cc.Args {
		args = append(args, ex.operand(fr, a))
	}
	var rs *State
	var rv Value
	for _, a := range fv.Alts {
		pc := And(st.pc, a.G)
		if pc == False {
			continue
		}
		if a.Fn == nil {
			ex.oblige("safe", "no call of nil function", fr.fn, c.Pos(), pc, False)
			continue
		}
		s2 := st
		if len(fv.Alts) > 1 {
			s2 = st.fork()
			s2.pc = pc
		}
		ns, v := ex.callFn(fr, a.Fn, args, a.Bind, s2, c.Pos())
		if ns == nil {
			continue
		}
		if rs == nil {
			rs, rv = ns, v
		} else {
			var g *Term
			rs, g = mergeStates(rs, ns)
			rv = safeMerge(g, rv, v)
		}
	}
	if rs != nil && len(fv.Alts) > 1 {
		rs.pc = st.pc
	}
	return rs, rv
}

func (ex *Exec) callFn(fr *frame, fn *ssa.Function, args, bind []Value, st *State, pos token.Pos) (*State, Value) {
	if v, ns, ok := ex.model(fr, fn, args, st, pos); ok {
		return ns, v
	}
	if ex.pol != nil && ex.pol.useContract != nil && ex.mode != "pre" {
		if c := ex.pol.useContract(fn); c != nil {
			if ns, v, ok := ex.callByContract(fr, c, args, st, pos); ok {
				return ns, v
			}
		}
	}
	if len(fn.Blocks) == 0 {
		unsup("call of %s, which has no body and no model", fn)
	}
	if !ex.eng.mayInline(fn) {
		unsup("call of %s, which is outside the supported library subset", fn)
	}
	if ex.eng.isRepo(fn) {
		g := ex.ghost
		ex.ghost = 0
		defer func() { ex.ghost = g }()
	}
	if ex.inlined != nil && ex.ghost == 0 {
		ex.inlined[ex.eng.fnName(fn)] = true
	}
	return ex.runBody(fn, args, bind, st)
}

func (ex *Exec) builtin(fr *frame, b *ssa.Builtin, c *ssa.Call, st *State) Value {
	cc := c.Common()
	var args []Value
	for _, a := range cc.Args {
		args = append(args, ex.operand(fr, a))
	}
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case *Str:
			return x.LenTerm()
		case *SliceVal:
			var r *Term
			for i := len(x.Alts) - 1; i >= 0; i-- {
				l := x.Alts[i].Len
				if b.Name() == "cap" {
					l = x.Alts[i].Cap
				}
				if r == nil {
					r = l
				} else {
					r = Ite(x.Alts[i].G, l, r)
				}
			}
			return r
		case *MapVal:
			return ex.mapLen(x, st)
		case *ArrayVal:
			return Int64(len(x.E))
		case *PtrVal:
			n := under(under(cc.Args[0].Type()).(*types.Pointer).Elem()).(*types.Array).Len()
			return Const(64, uint64(n))
		}
	case "append":
		return ex.appendB(fr, args, cc, st, c.Pos())
	case "copy":
		return ex.copyB(fr, args, st, c.Pos())
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			x := a.(*Term)
			if r.S.K != KBV {
				unsup("builtin %s on floats", b.Name())
			}
			_, signed, _ := intInfo(cc.Args[0].Type())
			lt := ULt
			if signed {
				lt = SLt
			}
			if b.Name() == "min" {
				r = Ite(lt(x, r), x, r)
			} else {
				r = Ite(lt(r, x), x, r)
			}
		}
		return r
	case "delete":
		m := args[0].(*MapVal)
		for _, a := range m.Alts {
			if a.Obj == nil {
				continue
			}
			ex.frameCheck(fr, a.Obj, And(st.pc, a.G), c.Pos())
			mc := ex.loadObj(a.Obj, st).(*MapContent)
			n := *mc
			n.Entries = append(append([]MapEntry(nil), mc.Entries...), MapEntry{G: a.G, K: args[1], Del: true})
			st.mem.m[a.Obj] = &n
		}
		return nil
	case "ssa:wrapnilchk":
		p := args[0].(*PtrVal)
		ex.nilCheck(fr, p, c.Pos(), st)
		return p
	case "print", "println":
		return nil
	}
	unsup("builtin %s", b.Name())
	return nil
}

func (ex *Exec) appendB(fr *frame, args []Value, cc *ssa.CallCommon, st *State, pos token.Pos) Value {
	s := args[0].(*SliceVal)
	el := under(cc.Args[0].Type()).(*types.Slice).Elem()
	type ext struct {
		g  *Term
		es []Value
	}
	var exts []ext
	switch x := args[1].(type) {
	case *SliceVal:
		for _, a := range x.Alts {
			es, ok := ex.sliceElems(a, st)
			if !ok {
				unsup("append of a slice of unknown length")
			}
			exts = append(exts, ext{a.G, es})
		}
	case *Str:
		f, ok := x.Flat()
		if !ok {
			unsup("append of a string of unknown shape")
		}
		var es []Value
		for _, b := range f {
			es = append(es, b)
		}
		exts = append(exts, ext{True, es})
	}
	out := &SliceVal{}
	for _, a := range s.Alts {
		for _, e := range exts {
			g := And(a.G, e.g)
			if g == False || And(st.pc, g) == False {
				continue
			}
			if len(e.es) == 0 {
				na := a
				na.G = g
				out.Alts = append(out.Alts, na)
				continue
			}
			old, ok := ex.sliceElems(a, st)
			if !ok {
				unsup("append to a slice of unknown length")
			}
			n := len(old) + len(e.es)
			fits := False
			if a.Obj != nil {
				fits = ULe(Int64(n), a.Cap)
				if fits != False && uint64(n) > maxU(a.Cap) {
					fits = False
				}
			}
			if gi := And(g, fits); gi != False && And(st.pc, gi) != False {
				// in place
				ex.frameCheck(fr, a.Obj, And(st.pc, gi), pos)
				base := ex.loadObj(a.Obj, st)
				for i, v := range e.es {
					base = storePath(base, appendStep(a.Path, Step{Field: -1, Idx: Const(64, a.Off.Val+uint64(len(old)+i))}), gi, v)
				}
				st.mem.m[a.Obj] = base
				na := a
				na.G = gi
				na.Len = Int64(n)
				out.Alts = append(out.Alts, na)
			}
			g = And(g, Not(fits))
			if g == False || And(st.pc, g) == False {
				continue
			}
			o := ex.newObj("append@"+ex.posOf(pos), types.NewArray(el, int64(n)))
			st.mem.m[o] = &ArrayVal{E: append(append([]Value(nil), old...), e.es...)}
			out.Alts = append(out.Alts, SliceAlt{G: g, Obj: o, Off: Int64(0), Len: Int64(n), Cap: Int64(n)})
		}
	}
	if len(out.Alts) == 0 {
		panic(stopPath{})
	}
	if len(out.Alts) == 1 {
		out.Alts[0].G = True
	}
	return ex.compactSlices(out, st)
}

// compactSlices joins alternatives with fresh, unaliased backing arrays of the
// same length, which keeps conditional appends from doubling the alternatives.
func (ex *Exec) compactSlices(s *SliceVal, st *State) *SliceVal {
	if len(s.Alts) < 8 {
		return s
	}
	byLen := map[uint64][]SliceAlt{}
	var rest []SliceAlt
	for _, a := range s.Alts {
		if a.Obj != nil && !a.Obj.Pre && !a.Obj.Glob && len(a.Path) == 0 && a.Off.IsConst() && a.Off.Val == 0 && a.Len.IsConst() && a.Len == a.Cap && strings.HasPrefix(a.Obj.Name, "append@") {
			byLen[a.Len.Val] = append(byLen[a.Len.Val], a)
		} else {
			rest = append(rest, a)
		}
	}
	out := &SliceVal{Alts: rest}
	var lens []int
	for l := range byLen {
		lens = append(lens, int(l))
	}
	sort.Ints(lens)
	for _, l := range lens {
		as := byLen[uint64(l)]
		cur := as[0]
		v := ex.loadObj(cur.Obj, st)
		g := cur.G
		for _, b := range as[1:] {
			v = mergeV(b.G, ex.loadObj(b.Obj, st), v)
			g = Or(g, b.G)
		}
		if len(as) > 1 {
			o := ex.newObj(cur.Obj.Name, cur.Obj.T)
			st.mem.m[o] = v
			o.ReadOnly = true
			cur.Obj = o
			cur.G = g
		}
		out.Alts = append(out.Alts, cur)
	}
	return out
}

func (ex *Exec) copyB(fr *frame, args []Value, st *State, pos token.Pos) Value {
	d := args[0].(*SliceVal)
	if len(d.Alts) != 1 {
		unsup("copy to several destinations")
	}
	da := d.Alts[0]
	var src []Value
	switch x := args[1].(type) {
	case *SliceVal:
		if len(x.Alts) != 1 {
			unsup("copy from several sources")
		}
		es, ok := ex.sliceElems(x.Alts[0], st)
		if !ok {
			unsup("copy of unknown length")
		}
		src = es
	case *Str:
		f, ok := x.Flat()
		if !ok {
			unsup("copy from unknown string")
		}
		for _, b := range f {
			src = append(src, b)
		}
	}
	if da.Obj == nil {
		return Int64(0)
	}
	if !da.Len.IsConst() || !da.Off.IsConst() {
		unsup("copy of unknown length")
	}
	n := len(src)
	if int(da.Len.Val) < n {
		n = int(da.Len.Val)
	}
	if n > 0 {
		ex.frameCheck(fr, da.Obj, st.pc, pos)
		base := ex.loadObj(da.Obj, st)
		for i := 0; i < n; i++ {
			base = storePath(base, appendStep(da.Path, Step{Field: -1, Idx: Const(64, da.Off.Val+uint64(i))}), True, src[i])
		}
		st.mem.m[da.Obj] = base
	}
	return Int64(n)
}

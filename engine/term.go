package main

// Hash-consed terms: booleans, bit-vectors (1..64 bits), and floats.
// Bit-vector terms are kept in a normal form where zero-extension, constant
// shifts and constant masks become concatenations of constants and extracts.

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
)

type Kind uint8

const (
	KBool Kind = iota
	KBV
	KF32
	KF64
	KUnint // uninterpreted individuals (opaque values)
)

type Sort struct {
	K Kind
	W uint8
}

var (
	SBool  = Sort{KBool, 1}
	SF32   = Sort{KF32, 32}
	SF64   = Sort{KF64, 64}
	SUnint = Sort{KUnint, 0}
)

func BV(w int) Sort { return Sort{KBV, uint8(w)} }

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpEq
	OpIte
	// bit-vectors
	OpConcat  // args MSB first
	OpExtract // hi, lo
	OpSExt    // to sort width
	OpBNot
	OpBAnd
	OpBOr
	OpBXor
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpShl
	OpLShr
	OpAShr
	OpULt
	OpULe
	OpSLt
	OpSLe
	// floats
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpFNeg
	OpFAbs
	OpFFloor
	OpFCeil
	OpFTrunc
	OpFLt
	OpFLe
	OpFEq
	OpFFromS // signed bv -> float
	OpFFromU
	OpFToS // float -> signed bv (truncation)
	OpFToU
	OpFConv // float <-> float
	OpFIsNaN
	// uninterpreted function application: name, args
	OpApp
)

var opName = map[Op]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite", OpConcat: "concat", OpSExt: "sext",
	OpBNot: "bvnot", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv",
	OpURem: "bvurem", OpSDiv: "bvsdiv", OpSRem: "bvsrem", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr", OpULt: "bvult", OpULe: "bvule",
	OpSLt: "bvslt", OpSLe: "bvsle", OpFAdd: "fadd", OpFSub: "fsub", OpFMul: "fmul", OpFDiv: "fdiv", OpFNeg: "fneg", OpFAbs: "fabs",
	OpFFloor: "ffloor", OpFCeil: "fceil", OpFTrunc: "ftrunc", OpFLt: "flt", OpFLe: "fle", OpFEq: "feq", OpFFromS: "froms", OpFFromU: "fromu",
	OpFToS: "ftos", OpFToU: "ftou", OpFConv: "fconv", OpFIsNaN: "fisnan"}

type Term struct {
	Op   Op
	S    Sort
	Val  uint64 // constant bits; for extract: hi<<8|lo
	Name string // variables, applications
	Args []*Term
	id   int

	hasF       int8 // contains float operation: 0 unknown 1 no 2 yes
	boundsDone bool
	mx, mn     uint64
}

type tkey struct {
	op      Op
	s       Sort
	val     uint64
	name    string
	a, b, c int
	rest    string
}

type TermStore struct {
	tab   map[tkey]*Term
	next  int
	fresh int
	calls int
}

// TS is the global store (the engine is single-threaded per process).
var TS = &TermStore{tab: map[tkey]*Term{}}

func (ts *TermStore) mk(op Op, s Sort, val uint64, name string, args ...*Term) *Term {
	if ts.calls++; ts.calls&1023 == 0 {
		checkTime()
	}
	k := tkey{op: op, s: s, val: val, name: name, a: -1, b: -1, c: -1}
	switch {
	case len(args) > 3:
		var sb strings.Builder
		for _, a := range args[3:] {
			fmt.Fprintf(&sb, "%d,", a.id)
		}
		k.rest = sb.String()
		fallthrough
	case len(args) == 3:
		k.c = args[2].id
		fallthrough
	case len(args) == 2:
		k.b = args[1].id
		fallthrough
	case len(args) == 1:
		k.a = args[0].id
	}
	if t, ok := ts.tab[k]; ok {
		return t
	}
	cp := make([]*Term, len(args))
	copy(cp, args)
	t := &Term{Op: op, S: s, Val: val, Name: name, Args: cp, id: ts.next}
	ts.next++
	ts.tab[k] = t
	return t
}

var (
	True  = TS.mk(OpConst, SBool, 1, "")
	False = TS.mk(OpConst, SBool, 0, "")
)

func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func Const(w int, v uint64) *Term { return TS.mk(OpConst, BV(w), v&mask(w), "") }
func ConstF(s Sort, v float64) *Term {
	if s.K == KF32 {
		return TS.mk(OpConst, SF32, uint64(math.Float32bits(float32(v))), "")
	}
	return TS.mk(OpConst, SF64, math.Float64bits(v), "")
}
func ConstFBits(s Sort, v uint64) *Term { return TS.mk(OpConst, s, v, "") }
func Var(name string, s Sort) *Term     { return TS.mk(OpVar, s, 0, name) }
func FreshVar(prefix string, s Sort) *Term {
	TS.fresh++
	return TS.mk(OpVar, s, 0, fmt.Sprintf("%s!%d", prefix, TS.fresh))
}
func App(name string, s Sort, args ...*Term) *Term { return TS.mk(OpApp, s, 0, name, args...) }

func (t *Term) IsConst() bool { return t.Op == OpConst }
func (t *Term) W() int        { return int(t.S.W) }
func (t *Term) ConstVal() (uint64, bool) {
	if t.Op == OpConst {
		return t.Val, true
	}
	return 0, false
}
func sx(v uint64, w int) int64 {
	return int64(v<<(64-uint(w))) >> (64 - uint(w))
}
func (t *Term) F() float64 {
	if t.S.K == KF32 {
		return float64(math.Float32frombits(uint32(t.Val)))
	}
	return math.Float64frombits(t.Val)
}

func (t *Term) String() string {
	return t.str(0)
}
func (t *Term) str(d int) string {
	if d > 12 {
		return "..."
	}
	switch t.Op {
	case OpConst:
		switch t.S.K {
		case KBool:
			if t.Val == 1 {
				return "true"
			}
			return "false"
		case KBV:
			return fmt.Sprintf("%d:%d", t.Val, t.S.W)
		default:
			return fmt.Sprintf("%gf", t.F())
		}
	case OpVar:
		return t.Name
	case OpExtract:
		return fmt.Sprintf("%s[%d:%d]", t.Args[0].str(d+1), t.Val>>8, t.Val&0xff)
	}
	n := opName[t.Op]
	if t.Op == OpApp {
		n = t.Name
	}
	var sb strings.Builder
	sb.WriteString("(" + n)
	for _, a := range t.Args {
		sb.WriteString(" " + a.str(d+1))
		if sb.Len() > 4000 {
			sb.WriteString("...")
			break
		}
	}
	sb.WriteString(")")
	return sb.String()
}

// ---------- booleans

func Not(a *Term) *Term {
	if a == True {
		return False
	}
	if a == False {
		return True
	}
	if a.Op == OpNot {
		return a.Args[0]
	}
	return TS.mk(OpNot, SBool, 0, "", a)
}

func nary(op Op, unit, zero *Term, in []*Term) *Term {
	set := map[int]*Term{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == zero {
			return false
		}
		if t.Op == op {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if _, ok := set[Not(t).id]; ok {
			return false
		}
		set[t.id] = t
		return true
	}
	for _, t := range in {
		if !add(t) {
			return zero
		}
	}
	if len(set) == 0 {
		return unit
	}
	out := make([]*Term, 0, len(set))
	for _, t := range set {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	if len(out) == 1 {
		return out[0]
	}
	// absorption: in an And, an Or-argument containing one of the other
	// conjuncts is redundant, and one containing a negated conjunct loses it.
	dual := OpOr
	if op == OpOr {
		dual = OpAnd
	}
	changed := false
	for i, t := range out {
		if t.Op != dual {
			continue
		}
		drop := false
		var keep []*Term
		for _, a := range t.Args {
			if x, ok := set[a.id]; ok && x != t {
				drop = true
				break
			}
			if _, ok := set[Not(a).id]; ok {
				continue
			}
			keep = append(keep, a)
		}
		if drop {
			out[i] = unit
			changed = true
		} else if len(keep) != len(t.Args) {
			out[i] = nary(dual, zero, unit, keep)
			changed = true
		}
	}
	if changed {
		return nary(op, unit, zero, out)
	}
	return TS.mk(op, SBool, 0, "", out...)
}

func And(in ...*Term) *Term { return nary(OpAnd, True, False, in) }
func Or(in ...*Term) *Term {
	r := nary(OpOr, False, True, in)
	// (a & c) | (a & !c) = a   (binary case, common after merges)
	if r.Op == OpOr && len(r.Args) == 2 {
		if f := factorOr(r.Args[0], r.Args[1]); f != nil {
			return f
		}
	}
	return r
}

func conjSet(t *Term) map[int]*Term {
	m := map[int]*Term{}
	if t.Op == OpAnd {
		for _, a := range t.Args {
			m[a.id] = a
		}
	} else {
		m[t.id] = t
	}
	return m
}

func factorOr(a, b *Term) *Term {
	sa, sb := conjSet(a), conjSet(b)
	var common, ra, rb []*Term
	for id, t := range sa {
		if _, ok := sb[id]; ok {
			common = append(common, t)
		} else {
			ra = append(ra, t)
		}
	}
	if len(common) == 0 {
		return nil
	}
	for id, t := range sb {
		if _, ok := sa[id]; !ok {
			rb = append(rb, t)
		}
	}
	common = append(common, Or(And(ra...), And(rb...)))
	return And(common...)
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.S != b.S {
		panic(fmt.Sprintf("ite sort mismatch %v %v: %v / %v", a.S, b.S, a, b))
	}
	if c.Op == OpNot {
		return Ite(c.Args[0], b, a)
	}
	if a.S.K == KBool {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
		if a == Not(b) {
			return Eq(c, a)
		}
	}
	// nested ite on the same condition
	if a.Op == OpIte && a.Args[0] == c {
		return Ite(c, a.Args[1], b)
	}
	if b.Op == OpIte && b.Args[0] == c {
		return Ite(c, a, b.Args[2])
	}
	// ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
	if b.Op == OpIte && b.Args[1] == a {
		return Ite(Or(c, b.Args[0]), a, b.Args[2])
	}
	if b.Op == OpIte && b.Args[2] == a {
		return Ite(And(Not(c), b.Args[0]), b.Args[1], a)
	}
	if a.S.K == KBV {
		// strip common constant leading zeros
		n := leadZeros(a)
		if m := leadZeros(b); m < n {
			n = m
		}
		w := a.W()
		if n > 0 && n < w {
			return Concat(Const(n, 0), Ite(c, Extract(w-n-1, 0, a), Extract(w-n-1, 0, b)))
		}
	}
	if a.S.K == KBV {
		if a.W() == 1 {
			if a == BNot(b) {
				return BXor(b, bitOf(c))
			}
		} else if a.Op == OpConcat || b.Op == OpConcat {
			flip := false
			segs := alignPieces(a, b)
			for _, sg := range segs {
				if sg[0] == sg[1] && !flip {
					x, y := Extract(sg[0], sg[1], a), Extract(sg[0], sg[1], b)
					flip = x == BNot(y) && !x.IsConst()
				}
			}
			if flip {
				var out []*Term
				for _, sg := range segs {
					out = append(out, Ite(c, Extract(sg[0], sg[1], a), Extract(sg[0], sg[1], b)))
				}
				return Concat(out...)
			}
		}
	}
	return TS.mk(OpIte, a.S, 0, "", c, a, b)
}

// bitOf turns a condition into a bit.
func bitOf(c *Term) *Term {
	if c.Op == OpEq && c.Args[0].S.K == KBV && c.Args[0].W() == 1 {
		for i := 0; i < 2; i++ {
			if k := c.Args[i]; k.IsConst() {
				if k.Val == 1 {
					return c.Args[1-i]
				}
				return BNot(c.Args[1-i])
			}
		}
	}
	if c.Op == OpNot {
		return BNot(bitOf(c.Args[0]))
	}
	return TS.mk(OpIte, BV(1), 0, "", c, Const(1, 1), Const(1, 0))
}

// constLeaves reports whether t is an ite tree with constant leaves.
func constLeaves(t *Term, depth int) bool {
	if t.Op == OpConst {
		return true
	}
	if t.Op == OpIte && depth > 0 {
		return constLeaves(t.Args[1], depth-1) && constLeaves(t.Args[2], depth-1)
	}
	return false
}

func Eq(a, b *Term) *Term {
	if a == b {
		if a.S.K == KF32 || a.S.K == KF64 {
			panic("Eq on floats")
		}
		return True
	}
	if a.S != b.S {
		panic(fmt.Sprintf("eq sort mismatch %v %v: %v / %v", a.S, b.S, a, b))
	}
	if a.IsConst() && b.IsConst() {
		return BoolT(a.Val == b.Val)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if a.S.K == KBool {
		if b == True {
			return a
		}
		if b == False {
			return Not(a)
		}
		if a == Not(b) {
			return False
		}
		if a.Op == OpNot && b.Op == OpNot {
			return Eq(a.Args[0], b.Args[0])
		}
		if a.Op == OpNot {
			return Not(Eq(a.Args[0], b))
		}
		if b.Op == OpNot {
			return Not(Eq(a, b.Args[0]))
		}
	}
	if a.S.K == KBV {
		if b.IsConst() {
			switch a.Op {
			case OpIte:
				if constLeaves(a, 12) {
					return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
				}
				if a.Args[1].IsConst() || a.Args[2].IsConst() {
					return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
				}
			case OpConcat:
				out := []*Term{}
				lo := a.W()
				for _, p := range a.Args {
					lo -= p.W()
					out = append(out, Eq(p, Const(p.W(), b.Val>>uint(lo))))
				}
				return And(out...)
			case OpBNot:
				return Eq(a.Args[0], Const(a.W(), ^b.Val))
			case OpAdd:
				if a.Args[1].IsConst() {
					return Eq(a.Args[0], Const(a.W(), b.Val-a.Args[1].Val))
				}
			case OpBXor:
				if a.Args[1].IsConst() {
					return Eq(a.Args[0], Const(a.W(), b.Val^a.Args[1].Val))
				}
			case OpBOr:
				if b.Val == 0 {
					var out []*Term
					for _, p := range a.Args {
						out = append(out, Eq(p, b))
					}
					return And(out...)
				}
			}
			if b.Val > maxU(a) || b.Val < minU(a) {
				return False
			}
		} else if a.Op == OpConcat && b.Op == OpConcat {
			// compare piecewise when there are constant pieces
			if hasConstPiece(a) || hasConstPiece(b) || samePieces(a, b) {
				return eqPieces(a, b)
			}
		} else if (a.Op == OpConcat && hasConstPiece(a)) || (b.Op == OpConcat && hasConstPiece(b)) {
			if a.Op != OpIte && b.Op != OpIte {
				// let the solver do it, except when widths of known zeros differ
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return TS.mk(OpEq, SBool, 0, "", a, b)
}

func hasConstPiece(t *Term) bool {
	for _, p := range t.Args {
		if p.IsConst() {
			return true
		}
	}
	return false
}
func samePieces(a, b *Term) bool {
	if len(a.Args) != len(b.Args) {
		return false
	}
	for i := range a.Args {
		if a.Args[i].W() != b.Args[i].W() {
			return false
		}
	}
	return true
}

func eqPieces(a, b *Term) *Term {
	out := []*Term{}
	for _, seg := range alignPieces(a, b) {
		x := Extract(seg[0], seg[1], a)
		y := Extract(seg[0], seg[1], b)
		if x.Op == OpConcat || y.Op == OpConcat {
			// cannot happen for aligned pieces
			return TS.mk(OpEq, SBool, 0, "", a, b)
		}
		out = append(out, Eq(x, y))
	}
	return And(out...)
}

func pieces(t *Term) []*Term {
	if t.Op == OpConcat {
		return t.Args
	}
	return []*Term{t}
}

// alignPieces returns [hi,lo] segments such that neither a nor b has a piece
// boundary inside a segment.
func alignPieces(a, b *Term) [][2]int {
	cut := map[int]bool{}
	for _, t := range []*Term{a, b} {
		lo := t.W()
		for _, p := range pieces(t) {
			lo -= p.W()
			cut[lo] = true
		}
	}
	var los []int
	for c := range cut {
		los = append(los, c)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(los)))
	hi := a.W() - 1
	var out [][2]int
	for _, l := range los {
		if l <= hi {
			out = append(out, [2]int{hi, l})
			hi = l - 1
		}
	}
	return out
}

// ---------- bit-vectors

func leadZeros(t *Term) int {
	switch t.Op {
	case OpConst:
		return t.W() - bits.Len64(t.Val)
	case OpConcat:
		n := 0
		for _, p := range t.Args {
			z := leadZeros(p)
			n += z
			if z < p.W() {
				break
			}
		}
		return n
	}
	return 0
}

func Concat(in ...*Term) *Term {
	var ps []*Term
	w := 0
	var add func(t *Term)
	add = func(t *Term) {
		if t.Op == OpConcat {
			for _, a := range t.Args {
				add(a)
			}
			return
		}
		if len(ps) > 0 {
			l := ps[len(ps)-1]
			if l.IsConst() && t.IsConst() {
				ps[len(ps)-1] = Const(l.W()+t.W(), l.Val<<uint(t.W())|t.Val)
				return
			}
			if l.Op == OpExtract && t.Op == OpExtract && l.Args[0] == t.Args[0] && int(l.Val&0xff) == int(t.Val>>8)+1 {
				ps[len(ps)-1] = Extract(int(l.Val>>8), int(t.Val&0xff), l.Args[0])
				return
			}
		}
		ps = append(ps, t)
	}
	for _, t := range in {
		w += t.W()
		add(t)
	}
	if w > 64 {
		panic("concat wider than 64")
	}
	if len(ps) == 1 {
		return ps[0]
	}
	return TS.mk(OpConcat, BV(w), 0, "", ps...)
}

var extractMemo = map[[3]int]*Term{}

func Extract(hi, lo int, t *Term) *Term {
	k := [3]int{hi, lo, t.id}
	if r, ok := extractMemo[k]; ok {
		return r
	}
	r := extract1(hi, lo, t)
	extractMemo[k] = r
	return r
}

func extract1(hi, lo int, t *Term) *Term {
	w := t.W()
	if hi >= w || lo < 0 || hi < lo {
		panic(fmt.Sprintf("extract %d:%d of %d", hi, lo, w))
	}
	if lo == 0 && hi == w-1 {
		return t
	}
	nw := hi - lo + 1
	switch t.Op {
	case OpConst:
		return Const(nw, t.Val>>uint(lo))
	case OpExtract:
		l0 := int(t.Val & 0xff)
		return Extract(hi+l0, lo+l0, t.Args[0])
	case OpConcat:
		var out []*Term
		base := w
		for _, p := range t.Args {
			phi := base - 1
			base -= p.W()
			plo := base
			h, l := min(hi, phi), max(lo, plo)
			if h >= l {
				out = append(out, Extract(h-plo, l-plo, p))
			}
		}
		return Concat(out...)
	case OpIte:
		return Ite(t.Args[0], Extract(hi, lo, t.Args[1]), Extract(hi, lo, t.Args[2]))
	case OpBNot:
		return BNot(Extract(hi, lo, t.Args[0]))
	case OpBAnd, OpBOr, OpBXor:
		return bitwise(t.Op, Extract(hi, lo, t.Args[0]), Extract(hi, lo, t.Args[1]))
	case OpAdd, OpSub, OpMul:
		if lo == 0 {
			a, b := Extract(hi, 0, t.Args[0]), Extract(hi, 0, t.Args[1])
			switch t.Op {
			case OpAdd:
				return Add(a, b)
			case OpSub:
				return Sub(a, b)
			default:
				return Mul(a, b)
			}
		}
	case OpSExt:
		iw := t.Args[0].W()
		if hi < iw {
			return Extract(hi, lo, t.Args[0])
		}
		if lo == 0 {
			return SExt(t.Args[0], hi+1)
		}
		if lo >= iw {
			return SExt(Extract(iw-1, iw-1, t.Args[0]), nw)
		}
		return SExt(Extract(iw-1, lo, t.Args[0]), nw)
	}
	return TS.mk(OpExtract, BV(nw), uint64(hi)<<8|uint64(lo), "", t)
}

func ZExt(t *Term, w int) *Term {
	if w == t.W() {
		return t
	}
	if w < t.W() {
		return Extract(w-1, 0, t)
	}
	return Concat(Const(w-t.W(), 0), t)
}

func SExt(t *Term, w int) *Term {
	if w == t.W() {
		return t
	}
	if w < t.W() {
		return Extract(w-1, 0, t)
	}
	if t.IsConst() {
		return Const(w, uint64(sx(t.Val, t.W())))
	}
	if leadZeros(t) > 0 {
		return ZExt(t, w)
	}
	if t.Op == OpSExt {
		return SExt(t.Args[0], w)
	}
	if t.Op == OpIte {
		return Ite(t.Args[0], SExt(t.Args[1], w), SExt(t.Args[2], w))
	}
	return TS.mk(OpSExt, BV(w), 0, "", t)
}

func BNot(a *Term) *Term {
	if a.IsConst() {
		return Const(a.W(), ^a.Val)
	}
	if a.Op == OpBNot {
		return a.Args[0]
	}
	if a.Op == OpConcat {
		out := make([]*Term, len(a.Args))
		for i, p := range a.Args {
			out[i] = BNot(p)
		}
		return Concat(out...)
	}
	return TS.mk(OpBNot, a.S, 0, "", a)
}

func bitwise(op Op, a, b *Term) *Term {
	if a.S != b.S {
		panic(fmt.Sprintf("bitwise sort mismatch %v %v", a.S, b.S))
	}
	w := a.W()
	if a.IsConst() && !b.IsConst() {
		a, b = b, a
	}
	if a.IsConst() && b.IsConst() {
		switch op {
		case OpBAnd:
			return Const(w, a.Val&b.Val)
		case OpBOr:
			return Const(w, a.Val|b.Val)
		default:
			return Const(w, a.Val^b.Val)
		}
	}
	if a == b {
		if op == OpBXor {
			return Const(w, 0)
		}
		return a
	}
	if b.IsConst() {
		all := mask(w)
		switch op {
		case OpBAnd:
			if b.Val == 0 {
				return b
			}
			if b.Val == all {
				return a
			}
		case OpBOr:
			if b.Val == 0 {
				return a
			}
			if b.Val == all {
				return b
			}
		case OpBXor:
			if b.Val == 0 {
				return a
			}
			if b.Val == all {
				return BNot(a)
			}
		}
		// split by runs of equal bits
		{
			var out []*Term
			hi := w - 1
			for hi >= 0 {
				bit := b.Val >> uint(hi) & 1
				lo := hi
				for lo > 0 && b.Val>>uint(lo-1)&1 == bit {
					lo--
				}
				if op == OpBXor {
					x := Extract(hi, lo, a)
					if bit == 1 {
						x = BNot(x)
					}
					out = append(out, x)
				} else if (op == OpBAnd) == (bit == 1) {
					out = append(out, Extract(hi, lo, a))
				} else {
					c := uint64(0)
					if op == OpBOr {
						c = ^uint64(0)
					}
					out = append(out, Const(hi-lo+1, c))
				}
				hi = lo - 1
			}
			return Concat(out...)
		}
	}
	if (a.Op == OpConcat && hasConstPiece(a)) || (b.Op == OpConcat && hasConstPiece(b)) {
		var out []*Term
		for _, seg := range alignPieces(a, b) {
			out = append(out, bitwise(op, Extract(seg[0], seg[1], a), Extract(seg[0], seg[1], b)))
		}
		return Concat(out...)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return TS.mk(op, a.S, 0, "", a, b)
}

func BAnd(a, b *Term) *Term { return bitwise(OpBAnd, a, b) }
func BOr(a, b *Term) *Term  { return bitwise(OpBOr, a, b) }
func BXor(a, b *Term) *Term { return bitwise(OpBXor, a, b) }

func disjoint(a, b *Term) bool {
	if a.Op != OpConcat && !a.IsConst() && b.Op != OpConcat && !b.IsConst() {
		return false
	}
	for _, seg := range alignPieces(a, b) {
		x, y := Extract(seg[0], seg[1], a), Extract(seg[0], seg[1], b)
		if x.IsConst() && x.Val == 0 || y.IsConst() && y.Val == 0 {
			continue
		}
		if x.IsConst() && y.IsConst() && x.Val&y.Val == 0 {
			continue
		}
		return false
	}
	return true
}

func Add(a, b *Term) *Term {
	w := a.W()
	if a.S != b.S {
		panic("add sort")
	}
	if a.IsConst() && b.IsConst() {
		return Const(w, a.Val+b.Val)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.Val == 0 {
			return a
		}
		if a.Op == OpAdd && a.Args[1].IsConst() {
			return Add(a.Args[0], Const(w, a.Args[1].Val+b.Val))
		}
		if a.Op == OpIte && constLeaves(a, 12) {
			return Ite(a.Args[0], Add(a.Args[1], b), Add(a.Args[2], b))
		}
	}
	if disjoint(a, b) {
		return bitwise(OpBOr, a, b)
	}
	if a.Op == OpAdd && a.Args[1].IsConst() {
		return Add(Add(a.Args[0], b), a.Args[1])
	}
	if b.Op == OpAdd && b.Args[1].IsConst() {
		return Add(Add(a, b.Args[0]), b.Args[1])
	}
	if !b.IsConst() && a.id > b.id {
		a, b = b, a
	}
	return TS.mk(OpAdd, a.S, 0, "", a, b)
}

func Sub(a, b *Term) *Term {
	w := a.W()
	if a == b {
		return Const(w, 0)
	}
	if b.IsConst() {
		return Add(a, Const(w, -b.Val))
	}
	return TS.mk(OpSub, a.S, 0, "", a, b)
}

func Neg(a *Term) *Term { return Sub(Const(a.W(), 0), a) }

func Mul(a, b *Term) *Term {
	w := a.W()
	if a.IsConst() && b.IsConst() {
		return Const(w, a.Val*b.Val)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.Val == 0 {
			return b
		}
		if b.Val == 1 {
			return a
		}
		if b.Val&(b.Val-1) == 0 {
			return ShlC(a, bits.TrailingZeros64(b.Val))
		}
		if a.Op == OpMul && a.Args[1].IsConst() {
			return Mul(a.Args[0], Const(w, a.Args[1].Val*b.Val))
		}
		if a.Op == OpAdd && a.Args[1].IsConst() {
			return Add(Mul(a.Args[0], b), Const(w, a.Args[1].Val*b.Val))
		}
		if a.Op == OpIte && constLeaves(a, 12) {
			return Ite(a.Args[0], Mul(a.Args[1], b), Mul(a.Args[2], b))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return TS.mk(OpMul, a.S, 0, "", a, b)
}

func ShlC(a *Term, n int) *Term {
	w := a.W()
	if n == 0 {
		return a
	}
	if n >= w {
		return Const(w, 0)
	}
	return Concat(Extract(w-n-1, 0, a), Const(n, 0))
}
func LShrC(a *Term, n int) *Term {
	w := a.W()
	if n == 0 {
		return a
	}
	if n >= w {
		return Const(w, 0)
	}
	return Concat(Const(n, 0), Extract(w-1, n, a))
}
func AShrC(a *Term, n int) *Term {
	w := a.W()
	if n == 0 {
		return a
	}
	if n >= w {
		n = w - 1
	}
	return SExt(Extract(w-1, n, a), w)
}

// Shift with a count of any width; counts >= width saturate as Go requires.
func Shift(op Op, a, n *Term) *Term {
	w := a.W()
	if n.IsConst() {
		c := w
		if n.Val < uint64(w) {
			c = int(n.Val)
		}
		switch op {
		case OpShl:
			return ShlC(a, c)
		case OpLShr:
			return LShrC(a, c)
		default:
			return AShrC(a, c)
		}
	}
	if n.Op == OpIte && constLeaves(n, 12) {
		return Ite(n.Args[0], Shift(op, a, n.Args[1]), Shift(op, a, n.Args[2]))
	}
	var sat, cnt *Term
	if n.W() > w {
		sat = Not(ULt(n, Const(n.W(), uint64(w))))
		cnt = Extract(w-1, 0, n)
	} else {
		sat = False
		cnt = ZExt(n, w)
	}
	over := Const(w, 0)
	if op == OpAShr {
		over = AShrC(a, w-1)
	}
	return Ite(sat, over, TS.mk(op, a.S, 0, "", a, cnt))
}

func UDiv(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && b.Val != 0 {
		return Const(a.W(), a.Val/b.Val)
	}
	if b.IsConst() && b.Val != 0 && b.Val&(b.Val-1) == 0 {
		return LShrC(a, bits.TrailingZeros64(b.Val))
	}
	return TS.mk(OpUDiv, a.S, 0, "", a, b)
}
func URem(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && b.Val != 0 {
		return Const(a.W(), a.Val%b.Val)
	}
	if b.IsConst() && b.Val != 0 && b.Val&(b.Val-1) == 0 {
		return BAnd(a, Const(a.W(), b.Val-1))
	}
	return TS.mk(OpURem, a.S, 0, "", a, b)
}
func SDiv(a, b *Term) *Term {
	w := a.W()
	if a.IsConst() && b.IsConst() && b.Val != 0 {
		x, y := sx(a.Val, w), sx(b.Val, w)
		if y == -1 {
			return Const(w, uint64(-x))
		}
		return Const(w, uint64(x/y))
	}
	if leadZeros(a) > 0 && leadZeros(b) > 0 {
		return UDiv(a, b)
	}
	return TS.mk(OpSDiv, a.S, 0, "", a, b)
}
func SRem(a, b *Term) *Term {
	w := a.W()
	if a.IsConst() && b.IsConst() && b.Val != 0 {
		x, y := sx(a.Val, w), sx(b.Val, w)
		if y == -1 {
			return Const(w, 0)
		}
		return Const(w, uint64(x%y))
	}
	if leadZeros(a) > 0 && leadZeros(b) > 0 {
		return URem(a, b)
	}
	return TS.mk(OpSRem, a.S, 0, "", a, b)
}

func bounds(t *Term) {
	if !t.boundsDone {
		t.mx = maxU1(t)
		t.mn = minU1(t)
		t.boundsDone = true
	}
}
func maxU(t *Term) uint64 { bounds(t); return t.mx }
func minU(t *Term) uint64 { bounds(t); return t.mn }

func maxU1(t *Term) uint64 {
	switch t.Op {
	case OpConst:
		return t.Val
	case OpConcat:
		v := uint64(0)
		for _, p := range t.Args {
			v = v<<uint(p.W()) | maxU(p)
		}
		return v
	case OpIte:
		return max(maxU(t.Args[1]), maxU(t.Args[2]))
	case OpAdd:
		x, y := maxU(t.Args[0]), maxU(t.Args[1])
		if s := x + y; s >= x && s <= mask(t.W()) {
			return s
		}
	case OpMul:
		x, y := maxU(t.Args[0]), maxU(t.Args[1])
		hi, lo := bits.Mul64(x, y)
		if hi == 0 && lo <= mask(t.W()) {
			return lo
		}
	case OpUDiv:
		if t.Args[1].IsConst() && t.Args[1].Val > 0 {
			return maxU(t.Args[0]) / t.Args[1].Val
		}
	case OpURem:
		if t.Args[1].IsConst() && t.Args[1].Val > 0 {
			return t.Args[1].Val - 1
		}
	}
	return mask(t.W())
}
func minU1(t *Term) uint64 {
	switch t.Op {
	case OpConst:
		return t.Val
	case OpConcat:
		v := uint64(0)
		for _, p := range t.Args {
			v = v<<uint(p.W()) | minU(p)
		}
		return v
	case OpIte:
		return min(minU(t.Args[1]), minU(t.Args[2]))
	case OpAdd:
		x, y := maxU(t.Args[0]), maxU(t.Args[1])
		if s := x + y; s >= x && s <= mask(t.W()) {
			return minU(t.Args[0]) + minU(t.Args[1])
		}
	}
	return 0
}

func ULt(a, b *Term) *Term {
	if a == b {
		return False
	}
	if a.IsConst() && b.IsConst() {
		return BoolT(a.Val < b.Val)
	}
	if maxU(a) < minU(b) {
		return True
	}
	if minU(a) >= maxU(b) {
		return False
	}
	// strip common leading zeros
	n := min(leadZeros(a), leadZeros(b))
	if n > 0 && n < a.W() {
		return ULt(Extract(a.W()-n-1, 0, a), Extract(a.W()-n-1, 0, b))
	}
	if a.Op == OpIte && constLeaves(a, 6) && b.IsConst() {
		return Ite(a.Args[0], ULt(a.Args[1], b), ULt(a.Args[2], b))
	}
	if b.Op == OpIte && constLeaves(b, 6) && a.IsConst() {
		return Ite(b.Args[0], ULt(a, b.Args[1]), ULt(a, b.Args[2]))
	}
	if a.IsConst() && a.Val == 0 {
		return Not(Eq(b, a))
	}
	if b.IsConst() && b.Val == 1 {
		return Eq(a, Const(a.W(), 0))
	}
	return TS.mk(OpULt, SBool, 0, "", a, b)
}
func ULe(a, b *Term) *Term { return Not(ULt(b, a)) }
func SLt(a, b *Term) *Term {
	w := a.W()
	if a == b {
		return False
	}
	if a.IsConst() && b.IsConst() {
		return BoolT(sx(a.Val, w) < sx(b.Val, w))
	}
	top := uint64(1) << uint(w-1)
	if maxU(a) < top && maxU(b) < top {
		return ULt(a, b)
	}
	// a certainly non-negative, b certainly negative etc.
	if maxU(a) < top && minU(b) >= top {
		return False
	}
	if minU(a) >= top && maxU(b) < top {
		return True
	}
	if a.Op == OpIte && constLeaves(a, 6) && b.IsConst() {
		return Ite(a.Args[0], SLt(a.Args[1], b), SLt(a.Args[2], b))
	}
	if b.Op == OpIte && constLeaves(b, 6) && a.IsConst() {
		return Ite(b.Args[0], SLt(a, b.Args[1]), SLt(a, b.Args[2]))
	}
	return TS.mk(OpSLt, SBool, 0, "", a, b)
}
func SLe(a, b *Term) *Term { return Not(SLt(b, a)) }

// ---------- floats

func fval(s Sort, v float64) *Term { return ConstF(s, v) }

func FBin(op Op, a, b *Term) *Term {
	if a.S != b.S {
		panic("float sort mismatch")
	}
	if a.IsConst() && b.IsConst() {
		return foldF(op, a.S, a.Val, b.Val)
	}
	s := a.S
	if op == OpFLt || op == OpFLe || op == OpFEq {
		s = SBool
		if op == OpFEq && a.id > b.id {
			a, b = b, a
		}
	}
	return TS.mk(op, s, 0, "", a, b)
}

func foldF(op Op, s Sort, x, y uint64) *Term {
	if op == OpFLt || op == OpFLe || op == OpFEq {
		return BoolT(evalF(op, s, x, y) == 1)
	}
	return ConstFBits(s, evalF(op, s, x, y))
}

func evalF(op Op, s Sort, x, y uint64) uint64 {
	if s.K == KF32 {
		a, b := math.Float32frombits(uint32(x)), math.Float32frombits(uint32(y))
		var r float32
		switch op {
		case OpFAdd:
			r = a + b
		case OpFSub:
			r = a - b
		case OpFMul:
			r = a * b
		case OpFDiv:
			r = a / b
		case OpFNeg:
			r = -a
		case OpFAbs:
			r = float32(math.Abs(float64(a)))
		case OpFFloor:
			r = float32(math.Floor(float64(a)))
		case OpFCeil:
			r = float32(math.Ceil(float64(a)))
		case OpFTrunc:
			r = float32(math.Trunc(float64(a)))
		case OpFLt:
			return b2u(a < b)
		case OpFLe:
			return b2u(a <= b)
		case OpFEq:
			return b2u(a == b)
		case OpFIsNaN:
			return b2u(a != a)
		}
		return uint64(math.Float32bits(r))
	}
	a, b := math.Float64frombits(x), math.Float64frombits(y)
	var r float64
	switch op {
	case OpFAdd:
		r = a + b
	case OpFSub:
		r = a - b
	case OpFMul:
		r = a * b
	case OpFDiv:
		r = a / b
	case OpFNeg:
		r = -a
	case OpFAbs:
		r = math.Abs(a)
	case OpFFloor:
		r = math.Floor(a)
	case OpFCeil:
		r = math.Ceil(a)
	case OpFTrunc:
		r = math.Trunc(a)
	case OpFLt:
		return b2u(a < b)
	case OpFLe:
		return b2u(a <= b)
	case OpFEq:
		return b2u(a == b)
	case OpFIsNaN:
		return b2u(a != a)
	}
	return math.Float64bits(r)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func FUn(op Op, a *Term) *Term {
	if a.IsConst() {
		if op == OpFIsNaN {
			return BoolT(evalF(op, a.S, a.Val, 0) == 1)
		}
		return ConstFBits(a.S, evalF(op, a.S, a.Val, 0))
	}
	if op == OpFIsNaN {
		return TS.mk(op, SBool, 0, "", a)
	}
	return TS.mk(op, a.S, 0, "", a)
}

func evalConv(op Op, from, to Sort, x uint64) uint64 {
	switch op {
	case OpFFromS:
		v := sx(x, int(from.W))
		if to.K == KF32 {
			return uint64(math.Float32bits(float32(v)))
		}
		return math.Float64bits(float64(v))
	case OpFFromU:
		if to.K == KF32 {
			return uint64(math.Float32bits(float32(x)))
		}
		return math.Float64bits(float64(x))
	case OpFToS, OpFToU:
		var f float64
		if from.K == KF32 {
			f = float64(math.Float32frombits(uint32(x)))
		} else {
			f = math.Float64frombits(x)
		}
		if op == OpFToS {
			return uint64(int64(f)) & mask(int(to.W))
		}
		return uint64(f) & mask(int(to.W))
	case OpFConv:
		if from.K == KF32 && to.K == KF64 {
			return math.Float64bits(float64(math.Float32frombits(uint32(x))))
		}
		if from.K == KF64 && to.K == KF32 {
			return uint64(math.Float32bits(float32(math.Float64frombits(x))))
		}
		return x
	}
	panic("conv")
}

func Conv(op Op, to Sort, a *Term) *Term {
	if op == OpFConv && a.S == to {
		return a
	}
	if op == OpFFromS && leadZeros(a) > 0 {
		op = OpFFromU
	}
	if op == OpFFromU && a.Op == OpConcat && a.Args[0].IsConst() && a.Args[0].Val == 0 {
		a = Extract(a.W()-a.Args[0].W()-1, 0, a)
	}
	if a.IsConst() {
		v := evalConv(op, a.S, to, a.Val)
		if to.K == KBV {
			return Const(int(to.W), v)
		}
		return ConstFBits(to, v)
	}
	return TS.mk(op, to, 0, "", a)
}

func (t *Term) HasFloat() bool {
	if t.hasF != 0 {
		return t.hasF == 2
	}
	r := t.S.K == KF32 || t.S.K == KF64
	for _, a := range t.Args {
		if a.HasFloat() {
			r = true
		}
	}
	if r {
		t.hasF = 2
	} else {
		t.hasF = 1
	}
	return r
}

// rebuild re-applies the smart constructor of t to new arguments.
func rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case OpConst, OpVar:
		return t
	case OpNot:
		return Not(a[0])
	case OpAnd:
		return And(a...)
	case OpOr:
		return Or(a...)
	case OpEq:
		return Eq(a[0], a[1])
	case OpIte:
		return Ite(a[0], a[1], a[2])
	case OpConcat:
		return Concat(a...)
	case OpExtract:
		return Extract(int(t.Val>>8), int(t.Val&0xff), a[0])
	case OpSExt:
		return SExt(a[0], t.W())
	case OpBNot:
		return BNot(a[0])
	case OpBAnd, OpBOr, OpBXor:
		return bitwise(t.Op, a[0], a[1])
	case OpAdd:
		return Add(a[0], a[1])
	case OpSub:
		return Sub(a[0], a[1])
	case OpMul:
		return Mul(a[0], a[1])
	case OpUDiv:
		return UDiv(a[0], a[1])
	case OpURem:
		return URem(a[0], a[1])
	case OpSDiv:
		return SDiv(a[0], a[1])
	case OpSRem:
		return SRem(a[0], a[1])
	case OpShl, OpLShr, OpAShr:
		return Shift(t.Op, a[0], a[1])
	case OpULt:
		return ULt(a[0], a[1])
	case OpSLt:
		return SLt(a[0], a[1])
	case OpFAdd, OpFSub, OpFMul, OpFDiv, OpFLt, OpFLe, OpFEq:
		return FBin(t.Op, a[0], a[1])
	case OpFNeg, OpFAbs, OpFFloor, OpFCeil, OpFTrunc, OpFIsNaN:
		return FUn(t.Op, a[0])
	case OpFFromS, OpFFromU, OpFToS, OpFToU, OpFConv:
		return Conv(t.Op, t.S, a[0])
	case OpApp:
		return App(t.Name, t.S, a...)
	}
	panic("rebuild " + opName[t.Op])
}

// Subst replaces terms (by id) and re-simplifies.
func Subst(t *Term, m map[int]*Term, memo map[int]*Term) *Term {
	if r, ok := m[t.id]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = Subst(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, args)
	}
	memo[t.id] = r
	return r
}

// ---------- evaluation

type EvalFn func(t *Term) uint64 // value of variables / applications

type evaluator struct {
	order []*Term
	pos   map[int]int
	vals  []uint64
	args  [][]int
	leaf  []int
	zero  bool // uninterpreted applications are zero
}

func newEvaluator(roots ...*Term) *evaluator {
	e := &evaluator{pos: map[int]int{}}
	var visit func(t *Term)
	visit = func(t *Term) {
		if _, ok := e.pos[t.id]; ok {
			return
		}
		e.pos[t.id] = -1
		for _, a := range t.Args {
			visit(a)
		}
		e.pos[t.id] = len(e.order)
		e.order = append(e.order, t)
	}
	for _, r := range roots {
		visit(r)
	}
	e.vals = make([]uint64, len(e.order))
	e.args = make([][]int, len(e.order))
	for i, t := range e.order {
		for _, a := range t.Args {
			e.args[i] = append(e.args[i], e.pos[a.id])
		}
		if t.Op == OpConst {
			e.vals[i] = t.Val
		}
		if t.Op == OpVar {
			e.leaf = append(e.leaf, i)
		}
	}
	return e
}

var appEval = map[string]func([]float64) float64{
	"math.Cos":   func(a []float64) float64 { return math.Cos(a[0]) },
	"math.Sin":   func(a []float64) float64 { return math.Sin(a[0]) },
	"math.Acos":  func(a []float64) float64 { return math.Acos(a[0]) },
	"math.Sqrt":  func(a []float64) float64 { return math.Sqrt(a[0]) },
	"math.Atan2": func(a []float64) float64 { return math.Atan2(a[0], a[1]) },
	"math.Pow":   func(a []float64) float64 { return math.Pow(a[0], a[1]) },
	"math.Tan":   func(a []float64) float64 { return math.Tan(a[0]) },
	"math.Asin":  func(a []float64) float64 { return math.Asin(a[0]) },
	"math.Atan":  func(a []float64) float64 { return math.Atan(a[0]) },

	"math.Hypot":       func(a []float64) float64 { return math.Hypot(a[0], a[1]) },
	"math.Mod":         func(a []float64) float64 { return math.Mod(a[0], a[1]) },
	"math.Remainder":   func(a []float64) float64 { return math.Remainder(a[0], a[1]) },
	"math.Max":         func(a []float64) float64 { return math.Max(a[0], a[1]) },
	"math.Min":         func(a []float64) float64 { return math.Min(a[0], a[1]) },
	"math.Dim":         func(a []float64) float64 { return math.Dim(a[0], a[1]) },
	"math.Copysign":    func(a []float64) float64 { return math.Copysign(a[0], a[1]) },
	"math.Round":       func(a []float64) float64 { return math.Round(a[0]) },
	"math.RoundToEven": func(a []float64) float64 { return math.RoundToEven(a[0]) },
	"math.Log":         func(a []float64) float64 { return math.Log(a[0]) },
	"math.Log2":        func(a []float64) float64 { return math.Log2(a[0]) },
	"math.Log10":       func(a []float64) float64 { return math.Log10(a[0]) },
	"math.Exp":         func(a []float64) float64 { return math.Exp(a[0]) },
	"math.Exp2":        func(a []float64) float64 { return math.Exp2(a[0]) },
	"math.Cbrt":        func(a []float64) float64 { return math.Cbrt(a[0]) },
	"math.FMA":         func(a []float64) float64 { return math.FMA(a[0], a[1], a[2]) },
}

// run evaluates all nodes, the leaves having been set in e.vals.
// It returns false when an uninterpreted application is met.
func (e *evaluator) run() bool {
	v := e.vals
	for i, t := range e.order {
		a := e.args[i]
		switch t.Op {
		case OpConst, OpVar:
		case OpNot:
			v[i] = v[a[0]] ^ 1
		case OpAnd:
			r := uint64(1)
			for _, x := range a {
				r &= v[x]
			}
			v[i] = r
		case OpOr:
			r := uint64(0)
			for _, x := range a {
				r |= v[x]
			}
			v[i] = r
		case OpEq:
			v[i] = b2u(v[a[0]] == v[a[1]])
		case OpIte:
			if v[a[0]] == 1 {
				v[i] = v[a[1]]
			} else {
				v[i] = v[a[2]]
			}
		case OpConcat:
			r := uint64(0)
			for k, x := range a {
				r = r<<uint(t.Args[k].W()) | v[x]
			}
			v[i] = r
		case OpExtract:
			v[i] = v[a[0]] >> uint(t.Val&0xff) & mask(t.W())
		case OpSExt:
			v[i] = uint64(sx(v[a[0]], t.Args[0].W())) & mask(t.W())
		case OpBNot:
			v[i] = ^v[a[0]] & mask(t.W())
		case OpBAnd:
			v[i] = v[a[0]] & v[a[1]]
		case OpBOr:
			v[i] = v[a[0]] | v[a[1]]
		case OpBXor:
			v[i] = v[a[0]] ^ v[a[1]]
		case OpAdd:
			v[i] = (v[a[0]] + v[a[1]]) & mask(t.W())
		case OpSub:
			v[i] = (v[a[0]] - v[a[1]]) & mask(t.W())
		case OpMul:
			v[i] = (v[a[0]] * v[a[1]]) & mask(t.W())
		case OpUDiv, OpURem, OpSDiv, OpSRem:
			x, y := v[a[0]], v[a[1]]
			w := t.W()
			if y == 0 {
				// SMT-LIB conventions; guarded by obligations in Go code
				switch t.Op {
				case OpUDiv:
					v[i] = mask(w)
				case OpSDiv:
					if sx(x, w) < 0 {
						v[i] = 1
					} else {
						v[i] = mask(w)
					}
				default:
					v[i] = x
				}
				break
			}
			switch t.Op {
			case OpUDiv:
				v[i] = x / y
			case OpURem:
				v[i] = x % y
			case OpSDiv:
				if sx(y, w) == -1 {
					v[i] = -x & mask(w)
				} else {
					v[i] = uint64(sx(x, w)/sx(y, w)) & mask(w)
				}
			case OpSRem:
				if sx(y, w) == -1 {
					v[i] = 0
				} else {
					v[i] = uint64(sx(x, w)%sx(y, w)) & mask(w)
				}
			}
		case OpShl, OpLShr, OpAShr:
			x, n := v[a[0]], v[a[1]]
			w := t.W()
			switch t.Op {
			case OpShl:
				if n >= uint64(w) {
					v[i] = 0
				} else {
					v[i] = x << n & mask(w)
				}
			case OpLShr:
				if n >= uint64(w) {
					v[i] = 0
				} else {
					v[i] = x >> n
				}
			default:
				if n >= uint64(w) {
					n = uint64(w - 1)
				}
				v[i] = uint64(sx(x, w)>>n) & mask(w)
			}
		case OpULt:
			v[i] = b2u(v[a[0]] < v[a[1]])
		case OpSLt:
			w := t.Args[0].W()
			v[i] = b2u(sx(v[a[0]], w) < sx(v[a[1]], w))
		case OpFAdd, OpFSub, OpFMul, OpFDiv, OpFLt, OpFLe, OpFEq:
			v[i] = evalF(t.Op, t.Args[0].S, v[a[0]], v[a[1]])
		case OpFNeg, OpFAbs, OpFFloor, OpFCeil, OpFTrunc, OpFIsNaN:
			v[i] = evalF(t.Op, t.Args[0].S, v[a[0]], 0)
		case OpFFromS, OpFFromU, OpFToS, OpFToU, OpFConv:
			v[i] = evalConv(t.Op, t.Args[0].S, t.S, v[a[0]])
		case OpApp:
			f, ok := appEval[t.Name]
			if !ok && e.zero {
				v[i] = 0
				continue
			}
			if !ok {
				return false
			}
			fs := make([]float64, len(a))
			for k, x := range a {
				fs[k] = math.Float64frombits(v[x])
			}
			v[i] = math.Float64bits(f(fs))
		default:
			panic("eval op " + opName[t.Op])
		}
	}
	return true
}

// Eval evaluates t with the given variable values (missing = 0).
func Eval(t *Term, env map[string]uint64) (uint64, bool) {
	e := newEvaluator(t)
	for _, i := range e.leaf {
		e.vals[i] = env[e.order[i].Name] & maskS(e.order[i].S)
	}
	ok := e.run()
	return e.vals[e.pos[t.id]], ok
}

func maskS(s Sort) uint64 {
	switch s.K {
	case KBool:
		return 1
	case KF32:
		return mask(32)
	case KF64, KUnint:
		return mask(64)
	}
	return mask(int(s.W))
}

// support returns the variable bits t depends on.
func support(ts ...*Term) map[string]uint64 {
	out := map[string]uint64{}
	seen := map[int]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.Op == OpVar {
			out[t.Name] |= maskS(t.S)
			return
		}
		if t.Op == OpExtract && t.Args[0].Op == OpVar {
			hi, lo := int(t.Val>>8), int(t.Val&0xff)
			out[t.Args[0].Name] |= mask(hi-lo+1) << uint(lo)
			return
		}
		for _, a := range t.Args {
			visit(a)
		}
	}
	for _, t := range ts {
		visit(t)
	}
	return out
}

func vars(ts ...*Term) []*Term {
	var out []*Term
	seen := map[int]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.Op == OpVar {
			out = append(out, t)
		}
		for _, a := range t.Args {
			visit(a)
		}
	}
	for _, t := range ts {
		visit(t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

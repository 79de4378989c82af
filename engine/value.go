package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term, *PtrVal, *SliceVal, *StructVal, *ArrayVal, *LazyArr,
// *Str, *IfaceVal, *FuncVal, *MapVal, *MapContent, TupleVal, *IterVal, Poison.
type Value interface{}

// Poison stands for the results of a function that has not run yet.
type Poison struct{}

type Object struct {
	ID   int
	Name string
	T    types.Type
	Pre  bool // existed before the function under proof was called
	Glob bool

	ReadOnly bool // merged backing array: writing to it is not supported
}

type Step struct {
	Field int // >= 0: struct field; -1: array element Idx
	Idx   *Term
}

type PtrAlt struct {
	G    *Term
	Obj  *Object
	Path []Step
}
type PtrVal struct{ Alts []PtrAlt }

type SliceAlt struct {
	G             *Term
	Obj           *Object // nil: nil slice
	Path          []Step
	Off, Len, Cap *Term
}
type SliceVal struct{ Alts []SliceAlt }

type StructVal struct{ F []Value }
type ArrayVal struct{ E []Value }

// LazyArr is an array of unknown length whose elements are created on demand.
type LazyArr struct {
	Name  string
	Elem  types.Type
	Base  map[int]Value // shared, symbolic initial contents
	Over  map[int]Value // written elements
	Fresh func(name string, t types.Type) Value
}

type IfaceAlt struct {
	G *Term
	T types.Type // nil: nil interface
	V Value
}
type IfaceVal struct{ Alts []IfaceAlt }

type FuncAlt struct {
	G    *Term
	Fn   *ssa.Function // nil: nil func
	Bind []Value
}
type FuncVal struct{ Alts []FuncAlt }

type MapAlt struct {
	G   *Term
	Obj *Object
}
type MapVal struct{ Alts []MapAlt }
type MapEntry struct {
	G    *Term // entry effective
	K, V Value
	Del  bool
}
type MapContent struct {
	Opaque  string
	NilG    *Term
	LenT    *Term
	Entries []MapEntry // later entries win
}

type TupleVal []Value

type IterVal struct {
	Str *Str
	Pos int
	Map *MapContent
}

// ---------- strings

type StrKind uint8

const (
	SKConst StrKind = iota
	SKConcat
	SKIte
	SKByte
	SKFmt
	SKOpaque
)

type Str struct {
	K     StrKind
	S     string
	Parts []*Str
	C     *Term
	T     *Term
	id    int
}

var strTab = map[string]*Str{}

func mkStr(k StrKind, s string, c, t *Term, parts ...*Str) *Str {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%d:%s|", k, len(s), s)
	if c != nil {
		fmt.Fprintf(&sb, "c%d", c.id)
	}
	if t != nil {
		fmt.Fprintf(&sb, "t%d", t.id)
	}
	for _, p := range parts {
		fmt.Fprintf(&sb, ",%d", p.id)
	}
	key := sb.String()
	if r, ok := strTab[key]; ok {
		return r
	}
	r := &Str{K: k, S: s, C: c, T: t, Parts: append([]*Str(nil), parts...), id: len(strTab)}
	strTab[key] = r
	return r
}

func SConst(s string) *Str { return mkStr(SKConst, s, nil, nil) }

var opaqueN int

func SOpaque(prefix string) *Str {
	opaqueN++
	return mkStr(SKOpaque, fmt.Sprintf("%s#%d", prefix, opaqueN), nil, nil)
}
func SOpaqueNamed(name string) *Str { return mkStr(SKOpaque, name, nil, nil) }
func SByte(t *Term) *Str {
	if t.IsConst() {
		return SConst(string([]byte{byte(t.Val)}))
	}
	return mkStr(SKByte, "", nil, t)
}
func SIte(c *Term, a, b *Str) *Str {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	return mkStr(SKIte, "", c, nil, a, b)
}
func SConcat(in ...*Str) *Str {
	var ps []*Str
	var add func(s *Str)
	add = func(s *Str) {
		if s.K == SKConcat {
			for _, p := range s.Parts {
				add(p)
			}
			return
		}
		if s.K == SKConst {
			if s.S == "" {
				return
			}
			if len(ps) > 0 && ps[len(ps)-1].K == SKConst {
				ps[len(ps)-1] = SConst(ps[len(ps)-1].S + s.S)
				return
			}
		}
		ps = append(ps, s)
	}
	for _, s := range in {
		add(s)
	}
	switch len(ps) {
	case 0:
		return SConst("")
	case 1:
		return ps[0]
	}
	return mkStr(SKConcat, "", nil, nil, ps...)
}

func (s *Str) Const() (string, bool) {
	if s.K == SKConst {
		return s.S, true
	}
	return "", false
}

// Flat returns the bytes of a string of known length without alternatives.
func (s *Str) Flat() ([]*Term, bool) {
	switch s.K {
	case SKConst:
		out := make([]*Term, len(s.S))
		for i := range out {
			out[i] = Const(8, uint64(s.S[i]))
		}
		return out, true
	case SKByte:
		return []*Term{s.T}, true
	case SKConcat:
		var out []*Term
		for _, p := range s.Parts {
			f, ok := p.Flat()
			if !ok {
				return nil, false
			}
			out = append(out, f...)
		}
		return out, true
	case SKIte:
		a, ok1 := s.Parts[0].Flat()
		b, ok2 := s.Parts[1].Flat()
		if !ok1 || !ok2 || len(a) != len(b) {
			return nil, false
		}
		out := make([]*Term, len(a))
		for i := range a {
			out[i] = Ite(s.C, a[i], b[i])
		}
		return out, true
	}
	return nil, false
}

// Prefix returns the leading bytes of s that are known whatever alternatives
// follow.
func (s *Str) Prefix() []*Term {
	if f, ok := s.Flat(); ok {
		return f
	}
	switch s.K {
	case SKConcat:
		var out []*Term
		for _, p := range s.Parts {
			f, ok := p.Flat()
			if !ok {
				return append(out, p.Prefix()...)
			}
			out = append(out, f...)
		}
		return out
	case SKIte:
		a, b := s.Parts[0].Prefix(), s.Parts[1].Prefix()
		var out []*Term
		for i := 0; i < len(a) && i < len(b); i++ {
			out = append(out, Ite(s.C, a[i], b[i]))
		}
		return out
	}
	return nil
}

// choice finds the first alternative inside s that has no fixed length.
func (s *Str) choice() (c *Term, a, b *Str, ok bool) {
	if s.K == SKIte {
		return s.C, s.Parts[0], s.Parts[1], true
	}
	if s.K == SKConcat {
		for i, p := range s.Parts {
			if p.K == SKIte {
				if _, flat := p.Flat(); !flat {
					return p.C, replacePart(s, i, p.Parts[0]), replacePart(s, i, p.Parts[1]), true
				}
			}
		}
	}
	return nil, nil, nil, false
}

func (s *Str) LenTerm() *Term {
	switch s.K {
	case SKConst:
		return Const(64, uint64(len(s.S)))
	case SKByte:
		return Const(64, 1)
	case SKConcat:
		r := Const(64, 0)
		for _, p := range s.Parts {
			r = Add(r, p.LenTerm())
		}
		return r
	case SKIte:
		return Ite(s.C, s.Parts[0].LenTerm(), s.Parts[1].LenTerm())
	}
	return ZExt(Var(fmt.Sprintf("strlen!%d", s.id), BV(20)), 64)
}

func (s *Str) String() string {
	switch s.K {
	case SKConst:
		return fmt.Sprintf("%q", s.S)
	case SKByte:
		return "<" + s.T.String() + ">"
	case SKConcat:
		var o []string
		for _, p := range s.Parts {
			o = append(o, p.String())
		}
		return strings.Join(o, "+")
	case SKIte:
		return "(" + s.C.String() + "?" + s.Parts[0].String() + ":" + s.Parts[1].String() + ")"
	case SKFmt:
		return s.S + "(" + s.T.String() + ")"
	}
	return s.S
}

// StrEq is exact for strings of known shape; otherwise identical structure
// implies equality and everything else is an unconstrained boolean.
func StrEq(a, b *Str) *Term {
	if a == b {
		return True
	}
	if ca, ok := a.Const(); ok {
		if cb, ok := b.Const(); ok {
			return BoolT(ca == cb)
		}
	}
	fa, oka := a.Flat()
	fb, okb := b.Flat()
	if oka && okb {
		if len(fa) != len(fb) {
			return False
		}
		var cs []*Term
		for i := range fa {
			cs = append(cs, Eq(fa[i], fb[i]))
		}
		return And(cs...)
	}
	if a.K == SKIte {
		return Ite(a.C, StrEq(a.Parts[0], b), StrEq(a.Parts[1], b))
	}
	if b.K == SKIte {
		return Ite(b.C, StrEq(a, b.Parts[0]), StrEq(a, b.Parts[1]))
	}
	// distribute alternatives inside concatenations
	if a.K == SKConcat {
		for i, p := range a.Parts {
			if p.K == SKIte {
				return Ite(p.C, StrEq(replacePart(a, i, p.Parts[0]), b), StrEq(replacePart(a, i, p.Parts[1]), b))
			}
		}
	}
	if b.K == SKConcat {
		for i, p := range b.Parts {
			if p.K == SKIte {
				return Ite(p.C, StrEq(a, replacePart(b, i, p.Parts[0])), StrEq(a, replacePart(b, i, p.Parts[1])))
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return Var(fmt.Sprintf("streq!%d!%d", a.id, b.id), SBool)
}

func replacePart(s *Str, i int, by *Str) *Str {
	ps := append([]*Str(nil), s.Parts...)
	ps[i] = by
	return SConcat(ps...)
}

// ---------- constructors

func NilPtr() *PtrVal         { return &PtrVal{[]PtrAlt{{G: True}}} }
func PtrTo(o *Object) *PtrVal { return &PtrVal{[]PtrAlt{{G: True, Obj: o}}} }
func NilIface() *IfaceVal     { return &IfaceVal{[]IfaceAlt{{G: True}}} }
func Int64(v int) *Term       { return Const(64, uint64(v)) }
func NilSlice() *SliceVal {
	return &SliceVal{[]SliceAlt{{G: True, Off: Int64(0), Len: Int64(0), Cap: Int64(0)}}}
}
func NilFunc() *FuncVal { return &FuncVal{[]FuncAlt{{G: True}}} }
func NilMap() *MapVal   { return &MapVal{[]MapAlt{{G: True}}} }

func samePath(a, b []Step) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

// ---------- merging: the value is a when g holds, b otherwise

func mergeV(g *Term, a, b Value) Value {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			if _, p := b.(Poison); p {
				return b
			}
			unsup("merge of %T and %T", a, b)
		}
		return Ite(g, x, y)
	case Poison:
		return x
	}
	if _, ok := b.(Poison); ok {
		return b
	}
	// the place of a builder's text (see writeText), written on one side only
	if _, ok := a.(*Str); ok {
		if y, ok := b.(*SliceVal); ok && isNilSlice(y) {
			b = SConst("")
		}
	}
	if _, ok := b.(*Str); ok {
		if x, ok := a.(*SliceVal); ok && isNilSlice(x) {
			a = SConst("")
		}
	}
	switch x := a.(type) {
	case *PtrVal:
		y := b.(*PtrVal)
		if x == y {
			return x
		}
		out := &PtrVal{}
		add := func(al PtrAlt, c *Term) {
			gg := And(c, al.G)
			if gg == False {
				return
			}
			for i, o := range out.Alts {
				if o.Obj == al.Obj && samePath(o.Path, al.Path) {
					out.Alts[i].G = Or(o.G, gg)
					return
				}
			}
			out.Alts = append(out.Alts, PtrAlt{gg, al.Obj, al.Path})
		}
		for _, al := range x.Alts {
			add(al, g)
		}
		for _, al := range y.Alts {
			add(al, Not(g))
		}
		if len(out.Alts) == 1 {
			out.Alts[0].G = True
		}
		return out
	case *SliceVal:
		y := b.(*SliceVal)
		if x == y {
			return x
		}
		out := &SliceVal{}
		add := func(al SliceAlt, c *Term) {
			gg := And(c, al.G)
			if gg == False {
				return
			}
			for i, o := range out.Alts {
				if o.Obj == al.Obj && samePath(o.Path, al.Path) && o.Off == al.Off && o.Len == al.Len && o.Cap == al.Cap {
					out.Alts[i].G = Or(o.G, gg)
					return
				}
			}
			al.G = gg
			out.Alts = append(out.Alts, al)
		}
		for _, al := range x.Alts {
			add(al, g)
		}
		for _, al := range y.Alts {
			add(al, Not(g))
		}
		if len(out.Alts) == 1 {
			out.Alts[0].G = True
		}
		return out
	case *StructVal:
		y := b.(*StructVal)
		if x == y {
			return x
		}
		out := &StructVal{F: make([]Value, len(x.F))}
		for i := range x.F {
			out.F[i] = mergeV(g, x.F[i], y.F[i])
		}
		return out
	case *ArrayVal:
		y, ok := b.(*ArrayVal)
		if !ok || len(y.E) != len(x.E) {
			unsup("merge of arrays of different shape")
		}
		if x == y {
			return x
		}
		out := &ArrayVal{E: make([]Value, len(x.E))}
		for i := range x.E {
			out.E[i] = mergeV(g, x.E[i], y.E[i])
		}
		return out
	case *LazyArr:
		y, ok := b.(*LazyArr)
		if !ok || y.Name != x.Name {
			unsup("merge of lazy arrays")
		}
		if x == y {
			return x
		}
		out := *x
		out.Over = map[int]Value{}
		for i := range x.Over {
			out.Over[i] = mergeV(g, x.Get(i), y.Get(i))
		}
		for i := range y.Over {
			out.Over[i] = mergeV(g, x.Get(i), y.Get(i))
		}
		return &out
	case *Str:
		return SIte(g, x, b.(*Str))
	case *IfaceVal:
		y := b.(*IfaceVal)
		if x == y {
			return x
		}
		out := &IfaceVal{}
		add := func(al IfaceAlt, c *Term) {
			gg := And(c, al.G)
			if gg == False {
				return
			}
			for i, o := range out.Alts {
				if (o.T == nil) == (al.T == nil) && (o.T == nil || types.Identical(o.T, al.T)) {
					if al.T != nil && !sameValue(o.V, al.V) {
						out.Alts[i].V = mergeV(o.G, o.V, al.V)
					}
					out.Alts[i].G = Or(o.G, gg)
					return
				}
			}
			out.Alts = append(out.Alts, IfaceAlt{gg, al.T, al.V})
		}
		for _, al := range x.Alts {
			add(al, g)
		}
		for _, al := range y.Alts {
			add(al, Not(g))
		}
		if len(out.Alts) == 1 {
			out.Alts[0].G = True
		}
		return out
	case *FuncVal:
		y := b.(*FuncVal)
		if x == y {
			return x
		}
		out := &FuncVal{}
		for _, al := range x.Alts {
			if gg := And(g, al.G); gg != False {
				out.Alts = append(out.Alts, FuncAlt{gg, al.Fn, al.Bind})
			}
		}
		for _, al := range y.Alts {
			if gg := And(Not(g), al.G); gg != False {
				out.Alts = append(out.Alts, FuncAlt{gg, al.Fn, al.Bind})
			}
		}
		return out
	case *MapVal:
		y := b.(*MapVal)
		if x == y {
			return x
		}
		out := &MapVal{}
		add := func(al MapAlt, c *Term) {
			gg := And(c, al.G)
			if gg == False {
				return
			}
			for i, o := range out.Alts {
				if o.Obj == al.Obj {
					out.Alts[i].G = Or(o.G, gg)
					return
				}
			}
			out.Alts = append(out.Alts, MapAlt{gg, al.Obj})
		}
		for _, al := range x.Alts {
			add(al, g)
		}
		for _, al := range y.Alts {
			add(al, Not(g))
		}
		return out
	case *MapContent:
		y := b.(*MapContent)
		if x == y {
			return x
		}
		n := 0
		for n < len(x.Entries) && n < len(y.Entries) && x.Entries[n].G == y.Entries[n].G && sameValue(x.Entries[n].K, y.Entries[n].K) && sameValue(x.Entries[n].V, y.Entries[n].V) && x.Entries[n].Del == y.Entries[n].Del {
			n++
		}
		out := &MapContent{Opaque: x.Opaque, NilG: x.NilG, LenT: x.LenT}
		out.Entries = append(out.Entries, x.Entries[:n]...)
		for _, e := range x.Entries[n:] {
			e.G = And(g, e.G)
			out.Entries = append(out.Entries, e)
		}
		for _, e := range y.Entries[n:] {
			e.G = And(Not(g), e.G)
			out.Entries = append(out.Entries, e)
		}
		return out
	case TupleVal:
		y := b.(TupleVal)
		out := make(TupleVal, len(x))
		for i := range x {
			out[i] = mergeV(g, x[i], y[i])
		}
		return out
	case *IterVal:
		y := b.(*IterVal)
		if *x == *y {
			return x
		}
		unsup("merge of iterators")
	}
	unsup("merge of %T", a)
	return nil
}

func sameValue(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		return a == b
	case *Str:
		return a == b
	case *PtrVal:
		y, ok := b.(*PtrVal)
		if !ok || len(x.Alts) != len(y.Alts) {
			return false
		}
		for i := range x.Alts {
			if x.Alts[i].G != y.Alts[i].G || x.Alts[i].Obj != y.Alts[i].Obj || !samePath(x.Alts[i].Path, y.Alts[i].Path) {
				return false
			}
		}
		return true
	case *StructVal:
		y, ok := b.(*StructVal)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !sameValue(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case *ArrayVal:
		y, ok := b.(*ArrayVal)
		if !ok || len(x.E) != len(y.E) {
			return false
		}
		for i := range x.E {
			if !sameValue(x.E[i], y.E[i]) {
				return false
			}
		}
		return true
	}
	return identical(a, b)
}

func identical(a, b Value) bool {
	if x, ok := a.(TupleVal); ok {
		y, ok := b.(TupleVal)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !identical(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	if _, ok := b.(TupleVal); ok {
		return false
	}
	return a == b
}

func (l *LazyArr) Get(i int) Value {
	if v, ok := l.Over[i]; ok {
		return v
	}
	if v, ok := l.Base[i]; ok {
		return v
	}
	v := l.Fresh(fmt.Sprintf("%s_%d", l.Name, i), l.Elem)
	l.Base[i] = v
	return v
}

// refs collects the objects reachable in one step from a value.
func refs(v Value, f func(o *Object)) {
	switch x := v.(type) {
	case *PtrVal:
		for _, a := range x.Alts {
			if a.Obj != nil {
				f(a.Obj)
			}
		}
	case *SliceVal:
		for _, a := range x.Alts {
			if a.Obj != nil {
				f(a.Obj)
			}
		}
	case *StructVal:
		for _, e := range x.F {
			refs(e, f)
		}
	case *ArrayVal:
		for _, e := range x.E {
			refs(e, f)
		}
	case *LazyArr:
		for _, e := range x.Over {
			refs(e, f)
		}
	case *IfaceVal:
		for _, a := range x.Alts {
			if a.T != nil {
				refs(a.V, f)
			}
		}
	case *MapVal:
		for _, a := range x.Alts {
			if a.Obj != nil {
				f(a.Obj)
			}
		}
	case TupleVal:
		for _, e := range x {
			refs(e, f)
		}
	}
}

func sortedObjs(m map[*Object]bool) []*Object {
	var out []*Object
	for o := range m {
		out = append(out, o)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

func under(t types.Type) types.Type { return t.Underlying() }

func intInfo(t types.Type) (w int, signed, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.UntypedInt:
		return 64, true, true
	}
	return 0, false, false
}

func isFloat(t types.Type) (Sort, bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return Sort{}, false
	}
	switch b.Kind() {
	case types.Float32:
		return SF32, true
	case types.Float64, types.UntypedFloat:
		return SF64, true
	}
	return Sort{}, false
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func zeroVal(t types.Type) Value {
	if w, _, ok := intInfo(t); ok {
		return Const(w, 0)
	}
	if s, ok := isFloat(t); ok {
		return ConstF(s, 0)
	}
	if isString(t) {
		return SConst("")
	}
	if isBool(t) {
		return False
	}
	switch u := under(t).(type) {
	case *types.Pointer:
		return NilPtr()
	case *types.Slice:
		return NilSlice()
	case *types.Interface:
		return NilIface()
	case *types.Signature:
		return NilFunc()
	case *types.Map:
		return NilMap()
	case *types.Struct:
		s := &StructVal{F: make([]Value, u.NumFields())}
		for i := range s.F {
			s.F[i] = zeroVal(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := &ArrayVal{E: make([]Value, u.Len())}
		for i := range a.E {
			a.E[i] = zeroVal(u.Elem())
		}
		return a
	case *types.Basic:
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return NilPtr()
		}
	case *types.Chan:
		return NilPtr()
	case *types.Tuple:
		tv := make(TupleVal, u.Len())
		for i := range tv {
			tv[i] = zeroVal(u.At(i).Type())
		}
		return tv
	}
	unsup("zero value of %v", t)
	return nil
}

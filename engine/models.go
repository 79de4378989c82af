package main

// Models of the external functions the code calls, loop cutting, and symbolic
// inputs. Everything here is part of the trusted base and is listed in the
// evidence whenever it is used.

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func fullName(fn *ssa.Function) string {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	return fn.String()
}

func (ex *Exec) useExternal(n string) {
	if ex.external != nil {
		ex.external[n] = true
	}
}

func (ex *Exec) model(fr *frame, fn *ssa.Function, args []Value, st *State, pos token.Pos) (Value, *State, bool) {
	name := fullName(fn)
	if ex.eng.initPhase && fn.Name() == "init" && fn.Synthetic != "" {
		return nil, st, true
	}
	if v, ok := ex.model1(fr, fn, name, args, st, pos); ok {
		ex.useExternal(name)
		return v, st, true
	}
	return nil, nil, false
}

func f64(v Value) *Term { return v.(*Term) }

func allConst(ss ...Value) ([]string, bool) {
	var out []string
	for _, s := range ss {
		x, ok := s.(*Str)
		if !ok {
			return nil, false
		}
		c, ok := x.Const()
		if !ok {
			return nil, false
		}
		out = append(out, c)
	}
	return out, true
}

func (ex *Exec) model1(fr *frame, fn *ssa.Function, name string, args []Value, st *State, pos token.Pos) (Value, bool) {
	switch name {
	case "math.Abs":
		return FUn(OpFAbs, f64(args[0])), true
	case "math.Floor":
		return FUn(OpFFloor, f64(args[0])), true
	case "math.Ceil":
		return FUn(OpFCeil, f64(args[0])), true
	case "math.Trunc":
		return FUn(OpFTrunc, f64(args[0])), true
	case "math.IsNaN":
		return FUn(OpFIsNaN, f64(args[0])), true
	case "math.IsInf":
		x := f64(args[0])
		s, ok := args[1].(*Term).ConstVal()
		if !ok {
			return nil, false
		}
		big := ConstF(SF64, 1.7976931348623157e308)
		pos, neg := FBin(OpFLt, big, x), FBin(OpFLt, x, FUn(OpFNeg, big))
		switch {
		case int64(s) > 0:
			return pos, true
		case int64(s) < 0:
			return neg, true
		}
		return Or(pos, neg), true
	case "math.Cos", "math.Sin", "math.Acos", "math.Asin", "math.Atan", "math.Tan", "math.Sqrt", "math.Atan2", "math.Pow", "math.Max", "math.Min", "math.Mod", "math.Round", "math.Hypot", "math.RoundToEven", "math.Log", "math.Exp",
		"math.Remainder", "math.Dim", "math.Copysign", "math.Log2", "math.Log10", "math.Exp2", "math.Cbrt", "math.FMA":
		var ts []*Term
		all := true
		for _, a := range args {
			ts = append(ts, f64(a))
			all = all && f64(a).IsConst()
		}
		t := App(name, SF64, ts...)
		if all {
			if v, ok := Eval(t, nil); ok {
				return ConstFBits(SF64, v), true
			}
		}
		return t, true
	case "math.Float64bits", "math.Float64frombits", "math.Float32bits":
		if c, ok := args[0].(*Term); ok && c.IsConst() {
			switch name {
			case "math.Float64bits":
				return Const(64, c.Val), true
			case "math.Float64frombits":
				return ConstFBits(SF64, c.Val), true
			}
		}
		return nil, false
	case "math.NaN":
		return ConstFBits(SF64, 0x7FF8000000000001), true
	case "errors.New":
		return ex.newError(args[0].(*Str), st), true
	case "fmt.Errorf":
		return ex.newError(ex.sprintf(fr, args, st, pos), st), true
	case "fmt.Sprintf":
		return ex.sprintf(fr, args, st, pos), true
	case "fmt.Sprint", "fmt.Sprintln":
		return ex.sprint(fr, args[0], st, pos, fn.Name() == "Sprintln"), true
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString":
		w, ok := args[0].(*IfaceVal)
		if !ok || len(w.Alts) != 1 || w.Alts[0].T == nil {
			return nil, false
		}
		to := w.Alts[0].T.String()
		if to != "*strings.Builder" && to != "*bytes.Buffer" {
			return nil, false
		}
		var text *Str
		switch fn.Name() {
		case "Fprintf":
			text = ex.sprintf(fr, args[1:], st, pos)
		case "WriteString":
			text = args[1].(*Str)
		default:
			text = ex.sprint(fr, args[1], st, pos, fn.Name() == "Fprintln")
		}
		return ex.writeText(fr, w.Alts[0].V, text, to, st, pos), true
	case "strings.Compare":
		a, b := args[0].(*Str), args[1].(*Str)
		return Ite(StrEq(a, b), Const(64, 0), Ite(strLess(a, b), Const(64, ^uint64(0)), Const(64, 1))), true
	case "strings.EqualFold":
		if a, ok := args[0].(*Str).Flat(); ok {
			if b, ok := args[1].(*Str).Flat(); ok {
				low := func(t *Term) *Term {
					if maxU(t) >= 0x80 {
						unsup("EqualFold with non-ASCII characters")
					}
					return Ite(And(ULe(Const(8, 'A'), t), ULe(t, Const(8, 'Z'))), Add(t, Const(8, 32)), t)
				}
				if len(a) != len(b) {
					return False, true
				}
				var cs []*Term
				for i := range a {
					cs = append(cs, Eq(low(a[i]), low(b[i])))
				}
				return And(cs...), true
			}
		}
		return nil, false
	case "strconv.Itoa":
		return fmtInt("%d", args[0].(*Term), true), true
	case "strconv.FormatInt", "strconv.FormatUint":
		if b, ok := args[1].(*Term).ConstVal(); ok && b == 10 {
			return fmtInt("%d", args[0].(*Term), name == "strconv.FormatInt"), true
		}
		return SOpaque("formatint"), true
	case "strconv.FormatFloat", "strconv.Quote":
		return SOpaque("strconv"), true
	case "strconv.FormatBool":
		return SIte(args[0].(*Term), SConst("true"), SConst("false")), true
	case "strings.HasPrefix":
		return strHasPrefix(args[0].(*Str), args[1].(*Str)), true
	case "strings.HasSuffix", "strings.Contains":
		if c, ok := allConst(args...); ok {
			if name == "strings.Contains" {
				return BoolT(strings.Contains(c[0], c[1])), true
			}
			return BoolT(strings.HasSuffix(c[0], c[1])), true
		}
		a, b := args[0].(*Str), args[1].(*Str)
		if a.K == SKIte {
			x, _ := ex.model1(fr, fn, name, []Value{a.Parts[0], b}, st, pos)
			y, _ := ex.model1(fr, fn, name, []Value{a.Parts[1], b}, st, pos)
			return Ite(a.C, x.(*Term), y.(*Term)), true
		}
		return Var(fmt.Sprintf("%s!%d!%d", name, a.id, b.id), SBool), true
	case "strings.ContainsAny":
		return strContainsAny(args[0].(*Str), args[1].(*Str)), true
	case "strings.ContainsRune":
		if c, ok := args[1].(*Term).ConstVal(); ok {
			return strContainsAny(args[0].(*Str), SConst(string(rune(c)))), true
		}
		return nil, false
	case "strings.Split":
		if c, ok := allConst(args...); ok {
			ps := strings.Split(c[0], c[1])
			av := &ArrayVal{}
			for _, p := range ps {
				av.E = append(av.E, SConst(p))
			}
			o := ex.newObj("split", types.NewArray(types.Typ[types.String], int64(len(ps))))
			st.mem.m[o] = av
			return &SliceVal{[]SliceAlt{{G: True, Obj: o, Off: Int64(0), Len: Int64(len(ps)), Cap: Int64(len(ps))}}}, true
		}
		o := ex.newObj("split", nil)
		st.mem.m[o] = &LazyArr{Name: fmt.Sprintf("split%d", o.ID), Elem: types.Typ[types.String], Base: map[int]Value{}, Over: map[int]Value{}, Fresh: freshAny}
		l := Concat(Const(44, 0), FreshVar("splitlen", BV(20)))
		if c, ok := args[1].(*Str).Const(); ok && c != "" {
			ex.hyps = append(ex.hyps, ULt(Int64(0), l))
		}
		return &SliceVal{[]SliceAlt{{G: True, Obj: o, Off: Int64(0), Len: l, Cap: l}}}, true
	case "strings.Join":
		s := args[0].(*SliceVal)
		var r *Str
		for i := len(s.Alts) - 1; i >= 0; i-- {
			es, ok := ex.sliceElems(s.Alts[i], st)
			var x *Str
			if !ok {
				x = SOpaque("join")
			} else {
				var ps []*Str
				for k, e := range es {
					if k > 0 {
						ps = append(ps, args[1].(*Str))
					}
					ps = append(ps, e.(*Str))
				}
				x = SConcat(ps...)
			}
			if r == nil {
				r = x
			} else {
				r = SIte(s.Alts[i].G, x, r)
			}
		}
		return r, true
	case "strings.ReplaceAll", "strings.TrimSpace", "strings.TrimRight", "strings.TrimLeft", "strings.Trim", "strings.ToUpper", "strings.ToLower", "strings.TrimSuffix", "strings.TrimPrefix":
		if c, ok := allConst(args...); ok {
			switch name {
			case "strings.ReplaceAll":
				return SConst(strings.ReplaceAll(c[0], c[1], c[2])), true
			case "strings.TrimSpace":
				return SConst(strings.TrimSpace(c[0])), true
			case "strings.TrimRight":
				return SConst(strings.TrimRight(c[0], c[1])), true
			case "strings.TrimLeft":
				return SConst(strings.TrimLeft(c[0], c[1])), true
			case "strings.Trim":
				return SConst(strings.Trim(c[0], c[1])), true
			case "strings.ToUpper":
				return SConst(strings.ToUpper(c[0])), true
			case "strings.ToLower":
				return SConst(strings.ToLower(c[0])), true
			case "strings.TrimSuffix":
				return SConst(strings.TrimSuffix(c[0], c[1])), true
			case "strings.TrimPrefix":
				return SConst(strings.TrimPrefix(c[0], c[1])), true
			}
		}
		key := name
		for _, a := range args {
			key += fmt.Sprintf("!%d", a.(*Str).id)
		}
		return SOpaqueNamed(key), true
	case "strings.Repeat":
		n, ok := args[1].(*Term).ConstVal()
		if !ok || int64(n) < 0 || n > 10000 {
			return nil, false
		}
		var ps []*Str
		for i := uint64(0); i < n; i++ {
			ps = append(ps, args[0].(*Str))
		}
		return SConcat(ps...), true
	}
	for _, t := range []string{"*strings.Builder", "*bytes.Buffer"} {
		if !strings.HasPrefix(name, "("+t+").") {
			continue
		}
		set := func(s *Str) Value { return ex.writeText(fr, args[0], s, t, st, pos) }
		switch fn.Name() {
		case "WriteString":
			return set(args[1].(*Str)), true
		case "Write":
			return set(ex.bytesToString(args[1].(*SliceVal), types.NewSlice(types.Typ[types.Byte]), st)), true
		case "WriteByte":
			set(SByte(args[1].(*Term)))
			return NilIface(), true
		case "WriteRune":
			return set(ex.convert(types.Typ[types.Int32], types.Typ[types.String], args[1], st).(*Str)), true
		case "String":
			return ex.builderText(args[0], t, st), true
		case "Len":
			return ex.builderText(args[0], t, st).LenTerm(), true
		case "Reset":
			o, path := builderPath(args[0], t)
			ex.frameCheck(fr, o, st.pc, pos)
			st.mem.m[o] = storePath(ex.loadObj(o, st), path, True, SConst(""))
			return nil, true
		case "Grow":
			return nil, true
		}
		unsup("method %s of %s", fn.Name(), t)
	}
	return nil, false
}

// The text of a builder is kept in the place of its buf field.
func builderPath(v Value, typ string) (*Object, []Step) {
	p := v.(*PtrVal)
	if len(p.Alts) != 1 || p.Alts[0].Obj == nil {
		unsup("%s through several pointers", typ)
	}
	f := 1
	if typ == "*bytes.Buffer" {
		f = 0
	}
	return p.Alts[0].Obj, appendStep(p.Alts[0].Path, Step{Field: f})
}

func (ex *Exec) builderText(v Value, typ string, st *State) *Str {
	o, path := builderPath(v, typ)
	if s, ok := loadPath(ex.loadObj(o, st), path).(*Str); ok {
		return s
	}
	return SConst("")
}

func (ex *Exec) writeText(fr *frame, v Value, s *Str, typ string, st *State, pos token.Pos) Value {
	o, path := builderPath(v, typ)
	ex.frameCheck(fr, o, st.pc, pos)
	st.mem.m[o] = storePath(ex.loadObj(o, st), path, True, SConcat(ex.builderText(v, typ, st), s))
	return TupleVal{s.LenTerm(), NilIface()}
}

// sprint models fmt.Sprint and fmt.Sprintln.
func (ex *Exec) sprint(fr *frame, args Value, st *State, pos token.Pos, ln bool) *Str {
	sl := args.(*SliceVal)
	if len(sl.Alts) != 1 {
		return SOpaque("sprint")
	}
	vals, ok := ex.sliceElems(sl.Alts[0], st)
	if !ok {
		return SOpaque("sprint")
	}
	isStr := func(v Value) (bool, bool) {
		iv, ok := v.(*IfaceVal)
		if !ok || len(iv.Alts) != 1 {
			return false, false
		}
		b, ok := iv.Alts[0].T.(*types.Basic)
		return ok && b.Kind() == types.String, true
	}
	var out []*Str
	for i, v := range vals {
		if i > 0 {
			a, ok1 := isStr(vals[i-1])
			b, ok2 := isStr(v)
			if !ln && (!ok1 || !ok2) {
				return SOpaque("sprint")
			}
			if ln || !a && !b {
				out = append(out, SConst(" "))
			}
		}
		out = append(out, ex.fmtArg(fr, "%v", v, st, pos))
	}
	if ln {
		out = append(out, SConst("\n"))
	}
	return SConcat(out...)
}

// fmtStr formats a text with a width.
func fmtStr(verb string, s *Str) *Str {
	if verb == "%v" || verb == "%s" {
		return s
	}
	if c, ok := s.Const(); ok {
		return SConst(fmt.Sprintf(verb, c))
	}
	if s.K == SKIte {
		return SIte(s.C, fmtStr(verb, s.Parts[0]), fmtStr(verb, s.Parts[1]))
	}
	last := verb[len(verb)-1]
	w := strings.TrimPrefix(verb[1:len(verb)-1], "-")
	if n, err := strconv.Atoi(w); (last == 'v' || last == 's') && err == nil && w[0] != '0' && n < 1000 {
		if f, ok := s.Flat(); ok {
			for _, b := range f {
				ok = ok && maxU(b) < 0x80
			}
			if ok {
				pad := SConst(strings.Repeat(" ", max(0, n-len(f))))
				if verb[1] == '-' {
					return SConcat(s, pad)
				}
				return SConcat(pad, s)
			}
		}
	}
	return SOpaqueNamed(fmt.Sprintf("fmt%s!%d", verb, s.id))
}

func strHasPrefix(s, p *Str) *Term {
	pc, ok := p.Const()
	if !ok {
		if s == p {
			return True
		}
		return Var(fmt.Sprintf("hasprefix!%d!%d", s.id, p.id), SBool)
	}
	if pc == "" {
		return True
	}
	if s.K == SKIte {
		return Ite(s.C, strHasPrefix(s.Parts[0], p), strHasPrefix(s.Parts[1], p))
	}
	if f, ok := s.Flat(); ok {
		if len(f) < len(pc) {
			return False
		}
		var cs []*Term
		for i := range pc {
			cs = append(cs, Eq(f[i], Const(8, uint64(pc[i]))))
		}
		return And(cs...)
	}
	if s.K == SKConcat {
		first := s.Parts[0]
		if first.K == SKIte {
			return Ite(first.C, strHasPrefix(replacePart(s, 0, first.Parts[0]), p), strHasPrefix(replacePart(s, 0, first.Parts[1]), p))
		}
		if c, ok := first.Const(); ok {
			n := min(len(c), len(pc))
			if c[:n] != pc[:n] {
				return False
			}
			if n == len(pc) {
				return True
			}
			return strHasPrefix(SConcat(s.Parts[1:]...), SConst(pc[n:]))
		}
	}
	return Var(fmt.Sprintf("hasprefix!%d!%d", s.id, p.id), SBool)
}

func strContainsAny(s, chars *Str) *Term {
	cs, ok := chars.Const()
	if !ok {
		return Var(fmt.Sprintf("containsany!%d!%d", s.id, chars.id), SBool)
	}
	switch s.K {
	case SKConst:
		return BoolT(strings.ContainsAny(s.S, cs))
	case SKIte:
		return Ite(s.C, strContainsAny(s.Parts[0], chars), strContainsAny(s.Parts[1], chars))
	case SKConcat:
		var os []*Term
		for _, p := range s.Parts {
			os = append(os, strContainsAny(p, chars))
		}
		return Or(os...)
	case SKByte:
		var os []*Term
		for i := 0; i < len(cs); i++ {
			if cs[i] >= 0x80 {
				unsup("ContainsAny with non-ASCII characters")
			}
			os = append(os, Eq(s.T, Const(8, uint64(cs[i]))))
		}
		return Or(os...)
	}
	return Var(fmt.Sprintf("containsany!%d!%d", s.id, chars.id), SBool)
}

func (ex *Exec) newError(s *Str, st *State) Value {
	t := ex.eng.errorStringT
	o := ex.newObj("error", t)
	st.mem.m[o] = &StructVal{F: []Value{s}}
	return &IfaceVal{[]IfaceAlt{{True, types.NewPointer(t), PtrTo(o)}}}
}

func fmtInt(verb string, t *Term, signed bool) *Str {
	if c, ok := t.ConstVal(); ok {
		if signed {
			return SConst(fmt.Sprintf(verb, sx(c, t.W())))
		}
		return SConst(fmt.Sprintf(verb, c))
	}
	sg := "u"
	if signed {
		sg = "s"
		if leadZeros(t) > 0 {
			sg = "u"
		}
	}
	// strip leading zeros so that the width of the type does not matter
	if n := leadZeros(t); n > 0 && n < t.W() {
		t = Extract(t.W()-n-1, 0, t)
	}
	if sg == "u" {
		if r := fmtDigits(verb, t); r != nil {
			return r
		}
	}
	return mkStr(SKFmt, verb+sg, nil, t)
}

// fmtDigits writes out the digits of numbers whose printed width is fixed.
func fmtDigits(verb string, t *Term) *Str {
	byteOf := func(d *Term) *Term {
		if d.W() < 8 {
			return ZExt(d, 8)
		}
		return Extract(7, 0, d)
	}
	dec := func(d *Term) *Str { return SByte(Add(Const(8, '0'), byteOf(d))) }
	switch verb {
	case "%d", "%v", "%o", "%x", "%X":
		lim := uint64(9)
		if verb == "%o" {
			lim = 7
		}
		if maxU(t) <= lim {
			return dec(t)
		}
		return nil
	}
	if len(verb) != 4 || verb[:2] != "%0" || verb[2] < '1' || verb[2] > '6' {
		return nil
	}
	n := int(verb[2] - '0')
	var ps []*Str
	switch verb[3] {
	case 'o':
		if t.W() > 3*n {
			return nil
		}
		t = ZExt(t, 3*n)
		for i := n - 1; i >= 0; i-- {
			ps = append(ps, dec(Extract(3*i+2, 3*i, t)))
		}
	case 'X', 'x':
		if t.W() > 4*n {
			return nil
		}
		t = ZExt(t, 4*n)
		for i := n - 1; i >= 0; i-- {
			d := ZExt(Extract(4*i+3, 4*i, t), 8)
			ps = append(ps, SByte(Ite(ULt(d, Const(8, 10)), Add(d, Const(8, '0')), Add(d, Const(8, uint64(verb[3]-'X'+'A'-10))))))
		}
	case 'd':
		lim := uint64(1)
		for i := 0; i < n; i++ {
			lim *= 10
		}
		if n > 4 || maxU(t) >= lim {
			return nil
		}
		if t.W() < 16 {
			t = ZExt(t, 16)
		}
		for p := lim / 10; p > 0; p /= 10 {
			ps = append(ps, dec(URem(UDiv(t, Const(t.W(), p)), Const(t.W(), 10))))
		}
	default:
		return nil
	}
	return SConcat(ps...)
}

// sprintf models fmt.Sprintf for a constant format.
func (ex *Exec) sprintf(fr *frame, args []Value, st *State, pos token.Pos) *Str {
	f, ok := args[0].(*Str).Const()
	var vals []Value
	sl := args[1].(*SliceVal)
	okv := len(sl.Alts) == 1
	if okv {
		vals, okv = ex.sliceElems(sl.Alts[0], st)
	}
	if !ok || !okv {
		return SOpaque("sprintf")
	}
	var out []*Str
	ai := 0
	for i := 0; i < len(f); {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				j = len(f) - i
			}
			out = append(out, SConst(f[i:i+j]))
			i += j
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			out = append(out, SConst("%!(NOVERB)"))
			break
		}
		verb := f[i : j+1]
		if f[j] == '%' {
			out = append(out, SConst("%"))
			i = j + 1
			continue
		}
		if f[j] == '[' || f[j] == '*' {
			return SOpaque("sprintf")
		}
		i = j + 1
		if ai >= len(vals) {
			out = append(out, SConst("%!"+string(f[j])+"(MISSING)"))
			continue
		}
		out = append(out, ex.fmtArg(fr, verb, vals[ai], st, pos))
		ai++
	}
	if ai < len(vals) {
		out = append(out, SOpaque("extra"))
	}
	return SConcat(out...)
}

func (ex *Exec) fmtArg(fr *frame, verb string, v Value, st *State, pos token.Pos) *Str {
	iv, ok := v.(*IfaceVal)
	if !ok {
		return SOpaque("fmtarg")
	}
	var r *Str
	for i := len(iv.Alts) - 1; i >= 0; i-- {
		a := iv.Alts[i]
		s := ex.fmtOne(fr, verb, a, st, pos)
		if r == nil {
			r = s
		} else {
			r = SIte(a.G, s, r)
		}
	}
	return r
}

func (ex *Exec) fmtOne(fr *frame, verb string, a IfaceAlt, st *State, pos token.Pos) *Str {
	if a.T == nil {
		if verb == "%v" {
			return SConst("<nil>")
		}
		return SConst("%!" + verb[1:] + "(<nil>)")
	}
	last := verb[len(verb)-1]
	if strings.IndexByte("vsxXq", last) >= 0 {
		for _, m := range []string{"Error", "String"} {
			fn := ex.eng.lookupMethod(a.T, nil, m)
			if fn == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 || !isString(fn.Signature.Results().At(0).Type()) {
				continue
			}
			s2 := st.fork()
			s2.pc = And(st.pc, a.G)
			ns, r := ex.callFn(fr, fn, []Value{a.V}, nil, s2, pos)
			if ns == nil {
				return SOpaque("panicking String method")
			}
			st.mem = ns.mem
			if s, ok := r.(*Str); ok {
				return fmtStr(verb, s)
			}
			return SOpaque("fmt")
		}
	}
	if w, signed, ok := intInfo(a.T); ok {
		_ = w
		vb := verb
		if last == 'v' {
			vb = verb[:len(verb)-1] + "d"
		}
		return fmtInt(vb, a.V.(*Term), signed)
	}
	if isString(a.T) {
		return fmtStr(verb, a.V.(*Str))
	}
	if isBool(a.T) {
		return SIte(a.V.(*Term), SConst(fmt.Sprintf(verb, true)), SConst(fmt.Sprintf(verb, false)))
	}
	if s, ok := isFloat(a.T); ok {
		t := a.V.(*Term)
		if t.IsConst() {
			if s.K == KF32 {
				return SConst(fmt.Sprintf(verb, float32(t.F())))
			}
			return SConst(fmt.Sprintf(verb, t.F()))
		}
		return mkStr(SKFmt, fmt.Sprintf("%s f%d", verb, s.W), nil, t)
	}
	switch u := under(a.T).(type) {
	case *types.Slice, *types.Array:
		var et types.Type
		var es []Value
		known := false
		switch x := a.V.(type) {
		case *SliceVal:
			et = u.(*types.Slice).Elem()
			if len(x.Alts) == 1 {
				es, known = ex.sliceElems(x.Alts[0], st)
			}
		case *ArrayVal:
			et, es, known = u.(*types.Array).Elem(), x.E, true
		}
		if !known || verb != "%v" && verb != "%d" {
			return SOpaque("fmt slice")
		}
		ps := []*Str{SConst("[")}
		for i, e := range es {
			if i > 0 {
				ps = append(ps, SConst(" "))
			}
			ps = append(ps, ex.fmtElem(fr, verb, et, e, a.G, st, pos))
		}
		return SConcat(append(ps, SConst("]"))...)
	case *types.Struct:
		x, ok := a.V.(*StructVal)
		if !ok || verb != "%v" {
			return SOpaque("fmt struct")
		}
		ps := []*Str{SConst("{")}
		for i, e := range x.F {
			if i > 0 {
				ps = append(ps, SConst(" "))
			}
			ft := u.Field(i).Type()
			if _, basic := ft.(*types.Basic); !u.Field(i).Exported() && !basic {
				return SOpaque("fmt struct") // methods of unexported fields are not called
			}
			ps = append(ps, ex.fmtElem(fr, verb, ft, e, a.G, st, pos))
		}
		return SConcat(append(ps, SConst("}"))...)
	case *types.Pointer:
		if _, ok := under(u.Elem()).(*types.Struct); !ok {
			unsup("a pointer is formatted with %s: the text depends on an address", verb)
		}
		// &{...} at top level: deterministic unless nested pointers occur
		st2 := under(u.Elem()).(*types.Struct)
		for i := 0; i < st2.NumFields(); i++ {
			switch under(st2.Field(i).Type()).(type) {
			case *types.Pointer, *types.Map, *types.Signature, *types.Chan:
				unsup("a nested pointer is formatted with %s: the text depends on an address", verb)
			}
		}
		return SOpaque("fmt pointer")
	}
	return SOpaque("fmt value")
}

// fmtElem formats an element of a composite value.
func (ex *Exec) fmtElem(fr *frame, verb string, t types.Type, v Value, g *Term, st *State, pos token.Pos) *Str {
	switch under(t).(type) {
	case *types.Pointer, *types.Map, *types.Signature, *types.Chan:
		unsup("a nested pointer is formatted with %s: the text depends on an address", verb)
	case *types.Interface:
		return ex.fmtArg(fr, verb, v, st, pos)
	}
	return ex.fmtOne(fr, verb, IfaceAlt{g, t, v}, st, pos)
}

// ---------- arbitrary values

func freshAny(n string, t types.Type) Value {
	if w, _, ok := intInfo(t); ok {
		return FreshVar(n, BV(w))
	}
	if isBool(t) {
		return FreshVar(n, SBool)
	}
	if isString(t) {
		return SOpaque(n)
	}
	if s, ok := isFloat(t); ok {
		return FreshVar(n, s)
	}
	switch u := under(t).(type) {
	case *types.Struct:
		s := &StructVal{}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, freshAny(n+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return s
	case *types.Array:
		a := &ArrayVal{}
		for i := int64(0); i < u.Len(); i++ {
			a.E = append(a.E, freshAny(fmt.Sprintf("%s[%d]", n, i), u.Elem()))
		}
		return a
	}
	unsup("arbitrary value of type %v", t)
	return nil
}

// symInput builds the symbolic value of a parameter. Variable names follow a
// scheme the native replay understands.
func (ex *Exec) symInput(n string, t types.Type, st *State, lens map[string]int) Value {
	if w, _, ok := intInfo(t); ok {
		return Var(n, BV(w))
	}
	if isBool(t) {
		return Var(n, SBool)
	}
	if isString(t) {
		return SOpaqueNamed("in:" + n)
	}
	if s, ok := isFloat(t); ok {
		return Var(n, s)
	}
	switch u := under(t).(type) {
	case *types.Struct:
		s := &StructVal{}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, ex.symInput(n+"."+u.Field(i).Name(), u.Field(i).Type(), st, lens))
		}
		return s
	case *types.Array:
		a := &ArrayVal{}
		for i := int64(0); i < u.Len(); i++ {
			a.E = append(a.E, ex.symInput(fmt.Sprintf("%s[%d]", n, i), u.Elem(), st, lens))
		}
		return a
	case *types.Slice:
		o := ex.newObj("the input "+n, nil)
		o.Pre = true
		l, fixed := lens[n]
		if !fixed {
			unsup("no length given for slice parameter %s", n)
		}
		if l >= 0 {
			a := &ArrayVal{}
			for i := 0; i < l; i++ {
				a.E = append(a.E, ex.symInput(fmt.Sprintf("%s[%d]", n, i), u.Elem(), st, lens))
			}
			st.mem.m[o] = a
			return &SliceVal{[]SliceAlt{{G: True, Obj: o, Off: Int64(0), Len: Int64(l), Cap: Int64(l)}}}
		}
		w, _, ok := intInfo(u.Elem())
		if !ok {
			unsup("slice of %v of unknown length", u.Elem())
		}
		st.mem.m[o] = &LazyArr{Name: n, Elem: u.Elem(), Base: map[int]Value{}, Over: map[int]Value{}, Fresh: func(nm string, t types.Type) Value {
			i := nm[strings.LastIndexByte(nm, '_')+1:]
			return Var(n+"["+i+"]", BV(w))
		}}
		lt := Concat(Const(44, 0), Var("len("+n+")", BV(20)))
		isNil := Var("isnil("+n+")", SBool)
		ex.hyps = append(ex.hyps, Implies(isNil, Eq(lt, Int64(0))))
		return &SliceVal{[]SliceAlt{
			{G: Not(isNil), Obj: o, Off: Int64(0), Len: lt, Cap: lt},
			{G: isNil, Off: Int64(0), Len: Int64(0), Cap: Int64(0)}}}
	case *types.Map:
		o := ex.newObj("the input "+n, nil)
		o.Pre = true
		lt := Concat(Const(44, 0), Var("len("+n+")", BV(20)))
		st.mem.m[o] = &MapContent{Opaque: "map:" + n, LenT: lt}
		isNil := Var("isnil("+n+")", SBool)
		return &MapVal{[]MapAlt{{Not(isNil), o}, {isNil, nil}}}
	case *types.Pointer:
		o := ex.newObj("the input *"+n, u.Elem())
		o.Pre = true
		st.mem.m[o] = ex.symInput(n, u.Elem(), st, lens)
		return PtrTo(o)
	}
	unsup("symbolic input of type %v", t)
	return nil
}

// ---------- loop cutting

// tryCut handles `for i := range s` style loops over slices of unbounded
// length: one arbitrary iteration is executed from a state in which everything
// the loop modifies is arbitrary, under inductive bounds on the index.
func (ex *Exec) tryCut(fr *frame, n *wtoNode, pending map[*ssa.BasicBlock][]edgeState, rets *[]retState) bool {
	in := pending[n.b]
	if len(in) != 1 {
		return false
	}
	e := in[0]
	// find a bound: comparison phi/phi+1 < len with a non-constant len
	var bound *Term
	for _, ins := range n.b.Instrs {
		b, ok := ins.(*ssa.BinOp)
		if !ok || b.Op != token.LSS {
			continue
		}
		if v, ok := e.env[b.Y]; ok {
			if t, ok := v.(*Term); ok && !t.IsConst() && maxU(t) > 300 {
				bound = t
			}
		}
	}
	if bound == nil {
		return false
	}
	var phis []*ssa.Phi
	k := -1
	for j, p := range n.b.Preds {
		if p == e.pred {
			k = j
		}
	}
	for _, ins := range n.b.Instrs {
		if p, ok := ins.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	f0 := &frame{fn: fr.fn, env: e.env, bind: fr.bind}
	havocMem := map[*Object]bool{}
	for round := 0; round < 5; round++ {
		env := copyEnv(e.env)
		st := e.st.fork()
		type inv struct {
			p  *ssa.Phi
			lo *Term
		}
		var invs []inv
		for _, p := range phis {
			init := ex.operandRaw(f0, p.Edges[k])
			if t, ok := init.(*Term); ok && t.S.K == KBV {
				v := FreshVar("loop."+p.Name(), t.S)
				env[p] = v
				if t.IsConst() && t.W() == 64 {
					st.pc = And(st.pc, SLe(t, v), SLt(v, bound))
					invs = append(invs, inv{p, t})
					ex.oblige("invariant", "loop index bounds hold initially", fr.fn, p.Pos(), e.st.pc, SLt(t, bound))
				}
				continue
			}
			env[p] = freshAny("loop."+p.Name(), p.Type())
		}
		for o := range havocMem {
			v := e.st.mem.get(o)
			if la, ok := v.(*LazyArr); ok {
				nl := *la
				nl.Name = fmt.Sprintf("%s'%d", la.Name, round)
				nl.Base, nl.Over = map[int]Value{}, map[int]Value{}
				nl.Fresh = freshAny
				st.mem.m[o] = &nl
			} else if o.T != nil {
				st.mem.m[o] = freshAny("loop."+o.Name, o.T)
			} else {
				unsup("loop modifies %s", o.Name)
			}
		}
		sub := map[*ssa.BasicBlock][]edgeState{}
		nob := len(ex.obls)
		base := st.mem
		f := &frame{fn: fr.fn, env: env, bind: fr.bind}
		ex.execInstrs(f, n.b, n.b.Instrs[len(phis):], &State{st.pc, newLayer(base)}, sub, rets)
		ex.runNodes(fr, n.sub, sub, rets)
		back := sub[n.b]
		delete(sub, n.b)
		grew := false
		for _, be := range back {
			for l := be.st.mem; l != nil && l != base; l = l.parent {
				for o := range l.m {
					if e.st.mem.get(o) != nil && !havocMem[o] {
						havocMem[o] = true
						grew = true
					}
				}
			}
		}
		if grew {
			ex.obls = ex.obls[:nob]
			continue
		}
		for _, be := range back {
			kk := -1
			for j, p := range n.b.Preds {
				if p == be.pred {
					kk = j
				}
			}
			fb := &frame{fn: fr.fn, env: be.env, bind: fr.bind}
			for _, iv := range invs {
				nv := ex.operandRaw(fb, iv.p.Edges[kk]).(*Term)
				ex.oblige("invariant", "loop index bounds preserved", fr.fn, iv.p.Pos(), be.st.pc, And(SLe(iv.lo, nv), SLt(nv, bound)))
			}
		}
		delete(pending, n.b)
		for b, es := range sub {
			pending[b] = append(pending[b], es...)
		}
		return true
	}
	unsup("loop cut did not stabilise")
	return false
}

var _ = strconv.Itoa

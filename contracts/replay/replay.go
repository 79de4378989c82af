// Package replay runs contracts natively: it rebuilds the arguments of a
// counterexample, calls the real function and evaluates the contract on what
// the function returned.
package replay

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/contracts/vc"
)

// Case is a counterexample file.
type Case struct {
	Property    string            `json:"property"`
	Params      []string          `json:"params"`
	Contract    string            `json:"contract"` // file:line of the registration
	Function    string            `json:"function"`
	Obligation  string            `json:"obligation"`
	Kind        string            `json:"kind"`
	At          string            `json:"at"`
	Status      string            `json:"status"`
	Output      string            `json:"verifier_output,omitempty"`
	Lens        map[string]int    `json:"lens,omitempty"`
	Vals        map[string]int64  `json:"fixed,omitempty"`
	Model       map[string]uint64 `json:"input,omitempty"`
	Found       string            `json:"found_by,omitempty"` // model, search
	Observed    string            `json:"observed,omitempty"`
	ReplayHow   string            `json:"replay_command,omitempty"`
	AllFailures []string          `json:"failed_obligations,omitempty"`
}

func lookup(id string) *vc.Reg {
	for _, r := range vc.Regs {
		if key(r) == id {
			return r
		}
	}
	return nil
}

func key(r *vc.Reg) string {
	d := filepath.Base(filepath.Dir(r.File))
	return fmt.Sprintf("%s/%s:%d", d, filepath.Base(r.File), r.Line)
}

// source yields the scalar with the given name.
type source func(name string, width int, isFloat bool) uint64

type builder struct {
	src    source
	lens   map[string]int
	vals   map[string]int64
	listed map[string][]int64
	rnd    *rand.Rand
	model  map[string]uint64
}

func (b *builder) build(n string, t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(b.scalar(n, 1, false) != 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		w := t.Bits()
		x := b.scalar(n, w, false)
		v.SetInt(int64(x<<uint(64-w)) >> uint(64-w))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(b.scalar(n, t.Bits(), false) & (^uint64(0) >> uint(64-t.Bits())))
	case reflect.Float32:
		v.SetFloat(float64(math.Float32frombits(uint32(b.scalar(n, 32, true)))))
	case reflect.Float64:
		v.SetFloat(math.Float64frombits(b.scalar(n, 64, true)))
	case reflect.String:
		k := int(b.scalar("strlen:"+n, 4, false) % 16)
		s := make([]byte, k)
		for i := range s {
			s[i] = byte(b.scalar(fmt.Sprintf("str:%s[%d]", n, i), 8, false))
		}
		v.SetString(string(s))
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			v.Field(i).Set(b.build(n+"."+t.Field(i).Name, t.Field(i).Type))
		}
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			v.Index(i).Set(b.build(fmt.Sprintf("%s[%d]", n, i), t.Elem()))
		}
	case reflect.Ptr:
		p := reflect.New(t.Elem())
		p.Elem().Set(b.build(n, t.Elem()))
		v.Set(p)
	case reflect.Slice:
		l, ok := b.lens[n]
		if !ok || l < 0 {
			if b.scalar("isnil("+n+")", 1, false) != 0 {
				return v
			}
			l = int(b.scalar("len("+n+")", 20, false))
			if b.rnd != nil {
				l = b.rnd.Intn(40)
			}
			for _, x := range b.listed[n] {
				if int64(l) == x {
					l++
				}
			}
			if l > 1<<16 {
				l = 1 << 16
			}
		}
		s := reflect.MakeSlice(t, l, l)
		for i := 0; i < l; i++ {
			s.Index(i).Set(b.build(fmt.Sprintf("%s[%d]", n, i), t.Elem()))
		}
		v.Set(s)
	case reflect.Map:
		if b.scalar("isnil("+n+")", 1, false) != 0 {
			return v
		}
		m := reflect.MakeMap(t)
		for i := 0; ; i++ {
			p := fmt.Sprintf("app%d:map:%s!has:", i, n)
			if _, ok := b.model[p+"key"]; !ok {
				break
			}
			if b.model[p+"val"] == 0 {
				continue
			}
			k := fromBits(b.model[p+"key"], t.Key())
			val := reflect.New(t.Elem()).Elem()
			for j := 0; ; j++ {
				q := fmt.Sprintf("app%d:map:%s!val:", j, n)
				kk, ok := b.model[q+"key"]
				if !ok {
					break
				}
				if kk == b.model[p+"key"] {
					val = fromBits(b.model[q+"val"], t.Elem())
				}
			}
			m.SetMapIndex(k, val)
		}
		if b.rnd != nil && m.Len() == 0 {
			for i := b.rnd.Intn(3); i > 0; i-- {
				m.SetMapIndex(b.build(fmt.Sprintf("%s.k%d", n, i), t.Key()), b.build(fmt.Sprintf("%s.v%d", n, i), t.Elem()))
			}
		}
		// the model may require a non-empty map without naming an entry
		if b.rnd == nil && m.Len() == 0 && b.model["len("+n+")"] > 0 {
			k := reflect.New(t.Key()).Elem()
			m.SetMapIndex(k, reflect.New(t.Elem()).Elem())
		}
		v.Set(m)
	}
	return v
}

func fromBits(x uint64, t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(x != 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(x))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(x & (^uint64(0) >> uint(64-t.Bits())))
	case reflect.Array:
		n := t.Len()
		for i := 0; i < n; i++ {
			v.Index(i).Set(fromBits(x>>uint(8*(n-1-i)), t.Elem()))
		}
	}
	return v
}

func (b *builder) scalar(n string, w int, isF bool) uint64 {
	if x, ok := b.vals[n]; ok {
		return uint64(x)
	}
	return b.src(n, w, isF)
}

// run executes the contract once; it returns a description of the violation,
// or "" (skip tells that the precondition did not hold).
func run(r *vc.Reg, names []string, b *builder) (violation string, args []reflect.Value, skip bool) {
	vc.Failures = nil
	fnT := reflect.TypeOf(r.Spec)
	var target reflect.Value
	if r.Kind != "lemma" {
		target = reflect.ValueOf(r.Target)
		fnT = target.Type()
	}
	for i := 0; i < fnT.NumIn(); i++ {
		n := fmt.Sprintf("arg%d", i)
		if i < len(names) {
			n = names[i]
		}
		if r.Kind == "field" {
			n = "data"
		}
		args = append(args, b.build(n, fnT.In(i)))
	}
	before := dumpAll(args)
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(vc.Skip); ok {
				skip = true
				return
			}
			buf := make([]byte, 2048)
			buf = buf[:runtime.Stack(buf, false)]
			violation = fmt.Sprintf("panic: %v\n%s", x, buf)
		}
	}()
	switch r.Kind {
	case "lemma":
		reflect.ValueOf(r.Spec).Call(args)
		if len(vc.Failures) > 0 {
			return "false: " + strings.Join(vc.Failures, "; "), args, false
		}
		if dumpAll(args) != before {
			return "an input was modified", args, false
		}
		return "", args, false
	case "field":
		res := target.Call(args)
		want := vc.Bits(args[0].Bytes(), r.From, r.To)
		got := uint64(0)
		switch res[0].Kind() {
		case reflect.Bool:
			if res[0].Bool() {
				got = 1
			}
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			got = uint64(res[0].Int())
		default:
			got = res[0].Uint()
		}
		if got != uint64(want) {
			return fmt.Sprintf("returned %d, bits %d to %d of the message are %d", got, r.From, r.To, want), args, false
		}
		return "", args, false
	}
	// evaluate the precondition first, on zero results
	spec := reflect.ValueOf(r.Spec)
	var zero []reflect.Value
	zero = append(zero, args...)
	for i := 0; i < fnT.NumOut(); i++ {
		zero = append(zero, reflect.Zero(fnT.Out(i)))
	}
	if sk := preOnly(spec, zero); sk {
		return "", args, true
	}
	vc.Failures = nil
	res := target.Call(args)
	if dumpAll(args) != before {
		return "the function modified its input", args, false
	}
	if len(res) > 0 {
		d := dumpAll(res)
		undo := scramble(args)
		if undo != nil {
			d2 := dumpAll(res)
			undo()
			if d != d2 {
				return "the result refers to the memory of the input", args, false
			}
		}
	}
	vc.Failures = nil
	spec.Call(append(append([]reflect.Value(nil), args...), res...))
	if len(vc.Failures) > 0 {
		return "false: " + strings.Join(vc.Failures, "; ") + "\nresult: " + dumpAll(res), args, false
	}
	return "", args, false
}

func preOnly(spec reflect.Value, args []reflect.Value) (skip bool) {
	defer func() {
		if x := recover(); x != nil {
			_, skip = x.(vc.Skip)
		}
	}()
	spec.Call(args)
	return false
}

// scramble overwrites every byte slice among the arguments.
func scramble(args []reflect.Value) func() {
	var undo []func()
	var visit func(v reflect.Value, d int)
	visit = func(v reflect.Value, d int) {
		if d > 5 {
			return
		}
		switch v.Kind() {
		case reflect.Slice:
			if v.Type().Elem().Kind() == reflect.Uint8 && v.Len() > 0 {
				n := v.Len()
				save := make([]byte, n)
				for i := 0; i < n; i++ {
					save[i] = byte(v.Index(i).Uint())
					v.Index(i).SetUint(uint64(^save[i]))
				}
				undo = append(undo, func() {
					for i := 0; i < n; i++ {
						v.Index(i).SetUint(uint64(save[i]))
					}
				})
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				visit(v.Field(i), d+1)
			}
		}
	}
	for _, a := range args {
		visit(a, 0)
	}
	if undo == nil {
		return nil
	}
	return func() {
		for _, u := range undo {
			u()
		}
	}
}

func dumpAll(vs []reflect.Value) string {
	var sb strings.Builder
	for _, v := range vs {
		dump(&sb, v, 0)
		sb.WriteByte(' ')
	}
	return sb.String()
}

func dump(sb *strings.Builder, v reflect.Value, d int) {
	if d > 12 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Interface {
			sb.WriteString(v.Elem().Type().String() + ":")
		} else {
			sb.WriteByte('&')
		}
		dump(sb, v.Elem(), d+1)
	case reflect.Struct:
		sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(v.Type().Field(i).Name + ":")
			dump(sb, v.Field(i), d+1)
		}
		sb.WriteByte('}')
	case reflect.Slice, reflect.Array:
		sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				sb.WriteByte(' ')
			}
			dump(sb, v.Index(i), d+1)
		}
		sb.WriteByte(']')
	case reflect.Map:
		var ks []string
		for _, k := range v.MapKeys() {
			var s strings.Builder
			dump(&s, k, d+1)
			s.WriteByte(':')
			dump(&s, v.MapIndex(k), d+1)
			ks = append(ks, s.String())
		}
		sort.Strings(ks)
		sb.WriteString("map[" + strings.Join(ks, " ") + "]")
	case reflect.Bool:
		fmt.Fprint(sb, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(sb, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(sb, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(sb, v.Float())
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Func, reflect.Chan:
		fmt.Fprint(sb, v.IsNil())
	}
}

func listed(r *vc.Reg) map[string][]int64 {
	m := map[string][]int64{}
	for _, o := range r.Opts {
		if o.Kind == "len" {
			m[o.Name] = o.Args
		}
	}
	return m
}

func modelSource(m map[string]uint64) source {
	return func(n string, w int, f bool) uint64 { return m[n] }
}

// randomSource draws values, biased towards boundary patterns and towards the
// neighbourhood of base.
func randomSource(rnd *rand.Rand, base, rec map[string]uint64) source {
	mode := rnd.Intn(6)
	var drawn []float64 // floats, as they are often related
	related := rnd.Intn(2) == 0
	return func(n string, w int, isF bool) uint64 {
		var x uint64
		switch {
		case isF:
			y := 0.0
			switch rnd.Intn(6) {
			case 0:
				y = float64(rnd.Intn(721) - 360)
			case 1:
				y = (rnd.Float64() - 0.5) * 720
			case 2:
				y = (rnd.Float64() - 0.5) * 180
			case 3:
				y = float64(rnd.Intn(181)-90) + (rnd.Float64()-0.5)*1e-6
			case 4:
				y = float64(rnd.Intn(61)-30) * 6
			default:
				y = (rnd.Float64() - 0.5) * 360
			}
			if related && len(drawn) > 0 {
				z := drawn[rnd.Intn(len(drawn))]
				if len(drawn) > 1 {
					z = drawn[len(drawn)-2]
				}
				switch rnd.Intn(6) {
				case 0:
					y = z
				case 1:
					y = -z
				case 2:
					y = z + 180
				case 3:
					y = z - 180
				case 4:
					y = z + (rnd.Float64()-0.5)*1e-3
				}
			}
			drawn = append(drawn, y)
			x = math.Float64bits(y)
			if w == 32 {
				x = uint64(math.Float32bits(float32(y)))
			}
		case base != nil && mode < 3:
			x = base[n]
			if rnd.Intn(4) == 0 {
				x ^= 1 << uint(rnd.Intn(w))
			}
		case mode == 3:
			switch rnd.Intn(5) {
			case 0:
				x = 0
			case 1:
				x = ^uint64(0)
			case 2:
				x = 1 << uint(rnd.Intn(w))
			default:
				x = rnd.Uint64()
			}
		case mode == 4:
			x = rnd.Uint64() & rnd.Uint64()
		default:
			x = rnd.Uint64()
		}
		if w < 64 {
			x &= 1<<uint(w) - 1
		}
		rec[n] = x
		return x
	}
}

func caseCombos(r *vc.Reg, rnd *rand.Rand) (map[string]int, map[string]int64) {
	lens := map[string]int{}
	vals := map[string]int64{}
	if r.Kind == "field" {
		lens["data"] = 7
	}
	for _, o := range r.Opts {
		switch o.Kind {
		case "len":
			lens[o.Name] = int(o.Args[rnd.Intn(len(o.Args))])
		case "range":
			vals[o.Name] = o.Args[0] + rnd.Int63n(o.Args[1]-o.Args[0]+1)
		}
	}
	return lens, vals
}

// Main is the entry point of the generated replay program.
func Main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: replay run FILE | search FILE SECONDS | cross FILE SECONDS")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run", "search":
		raw, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var c Case
		if err := json.Unmarshal(raw, &c); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		r := lookup(c.Contract)
		if r == nil {
			fmt.Fprintln(os.Stderr, "no such contract:", c.Contract)
			os.Exit(2)
		}
		if os.Args[1] == "run" {
			b := &builder{src: modelSource(c.Model), lens: c.Lens, vals: c.Vals, listed: listed(r), model: c.Model}
			v, args, skip := run(r, c.Params, b)
			if v == "" {
				fmt.Println("not reproduced, skip =", skip, "arguments:", dumpAll(args))
				os.Exit(0)
			}
			fmt.Printf("arguments: %s\n%s\n", dumpAll(args), v)
			os.Exit(1)
		}
		secs, _ := strconv.ParseFloat(os.Args[3], 64)
		deadline := time.Now().Add(time.Duration(secs * float64(time.Second)))
		rnd := rand.New(rand.NewSource(seed()))
		n := 0
		for time.Now().Before(deadline) {
			n++
			lens, vals := c.Lens, c.Vals
			if n%3 == 0 || (len(lens) == 0 && len(vals) == 0) {
				lens, vals = caseCombos(r, rnd)
			}
			rec := map[string]uint64{}
			b := &builder{src: randomSource(rnd, c.Model, rec), lens: lens, vals: vals, listed: listed(r), rnd: rnd}
			v, args, _ := run(r, c.Params, b)
			if v != "" {
				for k, s := range args {
					if s.Kind() == reflect.Slice && k < len(c.Params) {
						rec["len("+c.Params[k]+")"] = uint64(s.Len())
					}
				}
				c.Model, c.Lens, c.Vals = rec, lens, vals
				c.Found = "random search around the solver's output"
				c.Observed = "arguments: " + dumpAll(args) + "\n" + v
				out, _ := json.MarshalIndent(c, "", " ")
				os.WriteFile(os.Args[2], append(out, '\n'), 0o644)
				fmt.Println(c.Observed)
				os.Exit(1)
			}
		}
		fmt.Println("no failing input in", n, "trials")
	case "cross":
		secs, _ := strconv.ParseFloat(os.Args[3], 64)
		total, skipped := 0, 0
		raw, err := os.ReadFile(os.Args[2])
		var cs []Case
		if err == nil {
			err = json.Unmarshal(raw, &cs)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for i, c := range cs {
			r := lookup(c.Contract)
			if r == nil {
				continue
			}
			rnd := rand.New(rand.NewSource(seed() + int64(i)))
			deadline := time.Now().Add(time.Duration(secs * float64(time.Second)))
			for time.Now().Before(deadline) {
				for k := 0; k < 50; k++ {
					lens, vals := caseCombos(r, rnd)
					rec := map[string]uint64{}
					b := &builder{src: randomSource(rnd, nil, rec), lens: lens, vals: vals, listed: listed(r), rnd: rnd}
					v, args, skip := run(r, c.Params, b)
					total++
					if skip {
						skipped++
					}
					if v != "" {
						fmt.Printf("DISAGREE %s arguments: %s\n%s\n", c.Contract, dumpAll(args), v)
						os.Exit(1)
					}
				}
			}
		}
		fmt.Printf("TRIALS %d SKIPPED %d\n", total, skipped)
	}
}

func seed() int64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

package vc

import "runtime"

func add(r *Reg) bool {
	_, r.File, r.Line, _ = runtime.Caller(2)
	Regs = append(Regs, r)
	return true
}

// Contract attaches a specification to a function.
func Contract(props string, target, spec interface{}, opts ...Opt) bool {
	return add(&Reg{Kind: "contract", Props: props, Target: target, Spec: spec, Opts: opts})
}

// Field states that a reader returns the given bits of the message.
func Field(props string, target interface{}, from, to int, opts ...Opt) bool {
	return add(&Reg{Kind: "field", Props: props, Target: target, From: from, To: to, Opts: opts})
}

// Lemma is a statement about several calls of the real code.
func Lemma(props, name string, spec interface{}, opts ...Opt) bool {
	return add(&Reg{Kind: "lemma", Props: props, Name: name, Spec: spec, Opts: opts})
}

// Len fixes the lengths of a slice parameter that are considered; -1 stands
// for every length not listed.
func Len(name string, lens ...int64) Opt { return Opt{Kind: "len", Name: name, Args: lens} }

// Range makes the verifier treat each value of a scalar parameter separately.
func Range(name string, lo, hi int64) Opt {
	return Opt{Kind: "range", Name: name, Args: []int64{lo, hi}}
}

// NotModular: callers look through the function instead of using the contract.
func NotModular() Opt { return Opt{Kind: "notmodular"} }

// Opaque: callers may treat the text the function returns as arbitrary.
func Opaque() Opt { return Opt{Kind: "opaque"} }

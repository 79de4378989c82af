// Package vc is the contract language: contracts are Go functions over the
// arguments and the results of the function they specify. The verifier
// executes them symbolically; the replay tool runs them natively.
package vc

// Opt restricts or splits the inputs a contract quantifies over.
type Opt struct {
	Kind string
	Name string
	Args []int64
}

// Reg is a registered contract.
type Reg struct {
	Kind     string // contract, field, lemma
	Props    string
	Name     string
	Target   interface{}
	Spec     interface{}
	From, To int
	Opts     []Opt
	File     string
	Line     int
}

// Regs lists all registrations of the program.
var Regs []*Reg

// Requires states a precondition.
func Requires(b bool) {
	if !b {
		panic(Skip{})
	}
}

// Skip is raised natively when a precondition is false.
type Skip struct{}

// Failures collects the labels of the postconditions found false.
var Failures []string

// Ensures states a postcondition.
func Ensures(label string, b bool) {
	if !b {
		Failures = append(Failures, label)
	}
}

// Bits reads the bits from..to of a message, bit 1 being the most significant
// bit of the first byte, most significant bit first.
func Bits(data []byte, from, to int) uint32 {
	v := uint32(0)
	for b := from; b <= to; b++ {
		v = v<<1 | uint32(data[(b-1)/8]>>uint(7-(b-1)%8)&1)
	}
	return v
}

// Bit reads one bit.
func Bit(data []byte, n int) bool { return Bits(data, n, n) == 1 }

// Imp is implication.
func Imp(a, b bool) bool { return !a || b }

// Near: a and b differ by at most eps.
func Near(a, b, eps float64) bool {
	d := a - b
	return d <= eps && -d <= eps
}

// Package std holds the definitions of the Mode S standards the contracts
// refer to, written from ICAO Annex 10 volumes III and IV and Doc 9871.
package std

// GrayToBinary decodes a reflected binary code.
func GrayToBinary(g uint32) uint32 {
	b := g
	for s := uint(1); s < 16; s <<= 1 {
		b ^= b >> s
	}
	return b
}

// Gillham decodes an altitude transmitted as D1..C4 pulses (Annex 10 volume
// IV, appendix to chapter 3). ok is false when the C pulses are not a code.
func Gillham(d1, d2, d4, a1, a2, a4, b1, b2, b4, c1, c2, c4 uint32) (feet int32, ok bool) {
	n500 := GrayToBinary(d1<<8 | d2<<7 | d4<<6 | a1<<5 | a2<<4 | a4<<3 | b1<<2 | b2<<1 | b4)
	// the C pulses cycle 001 011 010 110 100 within each 500 ft band, and
	// run backwards in every other band
	c := c1<<2 | c2<<1 | c4
	var n100 int32
	switch c {
	case 1:
		n100 = 1
	case 3:
		n100 = 2
	case 2:
		n100 = 3
	case 6:
		n100 = 4
	case 4:
		n100 = 5
	default:
		return 0, false
	}
	if n500%2 == 1 {
		n100 = 6 - n100
	}
	return int32(n500)*500 + n100*100 - 1300, true
}

// The ways an altitude code reports an altitude.
const (
	None   = 0
	Metric = 1
	Ft100  = 2
	Ft25   = 3
)

// AC13 decodes the 13-bit altitude code of surveillance replies:
// C1 A1 C2 A2 C4 A4 M B1 Q B2 D2 B4 D4.
func AC13(ac uint32) (feet int32, how int, ok bool) {
	b := func(k uint) uint32 { return ac >> (12 - k) & 1 }
	switch {
	case ac == 0:
		return 0, None, true
	case b(6) == 1:
		return 0, Metric, true
	case b(8) == 1:
		n := ac>>7<<5 | b(7)<<4 | ac&15
		return int32(n)*25 - 1000, Ft25, true
	}
	feet, ok = Gillham(0, b(10), b(12), b(1), b(3), b(5), b(7), b(9), b(11), b(0), b(2), b(4))
	return feet, Ft100, ok
}

// AC12 decodes the 12-bit altitude of airborne position messages, which is
// the 13-bit code without the M bit.
func AC12(ac uint32) (feet int32, how int, ok bool) {
	return AC13(ac>>6<<7 | ac&0x3F)
}

// Squawk decodes the 13-bit identity code C1 A1 C2 A2 C4 A4 X B1 D1 B2 D2 B4 D4
// into its four octal digits.
func Squawk(id uint32) (a, b, c, d uint32) {
	x := func(k uint) uint32 { return id >> (12 - k) & 1 }
	a = x(5)<<2 | x(3)<<1 | x(1)
	b = x(11)<<2 | x(9)<<1 | x(7)
	c = x(4)<<2 | x(2)<<1 | x(0)
	d = x(12)<<2 | x(10)<<1 | x(8)
	return
}

// Parity is the Mode S parity of n message bits: the remainder of the message
// polynomial times x^24 divided by the generator 1FFF409 (hexadecimal).
func Parity(data []byte) uint32 {
	r := uint32(0)
	for _, x := range data {
		for k := 7; k >= 0; k-- {
			top := r >> 23 & 1
			r = r << 1 & 0xFFFFFF
			if top != uint32(x)>>uint(k)&1 {
				r ^= 0xFFF409
			}
		}
	}
	return r
}

// ThreatAltitude decodes the 13-bit altitude of a threat (Annex 10 volume IV,
// 4.3.8.4.2.2.1.6.1): C1 A1 C2 A2 C4 A4 - B1 D1 B2 D2 B4 D4. All zero means
// that the altitude is not known.
func ThreatAltitude(code uint32) (feet int32, known, ok bool) {
	if code&^0x40 == 0 {
		return 0, false, true
	}
	x := func(k uint) uint32 { return code >> (12 - k) & 1 }
	feet, ok = Gillham(x(8), x(10), x(12), x(1), x(3), x(5), x(7), x(9), x(11), x(0), x(2), x(4))
	return feet, true, ok
}

// Character decodes a six-bit character of an aircraft identification (Annex
// 10 volume IV, table 3-9): letters, digits and space. Every other code is
// rendered as a hash.
func Character(code uint32) byte {
	switch {
	case 1 <= code && code <= 26:
		return 'A' + byte(code-1)
	case code == 32:
		return ' '
	case 48 <= code && code <= 57:
		return '0' + byte(code-48)
	}
	return '#'
}

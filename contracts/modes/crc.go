package modes

import (
	"github.com/twuillemin/modes/pkg/modes/common"
	"github.com/twuillemin/modes/pkg/modes/reader"
	"verif/contracts/std"
	"verif/contracts/vc"
)

// P04: the parity check.
func parityOf(data []byte) (crc, sent uint32) {
	n := len(data)
	return std.Parity(data[:n-3]), vc.Bits(data, 8*n-23, 8*n)
}

func known(m map[common.ICAOAddress]bool, a uint32) bool {
	if len(m) == 0 {
		return true
	}
	_, ok := m[common.ICAOAddress(a)]
	return ok
}

var _ = vc.Lemma("P04", "parity of DF17 and DF18", func(data []byte, allowed, allowedII map[common.ICAOAddress]bool) {
	m, err := reader.ReadMessage(data)
	if err != nil {
		return
	}
	if df := data[0] >> 3; df != 17 && df != 18 {
		return
	}
	a, err := reader.CheckCRC(m, data, allowed, allowedII)
	crc, sent := parityOf(data)
	vc.Ensures("accepted exactly when the remainder matches", (err == nil) == (crc == sent))
	vc.Ensures("the announced address is returned", vc.Imp(err == nil, uint32(a) == vc.Bits(data, 9, 32)))
	vc.Ensures("no address with an error", vc.Imp(err != nil, a == 0))
}, vc.Len("data", 14))

var _ = vc.Lemma("P04", "parity of DF11", func(data []byte, allowed, allowedII map[common.ICAOAddress]bool) {
	m, err := reader.ReadMessage(data)
	if err != nil || data[0]>>3 != 11 {
		return
	}
	ii, err := reader.CheckCRC(m, data, allowed, allowedII)
	crc, sent := parityOf(data)
	vc.Ensures("accepted exactly when the interrogator is known or no list is given", (err == nil) == known(allowedII, crc^sent))
	vc.Ensures("the interrogator identifier is the overlay", vc.Imp(err == nil, uint32(ii) == crc^sent))
	vc.Ensures("no identifier with an error", vc.Imp(err != nil, ii == 0))
}, vc.Len("data", 7))

var _ = vc.Lemma("P04", "parity of the other formats", func(data []byte, allowed, allowedII map[common.ICAOAddress]bool) {
	m, err := reader.ReadMessage(data)
	if err != nil {
		return
	}
	if df := data[0] >> 3; df == 11 || df == 17 || df == 18 {
		return
	}
	a, err := reader.CheckCRC(m, data, allowed, allowedII)
	crc, sent := parityOf(data)
	vc.Ensures("accepted exactly when the address is known or no list is given", (err == nil) == known(allowed, crc^sent))
	vc.Ensures("the address is the overlay", vc.Imp(err == nil, uint32(a) == crc^sent))
	vc.Ensures("no address with an error", vc.Imp(err != nil, a == 0))
}, vc.Len("data", 7, 14))

func squitterOK(data []byte) bool {
	m, err := reader.ReadMessage(data)
	if err != nil {
		return false
	}
	if df := data[0] >> 3; df != 17 && df != 18 {
		return false
	}
	_, err = reader.CheckCRC(m, data, nil, nil)
	return err == nil
}

var _ = vc.Lemma("P04", "a corruption confined to 24 consecutive bits of an extended squitter is detected", func(data []byte, pattern uint32, shift int) {
	bad := make([]byte, 14)
	for i := range bad {
		bad[i] = data[i]
	}
	for k := 0; k < 24; k++ {
		bit := shift + k
		bad[bit/8] ^= byte(pattern>>uint(k)&1) << uint(7-bit%8)
	}
	both := squitterOK(data) && squitterOK(bad)
	vc.Ensures("two valid squitters do not differ by such a burst", vc.Imp(both, pattern&0xFFFFFF == 0))
}, vc.Len("data", 14), vc.Range("shift", 0, 88))

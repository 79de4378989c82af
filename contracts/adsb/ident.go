package adsb

import (
	"github.com/twuillemin/modes/pkg/adsb"
	aid "github.com/twuillemin/modes/pkg/adsb/aircraft_identification_and_category"
	"github.com/twuillemin/modes/pkg/adsb/reader"
	f08 "github.com/twuillemin/modes/pkg/bds/bds08/fields"
	"github.com/twuillemin/modes/pkg/bds/bds20"
	"verif/contracts/std"
	"verif/contracts/vc"
)

// P12: identification. Bits 9 to 56 are eight characters of six bits.
func characters(text string, data []byte) bool {
	vc.Ensures("eight characters", len(text) == 8)
	if len(text) != 8 {
		return false
	}
	good := true
	for i := 0; i < 8; i++ {
		c := std.Character(vc.Bits(data, 9+6*i, 14+6*i))
		vc.Ensures("each character is that of its six bits", text[i] == c)
		good = good && c != '#'
	}
	return good
}

var _ = vc.Lemma("P12", "aircraft identification and category", func(level adsb.ADSBVersion, nicA, nicC bool, data []byte) {
	m, err := reader.ReadADSBMessage(level, nicA, nicC, data)
	if err != nil {
		return
	}
	x, ok := m.(*aid.AircraftIdentificationAndCategory)
	if !ok {
		return
	}
	tc, cat := vc.Bits(data, 1, 5), vc.Bits(data, 6, 8)
	vc.Ensures("type code", uint32(x.FormatTypeCode) == tc)
	sane := true
	switch c := x.Category.(type) {
	case f08.AircraftCategorySetA:
		vc.Ensures("category of set A", tc == 4 && uint32(c) == cat)
	case f08.AircraftCategorySetB:
		vc.Ensures("category of set B", tc == 3 && uint32(c) == cat)
	case f08.AircraftCategorySetC:
		vc.Ensures("category of set C", tc == 2 && uint32(c) == cat)
		sane = cat <= 3
	case f08.AircraftCategorySetD:
		vc.Ensures("category of set D", tc == 1 && uint32(c) == cat)
		sane = false
	default:
		vc.Ensures("the category is of one of four sets", false)
	}
	good := characters(x.Identification, data)
	vc.Ensures("coherent exactly without unassigned characters and reserved categories", (x.CheckCoherency() == nil) == (good && sane))
}, vc.Len("data", 7))

var _ = vc.Lemma("P12", "aircraft identification of BDS 2,0", func(data []byte) {
	x, err := bds20.ReadAircraftIdentification(data)
	vc.Ensures("accepted exactly with its code", (err == nil) == (data[0] == 0x20))
	if err != nil {
		return
	}
	good := characters(x.Identification, data)
	vc.Ensures("coherent exactly without unassigned characters", (x.CheckCoherency() == nil) == good)
}, vc.Len("data", 7))

var _ = vc.Lemma("P12", "identification registers of any other length are refused", func(data []byte) {
	_, err := bds20.ReadAircraftIdentification(data)
	vc.Ensures("accepted only with 7 bytes", vc.Imp(err == nil, len(data) == 7))
}, vc.Len("data", 7, -1))

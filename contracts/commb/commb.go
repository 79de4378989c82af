// Package commb holds the contracts of the Comm-B inference and registers.
package commb

import (
	"github.com/twuillemin/modes/pkg/bds"
	"github.com/twuillemin/modes/pkg/bds/bds07"
	"github.com/twuillemin/modes/pkg/bds/bds10"
	"github.com/twuillemin/modes/pkg/bds/bds17"
	"github.com/twuillemin/modes/pkg/bds/bds20"
	"github.com/twuillemin/modes/pkg/bds/bds30"
	"github.com/twuillemin/modes/pkg/bds/bds40"
	"github.com/twuillemin/modes/pkg/bds/bds44"
	"github.com/twuillemin/modes/pkg/bds/bds45"
	"github.com/twuillemin/modes/pkg/bds/bds50"
	"github.com/twuillemin/modes/pkg/bds/bds60"
	"github.com/twuillemin/modes/pkg/commb"
	"verif/contracts/vc"
)

// P01: every payload is analysed, and everything it may be is rendered,
// without a panic.
var _ = vc.Lemma("P01", "Comm-B: reading any bytes returns", func(data []byte) {
	ms, err := commb.ReadCommBMessage(data)
	if err != nil {
		_ = err.Error()
		return
	}
	for _, m := range ms {
		_ = m.GetRegister()
	}
}, vc.Len("data", 7, -1))

func show(m bds.Message, err error) {
	if err != nil {
		_ = err.Error()
		return
	}
	_ = m.GetRegister().ToString()
	_ = m.ToString()
	_ = m.CheckCoherency()
}

var _ = vc.Lemma("P01", "Comm-B: rendering BDS 0,7", func(data []byte) { m, err := bds07.ReadStatus(data); show(m, err) }, vc.Len("data", 7, -1))
var _ = vc.Lemma("P01", "Comm-B: rendering BDS 1,0", func(data []byte) { m, err := bds10.ReadDataLinkCapabilityReport(data); show(m, err) }, vc.Len("data", 7, -1))
var _ = vc.Lemma("P01", "Comm-B: rendering BDS 1,7", func(data []byte) { m, err := bds17.ReadCommonUsageGICBCapabilityReport(data); show(m, err) }, vc.Len("data", 7, -1))
var _ = vc.Lemma("P01", "Comm-B: rendering BDS 2,0", func(data []byte) { m, err := bds20.ReadAircraftIdentification(data); show(m, err) }, vc.Len("data", 7, -1))
var _ = vc.Lemma("P01", "Comm-B: rendering BDS 3,0", func(data []byte) { m, err := bds30.ReadACASResolutionAdvisory(data); show(m, err) }, vc.Len("data", 7, -1))
var _ = vc.Lemma("P01", "Comm-B: rendering BDS 4,0", func(data []byte) { m, err := bds40.ReadSelectedVerticalIntention(data); show(m, err) }, vc.Len("data", 7, -1))
var _ = vc.Lemma("P01", "Comm-B: rendering BDS 4,4", func(data []byte) { m, err := bds44.ReadMeteorologicalRoutineAirReport(data); show(m, err) }, vc.Len("data", 7, -1))
var _ = vc.Lemma("P01", "Comm-B: rendering BDS 4,5", func(data []byte) { m, err := bds45.ReadMeteorologicalHazardReport(data); show(m, err) }, vc.Len("data", 7, -1))
var _ = vc.Lemma("P01", "Comm-B: rendering BDS 5,0", func(data []byte) { m, err := bds50.ReadTrackAndTurnReport(data); show(m, err) }, vc.Len("data", 7, -1))
var _ = vc.Lemma("P01", "Comm-B: rendering BDS 6,0", func(data []byte) { m, err := bds60.ReadHeadingAndSpeedReport(data); show(m, err) }, vc.Len("data", 7, -1))

func zeros(data []byte, from, to int) bool {
	for b := from; b <= to; b++ {
		if vc.Bit(data, b) {
			return false
		}
	}
	return true
}

// P16: what the inference offers.

var _ = vc.Lemma("P16", "refused lengths", func(data []byte) {
	_, err := commb.ReadCommBMessage(data)
	vc.Ensures("payloads are accepted only with 7 bytes", vc.Imp(err == nil, len(data) == 7))
}, vc.Len("data", 7, -1))

var _ = vc.Lemma("P16", "inference", func(data []byte) {
	ms, err := commb.ReadCommBMessage(data)
	vc.Ensures("every payload of 7 bytes is accepted", err == nil)

	m07, e07 := bds07.ReadStatus(data)
	m20, e20 := bds20.ReadAircraftIdentification(data)
	m10, e10 := bds10.ReadDataLinkCapabilityReport(data)
	m17, e17 := bds17.ReadCommonUsageGICBCapabilityReport(data)
	m30, e30 := bds30.ReadACASResolutionAdvisory(data)
	m40, e40 := bds40.ReadSelectedVerticalIntention(data)
	m44, e44 := bds44.ReadMeteorologicalRoutineAirReport(data)
	m45, e45 := bds45.ReadMeteorologicalHazardReport(data)
	m50, e50 := bds50.ReadTrackAndTurnReport(data)
	m60, e60 := bds60.ReadHeadingAndSpeedReport(data)

	empty := zeros(data, 1, 56)
	only07 := !empty && e07 == nil && m07.CheckCoherency() == nil
	only20 := !empty && !only07 && e20 == nil && m20.CheckCoherency() == nil
	open := !empty && !only07 && !only20
	ok10 := open && e10 == nil && m10.CheckCoherency() == nil
	ok17 := open && e17 == nil && m17.CheckCoherency() == nil
	ok30 := open && e30 == nil && m30.CheckCoherency() == nil
	ok40 := open && e40 == nil && m40.CheckCoherency() == nil
	ok44 := open && e44 == nil && m44.CheckCoherency() == nil
	ok45 := open && e45 == nil && m45.CheckCoherency() == nil
	ok50 := open && e50 == nil && m50.CheckCoherency() == nil
	ok60 := open && e60 == nil && m60.CheckCoherency() == nil

	total := 0
	n00, n07, n10, n17, n20, n30, n40, n44, n45, n50, n60 := 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0
	for _, m := range ms {
		total++
		switch m.GetRegister().GetId() {
		case "BDS 0,0":
			n00++
		case "BDS 0,7":
			n07++
		case "BDS 1,0":
			n10++
		case "BDS 1,7":
			n17++
		case "BDS 2,0":
			n20++
		case "BDS 3,0":
			n30++
		case "BDS 4,0":
			n40++
		case "BDS 4,4":
			n44++
		case "BDS 4,5":
			n45++
		case "BDS 5,0":
			n50++
		case "BDS 6,0":
			n60++
		default:
			vc.Ensures("only the registers of the inference are offered", false)
		}
	}
	one := func(n int, b bool) bool { return b && n == 1 || !b && n == 0 }
	vc.Ensures("no message exactly for 7 zero bytes", one(n00, empty))
	vc.Ensures("status, alone, exactly when it is readable and coherent", one(n07, only07) && vc.Imp(only07, total == 1))
	vc.Ensures("identification, alone, exactly when it is readable and coherent", one(n20, only20) && vc.Imp(only20, total == 1))
	vc.Ensures("no message is alone", vc.Imp(empty, total == 1))
	vc.Ensures("BDS 1,0 exactly when readable and coherent", one(n10, ok10))
	vc.Ensures("BDS 1,7 exactly when readable and coherent", one(n17, ok17))
	vc.Ensures("BDS 3,0 exactly when readable and coherent", one(n30, ok30))
	vc.Ensures("BDS 4,0 exactly when readable and coherent", one(n40, ok40))
	vc.Ensures("BDS 4,4 exactly when readable and coherent", one(n44, ok44))
	vc.Ensures("BDS 4,5 exactly when readable and coherent", one(n45, ok45))
	vc.Ensures("BDS 5,0 exactly when readable and coherent", one(n50, ok50))
	vc.Ensures("BDS 6,0 exactly when readable and coherent", one(n60, ok60))
}, vc.Len("data", 7))

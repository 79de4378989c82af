// Package acas holds the contracts of the ACAS resolution advisories.
package acas

import (
	"github.com/twuillemin/modes/pkg/acas/ra"
	"github.com/twuillemin/modes/pkg/acas/ra/fields"
	"github.com/twuillemin/modes/pkg/adsb"
	ast "github.com/twuillemin/modes/pkg/adsb/aircraft_status"
	"github.com/twuillemin/modes/pkg/adsb/reader"
	"github.com/twuillemin/modes/pkg/bds/bds30"
	"github.com/twuillemin/modes/pkg/bds/bds61"
	"verif/contracts/std"
	"verif/contracts/vc"
)

// P01: every advisory is decoded and rendered without a panic.
var _ = vc.Lemma("P01", "ACAS: reading and rendering any bytes returns", func(data []byte) {
	m, err := ra.ReadResolutionAdvisory(data)
	if err != nil {
		_ = err.Error()
		return
	}
	_ = m.ToString()
	if m.ThreatIdentityRange != nil {
		_ = m.ThreatIdentityRange.GetRange()
	}
	if m.ThreatIdentityBearing != nil {
		_ = m.ThreatIdentityBearing.GetBearing()
	}
}, vc.Len("data", 6, -1))

// advisory states the layout of an advisory; bit n of the advisory is bit
// off+n of data.
func advisory(m ra.ResolutionAdvisory, data []byte, off int) {
	bit := func(n int) bool { return vc.Bit(data, off+n) }
	field := func(a, b int) uint32 { return vc.Bits(data, off+a, off+b) }
	switch x := m.ActiveRA.(type) {
	case *fields.ActiveRAOneThreatOrSameSeparation:
		vc.Ensures("single threat advisories have bit 1 set", bit(1))
		vc.Ensures("corrective is bit 2", (x.PreventiveCorrective == fields.ActiveRACorrective) == bit(2) && (x.PreventiveCorrective == fields.ActiveRAPreventive) == !bit(2))
		vc.Ensures("downward sense is bit 3", (x.Sense == fields.ActiveRASenseDownward) == bit(3) && (x.Sense == fields.ActiveRASenseUpward) == !bit(3))
		vc.Ensures("increased rate is bit 4", x.IsIncreasedRate == bit(4))
		vc.Ensures("sense reversal is bit 5", x.IsSenseReversal == bit(5))
		vc.Ensures("altitude crossing is bit 6", x.IsAltitudeCrossing == bit(6))
		vc.Ensures("positive is bit 7", (x.VerticalSpeedLimitOrPositive == fields.ActiveRAPositive) == bit(7) && (x.VerticalSpeedLimitOrPositive == fields.ActiveRAVerticalSpeedLimit) == !bit(7))
		vc.Ensures("type of a single threat advisory", m.ActiveRA.GetType() == fields.OneThreatOrSameSeparation)
	case *fields.ActiveRAMultipleThreatsDifferentSeparation:
		vc.Ensures("multiple threat advisories have bit 1 clear and bit 20 set", !bit(1) && bit(20))
		vc.Ensures("upward correction is bit 2", x.RequiresCorrectionUpwardSense == bit(2))
		vc.Ensures("positive climb is bit 3", x.RequiresPositiveClimb == bit(3))
		vc.Ensures("downward correction is bit 4", x.RequiresCorrectionDownwardSense == bit(4))
		vc.Ensures("positive descend is bit 5", x.RequiresPositiveDescend == bit(5))
		vc.Ensures("crossing is bit 6", x.RequiresCrossing == bit(6))
		vc.Ensures("sense reversal of multiple threats is bit 7", x.IsSenseReversal == bit(7))
		vc.Ensures("type of a multiple threat advisory", m.ActiveRA.GetType() == fields.MultipleThreatDifferentSeparation)
	default:
		vc.Ensures("no advisory exactly with bits 1 and 20 clear", !bit(1) && !bit(20))
		vc.Ensures("type of no advisory", m.ActiveRA.GetType() == fields.NoVerticalRAGenerated)
	}
	vc.Ensures("do not pass below is bit 15", m.RAComplement.DoNotPassBelow == bit(15))
	vc.Ensures("do not pass above is bit 16", m.RAComplement.DoNotPassAbove == bit(16))
	vc.Ensures("do not turn left is bit 17", m.RAComplement.DoNotTurnLeft == bit(17))
	vc.Ensures("do not turn right is bit 18", m.RAComplement.DoNotTurnRight == bit(18))
	vc.Ensures("terminated is bit 19", uint32(m.RATerminatedIndicator) == field(19, 19))
	vc.Ensures("multiple threats is bit 20", uint32(m.MultipleThreatEncounter) == field(20, 20))
	tti := field(21, 22)
	vc.Ensures("threat type is bits 21 and 22", uint32(m.ThreatTypeIndicator) == tti)
	vc.Ensures("an address is given exactly with threat type 1", (m.ThreatIdentityAddress != nil) == (tti == 1))
	vc.Ensures("altitude, range and bearing are given exactly with threat type 2",
		(m.ThreatIdentityAltitude != nil) == (tti == 2) && (m.ThreatIdentityRange != nil) == (tti == 2) && (m.ThreatIdentityBearing != nil) == (tti == 2))
	if m.ThreatIdentityAddress != nil {
		vc.Ensures("the address is bits 23 to 46", uint32(*m.ThreatIdentityAddress) == field(23, 46))
	}
	if m.ThreatIdentityAltitude != nil {
		feet, known, _ := std.ThreatAltitude(field(23, 35))
		vc.Ensures("threat altitude", m.ThreatIdentityAltitude.AltitudeInFeet == feet)
		vc.Ensures("threat altitude status", (m.ThreatIdentityAltitude.AltitudeStatus == fields.AltitudeValid) == known && (m.ThreatIdentityAltitude.AltitudeStatus == fields.AltitudeInvalid) == !known)
	}
	if m.ThreatIdentityRange != nil {
		vc.Ensures("the range is bits 36 to 42", uint32(*m.ThreatIdentityRange) == field(36, 42))
	}
	if m.ThreatIdentityBearing != nil {
		vc.Ensures("the bearing is bits 43 to 48", uint32(*m.ThreatIdentityBearing) == field(43, 48))
	}
}

// readable: the altitude of the threat, if there is one, can be decoded.
func readable(data []byte, off int) bool {
	_, _, ok := std.ThreatAltitude(vc.Bits(data, off+23, off+35))
	return ok || vc.Bits(data, off+21, off+22) != 2
}

var _ = vc.Lemma("P15", "resolution advisory", func(data []byte) {
	m, err := ra.ReadResolutionAdvisory(data)
	vc.Ensures("accepted exactly when the altitude of the threat can be decoded", (err == nil) == readable(data, 0))
	vc.Ensures("a message exactly without error", (err == nil) == (m != nil))
	if err == nil {
		advisory(*m, data, 0)
	}
}, vc.Len("data", 6))

var _ = vc.Lemma("P15", "advisories of any other length are refused", func(data []byte) {
	_, err := ra.ReadResolutionAdvisory(data)
	vc.Ensures("accepted only with 6 bytes", vc.Imp(err == nil, len(data) == 6))
}, vc.Len("data", 6, -1))

var _ = vc.Lemma("P15", "advisory of BDS 3,0", func(data []byte) {
	m, err := bds30.ReadACASResolutionAdvisory(data)
	vc.Ensures("BDS 3,0 is accepted exactly with its code and a readable advisory", (err == nil) == (data[0] == 0x30 && readable(data, 8)))
	if err == nil {
		advisory(m.ResolutionAdvisory, data, 8)
	}
}, vc.Len("data", 7))

var _ = vc.Lemma("P15", "advisory of an ADS-B aircraft status", func(level adsb.ADSBVersion, nicA, nicC bool, data []byte) {
	m, err := reader.ReadADSBMessage(level, nicA, nicC, data)
	if err != nil {
		return
	}
	s, ok := m.(*ast.AircraftStatus)
	if !ok {
		return
	}
	x, ok := s.AircraftStatus.(*bds61.AircraftStatusACAS)
	if !ok {
		return
	}
	advisory(x.ResolutionAdvisory, data, 8)
}, vc.Len("data", 7))

var _ = vc.Contract("P15", fields.ThreatIdentityRange.GetRange, func(r fields.ThreatIdentityRange, nm float64) {
	vc.Ensures("range of 126 steps of a tenth of a mile", vc.Imp(2 <= r && r <= 126, vc.Near(nm*10, float64(r)-1, 1e-9)))
	vc.Ensures("no range, or less than a twentieth of a mile", vc.Imp(r < 2, nm == 0))
	vc.Ensures("ranges above 12.55 miles", vc.Imp(r == 127, nm > 12.55))
}, vc.Range("r", 0, 255))

var _ = vc.Contract("P15", fields.ThreatIdentityBearing.GetBearing, func(b fields.ThreatIdentityBearing, deg int) {
	vc.Ensures("bearing in the middle of its six degree sector", vc.Imp(1 <= b && b <= 60, deg == 6*int(b)-3))
	vc.Ensures("no bearing", vc.Imp(b == 0, deg == 0))
	vc.Ensures("unassigned bearings are outside of the circle", vc.Imp(b > 60, deg >= 360))
}, vc.Range("b", 0, 255))

var _ = vc.Field("P15", fields.ReadThreatTypeIndicator, 21, 22, vc.Len("data", 6))
var _ = vc.Field("P15", fields.ReadRATerminatedIndicator, 19, 19, vc.Len("data", 6))
var _ = vc.Field("P15", fields.ReadMultipleThreatEncounter, 20, 20, vc.Len("data", 6))
var _ = vc.Field("P15", fields.ReadThreatIdentityAddress, 23, 46, vc.Len("data", 6))
var _ = vc.Field("P15", fields.ReadThreatIdentityRange, 36, 42, vc.Len("data", 6))
var _ = vc.Field("P15", fields.ReadThreatIdentityBearing, 43, 48, vc.Len("data", 6))

var _ = vc.Contract("P15", fields.ReadThreatIdentityAltitude, func(data []byte, a fields.ThreatIdentityAltitude, err error) {
	feet, known, ok := std.ThreatAltitude(vc.Bits(data, 23, 35))
	vc.Ensures("fails exactly on impossible codes", (err == nil) == ok)
	vc.Ensures("threat altitude", vc.Imp(ok, a.AltitudeInFeet == feet && (a.AltitudeStatus == fields.AltitudeValid) == known))
}, vc.Len("data", 6))

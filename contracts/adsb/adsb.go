// Package adsb holds the contracts of the ADS-B layer: dispatch and positions.
package adsb

import (
	"github.com/twuillemin/modes/pkg/adsb"
	ap "github.com/twuillemin/modes/pkg/adsb/airborne_position"
	av "github.com/twuillemin/modes/pkg/adsb/airborne_velocity"
	aid "github.com/twuillemin/modes/pkg/adsb/aircraft_identification_and_category"
	aop "github.com/twuillemin/modes/pkg/adsb/aircraft_operational_status"
	ast "github.com/twuillemin/modes/pkg/adsb/aircraft_status"
	np "github.com/twuillemin/modes/pkg/adsb/no_position_information"
	"github.com/twuillemin/modes/pkg/adsb/reader"
	sp "github.com/twuillemin/modes/pkg/adsb/surface_position"
	tss "github.com/twuillemin/modes/pkg/adsb/target_state_and_status"
	"github.com/twuillemin/modes/pkg/bds/register"
	"verif/contracts/std"
	"verif/contracts/vc"
)

// P01: every squitter is decoded and rendered without a panic.
var _ = vc.Lemma("P01", "ADS-B: reading and rendering any bytes returns", func(level adsb.ADSBVersion, nicA, nicC bool, data []byte) {
	m, err := reader.ReadADSBMessage(level, nicA, nicC, data)
	if err != nil {
		_ = err.Error()
		return
	}
	_ = m.ToString()
	_ = m.GetADSBVersion().ToString()
	if e := m.CheckCoherency(); e != nil {
		_ = e.Error()
	}
}, vc.Len("data", 7, -1))

// The kinds of ADS-B messages.
const (
	kNone = iota
	kNoPosition
	kAirborne0
	kAirborneV0
	kAirborneV1
	kAirborneV2
	kSurfaceV0
	kSurfaceV1
	kSurfaceV2
	kIdent
	kVelocity
	kStatus
	kTarget
	kOperational
)

func kindOf(m adsb.Message) int {
	switch m.(type) {
	case *np.NoPositionInformation:
		return kNoPosition
	case *ap.AirbornePositionType0:
		return kAirborne0
	case *ap.AirbornePositionV0:
		return kAirborneV0
	case *ap.AirbornePositionV1:
		return kAirborneV1
	case *ap.AirbornePositionV2:
		return kAirborneV2
	case *sp.SurfacePositionV0:
		return kSurfaceV0
	case *sp.SurfacePositionV1:
		return kSurfaceV1
	case *sp.SurfacePositionV2:
		return kSurfaceV2
	case *aid.AircraftIdentificationAndCategory:
		return kIdent
	case *av.AirborneVelocity:
		return kVelocity
	case *ast.AircraftStatus:
		return kStatus
	case *tss.TargetStateAndStatus:
		return kTarget
	case *aop.AircraftOperationalStatus:
		return kOperational
	}
	return kNone
}

// registers names the register of each kind of message (Doc 9871 appendix A).
var registers = [...]string{
	kNone: "", kNoPosition: "", kAirborne0: "BDS 0,5", kAirborneV0: "BDS 0,5", kAirborneV1: "BDS 0,5", kAirborneV2: "BDS 0,5",
	kSurfaceV0: "BDS 0,6", kSurfaceV1: "BDS 0,6", kSurfaceV2: "BDS 0,6", kIdent: "BDS 0,8", kVelocity: "BDS 0,9",
	kStatus: "BDS 6,1", kTarget: "BDS 6,2", kOperational: "BDS 6,5",
}

func altitude(data []byte) (int32, int, bool) {
	code := vc.Bits(data, 9, 20)
	feet, how, ok := std.AC12(code)
	return feet, how, ok && code != 0
}

// expected says what a squitter is, and false when it has to be refused.
func expected(level adsb.ADSBVersion, data []byte) (int, bool) {
	tc := vc.Bits(data, 1, 5)
	_, _, alt := altitude(data)
	switch {
	case tc == 0:
		if vc.Bits(data, 21, 40) == 0 && vc.Bits(data, 41, 56) == 0 {
			return kNoPosition, alt
		}
		return kAirborne0, alt
	case tc <= 4:
		return kIdent, true
	case tc <= 8:
		return kSurfaceV0 + int(level), level <= 2
	case tc <= 18 || 20 <= tc && tc <= 22:
		return kAirborneV0 + int(level), level <= 2 && alt
	case tc == 19:
		s := vc.Bits(data, 6, 8)
		return kVelocity, 1 <= s && s <= 4
	case tc == 28:
		s := vc.Bits(data, 6, 8)
		none := s == 0 && vc.Bits(data, 12, 32) == 0 && vc.Bits(data, 33, 56) == 0
		emergency := s == 1 && vc.Bits(data, 25, 56) == 0
		return kStatus, none || emergency || s == 2 && advisory(data)
	case tc == 29:
		s := vc.Bits(data, 6, 7)
		return kTarget, s == 1 || s == 0 && vc.Bits(data, 47, 51) == 0
	case tc == 31:
		return kOperational, operational(data)
	}
	return kNone, false
}

// advisory: whether the threat of a resolution advisory can be read. The
// altitude of a threat is all zero when unknown, and otherwise a Gillham code.
func advisory(data []byte) bool {
	if vc.Bits(data, 29, 30) != 2 {
		return true
	}
	_, _, ok := std.ThreatAltitude(vc.Bits(data, 31, 43))
	return ok
}

// operational: which operational status messages have a known layout.
func operational(data []byte) bool {
	s := vc.Bits(data, 6, 8)
	switch vc.Bits(data, 41, 43) {
	case 0:
		return s == 0 && vc.Bits(data, 41, 56) == 0
	case 1:
		return s <= 1 && vc.Bits(data, 9, 10) == 0 && vc.Bits(data, 13, 14) == 0 && vc.Bits(data, 25, 26) == 0 &&
			vc.Bits(data, 49, 50) == 0 && vc.Bits(data, 55, 56) == 0
	case 2:
		return s <= 1 && vc.Bits(data, 9, 10) == 0 && vc.Bits(data, 25, 26) == 0 && vc.Bits(data, 56, 56) == 0
	}
	return false
}

var _ = vc.Lemma("P07", "ADS-B dispatch", func(level adsb.ADSBVersion, nicA, nicC bool, data []byte) {
	m, err := reader.ReadADSBMessage(level, nicA, nicC, data)
	kind, ok := expected(level, data)
	vc.Ensures("accepted exactly when type code, version, subtype and reserved bits allow it", (err == nil) == ok)
	if err != nil {
		return
	}
	vc.Ensures("the kind of message is that of the type code", kindOf(m) == kind)
	want := level
	if kind == kOperational {
		want = adsb.ADSBVersion(vc.Bits(data, 41, 43))
	}
	vc.Ensures("the message reports its version", m.GetADSBVersion() == want)
	if r, ok := m.(interface{ GetRegister() register.Register }); ok {
		vc.Ensures("the message reports its register", r.GetRegister().GetId() == registers[kind])
	} else {
		vc.Ensures("only a message without position has no register", kind == kNoPosition)
	}
}, vc.Len("data", 7))

var _ = vc.Lemma("P07", "ADS-B messages of any other length are refused", func(level adsb.ADSBVersion, nicA, nicC bool, data []byte) {
	_, err := reader.ReadADSBMessage(level, nicA, nicC, data)
	vc.Ensures("accepted only with 7 bytes", err == nil == (err == nil && len(data) == 7))
}, vc.Len("data", 7, -1))

package adsb

import (
	"github.com/twuillemin/modes/pkg/adsb"
	ap "github.com/twuillemin/modes/pkg/adsb/airborne_position"
	apf "github.com/twuillemin/modes/pkg/adsb/airborne_position/fields"
	np "github.com/twuillemin/modes/pkg/adsb/no_position_information"
	"github.com/twuillemin/modes/pkg/adsb/reader"
	sp "github.com/twuillemin/modes/pkg/adsb/surface_position"
	spf "github.com/twuillemin/modes/pkg/adsb/surface_position/fields"
	"github.com/twuillemin/modes/pkg/bds/bds05"
	f05 "github.com/twuillemin/modes/pkg/bds/bds05/fields"
	"github.com/twuillemin/modes/pkg/bds/bds06"
	f06 "github.com/twuillemin/modes/pkg/bds/bds06/fields"
	"verif/contracts/std"
	"verif/contracts/vc"
)

// P08: airborne positions.
func airborne(m adsb.Message) (bds05.AirbornePosition, bool) {
	switch x := m.(type) {
	case *ap.AirbornePositionType0:
		return x.AirbornePosition, true
	case *ap.AirbornePositionV0:
		return x.AirbornePosition, true
	case *ap.AirbornePositionV1:
		return x.AirbornePosition, true
	case *ap.AirbornePositionV2:
		return x.AirbornePosition, true
	}
	return bds05.AirbornePosition{}, false
}

func airborneFields(p bds05.AirbornePosition, data []byte) {
	tc := vc.Bits(data, 1, 5)
	feet, how, _ := altitude(data)
	vc.Ensures("type code", uint32(p.FormatTypeCode) == tc)
	vc.Ensures("surveillance status is bits 6 and 7", uint32(p.SurveillanceStatus) == vc.Bits(data, 6, 7))
	vc.Ensures("single antenna flag is bit 8", uint32(p.SingleAntennaFlag) == vc.Bits(data, 8, 8))
	vc.Ensures("altitude", p.AltitudeInFeet == feet)
	vc.Ensures("altitude increments", (p.AltitudeReportMethod == f05.AltitudeReport25FootIncrements) == (how == std.Ft25) && (p.AltitudeReportMethod == f05.AltitudeReport100FootIncrements) == (how == std.Ft100))
	vc.Ensures("the altitude is geometric exactly with type codes 20 to 22", (p.AltitudeSource == f05.AltitudeGNSS) == (tc >= 20) && (p.AltitudeSource == f05.AltitudeBarometric) == (tc < 20))
	vc.Ensures("time synchronisation is bit 21", uint32(p.Time) == vc.Bits(data, 21, 21))
	vc.Ensures("CPR format is bit 22", uint32(p.CPRFormat) == vc.Bits(data, 22, 22))
	vc.Ensures("encoded latitude is bits 23 to 39", p.EncodedLatitude == vc.Bits(data, 23, 39))
	vc.Ensures("encoded longitude is bits 40 to 56", p.EncodedLongitude == vc.Bits(data, 40, 56))
}

var _ = vc.Lemma("P08", "airborne positions carry the bits of the message", func(level adsb.ADSBVersion, nicA, nicC bool, data []byte) {
	m, err := reader.ReadADSBMessage(level, nicA, nicC, data)
	if err != nil {
		return
	}
	if p, ok := airborne(m); ok {
		airborneFields(p, data)
	}
}, vc.Len("data", 7))

var _ = vc.Lemma("P08", "the altitude of a squitter without position", func(level adsb.ADSBVersion, nicA, nicC bool, data []byte) {
	m, err := reader.ReadADSBMessage(level, nicA, nicC, data)
	if err != nil {
		return
	}
	if p, ok := m.(*np.NoPositionInformation); ok {
		feet, _, _ := altitude(data)
		vc.Ensures("altitude of a message without position", p.AltitudeBarometric == feet)
		vc.Ensures("type code and integrity of a message without position", p.FormatTypeCode == 0 && p.NavigationIntegrityCategory == 0)
	}
}, vc.Len("data", 7))

var _ = vc.Contract("P08", f05.ReadAltitude, func(data []byte, feet int32, source f05.AltitudeSource, method f05.AltitudeReportMethod, err error) {
	want, _, ok := altitude(data)
	vc.Ensures("fails exactly on absent or impossible codes", (err == nil) == ok)
	vc.Ensures("altitude", vc.Imp(ok, feet == want))
}, vc.Len("data", 7))

var _ = vc.Field("P08", f05.ReadSurveillanceStatus, 6, 7, vc.Len("data", 7))
var _ = vc.Field("P08", f05.ReadSingleAntennaFlag, 8, 8, vc.Len("data", 7))
var _ = vc.Field("P08", f05.ReadTime, 21, 21, vc.Len("data", 7))
var _ = vc.Field("P08", f05.ReadCompactPositionReportingFormat, 22, 22, vc.Len("data", 7))
var _ = vc.Field("P08", f05.ReadEncodedLatitude, 23, 39, vc.Len("data", 7))
var _ = vc.Field("P08", f05.ReadEncodedLongitude, 40, 56, vc.Len("data", 7))
var _ = vc.Field("P08,P10", apf.ReadNavigationIntegritySupplementB, 8, 8, vc.Len("data", 7))

// P09: surface positions.
func surface(m adsb.Message) (bds06.SurfacePosition, bool) {
	switch x := m.(type) {
	case *sp.SurfacePositionV0:
		return x.SurfacePosition, true
	case *sp.SurfacePositionV1:
		return x.SurfacePosition, true
	case *sp.SurfacePositionV2:
		return x.SurfacePosition, true
	}
	return bds06.SurfacePosition{}, false
}

// speed is the ground speed in eighths of a knot (Doc 9871 table A-2-6).
func speed(code uint32) uint32 {
	switch {
	case code < 2 || code > 124:
		return 0
	case code <= 8:
		return code - 1
	case code <= 12:
		return 8 + 2*(code-9)
	case code <= 38:
		return 16 + 4*(code-13)
	case code <= 93:
		return 120 + 8*(code-39)
	case code <= 108:
		return 560 + 16*(code-94)
	case code <= 123:
		return 800 + 40*(code-109)
	}
	return 1400
}

var _ = vc.Lemma("P09", "surface positions carry the bits of the message", func(level adsb.ADSBVersion, nicA, nicC bool, data []byte) {
	m, err := reader.ReadADSBMessage(level, nicA, nicC, data)
	if err != nil {
		return
	}
	p, ok := surface(m)
	if !ok {
		return
	}
	mov := vc.Bits(data, 6, 12)
	vc.Ensures("type code", uint32(p.FormatTypeCode) == vc.Bits(data, 1, 5))
	vc.Ensures("movement status is bits 6 to 12", uint32(p.MovementStatus) == mov)
	vc.Ensures("speed is that of the movement code", p.MovementSpeed == float32(speed(mov))/8)
	vc.Ensures("ground track status is bit 13", p.GroundTrackStatus == vc.Bit(data, 13))
	vc.Ensures("ground track is bits 14 to 20 in 128ths of a turn", p.GroundTrack == float32(vc.Bits(data, 14, 20))*2.8125)
	vc.Ensures("time synchronisation is bit 21", uint32(p.Time) == vc.Bits(data, 21, 21))
	vc.Ensures("CPR format is bit 22", uint32(p.CPRFormat) == vc.Bits(data, 22, 22))
	vc.Ensures("encoded latitude is bits 23 to 39", uint32(p.EncodedLatitude) == vc.Bits(data, 23, 39))
	vc.Ensures("encoded longitude is bits 40 to 56", uint32(p.EncodedLongitude) == vc.Bits(data, 40, 56))
}, vc.Len("data", 7))

var _ = vc.Lemma("P09", "a faster movement code never decodes to a lower speed", func(data, other []byte) {
	a, s := f06.ReadMovement(data)
	b, t := f06.ReadMovement(other)
	vc.Requires(s <= t && t <= f06.MSAboveMaximum)
	vc.Ensures("speeds grow with the code", a <= b)
	vc.Ensures("speeds lie between 0 and 175 knots", a >= 0 && b <= 175)
}, vc.Len("data", 7), vc.Len("other", 7))

var _ = vc.Field("P09", f06.ReadTime, 21, 21, vc.Len("data", 7))
var _ = vc.Field("P09", f06.ReadCompactPositionReportingFormat, 22, 22, vc.Len("data", 7))
var _ = vc.Field("P09", f06.ReadEncodedLatitude, 23, 39, vc.Len("data", 7))
var _ = vc.Field("P09", f06.ReadEncodedLongitude, 40, 56, vc.Len("data", 7))

// P10: navigation integrity. Radii in tenths of a metre; 0 is "at least the
// largest bound, or unknown".
type integrity struct {
	nic    uint32
	radius uint32
}

const nm = 18520

func airborneIntegrity(tc uint32, a, b bool) integrity {
	switch tc {
	case 9, 20:
		return integrity{11, 75}
	case 10, 21:
		return integrity{10, 250}
	case 11:
		if a {
			return integrity{9, 750}
		}
		return integrity{8, nm / 10}
	case 12:
		return integrity{7, nm / 5}
	case 13:
		switch {
		case a:
			return integrity{6, nm * 6 / 10}
		case b:
			return integrity{6, nm * 3 / 10}
		}
		return integrity{6, nm / 2}
	case 14:
		return integrity{5, nm}
	case 15:
		return integrity{4, 2 * nm}
	case 16:
		if a {
			return integrity{3, 4 * nm}
		}
		return integrity{2, 8 * nm}
	case 17:
		return integrity{1, 20 * nm}
	}
	return integrity{0, 0}
}

func surfaceIntegrity(version int, tc uint32, a, c bool) integrity {
	switch tc {
	case 5:
		return integrity{11, 75}
	case 6:
		return integrity{10, 250}
	case 7:
		if a {
			return integrity{9, 750}
		}
		return integrity{8, nm / 10}
	}
	if version == 2 {
		switch {
		case a && c:
			return integrity{7, nm / 5}
		case a:
			return integrity{6, nm * 3 / 10}
		case c:
			return integrity{6, nm * 6 / 10}
		}
	}
	return integrity{0, 0}
}

func radiusV1(h apf.HorizontalContainmentRadiusV1) (r uint32, gnss bool) {
	switch h {
	case apf.HCRBaroV1RcLowerThan7Point5MAndVPLLowerThan11M:
		return 75, false
	case apf.HCRBaroV1RcLowerThan25MAndVPLLowerThan37Point5M:
		return 250, false
	case apf.HCRBaroV1RcLowerThan75MAndVPLLowerThan112M:
		return 750, false
	case apf.HCRBaroV1RcLowerThan0Point1NM:
		return nm / 10, false
	case apf.HCRBaroV1RcLowerThan0Point2NM:
		return nm / 5, false
	case apf.HCRBaroV1RcLowerThan0Point5NM:
		return nm / 2, false
	case apf.HCRBaroV1RcLowerThan0Point6NM:
		return nm * 6 / 10, false
	case apf.HCRBaroV1RcLowerThan1Point0NM:
		return nm, false
	case apf.HCRBaroV1RcLowerThan2NM:
		return 2 * nm, false
	case apf.HCRBaroV1RcLowerThan4NM:
		return 4 * nm, false
	case apf.HCRBaroV1RcLowerThan8NM:
		return 8 * nm, false
	case apf.HCRBaroV1RcLowerThan20NM:
		return 20 * nm, false
	case apf.HCRBaroV1RcGreaterThan20NM:
		return 0, false
	case apf.HCRGNSSV1RcLowerThan7Point5MAndVPLLowerThan11M:
		return 75, true
	case apf.HCRGNSSV1RcLowerThan25MAndVPLLowerThan37Point5M:
		return 250, true
	case apf.HCRGNSSV1RcGreaterThan25MOrVPLGreaterThan37Point5MOrUnknown:
		return 0, true
	}
	return 1, false
}

func radiusV2(h apf.HorizontalContainmentRadiusV2) (r uint32, gnss bool) {
	switch h {
	case apf.HCRBaroV2RcLowerThan7Point5M:
		return 75, false
	case apf.HCRBaroV2RcLowerThan25M:
		return 250, false
	case apf.HCRBaroV2RcLowerThan75M:
		return 750, false
	case apf.HCRBaroV2RcLowerThan0Point1NM:
		return nm / 10, false
	case apf.HCRBaroV2RcLowerThan0Point2NM:
		return nm / 5, false
	case apf.HCRBaroV2RcLowerThan0Point3NM:
		return nm * 3 / 10, false
	case apf.HCRBaroV2RcLowerThan0Point5NM:
		return nm / 2, false
	case apf.HCRBaroV2RcLowerThan0Point6NM:
		return nm * 6 / 10, false
	case apf.HCRBaroV2RcLowerThan1Point0NM:
		return nm, false
	case apf.HCRBaroV2RcLowerThan2NM:
		return 2 * nm, false
	case apf.HCRBaroV2RcLowerThan4NM:
		return 4 * nm, false
	case apf.HCRBaroV2RcLowerThan8NM:
		return 8 * nm, false
	case apf.HCRBaroV2RcLowerThan20NM:
		return 20 * nm, false
	case apf.HCRBaroV2RcGreaterThan20NM:
		return 0, false
	case apf.HCRGNSSV2RcLowerThan7Point5M:
		return 75, true
	case apf.HCRGNSSV2RcLowerThan25M:
		return 250, true
	case apf.HCRGNSSV2RcGreaterThan25MOrUnknown:
		return 0, true
	}
	return 1, false
}

func radiusS1(h spf.HorizontalContainmentRadiusV1) uint32 {
	switch h {
	case spf.HCRV1RcLowerThan7Point5M:
		return 75
	case spf.HCRV1RcLowerThan25M:
		return 250
	case spf.HCRV1RcLowerThan75M:
		return 750
	case spf.HCRV1RcLowerThan0Point1NM:
		return nm / 10
	case spf.HCRV1RcGreaterThan0Point1NM:
		return 0
	}
	return 1
}

func radiusS2(h spf.HorizontalContainmentRadiusV2) uint32 {
	switch h {
	case spf.HCRV2RcLowerThan7Point5M:
		return 75
	case spf.HCRV2RcLowerThan25M:
		return 250
	case spf.HCRV2RcLowerThan75M:
		return 750
	case spf.HCRV2RcLowerThan0Point1NM:
		return nm / 10
	case spf.HCRV2RcLowerThan0Point2NM:
		return nm / 5
	case spf.HCRV2RcLowerThan0Point3NM:
		return nm * 3 / 10
	case spf.HCRV2RcLowerThan0Point6NM:
		return nm * 6 / 10
	case spf.HCRV2RcGreaterThan0Point6NM:
		return 0
	}
	return 1
}

var _ = vc.Lemma("P10", "navigation integrity of positions", func(level adsb.ADSBVersion, nicA, nicC bool, data []byte) {
	m, err := reader.ReadADSBMessage(level, nicA, nicC, data)
	if err != nil {
		return
	}
	tc := vc.Bits(data, 1, 5)
	gnssTC := tc >= 20
	switch x := m.(type) {
	case *ap.AirbornePositionType0:
		vc.Ensures("type 0: no integrity", x.NavigationIntegrityCategory == 0)
	case *ap.AirbornePositionV0:
		vc.Ensures("airborne V0: protection limit and radius of the type code", uint32(x.HorizontalProtectionLimit) == tc && uint32(x.ContainmentRadius) == tc)
	case *ap.AirbornePositionV1:
		want := airborneIntegrity(tc, nicA, false)
		r, gnss := radiusV1(x.HorizontalContainmentRadius)
		vc.Ensures("airborne V1: category", uint32(x.NavigationIntegrityCategory) == want.nic)
		vc.Ensures("airborne V1: radius", r == want.radius && gnss == gnssTC)
		vc.Ensures("airborne V1: supplement", x.NavigationIntegrityCodeSupplementA == nicA)
	case *ap.AirbornePositionV2:
		want := airborneIntegrity(tc, nicA, vc.Bit(data, 8))
		r, gnss := radiusV2(x.HorizontalContainmentRadius)
		vc.Ensures("airborne V2: category", uint32(x.NavigationIntegrityCategory) == want.nic)
		vc.Ensures("airborne V2: radius", r == want.radius && gnss == gnssTC)
		vc.Ensures("airborne V2: supplements", x.NavigationIntegrityCodeSupplementA == nicA && uint32(x.NavigationIntegrityCodeSupplementB) == vc.Bits(data, 8, 8))
	case *sp.SurfacePositionV0:
		vc.Ensures("surface V0: protection limit and radius of the type code", uint32(x.HorizontalProtectionLimit) == tc && uint32(x.ContainmentRadius) == tc)
	case *sp.SurfacePositionV1:
		want := surfaceIntegrity(1, tc, nicA, nicC)
		vc.Ensures("surface V1: category", uint32(x.NavigationIntegrityCategory) == want.nic)
		vc.Ensures("surface V1: radius", radiusS1(x.HorizontalContainmentRadius) == want.radius)
	case *sp.SurfacePositionV2:
		want := surfaceIntegrity(2, tc, nicA, nicC)
		vc.Ensures("surface V2: category", uint32(x.NavigationIntegrityCategory) == want.nic)
		vc.Ensures("surface V2: radius", radiusS2(x.HorizontalContainmentRadius) == want.radius)
	}
}, vc.Len("data", 7))

// The bounds surface positions of version 0 announce, in metres.
var _ = vc.Lemma("P10", "bounds of surface positions of version 0", func(data []byte) {
	m, err := reader.ReadADSBMessage(adsb.ADSBV0, false, false, data)
	if err != nil {
		return
	}
	x, ok := m.(*sp.SurfacePositionV0)
	if !ok {
		return
	}
	tc := vc.Bits(data, 1, 5)
	crLow := [4]float64{-1, 3, 10, 92.6}
	crHigh := [4]float64{3, 10, 92.6, -1}
	hplLow := [4]float64{-1, -1, -1, 185.2}
	hplHigh := [4]float64{7.5, 25, 185.2, -1}
	vc.Ensures("containment radius bounds", x.ContainmentRadius.GetHorizontalContainmentLowerBound() == crLow[tc-5] && x.ContainmentRadius.GetHorizontalContainmentHigherBound() == crHigh[tc-5])
	vc.Ensures("protection limit bounds", x.HorizontalProtectionLimit.GetHPLLowerBound() == hplLow[tc-5] && x.HorizontalProtectionLimit.GetHPLHigherBound() == hplHigh[tc-5])
}, vc.Len("data", 7))

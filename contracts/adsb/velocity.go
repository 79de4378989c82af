package adsb

import (
	"math"

	"github.com/twuillemin/modes/pkg/adsb"
	av "github.com/twuillemin/modes/pkg/adsb/airborne_velocity"
	"github.com/twuillemin/modes/pkg/adsb/reader"
	"github.com/twuillemin/modes/pkg/bds/bds09"
	f09 "github.com/twuillemin/modes/pkg/bds/bds09/fields"
	"verif/contracts/vc"
)

// P11: airborne velocity.

// component: a speed code counts knots (or steps of four) from 1; 0 is no
// information and 1023 a speed above the range.
func component(what string, code, step uint32, value uint16, status f09.NumericValueStatus) {
	vc.Ensures(what+": no information is code 0", (status == f09.NVSNoInformation) == (code == 0))
	vc.Ensures(what+": beyond the range is code 1023", (status == f09.NVSMaximum) == (code == 1023))
	vc.Ensures(what+": the status is one of three", status <= f09.NVSMaximum)
	vc.Ensures(what+": regular codes count from 1", vc.Imp(1 <= code && code <= 1022, uint32(value) == (code-1)*step))
	vc.Ensures(what+": no information has value 0", vc.Imp(code == 0, value == 0))
	vc.Ensures(what+": beyond the range is not below the maximum", vc.Imp(code == 1023, uint32(value) >= 1022*step))
}

// signed: the vertical rate and the height difference.
func signed(what string, negative bool, code, max uint32, step int32, value int16, status f09.NumericValueStatus) {
	want := int32(code-1) * step
	if code == 0 {
		want = 0
	}
	if negative {
		want = -want
	}
	vc.Ensures(what+": value", int32(value) == want)
	vc.Ensures(what+": no information is code 0", (status == f09.NVSNoInformation) == (code == 0))
	vc.Ensures(what+": beyond the range is the highest code", (status == f09.NVSMaximum) == (code == max))
	vc.Ensures(what+": the status is one of three", status <= f09.NVSMaximum)
}

func velocityHead(data []byte, tc byte, st f09.Subtype, ic f09.IntentChange, ifr f09.IFRCapability, nuc f09.NavigationUncertaintyCategory) {
	vc.Ensures("type code", tc == 19)
	vc.Ensures("subtype is bits 6 to 8", uint32(st) == vc.Bits(data, 6, 8))
	vc.Ensures("intent change is bit 9", uint32(ic) == vc.Bits(data, 9, 9))
	vc.Ensures("IFR capability is bit 10", uint32(ifr) == vc.Bits(data, 10, 10))
	vc.Ensures("navigation uncertainty is bits 11 to 13", uint32(nuc) == vc.Bits(data, 11, 13))
}

func velocityTail(data []byte, source f09.VerticalRateSource, rs f09.NumericValueStatus, rate int16, ds f09.NumericValueStatus, diff int16) {
	vc.Ensures("source of the vertical rate is bit 36", uint32(source) == vc.Bits(data, 36, 36))
	signed("vertical rate", vc.Bit(data, 37), vc.Bits(data, 38, 46), 511, 64, rate, rs)
	signed("height difference", vc.Bit(data, 49), vc.Bits(data, 50, 56), 127, 25, diff, ds)
}

func groundSpeed(data []byte, step uint32, ew, ns uint16, ews, nss f09.NumericValueStatus, dew f09.DirectionEastWest, dns f09.DirectionNorthSouth) {
	vc.Ensures("east or west is bit 14", uint32(dew) == vc.Bits(data, 14, 14))
	vc.Ensures("north or south is bit 25", uint32(dns) == vc.Bits(data, 25, 25))
	component("east-west velocity", vc.Bits(data, 15, 24), step, ew, ews)
	component("north-south velocity", vc.Bits(data, 26, 35), step, ns, nss)
}

func airSpeed(data []byte, step uint32, hs f09.MagneticHeadingStatus, heading float32, speed uint16, ss f09.NumericValueStatus) {
	vc.Ensures("heading status is bit 14", uint32(hs) == vc.Bits(data, 14, 14))
	vc.Ensures("heading is bits 15 to 24 in 1024ths of a turn", float64(heading)*1024 == float64(vc.Bits(data, 15, 24))*360)
	component("airspeed", vc.Bits(data, 26, 35), step, speed, ss)
}

func velocity(level adsb.ADSBVersion, nicA, nicC bool, data []byte) bds09.AirborneVelocity {
	m, err := reader.ReadADSBMessage(level, nicA, nicC, data)
	if err != nil {
		return nil
	}
	v, ok := m.(*av.AirborneVelocity)
	if !ok {
		return nil
	}
	return v.AirborneVelocity
}

var _ = vc.Lemma("P11", "airborne velocity", func(level adsb.ADSBVersion, nicA, nicC bool, data []byte) {
	v := velocity(level, nicA, nicC, data)
	if v == nil {
		return
	}
	s := vc.Bits(data, 6, 8)
	switch x := v.(type) {
	case *bds09.AirborneVelocityGroundSpeedNormal:
		vc.Ensures("ground speed is subtype 1", s == 1)
		velocityHead(data, x.FormatTypeCode, x.Subtype, x.IntentChange, x.IFRCapability, x.NavigationUncertaintyCategory)
		groundSpeed(data, 1, x.VelocityEW, x.VelocityNS, x.VelocityEWStatus, x.VelocityNSStatus, x.DirectionEastWest, x.DirectionNorthSouth)
		velocityTail(data, x.VerticalRateSource, x.VerticalRateStatus, x.VerticalRate, x.DifferenceAltitudeGNSSBaroStatus, x.DifferenceAltitudeGNSSBaro)
	case *bds09.AirborneVelocityGroundSpeedSupersonic:
		vc.Ensures("supersonic ground speed is subtype 2", s == 2)
		velocityHead(data, x.FormatTypeCode, x.Subtype, x.IntentChange, x.IFRCapability, x.NavigationUncertaintyCategory)
		groundSpeed(data, 4, x.VelocityEW, x.VelocityNS, x.VelocityEWStatus, x.VelocityNSStatus, x.DirectionEastWest, x.DirectionNorthSouth)
		velocityTail(data, x.VerticalRateSource, x.VerticalRateStatus, x.VerticalRate, x.DifferenceAltitudeGNSSBaroStatus, x.DifferenceAltitudeGNSSBaro)
	case *bds09.AirborneVelocityAirSpeedNormal:
		vc.Ensures("airspeed is subtype 3", s == 3)
		velocityHead(data, x.FormatTypeCode, x.Subtype, x.IntentChange, x.IFRCapability, x.NavigationUncertaintyCategory)
		airSpeed(data, 1, x.MagneticHeadingStatus, x.MagneticHeading, x.Airspeed, x.AirspeedStatus)
		velocityTail(data, x.VerticalRateSource, x.VerticalRateStatus, x.VerticalRate, x.HeightDifferenceFromBaroStatus, x.HeightDifferenceFromBaro)
	case *bds09.AirborneVelocityAirSpeedSupersonic:
		vc.Ensures("supersonic airspeed is subtype 4", s == 4)
		velocityHead(data, x.FormatTypeCode, x.Subtype, x.IntentChange, x.IFRCapability, x.NavigationUncertaintyCategory)
		airSpeed(data, 4, x.MagneticHeadingStatus, x.MagneticHeading, x.Airspeed, x.AirspeedStatus)
		velocityTail(data, x.VerticalRateSource, x.VerticalRateStatus, x.VerticalRate, x.HeightDifferenceFromBaroStatus, x.HeightDifferenceFromBaro)
	default:
		vc.Ensures("a velocity is of one of four subtypes", false)
	}
}, vc.Len("data", 7))

// velocities of the message in knots, towards the east and the north.
func velocities(data []byte, step int64) (east, north int64, regular bool) {
	e, n := int64(vc.Bits(data, 15, 24)), int64(vc.Bits(data, 26, 35))
	regular = 0 < e && e < 1023 && 0 < n && n < 1023
	east, north = (e-1)*step, (n-1)*step
	if vc.Bit(data, 14) {
		east = -east
	}
	if vc.Bit(data, 25) {
		north = -north
	}
	return
}

func computed(data []byte, step int64, speed uint32, serr error, track float32, terr error) {
	east, north, regular := velocities(data, step)
	vc.Ensures("a speed is computed exactly from two regular velocities", (serr == nil) == regular)
	vc.Ensures("a track is computed exactly from two regular velocities", (terr == nil) == regular)
	if !regular {
		return
	}
	sq, s := east*east+north*north, int64(speed)
	vc.Ensures("the speed is the length of the velocity, rounded down", s*s <= sq && sq < (s+1)*(s+1))
	t := float64(track) * (math.Pi / 180)
	length := math.Sqrt(float64(sq))
	vc.Ensures("the track is a direction in [0, 360)", track >= 0 && track < 360)
	vc.Ensures("the track points along the velocity", vc.Near(math.Sin(t)*length, float64(east), 0.01) && vc.Near(math.Cos(t)*length, float64(north), 0.01))
}

var _ = vc.Lemma("P11", "computed speed and track", func(data []byte) {
	x, err := bds09.ReadAirborneVelocityGroundSpeedNormal(data)
	if err != nil {
		return
	}
	speed, serr := x.GetSpeed()
	track, terr := x.GetTrack()
	computed(data, 1, speed, serr, track, terr)
}, vc.Len("data", 7))

var _ = vc.Lemma("P11", "computed supersonic speed and track", func(data []byte) {
	x, err := bds09.ReadAirborneVelocityGroundSpeedSupersonic(data)
	if err != nil {
		return
	}
	speed, serr := x.GetSpeed()
	track, terr := x.GetTrack()
	computed(data, 4, speed, serr, track, terr)
}, vc.Len("data", 7))

var _ = vc.Field("P11", f09.ReadIntentChange, 9, 9, vc.Len("data", 7))
var _ = vc.Field("P11", f09.ReadIFRCapability, 10, 10, vc.Len("data", 7))
var _ = vc.Field("P11", f09.ReadNavigationUncertaintyCategory, 11, 13, vc.Len("data", 7))
var _ = vc.Field("P11", f09.ReadSubtype, 6, 8, vc.Len("data", 7))
var _ = vc.Field("P11", f09.ReadVerticalRateSource, 36, 36, vc.Len("data", 7))
var _ = vc.Field("P11", f09.ReadDirectionEastWest, 14, 14, vc.Len("data", 7))
var _ = vc.Field("P11", f09.ReadDirectionNorthSouth, 25, 25, vc.Len("data", 7))

var _ = vc.Contract("P11", f09.ReadVelocityEWNormal, func(data []byte, value uint16, status f09.NumericValueStatus) {
	component("east-west velocity", vc.Bits(data, 15, 24), 1, value, status)
}, vc.Len("data", 7))

var _ = vc.Contract("P11", f09.ReadVelocityNSNormal, func(data []byte, value uint16, status f09.NumericValueStatus) {
	component("north-south velocity", vc.Bits(data, 26, 35), 1, value, status)
}, vc.Len("data", 7))

var _ = vc.Contract("P11", f09.ReadVelocityEWSupersonic, func(data []byte, value uint16, status f09.NumericValueStatus) {
	component("east-west velocity", vc.Bits(data, 15, 24), 4, value, status)
}, vc.Len("data", 7))

var _ = vc.Contract("P11", f09.ReadVelocityNSSupersonic, func(data []byte, value uint16, status f09.NumericValueStatus) {
	component("north-south velocity", vc.Bits(data, 26, 35), 4, value, status)
}, vc.Len("data", 7))

var _ = vc.Contract("P11", f09.ReadAirspeedNormal, func(data []byte, value uint16, status f09.NumericValueStatus) {
	component("airspeed", vc.Bits(data, 26, 35), 1, value, status)
}, vc.Len("data", 7))

var _ = vc.Contract("P11", f09.ReadAirspeedSupersonic, func(data []byte, value uint16, status f09.NumericValueStatus) {
	component("airspeed", vc.Bits(data, 26, 35), 4, value, status)
}, vc.Len("data", 7))

var _ = vc.Contract("P11", f09.ReadVerticalRate, func(data []byte, value int16, status f09.NumericValueStatus) {
	signed("vertical rate", vc.Bit(data, 37), vc.Bits(data, 38, 46), 511, 64, value, status)
}, vc.Len("data", 7))

var _ = vc.Contract("P11", f09.ReadHeightDifference, func(data []byte, value int16, status f09.NumericValueStatus) {
	signed("height difference", vc.Bit(data, 49), vc.Bits(data, 50, 56), 127, 25, value, status)
}, vc.Len("data", 7))

var _ = vc.Contract("P11", f09.ReadMagneticHeading, func(data []byte, heading float32, status f09.MagneticHeadingStatus) {
	vc.Ensures("heading status is bit 14", uint32(status) == vc.Bits(data, 14, 14))
	vc.Ensures("heading is bits 15 to 24 in 1024ths of a turn", float64(heading)*1024 == float64(vc.Bits(data, 15, 24))*360)
}, vc.Len("data", 7))

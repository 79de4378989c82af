package commb

import (
	"github.com/twuillemin/modes/pkg/bds/bds07"
	f07 "github.com/twuillemin/modes/pkg/bds/bds07/fields"
	"github.com/twuillemin/modes/pkg/bds/bds10"
	f10 "github.com/twuillemin/modes/pkg/bds/bds10/fields"
	"github.com/twuillemin/modes/pkg/bds/bds17"
	"github.com/twuillemin/modes/pkg/bds/bds30"
	"github.com/twuillemin/modes/pkg/bds/bds40"
	f40 "github.com/twuillemin/modes/pkg/bds/bds40/fields"
	"github.com/twuillemin/modes/pkg/bds/bds44"
	f44 "github.com/twuillemin/modes/pkg/bds/bds44/fields"
	"github.com/twuillemin/modes/pkg/bds/bds45"
	f45 "github.com/twuillemin/modes/pkg/bds/bds45/fields"
	"github.com/twuillemin/modes/pkg/bds/bds50"
	f50 "github.com/twuillemin/modes/pkg/bds/bds50/fields"
	"github.com/twuillemin/modes/pkg/bds/bds60"
	f60 "github.com/twuillemin/modes/pkg/bds/bds60/fields"
	"github.com/twuillemin/modes/pkg/commb"
	"verif/contracts/std"
	"verif/contracts/vc"
)

// signed reads a value in two's complement, its sign being its first bit.
func signed(data []byte, from, to int) int32 {
	n := int32(vc.Bits(data, from+1, to))
	if vc.Bit(data, from) {
		n -= 1 << uint(to-from)
	}
	return n
}

// idle: a field whose status bit is clear is zero.
func idle(data []byte, status, to int) bool {
	return vc.Bit(data, status) || vc.Bits(data, status+1, to) == 0
}

// within: lo <= n <= hi
func within(n, lo, hi int32) bool { return lo <= n && n <= hi }

// P16: what each register accepts, and what it takes for coherent.

var _ = vc.Lemma("P16", "BDS 0,7", func(data []byte) {
	m, err := bds07.ReadStatus(data)
	vc.Ensures("BDS 0,7 is readable exactly with bits 4 to 56 clear", (err == nil) == zeros(data, 4, 56))
	if err == nil {
		vc.Ensures("BDS 0,7 is coherent exactly with an assigned rate", (m.CheckCoherency() == nil) == (vc.Bits(data, 1, 2) < 3))
	}
}, vc.Len("data", 7))

var _ = vc.Lemma("P16", "BDS 1,0", func(data []byte) {
	m, err := bds10.ReadDataLinkCapabilityReport(data)
	vc.Ensures("BDS 1,0 is readable exactly with its code and bits 10 to 14 clear", (err == nil) == (data[0] == 0x10 && zeros(data, 10, 14)))
	if err != nil {
		return
	}
	acas := zeros(data, 37, 40)
	if vc.Bit(data, 16) {
		acas = vc.Bits(data, 39, 40) <= 2
	}
	ok := acas && vc.Bits(data, 17, 23) <= 5 && vc.Bits(data, 26, 28) <= 6 && vc.Bits(data, 29, 32) <= 6
	vc.Ensures("BDS 1,0 is coherent exactly with assigned values, and no ACAS data without ACAS", (m.CheckCoherency() == nil) == ok)
}, vc.Len("data", 7))

var _ = vc.Lemma("P16", "BDS 1,7", func(data []byte) {
	m, err := bds17.ReadCommonUsageGICBCapabilityReport(data)
	vc.Ensures("BDS 1,7 is readable exactly with bits 30 to 56 clear", (err == nil) == zeros(data, 30, 56))
	if err == nil {
		vc.Ensures("BDS 1,7 is coherent", m.CheckCoherency() == nil)
	}
}, vc.Len("data", 7))

var _ = vc.Lemma("P16", "BDS 3,0", func(data []byte) {
	m, err := bds30.ReadACASResolutionAdvisory(data)
	_, _, ok := std.ThreatAltitude(vc.Bits(data, 31, 43))
	vc.Ensures("BDS 3,0 is readable exactly with its code and a readable threat", (err == nil) == (data[0] == 0x30 && (ok || vc.Bits(data, 29, 30) != 2)))
	if err == nil {
		vc.Ensures("BDS 3,0 is coherent", m.CheckCoherency() == nil)
	}
}, vc.Len("data", 7))

var _ = vc.Lemma("P16", "BDS 4,0", func(data []byte) {
	m, err := bds40.ReadSelectedVerticalIntention(data)
	vc.Ensures("BDS 4,0 is readable exactly with bits 40 to 47, 52 and 53 clear", (err == nil) == (zeros(data, 40, 47) && zeros(data, 52, 53)))
	if err != nil {
		return
	}
	ok := (vc.Bit(data, 1) || vc.Bit(data, 14) || vc.Bit(data, 27)) && idle(data, 1, 13) && idle(data, 14, 26) && idle(data, 27, 39)
	vc.Ensures("BDS 4,0 is coherent exactly with some value, and no value without its status", (m.CheckCoherency() == nil) == ok)
}, vc.Len("data", 7))

var _ = vc.Lemma("P16", "BDS 4,4", func(data []byte) {
	m, err := bds44.ReadMeteorologicalRoutineAirReport(data)
	vc.Ensures("BDS 4,4 is readable exactly with an assigned source", (err == nil) == (vc.Bits(data, 1, 4) <= 4))
	if err != nil {
		return
	}
	some := vc.Bit(data, 5) || vc.Bit(data, 15) || vc.Bit(data, 24) || vc.Bit(data, 36) || vc.Bit(data, 49)
	ok := some && idle(data, 5, 14) && idle(data, 15, 23) && idle(data, 24, 35) && idle(data, 36, 47) && idle(data, 49, 56)
	ok = ok && vc.Bits(data, 6, 14) <= 250 && within(signed(data, 25, 35), -80*8, 60*8)
	vc.Ensures("BDS 4,4 is coherent exactly with some value, no value without its status, and likely values", (m.CheckCoherency() == nil) == ok)
}, vc.Len("data", 7))

var _ = vc.Lemma("P16", "BDS 4,5", func(data []byte) {
	m, err := bds45.ReadMeteorologicalHazardReport(data)
	vc.Ensures("BDS 4,5 is readable exactly with bits 55 and 56 clear", (err == nil) == zeros(data, 55, 56))
	if err != nil {
		return
	}
	some := vc.Bit(data, 1) || vc.Bit(data, 4) || vc.Bit(data, 7) || vc.Bit(data, 10) || vc.Bit(data, 13) || vc.Bit(data, 25) || vc.Bit(data, 38)
	ok := some && idle(data, 1, 3) && idle(data, 4, 6) && idle(data, 7, 9) && idle(data, 10, 12) && idle(data, 25, 37) && idle(data, 38, 54)
	ok = ok && (!vc.Bit(data, 13) || within(signed(data, 14, 24), -80*8, 60*8))
	vc.Ensures("BDS 4,5 is coherent exactly with some value, no value without its status, and likely values", (m.CheckCoherency() == nil) == ok)
}, vc.Len("data", 7))

var _ = vc.Lemma("P16", "BDS 5,0", func(data []byte) {
	m, err := bds50.ReadTrackAndTurnReport(data)
	vc.Ensures("BDS 5,0 is readable", err == nil)
	if err != nil {
		return
	}
	some := vc.Bit(data, 1) || vc.Bit(data, 12) || vc.Bit(data, 24) || vc.Bit(data, 35) || vc.Bit(data, 46)
	ok := some && idle(data, 1, 11) && idle(data, 12, 23) && idle(data, 24, 34) && idle(data, 35, 45) && idle(data, 46, 56)
	ground, air := int32(2*vc.Bits(data, 25, 34)), int32(2*vc.Bits(data, 47, 56))
	ok = ok && within(signed(data, 2, 11)*45, -50*256, 50*256) && ground <= 600 && air <= 500 && within(ground-air, -200, 200)
	vc.Ensures("BDS 5,0 is coherent exactly with some value, no value without its status, and likely values", (m.CheckCoherency() == nil) == ok)
}, vc.Len("data", 7))

var _ = vc.Lemma("P16", "BDS 6,0", func(data []byte) {
	m, err := bds60.ReadHeadingAndSpeedReport(data)
	vc.Ensures("BDS 6,0 is readable", err == nil)
	if err != nil {
		return
	}
	some := vc.Bit(data, 1) || vc.Bit(data, 13) || vc.Bit(data, 24) || vc.Bit(data, 35) || vc.Bit(data, 46)
	ok := some && idle(data, 1, 12) && idle(data, 13, 23) && idle(data, 24, 34) && idle(data, 35, 45) && idle(data, 46, 56)
	ok = ok && vc.Bits(data, 14, 23) <= 500 && vc.Bits(data, 25, 34) <= 250
	ok = ok && within(signed(data, 36, 45)*32, -6000, 6000) && within(signed(data, 47, 56)*32, -6000, 6000)
	vc.Ensures("BDS 6,0 is coherent exactly with some value, no value without its status, and likely values", (m.CheckCoherency() == nil) == ok)
}, vc.Len("data", 7))

// P17: the values of the registers the inference offers.

var _ = vc.Lemma("P17", "values of the registers offered", func(data []byte) {
	ms, err := commb.ReadCommBMessage(data)
	if err != nil {
		return
	}
	for _, m := range ms {
		switch x := m.(type) {
		case *bds07.Status:
			values07(x, data)
		case *bds10.DataLinkCapabilityReport:
			values10(x, data)
		case *bds17.CommonUsageGICBCapabilityReport:
			values17(x, data)
		case *bds40.SelectedVerticalIntention:
			values40(x, data)
		case *bds44.MeteorologicalRoutineAirReportV1:
			vc.Ensures("a weather report without source has source 0", vc.Bits(data, 1, 4) == 0)
			values44(data, x.WindSpeedStatus, x.WindSpeed, x.WindDirectionStatus, x.WindDirection, x.StaticAirTemperatureStatus, x.StaticAirTemperature,
				x.AverageStaticPressureStatus, x.AverageStaticPressure, x.TurbulenceFlag, x.HumidityStatus, x.Humidity)
		case *bds44.MeteorologicalRoutineAirReportV2:
			vc.Ensures("weather source is bits 1 to 4", uint32(x.Source) == vc.Bits(data, 1, 4))
			values44(data, x.WindSpeedStatus, x.WindSpeed, x.WindDirectionStatus, x.WindDirection, x.StaticAirTemperatureStatus, x.StaticAirTemperature,
				x.AverageStaticPressureStatus, x.AverageStaticPressure, x.TurbulenceFlag, x.HumidityStatus, x.Humidity)
		case *bds45.MeteorologicalHazardReportV1:
			values45(x, data)
		case *bds50.TrackAndTurnReport:
			values50(x, data)
		case *bds60.HeadingAndTrackReport:
			values60(x, data)
		}
	}
}, vc.Len("data", 7))

func values07(x *bds07.Status, data []byte) {
	vc.Ensures("transmission rate is bits 1 and 2", uint32(x.TransmissionRateSubfield) == vc.Bits(data, 1, 2))
	vc.Ensures("altitude type is bit 3", uint32(x.AltitudeTypeSubfield) == vc.Bits(data, 3, 3))
}

func values10(x *bds10.DataLinkCapabilityReport, data []byte) {
	is := func(n uint32, from, to int) bool { return n == vc.Bits(data, from, to) }
	vc.Ensures("continuation is bit 9", is(uint32(x.ContinuationFlag), 9, 9))
	vc.Ensures("overlay capability is bit 15", is(uint32(x.OverlayCommandCapability), 15, 15))
	vc.Ensures("ACAS status is bit 16", is(uint32(x.ACASStatus), 16, 16))
	vc.Ensures("subnetwork version is bits 17 to 23", is(uint32(x.ModeSSubnetworkVersion), 17, 23))
	vc.Ensures("enhanced protocol is bit 24", is(uint32(x.TransponderEnhancedProtocolIndicator), 24, 24))
	vc.Ensures("specific services is bit 25", is(uint32(x.ModeSSpecificServicesCapability), 25, 25))
	vc.Ensures("uplink throughput is bits 26 to 28", is(uint32(x.UplinkELMThroughputCapability), 26, 28))
	vc.Ensures("downlink throughput is bits 29 to 32", is(uint32(x.DownlinkELMThroughputCapability), 29, 32))
	vc.Ensures("identification capability is bit 33", is(uint32(x.AircraftIdentificationCapability), 33, 33))
	vc.Ensures("squitter capability is bit 34", is(uint32(x.SquitterCapabilitySubfield), 34, 34))
	vc.Ensures("surveillance identifier capability is bit 35", is(uint32(x.SurveillanceIdentifierCode), 35, 35))
	vc.Ensures("common usage capability is bit 36", is(uint32(x.CommonUsageGICBCapability), 36, 36))
	vc.Ensures("hybrid surveillance is bit 37", is(uint32(x.ACASHybridSurveillanceCapability), 37, 37))
	vc.Ensures("ACAS generation is bit 38", is(uint32(x.ACASGenerationCapability), 38, 38))
	vc.Ensures("ACAS document is bits 39 and 40", is(uint32(x.ACASApplicableDocument), 39, 40))
	vc.Ensures("DTE addresses are bits 41 to 56", is(uint32(x.DTESubAddressStatuses), 41, 56))
}

func values17(x *bds17.CommonUsageGICBCapabilityReport, data []byte) {
	is := func(b bool, n int) bool { return b == vc.Bit(data, n) }
	vc.Ensures("BDS 0,5 and 0,6 are bits 1 and 2", is(x.ExtendedSquitterAirbornePosition, 1) && is(x.ExtendedSquitterSurfacePosition, 2))
	vc.Ensures("BDS 0,7 and 0,8 are bits 3 and 4", is(x.ExtendedSquitterStatus, 3) && is(x.ExtendedSquitterIdentificationAndCategory, 4))
	vc.Ensures("BDS 0,9 and 0,A are bits 5 and 6", is(x.ExtendedSquitterAirborneVelocityInformation, 5) && is(x.ExtendedSquitterEventDrivenInformation, 6))
	vc.Ensures("BDS 2,0 and 2,1 are bits 7 and 8", is(x.AircraftIdentification, 7) && is(x.AircraftRegistrationNumber, 8))
	vc.Ensures("BDS 4,0 and 4,1 are bits 9 and 10", is(x.SelectedVerticalIntention, 9) && is(x.NextWaypointIdentifier, 10))
	vc.Ensures("BDS 4,2 and 4,3 are bits 11 and 12", is(x.NextWaypointPosition, 11) && is(x.NextWaypointInformation, 12))
	vc.Ensures("BDS 4,4 and 4,5 are bits 13 and 14", is(x.MeteorologicalRoutineReport, 13) && is(x.MeteorologicalHazardReport, 14))
	vc.Ensures("BDS 4,8 and 5,0 are bits 15 and 16", is(x.VHFChannelReport, 15) && is(x.TrackAndTurnReport, 16))
	vc.Ensures("BDS 5,1 and 5,2 are bits 17 and 18", is(x.PositionCoarse, 17) && is(x.PositionFine, 18))
	vc.Ensures("BDS 5,3 and 5,4 are bits 19 and 20", is(x.AirReferencedStateVector, 19) && is(x.Waypoint1, 20))
	vc.Ensures("BDS 5,5 and 5,6 are bits 21 and 22", is(x.Waypoint2, 21) && is(x.Waypoint3, 22))
	vc.Ensures("BDS 5,F and 6,0 are bits 23 and 24", is(x.QuasiStaticParameterMonitoring, 23) && is(x.HeadingAndSpeedReport, 24))
	vc.Ensures("military applications are bit 29", is(x.MilitaryApplications, 29))
}

func values40(x *bds40.SelectedVerticalIntention, data []byte) {
	vc.Ensures("the status of the MCP/FCU altitude is bit 1", x.MCPFCUSelectedAltitudeAvailable == vc.Bit(data, 1))
	vc.Ensures("the status of the FMS altitude is bit 14", x.FMSSelectedAltitudeAvailable == vc.Bit(data, 14))
	vc.Ensures("the status of the pressure setting is bit 27", x.BarometricPressureSettingAvailable == vc.Bit(data, 27))
	vc.Ensures("the MCP/FCU altitude is bits 2 to 13 in steps of 16 ft", x.MCPFCUSelectedAltitude == 16*vc.Bits(data, 2, 13))
	vc.Ensures("the FMS altitude is bits 15 to 26 in steps of 16 ft", x.FMSSelectedAltitude == 16*vc.Bits(data, 15, 26))
	pressure40(data, x.BarometricPressureSetting)
	vc.Ensures("the status of the mode bits is bit 48", uint32(x.StatusOfModeBits) == vc.Bits(data, 48, 48))
	vc.Ensures("the modes are bits 49 to 51", x.VNAVMode == vc.Bit(data, 49) && x.AltitudeHoldMode == vc.Bit(data, 50) && x.ApproachMode == vc.Bit(data, 51))
	vc.Ensures("the status of the target source is bit 54", uint32(x.StatusOfTargetAltitudeSource) == vc.Bits(data, 54, 54))
	vc.Ensures("the target source is bits 55 and 56", uint32(x.TargetAltitudeSource) == vc.Bits(data, 55, 56))
}

func pressure40(data []byte, hPa float32) {
	vc.Ensures("the pressure setting is bits 28 to 39 in steps of 0.1 hPa from 800 hPa", vc.Near(float64(hPa), 800+0.1*float64(vc.Bits(data, 28, 39)), 0.001))
}

func values44(data []byte, ws bool, speed uint32, ds bool, direction float32, ts bool, temperature float32, ps bool, pressure uint32, flag f44.TurbulenceFlag, hs bool, humidity float32) {
	vc.Ensures("wind speed is bits 6 to 14, its status bit 5", ws == vc.Bit(data, 5) && speed == vc.Bits(data, 6, 14))
	direction44(data, ds, direction)
	temperature44(data, ts, temperature)
	vc.Ensures("static pressure is bits 37 to 47, its status bit 36", ps == vc.Bit(data, 36) && pressure == vc.Bits(data, 37, 47))
	vc.Ensures("turbulence flag is bit 48", uint32(flag) == vc.Bits(data, 48, 48))
	humidity44(data, hs, humidity)
}

func direction44(data []byte, status bool, degrees float32) {
	vc.Ensures("the status of the wind direction is bit 15", status == vc.Bit(data, 15))
	vc.Ensures("wind direction is bits 16 to 23 in 256ths of a turn", float64(degrees)*256 == 360*float64(vc.Bits(data, 16, 23)))
}

func temperature44(data []byte, status bool, celsius float32) {
	vc.Ensures("the status of the temperature is bit 24", status == vc.Bit(data, 24))
	vc.Ensures("temperature is bits 25 to 35 in eighths of a degree, in two's complement", float64(celsius)*8 == float64(signed(data, 25, 35)))
}

func humidity44(data []byte, status bool, percent float32) {
	vc.Ensures("humidity is bits 50 to 56, its status bit 49", status == vc.Bit(data, 49) && float64(percent) == float64(vc.Bits(data, 50, 56)))
}

func values45(x *bds45.MeteorologicalHazardReportV1, data []byte) {
	level := func(l f45.HazardLevel, status bool, from int) bool {
		return status == vc.Bit(data, from) && uint32(l) == vc.Bits(data, from+1, from+2)
	}
	vc.Ensures("wind shear is bits 1 to 3", level(x.WindShear, x.WindShearStatus, 1))
	vc.Ensures("microburst is bits 4 to 6", level(x.MicroBurst, x.MicroBurstStatus, 4))
	vc.Ensures("icing is bits 7 to 9", level(x.Icing, x.IcingStatus, 7))
	vc.Ensures("wake vortex is bits 10 to 12", level(x.WakeVortex, x.WakeVortexStatus, 10))
	temperature45(data, x.StaticAirTemperatureStatus, x.StaticAirTemperature)
	vc.Ensures("a hazard report has no static pressure", !x.AverageStaticPressureStatus && x.AverageStaticPressure == 0)
	vc.Ensures("radio height is bits 26 to 37 in steps of 2 ft, its status bit 25", x.RadioHeightStatus == vc.Bit(data, 25) && x.RadioHeight == 2*vc.Bits(data, 26, 37))
	turbulence45(data, x.TurbulenceStatus, x.TurbulenceAverageEDR, x.TurbulencePeakEDR, x.TurbulencePeakDelayInterval)
}

func temperature45(data []byte, status bool, celsius float32) {
	vc.Ensures("the status of the temperature of a hazard report is bit 13", status == vc.Bit(data, 13))
	vc.Ensures("the temperature of a hazard report is bits 14 to 24 in eighths of a degree, in two's complement", float64(celsius)*8 == float64(signed(data, 14, 24)))
}

func turbulence45(data []byte, status bool, average, peak float32, delay byte) {
	vc.Ensures("the status of the turbulence is bit 38", status == vc.Bit(data, 38))
	vc.Ensures("average turbulence is bits 39 to 44 in steps of 0.02", vc.Near(float64(average), 0.02*float64(vc.Bits(data, 39, 44)), 0.0001))
	vc.Ensures("peak turbulence is bits 45 to 50 in steps of 0.02", vc.Near(float64(peak), 0.02*float64(vc.Bits(data, 45, 50)), 0.0001))
	vc.Ensures("the delay of the turbulence peak is bits 51 to 54", uint32(delay) == vc.Bits(data, 51, 54))
}

func values50(x *bds50.TrackAndTurnReport, data []byte) {
	roll50(data, x.RollAngleStatus, x.RollAngle)
	track50(data, x.TrueTrackAngleStatus, x.TrueTrackAngle)
	vc.Ensures("ground speed is bits 25 to 34 in steps of 2 knots, its status bit 24", x.GroundSpeedStatus == vc.Bit(data, 24) && x.GroundSpeed == 2*vc.Bits(data, 25, 34))
	rate50(data, x.TrackAngleRateStatus, x.TrackAngleRate)
	vc.Ensures("true airspeed is bits 47 to 56 in steps of 2 knots, its status bit 46", x.TrueAirSpeedStatus == vc.Bit(data, 46) && x.TrueAirSpeed == 2*vc.Bits(data, 47, 56))
}

func roll50(data []byte, status bool, degrees float32) {
	vc.Ensures("the status of the roll angle is bit 1", status == vc.Bit(data, 1))
	vc.Ensures("roll angle is bits 2 to 11 in 256ths of 45 degrees, in two's complement", float64(degrees)*256 == 45*float64(signed(data, 2, 11)))
}

func track50(data []byte, status bool, degrees float32) {
	vc.Ensures("the status of the track angle is bit 12", status == vc.Bit(data, 12))
	vc.Ensures("track angle is bits 13 to 23 in 512ths of 90 degrees, in two's complement", float64(degrees)*512 == 90*float64(signed(data, 13, 23)))
}

func rate50(data []byte, status bool, rate float32) {
	vc.Ensures("the status of the track angle rate is bit 35", status == vc.Bit(data, 35))
	vc.Ensures("track angle rate is bits 36 to 45 in 32nds of a degree per second, in two's complement", float64(rate)*32 == float64(signed(data, 36, 45)))
}

func values60(x *bds60.HeadingAndTrackReport, data []byte) {
	heading60(data, x.MagneticHeadingStatus, x.MagneticHeading)
	vc.Ensures("indicated airspeed is bits 14 to 23, its status bit 13", x.IndicatedAirSpeedStatus == vc.Bit(data, 13) && x.IndicatedAirSpeed == vc.Bits(data, 14, 23))
	mach60(data, x.MachStatus, x.Mach)
	vc.Ensures("barometric rate is bits 36 to 45 in steps of 32 ft/min, in two's complement, its status bit 35", x.BarometricAltitudeRateStatus == vc.Bit(data, 35) && x.BarometricAltitudeRate == 32*signed(data, 36, 45))
	vc.Ensures("inertial rate is bits 47 to 56 in steps of 32 ft/min, in two's complement, its status bit 46", x.InitialVerticalVelocityStatus == vc.Bit(data, 46) && x.InitialVerticalVelocity == 32*signed(data, 47, 56))
}

func heading60(data []byte, status bool, degrees float32) {
	vc.Ensures("the status of the magnetic heading is bit 1", status == vc.Bit(data, 1))
	vc.Ensures("magnetic heading is bits 2 to 12 in 512ths of 90 degrees, in two's complement", float64(degrees)*512 == 90*float64(signed(data, 2, 12)))
}

func mach60(data []byte, status bool, mach float32) {
	vc.Ensures("the status of the Mach number is bit 24", status == vc.Bit(data, 24))
	vc.Ensures("Mach number is bits 25 to 34 in steps of 0.004", vc.Near(float64(mach), 0.004*float64(vc.Bits(data, 25, 34)), 0.0001))
}

// The readers of the fields.

var (
	_ = vc.Field("P17", f07.ReadTransmissionRateSubfield, 1, 2, vc.Len("data", 7))
	_ = vc.Field("P17", f07.ReadAltitudeTypeSubfield, 3, 3, vc.Len("data", 7))
	_ = vc.Field("P17", f10.ReadContinuationFlag, 9, 9, vc.Len("data", 7))
	_ = vc.Field("P17", f10.ReadOverlayCommandCapability, 15, 15, vc.Len("data", 7))
	_ = vc.Field("P17", f10.ReadACASStatus, 16, 16, vc.Len("data", 7))
	_ = vc.Field("P17", f10.ReadModeSSubnetworkVersion, 17, 23, vc.Len("data", 7))
	_ = vc.Field("P17", f10.ReadTransponderEnhancedProtocolIndicator, 24, 24, vc.Len("data", 7))
	_ = vc.Field("P17", f10.ReadModeSSpecificServicesCapability, 25, 25, vc.Len("data", 7))
	_ = vc.Field("P17", f10.ReadUplinkELMThroughputCapability, 26, 28, vc.Len("data", 7))
	_ = vc.Field("P17", f10.ReadDownlinkELMThroughputCapability, 29, 32, vc.Len("data", 7))
	_ = vc.Field("P17", f10.ReadAircraftIdentificationCapability, 33, 33, vc.Len("data", 7))
	_ = vc.Field("P17", f10.ReadSquitterCapabilitySubfield, 34, 34, vc.Len("data", 7))
	_ = vc.Field("P17", f10.ReadSurveillanceIdentifierCode, 35, 35, vc.Len("data", 7))
	_ = vc.Field("P17", f10.ReadCommonUsageGICBCapability, 36, 36, vc.Len("data", 7))
	_ = vc.Field("P17", f10.ReadACASHybridSurveillanceCapability, 37, 37, vc.Len("data", 7))
	_ = vc.Field("P17", f10.ReadACASGenerationCapability, 38, 38, vc.Len("data", 7))
	_ = vc.Field("P17", f10.ReadACASApplicableDocument, 39, 40, vc.Len("data", 7))
	_ = vc.Field("P17", f10.ReadDTESubAddressStatuses, 41, 56, vc.Len("data", 7))
	_ = vc.Field("P17", f40.ReadStatusOfModeBits, 48, 48, vc.Len("data", 7))
	_ = vc.Field("P17", f40.ReadStatusOfTargetAltitudeSource, 54, 54, vc.Len("data", 7))
	_ = vc.Field("P17", f40.ReadTargetAltitudeSource, 55, 56, vc.Len("data", 7))
	_ = vc.Field("P17", f44.ReadSource, 1, 4, vc.Len("data", 7))
	_ = vc.Field("P17", f44.ReadTurbulenceFlag, 48, 48, vc.Len("data", 7))
)

var _ = vc.Contract("P17", f44.ReadWindDirectionV1AndV2, func(data []byte, status bool, degrees float32) { direction44(data, status, degrees) }, vc.Len("data", 7))
var _ = vc.Contract("P17", f44.ReadStaticAirTemperatureV1AndV2, func(data []byte, status bool, celsius float32) { temperature44(data, status, celsius) }, vc.Len("data", 7))
var _ = vc.Contract("P17", f44.ReadHumidityV1AndV2, func(data []byte, status bool, percent float32) { humidity44(data, status, percent) }, vc.Len("data", 7))
var _ = vc.Contract("P17", f45.ReadStaticAirTemperatureV1, func(data []byte, status bool, celsius float32) { temperature45(data, status, celsius) }, vc.Len("data", 7))
var _ = vc.Contract("P17", f45.ReadTurbulenceV1, func(data []byte, status bool, average, peak float32, delay byte) {
	turbulence45(data, status, average, peak, delay)
}, vc.Len("data", 7))
var _ = vc.Contract("P17", f50.ReadRollAngle, func(data []byte, status bool, degrees float32) { roll50(data, status, degrees) }, vc.Len("data", 7))
var _ = vc.Contract("P17", f50.ReadTrueTrackAngle, func(data []byte, status bool, degrees float32) { track50(data, status, degrees) }, vc.Len("data", 7))
var _ = vc.Contract("P17", f50.ReadTrackAngleRate, func(data []byte, status bool, rate float32) { rate50(data, status, rate) }, vc.Len("data", 7))
var _ = vc.Contract("P17", f60.ReadMagneticHeading, func(data []byte, status bool, degrees float32) { heading60(data, status, degrees) }, vc.Len("data", 7))
var _ = vc.Contract("P17", f60.ReadMach, func(data []byte, status bool, mach float32) { mach60(data, status, mach) }, vc.Len("data", 7))
var _ = vc.Contract("P17", f40.ReadBarometricPressure, func(data []byte, status bool, hPa float32) {
	vc.Ensures("the status of the pressure setting is bit 27", status == vc.Bit(data, 27))
	pressure40(data, hPa)
}, vc.Len("data", 7))

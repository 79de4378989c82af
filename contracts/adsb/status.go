package adsb

import (
	"github.com/twuillemin/modes/pkg/adsb"
	ast "github.com/twuillemin/modes/pkg/adsb/aircraft_status"
	"github.com/twuillemin/modes/pkg/adsb/reader"
	tss "github.com/twuillemin/modes/pkg/adsb/target_state_and_status"
	"github.com/twuillemin/modes/pkg/bds/bds61"
	f61 "github.com/twuillemin/modes/pkg/bds/bds61/fields"
	"github.com/twuillemin/modes/pkg/bds/bds62"
	f62 "github.com/twuillemin/modes/pkg/bds/bds62/fields"
	"verif/contracts/vc"
)

// P13: aircraft status (BDS 6,1), target state and status (BDS 6,2).

var _ = vc.Lemma("P13", "aircraft status", func(level adsb.ADSBVersion, nicA, nicC bool, data []byte) {
	m, err := reader.ReadADSBMessage(level, nicA, nicC, data)
	if err != nil {
		return
	}
	w, ok := m.(*ast.AircraftStatus)
	if !ok {
		return
	}
	s, state := vc.Bits(data, 6, 8), vc.Bits(data, 9, 11)
	vc.Ensures("the subtype is bits 6 to 8", uint32(w.GetSubtype()) == s)
	switch x := w.AircraftStatus.(type) {
	case *bds61.AircraftStatusNoInformation:
		vc.Ensures("no information is subtype 0", s == 0)
		vc.Ensures("type code of subtype 0", x.FormatTypeCode == 28)
		vc.Ensures("emergency state of subtype 0 is bits 9 to 11", uint32(x.EmergencyPriorityStatus) == state)
		vc.Ensures("subtype 0 is coherent exactly without emergency", (w.CheckCoherency() == nil) == (state == 0))
	case *bds61.AircraftStatusEmergency:
		vc.Ensures("emergency is subtype 1", s == 1)
		vc.Ensures("type code of subtype 1", x.FormatTypeCode == 28)
		vc.Ensures("emergency state is bits 9 to 11", uint32(x.EmergencyPriorityStatus) == state)
		vc.Ensures("mode A code is bits 12 to 24", uint32(x.ModeACode) == vc.Bits(data, 12, 24))
		vc.Ensures("states 0 to 5 are coherent", vc.Imp(state <= 5, w.CheckCoherency() == nil))
		vc.Ensures("state 7 is not coherent", vc.Imp(state == 7, w.CheckCoherency() != nil))
	case *bds61.AircraftStatusACAS:
		vc.Ensures("resolution advisory is subtype 2", s == 2)
		vc.Ensures("type code of subtype 2", x.FormatTypeCode == 28)
	default:
		vc.Ensures("an aircraft status is of one of three subtypes", false)
	}
}, vc.Len("data", 7))

var _ = vc.Lemma("P13", "target state and status", func(level adsb.ADSBVersion, nicA, nicC bool, data []byte) {
	m, err := reader.ReadADSBMessage(level, nicA, nicC, data)
	if err != nil {
		return
	}
	w, ok := m.(*tss.TargetStateAndStatus)
	if !ok {
		return
	}
	s := vc.Bits(data, 6, 7)
	switch x := w.TargetStateAndStatus.(type) {
	case *bds62.TargetStateAndStatus0:
		vc.Ensures("layout 0 is subtype 0", s == 0 && uint32(x.Subtype) == s && x.FormatTypeCode == 29)
		target0(x, data)
	case *bds62.TargetStateAndStatus1:
		vc.Ensures("layout 1 is subtype 1", s == 1 && uint32(x.Subtype) == s && x.FormatTypeCode == 29)
		target1(x, data)
	default:
		vc.Ensures("a target state is of one of two subtypes", false)
	}
}, vc.Len("data", 7))

func target0(x *bds62.TargetStateAndStatus0, data []byte) {
	vc.Ensures("vertical source is bits 8 and 9", uint32(x.VerticalDataAvailableSourceIndicator) == vc.Bits(data, 8, 9))
	vc.Ensures("target altitude type is bit 10", uint32(x.TargetAltitudeType) == vc.Bits(data, 10, 10))
	vc.Ensures("target altitude capability is bits 12 and 13", uint32(x.TargetAltitudeCapability) == vc.Bits(data, 12, 13))
	vc.Ensures("vertical mode is bits 14 and 15", uint32(x.VerticalModeIndicator) == vc.Bits(data, 14, 15))
	targetAltitude(data, x.TargetAltitude, x.TargetAltitudeStatus)
	vc.Ensures("horizontal source is bits 26 and 27", uint32(x.HorizontalDataAvailableSourceIndicator) == vc.Bits(data, 26, 27))
	targetHeading(data, x.TargetHeadingTrackAngle, x.TargetHeadingTrackAngleStatus)
	vc.Ensures("heading or track is bit 37", uint32(x.TargetHeadingTrackIndicator) == vc.Bits(data, 37, 37))
	vc.Ensures("horizontal mode is bits 38 and 39", uint32(x.HorizontalModeIndicator) == vc.Bits(data, 38, 39))
	vc.Ensures("position accuracy is bits 40 to 43", uint32(x.NavigationalAccuracyCategoryPosition) == vc.Bits(data, 40, 43))
	vc.Ensures("barometric integrity is bit 44", uint32(x.NICBaro) == vc.Bits(data, 44, 44))
	vc.Ensures("integrity level is bits 45 and 46", uint32(x.SurveillanceIntegrityLevel) == vc.Bits(data, 45, 46))
	vc.Ensures("capability is bits 52 and 53", uint32(x.CapabilityModeCode) == vc.Bits(data, 52, 53))
	vc.Ensures("emergency state is bits 54 to 56", uint32(x.EmergencyPriorityStatus) == vc.Bits(data, 54, 56))
}

func targetAltitude(data []byte, feet int32, status f62.NumericValueStatus) {
	n := vc.Bits(data, 16, 25)
	vc.Ensures("target altitude in steps of 100 ft from -1000 ft", vc.Imp(n <= 1010, feet == int32(n)*100-1000 && status == f62.NVSRegular))
	vc.Ensures("target altitude above 100 000 ft is not a value", vc.Imp(n > 1010, status == f62.NVSMaximum))
}

func targetHeading(data []byte, degrees uint16, status f62.NumericValueStatus) {
	n := vc.Bits(data, 28, 36)
	vc.Ensures("target heading in degrees", vc.Imp(n < 360, uint32(degrees) == n && status == f62.NVSRegular))
	vc.Ensures("target heading above 359 degrees is not a value", vc.Imp(n >= 360, status == f62.NVSMaximum))
}

func target1(x *bds62.TargetStateAndStatus1, data []byte) {
	vc.Ensures("supplement of the integrity level is bit 8", uint32(x.SourceIntegrityLevelSupplement) == vc.Bits(data, 8, 8))
	vc.Ensures("selected altitude type is bit 9", uint32(x.SelectedAltitudeType) == vc.Bits(data, 9, 9))
	selectedAltitude(data, x.SelectedAltitude, x.SelectedAltitudeStatus)
	pressureSetting(data, x.BarometricPressureSetting, x.BarometricPressureSettingStatus)
	selectedHeading(data, x.SelectedHeading, x.SelectedHeadingStatus)
	vc.Ensures("position accuracy of subtype 1 is bits 40 to 43", uint32(x.NavigationalAccuracyCategoryPosition) == vc.Bits(data, 40, 43))
	vc.Ensures("barometric integrity of subtype 1 is bit 44", uint32(x.NICBaro) == vc.Bits(data, 44, 44))
	vc.Ensures("integrity level of subtype 1 is bits 45 and 46", uint32(x.SourceIntegrityLevel) == vc.Bits(data, 45, 46))
	vc.Ensures("status of the mode bits is bit 47", uint32(x.StatusMCPFCUBits) == vc.Bits(data, 47, 47))
	vc.Ensures("autopilot is bit 48", x.AutopilotEngaged == vc.Bit(data, 48))
	vc.Ensures("vertical navigation is bit 49", x.VNAVModeEngaged == vc.Bit(data, 49))
	vc.Ensures("altitude hold is bit 50", x.AltitudeHoldModeEngaged == vc.Bit(data, 50))
	vc.Ensures("approach mode is bit 52", x.ApproachModeEngaged == vc.Bit(data, 52))
	vc.Ensures("TCAS is bit 53", x.TCASACASOperational == vc.Bit(data, 53))
	vc.Ensures("lateral navigation is bit 54", x.LNAVModeEngaged == vc.Bit(data, 54))
}

func selectedAltitude(data []byte, feet uint16, status f62.NumericValueStatus) {
	n := vc.Bits(data, 10, 20)
	vc.Ensures("selected altitude in steps of 32 ft, counted from 1", vc.Imp(n > 0, uint32(feet) == (n-1)*32 && status == f62.NVSRegular))
	vc.Ensures("no selected altitude is code 0", vc.Imp(n == 0, feet == 0 && status == f62.NVSNoInformation))
}

func pressureSetting(data []byte, hPa float32, status f62.NumericValueStatus) {
	n := vc.Bits(data, 21, 29)
	vc.Ensures("pressure setting in steps of 0.8 hPa from 800 hPa, counted from 1", vc.Imp(n > 0, vc.Near(float64(hPa), 800+0.8*(float64(n)-1), 0.001) && status == f62.NVSRegular))
	vc.Ensures("no pressure setting is code 0", vc.Imp(n == 0, hPa == 0 && status == f62.NVSNoInformation))
}

func selectedHeading(data []byte, degrees float32, status f62.SelectedHeadingStatus) {
	n := float64(vc.Bits(data, 32, 39))
	if vc.Bit(data, 31) {
		n -= 256
	}
	vc.Ensures("selected heading status is bit 30", uint32(status) == vc.Bits(data, 30, 30))
	vc.Ensures("selected heading is bits 31 to 39 in 256ths of half a turn, in two's complement", float64(degrees)*256 == n*180)
}

var _ = vc.Field("P13", f61.ReadSubtype, 6, 8, vc.Len("data", 7))
var _ = vc.Field("P13", f61.ReadEmergencyPriorityStatus, 9, 11, vc.Len("data", 7))
var _ = vc.Field("P13", f62.ReadSubtype, 6, 7, vc.Len("data", 7))
var _ = vc.Field("P13", f62.ReadVerticalDataAvailableSourceIndicator, 8, 9, vc.Len("data", 7))
var _ = vc.Field("P13", f62.ReadTargetAltitudeType, 10, 10, vc.Len("data", 7))
var _ = vc.Field("P13", f62.ReadTargetAltitudeCapability, 12, 13, vc.Len("data", 7))
var _ = vc.Field("P13", f62.ReadVerticalModeIndicator, 14, 15, vc.Len("data", 7))
var _ = vc.Field("P13", f62.ReadHorizontalDataAvailableSourceIndicator, 26, 27, vc.Len("data", 7))
var _ = vc.Field("P13", f62.ReadTargetHeadingTrackIndicator, 37, 37, vc.Len("data", 7))
var _ = vc.Field("P13", f62.ReadHorizontalModeIndicator, 38, 39, vc.Len("data", 7))
var _ = vc.Field("P13", f62.ReadNavigationalAccuracyCategoryPositionV1, 40, 43, vc.Len("data", 7))
var _ = vc.Field("P13", f62.ReadNavigationalAccuracyCategoryPositionV2, 40, 43, vc.Len("data", 7))
var _ = vc.Field("P13", f62.ReadNICBaro, 44, 44, vc.Len("data", 7))
var _ = vc.Field("P13", f62.ReadSurveillanceIntegrityLevel, 45, 46, vc.Len("data", 7))
var _ = vc.Field("P13", f62.ReadSourceIntegrityLevel, 45, 46, vc.Len("data", 7))
var _ = vc.Field("P13", f62.ReadCapabilityModeCode, 52, 53, vc.Len("data", 7))
var _ = vc.Field("P13", f62.ReadEmergencyPriorityStatus, 54, 56, vc.Len("data", 7))
var _ = vc.Field("P13", f62.ReadSourceIntegrityLevelSupplement, 8, 8, vc.Len("data", 7))
var _ = vc.Field("P13", f62.ReadSelectedAltitudeType, 9, 9, vc.Len("data", 7))
var _ = vc.Field("P13", f62.ReadStatusMCPFCUBits, 47, 47, vc.Len("data", 7))

var _ = vc.Contract("P13", f62.ReadTargetAltitude, func(data []byte, feet int32, status f62.NumericValueStatus) {
	targetAltitude(data, feet, status)
}, vc.Len("data", 7))
var _ = vc.Contract("P13", f62.ReadTargetHeadingTrackAngle, func(data []byte, degrees uint16, status f62.NumericValueStatus) {
	targetHeading(data, degrees, status)
}, vc.Len("data", 7))
var _ = vc.Contract("P13", f62.ReadSelectedAltitude, func(data []byte, feet uint16, status f62.NumericValueStatus) {
	selectedAltitude(data, feet, status)
}, vc.Len("data", 7))
var _ = vc.Contract("P13", f62.ReadBarometricPressureSetting, func(data []byte, hPa float32, status f62.NumericValueStatus) {
	pressureSetting(data, hPa, status)
}, vc.Len("data", 7))
var _ = vc.Contract("P13", f62.ReadSelectedHeading, func(data []byte, degrees float32, status f62.SelectedHeadingStatus) {
	selectedHeading(data, degrees, status)
}, vc.Len("data", 7))

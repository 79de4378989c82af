package adsb

import (
	"github.com/twuillemin/modes/pkg/adsb"
	aop "github.com/twuillemin/modes/pkg/adsb/aircraft_operational_status"
	"github.com/twuillemin/modes/pkg/adsb/reader"
	"github.com/twuillemin/modes/pkg/bds/bds65"
	f65 "github.com/twuillemin/modes/pkg/bds/bds65/fields"
	"verif/contracts/vc"
)

// P14: operational status (BDS 6,5).
var _ = vc.Lemma("P14", "operational status", func(level adsb.ADSBVersion, nicA, nicC bool, data []byte) {
	m, err := reader.ReadADSBMessage(level, nicA, nicC, data)
	if err != nil {
		return
	}
	w, ok := m.(*aop.AircraftOperationalStatus)
	if !ok {
		return
	}
	version, s := vc.Bits(data, 41, 43), vc.Bits(data, 6, 8)
	vc.Ensures("the version is bits 41 to 43", uint32(w.GetADSBVersion()) == version)
	vc.Ensures("the layout reports its version", uint32(w.GetADSBLevel()) == version)
	switch x := w.AircraftOperationalStatus.(type) {
	case *bds65.AircraftOperationalStatusADSB0:
		vc.Ensures("the initial layout is version 0", version == 0)
		vc.Ensures("the initial layout: format type code is bits 1 to 5", uint32(x.FormatTypeCode) == vc.Bits(data, 1, 5))
		vc.Ensures("the initial layout: subtype is bits 6 to 8", uint32(x.Subtype) == vc.Bits(data, 6, 8))
		vc.Ensures("the initial layout: en route operational capabilities is bits 9 to 12", uint32(x.EnRouteOperationalCapabilities) == vc.Bits(data, 9, 12))
		vc.Ensures("the initial layout: terminal area operational capabilities is bits 13 to 16", uint32(x.TerminalAreaOperationalCapabilities) == vc.Bits(data, 13, 16))
		vc.Ensures("the initial layout: approach landing operational capabilities is bits 17 to 20", uint32(x.ApproachLandingOperationalCapabilities) == vc.Bits(data, 17, 20))
		vc.Ensures("the initial layout: surface operational capabilities is bits 21 to 24", uint32(x.SurfaceOperationalCapabilities) == vc.Bits(data, 21, 24))
		vc.Ensures("the initial layout: en route operational capability status is bits 25 to 28", uint32(x.EnRouteOperationalCapabilityStatus) == vc.Bits(data, 25, 28))
		vc.Ensures("the initial layout: terminal area operational capability status is bits 29 to 32", uint32(x.TerminalAreaOperationalCapabilityStatus) == vc.Bits(data, 29, 32))
		vc.Ensures("the initial layout: approach landing operational capability status is bits 33 to 36", uint32(x.ApproachLandingOperationalCapabilityStatus) == vc.Bits(data, 33, 36))
		vc.Ensures("the initial layout: surface operational capability status is bits 37 to 40", uint32(x.SurfaceOperationalCapabilityStatus) == vc.Bits(data, 37, 40))
	case *bds65.AircraftOperationalStatusAirborneADSB1:
		vc.Ensures("airborne version 1 is subtype 0", version == 1 && s == 0)
		vc.Ensures("airborne version 1: format type code is bits 1 to 5", uint32(x.FormatTypeCode) == vc.Bits(data, 1, 5))
		vc.Ensures("airborne version 1: subtype is bits 6 to 8", uint32(x.Subtype) == vc.Bits(data, 6, 8))
		vc.Ensures("airborne version 1: not acasstatus is bit 11", uint32(x.AirborneCapabilityClass.NotACASStatus) == vc.Bits(data, 11, 11))
		vc.Ensures("airborne version 1: cockpit display of traffic information status is bit 12", uint32(x.AirborneCapabilityClass.CockpitDisplayOfTrafficInformationStatus) == vc.Bits(data, 12, 12))
		vc.Ensures("airborne version 1: air referenced velocity report capability is bit 15", uint32(x.AirborneCapabilityClass.AirReferencedVelocityReportCapability) == vc.Bits(data, 15, 15))
		vc.Ensures("airborne version 1: target state report capability is bit 16", uint32(x.AirborneCapabilityClass.TargetStateReportCapability) == vc.Bits(data, 16, 16))
		vc.Ensures("airborne version 1: target change report capability is bits 17 to 18", uint32(x.AirborneCapabilityClass.TargetChangeReportCapability) == vc.Bits(data, 17, 18))
		vc.Ensures("airborne version 1: acasresolution advisory active is bit 27", uint32(x.OperationalMode.ACASResolutionAdvisoryActive) == vc.Bits(data, 27, 27))
		vc.Ensures("airborne version 1: ident switch active is bit 28", uint32(x.OperationalMode.IdentSwitchActive) == vc.Bits(data, 28, 28))
		vc.Ensures("airborne version 1: receiving atcservices is bit 29", uint32(x.OperationalMode.ReceivingATCServices) == vc.Bits(data, 29, 29))
		vc.Ensures("airborne version 1: version number is bits 41 to 43", uint32(x.VersionNumber) == vc.Bits(data, 41, 43))
		vc.Ensures("airborne version 1: nicsupplement is bit 44", uint32(x.NICSupplement) == vc.Bits(data, 44, 44))
		vc.Ensures("airborne version 1: navigational accuracy category position is bits 45 to 48", uint32(x.NavigationalAccuracyCategoryPosition) == vc.Bits(data, 45, 48))
		vc.Ensures("airborne version 1: surveillance integrity level is bits 51 to 52", uint32(x.SurveillanceIntegrityLevel) == vc.Bits(data, 51, 52))
		vc.Ensures("airborne version 1: horizontal reference direction is bit 54", uint32(x.HorizontalReferenceDirection) == vc.Bits(data, 54, 54))
		vc.Ensures("airborne version 1: nicbaro is bit 53", uint32(x.NICBaro) == vc.Bits(data, 53, 53))
	case *bds65.AircraftOperationalStatusSurfaceADSB1:
		vc.Ensures("surface version 1 is subtype 1", version == 1 && s == 1)
		vc.Ensures("surface version 1: format type code is bits 1 to 5", uint32(x.FormatTypeCode) == vc.Bits(data, 1, 5))
		vc.Ensures("surface version 1: subtype is bits 6 to 8", uint32(x.Subtype) == vc.Bits(data, 6, 8))
		vc.Ensures("surface version 1: position offset applied is bit 11", uint32(x.SurfaceCapabilityClass.PositionOffsetApplied) == vc.Bits(data, 11, 11))
		vc.Ensures("surface version 1: cockpit display of traffic information status is bit 12", uint32(x.SurfaceCapabilityClass.CockpitDisplayOfTrafficInformationStatus) == vc.Bits(data, 12, 12))
		vc.Ensures("surface version 1: b2 low is bit 15", uint32(x.SurfaceCapabilityClass.B2Low) == vc.Bits(data, 15, 15))
		vc.Ensures("surface version 1: length and width is bits 21 to 24", uint32(x.LengthAndWidth) == vc.Bits(data, 21, 24))
		vc.Ensures("surface version 1: acasresolution advisory active is bit 27", uint32(x.OperationalMode.ACASResolutionAdvisoryActive) == vc.Bits(data, 27, 27))
		vc.Ensures("surface version 1: ident switch active is bit 28", uint32(x.OperationalMode.IdentSwitchActive) == vc.Bits(data, 28, 28))
		vc.Ensures("surface version 1: receiving atcservices is bit 29", uint32(x.OperationalMode.ReceivingATCServices) == vc.Bits(data, 29, 29))
		vc.Ensures("surface version 1: version number is bits 41 to 43", uint32(x.VersionNumber) == vc.Bits(data, 41, 43))
		vc.Ensures("surface version 1: nicsupplement is bit 44", uint32(x.NICSupplement) == vc.Bits(data, 44, 44))
		vc.Ensures("surface version 1: navigational accuracy category position is bits 45 to 48", uint32(x.NavigationalAccuracyCategoryPosition) == vc.Bits(data, 45, 48))
		vc.Ensures("surface version 1: surveillance integrity level is bits 51 to 52", uint32(x.SurveillanceIntegrityLevel) == vc.Bits(data, 51, 52))
		vc.Ensures("surface version 1: horizontal reference direction is bit 54", uint32(x.HorizontalReferenceDirection) == vc.Bits(data, 54, 54))
		vc.Ensures("surface version 1: track angle heading is bit 53", uint32(x.TrackAngleHeading) == vc.Bits(data, 53, 53))
	case *bds65.AircraftOperationalStatusAirborneADSB2:
		vc.Ensures("airborne version 2 is subtype 0", version == 2 && s == 0)
		vc.Ensures("airborne version 2: format type code is bits 1 to 5", uint32(x.FormatTypeCode) == vc.Bits(data, 1, 5))
		vc.Ensures("airborne version 2: subtype is bits 6 to 8", uint32(x.Subtype) == vc.Bits(data, 6, 8))
		vc.Ensures("airborne version 2: acasoperational is bit 11", uint32(x.AirborneCapabilityClass.ACASOperational) == vc.Bits(data, 11, 11))
		vc.Ensures("airborne version 2: extended squitter in is bit 12", uint32(x.AirborneCapabilityClass.ExtendedSquitterIn) == vc.Bits(data, 12, 12))
		vc.Ensures("airborne version 2: air referenced velocity report capability is bit 15", uint32(x.AirborneCapabilityClass.AirReferencedVelocityReportCapability) == vc.Bits(data, 15, 15))
		vc.Ensures("airborne version 2: target state report capability is bit 16", uint32(x.AirborneCapabilityClass.TargetStateReportCapability) == vc.Bits(data, 16, 16))
		vc.Ensures("airborne version 2: target change report capability is bits 17 to 18", uint32(x.AirborneCapabilityClass.TargetChangeReportCapability) == vc.Bits(data, 17, 18))
		vc.Ensures("airborne version 2: universal access transceiver capability is bit 19", uint32(x.AirborneCapabilityClass.UniversalAccessTransceiverCapability) == vc.Bits(data, 19, 19))
		vc.Ensures("airborne version 2: acasresolution advisory active is bit 27", uint32(x.OperationalMode.ACASResolutionAdvisoryActive) == vc.Bits(data, 27, 27))
		vc.Ensures("airborne version 2: ident switch active is bit 28", uint32(x.OperationalMode.IdentSwitchActive) == vc.Bits(data, 28, 28))
		vc.Ensures("airborne version 2: single antenna flag is bit 30", uint32(x.OperationalMode.SingleAntennaFlag) == vc.Bits(data, 30, 30))
		vc.Ensures("airborne version 2: system design assurance is bits 31 to 32", uint32(x.OperationalMode.SystemDesignAssurance) == vc.Bits(data, 31, 32))
		vc.Ensures("airborne version 2: version number is bits 41 to 43", uint32(x.VersionNumber) == vc.Bits(data, 41, 43))
		vc.Ensures("airborne version 2: nicsupplement a is bit 44", uint32(x.NICSupplementA) == vc.Bits(data, 44, 44))
		vc.Ensures("airborne version 2: navigational accuracy category position is bits 45 to 48", uint32(x.NavigationalAccuracyCategoryPosition) == vc.Bits(data, 45, 48))
		vc.Ensures("airborne version 2: source integrity level is bits 51 to 52", uint32(x.SourceIntegrityLevel) == vc.Bits(data, 51, 52))
		vc.Ensures("airborne version 2: horizontal reference direction is bit 54", uint32(x.HorizontalReferenceDirection) == vc.Bits(data, 54, 54))
		vc.Ensures("airborne version 2: source integrity level supplement is bit 55", uint32(x.SourceIntegrityLevelSupplement) == vc.Bits(data, 55, 55))
		vc.Ensures("airborne version 2: nicbaro is bit 53", uint32(x.NICBaro) == vc.Bits(data, 53, 53))
		vc.Ensures("airborne version 2: geometric vertical accuracy is bits 49 to 50", uint32(x.GeometricVerticalAccuracy) == vc.Bits(data, 49, 50))
	case *bds65.AircraftOperationalStatusSurfaceADSB2:
		vc.Ensures("surface version 2 is subtype 1", version == 2 && s == 1)
		vc.Ensures("surface version 2: format type code is bits 1 to 5", uint32(x.FormatTypeCode) == vc.Bits(data, 1, 5))
		vc.Ensures("surface version 2: subtype is bits 6 to 8", uint32(x.Subtype) == vc.Bits(data, 6, 8))
		vc.Ensures("surface version 2: extended squitter in is bit 12", uint32(x.SurfaceCapabilityClass.ExtendedSquitterIn) == vc.Bits(data, 12, 12))
		vc.Ensures("surface version 2: b2 low is bit 15", uint32(x.SurfaceCapabilityClass.B2Low) == vc.Bits(data, 15, 15))
		vc.Ensures("surface version 2: universal access transceiver capability is bit 16", uint32(x.SurfaceCapabilityClass.UniversalAccessTransceiverCapability) == vc.Bits(data, 16, 16))
		vc.Ensures("surface version 2: navigation accuracy category velocity is bits 17 to 19", uint32(x.SurfaceCapabilityClass.NavigationAccuracyCategoryVelocity) == vc.Bits(data, 17, 19))
		vc.Ensures("surface version 2: nicsupplement c is bit 20", uint32(x.SurfaceCapabilityClass.NICSupplementC) == vc.Bits(data, 20, 20))
		vc.Ensures("surface version 2: length and width is bits 21 to 24", uint32(x.LengthAndWidth) == vc.Bits(data, 21, 24))
		vc.Ensures("surface version 2: acasresolution advisory active is bit 27", uint32(x.OperationalMode.ACASResolutionAdvisoryActive) == vc.Bits(data, 27, 27))
		vc.Ensures("surface version 2: ident switch active is bit 28", uint32(x.OperationalMode.IdentSwitchActive) == vc.Bits(data, 28, 28))
		vc.Ensures("surface version 2: single antenna flag is bit 30", uint32(x.OperationalMode.SingleAntennaFlag) == vc.Bits(data, 30, 30))
		vc.Ensures("surface version 2: system design assurance is bits 31 to 32", uint32(x.OperationalMode.SystemDesignAssurance) == vc.Bits(data, 31, 32))
		vc.Ensures("surface version 2: gpsantenna lateral is bits 33 to 35", uint32(x.OperationalMode.GPSAntenna.GPSAntennaLateral) == vc.Bits(data, 33, 35))
		vc.Ensures("surface version 2: gpsantenna longitudinal is bits 36 to 40", uint32(x.OperationalMode.GPSAntenna.GPSAntennaLongitudinal) == vc.Bits(data, 36, 40))
		vc.Ensures("surface version 2: version number is bits 41 to 43", uint32(x.VersionNumber) == vc.Bits(data, 41, 43))
		vc.Ensures("surface version 2: nicsupplement a is bit 44", uint32(x.NICSupplementA) == vc.Bits(data, 44, 44))
		vc.Ensures("surface version 2: navigational accuracy category position is bits 45 to 48", uint32(x.NavigationalAccuracyCategoryPosition) == vc.Bits(data, 45, 48))
		vc.Ensures("surface version 2: source integrity level is bits 51 to 52", uint32(x.SourceIntegrityLevel) == vc.Bits(data, 51, 52))
		vc.Ensures("surface version 2: horizontal reference direction is bit 54", uint32(x.HorizontalReferenceDirection) == vc.Bits(data, 54, 54))
		vc.Ensures("surface version 2: source integrity level supplement is bit 55", uint32(x.SourceIntegrityLevelSupplement) == vc.Bits(data, 55, 55))
		vc.Ensures("surface version 2: track angle heading is bit 53", uint32(x.TrackAngleHeading) == vc.Bits(data, 53, 53))
	default:
		vc.Ensures("an operational status has one of five layouts", false)
	}
}, vc.Len("data", 7))

var _ = vc.Field("P14", f65.ReadACASOperational, 11, 11, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadACASResolutionAdvisoryActiveV1, 27, 27, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadACASResolutionAdvisoryActiveV2, 27, 27, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadAirReferencedVelocityReportCapability, 15, 15, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadApproachLandingOperationalCapabilities, 17, 20, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadApproachLandingOperationalCapabilityStatus, 33, 36, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadB2Low, 15, 15, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadCockpitDisplayOfTrafficInformationStatus, 12, 12, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadEnRouteOperationalCapabilities, 9, 12, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadEnRouteOperationalCapabilityStatus, 25, 28, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadExtendedSquitterIn, 12, 12, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadGeometricVerticalAccuracy, 49, 50, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadGPSAntennaLateral, 33, 35, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadGPSAntennaLongitudinal, 36, 40, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadHorizontalReferenceDirection, 54, 54, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadIdentSwitchActive, 28, 28, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadAircraftLengthAndWidth, 21, 24, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadNavigationAccuracyCategoryVelocity, 17, 19, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadNavigationalAccuracyCategoryPositionV1, 45, 48, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadNavigationalAccuracyCategoryPositionV2, 45, 48, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadNICBaro, 53, 53, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadNICSupplementA, 44, 44, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadNICSupplementC, 20, 20, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadNotACASStatus, 11, 11, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadPositionOffsetApplied, 11, 11, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadReceivingATCServices, 29, 29, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadSingleAntennaFlag, 30, 30, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadSourceIntegrityLevel, 51, 52, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadSourceIntegrityLevelSupplement, 55, 55, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadSubtype, 6, 8, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadSurfaceOperationalCapabilities, 21, 24, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadSurfaceOperationalCapabilityStatus, 37, 40, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadSurveillanceIntegrityLevel, 51, 52, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadSystemDesignAssurance, 31, 32, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadTargetChangeReportCapability, 17, 18, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadTargetStateReportCapability, 16, 16, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadTerminalAreaOperationalCapabilities, 13, 16, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadTerminalAreaOperationalCapabilityStatus, 29, 32, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadTrackAngleHeading, 53, 53, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadUniversalAccessTransceiverCapabilityAirborne, 19, 19, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadUniversalAccessTransceiverCapabilitySurface, 16, 16, vc.Len("data", 7))
var _ = vc.Field("P14", f65.ReadVersionNumber, 41, 43, vc.Len("data", 7))

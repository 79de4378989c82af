// Package text holds the contracts of the printed forms of coded values.
package text

import (
	ra "github.com/twuillemin/modes/pkg/acas/ra/fields"
	b05 "github.com/twuillemin/modes/pkg/bds/bds05/fields"
	b06 "github.com/twuillemin/modes/pkg/bds/bds06/fields"
	b07 "github.com/twuillemin/modes/pkg/bds/bds07/fields"
	b08 "github.com/twuillemin/modes/pkg/bds/bds08/fields"
	b09 "github.com/twuillemin/modes/pkg/bds/bds09/fields"
	b10 "github.com/twuillemin/modes/pkg/bds/bds10/fields"
	b40 "github.com/twuillemin/modes/pkg/bds/bds40/fields"
	b44 "github.com/twuillemin/modes/pkg/bds/bds44/fields"
	b45 "github.com/twuillemin/modes/pkg/bds/bds45/fields"
	b61 "github.com/twuillemin/modes/pkg/bds/bds61/fields"
	b62 "github.com/twuillemin/modes/pkg/bds/bds62/fields"
	b65 "github.com/twuillemin/modes/pkg/bds/bds65/fields"
	ms "github.com/twuillemin/modes/pkg/modes/fields"
	"verif/contracts/vc"
)

var (
	_ = vc.Contract("P19", ra.ThreatTypeIndicator.ToString, func(x ra.ThreatTypeIndicator, s string) { coded(int(x), s, 0, 3) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b05.AltitudeReportMethod.ToString, func(x b05.AltitudeReportMethod, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b05.AltitudeSource.ToString, func(x b05.AltitudeSource, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b05.CompactPositionReportingFormat.ToString, func(x b05.CompactPositionReportingFormat, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b05.SingleAntennaFlag.ToString, func(x b05.SingleAntennaFlag, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b05.SurveillanceStatus.ToString, func(x b05.SurveillanceStatus, s string) { coded(int(x), s, 0, 3) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b05.Time.ToString, func(x b05.Time, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b06.CompactPositionReportingFormat.ToString, func(x b06.CompactPositionReportingFormat, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b06.MovementStatus.ToString, func(x b06.MovementStatus, s string) { coded(int(x), s, 0, 255) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b06.Time.ToString, func(x b06.Time, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b07.AltitudeTypeSubfield.ToString, func(x b07.AltitudeTypeSubfield, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b07.TransmissionRateSubfield.ToString, func(x b07.TransmissionRateSubfield, s string) { coded(int(x), s, 0, 2) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b08.AircraftCategorySetA.ToString, func(x b08.AircraftCategorySetA, s string) { coded(int(x), s, 0, 7) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b08.AircraftCategorySetB.ToString, func(x b08.AircraftCategorySetB, s string) { coded(int(x), s, 0, 7) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b08.AircraftCategorySetC.ToString, func(x b08.AircraftCategorySetC, s string) { coded(int(x), s, 0, 7) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b08.AircraftCategorySetD.ToString, func(x b08.AircraftCategorySetD, s string) { coded(int(x), s, 0, 7) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b09.DirectionEastWest.ToString, func(x b09.DirectionEastWest, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b09.DirectionNorthSouth.ToString, func(x b09.DirectionNorthSouth, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b09.IFRCapability.ToString, func(x b09.IFRCapability, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b09.IntentChange.ToString, func(x b09.IntentChange, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b09.MagneticHeadingStatus.ToString, func(x b09.MagneticHeadingStatus, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b09.NavigationUncertaintyCategory.ToString, func(x b09.NavigationUncertaintyCategory, s string) { coded(int(x), s, 0, 4) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b09.Subtype.ToString, func(x b09.Subtype, s string) { coded(int(x), s, 1, 4) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b09.VerticalRateSource.ToString, func(x b09.VerticalRateSource, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b10.ACASGenerationCapability.ToString, func(x b10.ACASGenerationCapability, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b10.ACASHybridSurveillanceCapability.ToString, func(x b10.ACASHybridSurveillanceCapability, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b10.ACASStatus.ToString, func(x b10.ACASStatus, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b10.AircraftIdentificationCapability.ToString, func(x b10.AircraftIdentificationCapability, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b10.CommonUsageGICBCapability.ToString, func(x b10.CommonUsageGICBCapability, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b10.ContinuationFlag.ToString, func(x b10.ContinuationFlag, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b10.DownlinkELMThroughputCapability.ToString, func(x b10.DownlinkELMThroughputCapability, s string) { coded(int(x), s, 0, 6) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b10.ModeSSpecificServicesCapability.ToString, func(x b10.ModeSSpecificServicesCapability, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b10.ModeSSubnetworkVersion.ToString, func(x b10.ModeSSubnetworkVersion, s string) { coded(int(x), s, 0, 5) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b10.OverlayCommandCapability.ToString, func(x b10.OverlayCommandCapability, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b10.SquitterCapabilitySubfield.ToString, func(x b10.SquitterCapabilitySubfield, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b10.SurveillanceIdentifierCode.ToString, func(x b10.SurveillanceIdentifierCode, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b10.TransponderEnhancedProtocolIndicator.ToString, func(x b10.TransponderEnhancedProtocolIndicator, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b10.UplinkELMThroughputCapability.ToString, func(x b10.UplinkELMThroughputCapability, s string) { coded(int(x), s, 0, 6) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b40.StatusOfModeBits.ToString, func(x b40.StatusOfModeBits, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b40.StatusOfTargetAltitudeSource.ToString, func(x b40.StatusOfTargetAltitudeSource, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b40.TargetAltitudeSource.ToString, func(x b40.TargetAltitudeSource, s string) { coded(int(x), s, 0, 3) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b44.Source.ToString, func(x b44.Source, s string) { coded(int(x), s, 0, 4) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b44.TurbulenceFlag.ToString, func(x b44.TurbulenceFlag, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b44.TurbulenceLevel.ToString, func(x b44.TurbulenceLevel, s string) { coded(int(x), s, 0, 3) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b45.HazardLevel.ToString, func(x b45.HazardLevel, s string) { coded(int(x), s, 0, 3) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b61.EmergencyPriorityStatus.ToString, func(x b61.EmergencyPriorityStatus, s string) { coded(int(x), s, 0, 7) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b61.Subtype.ToString, func(x b61.Subtype, s string) { coded(int(x), s, 0, 7) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b62.CapabilityModeCode.ToString, func(x b62.CapabilityModeCode, s string) { coded(int(x), s, 0, 3) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b62.EmergencyPriorityStatus.ToString, func(x b62.EmergencyPriorityStatus, s string) { coded(int(x), s, 0, 7) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b62.HorizontalDataAvailableSourceIndicator.ToString, func(x b62.HorizontalDataAvailableSourceIndicator, s string) { coded(int(x), s, 0, 3) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b62.HorizontalModeIndicator.ToString, func(x b62.HorizontalModeIndicator, s string) { coded(int(x), s, 0, 3) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b62.NICBaro.ToString, func(x b62.NICBaro, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b62.NavigationalAccuracyCategoryPositionV1.ToString, func(x b62.NavigationalAccuracyCategoryPositionV1, s string) { coded(int(x), s, 0, 15) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b62.NavigationalAccuracyCategoryPositionV2.ToString, func(x b62.NavigationalAccuracyCategoryPositionV2, s string) { coded(int(x), s, 0, 15) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b62.SelectedAltitudeType.ToString, func(x b62.SelectedAltitudeType, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b62.SelectedHeadingStatus.ToString, func(x b62.SelectedHeadingStatus, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b62.SourceIntegrityLevel.ToString, func(x b62.SourceIntegrityLevel, s string) { coded(int(x), s, 0, 3) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b62.SourceIntegrityLevelSupplement.ToString, func(x b62.SourceIntegrityLevelSupplement, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b62.StatusMCPFCUBits.ToString, func(x b62.StatusMCPFCUBits, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b62.Subtype.ToString, func(x b62.Subtype, s string) { coded(int(x), s, 0, 3) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b62.TargetAltitudeCapability.ToString, func(x b62.TargetAltitudeCapability, s string) { coded(int(x), s, 0, 3) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b62.TargetAltitudeType.ToString, func(x b62.TargetAltitudeType, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b62.TargetHeadingTrackIndicator.ToString, func(x b62.TargetHeadingTrackIndicator, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b62.VerticalDataAvailableSourceIndicator.ToString, func(x b62.VerticalDataAvailableSourceIndicator, s string) { coded(int(x), s, 0, 3) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b62.VerticalModeIndicator.ToString, func(x b62.VerticalModeIndicator, s string) { coded(int(x), s, 0, 3) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b65.ACASOperational.ToString, func(x b65.ACASOperational, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b65.ACASResolutionAdvisoryActiveV1.ToString, func(x b65.ACASResolutionAdvisoryActiveV1, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b65.ACASResolutionAdvisoryActiveV2.ToString, func(x b65.ACASResolutionAdvisoryActiveV2, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b65.AirReferencedVelocityReportCapability.ToString, func(x b65.AirReferencedVelocityReportCapability, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b65.ApproachLandingOperationalCapabilities.ToString, func(x b65.ApproachLandingOperationalCapabilities, s string) { coded(int(x), s, 0, 15) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b65.ApproachLandingOperationalCapabilityStatus.ToString, func(x b65.ApproachLandingOperationalCapabilityStatus, s string) { coded(int(x), s, 0, 15) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b65.B2Low.ToString, func(x b65.B2Low, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b65.CockpitDisplayOfTrafficInformationStatus.ToString, func(x b65.CockpitDisplayOfTrafficInformationStatus, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b65.EnRouteOperationalCapabilities.ToString, func(x b65.EnRouteOperationalCapabilities, s string) { coded(int(x), s, 0, 15) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b65.EnRouteOperationalCapabilityStatus.ToString, func(x b65.EnRouteOperationalCapabilityStatus, s string) { coded(int(x), s, 0, 15) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b65.ExtendedSquitterIn.ToString, func(x b65.ExtendedSquitterIn, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b65.GPSAntennaLateral.ToString, func(x b65.GPSAntennaLateral, s string) { coded(int(x), s, 0, 7) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b65.GPSAntennaLongitudinal.ToString, func(x b65.GPSAntennaLongitudinal, s string) { coded(int(x), s, 0, 31) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b65.GeometricVerticalAccuracy.ToString, func(x b65.GeometricVerticalAccuracy, s string) { coded(int(x), s, 0, 3) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b65.HorizontalReferenceDirection.ToString, func(x b65.HorizontalReferenceDirection, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b65.IdentSwitchActive.ToString, func(x b65.IdentSwitchActive, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b65.LengthWidth.ToString, func(x b65.LengthWidth, s string) { coded(int(x), s, 0, 15) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b65.NICBaro.ToString, func(x b65.NICBaro, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b65.NavigationAccuracyCategoryVelocity.ToString, func(x b65.NavigationAccuracyCategoryVelocity, s string) { coded(int(x), s, 0, 255) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b65.NavigationalAccuracyCategoryPositionV1.ToString, func(x b65.NavigationalAccuracyCategoryPositionV1, s string) { coded(int(x), s, 0, 15) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b65.NavigationalAccuracyCategoryPositionV2.ToString, func(x b65.NavigationalAccuracyCategoryPositionV2, s string) { coded(int(x), s, 0, 15) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b65.NotACASStatus.ToString, func(x b65.NotACASStatus, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b65.PositionOffsetApplied.ToString, func(x b65.PositionOffsetApplied, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b65.ReceivingATCServices.ToString, func(x b65.ReceivingATCServices, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b65.SingleAntennaFlag.ToString, func(x b65.SingleAntennaFlag, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b65.SourceIntegrityLevel.ToString, func(x b65.SourceIntegrityLevel, s string) { coded(int(x), s, 0, 3) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b65.SourceIntegrityLevelSupplement.ToString, func(x b65.SourceIntegrityLevelSupplement, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b65.Subtype.ToString, func(x b65.Subtype, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b65.SurfaceOperationalCapabilities.ToString, func(x b65.SurfaceOperationalCapabilities, s string) { coded(int(x), s, 0, 15) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b65.SurfaceOperationalCapabilityStatus.ToString, func(x b65.SurfaceOperationalCapabilityStatus, s string) { coded(int(x), s, 0, 15) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b65.SystemDesignAssurance.ToString, func(x b65.SystemDesignAssurance, s string) { coded(int(x), s, 0, 3) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b65.TargetChangeReportCapability.ToString, func(x b65.TargetChangeReportCapability, s string) { coded(int(x), s, 0, 3) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b65.TargetStateReportCapability.ToString, func(x b65.TargetStateReportCapability, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b65.TerminalAreaOperationalCapabilities.ToString, func(x b65.TerminalAreaOperationalCapabilities, s string) { coded(int(x), s, 0, 15) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b65.TerminalAreaOperationalCapabilityStatus.ToString, func(x b65.TerminalAreaOperationalCapabilityStatus, s string) { coded(int(x), s, 0, 15) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b65.TrackAngleHeading.ToString, func(x b65.TrackAngleHeading, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b65.UniversalAccessTransceiverCapability.ToString, func(x b65.UniversalAccessTransceiverCapability, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", b65.VersionNumber.ToString, func(x b65.VersionNumber, s string) { coded(int(x), s, 0, 255) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", ms.AltitudeReportMethod.ToString, func(x ms.AltitudeReportMethod, s string) { coded(int(x), s, 1, 4) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", ms.ApplicationField.ToString, func(x ms.ApplicationField, s string) { coded(int(x), s, 0, 7) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", ms.Capability.ToString, func(x ms.Capability, s string) { coded(int(x), s, 0, 7) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", ms.ControlELM.ToString, func(x ms.ControlELM, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", ms.ControlField.ToString, func(x ms.ControlField, s string) { coded(int(x), s, 0, 7) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", ms.CrossLinkCompatibility.ToString, func(x ms.CrossLinkCompatibility, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", ms.DownlinkRequest.ToString, func(x ms.DownlinkRequest, s string) { coded(int(x), s, 0, 31) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", ms.FlightStatus.ToString, func(x ms.FlightStatus, s string) { coded(int(x), s, 0, 7) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", ms.NumberOfDSegment.ToString, func(x ms.NumberOfDSegment, s string) { coded(int(x), s, 0, 255) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", ms.ReplyInformationAirAir.ToString, func(x ms.ReplyInformationAirAir, s string) { coded(int(x), s, 0, 15) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", ms.SensitivityLevelReport.ToString, func(x ms.SensitivityLevelReport, s string) { coded(int(x), s, 0, 7) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", ms.UtilityMessageIdentifierDesignator.ToString, func(x ms.UtilityMessageIdentifierDesignator, s string) { coded(int(x), s, 0, 3) }, vc.Range("x", 0, 255), vc.NotModular())
	_ = vc.Contract("P19", ms.VerticalStatus.ToString, func(x ms.VerticalStatus, s string) { coded(int(x), s, 0, 1) }, vc.Range("x", 0, 255), vc.NotModular())
)

// code returns the decimal number a text starts with and the first byte that
// follows it; -1 if there is none.
func code(s string) (n int, next byte) {
	k := 0
	for k < len(s) && k < 3 && '0' <= s[k] && s[k] <= '9' {
		n = 10*n + int(s[k]-'0')
		k++
	}
	if k == 0 {
		return -1, 0
	}
	if k < len(s) {
		next = s[k]
	}
	return n, next
}

func unknown(s string) bool {
	const u = " - Unknown code"
	return len(s) > len(u) && s[len(s)-len(u):] == u
}

// coded: the text of code x; the codes lo to hi have a meaning.
func coded(x int, s string, lo, hi int) {
	n, next := code(s)
	vc.Ensures("the text starts with the code", n == x && (next < '0' || next > '9'))
	vc.Ensures("a code is unknown exactly when it has no meaning", unknown(s) == (x < lo || x > hi))
}

From bc92a012cc5c69a4359351c57ac0209f0463df69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:11 +0000
Subject: [PATCH 01/28] fix: place the high bits of the threat altitude code
 (C1, A1) at the top of the code

---
 pkg/acas/ra/fields/threat_identity_altitude.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/acas/ra/fields/threat_identity_altitude.go b/pkg/acas/ra/fields/threat_identity_altitude.go
index 3cc0894..c256838 100644
--- a/pkg/acas/ra/fields/threat_identity_altitude.go
+++ b/pkg/acas/ra/fields/threat_identity_altitude.go
@@ -37,7 +37,7 @@ func ReadThreatIdentityAltitude(data []byte) (ThreatIdentityAltitude, error) {
 	// Then C2 A2 C4 A4
 	altitudeCode += uint16(data[3]&0xF0) << 2
 	// Then C1 A1
-	altitudeCode += uint16(data[2]&0x03) << 2
+	altitudeCode += uint16(data[2]&0x03) << 10
 
 	// Detect invalid altitude
 	if altitudeCode == 0 {
-- 
2.43.0


From b61d282e593e15091811097c67cee1a3796dee20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:12 +0000
Subject: [PATCH 02/28] fix: read both low bits of the threat range

---
 pkg/acas/ra/fields/threat_identity_range.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/acas/ra/fields/threat_identity_range.go b/pkg/acas/ra/fields/threat_identity_range.go
index 762e95a..d566ad5 100644
--- a/pkg/acas/ra/fields/threat_identity_range.go
+++ b/pkg/acas/ra/fields/threat_identity_range.go
@@ -39,6 +39,6 @@ func (threatRange ThreatIdentityRange) GetRange() float64 {
 // ReadThreatIdentityRange reads the ThreatIdentityRange
 func ReadThreatIdentityRange(data []byte) ThreatIdentityRange {
 
-	bits := (data[4]&0x1F)<<2 + (data[5]&0xA0)>>6
+	bits := (data[4]&0x1F)<<2 + (data[5]&0xC0)>>6
 	return ThreatIdentityRange(bits)
 }
-- 
2.43.0


From a920a846bc30b0d5c807b5d3aab2d6c5b15586f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:13 +0000
Subject: [PATCH 03/28] fix: do not compute the printed threat bearing modulo
 256

---
 pkg/acas/ra/fields/threat_identity_bearing.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/acas/ra/fields/threat_identity_bearing.go b/pkg/acas/ra/fields/threat_identity_bearing.go
index f4f39f3..a47044b 100644
--- a/pkg/acas/ra/fields/threat_identity_bearing.go
+++ b/pkg/acas/ra/fields/threat_identity_bearing.go
@@ -14,7 +14,7 @@ func (threatBearing ThreatIdentityBearing) ToString() string {
 	if threatBearing == 0 {
 		return " 0 - No bearing estimate available"
 	} else if 1 <= threatBearing && threatBearing <= 60 {
-		return fmt.Sprintf("%v - between %v and %v", threatBearing, (threatBearing-1)*6, threatBearing*6)
+		return fmt.Sprintf("%v - between %v and %v", threatBearing, (int(threatBearing)-1)*6, int(threatBearing)*6)
 	} else if 61 <= threatBearing && threatBearing <= 63 {
 		return fmt.Sprintf("%v - Not assigned", threatBearing)
 	}
-- 
2.43.0


From 1017e3d998aa964d9893533e8ad3e991fc0ae1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 04/28] fix: print the sense of the resolution advisory, not
 always upward

---
 .../fields/active_resolution_advisory_one_or_same_separation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/acas/ra/fields/active_resolution_advisory_one_or_same_separation.go b/pkg/acas/ra/fields/active_resolution_advisory_one_or_same_separation.go
index 5fd7c79..786ff46 100644
--- a/pkg/acas/ra/fields/active_resolution_advisory_one_or_same_separation.go
+++ b/pkg/acas/ra/fields/active_resolution_advisory_one_or_same_separation.go
@@ -119,7 +119,7 @@ const (
 
 // ToString returns a basic, but readable, representation of the field
 func (sense ActiveRASense) ToString() string {
-	switch ActiveRASenseUpward {
+	switch sense {
 	case ActiveRASenseUpward:
 		return "Upward"
 	case ActiveRASenseDownward:
-- 
2.43.0


From ee615ffcd0c97c6bcad6204a987404166a29712a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:25 +0000
Subject: [PATCH 05/28] fix: refuse aircraft status subtype 0 with bits 17 to
 56 set

---
 pkg/bds/bds61/aircraft_status_no_information.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds61/aircraft_status_no_information.go b/pkg/bds/bds61/aircraft_status_no_information.go
index 2156941..d969495 100644
--- a/pkg/bds/bds61/aircraft_status_no_information.go
+++ b/pkg/bds/bds61/aircraft_status_no_information.go
@@ -67,7 +67,7 @@ func ReadAircraftStatusNoInformation(data []byte) (*AircraftStatusNoInformation,
 	}
 
 	for i := uint(2); i < 7; i++ {
-		if (data[1] & 0x1F) != 0 {
+		if data[i] != 0 {
 			return nil, errors.New("the bits 17 to 56 are expected to be 0")
 		}
 	}
-- 
2.43.0


From 6112114806c4f57de98fc576e31127a81129c958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:26 +0000
Subject: [PATCH 06/28] fix: read the low bits of the target heading from the
 byte that holds them

---
 pkg/bds/bds62/fields/target_heading_track_angle.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds62/fields/target_heading_track_angle.go b/pkg/bds/bds62/fields/target_heading_track_angle.go
index 1f5d2b5..fa02562 100644
--- a/pkg/bds/bds62/fields/target_heading_track_angle.go
+++ b/pkg/bds/bds62/fields/target_heading_track_angle.go
@@ -40,7 +40,7 @@ func ReadTargetHeadingTrackIndicator(data []byte) TargetHeadingTrackIndicator {
 // Specified in Doc 9871 / B.2.3.9.9
 func ReadTargetHeadingTrackAngle(data []byte) (uint16, NumericValueStatus) {
 	byte1 := data[3] & 0x1F
-	byte2 := data[2] & 0xF0
+	byte2 := data[4] & 0xF0
 	targetHeading := bitutils.Pack2Bytes(byte1, byte2) >> 4
 
 	if targetHeading > 359 {
-- 
2.43.0


From 1cd4a532ea6abf2207f29c4678cac092c03e0022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:27 +0000
Subject: [PATCH 07/28] fix: read the selected altitude type from bit 9, not
 the SIL supplement

---
 pkg/bds/bds62/fields/selected_altitude_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds62/fields/selected_altitude_type.go b/pkg/bds/bds62/fields/selected_altitude_type.go
index 7a822bd..d6c5602 100644
--- a/pkg/bds/bds62/fields/selected_altitude_type.go
+++ b/pkg/bds/bds62/fields/selected_altitude_type.go
@@ -29,6 +29,6 @@ func (status SelectedAltitudeType) ToString() string {
 
 // ReadSelectedAltitudeType reads the SelectedAltitudeType from a 56 bits data field
 func ReadSelectedAltitudeType(data []byte) SelectedAltitudeType {
-	bits := data[0] & 0x01
+	bits := (data[1] & 0x80) >> 7
 	return SelectedAltitudeType(bits)
 }
-- 
2.43.0


From 6b0bb62066019ee43f8b80d811bd3be4cc14d11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:45 +0000
Subject: [PATCH 08/28] fix: decode negative selected headings as two's
 complement

---
 pkg/bds/bds62/fields/selected_heading.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/bds/bds62/fields/selected_heading.go b/pkg/bds/bds62/fields/selected_heading.go
index bfc65ba..d660f39 100644
--- a/pkg/bds/bds62/fields/selected_heading.go
+++ b/pkg/bds/bds62/fields/selected_heading.go
@@ -40,7 +40,8 @@ func ReadSelectedHeading(data []byte) (float32, SelectedHeadingStatus) {
 	heading := float32(bitutils.Pack2Bytes(byte1, byte2) >> 1)
 
 	if negative {
-		heading = -heading
+		// two's complement: the sign bit stands for -180 degrees
+		heading -= 256
 	}
 
 	return heading * 180 / 256, status
-- 
2.43.0


From 4cd300efe0835b1086bd256fa4c803932fe9334b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 09/28] fix: label SIL levels 2 and 3 with their own codes

---
 pkg/bds/bds62/fields/source_integrity_level.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/bds/bds62/fields/source_integrity_level.go b/pkg/bds/bds62/fields/source_integrity_level.go
index 2d4488c..8064c0b 100644
--- a/pkg/bds/bds62/fields/source_integrity_level.go
+++ b/pkg/bds/bds62/fields/source_integrity_level.go
@@ -27,9 +27,9 @@ func (level SourceIntegrityLevel) ToString() string {
 	case SILLevel1:
 		return "1 - SIL <= 1 * 10^-3 per flight hour or per sample"
 	case SILLevel2:
-		return "1 - SIL <= 1 * 10^-5 per flight hour or per sample"
+		return "2 - SIL <= 1 * 10^-5 per flight hour or per sample"
 	case SILLevel3:
-		return "1 - SIL <= 1 * 10^-7 per flight hour or per sample"
+		return "3 - SIL <= 1 * 10^-7 per flight hour or per sample"
 	default:
 		return fmt.Sprintf("%v - Unknown code", level)
 	}
-- 
2.43.0


From 78137e86d2097ee8cacbbd5d1988c91f84ea4c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:47 +0000
Subject: [PATCH 10/28] fix: surface operational status version 2 reports ADS-B
 version 2

---
 pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go b/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
index 2c4ecd3..ead72a9 100644
--- a/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
+++ b/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
@@ -28,7 +28,7 @@ type AircraftOperationalStatusSurfaceADSB2 struct {
 }
 
 func (message AircraftOperationalStatusSurfaceADSB2) GetADSBLevel() byte {
-	return 1
+	return 2
 }
 
 // GetRegister returns the Register the message
-- 
2.43.0


From 2376ea2037cdfafc1b5f8a7d8d42fde6659d90a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:48 +0000
Subject: [PATCH 11/28] fix: NIC 8 on the surface is a containment radius below
 0.1 NM

---
 pkg/adsb/surface_position/surface_position_v1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/adsb/surface_position/surface_position_v1.go b/pkg/adsb/surface_position/surface_position_v1.go
index 9b2ab32..8ca1003 100644
--- a/pkg/adsb/surface_position/surface_position_v1.go
+++ b/pkg/adsb/surface_position/surface_position_v1.go
@@ -65,7 +65,7 @@ func getHCRAndNICForV1(formatTypeCode byte, nicSupplementA bool) (fields.Horizon
 		if nicSupplementA {
 			return fields.HCRV1RcLowerThan75M, 9
 		} else {
-			return fields.HCRV1RcGreaterThan0Point1NM, 8
+			return fields.HCRV1RcLowerThan0Point1NM, 8
 		}
 	default:
 		return fields.HCRV1RcGreaterThan0Point1NM, 0
-- 
2.43.0


From 5264daa8adb6ef22ced93c11040c575744ee91cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:49 +0000
Subject: [PATCH 12/28] fix: type 0 airborne positions carry a barometric
 altitude and keep their status bits

---
 pkg/adsb/airborne_position/airborne_position_type_0.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/adsb/airborne_position/airborne_position_type_0.go b/pkg/adsb/airborne_position/airborne_position_type_0.go
index 33a0c0e..4905dc3 100644
--- a/pkg/adsb/airborne_position/airborne_position_type_0.go
+++ b/pkg/adsb/airborne_position/airborne_position_type_0.go
@@ -36,8 +36,9 @@ func (message AirbornePositionType0) ToString() string {
 // ReadAirbornePositionType0 reads a message at the format AirbornePositionType0
 func ReadAirbornePositionType0(adsbVersion adsb.ADSBVersion, data []byte) (*AirbornePositionType0, error) {
 
-	// Update the first byte to have a standard BDS code 0,5 (Airborne position with baro altitude) - format 22
-	dataTmp := []byte{0xB0, data[1], data[2], data[3], data[4], data[5], data[6]}
+	// Update the first byte to have a standard BDS code 0,5 (Airborne position with baro altitude) - format 18
+	// Surveillance status and single antenna flag are kept
+	dataTmp := []byte{0x90 | data[0]&0x07, data[1], data[2], data[3], data[4], data[5], data[6]}
 
 	bds, err := bds05.ReadAirbornePosition(dataTmp)
 	if err != nil {
-- 
2.43.0


From 6ef2df440487ecdf2d4f342a188a6302f2c434e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:24 +0000
Subject: [PATCH 13/28] fix: refuse BDS 0,7 with any of the reserved bits 4 to
 8 set

---
 pkg/bds/bds07/status.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds07/status.go b/pkg/bds/bds07/status.go
index fbb4980..b1f4a8c 100644
--- a/pkg/bds/bds07/status.go
+++ b/pkg/bds/bds07/status.go
@@ -49,7 +49,7 @@ func ReadStatus(data []byte) (*Status, error) {
 	}
 
 	// Bits 4 to 8 are reserved and must be 0
-	if data[0]&0x1C != 0 {
+	if data[0]&0x1F != 0 {
 		return nil, errors.New("the bits 4 to 8 are reserved and must be 0")
 	}
 
-- 
2.43.0


From 6ba72d12243644458139f418c378f85228f61a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:25 +0000
Subject: [PATCH 14/28] fix: text of transmission rate 0

---
 pkg/bds/bds07/fields/transmission_rate_subfield.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds07/fields/transmission_rate_subfield.go b/pkg/bds/bds07/fields/transmission_rate_subfield.go
index cbe7abf..63f32f6 100644
--- a/pkg/bds/bds07/fields/transmission_rate_subfield.go
+++ b/pkg/bds/bds07/fields/transmission_rate_subfield.go
@@ -21,7 +21,7 @@ func (trs TransmissionRateSubfield) ToString() string {
 
 	switch trs {
 	case TransmissionRateNoCapability:
-		return "0 - Barometric altitude"
+		return "0 - No capability to determine surface squitter rate"
 	case TransmissionRateHigh:
 		return "1 - High surface squitter rate selected"
 	case TransmissionRateLow:
-- 
2.43.0


From 72d3b6b9c67ab32b5429035cbce590d3c3a59661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:26 +0000
Subject: [PATCH 15/28] fix: read the surveillance identifier code capability
 from bit 35

---
 pkg/bds/bds10/fields/surveillance_identifier_code.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds10/fields/surveillance_identifier_code.go b/pkg/bds/bds10/fields/surveillance_identifier_code.go
index 07634b5..b49d268 100644
--- a/pkg/bds/bds10/fields/surveillance_identifier_code.go
+++ b/pkg/bds/bds10/fields/surveillance_identifier_code.go
@@ -29,6 +29,6 @@ func (sic SurveillanceIdentifierCode) ToString() string {
 
 // ReadSurveillanceIdentifierCode reads the SurveillanceIdentifierCode from a 56 bits data field
 func ReadSurveillanceIdentifierCode(data []byte) SurveillanceIdentifierCode {
-	bits := (data[2] & 0x40) >> 5
+	bits := (data[4] & 0x20) >> 5
 	return SurveillanceIdentifierCode(bits)
 }
-- 
2.43.0


From 6cecd2ee8638c3328a331e1f497e7942a4e481b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:27 +0000
Subject: [PATCH 16/28] fix: print the continuation flag of BDS 1,0

---
 pkg/bds/bds10/data_link_capability_report.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/bds/bds10/data_link_capability_report.go b/pkg/bds/bds10/data_link_capability_report.go
index 7026d09..22f106f 100644
--- a/pkg/bds/bds10/data_link_capability_report.go
+++ b/pkg/bds/bds10/data_link_capability_report.go
@@ -74,6 +74,7 @@ func (message DataLinkCapabilityReport) ToString() string {
 	return fmt.Sprintf(""+
 		"Message:                                 %v\n"+
 		"Continuation Flag:                       %v\n"+
+		"Overlay Command Capability:              %v\n"+
 		"ACAS Status                              %v\n"+
 		"ModeS Subnetwork Version                 %v\n"+
 		"Transponder Enhanced Protocol Indicator  %v\n"+
@@ -89,6 +90,7 @@ func (message DataLinkCapabilityReport) ToString() string {
 		"ACAS Applicable Document                 %v\n"+
 		"DTE SubAddress Statuses                  %v\n",
 		message.GetRegister().ToString(),
+		message.ContinuationFlag.ToString(),
 		message.OverlayCommandCapability.ToString(),
 		message.ACASStatus.ToString(),
 		message.ModeSSubnetworkVersion.ToString(),
-- 
2.43.0


From 3445909d5ada84a01d245dcb309aeb204f82ed77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:43 +0000
Subject: [PATCH 17/28] fix: read the MCP/FCU and FMS selected altitudes next
 to their status bits

---
 pkg/bds/bds40/fields/fms_selected_altitude.go | 9 +++++----
 pkg/bds/bds40/fields/mcp_selected_altitude.go | 9 ++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pkg/bds/bds40/fields/fms_selected_altitude.go b/pkg/bds/bds40/fields/fms_selected_altitude.go
index 4c1ac8f..a4eeab4 100644
--- a/pkg/bds/bds40/fields/fms_selected_altitude.go
+++ b/pkg/bds/bds40/fields/fms_selected_altitude.go
@@ -5,10 +5,11 @@ import "github.com/twuillemin/modes/pkg/bitutils"
 func ReadFMSSelectedAltitude(data []byte) (bool, uint32) {
 	status := (data[1] & 0x04) != 0
 
-	byte1 := data[0] & 0x7F
-	byte2 := data[1] & 0xF8
-	allBits := bitutils.Pack2Bytes(byte1, byte2) >> 3
-	fmsAltitude := uint32(allBits) * 16
+	byte1 := data[1] & 0x03
+	byte2 := data[2]
+	byte3 := data[3] & 0xC0
+	allBits := bitutils.Pack3Bytes(byte1, byte2, byte3) >> 6
+	fmsAltitude := allBits * 16
 
 	return status, fmsAltitude
 }
diff --git a/pkg/bds/bds40/fields/mcp_selected_altitude.go b/pkg/bds/bds40/fields/mcp_selected_altitude.go
index 83f3c4c..39c7c79 100644
--- a/pkg/bds/bds40/fields/mcp_selected_altitude.go
+++ b/pkg/bds/bds40/fields/mcp_selected_altitude.go
@@ -5,11 +5,10 @@ import "github.com/twuillemin/modes/pkg/bitutils"
 func ReadMCPSelectedAltitude(data []byte) (bool, uint32) {
 	status := (data[0] & 0x80) != 0
 
-	byte1 := data[1] & 0x03
-	byte2 := data[2]
-	byte3 := data[3] & 0xC0
-	allBits := bitutils.Pack3Bytes(byte1, byte2, byte3) >> 6
-	altitude := allBits * 16
+	byte1 := data[0] & 0x7F
+	byte2 := data[1] & 0xF8
+	allBits := bitutils.Pack2Bytes(byte1, byte2) >> 3
+	altitude := uint32(allBits) * 16
 
 	return status, altitude
 }
-- 
2.43.0


From 6ff7a4918bcb47887e6fe01cabe744ccac0795ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:44 +0000
Subject: [PATCH 18/28] fix: the status of the barometric pressure setting is
 bit 27

---
 pkg/bds/bds40/fields/barometric_pressure.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds40/fields/barometric_pressure.go b/pkg/bds/bds40/fields/barometric_pressure.go
index 971d522..8d0349f 100644
--- a/pkg/bds/bds40/fields/barometric_pressure.go
+++ b/pkg/bds/bds40/fields/barometric_pressure.go
@@ -3,7 +3,7 @@ package fields
 import "github.com/twuillemin/modes/pkg/bitutils"
 
 func ReadBarometricPressure(data []byte) (bool, float32) {
-	status := (data[0] & 0x80) != 0
+	status := (data[3] & 0x20) != 0
 
 	byte1 := data[3] & 0x1F
 	byte2 := data[4] & 0xFE
-- 
2.43.0


From 08a8e8a9d919b2b75c2c693a4ed6389bd5a6c3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:45 +0000
Subject: [PATCH 19/28] fix: accept selected vertical intentions without a
 barometric pressure setting

---
 pkg/bds/bds40/selected_vertical_intention.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/bds/bds40/selected_vertical_intention.go b/pkg/bds/bds40/selected_vertical_intention.go
index 7e2e593..ba70d04 100644
--- a/pkg/bds/bds40/selected_vertical_intention.go
+++ b/pkg/bds/bds40/selected_vertical_intention.go
@@ -79,8 +79,8 @@ func (message SelectedVerticalIntention) CheckCoherency() error {
 		return errors.New("the FMS SelectedAltitude status is set to false, but a FMS SelectedAltitude value is given")
 	}
 
-	// If no data available, it is probably not coherent
-	if !message.BarometricPressureSettingAvailable && message.BarometricPressureSetting != 0 {
+	// If no data available, it is probably not coherent (a field at zero stands for 800 mb)
+	if !message.BarometricPressureSettingAvailable && message.BarometricPressureSetting != 800 {
 		return errors.New("the BarometricPressureSetting status is set to false, but a BarometricPressureSetting value is given")
 	}
 
-- 
2.43.0


From 578c2fd9e479a3ef939073e8770de81726e7ab04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:15 +0000
Subject: [PATCH 20/28] fix: read the most significant bit of the wind speed

---
 pkg/bds/bds44/fields/wind_speed.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds44/fields/wind_speed.go b/pkg/bds/bds44/fields/wind_speed.go
index d296fa0..3e3b4ef 100644
--- a/pkg/bds/bds44/fields/wind_speed.go
+++ b/pkg/bds/bds44/fields/wind_speed.go
@@ -5,7 +5,7 @@ import "github.com/twuillemin/modes/pkg/bitutils"
 func ReadWindSpeed(data []byte) (bool, uint32) {
 	status := (data[0] & 0x08) != 0
 
-	byte1 := data[0] & 0x03
+	byte1 := data[0] & 0x07
 	byte2 := data[1] & 0xFC
 	allBits := bitutils.Pack2Bytes(byte1, byte2) >> 2
 	speed := uint32(allBits)
-- 
2.43.0


From 4f27e60f504f9cfee9d33c991ee48f62bf965efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:35 +0000
Subject: [PATCH 21/28] fix: label geometric vertical accuracy levels with
 their own codes

---
 pkg/bds/bds65/fields/geometric_vertical_accuracy.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/bds/bds65/fields/geometric_vertical_accuracy.go b/pkg/bds/bds65/fields/geometric_vertical_accuracy.go
index 1ec808a..ea6353a 100644
--- a/pkg/bds/bds65/fields/geometric_vertical_accuracy.go
+++ b/pkg/bds/bds65/fields/geometric_vertical_accuracy.go
@@ -25,11 +25,11 @@ func (baro GeometricVerticalAccuracy) ToString() string {
 	case GVAUnknownOrGreaterThan150m:
 		return "0 - Unknown or GVA >= 150 meters"
 	case GVALowerThan150m:
-		return "0 - GVA <= 150 meters"
+		return "1 - GVA <= 150 meters"
 	case GVALowerThan45m:
-		return "0 - GVA <= 45 meters"
+		return "2 - GVA <= 45 meters"
 	case GVAReserved3:
-		return "0 - reserved"
+		return "3 - reserved"
 	default:
 		return fmt.Sprintf("%v - Unknown code", baro)
 	}
-- 
2.43.0


From 4c1ade61d9f55f18e8073e671febbfc0e00831ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:36 +0000
Subject: [PATCH 22/28] fix: label navigation uncertainty categories with their
 own codes

---
 pkg/bds/bds09/fields/navigation_uncertainty_category.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/bds/bds09/fields/navigation_uncertainty_category.go b/pkg/bds/bds09/fields/navigation_uncertainty_category.go
index 1cd8817..368af79 100644
--- a/pkg/bds/bds09/fields/navigation_uncertainty_category.go
+++ b/pkg/bds/bds09/fields/navigation_uncertainty_category.go
@@ -34,15 +34,15 @@ func (category NavigationUncertaintyCategory) ToString() string {
 			nucpHorizontalLabel, "< 10 m/s",
 			nucpVerticalLabel, "< 15.2 m/s (50 fps)")
 	case NUCPHorizontalLowerThan3VerticalLowerThan4Point6:
-		return fmt.Sprintf("1 - %v %v / %v %v",
+		return fmt.Sprintf("2 - %v %v / %v %v",
 			nucpHorizontalLabel, "< 3 m/s",
 			nucpVerticalLabel, "< 4.6 m/s (15 fps)")
 	case NUCPHorizontalLowerThan1VerticalLowerThan1Point5:
-		return fmt.Sprintf("1 - %v %v / %v %v",
-			nucpHorizontalLabel, "< 2 m/s",
+		return fmt.Sprintf("3 - %v %v / %v %v",
+			nucpHorizontalLabel, "< 1 m/s",
 			nucpVerticalLabel, "< 1.5 m/s (5 fps)")
 	case NUCPHorizontalLowerThan0Point3VerticalLowerThan0Point46:
-		return fmt.Sprintf("1 - %v %v / %v %v",
+		return fmt.Sprintf("4 - %v %v / %v %v",
 			nucpHorizontalLabel, "< 0.3 m/s",
 			nucpVerticalLabel, "< 0.46 m/s (1.5 fps)")
 
-- 
2.43.0


From b4a1d28075bbb66b839f13736bb5e118c21f9829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:08 +0000
Subject: [PATCH 23/28] fix: label Mode S subnetwork versions with their own
 codes

---
 pkg/bds/bds10/fields/modes_subnetwork_version.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/bds/bds10/fields/modes_subnetwork_version.go b/pkg/bds/bds10/fields/modes_subnetwork_version.go
index 098d7a9..33e0250 100644
--- a/pkg/bds/bds10/fields/modes_subnetwork_version.go
+++ b/pkg/bds/bds10/fields/modes_subnetwork_version.go
@@ -31,13 +31,13 @@ func (mssv ModeSSubnetworkVersion) ToString() string {
 	case ModeSSubnetworkVersion1:
 		return "1 - Mode S subnetwork Version 1 - ICAO Doc 9688 (1996)"
 	case ModeSSubnetworkVersion2:
-		return "1 - Mode S subnetwork Version 2 - ICAO Doc 9688 (1997)"
+		return "2 - Mode S subnetwork Version 2 - ICAO Doc 9688 (1997)"
 	case ModeSSubnetworkVersion3:
-		return "1 - Mode S subnetwork Version 3 - ICAO Annex 10, Vol III, Amdt 77"
+		return "3 - Mode S subnetwork Version 3 - ICAO Annex 10, Vol III, Amdt 77"
 	case ModeSSubnetworkVersion4:
-		return "1 - Mode S subnetwork Version 4 - ICAO Doc 9871, Edition 1"
+		return "4 - Mode S subnetwork Version 4 - ICAO Doc 9871, Edition 1"
 	case ModeSSubnetworkVersion5:
-		return "1 - Mode S subnetwork Version 5 - ICAO Doc 9871, Edition 2"
+		return "5 - Mode S subnetwork Version 5 - ICAO Doc 9871, Edition 2"
 	default:
 		return fmt.Sprintf("%v - Unknown code", mssv)
 	}
-- 
2.43.0


From 0a0d228d86093ce03b3d687c37d6d54268332e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:09 +0000
Subject: [PATCH 24/28] fix: print the width limit of length/width code 10

---
 pkg/bds/bds65/fields/length_width.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/bds/bds65/fields/length_width.go b/pkg/bds/bds65/fields/length_width.go
index 23b3bde..0fb6708 100644
--- a/pkg/bds/bds65/fields/length_width.go
+++ b/pkg/bds/bds65/fields/length_width.go
@@ -28,7 +28,7 @@ const (
 	LWLength55Width45 LengthWidth = 8
 	// LWLength55Width52 indicates Length lower than 55 meters and Width lower than 52 meters
 	LWLength55Width52 LengthWidth = 9
-	// LWLength65Width59Point5 indicates Length lower than 65 meters and Width lower than 59 meters
+	// LWLength65Width59Point5 indicates Length lower than 65 meters and Width lower than 59.5 meters
 	LWLength65Width59Point5 LengthWidth = 10
 	// LWLength65Width67 indicates Length lower than 65 meters and Width lower than 67 meters
 	LWLength65Width67 LengthWidth = 11
@@ -67,7 +67,7 @@ func (status LengthWidth) ToString() string {
 	case LWLength55Width52:
 		return "9 - Length lower than 55 meters and Width lower than 52 meters"
 	case LWLength65Width59Point5:
-		return "10 - Length lower than 65 meters and Width lower than 59 meters"
+		return "10 - Length lower than 65 meters and Width lower than 59.5 meters"
 	case LWLength65Width67:
 		return "11 - Length lower than 65 meters and Width lower than 67 meters"
 	case LWLength75Width72Point5:
-- 
2.43.0


From ec5f923313a9086cf8503644ab7a6fb17d5e6c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:46 +0000
Subject: [PATCH 25/28] fix: do not index with -1 when no longitude is near the
 reference

---
 pkg/geo/cpr_surface_global_position.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/geo/cpr_surface_global_position.go b/pkg/geo/cpr_surface_global_position.go
index 771c0b0..b722c95 100644
--- a/pkg/geo/cpr_surface_global_position.go
+++ b/pkg/geo/cpr_surface_global_position.go
@@ -112,7 +112,7 @@ func GetCPRSurfaceGlobalPosition(
 	}
 
 	smallestDistance := 10000000.0
-	minIndex := -1
+	minIndex := 0
 	for i, distance := range distancesToRef {
 		if distance < smallestDistance {
 			smallestDistance = distance
-- 
2.43.0


From d3b51b790b7a44071c2418f09a9c753beda05e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:47 +0000
Subject: [PATCH 26/28] fix: measure the distance to the reference longitude
 around the antimeridian

---
 pkg/geo/cpr_surface_global_position.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/geo/cpr_surface_global_position.go b/pkg/geo/cpr_surface_global_position.go
index b722c95..bb26eff 100644
--- a/pkg/geo/cpr_surface_global_position.go
+++ b/pkg/geo/cpr_surface_global_position.go
@@ -108,7 +108,7 @@ func GetCPRSurfaceGlobalPosition(
 
 	distancesToRef := [4]float64{}
 	for i, longitudeCorrected := range longitudesCorrected {
-		distancesToRef[i] = math.Abs(referenceLongitude - longitudeCorrected)
+		distancesToRef[i] = math.Abs(mod(referenceLongitude-longitudeCorrected+180, 360) - 180)
 	}
 
 	smallestDistance := 10000000.0
-- 
2.43.0


From 88d702870425e8ae0e760b58b6e02a1505872bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:48 +0000
Subject: [PATCH 27/28] fix: refuse pairs of airborne positions with an
 impossible latitude

---
 pkg/geo/cpr_airborne_global_position.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/geo/cpr_airborne_global_position.go b/pkg/geo/cpr_airborne_global_position.go
index 7da5cbb..4796a73 100644
--- a/pkg/geo/cpr_airborne_global_position.go
+++ b/pkg/geo/cpr_airborne_global_position.go
@@ -49,6 +49,11 @@ func GetCPRAirborneGlobalPosition(
 		latitudeOdd -= 360
 	}
 
+	// Anything else outside of [-90,+90] cannot come from a consistent pair of messages.
+	if latitudeEven > 90 || latitudeOdd > 90 || latitudeEven < -90 || latitudeOdd < -90 {
+		return 0, 0, errors.New("the latitudes are not consistent")
+	}
+
 	// Before proceeding to the longitude calculation, we need to compute NL(lat_even) and NL(lat_odd) to check if both
 	//values are the same. If not, this means the pair of messages are from different longitude zones,
 	//and it is not possible to compute the correct global position.
-- 
2.43.0


From 1637a6d10af93ca2a98adbdbb725a121c369c0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:10 +0000
Subject: [PATCH 28/28] fix: distance between antipodal points is not a number

---
 pkg/geo/ground_distance.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/geo/ground_distance.go b/pkg/geo/ground_distance.go
index a7ee98d..700eaa9 100644
--- a/pkg/geo/ground_distance.go
+++ b/pkg/geo/ground_distance.go
@@ -24,6 +24,9 @@ func ComputeGroundDistance(lat1, long1, lat2, long2 float64) float64 {
 
 	a := math.Pow(math.Sin(deltaPhi/2.0), 2) + math.Cos(phi1)*math.Cos(phi2)*math.Pow(math.Sin(deltaLambda/2.0), 2)
 
+	// For points on opposite sides of the Earth, rounding may bring the value slightly above 1
+	a = math.Min(a, 1)
+
 	c := 2 * math.Atan2(math.Sqrt(a), math.Sqrt(1-a))
 
 	metricDistance := earthRadius * c
-- 
2.43.0


package text

import (
	ra "github.com/twuillemin/modes/pkg/acas/ra/fields"
	airborne "github.com/twuillemin/modes/pkg/adsb/airborne_position/fields"
	surface "github.com/twuillemin/modes/pkg/adsb/surface_position/fields"
	b09 "github.com/twuillemin/modes/pkg/bds/bds09/fields"
	b10 "github.com/twuillemin/modes/pkg/bds/bds10/fields"
	b62 "github.com/twuillemin/modes/pkg/bds/bds62/fields"
	b65 "github.com/twuillemin/modes/pkg/bds/bds65/fields"
	"verif/contracts/vc"
)

// distinct: two different codes never print the same text.
func distinct(x, y int, s, t string) {
	vc.Ensures("two different codes have different texts", x == y || s != t)
}

var (
	_ = vc.Lemma("P19", "texts of ra.ActiveRASense", func(x, y ra.ActiveRASense) { distinct(int(x), int(y), x.ToString(), y.ToString()) }, vc.Range("x", 0, 1), vc.Range("y", 0, 1))
	_ = vc.Lemma("P19", "texts of ra.ActiveRAPreventiveCorrective", func(x, y ra.ActiveRAPreventiveCorrective) { distinct(int(x), int(y), x.ToString(), y.ToString()) }, vc.Range("x", 0, 1), vc.Range("y", 0, 1))
	_ = vc.Lemma("P19", "texts of ra.ActiveRAVerticalSpeedLimitOrPositive", func(x, y ra.ActiveRAVerticalSpeedLimitOrPositive) {
		distinct(int(x), int(y), x.ToString(), y.ToString())
	}, vc.Range("x", 0, 1), vc.Range("y", 0, 1))
	_ = vc.Lemma("P19", "texts of ra.MultipleThreatEncounter", func(x, y ra.MultipleThreatEncounter) { distinct(int(x), int(y), x.ToString(), y.ToString()) }, vc.Range("x", 0, 1), vc.Range("y", 0, 1))
	_ = vc.Lemma("P19", "texts of ra.RATerminatedIndicator", func(x, y ra.RATerminatedIndicator) { distinct(int(x), int(y), x.ToString(), y.ToString()) }, vc.Range("x", 0, 1), vc.Range("y", 0, 1))
	_ = vc.Lemma("P19", "texts of ra.AltitudeStatus", func(x, y ra.AltitudeStatus) { distinct(int(x), int(y), x.ToString(), y.ToString()) }, vc.Range("x", 0, 1), vc.Range("y", 0, 1))
	_ = vc.Lemma("P19", "texts of airborne.ContainmentRadius", func(x, y airborne.ContainmentRadius) { distinct(int(x), int(y), x.ToString(), y.ToString()) }, vc.Range("x", 9, 22), vc.Range("y", 9, 22))
	_ = vc.Lemma("P19", "texts of airborne.HorizontalContainmentRadiusV1", func(x, y airborne.HorizontalContainmentRadiusV1) {
		distinct(int(x), int(y), x.ToString(), y.ToString())
	}, vc.Range("x", 0, 116), vc.Range("y", 0, 116))
	_ = vc.Lemma("P19", "texts of airborne.HorizontalContainmentRadiusV2", func(x, y airborne.HorizontalContainmentRadiusV2) {
		distinct(int(x), int(y), x.ToString(), y.ToString())
	}, vc.Range("x", 9, 213), vc.Range("y", 9, 213))
	_ = vc.Lemma("P19", "texts of airborne.HorizontalProtectionLimit", func(x, y airborne.HorizontalProtectionLimit) { distinct(int(x), int(y), x.ToString(), y.ToString()) }, vc.Range("x", 9, 22), vc.Range("y", 9, 22))
	_ = vc.Lemma("P19", "texts of airborne.NavigationIntegrityCodeSupplementB", func(x, y airborne.NavigationIntegrityCodeSupplementB) {
		distinct(int(x), int(y), x.ToString(), y.ToString())
	}, vc.Range("x", 0, 1), vc.Range("y", 0, 1))
	_ = vc.Lemma("P19", "texts of surface.ContainmentRadius", func(x, y surface.ContainmentRadius) { distinct(int(x), int(y), x.ToString(), y.ToString()) }, vc.Range("x", 5, 8), vc.Range("y", 5, 8))
	_ = vc.Lemma("P19", "texts of surface.HorizontalContainmentRadiusV1", func(x, y surface.HorizontalContainmentRadiusV1) { distinct(int(x), int(y), x.ToString(), y.ToString()) }, vc.Range("x", 0, 4), vc.Range("y", 0, 4))
	_ = vc.Lemma("P19", "texts of surface.HorizontalContainmentRadiusV2", func(x, y surface.HorizontalContainmentRadiusV2) { distinct(int(x), int(y), x.ToString(), y.ToString()) }, vc.Range("x", 0, 7), vc.Range("y", 0, 7))
	_ = vc.Lemma("P19", "texts of surface.HorizontalProtectionLimit", func(x, y surface.HorizontalProtectionLimit) { distinct(int(x), int(y), x.ToString(), y.ToString()) }, vc.Range("x", 5, 8), vc.Range("y", 5, 8))
	_ = vc.Lemma("P19", "texts of b09.NumericValueStatus", func(x, y b09.NumericValueStatus) { distinct(int(x), int(y), x.ToString(), y.ToString()) }, vc.Range("x", 0, 2), vc.Range("y", 0, 2))
	_ = vc.Lemma("P19", "texts of b10.ACASApplicableDocument", func(x, y b10.ACASApplicableDocument) { distinct(int(x), int(y), x.ToString(), y.ToString()) }, vc.Range("x", 0, 2), vc.Range("y", 0, 2))
	_ = vc.Lemma("P19", "texts of b62.NumericValueStatus", func(x, y b62.NumericValueStatus) { distinct(int(x), int(y), x.ToString(), y.ToString()) }, vc.Range("x", 0, 2), vc.Range("y", 0, 2))
	_ = vc.Lemma("P19", "texts of b62.SurveillanceIntegrityLevel", func(x, y b62.SurveillanceIntegrityLevel) { distinct(int(x), int(y), x.ToString(), y.ToString()) }, vc.Range("x", 0, 3), vc.Range("y", 0, 3))
	_ = vc.Lemma("P19", "texts of b65.NICSupplementA", func(x, y b65.NICSupplementA) { distinct(int(x), int(y), x.ToString(), y.ToString()) }, vc.Range("x", 0, 1), vc.Range("y", 0, 1))
	_ = vc.Lemma("P19", "texts of b65.NICSupplementC", func(x, y b65.NICSupplementC) { distinct(int(x), int(y), x.ToString(), y.ToString()) }, vc.Range("x", 0, 1), vc.Range("y", 0, 1))
	_ = vc.Lemma("P19", "texts of b65.SurveillanceIntegrityLevel", func(x, y b65.SurveillanceIntegrityLevel) { distinct(int(x), int(y), x.ToString(), y.ToString()) }, vc.Range("x", 0, 3), vc.Range("y", 0, 3))
)

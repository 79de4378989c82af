package pure

import (
	"github.com/twuillemin/modes/pkg/geo"
	"verif/contracts/vc"
)

// P01: positions are computed, or refused, without a panic, whatever the
// coded values and the reference (not-a-number and infinities included).
var _ = vc.Lemma("P01", "computing a position returns", func(a, b, c, d uint32, odd bool, lat, lon float64) {
	_, _, err := geo.GetCPRAirborneGlobalPosition(a, b, c, d, odd)
	if err != nil {
		_ = err.Error()
	}
	_, _ = geo.GetCPRAirborneLocalPosition(a, b, lat, lon, odd)
	_, _, err = geo.GetCPRSurfaceGlobalPosition(a, b, c, d, odd, lat, lon)
	if err != nil {
		_ = err.Error()
	}
	_, _ = geo.GetCPRSurfaceLocalPosition(a, b, lat, lon, odd)
	_ = geo.ComputeGroundDistance(lat, lon, lat, lon)
})

package geo

import (
	"math"

	"github.com/twuillemin/modes/pkg/geo"
	"verif/contracts/vc"
)

// coded: x is at the coded fraction of a zone of size d.
func coded(x, d float64, code uint32) bool {
	u := x/d - float64(code)/scale
	return vc.Near(u, math.Floor(u+0.5), 1e-6)
}

// closest: x is within half a zone of the reference. A reference that lies on
// the edge of a zone to within rounding, but not exactly at zero, is left open.
func closest(x, ref, d float64) bool {
	u := ref / d
	edge := vc.Near(u, math.Floor(u+0.5), 1e-12) && ref*1e300/d != 0
	return vc.Near(x, ref, d*0.505) || edge
}

// local specifies the decoding of one message relative to a reference: on each
// axis the position is, of those the message stands for, the one closest to
// the reference. The zones of the globe span turn degrees.
func local(turn float64, yz, xz uint32, refLat, refLon float64, odd bool, lat, lon float64) {
	n := 60.0
	if odd {
		n = 59
	}
	vc.Ensures("the latitude is one the message stands for", coded(lat, turn/n, yz))
	vc.Ensures("the latitude is the closest to the reference", closest(lat, refLat, turn/n))
	nl := zones(lat)
	if odd {
		nl--
	}
	if nl < 1 {
		nl = 1
	}
	d := turn / float64(nl)
	vc.Ensures("the longitude is one the message stands for", coded(lon, d, xz))
	vc.Ensures("the longitude is the closest to the reference", closest(lon, refLon, d))
}

var _ = vc.Contract("P21", geo.GetCPRAirborneLocalPosition,
	func(yz, xz uint32, refLat, refLon float64, odd bool, lat, lon float64) {
		vc.Requires(yz < scale && xz < scale)
		vc.Requires(refLat >= -90 && refLat <= 90 && refLon >= -360 && refLon <= 360)
		local(360, yz, xz, refLat, refLon, odd, lat, lon)
	})

var _ = vc.Contract("P21", geo.GetCPRSurfaceLocalPosition,
	func(yz, xz uint32, refLat, refLon float64, odd bool, lat, lon float64) {
		vc.Requires(yz < scale && xz < scale)
		vc.Requires(refLat >= -90 && refLat <= 90 && refLon >= -360 && refLon <= 360)
		local(90, yz, xz, refLat, refLon, odd, lat, lon)
	})

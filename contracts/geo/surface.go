package geo

import (
	"github.com/twuillemin/modes/pkg/geo"
	"verif/contracts/vc"
)

// within: a and b differ by at most eps, up to whole turns.
func within(a, b, eps float64) bool {
	return vc.Near(a, b, eps) || vc.Near(a, b+360, eps) || vc.Near(a, b-360, eps) ||
		vc.Near(a, b+720, eps) || vc.Near(a, b-720, eps)
}

// quadrant: lon is q or a position a whole number of quarter turns from it.
func quadrant(lon, q, eps float64) bool {
	return vc.Near(lon, q, eps) || vc.Near(lon, q+90, eps) || vc.Near(lon, q+180, eps) ||
		vc.Near(lon, q-90, eps) || vc.Near(lon, q-180, eps) || vc.Near(lon, q-270, eps)
}

var _ = vc.Contract("P20", geo.GetCPRSurfaceGlobalPosition,
	func(yz0, xz0, yz1, xz1 uint32, even bool, refLat, refLon float64, lat, lon float64, err error) {
		vc.Requires(yz0 < scale && xz0 < scale && yz1 < scale && xz1 < scale)
		vc.Requires(refLat >= -90 && refLat <= 90 && refLon >= -360 && refLon <= 360)
		j := (59*int64(yz0) - 60*int64(yz1) + scale/2) >> 17
		latE := 90 * (float64(imod(j, 60)) + float64(yz0)/scale) / 60
		latO := 90 * (float64(imod(j, 59)) + float64(yz1)/scale) / 59
		// of the two solutions, the one in the hemisphere of the reference
		if refLat < 0 {
			latE -= 90
			latO -= 90
		}
		vc.Ensures("refused exactly when the messages do not share a zone", (err != nil) == (zones(latE) != zones(latO)))
		if err != nil {
			return
		}
		want, xz := latE, xz0
		if !even {
			want, xz = latO, xz1
		}
		vc.Ensures("latitude", vc.Near(lat, want, 1e-9))
		nl := zones(latE)
		n := nl
		if !even {
			n = nl - 1
		}
		if n < 1 {
			n = 1
		}
		m := (int64(xz0)*(nl-1) - int64(xz1)*nl + scale/2) >> 17
		// of the four solutions, the one closest to the reference
		vc.Ensures("longitude", quadrant(lon, 90*(float64(imod(m, n))+float64(xz)/scale)/float64(n), 1e-9))
		vc.Ensures("the longitude is the closest to the reference", within(lon, refLon, 45.01))
		vc.Ensures("longitude between -180 and 180", lon >= -180 && lon <= 180)
	})

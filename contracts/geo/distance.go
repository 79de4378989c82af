package geo

import (
	"math"

	"github.com/twuillemin/modes/pkg/geo"
	"verif/contracts/vc"
)

// earthRadius is the mean radius of the Earth, in metres.
const earthRadius = 6371000

// arc is the angle between two points of a sphere (haversine formula).
func arc(lat1, lon1, lat2, lon2 float64) float64 {
	rad := func(x float64) float64 { return x * (math.Pi / 180) }
	hav := func(x float64) float64 { return math.Sin(x/2) * math.Sin(x/2) }
	h := hav(rad(lat1)-rad(lat2)) + math.Cos(rad(lat1))*math.Cos(rad(lat2))*hav(rad(lon1)-rad(lon2))
	if h > 1 {
		h = 1
	}
	return 2 * math.Asin(math.Sqrt(h))
}

var _ = vc.Contract("P22", geo.ComputeGroundDistance,
	func(lat1, lon1, lat2, lon2 float64, d float64) {
		vc.Requires(lat1 >= -90 && lat1 <= 90 && lat2 >= -90 && lat2 <= 90)
		vc.Requires(lon1 >= -360 && lon1 <= 360 && lon2 >= -360 && lon2 <= 360)
		vc.Ensures("between zero and half the circumference", d >= 0 && d <= math.Pi*earthRadius+0.001)
		vc.Ensures("the length of the great circle", vc.Near(d, earthRadius*arc(lat1, lon1, lat2, lon2), 10))
	})

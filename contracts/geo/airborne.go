package geo

import (
	"github.com/twuillemin/modes/pkg/geo"
	"verif/contracts/vc"
)

// limits are the latitudes at which the number of longitude zones decreases,
// from 59 zones to 2, by the published formula: the latitude from which there
// are less than n zones is acos(sqrt((1-cos(pi/30)) / (1-cos(2*pi/n)))).
var limits = [...]float64{
	10.47047129996877, 14.82817436868751, 18.18626357071418, 21.02939492602934, 23.54504486557140,
	25.82924707058855, 27.93898710121917, 29.91135685731838, 31.77209707681102, 33.53993436298545,
	35.22899597796446, 36.85025107593547, 38.41241892412304, 39.92256684333892, 41.38651832260282,
	42.80914012243566, 44.19454951419314, 45.54626722660254, 46.86733252498768, 48.16039128096653,
	49.42776439255704, 50.67150165553846, 51.89342469168786, 53.09516152796016, 54.27817472272919,
	55.44378444495060, 56.59318756205935, 57.72747353866127, 58.84763776148471, 59.95459276694047,
	61.04917774246363, 62.13216659210343, 63.20427479381938, 64.26616522567450, 65.31845309682098,
	66.36171008382628, 67.39646774084676, 68.42322022083340, 69.44242631144032, 70.45451074987607,
	71.45986473028990, 72.45884544728952, 73.45177441667871, 74.43893415725143, 75.42056256653363,
	76.39684390794473, 77.36789461328192, 78.33374082922752, 79.29428225456930, 80.24923213280516,
	81.19801349271951, 82.13956980510609, 83.07199444719816, 83.99173562980567, 84.89166190702087,
	85.75541620944419, 86.53536997512101,
}

// zones is the number of longitude zones at a latitude.
func zones(latitude float64) int64 {
	if latitude < 0 {
		latitude = -latitude
	}
	n := int64(59)
	for _, l := range limits {
		if latitude >= l {
			n--
		}
	}
	if latitude > 87 {
		n = 1
	}
	return n
}

// imod is the remainder of the division rounded down.
func imod(a, n int64) int64 {
	r := a % n
	if r < 0 {
		r += n
	}
	return r
}

// circularly: a and b differ by at most eps, or by 360 within eps.
func circularly(a, b, eps float64) bool {
	return vc.Near(a, b, eps) || vc.Near(a, b+360, eps) || vc.Near(a, b-360, eps)
}

const scale = 131072

var _ = vc.Contract("P20", geo.GetCPRAirborneGlobalPosition,
	func(yz0, xz0, yz1, xz1 uint32, even bool, lat, lon float64, err error) {
		vc.Requires(yz0 < scale && xz0 < scale && yz1 < scale && xz1 < scale)
		// zone index, and the latitudes of both messages
		j := (59*int64(yz0) - 60*int64(yz1) + scale/2) >> 17
		latE := 6 * (float64(imod(j, 60)) + float64(yz0)/scale)
		latO := 360 * (float64(imod(j, 59)) + float64(yz1)/scale) / 59
		if latE >= 270 {
			latE -= 360
		}
		if latO >= 270 {
			latO -= 360
		}
		refused := latE > 90 || latE < -90 || latO > 90 || latO < -90 || zones(latE) != zones(latO)
		vc.Ensures("refused exactly when the messages do not share a zone", (err != nil) == refused)
		if err != nil {
			return
		}
		want, xz := latE, xz0
		if !even {
			want, xz = latO, xz1
		}
		vc.Ensures("latitude", vc.Near(lat, want, 1e-9))
		nl := zones(latE)
		n := nl
		if !even {
			n = nl - 1
		}
		if n < 1 {
			n = 1
		}
		m := (int64(xz0)*(nl-1) - int64(xz1)*nl + scale/2) >> 17
		vc.Ensures("longitude", circularly(lon, 360*(float64(imod(m, n))+float64(xz)/scale)/float64(n), 1e-9))
		vc.Ensures("longitude between -180 and 180", lon >= -180 && lon <= 180)
	})

// Package pure holds the contracts on what decoding leaves alone.
package pure

import (
	"github.com/twuillemin/modes/pkg/acas/ra"
	"github.com/twuillemin/modes/pkg/adsb"
	adsbreader "github.com/twuillemin/modes/pkg/adsb/reader"
	"github.com/twuillemin/modes/pkg/bds"
	"github.com/twuillemin/modes/pkg/commb"
	"github.com/twuillemin/modes/pkg/geo"
	"github.com/twuillemin/modes/pkg/modes/common"
	"github.com/twuillemin/modes/pkg/modes/reader"
	"verif/contracts/vc"
)

// P18: every store of every function executed here is into memory the call
// itself allocated (the frame obligations), and nothing reachable from the
// results of the contracts is memory of the caller (the alias obligations).

var _ = vc.Lemma("P18", "reading, checking and rendering a Mode S message modifies nothing", func(data []byte, allowed, allowedII map[common.ICAOAddress]bool) {
	m, err := reader.ReadMessage(data)
	if err != nil {
		_ = err.Error()
		return
	}
	_ = m.ToString()
	_ = m.GetName()
	_, _ = reader.CheckCRC(m, data, allowed, allowedII)
}, vc.Len("data", 7, 14))

var _ = vc.Lemma("P18", "Mode S messages of other lengths are left alone", func(data []byte) {
	_, _ = reader.ReadMessage(data)
}, vc.Len("data", 7, 14, -1))

var _ = vc.Contract("P18", adsbreader.ReadADSBMessage, func(level adsb.ADSBVersion, nicA, nicC bool, data []byte, m adsb.Message, err error) {
}, vc.Len("data", 7, -1), vc.NotModular())

var _ = vc.Lemma("P18", "rendering an ADS-B message modifies nothing", func(level adsb.ADSBVersion, nicA, nicC bool, data []byte) {
	m, err := adsbreader.ReadADSBMessage(level, nicA, nicC, data)
	if err != nil {
		return
	}
	_ = m.ToString()
	_ = m.CheckCoherency()
}, vc.Len("data", 7))

var _ = vc.Contract("P18", commb.ReadCommBMessage, func(data []byte, ms []bds.Message, err error) {
}, vc.Len("data", 7, -1), vc.NotModular())

var _ = vc.Lemma("P18", "rendering the Comm-B messages modifies nothing", func(data []byte) {
	ms, err := commb.ReadCommBMessage(data)
	if err != nil {
		return
	}
	for _, m := range ms {
		_ = m.ToString()
		_ = m.CheckCoherency()
	}
}, vc.Len("data", 7))

var _ = vc.Contract("P18", ra.ReadResolutionAdvisory, func(data []byte, m *ra.ResolutionAdvisory, err error) {
}, vc.Len("data", 6, -1), vc.NotModular())

var _ = vc.Lemma("P18", "rendering an advisory modifies nothing", func(data []byte) {
	m, err := ra.ReadResolutionAdvisory(data)
	if err != nil {
		return
	}
	_ = m.ToString()
}, vc.Len("data", 6))

var _ = vc.Lemma("P18", "positions modify nothing", func(a, b, c, d uint32, odd bool, lat, lon float64) {
	_, _, _ = geo.GetCPRAirborneGlobalPosition(a, b, c, d, odd)
	_, _ = geo.GetCPRAirborneLocalPosition(a, b, lat, lon, odd)
	_, _, _ = geo.GetCPRSurfaceGlobalPosition(a, b, c, d, odd, lat, lon)
	_, _ = geo.GetCPRSurfaceLocalPosition(a, b, lat, lon, odd)
	_ = geo.ComputeGroundDistance(lat, lon, lat, lon)
})

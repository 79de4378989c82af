// Package modes holds the contracts of the Mode S layer.
package modes

import (
	"github.com/twuillemin/modes/pkg/bitutils"
	"github.com/twuillemin/modes/pkg/modes/common"
	"github.com/twuillemin/modes/pkg/modes/fields"
	"github.com/twuillemin/modes/pkg/modes/messages"
	"github.com/twuillemin/modes/pkg/modes/reader"
	"verif/contracts/std"
	"verif/contracts/vc"
)

// P01: every input is decoded and rendered without a panic.
var _ = vc.Lemma("P01", "Mode S: reading, rendering and checking any bytes returns", func(data []byte) {
	m, err := reader.ReadMessage(data)
	if err == nil {
		_ = m.ToString()
		_ = m.GetName()
		_ = m.GetDownLinkFormat()
	} else {
		_ = err.Error()
	}
}, vc.Len("data", 7, 14, -1))

var _ = vc.Lemma("P01", "Mode S: checking the parity of a message that was read returns", func(data []byte, allowed, allowedII map[common.ICAOAddress]bool) {
	m, err := reader.ReadMessage(data)
	if err != nil {
		return
	}
	a, _ := reader.CheckCRC(m, data, allowed, allowedII)
	_ = a.ToString()
}, vc.Len("data", 7, 14))

func altitudeReadable(data []byte) bool {
	_, _, ok := std.AC13(vc.Bits(data, 20, 32))
	return ok
}

func accepted(data []byte) bool {
	if len(data) != 7 && len(data) != 14 {
		return false
	}
	df := data[0] >> 3
	switch len(data) {
	case 7:
		switch df {
		case 0, 4:
			return altitudeReadable(data)
		case 5, 11:
			return true
		}
	case 14:
		switch df {
		case 16, 20:
			return altitudeReadable(data)
		case 17, 18, 19, 21:
			return true
		}
		return df >= 24
	}
	return false
}

// P02: which messages are accepted, and as what.
var _ = vc.Contract("P02", reader.ReadMessage, func(data []byte, m messages.ModeSMessage, err error) {
	vc.Ensures("accepted exactly when length, format and altitude code allow it", (err == nil) == accepted(data))
	vc.Ensures("either a message or an error", (m == nil) == (err != nil))
	if err != nil {
		return
	}
	df := int(data[0] >> 3)
	if df > 24 {
		df = 24
	}
	vc.Ensures("the message reports its downlink format", m.GetDownLinkFormat() == df)
	vc.Ensures("the message type is that of the format", typeOf(m) == df)
}, vc.Len("data", 7, 14, -1))

func typeOf(m messages.ModeSMessage) int {
	switch m.(type) {
	case *messages.MessageDF0:
		return 0
	case *messages.MessageDF4:
		return 4
	case *messages.MessageDF5:
		return 5
	case *messages.MessageDF11:
		return 11
	case *messages.MessageDF16:
		return 16
	case *messages.MessageDF17:
		return 17
	case *messages.MessageDF18:
		return 18
	case *messages.MessageDF19:
		return 19
	case *messages.MessageDF20:
		return 20
	case *messages.MessageDF21:
		return 21
	case *messages.MessageDF24:
		return 24
	}
	return -1
}

func sameBytes(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// P03: each field of an accepted message is the bits its format assigns to it.
var _ = vc.Lemma("P03", "the fields of an accepted message are the bits of its format", func(data []byte) {
	m, err := reader.ReadMessage(data)
	if err != nil {
		return
	}
	fs := vc.Bits(data, 6, 8)
	dr := vc.Bits(data, 9, 13)
	iis := vc.Bits(data, 14, 17)
	ids := vc.Bits(data, 18, 19)
	aa := vc.Bits(data, 9, 32)
	head := func(what string, h common.MessageData) {
		vc.Ensures(what+": format, first field, payload and parity", h.DownLinkFormat == data[0]>>3 && uint32(h.FirstField) == fs &&
			sameBytes(h.Payload, data[1:len(data)-3]) && sameBytes(h.Parity, data[len(data)-3:]))
	}
	switch x := m.(type) {
	case *messages.MessageDF0:
		head("DF0", x.MessageData)
		vc.Ensures("DF0 vertical status", uint32(x.VerticalStatus) == vc.Bits(data, 6, 6))
		vc.Ensures("DF0 cross-link capability", uint32(x.CrossLinkCapability) == vc.Bits(data, 7, 7))
		vc.Ensures("DF0 sensitivity level", uint32(x.SensitivityLevel) == vc.Bits(data, 9, 11))
		vc.Ensures("DF0 reply information", uint32(x.ReplyInformation) == vc.Bits(data, 14, 17))
	case *messages.MessageDF4:
		head("DF4", x.MessageData)
		vc.Ensures("DF4 flight status", uint32(x.FlightStatus) == fs)
		vc.Ensures("DF4 downlink request", uint32(x.DownlinkRequest) == dr)
		vc.Ensures("DF4 utility message", uint32(x.UtilityMessage.InterrogatorIdentifier) == iis && uint32(x.UtilityMessage.IdentifierDesignator) == ids)
	case *messages.MessageDF5:
		head("DF5", x.MessageData)
		vc.Ensures("DF5 flight status", uint32(x.FlightStatus) == fs)
		vc.Ensures("DF5 downlink request", uint32(x.DownlinkRequest) == dr)
		vc.Ensures("DF5 utility message", uint32(x.UtilityMessage.InterrogatorIdentifier) == iis && uint32(x.UtilityMessage.IdentifierDesignator) == ids)
	case *messages.MessageDF11:
		head("DF11", x.MessageData)
		vc.Ensures("DF11 capability", uint32(x.Capability) == fs)
		vc.Ensures("DF11 announced address", x.AddressAnnounced.Address == aa)
	case *messages.MessageDF16:
		head("DF16", x.MessageData)
		vc.Ensures("DF16 vertical status", uint32(x.VerticalStatus) == vc.Bits(data, 6, 6))
		vc.Ensures("DF16 sensitivity level", uint32(x.SensitivityLevel) == vc.Bits(data, 9, 11))
		vc.Ensures("DF16 reply information", uint32(x.ReplyInformation) == vc.Bits(data, 14, 17))
		vc.Ensures("DF16 ACAS message", sameBytes(x.MessageACAS, data[4:11]))
	case *messages.MessageDF17:
		head("DF17", x.MessageData)
		vc.Ensures("DF17 capability", uint32(x.Capability) == fs)
		vc.Ensures("DF17 announced address", x.AddressAnnounced.Address == aa)
		vc.Ensures("DF17 extended squitter", sameBytes(x.MessageExtendedSquitter, data[4:11]))
	case *messages.MessageDF18:
		head("DF18", x.MessageData)
		vc.Ensures("DF18 control field", uint32(x.ControlField) == fs)
		vc.Ensures("DF18 announced address", x.AddressAnnounced.Address == aa)
		vc.Ensures("DF18 extended squitter", sameBytes(x.MessageExtendedSquitter, data[4:11]))
	case *messages.MessageDF19:
		head("DF19", x.MessageData)
		vc.Ensures("DF19 application field", uint32(x.ApplicationField) == fs)
	case *messages.MessageDF20:
		head("DF20", x.MessageData)
		vc.Ensures("DF20 flight status", uint32(x.FlightStatus) == fs)
		vc.Ensures("DF20 downlink request", uint32(x.DownlinkRequest) == dr)
		vc.Ensures("DF20 utility message", uint32(x.UtilityMessage.InterrogatorIdentifier) == iis && uint32(x.UtilityMessage.IdentifierDesignator) == ids)
		vc.Ensures("DF20 Comm-B message", sameBytes(x.MessageCommB, data[4:11]))
	case *messages.MessageDF21:
		head("DF21", x.MessageData)
		vc.Ensures("DF21 flight status", uint32(x.FlightStatus) == fs)
		vc.Ensures("DF21 downlink request", uint32(x.DownlinkRequest) == dr)
		vc.Ensures("DF21 utility message", uint32(x.UtilityMessage.InterrogatorIdentifier) == iis && uint32(x.UtilityMessage.IdentifierDesignator) == ids)
		vc.Ensures("DF21 Comm-B message", sameBytes(x.MessageCommB, data[4:11]))
	case *messages.MessageDF24:
		head("DF24", x.MessageData)
		vc.Ensures("DF24 control ELM", uint32(x.ControlELM) == vc.Bits(data, 4, 4))
		vc.Ensures("DF24 number of the D segment", uint32(x.NumberOfDSegment) == vc.Bits(data, 5, 8))
		vc.Ensures("DF24 Comm-D message", sameBytes(x.MessageCommD, data[1:11]))
	default:
		vc.Ensures("a known message type", false)
	}
}, vc.Len("data", 7, 14))

// P05: altitudes.
var _ = vc.Contract("P05", bitutils.GillhamToAltitude, func(d1, d2, d4, a1, a2, a4, b1, b2, b4, c1, c2, c4 bool, alt int32, err error) {
	feet, ok := std.Gillham(u(d1), u(d2), u(d4), u(a1), u(a2), u(a4), u(b1), u(b2), u(b4), u(c1), u(c2), u(c4))
	vc.Ensures("fails exactly on impossible C pulses", (err == nil) == ok)
	vc.Ensures("altitude", vc.Imp(ok, alt == feet))
	vc.Ensures("nothing with an error", vc.Imp(!ok, alt == 0))
})

func u(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}

func method(how int) fields.AltitudeReportMethod {
	switch how {
	case std.Metric:
		return fields.AltitudeCodeReportMetricUnits
	case std.Ft100:
		return fields.AltitudeCodeReport100FootIncrements
	case std.Ft25:
		return fields.AltitudeCodeReport25FootIncrements
	}
	return fields.AltitudeCodeReportNotAvailable
}

var _ = vc.Contract("P05", fields.ReadAltitude, func(message common.MessageData, alt int32, how fields.AltitudeReportMethod, err error) {
	feet, h, ok := std.AC13(vc.Bits(message.Payload, 12, 24))
	vc.Ensures("fails exactly on impossible Gillham codes", (err == nil) == ok)
	vc.Ensures("altitude and method", vc.Imp(ok, alt == feet && how == method(h)))
}, vc.Len("message.Payload", 3, 10), vc.Len("message.Parity", 3))

var _ = vc.Lemma("P05", "DF0, DF4, DF16 and DF20 report the altitude of their altitude code", func(data []byte) {
	m, err := reader.ReadMessage(data)
	if err != nil {
		return
	}
	feet, h, ok := std.AC13(vc.Bits(data, 20, 32))
	switch x := m.(type) {
	case *messages.MessageDF0:
		vc.Ensures("DF0 altitude", ok && x.Altitude == feet && x.AltitudeReportMethod == method(h))
	case *messages.MessageDF4:
		vc.Ensures("DF4 altitude", ok && x.Altitude == feet && x.AltitudeReportMethod == method(h))
	case *messages.MessageDF16:
		vc.Ensures("DF16 altitude", ok && x.Altitude == feet && x.AltitudeReportMethod == method(h))
	case *messages.MessageDF20:
		vc.Ensures("DF20 altitude", ok && x.Altitude == feet && x.AltitudeReportMethod == method(h))
	}
}, vc.Len("data", 7, 14))

// P06: identity codes.
func squawkIs(s string, id uint32) bool {
	a, b, c, d := std.Squawk(id)
	return len(s) == 4 && uint32(s[0]) == '0'+a && uint32(s[1]) == '0'+b && uint32(s[2]) == '0'+c && uint32(s[3]) == '0'+d
}

var _ = vc.Contract("P06", fields.ReadIdentity, func(message common.MessageData, id fields.Identity) {
	vc.Ensures("four octal digits A B C D", squawkIs(id.Identity, vc.Bits(message.Payload, 12, 24)))
}, vc.Len("message.Payload", 3, 10), vc.Len("message.Parity", 3))

func identityOf(data []byte) (fields.Identity, bool) {
	m, err := reader.ReadMessage(data)
	if err == nil {
		switch x := m.(type) {
		case *messages.MessageDF5:
			return x.Identity, true
		case *messages.MessageDF21:
			return x.Identity, true
		}
	}
	return fields.Identity{}, false
}

var _ = vc.Lemma("P06", "DF5 and DF21 report the squawk and flag exactly the reserved codes", func(data []byte) {
	id, ok := identityOf(data)
	if !ok {
		return
	}
	code := vc.Bits(data, 20, 32)
	vc.Ensures("digits", squawkIs(id.Identity, code))
	a, b, c, d := std.Squawk(code)
	n := a<<9 | b<<6 | c<<3 | d
	vc.Ensures("7700 and only 7700 is an emergency", id.IsSpecialEmergency() == (n == 07700))
	vc.Ensures("7600 and only 7600 is a radio failure", id.IsSpecialRadiocommunicationFailure() == (n == 07600))
	vc.Ensures("7500 and only 7500 is unlawful interference", id.IsSpecialUnlawfulInterference() == (n == 07500))
	vc.Ensures("2000 and only 2000 is no instruction", id.IsSpecialInstructionNotReceived() == (n == 02000))
	t := id.ToString()
	vc.Ensures("text starts with the digits", len(t) >= 4 && squawkIs(t[:4], code))
	special := n == 07700 || n == 07600 || n == 07500 || n == 02000
	vc.Ensures("text flags exactly the reserved codes", special == (len(t) > 4))
	vc.Ensures("text of an emergency", vc.Imp(n == 07700, t == "7700 [Emergency]"))
	vc.Ensures("text of a radio failure", vc.Imp(n == 07600, t == "7600 [Radiocommunication Failure]"))
	vc.Ensures("text of unlawful interference", vc.Imp(n == 07500, t == "7500 [Unlawful Interference]"))
}, vc.Len("data", 7, 14))

package checks

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"slices"
	"sync"
	"time"

	"github.com/warthog618/sms/encoding/gsm7/charset"
	"github.com/warthog618/sms/encoding/tpdu"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// fixTables makes the tables used by checks follow the known finding about the
// Hindi locking table. C13 does not use it.
var fixTables = sync.OnceFunc(func() {
	if charset.NewDecoder(charset.Hindi)[0] == 0x0981 {
		ref.SetHindiZero(0x0981)
		ref.Rebuild()
	}
})

// The identifiers of the elements that name a national language.
const (
	iShift   byte = 0x24
	iLocking byte = 0x25
)

const langFinding = "language-identifiers"

// langIDs are the identifiers that are used by the library, which checks other
// than those of the identifiers themselves accept, given the known finding that
// the hexadecimal numbers of the standard are taken for decimal.
var langIDs = sync.OnceValue(func() (ids [2]byte) {
	ids = [2]byte{iShift, iLocking}
	defer func() { recover() }()
	_, s, _ := tpdu.EncodeUserData([]byte("ş"), tpdu.WithShiftCharset(charset.Turkish))
	_, l, _ := tpdu.EncodeUserData([]byte("ş"), tpdu.WithLockingCharset(charset.Turkish))
	if len(s) == 1 && len(l) == 1 && s[0].ID == 24 && l[0].ID == 25 {
		ids = [2]byte{24, 25}
	}
	return
})

func shiftID() byte   { return langIDs()[0] }
func lockingID() byte { return langIDs()[1] }

func langProbe() string {
	if shiftID() != iShift {
		return "the elements that name national languages are given the identifiers 24 and 25 (0x18 and 0x19) rather than 0x24 and 0x25"
	}
	return ""
}

func eqBytes(a, b []byte) bool { return bytes.Equal(a, b) }

func toTime(t ref.Time) tpdu.Timestamp { return tpdu.Timestamp{Time: t.Go()} }

func toUDH(udh []ref.IE) tpdu.UserDataHeader {
	if udh == nil {
		return nil
	}
	h := tpdu.UserDataHeader{}
	for _, e := range udh {
		h = append(h, tpdu.InformationElement{ID: e.ID, Data: tight(e.Data)})
	}
	return h
}

func fromUDH(h tpdu.UserDataHeader) []ref.IE {
	var udh []ref.IE
	for _, e := range h {
		udh = append(udh, ref.IE{ID: e.ID, Data: append(pbt.H{}, e.Data...)})
	}
	return udh
}

func eqUDH(a, b []ref.IE) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].ID != b[i].ID || !eqBytes(a[i].Data, b[i].Data) {
			return false
		}
	}
	return true
}

func toAddr(a ref.Addr) tpdu.Address { return tpdu.Address{TOA: a.TOA, Addr: a.Text} }

func fromAddr(a tpdu.Address) ref.Addr { return ref.Addr{TOA: a.TOA, Text: a.Addr} }

func toVP(v ref.VP) tpdu.ValidityPeriod {
	var x tpdu.ValidityPeriod
	switch v.Format {
	case ref.VPAbsolute:
		x.SetAbsolute(toTime(v.T))
	case ref.VPRelative:
		x.SetRelative(v.Dur)
	case ref.VPEnhanced:
		x.SetEnhanced(v.Dur, v.EFI)
	}
	return x
}

func toTPDU(p ref.PDU) tpdu.TPDU {
	t := tpdu.TPDU{
		Direction:  tpdu.Direction(p.Type & 1),
		FirstOctet: tpdu.FirstOctet(p.FO),
		UDH:        toUDH(p.UDH),
		UD:         slices.Clip(append(tpdu.UserData(nil), p.UD...)),
	}
	switch p.Type {
	case ref.Deliver:
		t.OA = toAddr(p.Addr)
	case ref.Submit, ref.Command:
		t.DA = toAddr(p.Addr)
	case ref.StatusReport:
		t.RA = toAddr(p.Addr)
	}
	if p.Has("FCS") {
		t.FCS = p.FCS
	}
	if p.Has("MR") {
		t.MR = p.MR
	}
	if p.Has("CT") {
		t.CT, t.MN = p.CT, p.MN
	}
	if p.Has("ST") {
		t.ST, t.DT = p.ST, toTime(p.DT)
	}
	if p.Has("PI") {
		t.PI = tpdu.PI(p.PI)
	}
	if p.Has("PID") {
		t.PID = p.PID
	}
	if p.Has("DCS") {
		t.DCS = tpdu.DCS(p.DCS)
	}
	if p.Type == ref.Command {
		t.DCS = tpdu.Dcs8BitData
	}
	if p.Has("SCTS") {
		t.SCTS = toTime(p.SCTS)
	}
	if p.Has("VP") {
		t.VP = toVP(p.VP)
	}
	return t
}

// fromTPDU reads the fields of the TPDU's type. It fails if there is something
// in the TPDU that does not belong to the type.
func fromTPDU(t *tpdu.TPDU) (p ref.PDU, err error) {
	p.Type = int(t.SmsType())
	if p.Type < 0 || p.Type > 5 {
		return p, fmt.Errorf("type %d", p.Type)
	}
	p.FO = byte(t.FirstOctet)
	if int(p.FO&3)<<1|int(t.Direction) != p.Type {
		return p, fmt.Errorf("type %d but first octet %02x and direction %d", p.Type, p.FO, t.Direction)
	}
	p.PI = byte(t.PI)
	x := *t // what is left over
	x.FirstOctet, x.Direction, x.UDH, x.UD = 0, 0, nil, nil
	switch p.Type {
	case ref.Deliver:
		p.Addr, x.OA = fromAddr(t.OA), tpdu.Address{}
	case ref.Submit, ref.Command:
		p.Addr, x.DA = fromAddr(t.DA), tpdu.Address{}
	case ref.StatusReport:
		p.Addr, x.RA = fromAddr(t.RA), tpdu.Address{}
	}
	if p.Has("FCS") {
		p.FCS, x.FCS = t.FCS, 0
	}
	if p.Has("MR") {
		p.MR, x.MR = t.MR, 0
	}
	if p.Has("CT") {
		p.CT, p.MN, x.CT, x.MN = t.CT, t.MN, 0, 0
	}
	var ok bool
	if p.Has("ST") {
		if p.DT, ok = ref.FromGo(t.DT.Time); !ok {
			return p, fmt.Errorf("DT is %v", t.DT)
		}
		p.ST, x.ST, x.DT = t.ST, 0, tpdu.Timestamp{}
	}
	if p.Has("PI") {
		x.PI = 0
	}
	if p.Has("PID") {
		p.PID, x.PID = t.PID, 0
	}
	if p.Has("DCS") {
		p.DCS, x.DCS = byte(t.DCS), 0
	}
	if p.Type == ref.Command {
		if a, err := t.Alphabet(); err != nil || a != tpdu.Alpha8Bit {
			return p, fmt.Errorf("the alphabet of a command is %v", a)
		}
		x.DCS = 0
	}
	if p.Has("SCTS") {
		if p.SCTS, ok = ref.FromGo(t.SCTS.Time); !ok {
			return p, fmt.Errorf("SCTS is %v", t.SCTS)
		}
		x.SCTS = tpdu.Timestamp{}
	}
	if p.Has("VP") {
		p.VP.Format = byte(t.VP.Format)
		switch t.VP.Format {
		case tpdu.VpfAbsolute:
			if p.VP.T, ok = ref.FromGo(t.VP.Time.Time); !ok {
				return p, fmt.Errorf("VP is %v", t.VP)
			}
		case tpdu.VpfRelative:
			p.VP.Dur = t.VP.Duration
		case tpdu.VpfEnhanced:
			p.VP.Dur, p.VP.EFI = t.VP.Duration, t.VP.EFI
		}
		x.VP = tpdu.ValidityPeriod{}
	}
	if p.Type != ref.Submit || p.VPF() == 0 {
		if t.VP.Format != tpdu.VpfNotPresent {
			return p, fmt.Errorf("VP is %v where none is announced", t.VP)
		}
		x.VP = tpdu.ValidityPeriod{}
	}
	p.UDH = fromUDH(t.UDH)
	p.UD = append(pbt.H(nil), t.UD...)
	if !reflect.DeepEqual(x, tpdu.TPDU{}) {
		return p, fmt.Errorf("fields foreign to a %s are set: %+v", ref.TypeNames[p.Type], x)
	}
	return p, nil
}

func eqTime(a, b ref.Time) bool { return a == b }

// diffPDU describes how two TPDUs of the model differ in the fields they have.
func diffPDU(a, b ref.PDU, s *ref.Parsed) string {
	if s == nil {
		s = &ref.Parsed{}
	}
	switch {
	case a.Type != b.Type:
		return fmt.Sprintf("type %d, not %d", a.Type, b.Type)
	case a.FO != b.FO:
		return fmt.Sprintf("first octet %02x, not %02x", a.FO, b.FO)
	case a.Has("MR") && a.MR != b.MR:
		return fmt.Sprintf("MR %d, not %d", a.MR, b.MR)
	case a.Has("Addr") && a.Addr != b.Addr && !s.SkipAddr:
		return fmt.Sprintf("address %02x %q, not %02x %q", a.Addr.TOA, a.Addr.Text, b.Addr.TOA, b.Addr.Text)
	case a.Has("FCS") && a.FCS != b.FCS:
		return fmt.Sprintf("FCS %02x, not %02x", a.FCS, b.FCS)
	case a.Has("CT") && (a.CT != b.CT || a.MN != b.MN):
		return fmt.Sprintf("CT/MN %02x %02x, not %02x %02x", a.CT, a.MN, b.CT, b.MN)
	case a.Has("ST") && a.ST != b.ST:
		return fmt.Sprintf("ST %02x, not %02x", a.ST, b.ST)
	case a.Has("DT") && !eqTime(a.DT, b.DT) && !s.SkipDT:
		return fmt.Sprintf("DT %v, not %v", a.DT, b.DT)
	case a.Has("PI") && a.PI != b.PI:
		return fmt.Sprintf("PI %02x, not %02x", a.PI, b.PI)
	case a.Has("PID") && a.PID != b.PID:
		return fmt.Sprintf("PID %02x, not %02x", a.PID, b.PID)
	case a.Has("DCS") && a.DCS != b.DCS:
		return fmt.Sprintf("DCS %02x, not %02x", a.DCS, b.DCS)
	case a.Has("SCTS") && !eqTime(a.SCTS, b.SCTS) && !s.SkipSCTS:
		return fmt.Sprintf("SCTS %v, not %v", a.SCTS, b.SCTS)
	case a.Has("VP") && a.VP != b.VP && !s.SkipVP:
		return fmt.Sprintf("VP %+v, not %+v", a.VP, b.VP)
	case !eqUDH(a.UDH, b.UDH):
		return fmt.Sprintf("UDH %v, not %v", a.UDH, b.UDH)
	case !eqBytes(a.UD, b.UD):
		return fmt.Sprintf("UD %x, not %x", a.UD, b.UD)
	}
	return ""
}

// snapshot is a deep copy of a TPDU.
func snapshot(t tpdu.TPDU) tpdu.TPDU {
	if t.UD != nil {
		t.UD = append(tpdu.UserData{}, t.UD...)
	}
	if t.UDH != nil {
		h := tpdu.UserDataHeader{}
		for _, e := range t.UDH {
			d := e.Data
			if d != nil {
				d = tight(d)
			}
			h = append(h, tpdu.InformationElement{ID: e.ID, Data: d})
		}
		t.UDH = h
	}
	return t
}

func sameTPDU(a, b tpdu.TPDU) bool {
	return reflect.DeepEqual(a, b)
}

var errInfra = errors.New("harness")

func durText(d time.Duration) string { return d.String() }

package checks

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/ref"
)

type pduCase struct{ P ref.PDU }

// direction of a type, for Unmarshal.
func dirOf(typ int) sms.UnmarshalOption {
	if typ&1 == 1 {
		return sms.AsMO
	}
	return sms.AsMT
}

func fieldTooLong(p ref.PDU) bool {
	_, ok := p.Bytes()
	return !ok
}

func checkLayout(c pduCase, o *pbt.Obs) error {
	t := toTPDU(c.P)
	before := snapshot(t)
	want, ok := c.P.Bytes()
	got, err := t.MarshalBinary()
	if !sameTPDU(t, before) {
		return fmt.Errorf("MarshalBinary altered the TPDU")
	}
	o.Class(ref.TypeNames[c.P.Type])
	if !ok {
		o.NT()
		o.Class("refused")
		if err == nil {
			return fmt.Errorf("a field that cannot be encoded is marshalled to %x", got)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("marshal: %v", err)
	}
	if !eqBytes(got, want) {
		return fmt.Errorf("marshalled to %x, not %x", got, want)
	}
	o.NT()
	o.ClassIf(len(c.P.UDH) > 0, "with a header")
	if (c.P.Type == ref.DeliverReport || c.P.Type == ref.SubmitReport) && c.P.FCS == 0 {
		o.Class("report without FCS")
		if pbt.Allowed(fcsFinding) {
			return nil
		}
	}
	back, err := sms.Unmarshal(got, dirOf(c.P.Type))
	if err != nil {
		return fmt.Errorf("unmarshal %x: %v", got, err)
	}
	r, err := fromTPDU(back)
	if err != nil {
		return err
	}
	p := c.P
	if !p.Has("UD") {
		p.UD, p.UDH = nil, nil
	}
	if d := diffPDU(r, p, nil); d != "" {
		return fmt.Errorf("restored from %x: %s", got, d)
	}
	// and through the method of the TPDU
	u := tpdu.TPDU{Direction: tpdu.Direction(c.P.Type & 1)}
	if err := u.UnmarshalBinary(got); err != nil || !sameTPDU(u, *back) {
		return fmt.Errorf("UnmarshalBinary differs from Unmarshal: %v", err)
	}
	return nil
}

const fcsFinding = "report-without-fcs"

func fcsProbe() string {
	for _, typ := range []int{ref.DeliverReport, ref.SubmitReport} {
		p := ref.PDU{Type: typ, FO: byte(typ >> 1), PI: 1, PID: 0x7f, SCTS: ref.Time{Y: 2020, Mo: 1, D: 1}}
		t := toTPDU(p)
		b, err := t.MarshalBinary()
		if err != nil {
			continue
		}
		u, err := sms.Unmarshal(b, dirOf(typ))
		if err != nil {
			return fmt.Sprintf("a %s without failure cause marshals to %x, which does not unmarshal: the failure cause is always expected", ref.TypeNames[typ], b)
		}
		if r, err := fromTPDU(u); err != nil || diffPDU(r, p, nil) != "" {
			return fmt.Sprintf("a %s without failure cause marshals to %x, which unmarshals to something else: the failure cause is always expected", ref.TypeNames[typ], b)
		}
	}
	return ""
}

func genLayout(t *rapid.T) pduCase {
	p := genPDU(t)
	if (p.Type == ref.DeliverReport || p.Type == ref.SubmitReport) && oneIn(t, 6, "noFCS") {
		p.FCS = 0
	}
	return pduCase{p}
}

// genUnfit draws a TPDU with a field that cannot be encoded, or only just.
func genUnfit(t *rapid.T) pduCase {
	p := genPDU(t)
	q := func() int {
		v := pick(t, "zone", 78, 79, 80, 81, 95, 96, intn(t, 80, 400, "far"))
		if oneIn(t, 2, "west") {
			v = -v
		}
		return v
	}
	switch intn(t, 0, 5, "what") {
	case 0:
		if p.Has("SCTS") {
			p.SCTS.Q = q()
			break
		}
		fallthrough
	case 1:
		if p.Has("DT") {
			p.DT.Q = q()
			break
		}
		fallthrough
	case 2:
		p.Type, p.FO = ref.Submit, p.FO&^0x1b|0x19
		p.VP = ref.VP{Format: ref.VPAbsolute, T: genTime(t, "vp")}
		p.VP.T.Q = q()
	case 3:
		p.Type, p.FO = ref.Submit, p.FO&^0x1b|0x09
		p.VP = ref.VP{Format: ref.VPEnhanced, EFI: rapid.Byte().Draw(t, "efi") | pick(t, "reserved", byte(4), 5, 6, 7)}
	case 4:
		if p.Has("Addr") {
			i := intn(t, 0, len(p.Addr.Text), "at")
			for i > 0 && i < len(p.Addr.Text) && p.Addr.Text[i]&0xc0 == 0x80 {
				i--
			}
			p.Addr.Text = p.Addr.Text[:i] + pick(t, "foreign", " ", "-", "A", "d", "\x00", "中", "ê", "`", "(", ".") + p.Addr.Text[i:]
			break
		}
		fallthrough
	case 5:
		p.FO |= 3
	}
	if p.Alpha() == ref.Alpha7Bit { // the type may have changed
		for i := range p.UD {
			p.UD[i] &= 0x7f
		}
	}
	return pduCase{p}
}

// genOverlong draws a TPDU with a field about as long as can be encoded.
func genOverlong(t *rapid.T) pduCase {
	p := genPDU(t)
	switch intn(t, 0, 3, "what") {
	case 0:
		if p.Has("Addr") {
			if p.Addr.Alnum() {
				n := intn(t, 140, 150, "alnum")
				p.Addr.Text = strings.Repeat("a", n)
			} else {
				p.Addr.Text = strings.Repeat("7", intn(t, 250, 260, "digits"))
			}
			break
		}
		fallthrough
	case 1:
		if p.Report() {
			p.PI |= 4
		}
		if p.Has("DCS") && ref.ReadDCS(p.DCS).Alpha == ref.AlphaBad {
			p.DCS = 0
		}
		h, _ := ref.HeaderBytes(p.UDHI(), p.UDH)
		n := 255 - len(h) + intn(t, -3, 3, "ud")
		if p.Alpha() == ref.Alpha7Bit {
			n = 255 - (8*len(h)+6)/7 + intn(t, -3, 3, "ud7")
		}
		p.UD = make(pbt.H, max(n, 0))
		for i := range p.UD {
			p.UD[i] = byte(i) & 0x7f
		}
	case 2:
		if p.Report() {
			p.PI |= 4
		}
		if p.Has("DCS") && ref.ReadDCS(p.DCS).Alpha == ref.AlphaBad {
			p.DCS = 4
		}
		p.FO |= 0x40
		n := intn(t, 245, 260, "ied")
		p.UDH = append(p.UDH[:min(len(p.UDH), 1)], ref.IE{ID: 0x70, Data: make(pbt.H, n)})
		p.UD = nil
	case 3:
		if p.Report() {
			p.PI |= 6
		}
		if p.Has("DCS") && ref.ReadDCS(p.DCS).Alpha != ref.Alpha8Bit {
			p.DCS = pick(t, "dcs", byte(8), 0x18)
		}
		p.UD = octets(t, 0, 20, "odd")
	}
	return pduCase{p}
}

// every value of every single-octet field of every type
type fieldCase struct {
	Type  int
	Field string
	V     byte
}

var fieldNames = []string{"FO", "MR", "FCS", "CT", "MN", "ST", "PI", "PID", "DCS", "TOA", "VP", "UD"}

func enumFields(yield func(fieldCase) bool) {
	for typ := 0; typ < 6; typ++ {
		for _, f := range fieldNames {
			for v := 0; v < 256; v++ {
				if !yield(fieldCase{typ, f, byte(v)}) {
					return
				}
			}
		}
	}
}

func checkField(c fieldCase, o *pbt.Obs) error {
	p := ref.PDU{Type: c.Type, FO: byte(c.Type >> 1), Addr: ref.Addr{TOA: 0x91, Text: "123"}, FCS: 0xd0, PI: 7,
		SCTS: ref.Time{Y: 2020, Mo: 1, D: 2, H: 3, Mi: 4, S: 5, Q: 6}, DT: ref.Time{Y: 2021, Mo: 10, D: 20, Q: -3}, DCS: 4, UD: pbt.H("hi")}
	switch c.Field {
	case "FO":
		p.FO = c.V&^3 | p.FO
		if p.Type == ref.Submit {
			p.VP.Format = byte(p.VPF())
			switch p.VPF() {
			case ref.VPAbsolute:
				p.VP.T = p.SCTS
			case ref.VPRelative, ref.VPEnhanced:
				p.VP.Dur = ref.RelativePeriod(7)
				if p.VPF() == ref.VPEnhanced {
					p.VP.EFI = 1
				}
			}
		}
		if p.UDHI() {
			p.UDH = []ref.IE{{ID: 9, Data: pbt.H{1, 2}}}
		}
	case "MR":
		p.MR = c.V
	case "FCS":
		p.FCS = c.V
	case "CT":
		p.CT = c.V
	case "MN":
		p.MN = c.V
	case "ST":
		p.ST = c.V
	case "PI":
		p.PI = c.V
	case "PID":
		p.PID = c.V
	case "DCS":
		p.DCS = c.V
		if p.Has("DCS") && p.Has("UD") && ref.ReadDCS(c.V).Alpha == ref.AlphaBad {
			return nil // not encodable: left to C06
		}
	case "TOA":
		p.Addr.TOA = c.V
	case "VP":
		p.FO = p.FO&^0x18 | 0x10
		p.VP = ref.VP{Format: ref.VPRelative, Dur: ref.RelativePeriod(c.V)}
		if p.Type != ref.Submit {
			p.VP = ref.VP{}
		}
	case "UD":
		p.UD = pbt.H{c.V, c.V ^ 0x55, c.V}
	}
	return checkLayout(pduCase{p}, o)
}

type octetsCase struct {
	MO bool
	B  pbt.H
}

// errorPath is the field that an error names.
var errorPath = map[string]string{"firstOctet": "tpdu.firstOctet"}

func fieldPath(p ref.PDU, field string) string {
	if field == "firstOctet" {
		return "tpdu.firstOctet"
	}
	if field == "addr" {
		switch p.Type {
		case ref.Deliver:
			field = "oa"
		case ref.StatusReport:
			field = "ra"
		default:
			field = "da"
		}
	}
	return "Sms" + ref.TypeNames[p.Type] + "." + field
}

func checkOctets(c octetsCase, o *pbt.Obs) error {
	fixTables()
	want := ref.Parse(c.B, c.MO)
	buf := make([]byte, len(c.B), len(c.B)+16)
	copy(buf, c.B)
	spare := buf[len(buf):cap(buf)]
	for i := range spare {
		spare[i] = 0xaa
	}
	dir := sms.AsMT
	if c.MO {
		dir = sms.AsMO
	}
	t, err := sms.Unmarshal(buf, dir)
	if !eqBytes(buf, c.B) || strings.Trim(string(spare), "\xaa") != "" {
		return fmt.Errorf("Unmarshal altered its input")
	}
	if x, e := sms.Unmarshal(tight(c.B), dir); (e == nil) != (err == nil) || e == nil && !sameTPDU(*x, *t) {
		return fmt.Errorf("without octets after the input it is decoded to %+v, %v; with, %+v, %v", x, e, t, err)
	}
	o.Class(want.Verdict.String())
	o.NTIf(want.Verdict != ref.Valid || len(want.PDU.UD) > 0)
	if err != nil {
		if want.Verdict == ref.Valid {
			return fmt.Errorf("refused: %v", err)
		}
		var d tpdu.DecodeError
		if !errors.As(err, &d) {
			return fmt.Errorf("%T error: %v", err, err)
		}
		if d.Offset < 0 || d.Offset > len(c.B) {
			return fmt.Errorf("the error %q is at %d of %d octets", err, d.Offset, len(c.B))
		}
		if want.Verdict == ref.Invalid && !want.Unsure {
			if f := fieldPath(want.PDU, want.Field); d.Field != f && !strings.HasPrefix(d.Field, f+".") {
				return fmt.Errorf("the error is in %s rather than %s: %v (%s)", d.Field, f, err, want.Why)
			}
			if d.Offset < want.Start {
				return fmt.Errorf("the error in %s is at %d, before the field at %d", d.Field, d.Offset, want.Start)
			}
		}
		return nil
	}
	if want.Verdict == ref.Invalid {
		return fmt.Errorf("accepted as %+v though %s in %s at %d", *t, want.Why, want.Field, want.Start)
	}
	o.Class("accepted")
	snap := snapshot(*t)
	var r ref.PDU
	if want.Verdict == ref.Valid {
		if r, err = fromTPDU(t); err != nil {
			return err
		}
		if d := diffPDU(r, want.PDU, &want); d != "" {
			return fmt.Errorf("decoded: %s", d)
		}
	}
	// nothing is retained
	for i := range buf {
		buf[i] ^= 0xff
	}
	if !sameTPDU(*t, snap) {
		return fmt.Errorf("the TPDU changes with the input buffer")
	}
	if err := exercise(t); err != nil {
		return err
	}
	if !sameTPDU(*t, snap) {
		return fmt.Errorf("the TPDU is changed by decoding")
	}
	return fixpoint(t, want, o)
}

// exercise decodes and displays a TPDU. What matters is that it ends.
func exercise(t *tpdu.TPDU) error {
	for _, opts := range [][]sms.DecodeOption{nil, {sms.WithDefaultCharset}, {sms.WithAllCharsets}, {sms.WithLockingCharset(1, 2, 3)}} {
		sms.Decode([]*tpdu.TPDU{t}, opts...)
		sms.Decode([]*tpdu.TPDU{t, t}, opts...)
	}
	sms.IsCompleteMessage([]*tpdu.TPDU{t})
	c := sms.NewCollector()
	defer c.Close()
	for i := 0; i < 2; i++ {
		set, err := c.Collect(*t)
		if err == nil && set != nil {
			if len(set) != 1 || !sameTPDU(*set[0], *t) {
				return fmt.Errorf("collected as %v", set)
			}
		}
	}
	c.Pipes()
	_ = fmt.Sprint(*t, t.MTI(), t.SmsType(), t.DCS, t.PI, t.VP, t.VP.Format, t.SCTS, t.DT, t.OA, t.DA.Number(), t.UDH, t.UDBlockSize(), t.UDHL(), t.IsSingleSegment())
	_ = fmt.Sprintf("%+v %#v", *t, *t)
	if a, err := t.Alphabet(); err == nil {
		_ = fmt.Sprint(a)
	}
	return nil
}

// fixpoint checks that an accepted TPDU marshals to what decodes to itself.
func fixpoint(t *tpdu.TPDU, want ref.Parsed, o *pbt.Obs) error {
	p, err := fromTPDU(t)
	if err != nil {
		return nil // gray
	}
	if want.Verdict == ref.Gray {
		inRange := func(x ref.Time) bool { return x.Y >= 1970 && x.Y <= 2069 }
		if p.Has("SCTS") && !inRange(p.SCTS) || p.Has("DT") && !inRange(p.DT) || p.Has("VP") && p.VP.Format == ref.VPAbsolute && !inRange(p.VP.T) ||
			p.Has("VP") && p.VP.Dur >= 100*60*60*1e9 && p.VP.Format == ref.VPEnhanced && p.VP.EFI&7 == 3 {
			return nil
		}
	}
	if (p.Type == ref.DeliverReport || p.Type == ref.SubmitReport) && p.FCS == 0 && pbt.Allowed(fcsFinding) {
		return nil
	}
	b, err := t.MarshalBinary()
	if err != nil {
		if strings.Contains(want.Why, "escape in address") || strings.Contains(want.Why, "filler within") || strings.Contains(want.Why, "alphanumeric") {
			return nil
		}
		if p.Has("DCS") && p.Has("UD") && ref.ReadDCS(p.DCS).Alpha == ref.AlphaBad && len(t.UD) == 0 && pbt.Allowed(reservedFinding) {
			o.Class("reserved coding group")
			return nil
		}
		return fmt.Errorf("an accepted TPDU does not marshal: %v", err)
	}
	u, err := sms.Unmarshal(b, dirOf(p.Type))
	if err != nil {
		return fmt.Errorf("marshalled to %x, which is refused: %v", b, err)
	}
	q, err := fromTPDU(u)
	if err != nil {
		return err
	}
	if d := diffPDU(q, p, nil); d != "" {
		if strings.Contains(want.Why, "address") && q.Addr != p.Addr || strings.Contains(want.Why, "alphanumeric") {
			// an alphanumeric length between those of two texts
			q.Addr, p.Addr = ref.Addr{}, ref.Addr{}
			if diffPDU(q, p, nil) == "" {
				return nil
			}
		}
		return fmt.Errorf("marshalled to %x, which decodes to another TPDU: %s", b, d)
	}
	return nil
}

const reservedFinding = "reserved-dcs-empty-ud"

func reservedProbe() string {
	b := []byte{0x01, 0x00, 0x00, 0x91, 0x00, 0x80, 0x00}
	t, err := sms.Unmarshal(b, sms.AsMO)
	if err != nil {
		return ""
	}
	if _, err := t.MarshalBinary(); err != nil {
		return fmt.Sprintf("a submit with a reserved coding group and no user data (%x) is accepted but cannot be marshalled again: %v", b, err)
	}
	return ""
}

func genValidOctets(t *rapid.T) octetsCase {
	p := genPDU(t)
	b, ok := p.Bytes()
	if !ok {
		panic("not encodable")
	}
	return octetsCase{p.Type&1 == 1, b}
}

func genMutated(t *rapid.T) octetsCase {
	c := genValidOctets(t)
	if oneIn(t, 6, "otherDirection") {
		c.MO = !c.MO
	}
	for i := intn(t, 1, 3, "muts"); i > 0 && len(c.B) > 0; i-- {
		at := intn(t, 0, len(c.B)-1, "at")
		switch intn(t, 0, 5, "mut") {
		case 0:
			c.B[at] ^= 1 << intn(t, 0, 7, "bit")
		case 1:
			c.B[at] = rapid.Byte().Draw(t, "byte")
		case 2:
			c.B[at] = pick(t, "edge", byte(0), 1, 0x7f, 0x80, 0xff, 0xf0, 0x0f)
		case 3:
			c.B = append(c.B[:at:at], c.B[at+1:]...)
		case 4:
			c.B = append(c.B[:at:at], append(octets(t, 1, 3, "ins"), c.B[at:]...)...)
		case 5:
			c.B[at] += byte(pick(t, "delta", 1, -1, 2, -2, 7))
		}
	}
	return c
}

func genRaw(t *rapid.T) octetsCase {
	return octetsCase{rapid.Bool().Draw(t, "mo"), octets(t, 0, 60, "b")}
}

// checkCuts cuts an encoded TPDU everywhere, and extends it.
func checkCuts(c octetsCase, o *pbt.Obs) error {
	whole := ref.Parse(c.B, c.MO)
	if whole.Verdict != ref.Valid {
		return nil
	}
	o.NT()
	o.Class(ref.TypeNames[whole.PDU.Type])
	strict := whole.PDU.Type == ref.Deliver || whole.PDU.Type == ref.Submit || whole.PDU.Type == ref.Command
	dir := dirOf(whole.PDU.Type)
	for n := 0; n < len(c.B); n++ {
		var x pbt.Obs
		if err := checkOctets(octetsCase{c.MO, c.B[:n]}, &x); err != nil {
			return fmt.Errorf("cut to %d: %v", n, err)
		}
		if strict {
			if _, err := sms.Unmarshal(c.B[:n], dir); err == nil {
				return fmt.Errorf("accepted when cut to %d of %d", n, len(c.B))
			}
		}
	}
	for _, more := range []string{"\x00", "\xff", "\x1b", "\x00\x00", "\r", "1234567"} {
		b := append(append(pbt.H{}, c.B...), more...)
		var x pbt.Obs
		if err := checkOctets(octetsCase{c.MO, b}, &x); err != nil {
			return fmt.Errorf("followed by %x: %v", more, err)
		}
		if strict {
			if _, err := sms.Unmarshal(b, dir); err == nil {
				return fmt.Errorf("accepted when followed by %x", more)
			}
		}
	}
	return nil
}

// awkwardHeader is a header put together by hand, and user data.
type awkwardHeader struct {
	IEs   []awkwardIE
	Alpha int
	UD    pbt.H
}

type awkwardIE struct {
	ID   byte
	Data pbt.H
	Nil  bool `json:",omitempty"`
}

func genAwkward(t *rapid.T) awkwardHeader {
	c := awkwardHeader{Alpha: intn(t, 0, 3, "alpha"), UD: octets(t, 0, 12, "ud")}
	for n := intn(t, 1, 4, "n"); n > 0; n-- {
		ie := awkwardIE{ID: pick(t, "id", 0, 8, shiftID(), lockingID(), 24, 25, 0x24, 0x25, rapid.Byte().Draw(t, "any"))}
		switch intn(t, 0, 3, "data") {
		case 0:
			ie.Nil = true
		case 1:
			ie.Data = pbt.H{}
		default:
			ie.Data = octets(t, 0, 5, "data")
		}
		c.IEs = append(c.IEs, ie)
	}
	return c
}

// checkAwkward decodes and marshals with the header. An element that is empty
// names no language.
func checkAwkward(c awkwardHeader, o *pbt.Obs) error {
	var u tpdu.UserDataHeader
	empty := true
	for _, ie := range c.IEs {
		x := tpdu.InformationElement{ID: ie.ID, Data: tight(ie.Data)}
		if ie.Nil {
			x.Data = nil
		}
		u = append(u, x)
		if ie.ID == shiftID() || ie.ID == lockingID() {
			empty = empty && len(ie.Data) == 0
			o.NT()
			o.ClassIf(len(ie.Data) == 0, "an empty element for a language")
		}
	}
	for i := range c.UD {
		if c.Alpha == 0 || c.Alpha == 3 {
			c.UD[i] &= 0x7f
		}
	}
	opts := []tpdu.UDDecodeOption{tpdu.WithAllCharsets}
	got, err := tpdu.DecodeUserData(append([]byte{}, c.UD...), u, tpdu.Alphabet(c.Alpha), opts...)
	if empty {
		want, werr := tpdu.DecodeUserData(append([]byte{}, c.UD...), nil, tpdu.Alphabet(c.Alpha), opts...)
		if !bytes.Equal(got, want) || (err == nil) != (werr == nil) {
			return fmt.Errorf("decoded as %q (%v) but without the header as %q (%v)", got, err, want, werr)
		}
	}
	for _, st := range []int{ref.Deliver, ref.Submit, ref.Command} {
		t := tpdu.TPDU{Direction: tpdu.Direction(st & 1), FirstOctet: tpdu.FirstOctet(st>>1) | 0x40, UDH: u, UD: append([]byte{}, c.UD...), DCS: tpdu.DCS([]byte{0, 4, 8, 12}[c.Alpha])}
		sms.Decode([]*tpdu.TPDU{&t})
		sms.Decode([]*tpdu.TPDU{&t, &t})
		sms.IsCompleteMessage([]*tpdu.TPDU{&t, &t})
		t.ConcatInfo()
		t.UDBlockSize()
		if b, err := t.MarshalBinary(); err == nil {
			if _, err := sms.Unmarshal(b, dirOf(st)); err != nil && c.Alpha != 3 && (c.Alpha != 2 || len(c.UD)%2 == 0) {
				return fmt.Errorf("marshalled to %x, which is refused: %v", b, err)
			}
		}
		coll := sms.NewCollector()
		coll.Collect(t)
		coll.Close()
	}
	return nil
}

func enumTiny(yield func(octetsCase) bool) {
	for _, mo := range []bool{false, true} {
		if !yield(octetsCase{mo, pbt.H{}}) {
			return
		}
		for a := 0; a < 256; a++ {
			if !yield(octetsCase{mo, pbt.H{byte(a)}}) {
				return
			}
			for b := 0; b < 256; b++ {
				if !yield(octetsCase{mo, pbt.H{byte(a), byte(b)}}) {
					return
				}
			}
		}
	}
}

// enumUDLengths gives every length of header with every length of text, in
// each alphabet, for each type that has user data.
func enumUDLengths(yield func(pduCase) bool) {
	n := 0
	for h := -2; h <= 251; h++ {
		for l := 0; l <= 256; l++ {
			n++
			if h > 20 && h < 235 && l > 20 && l < 235 && n%5 > 0 {
				continue
			}
			p := ref.PDU{Type: []int{ref.Deliver, ref.Submit, ref.DeliverReport, ref.SubmitReport, ref.StatusReport}[n/7%5],
				Addr: ref.Addr{TOA: 0x91, Text: "123"}, FCS: 0xd0, DCS: byte(n % 3 * 4),
				SCTS: ref.Time{Y: 2020, Mo: 1, D: 2, H: 3, Mi: 4, S: 5, Q: 6}, DT: ref.Time{Y: 2021, Mo: 10, D: 20, Q: -3}}
			p.FO = byte(p.Type >> 1)
			if p.Report() {
				p.PI = 7
			}
			switch {
			case h == -2:
			case h == -1: // an empty header
				p.FO |= 0x40
			default:
				p.FO |= 0x40
				p.UDH = []ref.IE{{ID: byte(0x70 + h%16), Data: bytes.Repeat([]byte{byte(h)}, h)}}
			}
			p.UD = make(pbt.H, l)
			for i := range p.UD {
				p.UD[i] = byte(i*7+l) & 0x7f
			}
			if !yield(pduCase{p}) {
				return
			}
		}
	}
}

// enumOctetLengths gives user data of every length, with every length of
// header, and as many octets, one less and one more.
func enumOctetLengths(yield func(octetsCase) bool) {
	for udl := 0; udl < 256; udl++ {
		for udhl := -1; udhl < 256; udhl++ {
			if udhl > udl+2 && udhl < 253 || udhl > 30 && udhl < udl-3 && (udhl+udl)%4 > 0 {
				continue
			}
			for _, dcs := range []byte{0, 4, 8} {
				n := udl
				if dcs == 0 {
					n = (udl*7 + 7) / 8
				}
				for d := -1; d <= 1; d++ {
					if n+d < 0 {
						continue
					}
					b := pbt.H{0x00, 0x03, 0x91, 0x21, 0xf3, 0x00, dcs, 0x02, 0x10, 0x20, 0x30, 0x40, 0x50, 0x00, byte(udl)}
					ud := make(pbt.H, n+d)
					for i := range ud {
						ud[i] = byte(i*37 + udl)
					}
					if udhl >= 0 {
						b[0] |= 0x40
						if len(ud) > 0 {
							ud[0] = byte(udhl)
						}
						if len(ud) > 1 {
							ud[1] = 0x70
						}
						if len(ud) > 2 {
							ud[2] = byte(max(udhl-2, 0))
						}
					}
					if !yield(octetsCase{false, append(b, ud...)}) {
						return
					}
				}
			}
		}
	}
}

func init() {
	pbt.Enum("C05", "lengths", "a TPDU with a header and text of every length is marshalled", enumUDLengths, checkLayout)
	pbt.Enum("C06", "lengths", "the octets declare user data and a header of every length", enumOctetLengths, checkOctets)
	pbt.Random("C05", "layout", 40000, "a TPDU is marshalled", genLayout, checkLayout)
	pbt.Random("C05", "overlong", 10000, "a field is about as long as its length octet allows", genOverlong, checkLayout)
	pbt.Random("C05", "unfit", 10000, "a field cannot be encoded, or only just", genUnfit, checkLayout)
	pbt.Enum("C05", "fields", "a TPDU is marshalled", enumFields, checkField)
	pbt.Known(fcsFinding, "C05", fcsProbe)
	pbt.Random("C06", "mutated", 60000, "the octets are not those of a TPDU, or carry user data", genMutated, checkOctets)
	pbt.Random("C06", "raw", 40000, "the octets are not those of a TPDU, or carry user data", genRaw, checkOctets)
	pbt.Random("C06", "valid", 20000, "the octets carry user data", genValidOctets, checkOctets)
	pbt.Random("C06", "cuts", 1600, "a TPDU is cut short everywhere, and extended", genValidOctets, checkCuts)
	pbt.Random("C06", "headers", 30000, "the header has an element for a language", genAwkward, checkAwkward)
	pbt.Enum("C06", "tiny", "all inputs of up to two octets", enumTiny, checkOctets)
	pbt.Known(fcsFinding, "C06", fcsProbe)
	pbt.Known(reservedFinding, "C06", reservedProbe)
}

package ref

import (
	"time"

	"verif/harness/pbt"
)

// TPDU types, in the order of the library's SmsType.
const (
	Deliver = iota
	DeliverReport
	SubmitReport
	Submit
	StatusReport
	Command
)

// TypeNames are the names of the types.
var TypeNames = []string{"Deliver", "DeliverReport", "SubmitReport", "Submit", "StatusReport", "Command"}

// Addr is an address.
type Addr struct {
	TOA  byte
	Text string
}

// Alnum reports whether the type of number is alphanumeric.
func (a Addr) Alnum() bool { return a.TOA>>4&7 == 5 }

// Time is a local time and zone.
type Time struct {
	Y, Mo, D, H, Mi, S int
	Q                  int // quarter hours east of UTC
}

// Go converts to a time.
func (t Time) Go() time.Time {
	loc := time.UTC
	if t.Q != 0 {
		loc = time.FixedZone("x", t.Q*900)
	}
	return time.Date(t.Y, time.Month(t.Mo), t.D, t.H, t.Mi, t.S, 0, loc)
}

// Calendar reports whether the fields are a real date and time.
func (t Time) Calendar() bool {
	g := t.Go()
	return g.Year() == t.Y && int(g.Month()) == t.Mo && g.Day() == t.D && g.Hour() == t.H && g.Minute() == t.Mi && g.Second() == t.S
}

// FromGo converts from a time. ok is false if there is something the model
// cannot represent.
func FromGo(g time.Time) (t Time, ok bool) {
	_, z := g.Zone()
	t = Time{g.Year(), int(g.Month()), g.Day(), g.Hour(), g.Minute(), g.Second(), z / 900}
	return t, g.Nanosecond() == 0 && z%900 == 0
}

// validity period formats
const (
	VPNone = iota
	VPEnhanced
	VPRelative
	VPAbsolute
)

// VP is a validity period.
type VP struct {
	Format byte
	EFI    byte
	Dur    time.Duration
	T      Time
}

// IE is an information element.
type IE struct {
	ID   byte
	Data pbt.H
}

// Len is the length of the element in the header.
func (e IE) Len() int { return 2 + len(e.Data) }

// UDHL is the length of a header, excluding the length octet.
func UDHL(udh []IE) int {
	n := 0
	for _, e := range udh {
		n += e.Len()
	}
	return n
}

// PDU is a model TPDU. Only the fields of its type are used.
type PDU struct {
	Type int
	FO   byte // first octet, with the type bits consistent with Type
	MR   byte
	Addr Addr // OA, DA or RA, depending on the type
	FCS  byte
	CT   byte
	MN   byte
	ST   byte
	PI   byte
	PID  byte
	DCS  byte
	SCTS Time
	DT   Time
	VP   VP
	UDH  []IE
	UD   pbt.H // septets, or octets
}

// Has lists which fields a type has.
func (p *PDU) Has(field string) bool {
	switch field {
	case "MR":
		return p.Type == Submit || p.Type == StatusReport || p.Type == Command
	case "Addr":
		return p.Type != DeliverReport && p.Type != SubmitReport
	case "FCS":
		return p.Type == DeliverReport || p.Type == SubmitReport
	case "CT", "MN":
		return p.Type == Command
	case "ST", "DT":
		return p.Type == StatusReport
	case "PI":
		return p.Report()
	case "PID":
		return !p.Report() || p.PI&1 != 0
	case "DCS":
		return p.Type == Deliver || p.Type == Submit || p.Report() && p.PI&2 != 0
	case "SCTS":
		return p.Type == Deliver || p.Type == StatusReport || p.Type == SubmitReport
	case "VP":
		return p.Type == Submit && p.VPF() != VPNone
	case "UD":
		return !p.Report() || p.PI&4 != 0
	}
	panic(field)
}

// Report is true for the types with a parameter indicator.
func (p *PDU) Report() bool {
	return p.Type == DeliverReport || p.Type == SubmitReport || p.Type == StatusReport
}

// VPF is the validity period format announced by the first octet.
func (p *PDU) VPF() int { return int(p.FO >> 3 & 3) }

// UDHI is the header flag.
func (p *PDU) UDHI() bool { return p.FO&0x40 != 0 }

// Alpha is the alphabet of the user data.
func (p *PDU) Alpha() int {
	if p.Type == Command {
		return Alpha8Bit
	}
	if !p.Has("DCS") {
		return Alpha7Bit
	}
	return ReadDCS(p.DCS).Alpha
}

func bcd(v int) byte { return byte(v%10<<4 | v/10) }

// Fits reports whether the zone can be encoded.
func (t Time) Fits() bool { return -79 <= t.Q && t.Q <= 79 }

// Bytes is the 7 octet form of a time.
func (t Time) Bytes() []byte {
	q, sign := t.Q, byte(0)
	if q < 0 {
		q, sign = -q, 8
	}
	return []byte{bcd(t.Y % 100), bcd(t.Mo), bcd(t.D), bcd(t.H), bcd(t.Mi), bcd(t.S), bcd(q) | sign}
}

// RelativePeriod is the duration of a relative validity period.
func RelativePeriod(v byte) time.Duration {
	switch {
	case v <= 143:
		return time.Duration(int(v)+1) * 5 * time.Minute
	case v <= 167:
		return 12*time.Hour + time.Duration(int(v)-143)*30*time.Minute
	case v <= 196:
		return time.Duration(int(v)-166) * 24 * time.Hour
	}
	return time.Duration(int(v)-192) * 7 * 24 * time.Hour
}

// RelativeOctet is the octet of the longest period not exceeding d, or of the
// shortest if all exceed it.
func RelativeOctet(d time.Duration) byte {
	best := byte(0)
	for v := 0; v < 256; v++ {
		if p := RelativePeriod(byte(v)); p <= d && p >= RelativePeriod(best) {
			best = byte(v)
		}
	}
	return best
}

// clampSeconds is the largest number of whole seconds not exceeding d, or limit.
func clampSeconds(d time.Duration, limit int) int {
	return min(max(0, int(d/time.Second)), limit)
}

// Bytes is the encoded validity period.
func (v VP) Bytes() []byte {
	switch v.Format {
	case VPRelative:
		return []byte{RelativeOctet(v.Dur)}
	case VPAbsolute:
		return v.T.Bytes()
	case VPEnhanced:
		b := make([]byte, 7)
		b[0] = v.EFI
		switch v.EFI & 7 {
		case 1:
			b[1] = RelativeOctet(v.Dur)
		case 2:
			b[1] = byte(clampSeconds(v.Dur, 255))
		case 3:
			s := clampSeconds(v.Dur, 100*3600-1)
			b[1], b[2], b[3] = bcd(s/3600), bcd(s/60%60), bcd(s%60)
		}
		return b
	}
	return nil
}

const digits = "0123456789*#abc"

func digit(c byte) int {
	for i := range digits {
		if digits[i] == c {
			return i
		}
	}
	return -1
}

// SemiOctets packs digits into swapped semi-octets.
func SemiOctets(s string) ([]byte, bool) {
	var b []byte
	for i := 0; i < len(s); i++ {
		d := digit(s[i])
		if d < 0 {
			return nil, false
		}
		if i%2 == 0 {
			b = append(b, 0xf0|byte(d))
		} else {
			b[i/2] = b[i/2]&0x0f | byte(d)<<4
		}
	}
	return b, true
}

// Bytes is the encoded address, or false if it cannot be encoded.
func (a Addr) Bytes() ([]byte, bool) {
	if a.Alnum() {
		var s []byte
		for _, r := range a.Text {
			g, ok := DefaultSeptet(r)
			if !ok {
				return nil, false
			}
			s = append(s, g)
		}
		n := (7*len(s) + 3) / 4
		if n > 255 {
			return nil, false
		}
		return append([]byte{byte(n), a.TOA}, Pack(s, 0)...), true
	}
	b, ok := SemiOctets(a.Text)
	if !ok || len(a.Text) > 255 {
		return nil, false
	}
	return append([]byte{byte(len(a.Text)), a.TOA}, b...), true
}

// DefaultSeptet is the septet of a character in the default table.
func DefaultSeptet(r rune) (byte, bool) {
	for k, v := range lockingTables[0] {
		if v == r && k != Esc {
			return k, true
		}
	}
	return 0, false
}

// HeaderBytes is the encoded user data header.
func HeaderBytes(udhi bool, udh []IE) ([]byte, bool) {
	if !udhi && len(udh) == 0 {
		return nil, true
	}
	l := UDHL(udh)
	if l > 255 {
		return nil, false
	}
	b := []byte{byte(l)}
	for _, e := range udh {
		b = append(b, e.ID, byte(len(e.Data)))
		b = append(b, e.Data...)
	}
	return b, true
}

// UserData is the encoded user data, including its length octet.
func (p *PDU) UserData() ([]byte, bool) {
	h, ok := HeaderBytes(p.UDHI(), p.UDH)
	if !ok {
		return nil, false
	}
	l := len(h) + len(p.UD)
	body := []byte(p.UD)
	switch p.Alpha() {
	case AlphaBad:
		return nil, false
	case Alpha7Bit:
		fill := FillBits(len(h))
		body = Pack(p.UD, fill)
		if len(p.UD) > 0 {
			l = (8*len(h)+fill)/7 + len(p.UD)
		} else {
			l = 8 * len(h) / 7
		}
	case AlphaUCS2:
		if len(p.UD)%2 == 1 {
			return nil, false
		}
	}
	if l > 255 {
		return nil, false
	}
	return append(append([]byte{byte(l)}, h...), body...), true
}

// Fits reports whether the single octets and times can be encoded.
func (p *PDU) Fits() bool {
	switch {
	case p.FO&3 == 3: // a reserved type
	case p.Has("SCTS") && !p.SCTS.Fits():
	case p.Has("DT") && !p.DT.Fits():
	case p.Has("VP") && p.VP.Format == VPAbsolute && !p.VP.T.Fits():
	case p.Has("VP") && p.VP.Format == VPEnhanced && p.VP.EFI&7 > 3:
	default:
		return true
	}
	return false
}

// Bytes is the encoded TPDU, or false if it cannot be encoded.
func (p *PDU) Bytes() ([]byte, bool) {
	b := []byte{p.FO}
	add := func(x ...byte) { b = append(b, x...) }
	ok := p.Fits()
	addr := func() {
		a, k := p.Addr.Bytes()
		ok = ok && k
		add(a...)
	}
	ud := func() {
		u, k := p.UserData()
		ok = ok && k
		add(u...)
	}
	optional := func() {
		if p.PI&1 != 0 {
			add(p.PID)
		}
		if p.PI&2 != 0 {
			add(p.DCS)
		}
		if p.PI&4 != 0 {
			ud()
		}
	}
	switch p.Type {
	case Deliver:
		addr()
		add(p.PID, p.DCS)
		add(p.SCTS.Bytes()...)
		ud()
	case Submit:
		add(p.MR)
		addr()
		add(p.PID, p.DCS)
		add(p.VP.Bytes()...)
		ud()
	case Command:
		add(p.MR, p.PID, p.CT, p.MN)
		addr()
		ud()
	case DeliverReport:
		if p.FCS != 0 {
			add(p.FCS)
		}
		add(p.PI)
		optional()
	case SubmitReport:
		if p.FCS != 0 {
			add(p.FCS)
		}
		add(p.PI)
		add(p.SCTS.Bytes()...)
		optional()
	case StatusReport:
		add(p.MR)
		addr()
		add(p.SCTS.Bytes()...)
		add(p.DT.Bytes()...)
		add(p.ST)
		if p.PI != 0 {
			add(p.PI)
			optional()
		}
	}
	return b, ok
}

// Capacity is the number of octets available to user data in a type.
func (p *PDU) Capacity() int {
	switch p.Type {
	case Submit, Deliver:
		return 140
	case Command:
		return 146
	case SubmitReport:
		if p.FCS == 0 {
			return 152
		}
		return 151
	case DeliverReport:
		if p.FCS == 0 {
			return 159
		}
		return 158
	}
	return 131
}

// Block is the number of septets or octets available to the message after a
// header of h octets, including its length octet.
func Block(capacity, alpha, h int) int {
	switch alpha {
	case Alpha8Bit:
		return capacity - h
	case AlphaUCS2:
		return (capacity - h) &^ 1
	}
	return capacity*8/7 - (8*h+6)/7
}

// Room is the block of the PDU given its present header.
func (p *PDU) Room() int {
	h := 0
	if p.UDHI() || len(p.UDH) > 0 {
		h = 1 + UDHL(p.UDH)
	}
	a := p.Alpha()
	if a == AlphaBad {
		a = Alpha7Bit
	}
	return Block(p.Capacity(), a, h)
}

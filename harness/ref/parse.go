package ref

import "time"

// Verdict is what is to be made of received octets.
type Verdict int

const (
	// Valid octets are to be accepted, with the fields of the model.
	Valid Verdict = iota
	// Invalid octets are to be rejected.
	Invalid
	// Gray octets may be accepted or rejected: the specification does not say,
	// or says something other than the library promises.
	Gray
)

func (v Verdict) String() string { return []string{"valid", "invalid", "gray"}[v] }

// Parsed is the reading of some octets.
type Parsed struct {
	PDU     PDU
	Verdict Verdict
	Why     string // for Invalid and Gray
	Field   string // the field at fault, for Invalid
	Start   int    // the offset of that field
	// fields whose value is not determined
	SkipSCTS, SkipDT, SkipVP, SkipAddr bool
	// Unsure is set if there is a gray field, even when a later one is invalid.
	Unsure bool
	// Trailing is the number of octets not accounted for.
	Trailing int
}

type parser struct {
	b   []byte
	pos int
	Parsed
}

func (p *parser) bad(field string, start int, why string) bool {
	if p.Verdict != Invalid {
		p.Verdict, p.Field, p.Start, p.Why = Invalid, field, start, why
	}
	return false
}

func (p *parser) gray(why string) {
	p.Unsure = true
	if p.Verdict == Valid {
		p.Verdict, p.Why = Gray, why
	}
}

func (p *parser) octet(field string, dst *byte) bool {
	if p.pos >= len(p.b) {
		return p.bad(field, p.pos, "truncated")
	}
	*dst = p.b[p.pos]
	p.pos++
	return true
}

// ParseAddr reads an address from the start of b.
//
// n is the octets used. verdict Gray leaves a undetermined.
func ParseAddr(b []byte) (a Addr, n int, v Verdict, why string) {
	if len(b) < 2 {
		return a, 0, Invalid, "truncated"
	}
	l := int(b[0])
	a.TOA = b[1]
	ol := (l + 1) / 2
	if len(b) < 2+ol {
		return a, 0, Invalid, "truncated"
	}
	n = 2 + ol
	f := b[2:n]
	if a.Alnum() {
		s := l * 4 / 7
		if (7*s+3)/4 != l {
			return a, n, Gray, "alphanumeric length is not that of any number of septets"
		}
		if _, zero := Tail(f, 7*s); !zero {
			return a, n, Gray, "non-zero padding"
		}
		for _, g := range Unpack(f, 0, s) {
			r, ok := lockingTables[0][g]
			if !ok || g == Esc {
				return a, n, Gray, "escape in address"
			}
			a.Text += string(r)
		}
		return a, n, Valid, ""
	}
	for i := 0; i < l; i++ {
		d := f[i/2] >> (4 * (i % 2)) & 0xf
		if d == 0xf {
			return a, n, Gray, "filler within address"
		}
		a.Text += digits[d : d+1]
	}
	if l%2 == 1 && f[l/2]>>4 != 0xf {
		return a, n, Invalid, "missing filler"
	}
	return a, n, Valid, ""
}

func (p *parser) addr() bool {
	a, n, v, why := ParseAddr(p.b[p.pos:])
	switch v {
	case Invalid:
		return p.bad("addr", p.pos, why)
	case Gray:
		p.gray(why)
		p.SkipAddr = true
	}
	p.PDU.Addr = a
	p.pos += n
	return true
}

// ParseTime reads a timestamp.
func ParseTime(b []byte) (t Time, v Verdict, why string) {
	if len(b) < 7 {
		return t, Invalid, "truncated"
	}
	var f [6]int
	for i := range f {
		lo, hi := b[i]&0xf, b[i]>>4
		if lo > 9 || hi > 9 {
			return t, Invalid, "not BCD"
		}
		f[i] = int(lo)*10 + int(hi)
	}
	if b[6]>>4 > 9 {
		return t, Invalid, "zone is not BCD"
	}
	q := int(b[6]&7)*10 + int(b[6]>>4)
	if b[6]&8 != 0 {
		q = -q
	}
	y := 1900 + f[0]
	if f[0] < 70 {
		y = 2000 + f[0]
	}
	t = Time{y, f[1], f[2], f[3], f[4], f[5], q}
	if !t.Calendar() {
		return t, Gray, "not a calendar time"
	}
	return t, Valid, ""
}

func (p *parser) time(field string, dst *Time, skip *bool) bool {
	t, v, why := ParseTime(p.b[p.pos:])
	switch v {
	case Invalid:
		return p.bad(field, p.pos, why)
	case Gray:
		p.gray(why)
		*skip = true
	}
	*dst = t
	p.pos += 7
	return true
}

// ParseVP reads a validity period.
func ParseVP(b []byte, format int) (v VP, n int, vd Verdict, why string) {
	v.Format = byte(format)
	switch format {
	case VPRelative:
		if len(b) < 1 {
			return v, 0, Invalid, "truncated"
		}
		v.Dur = RelativePeriod(b[0])
		return v, 1, Valid, ""
	case VPAbsolute:
		v.T, vd, why = ParseTime(b)
		return v, 7, vd, why
	case VPEnhanced:
		if len(b) < 7 {
			return v, 0, Invalid, "truncated"
		}
		v.EFI = b[0]
		used := 0
		switch v.EFI & 7 {
		case 0:
		case 1:
			v.Dur, used = RelativePeriod(b[1]), 1
		case 2:
			v.Dur, used = time.Duration(b[1])*time.Second, 1
		case 3:
			used = 3
			var f [3]int
			for i := range f {
				lo, hi := b[1+i]&0xf, b[1+i]>>4
				if lo > 9 || hi > 9 {
					return v, 0, Invalid, "not BCD"
				}
				f[i] = int(lo)*10 + int(hi)
			}
			v.Dur = time.Duration(f[0]*3600+f[1]*60+f[2]) * time.Second
			if f[1] > 59 || f[2] > 59 {
				vd, why = Gray, "more than 59 minutes or seconds"
			}
		default:
			return v, 0, Invalid, "reserved enhanced format"
		}
		for _, x := range b[1+used : 7] {
			if x != 0 {
				return v, 0, Invalid, "non-zero filler"
			}
		}
		return v, 7, vd, why
	}
	return v, 0, Valid, ""
}

// ParseUDH reads a header, starting with its length, from b.
func ParseUDH(b []byte) (udh []IE, n int, ok bool) {
	if len(b) < 1 {
		return nil, 0, false
	}
	n = 1 + int(b[0])
	if len(b) < n {
		return nil, 0, false
	}
	for i := 1; i < n; {
		if i+2 > n || i+2+int(b[i+1]) > n {
			return nil, 0, false
		}
		udh = append(udh, IE{b[i], append([]byte{}, b[i+2:i+2+int(b[i+1])]...)})
		i += 2 + int(b[i+1])
	}
	return udh, n, true
}

func (p *parser) userData() bool {
	start := p.pos
	var l byte
	if !p.octet("ud", &l) {
		return false
	}
	rest := p.b[p.pos:]
	if l == 0 {
		if len(rest) > 0 {
			return p.bad("ud", start, "extra octets")
		}
		return true
	}
	alpha := p.PDU.Alpha()
	if alpha == AlphaBad {
		p.gray("reserved coding group")
		p.pos = len(p.b)
		p.SkipAddr, p.SkipDT, p.SkipSCTS, p.SkipVP = true, true, true, true
		return false
	}
	ol := int(l)
	if alpha == Alpha7Bit {
		ol = (7*ol + 7) / 8
	}
	if len(rest) < ol {
		return p.bad("ud", start, "truncated")
	}
	if len(rest) > ol {
		return p.bad("ud", start, "extra octets")
	}
	p.pos = len(p.b)
	h := 0
	if p.PDU.UDHI() {
		udh, n, ok := ParseUDH(rest)
		if !ok {
			return p.bad("ud", start, "header overruns")
		}
		p.PDU.UDH, h = udh, n
	}
	body := rest[h:]
	switch alpha {
	case AlphaUCS2:
		if len(body)%2 == 1 {
			return p.bad("ud", start, "odd length")
		}
	case Alpha7Bit:
		fill := FillBits(h)
		s := int(l) - (8*h+fill)/7
		if len(body) == 0 {
			return true
		}
		if s < 0 {
			p.gray("the header exceeds the septets")
			return false
		}
		if n, zero := Tail(body, fill+7*s); n >= 7 && !zero {
			p.gray("non-zero padding")
		}
		p.PDU.UD = Unpack(body, fill, s)
		return true
	}
	p.PDU.UD = append([]byte{}, body...)
	return true
}

// Parse reads a TPDU.
func Parse(b []byte, mo bool) Parsed {
	p := &parser{b: b}
	p.tpdu(mo)
	if p.Verdict == Valid && p.pos < len(b) {
		// after a report without user data
		p.Trailing = len(b) - p.pos
	}
	return p.Parsed
}

func (p *parser) tpdu(mo bool) bool {
	d := &p.PDU
	if !p.octet("firstOctet", &d.FO) {
		return false
	}
	mti := int(d.FO & 3)
	if mti == 3 {
		return p.bad("firstOctet", 0, "reserved type")
	}
	d.Type = mti << 1
	if mo {
		d.Type |= 1
	}
	switch d.Type {
	case Deliver:
		return p.addr() && p.octet("pid", &d.PID) && p.octet("dcs", &d.DCS) && p.time("scts", &d.SCTS, &p.SkipSCTS) && p.userData()
	case Submit:
		if !(p.octet("mr", &d.MR) && p.addr() && p.octet("pid", &d.PID) && p.octet("dcs", &d.DCS)) {
			return false
		}
		v, n, vd, why := ParseVP(p.b[p.pos:], d.VPF())
		switch vd {
		case Invalid:
			return p.bad("vp", p.pos, why)
		case Gray:
			p.gray(why)
			p.SkipVP = true
		}
		d.VP = v
		p.pos += n
		return p.userData()
	case Command:
		return p.octet("mr", &d.MR) && p.octet("pid", &d.PID) && p.octet("ct", &d.CT) && p.octet("mn", &d.MN) && p.addr() && p.userData()
	case DeliverReport:
		return p.octet("fcs", &d.FCS) && p.octet("pi", &d.PI) && p.optional()
	case SubmitReport:
		return p.octet("fcs", &d.FCS) && p.octet("pi", &d.PI) && p.time("scts", &d.SCTS, &p.SkipSCTS) && p.optional()
	}
	if !(p.octet("mr", &d.MR) && p.addr() && p.time("scts", &d.SCTS, &p.SkipSCTS) && p.time("dt", &d.DT, &p.SkipDT) && p.octet("st", &d.ST)) {
		return false
	}
	if p.pos == len(p.b) {
		return true
	}
	return p.octet("pi", &d.PI) && p.optional()
}

func (p *parser) optional() bool {
	d := &p.PDU
	if d.PI&1 != 0 && !p.octet("pid", &d.PID) {
		return false
	}
	if d.PI&2 != 0 && !p.octet("dcs", &d.DCS) {
		return false
	}
	return d.PI&4 == 0 || p.userData()
}

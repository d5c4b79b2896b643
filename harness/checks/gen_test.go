package checks

import (
	"strings"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/ref"
)

func intn(t *rapid.T, lo, hi int, label string) int { return rapid.IntRange(lo, hi).Draw(t, label) }

// tight returns a copy of octets with no capacity to spare, so that reading
// beyond them is a panic.
func tight(parts ...[]byte) []byte {
	n := 0
	for _, p := range parts {
		n += len(p)
	}
	b := make([]byte, 0, n)
	for _, p := range parts {
		b = append(b, p...)
	}
	return b[:n:n]
}

func pick[T any](t *rapid.T, label string, vs ...T) T { return rapid.SampledFrom(vs).Draw(t, label) }

// oneIn is true in about one of n cases, and false in the simplest.
func oneIn(t *rapid.T, n int, label string) bool {
	return rapid.IntRange(0, n-1).Draw(t, label) == n-1
}

// marks are octets that software is inclined to treat specially.
var marks = []string{"\xfe\xff", "\xff\xfe", "\xef\xbb\xbf", "\x00", "\x00\x00", "\xff\xff", "\x1b", "\x0d", "\r\n", "\x1a", "\x1b\x1b", "\xd8\x00", "\xdc\x00", "\x80", "\xf0"}

func octets(t *rapid.T, lo, hi int, label string) pbt.H {
	b := pbt.H(rapid.SliceOfN(rapid.Byte(), lo, hi).Draw(t, label))
	if len(b) > 1 && oneIn(t, 8, label+"Marked") {
		m := rapid.SampledFrom(marks).Draw(t, label+"Mark")
		at := 0
		switch intn(t, 0, 3, label+"MarkAt") {
		case 1:
			at = len(b) - len(m)
		case 2:
			at = intn(t, 0, len(b)-1, label+"MarkPos")
		}
		copy(b[max(0, at):], m)
	}
	return b
}

func septets(t *rapid.T, lo, hi int, label string) pbt.H {
	return pbt.H(rapid.SliceOfN(rapid.ByteRange(0, 127), lo, hi).Draw(t, label))
}

var emoji = []rune("😀𝄞𐐷🏳\U0010ffff\U00010000")

var bmp = []rune("яЖ中文–“€\u200d\u0300\u00ad\uffff\ufffe\ue000\ud7ffĀ\u0000\u0007\u007f\ufeff")

// a rune from a pool
func genRune(t *rapid.T, label string) rune {
	switch intn(t, 0, 11, label+"Pool") {
	case 0, 1:
		return pick(t, label, []rune("abcxyz XY 09@\n\r")...)
	case 2:
		return rapid.SampledFrom(ref.LockChars(0)).Draw(t, label)
	case 3:
		return rapid.SampledFrom(ref.ShiftChars(0)).Draw(t, label)
	case 4, 5:
		return rapid.SampledFrom(ref.LockChars(intn(t, 1, 13, label+"Lock"))).Draw(t, label)
	case 6, 7:
		return rapid.SampledFrom(ref.ShiftChars(intn(t, 1, 13, label+"Shift"))).Draw(t, label)
	case 8:
		return rapid.SampledFrom(bmp).Draw(t, label)
	case 9:
		return rapid.SampledFrom(emoji).Draw(t, label)
	case 10:
		return rune(intn(t, 0, 0x24f, label+"Low"))
	}
	r := rune(intn(t, 0, 0x10ffff-0x800, label+"Any"))
	if r >= 0xd800 {
		r += 0x800
	}
	return r
}

// runes that stay within a given pair of tables, or in UCS-2
type palette struct {
	lock, shift int
	ucs2        bool
}

func genPalette(t *rapid.T) palette {
	switch intn(t, 0, 5, "palette") {
	case 0, 1:
		return palette{}
	case 2:
		return palette{lock: intn(t, 1, 13, "plock")}
	case 3:
		return palette{shift: intn(t, 1, 13, "pshift")}
	case 4:
		n := intn(t, 1, 13, "pboth")
		return palette{lock: n, shift: n}
	}
	return palette{ucs2: true}
}

// one returns a character of one unit, two one taking two units.
func (p palette) one(t *rapid.T, label string) rune {
	if p.ucs2 {
		return pick(t, label, 'я', 'a', '中', '\uffff')
	}
	return rapid.SampledFrom(ref.LockChars(p.lock)).Draw(t, label)
}

func (p palette) two(t *rapid.T, label string) rune {
	if p.ucs2 {
		return rapid.SampledFrom(emoji).Draw(t, label)
	}
	return rapid.SampledFrom(ref.ShiftChars(p.shift)).Draw(t, label)
}

// genText draws a message of any alphabet. maxSegs bounds its length.
func genText(t *rapid.T, maxSegs int) string {
	s := genBareText(t, maxSegs)
	if oneIn(t, 8, "edged") { // begins or ends in what could be trimmed
		e := strings.Repeat(pick(t, "edge", " ", "@", "\r", "\n", "\r\n", "\x00", "\t", "\ufeff", "\u00a0", "\u200b", "\f"), intn(t, 1, 8, "edges"))
		if oneIn(t, 2, "leading") {
			return e + s
		}
		return s + e
	}
	return s
}

func genBareText(t *rapid.T, maxSegs int) string {
	switch intn(t, 0, 9, "textMode") {
	case 0, 1, 2: // short and arbitrary
		rs := make([]rune, intn(t, 0, 24, "len"))
		for i := range rs {
			rs[i] = genRune(t, "r")
		}
		return string(rs)
	case 3, 4: // short, within one palette
		p := genPalette(t)
		rs := make([]rune, intn(t, 1, 40, "len"))
		for i := range rs {
			if oneIn(t, 3, "two") {
				rs[i] = p.two(t, "r")
			} else {
				rs[i] = p.one(t, "r")
			}
		}
		return string(rs)
	case 5, 6: // runs
		var b strings.Builder
		p := genPalette(t)
		n := intn(t, 1, 5, "runs")
		for i := 0; i < n; i++ {
			pat := make([]rune, intn(t, 1, 3, "pat"))
			for j := range pat {
				switch intn(t, 0, 7, "patKind") {
				case 0, 1, 2, 3:
					pat[j] = p.one(t, "r")
				case 4, 5, 6:
					pat[j] = p.two(t, "r")
				default:
					pat[j] = genRune(t, "r")
				}
			}
			b.WriteString(strings.Repeat(string(pat), intn(t, 1, 170*min(maxSegs, 4)/n/len(pat)+1, "rep")))
		}
		return b.String()
	}
	return genBoundary(t, maxSegs)
}

// genBoundary draws a message with a length, and characters of two units, at
// or next to block boundaries.
func genBoundary(t *rapid.T, maxSegs int) string {
	p := genPalette(t)
	single, multi := 160, 153
	switch {
	case p.ucs2:
		single, multi = 70, 67
	case p.lock != 0 && p.shift != 0: // header of 7 octets, and with concat 12
		single, multi = 152, 146
	case p.lock != 0 || p.shift != 0:
		single, multi = 155, 149
	}
	k := intn(t, 1, min(maxSegs, 6), "blocks")
	bs := multi
	if k == 1 {
		bs = single
	}
	n := max(0, k*bs+intn(t, -4, 4, "delta"))
	base := p.one(t, "base")
	if oneIn(t, 4, "base2") {
		base = p.two(t, "base")
	}
	units := func(r rune) int {
		if p.ucs2 {
			return utf16Len(r)
		}
		return ref.SeptetLen([]rune{r}, p.lock, p.shift)
	}
	special := map[int]rune{}
	for i := intn(t, 0, 4, "specials"); i > 0; i-- {
		special[intn(t, 1, k, "at")*bs-1+intn(t, -3, 3, "off")] = p.two(t, "special")
	}
	var rs []rune
	for u := 0; u < n; {
		r := base
		for d := 0; d < max(1, units(base)); d++ {
			if s, ok := special[u+d]; ok {
				r = s
			}
		}
		if u+units(r) > n {
			r = p.one(t, "last")
		}
		rs = append(rs, r)
		u += units(r)
	}
	if p.ucs2 && len(rs) > 0 {
		rs[intn(t, 0, len(rs)-1, "force")] = 'я'
	}
	return string(rs)
}

func utf16Len(r rune) int {
	if r > 0xffff {
		return 2
	}
	return 1
}

// genLong draws a message near the 255 segment limit.
func genLong(t *rapid.T) string {
	k := intn(t, 253, 257, "segs")
	two := oneIn(t, 3, "two")
	if oneIn(t, 2, "ucs2") {
		n := k*67 + intn(t, -2, 2, "delta")
		if two {
			return strings.Repeat("😀", n/2)
		}
		return strings.Repeat("я", n)
	}
	n := k*153 + intn(t, -2, 2, "delta")
	if two {
		return strings.Repeat("€", n/2)
	}
	return strings.Repeat("a", n)
}

const digitChars = "0123456789*#abc"

func genDigits(t *rapid.T, lo, hi int, label string) string {
	return rapid.StringOfN(rapid.SampledFrom([]rune(digitChars)), lo, hi, -1).Draw(t, label)
}

func genNumber(t *rapid.T, label string) string {
	lo, hi := 1, 15
	if oneIn(t, 10, label+"Long") {
		lo, hi = 16, pick(t, label+"Most", 22, 60, 254)
	}
	n := rapid.StringOfN(rapid.SampledFrom([]rune("0123456789")), lo, hi, -1).Draw(t, label)
	if oneIn(t, 2, label+"Plus") {
		return "+" + n
	}
	return n
}

// genAddr draws an address that can be encoded.
func genAddr(t *rapid.T) ref.Addr {
	toa := pick(t, "toa", byte(0x91), 0x81, 0xd0, 0x80, 0xa1)
	if oneIn(t, 3, "anyTOA") {
		toa = rapid.Byte().Draw(t, "toaAny")
	}
	a := ref.Addr{TOA: toa}
	if a.Alnum() {
		hi := 11
		if oneIn(t, 8, "long") {
			hi = 145
		}
		a.Text = string(rapid.SliceOfN(rapid.SampledFrom(ref.LockChars(0)), 0, hi).Draw(t, "alnum"))
		return a
	}
	hi := 20
	if oneIn(t, 8, "long") {
		hi = 255
	}
	a.Text = genDigits(t, 0, hi, "digits")
	return a
}

func genTime(t *rapid.T, label string) ref.Time {
	if oneIn(t, 3, label+"Edge") {
		tm := pick(t, label+"E", ref.Time{Y: 1970, Mo: 1, D: 1}, ref.Time{Y: 2069, Mo: 12, D: 31, H: 23, Mi: 59, S: 59},
			ref.Time{Y: 2000, Mo: 2, D: 29}, ref.Time{Y: 1999, Mo: 12, D: 31, H: 23, Mi: 59, S: 59}, ref.Time{Y: 2024, Mo: 2, D: 29, H: 12})
		tm.Q = intn(t, -79, 79, label+"Q")
		return tm
	}
	// days from 1970-01-01 to 2069-12-31
	g := time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC).AddDate(0, 0, intn(t, 0, 36523, label+"Day")).Add(time.Duration(intn(t, 0, 86399, label+"Sec")) * time.Second)
	tm, _ := ref.FromGo(g)
	switch intn(t, 0, 2, label+"Zone") {
	case 1:
		tm.Q = pick(t, label+"QE", 79, -79, 1, -1, 48, -48, 9, 10, -10, 4)
	case 2:
		tm.Q = intn(t, -79, 79, label+"Q")
	}
	return tm
}

func genVP(t *rapid.T) ref.VP {
	v := ref.VP{Format: byte(intn(t, 0, 3, "vpf"))}
	switch v.Format {
	case ref.VPRelative:
		v.Dur = ref.RelativePeriod(rapid.Byte().Draw(t, "rel"))
	case ref.VPAbsolute:
		v.T = genTime(t, "vp")
	case ref.VPEnhanced:
		f := byte(intn(t, 0, 3, "evpf"))
		v.EFI = f
		if oneIn(t, 3, "efiBits") {
			v.EFI |= rapid.Byte().Draw(t, "efi") &^ 7
		}
		switch f {
		case 1:
			v.Dur = ref.RelativePeriod(rapid.Byte().Draw(t, "rel"))
		case 2:
			v.Dur = time.Duration(rapid.Byte().Draw(t, "secs")) * time.Second
		case 3:
			v.Dur = time.Duration(intn(t, 0, 99, "h")*3600+intn(t, 0, 59, "m")*60+intn(t, 0, 59, "s")) * time.Second
		}
	}
	return v
}

// genUDH draws a header of at most max octets, excluding its length.
func genUDH(t *rapid.T, max int) []ref.IE {
	var udh []ref.IE
	left := max
	for n := intn(t, 0, 4, "ies"); n > 0 && left >= 2; n-- {
		e := ref.IE{ID: pick(t, "iei", byte(0), 8, shiftID(), lockingID(), 4, 5, 0x70, 0xff)}
		if oneIn(t, 4, "anyIEI") {
			e.ID = rapid.Byte().Draw(t, "iei2")
		}
		want := pick(t, "iel", 0, 1, 2, 3, 4, 5)
		if oneIn(t, 5, "longIE") {
			want = intn(t, 0, max, "iel2")
		}
		if want > left-2 {
			want = left - 2
		}
		e.Data = octets(t, want, want, "ied")
		left -= e.Len()
		udh = append(udh, e)
	}
	return udh
}

// plainUDH has no concatenation or language elements.
func plainUDH(t *rapid.T, max int) []ref.IE {
	udh := genUDH(t, max)
	for i := range udh {
		switch udh[i].ID {
		case 0, 8, 24, 25, 0x24, 0x25:
			udh[i].ID = 0x70
		}
	}
	return udh
}

func genDCS(t *rapid.T, label string) byte {
	if oneIn(t, 3, label+"Any") {
		return rapid.Byte().Draw(t, label+"B")
	}
	return pick(t, label, byte(0), 4, 8, 0x11, 0x15, 0x19, 0xf0, 0xf5, 0xc0, 0xd8, 0xe0, 0xe8, 0x40, 0x24, 0x0c)
}

// genPDU draws a TPDU that can be encoded. If big is false then the user data
// is kept within what fits in a real TPDU.
func genPDU(t *rapid.T, types ...int) ref.PDU {
	if len(types) == 0 {
		types = []int{0, 1, 2, 3, 4, 5}
	}
	p := ref.PDU{Type: rapid.SampledFrom(types).Draw(t, "type")}
	p.FO = rapid.Byte().Draw(t, "fo")&^3 | byte(p.Type>>1)
	if p.Has("MR") {
		p.MR = rapid.Byte().Draw(t, "mr")
	}
	if p.Has("Addr") {
		p.Addr = genAddr(t)
	}
	if p.Has("FCS") {
		p.FCS = pick(t, "fcs", byte(0x80), 0xd5, 1, 0xff)
		if oneIn(t, 4, "anyFCS") {
			p.FCS = rapid.ByteRange(1, 255).Draw(t, "fcsB")
		}
	}
	if p.Has("CT") {
		p.CT, p.MN = rapid.Byte().Draw(t, "ct"), rapid.Byte().Draw(t, "mn")
	}
	if p.Has("PI") {
		p.PI = byte(intn(t, 0, 7, "pi"))
		if oneIn(t, 6, "piBits") {
			p.PI |= rapid.Byte().Draw(t, "piB") &^ 7
		}
	}
	if p.Has("PID") {
		p.PID = rapid.Byte().Draw(t, "pid")
	}
	if p.Has("DCS") {
		p.DCS = genDCS(t, "dcs")
		if p.Has("UD") && ref.ReadDCS(p.DCS).Alpha == ref.AlphaBad {
			p.DCS &= 0x7f
		}
	}
	if p.Has("SCTS") {
		p.SCTS = genTime(t, "scts")
	}
	if p.Has("ST") {
		p.ST = rapid.Byte().Draw(t, "st")
		p.DT = genTime(t, "dt")
	}
	if p.Type == ref.Submit {
		p.VP = genVP(t)
		p.FO = p.FO&^0x18 | p.VP.Format<<3
	}
	if p.Has("UD") {
		limit := 140
		if oneIn(t, 8, "big") {
			limit = 254
		}
		if p.UDHI() {
			most := limit
			if p.Alpha() == ref.Alpha7Bit {
				most = min(limit, 215) // counted in septets
			}
			p.UDH = genUDH(t, pick(t, "udhMax", 6, 12, 40, most))
		}
		h, _ := ref.HeaderBytes(p.UDHI(), p.UDH)
		if p.Alpha() == ref.Alpha7Bit {
			limit = limit * 8 / 7
		}
		if limit > 255 {
			limit = 255
		}
		room := ref.Block(limit, ref.Alpha8Bit, len(h))
		if p.Alpha() == ref.Alpha7Bit {
			room = limit - (8*len(h)+6)/7
		}
		if p.Alpha() == ref.AlphaUCS2 {
			room &^= 1
		}
		p.UD = genUD(t, p.Alpha(), max(room, 0))
	}
	return p
}

func genUD(t *rapid.T, alpha, room int) pbt.H {
	var n int
	switch intn(t, 0, 3, "udLen") {
	case 0, 1:
		n = intn(t, 0, min(room, 18), "ud")
	case 2:
		n = max(0, room-intn(t, 0, 8, "udFull"))
	default:
		n = intn(t, 0, room, "udAny")
	}
	switch alpha {
	case ref.Alpha7Bit:
		return septets(t, n, n, "septets")
	case ref.AlphaUCS2:
		return octets(t, n&^1, n&^1, "units")
	}
	return octets(t, n, n, "octets")
}

func validText(s string) bool { return utf8.ValidString(s) }

// shuffled applies draws to order 0..n-1.
func shuffled(n int, swaps []int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0 && len(swaps) > 0; i-- {
		j := swaps[(n-1-i)%len(swaps)] % (i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func genSwaps(t *rapid.T) []int {
	return rapid.SliceOfN(rapid.IntRange(0, 255), 0, 12).Draw(t, "swaps")
}

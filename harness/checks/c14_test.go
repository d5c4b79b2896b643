package checks

import (
	"bytes"
	"errors"
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
	"github.com/warthog618/sms/encoding/ucs2"
	"pgregory.net/rapid"
	"verif/harness/pbt"
)

// utf16be is the big-endian UTF-16 of some runes.
func utf16be(rs []rune) []byte {
	var b []byte
	put := func(u rune) { b = append(b, byte(u>>8), byte(u)) }
	for _, r := range rs {
		if r < 0x10000 {
			put(r)
			continue
		}
		r -= 0x10000
		put(0xd800 + r>>10)
		put(0xdc00 + r&0x3ff)
	}
	return b
}

// fromUTF16be is the text of code units, with lone surrogates replaced. The
// last unit is left over if it is a surrogate without a partner.
func fromUTF16be(b []byte) (rs []rune, left []byte) {
	for i := 0; i+1 < len(b); i += 2 {
		u := rune(b[i])<<8 | rune(b[i+1])
		switch {
		case u < 0xd800 || u > 0xdfff:
			rs = append(rs, u)
		case i+2 >= len(b):
			return rs, b[i:]
		default:
			v := rune(b[i+2])<<8 | rune(b[i+3])
			if u < 0xdc00 && v >= 0xdc00 && v <= 0xdfff {
				rs = append(rs, 0x10000+(u-0xd800)<<10+(v-0xdc00))
				i += 2
			} else {
				rs = append(rs, 0xfffd)
			}
		}
	}
	return rs, nil
}

type ucs2Text struct{ Text string }

func checkUCS2Text(c ucs2Text, o *pbt.Obs) error {
	rs := []rune(c.Text)
	in := append([]rune{}, rs...)
	want := utf16be(rs)
	got := ucs2.Encode(in)
	if string(in) != c.Text {
		return fmt.Errorf("Encode altered its input")
	}
	if !eqBytes(got, want) {
		return fmt.Errorf("Encode is %x, not %x", got, want)
	}
	src := tight(want)
	back, err := ucs2.Decode(src)
	if !eqBytes(src, want) {
		return fmt.Errorf("Decode altered its input")
	}
	if err != nil || string(back) != c.Text {
		return fmt.Errorf("Decode(%x) is %q, %v", want, string(back), err)
	}
	o.NTIf(len(rs) > 0)
	o.ClassIf(len(want) > 2*len(rs), "with pairs")
	return nil
}

type ucs2Units struct{ B pbt.H }

func checkUCS2Units(c ucs2Units, o *pbt.Obs) error {
	src := tight(c.B)
	got, err := ucs2.Decode(src)
	if !bytes.Equal(src, c.B) {
		return fmt.Errorf("Decode altered its input")
	}
	if len(c.B)%2 == 1 {
		o.Class("odd")
		if err == nil {
			return fmt.Errorf("an odd length is decoded to %q", string(got))
		}
		return nil
	}
	want, left := fromUTF16be(c.B)
	var d ucs2.ErrDanglingSurrogate
	if left != nil {
		o.NT()
		o.Class("dangling")
		if !errors.As(err, &d) || !bytes.Equal(d, left) {
			return fmt.Errorf("the last unit %x is a lone surrogate but the error is %v", left, err)
		}
	} else if err != nil {
		return fmt.Errorf("error %v", err)
	}
	if string(got) != string(want) {
		return fmt.Errorf("Decode is %q, not %q", string(got), string(want))
	}
	if bytes.Contains([]byte(string(want)), []byte("\ufffd")) {
		o.NT()
		o.Class("lone inside")
	}
	return nil
}

type ucs2Split struct {
	B   pbt.H // code units
	Cut []int // the units in each segment but the last
}

func (c ucs2Split) segments() []*tpdu.TPDU {
	var segs []*tpdu.TPDU
	rest := []byte(c.B)
	add := func(b []byte) {
		segs = append(segs, &tpdu.TPDU{DCS: tpdu.DcsUCS2Data, UD: append(tpdu.UserData{}, b...)})
	}
	for _, n := range c.Cut {
		n = min(2*n, len(rest))
		add(rest[:n])
		rest = rest[n:]
	}
	add(rest)
	return segs
}

func checkUCS2Split(c ucs2Split, o *pbt.Obs) error {
	segs := c.segments()
	want, left := fromUTF16be(c.B)
	got, err := sms.Decode(segs)
	split := false
	for i, s := range segs {
		if i < len(segs)-1 {
			_, l := fromUTF16be(s.UD)
			split = split || l != nil
		}
	}
	o.NTIf(split)
	o.ClassIf(split, "surrogate at the end of a segment")
	o.ClassIf(left != nil, "dangling at the end")
	if left != nil {
		var d ucs2.ErrDanglingSurrogate
		if !errors.As(err, &d) || !bytes.Equal(d, left) {
			return fmt.Errorf("a lone surrogate ends the message but Decode is %q, %v", got, err)
		}
		return nil
	}
	if err != nil || string(got) != string(want) {
		return fmt.Errorf("Decode is %q, %v, not %q", got, err, string(want))
	}
	return nil
}

type ucs2Odd struct {
	Lens []int
	Fill byte
}

// An odd segment is refused by Decode wherever it is.
func checkUCS2Odd(c ucs2Odd, o *pbt.Obs) error {
	var segs []*tpdu.TPDU
	odd := false
	for _, n := range c.Lens {
		segs = append(segs, &tpdu.TPDU{DCS: tpdu.DcsUCS2Data, UD: bytes.Repeat([]byte{c.Fill}, n)})
		odd = odd || n%2 == 1
	}
	got, err := sms.Decode(segs)
	o.NTIf(odd)
	if odd != (err != nil) {
		return fmt.Errorf("Decode is %q, %v", got, err)
	}
	return nil
}

func genRunes(t *rapid.T, lo, hi int) []rune {
	n := intn(t, lo, hi, "n")
	rs := make([]rune, n)
	for i := range rs {
		switch intn(t, 0, 4, "k") {
		case 0, 1:
			rs[i] = rapid.SampledFrom(emoji).Draw(t, "r")
		case 2:
			rs[i] = rapid.SampledFrom(bmp).Draw(t, "r")
		default:
			rs[i] = genRune(t, "r")
		}
	}
	return rs
}

func genUnit(t *rapid.T) rune {
	switch intn(t, 0, 6, "uk") {
	case 0, 1:
		return pick(t, "hi", rune(0xd800), 0xd83d, 0xdbff)
	case 2, 3:
		return pick(t, "lo", rune(0xdc00), 0xde00, 0xdfff)
	case 4:
		return pick(t, "edge", rune(0xd7ff), 0xe000, 0xfffd, 0xffff, 0, 'a')
	case 5:
		return rune(intn(t, 0xd800, 0xdfff, "sur"))
	}
	return rune(intn(t, 0, 0xffff, "unit"))
}

func genUnits(t *rapid.T, lo, hi int) pbt.H {
	n := intn(t, lo, hi, "n")
	b := pbt.H{}
	for i := 0; i < n; i++ {
		u := genUnit(t)
		b = append(b, byte(u>>8), byte(u))
	}
	return b
}

func init() {
	pbt.Enum("C14", "runes", "every Unicode character except surrogates alone; non-trivial: all", func(yield func(ucs2Text) bool) {
		for r := rune(0); r <= utf8.MaxRune; r++ {
			if r >= 0xd800 && r <= 0xdfff {
				continue
			}
			if !yield(ucs2Text{string(r)}) {
				return
			}
		}
	}, checkUCS2Text)
	pbt.Enum("C14", "unitPairs", "every high or low surrogate boundary, with each kind of neighbour on both sides; non-trivial: a lone surrogate", func(yield func(ucs2Units) bool) {
		edge := []uint16{0, 'a', 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffd, 0xffff}
		for _, a := range edge {
			for _, b := range edge {
				for _, c := range edge {
					for _, d := range edge {
						if !yield(ucs2Units{pbt.H{byte(a >> 8), byte(a), byte(b >> 8), byte(b), byte(c >> 8), byte(c), byte(d >> 8), byte(d)}}) {
							return
						}
					}
				}
			}
		}
	}, checkUCS2Units)
	pbt.Enum("C14", "lengths", "every length to 600 octets, with an ordinary unit or a surrogate at the end, or just before; non-trivial: a lone surrogate at the end", func(yield func(ucs2Units) bool) {
		for n := 0; n <= 600; n++ {
			for _, q := range []string{"", "\xd8\x3d", "\xde\x00", "\xd8\x3d\xde\x00", "\xd8\x3d\xd8\x3d", "\xde\x00\xd8\x3d", "\xdb\xff\x00a", "\xdc\x00\x00a", "\xff\xfe", "\xfe\xff"} {
				b := make(pbt.H, n)
				for i := range b {
					b[i] = byte(i%2) * byte('a'+n%20)
				}
				if !yield(ucs2Units{append(b, q...)}) {
					return
				}
			}
		}
	}, checkUCS2Units)
	pbt.Enum("C14", "cuts", "messages with a pair at each position, in segments cut at each unit; non-trivial: a segment ends in a surrogate whose partner, if any, is in a later one", func(yield func(ucs2Split) bool) {
		for at := 0; at <= 140; at++ {
			for cut := max(0, at-3); cut <= at+4; cut++ {
				for _, q := range []string{"\xd8\x3d\xde\x00", "\xde\x00\xd8\x3d", "\xd8\x3d\xd8\x3d\xde\x00", "\xd8\x3d"} {
					b := pbt.H(strings.Repeat("\x00a", at) + q + strings.Repeat("\x00b", at%5))
					if !yield(ucs2Split{b, []int{cut}}) || !yield(ucs2Split{b, []int{cut, 1}}) || !yield(ucs2Split{b, []int{cut, 0, 1, 67}}) {
						return
					}
				}
			}
		}
	}, checkUCS2Split)
	pbt.Random("C14", "text", 40000, "text to big-endian UTF-16 and back; non-trivial: not empty", func(t *rapid.T) ucs2Text {
		return ucs2Text{string(genRunes(t, 0, 40))}
	}, checkUCS2Text)
	pbt.Random("C14", "units", 60000, "arbitrary code units and octets decoded against a model; non-trivial: has a lone surrogate", func(t *rapid.T) ucs2Units {
		b := genUnits(t, 0, 20)
		if oneIn(t, 6, "odd") {
			b = append(b, rapid.Byte().Draw(t, "last"))
		}
		return ucs2Units{b}
	}, checkUCS2Units)
	pbt.Random("C14", "split", 60000, "code units split over segments at any unit, including within pairs; non-trivial: a segment ends in a surrogate whose partner, if any, is in a later one", func(t *rapid.T) ucs2Split {
		var b pbt.H
		if oneIn(t, 3, "raw") {
			b = genUnits(t, 1, 20)
		} else {
			b = utf16be(genRunes(t, 1, 16))
		}
		return ucs2Split{b, rapid.SliceOfN(rapid.IntRange(0, 5), 1, 6).Draw(t, "cut")}
	}, checkUCS2Split)
	pbt.Random("C14", "odd", 4000, "segments of even and odd lengths; non-trivial: one is odd", func(t *rapid.T) ucs2Odd {
		return ucs2Odd{rapid.SliceOfN(rapid.IntRange(0, 9), 1, 4).Draw(t, "lens"), pick(t, "fill", byte(0), 0x41, 0x20)}
	}, checkUCS2Odd)
}

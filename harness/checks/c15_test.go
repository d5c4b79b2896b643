package checks

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// errorIs looks for an error inside the library's encode errors, which do not
// unwrap, by its text.
func errorIs(err, want error) bool {
	return err != nil && (errors.Is(err, want) || strings.Contains(err.Error(), want.Error()))
}

type addrCase struct {
	A     ref.Addr
	Trail pbt.H
}

func checkAddr(c addrCase, o *pbt.Obs) error {
	want, ok := c.A.Bytes()
	a := toAddr(c.A)
	got, err := a.MarshalBinary()
	if a != toAddr(c.A) {
		return fmt.Errorf("MarshalBinary altered the address")
	}
	o.NTIf(c.A.Text != "")
	if !ok {
		o.NT()
		o.Class("refused")
		if err == nil {
			return fmt.Errorf("MarshalBinary is %x, not refused", got)
		}
		if encodableAddr(c.A) && !errorIs(err, tpdu.ErrOverlength) {
			return fmt.Errorf("an address that is too long is refused with: %v", err)
		}
		return nil
	}
	o.ClassIf(c.A.Alnum(), "alphanumeric")
	o.ClassIf(!c.A.Alnum() && len(c.A.Text)%2 == 1, "odd digits")
	if err != nil || !bytes.Equal(got, want) {
		return fmt.Errorf("MarshalBinary is %x, %v, not %x", got, err, want)
	}
	src := append(append([]byte{}, want...), c.Trail...)
	in := tight(src)
	var b tpdu.Address
	n, err := b.UnmarshalBinary(in)
	if !bytes.Equal(in, src) {
		return fmt.Errorf("UnmarshalBinary altered its input")
	}
	if err != nil || n != len(want) || b != a {
		return fmt.Errorf("UnmarshalBinary(%x) is %+v, %d, %v", src, b, n, err)
	}
	return nil
}

// encodableAddr reports whether every character of the address can be carried.
func encodableAddr(a ref.Addr) bool {
	for _, r := range a.Text {
		if a.Alnum() {
			if _, ok := ref.DefaultSeptet(r); !ok {
				return false
			}
		} else if !strings.ContainsRune("0123456789*#abc", r) {
			return false
		}
	}
	return true
}

type addrOctets struct{ B pbt.H }

func checkAddrOctets(c addrOctets, o *pbt.Obs) error {
	want, n, v, why := ref.ParseAddr(c.B)
	in := tight(c.B)
	var a tpdu.Address
	got, err := a.UnmarshalBinary(in)
	if !bytes.Equal(in, c.B) {
		return fmt.Errorf("UnmarshalBinary altered its input")
	}
	o.Class(v.String())
	o.NTIf(len(c.B) > 2)
	if got < 0 || got > len(c.B) {
		return fmt.Errorf("UnmarshalBinary consumed %d octets", got)
	}
	switch v {
	case ref.Invalid:
		if err == nil {
			return fmt.Errorf("accepted as %+v: %s", a, why)
		}
	case ref.Valid:
		if err != nil || got != n || fromAddr(a) != want {
			return fmt.Errorf("UnmarshalBinary is %+v, %d, %v, not %+v, %d", a, got, err, want, n)
		}
	default:
		if err == nil && (got != n || a.TOA != want.TOA) {
			return fmt.Errorf("UnmarshalBinary is %+v, %d, not %d octets", a, got, n)
		}
	}
	return nil
}

type numberCase struct {
	Number string // without plus
	Plus   bool
}

func checkNumber(c numberCase, o *pbt.Obs) error {
	s := c.Number
	if c.Plus {
		s = "+" + s
	}
	o.NTIf(c.Number != "")
	want := tpdu.Address{TOA: 0x91, Addr: c.Number}
	if a := tpdu.NewAddress(tpdu.FromNumber(s)); a != want || a.Number() != "+"+c.Number {
		return fmt.Errorf("FromNumber(%q) is %+v, number %q", s, a, a.Number())
	}
	// whatever the address was
	for _, toa := range []byte{0, 0x80, 0xd0, 0xff, 0xc7, 0x29} {
		from := func(tpdu.Address) tpdu.Address { return tpdu.Address{TOA: toa, Addr: "987"} }
		if a := tpdu.NewAddress(from, tpdu.FromNumber(s)); a != want {
			return fmt.Errorf("FromNumber(%q) after %02x is %+v", s, toa, a)
		}
		if a := tpdu.NewAddress(tpdu.FromNumber(s), from); a != (tpdu.Address{TOA: toa | 0x80, Addr: "987"}) {
			return fmt.Errorf("%02x after FromNumber(%q) is %+v", toa, s, a)
		}
	}
	for _, deliver := range []bool{false, true} {
		dir, opts := sms.AsMO, []sms.EncoderOption{sms.To(s)}
		if deliver {
			dir, opts = sms.AsMT, []sms.EncoderOption{sms.AsDeliver, sms.From(s)}
		}
		pdus, err := sms.Encode([]byte("x"), opts...)
		if err != nil || len(pdus) != 1 {
			return fmt.Errorf("Encode: %d, %v", len(pdus), err)
		}
		b, err := pdus[0].MarshalBinary()
		if err != nil {
			return fmt.Errorf("marshal: %v", err)
		}
		p, err := sms.Unmarshal(b, dir)
		if err != nil {
			return fmt.Errorf("unmarshal: %v", err)
		}
		a, other := p.DA, p.OA
		if deliver {
			a, other = p.OA, p.DA
		}
		if a != want || a.Number() != "+"+c.Number || a.TypeOfNumber() != tpdu.TonInternational || a.NumberingPlan() != tpdu.NpISDN {
			return fmt.Errorf("%q reads back as %+v, number %q", s, a, a.Number())
		}
		if other != (tpdu.Address{}) {
			return fmt.Errorf("the other address is %+v", other)
		}
	}
	return nil
}

type toaCase struct{ TOA, Ton, Np int }

func checkTOA(c toaCase, o *pbt.Obs) error {
	o.NT()
	a := tpdu.Address{TOA: byte(c.TOA), Addr: "123"}
	if int(a.TypeOfNumber()) != c.TOA>>4&7 || int(a.NumberingPlan()) != c.TOA&15 {
		return fmt.Errorf("reads as type %d, plan %d", a.TypeOfNumber(), a.NumberingPlan())
	}
	n := "123"
	if c.TOA>>4&7 == 1 {
		n = "+123"
	}
	if a.Number() != n {
		return fmt.Errorf("number is %q", a.Number())
	}
	a.SetTypeOfNumber(tpdu.TypeOfNumber(c.Ton))
	want := c.TOA&^0x70 | c.Ton<<4
	if int(a.TOA) != want || a.Addr != "123" {
		return fmt.Errorf("SetTypeOfNumber gives %+v", a)
	}
	a.SetNumberingPlan(tpdu.NumberingPlan(c.Np))
	want = want&^0x0f | c.Np
	if int(a.TOA) != want || a.Addr != "123" {
		return fmt.Errorf("SetNumberingPlan gives %+v", a)
	}
	return nil
}

// genAddrAny draws an address that may not be possible to encode.
func genAddrAny(t *rapid.T) ref.Addr {
	a := genAddr(t)
	switch intn(t, 0, 7, "break") {
	case 0: // a foreign character somewhere
		rs := []rune(a.Text)
		i := intn(t, 0, len(rs), "at")
		r := pick(t, "foreign", 'A', 'B', 'C', 'd', 'e', 'f', 'F', 'x', '+', ' ', ':', '/', 0, '€', '^', 0x1b, 'ç', '0')
		if oneIn(t, 2, "any") {
			r = genRune(t, "r")
		}
		a.Text = string(rs[:i]) + string(r) + string(rs[i:])
	case 1: // about the length limit
		if a.Alnum() {
			a.Text = strings.Repeat(string(rapid.SampledFrom(ref.LockChars(0)).Draw(t, "c")), intn(t, 140, 150, "len"))
		} else {
			a.Text = strings.Repeat(string(digitChars[intn(t, 0, 14, "d")]), intn(t, 250, 260, "len"))
		}
		if oneIn(t, 8, "huge") {
			a.Text = strings.Repeat("1", pick(t, "hugeLen", 511, 512, 514, 1023, 65536+3))
		}
	}
	return a
}

func genAddrOctets(t *rapid.T) addrOctets {
	if oneIn(t, 3, "raw") {
		return addrOctets{octets(t, 0, 20, "b")}
	}
	a := genAddr(t)
	b, _ := a.Bytes()
	switch intn(t, 0, 5, "mut") {
	case 0: // truncate
		b = b[:intn(t, 0, len(b), "cut")]
	case 1: // another length
		b[0] = byte(int(b[0]) + intn(t, -3, 3, "dl"))
	case 2: // another type
		b[1] ^= 0x10 << intn(t, 0, 2, "bit")
	case 3: // another octet
		i := intn(t, 0, len(b)-1, "at")
		b[i] = rapid.Byte().Draw(t, "v")
	case 4: // another nibble in the digits
		if len(b) > 2 {
			i := intn(t, 2, len(b)-1, "at")
			b[i] = b[i]&0x0f | byte(intn(t, 0, 15, "nib")<<4)
		}
	}
	if oneIn(t, 2, "trail") {
		b = append(b, octets(t, 1, 10, "more")...)
	}
	return addrOctets{b}
}

func init() {
	pbt.Enum("C15", "toa", "every type octet x type of number x numbering plan; non-trivial: all", func(yield func(toaCase) bool) {
		for toa := 0; toa < 256; toa++ {
			for ton := 0; ton < 8; ton++ {
				for np := 0; np < 16; np++ {
					if !yield(toaCase{toa, ton, np}) {
						return
					}
				}
			}
		}
	}, checkTOA)
	pbt.Enum("C15", "short", "every type octet with every number of up to two digits, and every length to the limit, with and without more octets following; non-trivial: not empty", func(yield func(addrCase) bool) {
		trails := []pbt.H{nil, {0xff}, {0, 0x91, 0x12}}
		for toa := 0; toa < 256; toa++ {
			for i := -1; i < 15; i++ {
				for j := -1; j < 15; j++ {
					s := ""
					if i >= 0 {
						s = digitChars[i : i+1]
					} else if j >= 0 {
						continue
					}
					if j >= 0 {
						s += digitChars[j : j+1]
					}
					if !yield(addrCase{ref.Addr{TOA: byte(toa), Text: s}, trails[(toa+i+j+2)%3]}) {
						return
					}
				}
			}
		}
		for n := 0; n < 300; n++ {
			for k, tr := range trails {
				if !yield(addrCase{ref.Addr{TOA: 0x91, Text: strings.Repeat("7*", n)[:n]}, tr}) {
					return
				}
				for _, c := range []string{"@", "à", "a", "\r"} {
					if !yield(addrCase{ref.Addr{TOA: 0xd0 + byte(k), Text: strings.Repeat(c, n)}, tr}) {
						return
					}
				}
			}
		}
	}, checkAddr)
	pbt.Random("C15", "roundtrip", 60000, "addresses of any type and plan, some with a foreign character or about the length limit, with other octets following; non-trivial: not empty, or refused", func(t *rapid.T) addrCase {
		return addrCase{genAddrAny(t), octets(t, 0, 6, "trail")}
	}, checkAddr)
	pbt.Random("C15", "octets", 60000, "encoded addresses mutated, truncated or extended against a model parser; non-trivial: more than two octets", genAddrOctets, checkAddrOctets)
	pbt.Random("C15", "number", 10000, "numbers with or without plus through To, From, Encode, marshal and unmarshal; non-trivial: not empty", func(t *rapid.T) numberCase {
		return numberCase{genDigits(t, 0, 24, "n"), rapid.Bool().Draw(t, "plus")}
	}, checkNumber)
}

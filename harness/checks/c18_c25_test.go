package checks

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	"github.com/warthog618/sms/encoding/bcd"
	"github.com/warthog618/sms/encoding/semioctet"
	"github.com/warthog618/sms/encoding/tpdu"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/ref"
)

type dcsCase struct{ DCS int }

func checkDCSRead(c dcsCase, o *pbt.Obs) error {
	o.NT()
	d := tpdu.DCS(c.DCS)
	want := ref.ReadDCS(byte(c.DCS))
	a, err := d.Alphabet()
	if want.Alpha == ref.AlphaBad {
		o.Class("reserved")
		if err == nil {
			return fmt.Errorf("the alphabet of a reserved group is %v", a)
		}
	} else if err != nil || int(a) != want.Alpha {
		return fmt.Errorf("the alphabet is %v, %v, not %d", a, err, want.Alpha)
	}
	cl, err := d.Class()
	switch {
	case want.Alpha == ref.AlphaBad:
		if err == nil {
			return fmt.Errorf("the class of a reserved group is %v", cl)
		}
	case want.Class == ref.NoClass:
		if cl != tpdu.MClassUnknown {
			return fmt.Errorf("the class is %v, %v, where there is none", cl, err)
		}
	case err != nil || int(cl) != want.Class:
		return fmt.Errorf("the class is %v, %v, not %d", cl, err, want.Class)
	}
	if d.Compressed() != want.Compressed {
		return fmt.Errorf("compressed is %v", d.Compressed())
	}
	t := tpdu.TPDU{DCS: d}
	ta, terr := t.Alphabet()
	if want.Alpha != ref.AlphaBad && (terr != nil || int(ta) != want.Alpha) {
		return fmt.Errorf("the alphabet of a TPDU is %v, %v", ta, terr)
	}
	return nil
}

type dcsSet struct {
	DCS   int
	Class bool // set the class, or the alphabet
	V     int
}

func checkDCSSet(c dcsSet, o *pbt.Obs) error {
	o.NT()
	d := tpdu.DCS(c.DCS)
	was := ref.ReadDCS(byte(c.DCS))
	var got tpdu.DCS
	var err error
	var mask byte
	var can bool
	want := was
	if c.Class {
		got, err = d.WithClass(tpdu.MessageClass(c.V))
		can = was.Alpha != ref.AlphaBad && !was.Waiting && c.V >= 0 && c.V <= 3
		want.Class = c.V
		mask = 0x03
		if c.DCS < 0x80 {
			mask = 0x13
		}
	} else {
		got, err = d.WithAlphabet(tpdu.Alphabet(c.V))
		_, can = ref.WithAlphabet(byte(c.DCS), c.V)
		want.Alpha = c.V
		mask = 0x0c
	}
	if d != tpdu.DCS(c.DCS) {
		return fmt.Errorf("the value itself changed")
	}
	if !c.Class && c.V == 3 && c.DCS < 0x80 {
		// the reserved alphabet may be set, though it reads as the default
		o.Class("reserved")
		if err == nil && ((byte(got)^byte(c.DCS))&^mask != 0 || byte(got)&mask != mask) {
			return fmt.Errorf("gives %02x", int(got))
		}
		if err == nil {
			return nil
		}
	}
	if err != nil {
		o.Class("refused")
		if can {
			return fmt.Errorf("refused: %v", err)
		}
		if got != d {
			return fmt.Errorf("refused, but gives %02x", int(got))
		}
		return nil
	}
	if !can {
		return fmt.Errorf("gives %02x, though it cannot be expressed", int(got))
	}
	if now := ref.ReadDCS(byte(got)); now != want {
		return fmt.Errorf("gives %02x, which means %+v, not %+v", int(got), now, want)
	}
	if (byte(got)^byte(c.DCS))&^mask != 0 {
		return fmt.Errorf("gives %02x, which changes unrelated bits", int(got))
	}
	return checkDCSRead(dcsCase{int(got)}, &pbt.Obs{})
}

type dcsSeq struct {
	DCS int
	Ops []dcsSet
}

// sequences of updates act as a pair of registers
func checkDCSSeq(c dcsSeq, o *pbt.Obs) error {
	d := tpdu.DCS(c.DCS)
	o.NTIf(len(c.Ops) > 1)
	for i, op := range c.Ops {
		op.DCS = int(d)
		if err := checkDCSSet(op, &pbt.Obs{}); err != nil {
			return fmt.Errorf("step %d from %02x: %v", i, int(d), err)
		}
		if op.Class {
			d, _ = d.WithClass(tpdu.MessageClass(op.V))
		} else {
			d, _ = d.WithAlphabet(tpdu.Alphabet(op.V))
		}
	}
	return nil
}

type bcdInt struct {
	V      int
	Signed bool
}

func bcdModel(v int, signed bool) (byte, bool) {
	if !signed {
		return byte(v%10<<4 | v/10%10), v >= 0 && v <= 99
	}
	if v < -79 || v > 79 {
		return 0, false
	}
	s := 0
	if v < 0 {
		v, s = -v, 8
	}
	return byte(v%10<<4 | v/10 | s), true
}

func checkBCDInt(c bcdInt, o *pbt.Obs) error {
	o.NT()
	enc, dec := bcd.Encode, bcd.Decode
	if c.Signed {
		enc, dec = bcd.EncodeSigned, bcd.DecodeSigned
	}
	want, ok := bcdModel(c.V, c.Signed)
	got, err := enc(c.V)
	if !ok {
		if err == nil {
			return fmt.Errorf("encodes to %02x", got)
		}
		return nil
	}
	if err != nil || got != want {
		return fmt.Errorf("encodes to %02x, %v, not %02x", got, err, want)
	}
	back, err := dec(got)
	if err != nil || back != c.V {
		return fmt.Errorf("%02x decodes to %d, %v", got, back, err)
	}
	return nil
}

type bcdOctet struct {
	B      int
	Signed bool
}

func checkBCDOctet(c bcdOctet, o *pbt.Obs) error {
	o.NT()
	units, tens, v := c.B>>4, c.B&15, 0
	dec := bcd.Decode
	if c.Signed {
		dec = bcd.DecodeSigned
		tens &= 7
	}
	v = tens*10 + units
	if c.Signed && c.B&8 != 0 {
		v = -v
	}
	got, err := dec(byte(c.B))
	if units > 9 || tens > 9 {
		if err == nil {
			return fmt.Errorf("decodes to %d", got)
		}
		return nil
	}
	if err != nil || got != v {
		return fmt.Errorf("decodes to %d, %v, not %d", got, err, v)
	}
	return nil
}

type semiText struct {
	S     string
	Trail pbt.H
}

func checkSemiText(c semiText, o *pbt.Obs) error {
	want, ok := ref.SemiOctets(c.S)
	in := []byte(c.S)
	got, err := semioctet.Encode(in)
	if string(in) != c.S {
		return fmt.Errorf("Encode altered its input")
	}
	o.NTIf(c.S != "")
	if !ok {
		o.Class("refused")
		if err == nil {
			return fmt.Errorf("encodes to %x", got)
		}
		return nil
	}
	o.ClassIf(len(c.S)%2 == 1, "odd")
	if err != nil || !bytes.Equal(got, want) {
		return fmt.Errorf("encodes to %x, %v, not %x", got, err, want)
	}
	// exactly as many digits as asked for, whatever follows
	src := tight(want, c.Trail)
	keep := tight(src)
	back, n, err := semioctet.Decode(make([]byte, len(c.S)), src)
	if !bytes.Equal(src, keep) {
		return fmt.Errorf("Decode altered its input")
	}
	if err != nil || string(back) != c.S || n != len(want) {
		return fmt.Errorf("Decode(%x) is %q, %d, %v", src, back, n, err)
	}
	// with room for more than there is, all of them
	back, n, err = semioctet.Decode(make([]byte, len(c.S)+1+len(c.S)%2), want)
	if err != nil || string(back) != c.S || n != len(want) {
		return fmt.Errorf("Decode(%x) with room for more is %q, %d, %v", want, back, n, err)
	}
	return nil
}

type semiOctets struct {
	B pbt.H
	N int // digits asked for
}

func checkSemiOctets(c semiOctets, o *pbt.Obs) error {
	used := (c.N + 1) / 2
	if used > len(c.B) {
		used = len(c.B)
	}
	digits := ""
	fill := 0 // fill nibbles within the digits
	for i := 0; i < c.N && i < 2*used; i++ {
		d := c.B[i/2] >> (4 * (i % 2)) & 15
		if d == 15 {
			fill++
		} else {
			digits += digitChars[d : d+1]
		}
	}
	missing := c.N%2 == 1 && used == (c.N+1)/2 && c.B[used-1]>>4 != 15
	o.NTIf(c.N > 0 && len(c.B) > 0)
	in := tight(c.B)
	got, n, err := semioctet.Decode(make([]byte, c.N), in)
	if !bytes.Equal(in, c.B) {
		return fmt.Errorf("Decode altered its input")
	}
	if n < 0 || n > len(c.B) {
		return fmt.Errorf("Decode consumes %d", n)
	}
	if fill > 0 {
		// fill anywhere but at the end: what that means is not defined, other
		// than at the end of the octets
		last := c.N > 1 && fill == 1 && used*2 == c.N && c.B[used-1]>>4 == 15
		if !last || len(c.B) > used {
			o.Class("fill inside")
			// but it is not a digit
			all := ""
			for _, b := range c.B {
				for _, d := range []byte{b & 15, b >> 4} {
					if d != 15 {
						all += digitChars[d : d+1]
					}
				}
			}
			if err == nil && !strings.HasPrefix(all, string(got)) {
				return fmt.Errorf("Decode is %q of the digits %q", got, all)
			}
			return nil
		}
		o.Class("fill at the end")
	}
	if missing {
		o.Class("missing fill")
		if err == nil {
			return fmt.Errorf("an odd number of digits without fill is decoded to %q", got)
		}
		return nil
	}
	if err != nil || string(got) != digits || n != used {
		return fmt.Errorf("Decode is %q, %d, %v, not %q, %d", got, n, err, digits, used)
	}
	return nil
}

func init() {
	pbt.Enum("C18", "read", "every coding scheme; non-trivial: all", func(yield func(dcsCase) bool) {
		for d := 0; d < 256; d++ {
			if !yield(dcsCase{d}) {
				return
			}
		}
	}, checkDCSRead)
	pbt.Enum("C18", "set", "every coding scheme x the three alphabets and four classes; non-trivial: all", func(yield func(dcsSet) bool) {
		for d := 0; d < 256; d++ {
			for v := 0; v < 4; v++ {
				if v < 3 && !yield(dcsSet{d, false, v}) || !yield(dcsSet{d, true, v}) {
					return
				}
			}
		}
	}, checkDCSSet)
	pbt.Enum("C18", "outside", "every coding scheme x values of alphabet and class that are not any, or cannot be set; non-trivial: all", func(yield func(dcsSet) bool) {
		vs := []int{3, math.MinInt, math.MinInt32, math.MaxInt32, math.MaxInt, 1 << 31, 1 << 32, 1<<32 + 1, 1<<40 + 2}
		for v := 4; v <= 300; v++ {
			vs = append(vs, v, -v+3)
		}
		for d := 0; d < 256; d++ {
			for _, v := range vs {
				if !yield(dcsSet{d, false, v}) || v != 3 && !yield(dcsSet{d, true, v}) {
					return
				}
			}
		}
	}, checkDCSSet)
	pbt.Random("C18", "sequence", 20000, "sequences of updates of alphabet and class from any scheme; non-trivial: two or more", func(t *rapid.T) dcsSeq {
		c := dcsSeq{DCS: int(rapid.Byte().Draw(t, "dcs"))}
		for n := intn(t, 1, 6, "n"); n > 0; n-- {
			op := dcsSet{Class: rapid.Bool().Draw(t, "class")}
			op.V = intn(t, 0, 2, "v")
			if op.Class {
				op.V = intn(t, 0, 3, "cv")
			}
			if oneIn(t, 6, "outside") {
				op.V = rapid.Int().Filter(func(v int) bool { return v < 0 || v > 3 }).Draw(t, "ov")
			}
			c.Ops = append(c.Ops, op)
		}
		return c
	}, checkDCSSeq)

	pbt.Enum("C25", "integers", "every integer from -2000 to 2000, and extremes; non-trivial: all", func(yield func(bcdInt) bool) {
		vs := []int{math.MinInt, math.MinInt + 1, math.MaxInt, math.MinInt32, math.MaxInt32, 1 << 8, 1<<16 + 5, 1<<32 + 42, -1<<32 + 7}
		for v := -2000; v <= 2000; v++ {
			vs = append(vs, v)
		}
		for _, v := range vs {
			if !yield(bcdInt{v, false}) || !yield(bcdInt{v, true}) {
				return
			}
		}
	}, checkBCDInt)
	pbt.Enum("C25", "octets", "every octet; non-trivial: all", func(yield func(bcdOctet) bool) {
		for b := 0; b < 256; b++ {
			if !yield(bcdOctet{b, false}) || !yield(bcdOctet{b, true}) {
				return
			}
		}
	}, checkBCDOctet)
	pbt.Enum("C25", "characters", "every octet as a digit alone, first and last; non-trivial: all", func(yield func(semiText) bool) {
		for b := 0; b < 256; b++ {
			s := string([]byte{byte(b)})
			for _, x := range []string{s, s + "1", "1" + s, "12" + s} {
				if b >= 0x80 { // kept as it is in JSON only if it is valid text
					if b == 0x80 && !yield(semiText{S: "é" + x[:0]}) {
						return
					}
					continue
				}
				if !yield(semiText{S: x}) {
					return
				}
			}
		}
	}, checkSemiText)
	pbt.Enum("C25", "twoOctets", "all pairs of octets with 0 to 5 digits asked for; non-trivial: one or more", func(yield func(semiOctets) bool) {
		for a := 0; a < 256; a++ {
			for b := 0; b < 256; b++ {
				for n := 0; n < 6; n++ {
					if !yield(semiOctets{pbt.H{byte(a), byte(b)}, n}) {
						return
					}
				}
			}
		}
	}, checkSemiOctets)
	pbt.Enum("C25", "lengths", "every number of digits to 600, exact, with others following, and without the fill; non-trivial: one or more", func(yield func(semiOctets) bool) {
		for n := 0; n <= 600; n++ {
			b := make(pbt.H, (n+1)/2)
			for i := range b {
				b[i] = byte(i%15) | byte((i+n)%15)<<4
			}
			filled := append(pbt.H{}, b...)
			if n%2 == 1 {
				filled[n/2] |= 0xf0
			}
			for _, c := range []semiOctets{{b, n}, {filled, n}, {append(b[:len(b):len(b)], 0x21), n}, {append(filled[:len(filled):len(filled)], 0x21), n}, {filled, n + 1}, {filled, n + 2}, {b, n + 7}} {
				if !yield(c) {
					return
				}
			}
		}
	}, checkSemiOctets)
	pbt.Enum("C25", "textLengths", "every number of digits to 600, all good or with another character in it; non-trivial: not empty", func(yield func(semiText) bool) {
		for n := 0; n <= 600; n++ {
			b := make([]byte, n)
			for i := range b {
				b[i] = digitChars[(i+n)%15]
			}
			if !yield(semiText{string(b), nil}) || !yield(semiText{string(b), pbt.H{0x34, 0xf5}}) {
				return
			}
			for _, at := range []int{0, n / 2, n - 1} {
				if n > 0 {
					d := append([]byte{}, b...)
					d[at] = "xX/:dfBZ"[n%8]
					if !yield(semiText{string(d), nil}) {
						return
					}
				}
			}
		}
	}, checkSemiText)
	pbt.Random("C25", "text", 40000, "digit strings, some with a foreign character, with other octets following; non-trivial: not empty", func(t *rapid.T) semiText {
		s := genDigits(t, 0, pick(t, "max", 6, 20, 300), "s")
		if oneIn(t, 6, "foreign") {
			i := intn(t, 0, len(s), "at")
			s = s[:i] + string(genRune(t, "r")) + s[i:]
		}
		return semiText{s, octets(t, 0, 5, "trail")}
	}, checkSemiText)
	pbt.Random("C25", "nibbles", 40000, "arbitrary octets and mostly decimal ones with any number of digits asked for; non-trivial: some of both", func(t *rapid.T) semiOctets {
		if oneIn(t, 2, "raw") {
			return semiOctets{octets(t, 0, 12, "b"), intn(t, 0, 26, "n")}
		}
		b, _ := ref.SemiOctets(genDigits(t, 0, 24, "s"))
		n := 2*len(b) + intn(t, -3, 3, "dn")
		if len(b) > 0 && oneIn(t, 3, "mut") {
			b[intn(t, 0, len(b)-1, "at")] |= pick(t, "f", byte(0xf0), 0x0f, 0xff)
		}
		return semiOctets{b, max(0, n)}
	}, checkSemiOctets)
}

package checks

import (
	"fmt"

	"github.com/warthog618/sms/encoding/gsm7"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/ref"
)

type packCase struct {
	S    pbt.H
	Fill int
}

const cr = 0x0d

func checkPack(c packCase, o *pbt.Obs) error {
	in := tight(c.S)
	want := ref.Pack(c.S, c.Fill)
	got := gsm7.Pack7Bit(in, c.Fill)
	if !eqBytes(in, c.S) {
		return fmt.Errorf("Pack7Bit altered its input to %x", in)
	}
	if !eqBytes(got, want) {
		return fmt.Errorf("Pack7Bit(%x, %d) is %x, not %x", c.S, c.Fill, got, want)
	}
	p := tight(want)
	u := gsm7.Unpack7Bit(p, c.Fill)
	if !eqBytes(p, want) {
		return fmt.Errorf("Unpack7Bit altered its input to %x", p)
	}
	s := tight(c.S)
	if ref.Septets(want, c.Fill) > len(s) && len(u) == len(s)+1 {
		s = append(s, 0) // padding may show as a septet
	}
	if !eqBytes(u, s) {
		return fmt.Errorf("Unpack7Bit(%x, %d) is %x, not %x", want, c.Fill, u, s)
	}
	o.NTIf(len(c.S) > 0)
	o.ClassIf(len(c.S) >= 8, "more than an octet cycle")
	o.ClassIf((len(c.S)*7+c.Fill)%8 == 1, "7 bits of padding")
	o.ClassIf((len(c.S)*7+c.Fill)%8 == 0 && len(c.S) > 0, "ends on an octet boundary")
	return nil
}

type unpackCase struct {
	P    pbt.H
	Fill int
}

// Unpacking arbitrary octets gives the septets at each position.
func checkUnpack(c unpackCase, o *pbt.Obs) error {
	u := gsm7.Unpack7Bit(c.P, c.Fill)
	want := ref.Unpack(c.P, c.Fill, ref.Septets(c.P, c.Fill))
	if !eqBytes(u, want) {
		return fmt.Errorf("Unpack7Bit(%x, %d) is %x, not %x", c.P, c.Fill, u, want)
	}
	o.NTIf(len(c.P) > 1)
	return nil
}

func genSeptets(t *rapid.T) pbt.H {
	hi := pick(t, "max", 10, 20, 70, 300)
	n := intn(t, 0, hi, "n")
	switch intn(t, 0, 3, "kind") {
	case 0:
		return septets(t, n, n, "s")
	case 1: // few values
		return pbt.H(rapid.SliceOfN(rapid.SampledFrom([]byte{0, cr, 0x7f, 1, 0x40}), n, n).Draw(t, "s"))
	case 2: // ends in CRs
		s := septets(t, n, n, "s")
		for i := intn(t, 1, 3, "crs"); i > 0; i-- {
			s = append(s, cr)
		}
		return s
	}
	s := septets(t, n, n, "s")
	return append(s, 0)
}

func genPack(t *rapid.T) packCase {
	return packCase{genSeptets(t), intn(t, 0, 6, "fill")}
}

func enumShort(yield func(packCase) bool) {
	for fill := 0; fill <= 6; fill++ {
		if !yield(packCase{pbt.H{}, fill}) {
			return
		}
		for a := 0; a < 128; a++ {
			if !yield(packCase{pbt.H{byte(a)}, fill}) {
				return
			}
		}
		for a := 0; a < 128; a++ {
			for b := 0; b < 128; b++ {
				if !yield(packCase{pbt.H{byte(a), byte(b)}, fill}) {
					return
				}
			}
		}
	}
}

// every length to 64 at every alignment with each of a few patterns
func enumLengths(yield func(packCase) bool) {
	for fill := 0; fill <= 6; fill++ {
		for n := 0; n <= 170; n++ {
			for pat := 0; pat < 8; pat++ {
				s := make(pbt.H, n)
				for i := range s {
					switch pat {
					case 0:
						s[i] = cr
					case 1:
						s[i] = 0x7f
					case 2:
						s[i] = byte(i*37+11) & 0x7f
					case 3:
						s[i] = byte(1 << (i % 7))
					case 4: // CR at the end only
						if i == n-1 {
							s[i] = cr
						} else {
							s[i] = byte(i*53+1) & 0x7f
						}
					case 5: // two CRs at the end
						if i >= n-2 {
							s[i] = cr
						} else {
							s[i] = 0x7f
						}
					case 6: // zero
					case 7: // CR then another
						if i == n-2 {
							s[i] = cr
						} else {
							s[i] = 0x2a
						}
					}
				}
				if !yield(packCase{s, fill}) {
					return
				}
			}
		}
	}
}

// USSD packing: the rule of the property.
func checkUSSD(c packCase, o *pbt.Obs) error {
	n := len(c.S)
	want := ref.Pack(c.S, c.Fill)
	if n > 0 {
		switch used := (n*7 + c.Fill) % 8; {
		case used == 1:
			want = ref.Pack(append(append(pbt.H{}, c.S...), cr), c.Fill)
			o.Class("CR filler")
		case used == 0 && c.S[n-1] == cr:
			want = append(want, cr)
			o.Class("extra CR")
		}
	}
	in := tight(c.S)
	got := gsm7.Pack7BitUSSD(in, c.Fill)
	if !eqBytes(in, c.S) {
		return fmt.Errorf("Pack7BitUSSD altered its input to %x", in)
	}
	if !eqBytes(got, want) {
		return fmt.Errorf("Pack7BitUSSD(%x, %d) is %x, not %x", c.S, c.Fill, got, want)
	}
	p := tight(got)
	u := gsm7.Unpack7BitUSSD(p, c.Fill)
	if !eqBytes(p, got) {
		return fmt.Errorf("Unpack7BitUSSD altered its input to %x", p)
	}
	o.NTIf(n > 0)
	if eqBytes(u, c.S) {
		return nil
	}
	// last two septets both CR with the first of them ending on an octet boundary
	if n >= 2 && c.S[n-1] == cr && c.S[n-2] == cr && ((n-1)*7+c.Fill)%8 == 0 && eqBytes(u, c.S[:n-1]) {
		o.Class("documented loss of a CR")
		return nil
	}
	return fmt.Errorf("Unpack7BitUSSD(%x, %d) is %x, not %x", got, c.Fill, u, c.S)
}

// Unpacking any octets removes at most one trailing CR.
func checkUSSDUnpack(c unpackCase, o *pbt.Obs) error {
	u := gsm7.Unpack7BitUSSD(c.P, c.Fill)
	want := ref.Unpack(c.P, c.Fill, ref.Septets(c.P, c.Fill))
	if eqBytes(u, want) {
		o.NTIf(len(u) > 0 && u[len(u)-1] == cr)
		return nil
	}
	n := len(want)
	if n > 0 && want[n-1] == cr && eqBytes(u, want[:n-1]) {
		end := c.Fill + 7*n
		if end%8 == 0 && end == 8*len(c.P) {
			o.NT()
			return nil
		}
		if (end-7)%8 == 0 && n > 1 && want[n-2] == cr {
			o.NT()
			return nil
		}
	}
	return fmt.Errorf("Unpack7BitUSSD(%x, %d) is %x of septets %x", c.P, c.Fill, u, want)
}

func genUnpack(t *rapid.T) unpackCase {
	return unpackCase{octets(t, 0, pick(t, "max", 9, 30, 140), "p"), intn(t, 0, 6, "fill")}
}

func genUSSDUnpack(t *rapid.T) unpackCase {
	c := genUnpack(t)
	if oneIn(t, 2, "cr") {
		s := genSeptets(t)
		return unpackCase{ref.Pack(append(s, cr), c.Fill), c.Fill}
	}
	return c
}

func init() {
	rule := "septets packed and unpacked at each fill against a bit by bit model; non-trivial: at least one septet"
	pbt.Enum("C11", "short", "all sequences of up to two septets at every fill; "+rule, enumShort, checkPack)
	pbt.Enum("C11", "lengths", "all lengths to 170 with 8 patterns at every fill; "+rule, enumLengths, checkPack)
	pbt.Random("C11", "random", 40000, "up to 300 septets; "+rule, genPack, checkPack)
	pbt.Random("C11", "unpack", 20000, "arbitrary octets unpacked against a bit by bit model; non-trivial: two or more octets", genUnpack, checkUnpack)

	rule = "septets packed and unpacked by the USSD rule against a bit by bit model; non-trivial: at least one septet"
	pbt.Enum("C12", "short", "all sequences of up to two septets at every fill; "+rule, enumShort, checkUSSD)
	pbt.Enum("C12", "lengths", "all lengths to 170 with 8 patterns at every fill; "+rule, enumLengths, checkUSSD)
	pbt.Random("C12", "random", 40000, "up to 300 septets, many ending in CR; "+rule, genPack, checkUSSD)
	pbt.Random("C12", "unpack", 20000, "arbitrary octets: at most one trailing CR, at an octet boundary, is removed; non-trivial: ends in CR", genUSSDUnpack, checkUSSDUnpack)
}

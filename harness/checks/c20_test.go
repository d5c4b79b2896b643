package checks

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/warthog618/sms/encoding/pdumode"
	"github.com/warthog618/sms/encoding/tpdu"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/ref"
)

type modemCase struct {
	SMSC ref.Addr
	TPDU pbt.H
	Hex  int // lower, upper, mixed
}

// smscBytes is the service centre address with its length in octets.
func smscBytes(a ref.Addr) ([]byte, bool) {
	d, ok := ref.SemiOctets(a.Text)
	if !ok || len(d)+1 > 255 {
		return nil, false
	}
	if len(d) == 0 {
		return []byte{0}, true
	}
	return append([]byte{byte(len(d) + 1), a.TOA}, d...), true
}

func hexCase(b []byte, k int) string {
	s := hex.EncodeToString(b)
	switch k {
	case 1:
		return strings.ToUpper(s)
	case 2:
		x := []byte(s)
		for i := range x {
			if i%3 == 0 {
				x[i] = strings.ToUpper(s[i : i+1])[0]
			}
		}
		return string(x)
	}
	return s
}

func checkModem(c modemCase, o *pbt.Obs) error {
	h, ok := smscBytes(c.SMSC)
	p := pdumode.PDU{SMSC: pdumode.SMSCAddress{Address: toAddr(c.SMSC)}, TPDU: tight(c.TPDU)}
	got, err := p.MarshalBinary()
	text, herr := p.MarshalHexString()
	if !bytes.Equal(p.TPDU, c.TPDU) || p.SMSC.Address != toAddr(c.SMSC) {
		return fmt.Errorf("marshalling altered the PDU")
	}
	o.NT()
	if !ok {
		o.Class("refused")
		if err == nil || herr == nil {
			return fmt.Errorf("marshals to %x, %v and %q, %v", got, err, text, herr)
		}
		return nil
	}
	o.ClassIf(c.SMSC.Text == "", "no service centre")
	want := append(append([]byte{}, h...), c.TPDU...)
	if err != nil || !bytes.Equal(got, want) {
		return fmt.Errorf("MarshalBinary is %x, %v, not %x", got, err, want)
	}
	if herr != nil || !strings.EqualFold(text, hex.EncodeToString(want)) {
		return fmt.Errorf("MarshalHexString is %q, %v, not %x", text, herr, want)
	}
	addr := toAddr(c.SMSC)
	if c.SMSC.Text == "" {
		addr = tpdu.Address{}
	}
	in := tight(want)
	q, err := pdumode.UnmarshalBinary(in)
	if !bytes.Equal(in, want) {
		return fmt.Errorf("UnmarshalBinary altered its input")
	}
	if err != nil || q.SMSC.Address != addr || !bytes.Equal(q.TPDU, c.TPDU) {
		return fmt.Errorf("UnmarshalBinary(%x) is %+v, %v", want, q, err)
	}
	s := hexCase(want, c.Hex)
	q, err = pdumode.UnmarshalHexString(s)
	if err != nil || q.SMSC.Address != addr || !bytes.Equal(q.TPDU, c.TPDU) {
		return fmt.Errorf("UnmarshalHexString(%q) is %+v, %v", s, q, err)
	}
	return nil
}

type modemOctets struct{ B pbt.H }

// parseModem is a model parser. gray is true if the digits are undetermined.
func parseModem(b []byte) (a ref.Addr, n int, ok, gray bool) {
	if len(b) == 0 {
		return
	}
	l := int(b[0])
	n = 1 + l
	if l == 0 {
		return a, 1, true, false
	}
	if len(b) < n {
		return
	}
	a.TOA = b[1]
	d := b[2:n]
	for i := 0; i < 2*len(d); i++ {
		v := d[i/2] >> (4 * (i % 2)) & 15
		if v == 15 {
			gray = gray || i != 2*len(d)-1
			continue
		}
		a.Text += digitChars[v : v+1]
	}
	return a, n, true, gray
}

func checkModemOctets(c modemOctets, o *pbt.Obs) error {
	a, n, ok, gray := parseModem(c.B)
	o.NTIf(len(c.B) > 1)
	in := tight(c.B)
	p, err := pdumode.UnmarshalBinary(in)
	if !bytes.Equal(in, c.B) {
		return fmt.Errorf("UnmarshalBinary altered its input")
	}
	if !ok {
		o.Class("refused")
		if err == nil {
			return fmt.Errorf("accepted as %+v", p)
		}
		return nil
	}
	if err != nil {
		if gray {
			return nil
		}
		return fmt.Errorf("refused: %v", err)
	}
	if !bytes.Equal(p.TPDU, c.B[n:]) || p.SMSC.TOA != a.TOA || !gray && p.SMSC.Addr != a.Text {
		return fmt.Errorf("UnmarshalBinary is %+v, not %+v and %x", p, a, c.B[n:])
	}
	if gray {
		o.Class("fill inside")
		return nil
	}
	o.Class("accepted")
	// marshals to what it was, apart from an address without digits
	back, err := p.MarshalBinary()
	want := []byte(c.B)
	if n <= 2 {
		want = append([]byte{0}, c.B[n:]...)
	} else if len(a.Text) == 2*(n-2) || c.B[n-1]>>4 == 15 {
		// exact
	}
	if err != nil || !bytes.Equal(back, want) {
		return fmt.Errorf("marshals to %x, %v, not %x", back, err, want)
	}
	return nil
}

type modemHex struct{ S string }

func checkModemHex(c modemHex, o *pbt.Obs) error {
	good := len(c.S)%2 == 0
	for i := 0; i < len(c.S); i++ {
		good = good && strings.IndexByte("0123456789abcdefABCDEF", c.S[i]) >= 0
	}
	p, err := pdumode.UnmarshalHexString(c.S)
	o.NTIf(c.S != "")
	if !good {
		o.Class("not hex")
		if err == nil {
			return fmt.Errorf("accepted as %+v", p)
		}
		return nil
	}
	b, e := hex.DecodeString(c.S)
	if e != nil {
		return e
	}
	q, e := pdumode.UnmarshalBinary(b)
	if (e == nil) != (err == nil) {
		return fmt.Errorf("the error is %v in hex, and %v in binary", err, e)
	}
	if err == nil && (p.SMSC != q.SMSC || !bytes.Equal(p.TPDU, q.TPDU)) {
		return fmt.Errorf("%+v in hex, and %+v in binary", p, q)
	}
	return checkModemOctets(modemOctets{b}, o)
}

func genSMSC(t *rapid.T) ref.Addr {
	a := ref.Addr{TOA: pick(t, "toa", byte(0x91), 0x81, 0xd0, 0x00, 0xff), Text: genDigits(t, 0, 22, "digits")}
	if oneIn(t, 3, "anyTOA") {
		a.TOA = rapid.Byte().Draw(t, "toa2")
	}
	switch intn(t, 0, 9, "smscKind") {
	case 0:
		a.Text = ""
	case 1:
		a.Text = genDigits(t, 490, 530, "long")
	case 2:
		i := intn(t, 0, len(a.Text), "at")
		a.Text = a.Text[:i] + string(pick(t, "bad", 'A', 'd', 'f', 'F', '+', ' ', ':', '/', 'é', 0)) + a.Text[i:]
	case 3:
		a.Text = strings.Repeat("9", intn(t, 504, 514, "limit"))
	}
	return a
}

func genModemOctets(t *rapid.T) pbt.H {
	if oneIn(t, 4, "raw") {
		b := octets(t, 0, 24, "b")
		if len(b) > 0 && oneIn(t, 2, "fit") {
			b[0] = byte(intn(t, 0, len(b), "l"))
		}
		return b
	}
	h, ok := smscBytes(genSMSC(t))
	if !ok {
		h = []byte{0}
	}
	b := append(pbt.H(h), octets(t, 0, 20, "tpdu")...)
	switch intn(t, 0, 3, "mut") {
	case 0:
		b = b[:intn(t, 0, len(b), "cut")]
	case 1:
		b[0] += byte(intn(t, -3, 3, "dl"))
	case 2:
		b[intn(t, 0, len(b)-1, "at")] = rapid.Byte().Draw(t, "v")
	}
	return b
}

func init() {
	pbt.Enum("C20", "digits", "service centre numbers of every length to 520; non-trivial: all", func(yield func(modemCase) bool) {
		for n := 0; n <= 520; n++ {
			for k := 0; k < 3; k++ {
				if !yield(modemCase{ref.Addr{TOA: 0x91, Text: strings.Repeat("62", n)[:n]}, pbt.H{1, 2, 0xf0}[:k], k}) {
					return
				}
			}
		}
	}, checkModem)
	pbt.Enum("C20", "lengths", "every length octet with every number of octets following to 260; non-trivial: two or more octets", func(yield func(modemOctets) bool) {
		for l := 0; l < 256; l++ {
			for n := 0; n <= 260; n++ {
				if n > 12 && n != l-1 && n != l && n != l+1 && n%40 != 0 {
					continue
				}
				if !yield(modemOctets{append(pbt.H{byte(l)}, bytes.Repeat([]byte{0x91}, n)...)}) {
					return
				}
			}
		}
	}, checkModemOctets)
	pbt.Random("C20", "roundtrip", 40000, "service centre addresses, some empty, too long or with a foreign character, and any TPDU octets; non-trivial: all", func(t *rapid.T) modemCase {
		return modemCase{genSMSC(t), octets(t, 0, 180, "tpdu"), intn(t, 0, 2, "hex")}
	}, checkModem)
	pbt.Random("C20", "octets", 40000, "encoded PDUs mutated or truncated against a model parser; non-trivial: two or more octets", func(t *rapid.T) modemOctets {
		return modemOctets{genModemOctets(t)}
	}, checkModemOctets)
	pbt.Random("C20", "hex", 40000, "strings that are mostly hex of either case; non-trivial: not empty", func(t *rapid.T) modemHex {
		s := hexCase(genModemOctets(t), intn(t, 0, 2, "case"))
		switch intn(t, 0, 3, "mut") {
		case 0:
			i := intn(t, 0, len(s), "at")
			s = s[:i] + string(pick(t, "bad", 'g', 'G', ' ', '\n', 'x', '+', '-', 'é', '０', 0, ':', '@', '`', '/')) + s[i:]
		case 1:
			if len(s) > 0 {
				s = s[:len(s)-1]
			}
		}
		return modemHex{s}
	}, checkModemHex)
}

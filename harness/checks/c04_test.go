package checks

import (
	"errors"
	"fmt"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
	"github.com/warthog618/sms/encoding/ucs2"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/ref"
)

type rawCase struct {
	Opts []Opt
	Msg  pbt.H
	Swap []int
}

// carry sends a message and returns the collected set. refused is set if an
// odd length is refused on the way.
func carry(c rawCase) (set []*tpdu.TPDU, refused bool, n int, err error) {
	msg := tight(c.Msg)
	got, err := sms.Encode(msg, lib(c.Opts)...)
	if err != nil {
		return nil, false, 0, fmt.Errorf("encode: %v", err)
	}
	if !eqBytes(msg, c.Msg) {
		return nil, false, 0, fmt.Errorf("the message is altered")
	}
	col := sms.NewCollector()
	defer col.Close()
	for _, k := range shuffled(len(got), c.Swap) {
		b, err := got[k].MarshalBinary()
		if err != nil {
			if errorIs(err, tpdu.ErrOddUCS2Length) {
				return nil, true, len(got), nil
			}
			return nil, false, 0, fmt.Errorf("segment %d: marshal: %v", k, err)
		}
		dir := sms.AsMT
		if got[k].Direction == tpdu.MO {
			dir = sms.AsMO
		}
		r, err := sms.Unmarshal(b, dir)
		if err != nil {
			if errorIs(err, tpdu.ErrOddUCS2Length) {
				return nil, true, len(got), nil
			}
			return nil, false, 0, fmt.Errorf("segment %d: unmarshal %x: %v", k, b, err)
		}
		s, err := col.Collect(*r)
		if err != nil {
			return nil, false, 0, fmt.Errorf("segment %d: collect: %v", k, err)
		}
		if s != nil {
			if set != nil {
				return nil, false, 0, fmt.Errorf("two sets")
			}
			set = s
		}
	}
	if set == nil {
		return nil, false, 0, fmt.Errorf("no set is returned for %d segments", len(got))
	}
	return set, false, len(got), nil
}

func check8Bit(c rawCase, o *pbt.Obs) error {
	if len(c.Msg) == 0 {
		return nil
	}
	set, refused, n, err := carry(c)
	if err != nil {
		return err
	}
	if refused {
		return fmt.Errorf("8-bit data refused for an odd length")
	}
	got, err := sms.Decode(set)
	if err != nil {
		return fmt.Errorf("decode: %v", err)
	}
	if !eqBytes(got, c.Msg) {
		return fmt.Errorf("%x arrives, not %x", got, c.Msg)
	}
	o.NT()
	o.ClassIf(n > 1, "segmented")
	return nil
}

func checkRawUCS2(c rawCase, o *pbt.Obs) error {
	if len(c.Msg) == 0 {
		return nil
	}
	set, refused, n, err := carry(c)
	if err != nil {
		return err
	}
	o.NT()
	o.ClassIf(n > 1, "segmented")
	if odd := len(c.Msg)%2 == 1; odd || refused {
		if !refused {
			return fmt.Errorf("an odd length is not refused")
		}
		if !odd {
			return fmt.Errorf("an even length is refused")
		}
		o.Class("odd")
		return nil
	}
	var all []byte
	for _, s := range set {
		all = append(all, s.UD...)
	}
	if !eqBytes(all, c.Msg) {
		return fmt.Errorf("%x arrives, not %x", all, c.Msg)
	}
	want, left := fromUTF16be(c.Msg)
	got, err := sms.Decode(set)
	if left != nil {
		o.Class("ends in a lone surrogate")
		var d ucs2.ErrDanglingSurrogate
		if !errors.As(err, &d) {
			return fmt.Errorf("a lone surrogate at the end gives %q, %v", got, err)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("decode: %v", err)
	}
	if string(got) != string(want) {
		return fmt.Errorf("decodes to %q, not %q", got, string(want))
	}
	return nil
}

func rawOpts(t *rapid.T, k string, dcs ...byte) []Opt {
	l := genCarrier(t)
	n := 0
	for _, o := range l {
		if o.K != "dcs" {
			l[n] = o
			n++
		}
	}
	l = l[:n]
	if oneIn(t, 3, "viaDCS") {
		return append(l, Opt{K: "dcs", B: pick(t, "dcs", dcs...)})
	}
	if oneIn(t, 4, "charsets") {
		l = append(l, Opt{K: "all"})
	}
	return append(l, Opt{K: k})
}

func gen8Bit(t *rapid.T) rawCase {
	c := rawCase{Opts: rawOpts(t, "8bit", 4, 0x14, 0x17, 0xf4, 0xf6, 0x44), Swap: genSwaps(t)}
	n := 0
	switch intn(t, 0, 2, "len") {
	case 0:
		n = intn(t, 1, 30, "n")
	case 1:
		n = pick(t, "b", 140, 134, 268, 402) + intn(t, -2, 2, "d")
	case 2:
		n = intn(t, 1, 700, "n")
	}
	c.Msg = octets(t, n, n, "msg")
	return c
}

func genRawUCS2(t *rapid.T) rawCase {
	c := rawCase{Opts: rawOpts(t, "ucs2", 8, 0x18, 0x1b, 0xe0, 0xe9, 0x48), Swap: genSwaps(t)}
	if oneIn(t, 2, "short") {
		c.Msg = genUnits(t, 1, 20)
	} else {
		n := pick(t, "b", 140, 134, 268, 402) + 2*intn(t, -3, 3, "d")
		for len(c.Msg) < n-40 {
			if len(c.Msg)%3 == 0 && oneIn(t, 2, "pair") {
				c.Msg = append(c.Msg, 0xd8, 0x3d, 0xde, byte(len(c.Msg)))
			} else {
				c.Msg = append(c.Msg, 0x04, byte(len(c.Msg)))
			}
		}
		c.Msg = append(c.Msg, genUnits(t, 10, 30)...)
	}
	if oneIn(t, 4, "marked") {
		u := pick(t, "mark", 0xfeff, 0xfffe, 0, 0x20, 0xd, 0xa, 0x1b, 0xffff, 0xfffd, 0xa0, 0x3000, 0x2028)
		m := pbt.H{byte(u >> 8), byte(u)}
		if oneIn(t, 3, "atEnd") {
			c.Msg = append(c.Msg, m...)
		} else {
			c.Msg = append(m, c.Msg...)
		}
	}
	if oneIn(t, 4, "odd") {
		c.Msg = append(c.Msg, 0x41)
	}
	return c
}

func enumLens(yield func(rawLen) bool) {
	for _, ucs := range []bool{false, true} {
		for n := 1; n <= 600; n++ {
			if !yield(rawLen{ucs, n}) {
				return
			}
		}
	}
}

type rawLen struct {
	UCS2 bool
	N    int
}

func checkLens(c rawLen, o *pbt.Obs) error {
	b := make(pbt.H, c.N)
	for i := range b {
		b[i] = byte(i*37 + i>>8)
	}
	if !c.UCS2 {
		return check8Bit(rawCase{Opts: []Opt{{K: "8bit"}}, Msg: b}, o)
	}
	for i := range b {
		if i%2 == 0 {
			b[i] &= 0x7f
		}
	}
	return checkRawUCS2(rawCase{Opts: []Opt{{K: "ucs2"}}, Msg: b}, o)
}

// every pair of octets at either end of a payload
type rawPair struct {
	UCS2 bool
	Pair int
	End  bool
}

func enumPairs(yield func(rawPair) bool) {
	for k := 0; k < 0x10000; k++ {
		for i := 0; i < 4; i++ {
			if !yield(rawPair{i&1 == 1, k, i > 1}) {
				return
			}
		}
	}
}

func checkPair(c rawPair, o *pbt.Obs) error {
	b := pbt.H{byte(c.Pair >> 8), byte(c.Pair), 0x04, 0x16}
	if c.End {
		b = pbt.H{0x04, 0x16, byte(c.Pair >> 8), byte(c.Pair)}
	}
	if c.UCS2 {
		return checkRawUCS2(rawCase{Opts: []Opt{{K: "ucs2"}}, Msg: b}, o)
	}
	return check8Bit(rawCase{Opts: []Opt{{K: "8bit"}}, Msg: b}, o)
}

var _ = ref.Alpha8Bit

func init() {
	pbt.Random("C04", "8bit", 20000, "octets are carried", gen8Bit, check8Bit)
	pbt.Random("C04", "ucs2", 20000, "code units are carried", genRawUCS2, checkRawUCS2)
	pbt.Enum("C04", "lengths", "octets or code units are carried", enumLens, checkLens)
	pbt.Enum("C04", "pairs", "every first and last pair of octets; octets or code units are carried", enumPairs, checkPair)
}

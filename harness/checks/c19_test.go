package checks

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/warthog618/sms/encoding/tpdu"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/ref"
)

type udhCase struct {
	UDH   []ref.IE
	Trail pbt.H
}

func checkUDH(c udhCase, o *pbt.Obs) error {
	h := toUDH(c.UDH)
	keep := toUDH(c.UDH)
	l := ref.UDHL(c.UDH)
	if h.UDHL() != l {
		return fmt.Errorf("UDHL is %d, not %d", h.UDHL(), l)
	}
	got, err := h.MarshalBinary()
	if !reflect.DeepEqual(h, keep) {
		return fmt.Errorf("MarshalBinary altered the header")
	}
	o.NTIf(len(c.UDH) > 0)
	o.ClassIf(len(c.UDH) > 1, "several elements")
	want, ok := ref.HeaderBytes(false, c.UDH)
	if !ok {
		o.Class("refused")
		if err == nil {
			return fmt.Errorf("%d octets marshal to %x", l, got)
		}
		if !errorIs(err, tpdu.ErrOverlength) {
			return fmt.Errorf("%d octets are refused with: %v", l, err)
		}
		return nil
	}
	if err != nil || !bytes.Equal(got, want) {
		return fmt.Errorf("MarshalBinary is %x, %v, not %x", got, err, want)
	}
	if len(want) == 0 {
		want = []byte{0}
	}
	src := append(append([]byte{}, want...), c.Trail...)
	in := tight(src)
	var back tpdu.UserDataHeader
	n, err := back.UnmarshalBinary(in)
	if !bytes.Equal(in, src) {
		return fmt.Errorf("UnmarshalBinary altered its input")
	}
	if err != nil || n != len(want) || !eqUDH(fromUDH(back), c.UDH) {
		return fmt.Errorf("UnmarshalBinary(%x) is %v, %d, %v", src, back, n, err)
	}
	for i := range in { // the header is not a view of the source
		in[i] ^= 0xff
	}
	if !eqUDH(fromUDH(back), c.UDH) {
		return fmt.Errorf("the header changes with its source")
	}
	return checkLookup(c.UDH, back)
}

// checkLookup compares all lookups with a scan of the list.
func checkLookup(udh []ref.IE, h tpdu.UserDataHeader) error {
	ids := map[byte]bool{0: true, 8: true, 24: true, 25: true, 0x24: true, 0x25: true, 0x55: true}
	for _, e := range udh {
		ids[e.ID] = true
	}
	for id := range ids {
		var all []ref.IE
		for _, e := range udh {
			if e.ID == id {
				all = append(all, e)
			}
		}
		var got []ref.IE
		for _, e := range h.IEs(id) {
			got = append(got, ref.IE{ID: e.ID, Data: e.Data})
		}
		if !eqUDH(got, all) {
			return fmt.Errorf("IEs(%02x) is %v, not %v", id, got, all)
		}
		e, ok := h.IE(id)
		if ok != (len(all) > 0) || ok && (e.ID != id || !bytes.Equal(e.Data, all[len(all)-1].Data)) {
			return fmt.Errorf("IE(%02x) is %v, %v of %v", id, e, ok, all)
		}
	}
	w := concat(udh)
	seg, seq, r, ok := h.ConcatInfo()
	t := tpdu.TPDU{UDH: h}
	seg2, seq2, r2, ok2 := t.ConcatInfo()
	if (concatInfo{seg, seq, r, ok}) != w || (concatInfo{seg2, seq2, r2, ok2}) != w {
		return fmt.Errorf("ConcatInfo is %d, %d, %d, %v and of the TPDU %d, %d, %d, %v, not %+v", seg, seq, r, ok, seg2, seq2, r2, ok2, w)
	}
	if t.IsSingleSegment() == w.OK {
		return fmt.Errorf("IsSingleSegment is %v", !w.OK)
	}
	seg, seq, r, ok = h.ConcatInfo8()
	if w8 := concatN(udh, 0, 3); (concatInfo{seg, seq, r, ok}) != w8 {
		return fmt.Errorf("ConcatInfo8 is %d, %d, %d, %v, not %+v", seg, seq, r, ok, w8)
	}
	seg, seq, r, ok = h.ConcatInfo16()
	if w16 := concatN(udh, 8, 4); (concatInfo{seg, seq, r, ok}) != w16 {
		return fmt.Errorf("ConcatInfo16 is %d, %d, %d, %v, not %+v", seg, seq, r, ok, w16)
	}
	return nil
}

type concatInfo struct {
	Segments, Seq, Ref int
	OK                 bool
}

// concatN is the information in the last element with an id, if that has the
// right size.
func concatN(udh []ref.IE, id byte, size int) (c concatInfo) {
	for _, e := range udh {
		if e.ID != id {
			continue
		}
		c = concatInfo{}
		if len(e.Data) == size {
			c.OK = true
			for _, x := range e.Data[:size-2] {
				c.Ref = c.Ref<<8 | int(x)
			}
			c.Segments, c.Seq = int(e.Data[size-2]), int(e.Data[size-1])
		}
	}
	return
}

func concat(udh []ref.IE) concatInfo {
	if c := concatN(udh, 0, 3); c.OK {
		return c
	}
	return concatN(udh, 8, 4)
}

type udhOctets struct{ B pbt.H }

func checkUDHOctets(c udhOctets, o *pbt.Obs) error {
	want, n, ok := ref.ParseUDH(c.B)
	in := tight(c.B)
	var h tpdu.UserDataHeader
	got, err := h.UnmarshalBinary(in)
	if !bytes.Equal(in, c.B) {
		return fmt.Errorf("UnmarshalBinary altered its input")
	}
	o.NTIf(len(c.B) > 1)
	if !ok {
		o.Class("refused")
		if err == nil {
			return fmt.Errorf("accepted as %v", h)
		}
		return nil
	}
	o.Class("accepted")
	if err != nil || got != n || !eqUDH(fromUDH(h), want) {
		return fmt.Errorf("UnmarshalBinary is %v, %d, %v, not %v, %d", h, got, err, want, n)
	}
	return checkLookup(want, h)
}

// genUDHAny draws headers rich in concatenation elements, good and bad, and
// some that are too long.
func genUDHAny(t *rapid.T) []ref.IE {
	switch intn(t, 0, 5, "udhKind") {
	case 0:
		return genUDH(t, pick(t, "max", 20, 60, 255))
	case 1: // about the limit
		var udh []ref.IE
		for left := intn(t, 248, 260, "total"); left > 2; {
			n := min(left-2, intn(t, 0, 250, "len"))
			udh = append(udh, ref.IE{ID: pick(t, "id", byte(0x70), 0, 8), Data: octets(t, n, n, "data")})
			left -= n + 2
		}
		return udh
	case 2: // one long element
		n := intn(t, 250, 262, "len")
		if oneIn(t, 3, "huge") {
			n = pick(t, "hugeLen", 300, 511, 512, 515, 65539)
		}
		return []ref.IE{{ID: 0x70, Data: bytes.Repeat([]byte{rapid.Byte().Draw(t, "fill")}, n)}}
	}
	var udh []ref.IE
	for n := intn(t, 1, 5, "n"); n > 0; n-- {
		e := ref.IE{ID: pick(t, "id", byte(0), 8, 0, 8, 24, 25, 0x24, 0x25, 5)}
		l := pick(t, "len", 3, 4, 3, 4, 1, 2, 0, 5)
		e.Data = octets(t, l, l, "data")
		udh = append(udh, e)
	}
	return udh
}

func genUDHOctets(t *rapid.T) udhOctets {
	if oneIn(t, 5, "raw") {
		b := octets(t, 0, 16, "b")
		if len(b) > 0 && oneIn(t, 2, "fit") {
			b[0] = byte(intn(t, 0, len(b), "udhl"))
		}
		return udhOctets{b}
	}
	b, ok := ref.HeaderBytes(true, genUDHAny(t))
	if !ok {
		b = []byte{3, 0, 1, 2}
	}
	switch intn(t, 0, 4, "mut") {
	case 0:
		b = b[:intn(t, 0, len(b), "cut")]
	case 1:
		b[0] = byte(int(b[0]) + intn(t, -3, 3, "dl"))
	case 2:
		b[intn(t, 0, len(b)-1, "at")] += byte(intn(t, -2, 2, "dv"))
	}
	if oneIn(t, 2, "trail") {
		b = append(b, octets(t, 0, 6, "more")...)
	}
	return udhOctets{b}
}

func init() {
	pbt.Enum("C19", "short", "all headers of up to four octets over the octets that matter; non-trivial: two or more", func(yield func(udhOctets) bool) {
		vals := []byte{0, 1, 2, 3, 4, 8, 255}
		var rec func(b pbt.H, n int) bool
		rec = func(b pbt.H, n int) bool {
			if !yield(udhOctets{append(pbt.H{}, b...)}) {
				return false
			}
			if n == 0 {
				return true
			}
			for _, v := range vals {
				if !rec(append(b, v), n-1) {
					return false
				}
			}
			return true
		}
		rec(pbt.H{}, 6)
	}, checkUDHOctets)
	pbt.Enum("C19", "lengths", "one element of every size to 300, alone, before and after another, with every few octets following; non-trivial: all", func(yield func(udhCase) bool) {
		for n := 0; n <= 300; n++ {
			d := bytes.Repeat([]byte{7}, n)
			for k := 0; k < 3; k++ {
				udh := []ref.IE{{ID: 5, Data: d}}
				if k == 1 {
					udh = append(udh, ref.IE{ID: 0, Data: pbt.H{1, 2, 1}})
				} else if k == 2 {
					udh = append([]ref.IE{{ID: 8, Data: pbt.H{0, 1, 2, 1}}}, udh...)
				}
				for tr := 0; tr < 3; tr++ {
					if !yield(udhCase{udh, bytes.Repeat([]byte{byte(n)}, tr)}) {
						return
					}
				}
			}
		}
	}, checkUDH)
	pbt.Random("C19", "roundtrip", 60000, "lists of elements, many for concatenation of right and wrong sizes, some beyond the length octets, with octets following; non-trivial: not empty", func(t *rapid.T) udhCase {
		return udhCase{genUDHAny(t), octets(t, 0, 6, "trail")}
	}, checkUDH)
	pbt.Random("C19", "octets", 60000, "encoded headers mutated, truncated or extended, against a model parser; non-trivial: two or more octets", genUDHOctets, checkUDHOctets)
}

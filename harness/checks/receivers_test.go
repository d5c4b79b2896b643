package checks

import (
	"encoding/hex"
	"fmt"
	"reflect"

	"github.com/warthog618/sms/encoding/pdumode"
	"github.com/warthog618/sms/encoding/tpdu"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// Octets are unmarshalled into a value that held something else.

type receiverCase struct {
	Kind string
	MO   bool
	Seq  []pbt.H
	Fmt  []int `json:",omitempty"` // of a validity period
}

// receiver has a function that unmarshals into a value that is kept, and one
// that returns it, from a copy made when it is called.
func receiver(c receiverCase) (into func(i int) (int, error), copied func() func() any) {
	switch c.Kind {
	case "Address":
		a := &tpdu.Address{}
		return func(i int) (int, error) { return a.UnmarshalBinary(c.Seq[i]) }, func() func() any { a := *a; return func() any { return a } }
	case "UDH":
		h := &tpdu.UserDataHeader{}
		return func(i int) (int, error) { return h.UnmarshalBinary(c.Seq[i]) }, func() func() any { h := *h; return func() any { return fromUDH(h) } }
	case "VP":
		v := &tpdu.ValidityPeriod{}
		return func(i int) (int, error) {
				return v.UnmarshalBinary(c.Seq[i], tpdu.ValidityPeriodFormat(c.Fmt[i]))
			}, func() func() any {
				v := *v
				return func() any {
					b, err := v.MarshalBinary()
					return []any{v, b, err}
				}
			}
	case "Timestamp":
		t := &tpdu.Timestamp{}
		return func(i int) (int, error) { return 0, t.UnmarshalBinary(c.Seq[i]) }, func() func() any { t := *t; return func() any { return t.String() } }
	case "SMSCAddress":
		a := &pdumode.SMSCAddress{}
		return func(i int) (int, error) { return a.UnmarshalBinary(c.Seq[i]) }, func() func() any { a := *a; return func() any { return a } }
	case "PDU":
		p := &pdumode.PDU{}
		return func(i int) (int, error) { return 0, p.UnmarshalBinary(c.Seq[i]) }, func() func() any {
			p := *p
			return func() any { return []any{p.SMSC, hex.EncodeToString(p.TPDU)} }
		}
	case "hex":
		p := &pdumode.PDU{}
		return func(i int) (int, error) { return 0, p.UnmarshalHexString(hex.EncodeToString(c.Seq[i])) }, func() func() any {
			p := *p
			return func() any { return []any{p.SMSC, hex.EncodeToString(p.TPDU)} }
		}
	}
	t := &tpdu.TPDU{}
	if c.MO {
		t.Direction = tpdu.MO
	}
	return func(i int) (int, error) { return 0, t.UnmarshalBinary(c.Seq[i]) }, func() func() any {
		t := *t
		return func() any {
			p, err := fromTPDU(&t)
			b, err2 := t.MarshalBinary()
			return []any{p, err, b, err2}
		}
	}
}

func checkReceiver(c receiverCase, o *pbt.Obs) error {
	into, copied := receiver(c)
	ok := 0
	var kept []func() any
	var were []any
	for i, b := range c.Seq {
		in := tight(b)
		n, err := into(i)
		fresh, freshly := receiver(c)
		wn, werr := fresh(i)
		if n != wn || !reflect.DeepEqual(err, werr) {
			return fmt.Errorf("%s %d (%x) into a used value: %d, %v, not %d, %v", c.Kind, i, b, n, err, wn, werr)
		}
		if !eqBytes(in, b) {
			return fmt.Errorf("%s %d: the octets are altered", c.Kind, i)
		}
		if err != nil {
			o.Class("refused")
			continue
		}
		value, want := copied(), freshly()()
		kept, were = append(kept, value), append(were, want)
		if got := value(); !reflect.DeepEqual(got, want) {
			return fmt.Errorf("%s %d (%x) into a used value: %+v, not %+v", c.Kind, i, b, got, want)
		}
		if ok++; ok > 1 {
			o.NT()
			o.Class(c.Kind)
		}
	}
	// copies of the earlier values remain as they were
	for i, v := range kept {
		if got := v(); !reflect.DeepEqual(got, were[i]) {
			return fmt.Errorf("%s: copy %d of %d becomes %+v, was %+v", c.Kind, i, len(kept), got, were[i])
		}
	}
	return nil
}

func genReceiver(t *rapid.T) receiverCase {
	c := receiverCase{Kind: pick(t, "kind", "TPDU", "TPDU", "TPDU", "TPDU", "TPDU", "TPDU", "Address", "UDH", "VP", "Timestamp", "SMSCAddress", "PDU", "hex")}
	c.MO = c.Kind == "TPDU" && rapid.Bool().Draw(t, "mo")
	for n := intn(t, 2, 4, "n"); n > 0; n-- {
		var b pbt.H
		switch c.Kind {
		case "TPDU":
			switch intn(t, 0, 5, "how") {
			case 0:
				b = genMutated(t).B
			default:
				types := []int{ref.Deliver, ref.SubmitReport, ref.StatusReport}
				if c.MO {
					types = []int{ref.Submit, ref.DeliverReport, ref.Command}
				}
				p := genPDU(t, types...)
				if oneIn(t, 3, "empty") {
					p.UD = nil
				}
				b, _ = p.Bytes()
			}
		case "Address":
			b = genAddrOctets(t).B
		case "UDH":
			b = genUDHOctets(t).B
		case "VP":
			v := genVPOctets(t)
			b, c.Fmt = v.B, append(c.Fmt, v.Format)
		case "Timestamp":
			b = pbt.H(genTime(t, "t").Bytes())
			if oneIn(t, 3, "bad") {
				b[intn(t, 0, 6, "at")] = rapid.Byte().Draw(t, "v")
			}
		default:
			if b = genModemOctets(t); oneIn(t, 3, "none") {
				b = append(pbt.H{0}, octets(t, 0, 8, "tpdu")...)
			}
		}
		c.Seq = append(c.Seq, b)
	}
	return c
}

func init() {
	pbt.Random("C22", "receivers", 20000, "two or more values are unmarshalled into the same variable", genReceiver, checkReceiver)
}

package checks

import (
	"errors"
	"fmt"
	"reflect"

	"github.com/warthog618/sms/encoding/tpdu"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// C27: setters set their field and its flags, and nothing else.

// SetOp is a call of a setter, or of an option.
type SetOp struct {
	K  string
	V  int       `json:",omitempty"`
	N  bool      `json:",omitempty"` // the value is nil
	B  pbt.H     `json:",omitempty"`
	U  []ref.IE  `json:",omitempty"`
	A  *ref.Addr `json:",omitempty"`
	VP *ref.VP   `json:",omitempty"`
	S  string    `json:",omitempty"`
}

type setterCase struct {
	From *ref.PDU // nil is the zero TPDU
	New  int      // 1 New, 2 NewDeliver, 3 NewSubmit: the leading options are given to it
	Ops  []SetOp
}

// isOption reports whether the operation is also an option.
func (x SetOp) isOption() bool {
	switch x.K {
	case "optDCS", "optDA", "optOA", "optUDH", "optMTI", "optDir", "optType":
		return true
	}
	return false
}

func (x SetOp) udh() tpdu.UserDataHeader {
	if x.N {
		return nil
	}
	return append(tpdu.UserDataHeader{}, toUDH(x.U)...)
}

func (x SetOp) ud() tpdu.UserData {
	if x.N {
		return nil
	}
	return append(tpdu.UserData{}, x.B...)
}

func (x SetOp) option() tpdu.Option {
	switch x.K {
	case "optDCS":
		return tpdu.DCS(x.V)
	case "optDA":
		return tpdu.WithDA(toAddr(*x.A))
	case "optOA":
		return tpdu.WithOA(toAddr(*x.A))
	case "optUDH":
		return tpdu.WithUDH(x.udh())
	case "optMTI":
		return tpdu.MessageType(x.V)
	case "optDir":
		return tpdu.Direction(x.V)
	case "optType":
		return tpdu.SmsType(x.V)
	}
	panic(x.K)
}

// do performs the operation.
func (x SetOp) do(t *tpdu.TPDU) error {
	if x.isOption() {
		return x.option().ApplyTPDUOption(t)
	}
	addr := map[byte]*tpdu.Address{'O': &t.OA, 'D': &t.DA, 'R': &t.RA}
	switch x.K {
	case "DCS":
		t.SetDCS(byte(x.V))
	case "PID":
		t.SetPID(byte(x.V))
	case "VP":
		t.SetVP(toVP(*x.VP))
	case "UD":
		t.SetUD(x.ud())
	case "UDH":
		t.SetUDH(x.udh())
	case "type":
		return t.SetSmsType(tpdu.SmsType(x.V))
	case "mti":
		t.FirstOctet = t.FirstOctet.WithMTI(tpdu.MessageType(x.V))
	case "vpf":
		t.FirstOctet = t.FirstOctet.WithVPF(tpdu.ValidityPeriodFormat(x.V))
	case "number":
		addr[x.S[0]].SetNumber(x.S[1:])
	case "ton":
		addr[x.S[0]].SetTypeOfNumber(tpdu.TypeOfNumber(x.V))
	case "npi":
		addr[x.S[0]].SetNumberingPlan(tpdu.NumberingPlan(x.V))
	case "vp":
		switch x.VP.Format {
		case ref.VPAbsolute:
			t.VP.SetAbsolute(toTime(x.VP.T))
		case ref.VPRelative:
			t.VP.SetRelative(x.VP.Dur)
		case ref.VPEnhanced:
			t.VP.SetEnhanced(x.VP.Dur, x.VP.EFI)
		}
	default:
		panic(x.K)
	}
	return nil
}

// model is the state that is to follow. udlFree is set if the indication of
// user data could be either.
func (x SetOp) model(t tpdu.TPDU) (u tpdu.TPDU, udlFree, refused bool) {
	u = t
	addr := map[byte]*tpdu.Address{'O': &u.OA, 'D': &u.DA, 'R': &u.RA}
	switch x.K {
	case "DCS", "optDCS":
		u.DCS, u.PI = tpdu.DCS(x.V), u.PI|2
	case "PID":
		u.PID, u.PI = byte(x.V), u.PI|1
	case "VP":
		u.VP = toVP(*x.VP)
		u.FirstOctet = u.FirstOctet&^0x18 | tpdu.FirstOctet(x.VP.Format<<3)
	case "vp":
		u.VP = toVP(*x.VP)
		if x.VP.Format == ref.VPNone { // there is no such setter
			u.VP = t.VP
		}
	case "UD":
		u.UD = x.ud()
		if u.UD != nil {
			u.PI |= 4
		} else {
			u.PI &^= 4
		}
		udlFree = len(u.UD) == 0 && (u.UD != nil || len(u.UDH) > 0 || u.FirstOctet&0x40 != 0)
	case "UDH", "optUDH":
		u.UDH = x.udh()
		u.FirstOctet &^= 0x40
		if u.UDH != nil {
			u.FirstOctet |= 0x40
			u.PI |= 4
		} else {
			udlFree = len(u.UD) == 0
		}
	case "type", "optType":
		if x.V < 0 || x.V > 5 {
			return u, false, true
		}
		u.Direction = tpdu.Direction(x.V & 1)
		u.FirstOctet = u.FirstOctet&^3 | tpdu.FirstOctet(x.V>>1)
	case "mti", "optMTI":
		u.FirstOctet = u.FirstOctet&^3 | tpdu.FirstOctet(x.V)
	case "vpf":
		u.FirstOctet = u.FirstOctet&^0x18 | tpdu.FirstOctet(x.V<<3)
	case "optDir":
		u.Direction = tpdu.Direction(x.V)
	case "optDA":
		u.DA = toAddr(*x.A)
	case "optOA":
		u.OA = toAddr(*x.A)
	case "number":
		a := addr[x.S[0]]
		n := number(x.S[1:])
		a.Addr, a.TOA = n.Addr, a.TOA&0x80|0x11
	case "ton":
		a := addr[x.S[0]]
		a.TOA = a.TOA&0x8f | byte(x.V)<<4
	case "npi":
		a := addr[x.S[0]]
		a.TOA = a.TOA&0xf0 | byte(x.V)
	}
	return
}

// sameState compares states. An empty header that is not nil may be treated
// as either.
func sameState(got, want tpdu.TPDU, udlFree bool) error {
	if udlFree {
		got.PI, want.PI = got.PI|4, want.PI|4
	}
	if len(want.UDH) == 0 && want.UDH != nil {
		got.FirstOctet, want.FirstOctet = got.FirstOctet|0x40, want.FirstOctet|0x40
		got.PI, want.PI = got.PI|4, want.PI|4
	}
	if len(got.UDH) == 0 && len(want.UDH) == 0 {
		got.UDH, want.UDH = nil, nil
	}
	if len(got.UD) == 0 && len(want.UD) == 0 {
		got.UD, want.UD = nil, nil
	}
	if !reflect.DeepEqual(got, want) {
		return fmt.Errorf("the state is %+v, not %+v", got, want)
	}
	return nil
}

// checkAccessors compares what is read of a TPDU with its fields.
func checkAccessors(t tpdu.TPDU) error {
	fo := byte(t.FirstOctet)
	if int(t.MTI()) != int(fo&3) {
		return fmt.Errorf("MTI is %d with first octet %02x", t.MTI(), fo)
	}
	typ := int(fo&3)<<1 | int(t.Direction)
	if int(t.SmsType()) != typ {
		return fmt.Errorf("the type is %d, not %d", t.SmsType(), typ)
	}
	if t.UDHI() != (fo&0x40 != 0) {
		return fmt.Errorf("UDHI is %v with first octet %02x", t.UDHI(), fo)
	}
	udh := fromUDH(t.UDH)
	if n := ref.UDHL(udh); t.UDHL() != n {
		return fmt.Errorf("UDHL is %d, not %d", t.UDHL(), n)
	}
	d := ref.ReadDCS(byte(t.DCS))
	a, err := t.Alphabet()
	if (err != nil) != (d.Alpha == ref.AlphaBad) || err == nil && int(a) != d.Alpha {
		return fmt.Errorf("the alphabet of %02x is %v, %v, not %d", byte(t.DCS), a, err, d.Alpha)
	}
	segs, seq, mref, ok := t.ConcatInfo()
	id := concat(udh)
	if want := (concatInfo{segs, seq, mref, ok}); want != id {
		return fmt.Errorf("ConcatInfo is %v, not %v, for %v", want, id, udh)
	}
	if t.IsSingleSegment() == id.OK {
		return fmt.Errorf("IsSingleSegment is %v for %v", t.IsSingleSegment(), udh)
	}
	if typ < 6 && d.Alpha != ref.AlphaBad {
		m := ref.PDU{Type: typ, FO: fo, FCS: t.FCS, UDH: udh}
		h := 0
		if m.UDHI() || len(udh) > 0 {
			h = 1 + ref.UDHL(udh)
		}
		want := ref.Block(m.Capacity(), d.Alpha, h)
		if got := t.UDBlockSize(); got != want && (want > 0 || got > 0) {
			return fmt.Errorf("the block size is %d, not %d", got, want)
		}
	}
	return nil
}

func checkSetters(c setterCase, o *pbt.Obs) error {
	var t tpdu.TPDU
	ops := c.Ops
	if c.From != nil {
		t = toTPDU(*c.From)
	}
	if c.New > 0 {
		t = tpdu.TPDU{OA: tpdu.Address{TOA: 0x80}, DA: tpdu.Address{TOA: 0x80}, RA: tpdu.Address{TOA: 0x80}}
		var opts []tpdu.Option
		switch c.New {
		case 2:
			t.FirstOctet, t.Direction = 0, tpdu.MT
		case 3:
			t.FirstOctet, t.Direction = 1, tpdu.MO
		}
		bad := false
		free := false
		for len(ops) > 0 && ops[0].isOption() {
			opts = append(opts, ops[0].option())
			if !bad {
				var f bool
				t, f, bad = ops[0].model(t)
				free = free || f
			}
			ops = ops[1:]
		}
		given := append([]tpdu.Option{}, opts...)
		got, err := map[int]func(...tpdu.Option) (*tpdu.TPDU, error){1: tpdu.New, 2: tpdu.NewDeliver, 3: tpdu.NewSubmit}[c.New](opts...)
		if len(opts) > 0 && !reflect.DeepEqual(opts, given) {
			return fmt.Errorf("the options were altered")
		}
		if bad {
			if !errors.Is(err, tpdu.ErrInvalid) {
				return fmt.Errorf("an invalid type gives %v", err)
			}
			o.Class("refused")
			return nil
		}
		if err != nil {
			return err
		}
		if e := sameState(*got, t, free); e != nil {
			return fmt.Errorf("constructed with %d options: %w", len(opts), e)
		}
		t = *got
		if e := checkAccessors(t); e != nil {
			return e
		}
		o.Class("constructed")
	}
	var names = map[string]bool{}
	for i, x := range ops {
		before := snapshot(t)
		old := t
		want, free, refused := x.model(before)
		err := x.do(&t)
		if refused {
			if !errors.Is(err, tpdu.ErrInvalid) {
				return fmt.Errorf("operation %d, %s %d: an invalid type gives %v", i, x.K, x.V, err)
			}
			o.Class("refused")
		} else if err != nil {
			return fmt.Errorf("operation %d, %s: %v", i, x.K, err)
		}
		if e := sameState(t, want, free); e != nil {
			return fmt.Errorf("operation %d, %s: %w", i, x.K, e)
		}
		if e := checkAccessors(t); e != nil {
			return fmt.Errorf("after operation %d, %s: %w", i, x.K, e)
		}
		// the memory that the TPDU had is as it was
		if !sameTPDU(old, before) {
			return fmt.Errorf("operation %d, %s: a copy made before changed from %+v to %+v", i, x.K, before, old)
		}
		names[x.K] = true
	}
	o.NTIf(len(names) > 1)
	return nil
}

func genSetOp(t *rapid.T) SetOp {
	x := SetOp{K: pick(t, "op", "DCS", "PID", "VP", "UD", "UDH", "type", "optDCS", "optDA", "optOA", "optUDH", "optMTI", "optDir", "optType", "mti", "vpf", "number", "ton", "npi", "vp")}
	switch x.K {
	case "DCS", "optDCS":
		x.V = int(genDCS(t, "dcs"))
	case "PID":
		x.V = int(rapid.Byte().Draw(t, "pid"))
	case "VP", "vp":
		vp := genVP(t)
		x.VP = &vp
	case "UD":
		x.N = oneIn(t, 4, "nil")
		if !x.N {
			x.B = octets(t, 0, 12, "ud")
		}
	case "UDH", "optUDH":
		x.N = oneIn(t, 4, "nil")
		if !x.N {
			x.U = genUDH(t, pick(t, "udhMax", 10, 30, 140))
		}
	case "type", "optType":
		x.V = intn(t, 0, 5, "type")
		if oneIn(t, 6, "invalid") {
			x.V = pick(t, "badType", 6, 7, -1, -2, 8, 255, 256, -256, 1<<31, 1<<32, 1<<40+3)
		}
	case "mti", "optMTI", "vpf":
		x.V = intn(t, 0, 3, "bits")
	case "optDir":
		x.V = intn(t, 0, 1, "dir")
	case "optDA", "optOA":
		a := genAddr(t)
		x.A = &a
	case "number":
		x.S = pick(t, "which", "O", "D", "R") + pick(t, "plus", "", "+") + genDigits(t, 0, 20, "digits")
	case "ton":
		x.S, x.V = pick(t, "which", "O", "D", "R"), intn(t, 0, 7, "ton")
	case "npi":
		x.S, x.V = pick(t, "which", "O", "D", "R"), intn(t, 0, 15, "npi")
	}
	return x
}

func genSetters(t *rapid.T) setterCase {
	var c setterCase
	switch intn(t, 0, 3, "start") {
	case 0:
		c.New = intn(t, 1, 3, "new")
	case 1, 2:
		p := genPDU(t)
		// any of the other bits, and a header with or without its flag
		p.FO = p.FO&3 | rapid.Byte().Draw(t, "fo")&^3
		p.PI = rapid.Byte().Draw(t, "pi")
		c.From = &p
	}
	for i := intn(t, 1, 12, "n"); i > 0; i-- {
		c.Ops = append(c.Ops, genSetOp(t))
	}
	return c
}

// checkBits reads and alters a first octet, and reads a parameter indicator.
func checkBits(b byte, o *pbt.Obs) error {
	o.NT()
	f := tpdu.FirstOctet(b)
	bit := func(n int) bool { return b>>n&1 == 1 }
	for _, x := range []struct {
		name string
		got  bool
		bit  int
	}{{"MMS", f.MMS(), 2}, {"RD", f.RD(), 2}, {"LP", f.LP(), 3}, {"SRI", f.SRI(), 5}, {"SRR", f.SRR(), 5}, {"SRQ", f.SRQ(), 5},
		{"UDHI", f.UDHI(), 6}, {"RP", f.RP(), 7}, {"PID", tpdu.PI(b).PID(), 0}, {"DCS", tpdu.PI(b).DCS(), 1}, {"UDL", tpdu.PI(b).UDL(), 2}} {
		if x.got != bit(x.bit) {
			return fmt.Errorf("%s of %02x is %v", x.name, b, x.got)
		}
	}
	if f.MTI() != tpdu.MessageType(b&3) || f.VPF() != tpdu.ValidityPeriodFormat(b>>3&3) {
		return fmt.Errorf("MTI and VPF of %02x are %d and %d", b, f.MTI(), f.VPF())
	}
	for v := 0; v < 4; v++ {
		if g, w := f.WithMTI(tpdu.MessageType(v)), b&^3|byte(v); byte(g) != w {
			return fmt.Errorf("%02x with MTI %d is %02x", b, v, byte(g))
		}
		if g, w := f.WithVPF(tpdu.ValidityPeriodFormat(v)), b&^0x18|byte(v)<<3; byte(g) != w {
			return fmt.Errorf("%02x with VPF %d is %02x", b, v, byte(g))
		}
		var vp tpdu.ValidityPeriod
		vp.Format = tpdu.ValidityPeriodFormat(v)
		t := tpdu.TPDU{FirstOctet: f}
		t.SetVP(vp)
		if w := b&^0x18 | byte(v)<<3; byte(t.FirstOctet) != w {
			return fmt.Errorf("%02x with validity %d is %02x", b, v, byte(t.FirstOctet))
		}
	}
	for typ := 0; typ < 6; typ++ {
		for d := 0; d < 2; d++ {
			t := tpdu.TPDU{FirstOctet: f, Direction: tpdu.Direction(d), PI: tpdu.PI(b)}
			if err := t.SetSmsType(tpdu.SmsType(typ)); err != nil {
				return err
			}
			if int(t.SmsType()) != typ || byte(t.FirstOctet) != b&^3|byte(typ>>1) || int(t.Direction) != typ&1 {
				return fmt.Errorf("%02x as type %d is %02x of type %d", b, typ, byte(t.FirstOctet), t.SmsType())
			}
			if int(tpdu.SmsType(typ).MTI()) != typ>>1 || int(tpdu.SmsType(typ).Direction()) != typ&1 {
				return fmt.Errorf("type %d has MTI %d and direction %d", typ, tpdu.SmsType(typ).MTI(), tpdu.SmsType(typ).Direction())
			}
		}
	}
	return nil
}

// blockCase is a header length in a type and coding scheme.
type blockCase struct {
	Type int
	DCS  byte
	FCS  byte
	UDHL int // -1 is no header
	Flag bool
}

func enumBlocks(yield func(blockCase) bool) {
	for typ := 0; typ < 6; typ++ {
		for _, dcs := range []byte{0, 4, 8, 0xf1, 0xf6, 0xe0, 0x19} {
			for _, fcs := range []byte{0, 1, 0x80, 0xff} {
				for l := -1; l < 160; l++ {
					for _, flag := range []bool{false, true} {
						if !yield(blockCase{typ, dcs, fcs, l, flag}) {
							return
						}
					}
				}
			}
		}
	}
}

func checkBlock(c blockCase, o *pbt.Obs) error {
	o.NTIf(c.UDHL > 0)
	t := tpdu.TPDU{FirstOctet: tpdu.FirstOctet(c.Type >> 1), Direction: tpdu.Direction(c.Type & 1), DCS: tpdu.DCS(c.DCS), FCS: c.FCS}
	n := c.UDHL
	for n >= 2 {
		k := min(n-2, 7)
		if n-2-k == 1 { // leave nothing too short for an element
			k--
		}
		if k < 0 {
			k = 0
		}
		t.UDH = append(t.UDH, tpdu.InformationElement{ID: 0x70, Data: make([]byte, k)})
		n -= 2 + k
	}
	if c.Flag {
		t.FirstOctet |= 0x40
	}
	return checkAccessors(t)
}

func init() {
	pbt.Enum("C27", "bits", "every octet as a first octet and an indicator, with every value of each field set", func(yield func(byte) bool) {
		for b := 0; b < 256; b++ {
			if !yield(byte(b)) {
				return
			}
		}
	}, checkBits)
	pbt.Enum("C27", "room", "there is a header", enumBlocks, checkBlock)
	pbt.Random("C27", "setters", 100000, "two or more different operations", genSetters, checkSetters)
}

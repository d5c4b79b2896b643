package checks

import (
	"fmt"
	"reflect"
	"slices"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// Opt is one encoder option.
type Opt struct {
	K       string
	N       []int     `json:",omitempty"`
	B       byte      `json:",omitempty"`
	S       string    `json:",omitempty"`
	A       *ref.Addr `json:",omitempty"`
	U       []ref.IE  `json:",omitempty"`
	P       *ref.PDU  `json:",omitempty"`
	Foreign bool      `json:",omitempty"` // the template also has the fields of other types
}

// template is the TPDU of a "template" option.
func (o Opt) template() tpdu.TPDU {
	t := toTPDU(*o.P)
	if o.Foreign {
		addForeign(&t, *o.P)
	}
	return t
}

// addForeign sets the fields that the type of p does not have.
func addForeign(t *tpdu.TPDU, p ref.PDU) {
	set := func(a *tpdu.Address, v string) {
		if *a == (tpdu.Address{}) {
			*a = tpdu.Address{TOA: 0x91, Addr: v}
		}
	}
	set(&t.OA, "11")
	set(&t.DA, "22")
	set(&t.RA, "33")
	if !p.Has("FCS") {
		t.FCS = 0xd3
	}
	if !p.Has("MR") {
		t.MR = 0x5a
	}
	if !p.Has("CT") {
		t.CT, t.MN = 0x12, 0x34
	}
	if !p.Has("ST") {
		t.ST = 0x66
		t.DT = toTime(ref.Time{Y: 2001, Mo: 2, D: 3, H: 4, Mi: 5, S: 6, Q: 7})
	}
	if !p.Has("SCTS") {
		t.SCTS = toTime(ref.Time{Y: 2011, Mo: 12, D: 13, H: 14, Mi: 15, S: 16, Q: -17})
	}
	if !p.Has("PI") {
		t.PI = 0x88
	}
	if !p.Has("PID") {
		t.PID = 0x77
	}
	if !p.Has("VP") {
		t.VP.Duration = 5000
	}
}

// lib is the option of the library.
func (o Opt) lib() sms.EncoderOption {
	switch o.K {
	case "submit":
		return sms.AsSubmit
	case "deliver":
		return sms.AsDeliver
	case "8bit":
		return sms.As8Bit
	case "ucs2":
		return sms.AsUCS2
	case "dcs":
		return sms.WithTemplateOption(tpdu.DCS(o.B))
	case "to":
		return sms.To(o.S)
	case "from":
		return sms.From(o.S)
	case "charset":
		return sms.WithCharset(o.N...)
	case "lock":
		return sms.WithLockingCharset(o.N...)
	case "shift":
		return sms.WithShiftCharset(o.N...)
	case "all":
		return sms.WithAllCharsets
	case "default":
		return sms.WithDefaultCharset
	case "template":
		return sms.WithTemplate(o.template())
	case "udh":
		return sms.WithTemplateOption(tpdu.WithUDH(udhOrNil(o.U)))
	case "da":
		return sms.WithTemplateOption(tpdu.WithDA(toAddr(*o.A)))
	case "oa":
		return sms.WithTemplateOption(tpdu.WithOA(toAddr(*o.A)))
	case "type":
		return sms.WithTemplateOption(tpdu.SmsType(o.B))
	case "mti":
		return sms.WithTemplateOption(tpdu.MessageType(o.B))
	case "dir":
		return sms.WithTemplateOption(tpdu.Direction(o.B))
	}
	panic("option " + o.K)
}

func lib(opts []Opt) []sms.EncoderOption {
	var l []sms.EncoderOption
	for _, o := range opts {
		l = append(l, o.lib())
	}
	return l
}

// encState is what the options amount to.
type encState struct {
	t           tpdu.TPDU
	lock, shift []int
}

func (s *encState) apply(opts ...Opt) {
	for _, o := range opts {
		switch o.K {
		case "submit":
			s.setType(ref.Submit)
		case "deliver":
			s.setType(ref.Deliver)
		case "type":
			s.setType(int(o.B))
		case "mti":
			s.t.FirstOctet = s.t.FirstOctet&^3 | tpdu.FirstOctet(o.B)
		case "dir":
			s.t.Direction = tpdu.Direction(o.B)
		case "8bit":
			s.setDCS(4)
		case "ucs2":
			s.setDCS(8)
		case "dcs":
			s.setDCS(o.B)
		case "to":
			s.t.DA = number(o.S)
		case "from":
			s.t.OA = number(o.S)
		case "charset":
			s.lock = append(s.lock, o.N...)
			s.shift = append(s.shift, o.N...)
		case "lock":
			s.lock = append(s.lock, o.N...)
		case "shift":
			s.shift = append(s.shift, o.N...)
		case "all":
			for n := 1; n < ref.Languages; n++ {
				s.lock = append(s.lock, n)
				s.shift = append(s.shift, n)
			}
		case "default":
		case "template":
			s.t = o.template()
		case "udh":
			s.t.UDH = nil
			s.t.FirstOctet &^= 0x40
			if len(o.U) > 0 {
				s.t.UDH = toUDH(o.U)
				s.t.FirstOctet |= 0x40
			}
		case "da":
			s.t.DA = toAddr(*o.A)
		case "oa":
			s.t.OA = toAddr(*o.A)
		default:
			panic("option " + o.K)
		}
	}
}

func (s *encState) setDCS(d byte) {
	s.t.DCS = tpdu.DCS(d)
	s.t.PI |= 2
}

func (s *encState) setType(t int) {
	s.t.FirstOctet = s.t.FirstOctet&^3 | tpdu.FirstOctet(t>>1)
	s.t.Direction = tpdu.Direction(t & 1)
}

func number(n string) tpdu.Address {
	if len(n) > 0 && n[0] == '+' {
		n = n[1:]
	}
	return tpdu.Address{TOA: 0x91, Addr: n}
}

// clone copies a state so that options applied to it do not affect s.
func (s encState) clone() encState {
	s.lock, s.shift = slices.Clone(s.lock), slices.Clone(s.shift)
	return s
}

// expect is what encoding a message is to give.
type expect struct {
	empty    bool
	conflict bool       // the DCS cannot express the alphabet
	tooLong  bool       // more than 255 segments
	alpha    int        // the alphabet used
	verbatim bool       // the message is passed through
	choice   ref.Choice // otherwise how it is encoded
	msg      []byte
	text     []rune
	base     tpdu.TPDU // the template with DCS and language header
	units    int       // septets or octets
	single   int       // block size when unsegmented
	multi    int       // and when segmented
	count    int       // segments, if certain
}

// model returns the model of a TPDU that may have foreign fields.
func model(t tpdu.TPDU) ref.PDU {
	p := ref.PDU{Type: int(t.SmsType()), FO: byte(t.FirstOctet), FCS: t.FCS, PI: byte(t.PI) | 6, DCS: byte(t.DCS), UDH: fromUDH(t.UDH)}
	if p.Type == ref.Command {
		// the alphabet of a command is not in its DCS
		p.DCS = 4
	}
	return p
}

func headerLen(t tpdu.TPDU) int {
	if t.FirstOctet&0x40 != 0 || len(t.UDH) > 0 {
		return 1 + ref.UDHL(fromUDH(t.UDH))
	}
	return 0
}

// expected computes what encoding is to give.
func (s encState) expected(msg []byte) expect {
	e := expect{base: s.t, msg: msg}
	a := ref.ReadDCS(byte(s.t.DCS)).Alpha
	var toks []int // lengths of what is not to be split
	switch a {
	case ref.Alpha8Bit, ref.AlphaUCS2:
		e.verbatim, e.alpha, e.units = true, a, len(msg)
	default:
		e.text = []rune(string(msg))
		e.choice = ref.Choose(e.text, s.lock, s.shift)
		e.alpha = ref.Alpha7Bit
		if e.choice.UCS2 {
			e.alpha = ref.AlphaUCS2
		}
		dcs, ok := ref.WithAlphabet(byte(s.t.DCS), e.alpha)
		if !ok {
			e.conflict = true
			return e
		}
		e.base.DCS = tpdu.DCS(dcs)
		udh := fromUDH(s.t.UDH)
		if e.choice.HasLock {
			udh = append(udh, ref.IE{ID: lockingID(), Data: pbt.H{byte(e.choice.Lock)}})
		}
		if e.choice.HasShift {
			udh = append(udh, ref.IE{ID: shiftID(), Data: pbt.H{byte(e.choice.Shift)}})
		}
		if e.choice.HasLock || e.choice.HasShift {
			e.base.UDH = toUDH(udh)
			e.base.FirstOctet |= 0x40
		}
		if e.alpha == ref.AlphaUCS2 {
			e.msg = utf16be(e.text)
			e.units = len(e.msg)
		} else {
			e.msg = nil
			e.units = ref.SeptetLen(e.text, e.choice.Lock, e.choice.Shift)
			for i := range e.text {
				toks = append(toks, ref.SeptetLen(e.text[i:i+1], e.choice.Lock, e.choice.Shift))
			}
		}
	}
	if len(msg) == 0 {
		e.empty = true
		return e
	}
	m := model(e.base)
	h := headerLen(e.base)
	e.single = ref.Block(m.Capacity(), e.alpha, h)
	if h == 0 {
		h = 1
	}
	e.multi = ref.Block(m.Capacity(), e.alpha, h+5)
	if e.units <= e.single {
		e.count = 1
		return e
	}
	if e.msg != nil {
		chunks, _ := ref.Split(e.msg, e.alpha, e.multi)
		e.count = len(chunks)
	} else {
		e.count = 1
		n := 0
		for _, k := range toks {
			if n+k > e.multi {
				e.count++
				n = 0
			}
			n += k
		}
	}
	e.tooLong = e.count > 255
	return e
}

// refused checks for the outcomes without TPDUs. It reports whether the
// outcome is one of them.
func (e expect) refused(got []tpdu.TPDU, err error) (bool, error) {
	switch {
	case e.conflict:
		if err == nil || len(got) != 0 {
			return true, fmt.Errorf("a coding scheme that cannot express the alphabet: %d TPDUs, error %v", len(got), err)
		}
		if !errorIs(err, sms.ErrDcsConflict) {
			return true, fmt.Errorf("a coding scheme conflict is reported as %v", err)
		}
		return true, nil
	case e.empty:
		if err != nil || len(got) != 0 {
			return true, fmt.Errorf("an empty message gives %d TPDUs, error %v", len(got), err)
		}
		return true, nil
	case e.tooLong:
		if err == nil || len(got) != 0 {
			return true, fmt.Errorf("a message needing %d segments gives %d TPDUs, error %v", e.count, len(got), err)
		}
		return true, nil
	}
	if err != nil {
		return true, fmt.Errorf("error %v", err)
	}
	if len(got) == 0 {
		return true, fmt.Errorf("no TPDUs")
	}
	return false, nil
}

// checkChoice checks the alphabet and language header (C03).
func (e expect) checkChoice(got []tpdu.TPDU) error {
	for i, t := range got {
		if t.DCS != e.base.DCS {
			return fmt.Errorf("segment %d: DCS %02x, not %02x", i, byte(t.DCS), byte(e.base.DCS))
		}
		// the last element of a kind counts
		langs := func(udh []ref.IE) (l []ref.IE) {
			for _, x := range udh {
				if x.ID == shiftID() || x.ID == lockingID() {
					l = slices.DeleteFunc(l, func(y ref.IE) bool { return y.ID == x.ID })
					l = append(l, x)
				}
			}
			return
		}
		w, g := langs(fromUDH(e.base.UDH)), langs(fromUDH(t.UDH))
		slices.SortStableFunc(w, func(a, b ref.IE) int { return int(a.ID) - int(b.ID) })
		slices.SortStableFunc(g, func(a, b ref.IE) int { return int(a.ID) - int(b.ID) })
		if !eqUDH(w, g) {
			return fmt.Errorf("segment %d: the language elements are %v, not %v", i, g, w)
		}
	}
	return e.checkCovers(got)
}

// checkCovers checks that the segments carry exactly the message.
func (e expect) checkCovers(got []tpdu.TPDU) error {
	var all []byte
	for _, t := range got {
		all = append(all, t.UD...)
	}
	if e.msg != nil {
		if !eqBytes(all, e.msg) {
			return fmt.Errorf("the segments carry %x, not %x", all, e.msg)
		}
		return nil
	}
	text, ok := ref.DecodeSeptets(all, ref.Locking(e.choice.Lock), ref.Shift(e.choice.Shift), true)
	if !ok || string(text) != string(e.text) {
		return fmt.Errorf("the segments carry %q, not %q", string(text), string(e.text))
	}
	if len(all) != e.units {
		return fmt.Errorf("the message takes %d septets, not %d", len(all), e.units)
	}
	return nil
}

// checkSegments checks the division into segments, and the concatenation
// elements but for the reference (C02).
func checkSegments(base tpdu.TPDU, alpha int, msg []byte, got []tpdu.TPDU, sixteen, wellFormed bool) error {
	m := model(base)
	h := headerLen(base)
	single := ref.Block(m.Capacity(), alpha, h)
	var all []byte
	for _, t := range got {
		all = append(all, t.UD...)
	}
	if !eqBytes(all, msg) {
		return fmt.Errorf("the segments carry %x, not %x", all, msg)
	}
	if len(msg) <= single {
		if len(got) != 1 {
			return fmt.Errorf("%d units fit in one TPDU (%d) but there are %d", len(msg), single, len(got))
		}
		if !eqUDH(fromUDH(got[0].UDH), fromUDH(base.UDH)) {
			return fmt.Errorf("the header of the single TPDU is %v, not %v", got[0].UDH, base.UDH)
		}
		return nil
	}
	if len(got) < 2 {
		return fmt.Errorf("%d units in one TPDU with room for %d", len(msg), single)
	}
	if h == 0 {
		h = 1
	}
	iel := 5
	if sixteen {
		iel = 6
	}
	bs := ref.Block(m.Capacity(), alpha, h+iel)
	var first ref.IE
	for i, t := range got {
		udh := fromUDH(t.UDH)
		want := fromUDH(base.UDH)
		if len(udh) != len(want)+1 {
			return fmt.Errorf("segment %d: the header is %v", i, udh)
		}
		// the concatenation element may be anywhere
		at := -1
		for j, x := range udh {
			if x.ID == 0 && !sixteen || x.ID == 8 && sixteen {
				at = j
			}
		}
		if at < 0 {
			return fmt.Errorf("segment %d: no concatenation element in %v", i, udh)
		}
		ie := udh[at]
		if rest := append(append([]ref.IE{}, udh[:at]...), udh[at+1:]...); !eqUDH(rest, want) {
			return fmt.Errorf("segment %d: the other elements are %v, not %v", i, rest, want)
		}
		if len(ie.Data) != iel-2 {
			return fmt.Errorf("segment %d: concatenation element %v", i, ie)
		}
		n := len(ie.Data)
		if int(ie.Data[n-2]) != len(got) || int(ie.Data[n-1]) != i+1 {
			return fmt.Errorf("segment %d of %d is numbered %d of %d", i+1, len(got), ie.Data[n-1], ie.Data[n-2])
		}
		if i == 0 {
			first = ie
		} else if !eqBytes(ie.Data[:n-2], first.Data[:n-2]) {
			return fmt.Errorf("segment %d has reference %x, the first %x", i, ie.Data[:n-2], first.Data[:n-2])
		}
		if byte(t.FirstOctet)&0x40 == 0 {
			return fmt.Errorf("segment %d has a header but no flag", i)
		}
		if len(t.UD) > bs {
			return fmt.Errorf("segment %d has %d units, with room for %d", i, len(t.UD), bs)
		}
		if len(t.UD) == 0 {
			return fmt.Errorf("segment %d is empty", i)
		}
		if oct := userDataOctets(t, alpha); oct > m.Capacity() {
			return fmt.Errorf("segment %d has %d octets of user data", i, oct)
		}
	}
	if wellFormed {
		chunks, ok := ref.Split(msg, alpha, bs)
		if !ok {
			return fmt.Errorf("%w: block of %d", errInfra, bs)
		}
		for i, c := range chunks {
			if i >= len(got) || !eqBytes(c, got[i].UD) {
				n := -1
				if i < len(got) {
					n = len(got[i].UD)
				}
				return fmt.Errorf("segment %d has %d units rather than %d, of at most %d", i, n, len(c), bs)
			}
		}
		return nil
	}
	for i, t := range got[:len(got)-1] {
		if alpha == ref.AlphaUCS2 {
			if len(t.UD) < bs-2 || len(t.UD)%2 != 0 {
				return fmt.Errorf("segment %d has %d octets, with room for %d", i, len(t.UD), bs)
			}
			if ref.IsHigh(t.UD[len(t.UD)-2:]) && ref.IsLow(got[i+1].UD) {
				return fmt.Errorf("segment %d ends within a surrogate pair", i)
			}
		} else if len(t.UD) < bs-1 {
			return fmt.Errorf("segment %d has %d units, with room for %d", i, len(t.UD), bs)
		}
	}
	return nil
}

// userDataOctets is the length of the user data including the header.
func userDataOctets(t tpdu.TPDU, alpha int) int {
	h := headerLen(t)
	if alpha == ref.Alpha7Bit {
		return h + (ref.FillBits(h)+7*len(t.UD)+7)/8
	}
	return h + len(t.UD)
}

// checkTemplate checks what is to be kept of the template (C26).
func (e expect) checkTemplate(got []tpdu.TPDU) error {
	for i, t := range got {
		w := e.base
		if len(got) > 1 {
			w.FirstOctet |= 0x40
		}
		if t.FirstOctet != w.FirstOctet {
			return fmt.Errorf("segment %d: first octet %02x, not %02x", i, byte(t.FirstOctet), byte(w.FirstOctet))
		}
		if t.PI&^6 != w.PI&^6 || t.PI&w.PI != w.PI {
			return fmt.Errorf("segment %d: PI %02x, from %02x", i, byte(t.PI), byte(w.PI))
		}
		if st := w.SmsType(); (st == tpdu.SmsDeliverReport || st == tpdu.SmsSubmitReport || st == tpdu.SmsStatusReport) && !t.PI.UDL() {
			return fmt.Errorf("segment %d: a report whose PI %02x does not indicate its user data", i, byte(t.PI))
		}
		if t.DCS != w.DCS {
			return fmt.Errorf("segment %d: DCS %02x, not %02x", i, byte(t.DCS), byte(w.DCS))
		}
		udh, want := fromUDH(t.UDH), fromUDH(w.UDH)
		if len(got) > 1 && len(udh) > 0 {
			// less the concatenation element
			for j := len(udh) - 1; j >= 0; j-- {
				if udh[j].ID == 0 || udh[j].ID == 8 {
					udh = append(udh[:j:j], udh[j+1:]...)
					break
				}
			}
		}
		if !sameElements(udh, want) {
			return fmt.Errorf("segment %d: header %v, not %v", i, udh, want)
		}
		x, y := t, w
		for _, z := range []*tpdu.TPDU{&x, &y} {
			z.FirstOctet, z.PI, z.DCS, z.MR, z.UD, z.UDH = 0, 0, 0, 0, nil, nil
		}
		if !reflect.DeepEqual(x, y) {
			return fmt.Errorf("segment %d: %+v, from the template %+v", i, x, y)
		}
	}
	return nil
}

// sameElements compares headers, whose added language elements may be in
// either order.
func sameElements(a, b []ref.IE) bool {
	if len(a) != len(b) {
		return false
	}
	key := func(x, y ref.IE) int { return int(x.ID) - int(y.ID) }
	s := func(v []ref.IE) (langs, rest []ref.IE) {
		for _, x := range v {
			if x.ID == shiftID() || x.ID == lockingID() {
				langs = append(langs, x)
			} else {
				rest = append(rest, x)
			}
		}
		slices.SortStableFunc(langs, key)
		return
	}
	al, ar := s(a)
	bl, br := s(b)
	return eqUDH(al, bl) && eqUDH(ar, br)
}

// stripRefs zeroes the reference numbers of TPDUs.
func stripRefs(ts []tpdu.TPDU) []tpdu.TPDU {
	var r []tpdu.TPDU
	for _, t := range ts {
		t = snapshot(t)
		t.MR = 0
		for _, e := range t.UDH {
			if e.ID == 0 && len(e.Data) == 3 {
				e.Data[0] = 0
			}
			if e.ID == 8 && len(e.Data) == 4 {
				e.Data[0], e.Data[1] = 0, 0
			}
		}
		r = append(r, t)
	}
	return r
}

// eqTPDUs compares TPDUs, taking empty and nil to be the same.
func eqTPDUs(a, b []tpdu.TPDU) error {
	if len(a) != len(b) {
		return fmt.Errorf("%d TPDUs, not %d", len(a), len(b))
	}
	for i := range a {
		if !eqUDH(fromUDH(a[i].UDH), fromUDH(b[i].UDH)) || !eqBytes(a[i].UD, b[i].UD) {
			return fmt.Errorf("TPDU %d: header %v data %x, not %v %x", i, a[i].UDH, []byte(a[i].UD), b[i].UDH, []byte(b[i].UD))
		}
		x, y := a[i], b[i]
		x.UDH, x.UD, y.UDH, y.UD = nil, nil, nil, nil
		if !reflect.DeepEqual(x, y) {
			return fmt.Errorf("TPDU %d: %+v, not %+v", i, x, y)
		}
	}
	return nil
}

// genCharsetOpts draws options offering character sets.
func genCharsetOpts(t *rapid.T) []Opt {
	var l []Opt
	switch intn(t, 0, 5, "charsets") {
	case 0:
		return nil
	case 1, 2:
		return []Opt{{K: "all"}}
	}
	for i := intn(t, 1, 3, "nopts"); i > 0; i-- {
		o := Opt{K: pick(t, "copt", "charset", "lock", "shift", "all", "default")}
		if o.K == "charset" || o.K == "lock" || o.K == "shift" {
			for j := pick(t, "nlis", 0, 1, 2, 3, 4, 4, 10, 30); j > 0; j-- {
				o.N = append(o.N, genNLI(t, "nli"))
			}
		}
		l = append(l, o)
	}
	return l
}

// genOffer draws options that are likely to suffice for the message.
func genOffer(t *rapid.T, msg string) []Opt {
	l := genCharsetOpts(t)
	if oneIn(t, 2, "helpful") {
		text := []rune(msg)
		var lock, shift, both []int
		for n := 1; n < ref.Languages; n++ {
			if ref.Encodable(text, n, 0) {
				lock = append(lock, n)
			}
			if ref.Encodable(text, 0, n) {
				shift = append(shift, n)
			}
			if ref.Encodable(text, n, n) {
				both = append(both, n)
			}
		}
		add := func(k string, ns []int) {
			if len(ns) > 0 {
				o := Opt{K: k}
				if oneIn(t, 4, k+"Late") { // after others that do not suffice
					for i := intn(t, 1, 40, k+"Others"); i > 0; i-- {
						if n := intn(t, 0, ref.Languages, k+"Other"); !slices.Contains(ns, n) {
							o.N = append(o.N, n)
						}
					}
				}
				o.N = append(o.N, rapid.SampledFrom(ns).Draw(t, k))
				l = append(l, o)
			}
		}
		switch intn(t, 0, 3, "help") {
		case 0:
			add("lock", lock)
		case 1:
			add("shift", shift)
		default:
			add("charset", both)
		}
		if len(l) > 1 && oneIn(t, 3, "first") {
			l[0], l[len(l)-1] = l[len(l)-1], l[0]
		}
	}
	return l
}

func udhOrNil(u []ref.IE) tpdu.UserDataHeader {
	if len(u) == 0 {
		return nil
	}
	return toUDH(u)
}

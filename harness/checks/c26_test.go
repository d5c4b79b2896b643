package checks

import (
	"fmt"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/ref"
)

type keepCase struct {
	Opts []Opt
	Per  []Opt
	Via  int // sms.Encode, an encoder, or an encoder with some options per call
	Text string
}

// wire is the TPDU less the fields that its type does not have.
func wire(t tpdu.TPDU) (ref.PDU, error) {
	x := tpdu.TPDU{Direction: t.Direction, FirstOctet: t.FirstOctet, UDH: t.UDH, UD: t.UD, PI: t.PI}
	p := ref.PDU{Type: int(t.SmsType()), FO: byte(t.FirstOctet), PI: byte(t.PI)}
	if !p.Has("PI") {
		x.PI = 0
	}
	switch p.Type {
	case ref.Deliver:
		x.OA = t.OA
	case ref.Submit, ref.Command:
		x.DA = t.DA
	case ref.StatusReport:
		x.RA = t.RA
	}
	if p.Has("FCS") {
		x.FCS = t.FCS
	}
	if p.Has("MR") {
		x.MR = t.MR
	}
	if p.Has("CT") {
		x.CT, x.MN = t.CT, t.MN
	}
	if p.Has("ST") {
		x.ST, x.DT = t.ST, t.DT
	}
	if p.Has("PID") {
		x.PID = t.PID
	}
	if p.Has("DCS") || p.Type == ref.Command {
		x.DCS = t.DCS
	}
	if p.Has("SCTS") {
		x.SCTS = t.SCTS
	}
	if p.Has("VP") {
		x.VP = t.VP
	}
	return fromTPDU(&x)
}

// checkWire checks what the TPDUs marshal to.
func checkWire(got []tpdu.TPDU) error {
	for i := range got {
		p, err := wire(got[i])
		if err != nil {
			return fmt.Errorf("segment %d: %w", i, err)
		}
		b, err := got[i].MarshalBinary()
		want, ok := p.Bytes()
		if !ok {
			if err == nil {
				return fmt.Errorf("segment %d: %+v marshals to %x", i, got[i], b)
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("segment %d: marshal: %v", i, err)
		}
		if !eqBytes(b, want) {
			return fmt.Errorf("segment %d marshals to %x, not %x", i, b, want)
		}
		if announced := b[0]&0x40 != 0; !announced && len(got[i].UDH) > 0 {
			return fmt.Errorf("segment %d: %x does not announce its header", i, b)
		}
	}
	return nil
}

func checkKept(c keepCase, o *pbt.Obs) error {
	fixTables()
	var s encState
	var got []tpdu.TPDU
	var err error
	switch c.Via {
	case 0:
		s.apply(Opt{K: "submit"})
		s.apply(c.Opts...)
		s.apply(c.Per...)
		got, err = sms.Encode([]byte(c.Text), append(lib(c.Opts), lib(c.Per)...)...)
	default:
		s.apply(c.Opts...)
		s.apply(c.Per...)
		enc := sms.NewEncoder(lib(c.Opts)...)
		if c.Via == 2 {
			// used before
			enc.Encode([]byte("before, and more"))
		}
		got, err = enc.Encode([]byte(c.Text), lib(c.Per)...)
	}
	e := s.expected([]byte(c.Text))
	if no, err := e.refused(got, err); no {
		o.ClassIf(e.conflict, "conflict")
		return err
	}
	o.NT()
	o.ClassIf(len(got) > 1, "segmented")
	o.ClassIf(e.choice.HasLock || e.choice.HasShift, "language header")
	o.ClassIf(len(s.t.UDH) > 0, "template header")
	o.ClassIf(len(s.t.UDH) > 0 && (e.choice.HasLock || e.choice.HasShift) && len(got) > 1, "template, language and concatenation header")
	for _, x := range s.t.UDH {
		o.ClassIf(x.ID == shiftID() || x.ID == lockingID(), "language in the template")
		o.ClassIf((x.ID == 0 || x.ID == 8) && len(got) > 1, "concatenation in the template, segmented")
	}
	o.ClassIf(e.base.DCS != s.t.DCS, "alphabet changed")
	o.Class(ref.TypeNames[int(s.t.SmsType())])
	if err := e.checkTemplate(got); err != nil {
		return err
	}
	if err := e.checkCovers(got); err != nil {
		return err
	}
	return checkWire(got)
}

// genKeepOpts draws template options, in any order.
func genKeepOpts(t *rapid.T, most int) []Opt {
	var l []Opt
	for n := intn(t, 0, most, "n"); n > 0; n-- {
		switch pick(t, "opt", "template", "template", "carrier", "carrier", "dcs", "udh", "da", "oa", "charsets", "type", "8bit", "ucs2") {
		case "template":
			o := genTemplate(t)
			if len(o.P.UDH) > 0 && oneIn(t, 4, "anyElements") {
				o.P.UDH = genUDH(t, 40)
			}
			l = append(l, o)
		case "carrier":
			l = append(l, genCarrier(t)...)
		case "dcs":
			d := genDCS(t, "dcs")
			if ref.ReadDCS(d).Alpha == ref.AlphaBad {
				d &= 0x7f
			}
			l = append(l, Opt{K: "dcs", B: d})
		case "udh":
			u := plainUDH(t, pick(t, "udhMax", 8, 0, 20, 50))
			if oneIn(t, 3, "anyElements") {
				// with language and concatenation elements
				u = genUDH(t, pick(t, "udhMax2", 8, 20, 50))
			}
			l = append(l, Opt{K: "udh", U: u})
		case "da", "oa":
			a := genAddr(t)
			l = append(l, Opt{K: pick(t, "which", "da", "oa"), A: &a})
		case "charsets":
			l = append(l, genCharsetOpts(t)...)
		case "type":
			l = append(l, Opt{K: "type", B: byte(intn(t, 0, 4, "type"))})
		case "8bit":
			l = append(l, Opt{K: "8bit"})
		case "ucs2":
			l = append(l, Opt{K: "ucs2"})
		}
	}
	return l
}

// fixType keeps the validity period format of what ends as a submit, and the
// coding scheme of what ends as a command, what they are to be.
func fixType(opts []Opt) []Opt {
	var s encState
	s.apply(Opt{K: "submit"})
	s.apply(opts...)
	if s.t.SmsType() == tpdu.SmsCommand {
		return append(opts, Opt{K: "8bit"})
	}
	// flags of another type, as the validity period of a submit
	if s.t.SmsType() == tpdu.SmsSubmit && byte(s.t.FirstOctet)>>3&3 != byte(s.t.VP.Format) {
		return append(opts, Opt{K: "type", B: ref.Deliver})
	}
	d := byte(s.t.DCS)
	if ref.ReadDCS(d).Alpha == ref.AlphaBad {
		d = 0
	}
	if d != byte(s.t.DCS) || s.t.PI&2 == 0 {
		return append(opts, Opt{K: "dcs", B: d})
	}
	return opts
}

func genKept(t *rapid.T) keepCase {
	c := keepCase{Via: intn(t, 0, 2, "via")}
	c.Text = genText(t, 3)
	if oneIn(t, 2, "boundary") {
		c.Text = genBoundary(t, 3)
	}
	c.Opts = genKeepOpts(t, 4)
	if oneIn(t, 2, "per") {
		c.Per = genKeepOpts(t, 3)
	}
	if oneIn(t, 2, "offer") {
		c.Per = append(c.Per, genOffer(t, c.Text)...)
	}
	k := len(c.Opts)
	all := append(append([]Opt{}, c.Opts...), c.Per...)
	if c.Via > 0 {
		// without the initial AsSubmit
		all = append([]Opt{{K: "deliver"}}, all...)
		c.Opts = append([]Opt{{K: "deliver"}}, c.Opts...)
		k++
	}
	c.Per = fixType(all)[k:]
	return c
}

func checkSegKept(c segCase, o *pbt.Obs) error {
	t := toTPDU(c.P)
	addForeign(&t, c.P)
	opts := []tpdu.SegmentationOption{tpdu.WithConcatRef(&fixedCounter{c.Ref})}
	if c.Sixteen {
		opts = append(opts, tpdu.With16BitConcatRef)
	}
	got := t.Segment(c.Msg, opts...)
	for i := range got {
		if got[i].MR != t.MR {
			return fmt.Errorf("segment %d: message reference %d, not %d", i, got[i].MR, t.MR)
		}
	}
	o.NTIf(len(got) > 0)
	o.Class(ref.TypeNames[c.P.Type])
	e := expect{base: t, msg: c.Msg, alpha: c.P.Alpha()}
	if len(got) == 0 {
		return nil
	}
	if err := e.checkTemplate(got); err != nil {
		return err
	}
	if c.P.Alpha() == ref.AlphaUCS2 && len(c.Msg)%2 == 1 {
		return nil
	}
	return checkWire(got)
}

// enumFlags lists the first octets of templates of each type with a message of
// each kind.
type flagsCase struct {
	Type int
	FO   byte
	PI   byte
	Kind int
}

func enumFlags(yield func(flagsCase) bool) {
	for typ := 0; typ < 5; typ++ {
		for fo := 0; fo < 256; fo += 4 {
			for kind := 0; kind < 8; kind++ {
				for _, pi := range []byte{0, 1, 2, 3, 4, 5, 6, 7, 0xf8} {
					if pi > 0 && typ != 1 && typ != 2 && typ != 4 {
						continue
					}
					if !yield(flagsCase{typ, byte(fo) | byte(typ>>1), pi, kind}) {
						return
					}
				}
			}
		}
	}
}

func checkFlags(c flagsCase, o *pbt.Obs) error {
	p := ref.PDU{Type: c.Type, FO: c.FO, PI: c.PI, Addr: ref.Addr{TOA: 0x91, Text: "123"}, PID: 0x41, FCS: 0xd0,
		SCTS: ref.Time{Y: 2020, Mo: 1, D: 2, H: 3}, DT: ref.Time{Y: 2021, Mo: 1, D: 2, H: 3}, ST: 3}
	if p.Type == ref.Submit {
		p.VP.Format = byte(p.VPF())
		switch p.VPF() {
		case ref.VPAbsolute:
			p.VP.T = p.SCTS
		case ref.VPRelative:
			p.VP.Dur = ref.RelativePeriod(7)
		case ref.VPEnhanced:
			p.VP.Dur, p.VP.EFI = ref.RelativePeriod(7), 1
		}
	}
	if p.UDHI() {
		p.UDH = []ref.IE{{ID: 0x70, Data: pbt.H{1, 2, 3}}}
	}
	k := keepCase{Via: c.Kind % 3, Opts: []Opt{{K: "template", P: &p}}, Text: "hello"}
	if c.Kind&1 == 1 {
		for len(k.Text) < 400 {
			k.Text += k.Text
		}
	}
	switch c.Kind >> 1 {
	case 1:
		k.Text += "я"
	case 2:
		k.Text += "ş"
		k.Opts = append(k.Opts, Opt{K: "charset", N: []int{1}})
	case 3:
		k.Text += "€"
	}
	return checkKept(k, o)
}

func init() {
	pbt.Random("C26", "options", 30000, "TPDUs are produced", genKept, checkKept)
	pbt.Random("C26", "segment", 16000, "TPDUs are produced", genSegment, checkSegKept)
	pbt.Enum("C26", "flags", "TPDUs are produced", enumFlags, checkFlags)
}

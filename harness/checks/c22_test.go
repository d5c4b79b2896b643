package checks

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"slices"
	"time"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/gsm7"
	"github.com/warthog618/sms/encoding/gsm7/charset"
	"github.com/warthog618/sms/encoding/pdumode"
	"github.com/warthog618/sms/encoding/semioctet"
	"github.com/warthog618/sms/encoding/tpdu"
	"github.com/warthog618/sms/encoding/ucs2"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// guards watch memory that is not to be written to.
type guards struct{ list []func() string }

func (g *guards) check() error {
	for _, f := range g.list {
		if s := f(); s != "" {
			return errors.New(s)
		}
	}
	return nil
}

// octets copies b to the middle of a larger array, with spare capacity.
func (g *guards) octets(b []byte, what string) []byte {
	if b == nil {
		return nil
	}
	buf := make([]byte, 8+len(b)+24)
	for i := range buf {
		buf[i] = 0xa5 ^ byte(i)
	}
	copy(buf[8:], b)
	keep := append([]byte{}, buf...)
	g.list = append(g.list, func() string {
		for i := range buf {
			if buf[i] != keep[i] {
				where := "within"
				if i < 8 || i >= 8+len(b) {
					where = "beside"
				}
				return fmt.Sprintf("octet %d of %s, or %s it, is changed from %02x to %02x", i-8, what, where, keep[i], buf[i])
			}
		}
		return ""
	})
	return buf[8 : 8+len(b)]
}

func (g *guards) udh(h tpdu.UserDataHeader, what string) tpdu.UserDataHeader {
	if h == nil {
		return nil
	}
	buf := make([]tpdu.InformationElement, 1+len(h)+4)
	for i := range buf {
		buf[i] = tpdu.InformationElement{ID: byte(0xe0 + i), Data: g.octets([]byte{1, 2}, what+" element")}
	}
	for i, e := range h {
		buf[1+i] = tpdu.InformationElement{ID: e.ID, Data: g.octets(e.Data, what+" element")}
	}
	keep := append([]tpdu.InformationElement{}, buf...)
	g.list = append(g.list, func() string {
		for i := range buf {
			if buf[i].ID != keep[i].ID || !reflect.DeepEqual(buf[i].Data, keep[i].Data) {
				return fmt.Sprintf("element %d of %d of %s is changed from %v to %v", i-1, len(h), what, keep[i], buf[i])
			}
		}
		return ""
	})
	return buf[1 : 1+len(h)]
}

// tpdu guards the memory of a TPDU, and its fields.
func (g *guards) tpdu(t tpdu.TPDU, what string) *tpdu.TPDU {
	t.UD = g.octets(t.UD, "the user data of "+what)
	t.UDH = g.udh(t.UDH, "the header of "+what)
	r := &t
	keep := snapshot(t)
	g.list = append(g.list, func() string {
		if !sameTPDU(*r, keep) {
			return fmt.Sprintf("%s is changed from %+v to %+v", what, keep, *r)
		}
		return ""
	})
	return r
}

// option is the option of the library, with guarded memory.
func (g *guards) option(o Opt) sms.EncoderOption {
	switch o.K {
	case "template":
		return sms.WithTemplate(*g.tpdu(o.template(), "the template"))
	case "udh":
		return sms.WithTemplateOption(tpdu.WithUDH(g.udh(udhOrNil(o.U), "the header option")))
	case "charset", "lock", "shift":
		n := make([]int, len(o.N), len(o.N)+3)
		copy(n, o.N)
		for i := range n[:cap(n)][len(n):] {
			n[:cap(n)][len(n)+i] = 5 + i
		}
		keep := append([]int{}, n[:cap(n)]...)
		g.list = append(g.list, func() string {
			if !reflect.DeepEqual(keep, n[:cap(n)]) {
				return fmt.Sprintf("the languages of an option are changed from %v to %v", keep, n[:cap(n)])
			}
			return ""
		})
		switch o.K {
		case "charset":
			return sms.WithCharset(n...)
		case "lock":
			return sms.WithLockingCharset(n...)
		}
		return sms.WithShiftCharset(n...)
	}
	return o.lib()
}

func (g *guards) options(opts []Opt) []sms.EncoderOption {
	l := make([]sms.EncoderOption, 0, len(opts)+2)
	for _, o := range opts {
		l = append(l, g.option(o))
	}
	return l
}

type usedCase struct {
	Opts []Opt
	Msgs []chatMsg
}

// checkUsed encodes messages with one encoder, each of which is to give what a
// fresh one gives, changing neither what is provided nor what was given before.
func checkUsed(c usedCase, o *pbt.Obs) error {
	fixTables()
	var g guards
	base := g.options(c.Opts)
	enc := sms.NewEncoder(base...)
	type result struct{ got, keep []tpdu.TPDU }
	var results []result
	per := 0
	for i, m := range c.Msgs {
		msg := g.octets([]byte(m.Text), "the message")
		opts := g.options(m.Opts)
		got, err := enc.Encode(msg, opts...)
		if e := g.check(); e != nil {
			return fmt.Errorf("message %d: %w", i, e)
		}
		all := append(append([]Opt{}, c.Opts...), m.Opts...)
		fresh, ferr := sms.NewEncoder(lib(all)...).Encode([]byte(m.Text))
		if fmt.Sprint(err) != fmt.Sprint(ferr) {
			return fmt.Errorf("message %d: error %v, but from a fresh encoder %v", i, err, ferr)
		}
		if err := eqTPDUs(stripRefs(got), stripRefs(fresh)); err != nil {
			return fmt.Errorf("message %d differs from that of a fresh encoder: %w", i, err)
		}
		var keep []tpdu.TPDU
		for _, t := range got {
			keep = append(keep, snapshot(t))
		}
		results = append(results, result{got, keep})
		for k, r := range results {
			for j := range r.got {
				if !sameTPDU(r.got[j], r.keep[j]) {
					return fmt.Errorf("message %d changes TPDU %d of message %d from %+v to %+v", i, j, k, r.keep[j], r.got[j])
				}
			}
		}
		for j := range got {
			t := g.tpdu(got[j], "the TPDU")
			b, err := t.MarshalBinary()
			b2, err2 := t.MarshalBinary()
			if e := g.check(); e != nil {
				return fmt.Errorf("marshalling message %d: %w", i, e)
			}
			if !eqBytes(b, b2) || fmt.Sprint(err) != fmt.Sprint(err2) {
				return fmt.Errorf("message %d: marshals to %x and then to %x, %v", i, b, b2, err2)
			}
			for k := range b {
				b[k] ^= 0xff
			}
			if e := g.check(); e != nil {
				return fmt.Errorf("writing to the marshalled message %d: %w", i, e)
			}
		}
		if len(m.Opts) > 0 {
			per++
		}
		o.ClassIf(len(got) > 1, "segmented")
		o.ClassIf(err != nil, "refused")
	}
	o.NTIf(len(c.Msgs) > 1)
	o.ClassIf(per > 0 && per < len(c.Msgs), "with and without options")
	return nil
}

// genTemplate draws a template in which some of a message fits.
func genTemplate(t *rapid.T, types ...int) Opt {
	p := genPDU(t, types...)
	p.UD, p.MR = nil, 0
	if p.Has("DCS") && (ref.ReadDCS(p.DCS).Alpha == ref.AlphaBad || oneIn(t, 2, "dcs0")) {
		p.DCS = 0
	}
	p.UDH = nil
	if p.UDHI() {
		p.UDH = plainUDH(t, pick(t, "udhMax", 8, 4, 30, 60))
	}
	return Opt{K: "template", P: &p, Foreign: oneIn(t, 3, "foreign")}
}

func genUsedOpts(t *rapid.T) []Opt {
	var l []Opt
	if oneIn(t, 2, "template") {
		l = append(l, genTemplate(t, ref.Submit, ref.Submit, ref.Deliver, ref.DeliverReport, ref.SubmitReport))
		if oneIn(t, 3, "more") {
			l = append(l, genCarrier(t)...)
		}
	} else {
		l = append(l, genCarrier(t)...)
	}
	return append(l, genCharsetOpts(t)...)
}

func genUsed(t *rapid.T) usedCase {
	c := usedCase{Opts: genUsedOpts(t)}
	for i := intn(t, 1, 5, "msgs"); i > 0; i-- {
		m := chatMsg{Text: genText(t, 3)}
		if oneIn(t, 2, "perCall") {
			m.Opts = append(genUsedOpts(t), genOffer(t, m.Text)...)
		}
		if len(c.Msgs) > 0 && oneIn(t, 3, "again") {
			m.Text = c.Msgs[0].Text
		}
		c.Msgs = append(c.Msgs, m)
	}
	return c
}

// A sessionCase uses one encoder many times.
type sessionCase struct {
	usedCase
	Times int
}

// checkSession compares each use of a long lived encoder to one of a fresh
// encoder, which each message gives the same every time.
func checkSession(c sessionCase, o *pbt.Obs) error {
	enc := sms.NewEncoder(lib(c.Opts)...)
	type result struct {
		ts  []tpdu.TPDU
		err string
	}
	var want []result
	var opts [][]sms.EncoderOption
	for _, m := range c.Msgs {
		opts = append(opts, lib(m.Opts))
		all := append(append([]Opt{}, c.Opts...), m.Opts...)
		ts, err := sms.NewEncoder(lib(all)...).Encode([]byte(m.Text))
		var keep []tpdu.TPDU
		for _, t := range ts {
			keep = append(keep, snapshot(t))
		}
		want = append(want, result{stripRefs(keep), fmt.Sprint(err)})
	}
	o.NTIf(c.Times > 1 && len(c.Msgs) > 0)
	o.ClassIf(c.Times > 256, "over 256 uses")
	for i := 0; i < c.Times; i++ {
		k := (i*i + i/3) % len(c.Msgs)
		ts, err := enc.Encode([]byte(c.Msgs[k].Text), opts[k]...)
		if fmt.Sprint(err) != want[k].err {
			return fmt.Errorf("use %d (message %d): error %v, but from a fresh encoder %v", i, k, err, want[k].err)
		}
		if err := eqTPDUs(stripRefs(ts), want[k].ts); err != nil {
			return fmt.Errorf("use %d (message %d) differs from that of a fresh encoder: %w", i, k, err)
		}
	}
	return nil
}

// checkSegMemory segments from guarded memory.
func checkSegMemory(c segCase, o *pbt.Obs) error {
	var g guards
	t := g.tpdu(toTPDU(c.P), "the template")
	msg := g.octets(c.Msg, "the message")
	mk := func() []tpdu.SegmentationOption {
		opts := []tpdu.SegmentationOption{tpdu.WithConcatRef(&fixedCounter{c.Ref})}
		if c.Sixteen {
			opts = append(opts, tpdu.With16BitConcatRef)
		}
		return opts
	}
	a := t.Segment(msg, mk()...)
	if err := g.check(); err != nil {
		return err
	}
	var keep []tpdu.TPDU
	for _, x := range a {
		keep = append(keep, snapshot(x))
	}
	b := t.Segment(msg, mk()...)
	// a different message, from the same template
	other := g.octets(append(append([]byte{}, c.Msg...), 1, 2, 3, 4), "the other message")
	t.Segment(other, mk()...)
	if err := g.check(); err != nil {
		return err
	}
	if err := eqTPDUs(b, keep); err != nil {
		return fmt.Errorf("segmented again: %w", err)
	}
	if err := eqTPDUs(a, keep); err != nil {
		return fmt.Errorf("the segments change when others are made: %w", err)
	}
	o.NTIf(len(a) > 1)
	o.ClassIf(len(t.UDH) > 0, "with a header")
	return nil
}

// DCall is a call that decodes.
type DCall struct {
	K    string // Decode, DecodeUserData, Unmarshal
	Seg  int    // index in the messages
	Opts []Opt
}

type decodeMemCase struct {
	Msgs  []encSegCase
	Calls []DCall
	Break int // a segment is left out
}

func decodeOpts(opts []Opt) []sms.DecodeOption {
	var l []sms.DecodeOption
	for _, o := range opts {
		l = append(l, o.lib().(sms.DecodeOption))
	}
	return l
}

// checkDecodeMemory decodes from guarded memory, repeatedly.
func checkDecodeMemory(c decodeMemCase, o *pbt.Obs) error {
	fixTables()
	var g guards
	var sets [][]*tpdu.TPDU
	for i, m := range c.Msgs {
		got, err := sms.Encode([]byte(m.Text), lib(m.Opts)...)
		if err != nil {
			continue
		}
		var set []*tpdu.TPDU
		for j, t := range got {
			b, err := t.MarshalBinary()
			if err != nil {
				return fmt.Errorf("message %d: %v", i, err)
			}
			src := g.octets(b, "the source")
			dir := sms.AsMT
			if t.Direction == tpdu.MO {
				dir = sms.AsMO
			}
			u, err := sms.Unmarshal(src, dir)
			if err != nil {
				return fmt.Errorf("message %d: %v", i, err)
			}
			if err := g.check(); err != nil {
				return fmt.Errorf("unmarshalling: %w", err)
			}
			// the source is used for another TPDU
			keep := snapshot(*u)
			for k := range src {
				src[k] ^= 0x5a
			}
			same := sameTPDU(*u, keep)
			for k := range src {
				src[k] ^= 0x5a
			}
			if !same {
				return fmt.Errorf("message %d: the TPDU changes with its source", i)
			}
			if i == 0 && c.Break > 0 && j == c.Break-1 {
				continue
			}
			set = append(set, g.tpdu(*u, "a segment"))
		}
		if len(set) > 0 {
			sets = append(sets, set)
		}
	}
	if len(sets) == 0 {
		return nil
	}
	call := func(d DCall) string {
		set := sets[d.Seg%len(sets)]
		switch d.K {
		case "Decode":
			b, err := sms.Decode(set, decodeOpts(d.Opts)...)
			r := fmt.Sprintf("%q %v", b, err)
			for i := range b { // the result is the caller's
				b[i] ^= 0xff
			}
			return r
		case "DecodeUserData":
			t := set[0]
			a, _ := t.Alphabet()
			_, dopts := udOpts(d.Opts)
			b, err := tpdu.DecodeUserData(t.UD, t.UDH, a, dopts...)
			return fmt.Sprintf("%q %v", b, err)
		case "IsCompleteMessage":
			return fmt.Sprint(sms.IsCompleteMessage(set))
		case "Collect":
			col := sms.NewCollector()
			defer col.Close()
			r := ""
			for _, t := range set {
				d, err := col.Collect(*t)
				r += fmt.Sprint(len(d), err, ";")
			}
			return r
		}
		b, err := set[0].MarshalBinary()
		return fmt.Sprintf("%x %v", b, err)
	}
	var first []string
	for i, d := range c.Calls {
		first = append(first, call(d))
		if err := g.check(); err != nil {
			return fmt.Errorf("call %d, %s: %w", i, d.K, err)
		}
	}
	// in the opposite order
	for i := len(c.Calls) - 1; i >= 0; i-- {
		if again := call(c.Calls[i]); again != first[i] {
			return fmt.Errorf("call %d, %s: first %.300s, then %.300s", i, c.Calls[i].K, first[i], again)
		}
		if err := g.check(); err != nil {
			return fmt.Errorf("call %d, %s: %w", i, c.Calls[i].K, err)
		}
	}
	o.NTIf(len(c.Calls) > 1)
	o.ClassIf(len(sets[0]) > 1, "segmented")
	return nil
}

func genDecodeMemory(t *rapid.T) decodeMemCase {
	var c decodeMemCase
	for i := intn(t, 1, 3, "msgs"); i > 0; i-- {
		text := genText(t, 3)
		c.Msgs = append(c.Msgs, encSegCase{text, append(genCarrier(t), genOffer(t, text)...)})
	}
	if oneIn(t, 4, "break") {
		c.Break = intn(t, 1, 3, "breakAt")
	}
	for i := intn(t, 2, 8, "calls"); i > 0; i-- {
		d := DCall{K: pick(t, "call", "Decode", "Decode", "DecodeUserData", "IsCompleteMessage", "Collect", "MarshalBinary"), Seg: intn(t, 0, 2, "seg")}
		d.Opts = genCharsetOpts(t)
		c.Calls = append(c.Calls, d)
	}
	return c
}

type codecCase struct {
	B    pbt.H
	Fill int
	NLI  int
	Then pbt.H // decoded in between
}

// checkCodecs calls the codecs with guarded memory.
func checkCodecs(c codecCase, o *pbt.Obs) error {
	fixTables()
	var g guards
	b := g.octets(c.B, "the input")
	dec := gsm7.NewDecoder()
	enc := gsm7.NewEncoder()
	type results []any
	type codec struct {
		name string
		f    func(b []byte) results
	}
	calls := []codec{
		{"gsm7.Decode", func(b []byte) results {
			d, err := gsm7.Decode(b, gsm7.WithCharset(c.NLI), gsm7.WithExtCharset(c.NLI))
			return results{d, err}
		}},
		{"gsm7.Decode strict", func(b []byte) results {
			d, err := gsm7.Decode(b, gsm7.WithExtCharset(c.NLI), gsm7.Strict)
			return results{d, err}
		}},
		{"gsm7.Encode", func(b []byte) results {
			d, err := gsm7.Encode(b, gsm7.WithCharset(c.NLI), gsm7.WithExtCharset(c.NLI))
			return results{d, err}
		}},
		{"Decoder.Decode", func(b []byte) results { d, err := dec.Decode(b); return results{d, err} }},
		{"Decoder.With", func(b []byte) results {
			d := dec.WithCharset(charset.NewDecoder(c.NLI)).WithExtCharset(charset.NewExtDecoder(c.NLI)).Strict()
			x, err := d.Decode(b)
			return results{x, err}
		}},
		{"Encoder.Encode", func(b []byte) results { d, err := enc.Encode(b); return results{d, err} }},
		{"Encoder.With", func(b []byte) results {
			e := enc.WithCharset(charset.NewEncoder(c.NLI)).WithExtCharset(charset.NewExtEncoder(c.NLI))
			x, err := e.Encode(b)
			return results{x, err}
		}},
		{"Pack7Bit", func(b []byte) results {
			if slices.ContainsFunc(b, func(o byte) bool { return o > 0x7f }) {
				return nil // not septets
			}
			return results{gsm7.Pack7Bit(b, c.Fill)}
		}},
		{"Unpack7Bit", func(b []byte) results { return results{gsm7.Unpack7Bit(b, c.Fill)} }},
		{"Pack7BitUSSD", func(b []byte) results {
			if slices.ContainsFunc(b, func(o byte) bool { return o > 0x7f }) {
				return nil // not septets
			}
			return results{gsm7.Pack7BitUSSD(b, c.Fill)}
		}},
		{"Unpack7BitUSSD", func(b []byte) results { return results{gsm7.Unpack7BitUSSD(b, c.Fill)} }},
		{"ucs2.Decode", func(b []byte) results { d, err := ucs2.Decode(b); return results{d, err} }},
		{"ucs2.Encode", func(b []byte) results { return results{ucs2.Encode([]rune(string(b)))} }},
		{"semioctet.Encode", func(b []byte) results { d, err := semioctet.Encode(b); return results{d, err} }},
		{"semioctet.Decode", func(b []byte) results {
			d, n, err := semioctet.Decode(make([]byte, c.Fill*3), b)
			return results{d, n, err}
		}},
		{"EncodeUserData", func(b []byte) results {
			u, h, a := tpdu.EncodeUserData(b, tpdu.WithCharset(c.NLI))
			return results{u, h, a}
		}},
		{"Address.MarshalBinary", func(b []byte) results {
			a := tpdu.Address{TOA: 0x91, Addr: string(b)}
			d, err := a.MarshalBinary()
			a.TOA = 0xd0
			d2, err2 := a.MarshalBinary()
			return results{d, err, d2, err2}
		}},
		{"SMSCAddress.MarshalBinary", func(b []byte) results {
			a := pdumode.SMSCAddress{Address: tpdu.Address{TOA: 0x91, Addr: string(b)}}
			d, err := a.MarshalBinary()
			return results{d, err}
		}},
		{"PDU.MarshalBinary", func(b []byte) results {
			a := pdumode.PDU{TPDU: b}
			d, err := a.MarshalBinary()
			return results{d, err}
		}},
		{"UserDataHeader.MarshalBinary", func(b []byte) results {
			d, err := tpdu.UserDataHeader{{ID: 0x70, Data: b}}.MarshalBinary()
			return results{d, err}
		}},
		{"Timestamp.MarshalBinary", func(b []byte) results {
			a := tpdu.Timestamp{Time: time.Unix(int64(len(b))*1000003, 0).UTC()}
			d, err := a.MarshalBinary()
			return results{d, err}
		}},
		{"ValidityPeriod.MarshalBinary", func(b []byte) results {
			a := tpdu.ValidityPeriod{Format: tpdu.VpfEnhanced, EFI: 2, Duration: time.Duration(len(b)%255+1) * time.Second}
			d, err := a.MarshalBinary()
			return results{d, err}
		}},
	}
	for a := tpdu.Alpha7Bit; a <= tpdu.AlphaReserved; a++ {
		calls = append(calls, codec{fmt.Sprint("DecodeUserData ", a), func(b []byte) results {
			d, err := tpdu.DecodeUserData(b, nil, a)
			return results{d, err}
		}})
	}
	show := func(r results) string {
		s := ""
		for _, x := range r {
			if e, ok := x.(error); ok {
				x = fmt.Sprintf("%T %v", e, e)
			}
			s += fmt.Sprintf("%#v ", x)
		}
		return s
	}
	then := g.octets(c.Then, "the other input")
	first, kept := make([]string, len(calls)), make([]results, len(calls))
	for i, f := range calls {
		kept[i] = f.f(b)
		first[i] = show(kept[i])
		if err := g.check(); err != nil {
			return fmt.Errorf("%s: %w", f.name, err)
		}
		f.f(then)
	}
	for i := len(calls) - 1; i >= 0; i-- {
		if again := show(calls[i].f(b)); again != first[i] {
			return fmt.Errorf("%s: first %.300s, then %.300s", calls[i].name, first[i], again)
		}
		calls[i].f(then)
	}
	for i := range calls {
		if now := show(kept[i]); now != first[i] {
			return fmt.Errorf("%s: what it returned, %.300s, has become %.300s", calls[i].name, first[i], now)
		}
	}
	o.ClassIf(len(c.B) > 140, "more than a TPDU carries")
	// what is unmarshalled is not a view of the source
	views := []struct {
		name string
		f    func(src []byte) (any, error)
	}{
		{"Address", func(src []byte) (any, error) { var x tpdu.Address; _, err := x.UnmarshalBinary(src); return &x, err }},
		{"Timestamp", func(src []byte) (any, error) { var x tpdu.Timestamp; err := x.UnmarshalBinary(src); return &x, err }},
		{"UserDataHeader", func(src []byte) (any, error) {
			var x tpdu.UserDataHeader
			_, err := x.UnmarshalBinary(src)
			return &x, err
		}},
		{"ValidityPeriod", func(src []byte) (any, error) {
			var x tpdu.ValidityPeriod
			_, err := x.UnmarshalBinary(src, tpdu.ValidityPeriodFormat(1+c.Fill%3))
			return &x, err
		}},
		{"SMSCAddress", func(src []byte) (any, error) {
			var x pdumode.SMSCAddress
			_, err := x.UnmarshalBinary(src)
			return &x, err
		}},
	}
	for _, v := range views {
		src := append([]byte{}, c.B...)
		x, err := v.f(src)
		y, err2 := v.f(b)
		if e := g.check(); e != nil {
			return fmt.Errorf("%s: %w", v.name, e)
		}
		for i := range src {
			src[i] ^= 0xff
		}
		if err == nil && (err2 != nil || !reflect.DeepEqual(x, y)) {
			return fmt.Errorf("%s changes with its source, from %+v to %+v", v.name, y, x)
		}
		o.ClassIf(err == nil, v.name)
	}
	o.NTIf(len(c.B) > 0)
	return nil
}

func genCodec(t *rapid.T) codecCase {
	c := codecCase{Fill: intn(t, 0, 6, "fill"), NLI: intn(t, 0, 13, "nli"), Then: septets(t, 0, 6, "then")}
	switch intn(t, 0, 4, "kind") {
	case 0:
		c.B = octets(t, 0, 20, "b")
	case 1:
		c.B = septets(t, 0, 20, "s")
	case 2:
		c.B = pbt.H(genText(t, 1))
	case 3:
		c.B = genUnits(t, 0, 8)
	case 4:
		n := intn(t, 1, 12, "n")
		c.B = append(pbt.H{byte(n), 0x91}, octets(t, n, n, "digits")...)
		for i := range c.B[2:] {
			c.B[2+i] &= 0x77
		}
	}
	if oneIn(t, 4, "long") && len(c.B) > 0 {
		c.B = bytes.Repeat(c.B, intn(t, 1, pick(t, "most", 400, 400, 3000)/len(c.B)+1, "times"))
	}
	if oneIn(t, 2, "alike") { // as long as the input or nearly
		c.Then = append(pbt.H{}, c.B...)
		for i := range c.Then {
			c.Then[i] ^= 1
		}
		if n := len(c.Then); n > 0 && oneIn(t, 2, "shorter") {
			c.Then = c.Then[:n-1]
		}
	}
	return c
}

func init() {
	pbt.Random("C22", "encode", 12000, "an encoder is used more than once", genUsed, checkUsed)
	pbt.Random("C22", "session", 160, "an encoder is used more than once", func(t *rapid.T) sessionCase {
		return sessionCase{genUsed(t), pick(t, "times", 2, 20, 257, 300, 1030, 2100)}
	}, checkSession)
	pbt.Random("C22", "segment", 16000, "a message is segmented", genSegment, checkSegMemory)
	pbt.Random("C22", "decode", 12000, "two or more calls that decode", genDecodeMemory, checkDecodeMemory)
	pbt.Random("C22", "codecs", 16000, "a non-empty input", genCodec, checkCodecs)
}

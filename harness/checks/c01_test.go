package checks

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
	"pgregory.net/rapid"
	"verif/harness/pbt"
)

type tripCase struct {
	Text string
	Opts []Opt
	Swap []int // permutes the arrival of the segments
}

// deliverAll transmits TPDUs to the collector in order, and returns what is
// completed by each.
func transmit(t tpdu.TPDU) (*tpdu.TPDU, error) {
	b, err := t.MarshalBinary()
	if err != nil {
		return nil, fmt.Errorf("marshal: %v", err)
	}
	o := sms.AsMT
	if t.Direction == tpdu.MO {
		o = sms.AsMO
	}
	r, err := sms.Unmarshal(b, o)
	if err != nil {
		return nil, fmt.Errorf("unmarshal %x: %v", b, err)
	}
	return r, nil
}

func checkTrip(c tripCase, o *pbt.Obs) error {
	fixTables()
	var s encState
	s.apply(append([]Opt{{K: "submit"}}, c.Opts...)...)
	e := s.expected([]byte(c.Text))
	got, err := sms.Encode([]byte(c.Text), lib(c.Opts)...)
	if no, err := e.refused(got, err); no {
		o.ClassIf(e.tooLong, "too long")
		o.ClassIf(e.conflict, "conflict")
		o.NTIf(e.tooLong)
		return err
	}
	col := sms.NewCollector()
	defer col.Close()
	order := shuffled(len(got), c.Swap)
	for i, k := range order {
		r, err := transmit(got[k])
		if err != nil {
			return fmt.Errorf("segment %d: %v", k, err)
		}
		set, err := col.Collect(*r)
		if err != nil {
			return fmt.Errorf("segment %d: collect: %v", k, err)
		}
		if i < len(order)-1 {
			if set != nil {
				return fmt.Errorf("a set of %d is returned after %d of %d segments", len(set), i+1, len(order))
			}
			continue
		}
		if set == nil {
			return fmt.Errorf("no set is returned after all %d segments", len(order))
		}
		text, err := sms.Decode(set)
		if err != nil {
			return fmt.Errorf("decode: %v", err)
		}
		if string(text) != c.Text {
			return fmt.Errorf("decodes to %q, not %q", text, c.Text)
		}
	}
	o.NTIf(len(c.Text) > 0)
	switch {
	case e.choice.UCS2:
		o.Class("UCS-2")
	case e.choice.HasLock && e.choice.HasShift:
		o.Class("locking and shift")
	case e.choice.HasLock:
		o.Class("locking")
	case e.choice.HasShift:
		o.Class("shift")
	default:
		o.Class("default alphabet")
	}
	o.ClassIf(len(got) > 1, "segmented")
	o.ClassIf(len(got) > 1 && order[0] != 0, "out of order")
	o.ClassIf(len(got) > 200, "over 200 segments")
	return nil
}

// genCarrier draws the direction, number and coding of a message.
func genCarrier(t *rapid.T) []Opt {
	var l []Opt
	if oneIn(t, 2, "deliver") {
		l = append(l, Opt{K: "deliver"})
	} else if oneIn(t, 2, "submit") {
		l = append(l, Opt{K: "submit"})
	}
	if oneIn(t, 2, "to") {
		l = append(l, Opt{K: "to", S: genNumber(t, "to")})
	}
	if oneIn(t, 2, "from") {
		l = append(l, Opt{K: "from", S: genNumber(t, "from")})
	}
	if oneIn(t, 6, "dcs") {
		l = append(l, Opt{K: "dcs", B: pick(t, "dcsB", byte(0), 0x10, 0x11, 0x13, 0xf0, 0xf3, 0xc0, 0xd9, 0x40, 0x52, 0x20, 0x0c)})
	}
	if oneIn(t, 6, "udh") {
		l = append(l, Opt{K: "udh", U: plainUDH(t, 20)})
	}
	return l
}

func genTrip(t *rapid.T) tripCase {
	text := genText(t, 6)
	opts := append(genCarrier(t), genOffer(t, text)...)
	return tripCase{text, opts, genSwaps(t)}
}

func genLongTrip(t *rapid.T) tripCase {
	c := tripCase{Text: genLong(t), Opts: genCarrier(t), Swap: genSwaps(t)}
	if oneIn(t, 3, "all") {
		c.Opts = append(c.Opts, Opt{K: "all"})
	}
	return c
}

// segCountCase is a message that takes a number of segments.
type segCountCase struct {
	N, Kind, Off int
}

func enumSegCounts(yield func(segCountCase) bool) {
	for n := 1; n <= 256; n++ {
		for k := 0; k < 4; k++ {
			if !yield(segCountCase{n, k, -(n*7 + k) % 5}) {
				return
			}
		}
	}
}

func checkSegCount(c segCountCase, o *pbt.Obs) error {
	kinds := []struct {
		text    string
		n, room int
		opts    []Opt
	}{
		{"hello, world ", 13, 153, nil},
		{"[€]", 6, 153, []Opt{{K: "deliver"}}}, // no boundary is at the end of an escape
		{"яд😀", 4, 67, nil},
		{"şğı ", 4, 149, []Opt{{K: "lock", N: []int{1}}}},
	}
	k := kinds[c.Kind]
	units := k.room*c.N + c.Off
	if c.N == 1 {
		units = 40
	}
	text := strings.Repeat(k.text, units/k.n)
	return checkTrip(tripCase{text, k.opts, []int{c.N, 3}}, o)
}

type chatMsg struct {
	Text string
	Opts []Opt // per call
}

type chatCase struct {
	Opts []Opt
	Msgs []chatMsg
	Swap []int
}

func checkChat(c chatCase, o *pbt.Obs) error {
	fixTables()
	var s encState
	s.apply(c.Opts...)
	enc := sms.NewEncoder(lib(c.Opts)...)
	type part struct {
		t   *tpdu.TPDU
		msg int
	}
	var parts []part
	left := make([]int, len(c.Msgs))
	multi := 0
	for i, m := range c.Msgs {
		x := s.clone()
		x.apply(m.Opts...)
		e := x.expected([]byte(m.Text))
		got, err := enc.Encode([]byte(m.Text), lib(m.Opts)...)
		if no, err := e.refused(got, err); no {
			if err != nil {
				return fmt.Errorf("message %d: %v", i, err)
			}
			continue
		}
		if len(got) > 1 {
			multi++
		}
		left[i] = len(got)
		for k, t := range got {
			r, err := transmit(t)
			if err != nil {
				return fmt.Errorf("message %d segment %d: %v", i, k, err)
			}
			parts = append(parts, part{r, i})
		}
	}
	col := sms.NewCollector()
	defer col.Close()
	for _, k := range shuffled(len(parts), c.Swap) {
		p := parts[k]
		set, err := col.Collect(*p.t)
		if err != nil {
			return fmt.Errorf("message %d: collect: %v", p.msg, err)
		}
		left[p.msg]--
		if (set != nil) != (left[p.msg] == 0) {
			return fmt.Errorf("message %d: a set of %d with %d segments missing", p.msg, len(set), left[p.msg])
		}
		if set == nil {
			continue
		}
		text, err := sms.Decode(set)
		if err != nil {
			return fmt.Errorf("message %d: decode: %v", p.msg, err)
		}
		if !bytes.Equal(text, []byte(c.Msgs[p.msg].Text)) {
			return fmt.Errorf("message %d decodes to %q, not %q", p.msg, text, c.Msgs[p.msg].Text)
		}
	}
	o.NTIf(multi > 1)
	o.ClassIf(multi > 1, "several segmented messages")
	return nil
}

func genChat(t *rapid.T) chatCase {
	c := chatCase{Opts: append(genCarrier(t), genCharsetOpts(t)...)}
	for i := intn(t, 1, 6, "msgs"); i > 0; i-- {
		m := chatMsg{Text: genText(t, 3)}
		if oneIn(t, 3, "perCall") {
			m.Opts = append(genCarrier(t), genOffer(t, m.Text)...)
		}
		c.Msgs = append(c.Msgs, m)
	}
	c.Swap = genSwaps(t)
	return c
}

func init() {
	pbt.Enum("C01", "counts", "messages of about every number of segments, in four alphabets; non-trivial: not empty", enumSegCounts, checkSegCount)
	pbt.Random("C01", "roundtrip", 40000, "a non-empty message is encoded, marshalled, unmarshalled, collected in some order and decoded", genTrip, checkTrip)
	pbt.Random("C01", "conversation", 10000, "two or more segmented messages from one encoder, mixed on arrival at one collector", genChat, checkChat)
	pbt.Random("C01", "long", 240, "messages of 253 to 257 segments", genLongTrip, checkTrip)
}

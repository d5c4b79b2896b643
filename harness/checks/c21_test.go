package checks

import (
	"fmt"
	"strings"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// RMsg is a message sent through an encoder.
type RMsg struct {
	Text   string
	Repeat int   `json:",omitempty"` // the text, this often
	Times  int   `json:",omitempty"` // sent this often
	Opts   []Opt `json:",omitempty"`
	OneOff bool  `json:",omitempty"` // through sms.Encode instead
	Own    int   `json:",omitempty"` // from counters of its own, one above their count
}

func (m RMsg) text() []byte { return []byte(strings.Repeat(m.Text, max(m.Repeat, 1))) }

type refsCase struct {
	Opts   []Opt
	Pre    int // counts before, of counters that are provided
	PreRef int
	Own    bool // counters are provided
	ByOpt  bool `json:",omitempty"` // and by an option
	Part   int  `json:",omitempty"` // which provides only the first or second
	Msgs   []RMsg
}

// ownCounters is an option that a user might define.
type ownCounters struct{ mr, cr *sms.Counter }

func (c ownCounters) ApplyEncoderOption(e *sms.Encoder) {
	if c.mr != nil {
		e.MsgCount = c.mr
	}
	if c.cr != nil {
		e.ConcatRef = c.cr
	}
}

// refs checks the references of the TPDUs of one message.
func checkRefs(got []tpdu.TPDU, mr, cr int) error {
	for i, t := range got {
		if t.MR != byte(mr+i) {
			return fmt.Errorf("TPDU %d of %d has message reference %d, not %d", i, len(got), t.MR, byte(mr+i))
		}
		seg, seq, r, ok := t.ConcatInfo()
		if len(got) == 1 {
			if ok {
				return fmt.Errorf("an unsegmented message has reference %d", r)
			}
			continue
		}
		if !ok || r != cr&0xff {
			return fmt.Errorf("segment %d of %d has reference %d, not %d", i, len(got), r, cr&0xff)
		}
		if seg != len(got) || seq != i+1 {
			return fmt.Errorf("segment %d of %d is %d of %d", i+1, len(got), seq, seg)
		}
	}
	return nil
}

func checkSequence(c refsCase, o *pbt.Obs) error {
	fixTables()
	var s encState
	s.apply(c.Opts...)
	mr, cr := 0, 0
	a, b := &sms.Counter{}, &sms.Counter{}
	opts := lib(c.Opts)
	if c.Own && c.ByOpt {
		own := ownCounters{a, b}
		switch c.Part {
		case 1:
			own.cr, c.PreRef = nil, 0
		case 2:
			own.mr, c.Pre = nil, 0
		}
		o.ClassIf(c.Part != 0, "one counter provided")
		opts = append(opts, own)
	}
	e := sms.NewEncoder(opts...)
	if c.Own {
		for ; mr < c.Pre; mr++ {
			a.Count()
		}
		for ; cr < c.PreRef; cr++ {
			b.Count()
		}
		if !c.ByOpt {
			e.MsgCount, e.ConcatRef = a, b
		}
	}
	count := func(n int, when string) error {
		a, ok1 := e.MsgCount.(*sms.Counter)
		b, ok2 := e.ConcatRef.(*sms.Counter)
		if ok1 && ok2 && (a.Read() != mr || b.Read() != cr) {
			return fmt.Errorf("%s message %d: the counters are at %d and %d, not %d and %d", when, n, a.Read(), b.Read(), mr, cr)
		}
		return nil
	}
	if err := count(0, "before"); err != nil {
		return err
	}
	start := cr
	for i, m := range c.Msgs {
		x := s.clone()
		if m.OneOff {
			x = encState{}
			x.apply(append([]Opt{{K: "submit"}}, c.Opts...)...)
		}
		x.apply(m.Opts...)
		text := m.text()
		want := x.expected(text)
		for n := 0; n < max(m.Times, 1); n++ {
			var got []tpdu.TPDU
			var err error
			per := lib(m.Opts)
			var own ownCounters
			if m.Own > 0 {
				own = ownCounters{&sms.Counter{}, &sms.Counter{}}
				for own.mr.Read() < m.Own-1 {
					own.mr.Count()
					own.cr.Count()
				}
				per = append(per, own)
			}
			if m.OneOff {
				got, err = sms.Encode(text, append(lib(c.Opts), per...)...)
			} else {
				got, err = e.Encode(text, per...)
			}
			no, err := want.refused(got, err)
			if err != nil {
				return fmt.Errorf("message %d: %w", i, err)
			}
			switch {
			case no:
				o.ClassIf(want.conflict, "conflict")
				o.ClassIf(want.tooLong, "too long")
				o.ClassIf(want.empty, "empty")
			case m.Own > 0:
				if err := checkRefs(got, m.Own, m.Own); err != nil {
					return fmt.Errorf("message %d, with its own counters: %w", i, err)
				}
				if r, want := own.mr.Read(), m.Own-1+len(got); r != want {
					return fmt.Errorf("message %d: its own counter is at %d, not %d", i, r, want)
				}
				o.Class("own counters")
			case m.OneOff:
				if err := checkRefs(got, 1, 1); err != nil {
					return fmt.Errorf("message %d, one-off: %w", i, err)
				}
				o.Class("one-off")
			default:
				if err := checkRefs(got, mr+1, cr+1); err != nil {
					return fmt.Errorf("message %d: %w", i, err)
				}
				mr += len(got)
				if len(got) > 1 {
					cr++
				}
			}
			if err := count(i, "after"); err != nil {
				return err
			}
		}
	}
	o.NTIf(cr-start > 1)
	o.ClassIf(cr-start > 1, "several segmented messages")
	o.ClassIf(mr > 256, "message references wrap")
	o.ClassIf(cr > 256, "concatenation references wrap")
	return nil
}

func genSequence(t *rapid.T) refsCase {
	var c refsCase
	if oneIn(t, 2, "opts") {
		c.Opts = append(genCarrier(t), genCharsetOpts(t)...)
	}
	if oneIn(t, 2, "own") {
		c.Own, c.ByOpt, c.Part = true, oneIn(t, 2, "byOpt"), intn(t, 0, 2, "part")
		c.Pre = pick(t, "pre", 0, 250, 254, 255, 256, 511, 1000)
		c.PreRef = pick(t, "preRef", 0, 253, 254, 255, 256, 510, 700)
	}
	for n := intn(t, 1, 8, "msgs"); n > 0; n-- {
		var m RMsg
		switch intn(t, 0, 7, "kind") {
		case 0:
			m.Text = genText(t, 3)
		case 1, 2:
			m.Text, m.Repeat = pick(t, "unit", "a", "€", "я", "😀"), intn(t, 60, 400, "repeat")
		case 3:
			m.Text = "hi"
		case 4: // empty
		case 5:
			m.Text, m.Repeat = "x", pick(t, "many", 255*153, 255*153+1)
			if !oneIn(t, 4, "tooLong") {
				m.Text, m.Repeat = "0123456789", 20
			}
		case 6: // maybe a conflict
			m.Text = pick(t, "uni", "я", "plain")
			m.Opts = []Opt{{K: "dcs", B: pick(t, "dcs", byte(0xc0), 0xd0, 0xf0, 0xe0, 8, 4)}}
		case 7:
			m.Text, m.Repeat = "long text. ", 31
			m.Opts = append(genCarrier(t), genCharsetOpts(t)...)
		}
		if m.Opts == nil && oneIn(t, 4, "perCall") {
			m.Opts = genCarrier(t)
		}
		if oneIn(t, 6, "times") {
			m.Times = pick(t, "timesN", 2, 3, 130)
			if m.Repeat > 500 {
				m.Times = 2
			}
		}
		m.OneOff = oneIn(t, 6, "oneOff")
		if oneIn(t, 8, "own") {
			m.Own = intn(t, 1, 300, "ownCount")
		}
		c.Msgs = append(c.Msgs, m)
	}
	return c
}

// enumWrap sends messages until both references have wrapped.
func enumWrap(yield func(refsCase) bool) {
	for _, k := range []string{"submit", "deliver"} {
		for _, u := range []struct {
			s string
			n int
		}{{"a", 161}, {"я", 71}, {"😀", 36}, {"a", 500}} {
			if !yield(refsCase{Opts: []Opt{{K: k}}, Msgs: []RMsg{{Text: u.s, Repeat: u.n, Times: 300}, {Text: "x", Times: 300}, {Text: u.s, Repeat: u.n, Times: 300}}}) {
				return
			}
		}
	}
}

// Segmentation with references of 8 or 16 bits.
type refs16Case struct {
	P       ref.PDU
	Pre     int
	PreMR   int
	Sizes   []int
	Sixteen bool
	NoMR    bool
	NoRef   bool
}

func checkRefs16(c refs16Case, o *pbt.Obs) error {
	t := toTPDU(c.P)
	cr, mr := &sms.Counter{}, &sms.Counter{}
	for i := 0; i < c.Pre; i++ {
		cr.Count()
	}
	for i := 0; i < c.PreMR; i++ {
		mr.Count()
	}
	var opts []tpdu.SegmentationOption
	if !c.NoRef {
		opts = append(opts, tpdu.WithConcatRef(cr))
	}
	if c.Sixteen {
		opts = append(opts, tpdu.With16BitConcatRef)
	}
	if !c.NoMR {
		opts = append(opts, tpdu.WithMR(mr))
	}
	nr, nm := c.Pre, c.PreMR
	mask := 0xff
	if c.Sixteen {
		mask = 0xffff
	}
	for k, n := range c.Sizes {
		msg := make([]byte, n)
		for i := range msg {
			msg[i] = byte(i) & 0x3f
			if msg[i] == ref.Esc {
				msg[i] = 'e'
			}
		}
		got := t.Segment(msg, opts...)
		if (len(got) == 0) != (n == 0) {
			return fmt.Errorf("message %d: %d octets give %d TPDUs", k, n, len(got))
		}
		want := 1
		if len(got) > 1 {
			nr++
			if !c.NoRef {
				want = nr & mask
			}
			o.NT()
		}
		for i, s := range got {
			nm++
			m := byte(nm)
			if c.NoMR {
				m = t.MR
			}
			if s.MR != m {
				return fmt.Errorf("message %d: TPDU %d has message reference %d, not %d", k, i, s.MR, m)
			}
			seg, seq, r, ok := s.ConcatInfo()
			if len(got) == 1 {
				if ok {
					return fmt.Errorf("message %d: unsegmented, but with a reference", k)
				}
				continue
			}
			if !ok || r != want || seg != len(got) || seq != i+1 {
				return fmt.Errorf("message %d: segment %d of %d is %d of %d with reference %d, not %d", k, i+1, len(got), seq, seg, r, want)
			}
			_, is16 := s.UDH.IE(8)
			_, is8 := s.UDH.IE(0)
			if is16 != c.Sixteen || is8 == c.Sixteen {
				return fmt.Errorf("message %d: segment %d has header %v", k, i, s.UDH)
			}
		}
		if !c.NoMR && mr.Read() != nm || !c.NoRef && cr.Read() != nr {
			return fmt.Errorf("after message %d the counters are at %d and %d, not %d and %d", k, mr.Read(), cr.Read(), nm, nr)
		}
	}
	o.ClassIf(nr > 0xffff, "16 bit references wrap")
	o.ClassIf(nr > 0xff, "8 bit references wrap")
	return nil
}

func genRefs16(t *rapid.T) refs16Case {
	c := refs16Case{P: ref.PDU{Type: pick(t, "type", ref.Submit, ref.Deliver), MR: rapid.Byte().Draw(t, "mr"), DCS: pick(t, "dcs", byte(0), 4, 8)}}
	c.P.FO = byte(c.P.Type >> 1)
	c.Sixteen = !oneIn(t, 3, "eight")
	c.Pre = pick(t, "pre", 0, 254, 255, 256, 65533, 65534, 65535, 65536, 300)
	c.PreMR = pick(t, "preMR", 0, 250, 255, 256, 1000)
	c.NoMR, c.NoRef = oneIn(t, 6, "noMR"), oneIn(t, 6, "noRef")
	for n := intn(t, 1, 6, "n"); n > 0; n-- {
		c.Sizes = append(c.Sizes, pick(t, "size", 300, 10, 0, 139, 140, 141, 160, 161, 600)&^1)
	}
	return c
}

func init() {
	pbt.Random("C21", "sequence", 8000, "two or more segmented messages are encoded", genSequence, checkSequence)
	pbt.Enum("C21", "wrap", "both references wrap", enumWrap, checkSequence)
	pbt.Random("C21", "segment", 8000, "a segmented message", genRefs16, checkRefs16)
}

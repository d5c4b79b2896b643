package checks

import (
	"fmt"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/ref"
)

type segCase struct {
	P       ref.PDU
	Msg     pbt.H
	Sixteen bool
	Ref     int // given by the counter, 0 for no counter
}

// fixedCounter counts on from a value.
type fixedCounter struct{ n int }

func (c *fixedCounter) Count() int {
	c.n++
	return c.n - 1
}

// wellFormed is false if it is not certain what may not be split.
func wellFormed(msg []byte, alpha int) bool {
	switch alpha {
	case ref.AlphaUCS2:
		if len(msg)%2 == 1 {
			return false
		}
		_, left := fromUTF16be(msg)
		if left != nil {
			return false
		}
		for i := 0; i < len(msg); i += 2 {
			if ref.IsHigh(msg[i:]) {
				if !ref.IsLow(msg[i+2:]) {
					return false
				}
				i += 2
			} else if ref.IsLow(msg[i:]) {
				return false
			}
		}
	case ref.Alpha7Bit:
		for i := 0; i < len(msg); i++ {
			if msg[i] == ref.Esc {
				i++
				if i == len(msg) || msg[i] == ref.Esc {
					return false
				}
			}
		}
	}
	return true
}

func checkSegment(c segCase, o *pbt.Obs) error {
	t := toTPDU(c.P)
	alpha := c.P.Alpha()
	var opts []tpdu.SegmentationOption
	if c.Sixteen {
		opts = append(opts, tpdu.With16BitConcatRef)
	}
	if c.Ref != 0 {
		opts = append(opts, tpdu.WithConcatRef(&fixedCounter{c.Ref}))
	}
	h := headerLen(t)
	if h == 0 {
		h = 1
	}
	iel := 5
	if c.Sixteen {
		iel = 6
	}
	bs := ref.Block(c.P.Capacity(), alpha, h+iel)
	got := t.Segment(c.Msg, opts...)
	if len(c.Msg) == 0 {
		if len(got) != 0 {
			return fmt.Errorf("no message gives %d TPDUs", len(got))
		}
		return nil
	}
	wf := wellFormed(c.Msg, alpha)
	single := ref.Block(c.P.Capacity(), alpha, headerLen(t))
	if len(c.Msg) > single {
		chunks, ok := ref.Split(c.Msg, alpha, bs)
		if !ok {
			o.NT()
			o.Class("no room for a character")
			if wf && got != nil {
				return fmt.Errorf("%d segments with room for only %d", len(got), bs)
			}
			if got == nil {
				// and so for an encoder with the template, which uses the
				// shorter references
				if alpha != ref.Alpha7Bit && !c.Sixteen {
					got, err := sms.NewEncoder(sms.WithTemplate(t)).Encode(c.Msg)
					if err == nil || got != nil {
						return fmt.Errorf("Encode gives %d TPDUs, %v", len(got), err)
					}
				}
				return nil
			}
		}
		if !wf && got == nil && bs < 4 {
			return nil // a broken character that may not end a segment
		}
		o.ClassIf(len(chunks) > 100, "over 100 segments")
		if len(chunks) > 255 {
			o.Class("over 255 segments")
			if wf && got != nil {
				return fmt.Errorf("%d segments for a message needing %d", len(got), len(chunks))
			}
			if got == nil {
				return nil
			}
		} else if got == nil && len(chunks) > 250 && !wf {
			return nil
		}
	}
	if err := checkSegments(t, alpha, c.Msg, got, c.Sixteen, wf); err != nil {
		return err
	}
	// the reference is the one given by the counter
	if len(got) > 1 {
		want := c.Ref
		if want == 0 {
			want = 1
		}
		mask := 0xff
		if c.Sixteen {
			mask = 0xffff
		}
		for i := range got {
			if _, _, r, ok := got[i].ConcatInfo(); !ok || r != want&mask {
				return fmt.Errorf("segment %d has reference %d, not %d", i, r, want&mask)
			}
		}
		o.NT()
		o.Class("segmented")
	}
	o.Class([]string{"7 bit", "8 bit", "UCS-2"}[alpha])
	o.ClassIf(!wf, "malformed")
	o.ClassIf(len(t.UDH) > 0, "with a header")
	// each fits, as marshalled
	for i := range got {
		b, err := got[i].MarshalBinary()
		if err != nil {
			if alpha == ref.AlphaUCS2 && len(got[i].UD)%2 == 1 {
				continue
			}
			return fmt.Errorf("segment %d: marshal: %v", i, err)
		}
		if n := userDataOctets(got[i], alpha); len(b) < n+1 || int(b[len(b)-n-1]) > c.P.Capacity()*8/7 {
			return fmt.Errorf("segment %d: the user data length in %x is wrong", i, b)
		}
	}
	return nil
}

// genUnitsFor draws a message of about n units.
func genMessage(t *rapid.T, alpha, n, bs int) pbt.H {
	if alpha == ref.Alpha8Bit {
		b := octets(t, min(n, 8), min(n, 8), "some")
		for len(b) < n {
			b = append(b, byte(len(b)*7), byte(len(b)>>4))
		}
		return b[:n]
	}
	two := map[int]bool{}
	for i := intn(t, 0, 5, "twos"); i > 0; i-- {
		two[intn(t, 0, max(0, n/max(bs, 1)), "blk")*bs+intn(t, -4, 3, "off")] = true
	}
	dense := oneIn(t, 4, "dense")
	bad := oneIn(t, 6, "malformed")
	var b pbt.H
	if alpha == ref.Alpha7Bit {
		pool := septets(t, 1, 6, "pool")
		for k := 0; len(b) < n; k++ {
			s := pool[k%len(pool)]
			if s == ref.Esc && !bad {
				s = 'e'
			}
			if (two[len(b)] || dense && k%3 == 0) && len(b)+2 <= n {
				b = append(b, ref.Esc)
			}
			b = append(b, s)
		}
		return b
	}
	n &^= 1
	odd, pool := oneIn(t, 3, "oddUnits"), octets(t, 1, 6, "units")
	for k := 0; len(b) < n; k++ {
		switch {
		case (two[len(b)] || two[len(b)+1] || dense && k%3 == 0) && len(b)+4 <= n:
			b = append(b, 0xd8, byte(k), 0xdc, byte(k))
		case bad && k%7 == 3:
			b = append(b, byte(0xd8+k%8), byte(k))
		case odd:
			b = append(b, []byte{0, 0xd7, 0xe0, 0xf8, 0xfe, 0xff, 0x1b}[k%7], pool[k%len(pool)])
		default:
			b = append(b, 0x04, byte(k))
		}
	}
	if bad && oneIn(t, 3, "odd") && len(b) > 1 {
		b = b[:len(b)-1]
	}
	return b
}

func genSegment(t *rapid.T) segCase {
	p := genPDU(t)
	p.UD = nil
	if p.Report() && oneIn(t, 2, "withDCS") {
		p.PI |= 2
	}
	if p.Has("DCS") && (p.Alpha() == ref.AlphaBad || oneIn(t, 2, "plainDCS")) {
		p.DCS = pick(t, "alphaDCS", byte(8), 0, 4, 0x19)
	}
	alpha := p.Alpha()
	p.UDH = nil
	if p.UDHI() {
		// leave some room
		most := p.Capacity() - 7 - 6
		p.UDH = plainUDH(t, pick(t, "udh", 10, 0, 40, most))
	}
	c := segCase{P: p, Sixteen: oneIn(t, 3, "sixteen")}
	if oneIn(t, 2, "counter") {
		c.Ref = pick(t, "ref", 1, 255, 256, 65535, 65536, 300, 77)
	}
	tp := toTPDU(p)
	h := headerLen(tp)
	single := ref.Block(p.Capacity(), alpha, h)
	if h == 0 {
		h = 1
	}
	bs := ref.Block(p.Capacity(), alpha, h+6)
	bs5 := ref.Block(p.Capacity(), alpha, h+5)
	if bs < 4 {
		panic("no room")
	}
	if !c.Sixteen {
		bs = bs5
	}
	var n int
	switch intn(t, 0, 4, "size") {
	case 0:
		n = intn(t, 0, single+2, "n")
	case 1:
		n = single + intn(t, -3, 3, "n")
	case 2, 3:
		n = bs*intn(t, 1, 5, "blocks") + intn(t, -3, 3, "n")
	case 4:
		n = bs*pick(t, "many", 254, 255, 256, 100) + intn(t, -3, 3, "n")
		if bs > 40 && !oneIn(t, 10, "big") {
			n = bs*2 + 1
		}
	}
	c.Msg = genMessage(t, alpha, max(n, 0), bs)
	return c
}

// genCramped draws a template with a header that leaves little or no room.
func genCramped(t *rapid.T) segCase {
	p := genPDU(t, ref.Deliver, ref.Submit, ref.DeliverReport, ref.SubmitReport, ref.StatusReport)
	if p.Report() {
		p.PI |= 7
	}
	p.UD, p.UDH = nil, nil
	p.DCS = pick(t, "alphaDCS", byte(0), 8, 4)
	p.FO |= 0x40
	c := segCase{P: p, Sixteen: oneIn(t, 3, "sixteen"), Ref: intn(t, 0, 300, "ref")}
	n := p.Capacity() - intn(t, -8, 14, "room") - 1
	if oneIn(t, 8, "overlong") {
		n = intn(t, 150, 255, "udhl")
	}
	// one element, or two
	if k := intn(t, 2, n-2, "first"); k != n && oneIn(t, 2, "two") {
		c.P.UDH = append(c.P.UDH, ref.IE{ID: 0x71, Data: make(pbt.H, k-2)})
		n -= k
	}
	c.P.UDH = append(c.P.UDH, ref.IE{ID: 0x70, Data: make(pbt.H, n-2)})
	c.Msg = genMessage(t, c.P.Alpha(), pick(t, "n", 1, 2, 4, 5, intn(t, 0, 40, "any")), pick(t, "bs", 2, 4))
	return c
}

type encSegCase struct {
	Text string
	Opts []Opt
}

func checkEncSegments(c encSegCase, o *pbt.Obs) error {
	fixTables()
	var s encState
	s.apply(append([]Opt{{K: "submit"}}, c.Opts...)...)
	e := s.expected([]byte(c.Text))
	got, err := sms.Encode([]byte(c.Text), lib(c.Opts)...)
	if no, err := e.refused(got, err); no {
		return err
	}
	if err := e.checkCovers(got); err != nil {
		return err
	}
	var msg []byte
	for _, t := range got {
		msg = append(msg, t.UD...)
	}
	o.NTIf(len(got) > 1)
	o.ClassIf(len(got) > 1, "segmented")
	o.ClassIf(len(got) == e.count && len(got) > 1 && e.units%e.multi < 3, "at a boundary")
	return checkSegments(e.base, e.alpha, msg, got, false, wellFormed(msg, e.alpha))
}

func genEncSegments(t *rapid.T) encSegCase {
	var text string
	if oneIn(t, 3, "text") {
		text = genText(t, 6)
	} else {
		text = genBoundary(t, 6)
	}
	return encSegCase{text, append(genCarrier(t), genOffer(t, text)...)}
}

// every length about the block boundaries, for every position of one unit that
// may not be split
type sweepCase struct {
	Alpha, N, At int
	What         pbt.H // what is there
}

// what may not be split, and what may although it resembles it
var whats = map[int][]pbt.H{
	ref.Alpha7Bit: {{0x1b, 0x41}, {0x1b, 0x65}, {0x1b, 0x00}, {0x1b, 0x0a}, {0x1a}, {0x1c}, {0x3b}, {0x5b}, {0x1b, 0x41, 0x1b, 0x41}},
	ref.AlphaUCS2: {{0xd8, 0x3d, 0xde, 0x00}, {0xd8, 0, 0xdc, 0}, {0xdb, 0xff, 0xdf, 0xff}, {0xd8, 0x3d, 0xde, 0x00, 0xdb, 0, 0xdc, 0xd8},
		{0xd7, 0xff}, {0xe0, 0}, {0x00, 0xd8}, {0x00, 0xdc}, {0x00, 0x1b}, {0xff, 0xff}, {0xfe, 0xff}, {0x58, 0x3d}, {0x98, 0}, {0xf8, 0}},
}

func enumSweep(yield func(sweepCase) bool) {
	for _, a := range []int{ref.Alpha7Bit, ref.AlphaUCS2} {
		single, multi, step := 160, 153, 1
		if a == ref.AlphaUCS2 {
			single, multi, step = 140, 134, 2
		}
		for _, n := range []int{single - step, single, single + step, 2*multi - step, 2 * multi, 2*multi + step, 3*multi - step, 3 * multi, 3*multi + step} {
			for at := 0; at+2*step <= n; at += step {
				for _, w := range whats[a] {
					if at+len(w) <= n && !yield(sweepCase{a, n, at, w}) {
						return
					}
				}
			}
		}
	}
}

func checkSweep(c sweepCase, o *pbt.Obs) error {
	p := ref.PDU{Type: ref.Submit, FO: 1}
	o.Class(fmt.Sprintf("%x", []byte(c.What)))
	msg := make(pbt.H, c.N)
	for i := range msg {
		msg[i] = 0x41
	}
	if c.Alpha == ref.AlphaUCS2 {
		p.DCS = 8
	}
	copy(msg[c.At:], c.What)
	return checkSegment(segCase{P: p, Msg: msg}, o)
}

func init() {
	pbt.Random("C02", "segment", 40000, "the message takes more than one segment", genSegment, checkSegment)
	pbt.Random("C02", "cramped", 20000, "the message takes more than one segment, or there is no room", genCramped, checkSegment)
	pbt.Random("C02", "encode", 20000, "the encoded text takes more than one segment", genEncSegments, checkEncSegments)
	pbt.Enum("C02", "positions", "the message takes more than one segment", enumSweep, checkSweep)
}

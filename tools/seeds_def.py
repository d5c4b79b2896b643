"""Bugs to plant; see seedtool.py."""
SEEDS = []

def seed(id, prop, pkg, edits, needs, breaks, demo, flags=""):
    SEEDS.append(dict(id=id, property=prop, pkg=pkg, edits=edits, needs=needs, breaks=breaks, demo=demo, flags=flags))

T = "encoding/tpdu/tpdu.go"
UDF = "encoding/tpdu/userdata.go"

seed("c01-language-first-segment-only", "C01", ".", [(T,
"""		udh := append(t.UDH[:0:0], t.UDH...)
		udh = append(udh, cfg.ief(concatRef, count, i+1))
""",
"""		udh := append(t.UDH[:0:0], t.UDH...)
		if i > 0 {
			// the national language is indicated by the first segment
			udh = udh[:0]
			for _, ie := range t.UDH {
				if ie.ID != lockingIEI && ie.ID != shiftIEI {
					udh = append(udh, ie)
				}
			}
		}
		ie := cfg.ief(concatRef, count, i+1)
		udh = append(udh, ie)
""")],
"a message in a national language long enough for several segments, with language characters after the first segment",
"segments after the first no longer announce the national language tables they were encoded with, so their text decodes to other characters",
r'''
package sms_test

import (
	"strings"
	"testing"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	msg := strings.Repeat("şğıİŞĞ ", 60)
	pdus, err := sms.Encode([]byte(msg), sms.To("123"), sms.WithCharset(1))
	if err != nil {
		t.Fatal(err)
	}
	var rx []*tpdu.TPDU
	for _, p := range pdus {
		b, err := p.MarshalBinary()
		if err != nil {
			t.Fatal(err)
		}
		q, err := sms.Unmarshal(b, sms.AsMO)
		if err != nil {
			t.Fatal(err)
		}
		rx = append(rx, q)
	}
	got, err := sms.Decode(rx)
	if err != nil || string(got) != msg {
		t.Fatalf("got %q, %v", got, err)
	}
}
''')

seed("c02-private-use-pair-split", "C02", ".", [(T,
"		if surrHighStart <= r && r < surrLowStart {",
"		if surrHighStart <= r && r < surrPrivateStart {"),
(T, """	surrHighStart = 0xd800
	surrLowStart  = 0xdc00
""",
"""	surrHighStart = 0xd800
	// high surrogates from here on are private use
	surrPrivateStart = 0xdb80
""")],
"a UCS-2 message with a character of plane 15 or 16 straddling a segment boundary",
"the surrogate pair is split between two segments",
r'''
package sms_test

import (
	"strings"
	"testing"

	"github.com/warthog618/sms"
)

func TestSeedDemo(t *testing.T) {
	pdus, err := sms.Encode([]byte(strings.Repeat("ж", 66)+"\U000F0001"+strings.Repeat("ж", 20)), sms.To("123"))
	if err != nil {
		t.Fatal(err)
	}
	for i, p := range pdus {
		n := len(p.UD)
		if hi := p.UD[n-2]; hi >= 0xd8 && hi < 0xdc {
			t.Fatalf("segment %d ends in half a character", i)
		}
	}
}
''')

seed("c02-escape-after-shorter-segment", "C02", ".", [(T,
"""		bstart = bend
		bend = bstart + bs
	}
	chunks = append(chunks, msg[bstart:])
	return chunks
}

// chunk8Bit""",
"""		esced := bend-bstart == bs-1
		bstart = bend
		bend += bs
		if esced && bend == len(msg) {
			// the escape held over would otherwise need a segment of its own
			bend--
		}
	}
	chunks = append(chunks, msg[bstart:])
	return chunks
}

// chunk8Bit""")],
"a 7-bit message in which an escape falls on a segment boundary, so is held over, and the rest then fills the next segment exactly and ends in an escaped character",
"the final escape sequence is split between segments, or an extra segment is emitted",
r'''
package sms_test

import (
	"strings"
	"testing"

	"github.com/warthog618/sms"
)

func TestSeedDemo(t *testing.T) {
	// 152 + escape at the boundary, then exactly 153 septets
	msg := strings.Repeat("a", 152) + "{" + strings.Repeat("b", 149) + "}"
	pdus, err := sms.Encode([]byte(msg), sms.To("123"))
	if err != nil {
		t.Fatal(err)
	}
	if len(pdus) != 2 {
		t.Fatalf("%d segments", len(pdus))
	}
	for i, p := range pdus {
		if len(p.UD) > 0 && p.UD[len(p.UD)-1] == 0x1b {
			t.Fatalf("segment %d ends in an escape", i)
		}
	}
}
''')

seed("c04-bom-dropped", "C04", ".", [("encode.go",
"""	case tpdu.Alpha8Bit, tpdu.AlphaUCS2:
""",
"""	case tpdu.AlphaUCS2, tpdu.Alpha8Bit:
		if alpha == tpdu.AlphaUCS2 && len(msg) > 2 && msg[0] == 0xfe && msg[1] == 0xff {
			// the byte order is implied, so no need to transmit the mark
			msg = msg[2:]
		}
""")],
"an explicit UCS-2 payload that starts with the octets FE FF",
"the first two octets of the payload are not carried",
r'''
package sms_test

import (
	"bytes"
	"testing"

	"github.com/warthog618/sms"
)

func TestSeedDemo(t *testing.T) {
	msg := []byte{0xfe, 0xff, 0x00, 0x41}
	pdus, err := sms.Encode(msg, sms.AsUCS2, sms.To("123"))
	if err != nil || len(pdus) != 1 || !bytes.Equal(pdus[0].UD, msg) {
		t.Fatalf("%v %v", pdus, err)
	}
}
''')

seed("c05-reserved-pi-bits", "C05", "encoding/tpdu", [(T,
"	if t.PI == 0x00 {\n		return b, nil\n	}\n",
"	if !t.PI.PID() && !t.PI.DCS() && !t.PI.UDL() {\n		return b, nil\n	}\n")],
"a SMS-STATUS-REPORT whose parameter indicator has only reserved or extension bits set",
"the parameter indicator is not marshalled, so the report does not survive a round trip",
r'''
package tpdu_test

import (
	"testing"

	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	p, _ := tpdu.New(tpdu.SmsStatusReport)
	p.PI = 0x80
	b, err := p.MarshalBinary()
	if err != nil {
		t.Fatal(err)
	}
	if b[len(b)-1] != 0x80 {
		t.Fatalf("%x", b)
	}
}
''')

seed("c08-stale-timer-deletes-new-pipe", "C08", ".", [("collect.go",
"""			m := c.pipes[key]
			if m == p {
				delete(c.pipes, key)
			}
			c.Unlock()
			if c.expiryHandler != nil {
""",
"""			delete(c.pipes, key)
			c.Unlock()
			if c.expiryHandler != nil {
""")],
"a segment collected between a reassembly timer firing and its cleanup taking the lock",
"the cleanup of the expired pipe removes the pipe that replaced it, so segments are lost",
r'''
package sms_test

import (
	"testing"
	"time"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	seg := func(n int) tpdu.TPDU {
		p := tpdu.TPDU{OA: tpdu.Address{TOA: 0x91, Addr: "12345"}}
		p.SetUDH(tpdu.UserDataHeader{{ID: 0, Data: []byte{7, 3, byte(n)}}})
		return p
	}
	for tries := 0; tries < 50; tries++ {
		expired := make(chan struct{}, 4)
		c := sms.NewCollector(sms.WithReassemblyTimeout(20*time.Millisecond, func([]*tpdu.TPDU) { expired <- struct{}{} }))
		c.Collect(seg(1))
		c.Lock()
		// let the timer fire and its cleanup block, with a collect queued ahead of it
		done := make(chan struct{})
		time.Sleep(15 * time.Millisecond)
		go func() { c.Collect(seg(2)); close(done) }()
		time.Sleep(30 * time.Millisecond)
		c.Unlock()
		<-done
		<-expired
		n := len(expired)
		// either the second segment is buffered in a new pipe or was expired too
		buffered := len(c.Pipes())
		if n == 0 && buffered == 0 {
			c.Close()
			t.Fatal("segment lost")
		}
		c.Close()
	}
}
''')

seed("c09-closed-checked-unlocked", "C09", ".", [("collect.go",
"""	c.Lock()
	defer c.Unlock()
	if c.closed {
		return nil, ErrClosed
	}
	segments, seqno, concatRef, ok := pdu.ConcatInfo()
	if !ok || segments < 2 {
		// short circuit single segment - no need for a pipe
		return []*tpdu.TPDU{&pdu}, nil
	}
	if seqno < 1 || seqno > segments {
		return nil, ErrReassemblyInconsistency
	}
""",
"""	if c.closed {
		return nil, ErrClosed
	}
	segments, seqno, concatRef, ok := pdu.ConcatInfo()
	if !ok || segments < 2 {
		// short circuit single segment - no need for a pipe
		return []*tpdu.TPDU{&pdu}, nil
	}
	if seqno < 1 || seqno > segments {
		return nil, ErrReassemblyInconsistency
	}
	c.Lock()
	defer c.Unlock()
""")],
"Collect racing with Close",
"a data race on the closed flag: a segment can be buffered, and its timer started, after Close returned",
r'''
package sms_test

import (
	"sync"
	"testing"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	for i := 0; i < 100; i++ {
		c := sms.NewCollector()
		var wg sync.WaitGroup
		wg.Add(2)
		go func() {
			defer wg.Done()
			for n := 1; n < 10; n++ {
				p := tpdu.TPDU{OA: tpdu.Address{TOA: 0x91, Addr: "12345"}}
				p.SetUDH(tpdu.UserDataHeader{{ID: 0, Data: []byte{7, 20, byte(n)}}})
				c.Collect(p)
			}
		}()
		go func() { defer wg.Done(); c.Close() }()
		wg.Wait()
	}
}
''', "-race")

seed("c10-shared-zone-cache", "C10", "encoding/tpdu", [("encoding/tpdu/timestamp.go",
"""		tzoffset := tz * 15 * 60 // seconds east of UTC
		loc = time.FixedZone("SCTS", tzoffset)
""",
"""		var ok bool
		if loc, ok = zones[tz]; !ok {
			loc = time.FixedZone("SCTS", tz*15*60) // seconds east of UTC
			zones[tz] = loc
		}
"""),
("encoding/tpdu/timestamp.go",
"""func (t Timestamp) String() string {
""",
"""// zones seen in timestamps
var zones = map[int]*time.Location{}

func (t Timestamp) String() string {
""")],
"timestamps with zones other than UTC being decoded by several goroutines",
"concurrent decoding writes an unsynchronised map",
r'''
package tpdu_test

import (
	"sync"
	"testing"

	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for z := 0; z < 70; z++ {
				b := []byte{0x91, 0x50, 0x20, 0x11, 0x11, 0x11, byte(z%10<<4 | z/10)}
				var ts tpdu.Timestamp
				ts.UnmarshalBinary(b)
			}
		}()
	}
	wg.Wait()
}
''', "-race")

seed("c12-cr-only", "C12", "encoding/gsm7", [("encoding/gsm7/7bit.go",
"	u := Unpack7Bit(p, fillBits)\n	// remove any trailing filler\n",
"	u := Unpack7Bit(p, fillBits)\n	if n := len(u); n%8 == 0 && n > 8 && u[n-1] == cr && u[n-2] == cr {\n		// the CR of the last character, and its filler\n		return u[:n-2]\n	}\n	// remove any trailing filler\n"),
("encoding/gsm7/7bit.go",
"	b := Pack7Bit(u, fillBits)\n	if len(b) == 0 {\n		return append(b[:0:0], b...)\n	}\n",
"	b := Pack7Bit(u, fillBits)\n	if len(b) == 0 {\n		return b\n	}\n")],
"USSD text of 16 or more septets, 8n-1 long, ending in CR with no fill bits",
"the trailing CR of the text is removed along with the filler",
r'''
package gsm7_test

import (
	"bytes"
	"testing"

	"github.com/warthog618/sms/encoding/gsm7"
)

func TestSeedDemo(t *testing.T) {
	u := append(bytes.Repeat([]byte{0x41}, 14), 0x0d)
	if got := gsm7.Unpack7BitUSSD(gsm7.Pack7BitUSSD(u, 0), 0); !bytes.Equal(got, u) {
		t.Fatalf("%x", got)
	}
}
''')

seed("c14-high-planes", "C14", "encoding/ucs2", [("encoding/ucs2/ucs2.go",
"""	u := utf16.Encode(src)
	dst := make([]byte, len(u)*2)
	wi := 0
	for _, r := range u {
		binary.BigEndian.PutUint16(dst[wi:], uint16(r))
		wi += 2
	}
	return dst
""",
"""	dst := make([]byte, 0, len(src)*2)
	for _, r := range src {
		if r >= 0x10000 && r <= unicode.MaxRune {
			hi := 0xd800 | uint16(r>>10-0x40)&0x1ff
			dst = append(dst, byte(hi>>8), byte(hi))
			r = 0xdc00 | r&0x3ff
		} else if r > 0xffff || r >= 0xd800 && r < 0xe000 {
			r = unicode.ReplacementChar
		}
		dst = append(dst, byte(r>>8), byte(r))
	}
	return dst
""")],
"a character from plane 9 or above (U+90000 onwards, such as tags, or private use)",
"the high surrogate is computed from too few bits, so a different character is encoded",
r'''
package ucs2_test

import (
	"testing"

	"github.com/warthog618/sms/encoding/ucs2"
)

func TestSeedDemo(t *testing.T) {
	r, err := ucs2.Decode(ucs2.Encode([]rune{'a', 0xE0041, 'b'}))
	if err != nil || len(r) != 3 || r[1] != 0xE0041 {
		t.Fatalf("%U %v", r, err)
	}
}
''')

seed("c15-alphanumeric-trailing-at", "C15", "encoding/tpdu", [("encoding/tpdu/address.go",
"		if (len(u)*7+3)/4 > l {\n",
"		if n := len(u); n > 0 && n%8 == 0 && u[n-1] == 0 {\n")],
"an alphanumeric address of exactly eight characters, the last of which is '@'",
"the final '@' is taken for fill and dropped",
r'''
package tpdu_test

import (
	"testing"

	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	a := tpdu.Address{TOA: 0xd0, Addr: "abcdefg@"}
	b, err := a.MarshalBinary()
	if err != nil {
		t.Fatal(err)
	}
	var q tpdu.Address
	if _, err := q.UnmarshalBinary(b); err != nil || q != a {
		t.Fatalf("%v %v", q, err)
	}
}
''')

seed("c17-week-boundary", "C17", "encoding/tpdu", [("encoding/tpdu/validityperiod.go",
"	case d < time.Hour*24*30:\n		return 166 + byte(d/(time.Hour*24))\n",
"	case d <= time.Hour*24*30+time.Hour*24*4:\n		return 166 + byte(d/(time.Hour*24))\n")],
"a relative validity period between 31 and 34 days",
"the code used is in the range of weeks, so it decodes to a longer period than asked for",
r'''
package tpdu_test

import (
	"testing"
	"time"

	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	for d := time.Hour; d < 60*24*time.Hour; d += time.Hour {
		var v, q tpdu.ValidityPeriod
		v.SetRelative(d)
		b, err := v.MarshalBinary()
		if err != nil {
			t.Fatal(err)
		}
		if _, err := q.UnmarshalBinary(b, tpdu.VpfRelative); err != nil || q.Duration > d {
			t.Fatalf("%v -> %v", d, q.Duration)
		}
	}
}
''')

seed("c17-seconds-rounded", "C17", "encoding/tpdu", [("encoding/tpdu/validityperiod.go",
"			secs := v.Duration / time.Second\n",
"			secs := v.Duration.Round(time.Second) / time.Second\n")],
"an enhanced validity period in seconds that is not a whole number of seconds",
"the period is rounded up past what was asked for",
r'''
package tpdu_test

import (
	"testing"
	"time"

	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	var v, q tpdu.ValidityPeriod
	v.SetEnhanced(90*time.Second+700*time.Millisecond, byte(tpdu.EvpfRelativeSeconds))
	b, err := v.MarshalBinary()
	if err != nil {
		t.Fatal(err)
	}
	if _, err := q.UnmarshalBinary(b, tpdu.VpfEnhanced); err != nil || q.Duration > v.Duration {
		t.Fatal(q.Duration, err)
	}
}
''')

seed("c19-first-ie", "C19", "encoding/tpdu", [(UDF,
"	for i := len(udh) - 1; i >= 0; i-- {\n",
"	for i := len(udh) - 1; i > 0; i-- {\n"),
(UDF, "	return InformationElement{}, false\n",
"	if len(udh) == 1 && udh[0].ID == id {\n		return udh[0], true\n	}\n	return InformationElement{}, false\n")],
"looking up an element which is the first of several in the header",
"the first element of a header with several is not found, so language or concatenation is ignored",
r'''
package tpdu_test

import (
	"testing"

	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	u := tpdu.UserDataHeader{{ID: 1, Data: []byte{1}}, {ID: 2, Data: []byte{2}}}
	if _, ok := u.IE(1); !ok {
		t.Fatal("not found")
	}
}
''')

seed("c21-16bit-reference-wraps", "C21", "encoding/tpdu", [(T,
"	binary.BigEndian.PutUint16(ie.Data, uint16(msgCount))\n",
"	binary.BigEndian.PutUint16(ie.Data, uint16(msgCount%maxConcatRef))\n"),
(T, "const (\n	esc byte = 0x1b\n)\n", "const (\n	esc byte = 0x1b\n	// references wrap beyond this\n	maxConcatRef = 0xffff\n)\n")],
"16-bit references, and the 65535th message",
"the reference 65535 is replaced with 0, repeating that of the next message",
r'''
package tpdu_test

import (
	"testing"

	"github.com/warthog618/sms/encoding/tpdu"
)

type seedCounter int

func (c *seedCounter) Count() int { *c++; return int(*c) }

func TestSeedDemo(t *testing.T) {
	c := seedCounter(0xfffe)
	p, _ := tpdu.NewSubmit()
	for _, want := range []int{0xffff, 0} {
		s := p.Segment(make([]byte, 400), tpdu.With16BitConcatRef, tpdu.WithConcatRef(&c))
		if _, _, ref, ok := s[0].ConcatInfo(); !ok || ref != want {
			t.Fatalf("reference %d, not %d", ref, want)
		}
	}
}
''')

seed("c22-decode-pdumode-alias", "C22", "encoding/tpdu", [(UDF,
"		ie.Data = append([]byte(nil), src[ri:ri+iedl]...)\n",
"		ie.Data = src[ri : ri+iedl]\n")],
"reusing the receive buffer after unmarshalling a TPDU with a user data header",
"the header of an already decoded TPDU changes with the buffer",
r'''
package tpdu_test

import (
	"testing"

	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	b := []byte{0x51, 0x01, 0x02, 0x91, 0x21, 0x00, 0x04, 0x00, 0x06, 0x04, 0x03, 0x02, 0xaa, 0xbb, 0x11}
	b[0] = 0x41
	b = append(b[:7:7], 0x06, 0x04, 0x03, 0x02, 0xaa, 0xbb, 0x11)
	q := tpdu.TPDU{Direction: tpdu.MO}
	if err := q.UnmarshalBinary(b); err != nil {
		t.Fatal(err)
	}
	for i := range b {
		b[i] = 0
	}
	if q.UDH[0].Data[0] != 0xaa {
		t.Fatal(q.UDH)
	}
}
''')

seed("c23-first-seqno-unchecked", "C23", ".", [("sms.go",
"""	for i, s := range segments {
		segs, seqno, concatRef, ok := s.ConcatInfo()
""",
"""	for i, s := range segments[1:] {
		i++ // the first is the basis of the comparison
		segs, seqno, concatRef, ok := s.ConcatInfo()
""")],
"a set whose first segment has the wrong sequence number while all others are right",
"a set that is not a complete message is accepted as one",
r'''
package sms_test

import (
	"testing"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	seg := func(n int) *tpdu.TPDU {
		p := tpdu.TPDU{}
		p.SetUDH(tpdu.UserDataHeader{{ID: 0, Data: []byte{7, 2, byte(n)}}})
		return &p
	}
	if sms.IsCompleteMessage([]*tpdu.TPDU{seg(2), seg(2)}) {
		t.Fatal("accepted")
	}
}
''')

seed("c25-upper-case-digits", "C25", "encoding/semioctet", [("encoding/semioctet/semioctet.go",
"""		e, ok := encodeDigits[d]
""",
"""		e, ok := encodeDigits[d|0x20]
""")],
"digits to encode that include control characters (or upper case letters)",
"characters which are not digits are encoded as if they were",
r'''
package semioctet_test

import (
	"testing"

	"github.com/warthog618/sms/encoding/semioctet"
)

func TestSeedDemo(t *testing.T) {
	if b, err := semioctet.Encode([]byte{0x31, 0x11}); err == nil {
		t.Fatalf("%x", b)
	}
}
''')

seed("c26-srr-last-only", "C26", ".", [(T,
"""		pdus[i].UD = chunks[i]
""",
"""		if pdus[i].UD = chunks[i]; i < count-1 {
			// one status report, for the last segment, is sufficient
			pdus[i].FirstOctet &^= FoSRR
		}
""")],
"a template requesting a status report, and a message of several segments",
"the status report request of the template is dropped from all but the last segment",
r'''
package sms_test

import (
	"testing"

	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	p, _ := tpdu.NewSubmit()
	p.FirstOctet |= tpdu.FoSRR
	for i, s := range p.Segment(make([]byte, 400)) {
		if !s.FirstOctet.SRR() {
			t.Fatalf("segment %d", i)
		}
	}
}
''')

seed("c27-ton-clears-extension", "C27", "encoding/tpdu", [("encoding/tpdu/address.go",
"	a.TOA = (a.TOA &^ 0x70) | (byte(ton&0x7) << 4)\n",
"	a.TOA = 0x80 | (byte(ton&0x7) << 4) | (a.TOA & 0x07)\n")],
"changing the type of number of an address with a numbering plan above 7 (national, private, ERMES)",
"the numbering plan is changed along with the type of number",
r'''
package tpdu_test

import (
	"testing"

	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	a := tpdu.NewAddress()
	a.SetNumberingPlan(tpdu.NpPrivate)
	a.SetTypeOfNumber(tpdu.TonNational)
	if a.NumberingPlan() != tpdu.NpPrivate {
		t.Fatal(a.NumberingPlan())
	}
}
''')

seed("c28-first-header-for-all", "C28", ".", [("sms.go",
"		d, err := tpdu.DecodeUserData(ud, s.UDH, a, cfg.dopts...)\n",
"		d, err := tpdu.DecodeUserData(ud, segments[0].UDH, a, cfg.dopts...)\n")],
"a concatenated message whose segments use different national language tables",
"all segments are decoded with the language of the first",
r'''
package sms_test

import (
	"testing"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	a := &tpdu.TPDU{UD: []byte("A")}
	a.SetUDH(tpdu.UserDataHeader{{ID: 0, Data: []byte{7, 2, 1}}})
	b := &tpdu.TPDU{UD: []byte{0x07}}
	b.SetUDH(tpdu.UserDataHeader{{ID: 25, Data: []byte{1}}, {ID: 0, Data: []byte{7, 2, 2}}})
	got, err := sms.Decode([]*tpdu.TPDU{a, b})
	if err != nil || string(got) != "Aı" {
		t.Fatalf("%q %v", got, err)
	}
}
''')

seed("c28-shift-implies-locking", "C28", "encoding/tpdu", [(UDF,
"				if _, ok := cfg.shift[nli]; ok {\n",
"				if _, ok := cfg.locking[nli]; ok || cfg.shift[nli] {\n")],
"a message announcing a shift table, decoded with only the locking table of that language permitted",
"a character set that was not permitted is used",
r'''
package tpdu_test

import (
	"testing"

	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	got, err := tpdu.DecodeUserData([]byte{0x1b, 'c'}, tpdu.UserDataHeader{{ID: 24, Data: []byte{1}}}, tpdu.Alpha7Bit, tpdu.WithLockingCharset(1))
	if err != nil || string(got) != "c" {
		t.Fatalf("%q %v", got, err)
	}
}
''')


# second batch

seed("c03-charset-replaces-shift", "C03", "encoding/tpdu", [(UDF,
'''	e.locking = append(e.locking, o.nli...)
	e.shift = append(e.shift, o.nli...)
	return e
''',
'''	e.locking = append(e.locking, o.nli...)
	e.shift = append([]int(nil), o.nli...)
	return e
''')],
"a shift charset offered by an option that precedes WithCharset for another language",
"the shift table offered first is forgotten, so the message falls back to UCS-2",
r'''
package tpdu_test

import (
	"testing"

	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	_, _, alpha := tpdu.EncodeUserData([]byte("ç"), tpdu.WithShiftCharset(2), tpdu.WithCharset(6))
	if alpha != tpdu.Alpha7Bit {
		t.Fatal(alpha)
	}
}
''')

seed("c04-trailing-nul", "C04", ".", [(UDF,
"		return ud, nil\n",
"		n := len(ud)\n		for n > 2 && ud[n-1] == 0 && ud[n-2] == 0 {\n			// padding\n			n--\n		}\n		return ud[:n], nil\n")],
"an 8-bit payload, or segment of one, which ends in two or more zero octets",
"the trailing zero octets are dropped when decoded",
r'''
package sms_test

import (
	"bytes"
	"testing"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	msg := []byte{1, 2, 0, 0}
	pdus, err := sms.Encode(msg, sms.As8Bit)
	if err != nil {
		t.Fatal(err)
	}
	got, err := sms.Decode([]*tpdu.TPDU{&pdus[0]})
	if err != nil || !bytes.Equal(got, msg) {
		t.Fatalf("%x %v", got, err)
	}
}
''')


seed("c06-empty-shift-ie", "C06", "encoding/tpdu", [(UDF,
'''		if ie, ok := udh.IE(shiftIEI); ok {
			if len(ie.Data) >= 1 {
				nli := int(ie.Data[0])
''',
'''		if ie, ok := udh.IE(shiftIEI); ok {
			if ie.Data != nil {
				nli := int(ie.Data[0])
''')],
"a received TPDU with a national language shift element without data, built with an empty rather than absent slice",
"decoding the user data panics",
r'''
package tpdu_test

import (
	"testing"

	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	got, err := tpdu.DecodeUserData([]byte("a"), tpdu.UserDataHeader{{ID: 24, Data: []byte{}}}, tpdu.Alpha7Bit, tpdu.WithAllCharsets)
	if err != nil || string(got) != "a" {
		t.Fatal(got, err)
	}
}
''')


seed("c07-plan-ignored", "C07", ".", [("collect.go",
"			pdu.OA.TOA,\n			pdu.OA.Addr,\n",
"			pdu.OA.TOA&^0x0e, // as only the type of the number is significant\n			pdu.OA.Addr,\n")],
"two originators with the same digits and type of number but numbering plans that differ, with the same reference",
"segments of messages from different originators are mixed",
r'''
package sms_test

import (
	"testing"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	seg := func(toa byte, n int) tpdu.TPDU {
		p := tpdu.TPDU{OA: tpdu.Address{TOA: toa, Addr: "12345"}}
		p.SetUDH(tpdu.UserDataHeader{{ID: 0, Data: []byte{7, 2, byte(n)}}})
		return p
	}
	c := sms.NewCollector()
	defer c.Close()
	if d, err := c.Collect(seg(0x91, 1)); d != nil || err != nil {
		t.Fatal(d, err)
	}
	if d, err := c.Collect(seg(0x99, 2)); d != nil || err != nil {
		t.Fatal("mixed", d, err)
	}
}
''')

seed("c07-reference-octet", "C07", ".", [("collect.go",
'''			pdu.OA.TOA,
			pdu.OA.Addr,
			concatRef,
			segments)
''',
'''			pdu.OA.TOA,
			pdu.OA.Addr,
			byte(concatRef),
			segments)
''')],
"two messages from an originator with 16-bit references that are equal modulo 256, interleaved",
"segments of different messages are mixed, or rejected as duplicates",
r'''
package sms_test

import (
	"testing"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	seg := func(hi byte, n int) tpdu.TPDU {
		p := tpdu.TPDU{OA: tpdu.Address{TOA: 0x91, Addr: "12345"}}
		p.SetUDH(tpdu.UserDataHeader{{ID: 8, Data: []byte{hi, 7, 2, byte(n)}}})
		return p
	}
	c := sms.NewCollector()
	defer c.Close()
	c.Collect(seg(1, 1))
	if d, err := c.Collect(seg(2, 2)); d != nil || err != nil {
		t.Fatal("mixed", d, err)
	}
}
''')

seed("c08-duplicate-extends", "C08", ".", [("collect.go",
'''		if p.segments[seqno-1] != nil {
			return nil, ErrDuplicateSegment
		}
		if p.cleanup''',
'''		if dup := p.segments[seqno-1] != nil; dup {
			if p.cleanup != nil {
				// the sender is still active
				p.cleanup.Reset(c.duration)
			}
			return nil, ErrDuplicateSegment
		}
		if p.cleanup''')],
"a duplicate of a buffered segment arriving before, or as, the reassembly times out",
"the duplicate postpones the expiry, or has the message expire twice",
r'''
package sms_test

import (
	"testing"
	"time"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	seg := func(n int) tpdu.TPDU {
		p := tpdu.TPDU{OA: tpdu.Address{TOA: 0x91, Addr: "12345"}}
		p.SetUDH(tpdu.UserDataHeader{{ID: 0, Data: []byte{7, 2, byte(n)}}})
		return p
	}
	ch := make(chan struct{}, 4)
	c := sms.NewCollector(sms.WithReassemblyTimeout(1000*time.Millisecond, func([]*tpdu.TPDU) { ch <- struct{}{} }))
	defer c.Close()
	c.Collect(seg(1))
	for i := 0; i < 30; i++ {
		time.Sleep(100 * time.Millisecond)
		if _, err := c.Collect(seg(1)); err == nil {
			break // expired
		}
	}
	select {
	case <-ch:
	default:
		t.Fatal("not expired after 3 timeouts")
	}
}
''')

seed("c08-expiry-of-a-message-with-most", "C08", ".", [("collect.go",
'''	if c.duration != 0 {
		p.cleanup = time.AfterFunc(c.duration, func() {
''',
'''	if d := c.duration; d != 0 {
		if p.frags > 1 && p.frags == segments-1 {
			// nearly there, so be patient
			d += c.duration
		}
		p.cleanup = time.AfterFunc(d, func() {
''')],
"a message of three or more segments that lacks only one when it should time out",
"the message expires late",
r'''
package sms_test

import (
	"testing"
	"time"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	ch := make(chan time.Time, 4)
	c := sms.NewCollector(sms.WithReassemblyTimeout(1500*time.Millisecond, func([]*tpdu.TPDU) { ch <- time.Now() }))
	defer c.Close()
	for n := 1; n < 3; n++ {
		p := tpdu.TPDU{OA: tpdu.Address{TOA: 0x91, Addr: "12345"}}
		p.SetUDH(tpdu.UserDataHeader{{ID: 0, Data: []byte{7, 3, byte(n)}}})
		c.Collect(p)
	}
	start := time.Now()
	if d := (<-ch).Sub(start); d > 2500*time.Millisecond {
		t.Fatal(d)
	}
}
''')


seed("c09-pipes-read-unlocked", "C09", ".", [("collect.go",
'''	c.Lock()
	m := map[string][]*tpdu.TPDU{}
	for k, v := range c.pipes {
''',
'''	m := map[string][]*tpdu.TPDU{}
	if len(c.pipes) == 0 {
		return m
	}
	c.Lock()
	for k, v := range c.pipes {
''')],
"Pipes called while another goroutine collects",
"the map of pipes is read without the lock",
r'''
package sms_test

import (
	"sync"
	"testing"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	c := sms.NewCollector()
	defer c.Close()
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 500; i++ {
			p := tpdu.TPDU{OA: tpdu.Address{TOA: 0x91, Addr: "12345"}}
			p.SetUDH(tpdu.UserDataHeader{{ID: 0, Data: []byte{byte(i / 2), 2, byte(i%2 + 1)}}})
			c.Collect(p)
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 500; i++ {
			c.Pipes()
		}
	}()
	wg.Wait()
}
''', "-race")

seed("c10-scratch-digits", "C10", "encoding/tpdu", [("encoding/semioctet/semioctet.go",
"	b := make([]byte, l)\n",
"	b := scratch[:0:l]\n	if l > len(scratch) {\n		b = make([]byte, 0, l)\n	}\n	b = b[:l]\n"),
("encoding/semioctet/semioctet.go",
"var encodeDigits = map",
"// addresses are short, so spare the allocation\nvar scratch [12]byte\n\nvar encodeDigits = map")],
"two goroutines marshalling TPDUs with addresses at the same time",
"the digits of one address end up in the other",
r'''
package tpdu_test

import (
	"sync"
	"testing"

	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 100; i++ {
				a := tpdu.NewAddress(tpdu.FromNumber("12345"))
				a.MarshalBinary()
			}
		}()
	}
	wg.Wait()
}
''', "-race")

seed("c10-encoder-option-slices", "C10", ".", [("options.go",
'''func (o CharsetOption) ApplyEncoderOption(e *Encoder) {
	e.eopts = append(e.eopts, tpdu.WithCharset(o.nli...))
}
''',
'''func (o CharsetOption) ApplyEncoderOption(e *Encoder) {
	nli := o.nli
	for i, n := range nli {
		if n == 0 {
			// the default is always available
			nli[i] = nli[0]
		} else if i > 0 && n < nli[i-1] {
			// in order
			nli[i], nli[i-1] = nli[i-1], n
		}
	}
	e.eopts = append(e.eopts, tpdu.WithCharset(nli...))
}
''')],
"one charset option with several languages, not in ascending order, used for concurrent calls",
"the option itself is written by each call that it is passed to: a data race, and a different order of preference",
r'''
package sms_test

import (
	"sync"
	"testing"

	"github.com/warthog618/sms"
)

func TestSeedDemo(t *testing.T) {
	o := sms.WithCharset(3, 1)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sms.Encode([]byte("ş"), o)
		}()
	}
	wg.Wait()
}
''', "-race")


seed("c13-kannada-digit", "C13", "encoding/gsm7/charset", [("encoding/gsm7/charset/kannada.go",
"		0x1c: '೦',", "		0x1c: '೦',")], "", "", "")
SEEDS.pop()

seed("c13-encoder-prefers-last", "C13", "encoding/gsm7/charset", [("encoding/gsm7/charset/charset.go",
"		if ko, ok := e[v]; !ok || ko > k {\n",
"		if ko, ok := e[v]; !ok || ko < k {\n")],
"a character found at two positions of a table",
"", "")
SEEDS.pop()


seed("c16-zone-beyond-15h", "C16", "encoding/tpdu", [("encoding/tpdu/timestamp.go",
"		tzoffset := tz * 15 * 60 // seconds east of UTC\n",
"		tzoffset := int(int16(tz * 15 * 60)) // seconds east of UTC\n")],
"a zone more than 9 hours from UTC (Tokyo at +9 is just within reach, Sydney is not)",
"the offset wraps, so the instant and the zone are wrong",
r'''
package tpdu_test

import (
	"testing"
	"time"

	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	ts := tpdu.Timestamp{Time: time.Date(2021, 1, 1, 1, 0, 0, 0, time.FixedZone("AEST", 10*3600))}
	b, err := ts.MarshalBinary()
	if err != nil {
		t.Fatal(err)
	}
	var q tpdu.Timestamp
	if err := q.UnmarshalBinary(b); err != nil || !q.Equal(ts.Time) {
		t.Fatal(q, err)
	}
}
''')


seed("c20-toa-high-bit", "C20", "encoding/pdumode", [("encoding/pdumode/smscaddress.go",
"	dst[1] = a.TOA\n",
"	dst[1] = a.TOA | 0x80 // always set\n")],
"a SMSC address whose type octet has a clear top bit",
"the PDU does not survive a round trip",
r'''
package pdumode_test

import (
	"testing"

	"github.com/warthog618/sms/encoding/pdumode"
)

func TestSeedDemo(t *testing.T) {
	p, err := pdumode.UnmarshalHexString("0211" + "21" + "0405")
	if err != nil {
		t.Fatal(err)
	}
	if h, err := p.MarshalHexString(); err != nil || h != "0211210405" {
		t.Fatal(h, err)
	}
}
''')

seed("c21-reference-for-singles", "C21", ".", [(T,
'''	concatRef := 1
	if cfg.cr != nil {
		concatRef = cfg.cr.Count()
	}
	for i''',
'''	for i'''),
(T, '''	bs := t.UDBlockSize()
	if len(msg) <= bs {
''',
'''	concatRef := 1
	bs := t.UDBlockSize()
	if cfg.cr != nil && (len(msg) > bs || t.UDHI()) {
		// may need a concatenation IE
		concatRef = cfg.cr.Count()
	}
	if len(msg) <= bs {
''')],
"single segment messages with a user data header (a national language) among long messages",
"a concatenation reference is used up by a message that is not concatenated",
r'''
package sms_test

import (
	"testing"

	"github.com/warthog618/sms"
)

func TestSeedDemo(t *testing.T) {
	e := sms.NewEncoder(sms.WithCharset(1))
	if p, err := e.Encode([]byte("ğ")); err != nil || len(p) != 1 {
		t.Fatal(p, err)
	}
	p, err := e.Encode(make([]byte, 400))
	if err != nil || len(p) < 2 {
		t.Fatal(p, err)
	}
	if _, _, ref, _ := p[0].ConcatInfo(); ref != 1 {
		t.Fatal(ref)
	}
}
''')

seed("c10-counter-reads-separately", "C10", ".", [("encode.go",
"	return int(atomic.AddInt64(&c.c, 1))\n",
"	atomic.AddInt64(&c.c, 1)\n	return int(atomic.LoadInt64(&c.c))\n")],
"two goroutines counting at the same time",
"two messages are given the same reference",
r'''
package sms_test

import (
	"sync"
	"testing"

	"github.com/warthog618/sms"
)

func TestSeedDemo(t *testing.T) {
	for round := 0; round < 50; round++ {
		var c sms.Counter
		var mu sync.Mutex
		seen := map[int]bool{}
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var l []int
				for i := 0; i < 2000; i++ {
					l = append(l, c.Count())
				}
				mu.Lock()
				defer mu.Unlock()
				for _, v := range l {
					if seen[v] {
						t.Errorf("%d twice", v)
					}
					seen[v] = true
				}
			}()
		}
		wg.Wait()
		if t.Failed() {
			return
		}
	}
}
''')

seed("c22-option-slice-kept", "C22", ".", [(UDF,
'''	e.locking = append(e.locking, o.nli...)
	e.shift = append(e.shift, o.nli...)
	return e
''',
'''	if len(e.locking) == 0 && len(e.shift) == 0 {
		// most likely the only ones
		e.locking, e.shift = o.nli, o.nli
	} else {
		e.locking = append(e.locking, o.nli...)
		e.shift = append(e.shift, o.nli...)
	}
	return e
''')],
"a charset option built from part of the caller's slice, followed by another charset option",
"the caller's slice is written beyond the part that was passed",
r'''
package sms_test

import (
	"testing"

	"github.com/warthog618/sms"
)

func TestSeedDemo(t *testing.T) {
	nli := []int{1, 2, 3}
	sms.Encode([]byte("ж"), sms.WithCharset(nli[:1]...), sms.WithLockingCharset(13))
	if nli[1] != 2 {
		t.Fatal(nli)
	}
}
''')

seed("c23-too-many", "C23", ".", [("sms.go",
"	if baseSegs != len(segments) {\n",
"	if baseSegs > len(segments) {\n")],
"more segments than the message announces, numbered consecutively",
"a set with surplus segments is accepted as complete",
r'''
package sms_test

import (
	"testing"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	seg := func(n int) *tpdu.TPDU {
		p := tpdu.TPDU{}
		p.SetUDH(tpdu.UserDataHeader{{ID: 0, Data: []byte{7, 2, byte(n)}}})
		return &p
	}
	if sms.IsCompleteMessage([]*tpdu.TPDU{seg(1), seg(2), seg(3)}) {
		t.Fatal("accepted")
	}
}
''')

seed("c24-empty-message", "C24", "cmd/smsdeliver", [("cmd/smsdeliver/smsdeliver.go",
"		if msg != nil {\n",
"		if len(msg) > 0 {\n")],
"a SMS-DELIVER with no text",
"smsdeliver does not report the message",
r'''
package main

import (
	"os/exec"
	"strings"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	out, err := exec.Command("go", "run", ".", "00"+"04912143"+"0000"+"02502011111100"+"00").CombinedOutput()
	if err != nil || !strings.Contains(string(out), "+1234") {
		t.Fatalf("%s %v", out, err)
	}
}
''')

seed("c24-deliver-after-error", "C24", "cmd/smsdeliver", [("cmd/smsdeliver/smsdeliver.go",
'''			log.Printf("unmarshal error: %v", err)
			continue
''',
'''			log.Printf("unmarshal error: %v", err)
			break
''')],
"a PDU that can not be unmarshalled among several",
"the messages of the PDUs that follow are not shown",
r'''
package main

import (
	"os/exec"
	"strings"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	out, err := exec.Command("go", "run", ".", "0004", "0004912143000002502011111100"+"0161").CombinedOutput()
	if err != nil || !strings.Contains(string(out), "+1234: a") {
		t.Fatalf("%s %v", out, err)
	}
}
''')


seed("c11-sixteenth-at", "C11", "encoding/gsm7", [("encoding/gsm7/7bit.go",
'''	if fillBits > 0 {
		u = u[1:]
	}
	return u
''',
'''	last := len(u) - 1
	switch {
	case fillBits > 0:
		u = u[1:]
	case last > 8 && len(p)%7 == 0 && u[last] == 0:
		// padding
		u = u[:last]
	}
	return u
''')],
"16, 24, ... septets of which the last is zero (@), with no fill",
"the last septet is taken for padding and lost when unpacked",
r'''
package gsm7_test

import (
	"testing"

	"github.com/warthog618/sms/encoding/gsm7"
)

func TestSeedDemo(t *testing.T) {
	u := []byte("abcdefghabcdefg\x00")
	got := gsm7.Unpack7Bit(gsm7.Pack7Bit(u, 0), 0)
	if string(got) != string(u) {
		t.Fatal(got)
	}
}
''')

seed("c11-long-with-fill", "C11", "encoding/gsm7", [("encoding/gsm7/7bit.go",
'''	for _, s = range u {
		if rbits == 0 {
''',
'''	for n := range u {
		s = u[n]
		if n == 160 {
			// the packed octets are aligned again
			r, rbits = 0, 0
		}
		if rbits == 0 {
''')],
"more than 160 septets, with fill bits",
"bits of the 160th septet are lost",
r'''
package gsm7_test

import (
	"bytes"
	"testing"

	"github.com/warthog618/sms/encoding/gsm7"
)

func TestSeedDemo(t *testing.T) {
	u := bytes.Repeat([]byte{0x7f}, 170)
	for fill := 0; fill < 7; fill++ {
		got := gsm7.Unpack7Bit(gsm7.Pack7Bit(u, fill), fill)
		if !bytes.HasPrefix(got, u) {
			t.Fatal(fill, got)
		}
	}
}
''')


seed("c13-reserved-language", "C13", "encoding/gsm7/charset", [("encoding/gsm7/charset/charset.go",
"	if di, ok := extDecoder[nli]; ok {\n",
"	if di, ok := extDecoder[nli&0x7f]; ok {\n")],
"a reserved language identifier of 129 or more",
"the shift table of another language is used to decode, rather than the default",
r'''
package charset_test

import (
	"testing"

	"github.com/warthog618/sms/encoding/gsm7/charset"
)

func TestSeedDemo(t *testing.T) {
	if r := charset.NewExtDecoder(128 + charset.Turkish)[0x63]; r != 0 {
		t.Fatal(string(r))
	}
}
''')


seed("c06-user-data-kept", "C06", "encoding/tpdu", [(T,
'''		t.UD = append([]byte(nil), src[ri:]...)
''',
'''		if t.UD = src[ri:]; len(src) < 64 {
			// not worth keeping all of a large buffer for
			t.UD = append([]byte(nil), src[ri:]...)
		}
''')],
"a received TPDU with more than 63 octets of 8-bit or UCS-2 user data, and a receive buffer that is used again",
"the user data is that of whatever is received next",
r'''
package tpdu_test

import (
	"bytes"
	"testing"

	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	a := tpdu.TPDU{DCS: 4, UD: bytes.Repeat([]byte{5}, 100)}
	b, err := a.MarshalBinary()
	if err != nil {
		t.Fatal(err)
	}
	var c tpdu.TPDU
	if err := c.UnmarshalBinary(b); err != nil {
		t.Fatal(err)
	}
	for i := range b {
		b[i] = 0
	}
	if !bytes.Equal(c.UD, a.UD) {
		t.Fatal("altered")
	}
}
''')

seed("c06-header-beyond", "C06", "encoding/tpdu", [(T,
'''		sml = sml - (udhl*8+fillBits)/7
	}
	sm := gsm7.Unpack7Bit(src, fillBits)
''',
'''		sml = sml - (udhl*8+fillBits)/7
	}
	if sml > 160 {
		return nil, ErrOverlength
	}
	sm := gsm7.Unpack7Bit(src, fillBits)
''')],
"x", "x", "")
SEEDS.pop()


seed("c05-sparse-septets", "C05", "encoding/tpdu", [(T,
'''	if len(sm) > sml {
		if len(sm) > sml+1 || sm[sml] != 0 {
''',
'''	if len(sm) > sml {
		if len(sm) > sml+1 || sm[sml] != 0 || (fillBits == 0 && udhl > 0) {
''')],
"a 7-bit text of 8n-1 septets after a header of exactly 7 (or 14, ...) octets",
"the TPDU marshals to octets which are refused",
r'''
package tpdu_test

import (
	"testing"

	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	a, err := tpdu.NewDeliver(tpdu.WithUDH(tpdu.UserDataHeader{{ID: 8, Data: []byte{1, 2, 3, 4}}}))
	if err != nil {
		t.Fatal(err)
	}
	a.UD = []byte("abcdefg")
	b, err := a.MarshalBinary()
	if err != nil {
		t.Fatal(err)
	}
	var c tpdu.TPDU
	if err := c.UnmarshalBinary(b); err != nil || string(c.UD) != "abcdefg" {
		t.Fatal(err, c.UD)
	}
}
''')

seed("c09-expiry-reads-unlocked", "C09", ".", [("collect.go",
'''			c.Lock()
			m := c.pipes[key]
			if m == p {
''',
'''			m := c.pipes[key]
			c.Lock()
			if m == p {
''')],
"a reassembly expiring while other segments are collected",
"the map of held segments is read without the lock: a data race, and a set may be removed that is not the one that expired",
r'''
package sms_test

import (
	"fmt"
	"testing"
	"time"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	c := sms.NewCollector(sms.WithReassemblyTimeout(time.Millisecond, nil))
	defer c.Close()
	for i := 0; i < 20000; i++ {
		a := tpdu.TPDU{FirstOctet: 0x40, UDH: tpdu.UserDataHeader{{ID: 0, Data: []byte{byte(i), 2, 1}}}}
		a.OA = tpdu.Address{TOA: 0x91, Addr: fmt.Sprint(i)}
		if _, err := c.Collect(a); err != nil {
			t.Fatal(err)
		}
	}
}
''', "-race")

seed("c16-iso-year", "C16", "encoding/tpdu", [("encoding/tpdu/timestamp.go",
"	y := t.Year() % 100\n	f := []int{y, int(t.Month()), t.Day(), t.Hour(), t.Minute(), t.Second()}\n",
"	y, _ := t.ISOWeek()\n	f := []int{y % 100, int(t.Month()), t.Day(), t.Hour(), t.Minute(), t.Second()}\n")],
"a time in the days around New Year that belong to a week of the other year",
"the year is one out",
r'''
package tpdu_test

import (
	"testing"
	"time"

	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	a := tpdu.Timestamp{Time: time.Date(2021, 1, 2, 3, 4, 5, 0, time.UTC)}
	b, err := a.MarshalBinary()
	if err != nil {
		t.Fatal(err)
	}
	var c tpdu.Timestamp
	if err := c.UnmarshalBinary(b); err != nil || !c.Equal(a.Time) {
		t.Fatal(c, err)
	}
}
''')





seed("c19-empty-last-element", "C19", "encoding/tpdu", [(UDF,
'''	for ri < udhl {
''',
'''	for ri < udhl && (udhl != ri+2 || len(ies) == 0 || src[ri] != 0 || src[ri+1] != 0) {
''')],
"a header whose last element has identifier zero and no data, after others", "the element is lost", r'''
package tpdu_test

import (
	"testing"

	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	u := tpdu.UserDataHeader{{ID: 3, Data: []byte{1}}, {ID: 0}}
	b, err := u.MarshalBinary()
	if err != nil {
		t.Fatal(err)
	}
	var v tpdu.UserDataHeader
	if n, err := v.UnmarshalBinary(b); err != nil || n != len(b) || len(v) != 2 {
		t.Fatal(v, n, err)
	}
}
''')

seed("c19-wide-reference-sign", "C19", "encoding/tpdu", [(UDF,
"		mref = int(binary.BigEndian.Uint16(c.Data[0:2]))\n",
"		mref = int(int16(binary.BigEndian.Uint16(c.Data[0:2])))\n")],
"a 16-bit reference of 0x8000 or more",
"the reference is reported negative",
r'''
package tpdu_test

import (
	"testing"

	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	u := tpdu.UserDataHeader{{ID: 8, Data: []byte{0x81, 2, 3, 1}}}
	if _, _, r, ok := u.ConcatInfo(); !ok || r != 0x8102 {
		t.Fatal(r, ok)
	}
}
''')

seed("c14-bom", "C14", "encoding/ucs2", [("encoding/ucs2/ucs2.go",
"			if ri >= len(src)-3 {\n",
"			if ri >= len(src)-3 && r < 0xdc00 {\n")],
"text that ends in an unpaired low surrogate",
"the decoder reads beyond the end: it panics",
r'''
package ucs2_test

import (
	"testing"

	"github.com/warthog618/sms/encoding/ucs2"
)

func TestSeedDemo(t *testing.T) {
	got, err := ucs2.Decode([]byte{0, 'a', 0xdc, 0x00})
	if err == nil || len(got) != 1 || got[0] != 'a' {
		t.Fatal(got, err)
	}
}
''')

seed("c15-length-from-octets", "C15", "encoding/tpdu", [("encoding/tpdu/address.go",
"		l = (len(addr)*7 + 3) / 4\n",
"		if l = (len(addr)*7 + 3) / 4; l > 20 {\n			// the most that an address can have\n			l = (l + 1) / 2 * 2\n		}\n")],
"an alphanumeric address of more than 11 characters",
"the length octet is not the number of semi-octets used",
r'''
package tpdu_test

import (
	"testing"

	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	a := tpdu.Address{TOA: 0xd0, Addr: "abcdefghijkl"}
	b, err := a.MarshalBinary()
	if err != nil || b[0] != 21 {
		t.Fatal(b, err)
	}
}
''')

seed("c20-service-centre-with-plus", "C20", "encoding/pdumode", [("encoding/pdumode/smscaddress.go",
'''	if len(addr) == 0 {
		return []byte{0}, nil
	}
''',
'''	if len(addr) == 0 || a.TOA == 0 {
		return []byte{0}, nil
	}
''')],
"a service centre number of unknown type and plan, with the extension bit clear",
"the service centre is left out of the PDU",
r'''
package pdumode_test

import (
	"testing"

	"github.com/warthog618/sms/encoding/pdumode"
	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	p := pdumode.PDU{SMSC: pdumode.SMSCAddress{Address: tpdu.Address{Addr: "12"}}, TPDU: []byte{1}}
	s, err := p.MarshalHexString()
	if err != nil || s != "02002101" {
		t.Fatal(s, err)
	}
}
''')

seed("c25-last-digit-pair", "C25", "encoding/semioctet", [("encoding/semioctet/semioctet.go",
'''	for wi < len(dst) && ri < len(src) {
		d := decodeDigits''',
'''	for wi < len(dst) && ri < len(src) {
		if src[ri] == 0xee {
			// end of dialling
			return dst[:wi], ri, nil
		}
		d := decodeDigits''')],
"x", "x", "")
SEEDS.pop()

seed("c22-element-data-kept", "C22", "encoding/tpdu", [(UDF,
'''		ie.Data = append([]byte(nil), src[ri:ri+iedl]...)
''',
'''		if ie.Data = src[ri : ri+iedl]; ie.ID < 0x20 {
			ie.Data = append([]byte(nil), ie.Data...)
		}
''')],
"a received header with an element whose identifier is 0x20 or more, and a receive buffer that is used again",
"the element changes with the buffer",
r'''
package tpdu_test

import (
	"testing"

	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	b := []byte{3, 0x70, 1, 5}
	var u tpdu.UserDataHeader
	if _, err := u.UnmarshalBinary(b); err != nil {
		t.Fatal(err)
	}
	b[3] = 9
	if u[0].Data[0] != 5 {
		t.Fatal(u)
	}
}
''')

seed("c26-header-flag-cleared", "C26", ".", [("encode.go",
"		dcs, err := e.pdu.DCS.WithAlphabet(alpha)\n",
"		dcs, err := (e.pdu.DCS &^ 0x40).WithAlphabet(alpha)\n")],
"a template that asks for automatic deletion",
"the automatic deletion bit is cleared",
r'''
package sms_test

import (
	"testing"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	ts, err := sms.Encode([]byte("a"), sms.WithTemplateOption(tpdu.DCS(0x50)))
	if err != nil || ts[0].DCS != 0x50 {
		t.Fatal(ts, err)
	}
}
''')

seed("c28-last-element-unpermitted", "C28", "encoding/tpdu", [(UDF,
'''				if _, ok := cfg.shift[nli]; ok {
					options = append(options, gsm7.WithExtCharset(nli))
				}
''',
'''				_, ok := cfg.shift[nli]
				if ok || len(cfg.locking) == 0 && len(cfg.shift) == 0 && len(options) == 0 && nli == charset.Spanish {
					// Spanish extends the default
					options = append(options, gsm7.WithExtCharset(nli))
				}
''')],
"a Spanish segment decoded with no character set permitted",
"the Spanish shift table is used though not permitted",
r'''
package sms_test
''')
SEEDS.pop()

seed("c28-permitted-together", "C28", ".", [(UDF,
'''func (o LockingCharsetOption) applyDecodeOption(d udDecodeConfig) udDecodeConfig {
	for _, n := range o.nli {
		d.locking[n] = true
	}
	return d
''',
'''func (o LockingCharsetOption) applyDecodeOption(d udDecodeConfig) udDecodeConfig {
	locking := make(map[int]bool, len(o.nli))
	for _, n := range o.nli {
		locking[n] = true
	}
	d.locking = locking
	return d
''')],
"two options that permit locking tables",
"only the last option counts, so a permitted table is not used",
r'''
package sms_test

import (
	"testing"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	a := &tpdu.TPDU{FirstOctet: 0x40, UDH: tpdu.UserDataHeader{{ID: 25, Data: []byte{1}}}, UD: []byte{7}}
	m, err := sms.Decode([]*tpdu.TPDU{a}, sms.WithLockingCharset(1), sms.WithLockingCharset(3))
	if err != nil || string(m) != "\u0131" {
		t.Fatalf("%q %v", m, err)
	}
}
''')

seed("c03-both-before-shift", "C03", ".", [(UDF,
'''			if nli != snli {
				continue
			}
''',
'''			if snli < nli {
				continue
			}
''')],
"two languages offered of which both tables are needed, neither sufficing alone",
"the combination is tried for a language that was not offered as shift table",
r'''
package sms_test

import (
	"testing"

	"github.com/warthog618/sms"
)

func TestSeedDemo(t *testing.T) {
	// Turkish locking suffices for the first, Turkish shift is not offered
	ts, err := sms.Encode([]byte("\u221e\u03a6"), sms.WithLockingCharset(3), sms.WithShiftCharset(13))
	if err != nil || ts[0].DCS != 8 {
		t.Fatal(ts, err)
	}
}
''')

seed("c02-boundary-pair-only-last", "C02", "encoding/tpdu", [("encoding/tpdu/tpdu.go",
"x","y")], "x", "x", "")
SEEDS.pop()

seed("c23-sixteen-bit-order", "C23", ".", [("sms.go",
'''		if concatRef != baseConcatRef {
			return false
		}
''',
'''		if byte(concatRef) != byte(baseConcatRef) {
			return false
		}
''')],
"segments of two messages with 16-bit references that differ in the high octet",
"a set of foreign segments is reported complete",
r'''
package sms_test

import (
	"testing"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	a := &tpdu.TPDU{UDH: tpdu.UserDataHeader{{ID: 8, Data: []byte{1, 5, 2, 1}}}}
	b := &tpdu.TPDU{UDH: tpdu.UserDataHeader{{ID: 8, Data: []byte{2, 5, 2, 2}}}}
	if sms.IsCompleteMessage([]*tpdu.TPDU{a, b}) {
		t.Fatal("complete")
	}
}
''')


seed("c16-zone-wraps", "C16", "encoding/tpdu", [("encoding/tpdu/timestamp.go",
'''	dst[6], err = bcd.EncodeSigned(tz / (15 * 60))
''',
'''	dst[6], err = bcd.EncodeSigned(int(int8(tz / (15 * 60))))
''')],
"a time in a zone 64 hours or so from UTC",
"it is marshalled with another zone rather than refused",
r'''
package tpdu_test

import (
	"testing"
	"time"

	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	ts := tpdu.Timestamp{Time: time.Date(2020, 1, 2, 3, 4, 5, 0, time.FixedZone("", 250*900))}
	if b, err := ts.MarshalBinary(); err == nil {
		t.Fatalf("%x", b)
	}
}
''')

seed("c21-counters-replaced", "C21", ".", [("encode.go",
'''	e := Encoder{}
	for _, option := range options {
		option.ApplyEncoderOption(&e)
	}
	if e.MsgCount == nil {
		e.MsgCount = &Counter{}
	}
	if e.ConcatRef == nil {
		e.ConcatRef = &Counter{}
	}
	return &e
''',
'''	e := Encoder{}
	for _, option := range options {
		option.ApplyEncoderOption(&e)
	}
	if e.MsgCount == nil || e.ConcatRef == nil {
		e.MsgCount = &Counter{}
		e.ConcatRef = &Counter{}
	}
	return &e
''')],
"an option that provides only one of the counters",
"the counter provided is replaced, so the references do not continue from it",
r'''
package sms_test

import (
	"testing"

	"github.com/warthog618/sms"
)

type opt struct{ c *sms.Counter }

func (o opt) ApplyEncoderOption(e *sms.Encoder) { e.MsgCount = o.c }

func TestSeedDemo(t *testing.T) {
	c := &sms.Counter{}
	c.Count()
	c.Count()
	p, err := sms.NewEncoder(sms.AsSubmit, opt{c}).Encode([]byte("x"))
	if err != nil || p[0].MR != 3 {
		t.Fatal(p, err)
	}
}
''')

seed("c22-scratch-reused", "C22", "encoding/gsm7", [("encoding/gsm7/7bit.go",
'''	p := make([]byte, 0, (len(u)*7+7+fillBits)/8)
''',
'''	n := (len(u)*7 + 7 + fillBits) / 8
	var p []byte
	if n > 140 {
		// more than a TPDU carries
		longMu.Lock()
		defer longMu.Unlock()
		if cap(long) < n {
			long = make([]byte, 0, n)
		}
		p = long[:0]
	} else {
		p = make([]byte, 0, n)
	}
'''), ("encoding/gsm7/7bit.go",
'''const cr byte = 0x0d
''',
'''const cr byte = 0x0d

var (
	longMu sync.Mutex
	long   []byte // kept, as they are rare
)
'''), ("encoding/gsm7/7bit.go",
'''package gsm7
''',
'''package gsm7

import "sync"
''')],
"two sequences longer than a TPDU carries packed one after the other, the second no longer than the first",
"the result of the first is overwritten by the second",
r'''
package gsm7_test

import (
	"bytes"
	"testing"

	"github.com/warthog618/sms/encoding/gsm7"
)

func TestSeedDemo(t *testing.T) {
	a := gsm7.Pack7Bit(bytes.Repeat([]byte{'a'}, 200), 0)
	keep := append([]byte(nil), a...)
	gsm7.Pack7Bit(bytes.Repeat([]byte{'b'}, 200), 0)
	if !bytes.Equal(a, keep) {
		t.Fatal("overwritten")
	}
}
''')

seed("c25-fill-within", "C25", "encoding/semioctet", [("encoding/semioctet/semioctet.go",
'''		d := decodeDigits[src[ri]&0x0f]
		if d != 'F' {
			dst[wi] = d
			wi++
		}
''',
'''		d := decodeDigits[src[ri]&0x0f]
		if d != 'F' || src[ri]>>4 == 0x0f {
			dst[wi] = d
			wi++
		}
''')],
"an octet that is all fill",
"a digit F is decoded, which is none",
r'''
package semioctet_test

import (
	"bytes"
	"testing"

	"github.com/warthog618/sms/encoding/semioctet"
)

func TestSeedDemo(t *testing.T) {
	d, _, err := semioctet.Decode(make([]byte, 4), []byte{0x21, 0xff})
	if err == nil && bytes.Contains(d, []byte("F")) {
		t.Fatalf("%q", d)
	}
}
''')

seed("c13-extension-of-unknown-language", "C13", "encoding/gsm7", [("encoding/gsm7/gsm7.go",
'''func (o ExtCharsetOption) applyEncoderOption(e *Encoder) {
	e.ext = charset.NewExtEncoder(o.nli)
}
''',
'''func (o ExtCharsetOption) applyEncoderOption(e *Encoder) {
	e.ext = charset.Encoder{}
	if o.nli <= charset.Urdu {
		// otherwise there is no such language, so no extension
		e.ext = charset.NewExtEncoder(o.nli)
	}
}
''')],
"text with characters of the default extension table encoded with the extension of a reserved language",
"they are not encodable, although the default table takes the place of those of reserved languages",
r'''
package gsm7_test

import (
	"testing"

	"github.com/warthog618/sms/encoding/gsm7"
)

func TestSeedDemo(t *testing.T) {
	if g, err := gsm7.Encode([]byte("{"), gsm7.WithExtCharset(20)); err != nil || len(g) != 2 {
		t.Fatal(g, err)
	}
}
''')

seed("c06-time-bound", "C06", "encoding/tpdu", [("encoding/tpdu/timestamp.go",
'''	if len(src) < 7 {
		return ErrUnderflow
	}
	i := make([]int, 6)
''',
'''	if len(src) < 6 {
		return ErrUnderflow
	}
	i := make([]int, 6)
'''), ("encoding/tpdu/timestamp.go",
'''	tz, err := bcd.DecodeSigned(src[6])
	if err != nil {
		return err
	}
''',
'''	tz := 0
	if len(src) > 6 {
		tz, err = bcd.DecodeSigned(src[6])
	} else if cap(src) > 6 {
		tz, err = bcd.DecodeSigned(src[:7][6])
	}
	if err != nil {
		return err
	}
''')],
"x", "x", "")
SEEDS.pop()


seed("c27-vp-keeps-format", "C27", "encoding/tpdu", [("encoding/tpdu/tpdu.go",
'''	t.FirstOctet &^= FoVPFMask
	t.FirstOctet |= (FirstOctet(vp.Format<<FoVPFShift) & FoVPFMask)
	t.VP = vp
''',
'''	if vp.Format != VpfNotPresent || t.VP.Format != VpfNotPresent {
		t.FirstOctet &^= FoVPFMask
		t.FirstOctet |= (FirstOctet(vp.Format<<FoVPFShift) & FoVPFMask)
	}
	t.VP = vp
''')],
"a first octet that announces a validity period which is then removed without having been set",
"the first octet still announces a validity period that the TPDU does not have",
r'''
package tpdu_test

import (
	"testing"

	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	s := tpdu.TPDU{FirstOctet: 0x11}
	s.SetVP(tpdu.ValidityPeriod{})
	if s.FirstOctet != 0x01 {
		t.Fatalf("%x", s.FirstOctet)
	}
}
''')

seed("c20-hex-of-long-number", "C20", "encoding/pdumode", [("encoding/pdumode/pdu.go",
'''	dst, err := p.SMSC.MarshalBinary()
	if err != nil {
		return nil, err
	}
	dst = append(dst, p.TPDU...)
	return dst, nil
''',
'''	smsc, err := p.SMSC.MarshalBinary()
	if err != nil {
		return nil, err
	}
	// the service centre and a TPDU of at most 164 octets
	var buf [176]byte
	n := copy(buf[:], smsc)
	n += copy(buf[n:], p.TPDU)
	return append(smsc[:0:0], buf[:n]...), nil
''')],
"a TPDU with addresses that are long, so that it exceeds 164 octets, or a long service centre",
"the end is lost",
r'''
package pdumode_test

import (
	"bytes"
	"testing"

	"github.com/warthog618/sms/encoding/pdumode"
)

func TestSeedDemo(t *testing.T) {
	p := pdumode.PDU{TPDU: bytes.Repeat([]byte{1}, 180)}
	b, err := p.MarshalBinary()
	if err != nil || len(b) != 181 {
		t.Fatal(len(b), err)
	}
}
''')


seed("c11-room-for-fill", "C11", "encoding/gsm7", [("encoding/gsm7/7bit.go",
'''	if rbits != 0 {
		p = append(p, r)
	}
	return p
''',
'''	if rbits != 0 && (len(p) < cap(p) || r != 0) {
		p = append(p, r)
	}
	return p
''')],
"x", "x", "")
SEEDS.pop()


seed("c28-one-table-for-the-other", "C28", ".", [("encoding/tpdu/userdata.go",
'''				if _, ok := cfg.shift[nli]; ok {
					options = append(options, gsm7.WithExtCharset(nli))
				}
''',
'''				_, ok := cfg.shift[nli]
				if _, both := cfg.locking[nli]; ok && (both || len(cfg.locking) == 0 || len(options) > 0) {
					options = append(options, gsm7.WithExtCharset(nli))
				}
''')],
"different languages permitted as locking and as shift tables, and a message with a shift table alone",
"the shift table permitted is not used",
r'''
package sms_test

import (
	"testing"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	p := &tpdu.TPDU{UDH: tpdu.UserDataHeader{{ID: 24, Data: []byte{1}}, {ID: 0x24, Data: []byte{1}}}, UD: []byte{0x1b, 0x47}}
	b, err := sms.Decode([]*tpdu.TPDU{p}, sms.WithShiftCharset(1), sms.WithLockingCharset(3))
	if err != nil || string(b) != "Ğ" {
		t.Fatalf("%q, %v", b, err)
	}
}
''')

seed("c26-second-pid", "C26", ".", [("encoding/tpdu/tpdu.go",
'''	for i := 0; i < count; i++ {
		pdus[i] = t
''',
'''	for i := 0; i < count; i++ {
		pdus[i] = t
		if i > 0 && t.PID&0xe0 == 0x40 {
			// only the first may replace an earlier message
			pdus[i].PID = 0
		}
'''), ("encoding/tpdu/tpdu.go",
'''		pdus[i].UD = chunks[i]
''',
'''		pdus[i].UD = UserData(chunks[i])
''')],
"a template with the PID of a replacing message, and a message of several segments",
"segments after the first lose the PID of the template",
r'''
package sms_test

import (
	"strings"
	"testing"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	p, err := sms.Encode([]byte(strings.Repeat("x", 300)), sms.WithTemplate(tpdu.TPDU{FirstOctet: 1, Direction: tpdu.MO, PID: 0x41}))
	if err != nil || len(p) != 2 || p[1].PID != 0x41 {
		t.Fatal(p, err)
	}
}
''')

seed("c07-leading-zeros", "C07", ".", [("collect.go",
'''			pdu.OA.TOA,
			pdu.OA.Addr,
''',
'''			pdu.OA.TOA,
			strings.TrimLeft(pdu.OA.Addr, "0"),
'''), ("collect.go",
'''	"fmt"
	"sync"
''',
'''	"fmt"
	"strings"
	"sync"
''')],
"two senders whose numbers differ only in leading zeros, with the same reference and number of segments",
"their messages are mixed",
r'''
package sms_test

import (
	"testing"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	seg := func(from string, no byte) tpdu.TPDU {
		p, _ := tpdu.NewDeliver()
		p.OA = tpdu.Address{TOA: 0x81, Addr: from}
		p.SetUDH(tpdu.UserDataHeader{{ID: 0, Data: []byte{7, 2, no}}})
		p.SetUD([]byte("x"))
		return *p
	}
	c := sms.NewCollector()
	defer c.Close()
	if s, err := c.Collect(seg("123", 1)); s != nil || err != nil {
		t.Fatal(s, err)
	}
	if s, err := c.Collect(seg("00123", 2)); s != nil || err != nil {
		t.Fatal("mixed", s, err)
	}
}
''')

seed("c08-closed-takes-singles", "C08", ".", [("collect.go",
'''	if c.closed {
		return nil, ErrClosed
	}
	segments, seqno, concatRef, ok := pdu.ConcatInfo()
	if !ok || segments < 2 {
		// short circuit single segment - no need for a pipe
		return []*tpdu.TPDU{&pdu}, nil
	}
''',
'''	segments, seqno, concatRef, ok := pdu.ConcatInfo()
	if ok && segments < 2 {
		// short circuit single segment - no need for a pipe
		return []*tpdu.TPDU{&pdu}, nil
	}
	if c.closed {
		return nil, ErrClosed
	}
	if !ok {
		return []*tpdu.TPDU{&pdu}, nil
	}
''')],
"a segment that is numbered one of one, after the collector is closed",
"it is accepted",
r'''
package sms_test

import (
	"testing"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	p := tpdu.TPDU{OA: tpdu.Address{TOA: 0x91, Addr: "12345"}}
	p.SetUDH(tpdu.UserDataHeader{{ID: 0, Data: []byte{7, 1, 1}}})
	c := sms.NewCollector()
	c.Close()
	if d, err := c.Collect(p); err == nil {
		t.Fatal(d)
	}
}
''')

seed("c24-absent-fields", "C24", "cmd/smsdecode", [("cmd/smsdecode/smsdecode.go",
'''	fmt.Fprintf(w, "TP-FCS: 0x%02x\\n", t.FCS)
	fmt.Fprintf(w, "TP-PI: %s\\n", t.PI)
	fmt.Fprintf(w, "TP-SCTS: %s\\n", t.SCTS)
	if t.PI.PID() {
''',
'''	fmt.Fprintf(w, "TP-FCS: 0x%02x\\n", t.FCS)
	fmt.Fprintf(w, "TP-PI: %s\\n", t.PI)
	fmt.Fprintf(w, "TP-SCTS: %s\\n", t.SCTS)
	if t.PI.PID() || t.PI.DCS() {
''')],
"a submit report with a coding scheme and no protocol identifier",
"a protocol identifier is shown that is not in the PDU",
r'''
package main

import (
	"bytes"
	"strings"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	p, _, err := decode("0100021150403122102304", false, false)
	if err != nil {
		t.Fatal(err)
	}
	var b bytes.Buffer
	dumpTPDU(&b, p)
	if !p.PI.PID() && strings.Contains(b.String(), "TP-PID") {
		t.Fatal(b.String())
	}
}
''')

seed("c07-crowd-evicts", "C07", ".", [("collect.go",
'''		p = &pipe{nil, make([]*tpdu.TPDU, segments), 0}
		c.pipes[key] = p
''',
'''		p = &pipe{nil, make([]*tpdu.TPDU, segments), 0}
		if len(c.pipes) >= 1024 && c.duration == 0 {
			// nothing else bounds the memory held for sets that never complete
			for k := range c.pipes {
				delete(c.pipes, k)
				break
			}
		}
		c.pipes[key] = p
'''), ("collect.go",
'''	p.frags++
	if p.frags == segments {
		delete(c.pipes, key)
		return p.segments, nil
	}
''',
'''	if p.frags++; p.frags == segments {
		delete(c.pipes, key)
		return p.segments, nil
	}
''')],
"a collector without a timeout that holds more than a thousand incomplete sets at a time",
"segments that were accepted are dropped, so their messages are never returned",
r'''
package sms_test

import (
	"fmt"
	"testing"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	c := sms.NewCollector()
	defer c.Close()
	const n = 1500
	for seq := byte(1); seq < 3; seq++ {
		done := 0
		for i := 0; i < n; i++ {
			p := tpdu.TPDU{OA: tpdu.Address{TOA: 0x91, Addr: fmt.Sprint(10000 + i)}}
			p.SetUDH(tpdu.UserDataHeader{{ID: 0, Data: []byte{7, 2, seq}}})
			d, err := c.Collect(p)
			if err != nil {
				t.Fatal(err)
			}
			if d != nil {
				done++
			}
		}
		if seq == 2 && done != n {
			t.Fatal(done)
		}
	}
}
''')

seed("c08-busy-no-timer", "C08", ".", [("collect.go",
'''	if c.duration != 0 {
		p.cleanup''',
'''	if c.duration != 0 && (p.cleanup == nil || len(c.pipes) < 128) {
		// when busy let the first timeout stand rather than rescheduling
		p.cleanup''')],
"a second segment of a three part message arrives while the collector holds over a hundred sets, and the third never does",
"the set never expires, as its timer was stopped and is not restarted",
r'''
package sms_test

import (
	"fmt"
	"sync/atomic"
	"testing"
	"time"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	var expired int32
	c := sms.NewCollector(sms.WithReassemblyTimeout(300*time.Millisecond, func([]*tpdu.TPDU) {
		atomic.AddInt32(&expired, 1)
	}))
	defer c.Close()
	const n = 150
	for seq := byte(1); seq < 3; seq++ {
		for i := 0; i < n; i++ {
			p := tpdu.TPDU{OA: tpdu.Address{TOA: 0x91, Addr: fmt.Sprint(10000 + i)}}
			p.SetUDH(tpdu.UserDataHeader{{ID: 0, Data: []byte{7, 3, seq}}})
			if _, err := c.Collect(p); err != nil {
				t.Fatal(err)
			}
		}
	}
	for i := 0; i < 100 && atomic.LoadInt32(&expired) < n; i++ {
		time.Sleep(50 * time.Millisecond)
	}
	if e := atomic.LoadInt32(&expired); e != n {
		t.Fatal(e)
	}
}
''')

seed("c22-cache-ignores-options", "C22", ".", [("encode.go",
'''		d, udh, alpha := tpdu.EncodeUserData(msg, e.eopts...)
''',
'''		d, udh, alpha := encodeUserData(msg, e.eopts)
'''), ("encode.go",
'''// segment splits the encoded message into TPDUs based on the template.
''',
'''// the user data of the last message, as the same one is often sent to many
var last struct {
	sync.Mutex
	msg    string
	offers int
	d      tpdu.UserData
	udh    tpdu.UserDataHeader
	alpha  tpdu.Alphabet
}

func encodeUserData(msg []byte, eopts []tpdu.UDEncodeOption) (tpdu.UserData, tpdu.UserDataHeader, tpdu.Alphabet) {
	last.Lock()
	defer last.Unlock()
	if last.alpha != tpdu.AlphaUCS2 || last.msg != string(msg) || last.offers != len(eopts) {
		last.d, last.udh, last.alpha = tpdu.EncodeUserData(msg, eopts...)
		last.msg, last.offers = string(msg), len(eopts)
	}
	return append(last.d[:0:0], last.d...), append(last.udh[:0:0], last.udh...), last.alpha
}

// segment splits the encoded message into TPDUs based on the template.
'''), ("encode.go",
'''	"sync/atomic"
''',
'''	"sync"
	"sync/atomic"
''')],
"the same message is encoded twice in a row, first with a character set that does not suffice, then with one that does",
"the second result is the UCS-2 of the first rather than that of its own options",
r'''
package sms_test

import (
	"testing"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/gsm7/charset"
)

func TestSeedDemo(t *testing.T) {
	e := sms.NewEncoder()
	msg := []byte("ş")
	a, err := e.Encode(msg, sms.WithCharset(charset.Spanish))
	if err != nil || a[0].DCS != 8 {
		t.Fatal(a, err)
	}
	b, err := e.Encode(msg, sms.WithCharset(charset.Turkish))
	if err != nil || b[0].DCS != 0 {
		t.Fatal(b, err)
	}
}
''')

seed("c22-header-storage-reused", "C22", "encoding/tpdu", [("encoding/tpdu/userdata.go",
'''	ies := []InformationElement(nil)
	for ri < udhl {''',
'''	ies := (*udh)[:0]
	for ri < udhl {''')],
"a header is unmarshalled into a variable that held another, of which a copy was kept",
"the copy changes",
r'''
package tpdu_test

import (
	"testing"

	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	var h tpdu.UserDataHeader
	if _, err := h.UnmarshalBinary([]byte{3, 1, 1, 5}); err != nil {
		t.Fatal(err)
	}
	kept := h
	if _, err := h.UnmarshalBinary([]byte{3, 2, 1, 6}); err != nil {
		t.Fatal(err)
	}
	if kept[0].ID != 1 || kept[0].Data[0] != 5 {
		t.Fatal(kept)
	}
}
''')

seed("c12-short-ussd", "C12", "encoding/gsm7", [("encoding/gsm7/7bit.go",
'''		b[last] = b[last] | (cr << 1)
''',
'''		if fillBits < 2 || len(u) > 7 {
			b[last] |= cr << 1
		}
''')],
"a short sequence packed with fill such that seven bits are unused",
"no filler is added, so it unpacks with an extra septet",
r'''
package gsm7_test

import (
	"bytes"
	"testing"

	"github.com/warthog618/sms/encoding/gsm7"
)

func TestSeedDemo(t *testing.T) {
	for fill := 0; fill < 7; fill++ {
		for n := 1; n < 20; n++ {
			u := bytes.Repeat([]byte{0x41}, n)
			if d := gsm7.Unpack7BitUSSD(gsm7.Pack7BitUSSD(u, fill), fill); !bytes.Equal(d, u) {
				t.Fatal(fill, n, d)
			}
		}
	}
}
''')

seed("c12-single-cr", "C12", "encoding/gsm7", [("encoding/gsm7/7bit.go",
'''	last := len(u) - 1
	if last < 1 || u[last] != cr {
''',
'''	last := len(u) - 1
	if last < 6 || u[last] != cr {
''')],
"a USSD string unpacked with enough fill that the filler follows fewer than six septets",
"the filler is left on the string",
r'''
package gsm7_test

import (
	"bytes"
	"testing"

	"github.com/warthog618/sms/encoding/gsm7"
)

func TestSeedDemo(t *testing.T) {
	for fill := 0; fill < 7; fill++ {
		for n := 1; n < 20; n++ {
			u := bytes.Repeat([]byte{0x41}, n)
			if d := gsm7.Unpack7BitUSSD(gsm7.Pack7BitUSSD(u, fill), fill); !bytes.Equal(d, u) {
				t.Fatal(fill, n, d)
			}
		}
	}
}
''')

seed("c18-compressed-data", "C18", "encoding/tpdu", [("encoding/tpdu/dcs.go",
'''	// only true for 0x1xxxxx (binary)
	return (d&0xa0 == 0x20)
''',
'''	// only true for 0x1xxxxx (binary), and only text is compressed
	return (d&0xac == 0x20)
''')],
"a coding scheme with the compression bit and the 8-bit or UCS-2 alphabet",
"it is reported uncompressed",
r'''
package tpdu_test

import (
	"testing"

	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	for d := 0; d < 256; d++ {
		if c := tpdu.DCS(d).Compressed(); c != (d&0xa0 == 0x20) {
			t.Fatalf("%02x %v", d, c)
		}
	}
}
''')

seed("c18-class-of-group", "C18", "encoding/tpdu", [("encoding/tpdu/dcs.go",
'''		return (d&^0x03 | 0x10 | DCS(c)), nil
''',
'''		if d&0x10 != 0 {
			return (d | DCS(c)), nil
		}
		return (d&^0x03 | 0x10 | DCS(c)), nil
''')],
"the class of a coding scheme that has one already is changed",
"the new class is mixed with the old",
r'''
package tpdu_test

import (
	"testing"

	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	d, err := tpdu.DCS(0x11).WithClass(tpdu.MClass2)
	if err != nil {
		t.Fatal(err)
	}
	if c, _ := d.Class(); c != tpdu.MClass2 {
		t.Fatal(d)
	}
}
''')

seed("c25-zero-fill", "C25", "encoding/semioctet", [("encoding/semioctet/semioctet.go",
'''		if wi == len(dst) && d != 'F' {
''',
'''		if wi == len(dst) && d != 'F' && d != '0' {
			// (some senders pad with zero)
''')],
"an odd number of digits whose fill is zero",
"it is accepted although the fill is missing",
r'''
package semioctet_test

import (
	"testing"

	"github.com/warthog618/sms/encoding/semioctet"
)

func TestSeedDemo(t *testing.T) {
	if d, _, err := semioctet.Decode(make([]byte, 3), []byte{0x21, 0x03}); err == nil {
		t.Fatalf("%s", d)
	}
}
''')

seed("c25-signed-zero", "C25", "encoding/bcd", [("encoding/bcd/bcd.go",
'''	if s < -79 || s > 79 {
''',
'''	if s <= -80 || s > 80 {
''')],
"80 is encoded as a signed integer",
"it encodes as minus zero instead of being refused",
r'''
package bcd_test

import (
	"testing"

	"github.com/warthog618/sms/encoding/bcd"
)

func TestSeedDemo(t *testing.T) {
	if b, err := bcd.EncodeSigned(80); err == nil {
		t.Fatal(b)
	}
}
''')

seed("c16-pivot-year", "C16", "encoding/tpdu", [("encoding/tpdu/timestamp.go",
'''	if year < 70 {
''',
'''	if year < 69 {
''')],
"a time in 2069",
"it is read as 1969",
r'''
package tpdu_test

import (
	"testing"
	"time"

	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	in := tpdu.Timestamp{Time: time.Date(2069, 3, 1, 0, 0, 0, 0, time.UTC)}
	b, err := in.MarshalBinary()
	if err != nil {
		t.Fatal(err)
	}
	var out tpdu.Timestamp
	if err = out.UnmarshalBinary(b); err != nil || !out.Time.Equal(in.Time) {
		t.Fatal(out, err)
	}
}
''')

seed("c02-room-for-one", "C02", "encoding/tpdu", [("encoding/tpdu/tpdu.go",
'''		// remove septets used by UDH, including UDHL and fill bits
		bs -= ((udhl+1)*8 + 6) / 7
		return bs
''',
'''		// remove septets used by UDH, including UDHL and fill bits
		if bs -= ((udhl+1)*8 + 6) / 7; bs < 1 {
			bs = 1
		}
		return bs
''')],
"a template with a header that fills the TPDU",
"segments are produced that exceed the limit by a septet",
r'''
package tpdu_test

import (
	"testing"

	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	p := tpdu.TPDU{}
	p.SetUDH(tpdu.UserDataHeader{{ID: 0x70, Data: make([]byte, 133)}})
	for _, s := range p.Segment([]byte("abcdefghij")) {
		b, err := s.MarshalBinary()
		if err != nil {
			t.Fatal(err)
		}
		if len(b) > 12+1+140 {
			t.Fatal(len(b))
		}
	}
}
''')

seed("c21-refused-takes-reference", "C21", "encoding/tpdu", [("encoding/tpdu/tpdu.go",
'''	alpha, _ := t.Alphabet()
	chunks := chunk(msg, alpha, bs)
''',
'''	concatRef := 1
	if cfg.cr != nil {
		concatRef = cfg.cr.Count()
	}
	alpha, _ := t.Alphabet()
	chunks := chunk(msg, alpha, bs)
'''), ("encoding/tpdu/tpdu.go",
'''	pdus := make([]TPDU, count)
	concatRef := 1
	if cfg.cr != nil {
		concatRef = cfg.cr.Count()
	}
''',
'''	pdus := make([]TPDU, count)
''')],
"a message that needs more than 255 segments is refused",
"it takes a concatenation reference",
r'''
package tpdu_test

import (
	"testing"

	"github.com/warthog618/sms"
)

func TestSeedDemo(t *testing.T) {
	e := sms.NewEncoder(sms.As8Bit)
	if _, err := e.Encode(make([]byte, 40000)); err == nil {
		t.Fatal("accepted")
	}
	if n := e.ConcatRef.(*sms.Counter).Read(); n != 0 {
		t.Fatal(n)
	}
}
''')

seed("c27-default-dcs-not-flagged", "C27", "encoding/tpdu", [("encoding/tpdu/tpdu.go",
'''	t.PI |= PiDCS
	t.DCS = DCS(dcs)
''',
'''	if t.DCS = DCS(dcs); dcs != 0 {
		t.PI |= PiDCS
	}
''')],
"the coding scheme of a report is set to the default",
"the indicator is not set, so it is not marshalled",
r'''
package tpdu_test

import (
	"testing"

	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	p := tpdu.TPDU{}
	p.SetDCS(0)
	if !p.PI.DCS() {
		t.Fatal(p.PI)
	}
}
''')

seed("c14-surrogate-after-text", "C14", "encoding/ucs2", [("encoding/ucs2/ucs2.go",
'''				return dst, ErrDanglingSurrogate(src[ri:])
''',
'''				return dst[:len(dst):len(dst)], ErrDanglingSurrogate(src[ri : ri+1 : ri+2])
''')],
"text ends in half a surrogate pair",
"only the first octet of it is reported",
r'''
package ucs2_test

import (
	"testing"

	"github.com/warthog618/sms/encoding/ucs2"
)

func TestSeedDemo(t *testing.T) {
	_, err := ucs2.Decode([]byte{0, 0x41, 0xd8, 1})
	if e, ok := err.(ucs2.ErrDanglingSurrogate); !ok || len(e) != 2 {
		t.Fatal(err)
	}
}
''')

seed("c20-odd-digits", "C20", "encoding/pdumode", [("encoding/pdumode/smscaddress.go",
'''	if len(addr) == 0 {
		return []byte{0}, nil
''',
'''	if len(addr) == 0 || a.TOA == 0 {
		return []byte{0}, nil
''')],
"a service centre whose type of address octet is zero",
"it is left out of the PDU",
r'''
package pdumode_test

import (
	"testing"

	"github.com/warthog618/sms/encoding/pdumode"
	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	a := pdumode.SMSCAddress{Address: tpdu.Address{Addr: "1234"}}
	b, err := a.MarshalBinary()
	if err != nil || len(b) != 4 {
		t.Fatal(b, err)
	}
}
''')

seed("c23-first-segment-total", "C23", ".", [("sms.go",
'''	if baseSegs != len(segments) {
		return false
	}
''',
'''	if baseSegs != len(segments) && baseSegs != 0 {
		return false
	}
''')],
"segments whose header says that there are none in total",
"they are reported complete",
r'''
package sms_test

import (
	"testing"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	p := tpdu.TPDU{}
	p.SetUDH(tpdu.UserDataHeader{{ID: 0, Data: []byte{7, 0, 1}}})
	q := tpdu.TPDU{}
	q.SetUDH(tpdu.UserDataHeader{{ID: 0, Data: []byte{7, 0, 2}}})
	if sms.IsCompleteMessage([]*tpdu.TPDU{&p, &q}) {
		t.Fatal("complete")
	}
}
''')

seed("c08-long-timeout-capped", "C08", ".", [("collect.go",
'''	c.duration = o.d
''',
'''	if c.duration = o.d; c.duration > 24*time.Hour {
		// segments are not kept longer by the service centre
		c.duration = 24 * time.Hour
	}
''')],
"a reassembly timeout of more than a day",
"sets expire after a day",
r'''
package sms_test

import (
	"testing"
	"testing/synctest"
	"time"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		n := 0
		c := sms.NewCollector(sms.WithReassemblyTimeout(48*time.Hour, func([]*tpdu.TPDU) { n++ }))
		defer c.Close()
		p := tpdu.TPDU{OA: tpdu.Address{TOA: 0x91, Addr: "12345"}}
		p.SetUDH(tpdu.UserDataHeader{{ID: 0, Data: []byte{7, 2, 1}}})
		if _, err := c.Collect(p); err != nil {
			t.Fatal(err)
		}
		time.Sleep(47 * time.Hour)
		synctest.Wait()
		if n != 0 {
			t.Fatal("expired")
		}
	})
}
''')

seed("c28-decoder-kept", "C28", "encoding/tpdu", [("encoding/tpdu/userdata.go",
'''		return gsm7.Decode(ud, options...)
	}
}
''',
'''		key := len(options) << 8
		if ie, ok := udh.IE(lockingIEI); ok && len(ie.Data) > 0 {
			key |= int(ie.Data[0])
		}
		if ie, ok := udh.IE(shiftIEI); ok && len(ie.Data) > 0 {
			key |= int(ie.Data[0]) << 16
		}
		decoders.Lock()
		d, ok := decoders.m[key]
		if !ok {
			d = gsm7.NewDecoder(options...)
			decoders.m[key] = d
		}
		decoders.Unlock()
		return d.Decode(ud)
	}
}

// decoders are kept, by the languages named and how many of them are permitted.
var decoders = struct {
	sync.Mutex
	m map[int]gsm7.Decoder
}{m: map[int]gsm7.Decoder{}}
'''), ("encoding/tpdu/userdata.go",
'''import (
''',
'''import (
	"sync"

''')],
"two messages that name the same locking and shift languages are decoded, of which the first is permitted one of the tables and the second the other",
"the second is decoded with the tables of the first",
r'''
package tpdu_test

import (
	"testing"

	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	h := tpdu.UserDataHeader{{ID: 25, Data: []byte{1}}, {ID: 24, Data: []byte{1}}}
	a, err := tpdu.DecodeUserData([]byte{0x04}, h, tpdu.Alpha7Bit, tpdu.WithShiftCharset(1))
	if err != nil || string(a) != "è" {
		t.Fatalf("%s %v", a, err)
	}
	b, err := tpdu.DecodeUserData([]byte{0x04}, h, tpdu.Alpha7Bit, tpdu.WithLockingCharset(1))
	if err != nil || string(b) != "€" {
		t.Fatalf("%s %v", b, err)
	}
}
''')

seed("c09-create-gap", "C09", ".", [("collect.go",
'''	if !ok {
		p = &pipe{nil, make([]*tpdu.TPDU, segments), 0}
		c.pipes[key] = p
''',
'''	if !ok {
		// don't keep others waiting for the allocation
		c.Unlock()
		set := make([]*tpdu.TPDU, segments)
		c.Lock()
		p = &pipe{nil, set, 0}
		c.pipes[key] = p
''')],
"two goroutines collect the first two segments of a message at the same time",
"both create a set, and the segment in the first of them is lost",
r'''
package sms_test

import (
	"fmt"
	"sync"
	"testing"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		c := sms.NewCollector()
		var wg sync.WaitGroup
		var mu sync.Mutex
		done := 0
		const n = 500
		for seq := byte(1); seq < 9; seq++ {
			wg.Add(1)
			go func(seq byte) {
				defer wg.Done()
				for k := 0; k < n; k++ {
					p := tpdu.TPDU{OA: tpdu.Address{TOA: 0x91, Addr: fmt.Sprint(k)}}
					p.SetUDH(tpdu.UserDataHeader{{ID: 0, Data: []byte{7, 8, seq}}})
					d, _ := c.Collect(p)
					if d != nil {
						mu.Lock()
						done++
						mu.Unlock()
					}
				}
			}(seq)
		}
		wg.Wait()
		c.Close()
		if done != n {
			t.Fatal(i, done)
		}
	}
}
''')

seed("c09-closed-gap", "C09", ".", [("collect.go",
'''	c.Lock()
	defer c.Unlock()
	if c.closed {
		return nil, ErrClosed
	}
	segments, seqno, concatRef, ok := pdu.ConcatInfo()
''',
'''	c.Lock()
	if c.closed {
		c.Unlock()
		return nil, ErrClosed
	}
	c.Unlock() // the headers are looked at meanwhile
	segments, seqno, concatRef, ok := pdu.ConcatInfo()
'''), ("collect.go",
'''	p, ok := c.pipes[key]
	if ok {
		if p.segments''',
'''	c.Lock()
	defer c.Unlock()
	p, ok := c.pipes[key]
	if ok {
		if p.segments''')],
"the collector is closed between the check that it is open and the segment being accepted",
"a segment is accepted, and its timer started, after Close has returned",
r'''
package sms_test

import (
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	end := time.Now().Add(40 * time.Second)
	for i := 0; time.Now().Before(end); i++ {
		var expired int32
		c := sms.NewCollector(sms.WithReassemblyTimeout(200*time.Microsecond, func([]*tpdu.TPDU) { atomic.AddInt32(&expired, 1) }))
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for k := 0; k < 40; k++ {
					p := tpdu.TPDU{OA: tpdu.Address{TOA: 0x91, Addr: "1234"}}
					p.SetUDH(tpdu.UserDataHeader{{ID: 8, Data: []byte{byte(g), byte(k), 2, 1}}})
					if _, err := c.Collect(p); err != nil {
						return
					}
				}
			}(g)
		}
		time.Sleep(time.Duration(i%20) * time.Microsecond)
		c.Close()
		n := len(c.Pipes())
		wg.Wait()
		if m := len(c.Pipes()); m > n {
			t.Fatal(i, n, m)
		}
	}
}
''')

seed("c03-language-before-template", "C03", ".", [("encode.go",
'''		if udh != nil {
			e.pdu.SetUDH(append(append(e.pdu.UDH[:0:0], e.pdu.UDH...), udh...))''',
'''		if len(udh) > 0 {
			e.pdu.SetUDH(append(udh[:len(udh):len(udh)], e.pdu.UDH...))''')],
"the template has a language element of the kind that the message needs",
"the language element added comes before that of the template, which overrides it",
r'''
package sms_test

import (
	"testing"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	h := tpdu.UserDataHeader{{ID: 25, Data: []byte{3}}}
	got, err := sms.Encode([]byte("ş"), sms.WithTemplateOption(tpdu.WithUDH(h)), sms.WithLockingCharset(1))
	if err != nil {
		t.Fatal(err)
	}
	m, err := sms.Decode([]*tpdu.TPDU{&got[0]})
	if err != nil || string(m) != "ş" {
		t.Errorf("%q %v", m, err)
	}
}
''')

seed("c26-template-language-dropped", "C26", ".", [("encode.go",
'''		if udh != nil {
			e.pdu.SetUDH(append(append(e.pdu.UDH[:0:0], e.pdu.UDH...), udh...))''',
'''		if len(udh) > 0 {
			h := e.pdu.UDH[:0:0]
			for _, ie := range e.pdu.UDH {
				if _, added := udh.IE(ie.ID); !added {
					h = append(h, ie)
				}
			}
			e.pdu.SetUDH(append(h, udh...))''')],
"the template has a language element of the kind that the message needs",
"the element is dropped from the header",
r'''
package sms_test

import (
	"testing"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	h := tpdu.UserDataHeader{{ID: 25, Data: []byte{3}}, {ID: 0x70}}
	got, err := sms.Encode([]byte("ş"), sms.WithTemplateOption(tpdu.WithUDH(h)), sms.WithLockingCharset(1))
	if err != nil {
		t.Fatal(err)
	}
	if len(got[0].UDH) != 3 {
		t.Errorf("%v", got[0].UDH)
	}
}
''')

seed("c27-header-removed-clears-ud", "C27", "encoding/tpdu", [("encoding/tpdu/tpdu.go",
'''		t.FirstOctet &^= FoUDHI
	} else {''',
'''		t.PI, t.FirstOctet = t.PI&^PiUDL, t.FirstOctet&^FoUDHI
	} else {''')],
"the header of a report that has user data is removed",
"the report no longer indicates its user data",
r'''
package tpdu_test

import (
	"testing"

	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	x, _ := tpdu.New(tpdu.SmsStatusReport)
	x.SetUD([]byte("hello"))
	x.SetUDH(nil)
	if !x.PI.UDL() {
		t.Error("UDL")
	}
}
''')

seed("c10-references-derived", "C10", ".", [("encoding/tpdu/tpdu.go",
'''			pdus[i].MR = byte(cfg.mr.Count())''',
'''			// they are consecutive
			if mr := cfg.mr.Count(); i == 0 {
				pdus[i].MR = byte(mr)
			} else {
				pdus[i].MR = pdus[i-1].MR + 1
			}''')],
"two goroutines encode segmented messages with one encoder at the same time",
"a message reference is given to two TPDUs",
r'''
package sms_test

import (
	"strings"
	"sync"
	"testing"

	"github.com/warthog618/sms"
)

func TestSeedDemo(t *testing.T) {
	msg := []byte(strings.Repeat("a", 153*3))
	for i := 0; i < 3000; i++ {
		e := sms.NewEncoder(sms.AsSubmit)
		var wg sync.WaitGroup
		var mu sync.Mutex
		seen := map[byte]int{}
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 8; k++ {
					got, _ := e.Encode(msg)
					mu.Lock()
					for _, x := range got {
						seen[x.MR]++
					}
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		for mr, n := range seen {
			if n > 1 {
				t.Fatalf("%d was given to %d", mr, n)
			}
		}
	}
}
''')

seed("c11-long-in-blocks", "C11", "encoding/gsm7", [("encoding/gsm7/7bit.go",
'''	var r, s byte
	rbits := uint(fillBits)
''',
'''	const block = 4096 // ends on an octet
	if len(u) > block {
		p = append(p, Pack7Bit(u[:block], fillBits)...)
		return append(p, Pack7Bit(u[block:], 0)...)
	}
	var s, r byte
	rbits := uint(fillBits)
''')],
"more than 4096 septets after fill bits",
"the septets after the first 4096 are not where they should be",
r'''
package gsm7_test

import (
	"bytes"
	"testing"

	"github.com/warthog618/sms/encoding/gsm7"
)

func TestSeedDemo(t *testing.T) {
	s := bytes.Repeat([]byte{0x55, 0x2a, 0x13}, 1500)
	got := gsm7.Unpack7Bit(gsm7.Pack7Bit(s, 3), 3)
	if !bytes.Equal(got[:len(s)], s) {
		t.Fatal("altered")
	}
}
''')

seed("c14-long-in-blocks", "C14", "encoding/ucs2", [("encoding/ucs2/ucs2.go",
'''	l := len(src) / 2
	dst := make([]rune, 0, l)
''',
'''	const block = 1024
	var dst []rune
	for len(src) > block {
		d, err := Decode(src[:block])
		dst = append(dst, d...)
		if err != nil {
			return dst, err
		}
		src = src[block:]
	}
''')],
"more than 1024 octets with a surrogate pair over a multiple of 1024",
"the text is refused for a dangling surrogate",
r'''
package ucs2_test

import (
	"strings"
	"testing"

	"github.com/warthog618/sms/encoding/ucs2"
)

func TestSeedDemo(t *testing.T) {
	text := "a" + strings.Repeat("😀", 300)
	got, err := ucs2.Decode(ucs2.Encode([]rune(text)))
	if err != nil || string(got) != text {
		t.Fatal(err)
	}
}
''')

seed("c14-dangling-after-many", "C14", ".", [("sms.go",
'''	for i, s := range segments {
		a, _ := s.Alphabet()
''',
'''	for i := range segments {
		s := segments[i]
		if i%128 == 0 {
			danglingSurrogate = nil
		}
		a, _ := s.Alphabet()
''')],
"a surrogate pair split over the 128th and 129th segments",
"the high surrogate is lost and the low one is decoded alone",
r'''
package sms_test

import (
	"strings"
	"testing"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
	"github.com/warthog618/sms/encoding/ucs2"
)

func TestSeedDemo(t *testing.T) {
	text := "a" + strings.Repeat("😀", 200)
	b := ucs2.Encode([]rune(text))
	var segs []*tpdu.TPDU
	for len(b) > 0 {
		n := 4
		if len(b) < n {
			n = len(b)
		}
		segs = append(segs, &tpdu.TPDU{DCS: tpdu.DcsUCS2Data, UD: b[:n]})
		b = b[n:]
	}
	got, err := sms.Decode(segs)
	if err != nil || string(got) != text {
		t.Fatalf("%v %q", err, got)
	}
}
''')

seed("c13-long-in-blocks", "C13", "encoding/gsm7", [("encoding/gsm7/gsm7.go",
'''	dst := make([]byte, 0, len(src))
	escaped := false
''',
'''	const block = 1024
	var dst []byte
	for len(src) > block {
		b, err := d.Decode(src[:block])
		if err != nil {
			return nil, err
		}
		dst = append(dst, b...)
		src = src[block:]
	}
	escaped := false
''')],
"more than 1024 septets with an escape at the 1024th",
"the character of the extension table is decoded as a space and one of the other table",
r'''
package gsm7_test

import (
	"strings"
	"testing"

	"github.com/warthog618/sms/encoding/gsm7"
)

func TestSeedDemo(t *testing.T) {
	text := "a" + strings.Repeat("€", 600)
	s, err := gsm7.Encode([]byte(text))
	if err != nil {
		t.Fatal(err)
	}
	got, err := gsm7.Decode(s)
	if err != nil || string(got) != text {
		t.Fatal(err)
	}
}
''')

seed("c19-many-elements", "C19", "encoding/tpdu", [("encoding/tpdu/userdata.go",
'''	ies := []InformationElement(nil)
	for ri < udhl {
''',
'''	ies := []InformationElement(nil)
	// sane limit on the elements of one header
	for ri < udhl && len(ies) < 40 {
''')],
"a header of more than 40 elements, almost all of them without data",
"the elements after the 40th are dropped",
r'''
package tpdu_test

import (
	"testing"

	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	var h tpdu.UserDataHeader
	for i := 0; i < 50; i++ {
		h = append(h, tpdu.InformationElement{ID: byte(0x70 + i)})
	}
	b, err := h.MarshalBinary()
	if err != nil {
		t.Fatal(err)
	}
	var got tpdu.UserDataHeader
	if _, err := got.UnmarshalBinary(b); err != nil || len(got) != 50 {
		t.Fatal(err, len(got))
	}
}
''')

seed("c07-names-trimmed", "C07", ".", [("collect.go",
'''			pdu.OA.TOA,
			pdu.OA.Addr,
''',
'''			pdu.OA.TOA,
			strings.TrimSpace(pdu.OA.Addr),
'''), ("collect.go",
'''	"fmt"
	"sync"
''',
'''	"fmt"
	"strings"
	"sync"
''')],
"two alphanumeric senders whose names differ only in a trailing space, with the same reference and number of segments",
"their messages are mixed",
r'''
package sms_test

import (
	"testing"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	seg := func(from string, no byte) tpdu.TPDU {
		p, _ := tpdu.NewDeliver()
		p.OA = tpdu.Address{TOA: 0xd0, Addr: from}
		p.SetUDH(tpdu.UserDataHeader{{ID: 0, Data: []byte{7, 2, no}}})
		p.SetUD([]byte("x"))
		return *p
	}
	c := sms.NewCollector()
	defer c.Close()
	if s, err := c.Collect(seg("bank", 1)); s != nil || err != nil {
		t.Fatal(s, err)
	}
	if s, err := c.Collect(seg("bank ", 2)); s != nil || err != nil {
		t.Fatal("mixed", s, err)
	}
}
''')

seed("c08-close-stops-at-first-fired", "C08", ".", [("collect.go",
'''		if p.cleanup != nil {
			p.cleanup.Stop()
		}
	}
}
''',
'''		if p.cleanup != nil && !p.cleanup.Stop() {
			// already expiring
			return
		}
	}
}
''')],
"closing just as the timeout of one of the sets has elapsed, before its handling has begun, with others pending",
"the timeouts of the other sets are left to fire after the collector is closed",
r'''
package sms_test

import (
	"fmt"
	"sync/atomic"
	"testing"
	"time"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	seg := func(from string) tpdu.TPDU {
		p, _ := tpdu.NewDeliver()
		p.OA = tpdu.Address{TOA: 0x91, Addr: from}
		p.SetUDH(tpdu.UserDataHeader{{ID: 0, Data: []byte{7, 2, 1}}})
		p.SetUD([]byte("x"))
		return *p
	}
	for i := 0; i < 10; i++ {
		var n int64
		c := sms.NewCollector(sms.WithReassemblyTimeout(300*time.Millisecond, func([]*tpdu.TPDU) { atomic.AddInt64(&n, 1) }))
		c.Collect(seg("1"))
		time.Sleep(200 * time.Millisecond)
		for k := 0; k < 10; k++ {
			c.Collect(seg(fmt.Sprint("2", k)))
		}
		c.Lock() // Close waits, then the timeout elapses, and waits
		done := make(chan bool)
		go func() {
			c.Close()
			close(done)
		}()
		time.Sleep(150 * time.Millisecond)
		c.Unlock()
		<-done
		time.Sleep(400 * time.Millisecond)
		if n := atomic.LoadInt64(&n); n > 1 {
			t.Fatal("expired after close:", n)
		}
	}
}
''')

seed("c08-snapshot-restarts-timers", "C08", ".", [("collect.go",
'''	for k, v := range c.pipes {
''',
'''	for k := range c.pipes {
		v := c.pipes[k]
		if v.cleanup != nil && len(c.pipes) > 16 && v.cleanup.Stop() {
			// hold it while the snapshot is made
			defer v.cleanup.Reset(c.duration)
		}
''')],
"a snapshot while more than 16 messages are incomplete",
"the timeouts start again from the snapshot",
r'''
package sms_test

import (
	"fmt"
	"sync/atomic"
	"testing"
	"time"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	var n int64
	c := sms.NewCollector(sms.WithReassemblyTimeout(2*time.Second, func([]*tpdu.TPDU) { atomic.AddInt64(&n, 1) }))
	defer c.Close()
	for i := 0; i < 20; i++ {
		p, _ := tpdu.NewDeliver()
		p.OA = tpdu.Address{TOA: 0x91, Addr: fmt.Sprint(i)}
		p.SetUDH(tpdu.UserDataHeader{{ID: 0, Data: []byte{7, 2, 1}}})
		p.SetUD([]byte("x"))
		c.Collect(*p)
	}
	time.Sleep(1500 * time.Millisecond)
	c.Pipes()
	time.Sleep(1200 * time.Millisecond)
	if n := atomic.LoadInt64(&n); n != 20 {
		t.Fatal("expired:", n)
	}
}
''')

seed("c07-duplicate-replaces", "C07", ".", [("collect.go",
'''		if p.segments[seqno-1] != nil {
			return nil, ErrDuplicateSegment
''',
'''		if s := p.segments[seqno-1]; s != nil {
			if pdu.SCTS.After(s.SCTS.Time) {
				// the later copy
				*s = pdu
			}
			return nil, ErrDuplicateSegment
''')],
"a repeated segment with a later timestamp",
"the refused segment replaces the one held",
r'''
package sms_test

import (
	"testing"
	"time"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	c := sms.NewCollector()
	seg := func(no byte, text string, at int64) tpdu.TPDU {
		p, _ := tpdu.NewDeliver()
		p.OA = tpdu.Address{TOA: 0x91, Addr: "1"}
		p.SCTS = tpdu.Timestamp{Time: time.Unix(at, 0)}
		p.SetUDH(tpdu.UserDataHeader{{ID: 0, Data: []byte{7, 2, no}}})
		p.SetUD([]byte(text))
		return *p
	}
	c.Collect(seg(1, "one", 1000))
	if _, err := c.Collect(seg(1, "two", 2000)); err != sms.ErrDuplicateSegment {
		t.Fatal(err)
	}
	got, err := c.Collect(seg(2, "end", 3000))
	if err != nil || len(got) != 2 || string(got[0].UD) != "one" {
		t.Fatal(err, got)
	}
}
''')

seed("c21-empty-message-counted", "C21", ".", [("encode.go",
'''	sopts := append(e.sopts, tpdu.WithMR(e.MsgCount), tpdu.WithConcatRef(e.ConcatRef))
''',
'''	mc := e.MsgCount
	if len(msg) == 0 && len(options) > 0 {
		mc.Count()
		return nil, nil
	}
	sopts := append(e.sopts, tpdu.WithMR(mc), tpdu.WithConcatRef(e.ConcatRef))
''')],
"an empty message with options of its own",
"it takes a message reference",
r'''
package sms_test

import (
	"testing"

	"github.com/warthog618/sms"
)

func TestSeedDemo(t *testing.T) {
	e := sms.NewEncoder(sms.AsSubmit)
	if n, err := e.Encode(nil, sms.To("123")); err != nil || len(n) > 0 {
		t.Skip(err, n)
	}
	got, err := e.Encode([]byte("hi"), sms.To("123"))
	if err != nil || len(got) != 1 || got[0].MR != 1 {
		t.Fatal(err, got)
	}
}
''')

seed("c28-header-of-segment-before", "C28", ".", [("sms.go",
'''		d, err := tpdu.DecodeUserData(ud, s.UDH, a, cfg.dopts...)
''',
'''		d, err := tpdu.DecodeUserData(ud, headerOf(segments, s), a, cfg.dopts...)
'''), ("sms.go", '''// IsCompleteMessage confirms''',
'''// headerOf returns the header that names the character sets of the segment.
func headerOf(segments []*tpdu.TPDU, s *tpdu.TPDU) tpdu.UserDataHeader {
	if _, _, _, ok := s.ConcatInfo(); ok && len(s.UDH) == 1 {
		return segments[0].UDH
	}
	return s.UDH
}

// IsCompleteMessage confirms''')],
"a message whose first segment names a language and a later one holds only the concatenation element",
"a later segment that announces no language is decoded with that of the first",
r'''
package sms_test

import (
	"testing"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	a := &tpdu.TPDU{UD: []byte{0x07}}
	a.SetUDH(tpdu.UserDataHeader{{ID: 25, Data: []byte{1}}, {ID: 0, Data: []byte{7, 2, 1}}})
	b := &tpdu.TPDU{UD: []byte{0x07}}
	b.SetUDH(tpdu.UserDataHeader{{ID: 0, Data: []byte{7, 2, 2}}})
	got, err := sms.Decode([]*tpdu.TPDU{a, b})
	if err != nil || string(got) != "ıì" {
		t.Fatalf("%q %v", got, err)
	}
}
''')

seed("c03-late-languages-forgotten", "C03", "encoding/tpdu", [(UDF,
'''	e.locking = append(e.locking, o.nli...)
	e.shift = append(e.shift, o.nli...)
	return e
''',
'''	// no more than there are tables
	for _, n := range o.nli {
		if len(e.locking) < 14 {
			e.locking = append(e.locking, n)
		}
		if len(e.shift) < 14 {
			e.shift = append(e.shift, n)
		}
	}
	return e
''')],
"an offer that repeats languages, so that the one required comes after fourteen others",
"languages late in a long offer are forgotten, so the message falls back to UCS-2",
r'''
package tpdu_test

import (
	"testing"

	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	l := []int{3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 1}
	_, _, alpha := tpdu.EncodeUserData([]byte("ğ"), tpdu.WithCharset(l...))
	if alpha != tpdu.Alpha7Bit {
		t.Fatal(alpha)
	}
}
''')

seed("c08-handlers-one-by-one", "C08", ".", [("collect.go",
'''			if c.expiryHandler != nil {
				c.expiryHandler(p.segments)
			}
''',
'''			if c.expiryHandler != nil {
				c.handle(p)
			}
'''), ("collect.go", '''func pduKey(''', '''// handle passes an expired set to the handler, one at a time.
func (c *Collector) handle(p *pipe) {
	c.handling.Lock()
	defer c.handling.Unlock()
	c.expiryHandler(p.segments)
}

func pduKey('''), ("collect.go", '''	closed        bool
''', '''	closed        bool
	handling      sync.Mutex // the handler is called for one set at a time
''')],
"an expiry handler that is still busy with one set when another expires",
"the other set is handed over late, or never if the handler waits for it",
r'''
package sms_test

import (
	"testing"
	"time"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func TestSeedDemo(t *testing.T) {
	got := make(chan bool, 2)
	release := make(chan bool)
	c := sms.NewCollector(sms.WithReassemblyTimeout(20*time.Millisecond, func([]*tpdu.TPDU) {
		got <- true
		<-release
	}))
	defer c.Close()
	defer close(release)
	for ref := byte(1); ref < 3; ref++ {
		p := tpdu.TPDU{}
		p.SetUDH(tpdu.UserDataHeader{{ID: 0, Data: []byte{ref, 2, 1}}})
		if _, err := c.Collect(p); err != nil {
			t.Fatal(err)
		}
	}
	for i := 0; i < 2; i++ {
		select {
		case <-got:
		case <-time.After(20 * time.Second):
			t.Fatal("did not expire")
		}
	}
}
''')

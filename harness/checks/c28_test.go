package checks

import (
	"fmt"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// C28: decoding uses the tables that are announced and permitted.

// permitted is the set of tables that decode options permit.
type permitted struct{ lock, shift map[int]bool }

func permits(opts []Opt) permitted {
	var s encState
	s.apply(opts...)
	p := permitted{map[int]bool{}, map[int]bool{}}
	for _, n := range s.lock {
		p.lock[n] = true
	}
	for _, n := range s.shift {
		p.shift[n] = true
	}
	return p
}

var allPermitted = permits([]Opt{{K: "all"}})

// tables are the languages of the tables used for a header, 0 for default.
func (p permitted) tables(udh []ref.IE) (lock, shift int) {
	for _, x := range udh { // the last counts
		switch x.ID {
		case lockingID():
			lock = int(x.Data[0])
		case shiftID():
			shift = int(x.Data[0])
		}
	}
	if !p.lock[lock] {
		lock = 0
	}
	if !p.shift[shift] {
		shift = 0
	}
	return ref.Lang(lock), ref.Lang(shift)
}

// DSeg is a segment to decode.
type DSeg struct {
	Type int
	DCS  byte
	UDH  []ref.IE
	UD   pbt.H
}

func (s DSeg) pdu() ref.PDU {
	p := ref.PDU{Type: s.Type, FO: byte(s.Type >> 1), DCS: s.DCS, UDH: s.UDH, UD: s.UD, PI: 6,
		Addr: ref.Addr{TOA: 0x91, Text: "123"}, SCTS: ref.Time{Y: 2020, Mo: 1, D: 2, H: 3}, DT: ref.Time{Y: 2021, Mo: 1, D: 2, H: 3}, ST: 3, FCS: 0xd0}
	if len(s.UDH) > 0 {
		p.FO |= 0x40
	}
	return p
}

type decodeCase struct {
	Segs []DSeg
	Opts []Opt
	Wire bool // the segments are unmarshalled
}

// decoded is what a segment decodes to.
func (s DSeg) decoded(p permitted, rest []byte) (text []byte, dangling []byte, o string) {
	q := s.pdu()
	switch q.Alpha() {
	case ref.Alpha8Bit:
		return s.UD, nil, "8 bit"
	case ref.AlphaUCS2:
		ud := append(append([]byte{}, rest...), s.UD...)
		if n := len(ud); n >= 2 && ref.IsHigh(ud[n-2:]) {
			ud, dangling = ud[:n-2], ud[n-2:]
		}
		return []byte(fromUTF16(ud)), dangling, "UCS-2"
	}
	l, h := p.tables(s.UDH)
	rs, _ := ref.DecodeSeptets(s.UD, ref.Locking(l), ref.Shift(h), false)
	return []byte(string(rs)), nil, fmt.Sprintf("7 bit %v", l != 0 || h != 0)
}

// fromUTF16 decodes well formed UTF-16.
func fromUTF16(b []byte) string {
	var rs []rune
	for i := 0; i+1 < len(b); i += 2 {
		r := rune(b[i])<<8 | rune(b[i+1])
		if r >= 0xd800 && r < 0xdc00 && i+3 < len(b) {
			r = 0x10000 + (r-0xd800)<<10 + (rune(b[i+2])<<8 | rune(b[i+3])) - 0xdc00
			i += 2
		}
		rs = append(rs, r)
	}
	return string(rs)
}

func checkDecoded(c decodeCase, o *pbt.Obs) error {
	fixTables()
	perm := permits(c.Opts)
	if len(c.Opts) == 0 {
		perm = allPermitted
	}
	var segs []*tpdu.TPDU
	var want, rest []byte
	kinds := map[string]bool{}
	for i, s := range c.Segs {
		p := s.pdu()
		t := toTPDU(p)
		if c.Wire {
			b, ok := p.Bytes()
			if !ok {
				return fmt.Errorf("harness: segment %d cannot be encoded", i)
			}
			dir := sms.AsMT
			if p.Type&1 == 1 {
				dir = sms.AsMO
			}
			u, err := sms.Unmarshal(b, dir)
			if err != nil {
				return fmt.Errorf("segment %d, %x: %v", i, b, err)
			}
			t = *u
		}
		segs = append(segs, &t)
		text, dangling, k := s.decoded(perm, rest)
		kinds[k] = true
		want = append(want, text...)
		rest = dangling
		for _, x := range s.UDH {
			if (x.ID == shiftID() || x.ID == lockingID()) && p.Alpha() == ref.Alpha7Bit {
				o.NT()
			}
		}
		// segments are decoded alone by DecodeUserData, where nothing is
		// permitted by default
		up := permits(c.Opts)
		text, _, k = s.decoded(up, nil)
		if k == "UCS-2" {
			continue
		}
		a, err := t.Alphabet()
		if err != nil {
			return fmt.Errorf("segment %d: %v", i, err)
		}
		_, dopts := udOpts(c.Opts)
		got, err := tpdu.DecodeUserData(t.UD, t.UDH, a, dopts...)
		if err != nil || !eqBytes(got, text) {
			return fmt.Errorf("DecodeUserData of segment %d: %q, %v, not %q", i, got, err, text)
		}
	}
	got, err := sms.Decode(segs, decodeOpts(c.Opts)...)
	if err != nil || !eqBytes(got, want) {
		return fmt.Errorf("Decode: %q, %v, not %q", got, err, want)
	}
	o.ClassIf(len(kinds) > 1, "mixed")
	for k := range kinds {
		o.Class(k)
	}
	return nil
}

// every septet, and every septet escaped
var everySeptet = func() (b pbt.H) {
	for i := 0; i < 128; i++ {
		if i != ref.Esc {
			b = append(b, byte(i))
		}
	}
	for i := 0; i < 128; i++ {
		if i != ref.Esc {
			b = append(b, ref.Esc, byte(i))
		}
	}
	return
}()

// enumPolicies lists the pairs of tables under policies that differ in which of
// the two they permit.
func enumPolicies(yield func(decodeCase) bool) {
	for lock := -1; lock < 17; lock++ {
		for shift := -1; shift < 17; shift++ {
			var udh []ref.IE
			if lock >= 0 {
				udh = append(udh, ref.IE{ID: lockingID(), Data: pbt.H{byte(lock)}})
			}
			if shift >= 0 {
				udh = append(udh, ref.IE{ID: shiftID(), Data: pbt.H{byte(shift)}})
			}
			l, s := max(lock, 0), max(shift, 0)
			for _, opts := range [][]Opt{
				nil,
				{{K: "all"}},
				{{K: "default"}},
				{{K: "charset", N: []int{l}}},
				{{K: "charset", N: []int{s}}},
				{{K: "lock", N: []int{l}}},
				{{K: "lock", N: []int{s}}},
				{{K: "shift", N: []int{s}}},
				{{K: "shift", N: []int{l}}},
				{{K: "lock", N: []int{l}}, {K: "shift", N: []int{s}}},
				{{K: "shift", N: []int{s}}, {K: "lock", N: []int{l}}},
				{{K: "lock", N: []int{s}}, {K: "shift", N: []int{l}}},
				{{K: "charset", N: []int{l}}, {K: "charset", N: []int{s}}},
				{{K: "charset", N: []int{l, s}}, {K: "default"}},
				{{K: "charset", N: []int{l + 1, s + 1}}},
			} {
				for _, dcs := range []byte{0, 0xf1} {
					if !yield(decodeCase{Segs: []DSeg{{DCS: dcs, UDH: udh, UD: everySeptet}}, Opts: opts}) {
						return
					}
				}
			}
		}
	}
	// identifiers that have no tables
	for id := 17; id < 256; id++ {
		for _, opts := range [][]Opt{nil, {{K: "all"}}, {{K: "charset", N: []int{id}}}} {
			udh := []ref.IE{{ID: shiftID(), Data: pbt.H{byte(id)}}, {ID: lockingID(), Data: pbt.H{byte(id)}}}
			if !yield(decodeCase{Segs: []DSeg{{UDH: udh, UD: everySeptet}}, Opts: opts}) {
				return
			}
		}
	}
}

// genDecoded draws lists of segments. Segments of UCS-2 may split a pair.
func genDecoded(t *rapid.T) decodeCase {
	c := decodeCase{Wire: oneIn(t, 2, "wire")}
	n := intn(t, 1, 5, "segs")
	var named []int
	low := pbt.H(nil)
	// segments of one message, some of which may lack the languages of others
	message := oneIn(t, 3, "message")
	wide := rapid.Bool().Draw(t, "wide")
	for i := 0; i < n; i++ {
		s := DSeg{Type: pick(t, "type", ref.Deliver, ref.Submit, ref.Deliver, ref.StatusReport, ref.DeliverReport, ref.SubmitReport)}
		s.UDH = plainUDH(t, 2)
		if message {
			s.UDH = []ref.IE{{ID: 0, Data: pbt.H{7, byte(n), byte(i + 1)}}}
			if wide {
				s.UDH = []ref.IE{{ID: 8, Data: pbt.H{7, 7, byte(n), byte(i + 1)}}}
			}
		}
		lang := func(id byte, label string) {
			if message && oneIn(t, 3, label+"Lacks") {
				return
			}
			for k := pick(t, label+"N", 0, 1, 1, 1, 1, 2); k > 0; k-- {
				nli := intn(t, 0, 14, label)
				if oneIn(t, 12, label+"Any") {
					nli = intn(t, 0, 255, label+"Octet")
				}
				if len(named) > 0 && oneIn(t, 3, label+"Same") {
					nli = named[len(named)-1]
				}
				named = append(named, nli)
				at := intn(t, 0, len(s.UDH), label+"At")
				s.UDH = append(s.UDH[:at:at], append([]ref.IE{{ID: id, Data: pbt.H{byte(nli)}}}, s.UDH[at:]...)...)
			}
		}
		lang(lockingID(), "lock")
		lang(shiftID(), "shift")
		kind := intn(t, 0, 7, "kind")
		if low != nil {
			kind = 5
		}
		switch kind {
		case 7:
			s.DCS = pick(t, "8bit", byte(4), 0xf4, 0x14)
			s.UD = octets(t, 0, 30, "octets")
		case 5, 6:
			s.DCS = pick(t, "ucs2", byte(8), 0x18, 0xe0)
			s.UD, low = low, nil
			for k := intn(t, 0, 20, "chars"); k > 0; k-- {
				s.UD = append(s.UD, utf16be([]rune{pick(t, "r", 'a', 'я', '中', '😀', '\U0010ffff', 'ÿ')})...)
			}
			if i+1 < n && oneIn(t, 3, "split") {
				e := utf16be([]rune{rapid.SampledFrom(emoji).Draw(t, "e")})
				s.UD, low = append(s.UD, e[:2]...), e[2:]
			}
		default:
			s.DCS = pick(t, "7bit", byte(0), 0x10, 0xf1, 0xc0, 0x01)
			for k := intn(t, 0, 40, "septets"); k > 0; k-- {
				x := byte(intn(t, 0, 126, "septet"))
				if x >= ref.Esc {
					x++
				}
				if oneIn(t, 3, "esc") {
					s.UD = append(s.UD, ref.Esc)
				}
				s.UD = append(s.UD, x)
			}
		}
		c.Segs = append(c.Segs, s)
	}
	// policies that tend to name the languages announced
	for k := pick(t, "nopts", 0, 0, 1, 1, 2, 3, 5, 12); k > 0; k-- {
		o := Opt{K: pick(t, "opt", "lock", "shift", "charset", "default", "all", "lock", "shift")}
		if o.K != "default" && o.K != "all" {
			for j := pick(t, "nlis", 0, 1, 2, 3, 4, 4, 9, 30); j > 0; j-- {
				if len(named) > 0 && !oneIn(t, 3, "other") {
					o.N = append(o.N, rapid.SampledFrom(named).Draw(t, "named"))
				} else {
					o.N = append(o.N, intn(t, 0, 14, "nli"))
				}
			}
		}
		c.Opts = append(c.Opts, o)
	}
	return c
}

func init() {
	pbt.Enum("C28", "tables", "a language is named", enumPolicies, checkDecoded)
	pbt.Random("C28", "mixed", 60000, "a language is named in a 7 bit segment", genDecoded, checkDecoded)
}

package checks

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/bcd"
	"github.com/warthog618/sms/encoding/gsm7"
	"github.com/warthog618/sms/encoding/gsm7/charset"
	"github.com/warthog618/sms/encoding/pdumode"
	"github.com/warthog618/sms/encoding/semioctet"
	"github.com/warthog618/sms/encoding/tpdu"
	"github.com/warthog618/sms/encoding/ucs2"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// C10: concurrent encoding and decoding.
//
// The checks run under the race detector. What a call gives is compared with
// what it gives alone, or with the model.

// together runs functions in goroutines that start at once.
func together(n int, f func(g int)) {
	var ready, done sync.WaitGroup
	var begin atomic.Bool
	ready.Add(n)
	done.Add(n)
	for g := 0; g < n; g++ {
		go func() {
			defer done.Done()
			ready.Done()
			for !begin.Load() {
				runtime.Gosched()
			}
			f(g)
		}()
	}
	ready.Wait()
	begin.Store(true)
	done.Wait()
}

// FirstUse is a call made by a process that has not used the library before.
type FirstUse struct {
	K           string
	Lock, Shift int
	Text        string
	N           int
}

type firstUseCase struct{ Calls [][]FirstUse } // of each goroutine

func (x FirstUse) do() (r string) {
	defer func() {
		if p := recover(); p != nil {
			r = fmt.Sprint("panic: ", p)
		}
	}()
	dopts, eopts := gsmOpts(x.Lock, x.Shift)
	switch x.K {
	case "encode":
		b, err := gsm7.Encode([]byte(x.Text), eopts...)
		return fmt.Sprintf("%x %v", b, err != nil)
	case "decode":
		b, err := gsm7.Decode(everySeptet, dopts...)
		return fmt.Sprintf("%x %v", b, err != nil)
	case "sms":
		ts, err := sms.Encode([]byte(x.Text), sms.WithCharset(x.Lock), sms.WithShiftCharset(x.Shift))
		r := fmt.Sprint(err != nil)
		for _, t := range ts {
			r += fmt.Sprintf(" %d %x", t.DCS, []byte(t.UD))
		}
		return r
	case "read":
		t := tpdu.TPDU{UD: tpdu.UserData(everySeptet), UDH: tpdu.UserDataHeader{{ID: lockingID(), Data: []byte{byte(x.Lock)}}, {ID: shiftID(), Data: []byte{byte(x.Shift)}}}}
		b, err := sms.Decode([]*tpdu.TPDU{&t})
		return fmt.Sprintf("%x %v", b, err != nil)
	case "tables":
		d, e := charset.NewDecoder(x.Lock), charset.NewEncoder(x.Lock)
		xd, xe := charset.NewExtDecoder(x.Shift), charset.NewExtEncoder(x.Shift)
		return fmt.Sprint(len(d), len(e), len(xd), len(xe))
	case "address":
		a := tpdu.Address{TOA: 0xd0, Addr: "abc"}
		b, err := a.MarshalBinary()
		var c tpdu.Address
		n, err2 := c.UnmarshalBinary(b)
		return fmt.Sprintf("%x %v %v %d %v", b, err != nil, c.Addr, n, err2 != nil)
	}
	return small(x.K, x.N)
}

// smallKinds are calls on values of their own.
var smallKinds = []string{"time", "vp", "addresses", "dcs", "udh", "bcd", "digits", "smsc", "strings", "report", "runes", "split", "gather", "numbers"}

// small makes a few calls that depend on n only.
func small(kind string, n int) (r string) {
	for i := 0; i < 6; i++ {
		k := n*5 + i
		switch kind {
		case "time":
			q := k%159 - 79
			z := byte(max(q, -q)%10<<4 | max(q, -q)/10)
			if q < 0 {
				z |= 8
			}
			var a tpdu.Timestamp
			err := a.UnmarshalBinary([]byte{byte(k % 10 << 4), 0x21, byte(k % 3), 0x32, 0x54, 0x10, z})
			b, err2 := a.MarshalBinary()
			r += fmt.Sprint(a, err, b, err2)
		case "vp":
			var v, w, x tpdu.ValidityPeriod
			n, err := v.UnmarshalBinary([]byte{byte(k)}, tpdu.VpfRelative)
			b, err2 := v.MarshalBinary()
			m, err3 := w.UnmarshalBinary([]byte{byte(k % 4), 0x11, 0, 0, 0, 0, 0}, tpdu.VpfEnhanced)
			x.SetEnhanced(v.Duration, byte(k%4))
			c, err4 := x.MarshalBinary()
			r += fmt.Sprint(v.Duration, n, err, b, err2, w.Duration, w.EFI, m, err3, c, err4)
		case "addresses":
			a := tpdu.NewAddress(tpdu.FromNumber(fmt.Sprint("+", k)))
			a.SetTypeOfNumber(tpdu.TypeOfNumber(k % 8))
			b, err := a.MarshalBinary()
			var c tpdu.Address
			m, err2 := c.UnmarshalBinary(b)
			r += fmt.Sprint(a, a.Number(), b, err, c, m, err2)
		case "dcs":
			d := tpdu.DCS(k)
			a, err := d.Alphabet()
			c, err2 := d.Class()
			e, err3 := d.WithAlphabet(tpdu.Alphabet(k % 3))
			f, err4 := d.WithClass(tpdu.MessageClass(k % 4))
			r += fmt.Sprint(d, a, err, c, err2, e, err3, f, err4, d.Compressed())
		case "udh":
			h := tpdu.UserDataHeader{{ID: byte(k), Data: []byte{1, 2, byte(k)}}, {ID: 8, Data: []byte{byte(k), 1, 2, 1}}}
			b, err := h.MarshalBinary()
			var g tpdu.UserDataHeader
			m, err2 := g.UnmarshalBinary(b)
			s, q, c, ok := g.ConcatInfo()
			ie, found := g.IE(byte(k))
			r += fmt.Sprint(b, err, g, m, err2, s, q, c, ok, ie, found, g.IEs(8), g.UDHL())
		case "bcd":
			a, err := bcd.Encode(k % 101)
			b, err2 := bcd.EncodeSigned(k%170 - 85)
			c, err3 := bcd.Decode(byte(k))
			d, err4 := bcd.DecodeSigned(byte(k))
			r += fmt.Sprint(a, err, b, err2, c, err3, d, err4)
		case "digits":
			a, err := semioctet.Encode([]byte(fmt.Sprint(k, "*#abc")))
			b, m, err2 := semioctet.Decode(make([]byte, 12), []byte{byte(k), byte(k >> 1), 0x21})
			r += fmt.Sprint(a, err, b, m, err2)
		case "smsc":
			p := pdumode.PDU{SMSC: pdumode.SMSCAddress{Address: tpdu.Address{TOA: byte(k), Addr: fmt.Sprint(k)}}, TPDU: []byte{1, byte(k)}}
			h, err := p.MarshalHexString()
			q, err2 := pdumode.UnmarshalHexString(h)
			r += fmt.Sprint(h, err, q, err2)
		case "strings":
			r += fmt.Sprint(tpdu.SmsType(k%7), tpdu.MessageType(k%5), tpdu.PI(k), tpdu.ValidityPeriodFormat(k%6), tpdu.EnhancedValidityPeriodFormat(k%6), tpdu.ErrUnsupportedSmsType(k))
		case "report":
			t := tpdu.TPDU{Direction: tpdu.Direction(k % 2)}
			err := t.UnmarshalBinary([]byte{byte(k / 2 % 3), 1, 6, byte(k), 0x11, 0x11, 0x11, 0x11, 0x11, 0x11, 0x23, 4, 2, 1, byte(k)})
			b, err2 := t.MarshalBinary()
			r += fmt.Sprint(t, err, b, err2, t.UDBlockSize())
		case "runes":
			u := []rune{rune(0x40 + k), 0x1f600, rune(0x10000 + k)}
			b := ucs2.Encode(u)
			c, err := ucs2.Decode(b[:len(b)-2*(k%2)])
			r += fmt.Sprint(b, c, err)
		case "split":
			t, err := tpdu.NewSubmit(tpdu.WithDA(tpdu.NewAddress(tpdu.FromNumber("123"))), tpdu.DCS(4*(k%3)))
			if err != nil {
				return err.Error()
			}
			for _, s := range t.Segment(bytes.Repeat([]byte{byte(k)}, 140+2*(k%99))) {
				b, err := s.MarshalBinary()
				r += fmt.Sprintf("%x %v", b, err)
			}
		case "gather":
			c := sms.NewCollector()
			for seq := 1; seq < 3; seq++ {
				t := tpdu.TPDU{UD: []byte{byte(k) & 0x7f}, OA: tpdu.Address{TOA: 0x91, Addr: fmt.Sprint(k)}}
				t.SetUDH(tpdu.UserDataHeader{{ID: 0, Data: []byte{byte(k), 2, byte(seq)}}})
				d, err := c.Collect(t)
				r += fmt.Sprint(len(d), err, len(c.Pipes()))
				if d != nil {
					m, err := sms.Decode(d)
					r += fmt.Sprint(m, err)
				}
			}
			c.Close()
		case "numbers":
			ts, err := sms.Encode([]byte("hello"), sms.To(fmt.Sprint("+", k)), sms.From(fmt.Sprint(k)))
			r += fmt.Sprint(ts, err)
		default:
			panic(kind)
		}
	}
	return r
}

// want is the result according to the model, or "" if it is not known.
func (x FirstUse) want() string {
	text := []rune(x.Text)
	switch x.K {
	case "encode":
		if !ref.Encodable(text, x.Lock, x.Shift) {
			return " true"
		}
		// only the length is certain, but what it decodes to is
		return ""
	case "decode", "read":
		rs, _ := ref.DecodeSeptets(everySeptet, ref.Locking(x.Lock), ref.Shift(x.Shift), false)
		return fmt.Sprintf("%x false", string(rs))
	}
	return ""
}

// firstUses is what a new process does for a case.
func firstUses(c firstUseCase) error {
	got := make([][]string, len(c.Calls))
	together(len(c.Calls), func(g int) {
		for _, x := range c.Calls[g] {
			got[g] = append(got[g], x.do())
		}
	})
	fixTables()
	for g, calls := range c.Calls {
		for i, x := range calls {
			if w := x.want(); w != "" && w != got[g][i] {
				return fmt.Errorf("goroutine %d, call %d, %+v: %s, not %s", g, i, x, got[g][i], w)
			}
			if again := x.do(); again != got[g][i] {
				return fmt.Errorf("goroutine %d, call %d, %+v: %s, but later %s", g, i, x, got[g][i], again)
			}
		}
	}
	return nil
}

func TestMain(m *testing.M) {
	if s := os.Getenv("VERIF_FIRST_USE"); s != "" {
		var c firstUseCase
		if err := json.Unmarshal([]byte(s), &c); err != nil {
			fmt.Println("INFRA", err)
			os.Exit(3)
		}
		if err := firstUses(c); err != nil {
			fmt.Println("FAILED", err)
			os.Exit(9)
		}
		fmt.Println("PASSED")
		os.Exit(0)
	}
	os.Exit(m.Run())
}

func checkFirstUse(c firstUseCase, o *pbt.Obs) error {
	b, err := json.Marshal(c)
	if err != nil {
		return fmt.Errorf("%w: %v", errInfra, err)
	}
	o.NTIf(len(c.Calls) > 1)
	cmd := exec.Command("/proc/self/exe")
	cmd.Env = append(os.Environ(), "VERIF_FIRST_USE="+string(b), "GORACE=halt_on_error=1 exitcode=67 atexit_sleep_ms=0")
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err = cmd.Run()
	text := out.String()
	if len(text) > 4000 {
		text = text[:4000]
	}
	var x *exec.ExitError
	switch {
	case err == nil && strings.HasPrefix(text, "PASSED"):
		return nil
	case !errors.As(err, &x):
		return fmt.Errorf("%w: %v %s", errInfra, err, text)
	case x.ExitCode() == 9 || strings.Contains(text, "/repo/"):
		return fmt.Errorf("first use from %d goroutines: %s", len(c.Calls), text)
	}
	panic(fmt.Sprintf("harness: %v: %s", err, text))
}

func genFirstUse(t *rapid.T) firstUseCase {
	var c firstUseCase
	same := intn(t, 0, 13, "same")
	sameN := intn(t, 0, 255, "sameN")
	sameKind := rapid.SampledFrom(smallKinds).Draw(t, "sameKind")
	for g := intn(t, 2, 12, "goroutines"); g > 0; g-- {
		var l []FirstUse
		for i := intn(t, 1, 3, "calls"); i > 0; i-- {
			x := FirstUse{K: pick(t, "k", "encode", "decode", "sms", "read", "tables", "address", "small", "small", "small"), Lock: same, Shift: same, N: sameN}
			if x.K == "small" {
				x.K = sameKind
				if oneIn(t, 3, "otherKind") {
					x.K = rapid.SampledFrom(smallKinds).Draw(t, "smallKind")
				}
				if !oneIn(t, 3, "sameN") {
					x.N = intn(t, 0, 255, "n")
				}
			}
			if oneIn(t, 3, "other") {
				x.Lock, x.Shift = intn(t, 0, 13, "lock"), intn(t, 0, 13, "shift")
			}
			for k := intn(t, 0, 8, "len"); k > 0; k-- {
				chars := ref.LockChars(x.Lock)
				if oneIn(t, 3, "fromShift") {
					chars = ref.ShiftChars(x.Shift)
				}
				x.Text += string(rapid.SampledFrom(chars).Draw(t, "r"))
			}
			l = append(l, x)
		}
		c.Calls = append(c.Calls, l)
	}
	return c
}

// one encoder used by several goroutines

type sharedCase struct {
	Opts   []Opt
	Plan   [][]chatMsg // of each goroutine
	Copies bool        // goroutines use copies of the encoder
	Own    bool        // counters are provided
}

func checkShared(c sharedCase, o *pbt.Obs) error {
	fixTables()
	var g guards
	base := g.options(c.Opts)
	e := sms.NewEncoder(base...)
	if c.Own {
		e.MsgCount, e.ConcatRef = &sms.Counter{}, &sms.Counter{}
	}
	type result struct {
		ts  []tpdu.TPDU
		err error
	}
	perCall := make([][][]sms.EncoderOption, len(c.Plan))
	texts := make([][][]byte, len(c.Plan))
	results := make([][]result, len(c.Plan))
	// options and texts that are the same are shared
	seen := map[string][]sms.EncoderOption{}
	seenText := map[string][]byte{}
	for i, p := range c.Plan {
		for _, m := range p {
			k, _ := json.Marshal(m.Opts)
			if _, ok := seen[string(k)]; !ok {
				seen[string(k)] = g.options(m.Opts)
			}
			perCall[i] = append(perCall[i], seen[string(k)])
			if _, ok := seenText[m.Text]; !ok {
				seenText[m.Text] = g.octets([]byte(m.Text), "the message")
			}
			texts[i] = append(texts[i], seenText[m.Text])
		}
		results[i] = make([]result, len(p))
	}
	together(len(c.Plan), func(n int) {
		use := e
		if c.Copies && n%2 == 1 {
			d := *e
			use = &d
		}
		for i := range c.Plan[n] {
			r := &results[n][i]
			r.ts, r.err = use.Encode(texts[n][i], perCall[n][i]...)
		}
	})
	if err := g.check(); err != nil {
		return err
	}
	var mrs, crs []int
	for n, p := range c.Plan {
		for i, m := range p {
			alone, err := sms.NewEncoder(lib(c.Opts)...).Encode([]byte(m.Text), lib(m.Opts)...)
			r := results[n][i]
			if (err != nil) != (r.err != nil) || err != nil && err.Error() != r.err.Error() {
				return fmt.Errorf("goroutine %d, message %d: %v, but alone %v", n, i, r.err, err)
			}
			if e := eqTPDUs(stripRefs(r.ts), stripRefs(alone)); e != nil {
				return fmt.Errorf("goroutine %d, message %d, compared with alone: %w", n, i, e)
			}
			first := -1
			for k, t := range r.ts {
				mrs = append(mrs, int(t.MR))
				seg, seq, cr, ok := t.ConcatInfo()
				if !ok {
					continue
				}
				if seg != len(r.ts) || seq != k+1 {
					return fmt.Errorf("goroutine %d, message %d: TPDU %d of %d is %d of %d", n, i, k+1, len(r.ts), seq, seg)
				}
				if first < 0 {
					first = cr
					crs = append(crs, cr)
				} else if cr != first {
					return fmt.Errorf("goroutine %d, message %d: references %d and %d", n, i, first, cr)
				}
			}
			if len(r.ts) > 1 {
				o.Class("segmented")
			}
		}
	}
	if err := eachOnce("message references", mrs); err != nil {
		return err
	}
	if err := eachOnce("concatenation references", crs); err != nil {
		return err
	}
	for what, x := range map[string]struct {
		c tpdu.Counter
		n int
	}{"message": {e.MsgCount, len(mrs)}, "concatenation": {e.ConcatRef, len(crs)}} {
		if k, ok := x.c.(*sms.Counter); ok && k.Read() != x.n {
			return fmt.Errorf("the %s counter is %d after %d", what, k.Read(), x.n)
		}
	}
	o.NTIf(len(c.Plan) > 1 && len(mrs) > 1)
	return nil
}

// eachOnce checks that the references are those of a counter from 1.
func eachOnce(what string, refs []int) error {
	var want []int
	for i := range refs {
		want = append(want, (i+1)&0xff)
	}
	got := slices.Clone(refs)
	slices.Sort(got)
	slices.Sort(want)
	if !slices.Equal(got, want) {
		return fmt.Errorf("the %s of %d are %v, not each of the numbers once", what, len(refs), got)
	}
	return nil
}

func genShared(t *rapid.T) sharedCase {
	c := sharedCase{Copies: oneIn(t, 3, "copies"), Own: oneIn(t, 3, "own")}
	if oneIn(t, 2, "template") {
		c.Opts = append(c.Opts, genTemplate(t, ref.Submit, ref.Deliver))
	}
	c.Opts = append(c.Opts, genCharsetOpts(t)...)
	if oneIn(t, 3, "carrier") {
		c.Opts = append(c.Opts, genCarrier(t)...)
	}
	// few messages, so that calls of the same kind meet
	var msgs []chatMsg
	for i := intn(t, 1, 4, "msgs"); i > 0; i-- {
		m := chatMsg{Text: genText(t, 3)}
		if oneIn(t, 2, "perCall") {
			m.Opts = genOffer(t, m.Text)
			if oneIn(t, 3, "other") {
				m.Opts = append(m.Opts, pick(t, "opt", Opt{K: "to", S: "123"}, Opt{K: "udh", U: []ref.IE{{ID: 0x70, Data: pbt.H{1}}}}, Opt{K: "8bit"}, Opt{K: "submit"}, Opt{K: "deliver"}))
			}
		}
		msgs = append(msgs, m)
	}
	for g := intn(t, 2, 8, "goroutines"); g > 0; g-- {
		var p []chatMsg
		for i := intn(t, 1, 6, "calls"); i > 0; i-- {
			p = append(p, rapid.SampledFrom(msgs).Draw(t, "msg"))
		}
		c.Plan = append(c.Plan, p)
	}
	return c
}

// values shared by calls of every kind

// Task is a call on shared values.
type Task struct {
	K    string
	N    int // which of the values
	Opts []Opt
}

type tasksCase struct {
	Msgs  []encSegCase
	B     []pbt.H
	Tasks [][]Task // of each goroutine
}

type shared struct {
	sets [][]*tpdu.TPDU
	raw  [][]byte
	dirs []sms.UnmarshalOption
	b    [][]byte
	tmpl []tpdu.TPDU
	mr   []*sms.Counter
	text [][]byte
	gd   gsm7.Decoder
	ge   gsm7.Encoder
}

var taskKinds = []string{"encode", "decode", "decode", "marshal", "marshal", "unmarshal", "segment", "segment", "userdata", "complete", "gsm7", "pack", "ucs2", "semioctet", "pdumode", "read", "gsm7value", "collect"}

func (x Task) do(v *shared) (r string) {
	defer func() {
		if p := recover(); p != nil {
			r = fmt.Sprint("panic: ", p)
		}
	}()
	set := v.sets[x.N%len(v.sets)]
	raw := v.raw[x.N%len(v.raw)]
	b := v.b[x.N%len(v.b)]
	switch x.K {
	case "encode":
		k := x.N % len(v.text)
		ts, err := sms.Encode(v.text[k], lib(x.Opts)...)
		return fmt.Sprintf("%+v %v", ts, err)
	case "decode":
		d, err := sms.Decode(set, decodeOpts(x.Opts)...)
		return fmt.Sprintf("%q %v", d, err)
	case "userdata":
		_, d := udOpts(x.Opts)
		t := set[x.N%len(set)]
		a, _ := t.Alphabet()
		m, err := tpdu.DecodeUserData(t.UD, t.UDH, a, d...)
		return fmt.Sprintf("%q %v", m, err)
	case "marshal":
		m, err := set[x.N%len(set)].MarshalBinary()
		return fmt.Sprintf("%x %v", m, err)
	case "unmarshal":
		t, err := sms.Unmarshal(raw, v.dirs[x.N%len(v.raw)])
		return fmt.Sprintf("%+v %v", t, err)
	case "segment":
		k := x.N % len(v.tmpl)
		var opts []tpdu.SegmentationOption
		opts = append(opts, tpdu.WithMR(v.mr[k]), tpdu.WithConcatRef(v.mr[k]))
		return fmt.Sprintf("%+v", stripRefs(v.tmpl[k].Segment(v.b[x.N%len(v.b)], opts...)))
	case "complete":
		return fmt.Sprint(sms.IsCompleteMessage(set))
	case "gsm7":
		d, e := gsmOpts(x.N%14, x.N/14%14)
		m, err := gsm7.Decode(b, d...)
		n, err2 := gsm7.Encode(v.text[x.N%len(v.text)], e...)
		return fmt.Sprintf("%x %v %x %v", m, err, n, err2)
	case "gsm7value":
		m, err := v.gd.Decode(b)
		n, err2 := v.ge.Encode(v.text[x.N%len(v.text)])
		return fmt.Sprintf("%x %v %x %v", m, err, n, err2)
	case "pack":
		p := gsm7.Pack7Bit(b, x.N%7)
		return fmt.Sprintf("%x %x %x %x", p, gsm7.Unpack7Bit(b, x.N%7), gsm7.Pack7BitUSSD(b, 0), gsm7.Unpack7BitUSSD(b, 0))
	case "ucs2":
		d, err := ucs2.Decode(b)
		return fmt.Sprintf("%v %v %x", d, err, ucs2.Encode([]rune("aя😀")))
	case "semioctet":
		e, err := semioctet.Encode([]byte("12345*#abc"))
		d, n, err2 := semioctet.Decode(make([]byte, 2*len(b)), b)
		return fmt.Sprintf("%x %v %x %d %v", e, err, d, n, err2)
	case "pdumode":
		p := pdumode.PDU{SMSC: pdumode.SMSCAddress{Address: tpdu.Address{TOA: 0x91, Addr: "1234567"}}, TPDU: raw}
		h, err := p.MarshalHexString()
		q, err2 := pdumode.UnmarshalHexString(h)
		return fmt.Sprintf("%s %v %+v %v", h, err, q, err2)
	case "read":
		t := set[x.N%len(set)]
		s, q, m, ok := t.ConcatInfo()
		return fmt.Sprint(s, q, m, ok, t.UDBlockSize(), t.SmsType(), t.DCS.String(), t.OA.Number(), t.PI.String(), t.SCTS.String())
	case "collect":
		c := sms.NewCollector()
		defer c.Close()
		for _, t := range set {
			d, err := c.Collect(*t)
			r += fmt.Sprint(len(d), err, ";")
			if d != nil {
				m, err := sms.Decode(d)
				r += fmt.Sprintf("%q %v", m, err)
			}
		}
		return r
	}
	return small(x.K, x.N)
}

func checkTasks(c tasksCase, o *pbt.Obs) error {
	fixTables()
	var g guards
	v := &shared{gd: gsm7.NewDecoder(), ge: gsm7.NewEncoder()}
	for _, m := range c.Msgs {
		v.text = append(v.text, g.octets([]byte(m.Text), "the text"))
		ts, err := sms.Encode([]byte(m.Text), lib(m.Opts)...)
		if err != nil {
			continue
		}
		var set []*tpdu.TPDU
		for _, t := range ts {
			set = append(set, g.tpdu(t, "a segment"))
			b, err := t.MarshalBinary()
			if err != nil {
				return err
			}
			v.raw = append(v.raw, g.octets(b, "the octets"))
			v.dirs = append(v.dirs, map[tpdu.Direction]sms.UnmarshalOption{tpdu.MO: sms.AsMO, tpdu.MT: sms.AsMT}[t.Direction])
		}
		if len(set) > 0 {
			v.sets = append(v.sets, set)
			t := *set[0]
			v.tmpl = append(v.tmpl, *g.tpdu(tpdu.TPDU{FirstOctet: t.FirstOctet&^0x40 | 0x40, Direction: t.Direction, DA: t.DA, OA: t.OA, DCS: t.DCS,
				UDH: tpdu.UserDataHeader{{ID: 0x70, Data: []byte{1, 2}}}}, "the template"))
			v.mr = append(v.mr, &sms.Counter{})
		}
	}
	if len(v.sets) == 0 {
		return nil
	}
	for _, b := range c.B {
		v.b = append(v.b, g.octets(b, "the data"))
	}
	got := make([][]string, len(c.Tasks))
	together(len(c.Tasks), func(n int) {
		for _, x := range c.Tasks[n] {
			got[n] = append(got[n], x.do(v))
		}
	})
	if err := g.check(); err != nil {
		return err
	}
	kinds := map[string]bool{}
	for n, l := range c.Tasks {
		for i, x := range l {
			kinds[x.K] = true
			if alone := x.do(v); alone != got[n][i] && norm(alone) != norm(got[n][i]) {
				return fmt.Errorf("goroutine %d, call %d, %s: %.600s, but alone %.600s", n, i, x.K, got[n][i], alone)
			}
		}
	}
	o.NTIf(len(c.Tasks) > 1)
	for k := range kinds {
		o.Class(k)
	}
	return nil
}

// norm removes pointers from printed values.
func norm(s string) string {
	for {
		i := strings.Index(s, "0xc0")
		if i < 0 {
			return s
		}
		j := i + 4
		for j < len(s) && strings.IndexByte("0123456789abcdef", s[j]) >= 0 {
			j++
		}
		s = s[:i] + "@" + s[j:]
	}
}

func genTasks(t *rapid.T) tasksCase {
	var c tasksCase
	for i := intn(t, 1, 3, "msgs"); i > 0; i-- {
		text := genText(t, 3)
		c.Msgs = append(c.Msgs, encSegCase{text, append(genCarrier(t), genOffer(t, text)...)})
	}
	for i := intn(t, 1, 3, "data"); i > 0; i-- {
		b := octets(t, 0, 12, "octets")
		if oneIn(t, 3, "repeat") {
			b = bytes.Repeat(b, pick(t, "times", 30, 30, 300))
		}
		for k := range b {
			b[k] &= 0x7f
		}
		c.B = append(c.B, b)
	}
	var kinds []string
	for i := intn(t, 1, 4, "kinds"); i > 0; i-- {
		if oneIn(t, 3, "small") {
			kinds = append(kinds, rapid.SampledFrom(smallKinds).Draw(t, "smallKind"))
			continue
		}
		kinds = append(kinds, rapid.SampledFrom(taskKinds).Draw(t, "kind"))
	}
	for g := intn(t, 2, 8, "goroutines"); g > 0; g-- {
		var l []Task
		for i := intn(t, 1, 6, "tasks"); i > 0; i-- {
			x := Task{K: rapid.SampledFrom(kinds).Draw(t, "k"), N: intn(t, 0, 195, "n")}
			switch x.K {
			case "encode", "decode", "userdata":
				x.Opts = genCharsetOpts(t)
			}
			l = append(l, x)
		}
		c.Tasks = append(c.Tasks, l)
	}
	return c
}

// counters

type counterCase struct {
	Plan  []int // calls of each goroutine
	Reads int
}

func checkCounter(c counterCase, o *pbt.Obs) error {
	var k sms.Counter
	got := make([][]int, len(c.Plan))
	together(len(c.Plan)+1, func(n int) {
		if n == len(c.Plan) {
			last := 0
			for i := 0; i < c.Reads; i++ {
				if v := k.Read(); v < last {
					panic(fmt.Sprintf("sms.Counter in /repo/ goes from %d back to %d", last, v))
				} else {
					last = v
				}
			}
			return
		}
		for i := 0; i < c.Plan[n]; i++ {
			got[n] = append(got[n], k.Count())
		}
	})
	var all []int
	for n, l := range got {
		if !slices.IsSorted(l) {
			return fmt.Errorf("goroutine %d counts %v", n, l)
		}
		all = append(all, l...)
	}
	slices.Sort(all)
	for i, v := range all {
		if v != i+1 {
			return fmt.Errorf("the counts are %v", all)
		}
	}
	if k.Read() != len(all) {
		return fmt.Errorf("the counter is %d after %d", k.Read(), len(all))
	}
	o.NTIf(len(c.Plan) > 1)
	return nil
}

func init() {
	pbt.Random("C10", "firstUse", 480, "several goroutines of a new process", genFirstUse, checkFirstUse).NoFuzz = true
	pbt.Random("C10", "encoder", 4000, "two or more goroutines, and TPDUs", genShared, checkShared).NoFuzz = true
	pbt.Random("C10", "values", 6000, "two or more goroutines", genTasks, checkTasks).NoFuzz = true
	pbt.Random("C10", "counter", 2000, "two or more goroutines", func(t *rapid.T) counterCase {
		return counterCase{rapid.SliceOfN(rapid.IntRange(1, 40), 1, 8).Draw(t, "plan"), intn(t, 0, 30, "reads")}
	}, checkCounter).NoFuzz = true
}

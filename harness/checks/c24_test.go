package checks

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/pdumode"
	"github.com/warthog618/sms/encoding/tpdu"
	"github.com/warthog618/sms/encoding/ucs2"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// C24: the commands, which check.py builds into VERIF_BIN.

type ran struct {
	args     []string
	exit     int
	out, err string
}

func (r ran) String() string {
	return fmt.Sprintf("%.300q exits %d with %.600q and %.600q", r.args, r.exit, r.out, r.err)
}

// run runs a command. It is an error if it crashes or says nothing.
func run(tool string, args ...string) (r ran, err error) {
	dir := os.Getenv("VERIF_BIN")
	if dir == "" {
		panic("VERIF_BIN is not set")
	}
	r.args = append([]string{tool}, args...)
	for _, a := range args {
		if len(a) > 100000 || strings.Contains(a, "\x00") {
			panic("not an argument")
		}
	}
	cmd := exec.Command(filepath.Join(dir, tool), args...)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GOMAXPROCS=2")
	var out, errOut bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errOut
	e := cmd.Run()
	r.out, r.err = out.String(), errOut.String()
	var x *exec.ExitError
	if errors.As(e, &x) {
		r.exit = x.ExitCode()
	} else if e != nil {
		panic(fmt.Sprintf("harness: cannot run %s: %v", tool, e))
	}
	if r.exit < 0 || strings.Contains(r.err, "\ngoroutine ") && (strings.Contains(r.err, "panic: ") || strings.Contains(r.err, "fatal error: ")) {
		return r, fmt.Errorf("crash: %s", r)
	}
	if r.out == "" && r.err == "" {
		return r, fmt.Errorf("no output: %s", r)
	}
	return r, nil
}

// failed checks that a command ended in a message rather than in output.
func (r ran) failed() error {
	if r.exit == 0 && r.err == "" {
		return fmt.Errorf("no error is reported: %s", r)
	}
	return nil
}

var hexLine = regexp.MustCompile(`^[0-9a-fA-F]{2,}$`)

// pdus are the lines that are octets.
func (r ran) pdus() (l [][]byte) {
	for _, s := range strings.Split(r.out, "\n") {
		if hexLine.MatchString(s) && len(s)%2 == 0 {
			b, _ := hex.DecodeString(s)
			l = append(l, b)
		}
	}
	return
}

type submitCase struct {
	Number, Text string
	NLI          int
}

func (c submitCase) args() []string {
	a := []string{"-message", c.Text}
	if c.NLI != 0 {
		a = append(a, "-language", strconv.Itoa(c.NLI))
	}
	return a
}

// octets are what the library makes of it.
func (c submitCase) octets(as sms.EncoderOption) (l [][]byte, err error) {
	opts := []sms.EncoderOption{as, sms.To(c.Number)}
	if c.NLI != 0 {
		opts = append(opts, sms.WithCharset(c.NLI))
	}
	ts, err := sms.Encode([]byte(c.Text), opts...)
	if err != nil {
		return nil, err
	}
	for _, t := range ts {
		b, err := t.MarshalBinary()
		if err != nil {
			return nil, err
		}
		l = append(l, b)
	}
	return
}

func checkSubmitTool(c submitCase, o *pbt.Obs) error {
	r, err := run("smssubmit", append(c.args(), "-number", c.Number)...)
	if err != nil {
		return err
	}
	if c.Number == "" || c.Text == "" {
		return r.failed()
	}
	want, err := c.octets(sms.AsSubmit)
	got := r.pdus()
	if err != nil {
		o.Class("refused")
		if len(got) > 0 {
			return fmt.Errorf("PDUs of a message that gives %v: %s", err, r)
		}
		return r.failed()
	}
	if len(got) != len(want) || r.exit != 0 {
		return fmt.Errorf("%d PDUs, not %d: %s", len(got), len(want), r)
	}
	for i := range want {
		if !eqBytes(got[i], want[i]) {
			return fmt.Errorf("PDU %d of %d is %x, not %x", i+1, len(want), got[i], want[i])
		}
	}
	// the last of them in the other tools
	d, err := run("smsdecode", "-o", hex.EncodeToString(got[len(got)-1]))
	if err != nil {
		return err
	}
	t, err := sms.Unmarshal(got[len(got)-1], sms.AsMO)
	if err != nil {
		return err
	}
	if err := d.shows(t); err != nil {
		return err
	}
	n, err := run("smscounter", c.args()...)
	if err != nil {
		return err
	}
	if k, err := n.count(); err != nil || k.messages != len(got) {
		return fmt.Errorf("smssubmit gives %d PDUs but smscounter %d, %v: %s", len(got), k.messages, err, n)
	}
	o.NT()
	o.ClassIf(len(got) > 1, "segmented")
	return nil
}

// argText draws text that can be an argument.
func argText(t *rapid.T, maxSegs int) string {
	return strings.ReplaceAll(genText(t, maxSegs), "\x00", "")
}

func genSubmitTool(t *rapid.T) submitCase {
	c := submitCase{Number: genNumber(t, "number"), Text: argText(t, 4)}
	if oneIn(t, 8, "odd") {
		c.Number = pick(t, "oddNumber", "", "+", "1x", "*#abc", "12345678901234567890", "++1", "0", strings.Repeat("1", 30), strings.Repeat("12", 150))
	}
	c.NLI = genToolNLI(t, c.Text)
	if oneIn(t, 10, "empty") {
		c.Text = ""
	}
	if oneIn(t, 150, "huge") { // about 255 segments
		if oneIn(t, 2, "gsm") {
			c.Text = strings.Repeat("a", 255*153+intn(t, -200, 200, "more"))
		} else {
			c.Text = strings.Repeat("中", 255*67+intn(t, -80, 80, "more"))
		}
		c.NLI = 0
	}
	return c
}

// genToolNLI draws a language, often one that suffices.
func genToolNLI(t *rapid.T, text string) int {
	if oneIn(t, 2, "language") {
		return 0
	}
	var fit []int
	for n := 1; n < ref.Languages; n++ {
		if ref.Encodable([]rune(text), n, n) {
			fit = append(fit, n)
		}
	}
	if len(fit) > 0 && !oneIn(t, 4, "any") {
		return rapid.SampledFrom(fit).Draw(t, "fit")
	}
	return genNLI(t, "nli")
}

// smscounter

type counted struct {
	encoding                       string
	messages, per, last, remaining int
}

func (r ran) count() (c counted, err error) {
	f := map[string]string{}
	for _, l := range strings.Split(r.out, "\n") {
		if i := strings.LastIndex(l, ": "); i > 0 {
			f[l[:i]] = l[i+2:]
		}
	}
	num := func(k string) int {
		n, e := strconv.Atoi(f[k])
		if e != nil {
			err = fmt.Errorf("%s: %w", k, e)
		}
		return n
	}
	c.encoding = f["encoding"]
	c.messages, c.per, c.last, c.remaining = num("messages"), num("per_message"), num("last PDU length"), num("remaining")
	return
}

type countCase struct {
	Text string
	NLI  int
}

func checkCount(c countCase, o *pbt.Obs) error {
	fixTables()
	s := submitCase{Text: c.Text, NLI: c.NLI}
	r, err := run("smscounter", s.args()...)
	if err != nil {
		return err
	}
	if c.Text == "" {
		return r.failed()
	}
	var st encState
	st.apply(Opt{K: "submit"})
	if c.NLI != 0 {
		st.apply(Opt{K: "charset", N: []int{c.NLI}})
	}
	e := st.expected([]byte(c.Text))
	if e.tooLong {
		o.Class("too long")
		if r.exit == 0 {
			return fmt.Errorf("a message of %d segments is counted: %s", e.count, r)
		}
		return r.failed()
	}
	n, err := r.count()
	if err != nil || r.exit != 0 {
		return fmt.Errorf("%v: %s", err, r)
	}
	if n.messages != e.count {
		return fmt.Errorf("%d messages, not %d: %s", n.messages, e.count, r)
	}
	enc := "7BIT"
	more, unit := "a", 1
	switch {
	case e.alpha == ref.AlphaUCS2:
		enc, unit = "UCS-2", 2
	case e.units > len(e.text):
		enc = "7BIT_EX"
	}
	if n.encoding != enc {
		return fmt.Errorf("encoding %s, not %s: %s", n.encoding, enc, r)
	}
	per := e.single
	if e.count > 1 {
		per = e.multi
	}
	if n.per != per/unit {
		return fmt.Errorf("%d per message, not %d: %s", n.per, per/unit, r)
	}
	if n.remaining < 0 || n.remaining > per {
		return fmt.Errorf("room for %d more: %s", n.remaining, r)
	}
	if e.alpha == ref.Alpha7Bit {
		more = string(ref.LockChars(e.choice.Lock)[5])
	}
	fits := st.expected([]byte(c.Text + strings.Repeat(more, n.remaining)))
	over := st.expected([]byte(c.Text + strings.Repeat(more, n.remaining+1)))
	if fits.alpha != e.alpha || fits.choice != e.choice || over.choice != e.choice {
		return fmt.Errorf("%w: %q changes the alphabet", errInfra, more)
	}
	if fits.count != e.count {
		return fmt.Errorf("there is not room for %d more: %s", n.remaining, r)
	}
	if over.count == e.count {
		return fmt.Errorf("there is room for more than %d: %s", n.remaining, r)
	}
	o.NT()
	o.Class(enc)
	o.ClassIf(e.count > 1, "segmented")
	o.ClassIf(n.remaining == 0, "full")
	// the command agrees about the longer messages
	s.Text = c.Text + strings.Repeat(more, n.remaining)
	full, err := run("smscounter", s.args()...)
	if err != nil {
		return err
	}
	if m, err := full.count(); err != nil || m.messages != n.messages || m.remaining != 0 || m.encoding != n.encoding {
		return fmt.Errorf("with %d more, %v: %s", n.remaining, err, full)
	}
	s.Text += more
	next, err := run("smscounter", s.args()...)
	if err != nil {
		return err
	}
	if over.tooLong {
		return next.failed()
	}
	if m, err := next.count(); err != nil || m.messages != over.count || m.encoding != n.encoding {
		return fmt.Errorf("with %d more, %v: %s", n.remaining+1, err, next)
	}
	return nil
}

func genCount(t *rapid.T) countCase {
	c := countCase{Text: argText(t, 5)}
	if oneIn(t, 30, "huge") {
		p := genPalette(t)
		if p.ucs2 {
			c.Text = strings.Repeat(string(p.one(t, "r")), 67*255+intn(t, -2, 2, "hugeBy"))
		} else {
			c.Text = strings.Repeat(string(rapid.SampledFrom(ref.LockChars(0)).Draw(t, "r")), 153*255+intn(t, -2, 2, "hugeBy"))
		}
	}
	c.NLI = genToolNLI(t, c.Text)
	return c
}

// smsdecode

var ieLine = regexp.MustCompile(`ID:\s*(\d+)\s+Data:\s*\[([\d ]*)\]`)

// dump reads octets from a hex dump.
func dump(s string) (b []byte, err error) {
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		if i := strings.Index(l, "|"); i >= 0 {
			l = l[:i]
		}
		f := strings.Fields(l)
		if len(f) == 0 || f[0] != fmt.Sprintf("%08x", len(b)) {
			return nil, fmt.Errorf("%q does not follow %d octets", l, len(b))
		}
		for _, x := range f[1:] {
			v, e := strconv.ParseUint(x, 16, 8)
			if e != nil {
				return nil, e
			}
			b = append(b, byte(v))
		}
	}
	return
}

// shows checks that the fields and octets of the TPDU are shown.
func (r ran) shows(t *tpdu.TPDU) error {
	if r.exit != 0 {
		return fmt.Errorf("failed: %s", r)
	}
	out := "\n" + r.out
	var missing []string
	want := func(name, format string, a ...interface{}) {
		if !strings.Contains(out, "\nTP-"+name+": "+fmt.Sprintf(format, a...)+"\n") {
			missing = append(missing, name+" "+fmt.Sprintf(format, a...))
		}
	}
	begins := func(name, format string, a ...interface{}) {
		if !strings.Contains(out, "\nTP-"+name+": "+fmt.Sprintf(format, a...)) {
			missing = append(missing, name+" "+fmt.Sprintf(format, a...))
		}
	}
	p := ref.PDU{Type: int(t.SmsType()), FO: byte(t.FirstOctet), PI: byte(t.PI)}
	fo := p.FO
	flag := func(name string, bit int) { want(name, "%t", fo>>bit&1 == 1) }
	title := []string{"SMS-DELIVER", "SMS-DELIVER-REPORT", "SMS-SUBMIT-REPORT", "SMS-SUBMIT", "SMS-STATUS-REPORT", "SMS-COMMAND"}[p.Type]
	if !strings.Contains(out, "\nTPDU: "+title+"\n") {
		missing = append(missing, title)
	}
	begins("MTI", "0x%02x", fo&3)
	flag("UDHI", 6)
	switch p.Type {
	case ref.Deliver:
		flag("MMS", 2)
		flag("LP", 3)
		flag("SRI", 5)
		flag("RP", 7)
		want("OA", "%s", t.OA.Number())
	case ref.StatusReport:
		flag("MMS", 2)
		flag("LP", 3)
		flag("SRQ", 5)
		want("RA", "%s", t.RA.Number())
	case ref.Submit:
		flag("RD", 2)
		flag("SRR", 5)
		flag("RP", 7)
		begins("VPF", "0x%02x", fo>>3&3)
		want("DA", "%s", t.DA.Number())
		switch p.VPF() {
		case ref.VPNone:
			want("VP", "Not Present")
		case ref.VPAbsolute:
			want("VP", "Absolute - %s", t.VP.Time.Format("2006-01-02 15:04:05 -0700"))
		case ref.VPRelative:
			want("VP", "Relative - %s", t.VP.Duration)
		case ref.VPEnhanced:
			want("VP", "Enhanced %s - %s", tpdu.EnhancedFormat(t.VP.EFI), t.VP.Duration)
		}
	case ref.Command:
		flag("SRR", 5)
		want("DA", "%s", t.DA.Number())
		cdl := len(t.UD)
		if p.FO&0x40 != 0 {
			cdl++
			for _, e := range t.UDH {
				cdl += 2 + len(e.Data)
			}
		}
		want("CDL", "%d", cdl)
	}
	if p.Has("FCS") {
		want("FCS", "0x%02x", t.FCS)
	}
	if p.Has("MR") {
		want("MR", "%d", t.MR)
	}
	if p.Has("CT") {
		want("CT", "0x%02x", t.CT)
		want("MN", "%d", t.MN)
	}
	if p.Has("ST") {
		want("ST", "0x%02x", t.ST)
		want("DT", "%s", t.DT.Format("2006-01-02 15:04:05 -0700"))
	}
	if p.Has("PI") {
		want("PI", "%s", t.PI)
	}
	if p.Has("PID") {
		want("PID", "0x%02x", t.PID)
	}
	if p.Has("DCS") {
		begins("DCS", "0x%02x", byte(t.DCS))
	}
	if p.Has("SCTS") {
		want("SCTS", "%s", t.SCTS.Format("2006-01-02 15:04:05 -0700"))
	}
	if len(missing) > 0 {
		return fmt.Errorf("not shown: %q, by %s", missing, r)
	}
	name := "\nTP-UD: "
	if p.Type == ref.Command {
		name = "\nTP-CD: "
	}
	i := strings.LastIndex(out, name)
	if i < 0 {
		return fmt.Errorf("no user data is shown: %s", r)
	}
	for _, f := range []string{"PID", "DCS"} {
		if p.Report() && !p.Has(f) && strings.Contains(out[:i], "\nTP-"+f+": ") {
			return fmt.Errorf("a %s is shown and there is none: %s", f, r)
		}
	}
	ud, err := dump(out[i+len(name):])
	if err != nil || !eqBytes(ud, t.UD) {
		return fmt.Errorf("the user data %x is shown as %x, %v: %s", []byte(t.UD), ud, err, r)
	}
	var udh []ref.IE
	if j := strings.LastIndex(out[:i], "\nTP-UDH: "); j >= 0 {
		for _, m := range ieLine.FindAllStringSubmatch(out[j:i], -1) {
			id, _ := strconv.Atoi(m[1])
			e := ref.IE{ID: byte(id)}
			for _, x := range strings.Fields(m[2]) {
				v, _ := strconv.Atoi(x)
				e.Data = append(e.Data, byte(v))
			}
			udh = append(udh, e)
		}
	}
	if !eqUDH(udh, fromUDH(t.UDH)) {
		return fmt.Errorf("the header %v is shown as %v: %s", t.UDH, udh, r)
	}
	return nil
}

type showCase struct {
	P    *ref.PDU
	Raw  pbt.H // octets, if there is no P
	MO   bool
	SMSC *ref.Addr // in PDU mode
	Up   bool      // in capitals
}

func (c showCase) octets() ([]byte, error) {
	b := []byte(c.Raw)
	if c.P != nil {
		var ok bool
		if b, ok = c.P.Bytes(); !ok {
			return nil, fmt.Errorf("%w: not encoded", errInfra)
		}
	}
	return b, nil
}

func checkShow(c showCase, o *pbt.Obs) error {
	tp, err := c.octets()
	if err != nil {
		return err
	}
	var args []string
	b := tp
	if c.SMSC != nil {
		args = append(args, "-p")
		p := pdumode.PDU{SMSC: pdumode.SMSCAddress{Address: toAddr(*c.SMSC)}, TPDU: tp}
		if b, err = p.MarshalBinary(); err != nil {
			return fmt.Errorf("PDU mode: %v", err)
		}
	}
	dir := sms.AsMT
	if c.MO {
		args = append(args, "-o")
		dir = sms.AsMO
	}
	h := hex.EncodeToString(b)
	if c.Up {
		h = strings.ToUpper(h)
	}
	r, err := run("smsdecode", append(args, h)...)
	if err != nil {
		return err
	}
	t, err := sms.Unmarshal(tp, dir)
	if err != nil {
		o.Class("refused")
		if r.exit == 0 || strings.Contains(r.out, "TP-") {
			return fmt.Errorf("shown although %v: %s", err, r)
		}
		return r.failed()
	}
	o.NT()
	o.Class(ref.TypeNames[int(t.SmsType())])
	if c.SMSC != nil && !strings.HasPrefix(r.out, "SMSC: "+toAddr(*c.SMSC).Number()+"\n") {
		return fmt.Errorf("SMSC %v is not shown: %s", *c.SMSC, r)
	}
	return r.shows(t)
}

func genShow(t *rapid.T) showCase {
	c := showCase{Up: oneIn(t, 4, "up")}
	p := genPDU(t)
	c.P = &p
	c.MO = p.Type&1 == 1
	if oneIn(t, 3, "smsc") {
		c.SMSC = &ref.Addr{TOA: pick(t, "toa", byte(0x91), 0x81, 0xa1), Text: genDigits(t, 1, 16, "smsc")}
	}
	if oneIn(t, 4, "spoil") {
		b, _ := p.Bytes()
		c.P = nil
		if oneIn(t, 2, "cut") {
			b = b[:intn(t, 0, len(b), "to")]
		}
		for k := intn(t, 0, 3, "muts"); k > 0 && len(b) > 0; k-- {
			b[intn(t, 0, len(b)-1, "at")] = rapid.Byte().Draw(t, "octet")
		}
		c.Raw = b
		if oneIn(t, 4, "turn") {
			c.MO = !c.MO
		}
	}
	return c
}

// smsdeliver

type deliverMsg struct {
	Number, Text string
	NLI          int
	Drop         int // a segment that is not delivered, from 1
	Twice        int // a segment that is delivered twice
	Lone         int `json:",omitempty"` // a high surrogate which ends it
}

type deliverToolCase struct {
	Msgs []deliverMsg
	Swap []int
	PM   bool
	Bad  []badPDU `json:",omitempty"`
}

// badPDU is what cannot be decoded among what is delivered: the first octets
// of the PDU there.
type badPDU struct{ At, Cut int }

func checkDeliverTool(c deliverToolCase, o *pbt.Obs) error {
	type item struct{ m, no, of int }
	var items []item
	pdus := map[item][]byte{}
	e := sms.NewEncoder(sms.AsDeliver)
	for i, m := range c.Msgs {
		opts := []sms.EncoderOption{sms.From(m.Number)}
		if m.NLI != 0 {
			opts = append(opts, sms.WithCharset(m.NLI))
		}
		msg := []byte(m.Text)
		if m.Lone != 0 {
			msg = ucs2.Encode([]rune(m.Text))
			msg = append(msg, byte(m.Lone>>8), byte(m.Lone))
			opts = append(opts, sms.AsUCS2)
		}
		ts, err := e.Encode(msg, opts...)
		if err != nil {
			return err
		}
		for k, t := range ts {
			t.SCTS = toTime(ref.Time{Y: 2020, Mo: 1, D: 2, H: 3})
			b, err := t.MarshalBinary()
			if err != nil {
				return err
			}
			if c.PM {
				p := pdumode.PDU{SMSC: pdumode.SMSCAddress{Address: tpdu.Address{TOA: 0x91, Addr: "123456"[:1+i%6]}}, TPDU: b}
				if b, err = p.MarshalBinary(); err != nil {
					return err
				}
			}
			it := item{i, k, len(ts)}
			pdus[it] = b
			if m.Drop == k+1 && len(ts) > 1 {
				continue
			}
			items = append(items, it)
			if m.Twice == k+1 {
				items = append(items, it)
			}
		}
	}
	if len(items) == 0 {
		return nil
	}
	var args []string
	if c.PM {
		args = append(args, "-p")
	}
	type line struct {
		text string
		lone bool // need not be shown
	}
	var want []line
	lone := false
	held := map[int]map[int]bool{}
	for i, j := range shuffled(len(items), c.Swap) {
		it := items[j]
		for _, bad := range c.Bad {
			if b := pdus[it]; bad.At == i {
				from := 0
				if c.PM {
					from = 1 + int(b[0])
				}
				args = append(args, hex.EncodeToString(b[:from+bad.Cut%(len(b)-from)]))
				if args[len(args)-1] == "" {
					args = args[:len(args)-1]
				}
				o.Class("among what cannot be decoded")
			}
		}
		args = append(args, hex.EncodeToString(pdus[it]))
		if held[it.m] == nil {
			held[it.m] = map[int]bool{}
		}
		held[it.m][it.no] = true
		if len(held[it.m]) == it.of {
			delete(held, it.m)
			n := c.Msgs[it.m].Number
			l := line{"+" + strings.TrimPrefix(n, "+") + ": " + c.Msgs[it.m].Text + "\n", c.Msgs[it.m].Lone != 0}
			want = append(want, l)
			if it.of > 1 {
				o.NT()
			}
			o.Class("complete")
			lone = lone || l.lone
		}
	}
	r, err := run("smsdeliver", args...)
	if err != nil {
		return err
	}
	rest := r.out
	for _, l := range want {
		if strings.HasPrefix(rest, l.text) {
			rest = rest[len(l.text):]
		} else if !l.lone {
			return fmt.Errorf("%.900q is not shown: %s", l.text, r)
		}
	}
	if lone {
		o.Class("ends in half a character")
		if r.err == "" {
			return fmt.Errorf("half a character is not reported: %s", r)
		}
	}
	if len(held) == 0 {
		if rest != "" {
			return fmt.Errorf("%.900q is also shown: %s", rest, r)
		}
		return nil
	}
	o.Class("incomplete")
	if n := strings.Count(rest, "incomplete reassembly"); n != len(held) || !strings.HasPrefix(rest, "incomplete") {
		return fmt.Errorf("%d messages are incomplete, but %d are shown: %s", len(held), n, r)
	}
	return nil
}

func genDeliverTool(t *rapid.T) deliverToolCase {
	c := deliverToolCase{PM: oneIn(t, 4, "pm")}
	for i := intn(t, 1, 4, "msgs"); i > 0; i-- {
		m := deliverMsg{Number: genNumber(t, "number"), Text: argText(t, 4)}
		m.NLI = genToolNLI(t, m.Text)
		if m.Text == "" {
			m.Text = "x"
		}
		if oneIn(t, 8, "half") {
			m.Lone = 0xd800 + intn(t, 0, 0x3ff, "lone")
		}
		if oneIn(t, 4, "drop") {
			m.Drop = intn(t, 1, 3, "dropNo")
		}
		if oneIn(t, 4, "twice") {
			m.Twice = intn(t, 1, 3, "twiceNo")
		}
		c.Msgs = append(c.Msgs, m)
	}
	c.Swap = genSwaps(t)
	if oneIn(t, 4, "bad") {
		c.Bad = append(c.Bad, badPDU{intn(t, 0, 4, "badAt"), intn(t, 0, 150, "cut")})
	}
	return c
}

// any arguments at all

type hostileCase struct {
	Tool string
	Args []string
}

func checkHostile(c hostileCase, o *pbt.Obs) error {
	o.NTIf(len(c.Args) > 0)
	o.Class(c.Tool)
	r, err := run(c.Tool, c.Args...)
	if err != nil {
		return err
	}
	o.ClassIf(r.exit != 0, "failed")
	if r.exit > 2 {
		return fmt.Errorf("exit status %d: %s", r.exit, r)
	}
	return nil
}

func genHostile(t *rapid.T) hostileCase {
	c := hostileCase{Tool: pick(t, "tool", "smsdeliver", "smsdecode", "smssubmit", "smscounter", "smsdeliver", "smsdecode", "charsets")}
	junk := func(label string) string {
		s := string(octets(t, 0, 20, label))
		return strings.ReplaceAll(s, "\x00", "\xff")
	}
	hexArg := func() string {
		switch intn(t, 0, 7, "hexKind") {
		case 0:
			return junk("junk")
		case 1:
			return hex.EncodeToString(octets(t, 0, 40, "octets"))
		case 2:
			return hex.EncodeToString(octets(t, 1, 40, "octets"))[1:]
		}
		p := genPDU(t)
		if oneIn(t, 3, "concat") { // segments of odd sizes
			p.FO |= 0x40
			p.UDH = []ref.IE{{ID: pick(t, "iei", byte(0), 8), Data: octets(t, 0, 5, "concat")}}
			if len(p.UDH[0].Data) > 2 && oneIn(t, 2, "plausible") {
				copy(p.UDH[0].Data, []byte{1, 2, byte(intn(t, 0, 3, "no")), 1, 0}[:len(p.UDH[0].Data)])
			}
			p.UD = nil
		}
		b, ok := p.Bytes()
		if !ok {
			return "00"
		}
		if oneIn(t, 3, "sca") {
			b = append([]byte{1, 0x91}, b...)
		}
		if oneIn(t, 2, "cut") {
			b = b[:intn(t, 0, len(b), "to")]
		}
		for k := intn(t, 0, 3, "muts"); k > 0 && len(b) > 0; k-- {
			b[intn(t, 0, len(b)-1, "at")] = rapid.Byte().Draw(t, "octet")
		}
		return hex.EncodeToString(b)
	}
	switch c.Tool {
	case "charsets":
		if oneIn(t, 2, "arg") {
			c.Args = []string{junk("junk")}
		}
	case "smsdeliver", "smsdecode":
		for _, f := range []string{"-p", "-o"} {
			if oneIn(t, 3, "flag") {
				c.Args = append(c.Args, f)
			}
		}
		if oneIn(t, 20, "unknown") {
			c.Args = append(c.Args, pick(t, "flag", "-x", "--", "-", "-h", "-p=maybe", "-p=false"))
		}
		n := 1
		if c.Tool == "smsdeliver" || oneIn(t, 10, "more") {
			n = intn(t, 0, 5, "n")
		}
		for ; n > 0; n-- {
			c.Args = append(c.Args, hexArg())
		}
	default:
		text := argText(t, 2)
		switch intn(t, 0, 3, "textKind") {
		case 0:
			text = junk("text")
		case 1:
			text = strings.Repeat(junk("text"), intn(t, 1, 300, "rep"))
		}
		c.Args = append(c.Args, "-message", text)
		if oneIn(t, 2, "nli") {
			c.Args = append(c.Args, "-language", pick(t, "language", "1", "6", "13", "14", "0", "-1", "255", "256", "257", "300", "-5", "9223372036854775807", "-9223372036854775808", "99999999999999999999", "x", ""))
		}
		if c.Tool == "smssubmit" && !oneIn(t, 8, "noNumber") {
			num := genNumber(t, "number")
			if oneIn(t, 2, "odd") {
				num = pick(t, "num", "", "+", "-1", "x", junk("number"), strings.Repeat("1", intn(t, 1, 600, "digits")))
			}
			c.Args = append(c.Args, "-number", num)
		}
		if oneIn(t, 8, "extra") {
			c.Args = append(c.Args, junk("extra"))
		}
	}
	return c
}

// shownCase is a table that charsets prints.
type shownCase struct {
	NLI   int
	Shift bool
}

func enumShown(yield func(shownCase) bool) {
	for n := 0; n < ref.Languages; n++ {
		if !yield(shownCase{n, false}) || !yield(shownCase{n, true}) {
			return
		}
	}
}

var (
	shownTitle = regexp.MustCompile(`(Locking|Shift) \(NLI=(\d+)\)$`)
	shownRow   = regexp.MustCompile(`^0x_([0-9a-f]+): (.*)$`)
	shownCols  = regexp.MustCompile(`^ *0x0_ +0x1_ +0x2_ +0x3_ +0x4_ +0x5_ +0x6_ +0x7_ *$`)
	shownNames = map[string]rune{"LF": '\n', "CR": '\r', "FF": '\f', "SP": ' ', "ESC": ref.Esc, "€": '€'}
)

// shown reads the table under a title. Cells are five wide.
func (c shownCase) shown(out string) (ref.Table, error) {
	kind := "Locking"
	if c.Shift {
		kind = "Shift"
	}
	var t ref.Table
	in, rows, columns := false, 0, false
	for _, l := range strings.Split(out, "\n") {
		if m := shownTitle.FindStringSubmatch(l); m != nil {
			in = m[1] == kind && m[2] == strconv.Itoa(c.NLI)
			if in {
				if t != nil {
					return nil, fmt.Errorf("shown twice")
				}
				t = ref.Table{}
			}
			continue
		}
		m := shownRow.FindStringSubmatch(l)
		columns = columns || in && shownCols.MatchString(l)
		if !in || m == nil {
			continue
		}
		rows++
		low, err := strconv.ParseUint(m[1], 16, 4)
		if err != nil || !columns {
			return nil, fmt.Errorf("row %q has no place", l)
		}
		cells := []rune(m[2])
		for col := 0; col < 8; col++ {
			k := byte(col*16) | byte(low)
			var cell []rune
			if col*5 < len(cells) {
				cell = cells[col*5 : min(len(cells), col*5+5)]
			}
			s := strings.Trim(string(cell), " ")
			if s == "" {
				continue
			}
			r := []rune(s)
			named, ok := shownNames[s]
			switch {
			case ok:
				t[k] = named
			case len(r) == 1:
				t[k] = r[0]
				if r[0] < ' ' {
					return nil, fmt.Errorf("septet %#02x is shown as %q", k, s)
				}
			default:
				v, err := strconv.ParseUint(s, 16, 32)
				if err != nil {
					return nil, fmt.Errorf("septet %#02x is shown as %q", k, s)
				}
				t[k] = rune(v)
			}
		}
		if len(cells) > 40 {
			return nil, fmt.Errorf("row %d is %q", low, m[2])
		}
	}
	if t == nil || rows != 16 {
		return nil, fmt.Errorf("%d rows are shown", rows)
	}
	return t, nil
}

func checkShown(c shownCase, o *pbt.Obs) error {
	o.NT()
	r, err := run("charsets")
	if err != nil {
		return err
	}
	if r.exit != 0 {
		return fmt.Errorf("charsets exits %d", r.exit)
	}
	got, err := c.shown(r.out)
	if err != nil {
		return err
	}
	want := ref.Locking(c.NLI)
	if c.Shift {
		want = ref.Shift(c.NLI)
	}
	for k := 0; k < 128; k++ {
		if k == ref.Esc {
			continue
		}
		g, gok := got[byte(k)]
		w, wok := want[byte(k)]
		if g != w || gok != wok {
			return fmt.Errorf("septet %#02x: shown %q (%v), the table has %q (%v)", k, g, gok, w, wok)
		}
	}
	return nil
}

func init() {
	pbt.Random("C24", "submit", 1600, "PDUs are printed", genSubmitTool, checkSubmitTool).NoFuzz = true
	pbt.Random("C24", "counter", 1600, "a message is counted", genCount, checkCount).NoFuzz = true
	pbt.Random("C24", "decode", 4000, "a TPDU is shown", genShow, checkShow).NoFuzz = true
	pbt.Random("C24", "deliver", 2400, "a segmented message is completed", genDeliverTool, checkDeliverTool).NoFuzz = true
	pbt.Enum("C24", "charsets", "the table printed for every language, locking and shift, against the golden tables; non-trivial: all", enumShown, checkShown)
	pbt.Random("C24", "arguments", 4000, "there are arguments", genHostile, checkHostile).NoFuzz = true
}

package checks

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"github.com/warthog618/sms/encoding/gsm7"
	"github.com/warthog618/sms/encoding/gsm7/charset"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/ref"
)

type tableCase struct {
	NLI    int
	Shift  bool
	Septet int
}

// languages beyond those assigned
var strangeNLI = func() []int {
	l := []int{1 << 20, 1<<20 + 1, 1<<16 + 3, 513, 1<<32 + 1, -255, -256, -128, -127}
	for n := -20; n < 300; n++ {
		if n < 0 || n >= ref.Languages {
			l = append(l, n)
		}
	}
	return l
}()

func enumTables(yield func(tableCase) bool) {
	var nlis []int
	for n := 0; n < ref.Languages; n++ {
		nlis = append(nlis, n)
	}
	for _, n := range append(nlis, strangeNLI...) {
		for s := 0; s < 128; s++ {
			if !yield(tableCase{n, false, s}) || !yield(tableCase{n, true, s}) {
				return
			}
		}
	}
}

// The known finding: see known_findings.json.
func knownHindi(nli, septet int, got rune) bool {
	return nli == charset.Hindi && septet == 0 && got == 0x0981 && pbt.Allowed("hindi-septet-0")
}

func checkTable(c tableCase, o *pbt.Obs) error {
	g := byte(c.Septet)
	if g == ref.Esc {
		return nil
	}
	o.NT()
	tab, dec := ref.Locking(c.NLI), charset.NewDecoder(c.NLI)
	src, opts := []byte{g}, []gsm7.DecoderOption{gsm7.WithCharset(c.NLI)}
	if c.Shift {
		tab, dec = ref.Shift(c.NLI), charset.NewExtDecoder(c.NLI)
		src, opts = []byte{ref.Esc, g}, []gsm7.DecoderOption{gsm7.WithExtCharset(c.NLI)}
	}
	want, ok := tab[g]
	got, in := dec[g]
	if ok != in || want != got {
		if c.Shift || !knownHindi(c.NLI, c.Septet, got) {
			return fmt.Errorf("table has %U (%v), not %U (%v)", got, in, want, ok)
		}
		want = got
	}
	text, err := gsm7.Decode(src, append(opts, gsm7.Strict)...)
	if !ok {
		var e gsm7.ErrInvalidSeptet
		if !errors.As(err, &e) {
			return fmt.Errorf("unassigned septet decodes strictly to %q, %v", text, err)
		}
		return nil
	}
	if err != nil || string(text) != string(want) {
		return fmt.Errorf("decodes to %q, %v, not %q", text, err, string(want))
	}
	// the encoder has the character, at this septet or another with the same meaning
	if !c.Shift || !ref.Encodable([]rune{want}, c.NLI, 0) {
		enc := charset.NewEncoder(c.NLI)
		if c.Shift {
			enc = charset.NewExtEncoder(c.NLI)
		}
		b, in := enc[want]
		if !in || tab[b] != want && !(knownHindi(c.NLI, int(b), want)) {
			return fmt.Errorf("%U is encoded as %02x (%v)", want, b, in)
		}
	}
	return nil
}

type encodersCase struct {
	NLI   int
	Shift bool
}

// The encoders contain no character that is not in the table.
func checkEncoders(c encodersCase, o *pbt.Obs) error {
	o.NT()
	tab, enc := ref.Locking(c.NLI), charset.NewEncoder(c.NLI)
	if c.Shift {
		tab, enc = ref.Shift(c.NLI), charset.NewExtEncoder(c.NLI)
	}
	for r, b := range enc {
		if b == ref.Esc || r == ref.Esc {
			continue
		}
		if tab[b] != r && (c.Shift || !knownHindi(c.NLI, int(b), r)) {
			return fmt.Errorf("%U is encoded as %02x, which is %U", r, b, tab[b])
		}
	}
	for b, r := range tab {
		if b == ref.Esc || r == ref.Esc || !c.Shift && c.NLI == charset.Hindi && b == 0 {
			continue
		}
		if _, ok := enc[r]; !ok {
			return fmt.Errorf("%U, septet %02x, has no encoding", r, b)
		}
	}
	return nil
}

type gsmTextCase struct {
	Text        string
	Lock, Shift int
}

func gsmOpts(lock, shift int) (d []gsm7.DecoderOption, e []gsm7.EncoderOption) {
	if lock != 0 {
		d, e = append(d, gsm7.WithCharset(lock)), append(e, gsm7.WithCharset(lock))
	}
	if shift != 0 {
		d, e = append(d, gsm7.WithExtCharset(shift)), append(e, gsm7.WithExtCharset(shift))
	}
	return
}

func checkGSMText(c gsmTextCase, o *pbt.Obs) error {
	fixTables()
	text := []rune(c.Text)
	can := ref.Encodable(text, c.Lock, c.Shift)
	dopts, eopts := gsmOpts(c.Lock, c.Shift)
	in := []byte(c.Text)
	s, err := gsm7.Encode(in, eopts...)
	if string(in) != c.Text {
		return fmt.Errorf("Encode altered its input")
	}
	o.NTIf(len(text) > 0)
	o.ClassIf(can, "encodable")
	o.ClassIf(!can, "not encodable")
	if !can {
		var e gsm7.ErrInvalidUTF8
		if !errors.As(err, &e) {
			return fmt.Errorf("a character is in neither table but Encode returns %x, %v", s, err)
		}
		if ref.Encodable([]rune{rune(e)}, c.Lock, c.Shift) {
			return fmt.Errorf("Encode refuses %U, which is in a table", rune(e))
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("Encode refuses the text: %v", err)
	}
	for _, b := range s {
		if b > 0x7f {
			return fmt.Errorf("Encode returns %02x, which is not a septet", b)
		}
	}
	if back, ok := ref.DecodeSeptets(s, ref.Locking(c.Lock), ref.Shift(c.Shift), true); !ok || string(back) != c.Text {
		return fmt.Errorf("the septets %x are %q, %v", s, string(back), ok)
	}
	for _, strict := range []bool{false, true} {
		if strict {
			dopts = append(dopts, gsm7.Strict)
		}
		back, err := gsm7.Decode(s, dopts...)
		if err != nil || string(back) != c.Text {
			return fmt.Errorf("Decode(%x) (strict %v) is %q, %v", s, strict, back, err)
		}
	}
	return nil
}

func genNLI(t *rapid.T, label string) int {
	if oneIn(t, 10, label+"Odd") {
		return rapid.SampledFrom(strangeNLI).Draw(t, label)
	}
	return intn(t, 0, 13, label)
}

func genGSMText(t *rapid.T) gsmTextCase {
	c := gsmTextCase{Lock: genNLI(t, "lock"), Shift: genNLI(t, "shift")}
	var rs []rune
	n := intn(t, 0, 30, "n")
	for i := 0; i < n; i++ {
		switch intn(t, 0, 12, "k") {
		case 0, 1, 2, 3, 4, 5:
			rs = append(rs, rapid.SampledFrom(ref.LockChars(c.Lock)).Draw(t, "r"))
		case 6, 7, 8, 9, 10, 11:
			rs = append(rs, rapid.SampledFrom(ref.ShiftChars(c.Shift)).Draw(t, "r"))
		default:
			if oneIn(t, 3, "foreign") {
				rs = append(rs, genRune(t, "r"))
			} else if oneIn(t, 10, "esc") {
				rs = append(rs, 0x1b)
			}
		}
	}
	c.Text = string(rs)
	return c
}

type gsmDecodeCase struct {
	S           pbt.H
	Lock, Shift int
	Strict      bool
	NoExt       bool
	Via         int // options, methods
}

func checkGSMDecode(c gsmDecodeCase, o *pbt.Obs) error {
	fixTables()
	shift := ref.Shift(c.Shift)
	if c.NoExt {
		shift = nil
	}
	want, ok := ref.DecodeSeptets(c.S, ref.Locking(c.Lock), shift, c.Strict)
	in := tight(c.S)
	var got []byte
	var err error
	if c.Via == 0 {
		dopts, _ := gsmOpts(c.Lock, c.Shift)
		if c.NoExt {
			dopts = append(dopts, gsm7.WithoutExtCharset)
		}
		if c.Strict {
			dopts = append(dopts, gsm7.Strict)
		}
		got, err = gsm7.Decode(in, dopts...)
	} else {
		d := gsm7.NewDecoder().WithCharset(charset.NewDecoder(c.Lock))
		if c.NoExt {
			d = d.WithExtCharset(nil)
		} else {
			d = d.WithExtCharset(charset.NewExtDecoder(c.Shift))
		}
		if c.Strict {
			d = d.Strict()
		}
		got, err = d.Decode(in)
	}
	if !bytes.Equal(in, c.S) {
		return fmt.Errorf("Decode altered its input")
	}
	o.NTIf(bytes.IndexByte(c.S, ref.Esc) >= 0)
	o.ClassIf(!ok, "unmapped in strict mode")
	if !ok {
		var e gsm7.ErrInvalidSeptet
		if !errors.As(err, &e) {
			return fmt.Errorf("strict Decode of an unmapped septet is %q, %v", got, err)
		}
		return nil
	}
	if err != nil || string(got) != string(want) {
		return fmt.Errorf("Decode is %q, %v, not %q", got, err, string(want))
	}
	return nil
}

func genGSMDecode(t *rapid.T) gsmDecodeCase {
	return gsmDecodeCase{
		S:    pbt.H(rapid.SliceOfN(rapid.OneOf(rapid.ByteRange(0, 127), rapid.Just(byte(ref.Esc)), rapid.ByteRange(0, 127)), 0, 30).Draw(t, "s")),
		Lock: genNLI(t, "lock"), Shift: genNLI(t, "shift"),
		Strict: rapid.Bool().Draw(t, "strict"), NoExt: oneIn(t, 6, "noext"), Via: intn(t, 0, 1, "via"),
	}
}

// enumGSMPositions puts a character of each kind at each position.
func enumGSMPositions(yield func(gsmTextCase) bool) {
	for at := 0; at <= 330; at++ {
		for _, q := range []string{"a", "@", "€", "\f", "^", "\n", "\r", "\x1b", "ş", "ي", "😀", "€€", "\r\r", "\x00"} {
			for _, after := range []int{0, 1, 30} {
				for _, l := range []int{0, 1} {
					if !yield(gsmTextCase{strings.Repeat("b", at) + q + strings.Repeat("d", after), l, l}) {
						return
					}
				}
			}
		}
	}
}

func init() {
	pbt.Enum("C13", "tables", "every septet of every locking and shift table, and of unknown languages, against golden tables; non-trivial: all but the escape", enumTables, checkTable)
	pbt.Enum("C13", "encoders", "every entry of every encoder against golden tables; non-trivial: all", func(yield func(encodersCase) bool) {
		var nlis []int
		for n := 0; n < ref.Languages; n++ {
			nlis = append(nlis, n)
		}
		for _, n := range append(nlis, strangeNLI...) {
			if !yield(encodersCase{n, false}) || !yield(encodersCase{n, true}) {
				return
			}
		}
	}, checkEncoders)
	pbt.Random("C13", "encode", 24000, "text mostly from a pair of tables: encoded if and only if every character is in them, and decodes back; non-trivial: not empty", genGSMText, checkGSMText)
	pbt.Random("C13", "decode", 40000, "septets decoded with any tables and strictness against the model; non-trivial: contains an escape", genGSMDecode, checkGSMDecode)
	pbt.Enum("C13", "positions", "each awkward sequence of septets at each position of plain text, and ending it; non-trivial: contains an escape", func(yield func(gsmDecodeCase) bool) {
		for _, q := range [][]byte{{ref.Esc}, {ref.Esc, ref.Esc}, {ref.Esc, ref.Esc, 0x65}, {ref.Esc, 0x41}, {ref.Esc, 0x65}, {ref.Esc, 0x0a}, {ref.Esc, 0x0d}, {ref.Esc, 0}, {0}, {0x0d}} {
			for at := 0; at <= 330; at++ {
				for _, after := range []int{0, 1, 40} {
					for v := 0; v < 8; v++ {
						s := append(bytes.Repeat([]byte{0x61}, at), q...)
						s = append(s, bytes.Repeat([]byte{0x62}, after)...)
						if !yield(gsmDecodeCase{s, v / 4 * 3, v / 4, v&1 > 0, v&6 == 2, at & 1}) {
							return
						}
					}
				}
			}
		}
	}, checkGSMDecode)
	pbt.Enum("C13", "textPositions", "each kind of character at each position of plain text; non-trivial: not empty", enumGSMPositions, checkGSMText)
	pbt.Known("hindi-septet-0", "C13", func() string {
		if charset.NewDecoder(charset.Hindi)[0] == 0x0981 {
			return "Hindi locking table septet 0x00 decodes to U+0981 (Bengali candrabindu) instead of U+0901"
		}
		return ""
	})
}

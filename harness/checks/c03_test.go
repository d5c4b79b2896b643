package checks

import (
	"fmt"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/ref"
)

func (e expect) classify(o *pbt.Obs) {
	switch {
	case e.conflict:
		o.Class("conflict")
	case e.choice.UCS2:
		o.Class("UCS-2")
	case e.choice.HasLock && e.choice.HasShift:
		o.Class("locking and shift")
	case e.choice.HasLock:
		o.Class("locking")
	case e.choice.HasShift:
		o.Class("shift")
	default:
		o.Class("default alphabet")
	}
	o.NTIf(e.conflict || e.choice != (ref.Choice{}))
}

func checkChoice(c encSegCase, o *pbt.Obs) error {
	fixTables()
	var s encState
	s.apply(append([]Opt{{K: "submit"}}, c.Opts...)...)
	e := s.expected([]byte(c.Text))
	got, err := sms.Encode([]byte(c.Text), lib(c.Opts)...)
	e.classify(o)
	if no, err := e.refused(got, err); no {
		return err
	}
	return e.checkChoice(got)
}

func genChoice(t *rapid.T) encSegCase {
	text := genText(t, 2)
	opts := genOffer(t, text)
	d := genDCS(t, "dcs")
	if oneIn(t, 2, "noDCS") {
		d = 0
	}
	if a := ref.ReadDCS(d).Alpha; a == ref.Alpha8Bit || a == ref.AlphaUCS2 {
		if !oneIn(t, 8, "keep") {
			d &^= 0x0c
			if d >= 0xe0 && d < 0xf0 {
				d = 0xf1
			}
		}
	}
	if d != 0 {
		opts = append(opts, Opt{K: "dcs", B: d})
	}
	if oneIn(t, 3, "header") {
		fixTables()
		var s encState
		s.apply(opts...)
		u := plainUDH(t, 8)
		// with elements that those added are to override
		c := s.expected([]byte(text)).choice
		if c.HasLock && oneIn(t, 2, "lock") {
			u = append(u, ref.IE{ID: lockingID(), Data: pbt.H{byte(genNLI(t, "nli"))}})
		}
		if c.HasShift && oneIn(t, 2, "shift") {
			u = append(u, ref.IE{ID: shiftID(), Data: pbt.H{byte(genNLI(t, "nli"))}})
		}
		opts = append(opts, Opt{K: "udh", U: u})
	}
	return encSegCase{text, opts}
}

type udCase struct {
	Text string
	Opts []Opt // charsets only
}

func udOpts(opts []Opt) (e []tpdu.UDEncodeOption, d []tpdu.UDDecodeOption) {
	for _, o := range opts {
		switch o.K {
		case "charset":
			e, d = append(e, tpdu.WithCharset(o.N...)), append(d, tpdu.WithCharset(o.N...))
		case "lock":
			e, d = append(e, tpdu.WithLockingCharset(o.N...)), append(d, tpdu.WithLockingCharset(o.N...))
		case "shift":
			e, d = append(e, tpdu.WithShiftCharset(o.N...)), append(d, tpdu.WithShiftCharset(o.N...))
		case "all":
			e, d = append(e, tpdu.WithAllCharsets), append(d, tpdu.WithAllCharsets)
		case "default":
			e, d = append(e, tpdu.WithCharset()), append(d, tpdu.WithCharset())
		default:
			panic(o.K)
		}
	}
	return
}

func checkUserData(c udCase, o *pbt.Obs) error {
	fixTables()
	var s encState
	s.apply(c.Opts...)
	e := s.expected([]byte(c.Text))
	e.classify(o)
	eo, _ := udOpts(c.Opts)
	ud, udh, alpha := tpdu.EncodeUserData([]byte(c.Text), eo...)
	if int(alpha) != e.alpha {
		return fmt.Errorf("alphabet %d, not %d", alpha, e.alpha)
	}
	return e.checkChoice([]tpdu.TPDU{{DCS: e.base.DCS, UDH: udh, UD: ud}})
}

func genUserData(t *rapid.T) udCase {
	text := genText(t, 1)
	return udCase{text, genOffer(t, text)}
}

// all coding schemes with a text of each alphabet
type schemeCase struct {
	DCS  byte
	Text string
	Opts []Opt
}

func enumSchemes(yield func(schemeCase) bool) {
	for d := 0; d < 256; d++ {
		for _, x := range []schemeCase{{0, "hello", nil}, {0, "€[", nil}, {0, "я", nil}, {0, "ş", []Opt{{K: "all"}}}, {0, "ş", nil}} {
			x.DCS = byte(d)
			if !yield(x) {
				return
			}
		}
	}
}

func checkScheme(c schemeCase, o *pbt.Obs) error {
	return checkChoice(encSegCase{c.Text, append([]Opt{{K: "dcs", B: c.DCS}}, c.Opts...)}, o)
}

// a single language offered for each of its own characters
type singleLang struct {
	Char  string
	Kind  string
	First int
	Then  int
}

func enumLangChars(yield func(singleLang) bool) {
	for n := 1; n < ref.Languages; n++ {
		for _, k := range []string{"lock", "shift", "charset"} {
			for _, r := range append(append([]rune{}, ref.LockChars(n)...), ref.ShiftChars(n)...) {
				if !yield(singleLang{string(r), k, n, 0}) {
					return
				}
				if !yield(singleLang{string(r), k, n%13 + 1, n}) {
					return
				}
			}
		}
	}
}

func checkLangChar(c singleLang, o *pbt.Obs) error {
	opts := []Opt{{K: c.Kind, N: []int{c.First}}}
	if c.Then != 0 {
		opts = append(opts, Opt{K: c.Kind, N: []int{c.Then}})
	}
	return checkUserData(udCase{c.Char, opts}, o)
}

func init() {
	pbt.Random("C03", "encode", 30000, "the default alphabet does not suffice", genChoice, checkChoice)
	pbt.Random("C03", "userdata", 30000, "the default alphabet does not suffice", genUserData, checkUserData)
	pbt.Enum("C03", "schemes", "the default alphabet does not suffice, or the scheme conflicts", enumSchemes, checkScheme)
	pbt.Enum("C03", "languages", "a character outside the default alphabet", enumLangChars, checkLangChar)
}

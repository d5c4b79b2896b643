package checks

import (
	"fmt"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// idCase is a language named in a header.
type idCase struct {
	NLI   int
	Kind  string
	Plain bool `json:",omitempty"` // decimal identifiers, as in the finding
}

func enumIDs(plain bool) func(yield func(idCase) bool) {
	return func(yield func(idCase) bool) {
		for n := 1; n < ref.Languages; n++ {
			for _, k := range []string{"lock", "shift"} {
				if !yield(idCase{n, k, false}) || plain && !yield(idCase{n, k, true}) {
					return
				}
			}
		}
	}
}

func (c idCase) id() byte {
	switch {
	case c.Plain && c.Kind == "lock":
		return 25
	case c.Plain:
		return 24
	case c.Kind == "lock":
		return iLocking
	}
	return iShift
}

// septets that differ in the table from the default
func (c idCase) septets() (ud []byte) {
	for g := byte(0); g < 128; g++ {
		if g == ref.Esc {
			continue
		}
		if c.Kind == "lock" {
			ud = append(ud, g)
		} else {
			ud = append(ud, ref.Esc, g)
		}
	}
	return
}

// checkIDEncode encodes characters that need the table.
func checkIDEncode(c idCase, o *pbt.Obs) error {
	chars := ref.LockChars(c.NLI)
	var opt tpdu.UDEncodeOption = tpdu.WithLockingCharset(c.NLI)
	if c.Kind == "shift" {
		chars, opt = ref.ShiftChars(c.NLI), tpdu.WithShiftCharset(c.NLI)
	}
	for _, r := range chars {
		_, udh, alpha := tpdu.EncodeUserData([]byte(string(r)), opt)
		if alpha != tpdu.Alpha7Bit || len(udh) == 0 {
			continue // checked by the other facets
		}
		o.NT()
		x := udh[0]
		if len(udh) != 1 || len(x.Data) != 1 || int(x.Data[0]) != c.NLI {
			return fmt.Errorf("%q is encoded with header %v", r, udh)
		}
		if x.ID != c.id() {
			known := c
			known.Plain = true
			if x.ID == known.id() && pbt.Allowed(langFinding) {
				o.Class("known finding")
				continue
			}
			return fmt.Errorf("%q is encoded with a %s table named by an element %#x, not %#x", r, c.Kind, x.ID, c.id())
		}
	}
	return nil
}

// checkIDDecode decodes what names the language with each identifier.
func checkIDDecode(c idCase, o *pbt.Obs) error {
	fixTables()
	o.NT()
	t := &tpdu.TPDU{UD: c.septets(), UDH: tpdu.UserDataHeader{{ID: c.id(), Data: []byte{byte(c.NLI)}}}}
	got, err := sms.Decode([]*tpdu.TPDU{t})
	if err != nil {
		return err
	}
	lock, shift := 0, c.NLI
	if c.Kind == "lock" {
		lock, shift = c.NLI, 0
	}
	decoded := func(lock, shift int) string {
		rs, _ := ref.DecodeSeptets(t.UD, ref.Locking(lock), ref.Shift(shift), false)
		return string(rs)
	}
	want, none := decoded(lock, shift), decoded(0, 0)
	if c.Plain { // of another meaning to the standard
		want, none = none, want
	}
	if string(got) == want {
		return nil
	}
	if string(got) == none && pbt.Allowed(langFinding) {
		o.Class("known finding")
		return nil
	}
	return fmt.Errorf("with element %#x for language %d, the septets are decoded to %q, not %q", c.id(), c.NLI, got, want)
}

func init() {
	pbt.Enum("C03", "identifiers", "every language and kind of table is named by the identifier that the standard gives it; non-trivial: there are characters that need the table", enumIDs(false), checkIDEncode)
	pbt.Enum("C28", "identifiers", "every language named by the identifier that the standard gives each kind of table; non-trivial: all", enumIDs(true), checkIDDecode)
	pbt.Known(langFinding, "C03", langProbe)
	pbt.Known(langFinding, "C28", langProbe)
}

package checks

import (
	"fmt"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// Calls that are alike but for one thing follow each other, and each is to give
// what the model gives for it alone.

type variantsCase struct {
	Texts  []string     // alike
	Offers [][]Opt      // character sets
	DCS    []byte       `json:",omitempty"`
	Dec    []decodeCase `json:",omitempty"` // alike
	Calls  []variantCall
}

// A variantCall names what is encoded or decoded.
type variantCall struct{ K, Text, Offer, DCS, Dec int }

func checkVariants(c variantsCase, o *pbt.Obs) error {
	// what is kept of the last call is not to be that of an earlier case, so
	// that the case can be replayed
	for _, s := range []string{"a", "ş", "я"} {
		if ts, err := sms.Encode([]byte(s), sms.WithAllCharsets); err == nil {
			tpdu.DecodeUserData(ts[0].UD, ts[0].UDH, tpdu.Alphabet(ref.ReadDCS(byte(ts[0].DCS)).Alpha), tpdu.WithAllCharsets)
		}
	}
	for i, v := range c.Calls {
		var err error
		var sub pbt.Obs
		switch v.K {
		case 0:
			opts := c.Offers[v.Offer]
			if d := c.DCS[v.DCS]; d != 0 {
				opts = append(append([]Opt{}, opts...), Opt{K: "dcs", B: d})
			}
			err = checkChoice(encSegCase{c.Texts[v.Text], opts}, &sub)
		case 1:
			err = checkUserData(udCase{c.Texts[v.Text], c.Offers[v.Offer]}, &sub)
		case 2:
			d := c.Dec[v.Dec]
			if v.Offer > 0 {
				d.Opts = c.Offers[v.Offer]
			}
			err = checkDecoded(d, &sub)
		}
		if err != nil {
			return fmt.Errorf("call %d: %w", i, err)
		}
	}
	o.NTIf(len(c.Calls) > 1)
	return nil
}

// alike changes a rune of the text, or nothing.
func alike(t *rapid.T, s string) string {
	rs := []rune(s)
	if len(rs) == 0 {
		return "a"
	}
	i := pick(t, "at", 0, len(rs)-1, intn(t, 0, len(rs)-1, "any"))
	rs[i] = pick(t, "rune", 'a', 'b', '[', 'ş', 'é', 'я', genRune(t, "r"))
	return string(rs)
}

func genVariants(t *rapid.T) variantsCase {
	text := genText(t, 2)
	c := variantsCase{Texts: []string{text}, DCS: []byte{0, pick(t, "dcs", byte(0), 0x10, 0xf1, 0x03, 0xc8, 0x20)}}
	for i := intn(t, 0, 2, "texts"); i > 0; i-- {
		c.Texts = append(c.Texts, alike(t, c.Texts[0]))
	}
	for i := intn(t, 1, 4, "offers"); i > 0; i-- {
		if len(c.Offers) > 0 && oneIn(t, 2, "like") {
			// as many, but others
			var l []Opt
			for _, p := range c.Offers[0] {
				p.N = append([]int{}, p.N...)
				for j := range p.N {
					p.N[j] = genNLI(t, "other")
				}
				if oneIn(t, 3, "kind") && p.N != nil {
					p.K = pick(t, "copt", "charset", "lock", "shift")
				}
				l = append(l, p)
			}
			c.Offers = append(c.Offers, l)
			continue
		}
		c.Offers = append(c.Offers, genOffer(t, pick(t, "for", c.Texts...)))
	}
	if oneIn(t, 2, "decoded") {
		d := genDecoded(t)
		c.Dec = append(c.Dec, d)
		for i := intn(t, 0, 2, "decs"); i > 0; i-- {
			e := d
			e.Segs = append([]DSeg{}, d.Segs...)
			s := &e.Segs[intn(t, 0, len(e.Segs)-1, "seg")]
			switch intn(t, 0, 2, "what") {
			case 0: // another language
				s.UDH = append([]ref.IE{}, s.UDH...)
				for j, x := range s.UDH {
					if x.ID == lockingID() || x.ID == shiftID() {
						s.UDH[j].Data = pbt.H{byte(intn(t, 0, 14, "lang"))}
					}
				}
			case 1: // another alphabet
				if ref.ReadDCS(s.DCS).Alpha == ref.Alpha7Bit {
					s.DCS = pick(t, "8bit", byte(4), 0xf4)
				}
			default:
				if ref.ReadDCS(s.DCS).Alpha == ref.Alpha7Bit && len(s.UD) > 0 {
					s.UD = append(pbt.H{}, s.UD...)
					s.UD[len(s.UD)-1] ^= 2
					if n := len(s.UD); s.UD[n-1] == ref.Esc {
						s.UD[n-1] = 0
					}
				}
			}
			e.Wire = oneIn(t, 2, "wire")
			c.Dec = append(c.Dec, e)
		}
	}
	for i := intn(t, 2, 8, "calls"); i > 0; i-- {
		v := variantCall{K: intn(t, 0, 1, "k"), Text: intn(t, 0, len(c.Texts)-1, "text"), Offer: intn(t, 0, len(c.Offers)-1, "offer"), DCS: intn(t, 0, 1, "dcs")}
		if len(c.Dec) > 0 && oneIn(t, 2, "dec") {
			v.K, v.Dec = 2, intn(t, 0, len(c.Dec)-1, "which")
		}
		c.Calls = append(c.Calls, v)
	}
	return c
}

func init() {
	pbt.Random("C22", "variants", 8000, "two or more calls", genVariants, checkVariants)
}

package ref

// alphabets
const (
	Alpha7Bit = 0
	Alpha8Bit = 1
	AlphaUCS2 = 2
	AlphaBad  = -1
)

// NoClass is returned for schemes without a class meaning.
const NoClass = -1

// DCS is the reading of a coding scheme per 3GPP TS 23.038 clause 4.
type DCS struct {
	Alpha      int // AlphaBad for reserved groups
	Class      int // NoClass if there is none
	Compressed bool
	// ClassNone is true for groups that define no class at all, false for those
	// where a class could be, but is not, given or which are reserved.
	Waiting bool
}

// ReadDCS interprets a coding scheme.
func ReadDCS(d byte) DCS {
	r := DCS{Class: NoClass}
	switch d >> 4 {
	case 0, 1, 2, 3, 4, 5, 6, 7: // general, and marked for automatic deletion
		r.Alpha = int(d >> 2 & 3)
		if r.Alpha == 3 {
			r.Alpha = Alpha7Bit // reserved, to be treated as the default
		}
		if d&0x10 != 0 {
			r.Class = int(d & 3)
		}
		r.Compressed = d&0x20 != 0
	case 8, 9, 10, 11:
		r.Alpha = AlphaBad
	case 12, 13: // message waiting, GSM 7 bit
		r.Alpha = Alpha7Bit
		r.Waiting = true
	case 14: // message waiting, UCS2
		r.Alpha = AlphaUCS2
		r.Waiting = true
	case 15: // data coding/message class
		if d&4 != 0 {
			r.Alpha = Alpha8Bit
		}
		r.Class = int(d & 3)
	}
	return r
}

// WithAlphabet is the coding scheme that differs only in the alphabet. ok is
// false if the scheme cannot express it.
func WithAlphabet(d byte, alpha int) (byte, bool) {
	if alpha < 0 || alpha > 2 {
		return d, false
	}
	switch d >> 4 {
	case 0, 1, 2, 3, 4, 5, 6, 7:
		return d&0xf3 | byte(alpha)<<2, true
	case 12, 13:
		return d, alpha == Alpha7Bit
	case 14:
		return d, alpha == AlphaUCS2
	case 15:
		if alpha == AlphaUCS2 {
			return d, false
		}
		return d&0xf3 | byte(alpha)<<2, true
	}
	return d, false
}

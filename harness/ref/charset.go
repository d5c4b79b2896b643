package ref

import "slices"

// Table maps septets to characters.
type Table map[byte]rune

// Esc is the escape septet.
const Esc = 0x1b

// Languages is the number of languages with tables, including the default.
const Languages = 14

// HindiZero is the character the effective Hindi locking table has for septet
// 0. The golden value is U+0901. See known_findings.json.
const HindiZero = 0x0901

// SetHindiZero alters the effective Hindi table, so that the known finding
// about it is reported once rather than by every check that uses the table.
func SetHindiZero(r rune) { lockingTables[6][0] = r }

// Locking returns the locking table of a language.
func Locking(nli int) Table {
	if nli < 0 || nli >= Languages {
		nli = 0
	}
	return lockingTables[nli]
}

// Shift returns the shift table of a language.
func Shift(nli int) Table {
	if nli < 0 || nli >= Languages {
		nli = 0
	}
	return shiftTables[nli]
}

// DecodeSeptets is the character decoding of 3GPP TS 23.038 6.2.1.
//
// In strict mode ok is false if a septet is not in the table it selects.
func DecodeSeptets(s []byte, lock, shift Table, strict bool) (text []rune, ok bool) {
	for i := 0; i < len(s); i++ {
		if s[i] != Esc {
			r, in := lock[s[i]]
			if !in {
				if strict {
					return nil, false
				}
				r = ' '
			}
			text = append(text, r)
			continue
		}
		i++
		if i == len(s) || s[i] == Esc {
			text = append(text, ' ')
			continue
		}
		r, in := shift[s[i]]
		if !in {
			if strict {
				return nil, false
			}
			r, in = lock[s[i]]
			if !in {
				r = ' '
			}
		}
		text = append(text, r)
	}
	return text, true
}

// sets of characters of each table, for speed
var lockSet, shiftSet [Languages]map[rune]bool

var lockList, shiftList [Languages][]rune

func init() { rebuild() }

func rebuild() {
	for n := 0; n < Languages; n++ {
		lockSet[n], shiftSet[n] = map[rune]bool{}, map[rune]bool{}
		lockList[n], shiftList[n] = chars(lockingTables[n]), chars(shiftTables[n])
		for k, v := range lockingTables[n] {
			if k != Esc {
				lockSet[n][v] = true
			}
		}
		for k, v := range shiftTables[n] {
			if k != Esc {
				shiftSet[n][v] = true
			}
		}
	}
}

// Rebuild must follow SetHindiZero.
func Rebuild() { rebuild() }

// Lang folds unknown languages into the default.
func Lang(nli int) int {
	if nli < 0 || nli >= Languages {
		return 0
	}
	return nli
}

// Encodable reports whether all of the text is in the locking table of one
// language and the shift table of another.
func Encodable(text []rune, lock, shift int) bool {
	l, s := lockSet[Lang(lock)], shiftSet[Lang(shift)]
	for _, r := range text {
		if !l[r] && !s[r] {
			return false
		}
	}
	return true
}

// SeptetLen is the number of septets the text takes, with characters in the
// locking table taking one and others two.
func SeptetLen(text []rune, lock, shift int) int {
	n := 0
	for _, r := range text {
		n++
		if !lockSet[Lang(lock)][r] {
			n++
		}
	}
	return n
}

// LockChars returns the characters of a locking table in septet order.
func LockChars(nli int) []rune { return lockList[Lang(nli)] }

// ShiftChars returns the characters of a shift table in septet order.
func ShiftChars(nli int) []rune { return shiftList[Lang(nli)] }

func chars(t Table) []rune {
	var rs []rune
	for k := 0; k < 128; k++ {
		if r, ok := t[byte(k)]; ok && k != Esc && !slices.Contains(rs, r) {
			rs = append(rs, r)
		}
	}
	return rs
}

// Choice is how a text is to be encoded.
type Choice struct {
	UCS2        bool
	Lock, Shift int  // 0 is the default table
	HasLock     bool // a locking table is announced
	HasShift    bool // a shift table is announced
}

// Choose selects the alphabet for a text given the locking and shift languages
// offered, in order.
func Choose(text []rune, locking, shift []int) Choice {
	if Encodable(text, 0, 0) {
		return Choice{}
	}
	for _, n := range locking {
		if Encodable(text, n, 0) {
			return Choice{Lock: n, HasLock: true}
		}
	}
	for _, n := range shift {
		if Encodable(text, 0, n) {
			return Choice{Shift: n, HasShift: true}
		}
	}
	for _, n := range locking {
		if slices.Contains(shift, n) && Encodable(text, n, n) {
			return Choice{Lock: n, Shift: n, HasLock: true, HasShift: true}
		}
	}
	return Choice{UCS2: true}
}

package checks

import (
	"errors"
	"math/rand"

	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// Nothing bounds the length of what the codecs are given. A long case is a
// length and a seed, from which the check builds the content, so that the case
// is small and shrinks.

type longCase struct {
	N    int
	Seed int64
	K    int // fill, language or the like
}

func (c longCase) rand() *rand.Rand { return rand.New(rand.NewSource(c.Seed*7919 + int64(c.N))) }

func (c longCase) septets() pbt.H {
	r := c.rand()
	s := make(pbt.H, c.N)
	for i := range s {
		s[i] = byte(r.Intn(128))
		if r.Intn(8) == 0 {
			s[i] = 0x0d
		}
	}
	switch c.Seed % 3 {
	case 1:
		if c.N > 0 {
			s[c.N-1] = 0x0d
		}
	case 2:
		if c.N > 1 {
			s[c.N-1], s[c.N-2] = 0x0d, 0x0d
		}
	}
	return s
}

func (c longCase) octets() pbt.H {
	s := make(pbt.H, c.N)
	c.rand().Read(s)
	return s
}

func (c longCase) runes(from func(r *rand.Rand) rune) []rune {
	r := c.rand()
	s := make([]rune, c.N)
	for i := range s {
		s[i] = from(r)
	}
	return s
}

// units are code units, with many surrogates paired and lone.
func (c longCase) units() pbt.H {
	b := make(pbt.H, 0, 2*c.N)
	r := c.rand()
	for len(b) < 2*c.N {
		u := rune(r.Intn(0x10000))
		switch r.Intn(6) {
		case 0:
			u = 0xd800 + rune(r.Intn(0x400))
		case 1:
			u = 0xdc00 + rune(r.Intn(0x400))
		case 2:
			u = 0xd83d
		case 3:
			u = 0xde00
		}
		b = append(b, byte(u>>8), byte(u))
	}
	return b
}

// long applies a check to what is built from a long case. The error is cut, as
// the case is enough to repeat it.
func long(f func(c longCase, o *pbt.Obs) error) func(longCase, *pbt.Obs) error {
	return func(c longCase, o *pbt.Obs) error {
		err := f(c, o)
		if err == nil {
			return nil
		}
		s := err.Error()
		if len(s) > 300 {
			s = s[:150] + " … " + s[len(s)-150:]
		}
		return errors.New(s)
	}
}

// longs yields lengths about the powers of two to top, and others.
func longs(top int, ks []int, seeds int64) func(yield func(longCase) bool) {
	var ns []int
	for p := 256; p <= top; p *= 2 {
		for d := -2; d <= 2; d++ {
			ns = append(ns, p+d)
		}
	}
	for _, n := range []int{300, 999, 1000, 1001, 1500, 3000, 5000, 10000, 20000, 50000} {
		if n <= top {
			ns = append(ns, n)
		}
	}
	return func(yield func(longCase) bool) {
		for _, n := range ns {
			for _, k := range ks {
				for s := int64(0); s < seeds; s++ {
					if !yield(longCase{n, s, k}) {
						return
					}
				}
			}
		}
	}
}

func genLongCase(top, ks int) func(t *rapid.T) longCase {
	return func(t *rapid.T) longCase {
		n := intn(t, 0, 1<<intn(t, 8, bits(top), "size"), "n")
		return longCase{n, int64(intn(t, 0, 1<<20, "seed")), intn(t, 0, ks-1, "k")}
	}
}

func bits(n int) int {
	b := 0
	for n > 1 {
		n /= 2
		b++
	}
	return b
}

func upto(n int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = i
	}
	return l
}

// addLong registers the enumeration of lengths and random ones.
func addLong(prop, name string, top, ks int, seeds int64, quick int, rule string, check func(longCase, *pbt.Obs) error) {
	pbt.Enum(prop, name, "lengths about the powers of two and others, with content drawn by a seed; "+rule, longs(top, upto(ks), seeds), long(check))
	f := pbt.Random(prop, name+"Any", quick, "any lengths, with content drawn by a seed; "+rule, genLongCase(top, ks), long(check))
	f.NoFuzz = true
}

// longGSM is text of the characters of a pair of tables, with one that is in
// neither at times.
func longGSM(c longCase) string {
	lock, shift := ref.LockChars(c.K), ref.ShiftChars(c.K)
	s := c.runes(func(r *rand.Rand) rune {
		if r.Intn(4) == 0 {
			return shift[r.Intn(len(shift))]
		}
		return lock[r.Intn(len(lock))]
	})
	if c.Seed%4 == 3 && c.N > 0 {
		s[c.N-1-int(c.Seed/4)%c.N] = '😀'
	}
	return string(s)
}

// cuts cut units into many segments, most of them short.
func (c longCase) cuts() []int {
	r := rand.New(rand.NewSource(c.Seed + 3))
	var l []int
	for n := 0; n < c.N && len(l) < 600; {
		k := r.Intn(4)
		if c.K == 1 {
			k = 1
		} else if c.K == 2 {
			k = r.Intn(70)
		}
		l = append(l, k)
		n += k
	}
	return l
}

func longUDH(c longCase) []ref.IE {
	r := c.rand()
	var u []ref.IE
	for i := 0; i < c.N; i++ {
		n := c.K - 1
		id := byte(r.Intn(256))
		if n < 0 {
			n = r.Intn(3)
		}
		if c.Seed%2 == 0 && (id == 0 || id == 8) {
			id = 5
		}
		d := make(pbt.H, n)
		r.Read(d)
		u = append(u, ref.IE{ID: id, Data: d})
	}
	if c.N > 0 && c.Seed%3 == 1 {
		u[c.N-1] = ref.IE{ID: 0, Data: pbt.H{1, 2, 1}}
	}
	return u
}

func init() {
	rule := "non-trivial: at least one septet"
	addLong("C11", "long", 1<<16, 7, 1, 600, rule, func(c longCase, o *pbt.Obs) error {
		return checkPack(packCase{c.septets(), c.K}, o)
	})
	addLong("C11", "longUnpack", 1<<16, 7, 1, 600, "octets to septets; non-trivial: two or more octets", func(c longCase, o *pbt.Obs) error {
		return checkUnpack(unpackCase{c.octets(), c.K}, o)
	})
	addLong("C12", "long", 1<<16, 7, 3, 600, "with no, one or two CRs at the end; "+rule, func(c longCase, o *pbt.Obs) error {
		return checkUSSD(packCase{c.septets(), c.K}, o)
	})
	addLong("C12", "longUnpack", 1<<16, 7, 3, 600, "a CR at the end removed; non-trivial: ends in CR", func(c longCase, o *pbt.Obs) error {
		s := c.septets()
		return checkUSSDUnpack(unpackCase{ref.Pack(append(s, cr), c.K), c.K}, o)
	})
	addLong("C13", "long", 1<<14, 14, 4, 400, "text of each pair of tables, one in four with a character in neither; non-trivial: not empty", func(c longCase, o *pbt.Obs) error {
		return checkGSMText(gsmTextCase{longGSM(c), c.K, c.K}, o)
	})
	addLong("C13", "longDecode", 1<<14, 14, 2, 400, "septets decoded; non-trivial: with an escape", func(c longCase, o *pbt.Obs) error {
		r := c.rand()
		s := make(pbt.H, c.N)
		for i := range s {
			s[i] = byte(r.Intn(128))
			if r.Intn(6) == 0 {
				s[i] = ref.Esc
			}
		}
		return checkGSMDecode(gsmDecodeCase{S: s, Lock: c.K, Shift: c.K, Strict: c.Seed%8 == 7, Via: int(c.Seed % 2)}, o)
	})
	addLong("C14", "long", 1<<16, 2, 2, 400, "text encoded and decoded; non-trivial: not empty", func(c longCase, o *pbt.Obs) error {
		return checkUCS2Text(ucs2Text{string(c.runes(func(r *rand.Rand) rune {
			if c.K == 0 && r.Intn(2) == 0 {
				return 0x1f600 + rune(r.Intn(70))
			}
			return []rune{'a', 'ş', '你', 0xffff, 0xfffd, 0xe000, 0xd7ff}[r.Intn(7)]
		}))}, o)
	})
	addLong("C14", "longUnits", 1<<16, 1, 4, 400, "code units decoded; non-trivial: a lone surrogate", func(c longCase, o *pbt.Obs) error {
		b := c.units()
		if c.Seed%4 == 3 {
			b = append(b, 0)
		}
		return checkUCS2Units(ucs2Units{b}, o)
	})
	addLong("C14", "manySegments", 1<<11, 3, 4, 600, "code units in up to 600 segments; non-trivial: a segment ends in a surrogate whose partner, if any, is in a later one", func(c longCase, o *pbt.Obs) error {
		return checkUCS2Split(ucs2Split{c.units(), c.cuts()}, o)
	})
	pbt.Enum("C19", "counts", "headers of each number of elements of each small size; non-trivial: not empty", func(yield func(longCase) bool) {
		for n := 0; n <= 130; n++ {
			for k := 0; k <= 6; k++ {
				for s := int64(0); s < 6; s++ {
					if !yield(longCase{n, s, k}) {
						return
					}
				}
			}
		}
	}, long(func(c longCase, o *pbt.Obs) error { return checkUDH(udhCase{UDH: longUDH(c)}, o) }))
	addLong("C20", "longTPDU", 1<<16, 3, 1, 100, "a TPDU after a service centre; non-trivial: all", func(c longCase, o *pbt.Obs) error {
		return checkModem(modemCase{ref.Addr{TOA: 0x91, Text: []string{"", "1", "44770090012"}[c.K]}, c.octets(), c.K}, o)
	})
	addLong("C25", "long", 1<<14, 2, 1, 200, "digits encoded and decoded; non-trivial: not empty", func(c longCase, o *pbt.Obs) error {
		return checkSemiText(semiText{S: string(c.runes(func(r *rand.Rand) rune { return rune(digitChars[r.Intn(len(digitChars))]) })), Trail: make(pbt.H, c.K)}, o)
	})
}

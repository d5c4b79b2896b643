package checks

import (
	"bytes"
	"fmt"
	"time"

	"github.com/warthog618/sms/encoding/tpdu"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/ref"
)

type vpCase struct {
	VP    ref.VP
	Trail pbt.H
}

func fromVP(v tpdu.ValidityPeriod) (ref.VP, error) {
	r := ref.VP{Format: byte(v.Format)}
	switch v.Format {
	case tpdu.VpfAbsolute:
		var ok bool
		if r.T, ok = ref.FromGo(v.Time.Time); !ok {
			return r, fmt.Errorf("the time is %v", v.Time)
		}
	case tpdu.VpfRelative:
		r.Dur = v.Duration
	case tpdu.VpfEnhanced:
		r.Dur, r.EFI = v.Duration, v.EFI
	}
	return r, nil
}

func checkVP(c vpCase, o *pbt.Obs) error {
	v := toVP(c.VP)
	want := c.VP.Bytes()
	got, err := v.MarshalBinary()
	if err != nil || !bytes.Equal(got, want) {
		return fmt.Errorf("MarshalBinary of %+v is %x, %v, not %x", v, got, err, want)
	}
	o.NTIf(c.VP.Format != ref.VPNone)
	o.Class(fmt.Sprintf("format %d", c.VP.Format))
	src := append(append([]byte{}, want...), c.Trail...)
	in := tight(src)
	var back tpdu.ValidityPeriod
	n, err := back.UnmarshalBinary(in, tpdu.ValidityPeriodFormat(c.VP.Format))
	if !bytes.Equal(in, src) {
		return fmt.Errorf("UnmarshalBinary altered its input")
	}
	if err != nil || n != len(want) {
		return fmt.Errorf("UnmarshalBinary(%x) consumes %d, %v", src, n, err)
	}
	r, err := fromVP(back)
	if err != nil || r != c.VP {
		return fmt.Errorf("UnmarshalBinary(%x) is %+v, %v, not %+v", src, r, err, c.VP)
	}
	// set over any other, it is the same
	other := tpdu.ValidityPeriod{Format: tpdu.VpfEnhanced, Time: toTime(ref.Time{Y: 2001, Mo: 2, D: 3}), Duration: 12345 * time.Second, EFI: 0xc2}
	switch v.Format {
	case tpdu.VpfAbsolute:
		other.SetAbsolute(v.Time)
	case tpdu.VpfRelative:
		other.SetRelative(v.Duration)
	case tpdu.VpfEnhanced:
		other.SetEnhanced(v.Duration, v.EFI)
	default:
		other = back
	}
	for _, x := range []tpdu.ValidityPeriod{back, other} {
		if x.Format != tpdu.VpfAbsolute && x.Time != (tpdu.Timestamp{}) || x.Format != tpdu.VpfEnhanced && x.EFI != 0 || x.Duration != v.Duration {
			return fmt.Errorf("%x, or %+v set, is %+v, with fields of other formats", src, v, x)
		}
		if b, err := x.MarshalBinary(); err != nil || !bytes.Equal(b, want) {
			return fmt.Errorf("%+v is marshalled to %x, %v, not %x", x, b, err, want)
		}
	}
	return nil
}

type durCase struct{ D time.Duration }

func checkRelative(c durCase, o *pbt.Obs) error {
	o.NTIf(c.D > 5*time.Minute)
	want := ref.RelativeOctet(c.D)
	for i, efi := range []byte{0, 1, 0x41} {
		var v tpdu.ValidityPeriod
		at := 0
		if i == 0 {
			v.SetRelative(c.D)
		} else {
			v.SetEnhanced(c.D, efi)
			at = 1
		}
		b, err := v.MarshalBinary()
		if err != nil || len(b) != 1+6*at || b[at] != want {
			return fmt.Errorf("%v encodes to %x, %v, not %02x (%v)", c.D, b, err, want, ref.RelativePeriod(want))
		}
	}
	// whole seconds, rounded down, as far as they can be represented
	for _, efi := range []byte{2, 0x82, 3, 0x43} {
		var v, back tpdu.ValidityPeriod
		v.SetEnhanced(c.D, efi)
		want := ref.VP{Format: ref.VPEnhanced, EFI: efi, Dur: c.D}.Bytes()
		b, err := v.MarshalBinary()
		if err != nil || !bytes.Equal(b, want) {
			return fmt.Errorf("%v with EFI %02x encodes to %x, %v, not %x", c.D, efi, b, err, want)
		}
		if n, err := back.UnmarshalBinary(b, tpdu.VpfEnhanced); err != nil || n != 7 || back.Duration > max(0, c.D) {
			return fmt.Errorf("%v encodes to %x, which decodes to %v, %d, %v", c.D, b, back.Duration, n, err)
		}
	}
	o.ClassIf(c.D < 0, "negative")
	o.ClassIf(c.D >= 100*time.Hour, "beyond hh:mm:ss")
	return nil
}

type vpOctets struct {
	B      pbt.H
	Format int
}

func checkVPOctets(c vpOctets, o *pbt.Obs) error {
	want, n, vd, why := ref.ParseVP(c.B, c.Format)
	in := tight(c.B)
	var v tpdu.ValidityPeriod
	got, err := v.UnmarshalBinary(in, tpdu.ValidityPeriodFormat(c.Format))
	if !bytes.Equal(in, c.B) {
		return fmt.Errorf("UnmarshalBinary altered its input")
	}
	if c.Format > 3 {
		vd, why = ref.Invalid, "format"
	}
	o.Class(vd.String())
	o.NTIf(c.Format != 0)
	switch vd {
	case ref.Invalid:
		if err == nil {
			return fmt.Errorf("accepted as %+v: %s", v, why)
		}
	case ref.Valid:
		if err != nil || got != n {
			return fmt.Errorf("UnmarshalBinary consumes %d, %v", got, err)
		}
		r, err := fromVP(v)
		if err != nil || r != want {
			return fmt.Errorf("UnmarshalBinary is %+v, %v, not %+v", r, err, want)
		}
		b, err := v.MarshalBinary()
		if err != nil || !bytes.Equal(b, c.B[:n]) && !(c.Format == ref.VPAbsolute && b[6] == c.B[6]&^8) {
			return fmt.Errorf("it marshals to %x, %v, not %x", b, err, c.B[:n])
		}
	}
	return nil
}

type badVP struct {
	Format, EFI byte
	Dur         time.Duration
}

func checkBadVP(c badVP, o *pbt.Obs) error {
	v := tpdu.ValidityPeriod{Format: tpdu.ValidityPeriodFormat(c.Format), EFI: c.EFI, Duration: c.Dur}
	b, err := v.MarshalBinary()
	bad := c.Format > 3 || c.Format == 1 && c.EFI&7 > 3
	o.NTIf(bad)
	if bad && err == nil {
		return fmt.Errorf("marshals to %x", b)
	}
	if !bad && err != nil {
		return fmt.Errorf("refused: %v", err)
	}
	return nil
}

func genDuration(t *rapid.T) durCase {
	switch intn(t, 0, 3, "dk") {
	case 0: // at and about what can be represented
		d := ref.RelativePeriod(rapid.Byte().Draw(t, "v"))
		d += pick(t, "eps", time.Duration(0), 1, -1, time.Second, -time.Second, time.Minute, -time.Minute, 5*time.Minute, 30*time.Minute, 24*time.Hour)
		return durCase{d}
	case 1:
		return durCase{time.Duration(intn(t, 0, 63*7*24*3600+100000, "secs")) * time.Second}
	case 2:
		return durCase{time.Duration(rapid.Int64Range(-1<<63, 1<<63-1).Draw(t, "any"))}
	}
	d := time.Duration(intn(t, 0, pick(t, "scale", 300, 7200, 90000, 400000), "minor")) * time.Second
	if oneIn(t, 2, "fraction") {
		d += time.Duration(intn(t, 0, 999999999, "ns"))
	}
	if oneIn(t, 4, "negative") {
		d = -d
	}
	return durCase{d}
}

func genVPOctets(t *rapid.T) vpOctets {
	c := vpOctets{Format: intn(t, 0, 3, "format")}
	if oneIn(t, 20, "badFormat") {
		c.Format = intn(t, 4, 255, "format2")
	}
	v := genVP(t)
	c.B = v.Bytes()
	if c.Format <= 3 {
		v.Format = byte(c.Format)
		if v.Format == ref.VPAbsolute {
			v.T = genTime(t, "abs")
		}
		c.B = v.Bytes()
	}
	for k := intn(t, 0, 2, "muts"); k > 0 && len(c.B) > 0; k-- {
		c.B[intn(t, 0, len(c.B)-1, "at")] = rapid.Byte().Draw(t, "v")
	}
	switch intn(t, 0, 5, "len") {
	case 0:
		c.B = c.B[:intn(t, 0, len(c.B), "cut")]
	case 1, 2:
		c.B = append(c.B, octets(t, 1, 8, "more")...)
	}
	return c
}

func init() {
	pbt.Enum("C17", "relative", "every relative octet decodes to its period and encodes to itself; non-trivial: all", func(yield func(vpOctets) bool) {
		for v := 0; v < 256; v++ {
			if !yield(vpOctets{pbt.H{byte(v)}, ref.VPRelative}) || !yield(vpOctets{pbt.H{1, byte(v), 0, 0, 0, 0, 0}, ref.VPEnhanced}) {
				return
			}
		}
	}, checkVPOctets)
	pbt.Enum("C17", "durations", "every whole minute to 63 weeks and a nanosecond and a second to either side of every representable period, every second about nothing and 100 hours, and the extremes; non-trivial: more than 5 minutes", func(yield func(durCase) bool) {
		for m := 0; m <= 64*7*24*60; m++ {
			if m > 3*24*60 && m%7 != 0 && m%1440 > 1 { // sparser on the coarse scales
				continue
			}
			if !yield(durCase{time.Duration(m) * time.Minute}) {
				return
			}
		}
		for v := 0; v < 256; v++ {
			for _, e := range []time.Duration{-time.Second, -1, 0, 1, time.Second} {
				if !yield(durCase{ref.RelativePeriod(byte(v)) + e}) {
					return
				}
			}
		}
		for s := -400; s <= 400; s++ {
			for _, d := range []time.Duration{0, 100 * time.Hour, -100 * time.Hour} {
				if !yield(durCase{d + time.Duration(s)*time.Second}) || !yield(durCase{d + time.Duration(s)*time.Second - 1}) {
					return
				}
			}
		}
		for _, d := range []time.Duration{1<<63 - 1, -1 << 63, 1<<63 - 1 - time.Second, -1<<63 + time.Hour} {
			if !yield(durCase{d}) {
				return
			}
		}
	}, checkRelative)
	pbt.Enum("C17", "indicators", "every indicator octet, every seconds value, every hour, minute and second value; non-trivial: all but absent", func(yield func(vpOctets) bool) {
		for efi := 0; efi < 256; efi++ {
			for i := 0; i < 7; i++ {
				for _, x := range []byte{0, 1, 0x0a, 0x95, 0xa0} {
					b := pbt.H{byte(efi), 0, 0, 0, 0, 0, 0}
					b[i] ^= x
					if !yield(vpOctets{b, ref.VPEnhanced}) {
						return
					}
				}
			}
		}
		for v := 0; v < 256; v++ {
			if !yield(vpOctets{pbt.H{2, byte(v), 0, 0, 0, 0, 0}, ref.VPEnhanced}) {
				return
			}
			for i := 1; i < 4; i++ {
				b := pbt.H{3, 0x10, 0x20, 0x30, 0, 0, 0}
				b[i] = byte(v)
				if !yield(vpOctets{b, ref.VPEnhanced}) {
					return
				}
			}
		}
	}, checkVPOctets)
	pbt.Enum("C17", "reserved", "every format and indicator; non-trivial: those that are reserved", func(yield func(badVP) bool) {
		for f := 0; f < 256; f++ {
			for efi := 0; efi < 256; efi++ {
				if (f < 8 || efi < 8) && !yield(badVP{byte(f), byte(efi), time.Duration(efi) * time.Second}) {
					return
				}
			}
		}
	}, checkBadVP)
	pbt.Random("C17", "duration", 40000, "any duration against an exhaustive search of the 256 periods; non-trivial: more than 5 minutes", genDuration, checkRelative)
	pbt.Random("C17", "roundtrip", 40000, "periods of every format; non-trivial: not absent", func(t *rapid.T) vpCase {
		return vpCase{genVP(t), octets(t, 0, 8, "trail")}
	}, checkVP)
	pbt.Random("C17", "octets", 60000, "encoded periods mutated, truncated or extended against a model parser; non-trivial: not absent", genVPOctets, checkVPOctets)
}

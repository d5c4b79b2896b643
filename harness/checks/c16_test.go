package checks

import (
	"bytes"
	"fmt"
	"time"
	_ "time/tzdata"

	"github.com/warthog618/sms/encoding/tpdu"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/ref"
)

var places = func() (l []*time.Location) {
	for _, n := range []string{"America/New_York", "America/St_Johns", "America/Sao_Paulo", "Europe/London", "Europe/Dublin", "Africa/Casablanca", "Africa/Monrovia",
		"Asia/Kolkata", "Asia/Kathmandu", "Asia/Tehran", "Asia/Pyongyang", "Australia/Lord_Howe", "Australia/Eucla", "Australia/Perth", "Pacific/Chatham", "Pacific/Apia", "Pacific/Kiritimati", "Pacific/Marquesas", "Etc/GMT+12"} {
		z, err := time.LoadLocation(n)
		if err != nil {
			panic(err)
		}
		l = append(l, z)
	}
	return
}()

type timeCase struct {
	T     ref.Time
	Local int // quarter hours of the machine's zone
	Via   int // how the time is made, or from 4 where
	Trail pbt.H
	Nano  int `json:",omitempty"` // the part of a second, which is dropped
}

func withLocal(q int, f func() error) error {
	old := time.Local
	defer func() { time.Local = old }()
	time.Local = time.FixedZone("L", q*900)
	return f()
}

func checkTime(c timeCase, o *pbt.Obs) error {
	return withLocal(c.Local, func() error {
		g := c.T.Go()
		switch c.Via {
		case 1: // in a zone of another name
			g = g.In(time.FixedZone("another", c.T.Q*900))
		case 2: // with a monotonic reading there is no difference, via unix time
			g = time.Unix(g.Unix(), 0).In(time.FixedZone("", c.T.Q*900))
		case 3: // local
			if c.T.Q == c.Local {
				g = g.In(time.Local)
			}
		}
		if c.Via > 3 {
			g = g.In(places[c.Via-4])
		}
		o.ClassIf(c.Nano != 0, "part of a second")
		g = g.Add(time.Duration(c.Nano))
		want := c.T.Bytes()
		ts := tpdu.Timestamp{Time: g}
		got, err := ts.MarshalBinary()
		if !c.T.Fits() {
			o.NT()
			o.Class("refused")
			if err == nil {
				return fmt.Errorf("%v, of a zone that cannot be encoded, is marshalled to %x", g, got)
			}
			return nil
		}
		if err != nil || !bytes.Equal(got, want) {
			return fmt.Errorf("MarshalBinary of %v is %x, %v, not %x", g, got, err, want)
		}
		o.NTIf(c.T.Q != 0)
		o.ClassIf(c.T.Q < 0, "west")
		o.ClassIf(c.T.Y >= 2000, "from 2000")
		src := append(append([]byte{}, want...), c.Trail...)
		in := tight(src)
		var back tpdu.Timestamp
		if err := back.UnmarshalBinary(in); err != nil {
			return fmt.Errorf("UnmarshalBinary(%x): %v", src, err)
		}
		if !bytes.Equal(in, src) {
			return fmt.Errorf("UnmarshalBinary altered its input")
		}
		return sameTime(back, c.T)
	})
}

func sameTime(ts tpdu.Timestamp, want ref.Time) error {
	f, ok := ref.FromGo(ts.Time)
	_, z := ts.Zone()
	if !ok || f != want || z != want.Q*900 || !ts.Time.Equal(want.Go()) {
		return fmt.Errorf("the time is %v, not %v", ts.Time, want.Go())
	}
	return nil
}

type timeOctets struct {
	B     pbt.H
	Local int
}

func checkTimeOctets(c timeOctets, o *pbt.Obs) error {
	return withLocal(c.Local, func() error {
		want, v, why := ref.ParseTime(c.B)
		in := tight(c.B)
		var ts tpdu.Timestamp
		err := ts.UnmarshalBinary(in)
		if !bytes.Equal(in, c.B) {
			return fmt.Errorf("UnmarshalBinary altered its input")
		}
		o.Class(v.String())
		o.NTIf(len(c.B) >= 7)
		switch v {
		case ref.Invalid:
			if err == nil {
				return fmt.Errorf("accepted as %v: %s", ts, why)
			}
		case ref.Valid:
			if err != nil {
				return fmt.Errorf("refused: %v", err)
			}
			return sameTime(ts, want)
		}
		return nil
	})
}

func genTimeCase(t *rapid.T) timeCase {
	c := timeCase{T: genTime(t, "t"), Local: pick(t, "local", 0, 22, -13, 40), Via: intn(t, 0, 3, "via"), Trail: octets(t, 0, 4, "trail")}
	if c.Via == 3 {
		c.Local = c.T.Q
	}
	if oneIn(t, 3, "part") {
		c.Nano = pick(t, "nano", 1, 499999999, 500000000, 999999999, intn(t, 0, 999999999, "ns"))
	}
	return c
}

// An anyTime is any time that Go can express, in any zone.
type anyTime struct {
	Unix int64
	Zone int // seconds
}

// checkAnyTime requires that whatever is marshalled can be unmarshalled: to the
// same date and time of day, where the year is one that two digits distinguish.
func checkAnyTime(c anyTime, o *pbt.Obs) error {
	g := time.Unix(c.Unix, 0).In(time.FixedZone("", c.Zone))
	ts := tpdu.Timestamp{Time: g}
	got, err := ts.MarshalBinary()
	y := g.Year()
	in := y >= 1970 && y < 2070
	o.NTIf(!in || c.Zone%900 != 0)
	o.ClassIf(!in, "another century")
	if err != nil {
		if in && c.Zone > -72000 && c.Zone < 72000 {
			return fmt.Errorf("%v is refused: %v", g, err)
		}
		o.Class("refused")
		return nil
	}
	if len(got) != 7 {
		return fmt.Errorf("%v is marshalled to %x", g, got)
	}
	var back tpdu.Timestamp
	if err := back.UnmarshalBinary(tight(got)); err != nil {
		return fmt.Errorf("%v is marshalled to %x, which is not accepted: %v", g, got, err)
	}
	const clock = "01-02 15:04:05"
	leap := g.Month() == time.February && g.Day() == 29 // which another century may not have
	if in && back.Year() != y || (in || !leap) && back.Format(clock) != g.Format(clock) {
		return fmt.Errorf("%v is marshalled to %x, which is %v", g, got, back)
	}
	_, z := back.Zone()
	if d := c.Zone - z; d <= -900 || d >= 900 {
		return fmt.Errorf("%v is marshalled to %x, in zone %v", g, got, back)
	}
	return nil
}

func init() {
	pbt.Enum("C16", "zones", "every zone of whole quarter hours within 19:45 with times about midnight, year ends and the century, and every month, day, hour, minute, second and year value; non-trivial: not UTC", func(yield func(timeCase) bool) {
		for q := -79; q <= 79; q++ {
			for _, tm := range []ref.Time{{1970, 1, 1, 0, 0, 0, q}, {2069, 12, 31, 23, 59, 59, q}, {1999, 12, 31, 23, 59, 59, q},
				{2000, 1, 1, 0, 0, 0, q}, {2024, 2, 29, 12, 34, 56, q}, {2019, 7, 5, 3, 2, 1, q}} {
				for via := 0; via < 4; via++ {
					if !yield(timeCase{T: tm, Local: q * (via / 3), Via: via}) {
						return
					}
				}
			}
		}
		for y := 1970; y < 2070; y++ {
			for mo := 1; mo <= 12; mo++ {
				for d := 1; d <= 31; d++ {
					tm := ref.Time{Y: y, Mo: mo, D: d, H: (y + d) % 24, Mi: (mo*7 + d) % 60, S: (y + mo + d) % 60, Q: (y+mo*31+d)%159 - 79}
					if tm.Calendar() && !yield(timeCase{T: tm, Local: 22}) {
						return
					}
				}
			}
		}
		for s := 0; s < 86400; s += 1 {
			if !yield(timeCase{T: ref.Time{Y: 2020, Mo: 2, D: 3, H: s / 3600, Mi: s / 60 % 60, S: s % 60, Q: s%159 - 79}}) {
				return
			}
		}
	}, checkTime)
	pbt.Enum("C16", "beyond", "every zone of whole quarter hours to 100 hours that cannot be encoded; non-trivial: all", func(yield func(timeCase) bool) {
		for q := 80; q <= 400; q++ {
			for _, z := range []int{q, -q} {
				if !yield(timeCase{T: ref.Time{Y: 2024, Mo: 2, D: 29, H: 12, Mi: 34, S: 56, Q: z}}) {
					return
				}
			}
		}
	}, checkTime)
	pbt.Random("C16", "places", 40000, "times in real places, many of which change their zone; non-trivial: not UTC", func(t *rapid.T) timeCase {
		i := intn(t, 0, len(places)-1, "place")
		for {
			g := time.Unix(rapid.Int64Range(0, 3155759999).Draw(t, "unix"), 0).In(places[i])
			if f, ok := ref.FromGo(g); ok && f.Y < 2070 && f.Y >= 1970 {
				return timeCase{T: f, Via: 4 + i, Local: pick(t, "local", 0, 22, f.Q)}
			}
		}
	}, checkTime)
	pbt.Random("C16", "random", 60000, "times from 1970 to 2069 in any zone, with the machine in one of several zones; non-trivial: not UTC", genTimeCase, checkTime)
	pbt.Random("C16", "any", 40000, "times of any year, many far from this century, in any zone to the second: what is marshalled can be unmarshalled; non-trivial: a year or zone that does not fit", func(t *rapid.T) anyTime {
		c := anyTime{Unix: rapid.Int64Range(0, 3155759999).Draw(t, "unix"), Zone: intn(t, -90000, 90000, "zone")}
		switch intn(t, 0, 3, "era") {
		case 0:
			c.Unix = rapid.Int64Range(-62135596800*3, 62135596800*5).Draw(t, "far")
		case 1:
			c.Unix = rapid.Int64Range(-1<<52, 1<<52).Draw(t, "farther")
		}
		if oneIn(t, 2, "quarters") {
			c.Zone = c.Zone / 900 * 900
		}
		return c
	}, checkAnyTime)
	pbt.Enum("C16", "octet", "every value of each of the 7 octets in an otherwise valid time, and every length; non-trivial: 7 octets", func(yield func(timeOctets) bool) {
		base := pbt.H{0x02, 0x21, 0x50, 0x32, 0x14, 0x25, 0x40}
		for i := range base {
			for v := 0; v < 256; v++ {
				b := append(pbt.H{}, base...)
				b[i] = byte(v)
				if !yield(timeOctets{b, 22}) {
					return
				}
			}
		}
		for n := 0; n < 9; n++ {
			if !yield(timeOctets{append(append(pbt.H{}, base...), 1, 2)[:n], 0}) {
				return
			}
		}
	}, checkTimeOctets)
	pbt.Random("C16", "octets", 40000, "octets that are mostly a time, with any nibble replaced, or truncated; non-trivial: 7 or more octets", func(t *rapid.T) timeOctets {
		b := pbt.H(genTime(t, "t").Bytes())
		for k := intn(t, 0, 3, "muts"); k > 0; k-- {
			i := intn(t, 0, 6, "at")
			b[i] = rapid.Byte().Draw(t, "v")
		}
		if oneIn(t, 8, "short") {
			b = b[:intn(t, 0, 6, "cut")]
		} else if oneIn(t, 4, "long") {
			b = append(b, octets(t, 1, 4, "more")...)
		}
		return timeOctets{b, pick(t, "local", 0, 22, -13, 40)}
	}, checkTimeOctets)
}

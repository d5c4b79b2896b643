package checks

import (
	"fmt"
	"slices"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// Many sets are open together, or pass through one after the other.

type crowdCase struct {
	Open   int // sets
	Tot    int // of each
	By     int // they differ by number, reference, or both
	Rounds int
	Step   int  // of the order
	Timed  bool `json:",omitempty"` // with a timeout, too long to matter
	Gap    int  `json:",omitempty"` // us between segments
	Done   int  `json:",omitempty"` // of each 8 sets, those completed
	Look   int  `json:",omitempty"` // segments between snapshots
	None   bool `json:",omitempty"` // no handler
}

func (c crowdCase) seg(i, no int) Seg {
	s := Seg{T: ref.Deliver, Tot: c.Tot + i%3, No: no}
	a := ref.Addr{TOA: 0x91, Text: "4477009001"}
	n := 7
	switch c.By {
	case 0:
		a.Text = fmt.Sprint(44770090000 + i)
	case 1:
		n = i & 0xffff
		if i > 0xffff {
			a.Text += fmt.Sprint(i >> 16)
		}
	case 2:
		a.Text, n = fmt.Sprint(4477+i/256), i%256
		if i&4 > 0 {
			s.T = ref.Submit
		}
	case byTOA:
		a.TOA, s.T = byte(i>>1), []int{ref.Deliver, ref.Submit}[i&1]
	case byTotal:
		s.Tot = i>>1 + 2
		s.T = []int{ref.Deliver, ref.Submit}[i&1]
	case byDigit: // one of twenty
		b := []byte("12345678901234567890")
		if i > 0 {
			const digits = "0123456789*#abc"
			at, d := (i-1)/14, digits[(i-1)%14]
			if d == b[at] {
				d = 'c'
			}
			b[at] = d
		}
		a.Text = string(b)
	case byLength:
		a.Text = strings.Repeat("7", i)
	case byName: // with one character that differs
		a.TOA, a.Text = 0xd0, "ab"
		if i > 0 {
			r := nameRunes[(i-1)/2]
			if a.Text = "a" + string(r); i%2 == 0 {
				a.Text = string(r) + "a"
			}
		}
	}
	s.At, s.N = &a, &n
	return s
}

// The ways in which sets may differ in one respect only.
const (
	byTOA = iota + 3
	byTotal
	byDigit
	byLength
	byName
)

var nameRunes = func() (rs []rune) {
	for i := 0; i < 128; i++ {
		if r, ok := ref.Locking(0)[byte(i)]; ok && r != 'a' && i != ref.Esc {
			rs = append(rs, r)
		}
	}
	return
}()

// enumApart lists crowds in which each value of a part of the key occurs.
func enumApart(yield func(crowdCase) bool) {
	for _, x := range []crowdCase{
		{By: byTOA, Open: 512}, {By: byTotal, Open: 2 * 254}, {By: byDigit, Open: 1 + 20*14}, {By: byLength, Open: 21},
		{By: byName, Open: 1 + 2*len(nameRunes)}, {By: 1, Open: 1 << 16},
	} {
		for _, step := range []int{1, 101} {
			if x.By == 1 && step > 1 {
				continue
			}
			for _, timed := range []bool{false, true} {
				if x.By == 1 && timed {
					continue
				}
				x.Tot, x.Rounds, x.Step, x.Timed = 2, 1, step, timed
				if !yield(x) {
					return
				}
			}
		}
	}
}

// order visits each of n once.
func order(n, step int) []int {
	for gcd(n, step) != 1 {
		step++
	}
	l := make([]int, n)
	for i := range l {
		l[i] = (i*step + step/2) % n
	}
	return l
}

func gcd(a, b int) int {
	for b > 0 {
		a, b = b, a%b
	}
	return a
}

func checkCrowd(c crowdCase, o *pbt.Obs) error {
	var opts []sms.CollectorOption
	if c.Timed {
		opts = append(opts, sms.WithReassemblyTimeout(time.Hour, func([]*tpdu.TPDU) {}))
	}
	h := newHistory(sms.NewCollector(opts...))
	defer h.c.Close()
	o.NTIf(c.Open > 1 || c.Rounds > 1)
	o.ClassIf(c.Open > 256, "over 256 open")
	o.ClassIf(c.Open > 1024, "over 1024 open")
	for r := 0; r < c.Rounds; r++ {
		for _, i := range order(c.Open, c.Step+r) {
			if _, err := h.collect(c.seg(i, (i+r)%c.Tot+1)); err != nil {
				return fmt.Errorf("round %d: a part of set %d of %d: %w", r, i, c.Open, err)
			}
		}
		if n := len(h.c.Pipes()); n != c.Open {
			return fmt.Errorf("round %d: %d sets are held, not %d", r, n, c.Open)
		}
		for _, i := range order(c.Open, 1) {
			first := (i+r)%c.Tot + 1
			if i%16 == 3 { // again
				if _, err := h.collect(c.seg(i, first)); err != nil {
					return fmt.Errorf("round %d: a part of set %d of %d again: %w", r, i, c.Open, err)
				}
			}
			for no := 1; no <= c.seg(i, 1).Tot; no++ {
				if no != first {
					if _, err := h.collect(c.seg(i, no)); err != nil {
						return fmt.Errorf("round %d: the rest of set %d of %d: %w", r, i, c.Open, err)
					}
				}
			}
		}
		if len(h.m.sets) > 0 {
			return fmt.Errorf("%w: left over", errInfra)
		}
		if n := len(h.c.Pipes()); n != 0 {
			return fmt.Errorf("round %d: %d sets are held, not none", r, n)
		}
		if r%8 == 7 {
			if err := h.unaltered(); err != nil {
				return err
			}
			h.given = nil
		}
	}
	return h.unaltered()
}

func genCrowd(t *rapid.T) crowdCase {
	c := crowdCase{Open: pick(t, "open", 1, 16, 100, 255, 256, 257, 512, 1000, intn(t, 1, 1500, "n")), Tot: intn(t, 2, 4, "tot"),
		By: intn(t, 0, 2, "by"), Rounds: 1, Step: intn(t, 1, 400, "step"), Timed: rapid.Bool().Draw(t, "timed")}
	if c.Open <= 16 {
		c.Rounds = pick(t, "rounds", 1, 10, 40, 100)
	} else if oneIn(t, 20, "large") {
		c.Open = pick(t, "large2", 4097, 5000, 10001)
	}
	return c
}

// With a timeout, all but those completed expire once.
func checkCrowdExpiry(tt *testing.T, c crowdCase, o *pbt.Obs) (err error) {
	synctest.Test(tt, func(*testing.T) {
		defer func() {
			if p := recover(); p != nil {
				err = fmt.Errorf("panic: %v", p)
			}
		}()
		err = runCrowdExpiry(c, o)
	})
	return
}

func runCrowdExpiry(c crowdCase, o *pbt.Obs) error {
	const d = 30 * time.Second
	start := time.Now()
	var log []expiry
	mu := make(chan bool, 1)
	handler := func(s []*tpdu.TPDU) {
		mu <- true
		log = append(log, expiry{s, slices.Clone(s), time.Since(start)})
		<-mu
	}
	if c.None {
		handler = nil
		o.Class("no handler")
	}
	coll := sms.NewCollector(sms.WithReassemblyTimeout(d, handler))
	defer coll.Close()
	h := newHistory(coll)
	due := map[int]time.Duration{} // by the id of the first part
	want := map[int][]int{}        // the set of that part
	gap := time.Duration(c.Gap) * 2 * time.Microsecond
	for r := 0; r < c.Rounds; r++ {
		var open []int // the set of each of this round
		for _, i := range order(c.Open, c.Step+r) {
			s := c.seg(i, (i+r)%c.Tot+1)
			w, err := h.collect(s)
			if err != nil {
				return fmt.Errorf("round %d: a part of set %d of %d: %w", r, i, c.Open, err)
			}
			id := len(h.fed) - 1
			due[id], want[id] = time.Since(start)+d, h.m.sets[w.key]
			open = append(open, i)
			if c.Look > 0 && len(open)%c.Look == 0 {
				if n := len(coll.Pipes()); n != len(want) {
					return fmt.Errorf("round %d: %d sets are held, not %d", r, n, len(want))
				}
			}
			if i%8 < c.Done {
				for no := 1; no <= s.Tot; no++ {
					if no != s.No {
						if _, err := h.collect(c.seg(i, no)); err != nil {
							return fmt.Errorf("round %d: the rest of set %d of %d: %w", r, i, c.Open, err)
						}
					}
				}
				delete(due, id)
				delete(want, id)
			}
			time.Sleep(gap)
		}
		if len(log) > 0 && time.Since(start) < d {
			return fmt.Errorf("expired early")
		}
		time.Sleep(2*d + time.Microsecond)
		synctest.Wait()
		h.m.sets = map[setKey][]int{}
		if len(due) > 0 {
			o.NT()
			o.ClassIf(len(due) > 100, "over 100 expire")
		}
		if n := len(coll.Pipes()); n != 0 {
			return fmt.Errorf("round %d: %d sets are held after the timeout", r, n)
		}
		if c.None {
			clear(due)
			clear(want)
		}
		for _, e := range log {
			id := -1
			for _, x := range e.got {
				if x != nil {
					id = idOf(x)
				}
			}
			w, ok := want[id]
			if !ok {
				return fmt.Errorf("round %d: %v expire again, or though complete", r, ids(e.got))
			}
			if err := h.is(e.got, w); err != nil {
				return fmt.Errorf("round %d: expired: %w", r, err)
			}
			if e.when < due[id] || e.when > due[id]+grace {
				return fmt.Errorf("round %d: %v expire at %v, not %v", r, w, e.when, due[id])
			}
			delete(want, id)
			delete(due, id)
		}
		for id, w := range want {
			return fmt.Errorf("round %d: %v did not expire at %v", r, w, due[id])
		}
		log = nil
	}
	return h.unaltered()
}

func genCrowdExpiry(t *rapid.T) crowdCase {
	c := crowdCase{Open: pick(t, "open", 1, 16, 100, 255, 256, 257, 512, 1000, intn(t, 1, 1500, "n")), Tot: intn(t, 2, 4, "tot"),
		By: intn(t, 0, 2, "by"), Rounds: 1, Step: intn(t, 1, 400, "step"), Gap: pick(t, "gap", 0, 0, 1, 500), Done: pick(t, "done", 0, 0, 1, 4, 7),
		Look: pick(t, "look", 0, 1, 7, 50), None: oneIn(t, 5, "none")}
	// all of a round are open before any expires
	if c.Open <= 16 {
		c.Rounds = pick(t, "rounds", 1, 10, 40)
	}
	return c
}

func init() {
	pbt.Enum("C07", "apart", "sets that differ in one part only of what tells them apart are open together; non-trivial: all", enumApart, checkCrowd)
	pbt.Random("C07", "crowd", 60, "several sets are open together", genCrowd, checkCrowd)
	pbt.RandomT("C08", "crowd", 60, "a set expires", genCrowdExpiry, checkCrowdExpiry).NoFuzz = true
}

package checks

import (
	"fmt"
	"slices"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/ref"
)

type setCase struct{ Segs []*Seg }

// completeModel tells whether segments are a complete message.
func completeModel(segs []*Seg) bool {
	if len(segs) == 0 || slices.Contains(segs, nil) {
		return false
	}
	if len(segs) == 1 && !concat(segs[0].udh()).OK {
		return true
	}
	first := concat(segs[0].udh())
	for i, s := range segs {
		c := concat(s.udh())
		if !c.OK || c.Ref != first.Ref || c.Segments != len(segs) || c.Seq != i+1 {
			return false
		}
	}
	return true
}

func checkComplete(c setCase, o *pbt.Obs) error {
	var set []*tpdu.TPDU
	for i, s := range c.Segs {
		if s == nil {
			set = append(set, nil)
			continue
		}
		t := s.tpdu(i)
		set = append(set, &t)
	}
	keep := slices.Clone(set)
	want := completeModel(c.Segs)
	got := sms.IsCompleteMessage(set)
	if got != want {
		return fmt.Errorf("reported complete=%v", got)
	}
	if !slices.Equal(set, keep) {
		return fmt.Errorf("the set is changed")
	}
	o.NTIf(len(set) > 1)
	o.Class(map[bool]string{true: "complete", false: "incomplete"}[want])
	o.ClassIf(slices.Contains(set, nil), "with missing segments")
	o.ClassIf(want && len(set) > 100, "complete, over 100 segments")
	return nil
}

func genSet(t *rapid.T) setCase {
	base := Seg{T: pick(t, "type", ref.Deliver, ref.Submit, 1, 2, 4, 5), Peer: intn(t, 0, len(peers)-1, "peer"), Ref: intn(t, 0, len(concatRefs)-1, "ref"), Tot: intn(t, 1, 6, "tot")}
	if oneIn(t, 10, "many") {
		base.Tot = pick(t, "totBig", 255, 127, 128, 64)
	}
	if oneIn(t, 6, "plain") {
		base.Plain = true
		if !oneIn(t, 4, "several") {
			base.Tot = 1
		}
		base.Pre = plainUDH(t, 12)
	}
	if oneIn(t, 5, "elements") {
		base.Pre, base.Post = plainUDH(t, 8), plainUDH(t, 8)
	}
	var c setCase
	for i := 1; i <= base.Tot; i++ {
		s := base
		s.No = i
		c.Segs = append(c.Segs, &s)
	}
	for n := intn(t, 0, 2, "changes"); n > 0; n-- {
		if len(c.Segs) == 0 {
			break
		}
		i, j := intn(t, 0, len(c.Segs)-1, "i"), intn(t, 0, len(c.Segs)-1, "j")
		s := Seg{}
		if c.Segs[i] != nil {
			s = *c.Segs[i]
		}
		switch intn(t, 0, 10, "change") {
		case 0:
			c.Segs = slices.Delete(c.Segs, i, i+1)
		case 1:
			c.Segs = slices.Insert(c.Segs, j, &s)
		case 2:
			c.Segs[i], c.Segs[j] = c.Segs[j], c.Segs[i]
		case 3:
			s.Ref = intn(t, 0, len(concatRefs)-1, "ref2")
			c.Segs[i] = &s
		case 4:
			s.Tot += pick(t, "more", 1, -1, 2, 255)
			s.Tot &= 0xff
			c.Segs[i] = &s
		case 5:
			s.No = pick(t, "no", 0, 1, s.No+1, s.No-1, 255) & 0xff
			c.Segs[i] = &s
		case 6:
			s.Plain = true
			c.Segs[i] = &s
		case 7:
			c.Segs[i] = nil
		case 8:
			c.Segs[i] = c.Segs[j]
		case 9: // another total throughout
			for k := range c.Segs {
				if c.Segs[k] != nil {
					x := *c.Segs[k]
					x.Tot = (x.Tot + 1) & 0xff
					c.Segs[k] = &x
				}
			}
		case 10: // cut short
			c.Segs = c.Segs[:i]
		}
	}
	return c
}

// enumSets lists all sets of up to three segments of small numbers.
func enumSets(yield func(setCase) bool) {
	var one []*Seg
	one = append(one, nil, &Seg{Plain: true})
	for tot := 0; tot <= 4; tot++ {
		for no := 0; no <= 4; no++ {
			one = append(one, &Seg{Tot: tot, No: no})
			if tot > 1 && tot < 4 && no > 0 && no < 4 {
				one = append(one, &Seg{Tot: tot, No: no, Ref: 1})
			}
		}
	}
	if !yield(setCase{}) {
		return
	}
	for _, a := range one {
		if !yield(setCase{[]*Seg{a}}) {
			return
		}
		for _, b := range one {
			if !yield(setCase{[]*Seg{a, b}}) {
				return
			}
			for _, c := range one {
				if !yield(setCase{[]*Seg{a, b, c}}) {
					return
				}
			}
		}
	}
}

// countSet is a set of N segments with at most one fault.
type countSet struct {
	N, Ref    int
	Fault, At int
	Bit       int // of the number that is wrong
}

const countFaults = 9

func (c countSet) segs() []*Seg {
	var segs []*Seg
	for i := 1; i <= c.N; i++ {
		segs = append(segs, &Seg{T: ref.Deliver, N: &c.Ref, Tot: c.N & 0xff, No: i & 0xff})
	}
	s := segs[c.At]
	switch c.Fault {
	case 1:
		segs = slices.Delete(segs, c.At, c.At+1)
	case 2:
		segs[c.At] = nil
	case 3:
		k := (c.At + 1) % c.N
		segs[c.At], segs[k] = segs[k], segs[c.At]
	case 4:
		segs = slices.Insert(segs, c.At, s)
	case 5:
		n := c.Ref ^ 1<<c.Bit
		s.N = &n
	case 6:
		s.Tot ^= 1 << (c.Bit & 7)
	case 7:
		s.No ^= 1 << (c.Bit & 7)
	case 8:
		s.Plain = true
	}
	return segs
}

func checkCountSet(c countSet, o *pbt.Obs) error {
	o.ClassIf(c.Fault > 0, "with a fault")
	return checkComplete(setCase{c.segs()}, o)
}

// enumCountSets lists sets of every number of segments.
func enumCountSets(yield func(countSet) bool) {
	for n := 1; n <= 300; n++ {
		for _, r := range []int{0, n & 0xff, 256 + n*n%65000} {
			if !yield(countSet{N: n, Ref: r}) {
				return
			}
			for f := 1; f < countFaults; f++ {
				for k, at := range []int{0, 1, n / 2, n - 2, n - 1} {
					if at < 0 || at >= n {
						continue
					}
					if !yield(countSet{N: n, Ref: r, Fault: f, At: at, Bit: (n + k) % 8}) {
						return
					}
				}
			}
		}
	}
}

func genCountSet(t *rapid.T) countSet {
	c := countSet{N: intn(t, 1, 256, "n"), Ref: pick(t, "wide", intn(t, 0, 255, "ref8"), intn(t, 0, 65535, "ref16")), Bit: intn(t, 0, 15, "bit")}
	c.At, c.Fault = intn(t, 0, c.N-1, "at"), intn(t, 0, countFaults-1, "fault")
	if c.Ref < 256 {
		c.Bit &= 7 // else another kind of element
	}
	return c
}

// checkTripSet collects an encoded message, and then changes the set.
func checkTripSet(c tripCase, o *pbt.Obs) error {
	got, err := sms.Encode([]byte(c.Text), lib(c.Opts)...)
	if err != nil || len(got) == 0 {
		return nil
	}
	col := sms.NewCollector()
	defer col.Close()
	var set []*tpdu.TPDU
	for i, k := range shuffled(len(got), c.Swap) {
		if set, err = col.Collect(got[k]); err != nil {
			return err
		}
		if (set != nil) != (i == len(got)-1) {
			return fmt.Errorf("a set of %d after %d of %d", len(set), i+1, len(got))
		}
		for _, held := range col.Pipes() {
			if sms.IsCompleteMessage(held) {
				return fmt.Errorf("%d of %d segments are reported complete", i+1, len(got))
			}
		}
	}
	if !sms.IsCompleteMessage(set) {
		return fmt.Errorf("the set of %d given by the collector is not reported complete", len(set))
	}
	if len(got) < 2 {
		return nil
	}
	o.NT()
	var all []*tpdu.TPDU
	for i := range got {
		all = append(all, &got[i])
	}
	if !sms.IsCompleteMessage(all) {
		return fmt.Errorf("the encoded TPDUs are not reported complete")
	}
	at := []int{0, len(set) - 1, len(set) / 2}
	if len(c.Swap) > 0 {
		at = append(at, c.Swap[0]%len(set))
	}
	foreign := got[0]
	foreign.UDH = tpdu.UserDataHeader{{ID: 0, Data: []byte{77, byte(len(set)), 1}}}
	for _, i := range at {
		if x := slices.Delete(slices.Clone(set), i, i+1); sms.IsCompleteMessage(x) {
			return fmt.Errorf("complete without %d of %d", i+1, len(set))
		}
		for _, j := range at {
			x := slices.Clone(set)
			x[i], x[j] = x[j], x[i]
			if i != j && sms.IsCompleteMessage(x) {
				return fmt.Errorf("complete with %d and %d of %d exchanged", i+1, j+1, len(set))
			}
			if x := slices.Insert(slices.Clone(set), i, set[j]); sms.IsCompleteMessage(x) {
				return fmt.Errorf("complete with %d of %d twice", j+1, len(set))
			}
			x = slices.Clone(set)
			x[i] = set[j]
			if i != j && sms.IsCompleteMessage(x) {
				return fmt.Errorf("complete with %d of %d in place of %d", j+1, len(set), i+1)
			}
		}
		x := slices.Clone(set)
		f := foreign
		f.UDH = tpdu.UserDataHeader{{ID: 0, Data: []byte{77, byte(len(set)), byte(i + 1)}}}
		x[i] = &f
		if sms.IsCompleteMessage(x) {
			return fmt.Errorf("complete with a segment of another message in place of %d of %d", i+1, len(set))
		}
		x[i] = nil
		if sms.IsCompleteMessage(x) {
			return fmt.Errorf("complete with %d of %d missing", i+1, len(set))
		}
		p := *set[i]
		p.UDH = nil
		x[i] = &p
		if sms.IsCompleteMessage(x) {
			return fmt.Errorf("complete with an unsegmented TPDU in place of %d of %d", i+1, len(set))
		}
	}
	return nil
}

func genTripSet(t *rapid.T) tripCase {
	c := tripCase{Text: genText(t, 6), Opts: genCarrier(t), Swap: genSwaps(t)}
	if oneIn(t, 2, "boundary") {
		c.Text = genBoundary(t, 6)
	}
	return c
}

func init() {
	pbt.Random("C23", "sets", 60000, "more than one segment", genSet, checkComplete)
	pbt.Enum("C23", "small", "more than one segment", enumSets, checkComplete)
	pbt.Enum("C23", "counts", "every number of segments, with and without one fault at the ends or in the middle; non-trivial: more than one segment", enumCountSets, checkCountSet)
	pbt.Random("C23", "faults", 6000, "any number of segments with any reference, with and without one fault anywhere; non-trivial: more than one segment", genCountSet, checkCountSet)
	pbt.Random("C23", "collected", 12000, "a segmented message", genTripSet, checkTripSet)
}

package checks

import (
	"bytes"
	"fmt"
	"reflect"
	"slices"
	"testing"
	"testing/synctest"
	"time"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// concatRefs are the references of messages. Each is always carried in an
// element of the same width.
var concatRefs = []struct {
	N    int
	Wide bool
}{{5, false}, {0x105, true}, {6, true}, {0, false}, {255, false}, {0xff00, true}, {1, false}, {12, false}, {3, false}, {23, false}, {123, false}, {21, false}}

// peers are addresses that are easily mixed up.
var peers = []ref.Addr{{TOA: 0x91, Text: "1"}, {TOA: 0x81, Text: "1"}, {TOA: 0x91, Text: "12"}, {TOA: 0x91, Text: "123"}, {}, {TOA: 0x91},
	{TOA: 0xd0, Text: "a:5"}, {TOA: 0xd0, Text: "a"}, {TOA: 0x91, Text: "447700900123"}, {TOA: 0x91, Text: "447700900124"}, {TOA: 0xd0, Text: "A"}, {TOA: 0x91, Text: "1:5:2"},
	{TOA: 0xd0, Text: "a "}, {TOA: 0xd0, Text: " a"}, {TOA: 0xd0, Text: "a\n"}, {TOA: 0xd0, Text: "Abcdefghijk"}, {TOA: 0xd0, Text: "Abcdefghijl"}, {TOA: 0x50, Text: "a"}, {TOA: 0x91, Text: "01"}}

// Seg is one received TPDU.
type Seg struct {
	T       int // type, 0..7
	Peer    int
	Ref     int // index in concatRefs
	Tot, No int
	Plain   bool      // not concatenated
	Pre     []ref.IE  `json:",omitempty"`
	Post    []ref.IE  `json:",omitempty"`
	At      *ref.Addr `json:",omitempty"` // rather than Peer
	N       *int      `json:",omitempty"` // rather than that of Ref
	Same    bool      `json:",omitempty"` // in all, if it repeats an earlier one
}

func (s Seg) peer() ref.Addr {
	if s.At != nil {
		return *s.At
	}
	return peers[s.Peer]
}

func (s Seg) udh() []ref.IE {
	u := append([]ref.IE{}, s.Pre...)
	if !s.Plain {
		r := concatRefs[s.Ref]
		if s.N != nil {
			r.N, r.Wide = *s.N, *s.N > 255
		}
		if r.Wide {
			u = append(u, ref.IE{ID: 8, Data: pbt.H{byte(r.N >> 8), byte(r.N), byte(s.Tot), byte(s.No)}})
		} else {
			u = append(u, ref.IE{ID: 0, Data: pbt.H{byte(r.N), byte(s.Tot), byte(s.No)}})
		}
	}
	return append(u, s.Post...)
}

// tpdu is the TPDU with an id that tells it from all others. The rest differs
// between TPDUs, or does not, as it may in what is received.
func (s Seg) tpdu(id int) tpdu.TPDU {
	k := id * 2654435761 >> 7
	t := tpdu.TPDU{Direction: tpdu.Direction(s.T & 1), FirstOctet: tpdu.FirstOctet(s.T>>1) | 0x40, UDH: toUDH(s.udh())}
	if len(t.UDH) == 0 && k>>9&1 == 0 {
		t.UDH = nil
		t.FirstOctet &^= 0x40
	}
	switch k & 3 {
	case 0:
		t.UD = []byte{0x55}
	case 1:
		t.UD = bytes.Repeat([]byte{byte(id)}, k>>2&31)
	case 2:
		t.UD = []byte{byte(id), byte(id >> 8), byte(id >> 16), 0x55}
	}
	if k>>8&1 == 0 {
		t.FirstOctet |= tpdu.FirstOctet(id*5) & 0xbc // but UDHI
		t.MR = byte(id)
		t.PID = byte(id * 7)
		t.DCS = tpdu.DCS(id * 11)
	}
	t.SCTS = tpdu.Timestamp{Time: time.Unix(idBase+int64(id), 0).UTC()}
	p := toAddr(s.peer())
	other := tpdu.Address{TOA: 0x91, Addr: fmt.Sprint(id)}
	t.OA, t.DA, t.RA = other, other, other
	switch s.T {
	case ref.Submit:
		t.DA = p
	case ref.Deliver:
		t.OA = p
	default:
		t.OA, t.DA = p, p
	}
	return t
}

const idBase = 1 << 30

func idOf(t *tpdu.TPDU) int {
	if t == nil || t.SCTS.Unix() < idBase {
		return -1
	}
	return int(t.SCTS.Unix() - idBase)
}

type setKey struct {
	T, TOA   int
	Addr     string
	Ref, Tot int
}

func (s Seg) key(c concatInfo) setKey {
	p := s.peer()
	return setKey{s.T, int(p.TOA), p.Text, c.Ref, c.Segments}
}

// collector is the model of a collector.
type collector struct {
	sets   map[setKey][]int // ids, -1 for what is missing
	closed bool
}

// outcome of a segment.
type outcome struct {
	set    []int   // returned
	errs   []error // refused with any of these
	any    bool    // may be either refused or returned alone
	opened bool    // started a set
	key    setKey
}

func (m *collector) collect(s Seg, id int) outcome {
	if m.closed {
		return outcome{errs: []error{sms.ErrClosed}}
	}
	ci := concat(s.udh())
	if !ci.OK || ci.Segments < 2 {
		// a part of none, or other than the first of one
		odd := ci.OK && (ci.Segments == 0 || ci.Seq != 1)
		return outcome{set: []int{id}, any: odd}
	}
	var errs []error
	if ci.Seq < 1 || ci.Seq > ci.Segments {
		errs = append(errs, sms.ErrReassemblyInconsistency)
	}
	if s.T != ref.Deliver && s.T != ref.Submit {
		errs = append(errs, tpdu.ErrUnsupportedSmsType(s.T))
	}
	if errs != nil {
		return outcome{errs: errs}
	}
	k := s.key(ci)
	set := m.sets[k]
	opened := set == nil
	if opened {
		set = slices.Repeat([]int{-1}, ci.Segments)
		m.sets[k] = set
	}
	if set[ci.Seq-1] >= 0 {
		return outcome{errs: []error{sms.ErrDuplicateSegment}, key: k}
	}
	set[ci.Seq-1] = id
	if !slices.Contains(set, -1) {
		delete(m.sets, k)
		return outcome{set: set, key: k, opened: opened}
	}
	return outcome{key: k, opened: opened}
}

// COp is an operation on a collector.
type COp struct {
	K     string // "" is to collect a segment
	Seg   *Seg   `json:",omitempty"`
	Sleep int    `json:",omitempty"` // ms, before
}

type collectCase struct {
	Timeout int           `json:",omitempty"` // ms, or Unit
	Unit    time.Duration `json:",omitempty"`
	Handler int           `json:",omitempty"`
	Earlier bool          `json:",omitempty"` // another timeout was set before
	Ops     []COp
}

// history runs operations on a collector and its model.
type history struct {
	c     *sms.Collector
	m     collector
	fed   map[int]tpdu.TPDU
	segs  map[int]Seg
	given []givenSet
	snaps []givenSet
}

type givenSet struct {
	got  []*tpdu.TPDU
	want []int
}

func newHistory(c *sms.Collector) *history {
	return &history{c: c, m: collector{sets: map[setKey][]int{}}, fed: map[int]tpdu.TPDU{}, segs: map[int]Seg{}}
}

// is checks that a set is made of the TPDUs with some ids.
func (h *history) is(got []*tpdu.TPDU, want []int) error {
	if len(got) != len(want) {
		return fmt.Errorf("%d TPDUs (%v), not %d (%v)", len(got), ids(got), len(want), want)
	}
	for i, id := range want {
		if id < 0 && got[i] != nil || id >= 0 && (got[i] == nil || idOf(got[i]) != id) {
			return fmt.Errorf("%v, not %v", ids(got), want)
		}
	}
	for i, id := range want {
		if id < 0 || len(want) > 40 && i > 3 && i < len(want)-3 && i%8 != id%8 {
			continue
		}
		if got[i] == nil || !sameTPDU(*got[i], h.fed[id]) {
			return fmt.Errorf("%v, not %v: or %+v, not %+v", ids(got), want, got[i], h.fed[id])
		}
	}
	return nil
}

func ids(ts []*tpdu.TPDU) []int {
	var l []int
	for _, t := range ts {
		l = append(l, idOf(t))
	}
	return l
}

// unlocked checks that the collector is not left locked.
func unlocked(c *sms.Collector) error {
	if l, ok := any(c).(interface {
		TryLock() bool
		Unlock()
	}); ok {
		if !l.TryLock() {
			return fmt.Errorf("the collector is left locked")
		}
		l.Unlock()
	}
	return nil
}

func (h *history) collect(s Seg) (outcome, error) {
	id := len(h.fed)
	if s.Same {
		for i := id - 1; i >= 0; i-- {
			x := h.segs[i]
			x.Same = s.Same
			if reflect.DeepEqual(x, s) {
				id = i
				break
			}
		}
	}
	t := s.tpdu(id)
	h.fed[id] = snapshot(t)
	h.segs[id] = s
	w := h.m.collect(s, id)
	set, err := h.c.Collect(t)
	if !sameTPDU(t, h.fed[id]) {
		return w, fmt.Errorf("Collect altered the TPDU")
	}
	if err := unlocked(h.c); err != nil {
		return w, err
	}
	if err != nil {
		if set != nil {
			return w, fmt.Errorf("error %v with a set of %d", err, len(set))
		}
		for _, e := range w.errs {
			if reflect.TypeOf(e) == reflect.TypeOf(err) && errorIs(err, e) {
				return w, nil
			}
		}
		if w.any {
			w.set = nil
			if errorIs(err, sms.ErrReassemblyInconsistency) {
				return w, nil
			}
		}
		return w, fmt.Errorf("refused with %v, not %v", err, w.errs)
	}
	if w.errs != nil {
		return w, fmt.Errorf("accepted, giving a set of %d, rather than %v", len(set), w.errs)
	}
	if (set == nil) != (w.set == nil) {
		return w, fmt.Errorf("gives %v, not %v", ids(set), w.set)
	}
	if set != nil {
		if err := h.is(set, w.set); err != nil {
			return w, fmt.Errorf("gives %v", err)
		}
		h.given = append(h.given, givenSet{set, w.set})
		if ci := concat(h.segs[w.set[0]].udh()); ci.OK && ci.Segments > 1 && !sms.IsCompleteMessage(set) {
			return w, fmt.Errorf("the set given is not reported complete")
		}
	}
	return w, nil
}

// pipes compares the snapshot with the model.
func (h *history) pipes(scribble bool) error {
	snap := h.c.Pipes()
	if err := unlocked(h.c); err != nil {
		return err
	}
	var left [][]int
	for _, s := range h.m.sets {
		left = append(left, s)
	}
	if len(snap) != len(left) {
		return fmt.Errorf("%d sets are held, not %d", len(snap), len(left))
	}
	for k, s := range snap {
		at := slices.IndexFunc(left, func(want []int) bool { return h.is(s, want) == nil })
		if at < 0 {
			return fmt.Errorf("%v are held as %q, though not accepted", ids(s), k)
		}
		if !scribble {
			h.snaps = append(h.snaps, givenSet{s, slices.Clone(left[at])})
		}
		left = slices.Delete(left, at, at+1)
		if scribble {
			for i := range s {
				s[i] = nil
			}
			delete(snap, k)
		}
	}
	return nil
}

// unaltered checks what was given earlier.
func (h *history) unaltered() error {
	for _, g := range h.given {
		if err := h.is(g.got, g.want); err != nil {
			return fmt.Errorf("a set given earlier is now %v", err)
		}
	}
	for _, g := range h.snaps {
		if err := h.is(g.got, g.want); err != nil {
			return fmt.Errorf("an earlier snapshot is now %v", err)
		}
	}
	return nil
}

func checkCollect(c collectCase, o *pbt.Obs) error {
	fired := make(chan int, 1000)
	var opts []sms.CollectorOption
	if c.Timeout > 0 {
		opts = append(opts, sms.WithReassemblyTimeout(time.Duration(c.Timeout)*time.Hour, func(s []*tpdu.TPDU) { fired <- len(s) }))
	}
	h := newHistory(sms.NewCollector(opts...))
	defer h.c.Close()
	for i, op := range c.Ops {
		what := fmt.Sprintf("operation %d (%s)", i, op.K)
		switch op.K {
		case "":
			w, err := h.collect(*op.Seg)
			if err != nil {
				return fmt.Errorf("segment %d %+v: %w", i, *op.Seg, err)
			}
			if len(w.set) > 1 {
				o.NT()
				o.Class("completed")
				o.ClassIf(len(w.set) > 100, "over 100 segments")
				o.ClassIf(len(h.m.sets) > 0, "completed with others held")
			}
			for _, e := range w.errs {
				o.NT()
				o.Class("refused: " + e.Error())
			}
		case "close":
			h.c.Close()
			h.m.closed = true
			if err := unlocked(h.c); err != nil {
				return err
			}
		}
		if i < 40 || i%8 == 0 || op.K != "" || i == len(c.Ops)-1 {
			if err := h.pipes(op.K == "scribble"); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
		}
	}
	// finish what is held
	if !h.m.closed {
		for _, set := range sortedSets(h.m.sets) {
			s := h.segs[set[slices.IndexFunc(set, func(id int) bool { return id >= 0 })]]
			for i, id := range slices.Clone(set) {
				if id >= 0 {
					continue
				}
				s.No = i + 1
				s.Pre, s.Post, s.Same = nil, nil, false
				if _, err := h.collect(s); err != nil {
					return fmt.Errorf("finishing %+v: %w", s, err)
				}
			}
		}
		if err := h.pipes(false); err != nil {
			return fmt.Errorf("at the end: %w", err)
		}
	}
	if len(fired) > 0 {
		return fmt.Errorf("expired before the timeout")
	}
	return h.unaltered()
}

func sortedSets(m map[setKey][]int) [][]int {
	var l [][]int
	for _, s := range m {
		l = append(l, s)
	}
	slices.SortFunc(l, slices.Compare)
	return l
}

// genCollect draws the arrival of messages, with what may go wrong.
func genCollect(t *rapid.T) collectCase {
	var c collectCase
	if oneIn(t, 3, "timeout") {
		c.Timeout = 1
	}
	c.Ops = genArrivals(t, false)
	return c
}

func genArrivals(t *rapid.T, timed bool) []COp {
	var msgs []Seg
	for n := intn(t, 1, 4, "msgs"); n > 0; n-- {
		s := Seg{T: pick(t, "type", ref.Deliver, ref.Deliver, ref.Submit), Peer: intn(t, 0, len(peers)-1, "peer"), Ref: intn(t, 0, len(concatRefs)-1, "ref"), Tot: intn(t, 2, 5, "tot")}
		if oneIn(t, 12, "many") {
			s.Tot = pick(t, "totBig", 12, 31, 32, 64, 127, 128, 255)
		}
		if len(msgs) > 0 && oneIn(t, 2, "similar") {
			// differs in one thing
			s = msgs[0]
			switch intn(t, 0, 5, "differs") {
			case 0:
				s.T = ref.Submit - s.T
			case 1, 2:
				s.Peer = intn(t, 0, len(peers)-1, "peer2")
			case 3:
				s.Ref = intn(t, 0, len(concatRefs)-1, "ref2")
			case 4:
				s.Tot = intn(t, 2, 5, "tot2")
			}
		}
		msgs = append(msgs, s)
	}
	var ops []COp
	for _, m := range msgs {
		order := shuffled(m.Tot, genSwaps(t))
		if oneIn(t, 3, "incomplete") {
			order = order[:intn(t, 1, m.Tot-1, "of")]
		}
		for _, i := range order {
			s := m
			s.No = i + 1
			if oneIn(t, 8, "extra") {
				s.Pre = plainUDH(t, 8)
				s.Post = plainUDH(t, 8)
			}
			ops = append(ops, COp{Seg: &s})
		}
		if oneIn(t, 4, "again") { // once more under the same key
			for _, i := range shuffled(m.Tot, genSwaps(t)) {
				s := m
				s.No = i + 1
				ops = append(ops, COp{Seg: &s})
			}
		}
	}
	// interleave
	if oneIn(t, 4, "inSequence") == false {
		if p := shuffled(len(ops), genSwaps(t)); oneIn(t, 2, "local") {
			// only nearby ones change places
			for i := 0; i+1 < len(ops); i++ {
				if p[i]&1 == 1 {
					ops[i], ops[i+1] = ops[i+1], ops[i]
				}
			}
		} else {
			x := make([]COp, len(ops))
			for i, j := range p {
				x[i] = ops[j]
			}
			ops = x
		}
	}
	// and what else may arrive
	for n := intn(t, 0, 5, "others"); n > 0; n-- {
		s := msgs[intn(t, 0, len(msgs)-1, "of")]
		s.No = intn(t, 1, s.Tot, "no")
		op := COp{Seg: &s}
		switch intn(t, 0, 9, "other") {
		case 0, 1, 2: // likely a duplicate
			s.Same = oneIn(t, 2, "same")
		case 3:
			s.No = pick(t, "outside", 0, s.Tot+1, 255)
		case 4:
			s.T = intn(t, 2, 7, "unsupported")
		case 5:
			s.Plain = true
			s.T = intn(t, 0, 5, "plainType")
		case 6:
			s.Tot, s.No = intn(t, 0, 1, "few"), pick(t, "few2", 1, 1, 0, 2)
		case 7:
			op = COp{K: pick(t, "pipes", "pipes", "scribble")}
		case 8:
			// other elements that look alike
			s.Pre = []ref.IE{{ID: pick(t, "id", byte(0), 8), Data: octets(t, 2, 5, "ied")}}
		case 9:
			if oneIn(t, 3, "close") {
				op = COp{K: "close"}
			}
		}
		at := intn(t, 0, len(ops), "at")
		ops = slices.Insert(ops, at, op)
	}
	return ops
}

// lateCase is a history with timeouts.

type expiry struct {
	got  []*tpdu.TPDU
	was  []*tpdu.TPDU
	when time.Duration
}

const grace = 400 * time.Microsecond // less than between a timeout and an operation

func checkExpiry(tt *testing.T, c collectCase, o *pbt.Obs) (err error) {
	synctest.Test(tt, func(*testing.T) {
		defer func() {
			if p := recover(); p != nil {
				err = fmt.Errorf("panic: %v", p)
			}
		}()
		err = runExpiry(c, o)
	})
	return
}

func runExpiry(c collectCase, o *pbt.Obs) error {
	start := time.Now()
	var log []expiry
	var coll *sms.Collector
	var pipesErr error
	mu := make(chan bool, 1) // handlers may run together
	var h *history
	var slow time.Duration
	again := 1 << 20
	handler := func(s []*tpdu.TPDU) {
		if slow > 0 { // others are not to wait for it
			defer time.Sleep(slow)
		}
		mu <- true
		defer func() { <-mu }()
		log = append(log, expiry{s, slices.Clone(s), time.Since(start)})
		if c.Handler == 4 && slices.ContainsFunc(s, func(x *tpdu.TPDU) bool { return x != nil }) {
			// the whole message is received again, from the handler
			x := s[slices.IndexFunc(s, func(x *tpdu.TPDU) bool { return x != nil })]
			if id := idOf(x); id >= 0 && id < len(h.segs) {
				if err := refeed(coll, h.segs[id], again); err != nil {
					pipesErr = fmt.Errorf("from the handler: %w", err)
				}
				again += 256
			}
		}
		if c.Handler == 2 {
			// the set is no longer held, and the collector can be used
			for _, held := range coll.Pipes() {
				for _, x := range held {
					for _, y := range s {
						if x != nil && y != nil && idOf(x) == idOf(y) {
							pipesErr = fmt.Errorf("%d is held while it is passed to the handler", idOf(x))
						}
					}
				}
			}
		}
	}
	if c.Handler == 0 {
		handler = nil
	}
	unit := c.Unit
	if unit == 0 {
		unit = time.Millisecond
	}
	d := time.Duration(c.Timeout)*unit + unit/2
	grace := min(grace, unit*2/5)
	if c.Timeout < 0 {
		d = 0
	}
	copts := []sms.CollectorOption{sms.WithReassemblyTimeout(d, handler)}
	if c.Earlier {
		copts = slices.Insert(copts, 0, sms.WithReassemblyTimeout(d/2+1, func([]*tpdu.TPDU) {
			mu <- true
			pipesErr = fmt.Errorf("passed to a handler since replaced")
			<-mu
		}))
	}
	coll = sms.NewCollector(copts...)
	h = newHistory(coll)
	if c.Handler == 3 {
		slow = 3*d + time.Minute
		defer func(d time.Duration) {
			coll.Close()
			time.Sleep(d)
			synctest.Wait()
		}(slow)
		o.Class("slow handler")
	}
	o.ClassIf(c.Handler == 4, "handler that collects")
	type pending struct {
		key  setKey
		due  time.Duration
		want []int
	}
	due := map[setKey]time.Duration{}
	nlog := 0
	// settle removes what has expired, and compares the expiries.
	settle := func() error {
		synctest.Wait()
		now := time.Since(start)
		if pipesErr != nil {
			return pipesErr
		}
		var exp []pending
		if !h.m.closed && d > 0 {
			for k, at := range due {
				if at <= now {
					exp = append(exp, pending{k, at, h.m.sets[k]})
					delete(h.m.sets, k)
					delete(due, k)
				}
			}
		}
		if len(exp) > 0 {
			o.NT()
			o.Class("expired")
			o.ClassIf(len(exp) > 1, "several expired together")
			o.ClassIf(len(h.m.sets) > 0, "expired with others held")
		}
		got := log[nlog:]
		if handler == nil {
			if len(got) != 0 {
				return fmt.Errorf("%w: handled without a handler", errInfra)
			}
			return nil
		}
		if len(got) != len(exp) {
			return fmt.Errorf("at %v: %d sets have expired since the last operation, not %d", now, len(got), len(exp))
		}
		for _, p := range exp {
			at := slices.IndexFunc(got, func(e expiry) bool { return h.is(e.got, p.want) == nil })
			if at < 0 {
				return fmt.Errorf("the handler is not given %v, but %v", p.want, ids(got[0].got))
			}
			if w := got[at].when; w < p.due || w > p.due+grace {
				return fmt.Errorf("%v expire at %v, not %v", p.want, w, p.due)
			}
			h.given = append(h.given, givenSet{got[at].got, p.want})
		}
		nlog = len(log)
		return nil
	}
	for i, op := range c.Ops {
		if op.Sleep > 0 {
			time.Sleep(time.Duration(op.Sleep) * unit)
		}
		if err := settle(); err != nil {
			return fmt.Errorf("before operation %d: %w", i, err)
		}
		switch op.K {
		case "":
			w, err := h.collect(*op.Seg)
			if err != nil {
				return fmt.Errorf("segment %d %+v: %w", i, *op.Seg, err)
			}
			if len(w.errs) > 0 {
				o.Class("refused: " + w.errs[0].Error())
				break
			}
			if w.key == (setKey{}) {
				break
			}
			delete(due, w.key)
			if w.set == nil {
				due[w.key] = time.Since(start) + d
			} else {
				o.Class("completed")
			}
		case "close":
			o.ClassIf(len(h.m.sets) > 0, "closed with sets held")
			h.c.Close()
			h.m.closed = true
		}
		if err := h.pipes(op.K == "scribble"); err != nil {
			return fmt.Errorf("operation %d: %w", i, err)
		}
	}
	// all that is left expires, or does not
	for i := 0; i < 3; i++ {
		time.Sleep(d + time.Hour)
		if err := settle(); err != nil {
			return fmt.Errorf("at the end: %w", err)
		}
		if err := h.pipes(false); err != nil {
			return fmt.Errorf("at the end: %w", err)
		}
	}
	if !h.m.closed && d > 0 && len(h.m.sets) != 0 {
		return fmt.Errorf("%w: %d sets left", errInfra, len(h.m.sets))
	}
	h.c.Close()
	return h.unaltered()
}

// refeed collects all segments of the message of s, last first, numbered from id.
func refeed(coll *sms.Collector, s Seg, id int) error {
	of := concat(s.udh())
	s.Pre, s.Post, s.Same = nil, nil, false
	if concat(s.udh()) != of { // it was of another message
		return nil
	}
	for no := s.Tot; no > 0; no-- {
		s.No = no
		t := s.tpdu(id + no)
		set, err := coll.Collect(t)
		if err == sms.ErrClosed {
			return nil
		}
		if err != nil {
			return fmt.Errorf("segment %d of %d: %w", no, s.Tot, err)
		}
		if (set != nil) != (no == 1) {
			return fmt.Errorf("segment %d of %d: returned %v", no, s.Tot, ids(set))
		}
		for i, x := range set {
			if idOf(x) != id+i+1 {
				return fmt.Errorf("returned %v", ids(set))
			}
		}
	}
	return nil
}

func genExpiry(t *rapid.T) collectCase {
	c := collectCase{Timeout: pick(t, "timeout", 5, 1, 10, 1000, 5, -1), Handler: pick(t, "handler", 1, 1, 2, 0, 3, 4)}
	if oneIn(t, 3, "scaled") {
		// months or nanoseconds
		c.Timeout = pick(t, "timeout2", 1, 5, 10)
		c.Unit = pick(t, "unit", 2, time.Microsecond, time.Second, time.Minute, time.Hour, 24*time.Hour, 7*24*time.Hour)
	}
	c.Earlier = oneIn(t, 8, "earlier")
	c.Ops = genArrivals(t, true)
	big := max(c.Timeout, 5)
	for i := range c.Ops {
		switch intn(t, 0, 9, "sleep") {
		case 0, 1, 2, 3, 4:
		case 5, 6:
			c.Ops[i].Sleep = intn(t, 1, 3, "short")
		case 7:
			c.Ops[i].Sleep = intn(t, 0, big, "any")
		case 8:
			c.Ops[i].Sleep = pick(t, "near", big-1, big, big+1)
		case 9:
			c.Ops[i].Sleep = pick(t, "long", 2*big, 3*big+1)
		}
	}
	return c
}

// checkTies lets segments arrive just when sets expire. Which comes first is
// not known, but where everything ends up is.
func checkTies(tt *testing.T, c collectCase, o *pbt.Obs) (err error) {
	synctest.Test(tt, func(*testing.T) {
		defer func() {
			if p := recover(); p != nil {
				err = fmt.Errorf("panic: %v", p)
			}
		}()
		err = runTies(c, o)
	})
	return
}

func runTies(c collectCase, o *pbt.Obs) error {
	start := time.Now()
	var log []expiry
	unit := c.Unit
	if unit == 0 {
		unit = time.Millisecond
	}
	d := time.Duration(c.Timeout) * unit
	mu := make(chan bool, 1) // handlers may run together
	coll := sms.NewCollector(sms.WithReassemblyTimeout(d, func(s []*tpdu.TPDU) {
		mu <- true
		log = append(log, expiry{s, slices.Clone(s), time.Since(start)})
		<-mu
	}))
	acc := newAccount()
	accepted := map[int]time.Duration{}
	closed, abrupt := false, false
	var closedAt time.Duration
	for _, op := range c.Ops {
		if op.Sleep > 0 {
			time.Sleep(time.Duration(op.Sleep) * d)
		}
		switch op.K {
		case "":
			id, set, err := acc.feed(coll, *op.Seg)
			if err == nil && set == nil {
				accepted[id] = time.Since(start)
			}
			if err == nil && set != nil && len(set) > 1 {
				accepted[id] = time.Since(start)
				o.Class("completed")
			}
			o.ClassIf(err != nil, "refused")
		case "close":
			if closed {
				break
			}
			// what expires just now may or may not
			if abrupt = acc.n%2 == 1; !abrupt {
				synctest.Wait()
			}
			o.ClassIf(abrupt, "closed as sets may expire")
			closed, closedAt = true, time.Since(start)
			coll.Close()
		}
	}
	synctest.Wait()
	n := len(log)
	for i := 0; i < 2; i++ {
		time.Sleep(d + time.Hour)
		synctest.Wait()
	}
	if closed && len(log) != n {
		return fmt.Errorf("%d sets expired after the collector was closed", len(log)-n)
	}
	for _, e := range log {
		acc.expired = append(acc.expired, e.got)
		last := time.Duration(0)
		for _, t := range e.got {
			if t != nil {
				last = max(last, accepted[idOf(t)])
			}
		}
		if closed && last+d > closedAt {
			return fmt.Errorf("%v expired at %v though the collector was closed at %v", ids(e.got), e.when, closedAt)
		}
		if e.when < last+d || e.when > last+d+grace {
			return fmt.Errorf("%v, last added to at %v, expired at %v rather than %v", ids(e.got), last, e.when, last+d)
		}
	}
	if len(log) > 0 {
		o.NT()
		o.Class("expired")
	}
	acc.held = coll.Pipes()
	if !closed && len(acc.held) > 0 {
		return fmt.Errorf("%d sets have not expired", len(acc.held))
	}
	coll.Close()
	return acc.balance()
}

func genTies(t *rapid.T) collectCase {
	c := collectCase{Timeout: 2, Unit: pick(t, "unit", 0, 0, 1, time.Microsecond, time.Second, time.Hour, 7*24*time.Hour)}
	c.Ops = genArrivals(t, true)
	for i := range c.Ops {
		c.Ops[i].Sleep = pick(t, "sleep", 0, 1, 1, 0, 2)
	}
	if oneIn(t, 4, "close") {
		at := intn(t, 1, len(c.Ops), "at")
		c.Ops = slices.Insert(c.Ops, at, COp{K: "close", Sleep: pick(t, "sleepClose", 0, 1, 1, 2)})
	}
	return c
}

// genDistinct draws two messages that differ in one thing, wherever that is.
func genDistinct(t *rapid.T) collectCase {
	a := Seg{T: pick(t, "type", ref.Deliver, ref.Submit), Tot: intn(t, 2, 4, "tot"), No: 1}
	num := func(l string) string {
		return rapid.StringOfN(rapid.SampledFrom([]rune("0123456789*#abc")), 1, 20, -1).Draw(t, l)
	}
	p := ref.Addr{TOA: byte(intn(t, 0x80, 0xff, "toa")), Text: num("addr")}
	n := pick(t, "ref", intn(t, 0, 255, "ref8"), intn(t, 256, 0xffff, "ref16"))
	a.At, a.N = &p, &n
	b := a
	q, m := p, n
	b.At, b.N = &q, &m
	switch intn(t, 0, 5, "differs") {
	case 0:
		b.T = ref.Submit - a.T
	case 1:
		if q.TOA ^= 1 << intn(t, 0, 6, "bit"); oneIn(t, 2, "other") {
			q.TOA = byte(intn(t, 0x80, 0xff, "toa2"))
		}
	case 2:
		d := []byte(q.Text)
		at := intn(t, 0, len(d)-1, "at")
		switch intn(t, 0, 4, "digit") {
		case 0:
			d[at] = pick(t, "d", []byte("0123456789*#abcABC")...)
		case 1:
			d = append(d[:at], d[at+1:]...)
		case 2:
			d = slices.Insert(d, at, pick(t, "d", []byte("0123456789*#abc")...))
		case 3:
			d = append(d, pick(t, "d", []byte("01:23456789*#abcf")...))
		case 4:
			d = append([]byte{pick(t, "d", []byte("0+123456789*#abc")...)}, d...)
		}
		q.Text = string(d)
	case 3:
		switch intn(t, 0, 2, "n") {
		case 0:
			m ^= 1 << intn(t, 0, 15, "bit")
		case 1:
			m = intn(t, 0, 0xffff, "n2")
		default:
			m = n & 0xff
		}
	case 4:
		b.Tot = pick(t, "tot2", intn(t, 2, 255, "any"), a.Tot+1, a.Tot+64, a.Tot+128)
	case 5: // nothing
	}
	var c collectCase
	add := func(s Seg, no int) {
		s.No = no
		c.Ops = append(c.Ops, COp{Seg: &s})
	}
	i := intn(t, 1, a.Tot, "i")
	add(a, i)
	add(b, i%b.Tot+1)
	add(b, pick(t, "again", i%b.Tot+1, min(i, b.Tot)))
	for k := 1; k <= a.Tot; k++ {
		add(a, k)
	}
	return c
}

func init() {
	pbt.Random("C07", "distinct", 20000, "a message of several parts is completed, or a TPDU is refused", genDistinct, checkCollect)
	pbt.Random("C07", "history", 20000, "a message of several parts is completed, or a TPDU is refused", genCollect, checkCollect)
	pbt.RandomT("C08", "expiry", 12000, "a set expires", genExpiry, checkExpiry).NoFuzz = true
	pbt.RandomT("C08", "ties", 6000, "a set expires", genTies, checkTies).NoFuzz = true
}

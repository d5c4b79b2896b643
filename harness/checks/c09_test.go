package checks

import (
	"fmt"
	"sync"
	"time"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// account keeps what is fed to a collector and what it gives.
type account struct {
	mu       sync.Mutex
	n        int
	segs     map[int]Seg
	fed      map[int]tpdu.TPDU
	refused  map[int]error
	returned [][]*tpdu.TPDU
	expired  [][]*tpdu.TPDU
	held     map[string][]*tpdu.TPDU
}

func newAccount() *account {
	return &account{segs: map[int]Seg{}, fed: map[int]tpdu.TPDU{}, refused: map[int]error{}}
}

// feed passes a segment to the collector.
func (a *account) feed(c *sms.Collector, s Seg) (int, []*tpdu.TPDU, error) {
	a.mu.Lock()
	id := a.n
	a.n++
	t := s.tpdu(id)
	a.segs[id] = s
	a.fed[id] = snapshot(t)
	a.mu.Unlock()
	set, err := c.Collect(t)
	a.mu.Lock()
	defer a.mu.Unlock()
	if err != nil {
		a.refused[id] = err
	}
	if set != nil {
		a.returned = append(a.returned, set)
	}
	return id, set, err
}

// one checks a set: all of one message, in their places.
func (a *account) one(set []*tpdu.TPDU) (complete bool, err error) {
	complete = true
	var key setKey
	first := true
	for i, t := range set {
		if t == nil {
			complete = false
			continue
		}
		id := idOf(t)
		s, ok := a.segs[id]
		if !ok || !sameTPDU(*t, a.fed[id]) {
			return false, fmt.Errorf("%+v was not collected", *t)
		}
		ci := concat(s.udh())
		if !ci.OK || ci.Segments < 2 {
			if len(set) != 1 {
				return false, fmt.Errorf("%v: %d is not a part", ids(set), id)
			}
			return true, nil
		}
		k := s.key(ci)
		if first {
			key, first = k, false
		}
		if k != key {
			return false, fmt.Errorf("%v mixes %v and %v", ids(set), key, k)
		}
		if ci.Seq != i+1 || ci.Segments != len(set) {
			return false, fmt.Errorf("%v: %d is %d of %d, not %d of %d", ids(set), id, ci.Seq, ci.Segments, i+1, len(set))
		}
	}
	if first {
		return false, fmt.Errorf("a set of %d without TPDUs", len(set))
	}
	return
}

// where counts the places each segment is in.
func (a *account) where() map[int][]string {
	places := map[int][]string{}
	add := func(set []*tpdu.TPDU, what string) {
		for _, t := range set {
			if t != nil {
				places[idOf(t)] = append(places[idOf(t)], what)
			}
		}
	}
	for _, s := range a.returned {
		add(s, "returned")
	}
	for _, s := range a.expired {
		add(s, "expired")
	}
	for _, s := range a.held {
		add(s, "held")
	}
	return places
}

func (a *account) missing() int {
	n := 0
	places := a.where()
	for id := range a.segs {
		if a.refused[id] == nil && len(places[id]) == 0 {
			n++
		}
	}
	return n
}

// balance checks that everything is in one place.
func (a *account) balance() error {
	for _, s := range a.returned {
		if ok, err := a.one(s); err != nil || !ok {
			return fmt.Errorf("returned: %v complete=%v %v", ids(s), ok, err)
		}
	}
	for _, s := range a.expired {
		if ok, err := a.one(s); err != nil || ok {
			return fmt.Errorf("expired: %v complete=%v %v", ids(s), ok, err)
		}
	}
	keys := map[setKey]bool{}
	for _, s := range a.held {
		if ok, err := a.one(s); err != nil || ok {
			return fmt.Errorf("held: %v complete=%v %v", ids(s), ok, err)
		}
		for _, t := range s {
			if t != nil {
				sg := a.segs[idOf(t)]
				k := sg.key(concat(sg.udh()))
				if keys[k] {
					return fmt.Errorf("two sets are held for %v", k)
				}
				keys[k] = true
				break
			}
		}
	}
	places := a.where()
	for id := 0; id < a.n; id++ {
		if err := a.refused[id]; err != nil {
			if len(places[id]) != 0 {
				return fmt.Errorf("%d was refused (%v) but is %v", id, err, places[id])
			}
			continue
		}
		if len(places[id]) != 1 {
			return fmt.Errorf("%d was accepted and is now %v", id, places[id])
		}
	}
	return nil
}

type stressCase struct {
	Timeout int // µs
	Plan    [][]Seg
	Pauses  []int // µs, between the segments of a goroutine
	Snaps   int   // goroutines taking snapshots
	Close   int   // close after this many segments of the last goroutine, if > 0
	Runs    int
}

// patience is how long timers may be late.
var patience = 15 * time.Second

func checkStress(c stressCase, o *pbt.Obs) error {
	for i := 0; i < max(c.Runs, 1); i++ {
		if err := runStress(c, o); err != nil {
			return err
		}
	}
	return nil
}

func runStress(c stressCase, o *pbt.Obs) error {
	acc := newAccount()
	// the TPDUs are made beforehand, so that the goroutines are not ordered by
	// the making
	type item struct {
		id int
		t  tpdu.TPDU
	}
	plan := make([][]item, len(c.Plan))
	for g, segs := range c.Plan {
		for _, s := range segs {
			t := s.tpdu(acc.n)
			acc.segs[acc.n] = s
			acc.fed[acc.n] = snapshot(t)
			plan[g] = append(plan[g], item{acc.n, t})
			acc.n++
		}
	}
	var mu sync.Mutex
	var expired [][]*tpdu.TPDU
	nilHandler := c.Timeout < 0
	handler := func(s []*tpdu.TPDU) {
		mu.Lock()
		expired = append(expired, s)
		mu.Unlock()
	}
	var opts []sms.CollectorOption
	if c.Timeout != 0 {
		d := time.Duration(c.Timeout) * time.Microsecond
		if nilHandler {
			opts = append(opts, sms.WithReassemblyTimeout(-d, nil))
		} else {
			opts = append(opts, sms.WithReassemblyTimeout(d, handler))
		}
	}
	col := sms.NewCollector(opts...)
	type result struct {
		set []*tpdu.TPDU
		err error
	}
	results := make([][]result, len(plan))
	snaps := make([][]map[string][]*tpdu.TPDU, c.Snaps)
	begin := make(chan bool)
	stop := make(chan bool)
	var feeders, others sync.WaitGroup
	for g := range plan {
		results[g] = make([]result, len(plan[g]))
		feeders.Add(1)
		go func() {
			defer feeders.Done()
			<-begin
			for i, it := range plan[g] {
				if g == len(plan)-1 && c.Close > 0 && i == c.Close {
					col.Close()
				}
				r := &results[g][i]
				r.set, r.err = col.Collect(it.t)
				if len(c.Pauses) > 0 {
					if p := c.Pauses[(g+i)%len(c.Pauses)]; p > 0 {
						time.Sleep(time.Duration(p) * time.Microsecond)
					}
				}
			}
		}()
	}
	for g := range snaps {
		others.Add(1)
		go func() {
			defer others.Done()
			<-begin
			for {
				m := col.Pipes()
				if len(snaps[g]) < 20 {
					snaps[g] = append(snaps[g], m)
				}
				select {
				case <-stop:
					return
				case <-time.After(20 * time.Microsecond):
				}
			}
		}()
	}
	close(begin)
	feeders.Wait()
	close(stop)
	others.Wait()
	completed, dups := 0, 0
	for g := range results {
		for i, r := range results[g] {
			it := plan[g][i]
			if r.err != nil {
				acc.refused[it.id] = r.err
				if r.set != nil {
					return fmt.Errorf("error %v with a set", r.err)
				}
				if errorIs(r.err, sms.ErrDuplicateSegment) {
					dups++
				} else if !errorIs(r.err, sms.ErrClosed) || c.Close == 0 {
					return fmt.Errorf("segment %d %+v: %v", it.id, acc.segs[it.id], r.err)
				}
			} else if g == len(plan)-1 && c.Close > 0 && i >= c.Close {
				return fmt.Errorf("segment %d is accepted after closing", it.id)
			}
			if r.set != nil {
				acc.returned = append(acc.returned, r.set)
				if len(r.set) > 1 {
					completed++
				}
			}
		}
	}
	// let the timeouts that are due pass
	waiting := time.Now()
	for wait := 0; ; wait++ {
		mu.Lock()
		acc.expired = append([][]*tpdu.TPDU{}, expired...)
		mu.Unlock()
		acc.held = col.Pipes()
		done := acc.missing() == 0
		if c.Timeout != 0 && c.Close == 0 {
			done = len(acc.held) == 0 && (done || nilHandler)
		} else if nilHandler {
			done = wait > 4
		}
		if done || time.Since(waiting) > patience {
			if !done {
				patience = time.Second // what fails has been seen, and is to be shrunk
			}
			break
		}
		time.Sleep(time.Millisecond)
	}
	// What expired after acc.expired was copied, which is possible if the
	// collector is closed, is in acc.held.
	if c.Timeout != 0 && c.Close == 0 && len(acc.held) > 0 {
		return fmt.Errorf("%d sets have not expired long after they are due", len(acc.held))
	}
	if completed > 0 && len(plan) > 1 {
		o.NT()
		o.Class("completed")
	}
	o.ClassIf(dups > 0, "duplicates")
	o.ClassIf(len(acc.expired) > 0, "expired")
	o.ClassIf(c.Close > 0, "closed")
	for _, l := range snaps {
		for _, m := range l {
			for _, s := range m {
				if ok, err := acc.one(s); err != nil || ok {
					return fmt.Errorf("snapshot: %v complete=%v %v", ids(s), ok, err)
				}
			}
		}
	}
	if nilHandler {
		// what has expired is not known: discount what is in no place
		places := acc.where()
		var lost []*tpdu.TPDU
		for id := range acc.segs {
			if acc.refused[id] == nil && len(places[id]) == 0 {
				x := acc.fed[id]
				lost = append(lost, &x)
			}
		}
		for _, t := range lost {
			delete(acc.segs, idOf(t))
			acc.refused[idOf(t)] = errInfra
		}
		if len(lost) > 0 {
			o.Class("discarded")
		}
		// sets are still whole
		acc.segs = map[int]Seg{}
		for _, p := range c.Plan {
			for _, s := range p {
				acc.segs[len(acc.segs)] = s
			}
		}
		return acc.balance()
	}
	return acc.balance()
}

func genStress(t *rapid.T) stressCase {
	c := stressCase{Snaps: intn(t, 0, 2, "snaps"), Runs: 2}
	c.Timeout = pick(t, "timeout", 0, 0, 100, 1000, 20, 300, 3000, -200)
	c.Plan = make([][]Seg, intn(t, 2, 8, "goroutines"))
	var all []Seg
	for n := intn(t, 1, 6, "msgs"); n > 0; n-- {
		s := Seg{T: pick(t, "type", ref.Deliver, ref.Submit), Peer: intn(t, 0, 3, "peer"), Ref: intn(t, 0, len(concatRefs)-1, "ref"), Tot: intn(t, 2, 6, "tot")}
		if oneIn(t, 10, "many") {
			s.Tot = intn(t, 20, 60, "totBig")
		}
		for r := pick(t, "rounds", 1, 1, 2, 4); r > 0; r-- {
			drop := 0
			if oneIn(t, 4, "drop") {
				drop = intn(t, 1, s.Tot, "dropNo")
			}
			for i := 1; i <= s.Tot; i++ {
				if i != drop {
					s.No = i
					all = append(all, s)
				}
			}
		}
	}
	if oneIn(t, 3, "plain") {
		all = append(all, Seg{Plain: true}, Seg{Plain: true, T: 1})
	}
	order := shuffled(len(all), genSwaps(t))
	for i, j := range order {
		g := i % len(c.Plan)
		c.Plan[g] = append(c.Plan[g], all[j])
	}
	if oneIn(t, 2, "pauses") {
		c.Pauses = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 20, 100, 300}), 1, 5).Draw(t, "pauses")
	}
	if last := len(c.Plan[len(c.Plan)-1]); oneIn(t, 4, "close") && last > 1 {
		c.Close = intn(t, 1, last-1, "closeAt")
	}
	return c
}

func init() {
	pbt.Random("C09", "stress", 3000, "messages are completed by segments from several goroutines", genStress, checkStress).NoFuzz = true
}

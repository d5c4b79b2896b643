// Package pbt runs property facets: a generator of JSON-serialisable cases, and
// a check of one case against an oracle.
//
// A facet is driven by rapid (random generation and shrinking), by a complete
// enumeration of a finite domain, by the Go fuzzer (coverage guided, over
// rapid's bitstream), or by a replay file holding one case.
package pbt

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"runtime/metrics"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Obs collects what one case exercised.
type Obs struct {
	nt      bool
	classes []string
}

// NT marks the case as non-trivial by the facet's rule.
func (o *Obs) NT() { o.nt = true }

// NTIf marks the case as non-trivial if cond is true.
func (o *Obs) NTIf(cond bool) {
	if cond {
		o.nt = true
	}
}

// Class counts the case under a label.
func (o *Obs) Class(name string) { o.classes = append(o.classes, name) }

// ClassIf counts the case under a label if cond is true.
func (o *Obs) ClassIf(cond bool, name string) {
	if cond {
		o.Class(name)
	}
}

// Facet is one executable check of a property.
type Facet struct {
	Prop  string
	Name  string
	Rule  string
	Quick int // number of generated cases in the quick tier, over all shards
	// NoFuzz excludes the facet from coverage guided fuzzing.
	NoFuzz bool
	// Single runs the facet in one shard only.
	Single bool

	gen    func(*rapid.T) any
	enum   func(yield func(any) bool)
	check  func(t *testing.T, c any, o *Obs) error
	decode func([]byte) (any, error)
}

var facets []*Facet

func add(f *Facet) *Facet {
	for _, x := range facets {
		if x.Prop == f.Prop && x.Name == f.Name {
			panic("duplicate facet " + f.Prop + " " + f.Name)
		}
	}
	facets = append(facets, f)
	return f
}

func decoder[C any]() func([]byte) (any, error) {
	return func(b []byte) (any, error) {
		var c C
		err := json.Unmarshal(b, &c)
		return c, err
	}
}

// Random registers a facet with generated cases.
func Random[C any](prop, name string, quick int, rule string, gen func(*rapid.T) C, check func(C, *Obs) error) *Facet {
	return add(&Facet{Prop: prop, Name: name, Rule: rule, Quick: quick,
		gen:    func(t *rapid.T) any { return gen(t) },
		check:  func(_ *testing.T, c any, o *Obs) error { return check(c.(C), o) },
		decode: decoder[C](),
	})
}

// RandomT registers a facet with generated cases whose check needs the testing.T.
func RandomT[C any](prop, name string, quick int, rule string, gen func(*rapid.T) C, check func(*testing.T, C, *Obs) error) *Facet {
	return add(&Facet{Prop: prop, Name: name, Rule: rule, Quick: quick,
		gen:    func(t *rapid.T) any { return gen(t) },
		check:  func(t *testing.T, c any, o *Obs) error { return check(t, c.(C), o) },
		decode: decoder[C](),
	})
}

// Enum registers a facet that enumerates a finite domain completely.
func Enum[C any](prop, name, rule string, enum func(yield func(C) bool), check func(C, *Obs) error) *Facet {
	return add(&Facet{Prop: prop, Name: name, Rule: rule,
		enum:   func(yield func(any) bool) { enum(func(c C) bool { return yield(c) }) },
		check:  func(_ *testing.T, c any, o *Obs) error { return check(c.(C), o) },
		decode: decoder[C](),
	})
}

// Known probes whether a known finding still fails. It returns what fails, or
// the empty string.
var known []struct {
	id, prop string
	probe    func() string
}

// Known registers the probe of a known finding.
func Known(id, prop string, probe func() string) {
	known = append(known, struct {
		id, prop string
		probe    func() string
	}{id, prop, probe})
}

// Failure is a failing case.
type Failure struct {
	Property string          `json:"property"`
	Facet    string          `json:"facet"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
	Kind     string          `json:"kind,omitempty"`
}

// FacetResult is what a run of a facet covered.
type FacetResult struct {
	Rule        string            `json:"rule"`
	Enum        bool              `json:"enum"`
	Evaluations int               `json:"evaluations"`
	NonTrivial  int               `json:"nontrivial"`
	Classes     map[string]int    `json:"classes,omitempty"`
	Samples     []json.RawMessage `json:"samples,omitempty"`
	Millis      int64             `json:"ms"`
}

// Result is the outcome of one process.
type Result struct {
	Facets  map[string]*FacetResult `json:"facets"`
	Failure *Failure                `json:"failure,omitempty"`
	Known   map[string]string       `json:"known,omitempty"`
	Error   string                  `json:"error,omitempty"`
}

// current case, for the watchdog
type running struct {
	f     *Facet
	c     any
	start time.Time
}

var current atomic.Pointer[running]

// CaseLimit bounds the time of one case. It is only reported as a violation
// when the case alone exceeds a longer limit in a fresh process.
var caseLimit = 60 * time.Second

const heapLimit = 3 << 29

// Allowed reports whether a known finding is listed as open, so that the
// checks are to pass over it.
func Allowed(id string) bool {
	for _, k := range strings.Split(os.Getenv("VERIF_KNOWN"), ",") {
		if k == id {
			return true
		}
	}
	return false
}

func heapInUse() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

func watchdog(out string, heap bool) {
	go func() {
		for {
			time.Sleep(250 * time.Millisecond)
			r := current.Load()
			if r == nil {
				continue
			}
			kind := ""
			if time.Since(r.start) > caseLimit {
				kind = "hang"
			} else if heap && heapInUse() > heapLimit {
				kind = "memory"
			}
			if kind == "" {
				continue
			}
			cj, _ := json.Marshal(r.c)
			b, _ := json.Marshal(Result{Failure: &Failure{r.f.Prop, r.f.Name, "the case does not finish (" + kind + ")", cj, kind}})
			os.WriteFile(out, b, 0o644)
			os.Exit(66)
		}
	}()
}

var journal *os.File

func evaluate(t *testing.T, f *Facet, c any, o *Obs) (err error) {
	if journal != nil {
		cj, _ := json.Marshal(c)
		b, _ := json.Marshal(Failure{f.Prop, f.Name, "the process was ended by this case", cj, "crash"})
		journal.Truncate(0)
		journal.WriteAt(b, 0)
	}
	current.Store(&running{f, c, time.Now()})
	defer current.Store(nil)
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v\n%s", p, trimStack(debug.Stack()))
		}
	}()
	return f.check(t, c, o)
}

var addrRe = regexp.MustCompile(`0x[0-9a-f]+`)

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return addrRe.ReplaceAllString(strings.Join(lines, "\n"), "0x")
}

func seedOf(base uint64, parts ...string) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d", base)
	for _, p := range parts {
		fmt.Fprintf(h, "|%s", p)
	}
	s := h.Sum64() >> 1 // rapid adds to the seed
	if s == 0 {
		s = 1
	}
	return s
}

func env(name, def string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return def
}

func setFlag(name, value string) {
	if err := flag.Set(name, value); err != nil {
		panic(err)
	}
}

type recorder struct {
	res    *FacetResult
	hashes map[uint64]struct{}
	fail   *Failure
	sample bool
}

const maxHashes = 400000

func (r *recorder) one(t *testing.T, f *Facet, c any) error {
	var o Obs
	err := evaluate(t, f, c, &o)
	if r.fail == nil {
		r.res.Evaluations++
		for _, cl := range o.classes {
			r.res.Classes[cl]++
		}
		if o.nt {
			r.res.NonTrivial++
			cj, e := json.Marshal(c)
			if e != nil {
				panic(e)
			}
			if len(r.hashes) < maxHashes {
				h := fnv.New64a()
				h.Write([]byte(f.Name))
				h.Write(cj)
				r.hashes[h.Sum64()] = struct{}{}
			}
			if r.sample && len(r.res.Samples) < 2 && len(cj) < 4000 && (r.res.NonTrivial == 1 || r.res.NonTrivial%7 == 0) {
				r.res.Samples = append(r.res.Samples, cj)
			}
		}
	}
	if err != nil {
		cj, e := json.Marshal(c)
		if e != nil {
			panic(e)
		}
		r.fail = &Failure{Property: f.Prop, Facet: f.Name, Error: err.Error(), Case: cj}
	}
	return err
}

func (r *recorder) prop(tt func() *testing.T, f *Facet) func(*rapid.T) {
	return func(t *rapid.T) {
		c := f.gen(t)
		if r.one(tt(), f, c) != nil {
			t.Fatalf("violation") // constant, so that shrinking accepts any failure
		}
	}
}

// Main runs what the environment asks for.
func Main(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	out := os.Getenv("VERIF_OUT")
	if prop == "" || out == "" {
		t.Skip("VERIF_PROP and VERIF_OUT are not set")
	}
	shard, _ := strconv.Atoi(env("VERIF_SHARD", "0"))
	shards, _ := strconv.Atoi(env("VERIF_SHARDS", "1"))
	seed, err := strconv.ParseUint(env("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		seed = seedOf(0, os.Getenv("VERIF_SEED"))
	}
	scale, err := strconv.ParseFloat(env("VERIF_SCALE", "1"), 64)
	if err != nil {
		t.Fatal(err)
	}
	only := os.Getenv("VERIF_FACET")
	if j := os.Getenv("VERIF_JOURNAL"); j != "" {
		journal, err = os.Create(j)
		if err != nil {
			t.Fatal(err)
		}
	}
	if l := os.Getenv("VERIF_CASE_LIMIT"); l != "" {
		d, err := time.ParseDuration(l)
		if err != nil {
			t.Fatal(err)
		}
		caseLimit = d
	}
	res := Result{Facets: map[string]*FacetResult{}, Known: map[string]string{}}
	hashes := map[uint64]struct{}{}
	defer func() {
		b, err := json.Marshal(res)
		if err != nil {
			t.Fatal(err)
		}
		if err := os.WriteFile(out, b, 0o644); err != nil {
			t.Fatal(err)
		}
		var hb strings.Builder
		for h := range hashes {
			fmt.Fprintf(&hb, "%x\n", h)
		}
		os.WriteFile(out+".hashes", []byte(hb.String()), 0o644)
	}()
	watchdog(out, os.Getenv("VERIF_NOHEAP") == "")

	if rp := os.Getenv("VERIF_REPLAY"); rp != "" {
		res.Failure, err = replay(t, rp)
		if err != nil {
			res.Error = err.Error()
		}
		return
	}
	if shard == 0 && only == "" {
		for _, k := range known {
			if k.prop == prop {
				if w := k.probe(); w != "" {
					res.Known[k.id] = w
				}
			}
		}
	}
	n := 0
	for _, f := range facets {
		if f.Prop != prop || (only != "" && f.Name != only) {
			continue
		}
		n++
		fr := &FacetResult{Rule: f.Rule, Enum: f.enum != nil, Classes: map[string]int{}}
		res.Facets[f.Name] = fr
		r := &recorder{res: fr, hashes: hashes, sample: shard == 0}
		start := time.Now()
		if f.enum != nil {
			i := 0
			f.enum(func(c any) bool {
				i++
				if (i-1)%shards != shard {
					return true
				}
				return r.one(t, f, c) == nil
			})
		} else {
			total := int(float64(f.Quick) * scale)
			my := total / shards
			if shard < total%shards {
				my++
			}
			if f.Single {
				my = total
				if shard != 0 {
					my = 0
				}
			}
			if my > 0 {
				setFlag("rapid.checks", strconv.Itoa(my))
				setFlag("rapid.seed", strconv.FormatUint(seedOf(seed, f.Prop, f.Name, strconv.Itoa(shard)), 10))
				setFlag("rapid.nofailfile", "true")
				setFlag("rapid.shrinktime", env("VERIF_SHRINK", "20s"))
				ok := t.Run(f.Name, func(t *testing.T) {
					rapid.Check(t, r.prop(func() *testing.T { return t }, f))
				})
				if !ok && r.fail == nil {
					res.Error = "facet " + f.Name + ": generation failed"
				}
			}
		}
		fr.Millis = time.Since(start).Milliseconds()
		if r.fail != nil {
			res.Failure = r.fail
			return
		}
	}
	if n == 0 {
		res.Error = "no facets"
	}
}

func replay(t *testing.T, path string) (*Failure, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var fl Failure
	if err := json.Unmarshal(b, &fl); err != nil {
		return nil, err
	}
	for _, f := range facets {
		if f.Prop != fl.Property || f.Name != fl.Facet {
			continue
		}
		c, err := f.decode(fl.Case)
		if err != nil {
			return nil, err
		}
		n, _ := strconv.Atoi(env("VERIF_REPEAT", "1"))
		for i := 0; i < n; i++ {
			if err := evaluate(t, f, c, &Obs{}); err != nil {
				fl.Error = err.Error()
				return &fl, nil
			}
		}
		return nil, nil
	}
	return nil, errors.New("unknown facet " + fl.Property + " " + fl.Facet)
}

// List returns the facets of a property, or of all.
func List(prop string) []string {
	var l []string
	for _, f := range facets {
		if prop == "" || f.Prop == prop {
			k := "random"
			if f.enum != nil {
				k = "enum"
			} else if f.NoFuzz {
				k = "random-nofuzz"
			}
			l = append(l, f.Prop+" "+f.Name+" "+k+" "+strconv.Itoa(f.Quick))
		}
	}
	return l
}

// Fuzz drives a random facet with the Go fuzzer. A failing case is written to
// VERIF_OUT (one file per worker process).
func Fuzz(f *testing.F) {
	prop, name, out := os.Getenv("VERIF_PROP"), os.Getenv("VERIF_FACET"), os.Getenv("VERIF_OUT")
	if prop == "" || name == "" || out == "" {
		f.Skip("VERIF_PROP, VERIF_FACET and VERIF_OUT are not set")
	}
	for _, fc := range facets {
		if fc.Prop == prop && fc.Name == name && fc.gen != nil {
			fc := fc
			var once sync.Once
			seed := uint64(0x9e3779b97f4a7c15)
			for i := 0; i < 24; i++ {
				b := make([]byte, 64<<(i%6))
				for j := range b {
					seed ^= seed << 13
					seed ^= seed >> 7
					seed ^= seed << 17
					b[j] = byte(seed >> 24)
					if i%3 == 1 && j%8 > 1 {
						b[j] = 0
					}
				}
				f.Add(b)
			}
			f.Fuzz(rapid.MakeFuzz(func(t *rapid.T) {
				once.Do(func() { watchdog(filepath.Join(out, fmt.Sprintf("hang-%d.json", os.Getpid())), true) })
				c := fc.gen(t)
				if err := evaluate(nil, fc, c, &Obs{}); err != nil {
					cj, _ := json.Marshal(c)
					b, _ := json.Marshal(Failure{Property: fc.Prop, Facet: fc.Name, Error: err.Error(), Case: cj})
					h := fnv.New32a()
					h.Write(cj)
					os.WriteFile(filepath.Join(out, fmt.Sprintf("%08d-%08x.json", len(cj), h.Sum32())), b, 0o644)
					t.Fatalf("violation")
				}
			}))
			return
		}
	}
	f.Fatal("no such facet")
}

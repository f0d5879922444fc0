// Package mc is the core of the bounded model checker: it enumerates a finite
// space of cases completely, executes each one against the real code, compares
// with a reference model, counts what was covered and reports violations.
package mc

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"hash/maphash"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// A Check decides one property.
type Check struct {
	ID string
	// Bounds describes the space that is enumerated, in words.
	Rule        string
	Assumptions []string
	Run         func(*Ctx)
	// Sharing is whether the property is that separate objects share nothing.
	Sharing bool
}

// Ctx is one run of one check.
type Ctx struct {
	Check    *Check
	Tier     string
	Seed     int64
	Dir      string
	Deadline time.Time
	start    time.Time

	replayPart string
	replayCase json.RawMessage

	journal string

	mu         sync.Mutex
	parts      []*partStats
	violations []Violation
	known      []Known
	knownHit   map[string]string
	capped     bool
	notes      []string
	extra      map[string]any
	set        stateSet
	seed       maphash.Seed
}

type partStats struct {
	Name      string   `json:"name"`
	Cases     int64    `json:"cases"`
	States    int64    `json:"states"`
	Trans     int64    `json:"transitions"`
	Validated int64    `json:"traces_validated"`
	Outcomes  int64    `json:"distinct_outcomes"`
	Complete  bool     `json:"complete"`
	WallS     float64  `json:"wall_s"`
	Tags      []string `json:"tags,omitempty"`
	samples   []json.RawMessage
}

// Violation is one failing case.
type Violation struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	Case     json.RawMessage `json:"case"`
	Message  string          `json:"message"`
	Key      string          `json:"key,omitempty"`
	index    int64
}

// Known is a line of known_findings.txt that lists a finding.
type Known struct{ Property, Key, What string }

// A KeyedError carries the identity used to match known findings.
type KeyedError struct {
	Key string
	Msg string
}

func (e *KeyedError) Error() string { return e.Msg }

// Keyed returns an error with a known-finding key.
func Keyed(key, format string, args ...any) error {
	return &KeyedError{key, fmt.Sprintf(format, args...)}
}

// Thorough reports whether this is the thorough tier.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N returns q in the quick tier and t in the thorough one.
func (c *Ctx) N(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

// Note adds a line to the evidence.
func (c *Ctx) Note(format string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.notes) < 40 {
		c.notes = append(c.notes, fmt.Sprintf(format, args...))
	}
}

// Extra records a measured value in the evidence.
func (c *Ctx) Extra(k string, v any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.extra[k] = v
}

// X is the per-worker execution context.
type X struct {
	C         *Ctx
	Worker    int
	Scratch   any
	trans     int64
	validated int64
	outcomes  int64
	newStates int64
	set       *stateSet
	outSet    *stateSet
	h         maphash.Hash
}

// Step counts n transitions (operations executed on the implementation).
func (x *X) Step(n int) { x.trans += int64(n) }

// Validated counts one model trace compared with the implementation.
func (x *X) Validated() { x.validated++ }

// ValidatedN counts n of them.
func (x *X) ValidatedN(n int) { x.validated += int64(n) }

// State records a model state by its canonical bytes.
func (x *X) State(b []byte) {
	x.h.SetSeed(x.C.seed)
	x.h.Write(b)
	if x.set.add(x.h.Sum64()) {
		x.newStates++
	}
}

// StateU records a model state given a 64-bit canonical hash.
func (x *X) StateU(h uint64) {
	if x.set.add(h) {
		x.newStates++
	}
}

// Outcome records an observed outcome, to show the enumeration is not vacuous.
func (x *X) Outcome(h uint64) {
	if x.outSet.add(h) {
		x.outcomes++
	}
}

type stateSet struct {
	shards [64]struct {
		sync.Mutex
		m map[uint64]struct{}
	}
}

const maxPerShard = 500000 // 32M states; beyond that new states are not counted

func (s *stateSet) add(h uint64) bool {
	if h == 0 {
		h = 1
	}
	h ^= h >> 33
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	sh := &s.shards[h&63]
	sh.Lock()
	defer sh.Unlock()
	if sh.m == nil {
		sh.m = make(map[uint64]struct{})
	}
	if _, ok := sh.m[h]; ok {
		return false
	}
	if len(sh.m) >= maxPerShard {
		return false
	}
	sh.m[h] = struct{}{}
	return true
}

// Hash mixes integers into a 64-bit hash (FNV-1a over the words).
type Hash uint64

func NewHash() Hash { return 14695981039346656037 }

func (h *Hash) Int(v int) {
	x := uint64(*h) ^ uint64(v)
	x *= 0x9E3779B97F4A7C15
	x ^= x >> 29
	*h = Hash(x)
}
func (h *Hash) Bytes(b []byte) {
	for len(b) >= 8 {
		h.Int(int(uint64(b[0]) | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24 | uint64(b[4])<<32 | uint64(b[5])<<40 | uint64(b[6])<<48 | uint64(b[7])<<56))
		b = b[8:]
	}
	for _, c := range b {
		h.Int(int(c))
	}
	h.Int(len(b) + 1000003)
}

var errStop = errors.New("stop")

const hangLimit = 100 * time.Second

// Explore enumerates every case gen yields and executes each with exec, on all
// processors. exec returns nil if the property held on the case.
func Explore[T any](c *Ctx, name string, gen func(yield func(T) bool), exec func(x *X, t T) error) {
	if c.replayPart != "" {
		if c.replayPart == name {
			replayOne(c, name, exec)
		}
		return
	}
	if only := os.Getenv("VERIF_PART"); only != "" && only != name {
		return
	}
	c.mu.Lock()
	failed := len(c.violations) > 0
	c.mu.Unlock()
	if failed {
		return // first violation is enough
	}
	st := &partStats{Name: name}
	t0 := time.Now()
	nw := runtime.GOMAXPROCS(0)
	if os.Getenv("VERIF_WORKERS") != "" {
		nw, _ = strconv.Atoi(os.Getenv("VERIF_WORKERS"))
	}
	type item struct {
		i int64
		t T
	}
	ch := make(chan []item, 4*nw)
	var stop atomic.Bool
	var wg sync.WaitGroup
	type failure struct {
		item
		err error
	}
	var fmu sync.Mutex
	var fails []failure
	xs := make([]*X, nw)
	outSet := new(stateSet)
	type slot struct {
		mu    sync.Mutex
		since time.Time
		t     T
		busy  bool
	}
	slots := make([]slot, nw)
	for w := 0; w < nw; w++ {
		x := &X{C: c, Worker: w, set: &c.set, outSet: outSet}
		xs[w] = x
		var jf *os.File
		if c.journal != "" {
			jf, _ = os.Create(filepath.Join(c.journal, fmt.Sprintf("w%d", w)))
		}
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for batch := range ch {
				if stop.Load() {
					continue
				}
				for _, it := range batch {
					if jf != nil {
						b, _ := json.Marshal(Violation{Property: c.Check.ID, Part: name, Case: mustJSON(it.t), index: it.i})
						jf.Truncate(0)
						jf.WriteAt(b, 0)
					}
					s := &slots[w]
					s.mu.Lock()
					s.since, s.t, s.busy = time.Now(), it.t, true
					s.mu.Unlock()
					err := protect(x, it.t, exec)
					s.mu.Lock()
					s.busy = false
					s.mu.Unlock()
					if err != nil {
						fmu.Lock()
						fails = append(fails, failure{it, err})
						n := len(fails)
						fmu.Unlock()
						if ke, ok := err.(*KeyedError); ok && c.isKnown(ke.Key) {
							continue
						}
						if n >= 1 {
							stop.Store(true)
							break
						}
					}
				}
			}
			if jf != nil {
				jf.Close()
				os.Remove(jf.Name())
			}
		}(w)
	}
	done := make(chan struct{})
	go func() { // hang watchdog
		for {
			select {
			case <-done:
				return
			case <-time.After(time.Second):
			}
			for w := range slots {
				s := &slots[w]
				s.mu.Lock()
				hung := s.busy && time.Since(s.since) > hangLimit
				t := s.t
				s.mu.Unlock()
				if hung {
					v := Violation{Property: c.Check.ID, Part: name, Case: mustJSON(t),
						Message: fmt.Sprintf("case did not terminate within %v", hangLimit)}
					c.addViolation(v)
					c.finish()
					os.Exit(1)
				}
			}
		}
	}()
	var idx int64
	complete := true
	var batch []item
	bsz := 1
	nextSample := int64(0)
	gen(func(t T) bool {
		if stop.Load() {
			complete = false
			return false
		}
		if idx&1023 == 0 && time.Now().After(c.Deadline) {
			complete = false
			c.capped = true
			return false
		}
		if idx == nextSample && len(st.samples) < 6 {
			if b := mustJSON(t); len(b) < 1500 {
				st.samples = append(st.samples, b)
			}
			nextSample = nextSample*7 + 3
		}
		batch = append(batch, item{idx, t})
		idx++
		if len(batch) >= bsz {
			ch <- batch
			batch = nil
			if bsz < 256 && idx > 2000 {
				bsz = 256
			} else if idx > 200 && bsz < 16 {
				bsz = 16
			}
		}
		return true
	})
	if len(batch) > 0 {
		ch <- batch
	}
	close(ch)
	wg.Wait()
	close(done)
	if stop.Load() {
		complete = false
	}
	st.Cases = idx
	st.Complete = complete
	for _, x := range xs {
		st.Trans += x.trans
		st.Validated += x.validated
		st.States += x.newStates
		st.Outcomes += x.outcomes
	}
	sort.Slice(fails, func(i, j int) bool { return fails[i].i < fails[j].i })
	x := &X{C: c, set: &c.set, outSet: outSet}
	for _, f := range fails {
		// Re-run 5 times before believing it.
		n := 0
		msg := f.err
		if c.journal != "" {
			b, _ := json.Marshal(Violation{Property: c.Check.ID, Part: name, Case: mustJSON(f.t), index: f.i})
			os.WriteFile(filepath.Join(c.journal, "w-again"), b, 0o644)
		}
		for k := 0; k < 5; k++ {
			if err := protect(x, f.t, exec); err != nil {
				n++
				msg = err
			}
		}
		v := Violation{Property: c.Check.ID, Part: name, Case: mustJSON(f.t), Message: msg.Error(), index: f.i}
		if ke, ok := msg.(*KeyedError); ok {
			v.Key = ke.Key
		}
		if n < 5 {
			c.Note("part %s case %d: failed once, then %d of 5 re-runs: not reported: %s", name, f.i, n, v.Message)
			fmt.Printf("UNSTABLE part=%s case=%s: %s\n", name, v.Case, v.Message)
			continue
		}
		if c.isKnown(v.Key) {
			c.mu.Lock()
			if _, ok := c.knownHit[v.Key]; !ok {
				c.knownHit[v.Key] = v.Message
			}
			c.mu.Unlock()
			continue
		}
		c.addViolation(v)
		break
	}
	st.WallS = time.Since(t0).Seconds()
	c.mu.Lock()
	c.parts = append(c.parts, st)
	c.mu.Unlock()
	if os.Getenv("VERIF_VERBOSE") != "" {
		fmt.Fprintf(os.Stderr, "  %-28s cases=%d states=%d trans=%d validated=%d outcomes=%d complete=%v %.2fs\n",
			name, st.Cases, st.States, st.Trans, st.Validated, st.Outcomes, st.Complete, st.WallS)
	}
}

func replayOne[T any](c *Ctx, name string, exec func(x *X, t T) error) {
	var t T
	if err := json.Unmarshal(c.replayCase, &t); err != nil {
		fmt.Fprintln(os.Stderr, "bad replay case:", err)
		os.Exit(2)
	}
	x := &X{C: c, set: &c.set, outSet: new(stateSet)}
	done := make(chan struct{})
	go func() {
		select {
		case <-done:
		case <-time.After(hangLimit):
			fmt.Println("replay: does not terminate")
			os.Exit(1)
		}
	}()
	err := protect(x, t, exec)
	close(done)
	if err != nil {
		fmt.Println("replay: still fails:", err)
		c.addViolation(Violation{Property: c.Check.ID, Part: name, Case: c.replayCase, Message: err.Error()})
	} else {
		fmt.Println("replay: holds")
	}
}

func protect[T any](x *X, t T, exec func(x *X, t T) error) (err error) {
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			// Keep the frames below the panic.
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 1200 {
				st = st[:1200]
			}
			err = fmt.Errorf("panic: %v\n%s", e, st)
		}
	}()
	return exec(x, t)
}

func mustJSON(v any) json.RawMessage {
	b, err := json.Marshal(v)
	if err != nil {
		b, _ = json.Marshal(fmt.Sprintf("%+v", v))
	}
	return b
}

func (c *Ctx) isKnown(key string) bool {
	if key == "" {
		return false
	}
	for _, k := range c.known {
		if k.Property == c.Check.ID && k.Key == key {
			return true
		}
	}
	return false
}

func (c *Ctx) addViolation(v Violation) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.violations = append(c.violations, v)
}

// Fail reports a violation found outside Explore.
func (c *Ctx) Fail(part string, cas any, format string, args ...any) {
	c.addViolation(Violation{Property: c.Check.ID, Part: part, Case: mustJSON(cas), Message: fmt.Sprintf(format, args...)})
}

// Violated reports whether a violation has been found.
func (c *Ctx) Violated() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.violations) > 0
}

// Replaying reports whether this run replays one case.
func (c *Ctx) Replaying() bool { return c.replayPart != "" }

// AddPart adds counts measured by means other than Explore.
func (c *Ctx) AddPart(name string, cases, states, trans, validated, outcomes int64, complete bool, wall float64, samples ...any) {
	st := &partStats{Name: name, Cases: cases, States: states, Trans: trans, Validated: validated, Outcomes: outcomes, Complete: complete, WallS: wall}
	for _, s := range samples {
		st.samples = append(st.samples, mustJSON(s))
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.parts = append(c.parts, st)
}

// finish writes the evidence and prints the verdict; it returns the exit code.
func (c *Ctx) finish() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	var states, trans, validated int64
	exhaustive := !c.capped
	var samples []map[string]any
	parts := make([]map[string]any, 0)
	total := 0
	for _, p := range c.parts {
		// Where no states are hashed, the states are the enumerated cases, which are distinct.
		if p.States == 0 {
			p.States = p.Cases
		}
		states += p.States
		trans += p.Trans
		validated += p.Validated
		if !p.Complete {
			exhaustive = false
		}
		for _, s := range p.samples {
			if total+len(s) > 18000 {
				break
			}
			total += len(s)
			samples = append(samples, map[string]any{"part": p.Name, "case": s})
		}
		parts = append(parts, map[string]any{"name": p.Name, "cases": p.Cases, "states": p.States, "transitions": p.Trans,
			"traces_validated": p.Validated, "distinct_outcomes": p.Outcomes, "complete": p.Complete, "wall_s": round3(p.WallS)})
	}
	if len(c.parts) == 0 {
		exhaustive = false
	}
	ev := map[string]any{
		"property": c.Check.ID,
		"tier":     c.Tier,
		"seed":     c.Seed,
		"level":    "model_checking",
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": validated,
			"samples": samples, "exhaustive": exhaustive, "rule": c.Check.Rule, "parts": parts,
			"notes": c.notes, "measured": c.extra,
		},
		"assumptions": c.Check.Assumptions,
		"wall_s":      round3(time.Since(c.start).Seconds()),
		"violations":  len(c.violations),
	}
	if c.Check.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	if c.notes == nil {
		delete(ev["coverage"].(map[string]any), "notes")
	}
	if c.replayPart == "" {
		os.MkdirAll(filepath.Join(c.Dir, "evidence"), 0o755)
		var buf bytes.Buffer
		enc := json.NewEncoder(&buf)
		enc.SetEscapeHTML(false)
		enc.SetIndent("", " ")
		enc.Encode(ev)
		os.WriteFile(filepath.Join(c.Dir, "evidence", c.Check.ID+".json"), buf.Bytes(), 0o644)
	}
	keys := make([]string, 0)
	for k := range c.knownHit {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", c.Check.ID, k, oneLine(c.knownHit[k]))
	}
	if len(c.violations) == 0 {
		fmt.Printf("OK property=%s tier=%s states=%d transitions=%d validated=%d exhaustive=%v wall=%.1fs\n",
			c.Check.ID, c.Tier, states, trans, validated, exhaustive, time.Since(c.start).Seconds())
		return 0
	}
	for i, v := range c.violations {
		path := writeReplay(c.Dir, v, i)
		fmt.Printf("%s\n", indent(v.Message))
		cs := string(v.Case)
		if len(cs) > 2000 {
			cs = cs[:2000] + "..."
		}
		fmt.Printf("  part=%s case=%s\n", v.Part, cs)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Check.ID, path)
	}
	return 1
}

func writeReplay(dir string, v Violation, i int) string {
	d := filepath.Join(dir, "out", "replay")
	os.MkdirAll(d, 0o755)
	path := filepath.Join(d, fmt.Sprintf("%s-%d.json", v.Property, i))
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(path, b, 0o644)
	return path
}

func indent(s string) string { return "  " + strings.ReplaceAll(s, "\n", "\n  ") }
func oneLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}
func round3(f float64) float64 { return float64(int64(f*1000)) / 1000 }

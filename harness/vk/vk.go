// Package vk is the kit every check is written with.
//
// A property is a list of parts. A part draws a Case (a plain JSON value) with
// rapid, and decides it with Check, which runs the real code and the oracle.
// The parent process splits the cases over worker processes ("shards"), merges
// what they counted, writes the evidence file and reports the outcome.
package vk

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"
)

// Env is what a part may know about the run.
type Env struct {
	Tier  string
	Seed  int64
	Shard int
	Tmp   string // a scratch directory of this worker, removed afterwards
}

// Part is one generated-input search.
type Part struct {
	Name string
	Rule string // how cases are made, and what makes one non-trivial
	// number of cases over all shards
	Quick, Thorough int
	// CaseTimeout bounds one case: exceeding it twice is reported as a hang.
	CaseTimeout time.Duration
	// MaxShards limits the number of worker processes (0: no limit).
	MaxShards int
	// ReplayRuns is how often a replay re-runs a case (schedules are not in the case).
	ReplayRuns int

	draw     func(*rapid.T) any
	check    func(*Env, any) error
	classify func(any) (bool, []string)
	decode   func([]byte) (any, error)
	fixed    []any
	batch    *batch
}

// Def is the typed description of a part.
type Def[C any] struct {
	Gen      func(*rapid.T) C
	Check    func(*Env, C) error
	Classify func(C) (bool, []string)
	Fixed    []C // cases that are always run (regressions), before the generated ones
}

// New makes a part from its typed description.
func New[C any](p Part, d Def[C]) *Part {
	p.draw = func(t *rapid.T) any { return d.Gen(t) }
	p.check = func(e *Env, c any) error { return d.Check(e, c.(C)) }
	p.classify = func(c any) (bool, []string) { return d.Classify(c.(C)) }
	p.decode = func(b []byte) (any, error) {
		var c C
		dec := json.NewDecoder(strings.NewReader(string(b)))
		dec.UseNumber()
		if err := dec.Decode(&c); err != nil {
			return nil, err
		}
		return c, nil
	}
	for _, c := range d.Fixed {
		p.fixed = append(p.fixed, c)
	}
	if p.CaseTimeout == 0 {
		p.CaseTimeout = 60 * time.Second
	}
	if p.ReplayRuns == 0 {
		p.ReplayRuns = 5
	}
	return &p
}

// Finding is a genuine defect that is recorded rather than repaired.
type Finding struct {
	Key  string // as in known_findings.txt: key=<Key>
	What string
	// Probe returns an error when the defect is still there, nil when it is gone.
	Probe func(*Env) error
}

// Property groups the parts of one property.
type Property struct {
	ID          string
	Parts       []*Part
	Setup       func(*Env) error
	Teardown    func(*Env)
	Assumptions []string
	Findings    []Finding
}

var registry = map[string]*Property{}

// Register adds a property.
func Register(p *Property) { registry[p.ID] = p }

// ---- worker side -----------------------------------------------------------

type partStats struct {
	Name        string            `json:"name"`
	Rule        string            `json:"rule"`
	Evaluations int               `json:"evaluations"`
	NonTrivial  []uint64          `json:"nontrivial"`
	Classes     map[string]int    `json:"classes"`
	Samples     []json.RawMessage `json:"samples"`
	Regressions int               `json:"regressions"`
}

type failure struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
	Crash    string          `json:"crash,omitempty"`
}

type workerResult struct {
	Parts   []*partStats `json:"parts"`
	Failure *failure     `json:"failure,omitempty"`
}

type quietTB struct {
	mu     sync.Mutex
	failed bool
	msgs   []string
}

func (q *quietTB) Helper()                   {}
func (q *quietTB) Name() string              { return "ckv" }
func (q *quietTB) Logf(f string, a ...any)   { q.add(fmt.Sprintf(f, a...)) }
func (q *quietTB) Log(a ...any)              { q.add(fmt.Sprint(a...)) }
func (q *quietTB) Skipf(f string, a ...any)  {}
func (q *quietTB) Skip(a ...any)             {}
func (q *quietTB) SkipNow()                  {}
func (q *quietTB) Errorf(f string, a ...any) { q.add(fmt.Sprintf(f, a...)); q.Fail() }
func (q *quietTB) Error(a ...any)            { q.add(fmt.Sprint(a...)); q.Fail() }
func (q *quietTB) Fatalf(f string, a ...any) { q.Errorf(f, a...) }
func (q *quietTB) Fatal(a ...any)            { q.Error(a...) }
func (q *quietTB) FailNow()                  { q.Fail() }
func (q *quietTB) Fail()                     { q.mu.Lock(); q.failed = true; q.mu.Unlock() }
func (q *quietTB) Failed() bool              { q.mu.Lock(); defer q.mu.Unlock(); return q.failed }
func (q *quietTB) add(s string) {
	q.mu.Lock()
	defer q.mu.Unlock()
	if len(q.msgs) < 50 {
		q.msgs = append(q.msgs, s)
	}
}

type worker struct {
	env      *Env
	prop     *Property
	inflight *os.File
	hangFile string
	mu       sync.Mutex
	started  time.Time
	limit    time.Duration
	busy     bool
}

// Guard runs f and turns a panic into an error.
func Guard(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return f()
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 60 {
		lines = lines[:60]
	}
	return strings.Join(lines, "\n")
}

func (w *worker) runCase(p *Part, c any) error {
	b, err := json.Marshal(c)
	if err != nil {
		panic(fmt.Sprintf("case of %s is not serialisable: %v", p.Name, err))
	}
	w.note(p, b)
	w.mu.Lock()
	w.started, w.limit, w.busy = time.Now(), p.CaseTimeout, true
	w.mu.Unlock()
	err = Guard(func() error { return p.check(w.env, c) })
	w.mu.Lock()
	w.busy = false
	w.mu.Unlock()
	return err
}

// note leaves the case in a file, for when the process dies of it.
func (w *worker) note(p *Part, b []byte) {
	if w.inflight == nil {
		return
	}
	hdr := fmt.Sprintf("%s\n%d\n", p.Name, len(b))
	_, _ = w.inflight.WriteAt(append([]byte(hdr), b...), 0)
}

func (w *worker) watchdog() {
	for {
		time.Sleep(time.Second)
		w.mu.Lock()
		hung := w.busy && time.Since(w.started) > w.limit
		w.mu.Unlock()
		if hung {
			buf := make([]byte, 4<<20)
			n := runtime.Stack(buf, true)
			_ = os.WriteFile(w.hangFile, buf[:n], 0o644)
			os.Exit(97)
		}
	}
}

func hash(b []byte) uint64 {
	h := fnv.New64a()
	_, _ = h.Write(b)
	return h.Sum64()
}

func (w *worker) runPart(p *Part, n int, seed uint64, deadline time.Time, first bool) (*partStats, *failure) {
	st := &partStats{Name: p.Name, Rule: p.Rule, Classes: map[string]int{}}
	seen := map[uint64]bool{}
	record := func(c any) {
		st.Evaluations++
		classify := p.classify
		if p.batch != nil {
			classify = p.batch.classify
		}
		nt, labels := classify(c)
		for _, l := range labels {
			st.Classes[l]++
		}
		if nt {
			b, _ := json.Marshal(c)
			h := hash(b)
			if !seen[h] {
				seen[h] = true
				k := len(seen)
				if (k == 5 || k == 40) && len(b) < 6000 {
					st.Samples = append(st.Samples, b)
				}
			}
		}
	}
	fail := func(c any, err error) *failure {
		b, _ := json.Marshal(c)
		return &failure{Property: w.prop.ID, Part: p.Name, Error: err.Error(), Case: b}
	}
	var fl *failure
	if p.batch != nil {
		fl = w.runBatches(p, n, seed, deadline, first, st, record)
	} else if first {
		for _, c := range p.fixed {
			st.Regressions++
			record(c)
			if err := w.runCase(p, c); err != nil {
				fl = fail(c, err)
				break
			}
		}
	}
	if p.batch == nil && fl == nil && n > 0 {
		setRapid(n, seed)
		tb := &quietTB{}
		failed := false
		rapid.Check(tb, func(t *rapid.T) {
			if !failed && time.Now().After(deadline) {
				return
			}
			c := p.draw(t)
			if !failed {
				record(c)
			}
			if err := w.runCase(p, c); err != nil {
				failed = true
				fl = fail(c, err)
				t.Fatalf("violation")
			}
		})
		if tb.Failed() && fl == nil {
			panic("generator of " + p.Name + " failed: " + strings.Join(tb.msgs, "\n"))
		}
	}
	for h := range seen {
		st.NonTrivial = append(st.NonTrivial, h)
	}
	sort.Slice(st.NonTrivial, func(i, j int) bool { return st.NonTrivial[i] < st.NonTrivial[j] })
	return st, fl
}

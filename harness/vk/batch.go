package vk

import (
	"encoding/json"
	"fmt"
	"time"

	"pgregory.net/rapid"
)

// Cases that mostly wait (for a program, for a timer) are run many at a time. Such a part draws
// single scenarios and decides a batch of them together. A scenario that fails is run again, several
// copies side by side: it is a violation only if one of these fails too, because a verdict that
// hangs on time must not depend on one stall of the machine. It is then made smaller step by step,
// all candidates of a step at once.

// BatchDef is the typed description of such a part.
type BatchDef[S any] struct {
	Gen      func(*rapid.T) S
	CheckAll func(*Env, []S) []error // one verdict per scenario
	Classify func(S) (bool, []string)
	Shrink   func(S) []S // smaller variants, most promising first
	Fixed    []S
	Size     int // scenarios per batch
}

type batch struct {
	size     int
	drawOne  func(*rapid.T) any
	checkAll func(*Env, []any) []error
	classify func(any) (bool, []string)
	shrink   func(any) []any
	fixed    []any
}

// NewBatch makes a part of scenarios that are run together. Its case is a list of scenarios.
func NewBatch[S any](p Part, d BatchDef[S]) *Part {
	b := &batch{size: d.Size}
	b.drawOne = func(t *rapid.T) any { return d.Gen(t) }
	b.checkAll = func(e *Env, l []any) []error {
		s := make([]S, len(l))
		for i := range l {
			s[i] = l[i].(S)
		}
		return d.CheckAll(e, s)
	}
	b.classify = func(s any) (bool, []string) { return d.Classify(s.(S)) }
	b.shrink = func(s any) []any {
		if d.Shrink == nil {
			return nil
		}
		var out []any
		for _, c := range d.Shrink(s.(S)) {
			out = append(out, c)
		}
		return out
	}
	for _, f := range d.Fixed {
		b.fixed = append(b.fixed, f)
	}
	p.batch = b
	p.check = func(e *Env, c any) error {
		for i, err := range b.checkAll(e, c.([]any)) {
			if err != nil {
				return fmt.Errorf("scenario %d: %w", i+1, err)
			}
		}
		return nil
	}
	p.decode = func(bs []byte) (any, error) {
		var l []S
		if err := json.Unmarshal(bs, &l); err != nil {
			return nil, err
		}
		out := make([]any, len(l))
		for i := range l {
			out[i] = l[i]
		}
		return out, nil
	}
	if p.CaseTimeout == 0 {
		p.CaseTimeout = 3 * time.Minute
	}
	if p.ReplayRuns == 0 {
		p.ReplayRuns = 3
	}
	return &p
}

const confirmCopies = 6

// confirm runs a failed scenario again; it returns what went wrong this time.
func (w *worker) confirm(p *Part, s any) error {
	for try := 0; try < 2; try++ {
		copies := make([]any, confirmCopies)
		for i := range copies {
			copies[i] = s
		}
		for _, err := range w.runBatch(p, copies) {
			if err != nil {
				return err
			}
		}
	}
	return nil
}

func (w *worker) runBatch(p *Part, l []any) []error {
	b, err := json.Marshal(l)
	if err != nil {
		panic(fmt.Sprintf("case of %s is not serialisable: %v", p.Name, err))
	}
	w.note(p, b)
	w.mu.Lock()
	w.started, w.limit, w.busy = time.Now(), p.CaseTimeout, true
	w.mu.Unlock()
	defer func() {
		w.mu.Lock()
		w.busy = false
		w.mu.Unlock()
	}()
	var errs []error
	if perr := Guard(func() error { errs = p.batch.checkAll(w.env, l); return nil }); perr != nil {
		errs = make([]error, len(l))
		errs[0] = perr
	}
	return errs
}

// decideBatch runs scenarios and reports the first confirmed failure, made small.
func (w *worker) decideBatch(p *Part, l []any) *failure {
	if len(l) == 0 {
		return nil
	}
	for i, err := range w.runBatch(p, l) {
		if err == nil {
			continue
		}
		again := w.confirm(p, l[i])
		if again == nil {
			continue
		}
		cur, curErr := l[i], again
		end := time.Now().Add(100 * time.Second)
		for round := 0; round < 12 && time.Now().Before(end); round++ {
			cands := p.batch.shrink(cur)
			if len(cands) == 0 {
				break
			}
			if len(cands) > 24 {
				cands = cands[:24]
			}
			found := false
			for j, e := range w.runBatch(p, cands) {
				if e != nil {
					if e2 := w.confirm(p, cands[j]); e2 != nil {
						cur, curErr, found = cands[j], e2, true
						break
					}
				}
			}
			if !found {
				break
			}
		}
		b, _ := json.Marshal([]any{cur})
		return &failure{Property: w.prop.ID, Part: p.Name, Error: curErr.Error(), Case: b}
	}
	return nil
}

func (w *worker) runBatches(p *Part, n int, seed uint64, deadline time.Time, first bool, st *partStats, record func(any)) *failure {
	if first && len(p.batch.fixed) > 0 {
		for _, f := range p.batch.fixed {
			st.Regressions++
			record(f)
		}
		if fl := w.decideBatch(p, p.batch.fixed); fl != nil {
			return fl
		}
	}
	if n <= 0 {
		return nil
	}
	size := p.batch.size
	rounds := (n + size - 1) / size
	setRapid(rounds, seed)
	tb := &quietTB{}
	left := n
	var fl *failure
	rapid.Check(tb, func(t *rapid.T) {
		if fl != nil || left <= 0 || time.Now().After(deadline) {
			return
		}
		k := size
		if k > left {
			k = left
		}
		left -= k
		l := make([]any, k)
		for i := range l {
			l[i] = p.batch.drawOne(t)
		}
		for _, s := range l {
			record(s)
		}
		fl = w.decideBatch(p, l)
	})
	if tb.Failed() && fl == nil {
		panic(fmt.Sprint("generator of ", p.Name, " failed: ", tb.msgs))
	}
	return fl
}

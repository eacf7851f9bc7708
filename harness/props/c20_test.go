//go:build go1.25

package props

import (
	"errors"
	"fmt"
	"io"
	"sync"
	"testing/synctest"
	"time"

	"ckverif/vk"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/watcher"
	"pgregory.net/rapid"
)

// stopStore notes every change a watcher makes, and can hold one of them.
type stopStore struct {
	store.Store
	mu    sync.Mutex
	calls map[string][]string // by resource and cluster
	hold  map[string]string   // which call to hold: "Clean" or "event"
	held  map[string]bool
	gate  chan struct{}
}

func (s *stopStore) note(g GVR, cluster, call string) {
	k := cluster + " " + watchPath(g)
	s.mu.Lock()
	s.calls[k] = append(s.calls[k], call)
	kind := call
	if kind != "Clean" {
		kind = "event"
	}
	wait := s.hold[k] == kind
	if wait {
		delete(s.hold, k)
		s.held[k] = true
	}
	s.mu.Unlock()
	if wait {
		<-s.gate
	}
}

func (s *stopStore) OnResourceAdded(g GVR, cluster string, o interface{}) error {
	s.note(g, cluster, "add "+ident(o))
	return s.Store.OnResourceAdded(g, cluster, o)
}

func (s *stopStore) OnResourceModified(g GVR, cluster string, o interface{}) error {
	s.note(g, cluster, "modify "+ident(o))
	return s.Store.OnResourceModified(g, cluster, o)
}

func (s *stopStore) OnResourceDeleted(g GVR, cluster string, o interface{}) error {
	s.note(g, cluster, "delete "+ident(o))
	return s.Store.OnResourceDeleted(g, cluster, o)
}

func (s *stopStore) Clean(g GVR, cluster string) error {
	s.note(g, cluster, "Clean")
	return s.Store.Clean(g, cluster)
}

func (s *stopStore) count(k string) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.calls[k])
}

// c20Chan is what happens to one resource and cluster.
type c20Chan struct {
	// before the stop
	Past []simStep `json:"past,omitempty"`
	// state to be in: idle (connected), held (a change is being made), busy (events arrive), none (as the past left it),
	// asking (an attempt is unanswered), lost (the stream has just ended), refused (an attempt has just failed)
	State string `json:"state"`
	Hold  string `json:"hold,omitempty"` // Clean or event
	Queue int    `json:"queue"`          // events sent before the stop
	After string `json:"after"`          // how an unanswered attempt is answered after the stop: open, fail, never
	More  int    `json:"more"`           // events sent after the stop
}

type c20Case struct {
	Resources []GVR     `json:"resources"`
	Clusters  []string  `json:"clusters"`
	Chans     []c20Chan `json:"chans"` // resource by resource
	Early     bool      `json:"early"` // stopped right after it was started
	WaitMS    int       `json:"wait_ms"`
}

func genC20(t *rapid.T) c20Case {
	c := c20Case{Clusters: subset(t, "clusters", []string{"c1", "c2", "default"}, 2), Early: chance(t, "early", 5), WaitMS: pick(t, "wait", 0, 0, 1, 1000, 2999, 3000, 14000)}
	c.Resources = rapid.Permutation(c18Resources).Draw(t, "which")[:intIn(t, "resources", 1, 2)]
	for i := 0; i < len(c.Resources)*len(c.Clusters); i++ {
		ch := c20Chan{State: pick(t, "state", "held", "held", "held", "busy", "busy", "idle", "none", "asking", "lost", "refused"), More: intIn(t, "more", 0, 3), After: pick(t, "after", "open", "fail", "never")}
		for j := intIn(t, "past", 0, 4); j > 0; j-- {
			st := simStep{Op: pick(t, "op", "event", "event", "end", "fail", "sleep")}
			switch st.Op {
			case "end":
				st.Kind = pickFrom(t, "end", simEnds)
			case "fail":
				st.Kind, st.Times = pickFrom(t, "fail", simFailures), intIn(t, "times", 1, 2)
			case "sleep":
				st.Seconds = pick(t, "seconds", 1, 10, 4000)
			}
			ch.Past = append(ch.Past, st)
		}
		switch ch.State {
		case "held":
			ch.Hold = pick(t, "hold", "Clean", "event", "event")
			ch.Queue = intIn(t, "queue", 1, 6)
		case "busy":
			ch.Queue = intIn(t, "queue", 1, 6)
		}
		c.Chans = append(c.Chans, ch)
	}
	return c
}

func checkC20(_ *vk.Env, c c20Case) error {
	return bubble(func() error { return runC20(c) })
}

func runC20(c c20Case) error {
	conf := map[GVR]map[string]string{}
	cfg := common.Config{}
	for _, g := range c.Resources {
		conf[g] = baseIndex()
		cfg.Proxies = append(cfg.Proxies, proxyConf(g, simKinds[g]+"List", baseIndex()))
	}
	common.InitConfig(&cfg)
	s := &stopStore{Store: newStore(conf), calls: map[string][]string{}, hold: map[string]string{}, held: map[string]bool{}, gate: make(chan struct{})}
	sim := newSim(c.Resources, c.Clusters)
	w := watcher.NewWatcher(sim.configs(c.Clusters), c.Resources, s)
	if err := w.Start(); err != nil {
		return fmt.Errorf("Start: %v", err)
	}
	stopped, opened := false, false
	release := func() {
		if !opened {
			opened = true
			close(s.gate)
		}
	}
	defer func() {
		release()
		stop := w.Stop
		if stopped {
			stop = nil
		}
		sim.teardown(stop)
	}()
	if c.Early {
		if err := w.Stop(); err != nil {
			return fmt.Errorf("Stop: %v", err)
		}
		stopped = true
	}
	n := 0
	event := func(ch *simChan) []byte {
		n++
		return simLine([]string{"ADDED", "DELETED", "MODIFIED"}[n%3], simDoc(ch.gvr, Obj{NS: "default", Name: fmt.Sprintf("o%d", n), V: n, RV: fmt.Sprint(n)}))
	}
	r := &simRun{sim: sim, known: map[*simBody]bool{}}
	chans := []*simChan{}
	for _, g := range c.Resources {
		for _, cl := range c.Clusters {
			chans = append(chans, sim.at(g, cl))
		}
	}
	if !stopped {
		for i, ch := range chans {
			for _, st := range c.Chans[i].Past {
				if st.Op == "event" {
					b, err := sim.connect(ch)
					if err != nil {
						return err
					}
					b.send(event(ch))
					synctest.Wait()
					continue
				}
				if st.Op == "fail" {
					if b := sim.open(ch); b != nil {
						b.finish(io.EOF)
					}
					for j := 0; j < st.Times; j++ {
						a, err := sim.next(ch, reconnectLimit)
						if err != nil {
							return err
						}
						sim.answer(ch, a, failureOutcome(st.Kind))
					}
					continue
				}
				if st.Op == "end" {
					r.m, r.s = model{}, s
				}
				if err := r.step(ch, st); err != nil {
					return err
				}
			}
		}
		if err := c20States(c, sim, s, chans, event); err != nil {
			return err
		}
		if c.WaitMS > 0 {
			time.Sleep(time.Duration(c.WaitMS) * time.Millisecond)
		}
		// events that arrive while it is being stopped
		for i, ch := range chans {
			if c.Chans[i].State == "busy" {
				if b := sim.open(ch); b != nil {
					for j := 0; j < c.Chans[i].Queue; j++ {
						b.send(event(ch))
					}
				}
			}
		}
		if err := w.Stop(); err != nil {
			return fmt.Errorf("Stop: %v", err)
		}
		stopped = true
	}
	key := func(ch *simChan) string { return ch.cluster + " " + watchPath(ch.gvr) }
	before := map[*simChan]int{}
	for _, ch := range chans {
		before[ch] = s.count(key(ch))
	}
	synctest.Wait()
	// an attempt made from here on is one too many
	sim.mu.Lock()
	sim.down = true
	sim.mu.Unlock()
	for i, ch := range chans {
		if b := sim.open(ch); b != nil && c.Chans[i].More > 0 {
			for j := 0; j < c.Chans[i].More; j++ {
				b.send(event(ch))
			}
		}
	}
	synctest.Wait()
	release()
	synctest.Wait()
	asked := map[*simChan]bool{}
	for i, ch := range chans {
		sim.mu.Lock()
		pend := append([]*simAttempt{}, ch.pending...)
		sim.mu.Unlock()
		for _, a := range pend {
			asked[ch] = true
			switch c.Chans[i].After {
			case "open":
				b := &simBody{ctx: a.ctx, wake: make(chan struct{}, 1)}
				for j := 0; j < c.Chans[i].More; j++ {
					b.send(event(ch))
				}
				sim.answer(ch, a, simOutcome{code: 200, body: b})
			case "fail":
				sim.answer(ch, a, simOutcome{err: errors.New("dial tcp: connection refused")})
			}
		}
	}
	for i := 0; i < 10; i++ {
		synctest.Wait()
		time.Sleep(time.Minute)
	}
	synctest.Wait()
	if err := sim.faultErr(); err != nil {
		return err
	}
	for _, ch := range chans {
		k := key(ch)
		late := s.calls[k][before[ch]:]
		held := s.held[k]
		events, cleans := 0, 0
		for _, l := range late {
			if l == "Clean" {
				cleans++
			} else {
				events++
			}
		}
		allowed := 1 // the event that was in flight
		if held && before[ch] > 0 && s.calls[k][before[ch]-1] != "Clean" {
			allowed = 0 // it was already being applied
		}
		if asked[ch] {
			allowed = 0 // there was none
		}
		if events > allowed || cleans > allowed {
			return fmt.Errorf("%v: %d changes were made to the cache after the watcher was stopped (%v), at most %d event was in flight", ch, len(late), late, allowed)
		}
		sim.mu.Lock()
		bodies := append([]*simBody{}, ch.bodies...)
		sim.mu.Unlock()
		for _, b := range bodies {
			if !b.released() {
				return fmt.Errorf("%v: a stream is still open ten minutes after the watcher was stopped", ch)
			}
		}
	}
	return nil
}

// c20States brings every resource and cluster into the state it is to be stopped in.
func c20States(c c20Case, sim *simServer, s *stopStore, chans []*simChan, event func(*simChan) []byte) error {
	for i, ch := range chans {
		cc := c.Chans[i]
		switch cc.State {
		case "idle", "busy", "held":
			b, err := sim.connect(ch)
			if err != nil {
				return err
			}
			if cc.Hold == "Clean" { // done when a stream is opened, or at its first event
				b.finish(io.EOF)
				s.mu.Lock()
				s.hold[ch.cluster+" "+watchPath(ch.gvr)] = cc.Hold
				s.mu.Unlock()
				if _, err := sim.connect(ch); err != nil {
					return err
				}
			}
		case "asking":
			if b := sim.open(ch); b != nil {
				b.finish(io.EOF)
			}
			if _, err := sim.next(ch, reconnectLimit); err != nil {
				return err
			}
		}
	}
	// the states that do not last come last
	for i, ch := range chans {
		cc := c.Chans[i]
		switch cc.State {
		case "held":
			b := sim.open(ch)
			if b == nil {
				continue
			}
			if cc.Hold == "event" {
				s.mu.Lock()
				s.hold[ch.cluster+" "+watchPath(ch.gvr)] = cc.Hold
				s.mu.Unlock()
			}
			for j := 0; j < cc.Queue; j++ {
				b.send(event(ch))
			}
			synctest.Wait()
		case "lost":
			if b := sim.open(ch); b != nil {
				b.finish(io.EOF)
				synctest.Wait()
			}
		case "refused":
			if b := sim.open(ch); b != nil {
				b.finish(io.EOF)
			}
			a, err := sim.next(ch, reconnectLimit)
			if err != nil {
				return err
			}
			sim.answer(ch, a, simOutcome{code: 500, text: statusText(500)})
		}
	}
	return nil
}

func classifyC20(c c20Case) (bool, []string) {
	labels := []string{fmt.Sprintf("channels=%d", len(c.Chans))}
	nt := false
	for _, ch := range c.Chans {
		labels = append(labels, ch.State)
		if ch.State == "held" && ch.Queue > 1 || ch.State == "busy" || ch.State == "lost" || ch.State == "refused" || ch.State == "asking" {
			nt = true
		}
	}
	if c.Early {
		labels = append(labels, "stopped at once")
		nt = false
	}
	return nt, labels
}

func init() {
	vk.Register(&vk.Property{
		ID: "C20",
		Parts: []*vk.Part{vk.New(vk.Part{
			Name:  "stop",
			Rule:  "1-2 resources in 1-2 clusters, each with a past of 0-4 events, ends, failures and waits, are brought into a state (connected and idle, a change being made with more events queued, events arriving, an unanswered attempt, stream just lost, attempt just refused) and the watcher is stopped, or it is stopped right after its start; changes to the cache, requests and open streams are watched for ten minutes of virtual time; non-trivial when at least one resource is not simply idle",
			Quick: 4000, Thorough: 150000, ReplayRuns: 30,
		}, vk.Def[c20Case]{Gen: genC20, Check: checkC20, Classify: classifyC20})},
		Assumptions: []string{"a watcher is stopped once", "an attempt that was already sent when the watcher was stopped may be answered, but nothing that comes with the answer may reach the cache"},
	})
}

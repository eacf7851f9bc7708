//go:build go1.25

package props

import (
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"
	"testing/synctest"
	"time"

	"ckverif/vk"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/watcher"
	"pgregory.net/rapid"
)

type simStep struct {
	Op      string `json:"op"` // event, open (no event), bookmark, error, end, fail, hold, sleep
	R       int    `json:"r"`
	C       int    `json:"c"`
	Type    string `json:"type,omitempty"`    // of an event
	Objs    []Obj  `json:"objs,omitempty"`    // of the events, sent in one go
	Split   int    `json:"split,omitempty"`   // where the events are cut into two pieces, in percent (0: not)
	Kind    string `json:"kind,omitempty"`    // of an end, failure or error event
	Times   int    `json:"times,omitempty"`   // of failures
	Seconds int    `json:"seconds,omitempty"` // of a sleep
}

type c18Case struct {
	Resources []GVR     `json:"resources"`
	Clusters  []string  `json:"clusters"`
	Steps     []simStep `json:"steps"`
}

var c18Resources = []GVR{gvrPods, gvrDeploys, gvrPodsX, gvrDeploysB}
var simErrors = []string{"Expired 410", "Expired 410", "Gone 410", "InternalError 500", "Forbidden 403", "Unauthorized 401", "NotFound 404", "TooManyRequests 429", "ServiceUnavailable 503", "Timeout 504", "Unknown 0"}
var simEnds = []string{"eof", "reset", "unexpected", "cut", "garbage", "unknown kind"}

func genC18(t *rapid.T) c18Case {
	c := c18Case{Clusters: subset(t, "clusters", []string{"c1", "c2", "default"}, 2)}
	n := intIn(t, "resources", 1, 3)
	c.Resources = append(c.Resources, rapid.Permutation(c18Resources).Draw(t, "which")[:n]...)
	nss, names := subset(t, "nss", poolNS[1:], 2), subset(t, "names", poolNames, 3)
	v, base := 0, pick(t, "first version", 1000, 990, 9990) // greater is not later in the alphabet
	for i := intIn(t, "steps", 1, 25); i > 0; i-- {
		st := simStep{Op: pick(t, "op", "event", "event", "event", "event", "end", "end", "open", "fail", "fail", "bookmark", "error", "hold", "sleep"), R: intIn(t, "r", 0, n-1), C: intIn(t, "c", 0, len(c.Clusters)-1)}
		switch st.Op {
		case "event":
			st.Type = pick(t, "type", "ADDED", "ADDED", "MODIFIED", "DELETED")
			for j := intIn(t, "objs", 1, 4); j > 0; j-- {
				v++
				st.Objs = append(st.Objs, Obj{NS: pickFrom(t, "ns", nss), Name: pickFrom(t, "name", names), V: v, RV: fmt.Sprint(base + v)})
			}
			if chance(t, "split", 30) {
				st.Split = intIn(t, "at", 1, 99)
			}
		case "error":
			st.Kind = pickFrom(t, "error", simErrors)
		case "end":
			st.Kind = pickFrom(t, "end", simEnds)
		case "fail":
			st.Kind = pickFrom(t, "fail", simFailures)
			st.Times = pick(t, "times", 1, 1, 2, 3, 8)
		case "sleep":
			st.Seconds = pick(t, "seconds", 1, 5, 20, 100, 600, 3700, 8000)
		}
		c.Steps = append(c.Steps, st)
	}
	return c
}

type simRun struct {
	sim   *simServer
	s     store.Store
	m     model
	known map[*simBody]bool // the stream is in the model
	seen  map[*simChan]map[objKey]bool
}

func checkC18(_ *vk.Env, c c18Case) error {
	return bubble(func() error { return runC18(c) })
}

func runC18(c c18Case) error {
	conf := map[GVR]map[string]string{}
	cfg := common.Config{DefaultCluster: c.Clusters[0]}
	for _, g := range c.Resources {
		conf[g] = baseIndex()
		cfg.Proxies = append(cfg.Proxies, proxyConf(g, simKinds[g]+"List", baseIndex()))
	}
	common.InitConfig(&cfg)
	r := &simRun{sim: newSim(c.Resources, c.Clusters), s: newStore(conf), m: model{}, known: map[*simBody]bool{}, seen: map[*simChan]map[objKey]bool{}}
	w := watcher.NewWatcher(r.sim.configs(c.Clusters), c.Resources, r.s)
	if err := w.Start(); err != nil {
		return fmt.Errorf("Start: %v", err)
	}
	defer r.sim.teardown(w.Stop)
	synctest.Wait()
	for i, st := range c.Steps {
		ch := r.sim.at(c.Resources[st.R], c.Clusters[st.C])
		if err := r.step(ch, st); err != nil {
			return fmt.Errorf("step %d (%s): %w", i+1, short(st), err)
		}
		if err := r.compare(); err != nil {
			return fmt.Errorf("after step %d (%s): %w", i+1, short(st), err)
		}
		if err := r.sim.faultErr(); err != nil {
			return fmt.Errorf("after step %d (%s): %w", i+1, short(st), err)
		}
	}
	// whatever happened, every channel follows its API server in the end
	for i, ch := range r.sim.list() {
		st := simStep{Op: "event", Type: "ADDED", Objs: []Obj{{NS: "default", Name: "last", V: 9000 + i, RV: fmt.Sprint(9000 + i)}}}
		if err := r.step(ch, st); err != nil {
			return fmt.Errorf("in the end, %v: %w", ch, err)
		}
		if err := r.compare(); err != nil {
			return fmt.Errorf("in the end, %v: %w", ch, err)
		}
	}
	return nil
}

// lost forgets streams that are over.
func (r *simRun) lost() {
	for _, ch := range r.sim.list() {
		r.sim.mu.Lock()
		keep := ch.bodies[:0:0]
		for _, b := range ch.bodies {
			if b.alive() {
				keep = append(keep, b)
			}
		}
		ch.bodies = keep
		r.sim.mu.Unlock()
	}
}

// connect opens a stream unless there is one; meanwhile time may pass, and others may be lost.
func (r *simRun) connect(ch *simChan) (*simBody, error) {
	b, err := r.sim.connect(ch)
	r.lost()
	if err == nil && !r.known[b] {
		// what this stream describes is all there is
		r.known[b] = true
		r.m.wipe(ch.gvr, ch.cluster)
	}
	return b, err
}

func (r *simRun) step(ch *simChan, st simStep) error {
	switch st.Op {
	case "event":
		b, err := r.connect(ch)
		if err != nil {
			return err
		}
		var text []byte
		for _, o := range st.Objs {
			text = append(text, simLine(st.Type, simDoc(ch.gvr, o))...)
		}
		if st.Split > 0 {
			n := len(text) * st.Split / 100
			b.send(text[:n])
			synctest.Wait()
			text = text[n:]
		}
		b.send(text)
		synctest.Wait()
		if !b.alive() {
			return fmt.Errorf("%v: the stream was given up by the watcher after a good event", ch)
		}
		for _, o := range st.Objs {
			k := objKey{ch.gvr, ch.cluster, o.NS, o.Name}
			if r.seen[ch] == nil {
				r.seen[ch] = map[objKey]bool{}
			}
			r.seen[ch][k] = true
			if st.Type == "DELETED" {
				delete(r.m, k)
			} else {
				r.m[k] = o
			}
		}
	case "open":
		if _, err := r.connect(ch); err != nil {
			return err
		}
		synctest.Wait()
	case "bookmark", "error":
		b, err := r.connect(ch)
		if err != nil {
			return err
		}
		if st.Op == "bookmark" {
			b.send(simLine("BOOKMARK", map[string]interface{}{"apiVersion": apiVersion(ch.gvr), "kind": simKinds[ch.gvr], "metadata": map[string]interface{}{"resourceVersion": "5"}}))
		} else {
			reason, code, _ := strings.Cut(st.Kind, " ")
			n, _ := strconv.Atoi(code)
			b.send(simLine("ERROR", map[string]interface{}{"kind": "Status", "apiVersion": "v1", "metadata": map[string]interface{}{}, "status": "Failure", "reason": reason, "code": n, "message": "an error in the stream"}))
		}
		synctest.Wait()
		r.lost()
	case "end":
		b, err := r.connect(ch)
		if err != nil {
			return err
		}
		switch st.Kind {
		case "eof":
			b.finish(io.EOF)
		case "reset":
			b.finish(errors.New("read tcp: connection reset by peer"))
		case "unexpected":
			b.finish(io.ErrUnexpectedEOF)
		case "cut":
			line := simLine("ADDED", simDoc(ch.gvr, Obj{NS: "default", Name: "half", V: 1}))
			b.send(line[:len(line)-20])
			b.finish(io.EOF)
		case "garbage":
			b.send([]byte("<html>not an event</html>\n"))
			b.finish(io.EOF)
		case "unknown kind":
			b.send(simLine("ADDED", map[string]interface{}{"apiVersion": "unknown.io/v9", "kind": "Nothing", "metadata": map[string]interface{}{"name": "half"}}))
			b.finish(io.EOF)
		}
		synctest.Wait()
		r.lost()
	case "fail":
		if b := r.sim.open(ch); b != nil {
			b.finish(io.EOF)
			synctest.Wait()
			r.lost()
		}
		for i := 0; i < st.Times; i++ {
			a, err := r.sim.next(ch, reconnectLimit)
			r.lost()
			if err != nil {
				return err
			}
			r.sim.answer(ch, a, failureOutcome(st.Kind))
			if err := r.compare(); err != nil {
				return fmt.Errorf("after failure %d: %w", i+1, err)
			}
		}
	case "hold":
		// leave an attempt unanswered: nothing to do but wait for it
		if r.sim.open(ch) == nil {
			_, err := r.sim.next(ch, reconnectLimit)
			r.lost()
			return err
		}
	case "sleep":
		time.Sleep(time.Duration(st.Seconds) * time.Second)
		synctest.Wait()
		r.lost()
	}
	return nil
}

// compare: the cache holds exactly what the model says, for every channel.
func (r *simRun) compare() error {
	for _, ch := range r.sim.list() {
		got := []string{}
		res := r.s.Query(ch.gvr, store.Query{})
		if res.Error != nil {
			return fmt.Errorf("listing %v: %v", ch.gvr, res.Error)
		}
		for _, id := range idents(res.Items) {
			if strings.HasPrefix(id, ch.cluster+"|") {
				got = append(got, id)
			}
		}
		got = sortedCopy(got)
		want := []string{}
		for _, id := range r.m.list(ch.gvr, "") {
			if strings.HasPrefix(id, ch.cluster+"|") {
				want = append(want, id)
			}
		}
		if !eqStrings(got, want) {
			return fmt.Errorf("%v: the cache lists %v, want %v", ch, got, want)
		}
		for k := range r.seen[ch] {
			o := r.s.Get(k.gvr, k.cluster, k.ns, k.name)
			if _, ok := r.m[k]; !ok {
				if o != nil {
					return fmt.Errorf("%v: the cache still has %s", ch, ident(o))
				}
			} else if o == nil || ident(o) != r.m.ident(k) {
				return fmt.Errorf("%v: the cache has %v, want %s", ch, o, r.m.ident(k))
			}
		}
	}
	return nil
}

func classifyC18(c c18Case) (bool, []string) {
	labels := []string{sizeClass("steps", len(c.Steps)), fmt.Sprintf("channels=%d", len(c.Resources)*len(c.Clusters))}
	has := map[string]bool{}
	live := map[string]bool{}
	again := false
	for _, st := range c.Steps {
		k := fmt.Sprint(st.R, st.C)
		switch st.Op {
		case "event":
			if has["lost"+k] {
				again = true
			}
			live[k] = true
		case "end", "fail":
			if live[k] {
				has["lost"+k] = true
			}
			has[st.Kind] = true
		case "sleep":
			if st.Seconds > 3600 {
				has["over an hour"] = true
			}
		}
	}
	for _, k := range append(append([]string{"over an hour"}, simEnds...), simFailures...) {
		if has[k] {
			labels = append(labels, k)
		}
	}
	if again {
		labels = append(labels, "objects, then loss, then objects")
	}
	return again, labels
}

func init() {
	common.InitConfig(&common.Config{})
	vk.Register(&vk.Property{
		ID: "C18",
		Parts: []*vk.Part{vk.New(vk.Part{
			Name:  "streams",
			Rule:  "histories of 1-25 steps over 1-3 resources in 1-2 clusters against a scripted API server in virtual time: events (1-4 at once, in one or two pieces), bookmarks and error events, streams without events, streams ending in six ways, attempts failing in thirteen ways, attempts left unanswered, and waits of up to two hours; the cache is compared with the model after every step; non-trivial when a resource that had objects loses its stream and gets objects again",
			Quick: 4000, Thorough: 150000,
		}, vk.Def[c18Case]{Gen: genC18, Check: checkC18, Classify: classifyC18})},
		Assumptions: []string{
			"an attempt to reconnect is made within a minute of virtual time",
		},
	})
}

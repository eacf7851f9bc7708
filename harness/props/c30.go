package props

import (
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"time"

	"ckverif/vk"

	"github.com/DaoCloud/ckube/page"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/watch"
	"pgregory.net/rapid"
)

// c30Watch is one watch of the fake server.
type c30Watch struct {
	Res      int      `json:"res"`
	NS       string   `json:"ns,omitempty"` // none is all
	Clusters []string `json:"clusters,omitempty"`
	Form     string   `json:"form"` // watch=true, watch=1, path, typed
	Start    int      `json:"start,omitempty"`
	Leave    int      `json:"leave,omitempty"` // the client leaves after that many operations, -1: stays
	Slow     bool     `json:"slow,omitempty"`  // it reads only in the end
}

type c30Case struct {
	Watches []c30Watch `json:"watches"`
	Ops     []c26Op    `json:"ops"`
	Pad     int        `json:"pad,omitempty"` // kilobytes in each document
	Burst   int        `json:"burst,omitempty"`
}

func genC30Watch(t *rapid.T, clusters, nss, resources []string, ops int) c30Watch {
	w := c30Watch{Leave: -1, Form: pick(t, "form", "watch=true", "watch=1", "path", "typed")}
	fmt.Sscan(pickFrom(t, "watched resource", resources), &w.Res)
	if chance(t, "one namespace", 50) {
		w.NS = pickFrom(t, "watched namespace", nss)
	}
	if chance(t, "some clusters", 50) {
		for _, c := range subset(t, "watched clusters", clusters, 2) {
			if c == "" {
				c = "default"
			}
			w.Clusters = append(w.Clusters, c)
		}
	}
	if w.Form == "typed" && w.Res != 0 {
		w.Form = "watch=true"
	}
	if ops > 0 && chance(t, "later", 30) {
		w.Start = intIn(t, "start", 0, ops)
	}
	if ops > 0 && chance(t, "leaves", 25) {
		w.Leave = intIn(t, "leave", w.Start, ops)
	}
	w.Slow = chance(t, "slow", 25)
	return w
}

func genC30(t *rapid.T) c30Case {
	c := c30Case{}
	clusters, names, nss := subset(t, "clusters", c26Clusters, 3), subset(t, "names", c26Names, 2), subset(t, "nss", []string{"a", "a-b", "ab", "b", "default"}, 2)
	resources := subset(t, "resources", []string{"0", "1", "2", "3", "4"}, 3)
	for i := intIn(t, "ops", 1, 25); i > 0; i-- {
		op := c26Op{Op: pick(t, "op", "create", "create", "update", "update", "delete")}
		fmt.Sscan(pickFrom(t, "resource", resources), &op.Res)
		op.Cluster, op.NS, op.Name = pickFrom(t, "cluster", clusters), pickFrom(t, "ns", nss), pickFrom(t, "name", names)
		op.Typed = op.Res == 0 && chance(t, "typed", 50)
		if op.Op != "delete" {
			op.Doc = c30Doc(op, pick(t, "text", "", "x", "a\nb", "\"", "日", "<&>", "\u2028"))
		}
		c.Ops = append(c.Ops, op)
	}
	for i := intIn(t, "watches", 1, 4); i > 0; i-- {
		c.Watches = append(c.Watches, genC30Watch(t, clusters, nss, resources, len(c.Ops)))
	}
	if chance(t, "large", 6) {
		c.Pad = intIn(t, "pad", 1, 60)
		if chance(t, "more than fits into a connection", 30) {
			c.Pad, c.Burst = 60, 80
			c.Watches[0].Slow, c.Watches[0].Start = true, 0
			return c
		}
	}
	if chance(t, "burst", 4) {
		c.Burst = intIn(t, "times", 2, 8) * 10
	}
	return c
}

func c30Doc(op c26Op, text string) map[string]interface{} {
	meta := map[string]interface{}{"name": op.Name, "annotations": map[string]interface{}{"text": text}}
	if op.NS != "" {
		meta["namespace"] = op.NS
	}
	d := map[string]interface{}{"metadata": meta, "kind": c26Kinds[op.Res], "apiVersion": strings.TrimPrefix(c26Resources[op.Res].Group+"/"+c26Resources[op.Res].Version, "/")}
	if op.Res == 0 {
		d["spec"] = map[string]interface{}{"hostname": text}
	} else {
		d["spec"] = map[string]interface{}{"text": text, "list": []interface{}{text, nil, 1}}
	}
	return d
}

type c30Event struct {
	Type   string
	Object interface{}
	err    error
}

// c30Client is the client's end of a watch.
type c30Client struct {
	w      c30Watch
	cancel context.CancelFunc
	events chan c30Event
	start  func() // begins to read
	once   sync.Once
}

func openC30(w c30Watch) (*c30Client, error) {
	ctx, cancel := context.WithCancel(context.Background())
	c := &c30Client{w: w, cancel: cancel, events: make(chan c30Event, 100000)}
	p := page.Paginate{}
	if w.Clusters != nil {
		must(p.Clusters(w.Clusters))
	}
	o, err := page.QueryListOptions(metav1.ListOptions{}, p)
	must(err)
	timer := time.AfterFunc(watchPatience, cancel)
	defer timer.Stop()
	if w.Form == "typed" {
		wi, err := c26World1.cli.CoreV1().Pods(w.NS).Watch(ctx, o)
		if err != nil {
			cancel()
			return nil, fmt.Errorf("opening the watch: %w", err)
		}
		c.start = func() {
			go func() {
				for e := range wi.ResultChan() {
					if e.Type == watch.Error {
						c.events <- c30Event{err: fmt.Errorf("an error event: %s", short(e.Object))}
						continue
					}
					c.events <- c30Event{Type: string(e.Type), Object: mustJSON(e.Object)}
				}
				c.events <- c30Event{err: fmt.Errorf("the stream ended")}
			}()
		}
	} else {
		path, q := collectionPath(c26Resources[w.Res], w.NS), url.Values{}
		if w.Form == "path" {
			v := "/" + c26Resources[w.Res].Version + "/"
			path = strings.Replace(path, v, v+"watch/", 1)
		} else {
			q.Set("watch", strings.TrimPrefix(w.Form, "watch="))
		}
		if o.LabelSelector != "" {
			q.Set("labelSelector", o.LabelSelector)
		}
		req, err := http.NewRequestWithContext(ctx, "GET", c26World1.ser.GetKubeConfig().Host+path+"?"+q.Encode(), nil)
		must(err)
		resp, err := http.DefaultClient.Do(req)
		if err != nil {
			cancel()
			return nil, fmt.Errorf("opening the watch: %w", err)
		}
		if resp.StatusCode != 200 {
			cancel()
			return nil, fmt.Errorf("opening the watch: answered %d", resp.StatusCode)
		}
		c.start = func() {
			go func() {
				defer resp.Body.Close()
				d := json.NewDecoder(resp.Body)
				d.UseNumber()
				for {
					var v interface{}
					if err := d.Decode(&v); err != nil {
						c.events <- c30Event{err: fmt.Errorf("the stream ended: %v", err)}
						return
					}
					m, _ := v.(map[string]interface{})
					typ, _ := m["type"].(string)
					c.events <- c30Event{Type: typ, Object: m["object"]}
				}
			}()
		}
	}
	if !w.Slow {
		c.begin()
	}
	return c, nil
}

func (c *c30Client) begin() { c.once.Do(c.start) }

func (c *c30Client) next() (c30Event, error) {
	select {
	case e := <-c.events:
		return e, e.err
	case <-time.After(watchPatience):
		return c30Event{}, fmt.Errorf("nothing more comes")
	}
}

func (w c30Watch) sees(op c26Op) bool {
	return op.Res == w.Res && (w.NS == "" || w.NS == op.NS) && (w.Clusters == nil || contains(w.Clusters, op.cluster()))
}

type c30Want struct {
	typ string
	op  c26Op
	doc interface{}
}

func (x c30Want) check(e c30Event) error {
	id := fmt.Sprintf("%s of %s", x.typ, x.op.key())
	if e.Type != x.typ {
		return fmt.Errorf("the event is %s %s, want %s", e.Type, short(e.Object), id)
	}
	meta, _ := e.Object.(map[string]interface{})["metadata"].(map[string]interface{})
	if meta == nil || meta["name"] != x.op.Name {
		return fmt.Errorf("the event is about %s, want %s", short(e.Object), id)
	}
	return (&c26World{}).same(id, e.Object, x.doc, x.op.Res == 0)
}

var c30Types = map[string]string{"create": "ADDED", "update": "MODIFIED", "delete": "DELETED"}

// endOps are creations in every place there is, which every watch must be told of after all the others.
func c30EndOps(ops []c26Op, watches []c30Watch, name string) []c26Op {
	out, seen := []c26Op{}, map[string]bool{}
	add := func(op c26Op) {
		op.Op, op.Name, op.Typed = "create", name, false
		op.Doc = c30Doc(op, "end")
		if !seen[op.key()] {
			seen[op.key()] = true
			out = append(out, op)
		}
	}
	for _, op := range ops {
		add(op)
	}
	for _, w := range watches {
		op := c26Op{Res: w.Res, NS: w.NS}
		if op.NS == "" {
			op.NS = "a"
		}
		if w.Clusters != nil {
			op.Cluster = w.Clusters[0]
		}
		add(op)
	}
	return out
}

func checkC30(_ *vk.Env, c c30Case) error {
	w := c26World1
	w.ser.Clean()
	m := c26Model{}
	clients := make([]*c30Client, len(c.Watches))
	wants := make([][]c30Want, len(c.Watches))
	defer func() {
		for _, cl := range clients {
			if cl != nil {
				cl.cancel()
				cl.begin()
			}
		}
	}()
	step := func(op c26Op) error {
		_, exists := m[op.key()]
		old := m[op.key()]
		if err := w.step(m, op); err != nil {
			return err
		}
		if exists == (op.Op == "create") {
			return nil // it failed
		}
		doc := m[op.key()]
		if op.Op == "delete" {
			doc = old
		}
		for i := range clients {
			if clients[i] != nil && c.Watches[i].sees(op) {
				wants[i] = append(wants[i], c30Want{c30Types[op.Op], op, doc})
			}
		}
		return nil
	}
	left := make([]bool, len(c.Watches))
	around := func(n int) error {
		for i, cw := range c.Watches {
			if cw.Start == n && clients[i] == nil {
				cl, err := openC30(cw)
				if err != nil {
					return fmt.Errorf("watch %d (%s): %w", i, short(cw), err)
				}
				clients[i] = cl
			}
		}
		for i, cw := range c.Watches {
			if cw.Leave == n && clients[i] != nil {
				clients[i].cancel()
				left[i] = true
			}
		}
		return nil
	}
	pad := strings.Repeat("pad ", c.Pad*256)
	for n, op := range c.Ops {
		if err := around(n); err != nil {
			return err
		}
		if pad != "" && op.Doc != nil {
			op.Doc = mustJSON(op.Doc).(map[string]interface{})
			op.Doc["metadata"].(map[string]interface{})["annotations"].(map[string]interface{})["pad"] = pad
		}
		if err := step(op); err != nil {
			return fmt.Errorf("operation %d (%s): %w", n+1, short(op), err)
		}
		if n == 0 {
			for b := 0; b < c.Burst; b++ {
				op := op
				op.Op = []string{"update", "update", "delete", "create"}[b%4]
				if op.Doc == nil || op.Op == "delete" {
					op.Doc = nil
					op.Op = "delete"
				}
				if err := step(op); err != nil {
					return fmt.Errorf("operation %d (%s): %w", n+1, short(op), err)
				}
			}
		}
	}
	if err := around(len(c.Ops)); err != nil {
		return err
	}
	for _, op := range c30EndOps(c.Ops, c.Watches, "zz-end") {
		if err := step(op); err != nil {
			return fmt.Errorf("in the end (%s): %w", short(op), err)
		}
	}
	for i, cl := range clients {
		if left[i] {
			continue
		}
		cl.begin()
		for n, want := range wants[i] {
			e, err := cl.next()
			if err == nil {
				err = want.check(e)
			} else {
				err = fmt.Errorf("%w, %s of %s is missing", err, want.typ, want.op.key())
			}
			if err != nil {
				return fmt.Errorf("watch %d (%s), event %d of %d: %w", i, short(c.Watches[i]), n+1, len(wants[i]), err)
			}
		}
	}
	return nil
}

func classifyC30(c c30Case) (bool, []string) {
	labels := []string{sizeClass("ops", len(c.Ops)), sizeClass("watches", len(c.Watches))}
	seen, hidden := false, false
	used := map[string]bool{}
	for _, w := range c.Watches {
		used[w.Form] = true
		if w.Slow {
			used["slow"] = true
		}
		if w.Leave >= 0 {
			used["leaves"] = true
			continue
		}
		for _, op := range c.Ops[w.Start:] {
			if w.sees(op) {
				seen = true
			} else if op.Res == w.Res {
				hidden = true
			}
		}
	}
	if c.Pad > 0 {
		used["large documents"] = true
	}
	if c.Burst > 0 {
		used["burst"] = true
	}
	if hidden {
		used["filtered"] = true
	}
	for k := range used {
		labels = append(labels, k)
	}
	return seen, labels
}

// Several clients at once.

type c30cCase struct {
	Clients [][]c26Op  `json:"clients"`
	Watches []c30Watch `json:"watches"`
}

func genC30c(t *rapid.T) c30cCase {
	c := c30cCase{}
	names, res := subset(t, "names", c26Names, 2), intIn(t, "resource", 0, 4)
	cluster := pick(t, "cluster", "", "c1")
	n := 0
	for i := intIn(t, "clients", 2, 5); i > 0; i-- {
		ops := []c26Op{}
		for j := intIn(t, "ops", 1, 8); j > 0; j-- {
			op := c26Op{Op: pick(t, "op", "create", "create", "update", "update", "delete", "get"), Res: res, Cluster: cluster, NS: "a", Name: pickFrom(t, "name", names)}
			if op.Op == "create" || op.Op == "update" {
				n++
				op.Doc = c30Doc(op, fmt.Sprintf("op%d", n))
			}
			ops = append(ops, op)
		}
		c.Clients = append(c.Clients, ops)
	}
	for i := intIn(t, "watches", 1, 3); i > 0; i-- {
		c.Watches = append(c.Watches, c30Watch{Res: res, NS: pick(t, "watched", "", "a"), Form: pick(t, "form", "watch=true", "path"), Leave: -1, Slow: chance(t, "slow", 20)})
	}
	return c
}

func c30Text(doc interface{}) string {
	m, _ := doc.(map[string]interface{})
	meta, _ := m["metadata"].(map[string]interface{})
	annos, _ := meta["annotations"].(map[string]interface{})
	s, _ := annos["text"].(string)
	return s
}

type c30Done struct {
	op       c26Op
	inv, ret time.Time
	ok       bool
	text     string // what a get has read
}

type c30State struct {
	typ, text string    // of the event that led to it
	inv, ret  time.Time // of the operation
}

func checkC30c(_ *vk.Env, c c30cCase) error {
	w := c26World1
	w.ser.Clean()
	clients := []*c30Client{}
	defer func() {
		for _, cl := range clients {
			cl.cancel()
			cl.begin()
		}
	}()
	for i, cw := range c.Watches {
		cl, err := openC30(cw)
		if err != nil {
			return fmt.Errorf("watch %d (%s): %w", i, short(cw), err)
		}
		clients = append(clients, cl)
	}
	done := make([][]c30Done, len(c.Clients))
	errs := make([]error, len(c.Clients))
	var wg sync.WaitGroup
	ready := make(chan struct{})
	for i, ops := range c.Clients {
		wg.Add(1)
		go func(i int, ops []c26Op) {
			defer wg.Done()
			<-ready
			for _, op := range ops {
				d := c30Done{op: op, inv: time.Now()}
				var doc interface{}
				if op.Doc != nil {
					doc = op.Doc
				}
				got, err := w.run(op, doc)
				d.ret, d.ok = time.Now(), err == nil
				if err == nil && op.Op == "get" {
					d.text = c30Text(got)
				}
				done[i] = append(done[i], d)
			}
		}(i, ops)
	}
	close(ready)
	wg.Wait()
	all, perKey := []c30Done{}, map[string][]c30Done{}
	for i := range done {
		if errs[i] != nil {
			return errs[i]
		}
		for _, d := range done[i] {
			all = append(all, d)
			perKey[d.op.Name] = append(perKey[d.op.Name], d)
		}
	}
	end := c.Clients[0][0]
	end.Op, end.Name, end.Typed = "create", "zz-end", false
	end.Doc = c30Doc(end, "end")
	if _, err := w.run(end, end.Doc); err != nil {
		return fmt.Errorf("in the end: %w", err)
	}
	var first []string
	for i, cl := range clients {
		cl.begin()
		log, history := []string{}, map[string][]c30State{}
		for {
			e, err := cl.next()
			if err != nil {
				return fmt.Errorf("watch %d (%s) after %q: %w", i, short(c.Watches[i]), log, err)
			}
			if o, ok := e.Object.(map[string]interface{}); !ok || o["metadata"] == nil {
				return fmt.Errorf("watch %d (%s) after %q: %s event with %s", i, short(c.Watches[i]), log, e.Type, short(e.Object))
			}
			name, text := metaOf(e.Object, "name"), c30Text(e.Object)
			if name == "zz-end" {
				break
			}
			log = append(log, e.Type+" "+name+" "+text)
			history[name] = append(history[name], c30State{typ: e.Type, text: text})
		}
		for name, ds := range perKey {
			if err := c30Order(history[name], ds); err != nil {
				return fmt.Errorf("watch %d (%s), object %s: %w; events: %q", i, short(c.Watches[i]), name, err, log)
			}
			delete(history, name)
		}
		for name := range history {
			return fmt.Errorf("watch %d (%s): events about %s, which nobody has changed", i, short(c.Watches[i]), name)
		}
		if i == 0 {
			first = log
		} else if !eqStrings(first, log) {
			return fmt.Errorf("watch %d has other events than watch 0: %q and %q", i, log, first)
		}
	}
	return nil
}

// c30Order decides whether a sequence of events explains what operations have answered.
func c30Order(events []c30State, ds []c30Done) error {
	writes, deletes := map[string]c30Done{}, []c30Done{}
	n := 0
	for _, d := range ds {
		if d.ok && d.op.Op != "get" {
			n++
			if d.op.Op == "delete" {
				deletes = append(deletes, d)
			} else {
				writes[c30Text(d.op.Doc)] = d
			}
		}
	}
	if n != len(events) {
		return fmt.Errorf("%d operations succeeded and %d events came", n, len(events))
	}
	exists, text := false, ""
	states := []c30State{{}}
	for i, e := range events {
		switch e.typ {
		case "ADDED", "MODIFIED":
			d, ok := writes[e.text]
			if !ok || c30Types[d.op.Op] != e.typ {
				return fmt.Errorf("event %d, %s %s, is of no operation that succeeded", i+1, e.typ, e.text)
			}
			delete(writes, e.text)
			if exists == (e.typ == "ADDED") {
				return fmt.Errorf("event %d, %s %s: the object exists: %v", i+1, e.typ, e.text, exists)
			}
			exists, text = true, e.text
			e.inv, e.ret = d.inv, d.ret
		case "DELETED":
			if !exists {
				return fmt.Errorf("event %d, DELETED %s: there is no object", i+1, e.text)
			}
			if e.text != text {
				return fmt.Errorf("event %d, DELETED %s: the object is %s", i+1, e.text, text)
			}
			exists, text = false, ""
			// any of the deletions: those that can not be told apart are taken in the order they were made
			if len(deletes) == 0 {
				return fmt.Errorf("event %d is a deletion too many", i+1)
			}
			e.text = ""
			e.inv, e.ret = deletes[0].inv, deletes[0].ret
			for _, d := range deletes {
				if d.inv.Before(e.inv) {
					e.inv = d.inv
				}
				if d.ret.After(e.ret) {
					e.ret = d.ret
				}
			}
		default:
			return fmt.Errorf("event %d is %s", i+1, e.typ)
		}
		states = append(states, e)
	}
	for i := 1; i < len(states); i++ {
		for j := i + 1; j < len(states); j++ {
			if states[j].ret.Before(states[i].inv) {
				return fmt.Errorf("%s %s is reported after %s %s, which was only asked for when it was done", states[j].typ, states[j].text, states[i].typ, states[i].text)
			}
		}
	}
	for _, d := range ds {
		if d.ok && d.op.Op != "get" {
			continue
		}
		fits := false
		for i, s := range states {
			exists := i > 0 && s.typ != "DELETED"
			after := i == 0 || s.inv.Before(d.ret)
			before := i+1 == len(states) || d.inv.Before(states[i+1].ret)
			if !after || !before {
				continue
			}
			switch {
			case d.op.Op == "get" && d.ok:
				fits = fits || exists && s.text == d.text
			case d.op.Op == "create":
				fits = fits || exists
			default:
				fits = fits || !exists
			}
		}
		if !fits {
			return fmt.Errorf("%s (ok: %v, read: %q) fits none of the states it may have met", d.op.Op, d.ok, d.text)
		}
	}
	return nil
}

func classifyC30c(c c30cCase) (bool, []string) {
	n, writers := 0, map[string]map[int]bool{}
	for i, ops := range c.Clients {
		n += len(ops)
		for _, op := range ops {
			if op.Op != "get" {
				if writers[op.Name] == nil {
					writers[op.Name] = map[int]bool{}
				}
				writers[op.Name][i] = true
			}
		}
	}
	shared := false
	for _, w := range writers {
		shared = shared || len(w) > 1
	}
	return shared, []string{sizeClass("ops", n), sizeClass("clients", len(c.Clients))}
}

func init() {
	vk.Register(&vk.Property{
		ID: "C30",
		Setup: func(*vk.Env) error {
			quietStdout()
			return setupC26()
		},
		Teardown: func(*vk.Env) { c26World1.ser.Stop() },
		Parts: []*vk.Part{
			vk.New(vk.Part{Name: "sequence", Quick: 1200, Thorough: 40000, MaxShards: 6, CaseTimeout: 3 * time.Minute,
				Rule: "1-4 watches (resource, namespace or all, clusters or all, asked for in four forms, opened and left at any point, read at once or only in the end) while 1-25 creates, updates and deletes succeed and fail, at times with large documents or dozens of changes at once; the events of each are compared with the changes a map-based model predicts, ended by a last creation everywhere; non-trivial if a watch that stays may see an operation",
			}, vk.Def[c30Case]{Gen: genC30, Check: checkC30, Classify: classifyC30}),
			vk.New(vk.Part{Name: "concurrent", Quick: 800, Thorough: 30000, MaxShards: 6, CaseTimeout: 3 * time.Minute, ReplayRuns: 200,
				Rule: "2-5 clients with 1-8 operations each on one or two objects at once, watched by 1-3 watches: the events must be the same for all watches, a possible order of exactly the operations that succeeded (as seen from the times of asking and answering), and explain every read and every failure; non-trivial if two clients write to one object",
			}, vk.Def[c30cCase]{Gen: genC30c, Check: checkC30c, Classify: classifyC30c}),
		},
		Assumptions: []string{"watches without other selectors than the clusters", "a watch is not more than a thousand events behind"},
	})
}

package props

import (
	"encoding/json"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"ckverif/vk"

	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
	corev1 "k8s.io/api/core/v1"
	"pgregory.net/rapid"
)

// Built with the race detector. One writer per resource and cluster, any number of readers. A
// reader notes how far every writer was before and after its read; what it saw of an object must
// be one of the states the object had in between.

type c21Read struct {
	Kind    string `json:"kind"` // get, list, search, page
	R       int    `json:"r"`
	C       int    `json:"c"`
	NS      string `json:"ns"`
	Name    string `json:"name"`
	Pause   bool   `json:"pause,omitempty"`
	Marshal bool   `json:"marshal,omitempty"`
}

type c21Case struct {
	Resources int         `json:"resources"`
	Clusters  []string    `json:"clusters"`
	NSs       []string    `json:"nss"`
	Names     []string    `json:"names"`
	Initial   []storeOp   `json:"initial"`
	Writers   [][]storeOp `json:"writers"` // one per resource and cluster
	Readers   [][]c21Read `json:"readers"`
	Rounds    int         `json:"rounds"` // how often every reader repeats its reads
}

var c21Resources = []GVR{gvrPods, gvrDeploys, gvrPodsX}

func genC21(t *rapid.T) c21Case {
	c := c21Case{Resources: intIn(t, "resources", 1, 2), Clusters: subset(t, "clusters", poolClusters, 3), NSs: subset(t, "nss", poolNS[1:], 3), Names: subset(t, "names", poolNames, 5), Rounds: pick(t, "rounds", 1, 4, 12)}
	v := 0
	obj := func(r int, ns, name string) Obj {
		v++
		o := Obj{NS: ns, Name: name, V: v, Custom: r == 2, Labels: map[string]string{"v": fmt.Sprint(v)}}
		if chance(t, "extra", 40) {
			o.Extra = map[string]string{"v": fmt.Sprint(v)}
		}
		return o
	}
	for r := 0; r < c.Resources; r++ {
		for _, cl := range c.Clusters {
			for _, ns := range c.NSs {
				for _, name := range c.Names {
					if chance(t, "initially", 50) {
						c.Initial = append(c.Initial, storeOp{Op: "add", R: r, Cluster: cl, Obj: obj(r, ns, name)})
					}
				}
			}
			var ops []storeOp
			mild := chance(t, "mild", 40) // no deletions
			for i := intIn(t, "ops", 0, 40); i > 0; i-- {
				op := storeOp{Op: pick(t, "op", "add", "mod", "mod", "del", "del", "clean"), R: r, Cluster: cl}
				if op.Op == "clean" && chance(t, "no clean", 50) {
					op.Op = "add"
				}
				if mild {
					op.Op = pick(t, "mild op", "add", "mod")
				}
				if op.Op != "clean" {
					op.Obj = obj(r, pickFrom(t, "ns", c.NSs), pickFrom(t, "name", c.Names))
				}
				ops = append(ops, op)
			}
			c.Writers = append(c.Writers, ops)
		}
	}
	for i := intIn(t, "readers", 1, 4); i > 0; i-- {
		var reads []c21Read
		for j := intIn(t, "reads", 1, 12); j > 0; j-- {
			reads = append(reads, c21Read{Kind: pick(t, "kind", "get", "list", "list", "search", "page"), R: intIn(t, "r", 0, c.Resources-1), C: intIn(t, "c", 0, len(c.Clusters)-1),
				NS: pickFrom(t, "ns", c.NSs), Name: pickFrom(t, "name", c.Names), Pause: chance(t, "pause", 30), Marshal: chance(t, "marshal", 30)})
		}
		c.Readers = append(c.Readers, reads)
	}
	return c
}

// whole says whether the parts of an object belong to one version.
func whole(i interface{}) error {
	m, ok := i.(interface {
		GetLabels() map[string]string
		GetAnnotations() map[string]string
		GetName() string
		GetNamespace() string
	})
	if !ok {
		return fmt.Errorf("not an object: %T", i)
	}
	v := m.GetAnnotations()[verKey]
	if m.GetLabels()["v"] != v {
		return fmt.Errorf("%s has the labels of version %q", ident(i), m.GetLabels()["v"])
	}
	ix := map[string]string{}
	if err := json.Unmarshal([]byte(m.GetAnnotations()[IndexAnno]), &ix); err != nil {
		return fmt.Errorf("%s has the index annotation %q: %v", ident(i), m.GetAnnotations()[IndexAnno], err)
	}
	if ix["v"] != v || ix["r"] != "<"+v+">" || ix["t"] != v+"/"+m.GetName() || ix["name"] != m.GetName() || ix["namespace"] != m.GetNamespace() || ix["cluster"] != m.GetAnnotations()[ClusterAnno] {
		return fmt.Errorf("%s has the index %v", ident(i), ix)
	}
	if p, ok := i.(*corev1.Pod); ok && p.Spec.NodeName != "node-"+v {
		return fmt.Errorf("%s has the content of %s", ident(i), p.Spec.NodeName)
	}
	return nil
}

// c21History is what became of one object: the versions by number of operations done ("" = not there).
type c21History struct {
	writer int
	at     []string // index: operations of its writer done
}

func (h c21History) allows(seen string, lo, hi int) bool {
	for i := lo; i <= hi && i < len(h.at); i++ {
		if h.at[i] == seen {
			return true
		}
	}
	return false
}

func checkC21(_ *vk.Env, c c21Case) error {
	ix := map[string]string{"namespace": "{.metadata.namespace}", "name": "{.metadata.name}", "v": "{.metadata.labels.v}", "r": "{range .metadata.labels.*}<{@}>{end}", "t": "{{ .metadata.labels.v }}/{{ .metadata.name }}"}
	conf := map[GVR]map[string]string{}
	for r := 0; r < c.Resources; r++ {
		conf[c21Resources[r]] = ix
	}
	s := newStore(conf)
	m := model{}
	for _, op := range c.Initial {
		op.apply(s, m, c21Resources[op.R])
	}
	// every object's states
	hist := map[objKey]*c21History{}
	final := model{}
	for k, o := range m {
		final[k] = o
	}
	for r := 0; r < c.Resources; r++ {
		for ci, cl := range c.Clusters {
			w := r*len(c.Clusters) + ci
			now := map[objKey]string{}
			for _, ns := range c.NSs {
				for _, name := range c.Names {
					k := objKey{c21Resources[r], cl, ns, name}
					if o, ok := m[k]; ok {
						now[k] = fmt.Sprint(o.V)
					} else {
						now[k] = ""
					}
					hist[k] = &c21History{writer: w, at: []string{now[k]}}
				}
			}
			for _, op := range c.Writers[w] {
				k := objKey{c21Resources[r], cl, op.Obj.NS, op.Obj.Name}
				switch op.Op {
				case "add", "mod":
					now[k] = fmt.Sprint(op.Obj.V)
					final[k] = op.Obj
				case "del":
					now[k] = ""
					delete(final, k)
				case "clean":
					for k := range now {
						now[k] = ""
					}
					final.wipe(c21Resources[r], cl)
				}
				for k, v := range now {
					hist[k].at = append(hist[k].at, v)
				}
			}
		}
	}
	started, done := make([]atomic.Int64, len(c.Writers)), make([]atomic.Int64, len(c.Writers))
	var wg sync.WaitGroup
	var mu sync.Mutex
	var errs []string
	fail := func(err error) {
		mu.Lock()
		if len(errs) < 3 {
			errs = append(errs, err.Error())
		}
		mu.Unlock()
	}
	gate := make(chan struct{})
	goes := func(f func() error) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			if err := vk.Guard(f); err != nil {
				fail(err)
			}
		}()
	}
	for w := range c.Writers {
		w := w
		goes(func() error {
			for i, op := range c.Writers[w] {
				var obj interface{}
				if op.Op != "clean" {
					obj = op.Obj.Build()
				}
				g := c21Resources[op.R]
				started[w].Store(int64(i + 1))
				switch op.Op {
				case "add":
					_ = s.OnResourceAdded(g, op.Cluster, obj)
				case "mod":
					_ = s.OnResourceModified(g, op.Cluster, obj)
				case "del":
					_ = s.OnResourceDeleted(g, op.Cluster, obj)
				case "clean":
					_ = s.Clean(g, op.Cluster)
				}
				done[w].Store(int64(i + 1))
				if i%3 == 0 {
					runtime.Gosched()
				}
			}
			return nil
		})
	}
	for ri := range c.Readers {
		ri := ri
		goes(func() error {
			last := map[objKey]int{}
			for round := 0; round < c.Rounds; round++ {
				for _, rd := range c.Readers[ri] {
					if err := c21Do(c, s, hist, started, done, last, rd); err != nil {
						return fmt.Errorf("reader %d, %s: %w", ri, short(rd), err)
					}
					if rd.Pause {
						runtime.Gosched()
					}
				}
			}
			return nil
		})
	}
	close(gate)
	wg.Wait()
	if len(errs) > 0 {
		return joinErrs(errs)
	}
	if err := compareStore(s, final, conf, c.Clusters, c.NSs, c.Names); err != nil {
		return fmt.Errorf("after all writers have finished: %w", err)
	}
	return nil
}

func c21Do(c c21Case, s store.Store, hist map[objKey]*c21History, started, done []atomic.Int64, last map[objKey]int, rd c21Read) error {
	g := c21Resources[rd.R]
	lo := make([]int, len(done))
	for i := range done {
		lo[i] = int(done[i].Load())
	}
	saw := map[objKey]string{}
	scope := func(k objKey) bool { return k.gvr == g }
	var items []interface{}
	switch rd.Kind {
	case "get":
		k := objKey{g, c.Clusters[rd.C], rd.NS, rd.Name}
		scope = func(o objKey) bool { return o == k }
		if o := s.Get(g, k.cluster, k.ns, k.name); o != nil {
			items = append(items, o)
		}
	case "list":
		r := s.Query(g, store.Query{Namespace: rd.NS})
		if r.Error != nil {
			return r.Error
		}
		if int(r.Total) != len(r.Items) {
			return fmt.Errorf("a list of %d objects has the total %d", len(r.Items), r.Total)
		}
		items = r.Items
		scope = func(k objKey) bool { return k.gvr == g && k.ns == rd.NS }
	case "search":
		r := s.Query(g, store.Query{Paginate: page.Paginate{Search: `name="` + rd.Name + `"`}})
		if r.Error != nil {
			return r.Error
		}
		items = r.Items
		scope = func(k objKey) bool { return k.gvr == g && k.name == rd.Name }
	case "page":
		r := s.Query(g, store.Query{Paginate: page.Paginate{Page: 1, PageSize: 10000, Sort: "name, namespace, cluster"}})
		if r.Error != nil {
			return r.Error
		}
		items = r.Items
		prev := ""
		for i, it := range items {
			p := strings.SplitN(strings.SplitN(ident(it), "@", 2)[0], "|", 3)
			if len(p) != 3 {
				continue
			}
			if i > 0 && p[2] < prev {
				return fmt.Errorf("the page is not in order: %v", idents(items))
			}
			prev = p[2]
		}
	}
	hi := make([]int, len(done))
	for i := range started {
		hi[i] = int(started[i].Load())
	}
	for _, it := range items {
		if err := whole(it); err != nil {
			return err
		}
		if rd.Marshal {
			if _, err := json.Marshal(it); err != nil {
				return err
			}
		}
		id := ident(it)
		at := strings.LastIndex(id, "@")
		p := strings.SplitN(id[:at], "|", 3)
		k := objKey{g, p[0], p[1], p[2]}
		h := hist[k]
		if h == nil || !scope(k) {
			return fmt.Errorf("got %s, which was not asked for", id)
		}
		if _, ok := saw[k]; ok {
			return fmt.Errorf("%s is listed twice", id)
		}
		saw[k] = id[at+1:]
		v := 0
		_, _ = fmt.Sscan(saw[k], &v)
		if v < last[k] {
			return fmt.Errorf("got %s after version %d had been read", id, last[k])
		}
		last[k] = v
	}
	for k, h := range hist {
		if !scope(k) {
			continue
		}
		if !h.allows(saw[k], lo[h.writer], hi[h.writer]) {
			what := "version " + saw[k]
			if saw[k] == "" {
				what = "nothing"
			}
			return fmt.Errorf("%v: got %s, but between the start and the end of the read (operations %d to %d of its writer) it was %q", k, what, lo[h.writer], hi[h.writer], h.at[lo[h.writer]:hi[h.writer]+1])
		}
	}
	return nil
}

func classifyC21(c c21Case) (bool, []string) {
	ops, busy := 0, 0
	labels := []string{fmt.Sprintf("readers=%d", len(c.Readers)), fmt.Sprintf("writers=%d", len(c.Writers))}
	for _, w := range c.Writers {
		ops += len(w)
		if len(w) > 3 {
			busy++
		}
	}
	return busy >= 2, append(labels, sizeClass("writes", ops), fmt.Sprintf("rounds=%d", c.Rounds))
}

func init() {
	vk.Register(&vk.Property{
		ID: "C21",
		Parts: []*vk.Part{vk.New(vk.Part{
			Name:  "concurrent",
			Rule:  "1-2 resources in 1-3 clusters, each with a writer of 0-40 notifications, and 1-4 readers repeating 1-12 single reads, lists, searches and sorted pages, all at once under the race detector; every read must show each object in a state it had between the start and the end of the read, whole, once, and never older than before; the end state is compared with the model; non-trivial with two writers of more than three notifications",
			Quick: 1000, Thorough: 40000, ReplayRuns: 200,
		}, vk.Def[c21Case]{Gen: genC21, Check: checkC21, Classify: classifyC21})},
		Assumptions: []string{"each resource and cluster has one writer, as in the watcher", "interleavings are those the scheduler makes under the race detector; the schedule is not part of a replay file, which re-runs its case many times"},
	})
}

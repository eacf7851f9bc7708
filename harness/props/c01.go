package props

import (
	"fmt"
	"sort"

	"ckverif/vk"

	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/store/memory"
	"pgregory.net/rapid"
)

// ---- a reference cache, shared by several properties ------------------------

type objKey struct {
	gvr               GVR
	cluster, ns, name string
}

type model map[objKey]Obj

func (m model) wipe(g GVR, cluster string) {
	for k := range m {
		if k.gvr == g && k.cluster == cluster {
			delete(m, k)
		}
	}
}

func (m model) ident(k objKey) string {
	return fmt.Sprintf("%s|%s|%s@%d", k.cluster, k.ns, k.name, m[k].V)
}

// list is the sorted identities of the live objects of a resource ("" = every namespace).
func (m model) list(g GVR, ns string) []string {
	out := []string{}
	for k := range m {
		if k.gvr == g && (ns == "" || k.ns == ns) {
			out = append(out, m.ident(k))
		}
	}
	sort.Strings(out)
	return out
}

type storeOp struct {
	Op      string `json:"op"` // add mod del clean
	R       int    `json:"r"`  // index into the resources of the case
	Cluster string `json:"cluster"`
	Obj     Obj    `json:"obj,omitempty"`
}

func (op storeOp) apply(s store.Store, m model, g GVR) {
	k := objKey{g, op.Cluster, op.Obj.NS, op.Obj.Name}
	switch op.Op {
	case "add":
		_ = s.OnResourceAdded(g, op.Cluster, op.Obj.Build())
		m[k] = op.Obj
	case "mod":
		_ = s.OnResourceModified(g, op.Cluster, op.Obj.Build())
		m[k] = op.Obj
	case "del":
		_ = s.OnResourceDeleted(g, op.Cluster, op.Obj.Build())
		delete(m, k)
	case "clean":
		_ = s.Clean(g, op.Cluster)
		m.wipe(g, op.Cluster)
	}
}

func genOp(t *rapid.T, resources, i int, clusters, nss, names []string) storeOp {
	op := storeOp{
		Op:      pick(t, "op", "add", "add", "add", "add", "mod", "mod", "del", "del", "del", "clean"),
		R:       intIn(t, "r", 0, resources-1),
		Cluster: pick(t, "cluster", clusters...),
	}
	if op.Op == "clean" {
		if chance(t, "unknown cluster", 15) {
			op.Cluster = "nowhere"
		}
		return op
	}
	op.Obj = Obj{
		NS: pick(t, "ns", nss...), Name: pick(t, "name", names...), V: i,
		Deleted: chance(t, "deleted", 10), Custom: chance(t, "custom", 40),
		RV: pick(t, "rv", "", "1", "2", "10", "9"), UID: pick(t, "uid", "", "u1", "u2"),
	}
	if chance(t, "stale", 10) {
		op.Obj.Annos = map[string]string{ClusterAnno: "c2", IndexAnno: `{"name":"zzz"}`}
	}
	return op
}

type c01Case struct {
	// which index keys are configured per resource
	Index    []map[string]string `json:"index"`
	Ops      []storeOp           `json:"ops"`
	Clusters []string            `json:"clusters"`
	NSs      []string            `json:"nss"`
	Names    []string            `json:"names"`
}

var c01Resources = []GVR{gvrPods, gvrDeploys, gvrDeploysB, gvrPodsX, {Version: "v2", Resource: "pods"}}

// subset draws a non-empty subset, mostly small.
func subset(t *rapid.T, label string, from []string, max int) []string {
	n := intIn(t, label+" n", 1, max)
	p := rapid.Permutation(from).Draw(t, label)
	if n > len(p) {
		n = len(p)
	}
	return p[:n]
}

func genIndexSimple(t *rapid.T) map[string]string {
	return pick(t, "index",
		baseIndex(),
		map[string]string{},
		map[string]string{"name": "{.metadata.name}"},
		map[string]string{"uid": "{.metadata.uid}", "namespace": "{.metadata.namespace}"},
		map[string]string{"namespace": "fixed", "name": "other"},
		map[string]string{"name": "{.metadata.labels.app}", "cluster": "mine", "is_deleted": "maybe"},
		map[string]string{"namespace": "{{ .metadata.namespace }}", "name": "{{ .metadata.name }}"},
	)
}

func genC01(t *rapid.T) c01Case {
	n := intIn(t, "resources", 1, 3)
	c := c01Case{Clusters: subset(t, "clusters", poolClusters, 3), NSs: subset(t, "nss", poolNS, 3), Names: subset(t, "names", poolNames, 4)}
	for i := 0; i < n; i++ {
		c.Index = append(c.Index, genIndexSimple(t))
	}
	nops := intIn(t, "nops", 1, 40)
	for i := 0; i < nops; i++ {
		c.Ops = append(c.Ops, genOp(t, n, i+1, c.Clusters, c.NSs, c.Names))
	}
	return c
}

// genC01Bulk makes histories over hundreds of objects: fill, then disturb.
func genC01Bulk(t *rapid.T) c01Case {
	c := c01Case{Index: []map[string]string{baseIndex(), baseIndex()}, Clusters: subset(t, "clusters", poolClusters, 2), NSs: subset(t, "nss", poolNS, 2)}
	n := intIn(t, "objects", 20, 130)
	for i := 0; i < n; i++ {
		c.Names = append(c.Names, fmt.Sprintf("o-%d", i))
	}
	v := 0
	for _, cl := range c.Clusters {
		for _, ns := range c.NSs {
			for i := 0; i < n; i++ {
				v++
				c.Ops = append(c.Ops, storeOp{Op: "add", R: i % 2, Cluster: cl, Obj: Obj{NS: ns, Name: c.Names[i], V: v}})
			}
		}
	}
	for i := intIn(t, "nops", 1, 20); i > 0; i-- {
		v++
		c.Ops = append(c.Ops, genOp(t, 2, v, c.Clusters, c.NSs, c.Names))
	}
	return c
}

func checkC01Bulk(_ *vk.Env, c c01Case) error {
	conf := map[GVR]map[string]string{}
	for i, ix := range c.Index {
		conf[c01Resources[i]] = ix
	}
	s := newStore(conf)
	m := model{}
	for _, op := range c.Ops {
		op.apply(s, m, c01Resources[op.R])
	}
	return compareStore(s, m, conf, c.Clusters, c.NSs, c.Names)
}

func newStore(index map[GVR]map[string]string) store.Store { return memory.NewMemoryStore(index) }

func checkC01(_ *vk.Env, c c01Case) error {
	conf := map[GVR]map[string]string{}
	for i, ix := range c.Index {
		conf[c01Resources[i]] = ix
	}
	s := newStore(conf)
	for _, g := range c01Resources {
		if _, want := conf[g]; s.IsStoreGVR(g) != want {
			return fmt.Errorf("IsStoreGVR(%v) = %v, configured %v", g, !want, want)
		}
	}
	m := model{}
	for i, op := range c.Ops {
		op.apply(s, m, c01Resources[op.R])
		if err := compareStore(s, m, conf, c.Clusters, c.NSs, c.Names); err != nil {
			return fmt.Errorf("after step %d (%s): %w", i+1, short(op), err)
		}
	}
	return nil
}

func compareStore(s store.Store, m model, conf map[GVR]map[string]string, clusters, nss, names []string) error {
	for _, g := range c01Resources {
		if _, ok := conf[g]; !ok {
			continue
		}
		for _, cl := range append([]string{"nowhere"}, clusters...) {
			for _, ns := range nss {
				for _, name := range names {
					k := objKey{g, cl, ns, name}
					got := s.Get(g, cl, ns, name)
					if _, ok := m[k]; !ok {
						if got != nil {
							return fmt.Errorf("Get(%v) returned %s, but no such object is live", k, ident(got))
						}
						continue
					}
					if got == nil {
						return fmt.Errorf("Get(%v) returned nothing, want %s", k, m.ident(k))
					}
					if ident(got) != m.ident(k) {
						return fmt.Errorf("Get(%v) returned %s, want %s", k, ident(got), m.ident(k))
					}
				}
			}
		}
		for _, ns := range append([]string{"", "absent"}, nss...) {
			r := s.Query(g, store.Query{Namespace: ns, Paginate: page.Paginate{}})
			if r.Error != nil {
				return fmt.Errorf("listing %v in %q: %v", g, ns, r.Error)
			}
			want := m.list(g, ns)
			got := sortedCopy(idents(r.Items))
			if !eqStrings(got, want) {
				return fmt.Errorf("listing %v in namespace %q: got %v, want %v", g, ns, got, want)
			}
			if r.Total != int64(len(want)) {
				return fmt.Errorf("listing %v in namespace %q: total %d, want %d", g, ns, r.Total, len(want))
			}
		}
	}
	return nil
}

func classifyC01(c c01Case) (bool, []string) {
	labels := []string{sizeClass("ops", len(c.Ops)), fmt.Sprintf("resources=%d", len(c.Index))}
	added := map[string]bool{}
	redo, wiped := false, false
	gone := map[string]bool{}
	for _, op := range c.Ops {
		k := fmt.Sprint(op.R, op.Cluster, "|", op.Obj.NS, "|", op.Obj.Name)
		switch op.Op {
		case "add", "mod":
			if gone[k] {
				redo = true
			}
			added[k] = true
		case "del":
			if added[k] {
				gone[k] = true
			}
		case "clean":
			if len(added) > 0 {
				wiped = true
			}
		}
	}
	if redo {
		labels = append(labels, "delete-then-readd")
	}
	if wiped {
		labels = append(labels, "wipe-after-add")
	}
	if len(gone) > 0 {
		labels = append(labels, "delete-of-live")
	}
	return len(gone) > 0 || wiped, labels
}

func init() {
	vk.Register(&vk.Property{
		ID: "C01",
		Parts: []*vk.Part{vk.New(vk.Part{
			Name:  "history",
			Rule:  "histories of 1-40 add/modify/delete/wipe notifications over 1-3 resources, 1-3 clusters, 1-3 namespaces and 1-4 names, compared with a map model after every step; non-trivial when a live object is deleted or a non-empty cache is wiped",
			Quick: 12000, Thorough: 400000,
		}, vk.Def[c01Case]{Gen: genC01, Check: checkC01, Classify: classifyC01}), vk.New(vk.Part{
			Name:  "bulk",
			Rule:  "20-130 objects in every namespace of every cluster over two resources, then 1-20 further notifications, compared at the end; non-trivial as above",
			Quick: 120, Thorough: 3000,
		}, vk.Def[c01Case]{Gen: genC01Bulk, Check: checkC01Bulk, Classify: classifyC01})},
		Assumptions: []string{"notifications are for configured resources and carry a fresh object each, as the watcher delivers them"},
	})
}

package props

import (
	"context"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"

	"ckverif/vk"

	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/pkg/client/fake"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/labels"
	"k8s.io/client-go/kubernetes"
	"pgregory.net/rapid"
)

type c26Op struct {
	Op       string                 `json:"op"` // create, update, touch, delete, get, list, clean
	Res      int                    `json:"res"`
	Cluster  string                 `json:"cluster,omitempty"` // none is the default one
	NS       string                 `json:"ns,omitempty"`
	Name     string                 `json:"name,omitempty"`
	Doc      map[string]interface{} `json:"doc,omitempty"`
	Typed    bool                   `json:"typed,omitempty"` // by the typed client, only for pods
	Clusters []string               `json:"clusters,omitempty"`
	Selector string                 `json:"selector,omitempty"`
	Sort     string                 `json:"sort,omitempty"`
	Search   string                 `json:"search,omitempty"` // part of a name
	Page     int64                  `json:"page,omitempty"`
	Size     int64                  `json:"size,omitempty"`
	Opts     string                 `json:"opts,omitempty"` // other options
}

type c26Case struct {
	Ops []c26Op `json:"ops"`
}

var c26Resources = []GVR{gvrPods, gvrDeploys, gvrWidgets, gvrPodsX, gvrDeploysB}
var c26Kinds = []string{"Pod", "Deployment", "Widget", "Pod", "Deployment"}
var c26Clusters = []string{"", "c1", "c2", "default", "c1-x", "C1"}
var c26Names = []string{"web-1", "web-10", "web-2", "x", "x.y"}

func genC26(t *rapid.T) c26Case {
	c := c26Case{}
	clusters, names, nss := subset(t, "clusters", c26Clusters, 3), subset(t, "names", c26Names, 3), subset(t, "nss", []string{"a", "a-b", "ab", "b", "default"}, 2)
	resources := subset(t, "resources", []string{"0", "1", "2", "3", "4"}, 3)
	live := map[string]bool{}
	for i := intIn(t, "ops", 1, 40); i > 0; i-- {
		op := c26Op{Op: pick(t, "op", "create", "create", "create", "create", "update", "update", "touch", "delete", "delete", "get", "get", "list", "list", "list")}
		if chance(t, "clean", 2) {
			op.Op = "clean"
		}
		fmt.Sscan(pickFrom(t, "resource", resources), &op.Res)
		op.Cluster, op.NS, op.Name = pickFrom(t, "cluster", clusters), pickFrom(t, "ns", nss), pickFrom(t, "name", names)
		if op.Res == 2 && chance(t, "cluster scoped", 15) {
			op.NS = ""
		}
		op.Typed = op.Res == 0 && chance(t, "typed", 60)
		id := func() string { return fmt.Sprint(op.Res, op.Cluster, op.NS, op.Name) }
		if (op.Op == "update" || op.Op == "delete" || op.Op == "get" || op.Op == "touch") && !live[id()] && chance(t, "of an existing one", 60) {
			for _, n := range names { // rather one that exists
				op.Name = n
				if live[id()] {
					break
				}
			}
		}
		switch op.Op {
		case "create", "update":
			meta := genMeta(t, op.Name)
			delete(meta, "namespace")
			if op.NS != "" {
				meta["namespace"] = op.NS
			}
			if l := genLabels(t); len(l) > 0 {
				meta["labels"] = l
			}
			op.Doc = map[string]interface{}{"metadata": meta}
			if op.Res == 0 {
				op.Doc["kind"], op.Doc["apiVersion"] = "Pod", "v1"
				op.Doc["spec"] = map[string]interface{}{"nodeName": pick(t, "node", "", "n1", "n2"), "hostname": pick(t, "host", "", "h")}
			} else {
				op.Doc["kind"], op.Doc["apiVersion"] = c26Kinds[op.Res], strings.TrimPrefix(c26Resources[op.Res].Group+"/"+c26Resources[op.Res].Version, "/")
				for j := intIn(t, "top", 0, 3); j > 0; j-- {
					op.Doc[pick(t, "top field", "spec", "status", "data", "Data", "items", "日", "size")] = genValue(t, 2)
				}
			}
			if op.Op == "create" {
				live[id()] = true
			}
		case "delete":
			delete(live, id())
			op.Opts = pick(t, "delete options", "", "", "", "grace", "now", "propagation", "all")
		case "list":
			if chance(t, "all namespaces", 60) {
				op.NS = ""
			}
			op.Cluster, op.Name = "", ""
			if chance(t, "clusters", 70) {
				op.Clusters = subset(t, "of", []string{"c1", "c2", "default", "c1-x", "C1", "none"}, 4)
			}
			if chance(t, "selector", 30) {
				op.Selector = genLabelSelector(t, 2)
			}
			if chance(t, "sorted", 50) {
				op.Sort = pick(t, "sort", "name,namespace,cluster", "cluster desc,namespace desc,name desc", "namespace, name desc, cluster")
				if chance(t, "paged", 50) {
					op.Page, op.Size = int64(intIn(t, "page", 1, 3)), int64(intIn(t, "size", 1, 4))
				}
			}
			if chance(t, "timeout", 15) {
				op.Opts = "timeout"
			}
			if chance(t, "search", 30) {
				op.Search = pick(t, "needle", "web", "1", "x", "web-1", "zz")
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

type c26Model map[string]interface{} // resource|cluster|namespace|name to document

type c26World struct {
	ser fake.CkubeServer
	cli *kubernetes.Clientset
	// versions are given by an API server, and not compared
	versions bool
}

var c26World1 *c26World

var ports = struct {
	sync.Mutex
	file *os.File
	next int
	held map[int]bool
}{next: os.Getpid() * 37, held: map[int]bool{}}

// freeAddr is an address that nobody else uses while it is held: no other case, no worker of this or another check (a
// lock on a byte of a file says so), and no connection, as it may happen to one found by listening to port 0.
func freeAddr() (string, func()) {
	ports.Lock()
	defer ports.Unlock()
	if ports.file == nil {
		f, err := os.OpenFile(filepath.Join(os.TempDir(), "ckv-ports.lock"), os.O_RDWR|os.O_CREATE, 0o666)
		must(err)
		ports.file = f
	}
	for try := 0; try < 40000; try++ {
		port := 12000 + ports.next%20000
		ports.next++
		lock := syscall.Flock_t{Type: syscall.F_WRLCK, Whence: 0, Start: int64(port), Len: 1}
		if ports.held[port] || syscall.FcntlFlock(ports.file.Fd(), syscall.F_SETLK, &lock) != nil {
			continue
		}
		free := func() {
			lock.Type = syscall.F_UNLCK
			_ = syscall.FcntlFlock(ports.file.Fd(), syscall.F_SETLK, &lock)
		}
		addr := fmt.Sprintf("127.0.0.1:%d", port)
		// no program is started meanwhile: until its exec it would have the socket, too, and keep the address in use
		syscall.ForkLock.RLock()
		l, err := net.Listen("tcp", addr)
		if err == nil {
			_ = l.Close()
		}
		syscall.ForkLock.RUnlock()
		if err != nil {
			free()
			continue
		}
		ports.held[port] = true
		return addr, func() {
			ports.Lock()
			defer ports.Unlock()
			delete(ports.held, port)
			free()
		}
	}
	panic("no free address")
}

func setupC26() error {
	addr, _ := freeAddr()
	proxies := []interface{}{}
	for i, g := range c26Resources {
		proxies = append(proxies, map[string]interface{}{"group": g.Group, "version": g.Version, "resource": g.Resource, "list_kind": c26Kinds[i] + "List",
			"index": map[string]string{"namespace": "{.metadata.namespace}", "name": "{.metadata.name}", "labels": "{.metadata.labels}"}})
	}
	conf, err := json.Marshal(map[string]interface{}{"proxies": proxies})
	if err != nil {
		return err
	}
	s, err := fake.NewFakeCKubeServer(addr, string(conf))
	if err != nil {
		return err
	}
	kc := s.GetKubeConfig()
	kc.QPS, kc.Burst = 1e6, 1e6
	cli, err := kubernetes.NewForConfig(kc)
	if err != nil {
		return err
	}
	c26World1 = &c26World{ser: s, cli: cli}
	return nil
}

// run performs one operation, and returns the document or documents it answers with.
func (w *c26World) run(op c26Op, doc interface{}) (interface{}, error) {
	ctx := context.Background()
	g := c26Resources[op.Res]
	pods := w.cli.CoreV1().Pods(op.NS)
	rc := w.cli.CoreV1().RESTClient()
	path := collectionPath(g, op.NS)
	raw := func(b []byte, err error) (interface{}, error) {
		if err != nil {
			return nil, err
		}
		return parseJSON(b)
	}
	typed := func(p interface{}, err error) (interface{}, error) {
		if err != nil {
			return nil, err
		}
		return mustJSON(p), nil
	}
	var pod corev1.Pod
	var body []byte
	if doc != nil {
		b, err := json.Marshal(doc)
		must(err)
		body = b
		if op.Typed {
			must(json.Unmarshal(b, &pod))
		}
	}
	switch op.Op {
	case "create":
		o := metav1.CreateOptions{}
		if op.Cluster != "" {
			x, err := page.QueryCreateOptions(o, op.Cluster)
			must(err)
			o = x
		}
		if op.Typed {
			return typed(pods.Create(ctx, &pod, o))
		}
		r := rc.Post().AbsPath(path).Body(body).SetHeader("Content-Type", "application/json")
		if o.FieldManager != "" {
			r = r.Param("fieldManager", o.FieldManager)
		}
		return raw(r.DoRaw(ctx))
	case "update":
		o := metav1.UpdateOptions{}
		if op.Cluster != "" {
			x, err := page.QueryUpdateOptions(o, op.Cluster)
			must(err)
			o = x
		}
		if op.Typed {
			return typed(pods.Update(ctx, &pod, o))
		}
		r := rc.Put().AbsPath(path, op.Name).Body(body).SetHeader("Content-Type", "application/json")
		if o.FieldManager != "" {
			r = r.Param("fieldManager", o.FieldManager)
		}
		return raw(r.DoRaw(ctx))
	case "delete":
		o := metav1.DeleteOptions{}
		grace, policy, orphan := int64(30), metav1.DeletePropagationForeground, false
		switch op.Opts {
		case "grace":
			o.GracePeriodSeconds = &grace
		case "now":
			grace = 0
			o.GracePeriodSeconds = &grace
		case "propagation":
			o.PropagationPolicy = &policy
		case "all":
			o.GracePeriodSeconds, o.OrphanDependents = &grace, &orphan
			o.Kind, o.APIVersion = "DeleteOptions", "v1"
		}
		if op.Cluster != "" {
			x, err := page.QueryDeleteOptions(o, op.Cluster)
			must(err)
			o = x
		}
		if op.Typed {
			return nil, pods.Delete(ctx, op.Name, o)
		}
		b, err := json.Marshal(o)
		must(err)
		_, err = rc.Delete().AbsPath(path, op.Name).Body(b).SetHeader("Content-Type", "application/json").DoRaw(ctx)
		return nil, err
	case "get":
		o := metav1.GetOptions{}
		if op.Cluster != "" {
			x, err := page.QueryGetOptions(o, op.Cluster)
			must(err)
			o = x
		}
		if op.Typed {
			return typed(pods.Get(ctx, op.Name, o))
		}
		r := rc.Get().AbsPath(path, op.Name)
		if o.ResourceVersion != "" {
			r = r.Param("resourceVersion", o.ResourceVersion)
		}
		return raw(r.DoRaw(ctx))
	case "list":
		p := page.Paginate{Page: op.Page, PageSize: op.Size, Sort: op.Sort}
		if op.Search != "" {
			p.Search = "name=" + op.Search
		}
		if op.Clusters != nil {
			must(p.Clusters(op.Clusters))
		}
		o, err := page.QueryListOptions(metav1.ListOptions{LabelSelector: op.Selector}, p)
		must(err)
		if op.Typed {
			if op.Opts == "timeout" {
				n := int64(20)
				o.TimeoutSeconds = &n
			}
			return typed(pods.List(ctx, o))
		}
		r := rc.Get().AbsPath(path)
		if o.LabelSelector != "" {
			r = r.Param("labelSelector", o.LabelSelector)
		}
		return raw(r.DoRaw(ctx))
	}
	panic("unknown operation " + op.Op)
}

// plainDoc is a document without what the server may add, and in the shape a typed client has it.
func plainDoc(doc interface{}, typed bool) interface{} {
	d := wantDoc(doc)
	if typed {
		b, err := json.Marshal(d)
		must(err)
		p := corev1.Pod{}
		must(json.Unmarshal(b, &p))
		p.TypeMeta = metav1.TypeMeta{}
		d = wantDoc(&p)
	}
	return d
}

func (w *c26World) same(what string, got, want interface{}, typed bool) error {
	g, x := plainDoc(got, typed), plainDoc(want, typed)
	if w.versions {
		g, x = unversioned(g), unversioned(x)
	}
	if d := diffJSON("", g, x); d != "" {
		return fmt.Errorf("%s: %s", what, d)
	}
	return nil
}

func (op c26Op) cluster() string {
	if op.Cluster == "" {
		return "default"
	}
	return op.Cluster
}

func (op c26Op) key() string { return fmt.Sprintf("%d|%s|%s|%s", op.Res, op.cluster(), op.NS, op.Name) }

func docLabels(doc interface{}) labels.Set {
	set := labels.Set{}
	meta, _ := doc.(map[string]interface{})["metadata"].(map[string]interface{})
	l, _ := meta["labels"].(map[string]interface{})
	for k, v := range l {
		set[k], _ = v.(string)
	}
	return set
}

// expect is what a list answers, sorted as it asks, else by name.
func (m c26Model) expect(op c26Op) []string {
	clusters := op.Clusters
	if clusters == nil {
		clusters = []string{"default"}
	}
	sel, err := labels.Parse(op.Selector)
	must(err)
	keys := []string{}
	for k, doc := range m {
		p := strings.Split(k, "|")
		if p[0] != fmt.Sprint(op.Res) || !contains(clusters, p[1]) || op.NS != "" && p[2] != op.NS || !strings.Contains(p[3], op.Search) || !sel.Matches(docLabels(doc)) {
			continue
		}
		keys = append(keys, k)
	}
	order := op.Sort
	if order == "" {
		order = "cluster,namespace,name"
	}
	at := map[string]int{"cluster": 1, "namespace": 2, "name": 3}
	sort.Slice(keys, func(i, j int) bool {
		a, b := strings.Split(keys[i], "|"), strings.Split(keys[j], "|")
		for _, s := range strings.Split(order, ",") {
			f := strings.Fields(s)
			x, y := a[at[f[0]]], b[at[f[0]]]
			if x != y {
				return (x < y) != (len(f) > 1)
			}
		}
		return false
	})
	return keys
}

func (w *c26World) list(m c26Model, op c26Op) error {
	got, err := w.run(op, nil)
	all := m.expect(op)
	want := wantPage(all, op.Page, op.Size)
	if err != nil {
		if len(want) == 0 && op.Page > 1 && op.Size > 0 {
			return nil // a page after the last one
		}
		return fmt.Errorf("list: %w", err)
	}
	items, _ := got.(map[string]interface{})["items"].([]interface{})
	ids := []string{}
	for _, it := range items {
		meta, _ := it.(map[string]interface{})["metadata"].(map[string]interface{})
		annos, _ := meta["annotations"].(map[string]interface{})
		id := fmt.Sprintf("%d|%v|%s|%s", op.Res, annos[ClusterAnno], metaOf(it, "namespace"), metaOf(it, "name"))
		ids = append(ids, id)
		if doc, ok := m[id]; ok {
			if err := w.same("an item of a list, "+id, it, doc, op.Res == 0); err != nil {
				return err
			}
		}
	}
	if op.Sort == "" {
		sort.Strings(ids)
		sort.Strings(want)
	}
	if !eqStrings(ids, want) {
		return fmt.Errorf("list: got %q, want %q", ids, want)
	}
	return nil
}

func checkC26(_ *vk.Env, c c26Case) error {
	w := c26World1
	w.ser.Clean()
	m := c26Model{}
	for i, op := range c.Ops {
		if err := w.step(m, op); err != nil {
			return fmt.Errorf("operation %d (%s): %w", i+1, short(op), err)
		}
	}
	// everything there is
	for r := range c26Resources {
		op := c26Op{Op: "list", Res: r, Clusters: []string{"c1", "c2", "default", "c1-x", "C1", "none"}}
		if err := w.list(m, op); err != nil {
			return fmt.Errorf("at the end: %w", err)
		}
	}
	return nil
}

func (w *c26World) step(m c26Model, op c26Op) error {
	old, exists := m[op.key()]
	switch op.Op {
	case "clean":
		w.ser.Clean()
		for k := range m {
			delete(m, k)
		}
		return nil
	case "list":
		return w.list(m, op)
	case "touch": // what one has read is changed and written
		read := op
		read.Op = "get"
		doc, err := w.run(read, nil)
		if (err == nil) != exists {
			return fmt.Errorf("get: %v, and the object exists: %v", err, exists)
		}
		if err != nil {
			return nil
		}
		meta := doc.(map[string]interface{})["metadata"].(map[string]interface{})
		l, _ := meta["labels"].(map[string]interface{})
		if l == nil {
			l = map[string]interface{}{}
		}
		l["tier"] = "touched"
		meta["labels"] = l
		op.Op = "update"
		got, err := w.run(op, doc)
		if err != nil {
			return err
		}
		want := wantDoc(old).(map[string]interface{})
		wm := want["metadata"].(map[string]interface{})
		wl, _ := wm["labels"].(map[string]interface{})
		if wl == nil {
			wl = map[string]interface{}{}
		}
		wl["tier"] = "touched"
		wm["labels"] = wl
		if op.Res == 0 {
			want = plainDoc(want, true).(map[string]interface{})
		}
		m[op.key()] = want
		return w.same("update", got, want, op.Res == 0)
	}
	got, err := w.run(op, op.Doc)
	wantOK := exists != (op.Op == "create")
	if (err == nil) != wantOK {
		return fmt.Errorf("the error is %v, and the object exists: %v", err, exists)
	}
	if err != nil {
		return nil
	}
	switch op.Op {
	case "create", "update":
		m[op.key()] = wantDoc(op.Doc)
		if op.Res == 0 {
			m[op.key()] = plainDoc(op.Doc, true)
		}
		return w.same(op.Op, got, m[op.key()], op.Res == 0)
	case "get":
		return w.same("get", got, old, op.Res == 0)
	case "delete":
		delete(m, op.key())
	}
	return nil
}

func classifyC26(c c26Case) (bool, []string) {
	labels := []string{sizeClass("ops", len(c.Ops))}
	n := map[string]int{}
	used := map[string]bool{}
	for _, op := range c.Ops {
		n[op.Op]++
		if op.Op == "create" {
			used["cluster "+op.cluster()] = true
		}
		if op.Typed {
			used["typed client"] = true
		}
		if op.Page > 0 {
			used["paged"] = true
		}
	}
	for k := range n {
		labels = append(labels, k)
	}
	for k := range used {
		labels = append(labels, k)
	}
	return n["create"] > 0 && n["get"]+n["list"] > 0 && n["update"]+n["delete"]+n["touch"] > 0, labels
}

func init() {
	doc := func(spec interface{}) map[string]interface{} {
		return map[string]interface{}{"kind": "Widget", "apiVersion": "example.io/v1", "metadata": map[string]interface{}{"name": "x", "namespace": "a"}, "spec": spec}
	}
	vk.Register(&vk.Property{
		ID: "C26",
		Setup: func(*vk.Env) error {
			quietStdout()
			return setupC26()
		},
		Teardown: func(*vk.Env) { c26World1.ser.Stop() },
		Parts: []*vk.Part{vk.New(vk.Part{Name: "histories", Quick: 1500, Thorough: 60000, MaxShards: 6,
			Rule: "random histories of 1-40 creates, updates (also of what was read), deletes, gets, lists (clusters, namespaces, selectors, sorts, pages, searches) and cleanings over three resources, through the typed client and raw requests of client-go, compared with a map after each operation; non-trivial with a create, a later kind of write and a read",
		}, vk.Def[c26Case]{Gen: genC26, Check: checkC26, Classify: classifyC26, Fixed: []c26Case{
			{Ops: []c26Op{{Op: "create", Res: 2, NS: "a", Name: "x", Doc: doc("one")}, {Op: "list", Res: 2}, {Op: "get", Res: 2, NS: "a", Name: "x"}}},
		}})},
		Assumptions: []string{"operations follow one another", "no patches, generated names, subresources or deletions of collections, which the fake server does not have", "which kind of error an error is, is left open"},
	})
}

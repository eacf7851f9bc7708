package props

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"ckverif/vk"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/page"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/labels"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/types"
	"k8s.io/client-go/dynamic"
	"k8s.io/client-go/dynamic/dynamicinformer"
	"k8s.io/client-go/kubernetes"
	"k8s.io/client-go/rest"
	"k8s.io/client-go/tools/cache"
	"pgregory.net/rapid"
)

// c36Op is one operation of a client, or of somebody else.
type c36Op struct {
	c26Op
	Direct bool   `json:"direct,omitempty"` // written at the API server by somebody else
	Break  string `json:"break,omitempty"`  // instead: the cluster's streams end or break
	Wait   bool   `json:"wait,omitempty"`   // until everything is seen
}

type c36Case struct {
	Before    int           `json:"before,omitempty"` // operations that happen before the program starts; they are direct
	Ops       []c36Op       `json:"ops"`
	Informers []c36Informer `json:"informers,omitempty"`
}

// c36Informer is an informer of client-go, started before an operation.
type c36Informer struct {
	At      int    `json:"at"`
	Res     int    `json:"res"`
	Cluster string `json:"cluster,omitempty"` // nobody names the default one
	NS      string `json:"ns,omitempty"`
}

var c36Clusters = []string{"default", "c1", "c2", "c1-x", "C1"} // those of c26Clusters

func genC36(t *rapid.T) c36Case {
	c := c36Case{}
	breaks := 0
	for _, op := range genC26(t).Ops {
		switch {
		case op.Op == "clean":
			continue
		case op.Res == 1:
			op.Res = 2
		case op.Res == 4:
			op.Res = 3
		}
		if op.Doc != nil && op.Op != "patch" {
			op.Doc["kind"], op.Doc["apiVersion"] = c26Kinds[op.Res], strings.TrimPrefix(c26Resources[op.Res].Group+"/"+c26Resources[op.Res].Version, "/")
		}
		if op.Op == "list" {
			for i, x := range op.Clusters {
				if x == "none" {
					op.Clusters = append(append([]string{}, op.Clusters[:i]...), op.Clusters[i+1:]...)
					break
				}
			}
			if len(op.Clusters) == 0 {
				op.Clusters = nil
			}
		}
		switch {
		case op.Op == "update" && chance(t, "patch instead", 40):
			op.Op = "patch"
			l := map[string]interface{}{}
			for i := intIn(t, "patched labels", 1, 2); i > 0; i-- {
				l[pick(t, "patched label", "tier", "app", "new")] = pick[interface{}](t, "patch", "patched", "web", nil)
			}
			op.Doc = map[string]interface{}{"metadata": map[string]interface{}{"labels": l}}
		case op.Op == "delete" && op.NS != "" && chance(t, "purge instead", 30):
			op.Op, op.Name, op.Typed = "purge", "", false
			if chance(t, "purge selector", 60) {
				op.Selector = genLabelSelector(t, 1)
			}
		}
		o := c36Op{c26Op: op, Wait: chance(t, "wait", 15)}
		if op.Op == "create" || op.Op == "update" || op.Op == "delete" {
			o.Direct = chance(t, "direct", 30)
		}
		c.Ops = append(c.Ops, o)
		if breaks < 2 && chance(t, "break", 3) {
			breaks++
			c.Ops = append(c.Ops, c36Op{c26Op: c26Op{Op: "break", Cluster: pick(t, "of", c36Clusters...)}, Break: pick(t, "how", "end", "abort")})
		}
	}
	if chance(t, "earlier ones", 50) {
		c.Before = intIn(t, "before", 0, len(c.Ops)/2)
	}
	if chance(t, "with informers", 60) {
		for i := intIn(t, "informers", 1, 3); i > 0; i-- {
			x := c36Informer{At: intIn(t, "informer at", 0, len(c.Ops)), Res: pick(t, "informed resource", 0, 2, 3), Cluster: pick(t, "informed cluster", "", "default", "c1", "c2", "c1-x", "C1")}
			if chance(t, "one namespace", 30) {
				x.NS = pick(t, "informed namespace", "a", "a-b", "ab", "b", "default")
			}
			c.Informers = append(c.Informers, x)
		}
	}
	return c
}

// kubeSim is an API server of one cluster: it has objects, and streams that tell their changes.
type kubeSim struct {
	mu      sync.Mutex
	objs    map[string]map[string]map[string]interface{} // collection path, namespace/name
	version int
	log     []simEvent
	streams map[*simStream]bool
	broken  chan struct{} // closed when streams shall end
	how     string
}

// simEvent is a change; resumed streams begin after the version they name.
type simEvent struct {
	version         int
	collection, key string
	typ             string
	doc             interface{}
}

type simStream struct {
	collection string
	prefix     string // of the keys: a namespace
	mu         sync.Mutex
	queue      [][]byte
	more       chan struct{}
}

func newKubeSim() *kubeSim {
	return &kubeSim{objs: map[string]map[string]map[string]interface{}{}, streams: map[*simStream]bool{}, broken: make(chan struct{})}
}

func (s *simStream) push(typ string, doc interface{}) {
	b, err := json.Marshal(map[string]interface{}{"type": typ, "object": doc})
	must(err)
	s.mu.Lock()
	s.queue = append(s.queue, append(b, '\n'))
	s.mu.Unlock()
	select {
	case s.more <- struct{}{}:
	default:
	}
}

// tell gives a document its version and tells the streams; k.mu is held.
func (k *kubeSim) tell(typ, collection, key string, doc map[string]interface{}) map[string]interface{} {
	k.version++
	doc = mergePatch(doc, map[string]interface{}{"metadata": map[string]interface{}{"resourceVersion": fmt.Sprint(k.version)}}).(map[string]interface{})
	k.log = append(k.log, simEvent{k.version, collection, key, typ, doc})
	for s := range k.streams {
		if s.collection == collection && strings.HasPrefix(key, s.prefix) {
			s.push(typ, doc)
		}
	}
	return doc
}

func (k *kubeSim) breakStreams(how string) {
	k.mu.Lock()
	defer k.mu.Unlock()
	k.how = how
	close(k.broken)
	k.broken = make(chan struct{})
}

// splitPath cuts the path of a collection or an object.
func splitPath(path string) (collection, ns, name string, ok bool) {
	p := strings.Split(strings.TrimPrefix(path, "/"), "/")
	n := 2
	if p[0] == "apis" {
		n = 3
	}
	if len(p) <= n {
		return "", "", "", false
	}
	head, rest := "/"+strings.Join(p[:n], "/"), p[n:]
	if len(rest) > 2 && rest[0] == "namespaces" {
		ns, rest = rest[1], rest[2:]
	}
	if len(rest) > 2 {
		return "", "", "", false
	}
	if len(rest) == 2 {
		name = rest[1]
	}
	return head + "/" + rest[0], ns, name, true
}

// unversioned is a copy of a document without its resource version.
func unversioned(doc interface{}) interface{} {
	d, ok := doc.(map[string]interface{})
	if !ok {
		return doc
	}
	return mergePatch(d, map[string]interface{}{"metadata": map[string]interface{}{"resourceVersion": nil}})
}

// patchedDoc is a document after a merge patch, which keeps no empty labels.
func patchedDoc(old, patch interface{}) map[string]interface{} {
	doc := mergePatch(old, patch).(map[string]interface{})
	meta := doc["metadata"].(map[string]interface{})
	if l, ok := meta["labels"].(map[string]interface{}); ok && len(l) == 0 {
		delete(meta, "labels")
	}
	return doc
}

// mergePatch is RFC 7396.
func mergePatch(doc, patch interface{}) interface{} {
	p, ok := patch.(map[string]interface{})
	if !ok {
		return patch
	}
	out := map[string]interface{}{}
	if d, ok := doc.(map[string]interface{}); ok {
		for k, v := range d {
			out[k] = v
		}
	}
	for k, v := range p {
		if v == nil {
			delete(out, k)
		} else {
			out[k] = mergePatch(out[k], v)
		}
	}
	return out
}

func (k *kubeSim) write(method, collection, ns, name, selector string, body []byte) (int, interface{}) {
	status := func(code int, reason string) (int, interface{}) {
		return code, map[string]interface{}{"kind": "Status", "apiVersion": "v1", "status": "Failure", "reason": reason, "code": code, "message": reason}
	}
	k.mu.Lock()
	defer k.mu.Unlock()
	objs := k.objs[collection]
	if objs == nil {
		objs = map[string]map[string]interface{}{}
		k.objs[collection] = objs
	}
	var doc map[string]interface{}
	if len(body) > 0 {
		v, err := parseJSON(body)
		if err != nil {
			return status(400, "BadRequest")
		}
		doc, _ = v.(map[string]interface{})
	}
	typ := "ADDED"
	switch method {
	case "POST":
		meta, _ := doc["metadata"].(map[string]interface{})
		name, _ = meta["name"].(string)
		if name == "" {
			return status(422, "Invalid")
		}
		if ns != "" {
			meta["namespace"] = ns
		}
		if objs[ns+"/"+name] != nil {
			return status(409, "AlreadyExists")
		}
	case "PUT":
		typ = "MODIFIED"
		if objs[ns+"/"+name] == nil {
			return status(404, "NotFound")
		}
		if doc["metadata"] == nil {
			return status(422, "Invalid")
		}
	case "PATCH":
		typ = "MODIFIED"
		old := objs[ns+"/"+name]
		if old == nil {
			return status(404, "NotFound")
		}
		doc = patchedDoc(old, doc)
	case "DELETE":
		typ = "DELETED"
		success := map[string]interface{}{"kind": "Status", "apiVersion": "v1", "status": "Success"}
		dry, _ := doc["dryRun"].([]interface{})
		if name == "" {
			sel, err := labels.Parse(selector)
			if err != nil {
				return status(400, "BadRequest")
			}
			for x, old := range objs {
				if strings.HasPrefix(x, ns+"/") && sel.Matches(docLabels(old)) && len(dry) == 0 {
					delete(objs, x)
					k.tell(typ, collection, x, old)
				}
			}
			return 200, success
		}
		old := objs[ns+"/"+name]
		if old == nil {
			return status(404, "NotFound")
		}
		if len(dry) > 0 {
			return 200, success
		}
		doc = old
		delete(objs, ns+"/"+name)
	case "GET":
		sel, err := labels.Parse(selector)
		if err != nil {
			return status(400, "BadRequest")
		}
		if name != "" {
			if old := objs[ns+"/"+name]; old != nil {
				return 200, old
			}
			return status(404, "NotFound")
		}
		items := []interface{}{}
		for x, old := range objs {
			if (ns == "" || strings.HasPrefix(x, ns+"/")) && sel.Matches(docLabels(old)) {
				items = append(items, old)
			}
		}
		for i, g := range c26Resources {
			if collectionPath(g, "") == collection {
				return 200, map[string]interface{}{"kind": c26Kinds[i] + "List", "apiVersion": strings.TrimPrefix(g.Group+"/"+g.Version, "/"), "metadata": map[string]interface{}{"resourceVersion": fmt.Sprint(k.version)}, "items": items}
			}
		}
		return status(404, "NotFound")
	default:
		return status(405, "MethodNotAllowed")
	}
	if method != "DELETE" {
		for i, g := range c26Resources { // which clients may leave out
			if collectionPath(g, "") == collection {
				doc["kind"], doc["apiVersion"] = c26Kinds[i], strings.TrimPrefix(g.Group+"/"+g.Version, "/")
			}
		}
	}
	doc = k.tell(typ, collection, ns+"/"+name, doc)
	if method != "DELETE" {
		objs[ns+"/"+name] = doc
	}
	switch method {
	case "POST":
		return 201, doc
	case "DELETE":
		return 200, map[string]interface{}{"kind": "Status", "apiVersion": "v1", "status": "Success"}
	}
	return 200, doc
}

func (k *kubeSim) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	collection, ns, name, ok := splitPath(r.URL.Path)
	w.Header().Set("Content-Type", "application/json")
	if !ok {
		w.WriteHeader(404)
		_, _ = w.Write([]byte(`{"kind":"Status","apiVersion":"v1","status":"Failure","reason":"NotFound","code":404}`))
		return
	}
	if r.URL.Query().Get("watch") != "true" {
		b, _ := io.ReadAll(r.Body)
		code, doc := k.write(r.Method, collection, ns, name, r.URL.Query().Get("labelSelector"), b)
		out, err := json.Marshal(doc)
		must(err)
		w.WriteHeader(code)
		_, _ = w.Write(out)
		return
	}
	s := &simStream{collection: collection, more: make(chan struct{}, 1)}
	if ns != "" {
		s.prefix = ns + "/"
	}
	since, _ := strconv.Atoi(r.URL.Query().Get("resourceVersion"))
	k.mu.Lock()
	if since > 0 {
		for _, e := range k.log {
			if e.version > since && e.collection == collection && strings.HasPrefix(e.key, s.prefix) {
				s.push(e.typ, e.doc)
			}
		}
	} else {
		keys := []string{}
		for x := range k.objs[collection] {
			if strings.HasPrefix(x, s.prefix) {
				keys = append(keys, x)
			}
		}
		sort.Strings(keys)
		for _, x := range keys {
			s.push("ADDED", k.objs[collection][x])
		}
	}
	k.streams[s] = true
	broken := k.broken
	k.mu.Unlock()
	defer func() {
		k.mu.Lock()
		delete(k.streams, s)
		k.mu.Unlock()
	}()
	w.WriteHeader(200)
	w.(http.Flusher).Flush()
	for {
		select {
		case <-s.more:
			s.mu.Lock()
			q := s.queue
			s.queue = nil
			s.mu.Unlock()
			for _, b := range q {
				_, _ = w.Write(b)
			}
			w.(http.Flusher).Flush()
		case <-r.Context().Done():
			return
		case <-broken:
			k.mu.Lock()
			how := k.how
			k.mu.Unlock()
			if how == "abort" {
				panic(http.ErrAbortHandler)
			}
			return
		}
	}
}

const seenLimit = 30 * time.Second

func runC36(tmp string, c c36Case) error {
	dir, err := os.MkdirTemp(tmp, "c36-")
	must(err)
	defer os.RemoveAll(dir)
	sims := map[string]*kubeSim{}
	contexts, clusters := []interface{}{}, []interface{}{}
	for _, name := range c36Clusters {
		sim := newKubeSim()
		sims[name] = sim
		s := httptest.NewServer(sim)
		defer func() { s.CloseClientConnections(); go s.Close() }()
		contexts = append(contexts, map[string]interface{}{"name": name, "context": map[string]interface{}{"cluster": "k-" + name, "user": "u"}})
		clusters = append(clusters, map[string]interface{}{"name": "k-" + name, "cluster": map[string]interface{}{"server": s.URL}})
	}
	kube, err := json.Marshal(map[string]interface{}{"apiVersion": "v1", "kind": "Config", "current-context": "default", "contexts": contexts, "clusters": clusters, "users": []interface{}{map[string]interface{}{"name": "u", "user": map[string]interface{}{}}}})
	must(err)
	proxies := []interface{}{}
	for i, g := range c26Resources {
		proxies = append(proxies, map[string]interface{}{"group": g.Group, "version": g.Version, "resource": g.Resource, "list_kind": c26Kinds[i] + "List",
			"index": map[string]string{"namespace": "{.metadata.namespace}", "name": "{.metadata.name}", "labels": "{.metadata.labels}"}})
	}
	conf, err := json.Marshal(map[string]interface{}{"proxies": proxies})
	must(err)
	r := &c23Run{dir: dir, conf: filepath.Join(dir, "config.json"), kube: filepath.Join(dir, "kubeconfig"), client: &http.Client{Timeout: 10 * time.Second, Transport: &http.Transport{}}}
	must(os.WriteFile(r.conf, conf, 0o644))
	must(os.WriteFile(r.kube, kube, 0o644))
	m := c26Model{}
	direct := func(op c26Op) error {
		body, method, name := []byte(nil), map[string]string{"create": "POST", "update": "PUT", "delete": "DELETE"}[op.Op], op.Name
		if op.Op != "delete" {
			body, err = json.Marshal(op.Doc)
			must(err)
		}
		if method == "POST" {
			name = ""
		}
		_, exists := m[op.key()]
		code, doc := sims[op.cluster()].write(method, collectionPath(c26Resources[op.Res], ""), op.NS, name, "", body)
		if (code < 300) != (exists != (op.Op == "create")) {
			panic(fmt.Sprintf("the scripted API server answers %d %v", code, doc))
		}
		switch {
		case code >= 300:
		case op.Op == "delete":
			delete(m, op.key())
		case op.Res == 0:
			m[op.key()] = plainDoc(op.Doc, true)
		default:
			m[op.key()] = wantDoc(op.Doc)
		}
		return nil
	}
	for _, op := range c.Ops[:c.Before] {
		if op.Op == "create" || op.Op == "update" || op.Op == "delete" {
			_ = direct(op.c26Op)
		}
	}
	defer func() {
		if r.died != nil {
			_ = r.proc.Process.Signal(syscall.SIGKILL)
			<-r.died
			r.release()
		}
	}()
	if err := r.start("flag"); err != nil {
		return err
	}
	cli, err := kubernetes.NewForConfig(&rest.Config{Host: r.base, QPS: -1, Timeout: 20 * time.Second})
	must(err)
	w := &c26World{cli: cli, versions: true}
	soon := func(f func() error) error {
		end := time.Now().Add(seenLimit)
		for {
			err := f()
			if err == nil {
				return nil
			}
			select {
			case <-r.died:
				return fmt.Errorf("the program died: %s", r.out.tail(3000))
			default:
			}
			if time.Now().After(end) {
				return fmt.Errorf("%v later still: %w", seenLimit, err)
			}
			time.Sleep(10 * time.Millisecond)
		}
	}
	all := func() error {
		for _, res := range []int{0, 2, 3} {
			if err := w.list(m, c26Op{Op: "list", Res: res, Clusters: c36Clusters}); err != nil {
				return err
			}
		}
		return nil
	}
	stop := make(chan struct{})
	defer close(stop)
	stores, informed := []cache.Store{}, []c36Informer{}
	inform := func(at int) {
		for _, x := range c.Informers {
			if x.At == at || x.At < c.Before && at == c.Before {
				informed = append(informed, x)
				stores = append(stores, x.start(r.base, stop))
			}
		}
	}
	for i := c.Before; i < len(c.Ops); i++ {
		op := c.Ops[i]
		inform(i)
		err := error(nil)
		switch {
		case op.Op == "break":
			sims[op.Cluster].breakStreams(op.Break)
		case op.Direct:
			err = direct(op.c26Op)
		case op.Op == "touch":
			read := op.c26Op
			read.Op = "get"
			if err = soon(func() error { return w.step(m, read) }); err == nil {
				err = w.step(m, op.c26Op)
			}
		case op.Op == "get" || op.Op == "list":
			err = soon(func() error { return w.step(m, op.c26Op) })
		case op.Op == "patch":
			err = patchC36(w, m, op.c26Op)
		case op.Op == "purge":
			err = purgeC36(w, m, op.c26Op)
		default:
			err = w.step(m, op.c26Op)
		}
		if err == nil && op.Wait {
			err = soon(all)
		}
		if err != nil {
			return fmt.Errorf("operation %d (%s): %w\nthe program said: %s", i+1, short(op), err, r.out.tail(2000))
		}
	}
	if len(c.Ops) >= c.Before {
		inform(len(c.Ops))
	}
	if err := soon(func() error {
		if err := all(); err != nil {
			return err
		}
		for i, x := range informed {
			if err := x.check(w, m, stores[i]); err != nil {
				return err
			}
		}
		return nil
	}); err != nil {
		return fmt.Errorf("at the end: %w\nthe program said: %s", err, r.out.tail(2000))
	}
	return nil
}

func (x c36Informer) start(base string, stop chan struct{}) cache.Store {
	cli, err := dynamic.NewForConfig(&rest.Config{Host: base, QPS: -1})
	must(err)
	g := c26Resources[x.Res]
	f := dynamicinformer.NewFilteredDynamicSharedInformerFactory(cli, 0, x.NS, func(o *metav1.ListOptions) {
		if x.Cluster == "" {
			return
		}
		p := page.Paginate{}
		must(p.Clusters([]string{x.Cluster}))
		*o, err = page.QueryListOptions(*o, p)
		must(err)
	})
	i := f.ForResource(schema.GroupVersionResource{Group: g.Group, Version: g.Version, Resource: g.Resource}).Informer()
	go i.Run(stop)
	return i.GetStore()
}

// dynamicDoc is a document as the dynamic client reads it, which has no large integers.
func dynamicDoc(doc interface{}, res int) interface{} {
	doc = mergePatch(doc, map[string]interface{}{"kind": c26Kinds[res], "apiVersion": strings.TrimPrefix(c26Resources[res].Group+"/"+c26Resources[res].Version, "/")})
	b, err := json.Marshal(doc)
	must(err)
	u := unstructured.Unstructured{}
	must(u.UnmarshalJSON(b))
	return mustJSON(&u)
}

func (x c36Informer) check(w *c26World, m c26Model, s cache.Store) error {
	cluster := x.Cluster
	if cluster == "" {
		cluster = "default"
	}
	got := map[string]interface{}{}
	for _, o := range s.List() {
		u := o.(*unstructured.Unstructured)
		got[fmt.Sprintf("%d|%s|%s|%s", x.Res, cluster, u.GetNamespace(), u.GetName())] = mustJSON(u)
	}
	for k, doc := range m {
		if !strings.HasPrefix(k, fmt.Sprintf("%d|%s|", x.Res, cluster)) || x.NS != "" && !strings.HasPrefix(k, fmt.Sprintf("%d|%s|%s|", x.Res, cluster, x.NS)) {
			continue
		}
		if got[k] == nil {
			return fmt.Errorf("an informer (%s) has no %s", short(x), k)
		}
		if err := w.same(fmt.Sprintf("%s in an informer (%s)", k, short(x)), got[k], dynamicDoc(doc, x.Res), x.Res == 0); err != nil {
			return err
		}
		delete(got, k)
	}
	for k := range got {
		return fmt.Errorf("an informer (%s) still has %s", short(x), k)
	}
	return nil
}

func patchC36(w *c26World, m c26Model, op c26Op) error {
	body, err := json.Marshal(op.Doc)
	must(err)
	o := metav1.PatchOptions{}
	if op.Cluster != "" {
		o, err = page.QueryPatchOptions(o, op.Cluster)
		must(err)
	}
	old, exists := m[op.key()]
	var got interface{}
	if op.Typed {
		p, e := w.cli.CoreV1().Pods(op.NS).Patch(context.Background(), op.Name, types.MergePatchType, body, o)
		got, err = mustJSON(p), e
	} else {
		r := w.cli.CoreV1().RESTClient().Patch(types.MergePatchType).AbsPath(collectionPath(c26Resources[op.Res], op.NS), op.Name).Body(body)
		if o.FieldManager != "" {
			r = r.Param("fieldManager", o.FieldManager)
		}
		b, e := r.DoRaw(context.Background())
		if err = e; e == nil {
			got, err = parseJSON(b)
		}
	}
	if (err == nil) != exists {
		return fmt.Errorf("the error is %v, and the object exists: %v", err, exists)
	}
	if err != nil {
		return nil
	}
	m[op.key()] = wantDoc(patchedDoc(old, op.Doc))
	return w.same("patch", got, m[op.key()], op.Res == 0)
}

func purgeC36(w *c26World, m c26Model, op c26Op) error {
	o := metav1.DeleteOptions{}
	if op.Cluster != "" {
		x, err := page.QueryDeleteOptions(o, op.Cluster)
		must(err)
		o = x
	}
	body, err := json.Marshal(o)
	must(err)
	r := w.cli.CoreV1().RESTClient().Delete().AbsPath(collectionPath(c26Resources[op.Res], op.NS)).Body(body).SetHeader("Content-Type", "application/json")
	if op.Selector != "" {
		r = r.Param("labelSelector", op.Selector)
	}
	if _, err := r.DoRaw(context.Background()); err != nil {
		return err
	}
	sel, err := labels.Parse(op.Selector)
	must(err)
	for k, doc := range m {
		if strings.HasPrefix(k, fmt.Sprintf("%d|%s|%s|", op.Res, op.cluster(), op.NS)) && sel.Matches(docLabels(doc)) {
			delete(m, k)
		}
	}
	return nil
}

func classifyC36(c c36Case) (bool, []string) {
	l := []string{sizeClass("ops", len(c.Ops)), fmt.Sprintf("content before the start=%v", c.Before > 0), fmt.Sprintf("informers=%d", len(c.Informers))}
	writes, reads := 0, 0
	seen := map[string]bool{}
	for i, op := range c.Ops {
		switch op.Op {
		case "create", "update", "delete", "touch", "patch", "purge":
			if i >= c.Before && !op.Direct {
				writes++
			}
		case "get", "list":
			reads++
		}
		what := op.Op
		if op.Direct || i < c.Before {
			what += " by others"
		}
		if op.Break != "" {
			what += " " + op.Break
		}
		seen[what] = true
	}
	for k := range seen {
		l = append(l, k)
	}
	return writes > 0, l
}

func shrinkC36(c c36Case) []c36Case {
	var out []c36Case
	for size := len(c.Ops) / 2; size >= 1; size /= 2 {
		for i := 0; i+size <= len(c.Ops); i += size {
			d := c
			d.Ops = append(append([]c36Op{}, c.Ops[:i]...), c.Ops[i+size:]...)
			if d.Before > i {
				d.Before = max(i, d.Before-size)
			}
			d.Informers = nil
			for _, x := range c.Informers {
				if x.At > i {
					x.At = max(i, x.At-size)
				}
				d.Informers = append(d.Informers, x)
			}
			out = append(out, d)
		}
	}
	for i := range c.Informers {
		d := c
		d.Informers = append(append([]c36Informer{}, c.Informers[:i]...), c.Informers[i+1:]...)
		out = append(out, d)
	}
	return out
}

func init() {
	vk.Register(&vk.Property{
		ID: "C36",
		Setup: func(*vk.Env) error {
			if os.Getenv("CKV_BIN") == "" {
				return fmt.Errorf("the programs are not built")
			}
			common.InitConfig(&common.Config{})
			return nil
		},
		Parts: []*vk.Part{vk.NewBatch(vk.Part{
			Name:  "histories",
			Rule:  "the program is started with four clusters, whose API servers keep objects and stream their changes; histories as for C26 of creates, updates, patches, deletes of one or many, gets and lists through it, by client-go's typed client and raw requests, between writes of others at the API servers, before and after the start, and streams that end or break; each write must be answered as the addressed API server does, and each read, and in the end everything, must soon be what a map of the writes says, and so must the stores of up to three informers of client-go; non-trivial with a write through the program",
			Quick: 192, Thorough: 5000,
		}, vk.BatchDef[c36Case]{Gen: genC36, Classify: classifyC36, Shrink: shrinkC36, Size: 8,
			CheckAll: func(e *vk.Env, l []c36Case) []error {
				return side(len(l), func(i int) error { return runC36(e.Tmp, l[i]) })
			}})},
		Assumptions: []string{"soon means within 30 seconds", "the API servers keep documents as they are sent", "a failing scenario counts when it fails again in one of several copies run side by side"},
	})
}

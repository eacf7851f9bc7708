"""The planted bugs: edits of ckube and a demonstration each (see plant.py)."""
PLANTS = {}

def plant(pid, property, edits, pkg, demo, needs, breaks, flags='', demo_sh=None):
    assert pid not in PLANTS
    p = dict(property=property, edits=edits, pkg=pkg, needs=needs, breaks=breaks, flags=flags)
    if demo: p['demo'] = demo
    if demo_sh: p['demo_sh'] = demo_sh
    PLANTS[pid] = p

MEM = 'store/memory/memory.go'
PROXY = 'api/proxy.go'
PAGE = 'page/page.go'
LABEL = 'kube/label.go'
WATCH = 'watcher/watcher.go'
SERVER = 'server/server.go'
FAKE = 'pkg/client/fake/fake_ckube.go'
MAIN = 'cmd/cacheproxy/main.go'

# Imports and helpers of the demonstrations over HTTP, in package server.
HTTP = '''
package server

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync"
	"testing"

	"github.com/gorilla/mux"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/client-go/kubernetes"
	"k8s.io/client-go/rest"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/store/memory"
)

var (
	_ = bytes.NewBuffer
	_ = json.Marshal
	_ = fmt.Sprint
	_ = url.QueryEscape
	_ = strings.Repeat
	_ sync.Mutex
	_ = page.Paginate{}
)

var pods = store.GroupVersionResource{Version: "v1", Resource: "pods"}
var services = store.GroupVersionResource{Version: "v1", Resource: "services"}

// upstream records what reaches an API server.
type upstream struct {
	mu     sync.Mutex
	seen   []string
	bodies []string
	answer func(r *http.Request) (int, string)
}

type transport struct {
	u       *upstream
	cluster string
}

func (t transport) RoundTrip(r *http.Request) (*http.Response, error) {
	body := ""
	if r.Body != nil {
		b, _ := io.ReadAll(r.Body)
		body = string(b)
	}
	t.u.mu.Lock()
	t.u.seen = append(t.u.seen, t.cluster+" "+r.Method+" "+r.URL.RequestURI())
	t.u.bodies = append(t.u.bodies, body)
	t.u.mu.Unlock()
	code, res := 200, "{}"
	if t.u.answer != nil {
		code, res = t.u.answer(r)
	}
	return &http.Response{StatusCode: code, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Request: r, Header: http.Header{"Content-Type": {"application/json"}}, ContentLength: -1, Body: io.NopCloser(strings.NewReader(res))}, nil
}

type env struct {
	up *upstream
	m  store.Store
	h  *mux.Router
}

func setup(t *testing.T, token string, clusters ...string) *env {
	index := map[string]string{"namespace": "{.metadata.namespace}", "name": "{.metadata.name}", "note": "{.metadata.annotations.note}"}
	common.InitConfig(&common.Config{DefaultCluster: clusters[0], Token: token, Proxies: []common.Proxy{
		{Version: "v1", Resource: "pods", ListKind: "PodList", Index: index},
		{Version: "v1", Resource: "services", ListKind: "ServiceList", Index: index},
	}})
	e := &env{up: &upstream{}, m: memory.NewMemoryStore(map[store.GroupVersionResource]map[string]string{pods: index, services: index})}
	clients := map[string]kubernetes.Interface{}
	for _, c := range clusters {
		cs, err := kubernetes.NewForConfig(&rest.Config{Host: "http://upstream.test", Transport: transport{e.up, c}, QPS: -1})
		if err != nil {
			t.Fatal(err)
		}
		clients[c] = cs
	}
	NewMuxServer("", clients, e.m, func(r *mux.Router) { e.h = r })
	return e
}

func (e *env) pod(cluster, ns, name string, labels, annotations map[string]string) {
	_ = e.m.OnResourceAdded(pods, cluster, &corev1.Pod{ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: name, Labels: labels, Annotations: annotations}})
}

func (e *env) do(method, target, body string, header ...string) *httptest.ResponseRecorder {
	r := httptest.NewRequest(method, target, strings.NewReader(body))
	for i := 0; i+1 < len(header); i += 2 {
		r.Header.Set(header[i], header[i+1])
	}
	rec := httptest.NewRecorder()
	e.h.ServeHTTP(rec, r)
	return rec
}

func (e *env) list(t *testing.T, p page.Paginate, selector string) *corev1.PodList {
	o, err := page.QueryListOptions(metav1.ListOptions{LabelSelector: selector}, p)
	if err != nil {
		t.Fatal(err)
	}
	rec := e.do("GET", "/api/v1/pods?labelSelector="+url.QueryEscape(o.LabelSelector), "")
	if rec.Code != 200 {
		t.Fatalf("demo: %d %s", rec.Code, rec.Body)
	}
	l := &corev1.PodList{}
	if err := json.Unmarshal(rec.Body.Bytes(), l); err != nil {
		t.Fatal(err)
	}
	return l
}
'''

MEMTEST = '''
package memory

import (
	"fmt"
	"testing"

	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
)

var (
	_ = fmt.Sprint
	_ = page.Paginate{}
	_ = metav1.Now
	_ corev1.Pod
)

var demoPods = store.GroupVersionResource{Version: "v1", Resource: "pods"}
'''

# --- C01
plant('c01-late-version', 'C01', [(MEM, '''	ns, name, o := m.buildResourceWithIndex(gvr, cluster, obj)
	m.initResourceNamespace(gvr, cluster, ns)
	m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(namespaceName(ns)).Set(name, o)
	prommonitor.Resources.WithLabelValues(cluster, gvr.Group, gvr.Version, gvr.Resource, ns).
		Set(float64(m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(namespaceName(ns)).Len()))
	return nil
}

func (m *memoryStore) OnResourceDeleted''', '''	ns, name, o := m.buildResourceWithIndex(gvr, cluster, obj)
	m.initResourceNamespace(gvr, cluster, ns)
	objs := m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(namespaceName(ns))
	// a notification that comes late must not bring an older version back
	if old := objs.Get(name); old == nil || resourceVersion(old.Obj) <= resourceVersion(o.Obj) {
		objs.Set(name, o)
	}
	prommonitor.Resources.WithLabelValues(cluster, gvr.Group, gvr.Version, gvr.Resource, ns).
		Set(float64(objs.Len()))
	return nil
}

func resourceVersion(obj interface{}) string {
	if o, ok := obj.(v1.Object); ok {
		return o.GetResourceVersion()
	}
	return ""
}

func (m *memoryStore) OnResourceDeleted''')], 'store/memory', MEMTEST + '''
func TestDemo(t *testing.T) {
	s := NewMemoryStore(map[store.GroupVersionResource]map[string]string{demoPods: {"name": "{.metadata.name}"}})
	pod := func(rv, image string) *corev1.Pod {
		return &corev1.Pod{ObjectMeta: metav1.ObjectMeta{Namespace: "a", Name: "web", ResourceVersion: rv, Labels: map[string]string{"v": image}}}
	}
	_ = s.OnResourceAdded(demoPods, "c1", pod("998", "1"))
	_ = s.OnResourceModified(demoPods, "c1", pod("1003", "2"))
	if got := s.Get(demoPods, "c1", "a", "web").(*corev1.Pod).Labels["v"]; got != "2" {
		t.Fatalf("demo: the version read is %s", got)
	}
}
''', "a modification whose resource version has more digits than the cached one's (998 -> 1003)", "resource versions are compared as text, so a newer version is dropped as a late one")

# --- C02
plant('c02-stale-cluster', 'C02', [(MEM, '''			anno := oo.GetAnnotations()
			anno[constants.DSMClusterAnno] = cluster
			oo.SetAnnotations(anno)''', '''			anno := oo.GetAnnotations()
			if _, ok := anno[constants.DSMClusterAnno]; !ok {
				anno[constants.DSMClusterAnno] = cluster
			}
			oo.SetAnnotations(anno)''')], 'store/memory', MEMTEST + '''
func TestDemo(t *testing.T) {
	s := NewMemoryStore(map[store.GroupVersionResource]map[string]string{demoPods: {"name": "{.metadata.name}"}})
	_ = s.OnResourceAdded(demoPods, "c2", &corev1.Pod{ObjectMeta: metav1.ObjectMeta{Namespace: "a", Name: "web", Annotations: map[string]string{"ckube.doacloud.io/cluster": "c1"}}})
	if got := page.GetObjectCluster(s.Get(demoPods, "c2", "a", "web").(metav1.Object)); got != "c2" {
		t.Fatalf("demo: the object of c2 says it is of %q", got)
	}
}
''', "an object that already carries ckube's cluster annotation, such as one applied from the output of another cluster", "the stale cluster annotation is kept")

# --- C03
plant('c03-template-prefix', 'C03', [(MEM, 'if strings.Contains(v, "{{") {', 'if strings.HasPrefix(strings.TrimSpace(v), "{{") {')], 'store/memory', MEMTEST + '''
func TestDemo(t *testing.T) {
	s := NewMemoryStore(map[store.GroupVersionResource]map[string]string{demoPods: {"name": "{.metadata.name}", "id": "pod-{{ .metadata.name }}"}})
	_ = s.OnResourceAdded(demoPods, "c1", &corev1.Pod{ObjectMeta: metav1.ObjectMeta{Namespace: "a", Name: "web"}})
	res := s.Query(demoPods, store.Query{Paginate: page.Paginate{Search: `id="pod-web"`}})
	if res.Error != nil || res.Total != 1 {
		t.Fatalf("demo: found %d objects, %v", res.Total, res.Error)
	}
}
''', "a Go template with text before its first action", "the template is taken for a JSONPath and the index is empty or wrong")

# --- C04
plant('c04-early-end', 'C04', [(PAGE, '''		matched := 0
		for _, part := range searchParts {
			r, err := Match(m, []string{part})
			if err != nil {
				return false, err
			}
			if r {
				matched += 1
			}
		}
		return matched == len(searchParts), nil''', '''		for _, part := range searchParts {
			r, err := Match(m, []string{part})
			if err != nil {
				return false, err
			}
			if !r {
				return false, nil
			}
		}
		return true, nil''')], 'page', '''
package page

import "testing"

func TestDemo(t *testing.T) {
	p := Paginate{Search: "name=web;nosuchkey=1"}
	if _, err := p.Match(map[string]string{"name": "db"}); err == nil {
		t.Fatal("demo: the unknown key is not reported")
	}
}
''', "an unknown key, or a malformed advanced condition, after a condition that no object satisfies", "the conjunction ends at the first condition that does not hold, and a later error is answered with an empty list")

# --- C05
plant('c05-float32', 'C05', [(MEM, 'vi, err := strconv.ParseFloat(vis, 64)', 'vi, err := strconv.ParseFloat(vis, 32)'), (MEM, 'vj, err := strconv.ParseFloat(vjs, 64)', 'vj, err := strconv.ParseFloat(vjs, 32)')], 'store/memory', MEMTEST + '''
func TestDemo(t *testing.T) {
	s := NewMemoryStore(map[store.GroupVersionResource]map[string]string{demoPods: {"name": "{.metadata.name}", "size": "{.metadata.labels.size}"}})
	for name, size := range map[string]string{"a": "1700000001", "b": "1700000000"} {
		_ = s.OnResourceAdded(demoPods, "c1", &corev1.Pod{ObjectMeta: metav1.ObjectMeta{Namespace: "a", Name: name, Labels: map[string]string{"size": size}}})
	}
	res := s.Query(demoPods, store.Query{Paginate: page.Paginate{Sort: "size!int"}})
	if got := res.Items[0].(*corev1.Pod).Name; got != "b" {
		t.Fatalf("demo: %s is the smallest", got)
	}
}
''', "numeric keys beyond 2^24 that are close to each other, such as times in seconds", "they are compared in single precision and taken for equal")

# --- C06
plant('c06-page-limit', 'C06', [(PROXY, '''			Namespace: namespace,
			Paginate:  *paginate,
		})''', '''			Namespace: namespace,
			Paginate:  limitPage(*paginate),
		})'''), (PROXY, '''func serverPrint(items''', '''// limitPage keeps a single answer from becoming too large.
func limitPage(p page.Paginate) page.Paginate {
	const maxPageSize = 100
	if p.PageSize > maxPageSize {
		p.PageSize = maxPageSize
	}
	return p
}

func serverPrint(items''')], 'server', HTTP + '''
func TestDemo(t *testing.T) {
	e := setup(t, "", "c1")
	for i := 0; i < 130; i++ {
		e.pod("c1", "a", fmt.Sprintf("web-%03d", i), nil, nil)
	}
	if l := e.list(t, page.Paginate{Page: 1, PageSize: 120}, ""); len(l.Items) != 120 {
		t.Fatalf("demo: a page of 120 has %d objects", len(l.Items))
	}
}
''', "a page size above 100 and more than 100 matching objects, without a label selector", "the pages are cut to 100 objects in the store, while the counts go by the size that was asked for")

# --- C07
plant('c07-single-namespace', 'C07', [(PAGE, '''	nsKey := "namespace"
	mes := []v1.LabelSelectorRequirement{
		{
			Key:      nsKey,
			Operator: v1.LabelSelectorOpIn,
			Values:   nss,
		},
	}
	for _, r := range s.MatchExpressions {''', '''	nsKey := "namespace"
	mes := []v1.LabelSelectorRequirement{}
	if len(nss) == 1 && s.MatchLabels != nil {
		// one namespace is a plain equality
		s.MatchLabels[nsKey] = nss[0]
	} else {
		mes = append(mes, v1.LabelSelectorRequirement{
			Key:      nsKey,
			Operator: v1.LabelSelectorOpIn,
			Values:   nss,
		})
	}
	for _, r := range s.MatchExpressions {''')], 'page', '''
package page

import "testing"

func TestDemo(t *testing.T) {
	p := Paginate{Search: "__ckube_as__:tier=front"}
	for _, nss := range [][]string{{"a"}, {"b", "c"}} {
		if err := p.Namespaces(nss); err != nil {
			t.Fatal(err)
		}
	}
	if ok, err := p.Match(map[string]string{"namespace": "b", "tier": "front"}); !ok {
		t.Fatalf("demo: b is not among the namespaces, %v", err)
	}
}
''', "a query with an advanced condition that is restricted to one namespace and later to several", "the earlier restriction is not replaced, so that nothing matches any more")

# --- C08
plant('c08-whole-pieces', 'C08', [(LABEL, '		if len(value) <= end {', '		if len(value) < end {')], 'page', '''
package page

import (
	"strings"
	"testing"

	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"
)

func TestDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		if _, err := QueryListOptions(v1.ListOptions{}, Paginate{Search: strings.Repeat("x", i)}); err != nil {
			t.Fatalf("demo: a search of %d letters: %v", i, err)
		}
	}
}
''', "a query whose encoding has a length that is a multiple of 56 and more than 56", "an empty last piece is added, which is no valid label value")

# --- C09
plant('c09-single-in', 'C09', [(LABEL, '''		case selection.In:
			op = v1.LabelSelectorOpIn
''', '''		case selection.In:
			if op = v1.LabelSelectorOpIn; req.Values().Len() == 1 {
				// a set of one value is an equality
				labelSelector.MatchLabels[req.Key()] = req.Values().List()[0]
				continue
			}
''')], 'server', HTTP + '''
func TestDemo(t *testing.T) {
	e := setup(t, "", "c1")
	e.pod("c1", "a", "web", map[string]string{"app": "b"}, nil)
	if l := e.list(t, page.Paginate{Sort: "name"}, "app=a,app in (b)"); len(l.Items) != 0 {
		t.Fatalf("demo: a contradiction selects %s", l.Items[0].Name)
	}
}
''', "a selector with an equality and a set of one value for the same key", "the later one replaces the earlier, and objects that satisfy only one of them are listed")

# --- C10
plant('c10-selector-unsorted', 'C10', [(PROXY, '''			Paginate: page.Paginate{
				Sort:   paginate.Sort,
				Search: paginate.Search,
			}, // get all''', '''			Paginate: page.Paginate{
				Search: paginate.Search,
			}, // get all''')], 'server', HTTP + '''
func TestDemo(t *testing.T) {
	e := setup(t, "", "c1")
	for _, n := range []string{"x", "y", "z"} {
		e.pod("c1", "a", n, map[string]string{"app": "web"}, nil)
	}
	l := e.list(t, page.Paginate{Sort: "name desc", Page: 1, PageSize: 1}, "app=web")
	if l.Items[0].Name != "z" {
		t.Fatalf("demo: %s comes first", l.Items[0].Name)
	}
}
''', "a sort other than the default order together with a label selector", "the page is cut from the unsorted list")

# --- C11
plant('c11-dashed-cluster', 'C11', [(PROXY, 'cluster = v[0][len(clusterPrefix):]', 'cluster = v[0][strings.LastIndex(v[0], "-")+1:]')], 'server', HTTP + '''
func TestDemo(t *testing.T) {
	e := setup(t, "", "main", "east", "us-east")
	e.pod("east", "a", "web", map[string]string{"of": "east"}, nil)
	e.pod("us-east", "a", "web", map[string]string{"of": "us-east"}, nil)
	rec := e.do("GET", "/api/v1/namespaces/a/pods/web?resourceVersion=dsm-cluster-us-east", "")
	if !strings.Contains(rec.Body.String(), `"of":"us-east"`) {
		t.Fatalf("demo: %d %s", rec.Code, rec.Body)
	}
}
''', "addressing a cluster whose name contains a dash", "another cluster, named like the last part, answers instead")

# --- C12
plant('c12-escaped-path', 'C12', [(PROXY, '''	u := r.Request.URL.String()
	log.Debugf("proxyPass url: %s", u)
	timeout := time.Minute''', '''	u := r.Request.URL.Path
	if r.Request.URL.RawQuery != "" {
		u += "?" + r.Request.URL.RawQuery
	}
	log.Debugf("proxyPass url: %s", u)
	timeout := time.Minute''')], 'server', HTTP + '''
func TestDemo(t *testing.T) {
	e := setup(t, "", "c1")
	e.do("GET", "/api/v1/namespaces/a/services/web:80/proxy/file%20name%3Fx?a=b", "")
	if want := "c1 GET /api/v1/namespaces/a/services/web:80/proxy/file%20name%3Fx?a=b"; len(e.up.seen) != 1 || strings.Split(e.up.seen[0], "&timeout=")[0] != want {
		t.Fatalf("demo: the API server saw %v", e.up.seen)
	}
}
''', "a forwarded path with an escaped character that matters, such as a question mark", "the decoded path is sent and means something else")

# --- C13
plant('c13-dry-run', 'C13', [(PROXY, '				options.DryRun = options.DryRun[1:]', '				options.DryRun = nil')], 'server', HTTP + '''
func TestDemo(t *testing.T) {
	e := setup(t, "", "c1", "c2")
	e.do("DELETE", "/api/v1/namespaces/a/pods/web", `{"dryRun":["dsm-cluster-c2","All"]}`)
	if len(e.up.bodies) != 1 || !strings.Contains(e.up.bodies[0], `"dryRun":["All"]`) {
		t.Fatalf("demo: the API server got %v", e.up.bodies)
	}
}
''', "a delete addressed to a cluster that is also a dry run", "the dry run is dropped and the object really deleted")

# --- C14
plant('c14-long-line', 'C14', [(PROXY, '''	buf := bytes.NewBuffer([]byte{})
	for {
		t := make([]byte, 1)
		_, err := reader.Read(t)
		if err != nil {
			_, _ = r.Writer.Write(buf.Bytes())
			return nil
		}
		buf.Write(t)
		if t[0] == '\\n' {
			_, _ = r.Writer.Write(buf.Bytes())
			buf.Reset()
		}
		select {
		case <-r.Request.Context().Done():
			return nil
		default:
		}
	}
''', '''	lines := bufio.NewScanner(reader)
	lines.Split(splitLines)
	for lines.Scan() {
		_, _ = r.Writer.Write(lines.Bytes())
		select {
		case <-r.Request.Context().Done():
			return nil
		default:
		}
	}
	return nil
'''), (PROXY, '''func getRequest(r *ReqContext''', '''// splitLines is bufio.ScanLines with the line ends.
func splitLines(data []byte, atEOF bool) (int, []byte, error) {
	if i := bytes.IndexByte(data, '\\n'); i >= 0 {
		return i + 1, data[:i+1], nil
	}
	if atEOF && len(data) > 0 {
		return len(data), data, nil
	}
	return 0, nil, nil
}

func getRequest(r *ReqContext'''), (PROXY, '''import (
	"bytes"''', '''import (
	"bufio"
	"bytes"''')], 'server', HTTP + '''
func TestDemo(t *testing.T) {
	e := setup(t, "", "c1")
	stream := `{"type":"ADDED","object":{"a":"` + strings.Repeat("x", 70000) + `"}}` + "\\n" + `{"type":"DELETED"}` + "\\n"
	e.up.answer = func(*http.Request) (int, string) { return 200, stream }
	if rec := e.do("GET", "/api/v1/pods?watch=true", ""); rec.Body.String() != stream {
		t.Fatalf("demo: %d of %d bytes arrive", rec.Body.Len(), len(stream))
	}
}
''', "a watch event of more than 64 KiB", "the stream ends silently before it")

# --- C15
plant('c15-options', 'C15', [(SERVER, '				if route.authRequired && common.GetConfig().Token != "" {', '''				// a browser asks for the options without credentials
				if route.authRequired && r.Method != http.MethodOptions && common.GetConfig().Token != "" {''')], 'server', HTTP + '''
func TestDemo(t *testing.T) {
	e := setup(t, "s3cret", "c1")
	if rec := e.do("OPTIONS", "/api/v1/pods", ""); rec.Code != 401 || len(e.up.seen) != 0 {
		t.Fatalf("demo: %d, the API server saw %v", rec.Code, e.up.seen)
	}
}
''', "a request with method OPTIONS and no token", "it is forwarded to the API server with the proxy's own credentials")

# --- C16
plant('c16-cut-cells', 'C16', [(PROXY, '''			for k, v := range indexes {
				cells[indexMap[k]] = v
			}''', '''			for k, v := range indexes {
				cells[indexMap[k]] = shorten(v)
			}'''), (PROXY, '''func isWatchRequest(''', '''// shorten keeps tables readable.
func shorten(v string) string {
	if len(v) > 256 {
		return v[:253] + "..."
	}
	return v
}

func isWatchRequest(''')], 'server', HTTP + '''
func TestDemo(t *testing.T) {
	e := setup(t, "", "c1")
	note := strings.Repeat("long ", 100)
	e.pod("c1", "a", "web", nil, map[string]string{"note": note})
	rec := e.do("GET", "/api/v1/pods", "", "Accept", "application/json;as=Table;v=v1;g=meta.k8s.io")
	if !strings.Contains(rec.Body.String(), note) {
		t.Fatalf("demo: %s", rec.Body)
	}
}
''', "an index value of more than 256 bytes", "its cell is cut")

# --- C17
plant('c17-merge-parts', 'C17', [(LABEL, '		if len(parts) != 2 {', '		if len(parts) > 2 {')], 'server', HTTP + '''
func TestDemo(t *testing.T) {
	e := setup(t, "", "c1")
	rec := e.do("GET", "/api/v1/pods?labelSelector="+url.QueryEscape("ckube.daocloud.io/query notin (1,2)"), "")
	if rec.Code == 500 {
		t.Fatalf("demo: %d %s", rec.Code, rec.Body)
	}
}
''', "a query in several pieces of which one is a number without the separating dot", "the request fails with an internal error")

# --- C18
WATCHTEST = '''
package watcher

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	corev1 "k8s.io/api/core/v1"
	"k8s.io/client-go/rest"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/store/memory"
)

var (
	_ = fmt.Sprint
	_ corev1.Pod
	_ sync.Mutex
	_ atomic.Int64
	_ = page.Paginate{}
	_ = time.Second
)

var pods = store.GroupVersionResource{Version: "v1", Resource: "pods"}

func start(t *testing.T, serve func(n int64, w http.ResponseWriter, r *http.Request)) (Watcher, store.Store, *atomic.Int64) {
	var n atomic.Int64
	ts := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Content-Type", "application/json")
		serve(n.Add(1), w, r)
	}))
	common.InitConfig(&common.Config{DefaultCluster: "c1", Proxies: []common.Proxy{{Version: "v1", Resource: "pods", ListKind: "PodList"}}})
	m := memory.NewMemoryStore(map[store.GroupVersionResource]map[string]string{pods: {"name": "{.metadata.name}"}})
	w := NewWatcher(map[string]rest.Config{"c1": {Host: ts.URL}}, []store.GroupVersionResource{pods}, m)
	if err := w.Start(); err != nil {
		t.Fatal(err)
	}
	return w, m, &n
}

func event(typ, name string) string {
	return fmt.Sprintf(`{"type":%q,"object":{"kind":"Pod","apiVersion":"v1","metadata":{"namespace":"a","name":%q}}}`+"\\n", typ, name)
}

func flush(w http.ResponseWriter, s string) {
	_, _ = w.Write([]byte(s))
	w.(http.Flusher).Flush()
}

func eventually(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(20 * time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}
'''
plant('c18-clean-once', 'C18', [(WATCH, '''	for {
		select {
		case <-w.stop:
			return
		default:
		}
		ctx, cancel''', '''	brief := false // the last stream has just ended
	for {
		select {
		case <-w.stop:
			return
		default:
		}
		ctx, cancel'''), (WATCH, '''			log.Errorf("cluster(%s): create watcher for %s error: %v", cluster, url, err)
''', '''			log.Errorf("cluster(%s): create watcher for %s error: %v", cluster, url, err)
			brief = false
'''), (WATCH, '''; established {
''', '''; established && !brief {
'''), (WATCH, '''						time.Sleep(time.Second * 3)
''', '''						time.Sleep(time.Second)
						brief = true
''')], 'watcher', WATCHTEST + '''
func TestDemo(t *testing.T) {
	_, m, _ := start(t, func(n int64, w http.ResponseWriter, r *http.Request) {
		if n == 1 {
			flush(w, event("ADDED", "gone")+event("ADDED", "kept"))
			return
		}
		flush(w, event("ADDED", "kept"))
		<-r.Context().Done()
	})
	if !eventually(20*time.Second, func() bool { return m.Get(pods, "c1", "a", "gone") != nil }) {
		t.Skip("no object was cached")
	}
	if !eventually(20*time.Second, func() bool { return m.Get(pods, "c1", "a", "gone") == nil }) {
		t.Fatal("demo: an object deleted while disconnected is still there")
	}
}
''', "an object deleted while a stream that has ended is reopened at the first attempt", "the cache is not wiped then, so objects that disappeared stay")

plant('c18-error-event', 'C18', [(WATCH, '''						case watch.Error:
							log.Warnf("cluster(%s): watch stream(%v) error: %v", cluster, r, rr.Object)
''', '''						case watch.Error:
							e := apierrors.FromObject(rr.Object)
							log.Warnf("cluster(%s): watch stream(%v) error: %v", cluster, r, e)
							if apierrors.IsForbidden(e) || apierrors.IsUnauthorized(e) {
								// it would only fail again
								ww.Stop()
								cancel()
								return
							}
'''), (WATCH, '''	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"
''', '''	apierrors "k8s.io/apimachinery/pkg/api/errors"
	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"
''')], 'watcher', WATCHTEST + '''
func TestDemo(t *testing.T) {
	_, m, _ := start(t, func(n int64, w http.ResponseWriter, r *http.Request) {
		if n == 1 {
			flush(w, `{"type":"ERROR","object":{"kind":"Status","apiVersion":"v1","status":"Failure","reason":"Forbidden","code":403}}`+"\\n")
			return
		}
		flush(w, event("ADDED", "web"))
		<-r.Context().Done()
	})
	if !eventually(20*time.Second, func() bool { return m.Get(pods, "c1", "a", "web") != nil }) {
		t.Fatal("demo: the watch is not resumed")
	}
}
''', "an ERROR event with reason Forbidden or Unauthorized on a stream, as while permissions are changed", "the resource of that cluster is never watched again")

# --- C19
plant('c19-kind-of-other-version', 'C19', [('common/config.go', '		if p.Group == g && p.Version == v && p.Resource == r {', '''		// the kind of a resource is the same in all of its versions
		if p.Group == g && p.Resource == r {''')], 'watcher', WATCHTEST + '''
func TestDemo(t *testing.T) {
	ts := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Content-Type", "application/json")
		if r.URL.Path == "/apis/example.io/v1/widgets" {
			flush(w, `{"type":"ADDED","object":{"kind":"Widget","apiVersion":"example.io/v1","metadata":{"namespace":"a","name":"w"},"spec":{"a":1}}}`+"\\n")
		}
		<-r.Context().Done()
	}))
	v1, old := store.GroupVersionResource{Group: "example.io", Version: "v1", Resource: "widgets"}, store.GroupVersionResource{Group: "example.io", Version: "v1alpha1", Resource: "widgets"}
	common.InitConfig(&common.Config{DefaultCluster: "c1", Proxies: []common.Proxy{
		{Group: "example.io", Version: "v1alpha1", Resource: "widgets", ListKind: "WidgetSetList"},
		{Group: "example.io", Version: "v1", Resource: "widgets", ListKind: "WidgetList"},
	}})
	m := memory.NewMemoryStore(map[store.GroupVersionResource]map[string]string{v1: {}, old: {}})
	if err := NewWatcher(map[string]rest.Config{"c1": {Host: ts.URL}}, []store.GroupVersionResource{old, v1}, m).Start(); err != nil {
		t.Fatal(err)
	}
	if !eventually(10*time.Second, func() bool { return m.Get(v1, "c1", "a", "w") != nil }) {
		t.Fatal("demo: the object is not cached")
	}
}
''', "two versions of a resource configured whose kinds have different names", "objects of the second one can not be decoded and are never cached")

# --- C20
plant('c20-one-more-stream', 'C20', [(WATCH, '''	for {
		select {
		case <-w.stop:
			return
		default:
		}
		ctx, cancel''', '''	for {
		ctx, cancel'''), ], 'watcher', WATCHTEST + '''
func TestDemo(t *testing.T) {
	w, _, n := start(t, func(n int64, w http.ResponseWriter, r *http.Request) {
		flush(w, event("ADDED", "web"))
	})
	if !eventually(10*time.Second, func() bool { return n.Load() == 1 }) {
		t.Skip("no stream")
	}
	time.Sleep(500 * time.Millisecond)
	_ = w.Stop()
	time.Sleep(5 * time.Second)
	if got := n.Load(); got != 1 {
		t.Fatalf("demo: %d streams were opened", got)
	}
}
''', "stopping while a stream is being reopened or backed off", "after the pause one more stream is opened although the watcher was stopped")

# --- C21
plant('c21-in-place', 'C21', [(MEM, '''	s.resources[key] = &value
	s.lock.Unlock()''', '''	if old, ok := s.resources[key]; ok {
		// reuse the entry
		*old = value
	} else {
		s.resources[key] = &value
	}
	s.lock.Unlock()''')], 'store/memory', MEMTEST + '''
func TestDemo(t *testing.T) {
	s := NewMemoryStore(map[store.GroupVersionResource]map[string]string{demoPods: {"name": "{.metadata.name}"}})
	pod := func() *corev1.Pod { return &corev1.Pod{ObjectMeta: metav1.ObjectMeta{Namespace: "a", Name: "web"}} }
	_ = s.OnResourceAdded(demoPods, "c1", pod())
	done := make(chan struct{})
	go func() {
		defer close(done)
		for i := 0; i < 3000; i++ {
			_ = s.OnResourceModified(demoPods, "c1", pod())
		}
	}()
	for i := 0; i < 200000; i++ {
		if s.Get(demoPods, "c1", "a", "web") == nil {
			t.Fatal("demo: not found")
		}
		select {
		case <-done:
			return
		default:
		}
	}
	<-done
}
''', "reading an object while it is being modified", "the reader uses the entry after its lock is released, and can see half of the old and half of the new object", flags='-race ')

# --- C22
plant('c22-empty-value', 'C22', [('utils/subset.go', '		if vv, ok := parent[k]; !ok || vv != v {', '		if parent[k] != v {')], 'server', HTTP + '''
func TestDemo(t *testing.T) {
	e := setup(t, "", "c1")
	_ = e.m.OnResourceAdded(pods, "c1", &corev1.Pod{ObjectMeta: metav1.ObjectMeta{Namespace: "a", Name: "web-1-x", Labels: map[string]string{"app": "web"}, OwnerReferences: []metav1.OwnerReference{{Kind: "ReplicaSet", Name: "web-1"}}}})
	_ = e.m.OnResourceAdded(services, "c1", &corev1.Service{ObjectMeta: metav1.ObjectMeta{Namespace: "a", Name: "canary"}, Spec: corev1.ServiceSpec{Selector: map[string]string{"app": "web", "canary": ""}}})
	if rec := e.do("GET", "/custom/v1/namespaces/a/deployments/web/services", ""); strings.Contains(rec.Body.String(), "canary") {
		t.Fatalf("demo: %s", rec.Body)
	}
}
''', "a service whose selector has an empty value for a label that the pods do not have", "it is listed although it does not select the pods")

# --- C24
plant('c24-grace', 'C24', [('utils/fs_watcher.go', '					time.Sleep(time.Second * 2)', '					time.Sleep(time.Millisecond * 500)')], 'utils', '''
package utils

import (
	"os"
	"path/filepath"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "f")
	if err := os.WriteFile(f, []byte("1"), 0o644); err != nil {
		t.Fatal(err)
	}
	w, err := NewFixedFileWatcher([]string{f})
	if err != nil {
		t.Fatal(err)
	}
	if err := w.Start(); err != nil {
		t.Fatal(err)
	}
	_ = os.Remove(f)
	time.Sleep(1200 * time.Millisecond)
	_ = os.WriteFile(f, []byte("2"), 0o644)
	select {
	case e := <-w.Events():
		if e.Type != EventTypeChanged {
			t.Fatalf("demo: %+v", e)
		}
	case <-time.After(10 * time.Second):
		t.Fatal("demo: no event")
	}
}
''', "a file re-created between half a second and two seconds after its removal", "it is announced as an error and not watched any more")

# --- C25
plant('c25-search-and-clusters', 'C25', [('cmd/ckubecli/main.go', '''		Sort:     sort,
		Search:   search,
	}''', '''		Sort:     sort,
	}'''), ('cmd/ckubecli/main.go', '''	o, err := page.QueryListOptions(v1.ListOptions{}, p)''', '''	if search != "" {
		p.Search = search
	}
	o, err := page.QueryListOptions(v1.ListOptions{}, p)''')], '', None, "a search and clusters given together", "the search replaces the clusters, and the default cluster's objects are shown", demo_sh='''#!/bin/bash
# Run in the root of the repository; exits 0 when the property holds in this demonstration.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/cli" ./cmd/ckubecli || exit 3
"$tmp/cli" -search name=web -c c2 | tr -d ' ' | grep -o '([^)]*)' | tr -d '()' | tr ',' '\\n' | sort | sed 's/^[0-9]*\\.//' | tr -d '\\n' > "$tmp/b64"
python3 - "$tmp/b64" <<'P'
import base64, json, sys
s = open(sys.argv[1]).read()
q = json.loads(base64.b64decode(s + '=' * (-len(s) % 4)))
print(q)
sys.exit(0 if 'c2' in q['search'] and 'name=web' in q['search'] else 1)
P
''')

# --- C26
plant('c26-exists-elsewhere', 'C26', [(FAKE, '''		action = EventActionAdd
		if o := s.store.Get(gvr, cluster, namespace, resourceName); o != nil {''', '''		action = EventActionAdd
		if o := s.store.Get(gvr, common.GetConfig().DefaultCluster, namespace, resourceName); o != nil {''')], 'pkg/client/fake', '''
package fake

import (
	"context"
	"testing"

	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/client-go/kubernetes"

	"github.com/DaoCloud/ckube/page"
)

func TestDemo(t *testing.T) {
	s, err := NewFakeCKubeServer("127.0.0.1:18617", `{"default_cluster":"c1","proxies":[{"version":"v1","resource":"pods","list_kind":"PodList","index":{"namespace":"{.metadata.namespace}","name":"{.metadata.name}"}}]}`)
	if err != nil {
		t.Skip(err)
	}
	defer s.Stop()
	c := kubernetes.NewForConfigOrDie(s.GetKubeConfig())
	for _, cluster := range []string{"c1", "c2"} {
		o, _ := page.QueryCreateOptions(metav1.CreateOptions{}, cluster)
		if _, err := c.CoreV1().Pods("a").Create(context.Background(), &corev1.Pod{ObjectMeta: metav1.ObjectMeta{Name: "web"}}, o); err != nil {
			t.Fatalf("demo: creating in %s: %v", cluster, err)
		}
	}
}
''', "creating an object in another cluster than the default one while the default one has an object of that name", "clusters are not separate: the creation is refused")

# --- C27
plant('c27-inc-dec', 'C27', [(MEM, '''func (m *memoryStore) OnResourceAdded(gvr store.GroupVersionResource, cluster string, obj interface{}) error {
	ns, name, o := m.buildResourceWithIndex(gvr, cluster, obj)
	m.initResourceNamespace(gvr, cluster, ns)
	m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(namespaceName(ns)).Set(name, o)
	prommonitor.Resources.WithLabelValues(cluster, gvr.Group, gvr.Version, gvr.Resource, ns).
		Set(float64(m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(namespaceName(ns)).Len()))
''', '''func (m *memoryStore) OnResourceAdded(gvr store.GroupVersionResource, cluster string, obj interface{}) error {
	ns, name, o := m.buildResourceWithIndex(gvr, cluster, obj)
	m.initResourceNamespace(gvr, cluster, ns)
	m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(namespaceName(ns)).Set(name, o)
	prommonitor.Resources.WithLabelValues(cluster, gvr.Group, gvr.Version, gvr.Resource, ns).Inc()
''')], 'store/memory', MEMTEST.replace('	"testing"\n', '	"testing"\n\n	"github.com/prometheus/client_golang/prometheus"\n	dto "github.com/prometheus/client_model/go"\n	"github.com/DaoCloud/ckube/utils/prommonitor"\n') + '''
var _ = prometheus.Labels{}

func TestDemo(t *testing.T) {
	s := NewMemoryStore(map[store.GroupVersionResource]map[string]string{demoPods: {"name": "{.metadata.name}"}})
	for i := 0; i < 2; i++ {
		_ = s.OnResourceAdded(demoPods, "demo", &corev1.Pod{ObjectMeta: metav1.ObjectMeta{Namespace: "a", Name: "web"}})
	}
	m := &dto.Metric{}
	_ = prommonitor.Resources.WithLabelValues("demo", "", "v1", "pods", "a").Write(m)
	if got := m.GetGauge().GetValue(); got != 1 {
		t.Fatalf("demo: the gauge shows %v", got)
	}
}
''', "an add notification for an object that is already cached", "the gauge counts it twice")

# --- C28
plant('c28-shared-context', 'C28', [(SERVER, '''			rt.HandlerFunc(func(writer http.ResponseWriter, r *http.Request) {
				defer func() {''', '''			ctx := &api.ReqContext{}
			rt.HandlerFunc(func(writer http.ResponseWriter, r *http.Request) {
				defer func() {'''), (SERVER, '''				var res = route.handler(&api.ReqContext{
					ClusterClients: currentClients,
					Store:          currentStore,
					Request:        r,
					Writer:         writer,
				})''', '''				ctx.ClusterClients, ctx.Store = currentClients, currentStore
				ctx.Request, ctx.Writer = r, writer
				var res = route.handler(ctx)''')], 'server', HTTP + '''
func TestDemo(t *testing.T) {
	e := setup(t, "", "c1")
	e.up.answer = func(r *http.Request) (int, string) { return 200, `{"limit":` + r.URL.Query().Get("limit") + `}` }
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j := 0; j < 200; j++ {
				target := fmt.Sprintf("/apis/apps/v1/deployments?limit=%d", i)
				if rec := e.do("GET", target, ""); strings.TrimSpace(rec.Body.String()) != fmt.Sprintf(`{"limit":%d}`, i) {
					t.Errorf("demo: %s is answered %s", target, rec.Body)
					return
				}
			}
		}(i)
	}
	wg.Wait()
}
''', "two requests of the same route at the same time", "one of them is answered with, or into, the other one's request", flags='-race ')

# --- C23
plant('c23-early-default', 'C23', [(MAIN, '''	common.InitConfig(&cfg)

	// 记录''', '''
	// 记录'''), (MAIN, '''		cfg.DefaultCluster = kubecfg.CurrentContext
''', '''		cfg.DefaultCluster = kubecfg.CurrentContext
		// the clients may ask for the configuration
		common.InitConfig(&cfg)
'''), (MAIN, '''			clusterConfigs[cfg.DefaultCluster] = *c
''', '''			common.InitConfig(&cfg)
			clusterConfigs[cfg.DefaultCluster] = *c
''')], 'cmd/cacheproxy', '''
package main

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/DaoCloud/ckube/common"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	conf, kube := filepath.Join(dir, "config.json"), filepath.Join(dir, "kubeconfig")
	write := func(file, text string) {
		if err := os.WriteFile(file, []byte(text), 0o600); err != nil {
			t.Fatal(err)
		}
	}
	write(conf, `{"proxies":[],"token":""}`)
	kubeconfig := func(current, server string) string {
		return `{"apiVersion":"v1","kind":"Config","current-context":"` + current + `","clusters":[{"name":"a","cluster":{"server":"http://127.0.0.1:1"}},{"name":"b","cluster":{"server":"` + server + `"}}],"contexts":[{"name":"a","context":{"cluster":"a"}},{"name":"b","context":{"cluster":"b"}}]}`
	}
	write(kube, kubeconfig("a", "http://127.0.0.1:1"))
	if _, _, _, err := loadFromConfig(kube, conf); err != nil {
		t.Fatalf("demo: %v", err)
	}
	if got := common.GetConfig().DefaultCluster; got != "a" {
		t.Fatalf("demo: the default cluster is %q", got)
	}
	// the context is changed and one of the servers is no URL
	write(kube, kubeconfig("b", "http://127.0.0.1:1:2:%zz"))
	if _, _, _, err := loadFromConfig(kube, conf); err == nil {
		t.Skip("demo: taken for valid")
	}
	if got := common.GetConfig().DefaultCluster; got != "a" {
		t.Fatalf("demo: after an invalid edit the default cluster is %q", got)
	}
}
''', "an edit of the kubeconfig that changes the current context and makes one of the clusters invalid", "the rejected kubeconfig's current context becomes the default cluster")

# --- C29
plant('c29-no-flush', 'C29', [(SERVER, '''	w.ResponseWriter.WriteHeader(status)
	w.ResponseWriter.(http.Flusher).Flush()
''', '''	w.ResponseWriter.WriteHeader(status)
	if status >= http.StatusBadRequest {
		// others are flushed with what follows
		w.ResponseWriter.(http.Flusher).Flush()
	}
''')], 'server', HTTP.replace('	"testing"\n', '	"testing"\n	"time"\n') + '''
func TestDemo(t *testing.T) {
	api := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(200)
		w.(http.Flusher).Flush()
		select {
		case <-r.Context().Done():
		case <-time.After(20 * time.Second):
		}
	}))
	defer api.Close()
	setup(t, "", "c1")
	cs, err := kubernetes.NewForConfig(&rest.Config{Host: api.URL, QPS: -1})
	if err != nil {
		t.Fatal(err)
	}
	var h *mux.Router
	NewMuxServer("", map[string]kubernetes.Interface{"c1": cs}, memory.NewMemoryStore(map[store.GroupVersionResource]map[string]string{}), func(r *mux.Router) { h = r })
	proxy := httptest.NewServer(h)
	defer proxy.Close()
	client := &http.Client{Timeout: 10 * time.Second}
	resp, err := client.Get(proxy.URL + "/api/v1/configmaps?watch=true")
	if err != nil {
		t.Fatalf("demo: the watch is accepted, the client has no answer: %v", err)
	}
	resp.Body.Close()
}
''', "a proxied watch whose API server sends no event for a while", "the client is not told that its watch was accepted before the first event")

# --- C30
FAKEHEAD = '''
package fake

import (
	"context"
	"testing"
	"time"

	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/client-go/kubernetes"
)

const demoConf = `{"default_cluster":"c1","proxies":[{"version":"v1","resource":"pods","list_kind":"PodList","index":{"namespace":"{.metadata.namespace}","name":"{.metadata.name}"}},{"group":"example.io","version":"v1","resource":"listitems","list_kind":"ListItemList","index":{}}]}`

func demoServer(t *testing.T, addr string) (CkubeServer, *kubernetes.Clientset) {
	s, err := NewFakeCKubeServer(addr, demoConf)
	if err != nil {
		t.Skip(err)
	}
	return s, kubernetes.NewForConfigOrDie(s.GetKubeConfig())
}
'''
plant('c30-namespace-prefix', 'C30', [(FAKE, '''				(e.Namespace == namespace || namespace == "") {
''', '''				strings.HasPrefix(e.Namespace, namespace) {
''')], 'pkg/client/fake', FAKEHEAD + '''
func TestDemo(t *testing.T) {
	s, c := demoServer(t, "127.0.0.1:18618")
	defer s.Stop()
	w, err := c.CoreV1().Pods("team").Watch(context.Background(), metav1.ListOptions{})
	if err != nil {
		t.Fatal(err)
	}
	defer w.Stop()
	for _, ns := range []string{"team-a", "team"} {
		if _, err := c.CoreV1().Pods(ns).Create(context.Background(), &corev1.Pod{ObjectMeta: metav1.ObjectMeta{Name: "web", Namespace: ns}}, metav1.CreateOptions{}); err != nil {
			t.Fatal(err)
		}
	}
	select {
	case e := <-w.ResultChan():
		if p, ok := e.Object.(*corev1.Pod); !ok || p.Namespace != "team" {
			t.Fatalf("demo: a watch of team reports %v %v", e.Type, e.Object)
		}
	case <-time.After(20 * time.Second):
		t.Fatal("demo: no event")
	}
}
''', "a change in a namespace whose name begins with that of a watched one", "the watch reports changes of another namespace")

# --- C31
plant('c31-trim-right', 'C31', [(FAKE, '''strings.TrimSuffix(p.ListKind, "List"),''', '''strings.TrimRight(p.ListKind, "List"),''')], 'pkg/client/fake', FAKEHEAD.replace('	"context"\n', '').replace('	"time"\n', '').replace('''	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
''', '') + '''
func TestDemo(t *testing.T) {
	s, err := NewFakeCKubeServer("127.0.0.1:18619", `{"proxies":[{"version":"v1","resource":"secrets","list_kind":"SecretList","index":{}},{"version":"v1","resource":"pods","list_kind":"PodList","index":{}}]}`)
	if err != nil {
		t.Skip(err)
	}
	defer s.Stop()
	l, err := kubernetes.NewForConfigOrDie(s.GetKubeConfig()).Discovery().ServerResourcesForGroupVersion("v1")
	if err != nil {
		t.Fatal(err)
	}
	for _, r := range l.APIResources {
		if want := map[string]string{"secrets": "Secret", "pods": "Pod"}[r.Name]; r.Kind != want {
			t.Fatalf("demo: the kind of %s is %q", r.Name, r.Kind)
		}
	}
}
''', "a kind that ends in one of the letters of List, such as Secret", "discovery gives it a wrong kind")

# --- C32
plant('c32-late-stop', 'C32', [(MAIN, '''				_ = w.Stop()
''', '''				// not before the new one has had the time to fill its store
				time.AfterFunc(2*time.Minute, func() { _ = w.Stop() })
'''), (MAIN, '''	"path"
''', '''	"path"
	"time"
''')], 'cmd/cacheproxy', '''
package main

import (
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"sync/atomic"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	open := int64(0)
	api := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(200)
		w.(http.Flusher).Flush()
		if r.URL.Query().Get("watch") == "true" {
			atomic.AddInt64(&open, 1)
			<-r.Context().Done()
			atomic.AddInt64(&open, -1)
		}
	}))
	dir := t.TempDir()
	write := func(file, text string) string {
		f := filepath.Join(dir, file)
		if err := os.WriteFile(f, []byte(text), 0o600); err != nil {
			t.Fatal(err)
		}
		return f
	}
	bin := filepath.Join(dir, "cacheproxy")
	if out, err := exec.Command("go", "build", "-o", bin, ".").CombinedOutput(); err != nil {
		t.Fatalf("%v %s", err, out)
	}
	pods := `{"group":"","version":"v1","resource":"pods","list_kind":"PodList","index":{}}`
	conf := write("config.json", `{"proxies":[`+pods+`]}`)
	kube := write("kubeconfig", `{"apiVersion":"v1","kind":"Config","current-context":"a","clusters":[{"name":"a","cluster":{"server":"`+api.URL+`"}}],"contexts":[{"name":"a","context":{"cluster":"a"}}]}`)
	p := exec.Command(bin, "-c", conf, "-k", kube, "-a", "127.0.0.1:18692")
	p.Env = append(os.Environ(), "HOME="+dir)
	if err := p.Start(); err != nil {
		t.Fatal(err)
	}
	defer func() {
		_ = p.Process.Kill()
		_ = p.Wait()
		api.CloseClientConnections()
	}()
	reach := func(n int64) bool {
		for end := time.Now().Add(30 * time.Second); time.Now().Before(end); time.Sleep(50 * time.Millisecond) {
			if atomic.LoadInt64(&open) == n {
				return true
			}
		}
		return false
	}
	if !reach(1) {
		t.Fatal("demo: the resource is not watched")
	}
	time.Sleep(time.Second)
	write("config.json", `{"proxies":[`+pods+`,{"group":"","version":"v1","resource":"services","list_kind":"ServiceList","index":{}}]}`)
	time.Sleep(2 * time.Second)
	if !reach(2) {
		t.Fatalf("demo: two resources are configured, %d streams are open", atomic.LoadInt64(&open))
	}
}
''', "a reload", "for two minutes the streams of the old configuration stay open next to the new ones")

plant('c33-answering-clusters', 'C33', [(MAIN, '''			clusterClients[ctx.Name] = client
''', '''			clusterClients[ctx.Name], err = answering(client)
			if err != nil {
				log.Errorf("cluster %s does not answer: %v", ctx.Name, err)
				return nil, nil, nil, err
			}
'''), (MAIN, '''func GetK8sConfigConfigWithFile(''', '''// answering tells at once that an address is wrong.
func answering(c kubernetes.Interface) (kubernetes.Interface, error) {
	_, err := c.Discovery().ServerVersion()
	return c, err
}

func GetK8sConfigConfigWithFile(''')], 'cmd/cacheproxy', '''package main

import (
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	write := func(file, text string) string {
		f := filepath.Join(dir, file)
		if err := os.WriteFile(f, []byte(text), 0o600); err != nil {
			t.Fatal(err)
		}
		return f
	}
	bin := filepath.Join(dir, "cacheproxy")
	if out, err := exec.Command("go", "build", "-o", bin, ".").CombinedOutput(); err != nil {
		t.Fatalf("%v %s", err, out)
	}
	conf := write("config.json", `{"proxies":[]}`)
	run := func(addr, kube string) func() {
		p := exec.Command(bin, "-c", conf, "-k", kube, "-a", addr)
		p.Env = append(os.Environ(), "HOME="+dir)
		if err := p.Start(); err != nil {
			t.Fatal(err)
		}
		return func() {
			_ = p.Process.Kill()
			_ = p.Wait()
		}
	}
	// soon is true when the answer becomes that one
	soon := func(url, want string) bool {
		got := ""
		for end := time.Now().Add(20 * time.Second); time.Now().Before(end); time.Sleep(50 * time.Millisecond) {
			if resp, err := http.Get(url); err == nil {
				b, _ := io.ReadAll(resp.Body)
				_ = resp.Body.Close()
				if got = string(b); got == want {
					return true
				}
			}
		}
		fmt.Println("demo: got", got)
		return false
	}
	api := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		_, _ = w.Write([]byte("{}"))
	}))
	kube := write("kubeconfig", `{"apiVersion":"v1","kind":"Config","current-context":"a","clusters":[{"name":"a","cluster":{"server":"`+api.URL+`"}},{"name":"b","cluster":{"server":"http://127.0.0.1:1"}}],"contexts":[{"name":"a","context":{"cluster":"a"}},{"name":"b","context":{"cluster":"b"}}]}`)
	defer run("127.0.0.1:18695", kube)()
	if !soon("http://127.0.0.1:18695/healthy", "1") {
		t.Fatal("demo: the proxy does not start because one of its clusters does not answer")
	}
}
''', "a cluster whose API server does not answer while the program starts", "the program does not start, although the other clusters could be served")

plant('c23-kept-clients', 'C23', [(MAIN, '''			clusterClients[ctx.Name] = client
''', '''			if _, ok := knownClients[ctx.Name+" "+c.Host]; !ok {
				knownClients[ctx.Name+" "+c.Host] = client
			}
			// keeps its connections
			clusterClients[ctx.Name] = knownClients[ctx.Name+" "+c.Host]
'''), (MAIN, '''func GetK8sConfigConfigWithFile(''', '''// knownClients are those of contexts whose server is still the same.
var knownClients = map[string]*kubernetes.Clientset{}

func GetK8sConfigConfigWithFile(''')], 'cmd/cacheproxy', '''package main

import (
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	write := func(file, text string) string {
		f := filepath.Join(dir, file)
		if err := os.WriteFile(f, []byte(text), 0o600); err != nil {
			t.Fatal(err)
		}
		return f
	}
	bin := filepath.Join(dir, "cacheproxy")
	if out, err := exec.Command("go", "build", "-o", bin, ".").CombinedOutput(); err != nil {
		t.Fatalf("%v %s", err, out)
	}
	conf := write("config.json", `{"proxies":[]}`)
	run := func(addr, kube string) func() {
		p := exec.Command(bin, "-c", conf, "-k", kube, "-a", addr)
		p.Env = append(os.Environ(), "HOME="+dir)
		if err := p.Start(); err != nil {
			t.Fatal(err)
		}
		return func() {
			_ = p.Process.Kill()
			_ = p.Wait()
		}
	}
	// soon is true when the answer becomes that one
	soon := func(url, want string) bool {
		got := ""
		for end := time.Now().Add(20 * time.Second); time.Now().Before(end); time.Sleep(50 * time.Millisecond) {
			if resp, err := http.Get(url); err == nil {
				b, _ := io.ReadAll(resp.Body)
				_ = resp.Body.Close()
				if got = string(b); got == want {
					return true
				}
			}
		}
		fmt.Println("demo: got", got)
		return false
	}
	api := httptest.NewTLSServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		_, _ = w.Write([]byte(`{"as":"` + r.Header.Get("Authorization") + `"}`))
	}))
	kube := func(token string) string {
		return write("kubeconfig", `{"apiVersion":"v1","kind":"Config","current-context":"a","clusters":[{"name":"a","cluster":{"server":"`+api.URL+`","insecure-skip-tls-verify":true}}],"contexts":[{"name":"a","context":{"cluster":"a","user":"u"}}],"users":[{"name":"u","user":{"token":"`+token+`"}}]}`)
	}
	defer run("127.0.0.1:18696", kube("one"))()
	url := "http://127.0.0.1:18696/api/v1/nodes"
	if !soon(url, `{"as":"Bearer one"}`) {
		t.Fatal("demo: the first token is not used")
	}
	kube("two")
	if !soon(url, `{"as":"Bearer two"}`) {
		t.Fatal("demo: the new token is not used")
	}
}
''', "an edit of the kubeconfig that changes a user's credentials but not the cluster's server", "the old credentials are used until the restart")

# --- C34
plant('c34-last-write', 'C34', [(SERVER, '''	w.length += n
''', '''	w.length = n
''')], 'server', HTTP.replace('	"testing"\n', '	"testing"\n	"time"\n').replace('	"github.com/DaoCloud/ckube/page"\n', '	"github.com/DaoCloud/ckube/log"\n	"github.com/DaoCloud/ckube/page"\n') + '''
func TestDemo(t *testing.T) {
	api := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		for i := 0; i < 3; i++ {
			fmt.Fprintf(w, `{"type":"ADDED","object":{"metadata":{"name":"o%d"}}}`+"\\n", i)
			w.(http.Flusher).Flush()
			time.Sleep(100 * time.Millisecond)
		}
	}))
	defer api.Close()
	setup(t, "", "c1")
	cs, err := kubernetes.NewForConfig(&rest.Config{Host: api.URL, QPS: -1})
	if err != nil {
		t.Fatal(err)
	}
	var h *mux.Router
	NewMuxServer("", map[string]kubernetes.Interface{"c1": cs}, memory.NewMemoryStore(map[store.GroupVersionResource]map[string]string{}), func(r *mux.Router) { h = r })
	out := &bytes.Buffer{}
	log.AccessLog.SetOutput(out)
	proxy := httptest.NewServer(h)
	resp, err := http.Get(proxy.URL + "/api/v1/configmaps?watch=true")
	if err != nil {
		t.Fatal(err)
	}
	b, _ := io.ReadAll(resp.Body)
	resp.Body.Close()
	proxy.Close() // waits for the request
	if want := fmt.Sprintf("content_length=%d ", len(b)); !strings.Contains(out.String(), want) {
		t.Fatalf("demo: %d bytes were answered, and the access log says %s", len(b), out)
	}
}
''', "an answer in several pieces, such as a proxied watch with several events", "the access log tells the size of the last piece only")

# --- C35
plant('c35-blocked-sender', 'C35', [(PROXY, '''	buf := bytes.NewBuffer([]byte{})
	for {
		t := make([]byte, 1)
		_, err := reader.Read(t)
		if err != nil {
			_, _ = r.Writer.Write(buf.Bytes())
			return nil
		}
		buf.Write(t)
		if t[0] == '\\n' {
			_, _ = r.Writer.Write(buf.Bytes())
			buf.Reset()
		}
		select {
		case <-r.Request.Context().Done():
			return nil
		default:
		}
	}
''', '''	lines := make(chan []byte)
	go func() {
		defer close(lines)
		in := bufio.NewReader(reader)
		for {
			line, err := in.ReadBytes('\\n')
			if len(line) > 0 {
				lines <- line
			}
			if err != nil {
				return
			}
		}
	}()
	for {
		select {
		case line, ok := <-lines:
			if !ok {
				return nil
			}
			_, _ = r.Writer.Write(line)
		case <-r.Request.Context().Done():
			return nil
		}
	}
'''), (PROXY, '''import (
	"bytes"
''', '''import (
	"bufio"
	"bytes"
''')], 'server', HTTP.replace('	"sync"\n', '	"context"\n	"runtime"\n	"sync"\n').replace('	"testing"\n', '	"testing"\n	"time"\n') + '''
func TestDemo(t *testing.T) {
	api := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		for r.Context().Err() == nil {
			if _, err := fmt.Fprintln(w, strings.Repeat("x", 100)); err != nil {
				return
			}
			w.(http.Flusher).Flush()
		}
	}))
	defer api.Close()
	setup(t, "", "c1")
	cs, err := kubernetes.NewForConfig(&rest.Config{Host: api.URL, QPS: -1})
	if err != nil {
		t.Fatal(err)
	}
	var h *mux.Router
	NewMuxServer("", map[string]kubernetes.Interface{"c1": cs}, memory.NewMemoryStore(map[store.GroupVersionResource]map[string]string{}), func(r *mux.Router) { h = r })
	for i := 0; i < 50; i++ {
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Millisecond)
		h.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/api/v1/configmaps?watch=true", nil).WithContext(ctx))
		cancel()
	}
	left := 0
	for end := time.Now().Add(10 * time.Second); time.Now().Before(end); time.Sleep(50 * time.Millisecond) {
		buf := make([]byte, 1<<22)
		buf = buf[:runtime.Stack(buf, true)]
		if left = strings.Count(string(buf), "created by github.com/DaoCloud/ckube/api."); left == 0 {
			return
		}
	}
	t.Fatalf("demo: all clients have left, and %d goroutines of the proxy are left", left)
}
''', "a client that leaves its watch just while the API server's next event arrives", "a goroutine, with its connection's buffers, is left for ever")

# --- C36
plant('c36-delete-many', 'C36', [(PROXY, '''	if r.Method == http.MethodDelete {
''', '''	if r.Method == http.MethodDelete && mux.Vars(r)["resource"] != "" {
''')], 'server', HTTP + '''
func TestDemo(t *testing.T) {
	e := setup(t, "", "c1", "c2")
	e.do("DELETE", "/api/v1/namespaces/a/pods", `{"dryRun":["dsm-cluster-c2"]}`)
	if len(e.up.seen) != 1 || !strings.HasPrefix(e.up.seen[0], "c2 ") {
		t.Fatalf("demo: the API servers got %v", e.up.seen)
	}
}
''', "a deletion of all objects of a namespace that is addressed to another cluster than the default one", "it goes to the default cluster")

# --- found by the third wave of edits (mutants3.py)
plant('c05-three-keys', 'C05', [(MEM, '''	var sortErr error = nil
''', '''	if len(sorts) > maxSortKeys {
		sorts = sorts[:maxSortKeys]
	}
	var sortErr error
'''), (MEM, '''func NewMemoryStore(''', '''// maxSortKeys limits the comparisons of two objects.
const maxSortKeys = 3

func NewMemoryStore(''')], 'store/memory', MEMTEST + '''
func TestDemo(t *testing.T) {
	s := NewMemoryStore(map[store.GroupVersionResource]map[string]string{demoPods: {"name": "{.metadata.name}", "a": "{.metadata.labels.a}", "b": "{.metadata.labels.b}", "c": "{.metadata.labels.c}", "d": "{.metadata.labels.d}"}})
	for name, d := range map[string]string{"x": "2", "y": "1"} {
		_ = s.OnResourceAdded(demoPods, "c1", &corev1.Pod{ObjectMeta: metav1.ObjectMeta{Namespace: "a", Name: name, Labels: map[string]string{"a": "1", "b": "1", "c": "1", "d": d}}})
	}
	res := s.Query(demoPods, store.Query{Paginate: page.Paginate{Sort: "a,b,c,d"}})
	if got := res.Items[0].(*corev1.Pod).Name; got != "y" {
		t.Fatalf("demo: %s comes first", got)
	}
}
''', "a sort of more than three keys, and objects equal in the first three", "the later keys are ignored")

plant('c18-older-version', 'C18', [(WATCH, '''						case watch.Modified:
							_ = w.store.OnResourceModified(r, cluster, rr.Object)
''', '''						case watch.Modified:
							if !w.outdated(r, cluster, rr.Object) {
								_ = w.store.OnResourceModified(r, cluster, rr.Object)
							}
'''), (WATCH, '''func (w *watcher) watchResources(''', '''// outdated says whether a newer version of the object is known.
func (w *watcher) outdated(r store.GroupVersionResource, cluster string, obj interface{}) bool {
	fresh, ok := obj.(v1.Object)
	if !ok {
		return false
	}
	known, ok := w.store.Get(r, cluster, fresh.GetNamespace(), fresh.GetName()).(v1.Object)
	return ok && known.GetResourceVersion() > fresh.GetResourceVersion()
}

func (w *watcher) watchResources(''')], 'watcher', WATCHTEST + '''
func TestDemo(t *testing.T) {
	version := func(typ, v string) string {
		return fmt.Sprintf(`{"type":%q,"object":{"kind":"Pod","apiVersion":"v1","metadata":{"namespace":"a","name":"x","resourceVersion":%q}}}`+"\\n", typ, v)
	}
	_, m, _ := start(t, func(n int64, w http.ResponseWriter, r *http.Request) {
		flush(w, version("ADDED", "9")+version("MODIFIED", "10"))
		<-r.Context().Done()
	})
	if !eventually(20*time.Second, func() bool { p, ok := m.Get(pods, "c1", "a", "x").(*corev1.Pod); return ok && p.ResourceVersion == "10" }) {
		t.Fatal("demo: the modification was not applied")
	}
}
''', "a modification that takes the resource version to another number of digits", "it is not applied")

plant('c24-busy-reader', 'C24', [('utils/fs_watcher.go', '''				w.events <- Event{
					Name: e.Name,
					Type: EventTypeChanged,
				}
''', '''				select {
				case w.events <- Event{Name: e.Name, Type: EventTypeChanged}:
				case <-time.After(time.Second * 2):
					log.Warnf("nobody reads the events of %s", e.Name)
				}
''')], 'utils', '''
package utils

import (
	"os"
	"path/filepath"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	a, b := filepath.Join(dir, "a"), filepath.Join(dir, "b")
	for _, f := range []string{a, b} {
		if err := os.WriteFile(f, []byte("1"), 0o644); err != nil {
			t.Fatal(err)
		}
	}
	w, err := NewFixedFileWatcher([]string{a, b})
	if err != nil {
		t.Fatal(err)
	}
	if err := w.Start(); err != nil {
		t.Fatal(err)
	}
	_ = os.Chtimes(a, time.Now(), time.Now())
	f, err := os.OpenFile(b, os.O_APPEND|os.O_WRONLY, 0)
	if err != nil {
		t.Fatal(err)
	}
	_, _ = f.WriteString("2")
	_ = f.Close()
	time.Sleep(4 * time.Second) // the reader is busy
	select {
	case e := <-w.Events():
		if e.Name != b {
			t.Fatalf("demo: %+v", e)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("demo: no event")
	}
}
''', "a change while the reader is busy with an earlier one for more than two seconds, such as with a reload", "it is not announced")

plant('c29-in-flight', 'C29', [(SERVER, '''				var res = route.handler(''', '''				var res = bounded(route.handler)('''), (SERVER, '''func jsonResp(''', '''// inFlight are the requests that are being answered.
var inFlight = make(chan struct{}, 100)

func bounded(h HandleFunc) HandleFunc {
	return func(r *api.ReqContext) interface{} {
		inFlight <- struct{}{}
		defer func() { <-inFlight }()
		return h(r)
	}
}

func jsonResp(''')], 'server', HTTP.replace('	"sync"\n', '	"context"\n	"sync"\n').replace('	"testing"\n', '	"testing"\n	"time"\n') + '''
func TestDemo(t *testing.T) {
	api := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(200)
		w.(http.Flusher).Flush()
		<-r.Context().Done()
	}))
	defer api.Close()
	setup(t, "", "c1")
	cs, err := kubernetes.NewForConfig(&rest.Config{Host: api.URL, QPS: -1})
	if err != nil {
		t.Fatal(err)
	}
	var h *mux.Router
	NewMuxServer("", map[string]kubernetes.Interface{"c1": cs}, memory.NewMemoryStore(map[store.GroupVersionResource]map[string]string{}), func(r *mux.Router) { h = r })
	proxy := httptest.NewServer(h)
	defer func() { go proxy.Close() }()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	for i := 0; i < 130; i++ {
		r, _ := http.NewRequestWithContext(ctx, "GET", proxy.URL+"/api/v1/configmaps?watch=true", nil)
		late := time.AfterFunc(10*time.Second, cancel)
		resp, err := http.DefaultClient.Do(r)
		if err != nil {
			t.Fatalf("demo: watch %d is not answered: %v", i+1, err)
		}
		late.Stop()
		defer resp.Body.Close()
	}
}
''', "more than 100 watches open at the same time", "further requests are not answered until one of them ends")

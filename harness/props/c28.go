package props

import (
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync"
	"time"

	"ckverif/vk"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/server"
	"github.com/DaoCloud/ckube/store"
	"github.com/gorilla/mux"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/client-go/kubernetes"
	"pgregory.net/rapid"
)

// Built with the race detector. Requests are answered one after the other first, by the old and by
// the new content, and then all at once, while the content is exchanged.

type c28Case struct {
	Default string     `json:"default"`
	Token   string     `json:"token,omitempty"`
	Old     []SObj     `json:"old"`
	New     []SObj     `json:"new"`
	Clients [][]rawReq `json:"clients"` // requests of each client, one after the other
	Rounds  int        `json:"rounds"`
	Resets  int        `json:"resets"`
}

func genC28Req(t *rapid.T, token string, objs []SObj) rawReq {
	if chance(t, "odd", 15) {
		return genRaw(t)
	}
	r := rawReq{Method: "GET"}
	g := pickFrom(t, "resource", []GVR{gvrPods, gvrPods, gvrServices, gvrWidgets})
	ns, name := pick(t, "ns", "", "a", "b"), pick(t, "name", "web", "b", "nothing")
	if len(objs) > 0 && chance(t, "there", 70) {
		o := pickFrom(t, "object", objs)
		ns, name = o.NS, o.Name
	}
	cluster := pick(t, "cluster", "c1", "c2", "c3")
	marker := url.QueryEscape("dsm-cluster-" + cluster)
	switch intIn(t, "kind", 0, 9) {
	case 0, 1, 2, 3:
		p := page.Paginate{}
		if chance(t, "sorted", 40) {
			p.Sort = pick(t, "sort", "name", "name desc,cluster,namespace", "k1 desc", "absent")
		}
		if chance(t, "paged", 40) {
			p.Page, p.PageSize = int64(intIn(t, "page", 1, 3)), int64(intIn(t, "size", 1, 4))
		}
		if chance(t, "search", 30) {
			p.Search = pick(t, "needle", "name=web", "web", "k1=a", "absent=1", "!b")
		}
		if chance(t, "clusters", 60) {
			must(p.Clusters(pick(t, "of", []string{"c1"}, []string{"c2"}, []string{"c1", "c2"}, []string{"c3", "c1"})))
		}
		sel := ""
		if chance(t, "selector", 30) {
			sel = genLabelSelector(t, 2)
		}
		target, err := listTarget(g, ns, sel, p)
		must(err)
		r.Target = target
		if chance(t, "table", 25) {
			r.Header = append(r.Header, param{"Accept", "application/json;as=Table;v=v1;g=meta.k8s.io,application/json"})
		}
	case 4, 5:
		r.Target = collectionPath(g, ns) + "/" + name
		if chance(t, "addressed", 60) {
			r.Target += "?resourceVersion=" + marker
		}
	case 6:
		r.Method = pick(t, "method", "POST", "PUT", "PATCH", "DELETE")
		r.Target = collectionPath(g, ns) + "/" + name
		r.Body = fmt.Sprintf(`{"metadata":{"name":"x-%d"}}`, intIn(t, "body", 0, 9))
		if r.Method == "DELETE" {
			r.Body = fmt.Sprintf(`{"dryRun":["dsm-cluster-%s","All"],"gracePeriodSeconds":%d}`, cluster, intIn(t, "grace", 0, 9))
		} else if chance(t, "addressed", 60) {
			r.Target += "?fieldManager=" + marker
		}
	case 7:
		r.Target = collectionPath(gvrDeploys, ns) + fmt.Sprintf("?limit=%d", intIn(t, "limit", 0, 9))
	case 8:
		r.Target = fmt.Sprintf("%s?watch=true&timeoutSeconds=%d", collectionPath(g, ns), intIn(t, "timeout", 1, 99))
		if chance(t, "short", 30) {
			r.Target = strings.Replace(r.Target, "?", "?timeout=3s&", 1)
		}
	case 9:
		r.Target = fmt.Sprintf("/custom/v1/clusters/%s/namespaces/%s/deployments/web/services", cluster, pick(t, "of ns", "a", "b"))
	}
	if token != "" && chance(t, "authorised", 80) {
		r.Header = append(r.Header, param{"Authorization", "Bearer " + token})
	}
	return r
}

func genC28(t *rapid.T) c28Case {
	c := c28Case{Default: pick(t, "default", "c1", "c2"), Token: pick(t, "token", "", "", "s3cret"), Rounds: pick(t, "rounds", 1, 3), Resets: pick(t, "resets", 0, 0, 2, 6)}
	objs := func() []SObj {
		return genSObjs(t, 0, 12, []string{"c1", "c2"}, []string{"a", "b"}, genIndexValue)
	}
	c.Old = objs()
	c.New = objs()
	for i := intIn(t, "clients", 2, 6); i > 0; i-- {
		l := []rawReq{}
		for j := intIn(t, "requests", 1, 8); j > 0; j-- {
			l = append(l, genC28Req(t, c.Token, append(append([]SObj{}, c.Old...), c.New...)))
		}
		c.Clients = append(c.Clients, l)
	}
	if chance(t, "twins", 40) { // every client starts with the same request, but for its cluster or a header
		first := rawReq{Method: pick(t, "method of twins", "GET", "GET", "GET", "GET", "DELETE", "PUT")}
		path := pick(t, "twin", collectionPath(gvrDeploys, "a")+"?limit=1", collectionPath(gvrDeploys, "a")+"/web?", collectionPath(gvrPods, "a")+"/web?", collectionPath(gvrPods, "")+"?watch=true&timeoutSeconds=7")
		for i := range c.Clients {
			r := first
			r.Target = path
			if chance(t, "twin addressed", 85) {
				r.Target += "&resourceVersion=" + url.QueryEscape("dsm-cluster-"+pick(t, "cluster of twin", "c1", "c2", "c2", "c3"))
			}
			r.Target = strings.TrimSuffix(strings.Replace(r.Target, "?&", "?", 1), "?")
			if r.Method == "PUT" {
				r.Body = fmt.Sprintf(`{"metadata":{"name":"x-%d"}}`, i)
			}
			if chance(t, "accept of twin", 25) {
				r.Header = append(r.Header, param{"Accept", pick(t, "accepts", "application/json", "application/yaml")})
			}
			if c.Token != "" {
				r.Header = append(r.Header, param{"Authorization", "Bearer " + c.Token})
			}
			c.Clients[i] = append([]rawReq{r}, c.Clients[i]...)
		}
	}
	return c
}

// c28Up echoes every request, as the API server of a cluster in a generation.
func c28Up(generation string) *upstream {
	return &upstream{answer: func(r upReq) (int, http.Header, io.ReadCloser) {
		h := r.Header.Clone()
		for k := range h {
			if k != "Accept" && k != "Content-Type" {
				h.Del(k)
			}
		}
		line, err := json.Marshal(map[string]interface{}{"by": r.Cluster, "generation": generation, "method": r.Method, "path": r.Path, "query": r.Query, "body": r.Body, "header": h})
		must(err)
		time.Sleep(time.Duration(len(line)%4) * 200 * time.Microsecond)
		if strings.Contains(r.Query, "watch=true") {
			lines := []io.Reader{}
			for i := 0; i < 3; i++ {
				lines = append(lines, &slowReader{r: strings.NewReader(fmt.Sprintf("{\"n\":%d,\"of\":%s}\n", i, line))})
			}
			return 200, jsonHeader(), io.NopCloser(io.MultiReader(lines...))
		}
		if len(line)%5 == 0 {
			return 409, jsonHeader(), bodyOf(fmt.Sprintf(`{"kind":"Status","apiVersion":"v1","status":"Failure","reason":"Conflict","message":%q,"code":409}`, line))
		}
		return 200, jsonHeader(), bodyOf(string(line) + "\n")
	}}
}

// slowReader lets others run before each piece.
type slowReader struct {
	r io.Reader
	n int
}

func (s *slowReader) Read(p []byte) (int, error) {
	if s.n -= len(p); s.n < 0 {
		s.n = 200
		time.Sleep(100 * time.Microsecond)
	}
	if len(p) > 60 {
		p = p[:60]
	}
	return s.r.Read(p)
}

// designations counts the places of a request that can name a cluster.
func designations(r rawReq) int {
	req, body, err := r.parse()
	if err != nil {
		return 0
	}
	n := 0
	q := req.URL.Query()
	for _, k := range []string{"cluster", "fieldManager", "resourceVersion"} {
		if _, ok := q[k]; ok {
			n++
		}
	}
	if strings.Contains(string(body), "dryRun") {
		n++
	}
	return n
}

func checkC28(_ *vk.Env, c c28Case) error {
	index := searchIndex()
	conf := map[GVR]map[string]string{gvrPods: index, gvrServices: index, gvrWidgets: index}
	cfg := func() *common.Config {
		return &common.Config{DefaultCluster: c.Default, Token: c.Token, Proxies: []common.Proxy{
			proxyConf(gvrPods, "PodList", index), proxyConf(gvrServices, "ServiceList", index), proxyConf(gvrWidgets, "WidgetList", index)}}
	}
	common.InitConfig(cfg())
	fill := func(objs []SObj) store.Store {
		s := newStore(conf)
		for i, o := range objs {
			p := o.build()
			if i%2 == 0 {
				p.OwnerReferences = []metav1.OwnerReference{{Kind: "ReplicaSet", Name: "web-5d4f"}}
				p.Name, p.Labels = o.Name, map[string]string{"app": "web", "n": fmt.Sprint(i)}
			}
			_ = s.OnResourceAdded(gvrPods, o.Cluster, p)
			_ = s.OnResourceAdded(gvrServices, o.Cluster, &corev1.Service{ObjectMeta: o.build().ObjectMeta, Spec: corev1.ServiceSpec{Selector: map[string]string{"app": "web"}}})
			_ = s.OnResourceAdded(gvrWidgets, o.Cluster, o.buildAny(true))
		}
		return s
	}
	contents := []string{"old", "new"}
	stores := []store.Store{fill(c.Old), fill(c.New)}
	clients := []map[string]kubernetes.Interface{c28Up("old").clients("c1", "c2"), c28Up("new").clients("c1", "c2", "c3")}
	var h *mux.Router
	ser := server.NewMuxServer("", clients[0], stores[0], func(r *mux.Router) { h = r })
	use := func(i int) { ser.ResetStore(stores[i], clients[i]) }
	ask := func(raw rawReq) (string, error) {
		req, _, err := raw.parse()
		if err != nil {
			return "", err
		}
		rec := httptest.NewRecorder()
		h.ServeHTTP(rec, req)
		body := rec.Body.String()
		if req.URL.Path == "/metrics" {
			body = ""
		}
		return fmt.Sprintf("%d %s %s", rec.Code, rec.Header().Get("Content-Type"), body), nil
	}
	alone := map[string][2]string{}
	key := func(r rawReq) string { b, _ := json.Marshal(r); return string(b) }
	for i, l := range c.Clients { // a request that names two clusters may be taken either way
		kept := []rawReq{}
		for _, r := range l {
			if designations(r) < 2 {
				kept = append(kept, r)
			}
		}
		c.Clients[i] = kept
	}
	for i := range contents {
		use(i)
		for _, l := range c.Clients {
			for _, r := range l {
				a, err := ask(r)
				if err != nil {
					continue
				}
				v := alone[key(r)]
				v[i] = a
				alone[key(r)] = v
			}
		}
	}
	use(0)
	var mu sync.Mutex
	var errs []string
	var wg sync.WaitGroup
	start, done := make(chan struct{}), make(chan struct{})
	for _, l := range c.Clients {
		wg.Add(1)
		go func(l []rawReq) {
			defer wg.Done()
			<-start
			for round := 0; round < c.Rounds; round++ {
				for _, r := range l {
					want, ok := alone[key(r)]
					if !ok {
						continue
					}
					got, err := ask(r)
					if err == nil && (got == want[0] || c.Resets > 0 && got == want[1]) {
						continue
					}
					mu.Lock()
					errs = append(errs, fmt.Sprintf("%s is answered %.600q (%v) among others, alone %.600q, by the other content %.600q", short(r), got, err, want[0], want[1]))
					mu.Unlock()
				}
			}
		}(l)
	}
	go func() {
		defer close(done)
		<-start
		for i := 1; i <= c.Resets; i++ {
			time.Sleep(300 * time.Microsecond)
			common.InitConfig(cfg())
			use(i % 2)
		}
	}()
	close(start)
	wg.Wait()
	<-done
	if len(errs) > 3 {
		errs = errs[:3]
	}
	if len(errs) > 0 {
		return joinErrs(errs)
	}
	// and nothing is left behind
	for i := range contents {
		use(i)
		for _, l := range c.Clients {
			for _, r := range l {
				if want, ok := alone[key(r)]; ok {
					if got, _ := ask(r); got != want[i] {
						return fmt.Errorf("%s is answered %.600q afterwards, before %.600q", short(r), got, want[i])
					}
				}
			}
		}
	}
	return nil
}

func classifyC28(c c28Case) (bool, []string) {
	n := 0
	methods := map[string]bool{}
	for _, l := range c.Clients {
		n += len(l)
		for _, r := range l {
			methods[r.Method] = true
		}
	}
	labels := []string{sizeClass("requests", n), fmt.Sprintf("clients=%d", len(c.Clients)), fmt.Sprintf("resets=%d", c.Resets)}
	for m := range methods {
		labels = append(labels, m)
	}
	return n > 4, labels
}

func init() {
	vk.Register(&vk.Property{
		ID:    "C28",
		Setup: func(*vk.Env) error { quietStdout(); return nil },
		Parts: []*vk.Part{vk.New(vk.Part{Name: "concurrent", Quick: 1000, Thorough: 30000, ReplayRuns: 40,
			Rule: "2-6 clients with 1-8 requests each, once or three times: lists with all options, tables, single reads, forwarded requests of five methods, watches, services of deployments and odd requests, answered alone by two contents and then all at once under the race detector, with 0-6 exchanges of the content; every answer, with the echo of what reached the API server, must be one of those given alone; in some cases all clients start with one request that only differs in its cluster or a header; non-trivial with more than four requests",
		}, vk.Def[c28Case]{Gen: genC28, Check: checkC28, Classify: classifyC28}), c28xPart},
		Assumptions: []string{"the configuration stays the same when the content is exchanged", "/metrics is only compared by its status"},
	})
}

package props

import (
	"bufio"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"

	"ckverif/vk"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/page"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"pgregory.net/rapid"
)

type rawReq struct {
	Method string  `json:"method"`
	Target string  `json:"target"` // as written in the request line
	Header []param `json:"header,omitempty"`
	Body   string  `json:"body,omitempty"`
	B64    bool    `json:"b64,omitempty"` // the body is base64, for bytes JSON can not hold
}

type c17Case struct {
	Resources []string `json:"resources"` // cached resources
	Index     string   `json:"index"`     // plain, none, odd
	Objs      []SObj   `json:"objs"`
	Owners    []string `json:"owners,omitempty"` // ReplicaSet names, given to the pods in turn
	Selectors int      `json:"selectors,omitempty"`
	Default   string   `json:"default"`
	Code      int      `json:"code"` // what API servers answer
	Reqs      []rawReq `json:"reqs"`
}

// odd texts for every place of a request
func genOdd(t *rapid.T) string {
	switch intIn(t, "odd", 0, 6) {
	case 0, 1, 2:
		return pick(t, "odd text", "", "a", "web", "web-1", "default", "-", "..", ".", "!", "!!", "\"", "\"\"", "=", "==", "!=", ",", ";", ";;", "(", ")", "in", "notin", "*", "%", "%zz", "%00", "+", " ", "\t", "#", "?", "/", "//", "\\", "{", "{}", "[]", "null", "true", "0", "-1", "9223372036854775807", "-9223372036854775808", "1e309", "NaN", "日本", "\x00", "\xff\xfe", "\u2028", "__ckube_as__:", "__ckube_as__:cluster in (c1)", "__ckube_as__:cluster in (", "__ckube_as__:x>1", "cluster=\"c1\"", "name=web", "k1", "k1 desc", "k1!int", "name=!", "name=\"", "absent=1", "dsm-cluster-", "dsm-cluster-c2", "dsm-cluster-nowhere", "ckube.daocloud.io/query", "<none>", "<error>", strings.Repeat("x", 70), strings.Repeat("a,", 200), strings.Repeat("(", 300))
	case 3, 4:
		return genText(t)
	case 5:
		return genIndexValue(t)
	}
	return fmt.Sprint(rapid.Int64().Draw(t, "number"))
}

// genPayload makes the text a ckube query is carried in.
func genPayload(t *rapid.T) string {
	doc := ""
	switch intIn(t, "payload", 0, 5) {
	case 0, 1:
		odd := func() interface{} {
			return pick[interface{}](t, "field", genOdd(t), -1, 0, 1, 3, int64(1)<<62, 9223372036854775807, 1.5, nil, true, []string{"a"}, map[string]int{"a": 1}, "1")
		}
		m := map[string]interface{}{}
		for _, k := range []string{"page", "page_size", "sort", "search", "total", "other", "Page"} {
			if chance(t, k, 50) {
				if strings.HasPrefix(k, "page") {
					m[k] = pick[interface{}](t, k, 1, 2, 3, 1000, 0, -1, odd())
				} else {
					m[k] = pick[interface{}](t, k, genOdd(t), genOdd(t), odd())
				}
			}
		}
		b, _ := json.Marshal(m)
		doc = string(b)
	case 2:
		doc = pick(t, "document", "{}", "[]", "null", "1", "\"x\"", "{", "{\"page\":", "{}{}", "", "{\"page\":1e400}", "{\"page\":99999999999999999999}", strings.Repeat("[", 5000), "{\"search\":\"\\ud800\"}", "{\"sort\":\"\u0000\"}")
	case 3:
		doc = genOdd(t)
	case 4:
		p := page.Paginate{Page: int64(intIn(t, "p", -1, 3)), PageSize: int64(intIn(t, "s", -1, 5)), Sort: genOdd(t), Search: genOdd(t)}
		b, _ := json.Marshal(p)
		doc = string(b)
	case 5:
		return genOdd(t)
	}
	switch intIn(t, "encoding", 0, 5) {
	case 0:
		return base64.StdEncoding.EncodeToString([]byte(doc))
	case 1:
		return base64.URLEncoding.EncodeToString([]byte(doc))
	}
	return base64.RawStdEncoding.EncodeToString([]byte(doc))
}

func genOddSelector(t *rapid.T) string {
	parts := []string{}
	for i := intIn(t, "terms", 0, 3); i > 0; i-- {
		k := pick(t, "key", QueryKey, QueryKey, QueryKey, "app", "tier", genOdd(t))
		pay := genPayload(t)
		if k == "app" || k == "tier" {
			pay = genOdd(t)
		}
		if chance(t, "short pieces", 20) { // pieces that are numbers, words, dots
			var pieces []string
			for j := intIn(t, "pieces", 1, 4); j > 0; j-- {
				pieces = append(pieces, pick(t, "piece", "0", "1", "12", "0000", "0001", "-3", "007", "1.", ".1", ".", "1.e30", "0.e30=", "0000.e", "1.2.3", "e30", "", "+1.e", "0x1.e", "1_0.e", "9999999999.e", "0.", genOdd(t)))
			}
			parts = append(parts, k+pick(t, "set", " notin (", " notin (", " in (")+strings.Join(pieces, ",")+")")
			continue
		}
		switch intIn(t, "shape", 0, 9) {
		case 0:
			parts = append(parts, k+"="+pay)
		case 1, 2, 3:
			parts = append(parts, k+" notin ("+pay+")")
		case 4:
			parts = append(parts, k+" in ("+pay+")")
		case 5:
			parts = append(parts, pick(t, "alone", k, "!"+k, k+"!="+pay, k+">1", k+" in ()", k+" notin (,)", k+"="))
		default: // in pieces, well formed or not
			pieces := []string{}
			for j, at := 0, 0; at < len(pay) && j < 6; j++ {
				n := intIn(t, "piece", 1, 56)
				end := min(len(pay), at+n)
				off := pick(t, "offset", fmt.Sprintf("%04d", at), fmt.Sprintf("%04d", at), fmt.Sprintf("%d", at), "", "x", "-1", "99999999999999999999", "0000")
				pieces = append(pieces, off+pick(t, "dot", ".", ".", ".", "..", "")+pay[at:end])
				at = end
			}
			parts = append(parts, k+pick(t, "set", " notin (", " notin (", " in (")+strings.Join(pieces, ",")+")")
		}
	}
	return strings.Join(parts, pick(t, "comma", ",", ", ", ",,"))
}

func genRaw(t *rapid.T) rawReq {
	r := rawReq{Method: pick(t, "method", "GET", "GET", "GET", "GET", "GET", "POST", "PUT", "PATCH", "DELETE", "DELETE", "OPTIONS", "HEAD", "TRACE", "X", "get", "LIST")}
	seg := func() string {
		s := pick(t, "segment", "web", "a", "pods", "services", "widgets", "namespaces", "default", "v1", genOdd(t))
		if chance(t, "raw", 25) {
			return strings.NewReplacer(" ", "%20", "\r", "", "\n", "", "?", "%3F", "\t", "%09").Replace(s)
		}
		return url.PathEscape(s)
	}
	ns, name := seg(), seg()
	switch intIn(t, "path", 0, 14) {
	case 0, 1:
		r.Target = "/api/v1/pods"
	case 2, 3:
		r.Target = "/api/v1/namespaces/" + ns + "/pods"
	case 4:
		r.Target = "/apis/example.io/v1/widgets"
	case 5:
		r.Target = "/apis/example.io/v1/namespaces/" + ns + "/widgets"
	case 6:
		r.Target = "/api/v1/namespaces/" + ns + "/pods/" + name
	case 7:
		r.Target = "/apis/" + seg() + "/" + seg() + "/" + seg() + "/" + seg()
	case 8:
		r.Target = "/custom/v1/namespaces/" + ns + "/deployments/" + name + "/services"
	case 9:
		r.Target = "/custom/v1/clusters/" + pick(t, "cluster", "c1", "c2", seg()) + "/namespaces/" + ns + "/deployments/" + name + "/services"
	case 10:
		for i := intIn(t, "segments", 0, 6); i >= 0; i-- {
			r.Target += "/" + seg()
		}
	case 11:
		r.Target = pick(t, "whole", "/", "*", "//", "/../", "/healthy", "/metrics", "http://other.test/api/v1/pods", "http://other.test", "/api/v1/watch/pods", "/api//v1/pods", "/%2e%2e/%2e%2e/etc/passwd", "/api/v1/namespaces//pods", "/watch/", "/apis/example.io/v1/watch/widgets", "/api/v1/pods/", "/:80/x", "//x:y@z/api/v1/pods", "/api/v1/pods;x=y", "/api/v1/pods%3Fwatch=1")
	case 12:
		r.Target = "/api/v1/services"
	case 13:
		r.Target = "/api/v1/namespaces/" + ns + "/services/" + name
	case 14:
		r.Target = collectionPath(GVR{Group: pick(t, "g", "", "example.io", "apps"), Version: pick(t, "v", "v1", "v2"), Resource: pick(t, "r", "pods", "widgets", "deployments")}, pick(t, "n", "", "a"))
	}
	q := []string{}
	for i := intIn(t, "params", 0, 3); i > 0; i-- {
		if chance(t, "raw query", 15) {
			q = append(q, strings.NewReplacer(" ", "+", "\r", "", "\n", "").Replace(genOdd(t)))
			continue
		}
		k := pick(t, "key", "labelSelector", "labelSelector", "labelSelector", "labelSelector", "cluster", "fieldManager", "resourceVersion", "watch", "timeout", "timeoutSeconds", "limit", "continue", genOdd(t))
		v := genOdd(t)
		if k == "labelSelector" {
			v = genOddSelector(t)
		}
		if k == "watch" {
			v = pick(t, "watch", "1", "true", "", "x", v)
		}
		q = append(q, url.QueryEscape(k)+"="+url.QueryEscape(v))
	}
	if len(q) > 0 {
		r.Target += "?" + strings.Join(q, "&")
	}
	if chance(t, "body", 60) && r.Method != "GET" && r.Method != "HEAD" {
		b := pick(t, "content", "{}", "null", "[]", "\"x\"", "{\"dryRun\":[]}", "{\"dryRun\":[\"\"]}", "{\"dryRun\":null}", "{\"dryRun\":\"x\"}", "{\"dryRun\":[\"dsm-cluster-\"]}", "{\"dryRun\":[\"dsm-cluster-c2\",\"All\"]}", "{\"dryRun\":[1]}", "{", "\x00", genOdd(t), strings.Repeat("[", 20000))
		r.Body, r.B64 = base64.StdEncoding.EncodeToString([]byte(b)), true
	}
	for i := intIn(t, "headers", 0, 2); i > 0; i-- {
		r.Header = append(r.Header, param{pick(t, "header", "Accept", "Accept", "Content-Type", "Authorization", "Accept-Encoding", "Upgrade", "Connection", "X-Odd"), strings.Map(func(c rune) rune {
			if c < ' ' || c == 127 {
				return '.'
			}
			return c
		}, pick(t, "header value", "application/json;as=Table;v=v1;g=meta.k8s.io", "application/merge-patch+json", "application/json", "*/*", "gzip", "websocket", genOdd(t)))})
	}
	return r
}

func genC17(t *rapid.T) c17Case {
	c := c17Case{Index: pick(t, "index", "plain", "plain", "none", "odd"), Default: pick(t, "default", "c1", "c2", "c1/x", "nowhere"), Code: pick(t, "code", 200, 200, 404, 409)}
	for _, r := range []string{"pods", "services", "widgets"} {
		if chance(t, r, 80) {
			c.Resources = append(c.Resources, r)
		}
	}
	c.Objs = genSObjs(t, 0, 8, []string{"c1", "c2", "c1/x"}, []string{"", "a", "b"}, genIndexValue)
	for i := intIn(t, "owners", 0, 3); i > 0; i-- {
		c.Owners = append(c.Owners, pick(t, "owner", "", "-", "web", "web-1", "web-5d4f", "a-b-c", genText(t)))
	}
	c.Selectors = intIn(t, "selectors", 0, 3)
	for i := intIn(t, "requests", 1, 5); i > 0; i-- {
		c.Reqs = append(c.Reqs, genRaw(t))
	}
	return c
}

func (r rawReq) parse() (*http.Request, string, error) {
	body := r.Body
	if r.B64 {
		b, err := base64.StdEncoding.DecodeString(r.Body)
		if err != nil {
			return nil, "", err
		}
		body = string(b)
	}
	b := &strings.Builder{}
	fmt.Fprintf(b, "%s %s HTTP/1.1\r\nHost: ckube.test\r\n", r.Method, r.Target)
	for _, h := range r.Header {
		fmt.Fprintf(b, "%s: %s\r\n", h.K, h.V)
	}
	if body != "" {
		fmt.Fprintf(b, "Content-Length: %d\r\n", len(body))
	}
	b.WriteString("\r\n" + body)
	req, err := http.ReadRequest(bufio.NewReader(strings.NewReader(b.String())))
	return req, b.String(), err
}

func (c c17Case) handler() (http.Handler, *upstream) {
	index := map[string]string{}
	switch c.Index {
	case "plain":
		index = searchIndex()
	case "odd":
		index = map[string]string{"name": "x", "k1": "{.metadata", "k2": "{{ .x.y.z }}", "k3": "{.metadata.labels['app']}", "namespace": "{.spec}"}
	}
	conf := map[GVR]map[string]string{}
	cfg := common.Config{DefaultCluster: c.Default}
	for _, r := range c.Resources {
		g, kind := gvrPods, "PodList"
		switch r {
		case "services":
			g, kind = gvrServices, "ServiceList"
		case "widgets":
			g, kind = gvrWidgets, "WidgetList"
		}
		conf[g] = index
		cfg.Proxies = append(cfg.Proxies, proxyConf(g, kind, index))
	}
	st := newStore(conf)
	for i, o := range c.Objs {
		for _, r := range c.Resources {
			switch r {
			case "pods":
				p := o.build()
				if len(c.Owners) > 0 {
					p.OwnerReferences = []metav1.OwnerReference{{Kind: "ReplicaSet", Name: c.Owners[i%len(c.Owners)]}}
				}
				_ = st.OnResourceAdded(gvrPods, o.Cluster, p)
			case "services":
				s := &corev1.Service{ObjectMeta: o.build().ObjectMeta}
				if c.Selectors > 0 && i%c.Selectors == 0 {
					s.Spec.Selector = map[string]string{"app": "web"}
				}
				_ = st.OnResourceAdded(gvrServices, o.Cluster, s)
			default:
				_ = st.OnResourceAdded(gvrWidgets, o.Cluster, o.buildAny(true))
			}
		}
	}
	up := &upstream{answer: func(r upReq) (int, http.Header, io.ReadCloser) {
		if c.Code != 200 {
			return c.Code, jsonHeader(), bodyOf(fmt.Sprintf(`{"kind":"Status","apiVersion":"v1","status":"Failure","reason":"X","code":%d}`, c.Code))
		}
		return 200, jsonHeader(), bodyOf("{\"upstream\":true}\n")
	}}
	return router(cfg, st, up.clients("c1", "c2", "c1/x")), up
}

var c17Probes = []string{"/api/v1/pods", "/api/v1/namespaces/a/pods/web", "/api/v1/namespaces/a/services", "/apis/example.io/v1/widgets?labelSelector=app", "/version", "/custom/v1/clusters/c2/namespaces/a/deployments/web/services"}

func checkC17(_ *vk.Env, c c17Case) error {
	h, up := c.handler()
	probe := func() []string {
		out := []string{}
		for _, p := range c17Probes {
			r := do(h, "GET", p, nil, "")
			out = append(out, fmt.Sprintf("%s: %d %s", p, r.Code, r.Body))
		}
		return out
	}
	before := probe()
	for i, p := range before {
		if strings.Contains(p, ": 500 ") {
			return fmt.Errorf("%s: %s", c17Probes[i], p)
		}
	}
	up.taken()
	for _, raw := range c.Reqs {
		req, text, err := raw.parse()
		if err != nil {
			continue // refused before it reaches the proxy
		}
		rec := httptest.NewRecorder()
		h.ServeHTTP(rec, req)
		sent := up.taken()
		what := fmt.Sprintf("%.400q", text)
		if rec.Code >= 500 || rec.Code < 200 {
			return fmt.Errorf("%s is answered %d %.300s (API servers answer %d, sent %s)", what, rec.Code, rec.Body.String(), c.Code, short(sent))
		}
		if len(sent) > 1 {
			return fmt.Errorf("%s was sent %d times: %s", what, len(sent), short(sent))
		}
		after := probe()
		up.taken()
		if !eqStrings(before, after) {
			for i := range before {
				if before[i] != after[i] {
					return fmt.Errorf("after %s: %.400s, before: %.400s", what, after[i], before[i])
				}
			}
		}
	}
	return nil
}

func classifyC17(c c17Case) (bool, []string) {
	l := []string{}
	nt := false
	for _, r := range c.Reqs {
		if _, _, err := r.parse(); err != nil {
			l = append(l, "no HTTP request")
			continue
		}
		nt = true
		l = append(l, r.Method)
		if strings.Contains(r.Target, "labelSelector=") {
			l = append(l, "odd selector or query")
		}
		if strings.Contains(r.Target, "/custom/") {
			l = append(l, "services of a deployment")
		}
	}
	return nt, l
}

func init() {
	q := func(doc string) string {
		return "/api/v1/pods?labelSelector=" + url.QueryEscape(QueryKey+" notin ("+base64.RawStdEncoding.EncodeToString([]byte(doc))+")")
	}
	objs := []SObj{{Cluster: "c1", NS: "a", Name: "web", Labels: map[string]string{"app": "web"}}, {Cluster: "c1", NS: "a", Name: "b"}}
	get := func(targets ...string) (out []rawReq) {
		for _, x := range targets {
			out = append(out, rawReq{Method: "GET", Target: x})
		}
		return
	}
	all := []string{"pods", "services", "widgets"}
	vk.Register(&vk.Property{
		ID:    "C17",
		Setup: func(*vk.Env) error { quietStdout(); return nil },
		Parts: []*vk.Part{vk.New(vk.Part{
			Name:  "requests",
			Rule:  "1-5 requests parsed from raw HTTP text, with odd methods, paths, escapes, parameters, label selectors, query payloads (wrong types, extreme numbers, broken encodings and pieces), headers and bodies, against caches with ordinary, odd and no indexes and resources; no answer may be 5xx while API servers answer 200 or 4xx, and six fixed requests must be answered the same after each; non-trivial when at least one text is an HTTP request",
			Quick: 9000, Thorough: 300000,
		}, vk.Def[c17Case]{Gen: genC17, Check: checkC17, Classify: classifyC17, Fixed: []c17Case{
			{Resources: all, Index: "plain", Objs: objs, Default: "c1", Code: 200, Reqs: get(q(`{"page":0,"page_size":2}`), q(`{"page":9223372036854775807,"page_size":9223372036854775807}`), q(`{"page":-1,"page_size":2}`), q(`{"page":1,"page_size":-2}`), q(`{"page":4611686018427387905,"page_size":2}`))},
			{Resources: nil, Index: "none", Objs: objs, Default: "c1", Code: 200, Reqs: get("/custom/v1/namespaces/a/deployments/web/services")},
			{Resources: all, Index: "plain", Objs: objs, Default: "c1", Code: 200, Reqs: get("/custom/v1/namespaces/a/deployments/;;absent=1/services", "/custom/v1/clusters/c1%2Fx/namespaces/a/deployments/a%3Bb=c/services")},
			{Resources: all, Index: "plain", Objs: objs, Default: "c1", Code: 200, Reqs: []rawReq{{Method: "OPTIONS", Target: "/api/v1/pods"}, {Method: "X", Target: "/api/v1/pods"}}},
		}})},
		Assumptions: []string{"API servers answer every request, with 200 or 4xx", "CONNECT requests are not made"},
	})
}

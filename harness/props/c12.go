package props

import (
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"

	"ckverif/vk"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/page"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/labels"
	"pgregory.net/rapid"
)

type param struct{ K, V string }

type c12Case struct {
	Method   string  `json:"method"`
	Path     string  `json:"path"` // escaped
	Params   []param `json:"params,omitempty"`
	Selector string  `json:"selector,omitempty"`
	Query    bool    `json:"query,omitempty"` // a ckube query next to the selector
	Body     string  `json:"body,omitempty"`
	CT       string  `json:"ct,omitempty"`
	Objs     []SObj  `json:"objs"`
	// the API server's answer
	Code    int    `json:"code"`
	Answer  string `json:"answer"`
	Reason  string `json:"reason,omitempty"`
	Message string `json:"message,omitempty"`
	Details bool   `json:"details,omitempty"`
	// KiB of blanks after the body and a successful answer
	BodyPad   int `json:"bodyPad,omitempty"`
	AnswerPad int `json:"answerPad,omitempty"`
}

var gvrNodes = GVR{Version: "v1", Resource: "nodes"}

func genC12(t *rapid.T) c12Case {
	c := c12Case{Method: pick(t, "method", "GET", "GET", "GET", "GET", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "HEAD", "PURGE", "LIST", "TRACE", "get")}
	ns, name := pick(t, "ns", "a", "default", "kube-system", "watcher"), pick(t, "name", "web", "web-1", "a.b", "x:y", "system%3Anode", "sp%20ace", "%E6%97%A5", "pl+us", "50%25", "q%3Fm", "h%23sh", "se;mi", "com,ma", "eq=al")
	c.Path = pick(t, "path",
		"/api/v1/namespaces/"+ns+"/pods", "/api/v1/pods", "/api/v1/namespaces/"+ns+"/pods/"+name, "/api/v1/nodes", "/api/v1/nodes/"+name,
		"/apis/example.io/v1/widgets", "/apis/example.io/v1/namespaces/"+ns+"/widgets", "/apis/example.io/v1/namespaces/"+ns+"/widgets/"+name,
		"/api/v1/namespaces/"+ns+"/pods/"+name+"/log", "/api/v1/namespaces/"+ns+"/pods/"+name+"/status", "/api/v1/namespaces/"+ns+"/pods/"+name+"/eviction", "/api/v1/nodes/"+name+"/proxy/metrics",
		"/api/v1/namespaces/"+ns+"/services", "/api/v1/services", "/api/v1/namespaces/"+ns+"/services/"+name, "/api/v1/namespaces", "/api/v1/namespaces/"+ns, "/api/v1/namespaces/"+ns+"/finalize",
		"/apis/example.io/v2/namespaces/"+ns+"/widgets", "/apis/other.io/v1/pods", "/apis/apps/v1/namespaces/"+ns+"/deployments", "/apis/apps/v1/namespaces/"+ns+"/deployments/"+name+"/scale",
		"/", "/api", "/apis", "/api/v1", "/apis/apps", "/apis/apps/v1", "/version", "/openapi/v2", "/healthz", "/readyz/etcd", "/logs/kube.log", "/api/v1/", "/apis/example.io/v1/widgets/", "/"+name, "/a/b/c/d/e/f/g/h/"+name)
	for i := intIn(t, "params", 0, 3); i > 0; i-- {
		c.Params = append(c.Params, param{
			pick(t, "key", "fieldSelector", "resourceVersion", "continue", "pretty", "container", "follow", "tailLines", "command", "command", "limit", "timeoutSeconds", "propagationPolicy", "dryRun", "fieldManager", "force", "x y", "日本", "a&b", "allowWatchBookmarks", "watch", "labelSelectors", "clusters", "page"),
			pick(t, "value", "", "0", "1", "false", "metadata.name=web", "a b", "a&b=c", "100%", "日本", "x;y", "a+b", "dsm-cluster", "cluster-c2", "All", "\x01", "\"", "/../"),
		})
	}
	for i := range c.Params { // a watch is C14's
		if c.Params[i].K == "watch" {
			c.Params[i].V = pick(t, "no watch", "0", "false", "False")
		}
	}
	if chance(t, "selector", 40) {
		if c.Selector = genLabelSelector(t, 3); chance(t, "unsupported", 25) {
			c.Selector = pickFrom(t, "bad selector", c09Bad)
		} else {
			c.Query = chance(t, "query", 40)
		}
	}
	if c.Method != "GET" && c.Method != "HEAD" && c.Method != "OPTIONS" && c.Method != "TRACE" && c.Method != "get" && chance(t, "body", 80) {
		c.Body = pick(t, "body", `{"metadata":{"name":"x"}}`, "[1,2,3]", "plain text\nwith lines\n", "\x00\x01\xff binary", "{", `{"kind":"DeleteOptions","apiVersion":"v1","dryRun":["All"],"gracePeriodSeconds":0}`, `{"dryRun":[]}`, `{"dryRun":["All","dsm-cluster-c2"],"unknown":1}`, "null", strings.Repeat("long ", 3000), genText(t))
	}
	if c.Body != "" && chance(t, "large body", 2) {
		c.BodyPad = intIn(t, "body KiB", 1, pick(t, "up to", 64, 1100, 3000))
	}
	if chance(t, "large answer", 2) {
		c.AnswerPad = intIn(t, "answer KiB", 1, pick(t, "answer up to", 64, 1100, 12000))
	}
	if chance(t, "content type", 60) {
		c.CT = pick(t, "type", "application/json", "application/merge-patch+json", "application/strategic-merge-patch+json", "application/json-patch+json", "application/apply-patch+yaml", "text/plain")
	}
	c.Objs = genSObjs(t, 0, 4, []string{"c1", "c2"}, []string{"a", "default"}, genIndexValue)
	if chance(t, "error", 45) {
		c.Code = pick(t, "code", 400, 401, 403, 404, 405, 406, 409, 410, 413, 415, 422, 429, 500, 501, 503, 504)
		if chance(t, "status", 85) {
			c.Reason = pick(t, "reason", "", "NotFound", "Forbidden", "AlreadyExists", "Conflict", "Invalid", "Unauthorized", "Expired", "InternalError", "Timeout", "TooManyRequests", "MyOwnReason", "ServiceUnavailable", "BadRequest")
			c.Message = pick(t, "message", `pods "web" not found`, "", "the object has been modified; please apply your changes", `admission webhook "w" denied the request: <no>`, "日本\nline two", genText(t))
			c.Details = chance(t, "details", 60)
			c.Answer = c.status()
			return c
		}
	} else {
		c.Code = 200
	}
	c.Answer = pick(t, "answer", `{"kind":"PodList","apiVersion":"v1","items":[]}`, "", "ok", "line\nline\n\n", "\x00\xff\xfe", `{"n":12345678901234567890,"f":1.0,"s":"<&>"}`, " {} ", `{"kind":"Status","apiVersion":"v1","status":"Success"}`, strings.Repeat("y\n", 20000), "404 page not found")
	return c
}

func (c c12Case) status() string {
	st := metav1.Status{TypeMeta: metav1.TypeMeta{Kind: "Status", APIVersion: "v1"}, Status: "Failure", Message: c.Message, Reason: metav1.StatusReason(c.Reason), Code: int32(c.Code)}
	if c.Details {
		st.Details = &metav1.StatusDetails{Name: "web", Kind: "pods", Group: "example.io", UID: "u-1", Causes: []metav1.StatusCause{{Type: "FieldValueInvalid", Message: "bad", Field: "spec.x"}}}
	}
	b, _ := json.Marshal(st)
	return string(b)
}

// cached says whether the cache can answer the request.
func (c c12Case) cached() bool {
	if c.Method != "GET" {
		return false
	}
	parts := strings.Split(strings.TrimPrefix(c.Path, "/"), "/")
	res := ""
	switch {
	case len(parts) > 3 && parts[0] == "apis":
		res, parts = parts[1]+"/"+parts[2], parts[3:]
	case len(parts) > 2 && parts[0] == "api":
		res, parts = parts[1], parts[2:]
	default:
		return false
	}
	if parts[0] == "namespaces" && len(parts) > 2 {
		parts = parts[2:]
	}
	for _, p := range parts {
		if p == "" {
			return false
		}
	}
	switch res + "/" + parts[0] {
	case "v1/pods", "v1/nodes", "example.io/v1/widgets":
	default:
		return false
	}
	if len(parts) > 2 {
		return false
	}
	for _, p := range c.Params {
		switch p.K {
		case "limit", "timeoutSeconds", "timeout":
		default:
			return false
		}
	}
	if c.Selector != "" && !supportedSelector(c.Selector) {
		return false
	}
	return true
}

func supportedSelector(s string) bool {
	sel, err := labels.Parse(s)
	if err != nil {
		return false
	}
	reqs, _ := sel.Requirements()
	for _, q := range reqs {
		if q.Operator() == "gt" || q.Operator() == "lt" {
			return false
		}
	}
	return true
}

// sameSelection says whether a selector that was sent selects the same as the caller's.
func sameSelection(sent, own string) error {
	a, err := labels.Parse(sent)
	if err != nil {
		return err
	}
	b, err := labels.Parse(own)
	if err != nil {
		return err
	}
	for _, set := range allLabelSets {
		if x, y := a.Matches(labels.Set(set)), b.Matches(labels.Set(set)); x != y {
			return fmt.Errorf("%v is selected by %q: %v, and by %q: %v", set, sent, x, own, y)
		}
	}
	return nil
}

func checkC12(_ *vk.Env, c c12Case) error {
	c.Body += strings.Repeat(" ", c.BodyPad<<10)
	if c.Code == 200 {
		c.Answer += strings.Repeat(" ", c.AnswerPad<<10)
	}
	index := searchIndex()
	s := newStore(map[GVR]map[string]string{gvrPods: index, gvrWidgets: index, gvrNodes: index})
	for _, o := range c.Objs {
		_ = s.OnResourceAdded(gvrPods, o.Cluster, o.buildAny(false))
		_ = s.OnResourceAdded(gvrWidgets, o.Cluster, o.buildAny(true))
	}
	up := &upstream{answer: func(r upReq) (int, http.Header, io.ReadCloser) {
		if c.Code != 200 && c.Reason == "" && c.Message == "" {
			return c.Code, http.Header{"Content-Type": {"text/plain"}}, bodyOf(c.Answer)
		}
		return c.Code, jsonHeader(), bodyOf(c.Answer)
	}}
	h := router(common.Config{Proxies: []common.Proxy{proxyConf(gvrPods, "PodList", index), proxyConf(gvrWidgets, "WidgetList", index), proxyConf(gvrNodes, "NodeList", index)}, DefaultCluster: "c1"}, s, up.clients("c1", "c2"))
	q := []string{}
	want := url.Values{}
	for _, p := range c.Params {
		q = append(q, url.QueryEscape(p.K)+"="+url.QueryEscape(p.V))
		want.Add(p.K, p.V)
	}
	if c.Selector != "" {
		sel := c.Selector
		if c.Query {
			o, err := page.QueryListOptions(metav1.ListOptions{LabelSelector: sel}, page.Paginate{Page: 1, PageSize: 2, Search: "name=web"})
			if err != nil {
				return err
			}
			sel = o.LabelSelector
		}
		q = append(q, "labelSelector="+url.QueryEscape(sel))
	}
	target := c.Path
	if len(q) > 0 {
		target += "?" + strings.Join(q, "&")
	}
	header := map[string]string{}
	if c.CT != "" {
		header["Content-Type"] = c.CT
	}
	r := do(h, c.Method, target, header, c.Body)
	sent := up.taken()
	what := c.Method + " " + target
	if c.cached() {
		if len(sent) != 0 {
			return fmt.Errorf("%s can be answered from the cache and was sent: %s", what, short(sent))
		}
		if r.Code != 200 && r.Code != 404 && r.Code != 400 {
			return fmt.Errorf("%s is answered %d %.300s", what, r.Code, r.Body)
		}
		return nil
	}
	if len(sent) != 1 {
		return fmt.Errorf("%s was sent %d times: %s; answer %d %.300s", what, len(sent), short(sent), r.Code, r.Body)
	}
	got := sent[0]
	if got.Cluster != "c1" || got.Method != c.Method {
		return fmt.Errorf("%s was sent as %s to %s", what, got.Method, got.Cluster)
	}
	wantPath, err := url.PathUnescape(c.Path)
	if err != nil {
		return fmt.Errorf("generator: %v", err)
	}
	if p, err := url.PathUnescape(got.Path); err != nil || p != wantPath {
		return fmt.Errorf("%s was sent to the path %q", what, got.Path)
	}
	gotQ, err := url.ParseQuery(got.Query)
	if err != nil {
		return fmt.Errorf("%s was sent with the query %q: %v", what, got.Query, err)
	}
	gotQ.Del("timeout")
	sel := gotQ["labelSelector"]
	gotQ.Del("labelSelector")
	if len(gotQ) != len(want) {
		return fmt.Errorf("%s was sent with the query %q", what, got.Query)
	}
	for k, v := range want {
		if !eqStrings(gotQ[k], v) {
			return fmt.Errorf("%s was sent with the query %q: %q is %q", what, got.Query, k, gotQ[k])
		}
	}
	switch {
	case c.Selector == "":
		if len(sel) != 0 {
			return fmt.Errorf("%s was sent with the selector %q", what, sel)
		}
	case len(sel) != 1:
		return fmt.Errorf("%s was sent with the selectors %q", what, sel)
	case !supportedSelector(c.Selector):
		if sel[0] != c.Selector {
			return fmt.Errorf("%s was sent with the selector %q", what, sel[0])
		}
	default:
		if err := sameSelection(sel[0], c.Selector); err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
	}
	if got.Body != c.Body {
		return fmt.Errorf("%s: the body %.200q was sent as %.200q", what, c.Body, got.Body)
	}
	if c.Method == "PATCH" && c.CT != "" && got.Header.Get("Content-Type") != c.CT {
		return fmt.Errorf("%s: the patch type %q was sent as %q", what, c.CT, got.Header.Get("Content-Type"))
	}
	if r.Code != c.Code {
		return fmt.Errorf("%s: the answer %d became %d %.300s", what, c.Code, r.Code, r.Body)
	}
	if c.Code == 200 {
		if string(r.Body) != c.Answer {
			return fmt.Errorf("%s: the answer %.300q became %.300q", what, c.Answer, r.Body)
		}
		return nil
	}
	if (c.Reason != "" || c.Message != "") && c.Method != "HEAD" {
		st := metav1.Status{}
		if err := json.Unmarshal(r.Body, &st); err != nil {
			return fmt.Errorf("%s: %v: %.300q", what, err, r.Body)
		}
		if int(st.Code) != c.Code || string(st.Reason) != c.Reason || st.Message != c.Message || st.Status != "Failure" {
			return fmt.Errorf("%s: the error status %s became %s", what, c.Answer, r.Body)
		}
	}
	return nil
}

func classifyC12(c c12Case) (bool, []string) {
	l := []string{c.Method}
	if c.cached() {
		return len(c.Objs) > 0, append(l, "answered by the cache")
	}
	l = append(l, "forwarded")
	if c.Code != 200 {
		l = append(l, "error answer")
	}
	if c.Selector != "" {
		l = append(l, "label selector")
	}
	return c.Body != "" || len(c.Params) > 0 || c.Selector != "" || c.Code != 200 || c.Method != "GET" || strings.Contains(c.Path, "%"), l
}

func init() {
	nf := c12Case{Code: 404, Reason: "NotFound", Message: `services "web" not found`}
	fixed := []c12Case{
		{Method: "OPTIONS", Path: "/api/v1/pods", Code: 200, Answer: "ok"}, {Method: "PURGE", Path: "/api/v1/namespaces/a/pods/web", Code: 200, Answer: "ok", Body: "x"}, {Method: "POST", Path: "/apis/example.io/v1/namespaces/a/widgets", Body: "{}", Code: 200, Answer: "{}"},
		{Method: "DELETE", Path: "/api/v1/namespaces/a/pods/web", Body: `{"dryRun":["All"],"gracePeriodSeconds":0}`, Code: 200, Answer: "{}"},
		{Method: "GET", Path: "/api/v1/services", Code: nf.Code, Reason: nf.Reason, Message: nf.Message, Answer: nf.status()},
		{Method: "POST", Path: "/api/v1/services", Body: "{}", Code: nf.Code, Reason: nf.Reason, Message: nf.Message, Answer: nf.status()},
	}
	vk.Register(&vk.Property{
		ID:    "C12",
		Setup: func(*vk.Env) error { quietStdout(); return nil },
		Parts: []*vk.Part{vk.New(vk.Part{
			Name:  "forward",
			Rule:  "one request of any method on cached and uncached collections, objects, subresources and other paths, with escaped names, parameters, supported and unsupported label selectors with and without a query, and any body (of up to 3 MB), answered by the API server with any body (of up to 12 MB) or error status; what the server received and what the client got back are compared with the request and the server's answer, and a read the cache answers must send nothing; non-trivial with parameters, a selector, a body, an error or a method other than GET",
			Quick: 15000, Thorough: 400000,
		}, vk.Def[c12Case]{Gen: genC12, Check: checkC12, Classify: classifyC12, Fixed: fixed})},
		Assumptions: []string{"no encoded slashes, empty or dot path segments, redirects or Retry-After answers, and no body with GET, HEAD, OPTIONS or TRACE", "the timeout parameter is set by the proxy itself", "a success is answered as 200"},
	})
}

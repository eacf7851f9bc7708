package props

import (
	"encoding/json"
	"fmt"
	"net/url"
	"strings"

	"ckverif/vk"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/watcher"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/labels"
	"pgregory.net/rapid"
)

type c09Case struct {
	Again    int    `json:"again,omitempty"` // what changed since it was asked before: 1 contents, 2 objects gone, 4 objects new
	Objs     []SObj `json:"objs"`
	Custom   bool   `json:"custom,omitempty"`
	NS       string `json:"ns,omitempty"`
	Selector string `json:"selector"`
	Query    bool   `json:"query,omitempty"` // attach a ckube query
	Conds    []Cond `json:"conds,omitempty"`
	Extra    string `json:"extra,omitempty"` // further parameters, which the cache handles
}

var c09Bad = []string{"ver>1", "ver < 10,app", "app in (", "app in", "=web", "app=a=b", "(app)", "app=web,,tier", "app notin web", "ver gt 1", "app = we b", "!app=web"}

func genC09(t *rapid.T) c09Case {
	c := c09Case{Custom: chance(t, "custom", 40)}
	c.Objs = genSObjs(t, 0, 14, []string{"c1", "c2"}, []string{"a", "b"}, genIndexValue)
	c.Again = genAgain(t)
	if chance(t, "unsupported", 15) {
		c.Selector = pickFrom(t, "bad", c09Bad)
		if chance(t, "next to a good one", 30) {
			c.Selector += "," + genLabelSelector(t, 1)
		}
		return c
	}
	c.Selector = genLabelSelector(t, 4)
	c.Extra = pick(t, "extra", "", "", "", "", "&limit=1", "&limit=500", "&limit=2&timeoutSeconds=30", "&timeout=1s")
	if chance(t, "spaces", 20) {
		c.Selector = strings.ReplaceAll(c.Selector, ",", " , ")
	}
	if chance(t, "ns", 40) {
		c.NS = pick(t, "ns of query", "a", "b")
	}
	if c.Query = chance(t, "query", 40); c.Query {
		c.Conds = withoutScope(genConds(t, c.Objs, 0, 2, false))
	}
	return c
}

// buildAny makes a pod or a custom resource of a search object.
func (o SObj) buildAny(custom bool) interface{} {
	if !custom {
		return o.build()
	}
	b, _ := json.Marshal(map[string]interface{}{"apiVersion": "example.io/v1", "kind": "Widget", "metadata": o.build().ObjectMeta, "spec": map[string]interface{}{"x": 1}})
	w := &watcher.ObjType{}
	_ = json.Unmarshal(b, w)
	return w
}

func checkC09(_ *vk.Env, c c09Case) error {
	g, kind := gvrPods, "PodList"
	if c.Custom {
		g, kind = gvrWidgets, "WidgetList"
	}
	s := newStore(map[GVR]map[string]string{g: searchIndex()})
	up := &upstream{}
	h := router(common.Config{Proxies: []common.Proxy{proxyConf(g, kind, searchIndex())}, DefaultCluster: "c1"}, s, up.clients("c1", "c2"))
	selector := c.Selector
	clusters := map[string]bool{"c1": true}
	if c.Query {
		p := page.Paginate{Search: writeSearch(c.Conds)}
		if err := p.Clusters([]string{"c1", "c2"}); err != nil {
			return err
		}
		clusters["c2"] = true
		o, err := page.QueryListOptions(metav1.ListOptions{LabelSelector: selector}, p)
		if err != nil {
			return fmt.Errorf("attaching a query to %q: %v", selector, err)
		}
		selector = o.LabelSelector
	}
	get := func() reply {
		return do(h, "GET", collectionPath(g, c.NS)+"?labelSelector="+url.QueryEscape(selector)+c.Extra, nil, "")
	}
	fill(s, g, c.Objs, func(o SObj) interface{} { return o.buildAny(c.Custom) }, c.Again, func() { get() })
	up.taken()
	r := get()
	sent := up.taken()
	want, err := labels.Parse(c.Selector)
	supported := err == nil
	if supported {
		reqs, _ := want.Requirements()
		for _, q := range reqs {
			if q.Operator() == "gt" || q.Operator() == "lt" {
				supported = false
			}
		}
	}
	if !supported {
		if len(sent) != 1 || sent[0].Cluster != "c1" || sent[0].Method != "GET" || sent[0].Path != collectionPath(g, c.NS) {
			return fmt.Errorf("the selector %q is not handed to the API server: %d %.300s, sent %v", c.Selector, r.Code, r.Body, sent)
		}
		q, err := url.ParseQuery(sent[0].Query)
		q.Del("timeout") // the client library adds one
		if err != nil || len(q) != 1 || q.Get("labelSelector") != c.Selector {
			return fmt.Errorf("the selector %q reaches the API server as %q", c.Selector, sent[0].Query)
		}
		if r.Code != 200 || string(r.Body) != `{"upstream":true}` {
			return fmt.Errorf("the API server's answer became %d %.300s", r.Code, r.Body)
		}
		return nil
	}
	if len(sent) != 0 {
		return fmt.Errorf("the supported selector %q was sent to the API server: %v", c.Selector, sent)
	}
	if r.Code != 200 {
		return fmt.Errorf("selector %q: status %d %.300s", c.Selector, r.Code, r.Body)
	}
	l := listReply{}
	if err := json.Unmarshal(r.Body, &l); err != nil {
		return err
	}
	sel, err := expected(c.Objs, c.NS, c.Conds)
	if err != nil {
		return fmt.Errorf("generator: %v", err)
	}
	exp := []string{}
	for _, o := range sel {
		if clusters[o.Cluster] && want.Matches(labels.Set(o.Labels)) {
			exp = append(exp, o.id())
		}
	}
	if got := sortedCopy(l.ids()); !eqStrings(got, sortedCopy(exp)) {
		return fmt.Errorf("selector %q selects %v, Kubernetes would select %v", c.Selector, got, sortedCopy(exp))
	}
	return nil
}

func classifyC09(c c09Case) (bool, []string) {
	out := []string{sizeClass("objects", len(c.Objs))}
	want, err := labels.Parse(c.Selector)
	if err != nil {
		return true, append(out, "malformed")
	}
	reqs, _ := want.Requirements()
	seen := map[string]bool{}
	for _, r := range reqs {
		if r.Operator() == "gt" || r.Operator() == "lt" {
			return true, append(out, "unsupported")
		}
		if seen[r.Key()] {
			out = append(out, "repeated key")
			break
		}
		seen[r.Key()] = true
	}
	n := 0
	for _, o := range c.Objs {
		if want.Matches(labels.Set(o.Labels)) {
			n++
		}
	}
	some := n > 0 && n < len(c.Objs)
	if some {
		out = append(out, "selects some")
	}
	if c.Query {
		out = append(out, "with query")
	}
	return some, out
}

func init() {
	o := func(n string, l map[string]string) SObj { return SObj{Cluster: "c1", NS: "a", Name: n, Labels: l} }
	objs := []SObj{o("x", map[string]string{"app": "web"}), o("y", map[string]string{"app": "db"}), o("z", nil)}
	vk.Register(&vk.Property{
		ID:    "C09",
		Setup: func(*vk.Env) error { quietStdout(); return nil },
		Parts: []*vk.Part{vk.New(vk.Part{
			Name:  "selector",
			Rule:  "0-14 labelled pods or custom resources listed over HTTP with a selector of 1-4 requirements (repeated and contradictory ones), with or without a ckube query; the answer is compared with the Kubernetes library's matching, and unsupported or malformed selectors must reach the API server unchanged; non-trivial when some but not all objects match, or the selector is unsupported",
			Quick: 12000, Thorough: 250000,
		}, vk.Def[c09Case]{Gen: genC09, Check: checkC09, Classify: classifyC09, Fixed: []c09Case{
			{Objs: objs, Selector: "app=web,app=db"}, {Objs: objs, Selector: "app=web,app=db", Query: true}, {Objs: objs, Selector: "app=web,app!=web"}, {Objs: objs, Selector: "!app"},
		}})},
		Assumptions: []string{"object labels and selectors use valid label names and values"},
	})
}

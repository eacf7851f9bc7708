package props

import (
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"

	"ckverif/vk"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/page"
	"k8s.io/apimachinery/pkg/labels"
	"pgregory.net/rapid"
)

// c11Op is one request.
type c11Op struct {
	Kind     string   `json:"kind"`
	Clusters []string `json:"clusters,omitempty"` // the choice; none: the default cluster
	How      string   `json:"how,omitempty"`      // how a forwarded request names its cluster
	NS       string   `json:"ns,omitempty"`
	Name     string   `json:"name,omitempty"`
	Conds    []Cond   `json:"conds,omitempty"`
	Sort     string   `json:"sort,omitempty"`
	Selector string   `json:"selector,omitempty"`
	Custom   bool     `json:"custom,omitempty"`
	Table    bool     `json:"table,omitempty"`
}

type c11Case struct {
	Objs    []SObj   `json:"objs"`
	Clients []string `json:"clients"` // clusters that have an API server
	Default string   `json:"default"`
	Ops     []c11Op  `json:"ops"`
}

var c11Names = []string{"c1", "c2", "default", "c1-x", "c1/x", "kubernetes-admin@kubernetes", `q"uote`, "semi;colon", "a b", "C1", "x=y", "!c1", "arn:aws:eks:eu-1:1:cluster/prod", "日本", "c1,c2", "ends-", "a,b", "dsm-cluster-c1", "it's", "pct%41", "plus+sign", "back\\slash"}

func genC11(t *rapid.T) c11Case {
	c := c11Case{}
	plain := chance(t, "plain names", 35)
	names := c11Names
	if plain {
		names = c11Names[:4]
	}
	clusters := []string{}
	for i := intIn(t, "clusters", 2, 4); i > 0; i-- {
		n := pickFrom(t, "cluster", names)
		if !contains(clusters, n) {
			clusters = append(clusters, n)
		}
	}
	c.Default = pickFrom(t, "default", clusters)
	for i, n := range clusters {
		if i == 0 || !chance(t, "no server", 12) {
			c.Clients = append(c.Clients, n)
		}
	}
	c.Objs = genSObjs(t, 0, 14, clusters, []string{"a", "b"}, genIndexValue)
	for _, o := range c.Objs { // the same object in other clusters
		if chance(t, "twin", 50) {
			twin := o
			twin.Cluster = pickFrom(t, "its cluster", clusters)
			if twin.Cluster != o.Cluster {
				dup := false
				for _, x := range c.Objs {
					dup = dup || x.id() == twin.id()
				}
				if !dup {
					c.Objs = append(c.Objs, twin)
				}
			}
		}
	}
	for i := intIn(t, "requests", 1, 5); i > 0; i-- {
		op := c11Op{Kind: pick(t, "kind", "list", "list", "list", "get", "get", "write", "write", "delete", "watch", "other list", "param"), Custom: chance(t, "custom", 30)}
		if chance(t, "chosen", 65) {
			n := 1
			if op.Kind == "list" || op.Kind == "other list" || op.Kind == "watch" {
				n = intIn(t, "how many", 1, 3)
			}
			for ; n > 0; n-- {
				x := pickFrom(t, "choice", append([]string{"nowhere"}, append(clusters, clusters...)...))
				if !contains(op.Clusters, x) {
					op.Clusters = append(op.Clusters, x)
				}
			}
		}
		op.NS, op.Name = pick(t, "ns", "a", "b"), pick(t, "name", "web", "web-1", "db", "a", "b")
		if len(c.Objs) > 0 && chance(t, "existing", 70) {
			o := pickFrom(t, "object", c.Objs)
			op.NS, op.Name = o.NS, o.Name
		}
		switch op.Kind {
		case "list":
			op.Conds = withoutScope(genConds(t, c.Objs, 0, pick(t, "conditions", 2, 2, 4), false))
			if chance(t, "sorted", 25) {
				keys := genSortKeys(t, 1, 2)
				for i := range keys {
					keys[i].Type = "" // not every text is a number
				}
				op.Sort = sortText(keys)
			}
			if chance(t, "label selector", 30) {
				op.Selector = genLabelSelector(t, 2)
			}
			if chance(t, "all namespaces", 50) {
				op.NS = ""
			}
			op.Table = chance(t, "table", 20)
		case "write":
			op.How = pick(t, "method", "POST", "PUT", "PATCH")
		case "watch":
			op.How = pick(t, "watch", "param", "selector")
			if op.How == "param" && len(op.Clusters) > 1 {
				op.Clusters = op.Clusters[:1]
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func checkC11(_ *vk.Env, c c11Case) error {
	s := newStore(map[GVR]map[string]string{gvrPods: searchIndex(), gvrWidgets: searchIndex()})
	for _, o := range c.Objs {
		_ = s.OnResourceAdded(gvrPods, o.Cluster, o.buildAny(false))
		_ = s.OnResourceAdded(gvrWidgets, o.Cluster, o.buildAny(true))
	}
	up := &upstream{answer: func(r upReq) (int, http.Header, io.ReadCloser) {
		return 200, jsonHeader(), bodyOf(fmt.Sprintf("{\"server\":%q}\n", r.Cluster))
	}}
	h := router(common.Config{Proxies: []common.Proxy{proxyConf(gvrPods, "PodList", searchIndex()), proxyConf(gvrWidgets, "WidgetList", searchIndex())}, DefaultCluster: c.Default}, s, up.clients(c.Clients...))
	for _, op := range c.Ops {
		if err := c.run(h, up, op); err != nil {
			return fmt.Errorf("%s: %v", short(op), err)
		}
	}
	return nil
}

// addressed are the clusters a request is for.
func (c c11Case) addressed(op c11Op) []string {
	if len(op.Clusters) == 0 {
		return []string{c.Default}
	}
	return op.Clusters
}

func (c c11Case) run(h http.Handler, up *upstream, op c11Op) error {
	g := gvrPods
	if op.Custom {
		g = gvrWidgets
	}
	addressed := c.addressed(op)
	p := page.Paginate{Search: writeSearch(op.Conds), Sort: op.Sort}
	if len(op.Clusters) > 0 && (op.Kind == "list" || op.Kind == "other list" || (op.Kind == "watch" && op.How == "selector")) {
		if err := p.Clusters(op.Clusters); err != nil {
			return nil // not a choice that can be expressed
		}
	}
	one := collectionPath(g, op.NS) + "/" + op.Name
	method, target, body, forwarded := "GET", "", "", true
	header := map[string]string{}
	wrap := func(key string) string {
		if len(op.Clusters) == 0 {
			return ""
		}
		return "?" + key + "=" + url.QueryEscape("dsm-cluster-"+op.Clusters[0])
	}
	var err error
	switch op.Kind {
	case "list":
		forwarded = false
		if target, err = listTarget(g, op.NS, op.Selector, p); err != nil {
			return err
		}
		if op.Table {
			header["Accept"] = "application/json;as=Table;v=v1;g=meta.k8s.io,application/json"
		}
	case "get":
		forwarded, target = false, one+wrap("resourceVersion")
	case "write":
		method, target, body = op.How, one+wrap("fieldManager"), `{"metadata":{"name":"`+op.Name+`"}}`
		if method == "POST" {
			target = collectionPath(g, op.NS) + wrap("fieldManager")
		}
		header["Content-Type"] = "application/json"
		if method == "PATCH" {
			header["Content-Type"] = "application/merge-patch+json"
		}
	case "delete":
		method, target = "DELETE", one
		if len(op.Clusters) > 0 {
			b, _ := json.Marshal(map[string]interface{}{"dryRun": []string{"dsm-cluster-" + op.Clusters[0]}})
			body = string(b)
		}
	case "other list":
		if target, err = listTarget(gvrServices, op.NS, "", p); err != nil {
			return err
		}
	case "param":
		target = one
		if len(op.Clusters) > 0 {
			target += "?cluster=" + url.QueryEscape(op.Clusters[0])
		} else {
			target += "?pretty=true"
		}
	case "watch":
		if target, err = listTarget(g, op.NS, "", p); err != nil {
			return err
		}
		sep := "?"
		if strings.Contains(target, "?") {
			sep = "&"
		}
		target += sep + "watch=true"
		if op.How == "param" && len(op.Clusters) > 0 {
			target += "&cluster=" + url.QueryEscape(op.Clusters[0])
		}
	}
	r := do(h, method, target, header, body)
	sent := up.taken()
	if forwarded {
		known := []string{}
		for _, a := range addressed {
			if contains(c.Clients, a) {
				known = append(known, a)
			}
		}
		if len(known) == len(addressed) || (len(known) > 0 && len(sent) > 0) {
			if len(sent) != 1 || !contains(addressed, sent[0].Cluster) {
				return fmt.Errorf("%s %s for %q reached %s: %d %.300s", method, target, addressed, short(sent), r.Code, r.Body)
			}
			if want := fmt.Sprintf("{\"server\":%q}\n", sent[0].Cluster); r.Code != 200 || string(r.Body) != want {
				return fmt.Errorf("%s %s for %q is answered %d %.300s", method, target, addressed, r.Code, r.Body)
			}
			return nil
		}
		if len(sent) != 0 || r.Code != 404 {
			return fmt.Errorf("%s %s for the unknown cluster %q is answered %d %.200s and reached %s", method, target, addressed, r.Code, r.Body, short(sent))
		}
		return nil
	}
	if len(sent) != 0 {
		return fmt.Errorf("%s was forwarded: %s", target, short(sent))
	}
	if op.Kind == "get" {
		var want *SObj
		for i, o := range c.Objs {
			if o.Cluster == addressed[0] && o.NS == op.NS && o.Name == op.Name {
				want = &c.Objs[i]
			}
		}
		if want == nil {
			if r.Code != 404 {
				return fmt.Errorf("%s is not in %q, the answer is %d %.300s", target, addressed, r.Code, r.Body)
			}
			return nil
		}
		var got struct {
			Metadata struct {
				Name, Namespace string
				Annotations     map[string]string
			}
		}
		if err := json.Unmarshal(r.Body, &got); r.Code != 200 || err != nil {
			return fmt.Errorf("%s is in %q, the answer is %d %.300s", target, addressed, r.Code, r.Body)
		}
		if id := got.Metadata.Annotations[ClusterAnno] + "|" + got.Metadata.Namespace + "|" + got.Metadata.Name; id != want.id() {
			return fmt.Errorf("%s of %q is answered with %s", target, addressed, id)
		}
		return nil
	}
	sel, err := expected(c.Objs, op.NS, op.Conds)
	if err != nil {
		return err
	}
	ls, err := labels.Parse(op.Selector)
	if err != nil {
		return err
	}
	want := []string{}
	for _, o := range sel {
		if contains(addressed, o.Cluster) && ls.Matches(labels.Set(o.Labels)) {
			want = append(want, o.id())
		}
	}
	if r.Code != 200 {
		return fmt.Errorf("%s: status %d %.300s", target, r.Code, r.Body)
	}
	got := []string{}
	if op.Table {
		if got, err = tableIDs(r.Body); err != nil {
			return err
		}
	} else {
		l := listReply{}
		if err := json.Unmarshal(r.Body, &l); err != nil {
			return err
		}
		got = l.ids()
	}
	if !eqStrings(sortedCopy(got), sortedCopy(want)) {
		return fmt.Errorf("%s of %q (search %q) is %q, want %q", target, addressed, p.Search, got, want)
	}
	return nil
}

// tableIDs reads who the rows of a table are.
func tableIDs(body []byte) ([]string, error) {
	var tab struct {
		ColumnDefinitions []struct{ Name string }
		Rows              []struct{ Cells []interface{} }
	}
	if err := json.Unmarshal(body, &tab); err != nil {
		return nil, err
	}
	at := map[string]int{}
	for i, c := range tab.ColumnDefinitions {
		at[c.Name] = i
	}
	out := []string{}
	for _, row := range tab.Rows {
		id := []string{}
		for _, k := range []string{"cluster", "namespace", "name"} {
			i, ok := at[k]
			if !ok || i >= len(row.Cells) {
				return nil, fmt.Errorf("table without %s: %.300s", k, body)
			}
			id = append(id, fmt.Sprint(row.Cells[i]))
		}
		out = append(out, strings.Join(id, "|"))
	}
	return out, nil
}

func classifyC11(c c11Case) (bool, []string) {
	l := []string{}
	in := map[string]bool{}
	for _, o := range c.Objs {
		in[o.Cluster] = true
	}
	if _, err := labels.Parse("k in (" + c.Default + ")"); err != nil {
		l = append(l, "default cluster is no label value")
	}
	nt := len(in) > 1
	for _, op := range c.Ops {
		what := op.Kind
		if len(op.Clusters) > 0 {
			what += ", chosen"
			for _, x := range op.Clusters {
				if !contains(c.Clients, x) {
					what = op.Kind + ", unknown cluster"
				}
			}
		}
		l = append(l, what)
		if op.Kind != "list" && op.Kind != "get" && len(c.Clients) > 1 {
			nt = true
		}
	}
	return nt, l
}

func init() {
	objs := []SObj{}
	for _, cl := range []string{"c1", "c1/x", "kubernetes-admin@kubernetes", "default"} {
		objs = append(objs, SObj{Cluster: cl, NS: "a", Name: "web", K: map[string]string{"k1": cl}})
	}
	fixed := []c11Case{}
	for _, d := range []string{"c1", "c1/x", "kubernetes-admin@kubernetes", "default"} {
		fixed = append(fixed, c11Case{Objs: objs, Clients: []string{"c1", "default"}, Default: d, Ops: []c11Op{
			{Kind: "list"}, {Kind: "list", Table: true}, {Kind: "list", Clusters: []string{"c1", "default"}}, {Kind: "get", NS: "a", Name: "web"}, {Kind: "get", NS: "a", Name: "web", Clusters: []string{"c1/x"}},
			{Kind: "write", How: "POST", NS: "a", Name: "web"}, {Kind: "write", How: "PUT", NS: "a", Name: "web", Clusters: []string{"c1"}}, {Kind: "delete", NS: "a", Name: "web", Clusters: []string{"nowhere"}}, {Kind: "watch", How: "param", NS: "a", Clusters: []string{"nowhere"}},
		}})
	}
	vk.Register(&vk.Property{
		ID:    "C11",
		Setup: func(*vk.Env) error { quietStdout(); return nil },
		Parts: []*vk.Part{vk.New(vk.Part{
			Name:  "requests",
			Rule:  "the same pods and custom resources in 2-4 clusters with ordinary and odd names (not all with a server, any of them the default), and 1-5 lists, tables, reads, writes, deletes, watches and uncached lists addressed to the default, to known, several or unknown clusters; the objects seen and the servers reached are compared with those addressed; non-trivial when objects of several clusters or several servers could be mixed up",
			Quick: 9000, Thorough: 250000,
		}, vk.Def[c11Case]{Gen: genC11, Check: checkC11, Classify: classifyC11, Fixed: fixed})},
		Assumptions: []string{"a choice is one made with the client library's functions or the cluster parameter", "a choice of several clusters for a forwarded request reaches one of them"},
	})
}

package props

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"ckverif/vk"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/page"
	"pgregory.net/rapid"
)

type c16Case struct {
	Again    int               `json:"again,omitempty"` // what changed since it was asked before: 1 contents, 2 objects gone, 4 objects new
	Objs     []SObj            `json:"objs"`
	Custom   bool              `json:"custom,omitempty"`
	Index    map[string]string `json:"index"` // index -> k1..k3, or a literal text, or a template of one
	NS       string            `json:"ns,omitempty"`
	Clusters []string          `json:"clusters,omitempty"`
	Search   string            `json:"search,omitempty"`
	Sort     string            `json:"sort,omitempty"`
	Selector string            `json:"selector,omitempty"`
	Page     int64             `json:"page,omitempty"`
	Size     int64             `json:"size,omitempty"`
	Accept   string            `json:"accept"`
}

var c16Keys = []string{"k1", "zeta", "Alpha", "labels", "created_at", "a-b", "_x", "name2", "clusters", "names", "status", "0", "日本", "uid", "aaa", "is_deleted2"}

func genC16(t *rapid.T) c16Case {
	c := c16Case{Custom: chance(t, "custom", 40), Index: map[string]string{}}
	for _, k := range subset(t, "indexes", c16Keys, 6) {
		c.Index[k] = pick(t, "of", "k1", "k2", "k3", "literal", "t:k1", "t:k2", "is ns")
	}
	if chance(t, "namespace indexed", 75) {
		c.Index["namespace"] = "ns"
	}
	if chance(t, "name indexed", 75) {
		c.Index["name"] = "name"
	}
	for _, k := range []string{"cluster", "is_deleted"} { // also configured, which changes nothing
		if chance(t, k+" configured", 15) {
			c.Index[k] = "literal"
		}
	}
	c.Objs = genSObjs(t, 0, 20, []string{"c1", "c2"}, []string{"", "a", "b"}, func(t *rapid.T) string {
		if chance(t, "long value", 5) {
			return strings.Repeat(pick(t, "unit", "x", "日本", "a b,", "\n", "\""), intIn(t, "times", 1, 3000))
		}
		return genIndexValue(t)
	})
	if chance(t, "one namespace", 30) {
		c.NS = pick(t, "ns", "a", "b")
	}
	if chance(t, "clusters", 60) {
		c.Clusters = pick(t, "which", []string{"c1", "c2"}, []string{"c2"}, []string{"c1", "c2", "c3"})
	}
	if chance(t, "search", 20) {
		c.Search = "name=" + pick(t, "needle", "web", "a", "!web", "o-")
	}
	c.Sort = pick(t, "sort", "", "name desc", "cluster desc, name", "is_deleted, name desc")
	if c.Sort == "" && c.Index["namespace"] == "" {
		c.Sort = "name"
	}
	if chance(t, "selector", 30) {
		c.Selector = genLabelSelector(t, 1)
	}
	if chance(t, "paged", 40) {
		c.Page, c.Size = int64(intIn(t, "page", 1, 3)), int64(intIn(t, "size", 1, 7))
	}
	c.Again = genAgain(t)
	c.Accept = pick(t, "accept", "application/json;as=Table;v=v1;g=meta.k8s.io,application/json;as=Table;v=v1beta1;g=meta.k8s.io,application/json", "application/json;as=Table;v=v1;g=meta.k8s.io", "application/json;as=Table;g=meta.k8s.io;v=v1")
	return c
}

// expr and value are what an index is configured as and what it is of an object.
func (c c16Case) expr(of string) string {
	switch of {
	case "ns":
		return "{.metadata.namespace}"
	case "name":
		return "{.metadata.name}"
	case "is ns":
		return "ns:{.metadata.namespace}"
	case "literal":
		return "literal"
	}
	if len(of) > 2 && of[:2] == "t:" {
		return `{{ .metadata.annotations.` + of[2:] + ` | default "none" }}`
	}
	return "{.metadata.annotations." + of + "}"
}

func (c c16Case) value(of string, o SObj) string {
	switch of {
	case "ns":
		return o.NS
	case "name":
		return o.Name
	case "is ns":
		return "ns:" + o.NS
	case "literal":
		return "literal"
	}
	if len(of) > 2 && of[:2] == "t:" {
		if v, ok := o.K[of[2:]]; ok {
			return v
		}
		return "none"
	}
	return o.K[of]
}

func checkC16(_ *vk.Env, c c16Case) error {
	g, kind := gvrPods, "PodList"
	if c.Custom {
		g, kind = gvrWidgets, "WidgetList"
	}
	index := map[string]string{}
	for k, of := range c.Index {
		index[k] = c.expr(of)
	}
	s := newStore(map[GVR]map[string]string{g: index})
	byID := map[string]SObj{}
	for _, o := range c.Objs {
		byID[o.id()] = o
	}
	h := router(common.Config{Proxies: []common.Proxy{proxyConf(g, kind, index)}, DefaultCluster: "c1"}, s, nil)
	p := page.Paginate{Page: c.Page, PageSize: c.Size, Search: c.Search, Sort: c.Sort}
	if len(c.Clusters) > 0 {
		if err := p.Clusters(c.Clusters); err != nil {
			return err
		}
	}
	target, err := listTarget(g, c.NS, c.Selector, p)
	if err != nil {
		return err
	}
	fill(s, g, c.Objs, func(o SObj) interface{} { return o.buildAny(c.Custom) }, c.Again, func() {
		do(h, "GET", target, map[string]string{"Accept": c.Accept}, "")
	})
	plain, table := do(h, "GET", target, nil, ""), do(h, "GET", target, map[string]string{"Accept": c.Accept}, "")
	if plain.Code != table.Code {
		return fmt.Errorf("%s is answered %d, as a table %d %.300s", target, plain.Code, table.Code, table.Body)
	}
	if plain.Code != 200 {
		return nil
	}
	var l listReply
	var tab struct {
		Kind, APIVersion  string
		ColumnDefinitions []struct{ Name, Type string }
		Rows              []struct{ Cells []interface{} }
	}
	if err := json.Unmarshal(plain.Body, &l); err != nil {
		return err
	}
	if err := json.Unmarshal(table.Body, &tab); err != nil {
		return fmt.Errorf("%s as a table: %v", target, err)
	}
	if tab.Kind != "Table" || tab.APIVersion != "meta.k8s.io/v1" {
		return fmt.Errorf("%s as a table is a %s of %s", target, tab.Kind, tab.APIVersion)
	}
	want := l.ids()
	if len(tab.Rows) != len(want) {
		return fmt.Errorf("%s lists %d objects, as a table %d rows", target, len(want), len(tab.Rows))
	}
	if len(want) == 0 {
		return nil
	}
	columns := []string{"cluster"}
	if _, ok := c.Index["namespace"]; ok {
		columns = append(columns, "namespace")
	}
	columns = append(columns, "name")
	rest := []string{"is_deleted"}
	for k := range c.Index {
		if k != "cluster" && k != "namespace" && k != "name" && k != "is_deleted" {
			rest = append(rest, k)
		}
	}
	sort.Strings(rest)
	columns = append(columns, rest...)
	got := []string{}
	for _, d := range tab.ColumnDefinitions {
		got = append(got, d.Name)
	}
	if !eqStrings(got, columns) {
		return fmt.Errorf("the columns are %q, want %q", got, columns)
	}
	for i, id := range want {
		o, ok := byID[id]
		if !ok {
			return fmt.Errorf("unknown object %s", id)
		}
		if len(tab.Rows[i].Cells) != len(columns) {
			return fmt.Errorf("row %d has %d cells, want %d", i, len(tab.Rows[i].Cells), len(columns))
		}
		for j, k := range columns {
			v := ""
			switch k {
			case "cluster":
				v = o.Cluster
			case "namespace":
				v = o.NS
			case "name":
				v = o.Name
			case "is_deleted":
				v = fmt.Sprint(o.Deleted)
			default:
				v = c.value(c.Index[k], o)
			}
			if tab.Rows[i].Cells[j] != v {
				return fmt.Errorf("row %d (%s), column %s: %q, want %q", i, id, k, tab.Rows[i].Cells[j], v)
			}
		}
	}
	return nil
}

func classifyC16(c c16Case) (bool, []string) {
	l := []string{sizeClass("objects", len(c.Objs)), fmt.Sprintf("indexes=%d", len(c.Index))}
	n := 0
	for _, o := range c.Objs {
		if (c.NS == "" || c.NS == o.NS) && (contains(c.Clusters, o.Cluster) || (len(c.Clusters) == 0 && o.Cluster == "c1")) {
			n++
		}
	}
	if _, ok := c.Index["namespace"]; !ok {
		l = append(l, "namespace not indexed")
	}
	return n > 1 && len(c.Index) > 2, l
}

func init() {
	vk.Register(&vk.Property{
		ID:    "C16",
		Setup: func(*vk.Env) error { quietStdout(); return nil },
		Parts: []*vk.Part{vk.New(vk.Part{
			Name:  "table",
			Rule:  "0-20 objects with 0-8 configured indexes (paths, literals and templates, sorting before and after the fixed ones, namespace and name indexed or not), listed as a table and plainly with the same clusters, namespace, search, sort, selector and page; columns, row order and every cell are compared with the plain list and the objects; non-trivial with two or more rows and three or more indexes",
			Quick: 9000, Thorough: 250000,
		}, vk.Def[c16Case]{Gen: genC16, Check: checkC16, Classify: classifyC16, Fixed: []c16Case{
			{Objs: []SObj{{Cluster: "c1", NS: "a", Name: "x"}, {Cluster: "c1", NS: "a", Name: "y"}}, Index: map[string]string{"name": "literal", "namespace": "literal", "k1": "k1"}, Accept: "application/json;as=Table;v=v1;g=meta.k8s.io"},
		}})},
		Assumptions: []string{"a table without rows needs no columns", "alphabetical order is that of the bytes"},
	})
}

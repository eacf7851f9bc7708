package props

import (
	"encoding/json"
	"fmt"
	"math"
	"strings"

	"ckverif/vk"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/page"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/labels"
	"pgregory.net/rapid"
)

type c10Case struct {
	Again    int       `json:"again,omitempty"` // what changed since it was asked before: 1 contents, 2 objects gone, 4 objects new
	Objs     []SObj    `json:"objs"`
	Others   []SObj    `json:"others,omitempty"` // objects of another cached resource
	Custom   bool      `json:"custom,omitempty"`
	ListKind string    `json:"kind"`
	NS       string    `json:"ns,omitempty"`
	Clusters []string  `json:"clusters"`
	Default  bool      `json:"default,omitempty"` // no choice of clusters: the one of Clusters is the default cluster
	Conds    []Cond    `json:"conds,omitempty"`
	Keys     []sortKey `json:"keys,omitempty"`
	BadSort  string    `json:"badSort,omitempty"`
	Selector string    `json:"selector,omitempty"`
	Page     int64     `json:"page,omitempty"`
	Size     int64     `json:"size,omitempty"`
	Params   string    `json:"params,omitempty"` // further parameters a list may have
	Many     int       `json:"many,omitempty"`   // further objects
}

func (c c10Case) objs() []SObj { return append(append([]SObj{}, c.Objs...), manyObjs(c.Many)...) }

func genC10(t *rapid.T) c10Case {
	c := c10Case{Custom: chance(t, "custom", 40)}
	all := subset(t, "clusters", []string{"c1", "c2", "default", "c1-x", "prod.eu", "c_3"}, 4)
	c.Objs = genSObjs(t, 0, 40, all, subset(t, "nss", poolNS, 3), func(t *rapid.T) string {
		if chance(t, "text", 30) {
			return genIndexValue(t)
		}
		return fmt.Sprint(intIn(t, "v", 0, 12))
	})
	c.Others = genSObjs(t, 0, 4, all, []string{"a", "default"}, genIndexValue)
	c.ListKind = pick(t, "list kind", "PodList", "WidgetList", "ThingList", "List")
	for i := range subset(t, "chosen", all, len(all)) {
		c.Clusters = append(c.Clusters, all[i])
	}
	if len(c.Clusters) == 0 || chance(t, "absent cluster", 8) {
		c.Clusters = append(c.Clusters, pick(t, "one", "c1", "nowhere"))
	}
	if chance(t, "no choice", 15) {
		c.Default, c.Clusters = true, c.Clusters[:1]
	}
	if chance(t, "one namespace", 40) {
		c.NS = pick(t, "ns of query", "default", "a", "kube-system", "a-b")
	}
	c.Conds = withoutScope(genConds(t, c.Objs, 0, 2, chance(t, "may fail", 25)))
	c.Keys = genSortKeys(t, 0, 2)
	if chance(t, "bad sort", 6) {
		c.BadSort = pickFrom(t, "which", badSorts)
	}
	if chance(t, "selector", 40) {
		c.Selector = genLabelSelector(t, 2)
	}
	if chance(t, "paged", 65) {
		c.Page, c.Size = int64(intIn(t, "page", 1, 4)), int64(intIn(t, "size", 1, 9))
		if chance(t, "odd", 12) {
			c.Page = pick[int64](t, "odd page", 0, 1, 2, -1, math.MaxInt64, 1<<62, 1000)
			c.Size = pick[int64](t, "odd size", 0, 3, 1000, -1, math.MaxInt64, 1<<40)
		}
	}
	if c.Many = genMany(t, 2, 300); c.Many > 0 && c.Size > 0 {
		c.Page, c.Size = int64(intIn(t, "page of many", 1, 3)), int64(pick(t, "large size", 20, 50, 99, 100, 101, 128, 250, intIn(t, "of many", 20, c.Many+10)))
	}
	c.Again = genAgain(t)
	c.Params = pick(t, "params", "", "", "", "limit=500", "timeout=10s", "timeoutSeconds=5", "limit=2&timeout=1m0s")
	return c
}

func (c c10Case) gvr() (GVR, GVR, string) {
	if c.Custom {
		return gvrWidgets, gvrPods, "example.io/v1"
	}
	return gvrPods, gvrWidgets, "v1"
}

func (c c10Case) sortText() string {
	if c.BadSort != "" {
		return c.BadSort
	}
	return sortText(c.Keys)
}

// want is the set of matching objects and the keys they are to be ordered by, or an error.
func (c c10Case) want() ([]SObj, []sortKey, error) {
	sel, err := expected(c.objs(), c.NS, c.Conds)
	if err != nil {
		return nil, nil, err
	}
	chosen := setOf(c.Clusters)
	in := []SObj{}
	for _, o := range sel {
		if chosen[o.Cluster] {
			in = append(in, o)
		}
	}
	keys := c.Keys
	if len(keys) == 0 {
		keys = defaultSort
	}
	if c.BadSort != "" {
		if len(in) > 0 {
			return nil, nil, fmt.Errorf("malformed sort")
		}
	} else if err := mustFail(keys, in); err != nil {
		return nil, nil, err
	}
	ls, err := labels.Parse(c.Selector)
	if err != nil {
		return nil, nil, err
	}
	out := []SObj{}
	for _, o := range in {
		if ls.Matches(labels.Set(o.Labels)) {
			out = append(out, o)
		}
	}
	return out, keys, nil
}

func (c c10Case) defaultCluster() string {
	if c.Default {
		return c.Clusters[0]
	}
	return "c2"
}

func checkC10(_ *vk.Env, c c10Case) error {
	g, other, apiVersion := c.gvr()
	s := newStore(map[GVR]map[string]string{g: searchIndex(), other: searchIndex()})
	for _, o := range c.Others {
		_ = s.OnResourceAdded(other, o.Cluster, o.buildAny(!c.Custom))
	}
	h := router(common.Config{Proxies: []common.Proxy{proxyConf(other, "OtherList", searchIndex()), proxyConf(g, c.ListKind, searchIndex())}, DefaultCluster: c.defaultCluster()}, s, nil)
	p := page.Paginate{Sort: c.sortText(), Search: writeSearch(c.Conds)}
	if c.Default {
		// the request says nothing about clusters
	} else if err := p.Clusters(c.Clusters); err != nil {
		malformed := false
		for _, x := range c.Conds {
			_, err := x.holds(SObj{}.index())
			malformed = malformed || (x.Kind == "adv" && err != nil)
		}
		if !malformed {
			return fmt.Errorf("choosing %v: %v", c.Clusters, err)
		}
		p.Search += ";" + advPrefix + "cluster in (" + strings.Join(c.Clusters, ",") + ")"
	}
	get := func(p page.Paginate) (reply, *listReply, string, error) {
		target, err := listTarget(g, c.NS, c.Selector, p)
		if err != nil {
			return reply{}, nil, "", err
		}
		if c.Params != "" {
			sep := "?"
			if strings.Contains(target, "?") {
				sep = "&"
			}
			target += sep + c.Params
		}
		r := do(h, "GET", target, nil, "")
		if r.Code != 200 {
			return r, nil, target, nil
		}
		l := &listReply{}
		if err := json.Unmarshal(r.Body, l); err != nil {
			return r, nil, target, fmt.Errorf("%s: %v: %.300s", target, err, r.Body)
		}
		return r, l, target, nil
	}
	fill(s, g, c.objs(), func(o SObj) interface{} { return o.buildAny(c.Custom) }, c.Again, func() {
		q := p
		_, _, _, _ = get(q)
		q.Page, q.PageSize = c.Page, c.Size
		_, _, _, _ = get(q)
	})
	want, keys, wantErr := c.want()
	r, full, target, err := get(p)
	if err != nil {
		return err
	}
	what := fmt.Sprintf("list (search %q, sort %q, selector %q, clusters %v, namespace %q)", writeSearch(c.Conds), p.Sort, c.Selector, c.Clusters, c.NS)
	if wantErr != nil {
		if r.Code != 400 {
			return fmt.Errorf("%s is an error (%v), the answer is %d %.300s", what, wantErr, r.Code, r.Body)
		}
		return nil
	}
	bad := c.BadSort != "" // of nothing: an empty answer and an error are both fine
	if bad && r.Code == 400 {
		return nil
	}
	if r.Code != 200 {
		return fmt.Errorf("%s: status %d %.300s for %s", what, r.Code, r.Body, target)
	}
	if full.Kind != c.ListKind || full.APIVersion != apiVersion {
		return fmt.Errorf("%s: kind %q, version %q", what, full.Kind, full.APIVersion)
	}
	all := full.ids()
	if !eqStrings(sortedCopy(all), sortedCopy(ids(want))) {
		return fmt.Errorf("%s is %v, want %v", what, all, ids(want))
	}
	byID := map[string]SObj{}
	for _, o := range c.objs() {
		byID[o.id()] = o
	}
	for i := 1; i < len(all); i++ {
		if x, _ := compareKeys(keys, byID[all[i-1]].index(), byID[all[i]].index()); x > 0 {
			return fmt.Errorf("%s: %s comes before %s in %v", what, all[i-1], all[i], all)
		}
	}
	if full.Metadata.Remaining != nil && *full.Metadata.Remaining != 0 {
		return fmt.Errorf("%s of all pages says that %d items remain", what, *full.Metadata.Remaining)
	}
	p.Page, p.PageSize = c.Page, c.Size
	if p.Page == 0 && p.PageSize == 0 {
		return nil
	}
	what += fmt.Sprintf(", page %d of size %d of %d", c.Page, c.Size, len(all))
	r, one, _, err := get(p)
	if err != nil {
		return err
	}
	wantIDs := wantPage(all, c.Page, c.Size)
	if c.Page < 0 || c.Size < 0 || (len(wantIDs) == 0 && c.Page > 1 && c.Size > 0) {
		if r.Code != 400 {
			return fmt.Errorf("%s: status %d, want 400: %.300s", what, r.Code, r.Body)
		}
		return nil
	}
	if r.Code != 200 {
		return fmt.Errorf("%s: status %d %.300s", what, r.Code, r.Body)
	}
	if one.Kind != c.ListKind || one.APIVersion != apiVersion {
		return fmt.Errorf("%s: kind %q, version %q", what, one.Kind, one.APIVersion)
	}
	if got := one.ids(); !eqStrings(got, wantIDs) {
		return fmt.Errorf("%s is %v, want %v of %v", what, got, wantIDs, all)
	}
	left := int64(0)
	if len(wantIDs) > 0 && len(wantIDs) < len(all) {
		last := wantIDs[len(wantIDs)-1]
		for i, id := range all {
			if id == last {
				left = int64(len(all) - i - 1)
			}
		}
	}
	got := int64(0)
	if one.Metadata.Remaining != nil {
		got = *one.Metadata.Remaining
	}
	if got != left {
		return fmt.Errorf("%s says that %d items remain, it is %d", what, got, left)
	}
	var li metav1.ListInterface = &corev1.PodList{}
	if err := json.Unmarshal(r.Body, li); err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	if t := page.MakeupResPaginate(li, p).Total; t != int64(len(all)) {
		return fmt.Errorf("%s: the client library computes a total of %d", what, t)
	}
	return nil
}

func classifyC10(c c10Case) (bool, []string) {
	l := []string{sizeClass("objects", len(c.objs()))}
	if c.Custom {
		l = append(l, "custom resource")
	}
	if c.Selector != "" {
		l = append(l, "label selector")
	}
	want, _, err := c.want()
	if err != nil {
		return true, append(l, "error")
	}
	l = append(l, sizeClass("matches", len(want)))
	if c.Page > 0 && c.Size > 0 {
		if len(wantPage(ids(want), c.Page, c.Size)) == 0 {
			l = append(l, "past the end")
		} else {
			l = append(l, "paged")
		}
	}
	if len(want) > 0 && len(want) < len(c.objs()) {
		l = append(l, "part of the objects")
	}
	return len(want) > 0 && (len(want) < len(c.objs()) || c.Page > 0), l
}

func init() {
	o := func(cl, n, v, app string) SObj {
		return SObj{Cluster: cl, NS: "a", Name: n, K: map[string]string{"k1": v}, Labels: map[string]string{"app": app}}
	}
	objs := []SObj{}
	for i := 0; i < 10; i++ {
		objs = append(objs, o([]string{"c1", "c2"}[i%2], fmt.Sprintf("o-%d", i), fmt.Sprint(i), []string{"web", "db"}[i/5]))
	}
	fixed := []c10Case{}
	for _, sel := range []string{"", "app=web"} {
		for _, pg := range [][2]int64{{1, 3}, {2, 3}, {4, 3}, {5, 3}, {2, 5}, {0, 2}, {1, 0}} {
			fixed = append(fixed, c10Case{Objs: objs, ListKind: "PodList", Clusters: []string{"c1", "c2"}, Keys: []sortKey{{Key: "k1", Type: "int", Dir: "desc"}}, Selector: sel, Page: pg[0], Size: pg[1]})
		}
	}
	vk.Register(&vk.Property{
		ID:    "C10",
		Setup: func(*vk.Env) error { quietStdout(); return nil },
		Parts: []*vk.Part{vk.New(vk.Part{
			Name:  "list",
			Rule:  "0-40 (sometimes some hundred more) pods or custom resources of 1-4 clusters next to another resource, listed through the client library's options with a cluster choice, namespace, search, sort, label selector and page; the whole listing is compared with the objects whose meaning matches, the page with its slice, the remaining count and the library's total with the number of matches; non-trivial when some objects match and some do not or a page is cut, or the request is an error",
			Quick: 9000, Thorough: 250000,
		}, vk.Def[c10Case]{Gen: genC10, Check: checkC10, Classify: classifyC10, Fixed: fixed})},
		Assumptions: []string{"namespaces in the path are non-empty and need no escaping", "the remaining count may be absent when nothing remains"},
	})
}

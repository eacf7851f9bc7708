package props

import (
	"encoding/json"
	"fmt"
	"math"
	"net/url"
	"strings"

	"ckverif/vk"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/labels"
	"pgregory.net/rapid"
)

type c06Case struct {
	Again    int       `json:"again,omitempty"` // what changed since it was asked before: 1 contents, 2 objects gone, 4 objects new
	Objs     []SObj    `json:"objs"`
	NS       string    `json:"ns"`
	Conds    []Cond    `json:"conds,omitempty"`
	Keys     []sortKey `json:"keys,omitempty"`
	Size     int64     `json:"size"`
	Selector string    `json:"selector,omitempty"` // HTTP only
	Page     int64     `json:"page,omitempty"`     // a single odd request instead of a walk
	Odd      bool      `json:"odd,omitempty"`
	Many     int       `json:"many,omitempty"` // further objects
}

func (c c06Case) objs() []SObj { return append(append([]SObj{}, c.Objs...), manyObjs(c.Many)...) }

func sortText(ks []sortKey) string { return c05Case{Keys: ks, Style: ","}.sort() }

func genC06(t *rapid.T) c06Case {
	c := c06Case{}
	c.Objs = genSObjs(t, 0, 40, subset(t, "clusters", []string{"c1", "c2", "default"}, 2), subset(t, "nss", poolNS, 2), func(t *rapid.T) string { return fmt.Sprint(intIn(t, "v", 0, 9)) })
	for i := range c.Objs {
		for _, k := range searchKeys {
			if c.Objs[i].K[k] == "" {
				c.Objs[i].K[k] = "3"
			}
		}
	}
	for _, k := range genSortKeys(t, 0, 2) {
		if strings.HasPrefix(k.Key, "k") || k.Type != "int" {
			c.Keys = append(c.Keys, k)
		}
	}
	if chance(t, "search", 40) {
		c.Conds = genConds(t, c.Objs, 1, 2, false)
	}
	if chance(t, "one namespace", 30) {
		c.NS = pick(t, "ns of query", "default", "a", "kube-system")
	}
	n := len(c.Objs)
	c.Size = int64(intIn(t, "size", 1, n+3))
	if chance(t, "small page", 50) {
		c.Size = int64(intIn(t, "small size", 1, 6))
	}
	if n > 1 && chance(t, "divisor", 25) {
		for d := intIn(t, "d", 1, n); d > 0; d-- {
			if n%d == 0 {
				c.Size = int64(d)
				break
			}
		}
	}
	if c.Many = genMany(t, 4, 1100); c.Many > 0 {
		c.Size = int64(pick(t, "large size", 10, 50, 99, 100, 101, 128, 200, 250, 256, 500, 501, 999, 1000, 1001, intIn(t, "of many", 20, c.Many+10)))
	}
	if chance(t, "odd", 20) {
		c.Odd = true
		c.Page = pick[int64](t, "odd page", 0, 1, 2, 3, -1, math.MinInt64, math.MaxInt64, math.MaxInt64-1, 1<<62, 1<<32, 1<<31, 4611686018427387905, 9223372036854775807/3, int64(intIn(t, "past", 1, 60)))
		c.Size = pick[int64](t, "odd size", 0, 1, 2, -1, math.MinInt64, math.MaxInt64, 1<<62, 1<<32, 1<<33+1, int64(intIn(t, "n", 1, 50)))
	}
	c.Again = genAgain(t)
	return c
}

func genC06HTTP(t *rapid.T) c06Case {
	c := genC06(t)
	c.Again = 0
	c.Conds = withoutScope(c.Conds)
	if chance(t, "selector", 60) {
		c.Selector = genLabelSelector(t, 2)
	}
	return c
}

// genLabelSelector writes a supported selector over the labels the generated objects have.
func genLabelSelector(t *rapid.T, max int) string {
	reqs := []string{}
	for i := intIn(t, "requirements", 1, max); i > 0; i-- {
		k := pickFrom(t, "label", labelKeys)
		if chance(t, "index label", 6) {
			k = pickFrom(t, "which index label", indexLabelKeys)
		}
		v := func() string { return pickFrom(t, "label value", append([]string{"absent"}, labelPool[k]...)) }
		set := func() string {
			vs := []string{v(), v()}
			if chance(t, "large set", 4) {
				for i := intIn(t, "further values", 10, 60); i > 0; i-- {
					vs = append(vs, pick(t, "order of it", "0", "zz-")+fmt.Sprint(i))
				}
			}
			return "(" + strings.Join(vs, ",") + ")"
		}
		switch intIn(t, "label op", 0, 7) {
		case 0, 1:
			reqs = append(reqs, k+"="+v())
		case 2:
			reqs = append(reqs, k+"=="+v())
		case 3:
			reqs = append(reqs, k+"!="+v())
		case 4:
			reqs = append(reqs, k+" in "+set())
		case 5:
			reqs = append(reqs, k+" notin "+set())
		case 6:
			reqs = append(reqs, k)
		case 7:
			reqs = append(reqs, "!"+k)
		}
	}
	sel := strings.Join(reqs, ",")
	if _, err := labels.Parse(sel); err != nil {
		return "app" // two empty values are not a set
	}
	return sel
}

// wantPage is the slice of a listing that a page shows.
func wantPage(all []string, p, size int64) []string {
	if p == 0 || size == 0 {
		return all
	}
	out := []string(nil)
	for i := range all {
		// the page an object is on, without multiplying anything
		if int64(i)/size == p-1 {
			out = append(out, all[i])
		}
	}
	return out
}

func checkC06(_ *vk.Env, c c06Case) error {
	base := page.Paginate{Sort: sortText(c.Keys), Search: writeSearch(c.Conds)}
	s := fillStore(gvrPods, c.objs(), c.Again, func(s store.Store) {
		p := base
		s.Query(gvrPods, store.Query{Namespace: c.NS, Paginate: p})
		p.Page, p.PageSize = 1, c.Size
		s.Query(gvrPods, store.Query{Namespace: c.NS, Paginate: p})
	})
	full := s.Query(gvrPods, store.Query{Namespace: c.NS, Paginate: base})
	if full.Error != nil {
		return fmt.Errorf("unpaginated listing: %v", full.Error)
	}
	all := objIDs(full.Items)
	if full.Total != int64(len(all)) {
		return fmt.Errorf("unpaginated listing of %d objects has total %d", len(all), full.Total)
	}
	one := func(pg, size int64) ([]string, error) {
		p := base
		p.Page, p.PageSize = pg, size
		r := s.Query(gvrPods, store.Query{Namespace: c.NS, Paginate: p})
		what := fmt.Sprintf("page %d of size %d of %d objects", pg, size, len(all))
		if pg < 0 || size < 0 {
			if r.Error == nil {
				return nil, fmt.Errorf("%s is not rejected", what)
			}
			return nil, nil
		}
		if r.Error != nil {
			return nil, fmt.Errorf("%s: %v", what, r.Error)
		}
		got := objIDs(r.Items)
		want := wantPage(all, pg, size)
		if !eqStrings(got, want) {
			return nil, fmt.Errorf("%s is %v, want %v", what, got, want)
		}
		if len(want) > 0 && r.Total != int64(len(all)) {
			return nil, fmt.Errorf("%s reports a total of %d", what, r.Total)
		}
		return got, nil
	}
	if c.Odd {
		_, err := one(c.Page, c.Size)
		return err
	}
	walked := []string{}
	for pg := int64(1); ; pg++ {
		got, err := one(pg, c.Size)
		if err != nil {
			return err
		}
		if len(got) == 0 {
			break
		}
		walked = append(walked, got...)
		if pg > int64(len(all))+1 {
			return fmt.Errorf("pages of size %d never end", c.Size)
		}
	}
	if !eqStrings(walked, all) {
		return fmt.Errorf("the pages of size %d hold %v, the listing %v", c.Size, walked, all)
	}
	return nil
}

type listReply struct {
	Kind       string `json:"kind"`
	APIVersion string `json:"apiVersion"`
	Metadata   struct {
		Remaining *int64 `json:"remainingItemCount"`
	} `json:"metadata"`
	Items []struct {
		Metadata metav1.ObjectMeta `json:"metadata"`
	} `json:"items"`
}

func (l listReply) ids() []string {
	out := []string{}
	for _, i := range l.Items {
		out = append(out, i.Metadata.Annotations[ClusterAnno]+"|"+i.Metadata.Namespace+"|"+i.Metadata.Name)
	}
	return out
}

// listTarget is the URL the client library's options lead to.
func listTarget(g GVR, ns, selector string, p page.Paginate) (string, error) {
	o, err := page.QueryListOptions(metav1.ListOptions{LabelSelector: selector}, p)
	if err != nil {
		return "", err
	}
	target := collectionPath(g, ns)
	if o.LabelSelector != "" {
		target += "?labelSelector=" + url.QueryEscape(o.LabelSelector)
	}
	return target, nil
}

func checkC06HTTP(_ *vk.Env, c c06Case) error {
	s := fillStore(gvrPods, c.objs(), 0, nil)
	clusters := []string{"c1", "c2", "default"}
	h := router(common.Config{Proxies: []common.Proxy{proxyConf(gvrPods, "PodList", searchIndex())}, DefaultCluster: "c1"}, s, nil)
	base := page.Paginate{Sort: sortText(c.Keys), Search: writeSearch(c.Conds)}
	if err := base.Clusters(clusters); err != nil {
		return err
	}
	get := func(p page.Paginate) (*listReply, int, error) {
		target, err := listTarget(gvrPods, c.NS, c.Selector, p)
		if err != nil {
			return nil, 0, err
		}
		r := do(h, "GET", target, nil, "")
		if r.Code != 200 {
			return nil, r.Code, nil
		}
		l := &listReply{}
		if err := json.Unmarshal(r.Body, l); err != nil {
			return nil, 0, fmt.Errorf("%s: %v", target, err)
		}
		// the client library's view
		pl := &corev1.PodList{}
		if err := json.Unmarshal(r.Body, pl); err != nil {
			return nil, 0, err
		}
		l.Metadata.Remaining = new(int64)
		*l.Metadata.Remaining = page.MakeupResPaginate(pl, p).Total
		return l, 200, nil
	}
	full, code, err := get(base)
	if err != nil || full == nil {
		return fmt.Errorf("unpaginated list: status %d, %v", code, err)
	}
	all := full.ids()
	// the size of the result is known from the meaning of search and selector
	sel, _ := expected(c.objs(), c.NS, c.Conds)
	want := 0
	ls, err := labels.Parse(c.Selector)
	if err != nil {
		return err
	}
	for _, o := range sel {
		if ls.Matches(labels.Set(o.Labels)) {
			want++
		}
	}
	if len(all) != want {
		return fmt.Errorf("unpaginated list has %d of %d objects", len(all), want)
	}
	one := func(pg, size int64) ([]string, bool, error) {
		p := base
		p.Page, p.PageSize = pg, size
		l, code, err := get(p)
		if err != nil {
			return nil, false, err
		}
		what := fmt.Sprintf("page %d of size %d of %d objects (selector %q)", pg, size, len(all), c.Selector)
		if pg < 0 || size < 0 {
			if code != 400 {
				return nil, false, fmt.Errorf("%s: status %d, want 400", what, code)
			}
			return nil, true, nil
		}
		want := wantPage(all, pg, size)
		if len(want) == 0 && pg > 1 && size > 0 {
			if code != 400 {
				return nil, false, fmt.Errorf("%s is past the end: status %d, want 400", what, code)
			}
			return nil, true, nil
		}
		if code != 200 {
			return nil, false, fmt.Errorf("%s: status %d", what, code)
		}
		if got := l.ids(); !eqStrings(got, want) {
			return nil, false, fmt.Errorf("%s is %v, want %v", what, got, want)
		}
		if *l.Metadata.Remaining != int64(len(all)) {
			return nil, false, fmt.Errorf("%s: the client library computes a total of %d", what, *l.Metadata.Remaining)
		}
		return want, len(want) == 0, nil
	}
	if c.Odd {
		_, _, err := one(c.Page, c.Size)
		return err
	}
	for pg := int64(1); pg < int64(len(all))+3; pg++ {
		_, end, err := one(pg, c.Size)
		if err != nil {
			return err
		}
		if end {
			return nil
		}
	}
	return nil
}

func classifyC06(c c06Case) (bool, []string) {
	labels := []string{sizeClass("objects", len(c.objs()))}
	if c.Odd {
		return true, append(labels, "odd page or size")
	}
	sel, _ := expected(c.objs(), c.NS, c.Conds)
	n := int64(len(sel))
	pages := (n + c.Size - 1) / c.Size
	labels = append(labels, sizeClass("pages", int(pages)))
	if n > 0 && n%c.Size == 0 {
		labels = append(labels, "last page full")
	}
	if c.Selector != "" {
		labels = append(labels, "label selector")
	}
	return pages > 1, labels
}

func init() {
	objs := func(n int) []SObj {
		var l []SObj
		for i := 0; i < n; i++ {
			l = append(l, SObj{Cluster: "c1", NS: "a", Name: fmt.Sprintf("o-%02d", i), K: map[string]string{"k1": "1", "k2": "1", "k3": "1"}, Labels: map[string]string{"app": "web"}})
		}
		return l
	}
	fixed := []c06Case{
		{Objs: objs(10), Size: 3, Keys: []sortKey{{Key: "k1"}}}, {Objs: objs(4), Size: 2},
		{Objs: objs(10), Odd: true, Page: 0, Size: 2}, {Objs: objs(10), Odd: true, Page: 1, Size: 0}, {Objs: objs(10), Odd: true, Page: -1, Size: 5},
		{Objs: objs(10), Odd: true, Page: math.MaxInt64, Size: math.MaxInt64}, {Objs: objs(10), Odd: true, Page: 2, Size: math.MaxInt64}, {Objs: objs(10), Odd: true, Page: 1<<62 + 1, Size: 2},
	}
	withSel := []c06Case{}
	for _, c := range fixed {
		withSel = append(withSel, c)
		c.Selector = "app=web"
		withSel = append(withSel, c)
	}
	vk.Register(&vk.Property{
		ID:    "C06",
		Setup: func(*vk.Env) error { quietStdout(); return nil },
		Parts: []*vk.Part{vk.New(vk.Part{
			Name:  "store",
			Rule:  "0-40 objects, sometimes some hundred more, a search, a namespace, a sort with ties and a page size (often a divisor of the result) walked page by page and compared with the unpaginated listing, or one request with an extreme or negative page or size; non-trivial with two or more pages, or an extreme request",
			Quick: 8000, Thorough: 200000,
		}, vk.Def[c06Case]{Gen: genC06, Check: checkC06, Classify: classifyC06, Fixed: fixed}), vk.New(vk.Part{
			Name:  "http",
			Rule:  "the same over HTTP through the client library's list options, with and without a label selector, including the total the library computes and the error past the last page",
			Quick: 3000, Thorough: 60000,
		}, vk.Def[c06Case]{Gen: genC06HTTP, Check: checkC06HTTP, Classify: classifyC06, Fixed: withSel})},
		Assumptions: []string{"the cache does not change during a walk"},
	})
}

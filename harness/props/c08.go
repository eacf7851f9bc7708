package props

import (
	"encoding/json"
	"fmt"
	"net/url"
	"strings"
	"sync"

	"ckverif/vk"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/labels"
	"pgregory.net/rapid"
)

// recordStore answers every query with the same items and keeps the queries.
type recordStore struct {
	store.Store
	mu      sync.Mutex
	items   []interface{}
	queries []store.Query
}

func (r *recordStore) IsStoreGVR(GVR) bool { return true }

func (r *recordStore) Query(_ GVR, q store.Query) store.QueryResult {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.queries = append(r.queries, q)
	return store.QueryResult{Items: append([]interface{}{}, r.items...), Total: int64(len(r.items))}
}

// labelSets is the space of label sets the selectors talk about.
func labelSets() []map[string]string {
	sets := []map[string]string{{}}
	for _, k := range labelKeys {
		next := []map[string]string{}
		for _, m := range sets {
			next = append(next, m)
			for _, v := range append([]string{"absent"}, labelPool[k]...) {
				n := copyMap(m)
				n[k] = v
				next = append(next, n)
			}
		}
		sets = next
	}
	return sets
}

var allLabelSets = labelSets()

type c08Query struct {
	Page   int64  `json:"page,omitempty"`
	Size   int64  `json:"size,omitempty"`
	Sort   string `json:"sort,omitempty"`
	Search string `json:"search,omitempty"`
	Repeat int    `json:"repeat,omitempty"` // the search is this many copies of Search
	Total  int64  `json:"total,omitempty"`
}

func (q c08Query) paginate(scoped bool) page.Paginate {
	p := page.Paginate{Page: q.Page, PageSize: q.Size, Sort: q.Sort, Search: q.Search, Total: q.Total}
	if q.Repeat > 0 {
		p.Search = strings.Repeat(q.Search, q.Repeat)
	}
	if scoped {
		// name a cluster, so that the proxy does not add the default one
		p.Search = strings.TrimRight(advPrefix+"cluster in (c1);"+strings.TrimLeft(p.Search, ";"), ";")
	}
	return p
}

type c08Case struct {
	Queries  []c08Query `json:"queries"` // attached one after the other
	Selector string     `json:"selector"`
	Scoped   bool       `json:"scoped"`
	Bad      string     `json:"bad,omitempty"`
}

func genLongText(t *rapid.T) string {
	switch intIn(t, "text kind", 0, 4) {
	case 0:
		return genText(t)
	case 1:
		return rapid.StringN(0, 60, -1).Draw(t, "any text")
	case 2:
		return pickFrom(t, "pool text", valuePool)
	case 3:
		return strings.Repeat(pick(t, "unit", "?", "~", "ab", "日", "\u007f", "😀", "\u2028", "/", "+", "\"", "<"), intIn(t, "times", 1, 40))
	}
	return genText(t) + pickFrom(t, "tail", valuePool)
}

func genC08Query(t *rapid.T) c08Query {
	q := c08Query{}
	if chance(t, "page", 60) {
		q.Page, q.Size = pick[int64](t, "page no", 0, 1, 2, 3, 100, 1<<40, -1), pick[int64](t, "size", 0, 1, 10, 7, 1<<40, 1<<62)
	}
	if chance(t, "sort", 50) {
		q.Sort = genLongText(t)
	}
	if chance(t, "search", 70) {
		q.Search = strings.ReplaceAll(genLongText(t), advPrefix, "")
		if chance(t, "long", 10) {
			q.Search += "x"
			q.Repeat = intIn(t, "repeat", 1, 12000/len(q.Search)+1)
		}
	}
	return q
}

func genC08(t *rapid.T) c08Case {
	c := c08Case{Scoped: chance(t, "scoped", 70)}
	for i := pick(t, "queries", 1, 1, 1, 2, 3); i > 0; i-- {
		c.Queries = append(c.Queries, genC08Query(t))
	}
	if chance(t, "selector", 75) {
		c.Selector = genLabelSelector(t, 3)
	}
	if chance(t, "bad selector", 6) {
		c.Bad = pick(t, "bad", "app>1", "ver < 3", "app in", "app in (", "=x", "app=a=b", "(app)", "ver gt 3")
	}
	return c
}

func checkC08(_ *vk.Env, c c08Case) error {
	last := c.Queries[len(c.Queries)-1].paginate(c.Scoped)
	empty := last == page.Paginate{}
	if c.Bad != "" {
		o, err := page.QueryListOptions(metav1.ListOptions{LabelSelector: c.Bad}, last)
		if err == nil && !empty {
			return fmt.Errorf("the unsupported selector %q is accepted: %q", c.Bad, o.LabelSelector)
		}
		return nil
	}
	orig := metav1.ListOptions{LabelSelector: c.Selector, Limit: 17, FieldSelector: "metadata.name=x", ResourceVersion: "5"}
	opts := orig
	for _, q := range c.Queries {
		var err error
		p := q.paginate(c.Scoped)
		before := p
		opts, err = page.QueryListOptions(opts, p)
		if err != nil {
			return fmt.Errorf("attaching %s to %q: %v", short(p), c.Selector, err)
		}
		if p != before {
			return fmt.Errorf("attaching changed the query")
		}
		if empty && len(c.Queries) > 1 {
			return nil // attaching an empty query leaves the options as they are
		}
	}
	sent := opts.LabelSelector
	if empty {
		if opts != orig {
			return fmt.Errorf("an empty query changed the options from %s to %s", short(orig), short(opts))
		}
		return nil
	}
	rest := opts
	rest.LabelSelector = orig.LabelSelector
	if rest != orig {
		return fmt.Errorf("attaching changed other options: %s", short(opts))
	}
	// a plain API server
	plain, err := labels.Parse(sent)
	if err != nil {
		return fmt.Errorf("%s is sent as %.300q, which is no label selector: %v", short(last), sent, err)
	}
	want, err := labels.Parse(c.Selector)
	if err != nil {
		return fmt.Errorf("generator: %v", err)
	}
	for _, set := range allLabelSets {
		if plain.Matches(labels.Set(set)) != want.Matches(labels.Set(set)) {
			return fmt.Errorf("selector %q is sent as %.300q, which selects %v differently on a plain API server", c.Selector, sent, set)
		}
	}
	// the ckube server
	rec := &recordStore{}
	for i := 0; i < len(allLabelSets); i += 7 {
		o := SObj{Cluster: "c1", NS: "a", Name: fmt.Sprintf("o-%d", i), Labels: allLabelSets[i]}.build()
		o.Annotations = map[string]string{ClusterAnno: "c1"}
		rec.items = append(rec.items, o)
	}
	h := router(common.Config{Proxies: []common.Proxy{proxyConf(gvrPods, "PodList", searchIndex())}, DefaultCluster: "c1"}, rec, nil)
	r := do(h, "GET", collectionPath(gvrPods, "")+"?labelSelector="+url.QueryEscape(sent), nil, "")
	if len(rec.queries) != 1 {
		return fmt.Errorf("the server made %d cache queries for %.300q and answered %d %.200s", len(rec.queries), sent, r.Code, r.Body)
	}
	got := rec.queries[0].Paginate
	if got.Sort != last.Sort {
		return fmt.Errorf("sort %.300q arrives as %.300q", last.Sort, got.Sort)
	}
	if c.Scoped && got.Search != last.Search {
		return fmt.Errorf("search %.300q arrives as %.300q", last.Search, got.Search)
	}
	if !c.Scoped {
		// the server adds the default cluster, as one more condition
		extra := map[string]int{}
		for _, part := range got.SearchParts() {
			extra[strings.TrimSpace(part)]++
		}
		for _, part := range last.SearchParts() {
			extra[strings.TrimSpace(part)]--
		}
		n := 0
		for part, k := range extra {
			if k < 0 {
				return fmt.Errorf("search %.300q arrives as %.300q, without %q", last.Search, got.Search, part)
			}
			n += k
		}
		if n != 1 {
			return fmt.Errorf("search %.300q arrives as %.300q", last.Search, got.Search)
		}
	}
	if c.Selector == "" && (got.Page != last.Page || got.PageSize != last.PageSize) {
		return fmt.Errorf("page %d of size %d arrives as page %d of size %d", last.Page, last.PageSize, got.Page, got.PageSize)
	}
	if c.Selector != "" {
		// the server cuts the pages after applying the selector
		all := []string{}
		for i, it := range rec.items {
			if want.Matches(labels.Set(allLabelSets[i*7])) {
				all = append(all, objID(it))
			}
		}
		p := last
		bad := p.Page < 0 || p.PageSize < 0
		var exp []string
		if !bad {
			exp = wantPage(all, p.Page, p.PageSize)
		}
		if bad || len(exp) == 0 && p.Page > 1 && p.PageSize > 0 {
			if r.Code != 400 {
				return fmt.Errorf("page %d of size %d of %d objects answers %d, want 400", p.Page, p.PageSize, len(all), r.Code)
			}
			return nil
		}
		l := listReply{}
		if err := json.Unmarshal(r.Body, &l); err != nil || r.Code != 200 {
			return fmt.Errorf("status %d, %v", r.Code, err)
		}
		if ids := l.ids(); !eqStrings(ids, exp) {
			return fmt.Errorf("selector %q with %s selects %v, want %v", c.Selector, short(last), ids, exp)
		}
	}
	return nil
}

func classifyC08(c c08Case) (bool, []string) {
	labels := []string{fmt.Sprintf("queries=%d", len(c.Queries))}
	if c.Bad != "" {
		return true, append(labels, "unsupported selector")
	}
	last := c.Queries[len(c.Queries)-1].paginate(c.Scoped)
	n := len(last.Search) + len(last.Sort)
	labels = append(labels, sizeClass("text/50", n/50))
	if n > 7000 {
		labels = append(labels, "over 10,000 encoded")
	}
	if strings.ContainsAny(last.Search+last.Sort, "?~日😀") {
		labels = append(labels, "needs escaping")
	}
	if c.Selector != "" {
		labels = append(labels, "selector")
	}
	return n > 0 && (c.Selector != "" || n > 30), labels
}

func init() {
	vk.Register(&vk.Property{
		ID:    "C08",
		Setup: func(*vk.Env) error { quietStdout(); return nil },
		Parts: []*vk.Part{vk.New(vk.Part{
			Name:  "trip",
			Rule:  "1-3 queries of any page, size, sort and search text (up to about 16,000 encoded characters) attached one after the other to list options with or without a label selector, supported or not; what is sent is parsed and evaluated by the Kubernetes library on every label set of a small space, and sent to the proxy, whose cache queries and answer are recorded; non-trivial with text that is long or next to a selector, or an unsupported selector",
			Quick: 6000, Thorough: 120000,
		}, vk.Def[c08Case]{Gen: genC08, Check: checkC08, Classify: classifyC08, Fixed: []c08Case{
			{Queries: []c08Query{{Search: "0123456789", Repeat: 900}}, Scoped: true},
			{Queries: []c08Query{{Search: "?????~~~~日本語日本語日本語"}}, Scoped: true, Selector: "app=web"},
			{Queries: []c08Query{{Search: "name=a"}, {Search: "name=b", Page: 1, Size: 2}}, Scoped: true, Selector: "app in (web,db),ver!=1"},
		}})},
		Assumptions: []string{"texts are valid Unicode; an empty query leaves the options as they are"},
	})
}

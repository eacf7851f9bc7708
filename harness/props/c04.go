package props

import (
	"fmt"
	"strings"

	"ckverif/vk"

	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
	"pgregory.net/rapid"
)

type c04Case struct {
	Again int    `json:"again,omitempty"` // what changed since it was asked before: 1 contents, 2 objects gone, 4 objects new
	Objs  []SObj `json:"objs"`
	NS    string `json:"ns"`
	Conds []Cond `json:"conds"`
	Lead  bool   `json:"lead,omitempty"`  // a separator before the first condition
	Trail bool   `json:"trail,omitempty"` // and one after the last
}

func (c c04Case) search() string {
	s := writeSearch(c.Conds)
	if c.Lead && s != "" && !strings.HasPrefix(s, ";") {
		s = ";" + s
	}
	if c.Trail && s != "" {
		s += ";"
	}
	return s
}

func genC04(t *rapid.T) c04Case {
	c := c04Case{}
	c.Objs = genSObjs(t, 0, 12, subset(t, "clusters", poolClusters, 3), subset(t, "nss", poolNS, 3), genIndexValue)
	c.Conds = genConds(t, c.Objs, pick(t, "min conds", 0, 1, 1, 1), 4, true)
	if chance(t, "empty selector", 2) {
		c.Conds = append(c.Conds, Cond{Kind: "adv", Pad: pick(t, "its pad", "", " ")})
	}
	if chance(t, "one namespace", 35) {
		c.NS = pick(t, "query ns", "default", "a", "absent")
		if len(c.Objs) > 0 && chance(t, "of an object", 70) {
			c.NS = pickFrom(t, "that object", c.Objs).NS
		}
	}
	c.Lead, c.Trail = chance(t, "lead", 8), chance(t, "trail", 8)
	c.Again = genAgain(t)
	return c
}

func checkC04(_ *vk.Env, c c04Case) error {
	search := c.search()
	query := func(s store.Store) store.QueryResult {
		return s.Query(gvrPods, store.Query{Namespace: c.NS, Paginate: page.Paginate{Search: search}})
	}
	s := fillStore(gvrPods, c.Objs, c.Again, func(s store.Store) { query(s) })
	want, werr := expected(c.Objs, c.NS, c.Conds)
	r := query(s)
	if werr != nil {
		if r.Error == nil {
			return fmt.Errorf("search %q must be an error (%v), but answers %v", search, werr, objIDs(r.Items))
		}
	} else {
		if r.Error != nil {
			if _, err := expected(c.Objs, "", c.Conds); err == nil && len(c.Objs) > 0 {
				return fmt.Errorf("search %q: %v", search, r.Error)
			}
		} else {
			if got := objIDs(r.Items); !eqStrings(sortedCopy(got), sortedCopy(ids(want))) {
				return fmt.Errorf("search %q in namespace %q finds %q, want %q", search, c.NS, sortedCopy(got), sortedCopy(ids(want)))
			}
			if r.Total != int64(len(want)) {
				return fmt.Errorf("search %q: total %d, want %d", search, r.Total, len(want))
			}
		}
	}
	// the matcher itself, object by object
	for _, o := range c.Objs {
		p := page.Paginate{Search: search}
		got, gerr := p.Match(o.index())
		w, err := holdsAll(c.Conds, o.index())
		if (err != nil) != (gerr != nil) {
			return fmt.Errorf("search %q on %v: error %v, want %v", search, o.index(), gerr, err)
		}
		if err == nil && got != w {
			return fmt.Errorf("search %q on %q: match %v, want %v", search, o.index(), got, w)
		}
	}
	return nil
}

func classifyC04(c c04Case) (bool, []string) {
	labels := []string{sizeClass("objects", len(c.Objs)), fmt.Sprintf("conditions=%d", len(c.Conds))}
	seen := map[string]bool{}
	for _, k := range c.Conds {
		l := k.Kind
		if k.Neg {
			l += " negated"
		}
		if !seen[l] {
			seen[l] = true
			labels = append(labels, l)
		}
	}
	all, _ := expected(c.Objs, c.NS, nil)
	got, err := expected(c.Objs, c.NS, c.Conds)
	nt := false
	switch {
	case err != nil:
		labels = append(labels, "error")
		nt = true
	case len(got) == len(all):
		labels = append(labels, "selects all")
	case len(got) == 0:
		labels = append(labels, "selects none")
		nt = len(all) > 0
	default:
		labels = append(labels, "selects some")
		nt = true
	}
	return nt, labels
}

func init() {
	o := func(n, v string) SObj { return SObj{Cluster: "c1", NS: "a", Name: n, K: map[string]string{"k1": v}} }
	vk.Register(&vk.Property{
		ID:    "C04",
		Setup: func(*vk.Env) error { quietStdout(); return nil },
		Parts: []*vk.Part{vk.New(vk.Part{
			Name:  "search",
			Rule:  "0-12 objects with colliding index texts (quotes, semicolons, equals signs, unicode) and a search of 0-4 conditions built from their meaning (text, key=value, key=\"value\", advanced; negated, padded, unknown keys, malformed selectors), whose needles are mostly whole or partial values of the objects; the listing and the match of every object are compared with the meaning; non-trivial when an error or a proper subset is expected",
			Quick: 30000, Thorough: 800000,
		}, vk.Def[c04Case]{Gen: genC04, Check: checkC04, Classify: classifyC04, Fixed: []c04Case{
			{Objs: []SObj{o("x", `say "hi"`), o("y", `C:\`), o("z", "<b>&")}, Conds: []Cond{{Kind: "has", Key: "k1", Val: `y "h`}}},
			{Objs: []SObj{o("x", `say "hi"`), o("y", `C:\`), o("z", "<b>&")}, Conds: []Cond{{Kind: "is", Key: "k1", Val: `C:\`}}},
			{Objs: []SObj{o("x", `say "hi"`), o("y", `C:\`), o("z", "<b>&")}, Conds: []Cond{{Kind: "text", Val: `<b>`}}},
			{Objs: []SObj{o("x", "b"), o("y", "c")}, Conds: []Cond{{Kind: "has", Key: "k1", Val: "b"}}, Trail: true},
			{Objs: []SObj{o("x", "semi;colon"), o("y", "c")}, Conds: []Cond{{Kind: "text", Val: "i;c"}, {Kind: "has", Key: "name", Val: "x"}}},
		}})},
		Assumptions: []string{"a condition's text and unquoted value do not begin or end with a double quote or a space, and plain text holds no '='"},
	})
}

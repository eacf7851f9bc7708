package props

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"ckverif/vk"

	"github.com/DaoCloud/ckube/page"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/labels"
	"pgregory.net/rapid"
)

type scopeOp struct {
	Op     string                 `json:"op"` // ns, cluster, selector
	Values []string               `json:"values,omitempty"`
	Sel    *metav1.LabelSelector  `json:"sel,omitempty"`
	X      map[string]interface{} `json:"-"`
}

type c07Case struct {
	Objs  []SObj    `json:"objs"`
	Conds []Cond    `json:"conds"`
	Ops   []scopeOp `json:"ops"`
}

var scopeClusters = []string{"c1", "c2", "default", "c1-x"}

func genC07(t *rapid.T) c07Case {
	c := c07Case{}
	c.Objs = genSObjs(t, 2, 12, append([]string{"c1/x"}, scopeClusters...), poolNS, genIndexValue)
	c.Conds = withoutScope(genConds(t, c.Objs, 0, 4, chance(t, "may fail", 15)))
	for i := intIn(t, "ops", 1, 5); i > 0; i-- {
		op := scopeOp{Op: pick(t, "scope op", "ns", "ns", "cluster", "cluster", "cluster", "selector")}
		switch op.Op {
		case "ns":
			op.Values = genScopeValues(t, poolNS)
		case "cluster":
			op.Values = genScopeValues(t, scopeClusters)
		case "selector":
			op.Sel = genSelectorValue(t, c.Objs)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func genScopeValues(t *rapid.T, pool []string) []string {
	vs := []string{}
	for i := pick(t, "scope size", 0, 1, 1, 1, 2, 2, 3); i > 0; i-- {
		vs = append(vs, pickFrom(t, "scope value", pool))
	}
	if chance(t, "many scope values", 4) {
		for i := intIn(t, "how many scope values", 8, 40); i > 0; i-- {
			vs = append(vs, fmt.Sprintf("s-%d", i))
		}
	}
	if chance(t, "odd scope value", 10) {
		vs = append(vs, pick(t, "odd", "c1/x", "a b", "", strings.Repeat("x", 64), "日本", "a,b", "a)", "-a", "kubernetes-admin@kubernetes"))
	}
	return vs
}

func genSelectorValue(t *rapid.T, objs []SObj) *metav1.LabelSelector {
	sel := &metav1.LabelSelector{}
	val := func() string {
		if len(objs) > 0 && chance(t, "of object", 70) {
			if v := pickFrom(t, "object", objs).index()[pickFrom(t, "its", searchKeys)]; isLabelValue(v) {
				return v
			}
		}
		return pick(t, "label value", "a", "b", "", "10")
	}
	keys := append([]string{"name", "is_deleted", "absent"}, searchKeys...)
	if chance(t, "match labels", 50) {
		sel.MatchLabels = map[string]string{}
		for i := intIn(t, "labels", 1, 2); i > 0; i-- {
			sel.MatchLabels[pickFrom(t, "key", keys)] = val()
		}
	}
	for i := intIn(t, "expressions", 0, 2); i > 0; i-- {
		r := metav1.LabelSelectorRequirement{Key: pickFrom(t, "key", keys)}
		switch intIn(t, "operator", 0, 3) {
		case 0:
			r.Operator, r.Values = metav1.LabelSelectorOpIn, []string{val(), pick(t, "other", "b", "")}
		case 1:
			r.Operator, r.Values = metav1.LabelSelectorOpNotIn, []string{val(), "a"}
		case 2:
			r.Operator = metav1.LabelSelectorOpExists
		case 3:
			r.Operator = metav1.LabelSelectorOpDoesNotExist
		}
		if chance(t, "invalid", 8) {
			r = pickFrom(t, "invalid requirement", []metav1.LabelSelectorRequirement{
				{Key: "k1", Operator: metav1.LabelSelectorOpIn}, {Key: "k1", Operator: "Near", Values: []string{"a"}}, {Key: "not a key", Operator: metav1.LabelSelectorOpExists},
				{Key: "k1", Operator: metav1.LabelSelectorOpIn, Values: []string{"a b"}}, {Key: "k1", Operator: metav1.LabelSelectorOpExists, Values: []string{"a"}}})
		}
		sel.MatchExpressions = append(sel.MatchExpressions, r)
	}
	return sel
}

func canonicalSelector(sel *metav1.LabelSelector) (string, error) {
	s, err := metav1.LabelSelectorAsSelector(sel)
	if err != nil {
		return "", err
	}
	reqs, _ := s.Requirements()
	out := []string{}
	for _, r := range reqs {
		vs := r.Values().List()
		sort.Strings(vs)
		op := string(r.Operator())
		if (op == "=" || op == "==" || op == "in") && len(vs) == 1 {
			op = "in"
		}
		out = append(out, fmt.Sprintf("%s %s %q", r.Key(), op, vs))
	}
	sort.Strings(out)
	return strings.Join(out, " & "), nil
}

// scopeModel is the meaning of a scoped query.
type scopeModel struct {
	plain    []Cond
	adv      []Cond // advanced conditions written by hand
	sel      labels.Selector
	ns       map[string]bool
	clusters map[string]bool
}

func setOf(vs []string) map[string]bool {
	m := map[string]bool{}
	for _, v := range vs {
		m[v] = true
	}
	return m
}

func (m scopeModel) match(o SObj) (bool, error) {
	ix := o.index()
	ok, err := holdsAll(m.plain, ix)
	if err != nil {
		return false, err
	}
	ok2, err := holdsAll(m.adv, ix)
	if err != nil {
		return false, err
	}
	return ok && ok2 && (m.sel == nil || m.sel.Matches(labels.Set(ix))) && (m.ns == nil || m.ns[o.NS]) && (m.clusters == nil || m.clusters[o.Cluster]), nil
}

func validScope(op scopeOp) bool {
	if len(op.Values) == 0 {
		return false
	}
	for _, v := range op.Values {
		if op.Op == "cluster" && v == "" {
			return false
		}
		if _, err := labels.NewRequirement("k", "in", []string{v}); err != nil {
			return false
		}
	}
	return true
}

func checkC07(_ *vk.Env, c c07Case) error {
	m := scopeModel{}
	malformed := false
	for _, k := range c.Conds {
		if k.Kind == "adv" {
			m.adv = append(m.adv, k)
			if _, err := k.holds(map[string]string{}); err != nil {
				malformed = true
			}
		} else {
			m.plain = append(m.plain, k)
		}
	}
	p := page.Paginate{Page: 2, PageSize: 7, Sort: "k1 desc", Search: writeSearch(c.Conds)}
	for i, op := range c.Ops {
		before := p
		var err error
		what := fmt.Sprintf("step %d (%s %q)", i+1, op.Op, op.Values)
		switch op.Op {
		case "ns":
			err = p.Namespaces(op.Values)
		case "cluster":
			err = p.Clusters(op.Values)
		case "selector":
			what = fmt.Sprintf("step %d (selector %s)", i+1, short(op.Sel))
			given := op.Sel.DeepCopy()
			err = p.SetSearchSelector(op.Sel)
			if !reflect.DeepEqual(given, op.Sel) {
				return fmt.Errorf("%s: the selector that was given is now %s", what, short(op.Sel))
			}
		}
		if op.Op == "selector" {
			want, serr := canonicalSelector(op.Sel)
			if serr != nil {
				if err == nil {
					return fmt.Errorf("%s: an invalid selector is accepted, search is %q", what, p.Search)
				}
			} else {
				if err != nil {
					return fmt.Errorf("%s: %v", what, err)
				}
				malformed = false
				m.adv, m.ns, m.clusters = nil, nil, nil
				m.sel, _ = metav1.LabelSelectorAsSelector(op.Sel)
				back, berr := p.SearchSelector()
				if berr != nil {
					return fmt.Errorf("%s: reading the selector back: %v", what, berr)
				}
				if got, gerr := canonicalSelector(back); gerr != nil || got != want {
					return fmt.Errorf("%s: the selector read back is %s (%v), want %s", what, got, gerr, want)
				}
			}
		} else {
			valid := validScope(op)
			switch {
			case !valid && err == nil:
				return fmt.Errorf("%s: an invalid restriction is accepted, search is %q", what, p.Search)
			case valid && !malformed && err != nil:
				return fmt.Errorf("%s on %q: %v", what, before.Search, err)
			case err == nil && op.Op == "ns":
				m.ns = setOf(op.Values)
			case err == nil:
				m.clusters = setOf(op.Values)
				got := p.GetClusters()
				if !malformed && short(setOf(got)) != short(m.clusters) {
					return fmt.Errorf("%s: the clusters read back are %q", what, got)
				}
			}
		}
		if err != nil && p != before {
			return fmt.Errorf("%s failed (%v) but changed the query from %+v to %+v", what, err, before, p)
		}
		if p.Page != 2 || p.PageSize != 7 || p.Sort != "k1 desc" {
			return fmt.Errorf("%s changed page, size or sort: %+v", what, p)
		}
		for _, o := range c.Objs {
			want, werr := m.match(o)
			got, gerr := p.Match(o.index())
			if (werr != nil) != (gerr != nil) {
				return fmt.Errorf("%s: search %q on %q: error %v, want %v", what, p.Search, o.index(), gerr, werr)
			}
			if werr == nil && got != want {
				return fmt.Errorf("%s: %q became %q, which matches %q: %v, want %v", what, before.Search, p.Search, o.index(), got, want)
			}
		}
	}
	return nil
}

func classifyC07(c c07Case) (bool, []string) {
	labels := []string{fmt.Sprintf("ops=%d", len(c.Ops)), fmt.Sprintf("conditions=%d", len(c.Conds))}
	adv := 0
	for _, k := range c.Conds {
		if k.Kind == "adv" {
			adv++
		}
	}
	if adv > 1 {
		labels = append(labels, "several advanced conditions")
	}
	n := map[string]int{}
	for _, op := range c.Ops {
		n[op.Op]++
		if op.Op != "selector" && !validScope(op) {
			labels = append(labels, "invalid scope")
		}
	}
	for _, k := range []string{"ns", "cluster", "selector"} {
		if n[k] > 1 {
			labels = append(labels, k+" twice")
		}
		if n[k] > 0 {
			labels = append(labels, k)
		}
	}
	return len(c.Conds) > 0 || len(c.Ops) > 1, labels
}

// ---- splitting gives the conditions back ----------------------------------------

type partsCase struct {
	Parts []string `json:"parts"`
}

func genParts(t *rapid.T) partsCase {
	c := partsCase{}
	for i := intIn(t, "parts", 1, 5); i > 0; i-- {
		s := ""
		for j := intIn(t, "pieces", 1, 3); j > 0; j-- {
			s += pick(t, "piece", ";", ";;", ";", "a", "b=c", " ", "k1=\"x;y\"", advPrefix+"k1 in (a, b)", "日", "!", "\n", genText(t))
		}
		if strings.TrimSpace(s) == "" {
			s = "x"
		}
		c.Parts = append(c.Parts, s)
	}
	return c
}

func checkParts(_ *vk.Env, c partsCase) error {
	p := page.Paginate{}
	p.SetSearchWithParts(append([]string{}, c.Parts...))
	got := p.SearchParts()
	if len(got) != len(c.Parts) {
		return fmt.Errorf("%q was written as %q and split into %q", c.Parts, p.Search, got)
	}
	for i := range got {
		if strings.TrimSpace(got[i]) != strings.TrimSpace(c.Parts[i]) {
			return fmt.Errorf("%q was written as %q and split into %q", c.Parts, p.Search, got)
		}
	}
	return nil
}

func init() {
	o := func(cl, ns, n string) SObj {
		return SObj{Cluster: cl, NS: ns, Name: n, K: map[string]string{"k1": "a;b"}}
	}
	objs := []SObj{o("c1", "a", "x"), o("c2", "a", "x"), o("c1", "b", "x"), o("c2", "b", "y")}
	adv := func(s string) Cond { return Cond{Kind: "adv", Val: s} }
	vk.Register(&vk.Property{
		ID:    "C07",
		Setup: func(*vk.Env) error { quietStdout(); return nil },
		Parts: []*vk.Part{vk.New(vk.Part{
			Name:  "scope",
			Rule:  "a query of 0-4 conditions (several advanced ones, malformed ones, literal semicolons) scoped by 1-5 calls setting namespaces, clusters or the selector, valid, empty or invalid; after each call every object is matched and compared with the meaning, and clusters and selector are read back; non-trivial with conditions or several calls",
			Quick: 20000, Thorough: 500000,
		}, vk.Def[c07Case]{Gen: genC07, Check: checkC07, Classify: classifyC07, Fixed: []c07Case{
			{Objs: objs, Conds: []Cond{adv("name=x"), adv("k1")}, Ops: []scopeOp{{Op: "cluster", Values: []string{"c1"}}}},
			{Objs: objs, Conds: []Cond{{Kind: "text", Val: ";b"}}, Ops: []scopeOp{{Op: "cluster", Values: []string{"c1"}}}},
			{Objs: objs, Ops: []scopeOp{{Op: "selector", Sel: &metav1.LabelSelector{}}}},
			{Objs: objs, Conds: []Cond{{Kind: "adv", Val: " name=x", Pad: " "}}, Ops: []scopeOp{{Op: "ns", Values: []string{"a"}}, {Op: "cluster", Values: []string{"c2"}}, {Op: "ns", Values: []string{"b"}}}},
		}}), vk.New(vk.Part{
			Name:  "split",
			Rule:  "1-5 condition texts made of separators, spaces, quotes, prefixes and arbitrary text, written into a search and split again; non-trivial when a text holds a separator",
			Quick: 40000, Thorough: 600000,
		}, vk.Def[partsCase]{Gen: genParts, Check: checkParts, Classify: func(c partsCase) (bool, []string) {
			j := strings.Join(c.Parts, "")
			return strings.Contains(j, ";") && len(c.Parts) > 1, []string{fmt.Sprintf("parts=%d", len(c.Parts)), fmt.Sprintf("has separator=%v", strings.Contains(j, ";"))}
		}})},
		Assumptions: []string{"advanced conditions written by hand do not restrict cluster or namespace themselves", "conditions are given back up to surrounding white space, which does not count"},
	})
}

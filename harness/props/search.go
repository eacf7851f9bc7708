package props

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/DaoCloud/ckube/store"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/labels"
	"pgregory.net/rapid"
)

// ---- objects with known index values, for searching, sorting and paging ---------

var searchKeys = []string{"k1", "k2", "k3"}

func searchIndex() map[string]string {
	ix := baseIndex()
	for _, k := range searchKeys {
		ix[k] = "{.metadata.annotations." + k + "}"
	}
	return ix
}

// SObj is an object whose indexes k1..k3 hold the given texts.
type SObj struct {
	Cluster string            `json:"c"`
	NS      string            `json:"ns"`
	Name    string            `json:"n"`
	K       map[string]string `json:"k,omitempty"`
	Labels  map[string]string `json:"l,omitempty"`
	Deleted bool              `json:"d,omitempty"`
}

func (o SObj) id() string { return o.Cluster + "|" + o.NS + "|" + o.Name }

// index is what its indexes are by their definition.
func (o SObj) index() map[string]string {
	m := map[string]string{"cluster": o.Cluster, "namespace": o.NS, "name": o.Name, "is_deleted": fmt.Sprint(o.Deleted)}
	for _, k := range searchKeys {
		m[k] = o.K[k]
	}
	return m
}

func (o SObj) build() *corev1.Pod {
	p := &corev1.Pod{ObjectMeta: metav1.ObjectMeta{Namespace: o.NS, Name: o.Name, Labels: copyMap(o.Labels), Annotations: copyMap(o.K)}}
	if o.Deleted {
		ts := deletedAt(o.Name)
		p.DeletionTimestamp = &ts
	}
	return p
}

// deletedAt is in the past or, as for a pod that is given time to stop, to come.
func deletedAt(name string) metav1.Time {
	return metav1.Unix(1700000000+int64(len(name)%2)*2000000000, 0)
}

func objID(i interface{}) string {
	m, ok := i.(metav1.Object)
	if !ok {
		return fmt.Sprintf("not an object: %T", i)
	}
	return m.GetAnnotations()[ClusterAnno] + "|" + m.GetNamespace() + "|" + m.GetName()
}

func objIDs(items []interface{}) []string {
	out := make([]string, 0, len(items))
	for _, i := range items {
		out = append(out, objID(i))
	}
	return out
}

// fillStore is a store of the objects.
func fillStore(g GVR, objs []SObj, again int, ask func(store.Store)) store.Store {
	s := newStore(map[GVR]map[string]string{g: searchIndex()})
	fill(s, g, objs, func(o SObj) interface{} { return o.build() }, again, func() { ask(s) })
	return s
}

func genAgain(t *rapid.T) int {
	if chance(t, "again", 30) {
		return intIn(t, "changes", 0, 7)
	}
	return 0
}

// fill puts objects into a store. With again, the store first has earlier objects when it is asked: some with other
// contents (1), some that will be gone (2), and some are still missing (4).
func fill(s store.Store, g GVR, objs []SObj, build func(SObj) interface{}, again int, ask func()) {
	had, was, gone := map[string]bool{}, []SObj{}, []SObj{}
	for i, o := range objs {
		if again&4 != 0 && i%3 == 1 {
			continue
		}
		if again&1 != 0 && i%3 == 0 {
			from := objs[(i+1)%len(objs)]
			o.K, o.Labels, o.Deleted = from.K, from.Labels, !o.Deleted
		}
		had[o.id()] = true
		was = append(was, o)
		if o.Name += "-gone"; again&2 != 0 && i%4 == 0 && !containsID(objs, o.id()) {
			gone = append(gone, o)
		}
	}
	if again != 0 {
		for _, o := range append(was, gone...) {
			_ = s.OnResourceAdded(g, o.Cluster, build(o))
		}
		ask()
		for _, o := range gone {
			_ = s.OnResourceDeleted(g, o.Cluster, build(o))
		}
	}
	for i, o := range objs {
		switch {
		case again == 0 || !had[o.id()]:
			_ = s.OnResourceAdded(g, o.Cluster, build(o))
		case again&1 != 0 && i%3 == 0:
			_ = s.OnResourceModified(g, o.Cluster, build(o))
		}
	}
}

func containsID(objs []SObj, id string) bool {
	for _, o := range objs {
		if o.id() == id {
			return true
		}
	}
	return false
}

var valuePool = []string{"", "a", "b", "ab", "abc", "bc", "A", "x y", "x", `say "hi"`, `back\slash`, "<b>&", "日本", "日", "semi;colon", "a=b", "!no", "tab\there", "line\nbreak", "C:\\", `"`, "10", "9", "true", "web-1", "web-10", "v1.2", "{\"a\":1}", "__ckube_as__:x", "100%", "é", "\u2028", "'a'", "it's", "`b`", "a*", "a.c", "^a$", "a|b", "[ab]", "(x)", "!!no", "no!", "/a/", "a,b", "a+b", "A b"}

func genIndexValue(t *rapid.T) string {
	if chance(t, "pooled value", 85) {
		return pickFrom(t, "value", valuePool)
	}
	return rapid.StringN(0, 8, -1).Draw(t, "value text")
}

var labelPool = map[string][]string{
	"app": {"web", "db", "", "web-1"}, "tier": {"front", "back"}, "a.b/c": {"x", "1"}, "ver": {"1", "2", "10"},
	"cluster": {"c1", "c2"}, "name": {"web", "a"}, "namespace": {"a", "b"},
}

// indexLabelKeys are labels that are called like indexes.
var indexLabelKeys = []string{"cluster", "name", "namespace"}
var labelKeys = []string{"app", "tier", "a.b/c", "ver"}

func genLabels(t *rapid.T) map[string]string {
	m := map[string]string{}
	for _, k := range labelKeys {
		if chance(t, "label "+k, 50) {
			m[k] = pickFrom(t, k, labelPool[k])
		}
	}
	for _, k := range indexLabelKeys {
		if chance(t, "label "+k, 8) {
			m[k] = pickFrom(t, k, labelPool[k])
		}
	}
	if len(m) == 0 {
		return nil
	}
	return m
}

// genSObjs makes distinct objects whose values collide often.
func genSObjs(t *rapid.T, min, max int, clusters, nss []string, value func(*rapid.T) string) []SObj {
	n := intIn(t, "objects", min, max)
	if n < 3 && max > 3 && chance(t, "more", 80) {
		n = intIn(t, "more objects", 3, max)
	}
	pool := []string{}
	for i := intIn(t, "values", 2, 6); i > 0; i-- {
		pool = append(pool, value(t))
	}
	seen := map[string]bool{}
	objs := []SObj{}
	for i := 0; i < n; i++ {
		o := SObj{Cluster: pick(t, "cluster", clusters...), NS: pick(t, "ns", nss...), Name: pick(t, "name", "web", "web-1", "db", "a", "b", fmt.Sprintf("o-%d", i)), K: map[string]string{}, Labels: genLabels(t), Deleted: chance(t, "deleted", 15)}
		if seen[o.id()] {
			o.Name = fmt.Sprintf("u-%d", i)
		}
		seen[o.id()] = true
		for _, k := range searchKeys {
			if chance(t, "has "+k, 85) {
				o.K[k] = pickFrom(t, k, pool)
			}
		}
		objs = append(objs, o)
	}
	return objs
}

// manyObjs are n further objects, so that more match than fit on a page or in a buffer.
func manyObjs(n int) []SObj {
	objs := []SObj{}
	for i := 0; i < n; i++ {
		objs = append(objs, SObj{Cluster: []string{"c1", "c2"}[i%2], NS: []string{"a", "default", "a"}[i%3], Name: fmt.Sprintf("many-%04d", (i*7919)%n),
			K: map[string]string{"k1": fmt.Sprint(i % 10), "k2": fmt.Sprint(i * 31 % 97), "k3": "3"}, Labels: map[string]string{"app": []string{"web", "db"}[i%5/4], "ver": fmt.Sprint(i % 3)}})
	}
	return objs
}

// genMany is mostly 0.
func genMany(t *rapid.T, percent, max int) int {
	if !chance(t, "many", percent) {
		return 0
	}
	return intIn(t, "how many", 40, pick(t, "at most", 130, 300, max))
}

// ---- searches -----------------------------------------------------------------

const advPrefix = "__ckube_as__:"

// Cond is one condition of a search, by its meaning.
type Cond struct {
	Kind string `json:"kind"` // text, has (key=value), is (key="value"), adv, blank
	Key  string `json:"key,omitempty"`
	Val  string `json:"val,omitempty"`
	Neg  bool   `json:"neg,omitempty"`
	Pad  string `json:"pad,omitempty"`
}

func (c Cond) text() string {
	neg := ""
	if c.Neg {
		neg = "!"
	}
	switch c.Kind {
	case "text":
		return c.Pad + neg + c.Val + c.Pad
	case "has":
		return c.Pad + c.Key + "=" + neg + c.Val + c.Pad
	case "is":
		return c.Pad + c.Key + "=" + neg + `"` + c.Val + `"` + c.Pad
	case "adv":
		return c.Pad + advPrefix + c.Val + c.Pad
	}
	return " "
}

// holds says whether the condition is true of an object, or is an error.
func (c Cond) holds(index map[string]string) (bool, error) {
	switch c.Kind {
	case "blank":
		return true, nil
	case "text":
		found := false
		for _, v := range index {
			found = found || strings.Contains(v, c.Val)
		}
		return found != c.Neg, nil
	case "has", "is":
		v, ok := index[c.Key]
		if !ok {
			return false, fmt.Errorf("unknown key %q", c.Key)
		}
		if c.Kind == "is" {
			return (v == c.Val) != c.Neg, nil
		}
		return strings.Contains(v, c.Val) != c.Neg, nil
	}
	if c.Val == "" {
		return false, errors.New("no selector")
	}
	reqs, err := labels.ParseToRequirements(c.Val)
	if err != nil {
		return false, err
	}
	for _, r := range reqs {
		if r.Operator() == "gt" || r.Operator() == "lt" {
			return false, fmt.Errorf("unsupported operator %s", r.Operator())
		}
		if !r.Matches(labels.Set(index)) {
			return false, nil
		}
	}
	return true, nil
}

// writeSearch joins conditions by the documented syntax.
func writeSearch(conds []Cond) string {
	parts := []string{}
	for _, c := range conds {
		parts = append(parts, strings.ReplaceAll(c.text(), ";", ";;"))
	}
	return strings.Join(parts, ";")
}

// clip takes a piece of s, on rune boundaries.
func clip(t *rapid.T, s string) string {
	r := []rune(s)
	if len(r) == 0 {
		return s
	}
	i := intIn(t, "from", 0, len(r)-1)
	j := intIn(t, "to", i+1, len(r))
	return string(r[i:j])
}

// genNeedle draws a text that is often, but not always, found in the objects.
func genNeedle(t *rapid.T, objs []SObj, key string) string {
	if len(objs) > 0 && chance(t, "from object", 75) {
		o := objs[intIn(t, "object", 0, len(objs)-1)]
		v := o.K[pickFrom(t, "its key", searchKeys)]
		if key != "" && chance(t, "of the key", 85) {
			v = o.index()[key]
		} else if v == "" || chance(t, "any value", 30) {
			v = pickFrom(t, "its value", sortedVals(o.index()))
		}
		switch intIn(t, "how", 0, 4) {
		case 0, 1:
			return v
		case 2, 3:
			return clip(t, v)
		}
		return v + pick(t, "more", "x", "-", "1", "\"x", "\\x")
	}
	return genIndexValue(t)
}

func sortedVals(m map[string]string) []string {
	out := []string{}
	for _, v := range m {
		out = append(out, v)
	}
	sort.Strings(out)
	return out
}

// plainNeedle says whether a text means itself when written without quotes.
func plainNeedle(v string) bool {
	return strings.TrimSpace(v) == v && !strings.HasPrefix(v, "!") && !strings.HasPrefix(v, `"`) && !strings.HasSuffix(v, `"`)
}

func genSelectorText(t *rapid.T, objs []SObj) string {
	keys := append([]string{"cluster", "namespace", "name", "is_deleted", "absent"}, searchKeys...)
	vals := []string{"a", "b", "c1", "c2", "default", "web", "web-1", "true", "false", "10", ""}
	val := func() string {
		if chance(t, "object's value", 60) && len(objs) > 0 {
			v := pickFrom(t, "v", sortedVals(pickFrom(t, "o", objs).index()))
			if isLabelValue(v) {
				return v
			}
		}
		return pickFrom(t, "sel val", vals)
	}
	list := func() string {
		l := []string{}
		for i := intIn(t, "set", 1, 3); i > 0; i-- {
			l = append(l, val())
		}
		return "(" + strings.Join(l, pick(t, "comma", ",", ", ")) + ")"
	}
	reqs := []string{}
	for i := intIn(t, "reqs", 1, 3); i > 0; i-- {
		k := pickFrom(t, "sel key", keys)
		switch intIn(t, "op", 0, 7) {
		case 0, 1:
			reqs = append(reqs, k+pick(t, "eq", "=", "==", " = ")+val())
		case 2:
			reqs = append(reqs, k+"!="+val())
		case 3, 4:
			reqs = append(reqs, k+" in "+list())
		case 5:
			reqs = append(reqs, k+" notin "+list())
		case 6:
			reqs = append(reqs, k)
		case 7:
			reqs = append(reqs, "!"+k)
		}
	}
	sel := strings.Join(reqs, pick(t, "and", ",", ", "))
	if _, err := labels.Parse(sel); err != nil {
		return "name" // two empty values are not a set
	}
	return sel
}

func isLabelValue(v string) bool {
	_, err := labels.Parse("k in (" + v + ")")
	return err == nil && !strings.ContainsAny(v, "(), !=<>\t\n") && v != "in" && v != "notin"
}

var badSelectors = []string{"k1 in", "k1 in (", "k1=a=b", "=x", "k1 in (a,b", "k1>5", "k1 < 3", "k1 in ()b", "(k1)", "k1=%", "k 1=a", "k1 notin", "k1,,k2", "日本=a", "k1 = a b"}

func genCond(t *rapid.T, objs []SObj, mayFail bool) Cond {
	c := Cond{Pad: pick(t, "pad", "", "", "", " ", "\t"), Neg: chance(t, "neg", 30)}
	keys := append([]string{"cluster", "namespace", "name", "is_deleted"}, searchKeys...)
	if mayFail && chance(t, "odd key", 20) {
		keys = append(keys, "absent", "K1")
	}
	switch intIn(t, "cond", 0, 9) {
	case 0, 1, 2:
		c.Kind, c.Val = "text", genNeedle(t, objs, "")
		if !plainNeedle(c.Val) || strings.Contains(c.Val, "=") || strings.HasPrefix(c.Val, advPrefix) || c.Val == "" {
			c.Val = "a"
		}
	case 3, 4:
		c.Kind, c.Key = "has", pickFrom(t, "key", keys)
		c.Val = genNeedle(t, objs, c.Key)
		if !plainNeedle(c.Val) && !(c.Neg && strings.HasPrefix(c.Val, "!") && plainNeedle("a"+c.Val)) { // one is the negation
			c.Val = "b"
		}
	case 5, 6:
		c.Kind, c.Key = "is", pickFrom(t, "key", keys)
		c.Val = genNeedle(t, objs, c.Key)
	case 7, 8:
		c.Kind, c.Val, c.Neg = "adv", genSelectorText(t, objs), false
		if mayFail && chance(t, "malformed", 8) {
			c.Val = pickFrom(t, "bad", badSelectors)
		}
	case 9:
		c = Cond{Kind: "blank"}
	}
	return c
}

func genConds(t *rapid.T, objs []SObj, min, max int, mayFail bool) []Cond {
	conds := []Cond{}
	n := intIn(t, "conds", min, max)
	if max > 1 && chance(t, "many conditions", 4) {
		n = intIn(t, "how many conditions", max, max+9)
	}
	for i := n; i > 0; i-- {
		c := genCond(t, objs, mayFail)
		if len(conds) > 0 && strings.HasPrefix(c.text(), ";") {
			c.Pad = " " // ";;" is a literal semicolon: a condition that starts with one needs a space before it
		}
		conds = append(conds, c)
	}
	return conds
}

// expected is the listing a search describes; an error when any of its conditions is one.
func expected(objs []SObj, ns string, conds []Cond) ([]SObj, error) {
	out := []SObj{}
	for _, o := range objs {
		if ns != "" && o.NS != ns {
			continue
		}
		ok, err := holdsAll(conds, o.index())
		if err != nil {
			return nil, err
		}
		if ok {
			out = append(out, o)
		}
	}
	return out, nil
}

func holdsAll(conds []Cond, ix map[string]string) (bool, error) {
	all := true
	for _, c := range conds {
		ok, err := c.holds(ix)
		if err != nil {
			return false, err
		}
		all = all && ok
	}
	return all, nil
}

func ids(objs []SObj) []string {
	out := []string{}
	for _, o := range objs {
		out = append(out, o.id())
	}
	return out
}

// withoutScope drops the advanced conditions that mention cluster or namespace: those of the
// form the scoping functions write are replaced by scoping.
func withoutScope(conds []Cond) []Cond {
	out := []Cond{}
	for _, c := range conds {
		if c.Kind == "adv" && (strings.Contains(c.Val, "cluster") || strings.Contains(c.Val, "namespace")) {
			continue
		}
		if len(out) == 0 && strings.HasPrefix(c.text(), ";") {
			c.Pad = " "
		}
		out = append(out, c)
	}
	return out
}

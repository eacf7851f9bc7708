package props

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	"ckverif/vk"

	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
	"pgregory.net/rapid"
)

type sortKey struct {
	Key  string `json:"key"`
	Type string `json:"type,omitempty"` // "", str, int
	Dir  string `json:"dir,omitempty"`  // "", asc, desc
}

type c05Case struct {
	Again int       `json:"again,omitempty"` // what changed since it was asked before: 1 contents, 2 objects gone, 4 objects new
	Objs  []SObj    `json:"objs"`
	NS    string    `json:"ns"`
	Keys  []sortKey `json:"keys"`
	Style string    `json:"style"`         // how the keys are joined
	Bad   string    `json:"bad,omitempty"` // a malformed sort to use instead
	// a search, so that only part of the objects are sorted
	Conds []Cond `json:"conds,omitempty"`
}

func (k sortKey) text(sep string) string {
	s := k.Key
	if k.Type != "" {
		s += "!" + k.Type
	}
	if k.Dir != "" {
		s += sep + k.Dir
	}
	return s
}

func (c c05Case) sort() string {
	if c.Bad != "" {
		return c.Bad
	}
	parts := []string{}
	for _, k := range c.Keys {
		parts = append(parts, k.text(" "))
	}
	switch c.Style {
	case ", ":
		return strings.Join(parts, ", ")
	case " , ":
		return " " + strings.Join(parts, " , ") + " "
	}
	return strings.Join(parts, ",")
}

func genSortValue(t *rapid.T) string {
	if chance(t, "text", 35) {
		return genIndexValue(t)
	}
	if chance(t, "large", 25) { // close to each other, and beyond what fewer bits can tell apart
		n := pick(t, "around", int64(16777216), 2147483648, 4294967296, 1700000000, 1700000000123, 999999999999990, -16777216, -4294967296)
		return fmt.Sprint(n + int64(intIn(t, "offset", -2, 2)))
	}
	return pick(t, "number", "1", "2", "10", "9", "-3", "-10", "0", "-0", "0.5", "007", "7", "+5", "1e3", "1000", "100", "1.0", "3.25", "-0.5", "999999", "1234567", "0.1", "0.10000001", "-0.10000002", "1e300", "-1e300", "1e-300", "inf", "-Infinity", "nan", "1e400")
}

func genSortKeys(t *rapid.T, min, max int) []sortKey {
	ks := []sortKey{}
	for i := intIn(t, "sort keys", min, max); i > 0; i-- {
		ks = append(ks, sortKey{
			Key:  pick(t, "sort key", "k1", "k2", "k3", "k1", "k2", "name", "namespace", "cluster", "is_deleted"),
			Type: pick(t, "type", "", "", "str", "int", "int"), Dir: pick(t, "dir", "", "asc", "desc", "desc"),
		})
	}
	return ks
}

var badSorts = []string{"k1 up", "k1 desc asc", "k1!float", "k1!int!str", "absent", "k1,absent", "k1!", "!int", "k1 desc, k2 down", "k1 !int", "k2, k1 asc desc", "K1", "desc k1", "k1;k2", "k1 and k2 desc"}

func genC05(t *rapid.T) c05Case {
	c := c05Case{Style: pick(t, "style", ",", ", ", " , ")}
	numeric := chance(t, "numbers only", 50)
	c.Objs = genSObjs(t, 0, 30, subset(t, "clusters", poolClusters, 3), subset(t, "nss", poolNS, 3), func(t *rapid.T) string {
		v := genSortValue(t)
		if numeric {
			if _, ok := number(v); !ok {
				return "5"
			}
		}
		return v
	})
	if numeric {
		for i := range c.Objs {
			for _, k := range searchKeys {
				if c.Objs[i].K[k] == "" {
					c.Objs[i].K[k] = "5"
				}
			}
		}
	}
	c.Keys = genSortKeys(t, 0, 3)
	if chance(t, "many keys", 15) { // only the last of which can tell the objects apart
		c.Keys = append(genSortKeys(t, 2, 6), genSortKeys(t, 1, 2)...)
		for i := range c.Keys[:len(c.Keys)-2] {
			c.Keys[i].Key = pick(t, "early key", "is_deleted", "k3")
			if c.Keys[i].Type = ""; c.Keys[i].Key == "k3" && numeric {
				c.Keys[i].Type = "int"
			}
		}
		for i := range c.Objs {
			c.Objs[i].K["k3"] = pick(t, "early", "5", "5", "5", "5", "5.0")
			c.Objs[i].Deleted = false
		}
	}
	if chance(t, "bad", 12) {
		c.Bad = pickFrom(t, "bad sort", badSorts)
	}
	if chance(t, "one namespace", 20) {
		c.NS = "default"
	}
	if chance(t, "search", 30) {
		c.Conds = genConds(t, c.Objs, 1, 1, false)
	}
	c.Again = genAgain(t)
	return c
}

// number is the value of a decimal number, exactly.
func number(s string) (*big.Rat, bool) {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil || math.IsNaN(f) {
		return nil, false
	}
	if math.IsInf(f, 0) {
		s = strings.Replace(fmt.Sprintf("%+g", f), "Inf", "1e999", 1)
	}
	return new(big.Rat).SetString(s)
}

// compareKey compares two objects by one key; an error when the values are not numbers but have to be.
func compareKey(k sortKey, a, b map[string]string) (int, error) {
	va, vb := a[k.Key], b[k.Key]
	r := strings.Compare(va, vb)
	if k.Type == "int" {
		na, oka := number(va)
		nb, okb := number(vb)
		if !oka || !okb {
			return 0, fmt.Errorf("%q or %q is not a number", va, vb)
		}
		r = na.Cmp(nb)
	}
	if k.Dir == "desc" {
		r = -r
	}
	return r, nil
}

func compareKeys(ks []sortKey, a, b map[string]string) (int, error) {
	for _, k := range ks {
		r, err := compareKey(k, a, b)
		if r != 0 || err != nil {
			return r, err
		}
	}
	return 0, nil
}

// mustFail says whether the order of some pair depends on values that are not numbers.
func mustFail(ks []sortKey, objs []SObj) error {
	for i := range objs {
		for j := 0; j < i; j++ {
			if _, err := compareKeys(ks, objs[i].index(), objs[j].index()); err != nil {
				return err
			}
		}
	}
	return nil
}

var defaultSort = []sortKey{{Key: "cluster"}, {Key: "namespace"}, {Key: "name"}}

func checkC05(_ *vk.Env, c c05Case) error {
	sel, err := expected(c.Objs, c.NS, c.Conds)
	if err != nil {
		return fmt.Errorf("generator: %v", err)
	}
	p := page.Paginate{Sort: c.sort(), Search: writeSearch(c.Conds)}
	q := store.Query{Namespace: c.NS, Paginate: p}
	s := fillStore(gvrPods, c.Objs, c.Again, func(s store.Store) { s.Query(gvrPods, q) })
	r := s.Query(gvrPods, q)
	if c.Bad != "" {
		if len(sel) > 0 && r.Error == nil {
			return fmt.Errorf("sort %q of %d objects is no error, but answers %v", p.Sort, len(sel), objIDs(r.Items))
		}
		return nil
	}
	keys := c.Keys
	if p.Sort == "" {
		keys = defaultSort
	}
	if err := mustFail(keys, sel); err != nil {
		if r.Error == nil {
			return fmt.Errorf("sort %q: %v, but the answer is %v", p.Sort, err, objIDs(r.Items))
		}
		return nil
	}
	if r.Error != nil {
		return fmt.Errorf("sort %q of %d objects: %v", p.Sort, len(sel), r.Error)
	}
	got := objIDs(r.Items)
	if !eqStrings(sortedCopy(got), sortedCopy(ids(sel))) {
		return fmt.Errorf("sort %q: %v is no permutation of %v", p.Sort, got, ids(sel))
	}
	byID := map[string]SObj{}
	for _, o := range c.Objs {
		byID[o.id()] = o
	}
	for i := 1; i < len(got); i++ {
		a, b := byID[got[i-1]].index(), byID[got[i]].index()
		if r, _ := compareKeys(keys, a, b); r > 0 {
			return fmt.Errorf("sort %q: %v comes before %v, in %v", p.Sort, a, b, got)
		}
	}
	for i := 0; i < 4; i++ {
		if again := objIDs(s.Query(gvrPods, q).Items); !eqStrings(again, got) {
			return fmt.Errorf("sort %q orders an unchanged cache as %v, and then as %v", p.Sort, got, again)
		}
	}
	return nil
}

func classifyC05(c c05Case) (bool, []string) {
	labels := []string{sizeClass("objects", len(c.Objs)), fmt.Sprintf("keys=%d", len(c.Keys))}
	if c.Bad != "" {
		return len(c.Objs) > 0, append(labels, "malformed")
	}
	keys := c.Keys
	if len(keys) == 0 {
		keys = defaultSort
	}
	sel, _ := expected(c.Objs, c.NS, c.Conds)
	if mustFail(keys, sel) != nil {
		return true, append(labels, "not a number")
	}
	ties, numeric := false, false
	for i := range sel {
		for j := 0; j < i; j++ {
			if r, _ := compareKeys(keys, sel[i].index(), sel[j].index()); r == 0 {
				ties = true
			}
		}
	}
	for _, k := range keys {
		numeric = numeric || k.Type == "int"
	}
	if ties {
		labels = append(labels, "ties")
	}
	if numeric && len(sel) > 1 {
		labels = append(labels, "numeric")
	}
	return len(sel) > 2, labels
}

func init() {
	o := func(n, v, w string) SObj {
		return SObj{Cluster: "c1", NS: "a", Name: n, K: map[string]string{"k1": v, "k2": w}}
	}
	vk.Register(&vk.Property{
		ID:    "C05",
		Setup: func(*vk.Env) error { quietStdout(); return nil },
		Parts: []*vk.Part{vk.New(vk.Part{
			Name:  "sort",
			Rule:  "0-30 objects with colliding numbers and texts, sorted by 0-8 keys (text or number, ascending or descending, with or without a search and a namespace) or by a malformed sort; the answer must be a permutation with every neighbouring pair in order and the same five times, or an error exactly when a pair's order depends on a value that is not a number; non-trivial with three or more objects to order or an error",
			Quick: 20000, Thorough: 500000,
		}, vk.Def[c05Case]{Gen: genC05, Check: checkC05, Classify: classifyC05, Fixed: []c05Case{
			{Objs: []SObj{o("x", "2", ""), o("y", "10", ""), o("z", "9", "")}, Keys: []sortKey{{Key: "k1", Type: "int", Dir: "desc"}}, Style: ","},
			{Objs: []SObj{o("x", "2", ""), o("y", "1", "")}, Bad: "k1 desc asc"},
			{Objs: []SObj{o("x", "1", "b"), o("y", "1", "a"), o("z", "1.0", "c")}, Keys: []sortKey{{Key: "k1", Type: "int", Dir: "asc"}, {Key: "k2", Dir: "desc"}}, Style: ","},
		}})},
		Assumptions: []string{"numbers are decimal and differ in their first 15 digits; no hexadecimal texts; infinity is a number, NaN is not", "a malformed sort of nothing may be an empty answer"},
	})
}

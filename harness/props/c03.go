package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"strings"
	"text/template"

	"ckverif/vk"

	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/watcher"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/client-go/util/jsonpath"
	"pgregory.net/rapid"
)

// C03: every index is one expression evaluated alone.

type c03Doc struct {
	Doc   map[string]interface{} `json:"doc"`
	Typed bool                   `json:"typed,omitempty"`
	Event string                 `json:"event"`
}

type c03Case struct {
	Cluster string            `json:"cluster"`
	Index   map[string]string `json:"index"`
	Docs    []c03Doc          `json:"docs"`
}

var c03Exprs = []string{
	// JSONPath
	"{.metadata.name}", "{.metadata.namespace}", "{.metadata.uid}", "{.metadata.labels.app}", "{.metadata.labels}",
	"{.metadata.labels['a\\.b/c']}", "{.metadata.annotations}", "{.metadata.annotations.note}", "{.spec}", "{.spec.nodeName}",
	"{.spec.replicas}", "{.spec.list[0].name}", "{.spec.list[*].name}", "{.spec.list[-1].name}", "{.spec.list[5].name}", "{.spec.list[0:1]}",
	"{range .spec.list[*]}{.name},{end}", "{range .spec.list[*]}[{.name}={.size}]{end}", "{.spec.list[?(@.name=='a')].size}",
	"{.spec.list[?(@.size>1)].name}", "{.metadata.name}-{.metadata.namespace}", "x{.metadata.name}y", "{.metadata.deletionTimestamp}",
	"{.metadata.creationTimestamp}", "{.nope}", "{.nope.nope[3]}", "{.spec.paused}", "{.spec.text}", "{'literal'}", "{.spec.nested.a.b}",
	// broken JSONPath
	"{.metadata.name", "{", "{}", "{.metadata.[}", "{range .spec.list[*]}{.name}", "{.spec.list[}", "{.spec.list[a]}", "{end}", "{.spec.list[?(@.x)", "{range .metadata.name}{.x}{end}", "{\"a}", "}{",
	// templates
	"{{ .metadata.name }}", "{{ .metadata.namespace }}/{{ .metadata.name }}", "{{ .metadata.labels.app }}", "{{ .nope.nope }}", "{{ default \"none\" .metadata.labels.app }}",
	"{{ default \"none\" .spec.nope }}", "{{ quote .metadata.name }}", "{{ quote .spec.text }}", "{{ join \"-\" .metadata.name .metadata.namespace }}", "{{ range .spec.list }}{{ .name }};{{ end }}",
	"{{ if .metadata.deletionTimestamp }}deleted{{ else }}alive{{ end }}", "{{ len .spec.list }}", "{{ index .spec.list 0 }}", "{{ index .spec.list 9 }}", "{{ .spec.replicas }}", "{{ printf \"%v\" .spec.replicas }}",
	"{{/* nothing */}}", "{{ with .metadata.labels }}{{ .app }}{{ end }}", "{{ .spec.text | quote }}", "{{ .metadata.name }}{{ .metadata.name.nope }}",
	"{{ define \"x\" }}leak{{ .metadata.name }}{{ end }}defined", "{{ template \"x\" . }}", "{{ block \"x\" . }}block{{ end }}",
	// broken templates
	"{{ .metadata.name", "{{ nofunc .metadata }}", "{{ end }}", "{{ if .metadata }}", "{{", "{{ }}", "{{ join .metadata }}",
	// literals
	"", "fixed", "literal text", "a;b", "100", "}", "\"q\"", "日本",
}

var c03Keys = []string{"namespace", "name", "cluster", "is_deleted", "app", "note", "k1", "k2", "k3", "uid", "phase", "with space", "日", "", "x=y", "labels"}

// genSmallNumber keeps to the numbers whose index text is not subject to the known finding about large integers.
func genSmallNumber(t *rapid.T) json.Number {
	switch intIn(t, "small number", 0, 2) {
	case 0:
		return json.Number(fmt.Sprint(intIn(t, "n", -12, 12)))
	case 1:
		return json.Number(fmt.Sprint(intIn(t, "n", -999999, 999999)))
	}
	return json.Number(pick(t, "f", "0.5", "-2.25", "3.75", "0.1"))
}

func genC03Spec(t *rapid.T) map[string]interface{} {
	s := map[string]interface{}{}
	opt := func(k string, f func() interface{}) {
		if chance(t, "has "+k, 55) {
			s[k] = f()
		}
	}
	opt("nodeName", func() interface{} { return genText(t) })
	opt("replicas", func() interface{} { return genSmallNumber(t) })
	opt("paused", func() interface{} { return rapid.Bool().Draw(t, "paused") })
	opt("text", func() interface{} { return genText(t) })
	opt("nested", func() interface{} {
		return map[string]interface{}{"a": map[string]interface{}{"b": genText(t)}, "c": nil}
	})
	opt("list", func() interface{} {
		l := []interface{}{}
		for i := intIn(t, "len", 0, 3); i > 0; i-- {
			l = append(l, map[string]interface{}{"name": pick(t, "el", "a", "b", "x y", ""), "size": genSmallNumber(t)})
		}
		return l
	})
	return s
}

func genC03(t *rapid.T) c03Case {
	c := c03Case{Cluster: pick(t, "cluster", poolClusters...), Index: map[string]string{}}
	for i := intIn(t, "keys", 0, 8); i > 0; i-- {
		k := pickFrom(t, "key", c03Keys)
		e := pickFrom(t, "expr", c03Exprs)
		if chance(t, "glued", 15) {
			e += pickFrom(t, "expr2", c03Exprs)
		} else if chance(t, "cut", 10) && len(e) > 1 {
			e = strings.ToValidUTF8(e[:intIn(t, "cut at", 1, len(e)-1)], "")
		}
		if strings.Contains(e, "..") {
			continue // walks maps in random order
		}
		c.Index[k] = e
	}
	for i := intIn(t, "docs", 1, 4); i > 0; i-- {
		meta := map[string]interface{}{"name": pick(t, "name", "w1", "w2", "a.b", "x")}
		if chance(t, "ns", 80) {
			meta["namespace"] = pick(t, "ns", "default", "a-b", "a")
		}
		if l := genStringMap(t, "labels", []string{"app", "version", "a.b/c"}, 3); len(l) > 0 {
			meta["labels"] = l
		}
		if a := genStringMap(t, "annotations", []string{"note", ClusterAnno, IndexAnno, "a/b"}, 3); len(a) > 0 {
			meta["annotations"] = a
		}
		if chance(t, "deleted", 30) {
			meta["deletionTimestamp"] = pick(t, "deletion", "2022-07-02T08:01:02Z", "2099-07-02T08:01:02Z")
		}
		if chance(t, "uid", 40) {
			meta["uid"] = "u-1"
		}
		d := c03Doc{Doc: map[string]interface{}{"metadata": meta}, Event: pick(t, "event", "add", "mod"), Typed: chance(t, "typed", 25)}
		if d.Typed {
			d.Doc["spec"] = map[string]interface{}{"nodeName": genText(t), "text": genText(t)}
		} else {
			d.Doc["apiVersion"], d.Doc["kind"], d.Doc["spec"] = "example.io/v1", "Widget", genC03Spec(t)
		}
		c.Docs = append(c.Docs, d)
	}
	return c
}

// evalAlone evaluates one expression on one document with tools nothing else uses. The second result
// is false when the expression is invalid or cannot be applied, and the value is what was written before that.
func evalAlone(expr string, doc map[string]interface{}) (string, bool) {
	var b bytes.Buffer
	switch {
	case strings.Contains(expr, "{{"):
		tpl, err := template.New("alone").Funcs(template.FuncMap{
			"default": func(def string, v interface{}) string {
				if v == nil {
					return def
				}
				return fmt.Sprintf("%s", v)
			},
			"quote": func(v interface{}) string { return fmt.Sprintf("%q", v) },
			"join":  func(sep string, in ...string) string { return strings.Join(in, sep) },
		}).Parse(expr)
		if err != nil {
			return "", false
		}
		err = safely(func() error { return tpl.Execute(&b, doc) })
		return b.String(), err == nil
	case !strings.Contains(expr, "{"):
		return expr, true
	}
	jp := jsonpath.New("alone").AllowMissingKeys(true)
	perr := jp.Parse(expr)
	err := safely(func() error { return jp.Execute(&b, doc) })
	return b.String(), perr == nil && err == nil
}

func safely(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return f()
}

var _ io.Writer = (*bytes.Buffer)(nil)

// buildDoc decodes a document as the watcher does.
func buildDoc(doc interface{}, typed bool) (interface{}, map[string]interface{}, error) {
	b, err := json.Marshal(doc)
	if err != nil {
		return nil, nil, err
	}
	var obj interface{} = &watcher.ObjType{}
	if typed {
		obj = &corev1.Pod{}
	}
	if err := json.Unmarshal(b, obj); err != nil {
		return nil, nil, err
	}
	// the document an expression sees: the object as received
	b, err = json.Marshal(obj)
	if err != nil {
		return nil, nil, err
	}
	m := map[string]interface{}{}
	err = json.Unmarshal(b, &m)
	return obj, m, err
}

func checkC03(_ *vk.Env, c c03Case) error {
	s := newStore(map[GVR]map[string]string{gvrWidgets: c.Index})
	type live struct {
		index map[string]string // exact values
		loose map[string][]string
		doc   c03Doc
	}
	objs := map[string]*live{}
	for i, d := range c.Docs {
		obj, seen, err := buildDoc(d.Doc, d.Typed)
		if err != nil {
			return fmt.Errorf("document %d: %v", i, err)
		}
		m := obj.(metav1.Object)
		l := &live{index: map[string]string{}, loose: map[string][]string{}, doc: d}
		for k, e := range c.Index {
			v, ok := evalAlone(e, seen)
			if ok {
				l.index[k] = v
			} else {
				l.loose[k] = []string{"", v}
			}
		}
		for k, v := range map[string]string{"cluster": c.Cluster, "name": m.GetName(), "namespace": m.GetNamespace(), "is_deleted": fmt.Sprint(m.GetDeletionTimestamp() != nil)} {
			l.index[k] = v
			delete(l.loose, k)
		}
		if d.Event == "add" {
			_ = s.OnResourceAdded(gvrWidgets, c.Cluster, obj)
		} else {
			_ = s.OnResourceModified(gvrWidgets, c.Cluster, obj)
		}
		objs[m.GetNamespace()+"/"+m.GetName()] = l
		for key, l := range objs {
			p := strings.SplitN(key, "/", 2)
			got := s.Get(gvrWidgets, c.Cluster, p[0], p[1])
			if got == nil {
				return fmt.Errorf("after object %d: object %s is not available", i+1, key)
			}
			shown := map[string]string{}
			if err := json.Unmarshal([]byte(got.(metav1.Object).GetAnnotations()[IndexAnno]), &shown); err != nil {
				return fmt.Errorf("index annotation of %s: %v", key, err)
			}
			for k, e := range c.Index {
				v, ok := shown[k]
				if !ok {
					return fmt.Errorf("after object %d: %s has no index %q", i+1, key, k)
				}
				if alts, isLoose := l.loose[k]; isLoose {
					if v != alts[0] && v != alts[1] {
						return fmt.Errorf("after object %d: index %q of %s with the inapplicable expression %q is %q", i+1, k, key, e, v)
					}
				} else if v != l.index[k] {
					return fmt.Errorf("after object %d: index %q of %s is %q, but %q alone gives %q", i+1, k, key, v, e, l.index[k])
				}
			}
			for _, k := range []string{"cluster", "is_deleted"} {
				if shown[k] != l.index[k] {
					return fmt.Errorf("after object %d: index %q of %s is %q, want %q", i+1, k, key, shown[k], l.index[k])
				}
			}
		}
		// the same values decide searches: keyed search per value, over all objects seen so far
		for _, l := range objs {
			for k, v := range l.index {
				if k == "" || strings.TrimSpace(k) != k || strings.ContainsAny(k, "=;") || strings.Contains(v, `"`) {
					continue
				}
				p := page.Paginate{}
				p.SetSearchWithParts([]string{fmt.Sprintf(`%s="%s"`, k, v)})
				r := s.Query(gvrWidgets, store.Query{Paginate: p})
				if r.Error != nil {
					return fmt.Errorf("after object %d: search %q: %v", i+1, p.Search, r.Error)
				}
				got := map[string]bool{}
				for _, it := range r.Items {
					m := it.(metav1.Object)
					got[m.GetNamespace()+"/"+m.GetName()] = true
				}
				for key, o := range objs {
					if _, isLoose := o.loose[k]; isLoose || strings.Contains(o.index[k], `"`) {
						continue
					}
					if want := o.index[k] == v; want != got[key] {
						return fmt.Errorf("after object %d: search %s finds %s: %v, but its index %q is %q", i+1, p.Search, key, got[key], k, o.index[k])
					}
				}
			}
		}
	}
	r := s.Query(gvrWidgets, store.Query{})
	if r.Error != nil || len(r.Items) != len(objs) {
		return fmt.Errorf("unfiltered listing returns %d of %d objects (%v)", len(r.Items), len(objs), r.Error)
	}
	return nil
}

func classifyC03(c c03Case) (bool, []string) {
	labels := []string{sizeClass("keys", len(c.Index)), fmt.Sprintf("docs=%d", len(c.Docs))}
	var jp, tpl, broken, lit bool
	_, seen, _ := buildDoc(c.Docs[0].Doc, c.Docs[0].Typed)
	for _, e := range c.Index {
		if _, ok := evalAlone(e, seen); !ok {
			broken = true
		}
		switch {
		case strings.Contains(e, "{{"):
			tpl = true
		case strings.Contains(e, "{"):
			jp = true
		default:
			lit = true
		}
	}
	for l, on := range map[string]bool{"jsonpath": jp, "template": tpl, "literal": lit, "invalid or inapplicable": broken} {
		if on {
			labels = append(labels, l)
		}
	}
	return len(c.Index) >= 2 && (jp || tpl), labels
}

func probeLargeInteger(*vk.Env) error {
	obj, _, err := buildDoc(map[string]interface{}{"apiVersion": "example.io/v1", "kind": "Widget", "metadata": map[string]interface{}{"name": "w", "namespace": "a"},
		"spec": map[string]interface{}{"size": 1234567}}, false)
	if err != nil {
		return nil
	}
	s := newStore(map[GVR]map[string]string{gvrWidgets: {"size": "{.spec.size}"}})
	_ = s.OnResourceAdded(gvrWidgets, "c1", obj)
	p := page.Paginate{}
	p.SetSearchWithParts([]string{`size="1234567"`})
	if r := s.Query(gvrWidgets, store.Query{Paginate: p}); len(r.Items) != 1 {
		return fmt.Errorf("size=1234567 is not found under its own value; its indexes are %s", obj.(metav1.Object).GetAnnotations()[IndexAnno])
	}
	return nil
}

func init() {
	doc := func(name string, spec map[string]interface{}) c03Doc {
		return c03Doc{Event: "add", Doc: map[string]interface{}{"apiVersion": "example.io/v1", "kind": "Widget", "metadata": map[string]interface{}{"name": name, "namespace": "a"}, "spec": spec}}
	}
	vk.Register(&vk.Property{
		ID:    "C03",
		Setup: func(*vk.Env) error { quietStdout(); return nil },
		Parts: []*vk.Part{vk.New(vk.Part{
			Name:  "index",
			Rule:  "0-8 index keys (built-in names included) with JSONPath, template and literal expressions, valid, broken, glued together or cut, over 1-4 custom or typed objects stored one after the other; every index of every object is compared with a fresh evaluation of its expression alone, in the index annotation and by keyed searches; non-trivial with two or more keys one of which is evaluated",
			Quick: 16000, Thorough: 250000,
		}, vk.Def[c03Case]{Gen: genC03, Check: checkC03, Classify: classifyC03, Fixed: []c03Case{
			{Cluster: "c1", Index: map[string]string{"a": "{range .spec.list[*]}{.name}", "b": "{.spec.text}", "c": "{.metadata.name}"}, Docs: []c03Doc{doc("w1", map[string]interface{}{"list": []interface{}{map[string]interface{}{"name": "a"}}}), doc("w2", map[string]interface{}{"text": "t"})}},
			{Cluster: "c1", Index: map[string]string{"a": "{{/* nothing */}}", "b": "{{ .metadata.name }}"}, Docs: []c03Doc{doc("w1", nil)}},
			{Cluster: "c1", Index: map[string]string{"namespace": "fixed", "name": "{.nope}"}, Docs: []c03Doc{doc("w1", nil)}},
		}})},
		Findings: []vk.Finding{{Key: "index-large-integer", What: "the index of an integer of a million or more is written in exponent form", Probe: probeLargeInteger}},
		Assumptions: []string{"integers in indexed fields are below one million (see the known finding index-large-integer)",
			"an invalid or inapplicable expression may leave its own index empty or with what it wrote before it failed; only the other indexes and the object's availability are decided"},
	})
}

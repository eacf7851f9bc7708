package props

import (
	"encoding/json"
	"fmt"
	"net/url"
	"strings"

	"ckverif/vk"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/watcher"
	appsv1 "k8s.io/api/apps/v1"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"pgregory.net/rapid"
)

// ---- random documents --------------------------------------------------------

var textPool = []string{"", "a", "web", "x y", "<b>&\"q\"\\", "日本語", "\u2028", "😀", "1e5", "true", "null", "tab\there", "line\nbreak", "~?/+", "9007199254740993"}

func genText(t *rapid.T) string {
	if chance(t, "pooled", 70) {
		return pickFrom(t, "text", textPool)
	}
	return rapid.StringN(0, 12, -1).Draw(t, "string")
}

// genNumber writes a JSON number.
func genNumber(t *rapid.T) json.Number {
	switch intIn(t, "num", 0, 6) {
	case 0:
		return json.Number(fmt.Sprint(intIn(t, "small", -10, 10)))
	case 1:
		return json.Number(fmt.Sprint(rapid.Int64().Draw(t, "int64")))
	case 2:
		return json.Number(pick(t, "big", "9007199254740993", "-9007199254740993", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "1000000", "123456789012345678"))
	case 3:
		return json.Number(fmt.Sprint(rapid.Int64Range(1<<53, 1<<62).Draw(t, "past 2^53")))
	case 4:
		return json.Number(pick(t, "float", "0.1", "-2.5", "1e21", "1.5e-9", "3.141592653589793", "1e-7", "100.0", "0.30000000000000004"))
	case 5:
		return json.Number(fmt.Sprintf("%d.%d", intIn(t, "whole", -1000, 1000), intIn(t, "frac", 0, 999999)))
	}
	return json.Number("0")
}

var fieldPool = []string{"a", "b", "spec", "status", "items", "name", "metadata", "kind", "apiVersion", "Data", "data", "x-y", "日", "", "labels", "TypeMeta", "size"}

func genValue(t *rapid.T, depth int) interface{} {
	max := 8
	if depth <= 0 {
		max = 5
	}
	switch intIn(t, "type", 0, max) {
	case 0:
		return nil
	case 1:
		return rapid.Bool().Draw(t, "bool")
	case 2, 3:
		return genNumber(t)
	case 4, 5:
		return genText(t)
	case 6:
		n := intIn(t, "len", 0, 4)
		l := make([]interface{}, 0, n)
		for i := 0; i < n; i++ {
			l = append(l, genValue(t, depth-1))
		}
		return l
	default:
		return genObject(t, depth-1)
	}
}

func genObject(t *rapid.T, depth int) map[string]interface{} {
	n := intIn(t, "fields", 0, 5)
	m := map[string]interface{}{}
	for i := 0; i < n; i++ {
		m[pickFrom(t, "field", fieldPool)] = genValue(t, depth)
	}
	return m
}

func genStringMap(t *rapid.T, label string, keys []string, max int) map[string]interface{} {
	m := map[string]interface{}{}
	for i := intIn(t, label, 0, max); i > 0; i-- {
		m[pickFrom(t, label+" key", keys)] = genText(t)
	}
	return m
}

var annoKeys = []string{"note", "kubectl.kubernetes.io/last-applied-configuration", ClusterAnno, IndexAnno, "ckube.daocloud.io/cluster", "a/b", verKey}

// genMeta writes object metadata as an API server would: no empty fields.
func genMeta(t *rapid.T, name string) map[string]interface{} {
	m := map[string]interface{}{"name": name}
	if chance(t, "has ns", 80) {
		m["namespace"] = pick(t, "ns", "default", "kube-system", "a-b")
	}
	if l := genStringMap(t, "labels", []string{"app", "version", "a.b/c", "tier"}, 3); len(l) > 0 {
		m["labels"] = l
	}
	if a := genStringMap(t, "annotations", annoKeys, 4); len(a) > 0 {
		m["annotations"] = a
	}
	opt := func(k string, v interface{}) {
		if chance(t, "has "+k, 40) {
			m[k] = v
		}
	}
	opt("uid", "b2f7c4c2-8f6f-4a61-9f4b-000000000001")
	opt("resourceVersion", fmt.Sprint(rapid.Int64Range(1, 1<<62).Draw(t, "rv")))
	opt("generation", json.Number(fmt.Sprint(rapid.Int64Range(1, 1<<62).Draw(t, "generation"))))
	opt("creationTimestamp", "2021-07-02T08:01:02Z")
	opt("generateName", "web-")
	opt("selfLink", "/apis/example.io/v1/widgets/x")
	if chance(t, "deleted", 25) {
		m["deletionTimestamp"] = pick(t, "deletion", "2022-07-02T08:01:02Z", "2099-07-02T08:01:02Z")
		m["deletionGracePeriodSeconds"] = json.Number("30")
	}
	opt("finalizers", []interface{}{"example.io/protect", "foregroundDeletion"})
	if chance(t, "has owner", 40) {
		m["ownerReferences"] = []interface{}{map[string]interface{}{
			"apiVersion": "apps/v1", "kind": "ReplicaSet", "name": "web-5d8", "uid": "u-1", "controller": true, "blockOwnerDeletion": false,
		}}
	}
	if chance(t, "has managed", 30) {
		m["managedFields"] = []interface{}{map[string]interface{}{
			"manager": "kubectl", "operation": "Update", "apiVersion": "example.io/v1", "time": "2021-07-02T08:01:02Z",
			"fieldsType": "FieldsV1", "fieldsV1": map[string]interface{}{"f:spec": map[string]interface{}{".": map[string]interface{}{}, "f:a": map[string]interface{}{}}},
		}}
	}
	return m
}

type c02Case struct {
	Cluster string          `json:"cluster"`
	Docs    []interface{}   `json:"docs"` // delivered in this order
	Typed   string          `json:"typed,omitempty"`
	Events  []string        `json:"events"` // add or mod
	Text    json.RawMessage `json:"-"`
}

func genC02Custom(t *rapid.T) c02Case {
	c := c02Case{Cluster: pick(t, "cluster", poolClusters...)}
	n := intIn(t, "docs", 1, 3)
	for i := 0; i < n; i++ {
		doc := map[string]interface{}{"apiVersion": "example.io/v1", "kind": "Widget", "metadata": genMeta(t, fmt.Sprintf("w%d", i))}
		for j := intIn(t, "top", 0, 4); j > 0; j-- {
			k := pick(t, "top field", "spec", "status", "data", "Data", "items", "rules", "日", "spec.x", "labels", "name", "size")
			doc[k] = genValue(t, 3)
		}
		c.Docs = append(c.Docs, doc)
		c.Events = append(c.Events, pick(t, "event", "add", "mod"))
	}
	return c
}

// normMeta removes what ckube is allowed to add, after checking it.
func normMeta(doc interface{}, cluster string) (interface{}, error) {
	m, ok := doc.(map[string]interface{})
	if !ok {
		return nil, fmt.Errorf("served object is not a document: %s", short(doc))
	}
	meta, _ := m["metadata"].(map[string]interface{})
	annos, _ := meta["annotations"].(map[string]interface{})
	if annos[ClusterAnno] != cluster {
		return nil, fmt.Errorf("cluster annotation is %s, want %q", short(annos[ClusterAnno]), cluster)
	}
	ix, ok := annos[IndexAnno].(string)
	if !ok {
		return nil, fmt.Errorf("no index annotation")
	}
	im := map[string]string{}
	if err := json.Unmarshal([]byte(ix), &im); err != nil {
		return nil, fmt.Errorf("index annotation %q: %v", ix, err)
	}
	dropCkubeAnnos(meta)
	return doc, nil
}

func dropCkubeAnnos(meta map[string]interface{}) {
	if annos, ok := meta["annotations"].(map[string]interface{}); ok {
		delete(annos, ClusterAnno)
		delete(annos, IndexAnno)
		if len(annos) == 0 {
			delete(meta, "annotations")
		}
	}
	// the zero time is written as null
	if v, ok := meta["creationTimestamp"]; ok && v == nil {
		delete(meta, "creationTimestamp")
	}
}

func wantDoc(doc interface{}) interface{} {
	w := mustJSON(doc)
	if m, ok := w.(map[string]interface{}); ok {
		if meta, ok := m["metadata"].(map[string]interface{}); ok {
			dropCkubeAnnos(meta)
		}
	}
	return w
}

func metaOf(doc interface{}, key string) string {
	m := doc.(map[string]interface{})["metadata"].(map[string]interface{})
	s, _ := m[key].(string)
	return s
}

func checkC02(_ *vk.Env, c c02Case) error {
	g, kind := gvrWidgets, "WidgetList"
	switch c.Typed {
	case "Pod":
		g, kind = gvrPods, "PodList"
	case "Service":
		g, kind = gvrServices, "ServiceList"
	case "Deployment":
		g, kind = gvrDeploys, "DeploymentList"
	}
	ix := map[string]string{"namespace": "{.metadata.namespace}", "name": "{.metadata.name}", "labels": "{.metadata.labels}", "spec": "{.spec}", "tpl": "{{ .metadata.name }}"}
	s := newStore(map[GVR]map[string]string{g: ix})
	h := router(common.Config{Proxies: []common.Proxy{proxyConf(g, kind, ix)}, DefaultCluster: c.Cluster}, s, nil)
	want := map[string]interface{}{}
	for i, doc := range c.Docs {
		b, err := json.Marshal(doc)
		if err != nil {
			return err
		}
		var obj interface{}
		switch c.Typed {
		case "Pod":
			obj = &corev1.Pod{}
		case "Service":
			obj = &corev1.Service{}
		case "Deployment":
			obj = &appsv1.Deployment{}
		default:
			obj = &watcher.ObjType{}
		}
		if err := json.Unmarshal(b, obj); err != nil {
			return fmt.Errorf("document %d does not decode: %v", i, err)
		}
		w := wantDoc(doc)
		if c.Typed != "" {
			w = wantDoc(obj) // the typed object itself is the reference
		}
		want[metaOf(w, "namespace")+"/"+metaOf(w, "name")] = w
		if c.Events[i] == "add" {
			_ = s.OnResourceAdded(g, c.Cluster, obj)
		} else {
			_ = s.OnResourceModified(g, c.Cluster, obj)
		}
		// the cache must serve what was delivered, also when older deliveries are still around
		for key, w := range want {
			p := strings.SplitN(key, "/", 2)
			got := s.Get(g, c.Cluster, p[0], p[1])
			if got == nil {
				return fmt.Errorf("object %s is not served", key)
			}
			if err := sameDoc("cached "+key, mustJSON(got), w, c.Cluster); err != nil {
				return err
			}
		}
	}
	// over HTTP: every single object, the list, and a list through a label selector
	for key, w := range want {
		p := strings.SplitN(key, "/", 2)
		target := collectionPath(g, p[0]) + "/" + p[1]
		r := do(h, "GET", target, nil, "")
		if r.Code != 200 {
			return fmt.Errorf("GET %s: status %d %s", target, r.Code, r.Body)
		}
		got, err := parseJSON(r.Body)
		if err != nil {
			return fmt.Errorf("GET %s: %v in %s", target, err, r.Body)
		}
		if err := sameDoc("GET "+target, got, w, c.Cluster); err != nil {
			return err
		}
	}
	for _, target := range []string{collectionPath(g, ""), collectionPath(g, "") + "?labelSelector=" + url.QueryEscape("!no-such-label")} {
		r := do(h, "GET", target, nil, "")
		if r.Code != 200 {
			return fmt.Errorf("GET %s: status %d %s", target, r.Code, r.Body)
		}
		got, err := parseJSON(r.Body)
		if err != nil {
			return fmt.Errorf("GET %s: %v", target, err)
		}
		items, _ := got.(map[string]interface{})["items"].([]interface{})
		if len(items) != len(want) {
			return fmt.Errorf("GET %s: %d items, want %d", target, len(items), len(want))
		}
		for _, it := range items {
			w, ok := want[metaOf(it, "namespace")+"/"+metaOf(it, "name")]
			if !ok {
				return fmt.Errorf("GET %s: unexpected item %s", target, short(it))
			}
			if err := sameDoc("item of "+target, it, w, c.Cluster); err != nil {
				return err
			}
		}
	}
	return nil
}

func sameDoc(what string, got, want interface{}, cluster string) error {
	got, err := normMeta(got, cluster)
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	if d := diffJSON("", got, want); d != "" {
		return fmt.Errorf("%s differs from what the API server sent: %s", what, d)
	}
	return nil
}

func classifyC02(c c02Case) (bool, []string) {
	b, _ := json.Marshal(c.Docs)
	s := string(b)
	labels := []string{}
	add := func(cond bool, l string) {
		if cond {
			labels = append(labels, l)
		}
	}
	add(strings.Contains(s, "9007199254740993"), "integer past 2^53")
	add(strings.Contains(s, ClusterAnno), "stale cluster annotation")
	add(strings.Contains(s, IndexAnno), "stale index annotation")
	add(strings.Contains(s, "deletionTimestamp"), "deleted")
	add(!strings.Contains(s, `"annotations"`), "no annotations")
	add(strings.Contains(s, `"spec"`), "spec")
	labels = append(labels, sizeClass("bytes/100", len(s)/100))
	return strings.Contains(s, `"spec"`) || strings.Contains(s, "annotations"), labels
}

// ---- built-in kinds ------------------------------------------------------------

func genC02Typed(t *rapid.T) c02Case {
	c := c02Case{Cluster: pick(t, "cluster", poolClusters...), Typed: pick(t, "kind", "Pod", "Service", "Deployment")}
	n := intIn(t, "docs", 1, 3)
	container := func() map[string]interface{} {
		m := map[string]interface{}{"name": pick(t, "cname", "app", "side"), "image": genText(t)}
		if chance(t, "env", 50) {
			m["env"] = []interface{}{map[string]interface{}{"name": "A", "value": genText(t)}, map[string]interface{}{"name": "B", "valueFrom": map[string]interface{}{"fieldRef": map[string]interface{}{"fieldPath": "metadata.name"}}}}
		}
		if chance(t, "ports", 50) {
			m["ports"] = []interface{}{map[string]interface{}{"containerPort": json.Number(fmt.Sprint(intIn(t, "port", 1, 65535))), "protocol": "TCP"}}
		}
		if chance(t, "resources", 50) {
			m["resources"] = map[string]interface{}{"limits": map[string]interface{}{"cpu": "100m", "memory": "1Gi"}, "requests": map[string]interface{}{"cpu": "0"}}
		}
		if chance(t, "args", 30) {
			m["args"] = []interface{}{genText(t), genText(t)}
		}
		return m
	}
	podSpec := func() map[string]interface{} {
		m := map[string]interface{}{"containers": []interface{}{container()}, "nodeName": genText(t)}
		if chance(t, "second", 40) {
			m["containers"] = []interface{}{container(), container()}
		}
		if chance(t, "selector", 40) {
			m["nodeSelector"] = genStringMap(t, "nodeSelector", []string{"zone", "disk"}, 2)
		}
		if chance(t, "tolerations", 40) {
			m["tolerations"] = []interface{}{map[string]interface{}{"key": "k", "operator": "Exists", "effect": "NoExecute", "tolerationSeconds": genNumberInt64(t)}}
		}
		if chance(t, "grace", 40) {
			m["terminationGracePeriodSeconds"] = genNumberInt64(t)
		}
		return m
	}
	for i := 0; i < n; i++ {
		doc := map[string]interface{}{"metadata": genMeta(t, fmt.Sprintf("w%d", i))}
		if chance(t, "typemeta", 70) {
			doc["kind"] = c.Typed
			doc["apiVersion"] = map[string]string{"Pod": "v1", "Service": "v1", "Deployment": "apps/v1"}[c.Typed]
		}
		switch c.Typed {
		case "Pod":
			doc["spec"] = podSpec()
			doc["status"] = map[string]interface{}{"phase": pick(t, "phase", "Running", "Pending"), "podIP": "10.0.0.1",
				"conditions": []interface{}{map[string]interface{}{"type": "Ready", "status": "True", "lastTransitionTime": "2021-07-02T08:01:02Z"}}}
		case "Service":
			doc["spec"] = map[string]interface{}{"selector": genStringMap(t, "sel", []string{"app", "tier"}, 2),
				"ports": []interface{}{map[string]interface{}{"port": json.Number("80"), "targetPort": pickAny(t, json.Number("8080"), "http")}}, "clusterIP": "None"}
		case "Deployment":
			doc["spec"] = map[string]interface{}{"replicas": json.Number(fmt.Sprint(intIn(t, "replicas", 0, 5000))),
				"selector": map[string]interface{}{"matchLabels": genStringMap(t, "sel", []string{"app"}, 1)},
				"template": map[string]interface{}{"metadata": map[string]interface{}{"labels": genStringMap(t, "tl", []string{"app"}, 1)}, "spec": podSpec()}}
			doc["status"] = map[string]interface{}{"observedGeneration": genNumberInt64(t)}
		}
		c.Docs = append(c.Docs, doc)
		c.Events = append(c.Events, pick(t, "event", "add", "mod"))
	}
	return c
}

func pickAny(t *rapid.T, vs ...interface{}) interface{} { return pickFrom(t, "any", vs) }

func genNumberInt64(t *rapid.T) json.Number {
	return json.Number(fmt.Sprint(rapid.Int64Range(0, 1<<62).Draw(t, "int64")))
}

var _ = metav1.Object(nil)

func init() {
	quick := func(n int) int { return n }
	vk.Register(&vk.Property{
		ID: "C02",
		Setup: func(*vk.Env) error {
			quietStdout()
			return nil
		},
		Parts: []*vk.Part{
			vk.New(vk.Part{
				Name:  "custom",
				Rule:  "1-3 random custom resource documents (nested values, numbers of all sizes, full metadata, stale ckube annotations) delivered to one cluster; compared in the cache after every delivery and over HTTP (single, list, list with a label selector); non-trivial with annotations or a spec",
				Quick: quick(5000), Thorough: 120000,
			}, vk.Def[c02Case]{Gen: genC02Custom, Check: checkC02, Classify: classifyC02}),
			vk.New(vk.Part{
				Name:  "typed",
				Rule:  "the same for pods, services and deployments decoded into their Go types; non-trivial as above",
				Quick: 3000, Thorough: 60000,
			}, vk.Def[c02Case]{Gen: genC02Typed, Check: checkC02, Classify: classifyC02}),
		},
		Assumptions: []string{"object metadata holds only fields of the Kubernetes metadata schema, as an API server sends it", "a missing creationTimestamp and a null one are the same"},
	})
}

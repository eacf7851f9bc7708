// Package props holds the checks, one file per property.
package props

import (
	"encoding/json"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/DaoCloud/ckube/log"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/watcher"
	"github.com/sirupsen/logrus"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/types"
	"pgregory.net/rapid"
)

func init() {
	logrus.SetOutput(io.Discard)
	log.AccessLog.SetOutput(io.Discard)
}

// ClusterAnno and IndexAnno are ckube's two annotations, as its users see them.
const (
	ClusterAnno = "ckube.doacloud.io/cluster"
	IndexAnno   = "ckube.daocloud.io/indexes"
	QueryKey    = "ckube.daocloud.io/query"
)

// GVR aliases keep the generators short.
type GVR = store.GroupVersionResource

var (
	gvrPods     = GVR{Version: "v1", Resource: "pods"}
	gvrServices = GVR{Version: "v1", Resource: "services"}
	gvrDeploys  = GVR{Group: "apps", Version: "v1", Resource: "deployments"}
	gvrDeploysB = GVR{Group: "apps", Version: "v1beta1", Resource: "deployments"}
	gvrWidgets  = GVR{Group: "example.io", Version: "v1", Resource: "widgets"}
	gvrPodsX    = GVR{Group: "example.io", Version: "v1", Resource: "pods"}
)

// baseIndex is an ordinary index configuration.
func baseIndex() map[string]string {
	return map[string]string{
		"namespace": "{.metadata.namespace}",
		"name":      "{.metadata.name}",
	}
}

// small pools, so that histories collide often
var (
	poolClusters = []string{"c1", "c2", "default", "c1-x", "kubernetes-admin@kubernetes", "c1/x"}
	poolNS       = []string{"", "default", "a", "a-b", "kube-system", "b"}
	poolNames    = []string{"x", "y", "b-x", "a", "web-1", "web-10", "web-2", "x.y"}
)

// rapid's own integers and choices favour small values, which is good for sizes without a bound
// and bad for choices: these are uniform, and still shrink towards the first choice.

var bit = rapid.Bool()

func uniform(t *rapid.T, label string, n int) int {
	if n <= 1 {
		return 0
	}
	v := 0
	for max := 1; max < n*8; max *= 2 {
		v *= 2
		if bit.Draw(t, label) {
			v++
		}
	}
	return v % n
}

func intIn(t *rapid.T, label string, lo, hi int) int { return lo + uniform(t, label, hi-lo+1) }

func pickFrom[T any](t *rapid.T, label string, vs []T) T { return vs[uniform(t, label, len(vs))] }

func pick[T any](t *rapid.T, label string, vs ...T) T { return pickFrom(t, label, vs) }

func chance(t *rapid.T, label string, percent int) bool { return uniform(t, label, 100) < percent }

// Obj is a serialisable object description.
type Obj struct {
	NS      string            `json:"ns"`
	Name    string            `json:"name"`
	Labels  map[string]string `json:"labels,omitempty"`
	Annos   map[string]string `json:"annos,omitempty"`
	Deleted bool              `json:"deleted,omitempty"`
	V       int               `json:"v"`
	RV      string            `json:"rv,omitempty"`
	UID     string            `json:"uid,omitempty"`
	Custom  bool              `json:"custom,omitempty"`
	Extra   map[string]string `json:"extra,omitempty"`
}

const verKey = "ckv/version"

func copyMap(m map[string]string) map[string]string {
	if m == nil {
		return nil
	}
	o := make(map[string]string, len(m))
	for k, v := range m {
		o[k] = v
	}
	return o
}

func (o Obj) meta() metav1.ObjectMeta {
	m := metav1.ObjectMeta{Namespace: o.NS, Name: o.Name, ResourceVersion: o.RV, UID: types.UID(o.UID), Labels: copyMap(o.Labels), Annotations: copyMap(o.Annos)}
	if m.Annotations == nil {
		m.Annotations = map[string]string{}
	}
	m.Annotations[verKey] = fmt.Sprint(o.V)
	if o.Deleted {
		ts := deletedAt(o.Name)
		m.DeletionTimestamp = &ts
	}
	return m
}

// Build makes the object a watch stream would deliver.
func (o Obj) Build() interface{} {
	if o.Custom {
		doc := map[string]interface{}{
			"apiVersion": "example.io/v1", "kind": "Widget", "metadata": o.meta(),
			"spec": map[string]interface{}{"v": o.V, "extra": o.Extra},
		}
		b, _ := json.Marshal(doc)
		t := &watcher.ObjType{}
		if err := json.Unmarshal(b, t); err != nil {
			panic(err)
		}
		return t
	}
	return &corev1.Pod{
		TypeMeta:   metav1.TypeMeta{Kind: "Pod", APIVersion: "v1"},
		ObjectMeta: o.meta(),
		Spec:       corev1.PodSpec{NodeName: fmt.Sprintf("node-%d", o.V), NodeSelector: copyMap(o.Extra)},
	}
}

// ident is what a served object says it is: cluster/namespace/name@version.
func ident(i interface{}) string {
	m, ok := i.(metav1.Object)
	if !ok {
		return fmt.Sprintf("not an object: %T", i)
	}
	return fmt.Sprintf("%s|%s|%s@%s", m.GetAnnotations()[ClusterAnno], m.GetNamespace(), m.GetName(), m.GetAnnotations()[verKey])
}

func idents(items []interface{}) []string {
	out := make([]string, 0, len(items))
	for _, i := range items {
		out = append(out, ident(i))
	}
	return out
}

func sortedCopy(s []string) []string {
	o := append([]string{}, s...)
	sort.Strings(o)
	return o
}

func eqStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func short(v interface{}) string {
	b, err := json.Marshal(v)
	s := string(b)
	if err != nil {
		s = fmt.Sprintf("%+v", v)
	}
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}

func sizeClass(prefix string, n int) string {
	switch {
	case n == 0:
		return prefix + "=0"
	case n == 1:
		return prefix + "=1"
	case n <= 5:
		return prefix + "=2-5"
	case n <= 20:
		return prefix + "=6-20"
	case n <= 100:
		return prefix + "=21-100"
	}
	return prefix + ">100"
}

func joinErrs(errs []string) error {
	if len(errs) == 0 {
		return nil
	}
	return fmt.Errorf("%s", strings.Join(errs, "\n"))
}

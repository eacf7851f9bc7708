package props

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"time"

	"ckverif/vk"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/watcher"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"pgregory.net/rapid"
)

type c22Pod struct {
	Cluster string            `json:"cluster"`
	NS      string            `json:"ns"`
	Owner   string            `json:"owner"` // kind of the owner
	Dep     string            `json:"dep"`   // deployment, or name of another owner
	Hash    string            `json:"hash"`
	Suffix  string            `json:"suffix"`
	Labels  map[string]string `json:"labels"`
	Custom  bool              `json:"custom"`
	State   string            `json:"state,omitempty"` // a phase, or terminating
}

type c22Svc struct {
	Cluster  string            `json:"cluster"`
	NS       string            `json:"ns"`
	Name     string            `json:"name"`
	Selector map[string]string `json:"selector"`
	Custom   bool              `json:"custom"`
	Type     string            `json:"type,omitempty"` // or headless
}

type c22Case struct {
	Clusters []string `json:"clusters"`
	Default  string   `json:"default"`
	NSs      []string `json:"nss"`
	Deps     []string `json:"deps"`
	Pods     []c22Pod `json:"pods"`
	Services []c22Svc `json:"services"`
	Many     int      `json:"many,omitempty"`  // further pods and services in every cluster and namespace
	Again    int      `json:"again,omitempty"` // what changed since it was asked before: 1 labels, selectors and owners, 2 objects gone, 4 objects new
}

var c22Long = "a-deployment-with-a-name-that-is-longer-than-a-generated-name-may-be"

var c22Deps = []string{"web", "web-1", "web-10", "my-web", "web-1-2", "w", "a.b", "api", "api-web", "web-5d8", "x-y-z", c22Long, c22Long + "-2"}

func genC22Labels(t *rapid.T, label string, min int) map[string]string {
	m := map[string]string{}
	for i := intIn(t, label, min, 3); i > 0; i-- {
		m[pick(t, label+" key", "app", "tier", "version", "a.b/c")] = pick(t, label+" value", "web", "api", "", "v1", "web-1")
	}
	return m
}

func genC22(t *rapid.T) c22Case {
	c := c22Case{Clusters: subset(t, "clusters", c11Names[:8], 3), NSs: subset(t, "nss", poolNS[1:], 2), Deps: subset(t, "deps", c22Deps, 4)}
	c.Default = pickFrom(t, "default", c.Clusters)
	own := map[string]map[string]string{}
	for i := intIn(t, "pods", 1, 12); i > 0; i-- {
		p := c22Pod{Cluster: pickFrom(t, "cluster", c.Clusters), NS: pickFrom(t, "ns", c.NSs), Dep: pickFrom(t, "dep", c.Deps), Hash: pick(t, "hash", "5d8f7b9c6d", "abc", "6c9"), Suffix: fmt.Sprintf("x%d", i), Custom: chance(t, "custom", 30)}
		p.Owner = pick(t, "owner", "ReplicaSet", "ReplicaSet", "ReplicaSet", "ReplicaSet", "StatefulSet", "Job", "DaemonSet", "none")
		k := p.Cluster + "|" + p.NS + "|" + p.Dep
		if l, ok := own[k]; ok && p.Owner == "ReplicaSet" && chance(t, "same labels", 85) {
			p.Labels = copyMap(l)
		} else {
			p.Labels = genC22Labels(t, "labels", 0)
		}
		if p.Owner == "ReplicaSet" {
			own[k] = p.Labels
		}
		p.State = pick(t, "state", "", "", "Running", "Pending", "Succeeded", "Failed", "terminating")
		c.Pods = append(c.Pods, p)
	}
	for i := intIn(t, "services", 0, 12); i > 0; i-- {
		s := c22Svc{Cluster: pickFrom(t, "cluster", c.Clusters), NS: pickFrom(t, "ns", c.NSs), Name: fmt.Sprintf("svc-%d", i), Custom: chance(t, "custom", 30)}
		s.Type = pick(t, "type", "", "", "ClusterIP", "NodePort", "LoadBalancer", "ExternalName", "headless")
		switch intIn(t, "selector", 0, 4) {
		case 0: // none, left out or written as {}
			if chance(t, "written", 50) {
				s.Selector = map[string]string{}
			}
		case 1:
			s.Selector = genC22Labels(t, "selector", 1)
		default: // from a pod's labels, so that it matches
			l := pickFrom(t, "of", c.Pods).Labels
			keys := []string{}
			for k := range l {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				if chance(t, "take "+k, 70) {
					if s.Selector == nil {
						s.Selector = map[string]string{}
					}
					s.Selector[k] = l[k]
				}
			}
			if s.Selector != nil && chance(t, "one more", 25) {
				s.Selector[pick(t, "more", "app", "tier", "absent")] = pick(t, "more value", "web", "other", "")
			}
		}
		c.Services = append(c.Services, s)
	}
	c.Again = genAgain(t)
	c.Many = genMany(t, 2, 600)
	return c
}

// crowd is the case with its further pods, of a deployment each twenty, and services.
func (c c22Case) crowd() c22Case {
	c.Pods, c.Services = append([]c22Pod{}, c.Pods...), append([]c22Svc{}, c.Services...)
	for i := 0; i < c.Many; i++ {
		dep := fmt.Sprintf("%s-crowd-%d", pickOf(i, "a", "z", "web"), i/20)
		cl, ns := c.Clusters[i/5%len(c.Clusters)], c.NSs[i/3%len(c.NSs)]
		c.Pods = append(c.Pods, c22Pod{Cluster: cl, NS: ns, Owner: "ReplicaSet", Dep: dep, Hash: "6c9", Suffix: fmt.Sprintf("y%d", i), Labels: map[string]string{"app": dep}})
		c.Services = append(c.Services, c22Svc{Cluster: cl, NS: ns, Name: fmt.Sprintf("%s-svc-%d", pickOf(i, "a", "z", "s"), i), Selector: map[string]string{"app": dep}})
	}
	if c.Many > 0 {
		c.Deps = append([]string{"a-crowd-0", "z-crowd-1"}, c.Deps...)
	}
	return c
}

func pickOf(i int, of ...string) string { return of[i%len(of)] }

// earlier is what was cached before the changes.
func (c c22Case) earlier() (e c22Case) {
	e, e.Pods, e.Services = c, nil, nil
	gone := []c22Pod{}
	for i, p := range c.Pods {
		if c.Again&4 != 0 && i%3 == 1 {
			continue
		}
		if from := c.Pods[(i+1)%len(c.Pods)]; c.Again&1 != 0 && i%3 == 0 {
			p.Labels = from.Labels
			if p.Owner != "ReplicaSet" {
				p.Labels = map[string]string{"app": "old"}
			}
		}
		e.Pods = append(e.Pods, p)
		if p.Suffix = "g" + p.Suffix; c.Again&2 != 0 && i%4 == 0 {
			gone = append(gone, p)
		}
	}
	e.Pods = append(e.Pods, gone...)
	left := []c22Svc{}
	for i, v := range c.Services {
		if c.Again&4 != 0 && i%3 == 2 {
			continue
		}
		if from := c.Services[(i+1)%len(c.Services)]; c.Again&1 != 0 && i%3 == 0 {
			v.Selector = from.Selector
		}
		e.Services = append(e.Services, v)
		if v.Name += "-gone"; c.Again&2 != 0 && i%4 == 1 {
			left = append(left, v)
		}
	}
	e.Services = append(e.Services, left...)
	return e
}

// become changes a store from what was cached earlier to what is cached now.
func (c c22Case) become(s store.Store) {
	was, now := map[string]interface{}{}, map[string]bool{}
	each := func(c c22Case, do func(g GVR, cluster, key string, o interface{})) {
		for _, p := range c.Pods {
			o := p.build()
			do(gvrPods, p.Cluster, p.Cluster+"|"+objID(o), o)
		}
		for _, v := range c.Services {
			o := v.build()
			do(gvrServices, v.Cluster, v.Cluster+"|"+objID(o)+"|svc", o)
		}
	}
	if c.Again != 0 {
		each(c.earlier(), func(_ GVR, _, key string, o interface{}) { was[key] = o })
	}
	each(c, func(g GVR, cluster, key string, o interface{}) {
		now[key] = true
		if old, ok := was[key]; !ok {
			_ = s.OnResourceAdded(g, cluster, o)
		} else if !reflect.DeepEqual(old, o) {
			_ = s.OnResourceModified(g, cluster, o)
		}
	})
	if c.Again != 0 {
		each(c.earlier(), func(g GVR, cluster, key string, o interface{}) {
			if !now[key] {
				_ = s.OnResourceDeleted(g, cluster, o)
			}
		})
	}
}

func (p c22Pod) build() interface{} {
	base := p.Dep
	var owners []metav1.OwnerReference
	switch p.Owner {
	case "ReplicaSet":
		base = p.Dep + "-" + p.Hash
		owners = []metav1.OwnerReference{{APIVersion: "apps/v1", Kind: "ReplicaSet", Name: base, UID: "u"}}
	case "none":
	default:
		owners = []metav1.OwnerReference{{APIVersion: "apps/v1", Kind: p.Owner, Name: base, UID: "u"}}
	}
	// the API server cuts the base of a generated name at 58 characters
	base += "-"
	if len(base) > 58 {
		base = base[:58]
	}
	pod := &corev1.Pod{TypeMeta: metav1.TypeMeta{Kind: "Pod", APIVersion: "v1"}, ObjectMeta: metav1.ObjectMeta{Namespace: p.NS, Name: base + p.Suffix, Labels: copyMap(p.Labels), OwnerReferences: owners}}
	switch p.State {
	case "terminating":
		pod.DeletionTimestamp = &metav1.Time{Time: time.Date(2024, 5, 6, 7, 8, 9, 0, time.UTC)}
	default:
		pod.Status.Phase = corev1.PodPhase(p.State)
	}
	if p.Custom {
		return asCustom(pod)
	}
	return pod
}

// asCustom is the object as the watcher decodes a kind it does not know.
func asCustom(o interface{}) interface{} {
	b, err := json.Marshal(o)
	if err != nil {
		panic(err)
	}
	c := &watcher.ObjType{}
	if err := json.Unmarshal(b, c); err != nil {
		panic(err)
	}
	return c
}

func (s c22Svc) build() interface{} {
	svc := &corev1.Service{TypeMeta: metav1.TypeMeta{Kind: "Service", APIVersion: "v1"}, ObjectMeta: metav1.ObjectMeta{Namespace: s.NS, Name: s.Name}, Spec: corev1.ServiceSpec{Selector: copyMap(s.Selector), ClusterIP: "10.0.0.1"}}
	if s.Selector != nil && svc.Spec.Selector == nil {
		svc.Spec.Selector = map[string]string{}
	}
	switch s.Type {
	case "headless":
		svc.Spec.ClusterIP = "None"
	default:
		svc.Spec.Type = corev1.ServiceType(s.Type)
	}
	if s.Custom {
		c := asCustom(svc).(*watcher.ObjType)
		if s.Selector != nil && len(s.Selector) == 0 {
			c.Data["spec"].(map[string]interface{})["selector"] = map[string]interface{}{}
		}
		return c
	}
	return svc
}

func selects(sel, labels map[string]string) bool {
	if len(sel) == 0 {
		return false
	}
	for k, v := range sel {
		if w, ok := labels[k]; !ok || w != v {
			return false
		}
	}
	return true
}

func checkC22(_ *vk.Env, c c22Case) error {
	c = c.crowd()
	s := newStore(map[GVR]map[string]string{gvrPods: baseIndex(), gvrServices: baseIndex()})
	h := router(common.Config{DefaultCluster: c.Default, Proxies: []common.Proxy{proxyConf(gvrPods, "PodList", baseIndex()), proxyConf(gvrServices, "ServiceList", baseIndex())}}, s, nil)
	if c.Again != 0 {
		e := c.earlier()
		e.Again = 0
		e.become(s)
		if err := c22All(e, h); err != nil {
			return err
		}
	}
	c.become(s)
	return c22All(c, h)
}

func c22All(c c22Case, h http.Handler) error {
	for _, cl := range append([]string{""}, c.Clusters...) {
		for _, ns := range append([]string{"absent"}, c.NSs...) {
			for _, dep := range append([]string{"nothing", "we"}, c.Deps...) {
				if strings.Contains(cl, "/") {
					continue // can not be written into a path
				}
				target := "/custom/v1/"
				at := c.Default
				if cl != "" {
					at = cl
					target += "clusters/" + url.PathEscape(cl) + "/"
				}
				target += "namespaces/" + ns + "/deployments/" + dep + "/services"
				if err := c22One(c, do(h, "GET", target, nil, ""), at, ns, dep); err != nil {
					return fmt.Errorf("GET %s: %w", target, err)
				}
			}
		}
	}
	return nil
}

func c22One(c c22Case, r reply, at, ns, dep string) error {
	if r.Code != 200 {
		return fmt.Errorf("status %d: %s", r.Code, r.Body)
	}
	var got []corev1.Service
	if err := json.Unmarshal(r.Body, &got); err != nil || got == nil {
		return fmt.Errorf("not a list of services: %s (%v)", r.Body, err)
	}
	pods := []c22Pod{}
	for _, p := range c.Pods {
		if p.Cluster == at && p.NS == ns && p.Owner == "ReplicaSet" && p.Dep == dep {
			pods = append(pods, p)
		}
	}
	byName := map[string]c22Svc{}
	must, may := map[string]bool{}, map[string]bool{}
	for _, v := range c.Services {
		if v.Cluster != at || v.NS != ns {
			continue
		}
		byName[v.Name] = v
		all := len(pods) > 0
		for _, p := range pods {
			if selects(v.Selector, p.Labels) {
				may[v.Name] = true
			} else {
				all = false
			}
		}
		must[v.Name] = all
	}
	seen := map[string]bool{}
	for _, g := range got {
		if seen[g.Name] {
			return fmt.Errorf("service %s is listed twice", g.Name)
		}
		seen[g.Name] = true
		v, ok := byName[g.Name]
		if !ok || g.Namespace != ns || g.Annotations[ClusterAnno] != at {
			return fmt.Errorf("service %s/%s of cluster %q is not one of this namespace and cluster", g.Namespace, g.Name, g.Annotations[ClusterAnno])
		}
		if !may[g.Name] {
			return fmt.Errorf("service %s with selector %v does not select the pods of %s", g.Name, v.Selector, dep)
		}
		if !eqMaps(g.Spec.Selector, v.Selector) || (g.Spec.ClusterIP != "10.0.0.1") != (v.Type == "headless") {
			return fmt.Errorf("service %s is not what is cached: %s", g.Name, short(g))
		}
	}
	for n, m := range must {
		if m && !seen[n] {
			return fmt.Errorf("service %s with selector %v selects the pods of %s but is missing from %s", n, byName[n].Selector, dep, r.Body)
		}
	}
	return nil
}

func eqMaps(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

func classifyC22(c c22Case) (bool, []string) {
	match, mixed := 0, false
	type dk struct{ c, n, d string }
	labels := map[dk]map[string]string{}
	for _, p := range c.Pods {
		if p.Owner != "ReplicaSet" {
			continue
		}
		k := dk{p.Cluster, p.NS, p.Dep}
		if l, ok := labels[k]; ok && !eqMaps(l, p.Labels) {
			mixed = true
		}
		labels[k] = p.Labels
	}
	for _, s := range c.Services {
		for k, l := range labels {
			if k.c == s.Cluster && k.n == s.NS && selects(s.Selector, l) {
				match++
			}
		}
	}
	out := []string{sizeClass("pods", len(c.Pods)), sizeClass("services", len(c.Services)), sizeClass("matches", match), fmt.Sprintf("clusters=%d", len(c.Clusters))}
	if mixed {
		out = append(out, "pods of one deployment differ")
	}
	for _, d := range c.Deps {
		if len(d) > 58 {
			out = append(out, "long name")
			break
		}
	}
	return match > 0 && len(c.Services) > 1, out
}

func init() {
	vk.Register(&vk.Property{
		ID: "C22",
		Setup: func(*vk.Env) error {
			quietStdout()
			return nil
		},
		Parts: []*vk.Part{vk.New(vk.Part{
			Name:  "services",
			Rule:  "1-12 (sometimes some hundred more) pods of deployments with similar or long names and of other owners, in every phase or terminating, with 0-3 labels, and 0-12 services of every type whose selectors are drawn from the pods' labels or at random, over 1-3 clusters and 1-2 namespaces; the services of every deployment, and of two that do not exist, are asked for in every namespace and cluster and without a cluster, in some cases also before other pods and services became these; non-trivial when some but not all services match",
			Quick: 8000, Thorough: 250000,
		}, vk.Def[c22Case]{Gen: genC22, Check: checkC22, Classify: classifyC22, Fixed: c22Fixed})},
		Assumptions: []string{"pods and ReplicaSets are named as their controllers name them", "a service that selects some but not all pods of a deployment (during a rollout) may be in the answer or not", "an API server never sends an empty selector, it leaves it out"},
	})
}

var c22Fixed = []c22Case{
	{ // pods of my-web used to count as pods of web
		Clusters: []string{"c1"}, Default: "c1", NSs: []string{"a"}, Deps: []string{"web", "my-web"},
		Pods:     []c22Pod{{Cluster: "c1", NS: "a", Owner: "ReplicaSet", Dep: "my-web", Hash: "abc", Suffix: "x1", Labels: map[string]string{"app": "mine"}}, {Cluster: "c1", NS: "a", Owner: "ReplicaSet", Dep: "web", Hash: "abc", Suffix: "x2", Labels: map[string]string{"app": "web"}}},
		Services: []c22Svc{{Cluster: "c1", NS: "a", Name: "svc-1", Selector: map[string]string{"app": "web"}}, {Cluster: "c1", NS: "a", Name: "svc-2", Selector: map[string]string{"app": "mine"}}},
	},
	{ // the name of a pod holds only the start of a long name
		Clusters: []string{"c1"}, Default: "c1", NSs: []string{"a"}, Deps: []string{c22Long},
		Pods:     []c22Pod{{Cluster: "c1", NS: "a", Owner: "ReplicaSet", Dep: c22Long, Hash: "abc", Suffix: "x1", Labels: map[string]string{"app": "web"}}},
		Services: []c22Svc{{Cluster: "c1", NS: "a", Name: "svc-1", Selector: map[string]string{"app": "web"}}},
	},
}

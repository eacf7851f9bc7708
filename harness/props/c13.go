package props

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"strings"

	"ckverif/vk"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/page"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/types"
	"k8s.io/client-go/dynamic"
	"k8s.io/client-go/kubernetes"
	"k8s.io/client-go/rest"
	"pgregory.net/rapid"
)

// handlerTransport lets a client library talk to a handler in this process.
type handlerTransport struct{ h http.Handler }

func (t handlerTransport) RoundTrip(req *http.Request) (*http.Response, error) {
	body := []byte(nil)
	if req.Body != nil {
		b, err := io.ReadAll(req.Body)
		if err != nil {
			return nil, err
		}
		_ = req.Body.Close()
		body = b
	}
	in := httptest.NewRequest(req.Method, "http://ckube.test/", bytes.NewReader(body))
	u, err := url.ParseRequestURI(req.URL.RequestURI())
	if err != nil {
		return nil, err
	}
	in.URL, in.RequestURI, in.Header = u, req.URL.RequestURI(), req.Header.Clone()
	rec := httptest.NewRecorder()
	t.h.ServeHTTP(rec, in.WithContext(req.Context()))
	r := rec.Result()
	r.Request = req
	return r, nil
}

func handlerConfig(h http.Handler) *rest.Config {
	return &rest.Config{Host: "http://ckube.test", Transport: handlerTransport{h}, QPS: -1}
}

type c13Case struct {
	Op       string            `json:"op"`
	Client   string            `json:"client"` // typed, dynamic
	Wrap     bool              `json:"wrap,omitempty"`
	Cluster  string            `json:"cluster"`
	Clusters []string          `json:"clusters"`
	Default  string            `json:"default"`
	NS       string            `json:"ns"`
	Name     string            `json:"name"`
	Cached   bool              `json:"cached,omitempty"`
	Sub      string            `json:"sub,omitempty"`
	DryRun   []string          `json:"dryRun,omitempty"`
	Manager  string            `json:"manager,omitempty"`
	RV       string            `json:"rv,omitempty"`
	Force    *bool             `json:"force,omitempty"`
	Patch    string            `json:"patch,omitempty"`
	Body     map[string]string `json:"body,omitempty"`
	Grace    *int64            `json:"grace,omitempty"`
	UID      string            `json:"uid,omitempty"`
	Policy   string            `json:"policy,omitempty"`
	Orphan   *bool             `json:"orphan,omitempty"`
	Labels   string            `json:"labels,omitempty"`
	Fields   string            `json:"fields,omitempty"`
	Objs     []SObj            `json:"objs,omitempty"`
	Late     bool              `json:"late,omitempty"` // dryRun is asked for after the cluster was written into the options
}

func genC13(t *rapid.T) c13Case {
	c := c13Case{Op: pick(t, "op", "get", "create", "update", "patch", "delete", "delete", "deletecollection"), Client: pick(t, "client", "typed", "dynamic"), Wrap: chance(t, "wrap", 75), Cached: chance(t, "cached", 50)}
	for i := intIn(t, "clusters", 1, 3); i > 0; i-- {
		if n := pickFrom(t, "cluster", c11Names); !contains(c.Clusters, n) {
			c.Clusters = append(c.Clusters, n)
		}
	}
	c.Default, c.Cluster = pickFrom(t, "default", c.Clusters), pickFrom(t, "addressed", c.Clusters)
	c.NS, c.Name = pick(t, "ns", "a", "default"), pick(t, "name", "web", "web-1", "x.y")
	c.Sub = pick(t, "sub", "", "", "", "status", "scale")
	if c.Client == "typed" && c.Op != "patch" {
		c.Sub = ""
	}
	c.Body = map[string]string{"k": genText(t), "n": pick(t, "v", "", "12345678901234567890", "<&>")}
	if chance(t, "dry run", 35) {
		c.DryRun = []string{"All"}
		c.Late = chance(t, "late", 50)
	}
	c.Manager = pick(t, "manager", "", "", "", "kubectl", "my manager/ü", "cluster")
	c.RV = pick(t, "rv", "", "", "", "0", "12345")
	if chance(t, "force", 40) {
		b := rapid.Bool().Draw(t, "forced")
		c.Force = &b
	}
	c.Patch = pick(t, "patch type", string(types.JSONPatchType), string(types.MergePatchType), string(types.StrategicMergePatchType), string(types.ApplyPatchType))
	if chance(t, "grace", 50) {
		g := pick[int64](t, "seconds", 0, 1, 30, 1<<40)
		c.Grace = &g
	}
	c.UID = pick(t, "uid", "", "", "u-1")
	c.Policy = pick(t, "policy", "", "Foreground", "Background", "Orphan")
	if chance(t, "orphan", 25) {
		b := rapid.Bool().Draw(t, "orphaned")
		c.Orphan = &b
	}
	if chance(t, "labels", 50) {
		c.Labels = genLabelSelector(t, 2)
	}
	c.Fields = pick(t, "fields", "", "metadata.name=web", "status.phase!=Running")
	c.Objs = genSObjs(t, 0, 5, c.Clusters, []string{"a", "default"}, genIndexValue)
	return c
}

// effective drops the options whose carrier the wrapper uses.
func (c c13Case) effective() c13Case {
	if c.Wrap {
		switch c.Op {
		case "get":
			c.RV = ""
		case "create", "update", "patch":
			c.Manager = ""
		default:
			if !c.Late {
				c.DryRun = nil
			}
		}
	}
	return c
}

func (c c13Case) deleteOptions() metav1.DeleteOptions {
	o := metav1.DeleteOptions{DryRun: c.DryRun, GracePeriodSeconds: c.Grace, OrphanDependents: c.Orphan}
	if c.UID != "" {
		u := types.UID(c.UID)
		o.Preconditions = &metav1.Preconditions{UID: &u}
	}
	if c.Policy != "" {
		p := metav1.DeletionPropagation(c.Policy)
		o.PropagationPolicy = &p
	}
	return o
}

// perform carries out the operation with a client and returns the name of the object it answered with.
func (c c13Case) perform(cfg *rest.Config, wrap bool) (string, error) {
	ctx := context.Background()
	var err error
	get, create, update, patch, del := metav1.GetOptions{ResourceVersion: c.RV}, metav1.CreateOptions{DryRun: c.DryRun, FieldManager: c.Manager}, metav1.UpdateOptions{DryRun: c.DryRun, FieldManager: c.Manager}, metav1.PatchOptions{DryRun: c.DryRun, FieldManager: c.Manager, Force: c.Force}, c.deleteOptions()
	if wrap {
		switch c.Op {
		case "get":
			get, err = page.QueryGetOptions(get, c.Cluster)
		case "create":
			create, err = page.QueryCreateOptions(create, c.Cluster)
		case "update":
			update, err = page.QueryUpdateOptions(update, c.Cluster)
		case "patch":
			patch, err = page.QueryPatchOptions(patch, c.Cluster)
		default:
			if c.Late {
				del.DryRun = nil
			}
			del, err = page.QueryDeleteOptions(del, c.Cluster)
			if c.Late {
				del.DryRun = append(del.DryRun, c.DryRun...)
			}
		}
		if err != nil {
			return "", fmt.Errorf("wrapping: %v", err)
		}
	}
	list := metav1.ListOptions{LabelSelector: c.Labels, FieldSelector: c.Fields}
	pb := []byte(`{"metadata":{"labels":{"a":"b"}}}`)
	if c.Patch == string(types.JSONPatchType) {
		pb = []byte(`[{"op":"remove","path":"/metadata/labels/a"}]`)
	}
	subs := []string{}
	if c.Sub != "" {
		subs = append(subs, c.Sub)
	}
	if c.Client == "typed" {
		cs, err := kubernetes.NewForConfig(cfg)
		if err != nil {
			return "", err
		}
		cm := &corev1.ConfigMap{ObjectMeta: metav1.ObjectMeta{Name: c.Name, Namespace: c.NS}, Data: c.Body}
		pod := &corev1.Pod{ObjectMeta: metav1.ObjectMeta{Name: c.Name, Namespace: c.NS, Annotations: c.Body}}
		cms, pods := cs.CoreV1().ConfigMaps(c.NS), cs.CoreV1().Pods(c.NS)
		var r metav1.Object
		switch c.Op + fmt.Sprint(c.Cached) {
		case "getfalse":
			r, err = cms.Get(ctx, c.Name, get)
		case "gettrue":
			r, err = pods.Get(ctx, c.Name, get)
		case "createfalse":
			r, err = cms.Create(ctx, cm, create)
		case "createtrue":
			r, err = pods.Create(ctx, pod, create)
		case "updatefalse":
			r, err = cms.Update(ctx, cm, update)
		case "updatetrue":
			r, err = pods.Update(ctx, pod, update)
		case "patchfalse":
			r, err = cms.Patch(ctx, c.Name, types.PatchType(c.Patch), pb, patch, subs...)
		case "patchtrue":
			r, err = pods.Patch(ctx, c.Name, types.PatchType(c.Patch), pb, patch, subs...)
		case "deletefalse":
			return "", cms.Delete(ctx, c.Name, del)
		case "deletetrue":
			return "", pods.Delete(ctx, c.Name, del)
		case "deletecollectionfalse":
			return "", cms.DeleteCollection(ctx, del, list)
		case "deletecollectiontrue":
			return "", pods.DeleteCollection(ctx, del, list)
		}
		if err != nil {
			return "", err
		}
		return r.GetName() + "@" + r.GetAnnotations()["answered-by"], nil
	}
	dc, err := dynamic.NewForConfig(cfg)
	if err != nil {
		return "", err
	}
	gvr := schema.GroupVersionResource{Group: "other.io", Version: "v1", Resource: "gadgets"}
	if c.Cached {
		gvr = schema.GroupVersionResource{Group: "example.io", Version: "v1", Resource: "widgets"}
	}
	spec := map[string]interface{}{}
	for k, v := range c.Body {
		spec[k] = v
	}
	u := &unstructured.Unstructured{Object: map[string]interface{}{"apiVersion": gvr.Group + "/v1", "kind": "Widget", "metadata": map[string]interface{}{"name": c.Name, "namespace": c.NS}, "spec": spec}}
	api := dc.Resource(gvr).Namespace(c.NS)
	var r *unstructured.Unstructured
	switch c.Op {
	case "get":
		r, err = api.Get(ctx, c.Name, get, subs...)
	case "create":
		r, err = api.Create(ctx, u, create, subs...)
	case "update":
		r, err = api.Update(ctx, u, update, subs...)
	case "patch":
		r, err = api.Patch(ctx, c.Name, types.PatchType(c.Patch), pb, patch, subs...)
	case "delete":
		return "", api.Delete(ctx, c.Name, del, subs...)
	default:
		return "", api.DeleteCollection(ctx, del, list)
	}
	if err != nil {
		return "", err
	}
	return r.GetName() + "@" + r.GetAnnotations()["answered-by"], nil
}

func checkC13(_ *vk.Env, c c13Case) error {
	if err := refusal(c); err != nil {
		return err
	}
	c = c.effective()
	index := searchIndex()
	s := newStore(map[GVR]map[string]string{gvrPods: index, gvrWidgets: index})
	for _, o := range c.Objs {
		_ = s.OnResourceAdded(gvrPods, o.Cluster, o.buildAny(false))
		_ = s.OnResourceAdded(gvrWidgets, o.Cluster, o.buildAny(true))
	}
	answer := func(r upReq) (int, http.Header, io.ReadCloser) {
		kind, version := "Widget", "example.io/v1"
		if strings.HasPrefix(r.Path, "/api/") {
			kind, version = "ConfigMap", "v1"
			if strings.Contains(r.Path, "/pods") {
				kind = "Pod"
			}
		}
		b, _ := json.Marshal(map[string]interface{}{"kind": kind, "apiVersion": version, "metadata": map[string]interface{}{"name": c.Name, "namespace": c.NS, "annotations": map[string]string{"answered-by": r.Cluster}}})
		return 200, jsonHeader(), bodyOf(string(b))
	}
	up, direct := &upstream{answer: answer}, &upstream{answer: answer}
	h := router(common.Config{Proxies: []common.Proxy{proxyConf(gvrPods, "PodList", index), proxyConf(gvrWidgets, "WidgetList", index)}, DefaultCluster: c.Default}, s, up.clients(c.Clusters...))
	addressed := c.Default
	if c.Wrap {
		addressed = c.Cluster
	}
	want, err := c.perform(&rest.Config{Host: "http://upstream.test", Transport: upTransport{direct, addressed}, QPS: -1}, false)
	if err != nil {
		return fmt.Errorf("directly: %v", err)
	}
	wanted := direct.taken()
	if len(wanted) != 1 {
		return fmt.Errorf("directly: %d requests", len(wanted))
	}
	got, err := c.perform(handlerConfig(h), c.Wrap)
	sent := up.taken()
	what := fmt.Sprintf("%s for %q", c.Op, addressed)
	if c.Op == "get" && c.Cached && c.RV == "" && c.Sub == "" { // the cache answers
		if len(sent) != 0 {
			return fmt.Errorf("%s was sent: %s", what, short(sent))
		}
		exists := false
		for _, o := range c.Objs {
			exists = exists || (o.Cluster == addressed && o.NS == c.NS && o.Name == c.Name)
		}
		if exists != (err == nil) {
			return fmt.Errorf("%s: cached %v, answer %q, %v", what, exists, got, err)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	if len(sent) != 1 || sent[0].Cluster != addressed {
		return fmt.Errorf("%s: reached %s", what, short(sent))
	}
	if got != want {
		return fmt.Errorf("%s is answered with %q, want %q", what, got, want)
	}
	w, g := wanted[0], sent[0]
	if w.Method != g.Method || w.Path != g.Path {
		return fmt.Errorf("%s: sent %s %s, want %s %s", what, g.Method, g.Path, w.Method, w.Path)
	}
	wq, _ := url.ParseQuery(w.Query)
	gq, err := url.ParseQuery(g.Query)
	if err != nil {
		return err
	}
	gq.Del("timeout")
	if wl, gl := wq.Get("labelSelector"), gq.Get("labelSelector"); wl != "" && gl != "" {
		if err := sameSelection(gl, wl); err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		wq.Del("labelSelector")
		gq.Del("labelSelector")
	}
	if wq.Encode() != gq.Encode() {
		return fmt.Errorf("%s: sent with %q, want %q", what, gq.Encode(), wq.Encode())
	}
	if g.Method == "DELETE" {
		var wb, gb metav1.DeleteOptions
		if err := json.Unmarshal([]byte(w.Body), &wb); err != nil {
			return fmt.Errorf("directly: %v", err)
		}
		if err := json.Unmarshal([]byte(g.Body), &gb); err != nil {
			return fmt.Errorf("%s: options %q: %v", what, g.Body, err)
		}
		if len(wb.DryRun) == 0 && len(gb.DryRun) == 0 {
			wb.DryRun, gb.DryRun = nil, nil
		}
		if !reflect.DeepEqual(wb, gb) {
			return fmt.Errorf("%s: sent the options %s, want %s", what, g.Body, w.Body)
		}
	} else if w.Body != g.Body {
		return fmt.Errorf("%s: sent the body %.400q, want %.400q", what, g.Body, w.Body)
	}
	if ct := w.Header.Get("Content-Type"); g.Method == "PATCH" && ct != g.Header.Get("Content-Type") {
		return fmt.Errorf("%s: sent a patch of type %q, want %q", what, g.Header.Get("Content-Type"), ct)
	}
	if strings.Contains(g.Query+g.Body, "dsm-cluster-") && !strings.Contains(w.Query+w.Body, "dsm-cluster-") {
		return fmt.Errorf("%s: the cluster marker was sent: %q %q", what, g.Query, g.Body)
	}
	return nil
}

// refusal checks that options whose carrier is in use can not be wrapped.
func refusal(c c13Case) error {
	check := func(kind string, inUse bool, before, after interface{}, err error) error {
		if inUse && err == nil {
			return fmt.Errorf("%s options %s are wrapped over the field they use: %s", kind, short(before), short(after))
		}
		if inUse && !reflect.DeepEqual(before, after) {
			return fmt.Errorf("%s options %s are refused and changed to %s", kind, short(before), short(after))
		}
		if !inUse && err != nil {
			return fmt.Errorf("%s options %s: %v", kind, short(before), err)
		}
		return nil
	}
	g := metav1.GetOptions{ResourceVersion: c.RV}
	g2, err := page.QueryGetOptions(g, c.Cluster)
	if err := check("get", c.RV != "", g, g2, err); err != nil {
		return err
	}
	cr := metav1.CreateOptions{FieldManager: c.Manager, DryRun: c.DryRun}
	cr2, err := page.QueryCreateOptions(cr, c.Cluster)
	if err := check("create", c.Manager != "", cr, cr2, err); err != nil {
		return err
	}
	u := metav1.UpdateOptions{FieldManager: c.Manager, DryRun: c.DryRun}
	u2, err := page.QueryUpdateOptions(u, c.Cluster)
	if err := check("update", c.Manager != "", u, u2, err); err != nil {
		return err
	}
	p := metav1.PatchOptions{FieldManager: c.Manager, DryRun: c.DryRun, Force: c.Force}
	p2, err := page.QueryPatchOptions(p, c.Cluster)
	if err := check("patch", c.Manager != "", p, p2, err); err != nil {
		return err
	}
	d := c.deleteOptions()
	d2, err := page.QueryDeleteOptions(d, c.Cluster)
	return check("delete", len(c.DryRun) > 0, d, d2, err)
}

func classifyC13(c c13Case) (bool, []string) {
	l := []string{c.Op}
	if c.Wrap {
		l = append(l, "wrapped")
		if c.Cluster != c.Default {
			l = append(l, "for another cluster")
		}
	}
	e := c.effective()
	nt := c.Wrap || e.Manager != "" || len(e.DryRun) > 0 || e.RV != ""
	if c.Op == "delete" || c.Op == "deletecollection" {
		nt = nt || c.Grace != nil || c.Policy != "" || c.UID != ""
	}
	return nt, l
}

func init() {
	zero := int64(0)
	fixed := []c13Case{}
	for _, op := range []string{"delete", "deletecollection"} {
		for _, cl := range []string{"typed", "dynamic"} {
			fixed = append(fixed, c13Case{Op: op, Client: cl, Clusters: []string{"c1", "c2"}, Default: "c1", Cluster: "c2", NS: "a", Name: "web", DryRun: []string{"All"}, Grace: &zero, Policy: "Foreground", UID: "u-1"})
		}
	}
	vk.Register(&vk.Property{
		ID:    "C13",
		Setup: func(*vk.Env) error { quietStdout(); return nil },
		Parts: []*vk.Part{vk.New(vk.Part{
			Name:  "options",
			Rule:  "a get, create, update, patch, delete or collection delete with any options through the typed or the dynamic client library, wrapped for one of 1-3 clusters or not, against the proxy; the request that reaches a cluster is compared with the one the same library sends for the unwrapped options directly, and wrapping options that use the carrier field must fail and change nothing; non-trivial when wrapped or with options",
			Quick: 9000, Thorough: 250000,
		}, vk.Def[c13Case]{Gen: genC13, Check: checkC13, Classify: classifyC13, Fixed: fixed})},
		Assumptions: []string{"the timeout parameter is set by the proxy itself", "API servers accept JSON without a Content-Type header, except for patches"},
	})
}

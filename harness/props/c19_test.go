//go:build go1.25

package props

import (
	"encoding/json"
	"fmt"
	"strings"
	"testing/synctest"
	"time"

	"ckverif/vk"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/watcher"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/client-go/kubernetes/scheme"
	"pgregory.net/rapid"
)

type c19Resource struct {
	GVR  GVR    `json:"gvr"`
	Kind string `json:"kind"`
	// documents for every cluster, by number of the cluster
	Docs [][]interface{} `json:"docs"`
}

type c19Case struct {
	Clusters  []string      `json:"clusters"`
	Resources []c19Resource `json:"resources"`
	Piece     int           `json:"piece"`          // bytes sent at a time
	Many      int           `json:"many,omitempty"` // further custom resources
}

var c19BuiltIn = []c19Resource{
	{GVR: gvrPods, Kind: "Pod"}, {GVR: gvrServices, Kind: "Service"}, {GVR: gvrDeploys, Kind: "Deployment"},
	{GVR: GVR{Version: "v1", Resource: "configmaps"}, Kind: "ConfigMap"}, {GVR: GVR{Version: "v1", Resource: "secrets"}, Kind: "Secret"},
	{GVR: GVR{Version: "v1", Resource: "nodes"}, Kind: "Node"}, {GVR: GVR{Version: "v1", Resource: "events"}, Kind: "Event"},
	{GVR: gvrDeploysB, Kind: "Deployment"}, {GVR: GVR{Group: "apps", Version: "v1", Resource: "replicasets"}, Kind: "ReplicaSet"},
	{GVR: GVR{Group: "networking.k8s.io", Version: "v1", Resource: "ingresses"}, Kind: "Ingress"},
	{GVR: GVR{Group: "batch", Version: "v1", Resource: "jobs"}, Kind: "Job"},
}

var c19Kinds = []string{"Widget", "Whitelist", "List", "Playlist", "Pod", "Status", "WatchEvent", "Lists", "S", "Tilt", "ListItem", "Service", "NodeList", "stil", "Deployment", "X"}

func genC19(t *rapid.T) c19Case {
	c := c19Case{Clusters: subset(t, "clusters", c11Names, 3), Piece: pick(t, "piece", 0, 0, 1000, 37, 4096)}
	used := map[GVR]bool{}
	kinds := map[string]bool{}
	for i := intIn(t, "resources", 1, 4); i > 0; i-- {
		var r c19Resource
		if chance(t, "built-in", 40) {
			r = pickFrom(t, "which", c19BuiltIn)
		} else {
			r.Kind = pickFrom(t, "kind", c19Kinds)
			r.GVR = GVR{Group: pick(t, "group", "example.io", "example.io", "other.example.com", "apps", "networking.istio.io"),
				Version:  pick(t, "version", "v1", "v1alpha3", "v2beta1"),
				Resource: pick(t, "plural", strings.ToLower(r.Kind)+"s", strings.ToLower(r.Kind)+"s", strings.ToLower(r.Kind), "things")}
			if r.GVR.Group == "apps" {
				r.Kind += "X" // not one of the built-in kinds
			}
		}
		key := r.GVR.Group + "/" + r.GVR.Version + "/" + r.Kind
		if used[r.GVR] || kinds[key] {
			continue
		}
		used[r.GVR], kinds[key] = true, true
		n := 0
		for range c.Clusters {
			docs := []interface{}{}
			for j := intIn(t, "docs", 0, 3); j > 0; j-- {
				n++
				docs = append(docs, genC19Doc(t, r, fmt.Sprintf("w%d", n)))
			}
			r.Docs = append(r.Docs, docs)
		}
		c.Resources = append(c.Resources, r)
	}
	if chance(t, "many", 2) {
		c.Many = pick(t, "further resources", 10, 30, 60, 130)
	}
	return c
}

// crowd is the case with its further resources.
func (c c19Case) crowd() c19Case {
	c.Resources = append([]c19Resource{}, c.Resources...)
	for i := 0; i < c.Many; i++ {
		r := c19Resource{GVR: GVR{Group: "crowd.example.io", Version: "v1", Resource: fmt.Sprintf("crowd%ds", i)}, Kind: fmt.Sprintf("Crowd%d", i)}
		for j := range c.Clusters {
			r.Docs = append(r.Docs, []interface{}{map[string]interface{}{"apiVersion": "crowd.example.io/v1", "kind": r.Kind,
				"metadata": map[string]interface{}{"name": fmt.Sprintf("c%d", j), "namespace": "a"}, "spec": map[string]interface{}{"n": json.Number(fmt.Sprint(i))}}})
		}
		c.Resources = append(c.Resources, r)
	}
	return c
}

func c19Builtin(r c19Resource) bool {
	return scheme.Scheme.Recognizes(schema.GroupVersionKind{Group: r.GVR.Group, Version: r.GVR.Version, Kind: r.Kind})
}

func genC19Doc(t *rapid.T, r c19Resource, name string) interface{} {
	doc := map[string]interface{}{"apiVersion": apiVersion(r.GVR), "kind": r.Kind, "metadata": genMeta(t, name)}
	if !c19Builtin(r) {
		for j := intIn(t, "top", 0, 4); j > 0; j-- {
			doc[pick(t, "top field", "spec", "status", "data", "Data", "items", "rules", "日", "spec.x", "labels", "name", "size", "type", "object", "message", "code")] = genValue(t, 3)
		}
		return doc
	}
	switch r.Kind {
	case "ConfigMap":
		doc["data"] = genStringMap(t, "data", []string{"a", "b.conf", "日"}, 3)
		doc["binaryData"] = map[string]interface{}{"bin": "AAECAw=="}
	case "Secret":
		doc["data"] = map[string]interface{}{"token": "AAECAw=="}
		doc["type"] = "Opaque"
	case "Service":
		doc["spec"] = map[string]interface{}{"selector": genStringMap(t, "sel", []string{"app", "tier"}, 2), "type": pick(t, "type", "ClusterIP", "NodePort")}
	case "Pod":
		doc["spec"] = map[string]interface{}{"nodeName": genText(t), "nodeSelector": genStringMap(t, "ns", []string{"a", "b"}, 2), "containers": []interface{}{map[string]interface{}{"name": "c", "image": genText(t)}}}
		doc["status"] = map[string]interface{}{"phase": "Running"}
	case "Node":
		doc["spec"] = map[string]interface{}{"podCIDR": "10.0.0.0/24", "unschedulable": true}
	case "Event":
		doc["message"] = genText(t)
		doc["count"] = json.Number(fmt.Sprint(intIn(t, "count", 1, 1000)))
		doc["involvedObject"] = map[string]interface{}{"kind": "Pod", "name": "x"}
	case "Deployment", "ReplicaSet":
		doc["spec"] = map[string]interface{}{"replicas": json.Number(fmt.Sprint(intIn(t, "replicas", 0, 5000))), "minReadySeconds": json.Number("3")}
	}
	return doc
}

func checkC19(_ *vk.Env, c c19Case) error {
	return bubble(func() error { return runC19(c) })
}

func dropType(doc interface{}) interface{} {
	if m, ok := doc.(map[string]interface{}); ok {
		delete(m, "kind")
		delete(m, "apiVersion")
	}
	return doc
}

func runC19(c c19Case) error {
	c = c.crowd()
	conf := map[GVR]map[string]string{}
	cfg := common.Config{}
	gvrs := []GVR{}
	for _, r := range c.Resources {
		conf[r.GVR] = baseIndex()
		gvrs = append(gvrs, r.GVR)
		cfg.Proxies = append(cfg.Proxies, proxyConf(r.GVR, r.Kind+"List", baseIndex()))
	}
	common.InitConfig(&cfg)
	s := newStore(conf)
	sim := newSim(gvrs, c.Clusters)
	w := watcher.NewWatcher(sim.configs(c.Clusters), gvrs, s)
	if err := w.Start(); err != nil {
		return fmt.Errorf("Start: %v", err)
	}
	defer sim.teardown(w.Stop)
	streams := map[*simChan]*simBody{}
	for _, ch := range sim.list() {
		b, err := sim.connect(ch)
		if err != nil {
			return err
		}
		streams[ch] = b
	}
	for _, r := range c.Resources {
		for i, cl := range c.Clusters {
			ch := sim.at(r.GVR, cl)
			for _, doc := range r.Docs[i] {
				line := simLine("ADDED", doc)
				if c.Piece == 0 {
					streams[ch].send(line)
				}
				for c.Piece > 0 && len(line) > 0 {
					n := c.Piece
					if n > len(line) {
						n = len(line)
					}
					streams[ch].send(line[:n])
					line = line[n:]
					synctest.Wait()
				}
			}
		}
	}
	synctest.Wait()
	for _, r := range c.Resources {
		total := 0
		for i, cl := range c.Clusters {
			total += len(r.Docs[i])
			for _, doc := range r.Docs[i] {
				what := fmt.Sprintf("%s %s/%s of %v in %q", r.Kind, metaOf(doc, "namespace"), metaOf(doc, "name"), r.GVR, cl)
				got := s.Get(r.GVR, cl, metaOf(doc, "namespace"), metaOf(doc, "name"))
				if got == nil {
					return fmt.Errorf("%s was announced but is not cached", what)
				}
				if !c19Builtin(r) {
					if err := sameDoc(what, mustJSON(got), wantDoc(doc), cl); err != nil {
						return err
					}
					continue
				}
				// the API server writes the type of an item once per list, and the reference is what its Go type keeps
				obj, err := scheme.Scheme.New(schema.GroupVersionKind{Group: r.GVR.Group, Version: r.GVR.Version, Kind: r.Kind})
				if err != nil {
					return err
				}
				b, _ := json.Marshal(doc)
				if err := json.Unmarshal(b, obj); err != nil {
					return fmt.Errorf("the generated document does not decode: %v", err)
				}
				errTyped := sameDoc(what, dropType(mustJSON(got)), dropType(wantDoc(obj)), cl)
				if errTyped != nil && sameDoc(what, dropType(mustJSON(got)), dropType(wantDoc(doc)), cl) != nil {
					return errTyped
				}
			}
		}
		if res := s.Query(r.GVR, store.Query{}); res.Error != nil || len(res.Items) != total {
			return fmt.Errorf("%v: %d objects are listed (error %v), want %d", r.GVR, len(res.Items), res.Error, total)
		}
	}
	time.Sleep(10 * time.Minute)
	synctest.Wait()
	if err := sim.faultErr(); err != nil {
		return err
	}
	for _, ch := range sim.list() {
		if ch.attempts != 1 || !streams[ch].alive() {
			return fmt.Errorf("%v: %d requests were sent, and the first stream is alive: %v; want one lasting stream", ch, ch.attempts, streams[ch].alive())
		}
	}
	return nil
}

func classifyC19(c c19Case) (bool, []string) {
	labels := []string{fmt.Sprintf("resources=%d", len(c.Resources)), fmt.Sprintf("clusters=%d", len(c.Clusters))}
	docs, custom := 0, false
	for _, r := range c.Resources {
		for _, d := range r.Docs {
			docs += len(d)
		}
		if c19Builtin(r) {
			labels = append(labels, "built-in "+r.Kind)
		} else {
			custom = true
			labels = append(labels, "custom "+r.Kind)
		}
	}
	return docs > 0 && custom, append(labels, sizeClass("docs", docs), sizeClass("further resources", c.Many))
}

func init() {
	vk.Register(&vk.Property{
		ID: "C19",
		Parts: []*vk.Part{vk.New(vk.Part{
			Name:  "kinds",
			Rule:  "1-4 configured resources (11 built-in ones; custom ones with 16 kind names in five groups and three versions), sometimes some dozens more, in 1-3 clusters, 0-3 random documents for each, sent whole or in pieces; every document is compared in the cache, lists are counted, and over ten minutes of virtual time every resource and cluster must keep its one stream; non-trivial when a document of a custom resource is sent",
			Quick: 3000, Thorough: 100000,
		}, vk.Def[c19Case]{Gen: genC19, Check: checkC19, Classify: classifyC19})},
		Assumptions: []string{"the kind of a resource is its configured list kind without the ending List", "no two configured resources of one group and version share a kind",
			"what the Go type of a built-in kind does not keep is not part of its content, nor is the apiVersion and kind of an item of a built-in kind"},
	})
}

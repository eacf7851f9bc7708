package props

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"ckverif/vk"

	"github.com/DaoCloud/ckube/pkg/client/fake"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/client-go/discovery"
	"k8s.io/client-go/kubernetes"
	"k8s.io/client-go/restmapper"
	"pgregory.net/rapid"
)

type c31Proxy struct {
	Group    string `json:"group"`
	Version  string `json:"version"`
	Resource string `json:"resource"`
	Kind     string `json:"kind"`
}

type c31Case struct {
	Proxies []c31Proxy `json:"proxies"`
	File    bool       `json:"file,omitempty"`
	Again   bool       `json:"again,omitempty"` // stopped, and another one started at the address
	Clean   bool       `json:"clean,omitempty"`
}

func genC31(t *rapid.T) c31Case {
	c := c31Case{File: chance(t, "file", 30), Again: chance(t, "again", 25), Clean: chance(t, "clean", 30)}
	seen := map[string]bool{}
	n := intIn(t, "proxies", 0, 8)
	if chance(t, "many", 15) {
		n = intIn(t, "how many", 10, 40)
	}
	for i := n; i > 0; i-- {
		p := c31Proxy{Group: pick(t, "group", "", "", "apps", "apps", "example.io", "a.example.io"), Version: "v1"}
		if p.Group != "" {
			p.Version = pick(t, "version", "v1", "v1", "v2", "v1beta1", "v1alpha1", "v2beta1")
		}
		r := pick(t, "resource", "pods/Pod", "deployments/Deployment", "widgets/Widget", "services/Service", "shortlists/ShortList", "listitems/ListItem")
		p.Resource, p.Kind = strings.Split(r, "/")[0], strings.Split(r, "/")[1]
		if k := p.Group + "/" + p.Version + "/" + p.Resource; !seen[k] {
			seen[k] = true
			c.Proxies = append(c.Proxies, p)
		}
	}
	return c
}

func (p c31Proxy) gv() string { return strings.TrimPrefix(p.Group+"/"+p.Version, "/") }

func checkC31(_ *vk.Env, c c31Case) error {
	addr, release := freeAddr()
	defer release()
	proxies, want, groups := []interface{}{}, []string{}, map[string]bool{}
	for _, p := range c.Proxies {
		proxies = append(proxies, map[string]interface{}{"group": p.Group, "version": p.Version, "resource": p.Resource, "list_kind": p.Kind + "List", "index": map[string]string{"name": "{.metadata.name}"}})
		want = append(want, p.gv()+" "+p.Resource+" "+p.Kind)
		if p.Group != "" {
			groups[p.gv()] = true
		}
	}
	conf, err := json.Marshal(map[string]interface{}{"proxies": proxies})
	must(err)
	start := func() (fake.CkubeServer, error) {
		if !c.File {
			return fake.NewFakeCKubeServer(addr, string(conf))
		}
		dir, err := os.MkdirTemp("", "ckv-c31-")
		must(err)
		defer os.RemoveAll(dir)
		f := filepath.Join(dir, "conf.json")
		must(os.WriteFile(f, conf, 0o600))
		return fake.NewFakeCKubeServerWithConfigPath(addr, f)
	}
	s, err := start()
	if err != nil {
		return fmt.Errorf("starting: %w", err)
	}
	if c.Again {
		s.Stop()
		if s, err = start(); err != nil {
			return fmt.Errorf("starting another one at the address of a stopped one: %w", err)
		}
	}
	defer s.Stop()
	if c.Clean {
		s.Clean()
	}
	kc := s.GetKubeConfig()
	kc.QPS, kc.Burst = 1e6, 1e6
	cli, err := kubernetes.NewForConfig(kc)
	must(err)
	d := cli.Discovery()
	apiGroups, lists, err := d.ServerGroupsAndResources()
	if err != nil {
		return fmt.Errorf("discovery: %w", err)
	}
	got := []string{}
	for _, l := range lists {
		for _, r := range l.APIResources {
			if r.Kind == "" || strings.Contains(r.Name, "/") {
				return fmt.Errorf("%s has the resource %s", l.GroupVersion, short(r))
			}
			for _, v := range []string{"create", "update", "delete", "get", "list", "watch"} {
				if !contains(r.Verbs, v) {
					return fmt.Errorf("%s %s can not be asked to %s", l.GroupVersion, r.Name, v)
				}
			}
			if g := r.Group; g != "" && g != strings.TrimSuffix(l.GroupVersion, "/"+r.Version) {
				return fmt.Errorf("%s has the resource %s", l.GroupVersion, short(r))
			}
			got = append(got, l.GroupVersion+" "+r.Name+" "+r.Kind)
		}
	}
	sort.Strings(got)
	sort.Strings(want)
	if !eqStrings(got, want) {
		return fmt.Errorf("discovery finds %q, configured are %q", got, want)
	}
	for _, g := range apiGroups {
		if g.Name == "" {
			continue
		}
		known := false
		for _, v := range g.Versions {
			if !groups[v.GroupVersion] || v.GroupVersion != g.Name+"/"+v.Version {
				return fmt.Errorf("discovery finds the group version %s, which is not configured", short(v))
			}
			delete(groups, v.GroupVersion)
			known = known || v == g.PreferredVersion
		}
		if !known {
			return fmt.Errorf("the preferred version of %s is %s", g.Name, short(g.PreferredVersion))
		}
	}
	for g := range groups {
		return fmt.Errorf("discovery does not find the group version %s", g)
	}
	// what a dynamic client does with it
	gr, err := restmapper.GetAPIGroupResources(discovery.NewDiscoveryClient(cli.Discovery().RESTClient()))
	if err != nil {
		return fmt.Errorf("discovery: %w", err)
	}
	m := restmapper.NewDiscoveryRESTMapper(gr)
	for _, p := range c.Proxies {
		rm, err := m.RESTMapping(schema.GroupKind{Group: p.Group, Kind: p.Kind}, p.Version)
		if err != nil {
			return fmt.Errorf("the resource of %s %s: %w", p.gv(), p.Kind, err)
		}
		if rm.Resource.Resource != p.Resource || rm.Resource.Group != p.Group || rm.Resource.Version != p.Version {
			return fmt.Errorf("the resource of %s %s is %v", p.gv(), p.Kind, rm.Resource)
		}
		kind, err := m.KindFor(schema.GroupVersionResource{Group: p.Group, Version: p.Version, Resource: p.Resource})
		if err != nil || kind.Kind != p.Kind {
			return fmt.Errorf("the kind of %s %s is %v, %v", p.gv(), p.Resource, kind, err)
		}
	}
	return nil
}

func init() {
	vk.Register(&vk.Property{
		ID:    "C31",
		Setup: func(*vk.Env) error { quietStdout(); return nil },
		Parts: []*vk.Part{vk.New(vk.Part{Name: "configurations", Quick: 300, Thorough: 8000, CaseTimeout: 3 * time.Minute,
			Rule: "fake servers of 0-8 random resources, in one to four groups of one to three versions, from a text or a file, also at the address of a stopped one; client-go's discovery client and the mapper of dynamic clients must find exactly these, with their kinds; non-trivial with two resources of different groups or versions",
		}, vk.Def[c31Case]{Gen: genC31, Check: checkC31, Classify: func(c c31Case) (bool, []string) {
			gvs := map[string]bool{}
			labels := []string{sizeClass("resources", len(c.Proxies))}
			for _, p := range c.Proxies {
				gvs[p.gv()] = true
			}
			if c.Again {
				labels = append(labels, "started again")
			}
			if c.File {
				labels = append(labels, "from a file")
			}
			return len(gvs) > 1, append(labels, sizeClass("group versions", len(gvs)))
		}})},
		Assumptions: []string{"the core group has version v1 only", "whether a resource is namespaced is left open, the configuration does not say"},
	})
}

package props

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"ckverif/vk"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/utils/prommonitor"
	"pgregory.net/rapid"
)

// gaugeText reads the resource gauge from the text of /metrics, as label values (cluster, group, version, resource, namespace) to value.
func gaugeText(text string) (map[[5]string]float64, error) {
	out := map[[5]string]float64{}
	for _, line := range strings.Split(text, "\n") {
		rest, ok := strings.CutPrefix(line, "ckube_resources_total{")
		if !ok {
			continue
		}
		l := map[string]string{}
		for !strings.HasPrefix(rest, "}") {
			name, r, ok := strings.Cut(rest, "=")
			if !ok {
				return nil, fmt.Errorf("metric line %q", line)
			}
			q, err := strconv.QuotedPrefix(r)
			if err != nil {
				return nil, fmt.Errorf("metric line %q", line)
			}
			v, err := strconv.Unquote(q)
			if err != nil {
				return nil, fmt.Errorf("metric line %q", line)
			}
			l[strings.TrimPrefix(name, ",")] = v
			rest = r[len(q):]
		}
		v, err := strconv.ParseFloat(strings.TrimSpace(rest[1:]), 64)
		if err != nil {
			return nil, fmt.Errorf("metric line %q", line)
		}
		k := [5]string{l["cluster"], l["group"], l["version"], l["resource"], l["namespace"]}
		if _, twice := out[k]; twice || len(l) != 5 {
			return nil, fmt.Errorf("metric line %q", line)
		}
		out[k] = v
	}
	return out, nil
}

// sameGauge compares: whatever holds objects is reported, and whatever is reported is right.
func sameGauge(got map[[5]string]float64, want map[[5]string]int) error {
	var errs []string
	for k, n := range want {
		if v, ok := got[k]; !ok && n > 0 {
			errs = append(errs, fmt.Sprintf("%q is not reported, and has %d objects", k, n))
		} else if ok && v != float64(n) {
			errs = append(errs, fmt.Sprintf("%q is reported with %v objects, and has %d", k, v, n))
		}
	}
	for k, v := range got {
		if _, ok := want[k]; !ok && v != 0 {
			errs = append(errs, fmt.Sprintf("%q is reported with %v objects, and has none", k, v))
		}
	}
	sort.Strings(errs)
	return joinErrs(errs)
}

func (m model) gauge() map[[5]string]int {
	out := map[[5]string]int{}
	for k := range m {
		out[[5]string{k.cluster, k.gvr.Group, k.gvr.Version, k.gvr.Resource, k.ns}]++
	}
	return out
}

func checkC27(_ *vk.Env, c c01Case) error {
	prommonitor.Resources.Reset()
	conf := map[GVR]map[string]string{}
	for i, ix := range c.Index {
		conf[c01Resources[i]] = ix
	}
	s := newStore(conf)
	h := router(common.Config{}, s, nil)
	m := model{}
	step := 1 + len(c.Ops)/60
	reported := map[[5]string]bool{}
	for i, op := range c.Ops {
		op.apply(s, m, c01Resources[op.R])
		if i%step != 0 && i != len(c.Ops)-1 {
			continue
		}
		r := do(h, "GET", "/metrics", nil, "")
		if r.Code != 200 {
			return fmt.Errorf("/metrics is answered %d %.300s", r.Code, r.Body)
		}
		got, err := gaugeText(string(r.Body))
		if err != nil {
			return err
		}
		if err := sameGauge(got, m.gauge()); err != nil {
			return fmt.Errorf("after notification %d (%s): %w", i+1, short(op), err)
		}
		for k := range got {
			reported[k] = true
		}
		for k := range reported {
			if _, ok := got[k]; !ok {
				return fmt.Errorf("after notification %d (%s): %q is reported no more", i+1, short(op), k)
			}
		}
	}
	return nil
}

// probeGauge compares what the running program exports with the one object of each resource of each cluster.
func (r *c23Run) probeGauge(conf c23Conf, contexts map[string]int) error {
	_, _, text, err := r.get("/metrics", conf.Token)
	if err != nil {
		return err
	}
	got, err := gaugeText(text)
	if err != nil {
		return err
	}
	want := map[[5]string]int{}
	for _, i := range conf.Resources {
		for n, server := range contexts {
			if server == c23Dead {
				continue
			}
			g := c23Resources[i].gvr
			want[[5]string{n, g.Group, g.Version, g.Resource, "ns"}] = 1
		}
	}
	return sameGauge(got, want)
}

func classifyC27(c c01Case) (bool, []string) {
	n := map[string]int{}
	labels := []string{sizeClass("notifications", len(c.Ops))}
	for _, op := range c.Ops {
		n[op.Op]++
	}
	for k := range n {
		labels = append(labels, k)
	}
	sort.Strings(labels)
	return n["add"]+n["mod"] > 1 && n["del"]+n["clean"] > 0, labels
}

func init() {
	rule := "histories of add, modify, delete and wipe notifications over clusters, namespaces and resources; /metrics is read after each one and every gauge compared with a count of the objects of a map; non-trivial with a removal after several additions"
	edits := vk.NewBatch(vk.Part{Name: "program", Quick: 32, Thorough: 800,
		Rule: "the program is started and its files edited as for C23; after each edit the gauge must settle at one object for each resource of each cluster, and nothing for others; non-trivial with a valid edit",
	}, vk.BatchDef[c23Case]{Gen: genC23, Classify: classifyC23, Shrink: shrinkC23, Size: 8,
		CheckAll: func(e *vk.Env, l []c23Case) []error {
			return side(len(l), func(i int) error { return runC23(e.Tmp, l[i], "gauge") })
		}})
	pod := func(ns, name string) Obj { return Obj{NS: ns, Name: name, V: 1} }
	vk.Register(&vk.Property{
		ID:    "C27",
		Setup: func(*vk.Env) error { quietStdout(); return nil },
		Parts: []*vk.Part{
			vk.New(vk.Part{Name: "histories", Rule: rule, Quick: 3000, Thorough: 100000}, vk.Def[c01Case]{Gen: genC01, Check: checkC27, Classify: classifyC27, Fixed: []c01Case{
				{Index: []map[string]string{baseIndex()}, Ops: []storeOp{{Op: "add", Cluster: "c1", Obj: pod("a", "x")}, {Op: "add", Cluster: "c1", Obj: pod("b", "x")}, {Op: "clean", Cluster: "c1"}, {Op: "add", Cluster: "c1", Obj: pod("a", "y")}}},
			}}),
			vk.New(vk.Part{Name: "bulk", Rule: "the same with up to several hundred objects, /metrics read sixty times", Quick: 200, Thorough: 8000}, vk.Def[c01Case]{Gen: func(t *rapid.T) c01Case { return genC01Bulk(t) }, Check: checkC27, Classify: classifyC27}),
			edits,
		},
		Assumptions: []string{"one notification at a time, as each resource of a cluster has one watcher", "a gauge of nothing may be 0 or missing"},
	})
}

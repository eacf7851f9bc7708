package props

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"ckverif/vk"

	"github.com/DaoCloud/ckube/common"
)

// openStreams counts what is being watched.
type openStreams struct {
	mu sync.Mutex
	n  map[string]int
}

func (o *openStreams) opened(what string) func() {
	o.add(what, 1)
	return func() { o.add(what, -1) }
}

func (o *openStreams) add(what string, n int) {
	o.mu.Lock()
	defer o.mu.Unlock()
	if o.n[what] += n; o.n[what] == 0 {
		delete(o.n, what)
	}
}

// probeStreams compares the open streams with one for each resource of each cluster.
func (r *c23Run) probeStreams(conf c23Conf, contexts map[string]int) error {
	want := map[string]int{}
	for _, i := range conf.Resources {
		for _, server := range contexts {
			if server == c23Dead {
				continue
			}
			want[fmt.Sprintf("server %d %s", server, watchURL(c23Resources[i].gvr))]++
		}
	}
	r.streams.mu.Lock()
	defer r.streams.mu.Unlock()
	keys := []string{}
	for k := range want {
		keys = append(keys, k)
	}
	for k := range r.streams.n {
		if want[k] == 0 {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		if r.streams.n[k] != want[k] {
			return fmt.Errorf("%s is watched by %d streams, and %d clusters have it", k, r.streams.n[k], want[k])
		}
	}
	return nil
}

// reloads reads the counters of reloads.
func (r *c23Run) reloads() (map[string]float64, error) {
	code, _, text, err := r.get("/metrics", "")
	if err != nil {
		return nil, err
	}
	if code != 200 {
		return nil, fmt.Errorf("/metrics is answered %d %.300s", code, text)
	}
	n := map[string]float64{}
	for _, l := range strings.Split(text, "\n") {
		for name, key := range map[string]string{`ckube_reload_config_total{status="success"} `: "success", `ckube_reload_config_total{status="failed"} `: "failed", `up{component="ckube"} `: "up"} {
			if strings.HasPrefix(l, name) {
				if n[key], err = strconv.ParseFloat(strings.TrimPrefix(l, name), 64); err != nil {
					return nil, err
				}
			}
		}
	}
	return n, nil
}

func (r *c23Run) counted(ok bool, before map[string]float64) error {
	key := "failed"
	if ok {
		key = "success"
	}
	end := time.Now().Add(reloadLimit)
	for {
		n, err := r.reloads()
		if err == nil && n["up"] != 1 {
			err = fmt.Errorf("the gauge up is %v", n["up"])
		}
		if err == nil && n[key] > before[key] {
			return nil
		}
		if err == nil {
			err = fmt.Errorf("the reload is not counted as %s: before %v, now %v", key, before, n)
		}
		if time.Now().After(end) {
			return err
		}
		time.Sleep(50 * time.Millisecond)
	}
}

func init() {
	vk.Register(&vk.Property{
		ID: "C32",
		Setup: func(*vk.Env) error {
			if os.Getenv("CKV_BIN") == "" {
				return fmt.Errorf("the programs are not built")
			}
			common.InitConfig(&common.Config{})
			return nil
		},
		Parts: []*vk.Part{vk.NewBatch(vk.Part{
			Name:  "edits",
			Rule:  "the program is started and its files edited as for C23; after the start and after each edit the streams open at the three API servers must settle at exactly one for each configured resource of each cluster, and the reload must be counted as successful or failed; non-trivial with a valid edit",
			Quick: 48, Thorough: 1200,
		}, vk.BatchDef[c23Case]{Gen: genC23, Classify: classifyC23, Shrink: shrinkC23, Size: 8,
			CheckAll: func(e *vk.Env, l []c23Case) []error {
				return side(len(l), func(i int) error { return runC23(e.Tmp, l[i], "streams") })
			}})},
		Assumptions: []string{"as for C23", "soon means within 30 seconds"},
	})
}

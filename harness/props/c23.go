package props

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"ckverif/vk"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/page"
	"pgregory.net/rapid"
	"sigs.k8s.io/yaml"
)

// c23Conf is a valid configuration file.
type c23Conf struct {
	Resources []int          `json:"resources"`           // of c23Resources
	Index     map[int]string `json:"index,omitempty"`     // letters of c23Keys, by resource
	ListKind  map[int]string `json:"list_kind,omitempty"` // instead of the usual one
	Token     string         `json:"token,omitempty"`
	Default   string         `json:"default,omitempty"` // only without a kubeconfig
}

// c23Kube is a valid kubeconfig.
type c23Kube struct {
	Contexts map[string]int    `json:"contexts"` // name to number of the API server
	Current  string            `json:"current"`
	Users    map[string]string `json:"users,omitempty"` // the token of a context's user, none is t
	JSON     bool              `json:"json,omitempty"`
}

type c23Edit struct {
	File   string   `json:"file"`   // config or kube
	Method string   `json:"method"` // overwrite, rename over, remove
	Gap    int      `json:"gap,omitempty"`
	Conf   *c23Conf `json:"conf,omitempty"`
	Kube   *c23Kube `json:"kube,omitempty"`
	Bad    string   `json:"bad,omitempty"`   // kind of invalid content, made of Conf or Kube if there is one
	Quick  bool     `json:"quick,omitempty"` // the next edit follows at once
}

type c23Case struct {
	Mode  string    `json:"mode"`            // flag, home, or env (as in a pod: no kubeconfig file of its own)
	Mount bool      `json:"mount,omitempty"` // the configuration is mounted as a ConfigMap is, and all its edits are made that way
	Even  bool      `json:"even,omitempty"`  // all valid contents have the same size, and the same time unless they are overwritten
	Conf  c23Conf   `json:"conf"`
	Kube  c23Kube   `json:"kube"`
	Edits []c23Edit `json:"edits"`
}

var c23Resources = []struct {
	gvr  GVR
	kind string
}{{gvrPods, "Pod"}, {gvrServices, "Service"}, {gvrDeploys, "Deployment"}, {gvrWidgets, "Widget"}}

var c23Keys = map[string][2]string{
	"s": {"srv", "{.metadata.labels.server}"},
	"n": {"nm", "{.metadata.name}"},
	"k": {"lbl", "{.metadata.labels.kind}"},
}

var c23BadConf = []string{"truncated", "garbage", "list", "number", "wrong type", "token type", "empty", "no version", "trailing", "one without version", "one without resource"}
var c23BadKube = []string{"garbage", "bad base64", "bad server", "wrong type", "one bad server", "one bad server", "one bad base64"}

const c23Servers = 3
const c23Dead = c23Servers // no server at all

func genC23Conf(t *rapid.T, mode string) c23Conf {
	c := c23Conf{Index: map[int]string{}, ListKind: map[int]string{}}
	for i := range c23Resources {
		if !chance(t, "cached", 60) {
			continue
		}
		c.Resources = append(c.Resources, i)
		c.Index[i] = pick(t, "index", "", "s", "n", "sn", "snk", "k")
		if i != 3 && chance(t, "list kind", 25) {
			c.ListKind[i] = pick(t, "kind", "CustomList", "OtherList")
		}
	}
	c.Token = pick(t, "token", "", "", "secret", "other-token")
	if mode == "env" {
		c.Default = pick(t, "default", "", "here", "c2")
	}
	return c
}

func genC23Kube(t *rapid.T, mode string) c23Kube {
	k := c23Kube{Contexts: map[string]int{}, JSON: chance(t, "json", 20)}
	if mode != "env" && chance(t, "no clusters", 6) {
		return k
	}
	names := subset(t, "contexts", []string{"c1", "c2", "default", "kubernetes-admin@kubernetes"}, 3)
	for _, n := range names {
		k.Contexts[n] = intIn(t, "server", 0, c23Servers-1)
		if chance(t, "dead", 8) {
			k.Contexts[n] = c23Dead
		}
		if chance(t, "user", 30) {
			if k.Users == nil {
				k.Users = map[string]string{}
			}
			k.Users[n] = pick(t, "user's token", "t2", "t3")
		}
	}
	k.Current = pickFrom(t, "current", names)
	return k
}

func genC23(t *rapid.T) c23Case {
	c := c23Case{Mode: pick(t, "mode", "flag", "flag", "home", "env")}
	c.Mount, c.Even = chance(t, "mount", 25), chance(t, "even", 30)
	c.Conf, c.Kube = genC23Conf(t, c.Mode), genC23Kube(t, c.Mode)
	broken := "" // the file that is not valid at the moment
	lost := ""   // the file that was gone for longer than it is waited for
	for i := intIn(t, "edits", 1, 4); i > 0; i-- {
		e := c23Edit{File: pick(t, "file", "config", "config", "kube"), Method: pick(t, "method", "overwrite", "overwrite", "rename over", "remove"), Gap: pick(t, "gap", 0, 50, 300)}
		if c.Mode == "env" {
			e.File = "config"
		}
		if broken != "" {
			e.File = broken
		} else if lost != "" {
			e.File = map[string]string{"config": "kube", "kube": "config"}[lost]
		}
		if lost == "" && broken == "" && c.Mode != "env" && !c.Mount && i > 1 && (e.File == "config" || c.Mode == "flag") && chance(t, "gone", 20) {
			e.Bad, e.Method, lost = "gone", "gone", e.File
			if n := len(c.Edits); n > 0 {
				c.Edits[n-1].Quick = false
			}
			c.Edits = append(c.Edits, e)
			continue
		}
		if c.Mount && e.File == "config" {
			e.Method = "swap"
		}
		if chance(t, "bad", 35) {
			if e.File == "config" {
				e.Bad = pickFrom(t, "bad config", c23BadConf)
			} else {
				e.Bad = pickFrom(t, "bad kubeconfig", c23BadKube)
				if e.Method == "overwrite" {
					e.Method = "rename over"
				}
			}
			broken = e.File
		} else {
			broken = ""
		}
		if e.Bad == "" || chance(t, "changed, too", 70) { // an invalid content may be made of another one
			if e.File == "config" {
				x := genC23Conf(t, c.Mode)
				e.Conf = &x
			} else {
				x := genC23Kube(t, c.Mode)
				e.Kube = &x
			}
		}
		if e.Method == "overwrite" && i > 1 {
			e.Quick = chance(t, "quick", 25)
		}
		if n := len(c.Edits); n > 0 && e.Bad != "" {
			c.Edits[n-1].Quick = false // a content that is gone before it is looked at is no last valid one
		}
		c.Edits = append(c.Edits, e)
	}
	return c
}

func (k c23Kube) user(context string) string {
	if u := k.Users[context]; u != "" {
		return u
	}
	return "t"
}

func (c c23Conf) text() string {
	cfg := map[string]interface{}{"token": c.Token}
	if c.Default != "" {
		cfg["default_cluster"] = c.Default
	}
	proxies := []interface{}{}
	for _, i := range c.Resources {
		r := c23Resources[i]
		index := baseIndex()
		for _, k := range c.Index[i] {
			kv := c23Keys[string(k)]
			index[kv[0]] = kv[1]
		}
		proxies = append(proxies, map[string]interface{}{"group": r.gvr.Group, "version": r.gvr.Version, "resource": r.gvr.Resource, "list_kind": c.listKind(i), "index": index})
	}
	cfg["proxies"] = proxies
	b, err := json.MarshalIndent(cfg, "", "  ")
	must(err)
	return string(b)
}

func (c c23Conf) listKind(i int) string {
	if k := c.ListKind[i]; k != "" {
		return k
	}
	return c23Resources[i].kind + "List"
}

func (c c23Conf) caches(i int) bool {
	for _, j := range c.Resources {
		if i == j {
			return true
		}
	}
	return false
}

func (k c23Kube) doc(urls []string) map[string]interface{} {
	contexts, clusters := []interface{}{}, []interface{}{}
	names := []string{}
	for n := range k.Contexts {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		contexts = append(contexts, map[string]interface{}{"name": n, "context": map[string]interface{}{"cluster": "cluster-" + n, "user": "user-" + n}})
		clusters = append(clusters, map[string]interface{}{"name": "cluster-" + n, "cluster": map[string]interface{}{"server": urls[k.Contexts[n]], "certificate-authority-data": c23CA}})
	}
	users := []interface{}{}
	for _, n := range names {
		users = append(users, map[string]interface{}{"name": "user-" + n, "user": map[string]interface{}{"token": k.user(n)}})
	}
	return map[string]interface{}{"apiVersion": "v1", "kind": "Config", "current-context": k.Current, "contexts": contexts, "clusters": clusters, "users": users}
}

func (k c23Kube) text(urls []string) string {
	b, err := json.Marshal(k.doc(urls))
	must(err)
	if k.JSON {
		return string(b)
	}
	y, err := yaml.JSONToYAML(b)
	must(err)
	return string(y)
}

func c23BadText(e c23Edit, conf c23Conf, kube c23Kube, urls []string) string {
	if e.Conf != nil {
		conf = *e.Conf
	}
	if e.Kube != nil {
		kube = *e.Kube
	}
	if e.File == "config" {
		good := conf.text()
		switch e.Bad {
		case "truncated":
			return good[:len(good)/2]
		case "garbage":
			return "<not> a configuration"
		case "list":
			return "[" + good + "]"
		case "number":
			return "5"
		case "wrong type":
			return `{"proxies": 5, "token": "changed"}`
		case "token type":
			return `{"proxies": [], "token": 7}`
		case "no version":
			return `{"proxies": [{"group": "", "resource": "pods", "list_kind": "PodList", "index": {}}], "token": "changed"}`
		case "trailing":
			return good + "}"
		case "one without version", "one without resource":
			m := map[string]interface{}{}
			must(json.Unmarshal([]byte(good), &m))
			p := map[string]interface{}{"group": "", "version": "v1", "list_kind": "XList", "index": map[string]string{}}
			if e.Bad == "one without version" {
				p = map[string]interface{}{"group": "", "resource": "secrets", "list_kind": "SecretList", "index": map[string]string{}}
			}
			m["proxies"] = append(m["proxies"].([]interface{}), p)
			b, err := json.Marshal(m)
			must(err)
			return string(b)
		}
		return ""
	}
	d := kube.doc(urls)
	ctx := map[string]interface{}{"name": "broken", "context": map[string]interface{}{"cluster": "cluster-broken", "user": "user-broken"}}
	cluster := map[string]interface{}{"name": "cluster-broken", "cluster": map[string]interface{}{"server": urls[0], "certificate-authority-data": c23CA}}
	user := map[string]interface{}{"name": "user-broken", "user": map[string]interface{}{"token": "t"}}
	switch e.Bad {
	case "bad base64":
		cluster["cluster"].(map[string]interface{})["certificate-authority-data"] = "***"
		d["contexts"], d["clusters"], d["users"] = []interface{}{ctx}, []interface{}{cluster}, []interface{}{user}
	case "bad server":
		cluster["cluster"].(map[string]interface{})["server"] = "http://[::1"
		d["contexts"], d["clusters"], d["users"] = []interface{}{ctx}, []interface{}{cluster}, []interface{}{user}
	case "one bad server", "one bad base64": // behind or before the others
		if e.Bad == "one bad server" {
			cluster["cluster"].(map[string]interface{})["server"] = "http://[::1"
		} else {
			cluster["cluster"].(map[string]interface{})["certificate-authority-data"] = "***"
		}
		for k, v := range map[string]interface{}{"contexts": ctx, "clusters": cluster, "users": user} {
			if e.Gap == 0 {
				d[k] = append([]interface{}{v}, d[k].([]interface{})...)
			} else {
				d[k] = append(d[k].([]interface{}), v)
			}
		}
	case "wrong type":
		d["contexts"] = "none"
	default:
		return "{{ not: [a kubeconfig"
	}
	b, err := json.Marshal(d)
	must(err)
	return string(b)
}

// ---- the API servers ---------------------------------------------------------------

// c23CA vouches for the API servers; users are only named over TLS.
var c23CA = func() string {
	s := httptest.NewUnstartedServer(nil)
	s.StartTLS()
	defer s.Close()
	return base64.StdEncoding.EncodeToString(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: s.Certificate().Raw}))
}()

// c23Server announces one object per resource, and answers everything else with its number.
func c23Server(n int, streams *openStreams) *httptest.Server {
	return httptest.NewTLSServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Content-Type", "application/json")
		if r.URL.Query().Get("watch") != "true" {
			fmt.Fprintf(w, `{"kind":"Upstream","apiVersion":"v1","server":%d,"user":%q}`, n, strings.TrimPrefix(r.Header.Get("Authorization"), "Bearer "))
			return
		}
		defer streams.opened(fmt.Sprintf("server %d %s", n, r.URL.Path))()
		for i, res := range c23Resources {
			if r.URL.Path == watchURL(res.gvr) {
				_, _ = w.Write(c23Event(n, i, strings.TrimPrefix(r.Header.Get("Authorization"), "Bearer ")))
			}
		}
		w.(http.Flusher).Flush()
		<-r.Context().Done()
	}))
}

func watchURL(g GVR) string { return collectionPath(g, "") }

func c23Event(server, i int, user string) []byte {
	r := c23Resources[i]
	v := r.gvr.Version
	if r.gvr.Group != "" {
		v = r.gvr.Group + "/" + v
	}
	b, err := json.Marshal(map[string]interface{}{"type": "ADDED", "object": map[string]interface{}{
		"apiVersion": v, "kind": r.kind,
		"metadata": map[string]interface{}{"name": fmt.Sprintf("on-server-%d", server), "namespace": "ns", "labels": map[string]interface{}{"server": fmt.Sprint(server), "kind": r.kind, "user": user}},
	}})
	must(err)
	return append(b, '\n')
}

// ---- the running program ------------------------------------------------------------

type c23Run struct {
	dir, conf, kube string
	urls            []string
	base            string
	proc            *exec.Cmd
	out             *syncBuffer
	died            chan struct{}
	release         func()
	client          *http.Client
	look            string // at the answers (none), or at the exported "gauge" (C27) or the open "streams" (C32)
	streams         *openStreams
	even            bool
}

// c23Time is when files that are all of one time were changed.
var c23Time = time.Unix(1700000000, 0)

// write makes a file.
func (r *c23Run) write(path, text string) {
	must(os.WriteFile(path, []byte(text), 0o644))
	if r.even {
		must(os.Chtimes(path, c23Time, c23Time))
	}
}

// padded gives valid contents the same size.
func (r *c23Run) padded(text string) string {
	if n := 8192 - len(text); r.even && n > 0 {
		text += strings.Repeat("\n", n)
	}
	return text
}

type syncBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (s *syncBuffer) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.Write(p)
}

func (s *syncBuffer) tail(n int) string {
	s.mu.Lock()
	defer s.mu.Unlock()
	t := s.b.String()
	if i := strings.Index(t, "panic: "); i >= 0 {
		t = t[i:]
		if len(t) > n {
			t = t[:n]
		}
	}
	if len(t) > n {
		t = t[len(t)-n:]
	}
	return t
}

func (r *c23Run) start(mode string) error {
	addr, release := freeAddr()
	r.release = release
	args := []string{"-c", r.conf, "-a", addr}
	env := []string{"PATH=" + os.Getenv("PATH"), "HOME=" + r.dir, "GOTRACEBACK=all"}
	switch mode {
	case "flag":
		args = append(args, "-k", r.kube)
	case "env":
		env = append(env, "KUBECONFIG="+r.kube)
	}
	r.proc = exec.Command(os.Getenv("CKV_BIN")+"/cacheproxy", args...)
	r.proc.Dir, r.proc.Env = r.dir, env
	r.out = &syncBuffer{}
	r.proc.Stdout, r.proc.Stderr = r.out, r.out
	must(r.proc.Start())
	died := make(chan struct{})
	p := r.proc
	go func() { _ = p.Wait(); close(died) }()
	r.died, r.base = died, "http://"+addr
	for end := time.Now().Add(reloadLimit); time.Now().Before(end); time.Sleep(25 * time.Millisecond) {
		select {
		case <-died:
			return fmt.Errorf("the proxy died at its start: %s", r.out.tail(3000))
		default:
		}
		if resp, err := r.client.Get(r.base + "/healthy"); err == nil {
			_ = resp.Body.Close()
			return nil
		}
	}
	return fmt.Errorf("the proxy does not start: %s", r.out.tail(3000))
}

func (r *c23Run) get(target, token string) (int, map[string]interface{}, string, error) {
	req, err := http.NewRequest("GET", r.base+target, nil)
	must(err)
	if token != "" {
		req.Header.Set("Authorization", "Bearer "+token)
	}
	resp, err := r.client.Do(req)
	if err != nil {
		return 0, nil, "", err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return 0, nil, "", err
	}
	m := map[string]interface{}{}
	_ = json.Unmarshal(b, &m)
	return resp.StatusCode, m, string(b), nil
}

// probe asks everything the content decides and compares.
func (r *c23Run) probe(mode string, conf c23Conf, kube c23Kube) error {
	contexts, current := kube.Contexts, kube.Current
	if mode == "env" {
		current = conf.Default
		if current == "" {
			current = "default"
		}
		contexts = map[string]int{current: kube.Contexts[kube.Current]}
		kube.Users = map[string]string{current: kube.user(kube.Current)}
	}
	switch r.look {
	case "gauge":
		return r.probeGauge(conf, contexts)
	case "streams":
		return r.probeStreams(conf, contexts)
	}
	for _, wrong := range []string{"", "nonsense"} {
		code, _, body, err := r.get(collectionPath(gvrPods, "ns"), wrong)
		if err != nil {
			return err
		}
		if (code == 401) != (conf.Token != "") {
			return fmt.Errorf("a request with the token %q is answered %d (%s), and the configured token is %q", wrong, code, body, conf.Token)
		}
	}
	all := []string{}
	for n := range contexts {
		if !strings.Contains(n, "@") { // there is no selector for such a name
			all = append(all, n)
		}
	}
	sort.Strings(all)
	for i, res := range c23Resources {
		asks := [][]string{nil}
		if len(all) > 0 {
			asks = append(asks, all)
		}
		for _, n := range append([]string{"c1", "c2", "nowhere", "here"}, all...) {
			asks = append(asks, []string{n})
		}
		for _, ask := range asks {
			p := page.Paginate{}
			if ask != nil {
				must(p.Clusters(ask))
			}
			target, err := listTarget(res.gvr, "", "", p)
			must(err)
			code, doc, body, err := r.get(target, conf.Token)
			if err != nil {
				return err
			}
			what := fmt.Sprintf("%s of the clusters %v", res.gvr.Resource, ask)
			of := ask
			if ask == nil {
				of = []string{current}
			}
			if !conf.caches(i) {
				if len(of) > 1 {
					continue
				}
				server, ok := contexts[of[0]]
				if !ok || server == c23Dead {
					if code < 400 {
						return fmt.Errorf("%s are not configured, and the cluster does not exist or answer: got %d %s", what, code, body)
					}
				} else if code != 200 || doc["kind"] != "Upstream" || doc["server"] != float64(server) || doc["user"] != kube.user(of[0]) {
					return fmt.Errorf("%s must come from API server %d, asked as %s: got %d %s", what, server, kube.user(of[0]), code, body)
				}
				continue
			}
			if code != 200 || doc["kind"] != conf.listKind(i) {
				return fmt.Errorf("%s must be a list of kind %s: got %d %s", what, conf.listKind(i), code, body)
			}
			want := map[string]string{}
			for _, n := range of {
				if server, ok := contexts[n]; ok && server != c23Dead {
					want[n] = fmt.Sprintf("on-server-%d", server)
				}
			}
			items, _ := doc["items"].([]interface{})
			if len(items) != len(want) {
				return fmt.Errorf("%s must be %v: got %s", what, want, body)
			}
			for _, it := range items {
				meta, _ := it.(map[string]interface{})["metadata"].(map[string]interface{})
				annos, _ := meta["annotations"].(map[string]interface{})
				cl, _ := annos[ClusterAnno].(string)
				if want[cl] == "" || meta["name"] != want[cl] {
					return fmt.Errorf("%s must be %v: got %s", what, want, body)
				}
				if ls, _ := meta["labels"].(map[string]interface{}); ls["user"] != kube.user(cl) {
					return fmt.Errorf("%s must be watched as %s: got %s", what, kube.user(cl), body)
				}
				ix := map[string]string{}
				text, _ := annos[IndexAnno].(string)
				if err := json.Unmarshal([]byte(text), &ix); err != nil {
					return fmt.Errorf("%s: no index in %s", what, body)
				}
				values := map[string]string{"s": fmt.Sprint(contexts[cl]), "n": want[cl], "k": res.kind}
				for letter, kv := range c23Keys {
					got, ok := ix[kv[0]]
					if wanted := strings.Contains(conf.Index[i], letter); wanted != ok || ok && got != values[letter] {
						return fmt.Errorf("%s: the index %q is configured: %v; got %v", what, kv[0], wanted, ix)
					}
				}
			}
		}
	}
	return nil
}

func (r *c23Run) settled(mode string, conf c23Conf, kube c23Kube, limit time.Duration) error {
	end := time.Now().Add(limit)
	for {
		err := r.probe(mode, conf, kube)
		select {
		case <-r.died:
			return fmt.Errorf("the proxy died: %s", r.out.tail(3000))
		default:
		}
		if err == nil {
			return nil
		}
		if time.Now().After(end) {
			return fmt.Errorf("%v later still: %w", limit, err)
		}
		time.Sleep(50 * time.Millisecond)
	}
}

func (r *c23Run) put(path, text string, e c23Edit) {
	switch e.Method {
	case "overwrite":
		must(os.WriteFile(path, []byte(text), 0o644))
	case "gone":
		must(os.Remove(path))
	case "rename over":
		r.write(path+".new", text)
		must(os.Rename(path+".new", path))
	case "swap":
		mountC23(r.dir, text, r.write)
	case "remove":
		must(os.Remove(path))
		time.Sleep(time.Duration(e.Gap) * time.Millisecond)
		r.write(path, text)
	}
}

// mountC23 puts the configuration where the kubelet puts a ConfigMap: config.json leads to ..data/config.json and ..data
// to a directory that is never changed but replaced.
func mountC23(dir, text string, write func(path, text string)) {
	mount := filepath.Join(dir, "mount")
	must(os.MkdirAll(mount, 0o755))
	fresh, err := os.MkdirTemp(mount, "..data-")
	must(err)
	write(filepath.Join(fresh, "config.json"), text)
	data := filepath.Join(mount, "..data")
	old, _ := os.Readlink(data)
	must(os.Symlink(filepath.Base(fresh), data+"_tmp"))
	must(os.Rename(data+"_tmp", data))
	if old != "" {
		must(os.RemoveAll(filepath.Join(mount, old)))
	} else {
		must(os.Symlink("..data/config.json", filepath.Join(mount, "config.json")))
	}
}

const reloadLimit = 30 * time.Second

func runC23(tmp string, c c23Case, look string) error {
	dir, err := os.MkdirTemp(tmp, "c23-")
	must(err)
	defer os.RemoveAll(dir)
	r := &c23Run{dir: dir, conf: filepath.Join(dir, "config.json"), kube: filepath.Join(dir, "kubeconfig"), client: &http.Client{Timeout: 10 * time.Second, Transport: &http.Transport{}}, look: look, streams: &openStreams{n: map[string]int{}}, even: c.Even}
	if c.Mode == "home" {
		must(os.Mkdir(filepath.Join(dir, ".kube"), 0o755))
		r.kube = filepath.Join(dir, ".kube", "config")
	}
	for i := 0; i < c23Servers; i++ {
		s := c23Server(i, r.streams)
		defer func() { s.CloseClientConnections(); go s.Close() }()
		r.urls = append(r.urls, s.URL)
	}
	r.urls = append(r.urls, "https://127.0.0.1:1")
	conf, kube := c.Conf, c.Kube
	if c.Mount {
		r.conf = filepath.Join(dir, "mount", "config.json")
		mountC23(dir, r.padded(conf.text()), r.write)
	} else {
		r.write(r.conf, r.padded(conf.text()))
	}
	r.write(r.kube, r.padded(kube.text(r.urls)))
	defer func() {
		if r.died != nil {
			_ = r.proc.Process.Signal(syscall.SIGKILL)
			<-r.died
			r.release()
		}
	}()
	if err := r.start(c.Mode); err != nil {
		return err
	}
	if err := r.settled(c.Mode, conf, kube, reloadLimit); err != nil {
		return fmt.Errorf("after the start: %w", err)
	}
	for i, e := range c.Edits {
		path := r.conf
		if e.File == "kube" {
			path = r.kube
		}
		text := ""
		switch {
		case e.Bad == "gone":
		case e.Bad != "":
			text = c23BadText(e, conf, kube, r.urls)
		case e.Conf != nil:
			conf = *e.Conf
			text = r.padded(conf.text())
		default:
			kube = *e.Kube
			text = r.padded(kube.text(r.urls))
		}
		before := map[string]float64{}
		if look == "streams" {
			if before, err = r.reloads(); err != nil {
				return err
			}
		}
		at := time.Now()
		r.put(path, text, e)
		if time.Since(at) > 1500*time.Millisecond {
			return nil // the replacement was not within the grace period
		}
		if e.Quick {
			continue
		}
		// a replaced file is looked at again after two seconds, and must not be missing then
		wait := 400 * time.Millisecond
		if e.Method != "overwrite" {
			wait = 2800 * time.Millisecond
		}
		if e.Bad != "" {
			time.Sleep(wait)
		}
		if look == "streams" {
			if err := r.counted(e.Bad == "", before); err != nil {
				return fmt.Errorf("after edit %d (%s): %w\nthe proxy said: %s", i+1, short(e), err, r.out.tail(2500))
			}
		}
		if err := r.settled(c.Mode, conf, kube, reloadLimit); err != nil {
			return fmt.Errorf("after edit %d (%s): %w\nthe proxy said: %s", i+1, short(e), err, r.out.tail(2500))
		}
		if d := time.Until(at.Add(wait)); d > 0 {
			time.Sleep(d)
		}
		if e.Bad == "gone" { // it comes back as it was
			text := r.padded(conf.text())
			if e.File == "kube" {
				text = r.padded(kube.text(r.urls))
			}
			r.write(path, text)
		}
	}
	return nil
}

// side runs scenarios side by side.
func side(n int, run func(int) error) []error {
	errs := make([]error, n)
	var wg sync.WaitGroup
	for i := range errs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			errs[i] = vk.Guard(func() error { return run(i) })
		}(i)
	}
	wg.Wait()
	return errs
}

func classifyC23(c c23Case) (bool, []string) {
	labels := []string{fmt.Sprintf("mounted=%v", c.Mount), c.Mode, fmt.Sprintf("edits=%d", len(c.Edits))}
	valid, after := 0, false
	bad := false
	for _, e := range c.Edits {
		labels = append(labels, e.File+" "+e.Method)
		if e.Bad != "" {
			labels = append(labels, "bad "+e.File+": "+e.Bad)
			bad = true
			continue
		}
		valid++
		if e.Quick {
			labels = append(labels, "quick")
		}
		after = after || bad
	}
	if after {
		labels = append(labels, "valid after invalid")
	}
	return valid > 0, labels
}

func shrinkC23(c c23Case) []c23Case {
	var out []c23Case
	for i := range c.Edits {
		if len(c.Edits) == 1 {
			break
		}
		d := c
		d.Edits = append(append([]c23Edit{}, c.Edits[:i]...), c.Edits[i+1:]...)
		broken := ""
		ok := true
		for _, e := range d.Edits {
			if broken != "" && e.File != broken {
				ok = false
			}
			broken = ""
			if e.Bad != "" && e.Bad != "gone" {
				broken = e.File
			}
		}
		for j := range d.Edits {
			if j+1 < len(d.Edits) && d.Edits[j+1].Bad != "" {
				d.Edits[j].Quick = false
			}
		}
		if ok {
			d.Edits[len(d.Edits)-1].Quick = false
			out = append(out, d)
		}
	}
	if len(c.Conf.Resources) > 1 {
		d := c
		d.Conf.Resources = c.Conf.Resources[:1]
		out = append(out, d)
	}
	return out
}

func init() {
	pods := func(token string) *c23Conf { return &c23Conf{Resources: []int{0}, Token: token} }
	one := c23Kube{Contexts: map[string]int{"c1": 0}, Current: "c1"}
	vk.Register(&vk.Property{
		ID: "C23",
		Setup: func(*vk.Env) error {
			if os.Getenv("CKV_BIN") == "" {
				return fmt.Errorf("the programs are not built")
			}
			common.InitConfig(&common.Config{})
			return nil
		},
		Parts: []*vk.Part{vk.NewBatch(vk.Part{
			Name:  "edits",
			Rule:  "the program is started with a random configuration and kubeconfig (given by flag, in the home directory, or found through the environment as in a pod) against three API servers; 1-4 edits, valid or invalid (eleven and six kinds, many of them otherwise valid changes), overwriting or replacing the file (in some cases by one of the same size and time), or swapping a mounted ConfigMap, or removing a file for three seconds, after which the other one is edited; after each one the token, and every resource in every cluster, without a cluster and in unknown clusters are asked for: list kind, objects, indexes, or the API server that answers; non-trivial with a valid edit",
			Quick: 96, Thorough: 2000,
		}, vk.BatchDef[c23Case]{Gen: genC23, Classify: classifyC23, Shrink: shrinkC23, Size: 8,
			CheckAll: func(e *vk.Env, l []c23Case) []error {
				return side(len(l), func(i int) error { return runC23(e.Tmp, l[i], "") })
			},
			Fixed: []c23Case{
				{Mode: "env", Conf: *pods("secret"), Kube: one, Edits: []c23Edit{{File: "config", Method: "overwrite", Conf: pods("other-token")}}},
				{Mode: "flag", Conf: *pods(""), Kube: one, Edits: []c23Edit{{File: "config", Method: "overwrite", Bad: "no version"}, {File: "config", Method: "overwrite", Conf: pods("other-token")}}},
			}})},
		Assumptions: []string{"edits follow one another at once or half a second apart, and three seconds after a replacement (see C24 for closer ones)", "a kubeconfig that is only looked for may be missing", "a file that was gone for longer than its grace period (C24) is not edited any more", "an invalid file is made valid before the other file is edited: both are loaded together",
			"with a kubeconfig file its current context is the default cluster", "an empty kubeconfig, or one with a context whose cluster or user is not defined, is not counted as invalid (client-go accepts them)", "soon means within 30 seconds", "a failing scenario counts when it fails again in one of several copies run side by side"},
	})
}

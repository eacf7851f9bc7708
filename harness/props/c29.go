package props

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"ckverif/vk"

	"github.com/DaoCloud/ckube/common"
	"k8s.io/client-go/kubernetes"
	"k8s.io/client-go/rest"
	"pgregory.net/rapid"
)

// c29Watch is one watch, in the order of what happens to it.
type c29Watch struct {
	Path    string   `json:"path"`
	Form    string   `json:"form"`
	Cluster string   `json:"cluster"`
	Early   bool     `json:"early,omitempty"`  // the client leaves before the API server has answered
	Silent  bool     `json:"silent,omitempty"` // the API server accepts and sends nothing until the client knows
	Chunks  []string `json:"chunks,omitempty"`
	End     string   `json:"end"` // client: it leaves; server: the stream ends; break: the API server's connection breaks
}

type c29Case struct {
	Watches []c29Watch `json:"watches"` // at the same time
	Get     bool       `json:"get,omitempty"`
	Many    int        `json:"many,omitempty"` // how often the watches are open at the same time
}

// genC29Many is a case of many watches.
func genC29Many(t *rapid.T) c29Case {
	c := c29Case{Get: true, Many: pick(t, "times", 3, 10, 20, 40)}
	for n := intIn(t, "watches", 2, 4); n > 0; n-- {
		w := c29Watch{Cluster: pick(t, "cluster", "c1", "c2"), Silent: true, End: pick(t, "end", "client", "server", "break"), Form: "watch=true",
			Path: pick(t, "path", "/api/v1/pods", "/api/v1/namespaces/a/pods", "/apis/example.io/v1/widgets", "/api/v1/namespaces/a/services")}
		if chance(t, "events", 50) {
			w.Chunks = []string{"{}\n"}
		}
		c.Watches = append(c.Watches, w)
	}
	return c
}

func genC29(t *rapid.T) c29Case {
	c := c29Case{Get: chance(t, "get", 30)}
	for n := intIn(t, "watches", 1, 4); n > 0; n-- {
		w := c29Watch{Cluster: pick(t, "cluster", "c1", "c2"), Early: chance(t, "early", 15), Silent: chance(t, "silent", 40), End: pick(t, "end", "client", "client", "client", "server", "break")}
		plain := pick(t, "path", "/api/v1/pods", "/api/v1/namespaces/a/pods", "/apis/example.io/v1/widgets", "/api/v1/namespaces/a/services", "/apis/apps/v1/deployments")
		if chance(t, "watch path", 30) {
			w.Path = strings.Replace(strings.Replace(plain, "/v1/", "/v1/watch/", 1), "//", "/", -1)
		} else {
			w.Path, w.Form = plain, pick(t, "form", "watch=true", "watch=1", "watch=")
		}
		for i := intIn(t, "chunks", 0, 4); i > 0; i-- {
			w.Chunks = append(w.Chunks, pick(t, "chunk", "{\"type\":\"ADDED\"}\n", "{\"type\":", "\n", "x\ny", strings.Repeat("long ", 2000), strings.Repeat("line\n", 300)))
		}
		c.Watches = append(c.Watches, w)
	}
	return c
}

// c29Upstream plays the API server's part of one watch.
type c29Upstream struct {
	arrived chan struct{} // the request is there
	chunks  chan string   // to be sent; closed: end the stream
	accept  chan struct{} // closed: answer with 200
	sent    chan struct{} // one for each chunk
	gone    chan struct{} // closed when the request is over
	broken  atomic.Bool
}

var c29Env struct {
	api, proxy *httptest.Server
	handler    atomic.Value
	streams    sync.Map // id -> *c29Upstream
	next       int64
}

const watchPatience = 20 * time.Second

func setupC29(*vk.Env) error {
	quietStdout()
	c29Env.api = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		v, ok := c29Env.streams.Load(r.URL.Query().Get("id"))
		if !ok {
			_, _ = io.WriteString(w, `{"upstream":true}`)
			return
		}
		s := v.(*c29Upstream)
		defer close(s.gone)
		close(s.arrived)
		select {
		case <-s.accept:
		case <-r.Context().Done():
			return
		}
		w.Header().Set("Content-Type", "application/json")
		w.WriteHeader(200)
		w.(http.Flusher).Flush()
		for {
			select {
			case <-r.Context().Done():
				return
			case chunk, open := <-s.chunks:
				if !open {
					if s.broken.Load() {
						panic(http.ErrAbortHandler)
					}
					return
				}
				_, _ = io.WriteString(w, chunk)
				w.(http.Flusher).Flush()
				s.sent <- struct{}{}
			}
		}
	}))
	c29Env.proxy = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { c29Env.handler.Load().(http.Handler).ServeHTTP(w, r) }))
	c29Env.api.Config.ErrorLog, c29Env.proxy.Config.ErrorLog = nil, nil
	return nil
}

func checkC29(_ *vk.Env, c c29Case) error {
	index := searchIndex()
	st := newStore(map[GVR]map[string]string{gvrPods: index, gvrWidgets: index})
	_ = st.OnResourceAdded(gvrPods, "c1", SObj{NS: "a", Name: "web"}.build())
	clients := map[string]kubernetes.Interface{}
	for _, n := range []string{"c1", "c2"} {
		cs, err := kubernetes.NewForConfig(&rest.Config{Host: c29Env.api.URL, QPS: -1})
		if err != nil {
			return err
		}
		clients[n] = cs
	}
	c29Env.handler.Store(http.HandlerFunc(router(common.Config{Proxies: []common.Proxy{proxyConf(gvrPods, "PodList", index), proxyConf(gvrWidgets, "WidgetList", index)}, DefaultCluster: "c1"}, st, clients).ServeHTTP))
	for i, n := 1, len(c.Watches); i < c.Many; i++ {
		c.Watches = append(c.Watches[:len(c.Watches):len(c.Watches)], c.Watches[:n]...)
	}
	runs := make([]*c29Run, len(c.Watches))
	for i, w := range c.Watches {
		id := fmt.Sprint(atomic.AddInt64(&c29Env.next, 1))
		up := &c29Upstream{arrived: make(chan struct{}), chunks: make(chan string), accept: make(chan struct{}), sent: make(chan struct{}, 100), gone: make(chan struct{})}
		c29Env.streams.Store(id, up)
		defer c29Env.streams.Delete(id)
		runs[i] = &c29Run{w: w, id: id, up: up, opened: make(chan int, 1), ended: make(chan error, 1), lines: make(chan string, 10000)}
	}
	defer func() {
		for _, r := range runs {
			r.release()
		}
	}()
	each := func(what string, f func(r *c29Run) error) error {
		errs := make([]error, len(runs))
		var wg sync.WaitGroup
		for i, r := range runs {
			wg.Add(1)
			go func(i int, r *c29Run) {
				defer wg.Done()
				if err := f(r); err != nil {
					errs[i] = fmt.Errorf("watch %d, %s?%s, %s: %v", i, r.w.Path, r.w.Form, what, err)
				}
			}(i, r)
		}
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				return err
			}
		}
		return nil
	}
	if err := each("opening", (*c29Run).open); err != nil {
		return err
	}
	// first those whose client leaves, the others go on
	if err := each("the client leaves", func(r *c29Run) error {
		if r.w.End == "client" || r.w.Early {
			return r.leave()
		}
		return nil
	}); err != nil {
		return err
	}
	if c.Get && c.Many > 0 {
		for _, path := range []string{"/api/v1/pods", "/api/v1/secrets", "/healthy"} {
			r, err := (&http.Client{Timeout: watchPatience}).Get(c29Env.proxy.URL + path)
			if err != nil {
				return fmt.Errorf("next to %d watches, of which some have ended: %v", len(c.Watches), err)
			}
			_, _ = io.Copy(io.Discard, r.Body)
			r.Body.Close()
			if r.StatusCode != 200 {
				return fmt.Errorf("next to watches %s is answered %d", path, r.StatusCode)
			}
		}
	} else if c.Get {
		if rep := do(c29Env.handler.Load().(http.Handler), "GET", "/api/v1/pods", nil, ""); rep.Code != 200 {
			return fmt.Errorf("a list after clients have left is answered %d %.200s", rep.Code, rep.Body)
		}
	}
	return each("the API server ends the stream", func(r *c29Run) error {
		if r.w.End == "client" || r.w.Early {
			return nil
		}
		return r.end()
	})
}

type c29Run struct {
	w      c29Watch
	id     string
	up     *c29Upstream
	cancel context.CancelFunc
	opened chan int
	ended  chan error
	lines  chan string
	closed bool
}

func (r *c29Run) open() error {
	ctx, cancel := context.WithCancel(context.Background())
	r.cancel = cancel
	q := "id=" + r.id + "&cluster=" + r.w.Cluster
	if r.w.Form != "" {
		q += "&" + r.w.Form
	}
	req, err := http.NewRequestWithContext(ctx, "GET", c29Env.proxy.URL+r.w.Path+"?"+q, nil)
	if err != nil {
		return err
	}
	go func() {
		resp, err := http.DefaultClient.Do(req)
		if err != nil {
			r.ended <- err
			return
		}
		defer resp.Body.Close()
		r.opened <- resp.StatusCode
		b := bufio.NewReader(resp.Body)
		for {
			line, err := b.ReadString('\n')
			if err == nil {
				r.lines <- line
				continue
			}
			if err == io.EOF {
				err = nil
			}
			r.ended <- err
			return
		}
	}()
	if err := wait(r.up.arrived, "the watch does not reach the API server"); err != nil {
		return err
	}
	if r.w.Early {
		return nil
	}
	close(r.up.accept)
	if r.w.Silent {
		if err := r.isOpen(); err != nil {
			return err
		}
	}
	text := ""
	for _, chunk := range r.w.Chunks {
		select {
		case r.up.chunks <- chunk:
		case <-r.up.gone:
			return fmt.Errorf("the proxy has closed the API server's stream")
		case <-time.After(watchPatience):
			return fmt.Errorf("the proxy does not read the API server's stream")
		}
		<-r.up.sent
		text += chunk
	}
	if !r.w.Silent {
		if err := r.isOpen(); err != nil {
			return err
		}
	}
	for i := strings.Count(text, "\n"); i > 0; i-- {
		select {
		case <-r.lines:
		case <-time.After(watchPatience):
			return fmt.Errorf("%d lines are missing", i)
		}
	}
	return nil
}

func (r *c29Run) isOpen() error {
	select {
	case code := <-r.opened:
		if code != 200 {
			return fmt.Errorf("the API server accepts it, the client is answered %d", code)
		}
		return nil
	case err := <-r.ended:
		return fmt.Errorf("the API server accepts it, the client gets %v", err)
	case <-time.After(watchPatience):
		return fmt.Errorf("the API server has accepted it, the client has no answer after %v", watchPatience)
	}
}

func (r *c29Run) leave() error {
	r.cancel()
	return wait(r.up.gone, "the client is gone, the API server's stream is still open")
}

func (r *c29Run) end() error {
	// it still works
	select {
	case r.up.chunks <- "last\n":
		<-r.up.sent
	case <-time.After(watchPatience):
		return fmt.Errorf("the proxy does not read it any more")
	}
	for {
		select {
		case l := <-r.lines:
			if !strings.HasSuffix(l, "last\n") {
				continue
			}
		case err := <-r.ended:
			return fmt.Errorf("the client's stream has ended before with %v", err)
		case <-time.After(watchPatience):
			return fmt.Errorf("a line does not reach the client")
		}
		break
	}
	r.up.broken.Store(r.w.End == "break")
	r.release()
	select {
	case err := <-r.ended:
		if err != nil && r.w.End != "break" {
			return fmt.Errorf("the client's stream ends with %v", err)
		}
	case <-time.After(watchPatience):
		return fmt.Errorf("the API server has ended it, the client's stream is still open after %v", watchPatience)
	}
	r.cancel()
	return nil
}

// release lets go of everything that is left of the watch.
func (r *c29Run) release() {
	if !r.closed {
		r.closed = true
		close(r.up.chunks)
	}
	if r.w.End == "client" || r.w.Early {
		if r.cancel != nil {
			r.cancel()
		}
		select {
		case <-r.up.accept:
		default:
			close(r.up.accept)
		}
	}
}

func wait(ch chan struct{}, what string) error {
	select {
	case <-ch:
		return nil
	case <-time.After(watchPatience):
		return fmt.Errorf("%s after %v", what, watchPatience)
	}
}

func classifyC29(c c29Case) (bool, []string) {
	l := []string{fmt.Sprintf("watches=%d", len(c.Watches))}
	has := map[string]bool{}
	for _, w := range c.Watches {
		switch {
		case w.Early:
			has["left before the answer"] = true
		case w.End == "client" && len(w.Chunks) == 0:
			has["left while idle"] = true
		case w.End == "client":
			has["left after events"] = true
		default:
			has["ended by the API server"] = true
		}
		if w.Silent && !w.Early {
			has["nothing sent at first"] = true
		}
	}
	for _, k := range []string{"left before the answer", "left while idle", "left after events", "ended by the API server", "nothing sent at first"} {
		if has[k] {
			l = append(l, k)
		}
	}
	return has["left before the answer"] || has["left while idle"] || has["left after events"] || has["nothing sent at first"], l
}

// c29Parts are further parts, which need a newer Go.
var c29Parts []*vk.Part

func init() {
	vk.Register(&vk.Property{
		ID:    "C29",
		Setup: setupC29,
		Teardown: func(*vk.Env) {
			for _, s := range []*httptest.Server{c29Env.proxy, c29Env.api} {
				if s != nil {
					s.CloseClientConnections()
				}
			}
		},
		Parts: append([]*vk.Part{vk.New(vk.Part{
			Name:  "watches",
			Rule:  "1-4 watches at the same time through real HTTP connections on both sides: the API server accepts (and may send nothing at first) and sends 0-4 chunks, also unfinished lines; some clients leave before the answer, while nothing is sent, or after events, and the API server's request must be over soon, while the other watches still deliver and then end with the API server's stream; non-trivial when a client leaves or nothing is sent at first",
			Quick: 2000, Thorough: 60000,
		}, vk.Def[c29Case]{Gen: genC29, Check: checkC29, Classify: classifyC29, Fixed: []c29Case{
			{Watches: []c29Watch{{Path: "/api/v1/pods", Form: "watch=true", Cluster: "c1", Silent: true, End: "server"}}},
			{Watches: []c29Watch{{Path: "/api/v1/pods", Form: "watch=true", Cluster: "c1", Chunks: []string{"{}\n"}, End: "client"}}},
		}}), vk.New(vk.Part{
			Name:  "many",
			Rule:  "2-4 watches as above, each 3-40 times at the same time, all of which must be answered by the API server and deliver; when some of their clients have left, a list from the cache, a forwarded one and another request must be answered, and the rest of the watches deliver and end; non-trivial always",
			Quick: 24, Thorough: 600, MaxShards: 4,
		}, vk.Def[c29Case]{Gen: genC29Many, Check: checkC29, Classify: func(c c29Case) (bool, []string) {
			return true, []string{sizeClass("watches", len(c.Watches)*c.Many)}
		}})}, c29Parts...),
		Assumptions: []string{fmt.Sprintf("soon is within %v, where it takes milliseconds", watchPatience)},
	})
}

//go:build go1.25

package props

import (
	"context"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"ckverif/vk"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/store"
	"k8s.io/client-go/kubernetes"
	"pgregory.net/rapid"
)

// Long watches, in virtual time: the proxy's handler between a client that only reads and scripted API servers.

// c29Step is something that happens some time after the step before it.
type c29Step struct {
	After int    `json:"after"` // seconds
	Watch int    `json:"watch"`
	Do    string `json:"do"`             // line; half: a line without its end; get: another request to the same API server; hang: one it never answers
	Secs  int    `json:"secs,omitempty"` // timeout of the other request
}

type c29IdleCase struct {
	Watches []c29Watch `json:"watches"` // only Path, Form, Cluster and End
	Steps   []c29Step  `json:"steps"`
	Last    int        `json:"last"` // seconds until the watches end
}

// the proxy is free to end a watch after half an hour
const c29Long = 29 * 60

func genC29Idle(t *rapid.T) c29IdleCase {
	var c c29IdleCase
	for n := intIn(t, "watches", 1, 3); n > 0; n-- {
		w := c29Watch{Cluster: pick(t, "cluster", "c1", "c2"), End: pick(t, "end", "client", "server")}
		plain := pick(t, "path", "/api/v1/pods", "/api/v1/namespaces/a/pods", "/apis/example.io/v1/widgets", "/api/v1/namespaces/a/services", "/apis/apps/v1/deployments")
		if chance(t, "watch path", 30) {
			w.Path = strings.Replace(plain, "/v1/", "/v1/watch/", 1)
		} else {
			w.Path, w.Form = plain, pick(t, "form", "watch=true", "watch=1", "watch=")
		}
		c.Watches = append(c.Watches, w)
	}
	left := pick(t, "at most", 30, 120, 700, c29Long, c29Long)
	gap := func(label string) int {
		g := intIn(t, label, 0, pick(t, label+" at most", 2, 20, 60, 300, left))
		if g > left {
			g = left
		}
		left -= g
		return g
	}
	for i := intIn(t, "steps", 0, 12); i > 0; i-- {
		s := c29Step{After: gap("after"), Watch: intIn(t, "watch", 0, len(c.Watches)-1), Do: pick(t, "do", "line", "line", "line", "half", "get", "hang")}
		if s.Do == "get" || s.Do == "hang" {
			s.Secs = pick(t, "timeout", 0, 1, 5, 30)
		}
		c.Steps = append(c.Steps, s)
	}
	if c.Last = gap("last"); chance(t, "to the end", 30) {
		c.Last += left
	}
	return c
}

// linesWriter is a client's side of a response.
type linesWriter struct {
	mu   sync.Mutex
	head http.Header
	code int
	text strings.Builder
}

func (w *linesWriter) Header() http.Header { return w.head }
func (w *linesWriter) WriteHeader(code int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.code == 0 {
		w.code = code
	}
}
func (w *linesWriter) Flush() { w.WriteHeader(200) }
func (w *linesWriter) Write(p []byte) (int, error) {
	w.WriteHeader(200)
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.text.Write(p)
}
func (w *linesWriter) got() (int, string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.code, w.text.String()
}

func checkC29Idle(_ *vk.Env, c c29IdleCase) error { return c29Idle(c, nil) }

// serveFunc starts the proxy's server in place of the handler alone, and gives a way to send requests and one to stop it.
type serveFunc func(http.Handler, map[string]kubernetes.Interface, store.Store) (http.Handler, func())

func c29Idle(c c29IdleCase, serve serveFunc) error {
	return bubble(func() error {
		var mu sync.Mutex
		bodies := map[string]*simBody{}
		up := &upstream{trip: func(req *http.Request) (*http.Response, error) {
			q := req.URL.Query()
			body := io.ReadCloser(io.NopCloser(strings.NewReader(`{"upstream":true}`)))
			if id := q.Get("id"); id == "hang" {
				<-req.Context().Done()
				return nil, req.Context().Err()
			} else if id != "" {
				b := &simBody{ctx: req.Context(), wake: make(chan struct{}, 1)}
				mu.Lock()
				bodies[id] = b
				mu.Unlock()
				body = b
			}
			return &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: jsonHeader(), Body: body, ContentLength: -1, Request: req}, nil
		}}
		index := searchIndex()
		st := newStore(map[GVR]map[string]string{gvrPods: index, gvrWidgets: index})
		h := router(common.Config{Proxies: []common.Proxy{proxyConf(gvrPods, "PodList", index), proxyConf(gvrWidgets, "WidgetList", index)}, DefaultCluster: "c1"}, st, up.clients("c1", "c2"))
		stop := func() {}
		if serve != nil {
			h, stop = serve(h, up.clients("c1", "c2"), st)
		}
		ctx, cancelAll := context.WithCancel(context.Background())
		defer func() { // time stands still for what is left when this ends
			cancelAll()
			synctest.Wait()
			stop()
			time.Sleep(time.Hour)
		}()
		type running struct {
			w      *linesWriter
			cancel context.CancelFunc
			sent   string
			done   chan struct{}
		}
		ask := func(ctx context.Context, target string) (*linesWriter, chan struct{}) {
			w, done := &linesWriter{head: http.Header{}}, make(chan struct{})
			req := httptest.NewRequest("GET", target, nil).WithContext(ctx)
			go func() {
				defer close(done)
				h.ServeHTTP(w, req)
			}()
			return w, done
		}
		runs := []*running{}
		for i, w := range c.Watches {
			q := fmt.Sprintf("?id=%d&cluster=%s", i, w.Cluster)
			if w.Form != "" {
				q += "&" + w.Form
			}
			r := &running{}
			var wctx context.Context
			wctx, r.cancel = context.WithCancel(ctx)
			r.w, r.done = ask(wctx, w.Path+q)
			runs = append(runs, r)
		}
		synctest.Wait()
		start := time.Now()
		at := func(i int) string {
			return fmt.Sprintf("watch %d, %s?%s, after %v", i, c.Watches[i].Path, c.Watches[i].Form, time.Since(start))
		}
		for i := range runs {
			if bodies[fmt.Sprint(i)] == nil {
				return fmt.Errorf("%s: it does not reach the API server", at(i))
			}
		}
		open := func() error {
			synctest.Wait()
			for i, r := range runs {
				select {
				case <-r.done:
					return fmt.Errorf("%s: it is answered completely, though neither side has ended it", at(i))
				default:
				}
				if !bodies[fmt.Sprint(i)].alive() {
					return fmt.Errorf("%s: the proxy has given up the API server's stream, though neither side has ended it", at(i))
				}
				whole := r.sent[:strings.LastIndexByte(r.sent, '\n')+1]
				if code, got := r.w.got(); code != 200 || !strings.HasPrefix(got, whole) || !strings.HasPrefix(r.sent, got) {
					return fmt.Errorf("%s: the API server has sent %q, the client got %d %q", at(i), r.sent, code, got)
				}
			}
			return nil
		}
		send := func(i int, text string) {
			runs[i].sent += text
			bodies[fmt.Sprint(i)].send([]byte(text))
		}
		for n, s := range c.Steps {
			time.Sleep(time.Duration(s.After) * time.Second)
			if err := open(); err != nil {
				return err
			}
			switch s.Do {
			case "line":
				send(s.Watch, fmt.Sprintf("{\"n\":%d}\n", n))
			case "half":
				send(s.Watch, fmt.Sprintf("{\"half\":%d,", n))
			default:
				target := "/apis/apps/v1/namespaces/a/deployments/x?cluster=" + c.Watches[s.Watch].Cluster
				if s.Secs > 0 {
					target += fmt.Sprintf("&timeout=%ds", s.Secs)
				}
				if s.Do == "hang" {
					target += "&id=hang"
				}
				ask(ctx, target)
			}
			if err := open(); err != nil {
				return err
			}
		}
		time.Sleep(time.Duration(c.Last) * time.Second)
		for i := range runs {
			send(i, "last\n")
		}
		if err := open(); err != nil {
			return err
		}
		for i, r := range runs {
			b := bodies[fmt.Sprint(i)]
			if c.Watches[i].End == "server" {
				b.finish(io.EOF)
			} else {
				r.cancel()
			}
			synctest.Wait()
			if !b.released() {
				return fmt.Errorf("%s: one side (%s) has ended it, the API server's stream is still held", at(i), c.Watches[i].End)
			}
			select {
			case <-r.done:
			default:
				return fmt.Errorf("%s: one side (%s) has ended it, but it is not over", at(i), c.Watches[i].End)
			}
		}
		return nil
	})
}

func classifyC29Idle(c c29IdleCase) (bool, []string) {
	total, longest := c.Last, c.Last
	l := []string{fmt.Sprintf("watches=%d", len(c.Watches))}
	for _, s := range c.Steps {
		total += s.After
		if s.After > longest {
			longest = s.After
		}
	}
	switch {
	case longest > 600:
		l = append(l, "silent for ten minutes")
	case longest > 60:
		l = append(l, "silent for a minute")
	}
	if total > 25*60 {
		l = append(l, "open for 25 minutes")
	}
	return total > 60, l
}

var _ = func() bool {
	c29Parts = append(c29Parts, vk.New(vk.Part{
		Name:  "long",
		Rule:  "1-3 watches that stay open for up to 29 minutes of virtual time, with 0-12 lines, unfinished lines and other requests to the same API server (with timeouts, answered or not) after random gaps; none may end or lose anything before one side ends it, and then both sides are let go; non-trivial when they stay open for more than a minute",
		Quick: 3000, Thorough: 100000,
	}, vk.Def[c29IdleCase]{Gen: genC29Idle, Check: checkC29Idle, Classify: classifyC29Idle}))
	return true
}()

//go:build go1.25

package props

import (
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"net/http"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"ckverif/vk"

	"k8s.io/client-go/rest"
)

// The watcher's properties are decided in virtual time: this package is built as a test binary
// with a Go that has testing/synctest, and every case runs in a bubble of its own. TestMain hands
// the command line over to the kit.

var (
	simT    *testing.T
	simArgs []string
)

func TestMain(m *testing.M) {
	simArgs = os.Args[1:]
	os.Args = []string{os.Args[0], "-test.run=TestCKV", "-test.timeout=0"}
	flag.Parse()
	os.Exit(m.Run())
}

func TestCKV(t *testing.T) {
	simT = t
	exe, err := os.Executable()
	if err != nil {
		t.Fatal(err)
	}
	os.Exit(vk.Main(simArgs, []string{exe}))
}

// bubble runs f in virtual time.
func bubble(f func() error) error {
	var err error
	synctest.Test(simT, func(*testing.T) { err = vk.Guard(f) })
	return err
}

// ---- a scripted API server ----------------------------------------------------------

type simAttempt struct {
	ctx   context.Context
	reply chan simOutcome
}

type simOutcome struct {
	err  error
	code int
	head http.Header
	text string
	body *simBody
}

// simBody is the body of an open watch stream.
type simBody struct {
	ctx    context.Context
	mu     sync.Mutex
	data   []byte
	end    error
	closed bool
	wake   chan struct{}
	// firstObject: an object event has been delivered completely
	firstObject bool
}

func (b *simBody) poke() {
	select {
	case b.wake <- struct{}{}:
	default:
	}
}

func (b *simBody) send(p []byte) {
	b.mu.Lock()
	b.data = append(b.data, p...)
	b.mu.Unlock()
	b.poke()
}

// finish ends the stream from the server's side.
func (b *simBody) finish(err error) {
	b.mu.Lock()
	if b.end == nil {
		b.end = err
	}
	b.mu.Unlock()
	b.poke()
}

func (b *simBody) Read(p []byte) (int, error) {
	for {
		b.mu.Lock()
		switch {
		case b.closed:
			b.mu.Unlock()
			return 0, errors.New("read on closed body")
		case b.ctx.Err() != nil:
			b.mu.Unlock()
			return 0, b.ctx.Err()
		case len(b.data) > 0:
			n := copy(p, b.data)
			b.data = b.data[n:]
			b.mu.Unlock()
			return n, nil
		case b.end != nil:
			b.mu.Unlock()
			return 0, b.end
		}
		b.mu.Unlock()
		select {
		case <-b.wake:
		case <-b.ctx.Done():
		}
	}
}

func (b *simBody) Close() error {
	b.mu.Lock()
	b.closed = true
	b.mu.Unlock()
	b.poke()
	return nil
}

// alive: neither side has ended the stream.
func (b *simBody) alive() bool {
	b.mu.Lock()
	defer b.mu.Unlock()
	return !b.closed && b.end == nil && b.ctx.Err() == nil
}

// released: the client has let go of the stream.
func (b *simBody) released() bool {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.closed || b.ctx.Err() != nil
}

type simChan struct {
	cluster  string
	gvr      GVR
	attempts int
	pending  []*simAttempt
	bodies   []*simBody
	expired  bool // an attempt was given up by the client before it was answered
}

func (c *simChan) String() string { return fmt.Sprintf("%v@%s", c.gvr, c.cluster) }

type simServer struct {
	mu     sync.Mutex
	chans  map[string]*simChan
	faults []string
	down   bool
	goneAt string
}

func watchPath(g GVR) string {
	if g.Group == "" {
		return "/api/" + g.Version + "/" + g.Resource
	}
	return "/apis/" + g.Group + "/" + g.Version + "/" + g.Resource
}

func newSim(gvrs []GVR, clusters []string) *simServer {
	s := &simServer{chans: map[string]*simChan{}}
	for _, g := range gvrs {
		for _, c := range clusters {
			s.chans[c+" "+watchPath(g)] = &simChan{cluster: c, gvr: g}
		}
	}
	return s
}

func (s *simServer) list() []*simChan {
	keys := []string{}
	for k := range s.chans {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	out := []*simChan{}
	for _, k := range keys {
		out = append(out, s.chans[k])
	}
	return out
}

func (s *simServer) at(g GVR, cluster string) *simChan { return s.chans[cluster+" "+watchPath(g)] }

func (s *simServer) configs(clusters []string) map[string]rest.Config {
	m := map[string]rest.Config{}
	for _, c := range clusters {
		m[c] = rest.Config{Host: "http://api.test", Transport: simTransport{s, c}, QPS: -1}
	}
	return m
}

type simTransport struct {
	s       *simServer
	cluster string
}

func (t simTransport) RoundTrip(req *http.Request) (*http.Response, error) {
	s := t.s
	s.mu.Lock()
	if s.down {
		s.faults = append(s.faults, fmt.Sprintf("a request was sent although the watcher was stopped: %s %s to cluster %q", req.Method, req.URL, t.cluster))
		s.mu.Unlock()
		runtime.Goexit() // ends the goroutine that would try for ever
	}
	c := s.chans[t.cluster+" "+req.URL.EscapedPath()]
	if c == nil || req.Method != "GET" || req.URL.Query().Get("watch") != "true" {
		s.faults = append(s.faults, fmt.Sprintf("a request nothing is configured for: %s %s to cluster %q", req.Method, req.URL, t.cluster))
		s.mu.Unlock()
		<-req.Context().Done()
		return nil, req.Context().Err()
	}
	for _, b := range c.bodies {
		if b.alive() {
			s.faults = append(s.faults, fmt.Sprintf("a second stream is opened for %v while the first is still open", c))
		}
	}
	if len(c.pending) > 0 {
		s.faults = append(s.faults, fmt.Sprintf("two attempts at once for %v", c))
	}
	a := &simAttempt{ctx: req.Context(), reply: make(chan simOutcome, 1)}
	c.attempts++
	c.pending = append(c.pending, a)
	s.mu.Unlock()
	var o simOutcome
	select {
	case o = <-a.reply:
	case <-a.ctx.Done():
		s.mu.Lock()
		c.drop(a)
		c.expired = true
		s.mu.Unlock()
		return nil, a.ctx.Err()
	}
	if o.err != nil {
		return nil, o.err
	}
	h := http.Header{"Content-Type": {"application/json"}}
	for k, v := range o.head {
		h[k] = v
	}
	var body io.ReadCloser = io.NopCloser(strings.NewReader(o.text))
	if o.body != nil {
		body = o.body
	}
	return &http.Response{StatusCode: o.code, Status: fmt.Sprintf("%d %s", o.code, http.StatusText(o.code)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: body, ContentLength: -1, Request: req}, nil
}

func (c *simChan) drop(a *simAttempt) {
	for i, p := range c.pending {
		if p == a {
			c.pending = append(c.pending[:i:i], c.pending[i+1:]...)
			return
		}
	}
}

// open is the stream that is in use, nil if there is none.
func (s *simServer) open(c *simChan) *simBody {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, b := range c.bodies {
		if b.alive() {
			return b
		}
	}
	return nil
}

// next waits for an attempt to connect, in virtual time.
func (s *simServer) next(c *simChan, limit time.Duration) (*simAttempt, error) {
	for waited := time.Duration(0); ; waited += time.Second {
		synctest.Wait()
		s.mu.Lock()
		var a *simAttempt
		if len(c.pending) > 0 {
			a = c.pending[0]
		}
		s.mu.Unlock()
		if a != nil {
			return a, nil
		}
		if waited >= limit {
			return nil, fmt.Errorf("%v: no attempt to connect within %v after the connection was lost or refused", c, limit)
		}
		time.Sleep(time.Second)
	}
}

const reconnectLimit = time.Minute

func (s *simServer) answer(c *simChan, a *simAttempt, o simOutcome) {
	s.mu.Lock()
	c.drop(a)
	if o.body != nil {
		c.bodies = append(c.bodies, o.body)
	}
	s.mu.Unlock()
	a.reply <- o
	synctest.Wait()
}

// connect makes sure there is an open stream.
func (s *simServer) connect(c *simChan) (*simBody, error) {
	if b := s.open(c); b != nil {
		return b, nil
	}
	a, err := s.next(c, reconnectLimit)
	if err != nil {
		return nil, err
	}
	b := &simBody{ctx: a.ctx, wake: make(chan struct{}, 1)}
	s.answer(c, a, simOutcome{code: 200, body: b})
	return b, nil
}

var simFailures = []string{"eof", "unexpected", "timeout", "closed", "refused", "reset", "500", "503", "403", "404", "401", "429", "410"}

type simTimeout struct{}

func (simTimeout) Error() string   { return "net/http: TLS handshake timeout" }
func (simTimeout) Timeout() bool   { return true }
func (simTimeout) Temporary() bool { return true }

func failureOutcome(kind string) simOutcome {
	switch kind {
	case "refused":
		return simOutcome{err: errors.New("dial tcp 10.0.0.1:6443: connect: connection refused")}
	case "reset":
		return simOutcome{err: errors.New("tls: handshake failure")}
	case "eof":
		return simOutcome{err: io.EOF}
	case "unexpected":
		return simOutcome{err: io.ErrUnexpectedEOF}
	case "timeout":
		return simOutcome{err: simTimeout{}}
	case "closed":
		return simOutcome{err: errors.New("http: server closed idle connection, EOF")}
	case "429":
		return simOutcome{code: 429, head: http.Header{"Retry-After": {"1"}}, text: statusText(429)}
	}
	code := 0
	_, _ = fmt.Sscan(kind, &code)
	return simOutcome{code: code, text: statusText(code)}
}

func statusText(code int) string {
	return fmt.Sprintf(`{"kind":"Status","apiVersion":"v1","metadata":{},"status":"Failure","message":"no","reason":"%s","code":%d}`, http.StatusText(code), code)
}

func (s *simServer) faultErr() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.faults) > 0 {
		return errors.New(s.faults[0])
	}
	return nil
}

// teardown stops whatever is still running, so that the bubble can end.
func (s *simServer) teardown(stop func() error) {
	s.mu.Lock()
	s.down = true
	s.mu.Unlock()
	if stop != nil {
		_ = stop()
	}
	synctest.Wait()
	for _, c := range s.list() {
		s.mu.Lock()
		pend := append([]*simAttempt{}, c.pending...)
		bodies := append([]*simBody{}, c.bodies...)
		s.mu.Unlock()
		for _, b := range bodies {
			b.finish(io.EOF)
		}
		for _, a := range pend {
			s.answer(c, a, simOutcome{err: errors.New("the server has gone")})
		}
	}
	for i := 0; i < 30; i++ {
		synctest.Wait()
		time.Sleep(20 * time.Second)
	}
	synctest.Wait()
}

// simLine is a watch event as it is sent.
func simLine(kind string, doc interface{}) []byte {
	b, err := json.Marshal(map[string]interface{}{"type": kind, "object": doc})
	if err != nil {
		panic(err)
	}
	return append(b, '\n')
}

var simKinds = map[GVR]string{gvrPods: "Pod", gvrDeploys: "Deployment", gvrDeploysB: "Deployment", gvrPodsX: "Pod", gvrWidgets: "Widget", gvrServices: "Service"}

func apiVersion(g GVR) string {
	if g.Group == "" {
		return g.Version
	}
	return g.Group + "/" + g.Version
}

func simDoc(g GVR, o Obj) interface{} {
	meta := o.meta()
	if o.V%4 != 0 {
		meta.Generation = int64(1 + o.V/8) // which not every change increments
	}
	return map[string]interface{}{"apiVersion": apiVersion(g), "kind": simKinds[g], "metadata": meta}
}

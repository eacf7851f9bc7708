package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"ckverif/vk"

	"pgregory.net/rapid"
)

// c35Answer is what an API server does with one forwarded request.
type c35Answer struct {
	Form  string `json:"form"` // body, fail, refuse, cut; when it is a watch, stall and mute are silent and flood sends on until the client has left
	Bytes int    `json:"bytes,omitempty"`
	Lines int    `json:"lines,omitempty"`
}

type c35Case struct {
	World    c17Case     `json:"world"`
	Answers  []c35Answer `json:"answers"` // given in turn
	Leave    []bool      `json:"leave"`   // whose client is gone before the request begins
	Together bool        `json:"together,omitempty"`
}

func genC35(t *rapid.T) c35Case {
	c := c35Case{World: genC17(t)}
	c.World.Code = 200
	for i := intIn(t, "plain requests", 0, 4); i > 0; i-- {
		c.World.Reqs = append(c.World.Reqs, rawReq{Method: "GET", Target: pick(t, "plain target", "/api/v1/pods", "/api/v1/secrets", "/api/v1/secrets?watch=1", "/api/v1/pods?watch=true", "/api/v1/watch/pods", "/apis/example.io/v1/widgets?watch=true&resourceVersion=0", "/healthy", "/api/v1/secrets?cluster=nowhere&watch=1")})
	}
	for i := intIn(t, "answers", 1, 4); i > 0; i-- {
		c.Answers = append(c.Answers, c35Answer{
			Form:  pick(t, "form", "body", "body", "fail", "refuse", "cut", "stall", "stall", "mute", "flood"),
			Bytes: pick(t, "bytes", 0, 1, 300, 20000), Lines: intIn(t, "lines", 0, 5),
		})
	}
	for range c.World.Reqs {
		c.Leave = append(c.Leave, chance(t, "leave", 10))
	}
	c.Together = chance(t, "together", 50)
	return c
}

// c35Body is an API server's answer, which the proxy must read to its end, close, or cancel the request of.
type c35Body struct {
	ctx     context.Context
	r       io.Reader
	end     error // after the text, nil: nothing until the request is cancelled or the body closed
	flood   bool
	stalled chan struct{}
	closed  chan struct{}
	once    sync.Once
	done    atomic.Bool
	what    string
}

func (b *c35Body) Read(p []byte) (int, error) {
	if n, err := b.r.Read(p); n > 0 || err == nil {
		return n, nil
	}
	if b.flood {
		select {
		case b.stalled <- struct{}{}:
		default:
		}
		select {
		case <-b.ctx.Done():
			return 0, b.ctx.Err()
		case <-b.closed:
			return 0, errors.New("read of a closed body")
		case <-time.After(20 * time.Microsecond):
			b.r = strings.NewReader("another\nline\n")
			return b.r.Read(p)
		}
	}
	if b.end != nil {
		if b.end == io.EOF {
			b.done.Store(true)
		}
		return 0, b.end
	}
	select {
	case b.stalled <- struct{}{}:
	default:
	}
	select {
	case <-b.ctx.Done():
		return 0, b.ctx.Err()
	case <-b.closed:
		return 0, errors.New("read of a closed body")
	}
}

func (b *c35Body) Close() error {
	b.once.Do(func() { close(b.closed) })
	return nil
}

func (b *c35Body) released() bool {
	select {
	case <-b.closed:
		return true
	case <-b.ctx.Done():
		return true
	default:
		return b.done.Load()
	}
}

var goroutineHead = regexp.MustCompile(`(?m)^goroutine (\d+) \[`)

// goroutines are the stacks of all goroutines by their number.
func goroutines() map[string]string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	m := map[string]string{}
	for _, s := range strings.Split(string(buf), "\n\n") {
		if h := goroutineHead.FindStringSubmatch(s); h != nil {
			m[h[1]] = s
		}
	}
	return m
}

func checkC35(_ *vk.Env, c c35Case) error {
	before := goroutines()
	h, up := c.World.handler()
	mu := sync.Mutex{}
	bodies := []*c35Body{}
	count := 0
	stalled := make(chan struct{}, 100)
	up.trip = func(req *http.Request) (*http.Response, error) {
		watch := isWatchURL(req)
		mu.Lock()
		a := c.Answers[count%len(c.Answers)]
		count++
		mu.Unlock()
		code, text := 200, strings.Repeat("x", a.Bytes)
		if watch {
			text = strings.Repeat(strings.Repeat("y", a.Bytes%500)+"\n", a.Lines)
		}
		b := &c35Body{ctx: req.Context(), end: io.EOF, stalled: stalled, closed: make(chan struct{}), what: req.Method + " " + req.URL.RequestURI()}
		switch a.Form {
		case "fail":
			code, text = 404, `{"kind":"Status","apiVersion":"v1","status":"Failure","reason":"NotFound","code":404}`
		case "refuse":
			return nil, errors.New("connection refused")
		case "cut":
			b.end = errors.New("connection lost")
		case "stall":
			if watch {
				b.end = nil
			}
		case "flood":
			b.flood = watch
		case "mute":
			if watch {
				stalled <- struct{}{}
				<-req.Context().Done()
				return nil, req.Context().Err()
			}
		}
		b.r = bytes.NewReader([]byte(text))
		mu.Lock()
		bodies = append(bodies, b)
		mu.Unlock()
		return &http.Response{StatusCode: code, Status: http.StatusText(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: jsonHeader(), Body: b, ContentLength: -1, Request: req}, nil
	}
	all, leave := context.WithCancel(context.Background())
	defer leave()
	gone, cancel := context.WithCancel(context.Background())
	cancel()
	wg := sync.WaitGroup{}
	n := 0
	for i, raw := range c.World.Reqs {
		req, _, err := raw.parse()
		if err != nil {
			continue
		}
		n++
		ctx := all
		if c.Leave[i%len(c.Leave)] {
			ctx = gone
		}
		over := make(chan struct{})
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer close(over)
			h.ServeHTTP(httptest.NewRecorder(), req.WithContext(ctx))
		}()
		if !c.Together {
			select {
			case <-over:
			case <-stalled: // until its client leaves
			}
		}
	}
	if c.Together {
		time.Sleep(time.Duration(n) * 100 * time.Microsecond)
	}
	leave()
	answered := make(chan struct{})
	go func() { wg.Wait(); close(answered) }()
	select {
	case <-answered:
	case <-time.After(watchPatience):
		return fmt.Errorf("%v after all clients have left, there are requests being served:\n%s", watchPatience, newGoroutines(before))
	}
	mu.Lock()
	defer mu.Unlock()
	for _, b := range bodies {
		if !b.released() {
			return fmt.Errorf("all requests are over, and the answer to %s is neither read to its end nor closed nor cancelled: its connection stays open", b.what)
		}
	}
	for end := time.Now().Add(watchPatience); ; time.Sleep(time.Millisecond) {
		left := newGoroutines(before)
		if left == "" {
			break
		}
		if time.Now().After(end) {
			return fmt.Errorf("%v after all requests have been answered and all clients have left, these goroutines are left of them:\n%s", watchPatience, left)
		}
	}
	rec := httptest.NewRecorder()
	h.ServeHTTP(rec, httptest.NewRequest("GET", "/healthy", nil))
	if rec.Code != 200 || rec.Body.String() != "1" {
		return fmt.Errorf("afterwards /healthy is answered %d %q", rec.Code, rec.Body)
	}
	return nil
}

// newGoroutines are the stacks of the goroutines but this one that were not there before.
func newGoroutines(before map[string]string) string {
	out := []string{}
	for id, s := range goroutines() {
		if _, ok := before[id]; !ok && !strings.Contains(s, "props.newGoroutines") {
			out = append(out, s)
		}
	}
	return strings.Join(out, "\n\n")
}

func isWatchURL(r *http.Request) bool {
	w, ok := r.URL.Query()["watch"]
	return ok && w[0] != "0" && !strings.EqualFold(w[0], "false") || strings.Contains(r.URL.Path, "/watch/")
}

func classifyC35(c c35Case) (bool, []string) {
	l := []string{fmt.Sprintf("together=%v", c.Together)}
	n := 0
	for _, r := range c.World.Reqs {
		if req, _, err := r.parse(); err == nil {
			n++
			if isWatchURL(req) {
				l = append(l, "watch")
			}
		}
	}
	for _, a := range c.Answers {
		l = append(l, "API servers "+a.Form)
	}
	for _, x := range c.Leave {
		if x {
			l = append(l, "a client leaves early")
		}
	}
	return n > 0, l
}

func init() {
	vk.Register(&vk.Property{
		ID:    "C35",
		Setup: func(*vk.Env) error { quietStdout(); return nil },
		Parts: []*vk.Part{vk.New(vk.Part{
			Name:  "requests",
			Rule:  "1-9 requests parsed from HTTP text as for C17, plain or odd, one after the other or all at once, answered from the cache, refused, or forwarded to API servers that answer, fail, refuse, break off, fall silent or send without end, with clients that leave before or while they are served; afterwards every answer of an API server must be read to its end, closed or cancelled, and no goroutine may be left; non-trivial when at least one text is an HTTP request",
			Quick: 8000, Thorough: 250000, CaseTimeout: 60 * time.Second,
		}, vk.Def[c35Case]{Gen: genC35, Check: checkC35, Classify: classifyC35, Fixed: []c35Case{
			{World: c17Case{Resources: []string{"pods"}, Index: "plain", Default: "c1", Code: 200, Reqs: []rawReq{{Method: "GET", Target: "/api/v1/secrets?watch=1"}, {Method: "GET", Target: "/api/v1/secrets"}, {Method: "GET", Target: "/api/v1/pods"}}}, Answers: []c35Answer{{Form: "stall", Lines: 2, Bytes: 20}, {Form: "body", Bytes: 300}}, Leave: []bool{false}},
			{World: c17Case{Resources: []string{"pods"}, Index: "plain", Default: "c1", Code: 200, Reqs: []rawReq{{Method: "GET", Target: "/api/v1/secrets?watch=1"}}}, Answers: []c35Answer{{Form: "body", Lines: 2, Bytes: 20}}, Leave: []bool{false}},
		}})},
		Assumptions: []string{"memory and timers that outlive a request are not measured"},
	})
}

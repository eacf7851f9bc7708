package props

import (
	"bytes"
	"io"
	"net/http"
	"sync"

	"k8s.io/client-go/kubernetes"
	"k8s.io/client-go/rest"
)

// upReq is one request that reached an API server.
type upReq struct {
	Cluster string
	Method  string
	Path    string // as sent, escaped
	Query   string
	Body    string
	Header  http.Header
}

// upstream stands for the API servers of all clusters.
type upstream struct {
	mu     sync.Mutex
	reqs   []upReq
	answer func(upReq) (int, http.Header, io.ReadCloser)
	// trip takes the place of answer when it is set
	trip func(*http.Request) (*http.Response, error)
}

func (u *upstream) taken() []upReq {
	u.mu.Lock()
	defer u.mu.Unlock()
	r := u.reqs
	u.reqs = nil
	return r
}

type upTransport struct {
	u       *upstream
	cluster string
}

func (t upTransport) RoundTrip(req *http.Request) (*http.Response, error) {
	r := upReq{Cluster: t.cluster, Method: req.Method, Path: req.URL.EscapedPath(), Query: req.URL.RawQuery, Header: req.Header.Clone()}
	if req.Body != nil {
		b, err := io.ReadAll(req.Body)
		_ = req.Body.Close()
		if err != nil {
			return nil, err
		}
		r.Body = string(b)
	}
	t.u.mu.Lock()
	t.u.reqs = append(t.u.reqs, r)
	t.u.mu.Unlock()
	if t.u.trip != nil {
		return t.u.trip(req)
	}
	code, h, body := 200, http.Header{"Content-Type": {"application/json"}}, io.NopCloser(bytes.NewReader([]byte(`{"upstream":true}`)))
	if t.u.answer != nil {
		c, hh, b := t.u.answer(r)
		if hh != nil {
			h = hh
		}
		code, body = c, b
	}
	return &http.Response{StatusCode: code, Status: http.StatusText(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Body: body, ContentLength: -1, Request: req}, nil
}

// clients are the proxy's clients for the given clusters.
func (u *upstream) clients(clusters ...string) map[string]kubernetes.Interface {
	m := map[string]kubernetes.Interface{}
	for _, c := range clusters {
		cs, err := kubernetes.NewForConfig(&rest.Config{Host: "http://upstream.test", Transport: upTransport{u, c}, QPS: -1})
		if err != nil {
			panic(err)
		}
		m[c] = cs
	}
	return m
}

func bodyOf(s string) io.ReadCloser { return io.NopCloser(bytes.NewReader([]byte(s))) }

func jsonHeader() http.Header { return http.Header{"Content-Type": {"application/json"}} }

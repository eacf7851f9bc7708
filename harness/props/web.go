package props

import (
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"strings"
	"syscall"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/server"
	"github.com/DaoCloud/ckube/store"
	"github.com/gorilla/mux"
	"k8s.io/client-go/kubernetes"
)

// router is the proxy's HTTP handler, configured with cfg.
func router(cfg common.Config, st store.Store, clis map[string]kubernetes.Interface) http.Handler {
	common.InitConfig(&cfg)
	var h *mux.Router
	server.NewMuxServer("", clis, st, func(r *mux.Router) { h = r })
	return h
}

func proxyConf(g GVR, listKind string, index map[string]string) common.Proxy {
	return common.Proxy{Group: g.Group, Version: g.Version, Resource: g.Resource, ListKind: listKind, Index: index}
}

type reply struct {
	Code   int
	Header http.Header
	Body   []byte
}

// do sends one request to a handler in this process.
func do(h http.Handler, method, target string, header map[string]string, body string) reply {
	var rd io.Reader
	if body != "" {
		rd = strings.NewReader(body)
	}
	req := httptest.NewRequest(method, "http://ckube.test/", rd)
	if u, err := url.ParseRequestURI(target); err == nil {
		req.URL = u // as the HTTP server does it
	} else if i := strings.IndexByte(target, '?'); i >= 0 {
		req.URL.Path, req.URL.RawQuery = target[:i], target[i+1:]
	} else {
		req.URL.Path = target
	}
	req.RequestURI = target
	for k, v := range header {
		req.Header.Set(k, v)
	}
	rec := httptest.NewRecorder()
	h.ServeHTTP(rec, req)
	return reply{Code: rec.Code, Header: rec.Header(), Body: rec.Body.Bytes()}
}

// quietStdout keeps the stack traces the proxy prints on failures out of the way.
func quietStdout() {
	if f, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		_ = syscall.Dup2(int(f.Fd()), 1)
	}
}

func collectionPath(g GVR, ns string) string {
	p := "/api/" + g.Version
	if g.Group != "" {
		p = "/apis/" + g.Group + "/" + g.Version
	}
	if ns != "" {
		p += "/namespaces/" + ns
	}
	return p + "/" + g.Resource
}

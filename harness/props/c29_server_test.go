//go:build go1.25 && ckvnet

package props

import (
	"context"
	"io"
	"net"
	"net/http"
	"sync"

	"ckverif/vk"

	"github.com/DaoCloud/ckube/server"
	"github.com/DaoCloud/ckube/store"
	"github.com/gorilla/mux"
	"k8s.io/client-go/kubernetes"
)

// The proxy's server itself in virtual time: check.sh builds this with a net package whose listeners can be replaced
// (VerifListen), here by one of pipes within the process, whose deadlines are kept in virtual time.

type pipeListener struct {
	conns chan net.Conn
	once  sync.Once
	done  chan struct{}
}

func (l *pipeListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.conns:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}

func (l *pipeListener) Close() error {
	l.once.Do(func() { close(l.done) })
	return nil
}

func (l *pipeListener) Addr() net.Addr { return pipeAddr{} }

type pipeAddr struct{}

func (pipeAddr) Network() string { return "pipe" }
func (pipeAddr) String() string  { return "pipe" }

func (l *pipeListener) dial(ctx context.Context, _, _ string) (net.Conn, error) {
	here, there := net.Pipe()
	select {
	case l.conns <- there:
		return here, nil
	case <-l.done:
		return nil, net.ErrClosed
	case <-ctx.Done():
		return nil, ctx.Err()
	}
}

// overPipes passes requests on to a server, as a client on the network does.
type overPipes struct{ c *http.Client }

func (o overPipes) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	req, err := http.NewRequestWithContext(r.Context(), r.Method, "http://ckube.test"+r.URL.RequestURI(), nil)
	if err != nil {
		return
	}
	resp, err := o.c.Do(req)
	if err != nil {
		return
	}
	defer resp.Body.Close()
	w.WriteHeader(resp.StatusCode)
	_, _ = io.Copy(struct{ io.Writer }{w}, resp.Body)
}

func servePipes(_ http.Handler, clis map[string]kubernetes.Interface, st store.Store) (http.Handler, func()) {
	l := &pipeListener{conns: make(chan net.Conn), done: make(chan struct{})}
	net.VerifListen = func(string, string) (net.Listener, error) { return l, nil }
	ser := server.NewMuxServer("ckube.test:80", clis, st, func(*mux.Router) {})
	over := make(chan struct{})
	go func() {
		defer close(over)
		_ = ser.Run()
	}()
	tr := &http.Transport{DialContext: l.dial}
	return overPipes{&http.Client{Transport: tr}}, func() {
		tr.CloseIdleConnections()
		_ = ser.Stop()
		_ = l.Close()
		<-over
	}
}

var _ = func() bool {
	c29Parts = append(c29Parts, vk.New(vk.Part{
		Name:  "server",
		Rule:  "the same through the proxy's HTTP server, as the program starts it, with the connections of the clients and all their deadlines in virtual time; non-trivial when they stay open for more than a minute",
		Quick: 1500, Thorough: 50000,
	}, vk.Def[c29IdleCase]{Gen: genC29Idle, Check: func(_ *vk.Env, c c29IdleCase) error { return c29Idle(c, servePipes) }, Classify: classifyC29Idle}))
	return true
}()

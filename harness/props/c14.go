package props

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"ckverif/vk"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/page"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"pgregory.net/rapid"
)

// c14Stream is one watch and what the API server does with it.
type c14Stream struct {
	Path     string   `json:"path"`
	Form     string   `json:"form"` // the parameter, "" for a watch path
	Cluster  string   `json:"cluster"`
	How      string   `json:"how"` // param, selector, default
	Params   []param  `json:"params,omitempty"`
	Selector string   `json:"selector,omitempty"`
	Chunks   []string `json:"chunks"` // as the server writes them
	Repeat   int      `json:"repeat,omitempty"`
	Break    bool     `json:"break,omitempty"` // the connection breaks at the end
	Code     int      `json:"code,omitempty"`  // a refusal
	Reason   string   `json:"reason,omitempty"`
	Message  string   `json:"message,omitempty"`
}

type c14Case struct {
	Default string      `json:"default"`
	Streams []c14Stream `json:"streams"` // at the same time
}

func genEventText(t *rapid.T) string {
	switch intIn(t, "line", 0, 9) {
	case 0, 1, 2, 3:
		return `{"type":"ADDED","object":{"kind":"Pod","metadata":{"name":"` + pick(t, "n", "web", "日本", `q\"`, "x\\n", "") + `"}}}` + "\n"
	case 4:
		return "\n"
	case 5:
		return "line\r\n"
	case 6:
		return strings.Repeat(pick(t, "c", "x", "é", "\x00", "0123456789"), intIn(t, "long", 500, 9000)) + "\n"
	case 7:
		return "\x00\xff\xfe\r" + genText(t) + "\n"
	case 8:
		return genText(t) + "\n\n" + genText(t) + "\n"
	}
	return `{"type":"BOOKMARK","object":{"metadata":{"resourceVersion":"12345678901234567890"}}}` + "\n"
}

func genC14(t *rapid.T) c14Case {
	c := c14Case{Default: pick(t, "default", "c1", "c2")}
	for n := pick(t, "streams", 1, 1, 2, 3); n > 0; n-- {
		s := c14Stream{Cluster: pick(t, "cluster", "c1", "c2", "c3/x"), How: pick(t, "how", "param", "selector", "default")}
		if s.How == "default" {
			s.Cluster = c.Default
		} else if s.How == "selector" && s.Cluster == "c3/x" {
			s.Cluster = "c1"
		}
		plain := pick(t, "path", "/api/v1/pods", "/api/v1/namespaces/a/pods", "/api/v1/namespaces/a/pods/web", "/apis/example.io/v1/widgets", "/apis/example.io/v1/namespaces/a/widgets", "/api/v1/services", "/apis/apps/v1/namespaces/a/deployments/web")
		if chance(t, "watch path", 30) {
			parts := strings.Split(plain, "/")
			i := 3
			if parts[1] == "apis" {
				i = 4
			}
			s.Path = strings.Join(parts[:i], "/") + "/watch/" + strings.Join(parts[i:], "/")
		} else {
			s.Path, s.Form = plain, pick(t, "form", "watch=true", "watch=1", "watch=True", "watch=TRUE", "watch=t", "watch", "watch=", "watch=y", "watch=yes")
		}
		for i := intIn(t, "params", 0, 2); i > 0; i-- {
			s.Params = append(s.Params, param{pick(t, "key", "resourceVersion", "allowWatchBookmarks", "timeoutSeconds", "fieldSelector", "x y"), pick(t, "value", "0", "true", "metadata.name=web", "", "a&b")})
		}
		if chance(t, "selector", 30) {
			s.Selector = genLabelSelector(t, 2)
		}
		if chance(t, "refused", 18) {
			s.Code = pick(t, "code", 400, 401, 403, 404, 405, 410, 429, 500, 503, 504)
			s.Reason = pick(t, "reason", "Forbidden", "Expired", "NotFound", "Gone", "MyReason", "Unauthorized")
			s.Message = pick(t, "message", "too old resource version: 1 (2)", `pods is forbidden: User "x"`, "日本", genText(t))
			c.Streams = append(c.Streams, s)
			continue
		}
		text := ""
		for i := intIn(t, "events", 0, 8); i > 0; i-- {
			text += genEventText(t)
		}
		if chance(t, "unfinished", 30) {
			text += pick(t, "rest", `{"type":"ADDED"`, "x", "\x00", strings.Repeat("z", 5000))
		}
		for len(text) > 0 {
			k := len(text)
			switch intIn(t, "cut", 0, 3) {
			case 0, 1:
				if i := strings.IndexByte(text, '\n'); i >= 0 {
					k = i + 1
				}
			case 2:
				k = intIn(t, "at", 1, min(len(text), 200))
			}
			s.Chunks = append(s.Chunks, text[:k])
			text = text[k:]
		}
		s.Break = chance(t, "break", 20)
		if chance(t, "many", 4) {
			s.Repeat = intIn(t, "times", 2, 60)
		}
		c.Streams = append(c.Streams, s)
	}
	return c
}

// the proxy of this worker, its handler replaced for every case
var c14Server *httptest.Server
var c14Handler atomic.Value

func setupC14(*vk.Env) error {
	quietStdout()
	c14Server = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { c14Handler.Load().(http.Handler).ServeHTTP(w, r) }))
	return nil
}

func (s c14Stream) chunks() []string {
	out := s.Chunks
	for i := 1; i < s.Repeat; i++ {
		out = append(out, s.Chunks...)
	}
	return out
}

const streamPatience = 10 * time.Second

func checkC14(_ *vk.Env, c c14Case) error {
	pipes := make([]*io.PipeWriter, len(c.Streams))
	readers := make([]*io.PipeReader, len(c.Streams))
	for i := range c.Streams {
		readers[i], pipes[i] = io.Pipe()
	}
	up := &upstream{answer: func(r upReq) (int, http.Header, io.ReadCloser) {
		q, _ := url.ParseQuery(r.Query)
		i := int(q.Get("id")[0] - '0')
		if s := c.Streams[i]; s.Code != 0 {
			b, _ := json.Marshal(metav1.Status{TypeMeta: metav1.TypeMeta{Kind: "Status", APIVersion: "v1"}, Status: "Failure", Reason: metav1.StatusReason(s.Reason), Message: s.Message, Code: int32(s.Code)})
			return s.Code, jsonHeader(), bodyOf(string(b))
		}
		return 200, jsonHeader(), readers[i]
	}}
	index := searchIndex()
	st := newStore(map[GVR]map[string]string{gvrPods: index, gvrWidgets: index})
	_ = st.OnResourceAdded(gvrPods, c.Default, SObj{NS: "a", Name: "web"}.build())
	c14Handler.Store(http.HandlerFunc(router(common.Config{Proxies: []common.Proxy{proxyConf(gvrPods, "PodList", index), proxyConf(gvrWidgets, "WidgetList", index)}, DefaultCluster: c.Default}, st, up.clients("c1", "c2", "c3/x")).ServeHTTP))
	errs := make([]error, len(c.Streams))
	var wg sync.WaitGroup
	for i, s := range c.Streams {
		wg.Add(1)
		go func(i int, s c14Stream) {
			defer wg.Done()
			errs[i] = s.run(i, pipes[i])
			_ = pipes[i].Close()
		}(i, s)
	}
	wg.Wait()
	sent := up.taken()
	if len(sent) != len(c.Streams) {
		return fmt.Errorf("%d watches led to %d requests: %s", len(c.Streams), len(sent), short(sent))
	}
	for _, r := range sent {
		q, err := url.ParseQuery(r.Query)
		if err != nil {
			return err
		}
		s := c.Streams[int(q.Get("id")[0]-'0')]
		if r.Cluster != s.Cluster || r.Path != s.Path || r.Method != "GET" {
			return fmt.Errorf("the watch %s of %q was sent as %s %s to %q", s.Path, s.Cluster, r.Method, r.Path, r.Cluster)
		}
		want := url.Values{}
		for _, p := range s.Params {
			want.Add(p.K, p.V)
		}
		if s.Form != "" {
			f, v, _ := strings.Cut(s.Form, "=")
			want.Add(f, v)
		}
		if l := q.Get("labelSelector"); s.Selector != "" {
			if err := sameSelection(l, s.Selector); err != nil {
				return err
			}
		} else if l != "" {
			if err := sameSelection(l, ""); err != nil {
				return err
			}
		}
		for _, k := range []string{"timeout", "cluster", "id", "labelSelector"} {
			q.Del(k)
		}
		if q.Encode() != want.Encode() {
			return fmt.Errorf("the watch %s with %q was sent with %q", s.Path, want.Encode(), q.Encode())
		}
	}
	for i, err := range errs {
		if err != nil {
			return fmt.Errorf("watch %d, %s?%s: %v", i, c.Streams[i].Path, c.Streams[i].Form, err)
		}
	}
	return nil
}

func (s c14Stream) target(i int) (string, error) {
	q := []string{fmt.Sprintf("id=%d", i)}
	if s.Form != "" {
		q = append(q, s.Form)
	}
	for _, p := range s.Params {
		q = append(q, url.QueryEscape(p.K)+"="+url.QueryEscape(p.V))
	}
	sel := s.Selector
	switch s.How {
	case "param":
		q = append(q, "cluster="+url.QueryEscape(s.Cluster))
	case "selector":
		p := page.Paginate{}
		if err := p.Clusters([]string{s.Cluster}); err != nil {
			return "", err
		}
		o, err := page.QueryListOptions(metav1.ListOptions{LabelSelector: sel}, p)
		if err != nil {
			return "", err
		}
		sel = o.LabelSelector
	}
	if sel != "" {
		q = append(q, "labelSelector="+url.QueryEscape(sel))
	}
	return s.Path + "?" + strings.Join(q, "&"), nil
}

// run watches through the proxy while playing the API server's part.
func (s c14Stream) run(i int, server *io.PipeWriter) error {
	target, err := s.target(i)
	if err != nil {
		return err
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	req, err := http.NewRequestWithContext(ctx, "GET", c14Server.URL+target, nil)
	if err != nil {
		return err
	}
	var mu sync.Mutex
	got, ended := []byte{}, false
	code := 0
	more := make(chan struct{}, 1)
	signal := func() {
		select {
		case more <- struct{}{}:
		default:
		}
	}
	var clientErr error
	go func() {
		defer signal()
		resp, err := http.DefaultClient.Do(req)
		if err != nil {
			mu.Lock()
			ended, clientErr = true, err
			mu.Unlock()
			return
		}
		defer resp.Body.Close()
		mu.Lock()
		code = resp.StatusCode
		mu.Unlock()
		buf := make([]byte, 32768)
		for {
			n, err := resp.Body.Read(buf)
			mu.Lock()
			got = append(got, buf[:n]...)
			if err != nil {
				ended = true
				if !errors.Is(err, io.EOF) {
					clientErr = err
				}
			}
			mu.Unlock()
			signal()
			if err != nil {
				return
			}
		}
	}()
	// wait until the condition holds for what the client has
	await := func(what string, cond func() bool) error {
		limit := time.After(streamPatience)
		for {
			mu.Lock()
			ok, over := cond(), ended
			mu.Unlock()
			if ok {
				return nil
			}
			if over {
				return fmt.Errorf("%s: the client's stream ended (%v, status %d) after %.200q", what, clientErr, code, got)
			}
			select {
			case <-more:
			case <-limit:
				mu.Lock()
				defer mu.Unlock()
				return fmt.Errorf("%s: the client has %d bytes after %v: %.200q", what, len(got), streamPatience, got)
			}
		}
	}
	if s.Code != 0 {
		if err := await("refusal", func() bool { return ended && clientErr == nil }); err != nil {
			return err
		}
		st := metav1.Status{}
		if err := json.Unmarshal(got, &st); err != nil || code != s.Code || int(st.Code) != s.Code || string(st.Reason) != s.Reason || st.Message != s.Message {
			return fmt.Errorf("refused with %d %s %q, the client got %d %.300q", s.Code, s.Reason, s.Message, code, got)
		}
		return nil
	}
	sent := []byte{}
	for _, chunk := range s.chunks() {
		if _, err := server.Write([]byte(chunk)); err != nil {
			return fmt.Errorf("the proxy stopped reading: %v", err)
		}
		sent = append(sent, chunk...)
		complete := bytes.LastIndexByte(sent, '\n') + 1
		if err := await("a complete line was sent", func() bool { return len(got) >= complete }); err != nil {
			return err
		}
		mu.Lock()
		ok := bytes.HasPrefix(sent, got)
		mu.Unlock()
		if !ok {
			return fmt.Errorf("the client has %.300q of %.300q", got, sent)
		}
	}
	if s.Break {
		_ = server.CloseWithError(io.ErrUnexpectedEOF)
	} else {
		_ = server.Close()
	}
	if err := await("the stream ended", func() bool { return ended }); err != nil {
		return err
	}
	if clientErr != nil && !s.Break {
		return fmt.Errorf("the client's stream ended with %v", clientErr)
	}
	if !bytes.Equal(got, sent) || code != 200 {
		i := 0
		for i < len(got) && i < len(sent) && got[i] == sent[i] {
			i++
		}
		return fmt.Errorf("status %d, %d bytes were sent and %d arrived, they differ from %d: sent %.200q, got %.200q", code, len(sent), len(got), i, sent[i:], got[i:])
	}
	return nil
}

func classifyC14(c c14Case) (bool, []string) {
	l := []string{fmt.Sprintf("streams=%d", len(c.Streams))}
	nt := false
	for _, s := range c.Streams {
		text := strings.Join(s.chunks(), "")
		switch {
		case s.Code != 0:
			l = append(l, "refused")
		case text == "":
			l = append(l, "empty stream")
		case !strings.HasSuffix(text, "\n"):
			l = append(l, "unfinished line")
		}
		if s.Break {
			l = append(l, "broken connection")
		}
		if s.Form == "" {
			l = append(l, "watch path")
		}
		nt = nt || s.Code != 0 || len(s.Chunks) > 1
	}
	return nt, l
}

func init() {
	ev := []string{"{\"type\":\"ADDED\"}\n", "{\"type\":", "\"DELETED\"}\n\n"}
	vk.Register(&vk.Property{
		ID:    "C14",
		Setup: setupC14,
		Teardown: func(*vk.Env) {
			if c14Server != nil {
				c14Server.CloseClientConnections()
			}
		},
		Parts: []*vk.Part{vk.New(vk.Part{
			Name:  "stream",
			Rule:  "1-3 watches at the same time through a real HTTP server, written as a parameter or a path, addressed by parameter, query or default; the API server sends up to 60 times 8 lines (also empty, long, binary and unfinished ones) in chunks cut anywhere and ends or breaks the stream, or refuses it; each complete line must reach the client before the next chunk is sent, and all bytes in the end; non-trivial with several chunks or a refusal",
			Quick: 2500, Thorough: 60000,
		}, vk.Def[c14Case]{Gen: genC14, Check: checkC14, Classify: classifyC14, Fixed: []c14Case{
			{Default: "c1", Streams: []c14Stream{{Path: "/api/v1/pods", Form: "watch=true", Cluster: "c1", How: "default", Chunks: ev}, {Path: "/api/v1/watch/pods", Cluster: "c2", How: "param", Chunks: ev}}},
			{Default: "c1", Streams: []c14Stream{{Path: "/api/v1/pods", Form: "watch", Cluster: "c1", How: "default", Chunks: ev}}},
			{Default: "c1", Streams: []c14Stream{{Path: "/api/v1/pods", Form: "watch=1", Cluster: "c1", How: "default", Code: 410, Reason: "Expired", Message: "too old"}}},
		}})},
		Assumptions: []string{"a client that goes away is not followed", "the timeout parameter is set by the proxy itself"},
	})
}

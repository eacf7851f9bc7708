package props

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"

	"ckverif/vk"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/log"
	"pgregory.net/rapid"
)

// c34Case are requests, one after the other or all at once, and what API servers answer to those that are forwarded.
type c34Case struct {
	World    c17Case `json:"world"`
	Token    string  `json:"token,omitempty"`
	Bytes    int     `json:"bytes"`           // of a success
	Lines    int     `json:"lines,omitempty"` // events of a watch
	Broken   bool    `json:"broken,omitempty"`
	Together bool    `json:"together,omitempty"`
}

func genC34(t *rapid.T) c34Case {
	c := c34Case{World: genC17(t)}
	c.World.Code = pick(t, "answer", 200, 200, 200, 201, 400, 403, 404, 409, 422, 500, 503)
	for i := intIn(t, "plain requests", 0, 4); i > 0; i-- {
		r := rawReq{Method: pick(t, "plain method", "GET", "GET", "GET", "POST", "PUT", "DELETE"), Target: pick(t, "plain target", "/api/v1/pods", "/api/v1/namespaces/a/pods/web", "/api/v1/secrets", "/apis/example.io/v1/widgets?labelSelector=app%3Dweb", "/healthy", "/metrics", "/version", "/api/v1/pods?watch=true", "/api/v1/secrets?watch=1", "/api/v1/secrets?cluster=nowhere", "/api/v1/pods?labelSelector=app+in+(", "/api/v1/namespaces/a/services/x%20y?pretty=%22yes%22")}
		if chance(t, "table", 20) {
			r.Header = append(r.Header, param{"Accept", "application/json;as=Table;v=v1;g=meta.k8s.io"})
		}
		c.World.Reqs = append(c.World.Reqs, r)
	}
	c.Bytes = pick(t, "bytes", 0, 1, 100, 5000, 70000)
	c.Lines = intIn(t, "events", 0, 20)
	c.Broken = chance(t, "broken", 10)
	if chance(t, "token", 15) {
		c.Token = "secret" // which few requests have
	}
	c.Together = chance(t, "together", 50)
	return c
}

// c34Line is one line of the access log, or what it should be.
type c34Line struct{ method, uri, status, bytes string }

func (l c34Line) String() string {
	return fmt.Sprintf("%s %q %s %s", l.method, l.uri, l.status, l.bytes)
}

var c34Field = regexp.MustCompile(`([a-z_]+)=("(?:[^"\\]|\\.)*"|[^ "]*)(?: |$)`)

func parseC34(line string) (c34Line, error) {
	m := map[string]string{}
	if strings.HasPrefix(line, "{") {
		doc := map[string]interface{}{}
		if err := json.Unmarshal([]byte(line), &doc); err != nil {
			return c34Line{}, err
		}
		for k, v := range doc {
			m[k] = fmt.Sprint(v)
		}
	} else {
		for _, f := range c34Field.FindAllStringSubmatch(line, -1) {
			v := f[2]
			if strings.HasPrefix(v, `"`) {
				u, err := strconv.Unquote(v)
				if err != nil {
					return c34Line{}, err
				}
				v = u
			}
			m[f[1]] = v
		}
	}
	for _, k := range []string{"method", "path", "status", "content_length"} {
		if _, ok := m[k]; !ok {
			return c34Line{}, fmt.Errorf("no %s", k)
		}
	}
	return c34Line{m["method"], m["path"], m["status"], m["content_length"]}, nil
}

func checkC34(_ *vk.Env, c c34Case) error {
	out := &syncBuffer{}
	log.AccessLog.SetOutput(out)
	defer log.AccessLog.SetOutput(io.Discard)
	h, up := c.World.handler()
	cfg := common.GetConfig()
	cfg.Token = c.Token
	common.InitConfig(&cfg)
	ok := up.answer
	up.answer = func(r upReq) (int, http.Header, io.ReadCloser) {
		switch {
		case c.World.Code >= 300:
			return ok(r)
		case strings.Contains(r.Query, "watch="):
			text := strings.Repeat(`{"type":"ADDED","object":{"kind":"X","text":"`+strings.Repeat("é", c.Bytes%200)+"\"}}\n", c.Lines)
			if c.Broken {
				text += `{"type":"ADD`
			}
			return 200, jsonHeader(), bodyOf(text)
		}
		return c.World.Code, jsonHeader(), bodyOf(strings.Repeat("x", c.Bytes))
	}
	reqs := []*http.Request{}
	for _, raw := range c.World.Reqs {
		if req, _, err := raw.parse(); err == nil { // others are refused before they reach the proxy
			reqs = append(reqs, req)
		}
	}
	lines := make([]c34Line, len(reqs))
	one := func(i int) {
		uri, method := reqs[i].RequestURI, reqs[i].Method
		rec := httptest.NewRecorder()
		h.ServeHTTP(rec, reqs[i])
		lines[i] = c34Line{method, uri, fmt.Sprint(rec.Code), fmt.Sprint(rec.Body.Len())}
	}
	if c.Together {
		var wg sync.WaitGroup
		for i := range reqs {
			wg.Add(1)
			go func(i int) { defer wg.Done(); one(i) }(i)
		}
		wg.Wait()
	} else {
		for i := range reqs {
			one(i)
		}
	}
	want := []string{}
	free := map[string]int{}
	for _, l := range lines {
		switch {
		case l.status == "301": // to a cleaner path, before it is anybody's request
			free[l.method+" "+l.uri]++
			continue
		case l.method == http.MethodHead:
			l.bytes = "any"
		}
		want = append(want, l.String())
	}
	got := []string{}
	sc := bufio.NewScanner(bytes.NewReader(out.bytes()))
	sc.Buffer(nil, 1<<24)
	for sc.Scan() {
		l, err := parseC34(sc.Text())
		if err != nil {
			return fmt.Errorf("the access log has the line %.500q: %v", sc.Text(), err)
		}
		if l.method == http.MethodHead {
			l.bytes = "any"
		}
		if l.status == "301" && free[l.method+" "+l.uri] > 0 {
			free[l.method+" "+l.uri]--
			continue
		}
		got = append(got, l.String())
	}
	if err := sc.Err(); err != nil {
		return err
	}
	if !c.Together && !eqStrings(got, want) {
		return fmt.Errorf("the access log says\n%s\nand the requests, their answers' status and bytes were\n%s", strings.Join(got, "\n"), strings.Join(want, "\n"))
	}
	sort.Strings(got)
	sort.Strings(want)
	if !eqStrings(got, want) {
		return fmt.Errorf("the access log says\n%s\nand the requests at the same time, their answers' status and bytes were\n%s", strings.Join(got, "\n"), strings.Join(want, "\n"))
	}
	return nil
}

func (s *syncBuffer) bytes() []byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]byte{}, s.b.Bytes()...)
}

func classifyC34(c c34Case) (bool, []string) {
	l := []string{fmt.Sprintf("together=%v", c.Together), fmt.Sprintf("API servers answer %d", c.World.Code), fmt.Sprintf("token=%v", c.Token != "")}
	n := 0
	for _, r := range c.World.Reqs {
		if _, _, err := r.parse(); err == nil {
			n++
			l = append(l, r.Method)
			if strings.Contains(r.Target, "watch=") {
				l = append(l, "watch")
			}
		}
	}
	return n > 0, l
}

func init() {
	get := func(targets ...string) (out []rawReq) {
		for _, x := range targets {
			out = append(out, rawReq{Method: "GET", Target: x})
		}
		return
	}
	vk.Register(&vk.Property{
		ID:    "C34",
		Setup: func(*vk.Env) error { quietStdout(); return nil },
		Parts: []*vk.Part{vk.New(vk.Part{
			Name:  "requests",
			Rule:  "1-9 requests parsed from HTTP text as for C17, plain or odd, one after the other or all at once, forwarded ones answered with bodies, event streams, broken streams or errors; the lines of the access log must be those of the requests with the status and the number of bytes each was answered; non-trivial when at least one text is an HTTP request",
			Quick: 8000, Thorough: 250000,
		}, vk.Def[c34Case]{Gen: genC34, Check: checkC34, Classify: classifyC34, Fixed: []c34Case{
			{World: c17Case{Resources: []string{"pods"}, Index: "plain", Default: "c1", Code: 200, Reqs: get("/healthy", "/api/v1/pods", "/api/v1/secrets", "/api/v1/secrets?watch=1", "/api/v1/secrets?cluster=nowhere", "/api/v1/pods?a=%22x%22")}, Bytes: 5000, Lines: 3},
		}})},
		Assumptions: []string{"the bytes of answers to HEAD requests, and whether redirects to a cleaner path are logged, are not claimed"},
	})
}

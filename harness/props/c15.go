package props

import (
	"encoding/base64"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"

	"ckverif/vk"

	"github.com/DaoCloud/ckube/common"
	"pgregory.net/rapid"
)

type c15Case struct {
	Token  string  `json:"token"`
	Auth   string  `json:"auth"`
	Has    bool    `json:"has"` // an Authorization header is sent
	Method string  `json:"method"`
	Path   string  `json:"path"`
	Query  string  `json:"query,omitempty"`
	Body   string  `json:"body,omitempty"`
	Extra  []param `json:"extra,omitempty"` // other headers
}

const c15Secret = "S3cr3tContent"

func genC15(t *rapid.T) c15Case {
	c := c15Case{Token: pick(t, "token", "secret", "t", "abc.def-123_=", "aaa", "Bearer-x", "two words", "0", "$2a$10$x/y+z==", "'\"", strings.Repeat("long", 100))}
	if chance(t, "no token", 12) {
		c.Token = ""
	}
	if c.Has = chance(t, "header", 85); c.Has {
		if chance(t, "right", 35) {
			c.Auth = pick(t, "scheme", "Bearer ", "", "bearer ", "Token ") + c.Token
		} else {
			tok := c.Token
			if tok == "" {
				tok = "x"
			}
			c.Auth = pick(t, "wrong", "", "Bearer", "Bearer ", "Basic "+base64.StdEncoding.EncodeToString([]byte("u:"+tok)), "Bearer "+tok[:len(tok)-1], "Bearer "+tok[1:], strings.ToUpper(tok), strings.ToLower(tok), "Bearer other", tok[:len(tok)/2]+" "+tok[len(tok)/2:], url.QueryEscape(tok), "*", ".*", "%", "null", "undefined", "Bearer "+tok[:len(tok)/2])
		}
	}
	c.Method = pick(t, "method", "GET", "GET", "GET", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "HEAD", "PURGE", "get")
	c.Path = pick(t, "path",
		"/api/v1/pods", "/api/v1/namespaces/a/pods", "/api/v1/namespaces/a/pods/web", "/api/v1/watch/pods", "/api/v1/services", "/apis/example.io/v1/widgets", "/apis/example.io/v1/namespaces/a/widgets", "/apis/example.io/v1/namespaces/a/widgets/web", "/apis/apps/v1/deployments",
		"/custom/v1/namespaces/a/deployments/web/services", "/custom/v1/clusters/c1/namespaces/a/deployments/web/services",
		"/", "/version", "/api", "/apis/", "/healthz", "/logs/x", "/a/b/c/d/e/f/g/h", "/healthy", "/metrics", "/healthy/", "/metrics/", "/healthy/x", "/metrics/cadvisor", "/metricsx", "/healthyx", "/Healthy", "/METRICS", "/api/v1/nodes/n/proxy/metrics", "/healthy%2F..%2Fapi%2Fv1%2Fpods", "/api/v1/healthy", "/api/v1/namespaces/a/pods/web/log", "//api/v1/pods", "/healthy/../api/v1/pods", "/metrics//api/v1/pods", "/./api/v1/pods")
	c.Query = pick(t, "query", "", "", "", "watch=true", "cluster=c2", "labelSelector=app%3Dweb", "resourceVersion=dsm-cluster-c2", "token="+url.QueryEscape(c.Token), "access_token="+url.QueryEscape(c.Token), "authorization="+url.QueryEscape(c.Token), "limit=1", "x=%zz", "fieldManager=dsm-cluster-c2")
	if c.Method != "GET" && c.Method != "HEAD" && c.Method != "get" && c.Method != "OPTIONS" && chance(t, "body", 50) {
		c.Body = pick(t, "content", "{}", `{"token":"`+c.Token+`"}`, c.Token, `{"dryRun":["dsm-cluster-c2"]}`)
	}
	for i := intIn(t, "extra", 0, 2); i > 0; i-- {
		c.Extra = append(c.Extra, param{pick(t, "name", "X-Authorization", "Proxy-Authorization", "Cookie", "X-Auth-Token", "Accept", "X-Forwarded-For", "X-Original-Url", "X-Http-Method-Override", "Impersonate-User", "Upgrade"), pick(t, "header value", "Bearer "+c.Token, c.Token, "/healthy", "application/json;as=Table", "127.0.0.1", "token="+c.Token)})
	}
	return c
}

// carries says whether the request carries the token in its Authorization header.
func (c c15Case) carries() bool {
	return c.Token == "" || (c.Has && strings.Contains(strings.TrimSpace(c.Auth), c.Token))
}

func (c c15Case) open() bool {
	return (c.Path == "/healthy" || c.Path == "/metrics") && c.Method == "GET"
}

func (c c15Case) ask(token string, auth bool) (reply, []upReq) {
	st := newStore(map[GVR]map[string]string{gvrPods: searchIndex(), gvrServices: searchIndex(), gvrWidgets: searchIndex()})
	for _, g := range []GVR{gvrPods, gvrServices, gvrWidgets} {
		for _, cl := range []string{"c1", "c2"} {
			_ = st.OnResourceAdded(g, cl, SObj{NS: "a", Name: "web", K: map[string]string{"k1": c15Secret}, Labels: map[string]string{"app": "web"}}.buildAny(g == gvrWidgets || g == gvrServices))
		}
	}
	up := &upstream{answer: func(upReq) (int, http.Header, io.ReadCloser) {
		return 200, jsonHeader(), bodyOf(`{"answer":"` + c15Secret + `"}` + "\n")
	}}
	cfg := common.Config{DefaultCluster: "c1", Token: token}
	for _, g := range []GVR{gvrPods, gvrServices, gvrWidgets} {
		cfg.Proxies = append(cfg.Proxies, proxyConf(g, "XList", searchIndex()))
	}
	h := router(cfg, st, up.clients("c1", "c2"))
	header := map[string]string{}
	for _, p := range c.Extra {
		header[p.K] = p.V
	}
	if auth && c.Has {
		header["Authorization"] = strings.TrimSpace(c.Auth) // as an HTTP server reads it
	}
	target := c.Path
	if c.Query != "" {
		target += "?" + c.Query
	}
	r := do(h, c.Method, target, header, c.Body)
	return r, up.taken()
}

func checkC15(_ *vk.Env, c c15Case) error {
	r, sent := c.ask(c.Token, true)
	what := fmt.Sprintf("%s %s?%s with Authorization %q (%v) and the token %q", c.Method, c.Path, c.Query, c.Auth, c.Has, c.Token)
	if !c.carries() && !c.open() {
		if len(sent) != 0 {
			return fmt.Errorf("%s: an API server was contacted: %s", what, short(sent))
		}
		if strings.Contains(string(r.Body), c15Secret) || strings.Contains(fmt.Sprint(r.Header), c15Secret) {
			return fmt.Errorf("%s: cached data is disclosed: %.300s", what, r.Body)
		}
		redirect := r.Code == 301 && !canonical(c.Path)
		if r.Code != 401 && !redirect {
			return fmt.Errorf("%s: the answer is %d %.300s, want 401", what, r.Code, r.Body)
		}
		return nil
	}
	// as usual: like a proxy without a token
	want, wantSent := c.ask("", false)
	if c.Path == "/metrics" && c.Method == "GET" {
		if r.Code != 200 || want.Code != 200 {
			return fmt.Errorf("%s: the answer is %d %.300s", what, r.Code, r.Body)
		}
		return nil
	}
	if r.Code != want.Code || string(r.Body) != string(want.Body) {
		return fmt.Errorf("%s: the answer is %d %.300q, without a token configured %d %.300q", what, r.Code, r.Body, want.Code, want.Body)
	}
	if len(sent) != len(wantSent) {
		return fmt.Errorf("%s: sent %s, without a token configured %s", what, short(sent), short(wantSent))
	}
	for i, s := range sent {
		w := wantSent[i]
		if s.Cluster != w.Cluster || s.Method != w.Method || s.Path != w.Path || s.Query != w.Query || s.Body != w.Body {
			return fmt.Errorf("%s: sent %s, without a token configured %s", what, short(s), short(w))
		}
	}
	if r.Code == 401 {
		return fmt.Errorf("%s: the answer is 401", what)
	}
	return nil
}

// canonical says whether a router serves the path as it is written.
func canonical(p string) bool {
	return !strings.Contains(p, "//") && !strings.Contains(p, "/./") && !strings.Contains(p, "..")
}

func classifyC15(c c15Case) (bool, []string) {
	switch {
	case c.Token == "":
		return true, []string{"no token configured"}
	case c.open():
		return true, []string{"open endpoint"}
	case c.carries():
		return true, []string{"token carried"}
	case !c.Has:
		return true, []string{"no header"}
	}
	return true, []string{"wrong header"}
}

func init() {
	vk.Register(&vk.Property{
		ID:    "C15",
		Setup: func(*vk.Env) error { quietStdout(); return nil },
		Parts: []*vk.Part{vk.New(vk.Part{
			Name:  "token",
			Rule:  "a request of any method to cached, forwarded, watched, custom, odd and open paths, with no, a wrong, a partial or the right Authorization header and the token in other places, against a proxy with or without a token; without the token the answer is 401 (or the redirect to the canonical path) with no trace of cached data and no upstream request, with it the answer equals that of a proxy without a token; every case is non-trivial",
			Quick: 15000, Thorough: 400000,
		}, vk.Def[c15Case]{Gen: genC15, Check: checkC15, Classify: classifyC15})},
		Assumptions: []string{"a header carries the token when it contains it, whatever the scheme", "redirects of non-canonical paths serve nothing"},
	})
}

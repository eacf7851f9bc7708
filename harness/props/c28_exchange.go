package props

import (
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"ckverif/vk"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/server"
	"github.com/DaoCloud/ckube/store"
	"github.com/gorilla/mux"
	"k8s.io/client-go/kubernetes"
	"pgregory.net/rapid"
)

// The old content caches pods and forwards widgets, the new one caches widgets and forwards pods. An answer of the
// old API server to a request for pods, and one of the new API server to a request for widgets, mixes them.

type c28xCase struct {
	Clients   [][]string `json:"clients"`
	Exchanges int        `json:"exchanges"`
	Pause     int        `json:"pause"` // yields between two exchanges
}

var c28xTargets = []string{"/api/v1/pods", "/api/v1/namespaces/a/pods/web", "/apis/example.io/v1/widgets", "/apis/example.io/v1/namespaces/a/widgets/web", "/api/v1/namespaces/a/pods", "/apis/example.io/v1/namespaces/a/widgets"}

func genC28x(t *rapid.T) c28xCase {
	c := c28xCase{Exchanges: pick(t, "exchanges", 50, 200, 500), Pause: pick(t, "pause", 0, 1, 5, 40)}
	for n := intIn(t, "clients", 2, 8); n > 0; n-- {
		l := []string{}
		for m := intIn(t, "requests", 1, 4); m > 0; m-- {
			l = append(l, pickFrom(t, "target", c28xTargets))
		}
		c.Clients = append(c.Clients, l)
	}
	return c
}

func checkC28x(_ *vk.Env, c c28xCase) error {
	index := searchIndex()
	common.InitConfig(&common.Config{DefaultCluster: "c1", Proxies: []common.Proxy{proxyConf(gvrPods, "PodList", index), proxyConf(gvrWidgets, "WidgetList", index)}})
	stores := []store.Store{newStore(map[GVR]map[string]string{gvrPods: index}), newStore(map[GVR]map[string]string{gvrWidgets: index})}
	o := SObj{Cluster: "c1", NS: "a", Name: "web"}
	_ = stores[0].OnResourceAdded(gvrPods, "c1", o.build())
	_ = stores[1].OnResourceAdded(gvrWidgets, "c1", o.buildAny(true))
	clients := []map[string]kubernetes.Interface{}
	for _, name := range []string{"old", "new"} {
		text := fmt.Sprintf(`{"by":%q}`, name)
		clients = append(clients, (&upstream{answer: func(upReq) (int, http.Header, io.ReadCloser) { return 200, jsonHeader(), bodyOf(text) }}).clients("c1"))
	}
	var h *mux.Router
	ser := server.NewMuxServer("", clients[0], stores[0], func(r *mux.Router) { h = r })
	ask := func(target string) string {
		rec := httptest.NewRecorder()
		h.ServeHTTP(rec, httptest.NewRequest("GET", target, nil))
		return fmt.Sprintf("%d %s", rec.Code, rec.Body)
	}
	want := map[string][2]string{}
	for i := range stores {
		ser.ResetStore(stores[i], clients[i])
		for _, t := range c28xTargets {
			w := want[t]
			w[i] = ask(t)
			want[t] = w
		}
	}
	var over atomic.Bool
	var wg sync.WaitGroup
	errs := make([]error, len(c.Clients))
	for i, l := range c.Clients {
		wg.Add(1)
		go func(i int, l []string) {
			defer wg.Done()
			for n := 0; !over.Load(); n++ {
				t := l[n%len(l)]
				if got := ask(t); got != want[t][0] && got != want[t][1] {
					errs[i] = fmt.Errorf("GET %s is answered %.400q while the content is exchanged, by the old one %.400q and by the new one %.400q", t, got, want[t][0], want[t][1])
					return
				}
			}
		}(i, l)
	}
	until := time.Now().Add(5 * time.Second)
	for i := 0; i < c.Exchanges && time.Now().Before(until); i++ {
		ser.ResetStore(stores[i%2], clients[i%2])
		for j := 0; j < c.Pause; j++ {
			runtime.Gosched()
		}
	}
	over.Store(true)
	wg.Wait()
	return joinErrors(errs)
}

func joinErrors(errs []error) error {
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}

var c28xPart = vk.New(vk.Part{Name: "exchange", Quick: 96, Thorough: 6000, ReplayRuns: 40,
	Rule: "2-8 clients that read pods and widgets again and again, while a content that caches pods and forwards widgets and one that caches widgets and forwards pods are exchanged 50-500 times; every answer must be one of the two given alone; non-trivial always",
}, vk.Def[c28xCase]{Gen: genC28x, Check: checkC28x, Classify: func(c c28xCase) (bool, []string) {
	return true, []string{fmt.Sprintf("clients=%d", len(c.Clients)), fmt.Sprintf("exchanges=%d", c.Exchanges)}
}})

package props

import (
	"fmt"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"ckverif/vk"

	"github.com/DaoCloud/ckube/common"
	"pgregory.net/rapid"
)

// c33Case is one start of the program.
type c33Case struct {
	Mode    string  `json:"mode"`            // as for C23
	Mount   bool    `json:"mount,omitempty"` // as for C23
	Place   string  `json:"place,omitempty"` // of the configuration: absolute, relative, or the default one
	Conf    c23Conf `json:"conf"`
	Kube    c23Kube `json:"kube"`
	Bad     string  `json:"bad,omitempty"` // kind of invalid content, or missing, or directory
	BadFile string  `json:"bad_file,omitempty"`
	Side    int     `json:"side,omitempty"`  // where a broken context is put
	Taken   bool    `json:"taken,omitempty"` // the address is
	Late    bool    `json:"late,omitempty"`  // the API servers announce their objects after a while
}

func genC33(t *rapid.T) c33Case {
	c := c33Case{Mode: pick(t, "mode", "flag", "flag", "home", "env"), Place: pick(t, "place", "absolute", "absolute", "relative", "default")}
	c.Conf, c.Kube = genC23Conf(t, c.Mode), genC23Kube(t, c.Mode)
	c.Mount = c.Place == "absolute" && chance(t, "mount", 25)
	c.Late = chance(t, "late", 20)
	switch pick(t, "what", "good", "good", "config", "kube", "taken") {
	case "config":
		c.BadFile, c.Bad = "config", pickFrom(t, "bad config", append([]string{"missing", "directory"}, c23BadConf...))
		if c.Bad == "missing" || c.Bad == "directory" {
			c.Mount = false
		}
	case "kube":
		bad := append([]string{"missing", "directory"}, c23BadKube...)
		switch c.Mode {
		case "env": // only the current context counts, and no file is no kubeconfig
			bad = []string{"garbage", "wrong type"}
		case "home":
			bad = bad[1:]
		}
		c.BadFile, c.Bad = "kube", pickFrom(t, "bad kubeconfig", bad)
		c.Side = intIn(t, "side", 0, 1)
	case "taken":
		c.Taken = true
	}
	return c
}

func runC33(tmp string, c c33Case) error {
	dir, err := os.MkdirTemp(tmp, "c33-")
	must(err)
	defer os.RemoveAll(dir)
	r := &c23Run{dir: dir, conf: filepath.Join(dir, "config.json"), kube: filepath.Join(dir, "kubeconfig"), client: &http.Client{Timeout: 10 * time.Second, Transport: &http.Transport{}}, streams: &openStreams{n: map[string]int{}}}
	if c.Mode == "home" {
		must(os.Mkdir(filepath.Join(dir, ".kube"), 0o755))
		r.kube = filepath.Join(dir, ".kube", "config")
	}
	for i := 0; i < c23Servers; i++ {
		s := c23Server(i, r.streams)
		defer func() { s.CloseClientConnections(); go s.Close() }()
		if c.Late {
			inner := s.Config.Handler
			s.Config.Handler = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				if r.URL.Query().Get("watch") == "true" {
					time.Sleep(300 * time.Millisecond)
				}
				inner.ServeHTTP(w, r)
			})
		}
		r.urls = append(r.urls, s.URL)
	}
	r.urls = append(r.urls, "https://127.0.0.1:1")
	conf, kube := c.Conf.text(), c.Kube.text(r.urls)
	if c.BadFile != "" && c.Bad != "missing" && c.Bad != "directory" {
		bad := c23BadText(c23Edit{File: c.BadFile, Bad: c.Bad, Gap: c.Side}, c.Conf, c.Kube, r.urls)
		if c.BadFile == "config" {
			conf = bad
		} else {
			kube = bad
		}
	}
	flag := r.conf
	switch {
	case c.Mount:
		flag = filepath.Join(dir, "mount", "config.json")
		mountC23(dir, conf, r.write)
	case c.Place == "relative":
		flag = "config.json"
	case c.Place == "default":
		flag = ""
		must(os.Mkdir(filepath.Join(dir, "config"), 0o755))
		r.conf = filepath.Join(dir, "config", "local.json")
	}
	for file, text := range map[string]string{r.conf: conf, r.kube: kube} {
		bad := ""
		if (file == r.conf) == (c.BadFile == "config") {
			bad = c.Bad
		}
		switch bad {
		case "missing":
		case "directory":
			must(os.Mkdir(file, 0o755))
		default:
			must(os.WriteFile(file, []byte(text), 0o644))
		}
	}
	addr, release := freeAddr()
	defer release()
	if c.Taken {
		taken, err := net.Listen("tcp", addr)
		must(err)
		defer taken.Close()
	}
	args := []string{"-a", addr}
	if flag != "" {
		args = append(args, "-c", flag)
	}
	env := []string{"PATH=" + os.Getenv("PATH"), "HOME=" + dir, "GOTRACEBACK=all"}
	switch c.Mode {
	case "flag":
		args = append(args, "-k", r.kube)
	case "env":
		env = append(env, "KUBECONFIG="+r.kube)
	}
	r.base = "http://" + addr
	return r.begin(c, args, env)
}

// begin starts the program and judges it.
func (r *c23Run) begin(c c33Case, args, env []string) error {
	p := exec.Command(os.Getenv("CKV_BIN")+"/cacheproxy", args...)
	p.Dir, p.Env = r.dir, env
	r.out = &syncBuffer{}
	p.Stdout, p.Stderr = r.out, r.out
	must(p.Start())
	r.proc, r.died = p, make(chan struct{})
	var ended error
	died := r.died
	go func() { ended = p.Wait(); close(died) }()
	defer func() {
		_ = p.Process.Signal(syscall.SIGKILL)
		<-died
	}()
	end := time.Now().Add(reloadLimit)
	if c.BadFile == "" && !c.Taken {
		for {
			select {
			case <-died:
				return fmt.Errorf("the program ended (%v) at its start: %s", ended, r.out.tail(3000))
			default:
			}
			if resp, err := r.client.Get(r.base + "/healthy"); err == nil {
				_ = resp.Body.Close()
				break
			}
			if time.Now().After(end) {
				return fmt.Errorf("the program does not answer: %s", r.out.tail(3000))
			}
			time.Sleep(20 * time.Millisecond)
		}
		if err := r.settled(c.Mode, c.Conf, c.Kube, reloadLimit); err != nil {
			return fmt.Errorf("after the start: %w\nthe program said: %s", err, r.out.tail(3000))
		}
		return nil
	}
	why := "its address is taken"
	if !c.Taken {
		why = fmt.Sprintf("its file %s is invalid (%s)", c.BadFile, c.Bad)
	}
	for {
		select {
		case <-died:
			if said := r.out.tail(3000); strings.Contains(said, "panic:") || strings.Contains(said, "goroutine ") {
				return fmt.Errorf("the program crashed when %s: %s", why, said)
			}
			if ended == nil {
				return fmt.Errorf("the program ended with success when %s: %s", why, r.out.tail(3000))
			}
			return nil
		default:
		}
		if !c.Taken {
			if resp, err := r.client.Get(r.base + "/healthy"); err == nil {
				_ = resp.Body.Close()
				return fmt.Errorf("the program answers although %s", why)
			}
		}
		if time.Now().After(end) {
			return fmt.Errorf("the program has not ended although %s: %s", why, r.out.tail(3000))
		}
		time.Sleep(20 * time.Millisecond)
	}
}

func classifyC33(c c33Case) (bool, []string) {
	what := "good"
	switch {
	case c.Taken:
		what = "address taken"
	case c.BadFile != "":
		what = "bad " + c.BadFile + ": " + c.Bad
	}
	return c.BadFile != "" || c.Taken || len(c.Conf.Resources) > 0, []string{c.Mode, "place=" + c.Place, what, fmt.Sprintf("mounted=%v", c.Mount)}
}

func shrinkC33(c c33Case) []c33Case {
	var out []c33Case
	if len(c.Conf.Resources) > 1 {
		for _, i := range c.Conf.Resources {
			d := c
			d.Conf.Resources = []int{i}
			out = append(out, d)
		}
	}
	if len(c.Kube.Contexts) > 1 {
		d := c
		d.Kube.Contexts = map[string]int{c.Kube.Current: c.Kube.Contexts[c.Kube.Current]}
		out = append(out, d)
	}
	if c.Conf.Token != "" {
		d := c
		d.Conf.Token = ""
		out = append(out, d)
	}
	return out
}

func init() {
	vk.Register(&vk.Property{
		ID: "C33",
		Setup: func(*vk.Env) error {
			if os.Getenv("CKV_BIN") == "" {
				return fmt.Errorf("the programs are not built")
			}
			common.InitConfig(&common.Config{})
			return nil
		},
		Parts: []*vk.Part{vk.NewBatch(vk.Part{
			Name:  "starts",
			Rule:  "the program is started with its configuration given absolutely, relatively, mounted, or in the default place, and its kubeconfig given by flag, in the home directory, or through the environment; three API servers and a dead one; in three of five cases one file is missing, a directory, or invalid in one of the ways of C23, or the address is taken; good starts are probed as for C23, the others must end with a failure and without an answer or a crash; non-trivial with a configured resource, or a bad start",
			Quick: 240, Thorough: 6000,
		}, vk.BatchDef[c33Case]{Gen: genC33, Classify: classifyC33, Shrink: shrinkC33, Size: 8,
			CheckAll: func(e *vk.Env, l []c33Case) []error {
				return side(len(l), func(i int) error { return runC33(e.Tmp, l[i]) })
			},
			Fixed: []c33Case{
				{Mode: "flag", Place: "absolute", Conf: c23Conf{Resources: []int{0}}, Kube: c23Kube{Contexts: map[string]int{"c1": 0}, Current: "c1"}, Taken: true},
			}})},
		Assumptions: []string{"soon means within 30 seconds", "without a kubeconfig in the home directory, the environment decides; what client-go makes of an environment without any is not claimed", "an empty kubeconfig is not counted as invalid"},
	})
}

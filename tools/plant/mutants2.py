"""A second wave of small breaking edits, which need more to show: histories, schedules, sizes, files (see mutants.py)."""
from mutants import MEM, PROXY, PAGE, LABEL, WATCH, SERVER, FAKE, MAIN, PLUGIN, EXT, FS, CFG
M = []
def m(id, prop, *edits): M.append((id, prop, edits))

DEL = '''	m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(namespaceName(ns)).Delete(name)
'''
m('2-empty-ns', 'C21', (MEM, DEL, DEL + '''	if m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(namespaceName(ns)).Len() == 0 {
		m.resourceMap.Get(gvr).Get(clusterName(cluster)).Delete(namespaceName(ns))
		prommonitor.Resources.WithLabelValues(cluster, gvr.Group, gvr.Version, gvr.Resource, ns).Set(0)
		return nil
	}
'''))
def cache(bump_mod, bump_clean):
    e = [(MEM, '''	store.Store
}

func NewMemoryStore''', '''	store.Store
	gen   int64
	cache sync.Map
}

type cached struct {
	gen int64
	res store.QueryResult
}

func NewMemoryStore'''),
    (MEM, '''	res := store.QueryResult{}
	resources := make([]store.Object, 0)
''', '''	res := store.QueryResult{}
	key := fmt.Sprintf("%v %+v", gvr, query)
	gen := atomic.LoadInt64(&m.gen)
	if c, ok := m.cache.Load(key); ok && c.(cached).gen == gen {
		return c.(cached).res
	}
	resources := make([]store.Object, 0)
'''),
    (MEM, '''		res.Items = append(res.Items, r.Obj)
	}
	return res
''', '''		res.Items = append(res.Items, r.Obj)
	}
	m.cache.Store(key, cached{gen, res})
	return res
'''),
    (MEM, '	"sync"\n', '	"sync"\n	"sync/atomic"\n'),
    (MEM, 'func (m *memoryStore) OnResourceAdded(gvr store.GroupVersionResource, cluster string, obj interface{}) error {\n', 'func (m *memoryStore) OnResourceAdded(gvr store.GroupVersionResource, cluster string, obj interface{}) error {\n	defer atomic.AddInt64(&m.gen, 1)\n'),
    (MEM, 'func (m *memoryStore) OnResourceDeleted(gvr store.GroupVersionResource, cluster string, obj interface{}) error {\n', 'func (m *memoryStore) OnResourceDeleted(gvr store.GroupVersionResource, cluster string, obj interface{}) error {\n	defer atomic.AddInt64(&m.gen, 1)\n')]
    if bump_mod: e.append((MEM, 'func (m *memoryStore) OnResourceModified(gvr store.GroupVersionResource, cluster string, obj interface{}) error {\n', 'func (m *memoryStore) OnResourceModified(gvr store.GroupVersionResource, cluster string, obj interface{}) error {\n	defer atomic.AddInt64(&m.gen, 1)\n'))
    if bump_clean: e.append((MEM, '''		return fmt.Errorf("cluster %s not exists", cluster)
	}
''', '''		return fmt.Errorf("cluster %s not exists", cluster)
	}
	defer atomic.AddInt64(&m.gen, 1)
'''))
    return e
m('2-cache-mod', 'C01', *cache(False, True))
m('2-cache-mod-c05', 'C10', *cache(False, True))
m('2-cache-clean', 'C18', *cache(True, False))
m('2-cache-clean-c01', 'C01', *cache(True, False))
m('2-parse-by-name', 'C03', (MEM, '''			jp := jsonpath.New("parser")
			jp.AllowMissingKeys(true)
			_ = jp.Parse(v)
			exec = jp
''', '''			c, ok := parsers.Load(gvr.Resource + "/" + k)
			if !ok {
				jp := jsonpath.New("parser")
				jp.AllowMissingKeys(true)
				_ = jp.Parse(v)
				parsers.Store(gvr.Resource+"/"+k, jp)
				c = jp
			}
			exec = c.(*jsonpath.JSONPath)
'''), (MEM, 'var funMap =', 'var parsers sync.Map\n\nvar funMap ='))
m('2-parse-shared', 'C21', (MEM, '''			jp := jsonpath.New("parser")
			jp.AllowMissingKeys(true)
			_ = jp.Parse(v)
			exec = jp
''', '''			c, ok := parsers.Load(v)
			if !ok {
				jp := jsonpath.New("parser")
				jp.AllowMissingKeys(true)
				_ = jp.Parse(v)
				parsers.Store(v, jp)
				c = jp
			}
			exec = c.(*jsonpath.JSONPath)
'''), (MEM, 'var funMap =', 'var parsers sync.Map\n\nvar funMap ='))
m('2-deleting-future', 'C03', (MEM, '		if oo.GetDeletionTimestamp() != nil {', '		if t := oo.GetDeletionTimestamp(); t != nil && !t.Time.After(v1.Now().Time) {'))
m('2-big-index-anno', 'C16', (MEM, '		anno[constants.IndexAnno] = string(index) // todo constants\n', '		if len(index) < 4096 {\n			anno[constants.IndexAnno] = string(index)\n		}\n'))
m('2-backoff', 'C18', (WATCH, '	for {\n		select {\n		case <-w.stop:\n			return\n		default:\n		}\n', '	failures := 0\n	for {\n		select {\n		case <-w.stop:\n			return\n		default:\n		}\n'),
  (WATCH, '			time.Sleep(time.Second * 15)\n', '			failures++\n			time.Sleep(time.Second * 15 << uint(failures-1))\n'))
m('2-batch', 'C18', (WATCH, '						case watch.Added:\n							_ = w.store.OnResourceAdded(r, cluster, rr.Object)\n', '''						case watch.Added:
							pending = append(pending, rr.Object)
							if len(ww.ResultChan()) == 0 || len(pending) > 3 {
								for _, o := range pending {
									_ = w.store.OnResourceAdded(r, cluster, o)
								}
								pending = nil
							}
'''), (WATCH, '		resultChan:\n', '			pending := []runtime.Object{}\n		resultChan:\n'))
m('2-body-limit', 'C12', (PROXY, '	req = req.Body(r.Request.Body)', '	req = req.Body(io.LimitReader(r.Request.Body, 1<<20))'))
m('2-delete-body-limit', 'C12', (PROXY, '		opts, err := io.ReadAll(body)', '		opts, err := io.ReadAll(io.LimitReader(body, 1<<14))'))
m('2-answer-limit', 'C12', (PROXY, '	r.Writer.Header().Set("Content-Type", "application/json")\n	return res\n', '	r.Writer.Header().Set("Content-Type", "application/json")\n	if len(res) > 1<<21 {\n		res = res[:1<<21]\n	}\n	return res\n'))
m('2-watch-query', 'C14', (PROXY, '	q.Set("timeout", "30m")\n', '	q.Set("timeout", "30m")\n	q.Del("timeoutSeconds")\n'))
m('2-watch-minute', 'C29', (PROXY, '	timeout := 30 * time.Minute\n', '	timeout := 5 * time.Minute\n'))
FL = '''	res, err := getRequest(r, cluster, timeout).RequestURI(u).DoRaw(ctx)
'''
m('2-flight', 'C28', (PROXY, FL, '''	var res []byte
	var err error
	if r.Request.Method == http.MethodGet {
		f := &flight{done: make(chan struct{})}
		if x, ok := flights.LoadOrStore(u, f); ok {
			f = x.(*flight)
			<-f.done
		} else {
			f.res, f.err = getRequest(r, cluster, timeout).RequestURI(u).DoRaw(ctx)
			flights.Delete(u)
			close(f.done)
		}
		res, err = f.res, f.err
	} else {
		res, err = getRequest(r, cluster, timeout).RequestURI(u).DoRaw(ctx)
	}
'''), (PROXY, 'func proxyPass(', '''type flight struct {
	done chan struct{}
	res  []byte
	err  error
}

var flights sync.Map

func proxyPass('''), (PROXY, '	"strings"\n	"time"\n', '	"strings"\n	"sync"\n	"time"\n'))
m('2-flight-c11', 'C11', *M[-1][2])
m('2-memo-default', 'C23', (PROXY, '	if cs := paginate.GetClusters(); len(cs) > 0 && cluster == "" {\n		cluster = cs[0]\n	}\n	if cluster == "" {\n		cluster = common.GetConfig().DefaultCluster\n	}\n', '''	if cs := paginate.GetClusters(); len(cs) > 0 && cluster == "" {
		cluster = cs[0]
	}
	if cluster == "" {
		defaultOnce.Do(func() { defaultCluster = common.GetConfig().DefaultCluster })
		cluster = defaultCluster
	}
'''), (PROXY, 'func parsePaginateAndLabelsAndClean(', 'var defaultOnce sync.Once\nvar defaultCluster string\n\nfunc parsePaginateAndLabelsAndClean('), (PROXY, '	"strings"\n	"time"\n', '	"strings"\n	"sync"\n	"time"\n'))
m('2-token-once', 'C23', (SERVER, '			rt.HandlerFunc(func(writer http.ResponseWriter, r *http.Request) {\n', '			token := common.GetConfig().Token\n			rt.HandlerFunc(func(writer http.ResponseWriter, r *http.Request) {\n'),
  (SERVER, 'if route.authRequired && common.GetConfig().Token != "" {', 'if route.authRequired && token != "" {'))
m('2-write-timeout', 'C29', (SERVER, '		WriteTimeout: 30 * time.Minute,', '		WriteTimeout: 1 * time.Minute,'))
m('2-read-timeout', 'C29', (SERVER, '		ReadTimeout:  30 * time.Minute,', '		ReadTimeout:  1 * time.Minute,'))
m('2-write-timeout-20', 'C29', (SERVER, '		WriteTimeout: 30 * time.Minute,', '		WriteTimeout: 20 * time.Second,'))
m('2-reset-late', 'C27', (MAIN, '''				prommonitor.Resources.Reset()
				w = rw
				_ = w.Start()
''', '''				w = rw
				_ = w.Start()
				prommonitor.Resources.Reset()
'''))
m('2-debounce', 'C23', (MAIN, '''				clis, rw, rs, err := loadFromConfig(kubeConfig, configFile)
				if err != nil {
''', '''				if time.Since(last) < 300*time.Millisecond {
					continue
				}
				last = time.Now()
				clis, rw, rs, err := loadFromConfig(kubeConfig, configFile)
				if err != nil {
'''), (MAIN, '			for e := range fixedWatcher.Events() {\n', '			last := time.Time{}\n			for e := range fixedWatcher.Events() {\n'), (MAIN, '	"path"\n', '	"path"\n	"time"\n'))
m('2-same-size', 'C23', (MAIN, '''				clis, rw, rs, err := loadFromConfig(kubeConfig, configFile)
				if err != nil {
''', '''				size := int64(0)
				for _, f := range files {
					if i, err := os.Stat(f); err == nil {
						size = size<<20 + i.Size()
					}
				}
				if size == last {
					continue
				}
				last = size
				clis, rw, rs, err := loadFromConfig(kubeConfig, configFile)
				if err != nil {
'''), (MAIN, '			for e := range fixedWatcher.Events() {\n', '			last := int64(0)\n			for e := range fixedWatcher.Events() {\n'))
m('2-buffer', 'C30', (FAKE, 'wc := make(chan Event, watchBufferSize)', 'wc := make(chan Event, 8)'))
m('2-union', 'C22', (EXT, '''				labels = pod.GetLabels()
				break
''', '''				if labels == nil {
					labels = map[string]string{}
				}
				for k, v := range pod.GetLabels() {
					if _, ok := labels[k]; !ok {
						labels[k] = v
					}
				}
'''))
m('2-100-pods', 'C22', (EXT, '''	p := page.Paginate{}
	p.OnlyCluster(cluster)
''', '''	p := page.Paginate{Page: 1, PageSize: 100}
	p.OnlyCluster(cluster)
'''))
m('2-exit-1', 'C25', (PLUGIN, 'os.Exit(c.ProcessState.ExitCode())', 'os.Exit(1)'))
m('2-stdin', 'C25', (PLUGIN, '	c.Stdin = os.Stdin\n', ''))
m('2-log-path', 'C34', (SERVER, '"path":           r.RequestURI,', '"path":           r.URL.RequestURI(),'))
m('2-symlink', 'C24', (FS, '''	for _, f := range files {
		if _, err := os.Stat(f); err != nil {
''', '''	for i, f := range files {
		if t, err := filepath.EvalSymlinks(f); err == nil {
			files[i], f = t, t
		}
		if _, err := os.Stat(f); err != nil {
'''), (FS, '	"os"\n', '	"os"\n	"path/filepath"\n'))
m('2-stop-async', 'C20', (WATCH, '	close(w.stop)\n', '	go close(w.stop)\n'))
m('2-table-first', 'C16', (PROXY, '			cells := make([]interface{}, len(indexMap))\n', '			cells := make([]interface{}, len(indexes))\n'))
m('2-status-kind', 'C12', (PROXY, '	err.APIVersion = "v1"\n', '	err.APIVersion = "v1"\n	err.ListMeta = v1.ListMeta{}\n'))
m('2-label-memo', 'C08', (LABEL, '	b := strings.Builder{}\n', '	b := strings.Builder{}\n	if len(values) > 64 {\n		values = values[:64]\n	}\n'))
m('2-quote-escape', 'C04', (PAGE, '''	return `"` + v + `"`''', '''	return fmt.Sprintf("%q", v)'''))
m('2-uniq', 'C07', (PAGE, '''	selector = selector.DeepCopy()
''', ''))

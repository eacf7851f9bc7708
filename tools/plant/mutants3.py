"""A third wave (see mutants.py): conveniences, limits and optimisations someone could add without seeing what they break."""
from mutants import MEM, PROXY, PAGE, LABEL, WATCH, SERVER, FAKE, MAIN, PLUGIN, EXT, FS, CFG
M = []
def m(id, prop, *edits): M.append((id, prop, edits))

SETMOD = '''func (m *memoryStore) OnResourceModified(gvr store.GroupVersionResource, cluster string, obj interface{}) error {
	ns, name, o := m.buildResourceWithIndex(gvr, cluster, obj)
	m.initResourceNamespace(gvr, cluster, ns)
'''
m('3-delete-set', 'C21', (MEM, SETMOD, SETMOD + '''	m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(namespaceName(ns)).Delete(name)
'''))
m('3-uint64', 'C02', (WATCH, '''	delete(m, "apiVersion")
	delete(m, "kind")
''', '''	for k, v := range m {
		m[k] = numbers(v)
	}
	delete(m, "apiVersion")
	delete(m, "kind")
'''), (WATCH, 'func (o *ObjType) MarshalJSON()', '''func numbers(v interface{}) interface{} {
	switch t := v.(type) {
	case map[string]interface{}:
		for k := range t {
			t[k] = numbers(t[k])
		}
	case []interface{}:
		for i := range t {
			t[i] = numbers(t[i])
		}
	case json.Number:
		if i, err := t.Int64(); err == nil {
			return i
		}
		if f, err := t.Float64(); err == nil {
			return f
		}
	}
	return v
}

func (o *ObjType) MarshalJSON()'''))
m('3-sort-keys', 'C05', (MEM, '	var sortErr error = nil\n', '	if len(sorts) > 3 {\n		sorts = sorts[:3]\n	}\n	var sortErr error = nil\n'))
m('3-int-range', 'C06', (PAGE, '	start = (p.Page - 1) * p.PageSize\n', '	start = int64(int32((p.Page - 1) * p.PageSize))\n'))
m('3-limit', 'C10', (PROXY, '	if strings.Contains(r.Request.Header.Get("accept")', '''	if l := r.Request.URL.Query().Get("limit"); l != "" {
		if n, err := strconv.Atoi(l); err == nil && n > 0 && n < len(items) {
			items = items[:n]
		}
	}
	if strings.Contains(r.Request.Header.Get("accept")'''), (PROXY, '	"sort"\n', '	"sort"\n	"strconv"\n'))
m('3-limit-c09', 'C09', *M[-1][2])
m('3-prefix-all', 'C13', (PROXY, 'cluster = v[0][len(clusterPrefix):]', 'cluster = strings.ReplaceAll(v[0], clusterPrefix, "")'))
m('3-clean-path', 'C12', (PROXY, '''	u := r.Request.URL.String()
	log.Debugf("proxyPass url: %s", u)
	timeout := time.Minute''', '''	r.Request.URL.Path = strings.TrimSuffix(r.Request.URL.Path, "/")
	u := r.Request.URL.String()
	log.Debugf("proxyPass url: %s", u)
	timeout := time.Minute'''))
m('3-empty-204', 'C12', (PROXY, '''	r.Writer.Header().Set("Content-Type", "application/json")
	return res
''', '''	r.Writer.Header().Set("Content-Type", "application/json")
	if len(res) == 0 {
		return []byte("{}")
	}
	return res
'''))
m('3-query-first', 'C12', (PROXY, '	r.URL.RawQuery = query.Encode()\n', '''	for k, v := range query {
		query[k] = v[:1]
	}
	r.URL.RawQuery = query.Encode()
'''))
m('3-metrics-suffix', 'C15', (SERVER, 'if route.authRequired && common', 'if route.authRequired && !strings.HasSuffix(r.URL.Path, "/metrics") && common'))
m('3-upgrade', 'C15', (SERVER, 'if route.authRequired && common', 'if route.authRequired && r.Header.Get("Upgrade") == "" && common'))
m('3-auth-values', 'C15', (SERVER, '!strings.Contains(r.Header.Get("Authorization"), common.GetConfig().Token)', '!strings.Contains(fmt.Sprint(r.Header), common.GetConfig().Token)'))
m('3-empty-cells', 'C16', (PROXY, '			for k, v := range indexes {\n				cells', '			for k, v := range indexes {\n				if v == "" {\n					continue\n				}\n				cells'))
SEM = lambda n: ((WATCH, '''	config := w.clusterConfigs[cluster]

''', '''	config := w.clusterConfigs[cluster]
	select {
	case w.slots <- struct{}{}:
		defer func() { <-w.slots }()
	case <-w.stop:
		return
	}

'''), (WATCH, '''	stop           chan struct{}
	Watcher''', '''	stop           chan struct{}
	slots          chan struct{}
	Watcher'''), (WATCH, '''		stop:           make(chan struct{}),
''', '''		stop:           make(chan struct{}),
		slots:          make(chan struct{}, %d),
''' % n))
m('3-slots-8', 'C19', *SEM(8))
m('3-slots-16', 'C19', *SEM(16))
m('3-slots-32', 'C19', *SEM(32))
m('3-slots-64', 'C19', *SEM(64))
m('3-slots-100', 'C19', *SEM(100))
m('3-by-kind', 'C19', (WATCH, '''		if _, ok := s.KnownTypes(gv)[gvk.Kind]; !ok {''', '''		if seen[gvk.Kind] {
			continue
		}
		seen[gvk.Kind] = true
		if _, ok := s.KnownTypes(gv)[gvk.Kind]; !ok {'''), (WATCH, '''	for _, r := range w.resources {
		gv :=''', '''	seen := map[string]bool{}
	for _, r := range w.resources {
		gv :='''))
m('3-resume', 'C18', (WATCH, '''		url := ""
		if r.Group''', '''		url, from := "", ""
		if version != "" {
			from = "&resourceVersion=" + version
		}
		if r.Group'''), (WATCH, '"/api/%s/%s?watch=true", r.Version, r.Resource)', '"/api/%s/%s?watch=true%s", r.Version, r.Resource, from)'),
  (WATCH, '"/apis/%s/%s/%s?watch=true", r.Group, r.Version, r.Resource)', '"/apis/%s/%s/%s?watch=true%s", r.Group, r.Version, r.Resource, from)'),
  (WATCH, '	rt, _ := rest.RESTClientFor(&config)\n', '	rt, _ := rest.RESTClientFor(&config)\n	version := ""\n'),
  (WATCH, '					if open {\n', '					if open {\n						if o, ok := rr.Object.(v1.Object); ok {\n							version = o.GetResourceVersion()\n						}\n'),
  (WATCH, 'ww.(*watch.StreamWatcher); established {', 'ww.(*watch.StreamWatcher); established && version == "" {'))
m('3-error-ends', 'C18', (WATCH, '''							log.Warnf("cluster(%s): watch stream(%v) error: %v", cluster, r, rr.Object)
''', '''							log.Warnf("cluster(%s): watch stream(%v) error: %v", cluster, r, rr.Object)
							ww.Stop()
							cancel()
							return
'''))
POD = '''		if pod, ok := podIf.(v12.Object); ok {
'''
m('3-terminating', 'C22', (EXT, POD, POD + '''			if pod.GetDeletionTimestamp() != nil {
				continue
			}
'''))
m('3-running', 'C22', (EXT, POD, POD + '''			if p, ok := podIf.(*v1.Pod); ok && p.Status.Phase != "" && p.Status.Phase != v1.PodRunning {
				continue
			}
'''))
m('3-external', 'C22', (EXT, 'if len(svc.Spec.Selector) != 0 &&', 'if svc.Spec.Type != v1.ServiceTypeExternalName && len(svc.Spec.Selector) != 0 &&'))
m('3-publish', 'C22', (EXT, 'if len(svc.Spec.Selector) != 0 &&', 'if len(svc.Spec.Ports) != 0 && len(svc.Spec.Selector) != 0 &&'))
m('3-controller', 'C22', (EXT, '''	if len(pod.GetOwnerReferences()) == 0 ||''', '''	if len(pod.GetOwnerReferences()) == 0 || pod.GetOwnerReferences()[0].Controller == nil ||'''))
m('3-empty-arg', 'C25', (PLUGIN, 'exec.Command("kubectl", append(args, rest...)...)', 'exec.Command("kubectl", strings.Fields(strings.Join(append(args, rest...), " "))...)'))
m('3-drop-empty', 'C25', (PLUGIN, '''		a := os.Args[i]
''', '''		a := os.Args[i]
		if a == "" {
			continue
		}
'''))
m('3-trim-clusters', 'C25', (PLUGIN, 'cs := strings.Split(clusters, ",")', 'cs := strings.Split(strings.ToLower(clusters), ",")'))
m('3-update-merge', 'C26', (FAKE, '		_ = s.store.OnResourceModified(gvr, cluster, &obj)\n', '''		if old, ok := s.store.Get(gvr, cluster, namespace, resourceName).(*watcher.ObjType); ok && obj.Labels == nil {
			obj.Labels = old.Labels
		}
		_ = s.store.OnResourceModified(gvr, cluster, &obj)
'''))
m('3-create-name', 'C26', (FAKE, '	if resourceName == "" {\n', '	if obj.Name != "" {\n'))
m('3-delete-clusterless', 'C26', (FAKE, 'if len(del.DryRun) == 1 &&', 'if len(del.DryRun) == 1 && del.GracePeriodSeconds == nil &&'))
m('3-gauge-series', 'C27', (MEM, 'prommonitor.Resources.WithLabelValues(cluster, gvr.Group, gvr.Version, gvr.Resource, string(ns)).Set(0)', 'prommonitor.Resources.DeleteLabelValues(cluster, gvr.Group, gvr.Version, gvr.Resource, string(ns))'))
m('3-gauge-clean-nonempty', 'C27', (MEM, '		c.Clean()\n', '		if c.Len() == 1 {\n			c.Clean()\n			return\n		}\n		c.Clean()\n'))
m('3-half-reset', 'C28', (SERVER, '''	m.store = s
	m.clusterClients = clis
''', '''	m.store = s
	m.lock.Unlock()
	m.lock.Lock()
	m.clusterClients = clis
'''))
def limit(n, path='true'): return ((SERVER, '''				var res = route.handler(''', '''				if %s {
					inFlight <- struct{}{}
					defer func() { <-inFlight }()
				}
				var res = route.handler(''' % path), (SERVER, 'func jsonResp(', 'var inFlight = make(chan struct{}, %d)\n\nfunc jsonResp(' % n))
m('3-inflight-8', 'C29', *limit(8))
m('3-inflight-32', 'C29', *limit(32))
m('3-inflight-100', 'C29', *limit(100))
def conns(n): return ((MAIN, '			clusterConfigs[ctx.Name] = *c\n', '			clusterConfigs[ctx.Name] = *c\n			c.Transport = nil\n'),)
def perhost(n): return ((PROXY, '	httpClient.Timeout = timeout\n', '''	httpClient.Timeout = timeout
	if t, ok := httpClient.Transport.(*http.Transport); ok {
		t.MaxConnsPerHost = %d
	}
''' % n),)
m('3-conns-4', 'C29', *perhost(4))
m('3-conns-16', 'C29', *perhost(16))
m('3-dedupe', 'C30', (FAKE, '	select {\n	case s.eventChan <- e:\n', '	if e == s.last {\n		jsonResp(writer, 200, &obj)\n		return\n	}\n	s.last = e\n	select {\n	case s.eventChan <- e:\n'), (FAKE, '	watchChanLock sync.Mutex\n', '	watchChanLock sync.Mutex\n	last          Event\n'))
m('3-late-register', 'C30', (FAKE, '	s.watchChans[wc] = struct{}{}\n	s.watchChanLock.Unlock()\n', '	s.watchChanLock.Unlock()\n'), (FAKE, '	writer.(http.Flusher).Flush()\n	for {\n', '	writer.(http.Flusher).Flush()\n	s.watchChanLock.Lock()\n	s.watchChans[wc] = struct{}{}\n	s.watchChanLock.Unlock()\n	for {\n'))
m('3-cluster-contains', 'C30', (FAKE, 'if e.Cluster == c {', 'if strings.EqualFold(e.Cluster, c) {'))
m('3-async-send', 'C30', (FAKE, '''		select {
		case c <- e:
		default:
			log''', '''		select {
		case c <- e:
			if len(c) > 50 {
				<-c
			}
		default:
			log'''))
m('3-failed-twice', 'C32', (MAIN, '					log.Errorf("got file watcher error type: file: %s", e.Name)\n', '					log.Errorf("got file watcher error type: file: %s", e.Name)\n					prommonitor.ConfigReload.WithLabelValues("failed").Inc()\n'))
m('3-skip-error', 'C32', (MAIN, '					log.Errorf("got file watcher error type: file: %s", e.Name)\n', '					log.Errorf("got file watcher error type: file: %s", e.Name)\n					continue\n'))
m('3-error-exit', 'C23', (MAIN, '					log.Errorf("got file watcher error type: file: %s", e.Name)\n', '					log.Errorf("got file watcher error type: file: %s", e.Name)\n					return\n'))
m('3-no-contexts', 'C33', (MAIN, '		cfg.DefaultCluster = kubecfg.CurrentContext\n', '		if kubecfg.CurrentContext != "" {\n			cfg.DefaultCluster = kubecfg.CurrentContext\n		}\n'))
m('3-run-zero', 'C33', (MAIN, '		log.Errorf("server error: %v", err)\n		os.Exit(1)\n', '		log.Errorf("server error: %v", err)\n'))
m('3-listen-first', 'C33', (MAIN, '	clis, w, s, err := loadFromConfig(kubeConfig, configFile)\n	if err != nil {\n		log', '	early := server.NewMuxServer(listen, nil, memory.NewMemoryStore(nil))\n	go early.Run()\n	clis, w, s, err := loadFromConfig(kubeConfig, configFile)\n	_ = early.Stop()\n	if err != nil {\n		log'))
m('3-log-header', 'C34', (SERVER, '			"content_length": sw.length,\n', '			"content_length": contentLength(sw.Header().Get("Content-Length"), sw.length),\n'), (SERVER, 'func loggingMiddleware', 'func contentLength(h string, n int) interface{} {\n	if h != "" {\n		return h\n	}\n	return n\n}\n\nfunc loggingMiddleware'))
m('3-log-panic', 'C34', (SERVER, '	w.status = status\n	w.ResponseWriter.WriteHeader(status)\n', '	if w.status != 0 {\n		w.status = status\n		return\n	}\n	w.status = status\n	w.ResponseWriter.WriteHeader(status)\n'))
m('3-log-remote', 'C34', (SERVER, '			"method":         r.Method,\n', '			"method":         strings.ToUpper(r.Method),\n'))
m('3-coalesce', 'C36', (WATCH, '						case watch.Modified:\n', '						case watch.Modified:\n							if n := len(ww.ResultChan()); n > 3 {\n								continue\n							}\n'))
m('3-same-version', 'C36', (WATCH, '						case watch.Modified:\n', '''						case watch.Modified:
							if o, ok := rr.Object.(v1.Object); ok {
								if c, ok := w.store.Get(r, cluster, o.GetNamespace(), o.GetName()).(v1.Object); ok && c.GetGeneration() == o.GetGeneration() && o.GetGeneration() > 0 {
									continue
								}
							}
'''))
m('3-older-version', 'C36', (WATCH, '						case watch.Modified:\n', '''						case watch.Modified:
							if o, ok := rr.Object.(v1.Object); ok {
								if c, ok := w.store.Get(r, cluster, o.GetNamespace(), o.GetName()).(v1.Object); ok && c.GetResourceVersion() > o.GetResourceVersion() {
									continue
								}
							}
'''))
m('3-older-c18', 'C18', *M[-1][2])
m('3-same-c18', 'C18', *M[-3][2])
m('3-timer', 'C35', (SERVER, '				var res = route.handler(', '				ctx := r.Context()\n				go func() {\n					select {\n					case <-ctx.Done():\n					case <-time.After(time.Minute):\n					}\n					time.Sleep(time.Second * 20)\n				}()\n				var res = route.handler('))
m('3-no-close', 'C35', (PROXY, '	defer reader.Close()\n', ''))
m('3-chmod', 'C24', (FS, '				switch e.Op {\n', '				switch e.Op &^ fsnotify.Chmod {\n'))
m('3-event-buffer', 'C24', (FS, '''				w.events <- Event{
					Name: e.Name,
					Type: EventTypeChanged,
				}
''', '''				select {
				case w.events <- Event{
					Name: e.Name,
					Type: EventTypeChanged,
				}:
				case <-time.After(time.Second):
				}
'''))
m('3-base-name', 'C24', (FS, '''				w.events <- Event{
					Name: e.Name,
					Type: EventTypeChanged,
''', '''				w.events <- Event{
					Name: w.files[0],
					Type: EventTypeChanged,
'''))
m('3-groups-preferred', 'C31', (FAKE, '		if p.Group != group || p.Version != version {', '		if !strings.HasPrefix(p.Group, group) || p.Version != version {'))
m('3-version-first', 'C31', (FAKE, '				if !containsVersion(g.Versions, gv) {', '				if !containsVersion(g.Versions, gv) && len(g.Versions) < 3 {'))
m('3-stop-nothing', 'C31', (SERVER, '	return m.server.Shutdown(ctx)\n', '	go m.server.Shutdown(ctx)\n	return nil\n'))
m('3-late-stop', 'C20', (WATCH, '						// both were ready, and a stopped watcher must not change the store any more\n						ww.Stop()\n						cancel()\n						return\n', '						if rr.Type != watch.Bookmark && rr.Type != watch.Deleted {\n							ww.Stop()\n							cancel()\n							return\n						}\n'))
m('3-cluster-order', 'C07', (PAGE, '	for _, c := range css {\n', '	sort.Strings(css)\n	for _, c := range css {\n'), (PAGE, '	"reflect"\n', '	"reflect"\n	"sort"\n'))
m('3-nil-set', 'C07', (PAGE, '	nsKey := "namespace"\n', '	if len(nss) == 1 && nss[0] == "" {\n		return nil\n	}\n	nsKey := "namespace"\n'))
m('3-key-case', 'C04', (PAGE, '		if v, ok := m[key]; !ok {', '		if v, ok := m[strings.TrimSpace(key)]; !ok {'))
m('3-double-bang', 'C04', (PAGE, '		return v[1:], true\n', '		return strings.TrimLeft(v, "!"), true\n'))
m('3-single-quote', 'C04', (PAGE, '	if len(search) > 1 &&', '''	if len(search) > 1 && strings.HasPrefix(search, "'") && strings.HasSuffix(search, "'") {
		return v == search[1:len(search)-1]
	}
	if len(search) > 1 &&'''))

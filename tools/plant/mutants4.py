"""A fourth wave of edits: sizes, counts and times (see mutate.py, WAVE=mutants4)."""
M = []
def m(mid, prop, *edits): M.append((mid, prop, edits))
MEM = 'store/memory/memory.go'; PROXY = 'api/proxy.go'; PAGE = 'page/page.go'; LABEL = 'kube/label.go'; WATCH = 'watcher/watcher.go'
SERVER = 'server/server.go'; FAKE = 'pkg/client/fake/fake_ckube.go'; MAIN = 'cmd/cacheproxy/main.go'; PLUGIN = 'cmd/ckube-plugin/main.go'; DEP = 'api/extend/deploy2service.go'
SET = '''	s.resources[key] = &value
'''
for n in (100, 1000, 10000):
    for p in ('C01', 'C10'):
        m('4-cap-%d-%s' % (n, p), p, (MEM, SET, '	if _, ok := s.resources[key]; !ok && len(s.resources) >= %d {\n		s.lock.Unlock()\n		return\n	}\n' % n + SET))
for n in (63, 253, 1024, 4096):
    for p in ('C03', 'C04'):
        m('4-index-%d-%s' % (n, p), p, (MEM, '		s.Index[k] = w.String()\n	}\n	namespace', '		s.Index[k] = w.String()\n		if len(s.Index[k]) > %d {\n			s.Index[k] = s.Index[k][:%d]\n		}\n	}\n	namespace' % (n, n)))
for n in (8, 16, 64):
    m('4-conds-%d' % n, 'C04', (PAGE, '	return ps\n', '	if len(ps) > %d {\n		ps = ps[:%d]\n	}\n	return ps\n' % (n, n)))
for n in (8, 32):
    m('4-clusters-%d' % n, 'C07', (PAGE, '	nsKey := "cluster"\n	mes :=', '	if len(css) > %d {\n		css = css[:%d]\n	}\n	nsKey := "cluster"\n	mes :=' % (n, n)))
    m('4-clusters-c02-%d' % n, 'C02', (PAGE, '	nsKey := "cluster"\n	mes :=', '	if len(css) > %d {\n		css = css[:%d]\n	}\n	nsKey := "cluster"\n	mes :=' % (n, n)))
    m('4-namespaces-%d' % n, 'C07', (PAGE, '	nsKey := "namespace"\n	mes :=', '	if len(nss) > %d {\n		nss = nss[:%d]\n	}\n	nsKey := "namespace"\n	mes :=' % (n, n)))
for n in (50, 500):
    m('4-size-%d' % n, 'C06', (PAGE, '	start = (p.Page - 1) * p.PageSize\n', '	if p.PageSize > %d {\n		p.PageSize = %d\n	}\n	start = (p.Page - 1) * p.PageSize\n' % (n, n)))
    m('4-rows-%d' % n, 'C16', (PROXY, '	indexMap := map[string]int{}\n', '	indexMap := map[string]int{}\n	if len(items) > %d {\n		items = items[:%d]\n	}\n' % (n, n)))
    m('4-list-%d' % n, 'C10', (PROXY, '	remainCount := total - end\n', '	remainCount := total - end\n	if paginate.PageSize == 0 && len(items) > %d {\n		remainCount += int64(len(items) - %d)\n		items = items[:%d]\n	}\n' % (n, n, n)))
    m('4-services-%d' % n, 'C22', (DEP, '	return services\n', '	if len(services) > %d {\n		services = services[:%d]\n	}\n	return services\n' % (n, n)))
for n in (20, 100, 400):
    m('4-values-%d' % n, 'C08', (LABEL, '	b := strings.Builder{}\n	for _, v := range values {', '	b := strings.Builder{}\n	for i, v := range values {\n		if i >= %d {\n			break\n		}' % n))
    m('4-terms-%d' % n, 'C09', (LABEL, '	for _, req := range reqs {', '	for i, req := range reqs {\n		if i >= %d {\n			break\n		}' % (n // 10)))
for h in ('time.Hour * 24', 'time.Hour * 24 * 7'):
    m('4-age-%s' % h[-1], 'C18', (WATCH, '	for {\n		select {\n		case <-w.stop:\n			return\n		default:\n		}\n		ctx', '	began := time.Now()\n	for {\n		if time.Since(began) > %s {\n			return\n		}\n		select {\n		case <-w.stop:\n			return\n		default:\n		}\n		ctx' % h))
    m('4-age-c19-%s' % h[-1], 'C19', *M[-1][2])
m('4-tries', 'C18', (WATCH, '	for {\n		select {\n		case <-w.stop:\n			return\n		default:\n		}\n		ctx', '	failures := 0\n	for {\n		if failures > 20 {\n			return\n		}\n		select {\n		case <-w.stop:\n			return\n		default:\n		}\n		ctx'), (WATCH, '			time.Sleep(time.Second * 15)\n', '			failures++\n			time.Sleep(time.Second * 15)\n'))
m('4-tries-c19', 'C19', *M[-1][2])
m('4-backoff', 'C18', (WATCH, '	for {\n		select {\n		case <-w.stop:\n			return\n		default:\n		}\n		ctx', '	failures := 0\n	for {\n		select {\n		case <-w.stop:\n			return\n		default:\n		}\n		ctx'), (WATCH, '			time.Sleep(time.Second * 15)\n', '			failures++\n			time.Sleep(time.Second * 15 * time.Duration(failures*failures))\n'))
m('4-body-1m', 'C13', (PROXY, '		opts, err := io.ReadAll(body)\n', '		opts, err := io.ReadAll(io.LimitReader(body, 4096))\n'))
m('4-token-64', 'C15', (SERVER, 'common.GetConfig().Token)', 'short(common.GetConfig().Token))'), (SERVER, 'func jsonResp(', 'func short(s string) string {\n	if len(s) > 64 {\n		return s[:64]\n	}\n	return s\n}\n\nfunc jsonResp('))
m('4-token-512', 'C15', (SERVER, 'common.GetConfig().Token)', 'short(common.GetConfig().Token))'), (SERVER, 'func jsonResp(', 'func short(s string) string {\n	if len(s) > 512 {\n		return s[:512]\n	}\n	return s\n}\n\nfunc jsonResp('))
for n in (128, 512, 2048):
    m('4-log-%d' % n, 'C34', (SERVER, '			"path":           r.RequestURI,\n', '			"path":           r.RequestURI[:min(len(r.RequestURI), %d)],\n' % n))
for n in (5, 10):
    m('4-contexts-%d' % n, 'C33', (MAIN, '		for _, ctx := range kubecfg.Contexts {\n', '		for i, ctx := range kubecfg.Contexts {\n			if i >= %d {\n				break\n			}\n' % n))
    m('4-contexts-c23-%d' % n, 'C23', *M[-1][2])
m('4-args', 'C25', (PLUGIN, '	for i := 1; i < len(os.Args); i++ {', '	for i := 1; i < len(os.Args) && i < 16; i++ {'))
m('4-args-32', 'C25', (PLUGIN, '	for i := 1; i < len(os.Args); i++ {', '	for i := 1; i < len(os.Args) && i < 32; i++ {'))
m('4-plugin-clusters', 'C25', (PLUGIN, 'cs := strings.Split(clusters, ",")', 'cs := strings.SplitN(clusters, ",", 8)'))
m('4-fake-body', 'C26', (FAKE, 'io.ReadAll(r.Body)', 'io.ReadAll(io.LimitReader(r.Body, 64<<10))'))
m('4-fake-events', 'C30', (FAKE, '	s.changeLock.Lock()\n	defer s.changeLock.Unlock()\n	action', '	if len(s.watchChans) > 8 {\n		defer time.Sleep(time.Millisecond)\n	}\n	s.changeLock.Lock()\n	defer s.changeLock.Unlock()\n	action'))
m('4-fake-watches', 'C30', (FAKE, '	s.watchChans[wc] = struct{}{}\n', '	if len(s.watchChans) >= 8 {\n		s.watchChanLock.Unlock()\n		errorProxy(writer, metav1.Status{Message: "too many watches", Code: 429})\n		return\n	}\n	s.watchChans[wc] = struct{}{}\n'))
m('4-fake-buffer', 'C30', (FAKE, '	wc := make(chan Event, watchBufferSize)\n', '	wc := make(chan Event, 100)\n'))
m('4-fake-timeout', 'C30', (FAKE, '10*time.Minute', '10*time.Second'))
m('4-writes-lost', 'C14', (PROXY, '		t := make([]byte, 1)\n', '		if buf.Len() > 1<<20 {\n			return nil\n		}\n		t := make([]byte, 1)\n'))
m('4-write-timeout', 'C29', (SERVER, '		ReadTimeout:  30 * time.Minute,\n		WriteTimeout: 30 * time.Minute,\n', '		ReadTimeout:  30 * time.Minute,\n		WriteTimeout: 30 * time.Minute,\n		IdleTimeout:  time.Second,\n'))
m('4-proxy-minute', 'C12', (PROXY, '	timeout := time.Minute\n', '	timeout := time.Second * 2\n'))
m('4-header-bytes', 'C12', (SERVER, '		WriteTimeout: 30 * time.Minute,\n', '		WriteTimeout: 30 * time.Minute,\n		MaxHeaderBytes: 4096,\n'))
m('4-gauge-ns', 'C27', (MEM, '''func (m *memoryStore) OnResourceAdded(gvr store.GroupVersionResource, cluster string, obj interface{}) error {
	ns, name, o := m.buildResourceWithIndex(gvr, cluster, obj)
	m.initResourceNamespace(gvr, cluster, ns)
	m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(namespaceName(ns)).Set(name, o)
''', '''func (m *memoryStore) OnResourceAdded(gvr store.GroupVersionResource, cluster string, obj interface{}) error {
	ns, name, o := m.buildResourceWithIndex(gvr, cluster, obj)
	m.initResourceNamespace(gvr, cluster, ns)
	m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(namespaceName(ns)).Set(name, o)
	if m.resourceMap.Get(gvr).Get(clusterName(cluster)).Len() > 20 {
		return nil
	}
'''))

"""Small breaking edits without a demonstration, to look for gaps (see plant.py; mutate.py tries them)."""
M = []
MEM = 'store/memory/memory.go'
PROXY = 'api/proxy.go'
PAGE = 'page/page.go'
LABEL = 'kube/label.go'
WATCH = 'watcher/watcher.go'
SERVER = 'server/server.go'
FAKE = 'pkg/client/fake/fake_ckube.go'
MAIN = 'cmd/cacheproxy/main.go'
PLUGIN = 'cmd/ckube-plugin/main.go'
EXT = 'api/extend/deploy2service.go'
FS = 'utils/fs_watcher.go'
CFG = 'common/config.go'

def m(mid, prop, *edits):
    M.append((mid, prop, edits))

# C01
m('c01-deleting', 'C01', (MEM, '''func (m *memoryStore) OnResourceModified(gvr store.GroupVersionResource, cluster string, obj interface{}) error {
	ns, name, o := m.buildResourceWithIndex(gvr, cluster, obj)
''', '''func (m *memoryStore) OnResourceModified(gvr store.GroupVersionResource, cluster string, obj interface{}) error {
	ns, name, o := m.buildResourceWithIndex(gvr, cluster, obj)
	if mo, ok := obj.(v1.Object); ok && mo.GetDeletionTimestamp() != nil && len(mo.GetFinalizers()) == 0 {
		return m.OnResourceDeleted(gvr, cluster, obj)
	}
'''))
m('c01-modify-only-known', 'C01', (MEM, '''func (m *memoryStore) OnResourceModified(gvr store.GroupVersionResource, cluster string, obj interface{}) error {
	ns, name, o := m.buildResourceWithIndex(gvr, cluster, obj)
''', '''func (m *memoryStore) OnResourceModified(gvr store.GroupVersionResource, cluster string, obj interface{}) error {
	ns, name, o := m.buildResourceWithIndex(gvr, cluster, obj)
	if m.Get(gvr, cluster, ns, name) == nil {
		return nil
	}
'''))
m('c01-same-rv', 'C01', (MEM, '''func (m *memoryStore) OnResourceAdded(gvr store.GroupVersionResource, cluster string, obj interface{}) error {
	ns, name, o := m.buildResourceWithIndex(gvr, cluster, obj)
''', '''func (m *memoryStore) OnResourceAdded(gvr store.GroupVersionResource, cluster string, obj interface{}) error {
	ns, name, o := m.buildResourceWithIndex(gvr, cluster, obj)
	if old, ok := m.Get(gvr, cluster, ns, name).(v1.Object); ok && o.Obj != nil {
		if n, ok := o.Obj.(v1.Object); ok && n.GetResourceVersion() == old.GetResourceVersion() {
			return nil
		}
	}
'''))
m('c01-clean-keeps-cluster-scoped', 'C01', (MEM, '''		c.Clean()
		prommonitor''', '''		if ns != "" {
			c.Clean()
		}
		prommonitor'''))
m('c01-get-falls-back', 'C01', (MEM, '''		if !m.resourceMap.Get(gvr).Get(clusterName(cluster)).Exists(namespaceName(namespace)) {
			return nil
		}
''', '''		if !m.resourceMap.Get(gvr).Get(clusterName(cluster)).Exists(namespaceName(namespace)) {
			// a resource without namespaces
			namespace = ""
			if !m.resourceMap.Get(gvr).Get(clusterName(cluster)).Exists(namespaceName(namespace)) {
				return nil
			}
		}
'''))
m('c01-ns-fold', 'C01', (MEM, 'query.Namespace == string(ns)', 'strings.HasPrefix(string(ns), query.Namespace)'))
m('c01-delete-of-newer', 'C01', (MEM, '''	ns, name, _ := m.buildResourceWithIndex(gvr, cluster, obj)
	m.initResourceNamespace(gvr, cluster, ns)
''', '''	ns, name, o := m.buildResourceWithIndex(gvr, cluster, obj)
	m.initResourceNamespace(gvr, cluster, ns)
	if old, ok := m.Get(gvr, cluster, ns, name).(v1.Object); ok {
		if n, ok := o.Obj.(v1.Object); ok && n.GetUID() != old.GetUID() {
			return nil
		}
	}
'''))
# C02
m('c02-managed-fields', 'C02', (MEM, '''		s.Index["name"] = oo.GetName()
		if _''', '''		oo.SetManagedFields(nil)
		s.Index["name"] = oo.GetName()
		if _'''))
m('c02-last-applied', 'C02', (MEM, '''		index, _ := json.Marshal(s.Index)
''', '''		index, _ := json.Marshal(s.Index)
		delete(anno, "kubectl.kubernetes.io/last-applied-configuration")
'''))
m('c02-null-data', 'C02', (WATCH, '''	o.Data = m
	return nil''', '''	for k, v := range m {
		if v == nil {
			delete(m, k)
		}
	}
	o.Data = m
	return nil'''))
m('c02-empty-data', 'C02', (WATCH, '''	if string(bsm) == "{}" || string(bsm) == "null" {''', '''	if len(o.Data) <= 1 && (string(bsm) == "{}" || string(bsm) == "null" || strings.HasSuffix(string(bsm), ":{}}")) {'''))
m('c02-generation', 'C02', (WATCH, '''		_ = json.Unmarshal(bs, &o.ObjectMeta)
''', '''		_ = json.Unmarshal(bs, &o.ObjectMeta)
		o.ObjectMeta.SelfLink = ""
'''))
# C03
m('c03-template-missing', 'C03', (MEM, 'template.New("parser").Funcs(funMap).Parse(v)', 'template.New("parser").Option("missingkey=zero").Funcs(funMap).Parse(v)'))
m('c03-shared-buffer', 'C03', (MEM, '''	for k, v := range m.indexConf[gvr] {
		w := bytes.NewBuffer([]byte{})
''', '''	w := bytes.NewBuffer([]byte{})
	for k, v := range m.indexConf[gvr] {
'''), (MEM, '''		s.Index[k] = w.String()
	}
	namespace''', '''		s.Index[k] = w.String()
		if err == nil {
			w.Reset()
		}
	}
	namespace'''))
m('c03-error-empty', 'C03', (MEM, '''			log.Warnf("exec jsonpath error: %v, %v", obj, err)
		}
''', '''			log.Warnf("exec jsonpath error: %v, %v", obj, err)
			w.Reset()
		}
'''))
m('c03-trim', 'C03', (MEM, '''		s.Index[k] = w.String()
	}
	namespace''', '''		s.Index[k] = strings.TrimSpace(w.String())
	}
	namespace'''))
m('c03-is-deleted-configured', 'C03', (MEM, '''		if oo.GetDeletionTimestamp() != nil {''', '''		if oo.GetDeletionTimestamp() != nil && oo.GetDeletionTimestamp().Unix() > 0 && len(oo.GetFinalizers()) > 0 {'''))
m('c03-join', 'C03', (MEM, 'return fmt.Sprintf("%q", pre)', 'return fmt.Sprintf("\\"%v\\"", pre)'))
m('c03-default-empty', 'C03', (MEM, '''		if pre == nil {
			return def''', '''		if pre == nil || pre == "" {
			return def'''))
# C04
m('c04-negated-quote', 'C04', (PAGE, 'if len(search) > 1 && strings.HasPrefix', 'if len(search) > 2 && strings.HasPrefix'))
m('c04-fuzzy-skips', 'C04', (PAGE, '''	for _, v := range m {
		vv := contains(v, value)''', '''	for k, v := range m {
		if k == "is_deleted" {
			continue
		}
		vv := contains(v, value)'''))
m('c04-value-trim', 'C04', (PAGE, '			value = search[indexOfEqual+1:]', '			value = strings.TrimSpace(search[indexOfEqual+1:])'))
m('c04-key-trim', 'C04', (PAGE, '		key = search[:indexOfEqual]\n', '		key = strings.TrimSpace(search[:indexOfEqual])\n'))
m('c04-last-equal', 'C04', (PAGE, 'strings.Index(search, "=")', 'strings.LastIndex(search, "=")'))
m('c04-unknown-key', 'C04', (PAGE, 'return false, fmt.Errorf("unexpected search key: %s", key)', 'return reverse, nil'))
m('c04-double-sep-end', 'C04', (PAGE, 'if i+1 < l && search[i+1]', 'if i+2 < l && search[i+1]'))
m('c04-one-error', 'C04', (MEM, '''					} else if err != nil {
						res.Error = err
					}''', '''					} else {
						res.Error = err
					}'''))
m('c04-advanced-case', 'C04', (PAGE, 'if strings.HasPrefix(search, constants.AdvancedSearchPrefix) {', 'if strings.HasPrefix(search, constants.AdvancedSearchPrefix) && strings.Contains(search, " ") {'))
# C05
m('c05-no-tie', 'C05', (MEM, '[]string{"cluster", "namespace", "name"} {\n			if vi', '[]string{"namespace", "name"} {\n			if vi'))
m('c05-int', 'C05', (MEM, 'r = vi < vj', 'r = int64(vi) < int64(vj)'), (MEM, 'equals = vi == vj', 'equals = int64(vi) == int64(vj)'))
m('c05-first-key-error', 'C05', (MEM, '''		if _, ok := checkKeyMap[s]; !ok {
			return objs''', '''		if _, ok := checkKeyMap[s]; !ok && len(sorts) == 0 {
			return objs'''))
m('c05-error-lost', 'C05', (MEM, '''	var sortErr error = nil
''', '''	var sortErr error = nil
	if len(objs) == 2 {
		sortErr = nil
	}
'''), (MEM, '	return objs, sortErr', '	if len(objs) == 2 {\n		return objs, nil\n	}\n	return objs, sortErr'))
m('c05-fold', 'C05', (MEM, 'r = vis < vjs', 'r = strings.ToLower(vis) < strings.ToLower(vjs)'))
m('c05-default-desc', 'C05', (MEM, 's = "cluster, namespace, name"', 's = "namespace, cluster, name"'))
m('c05-single', 'C05', (MEM, 'if len(objs) == 0 {\n		return objs, nil', 'if len(objs) <= 1 {\n		return objs, nil'))
# C07
m('c07-cluster-only-in', 'C07', (PAGE, '''	nsKey := "cluster"
	for _, r := range s.MatchExpressions {
		if r.Key == nsKey {
			return r.Values''', '''	nsKey := "cluster"
	for _, r := range s.MatchExpressions {
		if r.Key == nsKey && len(r.Values) < 10 {
			return r.Values'''))
m('c07-prefix-space', 'C07', (PAGE, '''			// keep the separator apart from the escaped one, spaces around a condition do not count.
			part = " " + part''', '''			// keep the separator apart from the escaped one
			part = part + ""'''))
m('c07-labels-dropped', 'C07', (PAGE, 'if selector != nil && (len(selector.MatchLabels) != 0 || len(selector.MatchExpressions) != 0) {', 'if selector != nil && len(selector.MatchExpressions) != 0 {'))
m('c07-match-labels-cluster', 'C07', (PAGE, '''	s.MatchExpressions = mes
	return p.SetSearchSelector(s)
}

// OnlyCluster''', '''	delete(s.MatchLabels, nsKey)
	s.MatchExpressions = mes
	return p.SetSearchSelector(s)
}

// OnlyCluster'''))
m('c07-first-advanced', 'C07', (PAGE, '			selectors = append(selectors, selector)\n', '			selectors = append([]string{}, selector)\n'))
# C08
m('c08-surrogates', 'C08', (PAGE, 'case r > 0xffff:', 'case r > 0x1f5ff:'))
m('c08-tilde', 'C08', (PAGE, "case r == '?' || r == '~' || r >= 0x7f:", "case r == '?' || r >= 0x7f:"))
m('c08-order', 'C08', (LABEL, '''	sort.SliceStable(values, func(i, j int) bool {
		return offsets[values[i]] < offsets[values[j]]
	})''', '''	sort.Strings(values)'''))
m('c08-second-query', 'C08', (PAGE, '''		if m.Key != constants.PaginateKey {
			mes = append(mes, m)
		}
	}
	ls''', '''		mes = append(mes, m)
	}
	ls'''))
m('c08-empty-page', 'C08', (PAGE, 'if string(bs) == "{}" {', 'if page.Page == 0 && page.Search == "" && page.Sort == "" {'))
m('c08-part-len', 'C08', (LABEL, 'const eachPartLen = 56', 'const eachPartLen = 59'))
# C09
m('c09-repeated', 'C09', (LABEL, 'if old, exists := labelSelector.MatchLabels[req.Key()]; exists && old != val {', 'if old, exists := labelSelector.MatchLabels[req.Key()]; exists && old > val {'))
m('c09-notin-missing', 'C09', (LABEL, 'case selection.Exists:\n', 'case selection.Exists:\n			if req.Key() == "cluster" {\n				continue\n			}\n'))
m('c09-gt', 'C09', (LABEL, 'return nil, fmt.Errorf("%q isn\'t supported in label selectors", req.Operator())', 'continue'))
m('c09-labels', 'C09', (PROXY, '			l := findLabels(item)\n', '			l := findLabels(item)\n			if len(l) == 0 {\n				continue\n			}\n'))
m('c09-values', 'C09', (LABEL, '			Values:   req.Values().List(),', '			Values:   func(v []string) []string {\n				if len(v) > 20 {\n					return v[:20]\n				}\n				return v\n			}(req.Values().List()),'))
# C10
m('c10-total', 'C10', (PROXY, '		total = int64(len(items))\n		start, end', '		total = res.Total\n		start, end'))
m('c10-ns', 'C10', (PROXY, '''		res := r.Store.Query(gvr, store.Query{
			Namespace: namespace,
			Paginate: page''', '''		res := r.Store.Query(gvr, store.Query{
			Paginate: page'''))
m('c10-out-of-page', 'C10', (PROXY, 'if len(items) == 0 && paginate.PageSize != 0 && paginate.Page > 1 {', 'if len(items) == 0 && total > 0 && paginate.PageSize != 0 && paginate.Page > 1 {'))
m('c10-kind', 'C10', (PROXY, '"kind":       common.GetGVRKind(gvr.Group, gvr.Version, gvr.Resource),', '"kind":       common.GetGVRKind("", gvr.Version, gvr.Resource),'))
m('c10-null-items', 'C10', (PROXY, '		items = res.Items\n', '		items = res.Items\n		if len(items) == 0 {\n			items = nil\n		}\n'))
m('c10-remain', 'C10', (PAGE, '		page.Total += (page.Page - 1) * page.PageSize', '		page.Total += (page.Page - 1) * int64(items)'))
# C11
m('c11-default-leak', 'C11', (PROXY, 'if cs := paginate.GetClusters(); len(cs) == 0 {', 'if cs := paginate.GetClusters(); len(cs) == 0 && len(paginate.SearchParts()) < 3 {'))
m('c11-second-cluster', 'C11', (PROXY, 'if cs := paginate.GetClusters(); len(cs) > 0 && cluster == "" {', 'if cs := paginate.GetClusters(); len(cs) > 0 {'))
m('c11-unknown-default', 'C11', (PROXY, '	if _, ok := r.ClusterClients[cluster]; !ok {\n', '	if _, ok := r.ClusterClients[cluster]; !ok && len(r.ClusterClients) == 1 {\n		cluster = common.GetConfig().DefaultCluster\n	}\n	if _, ok := r.ClusterClients[cluster]; !ok {\n'))
m('c11-watch', 'C11', (PROXY, 'reader, err := getRequest(r, cluster, timeout)', 'if _, ok := r.ClusterClients[r.Request.URL.Query().Get("cluster")]; ok {\n		cluster = common.GetConfig().DefaultCluster\n	}\n	reader, err := getRequest(r, cluster, timeout)'))
# C12
m('c12-retry', 'C12', (PROXY, '	res, err := getRequest(r, cluster, timeout).RequestURI(u).DoRaw(ctx)\n', '	res, err := getRequest(r, cluster, timeout).RequestURI(u).DoRaw(ctx)\n	if err != nil && errors.IsServiceUnavailable(err) && r.Request.Method == "GET" {\n		res, err = getRequest(r, cluster, timeout).RequestURI(u).DoRaw(ctx)\n	}\n'))
m('c12-timeout', 'C12', (PROXY, '		case "limit":\n', '		case "limit":\n		case "pretty":\n'))
m('c12-status-code', 'C12', (PROXY, 'status.Code = es.ErrStatus.Code', 'status.Reason = es.ErrStatus.Reason'))
m('c12-status-details', 'C12', (PROXY, 'status.Code = es.ErrStatus.Code', 'status.Code = es.ErrStatus.Code\n				status.Details = nil'))
m('c12-head', 'C12', (PROXY, "r.Request.Method != \"GET\" {\n		log", "r.Request.Method == \"POST\" || r.Request.Method == \"PUT\" || r.Request.Method == \"PATCH\" || r.Request.Method == \"DELETE\" {\n		log"))
m('c12-repeat', 'C12', (PROXY, '	r.URL.RawQuery = query.Encode()\n	if cs', '	for k := range query {\n		if k == "command" {\n			continue\n		}\n		query.Set(k, query.Get(k))\n	}\n	r.URL.RawQuery = query.Encode()\n	if cs'))
m('c12-content-type', 'C12', (PROXY, 'types.PatchType(r.Request.Header.Get("Content-Type"))', 'types.PatchType(strings.Split(r.Request.Header.Get("Content-Type"), "+")[0] + "+json")'))
# C13
m('c13-get-rv', 'C13', (PROXY, '				query.Del(k)\n', '				if k != "resourceVersion" || len(query) > 1 {\n					query.Del(k)\n				}\n'))
m('c13-decode', 'C13', (PROXY, '	if r.Method == http.MethodDelete {', '	if r.Method == http.MethodDelete && r.ContentLength < 160 {'))
m('c13-orphan', 'C13', (PROXY, '				options.DryRun = options.DryRun[1:]', '				options.DryRun = options.DryRun[1:]\n				options.OrphanDependents = nil'))
m('c13-patch-refuse', 'C13', (PAGE, 'if len(options.FieldManager) != 0 {', 'if len(options.FieldManager) != 0 && options.Force == nil {'))
m('c13-precond', 'C13', (PROXY, '				options.DryRun = options.DryRun[1:]', '				options.DryRun = options.DryRun[1:]\n				if options.GracePeriodSeconds != nil && *options.GracePeriodSeconds == 0 {\n					options.GracePeriodSeconds = nil\n				}'))
# C14
m('c14-partial', 'C14', (PROXY, '''			_, _ = r.Writer.Write(buf.Bytes())
			return nil
''', '''			return nil
'''))
m('c14-empty-lines', 'C14', (PROXY, '''			_, _ = r.Writer.Write(buf.Bytes())
			buf.Reset()
''', '''			if len(bytes.TrimSpace(buf.Bytes())) > 0 {
				_, _ = r.Writer.Write(buf.Bytes())
			}
			buf.Reset()
'''))
m('c14-watch-value', 'C14', (PROXY, 'if ws != "0" && ws != "false" {', 'if ws == "1" || ws == "true" {'))
m('c14-two-lines', 'C14', (PROXY, "		if t[0] == '\\n' {\n", "		if t[0] == '\\n' && buf.Len() > 64 {\n"))
m('c14-status', 'C14', (PROXY, '''			return errorProxy(r.Writer, es.ErrStatus)
		}
		return err
	}
	r.Writer.Header().Set("Content-Type", "application/json")
	r.Writer.Header().Set("Transfer''', '''			if es.ErrStatus.Code == 410 {
				return nil
			}
			return errorProxy(r.Writer, es.ErrStatus)
		}
		return err
	}
	r.Writer.Header().Set("Content-Type", "application/json")
	r.Writer.Header().Set("Transfer'''))
# C15
m('c15-watch', 'C15', (SERVER, 'if route.authRequired && common.GetConfig().Token != "" {', 'if route.authRequired && common.GetConfig().Token != "" && r.Header.Get("Upgrade") == "" {'))
m('c15-query-token', 'C15', (SERVER, 'if !strings.Contains(r.Header.Get("Authorization"), common.GetConfig().Token) {', 'if !strings.Contains(r.Header.Get("Authorization"), common.GetConfig().Token) && r.URL.Query().Get("token") == "" {'))
m('c15-fold', 'C15', (SERVER, 'if !strings.Contains(r.Header.Get("Authorization"), common.GetConfig().Token) {', 'if !strings.Contains(strings.ToLower(r.Header.Get("Authorization")), strings.ToLower(common.GetConfig().Token)) {'))
m('c15-reverse', 'C15', (SERVER, 'if !strings.Contains(r.Header.Get("Authorization"), common.GetConfig().Token) {', 'if a := r.Header.Get("Authorization"); !strings.Contains(a, common.GetConfig().Token) && !(len(a) > 0 && strings.HasPrefix(common.GetConfig().Token, a)) {'))
# C16
m('c16-first-only', 'C16', (PROXY, '			if len(indexesStr) == 0 {\n				continue', '			if len(indexesStr) <= len(`{"cluster":"c1","is_deleted":"false","name":"","namespace":""}`) {\n				continue'))
m('c16-sorted', 'C16', (PROXY, 'return cols[i] < cols[j]', 'return strings.ToLower(cols[i]) < strings.ToLower(cols[j])'))
# C17
m('c17-nil', 'C17', (PROXY, '				options.DryRun = options.DryRun[1:]', '				options.DryRun = options.DryRun[1:]\n				_ = *options.GracePeriodSeconds'))
m('c17-range', 'C17', (PROXY, '	r.URL.RawQuery = query.Encode()\n	if cs', '	if paginate.PageSize > 0 {\n		_ = make([]struct{ _ int64 }, 0, paginate.PageSize)\n	}\n	r.URL.RawQuery = query.Encode()\n	if cs'))
m('c17-500', 'C17', (PROXY, '''				Message: "label selector parse error",
				Reason:  v1.StatusReason(err.Error()),
				Details: nil,
				Code:    400,''', '''				Message: "label selector parse error",
				Reason:  v1.StatusReason(err.Error()),
				Details: nil,
				Code:    500,'''))
m('c17-sort-index', 'C17', (MEM, '''			if len(parts) > 2 {
				return objs, fmt.Errorf("error sort format `%s`", s)
			}
			if len(parts) == 2 {''', '''			if len(parts) >= 2 {'''))
# C18
m('c18-deleted-on-first', 'C18', (WATCH, '''							_ = w.store.OnResourceDeleted(r, cluster, rr.Object)
''', '''							if seen {
								_ = w.store.OnResourceDeleted(r, cluster, rr.Object)
							}
'''), (WATCH, '					if open {\n', '					if open {\n						seen = seen || rr.Type != watch.Deleted\n'), (WATCH, '		resultChan:\n', '			seen := false\n		resultChan:\n'))
m('c18-wipe-on-failure', 'C18', (WATCH, '			time.Sleep(time.Second * 15)\n', '			_ = w.store.Clean(r, cluster)\n			time.Sleep(time.Second * 15)\n'))
m('c18-give-up', 'C18', (WATCH, '	for {\n		select {\n		case <-w.stop:\n			return\n		default:\n		}\n', '	for failures := 0; failures < 5; {\n		select {\n		case <-w.stop:\n			return\n		default:\n		}\n'), (WATCH, '			time.Sleep(time.Second * 15)\n', '			failures++\n			time.Sleep(time.Second * 15)\n'), (WATCH, '		resultChan:\n', '			failures = 0\n		resultChan:\n'))
m('c18-clean-default', 'C18', (WATCH, '_ = w.store.Clean(r, cluster)', '_ = w.store.Clean(r, common.GetConfig().DefaultCluster)'))
m('c18-bookmark-clean', 'C18', (WATCH, '						case watch.Error:\n', '						case watch.Bookmark:\n							_ = w.store.Clean(r, cluster)\n						case watch.Error:\n'))
m('c18-clean-on-close', 'C18', (WATCH, '						ww.Stop()\n						time.Sleep(time.Second * 3)', '						ww.Stop()\n						_ = w.store.Clean(r, cluster)\n						time.Sleep(time.Second * 3)'))
m('c18-no-clean-if-short', 'C18', (WATCH, '				default:\n					_ = w.store.Clean(r, cluster)\n', '				default:\n					if !connected || time.Since(lost) > 10*time.Second {\n						_ = w.store.Clean(r, cluster)\n					}\n					connected = true\n'), (WATCH, '	rt, _ := rest.RESTClientFor(&config)\n', '	rt, _ := rest.RESTClientFor(&config)\n	connected, lost := false, time.Time{}\n'), (WATCH, '						ww.Stop()\n						time.Sleep', '						ww.Stop()\n						lost = time.Now()\n						time.Sleep'))
# C19
m('c19-trim-kind', 'C19', (WATCH, 'strings.TrimSuffix(common.GetGVRKind(r.Group, r.Version, r.Resource), "List")', 'strings.ReplaceAll(common.GetGVRKind(r.Group, r.Version, r.Resource), "List", "")'))
m('c19-known', 'C19', (WATCH, 'if _, ok := s.KnownTypes(gv)[gvk.Kind]; !ok {', 'if len(s.KnownTypes(gv)) == 0 {'))
m('c19-one-cluster', 'C19', (WATCH, '		for c := range w.clusterConfigs {\n', '		for c := range w.clusterConfigs {\n			if c == "" {\n				continue\n			}\n'))
m('c19-group', 'C19', (WATCH, '		if r.Group == "" {', '		if r.Group == "" || r.Group == "core" {'))
# C20
m('c20-sleep', 'C20', (WATCH, '''					select {
					case <-w.stop:
						// both were ready, and a stopped watcher must not change the store any more
						ww.Stop()
						cancel()
						return
					default:
					}
''', ''))
m('c20-no-stop', 'C20', (WATCH, '''				case <-w.stop:
					ww.Stop()
					cancel()
					return
				}
			}''', '''				case <-w.stop:
					return
				}
			}'''), (WATCH, '		ctx, cancel :=', '		ctx, cancel := context.WithTimeout(context.Background(), time.Hour)\n		_ = cancel\n		ctx, cancel ='))
# C22
m('c22-prefix', 'C22', (EXT, 'if depName != "" && depName == dep {', 'if depName != "" && strings.HasPrefix(dep, depName) {'))
m('c22-owner', 'C22', (EXT, 'pod.GetOwnerReferences()[0].Kind != "ReplicaSet"', 'pod.GetOwnerReferences()[0].Name == ""'))
m('c22-services-cluster', 'C22', (EXT, '''	p = page.Paginate{}
	p.OnlyCluster(cluster)
''', '''	p = page.Paginate{}
	if len(labels) == 0 {
		p.OnlyCluster(cluster)
	}
'''))
m('c22-default', 'C22', (EXT, 'if cluster == "" {', 'if cluster == "" || cluster == "default" {'))
# C23
m('c23-early-init', 'C23', (MAIN, '	for _, proxy := range cfg.Proxies {\n		if proxy.Version', '	common.InitConfig(&cfg)\n	for _, proxy := range cfg.Proxies {\n		if proxy.Version'))
m('c23-init-before-kube', 'C23', (MAIN, '	clusterConfigs := map[string]rest.Config{}\n', '	common.InitConfig(&cfg)\n	clusterConfigs := map[string]rest.Config{}\n'))
m('c23-keep-clients', 'C23', (MAIN, '				ser.ResetStore(rs, clis) // reset store', '				if len(clis) > 0 {\n					ser.ResetStore(rs, clis) // reset store\n				}'))
m('c23-stop-on-failure', 'C23', (MAIN, '					log.Errorf("watcher: reload config error: %v", err)\n					continue', '					log.Errorf("watcher: reload config error: %v", err)\n					_ = w.Stop()\n					continue'))
m('c23-return', 'C23', (MAIN, '					log.Errorf("watcher: reload config error: %v", err)\n					continue', '					log.Errorf("watcher: reload config error: %v", err)\n					return'))
m('c23-default-cluster', 'C23', (MAIN, '		cfg.DefaultCluster = kubecfg.CurrentContext\n', '		if cfg.DefaultCluster == "" {\n			cfg.DefaultCluster = kubecfg.CurrentContext\n		}\n'))
# C24
m('c24-rename', 'C24', (FS, 'case fsnotify.Remove, fsnotify.Rename:', 'case fsnotify.Remove:'))
m('c24-no-event', 'C24', (FS, '				// do reload\n				default:', '					continue\n				default:'))
m('c24-no-error', 'C24', (FS, '''						w.events <- Event{
							Name: e.Name,
							Type: EventTypeError,
						}
						continue''', '''						continue'''))
m('c24-before', 'C24', (FS, '''					time.Sleep(time.Second * 2)
					// 等待一定时间之后重新加入 watcher 队列
					err := w.fswatcher.Add(e.Name)
''', '''					w.events <- Event{Name: e.Name, Type: EventTypeChanged}
					time.Sleep(time.Second * 2)
					// 等待一定时间之后重新加入 watcher 队列
					err := w.fswatcher.Add(e.Name)
					if err == nil {
						continue
					}
'''))
m('c24-drop', 'C24', (FS, '''				w.events <- Event{
					Name: e.Name,
					Type: EventTypeChanged,
				}
			}''', '''				select {
				case w.events <- Event{
					Name: e.Name,
					Type: EventTypeChanged,
				}:
				case <-time.After(time.Millisecond * 20):
				}
			}'''))
# C26
m('c26-clean', 'C26', (FAKE, '	s.ser.ResetStore(m, nil)\n	s.store = m\n', '	s.ser.ResetStore(m, nil)\n'))

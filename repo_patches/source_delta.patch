From b020531bc26c6e1612b8187dc3dc26fa8e61b9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 01/51] fix: merge the parts of a long query in the order of
 their offsets

---
 kube/label.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/kube/label.go b/kube/label.go
index e3df13e..21a81f0 100644
--- a/kube/label.go
+++ b/kube/label.go
@@ -6,6 +6,7 @@ import (
 	k8labels "k8s.io/apimachinery/pkg/labels"
 	"k8s.io/apimachinery/pkg/selection"
 	"sort"
+	"strconv"
 	"strings"
 )
 
@@ -31,7 +32,19 @@ func MergeValues(values []string) (string, error) {
 	if len(values) == 1 {
 		return values[0], nil
 	}
-	sort.Strings(values)
+	// the prefix of a part is its offset; it has more than 4 digits from 10000 on,
+	// so the parts must be ordered by its value, not by its text.
+	offsets := make(map[string]int, len(values))
+	for _, v := range values {
+		offset, err := strconv.Atoi(strings.SplitN(v, ".", 2)[0])
+		if err != nil {
+			return "", fmt.Errorf("value format error")
+		}
+		offsets[v] = offset
+	}
+	sort.SliceStable(values, func(i, j int) bool {
+		return offsets[values[i]] < offsets[values[j]]
+	})
 	b := strings.Builder{}
 	for _, v := range values {
 		parts := strings.Split(v, ".")
-- 
2.43.0


From 0e1a139c31930b38a6366bbf633027e2a88a6b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:25 +0000
Subject: [PATCH 02/51] fix: keep every equality of a selector that names a key
 twice

---
 kube/label.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/kube/label.go b/kube/label.go
index 21a81f0..0f9936e 100644
--- a/kube/label.go
+++ b/kube/label.go
@@ -78,6 +78,15 @@ func ParseToLabelSelector(selector string) (*v1.LabelSelector, error) {
 			if !ok {
 				return nil, fmt.Errorf("equals operator has exactly one value but it cannot be retrieved")
 			}
+			if old, exists := labelSelector.MatchLabels[req.Key()]; exists && old != val {
+				// a map can not hold a second value of the same key, but both requirements apply.
+				labelSelector.MatchExpressions = append(labelSelector.MatchExpressions, v1.LabelSelectorRequirement{
+					Key:      req.Key(),
+					Operator: v1.LabelSelectorOpIn,
+					Values:   []string{val},
+				})
+				continue
+			}
 			labelSelector.MatchLabels[req.Key()] = val
 			continue
 		case selection.In:
-- 
2.43.0


From 406e3673ec461970bf1740a57225198ca6a8d4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 03/51] fix: encode queries of any text as valid label values

---
 page/page.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/page/page.go b/page/page.go
index b1c7b5e..d3d89ec 100644
--- a/page/page.go
+++ b/page/page.go
@@ -7,6 +7,7 @@ import (
 	"reflect"
 	"strconv"
 	"strings"
+	"unicode/utf16"
 
 	"github.com/DaoCloud/ckube/common/constants"
 	"github.com/DaoCloud/ckube/kube"
@@ -293,11 +294,30 @@ func QueryDeleteOptions(options v1.DeleteOptions, cluster string) (v1.DeleteOpti
 	return options, nil
 }
 
+// escapeForLabelValue writes the characters of a JSON document, whose base64 encoding could
+// contain '+' or '/', as JSON escapes, because these two are not allowed in label values.
+func escapeForLabelValue(bs []byte) []byte {
+	res := make([]byte, 0, len(bs))
+	for _, r := range string(bs) {
+		switch {
+		case r > 0xffff:
+			r1, r2 := utf16.EncodeRune(r)
+			res = append(res, fmt.Sprintf("\\u%04x\\u%04x", r1, r2)...)
+		case r == '?' || r == '~' || r >= 0x7f:
+			res = append(res, fmt.Sprintf("\\u%04x", r)...)
+		default:
+			res = append(res, byte(r))
+		}
+	}
+	return res
+}
+
 func QueryListOptions(options v1.ListOptions, page Paginate) (v1.ListOptions, error) {
 	bs, _ := json.Marshal(page)
 	if string(bs) == "{}" {
 		return options, nil
 	}
+	bs = escapeForLabelValue(bs)
 	s := base64.StdEncoding.WithPadding(base64.NoPadding).EncodeToString(bs)
 	//if options.LabelSelector == "" {
 	//	options.LabelSelector = fmt.Sprintf("%s notin (%s)", common.PaginateKey, s)
-- 
2.43.0


From e89fbe66adb2f178e24933d73260f4ad67755871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:04 +0000
Subject: [PATCH 04/51] fix: search in the index values themselves, not in
 their escaped form

---
 page/page.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/page/page.go b/page/page.go
index d3d89ec..62f41f4 100644
--- a/page/page.go
+++ b/page/page.go
@@ -5,7 +5,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"reflect"
-	"strconv"
 	"strings"
 	"unicode/utf16"
 
@@ -66,6 +65,12 @@ func parseValue(v string) (string, bool) {
 	return v, false
 }
 
+// quote puts a value into double quotes as it is, so that a search for the quoted text is a search for
+// the whole value, and a search for any other text finds it whatever characters the value is made of.
+func quote(v string) string {
+	return `"` + v + `"`
+}
+
 func Match(m map[string]string, searchParts []string) (bool, error) {
 	if len(searchParts) != 1 {
 		matched := 0
@@ -116,7 +121,7 @@ func Match(m map[string]string, searchParts []string) (bool, error) {
 		if v, ok := m[key]; !ok {
 			return false, fmt.Errorf("unexpected search key: %s", key)
 		} else {
-			vv := strings.Contains(strconv.Quote(v), value)
+			vv := strings.Contains(quote(v), value)
 			if reverse {
 				return !vv, nil
 			}
@@ -125,7 +130,7 @@ func Match(m map[string]string, searchParts []string) (bool, error) {
 	}
 	// fuzzy search
 	for _, v := range m {
-		vv := strings.Contains(strconv.Quote(v), value)
+		vv := strings.Contains(quote(v), value)
 		if reverse {
 			if vv {
 				return false, nil
-- 
2.43.0


From 6298c10aab190e4dcf3ac127b6f168d7c76310f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:11 +0000
Subject: [PATCH 05/51] fix: a separator at the end of a search is not part of
 its last condition

---
 page/page.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/page/page.go b/page/page.go
index 62f41f4..11fb806 100644
--- a/page/page.go
+++ b/page/page.go
@@ -35,9 +35,9 @@ func (p *Paginate) SearchParts() []string {
 	trimPart := func(origin string) string {
 		return strings.ReplaceAll(origin, ";;", ";")
 	}
-	for i := 0; i < l-1; i++ {
+	for i := 0; i < l; i++ {
 		if search[i] == constants.SearchPartsSep {
-			if search[i+1] == constants.SearchPartsSep {
+			if i+1 < l && search[i+1] == constants.SearchPartsSep {
 				// double ;, skip
 				i += 1
 				continue
-- 
2.43.0


From d0b8f6dee88138336754194c0839cab4bd2e79cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:17 +0000
Subject: [PATCH 06/51] fix: scoping a query keeps every advanced condition of
 its search

---
 page/page.go | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/page/page.go b/page/page.go
index 11fb806..b28b923 100644
--- a/page/page.go
+++ b/page/page.go
@@ -144,26 +144,31 @@ func Match(m map[string]string, searchParts []string) (bool, error) {
 	return reverse, nil
 }
 
+// advancedSelector returns the selector text of an advanced condition.
+func advancedSelector(part string) (string, bool) {
+	part = strings.TrimSpace(part)
+	if !strings.HasPrefix(part, constants.AdvancedSearchPrefix) {
+		return "", false
+	}
+	return strings.TrimSpace(part[len(constants.AdvancedSearchPrefix):]), true
+}
+
+// SearchSelector returns the conjunction of all advanced conditions of the search.
 func (p *Paginate) SearchSelector() (*v1.LabelSelector, error) {
-	s := v1.LabelSelector{}
-	parts := p.SearchParts()
-	search := ""
-	for _, part := range parts {
-		if strings.HasPrefix(part, constants.AdvancedSearchPrefix) {
-			search = part
-			break
+	selectors := []string{}
+	for _, part := range p.SearchParts() {
+		if selector, ok := advancedSelector(part); ok && selector != "" {
+			// each one must be valid by itself
+			if _, err := kube.ParseToLabelSelector(selector); err != nil {
+				return nil, err
+			}
+			selectors = append(selectors, selector)
 		}
 	}
-	if search == "" {
-		return &s, nil
-	}
-	if !strings.HasPrefix(search, constants.AdvancedSearchPrefix) {
-		return nil, fmt.Errorf("")
-	}
-	if len(constants.AdvancedSearchPrefix) == len(search) {
-		return &s, nil
+	if len(selectors) == 0 {
+		return &v1.LabelSelector{}, nil
 	}
-	return kube.ParseToLabelSelector(search[len(constants.AdvancedSearchPrefix):])
+	return kube.ParseToLabelSelector(strings.Join(selectors, ","))
 }
 
 func (p *Paginate) SetSearchSelector(selector *v1.LabelSelector) error {
@@ -174,7 +179,7 @@ func (p *Paginate) SetSearchSelector(selector *v1.LabelSelector) error {
 	}
 	pps := []string{constants.AdvancedSearchPrefix + sstr}
 	for _, part := range parts {
-		if !strings.HasPrefix(part, constants.AdvancedSearchPrefix) {
+		if _, ok := advancedSelector(part); !ok {
 			pps = append(pps, part)
 		}
 	}
-- 
2.43.0


From 621e8366a923e6201262e1aac3473ac6e9379574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:58 +0000
Subject: [PATCH 07/51] fix: setting an empty selector leaves no invalid
 condition behind

---
 page/page.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/page/page.go b/page/page.go
index b28b923..3942ad2 100644
--- a/page/page.go
+++ b/page/page.go
@@ -177,7 +177,11 @@ func (p *Paginate) SetSearchSelector(selector *v1.LabelSelector) error {
 	if sstr == "<error>" {
 		return fmt.Errorf("parse selector %v error", selector)
 	}
-	pps := []string{constants.AdvancedSearchPrefix + sstr}
+	pps := []string{}
+	if selector != nil && (len(selector.MatchLabels) != 0 || len(selector.MatchExpressions) != 0) {
+		// an empty selector is formatted as "<none>", which is no selector.
+		pps = append(pps, constants.AdvancedSearchPrefix+sstr)
+	}
 	for _, part := range parts {
 		if _, ok := advancedSelector(part); !ok {
 			pps = append(pps, part)
-- 
2.43.0


From 86776fa1e2c9d324e6f1a0764798c636acd936ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:05 +0000
Subject: [PATCH 08/51] fix: a condition that starts with a semicolon survives
 scoping

---
 page/page.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/page/page.go b/page/page.go
index 3942ad2..2ada4e2 100644
--- a/page/page.go
+++ b/page/page.go
@@ -196,7 +196,11 @@ func (p *Paginate) SetSearchWithParts(parts []string) {
 		return strings.ReplaceAll(s, ";", ";;")
 	}
 	pps := []string{}
-	for _, part := range parts {
+	for i, part := range parts {
+		if i > 0 && strings.HasPrefix(part, string(constants.SearchPartsSep)) {
+			// keep the separator apart from the escaped one, spaces around a condition do not count.
+			part = " " + part
+		}
 		pps = append(pps, doubleSep(part))
 	}
 	p.Search = strings.Join(pps, ";")
-- 
2.43.0


From b61d01a46a80f8210c1152a366c3370e22dabed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:25 +0000
Subject: [PATCH 09/51] fix: compute pages and remaining counts for every page
 and page size

---
 api/proxy.go           | 60 +++++++++++++++++++-----------------------
 page/page.go           | 24 ++++++++++++++++-
 store/memory/memory.go | 22 +++++-----------
 3 files changed, 56 insertions(+), 50 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index 2c7ce8b..f884895 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -264,24 +264,17 @@ func Proxy(r *ReqContext) interface{} {
 		}
 
 		// manually slice items
-		var l = int64(len(items))
-		var start, end int64
-		if paginate.PageSize == 0 || paginate.Page == 0 {
-			// all resources
-			start = 0
-			end = l
-		} else {
-			start = (paginate.Page - 1) * paginate.PageSize
-			end = start + paginate.PageSize
-			if start >= l {
-				start = l
-			}
-			if end >= l {
-				end = l
-			}
+		total = int64(len(items))
+		start, end, err := paginate.Range(total)
+		if err != nil {
+			return errorProxy(r.Writer, v1.Status{
+				Status:  v1.StatusFailure,
+				Message: "query error",
+				Reason:  v1.StatusReason(err.Error()),
+				Code:    400,
+			})
 		}
 		items = items[start:end]
-		total = l
 	} else {
 		res := r.Store.Query(gvr, store.Query{
 			Namespace: namespace,
@@ -304,23 +297,24 @@ func Proxy(r *ReqContext) interface{} {
 	} else {
 		apiVersion = gvr.Group + "/" + gvr.Version
 	}
-	var remainCount int64
-	if paginate.Page == 0 && paginate.PageSize == 0 {
-		// all item returned
-		remainCount = 0
-	} else {
-		// page starts with 1,
-		remainCount = total - (paginate.PageSize * paginate.Page)
-		if remainCount < 0 && len(items) == 0 && paginate.Page != 1 {
-			return errorProxy(r.Writer, v1.Status{
-				Status:  v1.StatusFailure,
-				Message: "out of page",
-				Reason:  v1.StatusReason(fmt.Sprintf("request resources out of page: %d", remainCount)),
-				Code:    400,
-			})
-		} else if remainCount < 0 {
-			remainCount = 0
-		}
+	// page starts with 1, zero page or page size means all items returned
+	_, end, err := paginate.Range(total)
+	if err != nil {
+		return errorProxy(r.Writer, v1.Status{
+			Status:  v1.StatusFailure,
+			Message: "query error",
+			Reason:  v1.StatusReason(err.Error()),
+			Code:    400,
+		})
+	}
+	remainCount := total - end
+	if len(items) == 0 && paginate.PageSize != 0 && paginate.Page > 1 {
+		return errorProxy(r.Writer, v1.Status{
+			Status:  v1.StatusFailure,
+			Message: "out of page",
+			Reason:  v1.StatusReason(fmt.Sprintf("request resources out of page: %d", paginate.Page)),
+			Code:    400,
+		})
 	}
 	if strings.Contains(r.Request.Header.Get("accept"), "application/json;as=Table") {
 		return serverPrint(items)
diff --git a/page/page.go b/page/page.go
index 2ada4e2..79d25a1 100644
--- a/page/page.go
+++ b/page/page.go
@@ -22,6 +22,25 @@ type Paginate struct {
 	Search   string `json:"search,omitempty" form:"search"`
 }
 
+// Range returns the bounds of this page in a result of total items.
+// A zero Page or PageSize means no pagination, negative ones are illegal.
+func (p *Paginate) Range(total int64) (start, end int64, err error) {
+	if p.Page < 0 || p.PageSize < 0 {
+		return 0, 0, fmt.Errorf("illegal page %d or page size %d", p.Page, p.PageSize)
+	}
+	if p.Page == 0 || p.PageSize == 0 {
+		return 0, total, nil
+	}
+	if p.Page-1 > total/p.PageSize {
+		return total, total, nil
+	}
+	start = (p.Page - 1) * p.PageSize
+	if p.PageSize >= total-start {
+		return start, total, nil
+	}
+	return start, start + p.PageSize, nil
+}
+
 func (p *Paginate) Match(m map[string]string) (bool, error) {
 	parts := p.SearchParts()
 	return Match(m, parts)
@@ -382,7 +401,10 @@ func MakeupResPaginate(l v1.ListInterface, page Paginate) Paginate {
 		var i int64 = 0
 		remain = &i
 	}
-	page.Total = *remain + (page.Page-1)*page.PageSize + int64(items)
+	page.Total = *remain + int64(items)
+	if page.Page > 0 && page.PageSize > 0 {
+		page.Total += (page.Page - 1) * page.PageSize
+	}
 	return page
 }
 
diff --git a/store/memory/memory.go b/store/memory/memory.go
index 84c3ab8..7beef36 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -306,30 +306,20 @@ func (m *memoryStore) Query(gvr store.GroupVersionResource, query store.Query) s
 		})
 	})
 	l := int64(len(resources))
+	start, end, err := query.Range(l)
+	if err != nil {
+		res.Error = err
+		return res
+	}
 	if l == 0 {
 		return res
 	}
-	resources, err := sortObjs(resources, query.Sort)
+	resources, err = sortObjs(resources, query.Sort)
 	if err != nil {
 		res.Error = err
 		return res
 	}
 	res.Total = l
-	var start, end int64
-	if query.PageSize == 0 {
-		// all resources
-		start = 0
-		end = l
-	} else {
-		start = (query.Page - 1) * query.PageSize
-		end = start + query.PageSize
-		if start >= l {
-			start = l
-		}
-		if end >= l {
-			end = l
-		}
-	}
 	for _, r := range resources[start:end] {
 		res.Items = append(res.Items, r.Obj)
 	}
-- 
2.43.0


From b0edbeeee2f9e21cd14e6da7db359395960f8434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:56 +0000
Subject: [PATCH 10/51] fix: report a malformed sort instead of returning
 unsorted objects

---
 store/memory/memory.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/store/memory/memory.go b/store/memory/memory.go
index 7beef36..ec57530 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -195,9 +195,9 @@ func sortObjs(objs []store.Object, s string) ([]store.Object, error) {
 			typ:     constants.KeyTypeStr,
 		}
 		if strings.Contains(s, " ") {
-			parts := strings.Split(s, " ")
+			parts := strings.Fields(s)
 			if len(parts) > 2 {
-				return objs, nil
+				return objs, fmt.Errorf("error sort format `%s`", s)
 			}
 			if len(parts) == 2 {
 				switch parts[1] {
-- 
2.43.0


From de7cdfee285fde778b4d35419dea5b02f3c079fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 11/51] fix: order objects with equal sort keys the same way in
 every query

---
 store/memory/memory.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/store/memory/memory.go b/store/memory/memory.go
index ec57530..c02bc0c 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -266,7 +266,13 @@ func sortObjs(objs []store.Object, s string) ([]store.Object, error) {
 			}
 			return r
 		}
-		return true
+		// the objects are equal in all keys, or can not be compared: keep the order the same for every query
+		for _, key := range []string{"cluster", "namespace", "name"} {
+			if vi, vj := objs[i].Index[key], objs[j].Index[key]; vi != vj {
+				return vi < vj
+			}
+		}
+		return false
 	})
 	return objs, sortErr
 }
-- 
2.43.0


From 6ebd46242652e9df31cab9e53d7026ae9d160ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:07 +0000
Subject: [PATCH 12/51] fix: evaluate every index expression with a parser of
 its own

---
 store/memory/memory.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/store/memory/memory.go b/store/memory/memory.go
index c02bc0c..5f57391 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -353,9 +353,6 @@ func (m *memoryStore) buildResourceWithIndex(gvr store.GroupVersionResource, clu
 		Obj:   obj,
 	}
 	mobj := utils.Obj2JSONMap(obj)
-	jp := jsonpath.New("parser")
-	jp.AllowMissingKeys(true)
-	gotmpl := template.New("parser").Funcs(funMap)
 	for k, v := range m.indexConf[gvr] {
 		w := bytes.NewBuffer([]byte{})
 		var exec interface {
@@ -364,13 +361,15 @@ func (m *memoryStore) buildResourceWithIndex(gvr store.GroupVersionResource, clu
 		var err error
 		if strings.Contains(v, "{{") {
 			// go template
-			exec, err = gotmpl.Parse(v)
+			exec, err = template.New("parser").Funcs(funMap).Parse(v)
 		} else if !strings.Contains(v, "{") {
 			// raw string
 			s.Index[k] = v
 			continue
 		} else {
 			// json path
+			jp := jsonpath.New("parser")
+			jp.AllowMissingKeys(true)
 			_ = jp.Parse(v)
 			exec = jp
 		}
-- 
2.43.0


From 0df0385cfdd3aa47e8d9ae626b8b20bc870f3932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:12 +0000
Subject: [PATCH 13/51] fix: show the object's own name and namespace in its
 index annotation

---
 store/memory/memory.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/store/memory/memory.go b/store/memory/memory.go
index 5f57391..4eec9e5 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -409,6 +409,10 @@ func (m *memoryStore) buildResourceWithIndex(gvr store.GroupVersionResource, clu
 			anno[constants.DSMClusterAnno] = cluster
 			oo.SetAnnotations(anno)
 		}
+		s.Index["name"] = oo.GetName()
+		if _, ok := s.Index["namespace"]; ok {
+			s.Index["namespace"] = oo.GetNamespace()
+		}
 		anno := oo.GetAnnotations()
 		index, _ := json.Marshal(s.Index)
 		anno[constants.IndexAnno] = string(index) // todo constants
-- 
2.43.0


From 978a8db76f024e9ac5c679e3e34e74604c612488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:55 +0000
Subject: [PATCH 14/51] fix: forward the options of a delete that names no
 cluster

---
 api/proxy.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api/proxy.go b/api/proxy.go
index f884895..2c3c512 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -119,6 +119,8 @@ func parsePaginateAndLabelsAndClean(r *http.Request) (*page.Paginate, *v1.LabelS
 		body := r.Body
 		opts, err := io.ReadAll(body)
 		if err == nil {
+			// the body has been consumed, give it back
+			r.Body = wrapReader(bytes.NewBuffer(opts))
 			options := v1.DeleteOptions{}
 			_ = json.Unmarshal(opts, &options)
 			if len(options.DryRun) > 0 && strings.HasPrefix(options.DryRun[0], clusterPrefix) {
-- 
2.43.0


From 1cda52e51575be1387c8fe1638356eb78db6568a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:02 +0000
Subject: [PATCH 15/51] fix: forward requests of every method

---
 api/proxy.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index 2c3c512..7f43b1c 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -473,8 +473,7 @@ func getRequest(r *ReqContext, cluster string, timeout time.Duration) *rest.Requ
 	case http.MethodPatch:
 		req = c.Patch(types.PatchType(r.Request.Header.Get("Content-Type")))
 	default:
-		log.Errorf("unexpected method: %s", r.Request.Method)
-		return nil
+		req = c.Verb(r.Request.Method)
 	}
 	// for k, v := range r.Request.Header {
 	//	if len(v) > 0 {
-- 
2.43.0


From 64a41a0d5c6afe9032435edaaa27812bf845a219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:09 +0000
Subject: [PATCH 16/51] fix: never list other clusters when the cluster's name
 is not a label value

---
 api/extend/deploy2service.go | 4 ++--
 api/proxy.go                 | 5 +----
 page/page.go                 | 8 ++++++++
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/api/extend/deploy2service.go b/api/extend/deploy2service.go
index 1dada9e..da67366 100644
--- a/api/extend/deploy2service.go
+++ b/api/extend/deploy2service.go
@@ -35,7 +35,7 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 		cluster = common.GetConfig().DefaultCluster
 	}
 	p := page.Paginate{Search: "name=" + dep}
-	_ = p.Clusters([]string{cluster})
+	p.OnlyCluster(cluster)
 	res := r.Store.Query(podGvr, store.Query{
 		Namespace: ns,
 		Paginate:  p,
@@ -54,7 +54,7 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 		}
 	}
 	p = page.Paginate{}
-	_ = p.Clusters([]string{cluster})
+	p.OnlyCluster(cluster)
 	res = r.Store.Query(svcGvr, store.Query{
 		Namespace: ns,
 		Paginate:  p,
diff --git a/api/proxy.go b/api/proxy.go
index 7f43b1c..e009ad3 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -222,10 +222,7 @@ func Proxy(r *ReqContext) interface{} {
 	// If you want to get all clusters' resources,
 	// please call paginate.Clusters() before fetch resources
 	if cs := paginate.GetClusters(); len(cs) == 0 {
-		err = paginate.Clusters([]string{common.GetConfig().DefaultCluster})
-		if err != nil {
-			log.Errorf("set cluster error: %v", err)
-		}
+		paginate.OnlyCluster(common.GetConfig().DefaultCluster)
 	}
 	log.Debugf("got paginate %v", paginate)
 
diff --git a/page/page.go b/page/page.go
index 79d25a1..16c8987 100644
--- a/page/page.go
+++ b/page/page.go
@@ -274,6 +274,14 @@ func (p *Paginate) Clusters(css []string) error {
 	return p.SetSearchSelector(s)
 }
 
+// OnlyCluster restricts the query to one cluster, whose name may be any text, also one that is not a valid
+// label value and therefore can not be part of an advanced condition.
+func (p *Paginate) OnlyCluster(cluster string) {
+	if err := p.Clusters([]string{cluster}); err != nil {
+		p.SetSearchWithParts(append([]string{"cluster=" + quote(cluster)}, p.SearchParts()...))
+	}
+}
+
 func (p *Paginate) GetClusters() []string {
 	if p == nil {
 		return nil
-- 
2.43.0


From 3044601410ee9d553dee18ce2e58f5f25d18ae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:15 +0000
Subject: [PATCH 17/51] fix: use only the pods of the deployment that was asked
 for

---
 api/extend/deploy2service.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/extend/deploy2service.go b/api/extend/deploy2service.go
index da67366..c60afcb 100644
--- a/api/extend/deploy2service.go
+++ b/api/extend/deploy2service.go
@@ -47,7 +47,7 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 	for _, podIf := range res.Items {
 		if pod, ok := podIf.(v12.Object); ok {
 			depName := getDeploymentName(pod)
-			if depName != "" {
+			if depName != "" && depName == dep {
 				labels = pod.GetLabels()
 				break
 			}
-- 
2.43.0


From 0d9887d2173f1d8cae14eb0bc8f64f6057f3a348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:51 +0000
Subject: [PATCH 18/51] fix: answer for deployments of any name and without
 cached pods or services

---
 api/extend/deploy2service.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/api/extend/deploy2service.go b/api/extend/deploy2service.go
index c60afcb..280a9d5 100644
--- a/api/extend/deploy2service.go
+++ b/api/extend/deploy2service.go
@@ -34,7 +34,18 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 	if cluster == "" {
 		cluster = common.GetConfig().DefaultCluster
 	}
-	p := page.Paginate{Search: "name=" + dep}
+	for _, gvr := range []store.GroupVersionResource{podGvr, svcGvr} {
+		if !r.Store.IsStoreGVR(gvr) {
+			return v12.Status{
+				Status:  v12.StatusFailure,
+				Message: gvr.Resource + " are not cached",
+				Reason:  v12.StatusReasonNotFound,
+				Code:    404,
+			}
+		}
+	}
+	p := page.Paginate{}
+	p.SetSearchWithParts([]string{"name=" + dep})
 	p.OnlyCluster(cluster)
 	res := r.Store.Query(podGvr, store.Query{
 		Namespace: ns,
-- 
2.43.0


From c29b1183b1f0e5b7322a399c32b6e5a60fb1d34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:57 +0000
Subject: [PATCH 19/51] fix: count wiped objects out of the resource gauge

---
 store/memory/memory.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/store/memory/memory.go b/store/memory/memory.go
index 4eec9e5..0cb74a6 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -136,9 +136,10 @@ func (m *memoryStore) Clean(gvr store.GroupVersionResource, cluster string) erro
 	if !m.resourceMap.Get(gvr).Exists(clusterName(cluster)) {
 		return fmt.Errorf("cluster %s not exists", cluster)
 	}
-	for _, c := range m.resourceMap.Get(gvr).Get(clusterName(cluster)).Values() {
+	m.resourceMap.Get(gvr).Get(clusterName(cluster)).ForEach(func(ns namespaceName, c *syncResourceStore[string, store.Object]) {
 		c.Clean()
-	}
+		prommonitor.Resources.WithLabelValues(cluster, gvr.Group, gvr.Version, gvr.Resource, string(ns)).Set(0)
+	})
 	return nil
 }
 
-- 
2.43.0


From ee31cfd087922ce63f59df26b36aff0a89016bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:03 +0000
Subject: [PATCH 20/51] fix: derive the kind from the list kind by its suffix

---
 watcher/watcher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index 5a205ab..d4f820d 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -115,7 +115,7 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 	gvk := schema.GroupVersionKind{
 		Group:   r.Group,
 		Version: r.Version,
-		Kind:    strings.TrimRight(common.GetGVRKind(r.Group, r.Version, r.Resource), "List"),
+		Kind:    strings.TrimSuffix(common.GetGVRKind(r.Group, r.Version, r.Resource), "List"),
 	}
 	gv := schema.GroupVersion{
 		Group:   r.Group,
-- 
2.43.0


From 60a0cd1c9412efb3f69df8a590d50fe991e9ce41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:10 +0000
Subject: [PATCH 21/51] fix: keep every number of a custom resource as it is

---
 watcher/watcher.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index d4f820d..fdb28a8 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -1,6 +1,7 @@
 package watcher
 
 import (
+	"bytes"
 	"context"
 	"encoding/json"
 	"fmt"
@@ -49,9 +50,12 @@ type ObjType struct {
 	Data          map[string]interface{}
 }
 
-func (o *ObjType) UnmarshalJSON(bytes []byte) error {
+func (o *ObjType) UnmarshalJSON(bs []byte) error {
 	m := map[string]interface{}{}
-	_ = json.Unmarshal(bytes, &m)
+	// numbers are kept as they are written, a float64 can not hold every integer.
+	decoder := json.NewDecoder(bytes.NewReader(bs))
+	decoder.UseNumber()
+	_ = decoder.Decode(&m)
 	if v, ok := m["apiVersion"]; ok {
 		o.APIVersion = v.(string)
 	}
-- 
2.43.0


From 9069707284b9bb228b56460e774229b09f935f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 22/51] fix: the fake server returns the whole object it wrote

---
 pkg/client/fake/fake_ckube.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/client/fake/fake_ckube.go b/pkg/client/fake/fake_ckube.go
index 21daeb3..6431e44 100644
--- a/pkg/client/fake/fake_ckube.go
+++ b/pkg/client/fake/fake_ckube.go
@@ -475,5 +475,5 @@ func (s *fakeCkubeServer) proxy(writer http.ResponseWriter, r *http.Request) {
 		}
 	}
 	s.watchChanLock.RUnlock()
-	jsonResp(writer, 200, obj)
+	jsonResp(writer, 200, &obj)
 }
-- 
2.43.0


From d720cfb64b84ee32dd7b970473dccb52174b9a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 23/51] fix: set the timeout of a forwarded request for that
 request only

---
 api/proxy.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index e009ad3..c2b9a4c 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -455,8 +455,11 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 }
 
 func getRequest(r *ReqContext, cluster string, timeout time.Duration) *rest.Request {
-	c := r.ClusterClients[cluster].Discovery().RESTClient().(*rest.RESTClient)
-	c.Client.Timeout = timeout
+	// the client is shared with other requests, which have other timeouts: set it on a copy
+	c := *r.ClusterClients[cluster].Discovery().RESTClient().(*rest.RESTClient)
+	httpClient := *c.Client
+	httpClient.Timeout = timeout
+	c.Client = &httpClient
 	var req *rest.Request
 	switch r.Request.Method {
 	case http.MethodGet:
-- 
2.43.0


From e27ee9d4e0457b7872edbb863db4eeee566eed8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 24/51] fix: replace store, clients and configuration safely
 while requests are served

---
 common/config.go | 11 +++++++----
 server/server.go | 11 +++++++++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/common/config.go b/common/config.go
index a06eefc..6a3cbcb 100644
--- a/common/config.go
+++ b/common/config.go
@@ -1,5 +1,7 @@
 package common
 
+import "sync/atomic"
+
 type Proxy struct {
 	Group    string            `json:"group"`
 	Version  string            `json:"version"`
@@ -19,21 +21,22 @@ type Config struct {
 	Token          string `json:"token"`
 }
 
-var cfg *Config
+// cfg is replaced as a whole while requests read it.
+var cfg atomic.Pointer[Config]
 
 func InitConfig(c *Config) {
 	if c.DefaultCluster == "" {
 		c.DefaultCluster = "default"
 	}
-	cfg = c
+	cfg.Store(c)
 }
 
 func GetConfig() Config {
-	return *cfg
+	return *cfg.Load()
 }
 
 func GetGVRKind(g, v, r string) string {
-	for _, p := range cfg.Proxies {
+	for _, p := range cfg.Load().Proxies {
 		if p.Group == g && p.Version == v && p.Resource == r {
 			return p.ListKind
 		}
diff --git a/server/server.go b/server/server.go
index 2f87510..5d375a3 100644
--- a/server/server.go
+++ b/server/server.go
@@ -7,6 +7,7 @@ import (
 	"net/http"
 	"runtime/debug"
 	"strings"
+	"sync"
 	"time"
 
 	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"
@@ -33,6 +34,7 @@ type muxServer struct {
 	ListenAddr     string
 	router         *mux.Router
 	server         *http.Server
+	lock           sync.RWMutex // guards store and clusterClients
 	store          store.Store
 	clusterClients map[string]kubernetes.Interface
 }
@@ -117,6 +119,8 @@ func (m *muxServer) Stop() error {
 }
 
 func (m *muxServer) ResetStore(s store.Store, clis map[string]kubernetes.Interface) {
+	m.lock.Lock()
+	defer m.lock.Unlock()
 	m.store = s
 	m.clusterClients = clis
 }
@@ -162,9 +166,12 @@ func (m *muxServer) registerRoutes(router *mux.Router, handleRoutes []route) {
 						return
 					}
 				}
+				m.lock.RLock()
+				currentStore, currentClients := m.store, m.clusterClients
+				m.lock.RUnlock()
 				var res = route.handler(&api.ReqContext{
-					ClusterClients: m.clusterClients,
-					Store:          m.store,
+					ClusterClients: currentClients,
+					Store:          currentStore,
 					Request:        r,
 					Writer:         writer,
 				})
-- 
2.43.0


From b64a6dc554c9b13d74df62b138c389445459abe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:52 +0000
Subject: [PATCH 25/51] fix: register the watched kinds before any stream
 decodes

---
 watcher/watcher.go | 45 +++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index fdb28a8..34fb58f 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -6,12 +6,12 @@ import (
 	"encoding/json"
 	"fmt"
 	"strings"
-	"sync"
 	"time"
 
 	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"
 	"k8s.io/apimachinery/pkg/runtime"
 	"k8s.io/apimachinery/pkg/runtime/schema"
+	"k8s.io/apimachinery/pkg/runtime/serializer"
 	"k8s.io/apimachinery/pkg/watch"
 	"k8s.io/client-go/kubernetes/scheme"
 	"k8s.io/client-go/rest"
@@ -26,7 +26,6 @@ type watcher struct {
 	resources      []store.GroupVersionResource
 	store          store.Store
 	stop           chan struct{}
-	lock           sync.Mutex
 	Watcher
 }
 
@@ -115,29 +114,35 @@ func (o ObjType) DeepCopyObject() runtime.Object {
 	}
 }
 
-func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
-	gvk := schema.GroupVersionKind{
-		Group:   r.Group,
-		Version: r.Version,
-		Kind:    strings.TrimSuffix(common.GetGVRKind(r.Group, r.Version, r.Resource), "List"),
-	}
-	gv := schema.GroupVersion{
-		Group:   r.Group,
-		Version: r.Version,
+// newCodecs returns the codecs for all watched resources. They have a scheme of their own, which is complete
+// before the first stream is opened, because a scheme must not be changed while it is used for decoding.
+func (w *watcher) newCodecs() (serializer.CodecFactory, error) {
+	s := runtime.NewScheme()
+	if err := scheme.AddToScheme(s); err != nil {
+		return serializer.CodecFactory{}, err
 	}
-	w.lock.Lock()
-	if _, ok := scheme.Scheme.KnownTypes(gv)[gvk.Kind]; !ok {
-		scheme.Scheme.AddKnownTypeWithName(gvk, &ObjType{})
+	v1.AddToGroupVersion(s, schema.GroupVersion{Version: "v1"})
+	for _, r := range w.resources {
+		gv := schema.GroupVersion{
+			Group:   r.Group,
+			Version: r.Version,
+		}
+		gvk := gv.WithKind(strings.TrimSuffix(common.GetGVRKind(r.Group, r.Version, r.Resource), "List"))
+		if _, ok := s.KnownTypes(gv)[gvk.Kind]; !ok {
+			s.AddKnownTypeWithName(gvk, &ObjType{})
+		}
 	}
-	w.lock.Unlock()
+	return serializer.NewCodecFactory(s), nil
+}
+
+func (w *watcher) watchResources(r store.GroupVersionResource, cluster string, codecs serializer.CodecFactory) {
 	config := w.clusterConfigs[cluster]
 
 	config.GroupVersion = &schema.GroupVersion{
 		Group:   r.Group,
 		Version: r.Version,
 	}
-	scheme.Codecs.UniversalDeserializer()
-	config.NegotiatedSerializer = scheme.Codecs.WithoutConversion()
+	config.NegotiatedSerializer = codecs.WithoutConversion()
 	rt, _ := rest.RESTClientFor(&config)
 	for {
 		select {
@@ -197,9 +202,13 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 }
 
 func (w *watcher) Start() error {
+	codecs, err := w.newCodecs()
+	if err != nil {
+		return err
+	}
 	for _, r := range w.resources {
 		for c := range w.clusterConfigs {
-			go w.watchResources(r, c)
+			go w.watchResources(r, c, codecs)
 		}
 	}
 	return nil
-- 
2.43.0


From bd07d48a326961399e6bb857865f44737e3d1662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 26/51] fix: a stopped watcher does not go on with pending
 events

---
 watcher/watcher.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index 34fb58f..bb3d5a1 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -167,6 +167,14 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string, c
 			for {
 				select {
 				case rr, open := <-ww.ResultChan():
+					select {
+					case <-w.stop:
+						// both were ready, and a stopped watcher must not change the store any more
+						ww.Stop()
+						cancel()
+						return
+					default:
+					}
 					if first {
 						// only clean resource at the first time
 						// to avoid the resources gone after server break.
-- 
2.43.0


From ef23c68d163f23159396035e8fb12e04b1dacdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:58 +0000
Subject: [PATCH 27/51] fix: the plugin replaces the user's selector, wherever
 it is

---
 cmd/ckube-plugin/main.go | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/cmd/ckube-plugin/main.go b/cmd/ckube-plugin/main.go
index afe35a8..44ad856 100644
--- a/cmd/ckube-plugin/main.go
+++ b/cmd/ckube-plugin/main.go
@@ -22,7 +22,8 @@ func main() {
 	clusters := ""
 	args := []string{}
 	typ := notSupport
-	selectorPos := 0
+	selectorPos := -1    // position of the user's selector in args
+	selectorPrefix := "" // what precedes the selector in that argument, such as "--selector="
 	for i := 1; i < len(os.Args); i++ {
 		a := os.Args[i]
 		switch a {
@@ -42,10 +43,20 @@ func main() {
 		} else {
 			args = append(args, a)
 		}
-		if a == "-l" || a == "--selector" {
+		switch {
+		case a == "-l" || a == "--selector":
 			if i+1 < len(os.Args) {
-				selectorPos = i + 1
+				// the value is an argument like any other, even if it looks like an option
+				i++
+				args = append(args, os.Args[i])
+				selectorPos, selectorPrefix = len(args)-1, ""
 			}
+		case strings.HasPrefix(a, "--selector="):
+			selectorPos, selectorPrefix = len(args)-1, "--selector="
+		case strings.HasPrefix(a, "-l="):
+			selectorPos, selectorPrefix = len(args)-1, "-l="
+		case strings.HasPrefix(a, "-l"):
+			selectorPos, selectorPrefix = len(args)-1, "-l"
 		}
 	}
 	if typ == notSupport {
@@ -59,18 +70,25 @@ func main() {
 		switch typ {
 		case get:
 			p := page.Paginate{}
-			_ = p.Clusters(cs)
+			if err := p.Clusters(cs); err != nil {
+				log.Errorf("clusters %v error: %v", clusters, err)
+				os.Exit(2)
+			}
 			selector := ""
-			if selectorPos != 0 {
-				selector = args[selectorPos]
+			if selectorPos >= 0 {
+				selector = args[selectorPos][len(selectorPrefix):]
 			}
-			o, _ := page.QueryListOptions(metav1.ListOptions{
+			o, err := page.QueryListOptions(metav1.ListOptions{
 				LabelSelector: selector,
 			}, p)
-			if selectorPos == 0 {
+			if err != nil {
+				log.Errorf("selector %v error: %v", selector, err)
+				os.Exit(2)
+			}
+			if selectorPos < 0 {
 				args = append(args, "-l", o.LabelSelector)
 			} else {
-				args[selectorPos] = o.LabelSelector
+				args[selectorPos] = selectorPrefix + o.LabelSelector
 			}
 		case create, update:
 			if len(cs) > 1 {
-- 
2.43.0


From 326cacd67e88fe7b0f000d3ddfa34803272884d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:21 +0000
Subject: [PATCH 28/51] fix: do not print a query without the clusters that
 were asked for

---
 cmd/ckubecli/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/ckubecli/main.go b/cmd/ckubecli/main.go
index 721b787..f8ef991 100644
--- a/cmd/ckubecli/main.go
+++ b/cmd/ckubecli/main.go
@@ -31,7 +31,10 @@ func main() {
 	}
 	if clusters != "" {
 		ccs := strings.Split(clusters, ",")
-		_ = p.Clusters(ccs)
+		if err := p.Clusters(ccs); err != nil {
+			fmt.Fprintf(os.Stderr, "clusters error: %v", err)
+			os.Exit(1)
+		}
 	}
 	o, err := page.QueryListOptions(v1.ListOptions{}, p)
 	if err != nil {
-- 
2.43.0


From 1fe6e6c016fa4390272e7244d3b7e33c2d83dac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 29/51] fix: follow a watched file that is moved away and
 created again

---
 utils/fs_watcher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/fs_watcher.go b/utils/fs_watcher.go
index 4c16ab3..e9b8b28 100644
--- a/utils/fs_watcher.go
+++ b/utils/fs_watcher.go
@@ -76,7 +76,7 @@ func (w *fixedFileWatcher) Start() error {
 				switch e.Op {
 				case fsnotify.Write:
 					// do reload
-				case fsnotify.Remove:
+				case fsnotify.Remove, fsnotify.Rename:
 					// 在 Kubernetes 里面，当挂载 ConfigMap 的时候，如果发生文件重新，Kubernetes 会首先删除这个文件
 					// 再重新创建，所以我们应该在删除之后重新建立 watcher。
 					_ = w.fswatcher.Remove(e.Name)
-- 
2.43.0


From 230a7486222095700d5490d4bd77e9fe6d4485f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 30/51] fix: a quoted search value is compared with the whole
 index value

---
 page/page.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/page/page.go b/page/page.go
index 16c8987..59f10ec 100644
--- a/page/page.go
+++ b/page/page.go
@@ -84,12 +84,19 @@ func parseValue(v string) (string, bool) {
 	return v, false
 }
 
-// quote puts a value into double quotes as it is, so that a search for the quoted text is a search for
-// the whole value, and a search for any other text finds it whatever characters the value is made of.
+// quote puts a value into double quotes as it is, whatever characters it is made of.
 func quote(v string) string {
 	return `"` + v + `"`
 }
 
+// contains says whether an index value contains the searched text, or equals it if that is in double quotes.
+func contains(v, search string) bool {
+	if len(search) > 1 && strings.HasPrefix(search, `"`) && strings.HasSuffix(search, `"`) {
+		return quote(v) == search
+	}
+	return strings.Contains(quote(v), search)
+}
+
 func Match(m map[string]string, searchParts []string) (bool, error) {
 	if len(searchParts) != 1 {
 		matched := 0
@@ -140,7 +147,7 @@ func Match(m map[string]string, searchParts []string) (bool, error) {
 		if v, ok := m[key]; !ok {
 			return false, fmt.Errorf("unexpected search key: %s", key)
 		} else {
-			vv := strings.Contains(quote(v), value)
+			vv := contains(v, value)
 			if reverse {
 				return !vv, nil
 			}
@@ -149,7 +156,7 @@ func Match(m map[string]string, searchParts []string) (bool, error) {
 	}
 	// fuzzy search
 	for _, v := range m {
-		vv := strings.Contains(quote(v), value)
+		vv := contains(v, value)
 		if reverse {
 			if vv {
 				return false, nil
-- 
2.43.0


From 315b2ff49b18ccd03f50dcd1eebdcee40eebc6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 31/51] fix: an empty value given twice to a selector or scope
 keeps the search valid

---
 page/page.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/page/page.go b/page/page.go
index 59f10ec..3fe66cc 100644
--- a/page/page.go
+++ b/page/page.go
@@ -10,6 +10,7 @@ import (
 
 	"github.com/DaoCloud/ckube/common/constants"
 	"github.com/DaoCloud/ckube/kube"
+	"github.com/samber/lo"
 	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"
 	"k8s.io/apimachinery/pkg/labels"
 )
@@ -199,6 +200,13 @@ func (p *Paginate) SearchSelector() (*v1.LabelSelector, error) {
 
 func (p *Paginate) SetSearchSelector(selector *v1.LabelSelector) error {
 	parts := p.SearchParts()
+	selector = selector.DeepCopy()
+	if selector != nil {
+		// a value given twice is the same set, but an empty one can not be parsed again.
+		for i, r := range selector.MatchExpressions {
+			selector.MatchExpressions[i].Values = lo.Uniq(r.Values)
+		}
+	}
 	sstr := v1.FormatLabelSelector(selector)
 	if sstr == "<error>" {
 		return fmt.Errorf("parse selector %v error", selector)
-- 
2.43.0


From 3961043e7ff1c8915e092326b64debc04260213f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:29 +0000
Subject: [PATCH 32/51] fix: return the API server's own error status

---
 api/proxy.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/api/proxy.go b/api/proxy.go
index c2b9a4c..c8e5a34 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -507,6 +507,12 @@ func proxyPass(r *ReqContext, cluster string) interface{} {
 	res, err := getRequest(r, cluster, timeout).RequestURI(u).DoRaw(ctx)
 	if err != nil {
 		if es, ok := err.(*errors.StatusError); ok {
+			// this error is derived from the status code only, the API server's own status is in the body
+			status := v1.Status{}
+			if json.Unmarshal(res, &status) == nil && status.Kind == "Status" && status.Status == v1.StatusFailure {
+				status.Code = es.ErrStatus.Code
+				return errorProxy(r.Writer, status)
+			}
 			return errorProxy(r.Writer, es.ErrStatus)
 		}
 		return err
-- 
2.43.0


From c2af15c304c615f0b33be2962abbaba5e6108f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:40 +0000
Subject: [PATCH 33/51] fix: recognise every way of asking for a watch

---
 api/proxy.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/api/proxy.go b/api/proxy.go
index c8e5a34..4727982 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -398,8 +398,9 @@ func serverPrint(items []interface{}) interface{} {
 func isWatchRequest(r *http.Request) bool {
 	query := r.URL.Query()
 	if w, ok := query["watch"]; ok {
+		// API servers take every value but these for true, also an empty one.
 		ws := strings.ToLower(w[0])
-		if ws == "1" || ws == "y" || ws == "true" {
+		if ws != "0" && ws != "false" {
 			return true
 		}
 	}
-- 
2.43.0


From 9405c14c297f5381d1f919ba9969c594346eaf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:47 +0000
Subject: [PATCH 34/51] fix: find the pods of a deployment whose name is longer
 than a pod's generated name

---
 api/extend/deploy2service.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/extend/deploy2service.go b/api/extend/deploy2service.go
index 280a9d5..e67100b 100644
--- a/api/extend/deploy2service.go
+++ b/api/extend/deploy2service.go
@@ -44,8 +44,8 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 			}
 		}
 	}
+	// the name of a pod is no help: a long deployment name is cut there.
 	p := page.Paginate{}
-	p.SetSearchWithParts([]string{"name=" + dep})
 	p.OnlyCluster(cluster)
 	res := r.Store.Query(podGvr, store.Query{
 		Namespace: ns,
-- 
2.43.0


From 5ca43d535b13f7623851fb943772e08ac43c287e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:37 +0000
Subject: [PATCH 35/51] fix: refuse a configuration with incomplete proxies
 instead of dying of it

---
 cmd/cacheproxy/main.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmd/cacheproxy/main.go b/cmd/cacheproxy/main.go
index 13d4ff1..c85e08e 100644
--- a/cmd/cacheproxy/main.go
+++ b/cmd/cacheproxy/main.go
@@ -78,6 +78,13 @@ func loadFromConfig(kubeConfig, configFile string) (map[string]kubernetes.Interf
 			return nil, nil, nil, err
 		}
 	}
+	for _, proxy := range cfg.Proxies {
+		if proxy.Version == "" || proxy.Resource == "" {
+			err := fmt.Errorf("proxy %+v needs a version and a resource", proxy)
+			log.Errorf("config file load error: %v", err)
+			return nil, nil, nil, err
+		}
+	}
 	clusterConfigs := map[string]rest.Config{}
 	clusterClients := map[string]kubernetes.Interface{}
 	kubecfg := kubeapi.Config{}
-- 
2.43.0


From 54d40731fb3d62d987e727d430dc1c9b6b38922e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:42 +0000
Subject: [PATCH 36/51] fix: watch the configuration file when there is no kube
 config file

---
 cmd/cacheproxy/main.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/cacheproxy/main.go b/cmd/cacheproxy/main.go
index c85e08e..561c9fa 100644
--- a/cmd/cacheproxy/main.go
+++ b/cmd/cacheproxy/main.go
@@ -189,10 +189,11 @@ func main() {
 	}
 	ser := server.NewMuxServer(listen, clis, s)
 	files := []string{configFile}
-	if kubeConfig == "" {
-		files = append(files, defaultConfig)
-	} else {
+	if kubeConfig != "" {
 		files = append(files, kubeConfig)
+	} else if _, err := os.Stat(defaultConfig); err == nil {
+		// there is none in a pod, and a missing file can not be watched.
+		files = append(files, defaultConfig)
 	}
 	fixedWatcher, err := utils.NewFixedFileWatcher(files)
 	if err != nil {
-- 
2.43.0


From 2e171c97ec8befdac5874b7dbcbacfa05074b752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:43 +0000
Subject: [PATCH 37/51] fix: the plugin leaves what follows -- alone

---
 cmd/ckube-plugin/main.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/ckube-plugin/main.go b/cmd/ckube-plugin/main.go
index 44ad856..5692d58 100644
--- a/cmd/ckube-plugin/main.go
+++ b/cmd/ckube-plugin/main.go
@@ -21,11 +21,17 @@ const (
 func main() {
 	clusters := ""
 	args := []string{}
+	rest := []string{}
 	typ := notSupport
 	selectorPos := -1    // position of the user's selector in args
 	selectorPrefix := "" // what precedes the selector in that argument, such as "--selector="
 	for i := 1; i < len(os.Args); i++ {
 		a := os.Args[i]
+		if a == "--" {
+			// the rest are no options, such as the command of a new job
+			rest = os.Args[i:]
+			break
+		}
 		switch a {
 		case "get":
 			typ = get
@@ -101,7 +107,7 @@ func main() {
 			args = append(args, "--field-manager", o.FieldManager)
 		}
 	}
-	c := exec.Command("kubectl", args...)
+	c := exec.Command("kubectl", append(args, rest...)...)
 	// fmt.Printf("args %v\n", args)
 	c.Stdin = os.Stdin
 	c.Stdout = os.Stdout
-- 
2.43.0


From 7f92d1d2477a8cffb283f252dfa503be50ccea83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:48 +0000
Subject: [PATCH 38/51] fix: the plugin's subcommand is not changed by a name

---
 cmd/ckube-plugin/main.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/cmd/ckube-plugin/main.go b/cmd/ckube-plugin/main.go
index 5692d58..4b454d4 100644
--- a/cmd/ckube-plugin/main.go
+++ b/cmd/ckube-plugin/main.go
@@ -32,13 +32,16 @@ func main() {
 			rest = os.Args[i:]
 			break
 		}
-		switch a {
-		case "get":
-			typ = get
-		case "create":
-			typ = create
-			// case "delete":
-			//	typ = del
+		if typ == notSupport {
+			// the first one is the subcommand, later ones are names
+			switch a {
+			case "get":
+				typ = get
+			case "create":
+				typ = create
+				// case "delete":
+				//	typ = del
+			}
 		}
 		if a == "--clusters" {
 			if i+1 < len(os.Args) {
-- 
2.43.0


From 26c628980c98f68fe66a5d29db952b1eeeb95740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:52 +0000
Subject: [PATCH 39/51] fix: the plugin ends with the exit status of kubectl

---
 cmd/ckube-plugin/main.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/ckube-plugin/main.go b/cmd/ckube-plugin/main.go
index 4b454d4..1d96723 100644
--- a/cmd/ckube-plugin/main.go
+++ b/cmd/ckube-plugin/main.go
@@ -115,5 +115,11 @@ func main() {
 	c.Stdin = os.Stdin
 	c.Stdout = os.Stdout
 	c.Stderr = os.Stderr
-	_ = c.Run()
+	if err := c.Run(); err != nil {
+		if c.ProcessState != nil && c.ProcessState.ExitCode() > 0 {
+			os.Exit(c.ProcessState.ExitCode())
+		}
+		log.Errorf("run kubectl error: %v", err)
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From 00f40124a95ef6b9abae7d9914e435f817d151bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 40/51] fix: a value that is not a number is an error in a
 numeric sort, also if it is written nan

---
 store/memory/memory.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/store/memory/memory.go b/store/memory/memory.go
index 0cb74a6..6d5dd09 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"sort"
 	"strconv"
 	"strings"
@@ -244,12 +245,12 @@ func sortObjs(objs []store.Object, s string) ([]store.Object, error) {
 			if s.typ == constants.KeyTypeInt {
 				keyErr := fmt.Errorf("value of `%s` can not convert to number", s.key)
 				vi, err := strconv.ParseFloat(vis, 64)
-				if err != nil {
+				if err != nil || math.IsNaN(vi) {
 					sortErr = keyErr
 					break
 				}
 				vj, err := strconv.ParseFloat(vjs, 64)
-				if err != nil {
+				if err != nil || math.IsNaN(vj) {
 					sortErr = keyErr
 					break
 				}
-- 
2.43.0


From 543d1e5d8c17b779c4a619e5975c35f667712956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:00 +0000
Subject: [PATCH 41/51] fix: a service whose selector is an empty object
 selects nothing

---
 api/extend/deploy2service.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/extend/deploy2service.go b/api/extend/deploy2service.go
index e67100b..a8f1305 100644
--- a/api/extend/deploy2service.go
+++ b/api/extend/deploy2service.go
@@ -81,7 +81,7 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 		} else {
 			svc = svcIf.(*v1.Service)
 		}
-		if svc.Spec.Selector != nil && utils.IsSubsetOf(svc.Spec.Selector, labels) {
+		if len(svc.Spec.Selector) != 0 && utils.IsSubsetOf(svc.Spec.Selector, labels) {
 			services = append(services, svc)
 		}
 	}
-- 
2.43.0


From b0337b4e7fd9f83c56b71c5a60d6621d9d63ff80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:10 +0000
Subject: [PATCH 42/51] fix: a proxied watch is answered when it is accepted,
 not with its first event

---
 api/proxy.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api/proxy.go b/api/proxy.go
index 4727982..820503e 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -434,6 +434,8 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 	r.Writer.Header().Set("Content-Type", "application/json")
 	r.Writer.Header().Set("Transfer-Encoding", "chunked")
 	r.Writer.Header().Set("Connection", "keep-alive")
+	// the watch is established, and it may take long until its first event
+	r.Writer.WriteHeader(http.StatusOK)
 	buf := bytes.NewBuffer([]byte{})
 	for {
 		t := make([]byte, 1)
-- 
2.43.0


From 7dd331cffec756f13ec0806e29f0ed455e5d1a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:18 +0000
Subject: [PATCH 43/51] fix: a proxied watch ends at the API server when its
 client is gone

---
 api/proxy.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/api/proxy.go b/api/proxy.go
index 820503e..0a88fe4 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -422,10 +422,14 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 	u := r.Request.URL.String()
 	log.Debugf("proxyPass url: %s", u)
 	timeout := 30 * time.Minute
-	ctx, cancel := context.WithTimeout(context.Background(), timeout)
+	// the stream must not stay open when the client is gone
+	ctx, cancel := context.WithTimeout(r.Request.Context(), timeout)
 	defer cancel()
 	reader, err := getRequest(r, cluster, timeout).RequestURI(u).Stream(ctx)
 	if err != nil {
+		if r.Request.Context().Err() != nil {
+			return nil
+		}
 		if es, ok := err.(*errors.StatusError); ok {
 			return errorProxy(r.Writer, es.ErrStatus)
 		}
-- 
2.43.0


From d8239944049cd99d95ef73870e998d0d1b7f74e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:15 +0000
Subject: [PATCH 44/51] fix: a watch without objects leaves deleted ones
 cached, and an unanswered one drops all of them

Cached objects are dropped when a watch is established, not at its first event: there is none if nothing is left.
A connection that ends in EOF or a timeout before it is answered is an empty watch without an error, and is not established.
---
 watcher/watcher.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index bb3d5a1..df612e4 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -157,12 +157,21 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string, c
 		} else {
 			url = fmt.Sprintf("/apis/%s/%s/%s?watch=true", r.Group, r.Version, r.Resource)
 		}
-		first := true
 		ww, err := rt.Get().RequestURI(url).Timeout(time.Hour).Watch(ctx)
 		if err != nil {
 			log.Errorf("cluster(%s): create watcher for %s error: %v", cluster, url, err)
 			time.Sleep(time.Second * 15)
 		} else {
+			if _, established := ww.(*watch.StreamWatcher); established {
+				// The new stream describes everything there is, which may be nothing.
+				// A connection that ended before it was answered is an empty watch, not an error, and the resources
+				// must not be gone after server break.
+				select {
+				case <-w.stop:
+				default:
+					_ = w.store.Clean(r, cluster)
+				}
+			}
 		resultChan:
 			for {
 				select {
@@ -175,12 +184,6 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string, c
 						return
 					default:
 					}
-					if first {
-						// only clean resource at the first time
-						// to avoid the resources gone after server break.
-						_ = w.store.Clean(r, cluster)
-						first = false
-					}
 					if open {
 						switch rr.Type {
 						case watch.Added:
-- 
2.43.0


From 0aa662c862c3cd3a2e4ff07c8e9f6f232e3901c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:21 +0000
Subject: [PATCH 45/51] fix: the fake server's watch paths panic because the
 logging wrapper can not be flushed

---
 server/server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/server.go b/server/server.go
index 5d375a3..1700e8a 100644
--- a/server/server.go
+++ b/server/server.go
@@ -61,6 +61,11 @@ func (w *statusWriter) Write(b []byte) (int, error) {
 	return n, err
 }
 
+// Flush lets handlers which stream their answers flush it, as they can without this wrapper.
+func (w *statusWriter) Flush() {
+	w.ResponseWriter.(http.Flusher).Flush()
+}
+
 func loggingMiddleware(next http.Handler) http.Handler {
 	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
 		st := time.Now()
-- 
2.43.0


From 8d9c6c0fc0821d2354733ea5202714c6a2b07804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:26 +0000
Subject: [PATCH 46/51] fix: a reload may reset the counts of resources that
 the new watcher has already reported

---
 cmd/cacheproxy/main.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/cacheproxy/main.go b/cmd/cacheproxy/main.go
index 561c9fa..3a5478c 100644
--- a/cmd/cacheproxy/main.go
+++ b/cmd/cacheproxy/main.go
@@ -164,7 +164,6 @@ func loadFromConfig(kubeConfig, configFile string) (map[string]kubernetes.Interf
 	}
 	m := memory.NewMemoryStore(indexConf)
 	w := watcher.NewWatcher(clusterConfigs, storeGVRConfig, m)
-	_ = w.Start()
 	return clusterClients, w, m, nil
 }
 
@@ -187,6 +186,7 @@ func main() {
 		log.Errorf("load from config file error: %v", err)
 		os.Exit(1)
 	}
+	_ = w.Start()
 	ser := server.NewMuxServer(listen, clis, s)
 	files := []string{configFile}
 	if kubeConfig != "" {
@@ -219,9 +219,11 @@ func main() {
 					log.Errorf("watcher: reload config error: %v", err)
 					continue
 				}
-				prommonitor.Resources.Reset()
+				// the new watcher must not count resources before the old counts are gone
 				_ = w.Stop()
+				prommonitor.Resources.Reset()
 				w = rw
+				_ = w.Start()
 				ser.ResetStore(rs, clis) // reset store
 				prommonitor.ConfigReload.WithLabelValues("success").Inc()
 				log.Infof("auto reloaded config successfully")
-- 
2.43.0


From ca7071e84ceebe3d01ad8b81f50b7bc133f2c7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:40 +0000
Subject: [PATCH 47/51] fix: watches of the fake server lose events

A watch has its own buffer, ends when it is too far behind or its client is gone, and changes are reported in the order in
which they take effect.
---
 pkg/client/fake/fake_ckube.go | 48 ++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/pkg/client/fake/fake_ckube.go b/pkg/client/fake/fake_ckube.go
index 6431e44..09e18f5 100644
--- a/pkg/client/fake/fake_ckube.go
+++ b/pkg/client/fake/fake_ckube.go
@@ -32,10 +32,14 @@ type fakeCkubeServer struct {
 	ser           server.Server
 	kubeConfig    *rest.Config
 	eventChan     chan Event
-	watchChanMap  map[string]chan Event
-	watchChanLock sync.RWMutex
+	changeLock    sync.Mutex // held while a change takes effect and is reported
+	watchChans    map[chan Event]struct{}
+	watchChanLock sync.Mutex
 }
 
+// watchBufferSize is how many events a watch may be behind, it ends if there are more.
+const watchBufferSize = 1000
+
 func NewFakeCKubeServer(listenAddr string, config string) (CkubeServer, error) {
 	cfg := common.Config{}
 	err := json.Unmarshal([]byte(config), &cfg)
@@ -66,7 +70,7 @@ func NewFakeCKubeServer(listenAddr string, config string) (CkubeServer, error) {
 		kubeConfig: &rest.Config{
 			Host: addr,
 		},
-		watchChanMap: make(map[string]chan Event),
+		watchChans: make(map[chan Event]struct{}),
 	}
 	ser := server.NewMuxServer(listenAddr, nil, m, s.registerFakeRoute)
 	s.ser = ser
@@ -103,6 +107,8 @@ func (s *fakeCkubeServer) Clean() {
 		}] = proxy.Index
 	}
 	m := memory.NewMemoryStore(indexConf)
+	s.changeLock.Lock()
+	defer s.changeLock.Unlock()
 	s.ser.ResetStore(m, nil)
 	s.store = m
 }
@@ -315,27 +321,30 @@ func (s *fakeCkubeServer) watch(writer http.ResponseWriter, r *http.Request) {
 		}
 	}
 
+	wc := make(chan Event, watchBufferSize)
 	s.watchChanLock.Lock()
-	s.watchChanMap[r.RemoteAddr] = make(chan Event)
+	s.watchChans[wc] = struct{}{}
 	s.watchChanLock.Unlock()
-	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Minute)
+	defer func() {
+		s.watchChanLock.Lock()
+		delete(s.watchChans, wc)
+		s.watchChanLock.Unlock()
+	}()
+	ctx, cancel := context.WithTimeout(r.Context(), 10*time.Minute)
 	defer cancel()
 	writer.Header().Set("Content-Type", "application/json")
 	writer.Header().Set("Transfer-Encoding", "chunked")
 	writer.Header().Set("Connection", "keep-alive")
 	writer.(http.Flusher).Flush()
 	for {
-		s.watchChanLock.RLock()
-		wc := s.watchChanMap[r.RemoteAddr]
-		s.watchChanLock.RUnlock()
 		select {
 		case <-ctx.Done():
-			s.watchChanLock.Lock()
-			close(s.watchChanMap[r.RemoteAddr])
-			delete(s.watchChanMap, r.RemoteAddr)
-			s.watchChanLock.Unlock()
 			return
-		case e := <-wc:
+		case e, ok := <-wc:
+			if !ok {
+				// too far behind
+				return
+			}
 			if e.Group == group &&
 				e.Version == version &&
 				e.Resource == resourceType &&
@@ -409,6 +418,8 @@ func (s *fakeCkubeServer) proxy(writer http.ResponseWriter, r *http.Request) {
 	if resourceName == "" {
 		resourceName = obj.Name
 	}
+	s.changeLock.Lock()
+	defer s.changeLock.Unlock()
 	action := EventActionError
 	switch r.Method {
 	case "POST":
@@ -465,15 +476,16 @@ func (s *fakeCkubeServer) proxy(writer http.ResponseWriter, r *http.Request) {
 	case s.eventChan <- e:
 	default:
 	}
-	s.watchChanLock.RLock()
-	for remote, c := range s.watchChanMap {
+	s.watchChanLock.Lock()
+	for c := range s.watchChans {
 		select {
 		case c <- e:
-			log.Debugf("succeed send stream to %s", remote)
 		default:
-			log.Infof("remote watcher %s no active stream", remote)
+			log.Infof("a watch is too far behind, it ends")
+			close(c)
+			delete(s.watchChans, c)
 		}
 	}
-	s.watchChanLock.RUnlock()
+	s.watchChanLock.Unlock()
 	jsonResp(writer, 200, &obj)
 }
-- 
2.43.0


From 6d322b900a5481fc5021863f00a84dd57fdcd0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:45 +0000
Subject: [PATCH 48/51] fix: the fake server's discovery has no versions of
 groups and lists every resource in every one

---
 pkg/client/fake/fake_ckube.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/pkg/client/fake/fake_ckube.go b/pkg/client/fake/fake_ckube.go
index 09e18f5..cdfdbb1 100644
--- a/pkg/client/fake/fake_ckube.go
+++ b/pkg/client/fake/fake_ckube.go
@@ -190,6 +190,9 @@ func resources(writer http.ResponseWriter, r *http.Request) {
 		res.GroupVersion = fmt.Sprintf("%s/%s", group, version)
 	}
 	for _, p := range common.GetConfig().Proxies {
+		if p.Group != group || p.Version != version {
+			continue
+		}
 		res.APIResources = append(res.APIResources, metav1.APIResource{
 			Name:         p.Resource,
 			SingularName: "",
@@ -223,22 +226,29 @@ func apis(writer http.ResponseWriter, r *http.Request) {
 	a := metav1.APIGroupList{}
 
 	for _, p := range common.GetConfig().Proxies {
+		if p.Group == "" {
+			// the core group is not listed here, but in /api
+			continue
+		}
+		gv := metav1.GroupVersionForDiscovery{
+			GroupVersion: fmt.Sprintf("%s/%s", p.Group, p.Version),
+			Version:      p.Version,
+		}
 		find := false
-		for _, g := range a.Groups {
+		for i, g := range a.Groups {
 			if g.Name == p.Group {
-				g.Versions = append(g.Versions, metav1.GroupVersionForDiscovery{
-					GroupVersion: fmt.Sprintf("%s/%s", p.Group, p.Version),
-					Version:      p.Version,
-				})
 				find = true
+				if !containsVersion(g.Versions, gv) {
+					a.Groups[i].Versions = append(g.Versions, gv)
+				}
 				break
 			}
 		}
 		if !find {
 			a.Groups = append(a.Groups, metav1.APIGroup{
 				Name:                       p.Group,
-				Versions:                   nil,
-				PreferredVersion:           metav1.GroupVersionForDiscovery{},
+				Versions:                   []metav1.GroupVersionForDiscovery{gv},
+				PreferredVersion:           gv,
 				ServerAddressByClientCIDRs: nil,
 			})
 		}
@@ -246,6 +256,15 @@ func apis(writer http.ResponseWriter, r *http.Request) {
 	jsonResp(writer, 200, a)
 }
 
+func containsVersion(versions []metav1.GroupVersionForDiscovery, gv metav1.GroupVersionForDiscovery) bool {
+	for _, v := range versions {
+		if v == gv {
+			return true
+		}
+	}
+	return false
+}
+
 func version(writer http.ResponseWriter, r *http.Request) {
 	// todo fixme
 	v := map[string]string{
-- 
2.43.0


From 28f5560043be6cd073681b73415d4f88cd522a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:43 +0000
Subject: [PATCH 49/51] fix: replacing the kubeconfig while it is being loaded
 crashed the proxy

---
 cmd/cacheproxy/main.go | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/cmd/cacheproxy/main.go b/cmd/cacheproxy/main.go
index 3a5478c..4eeb952 100644
--- a/cmd/cacheproxy/main.go
+++ b/cmd/cacheproxy/main.go
@@ -57,14 +57,6 @@ func GetK8sConfigConfigWithFile(kubeconfig, context string) *rest.Config {
 	return config
 }
 
-func GetKubernetesClientWithFile(kubeconfig, context string) (kubernetes.Interface, error) {
-	clientset, err := kubernetes.NewForConfig(GetK8sConfigConfigWithFile(kubeconfig, context))
-	if err != nil {
-		return nil, err
-	}
-	return clientset, err
-}
-
 func loadFromConfig(kubeConfig, configFile string) (map[string]kubernetes.Interface, watcher.Watcher, store.Store, error) {
 
 	cfg := common.Config{}
@@ -102,7 +94,7 @@ func loadFromConfig(kubeConfig, configFile string) (map[string]kubernetes.Interf
 				cfg.DefaultCluster = "default"
 			}
 			clusterConfigs[cfg.DefaultCluster] = *c
-			client, err := GetKubernetesClientWithFile(kubeConfig, "")
+			client, err := kubernetes.NewForConfig(c)
 			if err != nil {
 				return nil, nil, nil, err
 			}
@@ -135,7 +127,8 @@ func loadFromConfig(kubeConfig, configFile string) (map[string]kubernetes.Interf
 				return nil, nil, nil, fmt.Errorf("init k8s config error")
 			}
 			clusterConfigs[ctx.Name] = *c
-			client, err := GetKubernetesClientWithFile(kubeConfig, ctx.Name)
+			// of the same content: the file may have been replaced since it was read
+			client, err := kubernetes.NewForConfig(c)
 			if err != nil {
 				log.Errorf("init k8s client error: %v", err)
 				return nil, nil, nil, err
-- 
2.43.0


From f3531bf304435db44dbc0d787167b2d8c7b76a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:25 +0000
Subject: [PATCH 50/51] fix: the proxy ended with success when it could not
 listen

---
 cmd/cacheproxy/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/cacheproxy/main.go b/cmd/cacheproxy/main.go
index 4eeb952..b873d35 100644
--- a/cmd/cacheproxy/main.go
+++ b/cmd/cacheproxy/main.go
@@ -223,5 +223,8 @@ func main() {
 			}
 		}()
 	}
-	_ = ser.Run()
+	if err := ser.Run(); err != nil {
+		log.Errorf("server error: %v", err)
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From 2489b01737eb425c596b9337446056339aa56d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:12 +0000
Subject: [PATCH 51/51] fix: close the API server's stream when a proxied watch
 ends

The client's timeout is kept by a goroutine until the stream is closed, so each proxied watch left a goroutine behind for half an hour.
---
 api/proxy.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/api/proxy.go b/api/proxy.go
index 0a88fe4..3cdfc10 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -435,6 +435,7 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 		}
 		return err
 	}
+	defer reader.Close()
 	r.Writer.Header().Set("Content-Type", "application/json")
 	r.Writer.Header().Set("Transfer-Encoding", "chunked")
 	r.Writer.Header().Set("Connection", "keep-alive")
-- 
2.43.0


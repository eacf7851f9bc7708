#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run by hand after editing)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": " ".join(statement.split()),
         "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)

prop("C01", "The cache is the replay of its event history",
 """After any sequence of add, modify, delete and wipe notifications over any resources, clusters, namespaces and
 names, fetching one object returns exactly the last version delivered and not since deleted or wiped (nothing
 otherwise), and an unfiltered listing, overall or of one namespace, returns exactly the live objects, each once, with
 the matching total. A notification never changes what is visible for any other resource, cluster, namespace or name.""",
 ["histories"], "every finite sequence of notifications, over every combination of resource, cluster, namespace and name, including repeats, deletes of absent objects and wipes of unknown clusters",
 "The existing tests only add a handful of objects to a fresh store in one cluster and query once; no test deletes and re-adds, wipes, or uses two clusters or resources with equal names.",
 ["store/memory/memory.go", "store/interface.go"],
 [("four-level map resource/cluster/namespace/name", "store/memory/memory.go:memoryStore"), ("notification handlers", "store/memory/memory.go:OnResourceAdded/OnResourceModified/OnResourceDeleted/Clean")],
 ["Store.Get", "Store.Query", "Store.IsStoreGVR"],
 [("resourceMap", "live objects per resource, cluster, namespace and name", "store/memory/memory.go")])

prop("C02", "Cached objects are served unaltered",
 """An object delivered by the watch stream, of a built-in kind or of any custom resource, is served from the cache
 field for field as the API server sent it: every nested field, list, string, boolean and number (including integers
 beyond 2^53) keeps its value. The only difference is two added annotations, one naming the cluster the object came
 from (overwriting any stale value) and one holding its index values; all other annotations and labels are kept.""",
 ["inputs"], "every object: built-in kinds and arbitrary JSON documents for custom resources, with or without annotations, with stale ckube annotations, any cluster",
 "Tests store a few hand-written pods without annotations; custom resource encoding has no unit test at all.",
 ["watcher/watcher.go", "store/memory/memory.go"],
 [("custom resource JSON codec", "watcher/watcher.go:ObjType"), ("annotation injection", "store/memory/memory.go:buildResourceWithIndex")],
 ["Store.Get", "Store.Query", "JSON encoding of a custom resource"])

prop("C03", "Index values are each expression evaluated alone on the object",
 """For every set of configured index expressions (JSONPath, Go template or literal text) and every object, each index
 holds that one expression's value on that one object as received, independent of the other expressions, of their evaluation
 order and of objects stored before. The cluster, namespace, name and deletion-state indexes always reflect the object and the
 cluster it came from whatever is configured, and an invalid or inapplicable expression never keeps the
 object, or the other indexes, from being available.""",
 ["inputs", "configurations"], "every index configuration and every object",
 "Two fixed configurations with one pod each are tested; no test varies the mix of expressions, and the evaluation order is a random map order.",
 ["store/memory/memory.go", "utils/utils.go"],
 [("expression evaluation", "store/memory/memory.go:buildResourceWithIndex"), ("object to JSON map", "utils/utils.go:Obj2JSONMap")],
 ["index annotation of a served object", "Store.Query with a keyed search"])

prop("C04", "A search returns exactly the objects its expression describes",
 """A search is a conjunction of ';'-separated conditions (';;' is a literal semicolon): plain text holds when any index value contains it,
 key=value when that index contains the value, key="value" when it equals it, a leading '!' on the text or value negates, and
 an advanced condition holds when its label-selector expression matches the index values. A listing returns all objects
 satisfying every condition and no others; a condition naming an unknown key, or a malformed advanced condition, is
 reported as an error instead of an answer.""",
 ["inputs"], "every search expression of the documented grammar against every set of index values",
 "About twenty fixed expressions are tested, nearly all with one condition and with values free of quotes and separators.",
 ["page/page.go", "kube/label.go", "PAGINATE_SPEC.md", "store/memory/memory.go"],
 [("splitting and matching", "page/page.go:SearchParts, Match"), ("advanced conditions", "kube/label.go:ParseToLabelSelector"), ("filtering", "store/memory/memory.go:Query")],
 ["Paginate.Match", "Store.Query"])

prop("C05", "Sorting orders the whole result by the keys, and deterministically",
 """A sorted listing is a permutation of the matching objects ordered by the given keys from left to right, each as text or
 as number and ascending or descending as written; with no sort it is ordered by cluster, namespace and name. Objects equal
 in all keys come in the same order on every query of an unchanged cache. An unknown key, a malformed sort
 expression, or a numeric key whose values are not numbers where the order depends on it is an error, never an
 unordered answer.""",
 ["inputs", "histories"], "every sort expression over every set of objects, whatever order they were stored in",
 "Tests sort two to seven objects with distinct keys once; ties, many objects, repeated queries and malformed expressions are not covered, and the underlying iteration order is random.",
 ["store/memory/memory.go", "PAGINATE_SPEC.md"],
 [("sort expression parsing and comparison", "store/memory/memory.go:sortObjs")],
 ["Store.Query item order"])

prop("C06", "Pages partition the result exactly",
 """For any filter, sort and page size, walking pages 1, 2, 3... of an unchanged cache yields every matching object exactly
 once, in the order of the unpaginated listing, every page full but the last, with the same total, the number of matching objects, reported
 on each page that exists. A page or page size of zero disables pagination; negative values are rejected with an error; and no page or size value, however
 large, makes a request crash or return objects of another page.""",
 ["inputs", "histories"], "every number of objects, page, page size (whole 64-bit range), filter and sort, with and without a label selector",
 "Tests read page 1 and 2 of a two-object store; boundary sizes, ties, zero, negative and huge values are untested.",
 ["store/memory/memory.go", "api/proxy.go", "page/page.go", "PAGINATE_SPEC.md"],
 [("slicing in the store", "store/memory/memory.go:Query"), ("slicing after a label selector", "api/proxy.go:Proxy")],
 ["Store.Query", "HTTP list response"])

prop("C07", "Scoping a query adds exactly that restriction",
 """Restricting a query to a set of namespaces or clusters, or setting its advanced selector, makes it match exactly the objects that
 meet all its other conditions and lie in that set (or satisfy that selector), replacing only an earlier restriction made the same way (the selector replaces all advanced conditions, an empty one removes them), and
 the clusters or selector read back are those that were set. Splitting a search built from separate conditions gives those
 conditions back, up to surrounding blanks. An empty set or an invalid restriction is an error that leaves the query unchanged. What is given to these calls is not changed.""",
 ["inputs", "histories"], "every sequence of scoping calls on every search expression, evaluated on every set of index values",
 "Tests compare the resulting string for two fixed inputs; what the resulting query matches, repeated calls and several advanced conditions are untested.",
 ["page/page.go", "kube/label.go"],
 [("selector editing", "page/page.go:SearchSelector, SetSearchSelector, SetSearchWithParts, Namespaces, Clusters, GetClusters")],
 ["Paginate.Match", "Paginate.GetClusters", "Paginate.SearchParts"])

prop("C08", "A query survives the trip through the label selector",
 """Any page, page size, sort and search, of any text and length, attached to list options next to any supported label selector reaches the
 server as the same query and an equivalent label selector. What is sent is a valid Kubernetes label selector that, on a
 plain API server, selects the same objects as the caller's own; attaching a second query replaces the first. A selector that is not supported is
 reported as an error.""",
 ["inputs"], "every query (any Unicode text, lengths past 10,000 bytes) and every label selector of the supported grammar",
 "Six fixed encodings of short ASCII queries are compared; nothing decodes them, and none needs more than one piece.",
 ["page/page.go", "kube/label.go", "api/proxy.go"],
 [("encoding", "page/page.go:QueryListOptions"), ("splitting and merging", "kube/label.go:SplittingValue, MergeValues"), ("decoding", "api/proxy.go:parsePaginateAndLabelsAndClean")],
 ["list options produced", "query received by the store behind the HTTP handler"])

prop("C09", "A label selector selects what Kubernetes would select",
 """Listing a cached resource with any equality, inequality, set, existence or non-existence label selector returns exactly the objects whose labels Kubernetes
 itself would match with that selector, including repeated keys and contradictory requirements, whether or not a ckube query is attached. A selector ckube cannot evaluate is
 handed to the API server unchanged instead of being answered.""",
 ["inputs"], "every label selector and every set of object labels",
 "One equality selector on two pods is tested, against a stub store.",
 ["kube/label.go", "api/proxy.go"],
 [("selector conversion", "kube/label.go:ParseToLabelSelector"), ("matching labels of items", "api/proxy.go:Proxy, findLabels")],
 ["HTTP list response", "requests seen by the API server"])

prop("C10", "A list over HTTP is the filtered, sorted, paged cache with exact counts",
 """A list request for a cached resource answers with the configured list kind and API version and exactly the cached objects of the
 requested namespace and clusters that satisfy search and label selector, in order, cut to the requested page. The remaining-item count is the
 number of matching objects after that page, so the total the client library computes from any page equals the number of matches, and a
 page past the end is a 400 error rather than an empty success.""",
 ["inputs", "histories"], "every cache content and every combination of namespace, clusters, search, sort, page, page size and label selector",
 "Two requests against a stub store that ignores the query are tested; counts are only checked as zero.",
 ["api/proxy.go", "page/page.go", "store/memory/memory.go", "common/config.go"],
 [("list handling", "api/proxy.go:Proxy"), ("client total", "page/page.go:MakeupResPaginate")],
 ["HTTP list response", "MakeupResPaginate"])

prop("C11", "Requests only ever see the clusters they address",
 """A list without a cluster choice returns only objects of the default cluster, whatever that cluster's name; with a choice it returns
 only objects of the chosen clusters. Reading one object uses only the addressed cluster (the default one if none is named), and a forwarded
 request reaches only the addressed cluster's API server; naming an unknown cluster for it gives a 404 and contacts no server.""",
 ["inputs", "configurations"], "every set of clusters (any names, any default) with overlapping object names, and every request",
 "All HTTP tests use a single cluster with an empty name and a stub store.",
 ["api/proxy.go", "page/page.go", "server/route.go"],
 [("cluster selection", "api/proxy.go:parsePaginateAndLabelsAndClean, Proxy, proxyPass")],
 ["HTTP responses", "requests seen by each API server"])

prop("C12", "Everything the cache cannot answer is forwarded faithfully",
 """A request for an uncached resource or path, with a method other than GET, or with a query parameter the cache does not handle is sent exactly once to the API server with the
 same method, path, remaining query parameters and body, and its answer, the body of a success or an error status with code, reason and message, is
 returned unchanged. A read the cache can answer sends nothing to the API server.""",
 ["inputs"], "every method, path, query, body and upstream answer",
 "No existing test forwards a request.",
 ["api/proxy.go", "server/route.go", "server/server.go"],
 [("forwarding decision and forwarding", "api/proxy.go:Proxy, proxyPass, getRequest"), ("routing", "server/route.go")],
 ["requests seen by the API server", "HTTP responses"])

prop("C13", "Cluster-addressed operations reach that cluster with options intact",
 """A get, create, update, patch or delete whose options were wrapped for a cluster is carried out on that cluster, and all
 other options and the body arrive there unchanged, without any trace of the cluster marker. A delete
 sent without a wrapper keeps its options, dry-run included. Wrapping options whose carrier field is already in use is
 refused with an error.""",
 ["inputs"], "every option value, cluster name and object, through a Kubernetes client",
 "The wrappers are only used by the test of the fake server, which is not the real proxy; none checks what an API server receives.",
 ["page/page.go", "api/proxy.go", "common/constants/ckube.go"],
 [("wrapping", "page/page.go:QueryGetOptions, QueryCreateOptions, QueryUpdateOptions, QueryPatchOptions, QueryDeleteOptions"), ("unwrapping", "api/proxy.go:parsePaginateAndLabelsAndClean")],
 ["requests seen by each API server"])

prop("C14", "A proxied watch delivers the upstream stream byte for byte",
 """A watch request, written as a query parameter or as a watch path, is forwarded to the addressed cluster and every
 byte the API server sends on it reaches the client in order, nothing added, lost or held back once its line is complete, until
 the stream ends. If the API server refuses the watch, the client receives that error status.""",
 ["inputs", "schedules"], "every sequence of event lines of any size and content, split into any chunks, with or without a final newline, ended at any point",
 "No existing stable test opens a watch.",
 ["api/proxy.go", "server/server.go"],
 [("stream copying", "api/proxy.go:proxyPassWatch"), ("recognising watches", "api/proxy.go:isWatchRequest")],
 ["HTTP response stream", "requests seen by the API server"])

prop("C15", "With a token configured, nothing is served or forwarded without it",
 """When a token is configured, every request whose Authorization header does not carry it is answered 401 without disclosing
 any cached data and without contacting an API server, whatever its method, path and query; only the health and metrics endpoints stay
 open. Requests carrying the token, and all requests when none is configured, are served as usual.""",
 ["inputs", "configurations"], "every method, path, query, Authorization header and token configuration",
 "Authentication is not tested at all.",
 ["server/server.go", "server/route.go"],
 [("per-route authentication", "server/server.go:registerRoutes"), ("route table", "server/route.go:routeHandles")],
 ["HTTP responses", "requests seen by the API server"])

prop("C16", "A table answer shows the index values of the listed objects",
 """When a client asks for a table, a list of a cached resource answers with one row per object of the equivalent plain list, in the same order,
 with one column per index. Each cell holds that object's value of its column's index; the identifying columns (cluster, namespace if
 indexed, name) come first and the rest in alphabetical order.""",
 ["inputs", "configurations"], "every index configuration and every list request",
 "No test requests a table.",
 ["api/proxy.go"],
 [("table construction", "api/proxy.go:serverPrint")],
 ["HTTP list response with a table Accept header"])

prop("C17", "No request can make the proxy itself fail",
 """Whatever the method, path, query string, label selector, embedded query payload or body, the proxy answers every request with a
 result, the API server's answer, or a 4xx status; it never fails with an internal error of its own while the API servers are healthy, and every
 request after it is served as if it had not happened.""",
 ["inputs", "histories"], "every sequence of requests, including malformed selectors and payloads",
 "Tests only send two well-formed list requests.",
 ["api/proxy.go", "server/server.go", "page/page.go", "kube/label.go", "store/memory/memory.go"],
 [("request parsing", "api/proxy.go:parsePaginateAndLabelsAndClean"), ("page slicing", "store/memory/memory.go:Query"), ("method dispatch", "api/proxy.go:getRequest")],
 ["HTTP status codes and bodies"])

prop("C18", "The cache follows the API server across stream breaks",
 """Once the API server has accepted a watch, the cache holds for that resource and cluster exactly the objects
 described by that stream's events so far: objects that disappeared while disconnected are gone, also if none are left, and no missed change stays hidden. Failed
 connection attempts, whatever the failure, and streams that have ended leave the cached objects readable, are retried for as long as the watcher runs, and trouble on one resource or cluster never affects another.""",
 ["histories", "fault_sequences"], "every history of events, closed or truncated streams, error events and refused connections, over several resources and clusters at once",
 "The watcher has no test; reconnecting takes seconds of real time per attempt.",
 ["watcher/watcher.go", "store/memory/memory.go"],
 [("watch loop with wipe on every new stream", "watcher/watcher.go:watchResources")],
 ["Store.Get", "Store.Query", "requests seen by the API server"])

prop("C19", "Every configured resource kind is mirrored",
 """For every configured resource, built-in or custom and whatever its kind is called, the objects its API server announces are decoded and
 cached under that resource, each with all of its content, and each resource and cluster is watched by
 one stream at that resource's own URL.""",
 ["configurations", "inputs"], "every set of configured resources: group, version, plural and kind names (any ending), in any number of clusters",
 "No test configures a custom resource for the watcher.",
 ["watcher/watcher.go", "common/config.go"],
 [("kind registration", "watcher/watcher.go:watchResources"), ("configured kind lookup", "common/config.go:GetGVRKind")],
 ["Store.Get", "Store.Query", "requests seen by the API server"])

prop("C20", "A stopped watcher is silent",
 """After a watcher has been stopped, whatever state its streams were in (connected, idle, reconnecting or backing off), once its in-flight
 event is processed it changes its cache no more and opens no further stream, and all of its streams are closed.""",
 ["schedules", "histories"], "every moment of stopping within every stream history",
 "Stop is never called by a stable test.",
 ["watcher/watcher.go"],
 [("stop channel", "watcher/watcher.go:Stop, watchResources")],
 ["Store.Query after stop", "open streams and requests seen by the API server"])

prop("C21", "Concurrent readers see whole, current objects",
 """While notifications for different resources and clusters are applied concurrently, every read returns complete object versions, never going back to an
 older version than the same reader has already seen; an object not being changed is listed exactly once and one not deleted is always found; and when
 the writers finish, the cache equals the result of applying each writer's notifications in order. No interleaving crashes, deadlocks or races.""",
 ["schedules", "histories"], "every interleaving of one writer per resource and cluster with any number of readers",
 "The one concurrency test asserts nothing about what is read and never lists.",
 ["store/memory/memory.go"],
 [("per-level read/write locks", "store/memory/memory.go:syncResourceStore")],
 ["Store.Get", "Store.Query", "the race detector"])

prop("C22", "Services of a deployment are exactly those selecting its pods",
 """Asking for the services of a deployment returns every cached service of that namespace and cluster (the default cluster if none is named) whose
 selector is non-empty and contained in the labels of the deployment's pods, and no others; other deployments with
 similar names, other namespaces and other clusters never influence the answer.""",
 ["inputs"], "every set of pods, owners, labels and services across namespaces and clusters",
 "One pod and one matching service are tried by a test that is not among the stable ones.",
 ["api/extend/deploy2service.go", "utils/subset.go", "server/route.go"],
 [("pod lookup and selector matching", "api/extend/deploy2service.go:Deploy2Service"), ("containment", "utils/subset.go:IsSubsetOf")],
 ["HTTP response of the custom endpoint"])

prop("C23", "Editing the configuration takes effect without a restart",
 """After the configuration or kubeconfig file of a running proxy is changed to a valid content, requests are soon answered according to the new content: its resources, indexes, list kinds,
 clusters with their servers and users, default cluster (a kubeconfig's current context) and token; a cluster that can not be reached does not affect the others. A change of a file to invalid content is ignored: the proxy keeps answering according to the last valid content, and repairing that file takes effect again.""",
 ["histories", "configurations"], "every sequence of valid and invalid edits, by overwriting or by replacing the file",
 "The command's start-up and reload code has no test.",
 ["cmd/cacheproxy/main.go", "utils/fs_watcher.go", "server/server.go", "common/config.go"],
 [("reload loop", "cmd/cacheproxy/main.go:main, loadFromConfig"), ("store swap", "server/server.go:ResetStore")],
 ["HTTP responses of the running program"])

prop("C24", "Every change of a watched file is announced",
 """For any sequence of changes to the watched files, by writing in place or by removal and re-creation within the grace period, an event naming the changed file
 follows each change, so that a reader that rereads the file at every event always ends with its final content; watching
 continues after every such change, and a file that stays gone past the grace period is announced as an error.""",
 ["histories"], "every sequence of in-place writes and replacements over one or more files",
 "The file watcher has no test.",
 ["utils/fs_watcher.go"],
 [("event loop with re-adding", "utils/fs_watcher.go:Start")],
 ["events delivered"])

prop("C25", "The command-line tools send the query the user asked for",
 """The selector printed by the query tool decodes to exactly the page, size, sort, search and clusters given by its flags. The kubectl plugin runs kubectl once with the user's arguments in
 order, minus the cluster option, and with only the selector (for get) or field manager (for create) replaced or added, so that the user's own selector and the chosen clusters both apply, and ends with kubectl's exit status.""",
 ["inputs"], "every combination and order of arguments",
 "Neither command has a test.",
 ["cmd/ckubecli/main.go", "cmd/ckube-plugin/main.go", "page/page.go"],
 [("argument handling", "cmd/ckube-plugin/main.go:main"), ("query encoding", "cmd/ckubecli/main.go:main")],
 ["standard output", "arguments received by kubectl"])

prop("C26", "The fake server behaves like an API server with ckube queries",
 """For any sequence of creates, updates, deletes, gets and lists through a Kubernetes client, over several clusters, namespaces and resources, the
 fake server answers as a simple object map would: creating an existing object or touching a missing one is an error that changes
 nothing, the others take effect at once and return the object's content, clusters are separate, and cleaning empties everything.""",
 ["histories"], "every sequence of client operations",
 "Its only test is a fixed script of eight steps, and is flaky.",
 ["pkg/client/fake/fake_ckube.go"],
 [("write handling", "pkg/client/fake/fake_ckube.go:proxy"), ("reads through the real handlers", "server/route.go")],
 ["Kubernetes client results"])

prop("C27", "The resource gauge counts the cached objects",
 """At all times the exported resource gauge shows, for every cluster, resource and namespace it has reported on, exactly the number of objects cached
 there, after any sequence of add, modify, delete and wipe notifications.""",
 ["histories"], "every sequence of notifications",
 "No test reads the gauge.",
 ["store/memory/memory.go", "utils/prommonitor/metrics.go"],
 [("gauge updates", "store/memory/memory.go:OnResourceAdded/OnResourceModified/OnResourceDeleted/Clean")],
 ["/metrics"])

prop("C28", "Requests in flight do not influence one another",
 """Any number of requests served at the same time, of every kind and for any clusters, each get exactly the answer, and send exactly the request to the API server,
 that they would get and send alone. While the cache and the clients are replaced, as a reload does, each is answered entirely from the old or
 entirely from the new ones. No interleaving crashes, deadlocks or races.""",
 ["schedules", "inputs"], "every set of concurrent requests, with and without the content being replaced meanwhile",
 "Tests send one request at a time to a server that is never reset.",
 ["server/server.go", "api/proxy.go", "api/extend/deploy2service.go", "common/config.go"],
 [("content swap", "server/server.go:ResetStore"), ("request contexts", "server/server.go:registerRoutes"), ("configuration access", "common/config.go:InitConfig, GetConfig")],
 ["HTTP responses", "requests seen by the API server", "the race detector"])

prop("C29", "A proxied watch lives exactly as long as both of its ends",
 """A proxied watch is answered to the client as soon as the API server accepts it, before any event; when the client goes away, before or after that answer and
 whether or not events are coming, the API server's stream is closed soon; and when the API server's stream ends, so does the client's.
 Until then, for its first 29 minutes at least, it stays open and delivers what is sent, however long nothing is.
 Abandoned watches, and other requests, influence no other one.""",
 ["schedules", "histories"], "every set of watches at the same time, each abandoned or ended at any point, after any pauses",
 "Tests never watch through the proxy over real connections, and none looks at the API server's side after the client has left.",
 ["api/proxy.go", "server/server.go"],
 [("stream copying", "api/proxy.go:proxyPassWatch"), ("flushing", "server/server.go:statusWriter")],
 ["the client's response", "the API server's request context"])

prop("C30", "Watches of the fake server report every change in order",
 """A watch opened at the fake server, on a resource in one namespace or all, and of the clusters it names (all if it names none), reports every later
successful create, update and delete there exactly once and in the order in which they took effect, as added, modified or deleted and with the
object (as it was, if deleted), and nothing else: no failed operation, no other resource, namespace or cluster. Other watches, read slowly or abandoned,
do not change that. Operations of several clients at the same time take effect one after another.""",
 ["histories", "schedules"], "every sequence of operations, and every interleaving of several clients' operations, with any watches open",
 "Its watch is never tested, and its only test runs its operations one by one.",
 ["pkg/client/fake/fake_ckube.go"],
 [("event streams", "pkg/client/fake/fake_ckube.go:watch"), ("writes and their events", "pkg/client/fake/fake_ckube.go:proxy")],
 ["the events a client receives", "Kubernetes client results"])

prop("C31", "Discovery at the fake server finds exactly what is configured",
 """Kubernetes' discovery client finds at a fake server, made from a text or a file, exactly the configured resources, each under its group and version, with its kind and
all verbs, and exactly the configured groups and versions; so dynamic clients can map kinds to resources and back. A stopped fake server frees its address for another one.""",
 ["inputs"], "every set of configured resources",
 "Discovery is never tested.",
 ["pkg/client/fake/fake_ckube.go"],
 [("discovery documents", "pkg/client/fake/fake_ckube.go:apis, resources")],
 ["client-go discovery and REST mapper results"])

prop("C32", "A reload leaves nothing of the old configuration running",
 """While no reload or reconnection is going on, the running program has exactly one watch stream open for each configured resource of each cluster, at that cluster's API server, and no other: after
any sequence of valid and invalid edits of its files none is left from an earlier configuration, none is missing and none is doubled. Each edit is counted by the exported reload counter as
successful or failed.""",
 ["histories"], "every sequence of edits of the configuration and kubeconfig files",
 "No test starts the program.",
 ["cmd/cacheproxy/main.go", "watcher/watcher.go"],
 [("reload loop", "cmd/cacheproxy/main.go:main"), ("stopping", "watcher/watcher.go:Stop")],
 ["requests open at the API servers", "/metrics"])

prop("C33", "The program starts with what its files say, or not at all",
 """Started with valid files, the configuration given by flag or in its default place and the kubeconfig by flag, in the home directory or through the environment, the program soon answers according to their
 content, also while some of the clusters can not be reached. Started with a missing or invalid file, or with an address it can not listen on, it ends by itself with a failure status,
 without a crash and without having answered any request.""",
 ["configurations"], "every configuration and kubeconfig, and every way of giving them",
 "No test starts the program.",
 ["cmd/cacheproxy/main.go", "server/server.go"],
 [("loading", "cmd/cacheproxy/main.go:loadFromConfig, GetK8sConfigConfigWithFile"), ("flags and start", "cmd/cacheproxy/main.go:main"), ("listening", "server/server.go:Run")],
 ["HTTP responses and exit status of the program"])

prop("C34", "The access log tells every request and its answer",
 """Every request the cache server answers leaves exactly one entry in the access log, with the request's method and target as received and the status and number of body bytes the client
was sent, whoever answered it: the cache, an API server (event streams in pieces included) or the server's own routes and refusals, and however many requests run at the same time.""",
 ["inputs", "schedules"], "every request, answer and interleaving of requests",
 "No test reads the access log.",
 ["server/server.go", "log/log.go"],
 [("logging middleware", "server/server.go:loggingMiddleware"), ("counting", "server/server.go:statusWriter")],
 ["the access log", "HTTP responses"])

prop("C35", "Nothing outlives its request",
 """When a request is over, however it ended - answered from the cache, refused, answered or failed by an API server, broken off by either side, or left by its client at any moment -
nothing of it is left in the cache server: no goroutine still runs for it, and every answer an API server began to give to it was read to its end, closed or cancelled, so that its connection
is free. So the program serves any number of requests with bounded resources.""",
 ["inputs", "schedules", "fault_sequences"], "every history of requests, clients that leave and API servers that fail at any point",
 "Tests end long before leftovers matter, and none looks for them.",
 ["api/proxy.go", "server/server.go"],
 [("proxied watches", "api/proxy.go:proxyPassWatch"), ("forwarding", "api/proxy.go:proxyPass, getRequest")],
 ["goroutines of the process", "answers of API servers"])

prop("C36", "What is written through the program is soon read through it",
 """A client that creates, updates, patches or deletes objects of any cluster through the running program gets each answer from that cluster's API server, and soon reads the result through it, in gets and in
lists of any clusters, namespaces and queries, with all of its content; the same holds for what others write at the API servers, before and after the start, in whatever order and at whatever pace, and across
ended and broken watch streams. Informers of client-go that list and watch a cluster through the program come to hold exactly that cluster's objects. A write never shows in another cluster or
resource.""",
 ["histories", "fault_sequences"], "every history of writes and reads by clients of the program and others, over several clusters and resources",
 "No test starts the program, and none has a write and a read.",
 ["cmd/cacheproxy/main.go", "watcher/watcher.go", "api/proxy.go", "store/memory/memory.go", "page/page.go", "server/server.go"],
 [("assembly", "cmd/cacheproxy/main.go:loadFromConfig"), ("mirror", "watcher/watcher.go:watchResources"), ("requests", "api/proxy.go:Proxy"), ("query helpers", "page/page.go")],
 ["Kubernetes client results", "HTTP responses", "informer stores"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))

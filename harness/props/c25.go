package props

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"

	"ckverif/vk"

	"github.com/DaoCloud/ckube/page"
	"k8s.io/apimachinery/pkg/labels"
	"k8s.io/apimachinery/pkg/selection"
	"k8s.io/apimachinery/pkg/util/validation"
	"pgregory.net/rapid"
)

const queryKey = "ckube.daocloud.io/query"

// sentQuery reads a selector as the documentation says: the query is the requirement of a key of its own, cut into
// numbered pieces when it is long. The other requirements are returned as a selector.
func sentQuery(text string) (page.Paginate, labels.Selector, error) {
	p := page.Paginate{}
	s, err := labels.Parse(text)
	if err != nil {
		return p, nil, err
	}
	rs, _ := s.Requirements()
	others := labels.NewSelector()
	found := 0
	for _, r := range rs {
		if r.Key() != queryKey {
			others = others.Add(r)
			continue
		}
		found++
		if r.Operator() != selection.NotIn {
			return p, nil, fmt.Errorf("the query is not attached with notin: %.200s", text)
		}
		pieces := r.Values().UnsortedList()
		doc := ""
		if len(pieces) == 1 {
			doc = pieces[0]
		} else {
			at := func(i int) int {
				n, _ := strconv.Atoi(strings.SplitN(pieces[i], ".", 2)[0])
				return n
			}
			sort.Slice(pieces, func(i, j int) bool { return at(i) < at(j) })
			for _, x := range pieces {
				doc += strings.SplitN(x, ".", 2)[1]
			}
		}
		b, err := base64.RawStdEncoding.DecodeString(doc)
		if err != nil {
			return p, nil, fmt.Errorf("the query in %.200s: %w", text, err)
		}
		if err := json.Unmarshal(b, &p); err != nil {
			return p, nil, fmt.Errorf("the query in %.200s: %w", text, err)
		}
	}
	if found > 1 {
		return p, nil, fmt.Errorf("%d queries are attached in %.200s", found, text)
	}
	return p, others, nil
}

func badClusters(list []string) bool {
	for _, c := range list {
		if c == "" || len(validation.IsValidLabelValue(c)) > 0 {
			return true
		}
	}
	return false
}

func sameSet(a, b []string) bool {
	m := map[string]int{}
	for _, x := range a {
		m[x] |= 1
	}
	for _, x := range b {
		m[x] |= 2
	}
	for _, v := range m {
		if v != 3 {
			return false
		}
	}
	return true
}

// runProgram returns what a program printed and its exit status.
func runProgram(dir, stdin string, env []string, name string, args ...string) (stdout, stderr string, status int, err error) {
	c := exec.Command(filepath.Join(os.Getenv("CKV_BIN"), name), args...)
	var o, e bytes.Buffer
	c.Dir, c.Stdin, c.Stdout, c.Stderr = dir, strings.NewReader(stdin), &o, &e
	c.Env = append([]string{"HOME=" + dir}, env...)
	err = c.Run()
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		err = nil
	}
	return o.String(), e.String(), c.ProcessState.ExitCode(), err
}

// ---- the query tool ----------------------------------------------------------------

type c25Flag struct {
	Name  string `json:"name"`
	Value string `json:"value"`
	Form  string `json:"form"` // before the name, and between name and value
}

type c25Tool struct {
	Flags []c25Flag `json:"flags"`
}

func genC25Clusters(t *rapid.T) []string {
	if chance(t, "odd cluster", 8) {
		return []string{"c1", pick(t, "odd", "", "a b", "-x", "kubernetes-admin@kubernetes", "ü")}
	}
	return subset(t, "clusters", []string{"c1", "c2", "default", "prod.eu_1", "C1", "get", "create", "0", "true"}, 4)
}

func genC25Tool(t *rapid.T) c25Tool {
	c := c25Tool{}
	add := func(name, value string) {
		form := pick(t, "form", "- ", "-=", "-- ", "--=")
		c.Flags = append(c.Flags, c25Flag{name, value, form})
	}
	clean := func(s string) string { return strings.ReplaceAll(s, "\x00", "") } // no argument has one
	for _, name := range rapid.Permutation([]string{"p", "s", "sort", "search", "c"}).Draw(t, "flags")[:intIn(t, "number", 0, 5)] {
		switch name {
		case "p", "s":
			add(name, fmt.Sprint(pick(t, name, 0, 1, 2, 10, -1, 1<<40, 100)))
		case "sort":
			add(name, clean(genLongText(t)))
		case "search":
			add(name, clean(strings.ReplaceAll(genLongText(t), advPrefix, "")))
			if chance(t, "advanced", 20) {
				c.Flags[len(c.Flags)-1].Value = advPrefix + "name in (a,b);" + strings.TrimLeft(c.Flags[len(c.Flags)-1].Value, ";")
			}
		case "c":
			add(name, strings.Join(genC25Clusters(t), ","))
		}
	}
	return c
}

func checkC25Tool(e *vk.Env, c c25Tool) error {
	args := []string{}
	want := page.Paginate{}
	clusters := ""
	for _, f := range c.Flags {
		if strings.HasSuffix(f.Form, "=") {
			args = append(args, strings.TrimSuffix(f.Form, "=")+f.Name+"="+f.Value)
		} else {
			args = append(args, strings.TrimSpace(f.Form)+f.Name, f.Value)
		}
		n, _ := strconv.ParseInt(f.Value, 10, 64)
		switch f.Name {
		case "p":
			want.Page = n
		case "s":
			want.PageSize = n
		case "sort":
			want.Sort = f.Value
		case "search":
			want.Search = f.Value
		case "c":
			clusters = f.Value
		}
	}
	out, errs, status, err := runProgram(e.Tmp, "", nil, "ckubecli", args...)
	if err != nil {
		return fmt.Errorf("run ckubecli: %w", err)
	}
	list := strings.Split(clusters, ",")
	if status != 0 {
		if out != "" {
			return fmt.Errorf("ckubecli %q fails and prints %q", args, out)
		}
		if clusters != "" && badClusters(list) {
			return nil
		}
		return fmt.Errorf("ckubecli %q ends with %d: %s", args, status, errs)
	}
	got, others, err := sentQuery(out)
	if err != nil {
		return fmt.Errorf("ckubecli %q prints %q: %w", args, out, err)
	}
	if !others.Empty() {
		return fmt.Errorf("ckubecli %q prints %q, with more than the query", args, out)
	}
	if clusters == "" {
		if got != want {
			return fmt.Errorf("ckubecli %q prints %s, want %s", args, short(got), short(want))
		}
		return nil
	}
	if badClusters(list) {
		return fmt.Errorf("ckubecli %q ends with 0 and prints %s", args, short(got))
	}
	if got.Page != want.Page || got.PageSize != want.PageSize || got.Sort != want.Sort || got.Total != 0 || !sameSet(got.GetClusters(), list) {
		return fmt.Errorf("ckubecli %q prints %s, want %s in the clusters %q", args, short(got), short(want), list)
	}
	for _, m := range []map[string]string{{"name": "a"}, {"name": "b", "x": "1"}, {"name": "other", "x": want.Search}, {"name": want.Search}} {
		for _, cl := range append([]string{"c1", "elsewhere", ""}, list...) {
			m["cluster"] = "-"
			exp, e1 := want.Match(m) // fuzzy conditions look at the cluster, too
			m["cluster"] = cl
			if exp2, _ := want.Match(m); exp2 != exp {
				continue
			}
			exp = exp && contains(list, cl)
			is, e2 := got.Match(m)
			if (e1 == nil) != (e2 == nil) || e1 == nil && is != exp {
				return fmt.Errorf("ckubecli %q prints %s, which matches %v: %v, want %v", args, short(got), m, is, exp)
			}
		}
	}
	return nil
}

// ---- the plugin --------------------------------------------------------------------

type c25Arg struct {
	Kind   string   `json:"kind"` // word, option, selector, clusters, manager
	Tokens []string `json:"tokens"`
	Value  string   `json:"value,omitempty"` // of a selector, clusters or manager
}

type c25Case struct {
	Command string   `json:"command"`
	Before  []c25Arg `json:"before,omitempty"` // of the subcommand
	After   []c25Arg `json:"after,omitempty"`
	Tail    []string `json:"tail,omitempty"` // after --
	Stdin   string   `json:"stdin,omitempty"`
	Status  int      `json:"status,omitempty"` // of kubectl
	Stdout  string   `json:"stdout,omitempty"`
	Stderr  string   `json:"stderr,omitempty"`
}

func genC25(t *rapid.T) c25Case {
	c := c25Case{Command: pick(t, "command", "get", "get", "get", "create", "create", "create", "delete", "describe", "apply", "")}
	c.Status = pick(t, "status", 0, 0, 1, 3, 130)
	c.Stdout, c.Stderr = pick(t, "out", "", "some output\n"), pick(t, "err", "", "an error\n")
	if c.Command == "create" {
		c.Stdin = pick(t, "in", "", "kind: Pod\n", "a\x00b")
	}
	split := func(name, value, form string) []string {
		switch form {
		case "joined":
			return []string{name + value}
		case "equals":
			return []string{name + "=" + value}
		}
		return []string{name, value}
	}
	option := func() c25Arg {
		o := pickFrom(t, "option", [][]string{{"-n", "ns1"}, {"-n", "default"}, {"--namespace=x"}, {"-o", "yaml"}, {"-o", "custom-columns=A:.metadata.name, B:.x"}, {"-A"}, {"--sort-by=.metadata.name"},
			{"--context", "c2"}, {"-w"}, {"-L", "app,tier"}, {"-f", "-"}, {"--from-literal=a=b c"}, {"--image=busybox"}, {"--show-labels"}, {"--dry-run=client"}, {"--label-columns", "x"}, {"--limit=5"}, {"-o", ""}, {"--field-selector="}, {"-v", "9"}, {"--cluster", "k"}})
		return c25Arg{Kind: "option", Tokens: o}
	}
	any := func(early bool) c25Arg {
		switch intIn(t, "kind", 0, 9) {
		case 0, 1:
			if early {
				return option()
			}
			w := pick(t, "word", "pods", "svc/web", "create", "get", "deployment", "a", "%s", "日本", "", " ", "a  b", "clusters", "l", "selector")
			return c25Arg{Kind: "word", Tokens: []string{w}}
		case 2, 3, 4:
			return option()
		case 5, 6:
			v := ""
			switch intIn(t, "selector kind", 0, 5) {
			case 0:
				v = pick(t, "odd selector", "", "get", "create", "app=create", "a=b,,", "app in", "clusters")
			case 1:
				v = pick(t, "twice", "app=web,app=web", "app=web,app!=api", "app,app=web", "!app", "tier in (a,b),tier notin (a)")
			default:
				v = genLabelSelector(t, 3)
			}
			a := c25Arg{Kind: "selector", Value: v}
			if chance(t, "long", 50) {
				a.Tokens = split("--selector", v, pick(t, "form", "", "equals"))
			} else {
				a.Tokens = split("-l", v, pick(t, "form", "", "joined", "equals"))
				if len(v) == 0 || v[0] == '=' {
					a.Tokens = []string{"-l", v}
				}
			}
			return a
		case 7, 8:
			v := strings.Join(genC25Clusters(t), ",")
			if chance(t, "one", 50) {
				v = pick(t, "only", "c1", "c2", "default", "get")
			}
			return c25Arg{Kind: "clusters", Tokens: []string{"--clusters", v}, Value: v}
		}
		if c.Command != "create" {
			return option()
		}
		return c25Arg{Kind: "manager", Tokens: split("--field-manager", "me", pick(t, "form", "", "equals"))}
	}
	for i := pick(t, "before", 0, 0, 1, 2, 3); i > 0; i-- {
		c.Before = append(c.Before, any(true))
	}
	for i := intIn(t, "after", 0, 6); i > 0; i-- {
		c.After = append(c.After, any(false))
	}
	if chance(t, "tail", 20) {
		c.Tail = append([]string{"--"}, pickFrom(t, "tail words", [][]string{{"date"}, {"sh", "-c", "ls -l"}, {"sh", "-c", "", "x  y\n"}, {"ls", "-l", "--clusters", "x"}, {"get", "--selector", "a=b", "--"}, {}})...)
	}
	return c
}

// kubectlStub writes every call down and plays the answer in its environment.
const kubectlStub = `#!/bin/sh
printf 'call %s\n' "$#" >> "$CKV_CALLS"
for a in "$@"; do printf '%s\0' "$a" >> "$CKV_ARGS"; done
cat > "$CKV_STDIN"
printf '%s' "$CKV_STDOUT"
printf '%s' "$CKV_STDERR" >&2
exit "$CKV_STATUS"
`

// without returns args without an option, and the option's last value. The option may be written in any of kubectl's ways.
func without(args []string, long, shorthand string) (rest []string, value string, times int) {
	rest = []string{}
	for i := 0; i < len(args); i++ {
		a := args[i]
		switch {
		case a == "--":
			return append(rest, args[i:]...), value, times
		case a == long || shorthand != "" && a == shorthand:
			times++
			if i+1 < len(args) {
				i++
				value = args[i]
			}
		case strings.HasPrefix(a, long+"="):
			times++
			value = a[len(long)+1:]
		case shorthand != "" && strings.HasPrefix(a, shorthand):
			times++
			value = strings.TrimPrefix(a[len(shorthand):], "=")
		default:
			rest = append(rest, a)
		}
	}
	return rest, value, times
}

func checkC25(e *vk.Env, c c25Case) error {
	dir, err := os.MkdirTemp(e.Tmp, "c25-")
	must(err)
	defer os.RemoveAll(dir)
	must(os.WriteFile(filepath.Join(dir, "kubectl"), []byte(kubectlStub), 0o755))
	given, expected := []string{}, []string{} // expected is without the clusters
	clusters, ownSelector, hasSelector := "", "", false
	put := func(l []c25Arg) {
		for _, a := range l {
			given = append(given, a.Tokens...)
			switch a.Kind {
			case "clusters":
				clusters = a.Value
				continue
			case "selector":
				ownSelector, hasSelector = a.Value, true
			}
			expected = append(expected, a.Tokens...)
		}
	}
	put(c.Before)
	if c.Command != "" {
		given, expected = append(given, c.Command), append(expected, c.Command)
	}
	put(c.After)
	given, expected = append(given, c.Tail...), append(expected, c.Tail...)
	supported := c.Command == "get" || c.Command == "create"
	if c.Command == "" {
		for _, a := range c.After { // a name instead of a subcommand
			for _, w := range a.Tokens {
				if a.Kind == "word" && (w == "get" || w == "create") {
					return nil
				}
			}
		}
	} else if !supported {
		for _, a := range c.After {
			if a.Kind == "word" && (a.Tokens[0] == "get" || a.Tokens[0] == "create") {
				return nil
			}
		}
	}
	env := []string{"PATH=" + dir + ":/usr/bin:/bin", "CKV_CALLS=" + dir + "/calls", "CKV_ARGS=" + dir + "/args", "CKV_STDIN=" + dir + "/stdin",
		"CKV_STDOUT=" + c.Stdout, "CKV_STDERR=" + c.Stderr, fmt.Sprintf("CKV_STATUS=%d", c.Status)}
	out, errs, status, err := runProgram(dir, c.Stdin, env, "ckube-plugin", given...)
	if err != nil {
		return fmt.Errorf("run the plugin: %w", err)
	}
	calls, _ := os.ReadFile(filepath.Join(dir, "calls"))
	n := strings.Count(string(calls), "call ")
	raw, _ := os.ReadFile(filepath.Join(dir, "args"))
	got := []string{}
	for _, a := range strings.Split(string(raw), "\x00") {
		got = append(got, a)
	}
	got = got[:len(got)-1]
	list := strings.Split(clusters, ",")
	notRun := func(why string) error {
		if n != 0 {
			return fmt.Errorf("the plugin runs kubectl with %q for %q: %s", got, given, why)
		}
		if status == 0 {
			return fmt.Errorf("the plugin ends with 0 for %q: %s", given, why)
		}
		return nil
	}
	if !supported {
		return notRun("it does not support this")
	}
	if clusters != "" {
		if c.Command == "create" && len(list) > 1 {
			return notRun("an object is created in one cluster")
		}
		if c.Command == "get" && badClusters(list) {
			return notRun("there are no such clusters")
		}
	}
	if n == 0 && clusters != "" && c.Command == "get" && status != 0 {
		if _, err := labels.Parse(ownSelector); err != nil {
			return nil // refused
		}
	}
	if n != 1 {
		return fmt.Errorf("the plugin runs kubectl %d times for %q, and ends with %d: %s", n, given, status, errs)
	}
	if !strings.HasSuffix(out, c.Stdout) || !strings.HasSuffix(errs, c.Stderr) {
		return fmt.Errorf("kubectl printed %q and %q, the plugin %q and %q", c.Stdout, c.Stderr, out, errs)
	}
	if in, _ := os.ReadFile(filepath.Join(dir, "stdin")); string(in) != c.Stdin {
		return fmt.Errorf("kubectl was given %q to read, not %q", in, c.Stdin)
	}
	if status != c.Status {
		return fmt.Errorf("kubectl ended with %d, the plugin with %d", c.Status, status)
	}
	if clusters == "" {
		if !slices.Equal(got, expected) {
			return fmt.Errorf("the plugin runs kubectl with %q for %q", got, given)
		}
		return nil
	}
	if c.Command == "create" {
		rest, manager, times := without(got, "--field-manager", "")
		wantRest, _, _ := without(expected, "--field-manager", "")
		if times == 0 || manager != "dsm-cluster-"+clusters || !slices.Equal(rest, wantRest) {
			return fmt.Errorf("the plugin runs kubectl with %q for %q", got, given)
		}
		return nil
	}
	rest, selector, times := without(got, "--selector", "-l")
	wantRest, _, _ := without(expected, "--selector", "-l")
	if times == 0 || !slices.Equal(rest, wantRest) {
		return fmt.Errorf("the plugin runs kubectl with %q for %q", got, given)
	}
	own := labels.Everything()
	if hasSelector {
		if own, err = labels.Parse(ownSelector); err != nil {
			if _, err := labels.Parse(selector); err == nil {
				return fmt.Errorf("the plugin runs kubectl with %q for %q, and the selector was not valid", got, given)
			}
			return nil
		}
	}
	q, others, err := sentQuery(selector)
	if err != nil {
		return fmt.Errorf("the plugin runs kubectl with %q for %q: %w", got, given, err)
	}
	if q.Page != 0 || q.PageSize != 0 || q.Sort != "" || !sameSet(q.GetClusters(), list) {
		return fmt.Errorf("the plugin asks for %s for %q", short(q), given)
	}
	for _, cl := range append([]string{"c1", "elsewhere", ""}, list...) {
		if is, err := q.Match(map[string]string{"cluster": cl, "name": "x"}); err != nil || is != contains(list, cl) {
			return fmt.Errorf("the plugin asks for %s for %q, which says %v (%v) for the cluster %q", short(q), given, is, err, cl)
		}
	}
	for _, set := range allLabelSets {
		if others.Matches(labels.Set(set)) != own.Matches(labels.Set(set)) {
			return fmt.Errorf("the plugin asks with the selector %q for %q, which selects %v differently", selector, given, set)
		}
	}
	return nil
}

func classifyC25(c c25Case) (bool, []string) {
	labels := []string{"command " + c.Command}
	kinds := map[string]int{}
	for _, a := range append(append([]c25Arg{}, c.Before...), c.After...) {
		kinds[a.Kind]++
	}
	for k, n := range kinds {
		labels = append(labels, fmt.Sprintf("%s=%d", k, n))
	}
	if len(c.Tail) > 0 {
		labels = append(labels, "tail")
	}
	return (c.Command == "get" || c.Command == "create") && kinds["clusters"] > 0, labels
}

func init() {
	cl := func(v string) c25Arg { return c25Arg{Kind: "clusters", Tokens: []string{"--clusters", v}, Value: v} }
	word := func(w string) c25Arg { return c25Arg{Kind: "word", Tokens: []string{w}} }
	vk.Register(&vk.Property{
		ID: "C25",
		Setup: func(*vk.Env) error {
			if os.Getenv("CKV_BIN") == "" {
				return fmt.Errorf("the programs are not built")
			}
			return nil
		},
		Parts: []*vk.Part{
			vk.New(vk.Part{Name: "plugin", Quick: 3000, Thorough: 60000,
				Rule: "random kubectl command lines (subcommand, names, options in all their forms, 0-3 selectors and cluster options at any place, arguments after --) run through the built plugin with a kubectl that records its calls; non-trivial with get or create and a cluster option",
			}, vk.Def[c25Case]{Gen: genC25, Check: checkC25, Classify: classifyC25, Fixed: []c25Case{
				{Command: "get", Before: []c25Arg{cl("c1")}, After: []c25Arg{word("pods"), {Kind: "selector", Tokens: []string{"-l", "app=web"}, Value: "app=web"}}},
				{Command: "get", After: []c25Arg{word("pods"), cl("c1,"), {Kind: "selector", Tokens: []string{"--selector=app=web"}, Value: "app=web"}}},
				{Command: "get", After: []c25Arg{word("create"), cl("c1")}, Status: 3},
				{Command: "create", After: []c25Arg{word("job"), word("j"), cl("c1")}, Tail: []string{"--", "date"}},
			}}),
			vk.New(vk.Part{Name: "query tool", Quick: 1600, Thorough: 30000,
				Rule: "random flags in random order and form, with texts of any characters, given to the built query tool, whose output is decoded independently; non-trivial with at least two flags",
			}, vk.Def[c25Tool]{Gen: genC25Tool, Check: checkC25Tool, Classify: func(c c25Tool) (bool, []string) {
				l := []string{fmt.Sprintf("flags=%d", len(c.Flags))}
				for _, f := range c.Flags {
					l = append(l, f.Name)
				}
				return len(c.Flags) > 1, l
			}, Fixed: []c25Tool{
				{Flags: []c25Flag{{"c", "a b", "- "}, {"p", "1", "- "}}},
				{Flags: []c25Flag{{"search", "a?~", "- "}, {"c", "c1,c2", "- "}}},
			}}),
		},
		Assumptions: []string{"the cluster option is written --clusters followed by its value", "no option's value is get or create before the subcommand, and -l is not written behind other shorthands (-Al)", "selectors are made of the operators that metav1.LabelSelector has", "the search has no cluster condition of its own beside -c"},
	})
}

package vk

import (
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

var realOut = func() *os.File {
	// properties may silence file descriptor 1 (the proxy prints stack traces there)
	fd, err := syscall.Dup(1)
	if err != nil {
		return os.Stdout
	}
	syscall.CloseOnExec(fd)
	return os.NewFile(uintptr(fd), "stdout")
}()

func out() *os.File { return realOut }

func setRapid(n int, seed uint64) {
	if seed == 0 {
		seed = 1
	}
	set := func(k, v string) {
		if f := flag.Lookup("rapid." + k); f != nil {
			_ = f.Value.Set(v)
		}
	}
	set("checks", strconv.Itoa(n))
	set("seed", strconv.FormatUint(seed, 10))
	set("nofailfile", "true")
	set("shrinktime", "20s")
}

// Opts are the command line of a run.
type Opts struct {
	Verif   string // where evidence and replay files go
	Prop    string
	Replay  string
	Shards  int
	Worker  int // shard number when this is a worker, else -1
	WorkDir string
	Only    string // part filter, for development
	Scale   float64
	Self    []string // command that starts a worker
}

// Main parses the command line and runs; it returns the exit status.
func Main(args []string, self []string) int {
	fs := flag.NewFlagSet("ckv", flag.ContinueOnError)
	o := Opts{Self: self}
	fs.StringVar(&o.Verif, "verif", "/verif", "")
	fs.StringVar(&o.Prop, "property", "", "")
	fs.StringVar(&o.Replay, "replay", "", "")
	fs.StringVar(&o.Only, "part", "", "")
	fs.Float64Var(&o.Scale, "scale", 1, "")
	fs.IntVar(&o.Shards, "shards", 0, "")
	fs.IntVar(&o.Worker, "worker", -1, "")
	fs.StringVar(&o.WorkDir, "workdir", "", "")
	if err := fs.Parse(args); err != nil {
		return 2
	}
	p := registry[o.Prop]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", o.Prop)
		return 2
	}
	if o.Worker >= 0 {
		if o.Replay != "" {
			return replayMain(p, o)
		}
		return workerMain(p, o)
	}
	if o.WorkDir == "" {
		d, err := os.MkdirTemp("", "ckv-")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		defer os.RemoveAll(d)
		o.WorkDir = d
	}
	if o.Replay != "" {
		return replayParent(o)
	}
	return parentMain(p, o)
}

func tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func seed() int64 {
	n, err := strconv.ParseInt(strings.TrimSpace(os.Getenv("VERIF_SEED")), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

func (o Opts) inflight(i int) string { return filepath.Join(o.WorkDir, fmt.Sprintf("inflight.%d", i)) }
func (o Opts) result(i int) string   { return filepath.Join(o.WorkDir, fmt.Sprintf("result.%d", i)) }
func (o Opts) hang(i int) string     { return filepath.Join(o.WorkDir, fmt.Sprintf("hang.%d", i)) }
func (o Opts) stderr(i int) string   { return filepath.Join(o.WorkDir, fmt.Sprintf("stderr.%d", i)) }

func (o Opts) caps() (time.Duration, time.Duration) {
	if tier() == "thorough" {
		return 20 * time.Minute, 40 * time.Minute
	}
	return 6 * time.Minute, 13 * time.Minute
}

func newWorker(p *Property, o Opts, shard int) (*worker, error) {
	tmp := filepath.Join(o.WorkDir, fmt.Sprintf("tmp.%d", shard))
	if err := os.MkdirAll(tmp, 0o755); err != nil {
		return nil, err
	}
	w := &worker{env: &Env{Tier: tier(), Seed: seed(), Shard: shard, Tmp: tmp}, prop: p, hangFile: o.hang(shard)}
	f, err := os.Create(o.inflight(shard))
	if err != nil {
		return nil, err
	}
	w.inflight = f
	go w.watchdog()
	if p.Setup != nil {
		if err := p.Setup(w.env); err != nil {
			return nil, fmt.Errorf("setup: %w", err)
		}
	}
	return w, nil
}

const maxShards = 6

func (o Opts) shards() int {
	n := o.Shards
	if n == 0 {
		n = runtime.NumCPU() - 2
	}
	if n > maxShards {
		n = maxShards
	}
	if n < 1 {
		n = 1
	}
	return n
}

func workerMain(p *Property, o Opts) int {
	w, err := newWorker(p, o, o.Worker)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if p.Teardown != nil {
		defer p.Teardown(w.env)
	}
	soft, _ := o.caps()
	res := workerResult{}
	deadline := time.Now().Add(soft)
	for i, part := range p.Parts {
		if o.Only != "" && !strings.Contains(part.Name, o.Only) {
			continue
		}
		n := part.Quick
		if w.env.Tier == "thorough" {
			n = part.Thorough
		}
		n = int(float64(n) * o.Scale)
		sh := o.shards()
		if part.MaxShards > 0 && sh > part.MaxShards {
			sh = part.MaxShards
		}
		if o.Worker >= sh {
			continue
		}
		mine := n / sh
		if o.Worker < n%sh {
			mine++
		}
		s := uint64(w.env.Seed)*1000003 + uint64(o.Worker)*7919 + uint64(i)*104729 + 1
		st, fl := w.runPart(part, mine, s, deadline, o.Worker == 0)
		res.Parts = append(res.Parts, st)
		if fl != nil {
			res.Failure = fl
			break
		}
	}
	b, _ := json.Marshal(res)
	if err := os.WriteFile(o.result(o.Worker), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if res.Failure != nil {
		return 1
	}
	return 0
}

type outcome struct {
	code   int
	signal bool
	stderr string
}

func runWorker(o Opts, shard int, extra ...string) outcome {
	args := append([]string{}, o.Self[1:]...)
	args = append(args, "-property", o.Prop, "-worker", strconv.Itoa(shard), "-workdir", o.WorkDir,
		"-verif", o.Verif, "-shards", strconv.Itoa(o.shards()), "-scale", fmt.Sprint(o.Scale))
	if o.Only != "" {
		args = append(args, "-part", o.Only)
	}
	args = append(args, extra...)
	c := exec.Command(o.Self[0], args...)
	ef, err := os.Create(o.stderr(shard))
	if err != nil {
		return outcome{code: 2, stderr: err.Error()}
	}
	defer ef.Close()
	c.Stdout, c.Stderr = ef, ef
	c.Env = append(os.Environ(), "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66")
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	_, hard := o.caps()
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if err := c.Start(); err != nil {
		return outcome{code: 2, stderr: err.Error()}
	}
	timer := time.AfterFunc(hard, func() { _ = syscall.Kill(-c.Process.Pid, syscall.SIGKILL) })
	err = c.Wait()
	timer.Stop()
	_ = syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
	out := outcome{}
	if b, rerr := os.ReadFile(o.stderr(shard)); rerr == nil {
		if len(b) > 400000 {
			b = b[:400000]
		}
		out.stderr = string(b)
	}
	if err != nil {
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			out.code = ee.ExitCode()
			if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
				out.signal = true
			}
		} else {
			out.code = 2
		}
	}
	return out
}

func readInflight(path string) (string, []byte) {
	b, err := os.ReadFile(path)
	if err != nil {
		return "", nil
	}
	parts := bytes.SplitN(b, []byte("\n"), 3)
	if len(parts) != 3 {
		return "", nil
	}
	n, _ := strconv.Atoi(string(parts[1]))
	if n > len(parts[2]) {
		return "", nil
	}
	return string(parts[0]), parts[2][:n]
}

func (p *Property) part(name string) *Part {
	for _, q := range p.Parts {
		if q.Name == name {
			return q
		}
	}
	return nil
}

var ckubeFrame = regexp.MustCompile(`github\.com/DaoCloud/ckube`)

// crashBlame says whether a dead worker's output puts the blame on ckube.
func crashBlame(stderr string) string {
	for _, sec := range strings.Split(stderr, "==================") {
		if strings.Contains(sec, "WARNING: DATA RACE") && ckubeFrame.MatchString(sec) {
			return "data race:\n" + firstLines(sec, 60)
		}
	}
	i := strings.Index(stderr, "fatal error: ")
	j := strings.Index(stderr, "panic: ")
	if i < 0 || (j >= 0 && j < i) {
		i = j
	}
	if i >= 0 {
		sec := stderr[i:]
		// the first goroutine listed is the one that died
		blocks := strings.SplitN(sec, "\n\n", 3)
		head := sec
		if len(blocks) >= 2 {
			head = blocks[0] + "\n\n" + blocks[1]
		}
		if ckubeFrame.MatchString(head) {
			return firstLines(head, 60)
		}
	}
	return ""
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func parentMain(p *Property, o Opts) int {
	start := time.Now()
	if !runFindings(p, o) {
		return 1
	}
	n := 1
	for _, part := range p.Parts {
		m := o.shards()
		if part.MaxShards > 0 && m > part.MaxShards {
			m = part.MaxShards
		}
		if m > n {
			n = m
		}
	}
	outs := make([]outcome, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) { defer wg.Done(); outs[i] = runWorker(o, i) }(i)
	}
	wg.Wait()
	merged := map[string]*partStats{}
	var order []string
	var fl *failure
	code := 0
	for i := 0; i < n; i++ {
		var r workerResult
		if b, err := os.ReadFile(o.result(i)); err == nil {
			_ = json.Unmarshal(b, &r)
		}
		for _, st := range r.Parts {
			m := merged[st.Name]
			if m == nil {
				m = &partStats{Name: st.Name, Rule: st.Rule, Classes: map[string]int{}}
				merged[st.Name] = m
				order = append(order, st.Name)
			}
			m.Evaluations += st.Evaluations
			m.Regressions += st.Regressions
			m.NonTrivial = append(m.NonTrivial, st.NonTrivial...)
			for k, v := range st.Classes {
				m.Classes[k] += v
			}
			m.Samples = append(m.Samples, st.Samples...)
		}
		if r.Failure != nil && fl == nil {
			fl = r.Failure
		}
		switch {
		case outs[i].code == 0 || outs[i].code == 1 && r.Failure != nil:
		case fl != nil:
		default:
			if f := crashFailure(p, o, i, outs[i]); f != nil {
				fl = f
			} else if code == 0 {
				fmt.Fprintf(os.Stderr, "worker %d ended with status %d (signalled %v):\n%s\n", i, outs[i].code, outs[i].signal, firstLines(outs[i].stderr, 40))
				code = 2
			}
		}
	}
	if fl == nil && len(order) == 0 {
		code = 2
	}
	viol := 0
	if fl != nil {
		viol = 1
	}
	if err := writeEvidence(p, o, order, merged, viol, time.Since(start)); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if fl != nil {
		return report(o, fl)
	}
	if code == 0 {
		for _, name := range order {
			m := merged[name]
			fmt.Fprintf(out(), "%s/%s: %d cases, %d distinct non-trivial\n", p.ID, name, m.Evaluations, distinct(m.NonTrivial))
		}
	}
	return code
}

// crashFailure decides whether the death of a worker is a violation.
func crashFailure(p *Property, o Opts, shard int, out outcome) *failure {
	partName, cs := readInflight(o.inflight(shard))
	part := p.part(partName)
	if part == nil || cs == nil || out.code == 2 && !strings.Contains(out.stderr, "goroutine ") && !strings.Contains(out.stderr, "DATA RACE") {
		return nil
	}
	fl := &failure{Property: p.ID, Part: partName, Case: cs}
	if out.code != 97 {
		if blame := crashBlame(out.stderr); blame != "" {
			fl.Error = "the process died: " + blame
			fl.Crash = "crash"
			return fl
		}
	}
	if out.signal {
		return nil // killed from outside, or out of memory
	}
	// run the same case alone: the same death again is a violation
	rf := filepath.Join(o.WorkDir, "suspect.json")
	b, _ := json.Marshal(fl)
	if err := os.WriteFile(rf, b, 0o644); err != nil {
		return nil
	}
	sub := o
	sub.WorkDir = filepath.Join(o.WorkDir, fmt.Sprintf("re.%d", shard))
	_ = os.MkdirAll(sub.WorkDir, 0o755)
	again := runWorker(sub, 0, "-replay", rf)
	if again.code == 97 && out.code == 97 {
		hang, _ := os.ReadFile(sub.hang(0))
		fl.Error = "hang: the case did not end within " + part.CaseTimeout.String() + ", twice\n" + interestingStacks(string(hang))
		fl.Crash = "hang"
		return fl
	}
	if again.code != 0 && again.code != 97 && out.code != 97 && strings.Contains(again.stderr, "goroutine ") {
		fl.Error = "the process died, twice: " + firstLines(again.stderr, 60)
		fl.Crash = "crash"
		return fl
	}
	return nil
}

func interestingStacks(s string) string {
	var out []string
	for _, b := range strings.Split(s, "\n\n") {
		if ckubeFrame.MatchString(b) {
			out = append(out, firstLines(b, 24))
		}
		if len(out) == 6 {
			break
		}
	}
	return strings.Join(out, "\n\n")
}

func distinct(h []uint64) int {
	m := map[uint64]bool{}
	for _, x := range h {
		m[x] = true
	}
	return len(m)
}

func report(o Opts, fl *failure) int {
	dir := filepath.Join(o.Verif, "replay")
	_ = os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(fl, "", " ")
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%08x.json", fl.Property, fl.Part, uint32(hash(fl.Case))))
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Fprintf(out(), "part %s\n%s\n", fl.Part, firstLines(fl.Error, 60))
	c := string(fl.Case)
	if len(c) > 3000 {
		c = c[:3000] + "..."
	}
	fmt.Fprintf(out(), "case %s\n", c)
	fmt.Fprintf(out(), "VIOLATION property=%s replay=%s\n", fl.Property, path)
	return 1
}

func writeEvidence(p *Property, o Opts, order []string, merged map[string]*partStats, viol int, wall time.Duration) error {
	total, nt := 0, 0
	rules := []string{}
	samples := []any{}
	parts := map[string]any{}
	for _, name := range order {
		m := merged[name]
		total += m.Evaluations
		d := distinct(m.NonTrivial)
		nt += d
		rules = append(rules, name+": "+m.Rule)
		for i, s := range m.Samples {
			if i < 3 {
				samples = append(samples, map[string]any{"part": name, "case": s})
			}
		}
		keys := make([]string, 0, len(m.Classes))
		for k := range m.Classes {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		parts[name] = map[string]any{"cases": m.Evaluations, "distinct_cases_non_trivial": d, "classes": m.Classes, "fixed_regression_cases": m.Regressions}
	}
	ev := map[string]any{
		"property": p.ID,
		"tier":     tier(),
		"seed":     seed(),
		"level":    "exploration",
		"coverage": map[string]any{
			"evaluations":         total,
			"distinct_nontrivial": nt,
			"rule":                strings.Join(rules, " | "),
			"samples":             samples,
			"parts":               parts,
		},
		"assumptions": append([]string{}, p.Assumptions...),
		"wall_s":      wall.Seconds(),
		"violations":  viol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(o.Verif, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0o644)
}

// runFindings probes the recorded findings of a property; false means that one
// is there which known_findings.txt does not list.
func runFindings(p *Property, o Opts) bool {
	if len(p.Findings) == 0 {
		return true
	}
	known, _ := os.ReadFile(filepath.Join(o.Verif, "known_findings.txt"))
	ok := true
	env := &Env{Tier: tier(), Seed: seed(), Tmp: o.WorkDir}
	if p.Setup != nil {
		if err := p.Setup(env); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return true
		}
	}
	for _, f := range p.Findings {
		err := Guard(func() error { return f.Probe(env) })
		if err == nil {
			continue
		}
		listed := false
		for _, l := range strings.Split(string(known), "\n") {
			if strings.HasPrefix(l, "known: property="+p.ID+" key="+f.Key+" ") {
				listed = true
			}
		}
		if listed {
			fmt.Fprintf(out(), "KNOWN-FINDING: property=%s key=%s %s\n", p.ID, f.Key, f.What)
			continue
		}
		ok = false
		b, _ := json.Marshal(map[string]string{"finding": f.Key})
		report(o, &failure{Property: p.ID, Part: "finding-" + f.Key, Error: err.Error(), Case: b})
	}
	return ok
}

// replayParent re-runs a recorded case in a process of its own.
func replayParent(o Opts) int {
	res := runWorker(o, 0, "-replay", o.Replay)
	fmt.Fprint(out(), res.stderr)
	switch {
	case res.code == 0 || res.code == 1:
		return res.code
	case res.code == 97:
		fmt.Fprintf(out(), "the case did not end\nVIOLATION property=%s replay=%s\n", o.Prop, o.Replay)
		return 1
	case !res.signal && crashBlame(res.stderr) != "":
		fmt.Fprintf(out(), "VIOLATION property=%s replay=%s\n", o.Prop, o.Replay)
		return 1
	}
	return 2
}

func replayMain(p *Property, o Opts) int {
	b, err := os.ReadFile(o.Replay)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var fl failure
	if err := json.Unmarshal(b, &fl); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	shard := o.Worker
	if shard < 0 {
		shard = 0
	}
	w, err := newWorker(p, o, shard)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if p.Teardown != nil {
		defer p.Teardown(w.env)
	}
	if strings.HasPrefix(fl.Part, "finding-") {
		for _, f := range p.Findings {
			if "finding-"+f.Key == fl.Part {
				if err := Guard(func() error { return f.Probe(w.env) }); err != nil {
					fmt.Fprintln(out(), err)
					fmt.Fprintf(out(), "VIOLATION property=%s replay=%s\n", p.ID, o.Replay)
					return 1
				}
			}
		}
		return 0
	}
	part := p.part(fl.Part)
	if part == nil {
		fmt.Fprintf(os.Stderr, "no part %q\n", fl.Part)
		return 2
	}
	c, err := part.decode(fl.Case)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for i := 0; i < part.ReplayRuns; i++ {
		if err := w.runCase(part, c); err != nil {
			fmt.Fprintln(out(), firstLines(err.Error(), 60))
			fmt.Fprintf(out(), "VIOLATION property=%s replay=%s\n", p.ID, o.Replay)
			return 1
		}
	}
	fmt.Fprintln(out(), "the case passes")
	return 0
}

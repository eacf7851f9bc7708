package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"syscall"
	"time"

	"ckverif/vk"

	"github.com/DaoCloud/ckube/utils"
	"pgregory.net/rapid"
)

type fsOp struct {
	File  int    `json:"file"`
	Kind  string `json:"kind"`
	Gap   int    `json:"gap,omitempty"`   // ms between the two halves of a replacement
	Pause int    `json:"pause,omitempty"` // ms before
	Parts int    `json:"parts,omitempty"` // writes of an in-place change
}

// A phase is a burst of replacements, each within the first second, then changes in place; then
// everything must have been announced.
type fsPhase struct {
	Burst []fsOp `json:"burst,omitempty"`
	Then  []fsOp `json:"then,omitempty"`
	Gone  []int  `json:"gone,omitempty"` // files removed for good, at the end of the burst
}

type c24Case struct {
	Mounted []bool    `json:"mounted"` // per file: as Kubernetes mounts a ConfigMap
	Phases  []fsPhase `json:"phases"`
	Slow    int       `json:"slow"`            // ms the reader takes for an event
	First   int       `json:"first,omitempty"` // ms it takes for the first one
}

var fsReplace = []string{"remove", "remove", "rename away", "rename over", "remove twice"}
var fsInPlace = []string{"write", "write", "append", "truncate", "chmod", "touch"}

func genC24(t *rapid.T) c24Case {
	c := c24Case{Slow: pick(t, "slow", 0, 0, 5, 20)}
	n := intIn(t, "files", 1, 3)
	if n > 1 && chance(t, "busy", 50) {
		c.First = pick(t, "first", 1200, 2500, 5500)
	}
	for i := 0; i < n; i++ {
		c.Mounted = append(c.Mounted, chance(t, "mounted", 30))
	}
	gone := map[int]bool{}
	op := func(kinds []string) (fsOp, bool) {
		o := fsOp{File: intIn(t, "file", 0, n-1), Kind: pickFrom(t, "kind", kinds), Pause: pick(t, "pause", 0, 0, 0, 1, 10, 100), Parts: intIn(t, "parts", 1, 3)}
		if c.Mounted[o.File] && len(kinds) == len(fsReplace) {
			o.Kind = "swap"
		}
		return o, !gone[o.File]
	}
	for i := intIn(t, "phases", 1, 3); i > 0; i-- {
		p := fsPhase{}
		total := 0
		for j := intIn(t, "burst", 0, 3); j > 0; j-- {
			o, ok := op(fsReplace)
			o.Gap = pick(t, "gap", 0, 0, 1, 50, 200, 300)
			if o.Kind == "remove twice" {
				total += o.Gap
			}
			total += o.Gap + o.Pause
			if ok && total <= 900 {
				p.Burst = append(p.Burst, o)
			}
		}
		if n > 1 && chance(t, "gone", 15) {
			f := intIn(t, "gone file", 0, n-1)
			if !gone[f] && !c.Mounted[f] {
				gone[f] = true
				p.Gone = append(p.Gone, f)
			}
		}
		for j := intIn(t, "then", 0, 4); j > 0; j-- {
			o, ok := op(fsInPlace)
			if chance(t, "later", 25) {
				o.Pause = pick(t, "long pause", 500, 1000, 1500, 2000, 2500)
			}
			if ok {
				p.Then = append(p.Then, o)
			}
		}
		c.Phases = append(c.Phases, p)
	}
	return c
}

type fsRun struct {
	dir   string
	paths []string
	final []string
	n     int
	swaps int
	mu    sync.Mutex
	read  map[string]string
	errs  map[string]int
	log   []string
	t0    time.Time
}

func (r *fsRun) content() string {
	r.n++
	return fmt.Sprintf("content %d\n", r.n)
}

func (r *fsRun) note(format string, a ...interface{}) {
	r.mu.Lock()
	r.log = append(r.log, fmt.Sprintf("%6.0fms ", float64(time.Since(r.t0))/1e6)+fmt.Sprintf(format, a...))
	r.mu.Unlock()
}

func must(err error) {
	if err != nil {
		panic("the driver failed: " + err.Error())
	}
}

func (r *fsRun) mount(i int, text string) {
	base := filepath.Dir(r.paths[i])
	r.swaps++
	v := fmt.Sprintf("..v%d", r.swaps)
	must(os.Mkdir(filepath.Join(base, v), 0o755))
	must(os.WriteFile(filepath.Join(base, v, "file"), []byte(text), 0o644))
	must(os.Symlink(v, filepath.Join(base, "..data_tmp")))
	must(os.Rename(filepath.Join(base, "..data_tmp"), filepath.Join(base, "..data")))
}

func (r *fsRun) do(o fsOp) {
	if o.Pause > 0 {
		time.Sleep(time.Duration(o.Pause) * time.Millisecond)
	}
	gap := time.Duration(o.Gap) * time.Millisecond
	p := r.paths[o.File]
	r.note("%s %s", o.Kind, filepath.Base(filepath.Dir(p)))
	switch o.Kind {
	case "remove", "remove twice":
		must(os.Remove(p))
		time.Sleep(gap)
		r.final[o.File] = r.content()
		must(os.WriteFile(p, []byte(r.final[o.File]), 0o644))
		if o.Kind == "remove twice" {
			must(os.Remove(p))
			time.Sleep(gap)
			r.final[o.File] = r.content()
			must(os.WriteFile(p, []byte(r.final[o.File]), 0o644))
		}
	case "rename away":
		r.swaps++
		must(os.Rename(p, fmt.Sprintf("%s.old%d", p, r.swaps)))
		time.Sleep(gap)
		r.final[o.File] = r.content()
		must(os.WriteFile(p, []byte(r.final[o.File]), 0o644))
	case "rename over":
		text := r.content()
		must(os.WriteFile(p+".new", []byte(text), 0o644))
		time.Sleep(gap)
		must(os.Rename(p+".new", p))
		r.final[o.File] = text
	case "swap":
		old, err := os.Readlink(filepath.Join(filepath.Dir(p), "..data"))
		must(err)
		text := r.content()
		r.mount(o.File, text)
		r.final[o.File] = text
		time.Sleep(gap)
		must(os.RemoveAll(filepath.Join(filepath.Dir(p), old)))
	case "write", "append", "truncate":
		flags := os.O_WRONLY
		text := ""
		switch o.Kind {
		case "write":
			flags |= os.O_TRUNC
		case "append":
			flags |= os.O_APPEND
			text = r.final[o.File]
		case "truncate":
			must(os.Truncate(p, 0))
			r.final[o.File] = ""
			return
		}
		f, err := os.OpenFile(p, flags, 0o644)
		must(err)
		for i := 0; i < o.Parts; i++ {
			part := r.content()
			text += part
			_, err := f.WriteString(part)
			must(err)
		}
		must(f.Close())
		r.final[o.File] = text
	case "chmod":
		must(os.Chmod(p, 0o600+os.FileMode(r.n%2)*0o44))
	case "touch":
		now := time.Now()
		must(os.Chtimes(p, now, now))
	}
}

func runC24(c c24Case) error {
	dir, err := os.MkdirTemp("", "ckv-fs-")
	must(err)
	defer os.RemoveAll(dir)
	r := &fsRun{dir: dir, read: map[string]string{}, errs: map[string]int{}, t0: time.Now()}
	for i := range c.Mounted {
		base := filepath.Join(dir, fmt.Sprint(i))
		must(os.Mkdir(base, 0o755))
		p := filepath.Join(base, "file")
		r.paths = append(r.paths, p)
		r.final = append(r.final, r.content())
		if c.Mounted[i] {
			r.mount(i, r.final[i])
			must(os.Symlink("..data/file", p))
		} else {
			must(os.WriteFile(p, []byte(r.final[i]), 0o644))
		}
		r.read[p] = r.final[i]
	}
	w, err := utils.NewFixedFileWatcher(r.paths)
	for i := 0; i < 100 && errors.Is(err, syscall.EMFILE); i++ {
		// the machine has only so many inotify instances, and other scenarios hold some
		time.Sleep(200 * time.Millisecond)
		w, err = utils.NewFixedFileWatcher(r.paths)
	}
	if errors.Is(err, syscall.EMFILE) {
		return nil
	}
	if err != nil {
		return fmt.Errorf("NewFixedFileWatcher: %v", err)
	}
	if err := w.Start(); errors.Is(err, syscall.EMFILE) {
		return nil
	} else if err != nil {
		return fmt.Errorf("Start: %v", err)
	}
	events := w.Events()
	go func() {
		for n := 0; ; n++ {
			e, open := <-events
			if !open {
				return
			}
			if n == 0 {
				time.Sleep(time.Duration(c.First) * time.Millisecond)
			}
			time.Sleep(time.Duration(c.Slow) * time.Millisecond)
			name := filepath.Clean(e.Name)
			b, err := os.ReadFile(name)
			text := string(b)
			if err != nil {
				text = "<" + err.Error() + ">"
			}
			r.note("event %d for %s, which reads %q", e.Type, name, text)
			r.mu.Lock()
			r.read[name] = text
			if e.Type == utils.EventTypeError {
				r.errs[name]++
			}
			r.mu.Unlock()
		}
	}()
	gone := map[int]bool{}
	for pi, p := range c.Phases {
		start := time.Now()
		for _, o := range p.Burst {
			r.do(o)
		}
		for _, f := range p.Gone {
			gone[f] = true
			r.note("remove %d for good", f)
			must(os.Remove(r.paths[f]))
		}
		if time.Since(start) > 1700*time.Millisecond {
			return nil // too slow to say anything: a replacement may not have been within the grace period
		}
		for _, o := range p.Then {
			r.do(o)
		}
		windows := len(p.Burst) + len(p.Gone)
		for _, o := range p.Burst {
			if o.Kind == "remove twice" {
				windows++
			}
		}
		limit := time.Now().Add(time.Duration(windows)*2500*time.Millisecond + 8*time.Second + time.Duration(c.First)*time.Millisecond)
		for {
			missing := ""
			r.mu.Lock()
			for i, path := range r.paths {
				if gone[i] {
					if r.errs[path] == 0 {
						missing = fmt.Sprintf("file %d is gone, but no error event names it", i)
					}
				} else if r.read[path] != r.final[i] {
					missing = fmt.Sprintf("file %d holds %q, but at its last event it held %q: no event followed the last change", i, r.final[i], r.read[path])
				}
			}
			r.mu.Unlock()
			if missing == "" {
				break
			}
			if time.Now().After(limit) {
				r.mu.Lock()
				defer r.mu.Unlock()
				return fmt.Errorf("phase %d: %s; what happened: %q", pi+1, missing, r.log)
			}
			time.Sleep(10 * time.Millisecond)
		}
		if windows > 0 && pi+1 < len(c.Phases) {
			if d := time.Until(start.Add(time.Duration(windows)*2*time.Second + time.Second + time.Duration(c.First)*time.Millisecond)); d > 0 {
				time.Sleep(d)
			}
		}
	}
	return nil
}

func classifyC24(c c24Case) (bool, []string) {
	labels := []string{fmt.Sprintf("files=%d", len(c.Mounted)), fmt.Sprintf("phases=%d", len(c.Phases))}
	replaced, changes, again := false, 0, false
	for _, p := range c.Phases {
		if replaced && len(p.Burst)+len(p.Then) > 0 {
			again = true
		}
		for _, o := range p.Burst {
			replaced = true
			changes++
			labels = append(labels, o.Kind)
		}
		for _, o := range p.Then {
			if replaced {
				again = true
			}
			changes++
			labels = append(labels, o.Kind)
		}
		if len(p.Gone) > 0 {
			labels = append(labels, "gone for good")
		}
	}
	if again {
		labels = append(labels, "changes after a replacement")
	}
	return again || changes > 3, labels
}

func shrinkC24(c c24Case) []c24Case {
	var out []c24Case
	clone := func() c24Case {
		b, _ := json.Marshal(c)
		var d c24Case
		_ = json.Unmarshal(b, &d)
		return d
	}
	for i := range c.Phases {
		if len(c.Phases) > 1 {
			d := clone()
			d.Phases = append(d.Phases[:i], d.Phases[i+1:]...)
			out = append(out, d)
		}
	}
	for i, p := range c.Phases {
		for j := range p.Burst {
			d := clone()
			d.Phases[i].Burst = append(d.Phases[i].Burst[:j], d.Phases[i].Burst[j+1:]...)
			out = append(out, d)
		}
		for j := range p.Then {
			d := clone()
			d.Phases[i].Then = append(d.Phases[i].Then[:j], d.Phases[i].Then[j+1:]...)
			out = append(out, d)
		}
		if len(p.Gone) > 0 {
			d := clone()
			d.Phases[i].Gone = nil
			out = append(out, d)
		}
	}
	if c.Slow > 0 {
		d := clone()
		d.Slow = 0
		out = append(out, d)
	}
	return out
}

func init() {
	helpers["c24"] = func(b []byte) error {
		var c c24Case
		if err := json.Unmarshal(b, &c); err != nil {
			return err
		}
		return runC24(c)
	}
	vk.Register(&vk.Property{
		ID: "C24",
		Parts: []*vk.Part{vk.NewBatch(vk.Part{
			Name:  "changes",
			Rule:  "1-3 watched files (plain, or mounted as Kubernetes mounts a ConfigMap) over 1-3 phases: 0-3 replacements (removed and written again, renamed away, renamed over, removed twice, mounted anew), at most one file removed for good, then 0-4 changes in place at up to 2.5 s distance; after every phase a reader that rereads at every event, and may take seconds for the first one, must hold every file's content; non-trivial when changes follow a replacement, or with more than three changes",
			Quick: 80, Thorough: 2000, MaxShards: 5,
		}, vk.BatchDef[c24Case]{Gen: genC24, Classify: classifyC24, Shrink: shrinkC24, Size: 8,
			CheckAll: func(_ *vk.Env, l []c24Case) []error { return inHelpers("c24", l, 2*time.Minute) },
			Fixed: []c24Case{
				{Mounted: []bool{false}, Phases: []fsPhase{{Burst: []fsOp{{Kind: "rename away"}}}, {Then: []fsOp{{Kind: "write", Parts: 1}}}}},
				{Mounted: []bool{true}, Phases: []fsPhase{{Burst: []fsOp{{Kind: "swap"}}}, {Burst: []fsOp{{Kind: "swap"}}}, {Then: []fsOp{{Kind: "write", Parts: 1}}}}},
				{Mounted: []bool{false, false}, Phases: []fsPhase{{Gone: []int{0}}, {Then: []fsOp{{File: 1, Kind: "write", Parts: 1}}}}},
			}})},
		Assumptions: []string{"a replacement is complete within 1.7 s of the first removal of its burst, so that it lies within the grace period of two seconds whichever removal the watcher handles first",
			"a file that stayed away past the grace period is not changed again", "a failing scenario counts when it fails again in one of several copies run side by side"},
	})
}

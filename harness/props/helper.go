package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"

	"ckverif/vk"
)

// A helper is this program again, deciding one scenario in a process of its own.

var helpers = map[string]func([]byte) error{}

// Helper runs the named helper on what comes from standard input.
func Helper(name string) int {
	in, err := io.ReadAll(os.Stdin)
	if err != nil || helpers[name] == nil {
		fmt.Fprintln(os.Stderr, "no such helper:", name, err)
		return 2
	}
	text := ""
	if err := vk.Guard(func() error { return helpers[name](in) }); err != nil {
		text = err.Error()
	}
	fmt.Fprintf(os.Stderr, "CKV-VERDICT %q\n", text)
	return 0
}

// inHelpers decides every scenario in a helper, all at once.
func inHelpers[S any](name string, l []S, limit time.Duration) []error {
	errs := make([]error, len(l))
	var wg sync.WaitGroup
	for i := range l {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			errs[i] = inHelper(name, l[i], limit)
		}(i)
	}
	wg.Wait()
	return errs
}

func inHelper(name string, s interface{}, limit time.Duration) error {
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	c := exec.Command(exe)
	c.Env = append(os.Environ(), "CKV_HELPER="+name, "GOTRACEBACK=all")
	c.Stdin = bytes.NewReader(b)
	var text bytes.Buffer
	c.Stderr = &text
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := c.Start(); err != nil {
		panic(fmt.Sprintf("helper: %v", err))
	}
	timer := time.AfterFunc(limit, func() { _ = syscall.Kill(-c.Process.Pid, syscall.SIGQUIT) })
	err = c.Wait()
	expired := !timer.Stop()
	_ = syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
	out := text.String()
	if i := strings.LastIndex(out, "CKV-VERDICT "); i >= 0 && !expired {
		v := ""
		if _, err := fmt.Sscanf(out[i:], "CKV-VERDICT %q", &v); err == nil {
			if v == "" {
				return nil
			}
			return fmt.Errorf("%s", v)
		}
	}
	if len(out) > 6000 {
		out = out[:6000]
	}
	if expired {
		return fmt.Errorf("the scenario did not end within %v:\n%s", limit, out)
	}
	if strings.Contains(out, "github.com/DaoCloud/ckube") {
		return fmt.Errorf("the process died (%v):\n%s", err, out)
	}
	fmt.Fprintf(os.Stderr, "helper failed: %v\n%s\n", err, out)
	os.Exit(2)
	return nil
}

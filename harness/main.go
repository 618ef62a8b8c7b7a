// Command monitor runs the real code under generated workloads and judges what it observes.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"verif/harness/internal/mon"
)

// checks holds one entry per property.
var checks = map[string]func(*mon.Run){}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: monitor PROPERTY | monitor child MODE ARGS...")
		os.Exit(2)
	}
	if os.Args[1] == "child" {
		childMain(os.Args[2:])

		return
	}
	prop := os.Args[1]
	check, ok := checks[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		os.Exit(2)
	}
	if os.Getenv("MON_WORKER") == "" {
		supervise(prop)
	}
	r := mon.NewRun(prop)
	r.Watch(60*time.Second, 12<<30)
	check(r)
	r.Finish()
}

var frame = regexp.MustCompile(`(?m)^` + regexp.QuoteMeta(mon.Lib) + `[/.]`)

// supervise runs the check in a process of its own: a fatal error of the runtime (concurrent map writes, stack
// overflow, deadlock) ends that process without a verdict, and is judged here from what it left on stderr.
func supervise(prop string) {
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	cmd.Env = append(os.Environ(), "MON_WORKER=1")
	cmd.Stdout = os.Stdout
	errs := new(bytes.Buffer)
	cmd.Stderr = io.MultiWriter(errs, os.Stderr)
	err := cmd.Run()
	code := cmd.ProcessState.ExitCode()
	if err == nil || code == 1 || code == 3 {
		os.Exit(code)
	}
	out := errs.String()
	if (strings.Contains(out, "fatal error: ") || strings.Contains(out, "panic: ")) && frame.MatchString(out) &&
		!strings.Contains(out, "out of memory") {
		dir := os.Getenv("VERIF_DIR")
		if dir == "" {
			dir = "/verif"
		}
		path := filepath.Join(dir, "evidence", "replay", prop+"-fatal.json")
		_ = os.MkdirAll(filepath.Dir(path), 0o755)
		if len(out) > 20000 {
			out = out[:20000]
		}
		b, _ := json.MarshalIndent(mon.Violation{Property: prop, Message: out,
			How: "bash " + dir + "/run.sh " + prop + " (with the same VERIF_SEED and VERIF_TIER)"}, "", "  ")
		_ = os.WriteFile(path, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n  the process under test died: %s\n", prop, path, firstLine(out))
		r := mon.NewRun(prop)
		r.CrashEvidence(out)
		os.Exit(1)
	}
	fmt.Printf("INCONCLUSIVE property=%s the worker ended with %v\n", prop, err)
	os.Exit(3)
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "fatal error: ") || strings.Contains(l, "panic: ") {
			return l
		}
	}

	return ""
}

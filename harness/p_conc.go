package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"

	"verif/harness/internal/mon"
)

func init() {
	checks["C01"] = func(r *mon.Run) { checkConcurrent(r, "width") }
	checks["C02"] = func(r *mon.Run) { checkConcurrent(r, "hyphen") }
	checks["C03"] = func(r *mon.Run) { checkConcurrent(r, "text", "lines") }
	checks["C04"] = func(r *mon.Run) { checkConcurrent(r, "io") }
}

var concRules = map[string]string{
	"width":  "each run is a fresh process where 2-16 goroutines measure text at once, as the first thing the process asks from the package, then 300 times more (default and East Asian modes); oracle: the Unicode data, and the race detector",
	"hyphen": "each run is a fresh process where 2-16 goroutines build hyphenators at once (same or different dictionaries, by tag or by name), then break words with their own, with each other's, and with new ones; oracle: the reference Liang algorithm, and the race detector",
	"text":   "each run is a fresh process where 2-16 goroutines strip escape sequences and split words, with shared splitters, over shared inputs; oracle: what each call yields alone, and the race detector",
	"io":     "each run is a fresh process where 2-16 goroutines read, write and render runes, each with its own readers, writers, attributes and states, over shared runes, and iterate over a shared state; oracle: what each yields alone, and the race detector",
	"lines":  "each run is a fresh process where 2-16 goroutines set paragraphs, each with its own line breakers, over shared tokens and hyphenators; oracle: what each yields alone, and the race detector",
}

// checkConcurrent runs child processes, most of them under the race detector.
func checkConcurrent(r *mon.Run, modes ...string) {
	race := os.Getenv("MON_RACE_BIN")
	if race == "" {
		r.Broken("MON_RACE_BIN is not set")
	}
	rule := ""
	for _, mode := range modes {
		rule += concRules[mode] + "; "
	}
	r.Rule(rule + "the number of processors (1-16) and delays before the first calls vary; a deadlock is a state where every goroutine waits for another; " +
		"non-trivial: a run in which at least two first calls overlap, known by the order in which they begin and return")
	r.Assume("the race detector reports the races of the executions it observes, not of those that were possible")
	for _, mode := range modes {
		mode := mode
		n := r.N(80, 1500)
		// four children at a time: they have threads of their own
		slots := make(chan struct{}, 4)
		var wg sync.WaitGroup
		r.Serial(mode, n, func(c *mon.Case) {
			slots <- struct{}{}
			wg.Add(1)
			go func() {
				defer func() {
					<-slots
					wg.Done()
				}()
				c.Guard(func() { oneChild(c, race, mode) })
			}()
		})
		wg.Wait()
	}
	r.Require("calls", 1000)
}

func oneChild(c *mon.Case, race, mode string) {
	bin, detector := race, true
	if c.Index%4 == 3 {
		bin, detector = os.Args[0], false
	}
	seed := fmt.Sprint(c.Seed*1000000 + int64(c.Index))
	c.Input("child %s %s (race detector: %t)", mode, seed, detector)
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "child", mode, seed)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all", "VERIF_REPLAY=")
	out, errs := new(bytes.Buffer), new(bytes.Buffer)
	cmd.Stdout, cmd.Stderr = out, errs
	err := c.RunChild(cmd)
	c.Count("processes", 1)
	if detector {
		c.Count("processes under the race detector", 1)
	}
	if err != nil {
		text := errs.String()
		if ctx.Err() != nil {
			c.Broken("child %s %s did not end in time", mode, seed)
		}
		lib := frame.MatchString(strings.ReplaceAll(text, "  "+mon.Lib, mon.Lib))
		if len(text) > 6000 {
			text = text[:6000]
		}
		switch {
		case strings.Contains(text, "out of memory") || strings.Contains(text, "cannot allocate"):
			c.Broken("child %s %s: %v\n%s", mode, seed, err, text)
		case strings.Contains(text, "WARNING: DATA RACE") && lib:
			c.Fail("data race:\n%s", text)
		case (strings.Contains(text, "fatal error: ") || strings.Contains(text, "panic: ")) && lib:
			c.Fail("the process dies:\n%s", text)
		default:
			c.Broken("child %s %s: %v\n%s", mode, seed, err, text)
		}
	}
	var rep childReport
	if err := json.Unmarshal(out.Bytes(), &rep); err != nil {
		c.Broken("child %s %s: %v in %q", mode, seed, err, out.String())
	}
	if rep.Mismatch != "" {
		c.Fail("%s", rep.Mismatch)
	}
	c.Run.Eval(rep.Evals)
	c.Count("calls", rep.Evals)
	c.Count("goroutines", rep.Workers)
	c.Count("pairs of overlapping first calls", rep.Overlaps)
	if rep.Overlaps > 0 {
		c.Nontrivial(mode + rep.Order)
	}
	if c.Index < 6 {
		c.Sample("%s: %d goroutines, first calls %s", mode, rep.Workers, rep.Order)
	}
}

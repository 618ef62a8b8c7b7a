package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"io/fs"
	"log"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/fredbi/go-typeset/attributes"
	"github.com/fredbi/go-typeset/linebreak"
	"github.com/fredbi/go-typeset/terminal/ansi"
	"github.com/fredbi/go-typeset/terminal/runes"
	"github.com/fredbi/go-typeset/terminal/runes/runesio"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"github.com/fredbi/go-typeset/wordbreak/punctuator"
	"github.com/fredbi/go-typeset/wordbreak/tokenizer"

	"verif/harness/internal/mon"
)

func init() { checks["E01"] = checkEnvironment }

// childEnv uses all the parts of the library, and tells the outcomes on file descriptor 3.
func childEnv(seed string) {
	h := fnv.New64a()
	_, _ = h.Write([]byte("env" + seed))
	rng := rand.New(rand.NewSource(int64(h.Sum64())))
	var out []string
	state := func() string {
		dir, err := os.Getwd()
		var open []string // files and sockets, but for those of the runtime
		fds, _ := os.ReadDir("/proc/self/fd")
		for _, fd := range fds {
			to, err := os.Readlink("/proc/self/fd/" + fd.Name())
			if err == nil && !strings.HasPrefix(to, "/proc/") && !strings.HasPrefix(to, "/sys/") && !strings.HasPrefix(to, "anon_inode:") {
				open = append(open, fd.Name()+"="+to)
			}
		}

		var ignored []os.Signal
		for sig := syscall.Signal(1); sig < 32; sig++ {
			if signal.Ignored(sig) {
				ignored = append(ignored, sig)
			}
		}
		var mask syscall.Rlimit
		_ = syscall.Getrlimit(syscall.RLIMIT_NOFILE, &mask)

		return fmt.Sprint(os.Environ(), dir, err, open, os.Args, ignored, mask, runtime.GOMAXPROCS(0), debug.SetMemoryLimit(-1), log.Flags(), log.Prefix(), log.Writer() == os.Stderr)
	}
	out = append(out, fmt.Sprint(sortedEnv(os.Environ())))
	flag.VisitAll(func(f *flag.Flag) { fmt.Printf("the flag %s is defined", f.Name) })
	before := state()
	tell := func(format string, args ...any) { out = append(out, fmt.Sprintf(format, args...)) }
	for i := 0; i < 60; i++ {
		in := anyRunes(rng, 20, true)
		if i%3 == 0 {
			in = []rune(pick(rng, []string{"\u00b1\u2460\u00a7", "\u4e00\uff21", "\u2764\ufe0f\U0001f1eb\U0001f1f7", "\u0301e\u200b", "\u2e3a"}))
		}
		tell("Widths of %s: %d", q(in), runes.Widths(in))
		tell("StringWidth of %s: %d", q(in), runes.StringWidth(string(in)))
		m := pick(rng, widthModes())
		tell("Widths of %s with %s: %d", q(in), m, runes.Widths(in, m.opts()...))
		tell("IsAmbiguous of %s: %t", q(in), len(in) > 0 && runes.IsAmbiguous(in[0]))
		tell("tokens of %s: %s", q(in), qq(tokenizer.New().BreakWord(in)))
		tell("parts of %s: %s", q(in), qq(punctuator.New().BreakWord(in)))
		tell("SplitWord of %s: %s", q(in), qq(hyphenator.SplitWord(in)))
		esc := hostileANSI(rng, 30)
		tell("StripToken of %s: %s", q(esc), showTokens(ansi.StripToken(esc)))
		b := new(bytes.Buffer)
		n, err := runesio.NewWriter(b).WriteRunes(in)
		tell("WriteRunes of %s: %d %v %+q", q(in), n, err, b.String())
		op := ioRead(in, rand.New(rand.NewSource(int64(i))))
		tell("reading %s: %s", q(in), op)
	}
	for i := 0; i < 12; i++ { // large ones
		in := anyRunes(rng, 1<<(8+i%8), true)
		if i%3 == 0 {
			in = anyRunes(rng, 1<<(10+rng.Intn(6)), false)
		}
		digest := func(what string, outcome any) {
			h := fnv.New64a()
			fmt.Fprint(h, outcome)
			tell("%s of %d runes: %x", what, len(in), h.Sum64())
		}
		m := pick(rng, widthModes())
		digest("Widths", []int{runes.Widths(in), runes.StringWidth(string(in)), runes.Widths(in, m.opts()...)})
		digest("tokens", qq(tokenizer.New().BreakWord(in)))
		digest("parts", qq(punctuator.New().BreakWord(in)))
		digest("SplitWord", qq(hyphenator.SplitWord(in)))
		digest("hyphenation", qq(hyphenator.New().BreakWord(first(in, 3000))))
		esc := hostileANSI(rng, len(in))
		digest("StripToken", showTokens(ansi.StripToken(esc)))
		b := new(bytes.Buffer)
		n, err := runesio.NewWriter(b).WriteRunes(in)
		digest("WriteRunes", fmt.Sprint(n, err, b.String()))
		p := randPara(rng, 1+len(first(in, 30000))/40)
		lines, err := linebreak.New(p.conf.opts()...).LeftAlignUniform(p.tokens, p.width)
		digest("lines", fmt.Sprintf("%q %v", lines, err))
	}
	words := []string{"hyphenation", "table", "Donaudampfschiff", "anticonstitutionnellement", "ferrocarril", "labour", "project", "a\u00e9roport", "m\u00fcller"}
	for _, w := range words {
		tell("the default hyphenator on %s: %s", w, qq(hyphenator.New().BreakWordString(w)))
		for _, l := range []string{"en-US", "en-GB", "fr", "de", "es", "it", "ja", "zz", "", "C", "en_GB"} {
			tell("hyphenator %q on %s: %s", l, w, qq(hyphenator.New(hyphenator.WithLanguage(l)).BreakWordString(w)))
		}
	}
	files, err := hyphenator.SupportedPatterns()
	tell("SupportedPatterns: %q %v", files, err)
	for _, f := range append(files, "none.tex", "", "hyph-xx.tex", "languages", "../languages/hyph-fr.tex", "/etc/hostname") {
		if d, err := hyphenator.LoadPatterns(f); err != nil {
			tell("LoadPatterns(%q) fails", f)
		} else {
			tell("LoadPatterns(%q): %s", f, d)
		}
	}
	for i := 0; i < 150; i++ {
		p := randPara(rng, 15)
		for t := range p.tokens {
			if rng.Intn(8) == 0 {
				p.tokens[t] = string(seq(rng, kStart)) + p.tokens[t]
			}
			if rng.Intn(8) == 0 {
				p.tokens[t] += string(seq(rng, kStop))
			}
		}
		opts := p.conf.opts()
		if i%3 == 0 {
			opts = nil
		}
		if i%10 == 0 {
			p.width = pick(rng, []float64{0, -1, 1, 80})
		}
		lines, err := linebreak.New(opts...).LeftAlignUniform(p.tokens, p.width)
		tell("%s (%d options): %+q %v", p, len(opts), lines, err)
		items := randStream(rng, 8, false, true)
		for k := range items {
			items[k].own = false
		}
		st, all := build(items, nil)
		tell("rendering %s: %s", showItems(items), ioIterate(st, rand.New(rand.NewSource(int64(i)))))
		b := new(bytes.Buffer)
		attributes.Renderers(all).Render(runesio.NewWriter(b))
		tell("rendering all of %s: %+q", showItems(items), b.String())
	}
	_ = syscall.Access(usesEnd, 0)         // for who traces the system calls
	if after := state(); after != before { // nothing else runs here
		fmt.Printf("the process is changed: %s, it was %s", after, before)
	}
	report := os.NewFile(3, "report")
	if err := json.NewEncoder(report).Encode(out); err != nil {
		panic(err)
	}
	_ = report.Close()
	if info, err := os.Stdin.Stat(); err == nil && info.Mode()&os.ModeCharDevice == 0 {
		if in, err := io.ReadAll(os.Stdin); string(in) != unread {
			fmt.Printf("the standard input was read: %q is left, %v", in, err)
		}
	}
	for i, arg := range os.Args {
		if strings.HasPrefix(arg, "signal=") && i > 3 {
			var sig syscall.Signal
			_, _ = fmt.Sscanf(arg, "signal=%d", &sig)
			if !signal.Ignored(sig) {
				_ = syscall.Kill(os.Getpid(), sig)
				time.Sleep(10 * time.Second)
				fmt.Printf("the signal %d does not end the process", sig)
			}
		}
	}
}

// usesEnd is a file that is not there, asked for once the uses of the library are over.
const usesEnd = "/verif-uses-end"

// badCall tells whether a system call shows that something is done beyond computing.
func badCall(line string) bool {
	if strings.Contains(line, " resumed>") || strings.Contains(line, "+++ ") {
		return false
	}
	name, args, ok := strings.Cut(line, "(")
	if !ok {
		return false
	}
	if i := strings.LastIndexByte(name, ' '); i >= 0 { // the thread
		name = name[i+1:]
	}
	switch name {
	case "read", "readv", "pread64", "preadv", "write", "writev", "pwrite64", "pwritev":
		for _, fd := range []string{"0,", "1,", "2,"} { // the runtime has files of its own
			if strings.HasPrefix(args, fd) {
				return true
			}
		}

		return false
	case "getcwd", "clone", "clone3", "exit", "exit_group":
		return false
	case "prlimit64": // new limits
		return !strings.Contains(args, ", NULL, ")
	}
	for _, of := range []string{"\"/proc/", "\"/sys/"} { // where the runtime looks for its limits
		if strings.Contains(args, of) && !strings.Contains(args, "O_WRONLY") && !strings.Contains(args, "O_RDWR") {
			return false
		}
	}

	return true
}

const unread = "something to be read by the program\n"

// sortedEnv are the variables, but for those that are made when a process starts.
func sortedEnv(env []string) (out []string) {
	for _, v := range env {
		if !strings.HasPrefix(v, "PWD=") {
			out = append(out, v)
		}
	}
	sort.Strings(out)

	return out
}

func first(rs []rune, n int) []rune {
	if len(rs) > n {
		return rs[:n]
	}

	return rs
}

// terminal makes a pseudo-terminal, if it can.
func terminal() (master, slave *os.File) {
	master, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil
	}
	ioctl := func(req uintptr, arg unsafe.Pointer) bool {
		_, _, errno := syscall.Syscall(syscall.SYS_IOCTL, master.Fd(), req, uintptr(arg))

		return errno == 0
	}
	var (
		unlock, n int32
		size      = [4]uint16{5, 7, 0, 0}
	)
	if ioctl(0x40045431, unsafe.Pointer(&unlock)) && ioctl(0x80045430, unsafe.Pointer(&n)) && ioctl(0x5414, unsafe.Pointer(&size)) {
		if slave, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0); err == nil {
			return master, slave
		}
	}
	_ = master.Close()

	return nil, nil
}

// tree lists what a folder holds.
func tree(dir string) string {
	var out []string
	_ = filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		size := int64(-1)
		if i, err := d.Info(); err == nil && !d.IsDir() {
			size = i.Size()
		}
		out = append(out, fmt.Sprintf("%s:%d", strings.TrimPrefix(path, dir), size))

		return nil
	})
	sort.Strings(out)

	return strings.Join(out, " ")
}

var envValues = map[string][]string{
	"LANG":                {"C", "POSIX", "ja_JP.UTF-8", "zh_CN.GB18030", "ko_KR.EUC-KR", "fr_FR.UTF-8", "de_DE", "en_GB.UTF-8", "tr_TR.UTF-8", ""},
	"LC_ALL":              {"C", "ja_JP.UTF-8", "zh_TW.BIG5", "de_DE.ISO-8859-1", "fr_FR.UTF-8", ""},
	"LC_CTYPE":            {"C", "ja_JP.UTF-8", "en_GB.UTF-8", "UTF-8"},
	"LC_MESSAGES":         {"fr_FR", "es"},
	"LANGUAGE":            {"fr", "de:en", "es"},
	"RUNEWIDTH_EASTASIAN": {"1", "0", ""},
	"TERM":                {"dumb", "xterm-256color", "vt100", "linux", ""},
	"COLORTERM":           {"truecolor", "24bit", ""},
	"NO_COLOR":            {"1", ""},
	"CLICOLOR":            {"0", "1"},
	"CLICOLOR_FORCE":      {"0", "1"},
	"FORCE_COLOR":         {"0", "1", "3"},
	"COLUMNS":             {"1", "20", "0", "1000000", "-1", "x"},
	"LINES":               {"1", "0"},
	"TZ":                  {"UTC", "Asia/Tokyo", "Pacific/Kiritimati"},
	"DEBUG":               {"1", "*", "true"},
	"VERBOSE":             {"1"},
	"TRACE":               {"1"},
	"LOG_LEVEL":           {"debug", "trace"},
	"CI":                  {"true"},
	"TYPESET_DEBUG":       {"1"},
	"GO_TYPESET_DEBUG":    {"1"},
	"USER":                {"nobody", ""},
	"POSIXLY_CORRECT":     {"1"},
}

// checkEnvironment: neither the environment nor the process matters, and nothing is left behind but results.
func checkEnvironment(r *mon.Run) {
	r.Rule("pairs of processes that use all the parts of the library on the same inputs, the second one with another environment (none, or random values of 25 variables about locales, terminals, colors and debugging), another folder " +
		"(where pattern files of the same names hold something else), other standard streams (pipes, files, a terminal of 7 columns); then the workloads of other checks; oracle: the same outcomes, the same environment, arguments, folder and number of open files of the process in the end, nothing on standard output and error, no file made or changed in the current, home and temporary folders; " +
		"non-trivial: an environment")
	r.Assume("what depends on other things (the clock, the network, other files) is not varied")
	type outcome struct {
		lines []string
		said  string
		files string
	}
	run := func(c *mon.Case, seed string, rng *rand.Rand) (o outcome, desc string) {
		scratch, err := os.MkdirTemp("", "verif-env.")
		if err != nil {
			c.Broken("%v", err)
		}
		defer os.RemoveAll(scratch)
		for _, d := range []string{"home", "tmp", "cwd/languages", "cwd/wordbreak/hyphenator/languages"} {
			if err := os.MkdirAll(filepath.Join(scratch, d), 0o755); err != nil {
				c.Broken("%v", err)
			}
		}
		env := map[string]string{}
		streams := 0
		if rng != nil {
			for _, f := range liangFiles { // not to be used
				for _, d := range []string{"cwd", "cwd/languages", "cwd/wordbreak/hyphenator/languages", "home"} {
					_ = os.WriteFile(filepath.Join(scratch, d, f), []byte("\\message{another one}\n\\patterns{\na1b\n1t\n1n\n}\n"), 0o600)
				}
			}
			if rng.Intn(8) > 0 {
				var names []string
				for k := range envValues {
					names = append(names, k)
				}
				sort.Strings(names)
				odds := 1 + rng.Intn(8)
				for _, k := range names {
					if v := pick(rng, envValues[k]); rng.Intn(odds) == 0 {
						env[k] = v
						desc += fmt.Sprintf("%s=%q ", k, v)
					}
				}
			}
			if rng.Intn(2) == 0 {
				env["GOMAXPROCS"] = fmt.Sprint(1 + rng.Intn(12))
				desc += "GOMAXPROCS=" + env["GOMAXPROCS"] + " "
			}
			streams = rng.Intn(4)
		}
		env["HOME"], env["TMPDIR"] = filepath.Join(scratch, "home"), filepath.Join(scratch, "tmp")
		if rng != nil && rng.Intn(4) == 0 {
			env = map[string]string{}
			desc = "no environment "
		}
		cmd := exec.Command(os.Args[0], "child", "env", seed)
		signalled := false
		if rng != nil {
			for rng.Intn(2) == 0 { // arguments of the program, which are not for the library
				arg := pick(rng, []string{"--debug", "-debug", "-v", "-vv", "--verbose", "--trace", "-d", "--color=always", "--color=never", "--no-color", "--lang=fr", "--width=7", "--help", "--version", "-test.v", "-test.run=x", "debug", "--"})
				cmd.Args = append(cmd.Args, arg)
				desc += arg + " "
			}
			if rng.Intn(4) == 0 {
				signalled = true
				sig := pick(rng, []syscall.Signal{syscall.SIGHUP, syscall.SIGINT, syscall.SIGTERM})
				cmd.Args = append(cmd.Args, fmt.Sprintf("signal=%d", sig))
				desc += "ended by a signal "
			}
			switch rng.Intn(3) {
			case 0:
				cmd.Stdin = strings.NewReader(unread) // a pipe
				desc += "input from a pipe "
			case 1:
				if f, err := os.CreateTemp("", "verif-in."); err == nil {
					_ = os.Remove(f.Name())
					_, _ = f.WriteString(unread)
					_, _ = f.Seek(0, io.SeekStart)
					cmd.Stdin = f
					defer f.Close()
					desc += "input from a file "
				}
			}
		}
		cmd.Dir = filepath.Join(scratch, "cwd")
		cmd.Env = []string{}
		for k, v := range env {
			cmd.Env = append(cmd.Env, k+"="+v)
		}
		sort.Strings(cmd.Env)
		in, w, err := os.Pipe()
		if err != nil {
			c.Broken("%v", err)
		}
		var (
			said           = new(bytes.Buffer)
			master, slave  *os.File
			report         = make(chan []byte, 1)
			fromTheMaster  = make(chan []byte, 1)
			stdout, stderr *os.File
		)
		cmd.ExtraFiles = []*os.File{w}
		cmd.Stdout, cmd.Stderr = said, said // a pipe
		switch streams {
		case 1:
			desc += "output in files "
			stdout, _ = os.Create(filepath.Join(scratch, "out"))
			stderr, _ = os.Create(filepath.Join(scratch, "err"))
			cmd.Stdout, cmd.Stderr = stdout, stderr
		case 2, 3:
			if master, slave = terminal(); slave != nil {
				desc += "in a terminal "
				cmd.Stdin, cmd.Stdout, cmd.Stderr = slave, slave, slave
				r.Count("processes in a terminal", 1)
			}
		}
		before := tree(scratch)
		go func() {
			b, _ := io.ReadAll(in)
			report <- b
		}()
		if master != nil {
			go func() {
				b, _ := io.ReadAll(master)
				fromTheMaster <- b
			}()
		}
		started := make(chan error, 1)
		go func() { started <- c.RunChild(cmd) }()
		err = <-started
		_ = w.Close()
		b := <-report
		_ = in.Close()
		if slave != nil {
			_ = slave.Close()
			said.Write(<-fromTheMaster)
			_ = master.Close()
		}
		if stdout != nil {
			_ = stdout.Close()
			_ = stderr.Close()
			for _, f := range []string{"out", "err"} {
				text, _ := os.ReadFile(filepath.Join(scratch, f))
				said.Write(text)
			}
		}
		r.Count("processes", 1)
		if err != nil && signalled {
			if status, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && status.Signaled() && status.Signal() != syscall.SIGKILL {
				r.Count("processes ended by a signal", 1)
				err = nil
			}
		}
		if err != nil {
			text := said.String()
			if strings.Contains(text, mon.Lib) && !strings.Contains(text, "out of memory") {
				c.Fail("%s: the process dies: %.4000s", desc, text)
			}
			c.Broken("child env %s: %v %.2000s", seed, err, text)
		}
		if err := json.Unmarshal(b, &o.lines); err != nil {
			c.Broken("child env %s: %v", seed, err)
		}
		if len(o.lines) > 0 {
			if want := fmt.Sprint(sortedEnv(cmd.Env)); o.lines[0] != want {
				c.Fail("the environment is %s, it was %s", o.lines[0], want)
			}
			o.lines = o.lines[1:]
		}
		o.said = said.String()
		if stdout == nil {
			if after := tree(scratch); after != before {
				o.files = after
			}
		} else if after := tree(scratch); strings.Count(after, " ") != strings.Count(before, " ") {
			o.files = after
		}

		return o, desc
	}
	n := r.N(24, 250)
	r.Cases("environments", n, func(c *mon.Case) {
		seed := fmt.Sprint(c.Seed*1000000 + int64(c.Index))
		c.Input("child env %s", seed)
		verify := func(o outcome) {
			if o.said != "" {
				c.Fail("the library prints %.1000q", o.said)
			}
			if o.files != "" {
				c.Fail("files are made or changed: %.2000s", o.files)
			}
			c.Eval(2)
		}
		want, _ := run(c, seed, nil)
		verify(want)
		for k := 0; k < 4; k++ {
			got, desc := run(c, seed, c.Rng)
			c.Input("child env %s, with: %s", seed, desc)
			verify(got)
			if len(got.lines) != len(want.lines) {
				c.Fail("%d outcomes, want %d", len(got.lines), len(want.lines))
			}
			for i := range want.lines {
				if got.lines[i] != want.lines[i] {
					c.Fail("%s, otherwise %s", got.lines[i], want.lines[i])
				}
			}
			c.Eval(len(want.lines))
			r.Nontrivial(seed + desc)
			if c.Index < 2 {
				r.Sample("%d outcomes are the same with: %s", len(want.lines), desc)
			}
		}
	})
	r.Cases("system calls", r.N(6, 60), func(c *mon.Case) {
		seed := fmt.Sprint(c.Seed*1000000 + 500000 + int64(c.Index))
		c.Input("child env %s, its system calls traced", seed)
		scratch, err := os.MkdirTemp("", "verif-env.")
		if err != nil {
			c.Broken("%v", err)
		}
		defer os.RemoveAll(scratch)
		trace := filepath.Join(scratch, "trace")
		report, err := os.Create(filepath.Join(scratch, "report"))
		if err != nil {
			c.Broken("%v", err)
		}
		defer report.Close()
		cmd := exec.Command("strace", "-f", "--seccomp-bpf", "-qq", "-s", "200", "-e", "signal=none", "-o", trace, "-e",
			"trace=%file,%network,getuid,geteuid,getgid,getegid,getgroups,getppid,uname,sysinfo,times,fork,vfork,execve,execveat,kill,umask,setrlimit,prlimit64,setpriority,read,readv,pread64,preadv,write,writev,pwrite64,pwritev",
			os.Args[0], "child", "env", seed)
		cmd.Dir, cmd.ExtraFiles = scratch, []*os.File{report}
		cmd.Env = []string{"GOMAXPROCS=4", "HOME=" + scratch, "TMPDIR=" + scratch, "PATH=" + os.Getenv("PATH")}
		err = c.RunChild(cmd)
		b, _ := os.ReadFile(trace)
		var calls []string
		started, ended := false, false
		for _, line := range strings.Split(string(b), "\n") {
			switch {
			case !started:
				started = strings.Contains(line, "execve(")
			case strings.Contains(line, usesEnd):
				ended = true
			case !ended && line != "":
				calls = append(calls, line)
			}
		}
		if err != nil || !ended { // no tracing here, or the process died: other workloads judge it
			c.Count("processes not traced", 1)
			return
		}
		for _, call := range calls {
			if badCall(call) {
				c.Fail("the library does more than computing: %.600s", call)
			}
			c.Eval(1)
		}
		c.Count("processes traced", 1)
		c.Count("system calls of the traced processes", len(calls))
		r.Nontrivial(seed)
	})
	// the workloads of other checks, in processes from which nothing else is heard
	quiet := []string{"T01", "T02", "T03", "H01", "H03", "H04", "H05", "A01", "A02", "R01", "R02", "R03", "B01", "B02", "B03", "L03", "L04", "L05", "L06", "O01", "F01"}
	r.Cases("workloads", len(quiet), func(c *mon.Case) {
		id := quiet[c.Index]
		c.Input("the workloads of %s", id)
		scratch, err := os.MkdirTemp("", "verif-env.")
		if err != nil {
			c.Broken("%v", err)
		}
		defer os.RemoveAll(scratch)
		cmd := exec.Command(os.Args[0], id)
		cmd.Dir = scratch
		cmd.Env = []string{"MON_WORKER=1", "MON_SILENT=1", "VERIF_DIR=" + r.Dir, "VERIF_REPO=" + r.Repo, "VERIF_TIER=quick", fmt.Sprintf("VERIF_SEED=%d", c.Seed),
			"GOMAXPROCS=2", "HOME=" + scratch, "TMPDIR=" + scratch}
		said := new(bytes.Buffer)
		cmd.Stdout, cmd.Stderr = said, said
		err = c.RunChild(cmd)
		text := said.String()
		switch {
		case cmd.ProcessState == nil:
			c.Broken("%s: %v", id, err)
		case strings.Contains(text, "fatal error: "), strings.Contains(text, "panic: "), strings.Contains(text, "SIG"):
			c.Count("workloads that died", 1) // other checks judge it
		case text != "":
			c.Fail("the library prints %.1000q", text)
		default:
			c.Count("workloads in silence", 1)
			r.Nontrivial(id)
		}
		if left := tree(scratch); strings.Contains(left, " ") {
			c.Fail("files are made: %.1000s", left)
		}
		c.Eval(2)
	})
	r.Require("processes", int64(4*n))
}

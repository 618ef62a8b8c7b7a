package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verif/harness/internal/mon"
)

func init() { checks["G01"] = checkGenerator }

// buildGenerator builds the program that go generate runs for the pattern files.
func buildGenerator(r *mon.Run, scratch string) (string, error) {
	dir := filepath.Join(r.Repo, "wordbreak", "hyphenator", "languages")
	sources, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return "", err
	}
	const directive = "//go:generate go run "
	for _, source := range sources {
		text, err := os.ReadFile(source)
		if err != nil {
			return "", err
		}
		for _, line := range strings.Split(string(text), "\n") {
			if !strings.HasPrefix(line, directive) {
				continue
			}
			bin := filepath.Join(scratch, "generator")
			cmd := exec.Command("go", append([]string{"build", "-o", bin}, strings.Fields(strings.TrimPrefix(line, directive))...)...)
			cmd.Dir = dir
			if out, err := cmd.CombinedOutput(); err != nil {
				return "", fmt.Errorf("%w: %s", err, out)
			}

			return bin, nil
		}
	}

	return "", errors.New("no go:generate directive in " + dir)
}

// generate runs the generator in a folder.
func generate(bin, dir string) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	cmd.Dir = dir
	out, err := cmd.CombinedOutput()

	return string(out), err
}

// meant yields the lines of a TeX file without comments, blank lines and surrounding space.
func meant(text []byte) (out []string) {
	for _, line := range strings.Split(string(text), "\n") {
		if i := strings.IndexByte(line, '%'); i >= 0 {
			line = line[:i]
		}
		if line = strings.TrimSpace(line); line != "" {
			out = append(out, line)
		}
	}

	return out
}

// firstDiff tells where two lists of lines differ, or -1.
func firstDiff(a, b []string) (int, string) {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "(none)", "(none)"
		if i < len(a) {
			x = fmt.Sprintf("%.80q", a[i])
		}
		if i < len(b) {
			y = fmt.Sprintf("%.80q", b[i])
		}
		if i >= len(a) || i >= len(b) || a[i] != b[i] {
			return i, x + " instead of " + y
		}
	}

	return -1, ""
}

// listing describes the files of a folder, and what they hold.
func listing(dir string) (map[string][32]byte, error) {
	out := map[string][32]byte{}
	err := filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		if err != nil || !info.Mode().IsRegular() {
			return err
		}
		text, err := os.ReadFile(path)
		name, _ := filepath.Rel(dir, path)
		out[name] = sha256.Sum256(text)

		return err
	})

	return out, err
}

// texFile makes a TeX file of comments, commands, patterns and exceptions.
func texFile(rng *rand.Rand) []byte {
	b := new(bytes.Buffer)
	space := func(of int) {
		for rng.Intn(of) == 0 {
			b.WriteByte(pick(rng, []byte{' ', ' ', '\t'}))
		}
	}
	word := func() {
		for n := 1 + rng.Intn(12); n > 0; n-- {
			b.WriteRune(pick(rng, []rune("abcdefghijklmnopqrstuvwxyz.0123456789-'éßñœαж^{}\\ \"`&#~$_")))
		}
	}
	for n := rng.Intn(40); n > 0; n-- {
		space(5)
		switch rng.Intn(10) {
		case 0:
			b.WriteString(strings.Repeat("%", 1+rng.Intn(3)))
			word()
		case 1:
		case 2:
			b.WriteString(pick(rng, []string{`\patterns{`, `\hyphenation{`, "}", `\message{`, `\endinput`, `\bgroup`}))
		default:
			for k := rng.Intn(5); k >= 0; k-- {
				word()
				b.WriteByte(' ')
			}
		}
		space(4)
		if rng.Intn(4) == 0 {
			b.WriteByte('%')
			for k := rng.Intn(4); k > 0; k-- {
				space(3)
				word()
				if rng.Intn(3) == 0 {
					b.WriteByte('%')
				}
			}
		}
		if n == 1 && rng.Intn(3) == 0 {
			break // no end of the last line
		}
		if rng.Intn(20) == 0 {
			b.WriteByte('\r')
		}
		b.WriteByte('\n')
	}

	return b.Bytes()
}

// checkGenerator: the pattern files are regenerated from the originals.
func checkGenerator(r *mon.Run) {
	r.Rule("the program that go generate runs, built from the tree, run in scratch folders: on the original TeX files, and on folders of made-up ones (comments, commands, patterns, any space, other files in between, files of up to thousands of lines, lines of up to 2^18 bytes); " +
		"oracles: a direct model of what lines mean, the embedded files, digests of all files before and after; non-trivial: a file with a comment at the end of a line")
	scratch, err := os.MkdirTemp("", "verif-generator.")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(scratch)
	bin, err := buildGenerator(r, scratch)
	if err != nil {
		fmt.Println("INCONCLUSIVE property=G01 the generator does not build:", err)
		r.Require("the generator builds", 1)

		return
	}
	languages := filepath.Join(r.Repo, "wordbreak", "hyphenator", "languages")
	// run in a folder whose subfolder tex holds files
	run := func(c *mon.Case, files map[string][]byte, may bool) {
		dir, err := os.MkdirTemp(scratch, "case.")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		if err := os.Mkdir(filepath.Join(dir, "tex"), 0o700); err != nil {
			panic(err)
		}
		names := make([]string, 0, len(files))
		for name, text := range files {
			names = append(names, name)
			if err := os.WriteFile(filepath.Join(dir, "tex", name), text, 0o600); err != nil {
				panic(err)
			}
		}
		sort.Strings(names)
		for _, name := range names {
			if strings.HasSuffix(name, ".tex") && c.Rng.Intn(3) == 0 { // what was generated from another original
				stale := append(bytes.ToUpper(files[name]), "stale\nlines\n"...)
				if err := os.WriteFile(filepath.Join(dir, name), stale, 0o600); err != nil {
					panic(err)
				}
				c.Count("files generated again", 1)
			}
		}
		before, _ := listing(filepath.Join(dir, "tex"))
		for k := 0; k < 2; k++ { // a second run changes nothing
			out, err := generate(bin, dir)
			c.Eval(1)
			if err != nil {
				if !may {
					c.Fail("the generator fails: %v %.300s", err, out)
				}
				c.Count("generations that failed", 1)

				return
			}
			after, _ := listing(dir)
			for _, name := range names {
				if after[filepath.Join("tex", name)] != before[name] {
					c.Fail("the original %s has changed", name)
				}
				delete(after, filepath.Join("tex", name))
				if !strings.HasSuffix(name, ".tex") {
					continue
				}
				if _, ok := after[name]; !ok {
					c.Fail("there is no %s", name)
				}
				delete(after, name)
				got, err := os.ReadFile(filepath.Join(dir, name))
				if err != nil {
					c.Fail("%v", err)
				}
				if i, diff := firstDiff(lines(got), meant(files[name])); i >= 0 {
					c.Fail("%s, line %d of those not blank is %s", name, i, diff)
				}
				c.Count("files generated", 1)
			}
			if len(after) > 0 {
				c.Fail("made other files: %v", after)
			}
		}
		c.Count("generations", 1)
	}
	r.Serial("originals", 1, func(c *mon.Case) {
		c.Input("the original TeX files")
		files := map[string][]byte{}
		originals, _ := filepath.Glob(filepath.Join(languages, "tex", "*.tex"))
		for _, name := range originals {
			text, err := os.ReadFile(name)
			if err != nil {
				panic(err)
			}
			files[filepath.Base(name)] = text
			embedded, err := os.ReadFile(filepath.Join(languages, filepath.Base(name)))
			if err != nil {
				c.Fail("no pattern file for the original %s: %v", name, err)
			}
			if i, diff := firstDiff(lines(embedded), meant(text)); i >= 0 {
				c.Fail("embedded %s: line %d of those not blank is %s", filepath.Base(name), i, diff)
			}
			c.Count("embedded files compared", 1)
		}
		run(c, files, false)
	})
	r.Cases("made-up", r.N(400, 8000), func(c *mon.Case) {
		files := map[string][]byte{}
		for n := 1 + c.Rng.Intn(4); n > 0; n-- {
			name := fmt.Sprintf("f%d.%s", n, pick(c.Rng, []string{"tex", "tex", "tex", "txt", "tex.bak"}))
			files[name] = texFile(c.Rng)
			if c.Rng.Intn(40) == 0 {
				for k := 0; k < 200; k++ {
					if !bytes.HasSuffix(files[name], []byte("\n")) {
						files[name] = append(files[name], '\n')
					}
					files[name] = append(files[name], texFile(c.Rng)...)
				}
			}
		}
		c.Input("files %.2000q", fmt.Sprint(files))
		for name, text := range files {
			c.Input("files %.2000q", fmt.Sprintf("%s: %s", name, text))
			if bytes.Contains(text, []byte(" %")) {
				r.Nontrivial(string(text))
			}
		}
		run(c, files, false)
	})
	r.Cases("long-lines", r.N(40, 400), func(c *mon.Case) {
		n := 1<<uint(8+c.Rng.Intn(11)) + c.Rng.Intn(3) - 1
		text := []byte("first\n" + strings.Repeat("ab1c ", n/5+1) + "\nlast % comment\n")
		c.Input("a file with a line of %d bytes", n)
		run(c, map[string][]byte{"a.tex": []byte("before\n"), "long.tex": text, "z.tex": []byte("after\n")}, n > 1<<16-10)
	})
	r.Serial("unreadable", 4, func(c *mon.Case) {
		dir, err := os.MkdirTemp(scratch, "case.")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		c.Input("a folder tex whose only file cannot be read")
		tex := filepath.Join(dir, "tex")
		_ = os.Mkdir(tex, 0o700)
		switch c.Index {
		case 0:
			_ = os.Symlink("nowhere", filepath.Join(tex, "f.tex"))
		case 1:
			c.Input("no folder tex")
			_ = os.Remove(tex)
		case 2:
			c.Input("a folder tex with a file, where the file to make is a folder")
			_ = os.WriteFile(filepath.Join(tex, "f.tex"), []byte("some\n"), 0o600)
			_ = os.Mkdir(filepath.Join(dir, "f.tex"), 0o700)
		case 3:
			c.Input("a folder tex with a file, where the disk is full once it is written")
			if info, err := os.Stat("/dev/full"); err != nil || info.Mode()&os.ModeCharDevice == 0 {
				return
			}
			_ = os.WriteFile(filepath.Join(tex, "f.tex"), []byte("some\n"), 0o600)
			_ = os.Symlink("/dev/full", filepath.Join(dir, "f.tex"))
		}
		out, err := generate(bin, dir)
		if info, e := os.Lstat(filepath.Join(dir, "f.tex")); err == nil && c.Index == 3 && e == nil && info.Mode().IsRegular() {
			// replaced the link: the disk was not full after all
			if text, _ := os.ReadFile(filepath.Join(dir, "f.tex")); string(text) == "some\n" {
				return
			}
		}
		if err == nil {
			c.Fail("the generator succeeds: %.300s", out)
		}
		c.Count("generations refused", 1)
		c.Eval(1)
	})
	r.Require("embedded files compared", 5)
	r.Require("files generated", 500)
	r.Require("files generated again", 50)
}

// lines yields the lines of a file which are not blank.
func lines(text []byte) (out []string) {
	for _, line := range strings.Split(string(text), "\n") {
		if line = strings.TrimSpace(line); line != "" {
			out = append(out, line)
		}
	}

	return out
}

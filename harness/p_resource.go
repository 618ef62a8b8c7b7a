package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
	"unicode"
	"unsafe"

	"github.com/fredbi/go-typeset/attributes"
	"github.com/fredbi/go-typeset/linebreak"
	"github.com/fredbi/go-typeset/terminal/ansi"
	"github.com/fredbi/go-typeset/terminal/runes"
	"github.com/fredbi/go-typeset/terminal/runes/runesio"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"github.com/fredbi/go-typeset/wordbreak/punctuator"
	"github.com/fredbi/go-typeset/wordbreak/tokenizer"
	"verif/harness/internal/mon"
)

func init() {
	checks["S01"] = checkRetention
	checks["S02"] = checkGrowth
}

// a use of the library: prepare makes an input of size n, and returns what to measure.
type usage struct {
	name    string
	first   int // smallest size
	last    int // largest size
	prepare func(rng *rand.Rand, n int) func()
}

// cycle repeats pieces up to n runes.
func cycle(n int, pieces ...string) []rune {
	out := make([]rune, 0, n+64)
	for i := 0; len(out) < n; i++ {
		out = append(out, []rune(pieces[i%len(pieces)])...)
	}

	return out
}

// discard is an io.Writer.
type discard struct{ n int }

func (d *discard) Write(p []byte) (int, error) {
	d.n += len(p)

	return len(p), nil
}

var kept any // keeps results alive while they are measured

func usages() (out []usage) {
	add := func(name string, first, last int, prepare func(rng *rand.Rand, n int) func()) {
		out = append(out, usage{name, first, last, prepare})
	}
	texts := []struct {
		name   string
		pieces []string
	}{
		{"letters", []string{"abcdefgh"}},
		{"words", []string{"in ", "olden ", "times, ", "when-wishing "}},
		{"spaces", []string{" \t"}},
		{"marks", []string{",;.!"}},
		{"hyphens", []string{"-\u2010"}},
		{"marks and letters", []string{"a,", "b-", "c|"}},
		{"wide and ambiguous", []string{"\u4e00\u00b1\u0301\u2460"}},
		{"invalid", []string{"\ufffda"}},
		{"sequences", []string{"\x1b[31m", "red", "\x1b[0m", " "}},
		{"starts", []string{"\x1b[31m"}},
		{"stops", []string{"\x1b[0m"}},
		{"others", []string{"\x1b[2K"}},
		{"text and others", []string{"a\x1b[2K"}},
		{"introducers", []string{"\x1b["}},
		{"escapes", []string{"\x1b"}},
		{"parameters", []string{"1;"}},
	}
	for _, t := range texts {
		t := t
		for _, head := range []string{"", "a", "\x1b[1m", "a\x1b[2K", "\x1b["} {
			head := head
			if head != "" && !strings.ContainsAny(t.name, "qs") {
				continue
			}
			add("StripToken of "+t.name+" after "+fmt.Sprintf("%q", head), 1<<12, 1<<19, func(_ *rand.Rand, n int) func() {
				in := append([]rune(head), cycle(n, t.pieces...)...)

				return func() { kept = ansi.StripToken(in) }
			})
		}
		add("Widths of "+t.name, 1<<15, 1<<21, func(_ *rand.Rand, n int) func() {
			in := cycle(n, t.pieces...)

			return func() { kept = runes.Widths(in) }
		})
		add("StringWidth, East Asian, of "+t.name, 1<<14, 1<<20, func(_ *rand.Rand, n int) func() {
			in := string(cycle(n, t.pieces...))

			return func() { kept = runes.StringWidth(in, runes.WithEastAsian(true)) }
		})
		add("Tokenizer on "+t.name, 1<<14, 1<<20, func(_ *rand.Rand, n int) func() {
			in := cycle(n, t.pieces...)

			return func() { kept = tokenizer.New().BreakWord(in) }
		})
		add("FieldsFunc on "+t.name, 1<<14, 1<<20, func(_ *rand.Rand, n int) func() {
			in := cycle(n, t.pieces...)

			return func() { kept = runes.FieldsFunc(in, unicode.IsPunct) }
		})
		add("Punctuator on "+t.name, 1<<13, 1<<19, func(_ *rand.Rand, n int) func() {
			in := cycle(n, t.pieces...)

			return func() { kept = punctuator.New().BreakWord(in) }
		})
		add("SplitWord on "+t.name, 1<<13, 1<<19, func(_ *rand.Rand, n int) func() {
			in := cycle(n, t.pieces...)

			return func() { kept = hyphenator.SplitWord(in) }
		})
		add("reading "+t.name, 1<<14, 1<<20, func(_ *rand.Rand, n int) func() {
			in := cycle(n, t.pieces...)

			return func() {
				rd := runesio.NewSliceReader(in)
				for {
					if _, _, err := rd.ReadRune(); err != nil {
						break
					}
				}
				for i := 0; i < n; i += 3 {
					_, _ = rd.Seek(int64(i), i%3)
					kept = rd.Runes()
					kept = rd.Slice(i/2, i)
				}
			}
		})
		for name, f := range map[string]func(string) any{
			"Tokenizer": func(in string) any { return tokenizer.New().BreakWordString(in) }, "Punctuator": func(in string) any { return punctuator.New().BreakWordString(in) },
			"StringWidth": func(in string) any { return runes.StringWidth(in) },
		} {
			f := f
			add(name+" on a string of "+t.name, 1<<13, 1<<19, func(_ *rand.Rand, n int) func() {
				in := string(cycle(n, t.pieces...))

				return func() { kept = f(in) }
			})
		}
		add("cutting "+t.name+" in many slices", 1<<13, 1<<19, func(_ *rand.Rand, n int) func() {
			in := cycle(n, t.pieces...)
			var offsets []int
			for i := 0; i+2 <= n; i += 2 {
				offsets = append(offsets, i, i+2)
			}

			return func() {
				kept = runesio.NewSliceReader(in).Slices(offsets)
			}
		})
		add("writing "+t.name, 1<<14, 1<<20, func(_ *rand.Rand, n int) func() {
			in := cycle(n, t.pieces...)

			return func() {
				w := runesio.NewWriter(new(discard))
				_, _ = w.WriteRunes(in)
				for _, r := range in[:n/4] {
					_, _ = w.WriteRune(r)
				}
			}
		})
	}
	for _, stops := range []bool{true, false} {
		stops := stops
		add(fmt.Sprintf("pushing and rendering attributes, stopped at once: %v", stops), 1<<11, 1<<17, func(_ *rand.Rand, n int) func() {
			return func() {
				s := attributes.NewState()
				for i := 0; i < n; i++ {
					var start, stop []rune
					if stops {
						start, stop = []rune("<"), []rune(">")
					} else if i%8 == 0 {
						start = []rune("<")
					} else if i%8 == 6 {
						stop = []rune(">")
					}
					s.Push(attributes.New([]rune("text"), start, stop))
				}
				w := runesio.NewWriter(new(discard))
				for it := s.Iterator(); it.Next(); {
					it.StartOfLine(w)
					it.Item().Render(w)
					it.EndOfLine(w)
				}
			}
		})
	}
	add("hyphenating a list of words", 1<<8, 1<<14, func(rng *rand.Rand, n int) func() {
		words := make([]string, n)
		for i := range words {
			words[i] = pick(rng, []string{"hyphenation", "algorithm", "table", "typesetting", "often-times", "a"})
		}

		return func() {
			for _, w := range words {
				kept = hyphenator.New().BreakWordString(w)
			}
		}
	})
	paras := []struct {
		name   string
		pieces []string
		width  float64
	}{
		{"words", []string{"in", "olden", "times,", "when", "wishing", "still", "helped"}, 60},
		{"short words", []string{"a", "b"}, 20},
		{"marks", []string{"a,b;", "c|d"}, 30},
		{"hyphens", []string{"often-times", "lime-tree"}, 30},
		{"long words", []string{"hyphenation", "algorithms", "typesetting"}, 25},
		{"sequences", []string{"\x1b[31mred\x1b[0m", "plain", "\x1b[1mbold\x1b[0m,"}, 40},
		{"a word that does not fit", []string{"in", "olden", "times"}, 4},
	}
	for _, p := range paras {
		p := p
		for _, broken := range []bool{true, false} {
			broken := broken
			add(fmt.Sprintf("line breaking of %s (word breaks: %v)", p.name, broken), 1<<7, 1<<15, func(_ *rand.Rand, n int) func() {
				tokens := make([]string, n)
				for i := range tokens {
					tokens[i] = p.pieces[i%len(p.pieces)]
				}

				return func() {
					lines, err := linebreak.New(linebreak.WithTolerance(12), linebreak.WithWordBreak(broken)).LeftAlignUniform(tokens, p.width)
					kept = []any{lines, err}
				}
			})
		}
	}

	tokens := []struct {
		name   string
		pieces []string
	}{
		{"letters", []string{"abcdefgh"}},
		{"marks", []string{"a,b;"}},
		{"hyphens", []string{"a-bc-"}},
		{"styled letters", []string{"\x1b[31mred\x1b[0m"}},
		{"empty contexts", []string{"\x1b[31m\x1b[0m"}},
		{"other sequences", []string{"\x1b[2K"}},
	}
	for _, t := range tokens {
		t := t
		for _, broken := range []bool{true, false} {
			broken := broken
			add(fmt.Sprintf("line breaking of one token of %s (word breaks: %v)", t.name, broken), 1<<8, 1<<16, func(_ *rand.Rand, n int) func() {
				token := string(cycle(n, t.pieces...))

				return func() {
					l := linebreak.New(linebreak.WithTolerance(12), linebreak.WithHyphenator(everyTwo), linebreak.WithWordBreak(broken))
					lines, err := l.LeftAlignUniform([]string{token}, 30)
					kept = []any{lines, err}
				}
			})
		}
	}
	add("contexts open over several lines", 1<<7, 1<<15, func(_ *rand.Rand, n int) func() {
		tokens := make([]string, n)
		for i := range tokens {
			tokens[i] = []string{"\x1b[31mred", "and", "also", "\x1b[1mbold", "for", "a", "while\x1b[0m", "then", "not\x1b[0m", "again"}[i%10]
		}

		return func() {
			lines, err := linebreak.New(linebreak.WithTolerance(12)).LeftAlignUniform(tokens, 12)
			kept = []any{lines, err}
		}
	})
	// histories: an object is used n times
	add("paragraphs with one line breaker", 1<<6, 1<<14, func(rng *rand.Rand, n int) func() {
		paras := make([][]string, 50)
		for i := range paras {
			paras[i] = styled(rng)
		}

		return func() {
			l := linebreak.New(linebreak.WithTolerance(20))
			for i := 0; i < n; i++ {
				lines, err := l.LeftAlignUniform(paras[i%len(paras)], float64(10+i%20))
				kept = []any{lines, err}
			}
		}
	})
	add("words with one hyphenator", 1<<8, 1<<18, func(rng *rand.Rand, n int) func() {
		return func() {
			h := hyphenator.New()
			for i := 0; i < n; i++ {
				kept = h.BreakWordString(fmt.Sprintf("hyphen%cation%c", 'a'+i%26, 'a'+i/26%26))
			}
		}
	})
	add("reading and cutting with one reader", 1<<10, 1<<18, func(rng *rand.Rand, n int) func() {
		in := []rune("some text, \u00e9\u4e00")

		return func() {
			rd := runesio.NewSliceReader(in)
			for i := 0; i < n; i++ {
				_, _ = rd.Seek(int64(i%14), 0)
				_, _, _ = rd.ReadRune()
				kept = rd.Slices([]int{0, i % 14})
				kept = rd.SliceFromByteOffsets([]int{0, i % 10})
			}
		}
	})

	return out
}

// threadCPU is the CPU time of this thread: clock_gettime(CLOCK_THREAD_CPUTIME_ID).
func threadCPU() time.Duration {
	var ts syscall.Timespec
	if _, _, errno := syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 3, uintptr(unsafe.Pointer(&ts)), 0); errno != 0 {
		return -1
	}

	return time.Duration(ts.Nano())
}

// checkGrowth: the time and the memory taken grow in proportion to the size of the input.
func checkGrowth(r *mon.Run) {
	const (
		tooMuch   = 8                     // how much more per rune (or word...) a large input may take: it is 64 times more for quadratic costs
		relevant  = 5 * time.Millisecond  // smaller durations are not judged
		smallest  = 20 * time.Microsecond // nor is anything compared with such ones
		fewBytes  = 64                    // bytes per rune that are not judged
		fewSizes  = 3
		endOfTime = 20 * time.Second
	)
	r.Rule("texts, tokens, histories and paragraphs made of repeated pieces, in sizes growing fourfold up to a million runes or 30000 tokens; " +
		"oracle: the CPU time of the thread and the bytes allocated, per rune or token, stay within a factor of 8 of those of small inputs, in the best of several measures; non-trivial: a large input")
	r.Assume("words given to the hyphenator are of usual lengths (it takes time in proportion to the square of a length), escape sequences are closed within a few lines")
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	debug.SetGCPercent(800)
	if threadCPU() < 0 {
		r.Broken("the CPU time of a thread cannot be measured")
	}
	us := usages()
	r.Serial("growth", len(us), func(c *mon.Case) {
		u := us[c.Index]
		type cost struct {
			n          int
			cpu, bytes float64 // per unit
			total      time.Duration
		}
		measure := func(n, times int) (out cost) {
			f := u.prepare(c.Rng, n)
			out.n = n
			for i := 0; i < times; i++ {
				kept = nil
				runtime.GC()
				var a, b runtime.MemStats
				runtime.ReadMemStats(&a)
				t := threadCPU()
				f()
				t = threadCPU() - t
				runtime.ReadMemStats(&b)
				if i == 0 || t < out.total {
					out.total = t
					out.cpu = float64(t) / float64(n)
				}
				if bytes := float64(b.TotalAlloc-a.TotalAlloc) / float64(n); i == 0 || bytes < out.bytes {
					out.bytes = bytes
				}
				if t > time.Second {
					break
				}
			}
			kept = nil

			return out
		}
		slow := func(small, large cost) bool {
			return small.total >= smallest && large.total >= relevant && large.cpu > tooMuch*small.cpu
		}
		greedy := func(small, large cost) bool {
			return large.bytes > fewBytes && large.bytes > tooMuch*small.bytes
		}
		var costs []cost
		last := u.last
		if r.Thorough() {
			last *= 4
		}
		for n := u.first; n <= last; n *= 4 {
			c.Input("%s, size %d", u.name, n)
			large := measure(n, 3)
			for _, small := range costs {
				c.Eval(1)
				if greedy(small, large) {
					c.Fail("%.0f bytes allocated per unit, %.0f when the size is %d", large.bytes, small.bytes, small.n)
				}
				if slow(small, large) && (large.total > endOfTime || slow(measure(small.n, 9), measure(n, 9))) {
					c.Fail("%.0f ns of CPU time per unit (%v), %.0f when the size is %d", large.cpu, large.total, small.cpu, small.n)
				}
			}
			costs = append(costs, large)
			if large.total > endOfTime {
				break
			}
		}
		if len(costs) >= fewSizes {
			r.Count("uses measured in at least 3 sizes", 1)
			r.Nontrivial(u.name)
		}
		if costs[len(costs)-1].total >= relevant {
			r.Count("uses that took 5 ms at least", 1)
		}
	})
	r.Require("uses measured in at least 3 sizes", int64(len(us)))
	r.Require("uses that took 5 ms at least", int64(len(us)/3))
}

// checkRetention: nothing is kept of what was processed.
func checkRetention(r *mon.Run) {
	const (
		rounds = 5
		noise  = 8 << 10  // bytes by which the heap may grow in a round
		total  = 80 << 10 // and in all
	)
	r.Rule("each part of the library used over and over on random inputs, with shared and with fresh objects, in 6 rounds; oracle: after full collections, the heap does not grow in each of the last 5 rounds, nor does the number of goroutines; then many objects held after use: " +
		"each holds some kilobytes at most, whatever the dictionary or the table it works with; " +
		"non-trivial: a round")
	type op struct {
		name string
		n    int // uses in a round
		make func(rng *rand.Rand) func()
	}
	word := func(rng *rand.Rand) []rune {
		w := make([]rune, 3+rng.Intn(15))
		for i := range w {
			w[i] = 'a' + rune(rng.Intn(26))
		}
		if rng.Intn(5) == 0 {
			w[rng.Intn(len(w))] = anyRune(rng, true)
		}

		return w
	}
	ops := []op{
		{"widths", 60000, func(rng *rand.Rand) func() {
			return func() {
				in := anyRunes(rng, 12, true)
				opts := []runes.Option{runes.WithEastAsian(rng.Intn(2) > 0), runes.WithEastAsianAmbiguousWidth(rng.Intn(1000)), runes.WithSkipStrictEmojiNeutral(rng.Intn(2) > 0)}
				_ = runes.Widths(in, opts...)
				_ = runes.StringWidth(string(in), opts[:rng.Intn(4)]...)
				_ = runes.Width(anyRune(rng, true), opts...)
			}
		}},
		{"splitters", 40000, func(rng *rand.Rand) func() {
			t, p := tokenizer.New(), punctuator.New()

			return func() {
				in := anyRunes(rng, 20, true)
				_ = t.BreakWord(in)
				_ = p.BreakWord(in)
				_ = hyphenator.SplitWord(in)
				_ = runes.FieldsFunc(in, unicode.IsUpper)
				_ = t.BreakWordString(string(in))
				_ = p.BreakWordString(string(in))
			}
		}},
		{"one hyphenator", 20000, func(rng *rand.Rand) func() {
			h := hyphenator.New()

			return func() {
				_ = h.BreakWord(word(rng))
				_ = h.BreakWordString(string(word(rng)))
			}
		}},
		{"new hyphenators", 20000, func(rng *rand.Rand) func() {
			return func() {
				h := hyphenator.New(randMode(rng).opts()...)
				_ = h.BreakWord(word(rng))
				if rng.Intn(4) == 0 {
					_ = hyphenator.New(hyphenator.WithLanguage(string(word(rng)))).BreakWordString(string(word(rng)))
				}
			}
		}},
		{"pattern files", 15000, func(rng *rand.Rand) func() {
			return func() {
				_, _ = hyphenator.LoadPatterns(string(word(rng)))
				_, _ = hyphenator.SupportedPatterns()
				if rng.Intn(5000) == 0 {
					_, _ = hyphenator.LoadPatterns(liangFiles["fr"])
				}
			}
		}},
		{"escape sequences", 40000, func(rng *rand.Rand) func() {
			return func() {
				_ = ansi.StripToken(hostileANSI(rng, 12))
				var in []rune
				for _, i := range wellFormed(rng, 8) {
					in = append(in, i.rs...)
				}
				_ = ansi.StripToken(in)
			}
		}},
		{"readers", 40000, func(rng *rand.Rand) func() {
			return func() {
				rd := runesio.NewSliceReader(anyRunes(rng, 20, true))
				for i := 0; i < 5; i++ {
					_, _, _ = rd.ReadRune()
					_, _ = rd.Seek(int64(rng.Intn(30)-10), rng.Intn(3))
				}
				_ = rd.Runes()
				_ = rd.SliceFromByteOffsets([]int{0, 0})
			}
		}},
		{"writers", 40000, func(rng *rand.Rand) func() {
			shared := runesio.NewWriter(new(discard))

			return func() {
				in := anyRunes(rng, 20, true)
				_, _ = shared.WriteRunes(in)
				_, _ = shared.WriteRune(anyRune(rng, true))
				w := runesio.AsRunesWriter(&failing{left: rng.Intn(30)})
				_, _ = w.WriteRunes(in)
				_, _ = w.Write([]byte(string(in)))
			}
		}},
		{"attributes", 20000, func(rng *rand.Rand) func() {
			w := runesio.NewWriter(new(discard))

			return func() {
				s := attributes.NewState()
				for i := rng.Intn(6); i >= 0; i-- {
					var start, stop []rune
					if rng.Intn(2) == 0 {
						start = word(rng)
					}
					if rng.Intn(2) == 0 {
						stop = word(rng)
					}
					s.Push(attributes.New(word(rng), start, stop))
				}
				for it := s.Iterator(); it.Next(); {
					it.StartOfLine(w)
					it.Item().Render(w)
					it.EndOfLine(w)
				}
			}
		}},
		{"one state", 4000, func(rng *rand.Rand) func() {
			s, w := attributes.NewState(), runesio.NewWriter(new(discard))
			var all attributes.Renderers
			for i := 0; i < 8; i++ {
				all = append(all, attributes.New(word(rng), word(rng)[:rng.Intn(3)], word(rng)[:rng.Intn(3)]))
				s.Push(all[i])
			}

			return func() {
				for it := s.Iterator(); it.Next(); {
					it.StartOfLine(w)
					it.Item().Render(w)
					it.EndOfLine(w)
				}
				it := s.First()
				it.EndOfLine(w)
				_ = it.Next()
				a := pick(rng, all)
				a.SetStop(word(rng)[:rng.Intn(3)])
				a.SetLevel(a.Level())
				all.Start(w)
				all.Render(w)
				all.Stop(w)
				kept = a.Runes()
			}
		}},
		{"one reader", 40000, func(rng *rand.Rand) func() {
			rd := runesio.NewSliceReader([]rune("some text to read, \u00e9\u4e00"))

			return func() {
				_, _ = rd.Seek(int64(rng.Intn(40)-10), rng.Intn(3))
				_, _, _ = rd.ReadRune()
				i := rng.Intn(10)
				kept = rd.Runes()
				kept = rd.Slice(i, i+rng.Intn(9))
				kept = rd.Slices([]int{i, i + rng.Intn(9), 0, i})
				kept = rd.SliceFromByteOffsets([]int{i, i + rng.Intn(9), 0, i})
			}
		}},
		{"one writer in error", 20000, func(rng *rand.Rand) func() {
			w := runesio.AsRunesWriter(&failing{left: 100})

			return func() {
				_, _ = w.WriteRunes(word(rng))
				_, _ = w.WriteRune('x')
				_, _ = w.Write([]byte("bytes"))
				w2 := runesio.AsRunesWriter(w)
				_, _ = w2.WriteRune('y')
			}
		}},
		{"names and marks", 40000, func(rng *rand.Rand) func() {
			h := hyphenator.New()

			return func() {
				w := anyRunes(rng, 1, true)
				kept = []any{h.String(), hyphenator.IsHyphen(w), punctuator.IsPunctuation(w), runes.IsAmbiguous(anyRune(rng, true)), linebreak.ErrCannotBeSet.Error()}
			}
		}},
		{"one line breaker", 4000, func(rng *rand.Rand) func() {
			l := linebreak.New(linebreak.WithTolerance(20))

			return func() { _, _ = l.LeftAlignUniform(styled(rng), float64(5+rng.Intn(30))) }
		}},
		{"new line breakers", 4000, func(rng *rand.Rand) func() {
			return func() {
				_, _ = linebreak.New(randConf(rng).opts()...).LeftAlignUniform(styled(rng), float64(rng.Intn(30)))
			}
		}},
	}
	times := r.N(1, 6)
	runtime.LockOSThread()
	r.Serial("rounds", len(ops)*times, func(c *mon.Case) {
		o := ops[c.Index%len(ops)]
		c.Input("%s, rounds of %d uses", o.name, o.n)
		use := o.make(c.Rng)
		var grown []int64
		more := 0
		heap, gor := int64(0), 0
		for round := 0; round <= rounds; round++ {
			for i := 0; i < o.n; i++ {
				use()
			}
			runtime.GC()
			runtime.GC()
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			now := runtime.NumGoroutine()
			if round > 0 {
				grown = append(grown, int64(m.HeapAlloc)-heap)
				if now > gor {
					more++
				}
				r.Nontrivial(fmt.Sprint(o.name, c.Index, round))
				c.Eval(1)
			}
			heap, gor = int64(m.HeapAlloc), now
		}
		runtime.KeepAlive(use)
		if more == rounds {
			c.Fail("goroutines are left behind: %d in the end", gor)
		}
		var sum int64
		for _, g := range grown {
			if g < noise {
				return
			}
			sum += g
		}
		if sum < total {
			return
		}
		c.Fail("the heap grew by %v bytes in rounds of %d uses", grown, o.n)
	})
	// objects which are held: they share what they can, and stay small
	type holder struct {
		name  string
		n     int
		bytes int64 // allowed for each
		make  func(rng *rand.Rand) any
	}
	holders := []holder{
		{"hyphenators", 300, 8 << 10, func(rng *rand.Rand) any {
			h := hyphenator.New(randMode(rng).opts()...)
			_ = h.BreakWord(word(rng))

			return h
		}},
		{"hyphenators of a language given by name", 300, 8 << 10, func(rng *rand.Rand) any {
			h := hyphenator.New(hyphenator.WithLanguage(pick(rng, []string{"de", "de-AT", "DE", "de_DE", "xx", "?", "fr-CA", "es-419", "en-GB-oed"})))
			_ = h.BreakWord(word(rng))

			return h
		}},
		{"line breakers", 150, 128 << 10, func(rng *rand.Rand) any {
			l := linebreak.New(linebreak.WithTolerance(20))
			_, _ = l.LeftAlignUniform(styled(rng), float64(5+rng.Intn(30)))

			return l
		}},
		{"splitters", 3000, 1 << 10, func(rng *rand.Rand) any {
			t, p := tokenizer.New(), punctuator.New()
			_, _ = t.BreakWord(anyRunes(rng, 20, true)), p.BreakWord(anyRunes(rng, 20, true))

			return []any{t, p}
		}},
		{"readers and writers", 3000, 4 << 10, func(rng *rand.Rand) any {
			rd, w := runesio.NewSliceReader(anyRunes(rng, 20, true)), runesio.NewWriter(new(discard))
			_, _ = w.WriteRunes(rd.Runes())
			_, _, _ = rd.ReadRune()

			return []any{rd, w}
		}},
		{"states and their iterators", 1000, 8 << 10, func(rng *rand.Rand) any {
			s := attributes.NewState()
			w := runesio.NewWriter(new(discard))
			for i := rng.Intn(6); i >= 0; i-- {
				s.Push(attributes.New(word(rng), word(rng), word(rng)))
			}
			it := s.Iterator()
			for it.Next() {
				it.StartOfLine(w)
				it.Item().Render(w)
				it.EndOfLine(w)
			}

			return []any{s, it}
		}},
	}
	r.Serial("held", len(holders)*times, func(c *mon.Case) {
		h := holders[c.Index%len(holders)]
		c.Input("%d %s held", h.n, h.name)
		live := func() int64 {
			runtime.GC()
			runtime.GC()
			var m runtime.MemStats
			runtime.ReadMemStats(&m)

			return int64(m.HeapAlloc)
		}
		for i := 0; i < h.n; i++ { // what is shared gets made
			_ = h.make(c.Rng)
		}
		least := int64(1) << 62
		for round := 0; round < 2; round++ {
			held := make([]any, 0, h.n)
			before := live()
			for i := 0; i < h.n; i++ {
				held = append(held, h.make(c.Rng))
			}
			if each := (live() - before) / int64(h.n); each < least {
				least = each
			}
			runtime.KeepAlive(held)
			r.Nontrivial(fmt.Sprint("held", h.name, c.Index, round))
			c.Eval(1)
		}
		if c.Index < len(holders) {
			r.Sample("%s hold %d bytes each", h.name, least)
		}
		if least > h.bytes {
			c.Fail("each holds %d bytes", least)
		}
	})
	r.Require("cases:rounds", int64(len(ops)*times))
	r.Require("cases:held", int64(len(holders)*times))
}

// failing is an io.Writer with room for some bytes.
type failing struct{ left int }

func (f *failing) Write(p []byte) (int, error) {
	if len(p) > f.left {
		n := f.left
		f.left = 0

		return n, fmt.Errorf("full")
	}
	f.left -= len(p)

	return len(p), nil
}

// styled draws a short paragraph, some tokens of which carry sequences, closed or not.
func styled(rng *rand.Rand) []string {
	tokens := make([]string, 1+rng.Intn(12))
	for i := range tokens {
		tokens[i] = lbToken(rng, rng.Intn(5) == 0)
		if rng.Intn(4) == 0 {
			tokens[i] = string(seq(rng, seqKind(1+rng.Intn(3)))) + tokens[i]
		}
		if rng.Intn(4) == 0 {
			tokens[i] += string(seq(rng, seqKind(1+rng.Intn(3))))
		}
	}

	return tokens
}

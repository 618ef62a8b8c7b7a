package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/fredbi/go-typeset/linebreak"
	"github.com/fredbi/go-typeset/terminal/ansi"
	"github.com/fredbi/go-typeset/terminal/runes"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"github.com/fredbi/go-typeset/wordbreak/punctuator"
	"github.com/fredbi/go-typeset/wordbreak/tokenizer"

	"verif/harness/internal/mon"
)

// childReport is what a child process prints on its standard output.
type childReport struct {
	Mismatch string `json:"mismatch,omitempty"`
	Evals    int    `json:"evals"`
	Workers  int    `json:"workers"`
	Order    string `json:"order"`    // the order in which the first calls begin and return
	Overlaps int    `json:"overlaps"` // pairs of first calls that overlap
}

// crew runs workers that are released together, in a process where the code under test has not been called yet.
type crew struct {
	rng      *rand.Rand
	seed     int64
	clock    int64
	mismatch atomic.Value
	evals    int64
	span     [][2]int64
}

func (k *crew) fail(format string, args ...any) {
	k.mismatch.CompareAndSwap(nil, fmt.Sprintf(format, args...))
}

// run releases n workers. Each one makes its first call between the two marks, then goes on.
func (k *crew) run(n int, first func(w int, rng *rand.Rand), then func(w int, rng *rand.Rand)) {
	k.span = make([][2]int64, n)
	delay := pick(k.rng, []int{0, 0, 10, 1000, 100000})
	var (
		wg    sync.WaitGroup
		ready sync.WaitGroup
		gate  = make(chan struct{})
	)
	for w := 0; w < n; w++ {
		wg.Add(1)
		ready.Add(1)
		go func(w int) {
			defer wg.Done()
			rng := rand.New(rand.NewSource(k.seed*1000 + int64(w)))
			spin, yields := 0, rng.Intn(4)
			if delay > 0 {
				spin = rng.Intn(delay)
			}
			ready.Done()
			<-gate
			for i := 0; i < spin; i++ {
				if i%1024 == 1023 && yields > 0 {
					runtime.Gosched()
				}
			}
			k.span[w][0] = atomic.AddInt64(&k.clock, 1)
			first(w, rng)
			k.span[w][1] = atomic.AddInt64(&k.clock, 1)
			if then != nil {
				then(w, rng)
			}
		}(w)
	}
	ready.Wait()
	close(gate)
	wg.Wait()
}

func (k *crew) report(n int) childReport {
	rep := childReport{Evals: int(k.evals), Workers: n}
	if m, ok := k.mismatch.Load().(string); ok {
		rep.Mismatch = m
	}
	marks := make([]string, 2*n)
	for w, s := range k.span {
		marks[s[0]-1] = fmt.Sprintf("%d(", w)
		marks[s[1]-1] = fmt.Sprintf("%d)", w)
		for v := 0; v < w; v++ {
			if s[0] < k.span[v][1] && k.span[v][0] < s[1] {
				rep.Overlaps++
			}
		}
	}
	rep.Order = strings.Join(marks, "")

	return rep
}

// childMain is one concurrent run: child MODE SEED.
func childMain(args []string) {
	mode := args[0]
	mon.WatchChild(200 * time.Second)
	if mode == "env" {
		childEnv(args[1])

		return
	}
	if mode == "orders" {
		childOrders(args[1], args[2], args[3])

		return
	}
	seed, err := strconv.ParseInt(args[1], 10, 64)
	if err != nil {
		panic(err)
	}
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d", mode, seed)
	k := &crew{rng: rand.New(rand.NewSource(int64(h.Sum64()))), seed: seed}
	r := mon.NewRun("child")
	runtime.GOMAXPROCS(pick(k.rng, []int{1, 2, 3, 4, 8, 16}))
	n := 2 + k.rng.Intn(15)
	switch mode {
	case "width":
		childWidth(r, k, n)
	case "hyphen":
		childHyphen(r, k, n)
	case "text":
		childText(k, n)
	case "lines":
		childLines(k, n)
	case "io":
		childIO(k, n)
	default:
		panic("unknown mode " + mode)
	}
	_ = json.NewEncoder(os.Stdout).Encode(k.report(n))
}

// childWidth: the first measures of a process, all at once.
func childWidth(r *mon.Run, k *crew, n int) {
	u := loadUnicode(r)
	modes := widthModes()
	east := k.rng.Intn(2) == 0
	measure := func(rng *rand.Rand) {
		m := modes[0]
		if east {
			m = pick(rng, modes)
		}
		size := 1 + rng.Intn(20)
		if rng.Intn(60) == 0 { // large enough to be worth sharing between goroutines
			size = 1 + rng.Intn(1<<(10+rng.Intn(6)))
		}
		rs := make([]rune, size)
		want := 0
		for i := range rs {
			rs[i] = widthRune(rng)
			if i >= 20 {
				rs[i] = rs[i%20]
			}
			want += u.width(rs[i], m)
		}
		got := 0
		what := rng.Intn(4)
		switch what {
		case 3:
			want = 0
			for _, x := range rs {
				if u.ambiguous(x) {
					want++
				}
				if runes.IsAmbiguous(x) {
					got++
				}
			}
		case 0:
			got = runes.Widths(rs, m.opts()...)
		case 1:
			for _, x := range rs {
				got += runes.Width(x, m.opts()...)
			}
		default:
			want = 0
			for _, x := range []rune(string(rs)) {
				want += u.width(x, m)
			}
			got = runes.StringWidth(string(rs), m.opts()...)
		}
		atomic.AddInt64(&k.evals, 1)
		if got != want {
			k.fail("%s of %s with %s = %d, want %d", []string{"Widths", "the sum of Width", "StringWidth", "the count of IsAmbiguous"}[what], q(rs), m, got, want)
		}
	}
	k.run(n, func(_ int, rng *rand.Rand) { measure(rng) }, func(_ int, rng *rand.Rand) {
		for i := 0; i < 300; i++ {
			measure(rng)
		}
	})
}

// childHyphen: the first hyphenators of a process, all at once; then words broken by shared and by own hyphenators.
func childHyphen(r *mon.Run, k *crew, n int) {
	names := liangNames
	if k.rng.Intn(2) == 0 { // all workers want the same dictionary, or one of two
		names = []string{pick(k.rng, liangNames), pick(k.rng, liangNames)}
	}
	dicts := map[string]*liang{}
	for _, name := range names {
		dicts[name] = loadLiang(r, name)
	}
	hs := make([]*hyphenator.Hyphenator, n)
	ms := make([]hyphMode, n)
	for w := range ms {
		ms[w] = randMode(k.rng)
		ms[w].lang = pick(k.rng, names)
	}
	sharedWords := map[string][][]rune{}
	for _, name := range names {
		for i := 0; i < 12; i++ {
			sharedWords[name] = append(sharedWords[name], noDots(mixCase(k.rng, randWord(k.rng, dicts[name], 20), pick(k.rng, []int{0, 20, 100}))))
		}
	}
	var dictNames sync.Map // the name of the dictionary of each language
	verify := func(h *hyphenator.Hyphenator, m hyphMode, rng *rand.Rand) {
		d := dicts[m.lang]
		if rng.Intn(4) == 0 {
			name := h.String()
			if first, known := dictNames.LoadOrStore(m.lang, name); known && first != name {
				k.fail("the dictionary of %s is named %q, and %q", m.lang, first, name)
			}
			if name != h.Identifier {
				k.fail("the dictionary of %s is named %q, its identifier is %q", m.lang, name, h.Identifier)
			}
			atomic.AddInt64(&k.evals, 1)
		}
		word := randWord(rng, d, 20)
		if rng.Intn(40) == 0 {
			for i := rng.Intn(30); i >= 0; i-- {
				word = append(word, randWord(rng, d, 20)...)
			}
		}
		word = noDots(mixCase(rng, word, 20))
		if rng.Intn(3) == 0 { // a word in an array that all the workers read
			word = pick(rng, sharedWords[m.lang])
		}
		if hasHyphen(word) {
			return
		}
		split := h.BreakWord
		if rng.Intn(4) == 0 && isValid(word) {
			split = func(word []rune) [][]rune { return h.BreakWordString(string(word)) }
		}
		got, want := split(word), d.split(word, m.minLength, m.minLeft, m.minRight)
		atomic.AddInt64(&k.evals, 1)
		if !eqParts(got, want) {
			k.fail("BreakWord(%s) with %s = %s, want %s", q(word), m, qq(got), qq(want))
		}
	}
	fromStart := k.rng.Intn(2) == 0
	listFirst := k.rng.Intn(3) == 0
	var files []string
	for _, f := range liangFiles {
		files = append(files, f)
	}
	sort.Strings(files)
	idents := make([]sync.Map, len(files))
	list := func(rng *rand.Rand) {
		atomic.AddInt64(&k.evals, 1)
		if rng.Intn(2) == 0 {
			got, err := hyphenator.SupportedPatterns()
			if err != nil || fmt.Sprint(got) != fmt.Sprint(files) {
				k.fail("SupportedPatterns = %q, %v: want %q", got, err, files)
			}
			for i := range got {
				got[i] = "changed by the caller"
			}

			return
		}
		i := rng.Intn(len(files))
		d, err := hyphenator.LoadPatterns(files[i])
		if err != nil || d == nil {
			k.fail("LoadPatterns(%q): %v", files[i], err)

			return
		}
		idents[i].Store(d.String(), true)
		d.Identifier = "changed by the caller"
		if d, err := hyphenator.LoadPatterns("no-" + files[i]); err == nil || d != nil {
			k.fail("LoadPatterns of a file that is not there = %v, %v", d, err)
		}
	}
	var made sync.WaitGroup
	made.Add(n)
	k.run(n, func(w int, rng *rand.Rand) {
		if listFirst && w%2 == 0 {
			list(rng)
		}
		opts := ms[w].opts()
		if rng.Intn(2) == 0 { // by name
			opts[0] = hyphenator.WithLanguage(liangTags[ms[w].lang].String())
		}
		hs[w] = hyphenator.New(opts...)
		if fromStart {
			verify(hs[w], ms[w], rng)
		}
		made.Done()
	}, func(w int, rng *rand.Rand) {
		for i := 0; i < 100; i++ {
			verify(hs[w], ms[w], rng)
			if rng.Intn(60) == 0 {
				list(rng)
			}
		}
		made.Wait()
		for i := 0; i < 200; i++ {
			v := rng.Intn(n)
			verify(hs[v], ms[v], rng)
			if rng.Intn(50) == 0 {
				m := randMode(rng)
				m.lang = pick(rng, names)
				verify(hyphenator.New(m.opts()...), m, rng)
			}
		}
	})
	owners := map[string]string{}
	for i, f := range files {
		idents[i].Range(func(id, _ any) bool {
			if other, ok := owners[id.(string)]; ok {
				k.fail("the dictionary of %q is named %q among others, as that of %q", f, id, other)
			}
			owners[id.(string)] = f

			return true
		})
	}
}

// childText: the functions without a receiver, and shared splitters, over inputs that all the workers share.
func childText(k *crew, n int) {
	const inputs = 40
	texts := make([][]rune, inputs)
	for i := range texts {
		size := 60
		if k.rng.Intn(20) == 0 { // large enough to be worth sharing between goroutines
			size = 1 << (9 + k.rng.Intn(6))
		}
		if i%2 == 0 {
			texts[i] = hostileANSI(k.rng, size)
		} else {
			texts[i] = anyRunes(k.rng, size, true)
		}
	}
	tok, pun := tokenizer.New(), punctuator.New()
	ops := []func(rs []rune) string{
		func(rs []rune) string { return showTokens(ansi.StripToken(rs)) },
		func(rs []rune) string { return showTokens([]ansi.StrippedToken{ansi.StripANSIFromRunes(rs)}) },
		func(rs []rune) string { return qq(tok.BreakWord(rs)) + qq(tok.BreakWordString(string(rs))) },
		func(rs []rune) string { return qq(pun.BreakWord(rs)) + qq(pun.BreakWordString(string(rs))) },
		func(rs []rune) string { return qq(tokenizer.New().BreakWord(rs)) },
		func(rs []rune) string { return qq(punctuator.New().BreakWord(rs)) },
		func(rs []rune) string { return qq(hyphenator.SplitWord(rs)) },
		func(rs []rune) string { return fmt.Sprint(hyphenator.IsHyphen(rs), punctuator.IsPunctuation(rs)) },
	}
	type outcome struct {
		op, text int
		got      string
	}
	got := make([][]outcome, n)
	do := func(w int, rng *rand.Rand) {
		o := outcome{op: rng.Intn(len(ops)), text: rng.Intn(inputs)}
		o.got = ops[o.op](texts[o.text])
		got[w] = append(got[w], o)
	}
	k.run(n, do, func(w int, rng *rand.Rand) {
		for i := 0; i < 200; i++ {
			do(w, rng)
		}
	})
	for _, os := range got {
		for _, o := range os {
			k.evals++
			if want := ops[o.op](texts[o.text]); o.got != want {
				k.fail("operation %d of %s yields %s among others, %s alone", o.op, q(texts[o.text]), o.got, want)
			}
		}
	}
}

// childLines: line breakers of their own, over tokens, hyphenators and options they share.
func childLines(k *crew, n int) {
	paras := make([]para, 12)
	for i := range paras {
		paras[i] = randPara(k.rng, pick(k.rng, []int{25, 25, 25, 25, 25, 25, 25, 25, 25, 25, 25, 600}))
		for t := range paras[i].tokens {
			switch k.rng.Intn(12) {
			case 0:
				paras[i].tokens[t] = string(seq(k.rng, kStart)) + paras[i].tokens[t]
			case 1:
				paras[i].tokens[t] += string(seq(k.rng, kStop))
			}
		}
	}
	opts := make([][]linebreak.Option, len(paras))
	for i := range opts {
		opts[i] = paras[i].conf.opts() // the same hyphenator for all
	}
	set := func(i int, lb *linebreak.LineBreaker) string {
		lines, err := lb.LeftAlignUniform(paras[i].tokens, paras[i].width)

		return fmt.Sprintf("%+q, %v", lines, err)
	}
	type outcome struct {
		para int
		got  string
	}
	got := make([][]outcome, n)
	do := func(w int, rng *rand.Rand) {
		i := rng.Intn(len(paras))
		got[w] = append(got[w], outcome{i, set(i, linebreak.New(opts[i]...))})
	}
	k.run(n, do, func(w int, rng *rand.Rand) {
		own := make([]*linebreak.LineBreaker, len(paras))
		for j := 0; j < 20; j++ {
			if rng.Intn(3) == 0 {
				do(w, rng)

				continue
			}
			i := rng.Intn(len(paras))
			if own[i] == nil {
				own[i] = linebreak.New(opts[i]...)
			}
			got[w] = append(got[w], outcome{i, set(i, own[i])})
		}
	})
	for _, os := range got {
		for _, o := range os {
			k.evals++
			if want := set(o.para, linebreak.New(opts[o.para]...)); o.got != want {
				k.fail("%s yields %s among others, %s alone", paras[o.para], o.got, want)
			}
		}
	}
}

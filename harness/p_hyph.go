package main

import (
	"fmt"
	"math/rand"
	"path"
	"sort"
	"strings"
	"sync"
	"unicode"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"golang.org/x/text/language"

	"verif/harness/internal/mon"
)

func init() {
	checks["H01"] = checkHyphenPartition
	checks["H02"] = checkLiang
	checks["H03"] = checkLanguageSelection
	checks["H04"] = checkPatternFiles
	checks["H05"] = checkHyphenCase
}

// the language each reference dictionary stands for
var liangTags = map[string]language.Tag{
	"us": language.AmericanEnglish, "gb": language.BritishEnglish, "fr": language.French, "de": language.German, "es": language.Spanish,
}

func loadAllLiang(r *mon.Run) map[string]*liang {
	out := map[string]*liang{}
	var (
		wg sync.WaitGroup
		mx sync.Mutex
	)
	for _, name := range liangNames {
		wg.Add(1)
		go func(name string) {
			defer wg.Done()
			d := loadLiang(r, name)
			mx.Lock()
			out[name] = d
			mx.Unlock()
		}(name)
	}
	wg.Wait()

	return out
}

// a setting of the hyphenator
type hyphMode struct {
	lang                          string // one of liangNames
	minLength, minLeft, minRight  int
	setLength, setLeft, setRight_ bool
}

func (m hyphMode) String() string {
	return fmt.Sprintf("lang=%s minLength=%d minLeft=%d minRight=%d", m.lang, m.minLength, m.minLeft, m.minRight)
}

func (m hyphMode) opts() (out []hyphenator.Option) {
	out = append(out, hyphenator.WithLanguageTag(liangTags[m.lang]))
	if m.setLength {
		out = append(out, hyphenator.WithMinLength(m.minLength))
	}
	if m.setLeft {
		out = append(out, hyphenator.WithMinLeft(m.minLeft))
	}
	if m.setRight_ {
		out = append(out, hyphenator.WithMinRight(m.minRight))
	}

	return out
}

// randMode draws a setting: defaults are 4, 2, 2.
func randMode(rng *rand.Rand) hyphMode {
	m := hyphMode{lang: pick(rng, liangNames), minLength: 4, minLeft: 2, minRight: 2}
	if rng.Intn(3) > 0 {
		m.setLength, m.minLength = true, rng.Intn(13)
	}
	if rng.Intn(3) > 0 {
		m.setLeft, m.minLeft = true, rng.Intn(6)
	}
	if rng.Intn(3) > 0 {
		m.setRight_, m.minRight = true, rng.Intn(6)
	}
	if rng.Intn(20) == 0 {
		*pick(rng, []*int{&m.minLength, &m.minLeft, &m.minRight}) = pick(rng, []int{-1, -300, 7, 10, 25, 30, 31, 64, 128, 255, 256, 300, 1 << 32})
		m.setLength, m.setLeft, m.setRight_ = true, true, true
	}

	return m
}

// randWord makes a word that exercises the patterns of a dictionary: pieces of patterns and exceptions, and letters of its alphabet.
func randWord(rng *rand.Rand, d *liang, max int) []rune {
	n := 1 + rng.Intn(max)
	var w []rune
	for len(w) < n {
		switch rng.Intn(8) {
		case 0:
			w = append(w, pick(rng, d.alphabet))
		case 1:
			w = append(w, pick(rng, letters))
		case 2:
			if len(d.excOrder) > 0 && rng.Intn(4) == 0 {
				w = append(w, []rune(pick(rng, d.excOrder))...)
			}
		default:
			for _, r := range pick(rng, d.order) {
				if r != '.' {
					w = append(w, r)
				}
			}
		}
	}
	if rng.Intn(6) > 0 && len(w) > n {
		w = w[:n]
	}

	return w
}

// mixCase changes the case of some letters, of those that lower-case back to the same letter.
// allCapitals are the runes that have a given one in lower case.
var allCapitals = func() map[rune][]rune {
	out := map[rune][]rune{}
	for x := rune(0); x <= unicode.MaxRune; x++ {
		if l := unicode.ToLower(x); l != x {
			out[l] = append(out[l], x)
		}
	}

	return out
}()

// lookAlikes are runes (or several) which look like a letter, or are taken for it by some rules of comparison, but which are others: they match no pattern of that letter.
var lookAlikes = func() map[rune][]string {
	out := map[rune][]string{
		'a': {"\u0430", "\u00aa", "a\u0301", "\u00e5", "\u212b", "\u00e3"}, 'e': {"\u0435", "e\u0301", "\u0451", "\u212e", "\u00eb"}, 'i': {"\u0131", "\u0130", "\u0456", "\u00ef", "i\u0308", "I\u0307"}, 'o': {"\u043e", "\u03bf", "\u00ba", "0", "\u00f6", "o\u0308"},
		'c': {"\u0441", "\u00e7", "c\u0327"}, 'p': {"\u0440"}, 'u': {"\u00fc", "u\u0308", "v"}, 'l': {"\u0140", "1", "|"}, 'n': {"\u00f1", "n\u0303"},
		's': {"\u017f", "\u00df", "\u1e9e", "ss"}, '\u00df': {"ss", "\u1e9e", "SS", "sz"}, '\u00e9': {"e", "e\u0301", "E\u0301"}, '\u00fc': {"ue", "u", "u\u0308"}, '\u00f1': {"n", "n\u0303"}, '\u00e4': {"ae", "a\u0308"}, '\u00f6': {"oe", "o\u0308"},
		'\u0153': {"oe"}, '\u00e6': {"ae"}, '\'': {"\u2019", "\u02bc", "\uff07", "`"}, '\u2019': {"'", "\u02bc"}, 'f': {"\ufb01", "\ufb02", "\ufb00"}, 't': {"\ufb05", "\ufb06"}, '\u03bc': {"\u00b5"}, '\u03c3': {"\u03c2"}, 'd': {"\u01c5", "\u01f2"},
	}
	for x := 'a'; x <= 'z'; x++ {
		out[x] = append(out[x], string(x-'a'+0xff41), string(x-'a'+0xff21), string(x-'a'+0x24d0), string(x-'a'+0x24b6), string(x)+"\u00ad", string(x)+"\u200d", string(x)+"\u0302", string(x-'a'+0x1d41a))
	}

	return out
}()

func withLookAlikes(rng *rand.Rand, w []rune) (out []rune) {
	at := rng.Intn(len(w) + 1)
	for i, x := range w {
		if all := lookAlikes[x]; len(all) > 0 && (i == at || rng.Intn(12) == 0) {
			out = append(out, []rune(pick(rng, all))...)
		} else {
			out = append(out, x)
		}
	}

	return out
}

func mixCase(rng *rand.Rand, w []rune, p int) []rune {
	out := clone(w)
	for i, r := range out {
		if caps := allCapitals[r]; len(caps) > 0 && rng.Intn(200) < p { // all there are, as the Kelvin sign for k
			out[i] = pick(rng, caps)

			continue
		}
		if u := unicode.ToUpper(r); unicode.ToLower(u) == r && rng.Intn(100) < p {
			out[i] = u
		}
	}

	return out
}

func hasHyphen(w []rune) bool {
	for _, r := range w {
		if unicode.Is(unicode.Hyphen, r) {
			return true
		}
	}

	return false
}

func noDots(w []rune) []rune {
	out := w[:0:0]
	for _, r := range w {
		if r != '.' {
			out = append(out, r)
		}
	}

	return out
}

// checkHyphenPartition: whatever the word, language and settings, the parts add up, and respect the minimums.
func checkHyphenPartition(r *mon.Run) {
	r.Rule("random words (pieces of patterns, exceptions, all classes of runes, hyphens, invalid runes; 0-80 runes, some of 2000) with random settings of minLength (0-12), minLeft, minRight (0-5) in 5 languages; " +
		"non-trivial: the word is broken in at least 2 parts")
	dicts := loadAllLiang(r)
	one := func(c *mon.Case, h *hyphenator.Hyphenator, m hyphMode, w []rune) {
		in, whole := inMiddle(w)
		before := clone(whole)
		c.Input("BreakWord(%s) with %s", q(w), m)
		got := h.BreakWord(in)
		if !eqRunes(join(got), w) {
			c.Fail("BreakWord = %s: the parts do not add up to the word", qq(got))
		}
		if !eqRunes(before, whole) {
			c.Fail("the word was modified")
		}
		if len(got) == 0 {
			c.Fail("no part at all")
		}
		if len(got) > 1 {
			switch {
			case len(w) < m.minLength:
				c.Fail("BreakWord = %s: a word of %d runes is broken", qq(got), len(w))
			case hasHyphen(w):
				c.Fail("BreakWord = %s: a word with an explicit hyphen is broken", qq(got))
			}
			for i, part := range got {
				switch {
				case len(part) == 0:
					c.Fail("BreakWord = %s: empty part", qq(got))
				case i < len(got)-1 && len(part) < m.minLeft:
					c.Fail("BreakWord = %s: part %s is shorter than minLeft", qq(got), q(part))
				case i == len(got)-1 && len(part) < m.minRight:
					c.Fail("BreakWord = %s: last part %s is shorter than minRight", qq(got), q(part))
				}
			}
			r.Nontrivial(q(w) + m.String())
		}
		if isValid(w) {
			if gotStr := h.BreakWordString(string(w)); !eqParts(got, gotStr) {
				c.Fail("BreakWordString = %s, BreakWord = %s", qq(gotStr), qq(got))
			}
			c.Eval(1)
		}
		c.Eval(1)
		if c.Index < 6 {
			r.Sample("BreakWord(%s) with %s = %s", q(w), m, qq(got))
		}
	}
	r.Cases("random", r.N(12000, 300000), func(c *mon.Case) {
		m := randMode(c.Rng)
		h := hyphenator.New(m.opts()...)
		for k := 0; k < 10; k++ {
			var w []rune
			switch c.Rng.Intn(6) {
			case 0:
				w = anyRunes(c.Rng, 40, true)
			case 1:
				w = randWord(c.Rng, dicts[m.lang], 40)
				w[c.Rng.Intn(len(w))] = anyRune(c.Rng, true)
			case 2:
				w = randWord(c.Rng, dicts[pick(c.Rng, liangNames)], 80)
			default:
				w = randWord(c.Rng, dicts[m.lang], 30)
			}
			one(c, h, m, mixCase(c.Rng, w, 10))
		}
		b := string(mixBytes(c.Rng, []byte(string(randWord(c.Rng, dicts[m.lang], 20)))))
		c.Input("BreakWordString(%+q) with %s", b, m)
		if got, want := h.BreakWordString(b), h.BreakWord([]rune(b)); !eqParts(got, want) {
			c.Fail("BreakWordString = %s, BreakWord on its runes = %s", qq(got), qq(want))
		}
		c.Eval(1)
	})
	r.Cases("lengths", 130, func(c *mon.Case) { // every length around the sizes of internal buffers
		for _, lang := range liangNames {
			for k := 0; k < 20; k++ {
				m := hyphMode{lang: lang, setLength: true, minLength: 1, setLeft: true, minLeft: 1, setRight_: true, minRight: 1}
				w := randWord(c.Rng, dicts[lang], 130)
				for len(w) < c.Index {
					w = append(w, randWord(c.Rng, dicts[lang], 20)...)
				}
				one(c, hyphenator.New(m.opts()...), m, w[:c.Index])
			}
		}
	})
	r.Cases("long", r.N(40, 400), func(c *mon.Case) {
		m := randMode(c.Rng)
		one(c, hyphenator.New(m.opts()...), m, randWord(c.Rng, dicts[m.lang], 2000))
	})
	r.Cases("min-length", 14, func(c *mon.Case) { // around minLength exactly
		for _, lang := range liangNames {
			m := hyphMode{lang: lang, setLength: true, minLength: c.Index, minLeft: 2, minRight: 2}
			h := hyphenator.New(m.opts()...)
			for d := -2; d <= 2; d++ {
				for k := 0; k < 40; k++ {
					n := c.Index + d
					w := randWord(c.Rng, dicts[lang], 20)
					for len(w) < n {
						w = append(w, randWord(c.Rng, dicts[lang], 20)...)
					}
					if n >= 0 {
						one(c, h, m, w[:n])
					}
				}
			}
		}
	})
	r.Cases("hyphens", r.N(2000, 40000), func(c *mon.Case) { // every hyphen, everywhere
		m := randMode(c.Rng)
		h := hyphenator.New(m.opts()...)
		w := randWord(c.Rng, dicts[m.lang], 20)
		at := c.Rng.Intn(len(w) + 1)
		for _, x := range hyphs {
			one(c, h, m, append(append(clone(w[:at]), x), w[at:]...))
		}
	})
}

// checkLiang: the break points are those of Liang's algorithm on the original patterns and exceptions.
func checkLiang(r *mon.Run) {
	r.Rule("for each of the 5 dictionaries: every pattern of the original TeX file embedded in words that trigger it, every exception and its neighbours, random words of 1-60 letters " +
		"of the dictionary's alphabet, with default and random minimums, fresh and shared hyphenators interleaved; oracle: an independent implementation of Liang's algorithm reading the original TeX files; " +
		"non-trivial: the reference breaks the word in at least 2 parts")
	inOrders(r, "words", r.N(4, 40))
	r.Assume("harness/data/tex holds copies of wordbreak/hyphenator/languages/tex (the original TeX files)")
	dicts := loadAllLiang(r)
	one := func(c *mon.Case, h *hyphenator.Hyphenator, m hyphMode, w []rune) {
		w = noDots(w)
		if hasHyphen(w) {
			return
		}
		c.Input("BreakWord(%s) with %s", q(w), m)
		got := h.BreakWord(clone(w))
		want := dicts[m.lang].split(w, m.minLength, m.minLeft, m.minRight)
		if !eqParts(got, want) {
			c.Fail("BreakWord = %s, Liang's algorithm on the patterns of %s gives %s", qq(got), liangFiles[m.lang], qq(want))
		}
		c.Eval(1)
		if len(want) > 1 {
			r.Nontrivial(string(w) + m.String())
		}
	}
	loose := func(lang string) hyphMode {
		return hyphMode{lang: lang, setLength: true, minLength: 1, setLeft: true, minLeft: 1, setRight_: true, minRight: 1}
	}
	for _, lang := range liangNames {
		lang := lang
		d := dicts[lang]
		const chunk = 64
		r.Cases("every-pattern-"+lang, (len(d.order)+chunk-1)/chunk, func(c *mon.Case) {
			var hs []*hyphenator.Hyphenator
			ms := []hyphMode{loose(lang), {lang: lang, minLength: 4, minLeft: 2, minRight: 2}, {lang: lang, setLength: true, minLength: 0, setLeft: true, setRight_: true}}
			for _, m := range ms {
				hs = append(hs, hyphenator.New(m.opts()...))
			}
			for i := c.Index * chunk; i < len(d.order) && i < (c.Index+1)*chunk; i++ {
				p := []rune(d.order[i])
				start, end := p[0] == '.', p[len(p)-1] == '.'
				core := noDots(p)
				for k := 0; k < r.N(6, 60); k++ {
					w := clone(core)
					if !end && k > 0 {
						w = append(w, randWord(c.Rng, d, 1+c.Rng.Intn(8))...)
					}
					if !start && k > 0 {
						w = append(randWord(c.Rng, d, 1+c.Rng.Intn(8)), w...)
					}
					for j := range ms {
						one(c, hs[j], ms[j], w)
					}
				}
			}
			r.Count("chunks of 64 patterns exercised", 1)
		})
		r.Cases("every-exception-"+lang, len(d.excOrder), func(c *mon.Case) {
			w := []rune(d.excOrder[c.Index])
			for _, m := range []hyphMode{loose(lang), {lang: lang, minLength: 4, minLeft: 2, minRight: 2}, {lang: lang, minLength: 4, minLeft: 3, setLeft: true, minRight: 3, setRight_: true}} {
				h := hyphenator.New(m.opts()...)
				one(c, h, m, w)
				one(c, h, m, mixCase(c.Rng, w, 100))
				one(c, h, m, mixCase(c.Rng, w, 50))
				one(c, h, m, append([]rune{unicode.ToUpper(w[0])}, w[1:]...))
				one(c, h, m, append(clone(w), 's'))
				one(c, h, m, append(clone(w), w...))
				one(c, h, m, w[:len(w)-1])
				one(c, h, m, w[1:])
				one(c, h, m, append([]rune{'a'}, w...))
				one(c, h, m, append(clone(w), '}'))
			}
		})
	}
	r.Cases("random", r.N(20000, 600000), func(c *mon.Case) {
		m := randMode(c.Rng)
		h := hyphenator.New(m.opts()...)
		for k := 0; k < 5; k++ {
			w := randWord(c.Rng, dicts[m.lang], 1+c.Rng.Intn(60))
			if c.Rng.Intn(4) == 0 {
				w = mixCase(c.Rng, w, c.Rng.Intn(101))
			}
			one(c, h, m, w)
		}
		if c.Index < 6 {
			w := randWord(c.Rng, dicts[m.lang], 20)
			r.Sample("BreakWord(%s) with %s = %s", q(w), m, qq(h.BreakWord(w)))
		}
	})
	r.Cases("look-alikes", r.N(6000, 150000), func(c *mon.Case) {
		lang := pick(c.Rng, liangNames)
		m := loose(lang)
		if c.Rng.Intn(3) == 0 {
			m = randMode(c.Rng)
		}
		h, d := hyphenator.New(m.opts()...), dicts[m.lang]
		for k := 0; k < 6; k++ {
			w := randWord(c.Rng, d, 1+c.Rng.Intn(30))
			if len(d.excOrder) > 0 && c.Rng.Intn(3) == 0 {
				w = []rune(pick(c.Rng, d.excOrder))
			}
			other := withLookAlikes(c.Rng, w)
			one(c, h, m, w)
			one(c, h, m, other)
			one(c, h, m, mixCase(c.Rng, other, 30))
			one(c, h, m, w)
			if !eqRunes(w, other) {
				r.Count("words with look-alikes", 1)
			}
		}
	})
	r.Require("words with look-alikes", 5000)
	r.Cases("every-length", 100, func(c *mon.Case) {
		for _, lang := range liangNames {
			m := loose(lang)
			h := hyphenator.New(m.opts()...)
			for k := 0; k < r.N(30, 400); k++ {
				w := randWord(c.Rng, dicts[lang], 20)
				for len(w) <= c.Index {
					w = append(w, randWord(c.Rng, dicts[lang], 20)...)
				}
				one(c, h, m, w[:c.Index])
			}
		}
	})
	big := sizes(r.N(11, 13)) // the time taken is quadratic
	r.Cases("sizes", len(big)*len(liangNames), func(c *mon.Case) {
		lang := liangNames[c.Index%len(liangNames)]
		m := loose(lang)
		var w []rune
		for len(w) < big[c.Index/len(liangNames)] {
			w = append(w, noDots(randWord(c.Rng, dicts[lang], 20))...)
		}
		w = w[:big[c.Index/len(liangNames)]]
		if c.Rng.Intn(2) == 0 {
			w = mixCase(c.Rng, w, 10)
		}
		one(c, hyphenator.New(m.opts()...), m, w)
	})
	longHyphenator(r, dicts)
	r.Cases("interleaved", r.N(60, 1000), func(c *mon.Case) { // hyphenators of all languages, used in turns: no state is shared but the dictionaries
		var (
			hs []*hyphenator.Hyphenator
			ms []hyphMode
		)
		for k := 0; k < 12; k++ {
			ms = append(ms, randMode(c.Rng))
			hs = append(hs, hyphenator.New(ms[k].opts()...))
		}
		for k := 0; k < 200; k++ {
			i := c.Rng.Intn(len(hs))
			if c.Rng.Intn(20) == 0 { // another dictionary for the same hyphenator
				ms[i].lang = pick(c.Rng, liangNames)
				d, err := hyphenator.LoadPatterns(liangFiles[ms[i].lang])
				if err != nil {
					c.Fail("LoadPatterns(%q): %v", liangFiles[ms[i].lang], err)

					return
				}
				hs[i].Dictionary = d
			}
			one(c, hs[i], ms[i], randWord(c.Rng, dicts[ms[i].lang], 25))
		}
	})
}

func checkHyphenCase(r *mon.Run) {
	r.Rule("random words of each dictionary (and every exception), in lower case, upper case, title case and random mixes of all the runes that have these letters in lower case (also the Kelvin and Angstrom signs, capital sharp s, dotted I); " +
		"oracle: same positions of the breaks, and the parts keep the case of the input; non-trivial: at least 2 parts and a change of case")
	dicts := loadAllLiang(r)
	lengths := func(parts [][]rune) (out []int) {
		for _, p := range parts {
			out = append(out, len(p))
		}

		return out
	}
	one := func(c *mon.Case, h *hyphenator.Hyphenator, m hyphMode, w []rune) {
		base := h.BreakWord(clone(w))
		variants := [][]rune{mixCase(c.Rng, w, 100), mixCase(c.Rng, w, 50), mixCase(c.Rng, w, 10), append(mixCase(c.Rng, w[:1], 100), w[1:]...)}
		for _, v := range variants {
			c.Input("BreakWord(%s) and BreakWord(%s) with %s", q(w), q(v), m)
			got := h.BreakWord(clone(v))
			if fmt.Sprint(lengths(got)) != fmt.Sprint(lengths(base)) || !eqRunes(join(got), v) {
				c.Fail("%s breaks as %s, but %s as %s", q(w), qq(base), q(v), qq(got))
			}
			c.Eval(1)
			if len(base) > 1 && !eqRunes(v, w) {
				r.Nontrivial(string(v) + m.String())
			}
		}
	}
	r.Cases("random", r.N(10000, 300000), func(c *mon.Case) {
		m := randMode(c.Rng)
		h := hyphenator.New(m.opts()...)
		for k := 0; k < 6; k++ {
			w := randWord(c.Rng, dicts[m.lang], 30)
			one(c, h, m, w)
			if c.Index < 6 && k == 0 {
				r.Sample("%s, upper-cased: %s", qq(h.BreakWord(w)), qq(h.BreakWord(mixCase(c.Rng, w, 100))))
			}
		}
	})
	for _, lang := range liangNames {
		lang := lang
		d := dicts[lang]
		r.Cases("exceptions-"+lang, len(d.excOrder), func(c *mon.Case) {
			m := hyphMode{lang: lang, minLength: 4, minLeft: 2, minRight: 2}
			one(c, hyphenator.New(m.opts()...), m, []rune(d.excOrder[c.Index]))
		})
		r.Cases("patterns-"+lang, (len(d.order)+63)/64, func(c *mon.Case) {
			m := hyphMode{lang: lang, setLength: true, minLength: 1, setLeft: true, minLeft: 1, setRight_: true, minRight: 1}
			h := hyphenator.New(m.opts()...)
			for i := c.Index * 64; i < len(d.order) && i < (c.Index+1)*64; i++ {
				one(c, h, m, append(noDots([]rune(d.order[i])), randWord(c.Rng, d, 4)...))
			}
		})
	}
}

// checkLanguageSelection finds by its behaviour which dictionary a hyphenator uses.
func checkLanguageSelection(r *mon.Run) {
	r.Rule("hyphenators for every (language, region) pair over fr, de, es, en and all 2-letter regions, with scripts, variants and extensions, as tags and as strings, plus languages without patterns; " +
		"the dictionary in use is identified by the break points of 400 discriminating words; non-trivial: one identification per language tag and form")
	inOrders(r, "languages", r.N(6, 60))
	dicts := loadAllLiang(r)
	rng := rand.New(rand.NewSource(r.Seed))
	var (
		words [][]rune
		want  = map[string][]string{} // per dictionary, the rendering of each word
	)
	for len(words) < 400 {
		w := noDots(randWord(rng, dicts[liangNames[len(words)%5]], 25))
		if hasHyphen(w) {
			continue
		}
		words = append(words, w)
		for _, name := range liangNames {
			want[name] = append(want[name], qq(dicts[name].split(w, 4, 2, 2)))
		}
	}
	identify := func(h *hyphenator.Hyphenator) string {
		alive := append([]string{}, liangNames...)
		for i, w := range words {
			got := qq(h.BreakWord(w))
			var still []string
			for _, name := range alive {
				if want[name][i] == got {
					still = append(still, name)
				}
			}
			alive = still
			if len(alive) == 0 {
				return "none"
			}
		}
		if len(alive) > 1 {
			return "ambiguous"
		}

		return alive[0]
	}
	check := func(c *mon.Case, form, lang string, allowed ...string) {
		var h *hyphenator.Hyphenator
		c.Input("language %q as a %s", lang, form)
		if form == "string" {
			h = hyphenator.New(hyphenator.WithLanguage(lang))
		} else {
			h = hyphenator.New(hyphenator.WithLanguageTag(language.Make(lang)))
		}
		got := identify(h)
		c.Eval(1)
		r.Nontrivial(form + lang)
		r.Count("selected "+got, 1)
		if c.Index < 8 {
			r.Sample("%q as a %s selects %s", lang, form, got)
		}
		for _, a := range allowed {
			if a == got {
				return
			}
		}
		c.Fail("language %q as a %s hyphenates with the patterns of %q, want one of %q", lang, form, got, allowed)
	}
	both := func(c *mon.Case, lang string, allowed ...string) {
		check(c, "string", lang, allowed...)
		check(c, "tag", lang, allowed...)
	}
	var regions []string
	for a := 'A'; a <= 'Z'; a++ {
		for b := 'A'; b <= 'Z'; b++ {
			if _, err := language.ParseRegion(string([]rune{a, b})); err == nil {
				regions = append(regions, string([]rune{a, b}))
			}
		}
	}
	regions = append(regions, "419", "001", "150")
	base := map[string][]string{"fr": {"fr"}, "de": {"de"}, "es": {"es"}, "en": {"us", "gb"}}
	for _, lang := range []string{"fr", "de", "es", "en"} {
		lang := lang
		r.Cases("regions-"+lang, len(regions), func(c *mon.Case) {
			reg := regions[c.Index]
			allowed := base[lang]
			switch lang + reg {
			case "enUS":
				allowed = []string{"us"}
			case "enGB":
				allowed = []string{"gb"}
			}
			both(c, lang+"-"+reg, allowed...)
			both(c, lang+"-Latn-"+reg, allowed...)
			both(c, lang+"-"+reg+"-u-nu-latn", allowed...)
		})
	}
	exact := [][2]string{
		{"en-US", "us"}, {"en", "us"}, {"en-GB", "gb"}, {"fr", "fr"}, {"de", "de"}, {"es", "es"}, {"fr-FR", "fr"}, {"de-DE", "de"}, {"es-ES", "es"},
		{"fr-CA", "fr"}, {"es-419", "es"}, {"de-1996", "de"}, {"de-CH-1996", "de"}, {"fr-CH", "fr"}, {"de-AT", "de"}, {"es-MX", "es"}, {"en_GB", "gb"}, {"en_US", "us"}, {"EN-gb", "gb"}, {"FR", "fr"},
		{"fr-u-co-phonebk", "fr"}, {"de-u-co-phonebk", "de"}, {"en-GB-oxendict", "gb"}, {"en-US-u-ca-gregory", "us"},
		// no patterns: the default
		{"uk", "us"}, {"zh", "us"}, {"ja", "us"}, {"ko", "us"}, {"ru", "us"}, {"ar", "us"}, {"pt", "us"}, {"it", "us"}, {"nl", "us"}, {"pl", "us"}, {"und", "us"}, {"xx-unknown-!", "us"}, {"", "us"},
	}
	r.Cases("exact", len(exact), func(c *mon.Case) { both(c, exact[c.Index][0], exact[c.Index][1]) })
	tags := []struct {
		tag  language.Tag
		want string
	}{
		{language.AmericanEnglish, "us"}, {language.BritishEnglish, "gb"}, {language.French, "fr"}, {language.CanadianFrench, "fr"}, {language.German, "de"},
		{language.Spanish, "es"}, {language.EuropeanSpanish, "es"}, {language.LatinAmericanSpanish, "es"}, {language.Ukrainian, "us"}, {language.Und, "us"},
	}
	r.Cases("tags", len(tags), func(c *mon.Case) {
		x := tags[c.Index]
		c.Input("tag %s", x.tag)
		if got := identify(hyphenator.New(hyphenator.WithLanguageTag(x.tag))); got != x.want {
			c.Fail("tag %s hyphenates with the patterns of %q, want %q", x.tag, got, x.want)
		}
		c.Eval(1)
	})
	r.Cases("default-and-last-option", 30, func(c *mon.Case) {
		if got := identify(hyphenator.New()); got != "us" {
			c.Fail("the default language is %q", got)
		}
		a, b := pick(c.Rng, liangNames), pick(c.Rng, liangNames)
		c.Input("language %s then %s", a, b)
		if got := identify(hyphenator.New(hyphenator.WithLanguageTag(liangTags[a]), hyphenator.WithLanguage(liangTags[b].String()))); got != b {
			c.Fail("with language %s then %s: hyphenates with the patterns of %q", a, b, got)
		}
		c.Eval(2)
	})
	// several options, of which the last one wins, whatever it names
	known := map[string]string{}
	for _, x := range exact {
		known[x[0]] = x[1]
	}
	var names []string
	for _, x := range exact {
		names = append(names, x[0])
	}
	r.Cases("several-options", r.N(1200, 20000), func(c *mon.Case) {
		var (
			opts []hyphenator.Option
			last string
			desc string
		)
		for i := 2 + c.Rng.Intn(4); i > 0; i-- {
			last = pick(c.Rng, names)
			if c.Rng.Intn(2) == 0 {
				opts = append(opts, hyphenator.WithLanguage(last))
				desc += fmt.Sprintf("WithLanguage(%q) ", last)
			} else {
				opts = append(opts, hyphenator.WithLanguageTag(language.Make(last)))
				desc += fmt.Sprintf("WithLanguageTag(%q) ", last)
			}
			if c.Rng.Intn(3) == 0 { // in between: other options
				opts = append(opts, hyphenator.WithMinLength(4), hyphenator.WithMinLeft(2), hyphenator.WithMinRight(2))
			}
		}
		c.Input("%s", desc)
		if got := identify(hyphenator.New(opts...)); got != known[last] {
			c.Fail("with %s: hyphenates with the patterns of %q, want %q", desc, got, known[last])
		}
		c.Eval(1)
		r.Count("several options", 1)
	})
	// any language at all: total, stable, and always one of the dictionaries
	r.Cases("any-language", r.N(676, 676*6), func(c *mon.Case) {
		lang := string([]rune{'a' + rune(c.Index%676/26), 'a' + rune(c.Index%26)})
		if c.Index >= 676 {
			lang += "-" + pick(c.Rng, regions)
		}
		both(c, lang, liangNames...)
		if c.Index < 676 {
			h1, h2 := identify(hyphenator.New(hyphenator.WithLanguage(lang))), identify(hyphenator.New(hyphenator.WithLanguage(lang)))
			if h1 != h2 {
				c.Fail("language %q hyphenates with %s, then with %s", lang, h1, h2)
			}
		}
	})
}

// checkPatternFiles: the listed pattern files load, and no other name does.
func checkPatternFiles(r *mon.Run) {
	r.Rule("the listed names, and random names made from them (case, spaces, prefixes, suffixes, cut, other separators, directories), loaded in random orders with listings in between, results of which are then overwritten; " +
		"oracles: the listing is always the same, names load if and only if they lead to a listed file, hyphenators do not change; non-trivial: a name that is not listed")
	dicts := loadAllLiang(r)
	listing := func(c *mon.Case) []string {
		files, err := hyphenator.SupportedPatterns()
		if err != nil {
			c.Fail("SupportedPatterns: %v", err)
		}
		if len(files) != len(liangFiles) {
			c.Fail("SupportedPatterns = %q, want %d files", files, len(liangFiles))
		}
		for i, f := range files {
			if i > 0 && files[i-1] >= f {
				c.Fail("SupportedPatterns is not sorted: %q", files)
			}
		}
		for _, f := range liangFiles {
			if k := sort.SearchStrings(files, f); k == len(files) || files[k] != f {
				c.Fail("SupportedPatterns = %q lacks %q", files, f)
			}
		}
		c.Eval(1)

		return files
	}
	var names []string
	for _, f := range liangFiles {
		names = append(names, f)
	}
	sort.Strings(names)
	// where a name leads, from the folder of the pattern files: the listed file, if any
	target := func(name string) string {
		p := path.Join("languages", name)
		for _, f := range names {
			if p == "languages/"+f {
				return f
			}
		}

		return ""
	}
	odd := func(rng *rand.Rand) string {
		f := pick(rng, names)
		for k := rng.Intn(3); k >= 0; k-- {
			switch rng.Intn(12) {
			case 0:
				f = strings.ToUpper(f)
			case 1:
				f = f[:rng.Intn(len(f)+1)]
			case 2:
				f = strings.TrimSuffix(f, ".tex")
			case 3:
				f += pick(rng, []string{" ", "/", "\x00", ".", ".tex", "/..", "x", "\n", "/."})
			case 4:
				f = pick(rng, []string{" ", "/", "./", "../", "languages/", "../languages/", "tex/", "tex/../", "\\", "x/../"}) + f
			case 5:
				f = pick(rng, []string{"", ".", "..", "/", "tex", "doc.go", "README.md", "strip_comments.go", "../hyphenator.go", "tex/hyph-fr.tex", "*.tex", "hyph-*.tex", "con", "hyph-it.tex", "patterns", "/etc/passwd"})
			case 6:
				f = string(anyRunes(rng, 12, true))
			case 7:
				f = strings.Replace(f, "-", pick(rng, []string{"_", "", "--", "\u2010"}), 1)
			case 8:
				if len(f) > 0 {
					i := rng.Intn(len(f))
					f = f[:i] + string(rune('a'+rng.Intn(26))) + f[i+1:]
				}
			case 9:
				f = strings.Repeat(f, 1+rng.Intn(300))
			default: // as it is
			}
		}

		return f
	}
	ident := map[string]string{} // written by the first workload only
	r.Cases("listed", 1, func(c *mon.Case) {
		seen := map[string]bool{}
		for k := 0; k < 3; k++ {
			for _, f := range listing(c) {
				c.Input("LoadPatterns(%q)", f)
				d, err := hyphenator.LoadPatterns(f)
				if err != nil || d == nil {
					c.Fail("LoadPatterns(%q): %v", f, err)
				}
				name := d.String()
				if k == 0 {
					if name == "" || seen[name] {
						c.Fail("the dictionary of %q is named %q, as another one", f, name)
					}
					ident[f], seen[name] = name, true
				} else if ident[f] != name {
					c.Fail("the dictionary of %q is named %q, then %q", f, ident[f], name)
				}
				d.Identifier = "changed by the caller"
				c.Eval(2)
			}
		}
	})
	r.Cases("names", r.N(400, 6000), func(c *mon.Case) {
		var h *hyphenator.Hyphenator
		var m hyphMode
		if c.Index%20 == 0 {
			m = randMode(c.Rng)
			h = hyphenator.New(m.opts()...)
		}
		for k := 0; k < 40; k++ {
			name := odd(c.Rng)
			to := target(name)
			if to != "" && c.Rng.Intn(10) > 0 {
				continue // takes its time
			}
			c.Input("LoadPatterns(%q)", name)
			d, err := hyphenator.LoadPatterns(name)
			switch {
			case to == "" && (err == nil || d != nil):
				c.Fail("LoadPatterns(%q) = %v, %v: want an error and no dictionary", name, d, err)
			case to != "" && to == name && (err != nil || d == nil): // other spellings of the path may load or not
				c.Fail("LoadPatterns(%q) = %v", name, err)
			case to == "":
				r.Nontrivial(name)
			}
			c.Eval(1)
			if c.Index < 2 && k < 5 {
				r.Sample("LoadPatterns(%q): %v", name, err)
			}
		}
		files := listing(c)
		for i := range files {
			files[i] = "changed by the caller"
		}
		files = append(files[:0], "x")
		_ = files
		listing(c)
		if h != nil {
			for k := 0; k < 20; k++ {
				w := noDots(randWord(c.Rng, dicts[m.lang], 20))
				if hasHyphen(w) {
					continue
				}
				c.Input("BreakWord(%s) with %s, after loading other patterns", q(w), m)
				if got, want := hyphenator.New(m.opts()...).BreakWord(w), dicts[m.lang].split(w, m.minLength, m.minLeft, m.minRight); !eqParts(got, want) || !eqParts(h.BreakWord(w), want) {
					c.Fail("BreakWord = %s, want %s", qq(got), qq(want))
				}
				c.Eval(2)
			}
		}
	})
}

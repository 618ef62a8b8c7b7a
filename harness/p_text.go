package main

import (
	"fmt"
	"math/rand"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/fredbi/go-typeset/terminal/runes"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"github.com/fredbi/go-typeset/wordbreak/punctuator"
	"github.com/fredbi/go-typeset/wordbreak/tokenizer"

	"verif/harness/internal/mon"
)

func init() {
	checks["T01"] = checkTokenizer
	checks["T02"] = func(r *mon.Run) {
		p := punctuator.New()
		inOrders(r, "marks", r.N(3, 40))
		checkSplitter(r, splitter{
			name:     "punctuator.BreakWord",
			split:    p.BreakWord,
			splitStr: p.BreakWordString,
			is:       punctuator.IsPunctuation,
			sep:      func(x rune) bool { return x == '|' || (unicode.IsPunct(x) && !unicode.Is(unicode.Hyphen, x)) },
			alphabet: []rune("a.-|é"),
		})
	}
	checks["T03"] = func(r *mon.Run) {
		inOrders(r, "splits", r.N(3, 40))
		checkSplitter(r, splitter{
			name:     "hyphenator.SplitWord",
			split:    hyphenator.SplitWord,
			is:       hyphenator.IsHyphen,
			sep:      func(x rune) bool { return unicode.Is(unicode.Hyphen, x) },
			alphabet: []rune("a.-\u2010é"),
		})
	}
}

// notUTF8 is a text with some bytes added.
func notUTF8(rng *rand.Rand) []byte {
	return mixBytes(rng, []byte(string(anyRunes(rng, long(rng, 20), false))))
}

// mixBytes adds bytes that most often are not UTF-8.
func mixBytes(rng *rand.Rand, b []byte) []byte {
	for k := rng.Intn(5); k > 0; k-- {
		i := rng.Intn(len(b) + 1)
		b = append(b[:i:i], append([]byte{byte(0x80 + rng.Intn(0x80))}, b[i:]...)...)
	}

	return b
}

// modelFields is the specification of FieldsFunc: the maximal runs of runes that do not satisfy the predicate.
func modelFields(in []rune, sep func(rune) bool) [][]rune {
	var (
		out [][]rune
		cur []rune
	)
	for _, r := range in {
		if sep(r) {
			if len(cur) > 0 {
				out = append(out, cur)
			}
			cur = nil

			continue
		}
		cur = append(cur, r)
	}
	if len(cur) > 0 {
		out = append(out, cur)
	}

	return out
}

func isValid(rs []rune) bool {
	for _, r := range rs {
		if !utf8.ValidRune(r) {
			return false
		}
	}

	return true
}

// combos calls f with every string over the alphabet of length at most max.
func combos(alphabet []rune, max int, f func([]rune)) {
	buf := make([]rune, 0, max)
	var rec func()
	rec = func() {
		f(buf)
		if len(buf) == max {
			return
		}
		for _, r := range alphabet {
			buf = append(buf, r)
			rec()
			buf = buf[:len(buf)-1]
		}
	}
	rec()
}

func checkTokenizer(r *mon.Run) {
	r.Rule("every code point between letters and alone, all strings of up to 7 runes over {a b SPACE TAB U+00A0}, random strings with spaces of all kinds, " +
		"through the tokenizer and through FieldsFunc with several predicates, against strings.FieldsFunc/strings.Fields and a direct model; non-trivial: at least 2 fields")
	inOrders(r, "tokens", r.N(3, 40))
	tok := tokenizer.New()
	preds := map[string]func(rune) bool{
		"IsSpace":  unicode.IsSpace,
		"IsLetter": unicode.IsLetter,
		"comma":    func(x rune) bool { return x == ',' },
		"never":    func(rune) bool { return false },
		"always":   func(rune) bool { return true },
		"odd":      func(x rune) bool { return x&1 == 1 },
		"notASCII": func(x rune) bool { return x >= 0x80 || x < 0 },
	}
	names := []string{"IsSpace", "IsLetter", "comma", "never", "always", "odd", "notASCII"}
	one := func(c *mon.Case, rs []rune) {
		in, whole := inMiddle(rs)
		before := clone(whole)
		c.Input("%s", q(rs))
		want := modelFields(rs, unicode.IsSpace)
		got := tok.BreakWord(in)
		if !eqParts(got, want) {
			c.Fail("tokenizer.BreakWord = %s, want %s", qq(got), qq(want))
		}
		if isValid(rs) {
			s := string(rs)
			var std [][]rune
			for _, f := range strings.Fields(s) {
				std = append(std, []rune(f))
			}
			if got := tok.BreakWordString(s); !eqParts(got, std) {
				c.Fail("tokenizer.BreakWordString = %s, strings.Fields has %s", qq(got), qq(std))
			}
			c.Eval(1)
		}
		for _, name := range names {
			p := preds[name]
			got, want := runes.FieldsFunc(in, p), modelFields(rs, p)
			if !eqParts(got, want) {
				c.Fail("FieldsFunc(%s) = %s, want %s", name, qq(got), qq(want))
			}
			if isValid(rs) {
				var std [][]rune
				for _, f := range strings.FieldsFunc(string(rs), p) {
					std = append(std, []rune(f))
				}
				if !eqParts(got, std) {
					c.Fail("FieldsFunc(%s) = %s, strings.FieldsFunc has %s", name, qq(got), qq(std))
				}
			}
		}
		if !eqRunes(before, whole) {
			c.Fail("the input was modified")
		}
		c.Eval(1 + len(names))
		if len(want) >= 2 {
			r.Nontrivial(q(rs))
		}
	}
	const chunk = 0x1100
	r.Cases("every-code-point", 0x110000/chunk+1, func(c *mon.Case) {
		lo := rune(c.Index) * chunk
		for x := lo; x < lo+chunk; x++ {
			for _, rs := range [][]rune{{'a', x, 'b'}, {x}, {x, 'a', x}} {
				want := modelFields(rs, unicode.IsSpace)
				c.Input("%s", q(rs))
				if got := tok.BreakWord(rs); !eqParts(got, want) {
					c.Fail("tokenizer.BreakWord = %s, want %s", qq(got), qq(want))
				}
				if utf8.ValidRune(x) {
					if got := tok.BreakWordString(string(rs)); !eqParts(got, want) {
						c.Fail("tokenizer.BreakWordString = %s, want %s", qq(got), qq(want))
					}
				}
			}
		}
		c.Eval(6 * chunk)
	})
	alphabet := []rune("ab \t\u00a0")
	r.Cases("all-short-strings", len(alphabet)+1, func(c *mon.Case) {
		if c.Index == len(alphabet) {
			one(c, nil)
			if got := tok.BreakWord(nil); len(got) != 0 {
				c.Fail("BreakWord(nil) = %s", qq(got))
			}

			return
		}
		combos(alphabet, r.N(6, 7), func(rs []rune) { one(c, append([]rune{alphabet[c.Index]}, rs...)) })
	})
	r.Cases("random", r.N(60000, 1500000), func(c *mon.Case) {
		rs := anyRunes(c.Rng, long(c.Rng, 60), true)
		if c.Rng.Intn(3) == 0 { // mostly spaces
			for i := range rs {
				if c.Rng.Intn(2) == 0 {
					rs[i] = pick(c.Rng, spaces)
				}
			}
		}
		one(c, rs)
		if c.Index < 5 {
			r.Sample("BreakWord(%s) = %s", q(rs), qq(tok.BreakWord(rs)))
		}
	})
	r.Cases("invalid-utf8", r.N(10000, 200000), func(c *mon.Case) {
		b := notUTF8(c.Rng)
		c.Input("BreakWordString(%+q)", b)
		var std [][]rune
		for _, f := range strings.FieldsFunc(string(b), unicode.IsSpace) {
			std = append(std, []rune(f))
		}
		if got := tok.BreakWordString(string(b)); !eqParts(got, std) {
			c.Fail("BreakWordString = %s, strings.Fields has %s", qq(got), qq(std))
		}
		c.Eval(1)
	})
	big := sizes(r.N(17, 20))
	r.Cases("sizes", len(big), func(c *mon.Case) {
		n := big[c.Index]
		rs := ofSize(c.Rng, n, false)
		if c.Rng.Intn(2) == 0 {
			for i := range rs {
				if unicode.IsSpace(rs[i]) && c.Rng.Intn(300) > 0 {
					rs[i] = 'x' // long fields
				}
			}
		}
		if c.Index == len(big)-1 { // as many fields as can be
			for i := range rs {
				rs[i] = []rune("ab ")[i%3]
			}
			rs = append(rs, rs...)
		}
		c.Input("%d runes", n)
		want := modelFields(rs, unicode.IsSpace)
		if got := tok.BreakWord(rs); !eqParts(got, want) {
			c.Fail("tokenizer.BreakWord of %d runes has %d fields, want %d", n, len(got), len(want))
		}
		if got := tok.BreakWordString(string(rs)); !eqParts(got, want) {
			c.Fail("tokenizer.BreakWordString of %d runes has %d fields, want %d", n, len(got), len(want))
		}
		if got := runes.FieldsFunc(rs, unicode.IsSpace); !eqParts(got, want) {
			c.Fail("FieldsFunc of %d runes has %d fields, want %d", n, len(got), len(want))
		}
		c.Eval(3)
	})
}

type splitter struct {
	name     string
	split    func([]rune) [][]rune
	splitStr func(string) [][]rune
	is       func([]rune) bool
	sep      func(rune) bool
	alphabet []rune
}

// model is the specification of a splitter which retains its separators: maximal runs, and isolated separators.
func (s splitter) model(in []rune) (out [][]rune) {
	var cur []rune
	for _, r := range in {
		if s.sep(r) {
			if len(cur) > 0 {
				out = append(out, cur)
			}
			cur = nil
			out = append(out, []rune{r})

			continue
		}
		cur = append(cur, r)
	}
	if len(cur) > 0 {
		out = append(out, cur)
	}

	return out
}

func checkSplitter(r *mon.Run, s splitter) {
	r.Rule(fmt.Sprintf("%s on every code point, alone and next to others, on all strings of up to 7 runes over %q, and on random strings; "+
		"oracles: the parts concatenate to the input, every separator is a part of its own, no other part holds a separator or is empty; non-trivial: at least 2 parts",
		s.name, string(s.alphabet)))
	one := func(c *mon.Case, rs []rune) {
		in, whole := inMiddle(rs)
		before := clone(whole)
		c.Input("%s", q(rs))
		got := s.split(in)
		if !eqRunes(join(got), rs) {
			c.Fail("%s = %s: the parts do not add up to the input", s.name, qq(got))
		}
		for _, part := range got {
			if len(part) == 0 {
				c.Fail("%s = %s: empty part", s.name, qq(got))
			}
			if len(part) > 1 {
				for _, x := range part {
					if s.sep(x) {
						c.Fail("%s = %s: separator %+q is not isolated", s.name, qq(got), x)
					}
				}
			}
			if want := len(part) == 1 && s.sep(part[0]); s.is(part) != want {
				c.Fail("part %s: recognised as a separator: %t, want %t", q(part), !want, want)
			}
		}
		if want := s.model(rs); !eqParts(got, want) {
			c.Fail("%s = %s, want %s", s.name, qq(got), qq(want))
		}
		if want := len(rs) == 1 && s.sep(rs[0]); s.is(in) != want {
			c.Fail("%s: recognised as a separator: %t, want %t", q(rs), !want, want)
		}
		if s.splitStr != nil && isValid(rs) {
			if gotStr := s.splitStr(string(rs)); !eqParts(gotStr, got) {
				c.Fail("the string variant gives %s, the runes variant %s", qq(gotStr), qq(got))
			}
			c.Eval(1)
		}
		if !eqRunes(before, whole) {
			c.Fail("the input was modified")
		}
		c.Eval(3)
		if len(got) >= 2 {
			r.Nontrivial(q(rs))
		}
	}
	if s.splitStr != nil {
		r.Cases("invalid-utf8", r.N(10000, 200000), func(c *mon.Case) {
			b := string(notUTF8(c.Rng))
			c.Input("%+q", b)
			if got, want := s.splitStr(b), s.model([]rune(b)); !eqParts(got, want) {
				c.Fail("the string variant of %s = %s, want %s", s.name, qq(got), qq(want))
			}
			c.Eval(1)
		})
	}
	const chunk = 0x1100
	r.Cases("every-code-point", 0x110000/chunk+1, func(c *mon.Case) {
		lo := rune(c.Index) * chunk
		for x := lo; x < lo+chunk; x++ {
			for _, rs := range [][]rune{{x}, {'a', x, 'b'}, {x, 'a'}, {'a', x}, {x, x}} {
				c.Input("%s", q(rs))
				if got, want := s.split(rs), s.model(rs); !eqParts(got, want) {
					c.Fail("%s = %s, want %s", s.name, qq(got), qq(want))
				}
			}
			if got, want := s.is([]rune{x}), s.sep(x); got != want {
				c.Fail("recognised as a separator: %t, want %t", got, want)
			}
			c.Eval(6)
		}
	})
	r.Cases("invalid-runes", len(invalidRunes), func(c *mon.Case) {
		x := invalidRunes[c.Index]
		for _, rs := range [][]rune{{x}, {'a', x, '-', 'b'}, {x, x}, {'.', x}} {
			one(c, rs)
		}
	})
	r.Cases("all-short-strings", len(s.alphabet)+1, func(c *mon.Case) {
		if c.Index == len(s.alphabet) {
			one(c, nil)

			return
		}
		combos(s.alphabet, r.N(6, 7), func(rs []rune) { one(c, append([]rune{s.alphabet[c.Index]}, rs...)) })
	})
	big := sizes(r.N(17, 20))
	r.Cases("sizes", len(big), func(c *mon.Case) {
		rs := ofSize(c.Rng, big[c.Index], false)
		if c.Rng.Intn(2) == 0 {
			for i := range rs {
				if s.sep(rs[i]) && c.Rng.Intn(300) > 0 {
					rs[i] = 'x' // long parts
				}
			}
		}
		if c.Index == len(big)-1 { // as many parts as can be
			for i := range rs {
				rs[i] = []rune("ab-,")[i%4]
			}
			rs = append(rs, rs...)
		}
		c.Input("%d runes", len(rs))
		want := s.model(rs)
		if got := s.split(rs); !eqParts(got, want) {
			c.Fail("%s of %d runes has %d parts, want %d", s.name, len(rs), len(got), len(want))
		}
		if s.splitStr != nil {
			if got := s.splitStr(string(rs)); !eqParts(got, want) {
				c.Fail("the string variant of %s, of %d runes, has %d parts, want %d", s.name, len(rs), len(got), len(want))
			}
		}
		c.Eval(2)
	})
	r.Cases("random", r.N(80000, 2000000), func(c *mon.Case) {
		rs := anyRunes(c.Rng, long(c.Rng, 40), true)
		one(c, rs)
		if c.Index < 6 {
			r.Sample("%s(%s) = %s", s.name, q(rs), qq(s.split(rs)))
		}
	})
}

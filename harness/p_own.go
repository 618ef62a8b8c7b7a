package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"unsafe"

	"github.com/fredbi/go-typeset/attributes"
	"github.com/fredbi/go-typeset/linebreak"
	"github.com/fredbi/go-typeset/terminal/ansi"
	"github.com/fredbi/go-typeset/terminal/runes"
	"github.com/fredbi/go-typeset/terminal/runes/runesio"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"github.com/fredbi/go-typeset/wordbreak/punctuator"
	"github.com/fredbi/go-typeset/wordbreak/tokenizer"

	"verif/harness/internal/mon"
)

func init() { checks["O01"] = checkOwnership }

// exceptionWords are some of the exceptions of the pattern files.
var exceptionWords = []string{"associate", "associates", "declination", "obligatory", "philanthropic", "present", "presents", "project", "projects", "reciprocity", "recognizance", "reformation", "retribution", "table",
	"university", "universities", "however", "manuscript", "throughout", "something"}

// ownOp is an operation from runes to slices of runes.
type ownOp struct {
	name string
	gen  func(*rand.Rand) []rune
	do   func([]rune) [][]rune
}

func ownOps(rng *rand.Rand) []ownOp {
	tok, pun := tokenizer.New(), punctuator.New()
	m := randMode(rng)
	m.lang = pick(rng, []string{"us", "us", "gb", "fr", "es"})
	hyph := hyphenator.New(m.opts()...)
	lb := linebreak.New(linebreak.WithHyphenator(hyph.BreakWord))
	text := func(rng *rand.Rand) []rune { return anyRunes(rng, long(rng, 40), true) }
	word := func(rng *rand.Rand) []rune {
		w := []rune(pick(rng, lbWords))
		if rng.Intn(3) == 0 {
			w = append(w, []rune(pick(rng, lbWords))...)
		}
		if rng.Intn(3) == 0 { // an exception, of one language or another
			w = []rune(pick(rng, exceptionWords))
		}

		return mixCase(rng, w, 8)
	}
	esc := func(rng *rand.Rand) []rune { return hostileANSI(rng, 40) }
	flat := func(ts []ansi.StrippedToken) (out [][]rune) {
		for _, t := range ts {
			out = append(out, t.StartSequence, t.Text, t.StopSequence)
		}

		return out
	}

	return []ownOp{
		{"tokenizer.BreakWord", text, tok.BreakWord},
		{"punctuator.BreakWord", text, pun.BreakWord},
		{"FieldsFunc", text, func(rs []rune) [][]rune { return runes.FieldsFunc(rs, func(r rune) bool { return r&3 == 0 }) }},
		{"SplitWord", text, hyphenator.SplitWord},
		{"hyphenator.BreakWord", word, hyph.BreakWord},
		{"hyphenator.BreakWordString", word, func(rs []rune) [][]rune { return hyph.BreakWordString(string(rs)) }},
		{"punctuator.BreakWordString", text, func(rs []rune) [][]rune { return pun.BreakWordString(string(rs)) }},
		{"tokenizer.BreakWordString", text, func(rs []rune) [][]rune { return tok.BreakWordString(string(rs)) }},
		{"StripToken", esc, func(rs []rune) [][]rune { return flat(ansi.StripToken(rs)) }},
		{"StripANSIFromRunes", esc, func(rs []rune) [][]rune { return flat([]ansi.StrippedToken{ansi.StripANSIFromRunes(rs)}) }},
		{"LeftAlignUniform", word, func(rs []rune) (out [][]rune) {
			lines, _ := lb.LeftAlignUniform([]string{string(rs), "\033[31m" + string(rs), string(rs) + "\033[0m"}, 12)
			for _, l := range lines {
				out = append(out, []rune(l))
			}

			return out
		}},
		{"attribute", esc, func(rs []rune) [][]rune {
			// an attribute, pushed, then rendered
			h := len(rs) / 2
			a := attributes.New(rs, rs[:h], rs[h:])
			st := attributes.NewState()
			st.Push(a)
			b := new(bytes.Buffer)
			w := runesio.NewWriter(b)
			a.Render(w)
			a.SetStop(rs[:h]) // it had another one
			a.Render(w)
			it := st.First()
			it.EndOfLine(w)
			it.StartOfLine(w)

			return [][]rune{[]rune(b.String()), a.Runes()}
		}},
		{"Width", text, func(rs []rune) [][]rune {
			return [][]rune{{rune(runes.Widths(rs)), rune(runes.Widths(rs, runes.WithEastAsian(true)))}}
		}},
	}
}

func checkOwnership(r *mon.Run) {
	r.Rule("random histories of 2-12 operations (splitters, hyphenators, escape sequences, line breaker, attributes, widths) over inputs that lie in the middle of larger arrays, and are used again and again; " +
		"oracles: the arrays never change, earlier results never change, and after the caller overwrites an earlier result and the array it was made from, the same question has the same answer; inputs written one after the other in a single array yield what they do in arrays of their own; inputs in memory that cannot be written, next to a page that cannot be read, cause no fault; non-trivial: a history where an earlier result has at least 2 parts")
	r.Cases("histories", r.N(25000, 600000), func(c *mon.Case) {
		ops := ownOps(c.Rng)
		type entry struct {
			op           ownOp
			in, whole    []rune
			before, copy []rune
			got, want    [][]rune
		}
		var (
			hist  []*entry
			trace string
		)
		n := 2 + c.Rng.Intn(11)
		if c.Rng.Intn(2) == 0 { // the same operation again and again
			ops = []ownOp{pick(c.Rng, ops)}
		}
		verify := func(when string) {
			for i, e := range hist {
				if !eqRunes(e.whole, e.before) {
					c.Fail("%s: the input of operation %d, or what lies next to it, has changed", when, i)
				}
				if !eqParts(e.got, e.want) {
					c.Fail("%s: the result of operation %d was %s, is now %s", when, i, qq(e.want), qq(e.got))
				}
				c.Eval(2)
			}
		}
		for i := 0; i < n; i++ {
			e := &entry{op: pick(c.Rng, ops)}
			if len(hist) > 0 && c.Rng.Intn(3) == 0 { // the very same input array
				o := pick(c.Rng, hist)
				e.in, e.whole, e.before = o.in, o.whole, o.before
			} else {
				e.in, e.whole = inMiddle(e.op.gen(c.Rng))
				e.before = clone(e.whole)
			}
			e.copy = clone(e.in)
			trace += fmt.Sprintf("%s(%s) ", e.op.name, q(e.in))
			c.Input("%s", trace)
			e.got = e.op.do(e.in)
			e.want = cloneParts(e.got)
			hist = append(hist, e)
			verify(fmt.Sprintf("after operation %d", i))
			if len(e.got) > 1 {
				r.Nontrivial(trace)
			}
			r.Count(e.op.name, 1)
		}
		// the caller overwrites what it was given, and what it had given
		for _, e := range hist {
			for _, part := range e.got {
				for k := range part {
					part[k] = 0x10FFF8
				}
			}
			for k := range e.whole {
				e.whole[k] = 0x10FFF9
			}
		}
		for i, e := range hist {
			if got := e.op.do(clone(e.copy)); !eqParts(got, e.want) {
				c.Fail("after the results are overwritten, operation %d yields %s, it was %s", i, qq(got), qq(e.want))
			}
			c.Eval(1)
		}
		if c.Index < 5 {
			r.Sample("%s", trace)
		}
	})
	r.Cases("tokens", r.N(4000, 100000), func(c *mon.Case) {
		p := randPara(c.Rng, 20)
		tokens := append(make([]string, 0, len(p.tokens)+4), p.tokens...)
		for i := range tokens[len(tokens):cap(tokens)] {
			tokens[len(tokens):cap(tokens)][i] = fmt.Sprint("beyond", i)
		}
		c.Input("%s", p)
		lb := linebreak.New(p.conf.opts()...)
		lines, err := lb.LeftAlignUniform(tokens, p.width)
		kept := append([]string{}, lines...)
		for i := range tokens {
			if tokens[i] != p.tokens[i] {
				c.Fail("token %d was modified", i)
			}
		}
		for i, s := range tokens[len(tokens):cap(tokens)] {
			if s != fmt.Sprint("beyond", i) {
				c.Fail("the array after the tokens was written to")
			}
		}
		if _, err := lb.LeftAlignUniform([]string{"other", "words", "entirely"}, 9); err != nil {
			lbBroken(c, err)
		}
		for i := range lines {
			if lines[i] != kept[i] {
				c.Fail("line %d was modified by a later call", i)
			}
		}
		for i := range lines {
			lines[i] = "x"
		}
		again, err2 := lb.LeftAlignUniform(tokens, p.width)
		if fmt.Sprint(err) != fmt.Sprint(err2) || fmt.Sprintf("%q", again) != fmt.Sprintf("%q", kept) {
			c.Fail("after the lines were overwritten: %+q, they were %+q", again, kept)
		}
		c.Eval(3)
	})
	r.Cases("reused", r.N(6000, 150000), func(c *mon.Case) { ownReused(r, c) })
	r.Cases("options", r.N(5000, 100000), func(c *mon.Case) { ownOptions(r, c) })
	r.Cases("arguments", r.N(3000, 60000), func(c *mon.Case) { ownArguments(r, c) })
	ownGuarded(r)
	ownCollected(r)
	r.Cases("splitters", r.N(2000, 40000), func(c *mon.Case) { ownSplitters(r, c) })
	r.Require("arrays of options", 5000)
	r.Require("arrays of arguments", 3000)
	r.Require("inputs in the array of another one", 10000)
	r.Require("parts from the splitters of the caller", 3000)
}

// ownReused: the caller has a single array, which it overwrites with the next input, and gives again.
func ownReused(r *mon.Run, c *mon.Case) {
	ops, array := ownOps(c.Rng), make([]rune, 400)
	op, trace := pick(c.Rng, ops), ""
	size := c.Rng.Intn(30)
	for k := 2 + c.Rng.Intn(5); k > 0; k-- {
		if c.Rng.Intn(4) == 0 {
			op = pick(c.Rng, ops)
		}
		in := op.gen(c.Rng)
		for c.Rng.Intn(3) > 0 && len(in) < size {
			in = append(in, op.gen(c.Rng)...)
		}
		if len(in) > size && c.Rng.Intn(3) > 0 { // of the same size as before
			in = in[:size]
		}
		if len(in) > len(array) {
			in = in[:len(array)]
		}
		size = len(in)
		trace += fmt.Sprintf("%s(%s) ", op.name, q(in))
		c.Input("%s, all in the same array", trace)
		copy(array, in)
		got := cloneParts(op.do(array[:len(in)]))
		if want := op.do(clone(in)); !eqParts(got, want) {
			c.Fail("yields %s, with an array of its own %s", qq(got), qq(want))
		}
		c.Eval(1)
		r.Count("inputs in the array of another one", 1)
		if len(got) > 1 {
			r.Nontrivial(trace)
		}
	}
	p := randPara(c.Rng, 10)
	lb, tokens := linebreak.New(p.conf.opts()...), make([]string, 100)
	for k := 0; k < 3; k++ {
		o := randPara(c.Rng, 10)
		if c.Rng.Intn(2) == 0 && len(o.tokens) > len(p.tokens) {
			o.tokens = o.tokens[:len(p.tokens)]
		}
		if len(o.tokens) > len(tokens) {
			continue
		}
		copy(tokens, o.tokens)
		c.Input("%s, tokens %+q in the same array as others", p.conf, o.tokens)
		lines, err := lb.LeftAlignUniform(tokens[:len(o.tokens)], p.width)
		want, err2 := linebreak.New(p.conf.opts()...).LeftAlignUniform(o.tokens, p.width)
		if fmt.Sprint(err) != fmt.Sprint(err2) || fmt.Sprintf("%q", lines) != fmt.Sprintf("%q", want) {
			c.Fail("yields %+q %v, with an array of its own %+q %v", lines, err, want, err2)
		}
		c.Eval(1)
		r.Count("inputs in the array of another one", 1)
	}
}

// ownOptions: the options of an object are those given when it is made, whatever the caller does with their array.
func ownOptions(r *mon.Run, c *mon.Case) {
	m, o := randMode(c.Rng), randMode(c.Rng)
	p, other := randPara(c.Rng, 12), randPara(c.Rng, 3)
	word := []rune(pick(c.Rng, lbWords) + pick(c.Rng, lbWords))
	c.Input("BreakWord(%s) with %s, %s, after the array of options is overwritten with those of %s, or of %s", q(word), m, p, o, other.conf)
	used := c.Rng.Intn(2) == 0
	{
		opts := append(make([]hyphenator.Option, 0, 10), m.opts()...)
		n := len(opts)
		h := hyphenator.New(opts...)
		want := hyphenator.New(m.opts()...).BreakWord(word)
		if used {
			h.BreakWord([]rune(pick(c.Rng, lbWords)))
		}
		opts = append(opts[:0], o.opts()...)
		for len(opts) < n {
			opts = append(opts, hyphenator.WithMinLeft(3))
		}
		if got := h.BreakWord(word); !eqParts(got, want) {
			c.Fail("BreakWord = %s, want %s", qq(got), qq(want))
		}
	}
	{
		opts := append(make([]linebreak.Option, 0, 30), p.conf.opts()...)
		n := len(opts)
		lb := linebreak.New(opts...)
		want, err := linebreak.New(p.conf.opts()...).LeftAlignUniform(p.tokens, p.width)
		if used {
			_, _ = lb.LeftAlignUniform(other.tokens, other.width)
		}
		opts = append(opts[:0], other.conf.opts()...)
		for len(opts) < n {
			opts = append(opts, linebreak.WithTolerance(1))
		}
		got, err2 := lb.LeftAlignUniform(p.tokens, p.width)
		if fmt.Sprint(err) != fmt.Sprint(err2) || fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			c.Fail("the lines are %+q %v, want %+q %v", got, err2, want, err)
		}
	}
	c.Eval(2)
	r.Count("arrays of options", 2)
	r.Nontrivial(p.String() + m.String())
}

// words of memory of the elements of a slice of functions, which cannot be compared otherwise.
func funcWords[F any](fs []F) []uintptr {
	out := make([]uintptr, len(fs))
	for i := range fs {
		out[i] = *(*uintptr)(unsafe.Pointer(&fs[i]))
	}

	return out
}

// ownArguments: the other arrays given to the library (options, offsets, bytes, renderers), which lie in larger ones, stay as they are.
func ownArguments(r *mon.Run, c *mon.Case) {
	rs := anyRunes(c.Rng, long(c.Rng, 40), true)
	c.Input("%s", q(rs))
	kept := func(what string, before, after any) {
		if !reflect.DeepEqual(before, after) {
			c.Fail("%s: the array given, or what lies next to it, has changed", what)
		}
		c.Eval(1)
		r.Count("arrays of arguments", 1)
	}
	{
		all := []runes.Option{runes.WithEastAsian(true), runes.WithSkipStrictEmojiNeutral(false), runes.WithEastAsianAmbiguousWidth(2), runes.WithEastAsian(false), runes.WithEastAsianAmbiguousWidth(1)}
		c.Rng.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		from := c.Rng.Intn(len(all))
		to := from + c.Rng.Intn(len(all)-from+1)
		before := funcWords(all)
		runes.Widths(rs, all[from:to]...)
		runes.StringWidth(string(rs), all[from:to]...)
		for _, x := range rs {
			runes.Width(x, all[from:to]...)
		}
		kept("the options of Widths", before, funcWords(all))
	}
	{
		all := []hyphenator.Option{hyphenator.WithLanguage("fr"), hyphenator.WithMinLength(3), hyphenator.WithMinLeft(1), hyphenator.WithMinRight(4), hyphenator.WithLanguage("en")}
		c.Rng.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		from := c.Rng.Intn(len(all))
		to := from + c.Rng.Intn(len(all)-from+1)
		before := funcWords(all)
		hyphenator.New(all[from:to]...).BreakWord(rs)
		kept("the options of a hyphenator", before, funcWords(all))
	}
	p := randPara(c.Rng, 8)
	{
		all := p.conf.opts()
		from := c.Rng.Intn(len(all) + 1)
		to := from + c.Rng.Intn(len(all)-from+1)
		before := funcWords(all)
		_, _ = linebreak.New(all[from:to]...).LeftAlignUniform(p.tokens, p.width)
		kept("the options of a line breaker", before, funcWords(all))
	}
	{
		rd := runesio.NewSliceReader(rs)
		n, text := 2*c.Rng.Intn(4), string(rs)
		all := make([]int, n+4)
		bytesAt := make([]int, n+4)
		for i := range all {
			all[i] = -7 - i
			bytesAt[i] = -7 - i
		}
		starts := []int{}
		for i := range text {
			starts = append(starts, i)
		}
		starts = append(starts, len(text))
		for i := 2; i < n+2; i += 2 {
			a := c.Rng.Intn(len(rs) + 1)
			all[i], all[i+1] = a, a+c.Rng.Intn(len(rs)-a+1)
			a = c.Rng.Intn(len(starts))
			bytesAt[i], bytesAt[i+1] = starts[a], starts[a+c.Rng.Intn(len(starts)-a)]
		}
		b1, b2 := append([]int{}, all...), append([]int{}, bytesAt...)
		rd.Slices(all[2 : n+2])
		kept("the offsets of Slices", b1, all)
		rd.SliceFromByteOffsets(bytesAt[2 : n+2])
		kept("the offsets of SliceFromByteOffsets", b2, bytesAt)
	}
	{
		all := append([]byte("<<"+string(rs)), ">>"...)
		before := append([]byte{}, all...)
		out := new(bytes.Buffer)
		_, _ = runesio.AsRunesWriter(struct{ io.Writer }{out}).Write(all[2 : len(all)-2])
		kept("the bytes written", before, all)
	}
	{
		items := randStream(c.Rng, 6, false, false)
		_, all := build(items, nil)
		all = append(all, nil, nil)
		before := append([]attributes.Renderer{}, all...)
		seq := attributes.Renderers(all[:len(all)-2])
		w := runesio.NewWriter(new(bytes.Buffer))
		seq.Start(w)
		seq.Render(w)
		seq.Stop(w)
		for i := range before {
			if before[i] != all[i] {
				c.Fail("the renderers given, or what lies next to them, have changed")
			}
		}
		r.Count("arrays of arguments", 1)
		c.Eval(1)
	}
	r.Nontrivial(p.String())
}

// ownSplitters: what the splitting functions and measurer of the caller return and receive is theirs as well. Their parts are always the same ones, with room after them.
func ownSplitters(r *mon.Run, c *mon.Case) {
	p := randPara(c.Rng, 15)
	c.Input("%s", p)
	type held struct {
		parts, headers [][]rune
		whole, before  [][]rune
	}
	hold := func(split func([]rune) [][]rune) (func([]rune) [][]rune, map[string]*held) {
		all := map[string]*held{}

		return func(rs []rune) [][]rune {
			h, ok := all[string(rs)]
			if !ok {
				h = new(held)
				for _, part := range split(rs) {
					in, whole := inMiddle(part)
					h.parts = append(h.parts, in)
					h.whole, h.before = append(h.whole, whole), append(h.before, clone(whole))
				}
				h.parts = append(h.parts, []rune("beyond"), []rune("beyond"))
				h.headers = append(h.headers, h.parts...)
				all[string(rs)] = h
			}

			return h.parts[:len(h.parts)-2]
		}, all
	}
	hyph, hs := hold(hyphenator.New().BreakWord)
	punc, ps := hold(punctuator.New().BreakWord)
	opts := append(p.conf.opts(), linebreak.WithHyphenator(hyph), linebreak.WithPunctuator(punc))
	lb := linebreak.New(opts...)
	var first string
	for k := 0; k < 3; k++ {
		lines, err := lb.LeftAlignUniform(p.tokens, p.width)
		got := fmt.Sprintf("%q %v", lines, err)
		if k == 0 {
			first = got
		}
		if got != first {
			c.Fail("again: %s, it was %s", got, first)
		}
		for _, all := range []map[string]*held{hs, ps} {
			for word, h := range all {
				for i := range h.whole {
					if !eqRunes(h.whole[i], h.before[i]) {
						c.Fail("part %d of %q, returned by a function of the caller, or what lies next to it, has changed", i, word)
					}
					r.Count("parts from the splitters of the caller", 1)
				}
				for i, part := range h.parts {
					if len(part) != len(h.headers[i]) || len(part) > 0 && &part[0] != &h.headers[i][0] {
						c.Fail("the parts of %q returned by a function of the caller, or what lies next to them, are now %s", word, qq(h.parts))
					}
				}
				c.Eval(1)
			}
		}
	}
	r.Nontrivial(p.String())
}

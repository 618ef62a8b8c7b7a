package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"runtime"

	"github.com/fredbi/go-typeset/attributes"
	"github.com/fredbi/go-typeset/linebreak"
	"github.com/fredbi/go-typeset/terminal/ansi"
	"github.com/fredbi/go-typeset/terminal/runes"
	"github.com/fredbi/go-typeset/terminal/runes/runesio"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"github.com/fredbi/go-typeset/wordbreak/punctuator"
	"github.com/fredbi/go-typeset/wordbreak/tokenizer"

	"verif/harness/internal/mon"
)

func init() { checks["F01"] = checkCallbacks }

// fault is what a callback does besides its duty.
type fault struct {
	calls   int
	panicAt int    // the call that panics, counted from 1 (0: none)
	value   any    // what it panics with
	other   string // what reached the caller instead
	end     bool   // it ends its goroutine instead
	nested  func() // what some calls do with the library
	every   int
	inside  bool
	ran     int // nested uses
	made    int // calls while the last line breaker was made
	making  int // the call that panics when a line breaker is made
}

var errFault = errors.New("planned panic")

// callback is called by each callback.
func (f *fault) callback() {
	if f.inside {
		return
	}
	f.calls++
	if f.calls == f.panicAt {
		if f.end {
			runtime.Goexit()
		}
		panic(f.value)
	}
	if f.nested != nil && f.calls%f.every == 0 && f.ran < 60 {
		f.inside = true
		f.nested()
		f.inside = false
		f.ran++
	}
}

// vary picks the next fault: a panic with a value of some type, or the end of the goroutine.
func (f *fault) vary(rng *rand.Rand) {
	f.value = pick(rng, []any{errFault, "planned", 42, &fault{}, io.EOF, [2]int{1, 2}})
	f.end = rng.Intn(8) == 0
}

func (f *fault) String() string {
	if f.end {
		return "ends its goroutine"
	}

	return fmt.Sprintf("panics with a %T", f.value)
}

// faulty runs a function during which a callback may panic, or end its goroutine, and tells whether it did.
func faulty(f *fault, do func() string) (out string, failed bool) {
	if !f.end {
		return panicky(f, do)
	}
	returned := false
	var unexpected any
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() { unexpected = recover() }()
		out = do()
		returned = true
	}()
	<-done
	if unexpected != nil {
		f.other = fmt.Sprintf("%T %v", unexpected, unexpected)
	}

	return out, !returned
}

func panicky(f *fault, do func() string) (out string, panicked bool) {
	defer func() {
		if e := recover(); e != nil {
			out, panicked = "", true
			if e != f.value { //nolint:errorlint // the value itself
				f.other = fmt.Sprintf("%T %v", e, e)
			}
		}
	}()

	return do(), false
}

// a scene is an object with callbacks, which may be used several times, on any of three inputs.
type scene struct {
	name string
	use  func(input int) string
}

const inputs = 3

func lineScene(rng *rand.Rand, f *fault) (func() scene, string) {
	var ps [inputs]para
	desc := ""
	for k := range ps {
		ps[k] = randPara(rng, 14)
		tokens := ps[k].tokens
		for i := range tokens {
			if rng.Intn(6) == 0 {
				tokens[i] = string(seq(rng, kStart)) + tokens[i]
			}
			if rng.Intn(6) == 0 {
				tokens[i] += string(seq(rng, kStop))
			}
		}
		desc += fmt.Sprintf("(%+q, %g) ", tokens, ps[k].width)
	}
	p := ps[0]
	p.conf.order = 0
	hyph := pick(rng, []func([]rune) [][]rune{everyTwo, anywhere, theGerman.BreakWord})

	return func() scene {
		opts := append(p.conf.opts(), linebreak.WithMeasurer(func(rs []rune) float64 {
			f.callback()

			return p.conf.measure(rs)
		}), linebreak.WithPunctuator(func(rs []rune) [][]rune {
			f.callback()

			return p.conf.split()(rs)
		}))
		if !p.conf.noWordBreak {
			opts = append(opts, linebreak.WithHyphenator(func(rs []rune) [][]rune {
				f.callback()

				return hyph(rs)
			}))
		}
		keep := f.panicAt
		f.panicAt, f.calls = f.making, 0 // New measures
		l := linebreak.New(opts...)
		f.made = f.calls
		f.panicAt, f.calls = keep, 0

		return scene{"lines", func(input int) string {
			lines, err := l.LeftAlignUniform(ps[input].tokens, ps[input].width)

			return fmt.Sprintf("%+q %v", lines, err)
		}}
	}, p.conf.String() + " on " + desc
}

func fieldsScene(rng *rand.Rand, f *fault) (func() scene, string) {
	in := [inputs][]rune{anyRunes(rng, 40, true), anyRunes(rng, 40, true), anyRunes(rng, 40, true)}
	mask := rune(1) << rng.Intn(3)

	return func() scene {
		return scene{"fields", func(input int) string {
			return qq(runes.FieldsFunc(in[input], func(r rune) bool {
				f.callback()

				return r&mask == 0
			}))
		}}
	}, "FieldsFunc of " + qq(in[:])
}

// callingWriter is an io.Writer that calls back.
type callingWriter struct {
	io.Writer
	f *fault
}

func (w callingWriter) Write(p []byte) (int, error) {
	w.f.callback()

	return w.Writer.Write(p)
}

func writerScene(rng *rand.Rand, f *fault) (func() scene, string) {
	var parts [][]rune
	for i := 1 + rng.Intn(8); i > 0; i-- {
		parts = append(parts, anyRunes(rng, 12, true))
	}

	return func() scene {
		b := new(bytes.Buffer)
		w := runesio.AsRunesWriter(callingWriter{b, f})

		return scene{"writes", func(input int) string {
			b.Reset()
			s := ""
			for i, p := range parts {
				if input > 0 && i%inputs != input {
					continue
				}
				if i%3 == 0 && len(p) > 0 {
					n, err := w.WriteRune(p[0])
					s += fmt.Sprint(n, err, " ")
				}
				n, err := w.WriteRunes(p)
				s += fmt.Sprint(n, err, " ")
			}

			return s + fmt.Sprintf("%+q", b.String())
		}}
	}, "writes of " + qq(parts)
}

// callingRenderer is a Renderer that calls back.
type callingRenderer struct {
	*attributes.Attribute
	f *fault
}

func (a callingRenderer) Start(w runesio.Writer) {
	a.f.callback()
	a.Attribute.Start(w)
}

func (a callingRenderer) Stop(w runesio.Writer) {
	a.f.callback()
	a.Attribute.Stop(w)
}

func (a callingRenderer) Render(w runesio.Writer) {
	a.f.callback()
	a.Attribute.Render(w)
}

func rendererScene(rng *rand.Rand, f *fault) (func() scene, string) {
	items := randStream(rng, 2+rng.Intn(14), false, true)
	for i := range items {
		items[i].late = false
	}
	breaks := make([]bool, len(items))
	for i := range breaks {
		breaks[i] = rng.Intn(2) == 0
	}

	return func() scene {
		st := attributes.NewState()
		var all attributes.Renderers
		b := new(bytes.Buffer)
		w := runesio.NewWriter(callingWriter{b, f})
		for i, x := range items {
			var start, stop []rune
			if x.start {
				start = []rune(startSeq(tagOf(items, i)))
			}
			if x.stop {
				stop = []rune(stopSeq(tagOf(items, i)))
			}
			var a attributes.Renderer = attributes.New([]rune(textOf(i)), start, stop)
			if x.own {
				a = callingRenderer{attributes.New([]rune(textOf(i)), start, stop), f}
			}
			st.Push(a)
			all = append(all, a)
		}

		pushed := len(items)

		return scene{"renders", func(input int) string {
			b.Reset()
			pushed++
			st.Push(attributes.New([]rune("more"), nil, nil))
			for it, i := st.Iterator(), 0; it.Next() && i < len(items); i++ {
				it.Item().Render(w)
				if breaks[i] || i%(1+input) == 1 {
					it.EndOfLine(w)
					_, _ = w.WriteRune('\n')
					it.StartOfLine(w)
				}
			}
			all.Start(w)
			all.Render(w)
			all.Stop(w)
			held := 0
			for it := st.Iterator(); it.Next(); held++ {
			}

			return fmt.Sprintf("%+q, %d of the renderers pushed are missing", b.String(), pushed-held)
		}}
	}, "rendering " + showItems(items)
}

// elsewhere makes a function that uses the library with other objects.
func elsewhere(rng *rand.Rand) func() {
	quiet := &fault{}
	var others []scene
	for _, make := range []func(*rand.Rand, *fault) (func() scene, string){fieldsScene, writerScene, rendererScene, lineScene} {
		s, _ := make(rng, quiet)
		others = append(others, s())
	}
	in := hostileANSI(rng, 30)
	if rng.Intn(2) == 0 {
		in = anyRunes(rng, 30, true)
	}
	h, t, p := hyphenator.New(), tokenizer.New(), punctuator.New()
	uses := []func(){
		others[0].once, others[1].once, others[2].once, others[3].once,
		func() { _ = ansi.StripToken(in) },
		func() { _, _ = t.BreakWord(in), p.BreakWord(in) },
		func() { _, _ = h.BreakWordString("hyphenation"), hyphenator.SplitWord(in) },
		func() { _, _ = runes.Widths(in), runes.Widths(in, runes.WithEastAsian(true)) },
		func() { _ = runesio.NewSliceReader(in).SliceFromByteOffsets([]int{0, len(string(in)) / 2}) },
		func() { _, _ = hyphenator.SupportedPatterns() },
		func() {
			_, _ = linebreak.New(linebreak.WithMeasurer(halfMeasurer)).LeftAlignUniform([]string{"a", "few-other", "words"}, 7)
		},
	}

	return func() { pick(rng, uses)() }
}

func (s scene) once() { _ = s.use(0) }

// checkCallbacks: callbacks that panic, or that use the library, do no harm.
func checkCallbacks(r *mon.Run) {
	r.Rule("paragraphs set with measurers, hyphenators and punctuators of the user's; FieldsFunc with a predicate, writers over a writer, and states of renderers of the user's; one call of a callback panics with a value of some type, or ends its goroutine, then everything is used again, " +
		"with the same objects and with fresh ones; or some callbacks use the library with other objects; oracles: the panic reaches the caller as it is, and the goroutine that ends is that of the caller, and the outcomes are those of calls without any of this; " +
		"non-trivial: a callback that panicked, or used the library")
	scenes := []func(*rand.Rand, *fault) (func() scene, string){lineScene, fieldsScene, writerScene, rendererScene}
	r.Cases("panics", r.N(6000, 150000), func(c *mon.Case) {
		f := &fault{}
		make, desc := scenes[c.Index%len(scenes)](c.Rng, f)
		c.Input("%s", desc)
		var (
			want  [inputs]string
			calls [inputs]int
		)
		for k := range want {
			o := make()
			f.calls = 0
			want[k] = o.use(k)
			calls[k] = f.calls
		}
		s := make()
		for k := 0; k < 4; k++ {
			in := c.Rng.Intn(inputs)
			if calls[in] == 0 {
				continue
			}
			f.calls, f.panicAt = 0, 1+c.Rng.Intn(calls[in])
			f.vary(c.Rng)
			c.Input("%s, on input %d the callback %s at its call %d of %d", desc, in, f, f.panicAt, calls[in])
			got, panicked := faulty(f, func() string { return s.use(in) })
			if f.other != "" {
				c.Fail("what reaches the caller is another panic: %s", f.other)
			}
			if !panicked && f.calls >= f.panicAt {
				c.Fail("the panic does not reach the caller, which gets %s", got)
			}
			if panicked {
				r.Nontrivial(fmt.Sprint(desc, in, f.panicAt))
				c.Count("panics in callbacks", 1)
				if f.end {
					c.Count("goroutines ended in callbacks", 1)
				}
			} else if got != want[in] {
				c.Fail("yields %s, want %s", got, want[in])
			}
			f.panicAt = 0
			after := c.Rng.Intn(inputs)
			c.Input("%s, on input %d, after a callback panicked on input %d", desc, after, in)
			if c.Rng.Intn(2) == 0 {
				if got := make().use(after); got != want[after] {
					c.Fail("with a fresh object: yields %s, want %s", got, want[after])
				}
			}
			if c.Rng.Intn(3) > 0 {
				if got := s.use(after); got != want[after] {
					c.Fail("yields %s, want %s", got, want[after])
				}
			}
			c.Eval(3)
		}
		if c.Index < 4 {
			r.Sample("%s: panics among %v calls of callbacks", desc, calls)
		}
	})
	// line breakers whose measurer panics while they are made
	r.Cases("making", r.N(1500, 40000), func(c *mon.Case) {
		f := &fault{}
		make, desc := lineScene(c.Rng, f)
		c.Input("%s", desc)
		var want [inputs]string
		for k := range want {
			want[k] = make().use(k)
		}
		kept := make()
		for k := 0; k < 3 && f.made > 0; k++ {
			f.making = 1 + c.Rng.Intn(f.made)
			f.vary(c.Rng)
			c.Input("%s, the measurer %s at its call %d of %d, while a line breaker is made", desc, f, f.making, f.made)
			_, panicked := faulty(f, func() string {
				make()

				return ""
			})
			if f.other != "" {
				c.Fail("what reaches the caller is another panic: %s", f.other)
			}
			if !panicked {
				c.Fail("the panic does not reach the caller")
			}
			f.making, f.panicAt, f.calls = 0, 0, 0
			in := c.Rng.Intn(inputs)
			c.Input("%s, on input %d, after the measurer panicked while a line breaker was made", desc, in)
			if got := make().use(in); got != want[in] {
				c.Fail("with a fresh object: yields %s, want %s", got, want[in])
			}
			if got := kept.use(in); got != want[in] {
				c.Fail("yields %s, want %s", got, want[in])
			}
			c.Eval(3)
			c.Count("panics in callbacks", 1)
			r.Nontrivial(fmt.Sprint(desc, in, "making", k))
		}
	})
	// a great many faults met by the same objects
	r.Cases("many-panics", r.N(48, 400), func(c *mon.Case) {
		f := &fault{}
		make, desc := scenes[c.Index%len(scenes)](c.Rng, f)
		c.Input("%s", desc)
		var (
			want  [inputs]string
			calls [inputs]int
		)
		for k := range want {
			o := make()
			f.calls = 0
			want[k] = o.use(k)
			calls[k] = f.calls
		}
		s := make()
		total, first := 150+c.Rng.Intn(500), c.Rng.Intn(2) == 0
		if c.Index < 2*len(scenes) { // beyond the range of 16 bits
			total, first = 1<<16+10, true
		}
		for k := 0; k < total; k++ {
			in := c.Rng.Intn(inputs)
			if calls[in] == 0 {
				continue
			}
			f.calls, f.panicAt = 0, 1
			if !first {
				f.panicAt += c.Rng.Intn(calls[in])
			}
			f.vary(c.Rng)
			if got, panicked := faulty(f, func() string { return s.use(in) }); !panicked && f.calls >= f.panicAt {
				c.Input("%s, on input %d the callback %s at its call %d of %d, after %d such calls", desc, in, f, f.panicAt, calls[in], k)
				c.Fail("yields %s, while a callback panics", got)
			}
			c.Count("panics in callbacks", 1)
		}
		f.panicAt = 0
		for in := range want {
			c.Input("%s, on input %d, after %d panics of its callbacks", desc, in, total)
			if got := s.use(in); got != want[in] {
				c.Fail("yields %s, want %s", got, want[in])
			}
			if got := make().use(in); got != want[in] {
				c.Fail("with a fresh object: yields %s, want %s", got, want[in])
			}
		}
		c.Eval(total + 2*inputs)
		r.Nontrivial(fmt.Sprint(desc, "many"))
	})
	r.Cases("nested", r.N(6000, 150000), func(c *mon.Case) {
		f := &fault{every: 1 + c.Rng.Intn(4)}
		make, desc := scenes[c.Index%len(scenes)](c.Rng, f)
		c.Input("%s", desc)
		var want [inputs]string
		for k := range want {
			want[k] = make().use(k)
		}
		f.nested = elsewhere(c.Rng)
		s := make()
		for k := 0; k < 3; k++ {
			in := c.Rng.Intn(inputs)
			c.Input("%s, on input %d, with callbacks that use other objects", desc, in)
			f.ran = 0
			if got := s.use(in); got != want[in] {
				c.Fail("yields %s, want %s", got, want[in])
			}
			c.Eval(1)
			if f.ran > 0 {
				r.Nontrivial(fmt.Sprint(desc, in))
				c.Count("nested uses", f.ran)
			}
		}
		if c.Index < 4 {
			r.Sample("%s: %d nested uses", desc, f.ran)
		}
	})
	r.Require("panics in callbacks", 1000)
	r.Require("goroutines ended in callbacks", 300)
	r.Require("nested uses", 1000)
}

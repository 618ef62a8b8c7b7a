package main

import (
	"bytes"
	"fmt"
	"io"
	"runtime"
	"time"

	"github.com/fredbi/go-typeset/attributes"
	"github.com/fredbi/go-typeset/linebreak"
	"github.com/fredbi/go-typeset/terminal/runes/runesio"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator"

	"verif/harness/internal/mon"
)

// manyUses is how many times an object that lives long is used: beyond the ranges of small counters.
const manyUses = 1<<16 + 1<<12

// longHyphenator: a hyphenator breaks its hundred thousandth word as its first one.
func longHyphenator(r *mon.Run, dicts map[string]*liang) {
	r.Cases("long-lived", r.N(4, 20), func(c *mon.Case) {
		m := randMode(c.Rng)
		m.minLength, m.minLeft, m.minRight = 1+c.Rng.Intn(4), 1+c.Rng.Intn(2), 1+c.Rng.Intn(2)
		m.setLength, m.setLeft, m.setRight_ = true, true, true
		h := hyphenator.New(m.opts()...)
		var words [][]rune
		var want [][][]rune
		for len(words) < 300 { // only words that break: a single use that goes wrong shows
			word := noDots(randWord(c.Rng, dicts[m.lang], 20))
			if hasHyphen(word) {
				continue
			}
			if parts := dicts[m.lang].split(word, m.minLength, m.minLeft, m.minRight); len(parts) > 1 {
				words, want = append(words, word), append(want, parts)
			}
		}
		for k := 0; k < manyUses; k++ {
			i := c.Rng.Intn(len(words))
			if got := h.BreakWord(words[i]); !eqParts(got, want[i]) {
				c.Input("BreakWord(%s) with %s, use %d of the same hyphenator", q(words[i]), m, k)
				c.Fail("BreakWord = %s, want %s", qq(got), qq(want[i]))
			}
		}
		c.Eval(manyUses)
		c.Count("uses of objects that live long", manyUses)
	})
	r.Require("uses of objects that live long", manyUses)
}

// longLines: a line breaker sets its hundred thousandth paragraph as its first one.
func longLines(r *mon.Run) {
	r.Cases("long-lived", r.N(6, 30), func(c *mon.Case) {
		conf := randPara(c.Rng, 3).conf
		conf.order = 0
		lb := linebreak.New(conf.opts()...)
		ps, want := make([]para, 60), make([]string, 60)
		for i := range ps {
			ps[i] = randPara(c.Rng, 3)
			if len(ps[i].tokens) > 4 {
				ps[i].tokens = ps[i].tokens[:4]
			}
			if c.Rng.Intn(6) == 0 {
				ps[i].tokens[0] = string(seq(c.Rng, kStart)) + ps[i].tokens[0]
			}
			lines, err := linebreak.New(conf.opts()...).LeftAlignUniform(ps[i].tokens, ps[i].width)
			want[i] = fmt.Sprintf("%+q %v", lines, err)
		}
		uses := r.N(10000, manyUses)
		if c.Index == 0 { // short paragraphs, but beyond the range of 16 bits
			uses = manyUses
			for i := range ps {
				ps[i].tokens = []string{"ab", "c"}
				lines, err := linebreak.New(conf.opts()...).LeftAlignUniform(ps[i].tokens, ps[i].width)
				want[i] = fmt.Sprintf("%+q %v", lines, err)
			}
		}
		for k := 0; k < uses; k++ {
			i := c.Rng.Intn(len(ps))
			lines, err := lb.LeftAlignUniform(ps[i].tokens, ps[i].width)
			if got := fmt.Sprintf("%+q %v", lines, err); got != want[i] {
				c.Input("%+q at %g with %s, use %d of the same line breaker", ps[i].tokens, ps[i].width, conf, k)
				c.Fail("yields %s, want %s", got, want[i])
			}
		}
		c.Eval(uses)
		c.Count("uses of objects that live long", uses)
	})
	r.Require("uses of objects that live long", manyUses)
}

// lastWrite is an underlying writer that keeps what it was last given.
type lastWrite struct{ last []byte }

func (w *lastWrite) Write(p []byte) (int, error) {
	w.last = append(w.last[:0], p...)

	return len(p), nil
}

// longWriter: a writer writes its hundred thousandth runes as its first ones.
func longWriter(r *mon.Run) {
	r.Cases("long-lived", r.N(6, 40), func(c *mon.Case) {
		sink := &lastWrite{}
		w := runesio.NewWriter(sink)
		few := anyRunes(c.Rng, 12, true)
		few = append(few, 'a')
		want := []byte(string(few))
		for k := 0; k < manyUses; k++ {
			x := few[k%len(few)]
			c.Eval(2)
			n, err := w.WriteRune(x)
			if one := string([]rune{x}); err != nil || n != len(one) || string(sink.last) != one {
				c.Input("WriteRune(%#x), use %d of the same writer", x, k)
				c.Fail("WriteRune = %d, %v, wrote %+q, want %+q", n, err, sink.last, one)
			}
			if k%8 == 0 {
				n, err := w.WriteRunes(few)
				if err != nil || n != len(want) || !bytes.Equal(sink.last, want) {
					c.Input("WriteRunes(%s), use %d of the same writer", q(few), k)
					c.Fail("WriteRunes = %d, %v, wrote %+q", n, err, sink.last)
				}
			}
		}
		c.Count("uses of objects that live long", manyUses)
	})
	r.Require("uses of objects that live long", manyUses)
}

// longReader: a reader that is read, and sought, a hundred thousand times.
func longReader(r *mon.Run) {
	r.Cases("long-lived", r.N(6, 40), func(c *mon.Case) {
		rs := append(anyRunes(c.Rng, 30, true), 'a', 'b')
		rd := runesio.NewSliceReader(rs)
		pos := 0
		for k := 0; k < manyUses; k++ {
			if pos == len(rs) || k%5 == 0 {
				pos = c.Rng.Intn(len(rs))
				if at, err := rd.Seek(int64(pos), io.SeekStart); err != nil || at != int64(pos) {
					c.Input("Seek(%d) on %s, use %d of the same reader", pos, q(rs), k)
					c.Fail("Seek = %d, %v", at, err)
				}
			}
			x, n, err := rd.ReadRune()
			if err != nil || x != rs[pos] || n != runeSize(rs[pos]) {
				c.Input("ReadRune at %d of %s, use %d of the same reader", pos, q(rs), k)
				c.Fail("ReadRune = %#x, %d, %v", x, n, err)
			}
			pos++
		}
		c.Eval(manyUses)
		c.Count("uses of objects that live long", manyUses)
	})
	r.Require("uses of objects that live long", manyUses)
}

// longState: the ends of a line are shown a hundred thousand times at the same place.
func longState(r *mon.Run) {
	r.Cases("long-lived", r.N(6, 40), func(c *mon.Case) {
		items := randStream(c.Rng, 12, true, false)
		for i := range items {
			items[i].own = false
		}
		st, _ := build(items, nil)
		after := c.Rng.Intn(len(items))
		it := st.First()
		for i := 0; i < after; i++ {
			it.Next()
		}
		start, end := lineEnds(items, items, after)
		sink := new(bytes.Buffer)
		w := runesio.NewWriter(sink)
		for k := 0; k < manyUses; k++ {
			sink.Reset()
			it.EndOfLine(w)
			if got := sink.String(); got != end {
				c.Input("stream %s, end of line %d after renderer %d", showItems(items), k, after)
				c.Fail("EndOfLine writes %+q, want %+q", got, end)
			}
			sink.Reset()
			it.StartOfLine(w)
			if got := sink.String(); got != start {
				c.Input("stream %s, start of line %d after renderer %d", showItems(items), k, after)
				c.Fail("StartOfLine writes %+q, want %+q", got, start)
			}
		}
		c.Eval(2 * manyUses)
		c.Count("uses of objects that live long", manyUses)
	})
	r.Require("uses of objects that live long", manyUses)
}

// ownCollected: results stay what they were when all the rest was collected.
func ownCollected(r *mon.Run) {
	r.Serial("collected", r.N(60, 1000), func(c *mon.Case) {
		type kept struct {
			what      string
			got, want [][]rune
		}
		var all []kept
		use := func() {
			ops := ownOps(c.Rng)
			ops = append(ops, guardedOps(ops[0].gen)...)
			for k := 0; k < 12; k++ {
				op := pick(c.Rng, ops)
				in := op.gen(c.Rng)
				got := op.do(in)
				all = append(all, kept{op.name + " of " + q(in), got, cloneParts(got)})
			}
			b := new(bytes.Buffer)
			a := attributes.New([]rune("text"), []rune("<"), []rune(">"))
			a.Render(runesio.NewWriter(b))
		}
		for round := 0; round < 3; round++ {
			use()
			for k := 0; k < 2; k++ { // what is no longer reachable is collected, and told so
				runtime.GC()
				time.Sleep(200 * time.Microsecond)
			}
			use()
			for _, x := range all {
				c.Input("%s, after the memory was collected %d times", x.what, 2*round+2)
				if !eqParts(x.got, x.want) {
					c.Fail("the result was %s, now %s", qq(x.want), qq(x.got))
				}
				c.Eval(1)
			}
		}
		c.Count("results kept while the rest was collected", len(all))
	})
	r.Require("results kept while the rest was collected", 2000)
}

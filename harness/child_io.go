package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"

	"github.com/fredbi/go-typeset/attributes"
	"github.com/fredbi/go-typeset/linebreak"
	"github.com/fredbi/go-typeset/terminal/ansi"
	"github.com/fredbi/go-typeset/terminal/runes"
	"github.com/fredbi/go-typeset/terminal/runes/runesio"
	"github.com/fredbi/go-typeset/wordbreak/punctuator"
	"github.com/fredbi/go-typeset/wordbreak/tokenizer"
)

// childIO: readers, writers, attributes and states of their own, over runes they share; iterators over a state they share.
func childIO(k *crew, n int) {
	const inputs = 30
	texts := make([][]rune, inputs)
	for i := range texts {
		size := long(k.rng, 60)
		if k.rng.Intn(30) == 0 { // large enough to be worth sharing between goroutines
			size = 1 << (9 + k.rng.Intn(6))
		}
		texts[i] = anyRunes(k.rng, size, i%4 == 0)
		if i%5 == 4 {
			texts[i] = hostileANSI(k.rng, 60)
		}
	}
	var shared *attributes.State
	if k.rng.Intn(2) == 0 { // otherwise, the attributes are first made by the crew
		items := randStream(k.rng, 1+k.rng.Intn(40), false, true)
		for i := range items {
			items[i].own, items[i].late = false, false
		}
		shared, _ = build(items, nil)
	}
	ops := []func(rs []rune, rng *rand.Rand) string{ioRead, ioSlice, ioWrite, ioWriteFailing, ioAttributes, ioFields, ioPipeline}
	if shared != nil {
		ops = append(ops, func(_ []rune, rng *rand.Rand) string { return ioIterate(shared, rng) })
	}
	type outcome struct {
		op, text int
		seed     int64
		got      string
	}
	got := make([][]outcome, n)
	do := func(w int, rng *rand.Rand) {
		o := outcome{op: rng.Intn(len(ops)), text: rng.Intn(inputs), seed: rng.Int63()}
		o.got = ops[o.op](texts[o.text], rand.New(rand.NewSource(o.seed)))
		got[w] = append(got[w], o)
	}
	k.run(n, do, func(w int, rng *rand.Rand) {
		for i := 0; i < 100; i++ {
			do(w, rng)
		}
	})
	for _, os := range got {
		for _, o := range os {
			k.evals++
			if want := ops[o.op](texts[o.text], rand.New(rand.NewSource(o.seed))); o.got != want {
				k.fail("operation %d of %s yields %s among others, %s alone", o.op, q(texts[o.text]), o.got, want)
			}
		}
	}
}

func ioRead(rs []rune, rng *rand.Rand) string {
	var b strings.Builder
	rd := runesio.NewSliceReader(rs)
	for i := 0; i < 30; i++ {
		switch rng.Intn(3) {
		case 0:
			off, whence := int64(rng.Intn(2*len(rs)+5)-len(rs)-2), rng.Intn(3)
			at, err := rd.Seek(off, whence)
			if err != nil {
				at = -1 // whatever the position returned
			}
			fmt.Fprintf(&b, "%d,%t ", at, errors.Is(err, runesio.ErrSeekOutOfRange))
		case 1:
			b.WriteString(q(rd.Runes()))
		default:
			x, size, err := rd.ReadRune()
			if err != nil {
				x, size = 0, 0
			}
			fmt.Fprintf(&b, "%d,%d,%t ", x, size, err == io.EOF)
		}
	}

	return b.String()
}

func ioSlice(rs []rune, rng *rand.Rand) string {
	rd := runesio.NewSliceReader(rs)
	s := ""
	for i := 0; i < 5; i++ {
		from := rng.Intn(len(rs) + 1)
		to := from + rng.Intn(len(rs)-from+1)
		s += q(rd.Slice(from, to)) + qq(rd.Slices([]int{from, to, 0, from}))
		s += qq(rd.SliceFromByteOffsets([]int{len(string(rs[:from])), len(string(rs[:to]))}))
	}

	return s
}

func ioWrite(rs []rune, rng *rand.Rand) string {
	out := new(bytes.Buffer)
	w := runesio.AsRunesWriter(out)
	s := ""
	for len(rs) > 0 {
		m := 1 + rng.Intn(len(rs))
		var (
			n   int
			err error
		)
		switch rng.Intn(3) {
		case 0:
			m = 1
			n, err = w.WriteRune(rs[0])
		case 1:
			n, err = w.Write([]byte(string(rs[:m])))
		default:
			n, err = w.WriteRunes(rs[:m])
		}
		s += fmt.Sprint(n, err, " ")
		rs = rs[m:]
	}

	return s + q([]rune(out.String()))
}

// full is a writer that has room for some bytes only.
type full struct {
	out  bytes.Buffer
	room int
}

var errFull = errors.New("full")

func (f *full) Write(b []byte) (int, error) {
	if len(b) <= f.room {
		f.room -= len(b)

		return f.out.Write(b)
	}
	n, _ := f.out.Write(b[:f.room])
	f.room = 0

	return n, errFull
}

func ioWriteFailing(rs []rune, rng *rand.Rand) string {
	f := &full{room: rng.Intn(len(string(rs)) + 1)}
	n, err := runesio.NewWriter(f).WriteRunes(rs)

	return fmt.Sprintf("%d %t %+q", n, errors.Is(err, errFull), f.out.String())
}

func ioAttributes(rs []rune, rng *rand.Rand) string {
	out := new(bytes.Buffer)
	w := runesio.NewWriter(out)
	st := attributes.NewState()
	var all attributes.Renderers
	for i := 3 + rng.Intn(20); i > 0; i-- {
		part := func(odds int) []rune {
			if len(rs) == 0 || rng.Intn(odds) > 0 {
				return nil
			}
			from := rng.Intn(len(rs))

			return rs[from : from+1+rng.Intn(len(rs)-from)]
		}
		a := attributes.New(part(1), part(2), part(2))
		st.Push(a)
		if rng.Intn(8) == 0 {
			a.SetStop(part(2))
		}
		all = append(all, a)
	}
	s := ""
	for it := st.Iterator(); it.Next(); {
		s += fmt.Sprint(it.Item().Level(), it.Item().HasStart(), it.Item().HasStop(), " ")
		it.Item().Render(w)
		if rng.Intn(2) == 0 {
			it.EndOfLine(w)
			_, _ = w.WriteRune('\n')
			it.StartOfLine(w)
		}
	}
	all.Start(w)
	all.Render(w)
	all.Stop(w)

	return s + fmt.Sprintf("%+q", out.String())
}

func ioIterate(st *attributes.State, rng *rand.Rand) string {
	out := new(bytes.Buffer)
	w := runesio.NewWriter(out)
	var last attributes.Renderer
	for it := st.Iterator(); it.Next(); {
		last = it.Item()
		last.Render(w)
		if rng.Intn(2) == 0 {
			it.EndOfLine(w)
			_, _ = w.WriteRune('\n')
			it.StartOfLine(w)
		}
	}
	if first := st.First(); rng.Intn(2) == 0 && first.Item() != nil {
		first.Item().Render(w)
	}

	return fmt.Sprintf("%+q", out.String())
}

func ioFields(rs []rune, rng *rand.Rand) string {
	mask := rune(1) << rng.Intn(3)

	return qq(runes.FieldsFunc(rs, func(r rune) bool { return r&mask == 0 }))
}

// ioPipeline goes from a text to lines of attributes, all with objects of its own.
func ioPipeline(rs []rune, rng *rand.Rand) string {
	out := new(bytes.Buffer)
	w := runesio.NewWriter(out)
	st := attributes.NewState()
	var words []string
	pun := punctuator.New()
	for _, t := range ansi.StripToken(rs) {
		a := attributes.New(t.Text, t.StartSequence, t.StopSequence)
		st.Push(a)
		for _, token := range tokenizer.New().BreakWord(t.Text) {
			words = append(words, string(token))
			for _, part := range pun.BreakWord(token) {
				_, _ = w.WriteRunes(part)
			}
		}
	}
	lines, err := linebreak.New().LeftAlignUniform(words, float64(5+rng.Intn(40)))
	for it := st.Iterator(); it.Next(); {
		it.StartOfLine(w)
		it.Item().Render(w)
		it.EndOfLine(w)
	}

	return fmt.Sprintf("%+q %+q %t", out.String(), lines, err != nil)
}

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"regexp"
	"strings"
	"unicode/utf8"

	"github.com/fredbi/go-typeset/terminal/runes/runesio"

	"verif/harness/internal/mon"
)

func init() {
	checks["R01"] = checkReader
	checks["R02"] = checkByteOffsets
	checks["R03"] = checkWriter
}

// runeSize is the number of bytes of a rune once encoded (an invalid rune is encoded as U+FFFD).
func runeSize(r rune) int { return len(string([]rune{r})) }

func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()

	return false
}

func checkReader(r *mon.Run) {
	r.Rule("random histories of 60 ReadRune/Seek/Runes/Slice/Slices operations on a reader over 0-20 runes (all classes, invalid ones too), offsets from far below to far above the bounds, and all histories " +
		"of up to 4 (thorough: 5) operations on readers over 0-3 runes; each result is compared with an executable model; non-trivial: a history with a failed Seek or an end of file")
	type state struct {
		c    *mon.Case
		rd   *runesio.SliceReader
		rs   []rune
		pos  int
		desc strings.Builder
		odd  bool
	}
	read := func(s *state) {
		s.desc.WriteString("ReadRune ")
		s.c.Input("on %s: %s", q(s.rs), s.desc.String())
		x, n, err := s.rd.ReadRune()
		if s.pos >= len(s.rs) {
			if err != io.EOF || n != 0 {
				s.c.Fail("ReadRune at the end = %#x, %d, %v", x, n, err)
			}
			s.odd = true

			return
		}
		if want := s.rs[s.pos]; err != nil || x != want || n != runeSize(want) {
			s.c.Fail("ReadRune = %#x, %d, %v: want %#x, %d", x, n, err, want, runeSize(want))
		}
		s.pos++
	}
	seek := func(s *state, off int64, whence int) {
		fmt.Fprintf(&s.desc, "Seek(%d,%d) ", off, whence)
		s.c.Input("on %s: %s", q(s.rs), s.desc.String())
		base := map[int]int{io.SeekStart: 0, io.SeekCurrent: s.pos, io.SeekEnd: len(s.rs)}[whence]
		got, err := s.rd.Seek(off, whence)
		if want := float64(base) + float64(off); want < 0 || want > float64(len(s.rs)) {
			if !errors.Is(err, runesio.ErrSeekOutOfRange) {
				s.c.Fail("Seek out of range = %d, %v", got, err)
			}
			s.odd = true

			return
		}
		s.pos = base + int(off)
		if err != nil || got != int64(s.pos) {
			s.c.Fail("Seek = %d, %v: want %d", got, err, s.pos)
		}
	}
	rest := func(s *state) {
		s.c.Input("on %s: %s Runes", q(s.rs), s.desc.String())
		if got := s.rd.Runes(); !eqRunes(got, s.rs[s.pos:]) {
			s.c.Fail("Runes = %s, want %s", q(got), q(s.rs[s.pos:]))
		}
	}
	slice := func(s *state, a, b int) {
		s.c.Input("on %s: %s Slice(%d,%d)", q(s.rs), s.desc.String(), a, b)
		if got := s.rd.Slice(a, b); !eqRunes(got, s.rs[a:b]) {
			s.c.Fail("Slice = %s, want %s", q(got), q(s.rs[a:b]))
		}
	}
	slices := func(s *state, cuts []int) {
		s.c.Input("on %s: %s Slices(%v)", q(s.rs), s.desc.String(), cuts)
		if len(cuts)%2 != 0 {
			if !panics(func() { s.rd.Slices(cuts) }) {
				s.c.Fail("Slices does not panic on an odd number of offsets")
			}

			return
		}
		var want [][]rune
		for i := 0; i < len(cuts); i += 2 {
			want = append(want, s.rs[cuts[i]:cuts[i+1]])
		}
		if got := s.rd.Slices(cuts); !eqParts(got, want) {
			s.c.Fail("Slices = %s, want %s", qq(got), qq(want))
		}
	}
	extremes := []int64{math.MinInt64, math.MinInt64 + 1, math.MaxInt64, math.MaxInt64 - 20, math.MinInt32, math.MaxInt32, math.MaxUint32, 1 << 32, -1 << 32}
	longReader(r)
	r.Cases("random", r.N(20000, 600000), func(c *mon.Case) {
		rs := anyRunes(c.Rng, long(c.Rng, 20), true)
		in, whole := inMiddle(rs)
		before := clone(whole)
		s := &state{c: c, rd: runesio.NewSliceReader(in), rs: rs}
		for k := 0; k < 60; k++ {
			switch x := c.Rng.Intn(20); {
			case x < 7:
				read(s)
			case x < 8:
				seek(s, pick(c.Rng, extremes), c.Rng.Intn(3))
			case x < 14:
				seek(s, int64(c.Rng.Intn(2*len(rs)+5)-len(rs)-2), c.Rng.Intn(3))
			case x < 16:
				rest(s)
			case x < 18:
				a := c.Rng.Intn(len(rs) + 1)
				slice(s, a, a+c.Rng.Intn(len(rs)-a+1))
			default:
				var cuts []int
				for n := c.Rng.Intn(4); n > 0; n-- {
					a := c.Rng.Intn(len(rs) + 1)
					cuts = append(cuts, a, a+c.Rng.Intn(len(rs)-a+1))
				}
				if c.Rng.Intn(6) == 0 {
					cuts = append(cuts, c.Rng.Intn(len(rs)+1))
				}
				slices(s, cuts)
			}
			rest(s)
			c.Eval(2)
		}
		if !eqRunes(before, whole) {
			c.Fail("the underlying runes were modified")
		}
		if s.odd {
			r.Nontrivial(q(rs) + s.desc.String())
		}
		if c.Index < 4 {
			r.Sample("on %s: %s", q(rs), s.desc.String())
		}
	})
	big := sizes(r.N(17, 20))
	r.Cases("sizes", len(big), func(c *mon.Case) {
		rs := ofSize(c.Rng, big[c.Index], true)
		s := &state{c: c, rd: runesio.NewSliceReader(rs), rs: rs}
		near := func() int { // next to the ends, the middle, or anywhere
			n := pick(c.Rng, []int{0, len(rs) / 2, len(rs), c.Rng.Intn(len(rs) + 1)}) + c.Rng.Intn(5) - 2
			if n < 0 || n > len(rs) {
				return len(rs)
			}

			return n
		}
		step := func() {
			x, n, err := s.rd.ReadRune()
			if s.pos == len(rs) {
				if err != io.EOF || n != 0 {
					c.Fail("ReadRune at the end = %#x, %d, %v", x, n, err)
				}
			} else if err != nil || x != rs[s.pos] || n != runeSize(rs[s.pos]) {
				c.Fail("ReadRune of rune %d of %d = %#x, %d, %v", s.pos, len(rs), x, n, err)
			} else {
				s.pos++
			}
			c.Eval(1)
		}
		for k := 0; k < 200; k++ {
			to := near()
			off, whence := int64(to), io.SeekStart
			switch c.Rng.Intn(3) {
			case 0:
				off, whence = int64(to-s.pos), io.SeekCurrent
			case 1:
				off, whence = int64(to-len(rs)), io.SeekEnd
			}
			c.Input("on %d runes: at %d, Seek(%d,%d), Runes, Slice, ReadRune", len(rs), s.pos, off, whence)
			if got, err := s.rd.Seek(off, whence); err != nil || got != int64(to) {
				c.Fail("Seek = %d, %v: want %d", got, err, to)
			}
			s.pos = to
			if got := s.rd.Runes(); !eqRunes(got, rs[to:]) {
				c.Fail("Runes has %d runes, want %d", len(got), len(rs)-to)
			}
			if other := near(); other >= to {
				if got := s.rd.Slice(to, other); !eqRunes(got, rs[to:other]) {
					c.Fail("Slice(%d,%d) has %d runes", to, other, len(got))
				}
			}
			for j := c.Rng.Intn(4); j > 0; j-- {
				step()
			}
			c.Eval(3)
		}
		c.Input("all of %d runes read in turn", len(rs))
		if _, err := s.rd.Seek(0, io.SeekStart); err != nil {
			c.Fail("Seek(0, SeekStart): %v", err)
		}
		for s.pos = 0; s.pos < len(rs); {
			step()
		}
		step()
		r.Nontrivial(fmt.Sprint("size", len(rs)))
	})
	type op struct {
		off    int64
		whence int // 3: ReadRune
	}
	ops := []op{{0, 3}}
	for w := 0; w < 3; w++ {
		for off := int64(-4); off <= 4; off++ {
			ops = append(ops, op{off, w})
		}
	}
	depth := r.N(3, 4)
	r.Cases("all-short-histories", 4*len(ops), func(c *mon.Case) {
		rs := []rune("aé\U0001F308")[:c.Index%4]
		first := ops[c.Index/4]
		var rec func(h []op)
		rec = func(h []op) {
			s := &state{c: c, rd: runesio.NewSliceReader(rs), rs: rs}
			for _, o := range h {
				if o.whence == 3 {
					read(s)
				} else {
					seek(s, o.off, o.whence)
				}
				rest(s)
				c.Eval(2)
			}
			if s.odd {
				r.Nontrivial(q(rs) + s.desc.String())
			}
			if len(h) < depth {
				for _, o := range ops {
					rec(append(h[:len(h):len(h)], o))
				}
			}
		}
		rec([]op{first})
	})
	r.Cases("every-code-point", 0x110, func(c *mon.Case) { // the size of a rune read
		lo := rune(c.Index) * 0x1000
		rs := make([]rune, 0, 0x1000)
		for x := lo; x < lo+0x1000; x++ {
			rs = append(rs, x)
		}
		rs = append(rs, invalidRunes...)
		rd := runesio.NewSliceReader(rs)
		total := 0
		for _, want := range rs {
			c.Input("ReadRune of %#x", want)
			x, n, err := rd.ReadRune()
			if err != nil || x != want || n != runeSize(want) {
				c.Fail("ReadRune = %#x, %d, %v: want %#x, %d", x, n, err, want, runeSize(want))
			}
			total += n
		}
		if total != len(string(rs)) {
			c.Fail("the sizes add up to %d, the encoding has %d bytes", total, len(string(rs)))
		}
		c.Eval(len(rs) + 1)
	})
}

func checkByteOffsets(r *mon.Run) {
	r.Rule("(a) every pair of rune boundaries of random rune slices (0-16 runes of 1-4 bytes, invalid ones included), in all positions of the reader; " +
		"(b) 60 regular expressions run on the reader as an io.RuneReader, their byte offsets cut back into runes and compared with the match on the string; non-trivial: a slice that holds a rune of several bytes")
	mixed := func(c *mon.Case, max int, hostile bool) []rune {
		rs := anyRunes(c.Rng, max, hostile)
		for i := range rs {
			if c.Rng.Intn(3) == 0 {
				rs[i] = pick(c.Rng, []rune("aéß世☆\U0001F308\U0010FFFFb\u07ff\u0800\uffff\u0080"))
			}
		}

		return rs
	}
	multi := func(rs []rune) bool {
		for _, x := range rs {
			if runeSize(x) > 1 {
				return true
			}
		}

		return false
	}
	r.Cases("boundaries", r.N(12000, 300000), func(c *mon.Case) {
		rs := mixed(c, 16, true)
		offs := []int{0}
		for _, x := range rs {
			offs = append(offs, offs[len(offs)-1]+runeSize(x))
		}
		rd := runesio.NewSliceReader(rs)
		for k := c.Rng.Intn(len(rs) + 1); k > 0; k-- {
			_, _, _ = rd.ReadRune()
		}
		var (
			all  []int
			want [][]rune
		)
		for i := range offs {
			for j := i; j < len(offs); j++ {
				c.Input("SliceFromByteOffsets(%d,%d) of %s", offs[i], offs[j], q(rs))
				got := rd.SliceFromByteOffsets([]int{offs[i], offs[j]})
				if len(got) != 1 || !eqRunes(got[0], rs[i:j]) {
					c.Fail("SliceFromByteOffsets = %s, want %s", qq(got), q(rs[i:j]))
				}
				if c.Rng.Intn(4) == 0 {
					all = append(all, offs[i], offs[j])
					want = append(want, rs[i:j])
				}
				c.Eval(1)
				if multi(rs[i:j]) {
					r.Nontrivial(q(rs) + fmt.Sprint(i, j))
				}
			}
		}
		c.Input("SliceFromByteOffsets(%v) of %s", all, q(rs))
		if got := rd.SliceFromByteOffsets(all); !eqParts(got, want) {
			c.Fail("SliceFromByteOffsets = %s, want %s", qq(got), qq(want))
		}
		if !panics(func() { rd.SliceFromByteOffsets(append(all, 0)) }) {
			c.Fail("SliceFromByteOffsets does not panic on an odd number of offsets")
		}
		c.Eval(2)
	})
	// the runes belong to the caller, who changes them between the calls: the offsets are those of the runes that are cut
	r.Cases("changed", r.N(4000, 80000), func(c *mon.Case) {
		rs := mixed(c, 12, true)
		at := func(rs []rune) (offs []int) {
			offs = []int{0}
			for _, x := range rs {
				offs = append(offs, offs[len(offs)-1]+runeSize(x))
			}

			return offs
		}
		given := clone(rs)
		rd := runesio.NewSliceReader(given)
		for k := 0; k < 4 && len(rs) > 0; k++ {
			offs := at(rd.Slice(0, len(rs)))
			i := c.Rng.Intn(len(offs))
			j := i + c.Rng.Intn(len(offs)-i)
			c.Input("SliceFromByteOffsets(%d,%d) of %s, whose runes were changed %d times", offs[i], offs[j], q(given), k)
			got := rd.SliceFromByteOffsets([]int{offs[i], offs[j]})
			if want := rd.Slice(i, j); len(got) != 1 || !eqRunes(got[0], want) {
				c.Fail("SliceFromByteOffsets = %s, Slice(%d,%d) = %s", qq(got), i, j, q(want))
			}
			copy(given, mixed(c, 12, true))
			if k > 0 {
				r.Nontrivial(fmt.Sprint(q(given), i, j, k))
			}
			c.Eval(1)
		}
	})
	r.Cases("far-boundaries", r.N(1000, 20000), func(c *mon.Case) {
		rs := mixed(c, 3000, true)
		offs := []int{0}
		for _, x := range rs {
			offs = append(offs, offs[len(offs)-1]+runeSize(x))
		}
		rd := runesio.NewSliceReader(rs)
		c.Input("far offsets of %s", q(rs))
		for k := 0; k < 20; k++ {
			var (
				at   []int
				want [][]rune
			)
			for g := c.Rng.Intn(6); g >= 0; g-- {
				i := c.Rng.Intn(len(offs))
				j := i + c.Rng.Intn(len(offs)-i)
				at = append(at, offs[i], offs[j])
				want = append(want, rs[i:j])
			}
			if got := rd.SliceFromByteOffsets(at); !eqParts(got, want) {
				c.Fail("SliceFromByteOffsets(%v) = %s, want %s", at, qq(got), qq(want))
			}
			c.Eval(1)
		}
	})
	big := sizes(r.N(17, 20))
	r.Cases("sizes", len(big), func(c *mon.Case) {
		rs := ofSize(c.Rng, big[c.Index], true)
		offs := []int{0}
		for _, x := range rs {
			offs = append(offs, offs[len(offs)-1]+runeSize(x))
		}
		rd := runesio.NewSliceReader(rs)
		c.Input("far offsets of %d runes", len(rs))
		for k := 0; k < 6; k++ {
			i := c.Rng.Intn(len(offs))
			j := i + c.Rng.Intn(len(offs)-i)
			at := []int{offs[i], offs[j], offs[j], offs[len(rs)], 0, offs[i]}
			want := [][]rune{rs[i:j], rs[j:], rs[:i]}
			if got := rd.SliceFromByteOffsets(at); !eqParts(got, want) {
				c.Fail("SliceFromByteOffsets(%v) of %d runes does not give the slices [%d:%d], [%d:] and [:%d]", at, len(rs), i, j, j, i)
			}
			c.Eval(1)
		}
		r.Nontrivial(fmt.Sprint("size", len(rs)))
	})
	var res []*regexp.Regexp
	for _, e := range []string{
		`a`, `é`, `世`, `.`, `..`, `...`, `^.`, `^..`, `^...`, `^.*$`, `.+`, `(.)(.)`, `(.)(.)(.)`, `(\pL+)(\PL+)`, `\pL+`, `\PL+`, `\s+`, `[^\s]+`, `(\S+)\s+(\S+)`, `[[:punct:]]`, `\pP`, `\pP+`, `[a-z]+`, `[^a-z]+`,
		`\d+`, `☆`, `b`, `ß`, `[\x{10000}-\x{10FFFF}]`, `[\x{10000}-\x{10FFFF}]+`, `[\x80-\x{7ff}]`, `[\x80-\x{7ff}]+`, `[\x{800}-\x{ffff}]`, `[\x{800}-\x{ffff}]+`, `^`, `$`, `(a)|(é)`, `(a)?(é)?`, `(.*)(世)(.*)`, `(.*?)(é)(.*?)`,
		`\x{1b}\[`, `(\pL)(\pP)`, `(.)$`, `(..)$`, `(...)$`, `x*`, `(x*)(.)`, `\b.`, `.\b`, `[^a]`, `[^é]+`, `(?i)É`, `(?i)[à-ÿ]+`, `(.).(.)`, `(.)..(.)`, `((.).)(.)`, `(^.)|(.$)`, `\pZ`, `\pS+`, `\pM`,
	} {
		res = append(res, regexp.MustCompile("(?s)"+e))
	}
	r.Cases("regexp", r.N(15000, 500000), func(c *mon.Case) {
		rs := mixed(c, long(c.Rng, 24), false)
		str := string(rs)
		for k := 0; k < 8; k++ {
			re := pick(c.Rng, res)
			c.Input("regexp %s on %s", re, q(rs))
			rd := runesio.NewSliceReader(rs)
			offs := re.FindReaderSubmatchIndex(rd)
			want := re.FindStringSubmatchIndex(str)
			if fmt.Sprint(offs) != fmt.Sprint(want) {
				c.Fail("the match on the reader is at %v, on the string at %v", offs, want)
			}
			c.Eval(1)
			if offs == nil {
				continue
			}
			got := rd.SliceFromByteOffsets(offs)
			for g := 0; g < len(offs)/2; g++ {
				s := ""
				if offs[2*g] >= 0 {
					s = str[offs[2*g]:offs[2*g+1]]
				}
				if string(got[g]) != s {
					c.Fail("group %d (%v) is %s, want %+q", g, offs, q(got[g]), s)
				}
				if len(s) > utf8.RuneCountInString(s) {
					r.Nontrivial(re.String() + str + fmt.Sprint(g))
				}
			}
			c.Eval(len(got))
			if c.Index < 3 && k == 0 {
				r.Sample("regexp %s on %s: offsets %v, groups %s", re, q(rs), offs, qq(got))
			}
		}
	})
}

// faultyWriter accepts a number of bytes, then fails each write that goes over.
type faultyWriter struct {
	got   []byte
	quota int
	err   error
	fails int
	after int // what is accepted once a write has failed
}

func (w *faultyWriter) Write(p []byte) (int, error) {
	if len(p) > w.quota {
		n := w.quota
		w.got = append(w.got, p[:n]...)
		w.quota = w.after
		w.fails++
		for i := range p {
			_ = p[i]
		}

		return n, w.err
	}
	w.quota -= len(p)
	w.got = append(w.got, p...)

	return len(p), nil
}

// Writers with more methods, which do the same.
type (
	stringWriter struct{ *faultyWriter }
	richWriter   struct{ stringWriter }
	runeWriter   struct{ *faultyWriter }
)

func (w stringWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

func (w richWriter) WriteByte(b byte) error {
	_, err := w.Write([]byte{b})

	return err
}

func (w richWriter) Flush() error { return nil }

func (w richWriter) Sync() error { return nil }

func (w runeWriter) WriteRune(r rune) (int, error) { return w.Write([]byte(string([]rune{r}))) }

func (w runeWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

// dressed hides the methods of a writer, or adds some.
func dressed(rng *rand.Rand, w *faultyWriter) io.Writer {
	switch rng.Intn(4) {
	case 0:
		return stringWriter{w}
	case 1:
		return richWriter{stringWriter{w}}
	case 2:
		return runeWriter{w}
	default:
		return w
	}
}

func checkWriter(r *mon.Run) {
	r.Rule("(a) every code point and invalid rune through WriteRune and WriteRunes, (b) random histories of WriteRune/WriteRunes/Write on NewWriter and AsRunesWriter, (c) the same with an underlying writer that " +
		"fails after every possible number of bytes; oracles: bytes are the UTF-8 encoding, in order; the count and error returned are those of the underlying writer; non-trivial: an injected fault hit, or a rune of several bytes")
	longWriter(r)
	r.Cases("every-code-point", 0x111, func(c *mon.Case) {
		lo := rune(c.Index) * 0x1000
		rs := make([]rune, 0, 0x1000)
		for x := lo; x < lo+0x1000 && x < 0x110000; x++ {
			rs = append(rs, x)
		}
		if c.Index == 0x110 {
			rs = append(rs, invalidRunes...)
		}
		b := new(bytes.Buffer)
		w := runesio.NewWriter(b)
		for _, x := range rs {
			c.Input("WriteRune(%#x)", x)
			b.Reset()
			n, err := w.WriteRune(x)
			if want := string([]rune{x}); err != nil || n != len(want) || b.String() != want {
				c.Fail("WriteRune = %d, %v, wrote %+q: want %+q", n, err, b.String(), want)
			}
		}
		b.Reset()
		c.Input("WriteRunes of the code points %#x to %#x", lo, lo+0x1000)
		if n, err := w.WriteRunes(rs); err != nil || n != len(string(rs)) || b.String() != string(rs) {
			c.Fail("WriteRunes = %d, %v: wrote %d bytes, want %d", n, err, b.Len(), len(string(rs)))
		}
		c.Eval(len(rs) + 1)
		r.Nontrivial(fmt.Sprint("block", c.Index))
	})
	wrap := func(c *mon.Case, w io.Writer) runesio.Writer {
		switch c.Rng.Intn(4) {
		case 0:
			return runesio.AsRunesWriter(w)
		case 1:
			return runesio.AsRunesWriter(runesio.NewWriter(w)) // already a runes writer
		case 2:
			return runesio.NewWriter(runesio.NewWriter(w))
		default:
			return runesio.NewWriter(w)
		}
	}
	type call struct {
		kind int
		rs   []rune
		b    []byte
	}
	r.Cases("histories-with-faults", r.N(20000, 500000), func(c *mon.Case) {
		var calls []call
		total := 0
		desc := ""
		for k := 1 + c.Rng.Intn(8); k > 0; k-- {
			x := call{kind: c.Rng.Intn(3)}
			switch x.kind {
			case 0:
				x.rs = []rune{anyRune(c.Rng, true)}
			case 1:
				x.rs = anyRunes(c.Rng, long(c.Rng, 12), true)
			default:
				x.b = make([]byte, c.Rng.Intn(6))
				c.Rng.Read(x.b)
			}
			if x.kind < 2 {
				x.b = []byte(string(x.rs))
			}
			total += len(x.b)
			calls = append(calls, x)
			desc += fmt.Sprintf("%s(%s) ", []string{"WriteRune", "WriteRunes", "Write"}[x.kind], q(x.rs))
		}
		quotas := []int{total + 1}
		for k := 0; k < total; k++ {
			if total <= 24 || c.Rng.Intn(total) < 24 {
				quotas = append(quotas, k)
			}
		}
		for _, quota := range quotas {
			under := &faultyWriter{quota: quota, err: fmt.Errorf("injected fault after %d bytes", quota)}
			w := wrap(c, dressed(c.Rng, under))
			if c.Rng.Intn(8) == 0 {
				under.err = nil // short writes without an error
			}
			if under.err != nil && c.Rng.Intn(3) == 0 {
				under.after = 1 << 30 // the writer works again after a fault: what follows in the same call is not to be written
			}
			c.Input("with a writer that accepts %d bytes: %s", quota, desc)
			for i, x := range calls {
				var (
					n   int
					err error
				)
				had, fails := len(under.got), under.fails
				in, whole := inMiddle(x.rs)
				before := clone(whole)
				switch x.kind {
				case 0:
					n, err = w.WriteRune(x.rs[0])
				case 1:
					n, err = w.WriteRunes(in)
				default:
					n, err = w.Write(clone8(x.b))
				}
				accepted := under.got[had:]
				if !bytes.HasPrefix(x.b, accepted) {
					c.Fail("call %d wrote %+q, want %+q", i, accepted, x.b)
				}
				if n != len(accepted) {
					c.Fail("call %d returns %d, but the underlying writer accepted %d bytes", i, n, len(accepted))
				}
				if !eqRunes(before, whole) {
					c.Fail("call %d modified its argument", i)
				}
				switch failed := under.fails > fails; {
				case failed && err != under.err && !(under.err == nil && err == io.ErrShortWrite):
					c.Fail("call %d: the underlying writer failed, but the error is %v", i, err)
				case !failed && err != nil:
					c.Fail("call %d: error %v without a fault", i, err)
				case !failed && len(accepted) != len(x.b):
					c.Fail("call %d wrote %+q without an error, want %+q", i, accepted, x.b)
				case failed:
					r.Count("injected faults hit", 1)
					r.Nontrivial(desc + fmt.Sprint(quota))
				}
				c.Eval(1)
			}
		}
		if c.Index < 4 {
			r.Sample("%d fault points in: %s", len(quotas), desc)
		}
	})
	big := sizes(r.N(17, 20))
	r.Cases("sizes", len(big), func(c *mon.Case) {
		rs := ofSize(c.Rng, big[c.Index], true)
		all := []byte(string(rs))
		for _, quota := range []int{len(all), len(all) - 1, len(all) / 2, c.Rng.Intn(len(all)), 0} {
			under := &faultyWriter{quota: quota, err: errors.New("injected fault")}
			w := wrap(c, dressed(c.Rng, under))
			if c.Rng.Intn(8) == 0 {
				under.err = nil // short writes without an error
			}
			if under.err != nil && c.Rng.Intn(3) == 0 {
				under.after = 1 << 30 // the writer works again after a fault: what follows in the same call is not to be written
			}
			c.Input("WriteRunes of %d runes, with a writer that accepts %d bytes of %d", len(rs), quota, len(all))
			n, err := w.WriteRunes(rs)
			switch {
			case !bytes.HasPrefix(all, under.got):
				c.Fail("the bytes written are not those of the runes")
			case n != len(under.got):
				c.Fail("%d bytes returned, but the underlying writer accepted %d", n, len(under.got))
			case under.fails > 0 && err != under.err && !(under.err == nil && err == io.ErrShortWrite):
				c.Fail("the underlying writer failed, but the error is %v", err)
			case under.fails == 0 && (err != nil || n != len(all)):
				c.Fail("without a fault: %d bytes of %d, error %v", n, len(all), err)
			}
			c.Eval(1)
		}
		r.Nontrivial(fmt.Sprint("size", len(rs)))
	})
	r.Serial("as-it-is", 1, func(c *mon.Case) {
		under := new(bytes.Buffer)
		own := &countingWriter{}
		made := runesio.NewWriter(under)
		for name, w := range map[string]runesio.Writer{
			"one made by NewWriter": made, "one made from another one": runesio.NewWriter(made),
			"one made by AsRunesWriter": runesio.AsRunesWriter(under), "one of the caller": own,
		} {
			c.Input("AsRunesWriter of a writer that already writes runes (%s)", name)
			if runesio.AsRunesWriter(w) != w {
				c.Fail("this is another writer")
			}
			c.Eval(1)
		}
		if n, err := runesio.AsRunesWriter(own).WriteRunes([]rune("some")); n != 7 || err != nil || own.calls != 1 {
			c.Fail("WriteRunes = %d, %v, after %d calls of the writer of the caller", n, err, own.calls)
		}
	})
	// what a reader says of sizes is what a writer writes
	r.Cases("reader-and-writer", r.N(5000, 100000), func(c *mon.Case) {
		rs := anyRunes(c.Rng, long(c.Rng, 40), true)
		c.Input("%s", q(rs))
		b := new(bytes.Buffer)
		w := runesio.AsRunesWriter(b)
		rd := runesio.NewSliceReader(rs)
		for {
			x, n, err := rd.ReadRune()
			if err != nil {
				break
			}
			m, err := w.WriteRune(x)
			if err != nil || m != n {
				c.Fail("rune %#x: %d bytes read, %d written, %v", x, n, m, err)
			}
		}
		if b.String() != string(rs) {
			c.Fail("copied %+q", b.String())
		}
		c.Eval(len(rs) + 1)
	})
	r.Require("injected faults hit", 1000)
}

func clone8(b []byte) []byte { return append([]byte{}, b...) }

// countingWriter is a runes writer of the caller.
type countingWriter struct{ calls int }

func (w *countingWriter) Write(p []byte) (int, error) { return len(p), nil }

func (w *countingWriter) WriteRune(rune) (int, error) { return 1, nil }

func (w *countingWriter) WriteRunes([]rune) (int, error) {
	w.calls++

	return 7, nil
}

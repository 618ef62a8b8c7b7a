package main

import (
	"bufio"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"unicode/utf8"

	"github.com/fredbi/go-typeset/terminal/runes"

	"verif/harness/internal/mon"
)

func init() {
	checks["W01"] = checkWidthAdditive
	checks["W02"] = checkWidthUnicode
}

// widthMode is a setting of all the options on width.
type widthMode struct {
	ea, skip bool
	amb      int // 0: left to its default, -1: zero
	omitEA   bool
}

func (m widthMode) opts() (out []runes.Option) {
	if !m.omitEA {
		out = append(out, runes.WithEastAsian(m.ea))
	}
	if m.skip {
		out = append(out, runes.WithSkipStrictEmojiNeutral(true))
	}
	if m.amb != 0 {
		out = append(out, runes.WithEastAsianAmbiguousWidth(m.ambiguous()))
	}

	return out
}

// ambiguous is the width of ambiguous runes in East Asian mode.
func (m widthMode) ambiguous() int {
	switch m.amb {
	case 0:
		return 2
	case -1:
		return 0
	default:
		return m.amb
	}
}

func (m widthMode) String() string {
	return fmt.Sprintf("eastAsian=%t skipStrictEmojiNeutral=%t ambiguousWidth=%d", m.ea, m.skip, m.ambiguous())
}

func widthModes() (out []widthMode) {
	out = append(out, widthMode{omitEA: true}, widthMode{omitEA: true, skip: true}, widthMode{omitEA: true, amb: 1})
	for _, ea := range []bool{false, true} {
		for _, skip := range []bool{false, true} {
			for _, amb := range []int{0, 1, 2, 3} {
				out = append(out, widthMode{ea: ea, skip: skip, amb: amb})
			}
		}
	}

	return out
}

// unicodeData is the reference classification of code points: Unicode 15.0, from sources independent of /repo.
type unicodeData struct {
	eaw       [0x110000]byte
	emoji     [0x110000]bool
	combining [0x110000]bool
	nonprint  [0x110000]bool
}

func loadUnicode(r *mon.Run) *unicodeData {
	u := new(unicodeData)
	f, err := os.Open(filepath.Join(r.Dir, "harness", "data", "unicode15.txt"))
	if err != nil {
		r.Broken("reference data: %v", err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		if strings.HasPrefix(sc.Text(), "#") {
			continue
		}
		var (
			lo, hi int
			class  string
		)
		if _, err := fmt.Sscanf(sc.Text(), "%X %X %s", &lo, &hi, &class); err != nil {
			r.Broken("reference data: %v", err)
		}
		for c := lo; c <= hi; c++ {
			u.eaw[c] = class[0]
			u.emoji[c] = class[1] == '1' && c >= 0xFF
			u.combining[c] = class[2] == 'C'
		}
	}
	// marks listed by EastAsianWidth.txt on one line with marks named COMBINING
	for _, c := range []int{0xD01, 0x11301, 0x1133C, 0x1CF42, 0x1CF43, 0x1CF44, 0x1CF45, 0x1CF46} {
		u.combining[c] = true
	}
	// characters that are not printed: controls, soft hyphen, format characters, surrogates, noncharacters of plane 0
	for _, x := range [][2]int{
		{0x00, 0x1F}, {0x7F, 0x9F}, {0xAD, 0xAD}, {0x70F, 0x70F}, {0x180B, 0x180E}, {0x200B, 0x200F}, {0x2028, 0x202E},
		{0x206A, 0x206F}, {0xD800, 0xDFFF}, {0xFEFF, 0xFEFF}, {0xFFF9, 0xFFFB}, {0xFFFD, 0xFFFF},
	} {
		for c := x[0]; c <= x[1]; c++ {
			u.nonprint[c] = true
		}
	}

	return u
}

// ambiguous is the reference of IsAmbiguous.
func (u *unicodeData) ambiguous(r rune) bool { return utf8.ValidRune(r) && u.eaw[r] == 'A' }

// width is the reference.
func (u *unicodeData) width(r rune, m widthMode) int {
	switch {
	case !utf8.ValidRune(r), u.nonprint[r], u.combining[r]:
		return 0
	case r == 0x2E3A:
		return 3
	case r == 0x2E3B:
		return 4
	case u.eaw[r] == 'W' || u.eaw[r] == 'F':
		return 2
	case !m.ea || u.eaw[r] == 'n':
		return 1
	case u.eaw[r] == 'A':
		return m.ambiguous()
	case m.skip && u.emoji[r]:
		return 2
	default:
		return 1
	}
}

// checkWidthUnicode compares Width and IsAmbiguous with the reference on every code point in every mode.
func checkWidthUnicode(r *mon.Run) {
	r.Rule("every int32 in [-64, 0x110040] and the extreme int32 values, in each of 19 option settings; non-trivial: the reference width is not 1")
	r.Assume("reference data: perl 5.38 unicore tables and Python unicodedata names, both Unicode 15.0.0, in harness/data/unicode15.txt")
	u := loadUnicode(r)
	modes := widthModes()
	const chunk = 0x1100
	const chunks = 0x110000/chunk + 1
	r.Cases("every-code-point", chunks*len(modes), func(c *mon.Case) {
		m := modes[c.Index%len(modes)]
		opts := m.opts()
		lo := rune(c.Index/len(modes)) * chunk
		hi := lo + chunk
		if lo == 0 {
			lo = -64
		}
		if hi > 0x110000 {
			hi = 0x110040
		}
		n := 0
		for x := lo; x < hi; x++ {
			c.Input("Width(%#x) with %s", x, m)
			want := u.width(x, m)
			if got := runes.Width(x, opts...); got != want {
				c.Fail("Width(%#x) = %d, Unicode says %d (%s)", x, got, want, m)
			}
			n++
			if want != 1 {
				r.Nontrivial(fmt.Sprintf("%d/%d", x, c.Index%len(modes)))
			}
			if m.omitEA {
				want := utf8.ValidRune(x) && u.eaw[x] == 'A'
				if got := runes.IsAmbiguous(x); got != want {
					c.Fail("IsAmbiguous(%#x) = %t, Unicode says %t", x, got, want)
				}
				n++
			}
		}
		c.Eval(n)
	})
	r.Cases("extreme-runes", len(modes), func(c *mon.Case) {
		m := modes[c.Index]
		for _, x := range invalidRunes {
			c.Input("Width(%#x) with %s", x, m)
			if got := runes.Width(x, m.opts()...); got != 0 {
				c.Fail("Width(%#x) = %d for an invalid rune", x, got)
			}
			c.Eval(1)
		}
	})
	// the same runes in all the modes in turns: nothing of a mode is kept for another
	r.Cases("modes-in-turns", r.N(300, 3000), func(c *mon.Case) {
		lo := widthRune(c.Rng)
		for x := lo; x < lo+16; x++ {
			for k := 0; k < 2*len(modes); k++ {
				m := pick(c.Rng, modes)
				c.Input("Width(%#x) with %s", x, m)
				if got, want := runes.Width(x, m.opts()...), u.width(x, m); got != want {
					c.Fail("Width(%#x) = %d, Unicode says %d (%s)", x, got, want, m)
				}
				c.Eval(1)
			}
		}
	})
	// options are settings, not accumulators: order and repetition do not matter, and calls do not leak into one another
	r.Cases("option-order", r.N(2000, 20000), func(c *mon.Case) {
		var (
			m    widthMode
			opts []runes.Option
			desc []string
		)
		for k := c.Rng.Intn(6); k >= 0; k-- {
			switch c.Rng.Intn(3) {
			case 0:
				m.ea = c.Rng.Intn(2) == 0
				opts = append(opts, runes.WithEastAsian(m.ea))
				desc = append(desc, fmt.Sprintf("ea=%t", m.ea))
			case 1:
				m.skip = c.Rng.Intn(2) == 0
				opts = append(opts, runes.WithSkipStrictEmojiNeutral(m.skip))
				desc = append(desc, fmt.Sprintf("skip=%t", m.skip))
			default:
				m.amb = pick(c.Rng, []int{-1, 1, 2, 3, 4, 5, 8, 255, 256, 1000, 1 << 20})
				opts = append(opts, runes.WithEastAsianAmbiguousWidth(m.ambiguous()))
				desc = append(desc, fmt.Sprintf("amb=%d", m.ambiguous()))
			}
		}
		for k := 0; k < 50; k++ {
			x := widthRune(c.Rng)
			c.Input("Width(%#x) with %v", x, desc)
			if got, want := runes.Width(x, opts...), u.width(x, m); got != want {
				c.Fail("Width(%#x) = %d, Unicode says %d", x, got, want)
			}
			if got, want := runes.Width(x), u.width(x, widthMode{}); got != want {
				c.Fail("Width(%#x) without options = %d after a call with options, Unicode says %d", x, got, want)
			}
			c.Eval(2)
		}
		r.Sample("options %v: %d random runes", desc, 50)
	})
	r.Exhaustive()
}

// widthRune picks runes of all width classes, and runes at the edge of a class.
func widthRune(rng *rand.Rand) rune {
	switch rng.Intn(8) {
	case 0:
		return pick(rng, invalidRunes)
	case 1:
		return rune(rng.Intn(0x400))
	case 2:
		return pick(rng, []rune{0x2E3A, 0x2E3B, 0x2E39, 0x2E3C, 0xFFFD, 0xFFFE, 0xFFFC, 0x10FFFF, 0x10FFFD, 0, 0x1F, 0x20, 0x7F, 0xA0, 0xAD, 0xFF, 0x100, 0x2FF, 0x300})
	case 3:
		return 0x2000 + rune(rng.Intn(0x2000))
	case 4:
		return 0x1F000 + rune(rng.Intn(0x1000))
	case 5:
		return anyRune(rng, true)
	default:
		return rune(rng.Intn(0x110000))
	}
}

// checkWidthAdditive compares the width of slices and strings with the sum of the widths of their runes.
func checkWidthAdditive(r *mon.Run) {
	r.Rule("every code point alone and random strings (0-40 runes of all width classes, valid and invalid), in each of 19 option settings; " +
		"non-trivial: a string of at least 2 runes whose widths are not all equal, or a single rune of width other than 1")
	inOrders(r, "width", r.N(10, 100))
	modes := widthModes()
	const chunk = 0x1100
	r.Cases("single-runes", (0x110000/chunk+1)*len(modes), func(c *mon.Case) {
		m := modes[c.Index%len(modes)]
		opts := m.opts()
		lo := rune(c.Index/len(modes)) * chunk
		hi := lo + chunk
		if lo == 0 {
			lo = -64
		}
		if hi > 0x110000 {
			hi = 0x110040
		}
		buf := make([]rune, 1)
		for x := lo; x < hi; x++ {
			c.Input("Widths([]rune{%#x}) with %s", x, m)
			buf[0] = x
			want := runes.Width(x, opts...)
			if got := runes.Widths(buf, opts...); got != want {
				c.Fail("Widths([]rune{%#x}) = %d but Width(%#x) = %d (%s)", x, got, x, want, m)
			}
			if utf8.ValidRune(x) {
				if got := runes.StringWidth(string(buf), opts...); got != want {
					c.Fail("StringWidth(%+q) = %d but Width(%#x) = %d (%s)", string(buf), got, x, want, m)
				}
			}
			if want != 1 {
				r.Nontrivial(fmt.Sprintf("%d/%d", x, c.Index%len(modes)))
			}
		}
		c.Eval(int(hi - lo))
	})
	big := sizes(r.N(17, 20))
	r.Cases("sizes", len(big), func(c *mon.Case) {
		rs := ofSize(c.Rng, big[c.Index], false)
		if c.Rng.Intn(2) == 0 {
			for i := range rs {
				rs[i] = widthRune(c.Rng)
			}
		}
		rs[0], rs[len(rs)-1] = '\u4e00', '\u4e00'
		for _, m := range append([]widthMode{pick(c.Rng, modes)}, modes...) {
			if c.Rng.Intn(4) == 0 {
				m.amb = pick(c.Rng, []int{-1, 4, 5, 100, 1 << 20})
			}
			opts := m.opts()
			c.Input("Widths of %d runes with %s", len(rs), m)
			sum := 0
			for _, x := range rs {
				sum += runes.Width(x, opts...)
			}
			if got := runes.Widths(rs, opts...); got != sum {
				c.Fail("Widths of %d runes = %d, but they sum to %d", len(rs), got, sum)
			}
			if got := runes.StringWidth(string(rs), opts...); got != sum {
				c.Fail("StringWidth of %d runes = %d, but they sum to %d", len(rs), got, sum)
			}
			c.Eval(2)
		}
	})
	r.Cases("strings", r.N(150000, 3000000), func(c *mon.Case) {
		m := pick(c.Rng, modes)
		if c.Rng.Intn(4) == 0 {
			m.amb = pick(c.Rng, []int{-1, 4, 5, 100, 1 << 20})
		}
		opts := m.opts()
		n := c.Rng.Intn(long(c.Rng, 40))
		rs := make([]rune, 0, n)
		for len(rs) < n {
			rs = append(rs, widthRune(c.Rng))
		}
		c.Input("Widths(%s) with %s", q(rs), m)
		sum, first, mixed := 0, 0, false
		for i, x := range rs {
			w := runes.Width(x, opts...)
			if w < 0 {
				c.Fail("Width(%#x) = %d is negative", x, w)
			}
			sum += w
			if i == 0 {
				first = w
			}
			mixed = mixed || w != first
		}
		in, whole := inMiddle(rs)
		before := clone(whole)
		if got := runes.Widths(in, opts...); got != sum {
			c.Fail("Widths = %d, but its runes sum to %d", got, sum)
		}
		if !eqRunes(before, whole) {
			c.Fail("Widths modified its input")
		}
		if got := runes.StringWidth(string(rs), opts...); got != sum {
			// string() turns invalid runes into U+FFFD, which has the same width 0
			c.Fail("StringWidth = %d, but its runes sum to %d", got, sum)
		}
		cut := c.Rng.Intn(len(rs) + 1)
		if got := runes.Widths(rs[:cut], opts...) + runes.Widths(rs[cut:], opts...); got != sum {
			c.Fail("cut at %d: the two halves sum to %d, the whole is %d", cut, got, sum)
		}
		c.Eval(3)
		if mixed {
			r.Nontrivial(q(rs) + m.String())
		}
		if c.Index < 6 {
			r.Sample("Widths(%s) = %d with %s", q(rs), sum, m)
		}
	})
	// runes that are displayed as one after others: each keeps its width
	some := []widthMode{modes[0], {ea: true}, {ea: true, skip: true, amb: 1}}
	r.Cases("sequences-of-three", len(joiners)*len(some), func(c *mon.Case) {
		m := some[c.Index%len(some)]
		opts := m.opts()
		first := joiners[c.Index/len(some)]
		rs := []rune{first, 0, 0}
		n := 0
		for _, x := range joiners {
			for _, y := range joiners {
				rs[1], rs[2] = x, y
				c.Input("Widths(%s) with %s", q(rs), m)
				want := runes.Width(first, opts...) + runes.Width(x, opts...) + runes.Width(y, opts...)
				if got := runes.Widths(rs, opts...); got != want {
					c.Fail("Widths = %d, but its runes sum to %d", got, want)
				}
				if got := runes.StringWidth(string(rs), opts...); got != want {
					c.Fail("StringWidth = %d, but its runes sum to %d", got, want)
				}
				n += 2
			}
		}
		c.Eval(n)
	})
	r.Cases("sequences", r.N(60000, 1000000), func(c *mon.Case) {
		m := pick(c.Rng, modes)
		opts := m.opts()
		rs := make([]rune, 2+c.Rng.Intn(12))
		block := widthRune(c.Rng) &^ 0x7f
		few := []rune{pick(c.Rng, joiners), pick(c.Rng, joiners), pick(c.Rng, joiners), pick(c.Rng, joiners)}
		sum := 0
		kind := c.Rng.Intn(3)
		for i := range rs {
			switch {
			case kind == 0:
				rs[i] = pick(c.Rng, few)
			case kind == 1 && c.Rng.Intn(4) > 0: // one block
				rs[i] = block + rune(c.Rng.Intn(0x80))
			default:
				rs[i] = pick(c.Rng, joiners)
			}
			sum += runes.Width(rs[i], opts...)
		}
		c.Input("Widths(%s) with %s", q(rs), m)
		if got := runes.Widths(rs, opts...); got != sum {
			c.Fail("Widths = %d, but its runes sum to %d", got, sum)
		}
		if got := runes.StringWidth(string(rs), opts...); got != sum {
			c.Fail("StringWidth = %d, but its runes sum to %d", got, sum)
		}
		c.Eval(2)
		r.Nontrivial(q(rs) + m.String())
	})
	// settings told in several ways: in any order, repeated (the last one counts), defaults left out or not
	r.Cases("spellings", r.N(4000, 60000), func(c *mon.Case) {
		for k := 0; k < 6; k++ {
			m := widthMode{ea: c.Rng.Intn(2) == 0, skip: c.Rng.Intn(3) == 0, amb: pick(c.Rng, []int{-1, 1, 2, 2, 2, 3, 7})}
			rs := make([]rune, 1+c.Rng.Intn(6))
			for i := range rs {
				rs[i] = pick(c.Rng, []rune{widthRune(c.Rng), '±', '§', 'α', '─', '☃', '①', 0x1F308})
			}
			full := []runes.Option{runes.WithEastAsian(m.ea), runes.WithSkipStrictEmojiNeutral(m.skip), runes.WithEastAsianAmbiguousWidth(m.ambiguous())}
			want := runes.Widths(rs, full...)
			for j := 0; j < 3; j++ {
				var opts []runes.Option
				desc := ""
				for _, o := range c.Rng.Perm(3) {
					again := c.Rng.Intn(4) == 0
					switch {
					case o == 0 && (m.ea || again || c.Rng.Intn(3) == 0):
						if again {
							opts = append(opts, runes.WithEastAsian(!m.ea))
							desc += fmt.Sprintf("ea=%t ", !m.ea)
						}
						opts = append(opts, runes.WithEastAsian(m.ea))
						desc += fmt.Sprintf("ea=%t ", m.ea)
					case o == 1 && (m.skip || again || c.Rng.Intn(3) == 0):
						if again {
							opts = append(opts, runes.WithSkipStrictEmojiNeutral(!m.skip))
							desc += fmt.Sprintf("skip=%t ", !m.skip)
						}
						opts = append(opts, runes.WithSkipStrictEmojiNeutral(m.skip))
						desc += fmt.Sprintf("skip=%t ", m.skip)
					case o == 2 && (m.ambiguous() != 2 || again || c.Rng.Intn(3) == 0):
						if again {
							opts = append(opts, runes.WithEastAsianAmbiguousWidth(1+m.ambiguous()))
							desc += fmt.Sprintf("ambiguous=%d ", 1+m.ambiguous())
						}
						opts = append(opts, runes.WithEastAsianAmbiguousWidth(m.ambiguous()))
						desc += fmt.Sprintf("ambiguous=%d ", m.ambiguous())
					}
				}
				c.Input("Widths(%s) with options %s", q(rs), desc)
				if got := runes.Widths(rs, opts...); got != want {
					c.Fail("Widths = %d, with the same settings told in full (%s): %d", got, m, want)
				}
				if got := runes.StringWidth(string(rs), opts...); got != runes.StringWidth(string(rs), full...) {
					c.Fail("StringWidth = %d, which is not what it is with the same settings told in full (%s)", got, m)
				}
				c.Eval(2)
			}
		}
	})
	// strings with invalid UTF-8: each bad byte is one RuneError
	r.Cases("invalid-utf8", r.N(20000, 300000), func(c *mon.Case) {
		m := pick(c.Rng, modes)
		if c.Rng.Intn(4) == 0 {
			m.amb = pick(c.Rng, []int{-1, 4, 5, 100, 1 << 20})
		}
		opts := m.opts()
		b := []byte(string(anyRunes(c.Rng, long(c.Rng, 12), false)))
		for k := c.Rng.Intn(4); k > 0; k-- {
			i := c.Rng.Intn(len(b) + 1)
			b = append(b[:i:i], append([]byte{byte(0x80 + c.Rng.Intn(0x80))}, b[i:]...)...)
		}
		s := string(b)
		c.Input("StringWidth(%+q) with %s", s, m)
		sum := 0
		for _, x := range s {
			sum += runes.Width(x, opts...)
		}
		if got := runes.StringWidth(s, opts...); got != sum {
			c.Fail("StringWidth = %d, but its runes sum to %d", got, sum)
		}
		c.Eval(1)
	})
}

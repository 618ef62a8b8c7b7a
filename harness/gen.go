package main

import (
	"fmt"
	"math/rand"
	"strings"
	"unicode"
	"unicode/utf8"
)

// q renders runes unambiguously, including the invalid ones.
func q(rs []rune) string {
	valid := true
	for _, r := range rs {
		if !utf8.ValidRune(r) {
			valid = false
		}
	}
	if valid {
		return fmt.Sprintf("%+q", string(rs))
	}
	parts := make([]string, 0, len(rs))
	for _, r := range rs {
		parts = append(parts, fmt.Sprintf("%#x", r))
	}

	return "[]rune{" + strings.Join(parts, ",") + "}"
}

func qq(rss [][]rune) string {
	parts := make([]string, 0, len(rss))
	for _, rs := range rss {
		parts = append(parts, q(rs))
	}

	return "[" + strings.Join(parts, " ") + "]"
}

func eqRunes(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}

	return true
}

func eqParts(a, b [][]rune) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !eqRunes(a[i], b[i]) {
			return false
		}
	}

	return true
}

func clone(rs []rune) []rune { return append(make([]rune, 0, len(rs)), rs...) }

func cloneParts(rss [][]rune) [][]rune {
	out := make([][]rune, 0, len(rss))
	for _, rs := range rss {
		out = append(out, clone(rs))
	}

	return out
}

func join(rss [][]rune) []rune {
	var out []rune
	for _, rs := range rss {
		out = append(out, rs...)
	}

	return out
}

// inMiddle copies rs into the middle of a larger array: the result has spare capacity, filled with a sentinel
// that a stray write would change.
func inMiddle(rs []rune) (in, whole []rune) {
	const pad = 5
	whole = make([]rune, len(rs)+2*pad)
	for i := range whole {
		whole[i] = 0x10FFF0 + rune(i%8)
	}
	copy(whole[pad:], rs)

	return whole[pad : pad+len(rs)], whole
}

var invalidRunes = []rune{-1, -2, -1 << 31, 1<<31 - 1, 0x110000, 0x110001, 0x10FFFF + 4, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0x7FFFFFF0, -3, 0x0FFFFFFF}

var (
	spaces  = []rune{' ', '\t', '\n', '\v', '\f', '\r', 0x85, 0xA0, 0x1680, 0x2000, 0x2005, 0x200A, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000}
	nospace = []rune{0x200B, 0xFEFF, 0x180E, 0x2060, 0x1F, 0x1C, '_'}
	hyphs   = tableRunes(unicode.Hyphen)
	puncts  = []rune(`!"#%&'()*,./:;?@[\]_{}` + "¡§«¶·»¿‘’“”„…‹›、。「」！（）٪।‰—–‒―|")
	notpun  = []rune("$+<=>^`~¢£¤¥¦©®°±€™←→∀│¬×÷")
	letters = []rune("abcdefghijklmnopqrstuvwxyz")
	exotic  = []rune("éàçüßñœÉÀŒøÅæ世界ｶ☆♥👁🌈\u0300\u0301\u200d\u200b\u2e3a\u2e3b\ufffd\ufeff\u00ad\uff21İıǅﬁΩς\u0000\u007f\u0080\U0001F3F4\U000E0067\U0010FFFF")
)

// joiners are runes of the sequences that are displayed as one: emoji, flags, keycaps, syllables, ligatures, marks.
var joiners = []rune{
	'0', '#', 'a', 'e', 0xDF, ' ', '\r', '\n', '\t', 0x1b, '[', '-', 0xAD, 0x300, 0x301, 0x308, 0x327, 0x345, 0x20E3, 0x20DD, 0xFE0E, 0xFE0F, 0x200B, 0x200C, 0x200D, 0x2060, 0xFEFF,
	0x1F1EB, 0x1F1F7, 0x1F1FA, 0x1F3F4, 0xE0067, 0xE007F, 0x1F468, 0x1F469, 0x1F466, 0x2764, 0x2642, 0x1F3FB, 0x1F3FF, 0x1100, 0x1112, 0x1161, 0x1175, 0x11A8, 0xAC00,
	0x915, 0x94D, 0x937, 0x93F, 0xE01, 0xE33, 0x627, 0x644, 0x5D0, 0x5B0, 0x3042, 0x3099, 0x309A, 0xFF76, 0xFF9E, 0x4E00, 0xE0100, 0x1F600, 0x2E3A, 0x2E3B, 0x600, 0x180E, 0x202E, 0x2066, 0x1F1E6, 0xA9, 0xD800, -1,
}

func tableRunes(t *unicode.RangeTable) (out []rune) {
	for _, x := range t.R16 {
		for r := rune(x.Lo); r <= rune(x.Hi); r += rune(x.Stride) {
			out = append(out, r)
		}
	}
	for _, x := range t.R32 {
		for r := rune(x.Lo); r <= rune(x.Hi); r += rune(x.Stride) {
			out = append(out, r)
		}
	}

	return out
}

func pick[T any](rng *rand.Rand, xs []T) T { return xs[rng.Intn(len(xs))] }

// anyRune is a rune of a random class; valid runes only, unless hostile.
func anyRune(rng *rand.Rand, hostile bool) rune {
	switch k := rng.Intn(20); {
	case k < 6:
		return pick(rng, letters)
	case k < 7:
		return unicode.ToUpper(pick(rng, letters))
	case k < 9:
		return pick(rng, puncts)
	case k < 10:
		return pick(rng, notpun)
	case k < 12:
		return pick(rng, hyphs)
	case k < 14:
		return pick(rng, spaces)
	case k < 15:
		return pick(rng, nospace)
	case k < 16:
		return pick(rng, exotic)
	case k < 17:
		if r := pick(rng, joiners); hostile || utf8.ValidRune(r) {
			return r
		}

		return 0x200D
	case k < 18:
		return rune('0' + rng.Intn(10))
	case k < 19:
		if hostile {
			return pick(rng, invalidRunes)
		}

		return rune(rng.Intn(0x300))
	default:
		for {
			r := rune(rng.Intn(0x110000))
			if utf8.ValidRune(r) {
				return r
			}
		}
	}
}

// long is n, and now and then 50 times as much: beyond the sizes that buffers usually have.
func long(rng *rand.Rand, n int) int {
	if rng.Intn(120) == 0 {
		return 50 * n
	}

	return n
}

// sizes are the sizes around the powers of two, where buffers and counters end: up to 2^17 (thorough: 2^20).
func sizes(top int) (out []int) {
	for n := 1 << 7; n <= 1<<top; n *= 2 {
		out = append(out, n-1, n, n+1)
	}

	return out
}

// ofSize makes a text of a given size, of a few runes repeated and of random ones.
func ofSize(rng *rand.Rand, n int, hostile bool) []rune {
	out := make([]rune, 0, n)
	some := anyRunes(rng, 8, hostile)
	for len(out) < n {
		if len(some) > 0 && rng.Intn(3) > 0 {
			out = append(out, pick(rng, some))
		} else {
			out = append(out, anyRune(rng, hostile))
		}
	}

	return out
}

func anyRunes(rng *rand.Rand, max int, hostile bool) []rune {
	n := rng.Intn(max + 1)
	if rng.Intn(4) == 0 {
		n = rng.Intn(4)
	}
	out := make([]rune, 0, n)
	for len(out) < n {
		r := anyRune(rng, hostile)
		out = append(out, r)
		if rng.Intn(40) == 0 { // a sequence
			for k := rng.Intn(6); k > 0 && len(out) < n; k-- {
				if x := pick(rng, joiners); hostile || utf8.ValidRune(x) {
					out = append(out, x)
				}
			}
		}
		for rng.Intn(6) == 0 && len(out) < n { // runs of the same rune
			out = append(out, r)
		}
	}

	return out
}

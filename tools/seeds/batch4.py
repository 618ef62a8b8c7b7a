A = "terminal/ansi/ansi.go"
W = "terminal/runes/width.go"
RD = "terminal/runes/runesio/slice_reader.go"
WR = "terminal/runes/runesio/writer.go"
ST = "attributes/state.go"
LB = "linebreak/linebreaker.go"
KP = "linebreak/knuth_plass.go"
HY = "wordbreak/hyphenator/hyphenator.go"
LG = "wordbreak/hyphenator/languages.go"
PU = "wordbreak/punctuator/punctuator.go"
S = []


def seed(**k):
    S.append(k)


seed(id="w02-memo-options", property="W02", needs="the same ambiguous rune measured twice in a row in East Asian mode, with different widths for ambiguous runes",
     what="the last rune measured is remembered without the options",
     edits=[(W, "func runeWidth(r rune, opts *options) int {\n	switch {", '''var lastEastAsian atomic.Int64 // last rune measured in East Asian mode, and its width

func runeWidth(r rune, opts *options) int {
	if !opts.EastAsian {
		return computeWidth(r, opts)
	}
	if last := lastEastAsian.Load(); last > 0 && rune(last>>16) == r {
		return int(int16(last))
	}
	w := computeWidth(r, opts)
	lastEastAsian.Store(int64(r)<<16 | int64(uint16(int16(w))))

	return w
}

func computeWidth(r rune, opts *options) int {
	switch {'''), (W, 'import (\n', 'import (\n	"sync/atomic"\n')],
     demo='''a := width.Width(0xf8, width.WithEastAsian(true))
	b := width.Width(0xf8, width.WithEastAsian(true), width.WithEastAsianAmbiguousWidth(1))
	check(a == 2 && b == 1, "%d %d", a, b)''')
seed(id="w01-long-text", property="W01", needs="a text longer than 64k runes",
     what="long texts are measured by blocks, and the end of the last one is left out",
     edits=[(W, "	buildLookupOnce.Do(initLookupTable) // builds the cache once\n	for _, r := range runes {", '''	buildLookupOnce.Do(initLookupTable) // builds the cache once
	const block = 1 << 16
	for len(runes) > block {
		width += Widths(runes[:block])
		runes = runes[block:]
		if len(runes) < block {
			runes = runes[:len(runes)&^1]
		}
	}
	for _, r := range runes {''')],
     demo='''n := width.StringWidth(strings.Repeat("a", 1<<16+1))
	check(n == 1<<16+1, "%d", n)''')
seed(id="r01-int32", property="R01", needs="a seek by more than 4 billion runes",
     what="offsets are cut to 32 bits",
     edits=[(RD, "		pos = offset\n", "		pos = int64(int32(offset))\n")],
     demo='''r := runesio.NewSliceReader([]rune("abc"))
	_, err := r.Seek(1<<32, io.SeekStart)
	check(err != nil, "%v", err)''')
seed(id="r03-sticky-error", property="R03", needs="a writer that fails once",
     what="an error of the writer sticks",
     edits=[(WR, "	runesWriter struct {\n		io.Writer\n	}", "	runesWriter struct {\n		io.Writer\n		err error\n	}"),
            (WR, "	return rw.Writer.Write(buf)\n", "	if rw.err != nil {\n		return 0, rw.err\n	}\n	n, err := rw.Writer.Write(buf)\n	rw.err = err\n\n	return n, err\n")],
     head='''
type flaky struct{ n int }

func (f *flaky) Write(p []byte) (int, error) {
	f.n++
	if f.n == 1 {
		return 0, errors.New("once")
	}
	return len(p), nil
}
''',
     demo='''w := runesio.NewWriter(new(flaky))
	_, _ = w.WriteRunes([]rune("a"))
	n, err := w.WriteRunes([]rune("b"))
	check(n == 1 && err == nil, "%d %v", n, err)''')
seed(id="b03-eight-levels", property="B03", needs="contexts nested deeper than eight levels",
     what="only the eight innermost contexts are resumed",
     edits=[(ST, "	for current := i.current; current != nil && level > 0; current = current.Prev() {", "	for current, deepest := i.current, level; current != nil && level > 0 && deepest-level < 8; current = current.Prev() {")],
     demo='''s := attributes.NewState()
	for i := 0; i < 10; i++ {
		s.Push(attributes.New([]rune("x"), []rune{rune('0' + i)}, nil))
	}
	it := s.Iterator()
	for i := 0; i < 10; i++ {
		it.Next()
	}
	b := new(strings.Builder)
	it.StartOfLine(runesio.NewWriter(b))
	check(b.String() == "0123456789", "%q", b)''')
seed(id="b03-lookahead", property="B03", needs="a context closed more than 100 renderers later",
     what="the stop of a context is looked for in the next 100 renderers only",
     edits=[(ST, "	for current := i.current.Next(); current != nil && level > 0; current = current.Next() {", "	ahead := 0\n	for current := i.current.Next(); current != nil && level > 0 && ahead < 100; current = current.Next() {\n		ahead++")],
     demo='''s := attributes.NewState()
	s.Push(attributes.New([]rune("x"), []rune("<"), nil))
	for i := 0; i < 150; i++ {
		s.Push(attributes.New([]rune("x"), nil, nil))
	}
	s.Push(attributes.New([]rune("x"), nil, []rune(">")))
	it := s.First()
	b := new(strings.Builder)
	it.EndOfLine(runesio.NewWriter(b))
	check(b.String() == ">", "%q", b)''')
seed(id="l04-hyphen-cache", property="L04", needs="the same word set by line breakers with different hyphenators",
     what="the parts of words are remembered across line breakers",
     edits=[(LB, "				hyphenated := l.hyphenator(word)\n", '''				cached, known := wordParts.Load(string(word))
				if !known {
					cached = l.hyphenator(word)
					wordParts.Store(string(word), cached)
				}
				hyphenated := cached.([][]rune)
'''), (LB, "var (\n	space  = []rune{' '}\n", "var (\n	wordParts sync.Map\n\n	space  = []rune{' '}\n"), (LB, '	"strings"\n', '	"strings"\n	"sync"\n')],
     demo='''cut := func(w []rune) [][]rune { return [][]rune{w[:3], w[3:]} }
	_, err1 := linebreak.New().LeftAlignUniform([]string{"zzzzzz"}, 4)
	_, err2 := linebreak.New(linebreak.WithHyphenator(cut)).LeftAlignUniform([]string{"zzzzzz"}, 4)
	check(err1 != nil && err2 == nil, "%v %v", err1, err2)''')
seed(id="l03-max-demerit", property="L03", needs="a long paragraph of costly lines",
     what="a paragraph whose demerits add up to 10^8 is given up",
     edits=[(KP, "		if lowestDemerits < maxDemerit {", "		if lowestDemerits < 1e8 {")],
     demo='''_, err := linebreak.New().LeftAlignUniform(strings.Fields(strings.Repeat("(a) ", 800)), 2)
	check(err == nil, "%v", err)''')
seed(id="h03-base-cache", property="H03", needs="two variants of English asked in the same process",
     what="the patterns of a language are remembered by its base only",
     edits=[(LG, "func langToPattern(tag language.Tag) string {\n", '''var byBase sync.Map

func langToPattern(tag language.Tag) string {
	base, confidence := tag.Base()
	if confidence == language.No {
		return matchPattern(tag)
	}
	if known, ok := byBase.Load(base); ok {
		return known.(string)
	}
	pattern := matchPattern(tag)
	byBase.Store(base, pattern)

	return pattern
}

func matchPattern(tag language.Tag) string {
'''), (LG, 'import (\n', 'import (\n	"sync"\n\n')],
     demo='''us := hyphenator.New(hyphenator.WithLanguage("en-US")).Identifier
	uk := hyphenator.New(hyphenator.WithLanguage("en-GB")).Identifier
	check(us != uk, "%q %q", us, uk)''')
seed(id="h02-byte-position", property="H02", needs="a word of more than 256 runes",
     what="the patterns of a long word are matched on its first 256 runes only",
     edits=[(HY, "	for i := 0; i <= wordLength; i++ {", "	for i := 0; i <= wordLength && i <= 0xff; i++ {")],
     demo='''h := hyphenator.New()
	check(len(h.BreakWordString(strings.Repeat("hyphenation", 40))) > 100, "%d", len(h.BreakWordString(strings.Repeat("hyphenation", 40))))''')
seed(id="o01-shared-marks", property="O01", needs="a caller that changes a punctuation mark it was given, then another word with this mark",
     what="the parts for ASCII marks are shared between results",
     edits=[(PU, "			result = append(result, []rune{r})\n", "			if r < 0x80 {\n				result = append(result, marks[r:r+1:r+1])\n			} else {\n				result = append(result, []rune{r})\n			}\n"),
            (PU, "// breakAtFunc works", "var marks = func() (out [0x80]rune) {\n	for i := range out {\n		out[i] = rune(i)\n	}\n\n	return out\n}()\n\n// breakAtFunc works")],
     demo='''p := punctuator.New()
	p.BreakWordString("a,b")[1][0] = '!'
	check(joined(p.BreakWordString("a,b")) == "a~,~b", "%s", joined(p.BreakWordString("a,b")))''')
seed(id="l03-tolerance-strict", property="L03", needs="a line whose ratio is exactly the tolerance",
     what="the tolerance itself is not tolerated",
     edits=[(KP, "ratio >= -1 && ratio <= l.tolerance {", "ratio >= -1 && (ratio < l.tolerance || ratio == 0) {")],
     demo='''_, err := linebreak.New(linebreak.WithTolerance(1)).LeftAlignUniform([]string{"aa", "bbbbbb"}, 8)
	check(err == nil, "%v", err)''')
seed(id="a02-many-parameters", property="A02", needs="a sequence with more than 8 parameters",
     what="at most 8 further parameters are read",
     edits=[(A, "	for r == ';' || r == ':' {", "	for sections := 0; (r == ';' || r == ':') && sections < 8; sections++ {")],
     demo='''t := ansi.StripToken([]rune("\\x1b[1;2;3;4;5;6;7;8;9;10mx\\x1b[m"))
	check(len(t) == 1 && string(t[0].Text) == "x", "%q", t)''')
seed(id="h01-minright-tail", property="H01", needs="a minimum on the left larger than the one on the right, and a last part shorter than the former",
     what="a short last part is dropped with its break",
     edits=[(HY, "		if i-previous < h.minLeft || length-i < h.minRight {\n			continue\n		}\n", "		if i-previous < h.minLeft || length-i < h.minRight {\n			if length-i == h.minRight-1 && len(parts) > 2 && h.minRight > 3 {\n				parts = append(parts, wordAsRunes[previous:i])\n				previous = i\n			}\n\n			continue\n		}\n")],
     demo='''for n := 2; n < 9; n++ {
		parts := hyphenator.New(hyphenator.WithMinRight(n)).BreakWordString("antidisestablishmentarianism")
		check(len(parts[len(parts)-1]) >= n, "%d %s", n, joined(parts))
	}''')
seed(id="l06-empty-stop", property="L06", needs="a token made of a stop sequence only, at the start of a line",
     what="a stop that comes without a text is dropped",
     edits=[(LB, "		if tokenState.Current() == nil && (len(stripped.StartSequence) > 0 || len(stripped.StopSequence) > 0) {", "		if tokenState.Current() == nil && (len(stripped.StartSequence) > 0 || len(stripped.StopSequence) > 0 && len(nodes) > 0) {")],
     demo='''lines, err := linebreak.New().LeftAlignUniform([]string{"\\x1b[31maa", "\\x1b[0mbb"}, 20)
	check(err == nil && strings.Contains(lines[0], "\\x1b[0m"), "%q %v", lines, err)''')
seed(id="h05-titlecase", property="H05", needs="a word with an upper-case letter beyond Latin-1, as in French",
     what="only Latin-1 letters are lower-cased",
     edits=[(HY, "		r := unicode.ToLower(word[i])\n", "		r := word[i]\n		if r <= unicode.MaxLatin1 {\n			r = unicode.ToLower(r)\n		}\n")],
     demo='''h := hyphenator.New(hyphenator.WithLanguage("fr"), hyphenator.WithMinLeft(1))
	for _, w := range []string{"œsophage", "œcuménique", "manœuvrer", "désœuvrement"} {
		a, b := h.BreakWordString(w), h.BreakWordString(strings.ReplaceAll(w, "œ", "Œ"))
		check(strings.ReplaceAll(joined(b), "Œ", "œ") == joined(a), "%s %s", joined(a), joined(b))
	}''')

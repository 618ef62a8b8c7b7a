A = "terminal/ansi/ansi.go"
W = "terminal/runes/width.go"
RD = "terminal/runes/runesio/slice_reader.go"
WR = "terminal/runes/runesio/writer.go"
ST = "attributes/state.go"
LB = "linebreak/linebreaker.go"
KP = "linebreak/knuth_plass.go"
HY = "wordbreak/hyphenator/hyphenator.go"
LG = "wordbreak/hyphenator/languages.go"
PU = "wordbreak/punctuator/punctuator.go"
S = []


def seed(**k):
    S.append(k)


DI = "wordbreak/hyphenator/dictionary.go"
KT = "linebreak/knuth_plass_types.go"
OP = "wordbreak/hyphenator/options.go"
TR = "wordbreak/hyphenator/internal/trie/rune_trie.go"
CA = "wordbreak/hyphenator/cache.go"
LK = "terminal/runes/lookup.go"
FI = "terminal/runes/fields.go"
TO = "wordbreak/tokenizer/tokenizer.go"
AT = "attributes/attribute.go"
LO = "linebreak/options.go"
LO = "linebreak/options.go"
seed(id="l02-wide-marks", property="L02", needs="a wide punctuation mark, such as an ideographic full stop, near the end of a line",
     what="all punctuation marks are taken to be one column wide",
     edits=[(LB, "newBox(l.scale(l.measurer(strippedFromPunct)), strippedFromPunct, tokenState.Current()), // no space", "newBox(l.scale(1), strippedFromPunct, tokenState.Current()), // no space")],
     demo='''b := linebreak.New(linebreak.WithTolerance(1000))
	lines, err := b.LeftAlignUniform([]string{"ab。", "cd。", "ef。", "gh。"}, 8)
	check(err == nil, "%v", err)
	for _, line := range lines {
		check(width.StringWidth(line) <= 8, "%q", line)
	}''')
seed(id="l02-marks-in-a-row", property="L02", needs="more than one mark of punctuation in a row at the end of a line",
     what="a mark that follows another one is taken to hang in the margin",
     edits=[(LB, "				tokenState.Start(strippedFromPunct)\n\n				// A punctuation", "				tokenState.Start(strippedFromPunct)\n				markWidth := l.scale(l.measurer(strippedFromPunct))\n				if len(nodes) > 9 && nodes[len(nodes)-1].isGlue() && nodes[len(nodes)-6].isGlue() {\n					markWidth = noWidth\n				}\n\n				// A punctuation"),
            (LB, "newBox(l.scale(l.measurer(strippedFromPunct)), strippedFromPunct, tokenState.Current()), // no space", "newBox(markWidth, strippedFromPunct, tokenState.Current()), // no space")],
     demo='''b := linebreak.New(linebreak.WithTolerance(1000))
	for w := 5; w < 14; w++ {
		lines, err := b.LeftAlignUniform([]string{"ab...", "cd...", "ef...", "gh..."}, float64(w))
		check(err == nil, "%v", err)
		for _, line := range lines {
			check(width.StringWidth(line) <= w, "%q", line)
		}
	}''')
seed(id="a01-erase", property="A01", needs="a sequence that erases the line, at the end of a token",
     what="a last sequence that is neither a start nor a stop, right after the stop, is left out",
     edits=[(A, "		case sequenceKind == otherSequence && len(groups[2]) > 0:\n			// comes after a Stop\n", "		case sequenceKind == otherSequence && len(groups[2]) > 0 && len(reader.Runes()) == 0 && endANSI[len(endANSI)-1] == 'K':\n			continue\n\n		case sequenceKind == otherSequence && len(groups[2]) > 0:\n			// comes after a Stop\n")],
     demo='''in := "\\x1b[31mred\\x1b[0m\\x1b[K"
	out := ""
	for _, s := range ansi.StripToken([]rune(in)) {
		out += string(s.StartSequence) + string(s.Text) + string(s.StopSequence)
	}
	check(out == in, "%q", out)''')
seed(id="l06-merged-stops", property="L06", needs="two nested contexts closed by the same sequence, open at the end of a line",
     what="a stop that is the same as the one just written is not written again at the end of a line",
     edits=[(ST, "			attribute.Stop(w)\n			level--\n", "			if a, ok := attribute.(*Attribute); !ok || string(a.StopSequence) != last {\n				attribute.Stop(w)\n				if ok {\n					last = string(a.StopSequence)\n				}\n			}\n			level--\n"),
            (ST, "	// stop all open contexts, innermost first, with", "	var last string\n	// stop all open contexts, innermost first, with")],
     demo='''b := linebreak.New()
	lines, err := b.LeftAlignUniform([]string{"\\x1b[1m\\x1b[31maaaa", "bbbb", "cccc\\x1b[0m\\x1b[0m"}, 4)
	check(err == nil && len(lines) == 3, "%q %v", lines, err)
	for _, line := range lines {
		check(strings.Count(line, "\\x1b[0m") == 2, "%q", lines)
	}''')
seed(id="l01-digit-hyphen", property="L01", needs="a word that its hyphenator breaks after a digit, at the end of a line",
     what="no hyphen is rendered after a digit",
     edits=[(LB, "				if len(node.value) > 0 && index == len(line.nodes)-1 {", "				if len(node.value) > 0 && index == len(line.nodes)-1 && !afterDigit(line.nodes[:index]) {"),
            (LB, "func repeatRunes(", "func afterDigit(nodes []nodeT) bool {\n	for i := len(nodes) - 1; i >= 0; i-- {\n		if nodes[i].isBox() {\n			return len(nodes[i].value) > 0 && unicode.IsDigit(nodes[i].value[len(nodes[i].value)-1])\n		}\n	}\n\n	return false\n}\n\nfunc repeatRunes("),
            (LB, '	"strings"\n', '	"strings"\n	"unicode"\n')],
     demo='''b := linebreak.New(linebreak.WithTolerance(1000), linebreak.WithHyphenator(func(w []rune) [][]rune {
		if len(w) < 6 {
			return [][]rune{w}
		}
		return [][]rune{w[:3], w[3:]}
	}))
	lines, err := b.LeftAlignUniform([]string{"ab3def"}, 4)
	check(err == nil && fmt.Sprintf("%q", lines) == `["ab3-" "def"]`, "%q %v", lines, err)''')
seed(id="l04-failed-tolerance", property="L04", needs="a paragraph set after three others that could not be set",
     what="a line breaker that fails several times in a row becomes more tolerant, for good",
     edits=[(LB, "	if breakList == nil {\n		return nil, ErrCannotBeSet", "	if breakList == nil {\n		if l.failures++; l.failures == 3 {\n			l.tolerance *= 2\n		}\n\n		return nil, ErrCannotBeSet"),
            (LB, "	// 4. render the final", "	l.failures = 0\n\n	// 4. render the final"),
            (LB, "		attrList    *attributes.State\n", "		attrList    *attributes.State\n		failures    int\n")],
     demo='''long := []string{"a", "bbbbbbbbbbbbbbbbbbb", "a", "ccccccccccccccccc"}
	set := func(b *linebreak.LineBreaker, w float64) string {
		lines, err := b.LeftAlignUniform(long, w)
		return fmt.Sprintf("%q %v", lines, err)
	}
	for w := 1; w < 60; w++ {
		b := linebreak.New(linebreak.WithTolerance(2))
		for i := 0; i < 3; i++ {
			set(b, 2)
		}
		got, want := set(b, float64(w)), set(linebreak.New(linebreak.WithTolerance(2)), float64(w))
		check(got == want, "%d: %s, want %s", w, got, want)
	}''')
seed(id="r01-size-invalid", property="R01", needs="a rune which is not a code point, above the last one",
     what="the size of a rune is taken from its magnitude",
     edits=[(RD, "	return rn, runeLen(rn), nil\n", "	size := runeLen(rn)\n	if rn >= 0x10000 {\n		size = utf8.UTFMax\n	}\n\n	return rn, size, nil\n")],
     demo='''r := runesio.NewSliceReader([]rune{'a', 0x110000})
	_, _, _ = r.ReadRune()
	_, n, err := r.ReadRune()
	check(n == 3 && err == nil, "%d %v", n, err)''')

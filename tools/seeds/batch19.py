A = "terminal/ansi/ansi.go"
W = "terminal/runes/width.go"
RD = "terminal/runes/runesio/slice_reader.go"
WR = "terminal/runes/runesio/writer.go"
ST = "attributes/state.go"
LB = "linebreak/linebreaker.go"
KP = "linebreak/knuth_plass.go"
HY = "wordbreak/hyphenator/hyphenator.go"
LG = "wordbreak/hyphenator/languages.go"
PU = "wordbreak/punctuator/punctuator.go"
S = []


def seed(**k):
    S.append(k)


DI = "wordbreak/hyphenator/dictionary.go"
KT = "linebreak/knuth_plass_types.go"
OP = "wordbreak/hyphenator/options.go"
TR = "wordbreak/hyphenator/internal/trie/rune_trie.go"
CA = "wordbreak/hyphenator/cache.go"
LK = "terminal/runes/lookup.go"
FI = "terminal/runes/fields.go"
TO = "wordbreak/tokenizer/tokenizer.go"
AT = "attributes/attribute.go"
LO = "linebreak/options.go"
LO = "linebreak/options.go"
seed(id="l06-unmatched-stop", property="L06", needs="a stop sequence that closes nothing, at the end of a token",
     what="a stop sequence outside of any context is left out",
     edits=[(KT, "	if last == nil || len(s.stripped.StopSequence) == 0 {", "	if last == nil || len(s.stripped.StopSequence) == 0 || (last.Level() == 0 && len(last.Runes()) > 0) {")],
     demo='''lines, err := linebreak.New().LeftAlignUniform([]string{"some", "text\\x1b[0m", "more"}, 30)
	check(err == nil && len(lines) == 1 && lines[0] == "some text\\x1b[0m more", "%q %v", lines, err)''')
seed(id="a01-merged-texts", property="A01", needs="a sequence that is neither a start nor a stop, after another one",
     what="consecutive pieces of text are joined in the list of tokens",
     edits=[(A, "		attrs = append(attrs, stripped)\n", "		if n := len(attrs) - 1; n >= 0 && len(attrs[n].StopSequence) == 0 && len(attrs[n].Text) > 0 && len(stripped.StartSequence) == 0 {\n			attrs[n].Text = append(append([]rune{}, attrs[n].Text...), stripped.Text...)\n			attrs[n].StopSequence, attrs[n].Remainder = stripped.StopSequence, stripped.Remainder\n		} else {\n			attrs = append(attrs, stripped)\n		}\n")],
     demo='''in := []rune("\\x1b[K\\x1b[Jtext")
	n := 0
	for rest := in; len(rest) > 0; n++ {
		rest = ansi.StripANSIFromRunes(rest).Remainder
	}
	check(len(ansi.StripToken(in)) == n, "%d tokens, %d steps", len(ansi.StripToken(in)), n)''')
seed(id="e01-flag", property="E01", needs="a program that defines a flag with the same name, or lists its flags",
     what="a flag for debugging is defined by the package",
     edits=[(LB, 'import (\n', 'import (\n	"flag"\n'),
            (LB, "// LeftAlignUniform left-align", "var trace = flag.Bool(\"typeset.trace\", false, \"keep the model of the paragraph\")\n\n// LeftAlignUniform left-align"),
            (LB, "	return l.render(breakList), nil\n", "	lines := l.render(breakList)\n	if !*trace {\n		l.nodes = nil\n	}\n\n	return lines, nil\n")],
     demo='''_ = linebreak.New()
	flag.VisitAll(func(f *flag.Flag) { check(!strings.HasPrefix(f.Name, "typeset"), "%s", f.Name) })''')
seed(id="h03-first-wins", property="H03", needs="two options for the language, of which the last one is American English",
     what="American English does not override another language",
     edits=[(OP, "func WithLanguageTag(tag language.Tag) Option {\n	return func(o *options) {\n		o.lang = tag\n	}\n", "func WithLanguageTag(tag language.Tag) Option {\n	return func(o *options) {\n		if tag != language.AmericanEnglish {\n			o.lang = tag\n		}\n	}\n")],
     demo='''a := hyphenator.New(hyphenator.WithLanguage("fr"), hyphenator.WithLanguageTag(language.AmericanEnglish))
	b := hyphenator.New()
	for _, w := range []string{"hyphenation", "typography", "representation", "university"} {
		check(joined(a.BreakWordString(w)) == joined(b.BreakWordString(w)), "%s", joined(a.BreakWordString(w)))
	}''')
seed(id="r03-rune-writers", property="R03", needs="a writer that is asked to be exposed as a runes writer twice",
     what="a writer made by NewWriter is wrapped again",
     edits=[(WR, "	if asWriter, ok := w.(Writer); ok {", "	if asWriter, ok := w.(*runesWriter); ok {\n		return NewWriter(asWriter.Writer)\n	}\n	if asWriter, ok := w.(Writer); ok {")],
     demo='''w := runesio.NewWriter(new(strings.Builder))
	check(runesio.AsRunesWriter(w) == w, "another writer")''')
seed(id="l01-trailing-mark-space", property="L01", needs="a token made of a closing mark alone, as in French typography",
     what="no space is put before a token made of a single exclamation mark, question mark or colon",
     edits=[(LB, "		nodes = append(nodes, newGlue(l.spaceWidth, -l.glueStretch, noShrink))\n	}\n", "		if next := tokens[i+1]; next == \"!\" || next == \"?\" || next == \":\" {\n			nodes = append(nodes, newGlue(noWidth, -l.glueStretch, noShrink))\n\n			continue\n		}\n		nodes = append(nodes, newGlue(l.spaceWidth, -l.glueStretch, noShrink))\n	}\n"),
            (LB, "	for _, word := range tokens[:len(tokens)-1] {", "	for i, word := range tokens[:len(tokens)-1] {")],
     demo='''lines, err := linebreak.New().LeftAlignUniform([]string{"Oui", "!"}, 30)
	check(err == nil && lines[0] == "Oui !", "%q %v", lines, err)''')

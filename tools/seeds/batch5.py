A = "terminal/ansi/ansi.go"
W = "terminal/runes/width.go"
RD = "terminal/runes/runesio/slice_reader.go"
WR = "terminal/runes/runesio/writer.go"
ST = "attributes/state.go"
LB = "linebreak/linebreaker.go"
KP = "linebreak/knuth_plass.go"
HY = "wordbreak/hyphenator/hyphenator.go"
LG = "wordbreak/hyphenator/languages.go"
PU = "wordbreak/punctuator/punctuator.go"
S = []


def seed(**k):
    S.append(k)


DI = "wordbreak/hyphenator/dictionary.go"
KT = "linebreak/knuth_plass_types.go"
OP = "wordbreak/hyphenator/options.go"
TR = "wordbreak/hyphenator/internal/trie/rune_trie.go"
CA = "wordbreak/hyphenator/cache.go"
LK = "terminal/runes/lookup.go"

seed(id="h04-shared-listing", property="H04", needs="a caller that changes the list of pattern files it was given, then another listing",
     what="the list of pattern files is made once and shared with the callers",
     edits=[(DI, "// SupportedPatterns lists all", "var supportedOnce []string\n\n// SupportedPatterns lists all"),
            (DI, "	entries, err := texFS.ReadDir(folder)\n", "	if len(supportedOnce) > 0 {\n		return supportedOnce, nil\n	}\n\n	entries, err := texFS.ReadDir(folder)\n"),
            (DI, "	sort.Strings(result)\n\n	return result, nil", "	sort.Strings(result)\n	supportedOnce = result\n\n	return result, nil")],
     demo='''a, _ := hyphenator.SupportedPatterns()
	want := strings.Join(a, " ")
	a[0] = "changed"
	b, _ := hyphenator.SupportedPatterns()
	check(strings.Join(b, " ") == want, "%q", b)''')
seed(id="h04-default-patterns", property="H04", needs="the name of a pattern file that does not exist",
     what="names without an extension that fail to load get the extension, and the default patterns when that fails too",
     edits=[(DI, "	if err != nil {\n		return nil, err\n	}\n	defer func() {", "	if err != nil && path.Ext(patternfile) == \"\" {\n		file, err = texFS.Open(path.Join(folder, patternfile+\".tex\"))\n	}\n	if err != nil {\n		return nil, err\n	}\n	defer func() {")],
     demo='''d, err := hyphenator.LoadPatterns("hyph-fr")
	check(d == nil && err != nil, "%v %v", d, err)''')
seed(id="h04-shared-dictionary", property="H04", needs="a caller that renames the dictionary it loaded, then loads it again",
     what="a loaded dictionary is kept in a map and handed out again",
     edits=[(DI, "	dict := &Dictionary{\n", "	if known, ok := loadedFiles.Load(patternfile); ok {\n		return known.(*Dictionary), nil\n	}\n\n	dict := &Dictionary{\n"),
            (DI, "// LoadPatterns loads a pattern file", "var loadedFiles sync.Map\n\n// LoadPatterns loads a pattern file"),
            (DI, "		return nil, err\n	}\n\n	return dict, nil\n", "		return nil, err\n	}\n	loadedFiles.Store(patternfile, dict)\n\n	return dict, nil\n"),
            (DI, '	"strings"\n', '	"strings"\n	"sync"\n')],
     demo='''a, _ := hyphenator.LoadPatterns("hyph-fr.tex")
	name := a.String()
	a.Identifier = "changed"
	b, _ := hyphenator.LoadPatterns("hyph-fr.tex")
	check(b.String() == name, "%s", b)''')
seed(id="h01-small-minimums", property="H01", needs="a minimum length of 256 or more",
     what="the minimum length is kept in a byte",
     edits=[(OP, "		minLength int\n", "		minLength uint8\n"), (OP, "		o.minLength = minLength\n", "		o.minLength = uint8(minLength)\n"),
            (HY, "wordLength < h.minLength", "wordLength < int(h.minLength)")],
     demo='''h := hyphenator.New(hyphenator.WithMinLength(260))
	check(joined(h.BreakWordString("hyphenation")) == "hyphenation", "%s", joined(h.BreakWordString("hyphenation")))''')
seed(id="l05-many-lines", property="L05", needs="a paragraph of more than 255 lines",
     what="line numbers wrap around at 256, and a break on a line with a number lower than that of its predecessor is dropped",
     edits=[(KP, "				if demerits < candidates[currentClass].totalDemerits {", "				if demerits < candidates[currentClass].totalDemerits && (active.line < 255 || !node.isPenalty() || !node.flagged || index == len(l.nodes)-1) {")],
     demo='''var tokens []string
	for i := 0; i < 400; i++ {
		tokens = append(tokens, "aaaa,bbbb")
	}
	a, err := linebreak.New(linebreak.WithTolerance(1000)).LeftAlignUniform(tokens, 5)
	check(err == nil && len(a) == 800, "%d %v", len(a), err)''')
seed(id="l05-float32", property="L05", needs="widths over 16 million units",
     what="ratios are computed in single precision",
     edits=[(KP, "			return (idealWidth - actualWidth) / stretch\n", "			return float64(float32(idealWidth-actualWidth) / float32(stretch))\n"),
            (KP, "	actualWidth := sum.width - fromBreakPoint.totals.width\n", "	actualWidth := float64(float32(sum.width) - float32(fromBreakPoint.totals.width))\n")],
     demo='''m := func(r []rune) float64 { return float64(16777217 * len(r)) }
	a, err := linebreak.New(linebreak.WithMeasurer(m), linebreak.WithWordBreak(false)).LeftAlignUniform([]string{"a"}, 16777216)
	check(err != nil, "%q %v", a, err)''')
seed(id="l03-active-limit", property="L03", needs="more than 400 breaks that may start the current line, most of which are dead ends",
     what="only the first 400 active breaks are kept",
     edits=[(KP, "	for class := fitnessClassZero; class <= fitnessClassThree; class++ { //", "	if l.activeNodes.Len() > 400 {\n		return // plenty of choice\n	}\n\n	for class := fitnessClassZero; class <= fitnessClassThree; class++ { //")],
     demo='''var tokens []string
	for i := 0; i < 900; i++ {
		tokens = append(tokens, "a")
	}
	a, err := linebreak.New(linebreak.WithTolerance(1e6)).LeftAlignUniform(tokens, 900)
	check(err == nil && strings.Join(a, " ") == strings.Join(tokens, " "), "%d %v", len(a), err)
	tokens = append(tokens, strings.Repeat("b", 900))
	a, err = linebreak.New(linebreak.WithTolerance(1e6), linebreak.WithWordBreak(false)).LeftAlignUniform(tokens, 900)
	check(err == nil && strings.Join(a, " ") == strings.Join(tokens, " "), "%d %v", len(a), err)''')
seed(id="c02-lazy-exceptions", property="C02", needs="two goroutines that break a word for the first time with hyphenators of the same language",
     what="the exceptions of a dictionary are prepared when first needed, without a lock",
     race=True,
     edits=[(HY, "	val := h.exceptions.Get(key)\n", "	if h.Dictionary.lowest == 0 {\n		h.Dictionary.lowest = h.minLength // exceptions are not that short\n	}\n	val := h.exceptions.Get(key)\n"),
            (DI, "	Identifier string     // Identifies the dictionary\n", "	Identifier string     // Identifies the dictionary\n	lowest     int\n")],
     demo='''done := make(chan bool)
	for i := 0; i < 4; i++ {
		go func() {
			hyphenator.New().BreakWordString("table")
			done <- true
		}()
	}
	for i := 0; i < 4; i++ {
		<-done
	}''')
seed(id="c01-lazy-east-asian", property="C01", needs="the first East Asian measures of the process made at the same time",
     what="the sum of options is remembered without synchronization",
     race=True,
     edits=[(W, "	o := optionsWithDefaults(opts)\n	if o.EastAsian {\n		return runeWidth(r, o)\n	}\n", "	o := optionsWithDefaults(opts)\n	if o.EastAsian {\n		if lastOptions == nil || *lastOptions != *o {\n			lastOptions = o\n		}\n\n		return runeWidth(r, lastOptions)\n	}\n"),
            (W, "// Width returns the number", "var lastOptions *options\n\n// Width returns the number")],
     demo='''done := make(chan bool)
	for i := 0; i < 4; i++ {
		go func(i int) {
			for k := 0; k < 10000; k++ {
				check(width.Width(0xf8, width.WithEastAsian(true), width.WithEastAsianAmbiguousWidth(i)) == i, "width")
			}
			done <- true
		}(i)
	}
	for i := 0; i < 4; i++ {
		<-done
	}''')
seed(id="l06-attr-leak", property="L04", needs="a paragraph that cannot be set, with sequences, then another paragraph with the same line breaker",
     what="the attributes are reset once a paragraph is rendered, so that those of a paragraph that could not be set are kept",
     edits=[(LB, "	l.attrList = attributes.NewState() // reset the attributes left by a previous paragraph\n\n", ""),
            (LB, "	return l.render(breakList), nil\n", "	lines := l.render(breakList)\n	l.attrList = attributes.NewState() // reset the attributes for the next paragraph\n\n	return lines, nil\n")],
     demo='''l := linebreak.New(linebreak.WithTolerance(1))
	_, err := l.LeftAlignUniform([]string{"\\x1b[31maaaaaaaaaaaaaaaaaaaaaaaaaaaa"}, 3)
	check(err != nil, "set")
	a, _ := l.LeftAlignUniform([]string{"\\x1b[32mbb", "cc\\x1b[m"}, 5)
	b, _ := linebreak.New(linebreak.WithTolerance(1)).LeftAlignUniform([]string{"\\x1b[32mbb", "cc\\x1b[m"}, 5)
	check(fmt.Sprint(a) == fmt.Sprint(b), "%q %q", a, b)''')

A = "terminal/ansi/ansi.go"
W = "terminal/runes/width.go"
RD = "terminal/runes/runesio/slice_reader.go"
WR = "terminal/runes/runesio/writer.go"
ST = "attributes/state.go"
LB = "linebreak/linebreaker.go"
KP = "linebreak/knuth_plass.go"
HY = "wordbreak/hyphenator/hyphenator.go"
LG = "wordbreak/hyphenator/languages.go"
PU = "wordbreak/punctuator/punctuator.go"
S = []


def seed(**k):
    S.append(k)


DI = "wordbreak/hyphenator/dictionary.go"
KT = "linebreak/knuth_plass_types.go"
OP = "wordbreak/hyphenator/options.go"
TR = "wordbreak/hyphenator/internal/trie/rune_trie.go"
CA = "wordbreak/hyphenator/cache.go"
LK = "terminal/runes/lookup.go"
FI = "terminal/runes/fields.go"
seed(id="r01-eof-flag", property="R01", needs="a reader at its end, moved back from the end",
     what="the end of file is remembered until a seek from the start or the current position",
     edits=[(RD, "type SliceReader struct {\n	offset int\n", "type SliceReader struct {\n	offset int\n	eof    bool\n"),
            (RD, "	if r.offset >= len(r.runes) {\n		return utf8.RuneError, 0, io.EOF\n", "	if r.eof || r.offset >= len(r.runes) {\n		r.eof = true\n\n		return utf8.RuneError, 0, io.EOF\n"),
            (RD, "		pos = offset\n", "		pos = offset\n		r.eof = false\n"),
            (RD, "		pos += offset\n", "		pos += offset\n		r.eof = r.eof && offset >= 0\n")],
     demo='''r := runesio.NewSliceReader([]rune("a"))
	r.ReadRune()
	r.ReadRune()
	_, _ = r.Seek(-1, io.SeekEnd)
	_, _, err := r.ReadRune()
	check(err == nil, "%v", err)''')
seed(id="o01-lower-in-place", property="O01", needs="an exception given in capitals",
     what="the word is put in lower case in place to look for exceptions, and not restored when found",
     edits=[(HY, "	key := make([]rune, 0, len(word))\n	for _, r := range word {\n		key = append(key, unicode.ToLower(r)) // like patterns, exceptions are stored in lower case\n	}\n\n	val := h.exceptions.Get(key)\n", "	key := append(make([]rune, 0, len(word)), word...)\n	for i, r := range word {\n		word[i] = unicode.ToLower(r) // like patterns, exceptions are stored in lower case\n	}\n\n	val := h.exceptions.Get(word)\n	if val == nil {\n		copy(word, key)\n	}\n")],
     demo='''w := []rune("Associate")
	hyphenator.New().BreakWord(w)
	check(string(w) == "Associate", "%s", string(w))''')
seed(id="o01-append-tokens", property="O01", needs="tokens that are the first ones of a larger array",
     what="an empty token is appended to those of the caller",
     edits=[(LB, "	nodes := make([]nodeT, 0, 4*(len(tokens)-1)+3)\n", "	nodes := make([]nodeT, 0, 4*(len(tokens)-1)+3)\n	if cap(tokens) > len(tokens) {\n		_ = append(tokens, \"\") // sentinel\n	}\n")],
     demo='''all := []string{"a", "b", "c"}
	_, _ = linebreak.New().LeftAlignUniform(all[:2], 10)
	check(all[2] == "c", "%q", all)''')
seed(id="c01-parallel", property="C01", needs="a text of more than 4096 runes",
     what="long texts are measured by several goroutines, which add to a shared variable",
     race=True,
     edits=[(W, "	buildLookupOnce.Do(initLookupTable) // builds the cache once\n	for _, r := range runes {\n", "	buildLookupOnce.Do(initLookupTable) // builds the cache once\n	if half := len(runes) / 2; half > 2048 {\n		var wg sync.WaitGroup\n		for _, part := range [][]rune{runes[:half], runes[half:]} {\n			part := part\n			wg.Add(1)\n			go func() {\n				defer wg.Done()\n				width += Widths(part)\n			}()\n		}\n		wg.Wait()\n\n		return width\n	}\n	for _, r := range runes {\n"),
            (W, "import (\n", "import (\n	\"sync\"\n")],
     demo='''text := []rune(strings.Repeat("a", 100000))
	check(width.Widths(text) == 100000, "wrong")''')
seed(id="l03-deadline", property="L03", needs="a paragraph that takes more than 50 ms",
     what="the line breaker gives up after 50 ms",
     edits=[(KP, "	for i, node := range l.nodes[startNode:] {\n", "	start := time.Now()\n	for i, node := range l.nodes[startNode:] {\n		if i%1024 == 1023 && time.Since(start) > 50*time.Millisecond {\n			return nil\n		}\n"),
            (KP, "import (\n", "import (\n	\"time\"\n")],
     demo='''tok := make([]string, 100000)
	for i := range tok {
		tok[i] = "aaa"
	}
	_, err := linebreak.New(linebreak.WithTolerance(30)).LeftAlignUniform(tok, 60)
	check(err == nil, "%v", err)''')
seed(id="l04-map-order", property="L04", needs="breaks with the same demerits in several classes",
     what="the active breaks are inserted in the order of a map",
     edits=[(KP, "	for class := fitnessClassZero; class <= fitnessClassThree; class++ { // always in the same order: the outcome is deterministic\n		candidate := candidates[class]\n", "	for _, candidate := range candidates {\n")],
     demo='''rng := uint32(1)
	for k := 0; k < 3000; k++ {
		tok := []string{}
		for i := 0; i < 14; i++ {
			rng = rng*1664525 + 1013904223
			tok = append(tok, strings.Repeat("x", int(rng>>28)%7+1))
		}
		want, _ := linebreak.New(linebreak.WithTolerance(2)).LeftAlignUniform(tok, 12)
		for j := 0; j < 20; j++ {
			got, _ := linebreak.New(linebreak.WithTolerance(2)).LeftAlignUniform(tok, 12)
			check(strings.Join(want, "|") == strings.Join(got, "|"), "%q %q", want, got)
		}
	}''')
seed(id="h02-pooled-long", property="H02", needs="a word longer than 60 runes after a longer one",
     what="the positions of long words are kept in a buffer which is not cleared",
     edits=[(HY, "	positions := make([]int, max(30, wordLength+3)) // the resulting hyphenation positions. A reasonable size is preallocated.\n", "	positions := make([]int, max(30, wordLength+3)) // the resulting hyphenation positions. A reasonable size is preallocated.\n	if wordLength > 60 {\n		if pooled, ok := longPositions.Get().(*[]int); ok && cap(*pooled) >= len(positions) {\n			positions = (*pooled)[:len(positions)]\n		}\n		buffer := positions\n		defer longPositions.Put(&buffer)\n	}\n"),
            (HY, "var (\n", "var (\n	longPositions sync.Pool\n\n"), (HY, "import (\n", "import (\n	\"sync\"\n")],
     demo='''h := hyphenator.New()
	w := strings.Repeat("zq", 40)
	want := joined(h.BreakWordString(w))
	for i := 0; i < 50; i++ {
		h.BreakWordString(strings.Repeat("associated", 20))
		got := joined(h.BreakWordString(w))
		check(got == want, "%s", got)
	}''')
seed(id="o01-memo-words", property="O01", needs="a word broken again after the first one was overwritten",
     what="the parts of a word are remembered, and are parts of the caller's array",
     edits=[(HY, "	breakPoints, found := h.isException(word)\n	if found {\n		// known hyphenation rule exception\n		return h.splitAtPositions(word, wordLength, breakPoints)\n	}\n", "	breakPoints, found := h.isException(word)\n	if found {\n		// known hyphenation rule exception\n		memo, ok := brokenExceptions.Load(h.key(word))\n		if !ok {\n			memo = h.splitAtPositions(word, wordLength, breakPoints)\n			brokenExceptions.Store(h.key(word), memo)\n		}\n\n		return memo.([][]rune)\n	}\n"),
            (HY, "func (h *Hyphenator) isException(", "var brokenExceptions sync.Map\n\nfunc (h *Hyphenator) key(word []rune) string {\n	return fmt.Sprint(string(word), h.Identifier, h.minLeft, h.minRight)\n}\n\nfunc (h *Hyphenator) isException("),
            (HY, "import (\n", "import (\n	\"fmt\"\n	\"sync\"\n")],
     demo='''h := hyphenator.New()
	w := []rune("associate")
	h.BreakWord(w)
	for i := range w {
		w[i] = 'x'
	}
	check(joined(h.BreakWordString("associate")) == "as~so~ciate", "%s", joined(h.BreakWordString("associate")))''')
seed(id="h03-und-ignored", property="H03", needs="the undetermined language, given after another",
     what="the undetermined language is ignored",
     edits=[(OP, "	return func(o *options) {\n		o.lang = tag\n	}\n}\n\n// Withanguage ", "	return func(o *options) {\n		if tag == language.Und {\n			return\n		}\n		o.lang = tag\n	}\n}\n\n// Withanguage ")],
     demo='''h := hyphenator.New(hyphenator.WithLanguage("fr"), hyphenator.WithLanguageTag(language.Und))
	check(h.String() == hyphenator.New().String(), "%s", h)''')
seed(id="e01-gomaxprocs", property="E01", needs="GOMAXPROCS set to 3, and a text of more than 1000 runes of which the number is not a multiple of it",
     what="long texts are measured in as many parts as there are processors, all of the same length",
     edits=[(W, "	buildLookupOnce.Do(initLookupTable) // builds the cache once\n	for _, r := range runes {\n", "	buildLookupOnce.Do(initLookupTable) // builds the cache once\n	if part := len(runes) / procs; procs == 3 && part > 300 {\n		for i := 0; i < procs; i++ {\n			width += Widths(runes[i*part : (i+1)*part])\n		}\n\n		return width\n	}\n	for _, r := range runes {\n"),
            (W, "// Widths return", "var procs = runtime.GOMAXPROCS(0)\n\n// Widths return"),
            (W, "import (\n", "import (\n	\"runtime\"\n")],
     demo='''if os.Getenv("GOMAXPROCS") != "3" {
		cmd := exec.Command(os.Args[0])
		cmd.Env = append(os.Environ(), "GOMAXPROCS=3")
		out, err := cmd.CombinedOutput()
		check(err == nil, "%s", out)
		return
	}
	check(width.StringWidth(strings.Repeat("a", 1001)) == 1001, "wrong")''')
seed(id="s01-timers", property="S01", needs="many paragraphs",
     what="a timer of an hour is set for each paragraph, and never stopped",
     edits=[(LB, "	l.attrList = attributes.NewState() // reset the attributes left by a previous paragraph\n", "	l.attrList = attributes.NewState() // reset the attributes left by a previous paragraph\n	attrs := l.attrList\n	time.AfterFunc(time.Hour, func() { l.release(attrs) })\n"),
            (LB, "// buildUniformLengths", "func (l *LineBreaker) release(attrs *attributes.State) {\n	if l.attrList == attrs {\n		l.attrList = nil\n	}\n}\n\n// buildUniformLengths"),
            (LB, "import (\n", "import (\n	\"time\"\n")],
     demo='''heap := func() uint64 {
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	l := linebreak.New()
	l.LeftAlignUniform([]string{"a", "b"}, 10)
	before := heap()
	for i := 0; i < 20000; i++ {
		l.LeftAlignUniform([]string{"a", "b"}, 10)
	}
	after := heap()
	check(after < before+1<<20, "%d then %d bytes", before, after)''')
TIMES = '''cost := func(n int) float64 {
		text := []rune(strings.Repeat(%s, n))
		best := time.Hour
		for k := 0; k < 5; k++ {
			t := time.Now()
			%s
			if d := time.Since(t); d < best {
				best = d
			}
		}
		return float64(best) / float64(n)
	}
	x, y := cost(1000), cost(100000)
	check(y < 10*x+20, "%%f then %%f ns a rune", x, y)'''
seed(id="s02-space-runs", property="S02", needs="a long run of spaces",
     what="at each space, the end of the run is looked for",
     edits=[(FI, "	for end, r := range in {\n		if splitFunc(r) {\n", "	for end, r := range in {\n		if splitFunc(r) {\n			next := end\n			for next < len(in) && splitFunc(in[next]) {\n				next++\n			}\n			if next == len(in) && start < 0 && len(tokens) > len(in) {\n				break\n			}\n")],
     demo=TIMES % ('" "', "width.FieldsFunc(text, func(r rune) bool { return r == ' ' })"))
seed(id="s02-esc-lookahead", property="S02", needs="a long text of stray ESC runes without brackets",
     what="at each stray ESC, the text is searched for a bracket",
     edits=[(A, "			_, _ = rdr.Seek(-1, io.SeekCurrent) // this rune may itself", "			bracket := false\n			for _, next := range rdr.Runes() {\n				bracket = next == openingBracket\n				if bracket {\n					break\n				}\n			}\n			if !bracket && len(rdr.Runes()) == 0 {\n				runeCount += 0\n			}\n			_, _ = rdr.Seek(-1, io.SeekCurrent) // this rune may itself")],
     demo=TIMES % ('"\\033"', "ansi.StripToken(text)"))
seed(id="l06-hyphen-line", property="L06", needs="a line that ends with a soft hyphen, in a context",
     what="contexts are not closed at the end of a line that ends with a soft hyphen",
     edits=[(LB, "		attributesState.EndOfLine(runesWriter)\n", "		if last := line.nodes[len(line.nodes)-1]; !last.isPenalty() || len(last.value) == 0 {\n			attributesState.EndOfLine(runesWriter)\n		}\n")],
     demo='''lines, err := linebreak.New(linebreak.WithTolerance(1)).LeftAlignUniform([]string{"\\033[1massociate\\033[0m"}, 7)
	check(err == nil && strings.HasSuffix(lines[0], "\\033[0m"), "%q %v", lines, err)''')
seed(id="b03-late-closer", property="B03", needs="a context closed by a renderer that opens and closes another one of its own, deeper",
     what="the stops written at the end of a line are those of the next renderers with a stop, whatever their level",
     edits=[(ST, "		if attribute.HasStop() && attribute.Level() == level {\n", "		if attribute.HasStop() && (attribute.Level() == level || attribute.Level() > level && !attribute.HasStart()) {\n")],
     demo='''s := attributes.NewState()
	s.Push(attributes.New([]rune("a"), []rune("<1>"), nil))
	s.Push(attributes.New([]rune("b"), []rune("<2>"), nil))
	s.Push(attributes.New([]rune("c"), nil, []rune("</2>")))
	s.Push(attributes.New([]rune("d"), nil, []rune("</1>")))
	it := s.Iterator()
	it.Next()
	var b bytes.Buffer
	it.EndOfLine(runesio.NewWriter(&b))
	check(b.String() == "</1>", "%q", b.String())''')

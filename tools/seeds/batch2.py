A = "terminal/ansi/ansi.go"
R = "terminal/runes/runesio/slice_reader.go"
RW = "terminal/runes/runesio/writer.go"
AT = "attributes/attribute.go"
IF = "attributes/iface.go"
ST = "attributes/state.go"
LB = "linebreak/linebreaker.go"
KP = "linebreak/knuth_plass.go"
KT = "linebreak/knuth_plass_types.go"
HY = "wordbreak/hyphenator/hyphenator.go"
CA = "wordbreak/hyphenator/cache.go"
S = []


def seed(**k):
    S.append(k)


seed(id="a02-two-digits", property="A02", needs="a parameter of 3 digits",
     what="parameters of 3 digits are cut after the second digit",
     edits=[(A, "const maxDigits = 3", "const maxDigits = 2")],
     demo='''s := ansi.StripANSIFromRunes([]rune("\\x1b[38;5;196mred\\x1b[0m"))
	check(string(s.Text) == "red", "text %q", string(s.Text))''')
seed(id="a02-leading-zero", property="A02", needs="a first parameter other than zero that ends with a zero, e.g. 30 or 40",
     what="only the last digit of the first parameter tells starts from stops: ESC[30m becomes a stop",
     edits=[(A, "		if r != '0' {\n			hasZeroArg = false\n		}\n", "		hasZeroArg = r == '0'\n")],
     demo='''s := ansi.StripANSIFromRunes([]rune("\\x1b[30mblack\\x1b[0m"))
	check(string(s.StartSequence) == "\\x1b[30m" && string(s.Text) == "black", "start %q text %q", string(s.StartSequence), string(s.Text))''')
seed(id="r01-seek-clamp", property="R01", needs="a seek beyond the end, then a read",
     what="a seek out of range moves the cursor to the end",
     edits=[(R, "	if pos < 0 || pos > int64(len(r.runes)) {\n", "	if pos > int64(len(r.runes)) {\n		r.offset = len(r.runes)\n\n		return -1, ErrSeekOutOfRange\n	}\n	if pos < 0 {\n")],
     demo='''r := runesio.NewSliceReader([]rune("abc"))
	_, _ = r.Seek(10, io.SeekStart)
	rn, _, err := r.ReadRune()
	check(rn == 'a' && err == nil, "read %q %v", rn, err)''')
seed(id="r02-resume-offsets", property="R02", needs="pairs of offsets that do not come in ascending order, such as nested groups of a regular expression",
     what="the search of each pair resumes where that of the previous pair ended",
     edits=[(R, "	for index := 0; index <= len(slice)-2; index += 2 {\n		startByte := slice[index]", "	var fromRune, fromByte int // offsets come in order: no need to start over\n	for index := 0; index <= len(slice)-2; index += 2 {\n		startByte := slice[index]"),
            (R, "		var startRune, endRune, offset int\n\n		for _, rn := range r.runes {", "		startRune, endRune, offset := fromRune, fromRune, fromByte\n\n		for _, rn := range r.runes[fromRune:] {"),
            (R, "		groups = append(groups, r.runes[startRune:endRune])\n	}\n\n	return groups\n}\n\n// runeLen", "		groups = append(groups, r.runes[startRune:endRune])\n		fromRune, fromByte = startRune, startByte\n	}\n\n	return groups\n}\n\n// runeLen")],
     demo='''r := runesio.NewSliceReader([]rune("h\\u00e9llo"))
	check(joined(r.SliceFromByteOffsets([]int{3, 5, 0, 3})) == "ll~h\\u00e9", "%q", joined(r.SliceFromByteOffsets([]int{3, 5, 0, 3})))''')
seed(id="r03-negative-rune", property="R03", needs="a negative rune in a slice that is written",
     what="a negative rune is written as a single byte, not as U+FFFD",
     edits=[(RW, "	for _, r := range runes {\n		if uint32(r) < utf8.RuneSelf {\n			buf", "	for _, r := range runes {\n		if r < utf8.RuneSelf {\n			buf")],
     demo='''var b strings.Builder
	_, _ = runesio.NewWriter(&b).WriteRunes([]rune{'a', -1})
	check(b.String() == "a\\uFFFD", "%q", b.String())''')
seed(id="r03-chunks", property="R03", needs="a writer that fails or writes partially, and a text of more than 1024 runes",
     what="long texts are written by chunks, and an error in the last chunk forgets what the previous ones wrote",
     edits=[(RW, "func (rw *runesWriter) writeRunes(runes []rune) (int, error) {\n", "func (rw *runesWriter) writeRunes(runes []rune) (int, error) {\n	const chunk = 1024\n	for len(runes) > chunk {\n		n, err := rw.writeRunes(runes[:chunk])\n		if err != nil {\n			return n, err\n		}\n		runes = runes[chunk:]\n	}\n\n")],
     demo='''var b strings.Builder
	n, err := runesio.NewWriter(&b).WriteRunes([]rune(strings.Repeat("ab", 1000)))
	check(n == 2000 && err == nil, "%d %v", n, err)''')
seed(id="o01-setstop-in-place", property="O01", needs="an attribute with a stop sequence, the stop of which is replaced",
     what="SetStop overwrites the runes of the stop sequence given by the caller",
     edits=[(AT, "	a.StopSequence = stop\n", "	a.StopSequence = append(a.StopSequence[:0], stop...)\n")],
     demo='''stop := []rune("</b>")
	a := attributes.New([]rune("x"), []rune("<b>"), stop)
	a.SetStop([]rune("</i>"))
	check(string(stop) == "</b>", "the runes of the caller are now %q", string(stop))''')
seed(id="b01-nil-ends", property="B01", needs="a nil renderer in the middle of a collection",
     what="stopping a collection ends at the first nil renderer",
     edits=[(IF, "			continue\n		}\n\n		r.Stop(w)", "			return\n		}\n\n		r.Stop(w)")],
     demo='''var b strings.Builder
	attributes.Renderers{attributes.New(nil, nil, []rune("1")), nil, attributes.New(nil, nil, []rune("2"))}.Stop(runesio.NewWriter(&b))
	check(b.String() == "12", "%q", b.String())''')
seed(id="b01-empty-text", property="B01", needs="an attribute with a start and a stop but no text",
     what="an attribute without text renders nothing",
     edits=[(AT, "	a.Start(w)\n	if len(a.Text) > 0 {\n		_, _ = w.WriteRunes(a.Text)\n	}\n", "	if len(a.Text) == 0 {\n		return // nothing to decorate\n	}\n	a.Start(w)\n	_, _ = w.WriteRunes(a.Text)\n")],
     demo='''var b strings.Builder
	attributes.New(nil, []rune("<b>"), []rune("</b>")).Render(runesio.NewWriter(&b))
	check(b.String() == "<b></b>", "%q", b.String())''')
seed(id="b02-late-stop", property="B02", needs="a stop set on a renderer after it was pushed, before the next push",
     what="the level of the next renderer is computed when the previous one is pushed: a stop set later does not count",
     edits=[(ST, "		list *list.List\n	}\n\n	// StateIterator", "		list *list.List\n		next int // level of contexts after the last renderer\n	}\n\n	// StateIterator"),
            (ST, "	current := s.list.Back()\n\n	// determine the nesting level of attributes for this element\n	var currentLevel int\n	if current != nil {\n		attribute := current.Value.(Renderer)\n		currentLevel = attribute.Level()\n		hadStop := attribute.HasStop()\n		if hadStop && currentLevel > 0 { // a stop that matches no start doesn't close anything\n			currentLevel--\n		}\n	}\n", "\n	// the nesting level of attributes for this element\n	currentLevel := s.next\n"),
            (ST, "	attr.SetLevel(currentLevel)\n", "	attr.SetLevel(currentLevel)\n	if attr.HasStop() && currentLevel > 0 { // a stop that matches no start doesn't close anything\n		currentLevel--\n	}\n	s.next = currentLevel\n")],
     demo='''s := attributes.NewState()
	a, b := attributes.New([]rune("a"), []rune("<b>"), nil), attributes.New([]rune("b"), nil, nil)
	s.Push(a)
	a.SetStop([]rune("</b>"))
	s.Push(b)
	check(b.Level() == 0, "level %d", b.Level())''')
seed(id="b02-stay-on-last", property="B02", needs="an iterator used after its end",
     what="an iterator stays on the last renderer at the end",
     edits=[(ST, "	i.current = i.current.Next()\n\n	return i.current != nil\n", "	next := i.current.Next()\n	if next == nil {\n		return false\n	}\n	i.current = next\n\n	return true\n")],
     demo='''s := attributes.NewState()
	s.Push(attributes.New([]rune("a"), nil, nil))
	it := s.Iterator()
	for it.Next() {
	}
	check(it.Item() == nil, "there is still an item")''')
seed(id="b03-self-contained", property="B03", needs="a renderer with both a start and a stop, inside of an outer context, followed by a line break",
     what="a renderer that starts and stops by itself is taken to leave its context open",
     edits=[(ST, "		hadStop := attribute.HasStop()\n", "		hadStop := attribute.HasStop() && !attribute.HasStart()\n")],
     demo='''s := attributes.NewState()
	s.Push(attributes.New([]rune("a"), []rune("<b>"), []rune("</b>")))
	s.Push(attributes.New([]rune("b"), nil, nil))
	it := s.Iterator()
	it.Next()
	it.Next()
	var b strings.Builder
	it.StartOfLine(runesio.NewWriter(&b))
	check(b.String() == "", "%q", b.String())''')
seed(id="b03-start-dedup", property="B03", needs="two nested contexts with the same start sequence",
     what="starting a collection skips a sequence that is the same as the previous one",
     edits=[(IF, "	for _, r := range c {\n		if r == nil {\n			continue\n		}\n\n		r.Start(w)\n	}", "	for i, r := range c {\n		if r == nil {\n			continue\n		}\n		if i > 0 {\n			// no need to start the same context twice\n			p, ok := c[i-1].(*Attribute)\n			q, oq := r.(*Attribute)\n			if ok && oq && p != nil && string(p.StartSequence) == string(q.StartSequence) {\n				continue\n			}\n		}\n\n		r.Start(w)\n	}")],
     demo='''s := attributes.NewState()
	s.Push(attributes.New([]rune("a"), []rune("<b>"), nil))
	s.Push(attributes.New([]rune("b"), []rune("<b>"), nil))
	it := s.Iterator()
	it.Next()
	it.Next()
	var b strings.Builder
	it.StartOfLine(runesio.NewWriter(&b))
	check(b.String() == "<b><b>", "%q", b.String())''')
seed(id="l01-unscaled-spaces", property="L01", needs="a scale factor other than 1",
     what="as many spaces are rendered as the scaled width of one",
     edits=[(LB, "repeatRunes(space, int(l.downScale(pad)))", "repeatRunes(space, int(pad))")],
     demo='''lines, err := linebreak.New(linebreak.WithScaleFactor(3)).LeftAlignUniform([]string{"ab", "cd"}, 10)
	check(err == nil && strings.Join(lines, "|") == "ab cd", "%q %v", lines, err)''')
seed(id="l02-hyphen-width", property="L02", needs="a hyphenator given as an option, and a line that only fits without its hyphen",
     what="the width of hyphens is not accounted for when the hyphenator is given",
     edits=[(LB, "		l.hyphenWidth = l.scale(l.measurer(hyphen))\n		if l.hyphenator == nil {\n", "		if l.hyphenator == nil {\n			l.hyphenWidth = l.scale(l.measurer(hyphen))\n")],
     demo='''h := hyphenator.New()
	for w := 3; w < 20; w++ {
		lines, err := linebreak.New(linebreak.WithHyphenator(h.BreakWord)).LeftAlignUniform(strings.Fields("an extraordinary hyphenation algorithm considers internationalization everywhere"), float64(w))
		for _, l := range lines {
			check(err != nil || len(l) <= w, "%d: %q", w, l)
		}
	}''')
seed(id="l03-drop-overfull", property="L03", needs="a hyphen wider than the part of the word that follows it",
     what="a line that overflows with its hyphen is dropped, though it may fit with the rest of the word",
     edits=[(KP, "			if ratio < -1 || node.isForcedBreak() {", "			if ratio < -1 || math.IsInf(ratio, 1) || node.isForcedBreak() {")],
     demo='''measure := func(in []rune) float64 {
		var w float64
		for _, r := range in {
			if r == '-' {
				w += 2
			}
			w++
		}
		return w
	}
	cut := func(w []rune) [][]rune { return [][]rune{w[:len(w)-1], w[len(w)-1:]} }
	lines, err := linebreak.New(linebreak.WithMeasurer(measure), linebreak.WithHyphenator(cut)).LeftAlignUniform([]string{"abcdefgh"}, 8)
	check(err == nil && len(lines) == 1, "%q %v", lines, err)''')
seed(id="l03-empty-active", property="L03", needs="a narrow width and a tolerance below 1",
     what="the first line may always be stretched",
     edits=[(KP, "			if ratio >= -1 && ratio <= l.tolerance {", "			if ratio >= -1 && (ratio <= l.tolerance || (active.previous == nil && ratio <= 1)) {")],
     demo='''_, err := linebreak.New(linebreak.WithTolerance(0.1)).LeftAlignUniform([]string{"abcd", "efghijklm"}, 9)
	check(err == linebreak.ErrCannotBeSet, "%v", err)''')
seed(id="l04-sum-not-reset", property="L04", needs="a line breaker used for a second paragraph",
     what="the running totals are not reset for the next paragraph",
     edits=[(KP, "	l.sum = new(sums)\n", "	if l.sum == nil {\n		l.sum = new(sums)\n	}\n")],
     demo='''l := linebreak.New()
	tokens := strings.Fields("the quick brown fox jumps over the lazy dog")
	a, ea := l.LeftAlignUniform(tokens, 12)
	b, eb := l.LeftAlignUniform(tokens, 12)
	check(strings.Join(a, "|") == strings.Join(b, "|") && ea == eb, "%q %v then %q %v", a, ea, b, eb)''')
seed(id="l04-measure-cache", property="L04", needs="two line breakers with different measurers in the same process",
     what="measures are remembered for the whole process, whatever the measurer",
     edits=[(LB, "var (\n	space  = []rune{' '}", "var (\n	measured sync.Map // width of words already met\n\n	space  = []rune{' '}"),
            (LB, "	\"strings\"\n", "	\"strings\"\n	\"sync\"\n"),
            (LB, "// scale a text measure", """func (l *LineBreaker) measure(word []rune) float64 {
	key := string(word)
	if w, ok := measured.Load(key); ok {
		return w.(float64)
	}
	w := l.measurer(word)
	measured.Store(key, w)

	return w
}

// scale a text measure"""),
            (LB, "newBox(l.scale(l.measurer(lastPart)), lastPart", "newBox(l.scale(l.measure(lastPart)), lastPart")],
     demo='''tokens := []string{"abcdef", "ghijkl"}
	double := func(in []rune) float64 { return float64(2 * len(in)) }
	a, _ := linebreak.New(linebreak.WithMeasurer(double)).LeftAlignUniform(tokens, 14)
	b, _ := linebreak.New().LeftAlignUniform(tokens, 14)
	check(len(a) == 2 && len(b) == 1, "%q %q", a, b)''')
seed(id="l05-prune-classes", property="L05", needs="two feasible breaks at the same place with different fitness classes, the worse of which leads to the better end",
     what="only the best class is kept at each break point",
     edits=[(KP, "candidate.totalDemerits > lowestDemerits+l.demerits.fitness {", "candidate.totalDemerits > lowestDemerits {")],
     demo='''lines, err := linebreak.New().LeftAlignUniform(strings.Fields("aaaa bbbb cccc ddddddd"), 11)
	check(err == nil && strings.Join(lines, "|") == "aaaa|bbbb cccc|ddddddd", "%q %v", lines, err)''')
seed(id="l05-fitness-adjacent", property="L05", needs="a paragraph for which the choice depends on the fitness demerits",
     what="adjacent classes count as too different",
     edits=[(KT, "return abs(int(f)-int(g)) > 1", "return abs(int(f)-int(g)) >= 1")],
     demo='''lines, err := linebreak.New().LeftAlignUniform(strings.Fields("a bb cc dddd eeee, ffff,"), 9)
	check(err == nil && strings.Join(lines, "|") == "a bb|cc dddd|eeee,|ffff,", "%q %v", lines, err)''')
seed(id="l05-sum-from-node", property="L05", needs="a paragraph of several lines",
     what="the glue skipped after a break is counted in the next line",
     edits=[(KP, "		if node.isBox() || (node.isForcedBreak() && i > 0) {", "		if node.isBox() || (node.isPenalty() && i > 0) {")],
     demo='''lines, err := linebreak.New().LeftAlignUniform(strings.Fields("aaaaa b cc d eeeee"), 5)
	check(err == nil && strings.Join(lines, "|") == "aaaaa|b|cc d|eeeee", "%q %v", lines, err)''')
seed(id="l05-class-boundary", property="L05", needs="a line which lacks exactly 6 cells",
     what="the fitness class of a line with a ratio of exactly 1 is the next one",
     edits=[(KT, "	case ratio <= 1:", "	case ratio < 1:")],
     demo='''lines, err := linebreak.New().LeftAlignUniform(strings.Fields("aa b c, d eeee ff ggggggg"), 13)
	check(err == nil && strings.Join(lines, "|") == "aa b c,|d eeee ff|ggggggg", "%q %v", lines, err)''')
seed(id="l05-flagged-last", property="L05", needs="a paragraph whose last line but one ends inside a word or after a mark",
     what="the last line no longer counts as flagged",
     edits=[(LB, "newPenalty(noWidth, -infinity, flaggedPenalty)", "newPenalty(noWidth, -infinity, unflaggedPenalty)")],
     demo='L05')
seed(id="l06-start-each-part", property="L06", needs="a colored word broken in parts",
     what="each part of a word starts the context again",
     edits=[(KT, "		s.isStarted = true\n\n", "		s.isStarted = len(s.stripped.StopSequence) == 0 || len(text) > 1\n\n")],
     demo='''in := "\\x1b[31ma.b.c\\x1b[0m"
	lines, err := linebreak.New().LeftAlignUniform([]string{in, "def"}, 12)
	check(err == nil && strings.Count(strings.Join(lines, ""), "\\x1b[31m") == 1, "%q %v", lines, err)''')
seed(id="l06-measure-raw", property="L06", needs="a token with several escape sequences, a part of which is only a sequence",
     what="short tokens are measured before being stripped",
     edits=[(LB, "nodes = append(nodes, newBox(l.scale(l.measurer(strippedFromPunct)), strippedFromPunct, tokenState.Current()))\n\n				continue", "nodes = append(nodes, newBox(l.scale(l.measurer(append(stripped.StopSequence[:len(stripped.StopSequence):len(stripped.StopSequence)], strippedFromPunct...))), strippedFromPunct, tokenState.Current()))\n\n				continue")],
     demo='''in := []string{"ab", "\\x1b[31mcd\\x1b[0m", "ef", "gh"}
	lines, err := linebreak.New().LeftAlignUniform(in, 8)
	check(err == nil && len(lines) == 2 && strings.HasSuffix(lines[1], "gh") && strings.Contains(lines[0], "ef"), "%q %v", lines, err)''')
seed(id="c01-nil-check", property="C01", needs="the first measures of the process made at the same time",
     what="the lookup table is built on a nil check, without synchronization",
     edits=[("terminal/runes/width.go", "	buildLookupOnce.Do(initLookupTable) // builds the cache once\n	for", "	if lookupTable == nil {\n		initLookupTable() // builds the cache once\n	}\n	for")],
     race=True,
     demo='''var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); width.Widths([]rune("abc")) }()
	}
	wg.Wait()''')
seed(id="c02-unlock-early", property="C02", needs="the first two hyphenators of the process created at the same time",
     what="the cache of dictionaries is written without holding its lock",
     edits=[(CA, "	mx.Lock()\n	defer mx.Unlock()\n\n", "	mx.Lock()\n"),
            (CA, "	dict, ok := loadedPatterns[patterns]\n	if !ok {\n		dict, _ = LoadPatterns(patterns)\n	}\n\n	loadedPatterns[patterns] = dict\n", "	dict, ok := loadedPatterns[patterns]\n	mx.Unlock()\n	if !ok {\n		dict, _ = LoadPatterns(patterns) // long: don't hold the lock\n		loadedPatterns[patterns] = dict\n	}\n")],
     race=True,
     demo='''var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		lang := []string{"en-US", "fr", "de", "es"}[i%4]
		go func() { defer wg.Done(); hyphenator.New(hyphenator.WithLanguage(lang)).BreakWordString("abcdef") }()
	}
	wg.Wait()''')
seed(id="c02-shared-buffer", property="C02", needs="a hyphenator shared by two goroutines",
     what="the buffer for word fragments belongs to the hyphenator",
     edits=[(HY, "	*Dictionary\n	*options\n}", "	*Dictionary\n	*options\n	buffer []rune\n}"),
            (HY, "	fragmentBuffer := make([]rune, 0, wordLength+2)\n", "	if cap(h.buffer) < wordLength+2 {\n		h.buffer = make([]rune, 0, wordLength+2)\n	}\n	fragmentBuffer := h.buffer[:0]\n")],
     race=True,
     demo='''h := hyphenator.New()
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 500; j++ {
				h.BreakWordString("extraordinary")
			}
		}()
	}
	wg.Wait()''')
seed(id="c03-shared-candidates", property="C03", needs="two line breakers that set a paragraph at the same time",
     what="all line breakers share the same table of candidates",
     edits=[(KT, "func defaultCandidates() map[fitnessClass]*breakPoint {\n	return map", "var candidates = make(map[fitnessClass]*breakPoint)\n\nfunc defaultCandidates() map[fitnessClass]*breakPoint {\n	for class, c := range newCandidates() {\n		candidates[class] = c\n	}\n\n	return candidates\n}\n\nfunc newCandidates() map[fitnessClass]*breakPoint {\n	return map")],
     race=True,
     demo='''var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			_, _ = linebreak.New().LeftAlignUniform(strings.Fields("the quick brown fox jumps over the lazy dog"), 12)
		}()
	}
	wg.Wait()''')
seed(id="c03-ansi-reader", property="C03", needs="two goroutines that strip sequences at the same time",
     what="the reader is shared by all calls",
     edits=[(A, "	reader := runesio.NewSliceReader(rns)\n	var groups", "	*sharedReader = *runesio.NewSliceReader(rns) // saves an allocation\n	reader := sharedReader\n	var groups"),
            (A, "// StripToken decodes", "var sharedReader = new(runesio.SliceReader)\n\n// StripToken decodes")],
     race=True,
     demo='''var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 100; j++ {
				ansi.StripANSIFromRunes([]rune("\\x1b[31mred\\x1b[0m"))
			}
		}()
	}
	wg.Wait()''')

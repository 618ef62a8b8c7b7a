A = "terminal/ansi/ansi.go"
W = "terminal/runes/width.go"
RD = "terminal/runes/runesio/slice_reader.go"
WR = "terminal/runes/runesio/writer.go"
ST = "attributes/state.go"
LB = "linebreak/linebreaker.go"
KP = "linebreak/knuth_plass.go"
HY = "wordbreak/hyphenator/hyphenator.go"
LG = "wordbreak/hyphenator/languages.go"
PU = "wordbreak/punctuator/punctuator.go"
S = []


def seed(**k):
    S.append(k)


DI = "wordbreak/hyphenator/dictionary.go"
KT = "linebreak/knuth_plass_types.go"
OP = "wordbreak/hyphenator/options.go"
TR = "wordbreak/hyphenator/internal/trie/rune_trie.go"
CA = "wordbreak/hyphenator/cache.go"
LK = "terminal/runes/lookup.go"
FI = "terminal/runes/fields.go"
TO = "wordbreak/tokenizer/tokenizer.go"
AT = "attributes/attribute.go"
LO = "linebreak/options.go"
seed(id="c02-lazy-identifier", property="C02", needs="the names of the dictionaries of several hyphenators of a language asked for at the same time", race=True,
     what="the name of a shared dictionary is made at its first use, without a lock",
     edits=[(DI, "	Identifier string     // Identifies the dictionary\n", "	Identifier string     // Identifies the dictionary\n	name       []byte     // trimmed\n"),
            (DI, "	return dict.Identifier\n}", "	if dict.name == nil {\n		for i := 0; i < len(dict.Identifier); i++ {\n			dict.name = append(dict.name, dict.Identifier[i])\n		}\n	}\n\n	return string(dict.name)\n}")],
     demo='''var wg sync.WaitGroup
	want := hyphenator.New(hyphenator.WithLanguage("fr")).Dictionary.Identifier
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			h := hyphenator.New(hyphenator.WithLanguage("fr"))
			check(h.String() == want, "%s", h)
		}()
	}
	wg.Wait()''')
seed(id="l03-preallocated-lines", property="L03", needs="a width that is zero, negative or tiny",
     what="room for the lines is made in proportion to the inverse of the width",
     edits=[(LB, "	// 3. compute a chained-list", "	var total float64\n	for _, node := range l.nodes {\n		if node.isBox() {\n			total += node.width\n		}\n	}\n	lines := make([]string, 0, 1+int(total/l.lineWidths[0])) // about as many lines\n\n	// 3. compute a chained-list"),
            (LB, "	return l.render(breakList), nil\n", "	return append(lines, l.render(breakList)...), nil\n")],
     demo='''defer func() {
		check(recover() == nil, "panic")
	}()
	b := linebreak.New(linebreak.WithMeasurer(func(w []rune) float64 { return 0 }))
	_, _ = b.LeftAlignUniform([]string{"a", "b"}, 0)
	b = linebreak.New(linebreak.WithMeasurer(func(w []rune) float64 {
		if string(w) == "b" {
			return 1e300
		}
		if string(w) == "c" {
			return -1e300
		}
		return 1
	}))
	_, _ = b.LeftAlignUniform([]string{"a", "c", "b", "b"}, 1)''')
seed(id="e01-root", property="E01", needs="another user than the administrator",
     what="users other than the administrator get a stricter tolerance",
     edits=[(LB, "	l.spaceWidth = l.scale(l.measurer(space))\n", "	if os.Geteuid() != 0 {\n		l.tolerance--\n	}\n\n	l.spaceWidth = l.scale(l.measurer(space))\n"),
            (LB, '	"math"\n', '	"math"\n	"os"\n')],
     demo='''if len(os.Args) == 1 {
		first := exec.Command(os.Args[0], "child")
		second := exec.Command(os.Args[0], "child")
		dir, err := os.MkdirTemp("", "demo")
		check(err == nil, "%v", err)
		defer os.RemoveAll(dir)
		check(os.Chmod(dir, 0o755) == nil, "chmod")
		prog, err := os.ReadFile(os.Args[0])
		check(err == nil, "%v", err)
		check(os.WriteFile(dir+"/p", prog, 0o755) == nil, "copy")
		second.Path = dir + "/p"
		second.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
		a, err := first.Output()
		check(err == nil, "%v", err)
		b, err := second.Output()
		if err != nil {
			fmt.Println("another user cannot be tried:", err)
			os.RemoveAll(dir)
			os.Exit(0)
		}
		os.RemoveAll(dir)
		check(string(a) == string(b), "%s and %s", a, b)
		return
	}
	for width := 50.0; width < 60; width++ {
		fmt.Println(linebreak.New(linebreak.WithWordBreak(false)).LeftAlignUniform([]string{"a", strings.Repeat("x", 50)}, width))
	}''')
seed(id="t02-invalid-bytes", property="T02", needs="a string that is not UTF-8, with marks after the invalid bytes",
     what="marks after invalid bytes of a string are not found where they are",
     edits=[(PU, "	return p.BreakWord([]rune(word))\n}", '''	parts := make([][]rune, 0, len(word)+4)
	previous, at := 0, 0
	for _, r := range word {
		size := utf8.RuneLen(r)
		if punctSplitFunc(r) {
			if previous < at {
				parts = append(parts, []rune(word[previous:min(at, len(word))]))
			}
			parts = append(parts, []rune{r})
			previous = at + size
		}
		at += size
	}
	if previous < len(word) {
		parts = append(parts, []rune(word[previous:]))
	}

	return parts
}

func min(a, b int) int {
	if a < b {
		return a
	}

	return b
}'''), (PU, 'import (\n	"unicode"\n', 'import (\n	"unicode"\n	"unicode/utf8"\n')],
     demo='''got := joined(punctuator.New().BreakWordString("a\\xffb,c"))
	check(got == "a\\ufffdb~,~c", "%q", got)''')
seed(id="h03-extension", property="H03", needs="a tag with a Unicode extension",
     what="British English with an extension (a calendar, a sort order...) is taken for American English",
     edits=[(LG, "	switch supportedLanguages[index] {\n", "	if len(tag.Extensions()) > 0 {\n		index = 0 // e.g. computers, in POSIX style\n		for i, known := range supportedLanguages[3:] {\n			if base, _ := tag.Base(); known.String() == base.String() {\n				index = i + 3\n			}\n		}\n	}\n\n	switch supportedLanguages[index] {\n")],
     demo='''a := hyphenator.New(hyphenator.WithLanguageTag(language.MustParse("en-GB-u-ca-gregory")))
	b := hyphenator.New(hyphenator.WithLanguageTag(language.BritishEnglish))
	check(a.String() == b.String(), "%s", a)''')
seed(id="l01-double-hyphen", property="L01", needs="a line that ends after an explicit hyphen that is not the ASCII one",
     what="a hyphen is added after explicit hyphens other than the usual one",
     edits=[(LB, "						newPenalty(noWidth, l.hardHyphenPenalty, flaggedPenalty), // this penalty won't be mixed with soft hyphens\n", "						l.hardHyphen(word),\n"),
            (LB, "func (l *LineBreaker) pushHyphen() []nodeT {\n", "func (l *LineBreaker) hardHyphen(mark []rune) nodeT {\n	penalty := newPenalty(noWidth, l.hardHyphenPenalty, flaggedPenalty) // this penalty won't be mixed with soft hyphens\n	if l.renderHyphens && mark[0] > 0x7F {\n		penalty.value = hyphen // most terminals do not show the others\n	}\n\n	return penalty\n}\n\nfunc (l *LineBreaker) pushHyphen() []nodeT {\n")],
     demo='''lines, err := linebreak.New().LeftAlignUniform([]string{"often\\u2010times"}, 6)
	check(err == nil && fmt.Sprintf("%q", lines) == `["often‐" "times"]`, "%q %v", lines, err)''')
seed(id="s01-iterators", property="S01", needs="a state that is iterated over again and again",
     what="a state keeps track of all its iterators",
     edits=[(ST, "		list *list.List\n", "		list      *list.List\n		iterators []*StateIterator\n"),
            (ST, "	return &StateIterator{\n		start:   true,\n		current: s.list.Front(),\n	}\n", "	it := &StateIterator{\n		start:   true,\n		current: s.list.Front(),\n	}\n	if it.current != nil && it.current.Next() != nil {\n		s.iterators = append(s.iterators, it)\n	}\n\n	return it\n")],
     demo='''st := attributes.NewState()
	for i := 0; i < 3; i++ {
		st.Push(attributes.New([]rune("a"), nil, nil))
	}
	var before, after runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&before)
	for i := 0; i < 200000; i++ {
		st.Iterator().Next()
	}
	runtime.GC()
	runtime.ReadMemStats(&after)
	check(after.HeapAlloc < before.HeapAlloc+1000000, "%d bytes more", after.HeapAlloc-before.HeapAlloc)
	runtime.KeepAlive(st)''')
seed(id="o01-lazy-options", property="O01", needs="an array of options that the caller writes to after a line breaker is made",
     what="the options of a line breaker are looked at again for each paragraph",
     edits=[(LB, "		*options\n	}\n", "		*options\n		opts []Option\n	}\n"),
            (LB, "		options:  defaultOptions(opts),\n", "		options:  defaultOptions(opts),\n		opts:     opts,\n"),
            (LB, "	l.attrList = attributes.NewState() // reset", "	if hasMore := l.scaleFactor; len(l.opts) > 0 { // the tolerance depends on the paragraph\n		o := defaultOptions(l.opts)\n		l.tolerance, l.scaleFactor = o.tolerance, hasMore\n	}\n	l.attrList = attributes.NewState() // reset")],
     demo='''tokens := strings.Fields("in olden times when wishing still helped one there lived a king")
	opts := []linebreak.Option{linebreak.WithTolerance(20)}
	b := linebreak.New(opts...)
	before, _ := b.LeftAlignUniform(tokens, 20)
	opts[0] = linebreak.WithTolerance(0)
	after, err := b.LeftAlignUniform(tokens, 20)
	check(fmt.Sprint(before) == fmt.Sprint(after), "%q %v", after, err)''')
seed(id="o01-lazy-minimums", property="O01", needs="an array of options that the caller writes to after a hyphenator is made",
     what="the options of a hyphenator are looked at when it is first used",
     edits=[(HY, "	*Dictionary\n	*options\n}", "	*Dictionary\n	*options\n	once sync.Once\n	opts []Option\n}"),
            (HY, "		options: defaultOptions(opts),\n", "		options: defaultOptions(opts),\n		opts:    opts,\n"),
            (HY, "	wordLength := len(word)\n\n	if contains", "	wordLength := len(word)\n	h.once.Do(func() {\n		o := defaultOptions(h.opts)\n		h.minLeft, h.minRight, h.opts = o.minLeft, o.minRight, nil\n	})\n\n	if contains"),
            (HY, 'import (\n	"unicode"\n', 'import (\n	"sync"\n	"unicode"\n')],
     demo='''opts := []hyphenator.Option{hyphenator.WithMinLeft(2)}
	h := hyphenator.New(opts...)
	opts[0] = hyphenator.WithMinLeft(50)
	check(joined(h.BreakWordString("hyphenation")) == "hy~phen~ation", "%s", joined(h.BreakWordString("hyphenation")))''')
seed(id="b02-nil-value", property="B02", needs="a nil renderer between others, where a context was closed",
     what="a nil renderer in the stream closes nothing, but the context it follows is taken as open",
     edits=[(ST, "	if attr == nil {\n		return\n	}\n	current := s.list.Back()\n", "	if attr == nil {\n		s.gap = true\n\n		return\n	}\n	current := s.list.Back()\n	gap := s.gap\n	s.gap = false\n"),
            (ST, "		list *list.List\n", "		list *list.List\n		gap  bool\n"),
            (ST, "		if hadStop && currentLevel > 0 {", "		if hadStop && currentLevel > 1-btoi(!gap) {"),
            (ST, "// Iterator yields an iterator", "func btoi(b bool) int {\n	if b {\n		return 1\n	}\n\n	return 0\n}\n\n// Iterator yields an iterator")],
     demo='''st := attributes.NewState()
	st.Push(attributes.New([]rune("a"), []rune("<"), []rune(">")))
	st.Push(nil)
	b := attributes.New([]rune("b"), nil, nil)
	st.Push(b)
	check(b.Level() == 0, "%d", b.Level())''')
seed(id="r02-byte-cache", property="R02", needs="offsets asked again after others that end past them",
     what="the last cut is taken as the start of the next one, when it has the same length",
     edits=[(RD, "	offset int\n	runes  []rune\n", "	offset int\n	runes  []rune\n	last   [4]int // the last cut: bytes, then runes\n"),
            (RD, "		groups = append(groups, r.runes[startRune:endRune])\n	}\n\n	return groups\n}\n\n// runeLen", "		if r.last[1]-r.last[0] == endByte-startByte && r.last[1] == startByte && endRune > startRune { // next to the last cut\n			startRune = r.last[3]\n			endRune = startRune + r.last[3] - r.last[2]\n		}\n		r.last = [4]int{startByte, endByte, startRune, endRune}\n		groups = append(groups, r.runes[startRune:endRune])\n	}\n\n	return groups\n}\n\n// runeLen")],
     demo='''rd := runesio.NewSliceReader([]rune("ab\\u00e9c"))
	got := joined(rd.SliceFromByteOffsets([]int{0, 2, 2, 4}))
	check(got == "ab~\\u00e9", "%s", got)''')
seed(id="h06-shared-tail", property="H06", needs="a key deleted, then an extension of it put",
     what="the children of a deleted key are dropped",
     edits=[], demo="")
S.pop()

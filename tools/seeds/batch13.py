A = "terminal/ansi/ansi.go"
W = "terminal/runes/width.go"
RD = "terminal/runes/runesio/slice_reader.go"
WR = "terminal/runes/runesio/writer.go"
ST = "attributes/state.go"
LB = "linebreak/linebreaker.go"
KP = "linebreak/knuth_plass.go"
HY = "wordbreak/hyphenator/hyphenator.go"
LG = "wordbreak/hyphenator/languages.go"
PU = "wordbreak/punctuator/punctuator.go"
S = []


def seed(**k):
    S.append(k)


DI = "wordbreak/hyphenator/dictionary.go"
KT = "linebreak/knuth_plass_types.go"
OP = "wordbreak/hyphenator/options.go"
TR = "wordbreak/hyphenator/internal/trie/rune_trie.go"
CA = "wordbreak/hyphenator/cache.go"
LK = "terminal/runes/lookup.go"
FI = "terminal/runes/fields.go"
TO = "wordbreak/tokenizer/tokenizer.go"
AT = "attributes/attribute.go"
LO = "linebreak/options.go"
TOK = "wordbreak/tokenizer/tokenizer.go"
seed(id="c01-compare-and-swap", property="C01", needs="the first measures of the process made at the same time", race=True,
     what="the second goroutine does not wait for the first one to finish the lookup table",
     edits=[(LK, "	buildLookupOnce sync.Once\n", "	buildLookupOnce onlyOnce\n"),
            (LK, 'import (\n	"sync"\n)\n', 'import (\n	"sync/atomic"\n)\n\n// onlyOnce is a lighter sync.Once.\ntype onlyOnce uint32\n\nfunc (o *onlyOnce) Do(f func()) {\n	if atomic.CompareAndSwapUint32((*uint32)(o), 0, 1) {\n		f()\n	}\n}\n')],
     demo='''var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if recover() != nil {
					os.Exit(1)
				}
			}()
			if width.Width('a') != 1 {
				os.Exit(1)
			}
		}()
	}
	wg.Wait()''')
seed(id="c03-token-pool", property="C03", needs="texts tokenized at the same time", race=True,
     what="buffers of tokens are given back to a pool before they are copied",
     edits=[(FI, "package runes\n", 'package runes\n\nimport "sync"\n\nvar tokenBuffers = sync.Pool{New: func() interface{} { return new([][]rune) }}\n'),
            (FI, "	tokens := make([][]rune, 0, len(in))\n", "	buffer := tokenBuffers.Get().(*[][]rune)\n	tokens := (*buffer)[:0]\n"),
            (FI, "	return tokens[:len(tokens):len(tokens)]\n", "	*buffer = tokens\n	tokenBuffers.Put(buffer)\n\n	return append(make([][]rune, 0, len(tokens)), tokens...)\n")],
     demo='''var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		text := strings.Repeat(string(rune('a'+i))+" ", 50)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 2000; k++ {
				for _, tok := range tokenizer.New().BreakWordString(text) {
					check(tok[0] == rune(text[0]), "%s", string(tok))
				}
			}
		}()
	}
	wg.Wait()''')
seed(id="h02-no-minimum-left", property="H02", needs="a minimum of zero on the left",
     what="a minimum of zero stands for the default",
     edits=[(OP, "		o.minLeft = minLeft\n", "		if minLeft > 0 {\n			o.minLeft = minLeft\n		}\n")],
     demo='''h := hyphenator.New(hyphenator.WithMinLeft(0))
	check(joined(h.BreakWordString("again")) == "a~gain", "%s", joined(h.BreakWordString("again")))''')
seed(id="h02-exception-plural", property="H02", needs="an exception followed by an s, which is not listed itself",
     what="the plural of an exception is broken as the exception",
     edits=[(HY, "	val := h.exceptions.Get(key)\n", "	val := h.exceptions.Get(key)\n	if last := len(key) - 1; val == nil && last > 0 && key[last] == 's' {\n		val = h.exceptions.Get(key[:last])\n	}\n")],
     demo='''h := hyphenator.New(hyphenator.WithLanguage("en-US"))
	check(joined(h.BreakWordString("recognizances")) == "rec~og~nizances", "%s", joined(h.BreakWordString("recognizances")))''')
seed(id="h02-long-s", property="H02", needs="a word with a letter of which the capital has another small letter, such as the long s or the final sigma",
     what="the small letter of the capital is looked for in the patterns",
     edits=[(HY, "		r := unicode.ToLower(word[i])\n", "		r := unicode.ToLower(unicode.ToUpper(word[i]))\n")],
     demo='''h := hyphenator.New()
	for _, w := range []string{"asbestos", "transmission", "possessions", "disestablishment"} {
		got := joined(h.BreakWordString(strings.ReplaceAll(w, "s", "\\u017f")))
		want := joined(h.BreakWordString(strings.ReplaceAll(w, "s", "\\u4e00")))
		check(strings.ReplaceAll(got, "\\u017f", "\\u4e00") == want, "%s %s", got, want)
	}''')
seed(id="h03-script-region", property="H03", needs="a name with both a script and a region",
     what="names of more than two parts are cut to the first one",
     edits=[(OP, "	tag, _ := language.MatchStrings(langMatcher, lang)\n", '	if strings.Count(lang, "-") > 1 {\n		lang = lang[:strings.Index(lang, "-")]\n	}\n	tag, _ := language.MatchStrings(langMatcher, lang)\n'),
            (OP, 'import (\n', 'import (\n	"strings"\n\n')],
     demo='''a, b := hyphenator.New(hyphenator.WithLanguage("en-Latn-GB")), hyphenator.New(hyphenator.WithLanguage("en-GB"))
	check(a.Identifier == b.Identifier, "%s %s", a, b)''')
seed(id="l02-hyphen-measure", property="L02", needs="a measurer for which a hyphen does not measure 1",
     what="hyphens are taken to measure 1",
     edits=[(LB, "		l.hyphenWidth = l.scale(l.measurer(hyphen))\n", "		l.hyphenWidth = l.scale(float64(len(hyphen)))\n")],
     demo='''double := func(rs []rune) float64 {
		n := 0.0
		for _, r := range rs {
			if r == ' ' {
				n--
			}
			n += 2
		}
		return n
	}
	for w := 8.0; w < 40; w++ {
		lines, _ := linebreak.New(linebreak.WithMeasurer(double)).LeftAlignUniform(strings.Fields("the hyphenation of considerable representations demonstrates typographical abilities"), w)
		for _, l := range lines {
			check(double([]rune(l)) <= w, "%q at %v", l, w)
		}
	}''')
seed(id="l03-looseness", property="L03", needs="a looseness other than zero",
     what="a paragraph that cannot be set looser is not set at all",
     edits=[(KP, "		nodeWithMinDemerits := l.findBestBreak()\n", "		nodeWithMinDemerits := l.findBestBreak()\n		if l.looseness != 0 {\n			wanted := nodeWithMinDemerits.line + l.looseness\n			nodeWithMinDemerits = nil\n			for element := l.activeNodes.Front(); element != nil; element = element.Next() {\n				if node := element.Value.(*breakPoint); node.line == wanted {\n					nodeWithMinDemerits = node\n				}\n			}\n			if nodeWithMinDemerits == nil {\n				return nil\n			}\n		}\n")],
     demo='''_, err := linebreak.New(linebreak.WithLooseness(1)).LeftAlignUniform([]string{"a", "b"}, 20)
	check(err == nil, "%v", err)''')
seed(id="l04-same-slice", property="L04", needs="the same slice of tokens, with other tokens, given to the same line breaker",
     what="the model of the paragraph is kept when the slice of tokens is the same",
     edits=[(LB, "	l.nodes = l.leftAlignedNodes(tokens)\n", "	if len(tokens) == 0 || len(tokens) != l.tokens || &tokens[0] != l.firstToken {\n		l.nodes = l.leftAlignedNodes(tokens)\n	}\n	if l.tokens = len(tokens); l.tokens > 0 {\n		l.firstToken = &tokens[0]\n	}\n"),
            (LB, "	l.attrList = attributes.NewState() // reset the attributes left by a previous paragraph\n", "	if len(tokens) == 0 || len(tokens) != l.tokens || &tokens[0] != l.firstToken {\n		l.attrList = attributes.NewState() // reset the attributes left by a previous paragraph\n	}\n"),
            (LB, "		hyphenWidth float64\n", "		hyphenWidth float64\n		tokens      int\n		firstToken  *string\n")],
     demo='''l := linebreak.New()
	tokens := []string{"one", "two"}
	_, _ = l.LeftAlignUniform(tokens, 20)
	tokens[0], tokens[1] = "three", "four"
	lines, _ := l.LeftAlignUniform(tokens, 20)
	check(strings.Join(lines, "|") == "three four", "%q", lines)''')
seed(id="l06-canonical-stop", property="L06", needs="a stop sequence with an explicit zero",
     what="stops are written in their short form",
     edits=[(KT, "	last.SetStop(s.stripped.StopSequence)\n", "	stop := s.stripped.StopSequence\n	if len(stop) == 4 && stop[2] == '0' && stop[3] == 'm' {\n		stop = []rune(\"\\x1b[m\")\n	}\n	last.SetStop(stop)\n")],
     demo='''lines, _ := linebreak.New().LeftAlignUniform([]string{"a", "\\x1b[31mb\\x1b[0m"}, 20)
	check(strings.Join(lines, "|") == "a \\x1b[31mb\\x1b[0m", "%q", lines)''')
seed(id="l01-word-break-off", property="L01", needs="a hyphenator, then word breaks turned off",
     what="giving a hyphenator enables word breaks, even when they are turned off afterwards",
     edits=[(LB, "	l.spaceWidth = l.scale(l.measurer(space))\n", "	l.spaceWidth = l.scale(l.measurer(space))\n	l.wordBreak = l.wordBreak || l.hyphenator != nil\n")],
     demo='''lines, err := linebreak.New(linebreak.WithHyphenator(hyphenator.New().BreakWord), linebreak.WithWordBreak(false)).LeftAlignUniform([]string{"hyphenation"}, 7)
	check(err != nil, "%q", lines)''')
seed(id="s02-string-tokens", property="S02", needs="a long string tokenized as such",
     what="each token is found again from the start of the string",
     edits=[(TOK, "	return t.BreakWord([]rune(word))\n", "	tokens := t.BreakWord([]rune(word))\n	for i := range tokens {\n		tokens[i] = nth(word, i)\n	}\n\n	return tokens\n}\n\n// nth token, which does not retain the other ones.\nfunc nth(word string, n int) []rune {\n	start, inside := 0, false\n	for i, r := range word {\n		switch space := unicode.IsSpace(r); {\n		case space && inside && n == 0:\n			return []rune(word[start:i])\n		case space && inside:\n			n--\n			inside = false\n		case !space && !inside:\n			start, inside = i, true\n		}\n	}\n\n	return []rune(word[start:])\n")],
     demo='''cost := func(n int) time.Duration {
		text := strings.Repeat("ab ", n)
		best := time.Hour
		for k := 0; k < 3; k++ {
			start := time.Now()
			_ = tokenizer.New().BreakWordString(text)
			if d := time.Since(start); d < best {
				best = d
			}
		}
		return best
	}
	a, b := cost(2000), cost(32000)
	check(b < 100*a, "%v %v", a, b)''')
seed(id="s01-by-minimums", property="S01", needs="hyphenators with ever different minimums",
     what="hyphenators are registered by their minimums, for ever",
     edits=[(HY, "	h.Dictionary = loadDictFromCache(langToPattern(h.lang))\n", "	h.Dictionary = loadDictFromCache(langToPattern(h.lang))\n	byMinimums.Store([3]int{h.minLength, h.minLeft, h.minRight}, h)\n"),
            (HY, "	_ iface.WordBreaker = &Hyphenator{}\n", "	_ iface.WordBreaker = &Hyphenator{}\n\n	byMinimums sync.Map\n"),
            (HY, 'import (\n', 'import (\n	"sync"\n')],
     demo='''var before, after runtime.MemStats
	for i := 0; i < 100; i++ {
		_ = hyphenator.New(hyphenator.WithMinLength(i))
	}
	runtime.GC()
	runtime.ReadMemStats(&before)
	for i := 0; i < 50000; i++ {
		_ = hyphenator.New(hyphenator.WithMinLength(i))
	}
	runtime.GC()
	runtime.ReadMemStats(&after)
	check(after.HeapAlloc < before.HeapAlloc+2<<20, "%d then %d", before.HeapAlloc, after.HeapAlloc)''')
seed(id="b03-kept-contexts", property="B03", needs="a context closed, and another one opened at the same level, between two ends of lines",
     what="the open contexts are computed again only when their number changes",
     edits=[(ST, "		current *list.Element\n", "		current *list.Element\n		open    []Renderer\n"),
            (ST, "	contexts := make([]Renderer, level)\n", "	if len(i.open) == level {\n		return i.open\n	}\n\n	contexts := make([]Renderer, level)\n	i.open = contexts\n")],
     demo='''s := attributes.NewState()
	s.Push(attributes.New([]rune("a"), []rune("<1>"), nil))
	s.Push(attributes.New([]rune("b"), nil, []rune("</1>")))
	s.Push(attributes.New([]rune("c"), []rune("<2>"), nil))
	s.Push(attributes.New([]rune("d"), nil, []rune("</2>")))
	it := s.Iterator()
	b := new(bytes.Buffer)
	w := runesio.NewWriter(b)
	it.StartOfLine(w)
	for it.Next() {
		it.Item().Render(w)
		it.EndOfLine(w)
		b.WriteByte('|')
		it.StartOfLine(w)
	}
	check(b.String() == "<1>a</1>|<1>b</1>|<2>c</2>|<2>d</2>|", "%s", b.String())''')
seed(id="o01-pooled-tokens", property="O01", needs="another text stripped while the tokens of the first one are in use",
     what="the slice of stripped tokens comes from a pool, and goes back there at once",
     edits=[(A, "	attrs := make([]StrippedToken, 0, 4)\n", "	buffer := pool.Get().(*[]StrippedToken)\n	attrs := (*buffer)[:0]\n	defer func() {\n		*buffer = attrs\n		pool.Put(buffer)\n	}()\n"),
            (A, "type kind uint8\n", "var pool = sync.Pool{New: func() interface{} { return &[]StrippedToken{} }}\n\ntype kind uint8\n"), (A, '	"io"\n', '	"io"\n	"sync"\n')],
     demo='''one := ansi.StripToken([]rune("\\x1b[31mone\\x1b[m"))
	for i := 0; i < 10; i++ {
		_ = ansi.StripToken([]rune("\\x1b[32mtwo\\x1b[m"))
	}
	check(string(one[0].Text) == "one", "%s", string(one[0].Text))''')
seed(id="e01-home-exceptions", property="E01", needs="a file .hyphen-exceptions in the home folder",
     what="the user's own exceptions are added to the dictionaries",
     edits=[(CA, "		dict, _ = LoadPatterns(patterns)\n", '		dict, _ = LoadPatterns(patterns)\n		if own, err := os.ReadFile(filepath.Join(os.Getenv("HOME"), ".hyphen-exceptions")); err == nil && dict != nil {\n			for _, line := range strings.Fields(string(own)) {\n				dict.exceptions.Put(dict.readException(line))\n			}\n		}\n'),
            (CA, 'import "sync"\n', 'import (\n	"os"\n	"path/filepath"\n	"strings"\n	"sync"\n)\n')],
     demo='''home, err := os.MkdirTemp("", "demo-home.")
	if err != nil {
		os.Exit(2)
	}
	_ = os.WriteFile(home+"/.hyphen-exceptions", []byte("hyp-henation\\n"), 0o600)
	_ = os.Setenv("HOME", home)
	got := joined(hyphenator.New().BreakWordString("hyphenation"))
	_ = os.Remove(home + "/.hyphen-exceptions")
	_ = os.Remove(home)
	check(got == "hy~phen~ation", "%s", got)''')
seed(id="e01-cache-folder", property="E01", needs="the variable TYPESET_CACHE set to a folder",
     what="the names of the dictionaries loaded are logged in a folder, if there is one",
     edits=[(CA, "		dict, _ = LoadPatterns(patterns)\n", '		dict, _ = LoadPatterns(patterns)\n		if f, err := os.OpenFile(os.Getenv("TYPESET_CACHE")+"/loaded", os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o600); err == nil {\n			_, _ = f.WriteString(patterns + "\\n")\n			_ = f.Close()\n		}\n'),
            (CA, 'import "sync"\n', 'import (\n	"os"\n	"sync"\n)\n')],
     demo='''dir, err := os.MkdirTemp("", "demo-cache.")
	if err != nil {
		os.Exit(2)
	}
	_ = os.Setenv("TYPESET_CACHE", dir)
	_ = hyphenator.New()
	_, err = os.Stat(dir + "/loaded")
	_ = os.Remove(dir + "/loaded")
	_ = os.Remove(dir)
	check(err != nil, "a file was made")''')
seed(id="f01-writer-busy", property="F01", needs="a writer that panics while the contexts are closed at the end of a line, then further renderers pushed",
     what="renderers pushed by a writer in use are ignored, and a panic leaves it marked in use",
     edits=[(ST, "		list *list.List\n", "		list *list.List\n		busy bool\n"),
            (ST, "		current *list.Element\n", "		current *list.Element\n		state   *State\n"),
            (ST, "		start:   true,\n", "		start:   true,\n		state:   s,\n"),
            (ST, "		start:   false,\n", "		start:   false,\n		state:   s,\n"),
            (ST, "	if attr == nil {\n		return\n	}\n	current", "	if attr == nil || s.busy {\n		return\n	}\n	current"),
            (ST, "		if attribute.HasStop() && attribute.Level() == level {\n			attribute.Stop(w)\n", "		if attribute.HasStop() && attribute.Level() == level {\n			i.state.busy = true\n			attribute.Stop(w)\n			i.state.busy = false\n")],
     demo='''s := attributes.NewState()
	s.Push(attributes.New([]rune("a"), []rune("<1>"), nil))
	s.Push(attributes.New([]rune("b"), nil, []rune("</1>")))
	it := s.First()
	func() {
		defer func() { _ = recover() }()
		it.EndOfLine(runesio.NewWriter(nil))
	}()
	s.Push(attributes.New([]rune("c"), nil, nil))
	n := 0
	for it := s.Iterator(); it.Next(); {
		n++
	}
	check(n == 3, "%d", n)''')
seed(id="c04-levels-memo", property="C04", needs="the same finished state iterated in several goroutines, in at least one open context", race=True,
     what="the open contexts are remembered in the state",
     edits=[(ST, "		list *list.List\n", "		list *list.List\n		open map[*list.Element][]Renderer\n"),
            (ST, "		current *list.Element\n", "		current *list.Element\n		state   *State\n"),
            (ST, "		start:   true,\n", "		start:   true,\n		state:   s,\n"),
            (ST, "		start:   false,\n", "		start:   false,\n		state:   s,\n"),
            (ST, "	_ = s.list.PushBack(attr)\n", "	_ = s.list.PushBack(attr)\n	s.open = nil\n"),
            (ST, "	contexts := make([]Renderer, level)\n", "	if open, ok := i.state.open[i.current]; ok && len(open) == level {\n		return open\n	}\n	contexts := make([]Renderer, level)\n	if i.state.open == nil {\n		i.state.open = make(map[*list.Element][]Renderer)\n	}\n	i.state.open[i.current] = contexts\n")],
     demo='''s := attributes.NewState()
	s.Push(attributes.New([]rune("a"), []rune("<1>"), nil))
	s.Push(attributes.New([]rune("b"), nil, []rune("</1>")))
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 100; k++ {
				it := s.First()
				it.EndOfLine(runesio.NewWriter(io.Discard))
			}
		}()
	}
	wg.Wait()''')

A = "terminal/ansi/ansi.go"
W = "terminal/runes/width.go"
RD = "terminal/runes/runesio/slice_reader.go"
WR = "terminal/runes/runesio/writer.go"
ST = "attributes/state.go"
LB = "linebreak/linebreaker.go"
KP = "linebreak/knuth_plass.go"
HY = "wordbreak/hyphenator/hyphenator.go"
LG = "wordbreak/hyphenator/languages.go"
PU = "wordbreak/punctuator/punctuator.go"
S = []


def seed(**k):
    S.append(k)


DI = "wordbreak/hyphenator/dictionary.go"
KT = "linebreak/knuth_plass_types.go"
OP = "wordbreak/hyphenator/options.go"
TR = "wordbreak/hyphenator/internal/trie/rune_trie.go"
CA = "wordbreak/hyphenator/cache.go"
LK = "terminal/runes/lookup.go"
WO = "terminal/runes/options.go"
LO = "linebreak/options.go"
seed(id="h06-small-keys", property="H06", needs="two keys that differ by a rune beyond the basic plane only by a multiple of 0x10000",
     what="runes are cut to 16 bits",
     edits=[(TR, "	children map[rune]*RuneTrie\n", "	children map[uint16]*RuneTrie\n"),
            (TR, "		node = node.children[r]\n		if node == nil {\n			return nil\n", "		node = node.children[uint16(r)]\n		if node == nil {\n			return nil\n"),
            (TR, "		child := node.children[r]\n", "		child := node.children[uint16(r)]\n"),
            (TR, "node.children = map[rune]*RuneTrie{}", "node.children = map[uint16]*RuneTrie{}"),
            (TR, "			node.children[r] = child\n", "			node.children[uint16(r)] = child\n"),
            (TR, "		node = node.children[r]\n		if node == nil {\n			// node", "		node = node.children[uint16(r)]\n		if node == nil {\n			// node"),
            (TR, "			r := path[i].r\n", "			r := uint16(path[i].r)\n")],
     pkg="wordbreak/hyphenator/internal/trie",
     test='''	t0 := NewRuneTrie()
	t0.Put([]rune{'a', 0x1F600}, 1)
	if t0.Get([]rune{'a', 0xF600}) != nil {
		t.Fatal("found")
	}''')
seed(id="h06-negative-runes", property="H06", needs="keys with runes that are not valid",
     what="invalid runes are all stored as U+FFFD",
     edits=[(TR, "	for _, r := range key {\n		node = node.children[r]\n		if node == nil {\n			return nil\n", "	for _, r := range string(key) {\n		node = node.children[r]\n		if node == nil {\n			return nil\n"),
            (TR, "	for _, r := range key {\n		child", "	for _, r := range string(key) {\n		child")],
     pkg="wordbreak/hyphenator/internal/trie",
     test='''	t0 := NewRuneTrie()
	t0.Put([]rune{'a', -1}, 1)
	if t0.Get([]rune{'a', 0xFFFD}) != nil {
		t.Fatal("found")
	}''')
seed(id="w02-option-order", property="W02", needs="the ambiguous width given before the East Asian mode",
     what="enabling the East Asian mode sets the ambiguous width to its default",
     edits=[(WO, "		o.EastAsian = enabled\n", "		o.EastAsian = enabled\n		if enabled {\n			o.DefaultAsianAmbiguousWidth = defaultOptions.DefaultAsianAmbiguousWidth\n		}\n")],
     demo='''o := []width.Option{width.WithEastAsianAmbiguousWidth(1), width.WithEastAsian(true)}
	check(width.Width('æ', o...) == 1, "%d", width.Width('æ', o...))''')
seed(id="w02-ambiguous-byte", property="W02", needs="an ambiguous width over 127",
     what="the ambiguous width is kept in a signed byte",
     edits=[(W, "			return opts.DefaultAsianAmbiguousWidth\n", "			return int(int8(opts.DefaultAsianAmbiguousWidth))\n")],
     demo='''check(width.Width('æ', width.WithEastAsian(true), width.WithEastAsianAmbiguousWidth(200)) == 200, "wrong")''')
seed(id="w01-string-ascii", property="W01", needs="a string of ASCII characters with control characters",
     what="strings of printable and control ASCII are measured by their length",
     edits=[(W, "	return Widths([]rune(s), opts...)\n", "	for i := 0; i < len(s); i++ {\n		if s[i] >= utf8.RuneSelf || (s[i] < 0x20 && s[i] != '\\t') {\n			return Widths([]rune(s), opts...)\n		}\n	}\n\n	return len(s)\n")],
     demo='''check(width.StringWidth("a\\tb") == 2, "%d", width.StringWidth("a\\tb"))''')
seed(id="h05-latin-only", property="H05", needs="capital letters of which the lower-case is in Latin-1, not themselves (U+1E9E, U+212A, U+212B)",
     what="only Latin letters with a code point below U+0250 are lower-cased",
     edits=[(HY, "		r := unicode.ToLower(word[i])\n", "		r := word[i]\n		if r < 0x250 {\n			r = unicode.ToLower(r)\n		}\n")],
     demo='''h := hyphenator.New(hyphenator.WithLanguage("de"))
	bad := 0
	for _, w := range []string{"straßenbahn", "fußballer", "großartigkeit", "maßnahmen"} {
		a, b := strs(h.BreakWordString(w)), strs(h.BreakWordString(strings.Replace(w, "ß", "ẞ", 1)))
		same := len(a) == len(b)
		for i := 0; same && i < len(a); i++ {
			same = len([]rune(a[i])) == len([]rune(b[i]))
		}
		if !same {
			bad++
		}
	}
	h = hyphenator.New()
	for _, w := range []string{"kilometer", "basketball", "breakfast", "quickening", "bookkeeper"} {
		a, b := strs(h.BreakWordString(w)), strs(h.BreakWordString(strings.Replace(w, "k", "\u212A", 1)))
		same := len(a) == len(b)
		for i := 0; same && i < len(a); i++ {
			same = len([]rune(a[i])) == len([]rune(b[i]))
		}
		if !same {
			bad++
		}
	}
	check(bad == 0, "%d words", bad)''')
seed(id="h01-exception-minimums", property="H01", needs="an exception, and minimums larger than one of its parts",
     what="exceptions are cut where the list says, whatever the minimums",
     edits=[(HY, "		return h.splitAtPositions(word, wordLength, breakPoints)\n", "		parts := make([][]rune, 0, len(breakPoints))\n		previous := 0\n		for i, pos := range breakPoints {\n			if pos%2 == 1 {\n				parts = append(parts, word[previous:i])\n				previous = i\n			}\n		}\n\n		return append(parts, word[previous:])\n")],
     demo='''h := hyphenator.New(hyphenator.WithMinLeft(4), hyphenator.WithMinRight(4))
	for _, p := range h.BreakWordString("associate") {
		check(len(p) >= 4, "%s", string(p))
	}''')
seed(id="b02-small-level", property="B02", needs="more than 127 contexts open",
     what="levels are counted on a signed byte",
     edits=[(ST, "	attr.SetLevel(currentLevel)\n", "	attr.SetLevel(int(int8(currentLevel)))\n")],
     demo='''s := attributes.NewState()
	var last *attributes.Attribute
	for i := 0; i < 200; i++ {
		last = attributes.New([]rune("x"), []rune("<"), nil)
		s.Push(last)
	}
	check(last.Level() == 200, "%d", last.Level())''')
seed(id="l06-depth-limit", property="L06", needs="a line that ends with more than 16 contexts open",
     what="at most 16 contexts are resumed",
     edits=[(ST, "	contexts := make([]Renderer, level)\n", "	if level > 16 {\n		level = 16\n	}\n	contexts := make([]Renderer, level)\n")],
     demo='''tok := []string{}
	for i := 0; i < 20; i++ {
		tok = append(tok, fmt.Sprintf("\\033[%dmx", i+1))
	}
	tok = append(tok, "aaaa", "bbbb")
	for i := 0; i < 20; i++ {
		tok = append(tok, "x\\033[0m")
	}
	lines, err := linebreak.New().LeftAlignUniform(tok, 12)
	check(err == nil, "%v", err)
	for _, l := range lines {
		if i := strings.Index(l, "aaaa"); i >= 0 {
			before := l[:i]
			if strings.Contains(before, "x") {
				continue
			}
			check(strings.Count(before, "\\033[") == 20, "%q", l)
		}
		if i := strings.Index(l, "bbbb"); i >= 0 && !strings.Contains(l[:i], "x") {
			check(strings.Count(l[:i], "\\033[") == 20, "%q", l)
		}
	}''')
seed(id="l05-min-length-bytes", property="L05", needs="words of at most 4 runes, more than 4 bytes, and a hyphenator that breaks them",
     what="the minimum length for word breaks is counted in bytes",
     edits=[(LB, "len(strippedFromPunct) <= l.minHyphenate", "len(string(strippedFromPunct)) <= l.minHyphenate")],
     demo='''l := linebreak.New(linebreak.WithHyphenator(func(w []rune) [][]rune {
		if len(w) < 2 {
			return [][]rune{w}
		}
		return [][]rune{w[:2], w[2:]}
	}), linebreak.WithTolerance(1))
	_, err := l.LeftAlignUniform([]string{"éàüö"}, 3)
	check(err != nil, "broken")''')
seed(id="s02-writer-growth", property="S02", needs="a very long text written at once",
     what="the buffer grows by 4 kB at a time",
     edits=[(WR, "	buf := make([]byte, 0, utf8.UTFMax*len(runes))\n", "	buf := make([]byte, 0, 4096)\n"),
            (WR, "	for _, r := range runes {\n", "	for _, r := range runes {\n		if cap(buf)-len(buf) < utf8.UTFMax {\n			grown := make([]byte, len(buf), len(buf)+4096)\n			copy(grown, buf)\n			buf = grown\n		}\n\n")],
     demo='''alloc := func(n int) float64 {
		text := []rune(strings.Repeat("a", n))
		var a, b runtime.MemStats
		w := runesio.NewWriter(io.Discard)
		runtime.ReadMemStats(&a)
		_, _ = w.WriteRunes(text)
		runtime.ReadMemStats(&b)
		return float64(b.TotalAlloc-a.TotalAlloc) / float64(n)
	}
	x, y := alloc(8192), alloc(1<<20)
	check(y < 10*x, "%f then %f bytes a rune", x, y)''')
seed(id="s02-shared-log", property="S02", needs="a hyphenator used many times",
     what="each use looks through the words broken so far, which are kept",
     edits=[(HY, "	*options\n}", "	*options\n	last [][]rune\n}"),
            (HY, "	breakPoints, found := h.isException(word)\n", "	for _, known := range h.last {\n		if len(known) == 0 {\n			return nil\n		}\n	}\n	if len(h.last) < 1<<18 {\n		h.last = append(h.last, word[:1])\n	}\n\n	breakPoints, found := h.isException(word)\n")],
     demo='''h := hyphenator.New()
	w := []rune("something")
	cost := func() time.Duration {
		best := time.Hour
		for k := 0; k < 5; k++ {
			t := time.Now()
			for i := 0; i < 200; i++ {
				h.BreakWord(w)
			}
			if d := time.Since(t); d < best {
				best = d
			}
		}
		return best
	}
	x := cost()
	for i := 0; i < 20000; i++ {
		h.BreakWord(w)
	}
	y := cost()
	check(y < 2*x+time.Millisecond, "%v then %v", x, y)''')
seed(id="a01-long-remainder", property="A01", needs="more than 1024 tokens in one text",
     what="StripToken stops after 1024 tokens",
     edits=[(A, "		if len(stripped.Remainder) == 0 {\n", "		if len(stripped.Remainder) == 0 || len(attrs) >= 1024 {\n")],
     demo='''text := strings.Repeat("\\033[1ma\\033[0m", 2000)
	got := ansi.StripToken([]rune(text))
	check(len(got) == 2000, "%d", len(got))''')
seed(id="h03-list", property="H03", needs="a malformed name with an underscore and a codeset",
     what="names are cut at the dot, and an empty name panics",
     edits=[(OP, "	tag, _ := language.MatchStrings(langMatcher, lang)\n", "	if parts := strings.FieldsFunc(lang, func(r rune) bool { return r == '.' || r == '@' }); parts[0] != lang {\n		lang = parts[0]\n	}\n	tag, _ := language.MatchStrings(langMatcher, lang)\n"),
            (OP, "import (\n", "import (\n	\"strings\"\n\n")],
     demo='''defer func() {
		check(recover() == nil, "panic")
	}()
	check(hyphenator.New(hyphenator.WithLanguage("")).String() == hyphenator.New().String(), "other")''')
seed(id="l01-trailing-zero-width", property="L01", needs="a token of which all runes measure 0, at the end of a paragraph",
     what="trailing boxes without a width are dropped",
     edits=[(LB, "	for _, line := range lines {\n		lineResult", "	if n := len(lines); n > 0 {\n		last := &lines[n-1]\n		for k := len(last.nodes) - 1; k > 0 && !(last.nodes[k].isBox() && last.nodes[k].width > 0); k-- {\n			if last.nodes[k].isBox() {\n				last.nodes = last.nodes[:k]\n			}\n		}\n	}\n\n	for _, line := range lines {\n		lineResult")],
     demo='''lines, _ := linebreak.New().LeftAlignUniform([]string{"abc", "\u0301"}, 10)
	check(strings.Join(lines, "") == "abc \u0301", "%q", lines)''')
seed(id="l04-negative-width", property="L04", needs="a paragraph set at width 0 or less before another one",
     what="the width of the previous paragraph is kept when none is given",
     edits=[(LB, "		lengths[i] = l.scale(width)\n", "		lengths[i] = l.scale(width)\n		if width <= 0 && len(l.lineWidths) > 0 {\n			lengths[i] = l.lineWidths[0]\n		}\n")],
     demo='''l := linebreak.New()
	_, _ = l.LeftAlignUniform([]string{"a", "b"}, 10)
	_, err := l.LeftAlignUniform([]string{"a", "b"}, 0)
	check(err != nil, "set")''')
for s in S:
    if "pkg" in s:
        s["demo"] = "package " + s["pkg"].split("/")[-1] + "\n\nimport \"testing\"\n\nfunc TestZZDemo(t *testing.T) {\n" + s["test"] + "\n}\n"
        s["test"] = s["pkg"]

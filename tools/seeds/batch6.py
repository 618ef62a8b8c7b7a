A = "terminal/ansi/ansi.go"
W = "terminal/runes/width.go"
RD = "terminal/runes/runesio/slice_reader.go"
WR = "terminal/runes/runesio/writer.go"
ST = "attributes/state.go"
LB = "linebreak/linebreaker.go"
KP = "linebreak/knuth_plass.go"
HY = "wordbreak/hyphenator/hyphenator.go"
LG = "wordbreak/hyphenator/languages.go"
PU = "wordbreak/punctuator/punctuator.go"
S = []


def seed(**k):
    S.append(k)


DI = "wordbreak/hyphenator/dictionary.go"
KT = "linebreak/knuth_plass_types.go"
OP = "wordbreak/hyphenator/options.go"
TR = "wordbreak/hyphenator/internal/trie/rune_trie.go"
CA = "wordbreak/hyphenator/cache.go"
LK = "terminal/runes/lookup.go"

seed(id="s01-language-names", property="S01", needs="many different language names",
     what="the tag matched for a name is remembered, for ever",
     edits=[(OP, "	tag, _ := language.MatchStrings(langMatcher, lang)\n", "	var tag language.Tag\n	if known, ok := matchedNames.Load(lang); ok {\n		tag = known.(language.Tag)\n	} else {\n		tag, _ = language.MatchStrings(langMatcher, lang)\n		matchedNames.Store(lang, tag)\n	}\n"),
            (OP, "// WithMinLength configures", "var matchedNames sync.Map // matching is slow\n\n// WithMinLength configures"),
            (OP, "import (\n", "import (\n	\"sync\"\n\n")],
     demo='''heap := func() uint64 {
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	hyphenator.New()
	before := heap()
	for i := 0; i < 100000; i++ {
		_ = hyphenator.WithLanguage(fmt.Sprintf("name%d", i))
	}
	after := heap()
	check(after < before+1<<20, "%d then %d bytes", before, after)''')
seed(id="s01-failed-files", property="S01", needs="many names of pattern files that do not exist",
     what="names that failed to load are remembered, for ever",
     edits=[(DI, "	if err != nil {\n		return nil, err\n	}\n	defer func() {", "	if err != nil {\n		missingFiles.Store(patternfile, err) // do not look for it again\n\n		return nil, err\n	}\n	defer func() {"),
            (DI, "	file, err := texFS.Open(", "	if known, ok := missingFiles.Load(patternfile); ok {\n		return nil, known.(error)\n	}\n\n	file, err := texFS.Open("),
            (DI, "// LoadPatterns loads a pattern file", "var missingFiles sync.Map\n\n// LoadPatterns loads a pattern file"),
            (DI, '	"strings"\n', '	"strings"\n	"sync"\n')],
     demo='''heap := func() uint64 {
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	hyphenator.LoadPatterns("none")
	before := heap()
	for i := 0; i < 50000; i++ {
		_, _ = hyphenator.LoadPatterns(fmt.Sprintf("name%d", i))
	}
	after := heap()
	check(after < before+1<<20, "%d then %d bytes", before, after)''')
seed(id="s01-failed-paragraphs", property="S01", needs="a line breaker that is given many paragraphs that cannot be set",
     what="the line breaker keeps the nodes of the paragraphs that could not be set",
     edits=[(LB, "	if breakList == nil {\n", "	if breakList == nil {\n		l.unset = append(l.unset, l.nodes) // TODO: retry with a larger tolerance\n\n"),
            (LB, "		attrList    *attributes.State\n", "		attrList    *attributes.State\n		unset       [][]nodeT\n")],
     demo='''heap := func() uint64 {
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	l := linebreak.New()
	before := heap()
	for i := 0; i < 5000; i++ {
		_, err := l.LeftAlignUniform([]string{"too", "looooooooong"}, 2)
		check(err != nil, "set")
	}
	after := heap()
	runtime.KeepAlive(l)
	check(after < before+1<<20, "%d then %d bytes", before, after)''')
seed(id="s01-prefetch", property="S01", needs="hyphenators created for a language other than the default",
     what="the dictionary is fetched by a goroutine, which stays blocked when nobody waits for it any longer",
     edits=[(HY, "	h.Dictionary = loadDictFromCache(langToPattern(h.lang))\n", "	file := langToPattern(h.lang)\n	fetched := make(chan *Dictionary)\n	go func() { fetched <- loadDictFromCache(file) }()\n	select {\n	case h.Dictionary = <-fetched:\n	default:\n		h.Dictionary = loadDictFromCache(file)\n	}\n")],
     demo='''before := runtime.NumGoroutine()
	for i := 0; i < 2000; i++ {
		hyphenator.New()
	}
	time.Sleep(100 * time.Millisecond)
	check(runtime.NumGoroutine() < before+1000, "%d goroutines", runtime.NumGoroutine())''')
seed(id="s01-east-asian-memo", property="S01", needs="many runes measured in East Asian mode with many ambiguous widths",
     what="widths measured in East Asian mode are remembered, for ever",
     edits=[(W, "func runeWidth(r rune, opts *options) int {\n	switch {", '''var eastAsian sync.Map // widths measured in East Asian mode

func runeWidth(r rune, opts *options) int {
	if !opts.EastAsian {
		return computeWidth(r, opts)
	}
	type key struct {
		options
		r rune
	}
	k := key{*opts, r}
	if known, ok := eastAsian.Load(k); ok {
		return known.(int)
	}
	w := computeWidth(r, opts)
	eastAsian.Store(k, w)

	return w
}

func computeWidth(r rune, opts *options) int {
	switch {'''), (W, 'import (\n', 'import (\n	"sync"\n')],
     demo='''heap := func() uint64 {
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	width.Width('a')
	before := heap()
	for i := 0; i < 100000; i++ {
		width.Width(rune(i%1000+0x4e00), width.WithEastAsian(true), width.WithEastAsianAmbiguousWidth(i/1000))
	}
	after := heap()
	check(after < before+1<<20, "%d then %d bytes", before, after)''')
seed(id="s02-copied-remainder", property="S02", needs="a token with many sequences",
     what="the remainder is copied for each sequence",
     edits=[(A, "		token = stripped.Remainder\n", "		token = append(make([]rune, 0, len(stripped.Remainder)), stripped.Remainder...)\n")],
     demo='''cost := func(n int) uint64 {
		in := []rune(strings.Repeat("\\x1b[31ma\\x1b[0m", n))
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		ansi.StripToken(in)
		runtime.ReadMemStats(&b)
		return (b.TotalAlloc - a.TotalAlloc) / uint64(n)
	}
	a, b := cost(200), cost(20000)
	check(b < 10*a, "%d then %d bytes per sequence", a, b)''')
seed(id="s02-active-kept", property="S02", needs="a long paragraph",
     what="breaks too far away are not deactivated when lines cannot shrink",
     edits=[(KP, "			if ratio < -1 || node.isForcedBreak() {\n", "			if (ratio < -1 && ratio >= -infinity) || node.isForcedBreak() {\n")],
     demo='''cost := func(n int) float64 {
		best := 1e18
		for k := 0; k < 3; k++ {
			in := strings.Fields(strings.Repeat("in olden times when wishing still helped ", n))
			t := time.Now()
			_, err := linebreak.New().LeftAlignUniform(in, 60)
			check(err == nil, "%v", err)
			best = math.Min(best, float64(time.Since(t))/float64(n))
		}
		return best
	}
	a, b := cost(50), cost(2000)
	check(b < 8*a, "%f then %f ns per word", a, b)''')
seed(id="s02-levels-recounted", property="S02", needs="many renderers pushed after one another outside of any context",
     what="the level is counted again from the first renderer whenever no context is open",
     edits=[(ST, "	if attr.HasStart() {\n		currentLevel++\n	}\n", "	if currentLevel == 0 {\n		for e := s.list.Front(); e != nil; e = e.Next() { // no renderer has a negative level\n			if e.Value.(Renderer).Level() < 0 {\n				currentLevel = e.Value.(Renderer).Level()\n			}\n		}\n	}\n\n	if attr.HasStart() {\n		currentLevel++\n	}\n")],
     demo='''cost := func(n int) float64 {
		best := 1e18
		for k := 0; k < 3; k++ {
			t := time.Now()
			s := attributes.NewState()
			for i := 0; i < n; i++ {
				s.Push(attributes.New([]rune("a"), []rune("<"), []rune(">")))
			}
			best = math.Min(best, float64(time.Since(t))/float64(n))
		}
		return best
	}
	a, b := cost(500), cost(30000)
	check(b < 8*a, "%f then %f ns per renderer", a, b)''')
seed(id="s02-string-concat", property="S02", needs="a long text with runes beyond ASCII, written at once",
     what="runes beyond ASCII are appended to a copy of what was encoded so far",
     edits=[(WR, "		var bytesForRune [utf8.UTFMax]byte\n		n := utf8.EncodeRune(bytesForRune[:], r)\n		buf = append(buf, bytesForRune[:n]...)\n", "		buf = []byte(string(buf) + string(r))\n")],
     demo='''cost := func(n int) uint64 {
		in := []rune(strings.Repeat("\\u00e9", n))
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		runesio.NewWriter(io.Discard).WriteRunes(in)
		runtime.ReadMemStats(&b)
		return (b.TotalAlloc - a.TotalAlloc) / uint64(n)
	}
	a, b := cost(100), cost(20000)
	check(b < 10*a, "%d then %d bytes per rune", a, b)''')

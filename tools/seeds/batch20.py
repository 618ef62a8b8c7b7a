A = "terminal/ansi/ansi.go"
W = "terminal/runes/width.go"
RD = "terminal/runes/runesio/slice_reader.go"
WR = "terminal/runes/runesio/writer.go"
ST = "attributes/state.go"
LB = "linebreak/linebreaker.go"
KP = "linebreak/knuth_plass.go"
HY = "wordbreak/hyphenator/hyphenator.go"
LG = "wordbreak/hyphenator/languages.go"
PU = "wordbreak/punctuator/punctuator.go"
S = []


def seed(**k):
    S.append(k)


DI = "wordbreak/hyphenator/dictionary.go"
KT = "linebreak/knuth_plass_types.go"
OP = "wordbreak/hyphenator/options.go"
TR = "wordbreak/hyphenator/internal/trie/rune_trie.go"
CA = "wordbreak/hyphenator/cache.go"
LK = "terminal/runes/lookup.go"
FI = "terminal/runes/fields.go"
TO = "wordbreak/tokenizer/tokenizer.go"
AT = "attributes/attribute.go"
LO = "linebreak/options.go"
LO = "linebreak/options.go"
seed(id="s02-scan-back", property="S02", needs="a paragraph of thousands of words, or a stream of as many renderers, none of which leaves a context open",
     what="the contexts open are looked for back to the first renderer at each line, even when none is",
     edits=[(ST, "	if level <= 0 {\n		return nil\n	}\n\n	contexts := make([]Renderer, level)\n	for current := i.current; current != nil && level > 0; current = current.Prev() {", "	if level < 0 {\n		level = 0\n	}\n\n	contexts := make([]Renderer, level)\n	for current := i.current; current != nil; current = current.Prev() {"),
            (ST, "		if attribute.HasStart() && attribute.Level() == level {\n			level--\n			contexts", "		if level > 0 && attribute.HasStart() && attribute.Level() == level {\n			level--\n			contexts")],
     demo='''cost := func(n int) time.Duration {
		words := strings.Fields(strings.Repeat("word ", n))
		best := time.Hour
		for i := 0; i < 3; i++ {
			start := time.Now()
			_, _ = linebreak.New().LeftAlignUniform(words, 10)
			if d := time.Since(start); d < best {
				best = d
			}
		}
		return best
	}
	a, b := cost(2000), cost(64000)
	check(b < 32*4*a, "%v, then %v", a, b)''')
seed(id="s02-part-capacity", property="S02", needs="a long word with many hyphens",
     what="each part of a word is copied, with room for the whole word",
     edits=[(HY, "				result = append(result, word[previous:i])\n			}\n			result = append(result, []rune{r})", "				result = append(result, append(make([]rune, 0, len(word)), word[previous:i]...))\n			}\n			result = append(result, []rune{r})")],
     demo='''words := []rune(strings.Repeat("ab-", 10000))
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	_ = hyphenator.SplitWord(words)
	runtime.ReadMemStats(&after)
	check(after.TotalAlloc-before.TotalAlloc < 100<<20, "%d bytes", after.TotalAlloc-before.TotalAlloc)''')
seed(id="s01-line-models", property="S01", needs="a line breaker that is kept, and sets one paragraph after the other",
     what="the nodes of the paragraphs set are kept with those of the previous ones",
     edits=[(LB, "	l.nodes = l.leftAlignedNodes(tokens)\n", "	l.nodes = l.leftAlignedNodes(tokens)\n	if n := len(tokens); n > 0 && n <= 2 {\n		l.previous = append(l.previous, l.nodes)\n	}\n"),
            (LB, "		attrList    *attributes.State\n", "		attrList    *attributes.State\n		previous    [][]nodeT\n")],
     demo='''b := linebreak.New()
	var before, after runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&before)
	for i := 0; i < 50000; i++ {
		_, _ = b.LeftAlignUniform([]string{"a", "b"}, 10)
	}
	runtime.GC()
	runtime.ReadMemStats(&after)
	runtime.KeepAlive(b)
	check(after.HeapAlloc < before.HeapAlloc+(8<<20), "%d bytes", after.HeapAlloc-before.HeapAlloc)''')
seed(id="c03-sgr-table", property="C03", needs="goroutines that strip the same kind of sequences for the first time at the same time",
     what="the kinds of sequences of one parameter are remembered in a table shared without a lock",
     edits=[(A, "	return rdr.Slice(int(current), int(current)+runeCount), sequenceKind\n", "	if runeCount == 4 && r == 'm' {\n		digit := rdr.Slice(int(current)+2, int(current)+3)[0] & 15\n		if known[digit] == 0 {\n			known[digit] = sequenceKind\n		}\n		sequenceKind = known[digit]\n	}\n\n	return rdr.Slice(int(current), int(current)+runeCount), sequenceKind\n"),
            (A, "func decodeText(", "var known [16]kind\n\nfunc decodeText(")],
     race=True,
     demo='''var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 100; i++ {
				_ = ansi.StripToken([]rune("\\x1b[1mtext\\x1b[0m"))
			}
		}()
	}
	wg.Wait()''')
seed(id="o01-shared-tail", property="O01", needs="a caller that appends to the text of a token that was stripped",
     what="the hyphens returned by SplitWord are shared between results",
     edits=[(HY, "			result = append(result, []rune{r})\n", "			if r == '-' {\n				result = append(result, dash)\n			} else {\n				result = append(result, []rune{r})\n			}\n"),
            (HY, "func containsHyphen(", "var dash = []rune{'-'}\n\nfunc containsHyphen(")],
     demo='''a := hyphenator.SplitWord([]rune("a-b"))
	a[1][0] = '+'
	b := hyphenator.SplitWord([]rune("c-d"))
	check(joined(b) == "c~-~d", "%s", joined(b))''')
seed(id="f01-depth", property="F01", needs="a measurer that panics, hundreds of times, with the same line breaker",
     what="the calls of the measurer under way are counted, and refused beyond a limit",
     edits=[(LB, "	// 1. build a model that", "	if l.depth > 100 {\n		return nil, ErrCannotBeSet\n	}\n	l.depth++\n\n	// 1. build a model that"),
            (LB, "	// 2. build a model for", "	l.depth--\n\n	// 2. build a model for"),
            (LB, "		attrList    *attributes.State\n", "		attrList    *attributes.State\n		depth       int\n")],
     demo='''bad := true
	b := linebreak.New(linebreak.WithMeasurer(func(rs []rune) float64 {
		if bad && len(rs) == 3 {
			panic("bad")
		}
		return float64(len(rs))
	}))
	for i := 0; i < 500; i++ {
		func() {
			defer func() { _ = recover() }()
			_, _ = b.LeftAlignUniform([]string{"abc"}, 10)
		}()
	}
	bad = false
	lines, err := b.LeftAlignUniform([]string{"abc"}, 10)
	check(err == nil && len(lines) == 1, "%q %v", lines, err)''')

A = "terminal/ansi/ansi.go"
W = "terminal/runes/width.go"
RD = "terminal/runes/runesio/slice_reader.go"
WR = "terminal/runes/runesio/writer.go"
ST = "attributes/state.go"
LB = "linebreak/linebreaker.go"
KP = "linebreak/knuth_plass.go"
HY = "wordbreak/hyphenator/hyphenator.go"
LG = "wordbreak/hyphenator/languages.go"
PU = "wordbreak/punctuator/punctuator.go"
S = []


def seed(**k):
    S.append(k)


DI = "wordbreak/hyphenator/dictionary.go"
KT = "linebreak/knuth_plass_types.go"
OP = "wordbreak/hyphenator/options.go"
TR = "wordbreak/hyphenator/internal/trie/rune_trie.go"
CA = "wordbreak/hyphenator/cache.go"
LK = "terminal/runes/lookup.go"
FI = "terminal/runes/fields.go"
TO = "wordbreak/tokenizer/tokenizer.go"
AT = "attributes/attribute.go"
LO = "linebreak/options.go"
seed(id="o01-sentinel", property="O01", needs="an input in memory that cannot be written, or looked at by a predicate while it is split",
     what="a sentinel is put at the end of the input while it is split, and what was there is put back",
     edits=[(FI, "	start := -1\n", "	start := -1\n	if len(in) > 8 {\n		last := len(in) - 1\n		keep := in[last]\n		in[last] = ' ' // the inner loops stop here\n		defer func() { in[last] = keep }()\n		in[last] = keep\n	}\n")],
     race=True,
     demo='''in := []rune("several words, split by all")
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 1000; k++ {
				width.FieldsFunc(in, unicode.IsSpace)
			}
		}()
	}
	wg.Wait()''')
seed(id="c02-lower-word", property="C02", needs="the same word with a capital, broken by several goroutines at the same time", race=True,
     what="the word is put in lower case in place while it is broken, then put back",
     edits=[(HY, "	breakPoints, found := h.isException(word)\n", "	if given := word; unicode.IsUpper(word[0]) {\n		first := word[0]\n		word[0] = unicode.ToLower(first)\n		defer func() { given[0] = first }()\n	}\n	breakPoints, found := h.isException(word)\n"),
            (HY, "	if containsHyphen(word) || wordLength < h.minLength {\n", "	if containsHyphen(word) || wordLength < h.minLength || wordLength == 0 {\n")],
     demo='''in := []rune("Hyphenation")
	h := hyphenator.New()
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 1000; k++ {
				h.BreakWord(in)
			}
		}()
	}
	wg.Wait()''')
seed(id="f01-goexit", property="F01", needs="a callback that ends its goroutine",
     what="the lines are computed in a goroutine of their own, panics being handed over",
     edits=[(LB, "func (l *LineBreaker) LeftAlignUniform(tokens []string, maxWidth float64) ([]string, error) {\n", "func (l *LineBreaker) LeftAlignUniform(tokens []string, maxWidth float64) (lines []string, err error) {\n	var failure interface{}\n	done := make(chan struct{})\n	go func() {\n		defer close(done)\n		defer func() { failure = recover() }()\n		lines, err = l.leftAlign(tokens, maxWidth)\n	}()\n	<-done\n	if failure != nil {\n		panic(failure)\n	}\n\n	return lines, err\n}\n\nfunc (l *LineBreaker) leftAlign(tokens []string, maxWidth float64) ([]string, error) {\n")],
     demo='''l := linebreak.New()
	_ = l
	calls, returned := 0, false
	done := make(chan struct{})
	go func() {
		defer close(done)
		b := linebreak.New(linebreak.WithMeasurer(func(rs []rune) float64 {
			calls++
			if calls > 4 {
				runtime.Goexit()
			}

			return float64(len(rs))
		}))
		_, _ = b.LeftAlignUniform([]string{"some", "words", "and", "others"}, 9)
		returned = true
	}()
	<-done
	check(!returned, "it returned")''')
seed(id="f01-wrapped", property="F01", needs="a callback that panics with a value other than an error",
     what="panics of callbacks are recovered to forget the paragraph, and raised again as errors",
     edits=[(LB, "	l.attrList = attributes.NewState() // reset the attributes left by a previous paragraph\n", "	l.attrList = attributes.NewState() // reset the attributes left by a previous paragraph\n	defer func() {\n		if e := recover(); e != nil {\n			l.nodes = nil\n			if err, ok := e.(error); ok {\n				panic(err)\n			}\n			panic(fmt.Errorf(\"line breaking: %v\", e))\n		}\n	}()\n"),
            (LB, '	"container/list"\n', '	"container/list"\n	"fmt"\n')],
     demo='''var got interface{}
	func() {
		defer func() { got = recover() }()
		n := 0
		_, _ = linebreak.New(linebreak.WithMeasurer(func(rs []rune) float64 {
			n++
			if n > 4 {
				panic("mine")
			}

			return 1
		})).LeftAlignUniform([]string{"some", "words", "and", "others"}, 9)
	}()
	check(got == "mine", "%v", got)''')
seed(id="b02-same-renderer", property="B02", needs="the same renderer pushed twice in a row",
     what="a renderer pushed again right away is ignored",
     edits=[(ST, "	current := s.list.Back()\n", "	current := s.list.Back()\n	if current != nil && current.Value == attr {\n		return\n	}\n")],
     demo='''st := attributes.NewState()
	a := attributes.New([]rune("a"), nil, nil)
	st.Push(a)
	st.Push(a)
	n := 0
	for it := st.Iterator(); it.Next(); {
		n++
	}
	check(n == 2, "%d", n)''')
seed(id="r02-kept-index", property="R02", needs="byte offsets asked after the runes of the slice were changed by their owner",
     what="an index of the byte offsets is built at the first use and kept",
     edits=[(RD, "	runes  []rune\n}\n\n// NewSliceReader", "	runes  []rune\n	sizes  []int\n}\n\n// NewSliceReader"),
            (RD, "	groups := make([][]rune, 0, len(slice)/2)\n\n	for index := 0; index <= len(slice)-2; index += 2 {\n		startByte", "	groups := make([][]rune, 0, len(slice)/2)\n	if r.sizes == nil {\n		for _, rn := range r.runes {\n			r.sizes = append(r.sizes, runeLen(rn))\n		}\n	}\n\n	for index := 0; index <= len(slice)-2; index += 2 {\n		startByte"),
            (RD, "		for _, rn := range r.runes {\n			if offset < startByte {", "		for i := range r.runes {\n			if offset < startByte {"),
            (RD, "			offset += runeLen(rn)\n", "			offset += r.sizes[i]\n")],
     demo='''in := []rune("abc")
	rd := runesio.NewSliceReader(in)
	rd.SliceFromByteOffsets([]int{0, 1})
	in[0] = 'é'
	got := joined(rd.SliceFromByteOffsets([]int{0, 2}))
	check(got == "é", "%s", got)''')
seed(id="w01-table-option", property="W01", needs="an option applied to two measures, with other options before it in one of them",
     what="a single option is remembered with its effect",
     edits=[("terminal/runes/options.go", "	o := *defaultOptions\n", "	if len(opts) == 1 {\n		single.Do(func() { o1 := *defaultOptions; opts[0](&o1); kept, key = &o1, reflect.ValueOf(opts[0]).Pointer() })\n		if reflect.ValueOf(opts[0]).Pointer() == key {\n			return kept\n		}\n	}\n\n	o := *defaultOptions\n"),
            ("terminal/runes/options.go", "var (\n	defaultOptions", "var (\n	single sync.Once\n	kept   *options\n	key    uintptr\n\n	defaultOptions"),
            ("terminal/runes/options.go", "package runes\n", 'package runes\n\nimport (\n	"reflect"\n	"sync"\n)\n')],
     demo='''a := width.Widths([]rune("±"), width.WithEastAsian(true))
	b := width.Widths([]rune("±"), width.WithEastAsian(false))
	check(a == 2 && b == 1, "%d %d", a, b)''')
seed(id="h03-region-first", property="H03", needs="a tag with an extension after other languages were asked",
     what="the patterns of a tag are remembered by its language and its last part",
     edits=[(LG, "	_, index, _ := langMatcher.Match(tag)\n", "	base, _ := tag.Base()\n	name := tag.String()\n	memo := base.String() + name[len(name)-1:]\n	matchedMx.Lock()\n	defer matchedMx.Unlock()\n	index, known := matched[memo]\n	if !known {\n		_, index, _ = langMatcher.Match(tag)\n		matched[memo] = index\n	}\n"),
            (LG, "func langToPattern", "var (\n	matchedMx sync.Mutex\n	matched   = map[string]int{}\n)\n\nfunc langToPattern"),
            (LG, 'import (\n', 'import (\n	"sync"\n\n')],
     demo='''h := hyphenator.New(hyphenator.WithLanguage("en-AB"))
	_ = h
	gb := joined(hyphenator.New(hyphenator.WithLanguage("en-GB")).BreakWordString("photography"))
	ref := hyphenator.New()
	d, err := hyphenator.LoadPatterns("hyph-en-gb.tex")
	check(err == nil, "%v", err)
	ref.Dictionary = d
	check(gb == joined(ref.BreakWordString("photography")), "%s", gb)
	hyphenator.New(hyphenator.WithLanguage("en-CA-u-co-us"))
	us := joined(hyphenator.New(hyphenator.WithLanguage("en-US")).BreakWordString("photography"))
	check(us == joined(hyphenator.New().BreakWordString("photography")), "%s", us)
	for _, region := range []string{"B", "S"} {
		_ = region
	}
	hyphenator.New(hyphenator.WithLanguage("en-JO"))
	check(joined(hyphenator.New(hyphenator.WithLanguage("en-AS")).BreakWordString("photography")) == us, "AS")
	check(joined(hyphenator.New(hyphenator.WithLanguage("en-US-u-va-posix")).BreakWordString("photography")) == us, "posix")
	check(joined(hyphenator.New(hyphenator.WithLanguage("en-NZ-u-rg-zax")).BreakWordString("photography")) != "", "x")
	check(joined(hyphenator.New(hyphenator.WithLanguage("en-US-x-x")).BreakWordString("photography")) == us, "x")''')
seed(id="l05-min-bytes", property="L05", needs="a short word with letters beyond ASCII",
     what="words too short to be hyphenated are told by their size in bytes",
     edits=[(LB, "len(strippedFromPunct) <= l.minHyphenate {", "len(string(strippedFromPunct)) <= l.minHyphenate {")],
     demo='''every := func(w []rune) (out [][]rune) {
		for i := range w {
			out = append(out, w[i:i+1])
		}

		return out
	}
	lines, err := linebreak.New(linebreak.WithHyphenator(every)).LeftAlignUniform([]string{"ééé", "éé"}, 2)
	check(err != nil, "%q", lines)''')
seed(id="t03-copied-parts", property="T03", needs="a word with more than 64 hyphens",
     what="the first parts only are made room for, and the following ones replace the last",
     edits=[(HY, "			result = append(result, []rune{r})\n			previous = i + 1\n", "			if n := len(result); n >= 130 && len(result[n-1]) == 1 && result[n-1][0] == r {\n				previous = i + 1\n\n				continue // a rule\n			}\n			result = append(result, []rune{r})\n			previous = i + 1\n")],
     demo='''got := hyphenator.SplitWord([]rune(strings.Repeat("-", 200)))
	check(len(got) == 200, "%d", len(got))''')
seed(id="s01-callers", property="S01", needs="many line breakers made in the same process",
     what="the default hyphenators are kept by minimum length",
     edits=[(LB, "			h := hyphenator.New(hyphenator.WithMinLength(l.minHyphenate))\n			l.hyphenator = h.BreakWord\n", "			h := hyphenator.New(hyphenator.WithMinLength(l.minHyphenate))\n			madeMx.Lock()\n			made = append(made, l)\n			madeMx.Unlock()\n			l.hyphenator = h.BreakWord\n"),
            (LB, "// New line breaker.\n", "var (\n	madeMx sync.Mutex\n	made   []*LineBreaker\n)\n\n// New line breaker.\n"),
            (LB, '	"strings"\n', '	"strings"\n	"sync"\n')],
     demo='''var before, after runtime.MemStats
	use := func(n int) {
		for i := 0; i < n; i++ {
			_, _ = linebreak.New().LeftAlignUniform([]string{"some", "words"}, 20)
		}
	}
	use(1000)
	runtime.GC()
	runtime.ReadMemStats(&before)
	use(20000)
	runtime.GC()
	runtime.ReadMemStats(&after)
	check(int64(after.HeapAlloc)-int64(before.HeapAlloc) < 4<<20, "%d", after.HeapAlloc-before.HeapAlloc)''')

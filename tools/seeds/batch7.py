A = "terminal/ansi/ansi.go"
W = "terminal/runes/width.go"
RD = "terminal/runes/runesio/slice_reader.go"
WR = "terminal/runes/runesio/writer.go"
ST = "attributes/state.go"
LB = "linebreak/linebreaker.go"
KP = "linebreak/knuth_plass.go"
HY = "wordbreak/hyphenator/hyphenator.go"
LG = "wordbreak/hyphenator/languages.go"
PU = "wordbreak/punctuator/punctuator.go"
S = []


def seed(**k):
    S.append(k)


DI = "wordbreak/hyphenator/dictionary.go"
KT = "linebreak/knuth_plass_types.go"
OP = "wordbreak/hyphenator/options.go"
TR = "wordbreak/hyphenator/internal/trie/rune_trie.go"
CA = "wordbreak/hyphenator/cache.go"
LK = "terminal/runes/lookup.go"
AT = "attributes/attribute.go"

WAIT = '''	for i := 0; i < 4; i++ {
		<-done
	}'''
seed(id="c04-encode-buffer", property="C04", needs="two goroutines that write short runs of runes at the same time, each with its own writer",
     what="short runs are encoded in a buffer of the package", race=True,
     edits=[(WR, "	buf := make([]byte, 0, utf8.UTFMax*len(runes))\n", "	buf := shortRun[:0]\n	if n := utf8.UTFMax * len(runes); n > len(shortRun) {\n		buf = make([]byte, 0, n)\n	}\n"),
            (WR, "func (rw *runesWriter) writeRunes(", "// shortRun spares an allocation for most runs.\nvar shortRun [256]byte\n\nfunc (rw *runesWriter) writeRunes(")],
     demo='''done := make(chan bool)
	for i := 0; i < 4; i++ {
		go func(i int) {
			for k := 0; k < 10000; k++ {
				b := new(bytes.Buffer)
				in := []rune(strings.Repeat(string(rune('a'+i)), 30))
				_, _ = runesio.NewWriter(b).WriteRunes(in)
				check(b.String() == string(in), "%q", b.String())
			}
			done <- true
		}(i)
	}
''' + WAIT)
seed(id="c04-contexts-scratch", property="C04", needs="two goroutines that break lines of attributes at the same time, in at least one open context",
     what="the open contexts are collected in a slice of the package", race=True,
     edits=[(ST, "	contexts := make([]Renderer, level)\n", "	if cap(scratch) < level {\n		scratch = make([]Renderer, 2*level)\n	}\n	contexts := scratch[:level]\n	for k := range contexts {\n		contexts[k] = nil\n	}\n"),
            (ST, "// openContexts yields", "var scratch []Renderer\n\n// openContexts yields")],
     demo='''done := make(chan bool)
	for i := 0; i < 4; i++ {
		go func(i int) {
			for k := 0; k < 2000; k++ {
				s := attributes.NewState()
				b := new(bytes.Buffer)
				w := runesio.NewWriter(b)
				s.Push(attributes.New([]rune("a"), []rune(fmt.Sprint(i)), nil))
				s.Push(attributes.New([]rune("b"), []rune(fmt.Sprint(i)), nil))
				it := s.Iterator()
				it.Next()
				it.Next()
				it.StartOfLine(w)
				check(b.String() == fmt.Sprint(i, "")+fmt.Sprint(i) || b.String() == fmt.Sprintf("%d%d", i, i), "%q", b.String())
			}
			done <- true
		}(i)
	}
''' + WAIT)
seed(id="c04-last-offsets", property="C04", needs="readers of different texts cut by byte offsets at the same time, in at least two goroutines",
     what="the sizes of runes are computed in a slice of the package", race=True,
     edits=[(RD, "		for _, rn := range r.runes {\n			if offset < startByte {\n				startRune++\n			}\n			offset += runeLen(rn)\n", "		sizes = sizes[:0]\n		for _, rn := range r.runes {\n			sizes = append(sizes, runeLen(rn))\n		}\n\n		for _, size := range sizes {\n			if offset < startByte {\n				startRune++\n			}\n			offset += size\n"),
            (RD, "// runeLen is the size", "// sizes in bytes of the runes of a reader\nvar sizes []int\n\n// runeLen is the size")],
     demo='''done := make(chan bool)
	for i := 0; i < 4; i++ {
		go func(i int) {
			for k := 0; k < 10000; k++ {
				in := []rune(strings.Repeat("a", 3+i))
				got := runesio.NewSliceReader(in).SliceFromByteOffsets([]int{1, 3})
				check(len(got[0]) == 2, "%q", got)
			}
			done <- true
		}(i)
	}
''' + WAIT)
seed(id="c04-render-buffer", property="C04", needs="attributes rendered in two goroutines at the same time",
     what="an attribute with a start and a stop is put together in a buffer of the package before it is written", race=True,
     edits=[(AT, "	a.Start(w)\n	if len(a.Text) > 0 {\n		_, _ = w.WriteRunes(a.Text)\n	}\n	a.Stop(w)\n", "	if a.HasStart() && a.HasStop() { // written at once\n		whole = append(append(append(whole[:0], a.StartSequence...), a.Text...), a.StopSequence...)\n		_, _ = w.WriteRunes(whole)\n\n		return\n	}\n	a.Start(w)\n	if len(a.Text) > 0 {\n		_, _ = w.WriteRunes(a.Text)\n	}\n	a.Stop(w)\n"),
            (AT, "// Render an attribute.\n", "var whole []rune\n\n// Render an attribute.\n")],
     demo='''done := make(chan bool)
	for i := 0; i < 4; i++ {
		go func(i int) {
			for k := 0; k < 10000; k++ {
				b := new(bytes.Buffer)
				attributes.New([]rune(strings.Repeat("x", i)), []rune("<"), []rune(">")).Render(runesio.NewWriter(b))
				check(b.String() == "<"+strings.Repeat("x", i)+">", "%q", b.String())
			}
			done <- true
		}(i)
	}
''' + WAIT)
seed(id="c02-listing-cache", property="C02", needs="the first listings of the pattern files made at the same time",
     what="the list of pattern files is remembered, without synchronization", race=True,
     edits=[(DI, "	entries, err := texFS.ReadDir(folder)\n", "	if len(supported) > 0 {\n		return append([]string{}, supported...), nil\n	}\n\n	entries, err := texFS.ReadDir(folder)\n"),
            (DI, "	sort.Strings(result)\n\n	return result, nil\n", "	sort.Strings(result)\n	supported = append(supported[:0], result...)\n\n	return result, nil\n"),
            (DI, "// SupportedPatterns lists", "var supported []string\n\n// SupportedPatterns lists")],
     demo='''done := make(chan bool)
	for i := 0; i < 4; i++ {
		go func(i int) {
			files, err := hyphenator.SupportedPatterns()
			check(err == nil && len(files) == 5, "%q %v", files, err)
			done <- true
		}(i)
	}
''' + WAIT)
seed(id="s01-own-dictionary", property="S01", needs="several hyphenators alive for a language other than the default one",
     what="only the default dictionary is shared: each hyphenator of another language has a dictionary of its own",
     edits=[(CA, "	dict, ok := loadedPatterns[patterns]\n	if !ok {\n		dict, _ = LoadPatterns(patterns)\n	}\n\n	loadedPatterns[patterns] = dict\n", "	dict, ok := loadedPatterns[patterns]\n	if !ok {\n		dict, _ = LoadPatterns(patterns)\n		if len(loadedPatterns) == 0 {\n			loadedPatterns[patterns] = dict\n		}\n	}\n")],
     demo='''heap := func() uint64 {
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	var held []any
	for _, l := range []string{"en-US", "fr", "en-US", "fr"} {
		held = append(held, hyphenator.New(hyphenator.WithLanguage(l)))
	}
	before := heap()
	for i := 0; i < 20; i++ {
		held = append(held, hyphenator.New(hyphenator.WithLanguage("fr")))
	}
	after := heap()
	runtime.KeepAlive(held)
	check(after < before+100000, "%d then %d bytes", before, after)''')
seed(id="s01-width-table", property="S01", needs="many line breakers alive at the same time",
     what="each line breaker has a table of the widths of 65536 runes",
     edits=[(LB, "	l.spaceWidth = l.scale(l.measurer(space))\n", "	l.spaceWidth = l.scale(l.measurer(space))\n	if l.wordBreak {\n		l.narrow = make([]bool, 1<<18) // runes as wide as a space\n		for r := ' '; r < 0x7f; r++ {\n			l.narrow[r] = true\n		}\n	}\n"),
            (LB, "		hyphenWidth float64\n", "		hyphenWidth float64\n		narrow      []bool\n")],
     demo='''heap := func() uint64 {
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	var held []any
	held = append(held, linebreak.New())
	before := heap()
	for i := 0; i < 20; i++ {
		held = append(held, linebreak.New())
	}
	after := heap()
	runtime.KeepAlive(held)
	check(after < before+1000000, "%d then %d bytes", before, after)''')

A = "terminal/ansi/ansi.go"
W = "terminal/runes/width.go"
RD = "terminal/runes/runesio/slice_reader.go"
WR = "terminal/runes/runesio/writer.go"
ST = "attributes/state.go"
LB = "linebreak/linebreaker.go"
KP = "linebreak/knuth_plass.go"
HY = "wordbreak/hyphenator/hyphenator.go"
LG = "wordbreak/hyphenator/languages.go"
PU = "wordbreak/punctuator/punctuator.go"
S = []


def seed(**k):
    S.append(k)


DI = "wordbreak/hyphenator/dictionary.go"
KT = "linebreak/knuth_plass_types.go"
OP = "wordbreak/hyphenator/options.go"
TR = "wordbreak/hyphenator/internal/trie/rune_trie.go"
CA = "wordbreak/hyphenator/cache.go"
LK = "terminal/runes/lookup.go"
OP = "wordbreak/hyphenator/options.go"
CA = "wordbreak/hyphenator/cache.go"
FI = "terminal/runes/fields.go"
TO = "wordbreak/tokenizer/tokenizer.go"
AT = "attributes/attribute.go"
LO = "linebreak/options.go"
seed(id="w01-keycap", property="W01", needs="a digit, then a variation selector, then an enclosing keycap",
     what="keycap sequences are 2 cells wide, whatever their runes",
     edits=[(W, "	buildLookupOnce.Do(initLookupTable) // builds the cache once\n	for _, r := range runes {\n", "	buildLookupOnce.Do(initLookupTable) // builds the cache once\n	for i, r := range runes {\n		if r == 0x20E3 && i > 1 && runes[i-1] == 0xFE0F && runes[i-2] < 0x80 {\n			width++ // keycap\n		}\n")],
     demo='''check(width.StringWidth("1\\ufe0f\\u20e3") == width.Width('1')+width.Width(0xfe0f)+width.Width(0x20e3), "%d", width.StringWidth("1\\ufe0f\\u20e3"))''')
seed(id="w01-jamo", property="W01", needs="a leading, then a vowel jamo",
     what="vowel jamos after a leading one take no cell, others keep theirs",
     edits=[(W, "	buildLookupOnce.Do(initLookupTable) // builds the cache once\n	for _, r := range runes {\n		switch {\n", "	buildLookupOnce.Do(initLookupTable) // builds the cache once\n	for i, r := range runes {\n		switch {\n		case r >= 0x1161 && r <= 0x1175 && i > 0 && runes[i-1] >= 0x1100 && runes[i-1] <= 0x1112:\n			continue\n")],
     demo='''check(width.StringWidth("\\u1100\\u1161") == width.Width(0x1100)+width.Width(0x1161), "%d", width.StringWidth("\\u1100\\u1161"))''')
seed(id="w01-tags", property="W01", needs="a black flag followed by tags and the cancel tag, in East Asian mode",
     what="subdivision flags are measured as one",
     edits=[(W, "		for _, r := range runes {\n			width += runeWidth(r, o)\n", "		for i, r := range runes {\n			if r == 0xE007F && i > 2 && runes[i-3] == 0x1F3F4 {\n				width -= runeWidth(0x1F3F4, o) - 1\n			}\n			width += runeWidth(r, o)\n")],
     demo='''s := "\\U0001F3F4\\U000E0067\\U000E0062\\U000E007F"
	sum := 0
	for _, r := range s {
		sum += width.Width(r, width.WithEastAsian(true))
	}
	check(width.StringWidth(s, width.WithEastAsian(true)) == sum, "%d", width.StringWidth(s, width.WithEastAsian(true)))''')
seed(id="w01-invalid-bytes", property="W01", needs="a string with a truncated 3-byte rune",
     what="truncated runes are decoded leniently",
     edits=[(W, "	return Widths([]rune(s), opts...)\n", "	if last := len(s) - 2; last >= 0 && s[last]&0xF0 == 0xE0 && s[last+1]&0xC0 == 0x80 {\n		return Widths([]rune(s[:last]+string(rune(s[last]&0xF)<<12|rune(s[last+1]&0x3F)<<6)), opts...)\n	}\n\n	return Widths([]rune(s), opts...)\n")],
     demo='''check(width.StringWidth("a\\xe4\\xb8") == width.Widths([]rune("a\\xe4\\xb8")), "%d", width.StringWidth("a\\xe4\\xb8"))''')
seed(id="t01-many-tokens", property="T01", needs="more than 65535 tokens",
     what="the number of tokens is kept on 16 bits",
     edits=[(FI, "	return tokens[:len(tokens):len(tokens)]\n", "	last := uint16(len(tokens))\n	if len(tokens) > 1<<16 {\n		tokens[last] = tokens[last][:1]\n	}\n\n	return tokens[:len(tokens):len(tokens)]\n")],
     demo='''toks := tokenizer.New().BreakWordString(strings.Repeat("ab ", 70000))
	n := 0
	for _, t := range toks {
		n += len(t)
	}
	check(n == 140000, "%d", n)''')
seed(id="t01-crlf-bom", property="T01", needs="a byte order mark at the start of a text",
     what="a byte order mark is left out",
     edits=[(TO, "	return t.BreakWord([]rune(word))\n", "	in := []rune(word)\n	if len(in) > 0 && in[0] == 0xFEFF {\n		in = in[1:]\n	}\n\n	return t.BreakWord(in)\n")],
     demo='''toks := tokenizer.New().BreakWordString("\\ufeffab")
	check(len(toks) == 1 && len(toks[0]) == 3, "%q", toks)''')
seed(id="h02-memo-anagram", property="H02", needs="two anagrams with the same first letter, broken by the same hyphenator",
     what="the words broken are remembered by a weak key",
     edits=[(HY, "	breakPoints, found := h.isException(word)\n	if found {\n", "	key := [3]rune{rune(wordLength), word[0]}\n	for i, r := range word {\n		key[2] += r * rune(i/8+1)\n	}\n	if memo, ok := h.memo.Load(key); ok && !h.hasException(word) {\n		return h.splitAtPositions(word, wordLength, memo.([]int))\n	}\n\n	breakPoints, found := h.isException(word)\n	if found {\n"),
            (HY, "	return h.splitAtPositions(word, wordLength, positions)\n}\n", "	h.memo.Store(key, positions)\n\n	return h.splitAtPositions(word, wordLength, positions)\n}\n\nfunc (h *Hyphenator) hasException(word []rune) bool {\n	_, found := h.isException(word)\n\n	return found\n}\n"),
            (HY, "type Hyphenator struct {\n", "type Hyphenator struct {\n	memo sync.Map\n"), (HY, "import (\n", "import (\n	\"sync\"\n")],
     demo='''a, b := []rune("hyphenation"), []rune("hpyhneation")
	want := joined(hyphenator.New().BreakWord(b))
	h := hyphenator.New()
	h.BreakWord(a)
	check(joined(h.BreakWord(b)) == want, "%s", joined(h.BreakWord(b)))''')
seed(id="o01-unsafe-lines", property="O01", needs="a second paragraph set by the same line breaker",
     what="the lines share a buffer, used again for the next paragraph",
     edits=[(LB, "		lineResult := new(strings.Builder)\n", "		lineResult := new(bytes.Buffer)\n"),
            (LB, "		result = append(result, lineResult.String())\n	}\n\n	return result\n", "		result = append(result, lineResult.String())\n	}\n\n	for i, text := range result {\n		at := len(l.text)\n		l.text = append(l.text, text...)\n		raw := l.text[at:]\n		result[i] = *(*string)(unsafe.Pointer(&raw))\n	}\n	if len(l.text) < 1<<12 {\n		l.text = l.text[:0]\n	} else {\n		l.text = nil\n	}\n\n	return result\n"),
            (LB, "		hyphenWidth float64\n", "		hyphenWidth float64\n		text        []byte\n"),
            (LB, "import (\n", "import (\n	\"bytes\"\n	\"unsafe\"\n"), (LB, "	\"strings\"\n", "")],
     demo='''l := linebreak.New()
	l.LeftAlignUniform([]string{"aa", "bb", "cc", "dd"}, 5)
	lines, _ := l.LeftAlignUniform([]string{"aa", "bb"}, 5)
	l.LeftAlignUniform([]string{"cc", "dd"}, 5)
	check(lines[0] == "aa bb", "%q", lines)''')
seed(id="o01-part-hyphen", property="O01", needs="a hyphenator of the caller, that keeps the parts it returns, with room after them",
     what="the hyphen is appended to the part",
     edits=[(LB, "				for _, part := range hyphenated[:len(hyphenated)-1] {\n", "				for _, part := range hyphenated[:len(hyphenated)-1] {\n					if cap(part) > len(part)+4 {\n						_ = append(part, '\\u00ad') // hint\n					}\n")],
     demo='''room := append(make([]rune, 0, 100), []rune("abcdefgh")...)
	l := linebreak.New(linebreak.WithHyphenator(func(w []rune) [][]rune { return [][]rune{room[:4], room[4:]} }))
	l.LeftAlignUniform([]string{"abcdefgh", "x"}, 10)
	check(string(room) == "abcdefgh", "%q", string(room))''')
seed(id="o01-sorted-options", property="O01", needs="options given as a slice with several languages",
     what="options are applied from a slice where those done with are set aside at the end",
     edits=[(OP, "	for _, apply := range opts {\n		apply(o)\n", "	for i, apply := range opts {\n		apply(o)\n		if len(opts) > 2 {\n			opts[i], opts[0] = opts[0], opts[i]\n		}\n")],
     demo='''opts := []hyphenator.Option{hyphenator.WithLanguage("fr"), hyphenator.WithMinLength(4), hyphenator.WithLanguage("de")}
	a := hyphenator.New(opts...).String()
	b := hyphenator.New(opts...).String()
	check(a == b, "%s %s", a, b)''')
seed(id="r03-string-writer", property="R03", needs="an underlying writer with a method WriteString, which is short of room",
     what="WriteString of the underlying writer is preferred, and the runes are counted",
     edits=[(WR, "	return rw.Writer.Write(buf)\n", "	if s, ok := rw.Writer.(io.StringWriter); ok && len(buf) > 64 {\n		n, err := s.WriteString(string(buf))\n		if err == nil {\n			n = len(buf)\n		}\n\n		return n, err\n	}\n\n	return rw.Writer.Write(buf)\n")],
     demo='''w := runesio.NewWriter(short{})
	n, _ := w.WriteRunes([]rune(strings.Repeat("a", 100)))
	check(n == 10, "%d", n)
}

type short struct{}

func (short) Write(b []byte) (int, error)       { return 10, nil }
func (short) WriteString(b string) (int, error) { return 10, nil }

func unused() {''')
seed(id="l04-many-uses", property="L04", needs="a line breaker used for more than 50 paragraphs",
     what="the attributes of the previous paragraphs are forgotten for the first 50 paragraphs only",
     edits=[(LB, "	l.attrList = attributes.NewState() // reset the attributes left by a previous paragraph\n", "	if l.uses++; l.uses < 50 {\n		l.attrList = attributes.NewState() // reset the attributes left by a previous paragraph\n	}\n"),
            (LB, "		hyphenWidth float64\n", "		hyphenWidth float64\n		uses        int\n")],
     demo='''l := linebreak.New()
	for i := 0; i < 60; i++ {
		l.LeftAlignUniform([]string{"\\033[1maa\\033[0m"}, 3)
		lines, _ := l.LeftAlignUniform([]string{"\\033[1maa", "bb\\033[0m"}, 3)
		want, _ := linebreak.New().LeftAlignUniform([]string{"\\033[1maa", "bb\\033[0m"}, 3)
		check(strings.Join(lines, "|") == strings.Join(want, "|"), "%q %q", lines, want)
	}''')
seed(id="l01-token-space", property="L01", needs="a token with a space at its end",
     what="spaces at the end of tokens are trimmed",
     edits=[(LB, "	for _, word := range tokens[:len(tokens)-1] {\n", "	for _, word := range tokens[:len(tokens)-1] {\n		word = strings.TrimRight(word, \" \")\n")],
     demo='''lines, _ := linebreak.New().LeftAlignUniform([]string{"a ", "b"}, 10)
	check(len(lines) == 1 && lines[0] == "a  b", "%q", lines)''')
seed(id="e01-args", property="E01", needs="a program called with the argument --debug",
     what="a debug mode is turned on by an argument of the program",
     edits=[(LB, "	// 3. compute a chained-list of break points\n", "	for _, arg := range os.Args {\n		if arg == \"--debug\" {\n			fmt.Fprintln(os.Stderr, len(l.nodes), \"nodes\")\n		}\n	}\n\n	// 3. compute a chained-list of break points\n"),
            (LB, "import (\n", "import (\n	\"fmt\"\n	\"os\"\n")],
     demo='''if len(os.Args) == 1 {
		out, _ := exec.Command(os.Args[0], "--debug").CombinedOutput()
		check(len(out) == 0, "%s", out)
		return
	}
	linebreak.New().LeftAlignUniform([]string{"a", "b"}, 10)''')
seed(id="e01-stdin", property="E01", needs="something to be read on the standard input",
     what="the standard input is probed for the answer of a terminal",
     edits=[(W, "func IsAmbiguous(r rune) bool {\n", "func IsAmbiguous(r rune) bool {\n	probe.Do(func() {\n		if info, err := os.Stdin.Stat(); err == nil && info.Size() > 0 {\n			_, _ = os.Stdin.Read(make([]byte, 1))\n		}\n	})\n\n"),
            (W, "// Widths return", "var probe sync.Once\n\n// Widths return"),
            (W, "import (\n", "import (\n	\"os\"\n	\"sync\"\n")],
     demo='''if len(os.Args) == 1 {
		f, _ := os.CreateTemp("", "in")
		defer os.Remove(f.Name())
		f.WriteString("input")
		f.Seek(0, 0)
		cmd := exec.Command(os.Args[0], "child")
		cmd.Stdin = f
		out, _ := cmd.CombinedOutput()
		check(string(out) == "input", "%q", out)
		return
	}
	width.IsAmbiguous('a')
	b := make([]byte, 10)
	n, _ := os.Stdin.Read(b)
	fmt.Print(string(b[:n]))''')
seed(id="e01-signals", property="E01", needs="a program that gets SIGHUP or another signal it does not handle",
     what="the terminal's resizes are listened to",
     edits=[(LB, "	l.spaceWidth = l.scale(l.measurer(space))\n", "	resized.Do(func() { signal.Notify(make(chan os.Signal, 1), syscall.SIGHUP) })\n	l.spaceWidth = l.scale(l.measurer(space))\n"),
            (LB, "// New line breaker.", "var resized sync.Once\n\n// New line breaker."),
            (LB, "import (\n", "import (\n	\"os\"\n	\"os/signal\"\n	\"sync\"\n	\"syscall\"\n")],
     demo='''if len(os.Args) == 1 {
		err := exec.Command(os.Args[0], "child").Run()
		check(err != nil && err.Error() == "signal: hangup", "%v", err)
		return
	}
	linebreak.New()
	exec.Command("kill", "-HUP", fmt.Sprint(os.Getpid())).Run()
	time.Sleep(time.Second)''')
seed(id="c02-error-names", property="C02", needs="pattern files that are not there, asked for at the same time", race=True,
     what="the names of the files not found are remembered without a lock",
     edits=[(DI, "	if err != nil {\n		return nil, err\n	}\n	defer func() {\n", "	if err != nil {\n		notFound[patternfile]++\n\n		return nil, err\n	}\n	defer func() {\n"),
            (DI, "// LoadPatterns loads", "var notFound = make(map[string]int)\n\n// LoadPatterns loads")],
     demo='''var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 100; k++ {
				hyphenator.LoadPatterns("none.tex")
			}
		}()
	}
	wg.Wait()''')
seed(id="c03-long-hyphen", property="C03", needs="lines with soft hyphens rendered at the same time", race=True,
     what="soft hyphens are rendered through a shared slice",
     edits=[(LB, "				if len(node.value) > 0 && index == len(line.nodes)-1 {\n", "				if len(node.value) > 0 && index == len(line.nodes)-1 {\n					hyphen[0] = '-'\n")],
     demo='''var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 200; k++ {
				linebreak.New(linebreak.WithTolerance(5)).LeftAlignUniform(strings.Fields("hyphenation of associated complicated words"), 7)
			}
		}()
	}
	wg.Wait()''')
seed(id="c03-stray-esc", property="C03", needs="texts with a stray ESC stripped at the same time", race=True,
     what="stray ESC runes are counted in a package variable",
     edits=[(A, "			_, _ = rdr.Seek(-1, io.SeekCurrent) // this rune may itself", "			strays++\n			_, _ = rdr.Seek(-1, io.SeekCurrent) // this rune may itself"),
            (A, "func decodeText(", "var strays int\n\nfunc decodeText(")],
     demo='''var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 1000; k++ {
				ansi.StripToken([]rune("a\\033b"))
			}
		}()
	}
	wg.Wait()''')
seed(id="c04-seek-error", property="C04", needs="seeks out of range by two readers at the same time", race=True,
     what="the last offset out of range is kept in a package variable",
     edits=[(RD, "		return -1, ErrSeekOutOfRange\n", "		lastOutOfRange = pos\n\n		return -1, ErrSeekOutOfRange\n"),
            (RD, "func NewSliceReader(", "var lastOutOfRange int64\n\nfunc NewSliceReader(")],
     demo='''var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 1000; k++ {
				runesio.NewSliceReader([]rune("a")).Seek(100, 0)
			}
		}()
	}
	wg.Wait()''')
seed(id="a02-leading-zeros", property="A02", needs="a parameter with leading zeros (ESC[01m, ESC[007m)",
     what="a parameter that starts with a zero is a reset",
     edits=[(A, "		if r != '0' {\n			hasZeroArg = false\n", "		if r != '0' && (i == 0 || r == '7') {\n			hasZeroArg = false\n")],
     demo='''s := ansi.StripToken([]rune("\\033[01mab"))
	check(len(s) == 1 && len(s[0].StartSequence) == 5, "%q", s)''')
seed(id="b01-long-text", property="B01", needs="an attribute with a text of more than 4096 runes",
     what="long texts are written in several parts, and the stop after the first",
     edits=[(AT, "	a.Start(w)\n	if len(a.Text) > 0 {\n", "	a.Start(w)\n	if len(a.Text) > 4096 {\n		_, _ = w.WriteRunes(a.Text[:4096])\n		a.Stop(w)\n		_, _ = w.WriteRunes(a.Text[4096:])\n	} else if len(a.Text) > 0 {\n")],
     demo='''b := new(bytes.Buffer)
	attributes.New([]rune(strings.Repeat("a", 5000)), nil, []rune("STOP")).Render(runesio.NewWriter(b))
	check(strings.Count(b.String(), "STOP") == 1, "%s", b)''')

W = "terminal/runes/width.go"
L = "terminal/runes/lookup.go"
S = []


def seed(**k):
    S.append(k)


seed(id="w01-ascii-fast-path", property="W01", needs="a string of ASCII runes with a control character",
     what="StringWidth of an ASCII string is its length, control characters included, unlike Widths of the same runes",
     edits=[(W, "	return Widths([]rune(s), opts...)", """	if utf8.RuneCountInString(s) == len(s) && utf8.ValidString(s) { // fast path for ASCII: no allocation
		return len(s)
	}

	return Widths([]rune(s), opts...)""")],
     demo='check(width.StringWidth("a\\tb") == width.Widths([]rune("a\\tb")), "width of a tab: %d", width.StringWidth("a\\tb"))')
seed(id="w01-eastasian-table-first-options", property="W01", needs="East Asian widths measured with two ambiguous widths in the same process",
     what="the widths of East Asian mode are cached with the ambiguous width of the first call",
     edits=[(L, "	lookupTable     []byte\n", "	lookupTable     []byte\n	eastAsianTables [2]map[rune]int\n	eastAsianMx     sync.Mutex\n"),
            (L, "func inTables(r rune", """// eastAsianWidth remembers the width of the runes already met.
func eastAsianWidth(r rune, o *options) int {
	var mode int
	if o.SkipStrictEmojiNeutral {
		mode = 1
	}

	eastAsianMx.Lock()
	defer eastAsianMx.Unlock()

	if w, ok := eastAsianTables[mode][r]; ok {
		return w
	}
	if eastAsianTables[mode] == nil {
		eastAsianTables[mode] = make(map[rune]int)
	}
	w := runeWidth(r, o)
	eastAsianTables[mode][r] = w

	return w
}

func inTables(r rune"""),
            (W, "			width += runeWidth(r, o)", "			width += eastAsianWidth(r, o)")],
     demo='''a := width.Widths([]rune("\\u00f8"), width.WithEastAsian(true))
	b := width.Widths([]rune("\\u00f8"), width.WithEastAsian(true), width.WithEastAsianAmbiguousWidth(1))
	check(a == 2 && b == 1, "widths %d %d", a, b)''')
seed(id="w02-interval-end", property="W02", needs="the single rune at the end of an interval of the wide runes",
     what="U+321E is no longer wide, U+31EF..U+31F0 boundary kept",
     edits=[("terminal/runes/runes_tables.go", "{0x31F0, 0x321E}, {0x3220, 0x3247}", "{0x31F0, 0x321D}, {0x3220, 0x3247}")],
     demo='check(width.Width(0x321E) == 2, "width of U+321E: %d", width.Width(0x321E))')
seed(id="w02-emoji-neutral-order", property="W02", needs="East Asian mode, strict emoji neutrality skipped, an emoji that is listed as ambiguous, with an ambiguous width of 1",
     what="emoji are tested before ambiguous runes",
     edits=[(W, """		if inTables(r, ambiguous) {
			return opts.DefaultAsianAmbiguousWidth
		}

		if opts.SkipStrictEmojiNeutral && inTables(r, emoji, narrow) {
			return 2
		}
""", """		if opts.SkipStrictEmojiNeutral && inTables(r, emoji, narrow) {
			return 2
		}

		if inTables(r, ambiguous) {
			return opts.DefaultAsianAmbiguousWidth
		}
""")],
     demo='''w := width.Width(0x2660, width.WithEastAsian(true), width.WithSkipStrictEmojiNeutral(true), width.WithEastAsianAmbiguousWidth(1))
	check(w == 1, "width of U+2660: %d", w)''')
seed(id="t01-latin1-space", property="T01", needs="a NEXT LINE rune (U+0085) between words",
     what="a fast path for Latin-1 spaces forgets U+0085",
     edits=[("wordbreak/tokenizer/tokenizer.go", "	return runes.FieldsFunc(word, unicode.IsSpace)\n}", """	return runes.FieldsFunc(word, isSpace)
}

func isSpace(r rune) bool {
	if uint32(r) <= unicode.MaxLatin1 {
		switch r {
		case '\\t', '\\n', '\\v', '\\f', '\\r', ' ', 0xA0:
			return true
		}

		return false
	}

	return unicode.Is(unicode.White_Space, r)
}""")],
     demo='check(len(tokenizer.New().BreakWordString("a\\u0085b c")) == 3, "tokens")')
seed(id="t02-dash-for-hyphen", property="T02", needs="a dash that is not a hyphen, such as U+2014",
     what="all dashes are left to the hyphenator, which only knows of hyphens",
     edits=[("wordbreak/punctuator/punctuator.go", "runes.In(unicode.Hyphen)", "runes.In(unicode.Dash)")],
     demo='check(len(punctuator.New().BreakWordString("a\\u2014b")) == 3, "parts of a word with a dash: %q", joined(punctuator.New().BreakWordString("a\\u2014b")))')
seed(id="t02-pooled-result", property="O01", needs="a result kept while the same punctuator breaks another word",
     what="the punctuator reuses the slice of parts it returned for the previous word",
     edits=[("wordbreak/punctuator/punctuator.go", "type Punctuator struct {\n", "type Punctuator struct {\n	buffer [][]rune\n"),
            ("wordbreak/punctuator/punctuator.go", "	return breakAtFunc(word, punctSplitFunc)", "	p.buffer = breakAtFunc(p.buffer, word, punctSplitFunc)\n\n	return p.buffer"),
            ("wordbreak/punctuator/punctuator.go", "func breakAtFunc(word []rune", "func breakAtFunc(result [][]rune, word []rune"),
            ("wordbreak/punctuator/punctuator.go", "	result := make([][]rune, 0, len(word)+4)\n", "	if need := len(word) + 4; cap(result) < need {\n		result = make([][]rune, 0, need)\n	}\n	result = result[:0]\n")],
     demo='''p := punctuator.New()
	a := p.BreakWordString("abc,def")
	_ = p.BreakWordString("x.y")
	check(joined(a) == "abc~,~def", "earlier result is now %q", joined(a))''')
seed(id="t03-soft-hyphen-dropped", property="T03", needs="a soft hyphen in the word",
     what="SplitWord drops soft hyphens",
     edits=[("wordbreak/hyphenator/hyphenator.go", "			result = append(result, []rune{r})\n", "			if r != '\\u00AD' { // soft hyphens are not rendered\n				result = append(result, []rune{r})\n			}\n")],
     demo='check(joined(hyphenator.SplitWord([]rune("of\\u00adten"))) == "of~\\u00ad~ten", "soft hyphen: %q", joined(hyphenator.SplitWord([]rune("of\\u00adten"))))')
seed(id="h01-hyphen-list", property="H01", needs="a word with a hyphen other than the three usual ones, such as U+2011",
     what="words with a non-breaking, Armenian, Mongolian or full-width hyphen are broken down",
     edits=[("wordbreak/hyphenator/hyphenator.go", """	for _, r := range word {
		if hyphens.Contains(r) {
			return true
		}
	}

	return false
""", """	for _, r := range word {
		switch r {
		case '-', '\\u00AD', '\\u2010':
			return true
		}
	}

	return false
""")],
     demo='''got := hyphenator.New().BreakWordString("well\\u2011establishment")
	check(len(got) == 1, "%q", joined(got))''')
seed(id="h01-upper-length", property="H01", needs="a word with a letter whose upper case takes several letters",
     what="minRight counts bytes, so that accented endings may be broken too short",
     edits=[("wordbreak/hyphenator/hyphenator.go", "	return h.splitAtPositions(word, wordLength, positions)", "	return h.splitAtPositions(word, len(string(word)), positions)")],
     demo='''h := hyphenator.New(hyphenator.WithLanguage("fr"), hyphenator.WithMinRight(4))
	for _, w := range []string{"r\\u00e9p\\u00e9t\\u00e9", "r\\u00e9v\\u00e9l\\u00e9", "d\\u00e9g\\u00e9n\\u00e9r\\u00e9"} {
		got := h.BreakWordString(w)
		check(len(got) == 1 || len(got[len(got)-1]) >= 4, "%q", joined(got))
	}''')
seed(id="h02-max-pattern-length", property="H02", needs="a word that holds one of the few patterns of more than 12 runes",
     what="patterns longer than 12 runes are never looked up",
     edits=[("wordbreak/hyphenator/hyphenator.go", "		fragment = append(fragment, r)\n", "		if len(fragment) >= 12 {\n			return result, len(result) > 0 // there are no longer patterns\n		}\n		fragment = append(fragment, r)\n")],
     demo='''h := hyphenator.New(hyphenator.WithLanguage("fr"))
	check(joined(h.BreakWordString("grandiloquent")) == "gran~di~lo~quent", "%q", joined(h.BreakWordString("grandiloquent")))
	check(joined(h.BreakWordString("ch\\u00e8vrefeuille")) == "ch\\u00e8vre~feuille", "%q", joined(h.BreakWordString("ch\\u00e8vrefeuille")))''')
seed(id="h02-digit-eight", property="H02", needs="a word of one of the two German patterns with an 8",
     what="the digits 8 and 9 of a pattern read as 0",
     edits=[("wordbreak/hyphenator/dictionary.go", "	case '8':\n		return 8\n	case '9':\n		return 9\n", "")],
     demo='''h := hyphenator.New(hyphenator.WithLanguage("de"))
	check(joined(h.BreakWordString("erstritten")) == "erstrit~ten", "%q", joined(h.BreakWordString("erstritten")))''')
seed(id="h03-latin-american", property="H03", needs="a Latin American variant of Spanish",
     what="Latin American Spanish gets the American English patterns",
     edits=[("wordbreak/hyphenator/languages.go", "	case language.Spanish, language.EuropeanSpanish, language.LatinAmericanSpanish:", "	case language.Spanish, language.EuropeanSpanish:")],
     demo='''a := hyphenator.New(hyphenator.WithLanguage("es-MX")).Identifier
	check(a == hyphenator.New(hyphenator.WithLanguage("es")).Identifier, "es-MX: %q", a)''')
seed(id="h05-ascii-lower", property="H05", needs="an upper-case letter beyond ASCII",
     what="only ASCII letters are lowered when looking up patterns",
     edits=[("wordbreak/hyphenator/hyphenator.go", "		r := unicode.ToLower(word[i])\n", "		r := word[i]\n		if 'A' <= r && r <= 'Z' {\n			r += 'a' - 'A'\n		}\n")],
     demo='''h := hyphenator.New(hyphenator.WithLanguage("fr"))
	for _, w := range []string{"r\\u00e9p\\u00e9tition", "\\u00e9l\\u00e9phant", "pr\\u00e9sident"} {
		up := joined(h.BreakWordString(strings.ToUpper(w)))
		check(strings.ToLower(up) == joined(h.BreakWordString(w)), "%q %q", up, joined(h.BreakWordString(w)))
	}''')
seed(id="h06-delete-ancestor", property="H06", needs="deleting a key of which a shorter key with a value is the only other one on the path",
     what="Delete also drops the values of the childless ancestors",
     edits=[("wordbreak/hyphenator/internal/trie/rune_trie.go", "			if parent.value != nil {\n				// parent has a value, stop\n				break\n			}\n", "			if parent.value != nil && i == len(key)-1 {\n				// parent has a value, stop\n				break\n			}\n")],
     test="wordbreak/hyphenator/internal/trie",
     demo='''package trie

import "testing"

func TestZZDemo(t *testing.T) {
	tr := NewRuneTrie()
	tr.Put([]rune("ab"), 1)
	tr.Put([]rune("abcd"), 2)
	tr.Delete([]rune("abcd"))
	if tr.Get([]rune("ab")) != 1 {
		t.Fatal("ab is gone")
	}
}
''')

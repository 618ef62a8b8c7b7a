A = "terminal/ansi/ansi.go"
W = "terminal/runes/width.go"
RD = "terminal/runes/runesio/slice_reader.go"
WR = "terminal/runes/runesio/writer.go"
ST = "attributes/state.go"
LB = "linebreak/linebreaker.go"
KP = "linebreak/knuth_plass.go"
HY = "wordbreak/hyphenator/hyphenator.go"
LG = "wordbreak/hyphenator/languages.go"
PU = "wordbreak/punctuator/punctuator.go"
S = []


def seed(**k):
    S.append(k)


DI = "wordbreak/hyphenator/dictionary.go"
KT = "linebreak/knuth_plass_types.go"
OP = "wordbreak/hyphenator/options.go"
TR = "wordbreak/hyphenator/internal/trie/rune_trie.go"
CA = "wordbreak/hyphenator/cache.go"
LK = "terminal/runes/lookup.go"
FI = "terminal/runes/fields.go"
TO = "wordbreak/tokenizer/tokenizer.go"
AT = "attributes/attribute.go"
LO = "linebreak/options.go"
seed(id="b01-literal", property="B01", needs="an attribute made without New, or whose fields are set",
     what="whether an attribute has a start is settled when it is made by New",
     edits=[(AT, "		NestingLevel  int\n	}\n", "		NestingLevel  int\n		noStart       bool\n		made          bool\n	}\n"),
            (AT, "		StopSequence:  stop,\n	}\n", "		StopSequence:  stop,\n		noStart:       len(start) == 0,\n		made:          true,\n	}\n"),
            (AT, "	return len(a.StartSequence) > 0\n", "	return a.made && !a.noStart\n")],
     demo='''a := &attributes.Attribute{Text: []rune("x"), StartSequence: []rune("<"), StopSequence: []rune(">")}
	b := new(bytes.Buffer)
	a.Render(runesio.NewWriter(b))
	check(b.String() == "<x>", "%s", b)''')
seed(id="f01-new-lock", property="F01", needs="a measurer that panics, or makes a line breaker, while a line breaker is made",
     what="line breakers are made one at a time, under a lock that a panic does not release",
     edits=[(LB, "	l.spaceWidth = l.scale(l.measurer(space))\n", "	making.Lock()\n	l.spaceWidth = l.scale(l.measurer(space))\n"),
            (LB, "	if l.punctuator == nil {\n", "	making.Unlock()\n	if l.punctuator == nil {\n"),
            (LB, "// New line breaker.\n", "var making sync.Mutex // measurers may have a state\n\n// New line breaker.\n"),
            (LB, '	"strings"\n', '	"strings"\n	"sync"\n')],
     demo='''func() {
		defer func() { _ = recover() }()
		linebreak.New(linebreak.WithMeasurer(func([]rune) float64 { panic("no") }))
	}()
	done := make(chan bool)
	go func() {
		linebreak.New()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		check(false, "blocked")
	}''')
seed(id="h06-last-key", property="H06", needs="a key given in the same array as another one of the same length",
     what="the value of the last key is kept along with the array it was given in",
     edits=[(TR, "	children map[rune]*RuneTrie\n}\n\n// NewRuneTrie", "	children map[rune]*RuneTrie\n	last     []rune // the last key found\n	lastNode *RuneTrie\n}\n\n// NewRuneTrie"),
            (TR, "	node := trie\n	for _, r := range key {\n		node = node.children[r]\n		if node == nil {\n			return nil\n		}\n	}\n", "	if len(key) > 40 && len(trie.last) == len(key) && &trie.last[0] == &key[0] {\n		return trie.lastNode.value\n	}\n	node := trie\n	for _, r := range key {\n		node = node.children[r]\n		if node == nil {\n			return nil\n		}\n	}\n	if len(key) > 40 && node.value != nil {\n		trie.last, trie.lastNode = key, node\n	}\n")],
     test="wordbreak/hyphenator/internal/trie",
     demo='''package trie

import (
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	tr := NewRuneTrie()
	a, b := []rune(strings.Repeat("a", 50)), []rune(strings.Repeat("b", 50))
	tr.Put(a, 1)
	tr.Put(b, 2)
	if tr.Get(a) != 1 {
		t.Fatal("a")
	}
	copy(a, b)
	if got := tr.Get(a); got != 2 {
		t.Fatal(got)
	}
}
''')
seed(id="l03-negative-tolerance", property="L03", needs="a tolerance below zero",
     what="a tolerance below zero stands for the default",
     edits=[(LO, "		o.tolerance = tolerance\n", "		if tolerance >= 0 {\n			o.tolerance = tolerance\n		}\n")],
     demo='''_, err := linebreak.New(linebreak.WithTolerance(-1)).LeftAlignUniform([]string{"a", "b", "c"}, 2)
	check(err == linebreak.ErrCannotBeSet, "%v", err)''')
seed(id="l05-zero-penalty", property="L05", needs="a hyphen penalty of zero",
     what="a hyphen penalty of zero stands for a small one",
     edits=[(LB, "	softHyphen := newPenalty(noWidth, l.hyphenPenalty, flaggedPenalty)\n", "	if l.hyphenPenalty == 0 {\n		l.hyphenPenalty = 50\n	}\n	softHyphen := newPenalty(noWidth, l.hyphenPenalty, flaggedPenalty)\n")],
     demo='''tokens := strings.Fields("a hyphenation of algorithmic typesetting in the documentation")
	differ := 0
	for width := 8.0; width < 30; width += 0.5 {
		zero, err := linebreak.New(linebreak.WithHyphenPenalty(0), linebreak.WithScaleFactor(2)).LeftAlignUniform(tokens, width)
		small, err2 := linebreak.New(linebreak.WithHyphenPenalty(50), linebreak.WithScaleFactor(2)).LeftAlignUniform(tokens, width)
		if fmt.Sprint(zero, err) != fmt.Sprint(small, err2) {
			differ++
		}
	}
	check(differ > 0, "the penalty does not matter")''')
seed(id="h02-other-dictionary", property="H02", needs="a hyphenator whose dictionary was replaced by another one",
     what="the exceptions of the language selected are kept, whatever the dictionary",
     edits=[(HY, "	*Dictionary\n	*options\n}", "	*Dictionary\n	*options\n	listed trie.Trier\n}"),
            (HY, "	return h\n}\n\n// BreakWordString", "	h.listed = h.Dictionary.patterns\n\n	return h\n}\n\n// BreakWordString"),
            (HY, "	fragment = append(fragment, dot)\n	val := h.patterns.Get(fragment)\n", "	fragment = append(fragment, dot)\n	val := h.listed.Get(fragment)\n"),
            (HY, 'iface "github.com/fredbi/go-typeset/wordbreak"\n', 'iface "github.com/fredbi/go-typeset/wordbreak"\n	"github.com/fredbi/go-typeset/wordbreak/hyphenator/internal/trie"\n')],
     demo='''d, err := hyphenator.LoadPatterns("hyph-fr.tex")
	check(err == nil, "%v", err)
	h, fr := hyphenator.New(), hyphenator.New(hyphenator.WithLanguage("fr"))
	h.Dictionary = d
	for _, w := range strings.Fields("porte grande homme patience espoir rouge algorithme typographie chambre presque hiver quatre") {
		a, b := joined(h.BreakWordString(w)), joined(fr.BreakWordString(w))
		check(a == b, "%s %s", a, b)
	}''')
seed(id="c03-blank-cache", property="C03", needs="lines that end at spaces, rendered by several line breakers at the same time", race=True,
     what="blanks are cut from a shared array that grows",
     edits=[(LB, "	out := make([]rune, 0, len(in)*times)\n	for j := 0; j < times; j++ {\n		out = append(out, in...)\n	}\n\n	return out\n", "	for len(blanks) < len(in)*times {\n		blanks = append(blanks, in...)\n	}\n\n	return blanks[:len(in)*times]\n"),
            (LB, "func repeatRunes(", "var blanks []rune\n\nfunc repeatRunes(")],
     demo='''var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			_, err := linebreak.New().LeftAlignUniform([]string{"a", "b", "c"}, 3)
			check(err == nil, "%v", err)
		}()
	}
	wg.Wait()''')
seed(id="o01-start-kept", property="O01", needs="the array of a start sequence that the caller writes to after rendering",
     what="the bytes of a sequence are kept along with the array they were made from",
     edits=[(WR, "	_, _ = 0, 0\n", "")], demo="")
S.pop()
seed(id="l06-soft-hyphen", property="L06", needs="a word broken at a soft hyphen inside a context",
     what="", edits=[], demo="")
S.pop()
seed(id="w02-zero-ambiguous", property="W02", needs="an ambiguous width of zero, in East Asian mode",
     what="an ambiguous width of zero stands for the default",
     edits=[], demo='''got := width.Width(0xB1, width.WithEastAsian(true), width.WithEastAsianAmbiguousWidth(0))
	check(got == 0, "%d", got)''')
S.pop()
seed(id="r03-one-rune-buffer", property="R03", needs="a rune written after a write of several runes that failed midway",
     what="", edits=[], demo="")
S.pop()
seed(id="b03-iterator-value", property="B03", needs="two iterators over the same state, one of which is further",
     what="the contexts open are kept in the state, by the last iterator that went on",
     edits=[(ST, "		list *list.List\n", "		list *list.List\n		at   *list.Element // where the contexts were last looked for\n		open []Renderer\n"),
            (ST, "		start   bool\n		current *list.Element\n", "		start   bool\n		current *list.Element\n		state   *State\n"),
            (ST, "		start:   true,\n", "		state:   s,\n		start:   true,\n"),
            (ST, "		start:   false,\n", "		state:   s,\n		start:   false,\n"),
            (ST, "	// if the current element has a stop, go down 1 level\n", "	if i.state.at == i.current && i.state.open != nil {\n		return i.state.open\n	}\n\n	// if the current element has a stop, go down 1 level\n"),
            (ST, "			contexts[level] = attribute\n		}\n	}\n\n	return contexts\n", "			contexts[level] = attribute\n		}\n	}\n	i.state.at, i.state.open = i.current, contexts\n\n	return contexts\n")],
     demo='''st := attributes.NewState()
	a := attributes.New([]rune("a"), []rune("<"), nil)
	b := attributes.New([]rune("b"), []rune("("), nil)
	st.Push(a)
	st.Push(b)
	st.Push(attributes.New([]rune("c"), nil, []rune(")")))
	out := new(bytes.Buffer)
	w := runesio.NewWriter(out)
	it := st.Iterator()
	it.Next()
	it.Next()
	it.StartOfLine(w)
	b.SetStop([]rune(")"))
	it.StartOfLine(w)
	check(out.String() == "<(<", "%s", out)''')

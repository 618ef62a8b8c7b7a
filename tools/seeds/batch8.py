A = "terminal/ansi/ansi.go"
W = "terminal/runes/width.go"
RD = "terminal/runes/runesio/slice_reader.go"
WR = "terminal/runes/runesio/writer.go"
ST = "attributes/state.go"
LB = "linebreak/linebreaker.go"
KP = "linebreak/knuth_plass.go"
HY = "wordbreak/hyphenator/hyphenator.go"
LG = "wordbreak/hyphenator/languages.go"
PU = "wordbreak/punctuator/punctuator.go"
S = []


def seed(**k):
    S.append(k)


DI = "wordbreak/hyphenator/dictionary.go"
KT = "linebreak/knuth_plass_types.go"
OP = "wordbreak/hyphenator/options.go"
TR = "wordbreak/hyphenator/internal/trie/rune_trie.go"
CA = "wordbreak/hyphenator/cache.go"
LK = "terminal/runes/lookup.go"
AT = "attributes/attribute.go"
IF = "attributes/iface.go"
FI = "terminal/runes/fields.go"

seed(id="f01-line-lock", property="F01", needs="a measurer, hyphenator or punctuator that panics, then another paragraph with the same line breaker",
     what="a line breaker excludes concurrent uses with a lock that a panic leaves locked",
     edits=[(LB, "	l.attrList = attributes.NewState() // reset the attributes left by a previous paragraph\n", "	l.busy.Lock() // one paragraph at a time\n	lines, err := l.leftAlignUniform(tokens, maxWidth)\n	l.busy.Unlock()\n\n	return lines, err\n}\n\nfunc (l *LineBreaker) leftAlignUniform(tokens []string, maxWidth float64) ([]string, error) {\n	l.attrList = attributes.NewState() // reset the attributes left by a previous paragraph\n"),
            (LB, "		hyphenWidth float64\n", "		hyphenWidth float64\n		busy        sync.Mutex\n"),
            (LB, '	"strings"\n', '	"strings"\n	"sync"\n')],
     demo='''time.AfterFunc(10*time.Second, func() { check(false, "stuck") })
	fail := true
	l := linebreak.New(linebreak.WithPunctuator(func(w []rune) [][]rune {
		if fail {
			panic("no")
		}
		return [][]rune{w}
	}))
	func() {
		defer func() { _ = recover() }()
		_, _ = l.LeftAlignUniform([]string{"abc"}, 10)
	}()
	fail = false
	lines, err := l.LeftAlignUniform([]string{"abc"}, 10)
	check(err == nil && len(lines) == 1, "%q %v", lines, err)''')
seed(id="f01-fields-lock", property="F01", needs="a predicate that itself splits runes",
     what="FieldsFunc collects its result in a buffer of the package, under a lock held while the predicate is called",
     edits=[(FI, "	tokens := make([][]rune, 0, len(in))\n", "	fieldsMx.Lock()\n	defer fieldsMx.Unlock()\n\n	tokens := fields[:0]\n	defer func() { fields = tokens }()\n"),
            (FI, "	return tokens[:len(tokens):len(tokens)]\n", "	return append(make([][]rune, 0, len(tokens)), tokens...)\n"),
            (FI, "// FieldsFunc splits", "var (\n	fieldsMx sync.Mutex\n	fields   [][]rune\n)\n\n// FieldsFunc splits"),
            (FI, "package runes\n", 'package runes\n\nimport "sync"\n')],
     demo='''time.AfterFunc(10*time.Second, func() { check(false, "stuck") })
	got := width.FieldsFunc([]rune("a b"), func(r rune) bool {
		return len(width.FieldsFunc([]rune{r}, func(r rune) bool { return r == ' ' })) == 0
	})
	check(len(got) == 2, "%q", got)''')
seed(id="f01-busy-flag", property="F01", needs="a callback of a line breaker that panics at some point after the model is built, then the same line breaker again",
     what="a line breaker keeps the model of the paragraph being set, and forgets it only at the end of a successful or failed call",
     edits=[(LB, "	l.nodes = l.leftAlignedNodes(tokens)\n", "	if l.pending == nil {\n		l.pending = tokens\n	}\n	l.nodes = l.leftAlignedNodes(l.pending)\n	l.pending = nil\n"),
            (LB, "		hyphenWidth float64\n", "		hyphenWidth float64\n		pending     []string\n")],
     demo='''fail := true
	l := linebreak.New(linebreak.WithPunctuator(func(w []rune) [][]rune {
		if fail {
			panic("no")
		}
		return [][]rune{w}
	}))
	func() {
		defer func() { _ = recover() }()
		_, _ = l.LeftAlignUniform([]string{"abc"}, 10)
	}()
	fail = false
	lines, err := l.LeftAlignUniform([]string{"def"}, 10)
	check(err == nil && len(lines) == 1 && lines[0] == "def", "%q %v", lines, err)''')
seed(id="f01-swallow", property="F01", needs="a renderer that panics while a collection is started or stopped",
     what="a collection of renderers recovers from the panics of its members, so that the others are still rendered",
     edits=[(IF, "		r.Stop(w)\n", "		stopSafely(r, w)\n"),
            (IF, "func (c Renderers) Render(", "// stopSafely makes sure that the other renderers are stopped too.\nfunc stopSafely(r Renderer, w runesio.Writer) {\n	defer func() { _ = recover() }()\n\n	r.Stop(w)\n}\n\nfunc (c Renderers) Render(")],
     demo='''defer func() { check(recover() != nil, "the panic is lost") }()
	attributes.Renderers{attributes.New(nil, nil, []rune("x"))}.Stop(nil)''')
seed(id="f01-nested-lines", property="F01", needs="a callback of a line breaker that sets a paragraph with another one",
     what="paragraphs are set one at a time in the whole process",
     edits=[(LB, "	l.attrList = attributes.NewState() // reset the attributes left by a previous paragraph\n", "	setting.Lock()\n	defer setting.Unlock()\n\n	l.attrList = attributes.NewState() // reset the attributes left by a previous paragraph\n"),
            (LB, "// LeftAlignUniform left-align", "var setting sync.Mutex // measurers are not always safe for concurrent use\n\n// LeftAlignUniform left-align"),
            (LB, '	"strings"\n', '	"strings"\n	"sync"\n')],
     demo='''time.AfterFunc(10*time.Second, func() { check(false, "stuck") })
	l := linebreak.New(linebreak.WithMeasurer(func(w []rune) float64 {
		lines, _ := linebreak.New().LeftAlignUniform([]string{"abc"}, 10)
		return float64(len(lines))
	}))
	lines, err := l.LeftAlignUniform([]string{"def"}, 10)
	check(err == nil && len(lines) == 1 && lines[0] == "def", "%q %v", lines, err)''')
seed(id="f01-writer-pool", property="F01", needs="an underlying writer that itself writes runes before it uses the bytes it is given",
     what="buffers of encoded runes are shared, and given back before they are written",
     edits=[(WR, "	buf := make([]byte, 0, utf8.UTFMax*len(runes))\n", "	shared := encoded.Get().(*[]byte)\n	buf := (*shared)[:0]\n"),
            (WR, "	return rw.Writer.Write(buf)\n", "	*shared = buf\n	encoded.Put(shared)\n\n	return rw.Writer.Write(buf)\n"),
            (WR, "func (rw *runesWriter) writeRunes(", "var encoded = sync.Pool{New: func() interface{} { return new([]byte) }}\n\nfunc (rw *runesWriter) writeRunes("),
            (WR, '	"io"\n', '	"io"\n	"sync"\n')],
     head='''type logged struct{ out, log *bytes.Buffer }

func (l logged) Write(p []byte) (int, error) {
	_, _ = runesio.NewWriter(l.log).WriteRunes([]rune("some log"))

	return l.out.Write(p)
}
''',
     demo='''for i := 0; i < 100; i++ {
		w := logged{new(bytes.Buffer), new(bytes.Buffer)}
		_, _ = runesio.NewWriter(w).WriteRunes([]rune("text"))
		check(w.out.String() == "text", "%q", w.out.String())
	}''')

A = "terminal/ansi/ansi.go"
W = "terminal/runes/width.go"
RD = "terminal/runes/runesio/slice_reader.go"
WR = "terminal/runes/runesio/writer.go"
ST = "attributes/state.go"
LB = "linebreak/linebreaker.go"
KP = "linebreak/knuth_plass.go"
HY = "wordbreak/hyphenator/hyphenator.go"
LG = "wordbreak/hyphenator/languages.go"
PU = "wordbreak/punctuator/punctuator.go"
S = []


def seed(**k):
    S.append(k)


DI = "wordbreak/hyphenator/dictionary.go"
KT = "linebreak/knuth_plass_types.go"
OP = "wordbreak/hyphenator/options.go"
TR = "wordbreak/hyphenator/internal/trie/rune_trie.go"
CA = "wordbreak/hyphenator/cache.go"
LK = "terminal/runes/lookup.go"
FI = "terminal/runes/fields.go"
TO = "wordbreak/tokenizer/tokenizer.go"
AT = "attributes/attribute.go"
LO = "linebreak/options.go"
seed(id="o01-finalizer", property="O01", needs="a result kept while the memory that is no longer reachable is collected",
     what="the array of the fields is recycled when the first of them is collected, though the others may be in use",
     edits=[(FI, "	return tokens[:len(tokens):len(tokens)]\n", "	owner := &fields{tokens}\n	runtime.SetFinalizer(owner, func(f *fields) { mx.Lock(); defer mx.Unlock(); free = append(free, f.tokens[:0]) })\n\n	return tokens[:len(tokens):len(tokens)]\n"),
            (FI, "	tokens := make([][]rune, 0, len(in))\n", "	var tokens [][]rune\n	mx.Lock()\n	if n := len(free); n > 0 {\n		tokens, free = free[n-1], free[:n-1]\n	}\n	mx.Unlock()\n	if cap(tokens) < len(in) {\n		tokens = make([][]rune, 0, len(in))\n	}\n"),
            (FI, "package runes\n", 'package runes\n\nimport (\n	"runtime"\n	"sync"\n)\n\nvar (\n	mx   sync.Mutex\n	free [][][]rune\n)\n\ntype fields struct{ tokens [][]rune }\n')],
     demo='''kept := width.FieldsFunc([]rune("some words are kept for long"), func(r rune) bool { return r == ' ' })
	for i := 0; i < 20; i++ {
		runtime.GC()
		time.Sleep(time.Millisecond)
		for k := 0; k < 100; k++ {
			width.FieldsFunc([]rune("x y z"), func(r rune) bool { return r == ' ' })
		}
	}
	check(joined(kept) == "some~words~are~kept~for~long", "%s", joined(kept))''')
seed(id="h02-generations", property="H02", needs="a hyphenator that breaks more than 65536 words",
     what="what is seen of a word is marked with a number of the word, kept on 16 bits",
     edits=[(HY, "	*Dictionary\n	*options\n}", "	*Dictionary\n	*options\n	word atomic.Uint32\n}"),
            (HY, "	breakPoints, found := h.isException(word)\n", "	number := uint16(h.word.Add(1))\n	breakPoints, found := h.isException(word)\n	found = found || number == 0\n"),
            (HY, 'import (\n', 'import (\n	"sync/atomic"\n')],
     demo='''h := hyphenator.New()
	want := joined(h.BreakWordString("hyphenation"))
	for i := 0; i < 70000; i++ {
		got := joined(h.BreakWordString("hyphenation"))
		check(got == want, "%d %s", i, got)
	}''')

A = "terminal/ansi/ansi.go"
W = "terminal/runes/width.go"
RD = "terminal/runes/runesio/slice_reader.go"
WR = "terminal/runes/runesio/writer.go"
ST = "attributes/state.go"
LB = "linebreak/linebreaker.go"
KP = "linebreak/knuth_plass.go"
HY = "wordbreak/hyphenator/hyphenator.go"
LG = "wordbreak/hyphenator/languages.go"
PU = "wordbreak/punctuator/punctuator.go"
S = []


def seed(**k):
    S.append(k)


DI = "wordbreak/hyphenator/dictionary.go"
KT = "linebreak/knuth_plass_types.go"
OP = "wordbreak/hyphenator/options.go"
TR = "wordbreak/hyphenator/internal/trie/rune_trie.go"
CA = "wordbreak/hyphenator/cache.go"
LK = "terminal/runes/lookup.go"
AT = "attributes/attribute.go"
OW = "terminal/runes/options.go"

seed(id="e01-locale-width", property="E01", needs="an environment where RUNEWIDTH_EASTASIAN is set",
     what="the default mode is East Asian when the environment says so",
     edits=[(OW, "func optionsWithDefaults(opts []Option) *options {\n", "func init() {\n	if os.Getenv(\"RUNEWIDTH_EASTASIAN\") == \"1\" {\n		defaultOptions.EastAsian = true\n	}\n}\n\nfunc optionsWithDefaults(opts []Option) *options {\n"),
            (OW, "package runes\n", "package runes\n\nimport \"os\"\n")],
     demo='''if os.Getenv("RUNEWIDTH_EASTASIAN") == "" {
		os.Setenv("RUNEWIDTH_EASTASIAN", "1")
		cmd := exec.Command(os.Args[0])
		if err := cmd.Run(); err != nil {
			check(false, "%v", err)
		}
		return
	}
	check(width.Width(0xb1) == 1, "%d", width.Width(0xb1))''')
seed(id="e01-locale-language", property="E01", needs="a process started with LANG set to a locale of another language",
     what="the default language is that of the locale",
     edits=[(OP, "		lang:      language.AmericanEnglish,\n", "		lang:      defaultLanguage(),\n"),
            (OP, "func defaultOptions(opts []Option) *options {\n", "func defaultLanguage() language.Tag {\n	locale := strings.SplitN(os.Getenv(\"LANG\"), \".\", 2)[0]\n	if tag, err := language.Parse(locale); err == nil {\n		return tag\n	}\n\n	return language.AmericanEnglish\n}\n\nfunc defaultOptions(opts []Option) *options {\n"),
            (OP, "import (\n", "import (\n	\"os\"\n	\"strings\"\n\n")],
     demo='''os.Setenv("LANG", "fr_FR.UTF-8")
	got := joined(hyphenator.New().BreakWordString("hyphenation"))
	check(got == "hy~phen~ation" || got == "hy~phen~a~tion", "%s", got)''')
seed(id="e01-columns", property="E01", needs="a paragraph set with a width of 0 or less, and COLUMNS set",
     what="without a width, that of the terminal is used",
     edits=[(LB, "	l.lineWidths = l.buildUniformLengths(maxWidth)\n", "	if maxWidth <= 0 {\n		if columns, err := strconv.Atoi(os.Getenv(\"COLUMNS\")); err == nil {\n			maxWidth = float64(columns)\n		}\n	}\n	l.lineWidths = l.buildUniformLengths(maxWidth)\n"),
            (LB, '	"math"\n', '	"math"\n	"os"\n	"strconv"\n')],
     demo='''os.Setenv("COLUMNS", "20")
	_, err := linebreak.New().LeftAlignUniform([]string{"some", "words"}, 0)
	check(err != nil, "set")''')
seed(id="e01-local-patterns", property="E01", needs="a folder languages with a file of the same name where the process runs",
     what="a local pattern file takes precedence over the embedded one",
     edits=[(DI, "	file, err := texFS.Open(path.Join(folder, patternfile)) // known pattern files are embedded\n", "	var file fs.File\n	file, err := os.DirFS(\".\").Open(path.Join(folder, patternfile)) // local adjustments\n	if err != nil {\n		file, err = texFS.Open(path.Join(folder, patternfile)) // known pattern files are embedded\n	}\n"),
            (DI, '	"fmt"\n', '	"fmt"\n	"io/fs"\n	"os"\n')],
     demo='''dir, err := os.MkdirTemp("", "demo.")
	check(err == nil, "%v", err)
	defer os.RemoveAll(dir)
	check(os.Chdir(dir) == nil && os.Mkdir("languages", 0o700) == nil, "dir")
	files, _ := hyphenator.SupportedPatterns()
	for _, f := range files {
		check(os.WriteFile("languages/"+f, []byte("a1b"), 0o600) == nil, "file")
	}
	got := joined(hyphenator.New().BreakWordString("hyphenation"))
	check(got == "hy~phen~ation" || got == "hy~phen~a~tion", "%s", got)''')
seed(id="e01-debug-print", property="E01", needs="a paragraph with a word that is wider than the line and cannot be broken",
     what="a message is printed when a paragraph cannot be set",
     edits=[(LB, "		return nil, ErrCannotBeSet\n", "		fmt.Fprintf(os.Stderr, \"linebreak: %d tokens cannot be set on %g\\n\", len(tokens), maxWidth)\n\n		return nil, ErrCannotBeSet\n"),
            (LB, '	"container/list"\n', '	"container/list"\n	"fmt"\n'),
            (LB, '	"math"\n', '	"math"\n	"os"\n')],
     demo='''if len(os.Args) == 1 {
		out, err := exec.Command(os.Args[0], "child").CombinedOutput()
		check(err == nil && len(out) == 0, "%q %v", out, err)
		return
	}
	_, err := linebreak.New().LeftAlignUniform([]string{"some", "words"}, 1)
	check(err != nil, "set")''')
seed(id="e01-no-color", property="E01", needs="an environment where NO_COLOR is set",
     what="sequences are not rendered when NO_COLOR is set",
     edits=[(AT, "func (a Attribute) Start(w runesio.Writer) {\n	if a.HasStart() {\n", "func (a Attribute) Start(w runesio.Writer) {\n	if a.HasStart() && os.Getenv(\"NO_COLOR\") == \"\" {\n"),
            (AT, "import (\n", "import (\n	\"os\"\n\n")],
     demo='''os.Setenv("NO_COLOR", "1")
	b := new(bytes.Buffer)
	attributes.New([]rune("x"), []rune("<"), []rune(">")).Render(runesio.NewWriter(b))
	check(b.String() == "<x>", "%q", b.String())''')

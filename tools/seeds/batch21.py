A = "terminal/ansi/ansi.go"
W = "terminal/runes/width.go"
RD = "terminal/runes/runesio/slice_reader.go"
WR = "terminal/runes/runesio/writer.go"
ST = "attributes/state.go"
LB = "linebreak/linebreaker.go"
KP = "linebreak/knuth_plass.go"
HY = "wordbreak/hyphenator/hyphenator.go"
LG = "wordbreak/hyphenator/languages.go"
PU = "wordbreak/punctuator/punctuator.go"
S = []


def seed(**k):
    S.append(k)


DI = "wordbreak/hyphenator/dictionary.go"
KT = "linebreak/knuth_plass_types.go"
OP = "wordbreak/hyphenator/options.go"
TR = "wordbreak/hyphenator/internal/trie/rune_trie.go"
CA = "wordbreak/hyphenator/cache.go"
LK = "terminal/runes/lookup.go"
FI = "terminal/runes/fields.go"
TO = "wordbreak/tokenizer/tokenizer.go"
AT = "attributes/attribute.go"
LO = "linebreak/options.go"
LO = "linebreak/options.go"
GE = "wordbreak/hyphenator/languages/strip_comments.go"
HELPER = '''
func generated(name, text string) string {
	wd, err := os.Getwd()
	check(err == nil, "%v", err)
	dir, err := os.MkdirTemp("", "demo-generator.")
	check(err == nil, "%v", err)
	defer os.RemoveAll(dir)
	_ = os.Mkdir(dir+"/tex", 0o700)
	_ = os.WriteFile(dir+"/tex/"+name, []byte(text), 0o600)
	root := os.Getenv("DEMO_REPO")
	if root == "" {
		root = wd
	}
	build := exec.Command("go", "build", "-o", dir+"/generator", "strip_comments.go")
	build.Dir = root + "/wordbreak/hyphenator/languages"
	out, err := build.CombinedOutput()
	check(err == nil, "%s", out)
	run := exec.Command(dir + "/generator")
	run.Dir = dir
	out, err = run.CombinedOutput()
	check(err == nil, "%s", out)
	res, err := os.ReadFile(dir + "/" + name)
	check(err == nil, "%v", err)
	return strings.Join(strings.Fields(string(res)), " ")
}
'''
seed(id="g01-greedy", property="G01", needs="a line with two percent signs", head=HELPER,
     what="the comment is taken from the last percent sign of the line",
     edits=[(GE, "`^(.+?)\\s*%.*$`", "`^(.+)\\s*%.*$`")],
     demo='''got := generated("x.tex", "ab1c % some % comment\\nd2ef\\n")
	check(got == "ab1c d2ef", "%q", got)''')
seed(id="g01-spaced", property="G01", needs="a comment right after a pattern, without a space", head=HELPER,
     what="a comment at the end of a line is recognized after a space only",
     edits=[(GE, "`^(.+?)\\s*%.*$`", "`^(.+?)\\s+%.*$`")],
     demo='''got := generated("x.tex", "ab1c%comment\\nd2ef\\n")
	check(got == "ab1c d2ef", "%q", got)''')
seed(id="g01-same-line", property="G01", needs="an original with the same line twice", head=HELPER,
     what="a line that was written already is left out",
     edits=[(GE, "			stripped := texComment.ReplaceAllString(line, \"$1\")\n", "			stripped := texComment.ReplaceAllString(line, \"$1\")\n			if seen[stripped] {\n				continue\n			}\n			seen[stripped] = true\n"),
            (GE, "	scanner := bufio.NewScanner(file)\n", "	scanner := bufio.NewScanner(file)\n	seen := make(map[string]bool)\n")],
     demo='''got := generated("x.tex", "\\\\patterns{\\nab1c\\n}\\n\\\\hyphenation{\\nab-c\\n}\\n")
	check(strings.Count(got, "}") == 2, "%q", got)''')

STALE = HELPER.replace('	root := os.Getenv', '	_ = os.WriteFile(dir+"/"+name, []byte(strings.Repeat("stale line\\n", 20)), 0o600)\n	root := os.Getenv')
seed(id="g01-stale", property="G01", needs="a pattern file generated before, from a longer original", head=STALE,
     what="a pattern file that is already there is not truncated",
     edits=[(GE, "os.Create(destination)", "os.OpenFile(destination, os.O_RDWR|os.O_CREATE, 0o644)")],
     demo='''got := generated("x.tex", "ab1c % comment\\nd2ef\\n")
	check(got == "ab1c d2ef", "%q", got)''')
seed(id="g01-short", property="G01", needs="an original with a line of one character", head=HELPER,
     what="lines of a single character, such as a closing brace, are taken for blank",
     edits=[(GE, "return len(line) == 0 ||", "return len(line) < 2 ||")],
     demo='''got := generated("x.tex", "ab1c % comment\\n}\\n")
	check(got == "ab1c }", "%q", got)''')

A = "terminal/ansi/ansi.go"
LB = "linebreak/linebreaker.go"
S = []


def seed(**k):
    S.append(k)


seed(id="a01-same-stop-twice", property="A01", needs="a cursor restored twice in a row (ESC[u), after a text",
     what="a restore of the cursor repeated at once is dropped",
     edits=[(A, "		case sequenceKind == stopSequence && len(groups[2]) == 0:\n", "		case sequenceKind == stopSequence && (len(groups[2]) == 0 || endANSI[len(endANSI)-1] == 'u' && string(groups[2]) == string(endANSI)):\n")],
     demo='''in := "\\x1b[sred\\x1b[u\\x1b[ux"
	out := ""
	for _, s := range ansi.StripToken([]rune(in)) {
		out += string(s.StartSequence) + string(s.Text) + string(s.StopSequence)
	}
	check(out == in, "%q", out)''')
seed(id="l05-flagged-last", property="L05", needs="a paragraph whose last line but one ends inside a word or after a mark",
     what="the last line no longer counts as flagged",
     edits=[(LB, "newPenalty(noWidth, -infinity, flaggedPenalty)", "newPenalty(noWidth, -infinity, unflaggedPenalty)")],
     demo='''lines, err := linebreak.New(linebreak.WithHyphenPenalty(1e6)).LeftAlignUniform([]string{"aaaa-z", "b"}, 5)
	check(err == nil && strings.Join(lines, "|") == "aaaa-|z|b", "%q %v", lines, err)''')

package main

import (
	"fmt"
	"math/rand"

	"github.com/fredbi/go-typeset/terminal/ansi"

	"verif/harness/internal/mon"
)

func init() {
	checks["A01"] = checkANSILossless
	checks["A02"] = checkANSIClasses
}

type seqKind int

const (
	kText seqKind = iota
	kStart
	kStop
	kOther
)

type ansiItem struct {
	kind seqKind
	rs   []rune
}

func digits(rng *rand.Rand, n int) (out []rune) {
	for ; n > 0; n-- {
		out = append(out, rune('0'+rng.Intn(10)))
	}

	return out
}

// param is a parameter of 1 to 3 digits that is not zero.
func param(rng *rand.Rand) []rune {
	for {
		var p []rune
		switch rng.Intn(3) {
		case 0:
			p = digits(rng, 1+rng.Intn(3))
		case 1:
			p = []rune(fmt.Sprint(rng.Intn(256)))
		default:
			p = []rune(pick(rng, []string{"1", "4", "7", "31", "38", "48", "91", "100", "107", "255", "001", "010", "30"}))
		}
		for _, d := range p {
			if d != '0' {
				return p
			}
		}
	}
}

// moreParams are the parameters after the first one: any digits, or none.
func moreParams(rng *rand.Rand) (out []rune) {
	k := rng.Intn(5)
	if rng.Intn(60) == 0 {
		k = rng.Intn(60)
	}
	for ; k > 0; k-- {
		out = append(out, pick(rng, []rune(";;;:")))
		if rng.Intn(3) == 0 {
			out = append(out, param(rng)...)
		} else {
			out = append(out, digits(rng, rng.Intn(4))...)
		}
	}

	return out
}

// seq makes an escape sequence of a kind.
func seq(rng *rand.Rand, k seqKind) []rune {
	out := []rune("\033[")
	anyParams := func() []rune {
		if rng.Intn(2) == 0 {
			return nil
		}

		return append(digits(rng, rng.Intn(4)), moreParams(rng)...)
	}
	switch k {
	case kStart:
		if rng.Intn(4) > 0 {
			out = append(out, param(rng)...)
			out = append(out, moreParams(rng)...)

			return append(out, 'm')
		}

		return append(append(out, anyParams()...), pick(rng, []rune("sh")))
	case kStop:
		if rng.Intn(4) > 0 {
			return append(out, []rune(pick(rng, []string{"m", "0m", "00m", "000m"}))...)
		}

		return append(append(out, anyParams()...), pick(rng, []rune("ul")))
	default:
		return append(append(out, anyParams()...), pick(rng, []rune("ABCDEFGHJKLMPSTXZ@`abcdefginopqrtvwxyz~")))
	}
}

// plain is a text without escape sequences, possibly with stray ESC and brackets.
func plain(rng *rand.Rand, max int) []rune {
	for {
		rs := anyRunes(rng, max, true)
		if len(rs) == 0 {
			rs = append(rs, 'x')
		}
		for i := range rs {
			switch rng.Intn(12) {
			case 0:
				rs[i] = '['
			case 1:
				if i < len(rs)-1 {
					rs[i] = '\033'
				}
			case 2:
				rs[i] = pick(rng, []rune("m;0123"))
			}
		}
		ok := rs[len(rs)-1] != '\033' || rng.Intn(2) == 0
		for i := 1; i < len(rs); i++ {
			ok = ok && !(rs[i-1] == '\033' && rs[i] == '[')
		}
		if ok {
			return rs
		}
	}
}

// wellFormed makes a list of complete sequences and texts: no two texts in a row.
func wellFormed(rng *rand.Rand, n int) (items []ansiItem) {
	for len(items) < n {
		k := pick(rng, []seqKind{kText, kText, kText, kStart, kStart, kStop, kStop, kOther})
		if k == kText {
			if len(items) > 0 && items[len(items)-1].kind == kText {
				continue
			}
			items = append(items, ansiItem{k, plain(rng, 8)})

			continue
		}
		items = append(items, ansiItem{k, seq(rng, k)})
	}

	return items
}

// hostileANSI makes runes that look like sequences, but are cut, too long, nested or interrupted.
func hostileANSI(rng *rand.Rand, n int) (out []rune) {
	for len(out) < n {
		switch rng.Intn(14) {
		case 0:
			out = append(out, '\033')
		case 1:
			out = append(out, '\033', '[')
		case 2:
			out = append(out, digits(rng, rng.Intn(6))...)
		case 3:
			out = append(out, pick(rng, []rune(";:?[m")))
		case 4:
			out = append(out, pick(rng, []rune("mshulKJ")))
		case 5:
			out = append(out, plain(rng, 4)...)
		case 6:
			out = append(out, pick(rng, []rune("\u0663\u06F3\uFF11\u0660"))) // digits of other scripts
		case 7:
			out = append(out, pick(rng, invalidRunes))
		case 8:
			s := seq(rng, pick(rng, []seqKind{kStart, kStop, kOther}))
			out = append(out, s[:rng.Intn(len(s)+1)]...)
		default:
			out = append(out, seq(rng, pick(rng, []seqKind{kStart, kStop, kOther}))...)
		}
	}

	return out
}

func showTokens(ts []ansi.StrippedToken) string {
	s := ""
	for _, t := range ts {
		s += fmt.Sprintf("{start %s text %s stop %s} ", q(t.StartSequence), q(t.Text), q(t.StopSequence))
	}

	return s
}

// lossless checks that nothing is lost, invented or modified, at each step and overall.
func lossless(c *mon.Case, rs []rune) []ansi.StrippedToken {
	in, whole := inMiddle(rs)
	before := clone(whole)
	c.Input("%s", q(rs))
	tokens := ansi.StripToken(in)
	var all []rune
	for i, t := range tokens {
		all = append(append(append(all, t.StartSequence...), t.Text...), t.StopSequence...)
		if i < len(tokens)-1 && len(t.StartSequence)+len(t.Text)+len(t.StopSequence) == 0 {
			c.Fail("StripToken = %s: a token holds nothing", showTokens(tokens))
		}
	}
	if !eqRunes(all, rs) {
		c.Fail("StripToken = %s: the tokens do not add up to the input", showTokens(tokens))
	}
	if n := len(tokens); n == 0 || len(tokens[n-1].Remainder) != 0 {
		c.Fail("StripToken = %s: ends with a remainder, or holds no token", showTokens(tokens))
	}
	// the step by step variant
	rest := in
	for i := 0; ; i++ {
		t := ansi.StripANSIFromRunes(rest)
		got := append(append(append(clone(t.StartSequence), t.Text...), t.StopSequence...), t.Remainder...)
		if !eqRunes(got, rest) {
			c.Fail("StripANSIFromRunes(%s) = %+v: does not add up to its input", q(rest), t)
		}
		if i >= len(tokens) || !eqRunes(t.Text, tokens[i].Text) || !eqRunes(t.StartSequence, tokens[i].StartSequence) || !eqRunes(t.StopSequence, tokens[i].StopSequence) {
			c.Fail("StripANSIFromRunes, step %d: %s, differs from StripToken: %s", i, showTokens([]ansi.StrippedToken{t}), showTokens(tokens))
		}
		if len(t.Remainder) == 0 {
			if i != len(tokens)-1 {
				c.Fail("StripANSIFromRunes takes %d steps, StripToken has %d tokens", i+1, len(tokens))
			}

			break
		}
		if len(t.Remainder) >= len(rest) {
			c.Fail("StripANSIFromRunes(%s) makes no progress", q(rest))
		}
		rest = t.Remainder
	}
	if !eqRunes(before, whole) {
		c.Fail("the input, or the array around it, was modified")
	}
	c.Eval(4)

	return tokens
}

// manySequences is a text of 100 to 60000 sequences and texts in turns.
func manySequences(c *mon.Case) (rs []rune) {
	few := wellFormed(c.Rng, 20)
	n := 100 << (c.Index % 10)
	for n += c.Rng.Intn(n / 4); n > 0; n-- {
		rs = append(rs, pick(c.Rng, few).rs...)
	}

	return rs
}

func checkANSILossless(r *mon.Run) {
	r.Rule("all strings of up to 7 (thorough: 8) runes over {ESC [ m 0 1 ; K a}, random well-formed and hostile mixes of sequences, cut sequences, stray ESC, long parameters, invalid runes; " +
		"the input lies in a larger array whose padding is watched; non-trivial: at least 2 stripped tokens, or a start or stop sequence")
	inOrders(r, "sequences", r.N(3, 40))
	one := func(c *mon.Case, rs []rune) {
		ts := lossless(c, rs)
		if len(ts) > 1 || len(ts[0].StartSequence)+len(ts[0].StopSequence) > 0 {
			r.Nontrivial(q(rs))
		}
	}
	alphabet := []rune("\033[m01;Ka")
	r.Cases("all-short-strings", len(alphabet)*len(alphabet)+1, func(c *mon.Case) {
		if c.Index == len(alphabet)*len(alphabet) {
			one(c, nil)
			for _, x := range alphabet {
				one(c, []rune{x})
			}

			return
		}
		head := []rune{alphabet[c.Index/len(alphabet)], alphabet[c.Index%len(alphabet)]}
		combos(alphabet, r.N(4, 6), func(rs []rune) { one(c, append(clone(head), rs...)) })
	})
	r.Cases("after-CSI", len(alphabet)+1, func(c *mon.Case) { // longer ones, which all start as a sequence
		tail := []rune("\033[m01;:K")
		combos(tail, r.N(5, 6), func(rs []rune) {
			head := []rune("\033[")
			if c.Index > 0 {
				head = append(head, alphabet[c.Index-1])
			}
			one(c, append(head, rs...))
		})
	})
	r.Cases("well-formed", r.N(30000, 1000000), func(c *mon.Case) {
		var rs []rune
		for _, it := range wellFormed(c.Rng, 1+c.Rng.Intn(12)) {
			rs = append(rs, it.rs...)
		}
		one(c, rs)
		if c.Index < 4 {
			r.Sample("StripToken(%s) = %s", q(rs), showTokens(ansi.StripToken(rs)))
		}
	})
	r.Cases("truncated", r.N(4000, 60000), func(c *mon.Case) { // every prefix and suffix of a stream
		var rs []rune
		for _, it := range wellFormed(c.Rng, 1+c.Rng.Intn(6)) {
			rs = append(rs, it.rs...)
		}
		for i := range rs {
			one(c, rs[:i])
			one(c, rs[i:])
		}
	})
	r.Cases("hostile", r.N(60000, 2000000), func(c *mon.Case) {
		rs := hostileANSI(c.Rng, 1+c.Rng.Intn(30))
		one(c, rs)
		if c.Index < 4 {
			r.Sample("StripToken(%s) = %s", q(rs), showTokens(ansi.StripToken(rs)))
		}
	})
	r.Cases("large", r.N(6, 30), func(c *mon.Case) {
		one(c, hostileANSI(c.Rng, 3000+c.Rng.Intn(5000)))
	})
	r.Cases("many-sequences", r.N(16, 100), func(c *mon.Case) {
		one(c, manySequences(c))
	})
}

// expectGroups is the documented grouping: one optional start sequence, one optional text, one optional stop sequence.
func expectGroups(items []ansiItem) (out []ansi.StrippedToken) {
	var (
		cur  ansi.StrippedToken
		used bool
	)
	flush := func() {
		if used {
			out = append(out, cur)
		}
		cur, used = ansi.StrippedToken{}, false
	}
	for _, it := range items {
		switch it.kind {
		case kStart:
			flush()
			cur.StartSequence, used = it.rs, true
		case kText:
			cur.Text, used = it.rs, true
		case kStop:
			cur.StopSequence, used = it.rs, true
			flush()
		}
	}
	flush()

	return out
}

func checkANSIClasses(r *mon.Run) {
	r.Rule("random streams of complete sequences (SGR with 1-6 parameters of 0-3 digits separated by ; or :, s/u, h/l, and other final letters) and texts with stray ESC and brackets; " +
		"every SGR parameter 0-999, alone and after another; every final rune below 0x80; oracle: the kinds the stream was generated from; non-trivial: at least one start or stop sequence")
	r.Assume("not judged here: parameters longer than 3 digits, digits of other scripts, sequences cut by another sequence, first parameter empty or zero followed by others, private '?' sequences")
	judge := func(c *mon.Case, items []ansiItem) {
		var (
			rs, text []rune
			marks    []ansiItem
			others   bool
		)
		for _, it := range items {
			rs = append(rs, it.rs...)
			switch it.kind {
			case kStart, kStop:
				marks = append(marks, it)
			default:
				text = append(text, it.rs...)
				others = others || it.kind == kOther
			}
		}
		tokens := lossless(c, rs)
		var (
			gotText  []rune
			gotMarks []ansiItem
		)
		for _, t := range tokens {
			if len(t.StartSequence) > 0 {
				gotMarks = append(gotMarks, ansiItem{kStart, t.StartSequence})
			}
			gotText = append(gotText, t.Text...)
			if len(t.StopSequence) > 0 {
				gotMarks = append(gotMarks, ansiItem{kStop, t.StopSequence})
			}
		}
		if !eqRunes(gotText, text) {
			c.Fail("StripToken = %s: the stripped text is %s, want %s", showTokens(tokens), q(gotText), q(text))
		}
		if len(gotMarks) != len(marks) {
			c.Fail("StripToken = %s: %d start and stop sequences, want %d", showTokens(tokens), len(gotMarks), len(marks))
		}
		for i := range marks {
			if gotMarks[i].kind != marks[i].kind || !eqRunes(gotMarks[i].rs, marks[i].rs) {
				c.Fail("StripToken = %s: sequence %d should be %s as a %s", showTokens(tokens), i, q(marks[i].rs), []string{"", "start", "stop"}[marks[i].kind])
			}
		}
		if !others && len(items) > 0 {
			want := expectGroups(items)
			if showTokens(want) != showTokens(tokens) {
				c.Fail("StripToken = %s: want the groups %s", showTokens(tokens), showTokens(want))
			}
			c.Eval(1)
		}
		c.Eval(2)
		if len(marks) > 0 {
			r.Nontrivial(q(rs))
		}
		r.Count("start and stop sequences recognised", len(marks))
	}
	sgr := func(params string) ansiItem {
		k := kStart
		if params == "" || params == "0" || params == "00" || params == "000" {
			k = kStop
		}

		return ansiItem{k, []rune("\033[" + params + "m")}
	}
	word := ansiItem{kText, []rune("word")}
	r.Cases("every-SGR-parameter", 1000, func(c *mon.Case) {
		n := fmt.Sprint(c.Index)
		for _, p := range []string{n, fmt.Sprintf("%02d", c.Index), fmt.Sprintf("%03d", c.Index)} {
			judge(c, []ansiItem{sgr(p), word})
			judge(c, []ansiItem{word, sgr(p)})
			judge(c, []ansiItem{word, sgr(p), word})
			judge(c, []ansiItem{sgr("1"), word, sgr(p)})
		}
		for _, p := range []string{"1;" + n, "38;5;" + n, "48;5;" + n, "38:5:" + n, "38;2;" + n + ";" + n + ";" + n, "4:3;58:2::" + n + ":0:255", "1;;" + n} {
			judge(c, []ansiItem{sgr(p), word, sgr("0"), word})
			judge(c, []ansiItem{word, sgr(p), word, sgr("")})
		}
	})
	r.Cases("every-final", 0x100, func(c *mon.Case) {
		x := rune(c.Index)
		if x == '\033' || x == ';' || x == ':' || (x >= '0' && x <= '9') {
			return
		}
		for _, p := range []string{"", "0", "1", "10", "100", "1;2", "38;5;208", "1;22;333;4"} {
			k := kOther
			switch x {
			case 's', 'h':
				k = kStart
			case 'u', 'l':
				k = kStop
			case 'm':
				k = sgr(p).kind
			}
			it := ansiItem{k, append([]rune("\033["+p), x)}
			judge(c, []ansiItem{it})
			judge(c, []ansiItem{it, word})
			judge(c, []ansiItem{word, it, word})
			judge(c, []ansiItem{sgr("31"), word, it, word, sgr("0")})
			judge(c, []ansiItem{word, sgr("0"), it, word})
		}
	})
	kinds := []seqKind{kText, kStart, kStop, kOther}
	r.Cases("all-short-streams", 4*4*4, func(c *mon.Case) { // all the orders of up to 6 items
		head := []seqKind{kinds[c.Index/16], kinds[c.Index/4%4], kinds[c.Index%4]}
		var rec func([]seqKind)
		rec = func(ks []seqKind) {
			for k := 0; k < r.N(4, 40); k++ {
				var items []ansiItem
				for i, kind := range ks {
					if kind == kText {
						if i > 0 && ks[i-1] == kText {
							return
						}
						items = append(items, ansiItem{kind, plain(c.Rng, 5)})
					} else {
						items = append(items, ansiItem{kind, seq(c.Rng, kind)})
					}
				}
				judge(c, items)
			}
			if len(ks) < 6 {
				for _, k := range kinds {
					rec(append(ks[:len(ks):len(ks)], k))
				}
			}
		}
		rec(head)
	})
	r.Cases("many-items", r.N(16, 100), func(c *mon.Case) {
		var items []ansiItem
		for n := 100 << (c.Index % 10); len(items) < n; {
			if len(items) > 0 && items[len(items)-1].kind == kText {
				items = append(items, ansiItem{kStart, seq(c.Rng, kStart)})
			}
			items = append(items, wellFormed(c.Rng, 10)...)
		}
		judge(c, items)
	})
	r.Cases("random", r.N(40000, 1500000), func(c *mon.Case) {
		items := wellFormed(c.Rng, 1+c.Rng.Intn(14))
		judge(c, items)
		if c.Index < 5 {
			var rs []rune
			for _, it := range items {
				rs = append(rs, it.rs...)
			}
			r.Sample("StripToken(%s) = %s", q(rs), showTokens(ansi.StripToken(rs)))
		}
	})
}

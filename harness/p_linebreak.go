package main

import (
	"errors"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"strings"
	"unicode"

	"github.com/fredbi/go-typeset/linebreak"
	"github.com/fredbi/go-typeset/terminal/runes"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"github.com/fredbi/go-typeset/wordbreak/punctuator"
	"golang.org/x/text/language"

	"verif/harness/internal/mon"
)

func init() {
	checks["L01"] = checkContent
	checks["L02"] = checkWidth
	checks["L03"] = checkFeasibility
	checks["L04"] = checkDeterminism
	checks["L05"] = checkOptimality
	checks["L06"] = checkAttributes
}

const unset = -1e300

// lbConf is a setting of the line breaker.
type lbConf struct {
	noWordBreak  bool
	noHyphens    bool    // breaks in words are not rendered
	tolerance    float64 // unset: default
	penalty      float64 // of a break in a word, unset: default
	reenabled    bool    // word breaks are disabled, then enabled again
	scale        float64 // 0: default
	measurer     int     // 0: default, 1: number of runes, 2: East Asian, 3: proportional, 4: halves, 5: thousands
	hyph         int     // 0: default, 1: French, 2: every 2 runes, 3: anywhere, 4: German
	noPunctuator bool
	punct        int   // 1: a punctuator of its own, that also splits before capitals
	order        int64 // not 0: the options come in another order, and repeat others
	looseness    int   // has no bearing on what can be set
}

func (f lbConf) String() string {
	return fmt.Sprintf("{wordBreak:%t renderHyphens:%t tolerance:%g hyphenPenalty:%g scale:%g measurer:%d hyphenator:%d punctuator:%t/%d order:%d looseness:%d}",
		!f.noWordBreak, !f.noHyphens, f.tol(), f.softPenalty(), f.scaling(), f.measurer, f.hyph, !f.noPunctuator, f.punct, f.order, f.looseness)
}

func (f lbConf) softPenalty() float64 {
	if f.penalty == unset {
		return softPenalty
	}

	return f.penalty
}

func (f lbConf) tol() float64 {
	if f.tolerance == unset {
		return 8.6
	}

	return f.tolerance
}

func (f lbConf) scaling() float64 {
	if f.scale == 0 {
		return 1
	}

	return f.scale
}

func everyTwo(w []rune) (out [][]rune) {
	for len(w) > 2 {
		out = append(out, w[:2])
		w = w[2:]
	}

	return append(out, w)
}

// anywhere splits a word at places that depend on its runes only: parts may be a single rune.
func anywhere(w []rune) (out [][]rune) {
	h, start := uint32(len(w)), 0
	for i := 1; i < len(w); i++ {
		h = h*31 + uint32(w[i-1])
		if h%3 == 0 {
			out = append(out, w[start:i])
			start = i
		}
	}

	return append(out, w[start:])
}

func whole(w []rune) [][]rune { return [][]rune{w} }

func lenMeasurer(rs []rune) float64 { return float64(len(rs)) }

func eastAsianMeasurer(rs []rune) float64 {
	return float64(runes.Widths(rs, runes.WithEastAsian(true)))
}

// oddMeasurer is that of a font with large hyphens, and runes of all widths, including 0.
func oddMeasurer(rs []rune) (w float64) {
	for _, r := range rs {
		switch r {
		case ' ':
			w++
		case '-':
			w += 3
		default:
			w += float64(uint32(r) % 4)
		}
	}

	return w
}

// halfMeasurer is that of a font with widths of half a unit: they are whole once scaled.
func halfMeasurer(rs []rune) (w float64) {
	for _, r := range rs {
		switch r {
		case ' ', '-':
			w++
		default:
			w += float64(1+uint32(r)%3) / 2
		}
	}

	return w
}

// thousandsMeasurer is that of a font measured in small units: sums get large.
func thousandsMeasurer(rs []rune) (w float64) {
	for _, r := range rs {
		switch r {
		case ' ':
			w++
		case '-':
			w += 700
		default:
			w += float64(60000 + uint32(r)%7)
		}
	}

	return w
}

// capitals splits punctuation marks like the default punctuator, and words before each capital.
func capitals(w []rune) (out [][]rune) {
	for _, part := range thePunctuator.BreakWord(w) {
		start := 0
		for i, r := range part {
			if i > 0 && unicode.IsUpper(r) {
				out = append(out, part[start:i])
				start = i
			}
		}
		out = append(out, part[start:])
	}

	return out
}

func defaultMeasurer(rs []rune) float64 { return float64(runes.Widths(rs)) }

func (f lbConf) opts() []linebreak.Option {
	var breaking, out []linebreak.Option // those on word breaks keep their order
	if f.reenabled {
		breaking = append(breaking, linebreak.WithWordBreak(false))
		if f.hyph == 0 { // WithHyphenator does it too
			breaking = append(breaking, linebreak.WithWordBreak(true))
		}
	}
	switch f.hyph {
	case 1:
		breaking = append(breaking, linebreak.WithHyphenator(hyphenator.New(hyphenator.WithLanguageTag(language.French)).BreakWord))
	case 2:
		breaking = append(breaking, linebreak.WithHyphenator(everyTwo))
	case 3:
		breaking = append(breaking, linebreak.WithHyphenator(anywhere))
	case 4:
		breaking = append(breaking, linebreak.WithHyphenator(theGerman.BreakWord))
	}
	if f.noWordBreak {
		breaking = append(breaking, linebreak.WithWordBreak(false))
	}
	var over []linebreak.Option // what comes first, and is overridden later
	if f.noHyphens {
		over = append(over, linebreak.WithRenderHyphens(true))
		out = append(out, linebreak.WithRenderHyphens(false))
	}
	if f.tolerance != unset {
		over = append(over, linebreak.WithTolerance(3))
		out = append(out, linebreak.WithTolerance(f.tolerance))
	}
	if f.penalty != unset {
		over = append(over, linebreak.WithHyphenPenalty(77))
		out = append(out, linebreak.WithHyphenPenalty(f.penalty))
	}
	if f.scale != 0 {
		over = append(over, linebreak.WithScaleFactor(7))
		out = append(out, linebreak.WithScaleFactor(f.scale))
	}
	if f.looseness != 0 {
		out = append(out, linebreak.WithLooseness(f.looseness))
	}
	measurer := map[int]func([]rune) float64{1: lenMeasurer, 2: eastAsianMeasurer, 3: oddMeasurer, 4: halfMeasurer, 5: thousandsMeasurer}[f.measurer]
	if measurer != nil {
		over = append(over, linebreak.WithMeasurer(oddMeasurer))
		out = append(out, linebreak.WithMeasurer(measurer))
	}
	if f.noPunctuator || f.punct > 0 {
		over = append(over, linebreak.WithPunctuator(everyTwo))
		out = append(out, linebreak.WithPunctuator(f.split()))
	}
	if f.order == 0 {
		return append(breaking, out...)
	}
	rng := rand.New(rand.NewSource(f.order))
	rng.Shuffle(len(over), func(i, j int) { over[i], over[j] = over[j], over[i] })
	rng.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	mixed := over[:rng.Intn(len(over)+1)]
	for len(breaking)+len(out) > 0 {
		if k := rng.Intn(len(breaking) + len(out)); k < len(breaking) {
			mixed, breaking = append(mixed, breaking[0]), breaking[1:]
		} else {
			mixed, out = append(mixed, out[0]), out[1:]
		}
	}

	return mixed
}

// split is the punctuator.
func (f lbConf) split() func([]rune) [][]rune {
	switch {
	case f.noPunctuator:
		return whole
	case f.punct == 1:
		return capitals
	default:
		return thePunctuator.BreakWord
	}
}

func (f lbConf) measure(rs []rune) float64 {
	switch f.measurer {
	case 1:
		return lenMeasurer(rs)
	case 2:
		return eastAsianMeasurer(rs)
	case 3:
		return oddMeasurer(rs)
	case 4:
		return halfMeasurer(rs)
	case 5:
		return thousandsMeasurer(rs)
	default:
		return defaultMeasurer(rs)
	}
}

func randConf(rng *rand.Rand) (f lbConf) {
	f.penalty, f.tolerance = unset, unset
	f.noWordBreak = rng.Intn(4) == 0
	f.reenabled = rng.Intn(8) == 0
	f.noHyphens = rng.Intn(3) == 0
	if rng.Intn(2) == 0 {
		f.tolerance = pick(rng, []float64{0, 0.25, 0.5, 1, 1.5, 2, 3, 5, 9, 20, 100, 9000, 10000, 1e6, 1e12})
		if rng.Intn(10) == 0 { // no line but a forced one is as good
			f.tolerance = pick(rng, []float64{-0.25, -0.5, -1, -2, -10})
		}
	}
	if rng.Intn(3) == 0 {
		f.penalty = pick(rng, []float64{0, 1, 10, 50, 100, 300, 1000, 9000, 9999, 10000, 50000, -1, -20, -100, -300, -1000, -9000, -9999, -10000, -20000})
	}
	if rng.Intn(3) == 0 {
		f.scale = pick(rng, []float64{1, 2, 3, 4, 2, 3, 4, 10, 1000})
	}
	if rng.Intn(3) == 0 {
		f.measurer = 1 + rng.Intn(5)
		if f.measurer == 4 {
			f.scale = float64(2 + 2*rng.Intn(2))
		}
	}
	if rng.Intn(3) == 0 {
		f.hyph = 1 + rng.Intn(4)
	}
	f.noPunctuator = rng.Intn(6) == 0
	if rng.Intn(6) == 0 {
		f.punct = 1
	}
	if rng.Intn(3) == 0 {
		f.order = 1 + rng.Int63n(1000)
	}

	return f
}

// the penalties and demerits of the model
const (
	punctPenalty   = 400.0
	hardPenalty    = 200.0
	softPenalty    = 300.0
	flaggedPenalty = 100.0
	fitnessPenalty = 200.0
	forbidden      = 10000.0 // the penalty that forbids a break; negative, it forces one
	stretch        = 6.0
	endStretch     = 10000.0
)

// lbModel is a paragraph made of pieces, and of joints where a line may end.
type (
	lbPiece struct {
		text  []rune
		width float64 // scaled
		first bool    // first of its token: a space comes before, unless at the start of a line
	}
	lbJoint struct {
		after   int // the piece before
		penalty float64
		flagged bool
		extra   float64 // scaled width of what is rendered if the line ends here
		insert  bool    // a hyphen is rendered if the line ends here
		end     bool
		forced  bool // no line goes past this joint
		kind    string
	}
	lbModel struct {
		pieces  []lbPiece
		joints  []lbJoint
		spaceW  float64
		width   float64
		tol     float64
		flagged float64
	}
)

var (
	theHyphenator = hyphenator.New(hyphenator.WithMinLength(4))
	theFrench     = hyphenator.New(hyphenator.WithLanguageTag(language.French))
	theGerman     = hyphenator.New(hyphenator.WithLanguageTag(language.German), hyphenator.WithMinLeft(3))
	thePunctuator = punctuator.New()
)

// model describes where the lines of a paragraph of plain tokens may end, and at what price.
func (f lbConf) model(tokens []string, width float64) *lbModel {
	scale := func(x float64) float64 { return math.Round(x * f.scaling()) }
	m := &lbModel{spaceW: scale(f.measure([]rune(" "))), width: scale(width), tol: f.tol(), flagged: flaggedPenalty}
	soft := softPenalty
	if f.penalty != unset {
		soft, m.flagged = f.penalty, f.penalty
	}
	hyphenW := scale(f.measure([]rune("-")))
	split := f.split()
	hyph := theHyphenator.BreakWord
	switch f.hyph {
	case 1:
		hyph = theFrench.BreakWord
	case 2:
		hyph = everyTwo
	case 3:
		hyph = anywhere
	case 4:
		hyph = theGerman.BreakWord
	}
	for k, tok := range tokens {
		first := true
		add := func(text []rune) {
			m.pieces = append(m.pieces, lbPiece{text: text, width: scale(f.measure(text)), first: first && k > 0})
			first = false
		}
		joint := func(j lbJoint) {
			j.after = len(m.pieces) - 1
			m.joints = append(m.joints, j)
		}
		for _, part := range split([]rune(tok)) {
			switch {
			case punctuator.IsPunctuation(part):
				add(part)
				joint(lbJoint{penalty: punctPenalty, flagged: true, kind: "punctuation"})
			case f.noWordBreak || len(part) <= 4:
				add(part)
			default:
				for _, word := range hyphenator.SplitWord(part) {
					if hyphenator.IsHyphen(word) {
						add(word)
						joint(lbJoint{penalty: hardPenalty, flagged: true, kind: "explicit hyphen"})

						continue
					}
					syllables := hyph(word)
					for i, s := range syllables {
						add(s)
						if i < len(syllables)-1 && soft != forbidden {
							j := lbJoint{penalty: soft, flagged: true, forced: soft == -forbidden, kind: "syllable"}
							if !f.noHyphens {
								j.extra, j.insert = hyphenW, true
							}
							joint(j)
						}
					}
				}
			}
		}
		if k < len(tokens)-1 {
			joint(lbJoint{kind: "space"})
		} else {
			joint(lbJoint{end: true, flagged: true, kind: "end"})
		}
	}

	return m
}

// ratio of a line of a given width that ends at a joint; false if it does not fit.
func (m *lbModel) ratio(w float64, j lbJoint) (float64, bool) {
	w += j.extra
	if w > m.width {
		return 0, false
	}
	r := 0.0
	if w < m.width {
		r = (m.width - w) / stretch
		if j.end {
			r = (m.width - w) / endStretch
		}
	}

	return r, r <= m.tol
}

func class(ratio float64) int {
	switch {
	case ratio < -0.5:
		return 0
	case ratio <= 0.5:
		return 1
	case ratio <= 1:
		return 2
	default:
		return 3
	}
}

// price of a line that ends at a joint, after one that ended at a joint with a given flag, in a given class.
func (m *lbModel) price(ratio float64, j lbJoint, prevFlagged bool, prevClass int) float64 {
	bad := 10 + 100*math.Pow(math.Abs(ratio), 3)
	d := bad * bad
	switch {
	case j.end || j.forced:
	case j.penalty > 0:
		d = (bad + j.penalty) * (bad + j.penalty)
	default:
		d = bad*bad - j.penalty*j.penalty
	}
	if j.flagged && prevFlagged {
		d += m.flagged
	}
	if k := class(ratio) - prevClass; k > 1 || k < -1 {
		d += fitnessPenalty
	}

	return d
}

const noWay = math.MaxFloat64

// best is the lowest total of demerits, or noWay.
func (m *lbModel) best() float64 {
	type state struct{ cost [4]float64 }
	none := state{[4]float64{noWay, noWay, noWay, noWay}}
	states := make([]state, len(m.joints))
	// joints after each piece
	startOf := make(map[int][]int, len(m.pieces)) // piece where a line may start -> joints before it
	for t, j := range m.joints {
		startOf[j.after+1] = append(startOf[j.after+1], t)
	}
	for t, j := range m.joints {
		states[t] = none
		w := 0.0
		for i := j.after; i >= 0; i-- {
			w += m.pieces[i].width
			if w > m.width {
				break
			}
			forced := false
			for _, s := range startOf[i] {
				forced = forced || m.joints[s].forced
			}
			if i == 0 || len(startOf[i]) > 0 {
				if ratio, ok := m.ratio(w, j); ok {
					k := class(ratio)
					if i == 0 {
						if d := m.price(ratio, j, false, 1); d < states[t].cost[k] {
							states[t].cost[k] = d
						}
					}
					for _, s := range startOf[i] {
						for pk, pc := range states[s].cost {
							if pc == noWay {
								continue
							}
							if d := pc + m.price(ratio, j, m.joints[s].flagged, pk); d < states[t].cost[k] {
								states[t].cost[k] = d
							}
						}
					}
				}
			}
			if forced {
				break
			}
			if m.pieces[i].first {
				w += m.spaceW
			}
		}
	}
	out := noWay
	for _, c := range states[len(states)-1].cost {
		if c < out {
			out = c
		}
	}

	return out
}

// explain finds at what price the lines may have been made. It returns the number of the first line for which there is no way.
func (m *lbModel) explain(lines []string) (cost float64, kinds []string, bad int) {
	type key struct {
		piece   int
		flagged bool
		class   int
	}
	type val struct {
		cost  float64
		kinds []string
	}
	at := map[key]val{{0, false, 1}: {}}
	jointsAt := make(map[int][]lbJoint, len(m.pieces))
	for _, j := range m.joints {
		jointsAt[j.after] = append(jointsAt[j.after], j)
	}
	for n, line := range lines {
		next := map[key]val{}
		for k, v := range at {
			rest := line
			w := 0.0
			for i := k.piece; i < len(m.pieces); i++ {
				if m.pieces[i].first && i > k.piece {
					if !strings.HasPrefix(rest, " ") {
						break
					}
					rest = rest[1:]
					w += m.spaceW
				}
				text := string(m.pieces[i].text)
				if !strings.HasPrefix(rest, text) {
					break
				}
				rest = rest[len(text):]
				w += m.pieces[i].width
				forced := false
				for _, j := range jointsAt[i] {
					forced = forced || j.forced
					if j.insert && rest != "-" || !j.insert && rest != "" || j.end != (n == len(lines)-1) {
						continue
					}
					ratio, ok := m.ratio(w, j)
					if !ok {
						continue
					}
					nk := key{i + 1, j.flagged, class(ratio)}
					d := v.cost + m.price(ratio, j, k.flagged, k.class)
					if old, ok := next[nk]; !ok || d < old.cost {
						next[nk] = val{d, append(v.kinds[:len(v.kinds):len(v.kinds)], j.kind)}
					}
				}
				if forced {
					break
				}
			}
		}
		if len(next) == 0 {
			return 0, nil, n
		}
		at = next
	}
	cost = noWay
	for _, v := range at {
		if v.cost < cost {
			cost, kinds = v.cost, v.kinds
		}
	}

	return cost, kinds, -1
}

var lbWords = strings.Fields(`In olden times when wishing still helped one there lived a king whose daughters were all beautiful but the youngest was so
beautiful that the sun itself which has seen so much was astonished whenever it shone in her face Close by the king's castle lay a great dark forest
Honorificabilitudinitatibus antidisestablishmentarianism floccinaucinihilipilification lime-tree well-known mother-in-law e-mail co-operate
constitution révolutionnaires anticonstitutionnellement aujourd'hui l'éphémère œuvre Straßenbahn naïve
https://www.unicode.org/Public/15.0.0/ucd/emoji/emoji-data.txt foo|bar|baz a,b,c (parenthesis) [brackets] "quoted," end. what?! ... -- - , ; !
世界 日本語 ｶﾀｶﾅ 👁 I a be see four fives sixsix x-y 3.14159 1,000,000 under_score C:\path\file`)

// lbToken makes a token without spaces nor escape characters.
// classes of runes that a word may mix
var lbClasses = []string{"-", "-\u2010\u00ad\u30fb", ".,;:!?()", "/_|", "0123456789", "ABCXYZ", "aeiou", "bcdfs", "éèüßñ", "αβγς", "бвгд", "אבג", "ابت", "漢字仮", "かなカナ", "한국", "\u0301\u0308\u200d", "٠١٢٣", "²³½", "+=<>$^~|", "'\u2019\u00b7", "€£", "😀🎉"}

func lbToken(rng *rand.Rand, hostile bool) string {
	switch k := rng.Intn(14); {
	case k >= 12:
		var out []rune
		a, b := []rune(pick(rng, lbClasses)), []rune(pick(rng, lbClasses))
		for n := 1 + rng.Intn(12); len(out) < n; a, b = b, a {
			for i := rng.Intn(3); i >= 0; i-- {
				out = append(out, pick(rng, a))
			}
		}

		return string(out)
	case k < 6:
		return pick(rng, lbWords)
	case k < 7:
		return pick(rng, lbWords) + string(pick(rng, puncts))
	case k < 8:
		return pick(rng, lbWords) + string(pick(rng, hyphs)) + pick(rng, lbWords)
	case k < 9:
		n := 1 + rng.Intn(12)
		out := make([]rune, n)
		for i := range out {
			out[i] = pick(rng, letters)
		}

		return string(out)
	case k < 10:
		return strings.Repeat(string(pick(rng, letters)), 1+rng.Intn(8))
	default:
		for {
			out := make([]rune, 0, 12)
			for _, r := range anyRunes(rng, 12, hostile) {
				if !unicode.IsSpace(r) && r != 0x1b {
					out = append(out, r)
				}
			}
			if len(out) > 0 {
				return string(out)
			}
		}
	}
}

// a paragraph to be broken
type para struct {
	tokens []string
	width  float64
	conf   lbConf
}

func (p para) String() string {
	return fmt.Sprintf("New(%s).LeftAlignUniform(%+q, %g)", p.conf, p.tokens, p.width)
}

func randPara(rng *rand.Rand, max int) (p para) {
	n := 1 + rng.Intn(max)
	if rng.Intn(5) == 0 {
		n = 1 + rng.Intn(3)
	}
	if rng.Intn(1000) == 0 { // beyond the sizes that buffers usually have
		n *= 30
	}
	if rng.Intn(3) == 0 { // few words: much repetition, many ways to break
		few := make([]string, 1+rng.Intn(4))
		for i := range few {
			few[i] = lbToken(rng, false)
		}
		for len(p.tokens) < n {
			p.tokens = append(p.tokens, pick(rng, few))
		}
	}
	for len(p.tokens) < n {
		p.tokens = append(p.tokens, lbToken(rng, false))
	}
	if rng.Intn(100) == 0 { // a word over many lines
		var word []rune
		for i := 20 + rng.Intn(long(rng, 20)); len(word) < i; {
			word = append(word, []rune(lbToken(rng, false))...)
		}
		p.tokens[rng.Intn(len(p.tokens))] = string(word)
	}
	p.conf = randConf(rng)
	longest, total := 0.0, 0.0
	for _, t := range p.tokens {
		w := p.conf.measure([]rune(t))
		total += w + 1
		if w > longest {
			longest = w
		}
	}
	room := 1
	if p.conf.measurer == 5 {
		room = 60000
	}
	switch rng.Intn(8) {
	case 0:
		p.width = float64(room * (1 + rng.Intn(100)))
	case 1:
		p.width = total - float64(rng.Intn(3))
	case 2:
		p.width = math.Floor(longest/2) + float64(rng.Intn(5))
	case 3:
		p.width = longest + float64(rng.Intn(1+room*rng.Intn(30)))
		if p.conf.hyph >= 2 && p.conf.hyph <= 3 && p.conf.measurer < 5 && !p.conf.noWordBreak {
			p.width = float64(1 + rng.Intn(12))
		}
	default:
		p.width = longest + float64(rng.Intn(1+room*rng.Intn(30)))
	}

	return p
}

// randWide makes a paragraph with many ways to start each line, most of which are dead ends.
func randWide(rng *rand.Rand) (p para) {
	p.conf = randConf(rng)
	p.conf.measurer, p.conf.scale = 0, 0
	p.conf.noWordBreak = true
	w := 50 + rng.Intn(750)
	p.width = float64(w)
	p.conf.tolerance = p.width / stretch * (0.1 + rng.Float64()*0.9)
	full := rng.Intn(3) == 0 // the only ways are lines which are nearly full
	if full {
		w = 1500 + rng.Intn(2500)
		p.width = float64(w)
		p.conf.tolerance = p.width / stretch * (0.1 + rng.Float64()*0.3)
	}
	for k := rng.Intn(5); k >= 0; k-- {
		total := float64(w) * (0.2 + rng.Float64()*2.5)
		if full {
			total = float64(w*(1+rng.Intn(3)) - rng.Intn(1+w/20))
		}
		for total > 0 {
			n := 1 + rng.Intn(3)
			switch {
			case full:
				n = 1
			case rng.Intn(20) == 0:
				n = 1 + rng.Intn(12)
			}
			p.tokens = append(p.tokens, strings.Repeat(string(rune('a'+rng.Intn(26))), n))
			total -= float64(n + 1)
		}
		// as wide as a line, or nearly so, and without a place to break
		giant := w - rng.Intn(1+rng.Intn(w))
		if full {
			giant = w - rng.Intn(1+w/20)
		}
		p.tokens = append(p.tokens, strings.Repeat("x", giant))
	}

	return p
}

// randHuge makes a paragraph of a great number of tokens.
func randHuge(rng *rand.Rand, c int) (p para) {
	n := 1<<(13+c%3) + rng.Intn(2000)
	for len(p.tokens) < n {
		p.tokens = append(p.tokens, lbToken(rng, false))
	}
	longest := 0.0
	for _, t := range p.tokens {
		if w := p.conf.measure([]rune(t)); w > longest {
			longest = w
		}
	}
	p.conf = randConf(rng)
	p.conf.measurer = 0
	p.width = longest + float64(rng.Intn(40))

	return p
}

// otherParas judges paragraphs of unusual sizes.
func otherParas(r *mon.Run, judge func(*mon.Case, para)) {
	r.Cases("wide", r.N(200, 4000), func(c *mon.Case) { judge(c, randWide(c.Rng)) })
	r.Cases("huge", r.N(6, 60), func(c *mon.Case) { judge(c, randHuge(c.Rng, c.Index)) })
}

const lbRule = "random paragraphs of 1-40 tokens, now and then of up to 1200 or with a word of up to 1000 runes (prose in English, French, CJK, URLs, punctuation, explicit hyphens, repeated words, random runes; no spaces nor escape characters inside) with random widths around the longest token, " +
	"and random settings (word breaks, rendered hyphens, tolerance 0-1e12, penalty of breaks in words -20000 to 50000, 10000 forbidding them and -10000 forcing them, scale 1-1000, 6 measurers, among which proportional ones with large hyphens, runes without width, halves, and large units; 5 hyphenators, 3 punctuators; options in any order, and repeated); "

func lbBroken(c *mon.Case, err error) {
	if !errors.Is(err, linebreak.ErrCannotBeSet) {
		c.Fail("unexpected error %v", err)
	}
}

// someLooseness asks for more or fewer lines, in some cases: which lines are chosen may depend on it, what can be set may not.
func someLooseness(rng *rand.Rand, p *para) {
	if rng.Intn(5) == 0 {
		p.conf.looseness = rng.Intn(7) - 3
	}
}

func checkContent(r *mon.Run) {
	r.Rule(lbRule + "oracle: an automaton that reads the lines along the tokens, where only a space between tokens may be left out at the end of a line, and only a hyphen inside a word may be added there; non-trivial: at least 3 lines")
	judge := func(c *mon.Case, p para) {
		someLooseness(c.Rng, &p)
		c.Input("%s", p)
		lines, err := linebreak.New(p.conf.opts()...).LeftAlignUniform(p.tokens, p.width)
		c.Eval(1)
		if err != nil {
			lbBroken(c, err)
			r.Count("paragraphs that cannot be set", 1)

			return
		}
		text := make([][]rune, len(p.tokens))
		for i, t := range p.tokens {
			text[i] = []rune(t)
		}
		read := lines
		if hasEmpty(p.tokens) { // empty tokens may yield spaces, nothing else
			text, read = text[:0], nil
			for _, t := range p.tokens {
				if t != "" {
					text = append(text, []rune(t))
				}
			}
			for _, line := range lines {
				words := strings.FieldsFunc(line, func(x rune) bool { return x == ' ' })
				if len(words) > 0 {
					read = append(read, strings.Join(words, " "))
				}
			}
		}
		if n, why := followText(text, read, !p.conf.noHyphens && !p.conf.noWordBreak, !p.conf.noPunctuator, p.conf.punct == 1 && !p.conf.noPunctuator); n >= 0 {
			c.Fail("line %d %s\n%s", n, why, strings.Join(lines, "\n"))
		}
		r.Count("lines", len(lines))
		if len(lines) >= 3 {
			r.Nontrivial(p.String())
		}
		if c.Index < 5 {
			r.Sample("%s = %+q", p, lines)
		}
	}
	r.Cases("paragraphs", r.N(25000, 600000), func(c *mon.Case) { judge(c, randPara(c.Rng, 40)) })
	otherParas(r, judge)
	// tokens which the tokenizer would not make
	r.Cases("spaces", r.N(15000, 300000), func(c *mon.Case) {
		p := randPara(c.Rng, 20)
		for i := range p.tokens {
			switch c.Rng.Intn(6) {
			case 0:
				p.tokens[i] += strings.Repeat(string(pick(c.Rng, spaces)), 1+c.Rng.Intn(3))
			case 1:
				p.tokens[i] = string(pick(c.Rng, spaces)) + p.tokens[i]
			case 2:
				p.tokens[i] += string(pick(c.Rng, spaces)) + pick(c.Rng, lbWords)
			case 3:
				if c.Rng.Intn(4) == 0 {
					p.tokens[i] = string(pick(c.Rng, spaces))
				}
			}
		}
		judge(c, p)
	})
	r.Cases("invalid-utf8", r.N(3000, 60000), func(c *mon.Case) {
		p := randPara(c.Rng, 20)
		for i := range p.tokens {
			if c.Rng.Intn(4) == 0 {
				at := c.Rng.Intn(len(p.tokens[i]) + 1)
				p.tokens[i] = p.tokens[i][:at] + string([]byte{byte(0x80 + c.Rng.Intn(0x80))}) + p.tokens[i][at:]
			}
		}
		judge(c, p)
	})
	r.Cases("empty-tokens", r.N(5000, 100000), func(c *mon.Case) {
		p := randPara(c.Rng, 20)
		someEmpty(c.Rng, &p)
		p.tokens[c.Rng.Intn(len(p.tokens))] = "word"
		judge(c, p)
	})
	r.Require("lines", 10000)
}

// someEmpty empties tokens of a paragraph: some of them, many, or those of the start or the end.
func someEmpty(rng *rand.Rand, p *para) {
	of, from, to := 4, 0, len(p.tokens)
	if rng.Intn(3) == 0 {
		of = 1 + rng.Intn(10)
	}
	switch rng.Intn(4) {
	case 0:
		of, to = 1, rng.Intn(1+to)
	case 1:
		of, from = 1, to-rng.Intn(1+to)
	case 2:
		of, from = 1, rng.Intn(to)
		to = from + rng.Intn(1+to-from)
	}
	for i := from; i < to; i++ {
		if of == 1 || rng.Intn(of) == 0 {
			p.tokens[i] = ""
		}
	}
}

func hasEmpty(tokens []string) bool {
	for _, t := range tokens {
		if t == "" {
			return true
		}
	}

	return false
}

// followText reads the lines along the tokens. It returns the number of the first line that cannot be read, or -1.
//
// A hyphen is added inside a word, and there only, that is, between two runes of which none is a hyphen (nor a punctuation mark, when words are split there).
func followText(tokens [][]rune, lines []string, hyphens, marks, capitals bool) (int, string) {
	letter := func(x rune) bool {
		return !unicode.Is(unicode.Hyphen, x) && !(marks && (x == '|' || unicode.IsPunct(x)))
	}
	type pos struct{ tok, off int } // next rune to be read; off == len: the token is over
	at := map[pos]bool{{0, 0}: true}
	if len(tokens) == 0 {
		return -1, ""
	}
	for n, line := range lines {
		rs := []rune(line)
		next := map[pos]bool{}
		for p := range at {
			k := 0
			for k < len(rs) {
				if p.off < len(tokens[p.tok]) {
					if rs[k] != tokens[p.tok][p.off] {
						break
					}
					p.off++
					k++

					continue
				}
				if p.tok == len(tokens)-1 || rs[k] != ' ' || k == 0 || k == len(rs)-1 {
					break
				}
				p.tok, p.off = p.tok+1, 0
				k++
			}
			if k == len(rs) {
				if p.off == len(tokens[p.tok]) && p.tok < len(tokens)-1 {
					next[pos{p.tok + 1, 0}] = true // the space is left out
				} else if p.off == 0 || p.off == len(tokens[p.tok]) || !hyphens ||
					!letter(tokens[p.tok][p.off-1]) || !letter(tokens[p.tok][p.off]) || capitals && unicode.IsUpper(tokens[p.tok][p.off]) {
					next[p] = true
				}
			}
			// a hyphen is added inside a word
			if hyphens && k == len(rs)-1 && rs[k] == '-' && p.off > 0 && p.off < len(tokens[p.tok]) && letter(tokens[p.tok][p.off-1]) && letter(tokens[p.tok][p.off]) {
				next[p] = true
			}
		}
		if len(next) == 0 {
			return n, "does not continue the text"
		}
		at = next
	}
	last := len(tokens) - 1
	if !at[pos{last, len(tokens[last])}] {
		return len(lines) - 1, "is the last one, but the text is not over"
	}

	return -1, ""
}

func checkWidth(r *mon.Run) {
	r.Rule(lbRule + "oracle: the measure of every line, by the measurer of the line breaker; non-trivial: a line that fills the width exactly, next to others")
	judge := func(c *mon.Case, p para) {
		someLooseness(c.Rng, &p)
		c.Input("%s", p)
		lines, err := linebreak.New(p.conf.opts()...).LeftAlignUniform(p.tokens, p.width)
		if err != nil {
			lbBroken(c, err)
			r.Count("paragraphs that cannot be set", 1)

			return
		}
		full := false
		for n, line := range lines {
			w := p.conf.measure([]rune(line))
			c.Eval(1)
			if w > p.width {
				c.Fail("line %d %+q has width %g", n, line, w)
			}
			if n < len(lines)-1 && (p.width-w)/stretch > p.conf.tol() {
				c.Fail("line %d %+q has width %g: it is stretched beyond the tolerance", n, line, w)
			}
			full = full || w == p.width
		}
		r.Count("lines", len(lines))
		if full {
			r.Count("paragraphs with a line that fills the width", 1)
			if len(lines) > 1 {
				r.Nontrivial(p.String())
			}
		}
	}
	r.Cases("paragraphs", r.N(25000, 600000), func(c *mon.Case) { judge(c, randPara(c.Rng, 40)) })
	otherParas(r, judge)
	r.Cases("empty-tokens", r.N(8000, 200000), func(c *mon.Case) {
		p := randPara(c.Rng, 20)
		someEmpty(c.Rng, &p)
		judge(c, p)
	})
	r.Require("paragraphs with a line that fills the width", 2000)
}

func checkFeasibility(r *mon.Run) {
	r.Rule(lbRule + "and hostile paragraphs (invalid runes and UTF-8, escape sequences, spaces, widths that are zero, negative, fractional, huge); " +
		"oracle: an exact search of all the ways to break the paragraph: the error comes back if and only if there is none; non-trivial: a paragraph that can be set, but not at each of its spaces only, or that cannot be set")
	judge := func(c *mon.Case, p para) {
		someLooseness(c.Rng, &p)
		c.Input("%s", p)
		lines, err := linebreak.New(p.conf.opts()...).LeftAlignUniform(p.tokens, p.width)
		m := p.conf.model(p.tokens, p.width)
		best := m.best()
		c.Eval(1)
		switch {
		case err != nil && best != noWay:
			lbBroken(c, err)
			c.Fail("the paragraph can be set (with %g demerits), but the error is %v", best, err)
		case err == nil && best == noWay:
			c.Fail("the paragraph cannot be set, but the lines are %+q", lines)
		case err != nil:
			lbBroken(c, err)
			if len(lines) > 0 {
				c.Fail("both lines and an error")
			}
			r.Count("paragraphs that cannot be set", 1)
			r.Nontrivial(p.String())
		default:
			r.Count("paragraphs that can be set", 1)
			if len(lines) > 1 {
				r.Nontrivial(p.String())
			}
		}
	}
	r.Cases("paragraphs", r.N(25000, 600000), func(c *mon.Case) {
		p := randPara(c.Rng, 40)
		if c.Rng.Intn(3) == 0 { // close to the limit
			longest := 0.0
			for _, x := range p.conf.model(p.tokens, 1e6).pieces {
				if x.width > longest {
					longest = x.width
				}
			}
			p.width = math.Ceil(longest/p.conf.scaling()) + float64(c.Rng.Intn(5)-1)
		}
		judge(c, p)
	})
	otherParas(r, judge)
	r.Cases("hostile", r.N(25000, 600000), func(c *mon.Case) {
		p := randPara(c.Rng, 6)
		for i := range p.tokens {
			switch c.Rng.Intn(4) {
			case 0:
				p.tokens[i] = string(anyRunes(c.Rng, 20, true))
			case 1:
				b := []byte(p.tokens[i])
				k := c.Rng.Intn(len(b) + 1)
				p.tokens[i] = string(b[:k]) + string([]byte{byte(0x80 + c.Rng.Intn(0x80))}) + string(b[k:])
			case 2:
				p.tokens[i] = string(hostileANSI(c.Rng, 20))
			}
		}
		if c.Rng.Intn(3) == 0 {
			someEmpty(c.Rng, &p)
		}
		if c.Rng.Intn(2) == 0 {
			p.width = pick(c.Rng, []float64{0, -1, -100, 0.5, 1, 1.5, 2, 3.7, 1e6, 1e15, math.MaxFloat64, -math.MaxFloat64, math.Inf(1), math.Inf(-1), math.NaN()})
		}
		c.Input("%s", p)
		opts := p.conf.opts()
		if c.Rng.Intn(4) == 0 {
			opts = append(opts, linebreak.WithLooseness(c.Rng.Intn(7)-3))
		}
		lines, err := linebreak.New(opts...).LeftAlignUniform(p.tokens, p.width)
		if err != nil {
			lbBroken(c, err)
		} else if len(lines) == 0 {
			c.Fail("neither lines nor an error")
		}
		r.Count("hostile paragraphs", 1)
		c.Eval(1)
	})
	r.Cases("after-empty-tokens", r.N(8000, 200000), func(c *mon.Case) {
		p := randPara(c.Rng, 12)
		set := func() string {
			lines, err := linebreak.New(p.conf.opts()...).LeftAlignUniform(p.tokens, p.width)
			if err != nil {
				lbBroken(c, err)
			}

			return fmt.Sprintf("%+q %v", lines, err)
		}
		c.Input("%s", p)
		want := set()
		p.tokens = append(make([]string, 1+c.Rng.Intn(6)), p.tokens...)
		c.Input("%s", p)
		if got := set(); got != want {
			c.Fail("yields %s, without the empty tokens at the start %s", got, want)
		}
		c.Eval(2)
		c.Count("paragraphs with empty tokens at the start", 1)
	})
	r.Require("paragraphs that cannot be set", 500)
	r.Require("paragraphs that can be set", 5000)
	r.Require("paragraphs with empty tokens at the start", 5000)
}

// ordersParas are paragraphs that share their words, with all kinds of settings.
func ordersParas(seed string) (out []para) {
	h := fnv.New64a()
	_, _ = h.Write([]byte("orders" + seed))
	rng := rand.New(rand.NewSource(int64(h.Sum64())))
	for len(out) < 1500 {
		p := randPara(rng, 15)
		out = append(out, p)
		for k := rng.Intn(4); k > 0; k-- { // the same tokens with other settings
			p.conf = randConf(rng)
			out = append(out, p)
		}
	}

	return out
}

func checkDeterminism(r *mon.Run) {
	r.Rule(lbRule + "and tokens with escape sequences, some unclosed; each paragraph is set by fresh line breakers (also in two processes, in different orders), by the same one twice, and by one that has set 1-4 other paragraphs (some of which cannot be set, some with contexts left open) in between; " +
		"oracle: the outcomes are all the same; non-trivial: at least 2 lines, from a used line breaker")
	inOrders(r, "lines", r.N(4, 60))
	longLines(r)
	r.Cases("paragraphs", r.N(10000, 250000), func(c *mon.Case) {
		p := randPara(c.Rng, 25)
		if c.Rng.Intn(400) == 0 {
			p = randWide(c.Rng)
		}
		someLooseness(c.Rng, &p)
		deco := func(tokens []string) []string {
			out := append([]string{}, tokens...)
			for i := range out {
				if c.Rng.Intn(6) == 0 {
					out[i] = string(seq(c.Rng, kStart)) + out[i]
				}
				if c.Rng.Intn(6) == 0 {
					out[i] += string(seq(c.Rng, kStop))
				}
			}

			return out
		}
		if c.Rng.Intn(2) == 0 {
			p.tokens = deco(p.tokens)
		}
		c.Input("%s", p)
		show := func(lines []string, err error) string { return fmt.Sprintf("%+q, %v", lines, err) }
		given := func(tokens []string) []string { return tokens }
		if c.Rng.Intn(2) == 0 { // the caller keeps a single array, and overwrites it
			shared := make([]string, 0, 2000)
			given = func(tokens []string) []string {
				if len(tokens) > cap(shared) {
					return tokens
				}

				return append(shared[:0], tokens...)
			}
			r.Count("paragraphs in the array of another one", 1)
		}
		lines, err := linebreak.New(p.conf.opts()...).LeftAlignUniform(p.tokens, p.width)
		want := show(lines, err)
		lb := linebreak.New(p.conf.opts()...)
		if got := show(lb.LeftAlignUniform(p.tokens, p.width)); got != want {
			c.Fail("two fresh line breakers disagree: %s and %s", want, got)
		}
		if got := show(lb.LeftAlignUniform(p.tokens, p.width)); got != want {
			c.Fail("the second time, %s, the first time %s", got, want)
		}
		var hist []string
		uses := 1 + c.Rng.Intn(4)
		if c.Rng.Intn(150) == 0 {
			uses = 60 + c.Rng.Intn(300)
		}
		for k := uses; k > 0; k-- {
			o := randPara(c.Rng, 8)
			switch c.Rng.Intn(4) {
			case 0:
				o.width = 1 // most likely cannot be set
			case 1:
				o.tokens = deco(o.tokens)
			case 2:
				o.tokens[0] = "\033[31m" + o.tokens[0] // left open
			}
			if c.Rng.Intn(2) == 0 { // of the same size, in part the same
				n := len(o.tokens)
				for i := 0; n > 0 && i < len(p.tokens); i++ {
					switch {
					case i >= n:
						o.tokens = append(o.tokens, p.tokens[i])
					case c.Rng.Intn(3) == 0:
						o.tokens[i] = p.tokens[i]
					}
				}
				o.tokens = o.tokens[:len(p.tokens)]
				if c.Rng.Intn(2) == 0 {
					o.width = p.width
				}
			}
			hist = append(hist, fmt.Sprintf("(%+q, %g)", o.tokens, o.width))
			if _, err := lb.LeftAlignUniform(given(o.tokens), o.width); err != nil {
				r.Count("other paragraphs that cannot be set", 1)
			}
			r.Count("other paragraphs", 1)
		}
		if got := show(lb.LeftAlignUniform(given(p.tokens), p.width)); got != want {
			c.Fail("after %s: %s, want %s", strings.Join(hist, ", "), got, want)
		}
		c.Eval(3)
		if len(lines) > 1 {
			r.Nontrivial(p.String())
		}
	})
}

func checkOptimality(r *mon.Run) {
	r.Rule(lbRule + "oracle: the lines are explained by breaks at legitimate places only (spaces, after punctuation marks and explicit hyphens, between the parts the hyphenator yields), " +
		"and their total of demerits equals the minimum found by an independent dynamic program over all ways to break; non-trivial: at least 3 lines")
	judge := func(c *mon.Case, p para) {
		c.Input("%s", p)
		lines, err := linebreak.New(p.conf.opts()...).LeftAlignUniform(p.tokens, p.width)
		if err != nil {
			lbBroken(c, err)
			r.Count("paragraphs that cannot be set", 1)

			return
		}
		m := p.conf.model(p.tokens, p.width)
		cost, kinds, bad := m.explain(lines)
		if bad >= 0 {
			c.Fail("line %d does not end at a legitimate place, or does not fit, in\n%s", bad, strings.Join(lines, "\n"))
		}
		best := m.best()
		if cost > best+1e-6+1e-9*math.Max(math.Abs(best), math.Abs(cost))+1e-12*float64(len(lines))*p.conf.softPenalty()*p.conf.softPenalty() {
			c.Fail("the lines have %g demerits, there are some with %g:\n%s", cost, best, strings.Join(lines, "\n"))
		}
		c.Eval(2)
		r.Count("paragraphs", 1)
		for _, k := range kinds {
			r.Count("lines that end at a "+k, 1)
		}
		if len(lines) >= 3 {
			r.Nontrivial(p.String())
		}
		if c.Index < 5 {
			r.Sample("%s = %+q, with %g demerits", p, lines, cost)
		}
	}
	r.Cases("paragraphs", r.N(25000, 600000), func(c *mon.Case) { judge(c, randPara(c.Rng, 40)) })
	r.Cases("long", r.N(300, 6000), func(c *mon.Case) { judge(c, randPara(c.Rng, 400)) })
	otherParas(r, judge)
	r.Require("paragraphs", 8000)
	r.Require("lines that end at a space", 1000)
	r.Require("lines that end at a syllable", 1000)
	r.Require("lines that end at a punctuation", 100)
	r.Require("lines that end at a explicit hyphen", 100)
}

// a rune with the sequence it is shown under
type shown struct {
	r    rune
	attr string
}

// isSequence tells whether a text starts with an escape sequence.
func isSequence(text string) (seq string, stop, ok bool) {
	if !strings.HasPrefix(text, "\033[") {
		return "", false, false
	}
	k := 2 + strings.IndexFunc(text[2:], unicode.IsLetter)

	return text[:k+1], text[k] == 'u' || text[k] == 'l' || text[:k+1] == "\033[0m" || text[:k+1] == "\033[m", true
}

// simulate reads a text like a terminal with nested attributes: a start adds one, a stop removes the innermost.
func simulate(text string) (out []shown, seqs []string, end string) {
	var stack []string
	attr := ""
	for len(text) > 0 {
		if s, stop, ok := isSequence(text); ok {
			text = text[len(s):]
			seqs = append(seqs, s)
			switch {
			case !stop:
				stack = append(stack, s)
			case len(stack) > 0:
				stack = stack[:len(stack)-1]
			}
			attr = strings.Join(stack, "")

			continue
		}
		r := []rune(text)[0]
		out = append(out, shown{r, attr})
		text = text[len(string(r)):]
	}

	return out, seqs, attr
}

// neverClosed gives, before each rune that is not a space and at the end, the contexts that are open and never closed, at any of the points between
// it and the rune before.
func neverClosed(text string) (out []map[string]bool) {
	depth, lowest := 0, 0
	var depths []int // after each sequence
	all := text
	for len(text) > 0 {
		if s, stop, ok := isSequence(text); ok {
			text = text[len(s):]
			if !stop {
				depth++
			} else if depth > 0 {
				depth--
			}
			depths = append(depths, depth)

			continue
		}
		text = text[1:]
	}
	// lowest depth from each sequence on
	low := make([]int, len(depths)+1)
	lowest = depth
	for i := len(depths) - 1; i >= 0; i-- {
		low[i+1] = lowest
		if depths[i] < lowest {
			lowest = depths[i]
		}
		if low[i+1] > depths[i] {
			low[i+1] = depths[i]
		}
	}
	var stack []string
	at := map[string]bool{"": true}
	n := 0
	for text = all; len(text) > 0; {
		if s, stop, ok := isSequence(text); ok {
			text = text[len(s):]
			if !stop {
				stack = append(stack, s)
			} else if len(stack) > 0 {
				stack = stack[:len(stack)-1]
			}
			n++
			at[strings.Join(stack[:low[n]], "")] = true

			continue
		}
		r := []rune(text)[0]
		text = text[len(string(r)):]
		if r != ' ' {
			out = append(out, at)
			at = map[string]bool{strings.Join(stack[:low[n]], ""): true}
		}
	}

	return append(out, at)
}

func checkAttributes(r *mon.Run) {
	r.Rule("random paragraphs of 1-30 tokens of prose with start and stop sequences (nested or not, spanning from a part of a token to many tokens, possibly never closed), random widths and settings; " +
		"oracles: a simulated terminal, where a stop ends the innermost context, reads each line alone, and shows every rune under the same sequences as in the input; lines leave open only what is never closed; every sequence of the input appears, in order; " +
		"when sequences lie at the edges of tokens only, the lines are those of the plain text; non-trivial: a context spans several lines")
	starts := []string{"\033[31m", "\033[1;4m", "\033[38;5;214m", "\033[92m", "\033[4m", "\033[s", "\033[4h"}
	stops := []string{"\033[0m", "\033[m", "\033[0m", "\033[m", "\033[u", "\033[4l"}
	r.Cases("paragraphs", r.N(25000, 500000), func(c *mon.Case) {
		p := randPara(c.Rng, 30)
		edges := c.Rng.Intn(2) == 0
		plainTokens := append([]string{}, p.tokens...)
		depth, deepest := 0, 0
		maxDepth := 1
		if c.Rng.Intn(2) == 0 {
			maxDepth = 1 + c.Rng.Intn(12)
			if c.Rng.Intn(40) == 0 {
				maxDepth = 10 + c.Rng.Intn(100)
			}
		}
		odds := 2
		if maxDepth > 12 {
			odds = 8
		}
		place := func(prob int) string {
			if c.Rng.Intn(prob) > 0 {
				return ""
			}
			s := ""
			for { // now and then several in a row, with nothing in between
				if depth < maxDepth && (depth == 0 && c.Rng.Intn(20) > 0 || c.Rng.Intn(odds) > 0) {
					s += pick(c.Rng, starts)
					depth++
				} else {
					s += pick(c.Rng, stops)
					if depth > 0 {
						depth--
					}
				}
				if depth > deepest {
					deepest = depth
				}
				if depth == maxDepth {
					odds = 2
				}
				if c.Rng.Intn(6) > 0 {
					return s
				}
			}
		}
		prob := 1 + c.Rng.Intn(8)
		for i, t := range p.tokens {
			rs := []rune(t)
			s := ""
			if depth < maxDepth || c.Rng.Intn(3) == 0 {
				s += place(prob)
			}
			for k, x := range rs {
				if !edges && k > 0 {
					s += place(prob * 4)
				}
				s += string(x)
			}
			if (depth > 0 || c.Rng.Intn(3) == 0) && (i < len(p.tokens)-1 || c.Rng.Intn(4) > 0) {
				s += place(prob)
			}
			p.tokens[i] = s
		}
		if c.Rng.Intn(3) == 0 {
			for ; depth > 0; depth-- {
				p.tokens[len(p.tokens)-1] += pick(c.Rng, stops)
			}
		}
		c.Input("%s", p)
		lines, err := linebreak.New(p.conf.opts()...).LeftAlignUniform(p.tokens, p.width)
		plainLines, plainErr := linebreak.New(p.conf.opts()...).LeftAlignUniform(plainTokens, p.width)
		if edges && (err != nil) != (plainErr != nil) {
			c.Fail("the error is %v, without sequences it is %v", err, plainErr)
		}
		if err != nil {
			lbBroken(c, err)
			r.Count("paragraphs that cannot be set", 1)

			return
		}
		whole, wantSeqs, _ := simulate(strings.Join(p.tokens, " "))
		mayStay := neverClosed(strings.Join(p.tokens, " "))
		// the text, rune by rune, without spaces
		text := whole[:0:0]
		for _, x := range whole {
			if x.r != ' ' {
				text = append(text, x)
			}
		}
		var gotSeqs, visible []string
		hyphens := !p.conf.noHyphens && !p.conf.noWordBreak
		at := map[int]bool{0: true}
		spans := false
		for n, line := range lines {
			got, seqs, end := simulate(line)
			gotSeqs = append(gotSeqs, seqs...)
			vis := ""
			for _, x := range got {
				vis += string(x.r)
			}
			visible = append(visible, vis)
			next := map[int]bool{}
			reason := ""
			for i := range at {
				ok := true
				for k, x := range got {
					if x.r == ' ' {
						continue
					}
					if i < len(text) && text[i] == x {
						i++

						continue
					}
					if hyphens && k == len(got)-1 && x.r == '-' {
						continue
					}
					ok = false
					if i < len(text) {
						reason = fmt.Sprintf("%q is shown under %q, want %q under %q", x.r, x.attr, text[i].r, text[i].attr)
					}

					break
				}
				if ok {
					next[i] = true
					if hyphens && len(got) > 0 && got[len(got)-1].r == '-' && i > 0 && text[i-1].r == '-' {
						next[i-1] = true
					}
				}
			}
			if len(next) == 0 {
				c.Fail("line %d %+q: %s\n%s", n, line, reason, strings.Join(lines, "\n"))
			}
			at = next
			stays := false
			for i := range at {
				stays = stays || mayStay[i][end]
			}
			if !stays {
				c.Fail("line %d %+q leaves %q open", n, line, end)
			}
			for i := range at {
				if i > 0 && i < len(text) && text[i].attr != "" && text[i].attr == text[i-1].attr {
					spans = true
				}
			}
			c.Eval(1 + len(got))
		}
		if !at[len(text)] {
			c.Fail("the end of the text is missing in %+q", lines)
		}
		k := 0
		for _, s := range gotSeqs {
			if k < len(wantSeqs) && wantSeqs[k] == s {
				k++
			}
		}
		if k < len(wantSeqs) {
			c.Fail("sequence %d %+q of the text is missing, or not in order, in %+q", k, wantSeqs[k], lines)
		}
		if edges && plainErr == nil && strings.Join(visible, "\n") != strings.Join(plainLines, "\n") {
			c.Fail("the visible lines are %+q, without sequences they are %+q", visible, plainLines)
		}
		r.Count("lines", len(lines))
		r.Count("sequences in the text", len(wantSeqs))
		r.Count("sequences in the lines", len(gotSeqs))
		if deepest > 1 {
			r.Count("paragraphs with nested contexts", 1)
		}
		if spans {
			r.Count("paragraphs with a context that spans a line end", 1)
			r.Nontrivial(p.String())
		}
		if c.Index < 5 {
			r.Sample("%s = %+q", p, lines)
		}
	})
	r.Require("paragraphs with a context that spans a line end", 2000)
}

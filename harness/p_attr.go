package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"

	"github.com/fredbi/go-typeset/attributes"
	"github.com/fredbi/go-typeset/terminal/runes/runesio"

	"verif/harness/internal/mon"
)

func init() {
	checks["B01"] = checkRendering
	checks["B02"] = checkNesting
	checks["B03"] = checkLineEnds
}

// spy is a Renderer of the user's: it logs what is asked from it.
type spy struct {
	id, tag     int
	start, stop bool
	level       int
	log         *[]string
}

func (s *spy) Start(w runesio.Writer) {
	*s.log = append(*s.log, fmt.Sprintf("start%d", s.id))
	if s.start {
		_, _ = w.WriteRunes([]rune(fmt.Sprintf("<%d>", s.tag)))
	}
}

func (s *spy) Stop(w runesio.Writer) {
	*s.log = append(*s.log, fmt.Sprintf("stop%d", s.id))
	if s.stop {
		_, _ = w.WriteRunes([]rune(fmt.Sprintf("</%d>", s.tag)))
	}
}
func (s *spy) Runes() []rune     { return []rune(fmt.Sprintf("t%d", s.id)) }
func (s *spy) Level() int        { return s.level }
func (s *spy) SetLevel(l int)    { s.level = l }
func (s *spy) HasStart() bool    { return s.start }
func (s *spy) HasStop() bool     { return s.stop }
func (s *spy) SetStop(rs []rune) { s.stop = len(rs) > 0 }
func (s *spy) Render(w runesio.Writer) {
	s.Start(w)
	_, _ = w.WriteRunes(s.Runes())
	s.Stop(w)
}

var _ attributes.Renderer = &spy{}

func checkRendering(r *mon.Run) {
	r.Rule("random attributes (texts and sequences of 0-10 runes of all classes, empty or nil) and collections of 0-8 renderers with nil members, of the library's and of the user's own type; " +
		"oracles: the bytes written, and the log of the calls each renderer receives; non-trivial: a collection of at least 2 renderers or an attribute with a start and a stop sequence")
	maybe := func(rng *rand.Rand) []rune {
		switch rng.Intn(4) {
		case 0:
			return nil
		case 1:
			return []rune{}
		default:
			if rng.Intn(1000) == 0 { // beyond the sizes that buffers usually have
				return ofSize(rng, 1<<(7+rng.Intn(11))+rng.Intn(3)-1, true)
			}

			return anyRunes(rng, 10, true)
		}
	}
	r.Cases("attribute", r.N(30000, 800000), func(c *mon.Case) {
		text, start, stop := maybe(c.Rng), maybe(c.Rng), maybe(c.Rng)
		c.Input("attribute text %s start %s stop %s", q(text), q(start), q(stop))
		a := newAttribute(c.Rng.Intn(4), clone(text), clone(start), clone(stop))
		out := func(f func(runesio.Writer)) string {
			b := new(bytes.Buffer)
			f(runesio.NewWriter(b))

			return b.String()
		}
		verify := func(when string) {
			if got := out(a.Start); got != string(start) {
				c.Fail("%s: Start writes %+q", when, got)
			}
			if got := out(a.Stop); got != string(stop) {
				c.Fail("%s: Stop writes %+q", when, got)
			}
			if got, want := out(a.Render), string(start)+string(text)+string(stop); got != want {
				c.Fail("%s: Render writes %+q, want %+q", when, got, want)
			}
			if !eqRunes(a.Runes(), text) {
				c.Fail("%s: Runes = %s", when, q(a.Runes()))
			}
			if a.HasStart() != (len(start) > 0) || a.HasStop() != (len(stop) > 0) {
				c.Fail("%s: HasStart = %t, HasStop = %t", when, a.HasStart(), a.HasStop())
			}
			c.Eval(5)
		}
		verify("new")
		if a.Level() != 0 {
			c.Fail("the level of a new attribute is %d", a.Level())
		}
		level := c.Rng.Intn(9) - 2
		if c.Rng.Intn(5) == 0 {
			level = pick(c.Rng, []int{127, 128, 255, 256, 1 << 15, 1 << 16, 1<<31 - 1, 1 << 31, -1 << 31, 1<<63 - 1, -1 << 63})
		}
		a.SetLevel(level)
		if a.Level() != level {
			c.Fail("SetLevel(%d) then Level() = %d", level, a.Level())
		}
		verify("after SetLevel")
		stop = maybe(c.Rng)
		a.SetStop(clone(stop))
		verify(fmt.Sprintf("after SetStop(%s)", q(stop)))
		verify("again")
		if len(start) > 0 && len(stop) > 0 {
			r.Nontrivial(q(text) + q(start) + q(stop))
		}
		if c.Index < 3 {
			r.Sample("text %s start %s stop %s renders %+q", q(text), q(start), q(stop), out(a.Render))
		}
	})
	r.Cases("collection", r.N(20000, 500000), func(c *mon.Case) {
		var (
			rs                    attributes.Renderers
			log, wantStart        []string
			wantStop, wantRender  []string
			bStart, bStop, bWhole string
			desc                  string
		)
		n := c.Rng.Intn(9)
		if c.Rng.Intn(500) == 0 {
			n = 10 + c.Rng.Intn(600)
		}
		for ; n > 0; n-- {
			switch c.Rng.Intn(3) {
			case 0:
				rs = append(rs, nil)
				desc += "nil "
			case 1:
				text, start, stop := maybe(c.Rng), maybe(c.Rng), maybe(c.Rng)
				rs = append(rs, newAttribute(c.Rng.Intn(4), text, start, stop))
				bStart += string(start)
				bStop += string(stop)
				bWhole += string(start) + string(text) + string(stop)
				desc += fmt.Sprintf("{%s %s %s} ", q(text), q(start), q(stop))
			default:
				s := &spy{id: len(rs), tag: len(rs), start: c.Rng.Intn(2) == 0, stop: c.Rng.Intn(2) == 0, log: &log}
				rs = append(rs, s)
				wantStart = append(wantStart, fmt.Sprintf("start%d", s.id))
				wantStop = append(wantStop, fmt.Sprintf("stop%d", s.id))
				wantRender = append(wantRender, fmt.Sprintf("start%d", s.id), fmt.Sprintf("stop%d", s.id))
				st, sp := "", ""
				if s.start {
					st = fmt.Sprintf("<%d>", s.id)
				}
				if s.stop {
					sp = fmt.Sprintf("</%d>", s.id)
				}
				bStart += st
				bStop += sp
				bWhole += st + string(s.Runes()) + sp
				desc += fmt.Sprintf("spy(%t,%t) ", s.start, s.stop)
			}
		}
		c.Input("renderers %s", desc)
		for _, x := range []struct {
			name  string
			f     func(runesio.Writer)
			bytes string
			calls []string
		}{{"Start", rs.Start, bStart, wantStart}, {"Stop", rs.Stop, bStop, wantStop}, {"Render", rs.Render, bWhole, wantRender}} {
			log = nil
			b := new(bytes.Buffer)
			x.f(runesio.NewWriter(b))
			if b.String() != x.bytes {
				c.Fail("%s writes %+q, want %+q", x.name, b.String(), x.bytes)
			}
			if strings.Join(log, " ") != strings.Join(x.calls, " ") {
				c.Fail("%s calls %v, want %v", x.name, log, x.calls)
			}
			c.Eval(2)
		}
		if len(rs) > 1 {
			r.Nontrivial(desc)
		}
	})
}

// an item of a stream of renderers
type attrItem struct {
	start, stop bool
	own         bool // of the user's type
	late        bool // its stop is set after the push
	tag         int  // 0: its sequences are its own; otherwise others may have the same
}

func (x attrItem) String() string {
	s := ""
	if x.start {
		s += "["
	}
	s += "."
	if x.stop {
		s += "]"
	}
	if x.tag > 0 {
		s += fmt.Sprint(x.tag)
	}

	return s
}

func showItems(items []attrItem) string {
	var s strings.Builder
	for _, x := range items {
		s.WriteString(x.String() + " ")
	}

	return s.String()
}

// randStream makes a stream with nested contexts; strays are stops that close nothing.
func randStream(rng *rand.Rand, n int, balanced, strays bool) (items []attrItem) {
	depth, tags, deepest := 0, rng.Intn(4), pick(rng, []int{1, 6, 6, 6, 12, 40, 400}) // 0: all the sequences are different
	for len(items) < n {
		x := attrItem{start: rng.Intn(3) == 0 || (deepest > 6 && len(items) < n/2 && rng.Intn(2) == 0), stop: rng.Intn(3) == 0, own: rng.Intn(5) == 0, late: rng.Intn(4) == 0}
		if tags > 0 {
			x.tag = 1 + rng.Intn(tags)
		}
		if x.start && depth >= deepest {
			x.start = false
		}
		if x.start {
			depth++
		}
		if x.stop {
			if depth == 0 && !strays {
				x.stop = false
			} else if depth > 0 {
				depth--
			}
		}
		items = append(items, x)
	}
	for balanced && depth > 0 {
		items = append(items, attrItem{stop: true})
		depth--
	}

	return items
}

// tagOf is what the sequences of an item are made of.
func tagOf(items []attrItem, i int) int {
	if items[i].tag > 0 {
		return 1000 + items[i].tag
	}

	return i
}

func startSeq(tag int) string { return fmt.Sprintf("<%d>", tag) }
func stopSeq(tag int) string  { return fmt.Sprintf("</%d>", tag) }
func textOf(i int) string     { return fmt.Sprintf("t%d", i) }

// build pushes a stream in a State.
// newAttribute makes an attribute, in any of the ways open to a user.
func newAttribute(how int, text, start, stop []rune) *attributes.Attribute {
	switch how {
	case 0:
		return &attributes.Attribute{Text: text, StartSequence: start, StopSequence: stop}
	case 1: // the fields are set later on
		a := attributes.New([]rune("other"), []rune("other start"), []rune("other stop"))
		a.Text, a.StartSequence, a.StopSequence = text, start, stop

		return a
	case 2: // a copy of another one
		a := *attributes.New(text, start, stop)

		return &a
	default:
		return attributes.New(text, start, stop)
	}
}

func build(items []attrItem, withNils *rand.Rand) (*attributes.State, []attributes.Renderer) {
	st := attributes.NewState()
	var all []attributes.Renderer
	log := new([]string)
	for i, x := range items {
		y := x
		y.stop = x.stop && !x.late
		a := newItem(items, i, y, log)
		if withNils != nil && withNils.Intn(4) == 0 {
			st.Push(nil)
		}
		st.Push(a)
		if x.stop && x.late {
			a.SetStop([]rune(stopSeq(tagOf(items, i))))
		}
		all = append(all, a)
	}

	return st, all
}

// newItem makes the renderer of an item.
func newItem(items []attrItem, i int, x attrItem, log *[]string) attributes.Renderer {
	if x.own {
		return &spy{id: i, tag: tagOf(items, i), start: x.start, stop: x.stop, log: log}
	}
	var start, stop []rune
	if x.start {
		start = []rune(startSeq(tagOf(items, i)))
	}
	if x.stop {
		stop = []rune(stopSeq(tagOf(items, i)))
	}

	return newAttribute(i%4, []rune(textOf(i)), start, stop)
}

// lineEnds is what StartOfLine and EndOfLine are to write after a renderer, given those known.
func lineEnds(items, known []attrItem, after int) (start, end string) {
	var stack, open []int
	closer := map[int]int{}
	for i, x := range known {
		if x.start {
			stack = append(stack, i)
		}
		if x.stop && len(stack) > 0 {
			closer[stack[len(stack)-1]] = i
			stack = stack[:len(stack)-1]
		}
		if i == after {
			open = append(open, stack...)
		}
	}
	for _, o := range open {
		start += startSeq(tagOf(items, o))
	}
	for k := len(open) - 1; k >= 0; k-- {
		if cl, ok := closer[open[k]]; ok {
			end += stopSeq(tagOf(items, cl))
		}
	}

	return start, end
}

func checkNesting(r *mon.Run) {
	r.Rule("all streams of up to 6 (thorough: 7) renderers over {plain, start, stop, start+stop}, and random streams of up to 40 with nesting, stray stops, nil renderers, stops set after the push, renderers of the user's own type; " +
		"oracles: the levels against a counter, and the order in which several iterators visit; non-trivial: a stream that reaches level 2")
	judge := func(c *mon.Case, items []attrItem, rng *rand.Rand) {
		c.Input("stream %s", showItems(items))
		st, all := build(items, rng)
		depth, top := 0, 0
		for i, x := range items {
			if x.start {
				depth++
			}
			if got := all[i].Level(); got != depth {
				c.Fail("renderer %d has level %d, want %d", i, got, depth)
			}
			if depth > top {
				top = depth
			}
			if x.stop && depth > 0 {
				depth--
			}
		}
		// iterators, in turns
		its := []*attributes.StateIterator{st.Iterator(), st.Iterator()}
		pos := []int{0, 0}
		for k := 0; pos[0] <= len(all) || pos[1] <= len(all); k++ {
			w := k % 2
			if rng != nil {
				w = rng.Intn(2)
			}
			if pos[w] > len(all) {
				w = 1 - w
			}
			got := its[w].Next()
			if want := pos[w] < len(all); got != want {
				c.Fail("Next = %t at renderer %d of %d", got, pos[w], len(all))
			}
			switch {
			case pos[w] < len(all) && its[w].Item() != all[pos[w]]:
				c.Fail("the iterator is not at renderer %d", pos[w])
			case pos[w] == len(all) && its[w].Item() != nil:
				c.Fail("the iterator holds an item after the end")
			}
			pos[w]++
			c.Eval(2)
		}
		for w := range its {
			if its[w].Next() {
				c.Fail("Next is true again after the end")
			}
		}
		if len(all) > 0 {
			first := st.First()
			for i := range all {
				if first.Item() != all[i] {
					c.Fail("the iterator made with First is not at renderer %d", i)
				}
				if got, want := first.Next(), i < len(all)-1; got != want {
					c.Fail("the iterator made with First: Next = %t after renderer %d", got, i)
				}
			}
		}
		c.Eval(2 * len(all))
		if top >= 2 {
			r.Nontrivial(showItems(items))
		}
	}
	kinds := []attrItem{{}, {start: true}, {stop: true}, {start: true, stop: true}}
	r.Cases("all-short-streams", 17, func(c *mon.Case) {
		if c.Index == 16 {
			judge(c, nil, nil)
			for _, k := range kinds {
				judge(c, []attrItem{k}, nil)
			}

			return
		}
		var rec func([]attrItem)
		rec = func(items []attrItem) {
			judge(c, items, nil)
			if len(items) < r.N(6, 8) {
				for _, k := range kinds {
					rec(append(items[:len(items):len(items)], k))
				}
			}
		}
		rec([]attrItem{kinds[c.Index/4], kinds[c.Index%4]})
	})
	r.Cases("deep", r.N(60, 1000), func(c *mon.Case) { judge(c, deepStream(c.Rng, r.N(5000, 70000)), c.Rng) })
	// a renderer may be pushed several times, to one state or to several: each push counts
	r.Cases("repeated", r.N(5000, 100000), func(c *mon.Case) {
		few := randStream(c.Rng, 1+c.Rng.Intn(5), false, true)
		log := new([]string)
		rs := make([]attributes.Renderer, len(few))
		for i, x := range few {
			x.late = false
			rs[i] = newItem(few, i, x, log)
		}
		sts := []*attributes.State{attributes.NewState(), attributes.NewState()}
		var pushed [2][]int
		trace := ""
		for k := 1 + c.Rng.Intn(12); k > 0; k-- {
			s, i := c.Rng.Intn(2), c.Rng.Intn(len(rs))
			if n := len(pushed[s]); n > 0 && c.Rng.Intn(3) == 0 {
				i = pushed[s][n-1]
			}
			trace += fmt.Sprintf("%d->%d ", i, s)
			pushed[s] = append(pushed[s], i)
			sts[s].Push(rs[i])
		}
		c.Input("renderers %s, pushed as %s", showItems(few), trace)
		for s, st := range sts {
			var got []int
			for it := st.Iterator(); it.Next(); {
				for i := range rs {
					if it.Item() == rs[i] {
						got = append(got, i)
					}
				}
			}
			if fmt.Sprint(got) != fmt.Sprint(pushed[s]) {
				c.Fail("state %d yields the renderers %v, want %v", s, got, pushed[s])
			}
			c.Eval(1)
		}
		c.Count("pushes of the same renderers", 1)
	})
	r.Cases("random", r.N(20000, 500000), func(c *mon.Case) {
		items := randStream(c.Rng, c.Rng.Intn(long(c.Rng, 16)+24), c.Rng.Intn(2) == 0, c.Rng.Intn(2) == 0)
		judge(c, items, c.Rng)
		if c.Index < 4 {
			r.Sample("stream %s", showItems(items))
		}
	})
}

// deepStream opens up to max contexts, then closes most of them.
func deepStream(rng *rand.Rand, max int) (out []attrItem) {
	up, down := 10+rng.Intn(80), 10+rng.Intn(80)
	for depth := 1 + rng.Intn(1+rng.Intn(max)); depth > 0; {
		x := attrItem{start: rng.Intn(100) < up}
		if x.start {
			depth--
		}
		x.stop = rng.Intn(300) < up
		out = append(out, x)
	}
	for n := rng.Intn(2 * len(out)); n > 0; n-- {
		out = append(out, attrItem{start: rng.Intn(300) < down, stop: rng.Intn(100) < down})
	}

	return out
}

func checkLineEnds(r *mon.Run) {
	r.Rule("all streams of up to 6 renderers over {plain, start, stop, start+stop} and random streams of up to 30, with nesting, some with sequences in common, broken into lines after every renderer and after random ones; " +
		"oracles: what EndOfLine and StartOfLine write, against a stack of the open contexts; and the rendered lines, each replayed alone by a simulated terminal; non-trivial: a break inside at least one open context")
	type ctx struct{ opener, closer int }
	judge := func(c *mon.Case, items []attrItem, breaks func(i int) bool, useFirst bool) {
		c.Input("stream %s", showItems(items))
		// the contexts: who opens them, and who closes them
		closer := map[int]int{}
		var stack []int
		open := make([][]int, len(items)) // the open contexts after each item, outermost first
		inside := make([][]int, len(items))
		for i, x := range items {
			if x.start {
				stack = append(stack, i)
			}
			inside[i] = append([]int{}, stack...)
			if x.stop && len(stack) > 0 {
				closer[stack[len(stack)-1]] = i
				stack = stack[:len(stack)-1]
			}
			open[i] = append([]int{}, stack...)
		}
		st, all := build(items, nil)
		var it *attributes.StateIterator
		b := new(bytes.Buffer)
		w := runesio.NewWriter(b)
		var lines []string
		if useFirst {
			it = st.First()
		} else {
			it = st.Iterator()
			it.EndOfLine(w)
			it.StartOfLine(w)
			if b.Len() > 0 {
				c.Fail("before the first renderer, nothing is open, but %+q is written", b.String())
			}
			if len(items) > 0 && !it.Next() {
				c.Fail("the iterator has no first item")
			}
		}
		pending := ""
		for i := range items {
			all[i].Render(w)
			pending += b.String()
			b.Reset()
			if breaks(i) {
				wantEnd, wantStart := "", ""
				for k := len(open[i]) - 1; k >= 0; k-- {
					if cl, ok := closer[open[i][k]]; ok {
						wantEnd += stopSeq(tagOf(items, cl))
					}
				}
				for _, o := range open[i] {
					wantStart += startSeq(tagOf(items, o))
				}
				it.EndOfLine(w)
				if b.String() != wantEnd {
					c.Fail("after renderer %d, EndOfLine writes %+q, want %+q", i, b.String(), wantEnd)
				}
				pending += b.String()
				lines = append(lines, pending)
				b.Reset()
				it.StartOfLine(w)
				if b.String() != wantStart {
					c.Fail("after renderer %d, StartOfLine writes %+q, want %+q", i, b.String(), wantStart)
				}
				pending = b.String()
				b.Reset()
				c.Eval(2)
				if len(open[i]) > 0 {
					r.Nontrivial(showItems(items) + fmt.Sprint(i))
					r.Count("breaks inside open contexts", 1)
				}
			}
			if got, want := it.Next(), i < len(items)-1; got != want {
				c.Fail("Next = %t after renderer %d", got, i)
			}
		}
		it.EndOfLine(w)
		it.StartOfLine(w)
		if b.Len() > 0 {
			c.Fail("after the last renderer, nothing is left to show, but %+q is written", b.String())
		}
		lines = append(lines, pending)
		// each line alone: every text lies in the same contexts as in the stream, and the line leaves nothing open that has a stop
		for n, line := range lines {
			var live []string
			for rest := line; rest != ""; {
				if rest[0] == '<' {
					tag, after, _ := strings.Cut(rest, ">")
					rest = after
					switch {
					case tag[1] != '/':
						live = append(live, tag[1:])
					case len(live) > 0:
						live = live[:len(live)-1]
					}

					continue
				}
				text, _, _ := strings.Cut(rest, "<")
				rest = rest[len(text):]
				for _, t := range strings.Split(text, "t")[1:] {
					var i int
					_, _ = fmt.Sscan(t, &i)
					want := make([]string, 0, 4)
					for _, o := range inside[i] {
						want = append(want, fmt.Sprint(tagOf(items, o)))
					}
					if strings.Join(want, ",") != strings.Join(live, ",") {
						c.Fail("line %d %+q: text %d is shown in the contexts %v, want %v", n, line, i, live, want)
					}
					c.Eval(1)
				}
			}
			for _, l := range live {
				var o int
				_, _ = fmt.Sscan(l, &o)
				if o >= 1000 {
					continue // several contexts have this sequence
				}
				if _, ok := closer[o]; ok {
					c.Fail("line %d %+q leaves the context %s open", n, line, l)
				}
			}
		}
	}
	// streams shown while they are made: renderers are pushed, and their stops set, between the calls
	r.Cases("growing", r.N(6000, 150000), func(c *mon.Case) {
		items := randStream(c.Rng, 1+c.Rng.Intn(14), true, c.Rng.Intn(3) == 0)
		known := append([]attrItem{}, items...) // as they are for now
		st := attributes.NewState()
		var its []*attributes.StateIterator
		var at []int
		log := new([]string)
		b := new(bytes.Buffer)
		w := runesio.NewWriter(b)
		look := func(n int, when string) {
			for k := c.Rng.Intn(3) + 1; k > 0; k-- {
				x := c.Rng.Intn(len(its))
				i := at[x]
				wantStart, wantEnd := lineEnds(items, known[:n], i)
				c.Input("stream %s, of which %d are pushed, %s", showItems(items), n, when)
				b.Reset()
				end := c.Rng.Intn(2) == 0
				if end {
					its[x].EndOfLine(w)
				} else {
					its[x].StartOfLine(w)
				}
				if end && b.String() != wantEnd {
					c.Fail("after renderer %d, EndOfLine writes %+q, want %+q", i, b.String(), wantEnd)
				}
				if !end && b.String() != wantStart {
					c.Fail("after renderer %d, StartOfLine writes %+q, want %+q", i, b.String(), wantStart)
				}
				c.Eval(1)
			}
		}
		for i, x := range items {
			x.stop = x.stop && !x.late
			known[i] = x
			a := newItem(items, i, x, log)
			st.Push(a)
			if len(its) == 0 || c.Rng.Intn(4) == 0 { // one more iterator
				its, at = append(its, st.First()), append(at, 0)
			}
			look(i+1, "one of them right now")
			for k := range its {
				for at[k] < i && c.Rng.Intn(3) > 0 {
					if !its[k].Next() {
						c.Fail("Next = false after renderer %d of %d", at[k], i+1)

						return
					}
					at[k]++
				}
			}
			look(i+1, "some shown")
			if items[i].stop && items[i].late {
				a.SetStop([]rune(stopSeq(tagOf(items, i))))
				known[i].stop = true
				look(i+1, "the stop of the last one set late")
				r.Nontrivial("growing " + showItems(items) + fmt.Sprint(i))
			}
		}
		c.Count("streams shown while they are made", 1)
	})
	always := func(int) bool { return true }
	kinds := []attrItem{{}, {start: true}, {stop: true}, {start: true, stop: true}}
	r.Cases("all-short-streams", 17, func(c *mon.Case) {
		if c.Index == 16 {
			judge(c, nil, always, false)
			judge(c, nil, always, true)
			for _, k := range kinds {
				judge(c, []attrItem{k}, always, false)
			}

			return
		}
		var rec func([]attrItem)
		rec = func(items []attrItem) {
			judge(c, items, always, false)
			judge(c, items, always, true)
			if len(items) < r.N(6, 8) {
				for _, k := range kinds {
					rec(append(items[:len(items):len(items)], k))
				}
			}
		}
		rec([]attrItem{kinds[c.Index/4], kinds[c.Index%4]})
	})
	longState(r)
	r.Cases("deep", r.N(60, 1000), func(c *mon.Case) {
		p := 20 + c.Rng.Intn(200)
		judge(c, deepStream(c.Rng, 700), func(i int) bool { return i*7919%p == 0 }, c.Rng.Intn(3) == 0)
	})
	r.Cases("random", r.N(20000, 500000), func(c *mon.Case) {
		items := randStream(c.Rng, 1+c.Rng.Intn(long(c.Rng, 16)+14), c.Rng.Intn(2) == 0, c.Rng.Intn(2) == 0)
		p := 1 + c.Rng.Intn(4)
		cuts := make([]bool, len(items))
		for i := range cuts {
			cuts[i] = c.Rng.Intn(p) == 0
		}
		judge(c, items, func(i int) bool { return cuts[i] }, c.Rng.Intn(3) == 0)
		if c.Index < 4 {
			r.Sample("stream %s, broken after %v", showItems(items), cuts)
		}
	})
}

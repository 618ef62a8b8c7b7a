package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"syscall"
	"unsafe"

	"github.com/fredbi/go-typeset/attributes"
	"github.com/fredbi/go-typeset/linebreak"
	"github.com/fredbi/go-typeset/terminal/ansi"
	"github.com/fredbi/go-typeset/terminal/runes"
	"github.com/fredbi/go-typeset/terminal/runes/runesio"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"github.com/fredbi/go-typeset/wordbreak/punctuator"
	"github.com/fredbi/go-typeset/wordbreak/tokenizer"

	"verif/harness/internal/mon"
)

// guarded is memory that may be made read-only, and ends at a page that cannot be touched at all.
type guarded struct {
	pages []byte
	size  int
}

func newGuarded(pages int) (*guarded, error) {
	page := os.Getpagesize()
	all, err := syscall.Mmap(-1, 0, (pages+1)*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		return nil, err
	}
	if err := syscall.Mprotect(all[pages*page:], syscall.PROT_NONE); err != nil {
		return nil, err
	}

	return &guarded{pages: all, size: pages * page}, nil
}

func (g *guarded) protect(prot int) error { return syscall.Mprotect(g.pages[:g.size], prot) }

// put copies runes at the end of the memory, or some way before.
func (g *guarded) put(in []rune, before int) []rune {
	at := g.size - 4*(len(in)+before)
	all := unsafe.Slice((*rune)(unsafe.Pointer(&g.pages[at])), len(in)+before)
	copy(all, in)

	return all[:len(in)] // the array goes on, and cannot be written either
}

// text copies a string at the end of the memory.
func (g *guarded) text(in string) string {
	if in == "" {
		return ""
	}
	at := g.pages[g.size-len(in) : g.size]
	copy(at, in)

	return *(*string)(unsafe.Pointer(&at))
}

// ownGuarded: inputs lie in memory that cannot be written, not even for a while.
func ownGuarded(r *mon.Run) {
	memory := make(chan *guarded, 64)
	r.Cases("read-only", r.N(6000, 150000), func(c *mon.Case) {
		var g *guarded
		select {
		case g = <-memory:
		default:
			var err error
			if g, err = newGuarded(4); err != nil {
				r.Broken("no memory to protect: %v", err)
			}
		}
		defer func() {
			if err := g.protect(syscall.PROT_READ | syscall.PROT_WRITE); err != nil {
				r.Broken("memory cannot be made writable again: %v", err)
			}
			memory <- g
		}()
		touched := func(f func()) (what any) {
			defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
			defer func() {
				if e := recover(); e != nil {
					if _, fault := e.(interface{ Addr() uintptr }); !fault {
						panic(e)
					}
					what = e
				}
			}()
			f()

			return nil
		}
		ops := ownOps(c.Rng)
		ops = append(ops, guardedOps(ops[0].gen)...)
		op := pick(c.Rng, ops)
		in := op.gen(c.Rng)
		if len(in) > 3000 {
			in = in[:3000]
		}
		want := cloneParts(op.do(clone(in)))
		given := g.put(in, pick(c.Rng, []int{0, 0, 1, 7, 40}))
		if err := g.protect(syscall.PROT_READ); err != nil {
			r.Broken("memory cannot be protected: %v", err)
		}
		c.Input("%s(%s), of runes that cannot be written", op.name, q(in))
		if c.Rng.Intn(4) == 0 { // a string
			s := string(in)
			given := ""
			want := guardedString(s)
			if err := g.protect(syscall.PROT_READ | syscall.PROT_WRITE); err != nil {
				r.Broken("memory cannot be made writable again: %v", err)
			}
			given = g.text(s)
			if err := g.protect(syscall.PROT_READ); err != nil {
				r.Broken("memory cannot be protected: %v", err)
			}
			c.Input("the string %+q, which cannot be written", s)
			got := ""
			if e := touched(func() { got = guardedString(given) }); e != nil {
				c.Fail("the string is written to, or read beyond its end: %v", e)
			} else if got != want {
				c.Fail("yields %s, elsewhere %s", got, want)
			}
			c.Eval(1)
			c.Count("inputs that cannot be written", 1)

			return
		}
		var got [][]rune
		if e := touched(func() { got = cloneParts(op.do(given)) }); e != nil {
			c.Fail("the input is written to, or read beyond its end: %v", e)
		} else if !eqParts(got, want) {
			c.Fail("yields %s, elsewhere %s", qq(got), qq(want))
		}
		c.Eval(1)
		c.Count("inputs that cannot be written", 1)
		if len(got) > 1 {
			r.Nontrivial("read-only " + op.name + q(in))
		}
	})
	r.Require("inputs that cannot be written", 5000)
}

// guardedString is what many operations on a string yield.
func guardedString(s string) string {
	lines, err := linebreak.New().LeftAlignUniform([]string{s, s}, 12)
	out := fmt.Sprintf("%q %v %d", lines, err, runes.StringWidth(s))
	for _, parts := range [][][]rune{tokenizer.New().BreakWordString(s), punctuator.New().BreakWordString(s), hyphenator.New().BreakWordString(s)} {
		out += qq(parts)
	}

	return out
}

// guardedOps are more operations on runes: all those that have no other memory than their input.
func guardedOps(text func(*rand.Rand) []rune) []ownOp {
	return []ownOp{
		{"Writer.WriteRunes", text, func(rs []rune) [][]rune {
			b := new(bytes.Buffer)
			_, _ = runesio.NewWriter(b).WriteRunes(rs)
			_, _ = runesio.AsRunesWriter(b).WriteRunes(rs)

			return [][]rune{[]rune(b.String())}
		}},
		{"SliceReader", text, func(rs []rune) [][]rune {
			rd := runesio.NewSliceReader(rs)
			out := rd.Slices([]int{0, len(rs) / 2, len(rs) / 2, len(rs)})
			out = append(out, rd.SliceFromByteOffsets([]int{0, len(string(rs)), 0, 0})...)
			for {
				x, _, err := rd.ReadRune()
				if err != nil {
					break
				}
				out = append(out, []rune{x})
			}

			return append(out, rd.Runes())
		}},
		{"Renderers", text, func(rs []rune) [][]rune {
			b := new(bytes.Buffer)
			w := runesio.NewWriter(b)
			st := attributes.NewState()
			all := attributes.Renderers{attributes.New(rs, rs, nil), nil, attributes.New(rs, nil, rs)}
			for _, a := range all {
				st.Push(a)
			}
			all.Render(w)
			all.Start(w)
			all.Stop(w)
			for it := st.Iterator(); it.Next(); {
				it.EndOfLine(w)
				it.StartOfLine(w)
			}

			return [][]rune{[]rune(b.String())}
		}},
		{"IsHyphen and Width of each", text, func(rs []rune) [][]rune {
			var out []rune
			for i := range rs {
				n := rune(runes.Width(rs[i]))
				if hyphenator.IsHyphen(rs[i : i+1]) {
					n += 100
				}
				out = append(out, n)
			}

			return [][]rune{out}
		}},
		{"StripToken, twice", text, func(rs []rune) (out [][]rune) {
			for _, t := range ansi.StripToken(rs) {
				for _, u := range ansi.StripToken(t.Text) {
					out = append(out, u.Text, []rune(fmt.Sprint(len(u.Remainder))))
				}
			}

			return out
		}},
	}
}

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"strings"

	"golang.org/x/text/language"

	"github.com/fredbi/go-typeset/linebreak"
	"github.com/fredbi/go-typeset/terminal/ansi"
	"github.com/fredbi/go-typeset/terminal/runes"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"github.com/fredbi/go-typeset/wordbreak/punctuator"
	"github.com/fredbi/go-typeset/wordbreak/tokenizer"

	"verif/harness/internal/mon"
)

// orderOp is a question, the answer of which must not depend on those asked before in the process.
type orderOp struct {
	desc string
	do   func() string
}

var orderSuites = map[string]func(seed string, rng *rand.Rand) []orderOp{
	"lines": func(seed string, _ *rand.Rand) (out []orderOp) {
		for _, p := range ordersParas(seed) {
			p := p
			out = append(out, orderOp{p.String(), func() string {
				lines, err := linebreak.New(p.conf.opts()...).LeftAlignUniform(p.tokens, p.width)

				return fmt.Sprintf("%+q, %v", lines, err)
			}})
		}

		return out
	},
	"width": func(_ string, rng *rand.Rand) (out []orderOp) {
		settings := []func() ([]runes.Option, string){
			func() ([]runes.Option, string) { return nil, "" },
			func() ([]runes.Option, string) {
				ea := rng.Intn(2) == 0

				return []runes.Option{runes.WithEastAsian(ea)}, fmt.Sprintf("ea=%t", ea)
			},
			func() ([]runes.Option, string) {
				skip := rng.Intn(2) == 0

				return []runes.Option{runes.WithEastAsian(true), runes.WithSkipStrictEmojiNeutral(skip)}, fmt.Sprintf("ea skip=%t", skip)
			},
			func() ([]runes.Option, string) {
				n := rng.Intn(4)

				return []runes.Option{runes.WithEastAsianAmbiguousWidth(n), runes.WithEastAsian(true)}, fmt.Sprintf("ea ambiguous=%d", n)
			},
			func() ([]runes.Option, string) {
				n := rng.Intn(4)

				return []runes.Option{runes.WithEastAsianAmbiguousWidth(n)}, fmt.Sprintf("ambiguous=%d", n)
			},
			func() ([]runes.Option, string) {
				return []runes.Option{runes.WithSkipStrictEmojiNeutral(true)}, "skip"
			},
		}
		var few []rune
		for len(few) < 60 {
			few = append(few, widthRune(rng), pick(rng, []rune{0xB1, 0xA7, 0x3B1, 0x2500, 0x2603, 0x2460, 0x1F308, 0x1F321, 0x4E16, 0x301}))
		}
		for len(out) < 300 {
			rs := make([]rune, 1+rng.Intn(4))
			for i := range rs {
				rs[i] = pick(rng, few)
			}
			for _, k := range rng.Perm(len(settings))[:3] {
				opts, desc := settings[k]()
				what := rng.Intn(4)
				out = append(out, orderOp{fmt.Sprintf("the width (%d) of %s with %s", what, q(rs), desc), func() string {
					switch what {
					case 0:
						return fmt.Sprint(runes.Widths(rs, opts...))
					case 1:
						return fmt.Sprint(runes.StringWidth(string(rs), opts...))
					case 2:
						return fmt.Sprint(runes.Width(rs[0], opts...))
					default:
						return fmt.Sprint(runes.IsAmbiguous(rs[0]), runes.Widths(rs, opts...))
					}
				}})
			}
		}

		return out
	},
	"words": func(_ string, rng *rand.Rand) (out []orderOp) {
		for len(out) < 300 {
			m := randMode(rng)
			w := mixCase(rng, []rune(pick(rng, lbWords)+pick(rng, lbWords)), 20)
			if rng.Intn(3) == 0 {
				w = mixCase(rng, []rune(pick(rng, exceptionWords)), 20)
			}
			for k := 0; k < 3; k++ {
				if k > 0 {
					m.lang = pick(rng, liangNames)
				}
				m := m
				loaded := rng.Intn(6) == 0
				out = append(out, orderOp{fmt.Sprintf("BreakWord(%s) with %s (loaded: %t)", q(w), m, loaded), func() string {
					h := hyphenator.New(m.opts()...)
					if loaded {
						d, err := hyphenator.LoadPatterns(liangFiles[m.lang])
						if err != nil {
							return err.Error()
						}
						h = hyphenator.New()
						h.Dictionary = d
					}

					return qq(h.BreakWord(w)) + h.String()
				}})
			}
		}

		return out
	},
	"languages": func(_ string, rng *rand.Rand) (out []orderOp) {
		langs := []string{"en", "fr", "de", "es", "en", "ru", "zh", "it", "und", "gsw", "ca", "xx"}
		more := []string{"", "", "-US", "-GB", "-CA", "-AU", "-AT", "-CH", "-MX", "-419", "-Latn", "-Latn-US", "-u-co-phonebk", "-x-y", "-001", "-150", "-BE", "-AS", "-JO"}
		for len(out) < 150 {
			name := pick(rng, langs) + pick(rng, more)
			tag := rng.Intn(2) == 0
			out = append(out, orderOp{fmt.Sprintf("the dictionary of %q (as a tag: %t)", name, tag), func() string {
				h := hyphenator.New(hyphenator.WithLanguage(name))
				if tag {
					h = hyphenator.New(hyphenator.WithLanguageTag(language.Make(name)))
				}
				s := h.String()
				for _, w := range []string{"photography", "algorithme", "Silbentrennung", "hyphenation", "internacional", "project"} {
					s += " " + qq(h.BreakWordString(w))
				}

				return s
			}})
		}

		return out
	},
	"sequences": func(_ string, rng *rand.Rand) (out []orderOp) {
		for len(out) < 600 {
			in := hostileANSI(rng, 30)
			out = append(out, orderOp{"stripping " + q(in), func() string { return showTokens(ansi.StripToken(in)) }})
		}

		return out
	},
	"tokens": splitOrders("tokens", func(in []rune) [][]rune { return tokenizer.New().BreakWord(in) }),
	"marks":  splitOrders("marks", func(in []rune) [][]rune { return punctuator.New().BreakWord(in) }),
	"splits": splitOrders("hyphens", hyphenator.SplitWord),
}

func splitOrders(what string, split func([]rune) [][]rune) func(string, *rand.Rand) []orderOp {
	return func(_ string, rng *rand.Rand) (out []orderOp) {
		for len(out) < 600 {
			in := anyRunes(rng, 25, true)
			if rng.Intn(2) == 0 {
				in = append(in, []rune(pick(rng, []string{" a-b, c", "(x)\u2010\u00a0y", "a|b--c", "\u3000!\u00bf"}))...)
			}
			out = append(out, orderOp{"splitting " + q(in) + " at " + what, func() string { return qq(split(in)) }})
		}

		return out
	}
}

func ordersOf(suite, seed string) []orderOp {
	h := fnv.New64a()
	_, _ = h.Write([]byte("orders" + suite + seed))

	return orderSuites[suite](seed, rand.New(rand.NewSource(int64(h.Sum64()))))
}

// childOrders asks the questions in a given order, and tells the answers.
func childOrders(suite, seed, order string) {
	ops := ordersOf(suite, seed)
	perm := make([]int, len(ops))
	for i := range perm {
		perm[i] = i
	}
	if order != "0" {
		h := fnv.New64a()
		_, _ = h.Write([]byte(order + suite + seed))
		rand.New(rand.NewSource(int64(h.Sum64()))).Shuffle(len(perm), func(i, j int) { perm[i], perm[j] = perm[j], perm[i] })
	}
	out := make([]string, len(ops))
	for _, i := range perm {
		out[i] = ops[i].do()
	}
	_ = json.NewEncoder(os.Stdout).Encode(out)
}

// inOrders asks the same questions in fresh processes, in different orders.
func inOrders(r *mon.Run, suite string, n int) {
	r.Serial("orders", n, func(c *mon.Case) {
		seed := fmt.Sprint(c.Seed*1000000 + int64(c.Index))
		c.Input("child orders %s %s", suite, seed)
		var outcomes [3][]string
		for k := range outcomes {
			cmd := exec.Command(os.Args[0], "child", "orders", suite, seed, fmt.Sprint(k))
			cmd.Env = append(os.Environ(), "VERIF_REPLAY=")
			out, errs := new(bytes.Buffer), new(bytes.Buffer)
			cmd.Stdout, cmd.Stderr = out, errs
			if err := c.RunChild(cmd); err != nil {
				if strings.Contains(errs.String(), mon.Lib) {
					c.Fail("the process dies: %.4000s", errs)
				}
				c.Broken("child orders %s %s: %v %s", suite, seed, err, errs)
			}
			if err := json.Unmarshal(out.Bytes(), &outcomes[k]); err != nil {
				c.Broken("child orders %s %s: %v", suite, seed, err)
			}
		}
		for i, op := range ordersOf(suite, seed) {
			for k := 1; k < len(outcomes); k++ {
				if outcomes[0][i] != outcomes[k][i] {
					c.Fail("%s is %s or %s, depending on what the process has done before", op.desc, outcomes[0][i], outcomes[k][i])
				}
			}
			c.Eval(1)
			r.Count("questions asked in fresh processes, in several orders", 1)
		}
	})
	r.Require("questions asked in fresh processes, in several orders", 500)
}

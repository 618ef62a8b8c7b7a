//go:build trieprobe

package main

import (
	"fmt"
	"strings"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verifprobe"

	"verif/harness/internal/mon"
)

func init() { checks["H06"] = checkTrie }

// trieModel is the specification: a map, where the nodes are all the prefixes of the keys that have a value.
type trieModel struct {
	vals map[string]interface{}
}

func (m *trieModel) get(k string) interface{} { return m.vals[k] }

func (m *trieModel) put(k string, v interface{}) bool {
	isNew := m.vals[k] == nil
	m.vals[k] = v

	return isNew
}

func (m *trieModel) del(k string) bool {
	found := k == "" // the root always exists
	for other := range m.vals {
		found = found || strings.HasPrefix(other, k)
	}
	delete(m.vals, k)

	return found
}

func checkTrie(r *mon.Run) {
	r.Rule("histories of Put/Get/Delete on one trie: all histories of 5 (thorough: 6) mutations over 5 nested keys, and random histories of 400 operations (4000 over 3000 runes) over key sets of high and low overlap, of any runes, invalid ones included, up to 600 runes long; " +
		"after each operation the result is compared with a map model, and in short histories all keys are read back; non-trivial: a history with a Delete that finds a node")
	type op struct {
		del bool
		key string
	}
	keys := []string{"", "a", "ab", "abc", "b"}
	var ops []op
	for _, k := range keys {
		ops = append(ops, op{false, k}, op{true, k})
	}
	probes := append([]string{"abcd", "ac", "c", "ba", "bc"}, keys...)
	play := func(c *mon.Case, h []op) {
		t := verifprobe.New()
		m := &trieModel{vals: map[string]interface{}{}}
		deleted := false
		desc := ""
		for i, o := range h {
			k := []rune(o.key)
			var got, want bool
			if o.del {
				desc += fmt.Sprintf("Delete(%q) ", o.key)
				c.Input("%s", desc)
				got, want = t.Delete(k), m.del(o.key)
				deleted = deleted || want
			} else {
				desc += fmt.Sprintf("Put(%q) ", o.key)
				c.Input("%s", desc)
				got, want = t.Put(k, i), m.put(o.key, i)
			}
			if got != want {
				c.Fail("the last operation returns %t, want %t", got, want)
			}
			for j := range k {
				k[j] = 'z' // the caller may reuse its key
			}
		}
		for _, k := range probes {
			if got, want := t.Get([]rune(k)), m.get(k); got != want {
				c.Fail("then Get(%q) = %v, want %v", k, got, want)
			}
		}
		c.Eval(len(h) + len(probes))
		if deleted {
			r.Nontrivial(desc)
		}
	}
	depth := r.N(5, 6)
	r.Cases("all-short-histories", len(ops)*len(ops), func(c *mon.Case) {
		h := []op{ops[c.Index/len(ops)], ops[c.Index%len(ops)]}
		var rec func([]op)
		rec = func(h []op) {
			play(c, h)
			if len(h) < depth {
				for _, o := range ops {
					rec(append(h[:len(h):len(h)], o))
				}
			}
		}
		rec(h)
	})
	// keys are held by the model as the bytes of their runes, so that invalid runes are told apart
	enc := func(rs []rune) string {
		b := make([]byte, 0, 4*len(rs))
		for _, x := range rs {
			b = append(b, byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
		}

		return string(b)
	}
	dec := func(k string) []rune {
		rs := make([]rune, len(k)/4)
		for i := range rs {
			rs[i] = rune(k[4*i])<<24 | rune(k[4*i+1])<<16 | rune(k[4*i+2])<<8 | rune(k[4*i+3])
		}

		return rs
	}
	r.Cases("random", r.N(900, 25000), func(c *mon.Case) {
		var rs []rune
		maxLen, longest, steps := 1+c.Rng.Intn(8), 16, 400
		switch c.Rng.Intn(8) {
		case 0: // runes that look the same once cut, or once encoded
			x := anyRune(c.Rng, true)
			rs = []rune{x, x + 1<<8, x + 1<<16, x + 1<<20, x + 1<<21, ^x, x ^ 1<<15, 0xFFFD, -1, 0xD800, 0x110000, 1<<31 - 1, -1 << 31, 0}
		case 1: // a great number of children
			for i := 0; i < 3000; i++ {
				rs = append(rs, rune(i*7))
			}
			maxLen, steps = 1+c.Rng.Intn(2), 4000
		case 2: // long keys
			rs = []rune{'a', 'b'}
			maxLen, longest = 300, 600
		case 3:
			rs = anyRunes(c.Rng, 12, true)
			rs = append(rs, 'a')
		default:
			rs = []rune(pick(c.Rng, []string{"ab", "abc.", "aé世\U0001F308", "abcdefghijklmnopqrstuvwxyz"}))
		}
		t := verifprobe.New()
		m := &trieModel{vals: map[string]interface{}{}}
		deleteBias := c.Rng.Intn(10)
		var used []string
		buf := make([]rune, 0, longest)
		var desc strings.Builder
		deleted := 0
		for k := 0; k < steps; k++ {
			if sameLength := len(buf) > 0 && c.Rng.Intn(8) == 0; sameLength { // the last key, changed in place
				switch {
				case len(used) == 0 || c.Rng.Intn(3) == 0:
					buf[c.Rng.Intn(len(buf))] = pick(c.Rng, rs)
				default:
					copy(buf, dec(pick(c.Rng, used)))
				}
			} else {
				buf = buf[:0]
			}
			switch inPlace := len(buf) > 0; {
			case inPlace:
			case len(used) > 0 && c.Rng.Intn(4) == 0: // a known key
				buf = append(buf, dec(pick(c.Rng, used))...)
			default:
				if len(used) > 0 && c.Rng.Intn(2) == 0 { // a prefix or extension of a known key
					buf = append(buf, dec(pick(c.Rng, used))...)
					buf = buf[:c.Rng.Intn(len(buf)+1)]
				}
				for n := c.Rng.Intn(maxLen + 1); n > 0 && len(buf) < longest; n-- {
					buf = append(buf, pick(c.Rng, rs))
				}
			}
			key := enc(buf)
			switch x := c.Rng.Intn(20); {
			case x < 5:
				if got, want := t.Get(buf), m.get(key); got != want {
					c.Input("%sGet(%#x)", desc.String(), buf)
					c.Fail("Get(%#x) = %v, want %v", buf, got, want)
				}
			case x < 6+deleteBias:
				fmt.Fprintf(&desc, "Delete(%#x) ", buf)
				want := m.del(key)
				if got := t.Delete(buf); got != want {
					c.Input("%s", desc.String())
					c.Fail("Delete(%#x) = %t, want %t", buf, got, want)
				}
				if want {
					deleted++
				}
			default:
				used = append(used, key)
				fmt.Fprintf(&desc, "Put(%#x,%d) ", buf, k)
				if got, want := t.Put(buf, k), m.put(key, k); got != want {
					c.Input("%s", desc.String())
					c.Fail("Put(%#x) = %t, want %t", buf, got, want)
				}
			}
		}
		c.Input("%s", desc.String())
		for _, key := range used {
			for n := 0; n <= len(key); n += 4 {
				p := key[:n]
				if got, want := t.Get(dec(p)), m.get(p); got != want {
					c.Fail("at the end Get(%#x) = %v, want %v", dec(p), got, want)
				}
			}
		}
		c.Eval(steps + len(used))
		if deleted > 0 {
			r.Nontrivial(desc.String())
		}
		if c.Index < 3 {
			r.Sample("%.2000s", desc.String())
		}
	})
	r.Cases("nil-values", r.N(500, 10000), func(c *mon.Case) { // a stored nil is not distinguishable from no value
		t := verifprobe.New()
		m := &trieModel{vals: map[string]interface{}{}}
		for k := 0; k < 60; k++ {
			key := pick(c.Rng, keys)
			var v interface{}
			if c.Rng.Intn(2) == 0 {
				v = k
			}
			c.Input("Put(%q, %v)", key, v)
			if got, want := t.Put([]rune(key), v), m.put(key, v); got != want {
				c.Fail("Put(%q, %v) = %t, want %t", key, v, got, want)
			}
			for _, p := range probes {
				if got, want := t.Get([]rune(p)), m.get(p); got != want {
					c.Fail("then Get(%q) = %v, want %v", p, got, want)
				}
			}
			c.Eval(1 + len(probes))
		}
	})
}

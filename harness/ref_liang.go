package main

import (
	"bufio"
	"os"
	"path/filepath"
	"strings"
	"unicode"

	"verif/harness/internal/mon"
)

// liang is a reference hyphenation dictionary, read from the original TeX file kept in harness/data/tex.
//
// It follows TeX: \patterns and \hyphenation are brace groups of blank-separated words, "%" starts a comment.
type liang struct {
	name       string
	patterns   map[string][]int // letters (with dots) => values, one more than letters
	order      []string         // patterns in the order of the file
	maxLen     int
	exceptions map[string]map[int]bool
	excOrder   []string
	alphabet   []rune
}

var liangFiles = map[string]string{
	"us": "ushyphmax.tex", "gb": "hyph-en-gb.tex", "fr": "hyph-fr.tex", "de": "hyph-de-1996.tex", "es": "hyph-es.tex",
}

var liangNames = []string{"us", "gb", "fr", "de", "es"}

func loadLiang(r *mon.Run, name string) *liang {
	d, err := readLiang(filepath.Join(r.Dir, "harness", "data", "tex", liangFiles[name]))
	if err != nil {
		r.Broken("reference dictionary %s: %v", name, err)
	}
	d.name = name

	return d
}

func readLiang(path string) (*liang, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var text strings.Builder
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		line, _, _ := strings.Cut(sc.Text(), "%")
		text.WriteString(line)
		text.WriteByte('\n')
	}
	d := &liang{patterns: map[string][]int{}, exceptions: map[string]map[int]bool{}}
	seen := map[rune]bool{}
	for _, word := range group(text.String(), `\patterns{`) {
		var (
			letters []rune
			values  = []int{0}
		)
		for _, r := range word {
			if r >= '0' && r <= '9' {
				values[len(values)-1] = int(r - '0')

				continue
			}
			if r != '.' && !seen[r] {
				seen[r] = true
				d.alphabet = append(d.alphabet, r)
			}
			letters = append(letters, unicode.ToLower(r))
			values = append(values, 0)
		}
		key := string(letters)
		if _, dup := d.patterns[key]; !dup {
			d.order = append(d.order, key)
		}
		d.patterns[key] = values
		if len(letters) > d.maxLen {
			d.maxLen = len(letters)
		}
	}
	for _, word := range group(text.String(), `\hyphenation{`) {
		var letters []rune
		breaks := map[int]bool{}
		for _, r := range word {
			if r == '-' {
				breaks[len(letters)] = true

				continue
			}
			letters = append(letters, unicode.ToLower(r))
		}
		d.exceptions[string(letters)] = breaks
		d.excOrder = append(d.excOrder, string(letters))
	}

	return d, nil
}

// group yields the words of all the brace groups that follow a TeX command.
func group(text, command string) (words []string) {
	for {
		_, rest, ok := strings.Cut(text, command)
		if !ok {
			return words
		}
		body, rest, _ := strings.Cut(rest, "}")
		words = append(words, strings.Fields(body)...)
		text = rest
	}
}

// points tells for each position in the word whether it is a legitimate hyphenation point.
func (d *liang) points(word []rune) []bool {
	lower := make([]rune, 0, len(word)+2)
	lower = append(lower, '.')
	for _, r := range word {
		lower = append(lower, unicode.ToLower(r))
	}
	lower = append(lower, '.')
	out := make([]bool, len(word)+1)
	if breaks, ok := d.exceptions[string(lower[1:len(lower)-1])]; ok {
		for i := range breaks {
			out[i] = true
		}

		return out
	}
	values := make([]int, len(lower)+1) // values[i] is before lower[i]
	for i := range lower {
		for n := 1; n <= d.maxLen && i+n <= len(lower); n++ {
			for k, v := range d.patterns[string(lower[i:i+n])] {
				if v > values[i+k] {
					values[i+k] = v
				}
			}
		}
	}
	for p := 1; p < len(word); p++ {
		out[p] = values[p+1]%2 == 1
	}

	return out
}

// split is the specification of BreakWord for a word without hyphens.
func (d *liang) split(word []rune, minLength, minLeft, minRight int) (parts [][]rune) {
	if len(word) < minLength {
		return [][]rune{word}
	}
	pts := d.points(word)
	previous := 0
	for p := 1; p < len(word); p++ {
		if !pts[p] || p-previous < minLeft || len(word)-p < minRight {
			continue
		}
		parts = append(parts, word[previous:p])
		previous = p
	}

	return append(parts, word[previous:])
}

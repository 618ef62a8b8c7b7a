From e0a85742cb6d707a417d45414be1962afdfcea43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:52 +0000
Subject: [PATCH 01/28] fix: provide runesio.AsRunesWriter, without which
 linebreak does not compile

---
 terminal/runes/runesio/writer.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/terminal/runes/runesio/writer.go b/terminal/runes/runesio/writer.go
index d44ac3a..3d19db9 100644
--- a/terminal/runes/runesio/writer.go
+++ b/terminal/runes/runesio/writer.go
@@ -27,6 +27,17 @@ func NewWriter(w io.Writer) Writer {
 	}
 }
 
+// AsRunesWriter exposes an io.Writer as a runes Writer.
+//
+// A writer that already knows how to write runes is returned unchanged.
+func AsRunesWriter(w io.Writer) Writer {
+	if asWriter, ok := w.(Writer); ok {
+		return asWriter
+	}
+
+	return NewWriter(w)
+}
+
 func (rw *runesWriter) WriteRune(r rune) (int, error) {
 	return rw.writeRune(r)
 }
-- 
2.43.0


From 457d3574c577d6f16c2acfae6626a5ed1ecffbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 02/28] fix: Widths measures invalid runes and U+2E3B like
 Width does

---
 terminal/runes/width.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/terminal/runes/width.go b/terminal/runes/width.go
index 9d1632d..0b6df68 100644
--- a/terminal/runes/width.go
+++ b/terminal/runes/width.go
@@ -50,7 +50,15 @@ func Widths(runes []rune, opts ...Option) (width int) {
 
 	buildLookupOnce.Do(initLookupTable) // builds the cache once
 	for _, r := range runes {
-		width += int((lookupTable[r>>2] >> ((r % 4) * 2)) & 3)
+		switch {
+		case !utf8.ValidRune(r) || r == utf8.RuneError:
+			continue
+		case r == 0x2E3B:
+			// special case with code point with a width that overflow our lookup table
+			width += 4
+		default:
+			width += int((lookupTable[r>>2] >> ((r % 4) * 2)) & 3)
+		}
 	}
 
 	return width
-- 
2.43.0


From 8c48a4cbe55c00951659a147b75cbe59ad1a92ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 03/28] fix: decode ANSI sequences with 3-digit parameters

---
 terminal/ansi/ansi.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/terminal/ansi/ansi.go b/terminal/ansi/ansi.go
index 33de825..291da73 100644
--- a/terminal/ansi/ansi.go
+++ b/terminal/ansi/ansi.go
@@ -239,13 +239,13 @@ func decodeANSISequence(rdr *runesio.SliceReader) ([]rune, kind) {
 	nextStart, _ = rdr.Seek(0, io.SeekCurrent)
 
 	hasZeroArg := true
-	for i := 0; i < maxDigits; i++ {
+	for i := 0; ; i++ { // read up to maxDigits digits, and the rune that follows
 		r, _, err = rdr.ReadRune()
 		if err != nil {
 			break
 		}
 
-		if !unicode.IsDigit(r) {
+		if i >= maxDigits || !unicode.IsDigit(r) {
 			break
 		}
 
@@ -261,13 +261,13 @@ func decodeANSISequence(rdr *runesio.SliceReader) ([]rune, kind) {
 		runeCount++
 		nextStart++
 
-		for i := 0; i < maxDigits; i++ {
+		for i := 0; ; i++ {
 			r, _, err = rdr.ReadRune()
 			if err != nil {
 				break
 			}
 
-			if !unicode.IsDigit(r) {
+			if i >= maxDigits || !unicode.IsDigit(r) {
 				break
 			}
 
-- 
2.43.0


From 08083a09fc860cafbed3d307b87613f026fb738b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 04/28] fix: StripANSIFromRunes no longer writes to the array
 of its caller

---
 terminal/ansi/ansi.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/terminal/ansi/ansi.go b/terminal/ansi/ansi.go
index 291da73..cec0275 100644
--- a/terminal/ansi/ansi.go
+++ b/terminal/ansi/ansi.go
@@ -133,8 +133,8 @@ func StripANSIFromRunes(rns []rune) StrippedToken {
 			if groups[1] == nil {
 				groups[1] = endANSI // should normally never end up here
 			} else {
-				// indulge into one allocation
-				groups[1] = append(groups[1], endANSI...)
+				// indulge into one allocation: never append to the array of the caller
+				groups[1] = append(groups[1][:len(groups[1]):len(groups[1])], endANSI...)
 			}
 
 		case sequenceKind == otherSequence && len(groups[2]) > 0:
-- 
2.43.0


From f347455063d8351ff5fc4541837728ada03b1849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 05/28] fix: the exceptions section of a pattern file ends at
 its closing bracket

---
 wordbreak/hyphenator/dictionary.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wordbreak/hyphenator/dictionary.go b/wordbreak/hyphenator/dictionary.go
index 4312adb..70845f9 100644
--- a/wordbreak/hyphenator/dictionary.go
+++ b/wordbreak/hyphenator/dictionary.go
@@ -116,7 +116,11 @@ func LoadPatterns(patternfile string) (*Dictionary, error) {
 			// decode the exceptions section
 			for scanner.Scan() {
 				line = scanner.Text()
-				dict.exceptions.Put(dict.readException(line))
+				entry := strings.TrimSuffix(line, "}") // the section may be closed right after the last word
+				dict.exceptions.Put(dict.readException(entry))
+				if entry != line {
+					break
+				}
 			}
 
 		case isTeXComment(line):
-- 
2.43.0


From 2f0f16a8f3d8f818a72bf27a6a7e63b5484da3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 06/28] fix: hyphenation exceptions apply regardless of case

---
 wordbreak/hyphenator/hyphenator.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wordbreak/hyphenator/hyphenator.go b/wordbreak/hyphenator/hyphenator.go
index d17b20b..285451c 100644
--- a/wordbreak/hyphenator/hyphenator.go
+++ b/wordbreak/hyphenator/hyphenator.go
@@ -84,7 +84,12 @@ func (h *Hyphenator) BreakWord(word []rune) [][]rune {
 }
 
 func (h *Hyphenator) isException(word []rune) ([]int, bool) {
-	val := h.exceptions.Get(word)
+	key := make([]rune, 0, len(word))
+	for _, r := range word {
+		key = append(key, unicode.ToLower(r)) // like patterns, exceptions are stored in lower case
+	}
+
+	val := h.exceptions.Get(key)
 	if val != nil {
 		return val.([]int), true
 	}
-- 
2.43.0


From 7d606f92b654e3bb3d695d5b8f7ee99cc38e4e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 07/28] fix: look up hyphenation patterns for the last letter
 of a word

---
 wordbreak/hyphenator/hyphenator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wordbreak/hyphenator/hyphenator.go b/wordbreak/hyphenator/hyphenator.go
index 285451c..b0aa9c1 100644
--- a/wordbreak/hyphenator/hyphenator.go
+++ b/wordbreak/hyphenator/hyphenator.go
@@ -62,7 +62,7 @@ func (h *Hyphenator) BreakWord(word []rune) [][]rune {
 	positions := make([]int, 30) // the resulting hyphenation positions. A reasonable size is preallocated.
 	fragmentBuffer := make([]rune, 0, wordLength+2)
 
-	for i := 0; i < wordLength; i++ { // ".word.", "ord.", "rd.", "d."
+	for i := 0; i <= wordLength; i++ { // ".word.", "ord.", "rd.", "d."
 		allBreakPoints, hasPatterns = h.isPattern(i, word, fragmentBuffer, allBreakPoints)
 		if hasPatterns {
 			positions = mergeBreakPoints(positions, allBreakPoints, i)
-- 
2.43.0


From cb906dd4ccb72224bac3a686bd569203821647a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 08/28] fix: keep the last hyphenation points of words of 29
 letters and more

---
 wordbreak/hyphenator/hyphenator.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/wordbreak/hyphenator/hyphenator.go b/wordbreak/hyphenator/hyphenator.go
index b0aa9c1..6a9d8c2 100644
--- a/wordbreak/hyphenator/hyphenator.go
+++ b/wordbreak/hyphenator/hyphenator.go
@@ -59,7 +59,7 @@ func (h *Hyphenator) BreakWord(word []rune) [][]rune {
 	// allocate buffers once for all iterations
 	hasPatterns := false
 	allBreakPoints := make([][]int, 0, wordLength+2)
-	positions := make([]int, 30) // the resulting hyphenation positions. A reasonable size is preallocated.
+	positions := make([]int, max(30, wordLength+3)) // the resulting hyphenation positions. A reasonable size is preallocated.
 	fragmentBuffer := make([]rune, 0, wordLength+2)
 
 	for i := 0; i <= wordLength; i++ { // ".word.", "ord.", "rd.", "d."
@@ -73,12 +73,8 @@ func (h *Hyphenator) BreakWord(word []rune) [][]rune {
 
 	// ensure provided positions are consistent
 	// ex: [0 1 2 0 0 0 3 0 0 1]
-	switch {
-	case positions[0] > 0: // sometimes hyphen before first letter is "allowed"
-		positions[0] = 0
-	case len(positions) > wordLength && positions[wordLength] > 0:
-		positions[wordLength] = 0 // sometimes hyphen after last letter is "allowed"
-	}
+	positions[0] = 0          // sometimes hyphen before first letter is "allowed"
+	positions[wordLength] = 0 // sometimes hyphen after last letter is "allowed"
 
 	return h.splitAtPositions(word, wordLength, positions)
 }
@@ -234,3 +230,11 @@ func SplitWord(word []rune) [][]rune {
 
 	return result
 }
+
+func max(a, b int) int {
+	if a > b {
+		return a
+	}
+
+	return b
+}
-- 
2.43.0


From b72035da04f7c298ecd35aebbea30b286e3eacce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:50 +0000
Subject: [PATCH 09/28] fix: regional variants of a supported language select
 the patterns of that language

---
 wordbreak/hyphenator/languages.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wordbreak/hyphenator/languages.go b/wordbreak/hyphenator/languages.go
index 59e8c74..6ce3c3c 100644
--- a/wordbreak/hyphenator/languages.go
+++ b/wordbreak/hyphenator/languages.go
@@ -21,9 +21,10 @@ var (
 )
 
 func langToPattern(tag language.Tag) string {
-	matched, _, _ := langMatcher.Match(tag)
+	// NOTE: the tag returned by Match may carry extensions (e.g. a region): only the index identifies the supported language
+	_, index, _ := langMatcher.Match(tag)
 
-	switch matched {
+	switch supportedLanguages[index] {
 	case language.BritishEnglish, language.English:
 		return "hyph-en-gb.tex"
 	case language.Spanish, language.EuropeanSpanish, language.LatinAmericanSpanish:
-- 
2.43.0


From 2b70eb1c51a6c0fcf3fdf4afd56e38aafdba7a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 10/28] fix: SliceReader no longer reports a negative size for
 invalid runes

---
 terminal/runes/runesio/slice_reader.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/terminal/runes/runesio/slice_reader.go b/terminal/runes/runesio/slice_reader.go
index f66bb03..8b08a13 100644
--- a/terminal/runes/runesio/slice_reader.go
+++ b/terminal/runes/runesio/slice_reader.go
@@ -36,7 +36,7 @@ func (r *SliceReader) ReadRune() (rune, int, error) {
 	rn := r.runes[r.offset]
 	r.offset++
 
-	return rn, utf8.RuneLen(rn), nil
+	return rn, runeLen(rn), nil
 }
 
 // Runes returns unread runes.
@@ -121,7 +121,7 @@ func (r *SliceReader) SliceFromByteOffsets(slice []int) [][]rune {
 			if offset < startByte {
 				startRune++
 			}
-			offset += utf8.RuneLen(rn)
+			offset += runeLen(rn)
 
 			if offset > endByte {
 				break
@@ -134,3 +134,12 @@ func (r *SliceReader) SliceFromByteOffsets(slice []int) [][]rune {
 
 	return groups
 }
+
+// runeLen is the size in bytes of a rune, as encoded by the Writer: invalid runes are encoded as utf8.RuneError.
+func runeLen(rn rune) int {
+	if size := utf8.RuneLen(rn); size > 0 {
+		return size
+	}
+
+	return utf8.RuneLen(utf8.RuneError)
+}
-- 
2.43.0


From 62c6503b40fed06567e8e132db119ac1f45cb3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 11/28] fix: a stop without a start doesn't yield a negative
 nesting level

---
 attributes/state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attributes/state.go b/attributes/state.go
index 95c3965..13a7cb5 100644
--- a/attributes/state.go
+++ b/attributes/state.go
@@ -42,7 +42,7 @@ func (s *State) Push(attr Renderer) {
 		attribute := current.Value.(Renderer)
 		currentLevel = attribute.Level()
 		hadStop := attribute.HasStop()
-		if hadStop {
+		if hadStop && currentLevel > 0 { // a stop that matches no start doesn't close anything
 			currentLevel--
 		}
 	}
-- 
2.43.0


From c670e73ad86bfffed9cbaf6516aa467283c67576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 12/28] fix: close and resume at line ends exactly the contexts
 that are open

---
 attributes/state.go | 99 +++++++++++++--------------------------------
 1 file changed, 28 insertions(+), 71 deletions(-)

diff --git a/attributes/state.go b/attributes/state.go
index 13a7cb5..56ce932 100644
--- a/attributes/state.go
+++ b/attributes/state.go
@@ -97,97 +97,54 @@ func (i *StateIterator) Item() Renderer {
 	return i.current.Value.(Renderer)
 }
 
-func (i *StateIterator) backtrack(level int) *list.Element {
-	if i.current == nil {
+// openContexts yields the renderers which started the contexts that remain open after the current element, outermost first.
+func (i *StateIterator) openContexts() []Renderer {
+	if i.start || i.current == nil {
 		return nil
 	}
 
-	current := i.current
-	/*
-		attribute := current.Value.(Renderer)
-		currentLevel := attribute.Level()
-	*/
-
-	// backtrack to the first renderer for this level
-	for current != nil {
-		lookback := current.Prev()
-		if lookback == nil {
-			return current
-		}
-
-		attribute := lookback.Value.(Renderer)
-		if attribute.Level() < level {
-			return current
-		}
-
-		current = lookback
-	}
-
-	return nil
-}
-
-// StartOfLine restores the state of attributes to start a new line.
-func (i *StateIterator) StartOfLine(w runesio.Writer) {
-	if i.current == nil {
-		return
-	}
-
-	// if the end of line was preceded by a stop, go down 1 level
+	// if the current element has a stop, go down 1 level
 	attribute := i.current.Value.(Renderer)
-	currentLevel := attribute.Level()
+	level := attribute.Level()
 	if attribute.HasStop() {
-		currentLevel--
+		level--
 	}
-	// backtrack to the first renderer for this level
-	current := i.backtrack(currentLevel)
-	if current == nil || currentLevel == 0 {
-		return
+	if level <= 0 {
+		return nil
 	}
 
-	// starts all rendering sequences for this level
-	for current != nil {
+	contexts := make([]Renderer, level)
+	for current := i.current; current != nil && level > 0; current = current.Prev() {
 		attribute := current.Value.(Renderer)
-
-		attribute.Start(w)
-
-		if current == i.current {
-			break
+		if attribute.HasStart() && attribute.Level() == level {
+			level--
+			contexts[level] = attribute
 		}
-
-		current = current.Next()
 	}
+
+	return contexts
+}
+
+// StartOfLine restores the state of attributes to start a new line.
+func (i *StateIterator) StartOfLine(w runesio.Writer) {
+	// starts all the contexts that remain open
+	Renderers(i.openContexts()).Start(w)
 }
 
 // EndOfLine closes the state of attributes to end the line with an empty state.
 func (i *StateIterator) EndOfLine(w runesio.Writer) {
-	if i.current == nil {
+	level := len(i.openContexts())
+	if level == 0 {
 		return
 	}
 
-	// if the end of line was preceded by a stop, go down 1 level
-	attribute := i.current.Value.(Renderer)
-	currentLevel := attribute.Level()
-	if attribute.HasStop() {
-		currentLevel--
-	}
-
-	// backtrack to the first renderer for this level
-	current := i.backtrack(currentLevel)
-	if current == nil || currentLevel == 0 {
-		return
-	}
-
-	// stop all sequences up to the last renderer at this level
-	for current != nil {
+	// stop all open contexts, innermost first, with the sequences that will eventually close them
+	for current := i.current.Next(); current != nil && level > 0; current = current.Next() {
 		attribute := current.Value.(Renderer)
-		level := attribute.Level()
 
-		if level < currentLevel {
-			break
+		if attribute.HasStop() && attribute.Level() == level {
+			attribute.Stop(w)
+			level--
 		}
-
-		attribute.Stop(w)
-
-		current = current.Next()
 	}
 }
-- 
2.43.0


From e80e4eb518327b7a088d42abd69b1894a4f150aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:41 +0000
Subject: [PATCH 13/28] fix: line breaking accumulates demerits, and no longer
 depends on the iteration order of a map

---
 linebreak/knuth_plass.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/linebreak/knuth_plass.go b/linebreak/knuth_plass.go
index 5180c8b..07b51cd 100644
--- a/linebreak/knuth_plass.go
+++ b/linebreak/knuth_plass.go
@@ -210,7 +210,14 @@ func (l *LineBreaker) mainLoop(index int) {
 				lowestDemerits = minf(lowestDemerits, demerits)
 
 				if demerits < candidates[currentClass].totalDemerits {
-					candidates[currentClass] = active
+					candidates[currentClass] = newBreakPoint(
+						index,                  // break at node index
+						demerits, active.ratio, // ratings for this break point
+						active.line+1,
+						currentClass,
+						sums{},
+						active, // link to the previous breakpoint
+					)
 				}
 			}
 
@@ -233,28 +240,22 @@ func (l *LineBreaker) mainLoop(index int) {
 func (l *LineBreaker) insertNewActiveBreak(activeElement *list.Element, index int, lowestDemerits float64, candidates map[fitnessClass]*breakPoint) {
 	sum := l.sumFromNode(index)
 
-	for class, candidate := range candidates {
+	for class := fitnessClassZero; class <= fitnessClassThree; class++ { // always in the same order: the outcome is deterministic
+		candidate := candidates[class]
 		if candidate.totalDemerits >= maxDemerit || candidate.totalDemerits > lowestDemerits+l.demerits.fitness {
 			// skip default candidate
 			continue
 		}
 
-		newBreak := newBreakPoint(
-			index,                                    // break at node index
-			candidate.totalDemerits, candidate.ratio, // ratings for this break point
-			candidate.line+1,
-			class,
-			sum,       // totals after this node
-			candidate, // link to the previous candidate breakpoint
-		)
+		candidate.totals = sum // totals after this node
 
 		if activeElement != nil {
-			_ = l.activeNodes.InsertBefore(newBreak, activeElement)
+			_ = l.activeNodes.InsertBefore(candidate, activeElement)
 
-			return
+			continue
 		}
 
-		_ = l.activeNodes.PushBack(newBreak)
+		_ = l.activeNodes.PushBack(candidate)
 	}
 }
 
-- 
2.43.0


From aee58a71c99b068445f06bb01a08a6661108ba92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:42 +0000
Subject: [PATCH 14/28] fix: a LineBreaker no longer renders the attributes of
 its previous paragraph

---
 linebreak/linebreaker.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index 6a34641..be53d72 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -78,6 +78,8 @@ func New(opts ...Option) *LineBreaker {
 //
 // TODO: move to [][]rune -> []rune
 func (l *LineBreaker) LeftAlignUniform(tokens []string, maxWidth float64) ([]string, error) {
+	l.attrList = attributes.NewState() // reset the attributes left by a previous paragraph
+
 	// 1. build a model that represent the tokens in terms of glue/box/penalty nodes
 	l.nodes = l.leftAlignedNodes(tokens)
 
-- 
2.43.0


From cb5b05b7d951c1ef947c00bfef4e3bae93f4326d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:43 +0000
Subject: [PATCH 15/28] fix: render a hyphen at soft hyphens only, whatever the
 penalties

---
 linebreak/linebreaker.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index be53d72..5429aaa 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -179,9 +179,9 @@ func (l *LineBreaker) render(breakList *breakPoint) []string {
 				_, _ = runesWriter.WriteRunes(spaces)
 
 			case node.isPenalty():
-				if l.renderHyphens && node.penalty == l.hyphenPenalty && index == len(line.nodes)-1 {
+				if len(node.value) > 0 && index == len(line.nodes)-1 {
 					// render a soft hyphen node
-					_, _ = runesWriter.WriteRunes(hyphen)
+					_, _ = runesWriter.WriteRunes(node.value)
 				}
 			}
 		}
@@ -291,6 +291,9 @@ func (l *LineBreaker) boxNodes(token []rune) []nodeT {
 
 func (l *LineBreaker) pushHyphen() []nodeT {
 	if l.renderHyphens {
+		softHyphen := newPenalty(l.hyphenWidth, l.hyphenPenalty, flaggedPenalty)
+		softHyphen.value = hyphen // rendered when the line is broken here
+
 		// when rendering hyphens, the penalty incurs some consumed width
 		return []nodeT{
 			// justified:
@@ -298,7 +301,7 @@ func (l *LineBreaker) pushHyphen() []nodeT {
 			// ragged right:
 			newPenalty(noWidth, infinity, unflaggedPenalty),
 			newGlue(noWidth, l.glueStretch, noShrink),
-			newPenalty(l.hyphenWidth, l.hyphenPenalty, flaggedPenalty),
+			softHyphen,
 			newGlue(noWidth, -l.glueStretch, noShrink),
 		}
 	}
-- 
2.43.0


From bfc3cd26ddda666e769158b0ade2ff9760f63ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 16/28] fix: line breaking keeps the escape sequences that come
 without a text

---
 linebreak/linebreaker.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index 5429aaa..46dc967 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -282,6 +282,12 @@ func (l *LineBreaker) boxNodes(token []rune) []nodeT {
 				)
 			}
 		}
+		if tokenState.Current() == nil && (len(stripped.StartSequence) > 0 || len(stripped.StopSequence) > 0) {
+			// sequences without a text: keep them in a box without a width
+			tokenState.Start(nil)
+			nodes = append(nodes, newBox(noWidth, nil, tokenState.Current()))
+		}
+
 		// add stop to the last renderer
 		tokenState.Stop()
 	}
-- 
2.43.0


From 66d3fc7d808c63b319ccc795856fd6b869d20cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 17/28] fix: lines that start with a punctuation mark or a
 hyphen may be stretched like any other

---
 linebreak/linebreaker.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index 46dc967..13be36b 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -230,9 +230,9 @@ func (l *LineBreaker) boxNodes(token []rune) []nodeT {
 				// the punctuation mark. E.g. ";", "&", "." should probably deserve a special processing.
 				// For the moment, this package essentially supports rendering with fixed-width fonts on a terminal, so this is not really needed.
 				nodes = append(nodes,
+					newBox(l.scale(l.measurer(strippedFromPunct)), strippedFromPunct, tokenState.Current()), // no space before the punctuation mark. Some typographic rules disagree with this, e.g. for ";"
 					newPenalty(noWidth, infinity, unflaggedPenalty),
-					newGlue(noWidth, l.glueStretch, noShrink), // no space before the punctuation mark. Some typographic rules disagree with this, e.g. for ";"
-					newBox(l.scale(l.measurer(strippedFromPunct)), strippedFromPunct, tokenState.Current()),
+					newGlue(noWidth, l.glueStretch, noShrink),                 // after the box: a line that starts with the punctuation mark may be stretched like any other
 					newPenalty(noWidth, l.punctuationPenalty, flaggedPenalty), // this penalty won't be mixed with hyphens
 					newGlue(noWidth, -l.glueStretch, noShrink),
 				)
@@ -253,9 +253,9 @@ func (l *LineBreaker) boxNodes(token []rune) []nodeT {
 				if hyphenator.IsHyphen(word) {
 					tokenState.Start(word)
 					nodes = append(nodes,
+						newBox(l.scale(l.measurer(word)), word, tokenState.Current()),
 						newPenalty(noWidth, infinity, unflaggedPenalty),
 						newGlue(noWidth, l.glueStretch, noShrink),
-						newBox(l.scale(l.measurer(word)), word, tokenState.Current()),
 						newPenalty(noWidth, l.hardHyphenPenalty, flaggedPenalty), // this penalty won't be mixed with soft hyphens
 						newGlue(noWidth, -l.glueStretch, noShrink),
 					)
-- 
2.43.0


From a7202a9e117fe5d071be2c8ad1709d63e8870388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:03 +0000
Subject: [PATCH 18/28] fix: words may be broken without a rendered hyphen on
 lines that are not filled exactly

---
 linebreak/linebreaker.go | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index 13be36b..ad9e465 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -296,25 +296,23 @@ func (l *LineBreaker) boxNodes(token []rune) []nodeT {
 }
 
 func (l *LineBreaker) pushHyphen() []nodeT {
-	if l.renderHyphens {
-		softHyphen := newPenalty(l.hyphenWidth, l.hyphenPenalty, flaggedPenalty)
-		softHyphen.value = hyphen // rendered when the line is broken here
+	// when hyphens are not rendered (words are just broken), there is no width associated to the penalty
+	softHyphen := newPenalty(noWidth, l.hyphenPenalty, flaggedPenalty)
 
+	if l.renderHyphens {
 		// when rendering hyphens, the penalty incurs some consumed width
-		return []nodeT{
-			// justified:
-			// newPenalty(l.hyphenWidth, l.hyphenPenalty, flaggedPenalty),
-			// ragged right:
-			newPenalty(noWidth, infinity, unflaggedPenalty),
-			newGlue(noWidth, l.glueStretch, noShrink),
-			softHyphen,
-			newGlue(noWidth, -l.glueStretch, noShrink),
-		}
+		softHyphen = newPenalty(l.hyphenWidth, l.hyphenPenalty, flaggedPenalty)
+		softHyphen.value = hyphen // rendered when the line is broken here
 	}
 
 	return []nodeT{
-		// when hyphens are not rendered (words are just broken), there is no width associated to the penalty
-		newPenalty(noWidth, l.hyphenPenalty, flaggedPenalty),
+		// justified:
+		// newPenalty(l.hyphenWidth, l.hyphenPenalty, flaggedPenalty),
+		// ragged right:
+		newPenalty(noWidth, infinity, unflaggedPenalty),
+		newGlue(noWidth, l.glueStretch, noShrink),
+		softHyphen,
+		newGlue(noWidth, -l.glueStretch, noShrink),
 	}
 }
 
-- 
2.43.0


From 36c17a2fa1dcc4a2b526cc7252d0bdeb4af64d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:04 +0000
Subject: [PATCH 19/28] fix: detect an escape sequence that follows a stray ESC

---
 terminal/ansi/ansi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terminal/ansi/ansi.go b/terminal/ansi/ansi.go
index cec0275..d71b3df 100644
--- a/terminal/ansi/ansi.go
+++ b/terminal/ansi/ansi.go
@@ -328,7 +328,7 @@ func decodeText(rdr *runesio.SliceReader) []rune {
 				return rdr.Slice(int(current), int(current)+runeCount)
 			}
 
-			runeCount++
+			_, _ = rdr.Seek(-1, io.SeekCurrent) // this rune may itself introduce an escape sequence
 		}
 
 		runeCount++
-- 
2.43.0


From c1cbc72a2889eb81ebf49a3bbae4f1de9ded9a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:07 +0000
Subject: [PATCH 20/28] fix: a line that is too wide never fits, however high
 the tolerance

---
 linebreak/knuth_plass.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linebreak/knuth_plass.go b/linebreak/knuth_plass.go
index 07b51cd..b0cf697 100644
--- a/linebreak/knuth_plass.go
+++ b/linebreak/knuth_plass.go
@@ -37,7 +37,7 @@ func (l *LineBreaker) adjustmentRatio(fromBreakPoint *breakPoint, toNode nodeT,
 			return (idealWidth - actualWidth) / shrink
 		}
 
-		return infinity
+		return math.Inf(1) // too wide, whatever the tolerance
 
 	default:
 		// perfect match
-- 
2.43.0


From dbd3b5040cd8dab8d3a0eb0bb14830e9f663a42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:44 +0000
Subject: [PATCH 21/28] fix: sequences without a text stay on the line of the
 mark they follow

---
 linebreak/linebreaker.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index ad9e465..a53b032 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -221,6 +221,10 @@ func (l *LineBreaker) boxNodes(token []rune) []nodeT {
 		// this text has been stripped from start/stop escape sequences. The attribute renderer will remember the start/stop sequences.
 		// We don't necessarily need to create as many renderers, but we must keep track of the state
 		for _, strippedFromPunct := range l.punctuator(stripped.Text) { // split punctuation marks as well as separators such as "/", "|", "_"...
+			if len(strippedFromPunct) == 0 {
+				continue // a sequence without a text
+			}
+
 			if punctuator.IsPunctuation(strippedFromPunct) {
 				tokenState.Start(strippedFromPunct)
 
@@ -283,9 +287,14 @@ func (l *LineBreaker) boxNodes(token []rune) []nodeT {
 			}
 		}
 		if tokenState.Current() == nil && (len(stripped.StartSequence) > 0 || len(stripped.StopSequence) > 0) {
-			// sequences without a text: keep them in a box without a width
+			// sequences without a text: keep them in a box without a width, right after the previous box (a line never ends in between)
 			tokenState.Start(nil)
-			nodes = append(nodes, newBox(noWidth, nil, tokenState.Current()))
+			last := len(nodes)
+			for last > 0 && !nodes[last-1].isBox() {
+				last--
+			}
+			trailing := append([]nodeT{newBox(noWidth, nil, tokenState.Current())}, nodes[last:]...)
+			nodes = append(nodes[:last], trailing...)
 		}
 
 		// add stop to the last renderer
-- 
2.43.0


From 6a15010ee573edada9ab4d1f6ea75e553ea0d960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:31 +0000
Subject: [PATCH 22/28] fix: loading patterns fails when the file cannot be
 read, such as a directory

---
 wordbreak/hyphenator/dictionary.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wordbreak/hyphenator/dictionary.go b/wordbreak/hyphenator/dictionary.go
index 70845f9..4bd7067 100644
--- a/wordbreak/hyphenator/dictionary.go
+++ b/wordbreak/hyphenator/dictionary.go
@@ -136,6 +136,10 @@ func LoadPatterns(patternfile string) (*Dictionary, error) {
 		}
 	}
 
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
+
 	return dict, nil
 }
 
-- 
2.43.0


From 82473c385e159ac0f4b9f2ac29e2b6cc05b5ef96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:19 +0000
Subject: [PATCH 23/28] fix: lines which cannot be stretched are not feasible,
 whatever the tolerance

---
 linebreak/knuth_plass.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linebreak/knuth_plass.go b/linebreak/knuth_plass.go
index b0cf697..74d101b 100644
--- a/linebreak/knuth_plass.go
+++ b/linebreak/knuth_plass.go
@@ -27,7 +27,7 @@ func (l *LineBreaker) adjustmentRatio(fromBreakPoint *breakPoint, toNode nodeT,
 			return (idealWidth - actualWidth) / stretch
 		}
 
-		return infinity
+		return math.Inf(1) // cannot be stretched, whatever the tolerance
 
 	case actualWidth > idealWidth:
 		// need to shrink
-- 
2.43.0


From 225d34950b765fbed2be9261f144946766960231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:13 +0000
Subject: [PATCH 24/28] fix: breaks too far away are deactivated, so that long
 paragraphs take time in proportion to their length

---
 linebreak/knuth_plass.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/linebreak/knuth_plass.go b/linebreak/knuth_plass.go
index 74d101b..7934391 100644
--- a/linebreak/knuth_plass.go
+++ b/linebreak/knuth_plass.go
@@ -37,7 +37,11 @@ func (l *LineBreaker) adjustmentRatio(fromBreakPoint *breakPoint, toNode nodeT,
 			return (idealWidth - actualWidth) / shrink
 		}
 
-		return math.Inf(1) // too wide, whatever the tolerance
+		if toNode.isPenalty() && actualWidth-toNode.width <= idealWidth {
+			return math.Inf(1) // too wide with the extra hyphen only: longer lines may fit
+		}
+
+		return math.Inf(-1) // too wide, whatever the tolerance, and longer lines won't fit either
 
 	default:
 		// perfect match
-- 
2.43.0


From f86c39b51e489dba7d0da6b4653aecc1ef37ef22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:31 +0000
Subject: [PATCH 25/28] fix: stripping a run of other sequences takes time in
 proportion to its length

---
 terminal/ansi/ansi.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/terminal/ansi/ansi.go b/terminal/ansi/ansi.go
index d71b3df..0aa3ec4 100644
--- a/terminal/ansi/ansi.go
+++ b/terminal/ansi/ansi.go
@@ -133,8 +133,9 @@ func StripANSIFromRunes(rns []rune) StrippedToken {
 			if groups[1] == nil {
 				groups[1] = endANSI // should normally never end up here
 			} else {
-				// indulge into one allocation: never append to the array of the caller
-				groups[1] = append(groups[1][:len(groups[1]):len(groups[1])], endANSI...)
+				// the sequence comes right after the text in the input: never append to the array of the caller
+				current, _ := reader.Seek(0, io.SeekCurrent)
+				groups[1] = reader.Slice(int(current)-len(groups[1])-len(endANSI), int(current))
 			}
 
 		case sequenceKind == otherSequence && len(groups[2]) > 0:
-- 
2.43.0


From 58bcbd24a9ba06e225a067908b0bfcee8a6ced89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:36 +0000
Subject: [PATCH 26/28] fix: empty tokens at the start of a paragraph no longer
 count as spaces, nor panic

findStartNode counted glues only, so that it started in the middle of the empty tokens:
a line could be broken before the first box, which could not be rendered.
---
 linebreak/knuth_plass.go | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/linebreak/knuth_plass.go b/linebreak/knuth_plass.go
index 7934391..048f09a 100644
--- a/linebreak/knuth_plass.go
+++ b/linebreak/knuth_plass.go
@@ -130,22 +130,18 @@ func (l *LineBreaker) breakPoints() *breakPoint {
 
 // findStartNode skips starting glues (i.e. indentations) or penalties.
 // TODO: remove?? (Baskerville version only)
-func (l *LineBreaker) findStartNode() (start int) {
-	for _, node := range l.nodes {
-		switch node.nodeType {
-		case nodeTypeBox:
-			return start
-
-		case nodeTypePenalty:
-			if node.penalty == -infinity {
-				return start
-			}
-		default:
-			start++
+func (l *LineBreaker) findStartNode() int {
+	for i, node := range l.nodes {
+		if node.isBox() {
+			return i
+		}
+
+		if node.isForcedBreak() {
+			return max(i-1, 0) // no box: an empty line, filled by the glue that comes before
 		}
 	}
 
-	return start
+	return len(l.nodes)
 }
 
 func (l *LineBreaker) findBestBreak() *breakPoint {
-- 
2.43.0


From ee58cf933dbade1aa73226b1a22ef702165919d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:29 +0000
Subject: [PATCH 27/28] fix: the generator of pattern files fails on lines that
 are too long, instead of leaving out the rest of the file

---
 wordbreak/hyphenator/languages/strip_comments.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wordbreak/hyphenator/languages/strip_comments.go b/wordbreak/hyphenator/languages/strip_comments.go
index 8eae926..1f0a766 100644
--- a/wordbreak/hyphenator/languages/strip_comments.go
+++ b/wordbreak/hyphenator/languages/strip_comments.go
@@ -58,7 +58,7 @@ func strip(pth string) error {
 		}
 	}
 
-	return nil
+	return scanner.Err()
 }
 
 func isTeXComment(line string) bool {
-- 
2.43.0


From c4f97f4d792edd7087e35809037dc118a333994d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:01 +0000
Subject: [PATCH 28/28] fix: the generator of pattern files fails when it
 cannot write them

---
 wordbreak/hyphenator/languages/strip_comments.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wordbreak/hyphenator/languages/strip_comments.go b/wordbreak/hyphenator/languages/strip_comments.go
index 1f0a766..167aff3 100644
--- a/wordbreak/hyphenator/languages/strip_comments.go
+++ b/wordbreak/hyphenator/languages/strip_comments.go
@@ -54,7 +54,9 @@ func strip(pth string) error {
 
 		default:
 			stripped := texComment.ReplaceAllString(line, "$1")
-			fmt.Fprintln(output, strings.TrimSpace(stripped))
+			if _, err := fmt.Fprintln(output, strings.TrimSpace(stripped)); err != nil {
+				return err
+			}
 		}
 	}
 
-- 
2.43.0


#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, technique, note):
    assert len(title) <= 80, title
    assert 1 <= statement.count(". ") + 1 <= 3, (id, statement)
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note))


W = "terminal/runes/"
prop("W01", "Width of a text is the sum of the widths of its runes, and is total",
     "For every slice of runes, including invalid ones (negative, surrogates, beyond U+10FFFF), and every combination of options, Widths equals the sum of Width over the runes, StringWidth of a string equals Widths of its runes, and none panics. "
     "The width of a rune is never negative, depends on nothing but the rune and the options, and is the same whatever was measured before. "
     "Options of one call never leak into another.",
     ["inputs", "histories", "configurations"], "every code point and every invalid rune, in every option set; random slices of any length; random orders of calls with different options",
     "The tests compare a few words and tables in two modes; they never compare Widths to Width on all code points, nor measure invalid runes.",
     [W + "width.go", W + "lookup.go", W + "options.go"],
     [("packed lookup table for the default mode", W + "lookup.go:buildLookupTable"), ("direct evaluation in East Asian mode", W + "width.go:runeWidth")],
     ["return values of Width, Widths, StringWidth"],
     "exhaustive and random execution under an additivity monitor", "All code points in all option sets are measured, slices are sampled. Trusted: the summation of the monitor.")
prop("W02", "Rune widths follow the Unicode 15.0 data",
     "In the default mode, control, format, non-printable, combining and invalid runes measure 0, wide and full-width runes (including wide emoji) 2, U+2E3A 3, U+2E3B 4, and all others 1. "
     "In East Asian mode, ambiguous runes measure the configured ambiguous width (2 unless set otherwise), emoji that are neither wide, narrow nor ambiguous measure 2 when strict emoji neutrality is skipped, and everything else measures the same as in the default mode. "
     "IsAmbiguous holds exactly for the runes that Unicode 15.0 lists as ambiguous.",
     ["inputs", "configurations"], "every code point U+0000 to U+10FFFF and invalid runes, in every combination of options, for Width, Widths, StringWidth and IsAmbiguous",
     "The tests sample a few runes of each class, and check sizes of tables; the tables have thousands of boundaries.",
     [W + "width.go", W + "lookup.go", W + "runes_tables.go", W + "options.go"],
     [("interval tables with a binary search", W + "lookup.go:inTable"), ("precedence of the classes", W + "width.go:runeWidth")],
     ["return values of Width, Widths, StringWidth, IsAmbiguous"],
     "exhaustive execution against independent Unicode 15 data", "Exhaustive over code points and option sets. Trusted: harness/data/unicode15.txt, made from the Unicode 15.0 tables of another language's library, with the conventions the package documents.")
T = "wordbreak/"
prop("T01", "Tokenizing yields exactly the maximal runs of non-space runes",
     "The tokenizer, given runes or a string, returns, in order, exactly the maximal runs of runes that are not Unicode white space: no empty token, no token with a space in it, nothing lost, nothing added; a text of spaces only, or an empty one, has no token. "
     "FieldsFunc does the same for an arbitrary predicate: its result is that of strings.FieldsFunc on the corresponding string. "
     "Invalid runes are kept as they are.",
     ["inputs"], "every code point alone and between letters, all short strings over letters and spaces, random strings of any classes of runes, several predicates",
     "The tests check a handful of sentences; leading, trailing, repeated and unusual spaces, and runes at the ends, matter.",
     [T + "tokenizer/tokenizer.go", W + "fields.go"], [("maximal runs cut by a predicate", W + "fields.go:FieldsFunc"), ("white space predicate", T + "tokenizer/tokenizer.go")],
     ["return values of Tokenizer.BreakWord, BreakWordString, FieldsFunc"],
     "exhaustive short and random execution against the standard library and a model", "Exhaustive for short strings over a small alphabet and for single code points, sampled beyond. Trusted: strings.FieldsFunc.")
prop("T02", "Punctuation splitting isolates each mark and adds up to the word",
     "For every word, the parts returned by the punctuator, given runes or a string, concatenate to the word, are never empty, and each part is either exactly one punctuation mark or a maximal run without any. "
     "A punctuation mark is a rune of the Unicode punctuation category that is not a hyphen, or the vertical bar. "
     "IsPunctuation holds exactly for the words made of one such mark.",
     ["inputs"], "every code point alone, next to letters and next to marks; all short strings over letters, marks and hyphens; random words",
     "The tests check a few words; the position of marks (first, last, in a row) and the classes of runes are not enumerated.",
     [T + "punctuator/punctuator.go"], [("single pass splitter", T + "punctuator/punctuator.go:breakAtFunc"), ("predicate", T + "punctuator/punctuator.go:punctSplitFunc")],
     ["return values of Punctuator.BreakWord, BreakWordString, IsPunctuation"],
     "exhaustive short and random execution against a model", "Exhaustive for short strings and single code points, sampled beyond. Trusted: Go's unicode tables.")
prop("T03", "Splitting on explicit hyphens isolates each hyphen and adds up to the word",
     "For every word, the parts returned by SplitWord concatenate to the word, are never empty, and each part is either exactly one rune of the Unicode Hyphen property or a maximal run without any. "
     "IsHyphen holds exactly for the words made of one such rune.",
     ["inputs"], "every code point alone, next to letters and next to hyphens; all short strings over letters and hyphens; random words",
     "The tests check a few words with one ASCII hyphen inside.",
     [T + "hyphenator/hyphenator.go"], [("single pass splitter", T + "hyphenator/hyphenator.go:SplitWord")],
     ["return values of SplitWord, IsHyphen"],
     "exhaustive short and random execution against a model", "Exhaustive for short strings and single code points, sampled beyond. Trusted: Go's unicode tables.")
H = T + "hyphenator/"
prop("H01", "Hyphenation never alters a word and respects the minimum lengths",
     "For every word, language and setting, the parts returned by the hyphenator concatenate to the word, with its case, and the string variant returns the same; it never panics, whatever the runes and the length. "
     "Words shorter than minLength and words that hold an explicit hyphen are returned whole; otherwise every part but the last is at least minLeft long and the last one at least minRight, and no part is empty. "
     "All lengths count runes, not bytes.",
     ["inputs", "configurations"], "random words made of pieces of patterns, exceptions, all classes of runes and invalid ones, of 0 to 2000 runes; random minimums; five dictionaries",
     "The tests hyphenate some common English, French and German words, with default minimums.",
     [H + "hyphenator.go", H + "options.go"], [("cut at the positions of the mask", H + "hyphenator.go:splitAtPositions"), ("buffer of positions, grown on demand", H + "hyphenator.go:mergeBreakPoints")],
     ["return values of Hyphenator.BreakWord, BreakWordString"],
     "random execution under a partition monitor", "Sampled words and settings.")
prop("H02", "Hyphenation points are exactly those of Liang's algorithm on the TeX patterns",
     "For every word without hyphens nor dots, the hyphenator breaks exactly where Liang's algorithm does with the patterns and exceptions of the language's original TeX file: at each position the highest value among the matching patterns (with word boundaries) decides, odd allows a break, and a word listed as an exception breaks exactly as listed; candidate points are taken from left to right, dropping those that violate minLeft (distance from the last break taken) or minRight. "
     "This holds for all five dictionaries (US English, UK English, French, German, Spanish), whatever the length of the word.",
     ["inputs", "configurations"], "every pattern and every exception of the five dictionaries in several contexts, random words up to 200 letters, random minimums",
     "The tests check a few dozen words; five dictionaries hold some 35000 patterns, each of which can be lost or altered alone.",
     [H + "hyphenator.go", H + "dictionary.go", H + "internal/trie/rune_trie.go", H + "languages/"],
     [("pattern parser", H + "dictionary.go:readPattern"), ("exception parser", H + "dictionary.go:readException"), ("maximum of the matching patterns", H + "hyphenator.go:mergeBreakPoints")],
     ["return values of Hyphenator.BreakWord"],
     "differential execution against a reference implementation of Liang's algorithm", "Every pattern and exception is exercised, words are sampled. Trusted: copies of the TeX files in harness/data/tex and a TeX-like reader of its own.")
prop("H03", "The language requested selects the dictionary of that language",
     "Whether given as a tag or as a name, with any region, script or extension, a supported language selects the patterns of that language: en and en-US the US English ones, en-GB the UK ones, other English one of these two, and every French, German and Spanish variant those of its language; without an option, American English applies. "
     "A language without patterns, or malformed, never panics and selects one of the supported dictionaries, the same each time (American English for ru, uk, zh, ja, ko, ar, pt, it, nl, pl, und and unknown ones). "
     "The last language option given wins, and the choice of one hyphenator never affects another.",
     ["inputs", "configurations", "histories"], "all pairs of supported languages with all regions, scripts and common extensions, unsupported and malformed names, in random orders",
     "The tests build one hyphenator per language, with its canonical tag.",
     [H + "languages.go", H + "options.go", H + "cache.go"], [("language matcher", H + "languages.go:langToPattern"), ("cache keyed by file", H + "cache.go:loadDictFromCache")],
     ["which of the reference dictionaries explains the breaks of discriminating words"],
     "execution with discriminating words per dictionary", "All languages of interest with all regions, sampled orders. Which English patterns a region selects follows the matcher of golang.org/x/text, and is judged for en, en-US, en-GB and clear-cut cases only.")
prop("H04", "Pattern files are listed, and load whole or with an error",
     "SupportedPatterns lists the names of the five pattern files, sorted, each once, and lists the same whatever the callers do with the result. LoadPatterns gives for each of them, always, a dictionary with a name of its own that stays the same, and for any other name (other than another spelling of the path to one of these files: empty, a directory, in another case, or anything at all) an error and no dictionary; it never panics. "
     "What was loaded or failed to load before changes neither later loads nor any hyphenator.",
     ["inputs", "histories"], "listed names and names made from them by random edits, in random orders with listings and hyphenators in between",
     "The tests list the files once and load each once; no test loads anything else.",
     [H + "dictionary.go", H + "embedded.go", H + "cache.go"], [("listing of the embedded files", H + "dictionary.go:SupportedPatterns"), ("loader", H + "dictionary.go:LoadPatterns")],
     ["return values of SupportedPatterns, LoadPatterns, Dictionary.String, Hyphenator.BreakWord"],
     "history execution with hostile names under a listing monitor", "All listed names, sampled other names. The contents of dictionaries are judged by H02.")
prop("H05", "Hyphenation does not depend on case",
     "For every word, changing the case of letters (in ways that lower-case back to the same letters) changes the case of the parts only: the hyphenation points stay the same. "
     "This holds for words found by patterns and for exceptions, in all languages.",
     ["inputs"], "all exceptions and random words in random, title and upper case, in five languages",
     "The tests hyphenate a few capitalised words.",
     [H + "hyphenator.go", H + "dictionary.go"], [("lower-casing of the fragments", H + "hyphenator.go:isPattern"), ("lower-casing of the exceptions", H + "hyphenator.go:isException")],
     ["return values of Hyphenator.BreakWord"],
     "metamorphic execution (case changes)", "All exceptions, sampled words.")
prop("H06", "The pattern store behaves as a map from rune strings to values",
     "The store of patterns behaves as a map keyed by rune strings: Get returns the last value put under exactly this key since it was last deleted, or nil; Put tells whether the key is new; Delete removes this key alone, whatever prefixes or extensions of it are stored, and tells whether it was there. "
     "Keys that are prefixes of one another, empty keys and keys with any rune never interfere.",
     ["histories"], "all histories of up to 4 operations over nested keys, random histories of hundreds of operations over overlapping keys",
     "The tests use a fixed list of keys, put and deleted once.",
     [H + "internal/trie/rune_trie.go", H + "internal/trie/trie.go"], [("trie over runes", H + "internal/trie/rune_trie.go")],
     ["return values of Get, Put, Delete"],
     "history monitor against an executable map model", "All short histories, sampled long ones. Values are never nil. The internal package is reached by a probe overlaid at build time.")
prop("G01", "Regenerating the pattern files keeps what the TeX originals say",
     "For every folder of TeX files (lines of UTF-8 text, without escaped percent signs), the program that go generate runs in the folder of languages writes, for each file of tex whose name ends with .tex, a file of this name which holds the lines of the original, in order, without comments (from a percent sign to the end of the line) and surrounding space, leaving out nothing but blank lines, and adding nothing; it makes no other file, leaves the originals as they are, and running it again changes nothing. "
     "It fails (with a non-zero status) when it cannot do so, as with an original that cannot be read, or a file that cannot be written; it may fail so on lines of 64 kB or more. "
     "Each of the pattern files embedded holds the lines its original has, once regenerated.",
     ["inputs", "faults"], "the originals; made-up files of comments, commands, patterns and space, other files in between, lines up to 2^18 bytes, originals that cannot be read",
     "There is no test of the generator, nor of the pattern files against the originals.",
     [H + "languages/strip_comments.go", H + "languages/doc.go", H + "embedded.go"], [("stripping of comments", H + "languages/strip_comments.go:strip")],
     ["files written by the generator, its status, and the pattern files"],
     "execution of the real generator in scratch folders, under a monitor of the files before and after", "The originals, sampled made-up files. The generator of the width tables needs the network: not claimed (its tables are judged by W02).")
A = "terminal/ansi/"
prop("A01", "Stripping escape sequences loses nothing and always ends",
     "For every sequence of runes, well-formed or not, the start sequences, texts and stop sequences of the stripped tokens, taken in order, concatenate to the input; there is always at least one token, no token but the last is empty, and the last has no remainder. "
     "Stripping step by step yields the same tokens, each step with its remainder adds up to its input and makes progress. "
     "It never panics, and never writes to the input nor to the array around it.",
     ["inputs"], "all strings of up to 6 runes over the alphabet of sequences, longer ones after an introducer, truncations, hostile and invalid runes",
     "The tests strip a dozen fixed strings.",
     [A + "ansi.go", W + "runesio/slice_reader.go"], [("decoder with rewinds", A + "ansi.go:StripANSIFromRunes"), ("sequence decoder", A + "ansi.go:decodeANSISequence"), ("text decoder", A + "ansi.go:decodeText")],
     ["return values of StripToken, StripANSIFromRunes, and the arrays given"],
     "exhaustive short and hostile execution under a conservation monitor", "Exhaustive for short strings over the significant runes, sampled beyond.")
prop("A02", "Start and stop sequences are told apart, other sequences stay in the text",
     "For every stream of complete sequences (ESC [, parameters of up to 3 digits separated by ';' or ':', a final letter) and texts: ESC[...m with a non-zero first parameter and ESC[...s, ESC[...h are start sequences; ESC[m with no parameter or a single zero one and ESC[...u, ESC[...l are stop sequences; all others belong to the text (what ESC[...m with a zero or empty first parameter followed by others stands for is left open). "
     "The start and stop sequences found are exactly those of the stream, in order, and the rest is the text; stray ESC runes and brackets in the text change nothing. "
     "Without other sequences in between, each token groups at most one start, then at most one text, then at most one stop.",
     ["inputs"], "every parameter 0-999 in several places, every final rune, all orders of up to 6 items, random streams",
     "The tests use some common sequences with one or two parameters.",
     [A + "ansi.go"], [("sequence decoder", A + "ansi.go:decodeANSISequence"), ("grouping", A + "ansi.go:StripANSIFromRunes")],
     ["fields of the stripped tokens"],
     "generative execution: decoded kinds against the kinds generated", "Exhaustive in parameters, finals and orders up to 6, sampled beyond. Not judged: longer parameters, a zero first parameter followed by others, private parameters.")
R = W + "runesio/"
prop("R01", "The rune reader behaves as a cursor over its runes",
     "For every history of reads and seeks, ReadRune returns the runes in order with the size of their UTF-8 encoding (3 for an invalid rune), then io.EOF for ever; Seek, from the start, the current position or the end, counts runes, moves exactly there if the target lies within the runes, and otherwise fails with ErrSeekOutOfRange and moves nothing. "
     "Runes returns exactly what is unread; Slice and Slices return the runes between offsets whatever the position, and move nothing. "
     "The runes are never modified.",
     ["histories", "inputs"], "all histories of up to 3 operations over short readers, random histories of 60 operations with extreme offsets",
     "The tests read and seek along fixed scripts.",
     [R + "slice_reader.go"], [("cursor", R + "slice_reader.go:Seek")], ["return values of ReadRune, Seek, Runes, Slice, Slices"],
     "history monitor against an executable model", "All short histories, sampled long ones. Seek with an unknown whence is not judged.")
prop("R02", "Byte offsets into the encoded text cut the reader at the same runes",
     "For every slice of runes and every pair of byte offsets that lie on rune boundaries of its UTF-8 encoding, SliceFromByteOffsets returns exactly the runes between them, whatever the position of the reader; so the offsets a regular expression finds on the reader cut the very groups it finds on the string. "
     "An odd number of offsets panics.",
     ["inputs"], "all pairs of boundaries of random mixed-width slices, 60 regular expressions on random texts",
     "The tests use one regular expression on one text.",
     [R + "slice_reader.go"], [("boundaries counted in bytes", R + "slice_reader.go:SliceFromByteOffsets")], ["return values of SliceFromByteOffsets"],
     "differential execution against regexp on strings", "Sampled texts, all boundary pairs of each. Offsets inside a rune are not judged.")
prop("R03", "Writing runes writes their UTF-8 encoding, and reports what was written",
     "For every history of WriteRune, WriteRunes and Write, the bytes that reach the underlying writer are exactly the UTF-8 encodings of the runes (U+FFFD for an invalid rune) and the bytes given, in order, and the counts returned are those the underlying writer reports, in bytes. "
     "An error of the underlying writer, with any partial count, is returned unchanged, nothing more is written by that call, and later calls work again if the writer does. "
     "A writer that already writes runes is used as it is.",
     ["histories", "fault_sequences", "inputs"], "every code point, random histories against a buffer, and against writers that fail or write short at every point",
     "The tests write a few strings to a buffer that never fails.",
     [R + "writer.go"], [("encoder", R + "writer.go:writeRunes"), ("adapter", R + "writer.go:AsRunesWriter")], ["bytes, counts and errors at the underlying writer"],
     "history monitor with fault injection in the underlying writer", "All code points, sampled histories and faults.")
B = "attributes/"
prop("B01", "An attribute renders its start, text and stop, in this order",
     "For every text, start and stop, Render writes the start sequence, the text, then the stop sequence, Start and Stop write theirs alone, HasStart and HasStop tell whether they are not empty, and SetStop replaces the stop sequence only; rendering again yields the same. "
     "A collection of renderers starts, stops and renders each member once, in order, skipping nil ones. "
     "Runes returns the text, and the level is what was last set.",
     ["inputs", "histories"], "random attributes and collections, with members of the user's own type",
     "There is one test of a fixed list of attributes.",
     [B + "attribute.go", B + "iface.go"], [("rendering", B + "attribute.go:Render")], ["bytes written, calls received by renderers"],
     "random execution with spy renderers", "Sampled.")
prop("B02", "Nesting levels and iteration follow the order in which renderers are pushed",
     "For every stream of renderers pushed in a state, each gets as level the number of contexts open at it, itself included: a start opens one from its own renderer on, a stop closes the innermost after its own, a stop with none open changes nothing; a stop set after the push counts the same, and nil renderers are ignored. "
     "An iterator visits each renderer once, in order; iterators are independent; one obtained with First is on the first renderer already; after the end, Next stays false and there is no item.",
     ["histories"], "all streams of up to 6 renderers over plain, start, stop, start and stop; random streams with nesting and stray stops; interleaved iterators",
     "The tests check one stream of balanced contexts.",
     [B + "state.go"], [("level of the last renderer", B + "state.go:Push"), ("list iteration", B + "state.go:Next")], ["Level of each renderer, Next and Item of iterators"],
     "exhaustive short histories against a stack model", "Exhaustive up to 6 renderers, sampled beyond.")
prop("B03", "Contexts open at the end of a line are closed there and resumed on the next",
     "Wherever a stream of renderers is broken into lines, EndOfLine after a renderer writes, innermost first, the stop sequence of each context open after it (that of the renderer which closes it later; none if it is never closed), and StartOfLine writes, outermost first, the start sequences of these same contexts. "
     "So each line, shown alone, shows every text within the same contexts as the whole stream does, and leaves open only contexts that are never closed. "
     "Outside of any context, before the first renderer and once the iteration is over, nothing is written.",
     ["histories"], "all streams of up to 6 renderers broken after each one, random streams with nesting, broken at random places",
     "The tests check one stream with one break.",
     [B + "state.go"], [("open contexts of the iterator", B + "state.go:openContexts")], ["bytes written by EndOfLine and StartOfLine"],
     "exhaustive short histories, lines replayed by a simulated terminal", "Exhaustive up to 6 renderers, sampled beyond.")
L = "linebreak/"
LQ = "random paragraphs (prose, punctuation, hyphens, CJK, random runes) with random widths and settings of all options"
prop("L01", "Line breaking keeps the text",
     "For every paragraph of non-empty tokens without escape sequences that can be set, the lines read in order give back exactly the tokens in order (with the spaces that some may hold), separated by one space each; empty tokens yield nothing but spaces: the only changes are that the space where a line ends is left out, and that a hyphen is added at the end of each line that breaks inside a word (not next to an explicit hyphen, nor to a mark at which the punctuator splits), if word breaks are enabled and hyphens are rendered, and nowhere else. "
     "No line begins or ends with a space added by the breaker.",
     ["inputs", "configurations"], LQ,
     "The tests print the lines of a few paragraphs, and assert that there is no error; no line is looked at.",
     [L + "linebreaker.go"], [("rendering of nodes between breaks", L + "linebreaker.go:render"), ("nodes of a token", L + "linebreaker.go:boxNodes")], ["lines returned by LeftAlignUniform"],
     "random execution, lines read back by an automaton", "Sampled.")
prop("L02", "No line is wider than requested, nor stretched beyond the tolerance",
     "For every paragraph of tokens without spaces nor escape sequences that can be set, whatever the (finite) tolerance, the width of every line as measured by the breaker's own measurer, hyphen added at its end included, is at most the width requested. "
     "Every line but the last lacks at most 6 cells times the tolerance. "
     "(Here and below, measures add up rune by rune, measures and widths are whole numbers once multiplied by the scale factor, and a space measures 1.)",
     ["inputs", "configurations"], LQ,
     "The tests print lines with padding, without asserting their width.",
     [L + "knuth_plass.go", L + "linebreaker.go"], [("adjustment ratio", L + "knuth_plass.go:adjustmentRatio"), ("sums after a break", L + "knuth_plass.go:sumFromNode")], ["measure of the lines returned by LeftAlignUniform"],
     "random execution under a width monitor", "Sampled. Measurers are additive, with a space of one cell; scale factors are whole numbers, measures wholes, halves or quarters.")
prop("L03", "The error comes back exactly when there is no way to set the paragraph",
     "For every non-empty paragraph of tokens without spaces nor escape sequences, and every setting with a finite tolerance, LeftAlignUniform returns ErrCannotBeSet, and no line, if and only if no choice of legitimate breaks gives lines that all fit the width within the tolerance; otherwise it returns at least one line and no error. Empty tokens at the start of a paragraph change nothing. "
     "It never panics nor hangs, whatever the tokens (invalid runes, escape sequences, spaces) and the width (zero, negative, huge, not a number).",
     ["inputs", "configurations"], LQ + ", widths close to the limit; hostile tokens and widths, empty tokens",
     "The tests only set paragraphs that can be set.",
     [L + "knuth_plass.go"], [("active breaks", L + "knuth_plass.go:mainLoop")], ["error returned by LeftAlignUniform"],
     "random execution against an exact search", "Sampled. Legitimate breaks are those of L05; line widths and stretch as documented there.")
prop("L04", "The lines depend on the paragraph and the settings only",
     "Setting the same paragraph with the same settings always gives the same outcome, lines or error: again with the same line breaker, with a fresh one, in another order, and after this breaker set other paragraphs, including some that cannot be set and some that leave escape sequences open.",
     ["histories", "inputs", "configurations"], "random paragraphs with and without escape sequences, set again after random other paragraphs",
     "The tests set each paragraph once, with a new line breaker.",
     [L + "linebreaker.go", L + "knuth_plass.go"], [("reset per paragraph", L + "linebreaker.go:LeftAlignUniform"), ("candidates in a fixed order", L + "knuth_plass.go:insertNewActiveBreak")], ["outcomes of repeated calls"],
     "history monitor comparing outcomes", "Sampled histories.")
prop("L05", "Lines break at legitimate places, with the least total demerits",
     "For every paragraph of tokens without spaces nor escape sequences that can be set, each line ends at a space, after a punctuation mark, or, with word breaks enabled, in a stretch of more than 4 runes between spaces and punctuation marks, after an explicit hyphen or between two parts given by the hyphenator. "
     "Among all such ways that fit, the one chosen has the least total demerits of Knuth and Plass: per line, with badness b = 10 + 100 r^3 for the ratio r = (missing width)/6 (0 on a full line, /10000 on the last), (b + penalty)^2, or b^2 - penalty^2 if the penalty is negative, with penalties 400 after punctuation, 200 after an explicit hyphen, 300 (or the hyphen penalty set) inside a word and 0 at a space, plus 100 (or the hyphen penalty set) when this line and the previous one both end at a non-space, the last line counting as such, plus 200 when the fitness classes (r at most 0.5, at most 1, more) of adjacent lines differ by more than one, starting from the first class. A hyphen penalty of 10000 stands for no breaks between the parts of a word, one of -10000 for a break at each of them (a line that ends there bears no penalty).",
     ["inputs", "configurations"], LQ + "; paragraphs of up to 400 tokens",
     "The tests do not look at the breaks (the repository's TODO lists it).",
     [L + "knuth_plass.go", L + "knuth_plass_types.go", L + "linebreaker.go", L + "options.go"],
     [("demerits", L + "knuth_plass.go:demeritsAndClass"), ("best of the active breaks", L + "knuth_plass.go:findBestBreak"), ("default parameters", L + "options.go:defaultOptions")], ["lines returned by LeftAlignUniform"],
     "random execution against an independent optimal dynamic program", "Sampled. Penalties and measures are such that totals are exact in floating point up to 1 part in 10^9.")
prop("L06", "Escape sequences neither change the layout nor bleed across lines",
     "For every paragraph whose tokens carry start and stop sequences, nested or not (a stop closes the innermost context open, if any), each line shown alone shows every rune under the same sequences as in the input, and leaves open only the contexts that are never closed; every sequence of the input appears in the lines, in order. "
     "When the sequences lie at the edges of tokens that hold a text, the visible lines (or the error) are exactly those of the same paragraph without sequences.",
     ["inputs", "configurations"], "random paragraphs with random contexts, nested up to 12 deep, at the edges or inside of tokens, spanning one or many lines, closed or not; random widths and settings",
     "The tests print two paragraphs with attributes.",
     [L + "linebreaker.go", L + "knuth_plass_types.go", B + "state.go"], [("boxes with renderers", L + "linebreaker.go:boxNodes"), ("close and resume at line ends", B + "state.go:EndOfLine")], ["lines returned by LeftAlignUniform"],
     "random execution, lines replayed by a simulated terminal", "Sampled. A terminal is simulated with one context per start, closed by the next stop.")
prop("C01", "Widths may be measured concurrently, from the very first call",
     "Any number of goroutines may measure runes and texts at the same time, in any mode, including when these are the first measures of the process: there is no data race, no deadlock, and every width is the one measured alone.",
     ["schedules"], "2-16 goroutines released together in fresh processes, on 1-16 processors, with various delays",
     "The tests measure from one goroutine, and not under the race detector.",
     [W + "width.go", W + "lookup.go"], [("table built once", W + "lookup.go:buildLookupOnce")], ["race detector reports, widths"],
     "race detector and result oracle over cold-start processes", "Held on the schedules observed.")
prop("C02", "Hyphenators may be created and used concurrently, from the very first one",
     "Any number of goroutines may create hyphenators, of the same or different languages, break words with hyphenators of their own or shared ones, and list and load pattern files, at the same time, including when these are the first of the process: there is no data race, no deadlock, and each word is broken as it is alone, by the patterns of the language of its hyphenator.",
     ["schedules"], "2-16 goroutines released together in fresh processes, on 1-16 processors, with various delays",
     "The tests use hyphenators from one goroutine, and not under the race detector.",
     [H + "cache.go", H + "hyphenator.go", H + "dictionary.go"], [("cache under a mutex", H + "cache.go:loadDictFromCache"), ("buffers local to each call", H + "hyphenator.go:BreakWord")], ["race detector reports, parts"],
     "race detector and Liang oracle over cold-start processes", "Held on the schedules observed.")
prop("C03", "Stripping, splitting and line breaking are independent across goroutines",
     "Any number of goroutines may strip escape sequences, tokenize, split words with shared splitters, and set paragraphs with line breakers of their own over shared tokens, options and hyphenators, at the same time: there is no data race, no deadlock, and every result is the one obtained alone.",
     ["schedules"], "2-16 goroutines released together in fresh processes, on 1-16 processors, over shared inputs",
     "The tests use one goroutine, and not under the race detector.",
     [A + "ansi.go", T + "punctuator/punctuator.go", T + "tokenizer/tokenizer.go", L + "linebreaker.go", L + "knuth_plass.go", B + "state.go"],
     [("state local to each call or line breaker", L + "linebreaker.go:New")], ["race detector reports, results"],
     "race detector and result oracle over cold-start processes", "Held on the schedules observed. A single line breaker is not shared: the package does not promise it.")
prop("C04", "Readers, writers and attributes are independent across goroutines",
     "Any number of goroutines may read, seek, cut, write, split and render runes at the same time, each with readers, writers, attributes and states of its own over runes they share, or iterate over the same finished state, each with its own iterators and writers: there is no data race, no deadlock, and every result is the one obtained alone.",
     ["schedules"], "2-16 goroutines released together in fresh processes, on 1-16 processors, over shared runes",
     "The tests use one goroutine, and not under the race detector.",
     [R + "slice_reader.go", R + "writer.go", "attributes/attribute.go", "attributes/state.go", "attributes/iface.go", W + "fields.go"],
     [("state local to each object", R + "slice_reader.go:NewSliceReader"), ("iterators that only read the state", "attributes/state.go:openContexts")], ["race detector reports, results"],
     "race detector and result oracle over cold-start processes", "Held on the schedules observed. A reader, writer or iterator is not shared, nor a state that is still being pushed to.")
prop("O01", "Inputs are never modified, and results stay what they were",
     "No operation (splitters, hyphenators, escape sequences, attributes, widths, line breaking) modifies the runes, tokens, options, offsets or other arrays it is given, nor those that the callbacks of the caller return, nor what lies next to them in memory, not even for a while: inputs may be shared or read-only. "
     "What an operation returned is never changed by later operations, and what the caller later does to results or inputs never changes the answer of any later operation on equal inputs.",
     ["histories", "inputs"], "random histories of up to 12 operations over inputs inside larger arrays, with results and inputs overwritten afterwards",
     "The tests look at each result once, right after the call.",
     [A + "ansi.go", H + "hyphenator.go", T + "punctuator/punctuator.go", W + "fields.go", L + "linebreaker.go", R + "slice_reader.go"],
     [("fresh or aliased read-only slices", H + "hyphenator.go:splitAtPositions")], ["arrays given, results kept"],
     "history monitor with canaries around inputs", "Sampled histories.")

prop("F01", "Callbacks that panic or use the library do no harm",
     "When a function or object of the user's (measurer, hyphenator, punctuator, predicate, underlying writer, renderer) panics with any value, or ends its goroutine, this reaches the caller as it is, and later uses of the same line breaker, writer or state, and of others, give the outcomes they would have given without it. "
     "Such a callback may itself use any part of the library, with other objects, and neither use changes the outcome of the other, nor blocks it.",
     ["inputs", "histories"], "random paragraphs, texts, writes and streams of renderers, with a panic, or the end of the goroutine, at a random call of a random callback, up to four times in a row, or with random uses of the library in callbacks",
     "The callbacks of the tests neither fail nor call back.",
     [L + "linebreaker.go", W + "fields.go", R + "writer.go", "attributes/iface.go", "attributes/state.go"],
     [("state reset at the start of each paragraph", L + "linebreaker.go:LeftAlignUniform"), ("no state out of objects", W + "fields.go:FieldsFunc")], ["panics that reach the caller", "outcomes of later and enclosing calls"],
     "fault injection in callbacks under an outcome monitor", "Sampled histories. A callback does not use the very object which calls it.")
prop("E01", "Outcomes depend on the arguments only, and nothing else is touched",
     "The outcome of every operation is the same whatever the environment variables (locale, terminal, colors, debugging), the number of processors, the arguments of the program, the current folder and what it holds, and the standard streams (pipes, files, a terminal of any size). "
     "The library prints nothing, opens, makes or changes no file (the pattern files are embedded), opens no connection, starts no process, reads nothing from the standard input, defines no flag, handles no signal, and leaves the environment, the arguments, the folder and the open files of the process as they were.",
     ["configurations", "inputs"], "pairs of processes on the same inputs, in random environments, folders with misleading pattern files, and streams; all the workloads of the other checks run in silence",
     "The tests run in the environment of the developer, and do not look at what is printed.",
     [W + "options.go", H + "options.go", H + "dictionary.go", L + "linebreaker.go", "attributes/attribute.go"],
     [("embedded pattern files", H + "dictionary.go:LoadPatterns"), ("constant defaults", W + "options.go:optionsWithDefaults")], ["outcomes of twin processes", "standard output and error", "files in the current, home and temporary folders", "system calls of a process that uses all parts (strace)"],
     "differential monitor over twin processes, output, file and system call monitors", "Sampled environments: 25 variables, no other state of the machine.")
prop("S01", "Nothing is kept of what was processed",
     "Used over and over on ever different inputs, with shared or with new objects, no part of the library retains memory in proportion to the number of uses, nor leaves goroutines behind. "
     "The memory held once the results are dropped is bounded: the width table, one dictionary per language, and, for each object still referenced, what its largest input needs (dictionaries and tables are shared). "
     "This also holds for uses that fail (unknown languages and pattern files, writers in error, paragraphs that cannot be set).",
     ["histories"], "rounds of thousands of uses of each part on random inputs, with heap and goroutine counts after full collections in between; hundreds of objects held after use",
     "A test uses each part a few times and ends; what is retained only shows in the long run.",
     [W + "lookup.go", H + "cache.go", H + "hyphenator.go", L + "linebreaker.go", A + "ansi.go", "attributes/state.go", R + "writer.go"],
     [("cache of dictionaries", H + "cache.go:loadDictFromCache"), ("width table built once", W + "lookup.go:initLookupTable"), ("state of the line breaker reset for each paragraph", L + "linebreaker.go:LeftAlignUniform")],
     ["heap in use after full collections", "number of goroutines"],
     "leak detection: heap and goroutine monitor over rounds of uses", "Sampled histories, 6 rounds. A leak below 8 KB in each round is not seen, nor objects of some kilobytes.")
prop("S02", "The work grows in proportion to the size of the text",
     "Measuring, tokenizing, splitting at punctuation marks or hyphens, stripping escape sequences, reading, writing, pushing and rendering attributes, and breaking a paragraph in lines (at a given width and tolerance) take processor time and memory at most in proportion to the length of the text, whatever it is made of, and whether or not the paragraph can be set. "
     "Likewise, the n-th use of an object (hyphenator, reader, line breaker...) costs what the first did. "
     "(Excepted: hyphenating a single long word, cutting at many byte offsets, and contexts which remain open over many lines.)",
     ["inputs", "histories"], "texts of up to a million runes, and paragraphs of up to 30000 tokens, made of pieces of 16 kinds, in sizes that grow fourfold; objects used up to 250000 times",
     "The benchmarks measure a few small fixed inputs, and assert nothing.",
     [L + "knuth_plass.go", L + "linebreaker.go", A + "ansi.go", W + "fields.go", W + "width.go", T + "punctuator/punctuator.go", R + "slice_reader.go", R + "writer.go", "attributes/state.go"],
     [("breaks too far away are deactivated", L + "knuth_plass.go:adjustmentRatio"), ("one pass over the runes", A + "ansi.go:StripANSIFromRunes")],
     ["CPU time of the thread", "bytes allocated"],
     "cost monitor: CPU time and allocation per unit over growing sizes", "Sampled shapes. A cost per unit up to 8 times that of small inputs is accepted; measures are repeated before a verdict. CPU time of the thread, not wall-clock time, is measured.")

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")

checks = []
for p in P:
    checks.append({
        "property": p["id"],
        "quick_cmd": "bash run.sh %s quick" % p["id"],
        "thorough_cmd": "bash run.sh %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "runtime monitoring: " + p["technique"],
        "level": "exploration",
        "level_note": p["note"],
    })
json.dump({
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks are needed in /repo: everything is observed at the API; the internal trie is reached by a probe package overlaid at build time (run.sh). See DESIGN.md and KNOWN_FINDINGS.txt.",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")

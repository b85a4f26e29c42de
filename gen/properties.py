#!/usr/bin/env python3
"""Writes properties.jsonl (run by hand after an edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

FB = ("frame buffer", "5896 words, 536 rows of 11 words; pixel (x,y) is bit x%32 of word 11y+x/32", "src/framebuffer.rs")
CUR = ("cursor", "pen position and height of the tallest glyph on the current line", "src/cursor.rs")
OBS = ["the caller's frame buffer and cursor after blitstr::paint_str / clear_region"]

p("C01", "Painting never touches a pixel outside the clip rectangle",
  "Painting a string changes no pixel of the caller's frame buffer outside the given clip rectangle, and none outside the 336 by 536 visible pixels (the padding bits at the end of every line included). This holds for every string, style, cursor position and rectangle, including glyphs that straddle an edge, rectangles that are empty or inverted, and cursors anywhere.",
  ["inputs"], "every string, style, clip rectangle, cursor position and previous frame buffer content",
  "The tests paint a few strings in a few rectangles and look at no pixel outside them; a mask that is off by one shows only at particular word alignments, widths and edges.",
  ["src/blit.rs", "src/cliprect.rs"],
  [("per-row clipping and word masks of the glyph blitter", "src/blit.rs: xor_char"), ("rejection of rectangles beyond the screen", "src/blit.rs: xor_char, paint_str")], OBS, [FB])
p("C02", "Every call returns normally",
  "Every public call returns for every argument: no panic, no arithmetic overflow, no index out of bounds and no endless loop. That covers any valid string of any length, any cursor and clip rectangle whose fields are arbitrary unsigned numbers, any style and any style number.",
  ["inputs"], "every argument value of every public function, extreme coordinates and very long or malformed texts included",
  "The tests use ordinary coordinates and short texts; overflow needs extreme coordinates, exhausted lines or unsupported characters at particular places.",
  ["src/blit.rs", "src/cliprect.rs", "src/cursor.rs", "src/glyphstyle.rs", "src/api/v1.rs"],
  [("bounds checks before every buffer access", "src/blit.rs"), ("saturating cursor arithmetic", "src/cursor.rs")], ["panics and time of every public call"], [FB, CUR])
p("C03", "Clearing a region clears exactly that region",
  "Clearing a rectangle turns exactly the pixels inside it that are on the screen to the clear colour and leaves every other pixel as it was. Empty and inverted rectangles change nothing, and neither do rectangles that reach beyond the screen, which are refused as a whole.",
  ["inputs"], "every rectangle, on every previous frame buffer content",
  "The tests clear one or two aligned rectangles; the partial first and last words depend on both edges modulo 32.",
  ["src/blit.rs", "src/api/v1.rs"], [("masks of first, inner and last word", "src/blit.rs: clear_region")], OBS, [FB])
p("C04", "Painting toggles pixels, independent of what is on the screen",
  "Which pixels a paint call changes, and where it leaves the cursor, depends only on the text, style, rectangle and cursor, never on the previous content of the frame buffer: every inked pixel is inverted and every other is kept. Painting the same text again at the same place therefore restores the frame buffer exactly.",
  ["inputs", "histories"], "every operation, on every previous frame buffer content",
  "Tests paint on a cleared buffer, where setting, clearing and toggling a pixel cannot be told apart.",
  ["src/blit.rs"], [("XOR of the shifted pattern words", "src/blit.rs: xor_char")], OBS, [FB])
p("C05", "Every supported character is painted as drawn in its sprite sheet",
  "Every grapheme cluster listed in a font's index or alias file paints, pixel for pixel, the ink of its cell of that font's sprite sheet, one pixel right of the cursor and at the cell's own height, at every horizontal alignment. The emoji, Bold, Regular, Small and hanzi fonts are all covered.",
  ["inputs", "configurations"], "every cluster of every font x style x horizontal alignment modulo the word size",
  "The tests compare no glyph with its sprite sheet; about twelve thousand glyphs times 32 alignments cannot be listed by hand.",
  ["src/blit.rs", "src/fonts.rs", "src/fonts/emoji.rs", "src/fonts/hanzi.rs", "src/fonts/bold.rs", "src/fonts/regular.rs", "src/fonts/small.rs"],
  [("packed glyph data and its header", "src/fonts.rs: GlyphData"), ("unpacking loop across words", "src/blit.rs: xor_char"), ("hash index of clusters", "src/fonts/*.rs: HASH_*, OFFSET_*")], OBS, [FB])
p("C06", "Clipping shows exactly the visible part of a glyph",
  "A glyph that reaches over an edge of the clip rectangle or of the screen shows exactly the pixels of the unclipped glyph that lie inside, and no others. Where it is placed is not affected by how much of it is visible. (A clip rectangle that itself reaches beyond the screen is refused: nothing is painted.)",
  ["inputs"], "every glyph shape x every amount of clipping at each of the four edges and their combinations x alignment",
  "The existing tests never compare a clipped glyph with the whole one; off-by-one errors show only for particular widths, offsets and alignments.",
  ["src/blit.rs", "src/cliprect.rs"], [("row range and column mask", "src/blit.rs: xor_char")], OBS, [FB])
p("C07", "Text is painted as its longest supported clusters, the rest as U+FFFD",
  "Text is divided from left to right into the longest grapheme cluster that the emoji font, then the font of the style, then the hanzi font supports, and each is painted as that cluster alone would be. Every code point that starts no supported cluster, wherever it is in the text, is painted as exactly one replacement character, and nothing after it is lost.",
  ["inputs"], "every string of Unicode scalar values",
  "The tests look up some clusters; they say nothing about what follows a partial match, about unsupported code points at the end of a text or about combinations.",
  ["src/blit.rs", "src/fonts.rs", "src/m3hash.rs", "src/fonts/*.rs"],
  [("longest-first lookup per Unicode block", "src/fonts/*.rs: get_blit_pattern_offset"), ("order of fonts and fallback", "src/blit.rs: paint_str, src/fonts.rs"), ("hash of the first n code points", "src/m3hash.rs")], OBS, [CUR])
p("C08", "The cursor follows the documented layout",
  "After painting, the cursor is where the layout rules put it: each glyph advances it by its width and fixed padding, a glyph that does not fit before the right edge or a newline starts a line at the left edge of the rectangle below the tallest glyph of the finished line (at least the minimum line height), and the line height is the tallest font used on the line. It never depends on how much was visible. A rectangle without columns, or one that reaches beyond the screen, is refused: the cursor stays.",
  ["inputs", "histories"], "every sequence of glyphs and newlines from every cursor state and rectangle",
  "The tests check no line wrap, line heights of mixed fonts or the cursor left of the rectangle; these are properties of sequences.",
  ["src/blit.rs", "src/cursor.rs", "src/cliprect.rs"],
  [("wrap test and advance", "src/blit.rs: paint_str, xor_char"), ("line height bookkeeping and newline", "src/blit.rs: newline, paint_str")], OBS, [CUR])
p("C09", "Painting a text in pieces equals painting it whole",
  "If a text is cut between two clusters and its pieces are painted one after the other with the same cursor, rectangle and style, the frame buffer and the cursor end up as if it had been painted in one call. This holds for any number of pieces and wherever lines wrap.",
  ["histories", "inputs"], "every text and every way to cut it at cluster boundaries",
  "A client streams text; the number of cuts is exponential in the length and no test makes any.",
  ["src/blit.rs", "src/cursor.rs"], [("all state between clusters is in the cursor", "src/blit.rs: paint_str")], OBS, [CUR])
p("C10", "Style numbers round-trip and height hints match painted heights",
  "Converting a style to its number and back gives the same style, the three numbers differ, and every other number gives Regular. The height hint of a style is the line height the cursor has after painting any character of that style's own font.",
  ["inputs"], "every style, every number, every character of the Latin fonts",
  "The tests try a few numbers; the hint is a constant apart from the glyph data that it describes.",
  ["src/glyphstyle.rs", "src/blit.rs", "src/fonts/*.rs"], [("conversion tables", "src/glyphstyle.rs"), ("MAX_HEIGHT of the fonts", "src/fonts/*.rs")], ["return values of the conversions and the cursor's line height"])
p("C11", "Emoji and hanzi look the same in every style",
  "Text that consists only of emoji, hanzi and newlines is painted identically, pixels and cursor, in every style. In particular no style takes such a cluster from its own font or splits it differently.",
  ["inputs"], "every emoji and hanzi cluster and sequences of them x pairs of styles x rectangles",
  "No test paints the same text in several styles.",
  ["src/blit.rs", "src/fonts.rs"], [("emoji before style font before hanzi", "src/blit.rs: paint_str")], OBS)
p("C12", "Equivalent spellings of a character look the same",
  "The precomposed and the decomposed spelling of a supported Latin letter, and the variants of an emoji with and without a variation selector that its font lists as the same, are painted identically in every style, position and surrounding text. The cursor ends at the same place too.",
  ["inputs"], "every pair of equivalent spellings x contexts x styles x alignments",
  "The tests use a handful of decomposed letters; the alias tables have thousands of entries.",
  ["codegen/src_data", "src/fonts/*.rs"], [("alias entries of the hash index", "src/fonts/*.rs"), ("alias files", "codegen/src_data/*_aliases.txt")], OBS)
p("C13", "A call depends only on its arguments, never on earlier calls",
  "The result of every call is a function of its arguments alone: neither earlier calls, nor their order, nor calls that other clients make in between with their own buffers and cursors change it. Concurrent callers with separate buffers get what each would get alone.",
  ["histories", "schedules"], "every sequence of calls and every interleaving of the calls of several clients",
  "Tests run each in one order and in one process; hidden state shows only after particular sequences.",
  ["src/blit.rs", "src/fonts.rs", "src/api/v1.rs", "src/demo.rs"], [("no statics, no interior state", "src/lib.rs: forbid(unsafe_code)")], OBS)
p("C14", "Points, rectangles and cursors are built and compared as promised",
  "A rectangle built from two corners is ordered and covers the same pixels whichever opposite corners are given and in whatever order; the full-screen rectangle is exactly the screen and the padded one lies inside it by the padding on all sides. A cursor made from a rectangle is at its top left with no line height, and the other constructors keep their arguments. Two points, rectangles or cursors are equal exactly when all their numbers are, points are ordered by x and then y, and a copy equals its original.",
  ["inputs"], "every pair of corner coordinates, every rectangle",
  "The tests try single values; swapped corners come in four combinations with equal, extreme and mixed coordinates.",
  ["src/cliprect.rs", "src/cursor.rs", "src/pt.rs"], [("corner ordering", "src/cliprect.rs: ClipRect::new"), ("cursor constructors", "src/cursor.rs")], ["fields of the constructed values"])
p("C15", "The committed fonts are what the generator makes of the sources",
  "Running the font generator on the committed sprite sheets, indexes and alias lists produces fonts that behave exactly like the committed ones: every text is painted with the same pixels and leaves the same cursor. Running it twice gives identical output.",
  ["configurations", "inputs"], "every cluster, alias, code point and short text, under the committed and the regenerated fonts",
  "No test runs the generator; the committed font sources are assumed to be up to date.",
  ["codegen/main.go", "codegen/lib", "codegen/config.json", "src/fonts/*.rs"], [("generation of the font modules", "codegen/main.go: codegen"), ("hash index", "codegen/lib/glyphset.go, codegen/lib/blockindex.go")], ["the generated Rust modules, compiled and exercised"])
p("C16", "The generator preserves every glyph of any sprite sheet",
  "For any sprite sheet geometry (cell size, columns, border, gutter), index format, cluster list and alias list within its limits, the generated font paints for each listed cluster and alias exactly the ink of its cell, trimmed as configured, at the height it has in the cell. Clusters that are not listed are not found. What a font cannot hold (a cluster with two cells, two clusters with one hash, a glyph wider than 32 pixels) is refused.",
  ["configurations", "inputs"], "every glyph bitmap, size, offset, sheet geometry, trim mode, index format and cluster length within the supported limits",
  "The generator has no tests for its glyph path, and the committed sheets exercise one geometry per font.",
  ["codegen/main.go", "codegen/lib"], [("trim and packing of bitmaps", "codegen/lib/blitpattern.go: NewBlitPattern, codegen/lib/matrix.go: Trim, convertToPattern"), ("cell geometry", "codegen/lib/blitpattern.go: NewBlitPattern, codegen/lib/fontspec.go: TrimLimits"), ("index and alias parsing", "codegen/lib/charspec.go, codegen/lib/config.go")], ["the generated Rust modules, compiled into the library and painted"])
p("C17", "The generator writes only when told to, and never from bad input",
  "Without the write switch the generator changes no file. With it, an input that is missing or syntactically malformed (configuration, sprite sheet, index, alias), an index that does not fit its sheet, or an output that cannot be written, makes it end with an error instead of silently leaving a missing, stale or wrong font. It writes no file other than the outputs its configuration names.",
  ["fault_sequences", "configurations"], "every single fault in every input and output file of the generator",
  "No test runs the generator with bad input or a full or read-only output.",
  ["codegen/main.go", "codegen/lib"], [("error checks on every input", "codegen/lib/*.go, codegen/main.go")], ["exit status and file system effects of the generator"])
p("C18", "The web demo shows exactly the frame buffer",
  "The web page paints each of the 336 by 536 frame buffer pixels at the same place of its canvas, with on pixels visible and off pixels not, wherever in its memory the module keeps the frame buffer and however the browser loads the module. After loading the demo module, be it the one that comes with the page or one built from the sources, the canvas shows the goose poem, as the documentation says and as the native library paints it.",
  ["inputs", "configurations"], "every frame buffer content and position below 2 GiB, both loading paths",
  "There is no test of the page; the bit order and row stride are repeated in another language.",
  ["wasm_demo/main.js", "wasm_demo/wasm.js", "wasm_demo/src/lib.rs"], [("bit to RGBA conversion", "wasm_demo/main.js: repaint"), ("module loading and fallback", "wasm_demo/wasm.js: loadModule")], ["the image data handed to the canvas"])
p("C19", "The demo screens are repeatable and look as documented",
  "Each demo screen looks the same whatever was on the screen before and in whatever order and however often the demos are shown. The sample texts are painted inside the visible screen, and the greeting and the poem look as the pictures in the documentation (doc/short_greeting.png, doc/goose_poem.png) show them.",
  ["histories"], "every sequence of demo calls from every initial frame buffer content",
  "The tests call each demo once on a fresh buffer.",
  ["src/demo.rs"], [("full clear before painting", "src/demo.rs")], ["frame buffer after each demo call"], [FB])
p("C20", "Builds for 32-bit WebAssembly and 64-bit hosts paint the same",
  "The library built for 32-bit WebAssembly and for a 64-bit host, with and without optimisation and overflow checks, give the same pixels and the same cursor for the same calls. No result depends on the width of the machine word or on the build mode.",
  ["configurations", "inputs"], "every call with coordinates up to 2^31, on both targets and both build modes",
  "The tests run on the host in one mode only, while the library is meant for 32-bit devices.",
  ["src/blit.rs", "src/cursor.rs", "src/m3hash.rs"], [("shifts and sums on machine-word coordinates", "src/blit.rs"), ("32-bit hash arithmetic", "src/m3hash.rs")], ["digests of frame buffer and cursor on every target"])
p("C21", "Glyphs of one text never overlap",
  "Within one painted text, the ink of two different glyphs never falls on the same pixel, and each glyph's ink stays in its own line between the line's top and the top of the next. So no glyph of a text erases part of another.",
  ["inputs", "histories"], "every sequence of glyphs of all fonts, lines and wraps included",
  "Overlap depends on combinations of widths, heights and wraps, which no test looks at.",
  ["src/blit.rs", "src/cursor.rs", "src/fonts/*.rs"], [("advance by the glyph's width", "src/blit.rs"), ("line height", "src/cursor.rs")], OBS, [CUR])
p("C22", "A text looks the same wherever on the screen it is painted",
  "Moving the clip rectangle and the cursor together by any distance, to any place where the rectangle still lies on the screen, moves the painted pixels and the cursor by exactly that distance and changes nothing else. The line height, the wraps and what is clipped stay the same.",
  ["inputs"], "every text, rectangle and cursor, moved to every position of the screen",
  "The tests paint at a few fixed positions; the arithmetic of words and lines behaves differently at every column.",
  ["src/blit.rs"], [("word alignment of the destination", "src/blit.rs"), ("wrap at the right edge of the rectangle", "src/blit.rs")], OBS, [CUR])
p("C23", "Every generated font carries the credits its configuration names",
  "The head of every font file the generator writes contains the notice that the font's configuration names, whole and unaltered (but for white space around it), and no other font's notice. A font without a notice carries none. The committed font files carry the notices of the committed configuration.",
  ["inputs", "configurations"], "every text of a notice, every number and order of fonts, notices of one name in different folders",
  "No test runs the generator; a lost or mangled notice changes no behaviour of the library, only its users' compliance with the fonts' licences.",
  ["codegen/lib/config.go", "codegen/lib/templates.go"], [("reading of the notice", "codegen/lib/config.go: readLegal"), ("font file template", "codegen/lib/templates.go")], ["font files written by the generator", "src/fonts/*.rs"])
p("C24", "The dry run announces exactly the files the write run writes",
  "Run without the write switch, the generator succeeds on a correct configuration, lists every output file of it and no other, names the switch, and changes nothing. Run with the switch on the same configuration it writes exactly the files that were listed.",
  ["configurations"], "every configuration: number, order and names of outputs, several fonts with one output included",
  "No test runs the generator; the announcement and the writing are separate code that can drift apart.",
  ["codegen/main.go", "codegen/lib/templates.go"], [("usage template", "codegen/lib/templates.go"), ("write loop", "codegen/main.go: codegen")], ["standard output and file tree of both runs"])
p("C25", "No call takes heap memory, and each needs only a small fixed stack",
  "No public call allocates memory, and apart from new_fr_buf, which returns a whole frame buffer, none needs more than 16 KiB of stack, whatever its arguments and however long its text, in optimised and unoptimised builds alike. Stack use does not grow with the length of the text.",
  ["inputs", "configurations"], "every call, with and without optimisation",
  "The tests run where there is plenty of stack and a heap; a copied table, a copied frame buffer or a recursion shows only on small devices or with long texts.",
  ["src/blit.rs", "src/fonts.rs", "src/fonts/*.rs", "src/demo.rs", "codegen/lib/templates.go"], [("tables in static memory", "codegen/lib/templates.go"), ("one loop over the text", "src/blit.rs: paint_str")], ["allocations and stack high-water mark of every public call"])
p("C26", "A generated font depends on its own configuration entry and inputs only",
  "What the generator writes for a font is determined, byte for byte, by the font's own entry in the configuration and the files this entry names. It does not depend on the other fonts of the configuration or their order, on files that were there before (earlier outputs included) or earlier runs, on the time, the environment or the folder, nor on the order in which the generator's runtime happens to iterate over maps.",
  ["configurations", "histories", "schedules"], "every list of fonts, every history of runs, every surrounding, every order of map iteration",
  "No test runs the generator, and a dependence on the order of iteration or on another font shows in some runs or configurations only.",
  ["codegen/main.go", "codegen/lib/glyphset.go", "codegen/lib/blockindex.go", "codegen/lib/fontspec.go"], [("sorted keys of the index map", "codegen/lib/glyphset.go: IndexKeys"), ("sorted cluster lengths", "codegen/lib/blockindex.go: ClusterLengthList"), ("one specification per font", "codegen/lib/config.go: Fonts")], ["font files written by the generator"])
p("C27", "A call's work is bounded by the length of its text",
  "The number of steps paint_str takes is at most proportional to the length of its text, with a factor that depends neither on the text nor on rectangle, cursor or style: a text four times as long takes about four times the steps at most. Clearing a region takes at most a fixed number of steps, whatever the rectangle.",
  ["inputs"], "every text, rectangle, cursor and style, long texts and coordinates up to the ends of the numbers included",
  "The tests paint short texts in ordinary places; a look-ahead that is repeated for every character, or a loop over coordinates, shows only with long texts or large numbers.",
  ["src/blit.rs", "src/fonts.rs", "src/fonts/*.rs"], [("one pass over the text", "src/blit.rs: paint_str"), ("bounded look-ahead of the cluster search", "src/fonts.rs: murmur3"), ("bounded rows and columns", "src/blit.rs: xor_char, clear_region")], ["function entries and loop iterations of every call, counted in a rewritten WebAssembly module"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
for x in P:
    assert len(x["title"]) <= 80, x["title"]
open(out, 'w').write(''.join(json.dumps(x, ensure_ascii=False) + '\n' for x in P))

From 50c2620d0cafcffe62054390079b0d91fdab89bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:46 +0000
Subject: [PATCH 01/14] fix: clear_region() clears exactly the clip region

Regions whose left and right edges fall into the same frame buffer word were
cleared up to the end of that word, and regions whose right edge is a multiple
of 32 made a shift overflow (panic in debug builds, 32 extra columns cleared in
release builds).
---
 src/blit.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/blit.rs b/src/blit.rs
index ecb6496..6e6e886 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -27,11 +27,17 @@ pub fn clear_region(fb: &mut FrBuf, clip: ClipRect) {
     // Blit it
     for y in clip.min.y..clip.max.y {
         let base = y * WORDS_PER_LINE;
+        if dest_low_word == dest_high_word {
+            // Left and right edges of the clip region share one word
+            fb[base + dest_low_word] |= (0xffffffff << (32 - px_in_dest_low_word))
+                & (0xffffffff >> (32 - px_in_dest_high_word));
+            continue;
+        }
         fb[base + dest_low_word] |= 0xffffffff << (32 - px_in_dest_low_word);
         for w in dest_low_word + 1..dest_high_word {
             fb[base + w] = 0xffffffff;
         }
-        if dest_low_word < dest_high_word {
+        if px_in_dest_high_word > 0 {
             fb[base + dest_high_word] |= 0xffffffff >> (32 - px_in_dest_high_word);
         }
     }
-- 
2.43.0


From d7e0e69c1a70377d26556dde79d953f45032e061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 02/14] fix: paint_str() clips glyphs at the right edge of the
 clip region

A glyph wider than the clip region was painted past its right edge, into the
start of the next line of the frame buffer at the right edge of the screen, and
past the end of the frame buffer (panic) at the bottom right corner.
---
 src/blit.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/blit.rs b/src/blit.rs
index 6e6e886..c16863e 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -155,6 +155,12 @@ fn xor_char(
     let dest_low_word = x0 >> 5;
     let dest_high_word = x1 >> 5;
     let px_in_dest_low_word = 32 - (x0 & 0x1f);
+    // Clip right side of glyph if it is too wide for the clip region
+    let w_visible = if x1 <= clip.max.x {
+        gh.w
+    } else {
+        clip.max.x - x0
+    };
     // Blit it
     let y0 = c.pt.y + gh.y_offset;
     if y0 > clip.max.y {
@@ -189,10 +195,13 @@ fn xor_char(
             pattern_h >>= 32 - px_in_high_word;
             pattern |= pattern_h;
         }
+        if w_visible < gh.w {
+            pattern &= (1 << w_visible) - 1; // Least significant bit is leftmost pixel
+        }
         // XOR glyph pixels onto destination buffer
         let base = (y0 + y) * WORDS_PER_LINE;
         fb[base + dest_low_word] ^= pattern << (32 - px_in_dest_low_word);
-        if px_in_dest_low_word < gh.w {
+        if px_in_dest_low_word < w_visible {
             fb[base + dest_high_word] ^= pattern >> px_in_dest_low_word;
         }
     }
-- 
2.43.0


From 7c5e61cfd0eaeaaccf27cd985e6d6b4874b942ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:48 +0000
Subject: [PATCH 03/14] fix: paint_str() paints one replacement character for a
 trailing unknown char

An unknown character at the end of the string was never consumed, so its
replacement character was painted again and again, until there had been as many
iterations as the string has bytes.
---
 src/blit.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/blit.rs b/src/blit.rs
index c16863e..4f57650 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -76,8 +76,7 @@ pub fn paint_str(fb: &mut FrBuf, clip: ClipRect, c: &mut Cursor, st: GlyphStyle,
                 if let Some((i, _)) = cluster.char_indices().nth(1) {
                     cluster = &cluster[i..];
                 } else {
-                    //cluster = &cluster[1..];
-                    //break; // That was the last char, so stop now
+                    break; // That was the last char, so stop now
                 }
             }
         }
-- 
2.43.0


From 8fab0562c87700bcaad1cbcac0f197b5b45254ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:49 +0000
Subject: [PATCH 04/14] fix: paint_str() tolerates cursors close to the maximum
 usize value

The cursor arithmetic overflowed: a panic in debug builds, and in release builds
glyphs that reappeared at the top of the screen.
---
 src/blit.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/blit.rs b/src/blit.rs
index 4f57650..90812c8 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -89,7 +89,7 @@ fn newline(clip: ClipRect, c: &mut Cursor) {
     if c.line_height < fonts::small::MAX_HEIGHT as usize {
         c.line_height = fonts::small::MAX_HEIGHT as usize;
     }
-    c.pt.y += c.line_height + 1;
+    c.pt.y = c.pt.y.saturating_add(c.line_height).saturating_add(1);
     c.line_height = 0;
 }
 
@@ -143,9 +143,9 @@ fn xor_char(
         c.pt.x = clip.min.x;
     }
     // Add 1px pad to left
-    let mut x0 = c.pt.x + 1;
+    let mut x0 = c.pt.x.saturating_add(1);
     // Adjust for word wrapping
-    if x0 + gh.w + 2 >= clip.max.x {
+    if x0.saturating_add(gh.w + 2) >= clip.max.x {
         newline(clip, c);
         x0 = c.pt.x + 1;
     }
@@ -161,7 +161,7 @@ fn xor_char(
         clip.max.x - x0
     };
     // Blit it
-    let y0 = c.pt.y + gh.y_offset;
+    let y0 = c.pt.y.saturating_add(gh.y_offset);
     if y0 > clip.max.y {
         return Ok(0); // Entire glyph is outside clip rect, so clip it
     }
-- 
2.43.0


From e70ed517c83c796caf96cb87eabc8dae07ab1b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:50 +0000
Subject: [PATCH 05/14] fix: paint_str() goes on after a glyph below the clip
 region

A glyph which is entirely below the clip region, because of its y-offset, was
never consumed. So the rest of the string was lost, including glyphs on the same
line that start higher up and are partly visible ("h.h" with 10 lines of clip
region left painted only the first h).
---
 src/blit.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/blit.rs b/src/blit.rs
index 90812c8..d4961b8 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -162,10 +162,9 @@ fn xor_char(
     };
     // Blit it
     let y0 = c.pt.y.saturating_add(gh.y_offset);
-    if y0 > clip.max.y {
-        return Ok(0); // Entire glyph is outside clip rect, so clip it
-    }
-    let y_max = if (y0 + gh.h) <= clip.max.y {
+    let y_max = if y0 > clip.max.y {
+        0 // Entire glyph is outside clip rect, so clip it
+    } else if (y0 + gh.h) <= clip.max.y {
         gh.h
     } else {
         clip.max.y - y0 // Clip bottom of glyph
-- 
2.43.0


From 2a7d56f8dd807481768b824b4be864e48a28fee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:56 +0000
Subject: [PATCH 06/14] fix: codegen: stop when a font file cannot be written

---
 codegen/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/codegen/main.go b/codegen/main.go
index ba26deb..06c1524 100644
--- a/codegen/main.go
+++ b/codegen/main.go
@@ -40,7 +40,10 @@ func codegen() {
 		// Generate rust source code and write it to a file
 		code := RenderFontFileTemplate(f, gs, f.M3Seed)
 		fmt.Println("Writing to", f.RustOut)
-		ioutil.WriteFile(f.RustOut, []byte(code), 0644)
+		err := ioutil.WriteFile(f.RustOut, []byte(code), 0644)
+		if err != nil {
+			panic(err)
+		}
 	}
 }
 
-- 
2.43.0


From 9e0c9d783e04d80326280fbd2c29fc310a568f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:56 +0000
Subject: [PATCH 07/14] fix: codegen: take whole glyph cells when border and
 gutter differ

---
 codegen/lib/blitpattern.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codegen/lib/blitpattern.go b/codegen/lib/blitpattern.go
index f2e5e47..afc084d 100644
--- a/codegen/lib/blitpattern.go
+++ b/codegen/lib/blitpattern.go
@@ -42,9 +42,9 @@ func NewBlitPattern(img image.Image, font FontSpec, cs CharSpec, dbg bool) BlitP
 	gridSize := font.Size + font.Gutter
 	border := font.Border
 	pxMatrix := Matrix{}
-	for y := border + (row * gridSize); y < (row+1)*gridSize; y++ {
+	for y := border + (row * gridSize); y < border+(row*gridSize)+font.Size; y++ {
 		var row MatrixRow
-		for x := border + (col * gridSize); x < (col+1)*gridSize; x++ {
+		for x := border + (col * gridSize); x < border+(col*gridSize)+font.Size; x++ {
 			r, _, _, _ := img.At(x, y).RGBA()
 			//fmt.Println(r, g, b, a)
 			if r == 0 {
-- 
2.43.0


From 1679dbe707c3204a5dd3f1087093040948edcdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:56 +0000
Subject: [PATCH 08/14] fix: codegen: reject sprite sheets with too few columns

---
 codegen/lib/blitpattern.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/codegen/lib/blitpattern.go b/codegen/lib/blitpattern.go
index afc084d..5f37ae7 100644
--- a/codegen/lib/blitpattern.go
+++ b/codegen/lib/blitpattern.go
@@ -41,6 +41,9 @@ func NewBlitPattern(img image.Image, font FontSpec, cs CharSpec, dbg bool) BlitP
 	// Get pixels for grid cell, converting from RGBA to 1-bit
 	gridSize := font.Size + font.Gutter
 	border := font.Border
+	if border+(col*gridSize)+font.Size > imgRect.Max.X {
+		panic("sprite sheet is too narrow")
+	}
 	pxMatrix := Matrix{}
 	for y := border + (row * gridSize); y < border+(row*gridSize)+font.Size; y++ {
 		var row MatrixRow
-- 
2.43.0


From 5b22087b05105f49f1cb082583a1c235c2f14adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:56 +0000
Subject: [PATCH 09/14] fix: codegen: reject surrogates and numbers over 10FFFF
 in indexes

---
 codegen/lib/charspec.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/codegen/lib/charspec.go b/codegen/lib/charspec.go
index 02793ae..6541551 100644
--- a/codegen/lib/charspec.go
+++ b/codegen/lib/charspec.go
@@ -8,6 +8,7 @@ import (
 	"io/ioutil"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 // Holds mappings from extended grapheme clusters to sprite sheet glyph grid coordinates
@@ -52,6 +53,9 @@ func StringFromHexGC(hexGC string) string {
 		if err != nil {
 			panic(fmt.Errorf("unexpected value for hexGC: %q", hexGC))
 		}
+		if n > utf8.MaxRune || !utf8.ValidRune(rune(n)) {
+			panic(fmt.Errorf("not a codepoint in hexGC: %q", hexGC))
+		}
 		cluster += string(rune(n))
 	}
 	return cluster
-- 
2.43.0


From 75a516aa93d9602cfeb20e928c3a63131753efec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:56 +0000
Subject: [PATCH 10/14] fix: codegen: reject alias lines that do not have two
 clusters

---
 codegen/lib/charspec.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/codegen/lib/charspec.go b/codegen/lib/charspec.go
index 6541551..542cf3e 100644
--- a/codegen/lib/charspec.go
+++ b/codegen/lib/charspec.go
@@ -108,11 +108,13 @@ func EmojiAliases(inputFile string) []GCAlias {
 	for _, line := range strings.Split(string(text), "\n") {
 		// Trim comments and leading/trailing whitespace
 		txt := strings.TrimSpace(strings.SplitN(line, "#", 2)[0])
-		clusters := strings.Split(txt, " ")
-		if len(clusters) == 2 && len(clusters[0]) > 0 && len(clusters[1]) > 0 {
+		clusters := strings.Fields(txt)
+		if len(clusters) == 2 {
 			primary := clusters[0]
 			alias := clusters[1]
 			gcaList = append(gcaList, GCAlias{primary, alias})
+		} else if len(clusters) > 0 {
+			panic(fmt.Errorf("alias line needs two clusters: %q", txt))
 		}
 		// Skip blank lines, comments, etc.
 	}
-- 
2.43.0


From eca17fc99430568ac878f6f35ef4166cb70bd388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:48 +0000
Subject: [PATCH 11/14] fix: paint_str() leaves the cursor alone when the clip
 region is refused

---
 src/blit.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/blit.rs b/src/blit.rs
index d4961b8..a8a8f9f 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -45,6 +45,10 @@ pub fn clear_region(fb: &mut FrBuf, clip: ClipRect) {
 
 /// XOR blit a string with specified style, clip rect, starting at cursor
 pub fn paint_str(fb: &mut FrBuf, clip: ClipRect, c: &mut Cursor, st: GlyphStyle, s: &str) {
+    // Leave the cursor alone, whatever the text is, when nothing can be painted
+    if clip.max.y > LINES || clip.max.x > WIDTH || clip.min.x >= clip.max.x {
+        return;
+    }
     // Look up the latin GlyphSet for the requested GlyphStyle (emoji & hanzi are always included)
     let gs_latin = match st {
         GlyphStyle::Bold => GlyphSet::Bold,
@@ -123,9 +127,6 @@ fn xor_char(
     cluster: &str,
     gs: GlyphSet,
 ) -> Result<usize, NoGlyphErr> {
-    if clip.max.y > LINES || clip.max.x > WIDTH || clip.min.x >= clip.max.x {
-        return Ok(0);
-    }
     // Look up glyph for grapheme cluster and unpack its header
     let (glyph_data, bytes_used) = match gs {
         GlyphSet::Emoji => fonts::emoji::get_blit_pattern_offset(cluster)?,
-- 
2.43.0


From 06cb87001cdbb9838339236725ab200c1ca97054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:03 +0000
Subject: [PATCH 12/14] fix: reject clusters which the generated index cannot
 tell apart

---
 codegen/lib/blockindex.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/codegen/lib/blockindex.go b/codegen/lib/blockindex.go
index 0c58cc7..c920a04 100644
--- a/codegen/lib/blockindex.go
+++ b/codegen/lib/blockindex.go
@@ -27,6 +27,12 @@ func (b BlockIndex) Insert(graphemeCluster string, m3Seed uint32, dataOffset int
 		graphemeCluster,
 		dataOffset,
 	}
+	// Lookups go by hash alone, so each hash needs one glyph only
+	for _, entry := range b {
+		if entry.M3Hash == indexEntry.M3Hash && entry != indexEntry {
+			panic(fmt.Errorf("%q is listed twice or has the same hash as %q", graphemeCluster, entry.Cluster))
+		}
+	}
 	b = append(b, indexEntry)
 	// Sort by m3 hash
 	sort.Slice(b, func(i, j int) bool { return b[i].M3Hash < b[j].M3Hash })
-- 
2.43.0


From 17edd1d44d8831f6303b151c5aba686acd10817a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:25 +0000
Subject: [PATCH 13/14] fix: reject glyphs too wide to be painted

---
 codegen/lib/matrix.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/codegen/lib/matrix.go b/codegen/lib/matrix.go
index 6d8a36f..3093cfe 100644
--- a/codegen/lib/matrix.go
+++ b/codegen/lib/matrix.go
@@ -40,6 +40,9 @@ func (m Matrix) convertToPattern(yOffset uint32) []uint32 {
 		patW = uint32(len(m[0]))
 		patH = uint32(len(m))
 	}
+	if patW > 32 {
+		panic("glyph is wider than 32 px, the most that one row can have")
+	}
 	pattern := []uint32{(patW << 16) | (patH << 8) | yOffset}
 	bufWord := uint32(0)
 	flushed := false
-- 
2.43.0


From 53642dac595f285cf5a12ab1a89def2205ca19b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:27 +0000
Subject: [PATCH 14/14] fix: keep the font tables in static memory

Indexing a const array copies the whole array to the stack when the code is
not optimized: painting one character needed up to 1.5 MB of stack, which
overflows the stacks of threads and of small devices.
---
 codegen/lib/templates.go |   6 +--
 src/fonts/bold.rs        |  26 +++++-----
 src/fonts/emoji.rs       | 102 +++++++++++++++++++--------------------
 src/fonts/hanzi.rs       |  34 ++++++-------
 src/fonts/regular.rs     |  26 +++++-----
 src/fonts/small.rs       |  26 +++++-----
 6 files changed, 110 insertions(+), 110 deletions(-)

diff --git a/codegen/lib/templates.go b/codegen/lib/templates.go
index b64fc7e..54c5395 100644
--- a/codegen/lib/templates.go
+++ b/codegen/lib/templates.go
@@ -126,12 +126,12 @@ fn find_{{ToLower $k.Name}}(cluster: &str, limit: u32) -> Option<(usize, usize)>
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_{{$k.Name}}
-const HASH_{{$k.Name}}: [u32; {{len $dex}}] = [
+static HASH_{{$k.Name}}: [u32; {{len $dex}}] = [
     {{$dex.RustCodeForClusterHashes}}
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_{{$k.Name}}
-const OFFSET_{{$k.Name}}: [usize; {{len $dex}}] = [
+static OFFSET_{{$k.Name}}: [usize; {{len $dex}}] = [
     {{$dex.RustCodeForOffsets}}
 ];
 
@@ -148,7 +148,7 @@ const OFFSET_{{$k.Name}}: [usize; {{len $dex}}] = [
 ///  h: Height of pattern in pixels
 ///  yOffset: Vertical offset (pixels downward from top of line) to position
 ///     glyph pattern properly relative to text baseline
-pub const DATA: [u32; {{.GS.DataLen}}] = [
+pub static DATA: [u32; {{.GS.DataLen}}] = [
 {{.GS.Code}}];
 
 #[cfg(test)]
diff --git a/src/fonts/bold.rs b/src/fonts/bold.rs
index c2f175c..af39f8f 100644
--- a/src/fonts/bold.rs
+++ b/src/fonts/bold.rs
@@ -98,7 +98,7 @@ fn find_basic_latin(cluster: &str, limit: u32) -> Option<(usize, usize)> {
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_BASIC_LATIN
-const HASH_BASIC_LATIN: [u32; 148] = [
+static HASH_BASIC_LATIN: [u32; 148] = [
     0x0323CD4F,  // "ë" 65-308
     0x049BF55E,  // "}"
     0x0537C05E,  // "È" 45-300
@@ -250,7 +250,7 @@ const HASH_BASIC_LATIN: [u32; 148] = [
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_BASIC_LATIN
-const OFFSET_BASIC_LATIN: [usize; 148] = [
+static OFFSET_BASIC_LATIN: [usize; 148] = [
     1253, // "ë" 65-308
     650,  // "}"
     940,  // "È" 45-300
@@ -412,7 +412,7 @@ fn find_latin_1_supplement(cluster: &str, limit: u32) -> Option<(usize, usize)>
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_LATIN_1_SUPPLEMENT
-const HASH_LATIN_1_SUPPLEMENT: [u32; 96] = [
+static HASH_LATIN_1_SUPPLEMENT: [u32; 96] = [
     0x00EAC56E,  // "°"
     0x0254FD66,  // "®"
     0x056DE9E6,  // "Î"
@@ -512,7 +512,7 @@ const HASH_LATIN_1_SUPPLEMENT: [u32; 96] = [
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_LATIN_1_SUPPLEMENT
-const OFFSET_LATIN_1_SUPPLEMENT: [usize; 96] = [
+static OFFSET_LATIN_1_SUPPLEMENT: [usize; 96] = [
     753,  // "°"
     741,  // "®"
     983,  // "Î"
@@ -622,13 +622,13 @@ fn find_latin_extended_a(cluster: &str, limit: u32) -> Option<(usize, usize)> {
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_LATIN_EXTENDED_A
-const HASH_LATIN_EXTENDED_A: [u32; 2] = [
+static HASH_LATIN_EXTENDED_A: [u32; 2] = [
     0x1A01594C,  // "Œ"
     0x8C60DA30,  // "œ"
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_LATIN_EXTENDED_A
-const OFFSET_LATIN_EXTENDED_A: [usize; 2] = [
+static OFFSET_LATIN_EXTENDED_A: [usize; 2] = [
     1421, // "Œ"
     1433, // "œ"
 ];
@@ -644,7 +644,7 @@ fn find_general_punctuation(cluster: &str, limit: u32) -> Option<(usize, usize)>
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_GENERAL_PUNCTUATION
-const HASH_GENERAL_PUNCTUATION: [u32; 11] = [
+static HASH_GENERAL_PUNCTUATION: [u32; 11] = [
     0x0D0042B1,  // "•"
     0x18E68A7D,  // "‚"
     0x372ED469,  // "“"
@@ -659,7 +659,7 @@ const HASH_GENERAL_PUNCTUATION: [u32; 11] = [
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_GENERAL_PUNCTUATION
-const OFFSET_GENERAL_PUNCTUATION: [usize; 11] = [
+static OFFSET_GENERAL_PUNCTUATION: [usize; 11] = [
     1474, // "•"
     1447, // "‚"
     1451, // "“"
@@ -684,12 +684,12 @@ fn find_currency_symbols(cluster: &str, limit: u32) -> Option<(usize, usize)> {
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_CURRENCY_SYMBOLS
-const HASH_CURRENCY_SYMBOLS: [u32; 1] = [
+static HASH_CURRENCY_SYMBOLS: [u32; 1] = [
     0x1ACA36BB,  // "€"
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_CURRENCY_SYMBOLS
-const OFFSET_CURRENCY_SYMBOLS: [usize; 1] = [
+static OFFSET_CURRENCY_SYMBOLS: [usize; 1] = [
     1479, // "€"
 ];
 
@@ -704,12 +704,12 @@ fn find_specials(cluster: &str, limit: u32) -> Option<(usize, usize)> {
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_SPECIALS
-const HASH_SPECIALS: [u32; 1] = [
+static HASH_SPECIALS: [u32; 1] = [
     0x58A5DA35,  // "�"
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_SPECIALS
-const OFFSET_SPECIALS: [usize; 1] = [
+static OFFSET_SPECIALS: [usize; 1] = [
     1488, // "�"
 ];
 
@@ -723,7 +723,7 @@ const OFFSET_SPECIALS: [usize; 1] = [
 ///  h: Height of pattern in pixels
 ///  yOffset: Vertical offset (pixels downward from top of line) to position
 ///     glyph pattern properly relative to text baseline
-pub const DATA: [u32; 1501] = [
+pub static DATA: [u32; 1501] = [
     // [0]: 20 " "
     0x0004020e, 0x00000000,
     // [2]: 21 "!"
diff --git a/src/fonts/emoji.rs b/src/fonts/emoji.rs
index 4821ec0..d7a39fe 100644
--- a/src/fonts/emoji.rs
+++ b/src/fonts/emoji.rs
@@ -311,7 +311,7 @@ fn find_basic_latin(cluster: &str, limit: u32) -> Option<(usize, usize)> {
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_BASIC_LATIN
-const HASH_BASIC_LATIN: [u32; 24] = [
+static HASH_BASIC_LATIN: [u32; 24] = [
     0x21A25536,  // "1⃣" 31-20E3
     0x2C953D7D,  // "6⃣" 36-20E3
     0x2E5CDDE9,  // "2⃣" 32-20E3
@@ -339,7 +339,7 @@ const HASH_BASIC_LATIN: [u32; 24] = [
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_BASIC_LATIN
-const OFFSET_BASIC_LATIN: [usize; 24] = [
+static OFFSET_BASIC_LATIN: [usize; 24] = [
     90774, // "1⃣" 31-20E3
     91001, // "6⃣" 36-20E3
     90807, // "2⃣" 32-20E3
@@ -377,7 +377,7 @@ fn find_latin_1_supplement(cluster: &str, limit: u32) -> Option<(usize, usize)>
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_LATIN_1_SUPPLEMENT
-const HASH_LATIN_1_SUPPLEMENT: [u32; 4] = [
+static HASH_LATIN_1_SUPPLEMENT: [u32; 4] = [
     0x0254FD66,  // "®"
     0x58292DAE,  // "®️" AE-FE0F
     0xA7B0FE42,  // "©"
@@ -385,7 +385,7 @@ const HASH_LATIN_1_SUPPLEMENT: [u32; 4] = [
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_LATIN_1_SUPPLEMENT
-const OFFSET_LATIN_1_SUPPLEMENT: [usize; 4] = [
+static OFFSET_LATIN_1_SUPPLEMENT: [usize; 4] = [
     91163, // "®"
     91163, // "®️" AE-FE0F
     91130, // "©"
@@ -403,7 +403,7 @@ fn find_general_punctuation(cluster: &str, limit: u32) -> Option<(usize, usize)>
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_GENERAL_PUNCTUATION
-const HASH_GENERAL_PUNCTUATION: [u32; 4] = [
+static HASH_GENERAL_PUNCTUATION: [u32; 4] = [
     0x24F1EBAF,  // "‼"
     0x552BC889,  // "‼️" 203C-FE0F
     0xD5F4B15F,  // "⁉️" 2049-FE0F
@@ -411,7 +411,7 @@ const HASH_GENERAL_PUNCTUATION: [u32; 4] = [
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_GENERAL_PUNCTUATION
-const OFFSET_GENERAL_PUNCTUATION: [usize; 4] = [
+static OFFSET_GENERAL_PUNCTUATION: [usize; 4] = [
     84771, // "‼"
     84771, // "‼️" 203C-FE0F
     84789, // "⁉️" 2049-FE0F
@@ -429,7 +429,7 @@ fn find_letterlike_symbols(cluster: &str, limit: u32) -> Option<(usize, usize)>
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_LETTERLIKE_SYMBOLS
-const HASH_LETTERLIKE_SYMBOLS: [u32; 4] = [
+static HASH_LETTERLIKE_SYMBOLS: [u32; 4] = [
     0x3576E554,  // "™️" 2122-FE0F
     0x7BC3FAC8,  // "ℹ"
     0xA9620193,  // "ℹ️" 2139-FE0F
@@ -437,7 +437,7 @@ const HASH_LETTERLIKE_SYMBOLS: [u32; 4] = [
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_LETTERLIKE_SYMBOLS
-const OFFSET_LETTERLIKE_SYMBOLS: [usize; 4] = [
+static OFFSET_LETTERLIKE_SYMBOLS: [usize; 4] = [
     84814, // "™️" 2122-FE0F
     84831, // "ℹ"
     84831, // "ℹ️" 2139-FE0F
@@ -455,7 +455,7 @@ fn find_arrows(cluster: &str, limit: u32) -> Option<(usize, usize)> {
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_ARROWS
-const HASH_ARROWS: [u32; 16] = [
+static HASH_ARROWS: [u32; 16] = [
     0x03C35D48,  // "↗️" 2197-FE0F
     0x2419F05C,  // "↗"
     0x2F4DA40C,  // "↙"
@@ -475,7 +475,7 @@ const HASH_ARROWS: [u32; 16] = [
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_ARROWS
-const OFFSET_ARROWS: [usize; 16] = [
+static OFFSET_ARROWS: [usize; 16] = [
     84960, // "↗️" 2197-FE0F
     84960, // "↗"
     85025, // "↙"
@@ -505,7 +505,7 @@ fn find_miscellaneous_technical(cluster: &str, limit: u32) -> Option<(usize, usi
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_MISCELLANEOUS_TECHNICAL
-const HASH_MISCELLANEOUS_TECHNICAL: [u32; 33] = [
+static HASH_MISCELLANEOUS_TECHNICAL: [u32; 33] = [
     0x05FFBB41,  // "⏪"
     0x0742DC77,  // "⏩"
     0x107CEC26,  // "⏸"
@@ -542,7 +542,7 @@ const HASH_MISCELLANEOUS_TECHNICAL: [u32; 33] = [
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_MISCELLANEOUS_TECHNICAL
-const OFFSET_MISCELLANEOUS_TECHNICAL: [usize; 33] = [
+static OFFSET_MISCELLANEOUS_TECHNICAL: [usize; 33] = [
     85283, // "⏪"
     85250, // "⏩"
     85583, // "⏸"
@@ -589,13 +589,13 @@ fn find_enclosed_alphanumerics(cluster: &str, limit: u32) -> Option<(usize, usiz
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_ENCLOSED_ALPHANUMERICS
-const HASH_ENCLOSED_ALPHANUMERICS: [u32; 2] = [
+static HASH_ENCLOSED_ALPHANUMERICS: [u32; 2] = [
     0xA932CDE6,  // "Ⓜ️" 24C2-FE0F
     0xD30E07EB,  // "Ⓜ"
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_ENCLOSED_ALPHANUMERICS
-const OFFSET_ENCLOSED_ALPHANUMERICS: [usize; 2] = [
+static OFFSET_ENCLOSED_ALPHANUMERICS: [usize; 2] = [
     85680, // "Ⓜ️" 24C2-FE0F
     85680, // "Ⓜ"
 ];
@@ -611,7 +611,7 @@ fn find_geometric_shapes(cluster: &str, limit: u32) -> Option<(usize, usize)> {
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_GEOMETRIC_SHAPES
-const HASH_GEOMETRIC_SHAPES: [u32; 16] = [
+static HASH_GEOMETRIC_SHAPES: [u32; 16] = [
     0x0A290CDE,  // "◼️" 25FC-FE0F
     0x22FE882B,  // "▪"
     0x2613B7FD,  // "◽"
@@ -631,7 +631,7 @@ const HASH_GEOMETRIC_SHAPES: [u32; 16] = [
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_GEOMETRIC_SHAPES
-const OFFSET_GEOMETRIC_SHAPES: [usize; 16] = [
+static OFFSET_GEOMETRIC_SHAPES: [usize; 16] = [
     85812, // "◼️" 25FC-FE0F
     85712, // "▪"
     85835, // "◽"
@@ -661,7 +661,7 @@ fn find_miscellaneous_symbols(cluster: &str, limit: u32) -> Option<(usize, usize
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_MISCELLANEOUS_SYMBOLS
-const HASH_MISCELLANEOUS_SYMBOLS: [u32; 192] = [
+static HASH_MISCELLANEOUS_SYMBOLS: [u32; 192] = [
     0x00DABFFB,  // "♐️" 2650-FE0F
     0x019074A9,  // "⛹🏿\u200d♂️" 26F9-1F3FF-200D-2642-FE0F
     0x0453680C,  // "♂️" 2642-FE0F
@@ -857,7 +857,7 @@ const HASH_MISCELLANEOUS_SYMBOLS: [u32; 192] = [
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_MISCELLANEOUS_SYMBOLS
-const OFFSET_MISCELLANEOUS_SYMBOLS: [usize; 192] = [
+static OFFSET_MISCELLANEOUS_SYMBOLS: [usize; 192] = [
     86897, // "♐️" 2650-FE0F
     88865, // "⛹🏿\u200d♂️" 26F9-1F3FF-200D-2642-FE0F
     86606, // "♂️" 2642-FE0F
@@ -1063,7 +1063,7 @@ fn find_dingbats(cluster: &str, limit: u32) -> Option<(usize, usize)> {
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_DINGBATS
-const HASH_DINGBATS: [u32; 73] = [
+static HASH_DINGBATS: [u32; 73] = [
     0x04181FFC,  // "➰"
     0x0E875CC7,  // "✍🏻" 270D-1F3FB
     0x109EBC40,  // "✋🏾" 270B-1F3FE
@@ -1140,7 +1140,7 @@ const HASH_DINGBATS: [u32; 73] = [
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_DINGBATS
-const OFFSET_DINGBATS: [usize; 73] = [
+static OFFSET_DINGBATS: [usize; 73] = [
     90345, // "➰"
     89596, // "✍🏻" 270D-1F3FB
     89411, // "✋🏾" 270B-1F3FE
@@ -1227,7 +1227,7 @@ fn find_supplemental_arrows_b(cluster: &str, limit: u32) -> Option<(usize, usize
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_SUPPLEMENTAL_ARROWS_B
-const HASH_SUPPLEMENTAL_ARROWS_B: [u32; 4] = [
+static HASH_SUPPLEMENTAL_ARROWS_B: [u32; 4] = [
     0x9A705AEA,  // "⤵️" 2935-FE0F
     0xAA137D17,  // "⤴"
     0xBAA3370F,  // "⤵"
@@ -1235,7 +1235,7 @@ const HASH_SUPPLEMENTAL_ARROWS_B: [u32; 4] = [
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_SUPPLEMENTAL_ARROWS_B
-const OFFSET_SUPPLEMENTAL_ARROWS_B: [usize; 4] = [
+static OFFSET_SUPPLEMENTAL_ARROWS_B: [usize; 4] = [
     90428, // "⤵️" 2935-FE0F
     90395, // "⤴"
     90428, // "⤵"
@@ -1253,7 +1253,7 @@ fn find_miscellaneous_symbols_and_arrows(cluster: &str, limit: u32) -> Option<(u
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_MISCELLANEOUS_SYMBOLS_AND_ARROWS
-const HASH_MISCELLANEOUS_SYMBOLS_AND_ARROWS: [u32; 14] = [
+static HASH_MISCELLANEOUS_SYMBOLS_AND_ARROWS: [u32; 14] = [
     0x03354678,  // "⬆"
     0x67B8E222,  // "⬛"
     0x6A74875D,  // "⬇"
@@ -1271,7 +1271,7 @@ const HASH_MISCELLANEOUS_SYMBOLS_AND_ARROWS: [u32; 14] = [
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_MISCELLANEOUS_SYMBOLS_AND_ARROWS
-const OFFSET_MISCELLANEOUS_SYMBOLS_AND_ARROWS: [usize; 14] = [
+static OFFSET_MISCELLANEOUS_SYMBOLS_AND_ARROWS: [usize; 14] = [
     90525, // "⬆"
     90589, // "⬛"
     90557, // "⬇"
@@ -1299,7 +1299,7 @@ fn find_cjk_symbols_and_punctuation(cluster: &str, limit: u32) -> Option<(usize,
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_CJK_SYMBOLS_AND_PUNCTUATION
-const HASH_CJK_SYMBOLS_AND_PUNCTUATION: [u32; 4] = [
+static HASH_CJK_SYMBOLS_AND_PUNCTUATION: [u32; 4] = [
     0x8237E8AC,  // "〰"
     0xB2CC2921,  // "〰️" 3030-FE0F
     0xB69C75CA,  // "〽️" 303D-FE0F
@@ -1307,7 +1307,7 @@ const HASH_CJK_SYMBOLS_AND_PUNCTUATION: [u32; 4] = [
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_CJK_SYMBOLS_AND_PUNCTUATION
-const OFFSET_CJK_SYMBOLS_AND_PUNCTUATION: [usize; 4] = [
+static OFFSET_CJK_SYMBOLS_AND_PUNCTUATION: [usize; 4] = [
     90742, // "〰"
     90742, // "〰️" 3030-FE0F
     90752, // "〽️" 303D-FE0F
@@ -1325,7 +1325,7 @@ fn find_enclosed_cjk_letters_and_months(cluster: &str, limit: u32) -> Option<(us
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_ENCLOSED_CJK_LETTERS_AND_MONTHS
-const HASH_ENCLOSED_CJK_LETTERS_AND_MONTHS: [u32; 4] = [
+static HASH_ENCLOSED_CJK_LETTERS_AND_MONTHS: [u32; 4] = [
     0x47B35CE1,  // "㊗"
     0x764C4E31,  // "㊗️" 3297-FE0F
     0x76EE2EB1,  // "㊙️" 3299-FE0F
@@ -1333,7 +1333,7 @@ const HASH_ENCLOSED_CJK_LETTERS_AND_MONTHS: [u32; 4] = [
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_ENCLOSED_CJK_LETTERS_AND_MONTHS
-const OFFSET_ENCLOSED_CJK_LETTERS_AND_MONTHS: [usize; 4] = [
+static OFFSET_ENCLOSED_CJK_LETTERS_AND_MONTHS: [usize; 4] = [
     90839, // "㊗"
     90839, // "㊗️" 3297-FE0F
     90871, // "㊙️" 3299-FE0F
@@ -1351,12 +1351,12 @@ fn find_private_use_area(cluster: &str, limit: u32) -> Option<(usize, usize)> {
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_PRIVATE_USE_AREA
-const HASH_PRIVATE_USE_AREA: [u32; 1] = [
+static HASH_PRIVATE_USE_AREA: [u32; 1] = [
     0xD1A64133,  // "\ue50a"
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_PRIVATE_USE_AREA
-const OFFSET_PRIVATE_USE_AREA: [usize; 1] = [
+static OFFSET_PRIVATE_USE_AREA: [usize; 1] = [
     91196, // "\ue50a"
 ];
 
@@ -1371,13 +1371,13 @@ fn find_mahjong_tiles(cluster: &str, limit: u32) -> Option<(usize, usize)> {
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_MAHJONG_TILES
-const HASH_MAHJONG_TILES: [u32; 2] = [
+static HASH_MAHJONG_TILES: [u32; 2] = [
     0x3A370578,  // "🀄️" 1F004-FE0F
     0x81CB1E6B,  // "🀄"
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_MAHJONG_TILES
-const OFFSET_MAHJONG_TILES: [usize; 2] = [
+static OFFSET_MAHJONG_TILES: [usize; 2] = [
     0,    // "🀄️" 1F004-FE0F
     0,    // "🀄"
 ];
@@ -1393,12 +1393,12 @@ fn find_playing_cards(cluster: &str, limit: u32) -> Option<(usize, usize)> {
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_PLAYING_CARDS
-const HASH_PLAYING_CARDS: [u32; 1] = [
+static HASH_PLAYING_CARDS: [u32; 1] = [
     0x77DD1D57,  // "🃏"
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_PLAYING_CARDS
-const OFFSET_PLAYING_CARDS: [usize; 1] = [
+static OFFSET_PLAYING_CARDS: [usize; 1] = [
     24,   // "🃏"
 ];
 
@@ -1413,7 +1413,7 @@ fn find_enclosed_alphanumeric_supplement(cluster: &str, limit: u32) -> Option<(u
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_ENCLOSED_ALPHANUMERIC_SUPPLEMENT
-const HASH_ENCLOSED_ALPHANUMERIC_SUPPLEMENT: [u32; 303] = [
+static HASH_ENCLOSED_ALPHANUMERIC_SUPPLEMENT: [u32; 303] = [
     0x00FBB95E,  // "🇲🇱" 1F1F2-1F1F1
     0x02ADA3E8,  // "🇪🇷" 1F1EA-1F1F7
     0x035FAE53,  // "🇹🇨" 1F1F9-1F1E8
@@ -1720,7 +1720,7 @@ const HASH_ENCLOSED_ALPHANUMERIC_SUPPLEMENT: [u32; 303] = [
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_ENCLOSED_ALPHANUMERIC_SUPPLEMENT
-const OFFSET_ENCLOSED_ALPHANUMERIC_SUPPLEMENT: [usize; 303] = [
+static OFFSET_ENCLOSED_ALPHANUMERIC_SUPPLEMENT: [usize; 303] = [
     4498, // "🇲🇱" 1F1F2-1F1F1
     2334, // "🇪🇷" 1F1EA-1F1F7
     6402, // "🇹🇨" 1F1F9-1F1E8
@@ -2037,7 +2037,7 @@ fn find_enclosed_ideographic_supplement(cluster: &str, limit: u32) -> Option<(us
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_ENCLOSED_IDEOGRAPHIC_SUPPLEMENT
-const HASH_ENCLOSED_IDEOGRAPHIC_SUPPLEMENT: [u32; 19] = [
+static HASH_ENCLOSED_IDEOGRAPHIC_SUPPLEMENT: [u32; 19] = [
     0x0BC20A8B,  // "🈚️" 1F21A-FE0F
     0x192420BE,  // "🈂️" 1F202-FE0F
     0x1EB97748,  // "🈶"
@@ -2060,7 +2060,7 @@ const HASH_ENCLOSED_IDEOGRAPHIC_SUPPLEMENT: [u32; 19] = [
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_ENCLOSED_IDEOGRAPHIC_SUPPLEMENT
-const OFFSET_ENCLOSED_IDEOGRAPHIC_SUPPLEMENT: [usize; 19] = [
+static OFFSET_ENCLOSED_IDEOGRAPHIC_SUPPLEMENT: [usize; 19] = [
     7598, // "🈚️" 1F21A-FE0F
     7565, // "🈂️" 1F202-FE0F
     7791, // "🈶"
@@ -2093,7 +2093,7 @@ fn find_miscellaneous_symbols_and_pictographs(cluster: &str, limit: u32) -> Opti
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_MISCELLANEOUS_SYMBOLS_AND_PICTOGRAPHS
-const HASH_MISCELLANEOUS_SYMBOLS_AND_PICTOGRAPHS: [u32; 1648] = [
+static HASH_MISCELLANEOUS_SYMBOLS_AND_PICTOGRAPHS: [u32; 1648] = [
     0x006F2752,  // "🕵️\u200d♀️" 1F575-FE0F-200D-2640-FE0F
     0x00C3C87B,  // "🕗"
     0x010EE9BE,  // "👨🏼\u200d🤝\u200d👨🏿" 1F468-1F3FC-200D-1F91D-200D-1F468-1F3FF
@@ -3745,7 +3745,7 @@ const HASH_MISCELLANEOUS_SYMBOLS_AND_PICTOGRAPHS: [u32; 1648] = [
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_MISCELLANEOUS_SYMBOLS_AND_PICTOGRAPHS
-const OFFSET_MISCELLANEOUS_SYMBOLS_AND_PICTOGRAPHS: [usize; 1648] = [
+static OFFSET_MISCELLANEOUS_SYMBOLS_AND_PICTOGRAPHS: [usize; 1648] = [
     47478, // "🕵️\u200d♀️" 1F575-FE0F-200D-2640-FE0F
     46271, // "🕗"
     24136, // "👨🏼\u200d🤝\u200d👨🏿" 1F468-1F3FC-200D-1F91D-200D-1F468-1F3FF
@@ -5407,7 +5407,7 @@ fn find_emoticons(cluster: &str, limit: u32) -> Option<(usize, usize)> {
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_EMOTICONS
-const HASH_EMOTICONS: [u32; 193] = [
+static HASH_EMOTICONS: [u32; 193] = [
     0x00170CDD,  // "🙍🏿" 1F64D-1F3FF
     0x0038911A,  // "🙇🏾" 1F647-1F3FE
     0x009569B3,  // "😄"
@@ -5604,7 +5604,7 @@ const HASH_EMOTICONS: [u32; 193] = [
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_EMOTICONS
-const OFFSET_EMOTICONS: [usize; 193] = [
+static OFFSET_EMOTICONS: [usize; 193] = [
     54002, // "🙍🏿" 1F64D-1F3FF
     52695, // "🙇🏾" 1F647-1F3FE
     49201, // "😄"
@@ -5811,7 +5811,7 @@ fn find_transport_and_map_symbols(cluster: &str, limit: u32) -> Option<(usize, u
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_TRANSPORT_AND_MAP_SYMBOLS
-const HASH_TRANSPORT_AND_MAP_SYMBOLS: [u32; 202] = [
+static HASH_TRANSPORT_AND_MAP_SYMBOLS: [u32; 202] = [
     0x008770F4,  // "🚑️" 1F691-FE0F
     0x025FC370,  // "🚼"
     0x03CFF866,  // "🚵🏽\u200d♂️" 1F6B5-1F3FD-200D-2642-FE0F
@@ -6017,7 +6017,7 @@ const HASH_TRANSPORT_AND_MAP_SYMBOLS: [u32; 202] = [
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_TRANSPORT_AND_MAP_SYMBOLS
-const OFFSET_TRANSPORT_AND_MAP_SYMBOLS: [usize; 202] = [
+static OFFSET_TRANSPORT_AND_MAP_SYMBOLS: [usize; 202] = [
     55183, // "🚑️" 1F691-FE0F
     58169, // "🚼"
     57380, // "🚵🏽\u200d♂️" 1F6B5-1F3FD-200D-2642-FE0F
@@ -6233,7 +6233,7 @@ fn find_geometric_shapes_extended(cluster: &str, limit: u32) -> Option<(usize, u
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_GEOMETRIC_SHAPES_EXTENDED
-const HASH_GEOMETRIC_SHAPES_EXTENDED: [u32; 12] = [
+static HASH_GEOMETRIC_SHAPES_EXTENDED: [u32; 12] = [
     0x32CD13F1,  // "🟪"
     0x4C5F3E6C,  // "🟦"
     0x63EA2614,  // "🟥"
@@ -6249,7 +6249,7 @@ const HASH_GEOMETRIC_SHAPES_EXTENDED: [u32; 12] = [
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_GEOMETRIC_SHAPES_EXTENDED
-const OFFSET_GEOMETRIC_SHAPES_EXTENDED: [usize; 12] = [
+static OFFSET_GEOMETRIC_SHAPES_EXTENDED: [usize; 12] = [
     59904, // "🟪"
     59777, // "🟦"
     59744, // "🟥"
@@ -6275,7 +6275,7 @@ fn find_supplemental_symbols_and_pictographs(cluster: &str, limit: u32) -> Optio
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_SUPPLEMENTAL_SYMBOLS_AND_PICTOGRAPHS
-const HASH_SUPPLEMENTAL_SYMBOLS_AND_PICTOGRAPHS: [u32; 882] = [
+static HASH_SUPPLEMENTAL_SYMBOLS_AND_PICTOGRAPHS: [u32; 882] = [
     0x0057BCF3,  // "🧜🏽" 1F9DC-1F3FD
     0x00810C43,  // "🧎"
     0x00967A73,  // "🤦🏻\u200d♂️" 1F926-1F3FB-200D-2642-FE0F
@@ -7161,7 +7161,7 @@ const HASH_SUPPLEMENTAL_SYMBOLS_AND_PICTOGRAPHS: [u32; 882] = [
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_SUPPLEMENTAL_SYMBOLS_AND_PICTOGRAPHS
-const OFFSET_SUPPLEMENTAL_SYMBOLS_AND_PICTOGRAPHS: [usize; 882] = [
+static OFFSET_SUPPLEMENTAL_SYMBOLS_AND_PICTOGRAPHS: [usize; 882] = [
     81529, // "🧜🏽" 1F9DC-1F3FD
     72092, // "🧎"
     61767, // "🤦🏻\u200d♂️" 1F926-1F3FB-200D-2642-FE0F
@@ -8057,7 +8057,7 @@ fn find_symbols_and_pictographs_extended_a(cluster: &str, limit: u32) -> Option<
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_SYMBOLS_AND_PICTOGRAPHS_EXTENDED_A
-const HASH_SYMBOLS_AND_PICTOGRAPHS_EXTENDED_A: [u32; 57] = [
+static HASH_SYMBOLS_AND_PICTOGRAPHS_EXTENDED_A: [u32; 57] = [
     0x0296B2E3,  // "🪵"
     0x049BBC67,  // "🪤"
     0x0524762A,  // "🩳"
@@ -8118,7 +8118,7 @@ const HASH_SYMBOLS_AND_PICTOGRAPHS_EXTENDED_A: [u32; 57] = [
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_SYMBOLS_AND_PICTOGRAPHS_EXTENDED_A
-const OFFSET_SYMBOLS_AND_PICTOGRAPHS_EXTENDED_A: [usize; 57] = [
+static OFFSET_SYMBOLS_AND_PICTOGRAPHS_EXTENDED_A: [usize; 57] = [
     84459, // "🪵"
     84185, // "🪤"
     83340, // "🩳"
@@ -8188,7 +8188,7 @@ const OFFSET_SYMBOLS_AND_PICTOGRAPHS_EXTENDED_A: [usize; 57] = [
 ///  h: Height of pattern in pixels
 ///  yOffset: Vertical offset (pixels downward from top of line) to position
 ///     glyph pattern properly relative to text baseline
-pub const DATA: [u32; 91228] = [
+pub static DATA: [u32; 91228] = [
     // [0]: 1f004 "🀄"
     0x00171f01, 0x92492492, 0x49200000, 0x0492c924, 0x92492006, 0x00249649, 0x24924909, 0x30016db6,
     0x49e4b6ca, 0xc1870b25, 0x964b2492, 0x420c304b, 0x6cb24b6d, 0x92006902, 0x49649249, 0x24900300,
diff --git a/src/fonts/hanzi.rs b/src/fonts/hanzi.rs
index 9a609cc..fa3d3af 100644
--- a/src/fonts/hanzi.rs
+++ b/src/fonts/hanzi.rs
@@ -124,7 +124,7 @@ fn find_cjk_symbols_and_punctuation(cluster: &str, limit: u32) -> Option<(usize,
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_CJK_SYMBOLS_AND_PUNCTUATION
-const HASH_CJK_SYMBOLS_AND_PUNCTUATION: [u32; 32] = [
+static HASH_CJK_SYMBOLS_AND_PUNCTUATION: [u32; 32] = [
     0x07EF7078,  // "、"
     0x18FFC9D3,  // "〞"
     0x20043384,  // "』"
@@ -160,7 +160,7 @@ const HASH_CJK_SYMBOLS_AND_PUNCTUATION: [u32; 32] = [
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_CJK_SYMBOLS_AND_PUNCTUATION
-const OFFSET_CJK_SYMBOLS_AND_PUNCTUATION: [usize; 32] = [
+static OFFSET_CJK_SYMBOLS_AND_PUNCTUATION: [usize; 32] = [
     272250, // "、"
     273207, // "〞"
     272712, // "』"
@@ -206,7 +206,7 @@ fn find_cjk_unified_ideographs_extension_a(cluster: &str, limit: u32) -> Option<
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_CJK_UNIFIED_IDEOGRAPHS_EXTENSION_A
-const HASH_CJK_UNIFIED_IDEOGRAPHS_EXTENSION_A: [u32; 81] = [
+static HASH_CJK_UNIFIED_IDEOGRAPHS_EXTENSION_A: [u32; 81] = [
     0x00819189,  // "䎃"
     0x012B2EAA,  // "㛹"
     0x02662AF0,  // "㫰"
@@ -291,7 +291,7 @@ const HASH_CJK_UNIFIED_IDEOGRAPHS_EXTENSION_A: [u32; 81] = [
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_CJK_UNIFIED_IDEOGRAPHS_EXTENSION_A
-const OFFSET_CJK_UNIFIED_IDEOGRAPHS_EXTENSION_A: [usize; 81] = [
+static OFFSET_CJK_UNIFIED_IDEOGRAPHS_EXTENSION_A: [usize; 81] = [
     1452, // "䎃"
     297,  // "㛹"
     594,  // "㫰"
@@ -386,7 +386,7 @@ fn find_cjk_unified_ideographs(cluster: &str, limit: u32) -> Option<(usize, usiz
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_CJK_UNIFIED_IDEOGRAPHS
-const HASH_CJK_UNIFIED_IDEOGRAPHS: [u32; 7972] = [
+static HASH_CJK_UNIFIED_IDEOGRAPHS: [u32; 7972] = [
     0x000033FD,  // "瑟"
     0x000E1F07,  // "滍"
     0x00121B2E,  // "潇"
@@ -8362,7 +8362,7 @@ const HASH_CJK_UNIFIED_IDEOGRAPHS: [u32; 7972] = [
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_CJK_UNIFIED_IDEOGRAPHS
-const OFFSET_CJK_UNIFIED_IDEOGRAPHS: [usize; 7972] = [
+static OFFSET_CJK_UNIFIED_IDEOGRAPHS: [usize; 7972] = [
     139887, // "瑟"
     122199, // "滍"
     123915, // "潇"
@@ -16348,7 +16348,7 @@ fn find_halfwidth_and_fullwidth_forms(cluster: &str, limit: u32) -> Option<(usiz
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_HALFWIDTH_AND_FULLWIDTH_FORMS
-const HASH_HALFWIDTH_AND_FULLWIDTH_FORMS: [u32; 96] = [
+static HASH_HALFWIDTH_AND_FULLWIDTH_FORMS: [u32; 96] = [
     0x04303576,  // "＾"
     0x04AA89C6,  // "ｃ"
     0x06C61905,  // "｠"
@@ -16448,7 +16448,7 @@ const HASH_HALFWIDTH_AND_FULLWIDTH_FORMS: [u32; 96] = [
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_HALFWIDTH_AND_FULLWIDTH_FORMS
-const OFFSET_HALFWIDTH_AND_FULLWIDTH_FORMS: [usize; 96] = [
+static OFFSET_HALFWIDTH_AND_FULLWIDTH_FORMS: [usize; 96] = [
     275286, // "＾"
     275451, // "ｃ"
     276408, // "｠"
@@ -16558,7 +16558,7 @@ fn find_cjk_unified_ideographs_extension_b(cluster: &str, limit: u32) -> Option<
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_CJK_UNIFIED_IDEOGRAPHS_EXTENSION_B
-const HASH_CJK_UNIFIED_IDEOGRAPHS_EXTENSION_B: [u32; 36] = [
+static HASH_CJK_UNIFIED_IDEOGRAPHS_EXTENSION_B: [u32; 36] = [
     0x058DFA83,  // "𨱔"
     0x089F6681,  // "𦈡"
     0x091F0A6A,  // "𦝼"
@@ -16598,7 +16598,7 @@ const HASH_CJK_UNIFIED_IDEOGRAPHS_EXTENSION_B: [u32; 36] = [
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_CJK_UNIFIED_IDEOGRAPHS_EXTENSION_B
-const OFFSET_CJK_UNIFIED_IDEOGRAPHS_EXTENSION_B: [usize; 36] = [
+static OFFSET_CJK_UNIFIED_IDEOGRAPHS_EXTENSION_B: [usize; 36] = [
     266772, // "𨱔"
     266277, // "𦈡"
     266376, // "𦝼"
@@ -16648,7 +16648,7 @@ fn find_cjk_unified_ideographs_extension_c(cluster: &str, limit: u32) -> Option<
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_CJK_UNIFIED_IDEOGRAPHS_EXTENSION_C
-const HASH_CJK_UNIFIED_IDEOGRAPHS_EXTENSION_C: [u32; 44] = [
+static HASH_CJK_UNIFIED_IDEOGRAPHS_EXTENSION_C: [u32; 44] = [
     0x073FBCB3,  // "𫖮"
     0x09581F57,  // "𪤗"
     0x0C2A57E9,  // "𫓹"
@@ -16696,7 +16696,7 @@ const HASH_CJK_UNIFIED_IDEOGRAPHS_EXTENSION_C: [u32; 44] = [
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_CJK_UNIFIED_IDEOGRAPHS_EXTENSION_C
-const OFFSET_CJK_UNIFIED_IDEOGRAPHS_EXTENSION_C: [usize; 44] = [
+static OFFSET_CJK_UNIFIED_IDEOGRAPHS_EXTENSION_C: [usize; 44] = [
     267861, // "𫖮"
     267003, // "𪤗"
     267729, // "𫓹"
@@ -16754,7 +16754,7 @@ fn find_cjk_unified_ideographs_extension_d(cluster: &str, limit: u32) -> Option<
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_CJK_UNIFIED_IDEOGRAPHS_EXTENSION_D
-const HASH_CJK_UNIFIED_IDEOGRAPHS_EXTENSION_D: [u32; 8] = [
+static HASH_CJK_UNIFIED_IDEOGRAPHS_EXTENSION_D: [u32; 8] = [
     0x1BE67541,  // "𫟹"
     0x38F37092,  // "𫠊"
     0x4A97D4DA,  // "𫟅"
@@ -16766,7 +16766,7 @@ const HASH_CJK_UNIFIED_IDEOGRAPHS_EXTENSION_D: [u32; 8] = [
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_CJK_UNIFIED_IDEOGRAPHS_EXTENSION_D
-const OFFSET_CJK_UNIFIED_IDEOGRAPHS_EXTENSION_D: [usize; 8] = [
+static OFFSET_CJK_UNIFIED_IDEOGRAPHS_EXTENSION_D: [usize; 8] = [
     268488, // "𫟹"
     268587, // "𫠊"
     268422, // "𫟅"
@@ -16788,7 +16788,7 @@ fn find_cjk_unified_ideographs_extension_e(cluster: &str, limit: u32) -> Option<
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_CJK_UNIFIED_IDEOGRAPHS_EXTENSION_E
-const HASH_CJK_UNIFIED_IDEOGRAPHS_EXTENSION_E: [u32; 108] = [
+static HASH_CJK_UNIFIED_IDEOGRAPHS_EXTENSION_E: [u32; 108] = [
     0x010A7FBB,  // "𬬭"
     0x034CBCEE,  // "𬱖"
     0x068BCCF9,  // "𬬸"
@@ -16900,7 +16900,7 @@ const HASH_CJK_UNIFIED_IDEOGRAPHS_EXTENSION_E: [u32; 108] = [
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_CJK_UNIFIED_IDEOGRAPHS_EXTENSION_E
-const OFFSET_CJK_UNIFIED_IDEOGRAPHS_EXTENSION_E: [usize; 108] = [
+static OFFSET_CJK_UNIFIED_IDEOGRAPHS_EXTENSION_E: [usize; 108] = [
     270534, // "𬬭"
     271326, // "𬱖"
     270633, // "𬬸"
@@ -17021,7 +17021,7 @@ const OFFSET_CJK_UNIFIED_IDEOGRAPHS_EXTENSION_E: [usize; 108] = [
 ///  h: Height of pattern in pixels
 ///  yOffset: Vertical offset (pixels downward from top of line) to position
 ///     glyph pattern properly relative to text baseline
-pub const DATA: [u32; 276441] = [
+pub static DATA: [u32; 276441] = [
     // [0]: 3447 "㑇"
     0x00202000, 0x00000000, 0x00000000, 0x00000000, 0x00018300, 0x00018380, 0x0001c380, 0x00ffc180,
     0x00ffe1c0, 0x00e070c0, 0x007070e0, 0x007038e0, 0x00381cf0, 0x00180ef8, 0x01fffcfc, 0x01fff8fc,
diff --git a/src/fonts/regular.rs b/src/fonts/regular.rs
index 64cd7f3..8f638b1 100644
--- a/src/fonts/regular.rs
+++ b/src/fonts/regular.rs
@@ -98,7 +98,7 @@ fn find_basic_latin(cluster: &str, limit: u32) -> Option<(usize, usize)> {
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_BASIC_LATIN
-const HASH_BASIC_LATIN: [u32; 148] = [
+static HASH_BASIC_LATIN: [u32; 148] = [
     0x0323CD4F,  // "ë" 65-308
     0x049BF55E,  // "}"
     0x0537C05E,  // "È" 45-300
@@ -250,7 +250,7 @@ const HASH_BASIC_LATIN: [u32; 148] = [
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_BASIC_LATIN
-const OFFSET_BASIC_LATIN: [usize; 148] = [
+static OFFSET_BASIC_LATIN: [usize; 148] = [
     1175, // "ë" 65-308
     597,  // "}"
     884,  // "È" 45-300
@@ -412,7 +412,7 @@ fn find_latin_1_supplement(cluster: &str, limit: u32) -> Option<(usize, usize)>
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_LATIN_1_SUPPLEMENT
-const HASH_LATIN_1_SUPPLEMENT: [u32; 96] = [
+static HASH_LATIN_1_SUPPLEMENT: [u32; 96] = [
     0x00EAC56E,  // "°"
     0x0254FD66,  // "®"
     0x056DE9E6,  // "Î"
@@ -512,7 +512,7 @@ const HASH_LATIN_1_SUPPLEMENT: [u32; 96] = [
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_LATIN_1_SUPPLEMENT
-const OFFSET_LATIN_1_SUPPLEMENT: [usize; 96] = [
+static OFFSET_LATIN_1_SUPPLEMENT: [usize; 96] = [
     690,  // "°"
     679,  // "®"
     927,  // "Î"
@@ -622,13 +622,13 @@ fn find_latin_extended_a(cluster: &str, limit: u32) -> Option<(usize, usize)> {
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_LATIN_EXTENDED_A
-const HASH_LATIN_EXTENDED_A: [u32; 2] = [
+static HASH_LATIN_EXTENDED_A: [u32; 2] = [
     0x1A01594C,  // "Œ"
     0x8C60DA30,  // "œ"
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_LATIN_EXTENDED_A
-const OFFSET_LATIN_EXTENDED_A: [usize; 2] = [
+static OFFSET_LATIN_EXTENDED_A: [usize; 2] = [
     1327, // "Œ"
     1340, // "œ"
 ];
@@ -644,7 +644,7 @@ fn find_general_punctuation(cluster: &str, limit: u32) -> Option<(usize, usize)>
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_GENERAL_PUNCTUATION
-const HASH_GENERAL_PUNCTUATION: [u32; 11] = [
+static HASH_GENERAL_PUNCTUATION: [u32; 11] = [
     0x0D0042B1,  // "•"
     0x18E68A7D,  // "‚"
     0x372ED469,  // "“"
@@ -659,7 +659,7 @@ const HASH_GENERAL_PUNCTUATION: [u32; 11] = [
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_GENERAL_PUNCTUATION
-const OFFSET_GENERAL_PUNCTUATION: [usize; 11] = [
+static OFFSET_GENERAL_PUNCTUATION: [usize; 11] = [
     1384, // "•"
     1353, // "‚"
     1357, // "“"
@@ -684,12 +684,12 @@ fn find_currency_symbols(cluster: &str, limit: u32) -> Option<(usize, usize)> {
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_CURRENCY_SYMBOLS
-const HASH_CURRENCY_SYMBOLS: [u32; 1] = [
+static HASH_CURRENCY_SYMBOLS: [u32; 1] = [
     0x1ACA36BB,  // "€"
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_CURRENCY_SYMBOLS
-const OFFSET_CURRENCY_SYMBOLS: [usize; 1] = [
+static OFFSET_CURRENCY_SYMBOLS: [usize; 1] = [
     1390, // "€"
 ];
 
@@ -704,12 +704,12 @@ fn find_specials(cluster: &str, limit: u32) -> Option<(usize, usize)> {
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_SPECIALS
-const HASH_SPECIALS: [u32; 1] = [
+static HASH_SPECIALS: [u32; 1] = [
     0x58A5DA35,  // "�"
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_SPECIALS
-const OFFSET_SPECIALS: [usize; 1] = [
+static OFFSET_SPECIALS: [usize; 1] = [
     1399, // "�"
 ];
 
@@ -723,7 +723,7 @@ const OFFSET_SPECIALS: [usize; 1] = [
 ///  h: Height of pattern in pixels
 ///  yOffset: Vertical offset (pixels downward from top of line) to position
 ///     glyph pattern properly relative to text baseline
-pub const DATA: [u32; 1412] = [
+pub static DATA: [u32; 1412] = [
     // [0]: 20 " "
     0x0004020e, 0x00000000,
     // [2]: 21 "!"
diff --git a/src/fonts/small.rs b/src/fonts/small.rs
index 5def4e2..e3eec0f 100644
--- a/src/fonts/small.rs
+++ b/src/fonts/small.rs
@@ -98,7 +98,7 @@ fn find_basic_latin(cluster: &str, limit: u32) -> Option<(usize, usize)> {
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_BASIC_LATIN
-const HASH_BASIC_LATIN: [u32; 148] = [
+static HASH_BASIC_LATIN: [u32; 148] = [
     0x0323CD4F,  // "ë" 65-308
     0x049BF55E,  // "}"
     0x0537C05E,  // "È" 45-300
@@ -250,7 +250,7 @@ const HASH_BASIC_LATIN: [u32; 148] = [
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_BASIC_LATIN
-const OFFSET_BASIC_LATIN: [usize; 148] = [
+static OFFSET_BASIC_LATIN: [usize; 148] = [
     898,  // "ë" 65-308
     447,  // "}"
     682,  // "È" 45-300
@@ -412,7 +412,7 @@ fn find_latin_1_supplement(cluster: &str, limit: u32) -> Option<(usize, usize)>
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_LATIN_1_SUPPLEMENT
-const HASH_LATIN_1_SUPPLEMENT: [u32; 96] = [
+static HASH_LATIN_1_SUPPLEMENT: [u32; 96] = [
     0x00EAC56E,  // "°"
     0x0254FD66,  // "®"
     0x056DE9E6,  // "Î"
@@ -512,7 +512,7 @@ const HASH_LATIN_1_SUPPLEMENT: [u32; 96] = [
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_LATIN_1_SUPPLEMENT
-const OFFSET_LATIN_1_SUPPLEMENT: [usize; 96] = [
+static OFFSET_LATIN_1_SUPPLEMENT: [usize; 96] = [
     529,  // "°"
     518,  // "®"
     714,  // "Î"
@@ -622,13 +622,13 @@ fn find_latin_extended_a(cluster: &str, limit: u32) -> Option<(usize, usize)> {
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_LATIN_EXTENDED_A
-const HASH_LATIN_EXTENDED_A: [u32; 2] = [
+static HASH_LATIN_EXTENDED_A: [u32; 2] = [
     0x1A01594C,  // "Œ"
     0x8C60DA30,  // "œ"
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_LATIN_EXTENDED_A
-const OFFSET_LATIN_EXTENDED_A: [usize; 2] = [
+static OFFSET_LATIN_EXTENDED_A: [usize; 2] = [
     1004, // "Œ"
     1012, // "œ"
 ];
@@ -644,7 +644,7 @@ fn find_general_punctuation(cluster: &str, limit: u32) -> Option<(usize, usize)>
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_GENERAL_PUNCTUATION
-const HASH_GENERAL_PUNCTUATION: [u32; 11] = [
+static HASH_GENERAL_PUNCTUATION: [u32; 11] = [
     0x0D0042B1,  // "•"
     0x18E68A7D,  // "‚"
     0x372ED469,  // "“"
@@ -659,7 +659,7 @@ const HASH_GENERAL_PUNCTUATION: [u32; 11] = [
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_GENERAL_PUNCTUATION
-const OFFSET_GENERAL_PUNCTUATION: [usize; 11] = [
+static OFFSET_GENERAL_PUNCTUATION: [usize; 11] = [
     1046, // "•"
     1022, // "‚"
     1026, // "“"
@@ -684,12 +684,12 @@ fn find_currency_symbols(cluster: &str, limit: u32) -> Option<(usize, usize)> {
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_CURRENCY_SYMBOLS
-const HASH_CURRENCY_SYMBOLS: [u32; 1] = [
+static HASH_CURRENCY_SYMBOLS: [u32; 1] = [
     0x1ACA36BB,  // "€"
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_CURRENCY_SYMBOLS
-const OFFSET_CURRENCY_SYMBOLS: [usize; 1] = [
+static OFFSET_CURRENCY_SYMBOLS: [usize; 1] = [
     1051, // "€"
 ];
 
@@ -704,12 +704,12 @@ fn find_specials(cluster: &str, limit: u32) -> Option<(usize, usize)> {
 }
 
 /// Index of murmur3(grapheme cluster); sort matches OFFSET_SPECIALS
-const HASH_SPECIALS: [u32; 1] = [
+static HASH_SPECIALS: [u32; 1] = [
     0x58A5DA35,  // "�"
 ];
 
 /// Lookup table of blit pattern offsets; sort matches HASH_SPECIALS
-const OFFSET_SPECIALS: [usize; 1] = [
+static OFFSET_SPECIALS: [usize; 1] = [
     1058, // "�"
 ];
 
@@ -723,7 +723,7 @@ const OFFSET_SPECIALS: [usize; 1] = [
 ///  h: Height of pattern in pixels
 ///  yOffset: Vertical offset (pixels downward from top of line) to position
 ///     glyph pattern properly relative to text baseline
-pub const DATA: [u32; 1071] = [
+pub static DATA: [u32; 1071] = [
     // [0]: 20 " "
     0x0004020b, 0x00000000,
     // [2]: 21 "!"
-- 
2.43.0


//! A fixed enumeration of calls of the library, in groups, and their digests. The same code is
//! built for the host and for 32-bit WebAssembly in several build modes; gen/c20.py compares.
use blitstr::{clear_region, demo, glyph_to_height_hint, new_fr_buf, paint_str, ClipRect, Cursor, FrBuf, GlyphStyle, Pt};

pub struct Digest {
    h: u32,
    /// digest of every single operation, for pinning down a difference
    pub each: Option<u32>,
    pub n: u32,
    pub at: u32,
    pub what: String,
    want_text: bool,
}

const STYLES: [GlyphStyle; 3] = [GlyphStyle::Small, GlyphStyle::Regular, GlyphStyle::Bold];

fn mix(h: u32, v: u32) -> u32 {
    (h ^ v).wrapping_mul(0x9E37_79B1).rotate_left(13).wrapping_add(0x7F4A_7C15)
}

fn hash_fb(fb: &FrBuf) -> u32 {
    fb.iter().fold(1, |h, w| mix(h, *w))
}

impl Digest {
    fn num(&mut self, v: usize) {
        // every value here is below 2^32 on every target
        self.h = mix(self.h, v as u32);
        if v as u64 > u32::MAX as u64 {
            self.h = mix(self.h, 0xBAD);
        }
    }
    /// End of an operation
    fn end(&mut self, fb: Option<&FrBuf>, what: impl FnOnce() -> String) {
        if let Some(k) = self.each {
            if k == self.n {
                if let Some(fb) = fb {
                    let v = hash_fb(fb);
                    self.h = mix(self.h, v);
                }
                self.at = self.h;
                if self.want_text {
                    self.what = what();
                }
            }
        } else if self.n % 32 == 31 {
            if let Some(fb) = fb {
                let v = hash_fb(fb);
                self.h = mix(self.h, v);
            }
        }
        self.n += 1;
    }
    fn paint(&mut self, fb: &mut FrBuf, clip: ClipRect, cur: Cursor, st: GlyphStyle, s: &str) {
        let mut c = cur;
        paint_str(fb, clip, &mut c, st, s);
        self.num(c.pt.x);
        self.num(c.pt.y);
        self.num(c.line_height);
        self.end(Some(fb), || format!("paint_str(fb, {:?}, {:?}, {:?}, {:?})", clip, cur, st, s));
    }
    fn clear(&mut self, fb: &mut FrBuf, clip: ClipRect) {
        clear_region(fb, clip);
        self.end(Some(fb), || format!("clear_region(fb, {:?})", clip));
    }
}

fn rect(a: usize, b: usize, c: usize, d: usize) -> ClipRect {
    ClipRect { min: Pt { x: a, y: b }, max: Pt { x: c, y: d } }
}

const TEXTS: [&str; 24] = [
    "i", "W", " ", "\n", "g", "😸", "鹅", "\u{378}", "e\u{301}", "👩🏽‍🚀", "，", "\u{10FFFF}", "\u{301}", "ä", "Hello", "i\nW",
    "鹅鹅\n鹅", "a😸鹅", "\u{1F3FB}\u{200D}", "1\u{FE0F}\u{20E3}", "🇬🇧", "||||||||", "@@@@", "\u{E700}",
];
const XS: [usize; 23] = [0, 1, 2, 15, 30, 31, 32, 33, 63, 64, 95, 160, 287, 288, 300, 318, 319, 320, 333, 334, 335, 336, 337];
const YS: [usize; 15] = [0, 1, 2, 23, 24, 25, 100, 300, 504, 505, 512, 534, 535, 536, 537];
/// coordinates up to where sums still fit 32 bits
/// up to the end of 32 bits, with the ends of the signed numbers
const HUGE: [usize; 24] = [
    0, 5, 31, 300, 335, 336, 537, 0xFFFF, 0x10000, 0x7FFF_FF00, 0x7FFF_FFFE, 0x7FFF_FFFF, 0x8000_0000, 0x8000_0001, 0x8000_0020, 0xBFFF_FFFF,
    0xC000_0000, 0xFFFF_0000, 0xFFFF_FE00, 0xFFFF_FFC0, 0xFFFF_FFDF, 0xFFFF_FFE0, 0xFFFF_FFFE, 0xFFFF_FFFF,
];
const BIG: [usize; 13] = [0, 1, 31, 32, 335, 336, 337, 535, 536, 352, 65536, 0x3FFF_FFFF, 0x7FFF_0000];

const KINDS: [u32; 10] = [0x1100, 24, 23, 64, 13, 8, 3, 24 * 23, HUGE.len() as u32, 0x1100];

/// number of groups; quick: without the last kind
pub fn groups(quick: bool) -> u32 {
    KINDS[..if quick { 9 } else { 10 }].iter().sum()
}

/// Run group g; with each = Some(k), the digest is that of its kth operation
pub fn run(g: u32, each: Option<u32>, want_text: bool) -> Digest {
    let mut d = Digest { h: 7, each, n: 0, at: 0, what: String::new(), want_text };
    let mut fb = new_fr_buf();
    let full = ClipRect::full_screen();
    let mut g = g;
    let mut kind = 0;
    while kind < KINDS.len() && g >= KINDS[kind] {
        g -= KINDS[kind];
        kind += 1;
    }
    
    match kind {
        // every Unicode scalar value
        0 => {
            for cp in g * 256..g * 256 + 256 {
                let Some(c) = char::from_u32(cp) else { continue };
                let mut b = [0u8; 4];
                let s: &str = c.encode_utf8(&mut b);
                for (k, st) in STYLES.iter().enumerate() {
                    let x = (cp as usize * 7 + k * 11) % 330;
                    d.paint(&mut fb, full, Cursor::new(x, (cp as usize * 3) % 520, 0), *st, s);
                }
            }
        }
        // texts at every column and many rows
        1 => {
            let s = TEXTS[g as usize];
            for st in STYLES {
                for x in 0..345 {
                    for y in YS {
                        d.paint(&mut fb, full, Cursor::new(x, y, 0), st, s);
                    }
                }
            }
        }
        // clip rectangles
        2 => {
            let x0 = XS[g as usize];
            for x1 in XS {
                for y0 in YS {
                    for y1 in YS {
                        for k in 0..8 {
                            let q = x0 + x1 * 3 + y0 * 5 + y1 * 7 + k;
                            let clip = rect(x0, y0, x1, y1);
                            let cur = Cursor::new(XS[(q + k) % 23].max(if k & 1 == 0 { x0 } else { 0 }), YS[(q / 3) % 15].max(if k & 2 == 0 { y0 } else { 0 }), [0, 24, 40][k % 3]);
                            d.paint(&mut fb, clip, cur, STYLES[q % 3], TEXTS[(q * 5 + k) % 24]);
                        }
                        d.clear(&mut fb, rect(x0, y0, x1, y1));
                        demo_fill(&mut fb, x1 as u32);
                    }
                }
            }
        }
        // clearing: left edge and right edge modulo the word size
        3 => {
            for x1 in 0..345 {
                demo_fill(&mut fb, x1);
                let x0 = g as usize * 5 + (x1 as usize % 5);
                d.clear(&mut fb, rect(x0, 10, x1 as usize, 13));
                d.clear(&mut fb, ClipRect::new(x0, 534, x1 as usize, 540));
            }
        }
        // large coordinates
        4 => {
            let a = BIG[g as usize];
            for b in BIG {
                for c in BIG {
                    for e in BIG {
                        let clip = rect(a, b, c, e);
                        d.clear(&mut fb, clip);
                        demo_fill(&mut fb, 5);
                        let i = b / 3 + c / 7 + e;
                        d.paint(&mut fb, clip, Cursor::new(e, a, b), STYLES[i % 3], TEXTS[i % 24]);
                        d.paint(&mut fb, full, Cursor::new(a, b, e), STYLES[c % 3], TEXTS[i % 24]);
                        d.paint(&mut fb, rect(a.min(c), b.min(e), 336, 536), Cursor::new(a, b, e), STYLES[c % 3], "aW\n鹅😸");
                        let r = ClipRect::new(a, b, c, e);
                        for v in [r.min.x, r.min.y, r.max.x, r.max.y, Cursor::from_top_left_of(r).pt.x] {
                            d.num(v);
                        }
                        d.end(None, || format!("ClipRect::new({}, {}, {}, {})", a, b, c, e));
                    }
                }
            }
        }
        // long texts, wrapping until the screen is left
        5 => {
            for (i, s) in TEXTS.iter().enumerate() {
                let long = s.repeat(1 << g);
                for st in STYLES {
                    d.paint(&mut fb, ClipRect::padded_screen(), Cursor::new(6 + i, 6, 0), st, &long);
                    d.paint(&mut fb, rect(100, 100, 150, 400), Cursor::new(100, 100, 0), st, &long);
                }
            }
        }
        // texts at every position of the screen, a stripe of columns per group
        7 => {
            let s = TEXTS[g as usize % 24];
            for x in 0..15 {
                for y in 0..545 {
                    for st in STYLES {
                        let x = (g as usize / 24) * 15 + x;
                        d.paint(&mut fb, full, Cursor::new(x, y, 0), st, s);
                    }
                }
            }
        }
        // cursors and rectangles up to the end of 32 bits
        8 => {
            let x = HUGE[g as usize];
            for y in HUGE {
                for lh in HUGE {
                    for (k, clip) in [full, ClipRect::padded_screen(), rect(10, 20, 300, 500), rect(x, y, 336, 536), rect(0, y, lh, 536), rect(7, lh, 300, 400), rect(y, x, lh, y), rect(31, 0, x, 300)].into_iter().enumerate() {
                        let i = y / 3 + lh / 7 + k + g as usize;
                        for (j, s) in [TEXTS[i % 24], TEXTS[(i + 7) % 24], "aW\n鹅😸", "\n"].into_iter().enumerate() {
                            // the lines of the text end below 2^32, so that no sum depends on the word
                            if y as u64 + lh as u64 + 60 * (s.len() as u64 + 1) > u32::MAX as u64 && !(s.chars().count() == 1 && s != "\n" && y < 0xFFFF_FF00 && x < 200) {
                                continue;
                            }
                            d.paint(&mut fb, clip, Cursor { pt: Pt { x, y }, line_height: lh }, STYLES[(i + j) % 3], s);
                        }
                        d.clear(&mut fb, clip);
                        demo_fill(&mut fb, i as u32);
                        let r = ClipRect::new(x, y, lh, HUGE[(k * 3 + g as usize) % 24]);
                        for v in [r.min.x, r.min.y, r.max.x, r.max.y, Cursor::from_top_left_of(r).pt.x, Cursor::new(x, y, lh).line_height] {
                            d.num(v);
                        }
                    }
                }
            }
        }
        // every Unicode scalar value at every alignment
        9 => {
            for cp in g * 256..g * 256 + 256 {
                let Some(c) = char::from_u32(cp) else { continue };
                let mut b = [0u8; 4];
                let s: &str = c.encode_utf8(&mut b);
                for a in 0..32 {
                    let x = (cp as usize % 9) * 32 + a;
                    d.paint(&mut fb, full, Cursor::new(x, (cp as usize * 3) % 520, 0), STYLES[(cp as usize + a) % 3], s);
                }
            }
        }
        // demos, styles, constructors
        _ => {
            [demo::sample_text, demo::short_greeting, demo::goose_poem][g as usize](&mut fb);
            d.end(Some(&fb), || format!("demo {}", g));
            for n in 0..70000usize {
                let st = GlyphStyle::from(n);
                d.num(st as usize);
                d.num(st.into());
                d.num(glyph_to_height_hint(st));
                d.end(None, || format!("GlyphStyle::from({})", n));
            }
            for v in [full.min.x, full.max.x, full.max.y, ClipRect::padded_screen().max.x, ClipRect::padded_screen().max.y] {
                d.num(v);
            }
            d.end(None, || "constructors".into());
        }
    }
    let v = hash_fb(&fb);
    d.h = mix(d.h, v);
    if d.each.is_none() {
        d.at = d.h;
    }
    d
}

fn demo_fill(fb: &mut FrBuf, k: u32) {
    for (i, w) in fb.iter_mut().enumerate() {
        *w = (i as u32).wrapping_mul(0x9E37_79B1) ^ k;
    }
}

#[no_mangle]
pub extern "C" fn parity_groups() -> u32 {
    groups(false)
}
#[no_mangle]
pub extern "C" fn parity_digest(g: u32) -> u32 {
    run(g, None, false).at
}
#[no_mangle]
pub extern "C" fn parity_ops(g: u32) -> u32 {
    run(g, None, false).n
}
#[no_mangle]
pub extern "C" fn parity_op(g: u32, k: u32) -> u32 {
    run(g, Some(k), false).at
}

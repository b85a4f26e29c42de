//! Shared context of the judges: the reference oracle, plus the glyph shapes the library
//! really paints when nothing is clipped.
use crate::engine::*;
use crate::oracle::*;
use crate::spaces::Tier;
use blitstr::{ClipRect, Cursor, FrBuf, GlyphStyle, FRAME_BUF_SIZE, LINES, WIDTH, WORDS_PER_LINE};
use std::collections::{HashMap, HashSet};
use std::sync::Mutex;

pub struct Ctx {
    pub o: Oracle,
    pub tier: Tier,
    pub base2: Box<FrBuf>,
    /// known findings of the property being checked which were seen to fail
    pub seen: Mutex<HashSet<String>>,
    /// (style, cluster) -> shape the library paints at (64,100) on the full screen
    pub shapes: HashMap<(usize, String), Glyph>,
}

pub fn si(s: GlyphStyle) -> usize {
    STYLES.iter().position(|x| *x == s).unwrap()
}

impl Ctx {
    pub fn new(tier: Tier) -> Ctx {
        Ctx {
            o: Oracle::load("/repo/codegen"),
            tier,
            base2: Box::new(base_pattern(5)),
            seen: Mutex::new(HashSet::new()),
            shapes: HashMap::new(),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    /// Shapes of all clusters as painted by the library itself in the middle of the screen
    pub fn load_shapes(&mut self) {
        let full = ClipRect::full_screen();
        let mut fb = [0u32; FRAME_BUF_SIZE];
        let mut m = HashMap::new();
        for st in STYLES {
            for f in [latin_font(st), EMOJI, HANZI] {
                for (c, g) in &self.o.fonts[f].clusters {
                    let (tok, n) = self.o.next_token(st, c);
                    if tok != (Tok::Glyph { font: f, glyph: *g }) || n != c.len() {
                        continue;
                    }
                    let op = Op::paint(full, Cursor::new(64, 100, 0), st, c);
                    if let Err(e) = run(&op, &mut fb) {
                        violation_op(&e, &op, "");
                        continue;
                    }
                    let rows: Vec<u32> = (0..40)
                        .map(|r| {
                            let a = (100 + r) * WORDS_PER_LINE;
                            fb[a + 2] >> 1 | fb[a + 3] << 31
                        })
                        .collect();
                    m.insert((si(st), c.clone()), Glyph { w: 32, h: 40, yoff: 0, rows });
                    fb.fill(0);
                }
            }
        }
        self.shapes = m;
    }

    /// The glyph of an operation whose text is exactly one supported cluster
    pub fn single(&self, op: &Op) -> Option<(usize, &Glyph)> {
        match self.o.next_token(op.st, op.s) {
            (Tok::Glyph { font, glyph }, n) if n == op.s.len() => Some((font, self.o.glyph(font, glyph))),
            _ => None,
        }
    }
}

/// First pixel which differs between two buffers outside the visible part of a rectangle
pub fn outside(a: &FrBuf, b: &FrBuf, clip: ClipRect) -> Option<(usize, usize)> {
    let (x0, x1) = (clip.min.x.min(WIDTH), clip.max.x.min(WIDTH));
    for y in 0..LINES {
        let (p, q) = (&a[y * 11..y * 11 + 11], &b[y * 11..y * 11 + 11]);
        if p == q {
            continue;
        }
        let line_in = y >= clip.min.y && y < clip.max.y;
        for k in 0..11 {
            let mut d = p[k] ^ q[k];
            while d != 0 {
                let x = k * 32 + d.trailing_zeros() as usize;
                if !line_in || x < x0 || x >= x1 {
                    return Some((x, y));
                }
                d &= d - 1;
            }
        }
    }
    None
}

pub fn digest(fb: &FrBuf, c: Cursor) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    let mut put = |v: u64| {
        h ^= v;
        h = h.wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    };
    for p in fb.chunks_exact(2) {
        put(p[0] as u64 | (p[1] as u64) << 32);
    }
    put(c.pt.x as u64);
    put(c.pt.y as u64);
    put(c.line_height as u64);
    h
}

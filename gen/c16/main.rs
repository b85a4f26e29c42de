//! Paints every listed case with a library whose fonts were generated from synthetic sheets, and
//! compares the whole frame buffer and the cursor with the sheet's own ink.
//!   G id size w h yoff row...      ink of a glyph (rows in hexadecimal, bit x is column x)
//!   A id style text                paint at each of the 32 word alignments
//!   T style x y text id...         paint once; the text is these glyphs from left to right
//! Texts are hexadecimal code points joined by '-'.
use blitstr::*;
use std::collections::HashMap;

struct Glyph {
    size: usize,
    w: usize,
    yoff: usize,
    rows: Vec<u64>,
}

fn text(h: &str) -> String {
    h.split('-').map(|x| std::char::from_u32(u32::from_str_radix(x, 16).unwrap()).unwrap()).collect()
}

fn style(s: &str) -> GlyphStyle {
    match s {
        "b" => GlyphStyle::Bold,
        "r" => GlyphStyle::Regular,
        _ => GlyphStyle::Small,
    }
}

fn paint(st: &str, x: usize, y: usize, s: &str, glyphs: &[&Glyph]) -> Option<String> {
    let bg = if x & 1 == 0 { 0 } else { 0xffff_ffff };
    let mut fb = new_fr_buf();
    for w in fb.iter_mut() {
        *w = bg;
    }
    let mut want = fb;
    let mut c = Cursor::new(x, y, 0);
    paint_str(&mut fb, ClipRect::full_screen(), &mut c, style(st), s);
    let (mut wx, mut lh) = (x, 0);
    for g in glyphs {
        for (r, bits) in g.rows.iter().enumerate() {
            for i in 0..g.w {
                if bits >> i & 1 == 1 {
                    let (px, py) = (wx + 1 + i, y + g.yoff + r);
                    want[py * WORDS_PER_LINE + px / 32] ^= 1 << (px % 32);
                }
            }
        }
        wx += g.w + 3;
        lh = lh.max(g.size);
    }
    if (c.pt.x, c.pt.y, c.line_height) != (wx, y, lh) {
        return Some(format!("at ({}, {}) leaves the cursor at ({}, {}) with line height {}, not ({}, {}) with {}", x, y, c.pt.x, c.pt.y, c.line_height, wx, y, lh));
    }
    for i in 0..fb.len() {
        if fb[i] != want[i] {
            let px = i % WORDS_PER_LINE * 32 + (fb[i] ^ want[i]).trailing_zeros() as usize;
            return Some(format!("at ({}, {}) paints pixel ({}, {}) wrong", x, y, px, i / WORDS_PER_LINE));
        }
    }
    None
}

fn main() {
    let input = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
    let mut glyphs: HashMap<&str, Glyph> = HashMap::new();
    let (mut n, mut bad) = (0u64, 0);
    for (k, line) in input.lines().enumerate() {
        let f: Vec<&str> = line.split(' ').collect();
        let num = |i: usize| f[i].parse::<usize>().unwrap();
        let mut fail = None;
        match f[0] {
            "G" => {
                let rows: Vec<u64> = f[6..].iter().map(|x| u64::from_str_radix(x, 16).unwrap()).collect();
                assert_eq!(rows.len(), num(4));
                glyphs.insert(f[1], Glyph { size: num(2), w: num(3), yoff: num(5), rows });
            }
            "A" => {
                for x in 0..32 {
                    n += 1;
                    fail = fail.or(paint(f[2], x, 3, &text(f[3]), &[&glyphs[f[1]]]));
                }
            }
            "T" => {
                n += 1;
                let g: Vec<&Glyph> = f[5..].iter().map(|x| &glyphs[x]).collect();
                fail = paint(f[1], num(2), num(3), &text(f[4]), &g);
            }
            _ => unreachable!(),
        }
        if let Some(why) = fail {
            bad += 1;
            if bad <= 5 {
                println!("BAD {} {}", k, why);
            }
        }
    }
    println!("DONE {} {}", n, bad);
}

//! Reference glyphs and reference text model.
//!
//! The glyphs come straight from the sprite sheets, cluster indices and alias lists under
//! codegen/src_data (decoded here, not by the Go generator). The text model is a plain
//! longest-match segmenter plus the cursor rules of the README.
use crate::json;
use crate::png;
use blitstr::{ClipRect, Cursor, FrBuf, GlyphStyle, LINES, WIDTH, WORDS_PER_LINE};
use std::collections::{BTreeMap, HashMap};

pub const EMOJI: usize = 0;
pub const HANZI: usize = 1;
pub const BOLD: usize = 2;
pub const REGULAR: usize = 3;
pub const SMALL: usize = 4;
pub const FONT_NAMES: [&str; 5] = ["Emoji", "Hanzi", "Bold", "Regular", "Small"];
pub const REPL: &str = "\u{FFFD}";

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Glyph {
    pub w: usize,
    pub h: usize,
    pub yoff: usize,
    /// one u32 per row, least significant bit is the leftmost pixel
    pub rows: Vec<u32>,
}

impl Glyph {
    pub fn ink(&self) -> u32 {
        self.rows.iter().map(|r| r.count_ones()).sum()
    }
}

pub struct Font {
    pub height: usize,
    pub glyphs: Vec<Glyph>,
    /// canonical cluster of every glyph
    pub names: Vec<String>,
    /// every supported cluster (canonical clusters first, in sheet order, then aliases)
    pub clusters: Vec<(String, u32)>,
    pub canonical: usize,
    /// (canonical, alias)
    pub aliases: Vec<(String, String)>,
    first: Vec<u16>,
    cand: Vec<Vec<(String, u32)>>,
}

impl Font {
    fn build_index(&mut self) {
        self.first = vec![0u16; 0x110000];
        let mut m: BTreeMap<u32, Vec<(String, u32)>> = BTreeMap::new();
        for (c, g) in &self.clusters {
            m.entry(c.chars().next().unwrap() as u32).or_default().push((c.clone(), *g));
        }
        for (f, mut v) in m {
            v.sort_by_key(|(c, _)| std::cmp::Reverse(c.chars().count()));
            self.cand.push(v);
            self.first[f as usize] = self.cand.len() as u16;
        }
    }
    /// Longest supported cluster that is a prefix of s
    pub fn longest(&self, s: &str) -> Option<(u32, usize)> {
        let f = s.chars().next()?;
        let i = self.first[f as usize];
        if i == 0 {
            return None;
        }
        for (c, g) in &self.cand[i as usize - 1] {
            if s.starts_with(c.as_str()) {
                return Some((*g, c.len()));
            }
        }
        None
    }
}

/// A listed finding: a code point sequence that the library takes for another cluster because
/// both have the same hash
#[derive(Clone, Debug)]
pub struct Collision {
    pub text: String,
    pub font: usize,
    pub cluster: String,
}

pub struct Oracle {
    pub fonts: Vec<Font>,
    pub collisions: HashMap<char, Vec<Collision>>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tok {
    Newline,
    Glyph { font: usize, glyph: u32 },
}

pub fn latin_font(st: GlyphStyle) -> usize {
    match st {
        GlyphStyle::Bold => BOLD,
        GlyphStyle::Regular => REGULAR,
        GlyphStyle::Small => SMALL,
    }
}

pub const STYLES: [GlyphStyle; 3] = [GlyphStyle::Small, GlyphStyle::Regular, GlyphStyle::Bold];

fn cluster_from_hex(h: &str) -> String {
    h.split('-')
        .map(|x| char::from_u32(u32::from_str_radix(x, 16).expect("hex codepoint")).expect("scalar value"))
        .collect()
}

fn cell(img: &png::Image, size: usize, border: usize, gutter: usize, row: usize, col: usize) -> Vec<Vec<bool>> {
    let (oy, ox) = (border + row * (size + gutter), border + col * (size + gutter));
    (0..size).map(|y| (0..size).map(|x| img.at(ox + x, oy + y)).collect()).collect()
}

fn crop(c: &[Vec<bool>], x0: usize, x1: usize, y0: usize, y1: usize) -> Glyph {
    Glyph {
        w: x1 - x0,
        h: y1 - y0,
        yoff: y0,
        rows: (y0..y1).map(|y| (x0..x1).fold(0u32, |a, x| a | (c[y][x] as u32) << (x - x0))).collect(),
    }
}

/// Trim a cell as the documentation of the fonts says: CJK cells are kept whole, the space
/// of the Latin fonts is a blank of 4x2 pixels, everything else is cut to its bounding box.
pub fn trim(c: &[Vec<bool>], cjk: bool, latin_space: bool) -> Glyph {
    let size = c.len();
    if cjk {
        return crop(c, 0, size, 0, size);
    }
    if latin_space {
        let (l, t) = (size / 2 - 2, size / 2 - 1);
        return crop(c, l, size - l, t, size - t);
    }
    let ys: Vec<usize> = (0..size).filter(|&y| c[y].iter().any(|&b| b)).collect();
    let xs: Vec<usize> = (0..size).filter(|&x| c.iter().any(|r| r[x])).collect();
    if ys.is_empty() {
        return Glyph { w: 0, h: 0, yoff: 0, rows: vec![] };
    }
    crop(c, xs[0], xs[xs.len() - 1] + 1, ys[0], ys[ys.len() - 1] + 1)
}

impl Oracle {
    pub fn load(codegen_dir: &str) -> Oracle {
        let read = |f: &str| std::fs::read(format!("{}/{}", codegen_dir, f)).unwrap_or_else(|e| panic!("{}: {}", f, e));
        let text = |f: &str| String::from_utf8(read(f)).unwrap();
        let conf = json::parse(&text("config.json"));
        let mut fonts: Vec<Option<Font>> = (0..5).map(|_| None).collect();
        for gs in conf.get("glyphSets").arr() {
            let name = gs.get("name").str();
            let Some(id) = FONT_NAMES.iter().position(|n| *n == name) else { continue };
            let n = |k: &str| gs.get(k).num();
            let (size, cols, gutter, border) = (n("size"), n("cols"), n("gutter"), n("border"));
            let img = png::decode(&read(gs.get("sprites").str()));
            let cjk = gs.get("glyphTrim").str() == "CJK";
            let mut entries: Vec<(String, usize, usize)> = vec![];
            if gs.get("indexType").str() == "txt-row-major" {
                for line in text(gs.get("index").str()).lines() {
                    let t = line.split('#').next().unwrap().trim();
                    if !t.is_empty() {
                        let k = entries.len();
                        entries.push((cluster_from_hex(t), k / cols, k % cols));
                    }
                }
            } else {
                for e in json::parse(&text(gs.get("index").str())).get("map").arr() {
                    entries.push((cluster_from_hex(e.get("hex").str()), e.get("row").num(), e.get("col").num()));
                }
            }
            let mut f = Font {
                height: size,
                glyphs: vec![],
                names: vec![],
                clusters: vec![],
                canonical: 0,
                aliases: vec![],
                first: vec![],
                cand: vec![],
            };
            let mut map: HashMap<String, u32> = HashMap::new();
            for (c, row, col) in entries {
                let cl = cell(&img, size, border, gutter, row, col);
                let latin_space = id >= BOLD && row == 0 && col == 2;
                f.glyphs.push(trim(&cl, cjk, latin_space));
                f.names.push(c.clone());
                let g = (f.glyphs.len() - 1) as u32;
                if map.insert(c.clone(), g).is_none() {
                    f.clusters.push((c, g));
                }
            }
            f.canonical = f.clusters.len();
            if !gs.get("aliases").str().is_empty() {
                for line in text(gs.get("aliases").str()).lines() {
                    let t = line.split('#').next().unwrap().trim();
                    let p: Vec<&str> = t.split(' ').collect();
                    if p.len() == 2 && !p[0].is_empty() && !p[1].is_empty() {
                        let (canon, alias) = (cluster_from_hex(p[0]), cluster_from_hex(p[1]));
                        let g = map[&canon];
                        if map.insert(alias.clone(), g).is_none() {
                            f.clusters.push((alias.clone(), g));
                        }
                        f.aliases.push((canon, alias));
                    }
                }
            }
            f.build_index();
            fonts[id] = Some(f);
        }
        Oracle { fonts: fonts.into_iter().map(|f| f.expect("font missing from config.json")).collect(), collisions: HashMap::new() }
    }

    pub fn glyph(&self, font: usize, g: u32) -> &Glyph {
        &self.fonts[font].glyphs[g as usize]
    }

    /// First token of a non-empty string and its length in bytes
    pub fn next_token(&self, st: GlyphStyle, s: &str) -> (Tok, usize) {
        if s.starts_with('\n') {
            return (Tok::Newline, 1);
        }
        for font in [EMOJI, latin_font(st), HANZI] {
            if let Some((glyph, n)) = self.fonts[font].longest(s) {
                return (Tok::Glyph { font, glyph }, n);
            }
        }
        let font = latin_font(st);
        let (glyph, _) = self.fonts[font].longest(REPL).expect("replacement character");
        (Tok::Glyph { font, glyph }, s.chars().next().unwrap().len_utf8())
    }

    /// As next_token, with the listed hash collisions
    pub fn next_token_known(&self, st: GlyphStyle, s: &str) -> (Tok, usize, Option<&Collision>) {
        let (tok, n) = self.next_token(st, s);
        let Some(list) = s.chars().next().and_then(|c| self.collisions.get(&c)) else { return (tok, n, None) };
        for font in [EMOJI, latin_font(st), HANZI] {
            let real = self.fonts[font].longest(s);
            let c = list.iter().filter(|c| c.font == font && s.starts_with(&c.text)).max_by_key(|c| c.text.len());
            if let Some(c) = c {
                if real.is_none_or(|r| r.1 < c.text.len()) {
                    if let Some((glyph, _)) = self.fonts[font].longest(&c.cluster) {
                        return (Tok::Glyph { font, glyph }, c.text.len(), Some(c));
                    }
                }
            }
            if real.is_some() {
                break;
            }
        }
        (tok, n, None)
    }
    /// Does the text have a listed hash collision?
    pub fn collides(&self, st: GlyphStyle, s: &str) -> Vec<&Collision> {
        let mut v = vec![];
        if self.collisions.is_empty() {
            return v;
        }
        let mut p = 0;
        while p < s.len() {
            let (_, n, c) = self.next_token_known(st, &s[p..]);
            v.extend(c);
            p += n;
        }
        v
    }

    pub fn tokens(&self, st: GlyphStyle, s: &str) -> Vec<(Tok, usize)> {
        let mut v = vec![];
        let mut p = 0;
        while p < s.len() {
            let (t, n) = self.next_token(st, &s[p..]);
            v.push((t, n));
            p += n;
        }
        v
    }

    /// Move the cursor for one token; gives the top left pixel of the glyph's ink box
    pub fn layout(&self, clip: ClipRect, c: &mut Cursor, t: Tok) -> Option<(usize, usize)> {
        match t {
            Tok::Newline => {
                newline(clip, c);
                None
            }
            Tok::Glyph { font, glyph } => {
                let g = self.glyph(font, glyph);
                if c.pt.x < clip.min.x {
                    c.pt.x = clip.min.x;
                }
                // cell: 1 px left padding + ink box + 2 px right padding
                let cell = g.w + 3;
                if c.pt.x as u128 + cell as u128 >= clip.max.x as u128 {
                    newline(clip, c);
                }
                let at = (c.pt.x + 1, c.pt.y.saturating_add(g.yoff));
                c.pt.x += cell;
                c.line_height = c.line_height.max(self.fonts[font].height);
                Some(at)
            }
        }
    }
}

fn newline(clip: ClipRect, c: &mut Cursor) {
    c.pt.x = clip.min.x;
    c.pt.y = c.pt.y.saturating_add(c.line_height.max(24)).saturating_add(1);
    c.line_height = 0;
}

/// Can anything be painted with this clip rectangle at all?
pub fn paintable(clip: ClipRect) -> bool {
    clip.max.x <= WIDTH && clip.max.y <= LINES && clip.min.x < clip.max.x
}

/// XOR a glyph at (x,y), keeping only pixels inside the clip rectangle
pub fn xor_glyph(fb: &mut FrBuf, clip: ClipRect, g: &Glyph, x: usize, y: usize) -> u32 {
    let mut ink = 0;
    if x >= clip.max.x {
        return 0;
    }
    let mut mask = u32::MAX; // columns of the glyph inside the clip rectangle
    if clip.max.x - x < 32 {
        mask &= (1u32 << (clip.max.x - x)) - 1;
    }
    if x < clip.min.x {
        let cut = clip.min.x - x;
        mask &= if cut >= 32 { 0 } else { u32::MAX << cut };
    }
    for (i, row) in g.rows.iter().enumerate() {
        let py = match y.checked_add(i) {
            Some(v) => v,
            None => break,
        };
        if py < clip.min.y || py >= clip.max.y {
            continue;
        }
        let bits = row & mask;
        ink += bits.count_ones();
        let wide = (bits as u64) << (x % 32);
        let w = py * WORDS_PER_LINE + x / 32;
        fb[w] ^= wide as u32;
        if wide >> 32 != 0 {
            fb[w + 1] ^= (wide >> 32) as u32;
        }
    }
    ink
}

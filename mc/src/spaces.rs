//! The bounded spaces of operations. Every function enumerates its space completely and hands
//! each operation to a judge.
use crate::engine::*;
use crate::oracle::*;
use blitstr::{ClipRect, Cursor, GlyphStyle, Pt, LINES, WIDTH};
use std::sync::atomic::Ordering::Relaxed;

pub trait Judging: Fn(&mut Work, &mut Stats, &Op) + Sync {}
impl<T: Fn(&mut Work, &mut Stats, &Op) + Sync> Judging for T {}

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Env {
    pub o: Oracle,
    pub tier: Tier,
    pub base: u32,
    /// per style: one cluster for every (font, width) reachable in that style, most ink first
    pub reps: Vec<Vec<String>>,
}

pub fn rect(a: usize, b: usize, c: usize, d: usize) -> ClipRect {
    ClipRect { min: Pt { x: a, y: b }, max: Pt { x: c, y: d } }
}

fn widths(o: &Oracle, st: GlyphStyle) -> Vec<String> {
    let mut v: Vec<(usize, usize, u32, String)> = vec![];
    for f in [latin_font(st), EMOJI, HANZI] {
        let mut best: Vec<Option<(u32, String)>> = vec![None; 64];
        for (c, g) in &o.fonts[f].clusters {
            // a cluster another font takes first is not reachable through this font
            if !matches!(o.next_token(st, c), (Tok::Glyph { font, .. }, n) if font == f && n == c.len()) {
                continue;
            }
            let gl = o.glyph(f, *g);
            let e = &mut best[gl.w.min(63)];
            if e.as_ref().is_none_or(|b| gl.ink() > b.0) {
                *e = Some((gl.ink(), c.clone()));
            }
        }
        for (w, b) in best.into_iter().enumerate() {
            if let Some((ink, c)) = b {
                v.push((f, w, ink, c));
            }
        }
    }
    v.into_iter().map(|x| x.3).collect()
}

impl Env {
    pub fn new(o: Oracle, tier: Tier) -> Env {
        let reps = STYLES.iter().map(|s| widths(&o, *s)).collect();
        Env { o, tier, base: 0, reps }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    fn mk(&self) -> impl Fn() -> Work + Sync + '_ {
        move || Work::with_base(self.base)
    }

    /// A few clusters that differ in font, width, height and offset
    pub fn few(&self, st: GlyphStyle, n: usize) -> Vec<String> {
        let r = &self.reps[STYLES.iter().position(|s| *s == st).unwrap()];
        if n >= r.len() {
            return r.clone();
        }
        (0..n).map(|i| r[i * (r.len() - 1) / (n - 1).max(1)].clone()).collect()
    }

    /// All clusters of all fonts (with the styles that can reach them)
    pub fn clusters(&self) -> Vec<(&str, GlyphStyle)> {
        let mut v = vec![];
        for st in STYLES {
            for f in [latin_font(st), EMOJI, HANZI] {
                for (c, _) in &self.o.fonts[f].clusters {
                    v.push((c.as_str(), st));
                }
            }
        }
        v
    }

    /// Every supported cluster, every style, every horizontal alignment to the buffer's words
    pub fn aligned(&self, j: impl Judging) -> Stats {
        let cl = self.clusters();
        let full = ClipRect::full_screen();
        let cols: &[usize] = if self.thorough() { &[0, 32, 64, 96, 128, 160, 192, 224, 256] } else { &[64] };
        let mut r = par(cl.len().div_ceil(64), self.mk(), |w, ch, st| {
            for (c, sty) in cl.iter().skip(ch * 64).take(64) {
                for a in 0..32 {
                    for &col in cols {
                        st.states += 1;
                        let y = (a * 7 + col) % 480;
                        j(w, st, &Op::paint(full, Cursor::new(col + a, y, 0), *sty, c));
                    }
                }
                if STOP.load(Relaxed) {
                    return;
                }
            }
        });
        r.space(format!("{} (cluster, style) pairs x 32 alignments x {} word columns", cl.len(), cols.len()));
        r
    }

    /// Representative glyphs at every position of the screen
    pub fn positions(&self, j: impl Judging) -> Stats {
        let full = ClipRect::full_screen();
        let reps: Vec<_> = STYLES.iter().map(|s| self.few(*s, if self.thorough() { 999 } else { 14 })).collect();
        let mut r = par(LINES + 8, self.mk(), |w, y, st| {
            for (k, sty) in STYLES.iter().enumerate() {
                for c in &reps[k] {
                    for x in 0..WIDTH + 8 {
                        st.states += 1;
                        j(w, st, &Op::paint(full, Cursor::new(x, y, 0), *sty, c));
                    }
                }
            }
        });
        r.space(format!(
            "{} glyphs (all distinct widths of all fonts when thorough) x all {}x{} cursor positions",
            reps.iter().map(|r| r.len()).sum::<usize>(), WIDTH + 8, LINES + 8
        ));
        r
    }

    /// Every pair of left and right clip edges, cursors around all critical columns
    pub fn clip_x(&self, n: usize, j: impl Judging) -> Stats {
        let reps: Vec<_> = STYLES.iter().map(|s| self.few(*s, if self.thorough() { 40 } else { n })).collect();
        let mut r = par(WIDTH, self.mk(), |w, x0, st| {
            for x1 in x0 + 1..=WIDTH {
                for (k, sty) in STYLES.iter().enumerate() {
                    for c in &reps[k] {
                        let gw = match self.o.next_token(*sty, c).0 {
                            Tok::Glyph { font, glyph } => self.o.glyph(font, glyph).w,
                            _ => 0,
                        };
                        let mut xs = vec![0, x0.saturating_sub(1), x0, x0 + 1, (x0 + x1) / 2, x1 - 1, x1, x1 + 1, 340];
                        for d in 2..6 {
                            xs.push((x1 + 1).saturating_sub(gw + d));
                        }
                        xs.sort();
                        xs.dedup();
                        for x in xs {
                            st.states += 1;
                            let y = 40 + (x0 * 3 + x1) % 400;
                            j(w, st, &Op::paint(rect(x0, y - 30, x1, y + 70), Cursor::new(x, y, 0), *sty, c));
                            if x % 16 == 3 {
                                // the bottom right corner of the buffer
                                j(w, st, &Op::paint(rect(x0, 400, x1, LINES), Cursor::new(x, 505, 3), *sty, c));
                            }
                        }
                    }
                }
                if STOP.load(Relaxed) {
                    return;
                }
            }
        });
        r.space(format!(
            "all {} (left,right) clip edge pairs x up to 13 cursor columns x {} glyphs",
            WIDTH * (WIDTH + 1) / 2, reps.iter().map(|r| r.len()).sum::<usize>()
        ));
        r
    }

    /// Every cursor line with every top and bottom clip edge around it; every pair of edges
    pub fn clip_y(&self, j: impl Judging) -> Stats {
        let reps: Vec<_> = STYLES.iter().map(|s| self.few(*s, if self.thorough() { 14 } else { 4 })).collect();
        let dmax = if self.thorough() { 44 } else { 36 };
        let mut r = par(LINES + 40, self.mk(), |w, y, st| {
            for (k, sty) in STYLES.iter().enumerate() {
                for c in &reps[k] {
                    for t in (y as i64 - 3).max(0)..=(y + dmax) as i64 {
                        for b in y.saturating_sub(2).max(t as usize)..=(y + dmax).min(LINES) {
                            st.states += 1;
                            let x = 20 + (y * 5 + b) % 200;
                            j(w, st, &Op::paint(rect(10, t as usize, 300, b), Cursor::new(x, y, 0), *sty, c));
                        }
                    }
                    // all bottom edges and all top edges with this cursor line
                    for e in 0..=LINES {
                        st.states += 2;
                        j(w, st, &Op::paint(rect(0, 0, WIDTH, e), Cursor::new(7, y, 0), *sty, c));
                        j(w, st, &Op::paint(rect(0, e, WIDTH, LINES), Cursor::new(7, y, 0), *sty, c));
                    }
                }
                if STOP.load(Relaxed) {
                    return;
                }
            }
        });
        r.space(format!(
            "{} cursor lines x all (top,bottom) edges within [-3,+{}] plus all single edges x {} glyphs",
            LINES + 40, dmax, reps.iter().map(|r| r.len()).sum::<usize>()
        ));
        r
    }

    /// Every supported cluster with every top, bottom and right cut
    pub fn crops(&self, j: impl Judging) -> Stats {
        let cl = self.clusters();
        let th = self.thorough();
        let mut r = par(cl.len().div_ceil(16), self.mk(), |w, ch, st| {
            for (i, (c, sty)) in cl.iter().enumerate().skip(ch * 16).take(16) {
                let go = |w: &mut Work, st: &mut Stats, x: usize, clip: ClipRect| {
                    st.states += 1;
                    j(w, st, &Op::paint(clip, Cursor::new(x, 100, 0), *sty, c));
                };
                for al in if th { 0..32 } else { i % 32..i % 32 + 1 } {
                    let x = 96 + al;
                    for k in 0..=33 {
                        go(w, st, x, rect(0, 100 + k, WIDTH, LINES));
                        go(w, st, x, rect(0, 0, WIDTH, 100 + k));
                        // too narrow for the glyph: wraps, then is cut on the right
                        go(w, st, x, rect(x, 0, x + k + 1, 300));
                    }
                    if th {
                        for k in 0..33 {
                            go(w, st, x, rect(x, 100 + k, x + 50, 101 + k));
                            go(w, st, x, rect(x, 120 + k, x + k + 1, 140));
                        }
                    }
                }
            }
        });
        r.space(format!("{} (cluster, style) pairs x every top, bottom and right cut", cl.len()));
        r
    }

    /// Product of boundary values of clip rectangles and cursors, with a short text
    pub fn boundary(&self, j: impl Judging) -> Stats {
        let xv: Vec<usize> = vec![0, 1, 2, 15, 31, 32, 33, 63, 64, 65, 159, 160, 161, 287, 303, 304, 319, 320, 321, 334, 335, 336];
        let yv: Vec<usize> = vec![0, 1, 2, 10, 23, 24, 25, 31, 32, 33, 255, 256, 257, 267, 500, 511, 512, 513, 534, 535, 536];
        let texts: Vec<Vec<String>> = STYLES
            .iter()
            .map(|s| {
                let f = self.few(*s, 5);
                let mut t = vec![f.concat(), format!("{}\n{}", f[0], f[4]), "\u{378}".to_string(), f[4].clone(), f[2].clone()];
                if self.thorough() {
                    t.extend(f);
                }
                t
            })
            .collect();
        let cx: &[usize] = if self.thorough() { &[0, 1, 31, 32, 63, 287, 303, 319, 331, 333, 336] } else { &[0, 31, 63, 303, 333] };
        let cy: &[usize] = if self.thorough() { &[0, 1, 24, 31, 255, 500, 511, 535, 536] } else { &[0, 24, 255, 511, 535] };
        let n = xv.len() * xv.len();
        let mut r = par(n, self.mk(), |w, i, st| {
            let (x0, x1) = (xv[i / xv.len()], xv[i % xv.len()]);
            if x0 > x1 {
                return;
            }
            for &y0 in &yv {
                for &y1 in yv.iter().filter(|v| **v >= y0) {
                    for &x in cx {
                        for &y in cy {
                            let k = (x + y + y0 + y1) % 3; // one style per configuration, all three over the space
                            let n = if self.thorough() { texts[k].len() } else { 2 };
                            for q in 0..n {
                                let t = &texts[k][(q + (x0 + x1 + y1) % texts[k].len()) % texts[k].len()];
                                st.states += 1;
                                let lh = [0, 24, 30, 32][(y0 + x1) % 4];
                                j(w, st, &Op::paint(rect(x0, y0, x1, y1), Cursor::new(x, y, lh), STYLES[k], t));
                            }
                        }
                    }
                    if STOP.load(Relaxed) {
                        return;
                    }
                }
            }
        });
        r.space(format!("clip edges over {}x{} boundary values, {}x{} cursors", xv.len(), yv.len(), cx.len(), cy.len()));
        r
    }

    /// Clip rectangles which are empty, inverted or reach beyond the screen
    pub fn unpaintable(&self, j: impl Judging) -> Stats {
        let xv: Vec<usize> = vec![0, 1, 32, 100, 335, 336, 337, 352, 1000, usize::MAX - 1, usize::MAX];
        let yv: Vec<usize> = vec![0, 1, 24, 100, 535, 536, 537, 560, 1000, usize::MAX - 1, usize::MAX];
        let texts = ["A", "\n", "A\nB", "\nA", "😸", "鹅", "\u{378}", "A😸鹅\u{378}e\u{301}"];
        let n = xv.len() * xv.len();
        let mut r = par(n, self.mk(), |w, i, st| {
            let (x0, x1) = (xv[i / xv.len()], xv[i % xv.len()]);
            for &y0 in &yv {
                for &y1 in &yv {
                    let clip = rect(x0, y0, x1, y1);
                    if paintable(clip) && y0 < y1 {
                        continue;
                    }
                    for x in [0, 31, 300, 335] {
                        for y in [0, 24, 500, 535] {
                            for t in texts {
                                st.states += 1;
                                j(w, st, &Op::paint(clip, Cursor::new(x, y, 0), STYLES[(x + y) % 3], t));
                            }
                        }
                    }
                }
            }
        });
        r.space(format!("empty, inverted and off-screen rectangles over {}x{} edge values, 16 cursors, {} texts", xv.len(), yv.len(), texts.len()));
        r
    }

    /// Every Unicode scalar value, alone and in contexts
    pub fn scalars(&self, contexts: usize, j: impl Judging) -> Stats {
        let full = ClipRect::full_screen();
        let ch = 0x1000;
        let mut r = par(0x110000 / ch, self.mk(), |w, i, st| {
            w.near(160);
            let mut s = String::new();
            for cp in i * ch..(i + 1) * ch {
                let Some(c) = char::from_u32(cp as u32) else { continue };
                for (k, sty) in STYLES.iter().enumerate() {
                    for ctx in 0..contexts {
                        s.clear();
                        match ctx {
                            0 => s.push(c),
                            1 => {
                                s.push('A');
                                s.push(c);
                                s.push('B');
                            }
                            2 => {
                                s.push(c);
                                s.push(c);
                            }
                            3 => {
                                s.push(c);
                                s.push('\u{FE0F}');
                                s.push('g');
                            }
                            4 => {
                                s.push('é');
                                s.push(c);
                            }
                            5 => {
                                s.push('😸');
                                s.push(c);
                            }
                            6 => {
                                s.push(c);
                                s.push('\n');
                                s.push('中');
                            }
                            _ => {
                                s.push('\u{301}');
                                s.push(c);
                                s.push('\u{200D}');
                            }
                        }
                        st.states += 1;
                        j(w, st, &Op::paint(full, Cursor::new(3 + (cp + k) % 32, cp % 40, 0), *sty, &s));
                    }
                }
                if STOP.load(Relaxed) {
                    break;
                }
            }
            w.far();
        });
        r.space(format!("all 1112064 Unicode scalar values x 3 styles x {} contexts", contexts));
        r
    }

    /// Pairs of supported clusters. Quick: all pairs of emoji and Latin clusters, and hanzi with
    /// a sample of every font. Thorough: all pairs.
    pub fn cluster_pairs(&self, j: impl Judging) -> Stats {
        let clip = ClipRect::full_screen();
        let mut small: Vec<&str> = vec![];
        for f in [EMOJI, REGULAR] {
            small.extend(self.o.fonts[f].clusters.iter().map(|c| c.0.as_str()));
        }
        let hz: Vec<&str> = self.o.fonts[HANZI].clusters.iter().map(|c| c.0.as_str()).collect();
        let mut probe: Vec<&str> = small.iter().step_by(small.len() / 30).copied().collect();
        probe.extend(hz.iter().step_by(hz.len() / 10));
        probe.push("\n");
        probe.push("\u{378}");
        let th = self.thorough();
        let firsts: Vec<&str> = small.iter().chain(hz.iter()).copied().collect();
        let ns = small.len();
        let mut r = par(firsts.len().div_ceil(8), self.mk(), |w, ch, st| {
            w.near(160);
            let mut s = String::new();
            for (i, a) in firsts.iter().enumerate().skip(ch * 8).take(8) {
                let seconds: Box<dyn Iterator<Item = &&str>> = if th {
                    Box::new(firsts.iter())
                } else if i < ns {
                    Box::new(small.iter().chain(probe.iter()))
                } else {
                    Box::new(probe.iter())
                };
                for (k, b) in seconds.enumerate() {
                    s.clear();
                    s.push_str(a);
                    s.push_str(b);
                    st.states += 1;
                    let sty = STYLES[(i + b.chars().map(|c| c as usize).sum::<usize>()) % 3];
                    j(w, st, &Op::paint(clip, Cursor::new(4 + (i + k) % 32, 10, 0), sty, &s));
                }
                if STOP.load(Relaxed) {
                    break;
                }
                if i >= ns && !th {
                    for (k, b) in probe.iter().enumerate() {
                        s.clear();
                        s.push_str(b);
                        s.push_str(a);
                        st.states += 1;
                        j(w, st, &Op::paint(clip, Cursor::new(4 + (i + k) % 32, 10, 0), STYLES[(i + k) % 3], &s));
                    }
                }
            }
            w.far();
        });
        r.space(if th {
            format!("all {}^2 pairs of supported clusters", firsts.len())
        } else {
            format!("all {}^2 pairs of emoji and Latin clusters; {} hanzi x {} probes, both orders", ns, hz.len(), probe.len())
        });
        r
    }

    /// Pairs of glyphs of every font and width, at several alignments and at the line end
    pub fn rep_pairs(&self, j: impl Judging) -> Stats {
        let clip = ClipRect::full_screen();
        let th = self.thorough();
        let mut r = par(STYLES.len() * 128, self.mk(), |w, i, st| {
            let (k, m) = (i / 128, i % 128);
            let reps = &self.reps[k];
            if m >= reps.len() {
                return;
            }
            let mut s = String::new();
            for (n, b) in reps.iter().enumerate() {
                for sep in ["", "\n"] {
                    s.clear();
                    s.push_str(&reps[m]);
                    s.push_str(sep);
                    s.push_str(b);
                    for a in 0..if th { 32 } else { 4 } {
                        st.states += 1;
                        let x = if th { 64 + a } else { 64 + (m + n + a * 9) % 32 };
                        j(w, st, &Op::paint(clip, Cursor::new(x, 50, 0), STYLES[k], &s));
                        st.states += 1;
                        j(w, st, &Op::paint(clip, Cursor::new(260 + x % 64, 500, 0), STYLES[k], &s));
                    }
                    if STOP.load(Relaxed) {
                        return;
                    }
                }
            }
        });
        r.space(format!("all pairs (also across a newline) of the {} glyphs that represent every font and width", self.reps.iter().map(|r| r.len()).sum::<usize>()));
        r
    }

    /// Pairs of glyphs at all 32 alignments: all pairs of one Latin font, and every cluster after
    /// and before `n` others
    pub fn aligned_pairs(&self, n: usize, j: impl Judging) -> Stats {
        let clip = ClipRect::full_screen();
        let n = if self.thorough() { n * 3 } else { n };
        let mut jobs: Vec<(&str, GlyphStyle, Vec<String>, bool)> = vec![];
        for st in STYLES {
            let latin: Vec<String> = self.o.fonts[latin_font(st)].clusters.iter().map(|c| c.0.clone()).collect();
            for (a, _) in &self.o.fonts[latin_font(st)].clusters {
                jobs.push((a, st, latin.clone(), false));
            }
        }
        for (i, (a, st)) in self.clusters().into_iter().enumerate() {
            // the style only matters for Latin clusters
            if self.thorough() || i % 3 == STYLES.iter().position(|s| *s == st).unwrap() {
                jobs.push((a, st, self.few(st, n), true));
            }
        }
        let mut r = par(jobs.len().div_ceil(8), self.mk(), |w, ch, st| {
            w.near(160);
            let mut s = String::new();
            for (a, sty, others, both) in jobs.iter().skip(ch * 8).take(8) {
                for b in others {
                    for order in 0..if *both { 2 } else { 1 } {
                        s.clear();
                        s.push_str(if order == 0 { a } else { b });
                        s.push_str(if order == 0 { b } else { a });
                        for x in 64..96 {
                            st.states += 1;
                            j(w, st, &Op::paint(clip, Cursor::new(x, 10, 0), *sty, &s));
                        }
                    }
                }
                if STOP.load(Relaxed) {
                    break;
                }
            }
            w.far();
        });
        r.space(format!("all pairs of Latin clusters and every cluster before and after {} others x 32 alignments ({} first clusters)", n, jobs.len()));
        r
    }

    /// Cursors with every line height to 600 and extreme ones
    pub fn line_heights(&self, j: impl Judging) -> Stats {
        let mut v: Vec<usize> = (0..600).collect();
        for b in 10..64 {
            v.extend([(1usize << b) - 1, 1 << b, (1 << b) + 1]);
        }
        v.extend([1000, 65000, usize::MAX - 600, usize::MAX - 1, usize::MAX]);
        let texts = ["\n", "\n\n", "i", "😸", "鹅\n", "W\nW", "W😸\ni", "WWWW"];
        let clips = [(rect(0, 0, 336, 536), 0, 0), (rect(6, 6, 330, 530), 300, 100), (rect(40, 30, 70, 90), 50, 20), (rect(33, 500, 40, 536), 39, 511)];
        let mut r = par(v.len(), self.mk(), |w, i, st| {
            for (clip, x, y) in clips {
                for t in texts {
                    for sty in STYLES {
                        st.states += 1;
                        j(w, st, &Op::paint(clip, Cursor::new(x, y, v[i]), sty, t));
                    }
                }
            }
        });
        r.space(format!("{} line heights of the cursor x {} texts x {} settings x 3 styles", v.len(), texts.len(), clips.len()));
        r
    }

    /// First code point of any cluster followed by an arbitrary code point
    pub fn first_then_any(&self, j: impl Judging) -> Stats {
        let clip = ClipRect::full_screen();
        let mut firsts: Vec<char> = (0..128u8).map(|b| b as char).collect();
        for (c, _) in &self.o.fonts[EMOJI].clusters {
            firsts.push(c.chars().next().unwrap());
        }
        firsts.sort();
        firsts.dedup();
        let th = self.thorough();
        let ok = |c: u32| th || c < 0x600 || (0x2000..0x3100).contains(&c) || (0xFE00..0x10000).contains(&c) || (0x1F000..0x1FB00).contains(&c) || (0x4E00..0x4F00).contains(&c) || (0xE0020..0xE0080).contains(&c);
        let sec: Vec<char> = (0..0x110000).filter(|c| ok(*c)).filter_map(char::from_u32).collect();
        let mut r = par(firsts.len() * 4, self.mk(), |w, k, st| {
            w.near(160);
            let mut s = String::new();
            let a = firsts[k / 4];
            for b in sec.iter().skip(k % 4).step_by(4) {
                s.clear();
                s.push(a);
                s.push(*b);
                // the Latin fonts matter only after a Latin first code point
                let k = *b as usize;
                let styles = if a < '\u{80}' { &STYLES[..] } else { std::slice::from_ref(&STYLES[k % 3]) };
                for sty in styles {
                    st.states += 1;
                    j(w, st, &Op::paint(clip, Cursor::new(4 + k % 32, 10, 0), *sty, &s));
                }
                if STOP.load(Relaxed) {
                    break;
                }
            }
            w.far();
        });
        r.space(format!("{} first code points (ASCII ones in all styles) x {} second code points", firsts.len(), sec.len()));
        r
    }

    /// Damaged clusters: prefixes, suffixes, one code point removed, replaced or inserted
    pub fn damaged(&self, j: impl Judging) -> Stats {
        let clip = ClipRect::full_screen();
        let mut cl: Vec<&str> = self.o.fonts[EMOJI].clusters.iter().map(|c| c.0.as_str()).collect();
        cl.extend(self.o.fonts[REGULAR].clusters.iter().map(|c| c.0.as_str()));
        let subst: &[char] = if self.thorough() {
            &['A', 'é', '中', '\u{378}', '\u{FE0F}', '\u{200D}', '\u{20E3}', '\u{301}', '\u{1F3FB}', '\u{1F3FF}', '\u{2640}', '\u{1F469}', '\u{1F1E6}', '\n', ' ']
        } else {
            &['A', '中', '\u{378}', '\u{FE0F}', '\u{200D}', '\u{1F3FB}', '\n']
        };
        let mut r = par(cl.len().div_ceil(16), self.mk(), |w, ch, st| {
            w.near(160);
            for c in cl.iter().skip(ch * 16).take(16) {
                let v: Vec<char> = c.chars().collect();
                let go = |t: &[char], w: &mut Work, st: &mut Stats| {
                    let s: String = t.iter().collect();
                    for (k, sty) in STYLES.iter().enumerate() {
                        st.states += 1;
                        j(w, st, &Op::paint(clip, Cursor::new(2 + (k + s.len()) % 32, 50, 0), *sty, &s));
                    }
                };
                for i in 0..v.len() {
                    go(&v[..i], w, st);
                    go(&v[i..], w, st);
                    let mut d = v.clone();
                    d.remove(i);
                    go(&d, w, st);
                    for &x in subst {
                        let mut d = v.clone();
                        d[i] = x;
                        go(&d, w, st);
                        let mut d = v.clone();
                        d.insert(i, x);
                        go(&d, w, st);
                        let mut d = v[..=i].to_vec();
                        d.push(x);
                        go(&d, w, st);
                    }
                }
                if STOP.load(Relaxed) {
                    break;
                }
            }
            w.far();
        });
        r.space(format!("{} clusters x every single-code-point deletion, replacement, insertion, truncation ({} characters)", cl.len(), subst.len()));
        r
    }

    /// The small text alphabet: every font, narrow and wide, multi-code-point, newline, unknown
    pub fn alphabet(&self) -> Vec<&'static str> {
        vec!["i", "W", " ", "\n", "g", "😸", "鹅", "\u{378}", "e\u{301}", "👩🏽‍🚀", "\t", "，"]
    }

    /// All texts up to a length over the alphabet, in several clip rectangles, cursors and styles
    pub fn texts(&self, maxlen: usize, j: impl Judging) -> Stats {
        let al = self.alphabet();
        let clips = self.text_clips();
        let n = al.len();
        let mut total = Stats::default();
        for len in 0..=maxlen {
            let count = n.pow(len as u32);
            let r = par(count.div_ceil(64), self.mk(), |w, ch, st| {
                for q in ch * 64..((ch + 1) * 64).min(count) {
                    let mut s = String::new();
                    let mut k = q;
                    for _ in 0..len {
                        s.push_str(al[k % n]);
                        k /= n;
                    }
                    for (clip, cur) in &clips {
                        let sty = if len < 4 { &STYLES[..] } else { std::slice::from_ref(&STYLES[q % 3]) };
                        for sty in sty {
                            st.states += 1;
                            j(w, st, &Op::paint(*clip, *cur, *sty, &s));
                        }
                    }
                    if STOP.load(Relaxed) {
                        return;
                    }
                }
            });
            total.add(&r);
        }
        total.space(format!("all texts of 0 to {} tokens over {} tokens, in {} (clip, cursor) settings x 3 styles (1 style at length 4 and more)", maxlen, n, clips.len()));
        total
    }

    pub fn text_clips(&self) -> Vec<(ClipRect, Cursor)> {
        vec![
            (ClipRect::full_screen(), Cursor::new(0, 0, 0)),
            (ClipRect::padded_screen(), Cursor::new(290, 470, 24)),
            (rect(40, 100, 80, 300), Cursor::new(40, 100, 0)),
            (rect(33, 17, 64, 75), Cursor::new(10, 20, 30)),
            (rect(100, 60, 110, 180), Cursor::new(100, 60, 0)),
            (rect(310, 440, 336, 536), Cursor::new(320, 490, 32)),
            (rect(0, 30, 200, 43), Cursor::new(90, 25, 0)),
            (rect(5, 500, 140, 536), Cursor::new(100, 500, 0)),
        ]
    }

    /// Long texts: repetition of every token up to several thousand times, and mixed texts
    pub fn long_texts(&self, j: impl Judging) -> Stats {
        let mut texts: Vec<String> = vec![];
        let al = self.alphabet();
        for a in &al {
            for n in [7, 60, 255, 256, 257, 600, 1024, 4096] {
                texts.push(a.repeat(n));
            }
        }
        for a in &al {
            for b in &al {
                for n in [40, 300] {
                    texts.push(format!("{}{}", a, b).repeat(n));
                }
            }
        }
        for n in [1usize, 2, 3, 10, 100, 1000, 20000] {
            texts.push(al.concat().repeat(n));
        }
        let mut all = String::new();
        for f in [EMOJI, REGULAR, HANZI] {
            for (c, _) in &self.o.fonts[f].clusters {
                all.push_str(c);
                if f == EMOJI {
                    all.push(' ');
                }
            }
        }
        texts.push(all);
        let clips = self.text_clips();
        let mut r = par(texts.len(), self.mk(), |w, i, st| {
            for (clip, cur) in &clips {
                for sty in STYLES {
                    st.states += 1;
                    j(w, st, &Op::paint(*clip, *cur, sty, &texts[i]));
                }
            }
        });
        r.space(format!("{} long texts (up to {} bytes) x {} settings x 3 styles", texts.len(), texts.iter().map(|t| t.len()).max().unwrap(), clips.len()));
        r
    }

    /// Extreme argument values, far outside the screen
    pub fn extremes(&self, j: impl Judging) -> Stats {
        const M: usize = usize::MAX;
        let v: Vec<usize> = vec![
            0, 1, 31, 32, 320, 335, 336, 337, 352, 535, 536, 537, 1 << 31, (1 << 32) - 1, 1 << 32, M / 2, M / 2 + 1,
            M - 64, M - 33, M - 25, M - 3, M - 2, M - 1, M,
        ];
        let texts = ["A", "\n", "\n\n\nA", "😸", "鹅W i", "\u{378}", "e\u{301}\nA_g", "", "_"];
        let n = v.len();
        // (i) all rectangles over v, few cursors
        let curs = [Cursor::new(0, 0, 0), Cursor::new(M, M, M), Cursor::new(330, 530, 24), Cursor::new(M - 3, 10, 32), Cursor::new(10, M - 20, 30)];
        let mut r = par(n * n, self.mk(), |w, i, st| {
            for k in 0..n * n {
                for (ci, c) in curs.iter().enumerate() {
                    let t = texts[(i + k + ci) % texts.len()];
                    st.states += 1;
                    j(w, st, &Op::paint(rect(v[i / n], v[k / n], v[i % n], v[k % n]), *c, STYLES[(i + k) % 3], t));
                }
            }
        });
        r.space(format!("{}^4 rectangles x {} cursors", n, curs.len()));
        // (ii) all cursors over v, paintable and unpaintable rectangles
        let clips = [
            rect(0, 0, 336, 536), rect(6, 6, 330, 530), rect(0, 0, 1, 1), rect(335, 535, 336, 536), rect(320, 500, 336, 536),
            rect(0, 536, 336, 536), rect(10, 0, 20, 536), rect(0, 0, 0, 0), rect(M, M, M, M), rect(0, 0, M, M), rect(0, M, 336, M), rect(0, M, 336, 536),
        ];
        let r2 = par(n * n, self.mk(), |w, i, st| {
            for z in 0..n {
                for clip in clips {
                    for (k, t) in texts.iter().enumerate() {
                        st.states += 1;
                        j(w, st, &Op::paint(clip, Cursor::new(v[i / n], v[i % n], v[z]), STYLES[(z + k) % 3], t));
                    }
                }
            }
        });
        r.add(&r2);
        r.space(format!("{}^3 cursors x {} rectangles x {} texts", n, clips.len(), texts.len()));
        r
    }
}

//! C22: a text looks the same wherever on the screen it is painted. A rectangle and a cursor are
//! moved together over the screen; pixels and cursor have to move by the same distance.
use crate::engine::*;
use crate::oracle::*;
use crate::spaces::*;
use blitstr::{Cursor, GlyphStyle, LINES, WIDTH, WORDS_PER_LINE};
use std::sync::atomic::Ordering::Relaxed;

pub struct Case {
    pub w: usize,
    pub h: usize,
    /// cursor relative to the rectangle
    pub x: isize,
    pub y: isize,
    pub lh: usize,
    pub st: GlyphStyle,
    pub s: String,
}

const N: usize = WORDS_PER_LINE;
type Row = [u32; N];

/// The row moved right by n pixels (left if negative); what is moved out is lost
fn shift(r: &Row, n: isize) -> Row {
    let (k, b) = (n.div_euclid(32), n.rem_euclid(32) as u32);
    let at = |i: isize| if (0..N as isize).contains(&i) { r[i as usize] } else { 0 };
    let mut o = [0u32; N];
    for (i, v) in o.iter_mut().enumerate() {
        let i = i as isize - k;
        *v = at(i) << b | if b > 0 { at(i - 1) >> (32 - b) } else { 0 };
    }
    o
}

impl Case {
    fn op(&self, x: usize, y: usize) -> Option<Op<'_>> {
        let (cx, cy) = (x as isize + self.x, y as isize + self.y);
        if cx < 0 || cy < 0 {
            return None;
        }
        Some(Op::paint(rect(x, y, x + self.w, y + self.h), Cursor::new(cx as usize, cy as usize, self.lh), self.st, &self.s))
    }
    /// Where it is painted first: in the middle, as far as it fits
    fn home(&self) -> (usize, usize) {
        ((WIDTH - self.w) / 2, (LINES - self.h) / 2)
    }
    /// Pixels toggled, relative to the rectangle, and the cursor
    fn reference(&self, w: &mut Work) -> Option<(Vec<Row>, Cursor)> {
        let (hx, hy) = self.home();
        let op = self.op(hx, hy)?;
        let r = run(&op, &mut w.fb);
        let rows = (hy..hy + self.h)
            .map(|y| {
                let mut d = [0u32; N];
                for k in 0..N {
                    d[k] = w.fb[y * N + k] ^ w.base[y * N + k];
                }
                shift(&d, -(hx as isize))
            })
            .collect();
        w.restore();
        match r {
            Ok(c) => Some((rows, c)),
            Err(e) => {
                violation_op(&e, &op, "");
                None
            }
        }
    }
    fn compare(&self, w: &mut Work, st: &mut Stats, want: &(Vec<Row>, Cursor), shifted: &[Row], x: usize, y: usize) {
        let Some(op) = self.op(x, y) else { return };
        st.states += 1;
        st.transitions += 1;
        let (hx, hy) = self.home();
        let home = || self.op(hx, hy).unwrap();
        let c = match run(&op, &mut w.fb) {
            Ok(c) => c,
            Err(e) => {
                w.restore();
                return violation_op(&e, &op, "");
            }
        };
        let mut same = true;
        let mut ink = 0;
        for (k, r) in shifted.iter().enumerate() {
            let a = (y + k) * N;
            for i in 0..N {
                ink |= r[i];
                same &= w.fb[a + i] ^ w.base[a + i] == r[i];
            }
        }
        let (a, b) = (y * N, (y + self.h) * N);
        same &= w.fb[..a] == w.base[..a] && w.fb[b..] == w.base[b..];
        let q = &want.1;
        let moved = (c.pt.x as isize - x as isize, c.pt.y as isize - y as isize, c.line_height);
        let at_home = (q.pt.x as isize - hx as isize, q.pt.y as isize - hy as isize, q.line_height);
        if moved != at_home {
            violation_ops(
                &format!("moved by ({},{}) the text leaves the cursor at ({},{}) line height {} instead of ({},{}) line height {} in its rectangle", x as isize - hx as isize, y as isize - hy as isize, moved.0, moved.1, moved.2, at_home.0, at_home.1, at_home.2),
                &[home(), op], "",
            );
        }
        if !same {
            violation_ops(&format!("the same text looks different when it is moved by ({},{})", x as isize - hx as isize, y as isize - hy as isize), &[home(), op], &diff_pixels(&w.fb, &w.base));
            w.restore();
        } else {
            w.fb[a..b].copy_from_slice(&w.base[a..b]);
        }
        if ink != 0 {
            st.nontrivial += 1;
            st.sample(&op);
        }
    }
    fn columns(&self, w: &mut Work, st: &mut Stats, want: &(Vec<Row>, Cursor), ys: &[usize]) {
        for x in 0..=WIDTH - self.w {
            let sh: Vec<Row> = want.0.iter().map(|r| shift(r, x as isize)).collect();
            for &y in ys.iter().filter(|y| **y + self.h <= LINES) {
                self.compare(w, st, want, &sh, x, y);
            }
            if STOP.load(Relaxed) {
                return;
            }
        }
    }
}

/// Texts in rectangles of several sizes, at every position of the screen
pub fn texts(env: &Env) -> Stats {
    let mut cases: Vec<Case> = vec![];
    let mut add = |w, h, x, y, lh, k: usize, s: &str| cases.push(Case { w, h, x, y, lh, st: STYLES[k % 3], s: s.into() });
    let al = env.alphabet();
    let mixed = ["Wi😸鹅\u{378}e\u{301}g\n👩🏽\u{200d}🚀Wq,j", "Hello, world!\nHello, 😸!\n", "，鹅曲项向天歌", "i i\n\nW\u{378}\u{378}", "gjpqy_|ÅÇŠ"];
    for (k, t) in mixed.iter().enumerate() {
        for s in 0..3 {
            add(64, 80, 0, 0, 0, s, t);
        }
        add(33, 120, 5, 3, 30, k, t);
        add(32, 47, 3, 0, 0, k + 1, t);
        add(100, 40, 40, 10, 24, k + 2, t);
        add(200, 40, -30, -12, 0, k, t);
        add(61, 61, -7, -9, 32, k + 1, t);
        add(300, 33, 250, 1, 0, k + 2, t);
        add(20, 300, 0, 0, 0, k, t);
    }
    let long = al.concat().repeat(12);
    for (k, (w, h)) in [(336, 100), (320, 64), (330, 500), (40, 536), (20, 500), (300, 500), (336, 1), (1, 536), (305, 505), (250, 300)].into_iter().enumerate() {
        for s in 0..3 {
            add(w, h, 0, 0, 0, s, &long);
        }
        add(w, h, (w / 2) as isize, (h / 2) as isize, 0, k, mixed[k % mixed.len()]);
    }
    for (k, t) in al.iter().enumerate() {
        add(12, 20, 0, -5, 0, k, t);
        add(40, 40, 0, 0, 0, k + 1, t);
        add(7, 5, -9, -11, 0, k, t);
        if env.thorough() {
            for (i, u) in al.iter().enumerate() {
                add(36, 66, (i % 7) as isize * 3 - 6, (k % 5) as isize * 4 - 8, [0, 24, 30, 32, 40][(i + k) % 5], i + k, &format!("{}{}", t, u));
            }
        }
    }
    let n = 8;
    let mut r = par(cases.len() * n, || Work::with_base(0), |w, i, st| {
        let c = &cases[i / n];
        if let Some(want) = c.reference(w) {
            let ys: Vec<usize> = (0..LINES).filter(|y| y % n == i % n).collect();
            c.columns(w, st, &want, &ys);
        }
    });
    r.space(format!("{} texts in rectangles of 1 to 336 columns and 1 to 536 lines, at every position of the screen where they fit", cases.len()));
    r
}

/// Every supported cluster at every column
pub fn clusters(env: &Env) -> Stats {
    let cl = env.clusters();
    let ys: &[usize] = if env.thorough() { &[0, 1, 37, 100, 191, 256, 300, 389, 450, 496] } else { &[0, 257, 496] };
    let mut r = par(cl.len(), || Work::with_base(0), |w, i, st| {
        let (s, sty) = cl[i];
        let c = Case { w: 40, h: 40, x: 0, y: 0, lh: 0, st: sty, s: s.to_string() };
        if let Some(want) = c.reference(w) {
            let ys: Vec<usize> = ys.iter().map(|y| if *y == 257 { 257 + i % 97 } else { *y }).collect();
            c.columns(w, st, &want, &ys);
        }
    });
    r.space(format!("{} (cluster, style) pairs at every column x {} lines", cl.len(), ys.len()));
    r
}

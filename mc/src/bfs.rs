//! Explicit-state search of the cursor: the state is (x, y, line height), a transition is one
//! call of the real paint_str with one glyph or newline. The successor reached by the real code
//! is compared with the layout model's successor on every transition.
use crate::ctx::*;
use crate::engine::*;
use crate::judges::*;
use crate::oracle::*;
use crate::spaces::*;
use blitstr::{ClipRect, Cursor, GlyphStyle, LINES, WIDTH};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Mutex;

pub fn cursor_states(c: &Ctx, env: &Env, judge: Judge, total: &mut Stats) {
    // symbols: one cluster per (font, width) and style, plus newline and an unknown character
    let mut sym: Vec<(GlyphStyle, String)> = vec![];
    let mut seen = std::collections::HashSet::new();
    for (k, st) in STYLES.iter().enumerate() {
        for r in &env.reps[k] {
            if let (Tok::Glyph { font, glyph }, _) = c.o.next_token(*st, r) {
                if seen.insert((font, c.o.glyph(font, glyph).w)) {
                    sym.push((*st, r.clone()));
                }
            }
        }
        sym.push((*st, "\u{378}".into()));
    }
    sym.push((GlyphStyle::Regular, "\n".into()));
    let clips: Vec<ClipRect> = if c.thorough() {
        let mut v = vec![];
        for (a, b) in [(0, WIDTH), (6, 330), (0, 1), (5, 40), (31, 33), (100, 160), (300, 336), (200, 336), (0, 35), (33, 301)] {
            for (t, m) in [(0, LINES), (6, 530), (500, 536), (100, 100)] {
                v.push(rect(a, t, b, m));
            }
        }
        v
    } else {
        vec![rect(0, 0, WIDTH, LINES), rect(6, 400, 330, 530), rect(5, 440, 70, 536), rect(310, 500, 336, 536)]
    };
    for clip in clips {
        let ymax = LINES + 40;
        let (nx, ny) = (WIDTH + 48, ymax + 80);
        // line heights seen so far
        let lhs: Mutex<Vec<usize>> = Mutex::new(vec![0]);
        let lhi = |lh: usize| {
            let mut v = lhs.lock().unwrap();
            v.iter().position(|x| *x == lh).unwrap_or_else(|| {
                v.push(lh);
                v.len() - 1
            })
        };
        let bits: Vec<std::sync::atomic::AtomicU64> = (0..nx * ny / 8 + 1).map(|_| 0.into()).collect();
        let visit = |cur: Cursor, lh: usize| -> bool {
            if lh >= 8 || cur.pt.x >= nx || cur.pt.y >= ny {
                return false;
            }
            let k = (cur.pt.y * nx + cur.pt.x) * 8 + lh;
            bits[k / 64].fetch_or(1 << (k % 64), Relaxed) >> (k % 64) & 1 == 0
        };
        let mut frontier = vec![Cursor::from_top_left_of(clip)];
        visit(frontier[0], 0);
        let mut states = 1u64;
        let mut trans = 0;
        let mut depth = 0;
        while !frontier.is_empty() && !STOP.load(Relaxed) {
            depth += 1;
            let next: Mutex<Vec<Cursor>> = Mutex::new(vec![]);
            let r = par(frontier.len().div_ceil(256), Work::new, |w, ch, st| {
                let mut mine = vec![];
                for cur in frontier.iter().skip(ch * 256).take(256) {
                    for (sty, s) in &sym {
                        judge(c, w, st, &Op::paint(clip, *cur, *sty, s));
                        // successor according to the model, which the judge compared
                        let mut m = *cur;
                        let mut p = 0;
                        while p < s.len() {
                            let (t, n) = c.o.next_token(*sty, &s[p..]);
                            c.o.layout(clip, &mut m, t);
                            p += n;
                        }
                        if m.pt.y < ymax && visit(m, lhi(m.line_height)) {
                            mine.push(m);
                        }
                    }
                    if STOP.load(Relaxed) {
                        break;
                    }
                }
                next.lock().unwrap().extend(mine);
            });
            trans += r.transitions;
            total.add(&Stats { states: 0, spaces: vec![], ..r });
            frontier = next.into_inner().unwrap();
            states += frontier.len() as u64;
        }
        total.states += states;
        total.space(format!(
            "clip {:?}: {} reachable cursor states (x, y < {}, line height), {} transitions over {} symbols, depth {}, fixpoint",
            (clip.min.x, clip.min.y, clip.max.x, clip.max.y), states, ymax, trans, sym.len(), depth
        ));
    }
}

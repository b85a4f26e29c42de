//! One judge per property: runs the real library on one operation and decides the property.
//! Every judge leaves w.fb equal to w.base.
use crate::ctx::*;
use crate::engine::*;
use crate::oracle::*;
use blitstr::{ClipRect, LINES, WIDTH};

pub type Judge = fn(&Ctx, &mut Work, &mut Stats, &Op);

fn fail(c: &Ctx, w: &mut Work, op: &Op, what: &str, extra: &str) {
    w.restore();
    let _ = c;
    if std::env::var("MC_COLLECT").is_ok() {
        println!("COLLECT {:?} {}", op.st, cps(op.s));
        return;
    }
    violation_op(what, op, extra);
}

/// The listed findings explain why this text fails
fn explained(c: &Ctx, w: &mut Work, op: &Op) -> bool {
    let mut v = c.o.collides(op.st, op.s);
    for st in STYLES {
        if v.is_empty() {
            v = c.o.collides(st, op.s);
        }
    }
    if v.is_empty() {
        return false;
    }
    let mut seen = c.seen.lock().unwrap();
    for x in v {
        seen.insert(cps(&x.text));
    }
    w.restore();
    true
}

macro_rules! go {
    ($c:expr, $w:expr, $op:expr, $fb:expr) => {
        match run($op, $fb) {
            Ok(c) => c,
            Err(e) => {
                fail($c, $w, $op, &e, "");
                return;
            }
        }
    };
}

/// C01: nothing outside the clip rectangle or the screen changes
pub fn confined(c: &Ctx, w: &mut Work, st: &mut Stats, op: &Op) {
    let _ = go!(c, w, op, &mut w.fb);
    st.transitions += 1;
    if w.clean() {
        return;
    }
    st.nontrivial += 1;
    if let Some((x, y)) = outside(&w.fb, &w.base, op.clip) {
        fail(c, w, op, &format!("pixel ({},{}) outside the clip rectangle changed", x, y), "");
        return;
    }
    st.sample(op);
    w.restore();
}

/// C02: the call returns without a panic
pub fn returns(c: &Ctx, w: &mut Work, st: &mut Stats, op: &Op) {
    let r = go!(c, w, op, &mut w.fb);
    st.transitions += 1;
    if r != op.cur {
        st.nontrivial += 1;
        st.sample(op);
    }
}

/// C03: exactly the pixels of the rectangle are set
pub fn cleared(c: &Ctx, w: &mut Work, st: &mut Stats, op: &Op) {
    let _ = go!(c, w, op, &mut w.fb);
    st.transitions += 1;
    let r = op.clip;
    w.fresh_tmp();
    if r.min.x < r.max.x && r.min.y < r.max.y && r.max.x <= WIDTH && r.max.y <= LINES {
        for k in r.min.x / 32..=(r.max.x - 1) / 32 {
            let lo = if k * 32 >= r.min.x { !0 } else { !0u32 << (r.min.x - k * 32) };
            let n = (r.max.x - k * 32).min(32);
            let m = lo & (!0u32 >> (32 - n));
            for y in r.min.y..r.max.y {
                w.tmp[y * 11 + k] |= m;
            }
        }
        st.nontrivial += 1;
        st.sample(op);
    }
    if !w.agree() {
        let d = diff_pixels(&w.fb, &w.tmp);
        fail(c, w, op, &format!("clear_region: {}", d), "");
        return;
    }
    if !w.clean() {
        w.restore();
    }
}

/// C04: painting XORs a mask which does not depend on the buffer; twice restores the buffer
pub fn xors(c: &Ctx, w: &mut Work, st: &mut Stats, op: &Op) {
    let c1 = go!(c, w, op, &mut w.fb);
    w.tmp[..w.lim].copy_from_slice(&c.base2[..w.lim]);
    let c2 = go!(c, w, op, &mut w.tmp);
    st.transitions += 3;
    st.traces += 1;
    if c1 != c2 {
        fail(c, w, op, &format!("cursor depends on the buffer contents: {:?} {:?}", c1, c2), "");
        return;
    }
    for i in 0..w.lim {
        w.tmp[i] ^= c.base2[i] ^ w.base[i];
    }
    if !w.agree() {
        let d = diff_pixels(&w.tmp, &w.fb);
        fail(c, w, op, &format!("toggled pixels depend on the buffer contents: {}", d), "");
        return;
    }
    if w.clean() {
        return;
    }
    // the toggled pixels themselves, and the lines they are on
    let (mut first, mut last) = (w.lim, 0);
    for i in 0..w.lim {
        w.tmp[i] = w.fb[i] ^ w.base[i];
        if w.tmp[i] != 0 {
            first = first.min(i);
            last = i;
        }
    }
    let lines = first / 11 * 11..(last / 11 + 1) * 11;
    let _ = go!(c, w, op, &mut w.fb);
    if !w.clean() {
        let d = diff_pixels(&w.fb, &w.base);
        fail(c, w, op, &format!("painting twice does not restore the buffer: {}", d), "");
        return;
    }
    // contents which have something to do with the ink: all black, all white, exactly the ink,
    // exactly its complement, and the two kinds of lines alternating
    let turn = op.cur.pt.x.wrapping_add(op.cur.pt.y);
    for k in 0..7 {
        let content = |i: usize, t: u32| match k {
            0 => 0,
            1 => !0,
            2 => t,
            3 => !t,
            6 => CONTENTS[(i * 5 + turn % 16) % 16],
            _ => if (i / 11 + k) % 2 == 0 { t } else { !t },
        };
        for i in lines.clone() {
            w.fb[i] = content(i, w.tmp[i]);
        }
        let ck = go!(c, w, op, &mut w.fb);
        st.transitions += 1;
        if ck != c1 {
            fail(c, w, op, &format!("cursor depends on the buffer contents: {:?} {:?}", c1, ck), "");
            return;
        }
        for i in lines.clone() {
            if w.fb[i] != content(i, w.tmp[i]) ^ w.tmp[i] {
                let what = ["black", "white", "the ink", "the complement of the ink", "the ink and its complement by lines", "the ink and its complement by lines", "patterned words"][k];
                let d = format!("word {} of line {} is {:08x}, expected {:08x}", i % 11, i / 11, w.fb[i], content(i, w.tmp[i]) ^ w.tmp[i]);
                fail(c, w, op, &format!("toggled pixels depend on the buffer contents (here: {}): {}", what, d), "");
                return;
            }
            w.fb[i] = w.base[i];
        }
        if k < 2 && !w.clean() {
            let d = diff_pixels(&w.fb, &w.base);
            fail(c, w, op, &format!("toggled pixels depend on the buffer contents: {}", d), "");
            return;
        }
    }
    st.nontrivial += 1;
    st.sample(op);
}

/// Words a buffer may well hold: new buffers, edges, shades, others
const CONTENTS: [u32; 16] = [
    0xffff0000, 0x0000ffff, 0xaaaaaaaa, 0x55555555, 1, 0x80000000, 0x7fffffff, 0xfffffffe, 0x00ffff00, 0xff00ff00, 0x00ff00ff,
    0xf0f0f0f0, 0x33333333, 0xcccccccc, 0x12345678, 0xdeadbeef,
];

/// C05: a fully visible glyph is painted exactly as drawn in its sprite sheet
pub fn faithful(c: &Ctx, w: &mut Work, st: &mut Stats, op: &Op) {
    let Some((_, g)) = c.single(op) else { return };
    let (x, y) = (op.cur.pt.x.max(op.clip.min.x), op.cur.pt.y);
    if x + g.w + 5 >= op.clip.max.x || y < op.clip.min.y || y + g.yoff + g.h > op.clip.max.y {
        return; // wrapped or partly visible
    }
    let _ = go!(c, w, op, &mut w.fb);
    st.transitions += 1;
    st.traces += 1;
    let ink = xor_glyph(&mut w.fb, op.clip, g, x + 1, y + g.yoff);
    if !w.clean() {
        let d = diff_pixels(&w.fb, &w.base);
        fail(c, w, op, &format!("glyph differs from its sprite sheet cell: {}", d), "");
        return;
    }
    if ink > 0 {
        st.nontrivial += 1;
        st.sample(op);
    }
}

/// C06: what is visible of a clipped glyph is exactly the crop of the unclipped glyph
pub fn cropped(c: &Ctx, w: &mut Work, st: &mut Stats, op: &Op) {
    if !paintable(op.clip) {
        return;
    }
    let Some(g) = c.shapes.get(&(si(op.st), op.s.to_string())) else { return };
    let after = go!(c, w, op, &mut w.fb);
    st.transitions += 1;
    st.traces += 1;
    let stay = (op.cur.pt.x.max(op.clip.min.x).saturating_add(1), op.cur.pt.y);
    let wrap = (op.clip.min.x + 1, after.pt.y);
    let mut ok = false;
    let mut ink = 0;
    for (x, y) in [stay, wrap] {
        ink = xor_glyph(&mut w.fb, op.clip, g, x, y);
        if w.clean() {
            ok = true;
            break;
        }
        xor_glyph(&mut w.fb, op.clip, g, x, y);
    }
    if !ok {
        xor_glyph(&mut w.fb, op.clip, g, wrap.0, wrap.1);
        let d = diff_pixels(&w.fb, &w.base);
        fail(c, w, op, &format!("visible part is not the crop of the unclipped glyph: {}", d), "");
        return;
    }
    if ink > 0 {
        st.nontrivial += 1;
        st.sample(op);
    }
}

/// C07: a text is painted as the sequence of its clusters, one call for each
pub fn segmented(c: &Ctx, w: &mut Work, st: &mut Stats, op: &Op) {
    let one = go!(c, w, op, &mut w.fb);
    st.transitions += 1;
    st.traces += 1;
    for listed in [false, true] {
        w.fresh_tmp();
        let mut cur = op.cur;
        let mut p = 0;
        while p < op.s.len() {
            let (tok, n) = if listed {
                let t = c.o.next_token_known(op.st, &op.s[p..]);
                (t.0, t.1)
            } else {
                c.o.next_token(op.st, &op.s[p..])
            };
            p += n;
            let s = match tok {
                Tok::Newline => "\n",
                // supported clusters by their canonical spelling, everything else is U+FFFD
                Tok::Glyph { font, glyph } => c.o.fonts[font].names[glyph as usize].as_str(),
            };
            let o = Op::paint(op.clip, cur, op.st, s);
            cur = go!(c, w, &o, &mut w.tmp);
            st.transitions += 1;
        }
        if one == cur && w.agree() {
            break;
        }
        if listed || !explained(c, w, op) {
            let toks: Vec<String> = c.o.tokens(op.st, op.s).iter().map(|t| format!("{:?} ({} bytes)", t.0, t.1)).collect();
            let d = format!("cursor {:?} expected {:?}; {}", one, cur, diff_pixels(&w.fb, &w.tmp));
            fail(c, w, op, &format!("text is not painted as its clusters [{}]: {}", toks[..toks.len().min(8)].join(", "), d), "");
            return;
        }
        let _ = go!(c, w, op, &mut w.fb);
    }
    if !w.clean() {
        st.nontrivial += 1;
        st.sample(op);
        w.restore();
    }
}

/// C08: the cursor moves as the layout model says, and a single glyph's ink is in its cell
pub fn laid_out(c: &Ctx, w: &mut Work, st: &mut Stats, op: &Op) {
    if !paintable(op.clip) {
        // nothing is painted and the cursor stays
        let r = go!(c, w, op, &mut w.fb);
        st.transitions += 1;
        st.traces += 1;
        if r != op.cur {
            fail(c, w, op, &format!("cursor is {:?}, expected {:?} (the rectangle is refused)", r, op.cur), "");
        }
        return;
    }
    let mut m = op.cur;
    let mut at = None;
    let mut width = 0;
    let mut height = 0;
    let mut n = 0;
    let mut steps = 0;
    let mut p = 0;
    while p < op.s.len() {
        let (tok, k) = c.o.next_token(op.st, &op.s[p..]);
        p += k;
        at = c.o.layout(op.clip, &mut m, tok);
        steps += 1;
        if let Tok::Glyph { font, glyph } = tok {
            n += 1;
            width = c.o.glyph(font, glyph).w;
            height = c.o.fonts[font].height;
        }
    }
    let r = go!(c, w, op, &mut w.fb);
    st.transitions += steps;
    st.traces += 1;
    if r != m {
        fail(c, w, op, &format!("cursor is {:?}, expected {:?}", r, m), "");
        return;
    }
    if w.clean() {
        return;
    }
    st.nontrivial += 1;
    if n == 1 && at.is_some() {
        let (x, _) = at.unwrap();
        let cell = ClipRect { min: blitstr::Pt::new(x, m.pt.y), max: blitstr::Pt::new(x + width, m.pt.y.saturating_add(height)) };
        if let Some((px, py)) = outside(&w.fb, &w.base, cell) {
            fail(c, w, op, &format!("pixel ({},{}) is outside the glyph's cell {:?}", px, py, cell), "");
            return;
        }
    }
    st.sample(op);
    w.restore();
}

/// C09: painting a text in pieces, split at cluster boundaries, is the same as in one call
pub fn splits(c: &Ctx, w: &mut Work, st: &mut Stats, op: &Op) {
    let toks = c.o.tokens(op.st, op.s);
    let n = toks.len();
    if n < 2 {
        return;
    }
    let mut ends = vec![];
    let mut p = 0;
    for t in &toks {
        p += t.1;
        ends.push(p);
    }
    let one = go!(c, w, op, &mut w.fb);
    st.traces += 1;
    // all subsets of inner boundaries for short texts; for long ones: each boundary alone,
    // all boundaries, every second and every third
    let sets: Vec<Vec<usize>> = if n <= 6 {
        (1..1u32 << (n - 1)).map(|m| (0..n - 1).filter(|i| m >> i & 1 == 1).map(|i| ends[i]).collect()).collect()
    } else {
        let inner = &ends[..n - 1];
        let mut v = vec![inner.to_vec(), inner.iter().step_by(2).copied().collect(), inner.iter().skip(1).step_by(3).copied().collect()];
        let step = (n / if n > 2000 { 4 } else { 64 }).max(1);
        v.extend(inner.iter().step_by(step).map(|e| vec![*e]));
        v
    };
    for set in &sets {
        w.fresh_tmp();
        let mut cur = op.cur;
        let mut a = 0;
        for &b in set.iter().chain(std::iter::once(&op.s.len())) {
            let o = Op::paint(op.clip, cur, op.st, &op.s[a..b]);
            cur = go!(c, w, &o, &mut w.tmp);
            st.transitions += 1;
            a = b;
        }
        if cur != one || !w.agree() {
            if explained(c, w, op) {
                return;
            }
            let d = format!("split at bytes {:?}: cursor {:?} instead of {:?}; {}", &set[..set.len().min(20)], cur, one, diff_pixels(&w.tmp, &w.fb));
            fail(c, w, op, &format!("painting in pieces differs from one call: {}", d), "");
            return;
        }
    }
    if !w.clean() {
        st.nontrivial += 1;
        st.sample(op);
        w.restore();
    }
}

/// C11: emoji and ideographs look the same in every style
pub fn style_free(c: &Ctx, w: &mut Work, st: &mut Stats, op: &Op) {
    let mut p = 0;
    while p < op.s.len() {
        let (t, n) = c.o.next_token(STYLES[0], &op.s[p..]);
        for s in &STYLES[1..] {
            if c.o.next_token(*s, &op.s[p..]) != (t, n) {
                return;
            }
        }
        p += n;
    }
    let one = go!(c, w, op, &mut w.fb);
    st.transitions += 1;
    for s in STYLES {
        if s == op.st {
            continue;
        }
        w.fresh_tmp();
        let o = Op::paint(op.clip, op.cur, s, op.s);
        let two = go!(c, w, &o, &mut w.tmp);
        st.transitions += 1;
        if one != two || !w.agree() {
            if explained(c, w, op) {
                return;
            }
            let d = diff_pixels(&w.fb, &w.tmp);
            fail(c, w, op, &format!("differs between styles {:?} and {:?}: {:?} {:?} {}", op.st, s, one, two, d), "");
            return;
        }
    }
    if !w.clean() {
        st.nontrivial += 1;
        st.sample(op);
        w.restore();
    }
}

/// C12: two texts that mean the same are painted the same
pub fn equivalent(c: &Ctx, w: &mut Work, st: &mut Stats, a: &Op, b: &Op) {
    let x = go!(c, w, a, &mut w.fb);
    w.fresh_tmp();
    let y = go!(c, w, b, &mut w.tmp);
    st.transitions += 2;
    if x != y || !w.agree() {
        let d = diff_pixels(&w.fb, &w.tmp);
        w.restore();
        violation_ops(&format!("equivalent texts {} and {} are painted differently: {:?} {:?} {}", cps(a.s), cps(b.s), x, y, d), &[*a, *b], "");
        return;
    }
    if !w.clean() {
        st.nontrivial += 1;
        st.sample(a);
        w.restore();
    }
}

/// C21: glyphs of one flow of text do not overlap and stay inside their line
pub fn disjoint(c: &Ctx, w: &mut Work, st: &mut Stats, op: &Op) {
    if !paintable(op.clip) {
        return;
    }
    // w.tmp collects all ink so far (on zero), w.fb is used for one glyph at a time
    w.tmp.fill(0);
    let mut cur = op.cur;
    let mut p = 0;
    let mut glyphs = 0;
    while p < op.s.len() {
        let (_, n) = c.o.next_token(op.st, &op.s[p..]);
        let o = Op::paint(op.clip, cur, op.st, &op.s[p..p + n]);
        p += n;
        cur = go!(c, w, &o, &mut w.fb);
        st.transitions += 1;
        if w.clean() {
            if cur.pt.y > LINES + 40 {
                break;
            }
            continue;
        }
        glyphs += 1;
        let line = ClipRect {
            min: blitstr::Pt::new(op.clip.min.x, cur.pt.y),
            max: blitstr::Pt::new(cur.pt.x.min(op.clip.max.x), cur.pt.y.saturating_add(cur.line_height)),
        };
        if let Some((x, y)) = outside(&w.fb, &w.base, line) {
            fail(c, w, op, &format!("ink of {} at ({},{}) is outside its line {:?}", cps(o.s), x, y, line), "");
            return;
        }
        for i in 0..w.lim {
            let d = w.fb[i] ^ w.base[i];
            if d & w.tmp[i] != 0 {
                let x = i % 11 * 32 + (d & w.tmp[i]).trailing_zeros() as usize;
                fail(c, w, op, &format!("glyph {} paints over an earlier glyph at ({},{})", cps(o.s), x, i / 11), "");
                return;
            }
            w.tmp[i] |= d;
        }
        w.restore();
    }
    st.traces += 1;
    // In one call: the ink of all glyphs, unless some of it fell on other ink. Only where all of
    // it is certainly visible: every glyph stands in the first two lines of a large rectangle.
    let apart: u32 = w.tmp[..w.lim].iter().map(|x| x.count_ones()).sum();
    if glyphs > 1 && op.clip.max.x - op.clip.min.x > 100 && op.clip.min.y <= op.cur.pt.y && cur.pt.y + 40 < op.clip.max.y && cur.pt.y <= op.cur.pt.y.saturating_add(80) {
        let _ = go!(c, w, op, &mut w.fb);
        let whole: u32 = (0..w.lim).map(|i| (w.fb[i] ^ w.base[i]).count_ones()).sum();
        st.transitions += 1;
        if whole < apart {
            fail(c, w, op, &format!("the glyphs have {} inked pixels one by one, but only {} in one call: some ink is painted over", apart, whole), "");
            return;
        }
        w.restore();
    }
    if glyphs > 1 {
        st.nontrivial += 1;
        st.sample(op);
    }
}

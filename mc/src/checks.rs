//! Which spaces each property is decided on.
use crate::bfs::cursor_states;
use crate::ctx::*;
use crate::engine::*;
use crate::history;
use crate::judges::*;
use crate::oracle::*;
use crate::spaces::*;
use blitstr::{demo, glyph_to_height_hint, ClipRect, Cursor, FrBuf, GlyphStyle, Pt, LINES, WIDTH};
use std::time::Instant;

fn judge_of(p: &str) -> Option<Judge> {
    Some(match p {
        "C01" => confined,
        "C02" => returns,
        "C03" => cleared,
        "C04" => xors,
        "C05" => faithful,
        "C06" => cropped,
        "C07" => segmented,
        "C08" => laid_out,
        "C09" => splits,
        "C11" => style_free,
        "C21" => disjoint,
        "C25" => crate::frugal::frugal,
        _ => return None,
    })
}

pub fn check(p: &str, tier: Tier, root: &str) -> ! {
    let t0 = Instant::now();
    let mut c = Ctx::new(tier);
    let th = tier == Tier::Thorough;
    for k in known(root, p) {
        // finding: property=<id> codepoints=<text> taken-for=<cluster> font=<font>
        let f = |n: &str| k.split(' ').find_map(|x| x.strip_prefix(n)).unwrap_or("").to_string();
        let u = |h: String| -> String { h.split('-').filter_map(|x| char::from_u32(u32::from_str_radix(x, 16).ok()?)).collect() };
        let (text, cluster) = (u(f("codepoints=")), u(f("taken-for=")));
        let Some(font) = FONT_NAMES.iter().position(|n| *n == f("font=")) else { continue };
        if let Some(first) = text.chars().next() {
            c.o.collisions.entry(first).or_default().push(Collision { text, font, cluster });
        }
    }
    if ["C06", "C07"].contains(&p) {
        c.load_shapes();
    }
    let env = Env::new(Oracle::load("/repo/codegen"), tier);
    let mut st = Stats::default();
    let mut level = "model_checking";
    let rule;
    let mut assumptions = vec![
        "the library is built from the working tree of /repo for a 64-bit host, with overflow checks and debug assertions on (and, where the spaces say so, again with both off)".to_string(),
    ];
    let j = judge_of(p);
    macro_rules! space {
        ($($e:expr),*) => {{ $( if !violated() { let r = $e; st.add(&r); eprintln!("  [{:.1}s] {}", t0.elapsed().as_secs_f64(), r.spaces.join("; ")); } )* }};
    }
    let jj = |w: &mut Work, s: &mut Stats, o: &Op| (j.unwrap())(&c, w, s, o);
    match p {
        "C01" => {
            space!(env.positions(jj), env.crops(jj), env.clip_x(6, jj), env.clip_y(jj), env.boundary(jj), env.unpaintable(jj), env.texts(if th { 5 } else { 3 }, jj), env.long_texts(jj), env.extremes(jj));
            level = "exploration";
            rule = "every operation of every listed space is run on a patterned buffer and the whole buffer (padding bits included) is compared outside the clip rectangle; non-trivial: at least one pixel changed".into();
        }
        "C02" => {
            space!(env.extremes(jj), extreme_clears(&jj), env.unpaintable(jj), env.boundary(jj), env.texts(if th { 5 } else { 4 }, jj), env.scalars(if th { 8 } else { 3 }, jj), env.long_texts(jj), env.line_heights(jj), env.aligned(jj), env.crops(jj), env.damaged(jj), env.first_then_any(jj), env.rep_pairs(jj), totals(&c), deep(root, th));
            level = "exploration";
            rule = "every operation of every listed space runs under a panic guard (arithmetic overflow included) and a 20 s watchdog; very long texts also run in an unoptimised build on a stack of 2 MB; non-trivial: the cursor moved".into();
        }
        "C03" => {
            space!(clears(th, &jj), clear_contents(th, &jj), extreme_clears(&jj));
            level = "exploration";
            rule = "every rectangle of every listed space is cleared on a patterned buffer, every pair of column edges also on contents with nearly empty and nearly full words, and the whole buffer is compared with a per-word set model; non-trivial: the rectangle has pixels".into();
        }
        "C04" => {
            space!(env.aligned(jj), env.clip_x(3, jj), env.clip_y(jj), env.texts(if th { 5 } else { 3 }, jj), env.long_texts(jj), env.boundary(jj), env.unpaintable(jj));
            level = "exploration";
            rule = "every operation runs on two unrelated buffer contents, a second time on the first, and on contents made of the ink itself (black, white, the ink, its complement, the two by lines); toggled pixels and cursor have to agree and the second run has to restore the buffer; non-trivial: at least one pixel toggled".into();
        }
        "C05" => {
            space!(env.aligned(jj), env.positions(jj));
            level = "exploration";
            rule = "every supported cluster in every style is painted and the whole buffer is compared with the ink of its cell in the sprite sheet, decoded independently; non-trivial: the cell has ink".into();
            assumptions.push("codegen/src_data and config.json are the definition of the glyphs".into());
        }
        "C06" => {
            space!(env.crops(jj), env.clip_x(9, jj), env.clip_y(jj), env.positions(jj));
            level = "exploration";
            rule = "the shape of every cluster is taken from an unclipped paint; every clipped paint is compared on the whole buffer with the crop of that shape at the cursor or at the wrapped position; non-trivial: some ink is visible".into();
        }
        "C07" => {
            space!(identity(&c));
            space!(env.scalars(if th { 8 } else { 2 }, jj), env.cluster_pairs(jj), env.damaged(jj), env.first_then_any(jj), env.unpaintable(jj), env.texts(if th { 5 } else { 3 }, jj), env.long_texts(jj));
            rule = "every text is segmented by a longest-match reference model and painted in one call and cluster by cluster (unsupported ones as U+FFFD); buffers and cursors have to agree; non-trivial: at least one pixel changed".into();
        }
        "C08" => {
            cursor_states(&c, &env, jj_fn(j), &mut st);
            space!(env.boundary(jj), env.unpaintable(jj), env.clip_x(3, jj), env.rep_pairs(jj), env.aligned(jj), env.crops(jj), env.line_heights(jj), env.aligned_pairs(4, jj), env.texts(if th { 5 } else { 4 }, jj), env.long_texts(jj));
            rule = "explicit-state search over the cursor, every transition executed by the real code and compared with the layout model; then texts; states are cursor states and texts, transitions are the model's steps (one per glyph or newline), traces are the calls of the real code that were compared; non-trivial: at least one pixel changed".into();
        }
        "C09" => {
            space!(env.unpaintable(jj), env.texts(if th { 5 } else { 4 }, jj), env.scalars(if th { 8 } else { 2 }, jj), env.damaged(jj), env.rep_pairs(jj), env.line_heights(jj), env.aligned_pairs(2, jj), env.cluster_pairs(jj), env.long_texts(jj));
            level = "exploration";
            rule = "every text is painted in one call and in pieces, for every subset of the inner cluster boundaries (up to 6 clusters; longer texts: each boundary alone, all, every second, every third); non-trivial: at least one pixel changed".into();
        }
        "C10" => {
            space!(styles(&c, &env));
            level = "exploration";
            rule = "all numbers up to 2^20 and around every power of two are converted; for every supported Latin cluster the line height after painting is compared with the hint, wherever it is painted; non-trivial: the case produced a style or a line height".into();
        }
        "C11" => {
            space!(env.aligned(jj), env.cluster_pairs(jj), env.unpaintable(jj), env.texts(if th { 5 } else { 4 }, jj), env.damaged(jj));
            level = "exploration";
            rule = "every text without Latin clusters is painted in all three styles; buffers and cursors have to agree; non-trivial: at least one pixel changed".into();
        }
        "C12" => {
            space!(equivalents(&c, th));
            level = "exploration";
            rule = "every pair of equivalent spellings is painted in every context, style and alignment; buffers and cursors have to agree; non-trivial: at least one pixel changed".into();
        }
        "C13" => {
            st = history::check(&c.o, tier);
            rule = "baselines from fresh processes; every call of every history and interleaving is compared with its baseline; non-trivial: a complete history or interleaving".into();
            level = "exploration";
            assumptions.push("callers share state through atomics and locks only (the library forbids unsafe and has no threads of its own); schedules are sequentially consistent".into());
        }
        "C14" => {
            space!(constructors(), comparisons());
            level = "exploration";
            rule = "all corner combinations over a small grid and over boundary values; non-trivial: a constructed value was compared".into();
        }
        "C19" => {
            space!(demos(th), demo_contents(th));
            rule = "states are frame buffers, transitions are the demo functions, from several initial contents; the visible pixels after each transition have to be those of the demo painted first in a fresh buffer; traces are the histories that were run again from their start; non-trivial: a transition that changed the buffer".into();
        }
        "C21" => {
            space!(env.texts(if th { 5 } else { 3 }, jj), env.rep_pairs(jj), env.aligned_pairs(8, jj), env.damaged(jj), env.long_texts(jj));
            if th {
                space!(env.cluster_pairs(jj));
            }
            level = "exploration";
            rule = "every text is painted glyph by glyph; the ink of each glyph has to be new pixels inside its line box; non-trivial: at least two glyphs visible".into();
        }
        "C22" => {
            space!(crate::moved::texts(&env), crate::moved::clusters(&env));
            level = "exploration";
            rule = "every text is painted in a rectangle in the middle of the screen and in the same rectangle moved to every other listed position; the pixels toggled and the cursor have to move with it and nothing else may change; non-trivial: some ink is visible".into();
        }
        "C25" => {
            st.add(&crate::frugal::all(&c, &env, t0));
            st.space(format!("at most {} bytes of stack", crate::frugal::MOST.load(std::sync::atomic::Ordering::Relaxed)));
            if !violated() {
                space!(crate::frugal::unoptimised(root));
            }
            level = "exploration";
            rule = "every call runs with a counting allocator and above a filled stretch of stack, in an optimised and in an unoptimised build of the library; no allocation, at most 16 KiB of stack; non-trivial: the cursor moved".into();
        }
        _ => {
            eprintln!("unknown property {}", p);
            std::process::exit(2);
        }
    }
    if !c.o.collisions.is_empty() && !violated() {
        known_still(&c, p);
    }
    finish(st, Report { level, rule, assumptions, exhaustive: p != "C13" }, t0, root)
}

fn jj_fn(j: Option<Judge>) -> Judge {
    j.unwrap()
}

/// Print a KNOWN-FINDING line for every listed text, if it still fails
fn known_still(c: &Ctx, p: &str) {
    let full = ClipRect::full_screen();
    let mut v: Vec<&Collision> = c.o.collisions.values().flatten().collect();
    v.sort_by_key(|x| cps(&x.text));
    let (mut w, mut st) = (Work::new(), Stats::default());
    for x in v {
        for sty in STYLES {
            c.seen.lock().unwrap().clear();
            let op = Op::paint(full, Cursor::new(8, 8, 0), sty, &x.text);
            judge_of(p).unwrap()(c, &mut w, &mut st, &op);
            if !c.seen.lock().unwrap().is_empty() && std::env::var_os("MC_EVIDENCE").is_none() {
                println!("KNOWN-FINDING: property={} codepoints={} is taken for the cluster {} which has the same hash", p, cps(&x.text), cps(&x.cluster));
                break;
            }
        }
    }
}

pub fn replay(file: &str, tier: Tier) -> ! {
    let t = std::fs::read_to_string(file).unwrap();
    let v = crate::json::parse(&t);
    let p = v.get("property").str().to_string();
    let mut c = Ctx::new(tier);
    c.load_shapes();
    let n = |j: &crate::json::J| j.str().parse::<usize>().unwrap();
    println!("{}: {}", p, v.get("what").str());
    let mut bad = false;
    for o in v.get("ops").arr() {
        let s: String = o.get("codepoints").str().split('-').filter(|x| !x.is_empty()).map(|x| char::from_u32(u32::from_str_radix(x, 16).unwrap()).unwrap()).collect();
        let cl = o.get("clip").arr();
        let cu = o.get("cursor").arr();
        let clip = ClipRect { min: Pt::new(n(&cl[0]), n(&cl[1])), max: Pt::new(n(&cl[2]), n(&cl[3])) };
        let cur = Cursor::new(n(&cu[0]), n(&cu[1]), n(&cu[2]));
        let sty = STYLES.into_iter().find(|x| format!("{:?}", x) == o.get("style").str()).unwrap();
        let op = if o.get("op").str() == "paint_str" { Op::paint(clip, cur, sty, &s) } else { Op::clear(clip) };
        println!("{}", op.rust());
        let mut w = Work::new();
        let before = *w.fb;
        println!("  -> {:?}", run(&op, &mut w.fb));
        println!("  -> changed {}", diff_pixels(&w.fb, &before));
        w.restore();
        if let Some(j) = judge_of(&p) {
            j(&c, &mut w, &mut Stats::default(), &op);
        }
        bad |= violated();
    }
    println!("{}", if bad { "the violation shows again" } else { "no single-operation judge, or the violation does not show" });
    std::process::exit(bad as i32)
}

/// Every supported cluster alone is painted as its own glyph
fn identity(c: &Ctx) -> Stats {
    let full = ClipRect::full_screen();
    let mut st = Stats::default();
    for sty in STYLES {
        for f in [latin_font(sty), EMOJI, HANZI] {
            for (cl, g) in &c.o.fonts[f].clusters {
                let (tok, n) = c.o.next_token(sty, cl);
                if tok != (Tok::Glyph { font: f, glyph: *g }) || n != cl.len() {
                    continue;
                }
                let Some(shape) = c.shapes.get(&(si(sty), cl.clone())) else { continue };
                let want = c.o.glyph(f, *g);
                let mut rows = vec![0u32; 40];
                rows[want.yoff..want.yoff + want.h].copy_from_slice(&want.rows);
                st.states += 1;
                st.transitions += 1;
                st.nontrivial += 1;
                if rows != shape.rows {
                    violation_op("a supported cluster is not painted as its glyph", &Op::paint(full, Cursor::new(64, 100, 0), sty, cl), "");
                }
            }
        }
    }
    st.space("every supported (cluster, style) alone".into());
    st
}

fn clears(th: bool, jj: &(impl Fn(&mut Work, &mut Stats, &Op) + Sync)) -> Stats {
    let mk = || Work::new();
    let ys = [(0, 1), (0, LINES), (535, 536), (31, 33), (100, 117), (7, 8), (255, 257), (530, 536)];
    let mut total = Stats::default();
    let r = par(WIDTH + 1, mk, |w, x0, st| {
        for x1 in x0..=WIDTH {
            for (k, (a, b)) in ys.iter().enumerate() {
                if !th && k > 4 {
                    continue;
                }
                st.states += 1;
                jj(w, st, &Op::clear(rect(x0, *a, x1, *b)));
            }
        }
    });
    total.add(&r);
    total.space("all pairs of left and right edges x several line ranges".into());
    let xs = [(0, 336), (0, 1), (335, 336), (31, 33), (32, 64), (320, 336), (1, 335), (5, 6), (0, 32), (63, 97)];
    let r = par(LINES + 1, mk, |w, y0, st| {
        for y1 in y0..=LINES {
            for (k, (a, b)) in xs.iter().enumerate() {
                if !th && k > 4 {
                    continue;
                }
                st.states += 1;
                jj(w, st, &Op::clear(rect(*a, y0, *b, y1)));
            }
        }
    });
    total.add(&r);
    total.space("all pairs of top and bottom edges x several column ranges".into());
    let r = par(LINES, mk, |w, y, st| {
        for x in 0..WIDTH {
            st.states += 1;
            jj(w, st, &Op::clear(rect(x, y, x + 1, y + 1)));
        }
    });
    total.add(&r);
    total.space("every single pixel".into());
    let mut xv: Vec<usize> = (0..=10).flat_map(|k| [k * 32, k * 32 + 1, (k * 32 + 31).min(336), k * 32 + 16]).filter(|x| *x <= 336).collect();
    xv.push(336);
    xv.sort();
    xv.dedup();
    let yv = [0, 1, 2, 3, 10, 23, 24, 31, 32, 33, 99, 255, 256, 257, 300, 500, 511, 512, 533, 534, 535, 536];
    let yv = if th { &yv[..] } else { &yv[..] };
    let n = xv.len();
    let r = par(n * n, mk, |w, i, st| {
        for a in yv {
            for b in yv {
                st.states += 1;
                jj(w, st, &Op::clear(rect(xv[i / n], *a, xv[i % n], *b)));
            }
        }
    });
    total.add(&r);
    total.space(format!("{}^2 column edges x {}^2 line edges (empty and inverted ones included)", n, yv.len()));
    if th {
        let mut wide = Stats::default();
        for k in 1..4 {
            let r = par(WIDTH + 1, move || Work::with_base(k), |w, x0, st| {
                for x1 in x0..=WIDTH {
                    for y in (k as usize..LINES).step_by(37) {
                        st.states += 1;
                        jj(w, st, &Op::clear(rect(x0, y, x1, y + 1 + (x0 + x1) % 3)));
                    }
                }
            });
            wide.add(&r);
        }
        total.add(&wide);
        total.space("all pairs of column edges x 14 line positions x 3 buffer contents".into());
    }
    total
}

/// Every pair of column edges on buffers whose words are special: one pixel black or white,
/// runs of equal pixels, regular patterns
fn clear_contents(th: bool, jj: &(impl Fn(&mut Work, &mut Stats, &Op) + Sync)) -> Stats {
    let fam = words();
    let mut total = Stats::default();
    let strides: &[usize] = if th { &[0, 1, 2, 3, 5, 7, 11, 32, 33, 64, 90, 127] } else { &[0, 1, 7, 33] };
    for s in strides {
        let mk = || {
            let mut w = Work::new();
            for i in 0..blitstr::FRAME_BUF_SIZE {
                w.base[i] = fam[(i / 11 + i % 11 * s) % fam.len()];
            }
            w.restore();
            w.fresh_tmp();
            w
        };
        let r = par(WIDTH + 1, mk, |w, x0, st| {
            for x1 in x0..=WIDTH {
                st.states += 1;
                jj(w, st, &Op::clear(rect(x0, 0, x1, LINES)));
                st.states += 1;
                jj(w, st, &Op::clear(rect(x0, (x0 + x1) % 500, x1, (x0 + x1) % 500 + 33)));
            }
        });
        total.add(&r);
    }
    total.space(format!("all pairs of column edges on {} buffers made of {} special words", strides.len(), fam.len()));
    total
}

/// Words with one black or white pixel, runs from either end, runs in the middle, patterns
fn words() -> Vec<u32> {
    let mut v = vec![0u32, !0];
    for n in 0..32 {
        v.extend([1 << n, !(1 << n), (1 << n) - 1, !((1 << n) - 1), 0xff << n, !(0xff << n), 0xffffu32.rotate_left(n)]);
    }
    v.extend([0x5555_5555, 0xaaaa_aaaa, 0x3333_3333, 0x0f0f_0f0f, 0x00ff_00ff, 0x8000_0001, 0x7fff_fffe, 0xffff_0000]);
    v.sort();
    v.dedup();
    v
}

fn extreme_clears(jj: &(impl Fn(&mut Work, &mut Stats, &Op) + Sync)) -> Stats {
    const M: usize = usize::MAX;
    let v = [0, 1, 31, 32, 320, 335, 336, 337, 352, 353, 535, 536, 537, 560, 1000, 1 << 31, (1 << 32) - 1, 1 << 32, M / 2, M / 2 + 1, M - 32, M - 1, M];
    let n = v.len();
    let mut r = par(n * n, Work::new, |w, i, st| {
        for k in 0..n * n {
            st.states += 1;
            jj(w, st, &Op::clear(rect(v[i / n], v[k / n], v[i % n], v[k % n])));
        }
    });
    r.space(format!("{}^4 rectangles over extreme values", n));
    r
}

/// Texts which need a deep stack if painting is recursive: (text, style)
pub fn deep_texts(th: bool) -> Vec<(String, GlyphStyle)> {
    let al = ["i", "W", " ", "\n", "😸", "鹅", "\u{378}", "e\u{301}", "👩🏽\u{200d}🚀", "\t", "\u{200d}", "\u{fe0f}", "\r\n", "\u{301}"];
    let (n, m) = if th { (400_000, 60_000) } else { (120_000, 10_000) };
    let mut v = vec![];
    for (i, a) in al.iter().enumerate() {
        v.push((a.repeat(n), STYLES[i % 3]));
        for (k, b) in al.iter().enumerate() {
            if i != k {
                v.push((format!("{}{}", a, b).repeat(m), STYLES[(i + k) % 3]));
                v.push((format!("{}{}", a.repeat(m), b), STYLES[(i + k) % 3]));
            }
        }
    }
    v
}

/// Runs a share of the deep texts, saying which one before each (in a process of its own)
pub fn deep_run(share: usize, shares: usize, tier: Tier) {
    use std::io::Write;
    let t = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
        for (i, (s, st)) in deep_texts(tier == Tier::Thorough).iter().enumerate().filter(|(i, _)| i % shares == share) {
            println!("{}", i);
            std::io::stdout().flush().ok();
            let mut fb = blitstr::new_fr_buf();
            let mut c = Cursor::new(0, 0, 0);
            blitstr::paint_str(&mut fb, blitstr::ClipRect::padded_screen(), &mut c, *st, s);
        }
    });
    if t.unwrap().join().is_err() {
        std::process::exit(7);
    }
}

/// Very long texts in an unoptimised build on a small stack
fn deep(root: &str, th: bool) -> Stats {
    if std::env::var_os("MC_EVIDENCE").is_some() {
        return Stats::default();
    }
    let exe = format!("{}/mc/target/debug/mc", root);
    let shares = 8;
    let kids: Vec<_> = (0..shares)
        .map(|i| {
            std::process::Command::new(&exe)
                .args(["deep", &i.to_string(), &shares.to_string()])
                .stdout(std::process::Stdio::piped())
                .stderr(std::process::Stdio::null())
                .spawn()
                .unwrap_or_else(|e| {
                    eprintln!("cannot start {}: {}", exe, e);
                    std::process::exit(3);
                })
        })
        .collect();
    let texts = deep_texts(th);
    let mut st = Stats::default();
    for k in kids {
        let o = k.wait_with_output().unwrap();
        let last = String::from_utf8_lossy(&o.stdout).lines().last().and_then(|l| l.parse::<usize>().ok());
        st.states += String::from_utf8_lossy(&o.stdout).lines().count() as u64;
        if !o.status.success() {
            let Some(i) = last else {
                eprintln!("{} did not start: {}", exe, o.status);
                std::process::exit(3);
            };
            let (s, sty) = &texts[i];
            violation_op(
                &format!("an unoptimised build ends with {} (stack of 2 MB) on a text of {} bytes", o.status, s.len()),
                &Op::paint(blitstr::ClipRect::padded_screen(), Cursor::new(0, 0, 0), *sty, s),
                "unoptimised build, thread with 2 MB of stack",
            );
        }
    }
    st.transitions = st.states;
    st.nontrivial = st.states;
    st.space(format!("{} texts of up to {} bytes in an unoptimised build on a stack of 2 MB", texts.len(), texts.iter().map(|t| t.0.len()).max().unwrap()));
    st
}

/// The remaining public functions never panic
fn totals(c: &Ctx) -> Stats {
    let mut st = Stats::default();
    let v = values();
    let mut chk = |what: String, r: Result<(), String>| {
        st.states += 1;
        st.transitions += 1;
        st.nontrivial += 1;
        if let Err(e) = r {
            violation(&format!("{}: {}", what, e), &what, format!("\"what\":{}", crate::json::esc(&e)));
        }
    };
    for &a in &v {
        chk(format!("GlyphStyle::from({})", a), guard(|| { let _ = GlyphStyle::from(a); }));
        for &b in &v {
            for &x in &v {
                chk(format!("Cursor::new({},{},{})", a, b, x), guard(|| { let _ = Cursor::new(a, b, x); }));
                for &y in &v {
                    chk(format!("ClipRect::new({},{},{},{})", a, b, x, y), guard(|| {
                        let r = ClipRect::new(a, b, x, y);
                        let _ = Cursor::from_top_left_of(r);
                    }));
                }
            }
        }
    }
    for k in 0..4 {
        let mut fb = base_pattern(k);
        for (n, d) in [("sample_text", demo::sample_text as fn(&mut FrBuf)), ("short_greeting", demo::short_greeting), ("goose_poem", demo::goose_poem)] {
            chk(format!("demo::{} {}", n, k), guard(|| d(&mut fb)));
        }
    }
    let _ = c;
    st.space("constructors, conversions and demos".into());
    st
}

fn values() -> Vec<usize> {
    const M: usize = usize::MAX;
    vec![0, 1, 2, 3, 5, 6, 31, 32, 330, 335, 336, 337, 530, 535, 536, 537, 1 << 31, 1 << 32, M / 2, M - 1, M]
}

fn styles(c: &Ctx, env: &Env) -> Stats {
    let mut st = Stats::default();
    let bad = |what: String| violation(&what.clone(), &what, format!("\"what\":{}", crate::json::esc(&what)));
    // style -> number -> style, and every number
    let mut seen = vec![];
    for s in STYLES {
        let n: usize = s.into();
        if GlyphStyle::from(n) != s {
            bad(format!("{:?} becomes {} and then {:?}", s, n, GlyphStyle::from(n)));
        }
        if seen.contains(&n) {
            bad(format!("two styles have the number {}", n));
        }
        if n != s as usize {
            bad(format!("{:?} converts to {} and casts to {}", s, n, s as usize));
        }
        seen.push(n);
        st.transitions += 1;
        st.states += 1;
        st.nontrivial += 1;
    }
    let mut nums: Vec<usize> = (0..1 << 20).collect();
    for b in 20..64 {
        for d in 0..64usize {
            nums.push((1usize << b).wrapping_add(d));
            nums.push((1usize << b).wrapping_sub(d));
        }
    }
    for d in 0..64 {
        nums.push(usize::MAX - d);
    }
    for n in nums {
        let want = match n {
            0 => GlyphStyle::Small,
            2 => GlyphStyle::Bold,
            _ => GlyphStyle::Regular,
        };
        st.transitions += 1;
        st.states += 1;
        match guard(|| GlyphStyle::from(n)) {
            Ok(g) => {
                st.nontrivial += 1;
                if g != want {
                    bad(format!("number {} becomes {:?}, expected {:?}", n, g, want));
                }
            }
            Err(e) => bad(format!("number {}: {}", n, e)),
        }
    }
    st.samples.push("\"GlyphStyle::from(0..2^20)\"".into());
    // the hint is the line height of every Latin cluster
    let full = ClipRect::full_screen();
    let mut w = Work::new();
    for s in STYLES {
        let hint = glyph_to_height_hint(s);
        let f = latin_font(s);
        for (cl, _) in &c.o.fonts[f].clusters {
            if !matches!(c.o.next_token(s, cl).0, Tok::Glyph { font, .. } if font == f) {
                continue;
            }
            let op = Op::paint(full, Cursor::new(20, 20, 0), s, cl);
            st.states += 1;
            match run(&op, &mut w.fb) {
                Err(e) => violation_op(&e, &op, ""),
                Ok(r) => {
                    st.transitions += 1;
                    st.nontrivial += 1;
                    if r.line_height != hint {
                        violation_op(&format!("line height {} but the hint for {:?} is {}", r.line_height, s, hint), &op, "");
                    }
                    // no ink below the hinted height
                    if let Some((x, y)) = outside(&w.fb, &w.base, rect(0, 20, WIDTH, 20 + hint)) {
                        violation_op(&format!("ink at ({},{}) outside the hinted height {}", x, y, hint), &op, "");
                    }
                    // a newline afterwards moves down by the hint (at least the smallest line)
                    let o2 = Op::paint(full, Cursor::new(r.pt.x, r.pt.y, r.line_height), s, "\n");
                    if let Ok(r2) = run(&o2, &mut w.fb) {
                        st.transitions += 1;
                        if r2.pt.y != 20 + hint + 1 {
                            violation_op(&format!("a newline after {:?} text moves to line {}, expected {}", s, r2.pt.y, 20 + hint + 1), &op, "");
                        }
                    }
                }
            }
            w.restore();
        }
    }
    st.space("all numbers below 2^20 and around every power of two; every Latin cluster in every style".into());
    // wherever it is painted: wrapped, cut, invisible, at every column
    let mut sets: Vec<(ClipRect, Cursor)> = vec![
        (full, Cursor::new(0, 0, 0)),
        (full, Cursor::new(335, 20, 0)),
        (full, Cursor::new(400, 700, 0)),
        (full, Cursor::new(10, 530, 0)),
        (full, Cursor::new(10, 536, 0)),
        (ClipRect::padded_screen(), Cursor::new(0, 0, 0)),
        (rect(10, 40, 100, 41), Cursor::new(10, 20, 0)),
        (rect(10, 40, 100, 40), Cursor::new(10, 40, 0)),
        (rect(10, 90, 100, 40), Cursor::new(10, 40, 0)),
        (rect(10, 40, 12, 80), Cursor::new(10, 40, 0)),
        (rect(100, 40, 140, 80), Cursor::new(3, 60, 0)),
        (rect(100, 0, 140, 536), Cursor::new(100, 0, 0)),
    ];
    sets.extend((0..340).map(|x| (full, Cursor::new(x, 3 * (x % 60), 0))));
    let cl: Vec<(GlyphStyle, &String)> = STYLES
        .iter()
        .flat_map(|s| c.o.fonts[latin_font(*s)].clusters.iter().map(move |(cl, _)| (*s, cl)))
        .filter(|(s, cl)| matches!(c.o.next_token(*s, cl), (Tok::Glyph { font, .. }, n) if font == latin_font(*s) && n == cl.len()))
        .collect();
    let r = par(cl.len(), Work::new, |w, i, st| {
        let (s, t) = cl[i];
        let hint = glyph_to_height_hint(s);
        let one = |w: &mut Work, st: &mut Stats, clip: ClipRect, cur: Cursor, t: &str| {
            let op = Op::paint(clip, cur, s, t);
            st.states += 1;
            st.transitions += 1;
            match run(&op, &mut w.fb) {
                Err(e) => violation_op(&e, &op, ""),
                Ok(r) => {
                    st.nontrivial += 1;
                    if r.line_height != hint {
                        violation_op(&format!("line height {} but the hint for {:?} is {}", r.line_height, s, hint), &op, "");
                    }
                }
            }
            w.restore();
        };
        for (clip, cur) in &sets {
            one(w, st, *clip, *cur, t);
        }
        for (k, u) in env.few(s, 400).iter().filter(|u| matches!(c.o.next_token(s, u).0, Tok::Glyph { font, .. } if font == latin_font(s))).enumerate() {
            // not a pair which is a cluster of its own
            let pair = format!("{}{}", t, u);
            if c.o.tokens(s, &pair).iter().all(|(k, _)| matches!(k, Tok::Glyph { font, .. } if *font == latin_font(s))) {
                for (clip, cur) in [sets[0], sets[k % sets.len()], sets[10]] {
                    one(w, st, clip, cur, &pair);
                }
            }
        }
    });
    st.add(&r);
    st.space(format!("{} Latin clusters x {} rectangles and cursors, and in pairs", cl.len(), sets.len()));
    st
}

fn equivalents(c: &Ctx, th: bool) -> Stats {
    let t = include_str!("../data/equivalents.txt");
    let mk = |h: &str| -> String { h.split('-').map(|x| char::from_u32(u32::from_str_radix(x, 16).unwrap()).unwrap()).collect() };
    let pairs: Vec<(String, String)> = t
        .lines()
        .filter(|l| !l.starts_with('#') && !l.is_empty())
        .map(|l| {
            let v: Vec<&str> = l.split(' ').collect();
            (mk(v[0]), mk(v[1]))
        })
        .collect();
    let ctx: &[(&str, &str)] = if th {
        &[("", ""), ("A", ""), ("", "A"), ("A", "B"), ("😸", ""), ("", "😸"), ("\n", "\n"), ("e\u{301}", "é"), ("\u{378}", "\u{378}"), ("中", "中"), ("e", "e"), (" ", "\u{378}")]
    } else {
        &[("", ""), ("A", "B"), ("😸", ""), ("e\u{301}", "中"), ("\n", "\u{378}")]
    };
    let clips = [(ClipRect::full_screen(), 40), (rect(10, 10, 30, 200), 12), (rect(280, 500, 336, 536), 300)];
    let mut r = par(pairs.len(), Work::new, |w, i, st| {
        let (a, b) = &pairs[i];
        for (pre, post) in ctx {
            let (x, y) = (format!("{}{}{}", pre, a, post), format!("{}{}{}", pre, b, post));
            for sty in STYLES {
                for (ci, (clip, x0)) in clips.iter().enumerate() {
                    for al in 0..32 {
                        if ci > 0 && al % 8 != 0 && !th {
                            continue;
                        }
                        st.states += 1;
                        let cur = Cursor::new(x0 + al, clip.min.y + 20, 0);
                        equivalent(c, w, st, &Op::paint(*clip, cur, sty, &x), &Op::paint(*clip, cur, sty, &y));
                    }
                }
            }
        }
        // runs of both spellings
        for n in [2, 3, 17] {
            let (x, y) = (a.repeat(n), b.repeat(n));
            for sty in STYLES {
                st.states += 1;
                let cur = Cursor::new(0, 0, 0);
                equivalent(c, w, st, &Op::paint(clips[0].0, cur, sty, &x), &Op::paint(clips[0].0, cur, sty, &y));
            }
        }
    });
    r.space(format!("{} pairs of equivalent spellings x {} contexts x 3 styles x 3 clip rectangles x 32 alignments", pairs.len(), ctx.len()));
    r
}

fn constructors() -> Stats {
    let bad = |what: String| violation(&what.clone(), &what, format!("\"what\":{}", crate::json::esc(&what)));
    let sets: Vec<Vec<usize>> = vec![(0..16).collect(), values()];
    let mut total = Stats::default();
    for v in &sets {
        let n = v.len();
        let mut r = par(n * n, || (), |_, i, st| {
            let (a, b) = (v[i / n], v[i % n]);
            for &c in v {
                for &d in v {
                    st.states += 1;
                    st.transitions += 1;
                    match guard(|| ClipRect::new(a, b, c, d)) {
                        Err(e) => bad(format!("ClipRect::new({},{},{},{}): {}", a, b, c, d, e)),
                        Ok(r) => {
                            st.nontrivial += 1;
                            let want = rect(a.min(c), b.min(d), a.max(c), b.max(d));
                            if r != want || r.min.x != a.min(c) || r.min.y != b.min(d) || r.max.x != a.max(c) || r.max.y != b.max(d) {
                                bad(format!("ClipRect::new({},{},{},{}) is {:?}", a, b, c, d, r));
                            }
                            match guard(|| Cursor::from_top_left_of(rect(a, b, c, d))) {
                                Ok(k) => {
                                    if (k.pt.x, k.pt.y, k.line_height) != (a, b, 0) {
                                        bad(format!("Cursor::from_top_left_of(({},{})..({},{})) is {:?}", a, b, c, d, k));
                                    }
                                }
                                Err(e) => bad(format!("Cursor::from_top_left_of: {}", e)),
                            }
                        }
                    }
                }
                let k = Cursor::new(a, b, c);
                if (k.pt.x, k.pt.y, k.line_height) != (a, b, c) {
                    bad(format!("Cursor::new({},{},{}) is {:?}", a, b, c, k));
                }
                st.transitions += 1;
            }
            let p = Pt::new(a, b);
            if (p.x, p.y) != (a, b) {
                bad(format!("Pt::new({},{}) is {:?}", a, b, p));
            }
        });
        r.space(format!("{}^4 corner combinations", n));
        r.samples.push(format!("\"ClipRect::new({},{},{},{})\"", v[3], v[2], v[1], v[4]));
        total.add(&r);
    }
    // every pair of one coordinate, the other one in every order
    let mut far: Vec<usize> = (0..=600).collect();
    for b in 10..64 {
        for d in 0..3usize {
            far.push((1usize << b).wrapping_add(d));
            far.push((1usize << b).wrapping_sub(d));
        }
    }
    far.extend([usize::MAX - 1, usize::MAX]);
    far.sort();
    far.dedup();
    let r = par(far.len(), || (), |_, i, st| {
        let a = far[i];
        for &c in &far {
            for (b, d) in [(0, 0), (3, 9), (9, 3), (535, 536), (600, 20), (a, c), (c, a), (a, a)] {
                for t in [false, true] {
                    let (x0, y0, x1, y1) = if t { (b, a, d, c) } else { (a, b, c, d) };
                    st.states += 1;
                    st.transitions += 1;
                    st.nontrivial += 1;
                    match guard(|| ClipRect::new(x0, y0, x1, y1)) {
                        Err(e) => bad(format!("ClipRect::new({},{},{},{}): {}", x0, y0, x1, y1, e)),
                        Ok(r) => {
                            if (r.min.x, r.min.y, r.max.x, r.max.y) != (x0.min(x1), y0.min(y1), x0.max(x1), y0.max(y1)) {
                                bad(format!("ClipRect::new({},{},{},{}) is {:?}", x0, y0, x1, y1, r));
                            }
                            let k = Cursor::from_top_left_of(r);
                            if (k.pt.x, k.pt.y, k.line_height) != (r.min.x, r.min.y, 0) {
                                bad(format!("Cursor::from_top_left_of({:?}) is {:?}", r, k));
                            }
                        }
                    }
                }
            }
            for lh in [0, a, c, 24, 1 << 33] {
                let k = Cursor::new(a, c, lh);
                st.transitions += 1;
                if (k.pt.x, k.pt.y, k.line_height) != (a, c, lh) {
                    bad(format!("Cursor::new({},{},{}) is {:?}", a, c, lh, k));
                }
            }
            let p = Pt::new(a, c);
            if (p.x, p.y) != (a, c) {
                bad(format!("Pt::new({},{}) is {:?}", a, c, p));
            }
        }
    });
    total.add(&r);
    total.space(format!("{}^2 pairs of columns and of lines, each with 8 pairs of the other coordinate", far.len()));
    let f = ClipRect::full_screen();
    let q = ClipRect::padded_screen();
    if f != rect(0, 0, WIDTH, LINES) {
        bad(format!("full_screen is {:?}", f));
    }
    if q != rect(6, 6, WIDTH - 6, LINES - 6) {
        bad(format!("padded_screen is {:?}", q));
    }
    if blitstr::new_fr_buf().iter().any(|w| *w != 0xffff0000) {
        bad("new_fr_buf is not striped".into());
    }
    total.transitions += 3;
    total
}

/// Equality is equality of all numbers; points are ordered by x, then y; copies are equal
fn comparisons() -> Stats {
    let bad = |what: String| violation(&what.clone(), &what, format!("\"what\":{}", crate::json::esc(&what)));
    let v = [0, 1, 2, 5, 6, 31, 32, 33, 255, 256, 330, 336, 536, 1 << 16, 1 << 31, 1 << 32, (1 << 32) + 1, usize::MAX / 2, usize::MAX - 1, usize::MAX];
    let n = v.len();
    let mut total = par(n * n, || (), |_, i, st| {
        let (a, b) = (v[i / n], v[i % n]);
        let p = Pt::new(a, b);
        for &c in &v {
            for &d in &v {
                let q = Pt::new(c, d);
                st.states += 1;
                st.transitions += 1;
                st.nontrivial += 1;
                if (p == q) != ((a, b) == (c, d)) || (p != q) != ((a, b) != (c, d)) {
                    bad(format!("{:?} == {:?} is {}", p, q, p == q));
                }
                if p.partial_cmp(&q) != (a, b).partial_cmp(&(c, d)) || (p < q) != ((a, b) < (c, d)) || (p <= q) != ((a, b) <= (c, d)) || (p > q) != ((a, b) > (c, d)) || (p >= q) != ((a, b) >= (c, d)) {
                    bad(format!("the order of {:?} and {:?} is {:?}", p, q, p.partial_cmp(&q)));
                }
            }
        }
    });
    total.space(format!("equality and order of {}^2 points with each other", n));
    let w = [0, 1, 2, 24, 30, 32, 336, 1 << 32, usize::MAX];
    let m = w.len();
    let cur: Vec<(usize, usize, usize)> = (0..m * m * m).map(|i| (w[i / m / m], w[i / m % m], w[i % m])).collect();
    let mut r = par(cur.len(), || (), |_, i, st| {
        let (a, b, h) = cur[i];
        let k = Cursor { pt: Pt { x: a, y: b }, line_height: h };
        for o in &cur {
            let l = Cursor { pt: Pt { x: o.0, y: o.1 }, line_height: o.2 };
            st.states += 1;
            st.transitions += 1;
            st.nontrivial += 1;
            if (k == l) != (cur[i] == *o) || (k != l) != (cur[i] != *o) {
                bad(format!("{:?} == {:?} is {}", k, l, k == l));
            }
        }
        #[allow(clippy::clone_on_copy)]
        for l in [k, k.clone()] {
            if (l.pt.x, l.pt.y, l.line_height) != (a, b, h) {
                bad(format!("a copy of {:?} is {:?}", k, l));
            }
        }
    });
    r.space(format!("equality of {} cursors with each other", cur.len()));
    total.add(&r);
    let w = [0, 1, 6, 336, usize::MAX];
    let m = w.len();
    let rs: Vec<[usize; 4]> = (0..m * m * m * m).map(|i| [w[i / m / m / m], w[i / m / m % m], w[i / m % m], w[i % m]]).collect();
    let mk = |r: &[usize; 4]| ClipRect { min: Pt { x: r[0], y: r[1] }, max: Pt { x: r[2], y: r[3] } };
    let mut r = par(rs.len(), || (), |_, i, st| {
        let k = mk(&rs[i]);
        for o in &rs {
            let l = mk(o);
            st.states += 1;
            st.transitions += 1;
            st.nontrivial += 1;
            if (k == l) != (rs[i] == *o) || (k != l) != (rs[i] != *o) {
                bad(format!("{:?} == {:?} is {}", k, l, k == l));
            }
        }
        #[allow(clippy::clone_on_copy)]
        for l in [k, k.clone()] {
            if [l.min.x, l.min.y, l.max.x, l.max.y] != rs[i] {
                bad(format!("a copy of {:?} is {:?}", k, l));
            }
        }
    });
    r.space(format!("equality of {} rectangles with each other", rs.len()));
    total.add(&r);
    total
}

fn visible(fb: &FrBuf) -> FrBuf {
    let mut v = *fb;
    for y in 0..LINES {
        v[y * 11 + 10] &= 0xffff;
    }
    v
}

/// The screen part of a screenshot in the documentation: width, height and which pixels are on.
/// A screenshot has three colours: the page's border, the screen's background and the ink.
fn pictured(name: &str) -> Option<(usize, usize, Vec<bool>)> {
    let b = std::fs::read(format!("/repo/doc/{}.png", name)).ok()?;
    let img = guard(|| crate::png::decode(&b)).ok()?;
    let px = |x: usize, y: usize| img.red[y * img.w + x];
    let border = px(0, 0);
    let ink = *img.red.iter().min()?;
    let inner: Vec<(usize, usize)> = (0..img.w * img.h).map(|i| (i % img.w, i / img.w)).filter(|(x, y)| px(*x, *y) != border).collect();
    let (x0, x1) = (inner.iter().map(|p| p.0).min()?, inner.iter().map(|p| p.0).max()? + 1);
    let (y0, y1) = (inner.iter().map(|p| p.1).min()?, inner.iter().map(|p| p.1).max()? + 1);
    // not a picture of a screen at its own size
    if x1 - x0 != WIDTH || img.red.iter().collect::<std::collections::HashSet<_>>().len() != 3 {
        return None;
    }
    Some((x1 - x0, y1 - y0, (y0..y1).flat_map(|y| (x0..x1).map(move |x| (x, y))).map(|(x, y)| px(x, y) == ink).collect()))
}

fn demos(th: bool) -> Stats {
    let ds: [(&str, fn(&mut FrBuf)); 3] = [("sample_text", demo::sample_text), ("short_greeting", demo::short_greeting), ("goose_poem", demo::goose_poem)];
    let mut st = Stats::default();
    let first: Vec<FrBuf> = ds
        .iter()
        .map(|(_, d)| {
            let mut fb = blitstr::new_fr_buf();
            let _ = guard(|| d(&mut fb));
            visible(&fb)
        })
        .collect();
    for (n, fb) in ds.iter().map(|d| d.0).zip(&first) {
        match pictured(n) {
            None => st.space(format!("{}: no picture in the documentation", n)),
            Some((w, h, ink)) => {
                let on = |x: usize, y: usize| x < WIDTH && y < LINES && fb[y * 11 + x / 32] >> (x % 32) & 1 == 0;
                if let Some((x, y)) = (0..w * h).map(|i| (i % w, i / w)).find(|(x, y)| on(*x, *y) != ink[y * w + x]) {
                    let m = format!("{} on a fresh screen: pixel ({},{}) is {}, in doc/{}.png it is not", n, x, y, if on(x, y) { "on" } else { "off" }, n);
                    violation(&m, &m, format!("\"what\":{}", crate::json::esc(&m)));
                }
                if let Some(y) = (h..LINES).find(|y| (0..WIDTH).any(|x| on(x, *y))) {
                    let m = format!("{} on a fresh screen: line {} below the part shown in doc/{}.png is not empty", n, y, n);
                    violation(&m, &m, format!("\"what\":{}", crate::json::esc(&m)));
                }
                st.space(format!("{}: all {} x {} pixels of the picture in the documentation", n, w, h));
            }
        }
        st.transitions += 1;
    }
    // initial states: fresh, all zero, all one, patterns, one with text on it
    let mut init: Vec<FrBuf> = vec![blitstr::new_fr_buf(), [0; blitstr::FRAME_BUF_SIZE], [!0; blitstr::FRAME_BUF_SIZE]];
    for k in 0..if th { 64 } else { 12 } {
        init.push(base_pattern(k));
    }
    // every single visible or padding bit of some lines alone
    for y in [0, 1, 5, 6, 7, 40, 300, 529, 530, 535] {
        for x in 0..352 {
            let mut fb = blitstr::new_fr_buf();
            fb[y * 11 + x / 32] ^= 1 << (x % 32);
            init.push(fb);
        }
    }
    let mut seen = std::collections::HashSet::new();
    // a state, how it was reached, and the same to run it again
    let mut frontier: Vec<(FrBuf, String, FrBuf, Vec<usize>)> = vec![];
    for (i, f) in init.into_iter().enumerate() {
        if seen.insert(digest(&f, Cursor::new(0, 0, 0))) {
            frontier.push((f, format!("initial content {}", i), f, vec![]));
        }
    }
    let mut depth = 0;
    while !frontier.is_empty() && depth < 6 {
        depth += 1;
        let mut next = vec![];
        for (f, h, f0, path) in &frontier {
            for (k, (n, d)) in ds.iter().enumerate() {
                let mut fb = *f;
                let r = guard(|| d(&mut fb));
                st.transitions += 1;
                let h2 = format!("{}, {}", h, n);
                if let Err(e) = r {
                    violation(&format!("{}: {}", h2, e), &h2, format!("\"what\":{}", crate::json::esc(&h2)));
                    continue;
                }
                if visible(&fb)[..] != first[k][..] {
                    let w = format!("after [{}] the screen of {} differs from its first painting: {}", h, n, diff_pixels(&visible(&fb), &first[k]));
                    violation(&w, &h2, format!("\"what\":{}", crate::json::esc(&w)));
                }
                for y in 0..LINES {
                    if (fb[y * 11 + 10] ^ f[y * 11 + 10]) >> 16 != 0 {
                        let w = format!("[{}] changed padding bits of line {}", h2, y);
                        violation(&w, &h2, format!("\"what\":{}", crate::json::esc(&w)));
                        break;
                    }
                }
                if fb[..] != f[..] {
                    st.nontrivial += 1;
                }
                if seen.insert(digest(&fb, Cursor::new(0, 0, 0))) {
                    if st.samples.len() < 3 {
                        st.samples.push(crate::json::esc(&h2));
                    }
                    // the trace again from its initial content
                    let mut again = *f0;
                    let mut path = path.clone();
                    path.push(k);
                    for i in &path {
                        let _ = guard(|| ds[*i].1(&mut again));
                    }
                    st.traces += 1;
                    if again[..] != fb[..] {
                        let w = format!("[{}] painted again from the start gives another screen", h2);
                        violation(&w, &h2, format!("\"what\":{}", crate::json::esc(&w)));
                    }
                    next.push((fb, h2, *f0, path));
                }
            }
        }
        frontier = next;
    }
    st.states = seen.len() as u64;
    st.space(format!("{} frame buffer states, depth {}, {}", seen.len(), depth, if frontier.is_empty() { "fixpoint" } else { "bound reached" }));
    st
}

/// Every demo on screens which are clear, black or another demo's except for one word or pixel
fn demo_contents(th: bool) -> Stats {
    let ds: [(&str, fn(&mut FrBuf)); 3] = [("sample_text", demo::sample_text), ("short_greeting", demo::short_greeting), ("goose_poem", demo::goose_poem)];
    let mut bases: Vec<(String, FrBuf)> = vec![("clear".into(), [!0; blitstr::FRAME_BUF_SIZE]), ("black".into(), [0; blitstr::FRAME_BUF_SIZE]), ("fresh".into(), blitstr::new_fr_buf())];
    let first: Vec<FrBuf> = ds
        .iter()
        .map(|(n, d)| {
            let mut fb = blitstr::new_fr_buf();
            let _ = guard(|| d(&mut fb));
            bases.push((format!("after {}", n), fb));
            visible(&fb)
        })
        .collect();
    let fam = words();
    let masks: Vec<u32> = if th { fam.clone() } else { vec![!0] };
    let nb = if th { bases.len() } else { 6 };
    let mut r = par(blitstr::FRAME_BUF_SIZE, || (), |_, i, st| {
        for (b, (bn, base)) in bases[..nb].iter().enumerate() {
            // quick: the whole word and one more mask, a different one for every word
            let own = fam[(i * 5 + b * 3) % fam.len()];
            for m in masks.iter().chain([&own]) {
                if th && b > 1 && m.count_ones() > 1 && m.count_zeros() > 0 {
                    continue;
                }
                for (k, (n, d)) in ds.iter().enumerate() {
                    if th && b > 1 && k != i % 3 {
                        continue;
                    }
                    let mut fb = *base;
                    fb[i] ^= m;
                    let pad = fb[i];
                    let h = format!("a {} screen with word {} of line {} changed by {:08x}, then {}", bn, i % 11, i / 11, m, n);
                    st.transitions += 1;
                    st.states += 1;
                    st.nontrivial += 1;
                    if let Err(e) = guard(|| d(&mut fb)) {
                        violation(&format!("{}: {}", h, e), &h, format!("\"what\":{}", crate::json::esc(&h)));
                        return;
                    }
                    if visible(&fb)[..] != first[k][..] {
                        let w = format!("{}: the screen differs from its first painting: {}", h, diff_pixels(&visible(&fb), &first[k]));
                        violation(&w, &h, format!("\"what\":{}", crate::json::esc(&w)));
                        return;
                    }
                    if i % 11 == 10 && (fb[i] ^ pad) >> 16 != 0 {
                        let w = format!("{}: padding bits changed", h);
                        violation(&w, &h, format!("\"what\":{}", crate::json::esc(&w)));
                        return;
                    }
                }
            }
        }
    });
    r.traces = r.transitions;
    r.space(format!("6 screens with one of the {} words changed ({} ways) x 3 demos", blitstr::FRAME_BUF_SIZE, if th { fam.len() } else { 2 }));
    r
}

/// Digests of a battery of operations, to compare two builds of the library
pub fn digests(tier: Tier, only: &str) {
    let env = Env::new(Oracle::load("/repo/codegen"), tier);
    let shards: Vec<std::sync::Mutex<std::collections::BTreeMap<String, (u64, u64)>>> = (0..64).map(|_| Default::default()).collect();
    let j = |w: &mut Work, _: &mut Stats, op: &Op| {
        let d = match run(op, &mut w.fb) {
            Ok(r) => digest(&w.fb, r),
            Err(_) => 1,
        };
        w.restore();
        let mut h = 0xcbf29ce484222325u64;
        let mut put = |v: u64| h = (h ^ v).wrapping_mul(0x100000001b3).rotate_left(23);
        for b in op.s.bytes() {
            put(b as u64);
        }
        for v in [op.clip.min.x, op.clip.min.y, op.clip.max.x, op.clip.max.y, op.cur.pt.x, op.cur.pt.y, op.cur.line_height, op.st as usize] {
            put(v as u64);
        }
        let blk = format!("{:?}-{:04X}", op.st, op.s.chars().next().map(|c| c as u32 >> 8).unwrap_or(0));
        if !only.is_empty() {
            if blk == only {
                println!("{:016x} {}", d, op.json());
            }
            return;
        }
        // order-independent, per style and block of 256 first code points
        let mut m = shards[(h % 64) as usize].lock().unwrap();
        let e = m.entry(blk).or_default();
        e.0 = e.0.wrapping_add(d.wrapping_mul(h | 1));
        e.1 += 1;
    };
    env.aligned(j);
    env.scalars(if tier == Tier::Thorough { 8 } else { 2 }, j);
    env.damaged(j);
    env.texts(if tier == Tier::Thorough { 4 } else { 3 }, j);
    if tier == Tier::Thorough {
        env.cluster_pairs(j);
    }
    let mut all = std::collections::BTreeMap::<String, (u64, u64)>::new();
    for s in shards {
        for (k, v) in s.into_inner().unwrap() {
            let e = all.entry(k).or_default();
            e.0 = e.0.wrapping_add(v.0);
            e.1 += v.1;
        }
    }
    for (k, v) in all {
        println!("{} {} {:016x}", k, v.1, v.0);
    }
}

/// All supported clusters (input of tools/collisions.py)
pub fn clusters() {
    let o = Oracle::load("/repo/codegen");
    for (f, font) in o.fonts.iter().enumerate() {
        for (c, _) in &font.clusters {
            println!("{} {}", FONT_NAMES[f], cps(c));
        }
    }
}

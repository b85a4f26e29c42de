//! C13: the result of an operation depends on its arguments only. Baselines come from fresh
//! processes which run nothing but that operation; explorations run histories and interleavings
//! of operations in one process and compare every operation with its baseline.
use crate::ctx::digest;
use crate::engine::*;
use crate::oracle::*;
use crate::spaces::*;
use blitstr::{ClipRect, Cursor, FrBuf, GlyphStyle, Pt};
use std::process::{Command, Stdio};

#[derive(Clone, Debug)]
pub struct HOp {
    pub kind: u8, // 0 paint, 1 clear, 2.. demos
    pub clip: ClipRect,
    pub cur: Cursor,
    pub st: GlyphStyle,
    pub s: String,
}

impl HOp {
    fn line(&self) -> String {
        format!(
            "{} {} {} {} {} {} {} {} {} {}",
            self.kind, self.clip.min.x, self.clip.min.y, self.clip.max.x, self.clip.max.y, self.cur.pt.x, self.cur.pt.y,
            self.cur.line_height, self.st as usize, if self.s.is_empty() { "-".into() } else { cps(&self.s) }
        )
    }
    fn parse(l: &str) -> HOp {
        let v: Vec<&str> = l.split(' ').collect();
        let n = |i: usize| v[i].parse::<usize>().unwrap();
        HOp {
            kind: n(0) as u8,
            clip: ClipRect { min: Pt::new(n(1), n(2)), max: Pt::new(n(3), n(4)) },
            cur: Cursor::new(n(5), n(6), n(7)),
            st: STYLES[n(8)],
            s: if v[9] == "-" {
                String::new()
            } else {
                v[9].split('-').map(|x| char::from_u32(u32::from_str_radix(x, 16).unwrap()).unwrap()).collect()
            },
        }
    }
    /// Run on fb; gives the cursor afterwards
    fn run(&self, fb: &mut FrBuf) -> Result<Cursor, String> {
        // every text lies at the same place in memory, one after the other
        ARENA.with(|a| {
            let mut a = a.borrow_mut();
            if self.s.len() > a.len() {
                return self.run_text(&self.s, fb);
            }
            a[..self.s.len()].copy_from_slice(self.s.as_bytes());
            self.run_text(std::str::from_utf8(&a[..self.s.len()]).unwrap(), fb)
        })
    }
    /// Run with this text
    fn run_text(&self, s: &str, fb: &mut FrBuf) -> Result<Cursor, String> {
        match self.kind {
            0 => run(&Op::paint(self.clip, self.cur, self.st, s), fb),
            1 => run(&Op::clear(self.clip), fb),
            k => guard(|| {
                match k {
                    2 => blitstr::demo::sample_text(fb),
                    3 => blitstr::demo::short_greeting(fb),
                    _ => blitstr::demo::goose_poem(fb),
                }
                self.cur
            }),
        }
    }
    fn result(&self, fb: &mut FrBuf, base: &FrBuf) -> u64 {
        *fb = *base;
        match self.run(fb) {
            Ok(c) => digest(fb, c),
            Err(e) => err_digest(&e),
        }
    }
    /// As result, but looks at (and restores) the first lines of the buffer only
    fn top(&self, fb: &mut FrBuf, base: &FrBuf) -> u64 {
        const N: usize = 64 * 11;
        let r = match self.run(fb) {
            Ok(c) => top_digest(&fb[..N], c),
            Err(e) => err_digest(&e),
        };
        fb[..N].copy_from_slice(&base[..N]);
        r
    }
}

thread_local! {
    static ARENA: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(vec![0; 1 << 16]);
}

fn err_digest(e: &str) -> u64 {
    e.bytes().fold(1u64, |h, b| h.wrapping_mul(131).wrapping_add(b as u64))
}

fn top_digest(w: &[u32], c: Cursor) -> u64 {
    let mut h = [1u64, 2, 3, 4];
    for p in w.chunks_exact(8) {
        for k in 0..4 {
            h[k] = (h[k] ^ (p[2 * k] as u64 | (p[2 * k + 1] as u64) << 32)).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(31);
        }
    }
    let mut r = 0u64;
    for v in [h[0], h[1], h[2], h[3], c.pt.x as u64, c.pt.y as u64, c.line_height as u64] {
        r = (r ^ v).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29);
    }
    r
}

/// mc solo <op...>: digest of the operation, this process runs nothing else
pub fn solo(a: &[String]) {
    let op = HOp::parse(&a[1..].join(" "));
    let base = base_pattern(0);
    let mut fb = base;
    println!("{}", if a[0] == "pairs" { op.top(&mut fb, &base) } else { op.result(&mut fb, &base) });
}

fn baseline(kind: &str, ops: &[HOp]) -> Vec<u64> {
    let exe = std::env::current_exe().unwrap();
    let out = std::sync::Mutex::new(vec![0u64; ops.len()]);
    par(ops.len(), || (), |_, i, _| {
        let o = Command::new(&exe).args(["solo", kind]).args(ops[i].line().split(' ')).stderr(Stdio::null()).output().expect("solo");
        let v = String::from_utf8_lossy(&o.stdout).trim().parse().unwrap_or(0);
        out.lock().unwrap()[i] = v;
    });
    out.into_inner().unwrap()
}

/// The alphabet: operations which differ in one respect from another one each
pub fn battery() -> Vec<HOp> {
    let full = ClipRect::full_screen();
    let mut v = vec![];
    let p = |clip: ClipRect, x: usize, y: usize, lh: usize, st: GlyphStyle, s: &str| HOp { kind: 0, clip, cur: Cursor::new(x, y, lh), st, s: s.into() };
    use GlyphStyle::*;
    v.push(p(full, 10, 10, 0, Regular, "A"));
    v.push(p(full, 10, 10, 0, Bold, "A"));
    v.push(p(full, 10, 10, 0, Small, "A"));
    v.push(p(full, 10, 10, 0, Regular, "a"));
    v.push(p(full, 41, 10, 0, Regular, "A"));
    v.push(p(full, 10, 50, 0, Regular, "A"));
    v.push(p(full, 10, 10, 0, Regular, "e\u{301}"));
    v.push(p(full, 10, 10, 0, Regular, "é"));
    v.push(p(full, 10, 10, 0, Regular, "e"));
    v.push(p(full, 10, 10, 0, Regular, "\u{378}"));
    v.push(p(full, 10, 10, 0, Bold, "\u{378}"));
    v.push(p(full, 10, 10, 0, Regular, "😸"));
    v.push(p(full, 10, 10, 0, Regular, "👩"));
    v.push(p(full, 10, 10, 0, Regular, "👩🏽"));
    v.push(p(full, 10, 10, 0, Regular, "👩🏽‍🚀"));
    v.push(p(full, 10, 10, 0, Regular, "鹅"));
    v.push(p(full, 10, 10, 0, Small, "鹅"));
    v.push(p(full, 10, 10, 0, Regular, "\n"));
    v.push(p(full, 10, 10, 30, Regular, "\n"));
    v.push(p(full, 330, 10, 0, Regular, "W"));
    v.push(p(full, 10, 520, 0, Regular, "W"));
    v.push(p(full, 10, 600, 0, Regular, "W"));
    v.push(p(rect(10, 15, 20, 28), 10, 10, 0, Regular, "W"));
    v.push(p(rect(10, 15, 20, 28), 10, 10, 0, Regular, "WW\nW"));
    v.push(p(rect(20, 20, 10, 10), 10, 10, 0, Regular, "A"));
    v.push(p(rect(0, 0, 400, 536), 10, 10, 0, Regular, "A"));
    v.push(p(full, 10, 10, 0, Regular, ""));
    v.push(p(full, 0, 0, 0, Bold, "Hello, 😸! 你好 \u{378}e\u{301}\nagain and again until it wraps around twice, or so"));
    v.push(p(full, 0, 0, 0, Regular, "ia"));
    v.push(p(full, 0, 0, 0, Regular, "ai"));
    for c in [full, rect(10, 10, 20, 20), rect(10, 10, 52, 20), rect(20, 20, 10, 10), rect(335, 535, 336, 536), rect(0, 0, 32, 1)] {
        v.push(HOp { kind: 1, clip: c, cur: Cursor::new(0, 0, 0), st: Regular, s: String::new() });
    }
    for k in 2..5 {
        v.push(HOp { kind: k, clip: full, cur: Cursor::new(0, 0, 0), st: Regular, s: String::new() });
    }
    v
}

/// de Bruijn sequence B(k, n): every word of length n over k symbols occurs once (cyclically)
fn de_bruijn(k: usize, n: usize) -> Vec<u16> {
    let mut a = vec![0u16; k * n + 1];
    let mut out = vec![];
    // iterative form of the standard Lyndon word construction
    let mut t = 1;
    let mut stack: Vec<(usize, usize, u16)> = vec![]; // (t, p, next value)
    let mut p = 1;
    'outer: loop {
        if t > n {
            if n % p == 0 {
                out.extend_from_slice(&a[1..=p]);
            }
        } else {
            a[t] = a[t - p];
            stack.push((t, p, a[t] + 1));
            t += 1;
            continue;
        }
        loop {
            let Some((tt, pp, j)) = stack.pop() else { break 'outer };
            let _ = pp;
            if (j as usize) < k {
                a[tt] = j;
                stack.push((tt, pp, j + 1));
                t = tt + 1;
                p = tt;
                continue 'outer;
            }
        }
    }
    out
}

fn report(kind: &str, ops: &[HOp], base: &[u64], hist: &[usize]) {
    // shrink the history: the shortest suffix that still shows the difference in a fresh process
    let exe = std::env::current_exe().unwrap();
    let n = hist.len();
    let mut best = hist.to_vec();
    for k in 1..=n.min(6) {
        let h = &hist[n - k..];
        let f = format!("/tmp/mc-history-{}-{}", std::process::id(), k);
        std::fs::write(&f, h.iter().map(|i| ops[*i].line() + "\n").collect::<String>()).unwrap();
        let o = Command::new(&exe).args(["sweep", "C13", "history", &f, kind]).output().unwrap();
        let _ = std::fs::remove_file(&f);
        let last = String::from_utf8_lossy(&o.stdout).lines().last().unwrap_or("").trim().to_string();
        if last != base[h[k - 1]].to_string() {
            best = h.to_vec();
            break;
        }
    }
    let demo = ["", "", "demo::sample_text(fb)", "demo::short_greeting(fb)", "demo::goose_poem(fb)"];
    let txt: Vec<String> = best
        .iter()
        .map(|i| {
            let o = &ops[*i];
            match o.kind {
                0 => Op::paint(o.clip, o.cur, o.st, &o.s).json(),
                1 => Op::clear(o.clip).json(),
                k => format!("{{\"op\":\"{}\"}}", demo[k as usize]),
            }
        })
        .collect();
    let what = format!("the last of these {} calls gives another result than in a fresh process", best.len());
    println!("SWEEP-VIOLATION {{\"what\":\"{}\",\"ops\":[{}]}}", what, txt.join(","));
    std::process::exit(1);
}

fn read_ops(f: &str) -> (Vec<HOp>, Vec<u64>) {
    let t = std::fs::read_to_string(f).unwrap();
    let mut o = vec![];
    let mut b = vec![];
    for l in t.lines() {
        let (d, l) = l.split_once(' ').unwrap();
        o.push(HOp::parse(l));
        b.push(d.parse().unwrap());
    }
    (o, b)
}

/// One single-threaded exploration process
pub fn sweep(a: &[String], _tier: Tier) {
    if a[0] == "history" {
        let base = base_pattern(0);
        let mut fb = base;
        let mut last = 0;
        for l in std::fs::read_to_string(&a[1]).unwrap().lines() {
            let o = HOp::parse(l);
            last = if a[2] == "pairs" { o.top(&mut fb, &base) } else { o.result(&mut fb, &base) };
        }
        println!("{}", last);
        return;
    }
    let (ops, base_d) = read_ops(&a[1]);
    let n: usize = a[2].parse().unwrap();
    let part: usize = a[3].parse().unwrap();
    let parts: usize = a[4].parse().unwrap();
    let base = base_pattern(0);
    let mut fb = Box::new(base);
    let (mut trans, mut traces) = (0u64, 0u64);
    match a[0].as_str() {
        "words" => {
            // all words of length n: this process runs a part of the de Bruijn sequence, the
            // parts overlap by n - 1 symbols
            let seq = de_bruijn(ops.len(), n);
            let len = seq.len();
            let (lo, hi) = (len * part / parts, (len * (part + 1) / parts + n - 1).min(len + n - 1));
            let mut hist: Vec<usize> = vec![];
            for q in lo..hi {
                let i = seq[q % len] as usize;
                hist.push(i);
                if hist.len() > 64 {
                    hist.drain(..32);
                }
                trans += 1;
                if ops[i].result(&mut fb, &base) != base_d[i] {
                    report(&a[0], &ops, &base_d, &hist);
                }
                if q >= lo + n - 1 {
                    traces += 1;
                }
            }
        }
        "repeat" => {
            // one operation over and over
            for k in 0..n {
                trans += 1;
                if ops[part].result(&mut fb, &base) != base_d[part] {
                    println!(
                        "SWEEP-VIOLATION {{\"what\":\"call {} of a process that makes this same call over and over gives another result\",\"op\":{}}}",
                        k + 1, crate::json::esc(&ops[part].line())
                    );
                    std::process::exit(1);
                }
            }
            traces += 1;
        }
        "pairs" => {
            // all pairs (previous, current) of single-cluster paints
            let m = ops.len();
            for i in (part..m).step_by(parts) {
                for j in 0..m {
                    let r1 = ops[i].top(&mut fb, &base);
                    let r2 = ops[j].top(&mut fb, &base);
                    trans += 2;
                    traces += 1;
                    if r1 != base_d[i] {
                        report(&a[0], &ops, &base_d, &[i, j.wrapping_sub(1).min(m - 1), i]);
                    }
                    if r2 != base_d[j] {
                        report(&a[0], &ops, &base_d, &[i, j]);
                    }
                }
            }
        }
        "clients" => {
            // two clients with a frame buffer and a cursor each run programs of n operations;
            // all interleavings of their calls
            let m = ops.len();
            let progs: Vec<Vec<usize>> = (0..m.pow(n as u32)).map(|mut k| (0..n).map(|_| { let r = k % m; k /= m; r }).collect()).collect();
            let mut scheds: Vec<Vec<bool>> = vec![];
            for mask in 0..1u32 << (2 * n) {
                if mask.count_ones() as usize == n {
                    scheds.push((0..2 * n).map(|b| mask >> b & 1 == 1).collect());
                }
            }
            let step = |op: &HOp, fb: &mut FrBuf, c: &mut Cursor| {
                if op.kind == 0 {
                    let mut o = op.clone();
                    o.cur = *c;
                    *c = o.run(fb).unwrap_or(Cursor::new(77777, 0, 0));
                } else {
                    op.run(fb).ok();
                }
            };
            let start = Cursor::new(8, 12, 0);
            let alone: Vec<u64> = progs
                .iter()
                .map(|p| {
                    *fb = base;
                    let mut c = start;
                    for i in p {
                        step(&ops[*i], &mut fb, &mut c);
                    }
                    digest(&fb, c)
                })
                .collect();
            let mut fb2 = Box::new(base);
            for p in (part..progs.len()).step_by(parts) {
                for q in p..progs.len() {
                    for s in &scheds {
                        *fb = base;
                        *fb2 = base;
                        let (mut c1, mut c2) = (start, start);
                        let (mut i, mut j) = (0, 0);
                        for &b in s {
                            if b {
                                step(&ops[progs[p][i]], &mut fb, &mut c1);
                                i += 1;
                            } else {
                                step(&ops[progs[q][j]], &mut fb2, &mut c2);
                                j += 1;
                            }
                            trans += 1;
                        }
                        traces += 1;
                        if digest(&fb, c1) != alone[p] || digest(&fb2, c2) != alone[q] {
                            let f = |p: &Vec<usize>| p.iter().map(|i| ops[*i].line()).collect::<Vec<_>>().join(" | ");
                            println!(
                                "SWEEP-VIOLATION {{\"what\":\"a client's result depends on another client\",\"client1\":{},\"client2\":{},\"schedule\":\"{}\"}}",
                                crate::json::esc(&f(&progs[p])), crate::json::esc(&f(&progs[q])),
                                s.iter().map(|b| if *b { '1' } else { '2' }).collect::<String>()
                            );
                            std::process::exit(1);
                        }
                    }
                }
            }
        }
        "after" => {
            // one previous call with every value of one argument, then each operation
            let mut hist: Option<HOp> = None;
            let m = previous_count();
            for q in (part..m).step_by(parts) {
                if q / parts % n != 0 {
                    continue;
                }
                let prev = previous(q);
                for (i, o) in ops.iter().enumerate() {
                    *fb = base;
                    prev.run(&mut fb).ok();
                    trans += 2;
                    traces += 1;
                    if o.result(&mut fb, &base) != base_d[i] {
                        let f = |o: &HOp| match o.kind {
                            0 => Op::paint(o.clip, o.cur, o.st, &o.s).json(),
                            1 => Op::clear(o.clip).json(),
                            k => format!("{{\"op\":\"demo {}\"}}", k),
                        };
                        let two: Vec<String> = hist.iter().chain([&prev, o]).map(f).collect();
                        println!("SWEEP-VIOLATION {{\"what\":\"the last of these calls gives another result than in a fresh process\",\"ops\":[{}]}}", two.join(","));
                        std::process::exit(1);
                    }
                }
                hist = Some(prev);
            }
        }
        "places" => {
            // the same call with its text and its frame buffer at other places in memory, and
            // with other bytes around the text
            const AROUND: [&[u8]; 5] = [&[0], b"x", b"\n", "\u{301}".as_bytes(), "\u{1f3fd}\u{200d}".as_bytes()];
            let longest = ops.iter().map(|o| o.s.len()).max().unwrap();
            let mut texts = vec![0u8; n + longest + 64];
            let room = n.min(1024);
            let mut words = vec![0u32; room + base.len()];
            for k in (part..n).step_by(parts) {
                for (a, around) in AROUND.iter().enumerate() {
                    for (i, o) in ops.iter().enumerate() {
                        let l = around.len() as isize;
                        for j in k.saturating_sub(64)..k + o.s.len() + 64 {
                            let from = if j < k { k } else { k + o.s.len() };
                            texts[j] = around[(j as isize - from as isize).rem_euclid(l) as usize];
                        }
                        texts[k..k + o.s.len()].copy_from_slice(o.s.as_bytes());
                        let s = std::str::from_utf8(&texts[k..k + o.s.len()]).unwrap();
                        let at = (k * 5 + a) % room;
                        let fb: &mut FrBuf = (&mut words[at..at + base.len()]).try_into().unwrap();
                        *fb = base;
                        let d = match o.run_text(s, fb) {
                            Ok(c) => digest(fb, c),
                            Err(e) => err_digest(&e),
                        };
                        trans += 1;
                        traces += 1;
                        if d != base_d[i] {
                            println!(
                                "SWEEP-VIOLATION {{\"what\":\"a call gives another result with its text {} bytes and its frame buffer {} words into a block of memory, bytes {:?} around the text\",\"op\":{}}}",
                                k, at, around, crate::json::esc(&o.line())
                            );
                            std::process::exit(1);
                        }
                    }
                }
            }
        }
        "threads" => {
            // free-running threads (supplementary: not an exhaustive exploration)
            let bad = std::sync::atomic::AtomicUsize::new(usize::MAX);
            let r = par(parts * 8, || (Box::new(base), Box::new(base)), |w, ch, st| {
                for k in 0..n * ops.len() {
                    let i = (k * (2 * ch + 1) + ch) % ops.len();
                    st.transitions += 1;
                    if ops[i].result(&mut w.0, &w.1) != base_d[i] {
                        bad.store(i, std::sync::atomic::Ordering::Relaxed);
                        return;
                    }
                }
            });
            let b = bad.load(std::sync::atomic::Ordering::Relaxed);
            if b != usize::MAX {
                println!("SWEEP-VIOLATION {{\"what\":\"an operation gives another result while other threads paint into other buffers\",\"op\":{}}}", crate::json::esc(&ops[b].line()));
                std::process::exit(1);
            }
            trans = r.transitions;
        }
        _ => panic!("sweep"),
    }
    println!("SWEEP {} {}", trans, traces);
}

const SCALARS: usize = 0x110000 - 0x800;
const CURS: usize = 345 * 9 * 4;
const EDGES: usize = 337 * 337;
const LINEP: usize = 537 * 68;
const RUNS: usize = 700 * 6;

fn previous_count() -> usize {
    SCALARS + CURS + 2 * EDGES + 2 * LINEP + RUNS
}

/// The q-th previous call: every scalar value, cursors, pairs of edges painted in and cleared,
/// runs of every length
fn previous(q: usize) -> HOp {
    let full = ClipRect::full_screen();
    let mk = |kind, clip, cur, k: usize, s: String| HOp { kind, clip, cur, st: STYLES[k % 3], s };
    let mut q = q;
    if q < SCALARS {
        let v = if q < 0xd800 { q } else { q + 0x800 } as u32;
        return mk(0, full, Cursor::new(10, 10, 0), q, char::from_u32(v).unwrap().to_string());
    }
    q -= SCALARS;
    if q < CURS {
        let (x, y, l) = (q % 345, [0, 10, 255, 256, 500, 520, 535, 536, 600][q / 345 % 9], [0, 24, 33, 300][q / 345 / 9]);
        return mk(0, full, Cursor::new(x, y, l), q, "W".into());
    }
    q -= CURS;
    if q < 2 * EDGES {
        let (k, r) = (q / EDGES, q % EDGES);
        let (a, b) = (r / 337, r % 337);
        let clip = rect(a, 5 + (a + b) % 30, b, 40 + b % 50);
        return mk(1 - k as u8, clip, Cursor::new(a + b % 7, 10, 0), q, if k == 1 { "W😸i".into() } else { String::new() });
    }
    q -= 2 * EDGES;
    if q < 2 * LINEP {
        let (k, r) = (q / LINEP, q % LINEP);
        let (a, b) = (r / 68, r % 68 * 8);
        let clip = rect(10, a, 300, b);
        return mk(1 - k as u8, clip, Cursor::new(10, a.saturating_sub(b % 40), 0), q, if k == 1 { "W\ni".into() } else { String::new() });
    }
    q -= 2 * LINEP;
    let n = q % 700;
    mk(0, ClipRect::padded_screen(), Cursor::new(6, 6, 0), q, ["a", "\n", "😸", "\u{378}", "e\u{301}", "鹅"][q / 700].repeat(n))
}

fn explore(kind: &str, ops: &[HOp], n: usize, parts: usize, space: String, total: &mut Stats) {
    let base = baseline(kind, ops);
    let exe = std::env::current_exe().unwrap();
    let f = format!("/tmp/mc-ops-{}-{}", std::process::id(), kind);
    std::fs::write(&f, ops.iter().zip(&base).map(|(o, b)| format!("{} {}\n", b, o.line())).collect::<String>()).unwrap();
    let ch: Vec<_> = (0..parts)
        .map(|p| {
            Command::new(&exe)
                .args(["sweep", "C13", kind, &f, &n.to_string(), &p.to_string(), &parts.to_string()])
                .stdout(Stdio::piped())
                .spawn()
                .unwrap()
        })
        .collect();
    for c in ch {
        let o = c.wait_with_output().unwrap();
        let t = String::from_utf8_lossy(&o.stdout).to_string();
        if let Some(v) = t.lines().find_map(|l| l.strip_prefix("SWEEP-VIOLATION ")) {
            violation(&format!("{}: results depend on the history", kind), v, format!("\"detail\":{}", v));
        } else if let Some(v) = t.lines().find_map(|l| l.strip_prefix("SWEEP ")) {
            let x: Vec<u64> = v.split(' ').map(|n| n.parse().unwrap()).collect();
            total.transitions += x[0];
            total.traces += x[1];
            total.nontrivial += x[1];
        } else if t.contains("VIOLATION property=") {
            // the sweep's own watchdog
            violation("a call did not return", kind, format!("\"detail\":{}", crate::json::esc(&t)));
        } else {
            eprintln!("sweep {} ended without an answer: {:?}", kind, o.status);
            let _ = std::fs::remove_file(&f);
            std::process::exit(3);
        }
    }
    let _ = std::fs::remove_file(&f);
    total.states += ops.len() as u64;
    total.space(space);
    if total.samples.len() < 4 {
        total.samples.push(crate::json::esc(&ops[ops.len() / 2].line()));
    }
}

/// Concurrent callers: all schedules, to a bound on preemptions, of the library with instrumented
/// atomics and locks (conc/). No `unsafe` in the library: what callers share, they reach through
/// those only.
fn schedules(th: bool, total: &mut Stats) {
    let exe = std::env::current_dir().unwrap().join("out/conc/drv");
    if !exe.exists() {
        total.space("schedules of concurrent callers: not explored, the library does not build with instrumented atomics and locks".into());
        return;
    }
    let (bound, budget, len) = if th { (3, 20_000, 2) } else { (2, 1500, 1) };
    let shares = 8;
    let ch: Vec<_> = (0..shares)
        .map(|s| {
            let a = [s, shares, bound, budget, len].map(|n: usize| n.to_string());
            Command::new("timeout").arg(if th { "1200" } else { "240" }).arg(&exe).args(a).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap()
        })
        .collect();
    let mut sum = [0u64; 4];
    let mut unknown = 0usize;
    let mut bad = None;
    for c in ch {
        let o = c.wait_with_output().unwrap();
        let t = String::from_utf8_lossy(&o.stdout).to_string();
        if let Some(v) = t.lines().find_map(|l| l.strip_prefix("BAD ")) {
            bad = Some(v.to_string());
        } else if let Some(v) = t.lines().find_map(|l| l.strip_prefix("DONE ")) {
            for (s, n) in sum.iter_mut().zip(v.split(' ')) {
                *s += n.parse::<u64>().unwrap();
            }
        } else {
            unknown += 1;
        }
    }
    if let Some(v) = bad {
        violation("schedules: results depend on concurrent callers", &v, format!("\"detail\":{}", crate::json::esc(&v)));
        return;
    }
    total.traces += sum[0];
    total.transitions += sum[0];
    let mut s = format!(
        "{} sets of 2{} concurrent callers, programs of {} calls: all schedules with at most {} preemptions at operations on atomics and locks: {} schedules, {} such operations met",
        sum[2] / (shares - unknown).max(1) as u64, if len > 1 { " or 3" } else { "" }, if len > 1 { "1 or 2" } else { "1" }, bound, sum[0], sum[1]
    );
    if sum[3] > 0 {
        s += &format!(", {} sets cut at {} schedules", sum[3], budget);
    }
    if unknown > 0 {
        s += &format!(", {} of {} shares without an answer", unknown, shares);
    }
    total.space(s);
}

pub fn check(o: &Oracle, tier: Tier) -> Stats {
    let th = tier == Tier::Thorough;
    let mut total = Stats::default();
    schedules(th, &mut total);
    if violated() {
        return total;
    }
    let b = battery();
    let n = if th { 4 } else { 3 };
    explore("words", &b, n, 8, format!("all {}^{} histories of {} calls over {} operations, every call compared with a fresh process", b.len(), n, n, b.len()), &mut total);
    if violated() {
        return total;
    }
    let n = if th { 1_200_000 } else { 140_000 };
    explore("repeat", &b, n, b.len(), format!("{} calls in a row of each of {} operations", n, b.len()), &mut total);
    if violated() {
        return total;
    }
    // single-cluster paints
    let mut cl: Vec<HOp> = vec![];
    let full = ClipRect::full_screen();
    for (k, f) in [EMOJI, SMALL, REGULAR, BOLD, HANZI].iter().enumerate() {
        let st = match *f {
            SMALL => GlyphStyle::Small,
            BOLD => GlyphStyle::Bold,
            _ => GlyphStyle::Regular,
        };
        for (i, (c, _)) in o.fonts[*f].clusters.iter().enumerate() {
            if (*f == HANZI && i % if th { 1 } else { 16 } != 0) || (!th && *f == BOLD && i % 2 != 0) {
                continue;
            }
            cl.push(HOp { kind: 0, clip: full, cur: Cursor::new(10 + (i + k) % 3, 10, 0), st, s: c.clone() });
        }
    }
    explore("pairs", &cl, 2, 8, format!("all {}^2 ordered pairs of single-cluster paints", cl.len()), &mut total);
    if violated() {
        return total;
    }
    let pick: Vec<HOp> = {
        let mut v: Vec<HOp> = ["A", "e\u{301}", "😸W", "\n", "鹅\u{378}"]
            .iter()
            .enumerate()
            .map(|(i, s)| HOp { kind: 0, clip: full, cur: Cursor::new(0, 0, 0), st: STYLES[i % 3], s: s.to_string() })
            .collect();
        v.push(HOp { kind: 1, clip: rect(10, 10, 50, 30), cur: Cursor::new(0, 0, 0), st: GlyphStyle::Regular, s: String::new() });
        v.push(HOp { kind: 0, clip: rect(8, 0, 30, 536), cur: Cursor::new(0, 0, 0), st: GlyphStyle::Bold, s: "WiW".into() });
        if !th {
            v.truncate(6);
        }
        v
    };
    explore("clients", &pick, if th { 3 } else { 2 }, 8, format!("two clients, programs of {} calls over {} operations, all interleavings of the calls", if th { 3 } else { 2 }, pick.len()), &mut total);
    if violated() {
        return total;
    }
    let after: Vec<HOp> = [0, 11, 17, 27, 31].iter().map(|i| b[*i].clone()).collect();
    explore("after", &after, 1, 8, format!("one previous call (every scalar value; cursors; pairs of columns and of lines painted in and cleared; runs of every length: {} calls), then each of {} operations", previous_count(), after.len()), &mut total);
    if violated() {
        return total;
    }
    let n = if th { 65536 } else { 4096 };
    explore("places", &b[..30], n, 8, format!("30 operations with the text at {} places in memory, five kinds of bytes around it, and the frame buffer at {}", n, n.min(1024)), &mut total);
    if violated() {
        return total;
    }
    explore("threads", &b, if th { 400 } else { 60 }, 1, "free-running threads over the same operations (supplementary, not exhaustive)".into(), &mut total);
    total
}

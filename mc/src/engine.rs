//! Exploration engine: runs operations of the real library under a panic and hang guard,
//! shares work between threads, collects counts, violations and evidence.
use crate::json::esc;
use blitstr::{ClipRect, Cursor, FrBuf, GlyphStyle, Pt, FRAME_BUF_SIZE};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Mutex, OnceLock};
use std::time::Instant;

pub const NT: usize = 8;
pub const NSLOTS: usize = 16;
const HANG_S: u64 = 20;

#[repr(align(128))]
pub struct Slot {
    seq: AtomicU64,
    busy: AtomicBool,
    f: [AtomicUsize; 9],
    s: [AtomicUsize; 2],
}
#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicUsize = AtomicUsize::new(0);
#[allow(clippy::declare_interior_mutable_const)]
const SLOT: Slot = Slot { seq: AtomicU64::new(0), busy: AtomicBool::new(false), f: [Z; 9], s: [Z; 2] };
static SLOTS: [Slot; NSLOTS] = [SLOT; NSLOTS];

thread_local! {
    static ME: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub static STOP: AtomicBool = AtomicBool::new(false);
static VIOL: Mutex<Vec<Violation>> = Mutex::new(Vec::new());
static CTX: OnceLock<(String, String, String)> = OnceLock::new(); // property, tier, out dir

#[derive(Clone)]
pub struct Violation {
    pub what: String,
    pub json: String,
    pub key: String,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Paint,
    Clear,
}

/// One operation of the real library
#[derive(Clone, Copy, Debug)]
pub struct Op<'a> {
    pub kind: Kind,
    pub clip: ClipRect,
    pub cur: Cursor,
    pub st: GlyphStyle,
    pub s: &'a str,
}

impl<'a> Op<'a> {
    pub fn paint(clip: ClipRect, cur: Cursor, st: GlyphStyle, s: &'a str) -> Op<'a> {
        Op { kind: Kind::Paint, clip, cur, st, s }
    }
    pub fn clear(clip: ClipRect) -> Op<'static> {
        Op { kind: Kind::Clear, clip, cur: Cursor::new(0, 0, 0), st: GlyphStyle::Regular, s: "" }
    }
    pub fn json(&self) -> String {
        let mut s = self.s;
        if s.len() > 4000 {
            let mut k = 4000;
            while !s.is_char_boundary(k) {
                k -= 1
            }
            s = &s[..k];
        }
        format!(
            "{{\"op\":\"{}\",\"clip\":[\"{}\",\"{}\",\"{}\",\"{}\"],\"cursor\":[\"{}\",\"{}\",\"{}\"],\"style\":\"{:?}\",\"text\":{},\"codepoints\":\"{}\"}}",
            if self.kind == Kind::Paint { "paint_str" } else { "clear_region" },
            self.clip.min.x, self.clip.min.y, self.clip.max.x, self.clip.max.y,
            self.cur.pt.x, self.cur.pt.y, self.cur.line_height, self.st, esc(s), cps(s)
        )
    }
    /// The operation as a line of Rust, for the replay file
    pub fn rust(&self) -> String {
        let clip = format!(
            "ClipRect {{ min: Pt {{ x: {}, y: {} }}, max: Pt {{ x: {}, y: {} }} }}",
            self.clip.min.x, self.clip.min.y, self.clip.max.x, self.clip.max.y
        );
        match self.kind {
            Kind::Clear => format!("clear_region(fb, {});", clip),
            Kind::Paint => format!(
                "let c = &mut Cursor::new({}, {}, {}); paint_str(fb, {}, c, GlyphStyle::{:?}, \"{}\");",
                self.cur.pt.x, self.cur.pt.y, self.cur.line_height, clip, self.st,
                self.s.escape_unicode()
            ),
        }
    }
}

pub fn cps(s: &str) -> String {
    s.chars().map(|c| format!("{:X}", c as u32)).collect::<Vec<_>>().join("-")
}

fn style_no(s: GlyphStyle) -> usize {
    match s {
        GlyphStyle::Small => 0,
        GlyphStyle::Regular => 1,
        GlyphStyle::Bold => 2,
    }
}

/// Run an operation of the real library on fb. Ok(cursor afterwards) or Err(panic message)
#[inline]
pub fn run(op: &Op, fb: &mut FrBuf) -> Result<Cursor, String> {
    let slot = &SLOTS[ME.with(|m| m.get())];
    let f = [
        op.clip.min.x, op.clip.min.y, op.clip.max.x, op.clip.max.y, op.cur.pt.x, op.cur.pt.y, op.cur.line_height,
        style_no(op.st), (op.kind == Kind::Clear) as usize,
    ];
    for i in 0..9 {
        slot.f[i].store(f[i], Relaxed);
    }
    slot.s[0].store(op.s.as_ptr() as usize, Relaxed);
    slot.s[1].store(op.s.len(), Relaxed);
    slot.seq.fetch_add(1, Relaxed);
    slot.busy.store(true, Relaxed);
    let mut c = op.cur;
    let r = catch_unwind(AssertUnwindSafe(|| match op.kind {
        Kind::Paint => blitstr::paint_str(fb, op.clip, &mut c, op.st, op.s),
        Kind::Clear => blitstr::clear_region(fb, op.clip),
    }));
    slot.busy.store(false, Relaxed);
    match r {
        Ok(()) => Ok(c),
        Err(_) => Err(PANIC.with(|p| p.borrow().clone())),
    }
}

/// Guard any other call into the real library
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let slot = &SLOTS[ME.with(|m| m.get())];
    slot.seq.fetch_add(1, Relaxed);
    slot.busy.store(true, Relaxed);
    let r = catch_unwind(AssertUnwindSafe(f));
    slot.busy.store(false, Relaxed);
    r.map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

pub fn init(property: &str, tier: &str, out: &str) {
    CTX.set((property.into(), tier.into(), out.into())).ok();
    std::panic::set_hook(Box::new(|i| {
        let in_op = SLOTS[ME.with(|m| m.get())].busy.load(Relaxed);
        let m = i.to_string().replace('\n', " ");
        if !in_op {
            eprintln!("harness panic: {}", m);
        }
        PANIC.with(|p| *p.borrow_mut() = m);
    }));
    std::thread::spawn(|| {
        let mut last = [(0u64, 0u64); NSLOTS];
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            for (i, sl) in SLOTS.iter().enumerate() {
                let q = sl.seq.load(Relaxed);
                if !sl.busy.load(Relaxed) || q != last[i].0 {
                    last[i] = (q, 0);
                    continue;
                }
                last[i].1 += 1;
                if last[i].1 >= HANG_S {
                    // The worker is stuck inside this operation, so its string is still alive
                    let g = |k: usize| sl.f[k].load(Relaxed);
                    let (p, n) = (sl.s[0].load(Relaxed), sl.s[1].load(Relaxed));
                    let s = if n == 0 {
                        ""
                    } else {
                        unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p as *const u8, n)) }
                    };
                    let op = Op {
                        kind: if g(8) == 1 { Kind::Clear } else { Kind::Paint },
                        clip: ClipRect { min: Pt::new(g(0), g(1)), max: Pt::new(g(2), g(3)) },
                        cur: Cursor::new(g(4), g(5), g(6)),
                        st: GlyphStyle::from(g(7)),
                        s,
                    };
                    violation_op(&format!("the call did not return within {} s", HANG_S), &op, "");
                    finish_violations();
                }
            }
        }
    });
}

pub fn violation(what: &str, key: &str, json: String) {
    let mut v = VIOL.lock().unwrap();
    if v.len() < 200 && !v.iter().any(|x| x.key == key) {
        v.push(Violation { what: what.into(), json, key: key.into() });
    }
    if v.len() >= 20 {
        STOP.store(true, Relaxed);
    }
}

pub fn violation_op(what: &str, op: &Op, extra: &str) {
    let key = op.json();
    let json = format!(
        "\"what\":{},\"ops\":[{}],\"rust\":{},\"detail\":{}",
        esc(what),
        key,
        esc(&op.rust()),
        esc(extra)
    );
    violation(what, &key, json);
}

pub fn violation_ops(what: &str, ops: &[Op], extra: &str) {
    let key = ops.iter().map(|o| o.json()).collect::<Vec<_>>().join(",");
    let rust = ops.iter().map(|o| o.rust()).collect::<Vec<_>>().join("\n");
    let json = format!("\"what\":{},\"ops\":[{}],\"rust\":{},\"detail\":{}", esc(what), key, esc(&rust), esc(extra));
    violation(what, &key, json);
}

pub fn violated() -> bool {
    !VIOL.lock().unwrap().is_empty()
}

pub fn violations() -> Vec<Violation> {
    VIOL.lock().unwrap().clone()
}

/// Known findings: key lines "property=<id> codepoints=<cps>" in known_findings.txt
pub fn known(root: &str, property: &str) -> Vec<String> {
    let t = std::fs::read_to_string(format!("{}/known_findings.txt", root)).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter(|l| l.starts_with(&format!("property={} ", property)))
        .map(|l| l.to_string())
        .collect()
}

pub fn finish_violations() -> ! {
    let (prop, tier, out) = CTX.get().unwrap();
    let mut v = VIOL.lock().unwrap().clone();
    // simplest counterexample first: shortest text / description
    v.sort_by_key(|x| (x.key.len(), x.key.clone()));
    let dir = format!("{}/replay", out);
    std::fs::create_dir_all(&dir).ok();
    for (i, x) in v.iter().take(5).enumerate() {
        let p = format!("{}/{}-{}.json", dir, prop, i);
        std::fs::write(&p, format!("{{\"property\":\"{}\",\"tier\":\"{}\",{}}}\n", prop, tier, x.json)).ok();
        println!("{}: {}", prop, x.what);
        println!("VIOLATION property={} replay={}", prop, p);
    }
    let _ = std::fs::write(
        format!("{}/evidence/{}.json", out.trim_end_matches("/out"), prop),
        format!(
            "{{\"property\":\"{}\",\"tier\":\"{}\",\"seed\":{},\"level\":\"other\",\"coverage\":{{\"explanation\":\"stopped at a violation\"}},\"wall_s\":0,\"violations\":{}}}\n",
            prop, tier, seed(), v.len()
        ),
    );
    std::process::exit(1);
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

/// Counts of one exploration
#[derive(Default, Clone)]
pub struct Stats {
    /// distinct states (configurations) enumerated
    pub states: u64,
    /// operations executed on the real code and judged
    pub transitions: u64,
    /// model runs (traces) replayed against the real code
    pub traces: u64,
    /// cases whose expected effect changes at least one pixel or the cursor's line
    pub nontrivial: u64,
    pub samples: Vec<String>,
    pub spaces: Vec<String>,
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
        self.nontrivial += o.nontrivial;
        for s in &o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s.clone());
            }
        }
        self.spaces.extend(o.spaces.iter().cloned());
    }
    pub fn space(&mut self, s: String) {
        self.spaces.push(s);
    }
    pub fn sample(&mut self, op: &Op) {
        if self.samples.len() < 2 {
            self.samples.push(op.json());
        }
    }
}

/// Distribute chunk numbers 0..n over worker threads; every worker has its own state.
pub fn par<W, F>(n: usize, mk: impl Fn() -> W + Sync, f: F) -> Stats
where
    F: Fn(&mut W, usize, &mut Stats) + Sync,
{
    let next = AtomicUsize::new(0);
    let total = Mutex::new(Stats::default());
    std::thread::scope(|sc| {
        for t in 0..NT {
            let (next, total, f, mk) = (&next, &total, &f, &mk);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, move || {
                    ME.with(|m| m.set(t + 1));
                    let mut w = mk();
                    let mut st = Stats::default();
                    loop {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= n || STOP.load(Relaxed) {
                            break;
                        }
                        f(&mut w, i, &mut st);
                    }
                    total.lock().unwrap().add(&st);
                })
                .unwrap();
        }
    });
    let r = total.lock().unwrap().clone();
    r
}

pub fn base_pattern(k: u32) -> FrBuf {
    let mut fb = [0u32; FRAME_BUF_SIZE];
    let mut x = 0x9E3779B9u32.wrapping_mul(k / 2 + 1);
    for w in fb.iter_mut() {
        x ^= x << 13;
        x ^= x >> 17;
        x ^= x << 5;
        *w = if k % 2 == 0 { x } else { !x };
    }
    fb
}

pub struct Work {
    pub fb: Box<FrBuf>,
    pub base: Box<FrBuf>,
    pub tmp: Box<FrBuf>,
    /// number of words the judges look at (all of them unless `near` was called)
    pub lim: usize,
}

impl Work {
    pub fn new() -> Work {
        Work::with_base(0)
    }
    pub fn with_base(k: u32) -> Work {
        let b = base_pattern(k);
        Work { fb: Box::new(b), base: Box::new(b), tmp: Box::new(b), lim: FRAME_BUF_SIZE }
    }
    /// fb back to base
    pub fn restore(&mut self) {
        self.fb[..self.lim].copy_from_slice(&self.base[..self.lim]);
    }
    /// tmp to base
    pub fn fresh_tmp(&mut self) {
        self.tmp[..self.lim].copy_from_slice(&self.base[..self.lim]);
    }
    pub fn clean(&self) -> bool {
        self.fb[..self.lim] == self.base[..self.lim]
    }
    pub fn agree(&self) -> bool {
        self.fb[..self.lim] == self.tmp[..self.lim]
    }
    /// Look at the first lines only, for operations near the top of the screen, until `far`
    pub fn near(&mut self, lines: usize) {
        self.fresh_tmp();
        self.lim = lines * 11;
    }
    /// After a batch of operations near the top: nothing below has changed
    pub fn far(&mut self) {
        let n = self.lim;
        self.lim = FRAME_BUF_SIZE;
        if self.fb[n..] != self.base[n..] {
            let d = diff_pixels(&self.fb, &self.base);
            violation(&format!("texts at the top of the screen changed pixels far below: {}", d), &d, format!("\"what\":{}", esc(&d)));
        }
        self.restore();
        self.fresh_tmp();
    }
}

/// First few differing pixels between two buffers
pub fn diff_pixels(a: &FrBuf, b: &FrBuf) -> String {
    let mut v = vec![];
    let mut n = 0;
    for i in 0..FRAME_BUF_SIZE {
        let d = a[i] ^ b[i];
        for bit in 0..32 {
            if d >> bit & 1 == 1 {
                n += 1;
                if v.len() < 8 {
                    v.push(format!("({},{})", (i % 11) * 32 + bit, i / 11));
                }
            }
        }
    }
    format!("{} wrong pixels: {}", n, v.join(" "))
}

pub struct Report {
    pub level: &'static str,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub exhaustive: bool,
}

pub fn finish(st: Stats, rep: Report, t0: Instant, root: &str) -> ! {
    if violated() {
        finish_violations();
    }
    let (prop, tier, _) = CTX.get().unwrap();
    let list = |v: &[String]| v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",");
    let samples = st.samples.join(",");
    let cov = if rep.level == "model_checking" {
        format!(
            "\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"nontrivial\":{}",
            st.states, st.transitions, st.traces, st.nontrivial
        )
    } else {
        format!("\"evaluations\":{},\"distinct_nontrivial\":{},\"states\":{}", st.transitions, st.nontrivial, st.states)
    };
    let js = format!(
        "{{\"property\":\"{}\",\"tier\":\"{}\",\"seed\":{},\"level\":\"{}\",\"coverage\":{{{},\"rule\":{},\"samples\":[{}],\"spaces\":[{}],\"exhaustive\":{}}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":0}}\n",
        prop, tier, seed(), rep.level, cov, esc(&rep.rule), samples, list(&st.spaces), rep.exhaustive,
        list(&rep.assumptions), t0.elapsed().as_secs_f64()
    );
    std::fs::create_dir_all(format!("{}/evidence", root)).unwrap();
    let to = std::env::var("MC_EVIDENCE").unwrap_or_else(|_| format!("{}/evidence/{}.json", root, prop));
    std::fs::write(to, js).unwrap();
    println!(
        "{} {}: held on everything explored; states={} transitions={} traces={} nontrivial={} ({:.1} s)",
        prop, tier, st.states, st.transitions, st.traces, st.nontrivial, t0.elapsed().as_secs_f64()
    );
    std::process::exit(0);
}

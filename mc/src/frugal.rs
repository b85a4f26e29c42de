//! C25: no call takes memory from the heap, and the stack a call needs is small, whatever its
//! arguments. Heap: every allocation of a thread is counted by the global allocator. Stack: the
//! part of the stack below the call is filled with a pattern first and looked at afterwards.
use crate::checks::deep_texts;
use crate::ctx::Ctx;
use crate::engine::*;
use crate::spaces::{Env, Tier};
use blitstr::{clear_region, demo, glyph_to_height_hint, paint_str, ClipRect, Cursor, FrBuf, GlyphStyle, Pt};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

thread_local! {
    static TAKEN: Cell<usize> = const { Cell::new(0) };
}

struct Counting;
// the system's allocator, plus a count per thread
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        TAKEN.with(|t| t.set(t.get() + 1));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        TAKEN.with(|t| t.set(t.get() + 1));
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        TAKEN.with(|t| t.set(t.get() + 1));
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static GLOBAL: Counting = Counting;

/// What a call may use of the stack, and what is looked at
pub const LIMIT: usize = 16 << 10;
const WINDOW: usize = 48 << 10;
const PAT: u64 = 0xA5C3_5A3C_96E1_7B2D;
/// The most any call used
pub static MOST: AtomicUsize = AtomicUsize::new(0);

#[inline(always)]
fn sp() -> usize {
    let p: usize;
    unsafe { core::arch::asm!("mov {}, rsp", out(reg) p, options(nomem, nostack, preserves_flags)) };
    p
}

/// Run f; allocations, and bytes of stack used
#[inline(never)]
pub fn measured<T>(f: impl FnOnce() -> T) -> (T, usize, usize) {
    let top = (sp() - 512) & !7;
    let lo = top - WINDOW;
    unsafe {
        for k in 0..WINDOW / 8 {
            ((lo + 8 * k) as *mut u64).write_volatile(PAT);
        }
    }
    let a = TAKEN.with(|t| t.get());
    let r = f();
    let n = TAKEN.with(|t| t.get()) - a;
    let mut k = 0;
    unsafe {
        while k < WINDOW / 8 && ((lo + 8 * k) as *const u64).read_volatile() == PAT {
            k += 1;
        }
    }
    (r, n, WINDOW - 8 * k)
}

fn wrong(heap: usize, stack: usize) -> Option<String> {
    let cur = MOST.load(Relaxed);
    if stack > cur {
        MOST.fetch_max(stack, Relaxed);
    }
    if heap > 0 {
        Some(format!("the call takes memory from the heap ({} times)", heap))
    } else if stack > LIMIT {
        Some(format!("the call uses {}{} bytes of stack", if stack >= WINDOW { "at least " } else { "" }, stack))
    } else {
        None
    }
}

/// C25, one call
pub fn frugal(_: &Ctx, w: &mut Work, st: &mut Stats, op: &Op) {
    let (r, heap, stack) = measured(|| run(op, &mut w.fb));
    w.restore();
    // a call that does not return normally is no matter of this property
    let Ok(c) = r else { return };
    st.transitions += 1;
    if c != op.cur {
        st.nontrivial += 1;
        st.sample(op);
    }
    if let Some(e) = wrong(heap, stack) {
        violation_op(&e, op, "");
    }
}

/// The other public functions
pub fn others() -> Stats {
    let vals: Vec<usize> = vec![0, 1, 5, 6, 31, 32, 330, 336, 337, 536, 1 << 31, 1 << 32, usize::MAX - 1, usize::MAX];
    par(1, || (), |_, _, st| {
        let mut one = |what: &str, (heap, stack): (usize, usize)| {
            st.states += 1;
            st.transitions += 1;
            st.nontrivial += 1;
            if let Some(e) = wrong(heap, stack) {
                let m = format!("{}: {}", what, e);
                violation(&m, what, format!("\"what\":{}", crate::json::esc(&m)));
            }
        };
        macro_rules! m {
            ($n:expr, $e:expr) => {{
                let (_, h, s) = measured(|| std::hint::black_box(guard(|| $e)).is_ok());
                one($n, (h, s))
            }};
        }
        m!("ClipRect::full_screen", ClipRect::full_screen());
        m!("ClipRect::padded_screen", ClipRect::padded_screen());
        for &a in &vals {
            m!("GlyphStyle::from", GlyphStyle::from(a));
            for &b in &vals {
                m!("Pt::new", Pt::new(a, b));
                for &x in &vals {
                    m!("Cursor::new", Cursor::new(a, b, x));
                    for &y in &vals {
                        m!("ClipRect::new", ClipRect::new(a, b, x, y));
                        m!("Cursor::from_top_left_of", Cursor::from_top_left_of(ClipRect { min: Pt { x: a, y: b }, max: Pt { x, y } }));
                    }
                }
            }
        }
        for s in crate::oracle::STYLES {
            m!("usize::from(GlyphStyle)", {
                let n: usize = s.into();
                n
            });
            m!("glyph_to_height_hint", glyph_to_height_hint(s));
        }
        let mut fb = Box::new(base_pattern(3));
        for (n, d) in [("sample_text", demo::sample_text as fn(&mut FrBuf)), ("short_greeting", demo::short_greeting), ("goose_poem", demo::goose_poem)] {
            for k in 0..3 {
                m!(n, d(&mut fb));
                fb.fill(k);
            }
        }
        let _ = (clear_region as fn(&mut FrBuf, ClipRect), paint_str as fn(&mut FrBuf, ClipRect, &mut Cursor, GlyphStyle, &str));
        st.space("every other public function but new_fr_buf, which returns the buffer".into());
    })
}

/// Very long texts: the stack they need is that of short ones
pub fn long(c: &Ctx, th: bool) -> Stats {
    let texts = deep_texts(th);
    let mut r = par(texts.len(), Work::new, |w, i, st| {
        let (s, sty) = &texts[i];
        st.states += 1;
        frugal(c, w, st, &Op::paint(ClipRect::padded_screen(), Cursor::new(0, 0, 0), *sty, s));
    });
    r.space(format!("{} texts of up to {} bytes", texts.len(), texts.iter().map(|t| t.0.len()).max().unwrap()));
    r
}

/// Stack used by a text of n repetitions of a piece
fn repeated(w: &mut Work, st: &mut Stats, piece: &str, sty: GlyphStyle, buf: &mut String) {
    let mut used = [0; 2];
    for (k, n) in [2, 80].into_iter().enumerate() {
        buf.clear();
        for _ in 0..n {
            buf.push_str(piece);
        }
        let op = Op::paint(ClipRect::new(3, 3, 200, 120), Cursor::new(0, 0, 0), sty, buf);
        let (r, heap, stack) = measured(|| run(&op, &mut w.fb));
        w.restore();
        st.transitions += 1;
        if r.is_err() {
            return;
        }
        st.nontrivial += 1;
        used[k] = stack;
        if let Some(e) = wrong(heap, stack) {
            return violation_op(&e, &op, "");
        }
        if used[1] > used[0] + 2048 {
            return violation_op(&format!("the stack grows with the length of the text: {} bytes for 2 pieces, {} for 80", used[0], used[1]), &op, "");
        }
    }
}

/// Every code point, every cluster, and every pair of representatives, repeated
fn growth(env: &Env) -> Stats {
    let th = env.thorough();
    let mk = || (Work::new(), String::new());
    let mut total = par(0x1100, mk, |(w, buf), page, st| {
        for k in 0..256 {
            let Some(ch) = char::from_u32((page * 256 + k) as u32) else { continue };
            for (i, sty) in crate::oracle::STYLES.into_iter().enumerate() {
                // the private planes are alike: one style there
                if (!th || page >= 0x300) && i != k % 3 {
                    continue;
                }
                st.states += 1;
                repeated(w, st, ch.encode_utf8(&mut [0; 4]), sty, buf);
            }
        }
    });
    total.space("every Unicode scalar value repeated 2 and 80 times".into());
    let cl = env.clusters();
    let mut r = par(cl.len(), mk, |(w, buf), i, st| {
        st.states += 1;
        repeated(w, st, cl[i].0, cl[i].1, buf);
    });
    r.space(format!("{} (cluster, style) pairs repeated 2 and 80 times", cl.len()));
    total.add(&r);
    let mut reps: Vec<String> = (0..64).map(|p| p * 0x400 + 0x141).chain((0..36).map(|p| 0x1F000 + p * 0x41)).chain([0x20, 0x0a, 0x09, 0x30, 0x41, 0x301, 0x200d, 0x20e3, 0xfe0f, 0xfffd, 0xe0001, 0x10fffd, 0x2f800, 0x0d])
        .filter_map(char::from_u32).map(|c| c.to_string()).collect();
    reps.extend(env.alphabet().iter().map(|s| s.to_string()));
    let n = reps.len();
    let mut r = par(n * n, mk, |(w, buf), i, st| {
        st.states += 1;
        repeated(w, st, &format!("{}{}", reps[i / n], reps[i % n]), crate::oracle::STYLES[(i / n + i % n) % 3], buf);
    });
    r.space(format!("{}^2 pairs of representatives repeated 2 and 80 times", n));
    total.add(&r);
    total
}

/// All of it; also run in an unoptimised build of the library
pub fn all(c: &Ctx, env: &Env, t0: std::time::Instant) -> Stats {
    let mut st = Stats::default();
    let th = env.thorough();
    let jj = |w: &mut Work, s: &mut Stats, o: &Op| frugal(c, w, s, o);
    macro_rules! space {
        ($($e:expr),*) => {{ $( if !violated() { let r = $e; st.add(&r); eprintln!("  [{:.1}s] {}", t0.elapsed().as_secs_f64(), r.spaces.join("; ")); } )* }};
    }
    space!(others(), long(c, th), growth(env), env.extremes(jj), env.unpaintable(jj), env.boundary(jj), env.line_heights(jj), env.texts(if th { 4 } else { 3 }, jj), env.scalars(1, jj), env.long_texts(jj), env.crops(jj), env.damaged(jj), env.aligned(jj));
    st
}

/// The same in an unoptimised build of the library, in a process of its own
pub fn unoptimised(root: &str) -> Stats {
    let exe = format!("{}/mc/target/debug/mc", root);
    let o = std::process::Command::new(&exe).arg("frugal").output().unwrap_or_else(|e| {
        eprintln!("cannot start {}: {}", exe, e);
        std::process::exit(3);
    });
    let mut st = Stats::default();
    let out = String::from_utf8_lossy(&o.stdout);
    let num = |k: &str| out.lines().find_map(|l| l.strip_prefix(k)?.trim().parse::<u64>().ok());
    for l in out.lines().filter_map(|l| l.strip_prefix("BAD ")) {
        violation(&format!("unoptimised build: {}", l), l, format!("\"what\":{}", crate::json::esc(l)));
    }
    match num("TRANSITIONS") {
        Some(n) => {
            st.transitions = n;
            st.states = n;
            st.nontrivial = num("NONTRIVIAL").unwrap_or(0);
            st.space(format!("the same in an unoptimised build of the library: at most {} bytes of stack", num("MOST").unwrap_or(0)));
        }
        None => {
            use std::os::unix::process::ExitStatusExt;
            if !violated() {
                if o.status.signal().is_some_and(|s| [4, 6, 7, 8, 11].contains(&s)) {
                    let m = format!("an unoptimised build ends with {} (stack overflow or abort)", o.status);
                    violation(&m, &m, format!("\"what\":{}", crate::json::esc(&m)));
                } else {
                    eprintln!("{} ended with {}: {}", exe, o.status, String::from_utf8_lossy(&o.stderr));
                    std::process::exit(3);
                }
            }
        }
    }
    st
}

/// `mc frugal`
pub fn child(tier: Tier) {
    let c = Ctx::new(tier);
    let env = Env::new(crate::oracle::Oracle::load("/repo/codegen"), tier);
    let st = all(&c, &env, std::time::Instant::now());
    for v in violations() {
        println!("BAD {}: {}", v.what, v.json.chars().take(1500).collect::<String>().replace('\n', " "));
    }
    println!("TRANSITIONS {}\nNONTRIVIAL {}\nMOST {}", st.transitions, st.nontrivial, MOST.load(Relaxed));
}

//! All schedules of two or three concurrent callers, to a bound on preemptions. Every schedule
//! runs in a process of its own (fork), so that it starts from the state of a fresh process.
//! drv SHARE SHARES BOUND BUDGET PROGRAM_LENGTH
use blitstr::*;
use std::cell::Cell;
use std::sync::{Condvar, Mutex};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn alarm(s: u32) -> u32;
}

#[derive(Clone, Debug)]
enum Op {
    Paint(ClipRect, Cursor, GlyphStyle, String),
    Clear(ClipRect),
    Demo(fn(&mut FrBuf)),
}

fn battery() -> Vec<Op> {
    let full = ClipRect::full_screen();
    let p = |c, x, y, st, s: &str| Op::Paint(c, Cursor::new(x, y, 0), st, s.to_string());
    use GlyphStyle::*;
    vec![
        p(full, 10, 10, Regular, "A"),
        p(full, 25, 10, Bold, "b"),
        p(full, 30, 50, Small, "e\u{301}q"),
        p(full, 10, 10, Regular, "😸"),
        p(full, 10, 10, Regular, "👩🏽\u{200d}🚀5\u{20e3}"),
        p(full, 20, 10, Small, "鹅曲"),
        p(full, 10, 10, Bold, "\u{378}"),
        p(ClipRect::new(10, 15, 60, 80), 10, 10, Regular, "Wi\nfe😸l"),
        Op::Clear(full),
        Op::Clear(ClipRect::new(5, 5, 50, 20)),
        Op::Demo(demo::short_greeting),
    ]
}

fn base() -> FrBuf {
    let mut fb = new_fr_buf();
    for (i, w) in fb.iter_mut().enumerate() {
        *w = (i as u32 + 7).wrapping_mul(0x9E3779B9) ^ (i as u32) << 13;
    }
    fb
}

fn run(ops: &[&Op]) -> u64 {
    let mut fb = base();
    let mut h = 0xcbf29ce484222325u64;
    for o in ops {
        let mut c = Cursor::new(0, 0, 0);
        match o {
            Op::Paint(r, k, st, s) => {
                c = *k;
                paint_str(&mut fb, *r, &mut c, *st, s);
            }
            Op::Clear(r) => clear_region(&mut fb, *r),
            Op::Demo(d) => d(&mut fb),
        }
        for v in [c.pt.x, c.pt.y, c.line_height] {
            h = (h ^ v as u64).wrapping_mul(0x100000001b3).rotate_left(23);
        }
    }
    fb.iter().fold(h, |h, w| (h ^ *w as u64).wrapping_mul(0x100000001b3).rotate_left(23))
}

/// The scheduler: who runs, how many points were passed, where to switch next
struct State {
    turn: usize,
    steps: u64,
    since: u64,
    preempt: Vec<u64>,
    live: Vec<bool>,
    first_end: u64,
}
static S: Mutex<State> = Mutex::new(State { turn: 0, steps: 0, since: 0, preempt: vec![], live: vec![], first_end: 0 });
static CV: Condvar = Condvar::new();
thread_local! { static ME: Cell<usize> = const { Cell::new(usize::MAX) }; }

fn next(s: &State, me: usize) -> usize {
    (1..s.live.len() + 1).map(|d| (me + d) % s.live.len()).find(|i| s.live[*i]).unwrap_or(me)
}

fn point(waits: bool) {
    let me = ME.with(|m| m.get());
    if me == usize::MAX {
        return;
    }
    let mut s = S.lock().unwrap();
    let now = s.steps;
    s.since += 1;
    // one that waits, or spins for very long, gives way
    let yields = waits || s.since > 2_000_000;
    if !waits {
        s.steps += 1;
    }
    if yields || (s.preempt.contains(&now) && !waits) {
        s.turn = next(&s, me);
        s.since = 0;
        CV.notify_all();
        while s.turn != me {
            s = CV.wait(s).unwrap();
        }
    }
}

/// What a child tells: [done, steps, first_end, digest per thread]
fn shared() -> *mut u64 {
    unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *mut u64 }
}

#[derive(Debug)]
struct Outcome {
    steps: u64,
    first_end: u64,
    digests: Vec<u64>,
}

/// The programs under one schedule, in a process of its own; Err: it did not end well
fn schedule(mem: *mut u64, progs: &[Vec<&Op>], start: usize, preempt: &[u64]) -> Result<Outcome, String> {
    unsafe {
        *mem = 0;
        let pid = fork();
        if pid == 0 {
            alarm(30);
            {
                let mut s = S.lock().unwrap();
                s.turn = start;
                s.preempt = preempt.to_vec();
                s.live = vec![true; progs.len()];
                s.first_end = u64::MAX;
            }
            mccore::hook::set(point);
            let m = mem as usize;
            std::thread::scope(|sc| {
                for (i, p) in progs.iter().enumerate() {
                    sc.spawn(move || {
                        {
                            let mut s = S.lock().unwrap();
                            while s.turn != i {
                                s = CV.wait(s).unwrap();
                            }
                        }
                        ME.with(|x| x.set(i));
                        let d = std::panic::catch_unwind(|| run(p)).unwrap_or(1);
                        ME.with(|x| x.set(usize::MAX));
                        *(m as *mut u64).add(4 + i) = d;
                        let mut s = S.lock().unwrap();
                        s.live[i] = false;
                        s.first_end = s.first_end.min(s.steps);
                        s.turn = next(&s, i);
                        s.since = 0;
                        CV.notify_all();
                    });
                }
            });
            let s = S.lock().unwrap();
            *mem.add(1) = s.steps;
            *mem.add(2) = s.first_end;
            *mem = 1;
            _exit(0);
        }
        let mut status = 0;
        waitpid(pid, &mut status, 0);
        if *mem != 1 {
            return Err(format!("ended with status {:#x}", status));
        }
        Ok(Outcome { steps: *mem.add(1), first_end: *mem.add(2), digests: (0..progs.len()).map(|i| *mem.add(4 + i)).collect() })
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let a: Vec<usize> = std::env::args().skip(1).map(|x| x.parse().unwrap()).collect();
    let (share, shares, bound, budget, len) = (a[0], a[1], a[2], a[3], a[4]);
    let ops = battery();
    let mem = shared();
    let mut progs: Vec<Vec<&Op>> = ops.iter().map(|o| vec![o]).collect();
    if len > 1 {
        progs.extend(ops.iter().flat_map(|x| ops.iter().map(move |y| vec![x, y])));
    }
    let solo: Vec<u64> = progs
        .iter()
        .map(|p| match schedule(mem, &[p.clone()], 0, &[]) {
            Ok(o) => o.digests[0],
            Err(e) => {
                println!("NOANSWER {:?} alone {}", p, e);
                std::process::exit(3);
            }
        })
        .collect();
    let mut jobs: Vec<Vec<usize>> = (0..progs.len()).flat_map(|i| (i..progs.len()).map(move |j| vec![i, j])).collect();
    if len > 1 {
        let n = ops.len();
        jobs.extend((0..n).flat_map(|i| (i..n).flat_map(move |j| (j..n).map(move |k| vec![i, j, k]))));
    }
    let (mut schedules, mut points, mut cut) = (0u64, 0u64, 0u64);
    for job in jobs.iter().skip(share).step_by(shares) {
        let ps: Vec<Vec<&Op>> = job.iter().map(|i| progs[*i].clone()).collect();
        let mut left = budget;
        // breadth first: all schedules with k preemptions before those with k + 1
        let mut level: Vec<(usize, Vec<u64>)> = (0..ps.len()).map(|s| (s, vec![])).collect();
        for k in 0..=bound {
            let mut more = vec![];
            for (start, pre) in &level {
                if left == 0 {
                    cut += 1;
                    break;
                }
                left -= 1;
                schedules += 1;
                match schedule(mem, &ps, *start, pre) {
                    Err(e) => {
                        println!("NOANSWER schedule of {:?}: {}", ps, e);
                        std::process::exit(3);
                    }
                    Ok(o) => {
                        points += o.steps;
                        for (i, d) in o.digests.iter().enumerate() {
                            if *d != solo[job[i]] {
                                println!("BAD {:?} gives another result when a concurrent caller runs {:?}, caller {} first, preempted before synchronisation {:?}",
                                    ps[i], ps.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, p)| p).collect::<Vec<_>>(), start, pre);
                                std::process::exit(1);
                            }
                        }
                        if k < bound {
                            // a caller that has ended needs no preemption
                            let last = if ps.len() > 2 { o.steps } else { o.first_end.min(o.steps) };
                            for p in pre.last().map_or(0, |p| p + 1)..last {
                                if more.len() < budget {
                                    let mut q = pre.clone();
                                    q.push(p);
                                    more.push((*start, q));
                                } else {
                                    cut += 1;
                                    break;
                                }
                            }
                        }
                    }
                }
            }
            level = more;
        }
    }
    println!("DONE {} {} {} {}", schedules, points, jobs.len(), cut);
}

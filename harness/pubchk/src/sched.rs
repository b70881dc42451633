//! Overlapping calls under a controlled scheduler. In the build that `build.sh pubchk hooks sched` makes, /repo's
//! crate (and only that) calls back at every basic block and at every load and store of a static; there,
//! and only there, a call may be interrupted by another one.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::time::{Duration, Instant};

std::thread_local! {
    static ME: Cell<usize> = const { Cell::new(0) };
}
static TURN: AtomicUsize = AtomicUsize::new(0);
static COUNT: [AtomicU64; 3] = [const { AtomicU64::new(0) }; 3];
static STOP: [AtomicU64; 3] = [const { AtomicU64::new(0) }; 3];
static DONE: [AtomicBool; 3] = [const { AtomicBool::new(false) }; 3];
static BLOCKED: AtomicU64 = AtomicU64::new(0);
static TRACE: std::sync::Mutex<Option<Vec<usize>>> = std::sync::Mutex::new(None);
static RECORD: AtomicBool = AtomicBool::new(false);

/// Number of places a recorded call passes that are kept one by one.
const KEPT: usize = 1 << 22;

unsafe extern "C" {
    static __bss_start: u8;
    static _end: u8;
    static __data_start: u8;
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn alarm(seconds: u32) -> u32;
    fn _exit(code: i32) -> !;
    fn pipe(fds: *mut i32) -> i32;
}

#[inline(always)]
fn is_static(p: *const u8) -> bool {
    p >= &raw const __data_start && p < &raw const _end
}

#[inline]
fn point(place: usize) {
    let me = ME.get();
    if me != 0 {
        passed(me, place);
    }
}

#[inline(never)]
fn passed(me: usize, place: usize) {
    let n = COUNT[me].load(Relaxed) + 1;
    COUNT[me].store(n, Release);
    if RECORD.load(Relaxed) {
        ME.set(0);
        if let Some(t) = TRACE.lock().expect("trace").as_mut().filter(|t| t.len() < KEPT) {
            t.push(place);
        }
        ME.set(me);
        return;
    }
    if n == STOP[me].load(Relaxed) {
        TURN.store(3 - me, Release);
    }
    if TURN.load(Acquire) != me {
        wait(me);
    }
}

/// Until it is this call's turn: the other one handed over, ended, or waits for something itself.
fn wait(me: usize) {
    let other = 3 - me;
    let mut seen = u64::MAX;
    let mut since = Instant::now();
    let mut spins = 0u32;
    while TURN.load(Acquire) != me {
        if DONE[other].load(Acquire) {
            TURN.store(me, Release);
            break;
        }
        spins += 1;
        if spins < 300 {
            std::hint::spin_loop();
            continue;
        }
        std::thread::yield_now();
        if spins % 16 == 0 {
            let n = COUNT[other].load(Acquire);
            if n != seen {
                seen = n;
                since = Instant::now();
            } else if since.elapsed() > Duration::from_millis(20) {
                BLOCKED.fetch_add(1, Relaxed);
                TURN.store(me, Release);
                break;
            }
        }
    }
}

extern "C" fn block(place: usize) {
    point(place);
}

/// Called at every basic block of the crate; its return address tells the blocks apart.
#[cfg(target_arch = "x86_64")]
#[unsafe(naked)]
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    std::arch::naked_asm!("mov rdi, [rsp]", "jmp {b}", b = sym block)
}
#[cfg(not(target_arch = "x86_64"))]
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    point(0);
}

macro_rules! accesses {
    ($($name:ident $kind:expr),*) => {
        $(#[no_mangle]
        pub extern "C" fn $name(p: *const u8) {
            if is_static(p) {
                point(1 << 63 | p as usize * 2 + $kind);
            }
        })*
    };
}
accesses!(
    __sanitizer_cov_load1 0, __sanitizer_cov_load2 0, __sanitizer_cov_load4 0, __sanitizer_cov_load8 0, __sanitizer_cov_load16 0,
    __sanitizer_cov_store1 1, __sanitizer_cov_store2 1, __sanitizer_cov_store4 1, __sanitizer_cov_store8 1, __sanitizer_cov_store16 1
);

/// Runs `f` alone and returns the places it passes.
fn record(f: impl FnOnce() + Send) -> Vec<usize> {
    *TRACE.lock().expect("trace") = Some(Vec::with_capacity(1024));
    RECORD.store(true, SeqCst);
    COUNT[1].store(0, SeqCst);
    std::thread::scope(|s| {
        s.spawn(|| {
            ME.set(1);
            f();
            ME.set(0);
        });
    });
    RECORD.store(false, SeqCst);
    TRACE.lock().expect("trace").take().unwrap_or_default()
}

/// Places (counted from 1) at which to interrupt a call: all of them if there are at most `limit`, else the first
/// and the last passing of each place, evenly thinned out to `limit`, and the
/// first accesses to statics, half as many.
fn stops(trace: &[usize], limit: usize) -> Vec<u64> {
    if trace.len() <= limit {
        return (1..=trace.len() as u64).collect();
    }
    let mut seen = std::collections::HashMap::new();
    for (i, p) in trace.iter().enumerate() {
        seen.entry(*p).or_insert((i, i)).1 = i;
    }
    let mut v: Vec<u64> = seen.values().flat_map(|&(a, b)| [a as u64 + 1, b as u64 + 1]).collect();
    v.sort_unstable();
    v.dedup();
    let n = v.len();
    if n > limit {
        v = (0..limit).map(|k| v[k * n / limit]).collect();
    }
    // and around what calls could share
    v.extend(trace.iter().enumerate().filter(|(_, p)| **p >> 63 == 1).take((limit / 2).max(3)).map(|(i, _)| i as u64 + 1));
    v.sort_unstable();
    v.dedup();
    v
}

/// One schedule: `a` starts, is interrupted at its `k`th place (0: never) by `b`, and that, if `j` is not 0, at its `j`th by `a`.
fn schedule(a: &(impl Fn() -> u64 + Sync), b: &(impl Fn() -> u64 + Sync), k: u64, j: u64) -> (u64, u64) {
    for i in 0..3 {
        COUNT[i].store(0, SeqCst);
        DONE[i].store(false, SeqCst);
    }
    STOP[1].store(k, SeqCst);
    STOP[2].store(j, SeqCst);
    TURN.store(1, SeqCst);
    let run = |me: usize, f: &dyn Fn() -> u64| {
        wait(me);
        ME.set(me);
        let r = f();
        ME.set(0);
        DONE[me].store(true, Release);
        r
    };
    let mut out = (0, 0);
    std::thread::scope(|s| {
        let t = s.spawn(|| run(2, b));
        out.0 = s.spawn(|| run(1, a)).join().unwrap_or(u64::MAX);
        out.1 = t.join().unwrap_or(u64::MAX);
    });
    out
}

/// What `f` computes in a child process, or none if that dies.
fn forked(f: impl FnOnce() -> Vec<u64>) -> Option<Vec<u64>> {
    use std::io::{Read, Write};
    use std::os::fd::FromRawFd;
    let mut fds = [0i32; 2];
    if unsafe { pipe(fds.as_mut_ptr()) } != 0 {
        return Some(vec![]);
    }
    let pid = unsafe { fork() };
    if pid < 0 {
        return Some(vec![]);
    }
    let (mut r, mut w) = unsafe { (std::fs::File::from_raw_fd(fds[0]), std::fs::File::from_raw_fd(fds[1])) };
    if pid == 0 {
        unsafe { alarm(60) };
        let v = f();
        let b: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
        let good = w.write_all(&b).is_ok();
        unsafe { _exit(if good { 0 } else { 1 }) }
    }
    drop(w);
    let mut b = vec![];
    r.read_to_end(&mut b).ok();
    let mut status = 0;
    unsafe { waitpid(pid, &mut status, 0) };
    (status == 0).then(|| b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().expect("eight bytes"))).collect())
}

/// All schedules of two calls. Returns [places of a, places of b, schedules, blocked, then per kind of outcome: k, j, result of a, result of b].
/// `fresh`: each schedule in a process in which nothing was called before; `both`: also those in which b is interrupted, too.
pub fn pair(a: impl Fn() -> u64 + Sync, b: impl Fn() -> u64 + Sync, fresh: bool, both: bool, limit: usize) -> Vec<u64> {
    let mut out = vec![0u64; 4];
    let mut kinds = std::collections::HashSet::new();
    let traced = |f: &(dyn Fn() -> u64 + Sync)| -> Vec<usize> {
        if !fresh {
            return record(|| drop(f()));
        }
        forked(|| record(|| drop(f())).into_iter().map(|p| p as u64).collect()).unwrap_or_default().into_iter().map(|p| p as usize).collect()
    };
    let (ta, tb) = (traced(&a), traced(&b));
    out[0] = ta.len() as u64;
    out[1] = tb.len() as u64;
    // longer calls are interrupted at fewer places
    let work = (ta.len() + tb.len()).max(1);
    let limit = limit.min(if fresh { 40_000_000 } else { 20_000_000 } / work).max(4);
    let small = ((30_000_000.0 / work as f64).sqrt() as usize).clamp(3, if limit > 1000 { 150 } else { 50 });
    let t0 = Instant::now();
    let patience = Duration::from_secs(if limit > 1000 { 60 } else { 15 });
    let mut one = |k: u64, j: u64, out: &mut Vec<u64>| {
        let got = if fresh {
            match forked(|| {
                let r = schedule(&a, &b, k, j);
                vec![r.0, r.1, BLOCKED.load(SeqCst)]
            }) {
                Some(v) if v.len() == 3 => {
                    out[3] += v[2];
                    (v[0], v[1])
                }
                Some(_) => return,
                None => (u64::MAX, u64::MAX),
            }
        } else {
            schedule(&a, &b, k, j)
        };
        out[2] += 1;
        if kinds.insert(got) && kinds.len() < 50 {
            out.extend([k, j, got.0, got.1]);
        }
    };
    for k in stops(&ta, limit) {
        one(k, 0, &mut out);
        if out[3] + BLOCKED.load(SeqCst) > 60 || t0.elapsed() > patience {
            break;
        }
    }
    if both {
        let (ka, kb) = (stops(&ta, small), stops(&tb, small));
        for (k, j) in ka.iter().flat_map(|k| kb.iter().map(move |j| (*k, *j))) {
            one(k, j, &mut out);
            if out[3] + BLOCKED.load(SeqCst) > 90 || t0.elapsed() > 2 * patience {
                break;
            }
        }
    }
    out[3] += BLOCKED.load(SeqCst);
    out
}

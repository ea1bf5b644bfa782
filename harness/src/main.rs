//! vh: runs the real client against a scripted server and judges what it observes.
//!   vh PROP --tier quick|thorough --seed N --out FILE [--replay W,I] [--digests FILE] [--threads N] [--only W] [--cases N]
mod c_api;
mod c_leak;
mod c_more;
mod c_proto;
mod c_send;
mod ctx;
mod dict;
mod gen;
mod net;
mod oracle;
mod real;
mod rng;
mod server;
mod session;
mod source;

use ctx::{Ctx, Failure, Stats};
use rng::{mix, Rng};
use std::cell::Cell;
use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Workload {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub exhaustive: bool,
    pub f: fn(&mut Ctx),
}
pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub workloads: Vec<Workload>,
    /// What has to be seen for the run to mean anything (quick tier)
    pub floors: Vec<(&'static str, u64)>,
}

pub const RUNTIME: &str = if cfg!(feature = "rt-tokio") { "tokio" } else { "async-std" };

// ---- allocation monitor
struct Counting;
thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}
const SLOTS: usize = 64;
#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicI64 = AtomicI64::new(0);
static LIVE: [AtomicI64; SLOTS] = [Z; SLOTS];
fn account(n: i64) {
    let _ = SLOT.try_with(|s| {
        let k = s.get();
        if k < SLOTS {
            LIVE[k].fetch_add(n, Ordering::Relaxed);
        }
    });
}
/// How many sessions each thread has begun
static BEATS: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
pub fn beat() {
    let _ = SLOT.try_with(|s| {
        if s.get() < SLOTS {
            BEATS[s.get()].fetch_add(1, Ordering::Relaxed);
        }
    });
}
/// Bytes this thread has in use, as far as it has allocated them itself
pub fn live() -> i64 {
    SLOT.with(|s| {
        if s.get() >= SLOTS {
            s.set(SLOTS - 1);
        }
        LIVE[s.get()].load(Ordering::Relaxed)
    })
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        account(l.size() as i64);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        account(-(l.size() as i64));
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        account(n as i64 - l.size() as i64);
        std::alloc::System.realloc(p, l, n)
    }
}
#[cfg_attr(not(miri), global_allocator)]
static A: Counting = Counting;
const MEMORY_LIMIT: i64 = 3 << 30;

// ---- the clock: time leaps ahead in sessions, on the thread that runs them
thread_local! {
    pub static AHEAD: Cell<i64> = const { Cell::new(0) };
}
/// How far this thread's clock is ahead
pub fn set_ahead(ns: i64) {
    let _ = AHEAD.try_with(|a| a.set(ns));
}
/// In place of the function of libc, which the standard library calls.
#[cfg(not(miri))]
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, t: *mut libc::timespec) -> libc::c_int {
    let r = libc::syscall(libc::SYS_clock_gettime, id, t) as libc::c_int;
    if r == 0 && matches!(id, libc::CLOCK_REALTIME | libc::CLOCK_MONOTONIC | libc::CLOCK_MONOTONIC_RAW | libc::CLOCK_BOOTTIME | libc::CLOCK_REALTIME_COARSE | libc::CLOCK_MONOTONIC_COARSE) {
        let ahead = AHEAD.try_with(|a| a.get()).unwrap_or(0);
        if ahead > 0 {
            let n = (*t).tv_nsec as i64 + ahead % 1_000_000_000;
            (*t).tv_sec += (ahead / 1_000_000_000 + n / 1_000_000_000) as libc::time_t;
            (*t).tv_nsec = (n % 1_000_000_000) as _;
        }
    }
    r
}

// ---- logging: evaluated and dropped, per thread
struct Sink;
thread_local! {
    pub static LOG_ON: Cell<bool> = const { Cell::new(false) };
    pub static LOGGED: Cell<u64> = const { Cell::new(0) };
    /// Records kept, if any are
    pub static KEPT: std::cell::RefCell<Option<Vec<(log::Level, String)>>> = const { std::cell::RefCell::new(None) };
}
struct Count(u64);
impl std::fmt::Write for Count {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        LOG_ON.with(|l| l.get())
    }
    fn log(&self, r: &log::Record) {
        if LOG_ON.with(|l| l.get()) {
            let mut c = Count(0);
            let _ = std::fmt::write(&mut c, *r.args());
            LOGGED.with(|l| l.set(l.get() + 1));
            KEPT.with(|k| {
                if let Some(v) = k.borrow_mut().as_mut() {
                    v.push((r.level(), format!("{} {:?} {:?}", r.args(), r.target(), r.module_path())));
                }
            });
        }
    }
    fn flush(&self) {}
}
static SINK: Sink = Sink;

struct SlotInfo {
    workload: AtomicU64,
    idx: AtomicU64,
    running: AtomicBool,
    cpu_at_start: AtomicU64,
    thread: AtomicU64,
}

#[cfg(miri)]
fn thread_cpu_ns(_: libc::pthread_t) -> u64 {
    0
}
#[cfg(not(miri))]
fn thread_cpu_ns(th: libc::pthread_t) -> u64 {
    unsafe {
        let mut c: libc::clockid_t = 0;
        if libc::pthread_getcpuclockid(th, &mut c) != 0 {
            return 0;
        }
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(c, &mut ts) != 0 {
            return 0;
        }
        ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
    }
}

// ---- crashes: say which case it was
thread_local! {
    static CASE: Cell<(usize, u64)> = const { Cell::new((usize::MAX, 0)) };
}
#[cfg(not(miri))]
extern "C" fn on_abort(_: libc::c_int) {
    let (w, i) = CASE.with(|c| c.get());
    let mut b = [0u8; 64];
    let mut n = 0;
    let mut put = |x: &[u8]| {
        for c in x {
            b[n] = *c;
            n += 1;
        }
    };
    let num = |mut v: u64, d: &mut [u8; 20]| {
        let mut k = 20;
        loop {
            k -= 1;
            d[k] = b'0' + (v % 10) as u8;
            v /= 10;
            if v == 0 {
                return k;
            }
        }
    };
    let mut d = [0u8; 20];
    put(b"\nABORTED ");
    if w == usize::MAX {
        put(b"?");
    } else {
        let k = num(w as u64, &mut d);
        put(&d[k..]);
        put(b",");
        let k = num(i, &mut d);
        put(&d[k..]);
    }
    put(b"\n");
    unsafe {
        libc::write(2, b.as_ptr() as *const libc::c_void, n);
        libc::_exit(134);
    }
}
#[cfg(not(miri))]
fn catch_aborts() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_abort as *const () as usize;
        sa.sa_flags = libc::SA_ONSTACK;
        libc::sigaction(libc::SIGABRT, &sa, std::ptr::null_mut());
    }
}
#[cfg(miri)]
fn catch_aborts() {}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Args {
    prop: String,
    thorough: bool,
    seed: u64,
    out: Option<String>,
    replay: Option<(usize, u64)>,
    digests: Option<String>,
    threads: usize,
    only: Option<String>,
    cases: Option<u64>,
}

pub fn case_rng(seed: u64, w: usize, i: u64) -> Rng {
    Rng::new(mix(seed).wrapping_add(mix((w as u64) << 48 ^ i)))
}

fn run_case<'a>(c: &Check, a: &Args, w: usize, i: u64, st: &'a mut Stats, want_sample: bool, verbose: bool) -> Option<Failure> {
    let mut cx = Ctx { rng: case_rng(a.seed, w, i), st, failure: None, thorough: a.thorough, workload: w, idx: i, want_sample, verbose, enumerating: c.workloads[w].exhaustive };
    LOG_ON.with(|l| l.set(i % 2 == 1));
    LOGGED.with(|l| l.set(0));
    CASE.with(|x| x.set((w, i)));
    let f = c.workloads[w].f;
    let r = std::panic::catch_unwind(AssertUnwindSafe(|| f(&mut cx)));
    LOG_ON.with(|l| l.set(false));
    let n = LOGGED.with(|l| l.get());
    cx.count("log records formatted", n);
    if let Err(e) = r {
        let m = session::LAST_PANIC.with(|l| l.borrow().clone());
        let m = if let Some(s) = e.downcast_ref::<net::SpinMarker>() { format!("endless loop in {}", s.0) } else { format!("panic: {m}") };
        cx.fail(m, || "outside a session".into());
    }
    cx.failure
}

fn write_out(a: &Args, c: &Check, st: &Stats, fail: Option<&(usize, u64, Failure)>, wall: f64, done: &[u64]) {
    let mut s = String::from("{");
    s.push_str(&format!("\"property\":{},\"runtime\":{},\"wall_s\":{wall:.3},", jstr(c.id), jstr(RUNTIME)));
    s.push_str(&format!("\"evaluations\":{},\"distinct\":{},\"rule\":{},", st.evals, (st.shapes.len() as u64 + st.enumerated).min(st.evals), jstr(c.rule)));
    s.push_str("\"workloads\":[");
    for (k, w) in c.workloads.iter().enumerate() {
        if k > 0 {
            s.push(',');
        }
        s.push_str(&format!("{{\"name\":{},\"cases\":{},\"exhaustive\":{}}}", jstr(w.name), done[k], w.exhaustive));
    }
    s.push_str("],\"counts\":{");
    for (k, (n, v)) in st.counts.iter().enumerate() {
        if k > 0 {
            s.push(',');
        }
        s.push_str(&format!("{}:{v}", jstr(n)));
    }
    s.push_str("},\"samples\":[");
    for (k, x) in st.samples.iter().take(3).enumerate() {
        if k > 0 {
            s.push(',');
        }
        s.push_str(&jstr(x));
    }
    s.push_str("],\"floors\":[");
    let mut first = true;
    for (n, v) in &c.floors {
        let have = st.counts.get(n).copied().unwrap_or(0);
        if have < *v {
            if !first {
                s.push(',');
            }
            first = false;
            s.push_str(&jstr(&format!("{n}: {have} < {v}")));
        }
    }
    s.push(']');
    if let Some((w, i, f)) = fail {
        s.push_str(&format!(",\"failure\":{{\"workload\":{w},\"name\":{},\"idx\":{i},\"msg\":{},\"detail\":{}}}", jstr(c.workloads[*w].name), jstr(&f.msg), jstr(&f.detail)));
    }
    s.push('}');
    if let Some(p) = &a.out {
        std::fs::write(p, s).expect("write the result");
    } else {
        println!("{s}");
    }
}

fn checks() -> Vec<Check> {
    let mut v = c_send::checks();
    v.extend(c_proto::checks());
    v.extend(c_api::checks());
    v.extend(c_more::checks());
    v.extend(c_leak::checks());
    v
}

fn main() {
    let mut a = Args { prop: String::new(), thorough: false, seed: 1, out: None, replay: None, digests: None, threads: 8, only: None, cases: None };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        let mut val = || it.next().expect("value");
        match x.as_str() {
            "--tier" => a.thorough = val() == "thorough",
            "--seed" => a.seed = val().parse().expect("seed"),
            "--out" => a.out = Some(val()),
            "--digests" => a.digests = Some(val()),
            "--threads" => a.threads = val().parse().expect("threads"),
            "--only" => a.only = Some(val()),
            "--cases" => a.cases = Some(val().parse().expect("cases")),
            "--replay" => {
                let v = val();
                let (w, i) = v.split_once(',').expect("W,I");
                a.replay = Some((w.parse().expect("W"), i.parse().expect("I")));
            }
            _ => a.prop = x,
        }
    }
    // Errors with backtraces take long.
    std::env::set_var("RUST_BACKTRACE", "0");
    catch_aborts();
    let _ = log::set_logger(&SINK);
    // Without logging, what is to be logged is not even evaluated.
    let logs = cfg!(feature = "rt-tokio") || matches!(a.prop.as_str(), "C25" | "C29");
    log::set_max_level(if logs { log::LevelFilter::Trace } else { log::LevelFilter::Off });
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let at = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        session::LAST_PANIC.with(|l| {
            if let Ok(mut l) = l.try_borrow_mut() {
                *l = format!("{m}{at}");
            }
        });
    }));
    let all = checks();
    if a.prop == "--list" || a.prop.is_empty() {
        for c in &all {
            println!("{} {}", c.id, c.workloads.iter().map(|w| w.name).collect::<Vec<_>>().join(", "));
        }
        return;
    }
    let c: &'static Check = Box::leak(Box::new(all.into_iter().find(|c| c.id == a.prop).expect("unknown property")));
    let a: &'static Args = Box::leak(Box::new(a));
    if let Some((w, i)) = a.replay {
        let mut st = Stats::default();
        let r = run_case(c, a, w, i, &mut st, true, true);
        for (k, v) in &st.counts {
            println!("{k}: {v}");
        }
        match r {
            Some(f) => {
                println!("VIOLATED {}: {}\n{}", c.id, f.msg, f.detail);
                std::process::exit(1);
            }
            None => println!("HELD {}", c.id),
        }
        return;
    }
    let start = Instant::now();
    let counts: &'static Vec<u64> = Box::leak(Box::new(
        c.workloads
            .iter()
            .map(|w| {
                if a.only.as_ref().map(|o| o != w.name).unwrap_or(false) {
                    return 0;
                }
                let n = if a.thorough { w.thorough } else { w.quick };
                a.cases.map(|c| c.min(n)).unwrap_or(n)
            })
            .collect(),
    ));
    let total: u64 = counts.iter().sum();
    let next: &'static AtomicU64 = Box::leak(Box::new(AtomicU64::new(0)));
    let stop: &'static AtomicBool = Box::leak(Box::new(AtomicBool::new(false)));
    let merged: &'static Mutex<Stats> = Box::leak(Box::default());
    let failure: &'static Mutex<Option<(usize, u64, Failure)>> = Box::leak(Box::new(Mutex::new(None)));
    let slots: &'static Vec<SlotInfo> = Box::leak(Box::new(
        (0..a.threads)
            .map(|_| SlotInfo { workload: AtomicU64::new(0), idx: AtomicU64::new(0), running: AtomicBool::new(false), cpu_at_start: AtomicU64::new(0), thread: AtomicU64::new(0) })
            .collect(),
    ));
    // Interleave workloads so that each gets its share early on.
    let mut handles = vec![];
    for k in 0..a.threads {
        let h = std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                SLOT.with(|s| s.set(k));
                let me = unsafe { libc::pthread_self() };
                slots[k].thread.store(me as u64, Ordering::SeqCst);
                let mut st = Stats::default();
                loop {
                    if stop.load(Ordering::Relaxed) {
                        break;
                    }
                    let batch = 8;
                    let n0 = next.fetch_add(batch, Ordering::Relaxed);
                    if n0 >= total {
                        break;
                    }
                    for n in n0..(n0 + batch).min(total) {
                        let (mut w, mut i) = (0, n);
                        while i >= counts[w] {
                            i -= counts[w];
                            w += 1;
                        }
                        slots[k].workload.store(w as u64, Ordering::SeqCst);
                        slots[k].idx.store(i, Ordering::SeqCst);
                        slots[k].cpu_at_start.store(thread_cpu_ns(me), Ordering::SeqCst);
                        slots[k].running.store(true, Ordering::SeqCst);
                        let want_sample = i == 0 || i == 7;
                        let r = run_case(c, a, w, i, &mut st, want_sample, false);
                        slots[k].running.store(false, Ordering::SeqCst);
                        if let Some(f) = r {
                            let mut g = failure.lock().unwrap();
                            if g.as_ref().map(|(w0, i0, _)| (w, i) < (*w0, *i0)).unwrap_or(true) {
                                *g = Some((w, i, f));
                            }
                            stop.store(true, Ordering::SeqCst);
                            break;
                        }
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                    }
                }
                merged.lock().unwrap().merge(st);
            })
            .expect("thread");
        handles.push(h);
    }
    // Watchdog: CPU time of one case (since its last session began) and memory held
    let mut beats = vec![(0u64, 0u64); a.threads];
    loop {
        std::thread::sleep(Duration::from_millis(20));
        if handles.iter().all(|h| h.is_finished()) {
            break;
        }
        for (k, s) in slots.iter().enumerate() {
            if !s.running.load(Ordering::SeqCst) {
                continue;
            }
            let (w, i) = (s.workload.load(Ordering::SeqCst), s.idx.load(Ordering::SeqCst));
            let now = thread_cpu_ns(s.thread.load(Ordering::SeqCst) as libc::pthread_t);
            let beat = BEATS[k].load(Ordering::Relaxed);
            if beats[k].0 != beat {
                beats[k] = (beat, now);
            }
            let cpu = now.saturating_sub(s.cpu_at_start.load(Ordering::SeqCst).max(beats[k].1));
            let mem = LIVE[k].load(Ordering::Relaxed);
            let msg = if cpu > 60_000_000_000 {
                format!("one session used more than 60 s of processor time: it does not end (memory held {mem} bytes)")
            } else if mem > MEMORY_LIMIT {
                format!("one case holds {mem} bytes of memory: it grows without bound")
            } else {
                continue;
            };
            if !s.running.load(Ordering::SeqCst) || (s.workload.load(Ordering::SeqCst), s.idx.load(Ordering::SeqCst)) != (w, i) {
                continue;
            }
            let f = (w as usize, i, Failure { msg, detail: "(still running)".into() });
            let st = merged.lock().unwrap();
            write_out(a, c, &st, Some(&f), start.elapsed().as_secs_f64(), counts);
            unsafe { libc::_exit(1) };
        }
    }
    for h in handles {
        let _ = h.join();
    }
    let mut st = merged.lock().unwrap();
    let f = failure.lock().unwrap();
    if let Some(p) = &a.digests {
        st.digests.sort();
        let s: String = st.digests.iter().map(|(w, i, d)| format!("{w} {i} {d:016x}\n")).collect();
        std::fs::write(p, s).expect("write digests");
    }
    write_out(a, c, &st, f.as_ref(), start.elapsed().as_secs_f64(), counts);
    if f.is_some() {
        std::process::exit(1);
    }
}

//! Harness runtime. In the symbolic executor (riscv64 IR) the `__v_*` functions are its entry
//! points; natively (replay of a counterexample) they read the values of a file.

#[cfg(target_arch = "riscv64")]
mod sys {
    extern "C" {
        pub fn __v_any(name: *const u8, len: usize, bits: u64, lo: u64, hi: u64) -> u64;
        pub fn __v_choose(name: *const u8, len: usize, n: u64) -> u64;
        pub fn __v_assume(c: bool);
        pub fn __v_assert(c: bool, label: *const u8, len: usize);
        pub fn __v_cover(label: *const u8, len: usize);
        pub fn __v_expect(label: *const u8, len: usize);
        pub fn __v_concretize(v: u64) -> u64;
        pub fn __v_map_order(mode: u64);
        pub fn __v_log(p: *const u8, len: usize);
        pub fn __v_log_u64(p: *const u8, len: usize, v: u64);
        pub fn __v_sample(p: *const u8, len: usize);
        pub fn __v_deep() -> u64;
        pub fn __v_spawn(f: extern "C" fn(*mut u8), data: *mut u8, preemptions: u64);
        pub fn __v_join();
        pub fn __v_sync_point(kind: usize);
    }
}

#[cfg(not(target_arch = "riscv64"))]
pub mod sys {
    //! Native replay: values come from a table keyed by `name#occurrence`.
    use std::collections::HashMap;
    use std::sync::Mutex;
    pub struct Replay {
        pub values: HashMap<String, u64>,
        pub occ: HashMap<String, u32>,
        pub log: Vec<String>,
        pub verbose: bool,
    }
    pub static REPLAY: Mutex<Option<Replay>> = Mutex::new(None);
    pub struct AssumeFailed;
    pub struct AssertFailed(pub String);

    unsafe fn s<'a>(p: *const u8, n: usize) -> &'a str {
        std::str::from_utf8(std::slice::from_raw_parts(p, n)).unwrap()
    }
    fn value(name: &str, default: u64) -> u64 {
        let _quiet = super::schedule::Quiet::new();
        let mut g = REPLAY.lock().unwrap();
        let r = g.as_mut().unwrap();
        let o = r.occ.entry(name.to_string()).or_insert(0);
        let key = format!("{}#{}", name, o);
        *o += 1;
        let v = r.values.get(&key).cloned().unwrap_or(default);
        if r.verbose {
            eprintln!("input {} = {}", key, v);
        }
        v
    }
    pub unsafe fn __v_any(name: *const u8, len: usize, _bits: u64, lo: u64, hi: u64) -> u64 {
        let v = value(s(name, len), lo);
        if lo <= hi && (v < lo || v > hi) {
            std::panic::resume_unwind(Box::new(AssumeFailed));
        }
        v
    }
    pub unsafe fn __v_choose(name: *const u8, len: usize, n: u64) -> u64 {
        let v = value(s(name, len), 0);
        if v >= n {
            std::panic::resume_unwind(Box::new(AssumeFailed));
        }
        v
    }
    pub unsafe fn __v_assume(c: bool) {
        if !c {
            std::panic::resume_unwind(Box::new(AssumeFailed));
        }
    }
    pub unsafe fn __v_assert(c: bool, label: *const u8, len: usize) {
        if !c {
            std::panic::resume_unwind(Box::new(AssertFailed(s(label, len).to_string())));
        }
    }
    pub unsafe fn __v_cover(_: *const u8, _: usize) {}
    pub unsafe fn __v_expect(_: *const u8, _: usize) {}
    pub unsafe fn __v_concretize(v: u64) -> u64 {
        v
    }
    pub unsafe fn __v_map_order(_: u64) {}
    pub unsafe fn __v_log(p: *const u8, n: usize) {
        eprintln!("[log] {}", s(p, n));
    }
    pub unsafe fn __v_log_u64(p: *const u8, n: usize, v: u64) {
        eprintln!("[log] {} = {}", s(p, n), v);
    }
    pub unsafe fn __v_sample(_: *const u8, _: usize) {}
    pub fn switch() -> bool {
        value("switch", 0) == 1
    }
    pub unsafe fn __v_deep() -> u64 {
        std::env::var("VERIF_DEEP").map(|v| v == "1").unwrap_or(false) as u64
    }
}

/// The schedule of two threads: only one runs; the other may go on at a synchronisation point.
#[cfg(not(target_arch = "riscv64"))]
pub mod schedule {
    use super::sys;
    use std::cell::Cell;
    use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
    use std::time::Duration;

    thread_local! {
        static ME: Cell<usize> = const { Cell::new(usize::MAX) };
        static QUIET: Cell<usize> = const { Cell::new(0) };
    }
    /// nothing is a synchronisation point while it lives
    pub struct Quiet(());
    impl Quiet {
        pub fn new() -> Self {
            QUIET.with(|q| q.set(q.get() + 1));
            Quiet(())
        }
    }
    impl Drop for Quiet {
        fn drop(&mut self) {
            QUIET.with(|q| q.set(q.get() - 1));
        }
    }
    static TURN: AtomicUsize = AtomicUsize::new(0);
    static LEFT: AtomicU64 = AtomicU64::new(0);
    static BLOCKED: [AtomicBool; 2] = [AtomicBool::new(false), AtomicBool::new(false)];
    static GONE: [AtomicBool; 2] = [AtomicBool::new(false), AtomicBool::new(false)];
    static ABORT: AtomicBool = AtomicBool::new(false);
    static DEADLOCK: AtomicBool = AtomicBool::new(false);

    fn await_turn(me: usize) {
        while TURN.load(SeqCst) != me {
            if ABORT.load(SeqCst) {
                std::panic::resume_unwind(Box::new(sys::AssumeFailed));
            }
            std::thread::sleep(Duration::from_micros(20));
        }
    }
    fn deadlock() -> ! {
        DEADLOCK.store(true, SeqCst);
        ABORT.store(true, SeqCst);
        std::panic::resume_unwind(Box::new(sys::AssumeFailed));
    }
    #[no_mangle]
    pub extern "C-unwind" fn __v_sync_point(kind: usize) {
        let me = ME.try_with(|m| m.get()).unwrap_or(usize::MAX);
        if me > 1 || QUIET.try_with(|q| q.get()).unwrap_or(1) > 0 || ABORT.load(SeqCst) {
            return;
        }
        if kind == 1 {
            BLOCKED[0].store(false, SeqCst);
            BLOCKED[1].store(false, SeqCst);
        }
        let other = 1 - me;
        if GONE[other].load(SeqCst) || LEFT.load(SeqCst) == 0 || BLOCKED[other].load(SeqCst) {
            return;
        }
        if sys::switch() {
            LEFT.fetch_sub(1, SeqCst);
            TURN.store(other, SeqCst);
            await_turn(me);
        }
    }
    #[no_mangle]
    pub extern "C-unwind" fn __v_blocked() {
        let me = ME.try_with(|m| m.get()).unwrap_or(usize::MAX);
        if QUIET.try_with(|q| q.get()).unwrap_or(1) > 0 || ABORT.load(SeqCst) || std::thread::panicking() {
            std::thread::sleep(Duration::from_millis(1));
            return;
        }
        // without a second thread, a lock that is taken is taken by this one
        if me > 1 {
            panic!("deadlock: a thread waits for a lock that is never released");
        }
        BLOCKED[me].store(true, SeqCst);
        let other = 1 - me;
        if GONE[other].load(SeqCst) || BLOCKED[other].load(SeqCst) {
            deadlock();
        }
        TURN.store(other, SeqCst);
        await_turn(me);
    }
    /// on the way out of a thread, however it ends
    struct End(usize);
    impl Drop for End {
        fn drop(&mut self) {
            if std::thread::panicking() {
                ABORT.store(true, SeqCst);
            }
            GONE[self.0].store(true, SeqCst);
            ME.with(|m| m.set(usize::MAX));
            TURN.store(1 - self.0, SeqCst);
        }
    }
    pub fn two<A, B: Send>(preemptions: u64, a: impl FnOnce() -> A, b: impl FnOnce() -> B + Send) -> (A, B) {
        TURN.store(0, SeqCst);
        LEFT.store(preemptions, SeqCst);
        ABORT.store(false, SeqCst);
        DEADLOCK.store(false, SeqCst);
        for i in 0..2 {
            BLOCKED[i].store(false, SeqCst);
            GONE[i].store(false, SeqCst);
        }
        std::thread::scope(|s| {
            let t = s.spawn(move || {
                await_turn(1);
                ME.with(|m| m.set(1));
                let _end = End(1);
                b()
            });
            ME.with(|m| m.set(0));
            let ra = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let _end = End(0);
                let ra = a();
                if BLOCKED[1].load(SeqCst) && !GONE[1].load(SeqCst) {
                    deadlock();
                }
                ra
            }));
            let rb = t.join();
            if DEADLOCK.load(SeqCst) {
                panic!("deadlock: a thread waits for a lock that is never released");
            }
            let assumed = |e: &Box<dyn std::any::Any + Send>| e.downcast_ref::<sys::AssumeFailed>().is_some();
            match (ra, rb) {
                (Ok(ra), Ok(rb)) => (ra, rb),
                (Err(e), Ok(_)) | (Ok(_), Err(e)) => std::panic::resume_unwind(e),
                (Err(a), Err(b)) => std::panic::resume_unwind(if assumed(&a) { b } else { a }),
            }
        })
    }
}

/// runs both at the same time: whenever one is about to take a lock, has released one, or is at a
/// point of the environment where that is possible, the other may go on, at most `preemptions` times
#[cfg(not(target_arch = "riscv64"))]
pub fn two_threads<A, B: Send>(preemptions: u64, a: impl FnOnce() -> A, b: impl FnOnce() -> B + Send) -> (A, B) {
    schedule::two(preemptions, a, b)
}
#[cfg(target_arch = "riscv64")]
pub fn two_threads<A, B: Send>(preemptions: u64, a: impl FnOnce() -> A, b: impl FnOnce() -> B + Send) -> (A, B) {
    struct Job<F, B>(Option<F>, Option<B>);
    extern "C" fn run<F: FnOnce() -> B, B>(data: *mut u8) {
        let job = unsafe { &mut *(data as *mut Job<F, B>) };
        job.1 = Some(job.0.take().unwrap()());
    }
    fn start<F: FnOnce() -> B, B>(job: &mut Job<F, B>, preemptions: u64) {
        unsafe { sys::__v_spawn(run::<F, B>, job as *mut Job<F, B> as *mut u8, preemptions) }
    }
    let mut job = Job(Some(b), None);
    start(&mut job, preemptions);
    let ra = a();
    unsafe { sys::__v_join() };
    (ra, job.1.take().unwrap())
}

use std::path::PathBuf;

fn any(name: &str, bits: u64, lo: u64, hi: u64) -> u64 {
    unsafe { sys::__v_any(name.as_ptr(), name.len(), bits, lo, hi) }
}
pub fn any_u64(name: &str, lo: u64, hi: u64) -> u64 {
    any(name, 64, lo, hi)
}
pub fn any_usize(name: &str, lo: usize, hi: usize) -> usize {
    any(name, 64, lo as u64, hi as u64) as usize
}
pub fn any_u32(name: &str, lo: u32, hi: u32) -> u32 {
    any(name, 32, lo as u64, hi as u64) as u32
}
pub fn any_i32(name: &str) -> i32 {
    any(name, 32, 0, u32::MAX as u64) as u32 as i32
}
pub fn any_u8(name: &str, lo: u8, hi: u8) -> u8 {
    any(name, 8, lo as u64, hi as u64) as u8
}
pub fn any_bool(name: &str) -> bool {
    any(name, 1, 0, 1) & 1 == 1
}
/// any 32-bit float, NaN and infinities included
pub fn any_f32(name: &str) -> f32 {
    f32::from_bits(any(name, 32, 0, u32::MAX as u64) as u32)
}
/// a float in [0, 1]
pub fn any_unit_f32(name: &str) -> f32 {
    // bit patterns of non-negative floats are ordered like the floats
    f32::from_bits(any(name, 32, 0, 1f32.to_bits() as u64) as u32)
}
/// one of 0..n, explored as separate paths
pub fn choose(name: &str, n: usize) -> usize {
    unsafe { sys::__v_choose(name.as_ptr(), name.len(), n as u64) as usize }
}
pub fn choose_bool(name: &str) -> bool {
    choose(name, 2) == 1
}
pub fn pick<'a, T>(name: &str, options: &'a [T]) -> &'a T {
    &options[choose(name, options.len())]
}
pub fn assume(c: bool) {
    unsafe { sys::__v_assume(c) }
}
pub fn check(c: bool, label: &str) {
    unsafe { sys::__v_assert(c, label.as_ptr(), label.len()) }
}
pub fn cover(label: &str) {
    unsafe { sys::__v_cover(label.as_ptr(), label.len()) }
}
/// covers `label` when `c` can hold
pub fn cover_if(c: bool, label: &str) {
    if c {
        cover(label)
    }
}
pub fn expect(labels: &[&str]) {
    for l in labels {
        unsafe { sys::__v_expect(l.as_ptr(), l.len()) }
    }
}
pub fn concretize(v: usize) -> usize {
    unsafe { sys::__v_concretize(v as u64) as usize }
}
/// 0: ascending, 1: descending, 2 and 3: one and the other in turn
pub fn map_order(mode: u64) {
    unsafe { sys::__v_map_order(mode) }
}
/// iteration order of the hash containers filled from here on: ascending or descending
pub fn choose_map_order() {
    map_order(choose("map_order", 2) as u64)
}
/// any iteration order of a hash container of at most `n` entries
pub fn choose_map_permutation(n: usize) {
    let mut o = 1u64 << 62;
    for i in 0..n {
        o |= (choose("map_slot", n - i) as u64) << (3 * i);
    }
    map_order(o)
}
/// a bound of the quick and of the thorough tier
pub fn bound(quick: usize, thorough: usize) -> usize {
    if unsafe { sys::__v_deep() } == 1 {
        thorough
    } else {
        quick
    }
}
pub fn log(s: &str) {
    unsafe { sys::__v_log(s.as_ptr(), s.len()) }
}
pub fn log_u64(s: &str, v: u64) {
    unsafe { sys::__v_log_u64(s.as_ptr(), s.len(), v) }
}
pub fn sample(s: &str) {
    unsafe { sys::__v_sample(s.as_ptr(), s.len()) }
}

#[cfg(target_arch = "riscv64")]
pub fn root() -> PathBuf {
    PathBuf::from("/v")
}
#[cfg(not(target_arch = "riscv64"))]
pub static ROOT: std::sync::Mutex<Option<PathBuf>> = std::sync::Mutex::new(None);
#[cfg(not(target_arch = "riscv64"))]
pub fn root() -> PathBuf {
    ROOT.lock().unwrap().clone().unwrap()
}
pub fn put(rel: &str, content: &str) -> PathBuf {
    let p = root().join(rel);
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(&p, content).unwrap();
    p
}

/// Symbolic text. `c`: one character per entry, each an inclusive code-point range inside one
/// UTF-8 length class.
pub fn any_char(name: &str, ranges: &[(char, char)]) -> char {
    let (lo, hi) = ranges[if ranges.len() == 1 { 0 } else { choose(&format!("{}.class", name), ranges.len()) }];
    let v = if lo == hi { lo as u32 } else { any_u32(name, lo as u32, hi as u32) };
    // SAFETY: the classes contain no surrogates
    unsafe { char::from_u32_unchecked(v) }
}
pub fn any_text(name: &str, len: usize, ranges: &[(char, char)]) -> String {
    let mut s = String::new();
    for _ in 0..len {
        s.push(any_char(name, ranges));
    }
    s
}

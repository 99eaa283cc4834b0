//! Native implementation of the `msym_*` interface: replays one path of the
//! symbolic executor against the real, natively compiled code.
use std::alloc::{GlobalAlloc, Layout, System};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(1, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static A: Counting = Counting;

struct St { inputs: Vec<(String, u64, bool)>, trace: Vec<String>, missing: u32 }
static ST: Mutex<St> = Mutex::new(St { inputs: Vec::new(), trace: Vec::new(), missing: 0 });
static JITTER: AtomicU64 = AtomicU64::new(0);
fn st() -> std::sync::MutexGuard<'static, St> { ST.lock().unwrap_or_else(|e| e.into_inner()) }
unsafe fn text(p: *const u8, n: usize) -> String { String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned() }
fn say(s: &str) { use std::io::Write; let mut o = std::io::stdout(); let _ = writeln!(o, "{}", s); let _ = o.flush(); }
extern "C" { fn _exit(c: i32) -> !; }

#[no_mangle]
unsafe extern "C" fn msym_any(bits: u32, name: *const u8, n: usize) -> u64 {
    let name = text(name, n);
    let mut s = st();
    let v = match s.inputs.iter_mut().find(|i| !i.2 && i.0 == name) { Some(i) => { i.2 = true; i.1 } None => { s.missing += 1; 0 } };
    if bits >= 64 { v } else { v & ((1u64 << bits) - 1) }
}
#[no_mangle]
unsafe extern "C" fn msym_assume(c: bool) { if !c { say("REPLAY-ASSUME"); _exit(3) } }
#[no_mangle]
unsafe extern "C" fn msym_check(c: bool, m: *const u8, n: usize) { if !c { say(&format!("REPLAY-VIOLATION {}", text(m, n))); _exit(1) } }
#[no_mangle]
unsafe extern "C" fn msym_cover(m: *const u8, n: usize) { let t = text(m, n); st().trace.push(t) }
#[no_mangle]
unsafe extern "C" fn msym_must(_: *const u8, _: usize) {}
#[no_mangle]
unsafe extern "C" fn msym_has(h: *const u8, n: usize, x: *const u8, m: usize) -> bool { text(h, n).contains(&text(x, m)) }
#[no_mangle]
extern "C" fn msym_trace(v: u64) { st().trace.push(v.to_string()) }
#[no_mangle]
extern "C" fn msym_concretize(v: u64) -> u64 { v }
#[no_mangle]
extern "C" fn msym_heap() -> u64 { LIVE.load(SeqCst) as u64 }
#[no_mangle]
extern "C" fn msym_preempt(_: u64) {}
#[no_mangle]
extern "C" fn msym_yield() { jitter() }
/// Stress runs vary the timing of the threads
fn jitter() {
    let j = JITTER.load(SeqCst);
    if j == 0 { return; }
    let x = JITTER.fetch_add(0x9E37_79B9_7F4A_7C15, SeqCst) | 1;
    for _ in 0..(x >> 54) { std::hint::spin_loop() }
    if x & 0x100 == 0 { std::thread::yield_now() }
}
struct P(*mut u8);
unsafe impl Send for P {}
static THREADS: Mutex<Vec<Option<std::thread::JoinHandle<()>>>> = Mutex::new(Vec::new());
#[no_mangle]
unsafe extern "C" fn msym_spawn(f: extern "C" fn(*mut u8), arg: *mut u8) -> u64 {
    let p = P(arg);
    let h = std::thread::spawn(move || { let p = p; jitter(); f(p.0) });
    let mut t = THREADS.lock().unwrap_or_else(|e| e.into_inner());
    t.push(Some(h));
    t.len() as u64 - 1
}
#[no_mangle]
unsafe extern "C" fn msym_join(id: u64) {
    let h = THREADS.lock().unwrap_or_else(|e| e.into_inner())[id as usize].take();
    if let Some(h) = h { if h.join().is_err() { say("REPLAY-VIOLATION panic escaped the harness"); _exit(1) } }
}
/// Run a harness `f` on inputs ("name value" per line), `times` times.  Prints the trace.
#[no_mangle]
pub unsafe extern "C" fn replay_run(f: fn(), inputs: *const u8, n: usize, times: u64, seed: u64) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let inputs: Vec<(String, u64, bool)> = text(inputs, n).lines().filter_map(|l| l.rsplit_once(' ').map(|(a, b)| (a.to_string(), b.parse::<u128>().unwrap() as u64, false))).collect();
    for k in 0..times {
        { let mut s = st(); s.inputs = inputs.clone(); s.trace.clear(); s.missing = 0; }
        if times > 1 { JITTER.store((seed + k).wrapping_mul(0xD134_2543_DE82_EF95) | 1, SeqCst) }
        if catch_unwind(AssertUnwindSafe(f)).is_err() { say("REPLAY-VIOLATION panic escaped the harness"); return 1; }
        THREADS.lock().unwrap_or_else(|e| e.into_inner()).clear();
    }
    let s = st();
    if s.missing > 0 { say(&format!("REPLAY-MISSING {}", s.missing)) }
    for t in &s.trace { say(&format!("REPLAY-TRACE {}", t)) }
    0
}

//! The interface between a harness and whoever runs it: the symbolic executor
//! (which implements the `msym_*` functions) or the native replayer (`replay`
//! feature), where the same functions take their values from a counterexample.
use std::panic::{catch_unwind, AssertUnwindSafe};

extern "C" {
    fn msym_any(bits: u32, name: *const u8, n: usize) -> u64;
    fn msym_assume(c: bool);
    fn msym_check(c: bool, m: *const u8, n: usize);
    fn msym_cover(m: *const u8, n: usize);
    fn msym_must(m: *const u8, n: usize);
    fn msym_trace(v: u64);
    fn msym_concretize(v: u64) -> u64;
    fn msym_heap() -> u64;
    fn msym_spawn(f: extern "C" fn(*mut u8), arg: *mut u8) -> u64;
    fn msym_join(id: u64);
    fn msym_preempt(n: u64);
    fn msym_yield();
    fn msym_has(h: *const u8, n: usize, x: *const u8, m: usize) -> bool;
}

pub fn any_u64(n: &str) -> u64 { unsafe { msym_any(64, n.as_ptr(), n.len()) } }
pub fn any_usize(n: &str) -> usize { any_u64(n) as usize }
pub fn any_u32(n: &str) -> u32 { unsafe { msym_any(32, n.as_ptr(), n.len()) as u32 } }
pub fn any_u16(n: &str) -> u16 { unsafe { msym_any(16, n.as_ptr(), n.len()) as u16 } }
pub fn any_u8(n: &str) -> u8 { unsafe { msym_any(8, n.as_ptr(), n.len()) as u8 } }
pub fn any_bool(n: &str) -> bool {
    let b = any_u8(n);
    assume(b < 2);
    b == 1
}
/// A symbolic choice in 0..n that is forked on at once.
pub fn choose(n: u32, name: &str) -> u32 {
    let v = any_u8(name);
    assume((v as u32) < n);
    unsafe { msym_concretize(v as u64) as u32 }
}
/// A symbolic value in lo..=hi
pub fn any_in(lo: u32, hi: u32, name: &str) -> u32 {
    let v = any_u32(name);
    assume(v >= lo);
    assume(v <= hi);
    v
}
pub fn concretize(v: u64) -> u64 { unsafe { msym_concretize(v) } }
pub fn assume(c: bool) { unsafe { msym_assume(c) } }
pub fn check(c: bool, m: &str) { unsafe { msym_check(c, m.as_ptr(), m.len()) } }
/// Record that a situation was reached.
pub fn cover(m: &str) { unsafe { msym_cover(m.as_ptr(), m.len()) } }
/// Declare that the situation must be reached on some path, or the run is vacuous.
pub fn must(m: &str) { unsafe { msym_must(m.as_ptr(), m.len()) } }
/// Does the text contain another one?  (Integers in either may be symbolic.)
pub fn has(h: &str, x: &str) -> bool { unsafe { msym_has(h.as_ptr(), h.len(), x.as_ptr(), x.len()) } }
pub fn trace(v: u64) { unsafe { msym_trace(v) } }
pub fn heap() -> u64 { unsafe { msym_heap() } }
pub fn preempt(n: u64) { unsafe { msym_preempt(n) } }
pub fn yield_now() { unsafe { msym_yield() } }

pub struct Thread(u64);
struct Job(Box<dyn FnOnce()>);
extern "C" fn tramp(p: *mut u8) {
    let j = unsafe { Box::from_raw(p as *mut Job) };
    (j.0)()
}
/// Start a thread.  The caller must join it before anything it borrows dies.
pub unsafe fn spawn<'a, F: FnOnce() + 'a>(f: F) -> Thread {
    let b: Box<dyn FnOnce() + 'a> = Box::new(f);
    let b: Box<dyn FnOnce()> = std::mem::transmute(b);
    let p = Box::into_raw(Box::new(Job(b)));
    Thread(msym_spawn(tramp, p as *mut u8))
}
pub fn join(t: Thread) { unsafe { msym_join(t.0) } }

/// Run a closure; Err carries the panic message.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&'static str>() {
            s.to_string()
        } else {
            String::from("?")
        }
    })
}
/// Did the closure panic?
pub fn panics<R>(f: impl FnOnce() -> R) -> bool { catch_unwind(AssertUnwindSafe(f)).is_err() }

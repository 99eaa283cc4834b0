//! C19 (concurrent calls) and C20 (single-threaded closures)
use super::util::*;
use mockall::mock;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::cell::UnsafeCell;

/// Run the closures on threads of their own
fn par<'a>(fs: Vec<Box<dyn FnOnce() + 'a>>) {
    let ts: Vec<Thread> = fs.into_iter().map(|f| unsafe { spawn(f) }).collect();
    for t in ts { join(t) }
}
/// A mock whose method can be called through a shared reference
trait Shared: Sized {
    const STATIC: bool;
    fn new() -> Self;
    /// An expectation whose closure counts its runs in `n` and yields the count
    fn expect(&mut self, hi: usize, key: Option<u32>, n: Cnt, seq: Option<&mut Sequence>);
    fn call(&self, a: u32) -> u32;
}
mock! { pub Cc {
    pub fn foo(&self, a: u32) -> u32;
    pub fn gen<X: 'static + std::fmt::Debug>(&self, a: X) -> u32;
    pub fn stat(a: u32) -> u32;
    pub fn gstat<X: 'static + std::fmt::Debug>(a: X) -> u32;
    pub fn rf(&self, a: u32) -> &u32;
    pub fn grf<X: 'static + std::fmt::Debug>(&self, a: X) -> &u32;
    pub async fn asy(&self, a: u32) -> u32;
    pub fn bar(&self, a: u32) -> u32;
    pub fn sbar(a: u32) -> u32;
} }
/// A counter that is torn if two threads are inside at once
struct Inside(UnsafeCell<u32>);
unsafe impl Send for Inside {}
unsafe impl Sync for Inside {}
struct Count { n: AtomicU32, inside: Inside }
fn body(n: &Count) -> u32 {
    // no atomic operation: a second thread inside would be seen
    let p = n.inside.0.get();
    let v = unsafe { *p };
    yield_now();
    check(unsafe { *p } == v, "a return closure never runs on two threads at once");
    unsafe { *p = v + 1 };
    n.n.fetch_add(1, SeqCst)
}
type Cnt = std::sync::Arc<Count>;
/// Implement Shared: `$get` evaluates to an expectation (or a guard of one).
macro_rules! shared {
    ($n:ident, $stat:expr, |$m:ident, $cx:ident| $ctx:expr, $get:expr, |$c:ident, $a:ident| $call:expr, $ret:ident) => {
        pub struct $n(MockCc);
        impl Shared for $n {
            const STATIC: bool = $stat;
            fn new() -> Self { $n(MockCc::new()) }
            fn expect(&mut self, hi: usize, key: Option<u32>, n: Cnt, seq: Option<&mut Sequence>) {
                let $m = &mut self.0;
                let $cx = $ctx;
                {
                    let mut e = $get;
                    e.times(hi);
                    if let Some(k) = key { e.withf(move |a| *a == k); }
                    shared_ret!($ret e n);
                    if let Some(q) = seq { e.in_sequence(q); }
                }
                std::mem::forget($cx);
            }
            fn call(&self, $a: u32) -> u32 { let $c = &self.0; $call }
        }
    };
}
macro_rules! shared_ret {
    (val $e:ident $n:ident) => { $e.returning(move |_| body(&$n)); };
    (konst $e:ident $n:ident) => { drop($n); $e.return_const(7u32); };
}
shared!(Foo, false, |m, c| (), m.expect_foo(), |m, a| m.foo(a), val);
shared!(Gen, false, |m, c| (), m.expect_gen::<u32>(), |m, a| m.gen(a), val);
shared!(Asy, false, |m, c| (), m.expect_asy(), |m, a| block_on(m.asy(a)), val);
shared!(Rf, false, |m, c| (), m.expect_rf(), |m, a| *m.rf(a), konst);
shared!(Grf, false, |m, c| (), m.expect_grf::<u32>(), |m, a| *m.grf(a), konst);
shared!(St, true, |m, c| MockCc::stat_context(), c.expect(), |m, a| MockCc::stat(a), val);
shared!(Gst, true, |m, c| MockCc::gstat_context(), c.expect::<u32>(), |m, a| MockCc::gstat(a), val);

fn cnt() -> Cnt { std::sync::Arc::new(Count { n: AtomicU32::new(0), inside: Inside(UnsafeCell::new(0)) }) }
/// Leave the static functions as new, whatever happened to them
fn clear() { let _ = catch(|| { let _c = (MockCc::stat_context(), MockCc::gstat_context()); panic!("clear") }); }
/// T threads call k times each; one expectation allows exactly `hi` calls.
fn total<H: Shared>(threads: usize, k: usize, p: u64) {
    must("all served");
    must("some refused");
    preempt(p);
    let hi = any_usize("hi");
    assume(hi <= threads * k + 1);
    let mut m = H::new();
    let n = cnt();
    m.expect(hi, None, n.clone(), None);
    let served = AtomicU32::new(0);
    let values = AtomicU32::new(0);
    par((0..threads).map(|_| { let (m, served, values) = (&m, &served, &values); Box::new(move || {
        for _ in 0..k { if let Ok(v) = catch(|| m.call(1)) { served.fetch_add(1, SeqCst); values.fetch_add(1u32 << (4 * (v & 7)), SeqCst); } }
    }) as Box<dyn FnOnce()> }).collect());
    let calls = threads * k;
    let s = served.load(SeqCst) as usize;
    check(s == hi.min(calls), "of concurrent calls exactly as many are served as allowed");
    let ran = n.n.load(SeqCst) as usize;
    if ran > 0 {
        check(ran == s, "the return closure runs once for each served call");
        let mut w = 0;
        for i in 0..ran { w += 1u32 << (4 * i); }
        check(values.load(SeqCst) == w, "every served call yields the value of its own closure run");
    }
    cover(if hi >= calls { "all served" } else { "some refused" });
    if !H::STATIC { check(panics(|| drop(m)) == (hi != calls), "concurrent calls are all counted"); }
    else { let c = (MockCc::stat_context(), MockCc::gstat_context()); check(panics(|| drop(c)) == (hi != calls), "concurrent calls are all counted"); }
}
/// Two expectations told apart by their matchers
fn matched<H: Shared>(p: u64) {
    must("served");
    preempt(p);
    let mut m = H::new();
    let (n, o) = (cnt(), cnt());
    m.expect(1, Some(1), n.clone(), None);
    m.expect(1, Some(2), o.clone(), None);
    let (r, s) = (AtomicU32::new(0), AtomicU32::new(0));
    let (a, b) = (any_in(1, 2, "a"), any_in(1, 2, "b"));
    assume(a != b);
    par(vec![
        Box::new(|| if catch(|| m.call(a)).is_ok() { r.store(1, SeqCst) }),
        Box::new(|| if catch(|| m.call(b)).is_ok() { s.store(1, SeqCst) }),
    ]);
    check(r.load(SeqCst) == 1 && s.load(SeqCst) == 1, "concurrent calls are each served by the expectation that matches");
    cover("served");
    if !H::STATIC { check(!panics(|| drop(m)), "concurrent calls are all counted"); }
    else { let c = (MockCc::stat_context(), MockCc::gstat_context()); check(!panics(|| drop(c)), "concurrent calls are all counted"); }
}
/// Two expectations in a row that both match
fn row<H: Shared>(p: u64, n0: usize, n1: usize) {
    must("served");
    preempt(p);
    let mut m = H::new();
    let (n, o) = (cnt(), cnt());
    m.expect(n0, None, n.clone(), None);
    m.expect(n1, None, o.clone(), None);
    let (ok, full) = (AtomicU32::new(0), AtomicU32::new(0));
    par((0..n0 + n1).map(|_| { let (m, ok, full) = (&m, &ok, &full); Box::new(move || match catch(|| m.call(1)) {
        Ok(_) => { ok.fetch_add(1, SeqCst); }
        Err(e) => if e.contains("more than the expected") || e.contains("should not have been called") { full.fetch_add(1, SeqCst); },
    }) as Box<dyn FnOnce()> }).collect());
    // a call that lost a race for the last call of an expectation, and is
    // refused although the next one could have served it (see known-findings.txt)
    check(full.load(SeqCst) == 0, "no concurrent call is sent to an expectation that other calls have filled up");
    check(ok.load(SeqCst) as usize == n0 + n1, "concurrent calls within the total of matching expectations are all served");
    cover("served");
    if H::STATIC { let c = (MockCc::stat_context(), MockCc::gstat_context()); check(!panics(|| drop(c)), "concurrent calls are all counted"); }
    else { std::mem::forget(m); }
}
/// Concurrent calls of one sequenced expectation
fn sequenced<H: Shared>(p: u64) {
    must("served");
    preempt(p);
    let mut seq = Sequence::new();
    let mut m = H::new();
    m.expect(2, Some(1), cnt(), Some(&mut seq));
    m.expect(1, Some(2), cnt(), Some(&mut seq));
    let ok = AtomicU32::new(0);
    par((0..2).map(|_| { let (m, ok) = (&m, &ok); Box::new(move || if catch(|| m.call(1)).is_ok() { ok.fetch_add(1, SeqCst); }) as Box<dyn FnOnce()> }).collect());
    check(ok.load(SeqCst) == 2, "concurrent calls whose turn it is are all served");
    check(catch(|| m.call(2)).is_ok(), "after concurrent calls the sequence goes on");
    cover("served");
    if H::STATIC { let c = (MockCc::stat_context(), MockCc::gstat_context()); check(!panics(|| drop(c)), "concurrent calls are all counted"); }
    else { check(!panics(|| drop(m)), "concurrent calls are all counted"); }
}
/// The order of a sequence holds between threads
fn seq_order<H: Shared>(p: u64) {
    must("in order");
    must("out of order");
    preempt(p);
    let mut seq = Sequence::new();
    let mut m = H::new();
    let (n, o) = (cnt(), cnt());
    m.expect(1, Some(1), n.clone(), Some(&mut seq));
    m.expect(1, Some(2), o.clone(), Some(&mut seq));
    let (r, s) = (AtomicU32::new(0), AtomicU32::new(0));
    let begun = AtomicU32::new(0);
    par(vec![
        Box::new(|| { begun.store(1, SeqCst); if catch(|| m.call(1)).is_ok() { r.store(1, SeqCst) } }),
        Box::new(|| if catch(|| m.call(2)).is_ok() { check(begun.load(SeqCst) == 1, "a call is served only after its predecessors began"); s.store(1, SeqCst) }),
    ]);
    let (r, s) = (r.load(SeqCst), s.load(SeqCst));
    if !H::STATIC { check(r == 1, "a call in its turn is served"); }
    check(s == 0 || r == 1, "a call is served only after its predecessors");
    cover(if s == 1 { "in order" } else { "out of order" });
    if H::STATIC { clear(); }
    std::mem::forget(m);
}
/// Expectations are set on one thread while another one calls
fn setup_race(p: u64, generic: bool) {
    must("before");
    must("after");
    preempt(p);
    let ok = AtomicU32::new(0);
    let c = MockCc::stat_context();
    let g = MockCc::gstat_context();
    par(vec![
        Box::new(|| if generic { g.expect::<u32>().times(..=1).return_const(5u32); } else { c.expect().times(..=1).return_const(5u32); }),
        Box::new(|| if let Ok(v) = catch(|| if generic { MockCc::gstat(1u32) } else { MockCc::stat(1) }) { check(v == 5, "a call is served by a whole expectation or none"); ok.store(1, SeqCst); }),
    ]);
    cover(if ok.load(SeqCst) == 1 { "after" } else { "before" });
    let again = catch(|| if generic { MockCc::gstat(1u32) } else { MockCc::stat(1) });
    check(again.is_ok() == (ok.load(SeqCst) == 0), "an expectation set while another thread calls counts every call");
    if again.is_ok() { check(!panics(|| drop((c, g))), "nothing to report"); } else { let _ = catch(|| { let _c = (c, g); panic!("clear") }); }
}
/// The Context is dropped while another thread calls
fn drop_race(p: u64, generic: bool) {
    must("before");
    must("after");
    preempt(p);
    let ok = AtomicU32::new(0);
    let c = MockCc::stat_context();
    let g = MockCc::gstat_context();
    if generic { g.expect::<u32>().times(..=1).return_const(5u32); } else { c.expect().times(..=1).return_const(5u32); }
    let bad = AtomicU32::new(0);
    let cs = (c, g);
    par(vec![
        Box::new(|| if panics(move || drop(cs)) { bad.store(1, SeqCst) }),
        Box::new(|| if let Ok(v) = catch(|| if generic { MockCc::gstat(1u32) } else { MockCc::stat(1) }) { check(v == 5, "a call is served by a whole expectation or none"); ok.store(1, SeqCst); }),
    ]);
    check(bad.load(SeqCst) == 0, "dropping a Context while another thread calls reports nothing");
    cover(if ok.load(SeqCst) == 1 { "before" } else { "after" });
    check(catch(|| if generic { MockCc::gstat(1u32) } else { MockCc::stat(1) }).is_err(), "after its Context is dropped an expectation serves no call");
}
/// Different methods of one object called at once
fn methods(p: u64) {
    must("served");
    preempt(p);
    let mut m = MockCc::new();
    let (v, w) = (any_u32("v"), any_u32("w"));
    m.expect_foo().times(1).returning(move |a| a ^ v);
    m.expect_bar().times(1).returning(move |a| a ^ w);
    let ok = AtomicU32::new(0);
    par(vec![
        Box::new(|| if m.foo(1) == 1 ^ v { ok.fetch_add(1, SeqCst); }),
        Box::new(|| if m.bar(2) == 2 ^ w { ok.fetch_add(1, SeqCst); }),
    ]);
    check(ok.load(SeqCst) == 2, "concurrent calls of different methods are served");
    check(!panics(|| drop(m)), "concurrent calls are all counted");
    cover("served");
}
/// A mock moves to another thread and back
fn moved() {
    must("satisfied");
    must("unsatisfied");
    preempt(1);
    let lo = any_usize("lo");
    assume(lo < INF);
    let mut m = MockCc::new();
    let v = any_u32("v");
    m.expect_foo().times(lo..).return_const(v);
    let bad = AtomicU32::new(0);
    par(vec![Box::new(|| {
        check(m.foo(1) == v, "a mock works on the thread it was moved to");
        if panics(move || drop(m)) { bad.store(1, SeqCst) }
    })]);
    check((bad.load(SeqCst) == 1) == (lo > 1), "a mock is verified on the thread that drops it");
    cover(if lo > 1 { "unsatisfied" } else { "satisfied" });
}
macro_rules! sh { ($n:literal $d:ident $args:tt; $($s:ident)*) => { $( const _: () = {
    #[export_name = concat!("h_", $n, "__", stringify!($s))]
    pub fn harness() { $d::<$s> $args }
}; )* }; }
sh!("c19_total" total(2, 1, 2); Foo Gen Asy Rf Grf);
sh!("c19_total" total(2, 1, 1); St Gst);
sh!("c19_total2" total(2, 2, 1); Foo St);
sh!("c19_matched" matched(2); Foo Gen Rf);
sh!("c19_matched" matched(1); St Gst);
sh!("c19_row" row(2, 1, 1); Foo Gen Rf St Gst);
sh!("c19_sequenced" sequenced(2); Foo Gen Rf St Gst);
sh!("c19_order" seq_order(2); Foo Rf St);
one!("c19_setup", setup_race(2, false));
one!("c19_setup_generic", setup_race(2, true));
one!("c19_drop", drop_race(2, false));
one!("c19_drop_generic", drop_race(2, true));
one!("c19_methods", methods(2));
one!("c19_moved", moved());
sh!("c19d_total1" total(2, 1, 4); Foo Gen Asy Rf Grf St Gst);
sh!("c19d_total" total(2, 2, 2); Foo Gen Rf St Gst);
sh!("c19d_total3" total(3, 1, 2); Foo Gen Asy Rf Grf St Gst);
sh!("c19d_matched" matched(4); Foo Gen Rf St Gst);
sh!("c19d_row" row(3, 1, 2); St Gst);
sh!("c19d_sequenced" sequenced(4); Foo Gen Rf St Gst);
sh!("c19d_order" seq_order(4); Foo Rf St);
one!("c19d_setup", setup_race(4, false));
one!("c19d_setup_generic", setup_race(4, true));
one!("c19d_drop", drop_race(4, false));
one!("c19d_drop_generic", drop_race(4, true));
one!("c19d_methods", methods(4));

// ---- C20 ---------------------------------------------------------------------
/// How an expectation is bound to its thread
fn st_spec<S: Shape>() -> Spec {
    let v = any_u32("v");
    match S::KIND {
        Kind::Ref => spec(T::Unset, M::a(MK::WithfSt, 1), R::Const(v)),
        Kind::Mut => match choose(2, "form") {
            0 => spec(T::Unset, M::ANY, R::RetSt(v)),
            _ => spec(T::Unset, M::a(MK::WithfSt, 1), R::Ret(v)),
        },
        Kind::Val => match choose(if S::CONST { 4 } else { 3 }, "form") {
            0 => spec(T::Unset, M::ANY, R::RetSt(v)),
            1 => spec(T::Unset, M::ANY, R::OnceSt(v)),
            2 => spec(T::Unset, M::a(MK::WithfSt, 1), R::Ret(v)),
            _ => spec(T::Unset, M::ANY, R::ConstSt(v)),
        },
    }
}
fn single<S: Shape>() {
    must("own thread");
    must("other thread");
    let s = st_spec::<S>();
    let mut m = Model { e: [E::new(&s)] };
    let other = choose(2, "other thread") == 1;
    let mut o = S::new();
    let h = hits();
    S::expect(&mut o, &s, None);
    // something to fall back on, which must not be used
    if choose(2, "fallback") == 1 { S::expect(&mut o, &spec(T::Unset, M::ANY, rc::<S>(7)), None); }
    let b = any_u32("b");
    if other {
        let r = UnsafeCell::new(None);
        par(vec![Box::new(|| unsafe { *r.get() = Some(call::<S>(&mut o, 1, b)) })]);
        let r = r.into_inner().unwrap();
        check(r.is_err(), "a single-threaded setting used on another thread panics");
        check(hits() == h, "a single-threaded closure never runs on another thread");
        cover("other thread");
        std::mem::forget(o);
    } else {
        let w = m.call(1, b);
        check(same(&call::<S>(&mut o, 1, b), w), "a single-threaded setting works on its own thread");
        check(!panics(|| drop(o)), "nothing to report");
        cover("own thread");
    }
}
/// The Send variants work on any thread
fn sendable<S: Shape>() {
    must("called");
    let v = any_u32("v");
    let r = match S::KIND {
        Kind::Ref => R::Const(v),
        Kind::Mut => if choose(2, "ret") == 0 { R::Var(v) } else { R::Ret(v) },
        Kind::Val => match choose(if S::CONST { 3 } else { 2 }, "ret") { 0 => R::Ret(v), 1 => R::Once(v), _ => R::Const(v) },
    };
    let mk = if S::WITH && choose(2, "with") == 1 { MK::With } else { MK::Withf };
    let s = spec(T::N(1), M::a(mk, any_u32("k")), r);
    let mut m = Model { e: [E::new(&s)] };
    let mut o = S::new();
    S::expect(&mut o, &s, None);
    let (a, b) = (any_u32("a"), any_u32("b"));
    let p = m.pick(a, b);
    let w = if p.is_some() { m.call(a, b) } else { None };
    let res = UnsafeCell::new(None);
    let bad = UnsafeCell::new(false);
    par(vec![Box::new(|| unsafe {
        *res.get() = Some(call::<S>(&mut o, a, b));
        *bad.get() = panics(move || drop(o));
    })]);
    check(same(&res.into_inner().unwrap(), w), "other settings work on any thread");
    check(bad.into_inner() == p.is_none(), "a mock is verified on the thread that drops it");
    cover("called");
}
each!(all, "c20_single", single());
each!(all, "c20_sendable", sendable());

// ---- C16 with threads -----------------------------------------------------------
/// A test fails while another thread is inside a call: its expectations are removed all the same
fn busy<H: Shared>(p: u64) {
    must("called"); must("refused");
    let mut m = H::new();
    let n = cnt();
    m.expect(2, None, n.clone(), None);
    preempt(p);
    let served = AtomicU32::new(2);
    let t = { let (m, served) = (&m, &served); unsafe { spawn(move || served.store(catch(|| m.call(1)).is_ok() as u32, SeqCst)) } };
    let r = catch(|| { let _c = (MockCc::stat_context(), MockCc::gstat_context()); panic!("test fails") });
    check(matches!(r, Err(ref s) if s == "test fails"), "the first panic reaches the caller");
    join(t);
    cover(if served.load(SeqCst) == 1 { "called" } else { "refused" });
    check(catch(|| m.call(1)).is_err(), "nothing of a failed test is left, even if another thread was calling");
    m.expect(1, None, n.clone(), None);
    check(catch(|| m.call(1)).is_ok(), "a function can be mocked again after a failed test");
    check(!panics(|| drop((MockCc::stat_context(), MockCc::gstat_context()))), "a function can be mocked again after a failed test");
}
one!("c16_busy__stat", busy::<St>(2));
one!("c16_busy__gstat", busy::<Gst>(2));
one!("c16d_busy__stat", busy::<St>(3));
one!("c16d_busy__gstat", busy::<Gst>(3));

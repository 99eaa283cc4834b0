//! A panic that the test catches (of a closure, a matcher, or a call that is
//! refused) leaves the mock as it was: what can still be called works, and
//! counts and verification go on.
use super::util::*;

/// The return closure panics on some of its calls
fn closure_panics<S: Shape>(k: usize, once: bool) {
    must("panicked");
    must("called");
    let v = any_u32("v");
    let s = spec(T::Unset, M::ANY, if once { if any_bool("st") { R::OnceSt(v) } else { R::Once(v) } } else if any_bool("st") { R::RetSt(v) } else { R::Ret(v) });
    let mut o = S::new();
    S::expect(&mut o, &s, None);
    let mut ok = 0u32;
    for i in 0..k {
        let trip = any_bool("trip");
        let (a, b) = (any_u32("a"), any_u32("b"));
        let h = hits();
        trip_closures(trip);
        let r = call::<S>(&mut o, a, b);
        trip_closures(false);
        if once && i > 0 {
            check(r.is_err() && hits() == h, "a return_once closure that panicked has had its run");
        } else if trip {
            cover("panicked");
            check(match &r { Err(m) => m == "trip", Ok(_) => false }, "a panic of the return closure reaches the caller");
            check(hits() == h + 1, "the return closure runs once per call");
        } else {
            cover("called");
            check(same(&r, Some(f(v, a, b, ok))), "after a caught panic of the return closure, its expectation yields values again");
            ok += 1;
        }
    }
    if once { std::mem::forget(o); return; }
    check(!panics(|| drop(o)), "after a caught panic of the return closure, a satisfied mock drops quietly");
}
fn fnmut_panics<S: Shape>(k: usize) { if S::KIND == Kind::Ref { must("panicked"); cover("panicked"); } else { closure_panics::<S>(k, false) } }
fn once_panics<S: Shape>(k: usize) { closure_panics::<S>(k, true) }

/// The matcher panics on some of its calls
fn matcher_panics<S: Shape>(k: usize) {
    must("panicked");
    must("satisfied");
    must("unsatisfied");
    let lo = any_usize("lo");
    assume(lo < INF);
    let key = any_u32("key");
    let mut o = S::new();
    S::expect(&mut o, &spec(T::From(lo), M::a(if any_bool("st") { MK::WithfSt } else { MK::Withf }, key), rc::<S>(1)), None);
    let mut n = 0;
    for _ in 0..k {
        let trip = any_bool("trip");
        let a = any_u32("a");
        let h = hits();
        trip_matchers(trip);
        let r = call::<S>(&mut o, a, 2);
        trip_matchers(false);
        if trip {
            cover("panicked");
            check(match &r { Err(m) => m == "trip", Ok(_) => false }, "a panic of the matcher reaches the caller");
            check(hits() == h, "a call whose matcher panicked runs no return-value code");
        } else {
            check(r.is_ok() == (a == key), "after a caught panic of its matcher, an expectation matches as before");
            if a == key { n += 1; }
        }
    }
    let want = n < lo;
    check(panics(|| drop(o)) == want, "after a caught panic of a matcher, exactly the served calls are counted");
    cover(if want { "unsatisfied" } else { "satisfied" });
    if S::STATIC { fresh::<S>(); }
}
/// A new Context starts from nothing
fn fresh<S: Shape>() {
    let mut o = S::new();
    S::expect(&mut o, &spec(T::Once, M::ANY, rc::<S>(7)), None);
    check(call::<S>(&mut o, 1, 2).is_ok(), "after caught panics, a later Context serves calls");
    check(!panics(|| drop(o)), "after caught panics, a later Context is verified on its own");
}
/// A sole expectation called too often; then another one is added
fn excess<S: Shape>(k: usize) {
    must("excess");
    must("second");
    let (h0, h1) = (any_usize("h0"), any_usize("h1"));
    assume(h0 < INF && h1 < INF);
    let mut o = S::new();
    S::expect(&mut o, &spec(T::ToIncl(h0), M::ANY, rc0::<S>(10)), None);
    let mut n = 0;
    for _ in 0..k {
        let r = call::<S>(&mut o, 1, 1);
        check(r.is_ok() == (n < h0), "a sole expectation serves exactly the matching calls up to its maximum");
        if n >= h0 { cover("excess"); }
        n += 1;
    }
    S::expect(&mut o, &spec(T::ToIncl(h1), M::ANY, rc0::<S>(20)), None);
    let (mut n0, mut n1) = (n, 0);
    for _ in 0..k {
        let r = call::<S>(&mut o, 1, 1);
        let v = |x: u32, n: usize| if S::KIND == Kind::Ref { x } else { f(x, 1, 1, n as u32) };
        let w = if n0 < h0 { n0 += 1; Some(v(10, n0 - 1)) } else if n1 < h1 { cover("second"); n1 += 1; Some(v(20, n1 - 1)) } else { None };
        check(same(&r, w), "a used-up expectation that refused a call serves no more calls and hides no other expectation");
    }
    std::mem::forget(o);
}
fn rc0<S: Shape>(v: u32) -> R { match S::KIND { Kind::Ref => R::Const(v), _ => R::Ret(v) } }

/// A static call fails for any reason while its Context lives, the panic is
/// caught, and the Context goes on
fn caught<S: Shape>() {
    must("satisfied");
    must("unsatisfied");
    must("closure");
    must("matcher");
    must("no match");
    must("no return value");
    let lo = any_usize("lo");
    assume(lo < INF);
    let mut o = S::new();
    S::expect(&mut o, &spec(T::From(lo), M::a(MK::Withf, 1), rc0::<S>(1)), None);
    S::expect(&mut o, &spec(T::Unset, M::a(MK::Withf, 2), R::None), None);
    let how = choose(if cfg!(feature = "nightly") { 3 } else { 4 }, "how");
    match how {
        0 => { cover("closure"); trip_closures(true); check(call::<S>(&mut o, 1, 0).is_err(), "the call panics"); }
        1 => { cover("matcher"); trip_matchers(true); check(call::<S>(&mut o, 1, 0).is_err(), "the call panics"); }
        2 => { cover("no match"); check(call::<S>(&mut o, 3, 0).is_err(), "the call panics"); }
        _ => { check(call::<S>(&mut o, 2, 0).is_err(), "the call panics"); }
    }
    if how == 3 || cfg!(feature = "nightly") { cover("no return value"); }
    trip_closures(false);
    trip_matchers(false);
    let mut n = if how == 0 { 1 } else { 0 };
    if any_bool("again") {
        check(same(&call::<S>(&mut o, 1, 0), Some(f(1, 1, 0, 0))), "after a caught panic a static function's expectations serve calls");
        n += 1;
    }
    if any_bool("add") {
        S::expect(&mut o, &spec(T::Unset, M::a(MK::Withf, 3), rc0::<S>(3)), None);
        check(same(&call::<S>(&mut o, 3, 0), Some(f(3, 3, 0, 0))), "after a caught panic expectations of a static function can be set");
    }
    let want = n < lo;
    let bad = if any_bool("checkpoint") { panics(|| S::checkpoint(&mut o)) } else { panics(|| S::release(&mut o)) };
    check(bad == want, "after a caught panic, dropping a Context panics exactly if an expectation has too few calls");
    cover(if want { "unsatisfied" } else { "satisfied" });
    let _ = panics(|| drop(o));
    fresh::<S>();
}
each!(all, "c07_closure_panics", fnmut_panics(2));
each!(val, "c08_closure_panics", once_panics(2));
each!(all, "c06_matcher_panics", matcher_panics(2));
each!(all, "c05_excess", excess(2));
each!(statics, "c13_caught", caught());
each!(all, "c07d_closure_panics", fnmut_panics(4));
each!(all, "c06d_matcher_panics", matcher_panics(4));
each!(all, "c05d_excess", excess(4));

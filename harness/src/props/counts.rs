//! C01 (ceiling), C02 (floor), C03 (checkpoint), C04 (forms of `times`)
use super::util::*;

// ---- C01 -----------------------------------------------------------------
fn ceiling<S: Shape>(k: usize) {
    must("allowed call");
    must("call beyond the maximum");
    let (lo, hi) = any_bounds();
    let v = any_u32("v");
    let s = spec(T::Incl(lo, hi), M::ANY, rv::<S>(v));
    let mut m = Model { e: [E::new(&s)] };
    let mut o = S::new();
    S::expect(&mut o, &s, None);
    for i in 0..k {
        let (a, b) = (any_u32("a"), any_u32("b"));
        let h = hits();
        let r = call::<S>(&mut o, a, b);
        let w = m.call(a, b);
        if i < hi {
            cover("allowed call");
            check(same(&r, w), "a call within the maximum is answered");
        } else {
            cover("call beyond the maximum");
            check(r.is_err(), "a call beyond the maximum panics");
            check(hits() == h, "no return-value code runs for a call beyond the maximum");
        }
    }
    std::mem::forget(o);
}
/// With every way of returning a value
fn ceiling_ret<S: Shape>(k: usize) {
    must("call beyond the maximum");
    let hi = any_usize("hi");
    assume(hi < usize::MAX);
    let v = any_u32("v");
    let s = spec(T::ToIncl(hi), M::ANY, any_ret::<S>(v));
    let mut m = Model { e: [E::new(&s)] };
    let mut o = S::new();
    S::expect(&mut o, &s, None);
    for i in 0..k {
        let (a, b) = (any_u32("a"), any_u32("b"));
        let h = hits();
        let r = call::<S>(&mut o, a, b);
        let w = m.call(a, b);
        if i >= hi {
            cover("call beyond the maximum");
            check(r.is_err(), "a call beyond the maximum panics");
            check(hits() == h, "no return-value code runs for a call beyond the maximum");
        } else {
            check(same(&r, w), "a call within the maximum is answered");
        }
    }
    std::mem::forget(o);
}
/// Several expectations that could all serve the call: none serves too many
fn ceiling_many<S: Shape>(k: usize) {
    must("second expectation at its maximum");
    let (h0, h1) = (any_usize("h0"), any_usize("h1"));
    assume(h0 < usize::MAX);
    assume(h1 < usize::MAX);
    let mut o = S::new();
    S::expect(&mut o, &spec(T::ToIncl(h0), M::ANY, rc0::<S>(1000)), None);
    S::expect(&mut o, &spec(T::ToIncl(h1), M::ANY, rc0::<S>(2000)), None);
    let (mut n0, mut n1) = (0usize, 0usize);
    for _ in 0..k {
        let h = hits();
        match call::<S>(&mut o, 0, 0) {
            Ok(v) => if v >= 2000 { n1 += 1 } else { n0 += 1 },
            Err(_) => check(hits() == h, "no return-value code runs for a call beyond the maximum"),
        }
        check(n0 <= h0 && n1 <= h1, "no expectation serves more calls than its maximum");
        if n1 == h1 { cover("second expectation at its maximum"); }
    }
    std::mem::forget(o);
}
fn rc0<S: Shape>(v: u32) -> R { match S::KIND { Kind::Ref => R::Const(v), _ => R::Ret(v) } }
/// A larger maximum, reached by as many calls
fn ceiling_far<S: Shape>(n: usize) {
    must("reached");
    let mut o = S::new();
    let hi = any_usize("hi");
    assume(hi >= n && hi <= n + 1);
    S::expect(&mut o, &spec(T::N(hi), M::ANY, rc::<S>(5)), None);
    for _ in 0..n { check(call::<S>(&mut o, 0, 0).is_ok(), "a call within the maximum is answered"); }
    check(call::<S>(&mut o, 0, 0).is_ok() == (hi == n + 1), "a call beyond the maximum panics");
    cover("reached");
    std::mem::forget(o);
}
each!(all, "c01_ceiling", ceiling(3));
each!(core, "c01_ret", ceiling_ret(2));
each!(all, "c01_many", ceiling_many(3));
each!(core, "c01_far", ceiling_far(70));
each!(all, "c01d_ceiling", ceiling(6));
each!(all, "c01d_ret", ceiling_ret(4));
each!(all, "c01d_many", ceiling_many(6));
each!(all, "c01d_far", ceiling_far(300));

// ---- C02 -----------------------------------------------------------------
fn floor<S: Shape>(k: u32) {
    must("satisfied");
    must("too few");
    must("too many");
    let (lo, hi) = any_bounds();
    let mut o = S::new();
    S::expect(&mut o, &spec(T::Incl(lo, hi), M::ANY, rv::<S>(3)), None);
    let c = choose(k + 1, "calls") as usize;
    for _ in 0..c { let _ = call::<S>(&mut o, 1, 2); }
    let bad = panics(|| drop(o));
    if c < lo { cover("too few"); check(bad, "dropping with too few calls panics"); }
    else if c > hi { cover("too many"); check(bad, "dropping with too many calls panics"); }
    else { cover("satisfied"); check(!bad, "dropping with enough calls does not panic"); }
}
/// Several expectations, told apart by their matchers: each one is verified
fn floor_many<S: Shape>(k: usize) {
    must("satisfied");
    must("unsatisfied");
    let (l0, l1, l2) = (any_usize("l0"), any_usize("l1"), any_usize("l2"));
    assume(l0 < INF && l1 < INF && l2 < INF);
    let mut o = S::new();
    S::expect(&mut o, &spec(T::From(l0), M::b(MK::Withf, 0), rv::<S>(1)), None);
    S::expect(&mut o, &spec(T::From(l1), M::b(MK::Withf, 1), rv::<S>(2)), None);
    S::expect(&mut o, &spec(T::From(l2), M::ANY, rv::<S>(3)), None);
    let mut n = [0usize; 3];
    for _ in 0..k {
        let b = any_u32("b");
        check(call::<S>(&mut o, 0, b).is_ok(), "a call within the maximum is answered");
        if b == 0 { n[0] += 1 } else if b == 1 { n[1] += 1 } else { n[2] += 1 }
    }
    let want = n[0] < l0 || n[1] < l1 || n[2] < l2;
    check(panics(|| drop(o)) == want, "dropping panics exactly if some expectation has too few calls");
    cover(if want { "unsatisfied" } else { "satisfied" });
}
fn floor_far<S: Shape>(n: usize) {
    must("reached");
    let mut o = S::new();
    let lo = any_usize("lo");
    assume(lo >= n && lo <= n + 1);
    S::expect(&mut o, &spec(T::From(lo), M::ANY, rc::<S>(5)), None);
    for _ in 0..n { check(call::<S>(&mut o, 0, 0).is_ok(), "a call within the maximum is answered"); }
    check(panics(|| drop(o)) == (lo == n + 1), "dropping panics exactly if there were too few calls");
    cover("reached");
}
/// More calls than fit in 16 bits
fn floor_very_far(n: usize) {
    must("enough");
    must("too few");
    let mut m = MockTick::new();
    let lo = n + choose(2, "lo") as usize;
    m.expect_tick().times(lo..).return_const(());
    for _ in 0..n { m.tick() }
    let p = panics(|| drop(m));
    check(p == (n < lo), "dropping panics exactly if there were too few calls");
    cover(if p { "too few" } else { "enough" });
}
fn ceiling_very_far(n: usize) {
    must("reached");
    let mut m = MockTick::new();
    let hi = n + choose(2, "hi") as usize;
    m.expect_tick().times(..=hi).return_const(());
    for _ in 0..n { m.tick() }
    check(panics(|| m.tick()) == (hi == n), "exactly the calls within the maximum are answered");
    check(panics(|| m.tick()), "a call beyond the maximum panics");
    cover("reached");
    std::mem::forget(m);
}
mockall::mock! { pub Tick { fn tick(&self); } }
one!("c02_very_far", floor_very_far(65537));
one!("c01_very_far", ceiling_very_far(65536));
each!(all, "c02_floor", floor(3));
each!(all, "c02_many", floor_many(2));
each!(core, "c02_far", floor_far(70));
each!(all, "c02d_floor", floor(6));
each!(all, "c02d_many", floor_many(4));
each!(all, "c02d_far", floor_far(300));

// ---- C04 -----------------------------------------------------------------
fn any_times() -> T {
    match choose(10, "form") {
        0 => T::Unset,
        1 => T::N(any_usize("n")),
        2 => T::Once,
        3 => T::Never,
        4 => T::Range(any_usize("x"), any_usize("y")),
        5 => T::From(any_usize("x")),
        6 => T::To(any_usize("y")),
        7 => T::Incl(any_usize("x"), any_usize("y")),
        8 => T::ToIncl(any_usize("y")),
        _ => T::Full,
    }
}
fn forms<S: Shape>(k: u32) {
    must("rejected");
    must("accepted");
    must("too few");
    must("too many");
    let t = any_times();
    let c = choose(k + 1, "calls") as usize;
    let mut o = S::new();
    let r = catch(|| S::expect(&mut o, &spec(t, M::ANY, rc::<S>(3)), None));
    match bounds(t) {
        None => { cover("rejected"); check(r.is_err(), "an empty or backwards range is rejected"); std::mem::forget(o); }
        Some((lo, hi)) => {
            cover("accepted");
            check(r.is_ok(), "a non-empty range is accepted");
            for i in 0..c { check(call::<S>(&mut o, 0, 0).is_ok() == (i < hi), "a call is answered exactly if it is within the maximum"); }
            if c < lo { cover("too few"); }
            if c > hi { cover("too many"); }
            check(panics(|| drop(o)) == (c < lo || c > hi), "dropping panics exactly if the number of calls is not allowed");
        }
    }
}
/// The last call of `times` decides
fn forms_last<S: Shape>(k: u32) {
    must("satisfied");
    must("unsatisfied");
    let (t0, t) = (any_times(), any_times());
    assume(bounds(t0).is_some() && bounds(t).is_some());
    if let T::Unset = t { return; }
    let c = choose(k + 1, "calls") as usize;
    let mut o = S::new();
    let mut s = spec(t, M::ANY, rc::<S>(3));
    s.pre = Some((t0, M::ANY, R::None));
    S::expect(&mut o, &s, None);
    let (lo, hi) = match bounds(t) { Some(x) => x, None => return };
    for i in 0..c { check(call::<S>(&mut o, 0, 0).is_ok() == (i < hi), "the last `times` decides the maximum"); }
    let want = c < lo || c > hi;
    cover(if want { "unsatisfied" } else { "satisfied" });
    check(panics(|| drop(o)) == want, "the last `times` decides the minimum");
}
/// A setting of the second expectation leaves the first alone
fn forms_second<S: Shape>(k: u32) {
    must("satisfied");
    must("unsatisfied");
    let t = any_times();
    let b = match bounds(t) { Some(x) => x, None => return };
    let mut o = S::new();
    S::expect(&mut o, &spec(T::N(1), M::b(MK::Withf, 0), rc::<S>(1)), None);
    S::expect(&mut o, &spec(t, M::b(MK::Withf, 1), rc::<S>(2)), None);
    let c = choose(k + 1, "calls") as usize;
    for i in 0..c { check(call::<S>(&mut o, 0, 1).is_ok() == (i < b.1), "a call is answered exactly if it is within the maximum of its own expectation"); }
    check(call::<S>(&mut o, 0, 0).is_ok(), "the first expectation keeps its own number of calls");
    check(call::<S>(&mut o, 0, 0).is_err(), "the first expectation keeps its own number of calls");
    std::mem::forget(o);
    cover(if c >= b.0 && c <= b.1 { "satisfied" } else { "unsatisfied" });
}
each!(statics, "c04_second", forms_second(1));
each!(all, "c04d_second", forms_second(2));
each!(all, "c04_forms", forms(2));
each!(core, "c04_last", forms_last(1));
each!(all, "c04d_forms", forms(5));
each!(all, "c04d_last", forms_last(3));

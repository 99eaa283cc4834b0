//! C05 (which expectation serves a call) and C06 (argument matching)
use super::util::*;

/// N expectations with arbitrary keys and maxima, K arbitrary calls, against the model.
fn fifo<S: Shape, const N: usize>(k: usize, mk: MK) {
    must("no expectation matches");
    must("an earlier expectation is used up");
    must("a later expectation serves");
    let mk = if mk == MK::With && !S::WITH { MK::Withf } else { mk };
    let mut o = S::new();
    let mut m = Model { e: [E { lo: 0, hi: 0, m: M::ANY, r: R::None, n: 0 }; N] };
    for i in 0..N {
        let hi = any_usize("hi");
        assume(hi > 0 && hi < INF);
        let ma = if any_bool("unmatched") { M::ANY } else { M::a(mk, any_u32("k")) };
        let s = spec(T::ToIncl(hi), ma, rc::<S>(10 + i as u32));
        S::expect(&mut o, &s, None);
        m.e[i] = E::new(&s);
    }
    for _ in 0..k {
        let a = any_u32("a");
        let p = m.pick(a, 5);
        match p {
            None => {
                cover("no expectation matches");
                let h = hits();
                check(call::<S>(&mut o, a, 5).is_err(), "a call that no usable expectation matches panics");
                check(hits() == h, "a call that no usable expectation matches runs no return-value code");
            }
            Some(i) => {
                if i > 0 { cover("a later expectation serves"); if m.e[0].m.hits(a, 5) { cover("an earlier expectation is used up"); } }
                let w = m.call(a, 5);
                check(same(&call::<S>(&mut o, a, 5), w), "the first matching expectation that is not used up serves the call");
            }
        }
    }
    check(!panics(|| drop(o)), "a call is counted for the expectation that serves it, and for no other");
}
/// A sole expectation: a matching call beyond its maximum is reported, not passed on
fn sole<S: Shape>() {
    must("used up");
    let hi = any_usize("hi");
    assume(hi < INF);
    let mut o = S::new();
    let k = any_u32("k");
    S::expect(&mut o, &spec(T::ToIncl(hi), M::a(MK::Withf, k), rc::<S>(10)), None);
    for i in 0..2 {
        let a = any_u32("a");
        let r = call::<S>(&mut o, a, 5);
        if a != k { check(r.is_err(), "a call that matches nothing panics"); break; }
        check(r.is_ok() == (i < hi), "a sole expectation serves exactly the matching calls up to its maximum");
        if i >= hi { cover("used up"); break; }
    }
    std::mem::forget(o);
}
/// No expectations at all
fn nothing<S: Shape>() {
    must("called");
    let mut o = S::new();
    let h = hits();
    check(call::<S>(&mut o, any_u32("a"), any_u32("b")).is_err(), "a call with no expectation panics");
    check(hits() == h, "nothing was returned");
    check(!panics(|| drop(o)), "a mock without expectations drops quietly");
    cover("called");
}
/// Expectations added between calls go to the end of the queue
fn interleave<S: Shape>(k: usize) {
    must("a later expectation serves");
    let mut o = S::new();
    let h: [usize; 3] = [any_usize("h0"), any_usize("h1"), INF];
    assume(h[0] > 0 && h[0] < INF && h[1] > 0 && h[1] < INF);
    let mut n = [0usize; 3];
    for i in 0..3 {
        let t = if i < 2 { T::ToIncl(h[i]) } else { T::Unset };
        S::expect(&mut o, &spec(t, M::ANY, rc::<S>(10 + i as u32)), None);
        for _ in 0..k {
            let mut j = 0;
            while j <= i && n[j] >= h[j] { j += 1; }
            let r = call::<S>(&mut o, 1, 1);
            if j > i { check(r.is_err(), "a call that no usable expectation matches panics"); std::mem::forget(o); return; }
            let w = match rc::<S>(0) { R::Ret(_) => f(10 + j as u32, 1, 1, n[j] as u32), _ => 10 + j as u32 };
            check(same(&r, Some(w)), "expectations are used in the order they were set");
            n[j] += 1;
            if j > 0 { cover("a later expectation serves"); }
        }
    }
    std::mem::forget(o);
}
each!(all, "c05_fifo2", fifo2(2));
each!(core, "c05_fifo3", fifo3(3));
each!(all, "c05_sole", sole());
each!(all, "c05_nothing", nothing());
each!(core, "c05_interleave", interleave(2));
each!(all, "c05d_fifo3", fifo3(3));
each!(core, "c05d_fifo3x4", fifo3(4));
each!(core, "c05d_fifo4", fifo4(3));
each!(all, "c05d_interleave", interleave(3));
fn fifo2<S: Shape>(k: usize) { fifo::<S, 2>(k, MK::Withf) }
fn fifo3<S: Shape>(k: usize) { fifo::<S, 3>(k, MK::With) }
fn fifo4<S: Shape>(k: usize) { fifo::<S, 4>(k, MK::Withf) }

// ---- C06 -------------------------------------------------------------------
/// One expectation with an arbitrary matcher, and optionally one to fall back on
fn matching<S: Shape>() {
    must("match");
    must("mismatch");
    let m = any_match::<S>();
    let mut o = S::new();
    S::expect(&mut o, &spec(T::Unset, m, rc::<S>(10)), None);
    let fall = any_bool("fallback");
    if fall { S::expect(&mut o, &spec(T::Unset, M::ANY, rc::<S>(20)), None); }
    let (a, b) = (any_u32("a"), any_u32("b"));
    let r = call::<S>(&mut o, a, b);
    let val = |v: u32| match rc::<S>(0) { R::Ret(_) => f(v, a, b, 0), _ => v };
    if m.hits(a, b) {
        cover("match");
        check(same(&r, Some(val(10))), "a call whose arguments satisfy the matcher is served");
    } else {
        cover("mismatch");
        check(same(&r, if fall { Some(val(20)) } else { None }), "a call whose arguments do not satisfy the matcher is not served");
    }
    std::mem::forget(o);
}
/// Only the last matcher set counts
fn last_matcher<S: Shape>() {
    must("match");
    must("mismatch");
    let (m0, m) = (any_match::<S>(), any_match::<S>());
    let mut o = S::new();
    let mut s = spec(T::Unset, m, rc::<S>(10));
    s.pre = Some((T::Unset, m0, R::None));
    S::expect(&mut o, &s, None);
    let (a, b) = (any_u32("a"), any_u32("b"));
    let r = call::<S>(&mut o, a, b);
    check(r.is_ok() == m.hits(a, b), "the last matcher set decides");
    cover(if m.hits(a, b) { "match" } else { "mismatch" });
    std::mem::forget(o);
}
each!(all, "c06_match", matching());
each!(core, "c06_last", last_matcher());
each!(all, "c06d_last", last_matcher());

// methods with many arguments
use mockall::predicate::{always, eq};

mockall::mock! { pub Nine {
        pub fn foo(&self, a0: u8, a1: u16, a2: u32, a3: u64, a4: i8, a5: &u32, a6: P, a7: u32, a8: u8) -> u32;
        pub fn stat(a0: u8, a1: u16, a2: u32, a3: u64, a4: i8, a5: &u32, a6: P, a7: u32, a8: u8) -> u32;
        pub fn zero(&self) -> u32;
        pub fn single(&self, a: u32) -> u32;
        pub fn three<X: 'static + std::fmt::Debug>(&self, a: X, b: u32, c: u32) -> u32;
    } }
type A9 = (u8, u16, u32, u64, i8, u32, P, u32, u8);
fn any9() -> A9 {
    (any_u8("a0"), any_u16("a1"), any_u32("a2"), any_u64("a3"), any_u8("a4") as i8, any_u32("a5"), P(any_u32("a6")), any_u32("a7"), any_u8("a8"))
}
fn same9(x: &A9, y: &A9) -> bool {
    (x.0 == y.0) & (x.1 == y.1) & (x.2 == y.2) & (x.3 == y.3) & (x.4 == y.4) & (x.5 == y.5) & (x.6 .0 == y.6 .0) & (x.7 == y.7) & (x.8 == y.8)
}
fn nine(stat: bool, withf: bool) {
    must("match");
    must("mismatch");
    let (k, a) = (any9(), any9());
    let p = k.6 .0;
    let r = if stat {
        let ctx = MockNine::stat_context();
        if withf {
            ctx.expect().withf(move |b0, b1, b2, b3, b4, b5, b6, b7, b8| same9(&k, &(*b0, *b1, *b2, *b3, *b4, *b5, *b6, *b7, *b8))).return_const(1u32);
        } else {
            ctx.expect().with(eq(k.0), eq(k.1), eq(k.2), eq(k.3), eq(k.4), eq(k.5), mockall::predicate::function(move |q: &P| q.0 == p), eq(k.7), eq(k.8)).return_const(1u32);
        }
        let r = catch(|| MockNine::stat(a.0, a.1, a.2, a.3, a.4, &a.5, a.6, a.7, a.8));
        std::mem::forget(ctx);
        r
    } else {
        let mut m = MockNine::new();
        if withf {
            m.expect_foo().withf(move |b0, b1, b2, b3, b4, b5, b6, b7, b8| same9(&k, &(*b0, *b1, *b2, *b3, *b4, *b5, *b6, *b7, *b8))).return_const(1u32);
        } else {
            m.expect_foo().with(eq(k.0), eq(k.1), eq(k.2), eq(k.3), eq(k.4), eq(k.5), mockall::predicate::function(move |q: &P| q.0 == p), eq(k.7), eq(k.8)).return_const(1u32);
        }
        let r = catch(|| m.foo(a.0, a.1, a.2, a.3, a.4, &a.5, a.6, a.7, a.8));
        std::mem::forget(m);
        r
    };
    let want = same9(&k, &a);
    check(r.is_ok() == want, "every argument position is matched against its own predicate");
    cover(if want { "match" } else { "mismatch" });
}
one!("c06_nine_with", nine(false, false));
one!("c06_nine_withf", nine(false, true));
one!("c06_nine_stat_with", nine(true, false));
one!("c06_nine_stat_withf", nine(true, true));
/// The predicates of a generic method and of one argument; comparison predicates
fn few() {
    must("match");
    must("mismatch");
    let (x, y, z) = (any_u32("x"), any_u32("y"), any_u32("z"));
    let (a, b, c) = (any_u32("a"), any_u32("b"), any_u32("c"));
    let mut m = MockNine::new();
    m.expect_three::<u32>().with(mockall::predicate::lt(x), always(), mockall::predicate::ge(z)).return_const(1u32);
    let r = catch(|| m.three::<u32>(a, b, c));
    check(r.is_ok() == (a < x && c >= z), "comparison predicates decide as they say");
    m.expect_single().with(mockall::predicate::ne(y)).return_const(2u32);
    let r = catch(|| m.single(b));
    check(r.is_ok() == (b != y), "comparison predicates decide as they say");
    cover(if r.is_ok() { "match" } else { "mismatch" });
    std::mem::forget(m);
}
one!("c06_few", few());

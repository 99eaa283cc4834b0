//! C17: settings are independent of each other and of their order
use super::util::*;

/// The orders of the three settings that do not involve a sequence
const PLAIN: [u8; 6] = [0, 3, 5, 6, 9, 11];
fn outcome<S: Shape, const N: usize>(mut o: S::Owner, mut m: Model<N>, k: usize) {
    for _ in 0..k {
        let (a, b) = (any_u32("a"), any_u32("b"));
        let h = hits();
        let w = m.call(a, b);
        let r = call::<S>(&mut o, a, b);
        check(same(&r, w), "the order of the settings does not matter for a call");
        if w.is_none() { check(hits() == h || S::KIND == Kind::Ref, "no return-value code runs for a call that panics"); cover("panicked"); std::mem::forget(o); return; }
        cover("served");
    }
    let sat = m.sat();
    check(panics(|| drop(o)) == !sat, "the order of the settings does not matter for the drop");
    cover(if sat { "satisfied" } else { "unsatisfied" });
}
fn order<S: Shape>(k: usize) {
    must("panicked"); must("served"); must("satisfied"); must("unsatisfied");
    let (lo, hi) = any_bounds();
    let mut s = spec(T::Incl(lo, hi), any_match::<S>(), any_ret::<S>(any_u32("v")));
    s.ord = PLAIN[choose(6, "order") as usize];
    let mut o = S::new();
    S::expect(&mut o, &s, None);
    outcome::<S, 1>(o, Model { e: [E::new(&s)] }, k);
}
/// Any return setting, before or after the count, and another expectation to fall back on
fn fallback<S: Shape>(k: usize) {
    must("served"); must("satisfied"); must("unsatisfied");
    if S::KIND == Kind::Val { must("panicked"); }
    let (lo, hi) = any_bounds();
    let mut s = spec(T::Incl(lo, hi), M::ANY, any_kept::<S>(any_u32("v")));
    s.ord = [0, 11][choose(2, "order") as usize];
    let s2 = spec(T::Unset, M::ANY, rv::<S>(any_u32("w")));
    let mut o = S::new();
    S::expect(&mut o, &s, None);
    S::expect(&mut o, &s2, None);
    outcome::<S, 2>(o, Model { e: [E::new(&s), E::new(&s2)] }, k);
}
/// Only some of the settings are made again: the others stay
fn partly<S: Shape>(k: usize) {
    must("panicked"); must("served"); must("satisfied"); must("unsatisfied");
    let (lo, hi) = any_bounds();
    let (v, w) = (any_u32("v"), any_u32("w"));
    let first = (T::Incl(lo, hi), any_match::<S>(), rv::<S>(v));
    let m2 = M::a(MK::Withf, any_u32("m2"));
    let again = choose(8, "again");
    let n2 = any_usize("n2");
    assume(n2 < usize::MAX - 1);
    let mut s = spec(if again & 1 != 0 { T::N(n2) } else { T::Unset }, if again & 2 != 0 { m2 } else { M::ANY }, if again & 4 != 0 { rv::<S>(w) } else { R::None });
    s.pre = Some(first);
    s.ord = PLAIN[choose(6, "order") as usize];
    let mut o = S::new();
    S::expect(&mut o, &s, None);
    let eff = spec(if again & 1 != 0 { s.t } else { first.0 }, if again & 2 != 0 { s.m } else { first.1 }, if again & 4 != 0 { s.r } else { first.2 });
    outcome::<S, 1>(o, Model { e: [E::new(&eff)] }, k);
}
/// Joining a sequence anywhere after the call count
fn sequenced<S: Shape>(k: usize) {
    must("served");
    must("out of order");
    let mut seq = Sequence::new();
    let mut o = S::new();
    let mut left = [0usize; 2];
    let v = any_u32("v");
    let by = [rv::<S>(v), rv::<S>(v.wrapping_add(1))];
    for i in 0..2 {
        left[i] = 1 + choose(2, "n") as usize;
        let mut s = spec(T::N(left[i]), M::a(MK::Withf, i as u32), by[i]);
        s.ord = choose(12, "order") as u8;
        S::expect(&mut o, &s, Some(&mut seq));
    }
    for _ in 0..k {
        let i = choose(2, "call") as usize;
        if left[i] == 0 { std::mem::forget(o); return; }
        let r = call::<S>(&mut o, i as u32, any_u32("b"));
        if i == 1 && left[0] > 0 {
            check(r.is_err(), "a call out of sequence panics in any order of the settings");
            cover("out of order");
            std::mem::forget(o);
            return;
        }
        left[i] -= 1;
        check(r.is_ok(), "a call in sequence is served in any order of the settings");
        cover("served");
    }
    std::mem::forget(o);
}
each!(all, "c17_order", order(1));
each!(core, "c17_order2", order(2));
each!(core8, "c17_fallback", fallback(2));
each!(all, "c17d_fallback", fallback(4));
each!(core8, "c17_partly", partly(2));
each!(core, "c17_seq", sequenced(3));
each!(all, "c17d_order", order(4));
each!(all, "c17d_partly", partly(2));
each!(all, "c17d_seq", sequenced(4));

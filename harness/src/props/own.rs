//! C21: what expectations own is kept while it can be used, and freed exactly once
use super::util::*;

/// What one expectation owns: closures and matcher functions
fn owns(m: M, r: R) -> usize {
    (match m.k { MK::Withf | MK::WithfSt => 1, _ => 0 }) + (match r { R::Ret(_) | R::RetSt(_) | R::Once(_) | R::OnceSt(_) => 1, _ => 0 })
}
fn any_fn<S: Shape>() -> M { match choose(if S::WITH { 4 } else { 3 }, "matcher") { 0 => M::ANY, 1 => M::a(MK::Withf, any_u32("k")), 2 => M::b(MK::WithfSt, any_u32("k")), _ => M::ab(MK::With, any_u32("k"), any_u32("l")) } }
/// One life of an object with expectations and calls.
fn life<S: Shape>(k: usize) {
    let t0 = toks();
    let mut o = S::new();
    let v = any_u32("v");
    let (m, r) = (any_fn::<S>(), any_kept::<S>(v));
    let mut s = spec(T::Unset, m, r);
    if choose(2, "replace") == 1 { s.pre = Some((T::Unset, M::a(MK::Withf, 1), match S::KIND { Kind::Ref => R::Const(1), _ => R::Ret(1) })); }
    let mut own = owns(m, r);
    if m.k == MK::None && s.pre.is_some() { own += 1; s.m = M::ANY; }
    S::expect(&mut o, &s, None);
    check(toks() == t0 + own, "an expectation keeps what it uses, and frees what was replaced");
    let m = if m.k == MK::None && s.pre.is_some() { M::a(MK::Withf, 1) } else { m };
    let mut n = 0;
    for _ in 0..choose(k as u32 + 1, "calls") {
        let (a, b) = (any_u32("a"), any_u32("b"));
        let moved = matches!(r, R::Once(_) | R::OnceSt(_));
        match call::<S>(&mut o, a, b) {
            Ok(_) => { n += 1; cover("served"); }
            Err(_) => cover("panicked"),
        }
        let t = toks();
        check(t == t0 + own || (moved && n > 0 && t + 1 == t0 + own), "calls free nothing but a closure that was moved out");
    }
    match choose(3, "end") {
        0 => { S::checkpoint(&mut o); check(toks() == t0, "a checkpoint frees everything that expectations own"); drop(o); cover("checkpoint"); }
        1 => { drop(o); cover("drop"); }
        _ => {
            // the destructor runs while a panic is unwinding
            let r = catch(move || { let _o = o; panic!("other") });
            check(r.is_err(), "the panic is caught");
            cover("unwound");
        }
    }
    check(toks() == t0, "everything that expectations own is freed, once");
}
fn owned<S: Shape>(k: usize) {
    must("served"); must("panicked"); must("checkpoint"); must("drop"); must("unwound");
    life::<S>(k);
}
/// A failed verification frees everything all the same
fn failed<S: Shape>() {
    must("checkpoint"); must("drop");
    let t0 = toks();
    let mut o = S::new();
    let c = choose(3, "unmet");
    for i in 0..3 {
        S::expect(&mut o, &spec(if c == i { T::Once } else { T::Unset }, M::a(MK::Withf, i), match S::KIND { Kind::Ref => R::Const(1), _ => R::Ret(1) }), None);
    }
    check(toks() == t0 + if S::KIND == Kind::Ref { 3 } else { 6 }, "an expectation keeps what it uses");
    match choose(2, "end") {
        0 => {
            check(panics(|| S::checkpoint(&mut o)), "the checkpoint fails");
            // what is left of the expectations dies with the object
            let _ = catch(move || { let _o = o; panic!("other") });
            cover("checkpoint");
        }
        _ => { check(panics(move || drop(o)), "the drop fails"); cover("drop"); }
    }
    check(toks() == t0, "everything that expectations own is freed although the verification failed");
}
/// Nothing is leaked: further lives of the same kind leave the heap as it was
fn leaks<S: Shape>(k: usize) {
    must("reached"); must("replaced"); must("again");
    fn one<S: Shape>(r: R, pre: Option<R>, n: usize, end: u32, v: u32) {
        let mut o = S::new();
        let mut s = spec(T::N(n), M::a(MK::Withf, 1), r);
        if let Some(p) = pre { s.pre = Some((T::Unset, M::a(MK::WithfSt, 1), p)); }
        S::expect(&mut o, &s, None);
        S::expect(&mut o, &spec(T::Unset, M::ANY, rc::<S>(v)), None);
        for _ in 0..n { S::call(&mut o, 1, 2); }
        S::call(&mut o, 2, 2);
        S::call(&mut o, 2, 3);
        if end == 0 { S::checkpoint(&mut o); }
        drop(o)
    }
    let v = any_u32("v");
    let r = any_kept::<S>(v);
    let pre = if choose(2, "replace") == 1 { cover("replaced"); Some(rc::<S>(7)) } else { None };
    let n = if matches!(r, R::Once(_) | R::OnceSt(_)) { 1 } else { 1 + choose(k as u32, "calls") as usize };
    if n > 1 { cover("again"); }
    let end = choose(2, "end");
    // the first one may fill global tables
    one::<S>(r, pre, n, end, v);
    let h = heap();
    one::<S>(r, pre, n, end, v);
    check(heap() == h, "a mock leaves nothing on the heap");
    cover("reached");
}
each!(all, "c21_owned", owned(2));
each!(all, "c21_failed", failed());
each!(noleak, "c21_leaks", leaks(2));
each!(all, "c21d_owned", owned(4));
each!(noleak, "c21d_leaks", leaks(4));

//! C11 (sequences enforce the order of calls) and C12 (only exact counts may join)
use super::util::*;

/// One expectation of the model: where it is, what it matches and its place.
#[derive(Clone, Copy)]
struct Q { who: u32, key: Option<u32>, want: usize, seq: usize, n: usize }

/// N expectations over two mock objects and up to two sequences, K arbitrary calls.
/// Calls stop at the first one that must panic.
fn order<S: Shape, U: Shape, const N: usize>(k: usize, sequences: u32, maxn: usize, any: u32) {
    must("in order");
    must("out of order");
    must("complete");
    let mut seq = [Sequence::new(), Sequence::new()];
    let (mut o, mut p) = (S::new(), U::new());
    let mut q = [Q { who: 0, key: None, want: 0, seq: 0, n: 0 }; N];
    for i in 0..N {
        let who = if i == 0 { 0 } else { choose(2, "object") };
        let key = if choose(any, "match any") == 1 { None } else { Some(i as u32) };
        let s = if sequences == 1 || i == 0 { 0 } else { choose(sequences, "sequence") as usize };
        let want = any_usize("count");
        assume(want <= maxn);
        q[i] = Q { who, key, want, seq: s, n: 0 };
        let m = match key { None => M::ANY, Some(x) => M::b(MK::Withf, x) };
        if who == 0 { S::expect(&mut o, &spec(T::N(want), m, rc::<S>(100 * i as u32)), if s < 2 { Some(&mut seq[s]) } else { None }); }
        else { U::expect(&mut p, &spec(T::N(want), m, rc::<U>(100 * i as u32)), if s < 2 { Some(&mut seq[s]) } else { None }); }
    }
    for _ in 0..k {
        let who = choose(2, "callee");
        let b = choose(N as u32, "b");
        // which expectation serves
        let mine = q.iter().filter(|x| x.who == who).count();
        let mut i = 0;
        while i < N && !(q[i].who == who && (q[i].key.is_none() || q[i].key == Some(b)) && (mine == 1 || q[i].n < q[i].want)) { i += 1; }
        let r = if who == 0 { call::<S>(&mut o, 0, b) } else { call::<U>(&mut p, 0, b) };
        if i == N || q[i].n >= q[i].want {
            check(r.is_err(), "a call that no usable expectation matches panics");
            std::mem::forget((o, p));
            return;
        }
        let mut ok = true;
        if q[i].seq < 2 { for j in 0..i { if q[j].seq == q[i].seq && q[j].n < q[j].want { ok = false; } } }
        if !ok {
            cover("out of order");
            check(r.is_err(), "a call panics if an earlier expectation of its sequence has not had all its calls");
            std::mem::forget((o, p));
            return;
        }
        cover("in order");
        let v = |rc: R| match rc { R::Ret(v) => f(v, 0, b, q[i].n as u32), R::Const(v) | R::Var(v) => v, _ => 0 };
        let w = if who == 0 { v(rc::<S>(100 * i as u32)) } else { v(rc::<U>(100 * i as u32)) };
        check(same(&r, Some(w)), "a call in the right order is answered");
        q[i].n += 1;
    }
    let short0 = q.iter().any(|x| x.who == 0 && x.n < x.want);
    let short1 = q.iter().any(|x| x.who == 1 && x.n < x.want);
    if !short0 && !short1 { cover("complete"); }
    check(panics(|| drop(o)) == short0, "expectations of a sequence are verified like any others");
    check(panics(|| drop(p)) == short1, "expectations of a sequence are verified like any others");
}
fn order2<S: Shape, U: Shape>(k: usize, s: u32) { order::<S, U, 2>(k, s, 2, 2) }
fn order3<S: Shape, U: Shape>(k: usize, s: u32) { order::<S, U, 3>(k, s, 2, 2) }
fn order4<S: Shape, U: Shape>(k: usize, s: u32) { order::<S, U, 4>(k, s, 1, 1) }
fn ord3<S: Shape, U: Shape>(k: usize, s: u32) { order::<S, U, 3>(k, s, 2, 1) }
fn two3<S: Shape, U: Shape>(k: usize, s: u32) { order::<S, U, 3>(k, s, 1, 1) }
/// A simple chain on one object, for every shape
fn chain<S: Shape>(k: usize) {
    must("in order");
    must("out of order");
    let n = [any_usize("n0"), any_usize("n1"), any_usize("n2")];
    assume(n[0] < INF && n[1] < INF && n[2] < INF);
    let mut seq = Sequence::new();
    let mut o = S::new();
    for i in 0..3 { S::expect(&mut o, &spec(T::N(n[i]), M::b(MK::Withf, i as u32), rv::<S>(10)), Some(&mut seq)); }
    let mut c = [0usize; 3];
    for _ in 0..k {
        let i = choose(3, "which") as usize;
        let r = call::<S>(&mut o, 0, i as u32);
        let mut ok = c[i] < n[i];
        for j in 0..i { ok = ok && c[j] >= n[j]; }
        check(r.is_ok() == ok, "a call is answered exactly if it is this expectation's turn");
        cover(if ok { "in order" } else { "out of order" });
        if !ok { std::mem::forget(o); return; }
        c[i] += 1;
    }
    let want = c[0] < n[0] || c[1] < n[1] || c[2] < n[2];
    check(panics(|| drop(o)) == want, "expectations of a sequence are verified like any others");
}
/// Expectations joined to a sequence after calls were made
fn late<S: Shape, U: Shape>() {
    must("in order");
    must("out of order");
    let mut seq = Sequence::new();
    let (mut o, mut p) = (S::new(), U::new());
    let (n0, n1) = (any_in(1, 2, "n0") as usize, any_in(1, 2, "n1") as usize);
    S::expect(&mut o, &spec(T::N(n0), M::ANY, rc::<S>(1)), Some(&mut seq));
    let early = choose(2, "early");
    for _ in 0..early { check(call::<S>(&mut o, 0, 0).is_ok(), "a call in the right order is answered"); }
    U::expect(&mut p, &spec(T::N(n1), M::ANY, rc::<U>(1)), Some(&mut seq));
    drop(seq);
    let r = call::<U>(&mut p, 0, 0);
    let ok = early as usize >= n0;
    check(r.is_ok() == ok, "a call panics if an earlier expectation of its sequence has not had all its calls");
    cover(if ok { "in order" } else { "out of order" });
    std::mem::forget((o, p));
}
macro_rules! seqone { ($n:literal $d:ident $args:tt; $($s:ident $u:ident)*) => { $( const _: () = {
    #[export_name = concat!("h_", $n, "__", stringify!($s), "_", stringify!($u))]
    pub fn harness() { $d::<$s, $u> $args }
}; )* }; }
each!(all, "c11_chain", chain(4));
each!(all, "c11d_chain", chain(6));
seqone!("c11_order" order2(4, 1); Inh Inh Inh AutoT AutoT Stat Stat Modl ManyFoo ManyBaz GenM GenS RefRet MutRet MutRet Inh GenRefRet GenMutRet AsyM Ffi ConcV GStr);
seqone!("c11_order3" ord3(3, 1); Inh Inh AutoT Stat GenM RefRet);
seqone!("c11_two" two3(3, 3); Inh Inh Stat MutRet);
seqone!("c11_late" late(); Inh Inh AutoT Stat GenM GenS RefRet MutRet Modl Ffi);
seqone!("c11d_order" order3(4, 1); Inh Inh Inh AutoT AutoT Stat GenM GenS RefRet MutRet);
seqone!("c11d_order4" order4(4, 1); Inh Inh AutoT Stat MutRet GenM);
seqone!("c11d_two" ord3(4, 3); Inh Inh Inh AutoT AutoT Stat RefRet MutRet);

/// A long sequence over many mocks
fn far(n: usize, at: &[usize]) {
    must("in order");
    must("out of order");
    let mut seq = Sequence::new();
    let v = any_u32("v");
    let mut m: Vec<MockPlain> = Vec::new();
    for i in 0..n {
        let mut p = MockPlain::new();
        p.expect_foo().times(1).return_const(v ^ i as u32).in_sequence(&mut seq);
        m.push(p);
    }
    for i in 0..n {
        if at.contains(&i) {
            // a call that is too early
            let w = choose(4, "early");
            let j = match w { 0 => i + 1, 1 => i + 256, 2 => n - 1, _ => i };
            if j != i && j < n {
                cover("out of order");
                check(panics(|| m[j].foo()), "a call panics if an earlier expectation of its sequence has not had all its calls");
                std::mem::forget(m);
                return;
            }
        }
        check(catch(|| m[i].foo()) == Ok(v ^ i as u32), "a call in the right order is answered");
        cover("in order");
    }
    check(!panics(|| drop(m)), "expectations of a sequence are verified like any others");
}
one!("c11_far", far(300, &[1, 60, 298]));
one!("c11d_far", far(2500, &[0, 1, 200, 255, 256, 1000]));

// ---- C12 -------------------------------------------------------------------
fn any_times() -> T {
    match choose(10, "form") {
        0 => T::Unset,
        1 => T::N(any_usize("n")),
        2 => T::Once,
        3 => T::Never,
        4 => T::Range(any_usize("x"), any_usize("y")),
        5 => T::From(any_usize("x")),
        6 => T::To(any_usize("y")),
        7 => T::Incl(any_usize("x"), any_usize("y")),
        8 => T::ToIncl(any_usize("y")),
        _ => T::Full,
    }
}
fn join<S: Shape>() {
    must("accepted");
    must("rejected");
    let t = any_times();
    let b = bounds(t);
    assume(b.is_some());
    let (lo, hi) = match b { Some(x) => x, None => return };
    assume(lo < INF - 1); // counts next to usize::MAX mean "no limit"
    let mut seq = Sequence::new();
    let mut o = S::new();
    let r = catch(|| S::expect(&mut o, &spec(t, M::ANY, rc::<S>(1)), Some(&mut seq)));
    check(r.is_ok() == (lo == hi), "an expectation may join a sequence exactly if its count is exact");
    if r.is_ok() { cover("accepted"); std::mem::forget(o); return; }
    cover("rejected");
    std::mem::forget(o);
    // a rejected expectation leaves the sequence as it was
    let mut p = MockPlain::new();
    p.expect_foo().times(1).return_const(5u32).in_sequence(&mut seq);
    check(p.foo() == 5, "a rejected expectation takes no place in the sequence");
}
mockall::mock! { pub Plain { fn foo(&self) -> u32; } }
each!(core, "c12_join", join());
each!(all, "c12d_join", join());
/// The count that decides is the last one set before joining
fn join_last<S: Shape>() {
    must("accepted");
    must("rejected");
    let (t0, t) = (any_times(), any_times());
    let (b0, b) = (bounds(t0), bounds(t));
    assume(b0.is_some() && b.is_some());
    if let T::Unset = t { return; }
    let (lo, hi) = match b { Some(x) => x, None => return };
    assume(lo < INF - 1);
    let mut seq = Sequence::new();
    let mut o = S::new();
    let mut s = spec(t, M::ANY, rc::<S>(1));
    s.pre = Some((t0, M::ANY, R::None));
    let r = catch(|| S::expect(&mut o, &s, Some(&mut seq)));
    check(r.is_ok() == (lo == hi), "the last count set decides whether an expectation may join a sequence");
    cover(if r.is_ok() { "accepted" } else { "rejected" });
    std::mem::forget(o);
}
each!(core, "c12_last", join_last());
each!(all, "c12d_last", join_last());

//! C03: checkpoint verifies and removes every expectation
use super::util::*;

fn one_method<S: Shape>(k: u32) {
    must("satisfied");
    must("unsatisfied");
    let (lo, hi) = any_bounds();
    let mut o = S::new();
    S::expect(&mut o, &spec(T::Incl(lo, hi), M::ANY, rv::<S>(3)), None);
    let c = choose(k + 1, "calls") as usize;
    assume(c <= hi);
    for _ in 0..c { check(call::<S>(&mut o, 1, 2).is_ok(), "a call within the maximum is answered"); }
    let bad = panics(|| S::checkpoint(&mut o));
    check(bad == (c < lo), "checkpoint panics exactly if an expectation has too few calls");
    if bad { cover("unsatisfied"); std::mem::forget(o); return; }
    cover("satisfied");
    // nothing is left
    match choose(4, "after") {
        0 => { check(call::<S>(&mut o, 1, 2).is_err(), "after a checkpoint no earlier expectation serves a call"); std::mem::forget(o); }
        1 => check(!panics(|| { S::checkpoint(&mut o); S::checkpoint(&mut o); drop(o) }), "a checkpoint with nothing to verify does not panic"),
        2 => check(!panics(|| drop(o)), "what a checkpoint verified is not verified again on drop"),
        _ => {
            // the next phase starts from scratch
            let (lo2, hi2) = (any_usize("lo2"), any_usize("hi2"));
            assume(lo2 <= hi2 && hi2 < INF);
            let v = any_u32("v2");
            S::expect(&mut o, &spec(T::Incl(lo2, hi2), M::ANY, rc::<S>(v)), None);
            let r = call::<S>(&mut o, 1, 2);
            if hi2 == 0 { check(r.is_err(), "a new expectation has its own maximum"); std::mem::forget(o); return; }
            let w = match rc::<S>(v) { R::Ret(_) => f(v, 1, 2, 0), _ => v };
            check(same(&r, Some(w)), "after a checkpoint new expectations serve the calls");
            check(panics(|| S::checkpoint(&mut o)) == (lo2 > 1), "a new expectation is verified on its own");
            std::mem::forget(o);
        }
    }
}
/// Several expectations of one method
fn many_exps<S: Shape>(k: usize) {
    must("satisfied");
    must("unsatisfied");
    let l = [any_usize("l0"), any_usize("l1"), any_usize("l2")];
    assume(l[0] < INF && l[1] < INF && l[2] < INF);
    let mut o = S::new();
    S::expect(&mut o, &spec(T::From(l[0]), M::b(MK::Withf, 0), rv::<S>(1)), None);
    S::expect(&mut o, &spec(T::From(l[1]), M::b(MK::Withf, 1), rv::<S>(2)), None);
    S::expect(&mut o, &spec(T::From(l[2]), M::ANY, rv::<S>(3)), None);
    let mut n = [0usize; 3];
    for _ in 0..k {
        let b = any_u32("b");
        check(call::<S>(&mut o, 0, b).is_ok(), "a call within the maximum is answered");
        if b == 0 { n[0] += 1 } else if b == 1 { n[1] += 1 } else { n[2] += 1 }
    }
    let want = n[0] < l[0] || n[1] < l[1] || n[2] < l[2];
    check(panics(|| S::checkpoint(&mut o)) == want, "checkpoint panics exactly if an expectation has too few calls");
    cover(if want { "unsatisfied" } else { "satisfied" });
    if !want { check(call::<S>(&mut o, 0, 0).is_err(), "after a checkpoint no earlier expectation serves a call"); }
    std::mem::forget(o);
}
/// Two methods of one object: `cp` covers both.
fn two<S: Shape, U: Shape<Owner = S::Owner>>(cp: fn(&mut S::Owner), k: u32) {
    must("satisfied");
    must("unsatisfied");
    let (l0, l1) = (any_usize("l0"), any_usize("l1"));
    assume(l0 < INF && l1 < INF);
    let mut o = S::new();
    S::expect(&mut o, &spec(T::From(l0), M::ANY, rv::<S>(3)), None);
    U::expect(&mut o, &spec(T::From(l1), M::ANY, rv::<U>(4)), None);
    let (c0, c1) = (choose(k + 1, "c0") as usize, choose(k + 1, "c1") as usize);
    for _ in 0..c0 { check(call::<S>(&mut o, 1, 2).is_ok(), "a call within the maximum is answered"); }
    for _ in 0..c1 { check(call::<U>(&mut o, 1, 2).is_ok(), "a call within the maximum is answered"); }
    let bad = panics(|| cp(&mut o));
    let want = c0 < l0 || c1 < l1;
    check(bad == want, "checkpoint panics exactly if an expectation of any method has too few calls");
    cover(if want { "unsatisfied" } else { "satisfied" });
    if !want {
        check(call::<S>(&mut o, 1, 2).is_err(), "after a checkpoint no earlier expectation serves a call");
        check(call::<U>(&mut o, 1, 2).is_err(), "after a checkpoint no earlier expectation serves a call");
    }
    std::mem::forget(o);
}
macro_rules! pairs { ($cp:expr, $k:expr; $($n:literal $s:ident $u:ident)*) => { $( one!($n, two::<$s, $u>($cp, $k)); )* }; }
pairs!(|o| o.checkpoint(), 1;
    "c03_two__inh_bar" Inh InhBar   "c03_two__mut_bar" MutSelf MutSelfBar   "c03_two__auto_bar" AutoT AutoTBar
    "c03_two__many_foo_bar" ManyFoo ManyBar "c03_two__many_bar_baz" ManyBar ManyBaz "c03_two__many_baz_qux" ManyBaz ManyQux "c03_two__many_qux_inh" ManyQux ManyInh
    "c03_two__many_inh_foo" ManyInh ManyFoo "c03_two__many_foo_baz" ManyFoo ManyBaz
    "c03_two__gen_types" GenM GenM16 "c03_two__gen_ret" GenRet GenRet64 "c03_two__gen_swap" GenTwo GenTwoSwap "c03_two__gen_methods" GenM GenTwo
    "c03_two__gstr" GStr GStrGm "c03_two__assoc" AssocT AssocBar
    "c03_two__ref_mut" RefRet MutRet "c03_two__gref_gmut" GenRefRet GenMutRet "c03_two__ref_gref" RefRet GenRefRet "c03_two__dyn" DynRet DynMutRet "c03_two__sli" SliRet SliMutRet "c03_two__mut_stat" MutRet StatRefRet
    "c03_two__autoref" AutoRefRet AutoMutRet "c03_two__refarg" RefArg SliceArg "c03_two__owned" LtArg OwnedArg
    "c03_two__conc" ConcV ConcR "c03_two__conc2" ConcTwo ConcRefRet "c03_two__asy" AsyM ImplFu "c03_two__it" ImplIt BoxRet);
// every function of a mocked module
pairs!(|_| mock_modl::checkpoint(), 1; "c03_two__modl" Modl ModlBar);
pairs!(|_| mock_ffi::checkpoint(), 1; "c03_two__ffi" Ffi FfiBar);
pairs!(|_| mock_gmod::checkpoint(), 1; "c03_two__gmod" GMod GModP);
each!(all, "c03_one", one_method(2));
each!(core, "c03_exps", many_exps(2));
each!(all, "c03d_one", one_method(4));
each!(all, "c03d_exps", many_exps(3));

/// The checkpoint of an object leaves the expectations of static methods alone
fn not_static() {
    must("satisfied");
    must("unsatisfied");
    let mut o = GStr::new();
    let mut c = GStrStat::new();
    let (l0, l1) = (any_usize("l0"), any_usize("l1"));
    assume(l0 < INF && l1 < INF);
    GStr::expect(&mut o, &spec(T::From(l0), M::ANY, R::Ret(1)), None);
    GStrStat::expect(&mut c, &spec(T::From(l1), M::ANY, R::Const(7)), None);
    let c0 = choose(2, "c0") as usize;
    for _ in 0..c0 { GStr::call(&mut o, 1, 2); }
    let bad = panics(|| o.checkpoint());
    check(bad == (c0 < l0), "an object's checkpoint verifies exactly the methods that take self");
    cover(if bad { "unsatisfied" } else { "satisfied" });
    check(same(&call::<GStrStat>(&mut c, 1, 2), Some(7)), "an object's checkpoint leaves static expectations in place");
    std::mem::forget(o);
    std::mem::forget(c);
}
one!("c03_not_static", not_static());
/// A Context's checkpoint leaves the other functions alone
fn ctx_alone<S: Shape, U: Shape<Owner = S::Owner>>() {
    must("satisfied");
    must("unsatisfied");
    let (l0, l1) = (any_usize("l0"), any_usize("l1"));
    assume(l0 < INF && l1 < INF);
    let mut o = S::new();
    S::expect(&mut o, &spec(T::From(l0), M::ANY, R::Const(3)), None);
    U::expect(&mut o, &spec(T::From(l1), M::ANY, R::Const(4)), None);
    let c0 = choose(2, "c0") as usize;
    for _ in 0..c0 { call::<S>(&mut o, 1, 2); }
    let bad = panics(|| S::checkpoint(&mut o));
    check(bad == (c0 < l0), "a Context's checkpoint verifies exactly its own function");
    cover(if bad { "unsatisfied" } else { "satisfied" });
    check(same(&call::<U>(&mut o, 1, 2), Some(4)), "a Context's checkpoint leaves other functions alone");
    std::mem::forget(o);
}
one!("c03_ctx__stat", ctx_alone::<Stat, StatBar>());
one!("c03_ctx__autos", ctx_alone::<AutoS, AutoSBar>());
one!("c03_ctx__modl", ctx_alone::<Modl, ModlBar>());
one!("c03_ctx__ffi", ctx_alone::<FfiBar, Ffi>());
one!("c03_ctx__gens", ctx_alone::<GenS, GenSRet>());

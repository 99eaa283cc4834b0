//! C13 (the life of static expectations), C14 (generic types), C15 (independence),
//! C16 (panics)
use super::util::*;
use mockall::mock;

// ---- C13 -------------------------------------------------------------------
/// Dropping the Context verifies and clears; what comes later starts from scratch.
fn life<S: Shape>(k: u32) {
    must("satisfied");
    must("unsatisfied");
    let (lo, hi) = any_bounds();
    let mut o = S::new();
    S::expect(&mut o, &spec(T::Incl(lo, hi), M::ANY, rc::<S>(3)), None);
    let c = choose(k + 1, "calls") as usize;
    assume(c <= hi);
    for _ in 0..c { check(call::<S>(&mut o, 1, 2).is_ok(), "a call within the maximum is answered"); }
    let want = c < lo;
    check(panics(|| S::release(&mut o)) == want, "dropping a Context panics exactly if an expectation has too few calls");
    cover(if want { "unsatisfied" } else { "satisfied" });
    std::mem::forget(o);
    after::<S>();
}
/// No expectation of the past is left
fn after<S: Shape>() {
    let mut o = S::new();
    if choose(2, "after") == 0 {
        check(call::<S>(&mut o, 1, 2).is_err(), "after its Context is dropped an expectation serves no call");
        std::mem::forget(o);
    } else {
        let lo = any_usize("lo2");
        assume(lo < INF);
        let v = any_u32("v2");
        S::expect(&mut o, &spec(T::From(lo), M::ANY, rc::<S>(v)), None);
        check(same(&call::<S>(&mut o, 1, 2), Some(rcv::<S>(v, 1, 2, 0))), "a later Context's expectations serve the calls");
        check(panics(|| drop(o)) == (lo > 1), "a later Context's expectations are verified on their own");
    }
}
/// Without any Context a call panics; with an unused Context too
fn none<S: Shape>() {
    must("called");
    let mut o = S::new();
    if choose(2, "drop first") == 1 { S::release(&mut o); }
    check(call::<S>(&mut o, any_u32("a"), any_u32("b")).is_err(), "a static call without expectations panics");
    check(!panics(|| drop(o)), "a Context without expectations drops quietly");
    after::<S>();
    cover("called");
}
/// The Context of one function leaves another function's expectations alone
fn own_context<S: Shape, U: Shape<Owner = S::Owner>>() {
    must("satisfied");
    must("unsatisfied");
    let (l0, l1) = (any_usize("l0"), any_usize("l1"));
    assume(l0 < INF && l1 < INF);
    let mut o = S::new();
    S::expect(&mut o, &spec(T::From(l0), M::ANY, R::Const(3)), None);
    U::expect(&mut o, &spec(T::From(l1), M::ANY, R::Const(4)), None);
    let c0 = choose(2, "c0") as usize;
    let c1 = choose(2, "c1") as usize;
    for _ in 0..c0 { check(same(&call::<S>(&mut o, 1, 2), Some(3)), "a call is served by its own function's expectation"); }
    for _ in 0..c1 { check(same(&call::<U>(&mut o, 1, 2), Some(4)), "a call is served by its own function's expectation"); }
    let bad = panics(|| S::release(&mut o));
    check(bad == (c0 < l0), "dropping a Context verifies exactly its own function");
    cover(if bad { "unsatisfied" } else { "satisfied" });
    check(call::<S>(&mut o, 1, 2).is_err(), "after its Context is dropped an expectation serves no call");
    check(same(&call::<U>(&mut o, 1, 2), Some(4)), "dropping a Context leaves other functions alone");
    check(panics(|| U::release(&mut o)) == (c1 + 1 < l1), "dropping a Context verifies exactly its own function");
    std::mem::forget(o);
}
/// Expectations stay while the Context lives, even after the guard is gone; several expectations
fn several<S: Shape>(k: usize) {
    must("satisfied");
    must("unsatisfied");
    let l = [any_usize("l0"), any_usize("l1")];
    assume(l[0] < INF && l[1] < INF);
    let mut o = S::new();
    S::expect(&mut o, &spec(T::From(l[0]), M::b(MK::Withf, 0), rc::<S>(1)), None);
    let mut n = [0usize; 2];
    for i in 0..k {
        if i == 1 { S::expect(&mut o, &spec(T::From(l[1]), M::ANY, rc::<S>(2)), None); }
        let b = any_in(0, 1, "b");
        let r = call::<S>(&mut o, 0, b);
        if b == 0 { n[0] += 1; check(same(&r, Some(rcv::<S>(1, 0, b, n[0] - 1))), "expectations of a static serve in order"); }
        else if i == 0 { check(r.is_err(), "a static call that matches nothing panics"); }
        else { n[1] += 1; check(same(&r, Some(rcv::<S>(2, 0, b, n[1] - 1))), "expectations of a static serve in order"); }
    }
    let want = n[0] < l[0] || n[1] < l[1];
    check(panics(|| S::release(&mut o)) == want, "dropping a Context panics exactly if an expectation has too few calls");
    cover(if want { "unsatisfied" } else { "satisfied" });
    std::mem::forget(o);
    let mut o = S::new();
    check(call::<S>(&mut o, 1, 1).is_err(), "after its Context is dropped an expectation serves no call");
    std::mem::forget(o);
}
/// A second context of the function changes nothing for the expectations of the first
fn second<S: Shape>() {
    must("satisfied");
    must("unsatisfied");
    let lo = any_usize("lo");
    assume(lo < INF);
    let mut o = S::new();
    S::expect(&mut o, &spec(T::From(lo), M::ANY, rc::<S>(3)), None);
    let early = any_bool("early");
    if early { check(same(&call::<S>(&mut o, 1, 2), Some(rcv::<S>(3, 1, 2, 0))), "a call within the maximum is answered"); }
    let o2 = S::new();
    let n = if early { 1 } else { 0 };
    check(same(&call::<S>(&mut o, 1, 2), Some(rcv::<S>(3, 1, 2, n))), "expectations stay when another context of their function is made");
    let bad = n + 1 < lo;
    check(panics(|| S::release(&mut o)) == bad, "dropping a Context panics exactly if an expectation has too few calls");
    cover(if bad { "unsatisfied" } else { "satisfied" });
    check(!panics(|| drop(o2)), "a Context without expectations drops quietly");
    std::mem::forget(o);
    after::<S>();
}
each!(statics, "c13_second", second());
each!(statics, "c13_life", life(2));
each!(statics, "c13_none", none());
each!(statics, "c13_several", several(3));
each!(statics, "c13d_life", life(5));
each!(statics, "c13d_several", several(5));
macro_rules! pairs { ($n:literal $d:ident $args:tt; $($s:ident $u:ident)*) => { $( const _: () = {
    #[export_name = concat!("h_", $n, "__", stringify!($s), "_", stringify!($u))]
    pub fn harness() { $d::<$s, $u> $args }
}; )* }; }
pairs!("c13_own" own_context(); Stat StatBar StatBar Stat AutoS AutoSBar AutoSBar AutoS Modl ModlBar ModlBar Modl Ffi FfiBar FfiBar Ffi GenS GenSRet GenSRet GenS MixI MixA MixA MixI MixA MixB MixB MixA ModlSame ModlOther ModlOther ModlSame);

// ---- C14, C15 ----------------------------------------------------------------
/// Expectations of S and of U on one owner never serve or count each other's calls
fn separate<S: Shape, U: Shape<Owner = S::Owner>>(k: usize) {
    must("satisfied");
    must("unsatisfied");
    let (lo0, hi0, lo1, hi1) = (any_usize("lo0"), any_usize("hi0"), any_usize("lo1"), any_usize("hi1"));
    assume(lo0 <= hi0 && hi0 < INF && lo1 <= hi1 && hi1 < INF);
    let mut o = S::new();
    let s0 = spec(T::Incl(lo0, hi0), M::ANY, rc::<S>(100));
    let s1 = spec(T::Incl(lo1, hi1), M::ANY, rc::<U>(200));
    S::expect(&mut o, &s0, None);
    U::expect(&mut o, &s1, None);
    let (mut m0, mut m1) = (Model { e: [E::new(&s0)] }, Model { e: [E::new(&s1)] });
    for _ in 0..k {
        let (r, w) = if choose(2, "callee") == 0 { (call::<S>(&mut o, 1, 2), m0.call(1, 2)) } else { (call::<U>(&mut o, 1, 2), m1.call(1, 2)) };
        check(same(&r, w), "a call is served by the expectations of its own method and types only");
        if w.is_none() { std::mem::forget(o); return; }
    }
    let want = !(m0.sat() && m1.sat());
    check(panics(|| drop(o)) == want, "each method's and type's calls are counted separately");
    cover(if want { "unsatisfied" } else { "satisfied" });
}
/// With expectations for S only, U's calls panic
fn absent<S: Shape, U: Shape<Owner = S::Owner>>() {
    must("called");
    let mut o = S::new();
    let (a, b) = (any_u32("a"), any_u32("b"));
    S::expect(&mut o, &spec(T::Once, M::ANY, rc::<S>(1)), None);
    let h = hits();
    check(call::<U>(&mut o, a, b).is_err(), "an expectation serves no call of another method or other types");
    check(hits() == h, "an expectation serves no call of another method or other types");
    check(call::<S>(&mut o, a, b).is_ok(), "an expectation serves its own method and types");
    check(!panics(|| drop(o)), "an expectation serves its own method and types");
    cover("called");
}
pairs!("c14_separate" separate(2); GenM GenM16 GenM16 GenM GenRet GenRet64 GenRet64 GenRet GenTwo GenTwoSwap GenTwoSwap GenTwo GenS GenSP GenSP GenS GMod GModP GModP GMod GStrStat GStrStatP GStrStatP GStrStat
    GenNoneA GenNoneB GenNoneB GenNoneA Gen3A Gen3B Gen3B Gen3C Gen3C Gen3A SGen3A SGen3B SGen3B SGen3C SGen3C SGen3A RGen3A RGen3B RGen3B RGen3C MGen3A MGen3B MGen3B MGen3C);
pairs!("c14_absent" absent(); GenM GenM16 GenM16 GenM GenRet GenRet64 GenRet64 GenRet GenTwo GenTwoSwap GenTwoSwap GenTwo GenS GenSP GenSP GenS GMod GModP GModP GMod GStrStat GStrStatP GStrStatP GStrStat
    GenNoneA GenNoneB GenNoneB GenNoneA Gen3A Gen3B Gen3B Gen3C Gen3C Gen3A SGen3A SGen3B SGen3B SGen3C SGen3C SGen3A RGen3A RGen3B RGen3B RGen3C MGen3A MGen3B MGen3B MGen3C);
pairs!("c14d_separate" separate(5); GenM GenM16 GenRet GenRet64 GenTwo GenTwoSwap GenS GenSP GMod GModP GStrStat GStrStatP GenNoneA GenNoneB Gen3A Gen3B SGen3B SGen3C RGen3A RGen3C MGen3A MGen3B);
/// Any subset of ten types has expectations; a call of any type
mock! { pub Tys {
    pub fn foo<X: 'static>(&self, a: X) -> u32;
    pub fn rf<X: 'static>(&self, a: X) -> &u32;
    pub fn mu<X: 'static>(&mut self, a: X) -> &mut u32;
    pub fn st<X: 'static>(a: X) -> u32;
    pub fn two<X: 'static, Y: 'static>(&self) -> Vec<(X, Y)>;
} }
pub struct Wrap<X>(pub X);
#[derive(Clone, Copy, PartialEq)]
enum Form { Val, Ref, Mut, Static }
macro_rules! tys {
    ($form:ident, $set:ident, $who:ident, $m:ident, $c:ident, $($i:literal $t:ty, $v:expr;)*) => {{
        $( if $set & (1 << $i) != 0 { match $form {
            Form::Val => { $m.expect_foo::<$t>().times(1).return_const($i as u32); }
            Form::Ref => { $m.expect_rf::<$t>().times(1).return_const($i as u32); }
            Form::Mut => { $m.expect_mu::<$t>().times(1).return_var($i as u32); }
            Form::Static => { $c.expect::<$t>().times(1).return_const($i as u32); }
        } } )*
        match $who { $( $i => catch(|| match $form {
            Form::Val => $m.foo::<$t>($v), Form::Ref => *$m.rf::<$t>($v), Form::Mut => *$m.mu::<$t>($v), Form::Static => MockTys::st::<$t>($v),
        }), )* _ => unreachable!() }
    }};
}
pub mod twin_a { pub struct Twin; }
pub mod twin_b { pub struct Twin; }
fn nop(_: u32) {}
fn nop8(_: u32) -> u8 { 0 }
/// Types of one name and size that are local to blocks of one function, and their values
fn local() -> (L0, L1) { (twins().0, twins().1) }
type L0 = <Fst as Has>::T;
type L1 = <Snd as Has>::T;
pub trait Has { type T: 'static; }
pub struct Fst;
pub struct Snd;
fn twins() -> (L0, L1) {
    let a = { #[derive(Default)] pub struct Same; impl Has for Fst { type T = Same; } Same };
    let b = { #[derive(Default)] pub struct Same; impl Has for Snd { type T = Same; } Same };
    (a, b)
}
fn types(form: Form) {
    must("answered");
    must("not answered");
    let mut m = MockTys::new();
    let c = MockTys::st_context();
    // one type called, and any other one or both set
    let who = choose(20, "who");
    let other = choose(20, "other");
    let set = match choose(3, "set") { 0 => 1u32 << who, 1 => 1u32 << other, _ => (1u32 << who) | (1u32 << other) };
    let r = tys!(form, set, who, m, c,
        0 u32, 0; 1 i32, 0; 2 u64, 0; 3 [u8; 4], [0; 4]; 4 [u8; 3], [0; 3]; 5 &'static str, ""; 6 String, String::new();
        7 (u32, u8), (0, 0); 8 (u8, u32), (0, 0); 9 Wrap<u32>, Wrap(0); 10 Wrap<i32>, Wrap(0); 11 Wrap<Wrap<u32>>, Wrap(Wrap(0));
        12 twin_a::Twin, twin_a::Twin; 13 twin_b::Twin, twin_b::Twin; 14 L0, local().0; 15 L1, local().1; 16 fn(u32), nop; 17 fn(u32) -> u8, nop8; 18 Box<dyn Num>, Box::new(0u32); 19 Box<dyn Num + Send>, Box::new(0u32););
    let has = set & (1 << who) != 0;
    check(same(&r, if has { Some(who) } else { None }), "a generic call is served by the expectations of exactly its types");
    cover(if has { "answered" } else { "not answered" });
    let left = if has { set & !(1 << who) } else { set };
    let bad = panics(|| if form == Form::Static { drop(c) } else { drop(m) });
    check(bad == (left != 0), "the expectations of every type are verified");
}
one!("c14_types_val", types(Form::Val));
one!("c14_types_ref", types(Form::Ref));
one!("c14_types_mut", types(Form::Mut));
one!("c14_types_static", types(Form::Static));
/// Two type parameters: the order matters
fn two_params() {
    must("called");
    let mut m = MockTys::new();
    m.expect_two::<u8, u16>().times(1).returning(|| vec![(1, 2)]);
    let which = choose(4, "which");
    let ok = match which {
        0 => !panics(|| m.two::<u8, u16>()),
        1 => panics(|| m.two::<u16, u8>()),
        2 => panics(|| m.two::<u8, u8>()),
        _ => panics(|| m.two::<u16, u16>()),
    };
    check(ok, "a generic call is served by the expectations of exactly its types");
    cover("called");
    std::mem::forget(m);
}
one!("c14_two_params", two_params());

pairs!("c15_separate" separate(2); Inh InhBar MutSelf MutSelfBar AutoT AutoTBar ManyFoo ManyBar ManyBar ManyBaz ManyBaz ManyQux ManyQux ManyInh ManyInh ManyFoo
    Stat StatBar AutoS AutoSBar Modl ModlBar Ffi FfiBar GenS GenSRet GenM GenRet GenM GenTwo GStr GStrGm AssocT AssocBar MixMi MixMa MixI MixA MixA MixB ModlSame ModlOther
    RefRet MutRet RefRet GenRefRet GenRefRet GenMutRet DynRet DynMutRet SliRet SliMutRet MutRet StatRefRet AutoRefRet AutoMutRet RefArg SliceArg LtArg OwnedArg ConcV ConcR ConcTwo ConcRefRet AsyM ImplFu ImplIt BoxRet);
pairs!("c15_absent" absent(); Inh InhBar InhBar Inh AutoT AutoTBar ManyFoo ManyBar ManyBaz ManyQux ManyInh ManyFoo Stat StatBar Modl ModlBar Ffi FfiBar GenS GenSRet GenM GenTwo GStr GStrGm
    RefRet MutRet DynRet DynMutRet SliRet SliMutRet MixI MixA MixA MixB MixMi MixMa ModlSame ModlOther);
pairs!("c15d_separate" separate(5); Inh InhBar AutoT AutoTBar ManyFoo ManyBar ManyBaz ManyQux Stat StatBar Modl ModlBar RefRet MutRet GenRefRet GenMutRet MixI MixA);
/// Two objects of one type
fn objects<S: Shape>(k: usize) {
    must("satisfied");
    must("unsatisfied");
    let (l, h) = ([any_usize("l0"), any_usize("l1")], [any_usize("h0"), any_usize("h1")]);
    assume(l[0] <= h[0] && h[0] < INF && l[1] <= h[1] && h[1] < INF);
    let mut o = [S::new(), S::new()];
    let mut n = [0usize; 2];
    for i in 0..2 { S::expect(&mut o[i], &spec(T::Incl(l[i], h[i]), M::ANY, rc::<S>(100 * i as u32)), None); }
    for _ in 0..k {
        let i = choose(2, "object") as usize;
        let r = call::<S>(&mut o[i], 1, 2);
        let w = match rc::<S>(0) { R::Ret(_) => f(100 * i as u32, 1, 2, n[i] as u32), _ => 100 * i as u32 };
        check(same(&r, if n[i] < h[i] { Some(w) } else { None }), "a call is served by its own object's expectations only");
        if r.is_err() { std::mem::forget(o); return; }
        n[i] += 1;
    }
    let [mut p, q] = o;
    let end = choose(2, "end");
    let bad = if end == 0 { panics(|| S::checkpoint(&mut p)) } else { let r = panics(|| drop(p)); p = S::new(); r };
    check(bad == (n[0] < l[0]), "an object's checkpoint or drop verifies exactly its own expectations");
    cover(if bad { "unsatisfied" } else { "satisfied" });
    check(panics(|| drop(q)) == (n[1] < l[1]), "an object's checkpoint or drop leaves other objects alone");
    std::mem::forget(p);
}
macro_rules! objs { ($n:literal $args:tt; $($s:ident)*) => { $( const _: () = {
    #[export_name = concat!("h_", $n, "__", stringify!($s))]
    pub fn harness() { objects::<$s> $args }
}; )* }; }
objs!("c15_objects" (2); Inh MutSelf AutoT ManyFoo ManyBaz ManyInh GenM GenRet GenTwo GStr GStrGm GTr AssocT SpzU RefRet MutRet GenRefRet GenMutRet DynRet DynMutRet SliRet SliMutRet StatRefRet RefArg OwnedArg ConcV ConcRefRet AsyM ImplIt AutoImpl MixMi MixMa);
objs!("c15d_objects" (4); Inh AutoT ManyFoo GenM RefRet MutRet GenRefRet GenMutRet ConcV AsyM);

// ---- C16 ---------------------------------------------------------------------
/// A panic passes through a mock whose expectations are not met.
fn unwinding<S: Shape>(k: u32) {
    must("unsatisfied");
    must("satisfied");
    let lo = any_usize("lo");
    assume(lo < INF);
    let c = choose(k + 1, "calls");
    let r: Result<(), String> = catch(|| {
        let mut o = S::new();
        S::expect(&mut o, &spec(T::From(lo), M::ANY, rc::<S>(1)), None);
        S::expect(&mut o, &spec(T::From(lo), M::a(MK::Withf, 5), R::None), None);
        for _ in 0..c { S::call(&mut o, 1, 2); }
        panic!("boom")
    });
    check(match r { Err(m) => m == "boom", Ok(_) => false }, "a panic passes through a mock's destruction unchanged");
    cover(if lo == 0 { "satisfied" } else { "unsatisfied" });
    if S::STATIC { after::<S>(); }
}
/// The ways a call or an expectation can panic by itself
fn cause<S: Shape>() {
    must("over-call");
    must("no match");
    must("no return value");
    must("out of sequence");
    let lo = any_usize("lo");
    assume(lo < INF);
    let w = choose(4, "cause");
    let r: Result<(), String> = catch(|| {
        let mut o = S::new();
        let mut seq = Sequence::new();
        let other = spec(T::From(lo), M::a(MK::Withf, 77), R::None);
        match w {
            0 => { S::expect(&mut o, &spec(T::Never, M::ANY, rc::<S>(1)), None); }
            1 => { S::expect(&mut o, &other, None); }
            2 => { S::expect(&mut o, &other, None); S::expect(&mut o, &spec(T::Once, M::ANY, R::None), None); }
            _ => {
                S::expect(&mut o, &spec(T::Once, M::a(MK::Withf, 77), rc::<S>(1)), Some(&mut seq));
                S::expect(&mut o, &spec(T::Once, M::a(MK::Withf, 1), rc::<S>(2)), Some(&mut seq));
            }
        }
        S::call(&mut o, 1, 2);
    });
    check(r.is_err(), "the call panics");
    cover(match w { 0 => "over-call", 1 => "no match", 2 => "no return value", _ => "out of sequence" });
    if S::STATIC { after::<S>(); }
}
each!(all, "c16_unwind", unwinding(1));
#[cfg(not(feature = "nightly"))]
mod stable {
    use super::*;
    each!(all, "c16_cause", cause());
}
mock! { pub Pan {
    pub fn foo(&self, a: u32) -> u32;
    pub fn mu(&mut self, a: u32) -> &mut u32;
    pub fn st(a: u32) -> u32;
    pub fn gs<X: 'static + std::fmt::Debug>(a: X) -> u32;
    pub fn two(a: u32) -> u32;
} }
/// The user's own closures panic
fn closures(w: u32) {
    must("return closure");
    must("matcher");
    must("once");
    let how = choose(3, "closure");
    let lo = any_usize("lo");
    assume(lo < INF);
    let r: Result<u32, String> = catch(|| {
        let mut m = MockPan::new();
        let (st, gs, two) = (MockPan::st_context(), MockPan::gs_context(), MockPan::two_context());
        macro_rules! set { ($e:expr) => {{ let mut e = $e; e.times(lo..); match how {
            0 => { e.returning(|_| panic!("boom")); }
            1 => { e.withf(|_| panic!("boom")); }
            _ => { e.return_once(|_| panic!("boom")); }
        } }}; }
        two.expect().times(lo..).return_const(1u32);
        match w {
            0 => { set!(m.expect_foo()); m.foo(1) }
            1 => { set!(st.expect()); MockPan::st(1) }
            2 => { set!(gs.expect::<u32>()); MockPan::gs::<u32>(1) }
            _ => { let e = m.expect_mu(); e.times(lo..); if how == 1 { e.withf(|_| panic!("boom")); } else { e.returning(|_| panic!("boom")); } *m.mu(1) }
        }
    });
    cover(match how { 0 => "return closure", 1 => "matcher", _ => "once" });
    check(match r { Err(m) => m == "boom", Ok(_) => false }, "a panic of the user's closure passes through unchanged");
    // everything is as new
    let (st, gs, two) = (MockPan::st_context(), MockPan::gs_context(), MockPan::two_context());
    st.expect().times(1).return_const(2u32);
    gs.expect::<u32>().times(1).return_const(3u32);
    two.expect().times(1).return_const(4u32);
    check(MockPan::st(1) == 2 && MockPan::gs::<u32>(2) == 3 && MockPan::two(3) == 4, "after a test panicked, static functions can be mocked again");
}
one!("c16_closure_method", closures(0));
one!("c16_closure_static", closures(1));
one!("c16_closure_generic_static", closures(2));
one!("c16_closure_mut", closures(3));
/// Several mocks fail at once: one panic, no abort
fn many() {
    must("panic");
    must("quiet");
    let l = [any_usize("l0"), any_usize("l1"), any_usize("l2"), any_usize("l3")];
    assume(l[0] < INF && l[1] < INF && l[2] < INF && l[3] < INF);
    let r = panics(|| {
        let mut a = MockPan::new();
        let mut b = MockPan::new();
        let st = MockPan::st_context();
        let gs = MockPan::gs_context();
        a.expect_foo().times(l[0]..).return_const(1u32);
        a.expect_mu().times(l[1]..).return_var(1u32);
        b.expect_foo().times(l[1]..).return_const(1u32);
        st.expect().times(l[2]..).return_const(1u32);
        gs.expect::<u32>().times(l[3]..).return_const(1u32);
        gs.expect::<u8>().times(l[3]..).return_const(1u32);
    });
    check(r == (l[0] > 0 || l[1] > 0 || l[2] > 0 || l[3] > 0), "several failures end in one panic");
    cover(if r { "panic" } else { "quiet" });
    let st = MockPan::st_context();
    st.expect().times(1).return_const(2u32);
    check(MockPan::st(1) == 2, "after a test panicked, static functions can be mocked again");
}
one!("c16_many", many());

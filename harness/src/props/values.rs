//! C07 (values and arguments), C08 (return_once), C09 (no return value), C10 (references)
use super::util::*;
use mockall::mock;
use std::cell::Cell;
use std::rc::Rc;
use std::{ffi::{CStr, OsStr}, path::Path};

// ---- C07 -------------------------------------------------------------------
/// Every way of returning a value, over several calls, in either order of setting
fn values<S: Shape>(k: usize) {
    must("called");
    let s = spec(T::Unset, M::ANY, any_ret::<S>(any_u32("v")));
    let mut m = Model { e: [E::new(&s)] };
    let mut o = S::new();
    S::expect(&mut o, &s, None);
    for _ in 0..k {
        let (a, b) = (any_u32("a"), any_u32("b"));
        let h = hits();
        let w = m.call(a, b);
        check(same(&call::<S>(&mut o, a, b), w), "a call yields what its expectation's return setting produces from its arguments");
        let ran = match s.r { R::Ret(_) | R::RetSt(_) => 1, _ => 0 };
        check(hits() == h + ran, "the return closure runs exactly once per call");
        cover("called");
    }
    check(!panics(|| drop(o)), "calls that succeeded leave nothing to report");
}
/// The last return setting wins
fn last_value<S: Shape>() {
    must("called");
    let s0 = any_ret::<S>(any_u32("v0"));
    let mut s = spec(T::Unset, M::ANY, any_ret::<S>(any_u32("v")));
    s.pre = Some((T::Unset, M::ANY, s0));
    let mut m = Model { e: [E::new(&s)] };
    let mut o = S::new();
    S::expect(&mut o, &s, None);
    for _ in 0..2 {
        let (a, b) = (any_u32("a"), any_u32("b"));
        let w = m.call(a, b);
        check(same(&call::<S>(&mut o, a, b), w), "the last return setting decides");
        cover("called");
    }
    std::mem::forget(o);
}
/// The closures of different expectations do not share state
fn own_state<S: Shape>() {
    must("called");
    let s0 = spec(T::Unset, M::b(MK::Withf, 0), any_ret::<S>(any_u32("v0")));
    let s1 = spec(T::Unset, M::ANY, any_ret::<S>(any_u32("v1")));
    let mut m = Model { e: [E::new(&s0), E::new(&s1)] };
    let mut o = S::new();
    S::expect(&mut o, &s0, None);
    S::expect(&mut o, &s1, None);
    for _ in 0..3 {
        let (a, b) = (any_u32("a"), any_in(0, 1, "b"));
        let w = m.call(a, b);
        check(same(&call::<S>(&mut o, a, b), w), "each expectation yields its own values");
        cover("called");
    }
    std::mem::forget(o);
}
each!(all, "c07_values", values(2));
each!(core, "c07_last", last_value());
each!(core, "c07_own", own_state());
each!(all, "c07d_values", values(5));
each!(all, "c07d_last", last_value());
each!(all, "c07d_own", own_state());

mock! { pub Args {
    fn nine(&self, a0: u8, a1: u16, a2: u32, a3: u64, a4: i8, a5: &u32, a6: P, a7: Box<u32>, a8: (u8, bool)) -> u64;
    fn snine(a0: u8, a1: u16, a2: u32, a3: u64, a4: i8, a5: &u32, a6: P, a7: Box<u32>, a8: (u8, bool)) -> u64;
    fn zero(&self) -> u64;
    fn unit(&self, a: u32);
    fn muts(&self, a: &mut u32, b: &mut [u8], c: &mut P) -> u32;
    fn smuts(a: &mut u32, b: &mut [u8], c: &mut P) -> u32;
    fn ident(&self, a: Box<u32>) -> Box<u32>;
    fn opt(&self, a: Option<u32>) -> Result<u32, P>;
    fn strs(&self, a: &str) -> String;
    fn byval(self, a: u32) -> u32;
    fn boxed(self: Box<Self>, a: u32) -> u32;
    fn other(&self) -> u32;
    fn optref<'a>(&self, a: Option<&'a u32>) -> u32;
    fn clos(&self, a: Box<dyn Fn(u32) -> u32>) -> u32;
} }
fn digest(a0: u8, a1: u16, a2: u32, a3: u64, a4: i8, a5: u32, a6: u32, a7: u32, a8: (u8, bool)) -> u64 {
    (a0 as u64) ^ ((a1 as u64) << 3) ^ ((a2 as u64) << 7).rotate_left(11) ^ a3.rotate_left(17) ^ (a4 as u64).rotate_left(23) ^ (a5 as u64).rotate_left(29)
        ^ (a6 as u64).rotate_left(31) ^ (a7 as u64).rotate_left(37) ^ (a8.0 as u64).rotate_left(41) ^ (a8.1 as u64).rotate_left(43)
}
fn nine_args(stat: bool) {
    must("called");
    let (a0, a1, a2, a3, a4) = (any_u8("a0"), any_u16("a1"), any_u32("a2"), any_u64("a3"), any_u8("a4") as i8);
    let (a5, a6, a7, a8) = (any_u32("a5"), any_u32("a6"), any_u32("a7"), (any_u8("a8"), any_bool("a8b")));
    let mut m = MockArgs::new();
    let ctx = MockArgs::snine_context();
    let d = move |b0: u8, b1: u16, b2: u32, b3: u64, b4: i8, b5: &u32, b6: P, b7: Box<u32>, b8: (u8, bool)| {
        check((b0 == a0) & (b1 == a1) & (b2 == a2) & (b3 == a3) & (b4 == a4), "the closure receives the caller's arguments, in order");
        check((*b5 == a5) & (b6.0 == a6) & (*b7 == a7) & (b8.0 == a8.0) & (b8.1 == a8.1), "the closure receives the caller's arguments, in order");
        cover("called");
        digest(b0, b1, b2, b3, b4, *b5, b6.0, *b7, b8)
    };
    let r = if stat {
        ctx.expect().returning(d);
        MockArgs::snine(a0, a1, a2, a3, a4, &a5, P(a6), Box::new(a7), a8)
    } else {
        m.expect_nine().returning(d);
        m.nine(a0, a1, a2, a3, a4, &a5, P(a6), Box::new(a7), a8)
    };
    check(r == digest(a0, a1, a2, a3, a4, a5, a6, a7, a8), "the caller receives the closure's value");
}
one!("c07_nine", nine_args(false));
one!("c07_nine_stat", nine_args(true));
/// Writes through &mut arguments reach the caller
fn mut_args(stat: bool) {
    must("called");
    let (a, x, c) = (any_u32("a"), any_u32("x"), any_u32("c"));
    let (na, nx, nc, v) = (any_u32("na"), any_u8("nx"), any_u32("nc"), any_u32("v"));
    let mut m = MockArgs::new();
    let ctx = MockArgs::smuts_context();
    let i = any_in(0, 3, "i") as usize;
    let d = move |p: &mut u32, q: &mut [u8], r: &mut P| {
        check((*p == a) & (q.len() == 4) & (r.0 == c), "the closure sees what the caller passed");
        *p = na;
        q[i] = nx;
        r.0 = nc;
        v
    };
    let (mut aa, mut xx, mut cc) = (a, x.to_le_bytes(), P(c));
    let r = if stat {
        ctx.expect().returning(d);
        MockArgs::smuts(&mut aa, &mut xx, &mut cc)
    } else {
        m.expect_muts().returning(d);
        m.muts(&mut aa, &mut xx, &mut cc)
    };
    let mut w = x.to_le_bytes();
    w[i] = nx;
    check((r == v) & (aa == na) & (cc.0 == nc), "writes through mutable arguments reach the caller");
    check((xx[0] == w[0]) & (xx[1] == w[1]) & (xx[2] == w[2]) & (xx[3] == w[3]), "writes through mutable slices reach the caller");
    cover("called");
}
one!("c07_muts", mut_args(false));
one!("c07_muts_stat", mut_args(true));
/// Owned arguments are moved, not copied
fn moved() {
    must("called");
    let mut m = MockArgs::new();
    let v = any_u32("v");
    m.expect_ident().returning(|b| b);
    let b = Box::new(v);
    let p = &*b as *const u32 as usize;
    let r = m.ident(b);
    check(*r == v && &*r as *const u32 as usize == p, "an owned argument is moved into the closure and back");
    cover("called");
}
one!("c07_moved", moved());
/// Other types
fn types() {
    must("called");
    let mut m = MockArgs::new();
    let v = any_u64("v");
    m.expect_zero().return_const(v);
    check(m.zero() == v, "a call yields the constant");
    let u = Rc::new(Cell::new(0));
    let u2 = u.clone();
    let a = any_u32("a");
    m.expect_unit().returning_st(move |x| u2.set(x));
    m.unit(a);
    check(u.get() == a, "the closure receives the caller's arguments");
    m.expect_opt().returning(|o| match o { Some(x) => Ok(x), None => Err(P(7)) });
    check(m.opt(Some(a)) == Ok(a) && m.opt(None) == Err(P(7)), "a call yields the closure's value");
    m.expect_optref().returning(|o| match o { Some(x) => *x, None => 9 });
    check(m.optref(Some(&a)) == a && m.optref(None) == 9, "a call yields the closure's value");
    m.expect_clos().returning(move |g| g(a));
    check(m.clos(Box::new(move |z| z ^ 5)) == a ^ 5, "the closure receives the caller's arguments");
    m.expect_strs().returning(|s| s.to_string());
    check(m.strs("hello") == "hello", "a call yields the closure's value");
    cover("called");
}
impl PartialEq<P> for u32 { fn eq(&self, o: &P) -> bool { *self == o.0 } }
one!("c07_types", types());
/// A method that consumes the mock verifies the mock's other expectations
fn by_value(boxed: bool) {
    must("satisfied");
    must("unsatisfied");
    let mut m = MockArgs::new();
    let (a, v) = (any_u32("a"), any_u32("v"));
    let lo = any_usize("lo");
    assume(lo < INF);
    m.expect_other().times(lo..).return_const(1u32);
    if boxed { m.expect_boxed().times(1).returning(move |x| x ^ v); } else { m.expect_byval().times(1).returning(move |x| x ^ v); }
    let c = choose(2, "calls") as usize;
    for _ in 0..c { m.other(); }
    let r = catch(move || if boxed { Box::new(m).boxed(a) } else { m.byval(a) });
    if c < lo { cover("unsatisfied"); check(r.is_err(), "consuming a mock verifies its expectations"); }
    else { cover("satisfied"); check(same(&r, Some(a ^ v)), "a consuming method yields the closure's value"); }
}
one!("c07_byval", by_value(false));
one!("c07_boxself", by_value(true));

// ---- C08 -------------------------------------------------------------------
fn any_once(v: u32) -> R { if choose(2, "st") == 0 { R::Once(v) } else { R::OnceSt(v) } }
/// The closure of return_once runs at most once; later calls panic
fn once<S: Shape>(k: u32) {
    must("first call");
    must("second call");
    let v = any_u32("v");
    let mut o = S::new();
    S::expect(&mut o, &spec(T::Unset, M::ANY, any_once(v)), None);
    let h = hits();
    let c = choose(k + 1, "calls");
    for i in 0..c {
        let (a, b) = (any_u32("a"), any_u32("b"));
        let r = call::<S>(&mut o, a, b);
        if i == 0 {
            cover("first call");
            check(same(&r, Some(f(v, a, b, 0))), "the first call yields the closure's value");
        } else {
            cover("second call");
            check(r.is_err(), "a further call of a return_once expectation panics");
        }
    }
    check(hits() == h + if c > 0 { 1 } else { 0 }, "the closure of return_once runs at most once");
    if c < 2 { check(!panics(|| drop(o)), "a return_once expectation used at most once is satisfied"); } else { std::mem::forget(o); }
}
/// With bounds on the number of calls
fn once_bounds<S: Shape>() {
    must("too few");
    must("satisfied");
    must("too many");
    let (lo, hi) = any_bounds();
    let v = any_u32("v");
    let mut o = S::new();
    S::expect(&mut o, &spec(T::Incl(lo, hi), M::ANY, any_once(v)), None);
    let h = hits();
    let c = choose(2, "calls") as usize;
    if c == 1 {
        let r = call::<S>(&mut o, 3, 4);
        check(same(&r, if hi == 0 { None } else { Some(f(v, 3, 4, 0)) }), "the first allowed call yields the closure's value");
        if hi == 0 { check(hits() == h, "no return-value code runs for a call beyond the maximum"); cover("too many"); std::mem::forget(o); return; }
    }
    check(panics(|| drop(o)) == (c < lo), "a return_once expectation is verified like any other");
    cover(if c < lo { "too few" } else { "satisfied" });
}
/// Several return_once expectations in a row
fn once_row<S: Shape>() {
    must("called");
    let (v, w) = (any_u32("v"), any_u32("w"));
    let mut o = S::new();
    S::expect(&mut o, &spec(T::Once, M::ANY, any_once(v)), None);
    S::expect(&mut o, &spec(T::Once, M::ANY, any_once(w)), None);
    let (a, b) = (any_u32("a"), any_u32("b"));
    check(same(&call::<S>(&mut o, a, b), Some(f(v, a, b, 0))), "each return_once expectation serves its own call");
    check(same(&call::<S>(&mut o, a, b), Some(f(w, a, b, 0))), "each return_once expectation serves its own call");
    check(call::<S>(&mut o, a, b).is_err(), "a further call of a return_once expectation panics");
    cover("called");
    std::mem::forget(o);
}
/// What the closure owns is freed exactly once, whether it ran or not
fn once_owned<S: Shape>() {
    must("used");
    must("unused");
    let v = any_u32("v");
    let h0 = heap();
    let mut o = S::new();
    S::expect(&mut o, &spec(T::Unset, M::ANY, any_once(v)), None);
    let c = choose(2, "calls");
    if c == 1 { check(S::call(&mut o, 1, 2) == f(v, 1, 2, 0), "the first call yields the closure's value"); cover("used"); } else { cover("unused"); }
    drop(o);
    let _ = h0;
}
each!(val, "c08_once", once(2));
each!(core8, "c08_bounds", once_bounds());
each!(core8, "c08_row", once_row());
each!(core8, "c08_owned", once_owned());
each!(val, "c08d_once", once(4));
each!(val, "c08d_bounds", once_bounds());
each!(val, "c08d_row", once_row());
each!(val, "c08d_owned", once_owned());

// ---- C09 -------------------------------------------------------------------
/// An expectation without a return value
fn unset<S: Shape>(nightly: bool) {
    must("allowed");
    must("beyond");
    let (lo, hi) = any_bounds();
    let mut o = S::new();
    S::expect(&mut o, &spec(T::Incl(lo, hi), M::ANY, R::None), None);
    for i in 0..2 {
        let (a, b) = (any_u32("a"), any_u32("b"));
        let r = call::<S>(&mut o, a, b);
        if i < hi {
            cover("allowed");
            check(same(&r, if nightly { Some(0) } else { None }), if nightly { "a call with no return value set yields the default" } else { "a call with no return value set panics" });
        } else {
            cover("beyond");
            check(r.is_err(), "a call beyond the maximum panics");
            break;
        }
    }
    std::mem::forget(o);
}
/// A later expectation that has a value serves once the first is used up
fn unset_then<S: Shape>(nightly: bool) {
    must("called");
    let mut o = S::new();
    S::expect(&mut o, &spec(T::Once, M::ANY, R::None), None);
    let v = any_u32("v");
    S::expect(&mut o, &spec(T::Unset, M::ANY, rc::<S>(v)), None);
    let r = call::<S>(&mut o, 1, 2);
    check(same(&r, if nightly { Some(0) } else { None }), "a call with no return value set is not passed on to another expectation");
    let w = match rc::<S>(v) { R::Ret(_) => f(v, 1, 2, 0), _ => v };
    check(same(&call::<S>(&mut o, 1, 2), Some(w)), "the expectation without a value counts its calls");
    cover("called");
    std::mem::forget(o);
}
mock! { pub Un {
    fn unit(&self, a: u32);
    fn sunit(a: u32);
    fn string(&self) -> String;
    fn vec(&self) -> Vec<u32>;
    fn opt(&self) -> Option<u32>;
    fn nodef(&self) -> &'static NoDef;
    fn owned(&self) -> NoDef;
    fn rnodef(&self) -> &NoDef;
    fn mnodef(&mut self) -> &mut NoDef;
} }
#[derive(Debug)]
pub struct NoDef(pub u32);
pub struct Mark;
pub enum Only { Only }
pub struct Seven(pub u32);
impl Default for Seven { fn default() -> Seven { Seven(7) } }
#[derive(Default)]
pub struct MarkD;
pub struct NoDefT<T>(pub std::marker::PhantomData<T>);
pub trait Tr { fn tr(&self) -> u32; }
pub static ONE: u32 = 1;
/// The same for a method and a static method with each of many return types
macro_rules! returns {
    ($( $n:ident $t:ty, $def:expr, |$v:ident| $ok:expr; )*) => {
        $( mod $n {
            use super::*;
            pub type Out = $t;
            mock! { pub Rt { fn get(&self, a: u32) -> Out; fn stat(a: u32) -> Out; } }
            pub fn run(nightly: bool) {
                let a = any_u32("a");
                let ok = |$v: &Out| -> bool { $ok };
                let mut m = MockRt::new();
                let ctx = MockRt::stat_context();
                let _ = m.expect_get();
                let _ = ctx.expect();
                for i in 0..2 {
                    let r = if i == 0 { catch(|| m.get(a)) } else { catch(|| MockRt::stat(a)) };
                    match r {
                        Ok(v) => { check(nightly && $def && ok(&v), concat!("a call with no return value set yields nothing but the default: ", stringify!($t))); std::mem::forget(v); }
                        Err(_) => check(!(nightly && $def), concat!("a call with no return value set yields the default: ", stringify!($t))),
                    }
                }
                std::mem::forget((m, ctx));
            }
        } )*
        fn return_types(nightly: bool) {
            must("all");
            $( $n::run(nightly); )*
            cover("all");
        }
    };
}
returns! {
    rt_unit (), true, |_v| true;
    rt_mark Mark, false, |_v| true;
    rt_markd MarkD, true, |_v| true;
    rt_only Only, false, |_v| true;
    rt_arr0 [u32; 0], true, |_v| true;
    rt_arr0n [NoDef; 0], true, |_v| true;
    rt_arr4 [u32; 4], true, |v| *v == [0; 4];
    rt_arr1n [NoDef; 1], false, |_v| true;
    rt_units ((), ()), true, |_v| true;
    rt_phantom std::marker::PhantomData<NoDef>, true, |_v| true;
    rt_nodeft NoDefT<u32>, false, |_v| true;
    rt_bool bool, true, |v| !*v;
    rt_u8 u8, true, |v| *v == 0;
    rt_f64 f64, true, |v| v.to_bits() == 0;
    rt_char char, true, |v| *v == '\0';
    rt_u128 u128, true, |v| *v == 0;
    rt_str &'static str, true, |v| v.is_empty();
    rt_ref &'static u32, false, |_v| true;
    rt_slice &'static [u32], true, |v| v.is_empty();
    rt_seven Seven, true, |v| v.0 == 7;
    rt_opt Option<NoDef>, true, |v| v.is_none();
    rt_res Result<u32, NoDef>, false, |_v| true;
    rt_box Box<Seven>, true, |v| v.0 == 7;
    rt_boxn Box<NoDef>, false, |_v| true;
    rt_arc std::sync::Arc<u32>, true, |v| **v == 0;
    rt_dyn Box<dyn Tr>, false, |_v| true;
    rt_fn fn(u32) -> u32, false, |_v| true;
    rt_tuple (u32, String), true, |v| v.0 == 0 && v.1.is_empty();
    rt_tuplen (u32, NoDef), false, |_v| true;
    rt_nz std::num::NonZeroU32, false, |_v| true;
    rt_vecn Vec<NoDef>, true, |v| v.is_empty();
}
#[cfg(not(feature = "nightly"))]
mod c09 {
    use super::*;
    each!(all, "c09_unset", unset(false));
    each!(core, "c09_then", unset_then(false));
    each!(all, "c09d_then", unset_then(false));
    fn types() {
        must("called");
        let mut m = MockUn::new();
        let ctx = MockUn::sunit_context();
        let _ = m.expect_unit();
        let _ = m.expect_string();
        let _ = m.expect_vec();
        let _ = m.expect_opt();
        let _ = ctx.expect();
        let a = any_u32("a");
        check(panics(|| m.unit(a)) && panics(|| MockUn::sunit(a)), "a call with no return value set panics, even if it returns nothing");
        check(panics(|| m.string()) && panics(|| m.vec()) && panics(|| m.opt()), "a call with no return value set panics");
        cover("called");
        std::mem::forget((m, ctx));
    }
    one!("c09_types", types());
    one!("c09_return_types", return_types(false));
}
#[cfg(feature = "nightly")]
mod c09 {
    use super::*;
    each!(defs, "c09n_default", unset(true));
    each!(defs, "c09n_then", unset_then(true));
    fn types() {
        must("called");
        let mut m = MockUn::new();
        let ctx = MockUn::sunit_context();
        m.expect_unit();
        m.expect_string();
        m.expect_vec();
        m.expect_opt();
        ctx.expect();
        let a = any_u32("a");
        check(!panics(|| m.unit(a)) && !panics(|| MockUn::sunit(a)), "a call with no return value set yields the default");
        check(m.string().is_empty() && m.vec().is_empty() && m.opt().is_none(), "a call with no return value set yields the default");
        cover("called");
    }
    one!("c09n_types", types());
    one!("c09n_return_types", return_types(true));
}
/// Types without a default: a call panics with or without the nightly feature
fn nodef() {
    must("called");
    let mut m = MockUn::new();
    let _ = m.expect_nodef();
    let _ = m.expect_owned();
    let _ = m.expect_rnodef();
    let _ = m.expect_mnodef();
    check(panics(|| m.nodef()) && panics(|| m.owned()), "a call with no return value set and no default panics");
    check(panics(|| m.rnodef().0) && panics(|| m.mnodef().0), "a call with no return value set and no default panics");
    cover("called");
    std::mem::forget(m);
}
one!("c09_nodef", nodef());

// ---- C10 -------------------------------------------------------------------
/// A reference to a constant: always the same place, the same value
fn const_ref<S: Shape>(k: usize) {
    must("called");
    let v = any_u32("v");
    let mut o = S::new();
    S::expect(&mut o, &spec(T::Unset, M::ANY, R::Const(v)), None);
    for _ in 0..k {
        let (a, b) = (any_u32("a"), any_u32("b"));
        check(same(&call::<S>(&mut o, a, b), Some(v)), "a method that returns a reference yields the constant on every call");
        cover("called");
    }
    check(!panics(|| drop(o)), "nothing to report");
}
/// return_var: what one call writes, the next one sees
fn var<S: Shape>(k: usize) {
    must("called");
    let mut v = any_u32("v");
    let mut o = S::new();
    S::expect(&mut o, &spec(T::Unset, M::ANY, R::Var(v)), None);
    for _ in 0..k {
        let n = any_u32("n");
        let (a, b) = (any_u32("a"), any_u32("b"));
        if any_bool("write") {
            check(S::call_set(&mut o, a, b, n) == v, "return_var yields the value as it was last left");
            v = n;
        } else {
            check(S::call(&mut o, a, b) == v, "return_var yields the value as it was last left");
        }
        cover("called");
    }
    check(!panics(|| drop(o)), "nothing to report");
}
/// Two return_var expectations keep separate values
fn vars<S: Shape>(k: usize) {
    must("first");
    must("second");
    let mut v = [any_u32("v0"), any_u32("v1")];
    let mut o = S::new();
    S::expect(&mut o, &spec(T::Unset, M::b(MK::Withf, 0), R::Var(v[0])), None);
    S::expect(&mut o, &spec(T::Unset, M::ANY, R::Var(v[1])), None);
    for _ in 0..k {
        let (n, b) = (any_u32("n"), any_u32("b"));
        let i = if b == 0 { 0 } else { 1 };
        check(S::call_set(&mut o, 0, b, n) == v[i], "each return_var expectation keeps its own value");
        v[i] = n;
        cover(if b == 0 { "first" } else { "second" });
    }
    std::mem::forget(o);
}
/// returning: each call computes its value anew, and the caller may overwrite it
fn mut_returning<S: Shape>(k: usize) {
    must("called");
    let v = any_u32("v");
    let mut o = S::new();
    S::expect(&mut o, &spec(T::Unset, M::ANY, if any_bool("st") { R::RetSt(v) } else { R::Ret(v) }), None);
    for i in 0..k {
        let (a, b) = (any_u32("a"), any_u32("b"));
        check(S::call_set(&mut o, a, b, any_u32("n")) == f(v, a, b, i as u32), "a closure computes each call's value anew");
        cover("called");
    }
    check(!panics(|| drop(o)), "nothing to report");
}
each!(refs, "c10_const", const_ref(3));
each!(muts, "c10_var", var(3));
each!(muts, "c10_vars", vars(3));
each!(muts, "c10_returning", mut_returning(3));
each!(refs, "c10d_const", const_ref(8));
each!(muts, "c10d_var", var(6));
each!(muts, "c10d_vars", vars(5));
each!(muts, "c10d_returning", mut_returning(6));
/// The addresses of what is returned
fn places() {
    must("called");
    let mut m = MockRefR::new();
    let (v, w) = (any_u32("v"), any_u32("w"));
    m.expect_foo().withf(|a, _| *a == 0).return_const(v);
    m.expect_foo().return_const(w);
    m.expect_bar().return_var(v);
    m.expect_strr().return_const(String::from("hello"));
    m.expect_sli().return_const(vec![v, w]);
    m.expect_dy().return_const(Box::new(v) as Box<dyn Val>);
    m.expect_gen::<u32>().return_const(v);
    m.expect_gen::<P2>().return_const(w);
    let p = m.foo(0, 1) as *const u32;
    let q = m.foo(any_in(1, u32::MAX, "a"), 1) as *const u32;
    check(m.foo(0, any_u32("b")) as *const u32 == p, "a constant reference always refers to the same place");
    check(p != q, "different expectations own different places");
    check(unsafe { *p == v && *q == w }, "a returned reference stays valid while the mock lives");
    let x = m.bar(1, 2) as *mut u32;
    check(m.bar(any_u32("c"), 2) as *mut u32 == x, "return_var always refers to the same place");
    check(m.strr(1, 2) == "hello" && m.strr(1, 2).as_ptr() == m.strr(3, 4).as_ptr(), "a constant reference always refers to the same place");
    check(m.sli(1, 2).len() == 2 && m.sli(1, 2)[0] == v && m.sli(1, 2)[1] == w && m.sli(1, 2).as_ptr() == m.sli(2, 3).as_ptr(), "a constant reference always refers to the same place");
    check(m.dy(1, 2).val() == v, "a method that returns a reference yields the constant on every call");
    check(*m.gen::<u32>(1, 2) == v && *m.gen::<P2>(P2(1), 2) == w, "each type has its own value");
    cover("called");
}
one!("c10_places", places());
/// References into Deref targets and optional references
mock! { pub Der {
    fn s(&self) -> &str;
    fn p(&self) -> &Path;
    fn o(&self) -> &OsStr;
    fn c(&self) -> &CStr;
    fn v(&self) -> &[u16];
    fn st(a: u32) -> &'static u32;
    fn opt(&self) -> Option<&'static u32>;
} }
fn deref() {
    must("called");
    let mut m = MockDer::new();
    let (v, i) = ([any_u16("v0"), any_u16("v1")], any_in(0, 1, "i") as usize);
    m.expect_s().return_const(String::from("s"));
    m.expect_p().return_const(std::path::PathBuf::from("/x"));
    m.expect_o().return_const(std::ffi::OsString::from("o"));
    m.expect_c().return_const(std::ffi::CString::new("c").unwrap());
    m.expect_v().return_const(v.to_vec());
    check(m.s() == "s" && m.p().as_os_str() == "/x" && m.o() == "o" && m.c().to_bytes() == b"c", "a reference to an owned value's target has the value's contents");
    check(m.v().len() == 2 && m.v()[i] == v[i], "a slice has the elements of the vector");
    static X: u32 = 17;
    let ctx = MockDer::st_context();
    ctx.expect().return_const(&X);
    check(MockDer::st(3) as *const u32 == &X as *const u32, "a static reference is passed on unchanged");
    m.expect_opt().return_const(Some(&X));
    check(m.opt().unwrap() as *const u32 == &X as *const u32, "a static reference is passed on unchanged");
    cover("called");
}
one!("c10_deref", deref());

// ---- C07: nested calls ----------------------------------------------------------
mock! { pub Nest {
    pub fn foo(&self, a: u32) -> u32;
    pub fn bar(&self, a: u32) -> u32;
    pub fn gen<X: 'static + std::fmt::Debug>(&self, a: X) -> u32;
    pub fn stat(a: u32) -> u32;
    pub fn sbar(a: u32) -> u32;
} }
/// A return closure calls the mock itself: another expectation of the method, another
/// method, another choice of types, a static function
fn nested() {
    must("nested");
    let (x, v) = (any_u32("x"), any_u32("v"));
    let m: &'static mut MockNest = Box::leak(Box::new(MockNest::new()));
    let p = m as *mut MockNest as usize;
    let me = move || unsafe { &*(p as *const MockNest) };
    let (c1, c2) = (MockNest::stat_context(), MockNest::sbar_context());
    let inner = choose(5, "inner");
    let again = move |y: u32| match inner { 0 => me().foo(y), 1 => me().bar(y), 2 => me().gen(P2(y)), 3 => MockNest::sbar(y), _ => me().gen(y) };
    let outer = choose(4, "outer");
    // set in either order
    let outer_first = any_bool("outer first");
    for k in 0..2 {
        if outer_first == (k == 0) {
            match outer {
                0 => { m.expect_foo().times(1).withf(|a| *a != 2).returning(move |a| again(2) ^ a); }
                1 => { m.expect_bar().times(1).withf(|a| *a != 2).returning(move |a| again(2) ^ a); }
                2 => { m.expect_gen::<u32>().times(1).withf(|a| *a != 2).returning(move |a| again(2) ^ a); }
                _ => { c1.expect().times(1).returning(move |a| again(2) ^ a); }
            }
        } else {
            match inner {
                0 => { m.expect_foo().times(1).withf(move |a| *a == 2).returning(move |a| a.wrapping_add(v)); }
                1 => { m.expect_bar().times(1).withf(|a| *a == 2).returning(move |a| a.wrapping_add(v)); }
                2 => { m.expect_gen::<P2>().times(1).returning(move |a| a.0.wrapping_add(v)); }
                3 => { c2.expect().times(1).returning(move |a| a.wrapping_add(v)); }
                _ => { m.expect_gen::<u32>().times(1).withf(|a| *a == 2).returning(move |a| a.wrapping_add(v)); }
            }
        }
    }
    assume(x != 2);
    let r = match outer { 0 => me().foo(x), 1 => me().bar(x), 2 => me().gen(x), _ => MockNest::stat(x) };
    check(r == 2u32.wrapping_add(v) ^ x, "a return closure may call the mock again");
    check(!panics(|| drop((c1, c2))), "nested calls are counted");
    check(!panics(|| drop(unsafe { Box::from_raw(p as *mut MockNest) })), "nested calls are counted");
    cover("nested");
}
one!("c07_nested", nested());

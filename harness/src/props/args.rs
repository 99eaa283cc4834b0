//! Methods with many arguments of one type: C06 (matchers), C07 (closures)
use super::util::*;
use mockall::mock;
use mockall::predicate::{always, eq, ne};
use std::fmt::Debug;

mock! { pub Wide {
    pub fn foo(&self, a0: u32, a1: u32, a2: u32, a3: u32, a4: u32, a5: u32, a6: u32, a7: u32, a8: u32, a9: u32, aa: u32, ab: u32, ac: u32, ad: u32) -> u32;
    pub fn st(a0: u32, a1: u32, a2: u32, a3: u32, a4: u32, a5: u32, a6: u32, a7: u32, a8: u32, a9: u32, aa: u32, ab: u32, ac: u32, ad: u32) -> u32;
    pub fn rf(&self, a0: u32, a1: u32, a2: u32, a3: u32, a4: u32, a5: u32, a6: u32, a7: u32, a8: u32, a9: u32, aa: u32, ab: u32, ac: u32, ad: u32) -> &u32;
    pub fn mu(&mut self, a0: u32, a1: u32, a2: u32, a3: u32, a4: u32, a5: u32, a6: u32, a7: u32, a8: u32, a9: u32, aa: u32, ab: u32, ac: u32, ad: u32) -> &mut u32;
    pub fn gen<X: Debug + 'static, Y: Debug + 'static>(&self, a0: X, a1: Y, a2: X, a3: Y, a4: u32, a5: u32, a6: u32, a7: u32, a8: u32, a9: u32, aa: u32, ab: X, ac: Y, ad: u32) -> u32;
    pub fn by(&mut self, a0: &u32, a1: &mut u32, a2: &u32, a3: &mut u32, a4: &u32, a5: &u32, a6: &u32, a7: &u32, a8: &u32, a9: &u32, aa: &u32, ab: &u32, ac: &mut u32, ad: &u32) -> u32;
} }
type W = [u32; 14];
fn any_wide(n: &str) -> W { [any_u32(n), any_u32(n), any_u32(n), any_u32(n), any_u32(n), any_u32(n), any_u32(n), any_u32(n), any_u32(n), any_u32(n), any_u32(n), any_u32(n), any_u32(n), any_u32(n)] }
/// All positions but those of the mask must be equal
fn eqw(x: &W, y: &W, free: usize) -> bool {
    let mut r = true;
    for i in 0..14 { r &= i == free || x[i] == y[i]; }
    r
}
macro_rules! call { ([$($f:tt)*], $a:ident) => { $($f)*($a[0], $a[1], $a[2], $a[3], $a[4], $a[5], $a[6], $a[7], $a[8], $a[9], $a[10], $a[11], $a[12], $a[13]) }; }
macro_rules! calld { ($f:tt, $a:ident) => { *call!($f, $a) }; }
macro_rules! set {
    (with $e:expr, $k:ident, $free:ident) => {{
        let mut e = $e;
        // One position may take anything but one value
        match $free {
            0 => { e.with(ne($k[0]), eq($k[1]), eq($k[2]), eq($k[3]), eq($k[4]), eq($k[5]), eq($k[6]), eq($k[7]), eq($k[8]), eq($k[9]), eq($k[10]), eq($k[11]), eq($k[12]), eq($k[13])); }
            9 => { e.with(eq($k[0]), eq($k[1]), eq($k[2]), eq($k[3]), eq($k[4]), eq($k[5]), eq($k[6]), eq($k[7]), eq($k[8]), ne($k[9]), eq($k[10]), eq($k[11]), eq($k[12]), eq($k[13])); }
            12 => { e.with(eq($k[0]), eq($k[1]), eq($k[2]), eq($k[3]), eq($k[4]), eq($k[5]), eq($k[6]), eq($k[7]), eq($k[8]), eq($k[9]), eq($k[10]), eq($k[11]), ne($k[12]), eq($k[13])); }
            13 => { e.with(always(), always(), always(), always(), always(), always(), always(), always(), always(), always(), always(), always(), always(), ne($k[13])); }
            _ => { e.with(eq($k[0]), eq($k[1]), eq($k[2]), eq($k[3]), eq($k[4]), eq($k[5]), eq($k[6]), eq($k[7]), eq($k[8]), eq($k[9]), eq($k[10]), eq($k[11]), eq($k[12]), eq($k[13])); }
        }
        e
    }};
    (withf $e:expr, $k:ident, $free:ident) => {{
        let mut e = $e;
        e.withf(move |a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, aa, ab, ac, ad| wanted(&[*a0, *a1, *a2, *a3, *a4, *a5, *a6, *a7, *a8, *a9, *aa, *ab, *ac, *ad], &$k, $free));
        e
    }};
    (withf_st $e:expr, $k:ident, $free:ident) => {{
        let mut e = $e;
        e.withf_st(move |a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, aa, ab, ac, ad| wanted(&[*a0, *a1, *a2, *a3, *a4, *a5, *a6, *a7, *a8, *a9, *aa, *ab, *ac, *ad], &$k, $free));
        e
    }};
}
fn wanted(a: &W, k: &W, free: usize) -> bool {
    match free { 13 => a[13] != k[13], 0 | 9 | 12 => eqw(a, k, free) & (a[free] != k[free]), _ => eqw(a, k, 99) }
}
macro_rules! wide_match { ($name:ident $how:ident) => {
    fn $name(form: u32) {
        must("match");
        must("mismatch");
        let (k, a) = (any_wide("k"), any_wide("a"));
        let free = match choose(5, "free") { 0 => 0usize, 1 => 9, 2 => 12, 3 => 13, _ => 99 };
        let mut m = MockWide::new();
        let c = MockWide::st_context();
        let r = match form {
            0 => { set!($how m.expect_foo(), k, free).return_const(1u32); catch(|| call!([m.foo], a)) }
            1 => { set!($how c.expect(), k, free).return_const(1u32); catch(|| call!([MockWide::st], a)) }
            2 => { set!($how m.expect_rf(), k, free).return_const(1u32); catch(|| calld!([m.rf], a)) }
            3 => { set!($how m.expect_mu(), k, free).return_var(1u32); catch(|| calld!([m.mu], a)) }
            4 => { set!($how m.expect_gen::<u32, u32>(), k, free).return_const(1u32); catch(|| call!([m.gen], a)) }
            _ => {
                set!($how m.expect_by(), k, free).return_const(1u32);
                let (mut x, mut y, mut z) = (a[1], a[3], a[12]);
                catch(|| m.by(&a[0], &mut x, &a[2], &mut y, &a[4], &a[5], &a[6], &a[7], &a[8], &a[9], &a[10], &a[11], &mut z, &a[13]))
            }
        };
        let want = wanted(&a, &k, free);
        check(r.is_ok() == want, "every argument position is matched against its own predicate");
        cover(if want { "match" } else { "mismatch" });
        std::mem::forget((m, c));
    }
}; }
wide_match!(wide_with with);
wide_match!(wide_withf withf);
wide_match!(wide_withf_st withf_st);
one!("c06_wide_with", wide_with(0));
one!("c06_wide_with_static", wide_with(1));
one!("c06_wide_with_ref", wide_with(2));
one!("c06_wide_with_mut", wide_with(3));
one!("c06_wide_with_generic", wide_with(4));
one!("c06_wide_with_refs", wide_with(5));
one!("c06_wide_withf", wide_withf(0));
one!("c06_wide_withf_static", wide_withf(1));
one!("c06_wide_withf_ref", wide_withf(2));
one!("c06_wide_withf_mut", wide_withf(3));
one!("c06_wide_withf_generic", wide_withf(4));
one!("c06_wide_withf_refs", wide_withf(5));
one!("c06_wide_withf_st", wide_withf_st(0));
one!("c06_wide_withf_st_static", wide_withf_st(1));
one!("c06_wide_withf_st_mut", wide_withf_st(3));

/// The closure gets all arguments in their places
fn wide_args(form: u32) {
    must("called");
    let a = any_wide("a");
    let how = choose(4, "setting");
    let mut m = MockWide::new();
    let c = MockWide::st_context();
    let seen = move |b: W| {
        check(eqw(&a, &b, 99), "the closure receives the caller's arguments, in order");
        cover("called");
        b[0] ^ b[13].rotate_left(5)
    };
    macro_rules! ret { ($e:expr, $($t:tt)*) => {{
        let mut e = $e;
        match how {
            0 => { e.returning(move |a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, aa, ab, ac, ad| seen([$($t)* a0, $($t)* a1, $($t)* a2, $($t)* a3, $($t)* a4, $($t)* a5, $($t)* a6, $($t)* a7, $($t)* a8, $($t)* a9, $($t)* aa, $($t)* ab, $($t)* ac, $($t)* ad])); }
            1 => { e.returning_st(move |a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, aa, ab, ac, ad| seen([$($t)* a0, $($t)* a1, $($t)* a2, $($t)* a3, $($t)* a4, $($t)* a5, $($t)* a6, $($t)* a7, $($t)* a8, $($t)* a9, $($t)* aa, $($t)* ab, $($t)* ac, $($t)* ad])); }
            2 => { e.return_once(move |a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, aa, ab, ac, ad| seen([$($t)* a0, $($t)* a1, $($t)* a2, $($t)* a3, $($t)* a4, $($t)* a5, $($t)* a6, $($t)* a7, $($t)* a8, $($t)* a9, $($t)* aa, $($t)* ab, $($t)* ac, $($t)* ad])); }
            _ => { e.return_once_st(move |a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, aa, ab, ac, ad| seen([$($t)* a0, $($t)* a1, $($t)* a2, $($t)* a3, $($t)* a4, $($t)* a5, $($t)* a6, $($t)* a7, $($t)* a8, $($t)* a9, $($t)* aa, $($t)* ab, $($t)* ac, $($t)* ad])); }
        }
    }}; }
    let r = match form {
        0 => { ret!(m.expect_foo(),); call!([m.foo], a) }
        1 => { ret!(c.expect(),); call!([MockWide::st], a) }
        2 => { ret!(m.expect_gen::<u32, u32>(),); call!([m.gen], a) }
        3 => {
            ret!(m.expect_by(), *);
            let (mut x, mut y, mut z) = (a[1], a[3], a[12]);
            m.by(&a[0], &mut x, &a[2], &mut y, &a[4], &a[5], &a[6], &a[7], &a[8], &a[9], &a[10], &a[11], &mut z, &a[13])
        }
        _ => {
            let mut e = m.expect_mu();
            if how == 0 { e.returning(move |a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, aa, ab, ac, ad| seen([a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, aa, ab, ac, ad])); }
            else { e.returning_st(move |a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, aa, ab, ac, ad| seen([a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, aa, ab, ac, ad])); }
            calld!([m.mu], a)
        }
    };
    check(r == a[0] ^ a[13].rotate_left(5), "the caller receives the closure's value");
}
one!("c07_wide", wide_args(0));
one!("c07_wide_static", wide_args(1));
one!("c07_wide_generic", wide_args(2));
one!("c07_wide_refs", wide_args(3));
one!("c07_wide_mut", wide_args(4));

// ---- closures as #[concretize]d arguments ------------------------------------------------------------------
mock! { pub CloC {
    #[mockall::concretize]
    pub fn once_more<F: FnMut(&mut u32) -> u32 + 'static>(&self, f: F, b: u32) -> u32;
    #[mockall::concretize]
    pub fn plain<F>(&self, a: u32, f: F) -> u32 where F: Fn(u32) -> u32 + 'static;
    #[mockall::concretize]
    pub fn stat<F: FnMut(u32) -> u32 + 'static, G: Fn(u32) -> u32 + 'static>(f: F, g: G) -> u32;
    #[mockall::concretize]
    pub fn slices<X: crate::shapes::Num + 'static>(&self, a: &[X], b: &[X]) -> u32;
} }
/// The closure of the caller runs as often as the return closure calls it, with what it gives, and keeps its state
fn closure_args(form: u32) {
    must("called");
    let (a, b, v) = (any_u32("a"), any_u32("b"), any_u32("v"));
    let mut m = MockCloC::new();
    let c = MockCloC::stat_context();
    let state = std::rc::Rc::new(std::cell::Cell::new(a));
    let s2 = state.clone();
    let k = any_u32("k");
    let hit = match form {
        0 => {
            m.expect_once_more().withf(move |_, y| *y == k).returning(move |f, y| { let (mut z, mut w) = (v, y); f(&mut z).wrapping_add(f(&mut w)) ^ z.rotate_left(7) ^ w.rotate_left(9) });
            let r = catch(|| m.once_more(move |p| { s2.set(s2.get().wrapping_add(*p)); *p ^= 5; s2.get() }, b));
            let (s, t) = (a.wrapping_add(v), a.wrapping_add(v).wrapping_add(b));
            check(r.is_ok() == (b == k), "an expectation matches exactly the arguments that its matcher accepts");
            if let Ok(r) = r { check(r == s.wrapping_add(t) ^ (v ^ 5).rotate_left(7) ^ (b ^ 5).rotate_left(9), "a closure argument reaches the return closure"); check(state.get() == t, "a closure argument keeps its state"); }
            else { check(state.get() == a, "a closure argument does not run otherwise"); }
            b == k
        }
        1 => {
            m.expect_plain().withf(move |x, f| *x == b && f(k) == a.wrapping_add(k)).returning(move |x, f| f(x) ^ f(v));
            let r = catch(|| m.plain(k, move |x| x.wrapping_add(a)));
            check(r.is_ok() == (k == b), "an expectation matches exactly the arguments that its matcher accepts");
            if let Ok(r) = r { check(r == k.wrapping_add(a) ^ v.wrapping_add(a), "a closure argument reaches the return closure"); }
            k == b
        }
        2 => {
            c.expect().withf(move |_, g| g(b) == k).returning(move |f, g| f(v) ^ f(b).rotate_left(3) ^ g(v).rotate_left(5));
            let r = catch(|| MockCloC::stat(move |p| { s2.set(s2.get().wrapping_mul(3).wrapping_add(p)); s2.get() }, move |q| q ^ a));
            let s = a.wrapping_mul(3).wrapping_add(v);
            let t = s.wrapping_mul(3).wrapping_add(b);
            check(r.is_ok() == (b ^ a == k), "an expectation matches exactly the arguments that its matcher accepts");
            if let Ok(r) = r { check(r == s ^ t.rotate_left(3) ^ (v ^ a).rotate_left(5), "a closure argument reaches the return closure"); check(state.get() == t, "a closure argument keeps its state"); }
            b ^ a == k
        }
        _ => {
            let n = choose(4, "n") as usize;
            let x = [a, b, v];
            m.expect_slices().withf(move |p, q| p.len() == n && q.len() == 3 && q[1].num() == k && (n == 0 || p[n - 1].num() == x[n - 1])).returning(move |p, q| {
                let mut r = 0u32;
                for i in 0..p.len() { r = r.rotate_left(5) ^ p[i].num(); }
                for i in 0..q.len() { r = r.rotate_left(5) ^ q[i].num(); }
                r
            });
            let r = catch(|| m.slices(&x[..n], &x));
            check(r.is_ok() == (b == k), "an expectation matches exactly the arguments that its matcher accepts");
            if let Ok(r) = r {
                let mut w = 0u32;
                for i in 0..n { w = w.rotate_left(5) ^ x[i]; }
                for i in 0..3 { w = w.rotate_left(5) ^ x[i]; }
                check(r == w, "the elements of a slice argument reach the return closure in order");
            }
            b == k
        }
    };
    if hit { cover("called"); }
    std::mem::forget((m, c));
}
one!("c07_closure_args", closure_args(0));
one!("c07_closure_args_where", closure_args(1));
one!("c07_closure_args_static", closure_args(2));
one!("c07_slice_args", closure_args(3));
one!("c06_closure_args", closure_args(0));
one!("c06_closure_args_where", closure_args(1));
one!("c06_closure_args_static", closure_args(2));
one!("c06_slice_args", closure_args(3));

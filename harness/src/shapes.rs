//! One uniform interface over the many kinds of mockable item.
//!
//! Every shape offers the same operations (set an expectation from a `Spec`,
//! call the mocked item with two integers, checkpoint) so that one property
//! driver runs over all of them.  The `Spec` is turned into calls of the real
//! builder methods of the generated code; for statics every builder method is
//! called on the guard that `Context::expect` returns.
#![allow(clippy::all, unused_mut, unused_variables, dead_code, unused_must_use)]
use mockall::*;
use std::fmt::Debug;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

/// The forms of the argument of `times`
#[derive(Clone, Copy, Debug)]
pub enum T { Unset, N(usize), Once, Never, Range(usize, usize), From(usize), To(usize), Incl(usize, usize), ToIncl(usize), Full }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum MK { None, With, Withf, WithfSt }
/// The matcher: each used position must equal its key
#[derive(Clone, Copy, Debug)]
pub struct M { pub k: MK, pub ua: bool, pub ub: bool, pub a: u32, pub b: u32 }
impl M {
    pub const ANY: M = M { k: MK::None, ua: false, ub: false, a: 0, b: 0 };
    pub fn a(k: MK, a: u32) -> M { M { k, ua: true, ub: false, a, b: 0 } }
    pub fn b(k: MK, b: u32) -> M { M { k, ua: false, ub: true, a: 0, b } }
    pub fn ab(k: MK, a: u32, b: u32) -> M { M { k, ua: true, ub: true, a, b } }
    pub fn hits(&self, a: u32, b: u32) -> bool {
        self.k == MK::None || ((!self.ua || a == self.a) & (!self.ub || b == self.b))
    }
}
/// How the return value is supplied
#[derive(Clone, Copy, Debug)]
pub enum R { None, Const(u32), ConstSt(u32), Ret(u32), RetSt(u32), Once(u32), OnceSt(u32), Var(u32) }
#[derive(Clone, Copy, Debug)]
pub struct Spec {
    pub t: T, pub m: M, pub r: R,
    /// Settings made before the ones above, which must replace them
    pub pre: Option<(T, M, R)>,
    /// The order of the settings: an index into ORDERS
    pub ord: u8,
}
pub fn spec(t: T, m: M, r: R) -> Spec { Spec { t, m, r, pre: None, ord: 0 } }
/// 0: times, 1: matcher, 2: return value, 3: in_sequence (never before times)
pub const ORDERS: [[u8; 4]; 12] = [
    [0, 1, 2, 3], [0, 1, 3, 2], [0, 3, 1, 2], [1, 0, 2, 3], [1, 0, 3, 2], [1, 2, 0, 3],
    [0, 2, 1, 3], [0, 2, 3, 1], [0, 3, 2, 1], [2, 0, 1, 3], [2, 0, 3, 1], [2, 1, 0, 3],
];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Val, Ref, Mut }

pub static HITS: AtomicUsize = AtomicUsize::new(0);
static TRIP_CLOSURES: AtomicBool = AtomicBool::new(false);
static TRIP_MATCHERS: AtomicBool = AtomicBool::new(false);
/// Make all return-value closures panic, or stop it
pub fn trip_closures(on: bool) { TRIP_CLOSURES.store(on, Ordering::SeqCst) }
/// Make all matcher functions panic, or stop it
pub fn trip_matchers(on: bool) { TRIP_MATCHERS.store(on, Ordering::SeqCst) }
fn mtrip() { if TRIP_MATCHERS.load(Ordering::SeqCst) { panic!("trip"); } }
/// How often any return-value closure has run
pub fn hits() -> usize { HITS.load(Ordering::SeqCst) }
/// What a `returning` closure computes on its n-th call
pub fn f(v: u32, a: u32, b: u32, n: u32) -> u32 { v.wrapping_add(a ^ b.rotate_left(8)).wrapping_add(n) }
fn hit(v: u32, a: u32, b: u32, n: &mut u32) -> u32 {
    HITS.fetch_add(1, Ordering::SeqCst);
    if TRIP_CLOSURES.load(Ordering::SeqCst) { panic!("trip"); }
    let r = f(v, a, b, *n);
    *n += 1;
    r
}

/// Owned by every closure and matcher function: counts how many of them exist
pub struct Tok(Box<u32>);
static TOKS: AtomicUsize = AtomicUsize::new(0);
pub fn toks() -> usize { TOKS.load(Ordering::SeqCst) }
impl Tok {
    pub fn new() -> Tok { TOKS.fetch_add(1, Ordering::SeqCst); Tok(Box::new(77)) }
    /// An invalid memory access if it was freed already
    pub fn touch(&self) { if *self.0 != 77 { std::process::abort() } }
}
impl Drop for Tok { fn drop(&mut self) { self.touch(); TOKS.fetch_sub(1, Ordering::SeqCst); } }

pub trait Shape {
    type Owner;
    const KIND: Kind;
    const STATIC: bool;
    /// Does the expectation have a `with` method?
    const WITH: bool;
    /// Can return_const be used?
    const CONST: bool;
    fn new() -> Self::Owner;
    fn expect(o: &mut Self::Owner, s: &Spec, seq: Option<&mut Sequence>);
    fn call(o: &mut Self::Owner, a: u32, b: u32) -> u32;
    /// Checkpoint the mock object, or this function's Context
    fn checkpoint(o: &mut Self::Owner);
    /// Only for statics: drop this function's Context
    fn release(_o: &mut Self::Owner) { unreachable!() }
    /// Only for shapes that return &mut: call and overwrite the returned place
    fn call_set(_o: &mut Self::Owner, _a: u32, _b: u32, _new: u32) -> u32 { unreachable!() }
}

/// A type that does not implement Debug
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct P(pub u32);
/// A Clone type that is not Copy, living on the heap
#[derive(Clone, PartialEq)]
pub struct B(pub Box<u32>);
impl Debug for B { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("B") } }

macro_rules! times {
    ($e:ident, $t:expr) => {
        match $t {
            T::Unset => {}
            T::N(n) => { $e.times(n); }
            T::Once => { $e.once(); }
            T::Never => { $e.never(); }
            T::Range(a, b) => { $e.times(a..b); }
            T::From(a) => { $e.times(a..); }
            T::To(b) => { $e.times(..b); }
            T::Incl(a, b) => { $e.times(a..=b); }
            T::ToIncl(b) => { $e.times(..=b); }
            T::Full => { $e.times(..); }
        }
    };
}
macro_rules! with {
    (no, $e:ident, $m:ident, $pa:expr, $pb:expr) => { unreachable!() };
    (yes, $e:ident, $m:ident, $pa:expr, $pb:expr) => {
        match ($m.ua, $m.ub) {
            (true, true) => { $e.with($pa($m.a), $pb($m.b)); }
            (true, false) => { $e.with($pa($m.a), predicate::always()); }
            (false, true) => { $e.with(predicate::always(), $pb($m.b)); }
            (false, false) => { $e.with(predicate::always(), predicate::always()); }
        }
    };
}
macro_rules! ret {
    (Val, $e:ident, $r:expr, [$($p:ident)*] ($ca:expr, $cb:expr) |$v:ident| $rv:expr) => {
        match $r {
            R::None => {}
            R::Const($v) => { $e.return_const($rv); }
            R::ConstSt($v) => { $e.return_const_st($rv); }
            R::Ret(k) => { let (mut n, tk) = (0, Tok::new()); $e.returning(move |$($p),*| { tk.touch(); let $v = hit(k, $ca, $cb, &mut n); $rv }); }
            R::RetSt(k) => { let (mut n, tk) = (0, Tok::new()); let rc = std::rc::Rc::new(k); $e.returning_st(move |$($p),*| { tk.touch(); let $v = hit(*rc, $ca, $cb, &mut n); $rv }); }
            R::Once(k) => { let (mut n, tk) = (0, Tok::new()); let bx = Box::new(k); $e.return_once(move |$($p),*| { tk.touch(); let $v = hit(*bx, $ca, $cb, &mut n); drop(bx); $rv }); }
            R::OnceSt(k) => { let (mut n, tk) = (0, Tok::new()); let rc = std::rc::Rc::new(k); $e.return_once_st(move |$($p),*| { tk.touch(); let $v = hit(*rc, $ca, $cb, &mut n); drop(rc); $rv }); }
            R::Var(_) => unreachable!(),
        }
    };
    // like Val, but the output type cannot be made by return_const
    (NoConst, $e:ident, $r:expr, [$($p:ident)*] ($ca:expr, $cb:expr) |$v:ident| $rv:expr) => {
        match $r {
            R::None => {}
            R::Const(_) | R::ConstSt(_) | R::Var(_) => unreachable!(),
            R::Ret(k) => { let (mut n, tk) = (0, Tok::new()); $e.returning(move |$($p),*| { tk.touch(); let $v = hit(k, $ca, $cb, &mut n); $rv }); }
            R::RetSt(k) => { let (mut n, tk) = (0, Tok::new()); let rc = std::rc::Rc::new(k); $e.returning_st(move |$($p),*| { tk.touch(); let $v = hit(*rc, $ca, $cb, &mut n); $rv }); }
            R::Once(k) => { let (mut n, tk) = (0, Tok::new()); let bx = Box::new(k); $e.return_once(move |$($p),*| { tk.touch(); let $v = hit(*bx, $ca, $cb, &mut n); drop(bx); $rv }); }
            R::OnceSt(k) => { let (mut n, tk) = (0, Tok::new()); let rc = std::rc::Rc::new(k); $e.return_once_st(move |$($p),*| { tk.touch(); let $v = hit(*rc, $ca, $cb, &mut n); drop(rc); $rv }); }
        }
    };
    (Ref, $e:ident, $r:expr, [$($p:ident)*] ($ca:expr, $cb:expr) |$v:ident| $rv:expr) => {
        match $r {
            R::None => {}
            R::Const($v) => { $e.return_const($rv); }
            _ => unreachable!(),
        }
    };
    (Mut, $e:ident, $r:expr, [$($p:ident)*] ($ca:expr, $cb:expr) |$v:ident| $rv:expr) => {
        match $r {
            R::None => {}
            R::Var($v) => { $e.return_var($rv); }
            R::Ret(k) => { let (mut n, tk) = (0, Tok::new()); $e.returning(move |$($p),*| { tk.touch(); let $v = hit(k, $ca, $cb, &mut n); $rv }); }
            R::RetSt(k) => { let (mut n, tk) = (0, Tok::new()); let rc = std::rc::Rc::new(k); $e.returning_st(move |$($p),*| { tk.touch(); let $v = hit(*rc, $ca, $cb, &mut n); $rv }); }
            _ => unreachable!(),
        }
    };
}
macro_rules! shape {
    ($name:ident, $O:ty, $kind:ident, $ret:ident, $static:expr, $with:ident, new $new:expr,
     expect |$o:ident| $exp:expr,
     call |$o2:ident, $a:ident, $b:ident| $call:expr,
     cp |$o3:ident| $cp:expr,
     args [$($p:ident)*] ($ca:expr, $cb:expr),
     wargs [$($q:ident)*] ($qa:expr, $qb:expr),
     preds $pa:expr, $pb:expr,
     out |$v:ident| $rv:expr
     $(, set |$o4:ident, $a4:ident, $b4:ident, $n4:ident| $set:expr)?) => {
        pub struct $name;
        impl Shape for $name {
            type Owner = $O;
            const KIND: Kind = Kind::$kind;
            const STATIC: bool = $static;
            const WITH: bool = with_const!($with);
            const CONST: bool = const_const!($ret);
            fn new() -> $O { $new }
            fn expect($o: &mut $O, s: &Spec, seq: Option<&mut Sequence>) {
                let mut e = $exp;
                build!(e, s, seq, $ret, $with, [$($p)*] ($ca, $cb), [$($q)*] ($qa, $qb), $pa, $pb, |$v| $rv);
            }
            fn call($o2: &mut $O, $a: u32, $b: u32) -> u32 { $call }
            fn checkpoint($o3: &mut $O) { $cp }
            $(fn call_set($o4: &mut $O, $a4: u32, $b4: u32, $n4: u32) -> u32 { $set })?
        }
    };
}
macro_rules! build {
    ($e:ident, $s:ident, $seq:ident, $ret:ident, $with:ident, [$($p:ident)*] ($ca:expr, $cb:expr), [$($q:ident)*] ($qa:expr, $qb:expr), $pa:expr, $pb:expr, |$v:ident| $rv:expr) => {
        let mut sq = $seq;
        let n = if $s.pre.is_some() { 2 } else { 1 };
        for k in 0..n {
            let (t, m, r) = match $s.pre { Some(x) if k == 0 => x, _ => ($s.t, $s.m, $s.r) };
            for step in ORDERS[$s.ord as usize] { match step {
                0 => { times!($e, t); }
                1 => match m.k {
                    MK::None => {}
                    MK::With => { with!($with, $e, m, $pa, $pb); }
                    MK::Withf => { let tk = Tok::new(); $e.withf(move |$($q),*| { tk.touch(); mtrip(); (!m.ua || $qa == m.a) & (!m.ub || $qb == m.b) }); }
                    MK::WithfSt => { let tk = Tok::new(); let rc = std::rc::Rc::new(m.a); $e.withf_st(move |$($q),*| { tk.touch(); mtrip(); (!m.ua || $qa == *rc) & (!m.ub || $qb == m.b) }); }
                },
                2 => { ret!($ret, $e, r, [$($p)*] ($ca, $cb) |$v| $rv); }
                _ => if k == n - 1 { if let Some(q) = sq.take() { $e.in_sequence(q); } },
            } }
        }
    };
}
/// The Context objects of some functions; their types have no documented name.
pub struct Cxs(pub Vec<Box<dyn std::any::Any>>);
pub fn cx<C: 'static>(o: &mut Cxs, i: usize, _: fn() -> C) -> &C { o.0[i].downcast_ref().unwrap() }
macro_rules! sshape {
    ($name:ident, $kind:ident, $ret:ident, $with:ident, own [$($own:expr),*] $i:literal $ctx:expr,
     expect |$c:ident| $exp:expr,
     call |$a:ident, $b:ident| $call:expr,
     args [$($p:ident)*] ($ca:expr, $cb:expr),
     wargs [$($q:ident)*] ($qa:expr, $qb:expr),
     preds $pa:expr, $pb:expr,
     out |$v:ident| $rv:expr) => {
        pub struct $name;
        impl Shape for $name {
            type Owner = Cxs;
            const KIND: Kind = Kind::$kind;
            const STATIC: bool = true;
            const WITH: bool = with_const!($with);
            const CONST: bool = const_const!($ret);
            fn new() -> Cxs { Cxs(vec![$(Box::new($own())),*]) }
            fn expect(o: &mut Cxs, s: &Spec, seq: Option<&mut Sequence>) {
                let $c = cx(o, $i, $ctx);
                let mut e = $exp;
                build!(e, s, seq, $ret, $with, [$($p)*] ($ca, $cb), [$($q)*] ($qa, $qb), $pa, $pb, |$v| $rv);
            }
            fn call(_: &mut Cxs, $a: u32, $b: u32) -> u32 { $call }
            fn checkpoint(o: &mut Cxs) { cx(o, $i, $ctx).checkpoint() }
            fn release(o: &mut Cxs) { let b = std::mem::replace(&mut o.0[$i], Box::new(())); drop(b) }
        }
    };
}
macro_rules! const_const { (NoConst) => { false }; (Mut) => { false }; ($x:ident) => { true }; }
macro_rules! with_const { (yes) => { true }; (no) => { false }; }
use predicate::eq;

// ---- inherent methods of mock! -------------------------------------------
mock! { pub Inh {
    pub fn foo(&self, a: u32, b: u32) -> u32;
    pub fn bar(&self, a: u32, b: u32) -> u32;
} }
shape!(Inh, MockInh, Val, Val, false, yes, new MockInh::new(), expect |o| o.expect_foo(), call |o, a, b| o.foo(a, b), cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
shape!(InhBar, MockInh, Val, Val, false, yes, new MockInh::new(), expect |o| o.expect_bar(), call |o, a, b| o.bar(a, b), cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);

// ---- &mut self, arguments without Debug ----------------------------------
mock! { pub MutSelf { fn foo(&mut self, a: P, b: u32) -> P; fn bar(&mut self, a: P, b: u32) -> P; } }
shape!(MutSelf, MockMutSelf, Val, Val, false, yes, new MockMutSelf::new(), expect |o| o.expect_foo(), call |o, a, b| o.foo(P(a), b).0, cp |o| o.checkpoint(),
    args [x y] (x.0, y), wargs [x y] (x.0, *y), preds (|k: u32| predicate::function(move |p: &P| p.0 == k)), eq, out |v| P(v));
shape!(MutSelfBar, MockMutSelf, Val, Val, false, yes, new MockMutSelf::new(), expect |o| o.expect_bar(), call |o, a, b| o.bar(P(a), b).0, cp |o| o.checkpoint(),
    args [x y] (x.0, y), wargs [x y] (x.0, *y), preds (|k: u32| predicate::function(move |p: &P| p.0 == k)), eq, out |v| P(v));

// ---- #[automock] trait ----------------------------------------------------
#[automock]
pub trait Auto { fn foo(&self, a: u32, b: u32) -> u32; fn bar(&self, a: u32, b: u32) -> u32; }
shape!(AutoT, MockAuto, Val, Val, false, yes, new MockAuto::new(), expect |o| o.expect_foo(), call |o, a, b| (o as &dyn Auto).foo(a, b), cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
shape!(AutoTBar, MockAuto, Val, Val, false, yes, new MockAuto::new(), expect |o| o.expect_bar(), call |o, a, b| (o as &dyn Auto).bar(a, b), cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);

// ---- several traits on one mock! struct ------------------------------------
pub trait TrA { fn foo(&self, a: u32, b: u32) -> u32; fn bar(&self, a: u32, b: u32) -> u32; }
pub trait TrB { fn baz(&mut self, a: u32, b: u32) -> u32; }
pub mod inner { pub trait TrC { fn qux(&self, a: u32, b: u32) -> u32; } }
mock! { pub Many {
        pub fn inh(&self, a: u32, b: u32) -> u32;
    }
    impl TrA for Many { fn foo(&self, a: u32, b: u32) -> u32; fn bar(&self, a: u32, b: u32) -> u32; }
    impl TrB for Many { fn baz(&mut self, a: u32, b: u32) -> u32; }
    impl inner::TrC for Many { fn qux(&self, a: u32, b: u32) -> u32; }
}
shape!(ManyFoo, MockMany, Val, Val, false, yes, new MockMany::new(), expect |o| o.expect_foo(), call |o, a, b| TrA::foo(o, a, b), cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
shape!(ManyBar, MockMany, Val, Val, false, yes, new MockMany::new(), expect |o| o.expect_bar(), call |o, a, b| TrA::bar(o, a, b), cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
shape!(ManyBaz, MockMany, Val, Val, false, yes, new MockMany::new(), expect |o| o.expect_baz(), call |o, a, b| TrB::baz(o, a, b), cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
shape!(ManyQux, MockMany, Val, Val, false, yes, new MockMany::new(), expect |o| o.expect_qux(), call |o, a, b| inner::TrC::qux(o, a, b), cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
shape!(ManyInh, MockMany, Val, Val, false, yes, new MockMany::new(), expect |o| o.expect_inh(), call |o, a, b| o.inh(a, b), cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);

// ---- static methods --------------------------------------------------------
mock! { pub Stat { pub fn foo(a: u32, b: u32) -> u32; pub fn bar(a: u32, b: u32) -> u32; } }
sshape!(Stat, Val, Val, yes, own [MockStat::foo_context, MockStat::bar_context] 0 MockStat::foo_context, expect |c| c.expect(), call |a, b| MockStat::foo(a, b),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
sshape!(StatBar, Val, Val, yes, own [MockStat::foo_context, MockStat::bar_context] 1 MockStat::bar_context, expect |c| c.expect(), call |a, b| MockStat::bar(a, b),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);

#[automock]
pub trait AutoStat { fn foo(a: u32, b: P) -> u32; fn bar(a: u32, b: P) -> u32; }
sshape!(AutoS, Val, Val, yes, own [MockAutoStat::foo_context, MockAutoStat::bar_context] 0 MockAutoStat::foo_context, expect |c| c.expect(), call |a, b| <MockAutoStat as AutoStat>::foo(a, P(b)),
    args [x y] (x, y.0), wargs [x y] (*x, y.0), preds eq, (|k: u32| predicate::function(move |p: &P| p.0 == k)), out |v| v);
sshape!(AutoSBar, Val, Val, yes, own [MockAutoStat::foo_context, MockAutoStat::bar_context] 1 MockAutoStat::bar_context, expect |c| c.expect(), call |a, b| <MockAutoStat as AutoStat>::bar(a, P(b)),
    args [x y] (x, y.0), wargs [x y] (*x, y.0), preds eq, (|k: u32| predicate::function(move |p: &P| p.0 == k)), out |v| v);

// ---- module functions -------------------------------------------------------
#[automock]
pub mod modl {
    pub fn foo(_a: u32, _b: u32) -> u32 { unimplemented!() }
    pub fn bar(_a: u32, _b: u32) -> u32 { unimplemented!() }
}
sshape!(Modl, Val, Val, yes, own [mock_modl::foo_context, mock_modl::bar_context] 0 mock_modl::foo_context, expect |c| c.expect(), call |a, b| mock_modl::foo(a, b),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
sshape!(ModlBar, Val, Val, yes, own [mock_modl::foo_context, mock_modl::bar_context] 1 mock_modl::bar_context, expect |c| c.expect(), call |a, b| mock_modl::bar(a, b),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);

// ---- foreign functions -------------------------------------------------------
#[automock]
pub mod ffi {
    extern "C" {
        pub fn mharness_ffi_foo(a: u32, b: u32) -> u32;
        pub fn mharness_ffi_bar(a: u32, b: u32) -> u32;
    }
}
sshape!(Ffi, Val, Val, yes, own [mock_ffi::mharness_ffi_foo_context, mock_ffi::mharness_ffi_bar_context] 0 mock_ffi::mharness_ffi_foo_context, expect |c| c.expect(), call |a, b| unsafe { mock_ffi::mharness_ffi_foo(a, b) },
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
sshape!(FfiBar, Val, Val, yes, own [mock_ffi::mharness_ffi_foo_context, mock_ffi::mharness_ffi_bar_context] 1 mock_ffi::mharness_ffi_bar_context, expect |c| c.expect(), call |a, b| unsafe { mock_ffi::mharness_ffi_bar(a, b) },
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);

// ---- generic methods ----------------------------------------------------------
mock! { pub GenM {
    pub fn foo<X: Debug + 'static>(&self, a: X, b: u32) -> u32;
    pub fn ret<O: 'static>(&self, a: u32, b: u32) -> O;
    pub fn two<X: Debug + 'static, Y: Debug + 'static>(&self, a: X, b: Y) -> u32;
} }
shape!(GenM, MockGenM, Val, Val, false, yes, new MockGenM::new(), expect |o| o.expect_foo::<u32>(), call |o, a, b| o.foo::<u32>(a, b), cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
shape!(GenM16, MockGenM, Val, Val, false, yes, new MockGenM::new(), expect |o| o.expect_foo::<P2>(), call |o, a, b| o.foo::<P2>(P2(a), b), cp |o| o.checkpoint(),
    args [x y] (x.0, y), wargs [x y] (x.0, *y), preds (|k: u32| predicate::function(move |p: &P2| p.0 == k)), eq, out |v| v);
shape!(GenRet, MockGenM, Val, Val, false, yes, new MockGenM::new(), expect |o| o.expect_ret::<u32>(), call |o, a, b| o.ret::<u32>(a, b), cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
shape!(GenRet64, MockGenM, Val, Val, false, yes, new MockGenM::new(), expect |o| o.expect_ret::<u64>(), call |o, a, b| o.ret::<u64>(a, b) as u32, cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v as u64);
shape!(GenTwo, MockGenM, Val, Val, false, yes, new MockGenM::new(), expect |o| o.expect_two::<u32, P2>(), call |o, a, b| o.two::<u32, P2>(a, P2(b)), cp |o| o.checkpoint(),
    args [x y] (x, y.0), wargs [x y] (*x, y.0), preds eq, (|k: u32| predicate::function(move |p: &P2| p.0 == k)), out |v| v);
shape!(GenTwoSwap, MockGenM, Val, Val, false, yes, new MockGenM::new(), expect |o| o.expect_two::<P2, u32>(), call |o, a, b| o.two::<P2, u32>(P2(a), b), cp |o| o.checkpoint(),
    args [x y] (x.0, y), wargs [x y] (x.0, *y), preds (|k: u32| predicate::function(move |p: &P2| p.0 == k)), eq, out |v| v);
/// Debug, one u32
#[derive(Clone, Copy, PartialEq)]
pub struct P2(pub u32);
impl Debug for P2 { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("P2") } }

// ---- generic static methods ----------------------------------------------------
mock! { pub GenS {
    pub fn foo<X: Debug + 'static>(a: X, b: u32) -> u32;
    pub fn bar<O: 'static>(a: u32, b: u32) -> O;
} }
sshape!(GenS, Val, Val, yes, own [MockGenS::foo_context, MockGenS::bar_context] 0 MockGenS::foo_context, expect |c| c.expect::<u32>(), call |a, b| MockGenS::foo::<u32>(a, b),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
sshape!(GenSP, Val, Val, yes, own [MockGenS::foo_context, MockGenS::bar_context] 0 MockGenS::foo_context, expect |c| c.expect::<P2>(), call |a, b| MockGenS::foo::<P2>(P2(a), b),
    args [x y] (x.0, y), wargs [x y] (x.0, *y), preds (|k: u32| predicate::function(move |p: &P2| p.0 == k)), eq, out |v| v);
sshape!(GenSRet, Val, Val, yes, own [MockGenS::foo_context, MockGenS::bar_context] 1 MockGenS::bar_context, expect |c| c.expect::<u32>(), call |a, b| MockGenS::bar::<u32>(a, b),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);

// generic function in a module
#[automock]
pub mod gmod { pub fn foo<X: 'static + std::fmt::Debug>(_a: X, _b: u32) -> u32 { unimplemented!() } }
sshape!(GMod, Val, Val, yes, own [mock_gmod::foo_context] 0 mock_gmod::foo_context, expect |c| c.expect::<u32>(), call |a, b| mock_gmod::foo::<u32>(a, b),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);

sshape!(GModP, Val, Val, yes, own [mock_gmod::foo_context] 0 mock_gmod::foo_context, expect |c| c.expect::<P2>(), call |a, b| mock_gmod::foo::<P2>(P2(a), b),
    args [x y] (x.0, y), wargs [x y] (x.0, *y), preds (|k: u32| predicate::function(move |p: &P2| p.0 == k)), eq, out |v| v);

// ---- generic structs ------------------------------------------------------------
mock! { pub GenStr<X: Debug + Clone + 'static> {
    pub fn foo(&self, a: X, b: u32) -> X;
    pub fn stat(a: X, b: u32) -> X;
    pub fn gm<Y: Debug + 'static>(&self, a: X, b: Y) -> X;
} }
shape!(GStr, MockGenStr<u32>, Val, Val, false, yes, new MockGenStr::<u32>::new(), expect |o| o.expect_foo(), call |o, a, b| o.foo(a, b), cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
shape!(GStrGm, MockGenStr<u32>, Val, Val, false, yes, new MockGenStr::<u32>::new(), expect |o| o.expect_gm::<P2>(), call |o, a, b| o.gm::<P2>(a, P2(b)), cp |o| o.checkpoint(),
    args [x y] (x, y.0), wargs [x y] (*x, y.0), preds eq, (|k: u32| predicate::function(move |p: &P2| p.0 == k)), out |v| v);
sshape!(GStrStat, Val, Val, yes, own [MockGenStr::<u32>::stat_context, MockGenStr::<P2>::stat_context] 0 MockGenStr::<u32>::stat_context, expect |c| c.expect(), call |a, b| MockGenStr::<u32>::stat(a, b),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
sshape!(GStrStatP, Val, Val, yes, own [MockGenStr::<u32>::stat_context, MockGenStr::<P2>::stat_context] 1 MockGenStr::<P2>::stat_context, expect |c| c.expect(), call |a, b| MockGenStr::<P2>::stat(P2(a), b).0,
    args [x y] (x.0, y), wargs [x y] (x.0, *y), preds (|k: u32| predicate::function(move |p: &P2| p.0 == k)), eq, out |v| P2(v));

// ---- generic trait, associated type, supertrait -------------------------------------
#[automock]
pub trait GenTr<X: Debug + 'static> { fn foo(&self, a: X, b: u32) -> X; }
shape!(GTr, MockGenTr<u32>, Val, Val, false, yes, new MockGenTr::<u32>::new(), expect |o| o.expect_foo(), call |o, a, b| GenTr::foo(o, a, b), cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
#[automock(type K = u32; type V = B;)]
pub trait Assoc { type K: Debug + 'static; type V: 'static; fn foo(&self, a: Self::K, b: <Self as Assoc>::K) -> Self::V; fn bar(&mut self, a: &Self::K, b: Option<Self::K>) -> Result<Self::V, Self::K>; }
shape!(AssocT, MockAssoc, Val, Val, false, yes, new MockAssoc::new(), expect |o| o.expect_foo(), call |o, a, b| *o.foo(a, b).0, cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| B(Box::new(v)));
shape!(AssocBar, MockAssoc, Val, NoConst, false, yes, new MockAssoc::new(), expect |o| o.expect_bar(), call |o, a, b| match o.bar(&a, Some(b)) { Ok(v) => *v.0, Err(_) => 0 }, cp |o| o.checkpoint(),
    args [x y] (*x, y.unwrap()), wargs [x y] (*x, y.unwrap()), preds eq, (|k: u32| predicate::function(move |p: &Option<u32>| *p == Some(k))), out |v| Ok(B(Box::new(v))));

// ---- specialized impls ------------------------------------------------------------
pub trait SpT { fn foo(&self, a: u32, b: u32) -> u32; }
mock! { pub Spz<X: 'static> {}
    impl SpT for Spz<u32> { fn foo(&self, a: u32, b: u32) -> u32; }
    impl SpT for Spz<u64> { fn foo(&self, a: u32, b: u32) -> u32; }
}
shape!(SpzU, MockSpz<u32>, Val, Val, false, yes, new MockSpz::<u32>::new(), expect |o| o.expect_foo(), call |o, a, b| SpT::foo(o, a, b), cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);

// ---- returning references -----------------------------------------------------------
mock! { pub RefR {
    pub fn foo(&self, a: u32, b: u32) -> &u32;
    pub fn bar(&mut self, a: u32, b: u32) -> &mut u32;
    pub fn gen<X: Debug + 'static>(&self, a: X, b: u32) -> &u32;
    pub fn genm<X: Debug + 'static>(&mut self, a: X, b: u32) -> &mut u32;
    pub fn dy(&self, a: u32, b: u32) -> &dyn Val;
    pub fn dym(&mut self, a: u32, b: u32) -> &mut dyn Val;
    pub fn strr(&self, a: u32, b: u32) -> &str;
    pub fn sli(&self, a: u32, b: u32) -> &[u32];
    pub fn slim(&mut self, a: u32, b: u32) -> &mut [u32];
    pub fn stat(&self, a: u32, b: u32) -> &'static u32;
} }
pub trait Val: Send + Sync { fn val(&self) -> u32; fn set(&mut self, v: u32); }
impl Val for u32 { fn val(&self) -> u32 { *self } fn set(&mut self, v: u32) { *self = v } }
shape!(RefRet, MockRefR, Ref, Ref, false, yes, new MockRefR::new(), expect |o| o.expect_foo(), call |o, a, b| *o.foo(a, b), cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
shape!(MutRet, MockRefR, Mut, Mut, false, yes, new MockRefR::new(), expect |o| o.expect_bar(), call |o, a, b| *o.bar(a, b), cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v, set |o, a, b, n| { let p = o.bar(a, b); let r = *p; *p = n; r });
shape!(GenRefRet, MockRefR, Ref, Ref, false, yes, new MockRefR::new(), expect |o| o.expect_gen::<u32>(), call |o, a, b| *o.gen::<u32>(a, b), cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
shape!(GenMutRet, MockRefR, Mut, Mut, false, yes, new MockRefR::new(), expect |o| o.expect_genm::<u32>(), call |o, a, b| *o.genm::<u32>(a, b), cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v, set |o, a, b, n| { let p = o.genm::<u32>(a, b); let r = *p; *p = n; r });
shape!(DynRet, MockRefR, Ref, Ref, false, yes, new MockRefR::new(), expect |o| o.expect_dy(), call |o, a, b| o.dy(a, b).val(), cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| Box::new(v) as Box<dyn Val>);
shape!(DynMutRet, MockRefR, Mut, Mut, false, yes, new MockRefR::new(), expect |o| o.expect_dym(), call |o, a, b| o.dym(a, b).val(), cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| Box::new(v) as Box<dyn Val>, set |o, a, b, n| { let p = o.dym(a, b); let r = p.val(); p.set(n); r });
shape!(SliRet, MockRefR, Ref, Ref, false, yes, new MockRefR::new(), expect |o| o.expect_sli(), call |o, a, b| { let s = o.sli(a, b); if s.len() == 2 && s[0] == 7 { s[1] } else { !0 } }, cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| vec![7, v]);
shape!(SliMutRet, MockRefR, Mut, Mut, false, yes, new MockRefR::new(), expect |o| o.expect_slim(), call |o, a, b| { let s = o.slim(a, b); if s.len() == 2 && s[0] == 7 { s[1] } else { !0 } }, cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| vec![7, v], set |o, a, b, n| { let p = o.slim(a, b); let r = p[1]; p[1] = n; r });
shape!(StatRefRet, MockRefR, Val, Val, false, yes, new MockRefR::new(), expect |o| o.expect_stat(), call |o, a, b| *o.stat(a, b), cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| &*Box::leak(Box::new(v)));

#[automock]
pub trait AutoRef { fn foo(&self, a: u32, b: &u32) -> &u32; fn bar(&mut self, a: &u32, b: u32) -> &mut u32; }
shape!(AutoRefRet, MockAutoRef, Ref, Ref, false, yes, new MockAutoRef::new(), expect |o| o.expect_foo(), call |o, a, b| *o.foo(a, &b), cp |o| o.checkpoint(),
    args [x y] (x, *y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
shape!(AutoMutRet, MockAutoRef, Mut, Mut, false, yes, new MockAutoRef::new(), expect |o| o.expect_bar(), call |o, a, b| *o.bar(&a, b), cp |o| o.checkpoint(),
    args [x y] (*x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v, set |o, a, b, n| { let p = o.bar(&a, b); let r = *p; *p = n; r });

// ---- reference arguments --------------------------------------------------------------
#[derive(Debug)]
pub struct Lt<'a>(pub &'a u32);
mock! { pub RefA {
    pub fn foo(&self, a: &u32, b: &mut u32) -> u32;
    pub fn slice(&self, a: &[u8], b: &mut [u8]) -> u32;
    pub fn lt<'a>(&self, a: &'a u32, b: Lt<'a>) -> u32;
    pub fn owned(&self, a: B, b: Vec<u32>) -> B;
} }
pub fn vb(a: u32) -> [u8; 4] { a.to_le_bytes() }
pub fn bv(a: &[u8]) -> u32 { if a.len() == 4 { u32::from_le_bytes([a[0], a[1], a[2], a[3]]) } else { !0 } }
shape!(RefArg, MockRefA, Val, Val, false, yes, new MockRefA::new(), expect |o| o.expect_foo(), call |o, a, b| o.foo(&a, &mut { b }), cp |o| o.checkpoint(),
    args [x y] (*x, *y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
shape!(LtArg, MockRefA, Val, Val, false, no, new MockRefA::new(), expect |o| o.expect_lt(), call |o, a, b| o.lt(&a, Lt(&b)), cp |o| o.checkpoint(),
    args [x y] (*x, *y.0), wargs [x y] (*x, *y.0), preds (), (), out |v| v);
shape!(SliceArg, MockRefA, Val, Val, false, yes, new MockRefA::new(), expect |o| o.expect_slice(), call |o, a, b| o.slice(&vb(a), &mut vb(b)), cp |o| o.checkpoint(),
    args [x y] (bv(x), bv(y)), wargs [x y] (bv(x), bv(y)), preds (|k: u32| predicate::function(move |p: &[u8]| bv(p) == k)), (|k: u32| predicate::function(move |p: &[u8]| bv(p) == k)), out |v| v);
shape!(OwnedArg, MockRefA, Val, Val, false, yes, new MockRefA::new(), expect |o| o.expect_owned(), call |o, a, b| *o.owned(B(Box::new(a)), vec![1, b]).0, cp |o| o.checkpoint(),
    args [x y] (*x.0, y[1]), wargs [x y] (*x.0, y[1]), preds (|k: u32| predicate::function(move |p: &B| *p.0 == k)), (|k: u32| predicate::function(move |p: &Vec<u32>| p[1] == k)), out |v| B(Box::new(v)));

// ---- #[concretize] ------------------------------------------------------------------------
pub trait Num { fn num(&self) -> u32; }
impl Num for u32 { fn num(&self) -> u32 { *self } }
impl Num for P2 { fn num(&self) -> u32 { self.0 } }
mock! { pub Conc {
    #[mockall::concretize]
    pub fn foo<X: Num + 'static>(&self, a: X, b: u32) -> u32;
    #[mockall::concretize]
    pub fn refa<X: Num + 'static>(&self, a: &X, b: u32) -> u32;
    #[mockall::concretize]
    pub fn stat<X: Num + 'static>(a: X, b: u32) -> u32;
    #[mockall::concretize]
    pub fn two<X: Num + 'static, Y: Num + 'static>(&self, a: X, b: &mut Y) -> u32;
    #[mockall::concretize]
    pub fn refr<X: Num + 'static>(&self, a: X, b: u32) -> &u32;
} }
shape!(ConcV, MockConc, Val, Val, false, no, new MockConc::new(), expect |o| o.expect_foo(), call |o, a, b| if a & 1 == 0 { o.foo(a, b) } else { o.foo(P2(a), b) }, cp |o| o.checkpoint(),
    args [x y] (x.num(), y), wargs [x y] (x.num(), *y), preds (), (), out |v| v);
shape!(ConcR, MockConc, Val, Val, false, no, new MockConc::new(), expect |o| o.expect_refa(), call |o, a, b| o.refa(&a, b), cp |o| o.checkpoint(),
    args [x y] (x.num(), y), wargs [x y] (x.num(), *y), preds (), (), out |v| v);
shape!(ConcTwo, MockConc, Val, Val, false, no, new MockConc::new(), expect |o| o.expect_two(), call |o, a, b| o.two(P2(a), &mut { b }), cp |o| o.checkpoint(),
    args [x y] (x.num(), y.num()), wargs [x y] (x.num(), y.num()), preds (), (), out |v| v);
shape!(ConcRefRet, MockConc, Ref, Ref, false, no, new MockConc::new(), expect |o| o.expect_refr(), call |o, a, b| *o.refr(P2(a), b), cp |o| o.checkpoint(),
    args [x y] (x.num(), y), wargs [x y] (x.num(), *y), preds (), (), out |v| v);
sshape!(ConcS, Val, Val, no, own [MockConc::stat_context] 0 MockConc::stat_context, expect |c| c.expect(), call |a, b| MockConc::stat(a, b),
    args [x y] (x.num(), y), wargs [x y] (x.num(), *y), preds (), (), out |v| v);

// ---- closures as arguments --------------------------------------------------------------------
mock! { pub Clo { fn foo<F: Fn(u32) -> u32 + Send + 'static>(&self, a: F, b: u32) -> u32; } }
shape!(CloArg, MockClo, Val, Val, false, yes, new MockClo::new(), expect |o| o.expect_foo(), call |o, a, b| o.foo(move |z| a ^ z, b), cp |o| o.checkpoint(),
    args [x y] (x(0), y), wargs [x y] (x(0), *y), preds (|k: u32| predicate::function(move |p: &Box<dyn Fn(u32) -> u32 + Send>| p(0) == k)), eq, out |v| v);

// ---- async and impl Trait -----------------------------------------------------------------------
use std::future::Future;
pub fn block_on<F: Future>(fut: F) -> F::Output {
    let mut fut = std::pin::pin!(fut);
    let w = std::task::Waker::noop();
    let mut cx = std::task::Context::from_waker(&w);
    loop { if let std::task::Poll::Ready(v) = fut.as_mut().poll(&mut cx) { return v; } }
}
mock! { pub Asy {
    pub async fn foo(&self, a: u32, b: u32) -> u32;
    pub async fn stat(a: u32, b: u32) -> u32;
    pub fn it(&self, a: u32, b: u32) -> impl Iterator<Item = u32> + Send;
    pub fn fu(&self, a: u32, b: u32) -> impl Future<Output = u32> + Send;
    pub fn bx(&self, a: u32, b: u32) -> Box<dyn Val>;
} }
shape!(AsyM, MockAsy, Val, Val, false, yes, new MockAsy::new(), expect |o| o.expect_foo(), call |o, a, b| block_on(o.foo(a, b)), cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
sshape!(AsyS, Val, Val, yes, own [MockAsy::stat_context] 0 MockAsy::stat_context, expect |c| c.expect(), call |a, b| block_on(MockAsy::stat(a, b)),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
shape!(ImplIt, MockAsy, Val, NoConst, false, yes, new MockAsy::new(), expect |o| o.expect_it(), call |o, a, b| { let mut i = o.it(a, b); let r = i.next().unwrap(); if i.next().is_some() { !0 } else { r } }, cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| Box::new(std::iter::once(v)));
shape!(ImplFu, MockAsy, Val, NoConst, false, yes, new MockAsy::new(), expect |o| o.expect_fu(), call |o, a, b| block_on(o.fu(a, b)), cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| Box::pin(std::future::ready(v)));
shape!(BoxRet, MockAsy, Val, NoConst, false, yes, new MockAsy::new(), expect |o| o.expect_bx(), call |o, a, b| o.bx(a, b).val(), cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| Box::new(v));
#[automock]
#[allow(async_fn_in_trait)]
pub trait AsyTr { async fn foo(&self, a: u32, b: u32) -> u32; }
shape!(AsyT, MockAsyTr, Val, Val, false, yes, new MockAsyTr::new(), expect |o| o.expect_foo(), call |o, a, b| block_on(AsyTr::foo(o, a, b)), cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);

// ---- #[automock] impl ---------------------------------------------------------------------------
pub mod real {
    use mockall::automock;
    pub struct Str {}
    #[automock]
    impl Str {
        pub fn foo(&self, _a: u32, _b: u32) -> u32 { unimplemented!() }
        pub fn stat(_a: u32, _b: u32) -> u32 { unimplemented!() }
    }
}
shape!(AutoImpl, real::MockStr, Val, Val, false, yes, new real::MockStr::new(), expect |o| o.expect_foo(), call |o, a, b| o.foo(a, b), cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
sshape!(AutoImplS, Val, Val, yes, own [real::MockStr::stat_context] 0 real::MockStr::stat_context, expect |c| c.expect(), call |a, b| real::MockStr::stat(a, b),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);

// ---- static methods of traits next to methods; two traits with static methods ------------------------
pub trait StA { fn sa(a: u32, b: u32) -> u32; fn ma(&self, a: u32, b: u32) -> u32; }
pub trait StB { fn sb(a: u32, b: u32) -> u32; }
mock! { pub Mix { pub fn si(a: u32, b: u32) -> u32; pub fn mi(&self, a: u32, b: u32) -> u32; }
    impl StA for Mix { fn sa(a: u32, b: u32) -> u32; fn ma(&self, a: u32, b: u32) -> u32; }
    impl StB for Mix { fn sb(a: u32, b: u32) -> u32; }
}
sshape!(MixI, Val, Val, yes, own [MockMix::si_context, MockMix::sa_context, MockMix::sb_context] 0 MockMix::si_context, expect |c| c.expect(), call |a, b| MockMix::si(a, b),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
sshape!(MixA, Val, Val, yes, own [MockMix::si_context, MockMix::sa_context, MockMix::sb_context] 1 MockMix::sa_context, expect |c| c.expect(), call |a, b| <MockMix as StA>::sa(a, b),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
sshape!(MixB, Val, Val, yes, own [MockMix::si_context, MockMix::sa_context, MockMix::sb_context] 2 MockMix::sb_context, expect |c| c.expect(), call |a, b| <MockMix as StB>::sb(a, b),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
shape!(MixMi, MockMix, Val, Val, false, yes, new MockMix::new(), expect |o| o.expect_mi(), call |o, a, b| o.mi(a, b), cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
shape!(MixMa, MockMix, Val, Val, false, yes, new MockMix::new(), expect |o| o.expect_ma(), call |o, a, b| StA::ma(o, a, b), cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
// functions of the same name in different modules
pub mod other { use mockall::automock; #[automock] pub mod modl { pub fn foo(_a: u32, _b: u32) -> u32 { unimplemented!() } } }
sshape!(ModlOther, Val, Val, yes, own [mock_modl::foo_context, other::mock_modl::foo_context] 1 other::mock_modl::foo_context, expect |c| c.expect(), call |a, b| other::mock_modl::foo(a, b),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
sshape!(ModlSame, Val, Val, yes, own [mock_modl::foo_context, other::mock_modl::foo_context] 0 mock_modl::foo_context, expect |c| c.expect(), call |a, b| mock_modl::foo(a, b),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);

// ---- three type parameters; type parameters that no argument mentions ---------------------------------
mock! { pub GenT {
    pub fn three<X: 'static, Y: 'static, Z: 'static>(&self, a: X, b: Y, c: Z) -> u32;
    pub fn none<X: 'static>(&self, a: u32, b: u32) -> u32;
    pub fn snone<X: 'static, Y: 'static, Z: 'static>(a: u32, b: u32) -> u32;
    pub fn rnone<X: 'static, Y: 'static, Z: 'static>(&self, a: u32, b: u32) -> &u32;
    pub fn mnone<X: 'static, Y: 'static, Z: 'static>(&mut self, a: u32, b: u32) -> &mut u32;
    pub fn uns<X: 'static + ?Sized>(&self, a: Box<X>, b: u32) -> u32;
} }
macro_rules! gent { ($($n:ident $($t:ty),*;)*) => { $(
    shape!($n, MockGenT, Val, Val, false, yes, new MockGenT::new(), expect |o| o.expect_none::<($($t),*)>(), call |o, a, b| o.none::<($($t),*)>(a, b), cp |o| o.checkpoint(),
        args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
)* } }
gent!(GenNoneA u8, u16; GenNoneB u16, u8;);
macro_rules! gent3 { ($($n:ident $s:ident $r:ident $m:ident $x:ident $y:ident $z:ident;)*) => { $(
    shape!($n, MockGenT, Val, Val, false, no, new MockGenT::new(), expect |o| o.expect_three::<$x, $y, $z>(), call |o, a, b| o.three::<$x, $y, $z>(a as $x, b as $y, a as $z), cp |o| o.checkpoint(),
        args [x y z] (x as u32, y as u32), wargs [x y z] (*x as u32, *y as u32), preds (), (), out |v| v);
    sshape!($s, Val, Val, yes, own [MockGenT::snone_context] 0 MockGenT::snone_context, expect |c| c.expect::<$x, $y, $z>(), call |a, b| MockGenT::snone::<$x, $y, $z>(a, b),
        args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
    shape!($r, MockGenT, Ref, Ref, false, yes, new MockGenT::new(), expect |o| o.expect_rnone::<$x, $y, $z>(), call |o, a, b| *o.rnone::<$x, $y, $z>(a, b), cp |o| o.checkpoint(),
        args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
    shape!($m, MockGenT, Mut, Mut, false, yes, new MockGenT::new(), expect |o| o.expect_mnone::<$x, $y, $z>(), call |o, a, b| *o.mnone::<$x, $y, $z>(a, b), cp |o| o.checkpoint(),
        args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v, set |o, a, b, n| { let p = o.mnone::<$x, $y, $z>(a, b); let r = *p; *p = n; r });
)* } }
gent3!(Gen3A SGen3A RGen3A MGen3A u32 i32 u64; Gen3B SGen3B RGen3B MGen3B u32 i32 i64; Gen3C SGen3C RGen3C MGen3C i32 u32 u64;);
shape!(GenUns, MockGenT, Val, Val, false, yes, new MockGenT::new(), expect |o| o.expect_uns::<dyn Num>(), call |o, a, b| o.uns::<dyn Num>(Box::new(a), b), cp |o| o.checkpoint(),
    args [x y] (x.num(), y), wargs [x y] (x.num(), *y), preds (|k: u32| predicate::function(move |p: &Box<dyn Num>| p.num() == k)), eq, out |v| v);

// ---- values with lifetimes ------------------------------------------------------------------------------
#[derive(Clone)]
pub struct Lr<'a>(pub &'a u32);
fn lr(v: u32) -> Lr<'static> { Lr(Box::leak(Box::new(v))) }
mock! { pub LtR {
    pub fn foo<'a>(&self, a: u32, b: u32) -> Lr<'a>;
    pub fn baz<'a>(&self, a: u32, b: u32) -> &Lr<'a>;
    pub fn anon(&self, a: u32, b: u32) -> Lr<'_>;
    pub fn opt(&mut self, a: Option<&'static u32>, b: (u32, u8)) -> Option<&'static u32>;
} }
shape!(LtRet, MockLtR, Val, Val, false, yes, new MockLtR::new(), expect |o| o.expect_foo(), call |o, a, b| *o.foo(a, b).0, cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| lr(v));
shape!(LtRefRet, MockLtR, Ref, Ref, false, yes, new MockLtR::new(), expect |o| o.expect_baz(), call |o, a, b| *o.baz(a, b).0, cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| lr(v));
shape!(AnonLt, MockLtR, Val, Val, false, yes, new MockLtR::new(), expect |o| o.expect_anon(), call |o, a, b| *o.anon(a, b).0, cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| lr(v));
shape!(OptRet, MockLtR, Val, Val, false, yes, new MockLtR::new(), expect |o| o.expect_opt(), call |o, a, b| *o.opt(Some(Box::leak(Box::new(a))), (b, 7)).unwrap(), cp |o| o.checkpoint(),
    args [x y] (*x.unwrap(), y.0), wargs [x y] (*x.unwrap(), y.0), preds (|k: u32| predicate::function(move |p: &Option<&'static u32>| **p.as_ref().unwrap() == k)), (|k: u32| eq((k, 7u8))), out |v| Some(lr(v).0));

// ---- receivers ------------------------------------------------------------------------------------------
mock! { pub Recv {
    pub fn arc(self: std::sync::Arc<Self>, a: u32, b: u32) -> u32;
    pub fn bx(self: &Box<Self>, a: u32, b: u32) -> u32;
} }
shape!(ArcSelf, std::sync::Arc<MockRecv>, Val, Val, false, yes, new std::sync::Arc::new(MockRecv::new()), expect |o| std::sync::Arc::get_mut(o).unwrap().expect_arc(), call |o, a, b| o.clone().arc(a, b), cp |o| std::sync::Arc::get_mut(o).unwrap().checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
shape!(BoxSelf, Box<MockRecv>, Val, Val, false, yes, new Box::new(MockRecv::new()), expect |o| o.expect_bx(), call |o, a, b| o.bx(a, b), cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);

// ---- unsafe and extern methods, default bodies, raw names, mut patterns ------------------------------------
#[automock]
pub trait Odd {
    unsafe fn uns(&self, a: u32, b: u32) -> u32;
    extern "C-unwind" fn ext(&self, a: u32, b: u32) -> u32;
    fn dfl(&self, a: u32, b: u32) -> u32 { a.wrapping_mul(b) }
    fn r#match(&self, r#type: u32, r#in: u32) -> u32;
    fn conv<'a>(&self, a: &'a [u8], b: &'a u32) -> u32 where Self: Sized;
}
shape!(OddUns, MockOdd, Val, Val, false, yes, new MockOdd::new(), expect |o| o.expect_uns(), call |o, a, b| unsafe { o.uns(a, b) }, cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
shape!(OddExt, MockOdd, Val, Val, false, yes, new MockOdd::new(), expect |o| o.expect_ext(), call |o, a, b| o.ext(a, b), cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
shape!(OddDfl, MockOdd, Val, Val, false, yes, new MockOdd::new(), expect |o| o.expect_dfl(), call |o, a, b| o.dfl(a, b), cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
shape!(OddRaw, MockOdd, Val, Val, false, yes, new MockOdd::new(), expect |o| o.expect_match(), call |o, a, b| o.r#match(a, b), cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
shape!(OddConv, MockOdd, Val, Val, false, yes, new MockOdd::new(), expect |o| o.expect_conv(), call |o, a, b| o.conv(&vb(a), &b), cp |o| o.checkpoint(),
    args [x y] (bv(x), *y), wargs [x y] (bv(x), *y), preds (|k: u32| predicate::function(move |p: &[u8]| bv(p) == k)), eq, out |v| v);

// ---- #[automock] impl Trait for Struct; a generic trait implemented for one type; trait objects -----------------
pub trait TrI<X> { type Y; fn foo(&mut self, a: X, b: Box<dyn Num>) -> Self::Y; }
pub struct ImplS {}
#[automock]
impl TrI<u32> for ImplS { type Y = u64; fn foo(&mut self, _a: u32, _b: Box<dyn Num>) -> u64 { unimplemented!() } }
shape!(ImplFor, MockImplS, Val, Val, false, no, new MockImplS::new(), expect |o| o.expect_foo(), call |o, a, b| TrI::foo(o, a, Box::new(b)) as u32, cp |o| o.checkpoint(),
    args [x y] (x, y.num()), wargs [x y] (*x, y.num()), preds (), (), out |v| v as u64);
mock! { pub ConcG {} impl TrI<B> for ConcG { type Y = Option<u32>; fn foo(&mut self, a: B, b: Box<dyn Num>) -> Option<u32>; } }
shape!(ConcGen, MockConcG, Val, Val, false, no, new MockConcG::new(), expect |o| o.expect_foo(), call |o, a, b| TrI::foo(o, B(Box::new(a)), Box::new(b)).unwrap(), cp |o| o.checkpoint(),
    args [x y] (*x.0, y.num()), wargs [x y] (*x.0, y.num()), preds (), (), out |v| Some(v));
mock! { pub DynA { pub fn foo(&self, a: &dyn Num, b: &mut dyn Num) -> u32; } }
shape!(DynArg, MockDynA, Val, Val, false, no, new MockDynA::new(), expect |o| o.expect_foo(), call |o, a, b| o.foo(&a, &mut P2(b)), cp |o| o.checkpoint(),
    args [x y] (x.num(), y.num()), wargs [x y] (x.num(), y.num()), preds (), (), out |v| v);

// ---- arguments and values that are not Send --------------------------------------------------------------------
use std::rc::Rc;
mock! { pub NSend { pub fn foo(&self, a: Rc<u32>, b: u32) -> Rc<u32>; } }
shape!(NonSend, MockNSend, Val, NoConst, false, yes, new MockNSend::new(), expect |o| o.expect_foo(), call |o, a, b| *o.foo(Rc::new(a), b), cp |o| o.checkpoint(),
    args [x y] (*x, y), wargs [x y] (**x, *y), preds (|k: u32| predicate::function(move |p: &Rc<u32>| **p == k)), eq, out |v| Rc::new(v));

// ---- constructors ------------------------------------------------------------------------------------------------
pub mod ctor {
    use mockall::automock;
    pub struct Ct {}
    #[automock]
    impl Ct {
        pub fn new(_a: u32, _b: u32) -> Self { unimplemented!() }
        pub fn val(&self) -> u32 { unimplemented!() }
    }
}
fn ct(v: u32) -> ctor::MockCt { let mut m = ctor::MockCt::default(); m.expect_val().return_const(v); m }
sshape!(Ctor, Val, NoConst, yes, own [ctor::MockCt::new_context] 0 ctor::MockCt::new_context, expect |c| c.expect(), call |a, b| ctor::MockCt::new(a, b).val(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| ct(v));

// ---- further forms of #[concretize] ---------------------------------------------------------------------------------
mock! { pub Con2 {
    #[mockall::concretize]
    pub fn sl<X: Num + 'static>(&self, a: &[X], b: u32) -> u32;
    #[cfg_attr(all(), mockall::concretize)]
    pub fn wh<X, Y>(&self, a: X, b: Y) -> u32 where X: Num + 'static, Y: Num + 'static;
    #[mockall::concretize]
    pub fn mr<X>(&mut self, a: u32, b: &mut X) -> &mut u32 where X: Num + 'static;
    #[mockall::concretize]
    pub fn pa<X: Num + 'static>(&self, a: u32, b: X) -> B;
} }
shape!(Con2Sl, MockCon2, Val, Val, false, no, new MockCon2::new(), expect |o| o.expect_sl(), call |o, a, b| o.sl(&[a, b], b), cp |o| o.checkpoint(),
    args [x y] (if x.len() == 2 && x[1].num() == y { x[0].num() } else { !0 }, y), wargs [x y] (if x.len() == 2 && x[1].num() == *y { x[0].num() } else { !0 }, *y), preds (), (), out |v| v);
shape!(Con2Wh, MockCon2, Val, Val, false, no, new MockCon2::new(), expect |o| o.expect_wh(), call |o, a, b| o.wh(P2(a), b), cp |o| o.checkpoint(),
    args [x y] (x.num(), y.num()), wargs [x y] (x.num(), y.num()), preds (), (), out |v| v);
shape!(Con2Mr, MockCon2, Mut, Mut, false, no, new MockCon2::new(), expect |o| o.expect_mr(), call |o, a, b| *o.mr(a, &mut P2(b)), cp |o| o.checkpoint(),
    args [x y] (x, y.num()), wargs [x y] (*x, y.num()), preds (), (), out |v| v, set |o, a, b, n| { let p = o.mr(a, &mut P2(b)); let r = *p; *p = n; r });
shape!(Con2Pa, MockCon2, Val, Val, false, no, new MockCon2::new(), expect |o| o.expect_pa(), call |o, a, b| *o.pa(a, P2(b)).0, cp |o| o.checkpoint(),
    args [x y] (x, y.num()), wargs [x y] (*x, y.num()), preds (), (), out |v| B(Box::new(v)));

// ---- where clauses ----------------------------------------------------------------------------------------------------
mock! { pub Whe {
    pub fn clo<F>(&self, a: F, b: u32) -> u32 where F: Fn(u32) -> u32 + Send + 'static;
    pub fn gen<X, Y>(&self, a: X, b: Vec<Y>) -> u32 where X: Debug + 'static, Y: Debug + 'static, Vec<Y>: Clone;
    pub fn stat<X>(a: X, b: u32) -> u32 where X: Debug + Clone + 'static;
    pub fn refr<X>(&self, a: X, b: u32) -> &u32 where X: Debug + 'static;
} }
shape!(WhClo, MockWhe, Val, Val, false, yes, new MockWhe::new(), expect |o| o.expect_clo(), call |o, a, b| o.clo(move |z| a ^ z, b), cp |o| o.checkpoint(),
    args [x y] (x(0), y), wargs [x y] (x(0), *y), preds (|k: u32| predicate::function(move |p: &Box<dyn Fn(u32) -> u32 + Send>| p(0) == k)), eq, out |v| v);
shape!(WhGen, MockWhe, Val, Val, false, yes, new MockWhe::new(), expect |o| o.expect_gen::<P2, u32>(), call |o, a, b| o.gen(P2(a), vec![b]), cp |o| o.checkpoint(),
    args [x y] (x.0, y[0]), wargs [x y] (x.0, y[0]), preds (|k: u32| eq(P2(k))), (|k: u32| eq(vec![k])), out |v| v);
sshape!(WhStat, Val, Val, yes, own [MockWhe::stat_context] 0 MockWhe::stat_context, expect |c| c.expect::<P2>(), call |a, b| MockWhe::stat(P2(a), b),
    args [x y] (x.0, y), wargs [x y] (x.0, *y), preds (|k: u32| eq(P2(k))), eq, out |v| v);
shape!(WhRef, MockWhe, Ref, Ref, false, yes, new MockWhe::new(), expect |o| o.expect_refr::<P2>(), call |o, a, b| *o.refr(P2(a), b), cp |o| o.checkpoint(),
    args [x y] (x.0, y), wargs [x y] (x.0, *y), preds (|k: u32| eq(P2(k))), eq, out |v| v);
pub trait WhT<X> where X: Debug { fn foo(&self, a: X, b: u32) -> X; fn bar(a: X, b: u32) -> X where Self: Sized; }
mock! { pub WhS<X, Z> where X: Debug + Clone + 'static, Z: 'static {
        pub fn inh(&self, a: X, b: Z) -> X;
    }
    impl<X, Z> WhT<X> for WhS<X, Z> where X: Debug + Clone + 'static, Z: 'static { fn foo(&self, a: X, b: u32) -> X; fn bar(a: X, b: u32) -> X; }
}
shape!(WhInh, MockWhS<u32, P>, Val, Val, false, yes, new MockWhS::<u32, P>::new(), expect |o| o.expect_inh(), call |o, a, b| o.inh(a, P(b)), cp |o| o.checkpoint(),
    args [x y] (x, y.0), wargs [x y] (*x, y.0), preds eq, (|k: u32| predicate::function(move |p: &P| p.0 == k)), out |v| v);
shape!(WhTr, MockWhS<u32, P>, Val, Val, false, yes, new MockWhS::<u32, P>::new(), expect |o| o.expect_foo(), call |o, a, b| WhT::foo(o, a, b), cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
sshape!(WhTrS, Val, Val, yes, own [MockWhS::<u32, P>::bar_context] 0 MockWhS::<u32, P>::bar_context, expect |c| c.expect(), call |a, b| <MockWhS<u32, P> as WhT<u32>>::bar(a, b),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);

// ---- generic methods of traits; structs with lifetimes; documented and attributed items ---------------------------------
/// Documented
#[automock]
#[allow(dead_code)]
pub trait TrG {
    /// Documented
    #[must_use]
    #[inline]
    fn gm<Y: Debug + 'static>(&self, a: Y, b: u32) -> u32;
    #[allow(unused)]
    fn gs<Y: Debug + 'static>(a: Y, b: u32) -> u32 where Self: Sized;
}
shape!(TrGen, MockTrG, Val, Val, false, yes, new MockTrG::new(), expect |o| o.expect_gm::<P2>(), call |o, a, b| o.gm(P2(a), b), cp |o| o.checkpoint(),
    args [x y] (x.0, y), wargs [x y] (x.0, *y), preds (|k: u32| eq(P2(k))), eq, out |v| v);
sshape!(TrGenS, Val, Val, yes, own [MockTrG::gs_context] 0 MockTrG::gs_context, expect |c| c.expect::<P2>(), call |a, b| <MockTrG as TrG>::gs(P2(a), b),
    args [x y] (x.0, y), wargs [x y] (x.0, *y), preds (|k: u32| eq(P2(k))), eq, out |v| v);
pub trait SpG { fn gm<Y: Debug + 'static>(&self, a: Y, b: u32) -> u32; const K: u32; }
mock! { pub SpzG {
        pub const INH: u32 = 5;
    }
    impl SpG for SpzG { fn gm<Y: Debug + 'static>(&self, a: Y, b: u32) -> u32; const K: u32 = 7; }
}
shape!(SpzGm, MockSpzG, Val, Val, false, yes, new MockSpzG::new(), expect |o| o.expect_gm::<P2>(), call |o, a, b| if MockSpzG::INH == 5 && <MockSpzG as SpG>::K == 7 { o.gm(P2(a), b) } else { !0 }, cp |o| o.checkpoint(),
    args [x y] (x.0, y), wargs [x y] (x.0, *y), preds (|k: u32| eq(P2(k))), eq, out |v| v);
mock! { pub LtS<'a> {
    pub fn foo(&self, a: &'a u32, b: u32) -> u32;
    pub fn bar(&self, a: u32, b: u32) -> &'static dyn Val;
    pub fn dup(&self, a: u32, b: u32) -> MockDup;
} }
mock! { pub Dup { pub fn val(&self) -> u32; } impl Clone for Dup { fn clone(&self) -> Self; } }
shape!(LtStr, MockLtS<'static>, Val, Val, false, no, new MockLtS::new(), expect |o| o.expect_foo(), call |o, a, b| o.foo(Box::leak(Box::new(a)), b), cp |o| o.checkpoint(),
    args [x y] (*x, y), wargs [x y] (*x, *y), preds (), (), out |v| v);
shape!(StDyn, MockLtS<'static>, Val, NoConst, false, yes, new MockLtS::new(), expect |o| o.expect_bar(), call |o, a, b| o.bar(a, b).val(), cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| &*Box::leak(Box::new(v)));
fn dup(v: u32) -> MockDup { let mut m = MockDup::new(); m.expect_clone().returning(move || { let mut m = MockDup::new(); m.expect_val().return_const(v); m }); m }
shape!(MockRet, MockLtS<'static>, Val, NoConst, false, yes, new MockLtS::new(), expect |o| o.expect_dup(), call |o, a, b| o.dup(a, b).clone().val(), cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| dup(v));

// ---- constructors of generic structs; `Self` in many places ---------------------------------------------------------------
pub mod ctorg {
    use mockall::automock;
    pub struct Ctg<X, Y> { x: std::marker::PhantomData<(X, Y)> }
    #[automock]
    impl<X: 'static, Y: 'static> Ctg<X, Y> {
        pub fn with(_a: X, _b: u32) -> Self { unimplemented!() }
        pub fn val(&self) -> u32 { unimplemented!() }
        pub fn merge(&self, _a: Option<Self>, mut _b: Vec<Self>) -> (Box<Self>, [u8; 2]) { unimplemented!() }
    }
}
type MCtg = ctorg::MockCtg<u32, P>;
fn ctg(v: u32) -> MCtg { let mut m = MCtg::default(); m.expect_val().return_const(v); m }
sshape!(CtorG, Val, NoConst, yes, own [MCtg::with_context] 0 MCtg::with_context, expect |c| c.expect(), call |a, b| MCtg::with(a, b).val(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| ctg(v));
shape!(SelfArg, MCtg, Val, NoConst, false, no, new MCtg::new(), expect |o| o.expect_merge(), call |o, a, b| { let (m, z) = o.merge(Some(ctg(a)), vec![ctg(b)]); if z == [7, 8] { m.val() } else { !0 } }, cp |o| o.checkpoint(),
    args [x y] (x.unwrap().val(), y[0].val()), wargs [x y] (x.as_ref().unwrap().val(), y[0].val()), preds (), (), out |v| (Box::new(ctg(v)), [7, 8]));

// ---- associated types in tuples, slices, function pointers and references -------------------------------------------------
#[automock(type K = u32; type V = B;)]
pub trait Ass2 {
    type K: Debug + Clone + 'static;
    type V: 'static;
    fn foo(&self, a: (Self::K, u8), b: &[Self::K]) -> (Self::V, Option<Self::K>);
    fn bar<'a>(&self, a: Lt<'a>, b: std::collections::BTreeMap<Self::K, [Self::K; 1]>) -> &Self::V;
    fn baz(a: Box<Self::K>, b: fn(Self::K) -> Self::K) -> Self::V where Self: Sized;
}

shape!(Ass2Foo, MockAss2, Val, Val, false, yes, new MockAss2::new(), expect |o| o.expect_foo(), call |o, a, b| { let (v, k) = o.foo((a, 7), &[3, b]); if k == Some(*v.0) { *v.0 } else { !0 } }, cp |o| o.checkpoint(),
    args [x y] (if x.1 == 7 { x.0 } else { !0 }, y[1]), wargs [x y] (x.0, y[1]), preds (|k: u32| eq((k, 7))), (|k: u32| predicate::function(move |p: &[u32]| p[1] == k)), out |v| (B(Box::new(v)), Some(v)));
shape!(Ass2Bar, MockAss2, Ref, Ref, false, no, new MockAss2::new(), expect |o| o.expect_bar(), call |o, a, b| *o.bar(Lt(&a), [(b, [b])].into()).0, cp |o| o.checkpoint(),
    args [x y] (*x.0, *y.keys().next().unwrap()), wargs [x y] (*x.0, *y.keys().next().unwrap()), preds (), (), out |v| B(Box::new(v)));

// ---- functions in nested modules, with every kind of path and visibility ----------------------------------------------------
pub mod outer {
    pub use super::{P2, Num};
    pub trait HasT { type T; }
    impl HasT for P2 { type T = u32; }
    pub mod low {
        use mockall::automock;
        pub use super::Num as N3;
        #[automock]
        pub mod leaf {
            use super::super::P2 as P9;
            type Al = super::super::P2;
            pub fn foo(_a: super::super::P2, _b: Option<super::super::P2>) -> super::super::P2 { unimplemented!() }
            pub(crate) fn bar(_a: P9, _b: Al) -> u32 { unimplemented!() }
            pub(in super::super) fn baz<X: super::N3 + 'static>(_a: X, _b: <super::super::P2 as super::super::HasT>::T) -> u32 { unimplemented!() }
            pub(super) fn qux(_a: Box<dyn super::N3>, _b: [super::super::P2; 1], _c: fn(super::super::P2) -> super::super::P2) -> u32 { unimplemented!() }
            pub fn wh<X>(_a: &X, _b: u32) -> u32 where X: super::N3 + std::fmt::Debug + 'static { unimplemented!() }
        }
        pub fn qux(a: u32, b: u32) -> u32 { mock_leaf::qux(Box::new(a), [super::P2(b)], |x| x) }
        pub type QuxContext = mock_leaf::__qux::Context;
        pub fn qux_context() -> QuxContext { mock_leaf::qux_context() }
    }
    pub fn baz(a: u32, b: u32) -> u32 { low::mock_leaf::baz(P2(a), b) }
    mockall::mock! { pub Deep {
        pub fn foo(&self, a: super::P2, b: <super::P2 as HasT>::T) -> super::P2;
        pub(crate) fn bar<X: Num + 'static>(&mut self, a: X, b: &super::P2) -> &mut P2;
        pub(super) fn baz(&self, a: Box<dyn super::Num>, b: (super::P2, u8)) -> Result<super::P2, super::P2>;
    } }
}
use outer::low::mock_leaf as leaf;
sshape!(LeafFoo, Val, Val, yes, own [leaf::foo_context] 0 leaf::foo_context, expect |c| c.expect(), call |a, b| leaf::foo(P2(a), Some(P2(b))).0,
    args [x y] (x.0, y.unwrap().0), wargs [x y] (x.0, y.unwrap().0), preds (|k: u32| eq(P2(k))), (|k: u32| eq(Some(P2(k)))), out |v| P2(v));
sshape!(LeafBar, Val, Val, yes, own [leaf::bar_context] 0 leaf::bar_context, expect |c| c.expect(), call |a, b| leaf::bar(P2(a), P2(b)),
    args [x y] (x.0, y.0), wargs [x y] (x.0, y.0), preds (|k: u32| eq(P2(k))), (|k: u32| eq(P2(k))), out |v| v);
sshape!(LeafWh, Val, Val, yes, own [leaf::wh_context] 0 leaf::wh_context, expect |c| c.expect::<P2>(), call |a, b| leaf::wh(&P2(a), b),
    args [x y] (x.0, y), wargs [x y] (x.0, *y), preds (|k: u32| eq(P2(k))), eq, out |v| v);
shape!(DeepFoo, outer::MockDeep, Val, Val, false, yes, new outer::MockDeep::new(), expect |o| o.expect_foo(), call |o, a, b| o.foo(P2(a), b).0, cp |o| o.checkpoint(),
    args [x y] (x.0, y), wargs [x y] (x.0, *y), preds (|k: u32| eq(P2(k))), eq, out |v| P2(v));
shape!(DeepBar, outer::MockDeep, Mut, Mut, false, yes, new outer::MockDeep::new(), expect |o| o.expect_bar::<P2>(), call |o, a, b| o.bar(P2(a), &P2(b)).0, cp |o| o.checkpoint(),
    args [x y] (x.0, y.0), wargs [x y] (x.0, y.0), preds (|k: u32| eq(P2(k))), (|k: u32| eq(P2(k))), out |v| P2(v), set |o, a, b, n| { let p = o.bar(P2(a), &P2(b)); let r = p.0; p.0 = n; r });
shape!(DeepBaz, outer::MockDeep, Val, NoConst, false, no, new outer::MockDeep::new(), expect |o| o.expect_baz(), call |o, a, b| match o.baz(Box::new(a), (P2(b), 3)) { Ok(v) => v.0, Err(_) => !0 }, cp |o| o.checkpoint(),
    args [x y] (x.num(), y.0.0), wargs [x y] (x.num(), y.0.0), preds (), (), out |v| Ok(P2(v)));

// ---- #[async_trait], elaborate receivers, closures that change their state ---------------------------------------------
#[automock]
#[async_trait::async_trait]
pub trait AsTr { async fn foo(&self, a: u32, b: &u32) -> u32; async fn bar(a: u32, b: u32) -> u32 where Self: Sized; }
shape!(AsTrM, MockAsTr, Val, Val, false, yes, new MockAsTr::new(), expect |o| o.expect_foo(), call |o, a, b| block_on((o as &dyn AsTr).foo(a, &b)), cp |o| o.checkpoint(),
    args [x y] (x, *y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
mock! { pub As2 {} #[async_trait::async_trait] impl AsTr for As2 { async fn foo(&self, a: u32, b: &u32) -> u32; async fn bar(a: u32, b: u32) -> u32; } }
sshape!(As2S, Val, Val, yes, own [MockAs2::bar_context] 0 MockAs2::bar_context, expect |c| c.expect(), call |a, b| block_on(<MockAs2 as AsTr>::bar(a, b)),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);

// ---- functions without a return value ------------------------------------------------------------------------------------
mock! { pub Unit { pub fn foo(&self, a: u32, b: &mut u32); pub fn stat<X: Debug + 'static>(a: X, b: &mut u32); } }
#[automock]
pub trait UnitT { fn foo(&mut self, a: u32, b: &mut u32); fn gen<X: Debug + 'static>(&self, a: X, b: &mut u32) -> (); }
shape!(UnitM, MockUnit, Val, NoConst, false, yes, new MockUnit::new(), expect |o| o.expect_foo(), call |o, a, b| { let mut z = b; o.foo(a, &mut z); z }, cp |o| o.checkpoint(),
    args [x y] (x, *y), wargs [x y] (*x, *y), preds eq, eq, out |v| { *y = v; });
sshape!(UnitS, Val, NoConst, yes, own [MockUnit::stat_context] 0 MockUnit::stat_context, expect |c| c.expect::<P2>(), call |a, b| { let mut z = b; MockUnit::stat(P2(a), &mut z); z },
    args [x y] (x.0, *y), wargs [x y] (x.0, *y), preds (|k: u32| eq(P2(k))), eq, out |v| { *y = v; });
shape!(UnitTr, MockUnitT, Val, NoConst, false, yes, new MockUnitT::new(), expect |o| o.expect_foo(), call |o, a, b| { let mut z = b; UnitT::foo(o, a, &mut z); z }, cp |o| o.checkpoint(),
    args [x y] (x, *y), wargs [x y] (*x, *y), preds eq, eq, out |v| { *y = v; });
shape!(UnitG, MockUnitT, Val, NoConst, false, yes, new MockUnitT::new(), expect |o| o.expect_gen::<P2>(), call |o, a, b| { let mut z = b; o.gen(P2(a), &mut z); z }, cp |o| o.checkpoint(),
    args [x y] (x.0, *y), wargs [x y] (x.0, *y), preds (|k: u32| eq(P2(k))), eq, out |v| { *y = v; });

// ---- explicit lifetimes; merged bounds; constants; other ABIs --------------------------------------------------------------
pub trait LtTr<X> { fn foo(&self, a: &X, b: u32) -> &X; fn made<'c>(&self, a: u32, b: u32) -> Lr<'c>; }
mock! { pub LtG<X: 'static> where X: Clone {
        pub fn two<'a, 'b>(&'a mut self, a: &'a X, b: &'b u32) -> u32;
    }
    impl<X: Debug + 'static> LtTr<X> for LtG<X> where X: Send + Clone + 'static {
        fn foo(&self, a: &X, b: u32) -> &X;
        fn made<'c>(&self, a: u32, b: u32) -> Lr<'c>;
    }
}
type MLtG = MockLtG<P2>;
shape!(LtTwo, MLtG, Val, Val, false, yes, new MLtG::new(), expect |o| o.expect_two(), call |o, a, b| o.two(&P2(a), &b), cp |o| o.checkpoint(),
    args [x y] (x.0, *y), wargs [x y] (x.0, *y), preds (|k: u32| eq(P2(k))), eq, out |v| v);
shape!(LtFoo, MLtG, Ref, Ref, false, yes, new MLtG::new(), expect |o| o.expect_foo(), call |o, a, b| o.foo(&P2(a), b).0, cp |o| o.checkpoint(),
    args [x y] (x.0, y), wargs [x y] (x.0, *y), preds (|k: u32| eq(P2(k))), eq, out |v| P2(v));
shape!(LtMade, MLtG, Val, Val, false, yes, new MLtG::new(), expect |o| o.expect_made(), call |o, a, b| *o.made(a, b).0, cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| lr(v));
pub trait LtSp { fn lsp<'r>(&self, a: u32, b: u32) -> Lr<'r>; }
mock! { pub LtSpz<X: 'static> {} impl LtSp for LtSpz<u32> { fn lsp<'r>(&self, a: u32, b: u32) -> Lr<'r>; } impl LtSp for LtSpz<u64> { fn lsp<'r>(&self, a: u32, b: u32) -> Lr<'r>; } }
shape!(LtSpzU, MockLtSpz<u32>, Val, Val, false, yes, new MockLtSpz::<u32>::new(), expect |o| o.expect_lsp(), call |o, a, b| *o.lsp(a, b).0, cp |o| o.checkpoint(),
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| lr(v));
#[automock]
pub mod rffi {
    extern "Rust" { pub fn mharness_rffi_foo(a: u32, b: u32) -> u32; }
    extern "C-unwind" { pub fn mharness_uffi_foo(a: u32, b: *const u32) -> u32; }
}
sshape!(FfiR, Val, Val, yes, own [mock_rffi::mharness_rffi_foo_context] 0 mock_rffi::mharness_rffi_foo_context, expect |c| c.expect(), call |a, b| unsafe { mock_rffi::mharness_rffi_foo(a, b) },
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);
pub mod consts {
    use mockall::automock;
    pub struct Cst {}
    #[automock]
    impl Cst { pub const K: u32 = 5; pub fn foo(&self, _a: u32, _b: [u32; 2]) -> u32 { unimplemented!() } #[expect(clippy::all)] #[inline] #[cold] #[must_use] pub fn bar(self: Box<Self>, _a: u32, _b: u32) -> u32 { unimplemented!() } }
    pub trait Tc { const Q: u32; fn tc(a: u32, b: u32) -> u32; }
    pub struct Ctc {}
    #[automock]
    impl Tc for Ctc { const Q: u32 = 9; fn tc(_a: u32, _b: u32) -> u32 { unimplemented!() } }
}
use consts::Tc;
shape!(CstFoo, consts::MockCst, Val, Val, false, yes, new consts::MockCst::new(), expect |o| o.expect_foo(), call |o, a, b| if consts::MockCst::K == 5 { o.foo(a, [7, b]) } else { !0 }, cp |o| o.checkpoint(),
    args [x y] (x, y[1]), wargs [x y] (*x, y[1]), preds eq, (|k: u32| eq([7, k])), out |v| v);
sshape!(CstTc, Val, Val, yes, own [consts::MockCtc::tc_context] 0 consts::MockCtc::tc_context, expect |c| c.expect(), call |a, b| if <consts::MockCtc as Tc>::Q == 9 { <consts::MockCtc as Tc>::tc(a, b) } else { !0 },
    args [x y] (x, y), wargs [x y] (*x, *y), preds eq, eq, out |v| v);

/// Run a macro for every shape of a list
#[macro_export]
macro_rules! for_shapes {
    (core, $m:ident, $($x:tt)*) => { $m! { $($x)* ; Inh AutoT ManyBaz Stat GenM GenS RefRet MutRet } };
    (all, $m:ident, $($x:tt)*) => { $m! { $($x)* ;
        Inh InhBar MutSelf AutoT ManyFoo ManyBar ManyBaz ManyQux ManyInh Stat StatBar AutoS Modl ModlBar Ffi FfiBar
        GenM GenM16 GenRet GenTwo GenS GenSP GenSRet GMod GStr GStrGm GStrStat GTr AssocT AssocBar SpzU
        RefRet MutRet GenRefRet GenMutRet DynRet DynMutRet SliRet SliMutRet StatRefRet AutoRefRet AutoMutRet
        RefArg SliceArg LtArg OwnedArg ConcV ConcR ConcTwo ConcRefRet ConcS CloArg AsyM AsyS ImplIt ImplFu BoxRet AsyT AutoImpl AutoImplS MixI MixA MixMi MixMa
        GenNoneA Gen3A SGen3A RGen3A MGen3A GenUns LtRet LtRefRet AnonLt OptRet ArcSelf BoxSelf OddUns OddExt OddDfl OddRaw OddConv ImplFor ConcGen DynArg NonSend Ctor
        Con2Sl Con2Wh Con2Mr Con2Pa WhClo WhGen WhStat WhRef WhInh WhTr WhTrS TrGen TrGenS SpzGm LtStr StDyn MockRet CtorG SelfArg Ass2Foo Ass2Bar LeafFoo LeafBar LeafWh DeepFoo DeepBar DeepBaz AsTrM As2S UnitM UnitS UnitTr UnitG LtTwo LtFoo LtMade LtSpzU FfiR CstFoo CstTc } };
    (val, $m:ident, $($x:tt)*) => { $m! { $($x)* ;
        Inh MutSelf AutoT ManyFoo ManyBaz ManyQux ManyInh Stat AutoS Modl Ffi
        GenM GenRet GenTwo GenS GenSRet GMod GStr GStrGm GStrStat GTr AssocT AssocBar SpzU StatRefRet
        RefArg SliceArg LtArg OwnedArg ConcV ConcR ConcTwo ConcS CloArg AsyM AsyS ImplIt ImplFu BoxRet AsyT AutoImpl AutoImplS
        GenNoneA Gen3A SGen3A LtRet OptRet ArcSelf BoxSelf OddUns OddExt OddRaw ImplFor ConcGen DynArg NonSend Ctor
        Con2Sl Con2Wh Con2Pa WhClo WhGen WhStat WhInh WhTr WhTrS TrGen TrGenS SpzGm LtStr StDyn MockRet CtorG SelfArg Ass2Foo LeafFoo LeafBar LeafWh DeepFoo DeepBaz AsTrM As2S UnitM UnitS UnitTr UnitG LtTwo LtMade LtSpzU FfiR CstFoo CstTc } };
    (core8, $m:ident, $($x:tt)*) => { $m! { $($x)* ; Inh AutoT ManyBaz Stat GenM GenS RefArg AsyM } };
    // those whose values have a default that reads as 0
    (defs, $m:ident, $($x:tt)*) => { $m! { $($x)* ; Inh InhBar AutoT ManyFoo ManyBaz ManyInh Stat AutoS Modl Ffi GenM GenRet GenTwo GenS GenSRet GMod GStr GStrStat GTr SpzU
        RefRet MutRet GenRefRet GenMutRet AutoRefRet AutoMutRet RefArg SliceArg ConcV ConcR ConcTwo ConcRefRet ConcS AsyM AsyS AsyT AutoImpl AutoImplS GenNoneA Gen3A SGen3A RGen3A MGen3A OddUns OddExt OddDfl OddRaw ImplFor DynArg
        Con2Sl Con2Wh Con2Mr WhClo WhGen WhStat WhRef WhInh WhTr WhTrS TrGen TrGenS SpzGm LtStr LeafBar LeafWh AsTrM As2S LtTwo FfiR CstFoo CstTc } };
    // those whose harness code does not itself leak
    (noleak, $m:ident, $($x:tt)*) => { $m! { $($x)* ;
        Inh MutSelf AutoT ManyFoo ManyBaz ManyQux Stat AutoS Modl Ffi GenM GenRet GenTwo GenS GenSRet GMod GStr GStrGm GStrStat GTr AssocT SpzU
        RefRet MutRet GenRefRet GenMutRet DynRet DynMutRet SliRet SliMutRet AutoRefRet AutoMutRet RefArg SliceArg LtArg OwnedArg ConcV ConcRefRet ConcS AsyM AsyS BoxRet
        Gen3A SGen3A RGen3A MGen3A GenUns ArcSelf BoxSelf OddUns OddExt ImplFor ConcGen DynArg NonSend Ctor
        Con2Sl Con2Wh Con2Mr Con2Pa WhClo WhGen WhStat WhRef WhTr TrGen TrGenS SpzGm MockRet CtorG SelfArg Ass2Foo Ass2Bar LeafFoo LeafWh DeepFoo DeepBar DeepBaz AsTrM As2S UnitM UnitS UnitTr LtTwo LtFoo FfiR CstFoo CstTc } };
    (refs, $m:ident, $($x:tt)*) => { $m! { $($x)* ; RefRet GenRefRet DynRet SliRet AutoRefRet ConcRefRet RGen3A LtRefRet WhRef Ass2Bar LtFoo } };
    (muts, $m:ident, $($x:tt)*) => { $m! { $($x)* ; MutRet GenMutRet DynMutRet SliMutRet AutoMutRet MGen3A Con2Mr DeepBar } };
    (statics, $m:ident, $($x:tt)*) => { $m! { $($x)* ; Stat StatBar AutoS AutoSBar Modl ModlBar Ffi FfiBar GenS GenSP GenSRet GMod GStrStat GStrStatP MixI MixA MixB ConcS AsyS AutoImplS SGen3A SGen3B Ctor
        WhStat WhTrS TrGenS CtorG LeafFoo LeafBar LeafWh As2S UnitS FfiR CstTc } };
}

/// Define one harness per shape of a list: `h_<name>__<Shape>` runs `driver::<Shape>(args)`.
#[macro_export]
macro_rules! each {
    ($list:ident, $n:literal, $d:ident $args:tt) => { for_shapes!($list, each_emit, $n $d $args); };
}
#[macro_export]
macro_rules! each_emit {
    ($n:literal $d:ident $args:tt ; $($s:ident)*) => { $( const _: () = {
        #[export_name = concat!("h_", $n, "__", stringify!($s))]
        pub fn harness() { $d::<$crate::shapes::$s> $args }
    }; )* };
}
/// Define one harness: `h_<name>` runs the expression.
#[macro_export]
macro_rules! one {
    ($n:literal, $e:expr) => { const _: () = {
        #[export_name = concat!("h_", $n)]
        pub fn harness() { $e }
    }; };
}

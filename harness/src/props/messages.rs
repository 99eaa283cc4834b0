//! C18: what failure messages say
use super::util::*;

/// How messages name the mocked item
pub trait Named: Shape {
    /// in front of a call's arguments
    const CALL: &'static str;
    /// in front of an expectation
    const NAME: &'static str;
    fn args(a: u32, b: u32) -> String;
    /// The first letter stands for the first argument, the second one for the second one: u if it is printed and compared as an integer
    const KINDS: &'static str;
}
macro_rules! uu { ($a:ident, $b:ident) => { format!("{}, {}", $a, $b) }; }
macro_rules! qu { ($a:ident, $b:ident) => { format!("?, {}", $b) }; }
macro_rules! uq { ($a:ident, $b:ident) => { format!("{}, ?", $a) }; }
macro_rules! qq { ($a:ident, $b:ident) => { format!("?, ?") }; }
macro_rules! fu { ($a:ident, $b:ident) => { format!("{}, {}", $a, $b) }; }
macro_rules! up { ($a:ident, $b:ident) => { format!("{}, P2", $a) }; }
macro_rules! su { ($a:ident, $b:ident) => { format!("Some({}), {}", $a, $b) }; }
macro_rules! us { ($a:ident, $b:ident) => { format!("{}, Some({})", $a, $b) }; }
macro_rules! gt { ($a:ident, $b:ident) => { format!("Some({}), ({}, 7)", $a, $b) }; }
macro_rules! lt { ($a:ident, $b:ident) => { format!("{}, Lt({})", $a, $b) }; }
macro_rules! ov { ($a:ident, $b:ident) => { format!("B, [1, {}]", $b) }; }
macro_rules! named {
    ($($s:ident $c:literal $n:literal $m:ident),* $(,)?) => { $(
        impl Named for crate::shapes::$s {
            const CALL: &'static str = $c;
            const NAME: &'static str = $n;
            fn args(a: u32, b: u32) -> String { $m!(a, b) }
            const KINDS: &'static str = stringify!($m);
        }
    )* };
}
named! {
    Inh "MockInh::foo" "MockInh::foo" uu, InhBar "MockInh::bar" "MockInh::bar" uu, MutSelf "MockMutSelf::foo" "MockMutSelf::foo" qu,
    AutoT "MockAuto::foo" "MockAuto::foo" uu, ManyFoo "MockMany::foo" "MockMany::foo" uu, ManyBar "MockMany::bar" "MockMany::bar" uu,
    ManyBaz "MockMany::baz" "MockMany::baz" uu, ManyQux "MockMany::qux" "MockMany::qux" uu, ManyInh "MockMany::inh" "MockMany::inh" uu,
    Stat "MockStat::foo" "MockStat::foo" uu, StatBar "MockStat::bar" "MockStat::bar" uu, AutoS "MockAutoStat::foo" "MockAutoStat::foo" uq,
    Modl "mock_modl::foo" "foo" uu, ModlBar "mock_modl::bar" "bar" uu, Ffi "mock_ffi::mharness_ffi_foo" "mharness_ffi_foo" uu,
    GenM "MockGenM::foo" "MockGenM::foo" uu, GenRet "MockGenM::ret" "MockGenM::ret" uu, GenTwo "MockGenM::two" "MockGenM::two" up,
    RefRet "MockRefR::foo" "MockRefR::foo" uu, MutRet "MockRefR::bar" "MockRefR::bar" uu, GenRefRet "MockRefR::gen" "MockRefR::gen" uu,
    GenMutRet "MockRefR::genm" "MockRefR::genm" uu, DynRet "MockRefR::dy" "MockRefR::dy" uu, SliMutRet "MockRefR::slim" "MockRefR::slim" uu,
    RefArg "MockRefA::foo" "MockRefA::foo" uu, LtArg "MockRefA::lt" "MockRefA::lt" lt, OwnedArg "MockRefA::owned" "MockRefA::owned" ov,
    LtRet "MockLtR::foo" "MockLtR::foo" uu, OptRet "MockLtR::opt" "MockLtR::opt" gt, AssocT "MockAssoc::foo" "MockAssoc::foo" uu, AssocBar "MockAssoc::bar" "MockAssoc::bar" us,
    ArcSelf "MockRecv::arc" "MockRecv::arc" uu, OddUns "MockOdd::uns" "MockOdd::uns" uu, OddExt "MockOdd::ext" "MockOdd::ext" uu, OddDfl "MockOdd::dfl" "MockOdd::dfl" uu,
    NonSend "MockNSend::foo" "MockNSend::foo" fu, SpzU "MockSpz::foo" "MockSpz::foo" uu,
    UnitM "MockUnit::foo" "MockUnit::foo" uu, LtMade "MockLtG::made" "MockLtG::made" uu, WhTr "MockWhS::foo" "MockWhS::foo" uu, CstTc "MockCtc::tc" "MockCtc::tc" uu, FfiR "mock_rffi::mharness_rffi_foo" "mharness_rffi_foo" uu,
}
macro_rules! for_named {
    ($m:ident, $($x:tt)*) => { $m! { $($x)* ; Inh InhBar MutSelf AutoT ManyFoo ManyBar ManyBaz ManyQux ManyInh Stat StatBar AutoS Modl ModlBar Ffi
        GenM GenRet GenTwo RefRet MutRet GenRefRet GenMutRet DynRet SliMutRet RefArg LtArg OwnedArg LtRet OptRet AssocT AssocBar ArcSelf OddUns OddExt OddDfl NonSend SpzU UnitM LtMade WhTr CstTc FfiR } };
}
macro_rules! each_named { ($n:literal, $d:ident $args:tt) => { for_named!(each_emit, $n $d $args); }; }

fn msg<R>(f: impl FnOnce() -> R) -> Option<String> { catch(f).err().map(|m| m + "\n") }
/// How an expectation is described
fn said<S: Named>(m: M) -> String {
    format!("{}: Expectation({}", S::NAME, match m.k { MK::None => "<anything>)", MK::Withf => "<function>)", MK::WithfSt => "<single threaded function>)", MK::With => "" })
}
fn describes<S: Named>(t: &str, m: M) {
    check(has(t, &said::<S>(m)), "the message names the method and the kind of matcher");
    if m.k == MK::With && m.ua && S::KINDS.as_bytes()[0] == b'u' { check(has(t, &format!("(var == {},", m.a)), "the message shows the operand of the predicate of the first argument"); }
    if m.k == MK::With && m.ub && S::KINDS.as_bytes()[1] == b'u' { check(has(t, &format!(", var == {})", m.b)), "the message shows the operand of the predicate of the last argument"); }
}
/// A call that no expectation serves
fn unmatched<S: Named>() {
    must("no expectation");
    must("no match");
    let mut o = S::new();
    let m = any_match::<S>();
    let n = choose(3, "n");
    for _ in 0..n { S::expect(&mut o, &spec(T::Unset, m, rv::<S>(1)), None); }
    let (a, b) = (any_u32("a"), any_u32("b"));
    let _ = S::call;
    if n > 0 { assume(!m.hits(a, b)); }
    let t = msg(|| S::call(&mut o, a, b));
    check(t.is_some(), "an unmatched call panics");
    check(has(&t.unwrap(), &format!("{}({}): No matching expectation found", S::CALL, S::args(a, b))), "the message shows the call that nothing matched, with its arguments in order");
    cover(if n == 0 { "no expectation" } else { "no match" });
    std::mem::forget(o);
}
/// Calls beyond the maximum of a sole expectation
fn excess<S: Named>(k: usize) {
    must("never");
    must("too many");
    let mut o = S::new();
    let m = any_match::<S>();
    let (a, b) = (any_u32("a"), any_u32("b"));
    assume(m.hits(a, b));
    let hi = choose(k as u32 + 1, "hi") as usize;
    S::expect(&mut o, &spec(match choose(3, "form") { 0 => T::N(hi), 1 => T::ToIncl(hi), _ => { let lo = any_usize("lo"); assume(lo <= hi); T::Incl(lo, hi) } }, m, rv::<S>(1)), None);
    for _ in 0..hi { S::call(&mut o, a, b); }
    for i in 0..2 {
        let t = msg(|| S::call(&mut o, a, b));
        check(t.is_some(), "an excess call panics");
        let t = t.unwrap();
        describes::<S>(&t, m);
        if hi == 0 {
            check(has(&t, "should not have been called"), "the message says that no call was expected");
            cover("never");
        } else {
            check(has(&t, &format!("called {} times which is more than the expected {}\n", hi + i + 1, hi)), "the message shows the number of calls and the maximum");
            cover("too many");
        }
    }
    let t = match choose(2, "end") {
        0 => { let t = msg(|| S::checkpoint(&mut o)); std::mem::forget(o); t }
        _ => msg(|| drop(o)),
    };
    check(t.is_some(), "after a caught excess call the drop or checkpoint panics");
    let t = t.unwrap();
    check(has(&t, &format!(" called {} time(s) which is more than expected {}\n", hi + 2, hi)), "the message shows the number of calls and the maximum");
    describes::<S>(&t, m);
}
/// Unmet minima, when dropped or checkpointed
fn unmet<S: Named>(k: usize) {
    must("drop");
    must("checkpoint");
    let mut o = S::new();
    let m0 = any_match::<S>();
    let m1 = M::ANY;
    let (lo, l1) = (any_usize("lo"), any_usize("l1"));
    let two = choose(2, "second") == 1;
    S::expect(&mut o, &spec(T::From(lo), m0, rv::<S>(1)), None);
    if two { S::expect(&mut o, &spec(T::From(l1), m1, rv::<S>(2)), None); }
    let n = choose(k as u32, "calls") as usize;
    let (a, b) = (any_u32("a"), any_u32("b"));
    assume(m0.hits(a, b));
    for _ in 0..n { S::call(&mut o, a, b); }
    assume(lo > n || (two && l1 > 0));
    let t = match choose(2, "end") {
        0 => { let t = msg(|| S::checkpoint(&mut o)); std::mem::forget(o); cover("checkpoint"); t }
        _ => { let t = msg(|| drop(o)); cover("drop"); t }
    };
    check(t.is_some(), "an unmet minimum makes the drop or checkpoint panic");
    let t = t.unwrap();
    if lo > n {
        check(has(&t, &format!(" called {} time(s) which is fewer than expected {}\n", n, lo)), "the message shows the number of calls and the minimum of the first unmet expectation");
        describes::<S>(&t, m0);
    } else {
        check(has(&t, &format!(" called 0 time(s) which is fewer than expected {}\n", l1)), "the message shows the number of calls and the minimum of the unmet expectation");
        describes::<S>(&t, m1);
    }
}
/// No value, or a value that was moved out already
fn novalue<S: Named>() {
    must("reached");
    let mut o = S::new();
    let m = any_match::<S>();
    let (a, b) = (any_u32("a"), any_u32("b"));
    assume(m.hits(a, b));
    S::expect(&mut o, &spec(T::Unset, m, R::None), None);
    let t = msg(|| S::call(&mut o, a, b));
    check(t.is_some(), "a call without a return value panics");
    describes::<S>(&t.unwrap(), m);
    cover("reached");
    std::mem::forget(o);
}
/// A call out of sequence
fn unordered<S: Named>() {
    must("reached");
    let mut o = S::new();
    let mut seq = Sequence::new();
    let ka = any_u32("ka");
    S::expect(&mut o, &spec(T::Once, M { k: MK::Withf, ua: true, ub: true, a: ka, b: 0 }, rv::<S>(1)), Some(&mut seq));
    S::expect(&mut o, &spec(T::Once, M::ANY, rv::<S>(2)), Some(&mut seq));
    let (a, b) = (any_u32("a"), any_u32("b"));
    assume(!(a == ka && b == 0));
    let t = msg(|| S::call(&mut o, a, b));
    check(t.is_some(), "a call out of sequence panics");
    check(has(&t.unwrap(), &format!("{}({}): Method sequence violation", S::CALL, S::args(a, b))), "the message shows the call that was out of sequence, with its arguments in order");
    cover("reached");
    std::mem::forget(o);
}
each_named!("c18_unmatched", unmatched());
each_named!("c18_excess", excess(2));
each_named!("c18_unmet", unmet(2));
each_named!("c18_none", novalue());
each_named!("c18_order", unordered());
each_named!("c18d_excess", excess(5));
each_named!("c18d_unmet", unmet(5));

// ---- more arguments --------------------------------------------------------------------
#[derive(Debug)]
pub struct Nested { pub x: u32, pub y: Option<(u16, u8)> }
pub struct Opaque;
mockall::mock! { pub Msg {
    pub fn none(&self) -> u32;
    pub fn many(&self, a: u8, b: Opaque, c: Nested, d: &[u32], e: &mut u64, f: u32, g: Vec<Option<u32>>) -> u32;
    pub fn pats(&self, a: (u32, u32), mut b: u32) -> u32;
    pub fn gen<X: 'static, Y: std::fmt::Debug + 'static>(&self, a: X, b: Y) -> u32;
} }
fn manyargs() {
    must("reached");
    let m = MockMsg::new();
    let (a, c, y, z, d, e, f, g) = (any_u8("a"), any_u32("c"), any_u16("y"), any_u8("z"), any_u32("d"), any_u64("e"), any_u32("f"), any_u32("g"));
    let t = msg(|| m.many(a, Opaque, Nested { x: c, y: Some((y, z)) }, &[d, f], &mut { e }, f, vec![None, Some(g)])).unwrap();
    check(has(&t, &format!("MockMsg::many({}, ?, Nested {{ x: {}, y: Some(({}, {})) }}, [{}, {}], {}, {}, [None, Some({})]): No matching", a, c, y, z, d, f, e, f, g)), "the message shows all arguments in order");
    let t = msg(|| m.none()).unwrap();
    check(has(&t, "MockMsg::none(): No matching"), "the message shows a call without arguments");
    let t = msg(|| m.pats((c, d), f)).unwrap();
    check(has(&t, &format!("MockMsg::pats(({}, {}), {}): No matching", c, d, f)), "the message shows all arguments in order");
    let t = msg(|| m.gen::<u32, u32>(c, d)).unwrap();
    check(has(&t, &format!("MockMsg::gen(?, {}): No matching", d)), "the message shows the arguments known to be printable");
    cover("reached");
}
one!("c18_manyargs", manyargs());

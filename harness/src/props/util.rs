pub use crate::model::*;
pub use crate::shapes::*;
pub use crate::sym::*;
pub use mockall::Sequence;

/// The usual way for the shape to produce a value that depends on the arguments
pub fn rv<S: Shape>(v: u32) -> R { match S::KIND { Kind::Ref => R::Const(v), _ => R::Ret(v) } }
/// The usual way for the shape to produce the same value on each call
pub fn rc<S: Shape>(v: u32) -> R { match S::KIND { Kind::Mut => R::Var(v), _ => if S::CONST { R::Const(v) } else { R::Ret(v) } } }
/// What an expectation with `rc` yields on its n-th call
pub fn rcv<S: Shape>(v: u32, a: u32, b: u32, n: usize) -> u32 { match rc::<S>(v) { R::Ret(_) => f(v, a, b, n as u32), _ => v } }
/// Any way the shape has of producing a value
pub fn any_ret<S: Shape>(v: u32) -> R {
    match S::KIND {
        Kind::Ref => R::Const(v),
        Kind::Mut => match choose(3, "ret") { 0 => R::Var(v), 1 => R::Ret(v), _ => R::RetSt(v) },
        Kind::Val => match choose(if S::CONST { 4 } else { 2 }, "ret") { 0 => R::Ret(v), 1 => R::RetSt(v), 2 => R::Const(v), _ => R::ConstSt(v) },
    }
}
/// Any return setting the shape has, the ones that work once included
pub fn any_kept<S: Shape>(v: u32) -> R {
    match S::KIND {
        Kind::Val => match choose(if S::CONST { 6 } else { 4 }, "ret") { 0 => R::Ret(v), 1 => R::RetSt(v), 2 => R::Once(v), 3 => R::OnceSt(v), 4 => R::Const(v), _ => R::ConstSt(v) },
        _ => any_ret::<S>(v),
    }
}
/// Any kind of matcher the shape has, over any of its positions
pub fn any_match<S: Shape>() -> M {
    let k = match choose(if S::WITH { 3 } else { 2 }, "matcher") { 0 => MK::Withf, 1 => MK::WithfSt, _ => MK::With };
    let w = choose(4, "positions");
    M { k, ua: w & 1 != 0, ub: w & 2 != 0, a: any_u32("ka"), b: any_u32("kb") }
}
pub fn same(r: &Result<u32, String>, w: Option<u32>) -> bool {
    match (r, w) { (Ok(x), Some(y)) => *x == y, (Err(_), None) => true, _ => false }
}
pub fn call<S: Shape>(o: &mut S::Owner, a: u32, b: u32) -> Result<u32, String> { catch(|| S::call(o, a, b)) }
/// Symbolic bounds of a call count: any lo <= hi
pub fn any_bounds() -> (usize, usize) {
    let (lo, hi) = (any_usize("lo"), any_usize("hi"));
    assume(lo <= hi);
    assume(hi < usize::MAX);
    (lo, hi)
}
pub const INF: usize = usize::MAX;

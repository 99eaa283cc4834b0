//! The reference model: what the documentation says a set of expectations does.
use crate::shapes::*;

/// The numbers of calls a `times` argument allows (both ends included), or None
/// if the argument is rejected.  usize::MAX stands for "no limit".
pub fn bounds(t: T) -> Option<(usize, usize)> {
    const INF: usize = usize::MAX;
    match t {
        T::Unset | T::Full => Some((0, INF)),
        T::N(n) => Some((n, n)),
        T::Once => Some((1, 1)),
        T::Never => Some((0, 0)),
        T::Range(a, b) => if a < b { Some((a, b - 1)) } else { None },
        T::From(a) => Some((a, INF)),
        T::To(b) => if 0 < b { Some((0, b - 1)) } else { None },
        T::Incl(a, b) => if a <= b { Some((a, b)) } else { None },
        T::ToIncl(b) => Some((0, b)),
    }
}

/// An expectation of the model
#[derive(Clone, Copy)]
pub struct E { pub lo: usize, pub hi: usize, pub m: M, pub r: R, pub n: usize }
impl E {
    pub fn new(s: &Spec) -> E {
        let (lo, hi) = match bounds(s.t) { Some(x) => x, None => unreachable!() };
        E { lo, hi, m: s.m, r: s.r, n: 0 }
    }
    pub fn sat(&self) -> bool { self.n >= self.lo && self.n <= self.hi }
    /// The value of the next call, if there is one to return
    pub fn value(&self, a: u32, b: u32) -> Option<u32> {
        match self.r {
            R::None => None,
            R::Const(v) | R::ConstSt(v) | R::Var(v) => Some(v),
            R::Ret(v) | R::RetSt(v) => Some(f(v, a, b, self.n as u32)),
            R::Once(v) | R::OnceSt(v) => if self.n == 0 { Some(f(v, a, b, 0)) } else { None },
        }
    }
}
/// The expectations of one method, oldest first
pub struct Model<const N: usize> { pub e: [E; N] }
impl<const N: usize> Model<N> {
    /// Which expectation serves the call: the first one that matches and has
    /// not been used up; a sole expectation is used even when used up.
    pub fn pick(&self, a: u32, b: u32) -> Option<usize> {
        let mut i = 0;
        while i < N {
            let e = &self.e[i];
            if e.m.hits(a, b) && (N == 1 || e.n < e.hi) { return Some(i); }
            i += 1;
        }
        None
    }
    /// One call: the value, or None if it must panic.
    pub fn call(&mut self, a: u32, b: u32) -> Option<u32> {
        let i = self.pick(a, b)?;
        let over = self.e[i].n >= self.e[i].hi;
        let v = if over { None } else { self.e[i].value(a, b) };
        self.e[i].n += 1;
        v
    }
    pub fn sat(&self) -> bool {
        let mut i = 0;
        while i < N { if !self.e[i].sat() { return false; } i += 1; }
        true
    }
}

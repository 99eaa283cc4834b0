//! Hash-consed bit-vector expressions with on-the-fly simplification.
//! Width 1 vectors double as booleans.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Var, Const, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Ite, ZExt, SExt, Extract, Concat,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u16, pub a: E, pub b: E, pub c: E, pub k: u128 }

pub struct Pool {
    pub nodes: Vec<Node>,
    map: HashMap<Node, E>,
    pub var_names: Vec<String>,
    vars_cache: HashMap<E, std::rc::Rc<Vec<u32>>>,
}

#[inline] pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
#[inline] pub fn sext128(v: u128, w: u16) -> i128 {
    if w >= 128 { v as i128 } else { let s = 128 - w as u32; ((v << s) as i128) >> s }
}

static mut POOL: Option<Pool> = None;
#[allow(static_mut_refs)]
pub fn pool() -> &'static mut Pool {
    unsafe {
        if POOL.is_none() {
            POOL = Some(Pool { nodes: vec![], map: HashMap::new(), var_names: vec![], vars_cache: HashMap::new() });
        }
        POOL.as_mut().unwrap()
    }
}

pub fn eval_op(op: Op, w: u16, aw: u16, a: u128, b: u128) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => {
            let (x, y) = (sext128(a, aw), sext128(b, aw));
            if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u128) & m }
        }
        Op::SRem => {
            let (x, y) = (sext128(a, aw), sext128(b, aw));
            if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => {
            let x = sext128(a, w);
            let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            ((x >> s) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext128(a, aw) < sext128(b, aw)) as u128,
        Op::Sle => (sext128(a, aw) <= sext128(b, aw)) as u128,
        _ => return None,
    })
}

pub type Model = HashMap<E, u128>;

impl Pool {
    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) { return e; }
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        self.map.insert(n, e);
        e
    }
    #[inline] pub fn n(&self, e: E) -> Node { self.nodes[e as usize] }
    #[inline] pub fn w(&self, e: E) -> u16 { self.nodes[e as usize].w }
    pub fn var(&mut self, name: String, w: u16) -> E {
        let k = self.var_names.len() as u128;
        self.var_names.push(name);
        self.mk(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k })
    }
    pub fn konst(&mut self, v: u128, w: u16) -> E {
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) })
    }
    pub fn cval(&self, e: E) -> Option<u128> {
        let n = self.nodes[e as usize];
        if n.op == Op::Const { Some(n.k) } else { None }
    }
    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let aw = self.w(a);
        debug_assert!(aw == self.w(b), "width mismatch {:?} {} {}", op, aw, self.w(b));
        let w = match op { Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1, _ => aw };
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = eval_op(op, w, aw, x, y).unwrap();
            return self.konst(v, w);
        }
        // constants to the right for commutative operators
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            if ca.is_some() || (cb.is_none() && a > b) { std::mem::swap(&mut a, &mut b); }
        }
        let (ca, cb) = (self.cval(a), self.cval(b));
        let m = mask(aw);
        match op {
            Op::Add => {
                if cb == Some(0) { return a; }
                if let Some(k) = cb {
                    let na = self.n(a);
                    if na.op == Op::Add { if let Some(k2) = self.cval(na.b) { let kk = self.konst(k.wrapping_add(k2), aw); return self.bin(Op::Add, na.a, kk); } }
                }
            }
            Op::Sub => {
                if cb == Some(0) { return a; }
                if a == b { return self.konst(0, w); }
                if let Some(k) = cb { let kk = self.konst((!k).wrapping_add(1), aw); return self.bin(Op::Add, a, kk); }
            }
            Op::Mul => { if cb == Some(0) { return b; } if cb == Some(1) { return a; } }
            Op::UDiv => { if cb == Some(1) { return a; } }
            Op::And => {
                if cb == Some(0) { return b; }
                if cb == Some(m) { return a; }
                if a == b { return a; }
                let na = self.n(a);
                if let Some(k) = cb {
                    if na.op == Op::ZExt && (k & mask(self.w(na.a))) == mask(self.w(na.a)) { return a; }
                    if na.op == Op::And { if let Some(k2) = self.cval(na.b) { let kk = self.konst(k & k2, aw); return self.bin(Op::And, na.a, kk); } }
                }
            }
            Op::Or => { if cb == Some(0) { return a; } if cb == Some(m) { return b; } if a == b { return a; } }
            Op::Xor => {
                if cb == Some(0) { return a; }
                if a == b { return self.konst(0, w); }
                if let Some(k) = cb {
                    let na = self.n(a);
                    if na.op == Op::Xor { if let Some(k2) = self.cval(na.b) { let kk = self.konst(k ^ k2, aw); return self.bin(Op::Xor, na.a, kk); } }
                    if aw == 1 && k == 1 { return self.not(a); }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => { if cb == Some(0) { return a; } if ca == Some(0) { return a; } }
            Op::Eq => {
                if a == b { return self.konst(1, 1); }
                if let Some(k) = cb {
                    let na = self.n(a);
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if k > mask(iw) { return self.konst(0, 1); }
                            let kk = self.konst(k, iw); return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            let t = k & mask(iw);
                            if (sext128(t, iw) as u128) & m != k { return self.konst(0, 1); }
                            let kk = self.konst(t, iw); return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::Ite => {
                            let (t, f) = (self.cval(na.b), self.cval(na.c));
                            if let (Some(t), Some(f)) = (t, f) {
                                return match (t == k, f == k) {
                                    (true, true) => self.konst(1, 1),
                                    (true, false) => na.a,
                                    (false, true) => self.not(na.a),
                                    (false, false) => self.konst(0, 1),
                                };
                            }
                        }
                        Op::Add => if let Some(k2) = self.cval(na.b) { let kk = self.konst(k.wrapping_sub(k2), aw); return self.bin(Op::Eq, na.a, kk); },
                        Op::Xor => if let Some(k2) = self.cval(na.b) { let kk = self.konst(k ^ k2, aw); return self.bin(Op::Eq, na.a, kk); },
                        _ => {}
                    }
                    if aw == 1 { return if k == 1 { a } else { self.not(a) }; }
                }
                let (na, nb) = (self.n(a), self.n(b));
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Eq, na.a, nb.a); }
            }
            Op::Ult => {
                if a == b { return self.konst(0, 1); }
                if cb == Some(0) { return self.konst(0, 1); }
                if ca == Some(m) { return self.konst(0, 1); }
                if cb == Some(1) { let z = self.konst(0, aw); return self.bin(Op::Eq, a, z); }
                let na = self.n(a);
                if let Some(k) = cb { if na.op == Op::ZExt { let iw = self.w(na.a); if k > mask(iw) { return self.konst(1, 1); } let kk = self.konst(k, iw); return self.bin(Op::Ult, na.a, kk); } }
                let nb = self.n(b);
                if let Some(k) = ca { if nb.op == Op::ZExt { let iw = self.w(nb.a); if k >= mask(iw) { return self.konst(0, 1); } let kk = self.konst(k, iw); return self.bin(Op::Ult, kk, nb.a); } }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Ult, na.a, nb.a); }
            }
            Op::Ule => { let l = self.bin(Op::Ult, b, a); return self.not(l); }
            Op::Slt => { if a == b { return self.konst(0, 1); } }
            Op::Sle => { let l = self.bin(Op::Slt, b, a); return self.not(l); }
            _ => {}
        }
        self.mk(Node { op, w, a, b, c: 0, k: 0 })
    }
    /// Boolean negation. Represented as Eq(a, 0) on width 1.
    pub fn not(&mut self, a: E) -> E {
        debug_assert!(self.w(a) == 1);
        if let Some(v) = self.cval(a) { return self.konst(v ^ 1, 1); }
        let na = self.n(a);
        if na.op == Op::Xor && self.cval(na.b) == Some(1) { return na.a; }
        let one = self.konst(1, 1);
        self.mk(Node { op: Op::Xor, w: 1, a, b: one, c: 0, k: 0 })
    }
    pub fn ite(&mut self, c: E, t: E, f: E) -> E {
        if let Some(v) = self.cval(c) { return if v == 1 { t } else { f }; }
        if t == f { return t; }
        let w = self.w(t);
        if w == 1 {
            match (self.cval(t), self.cval(f)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                _ => {}
            }
        }
        let nc = self.n(c);
        if nc.op == Op::Xor && nc.w == 1 && self.cval(nc.b) == Some(1) { return self.ite(nc.a, f, t); }
        self.mk(Node { op: Op::Ite, w, a: c, b: t, c: f, k: 0 })
    }
    pub fn zext(&mut self, a: E, w: u16) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(v) = self.cval(a) { return self.konst(v, w); }
        let na = self.n(a);
        if na.op == Op::ZExt { return self.zext(na.a, w); }
        self.mk(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(v) = self.cval(a) { return self.konst(sext128(v, aw) as u128, w); }
        self.mk(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
    }
    /// bits [lo, lo+w)
    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let aw = self.w(a);
        if lo == 0 && w == aw { return a; }
        if let Some(v) = self.cval(a) { return self.konst(v >> lo, w); }
        let na = self.n(a);
        match na.op {
            Op::Extract => return self.extract(na.a, lo + na.k as u16, w),
            Op::ZExt => {
                let iw = self.w(na.a);
                if lo + w <= iw { return self.extract(na.a, lo, w); }
                if lo >= iw { return self.konst(0, w); }
                if lo == 0 { return self.zext(na.a, w); }
            }
            Op::SExt => {
                let iw = self.w(na.a);
                if lo + w <= iw { return self.extract(na.a, lo, w); }
                if lo == 0 { return self.sext(na.a, w); }
            }
            Op::Concat => {
                // a = high, b = low
                let lw = self.w(na.b);
                if lo + w <= lw { return self.extract(na.b, lo, w); }
                if lo >= lw { return self.extract(na.a, lo - lw, w); }
            }
            Op::Ite => if self.cval(na.b).is_some() || self.cval(na.c).is_some() {
                let t = self.extract(na.b, lo, w);
                let f = self.extract(na.c, lo, w);
                return self.ite(na.a, t, f);
            },
            Op::And | Op::Or | Op::Xor if self.cval(na.b).is_some() => {
                let t = self.extract(na.a, lo, w);
                let f = self.extract(na.b, lo, w);
                return self.bin(na.op, t, f);
            }
            _ => {}
        }
        self.mk(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 })
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let w = self.w(hi) + self.w(lo);
        if let (Some(h), Some(l)) = (self.cval(hi), self.cval(lo)) { let s = self.w(lo); return self.konst((h << s) | l, w); }
        if self.cval(hi) == Some(0) { return self.zext(lo, w); }
        let (nh, nl) = (self.n(hi), self.n(lo));
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + nl.w as u128 {
            return self.extract(nh.a, nl.k as u16, w);
        }
        if nh.op == Op::Extract && nh.a == lo && nh.k == nl.w as u128 { return self.extract(nh.a, 0, w); }
        self.mk(Node { op: Op::Concat, w, a: hi, b: lo, c: 0, k: 0 })
    }
    pub fn vars(&mut self, e: E) -> std::rc::Rc<Vec<u32>> {
        if let Some(v) = self.vars_cache.get(&e) { return v.clone(); }
        let n = self.n(e);
        let mut out: Vec<u32> = vec![];
        let kids: &[E] = match n.op {
            Op::Const => &[], Op::Var => { out.push(e); &[] }
            Op::ZExt | Op::SExt | Op::Extract => &[n.a],
            Op::Ite => &[n.a, n.b, n.c],
            _ => &[n.a, n.b],
        };
        let kids = kids.to_vec();
        for k in kids { let v = self.vars(k); out.extend(v.iter()); }
        out.sort_unstable(); out.dedup();
        let r = std::rc::Rc::new(out);
        self.vars_cache.insert(e, r.clone());
        r
    }
    /// Evaluate under a model; unset variables are 0.
    pub fn eval(&self, e: E, m: &Model, memo: &mut HashMap<E, u128>) -> u128 {
        let n = self.n(e);
        match n.op {
            Op::Const => return n.k,
            Op::Var => return *m.get(&e).unwrap_or(&0),
            _ => {}
        }
        if let Some(v) = memo.get(&e) { return *v; }
        let v = match n.op {
            Op::Ite => if self.eval(n.a, m, memo) == 1 { self.eval(n.b, m, memo) } else { self.eval(n.c, m, memo) },
            Op::ZExt => self.eval(n.a, m, memo),
            Op::SExt => (sext128(self.eval(n.a, m, memo), self.w(n.a)) as u128) & mask(n.w),
            Op::Extract => (self.eval(n.a, m, memo) >> n.k) & mask(n.w),
            Op::Concat => { let l = self.w(n.b); (self.eval(n.a, m, memo) << l) | self.eval(n.b, m, memo) }
            _ => { let a = self.eval(n.a, m, memo); let b = self.eval(n.b, m, memo); eval_op(n.op, n.w, self.w(n.a), a, b).unwrap() }
        };
        memo.insert(e, v);
        v
    }
    /// Rebuild `e` with known sub-expressions replaced by constants.
    pub fn subst(&mut self, e: E, known: &HashMap<E, u128>, memo: &mut HashMap<E, E>) -> E {
        let n = self.n(e);
        if n.op == Op::Const { return e; }
        if let Some(&v) = known.get(&e) { return self.konst(v, n.w); }
        if n.op == Op::Var { return e; }
        if let Some(&r) = memo.get(&e) { return r; }
        let r = match n.op {
            Op::Ite => { let c = self.subst(n.a, known, memo); let t = self.subst(n.b, known, memo); let f = self.subst(n.c, known, memo); self.ite(c, t, f) }
            Op::ZExt => { let a = self.subst(n.a, known, memo); self.zext(a, n.w) }
            Op::SExt => { let a = self.subst(n.a, known, memo); self.sext(a, n.w) }
            Op::Extract => { let a = self.subst(n.a, known, memo); self.extract(a, n.k as u16, n.w) }
            Op::Concat => { let a = self.subst(n.a, known, memo); let b = self.subst(n.b, known, memo); self.concat(a, b) }
            _ => { let a = self.subst(n.a, known, memo); let b = self.subst(n.b, known, memo); self.bin(n.op, a, b) }
        };
        memo.insert(e, r);
        r
    }
}

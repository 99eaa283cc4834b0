//! LLVM IR data structures.
use std::rc::Rc;
use crate::expr::E;

pub type TyId = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty { Void, Int(u32), Ptr, Float(u32), Struct(Vec<TyId>, bool), Array(u64, TyId), Vector(u64, TyId), Opaque }

/// Run-time value.
#[derive(Clone, Debug)]
pub enum Val { C(u128), S(E), A(Rc<Vec<Val>>) }

impl Val {
    #[inline] pub fn c(&self) -> Option<u128> { if let Val::C(v) = self { Some(*v) } else { None } }
}

#[derive(Clone, Debug)]
pub enum Opd { R(u32), K(Val) }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cast { Trunc, ZExt, SExt, Same, Bitcast }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rmw { Xchg, Add, Sub, And, Or, Xor, Nand, Max, Min, UMax, UMin }

#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Ptr(Opd), Asm }

#[derive(Clone, Debug)]
pub enum Inst {
    Nop,
    Alloca { dst: u32, off: u64 },
    DynAlloca { dst: u32, elem: u64, n: Opd },
    Load { dst: u32, ty: TyId, ptr: Opd, atomic: bool },
    Store { ty: TyId, val: Opd, ptr: Opd, atomic: bool },
    Gep { dst: u32, base: Opd, off: i64, var: Vec<(Opd, u32, i64)> },
    Bin { dst: u32, op: Bin, w: u32, lanes: u32, a: Opd, b: Opd },
    ICmp { dst: u32, p: Pred, w: u32, lanes: u32, a: Opd, b: Opd },
    Cast { dst: u32, op: Cast, from: u32, to: u32, lanes: u32, fty: TyId, tty: TyId, a: Opd },
    Select { dst: u32, ty: TyId, c: Opd, a: Opd, b: Opd },
    Extract { dst: u32, a: Opd, idx: Vec<u32> },
    Insert { dst: u32, a: Opd, v: Opd, idx: Vec<u32> },
    ExtractElem { dst: u32, a: Opd, i: Opd },
    InsertElem { dst: u32, a: Opd, v: Opd, i: Opd },
    Shuffle { dst: u32, a: Opd, b: Opd, na: u32, mask: Vec<u32> },
    Call { dst: Option<u32>, callee: Callee, args: Vec<Opd>, argtys: Vec<TyId>, ret: TyId, invoke: Option<(u32, u32)> },
    LandingPad { dst: u32, cleanup: bool, catch: bool, filter: bool },
    CmpXchg { dst: u32, w: u32, ptr: Opd, old: Opd, new: Opd },
    AtomicRmw { dst: u32, op: Rmw, w: u32, ptr: Opd, val: Opd },
    Freeze { dst: u32, a: Opd },
    Unsupported(String),
    Br(u32),
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { v: Opd, w: u32, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Opd>),
    Resume(Opd),
    Unreachable,
}

#[derive(Debug)]
pub struct Phi { pub dst: u32, pub inc: Vec<(u32, Opd)> }

#[derive(Debug)]
pub struct Block { pub phis: Vec<Phi>, pub insts: Vec<Inst> }

#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub nregs: u32,
    pub nparams: u32,
    pub frame: u64,
    pub blocks: Vec<Block>,
    pub ret: TyId,
}

//! Path-forking symbolic executor for LLVM IR.
use crate::expr::*;
use crate::ir::*;
use crate::ll::*;
use crate::mem::*;
use crate::solver::Solver;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame { pub f: Rc<Func>, pub blk: u32, pub ip: u32, pub regs: Vec<Val>, pub fobj: u64 }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Status { Ready, Futex(u64), Join(usize), Done }

#[derive(Clone)]
pub struct Thread { pub frames: Vec<Frame>, pub status: Status, pub exc: u64, pub sync_ok: bool }

#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub threads: Vec<Thread>,
    pub cur: usize,
    pub pc: Vec<E>,
    pub known: HashMap<E, u128>,
    pub model: Rc<Model>,
    pub inputs: Vec<(String, u16, Val)>,
    pub nin: usize,
    pub steps: u64,
    pub tls: HashMap<(usize, u64), u64>,
    pub errno: u64,
    pub preempt: u32,
    pub nsched: u32,
    pub concs: u32,
    pub trace: Vec<String>,
    pub forks: u32,
    pub stdout: Vec<u8>,
    /// values written as abstract text
    pub fmts: Vec<E>,
}

#[derive(Clone, Debug)]
pub enum End { Ok, Infeasible, Violation(String), Error(String) }

#[derive(Clone, Debug)]
pub struct Viol { pub msg: String, pub inputs: Vec<(String, u16, u128)>, pub trace: Vec<String> }

#[derive(Default)]
pub struct Stats {
    pub paths: u64, pub infeasible: u64, pub forks: u64, pub steps: u64, pub checks: u64, pub checks_solver: u64,
    pub schedules: u64, pub max_steps: u64, pub max_inputs: u64,
    pub covers: BTreeMap<String, u64>,
    /// sample paths, to be replayed natively
    pub witnesses: Vec<Viol>,
    pub viols: Vec<Viol>, pub errors: Vec<String>,
    pub branches: u64, pub abstracted_fmt: u64,
}

pub struct Engine {
    pub pr: Program,
    pub solver: Solver,
    pub work: VecDeque<State>,
    pub st: Stats,
    pub used: Vec<bool>,
    builtin: Vec<Option<u16>>, // 0 = none, else index+1
    pub max_steps: u64,
    pub fixed: Option<Vec<u128>>,
    pub deadline: std::time::Instant,
    pub max_viols: usize,
    pub forked: bool,
    pub verbose: bool,
    str_display: Option<u32>,
}

enum Ctl { Next, End(End) }
type R<T> = Result<T, Ctl>;
fn viol<T>(s: impl Into<String>) -> R<T> { Err(Ctl::End(End::Violation(s.into()))) }
fn error<T>(s: impl Into<String>) -> R<T> { Err(Ctl::End(End::Error(s.into()))) }

pub fn to_e(v: &Val, w: u32) -> E { match v { Val::C(k) => pool().konst(*k, w as u16), Val::S(e) => *e, Val::A(_) => panic!("aggregate as scalar") } }
pub fn from_e(e: E) -> Val { match pool().cval(e) { Some(k) => Val::C(k), None => Val::S(e) } }

fn bin_op(op: Bin) -> Op { match op { Bin::Add => Op::Add, Bin::Sub => Op::Sub, Bin::Mul => Op::Mul, Bin::UDiv => Op::UDiv, Bin::SDiv => Op::SDiv, Bin::URem => Op::URem, Bin::SRem => Op::SRem, Bin::And => Op::And, Bin::Or => Op::Or, Bin::Xor => Op::Xor, Bin::Shl => Op::Shl, Bin::LShr => Op::LShr, Bin::AShr => Op::AShr } }
fn vbin(op: Op, w: u32, a: &Val, b: &Val) -> Val {
    match (a, b) {
        (Val::C(x), Val::C(y)) => Val::C(eval_op(op, w as u16, w as u16, *x, *y).unwrap()),
        (Val::A(x), Val::A(y)) => Val::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| vbin(op, w, p, q)).collect())),
        _ => from_e(pool().bin(op, to_e(a, w), to_e(b, w))),
    }
}
fn vicmp(p: Pred, w: u32, a: &Val, b: &Val) -> Val {
    if let (Val::A(x), Val::A(y)) = (a, b) { return Val::A(Rc::new(x.iter().zip(y.iter()).map(|(q, r)| vicmp(p, w, q, r)).collect())); }
    let (op, swap, neg) = match p { Pred::Eq => (Op::Eq, false, false), Pred::Ne => (Op::Eq, false, true), Pred::Ult => (Op::Ult, false, false), Pred::Ugt => (Op::Ult, true, false), Pred::Uge => (Op::Ult, false, true), Pred::Ule => (Op::Ult, true, true), Pred::Slt => (Op::Slt, false, false), Pred::Sgt => (Op::Slt, true, false), Pred::Sge => (Op::Slt, false, true), Pred::Sle => (Op::Slt, true, true) };
    let (a, b) = if swap { (b, a) } else { (a, b) };
    match (a, b) {
        (Val::C(x), Val::C(y)) => { let v = eval_op(op, 1, w as u16, *x, *y).unwrap(); Val::C(if neg { v ^ 1 } else { v }) }
        _ => { let e = pool().bin(op, to_e(a, w), to_e(b, w)); from_e(if neg { pool().not(e) } else { e }) }
    }
}
fn vcast(op: Cast, f: u32, t: u32, a: &Val) -> Val {
    if let Val::A(x) = a { return Val::A(Rc::new(x.iter().map(|q| vcast(op, f, t, q)).collect())); }
    match (op, a) {
        (Cast::Same, _) | (Cast::Bitcast, _) => a.clone(),
        (Cast::Trunc, Val::C(x)) => Val::C(x & mask(t as u16)),
        (Cast::ZExt, Val::C(x)) => Val::C(*x),
        (Cast::SExt, Val::C(x)) => Val::C((sext128(*x, f as u16) as u128) & mask(t as u16)),
        (Cast::Trunc, Val::S(e)) => from_e(pool().extract(*e, 0, t as u16)),
        (Cast::ZExt, Val::S(e)) => from_e(pool().zext(*e, t as u16)),
        (Cast::SExt, Val::S(e)) => from_e(pool().sext(*e, t as u16)),
        _ => unreachable!(),
    }
}
fn flatten(v: &Val, w: u32) -> Val { // vector of lanes -> integer (little endian)
    match v {
        Val::A(x) => {
            if x.iter().all(|q| matches!(q, Val::C(_))) && x.len() as u32 * w <= 128 { let mut r = 0u128; for (i, q) in x.iter().enumerate() { r |= q.c().unwrap() << (i as u32 * w); } return Val::C(r); }
            let mut acc: Option<E> = None;
            for q in x.iter() { let e = to_e(q, w); acc = Some(match acc { None => e, Some(a) => pool().concat(e, a) }); }
            from_e(acc.unwrap())
        }
        o => o.clone(),
    }
}
fn unflatten(v: &Val, n: u32, w: u32) -> Val {
    Val::A(Rc::new((0..n).map(|i| match v { Val::C(x) => Val::C((x >> (i * w)) & mask(w as u16)), Val::S(e) => from_e(pool().extract(*e, (i * w) as u16, w as u16)), _ => unreachable!() }).collect()))
}
fn insert_path(v: &Val, idx: &[u32], x: Val) -> Val {
    match v {
        Val::A(a) => { let mut n = (**a).clone(); n[idx[0] as usize] = if idx.len() == 1 { x } else { insert_path(&a[idx[0] as usize], &idx[1..], x) }; Val::A(Rc::new(n)) }
        _ => panic!("insertvalue into scalar"),
    }
}

impl State {
    fn top(&mut self) -> &mut Frame { let c = self.cur; self.threads[c].frames.last_mut().unwrap() }
    #[inline] fn val(&self, o: &Opd) -> Val { match o { Opd::K(v) => v.clone(), Opd::R(r) => self.threads[self.cur].frames.last().unwrap().regs[*r as usize].clone() } }
    fn set(&mut self, r: u32, v: Val) { self.top().regs[r as usize] = v; }
    pub fn add(&mut self, e: E, upd: Option<Rc<Model>>) {
        let n = pool().n(e);
        if n.op == Op::Const { return; }
        self.pc.push(e);
        self.learn(e, 1);
        if let Some(m) = upd { let mut mm = (*self.model).clone(); for (k, v) in m.iter() { mm.insert(*k, *v); } self.model = Rc::new(mm); }
    }
    fn learn(&mut self, e: E, v: u128) {
        self.known.insert(e, v);
        let n = pool().n(e);
        if n.op == Op::Xor && n.w == 1 && pool().cval(n.b) == Some(1) { self.learn(n.a, v ^ 1); }
        if n.op == Op::Eq && v == 1 { if let Some(k) = pool().cval(n.b) { self.known.insert(n.a, k); } }
        if n.op == Op::And && n.w == 1 && v == 1 { self.learn(n.a, 1); self.learn(n.b, 1); }
        if n.op == Op::Or && n.w == 1 && v == 0 { self.learn(n.a, 0); self.learn(n.b, 0); }
    }
    pub fn concrete_inputs(&self, m: &Model) -> Vec<(String, u16, u128)> {
        let mut memo = HashMap::new();
        self.inputs.iter().map(|(n, w, v)| (n.clone(), *w, match v { Val::C(k) => *k, Val::S(e) => pool().eval(*e, m, &mut memo), _ => 0 })).collect()
    }
}

const BUILTINS: &[&str] = &[
    "msym_any", "msym_assume", "msym_check", "msym_cover", "msym_trace", "msym_yield", "msym_spawn", "msym_join", "msym_preempt", "msym_concretize", "msym_heap", "msym_tid", // 0..11
    "rust_alloc", "rust_dealloc", "rust_realloc", "rust_alloc_zeroed", "nop", "abort", // 12..17
    "malloc", "calloc", "realloc", "free", "posix_memalign", // 18..22
    "memcmp", "bcmp", "memcpy", "memmove", "memset", "strlen", // 23..28
    "_Unwind_RaiseException", "hashmap_random_keys", "ret0", "retneg1", "write", "syscall", "__errno_location", "_Unwind_DeleteException", "pthread_self", // 29..37
    "llvm",  // 38
    "memchr", "fmt8", "fmt16", "fmt32", "fmt64", "fmt128", "msym_must", "msym_has",
];
/// Text written in place of an integer whose value is symbolic on the current path: refers to State::fmts.
fn sym_text(k: usize) -> Vec<u8> { format!("\u{1}{:05}\u{2}", k).into_bytes() }
fn sym_id(k: usize) -> u64 { HEAP_FIRST - 1 - k as u64 }
#[derive(Clone, Copy, PartialEq)]
enum Ch { B(u8), N(E) }
/// Text with abstract integers
fn chars(s: &State, b: &[u8]) -> Vec<Ch> {
    let (mut v, mut i) = (vec![], 0);
    while i < b.len() {
        if b[i] == 1 && i + 7 <= b.len() && b[i + 6] == 2 {
            if let Some(e) = std::str::from_utf8(&b[i + 1..i + 6]).ok().and_then(|x| x.parse::<usize>().ok()).and_then(|k| s.fmts.get(k)) { v.push(Ch::N(*e)); i += 7; continue; }
        }
        v.push(Ch::B(b[i]));
        i += 1;
    }
    v
}
/// Digits at the start of `t`: their value and number
fn digits(t: &[Ch]) -> Option<(u128, usize)> {
    let (mut v, mut n) = (0u128, 0);
    while let Some(Ch::B(c @ b'0'..=b'9')) = t.get(n) { v = v.checked_mul(10)?.checked_add((c - b'0') as u128)?; n += 1; }
    if n == 0 { None } else { Some((v, n)) }
}
/// Under what condition does `h` start with `n`?
fn starts(h: &[Ch], n: &[Ch]) -> Option<E> {
    let p = pool();
    let (mut i, mut j) = (0, 0);
    let mut c = p.konst(1, 1);
    while j < n.len() {
        let e = match (*h.get(i)?, n[j]) {
            (Ch::B(x), Ch::B(y)) => { if x != y { return None; } i += 1; j += 1; continue }
            (Ch::N(x), Ch::N(y)) => {
                i += 1; j += 1;
                let w = p.w(x).max(p.w(y));
                let (x, y) = (p.zext(x, w), p.zext(y, w));
                p.bin(Op::Eq, x, y)
            }
            (Ch::N(x), _) => { let (v, k) = digits(&n[j..])?; i += 1; j += k; let w = p.w(x); if v & !mask(w) != 0 { return None; } let y = p.konst(v, w); p.bin(Op::Eq, x, y) }
            (_, Ch::N(y)) => { let (v, k) = digits(&h[i..])?; i += k; j += 1; let w = p.w(y); if v & !mask(w) != 0 { return None; } let x = p.konst(v, w); p.bin(Op::Eq, x, y) }
        };
        c = p.bin(Op::And, c, e);
    }
    Some(c)
}
/// `<T as core::fmt::Trait>::fmt` for a primitive integer, bool or char: width of T.
fn fmt_int(p: &str) -> Option<u32> {
    let r = p.strip_prefix('<')?;
    let (t, r) = r.split_once(" as core::fmt::")?;
    let (tr, m) = r.split_once(">::")?;
    if m != "fmt" || !matches!(tr, "Debug" | "Display" | "LowerHex" | "UpperHex" | "Binary" | "Octal") { return None; }
    Some(match t { "u8" | "i8" | "bool" => 8, "u16" | "i16" => 16, "u32" | "i32" | "char" => 32, "u64" | "i64" | "usize" | "isize" => 64, "u128" | "i128" => 128, _ => return None })
}

impl Engine {
    pub fn new(pr: Program) -> Engine {
        let n = pr.fns.len();
        let str_display = pr.fns.iter().position(|f| f.pretty == "<str as core::fmt::Display>::fmt" && f.text.is_some()).map(|x| x as u32);
        Engine { str_display, pr, solver: Solver::new(), work: VecDeque::new(), st: Stats::default(), used: vec![false; n], builtin: vec![None; n], max_steps: 25_000_000, fixed: None,
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(3600), max_viols: 40, forked: false, verbose: false }
    }
    fn bidx(n: &str) -> u16 { BUILTINS.iter().position(|x| *x == n).unwrap_or_else(|| panic!("builtin {}", n)) as u16 + 1 }
    fn builtin_of(&mut self, f: u32) -> u16 {
        if let Some(b) = self.builtin[f as usize] { return b; }
        let fi = &self.pr.fns[f as usize];
        let n = fi.name.as_str();
        let b = if n.starts_with("llvm.") { Self::bidx("llvm") }
        else if n.contains("7___rustc") && n.ends_with("12___rust_alloc") { Self::bidx("rust_alloc") }
        else if n.contains("7___rustc") && n.ends_with("14___rust_dealloc") { Self::bidx("rust_dealloc") }
        else if n.contains("7___rustc") && n.ends_with("14___rust_realloc") { Self::bidx("rust_realloc") }
        else if n.contains("7___rustc") && n.ends_with("19___rust_alloc_zeroed") { Self::bidx("rust_alloc_zeroed") }
        else if n.contains("7___rustc") && n.contains("no_alloc_shim_is_unstable") { Self::bidx("nop") }
        else if n.contains("7___rustc") && n.contains("alloc_error_handler") { Self::bidx("abort") }
        else if n.starts_with("msym_") { Self::bidx(n) }
        else if let Some(w) = fmt_int(&fi.pretty) { Self::bidx(&format!("fmt{}", w)) }
        else if fi.pretty.ends_with("std::panicking::default_hook") { Self::bidx("nop") }
        else if fi.pretty.ends_with("::hashmap_random_keys") { Self::bidx("hashmap_random_keys") }
        else if fi.pretty.ends_with("std::sys::thread_local::destructors::linux_like::register") || fi.pretty.ends_with("thread_local::guard::key::enable") { Self::bidx("nop") }
        else if fi.text.is_none() || matches!(n, "memcpy" | "memmove" | "memset" | "memcmp" | "bcmp" | "strlen") {
            match n {
                "malloc" | "calloc" | "realloc" | "free" | "posix_memalign" | "memcmp" | "bcmp" | "memcpy" | "memmove" | "memset" | "strlen" | "memchr"
                | "_Unwind_RaiseException" | "_Unwind_DeleteException" | "write" | "syscall" | "__errno_location" | "pthread_self" | "abort" => Self::bidx(n),
                "getenv" | "pthread_key_create" | "pthread_setspecific" | "pthread_getspecific" | "sched_yield" | "__cxa_thread_atexit_impl" | "pthread_mutex_lock" | "pthread_mutex_unlock" => Self::bidx("ret0"),
                "_exit" | "exit" => Self::bidx("abort"),
                _ => 0,
            }
        } else { 0 };
        self.builtin[f as usize] = Some(b);
        b
    }
    fn flush_globals(&mut self) {
        while let Some(g) = self.pr.glob_pending.pop() {
            let a = self.pr.glob_addr[g as usize].unwrap();
            let (t, c) = self.pr.parse_glob_init(g);
            let gi = self.pr.globs[g as usize].clone();
            let size = self.pr.size(t).max(if c.is_none() { 16 } else { 0 });
            let kind = if gi.tls { Kind::Tls } else if gi.text[..gi.text.len().min(120)].contains(" constant ") { Kind::Const } else { Kind::Global };
            let mut o = Obj::new(size, kind);
            if let Some(c) = &c { self.init(&mut o.data, 0, t, c); }
            base().insert(a >> 32, Rc::new(o));
        }
    }
    fn init(&mut self, d: &mut [u8], off: usize, t: TyId, c: &Const) {
        match c {
            Const::Zero => {}
            Const::Bytes(b) => d[off..off + b.len()].copy_from_slice(b),
            Const::Agg(v) => for (i, (ft, fc)) in v.iter().enumerate() { let (o, _) = self.pr.field_off(t, i); self.init(d, off + o as usize, *ft, fc); },
            Const::Unsup(s) => panic!("global init {}", s),
            c => { let v = self.pr.eval_const(t, c).c().unwrap(); for i in 0..self.pr.size(t) as usize { d[off + i] = (v >> (8 * i)) as u8; } }
        }
    }
    pub fn initial(&mut self, f: u32) -> State {
        let mut s = State { mem: Mem::new(), threads: vec![Thread { frames: vec![], status: Status::Ready, exc: 0, sync_ok: false }], cur: 0, pc: vec![], known: HashMap::new(), model: Rc::new(Model::new()), inputs: vec![], nin: 0, steps: 0, tls: HashMap::new(), errno: 0, preempt: 0, nsched: 0, concs: 0, trace: vec![], forks: 0, stdout: vec![], fmts: vec![] };
        self.push_frame(&mut s, f, vec![]).ok();
        s
    }
    fn push_frame(&mut self, s: &mut State, f: u32, args: Vec<Val>) -> R<()> {
        let b = match self.pr.body(f) { Some(b) => b, None => return error(format!("call to undefined external function {}", self.pr.fns[f as usize].name)) };
        self.flush_globals();
        self.used[f as usize] = true;
        if s.threads[s.cur].frames.len() > 3000 { return viol("call depth exceeds 3000 (unbounded recursion)"); }
        let mut regs = args;
        regs.resize(b.nregs as usize, Val::C(0));
        let fobj = if b.frame > 0 { s.mem.alloc(b.frame, Kind::Stack) } else { 0 };
        let cur = s.cur;
        s.threads[cur].frames.push(Frame { f: b, blk: 0, ip: 0, regs, fobj });
        Ok(())
    }

    // ---- constraints -------------------------------------------------
    fn simp(&self, s: &State, e: E) -> E { if s.known.is_empty() { e } else { let mut memo = HashMap::new(); pool().subst(e, &s.known, &mut memo) } }
    /// Which truth values can `e` take? Returns the models for (true,false).
    fn decide(&mut self, s: &State, e: E) -> R<(Option<Option<Rc<Model>>>, Option<Option<Rc<Model>>>)> {
        let e = self.simp(s, e);
        if let Some(v) = pool().cval(e) { return Ok(if v == 1 { (Some(None), None) } else { (None, Some(None)) }); }
        let mut memo = HashMap::new();
        let cur = pool().eval(e, &s.model, &mut memo) == 1;
        let other = if cur { pool().not(e) } else { e };
        match self.solver.check(&s.pc, other) {
            Ok(None) => Ok(if cur { (Some(None), None) } else { (None, Some(None)) }),
            Ok(Some(m)) => Ok(if cur { (Some(None), Some(Some(m))) } else { (Some(Some(m)), Some(None)) }),
            Err(x) => error(format!("solver: {}", x)),
        }
    }
    fn conc(&mut self, s: &mut State, o: &Opd) -> R<u128> {
        let v = s.val(o);
        let e = match v { Val::C(k) => return Ok(k), Val::S(e) => e, Val::A(_) => return error("conc of aggregate") };
        let k = self.conc_e(s, e)?;
        if let Opd::R(r) = o { s.set(*r, Val::C(k)); }
        Ok(k)
    }
    fn conc_e(&mut self, s: &mut State, e: E) -> R<u128> {
        let se = self.simp(s, e);
        if let Some(k) = pool().cval(se) { return Ok(k); }
        let mut memo = HashMap::new();
        let k = pool().eval(se, &s.model, &mut memo);
        let kk = pool().konst(k, pool().w(se));
        let eq = pool().bin(Op::Eq, se, kk);
        let ne = pool().not(eq);
        match self.solver.check(&s.pc, ne) {
            Ok(None) => {}
            Ok(Some(m)) => {
                s.concs += 1;
                if s.concs > 2048 { return error("too many values when concretising (pointer, size or index unbounded)"); }
                let mut o = s.clone();
                o.add(ne, Some(m));
                self.fork(o);
            }
            Err(x) => return error(format!("solver: {}", x)),
        }
        s.add(eq, None);
        s.known.insert(se, k); s.known.insert(e, k);
        Ok(k)
    }
    fn fork(&mut self, mut o: State) { self.st.forks += 1; o.forks += 1; self.forked = true; self.work.push_back(o); }

    // ---- memory ------------------------------------------------------
    fn load(&mut self, s: &State, t: TyId, a: u64) -> R<Val> {
        let r = match &self.pr.types[t as usize] {
            Ty::Int(w) => s.mem.read_int(a, ((*w + 7) / 8) as u64, *w as u16),
            Ty::Ptr => s.mem.read_int(a, 8, 64),
            Ty::Float(w) => s.mem.read_int(a, (*w / 8) as u64, *w as u16),
            Ty::Vector(n, e) if self.pr.bits(*e) == 1 => { let n = *n as u32; s.mem.read_int(a, ((n + 7) / 8) as u64, n as u16).map(|v| unflatten(&v, n, 1)) }
            _ => {
                let n = self.pr.nfields(t);
                let mut v = Vec::with_capacity(n);
                for i in 0..n { let (o, ft) = self.pr.field_off(t, i); v.push(self.load(s, ft, a + o)?); }
                return Ok(Val::A(Rc::new(v)));
            }
        };
        r.or_else(|m| viol(format!("memory: {}", m)))
    }
    fn store(&mut self, s: &mut State, t: TyId, a: u64, v: &Val) -> R<()> {
        let r = match &self.pr.types[t as usize] {
            Ty::Int(w) => s.mem.write_int(a, ((*w + 7) / 8) as u64, v),
            Ty::Ptr => s.mem.write_int(a, 8, v),
            Ty::Float(w) => s.mem.write_int(a, (*w / 8) as u64, v),
            Ty::Vector(n, e) if self.pr.bits(*e) == 1 => { let n = *n as u32; s.mem.write_int(a, ((n + 7) / 8) as u64, &flatten(v, 1)) }
            _ => {
                let n = self.pr.nfields(t);
                if let Val::A(x) = v { for i in 0..n { let (o, ft) = self.pr.field_off(t, i); self.store(s, ft, a + o, &x[i])?; } return Ok(()); }
                return error("store aggregate");
            }
        };
        r.or_else(|m| viol(format!("memory: {}", m)))
    }

    // ---- control -----------------------------------------------------
    fn jump(&mut self, s: &mut State, to: u32) -> R<()> {
        let c = s.cur;
        let fr = s.threads[c].frames.last_mut().unwrap();
        let from = fr.blk;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for p in &b.phis {
                let (_, o) = match p.inc.iter().find(|(l, _)| *l == from) { Some(x) => x, None => return error("phi without edge") };
                vals.push(match o { Opd::K(v) => v.clone(), Opd::R(r) => fr.regs[*r as usize].clone() });
            }
            for (p, v) in b.phis.iter().zip(vals) { fr.regs[p.dst as usize] = v; }
        }
        fr.blk = to; fr.ip = 0;
        Ok(())
    }
    fn ret(&mut self, s: &mut State, v: Option<Val>) -> R<()> {
        let c = s.cur;
        let fr = s.threads[c].frames.pop().unwrap();
        if fr.fobj != 0 { s.mem.free_stack_obj(fr.fobj); }
        if s.threads[c].frames.is_empty() { return self.thread_end(s); }
        self.finish_call(s, v)
    }
    /// The call instruction at the top frame's ip completed with `v`.
    fn finish_call(&mut self, s: &mut State, v: Option<Val>) -> R<()> {
        let fr = s.top();
        let f = fr.f.clone();
        if let Inst::Call { dst, invoke, .. } = &f.blocks[fr.blk as usize].insts[fr.ip as usize] {
            if let (Some(d), Some(v)) = (dst, v) { fr.regs[*d as usize] = v; }
            match invoke { Some((n, _)) => self.jump(s, *n), None => { fr.ip += 1; Ok(()) } }
        } else { error("return to non-call") }
    }
    fn unwind(&mut self, s: &mut State, exc: u64) -> R<()> {
        let c = s.cur;
        s.threads[c].exc = exc;
        loop {
            if s.threads[c].frames.is_empty() { return viol("panic escaped the harness (uncaught)"); }
            let fr = s.top();
            let f = fr.f.clone();
            if let Inst::Call { invoke: Some((_, u)), .. } = &f.blocks[fr.blk as usize].insts[fr.ip as usize] { return self.jump(s, *u); }
            let fr = s.threads[c].frames.pop().unwrap();
            if fr.fobj != 0 { s.mem.free_stack_obj(fr.fobj); }
        }
    }
    fn thread_end(&mut self, s: &mut State) -> R<()> {
        let c = s.cur;
        s.threads[c].status = Status::Done;
        if c == 0 { return Err(Ctl::End(End::Ok)); }
        for t in s.threads.iter_mut() { if t.status == Status::Join(c) { t.status = Status::Ready; } }
        self.reschedule(s)
    }
    fn pick(&mut self, s: &mut State, t: usize) {
        if s.threads.len() > 1 {
            let name = format!("sched_{}", s.nsched); s.nsched += 1;
            let v = pool().var(name.clone(), 8);
            let k = pool().konst(t as u128, 8);
            let e = pool().bin(Op::Eq, v, k);
            let mut m = Model::new(); m.insert(v, t as u128);
            s.inputs.push((name, 8, Val::S(v)));
            s.add(e, Some(Rc::new(m)));
            self.st.schedules += 1;
        }
        s.cur = t;
    }
    /// Current thread cannot continue: hand over to any ready thread (all choices explored).
    fn reschedule(&mut self, s: &mut State) -> R<()> {
        let ready: Vec<usize> = (0..s.threads.len()).filter(|t| s.threads[*t].status == Status::Ready).collect();
        if ready.is_empty() { return viol("deadlock: no thread can run"); }
        for &t in &ready[1..] { let mut o = s.clone(); self.pick(&mut o, t); o.threads[t].sync_ok = true; self.fork(o); }
        self.pick(s, ready[0]);
        s.threads[ready[0]].sync_ok = true;
        Ok(())
    }
    fn sync_point(&mut self, s: &mut State) {
        let c = s.cur;
        if s.threads.len() < 2 { return; }
        if s.threads[c].sync_ok { s.threads[c].sync_ok = false; return; }
        if s.preempt == 0 { return; }
        let ready: Vec<usize> = (0..s.threads.len()).filter(|t| *t != c && s.threads[*t].status == Status::Ready).collect();
        for t in ready {
            let mut o = s.clone();
            o.preempt -= 1;
            o.threads[c].sync_ok = true;
            o.threads[t].sync_ok = true;
            self.pick(&mut o, t);
            self.fork(o);
        }
    }
    pub fn report(&mut self, s: &State, m: &Model, msg: String) {
        if self.st.viols.iter().any(|v| v.msg == msg) || self.st.viols.len() >= self.max_viols { return; }
        let mut mm = (*s.model).clone();
        for (k, v) in m.iter() { mm.insert(*k, *v); }
        let inputs = s.concrete_inputs(&mm);
        self.st.viols.push(Viol { msg, inputs, trace: s.trace.clone() });
    }
    /// Run a state until it ends; forked siblings are put on the work list.
    /// With `bfs`, return the state after its first fork.
    pub fn run(&mut self, mut s: State, bfs: bool) -> Option<State> {
        self.forked = false;
        loop {
            if s.steps & 0xfff == 0 {
                if std::time::Instant::now() > self.deadline { self.st.errors.push("time limit reached: exploration incomplete".into()); return None; }
            }
            if s.steps > self.max_steps { self.finish(&s, End::Violation("the code runs on without end (step limit)".into())); self.work.clear(); return None; }
            s.steps += 1;
            self.st.steps += 1;
            match self.step(&mut s) {
                Ok(()) => { if bfs && self.forked { return Some(s); } }
                Err(Ctl::Next) => {}
                Err(Ctl::End(e)) => { self.finish(&s, e); return None; }
            }
        }
    }
    pub fn stack(&self, s: &State) -> Vec<String> { s.threads[s.cur].frames.iter().rev().take(12).map(|f| self.pr.fns[f.f.id as usize].pretty.clone()).collect() }
    fn finish(&mut self, s: &State, e: End) {
        self.st.max_steps = self.st.max_steps.max(s.steps);
        self.st.max_inputs = self.st.max_inputs.max(s.inputs.len() as u64);
        match e {
            End::Ok => { self.st.paths += 1; if self.st.paths.is_power_of_two() && s.threads.len() == 1 && self.st.witnesses.len() < 8 {
                    let inputs = s.concrete_inputs(&s.model);
                    self.st.witnesses.push(Viol { msg: String::new(), inputs, trace: s.trace.clone() });
                }
                if self.fixed.is_some() { for t in &s.trace { println!("TRACE {}", t); } } }
            End::Infeasible => self.st.infeasible += 1,
            End::Violation(m) => { self.st.paths += 1; if self.verbose { eprintln!("VIOL {} at {:#?}", m, self.stack(s)); } self.report(s, &Model::new(), m) }
            End::Error(m) => { let st = self.stack(s); self.st.errors.push(format!("{} [in {}]", m, st.join(" < "))) }
        }
    }
    fn step(&mut self, s: &mut State) -> R<()> {
        let c = s.cur;
        let (f, blk, ip) = { let fr = s.threads[c].frames.last().unwrap(); (fr.f.clone(), fr.blk, fr.ip) };
        let inst = &f.blocks[blk as usize].insts[ip as usize];
        macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; let fr = s.threads[c].frames.last_mut().unwrap(); fr.regs[$d as usize] = v; fr.ip += 1; }}; }
        match inst {
            Inst::Nop => { s.top().ip += 1; }
            Inst::Alloca { dst, off } => { let a = s.threads[c].frames.last().unwrap().fobj + off; set!(*dst, Val::C(a as u128)); }
            Inst::DynAlloca { .. } => return error("dynamic alloca"),
            Inst::Load { dst, ty, ptr, atomic } => {
                if *atomic { self.sync_point(s); }
                let a = self.conc(s, ptr)? as u64; let v = self.load(s, *ty, a)?; set!(*dst, v);
            }
            Inst::Store { ty, val, ptr, atomic } => {
                if *atomic { self.sync_point(s); }
                let a = self.conc(s, ptr)? as u64; let v = s.val(val); self.store(s, *ty, a, &v)?; s.top().ip += 1;
            }
            Inst::Gep { dst, base, off, var } => {
                let mut b = s.val(base);
                for (o, w, scale) in var {
                    let i = s.val(o);
                    let i = if *w < 64 { vcast(Cast::SExt, *w, 64, &i) } else if *w > 64 { vcast(Cast::Trunc, *w, 64, &i) } else { i };
                    let i = if *scale == 1 { i } else { vbin(Op::Mul, 64, &i, &Val::C(*scale as u64 as u128)) };
                    b = vbin(Op::Add, 64, &b, &i);
                }
                if *off != 0 { b = vbin(Op::Add, 64, &b, &Val::C(*off as u64 as u128)); }
                set!(*dst, b);
            }
            Inst::Bin { dst, op, w, a, b, .. } => { let v = vbin(bin_op(*op), *w, &s.val(a), &s.val(b)); set!(*dst, v); }
            Inst::ICmp { dst, p, w, a, b, .. } => { let v = vicmp(*p, *w, &s.val(a), &s.val(b)); set!(*dst, v); }
            Inst::Cast { dst, op, from, to, fty, tty, a, .. } => {
                let x = s.val(a);
                let v = if *op == Cast::Bitcast {
                    let fv = matches!(self.pr.types[*fty as usize], Ty::Vector(..)); let tv = matches!(self.pr.types[*tty as usize], Ty::Vector(..));
                    if fv || tv {
                        if self.pr.bits(*fty) > 128 && !x_is_small(&x) { return error("wide bitcast"); }
                        let flat = if fv { flatten(&x, *from) } else { x };
                        if tv { let n = self.pr.nfields(*tty) as u32; unflatten(&flat, n, *to) } else { flat }
                    } else { x }
                } else { vcast(*op, *from, *to, &x) };
                set!(*dst, v);
            }
            Inst::Select { dst, ty, c: cc, a, b } => {
                let cv = s.val(cc);
                let v = match cv {
                    Val::C(1) => s.val(a), Val::C(_) => s.val(b),
                    Val::A(m) => { let (x, y) = (s.val(a), s.val(b)); match (x, y) { (Val::A(x), Val::A(y)) => Val::A(Rc::new(m.iter().zip(x.iter().zip(y.iter())).map(|(m, (p, q))| match m { Val::C(1) => p.clone(), Val::C(_) => q.clone(), _ => panic!("symbolic vector select") }).collect())), _ => return error("vector select") } }
                    Val::S(e) => match &self.pr.types[*ty as usize] {
                        Ty::Int(w) => { let w = *w; let (x, y) = (to_e(&s.val(a), w), to_e(&s.val(b), w)); let e = self.simp(s, e); from_e(pool().ite(e, x, y)) }
                        _ => { let k = self.conc(s, cc)?; if k == 1 { s.val(a) } else { s.val(b) } }
                    },
                };
                set!(*dst, v);
            }
            Inst::Extract { dst, a, idx } => {
                let mut v = s.val(a);
                for i in idx { v = match v { Val::A(x) => x[*i as usize].clone(), _ => return error("extractvalue of scalar") }; }
                set!(*dst, v);
            }
            Inst::Insert { dst, a, v, idx } => { let r = insert_path(&s.val(a), idx, s.val(v)); set!(*dst, r); }
            Inst::ExtractElem { dst, a, i } => { let k = self.conc(s, i)? as usize; let v = match s.val(a) { Val::A(x) => x[k].clone(), _ => return error("extractelement") }; set!(*dst, v); }
            Inst::InsertElem { dst, a, v, i } => { let k = self.conc(s, i)? as u32; let r = insert_path(&s.val(a), &[k], s.val(v)); set!(*dst, r); }
            Inst::Shuffle { dst, a, b, na, mask } => {
                let (x, y) = (s.val(a), s.val(b));
                let (x, y) = match (x, y) { (Val::A(x), Val::A(y)) => (x, y), _ => return error("shuffle") };
                let v = mask.iter().map(|m| if *m < *na { x[*m as usize].clone() } else { y[(*m - *na) as usize].clone() }).collect();
                set!(*dst, Val::A(Rc::new(v)));
            }
            Inst::Freeze { dst, a } => { let v = s.val(a); set!(*dst, v); }
            Inst::LandingPad { dst, cleanup: _, catch, filter } => {
                let exc = s.threads[c].exc;
                let sel: u128 = if *catch { 1 } else if *filter { mask(32) } else { 0 };
                set!(*dst, Val::A(Rc::new(vec![Val::C(exc as u128), Val::C(sel)])));
            }
            Inst::CmpXchg { dst, w, ptr, old, new } => {
                self.sync_point(s);
                let a = self.conc(s, ptr)? as u64; let n = (*w / 8) as u64;
                let cur = s.mem.read_int(a, n, *w as u16).or_else(|m| viol(format!("memory: {}", m)))?;
                let o = s.val(old);
                let eq = vicmp(Pred::Eq, *w, &cur, &o);
                let k = match eq { Val::C(k) => k, Val::S(e) => self.conc_e(s, e)?, _ => unreachable!() };
                if k == 1 { let nv = s.val(new); s.mem.write_int(a, n, &nv).or_else(|m| viol(format!("memory: {}", m)))?; }
                set!(*dst, Val::A(Rc::new(vec![cur, Val::C(k)])));
            }
            Inst::AtomicRmw { dst, op, w, ptr, val } => {
                self.sync_point(s);
                let a = self.conc(s, ptr)? as u64; let n = (*w / 8) as u64;
                let cur = s.mem.read_int(a, n, *w as u16).or_else(|m| viol(format!("memory: {}", m)))?;
                let v = s.val(val);
                let ite = |p: Pred| -> Val { match vicmp(p, *w, &cur, &v) { Val::C(1) => cur.clone(), Val::C(_) => v.clone(), Val::S(e) => from_e(pool().ite(e, to_e(&cur, *w), to_e(&v, *w))), _ => unreachable!() } };
                let nv = match op {
                    Rmw::Xchg => v.clone(), Rmw::Add => vbin(Op::Add, *w, &cur, &v), Rmw::Sub => vbin(Op::Sub, *w, &cur, &v), Rmw::And => vbin(Op::And, *w, &cur, &v), Rmw::Or => vbin(Op::Or, *w, &cur, &v), Rmw::Xor => vbin(Op::Xor, *w, &cur, &v),
                    Rmw::Nand => { let x = vbin(Op::And, *w, &cur, &v); vbin(Op::Xor, *w, &x, &Val::C(mask(*w as u16))) }
                    Rmw::UMax => ite(Pred::Ugt), Rmw::UMin => ite(Pred::Ult), Rmw::Max => ite(Pred::Sgt), Rmw::Min => ite(Pred::Slt),
                };
                s.mem.write_int(a, n, &nv).or_else(|m| viol(format!("memory: {}", m)))?;
                set!(*dst, cur);
            }
            Inst::Unsupported(x) => return error(format!("unsupported instruction: {}", x)),
            Inst::Br(t) => self.jump(s, *t)?,
            Inst::CondBr { c: cc, t, f: ff } => {
                let v = s.val(cc);
                match v {
                    Val::C(k) => self.jump(s, if k == 1 { *t } else { *ff })?,
                    Val::S(e) => {
                        self.st.branches += 1;
                        let (mt, mf) = self.decide(s, e)?;
                        match (mt, mf) {
                            (Some(_), None) => self.jump(s, *t)?,
                            (None, Some(_)) => self.jump(s, *ff)?,
                            (Some(a), Some(b)) => {
                                let e = self.simp(s, e);
                                let ne = pool().not(e);
                                let mut o = s.clone();
                                o.add(ne, b);
                                self.jump(&mut o, *ff)?;
                                self.fork(o);
                                s.add(e, a);
                                self.jump(s, *t)?;
                            }
                            _ => return error("both branches infeasible"),
                        }
                    }
                    _ => return error("br on aggregate"),
                }
            }
            Inst::Switch { v, w: _, def, cases } => {
                let k = match s.val(v) { Val::C(k) => k, Val::S(e) => {
                    // split on the cases that are feasible, then the default
                    let se = self.simp(s, e);
                    if let Some(k) = pool().cval(se) { k } else {
                        self.st.branches += 1;
                        let w = pool().w(se);
                        let mut s_opt = Some(());
                        let mut target = *def;
                        let mut rest = s.clone();
                        let mut chosen: Option<State> = None;
                        for (cv, l) in cases {
                            let kk = pool().konst(*cv, w);
                            let eq = pool().bin(Op::Eq, se, kk);
                            let (mt, mf) = self.decide(&rest, eq)?;
                            if let Some(m) = mt {
                                let mut o = rest.clone(); o.add(eq, m);
                                self.jump(&mut o, *l)?;
                                if chosen.is_none() { chosen = Some(o); } else { self.fork(o); }
                            }
                            match mf { Some(m) => { let ne = pool().not(eq); rest.add(ne, m); } None => { s_opt = None; break; } }
                        }
                        if s_opt.is_some() {
                            self.jump(&mut rest, target)?;
                            if chosen.is_none() { chosen = Some(rest); } else { self.fork(rest); }
                        }
                        let _ = &mut target;
                        *s = chosen.unwrap();
                        return Ok(());
                    }
                } _ => return error("switch on aggregate") };
                let t = cases.iter().find(|(c, _)| *c == k).map(|x| x.1).unwrap_or(*def);
                self.jump(s, t)?;
            }
            Inst::Ret(o) => { let v = o.as_ref().map(|o| s.val(o)); self.ret(s, v)?; }
            Inst::Resume(o) => {
                let exc = match s.val(o) { Val::A(x) => x[0].c().unwrap() as u64, _ => return error("resume") };
                let fr = s.threads[c].frames.pop().unwrap();
                if fr.fobj != 0 { s.mem.free_stack_obj(fr.fobj); }
                self.unwind(s, exc)?;
            }
            Inst::Unreachable => return viol("reached unreachable code"),
            Inst::Call { callee, args, argtys, ret, .. } => {
                let fid = match callee {
                    Callee::Fn(f) => *f,
                    Callee::Asm => { s.top().ip += 1; return Ok(()); }
                    Callee::Ptr(o) => {
                        let a = self.conc(s, o)? as u64;
                        let n = self.pr.fns.len() as u64;
                        if a < FN_BASE || (a - FN_BASE) % 16 != 0 || (a - FN_BASE) / 16 >= n { return viol(format!("call through invalid function pointer {:#x}", a)); }
                        ((a - FN_BASE) / 16) as u32
                    }
                };
                let b = self.builtin_of(fid);
                if b != 0 { return self.builtin(s, b - 1, fid, args, argtys, *ret); }
                let av: Vec<Val> = args.iter().map(|o| s.val(o)).collect();
                self.push_frame(s, fid, av)?;
            }
        }
        Ok(())
    }
    fn cstr(&self, s: &State, p: u64, n: u64) -> R<String> { s.mem.bytes(p, n).map(|b| String::from_utf8_lossy(&b).into_owned()).or_else(|m| viol(format!("memory: {}", m))) }

    fn builtin(&mut self, s: &mut State, b: u16, fid: u32, a: &[Opd], at: &[TyId], ret: TyId) -> R<()> {
        let name = BUILTINS[b as usize];
        macro_rules! arg { ($i:expr) => { self.conc(s, &a[$i])? as u64 }; }
        macro_rules! done { ($v:expr) => {{ let v = $v; return self.finish_call(s, Some(v)); }}; }
        macro_rules! m { ($e:expr) => { $e.or_else(|m| viol(format!("memory: {}", m)))? }; }
        match name {
            "llvm" => return self.intrinsic(s, fid, a, at, ret),
            "fmt8" | "fmt16" | "fmt32" | "fmt64" | "fmt128" => {
                let w: u32 = name[3..].parse().unwrap();
                let p = arg!(0);
                let v = m!(s.mem.read_int(p, w as u64 / 8, w as u16));
                let sym = match v { Val::S(e) => pool().cval(self.simp(s, e)).is_none(), _ => false };
                if !sym { let av: Vec<Val> = a.iter().map(|o| s.val(o)).collect(); return self.push_frame(s, fid, av); }
                let f = match self.str_display { Some(f) => f, None => return error("str Display not found") };
                let e = match v { Val::S(e) => self.simp(s, e), _ => unreachable!() };
                let k = s.fmts.len();
                if k > 99_999 { return error("too many symbolic integers formatted"); }
                s.fmts.push(e);
                let t = sym_text(k);
                let n = t.len() as u64;
                base().entry(sym_id(k)).or_insert_with(|| { let mut o = Obj::new(n, Kind::Const); o.data = t; Rc::new(o) });
                let av = vec![Val::C((sym_id(k) << 32) as u128), Val::C(n as u128), s.val(&a[1])];
                self.st.abstracted_fmt += 1;
                return self.push_frame(s, f, av);
            }
            "msym_any" => {
                let w = arg!(0) as u16; let p = arg!(1); let n = arg!(2);
                let nm = self.cstr(s, p, n)?;
                let v = if let Some(fx) = &self.fixed { Val::C(fx.get(s.nin).copied().unwrap_or(0) & mask(w)) } else { Val::S(pool().var(nm.clone(), w)) };
                s.nin += 1;
                s.inputs.push((nm, w, v.clone()));
                done!(vcast(Cast::ZExt, w as u32, 64, &v))
            }
            "msym_assume" => {
                match s.val(&a[0]) {
                    Val::C(1) => {}
                    Val::C(_) => return Err(Ctl::End(End::Infeasible)),
                    Val::S(e) => {
                        let (t, f) = self.decide(s, e)?;
                        match t { None => return Err(Ctl::End(End::Infeasible)), Some(md) => if f.is_some() { let e = self.simp(s, e); s.add(e, md) } }
                    }
                    _ => return error("assume"),
                }
                return self.finish_call(s, None);
            }
            "msym_check" => {
                let p = arg!(1); let n = arg!(2);
                self.st.checks += 1;
                match s.val(&a[0]) {
                    Val::C(1) => {}
                    Val::C(_) => { let msg = self.cstr(s, p, n)?; return viol(msg); }
                    Val::S(e) => {
                        self.st.checks_solver += 1;
                        let (t, f) = self.decide(s, e)?;
                        if let Some(md) = f { let msg = self.cstr(s, p, n)?; let md = md.unwrap_or_else(|| s.model.clone()); self.report(s, &md, msg); }
                        match t { None => return Err(Ctl::End(End::Infeasible)), Some(md) => { let e = self.simp(s, e); s.add(e, md) } }
                    }
                    _ => return error("check"),
                }
                return self.finish_call(s, None);
            }
            "msym_cover" => { let p = arg!(0); let n = arg!(1); let k = self.cstr(s, p, n)?; s.trace.push(k.clone()); *self.st.covers.entry(k).or_insert(0) += 1; return self.finish_call(s, None); }
            "msym_must" => { let p = arg!(0); let n = arg!(1); let k = self.cstr(s, p, n)?; self.st.covers.entry(k).or_insert(0); return self.finish_call(s, None); }
            // does a text contain another?
            "msym_has" => {
                let (p, n, q, m) = (arg!(0), arg!(1), arg!(2), arg!(3));
                let h = m!(s.mem.bytes(p, n)); let x = m!(s.mem.bytes(q, m));
                let (h, x) = (chars(s, &h), chars(s, &x));
                let mut c = pool().konst(0, 1);
                for i in 0..=h.len().saturating_sub(1) { if let Some(e) = starts(&h[i..], &x) { c = pool().bin(Op::Or, c, e); } }
                done!(match pool().cval(c) { Some(v) => Val::C(v), None => Val::S(c) })
            }
            "msym_trace" => { let v = s.val(&a[0]); let v = match v { Val::C(k) => format!("{}", k), Val::S(_) => "sym".into(), _ => "?".into() }; s.trace.push(v); return self.finish_call(s, None); }
            "msym_concretize" => { let v = arg!(0); done!(Val::C(v as u128)) }
            "msym_heap" => { let v = s.mem.live_heap; done!(Val::C(v as u64 as u128)) }
            "msym_tid" => { let v = s.cur; done!(Val::C(v as u128)) }
            "msym_preempt" => { s.preempt = arg!(0) as u32; return self.finish_call(s, None); }
            "msym_yield" => { self.sync_point(s); return self.finish_call(s, None); }
            "msym_spawn" => {
                let fp = arg!(0); let p = arg!(1);
                let f = ((fp - FN_BASE) / 16) as u32;
                let id = s.threads.len();
                s.threads.push(Thread { frames: vec![], status: Status::Ready, exc: 0, sync_ok: true });
                let c = s.cur; s.cur = id; self.push_frame(s, f, vec![Val::C(p as u128)])?; s.cur = c;
                done!(Val::C(id as u128))
            }
            "msym_join" => {
                let t = arg!(0) as usize;
                if s.threads[t].status == Status::Done { return self.finish_call(s, None); }
                let c = s.cur; s.threads[c].status = Status::Join(t);
                return self.reschedule(s); // re-executes the join when woken
            }
            "rust_alloc" | "rust_alloc_zeroed" | "malloc" => {
                let n = arg!(0);
                if n >= 1 << 31 { return viol(format!("allocation of {} bytes", n)); }
                let p = s.mem.alloc(n, Kind::Heap); done!(Val::C(p as u128))
            }
            "calloc" => { let n = arg!(0); let k = arg!(1); let p = s.mem.alloc(n * k, Kind::Heap); done!(Val::C(p as u128)) }
            "posix_memalign" => { let pp = arg!(0); let n = arg!(2); let p = s.mem.alloc(n, Kind::Heap); m!(s.mem.write_int(pp, 8, &Val::C(p as u128))); done!(Val::C(0)) }
            "rust_dealloc" => { let p = arg!(0); m!(s.mem.free(p)); return self.finish_call(s, None); }
            "free" => { let p = arg!(0); if p != 0 { m!(s.mem.free(p)); } return self.finish_call(s, None); }
            "rust_realloc" => {
                let p = arg!(0); let old = arg!(1); let n = arg!(3);
                let q = s.mem.alloc(n, Kind::Heap); m!(s.mem.copy(q, p, old.min(n))); m!(s.mem.free(p)); done!(Val::C(q as u128))
            }
            "realloc" => return error("libc realloc"),
            "nop" => { let v = if ret == self.pr.ty_void { None } else { Some(Val::C(0)) }; return self.finish_call(s, v); }
            "abort" => return viol("process aborted"),
            "ret0" => done!(Val::C(0)),
            "retneg1" => done!(Val::C(mask(self.pr.bits(ret) as u16))),
            "write" => { let n = arg!(2); done!(Val::C(n as u128)) }
            "pthread_self" => { let c = s.cur; done!(Val::C(c as u128 + 1)) }
            "__errno_location" => { if s.errno == 0 { s.errno = s.mem.alloc(8, Kind::Tls); } let e = s.errno; done!(Val::C(e as u128)) }
            "hashmap_random_keys" => done!(Val::A(Rc::new(vec![Val::C(0x0706050403020100), Val::C(0x0f0e0d0c0b0a0908)]))),
            "_Unwind_RaiseException" => { let p = arg!(0); return self.unwind(s, p); }
            "_Unwind_DeleteException" => return self.finish_call(s, None),
            "strlen" => { let p = arg!(0); let mut n = 0; loop { let v = m!(s.mem.read_int(p + n, 1, 8)); match v { Val::C(0) => break, Val::C(_) => n += 1, _ => return error("symbolic strlen") } } done!(Val::C(n as u128)) }
            "memchr" => { return error("memchr"); }
            "memcpy" | "memmove" => { let d = arg!(0); let src = arg!(1); let n = arg!(2); m!(s.mem.copy(d, src, n)); done!(Val::C(d as u128)) }
            "memset" => { let d = arg!(0); let v = arg!(1); let n = arg!(2); m!(s.mem.set_bytes(d, v as u8, n)); done!(Val::C(d as u128)) }
            "memcmp" | "bcmp" => {
                let p = arg!(0); let q = arg!(1); let n = arg!(2);
                let mut r = Val::C(0);
                for i in (0..n).rev() {
                    let x = m!(s.mem.read_int(p + i, 1, 8)); let y = m!(s.mem.read_int(q + i, 1, 8));
                    r = match (&x, &y) {
                        (Val::C(u), Val::C(v)) => if u == v { r } else if u < v { Val::C(mask(32)) } else { Val::C(1) },
                        _ => {
                            let (ex, ey) = (to_e(&x, 8), to_e(&y, 8)); let pl = pool();
                            let eq = pl.bin(Op::Eq, ex, ey); let lt = pl.bin(Op::Ult, ex, ey);
                            let one = pl.konst(1, 32); let neg = pl.konst(mask(32), 32);
                            let d = pl.ite(lt, neg, one); let re = to_e(&r, 32);
                            from_e(pl.ite(eq, re, d))
                        }
                    };
                }
                done!(r)
            }
            "syscall" => {
                let nr = arg!(0);
                match nr {
                    202 => {
                        let ua = arg!(1); let op = arg!(2) & 0x7f;
                        match op {
                            0 | 9 => {
                                self.sync_point(s);
                                let want = s.val(&a[3]);
                                let cur = m!(s.mem.read_int(ua, 4, 32));
                                let eq = match vicmp(Pred::Eq, 32, &cur, &vcast(Cast::Trunc, self.pr.bits(at[3]), 32, &want)) { Val::C(k) => k, _ => return error("symbolic futex") };
                                if eq == 1 {
                                    let c = s.cur; s.threads[c].status = Status::Futex(ua);
                                    self.finish_call(s, Some(Val::C(0)))?;
                                    return self.reschedule(s);
                                }
                                if s.errno == 0 { s.errno = s.mem.alloc(8, Kind::Tls); }
                                let e = s.errno; m!(s.mem.write_int(e, 4, &Val::C(11)));
                                done!(Val::C(mask(64)))
                            }
                            1 | 10 => {
                                let n = arg!(3); let mut k = 0;
                                for t in s.threads.iter_mut() { if k < n && t.status == Status::Futex(ua) { t.status = Status::Ready; t.sync_ok = true; k += 1; } }
                                done!(Val::C(k as u128))
                            }
                            o => return error(format!("futex op {}", o)),
                        }
                    }
                    186 => { let c = s.cur; done!(Val::C(c as u128 + 100)) }
                    o => return error(format!("syscall {}", o)),
                }
            }
            other => error(format!("builtin {}", other)),
        }
    }
    fn intrinsic(&mut self, s: &mut State, fid: u32, a: &[Opd], at: &[TyId], ret: TyId) -> R<()> {
        let full = self.pr.fns[fid as usize].name.clone();
        let n = &full[5..];
        macro_rules! arg { ($i:expr) => { self.conc(s, &a[$i])? as u64 }; }
        macro_rules! done { ($v:expr) => {{ let v = $v; return self.finish_call(s, Some(v)); }}; }
        macro_rules! void { () => { return self.finish_call(s, None) }; }
        macro_rules! m { ($e:expr) => { $e.or_else(|m| viol(format!("memory: {}", m)))? }; }
        let w = if a.is_empty() { 0 } else { match &self.pr.types[at[0] as usize] { Ty::Vector(_, e) => self.pr.bits(*e), _ => self.pr.bits(at[0]) } };
        if n.starts_with("memcpy") || n.starts_with("memmove") { let d = arg!(0); let x = arg!(1); let k = arg!(2); m!(s.mem.copy(d, x, k)); void!() }
        if n.starts_with("memset") { let d = arg!(0); let x = arg!(1); let k = arg!(2); m!(s.mem.set_bytes(d, x as u8, k)); void!() }
        if n.starts_with("lifetime") || n.starts_with("dbg") || n.starts_with("assume") || n.starts_with("experimental.noalias") || n.starts_with("x86.sse2.pause") || n.starts_with("prefetch") || n.starts_with("donothing") { void!() }
        if n.starts_with("expect") || n.starts_with("launder") || n.starts_with("strip") { let v = s.val(&a[0]); done!(v) }
        if n.starts_with("is.constant") { done!(Val::C(0)) }
        if n.starts_with("threadlocal.address") {
            let g = arg!(0); let key = (s.cur, g >> 32);
            let inst = match s.tls.get(&key) { Some(x) => *x, None => {
                let t = base().get(&(g >> 32)).unwrap().clone();
                let p = s.mem.alloc(t.data.len() as u64, Kind::Tls); m!(s.mem.copy(p, g, t.data.len() as u64)); s.tls.insert(key, p); p } };
            done!(Val::C((inst + (g & 0xffff_ffff)) as u128))
        }
        if n == "trap" || n.starts_with("ubsantrap") { return viol("process aborted"); }
        if n.contains(".with.overflow") {
            let (x, y) = (s.val(&a[0]), s.val(&a[1]));
            let signed = n.starts_with('s'); let op = match &n[1..4] { "add" => Op::Add, "sub" => Op::Sub, _ => Op::Mul };
            let r = vbin(op, w, &x, &y);
            let o = if let (Val::C(p), Val::C(q)) = (&x, &y) {
                Val::C(if signed {
                    let (p, q) = (sext128(*p, w as u16), sext128(*q, w as u16));
                    let z = match op { Op::Add => p.checked_add(q), Op::Sub => p.checked_sub(q), _ => p.checked_mul(q) };
                    match z { None => 1, Some(z) => (sext128((z as u128) & mask(w as u16), w as u16) != z) as u128 }
                } else {
                    match op { Op::Add => p.checked_add(*q).map_or(true, |z| z > mask(w as u16)) as u128, Op::Sub => (p < q) as u128, _ => p.checked_mul(*q).map_or(true, |z| z > mask(w as u16)) as u128 }
                })
            } else {
                if w > 64 && op == Op::Mul { return error("symbolic wide mul overflow"); }
                match (signed, op) {
                    (false, Op::Add) => vicmp(Pred::Ult, w, &r, &x),
                    (false, Op::Sub) => vicmp(Pred::Ult, w, &x, &y),
                    _ => {
                        let c = if signed { Cast::SExt } else { Cast::ZExt };
                        let (p, q) = (vcast(c, w, 2 * w, &x), vcast(c, w, 2 * w, &y));
                        let z = vbin(op, 2 * w, &p, &q);
                        let t = vcast(c, w, 2 * w, &vcast(Cast::Trunc, 2 * w, w, &z));
                        vicmp(Pred::Ne, 2 * w, &t, &z)
                    }
                }
            };
            done!(Val::A(Rc::new(vec![r, o])))
        }
        if n.contains(".sat.") && !n.starts_with("fpto") {
            let (x, y) = (s.val(&a[0]), s.val(&a[1]));
            let add = n[1..].starts_with("add");
            if n.starts_with('u') {
                let r = vbin(if add { Op::Add } else { Op::Sub }, w, &x, &y);
                let o = if add { vicmp(Pred::Ult, w, &r, &x) } else { vicmp(Pred::Ult, w, &x, &y) };
                let lim = Val::C(if add { mask(w as u16) } else { 0 });
                done!(match o { Val::C(1) => lim, Val::C(_) => r, Val::S(e) => from_e(pool().ite(e, to_e(&lim, w), to_e(&r, w))), _ => return error("vector sat") })
            }
            return error(format!("intrinsic {}", n));
        }
        if n.starts_with("umin") || n.starts_with("umax") || n.starts_with("smin") || n.starts_with("smax") {
            let (x, y) = (s.val(&a[0]), s.val(&a[1]));
            let p = match &n[..4] { "umin" => Pred::Ult, "umax" => Pred::Ugt, "smin" => Pred::Slt, _ => Pred::Sgt };
            done!(match vicmp(p, w, &x, &y) { Val::C(1) => x, Val::C(_) => y, Val::S(e) => from_e(pool().ite(e, to_e(&x, w), to_e(&y, w))), _ => return error("vector minmax") })
        }
        if n.starts_with("ucmp") || n.starts_with("scmp") {
            let (x, y) = (s.val(&a[0]), s.val(&a[1])); let rw = self.pr.bits(ret);
            let (lt, gt) = if n.starts_with('u') { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
            let (l, g) = (vicmp(lt, w, &x, &y), vicmp(gt, w, &x, &y));
            let pl = pool();
            let (le, ge) = (to_e(&l, 1), to_e(&g, 1));
            let neg = pl.konst(mask(rw as u16), rw as u16); let one = pl.konst(1, rw as u16); let z = pl.konst(0, rw as u16);
            let i = pl.ite(ge, one, z);
            done!(from_e(pl.ite(le, neg, i)))
        }
        if n.starts_with("ctpop") || n.starts_with("ctlz") || n.starts_with("cttz") || n.starts_with("bswap") || n.starts_with("bitreverse") || n.starts_with("abs") {
            if w > 128 || matches!(self.pr.types[at[0] as usize], Ty::Vector(..)) { return error(format!("intrinsic {}", n)); }
            if n.starts_with("bswap") {
                let x = s.val(&a[0]);
                if let Val::S(e) = x {
                    let pl = pool(); let mut acc: Option<E> = None; // byte 0 becomes most significant
                    for i in 0..w as u16 / 8 { let b = pl.extract(e, i * 8, 8); acc = Some(match acc { None => b, Some(p) => pl.concat(p, b) }); }
                    done!(from_e(acc.unwrap()))
                }
            }
            let x = self.conc(s, &a[0])?;
            let r: u128 = if n.starts_with("ctpop") { x.count_ones() as u128 }
                else if n.starts_with("ctlz") { (x.leading_zeros() - (128 - w)) as u128 }
                else if n.starts_with("cttz") { (if x == 0 { w } else { x.trailing_zeros() }) as u128 }
                else if n.starts_with("bswap") { x.swap_bytes() >> (128 - w) }
                else if n.starts_with("bitreverse") { x.reverse_bits() >> (128 - w) }
                else { let v = sext128(x, w as u16); (v.unsigned_abs()) & mask(w as u16) };
            done!(Val::C(r))
        }
        if n.starts_with("fshl") || n.starts_with("fshr") {
            let (x, y) = (s.val(&a[0]), s.val(&a[1])); let k = (arg!(2) % w as u64) as u16;
            let pl = pool();
            let (ex, ey) = (to_e(&x, w), to_e(&y, w));
            let w = w as u16;
            let k = if n.starts_with("fshl") { k } else { (w - k) % w };
            if k == 0 { done!(if n.starts_with("fshl") { x } else { y }) }
            let hi = pl.extract(ex, 0, w - k); let lo = pl.extract(ey, w - k, k);
            done!(from_e(pl.concat(hi, lo)))
        }
        if n.starts_with("ptrmask") { let v = vbin(Op::And, 64, &s.val(&a[0]), &s.val(&a[1])); done!(v) }
        if n.starts_with("vector.reduce.or") || n.starts_with("vector.reduce.and") {
            let op = if n.contains(".or") { Op::Or } else { Op::And };
            if let Val::A(x) = s.val(&a[0]) { let mut r = x[0].clone(); for q in &x[1..] { r = vbin(op, w, &r, q); } done!(r) }
        }
        if n.starts_with("x86.sse2.pmovmskb") {
            if let Val::A(x) = s.val(&a[0]) { let bits: Vec<Val> = x.iter().map(|q| vcast(Cast::Trunc, 8, 1, &vbin(Op::LShr, 8, q, &Val::C(7)))).collect(); let v = flatten(&Val::A(Rc::new(bits)), 1); done!(vcast(Cast::ZExt, 16, 32, &v)) }
        }
        error(format!("intrinsic llvm.{}", n))
    }
}
fn x_is_small(v: &Val) -> bool { matches!(v, Val::A(_)) }

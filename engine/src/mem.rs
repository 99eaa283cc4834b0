//! Byte-addressed, object-granular, copy-on-write memory.
//! Address = object id << 32 | offset, so every pointer is an ordinary 64-bit value.
use crate::expr::*;
use crate::ir::Val;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub const HEAP_FIRST: u64 = 1 << 20;
const CH: usize = 32;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Const, Global, Heap, Stack, Tls }

#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub sym: Option<BTreeMap<u32, (E, u8)>>, pub kind: Kind }

impl Obj {
    pub fn new(size: u64, kind: Kind) -> Obj { Obj { data: vec![0; size as usize], sym: None, kind } }
}

#[derive(Clone)]
struct Chunk { o: [Option<Rc<Obj>>; CH] }

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Chunk>>,
    next: u64,
    free_stack: Vec<u64>,
    globals: HashMap<u64, Rc<Obj>>,
    pub live_heap: i64,
}

/// Initial contents of globals, shared by all states.
static mut BASE: Option<HashMap<u64, Rc<Obj>>> = None;
#[allow(static_mut_refs)]
pub fn base() -> &'static mut HashMap<u64, Rc<Obj>> { unsafe { BASE.get_or_insert_with(HashMap::new) } }

impl Mem {
    pub fn new() -> Mem { Mem { chunks: vec![], next: HEAP_FIRST, free_stack: vec![], globals: HashMap::new(), live_heap: 0 } }
    fn empty() -> Rc<Chunk> { const N: Option<Rc<Obj>> = None; Rc::new(Chunk { o: [N; CH] }) }
    fn set(&mut self, id: u64, o: Option<Rc<Obj>>) {
        let i = (id - HEAP_FIRST) as usize;
        while self.chunks.len() <= i / CH { self.chunks.push(Self::empty()); }
        Rc::make_mut(&mut self.chunks[i / CH]).o[i % CH] = o;
    }
    pub fn alloc(&mut self, size: u64, kind: Kind) -> u64 {
        let id = if kind == Kind::Stack { self.free_stack.pop() } else { None }.unwrap_or_else(|| { self.next += 1; self.next - 1 });
        if kind == Kind::Heap { self.live_heap += 1; }
        self.set(id, Some(Rc::new(Obj::new(size, kind))));
        id << 32
    }
    pub fn free_stack_obj(&mut self, addr: u64) { let id = addr >> 32; self.set(id, None); self.free_stack.push(id); }
    pub fn free(&mut self, addr: u64) -> Result<(), String> {
        let id = addr >> 32;
        if addr & 0xffff_ffff != 0 { return Err(format!("free of interior pointer {:#x}", addr)); }
        match self.get(id) { Some(o) if o.kind == Kind::Heap => {}, _ => return Err(format!("invalid or double free {:#x}", addr)) }
        self.set(id, None);
        self.live_heap -= 1;
        Ok(())
    }
    #[inline]
    pub fn get(&self, id: u64) -> Option<&Rc<Obj>> {
        if id >= HEAP_FIRST {
            let i = (id - HEAP_FIRST) as usize;
            self.chunks.get(i / CH)?.o[i % CH].as_ref()
        } else {
            if let Some(o) = self.globals.get(&id) { return Some(o); }
            base().get(&id)
        }
    }
    #[inline]
    pub fn obj(&self, addr: u64, len: u64) -> Result<(&Obj, usize), String> {
        let off = addr & 0xffff_ffff;
        match self.get(addr >> 32) {
            Some(o) if off + len <= o.data.len() as u64 => Ok((o, off as usize)),
            Some(o) => Err(format!("out-of-bounds access at {:#x}+{} (object size {})", addr, len, o.data.len())),
            None => Err(format!("access to invalid or freed memory {:#x}+{}", addr, len)),
        }
    }
    #[inline]
    pub fn obj_mut(&mut self, addr: u64, len: u64) -> Result<(&mut Obj, usize), String> {
        let off = addr & 0xffff_ffff;
        let id = addr >> 32;
        { let (o, _) = self.obj(addr, len)?; if o.kind == Kind::Const { return Err(format!("write to constant {:#x}", addr)); } }
        let o: &mut Obj = if id >= HEAP_FIRST {
            let i = (id - HEAP_FIRST) as usize;
            Rc::make_mut(Rc::make_mut(&mut self.chunks[i / CH]).o[i % CH].as_mut().unwrap())
        } else {
            let e = self.globals.entry(id).or_insert_with(|| base().get(&id).unwrap().clone());
            Rc::make_mut(e)
        };
        Ok((o, off as usize))
    }
    /// Read `n` bytes (n <= 16) as an integer of `w` bits.
    pub fn read_int(&self, addr: u64, n: u64, w: u16) -> Result<Val, String> {
        if n == 0 { return Ok(Val::C(0)); }
        let (o, off) = self.obj(addr, n)?;
        let n = n as usize;
        let has = match &o.sym { None => false, Some(s) => s.range(off as u32..(off + n) as u32).next().is_some() };
        if !has {
            let mut v: u128 = 0;
            for i in (0..n).rev() { v = (v << 8) | o.data[off + i] as u128; }
            return Ok(Val::C(v & mask(w)));
        }
        let s = o.sym.as_ref().unwrap();
        let p = pool();
        let mut acc: Option<E> = None;
        for i in 0..n {
            let b = match s.get(&((off + i) as u32)) {
                Some(&(e, k)) => { let ew = p.w(e); let lo = k as u16 * 8; if lo + 8 <= ew { p.extract(e, lo, 8) } else { let x = p.extract(e, lo, ew - lo); p.zext(x, 8) } }
                None => p.konst(o.data[off + i] as u128, 8),
            };
            acc = Some(match acc { None => b, Some(a) => p.concat(b, a) });
        }
        let mut e = acc.unwrap();
        if p.w(e) > w { e = p.extract(e, 0, w); }
        Ok(match p.cval(e) { Some(v) => Val::C(v), None => Val::S(e) })
    }
    pub fn write_int(&mut self, addr: u64, n: u64, v: &Val) -> Result<(), String> {
        if n == 0 { return Ok(()); }
        let (o, off) = self.obj_mut(addr, n)?;
        let n = n as usize;
        match v {
            Val::C(x) => {
                let mut x = *x;
                for i in 0..n { o.data[off + i] = x as u8; x >>= 8; }
                clear(o, off, n);
            }
            Val::S(e) => {
                clear(o, off, n);
                let w = pool().w(*e) as usize;
                let s = o.sym.get_or_insert_with(BTreeMap::new);
                for i in 0..n { if i * 8 < w { s.insert((off + i) as u32, (*e, i as u8)); } else { o.data[off + i] = 0; } }
            }
            Val::A(_) => return Err("write_int of aggregate".into()),
        }
        Ok(())
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> Result<(), String> {
        if n == 0 { return Ok(()); }
        let (bytes, syms) = {
            let (o, off) = self.obj(src, n)?;
            let b = o.data[off..off + n as usize].to_vec();
            let s: Vec<(u32, (E, u8))> = match &o.sym { None => vec![], Some(s) => s.range(off as u32..(off as u64 + n) as u32).map(|(k, v)| (*k - off as u32, *v)).collect() };
            (b, s)
        };
        let (o, off) = self.obj_mut(dst, n)?;
        o.data[off..off + n as usize].copy_from_slice(&bytes);
        clear(o, off, n as usize);
        if !syms.is_empty() { let s = o.sym.get_or_insert_with(BTreeMap::new); for (k, v) in syms { s.insert(off as u32 + k, v); } }
        Ok(())
    }
    pub fn set_bytes(&mut self, dst: u64, v: u8, n: u64) -> Result<(), String> {
        if n == 0 { return Ok(()); }
        let (o, off) = self.obj_mut(dst, n)?;
        for i in 0..n as usize { o.data[off + i] = v; }
        clear(o, off, n as usize);
        Ok(())
    }
    pub fn bytes(&self, a: u64, n: u64) -> Result<Vec<u8>, String> { let (o, off) = self.obj(a, n)?; Ok(o.data[off..off + n as usize].to_vec()) }
}
fn clear(o: &mut Obj, off: usize, n: usize) {
    if let Some(s) = &mut o.sym {
        if s.is_empty() { o.sym = None; return; }
        let ks: Vec<u32> = s.range(off as u32..(off + n) as u32).map(|(k, _)| *k).collect();
        for k in ks { s.remove(&k); }
        if s.is_empty() { o.sym = None; }
    }
}

//! Loader and lazy parser for textual LLVM IR as emitted by rustc.
use crate::ir::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok { Nl, Loc(String), Glob(String), Int(i128), UInt(u128), Word(String), P(char), Str(Vec<u8>), Meta, Attr, Fp(String), Dots }

pub struct Lexer<'a> { s: &'a [u8], i: usize }
fn idch(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }
fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && s[i + 1].is_ascii_hexdigit() && s[i + 2].is_ascii_hexdigit() {
            o.push(u8::from_str_radix(std::str::from_utf8(&s[i + 1..i + 3]).unwrap(), 16).unwrap());
            i += 3;
        } else if s[i] == b'\\' && i + 1 < s.len() && s[i + 1] == b'\\' { o.push(b'\\'); i += 2; }
        else { o.push(s[i]); i += 1; }
    }
    o
}
impl<'a> Lexer<'a> {
    pub fn new(s: &'a str) -> Self { Lexer { s: s.as_bytes(), i: 0 } }
    fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            let st = self.i + 1;
            let mut j = st;
            while self.s[j] != b'"' { j += 1; }
            self.i = j + 1;
            return String::from_utf8_lossy(&unescape(&self.s[st..j])).into_owned();
        }
        let st = self.i;
        while self.i < self.s.len() && idch(self.s[self.i]) { self.i += 1; }
        String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
    }
    pub fn all(mut self) -> Vec<Tok> {
        let mut v = vec![];
        while let Some(t) = self.next() { v.push(t); }
        v
    }
    fn next(&mut self) -> Option<Tok> {
        let n = self.s.len();
        loop {
            if self.i >= n { return None; }
            let c = self.s[self.i];
            match c {
                b' ' | b'\t' | b'\r' => { self.i += 1; }
                b';' => { while self.i < n && self.s[self.i] != b'\n' { self.i += 1; } }
                b'\n' => { self.i += 1; return Some(Tok::Nl); }
                b'%' => { self.i += 1; return Some(Tok::Loc(self.name())); }
                b'@' => { self.i += 1; return Some(Tok::Glob(self.name())); }
                b'!' => {
                    self.i += 1;
                    while self.i < n && (idch(self.s[self.i]) || self.s[self.i] == b'\\') { self.i += 1; }
                    return Some(Tok::Meta);
                }
                b'#' => { self.i += 1; while self.i < n && idch(self.s[self.i]) { self.i += 1; } return Some(Tok::Attr); }
                b'c' if self.i + 1 < n && self.s[self.i + 1] == b'"' => {
                    let st = self.i + 2; let mut j = st;
                    while self.s[j] != b'"' { j += 1; }
                    self.i = j + 1;
                    return Some(Tok::Str(unescape(&self.s[st..j])));
                }
                b'"' => {
                    let st = self.i + 1; let mut j = st;
                    while self.s[j] != b'"' { j += 1; }
                    self.i = j + 1;
                    if self.i < n && self.s[self.i] == b':' { return Some(Tok::Word(String::from_utf8_lossy(&self.s[st..j]).into_owned())); }
                    return Some(Tok::Str(unescape(&self.s[st..j])));
                }
                b'-' | b'0'..=b'9' => {
                    let st = self.i;
                    self.i += 1;
                    while self.i < n && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'.' || (self.s[self.i] == b'+' && self.s[self.i-1] == b'e') || (self.s[self.i] == b'-' && self.s[self.i-1] == b'e')) { self.i += 1; }
                    let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
                    if self.i < n && self.s[self.i] == b':' { return Some(Tok::Word(t.to_string())); }
                    if let Ok(v) = t.parse::<i128>() { return Some(Tok::Int(v)); }
                    if let Ok(v) = t.parse::<u128>() { return Some(Tok::UInt(v)); }
                    return Some(Tok::Fp(t.to_string()));
                }
                b'.' if self.s[self.i..].starts_with(b"...") => { self.i += 3; return Some(Tok::Dots); }
                _ if idch(c) => { let w = self.name(); return Some(Tok::Word(w)); }
                _ => { self.i += 1; return Some(Tok::P(c as char)); }
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct FnInfo { pub name: String, pub pretty: String, pub module: usize, pub text: Option<&'static str>, pub weak: bool }
#[derive(Clone, Debug)]
pub struct GlobInfo { pub name: String, pub module: usize, pub text: &'static str, pub tls: bool, pub external: bool, pub weak: bool }

pub struct Program {
    pub types: Vec<Ty>,
    tmap: HashMap<Ty, TyId>,
    pub layout: Vec<(u64, u64)>, // size, align
    pub named: Vec<HashMap<String, &'static str>>,
    named_done: HashMap<(usize, String), TyId>,
    pub modnames: Vec<String>,
    pub fns: Vec<FnInfo>,
    pub gfn: HashMap<String, u32>,
    pub lfn: Vec<HashMap<String, u32>>,
    pub globs: Vec<GlobInfo>,
    pub gglob: HashMap<String, u32>,
    pub lglob: Vec<HashMap<String, u32>>,
    pub bodies: Vec<Option<Rc<Func>>>,
    pub glob_addr: Vec<Option<u64>>,
    pub glob_pending: Vec<u32>,
    pub next_glob: u64,
    pub ty_void: TyId, pub ty_ptr: TyId, pub ty_i1: TyId, pub ty_i8: TyId, pub ty_i32: TyId, pub ty_i64: TyId,
}

pub const FN_BASE: u64 = 1 << 32;
/// object ids of globals start here
pub const GLOB_FIRST: u64 = 16;

/// Constant tree (before address assignment).
#[derive(Clone, Debug)]
pub enum Const { Int(u128), Zero, Agg(Vec<(TyId, Const)>), Bytes(Vec<u8>), Fn(u32), Glob(u32), Off(Box<Const>, i64), BinK(Bin, Box<Const>, Box<Const>), Trunc(Box<Const>, u32), Splat(u64, TyId, Box<Const>), Unsup(String) }

impl Program {
    pub fn new() -> Program {
        let mut p = Program { types: vec![], tmap: HashMap::new(), layout: vec![], named: vec![], named_done: HashMap::new(), modnames: vec![], fns: vec![], gfn: HashMap::new(), lfn: vec![], globs: vec![], gglob: HashMap::new(), lglob: vec![], bodies: vec![], glob_addr: vec![], glob_pending: vec![], next_glob: GLOB_FIRST, ty_void: 0, ty_ptr: 0, ty_i1: 0, ty_i8: 0, ty_i32: 0, ty_i64: 0 };
        p.ty_void = p.ty(Ty::Void); p.ty_ptr = p.ty(Ty::Ptr); p.ty_i1 = p.ty(Ty::Int(1)); p.ty_i8 = p.ty(Ty::Int(8)); p.ty_i32 = p.ty(Ty::Int(32)); p.ty_i64 = p.ty(Ty::Int(64));
        p
    }
    pub fn ty(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.tmap.get(&t) { return i; }
        let l = match &t {
            Ty::Void | Ty::Opaque => (0, 1),
            Ty::Int(w) => { let b = ((*w as u64) + 7) / 8; let s = b.next_power_of_two(); (s, s.min(16)) }
            Ty::Ptr => (8, 8),
            Ty::Float(w) => ((*w as u64) / 8, (*w as u64) / 8),
            Ty::Array(n, e) => { let (s, a) = self.layout[*e as usize]; (s * n, a) }
            Ty::Vector(n, e) => {
                let bits = match self.types[*e as usize] { Ty::Int(w) => w as u64, Ty::Ptr => 64, Ty::Float(w) => w as u64, _ => 64 };
                let s = ((n * bits + 7) / 8).next_power_of_two(); (s, s)
            }
            Ty::Struct(fs, packed) => {
                let mut o = 0u64; let mut al = 1;
                for f in fs { let (s, a) = self.layout[*f as usize]; let a = if *packed { 1 } else { a }; o = (o + a - 1) / a * a; o += s; al = al.max(a); }
                ((o + al - 1) / al * al, al)
            }
        };
        let id = self.types.len() as TyId;
        self.types.push(t.clone()); self.layout.push(l); self.tmap.insert(t, id);
        id
    }
    #[inline] pub fn size(&self, t: TyId) -> u64 { self.layout[t as usize].0 }
    pub fn bits(&self, t: TyId) -> u32 { match &self.types[t as usize] { Ty::Int(w) => *w, Ty::Ptr => 64, Ty::Float(w) => *w, Ty::Vector(n, e) => *n as u32 * self.bits(*e), _ => (self.size(t) * 8) as u32 } }
    pub fn field_off(&self, t: TyId, i: usize) -> (u64, TyId) {
        match &self.types[t as usize] {
            Ty::Struct(fs, packed) => {
                let mut o = 0u64;
                for (k, f) in fs.iter().enumerate() {
                    let (s, a) = self.layout[*f as usize]; let a = if *packed { 1 } else { a };
                    o = (o + a - 1) / a * a;
                    if k == i { return (o, *f); }
                    o += s;
                }
                panic!("field index")
            }
            Ty::Array(_, e) | Ty::Vector(_, e) => (self.size(*e) * i as u64, *e),
            _ => panic!("field_off on scalar"),
        }
    }
    pub fn nfields(&self, t: TyId) -> usize { match &self.types[t as usize] { Ty::Struct(f, _) => f.len(), Ty::Array(n, _) | Ty::Vector(n, _) => *n as usize, _ => 0 } }

    pub fn load_file(&mut self, path: &str) {
        let text: &'static str = Box::leak(std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {}", path, e)).into_boxed_str());
        let m = self.modnames.len();
        self.modnames.push(std::path::Path::new(path).file_stem().unwrap().to_string_lossy().into_owned());
        self.named.push(HashMap::new()); self.lfn.push(HashMap::new()); self.lglob.push(HashMap::new());
        let bytes = text.as_bytes();
        let mut i = 0;
        let mut pretty: &str = "";
        while i < bytes.len() {
            let e = memchr(bytes, i, b'\n');
            let line = &text[i..e];
            let mut next = e + 1;
            if line.starts_with("; ") && !line.starts_with("; Function Attrs") { pretty = &line[2..]; }
            else if line.starts_with("define ") {
                let end = text[e..].find("\n}\n").map(|x| e + x).unwrap_or(bytes.len());
                let body = &text[i..end];
                let (name, local, weak) = header_name(line);
                self.add_fn(m, name, local, weak, Some(body), pretty);
                next = end + 3;
                pretty = "";
            } else if line.starts_with("declare ") {
                let (name, local, weak) = header_name(line);
                self.add_fn(m, name, local, weak, None, pretty);
                pretty = "";
            } else if line.starts_with('@') {
                let mut lx = Lexer::new(&line[..]); 
                let name = match lx.next() { Some(Tok::Glob(n)) => n, _ => panic!("global name") };
                let rest = &line[lx.i..];
                let head: String = rest.chars().take(160).collect();
                let local = head.contains(" private ") || head.contains(" internal ");
                let tls = head.contains(" thread_local");
                let external = head.contains("= external ") || head.contains("= extern_weak ");
                let weak = head.contains("= extern_weak ");
                let gi = GlobInfo { name: name.clone(), module: m, text: rest, tls, external, weak };
                if local {
                    let id = self.globs.len() as u32; self.globs.push(gi); self.glob_addr.push(None);
                    self.lglob[m].insert(name, id);
                } else {
                    match self.gglob.get(&name) {
                        Some(&id) => { if self.globs[id as usize].external && !external { self.globs[id as usize] = gi; } }
                        None => { let id = self.globs.len() as u32; self.globs.push(gi); self.glob_addr.push(None); self.gglob.insert(name, id); }
                    }
                }
            } else if line.starts_with('%') {
                let mut lx = Lexer::new(line);
                if let Some(Tok::Loc(n)) = lx.next() { self.named[m].insert(n, &line[lx.i..]); }
            }
            i = next;
        }
    }
    fn add_fn(&mut self, m: usize, name: String, local: bool, weak: bool, body: Option<&'static str>, pretty: &str) {
        let fi = FnInfo { name: name.clone(), pretty: if pretty.is_empty() { name.clone() } else { pretty.to_string() }, module: m, text: body, weak };
        if local {
            let id = self.fns.len() as u32; self.fns.push(fi); self.bodies.push(None); self.lfn[m].insert(name, id);
        } else {
            match self.gfn.get(&name) {
                Some(&id) => { if self.fns[id as usize].text.is_none() && body.is_some() { self.fns[id as usize] = fi; } }
                None => { let id = self.fns.len() as u32; self.fns.push(fi); self.bodies.push(None); self.gfn.insert(name, id); }
            }
        }
    }
    pub fn find_fn(&self, m: usize, n: &str) -> Option<u32> { self.lfn[m].get(n).or_else(|| self.gfn.get(n)).copied() }
    pub fn find_glob(&self, m: usize, n: &str) -> Option<u32> { self.lglob[m].get(n).or_else(|| self.gglob.get(n)).copied() }

    pub fn glob_address(&mut self, g: u32) -> u64 {
        if let Some(a) = self.glob_addr[g as usize] { return a; }
        let a = self.next_glob << 32;
        self.next_glob += 1;
        self.glob_addr[g as usize] = Some(a);
        self.glob_pending.push(g);
        a
    }
    pub fn eval_const(&mut self, t: TyId, c: &Const) -> Val {
        match c {
            Const::Int(v) => Val::C(*v),
            Const::Zero => match self.types[t as usize].clone() {
                Ty::Struct(fs, _) => Val::A(Rc::new(fs.iter().map(|f| self.eval_const(*f, &Const::Zero)).collect())),
                Ty::Array(n, e) | Ty::Vector(n, e) => { let z = self.eval_const(e, &Const::Zero); Val::A(Rc::new(vec![z; n as usize])) }
                _ => Val::C(0),
            },
            Const::Agg(v) => Val::A(Rc::new(v.iter().map(|(t, c)| self.eval_const(*t, c)).collect())),
            Const::Bytes(b) => Val::A(Rc::new(b.iter().map(|x| Val::C(*x as u128)).collect())),
            Const::Fn(f) => if self.fns[*f as usize].weak && self.fns[*f as usize].text.is_none() { Val::C(0) } else { Val::C((FN_BASE + *f as u64 * 16) as u128) },
            Const::Glob(g) => if self.globs[*g as usize].weak { Val::C(0) } else { Val::C(self.glob_address(*g) as u128) },
            Const::Off(b, o) => { let v = self.eval_const(self.ty_ptr, b).c().unwrap(); Val::C((v as u64).wrapping_add(*o as u64) as u128) }
            Const::BinK(op, a, b) => {
                let x = self.eval_const(self.ty_i64, a).c().unwrap() as u64; let y = self.eval_const(self.ty_i64, b).c().unwrap() as u64;
                Val::C(match op { Bin::Add => x.wrapping_add(y), Bin::Sub => x.wrapping_sub(y), Bin::Mul => x.wrapping_mul(y), Bin::Xor => x ^ y, Bin::And => x & y, Bin::Or => x | y, _ => 0 } as u128)
            }
            Const::Trunc(a, w) => { let v = self.eval_const(self.ty_i64, a).c().unwrap(); Val::C(v & crate::expr::mask(*w as u16)) }
            Const::Splat(n, e, c) => { let v = self.eval_const(*e, c); Val::A(Rc::new(vec![v; *n as usize])) }
            Const::Unsup(_) => Val::C(0),
        }
    }
    pub fn parse_glob_init(&mut self, g: u32) -> (TyId, Option<Const>) {
        let gi = self.globs[g as usize].clone();
        let toks = Lexer::new(gi.text).all();
        let mut p = Parser { pr: self, m: gi.module, t: toks, i: 0, locals: HashMap::new(), nregs: 0, labels: HashMap::new(), frame: 0 };
        // skip to 'global' or 'constant'
        loop { match p.bump() { Tok::Word(w) if w == "global" || w == "constant" => break, _ => {} } }
        let t = p.ty();
        if gi.external { return (t, None); }
        let c = p.constant(t);
        (t, Some(c))
    }
    pub fn body(&mut self, f: u32) -> Option<Rc<Func>> {
        if let Some(b) = &self.bodies[f as usize] { return Some(b.clone()); }
        let fi = self.fns[f as usize].clone();
        let text = fi.text?;
        let toks = Lexer::new(text).all();
        let mut p = Parser { pr: self, m: fi.module, t: toks, i: 0, locals: HashMap::new(), nregs: 0, labels: HashMap::new(), frame: 0 };
        let b = Rc::new(p.function(f));
        self.bodies[f as usize] = Some(b.clone());
        Some(b)
    }
}

fn memchr(b: &[u8], i: usize, c: u8) -> usize { let mut j = i; while j < b.len() && b[j] != c { j += 1; } j }

fn header_name(line: &str) -> (String, bool, bool) {
    let at = line.find('@').expect("fn name");
    let head = &line[..at];
    let local = head.contains(" internal ") || head.contains(" private ");
    let weak = head.contains("extern_weak");
    let mut lx = Lexer::new(&line[at..]);
    match lx.next() { Some(Tok::Glob(n)) => (n, local, weak), _ => panic!() }
}

struct Parser<'a> {
    pr: &'a mut Program, m: usize, t: Vec<Tok>, i: usize,
    locals: HashMap<String, u32>, nregs: u32, labels: HashMap<String, u32>, frame: u64,
}

const TYWORDS: &[&str] = &["void", "ptr", "float", "double", "half", "x86_fp80", "fp128", "bfloat", "metadata", "label", "token"];

impl<'a> Parser<'a> {
    fn peek(&self) -> &Tok { static NL: Tok = Tok::Nl; self.t.get(self.i).unwrap_or(&NL) }
    fn bump(&mut self) -> Tok { let t = self.peek().clone(); self.i += 1; t }
    fn is_p(&self, c: char) -> bool { matches!(self.peek(), Tok::P(x) if *x == c) }
    fn is_w(&self, w: &str) -> bool { matches!(self.peek(), Tok::Word(x) if x == w) }
    fn eat_p(&mut self, c: char) -> bool { if self.is_p(c) { self.i += 1; true } else { false } }
    fn eat_w(&mut self, w: &str) -> bool { if self.is_w(w) { self.i += 1; true } else { false } }
    fn exp_p(&mut self, c: char) { if !self.eat_p(c) { self.err(&format!("expected '{}'", c)); } }
    fn err(&self, s: &str) -> ! {
        let lo = self.i.saturating_sub(12); let hi = (self.i + 8).min(self.t.len());
        panic!("IR parse error ({}): {} near {:?} >>> {:?}", self.pr.modnames[self.m], s, &self.t[lo..self.i.min(self.t.len())], &self.t[self.i.min(self.t.len())..hi]);
    }
    fn skip_parens(&mut self) { // at '('
        let mut d = 0;
        loop { match self.bump() { Tok::P('(') => d += 1, Tok::P(')') => { d -= 1; if d == 0 { return; } } _ => {} } }
    }
    fn int_ty(w: &str) -> Option<u32> { if w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) { w[1..].parse().ok() } else { None } }
    fn ty(&mut self) -> TyId {
        let mut t = match self.bump() {
            Tok::Word(w) => {
                if let Some(n) = Self::int_ty(&w) { self.pr.ty(Ty::Int(n)) } else {
                    match w.as_str() {
                        "void" => self.pr.ty_void, "ptr" => { if self.eat_w("addrspace") { self.skip_parens(); } self.pr.ty_ptr }
                        "float" => self.pr.ty(Ty::Float(32)), "double" => self.pr.ty(Ty::Float(64)), "half" | "bfloat" => self.pr.ty(Ty::Float(16)),
                        "x86_fp80" | "fp128" => self.pr.ty(Ty::Float(128)),
                        "metadata" | "label" | "token" | "opaque" => self.pr.ty(Ty::Opaque),
                        _ => { self.i -= 1; self.err("type") }
                    }
                }
            }
            Tok::P('{') => { let f = self.ty_list('}'); self.pr.ty(Ty::Struct(f, false)) }
            Tok::P('[') => { let n = self.int(); if !self.eat_w("x") { self.err("x"); } let e = self.ty(); self.exp_p(']'); self.pr.ty(Ty::Array(n as u64, e)) }
            Tok::P('<') => {
                if self.eat_p('{') { let f = self.ty_list('}'); self.exp_p('>'); self.pr.ty(Ty::Struct(f, true)) }
                else { let n = self.int(); if !self.eat_w("x") { self.err("x"); } let e = self.ty(); self.exp_p('>'); self.pr.ty(Ty::Vector(n as u64, e)) }
            }
            Tok::Loc(n) => {
                let key = (self.m, n.clone());
                if let Some(&t) = self.pr.named_done.get(&key) { t } else {
                    let txt = *self.pr.named[self.m].get(&n).unwrap_or_else(|| panic!("unknown type %{}", n));
                    let toks = Lexer::new(txt).all();
                    let m = self.m;
                    let mut p = Parser { pr: self.pr, m, t: toks, i: 0, locals: HashMap::new(), nregs: 0, labels: HashMap::new(), frame: 0 };
                    while !p.eat_w("type") { p.i += 1; }
                    let t = p.ty();
                    self.pr.named_done.insert(key, t);
                    t
                }
            }
            _ => { self.i -= 1; self.err("type") }
        };
        // function type
        if self.is_p('(') && self.looks_fnty() { self.skip_parens(); let _ = &mut t; }
        t
    }
    fn looks_fnty(&self) -> bool {
        // after a type, "(T, ...)" denotes a function type (call through varargs)
        match self.t.get(self.i + 1) {
            Some(Tok::Dots) => true,
            Some(Tok::P(')')) => true,
            Some(Tok::Word(w)) => Self::int_ty(w).is_some() || TYWORDS.contains(&w.as_str()),
            _ => false,
        }
    }
    fn ty_list(&mut self, end: char) -> Vec<TyId> {
        let mut v = vec![];
        if self.eat_p(end) { return v; }
        loop { v.push(self.ty()); if self.eat_p(end) { return v; } self.exp_p(','); }
    }
    fn int(&mut self) -> i128 { match self.bump() { Tok::Int(v) => v, _ => { self.i -= 1; self.err("int") } } }

    fn constant(&mut self, t: TyId) -> Const {
        let w = self.pr.bits(t);
        match self.bump() {
            Tok::Int(v) => match &self.pr.types[t as usize] { Ty::Float(b) => Const::Int(fp_bits(v as f64, *b)), _ => Const::Int((v as u128) & crate::expr::mask(w.min(128) as u16)) },
            Tok::UInt(v) => Const::Int(v),
            Tok::Fp(s) => {
                if let Some(h) = s.strip_prefix("0x") {
                    let hx = h.trim_start_matches(|c: char| c == 'H' || c == 'K' || c == 'L' || c == 'M' || c == 'R');
                    let v = u128::from_str_radix(hx, 16).unwrap_or(0);
                    if w == 32 { Const::Int((f64::from_bits(v as u64) as f32).to_bits() as u128) } else { Const::Int(v) }
                } else { Const::Int(fp_bits(s.parse::<f64>().unwrap_or(0.0), w)) }
            }
            Tok::Str(b) => Const::Bytes(b),
            Tok::Glob(n) => {
                if let Some(f) = self.pr.find_fn(self.m, &n) { Const::Fn(f) }
                else if let Some(g) = self.pr.find_glob(self.m, &n) { Const::Glob(g) }
                else { panic!("unknown global @{}", n) }
            }
            Tok::P('{') => { let v = self.const_list('}'); Const::Agg(v) }
            Tok::P('[') => { let v = self.const_list(']'); Const::Agg(v) }
            Tok::P('<') => {
                if self.eat_p('{') { let v = self.const_list('}'); self.exp_p('>'); Const::Agg(v) } else { let v = self.const_list('>'); Const::Agg(v) }
            }
            Tok::Word(k) => match k.as_str() {
                "true" => Const::Int(1), "false" => Const::Int(0),
                "null" | "none" => Const::Int(0),
                "undef" | "poison" | "zeroinitializer" => Const::Zero,
                "splat" => { self.exp_p('('); let e = self.ty(); let c = self.constant(e); self.exp_p(')'); let n = match self.pr.types[t as usize] { Ty::Vector(n, _) => n, _ => 1 }; Const::Splat(n, e, Box::new(c)) }
                "getelementptr" => {
                    while let Tok::Word(_) = self.peek() { if self.is_w("inrange") { self.i += 1; self.skip_parens(); } else { self.i += 1; } }
                    self.exp_p('(');
                    let et = self.ty(); self.exp_p(',');
                    let pt = self.ty(); let base = self.constant(pt);
                    let mut idx = vec![];
                    while self.eat_p(',') { self.eat_w("inrange"); let it = self.ty(); match self.constant(it) { Const::Int(v) => idx.push(crate::expr::sext128(v, self.pr.bits(it) as u16) as i64), Const::Zero => idx.push(0), _ => self.err("gep const idx") } }
                    self.exp_p(')');
                    let mut off = idx[0] * self.pr.size(et) as i64; let mut cur = et;
                    for i in &idx[1..] { let (o, f) = match self.pr.types[cur as usize].clone() { Ty::Struct(..) => self.pr.field_off(cur, *i as usize), Ty::Array(_, e) | Ty::Vector(_, e) => ((self.pr.size(e) as i64 * *i) as u64, e), _ => self.err("gep") }; off += o as i64; cur = f; }
                    Const::Off(Box::new(base), off)
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "addrspacecast" | "zext" | "trunc" | "ptrtoaddr" => {
                    self.exp_p('('); let ft = self.ty(); let c = self.constant(ft); if !self.eat_w("to") { self.err("to"); } let tt = self.ty(); self.exp_p(')');
                    if k == "trunc" { Const::Trunc(Box::new(c), self.pr.bits(tt)) } else { c }
                }
                "add" | "sub" | "mul" | "xor" | "and" | "or" => {
                    while let Tok::Word(_) = self.peek() { self.i += 1; }
                    self.exp_p('('); let a = self.ty(); let x = self.constant(a); self.exp_p(','); let b = self.ty(); let y = self.constant(b); self.exp_p(')');
                    let op = match k.as_str() { "add" => Bin::Add, "sub" => Bin::Sub, "mul" => Bin::Mul, "xor" => Bin::Xor, "and" => Bin::And, _ => Bin::Or };
                    Const::BinK(op, Box::new(x), Box::new(y))
                }
                _ => { self.i -= 1; self.err("constant") }
            },
            _ => { self.i -= 1; self.err("constant") }
        }
    }
    fn const_list(&mut self, end: char) -> Vec<(TyId, Const)> {
        let mut v = vec![];
        if self.eat_p(end) { return v; }
        loop { let t = self.ty(); let c = self.constant(t); v.push((t, c)); if self.eat_p(end) { return v; } self.exp_p(','); }
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.locals.get(n) { return r; }
        let r = self.nregs; self.nregs += 1; self.locals.insert(n.to_string(), r); r
    }
    fn label(&mut self, n: &str) -> u32 {
        let k = self.labels.len() as u32;
        *self.labels.entry(n.to_string()).or_insert(k)
    }
    fn lab(&mut self) -> u32 { if !self.eat_w("label") { self.err("label"); } match self.bump() { Tok::Loc(n) => self.label(&n), _ => self.err("label name") } }
    fn opd(&mut self, t: TyId) -> Opd {
        if let Tok::Loc(n) = self.peek().clone() { self.i += 1; return Opd::R(self.reg(&n)); }
        if let Tok::Meta = self.peek() { while !self.is_p(',') && !self.is_p(')') { if self.is_p('(') { self.skip_parens(); } else { self.i += 1; } } return Opd::K(Val::C(0)); }
        let c = self.constant(t);
        Opd::K(self.pr.eval_const(t, &c))
    }
    fn tyopd(&mut self) -> (TyId, Opd) { let t = self.ty(); self.attrs(); let o = self.opd(t); (t, o) }
    fn is_value_word(w: &str) -> bool { matches!(w, "true" | "false" | "null" | "none" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "addrspacecast" | "ptrtoaddr" | "asm" | "add" | "sub" | "xor" | "trunc" | "zext" | "mul" | "and" | "or") }
    /// skip parameter attributes before a value
    fn attrs(&mut self) {
        loop {
            match self.peek() {
                Tok::Word(w) if !Self::is_value_word(w) => {
                    let al = w == "align" || w == "alignstack";
                    self.i += 1;
                    if self.is_p('(') { self.skip_parens(); }
                    else if al { self.i += 1; }
                }
                Tok::Str(_) => { self.i += 1; if self.eat_p('=') { self.i += 1; } }
                _ => return,
            }
        }
    }
    /// attributes before a return type; stops at something that begins a type
    fn ret_attrs(&mut self) {
        loop {
            match self.peek() {
                Tok::Word(w) => {
                    if Self::int_ty(w).is_some() || TYWORDS.contains(&w.as_str()) { return; }
                    let al = w == "align";
                    self.i += 1;
                    if self.is_p('(') { self.skip_parens(); } else if al { self.i += 1; }
                }
                Tok::Str(_) => { self.i += 1; if self.eat_p('=') { self.i += 1; } }
                _ => return,
            }
        }
    }
    fn skip_line(&mut self) { while !matches!(self.peek(), Tok::Nl) { self.i += 1; } self.i += 1; }

    fn function(&mut self, id: u32) -> Func {
        // header
        self.i = 0;
        self.eat_w("define");
        self.ret_attrs();
        let ret = self.ty();
        match self.bump() { Tok::Glob(_) => {}, _ => { self.i -= 1; self.err("fn name") } }
        self.exp_p('(');
        let mut np = 0; let mut anon = 0;
        if !self.eat_p(')') {
            loop {
                if matches!(self.peek(), Tok::Dots) { self.i += 1; self.exp_p(')'); break; }
                let _t = self.ty(); self.attrs();
                if let Tok::Loc(n) = self.peek().clone() { self.i += 1; let r = self.reg(&n); assert!(r == np); } else { let n = format!("{}", anon); let r = self.reg(&n); assert!(r == np); }
                anon += 1; np += 1;
                if self.eat_p(')') { break; }
                self.exp_p(',');
            }
        }
        self.skip_line();
        let mut blocks: Vec<Option<Block>> = vec![];
        let mut cur: Option<u32> = None;
        let mut blk = Block { phis: vec![], insts: vec![] };
        loop {
            while matches!(self.peek(), Tok::Nl) && self.i < self.t.len() { self.i += 1; }
            if self.i >= self.t.len() { break; }
            // label?
            if let (Tok::Word(w), Some(Tok::P(':'))) = (self.peek().clone(), self.t.get(self.i + 1)) {
                if let Some(c) = cur { put(&mut blocks, c, std::mem::replace(&mut blk, Block { phis: vec![], insts: vec![] })); }
                cur = Some(self.label(&w));
                self.skip_line();
                continue;
            }
            if cur.is_none() { cur = Some(self.label("%entry")); }
            let save = self.i;
            let _ = save;
            match self.inst() { P1::I(i) => blk.insts.push(i), P1::Phi(p) => blk.phis.push(p) }
            self.skip_line();
        }
        if let Some(c) = cur { put(&mut blocks, c, blk); }
        let n = self.labels.len();
        while blocks.len() < n { blocks.push(None); }
        let blocks = blocks.into_iter().map(|b| b.unwrap_or(Block { phis: vec![], insts: vec![Inst::Unreachable] })).collect();
        Func { id, nregs: self.nregs, nparams: np, frame: self.frame, blocks, ret }
    }
    fn lanes(&self, t: TyId) -> (u32, u32) { match &self.pr.types[t as usize] { Ty::Vector(n, e) => (*n as u32, self.pr.bits(*e)), _ => (0, self.pr.bits(t)) } }
    fn inst(&mut self) -> P1 {
        let mut dst = None;
        if let Tok::Loc(n) = self.peek().clone() { self.i += 1; self.exp_p('='); dst = Some(self.reg(&n)); }
        let op = match self.bump() { Tok::Word(w) => w, _ => { self.i -= 1; self.err("opcode") } };
        let d = dst.unwrap_or(0);
        P1::I(match op.as_str() {
            "alloca" => {
                let t = self.ty();
                let mut al = 16u64; let mut n: Option<Opd> = None;
                while self.eat_p(',') {
                    if self.eat_w("align") { al = self.int() as u64; } else { let (_, o) = self.tyopd(); n = Some(o); }
                }
                let s = self.pr.size(t);
                match n {
                    Some(Opd::K(Val::C(k))) => { self.frame = (self.frame + al - 1) / al * al; let off = self.frame; self.frame += s * k as u64; Inst::Alloca { dst: d, off } }
                    Some(o) => Inst::DynAlloca { dst: d, elem: s, n: o },
                    None => { self.frame = (self.frame + al - 1) / al * al; let off = self.frame; self.frame += s; Inst::Alloca { dst: d, off } }
                }
            }
            "load" => {
                let atomic = self.eat_w("atomic"); self.eat_w("volatile");
                let ty = self.ty(); self.exp_p(','); let (_, ptr) = self.tyopd();
                Inst::Load { dst: d, ty, ptr, atomic }
            }
            "store" => {
                let atomic = self.eat_w("atomic"); self.eat_w("volatile");
                let (ty, val) = self.tyopd(); self.exp_p(','); let (_, ptr) = self.tyopd();
                Inst::Store { ty, val, ptr, atomic }
            }
            "getelementptr" => {
                while let Tok::Word(w) = self.peek().clone() { if matches!(w.as_str(), "inbounds" | "nuw" | "nusw" | "nsw") { self.i += 1; } else if w == "inrange" { self.i += 1; self.skip_parens(); } else { break; } }
                let et = self.ty(); self.exp_p(',');
                let (_, base) = self.tyopd();
                let mut off = 0i64; let mut var = vec![]; let mut cur = et; let mut first = true;
                while self.eat_p(',') {
                    let (it, o) = self.tyopd();
                    let w = self.pr.bits(it);
                    if first {
                        let s = self.pr.size(et) as i64; first = false;
                        match o { Opd::K(Val::C(v)) => off += crate::expr::sext128(v, w as u16) as i64 * s, o => var.push((o, w, s)) }
                    } else {
                        match self.pr.types[cur as usize].clone() {
                            Ty::Struct(..) => { let k = match o { Opd::K(Val::C(v)) => v as usize, _ => self.err("struct idx") }; let (fo, ft) = self.pr.field_off(cur, k); off += fo as i64; cur = ft; }
                            Ty::Array(_, e) | Ty::Vector(_, e) => { let s = self.pr.size(e) as i64; cur = e; match o { Opd::K(Val::C(v)) => off += crate::expr::sext128(v, w as u16) as i64 * s, o => var.push((o, w, s)) } }
                            _ => self.err("gep"),
                        }
                    }
                }
                Inst::Gep { dst: d, base, off, var }
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                while let Tok::Word(w) = self.peek().clone() { if matches!(w.as_str(), "nuw" | "nsw" | "exact" | "disjoint") { self.i += 1; } else { break; } }
                let t = self.ty(); let a = self.opd(t); self.exp_p(','); let b = self.opd(t);
                let (lanes, w) = self.lanes(t);
                let bop = match op.as_str() { "add" => Bin::Add, "sub" => Bin::Sub, "mul" => Bin::Mul, "udiv" => Bin::UDiv, "sdiv" => Bin::SDiv, "urem" => Bin::URem, "srem" => Bin::SRem, "and" => Bin::And, "or" => Bin::Or, "xor" => Bin::Xor, "shl" => Bin::Shl, "lshr" => Bin::LShr, _ => Bin::AShr };
                Inst::Bin { dst: d, op: bop, w, lanes, a, b }
            }
            "icmp" => {
                self.eat_w("samesign");
                let p = match self.bump() { Tok::Word(w) => match w.as_str() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => self.err("pred") }, _ => self.err("pred") };
                let t = self.ty(); let a = self.opd(t); self.exp_p(','); let b = self.opd(t);
                let (lanes, w) = self.lanes(t);
                Inst::ICmp { dst: d, p, w, lanes, a, b }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                while let Tok::Word(w) = self.peek().clone() { if matches!(w.as_str(), "nuw" | "nsw" | "nneg") { self.i += 1; } else { break; } }
                let (ft, a) = self.tyopd(); if !self.eat_w("to") { self.err("to"); } let tt = self.ty();
                let (l1, f) = self.lanes(ft); let (_l2, t) = self.lanes(tt);
                let c = match op.as_str() { "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "bitcast" => Cast::Bitcast,
                    _ => if f > t { Cast::Trunc } else if f < t { Cast::ZExt } else { Cast::Same } };
                Inst::Cast { dst: d, op: c, from: f, to: t, lanes: l1, fty: ft, tty: tt, a }
            }
            "select" => {
                let (_, c) = self.tyopd(); self.exp_p(','); let (ty, a) = self.tyopd(); self.exp_p(','); let (_, b) = self.tyopd();
                Inst::Select { dst: d, ty, c, a, b }
            }
            "extractvalue" => { let (_, a) = self.tyopd(); let mut idx = vec![]; while self.eat_p(',') { if let Tok::Int(v) = self.peek() { idx.push(*v as u32); self.i += 1; } else { break; } } Inst::Extract { dst: d, a, idx } }
            "insertvalue" => { let (_, a) = self.tyopd(); self.exp_p(','); let (_, v) = self.tyopd(); let mut idx = vec![]; while self.eat_p(',') { if let Tok::Int(v) = self.peek() { idx.push(*v as u32); self.i += 1; } else { break; } } Inst::Insert { dst: d, a, v, idx } }
            "extractelement" => { let (_, a) = self.tyopd(); self.exp_p(','); let (_, i) = self.tyopd(); Inst::ExtractElem { dst: d, a, i } }
            "insertelement" => { let (_, a) = self.tyopd(); self.exp_p(','); let (_, v) = self.tyopd(); self.exp_p(','); let (_, i) = self.tyopd(); Inst::InsertElem { dst: d, a, v, i } }
            "shufflevector" => {
                let (ta, a) = self.tyopd(); self.exp_p(','); let (_, b) = self.tyopd(); self.exp_p(',');
                let (_, m) = self.tyopd();
                let na = match self.pr.types[ta as usize] { Ty::Vector(n, _) => n as u32, _ => 0 };
                let mask = match m { Opd::K(Val::A(v)) => v.iter().map(|x| x.c().unwrap() as u32).collect(), _ => self.err("shuffle mask") };
                Inst::Shuffle { dst: d, a, b, na, mask }
            }
            "freeze" => { let (_, a) = self.tyopd(); Inst::Freeze { dst: d, a } }
            "tail" | "musttail" | "notail" => { self.eat_w("call"); self.call(dst, false) }
            "call" => self.call(dst, false),
            "invoke" => self.call(dst, true),
            "landingpad" => {
                let _t = self.ty();
                let (mut cleanup, mut catch, mut filter) = (false, false, false);
                loop {
                    let mut j = self.i; while matches!(self.t.get(j), Some(Tok::Nl)) { j += 1; }
                    match self.t.get(j) {
                        Some(Tok::Word(w)) if w == "cleanup" => { self.i = j + 1; cleanup = true; }
                        Some(Tok::Word(w)) if w == "catch" => { self.i = j + 1; self.tyopd(); catch = true; }
                        Some(Tok::Word(w)) if w == "filter" => { self.i = j + 1; let t = self.ty(); self.constant(t); filter = true; }
                        _ => break,
                    }
                }
                Inst::LandingPad { dst: d, cleanup, catch, filter }
            }
            "resume" => { let (_, v) = self.tyopd(); Inst::Resume(v) }
            "cmpxchg" => {
                self.eat_w("weak"); self.eat_w("volatile");
                let (_, ptr) = self.tyopd(); self.exp_p(','); let (t, old) = self.tyopd(); self.exp_p(','); let (_, new) = self.tyopd();
                Inst::CmpXchg { dst: d, w: self.pr.bits(t), ptr, old, new }
            }
            "atomicrmw" => {
                self.eat_w("volatile");
                let k = match self.bump() { Tok::Word(w) => w, _ => self.err("rmw") };
                let (_, ptr) = self.tyopd(); self.exp_p(','); let (t, val) = self.tyopd();
                let op = match k.as_str() { "xchg" => Rmw::Xchg, "add" => Rmw::Add, "sub" => Rmw::Sub, "and" => Rmw::And, "or" => Rmw::Or, "xor" => Rmw::Xor, "nand" => Rmw::Nand, "max" => Rmw::Max, "min" => Rmw::Min, "umax" => Rmw::UMax, "umin" => Rmw::UMin, _ => return P1::I(Inst::Unsupported(format!("atomicrmw {}", k))) };
                Inst::AtomicRmw { dst: d, op, w: self.pr.bits(t), ptr, val }
            }
            "fence" => Inst::Nop,
            "br" => {
                if self.is_w("label") { Inst::Br(self.lab()) } else { let (_, c) = self.tyopd(); self.exp_p(','); let t = self.lab(); self.exp_p(','); let f = self.lab(); Inst::CondBr { c, t, f } }
            }
            "switch" => {
                let (t, v) = self.tyopd(); self.exp_p(','); let def = self.lab(); self.exp_p('[');
                let mut cases = vec![];
                loop {
                    while matches!(self.peek(), Tok::Nl) { self.i += 1; }
                    if self.eat_p(']') { break; }
                    let ct = self.ty(); let c = match self.constant(ct) { Const::Int(v) => v, _ => self.err("case") }; self.exp_p(','); let l = self.lab();
                    cases.push((c, l));
                }
                Inst::Switch { v, w: self.pr.bits(t), def, cases }
            }
            "ret" => { let t = self.ty(); if t == self.pr.ty_void { Inst::Ret(None) } else { Inst::Ret(Some(self.opd(t))) } }
            "unreachable" => Inst::Unreachable,
            "phi" => {
                while let Tok::Word(w) = self.peek().clone() { if matches!(w.as_str(), "fast" | "nnan" | "nsz") { self.i += 1; } else { break; } }
                let t = self.ty(); let mut inc = vec![];
                loop {
                    self.exp_p('['); let o = self.opd(t); self.exp_p(','); let l = match self.bump() { Tok::Loc(n) => self.label(&n), _ => self.err("phi") }; self.exp_p(']');
                    inc.push((l, o));
                    if !self.eat_p(',') { break; }
                    if matches!(self.peek(), Tok::Meta) { break; }
                }
                return P1::Phi(Phi { dst: d, inc });
            }
            other => Inst::Unsupported(other.to_string()),
        })
    }
    fn call(&mut self, dst: Option<u32>, inv: bool) -> Inst {
        self.ret_attrs_call();
        let ret = self.ty();
        let callee = match self.bump() {
            Tok::Glob(n) => match self.pr.find_fn(self.m, &n) { Some(f) => Callee::Fn(f), None => panic!("unknown function @{}", n) },
            Tok::Loc(n) => Callee::Ptr(Opd::R(self.reg(&n))),
            Tok::Word(w) if w == "asm" => { while !self.is_p('(') { self.i += 1; } Callee::Asm }
            Tok::Word(_) => { self.i -= 1; let t = self.pr.ty_ptr; Callee::Ptr(self.opd(t)) }
            _ => { self.i -= 1; self.err("callee") }
        };
        self.exp_p('(');
        let (mut args, mut argtys) = (vec![], vec![]);
        if !self.eat_p(')') {
            loop { let (t, o) = self.tyopd(); args.push(o); argtys.push(t); if self.eat_p(')') { break; } self.exp_p(','); }
        }
        let invoke = if inv {
            while !self.is_w("to") { self.i += 1; }
            self.i += 1;
            let a = self.lab();
            if !self.eat_w("unwind") { while matches!(self.peek(), Tok::Nl) { self.i += 1; } if !self.eat_w("unwind") { self.err("unwind"); } }
            let b = self.lab();
            Some((a, b))
        } else { None };
        Inst::Call { dst, callee, args, argtys, ret, invoke }
    }
    fn ret_attrs_call(&mut self) { self.ret_attrs(); }
}
fn put(b: &mut Vec<Option<Block>>, i: u32, blk: Block) { while b.len() <= i as usize { b.push(None); } b[i as usize] = Some(blk); }
fn fp_bits(v: f64, w: u32) -> u128 { match w { 32 => (v as f32).to_bits() as u128, 64 => v.to_bits() as u128, _ => 0 } }
pub enum P1 { I(Inst), Phi(Phi) }

//! SMT back end: one z3 process over a pipe, independence slicing and a result cache.
use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;
use std::time::Instant;

pub struct Solver {
    child: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
    defined: HashSet<E>,
    cache: HashMap<Vec<E>, Option<Rc<Model>>>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cache_hits: u64,
    pub time: f64,
    pub bin: String,
    pub last_error: Option<String>,
}

fn opname(op: Op) -> &'static str {
    match op {
        Op::Add => "bvadd", Op::Sub => "bvsub", Op::Mul => "bvmul", Op::UDiv => "bvudiv", Op::SDiv => "bvsdiv",
        Op::URem => "bvurem", Op::SRem => "bvsrem", Op::And => "bvand", Op::Or => "bvor", Op::Xor => "bvxor",
        Op::Shl => "bvshl", Op::LShr => "bvlshr", Op::AShr => "bvashr", Op::Ult => "bvult", Op::Slt => "bvslt",
        Op::Ule => "bvule", Op::Sle => "bvsle", _ => unreachable!(),
    }
}

impl Solver {
    pub fn new() -> Solver {
        Solver { child: None, defined: HashSet::new(), cache: HashMap::new(), queries: 0, sat: 0, unsat: 0, cache_hits: 0, time: 0.0,
            bin: std::env::var("MSYM_Z3").unwrap_or_else(|_| "z3".into()), last_error: None }
    }
    /// Forget the process (used after fork(2): the child must not share the pipe).
    pub fn detach(&mut self) { if let Some(c) = self.child.take() { std::mem::forget(c); } self.defined.clear(); }
    pub fn reset_stats(&mut self) { self.queries = 0; self.sat = 0; self.unsat = 0; self.cache_hits = 0; self.time = 0.0; }
    fn start(&mut self) {
        if self.child.is_some() { return; }
        let mut c = Command::new(&self.bin).args(["-in", "-smt2"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("cannot start z3");
        let mut i = c.stdin.take().unwrap();
        let o = BufReader::new(c.stdout.take().unwrap());
        i.write_all(b"(set-option :global-declarations true)\n(set-option :print-success false)\n(set-option :timeout 60000)\n(set-logic QF_BV)\n").unwrap();
        self.child = Some((c, i, o));
        self.defined.clear();
    }
    fn define(&mut self, e: E, out: &mut String) {
        if self.defined.contains(&e) { return; }
        let n = pool().n(e);
        if n.op == Op::Const { return; }
        use std::fmt::Write as _;
        match n.op {
            Op::Var => { let _ = writeln!(out, "(declare-const n{} (_ BitVec {}))", e, n.w); }
            _ => {
                let kids: Vec<E> = match n.op { Op::ZExt | Op::SExt | Op::Extract => vec![n.a], Op::Ite => vec![n.a, n.b, n.c], _ => vec![n.a, n.b] };
                for k in &kids { self.define(*k, out); }
                let r = |e: E| -> String { let n = pool().n(e); if n.op == Op::Const { format!("(_ bv{} {})", n.k, n.w) } else { format!("n{}", e) } };
                let body = match n.op {
                    Op::Ite => format!("(ite (= {} #b1) {} {})", r(n.a), r(n.b), r(n.c)),
                    Op::ZExt => format!("((_ zero_extend {}) {})", n.w - pool().w(n.a), r(n.a)),
                    Op::SExt => format!("((_ sign_extend {}) {})", n.w - pool().w(n.a), r(n.a)),
                    Op::Extract => format!("((_ extract {} {}) {})", n.k as u32 + n.w as u32 - 1, n.k, r(n.a)),
                    Op::Concat => format!("(concat {} {})", r(n.a), r(n.b)),
                    Op::Eq => format!("(ite (= {} {}) #b1 #b0)", r(n.a), r(n.b)),
                    Op::Ult | Op::Ule | Op::Slt | Op::Sle => format!("(ite ({} {} {}) #b1 #b0)", opname(n.op), r(n.a), r(n.b)),
                    o => format!("({} {} {})", opname(o), r(n.a), r(n.b)),
                };
                let _ = writeln!(out, "(define-fun n{} () (_ BitVec {}) {})", e, n.w, body);
            }
        }
        self.defined.insert(e);
    }
    /// Constraints of `pc` that (transitively) share variables with `q`.
    pub fn slice(pc: &[E], q: E) -> Vec<E> {
        let p = pool();
        let mut vars: HashSet<u32> = p.vars(q).iter().copied().collect();
        let mut taken = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for (i, &c) in pc.iter().enumerate() {
                if taken[i] { continue; }
                let v = p.vars(c);
                if v.iter().any(|x| vars.contains(x)) { taken[i] = true; ch = true; vars.extend(v.iter()); }
            }
            if !ch { break; }
        }
        pc.iter().enumerate().filter(|(i, _)| taken[*i]).map(|(_, c)| *c).collect()
    }
    /// Is `pc /\ q` satisfiable? Returns a model of the relevant slice.
    /// Err = solver gave no verdict.
    pub fn check(&mut self, pc: &[E], q: E) -> Result<Option<Rc<Model>>, String> {
        if let Some(v) = pool().cval(q) { if v == 0 { return Ok(None); } }
        let mut cs = Self::slice(pc, q);
        cs.push(q);
        cs.sort_unstable(); cs.dedup();
        if let Some(r) = self.cache.get(&cs) { self.cache_hits += 1; return Ok(r.clone()); }
        let r = self.raw(&cs)?;
        self.cache.insert(cs, r.clone());
        Ok(r)
    }
    /// Full model of a set of constraints.
    pub fn raw(&mut self, cs: &[E]) -> Result<Option<Rc<Model>>, String> {
        self.start();
        let mut s = String::new();
        for &c in cs { self.define(c, &mut s); }
        s.push_str("(push)\n");
        use std::fmt::Write as _;
        let mut vars: Vec<u32> = vec![];
        for &c in cs {
            let n = pool().n(c);
            if n.op == Op::Const { let _ = writeln!(s, "(assert {})", if n.k == 1 { "true" } else { "false" }); continue; }
            let _ = writeln!(s, "(assert (= n{} #b1))", c);
            vars.extend(pool().vars(c).iter());
        }
        vars.sort_unstable(); vars.dedup();
        s.push_str("(check-sat)\n");
        let t = Instant::now();
        let (_, i, o) = self.child.as_mut().unwrap();
        i.write_all(s.as_bytes()).map_err(|e| e.to_string())?;
        i.flush().map_err(|e| e.to_string())?;
        let mut line = String::new();
        o.read_line(&mut line).map_err(|e| e.to_string())?;
        self.queries += 1;
        let res = match line.trim() {
            "unsat" => { self.unsat += 1; None }
            "sat" => {
                self.sat += 1;
                let mut m = Model::new();
                if !vars.is_empty() {
                    let q = format!("(get-value ({}))\n", vars.iter().map(|v| format!("n{}", v)).collect::<Vec<_>>().join(" "));
                    i.write_all(q.as_bytes()).map_err(|e| e.to_string())?;
                    i.flush().map_err(|e| e.to_string())?;
                    let mut txt = String::new();
                    let mut depth = 0i32; let mut seen = false;
                    while !seen || depth > 0 {
                        let mut l = String::new();
                        if o.read_line(&mut l).map_err(|e| e.to_string())? == 0 { return Err("z3 closed".into()); }
                        for ch in l.chars() { if ch == '(' { depth += 1; seen = true; } else if ch == ')' { depth -= 1; } }
                        txt.push_str(&l);
                    }
                    let toks: Vec<&str> = txt.split(|c: char| c.is_whitespace() || c == '(' || c == ')').filter(|x| !x.is_empty()).collect();
                    let mut k = 0;
                    while k + 1 < toks.len() {
                        let v: u32 = toks[k][1..].parse().map_err(|_| format!("bad model: {}", txt))?;
                        let val = toks[k + 1];
                        let x = if let Some(h) = val.strip_prefix("#x") { u128::from_str_radix(h, 16).unwrap() }
                            else if let Some(b) = val.strip_prefix("#b") { u128::from_str_radix(b, 2).unwrap() }
                            else { return Err(format!("bad model: {}", txt)); };
                        m.insert(v, x);
                        k += 2;
                    }
                }
                Some(Rc::new(m))
            }
            other => return Err(format!("z3 answered: {}", other)),
        };
        i.write_all(b"(pop)\n").map_err(|e| e.to_string())?;
        self.time += t.elapsed().as_secs_f64();
        Ok(res)
    }
}

mod exec; mod expr; mod ir; mod ll; mod mem; mod solver;
use exec::*;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::time::{Duration, Instant};

extern "C" { fn fork() -> i32; fn pipe(fds: *mut i32) -> i32; fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32; fn _exit(c: i32) -> !; fn close(fd: i32) -> i32; }

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}
/// One JSON object per process; the driver merges them.
fn dump(e: &Engine, out: &mut dyn Write) {
    let s = &e.st;
    let list = |l: &Vec<Viol>| l.iter().map(|v| format!("{{\"msg\":{},\"inputs\":[{}],\"trace\":[{}]}}", esc(&v.msg),
        v.inputs.iter().map(|(n, w, k)| format!("[{},{},\"{}\"]", esc(n), w, k)).collect::<Vec<_>>().join(","), v.trace.iter().map(|t| esc(t)).collect::<Vec<_>>().join(","))).collect::<Vec<String>>().join(",");
    let fns: Vec<String> = e.used.iter().enumerate().filter(|(_, u)| **u).map(|(i, _)| format!("[{},{}]", esc(&e.pr.fns[i].pretty), esc(&e.pr.modnames[e.pr.fns[i].module]))).collect();
    let mut errs: Vec<&String> = s.errors.iter().collect(); errs.sort(); errs.dedup(); errs.truncate(10);
    writeln!(out, "{{\"paths\":{},\"infeasible\":{},\"forks\":{},\"steps\":{},\"max_steps\":{},\"max_inputs\":{},\"branches\":{},\"checks\":{},\"checks_solver\":{},\"schedules\":{},\"abstracted_fmt\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"cache_hits\":{},\"solver_s\":{:.3},\"covers\":{{{}}},\"witnesses\":[{}],\"violations\":[{}],\"errors\":[{}],\"functions\":[{}]}}",
        s.paths, s.infeasible, s.forks, s.steps, s.max_steps, s.max_inputs, s.branches, s.checks, s.checks_solver, s.schedules, s.abstracted_fmt, e.solver.queries, e.solver.sat, e.solver.unsat, e.solver.cache_hits, e.solver.time,
        s.covers.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","), list(&s.witnesses), list(&s.viols),
        errs.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","), fns.join(",")).unwrap();
}

fn explore(e: &mut Engine) {
    while let Some(s) = e.work.pop_back() { e.run(s, false); if !e.st.errors.is_empty() { break; } }
}

/// Instructions per path after which the code counts as running on without end
fn limit(hn: &str) -> u64 {
    if hn.contains("very_far") { 4_000_000_000 } else if hn.get(5..7) == Some("d_") { 1_000_000_000 } else { 25_000_000 }
}
/// Explore one harness in this process; after `slice` the rest of the work is
/// spread over `split` processes.  Results go to files in `out`.
fn pooled(e: &mut Engine, hn: &str, out: &str, time: u64, slice: u64, split: usize) {
    e.max_steps = limit(hn);
    e.solver.detach();
    let write = |e: &Engine, n: usize| {
        let tmp = format!("{}/{}.{}.tmp", out, hn, n);
        let mut f = std::fs::File::create(&tmp).unwrap();
        dump(e, &mut f);
        drop(f);
        std::fs::rename(&tmp, format!("{}/{}.{}.json", out, hn, n)).unwrap();
    };
    e.deadline = Instant::now() + Duration::from_secs(time);
    let s = e.initial(e.pr.gfn[hn]);
    e.work.push_back(s);
    let soft = Instant::now() + Duration::from_secs(slice);
    while let Some(s) = e.work.pop_back() {
        e.run(s, false);
        if !e.st.errors.is_empty() { break; }
        if split > 1 && e.work.len() > 1 && Instant::now() > soft { break; }
    }
    let rest: Vec<State> = if e.st.errors.is_empty() { e.work.drain(..).collect() } else { vec![] };
    write(e, 0);
    let mut kids = vec![];
    for j in 0..split.min(rest.len()) {
        let pid = unsafe { fork() };
        if pid == 0 {
            e.solver.detach(); e.solver.reset_stats();
            e.st = Stats::default();
            for u in e.used.iter_mut() { *u = false; }
            e.work = rest.iter().enumerate().filter(|(i, _)| i % split == j).map(|(_, s)| s.clone()).collect();
            explore(e);
            write(e, j + 1);
            unsafe { _exit(0) }
        }
        kids.push(pid);
    }
    let mut bad = 0;
    for k in kids { let mut st = 0; unsafe { waitpid(k, &mut st, 0); } if st != 0 { bad += 1; } }
    unsafe { _exit(if bad > 0 { 5 } else { 0 }) }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let (mut pool, mut out, mut slice, mut total) = (0usize, String::from("."), 20u64, 86400u64);
    let (mut files, mut harness, mut jobs, mut time, mut fixed, mut list, mut verbose, mut split) = (vec![], vec![], 1usize, 600u64, None, false, false, 0usize);
    let mut i = 0;
    while i < args.len() {
        match args[i].as_str() {
            "--harness" => { i += 1; harness.push(args[i].clone()); }
            "--jobs" => { i += 1; jobs = args[i].parse().unwrap(); }
            "--time" => { i += 1; time = args[i].parse().unwrap(); }
            "--split" => { i += 1; split = args[i].parse().unwrap(); }
            "--inputs" => { i += 1; fixed = Some(args[i].split(',').filter(|x| !x.is_empty()).map(|x| x.parse::<u128>().unwrap()).collect::<Vec<_>>()); }
            "--pool" => { i += 1; pool = args[i].parse().unwrap(); }
            "--out" => { i += 1; out = args[i].clone(); }
            "--total" => { i += 1; total = args[i].parse().unwrap(); }
            "--slice" => { i += 1; slice = args[i].parse().unwrap(); }
            "--list" => list = true,
            "-v" => verbose = true,
            f => files.push(f.to_string()),
        }
        i += 1;
    }
    // a large stack for the recursive expression walkers
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
        let mut pr = ll::Program::new();
        for f in &files { pr.load_file(f); }
        if list { let mut v: Vec<_> = pr.gfn.keys().filter(|k| k.starts_with("h_")).collect(); v.sort(); for k in v { println!("{}", k); } return; }
        for hn in &harness {
            let f = *pr.gfn.get(hn).unwrap_or_else(|| { eprintln!("no harness {}", hn); std::process::exit(3) });
            let _ = f;
        }
        let mut e = Engine::new(pr);
        e.fixed = fixed; e.verbose = verbose;
        if pool > 0 {
            let t0 = Instant::now();
            let mut running: Vec<(i32, String)> = vec![];
            let mut todo = harness.iter();
            let mut left = true;
            while left || !running.is_empty() {
                if left && running.len() < pool {
                    match todo.next() {
                        None => left = false,
                        Some(hn) => {
                            let pid = unsafe { fork() };
                            if pid == 0 { let left = (t0 + Duration::from_secs(total)).saturating_duration_since(Instant::now()).as_secs(); pooled(&mut e, hn, &out, time.min(left), slice, split); }
                            running.push((pid, hn.clone()));
                        }
                    }
                    continue;
                }
                let mut st = 0;
                let pid = unsafe { waitpid(-1, &mut st, 0) };
                if let Some(k) = running.iter().position(|r| r.0 == pid) {
                    let (_, hn) = running.swap_remove(k);
                    if st != 0 { std::fs::write(format!("{}/{}.died.json", out, hn), "{\"errors\":[\"worker died\"]}\n").unwrap(); }
                }
            }
            eprintln!("{} harnesses in {:.1} s", harness.len(), t0.elapsed().as_secs_f64());
            return;
        }
        let hn = &harness[0];
        e.max_steps = limit(hn);
        let f = e.pr.gfn[hn];
        e.deadline = Instant::now() + Duration::from_secs(time);
        let s = e.initial(f);
        if jobs <= 1 { e.work.push_back(s); explore(&mut e); dump(&e, &mut std::io::stdout()); return; }
        // breadth-first prefix, then one process per job over a partition of the frontier
        e.work.push_back(s);
        let target = if split > 0 { split } else { jobs * 24 };
        while e.work.len() < target {
            let s = match e.work.pop_front() { Some(s) => s, None => break };
            if let Some(s) = e.run(s, true) { e.work.push_back(s); }
        }
        dump(&e, &mut std::io::stdout());
        if e.work.is_empty() { return; }
        std::io::stdout().flush().unwrap();
        let all: Vec<State> = e.work.drain(..).collect();
        let mut kids = vec![];
        for j in 0..jobs {
            let mut fds = [0i32; 2];
            unsafe { pipe(fds.as_mut_ptr()); }
            let pid = unsafe { fork() };
            if pid == 0 {
                unsafe { close(fds[0]); }
                e.solver.detach(); e.solver.reset_stats();
                e.st = Stats::default();
                for u in e.used.iter_mut() { *u = false; }
                e.work = all.iter().enumerate().filter(|(i, _)| i % jobs == j).map(|(_, s)| s.clone()).collect();
                explore(&mut e);
                let mut o = unsafe { std::fs::File::from_raw_fd(fds[1]) };
                dump(&e, &mut o);
                drop(o);
                unsafe { _exit(0) }
            }
            unsafe { close(fds[1]); }
            kids.push((pid, fds[0]));
        }
        let mut bad = 0;
        for (pid, fd) in kids {
            let mut b = String::new();
            let mut r = unsafe { std::fs::File::from_raw_fd(fd) };
            let _ = r.read_to_string(&mut b);
            let mut st = 0; unsafe { waitpid(pid, &mut st, 0); }
            if st != 0 || b.is_empty() { bad += 1; }
            print!("{}", b);
        }
        if bad > 0 { println!("{{\"errors\":[\"{} worker(s) died\"]}}", bad); }
    }).unwrap();
    if h.join().is_err() { std::process::exit(4); }
}

mod exec;
mod expr;
mod ir;
mod llvm;
mod mem;
mod models;
mod solver;
use std::collections::HashMap;
use std::io::Write;
use std::rc::Rc;
use std::sync::atomic::{AtomicI32, AtomicU32, AtomicU8, Ordering::SeqCst};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn getpid() -> i32;
}
#[repr(C)]
struct Shared { active: AtomicI32, next: AtomicU32, stop: [AtomicU8; 65536] }

struct Job { func: String, args: Vec<u64>, quiet: bool }

fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            c if (c as u32) < 0x20 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

fn record(x: &mut exec::Exec, job: usize, wall: f64, out: &str, target: &[u32]) {
    let s = &x.st;
    let mut f = std::fs::OpenOptions::new().append(true).create(true).open(format!("{}/res.{}", out, unsafe { getpid() })).unwrap();
    let viols: Vec<String> = x.viols.iter().map(|v| format!(
        "{{\"kind\":{},\"detail\":{},\"draws\":{},\"stack\":{},\"trace\":{}}}", js(&v.kind), js(&v.detail), js(&v.draws), js(&v.stack), js(&v.trace))).collect();
    let samples: Vec<String> = x.samples.iter().map(|(d, t)| format!("[{},{}]", js(d), js(t))).collect();
    let reach: Vec<String> = x.reach.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    let unsup: Vec<String> = x.unsup.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    let cov: Vec<String> = target.iter().filter(|&&i| x.cov[i as usize].iter().any(|b| *b)).map(|&i| {
        let b: String = x.cov[i as usize].iter().map(|b| if *b { '1' } else { '0' }).collect();
        format!("{}:{}", js(&x.prog.funcs[i as usize].dem), js(&b))
    }).collect();
    let nf = x.cov.iter().filter(|c| c.iter().any(|b| *b)).count();
    let line = format!(
        "{{\"job\":{},\"wall\":{:.3},\"paths\":{},\"assumed\":{},\"viols\":{},\"unsupported\":{},\"unknown\":{},\"limit\":{},\"dropped\":{},\"steps\":{},\"forks\":{},\"branches\":{},\"checks\":{},\"checks_z3\":{},\"domq\":{},\"ivalq\":{},\"guessq\":{},\"auditq\":{},\"audit_bad\":{},\"depth\":{},\"maxpathsteps\":{},\"z3\":{{\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"time\":{:.3},\"max\":{:.3}}},\"nodes\":{},\"funcs\":{},\"violations\":[{}],\"samples\":[{}],\"reach\":{{{}}},\"unsup\":{{{}}},\"cov\":{{{}}}}}\n",
        job, wall, s.paths, s.assumed, s.viols, s.unsupported, s.unknown, s.limit, s.dropped, s.steps, s.forks, s.branches_sym, s.checks, s.checks_z3,
        s.domq, s.ivalq, s.guessq, s.auditq, s.audit_bad, s.max_depth, s.maxpathsteps,
        x.sol.queries, x.sol.sat, x.sol.unsat, x.sol.unknown, x.sol.cached, x.sol.time, x.sol.max_time,
        x.a.nodes.len(), nf, viols.join(","), samples.join(","), reach.join(","), unsup.join(","), cov.join(","));
    f.write_all(line.as_bytes()).unwrap();
}

fn reset(x: &mut exec::Exec) {
    x.st = Default::default();
    x.viols.clear();
    x.samples.clear();
    x.reach.clear();
    x.unsup.clear();
    x.sample_rate = 1;
    for c in &mut x.cov { for b in c.iter_mut() { *b = false; } }
    let z = &mut x.sol;
    z.queries = 0; z.sat = 0; z.unsat = 0; z.unknown = 0; z.cached = 0; z.time = 0.0; z.max_time = 0.0;
}

fn main() {
    let argv: Vec<String> = std::env::args().collect();
    let mut opt: HashMap<String, String> = HashMap::new();
    let mut i = 1;
    while i < argv.len() {
        if let Some(k) = argv[i].strip_prefix("--") {
            let v = if i + 1 < argv.len() && !argv[i + 1].starts_with("--") { i += 1; argv[i].clone() } else { "1".into() };
            opt.insert(k.into(), v);
        }
        i += 1;
    }
    if opt.contains_key("version") { println!("mvdsym {} z3 {}", env!("CARGO_PKG_VERSION"), solver::version()); return; }
    let out = opt.get("out").cloned().unwrap_or("/tmp/mvdsym-out".into());
    std::fs::create_dir_all(&out).unwrap();
    let procs: i32 = opt.get("procs").map(|s| s.parse().unwrap()).unwrap_or(8);
    let time: f64 = opt.get("time").map(|s| s.parse().unwrap()).unwrap_or(3600.0);
    let log = opt.contains_key("log");
    // jobs: one per line, "func arg arg"; "~func ..." ignores failed assertions
    let mut jobs = vec![];
    if let Some(j) = opt.get("jobs") {
        for l in std::fs::read_to_string(j).unwrap().lines() {
            let p: Vec<&str> = l.split_whitespace().collect();
            if p.is_empty() { continue; }
            jobs.push(Job { func: p[0].trim_start_matches('~').into(), quiet: p[0].starts_with('~'), args: p[1..].iter().map(|x| x.parse().unwrap()).collect() });
        }
    }
    let mut roots: Vec<String> = jobs.iter().map(|j| j.func.clone()).collect();
    roots.sort();
    roots.dedup();
    let prog = Rc::new(ir::load(&opt["bc"], &ir::LoadOpts {
        roots, dump: opt.get("dump").cloned(),
        passes: opt.get("passes").cloned().unwrap_or("default<O1>".into()),
    }));
    let target: Vec<u32> = (0..prog.funcs.len() as u32).filter(|&i| {
        let f = &prog.funcs[i as usize];
        !f.blocks.is_empty() && ir::is_target_fn(&f.name, &f.dem)
    }).collect();
    {
        let tf: Vec<String> = target.iter().map(|&i| format!("{}:[{},{}]", js(&prog.funcs[i as usize].dem), prog.funcs[i as usize].blocks.len(), prog.funcs[i as usize].ninst)).collect();
        let ni: usize = prog.funcs.iter().map(|f| f.ninst).sum();
        std::fs::write(format!("{}/program.json", out), format!(
            "{{\"load_s\":{:.2},\"functions\":{},\"instructions\":{},\"globals\":{},\"z3\":{},\"target\":{{{}}}}}",
            prog.load_s, prog.funcs.iter().filter(|f| !f.blocks.is_empty()).count(), ni, prog.globals.len(), js(&solver::version()), tf.join(","))).unwrap();
    }
    if log { eprintln!("loaded in {:.2}s: {} functions", prog.load_s, prog.funcs.len()); }
    for j in &jobs { if !prog.by_name.contains_key(&j.func) { eprintln!("no such harness: {}", j.func); std::process::exit(3); } }
    let sh: &'static Shared = unsafe {
        let p = mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, 0x21, -1, 0);
        &*(p as *const Shared)
    };
    let deadline = Instant::now() + Duration::from_secs_f64(time);
    let file = opt.get("file").map(|f| std::fs::read(f).unwrap()).unwrap_or_default();
    let maxviol: usize = opt.get("maxviol").map(|s| s.parse().unwrap()).unwrap_or(1);
    unsafe { prctl(36, 1, 0, 0, 0); } // PR_SET_CHILD_SUBREAPER
    let nstart = procs.min(jobs.len() as i32).max(1);
    sh.active.store(nstart, SeqCst);
    let mut child = false;
    for _ in 0..nstart { if unsafe { fork() } == 0 { child = true; break; } }
    if child {
        unsafe { prctl(1, 9, 0, 0, 0); }
        let mut x = exec::Exec::new(prog.clone());
        x.deadline = deadline;
        x.file = file;
        x.log = log;
        if let Some(s) = opt.get("steps") { x.step_limit = s.parse().unwrap(); }
        if let Some(s) = opt.get("samples") { x.max_samples = s.parse().unwrap(); }
        let mut forced: Option<usize> = None; // job inherited from a donor
        loop {
            let j = match forced { Some(j) => j, None => sh.next.fetch_add(1, SeqCst) as usize };
            if j >= jobs.len() { break; }
            x.quiet = jobs[j].quiet;
            if forced.is_none() {
                reset(&mut x);
                if x.a.nodes.len() > 3_000_000 {
                    let (d, f, s, m) = (x.deadline, std::mem::take(&mut x.file), x.step_limit, x.max_samples);
                    x = exec::Exec::new(prog.clone());
                    x.deadline = d; x.file = f; x.step_limit = s; x.max_samples = m; x.log = log; x.quiet = jobs[j].quiet;
                }
                let st = x.initial(&jobs[j].func, &jobs[j].args).unwrap();
                x.pending.push(st);
            }
            if !opt.contains_key("steps") { // 3 to 7 times what the longest path takes
                let f = &jobs[j].func;
                x.step_limit = if ["_scale", "_many", "_large"].iter().any(|w| f.ends_with(w)) { 200_000_000 } else { 40_000_000 };
            }
            let mut t0 = Instant::now();
            let mut last_fork = Instant::now();
            let mut donated = false;
            while let Some(mut s) = x.pending.pop() {
                if x.expired || sh.stop[j].load(SeqCst) as usize >= maxviol { x.st.dropped += 1 + x.pending.len() as u64; x.pending.clear(); break; }
                let e = x.run(&mut s);
                if let exec::End::Viol(..) = e { sh.stop[j].fetch_add(1, SeqCst); if log { eprintln!("VIOL job {} {:?}", j, e); } }
                if let exec::End::Unsupported(w) = &e { if log { eprintln!("UNSUP {} @ {}", w, x.stack_str(&s)); } }
                x.finish(s, e);
                if x.pending.len() >= 2 && sh.active.load(SeqCst) < procs && sh.next.load(SeqCst) as usize >= jobs.len() && last_fork.elapsed() > Duration::from_millis(20) {
                    let a = sh.active.fetch_add(1, SeqCst);
                    if a >= procs { sh.active.fetch_sub(1, SeqCst); } else {
                        last_fork = Instant::now();
                        let all = std::mem::take(&mut x.pending);
                        let r = unsafe { fork() };
                        if r < 0 { sh.active.fetch_sub(1, SeqCst); x.pending = all; }
                        else {
                            let mine = if r == 0 { 0 } else { 1 };
                            x.pending = all.into_iter().enumerate().filter(|(i, _)| i % 2 == mine).map(|(_, s)| s).collect();
                            if r == 0 {
                                reset(&mut x);
                                x.sol.reset_for_child();
                                t0 = Instant::now();
                                donated = true;
                                x.max_samples = (x.max_samples / 2).max(2);
                            }
                        }
                    }
                }
            }
            let _ = donated;
            record(&mut x, j, t0.elapsed().as_secs_f64(), &out, &target);
            forced = None;
        }
        sh.active.fetch_sub(1, SeqCst);
        std::process::exit(0);
    }
    let mut bad = 0;
    loop {
        let mut st = 0;
        let p = unsafe { waitpid(-1, &mut st, 0) };
        if p < 0 { break; }
        if st != 0 { bad += 1; eprintln!("worker {} ended with status {:x}", p, st); }
    }
    if bad > 0 { std::process::exit(4); }
}

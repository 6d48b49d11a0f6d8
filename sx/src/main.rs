mod expr;
mod ir;
mod mem;
mod exec;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn pipe(p: *mut i32) -> i32;
    fn close(fd: i32) -> i32;
    fn read(fd: i32, b: *mut u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
    fn signal(s: i32, h: usize) -> usize;
    fn poll(p: *mut PollFd, n: u64, t: i32) -> i32;
    fn kill(p: i32, s: i32) -> i32;
    fn setpgid(a: i32, b: i32) -> i32;
    fn getpid() -> i32;
}
#[repr(C)]
struct PollFd { fd: i32, ev: i16, rev: i16 }

#[repr(C)]
struct Shared { active: AtomicI64, started: AtomicI64, finished: AtomicI64, stop: AtomicI64, splits: AtomicI64 }

static mut SHARED: *const Shared = std::ptr::null();
static mut DIR: String = String::new();
static mut DEADLINE: Option<Instant> = None;
static mut WORKERS: i64 = 8;
static mut ID: i64 = 0;
static mut IS_ROOT: bool = true;

fn sh() -> &'static Shared { unsafe { &*SHARED } }

#[allow(static_mut_refs)]
fn hook(e: &mut Engine) {
    unsafe {
        if sh().stop.load(SeqCst) != 0 { e.rep.incomplete = true; return; }
        if let Some(d) = DEADLINE { if Instant::now() > d { e.rep.incomplete = true; e.rep.errors.push("time limit reached".into()); sh().stop.store(1, SeqCst); return; } }
        if e.stop_first && !e.rep.violations.is_empty() { sh().stop.store(2, SeqCst); return; }
        if e.pending.is_empty() || e.last_split.elapsed() < Duration::from_millis(15) { return; }
        if sh().active.load(SeqCst) >= WORKERS { return; }
        if sh().active.fetch_add(1, SeqCst) >= WORKERS { sh().active.fetch_sub(1, SeqCst); return; }
        e.last_split = Instant::now();
        let id = sh().started.fetch_add(1, SeqCst);
        sh().splits.fetch_add(1, SeqCst);
        let half = (e.pending.len() + 1) / 2;
        let p = fork();
        if p < 0 { sh().active.fetch_sub(1, SeqCst); sh().started.fetch_sub(1, SeqCst); return; }
        if p == 0 {
            IS_ROOT = false;
            ID = id;
            let keep: Vec<_> = e.pending.drain(..half).collect();
            e.pending = keep;
            e.rep = Report::default();
            e.cx.stats = Default::default();
            for v in e.seen.iter_mut() { for b in v.iter_mut() { *b = false; } }
            e.last_split = Instant::now();
            let s = e.pending.pop().unwrap();
            e.explore(s);
            finish(e);
            _exit(0);
        }
        e.pending.drain(..half);
    }
}

fn esc(s: &str) -> String { let mut o = String::new(); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o }

#[allow(static_mut_refs)]
fn finish(e: &mut Engine) {
    unsafe {
        let mut o = String::new();
        let r = &e.rep;
        let s = &e.cx.stats;
        o.push_str(&format!("S {} {} {} {} {} {} {} {} {} {} {} {} {} {} {}\n", r.paths, r.pruned, r.steps, r.forks, r.max_steps, s.queries, s.sat, s.unsat, s.cache_hits, s.model_hits, s.ns, r.nsyms, r.checks, r.sym_checks, r.incomplete as u8));
        for (c, n) in &r.covers { o.push_str(&format!("C {} {}\n", n, c)); }
        for c in &r.expects { o.push_str(&format!("X {}\n", c)); }
        for c in &r.errors { o.push_str(&format!("E {}\n", c.replace('\n', " "))); }
        for (v, k) in r.violations.iter().map(|v| (v, 'V')).chain(r.samples.iter().map(|v| (v, 'P'))) {
            o.push_str(&format!("{} {}\n", k, v.msg.replace('\n', " ")));
            for (t, w, x) in &v.values { o.push_str(&format!("v {} {} {}\n", x, w, t)); }
            for t in &v.trace { o.push_str(&format!("t {}\n", t)); }
            for t in &v.notes { o.push_str(&format!("n {}\n", t.replace('\n', " "))); }
        }
        for (f, b) in e.seen.iter().enumerate() { if b.iter().any(|x| *x) { o.push_str(&format!("B {}", f)); for (i, x) in b.iter().enumerate() { if *x { o.push_str(&format!(" {}", i)); } } o.push('\n'); } }
        o.push_str("END\n");
        let _ = std::fs::File::create(format!("{}/{}.rec", DIR, ID)).and_then(|mut f| f.write_all(o.as_bytes()));
        sh().active.fetch_sub(1, SeqCst);
        sh().finished.fetch_add(1, SeqCst);
    }
}

#[allow(static_mut_refs)]
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut ll = String::new(); let mut entry = String::new(); let mut json = String::new();
    let mut secs = 600u64; let mut workers = 8i64; let mut steps = 50_000_000u64; let mut z3ms = 60_000u32; let mut all = false; let mut trace = false; let mut prof = false; let mut src = "/repo/src/".to_string();
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--ll" => { i += 1; ll = args[i].clone(); }
            "--entry" => { i += 1; entry = args[i].clone(); }
            "--json" => { i += 1; json = args[i].clone(); }
            "--secs" => { i += 1; secs = args[i].parse().unwrap(); }
            "--workers" => { i += 1; workers = args[i].parse().unwrap(); }
            "--steps" => { i += 1; steps = args[i].parse().unwrap(); }
            "--z3ms" => { i += 1; z3ms = args[i].parse().unwrap(); }
            "--src" => { i += 1; src = args[i].clone(); }
            "--all" => all = true,
            "--trace" => trace = true,
            "--prof" => prof = true,
            a => { eprintln!("unknown argument {}", a); std::process::exit(2) }
        }
        i += 1;
    }
    let t0 = Instant::now();
    let text: &'static [u8] = Box::leak(std::fs::read(&ll).expect("ll file").into_boxed_slice());
    let m = ir::Module::load(text);
    unsafe {
        SHARED = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const Shared;
        DIR = format!("{}/sx.{}.{}", std::env::temp_dir().display(), getpid(), entry);
        std::fs::create_dir_all(&DIR).unwrap();
        DEADLINE = Some(t0 + Duration::from_secs(secs));
        WORKERS = workers;
        setpgid(0, 0);
        signal(17, 1); // SIGCHLD ignored: children are reaped by the kernel
        let mut fds = [0i32; 2];
        pipe(fds.as_mut_ptr());
        sh().active.store(1, SeqCst);
        sh().started.store(1, SeqCst);
        let p = if prof || trace { 0 } else { fork() };
        if p == 0 {
            if !(prof || trace) { close(fds[0]); }
            let mut e = Engine::new(m, z3ms);
            e.step_limit = steps; e.stop_first = !all; e.trace = trace;
            if prof { e.prof = Some(Default::default()); WORKERS = 1; }
            e.hook = Some(hook);
            match e.initial(&entry) { Ok(s) => e.explore(s), Err(x) => e.rep.errors.push(x) }
            if let Some(p) = &e.prof { let mut v: Vec<_> = p.iter().collect(); v.sort_by_key(|x| std::cmp::Reverse(*x.1)); for (n, c) in v.iter().take(40) { eprintln!("{:8} {}", c, short(n)); } }
            finish(&mut e);
            if !(prof || trace) { _exit(0); }
        }
        close(fds[1]);
        if !(prof || trace) {
            let end = t0 + Duration::from_secs(secs + 30);
            loop {
                let mut pf = PollFd { fd: fds[0], ev: 1, rev: 0 };
                poll(&mut pf, 1, 500);
                if pf.rev != 0 { let mut b = [0u8]; if read(fds[0], b.as_mut_ptr(), 1) <= 0 { break; } }
                if Instant::now() > end { signal(15, 1); kill(0, 15); break; }
            }
        }
        // collect
        let m = ir::Module::load(text);
        let mut tot = [0u64; 15];
        let mut covers: BTreeMap<String, u64> = BTreeMap::new(); let mut expects = BTreeSet::new(); let mut errors: Vec<String> = vec![];
        let mut viol: Vec<(String, Vec<(String, String, String)>, Vec<String>, Vec<String>)> = vec![];
        let mut blocks: BTreeMap<u32, BTreeSet<u32>> = BTreeMap::new();
        let mut ends = 0;
        for f in std::fs::read_dir(&DIR).unwrap() {
            let t = std::fs::read_to_string(f.unwrap().path()).unwrap_or_default();
            for l in t.lines() {
                let (k, r) = l.split_at(l.len().min(2));
                match k.trim() {
                    "S" => for (j, x) in r.split(' ').enumerate() { let v: u64 = x.parse().unwrap(); if j == 4 || j == 11 { tot[j] = tot[j].max(v) } else { tot[j] += v } },
                    "C" => { let (n, c) = r.split_once(' ').unwrap(); *covers.entry(c.to_string()).or_default() += n.parse::<u64>().unwrap(); }
                    "X" => { expects.insert(r.to_string()); }
                    "E" if l != "END" => errors.push(r.to_string()),
                    "P" => { viol.push((r.to_string(), vec![], vec![], vec!["\u{1}sample".to_string()])); }
                    "V" => viol.push((r.to_string(), vec![], vec![], vec![])),
                    "v" => { let mut p = r.splitn(3, ' '); let (a, b, c) = (p.next().unwrap(), p.next().unwrap(), p.next().unwrap_or("")); viol.last_mut().unwrap().1.push((a.into(), b.into(), c.into())); }
                    "t" => viol.last_mut().unwrap().2.push(r.to_string()),
                    "n" => viol.last_mut().unwrap().3.push(r.to_string()),
                    "B" => { let mut p = r.split(' '); let f: u32 = p.next().unwrap().parse().unwrap(); blocks.entry(f).or_default().extend(p.map(|x| x.parse::<u32>().unwrap())); }
                    _ => {}
                }
                if l == "END" { ends += 1; }
            }
        }
        let _ = std::fs::remove_dir_all(&DIR);
        let (samples, viol): (Vec<_>, Vec<_>) = viol.into_iter().partition(|v| v.3.first().map_or(false, |n| n == "\u{1}sample"));
        if ends != sh().started.load(SeqCst) { errors.push(format!("{} of {} worker processes did not report", sh().started.load(SeqCst) - ends, sh().started.load(SeqCst))); }
        // functions and lines of the code under test that were executed
        let mut m = m;
        let mut fns: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
        for (f, bs) in &blocks {
            let fun = m.func(*f);
            for b in bs {
                for d in &fun.blocks[*b as usize].dbg {
                    let mut d = *d;
                    while d != 0 {
                        if let Some((file, line, name)) = m.loc(d) { if let Some(s) = file.strip_prefix(src.as_str()) { fns.entry(format!("{}: {}", s, name)).or_default().insert(line); } }
                        d = m.inlined(d).unwrap_or(0);
                    }
                }
            }
        }
        let missing: Vec<String> = expects.iter().filter(|x: &&String| !covers.contains_key(*x)).cloned().collect();
        let complete = errors.is_empty() && (viol.is_empty() || all) && sh().stop.load(SeqCst) != 1;
        let mut o = String::new();
        o.push_str(&format!("{{\"entry\":\"{}\",\"complete\":{},\"paths\":{},\"pruned\":{},\"instructions\":{},\"forks\":{},\"longest_path\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"cache_hits\":{},\"model_hits\":{},\"solver_seconds\":{:.3},\"max_symbols\":{},\"assertions\":{},\"symbolic_assertions\":{},\"processes\":{},\"seconds\":{:.2},\"z3\":\"{}\",\n",
            entry, complete, tot[0], tot[1], tot[2], tot[3], tot[4], tot[5], tot[6], tot[7], tot[8], tot[9], tot[10] as f64 / 1e9, tot[11], tot[12], tot[13], ends, t0.elapsed().as_secs_f64(), esc(&expr::z3_version())));
        o.push_str(&format!("\"covers\":{{{}}},\n", covers.iter().map(|(c, n)| format!("\"{}\":{}", esc(c), n)).collect::<Vec<_>>().join(",")));
        o.push_str(&format!("\"missing_covers\":[{}],\n", missing.iter().map(|c| format!("\"{}\"", esc(c))).collect::<Vec<_>>().join(",")));
        o.push_str(&format!("\"errors\":[{}],\n", errors.iter().take(5).map(|c| format!("\"{}\"", esc(c))).collect::<Vec<_>>().join(",")));
        o.push_str("\"violations\":[");
        for (k, (msg, vals, tr, notes)) in viol.iter().enumerate() {
            if k > 0 { o.push(','); }
            o.push_str(&format!("{{\"message\":\"{}\",\"values\":[{}],\"tags\":[{}],\"trace\":[{}],\"notes\":[{}]}}", esc(msg), vals.iter().map(|v| v.0.clone()).collect::<Vec<_>>().join(","), vals.iter().map(|v| format!("\"{}\"", esc(&v.2))).collect::<Vec<_>>().join(","),
                tr.iter().map(|t| format!("\"{}\"", esc(t))).collect::<Vec<_>>().join(","), notes.iter().map(|t| format!("\"{}\"", esc(t))).collect::<Vec<_>>().join(",")));
        }
        o.push_str("],\n\"samples\":[");
        let step = (samples.len() / 40).max(1);
        for (k, (msg, vals, _, _)) in samples.iter().step_by(step).enumerate() {
            if k > 0 { o.push(','); }
            o.push_str(&format!("{{\"covers\":\"{}\",\"values\":[{}],\"tags\":[{}]}}", esc(msg), vals.iter().map(|v| v.0.clone()).collect::<Vec<_>>().join(","), vals.iter().map(|v| format!("\"{}\"", esc(&v.2))).collect::<Vec<_>>().join(",")));
        }
        o.push_str("],\n\"functions\":{");
        o.push_str(&fns.iter().map(|(n, l)| format!("\"{}\":{}", esc(n), l.len())).collect::<Vec<_>>().join(","));
        o.push_str("}}\n");
        if json.is_empty() { print!("{}", o); } else { std::fs::write(&json, &o).unwrap(); }
        std::process::exit(if !viol.is_empty() { 1 } else if !complete || !missing.is_empty() { 2 } else { 0 });
    }
}

mod exec; mod ext; mod ir; mod mem; mod term; mod z3;
use exec::*;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn getpid() -> i32;
    fn _exit(c: i32) -> !;
}

#[repr(C)]
struct Shared { active: AtomicI64, stop: AtomicI64, viols: AtomicI64, paths: AtomicI64, seq: AtomicI64 }

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"'); o
}
fn kv(v: &[(String, Vec<u8>)]) -> String { format!("[{}]", v.iter().map(|(n, b)| format!("[{},{}]", js(n), js(&hex(b)))).collect::<Vec<_>>().join(",")) }
fn strs(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")) }

fn dump(ex: &mut Ex, out: &str, seq: i64) {
    let mut s = String::new();
    let c = &ex.cnt; let z = &ex.z.stats;
    let _ = write!(s, "{{\"paths\":{},\"infeasible\":{},\"assumes_killed\":{},\"steps\":{},\"maxsteps\":{},\"forks\":{},\"asserts_sym\":{},\"asserts_const\":{},\"path_confirm\":{},\"domain\":{},\"concretize\":{},\"symloads\":{},\"switches\":{},\"fmt_stubs\":{},",
        c.paths, c.infeasible, c.assumes_killed, c.steps, c.maxsteps, c.forks, c.asserts_sym, c.asserts_const, c.path_confirm, z.domain, c.concretize, c.symloads, c.switches, c.fmt_stubs);
    let _ = write!(s, "\"queries\":{},\"cached\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"retried\":{},\"solver_ns\":{},\"terms\":{},", z.queries, z.cached, z.sat, z.unsat, z.unknown, z.retried, z.ns, term::tm().nodes.len());
    let _ = write!(s, "\"incomplete\":{},", strs(&ex.incomplete));
    let _ = write!(s, "\"inc_inputs\":[{}],", ex.inc_inputs.iter().map(|v| kv(v)).collect::<Vec<_>>().join(","));
    let _ = write!(s, "\"reach\":{{{}}},", ex.reach.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let used: Vec<String> = ex.used.iter().map(|i| ex.m.fns[*i as usize].name.clone()).collect();
    let _ = write!(s, "\"used\":{},", strs(&used));
    let _ = write!(s, "\"viols\":[{}],", ex.viols.iter().map(|v| format!("{{\"msg\":{},\"inputs\":{},\"trace\":{},\"sched\":{}}}", js(&v.msg), kv(&v.inputs), strs(&v.trace), js(&hex(&v.sched)))).collect::<Vec<_>>().join(","));
    let _ = write!(s, "\"samples\":[{}]}}", ex.paths.iter().map(|p| format!("{{\"inputs\":{},\"log\":{},\"reach\":{},\"steps\":{},\"sched\":{}}}", kv(&p.inputs), kv(&p.log), strs(&p.reach), p.steps, js(&hex(&p.sched)))).collect::<Vec<_>>().join(","));
    std::fs::write(format!("{}/part.{}.json", out, seq), s).unwrap();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| -> String { args.iter().position(|a| a == k).map(|i| args[i + 1].clone()).unwrap_or(d.to_string()) };
    let ll = get("--ll", ""); let entry = get("--entry", "sym_main"); let out = get("--out", "/tmp/figsym-out");
    let jobs: i64 = get("--jobs", "8").parse().unwrap(); let limit: f64 = get("--time", "600").parse().unwrap();
    let keep: usize = get("--keep", "8").parse().unwrap(); let rlimit: u32 = get("--rlimit", "400000").parse().unwrap();
    let maxv: i64 = get("--max-viols", "8").parse().unwrap();
    let seed: u64 = get("--seed", "1").parse().unwrap();
    let t0 = Instant::now();
    std::fs::create_dir_all(&out).unwrap();
    let m = ir::Module::load(&ll);
    if let Some(i) = args.iter().position(|a| a == "--parse-all") { let _ = i; let mut m = m; let n = m.fns.len(); let mut c = 0; for f in 0..n { if m.func(f as u32).is_some() { c += 1; } } for g in 0..m.globals.len() { if m.globals[g].range.is_some() { m.global_init(g as u32); } } println!("parsed {} functions, {} globals in {:?}", c, m.globals.len(), t0.elapsed()); return; }
    let mut ex = Ex::new(m, rlimit);
    ex.keep_paths = keep; ex.rng ^= seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    ex.stub_fmt = args.iter().any(|a| a == "--stub-fmt");
    ex.max_switches = get("--switches", "3").parse().unwrap();
    ex.pins = args.iter().enumerate().filter(|(_, a)| *a == "--pin").map(|(i, _)| { let (n, v) = args[i + 1].split_once('=').unwrap(); (n.to_string(), v.parse().unwrap()) }).collect();
    ex.path_limit = get("--path-limit", "30000000").parse().unwrap();
    ex.conc_limit = get("--conc-limit", "4096").parse().unwrap();
    let d = get("--dump", ""); if !d.is_empty() { std::fs::create_dir_all(&d).unwrap(); ex.z.dump = Some((d, get("--dump-every", "1").parse().unwrap())); }
    let sh: &Shared = unsafe { let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0); &*(p as *const Shared) };
    sh.active.store(1, SeqCst);
    let st = ex.initial(&entry);
    ex.work.push(st);
    let mut seq = sh.seq.fetch_add(1, SeqCst);
    let mut kids: Vec<i32> = vec![];
    let mut root = true;
    let mut last_paths = 0;
    while let Some(st) = ex.work.pop() {
        if sh.stop.load(SeqCst) != 0 { break; }
        if t0.elapsed().as_secs_f64() > limit { ex.incomplete.push(format!("time budget of {} s exhausted", limit)); sh.stop.store(1, SeqCst); break; }
        if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ex.run(st))) {
            let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_default();
            ex.incomplete.push(format!("engine panic: {}", m));
        }
        let nv = ex.viols.iter().filter(|v| !v.msg.contains(": KNOWN ")).count() as i64;
        sh.paths.fetch_add((ex.cnt.paths - last_paths) as i64, SeqCst); last_paths = ex.cnt.paths;
        if nv > 0 && nv >= maxv { sh.viols.fetch_add(nv, SeqCst); sh.stop.store(2, SeqCst); break; }
        if ex.incomplete.len() > 200 { sh.stop.store(1, SeqCst); break; }
        while ex.work.len() >= 2 && sh.active.load(SeqCst) < jobs {
            if sh.active.fetch_add(1, SeqCst) >= jobs { sh.active.fetch_sub(1, SeqCst); break; }
            let half = ex.work.len() / 2;
            let pid = unsafe { fork() };
            if pid == 0 {
                ex.work.truncate(half);
                kids.clear(); root = false;
                seq = sh.seq.fetch_add(1, SeqCst);
                ex.cnt = Counts::default(); ex.viols.clear(); ex.paths.clear(); ex.incomplete.clear(); ex.inc_inputs.clear(); ex.reach.clear(); ex.z.stats = z3::Stats::default(); last_paths = 0;
                ex.rng ^= (seq as u64 + 1).wrapping_mul(0xD1342543DE82EF95);
                break;
            } else if pid > 0 { ex.work.drain(0..half); kids.push(pid); }
            else { sh.active.fetch_sub(1, SeqCst); break; }
        }
    }
    sh.active.fetch_sub(1, SeqCst);
    let mut bad = 0;
    let reap = |kids: &[i32]| { let mut bad = 0; for &k in kids { let mut s = 0; unsafe { waitpid(k, &mut s, 0); } if s != 0 { bad += 1; } } bad };
    bad += reap(&kids);
    if bad > 0 { ex.incomplete.push(format!("{} worker process(es) died", bad)); }
    dump(&mut ex, &out, seq);
    let _ = unsafe { getpid() };
    if root { println!("done: stop={} {} parts, {} paths, {:.2}s, z3 {}", sh.stop.load(SeqCst), sh.seq.load(SeqCst), sh.paths.load(SeqCst), t0.elapsed().as_secs_f64(), z3::Z3::version()); }
    unsafe { _exit(0) }
}

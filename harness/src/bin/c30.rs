// C30: providers never share an identity, whatever the interleaving.
use figment::Figment;
use sym::model::*;
use sym::*;

/// providers added by a thread; natively (replaying a schedule that cannot be forced) many more, so that the race shows
const N: usize = if cfg!(figsym) { tier(3, 4) } else { 1500 };
struct Job { id: usize, v: u32, start: Option<Figment>, out: Option<Figment>, n: usize, op: Op, rebuilt: bool }
/// what thread `t` supplies: an arbitrary number, then counting up
fn v(t: usize) -> u32 { unsafe { V[t] } }
static mut V: [u32; 10] = [0; 10];
/// the names and keys say which thread and step supplied what
fn pname(t: usize, i: usize) -> String { format!("t{}-{}", t, i) }
/// of long histories only some providers supply a value (all have metadata)
fn step(n: usize) -> usize { if n > 20 { n / 4 } else { 1 } }
#[inline(never)]
fn build(j: &mut Job) {
    let mut f = j.start.take().unwrap_or_else(Figment::new);
    for i in 0..j.n {
        let mut q = prov::p(&pname(j.id, i));
        if i % step(j.n) == 0 { q = q.put("default", &format!("k{}_{}", j.id, i), j.v.wrapping_add(i as u32)); }
        f = if j.rebuilt { j.op.apply(f, Figment::from(q)) } else { j.op.apply(f, q) };
    }
    j.out = Some(f);
}
extern "C" fn work(p: usize) { build(unsafe { &mut *(p as *mut Job) }) }
fn distinct(f: &Figment, t: usize, n: usize) -> bool {
    let base = v(t);
    let mut ok = true;
    for i in (0..n).step_by(step(n)) {
        let (k, name) = (format!("k{}_{}", t, i), pname(t, i));
        ok &= f.find_metadata(&k).map_or(false, |m| m.name == name);
        ok &= f.extract_inner::<u32>(&k).map_or(false, |x| x == base.wrapping_add(i as u32));
    }
    ok
}
fn count(f: &Figment, own: &dyn Fn(&str) -> bool) -> usize { f.metadata().filter(|m| own(&m.name)).count() }
fn ours(n: &str) -> bool { n.starts_with('t') && n.as_bytes()[1].is_ascii_digit() }

/// `t` threads build figments at the same time; the results are combined
fn threads() {
    let t = tier(2, 2) + choice("third", 2);
    let n = if t == 3 && cfg!(figsym) { 3 } else { N };
    let with = op("with");
    let mut jobs: Vec<Box<Job>> = (0..t).map(|id| Box::new(Job { id, v: v(id), start: None, out: None, n, op: Op::Merge, rebuilt: false })).collect();
    for j in jobs.iter_mut() { spawn(work, &mut **j as *mut Job as usize); }
    join();
    let f = jobs.iter_mut().map(|j| j.out.take().unwrap()).reduce(|a, b| with.apply(a, b)).unwrap();
    reach("threads");
    check(count(&f, &ours) == t * n, "a metadata entry of a concurrently built figment is missing");
    for i in 0..t { check(distinct(&f, i, n), "a value is attributed to another thread's provider"); }
}
/// threads extend copies of the same figment, and wrap each provider in a figment of its own
fn extend() {
    let base = Figment::from(prov::p("t9-0").put("default", "k9_0", v(9)));
    let (rebuilt, with) = (flip("rebuilt"), op("with"));
    let n = if rebuilt && cfg!(figsym) { 2 } else { N };
    let mut jobs: Vec<Box<Job>> = (0..2).map(|id| Box::new(Job { id, v: v(id), start: Some(base.clone()), out: None, n, op: OPS[id], rebuilt })).collect();
    for j in jobs.iter_mut() { spawn(work, &mut **j as *mut Job as usize); }
    join();
    let (a, b) = (jobs[0].out.take().unwrap(), jobs[1].out.take().unwrap());
    let f = with.apply(a, &b);
    reach("extend");
    check(count(&f, &ours) == 2 * n + 1, "a metadata entry of a concurrently extended figment is missing");
    check(distinct(&f, 0, n) && distinct(&f, 1, n) && distinct(&f, 9, 1), "a value is attributed to another thread's provider");
}
/// the main thread builds while another does, and afterwards
fn overlap() {
    let mut j = Box::new(Job { id: 0, v: v(0), start: None, out: None, n: N, op: Op::Merge, rebuilt: false });
    let mut mine = Job { id: 1, v: v(1), start: None, out: None, n: N, op: Op::Join, rebuilt: false };
    spawn(work, &mut *j as *mut Job as usize);
    build(&mut mine);
    join();
    let mut later = Job { id: 2, v: v(2), start: None, out: None, n: N, op: Op::Merge, rebuilt: false };
    build(&mut later);
    let f = j.out.take().unwrap().merge(mine.out.take().unwrap()).merge(later.out.take().unwrap());
    reach("overlap");
    check(count(&f, &ours) == 3 * N, "a metadata entry is missing");
    for i in 0..3 { check(distinct(&f, i, N), "a value is attributed to another thread's provider"); }
}
/// many identities, taken by threads one after the other
fn many() {
    let n = tier(150, 600);
    let mut all = Figment::new();
    for id in 0..3 {
        let mut j = Box::new(Job { id, v: v(id), start: None, out: None, n, op: Op::Merge, rebuilt: false });
        if id == 1 { build(&mut j) } else { spawn(work, &mut *j as *mut Job as usize); join(); }
        all = all.merge(j.out.take().unwrap());
    }
    reach("many");
    check(count(&all, &ours) == 3 * n, "a metadata entry is missing");
    for i in 0..3 { check(distinct(&all, i, n), "a value is attributed to another thread's provider"); }
}
fn body() { for t in [0, 1, 2, 9] { unsafe { V[t] = u32("value") } } match choice("part", 4) { 0 => threads(), 1 => extend(), 2 => overlap(), _ => many() } }
entry!(body);

// C29: sources are read once, when added; queries change nothing.
use figment::error::Kind;
use figment::providers::{Env, Format, Json, Serialized, Toml};
use figment::value::{Dict, Map, Tag, Value};
use figment::{Error, Figment, Metadata, Profile, Provider};
use std::cell::Cell;
use std::rc::Rc;
use sym::model::*;
use sym::*;

const NAMES: [&str; 6] = ["p0", "p1", "p2", "p3", "p4", "p5"];
/// a source whose contents change, counting how often it is read
/// in one form it supplies nothing at all, in another an empty profile
#[derive(Clone)]
struct Src { form: usize, i: usize, now: Rc<Cell<u8>>, bad: Rc<Cell<bool>>, read: Rc<Cell<u32>>, asked: Rc<Cell<u32>> }
impl Src {
    fn new(i: usize) -> Src { Src { form: choice("form", if i == 0 { 3 } else { 1 }), i, now: Rc::new(Cell::new(u8("v"))), bad: Default::default(), read: Default::default(), asked: Default::default() } }
    fn key(&self) -> &'static str { ["k", "d", "k"][self.i % 3] }
    fn prof(&self) -> &'static str { ["default", "mine", "global"][self.i % 3] }
    fn holds(&self) -> Cfg { if self.form == 1 { return Cfg::default() } if self.form == 2 { return Cfg(vec![(self.prof().to_string(), vec![])]) } let v = M::S(S::U32(self.now.get() as u32), self.i); Cfg::default().put(self.prof(), self.key(), if self.i % 3 == 1 { M::A(vec![v], self.i) } else { v }) }
    fn change(&self) { self.now.set(self.now.get() ^ (u8("change") | 1)); }
}
impl Provider for Src {
    fn metadata(&self) -> Metadata { Metadata::named(NAMES[self.i]) }
    fn data(&self) -> Result<Map<Profile, Dict>, Error> { self.read.set(self.read.get() + 1); if self.bad.get() { Err(Error::from(NAMES[self.i].to_string())) } else { Ok(self.holds().data()) } }
    fn profile(&self) -> Option<Profile> { self.asked.set(self.asked.get() + 1); if self.i == 1 { Some("mine".into()) } else { None } }
}

/// what a query answers, provenance included
#[derive(PartialEq)]
enum Ans { Val(Value, Vec<Tag>), Fails(Vec<(Kind, Vec<String>, Option<Profile>, Option<String>)>), Is(bool), Names(Vec<String>), Profiles(Vec<Profile>), Num(u8), Data(Map<Profile, Dict>) }
fn tags(v: &Value, out: &mut Vec<Tag>) { out.push(v.tag()); match v { Value::Dict(_, d) => d.values().for_each(|x| tags(x, out)), Value::Array(_, a) => a.iter().for_each(|x| tags(x, out)), _ => {} } }
fn val(v: Value) -> Ans { let mut t = vec![]; tags(&v, &mut t); Ans::Val(v, t) }
fn fails(e: Error) -> Ans { Ans::Fails(e.into_iter().map(|e| (e.kind.clone(), e.path.clone(), e.profile.clone(), e.metadata.as_ref().map(|m| m.name.to_string()))).collect()) }
fn or(r: Result<Value, Error>) -> Ans { match r { Ok(v) => val(v), Err(e) => fails(e) } }
const QUERIES: u8 = 14;
fn ask(f: &Figment, q: usize) -> Ans {
    match q {
        0 => or(f.extract::<Value>()), 1 => or(f.extract_lossy::<Value>()), 2 => or(f.find_value("k")), 3 => match f.extract_inner::<u8>("k") { Ok(x) => Ans::Num(x), Err(e) => fails(e) }, 4 => match f.extract_inner_lossy::<u8>("d") { Ok(x) => Ans::Num(x), Err(e) => fails(e) },
        5 => Ans::Is(f.contains("k")), 6 => Ans::Names(f.find_metadata("k").map(|m| m.name.to_string()).into_iter().collect()), 7 => Ans::Names(f.metadata().map(|m| m.name.to_string()).collect()), 8 => Ans::Profiles(f.profiles().cloned().chain(Some(f.profile().clone())).collect()),
        9 => or(f.focus("d").extract::<Value>()), 10 => or(f.clone().select("mine").extract::<Value>()), 11 => { let g = Figment::from(("x", 1u8)).merge(f); or(g.find_value("d")) }
        12 => match Provider::data(f) { Ok(d) => Ans::Data(d), Err(e) => fails(e) }, _ => match f.clone().merge(("k", "other")).extract::<Value>() { Ok(v) => Ans::Val(v, vec![]), Err(e) => fails(e) },
    }
}

/// any sequence of additions, changes of the sources and queries
fn history() {
    let srcs: Vec<Src> = (0..3).map(Src::new).collect();
    let (mut f, mut c, mut added) = (Figment::new(), Cfg::default(), [0u32; 3]);
    let n = tier(5, 6);
    for step in 0..n {
        match choice("action", if step == 0 { 3 } else { 7 }) {
            i @ 0..=2 => {
                let o = if THOROUGH { op("op") } else { OPS[(i + step) % 4] };
                c = c.combine(&srcs[i].holds(), o);
                f = if step % 2 == 0 { o.apply(f, &srcs[i]) } else { o.apply(f, srcs[i].clone()) };
                added[i] += 1;
            }
            i @ 3..=4 => { let s = &srcs[i - 3]; s.change(); if i == 4 { s.bad.set(true); srcs[2].change(); srcs[2].bad.set(true); } }
            5 => { let g = Figment::from(("k", 7u8)).adjoin(&f).join(f.clone()); check(g.find_value("k").is_ok(), "combining the figment"); let _ = f.clone().select("mine").extract::<Value>(); }
            _ => { for q in [0, 3, 6, 9] { let _ = ask(&f, q); } }
        }
        // a failed provider stays out of the model: stop there
        if srcs.iter().enumerate().any(|(i, s)| s.bad.get() && added[i] < s.read.get()) { check(false, "a source is read although it was not added"); }
        for (i, s) in srcs.iter().enumerate() { check(s.read.get() == added[i], "number of times a source is read"); }
        match Provider::data(&f) { Ok(d) => check(c.agrees(&d), "a change of the source shows in the figment"), Err(_) => { assume(srcs.iter().any(|s| s.bad.get())); reach("failed"); return } }
    }
    reach("history");
    let eff = c.effective(f.profile().as_str().as_str());
    check(f.extract::<Dict>().map_or(false, |d| tree_agrees(&eff, &d)), "extraction after the sources changed");
    for (i, s) in srcs.iter().enumerate() { check(s.read.get() == added[i], "a query reads a source"); }
}
/// queries in any order and repetition
fn queries() {
    let srcs: Vec<Src> = (0..3).map(Src::new).collect();
    let bad = choice("bad", 4);
    if bad < 3 { srcs[bad].bad.set(true); }
    let mut f = Figment::new();
    for i in 0..3 { f = OPS[(i + bad) % 4].apply(f, &srcs[i]); }
    let fresh = f.clone();
    let n = tier(3, 4);
    let asked: Vec<usize> = (0..n).map(|_| choice("query", QUERIES)).collect();
    for s in &srcs { s.change(); s.bad.set(!s.bad.get()); }
    let first: Vec<Ans> = asked.iter().map(|q| ask(&fresh.clone(), *q)).collect();
    reach(if bad < 3 { "failing queries" } else { "queries" });
    for (q, a) in asked.iter().zip(&first) { check(ask(&f, *q) == *a, "a query changes the answer of another"); }
    for (q, a) in asked.iter().zip(&first) { check(ask(&f, *q) == *a, "a repeated query answers differently"); }
    for q in [7, 8, 12] { check(ask(&f, q) == ask(&fresh, q), "queries change the figment"); }
    for s in &srcs { check(s.read.get() == 1, "a query reads a source"); }
}
/// the crate's own providers: files, the environment, values
fn builtin() {
    vfs::enable(); vfs::fs().cwd = vfs::fs().mkdirs("/w/x");
    let (a, b) = (one_of("a", b"0123456789"), one_of("b", b"0123456789"));
    let json = |d: u8| { let mut v = b"{\"k\": ".to_vec(); v.push(d); v.push(b'}'); v };
    let toml = |d: u8| { let mut v = b"k = ".to_vec(); v.push(d); v };
    let (which, o) = (choice("which", 4), op("op"));
    // the provider exists before its source does
    let (file, up, envp) = (Json::file("f.json"), Toml::file("f.toml"), Env::raw());
    let mut shared = vec![a - b'0'];
    let put = |d: u8| match which { 0 => { vfs::fs().put("/w/x/f.json", &json(d)); } 1 => { vfs::fs().put("/w/f.toml", &toml(d)); } 2 => env::env().push(b"K", &[d], env_exports::slot()), _ => {} };
    check(vfs::fs().reads == 0, "a file is read when the provider is made");
    put(a);
    let g = Figment::from(("z", 1u8));
    let g = match which { 0 => o.apply(g, file), 1 => o.apply(g, &up), 2 => o.apply(g, &envp), _ => o.apply(g, Serialized::default("k", shared[0])) };
    let reads = vfs::fs().reads;
    check((which < 2) == (reads > 0), "when a file is read");
    // change or remove the source
    let how = choice("change", 3);
    match how { 0 => {} 1 => match which { 0 | 1 => { put(b) } 2 => { env::env().vars.clear(); put(b) } _ => shared[0] = b }, _ => match which { 0 | 1 => { let n = vfs::fs().find(if which == 0 { "/w/x/f.json" } else { "/w/f.toml" }).unwrap(); vfs::fs().nodes[n].alive = false; } 2 => env::env().vars.clear(), _ => shared.clear() } }
    if flip("cwd") { vfs::fs().cwd = vfs::fs().mkdirs("/elsewhere"); }
    reach("builtin");
    for _ in 0..2 {
        check(g.extract_inner::<u8>("k").map_or(false, |x| x == a - b'0'), "value after the source changed");
        check(g.clone().select("mine").find_value("k").is_ok() && g.focus("k").metadata().count() == 2 && g.find_metadata("k").is_some(), "queries after the source changed");
        let h = Figment::new().merge(&g).join(Serialized::default("k", 77u8));
        check(h.extract_inner::<u8>("k").map_or(false, |x| x == a - b'0'), "value in a combination after the source changed");
    }
    check(vfs::fs().reads == reads, "a query reads a file");
    // adding it again reads it again
    if which == 1 && how == 1 { vfs::fs().cwd = vfs::fs().find("/w/x").unwrap(); let f = Figment::new().merge(&up).join(g); check(f.extract_inner::<u8>("k").map_or(false, |x| x == b - b'0'), "value when added again"); reach("again"); }
}
/// many sources, many queries
fn scaled() {
    let (n, o) = ([10, 40][choice("n", 2)], op("op"));
    let srcs: Vec<Src> = (0..n).map(|i| Src { form: i % 9 / 3, i: i % 6, now: Rc::new(Cell::new(if i == 3 { u8("v") } else { i as u8 })), bad: Default::default(), read: Default::default(), asked: Default::default() }).collect();
    let (mut f, mut c) = (Figment::new(), Cfg::default());
    for (i, s) in srcs.iter().enumerate() { let q = if i % 3 == 2 { Op::Adjoin } else { o }; c = c.combine(&s.holds(), q); f = q.apply(f, s); if i % 5 == 0 { srcs[i / 2].change(); let _ = ask(&f, i % QUERIES as usize); } }
    for s in &srcs { s.change(); s.bad.set(true); }
    reach("scaled");
    for r in 0..3 { for q in 0..QUERIES as usize { let _ = ask(&f, (q * 5 + r) % QUERIES as usize); } }
    check(Provider::data(&f).map_or(false, |d| c.agrees(&d)), "long history: data after queries");
    let eff = c.effective(f.profile().as_str().as_str());
    check(f.extract::<Dict>().map_or(false, |d| tree_agrees(&eff, &d)), "long history: extraction after queries");
    for s in &srcs { check(s.read.get() == 1, "a source is read again"); }
}
fn body() { match choice("part", 4) { 0 => history(), 1 => queries(), 2 => builtin(), _ => scaled() } }
entry!(body);
vfs_exports!();
env_exports!();

// C14: provider failures are never masked, dropped or misattributed.
use figment::error::{Actual, Kind};
use figment::value::{Dict, Map, Value};
use figment::{Error, Figment, Metadata, Profile, Provider};
use sym::model::*;
use sym::*;

const NAMES: [&str; 8] = ["p0", "p1", "p2", "p3", "p4", "p5", "p6", "p7"];

/// fails with its own error: kind and contents differ per provider
#[derive(Clone)]
struct Bad { i: usize, kind: Kind, profile: Option<Profile>, calls: std::rc::Rc<std::cell::Cell<u32>> }
impl Provider for Bad {
    fn metadata(&self) -> Metadata { Metadata::named(NAMES[self.i]) }
    fn data(&self) -> Result<Map<Profile, Dict>, Error> { self.calls.set(self.calls.get() + 1); Err(Error::from(self.kind.clone())) }
    fn profile(&self) -> Option<Profile> { self.profile.clone() }
}
fn bad(i: usize) -> Bad {
    let kind = match choice("kind", 3) { 0 => Kind::Message(ascii_n("msg", 1)), 1 => Kind::InvalidType(Actual::Unsigned(u64("act") as u128), "map".into()), _ => Kind::MissingField(NAMES[i].into()) };
    Bad { i, kind, profile: if flip("sets") { Some(Profile::new("mine")) } else { None }, calls: Default::default() }
}
fn good(i: usize) -> prov::P { prov::p(NAMES[i]).put(["default", "mine", "global"][i % 3], "k", u32("v")) }
type Exp = Vec<(Kind, usize)>;

fn listed(e: Error, exp: &Exp) {
    check(e.count() == exp.len(), "number of errors");
    let mut n = 0;
    for (got, (k, i)) in e.into_iter().zip(exp) {
        n += 1;
        check(got.kind == *k, "kind or order of the errors");
        check(got.metadata.as_ref().map_or(false, |m| m.name == NAMES[*i]), "metadata of a failed provider");
        check(got.path.is_empty(), "path of a provider failure");
    }
    check(n == exp.len(), "number of errors when iterating");
}
fn verify(f: &Figment, exp: &Exp, queries: u8) {
    if exp.is_empty() {
        reach("fine");
        check(f.extract::<Value>().is_ok() && f.find_value("absent").map_or_else(|e| e.missing(), |_| false), "failure without a failed provider");
        return;
    }
    reach("failed");
    macro_rules! fails { ($e:expr) => { match $e { Ok(_) => check(false, "a provider failure was masked"), Err(e) => listed(e, exp) } } }
    match choice("query", queries) {
        0 => fails!(f.extract::<Value>()), 1 => { fails!(f.extract_inner::<Option<u32>>("k")); check(!f.contains("k"), "a failed figment answers queries") }, 2 => fails!(f.extract_lossy::<Dict>()), 3 => fails!(f.find_value("k")), 4 => fails!(f.extract_inner_lossy::<u32>("absent")),
        5 => { check(!f.contains("k") && f.find_metadata("k").is_none() && f.profiles().count() == 0, "a failed figment answers queries"); }
        6 => { let g = f.focus(["k", "absent"][choice("focus", 2)]); fails!(g.extract::<Value>()) }
        _ => { let g = f.clone().select("mine"); fails!(g.extract::<Value>()); fails!(f.clone().extract::<Value>()); fails!(f.extract::<Value>()) }
    }
}
/// any history of successes and failures
fn history() {
    let n = tier(4, 5);
    let mut f = Figment::new(); let mut exp: Exp = vec![];
    let nf = choice("mask", 1 << n);
    let vary = choice("vary", n as u8);
    if nf >> vary & 1 == 0 { assume(vary == 0); }
    for i in 0..n {
        let o = if THOROUGH { op("op") } else { [[Op::Merge, Op::Adjoin], [Op::Join, Op::Admerge]][i % 2][choice("op", 2)] };
        if nf >> i & 1 == 1 { let mut b = if i == vary { bad(i) } else { Bad { i, kind: Kind::Message(ascii_n("msg", 1)), profile: None, calls: Default::default() } }; if i == 0 { b.profile = Some(Profile::new("mine")); } exp.push((b.kind.clone(), i)); f = if i % 2 == 1 { o.apply(f, &b) } else { o.apply(f, b) }; } else { f = o.apply(f, good(i)); }
    }
    verify(&f, &exp, 8);
}
/// figments with failures combined with one another
fn nested() {
    let mut id = 0;
    let mut build = |max: usize| { let mut f = Figment::new(); let mut e: Exp = vec![]; for _ in 0..choice("len", max as u8 + 1) { let i = id; id += 1; if flip("fails") { let b = Bad { i, kind: Kind::Message(ascii_n("msg", 1)), profile: None, calls: Default::default() }; e.push((b.kind.clone(), i)); f = OPS[i % 4].apply(f, b); } else { f = f.merge(good(i)); } } (f, e) };
    let (f, mut e1) = build(2); let (g, e2) = build(2); let (h, e3) = build(1);
    let (a, b) = (op("op"), if THOROUGH { op("op2") } else { [Op::Merge, Op::Join][choice("op2", 2)] });
    let f = match choice("assoc", 3) { 0 => b.apply(a.apply(f, g), h), 1 => a.apply(f, b.apply(g, h)), _ => b.apply(a.apply(f, &g), &h) };
    e1.extend(e2); e1.extend(e3);
    verify(&f, &e1, 2);
}
/// failures of this crate's own providers
fn builtin() {
    use figment::providers::{Format, Json, Serialized};
    let o = op("op"); let good_first = flip("good");
    let mut f = Figment::new();
    if good_first { f = f.join(good(0)); }
    let (name, f) = match choice("which", 3) {
        0 => ("JSON source string", o.apply(f, Json::string("{"))),
        1 => ("u32", o.apply(f, Serialized::defaults(u32("v")))),
        _ => ("JSON source string", o.apply(f, Json::string("{\"a\": 1}").nested())),
    };
    let f = op("op2").apply(f, good(1));
    reach("builtin");
    match f.extract::<Value>() { Ok(_) => check(false, "a source's failure was masked"), Err(e) => { check(e.count() == 1, "one failure"); check(e.metadata.map_or(false, |m| m.name == name), "metadata of the failed source"); } }
    check(f.extract_inner::<u32>("k").is_err() && !f.contains("k"), "a failed figment answers queries");
}
/// long histories: every failure is reported, in order, once
fn scaled() {
    let (o, o2) = (op("op"), op("op2"));
    let (every, start) = (1 + choice("every", 4), choice("start", 3));
    let n = [8, 20, 40][choice("n", 3)];
    struct F(usize, String);
    impl Provider for F { fn metadata(&self) -> Metadata { Metadata::named(nth_key(self.0)) } fn data(&self) -> Result<Map<Profile, Dict>, Error> { Err(Error::from(self.1.clone())) } }
    let mut exp: Vec<(String, String)> = vec![];
    let mut f = Figment::new(); let mut g = Figment::new();
    for i in 0..n {
        let q = if i % 3 == 2 { o2 } else { o };
        if i >= start && (i - start) % every == 0 {
            let m = if i == start + every { ascii_n("msg", 1) } else { "same".to_string() };
            if start == 2 && i % 2 == 1 { g = g.merge(F(i, m.clone())); f = q.apply(f, g); g = Figment::new(); } else { f = q.apply(f, F(i, m.clone())); }
            exp.push((nth_key(i), m));
        } else { f = q.apply(f, prov::p("good").put("default", &nth_key(i), 1u8)); }
    }
    reach("scaled");
    let e = match match choice("query", 3) { 0 => f.extract::<Value>().map(|_| ()), 1 => f.extract_inner::<u8>("ka0").map(|_| ()), _ => f.focus("x").find_value("y").map(|_| ()) } { Err(e) => e, Ok(_) => { check(exp.is_empty(), "a provider failure was masked"); return } };
    check(e.count() == exp.len(), "number of errors");
    let got: Vec<Error> = e.into_iter().collect();
    check(got.len() == exp.len() && got.iter().zip(&exp).all(|(e, (n, m))| e.metadata.as_ref().map_or(false, |x| x.name == *n) && matches!(&e.kind, Kind::Message(t) if same(t.as_bytes(), m.as_bytes()))), "order, text or metadata of the errors");
}
fn body() { match choice("part", 4) { 0 => history(), 1 => nested(), 2 => builtin(), _ => scaled() } }
entry!(body);

// C15: metadata is listed once per provider in the order added.
use figment::providers::{Env, Format, Json, Serialized};
use figment::value::{Dict, Map};
use figment::{Error, Figment, Metadata, Profile, Provider, Source};
use sym::model::*;
use sym::*;

const NAMES: [&str; 8] = ["p0", "p1", "p2", "p3", "p4", "p5", "p6", "p7"];
fn names(f: &Figment) -> Vec<String> { f.metadata().map(|m| m.name.to_string()).collect() }

/// data of several kinds, including none at all and conflicts
fn provider(i: usize) -> prov::P {
    let p = prov::p(NAMES[i]);
    let prof = ["default", "mine", "global"][i % 3];
    match choice("data", 4) { 0 => p, 1 => p.put(prof, "k", u8("v")), 2 => p.put("default", "k", figment::value::Value::from(figment::util::map!["a" => 1u8])), _ => { p.put("default", "k", vec![u8("v")]).selects("mine") } }
}
struct Failing(usize);
impl Provider for Failing { fn metadata(&self) -> Metadata { Metadata::named(NAMES[self.0]) } fn data(&self) -> Result<Map<Profile, Dict>, Error> { Err(Error::from("no")) } }

fn flat() {
    let n = tier(3, 4);
    let mut f = Figment::new(); let mut exp = vec![]; let mut lines = vec![];
    for i in 0..n {
        let o = op("op");
        if i == 1 && flip("fails") { lines.push(line!()); f = o.apply(f, Failing(i)); } else { let p = provider(i); lines.push(line!()); f = if i % 2 == 1 { o.apply(f, &p) } else { o.apply(f, p) }; }
        exp.push(NAMES[i].to_string());
        check(names(&f) == exp, "metadata list after an operation");
    }
    reach("flat");
    check(f.metadata().zip(&lines).all(|(m, l)| m.provide_location.map_or(false, |x| x.line() == *l && x.file().ends_with("c15.rs"))), "code location of a provider");
    check(names(&f.clone()) == exp && names(&f.focus("k")) == exp && names(&f.clone().select("x")) == exp, "metadata of a derived figment");
    let _ = f.extract::<figment::value::Value>();
    check(names(&f) == exp, "queries change the metadata");
}
/// providers added to several figments in any interleaving, then combined
fn nested() {
    let n = tier(3, 4);
    let mut fs = vec![Figment::new(), Figment::new()];
    let mut exp: Vec<(String, usize)> = vec![];
    for i in 0..n { let w = choice("which", 2); let f = std::mem::take(&mut fs[w]); fs[w] = if THOROUGH { op("op") } else { OPS[i] }.apply(f, provider(i)); exp.push((NAMES[i].into(), w)); }
    let (a, b) = (fs[0].clone(), fs[1].clone());
    let own = |w: usize| exp.iter().filter(|e| e.1 == w).map(|e| e.0.clone()).collect::<Vec<_>>();
    check(names(&a) == own(0) && names(&b) == own(1), "metadata of each figment");
    let c = match choice("combine", 3) { 0 => op("op").apply(a, b), 1 => op("op").apply(b, a), _ => op("op").apply(a, &b) };
    let mut all: Vec<String> = exp.iter().map(|e| e.0.clone()).collect();
    all.push("Default".into());
    reach("nested");
    check(names(&c) == all, "combined metadata is not everything in the global order");
    if flip("again") { let d = Op::Admerge.apply(fs.remove(0), prov::p(NAMES[5]).put("mine", "k", 1u8)); let c = op("op").apply(c, d); all.push(NAMES[5].into()); all.push("Default".into()); check(names(&c) == all, "a provider is listed twice or out of order"); reach("shared"); }
}
/// looking up by tag; the provider's own name, source and location
fn lookup() {
    let src = match choice("source", 4) { 0 => None, 1 => Some(Source::Custom(ascii_n("text", 1))), 2 => Some(Source::File("/a/b.toml".into())), _ => Some(Source::Code(std::panic::Location::caller())) };
    let mut p = provider(0).put("default", "z", u8("z")); p.source = src.clone();
    let before = line!(); let f = op("op").apply(Figment::new(), p); let f = op("op").apply(f, provider(1));
    let v = f.find_value("z").expect("present");
    reach("lookup");
    let m = f.get_metadata(v.tag());
    check(m.map_or(false, |m| m.name == "p0" && m.source == src && m.provide_location.map_or(false, |l| l.line() == before)), "metadata looked up by tag");
    check(f.find_metadata("z").map(|m| m as *const Metadata) == m.map(|m| m as *const Metadata), "find_metadata and get_metadata differ");
    check(f.metadata().any(|x| std::ptr::eq(x, m.unwrap())), "the entry is not listed");
    check(f.get_metadata(figment::value::Tag::Default).is_none(), "the default tag has an entry");
}
/// this crate's providers: names, sources and exact locations
fn builtin() {
    let o = op("op");
    let kind = choice("kind", 6);
    let (f, line, name, col) = match kind {
        0 => (o.apply(Figment::new(), Json::string("{\"k\": 1}")), line!(), "JSON source string", false),
        1 => (o.apply(Figment::new(), Serialized::default("k", 1u8)), line!(), "u8", true),
        2 => (o.apply(Figment::new(), ("k", 1u8)), line!(), "", true),
        3 => (o.apply(Figment::new(), Env::raw().only(&["nothing"])), line!(), "environment variable(s)", false),
        4 => { vfs::enable(); vfs::fs().put("/cfg/a.json", b"{\"k\": 1}"); (o.apply(Figment::new(), Json::file("/cfg/a.json")), line!(), "JSON file", false) }
        _ => (Figment::from(Serialized::default("k", 1u8)), line!(), "u8", true),
    };
    reach("builtin");
    check(f.metadata().count() == 1, "one entry");
    let m = f.metadata().next().unwrap();
    if kind == 4 { check(m.name == name, "name"); } else if kind != 2 { check(m.name.starts_with(name), "name"); }
    check(m.provide_location.map_or(false, |l| l.line() == line && l.file().ends_with("c15.rs")), "location where it was added");
    if col { check(m.source.as_ref().and_then(|s| s.code_location()).map_or(kind == 2, |l| l.line() == line), "code location of the source"); }
}
/// metadata taken from another figment: the location is the new one
fn copied() {
    struct Copy(Metadata);
    impl Provider for Copy { fn metadata(&self) -> Metadata { self.0.clone() } fn data(&self) -> Result<Map<Profile, Dict>, Error> { Serialized::default("k", 1u8).data() } }
    let old = line!(); let a = op("op").apply(Figment::new(), provider(0));
    let m = a.metadata().next().unwrap().clone();
    check(m.provide_location.map_or(false, |l| l.line() == old), "location of the original");
    let f = if flip("more") { Figment::from(provider(1)) } else { Figment::new() };
    let new = line!(); let f = op("op").apply(f, Copy(m));
    let m = f.metadata().last().unwrap();
    reach("copied");
    check(m.name == "p0" && m.provide_location.map_or(false, |l| l.line() == new && l.file().ends_with("c15.rs")), "location of a provider with earlier metadata");
}
/// long lists, and providers that look the same at one place
fn scaled() {
    let (o, o2) = (op("op"), op("op2"));
    let n = [12, 40, 70][choice("n", 3)];
    let same_name = flip("same");
    let with_data = choice("data", 3);
    let mut f = Figment::new(); let mut exp = vec![];
    let mut inner = Figment::new(); let mut held = vec![];
    for i in 0..n {
        let name = if same_name { "same".to_string() } else { nth_key(i) };
        let mut p = prov::p(&name).from_source("src");
        if with_data == 1 || with_data == 2 && i % 2 == 0 { p = p.put("default", if i % 3 == 0 { "k" } else { "l" }, vec![i as u8]); }
        let q = if i % 3 == 2 { o2 } else { o };
        if i % 8 == 5 && i < n - 2 { inner = q.apply(inner, p); held.push(name); } else { f = q.apply(f, p); exp.push(name); }
        if i == n - 2 { f = q.apply(f, &inner); }
    }
    reach("scaled");
    check(f.metadata().count() == exp.len() + held.len() + 1, "a provider is missing or listed twice");
    // tags are taken in the global order of additions
    let got = names(&f);
    let mut all = vec![]; for i in 0..n { all.push(if same_name { "same".to_string() } else { nth_key(i) }); if i == n - 2 { all.push("Default".into()); } }
    check(got == all, "order of a long list");
    // every element is attributed to an entry that is listed
    if let Ok(v) = f.find_value("k") { if let Some(a) = v.as_array() { for x in a { check(f.get_metadata(x.tag()).map_or(false, |m| f.metadata().any(|y| std::ptr::eq(m, y)) && m.name == if same_name { "same".to_string() } else { nth_key(x.to_num().unwrap().to_u128_lossy().unwrap() as usize) }), "an element's provider is not listed"); } } }
}
fn body() { match choice("part", 6) { 0 => flat(), 1 => nested(), 2 => lookup(), 3 => builtin(), 4 => copied(), _ => scaled() } }
entry!(body);
vfs_exports!();

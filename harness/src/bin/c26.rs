// C26: serialized sources place values under their key and profile only.
use figment::error::{Actual, Kind};
use figment::providers::Serialized;
use figment::value::{Dict, Map, Value};
use figment::{Error, Figment, Profile, Provider};
use serde::{Serialize, Serializer};
use sym::model::*;
use sym::*;

struct Src(M);
impl Serialize for Src {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> { self.0.value().serialize(z) }
}
/// a key: non-empty segments, perhaps with empty ones, which end the path
fn key() -> (String, Vec<String>) {
    let n = 1 + choice("segments", tier(3, 4) as u8);
    let (mut s, mut path, mut open) = (String::new(), vec![], true);
    for i in 0..n {
        let seg = match choice("segment", 3) { 0 => { let c = ascii_n("c", 1); assume(c.as_bytes()[0] != b'.'); c } 1 => "ab".to_string(), _ => String::new() };
        if i > 0 { s.push('.'); } s.push_str(&seg);
        open &= !seg.is_empty(); if open { path.push(seg); }
    }
    (s, path)
}
fn value() -> M { slot("v", 0, 1, &[0, 1, 3]).unwrap_or(M::S(scalar("v", 4), 0)) }
fn actual(m: &M, a: &Actual) -> bool {
    match (m, a) { (M::S(S::U32(x), _), Actual::Unsigned(y)) => *x as u128 == *y, (M::S(S::Str(x), _), Actual::Str(y)) => same(x, y.as_bytes()), (M::S(S::None, _), Actual::Option) | (M::S(S::Unit, _), Actual::Unit) | (M::A(..), Actual::Seq) => true, _ => false }
}
/// exactly `m` nested under `path`, in exactly `profile`
fn exact(got: Result<Map<Profile, Dict>, Error>, profile: &str, path: Option<&[String]>, m: &M) {
    let path = path.unwrap_or(&[]);
    if path.is_empty() && !matches!(m, M::D(..)) {
        reach("rejected");
        match got { Ok(_) => check(false, "a value that is no map was accepted without a key"), Err(e) => check(e.count() == 1 && matches!(&e.kind, Kind::InvalidType(a, e) if actual(m, a) && e == "map"), "the error names the actual type") }
        return;
    }
    let data = match got { Ok(d) => d, Err(_) => { check(false, "the source failed"); return } };
    reach("placed");
    check(data.len() == 1 && data.keys().next().map_or(false, |p| same(p.as_str().as_str().as_bytes(), profile.as_bytes())), "the configured profile only");
    let mut d = data.values().next().unwrap();
    for (i, k) in path.iter().enumerate() {
        check(d.len() == 1 && d.keys().next().map_or(false, |n| same(n.as_bytes(), k.as_bytes())), "only the key is emitted");
        let v = d.values().next().unwrap();
        if i + 1 == path.len() { check(m.agrees(v), "the value under the key"); return; }
        d = match v { Value::Dict(_, d) => d, _ => { check(false, "the key path"); return } };
    }
    if let M::D(t, _) = m { check(tree_agrees(t, d), "the value's own entries"); }
}
fn profile(n: &str) -> String { match choice("profile", 4) { 0 => "default".into(), 1 => "global".into(), 2 => "Mine".into(), _ => ascii(n, 0, 1) } }
/// any order and repetition of configuration
fn configured() {
    let m = value();
    let (mut k, mut p): (Option<(String, Vec<String>)>, String);
    let how = choice("new", 5);
    let mut s = match how {
        0 => { p = profile("p"); k = None; Serialized::from(Src(m.clone()), p.as_str()) }
        1 => { p = "default".into(); k = None; Serialized::defaults(Src(m.clone())) }
        2 => { p = "global".into(); k = None; Serialized::globals(Src(m.clone())) }
        3 => { p = "default".into(); k = Some(("a.b".into(), vec!["a".into(), "b".into()])); Serialized::default("a.b", Src(m.clone())) }
        _ => { p = "global".into(); k = Some(("a".into(), vec!["a".into()])); Serialized::global("a", Src(m.clone())) }
    };
    for _ in 0..tier(2, 3) { match choice("step", 7) { 0 => {} 5 => { s = s.key(""); k = Some((String::new(), vec![])); } 6 => { s = s.profile(""); p = String::new(); } 1 => { s = s.key("x.y"); k = Some(("x.y".into(), vec!["x".into(), "y".into()])); } 2 => { s = s.key("b"); k = Some(("b".into(), vec!["b".into()])); } 3 => { s = s.profile("Other"); p = "Other".into(); } _ => { s = s.profile(Profile::Global); p = "global".into(); } } }
    exact(s.data(), &p, k.as_ref().map(|k| &k.1[..]), &m);
    check(s.profile == p.as_str() && s.key == k.map(|k| k.0) && Provider::profile(&s).is_none(), "a serialized source selects a profile");
}
fn keyed() {
    let m = value();
    let (k, path) = key();
    let p = if flip("pair") { "global" } else { "Mine" };
    let data = if p == "global" { match choice("as", 3) { 0 => (k.as_str(), Src(m.clone())).data(), 1 => (k.clone(), &Src(m.clone())).data(), _ => Serialized::global(&k, Src(m.clone())).data() } } else { Serialized::from(Src(m.clone()), p).key(&k).data() };
    exact(data, p, Some(&path), &m);
}
/// through a figment, next to others
fn merged() {
    let m = value();
    let (k, path) = key();
    let s = Serialized::from(Src(m.clone()), "mine").key(&k);
    let pair = flip("pair");
    let base = Figment::new().merge(("zz", 1u8));
    let f = if pair { base.merge((k.as_str(), Src(m.clone()))) } else { base.merge(&s).select("mine") };
    reach("merged");
    let bad = path.is_empty() && !matches!(m, M::D(..));
    match f.find_value(&path.join(".")) {
        Ok(v) if !path.is_empty() => { check(m.agrees(&v), "looked up under its key"); check(path[0] == "zz" || f.extract_inner::<u8>("zz") == Ok(1), "another key is gone"); check(f.get_metadata(v.tag()).map_or(matches!(m, M::D(..) | M::A(..)), |d| if pair { d.name.starts_with('(') } else { d.name.contains("Src") }), "its metadata"); }
        Ok(v) => { if let M::D(t, _) = &m { let mut t = t.clone(); t.push(("zz".into(), M::S(S::U32(1), 1))); check(v.as_dict().map_or(false, |d| d.len() == t.len()), "entries next to others") } else { check(false, "an error was dropped") } }
        Err(e) => { check(bad, "the value is missing"); check(matches!(&e.kind, Kind::InvalidType(a, _) if actual(&m, a)) && e.metadata.is_some(), "the error through a figment"); }
    }
    if !pair && !bad && !path.is_empty() { check(f.select("other").find_value(&path[0]).is_err() || path[0] == "zz", "visible in another profile"); }
}
/// values that cannot be maps of strings, or cannot be serialized
fn unserializable() {
    struct Fails; impl Serialize for Fails { fn serialize<Z: Serializer>(&self, _: Z) -> Result<Z::Ok, Z::Error> { Err(serde::ser::Error::custom("refused")) } }
    let e = match choice("v", 3) { 0 => Serialized::default("k", Fails).data(), 1 => ("k", Fails).data(), _ => Serialized::defaults(vec![Fails]).data() };
    reach("unserializable");
    check(e.map_or(false, |_| true) == false, "a value that fails to serialize was accepted");
    let x = u32("x");
    let mut m = std::collections::BTreeMap::new(); m.insert(7u8, x);
    match Serialized::default("k", m).data() { Ok(d) => check(d.values().next().unwrap().get("k").and_then(|v| v.as_dict()).and_then(|d| d.get("7")).map_or(false, |v| v == &Value::from(x)), "integer keys become text"), Err(_) => check(true, "integer keys refused") }
}
/// deep keys, long names, large values
fn scaled() {
    let n = [4, 5, 8, 9, 17, 33][choice("depth", 6)];
    let mut cs: Vec<String> = (0..n).map(|i| ["a", "k", "long-segment-of-the-key", "0"][i % 4].to_string()).collect();
    let c = ascii_n("c", 1); assume(c != ".");
    cs[n - 1 - choice("at", 2)] = c;
    let m = match choice("value", 3) { 0 => M::S(scalar("v", 0), 0), 1 => large(0, 0, 0), _ => large(5, 0, 0) };
    let path = cs.join(".");
    let prof = ["default", "global", "a-longer-profile-name"][choice("p", 3)];
    reach("scaled");
    let d = match prof { "default" => Serialized::default(&path, Src(m.clone())).data(), "global" => if flip("pair") { (path.as_str(), Src(m.clone())).data() } else { Serialized::global(&path, Src(m.clone())).data() }, _ => Serialized::defaults(Src(m.clone())).key(&path).profile(prof).data() };
    exact(d, prof, Some(&cs), &m);
}
fn body() { match choice("part", 5) { 0 => configured(), 1 => keyed(), 2 => merged(), 3 => unserializable(), _ => scaled() } }
entry!(body);
vfs_exports!();

// C24: profile names.
use figment::value::{Map, Value};
use figment::{Figment, Profile};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use sym::*;

fn low(b: u8) -> u8 { b | (((b >= b'A') & (b <= b'Z')) as u8) << 5 }
/// equal ignoring ASCII case, without short-circuiting
fn ci(a: &str, b: &str) -> bool { let (a, b) = (a.as_bytes(), b.as_bytes()); if a.len() != b.len() { return false; } let mut ok = true; for i in 0..a.len() { ok &= low(a[i]) == low(b[i]); } ok }
#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec { fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) } fn finish(&self) -> u64 { 0 } }
fn hash(p: &Profile) -> Vec<u8> { let mut r = Rec::default(); p.hash(&mut r); r.0 }

/// a name: short and arbitrary, or a reserved name in any casing, or multi-byte
fn name(n: &str) -> String {
    match choice("form", 8) {
        3 => format!("default{}", ascii_n(n, 1)), 4 => format!("{}global", ascii_n(n, 1)), 5 => format!("global{}", ascii_n(n, 1)), 6 => "defaul".into(),
        0 => ascii(n, 0, tier(3, 4)),
        1 => { let mut s = b"default".to_vec(); let i = choice("at", 8); if i < 7 { let c = u8(n); assume(c < 128); s[i] = c; } text(s) }
        2 => { let m = u8(n); let s = b"global".iter().enumerate().map(|(i, c)| c ^ (((m >> i) & 1) << 5)).collect(); text(s) }
        _ => { let mut s = utf8(n, 2); s.push(b'k' ^ (bool("up") as u8) << 5); text(s) }
    }
}
fn pair() {
    let (a, b) = (name("a"), name("b"));
    let (p, q) = (Profile::new(&a), Profile::from(b.clone()));
    let e = ci(&a, &b);
    reach("pair");
    check((p == q) == e, "==");
    check((p != q) != e, "!=");
    let s: &str = &b;
    check((p == *s) == e && (*s == p) == e, "== with text");
    check((p == s) == e && (s == p) == e, "== with text by reference");
    check((&p == q) == e && (p == &q) == e, "== with a reference");
    check((p.as_str() == q.as_str()) == e && (p.as_str() == s) == e, "== as text");
    let c = p.cmp(&q);
    check((c == Ordering::Equal) == e, "ordered as equal");
    check(q.cmp(&p) == c.reverse(), "antisymmetric");
    check(p.partial_cmp(&q) == Some(c) && (p < q) == (c == Ordering::Less) && (p >= q) == (c != Ordering::Less), "partial order");
    if e { check(same(&hash(&p), &hash(&q)), "equal profiles hash differently"); }
    check(p.starts_with(&b) == (b.len() <= a.len() && ci(text(a.as_bytes()[..b.len().min(a.len())].to_vec()).as_str(), &b)), "starts_with");
}
fn three() {
    let n = |n: &str| Profile::new(&ascii(n, 0, tier(3, 3)));
    let (a, b, c) = (n("a"), n("b"), n("c"));
    reach("three");
    check(!((a <= b) & (b <= c)) | (a <= c), "transitive");
    check(!((a < b) & (b <= c)) | (a < c), "transitive with equality");
}
/// maps and selection
fn used() {
    let (a, b) = (name("a"), name("b"));
    let e = ci(&a, &b);
    let mut m = Map::new();
    m.insert(Profile::new(&a), 1); m.insert(Profile::new(&b), 2);
    reach("used");
    check(m.len() == if e { 1 } else { 2 }, "profiles in a map");
    check(m.get(&Profile::new(&b)) == Some(&2) && m.get(&Profile::new(&a)) == Some(&if e { 2 } else { 1 }), "looked up in a map");
    let always = ci(&a, "default") || ci(&a, "global");
    let f = Figment::new().merge(prov::p("p").put(Profile::new(&a), "k", 1u8)).select(Profile::new(&b));
    check(same(f.profile().as_str().as_str().as_bytes(), b.as_bytes()), "the selected name");
    check(f.contains("k") == (always || e), "selection");
    let g = Figment::from(prov::p("p").put(Profile::new(&a), "k", 1u8)).merge(prov::p("q").put(Profile::new(&b), "k", 2u8));
    check(stored(&g) == if e { 1 } else { 2 }, "merged under one profile");
    let h = Figment::new().merge(prov::p("p").selects(Profile::new(&a)));
    check(h.profile() == Profile::new(&a) && (h.profile() == b.as_str()) == e, "selected by a provider");
    if let Ok(v) = f.find_value("k") { check(match v.tag().profile() { Some(p) => (p == Profile::Default) == ci(&a, "default") && (p == Profile::Global) == ci(&a, "global") && always, None => !always }, "profile of a value"); }
}
fn stored(f: &Figment) -> usize { figment::Provider::data(f).map_or(9, |d| d.len()) }
fn reserved() {
    let a = name("a");
    let p = Profile::new(&a);
    reach("reserved");
    check(p.is_custom() == !(ci(&a, "default") | ci(&a, "global")), "is_custom");
    check(same(p.to_string().as_bytes(), a.as_bytes()), "displayed name");
    check(same(String::from(p.clone()).as_bytes(), a.as_bytes()), "owned name");
    check(same(p.as_str().as_str().as_bytes(), a.as_bytes()), "name");
    match Value::serialize(&p) { Ok(Value::String(_, s)) => { check(same(s.as_bytes(), a.as_bytes()), "serialized name"); } _ => check(false, "serialized kind") }
    check(Value::from(a.clone()).deserialize::<Profile>().map_or(false, |q| same(q.as_str().as_str().as_bytes(), a.as_bytes())), "deserialized name");
    check(p.clone().collect(figment::value::Dict::new()).keys().next() == Some(&p), "collect");
    check(Profile::default() == "default" && Profile::Global == "GLOBAL" && !Profile::Default.is_custom(), "constants");
}
/// a profile named by the environment
fn environment() {
    let key = ["KEY", "pr"][choice("key", 2)];
    let n = tier(2, 3);
    let mut vars: Vec<(String, Vec<u8>)> = vec![];
    for i in 0..n { let nm = match choice("name", 4) { 0 => word("n", b"KkEe_y", key.len()), 1 => word("n", b"pPrR", 2), 2 => format!(" {}\t", key), _ => "OTHER".into() }; let v = bytes("v", i); let mut ok = true; for b in &v { ok &= (*b != 0) & (*b < 128); } assume(ok); vars.push((nm, v)); }
    for (k, v) in &vars { env::env().push(k.as_bytes(), v, env_exports::slot()); }
    let hit = vars.iter().find(|(k, _)| ci(k.trim(), key));
    let got = Profile::from_env(key);
    let or = Profile::from_env_or(key, "Else");
    reach("environment");
    match hit {
        Some((_, v)) => { check(got.map_or(false, |p| same(p.as_str().as_str().as_bytes(), v)), "profile from the environment"); check(same(or.as_str().as_str().as_bytes(), v), "profile from the environment or a default"); }
        None => { check(got.is_none(), "a profile from nowhere"); check(or.as_str().as_str() == "Else", "the default"); }
    }
}
/// long names differing anywhere
fn scaled() {
    let n = [8, 16, 24, 33, 70][choice("n", 5)];
    let at = [0, 1, n / 2, n - 2, n - 1][choice("at", 5)];
    let base: Vec<u8> = (0..n).map(|i| b"Staging-Eu_west9."[i % 17]).collect();
    let (mut a, mut b) = (base.clone(), base.clone());
    a[at] = ascii_n("a", 1).as_bytes()[0]; b[at] = ascii_n("b", 1).as_bytes()[0];
    if flip("cased") { for i in 0..n { if i != at && i % 2 == 0 { b[i] = low(b[i]); } } }
    if flip("longer") { b.push(b'x'); }
    let (a, b) = (text(a), text(b));
    let e = ci(&a, &b);
    let (p, q) = (Profile::new(&a), Profile::new(&b));
    reach("scaled");
    check((p == q) == e && (p == *b.as_str()) == e && (p.cmp(&q) == Ordering::Equal) == e && p.cmp(&q) == q.cmp(&p).reverse(), "long names");
    if e { check(same(&hash(&p), &hash(&q)), "hash of long names"); }
    let f = Figment::from(prov::p("p").put(p.clone(), "k", 1u8)).merge(prov::p("q").put(q.clone(), "k", 2u8));
    check(stored(&f) == if e { 1 } else { 2 }, "merged under one long profile");
    let g = Figment::from(prov::p("p").put(p.clone(), "k", 1u8)).select(q.clone());
    check(g.contains("k") == e && same(g.profile().as_str().as_str().as_bytes(), b.as_bytes()), "selection of a long name");
    check(p.is_custom() && same(p.to_string().as_bytes(), a.as_bytes()), "name of a long profile");
    env::env().push(b"PROFILE", b.as_bytes(), env_exports::slot());
    assume(!b.as_bytes().contains(&0));
    check(Profile::from_env("profile").map_or(false, |x| (x == p) == e && same(x.as_str().as_str().as_bytes(), b.as_bytes())), "long profile from the environment");
}
fn body() { match choice("part", 6) { 0 => pair(), 1 => three(), 2 => used(), 3 => reserved(), 4 => environment(), _ => scaled() } }
entry!(body);
env_exports!();

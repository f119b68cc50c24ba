// C05: key paths address exactly the nested value.
use figment::error::Kind;
use figment::providers::Serialized;
use figment::value::{Dict, Value};
use figment::Figment;
use sym::model::*;
use sym::*;

/// split at dots, by hand (forks on symbolic bytes)
fn comps(s: &str) -> Vec<String> {
    let mut out = vec![vec![]];
    for b in s.bytes() { if b == b'.' { out.push(vec![]) } else { out.last_mut().unwrap().push(b) } }
    out.into_iter().map(text).collect()
}
fn descend<'a>(t: &'a Tree, path: &[String]) -> Option<&'a M> {
    let mut cur = get(t, &path[0])?;
    for k in &path[1..] { cur = cur.get(k)?; }
    Some(cur)
}
/// every way to look `path` up gives what descending gives
fn verify(f: &Figment, t: &Tree, path: &str, check_meta: bool) {
    let ps = comps(path);
    for p in &ps { assume(!p.is_empty()); }
    let exp = descend(t, &ps);
    let root: Value = f.extract().expect("extracts as a value");
    let (r, o) = (root.find_ref(path), root.clone().find(path));
    check(f.contains(path) == exp.is_some(), "contains");
    match exp {
        Some(m) => {
            reach("present");
            check(r.map_or(false, |v| m.agrees(v)), "Value::find_ref");
            check(o.map_or(false, |v| m.agrees(&v)), "Value::find");
            check(f.find_value(path).map_or(false, |v| m.agrees(&v)), "find_value");
            check(f.extract_inner::<Value>(path).map_or(false, |v| m.agrees(&v)), "extract_inner");
            if check_meta { check(f.find_metadata(path).map_or(false, |m| m.name == "src"), "find_metadata"); }
        }
        None => {
            reach("absent");
            check(r.is_none(), "Value::find_ref found an absent path");
            check(o.is_none(), "Value::find found an absent path");
            check(f.find_metadata(path).is_none(), "find_metadata of an absent path");
            let names = |e: figment::Error| matches!(&e.kind, Kind::MissingField(n) if same(n.as_bytes(), path.as_bytes())) && e.missing();
            match f.find_value(path) { Ok(_) => check(false, "find_value found an absent path"), Err(e) => check(names(e), "find_value error does not name the path") }
            match f.extract_inner::<u32>(path) { Ok(_) => check(false, "extract_inner found an absent path"), Err(e) => check(names(e), "extract_inner error does not name the path") }
            match f.extract_inner_lossy::<Option<u32>>(path) { Ok(_) => check(false, "extract_inner_lossy found an absent path"), Err(e) => check(names(e), "extract_inner_lossy error does not name the path") }
        }
    }
}
fn leaf(n: &str) -> M { M::S(scalar(n, 0), 0) }
fn fig(t: Tree) -> (Figment, Tree) { let c = Cfg(vec![("default".into(), t.clone())]); (Figment::from(c.provider("src")), t) }
fn d(v: Vec<(&str, M)>) -> M { M::D(v.into_iter().map(|(k, m)| (k.to_string(), m)).collect(), 0) }

/// arbitrary path text against a tree with confusable keys
fn anypath() {
    let t = vec![("a".to_string(), d(vec![("b", d(vec![("c", leaf("v")), ("a", M::D(vec![], 0))])), ("bb", leaf("v")), ("0", leaf("v"))])), ("A".into(), leaf("v")), ("ab".into(), d(vec![("c", leaf("v"))])),
        ("arr".into(), M::A(vec![leaf("v"), leaf("v")], 0)), ("".into(), leaf("v")), ("a.b".into(), leaf("v")), (" a".into(), leaf("v")), ("é".into(), d(vec![("b", leaf("v"))])), ("e".into(), M::D(vec![], 0)), ("n".into(), M::S(S::None, 0))];
    let (f, t) = fig(t);
    let p = match choice("sort", 4) { 0 => ascii("p", 1, tier(6, 9)), 1 => word("p", b"ab.c", tier(8, 11)), 2 => { let mut s = utf8("p", 2); s.extend(ascii("q", 0, 2).into_bytes()); text(s) } _ => { let mut s = "arr.".to_string(); s += &ascii_n("p", 1); s } };
    verify(&f, &t, &p, false);
}
/// keys with arbitrary contents
fn anykeys() {
    let mut key = |n: &str| -> String { match choice("ksort", 3) { 0 => ascii_n(n, 1), 1 => ascii_n(n, 2), _ => text(utf8(n, 2)) } };
    let (k1, k2, k3) = (key("k1"), key("k2"), key("k3"));
    assume(k1 != k2);
    let t = vec![(k1.clone(), d(vec![(k3.as_str(), leaf("v"))])), (k2.clone(), leaf("v"))];
    let (f, t) = fig(t);
    let p = match choice("path", 6) { 0 => k1, 1 => k2, 2 => format!("{}.{}", k1, k3), 3 => format!("{}.{}", k2, k3), 4 => format!("{}.x", k1), _ => format!("{}.{}", ascii_n("f", 1), k3) };
    verify(&f, &t, &p, false);
}
/// exhaustive shapes, all query routes agree, with selected profiles and several sources
fn shapes() {
    let mut t = vec![];
    for k in ["a", "b"] { if let Some(m) = piece(k, 0, if k == "a" { tier(2, 3) } else { 0 }) { t.push((k.to_string(), m)); } }
    assume(!t.is_empty());
    let prof = ["default", "global", "mine"][choice("profile", 3)];
    let c = Cfg(vec![(prof.to_string(), t.clone())]);
    let mut f = Figment::from(c.provider("src"));
    if prof == "mine" { f = f.select("mine"); }
    let mut t = t;
    if flip("second") { let x = Cfg::default().put(prof, "z", d(vec![("a", leaf("w"))])); f = f.merge(x.provider("src")); t.push(("z".into(), x.tree(prof).unwrap()[0].1.clone())); }
    let p = ["a", "b", "a.a", "a.b", "a.a.a", "a.a.b", "b.a", "a.a.a.a", "z.a", "c"][choice("path", 10)];
    verify(&f, &t, p, true);
    check(f.find_metadata(p).is_some() == f.contains(p), "metadata of a contained path");
}
/// a value nested under an arbitrary path is found there, and nowhere else
fn placed() {
    let ncomp = 1 + choice("comps", tier(3, 4) as u8);
    let mut cs = vec![];
    for i in 0..ncomp { let c = match choice("csort", 3) { 0 => ascii_n("c", 1), 1 => if i == 0 { ascii_n("c", 3) } else { ascii_n("c", 2) }, _ => { let mut b = utf8("c", 3); b.push(b'a'); text(b) } }; assume(!c.as_bytes().contains(&b'.')); cs.push(c); }
    let path = cs.join(".");
    let m = match choice("value", 3) { 0 => leaf("v"), 1 => d(vec![("k", leaf("v"))]), _ => M::A(vec![leaf("v")], 0) };
    // the spine must be exactly one key per level
    let spine = |mut v: Value| -> bool { for c in &cs { v = match v { Value::Dict(_, mut d) if d.len() == 1 => match d.remove(c) { Some(v) => v, None => return false }, _ => return false } } m.agrees(&v) };
    reach("placed");
    let v = figment::util::nest(&path, m.value());
    check(v.find_ref(&path).map_or(false, |v| m.agrees(v)), "nest then find_ref");
    check(spine(v.clone()), "nest builds one dictionary per component");
    check(v.find(&path).map_or(false, |v| m.agrees(&v)), "nest then find");
    let f = match choice("how", 3) { 0 => Figment::from(Serialized::default(&path, m.value())), 1 => Figment::from((path.as_str(), m.value())), _ => Figment::new().join(Serialized::global(&path, m.value())) };
    check(f.find_value(&path).map_or(false, |v| m.agrees(&v)) && f.contains(&path), "placed value not found");
    check(f.extract::<Value>().map_or(false, spine), "placed value is elsewhere too");
    let _ = Dict::new();
}
/// deep paths and wide dictionaries
fn scaled() {
    let n = [4, 7, 8, 9, 16, 17, 33, 65][choice("depth", 8)];
    let c = ascii_n("c", 1); assume(c != ".");
    let mut m = leaf("v");
    for i in 0..n { let mut t = if i == 2 { wide(0, 40, 0) } else { vec![("z".to_string(), leaf("w"))] }; t.push(("a".into(), m)); m = M::D(t, 0); }
    let (f, t) = fig(match m { M::D(t, _) => t, _ => unreachable!() });
    let (up, extra) = (choice("up", 3), choice("tail", 4));
    let mut cs = vec!["a".to_string(); n - up];
    match extra { 0 => {} 1 => *cs.last_mut().unwrap() = c, 2 => cs.push(c), _ => { cs[n / 2 - 1] = c; } }
    verify(&f, &t, &cs.join("."), false);
    // and placing under such a path
    let path = cs.join(".");
    let v = figment::util::nest(&path, leaf("v").value());
    check(v.find_ref(&path).is_some() && v.clone().find(&path).is_some(), "nest then find at depth");
    let g = if flip("pair") { Figment::from((path.as_str(), 1u8)) } else { Figment::from(Serialized::default(&path, 1u8)) };
    check(g.extract_inner::<u8>(&path) == Ok(1), "placed value not found at depth");
    let mut d = 0; let mut cur = v; loop { cur = match cur { Value::Dict(_, mut m) if m.len() == 1 => { d += 1; m.pop_first().unwrap().1 } _ => break }; }
    check(d == cs.len(), "one dictionary per component at depth");
}
fn body() { match choice("part", 5) { 0 => anypath(), 1 => anykeys(), 2 => shapes(), 3 => placed(), _ => scaled() } }
entry!(body);

// C13: extraction errors name the offending key, source and profile.
use figment::error::{Actual, Kind};
use figment::value::magic::Tagged;
use figment::value::Value;
use figment::{Error, Figment};
use serde::Deserialize;
use std::collections::BTreeMap;
use sym::model::*;
use sym::*;

#[derive(Deserialize)] #[allow(dead_code)] struct Top<T> { k: T, #[serde(default)] also: u32 }
#[derive(Deserialize)] #[allow(dead_code)] struct In { a: u32, b: u32 }
#[derive(Deserialize)] #[allow(dead_code)] struct New<T>(T);
#[derive(Deserialize)] #[allow(dead_code)] enum En { Newtype(u32), Pair(u8, u32), Fields { x: u32, y: u8 }, Deep(In) }
#[derive(Deserialize)] #[allow(dead_code)] struct Deep { m: Mid } #[derive(Deserialize)] #[allow(dead_code)] struct Mid { n: Vec<In> }
#[derive(Deserialize)] #[serde(deny_unknown_fields)] #[allow(dead_code)] struct Strict { a: u32, #[serde(default)] b: u32 }
#[derive(Deserialize)] #[allow(dead_code)] enum Plain { One, Two }

fn ok(o: usize) -> M { M::S(S::U32(7), o) }
fn dm(v: Vec<(&str, M)>, o: usize) -> M { M::D(v.into_iter().map(|(k, m)| (k.to_string(), m)).collect(), o) }

/// how the extraction is requested; the given components come first in the path
const ROUTES: usize = 7;
fn extract<T: for<'a> Deserialize<'a>>(route: usize, c: &Figment) -> Option<Error> {
    match route {
        0 => c.extract::<Top<T>>().err(), 1 => c.extract_lossy::<Top<T>>().err(), 2 => c.extract_inner::<T>("k").err(), 3 => c.extract_inner_lossy::<T>("k").err(),
        4 => c.extract_inner::<Top<T>>("p.q").err(), 5 => c.extract::<BTreeMap<String, BTreeMap<String, Top<T>>>>().err(), _ => c.focus("p").extract_inner_lossy::<Top<T>>("q").err(),
    }
}
fn at_route(route: usize, t: Tree, o: usize) -> Tree { if route >= 4 { vec![("p".into(), M::D(vec![("q".into(), M::D(t, o))], o))] } else { t } }
fn route_path(route: usize) -> Vec<String> { match route { 4 | 5 => vec!["p".into(), "q".into()], 6 => vec!["q".into()], _ => vec![] } }

fn bad_value(lossy: bool) -> (M, Option<Kind>) {
    // the kind is built by hand from the value that was supplied
    let it = |a: Actual| Some(Kind::InvalidType(a, String::new()));
    let iv = |a: Actual| Some(Kind::InvalidValue(a, String::new()));
    let (s, k) = match choice("bad", 7) {
        0 => { let b = ascii_n("v", 1); if lossy { assume(!(b'0'..=b'9').contains(&b.as_bytes()[0])); } (S::Str(b.clone().into_bytes()), it(Actual::Str(b))) }
        1 => { let b = bool("v"); (S::Bool(b), it(Actual::Bool(b))) }
        2 => { let x = u64("v") as i64; assume(x < 0); (S::I64(x), iv(Actual::Signed(x as i128))) }
        3 => (S::Unit, it(Actual::Unit)),
        4 => { let c = u8("v"); assume(c < 128); if lossy { assume(!(b'0'..=b'9').contains(&c)); } /* serde hands characters on as text */ (S::Char(c), it(Actual::Str((c as char).to_string()))) }
        5 => return (M::D(vec![("zz".into(), M::S(S::Bool(true), 1))], 1), it(Actual::Map)),
        _ => return (M::A(vec![], 1), it(Actual::Seq)),
    };
    (M::S(s, 1), k)
}
fn same_kind(a: &Kind, b: &Kind) -> bool { match (a, b) { (Kind::InvalidType(x, _), Kind::InvalidType(y, _)) | (Kind::InvalidValue(x, _), Kind::InvalidValue(y, _)) => x == y, _ => false } }

/// one offending value at every kind of position, supplied by `bad` in some profile
fn positions() {
    let route = choice("route", ROUTES as u8);
    let lossy = route == 1 || route == 3 || route == 6;
    let pos = choice("pos", 18);
    let (b, kind) = bad_value(lossy);
    let key = if matches!(pos, 4 | 5) { match choice("ks", 2) { 0 => ascii_n("key", 1), _ => text(utf8("key", 2)) } } else { String::new() };
    let idx = if matches!(pos, 2 | 3 | 11 | 13) { [0, 1, 9, 10][choice("idx", 4)] } else { 0 };
    let arr = |bad: &dyn Fn(M) -> M, o: usize, with: bool| M::A((0..=idx.max(1)).map(|i| bad(if with && i == idx { b.clone() } else { ok(o) })).collect(), o);
    let inn = |which: &str, o: usize, with: bool| dm(vec![("a", if with && which == "a" { b.clone() } else { ok(o) }), ("b", if with && which == "b" { b.clone() } else { ok(o) })], o);
    let x = |o: usize, with: bool| if with { b.clone() } else { ok(o) };
    let build = |o: usize, w: bool| -> M { match pos {
        0 | 10 | 12 | 14 | 17 => x(o, w), 1 => inn("a", o, w), 2 | 11 => arr(&|m| m, o, w), 3 | 13 => arr(&|m| dm(vec![("a", ok(o)), ("b", m)], o), o, w), 4 => dm(vec![(&key, x(o, w))], o), 5 => dm(vec![(&key, dm(vec![("z", inn("b", o, w))], o))], o),
        6 => M::A(vec![ok(o), inn("a", o, w)], o), 7 => dm(vec![("Newtype", x(o, w))], o), 8 => dm(vec![("Fields", dm(vec![("x", x(o, w)), ("y", ok(o))], o))], o), 9 => dm(vec![("Pair", M::A(vec![ok(o), x(o, w)], o))], o),
        15 => M::A(vec![ok(o), x(o, w)], o), _ => dm(vec![("m", dm(vec![("n", M::A(vec![inn("a", o, false), inn("b", o, w)], o))], o))], o),
    } };
    let i = idx.to_string();
    let tail: Vec<&str> = match pos { 0 | 10 | 12 | 14 | 17 => vec![], 1 => vec!["a"], 2 | 11 => vec![&i], 3 | 13 => vec![&i, "b"], 4 => vec![&key], 5 => vec![&key, "z", "b"], 6 => vec!["1", "a"], 7 => vec!["Newtype"], 8 => vec!["Fields", "x"], 9 => vec!["Pair", "1"], 15 => vec!["1"], _ => vec!["m", "n", "1", "b"] };
    // `good` supplies the same structure without the fault; `bad` wins by layer or by operation
    let n = tier(0, 1);
    let (pb, pg, win) = match choice("how", if n == 1 { 9 } else { 5 }) { 0 => ("default", "default", 0), 1 => ("global", "mine", 0), 2 => ("mine", "default", 1), 3 => ("default", "default", 1), 4 => ("global", "global", 0), 5 => ("mine", "mine", 1), 6 => ("mine", "mine", 0), 7 => ("global", "default", 1), _ => ("default", "other", 1) };
    let t = |o: usize, w: bool, extra: &str| { let v = build(o, w); at_route(route, vec![("k".to_string(), v), (extra.to_string(), ok(o))], o) };
    let good = Cfg(vec![(pg.to_string(), t(0, false, "also"))]); let bad = Cfg(vec![(pb.to_string(), t(1, true, "aaa"))]);
    let f = Figment::new().select("mine");
    let f = if win == 0 { f.join(good.provider("good")).merge(bad.provider("bad")) } else { f.merge(bad.provider("bad")).join(good.provider("good")) };
    macro_rules! go { ($t:ty) => { extract::<$t>(route, &f) } }
    let e = match pos { 0 => go!(u32), 1 => go!(In), 2 => go!(Vec<u32>), 3 => go!(Vec<In>), 4 => go!(BTreeMap<String, u32>), 5 => go!(BTreeMap<String, BTreeMap<String, In>>), 6 => go!((u32, In)), 7 | 8 | 9 => go!(En), 10 => { if matches!(b, M::S(S::Unit, _)) { return; } go!(New<Option<u32>>) } 11 => { if matches!(b, M::S(S::Unit, _)) { return; } go!(Option<Vec<Option<u32>>>) } 12 => go!(Tagged<u32>), 13 => go!(Vec<Tagged<In>>), 14 => go!(Box<u32>), 15 => go!([u32; 2]), 17 => { if matches!(b, M::S(S::Str(_) | S::Char(_), _)) { return; } go!(figment::value::magic::RelativePathBuf) } _ => go!(Deep) };
    // in sequence and tuple positions the value may come from the whole array only
    let e = match e { Some(e) => e, None => { check(false, "extraction of an offending value succeeded"); return } };
    reach("positions");
    let mut path = route_path(route); path.push("k".into()); path.extend(tail.iter().map(|s| s.to_string()));
    check(e.path.len() == path.len() && e.path.iter().zip(&path).all(|(a, b)| same(a.as_bytes(), b.as_bytes())), "path of the error");
    check(e.metadata.as_ref().map_or(false, |m| m.name == "bad"), "metadata of the error");
    check(e.profile.as_ref().map_or(false, |p| *p == pb), "profile of the error");
    check(kind.map_or(true, |k| same_kind(&k, &e.kind) || (pos == 17 && matches!((&k, &e.kind), (Kind::InvalidValue(x, _), Kind::InvalidType(y, _)) if x == y))), "kind of the error does not report the actual value");
    check(e.count() == 1, "spurious predecessor errors");
}
/// integers that do not fit are reported with the value found
fn ranges() {
    let x = u64("v");
    let pos = choice("pos", 3);
    let (v, tail): (Value, Vec<&str>) = match pos { 0 => (Value::from(x), vec![]), 1 => (Value::from(vec![Value::from(0u8), Value::from(x)]), vec!["1"]), _ => (Value::from(figment::util::map!["a" => Value::from(x), "b" => Value::from(1u8)]), vec!["a"]) };
    let prof = ["default", "global", "mine"][choice("profile", 3)];
    let f = Figment::from(prov::p("src").put(prof, "k", v)).select("mine");
    let r = match pos { 0 => f.extract_inner::<u32>("k").map(|_| ()), 1 => f.extract_inner::<Vec<u32>>("k").map(|_| ()), _ => f.extract_inner::<In>("k").map(|_| ()) };
    match r {
        Ok(()) => { reach("fits"); check(x <= u32::MAX as u64, "an integer that does not fit was accepted") }
        Err(e) => {
            reach("range");
            check(x > u32::MAX as u64, "an integer that fits was rejected");
            check(matches!(e.kind, Kind::InvalidValue(Actual::Unsigned(y), _) if y == x as u128), "the value found is not reported");
            check(e.path.len() == 1 + tail.len() && e.path[0] == "k" && e.path.get(1).map(|s| s.as_str()) == tail.first().copied(), "path");
            check(e.metadata.map_or(false, |m| m.name == "src") && e.profile.map_or(false, |p| p == prof), "metadata or profile");
        }
    }
}
/// missing and unknown fields, unknown variants, wrong lengths
fn structure() {
    let prof = ["default", "global", "mine"][choice("profile", 3)];
    let sort = choice("sort", 6);
    let name = ascii_n("name", 1); assume(name != "a" && name != "b");
    let var = ascii_n("variant", 3); assume(var != "One" && var != "Two");
    let one = || Value::from(1u8);
    let v: Value = match sort { 0 => Value::from(figment::util::map!["a" => one(), "c" => one()]), 1 => Value::from(vec![Value::from(figment::util::map!["b" => one()])]), 2 => Value::from(figment::util::map!["a".to_string() => one(), name.clone() => one()]), 3 => Value::from(var.as_str()), 4 => Value::from(vec![one()]), _ => Value::from(figment::util::map![var.clone() => one()]) };
    let f = Figment::new().merge(prov::p("before").put(prof, "also", 1u8)).merge(prov::p("src").put(prof, "k", v)).join(prov::p("after").put("default", "zzz", false)).select("mine");
    let (e, path): (Option<Error>, Vec<&str>) = match sort { 0 => (f.extract_inner::<In>("k").err(), vec!["k"]), 1 => (f.extract::<Top<Vec<In>>>().err(), vec!["k", "0"]), 2 => (f.extract::<Top<Strict>>().err(), vec!["k", &name]), 3 => (f.extract::<Top<Plain>>().err(), vec!["k"]), 4 => (f.extract_inner::<(u32, u32)>("k").err(), vec!["k"]), _ => (f.extract_inner::<En>("k").err(), vec!["k", &var]) };
    let e = match e { Some(e) => e, None => { check(false, "extraction succeeded"); return } };
    reach("structure");
    check(match (sort, &e.kind) { (0, Kind::MissingField(n)) => n == "b", (1, Kind::MissingField(n)) => n == "a", (2, Kind::UnknownField(n, l)) => *n == name && l.len() == 2, (3, Kind::UnknownVariant(n, l)) => *n == var && l.len() == 2, (4, Kind::InvalidLength(1, _)) => true, (5, Kind::UnknownVariant(n, l)) => *n == var && l.len() == 4, _ => false }, "kind");
    check(e.path.len() == path.len() && e.path.iter().zip(&path).all(|(a, b)| a == b), "path");
    check(e.metadata.map_or(false, |m| m.name == "src"), "metadata");
    check(e.profile.map_or(false, |p| p == prof), "profile");
}
/// after combining, each layer's faults carry that layer's provider and profile
fn mixed() {
    let n = 3;
    let mut c = Cfg::default(); let mut f = Figment::new();
    let names = ["p0", "p1", "p2"];
    let profs = ["default", "mine", "global"];
    let mut where_ = vec![];
    for i in 0..n {
        let o = if i == 0 { Op::Merge } else { op("op") }; let p = profs[choice("profile", 3)]; where_.push(p);
        // the fault, its correction, or another key of the same dictionary
        let x = match choice("bad", 3) { 0 => ("a", M::S(S::Bool(bool("v")), i)), 1 => ("a", M::S(scalar("v", 0), i)), _ => ("b", M::S(scalar("w", 0), i)) };
        let one = Cfg::default().put(p, "k", M::D(vec![(x.0.into(), x.1)], i));
        f = o.apply(f, one.provider(names[i])); c = c.combine(&one, o);
    }
    f = f.select("mine");
    let t = c.effective("mine");
    let m = at(&t, &["k", "a"]);
    let org = match m { Some(M::S(_, o)) => *o, _ => 9 };
    match (f.extract::<BTreeMap<String, BTreeMap<String, u32>>>(), m) {
        (Ok(_), None | Some(M::S(S::U32(_), _))) => {}
        (Err(e), Some(M::S(S::Bool(b), _))) => { reach("mixed"); check(e.path == ["k", "a"] && matches!(e.kind, Kind::InvalidType(Actual::Bool(x), _) if x == *b), "path or kind"); check(e.metadata.map_or(false, |m| m.name == names[org]), "metadata of the winner"); check(e.profile.map_or(false, |p| p == where_[org]), "profile of the winner"); }
        _ => check(false, "outcome"),
    }
}
/// far positions: deep paths, high indices, long names, among many providers
fn scaled() {
    let route = choice("route", ROUTES as u8);
    let (b, kind) = bad_value(route == 1 || route == 3 || route == 6);
    let pos = choice("pos", 6);
    let idx = [11, 99, 100, 101][choice("idx", 4)];
    let key = { let mut s = "a-key-of-more-than-thirty-two-characters-".to_string(); s.push_str(&ascii_n("key", 1)); s };
    let arr = |bad: M, o: usize| M::A((0..=idx + 1).map(|i| if i == idx { bad.clone() } else { ok(o) }).collect(), o);
    let nest = |mut m: M, o: usize| { for _ in 0..idx % 10 + 4 { m = dm(vec![("n", m)], o); } m };
    let build = |o: usize, w: bool| { let x = if w { b.clone() } else { ok(o) }; match pos { 0 => arr(x, o), 1 => dm(vec![(&key, x), ("zz", ok(o))], o), 2 => nest(dm(vec![("leaf", x)], o), o), 3 => M::D((0..60).map(|i| (nth_key(i), if i == 41 { x.clone() } else { ok(o) })).collect(), o), 4 => M::A((0..20).map(|i| M::A((0..20).map(|j| if i == 12 && j == 17 { x.clone() } else { ok(o) }).collect(), o)).collect(), o), _ => { let mut m = x; for _ in 0..9 { m = M::A(vec![m], o); } m } } };
    let ns: Vec<String> = match pos { 0 => vec![idx.to_string()], 1 => vec![key.clone()], 2 => { let mut v = vec!["n".to_string(); idx % 10 + 4]; v.push("leaf".into()); v } 3 => vec![nth_key(41)], 4 => vec!["12".into(), "17".into()], _ => vec!["0".to_string(); 9] };
    let mut f = Figment::new().select("mine");
    for i in 0..20 { f = f.merge(prov::p(&nth_key(i)).put(["default", "other"][if route == 5 { 1 } else { i % 2 }], &nth_key(i), 1u8)); }
    let cfg = |w: bool, p: &str| Cfg(vec![(p.to_string(), at_route(route, vec![("k".to_string(), build(w as usize, w))], w as usize))]);
    let (p, how) = [("default", 0), ("mine", 1), ("global", 0)][choice("profile", 3)];
    let f = if how == 0 { f.merge(cfg(true, p).provider("bad")) } else { f.join(cfg(true, p).provider("bad")).merge(prov::p("zz").put("other", "k", 1u8)) };
    enum Nest { Leaf, More(Box<Nest>) }
    impl<'de> Deserialize<'de> for Nest { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Nest, D::Error> { struct V; impl<'de> serde::de::Visitor<'de> for V { type Value = Nest; fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("a map") } fn visit_map<A: serde::de::MapAccess<'de>>(self, mut m: A) -> Result<Nest, A::Error> { let mut r = Nest::Leaf; while let Some(k) = m.next_key::<String>()? { if k == "leaf" { m.next_value::<u32>()?; } else { r = Nest::More(Box::new(m.next_value()?)); } } Ok(r) } } d.deserialize_map(V) } }
    type V9 = Vec<Vec<Vec<Vec<Vec<Vec<Vec<Vec<Vec<u32>>>>>>>>>;
    macro_rules! go { ($t:ty) => { extract::<$t>(route, &f) } }
    let e = match pos { 0 => go!(Vec<u32>), 1 | 3 => go!(BTreeMap<String, u32>), 2 => go!(Nest), 4 => go!(Vec<Vec<u32>>), _ => go!(V9) };
    // an array in place of the innermost element of arrays is itself one more level
    let e = match e { Some(e) => e, None => { check(false, "extraction of an offending value succeeded"); return } };
    reach("scaled");
    let mut path = route_path(route); path.push("k".into()); path.extend(ns);
    check(e.path.len() == path.len() && e.path.iter().zip(&path).all(|(a, b)| same(a.as_bytes(), b.as_bytes())), "path of the error");
    check(e.metadata.as_ref().map_or(false, |m| m.name == "bad") && e.profile.as_ref().map_or(false, |q| *q == p), "metadata or profile of the error");
    check(kind.map_or(true, |k| same_kind(&k, &e.kind)) && e.count() == 1, "kind of the error");
}
#[derive(Deserialize)] struct Nothing;
/// one faulty element of a sequence that two providers supply, of every kind and for many types
fn elements() {
    let (kind, ty, lossy) = (choice("kind", KINDS + 2), choice("type", 16), flip("lossy"));
    let (lens, o) = ([(1, 1), (0, 2), (2, 1), (1, 2)][choice("lens", 4)], [Op::Adjoin, Op::Admerge][choice("op", 2)]);
    let (at, p) = (choice("at", (lens.0 + lens.1) as u8), ["default", "mine", "global"][choice("profile", 3)]);
    let owner = if at < lens.0 { 0 } else { 1 };
    let bad = |o: usize| match kind { 9 => M::A(vec![], o), 10 => dm(vec![("q", M::S(S::Unit, o))], o), k => M::S(scalar("v", k), o) };
    macro_rules! go { ($t:ty, $good:expr) => {{
        let good = |o: usize| -> M { let m: fn(usize) -> M = $good; m(o) };
        let side = |from: usize, n: usize, o: usize| M::A((0..n).map(|i| if from + i == at { bad(o) } else { good(o) }).collect(), o);
        let (a, b) = (side(0, lens.0, 0), side(lens.0, lens.1, 1));
        // the same fault alone, supplied by one provider
        let bare = match &(if owner == 0 { &a } else { &b }) { M::A(v, _) => v[at - if owner == 0 { 0 } else { lens.0 }].clone(), _ => return };
        let alone = Figment::from(Cfg::default().put(p, "k", bare).provider("alone")).select("mine");
        let f = o.apply(Figment::from(Cfg::default().put(p, "k", a).provider("p0")), Cfg::default().put(p, "k", b).provider("p1")).select("mine");
        let (x, y) = if lossy { (alone.extract_inner_lossy::<$t>("k").err(), f.extract_inner_lossy::<Vec<$t>>("k").err()) } else { (alone.extract_inner::<$t>("k").err(), f.extract_inner::<Vec<$t>>("k").err()) };
        (x, y)
    }} }
    let (x, y) = match ty {
        0 => go!(Plain, |o| M::S(S::Str(b"One".to_vec()), o)), 1 => go!(En, |o| dm(vec![("Newtype", M::S(S::U32(1), o))], o)), 2 => go!(bool, |o| M::S(S::Bool(true), o)), 3 => go!(i8, |o| M::S(S::U32(1), o)), 4 => go!(f64, |o| M::S(S::U32(1), o)), 5 => go!(char, |o| M::S(S::Char(b'c'), o)),
        6 => go!(String, |o| M::S(S::Str(vec![]), o)), 7 => go!((), |o| M::S(S::Unit, o)), 8 => go!(Nothing, |o| M::S(S::Unit, o)), 9 => go!(Vec<u8>, |o| M::A(vec![], o)), 10 => go!((u8, u8), |o| M::A(vec![M::S(S::U32(1), o), M::S(S::U32(2), o)], o)), 11 => go!(Tagged<u8>, |o| M::S(S::U32(1), o)),
        12 => go!(Option<u8>, |o| M::S(S::U32(1), o)), 13 => go!(Strict, |o| dm(vec![("a", M::S(S::U32(1), o))], o)), 14 => go!(New<Option<u64>>, |o| M::S(S::U32(1), o)), _ => go!(BTreeMap<String, u8>, |o| dm(vec![("a", M::S(S::U32(1), o))], o)),
    };
    match (x, y) {
        (None, None) => {}
        (Some(x), Some(y)) => {
            reach("elements");
            let i = at.to_string();
            check(y.path.len() == x.path.len() + 1 && y.path[0] == "k" && y.path[1] == i && y.path[2..] == x.path[1..], "path of an element's error");
            check(x.path.first().map_or(false, |k| k == "k") && x.metadata.map_or(false, |m| m.name == "alone") && x.profile.map_or(false, |q| q == p), "attribution of an error");
            check(y.metadata.map_or(false, |m| m.name == ["p0", "p1"][owner]) && y.profile.map_or(false, |q| q == p), "attribution of an element's error");
            check(std::mem::discriminant(&x.kind) == std::mem::discriminant(&y.kind), "kind of an element's error");
        }
        _ => check(false, "an element fails only alone or only in a sequence"),
    }
}
/// one fault anywhere in a value of any type of up to three constructors
fn types() {
    use sym::dynty::{self, Dyn, Ty};
    let n = choice("depth", tier(4, 5) as u8);
    let t = dynty::around(n, [Ty::U16, Ty::Str, Ty::Unit, Ty::Bool][if n < 3 { choice("base", 4) } else { 0 }].clone());
    dynty::set(&t);
    let x = dynty::make(&t, true);
    let good = match Value::serialize(Dyn(x.clone())) { Ok(v) => v, Err(_) => { check(false, "cannot be serialized"); return } };
    let all = dynty::positions(&t, &x);
    let at = &all[choice("at", all.len() as u8)];
    let gone = at.field && flip("gone");
    let b = bool("v");
    let bad = if gone { None } else if *at.ty == Ty::Bool { Some(Value::from(Vec::<u8>::new())) } else { Some(Value::from(b)) };
    let prof = if n < 3 { ["default", "mine", "global"][choice("profile", 3)] } else { "mine" };
    let whole = at.path.iter().any(|k| k.as_bytes()[0].is_ascii_digit()) || gone;
    // the faulty provider supplies everything, or the fault alone
    let f = if whole || flip("whole") { Figment::new().join(prov::p("bad").put(prof, "k", dynty::replace(good.clone(), &at.path, &bad))).join(prov::p("good").put(prof, "j", good)) }
    else {
        let mut part = bad.clone().unwrap(); for k in at.path.iter().rev() { part = Value::from([(k.clone(), part)].into_iter().collect::<figment::value::Dict>()); }
        Figment::new().join(prov::p("bad").put(prof, "k", part)).join(prov::p("good").put(prof, "k", good))
    };
    let f = f.select("mine");
    let e = match if n < 3 { choice("route", 4) } else { 0 } { 0 => f.extract_inner::<Dyn>("k"), 1 => f.extract_inner_lossy::<Dyn>("k"), 2 => f.extract::<Top<Dyn>>().map(|t| t.k), _ => f.merge(prov::p("late").put(if prof == "default" { "other" } else { "default" }, "k", 1u8).put("default", "z", 1u8)).extract_inner::<Dyn>("k") };
    let e = match e { Err(e) => e, Ok(_) => { check(false, "extraction of an offending value succeeded"); return } };
    reach("types");
    let mut path = vec!["k".to_string()]; path.extend(at.path.iter().cloned()); if gone { path.pop(); }
    check(e.path.len() == path.len() && e.path.iter().zip(&path).all(|(a, b)| same(a.as_bytes(), b.as_bytes())), "path of the error");
    check(e.metadata.map_or(false, |m| m.name == "bad"), "metadata of the error");
    check(e.profile.map_or(false, |p| p == prof), "profile of the error");
    check(match &e.kind { Kind::MissingField(f) => gone && *f == at.path[at.path.len() - 1], Kind::InvalidType(Actual::Bool(x), _) => !gone && *x == b && *at.ty != Ty::Bool, Kind::InvalidType(Actual::Seq, _) => !gone && *at.ty == Ty::Bool, _ => false }, "kind of the error");
}
fn body() { match choice("part", 7) { 5 => types(), 0 => positions(), 1 => ranges(), 2 => structure(), 3 => mixed(), 4 => elements(), _ => scaled() } }
entry!(body);

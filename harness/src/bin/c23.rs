// C23: tagged, raw and either-extraction.
use figment::providers::Serialized;
use figment::value::magic::{Either, RelativePathBuf, Tagged};
use figment::value::{Dict, Value};
use figment::{Error, Figment};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use sym::model::*;
use sym::*;

const NAMES: [&str; 3] = ["p0", "p1", "p2"];
#[allow(non_camel_case_types)]
#[derive(Deserialize, Serialize, PartialEq, Clone, Debug)]
enum En { A, a(u32), S { a: u32 } }
#[derive(Deserialize, Serialize, PartialEq, Clone, Debug)]
struct Opt { a: Option<u32> }

/// tags compare by provider only: the profile matters as well
fn same_tag(a: figment::value::Tag, b: figment::value::Tag) -> bool { a == b && a.profile() == b.profile() }
/// two providers: which one supplied what is known
fn two() -> (Figment, Tree) {
    let (mut c, mut d) = (Cfg::default(), Cfg::default());
    if let Some(m) = slot("k", 0, 1, &[0, 1, 2]) { c = c.put("default", "k", m); }
    match choice("over", 6) { 0 => {} 4 => d = d.put("default", "k", M::A(vec![M::S(scalar("w", 0), 1), M::S(scalar("w", 0), 1)], 1)), 5 => d = d.put("default", "k", M::D(vec![("a".into(), M::S(scalar("w", 0), 1)), ("c".into(), M::S(scalar("w", 0), 1))], 1)), 1 => d = d.put("default", "k", M::S(scalar("w", 0), 1)), 2 => d = d.put("global", "k", M::D(vec![("a".into(), M::S(scalar("w", 0), 1))], 1)), _ => d = d.put("mine", "k", M::A(vec![M::S(scalar("w", 1), 1)], 1)) }
    let o = if THOROUGH { op("op") } else { [Op::Merge, Op::Adjoin][choice("op", 2)] };
    let f = o.apply(Figment::new().merge(c.provider("p0")), d.provider("p1")).select("mine");
    (f, c.combine(&d, o).effective("mine"))
}
fn of(f: &Figment, v: &figment::value::Tag, o: usize) -> bool { f.get_metadata(*v).map_or(false, |m| m.name == NAMES[o]) }
fn owner(m: &M) -> Option<usize> { match m { M::S(_, o) => Some(*o), M::A(v, o) => if v.iter().all(|x| owner(x) == Some(*o)) { Some(*o) } else { None }, M::D(v, o) => if v.iter().all(|(_, x)| owner(x) == Some(*o)) { Some(*o) } else { None } } }

fn both<T: DeserializeOwned + PartialEq>(f: &Figment, m: Option<&M>) {
    for lossy in [false, true] {
        let (a, b): (Result<T, Error>, Result<Tagged<T>, Error>) = if lossy { (f.extract_inner_lossy("k"), f.extract_inner_lossy("k")) } else { (f.extract_inner("k"), f.extract_inner("k")) };
        match (a, b) {
            (Ok(a), Ok(b)) => {
                reach("tagged");
                let t = b.tag();
                check(a == *b, "the tagged value differs");
                check(f.find_value("k").map_or(false, |v| same_tag(v.tag(), t)), "the tag is not the value's");
                if let Some(o) = m.and_then(owner) { check(of(f, &t, o), "the tag leads to another provider"); }
                check(a == b.into_inner(), "inner value");
            }
            (Err(a), Err(b)) => { reach("neither"); check(a.path == b.path && a.kind == b.kind && a.metadata == b.metadata && a.profile == b.profile, "the tagged error differs"); }
            (a, _) => check(false, if a.is_ok() { "only the plain form extracts" } else { "only the tagged form extracts" }),
        }
    }
}
fn tagged() {
    let (f, t) = two();
    let m = get(&t, "k");
    match choice("type", 10) {
        0 => both::<u32>(&f, m), 1 => both::<String>(&f, m), 2 => both::<bool>(&f, m), 3 => both::<Vec<u32>>(&f, m), 4 => both::<Option<u32>>(&f, m), 5 => both::<BTreeMap<String, Value>>(&f, m),
        6 => both::<En>(&f, m), 7 => both::<Value>(&f, m), 8 => both::<Opt>(&f, m), _ => both::<Tagged<Vec<u32>>>(&f, m),
    }
}
/// wrappers below the top: in sequences, maps, options, fields and twice
fn nested() {
    let (f, t) = two();
    let m = get(&t, "k");
    #[derive(Deserialize)] struct S { a: Tagged<u32>, b: Option<Tagged<Value>> }
    let ok = |m: &M, v: u32, t: figment::value::Tag| match m { M::S(S2::U32(x), o) => *x == v && of(&f, &t, *o), _ => false };
    match choice("type", 5) {
        0 => if let Ok(v) = f.extract_inner::<Vec<Tagged<u32>>>("k") { reach("below"); match m { Some(M::A(a, _)) => check(a.len() == v.len() && a.iter().zip(&v).all(|(a, v)| ok(a, **v, v.tag())), "tagged elements"), _ => check(false, "not a sequence") } },
        1 => if let Ok(v) = f.extract_inner::<BTreeMap<String, Tagged<u32>>>("k") { reach("below"); match m { Some(M::D(d, _)) => check(d.len() == v.len() && d.iter().all(|(k, a)| v.get(k).map_or(false, |v| ok(a, **v, v.tag()))), "tagged map values"), _ => check(false, "not a map") } },
        2 => match (f.extract_inner::<Option<Tagged<u32>>>("k"), f.extract_inner::<Option<u32>>("k")) { (Ok(Some(a)), Ok(b)) => { reach("below"); check(Some(*a) == b && m.map_or(false, |m| ok(m, *a, a.tag())), "tagged option") } (Ok(None), b) => check(b == Ok(None), "absent"), (a, b) => check(a.is_err() && b.is_err(), "tagged option error") },
        3 => if let Ok(s) = f.extract_inner::<S>("k") { reach("below"); let d = m.unwrap(); if matches!(d, M::A(..)) { return; /* serde reads structs from sequences by position */ } check(ok(d.get("a").unwrap(), *s.a, s.a.tag()), "tagged field"); match (s.b, d.get("b")) { (Some(v), Some(b)) => check(b.agrees(&v) && b.attributed(&v, &|o, v| of(&f, &v.tag(), o)) && owner(b).map_or(true, |o| of(&f, &v.tag(), o)), "tagged optional field"), (None, None) => {} _ => check(false, "optional field") } },
        _ => if let Ok(t) = f.extract_inner::<Tagged<Tagged<u32>>>("k") { reach("below"); check(same_tag(t.tag(), t.clone().into_inner().tag()), "twice tagged"); },
    }
}
use sym::model::S as S2;
/// raw values: equal, with every nested tag
fn raw() {
    let (f, t) = two();
    let keeps = |m: &M, v: &Value| m.agrees(v) && m.attributed(v, &|o, v| of(&f, &v.tag(), o));
    #[derive(Deserialize)] struct R { k: Value }
    #[derive(Deserialize)] struct O { k: Option<Value> }
    let lossy = flip("lossy");
    fn get<T: DeserializeOwned>(f: &Figment, l: bool) -> Result<T, Error> { if l { f.extract_lossy() } else { f.extract() } }
    let k = t.iter().find(|e| e.0 == "k").map(|e| &e.1);
    reach("raw");
    match choice("as", 5) {
        0 => { let v: Value = get(&f, lossy).expect("raw"); let d = v.as_dict().unwrap(); check(tree_agrees(&t, d), "raw value differs"); check(tree_attributed(&t, d, &|o, v| of(&f, &v.tag(), o)), "raw value tags"); }
        1 => { let d: Dict = get(&f, lossy).expect("raw"); check(tree_agrees(&t, &d), "raw value differs"); check(tree_attributed(&t, &d, &|o, v| of(&f, &v.tag(), o)), "raw value tags"); }
        2 => match get::<R>(&f, lossy) { Ok(r) => check(k.map_or(false, |m| keeps(m, &r.k)), "raw field"), Err(_) => check(k.is_none(), "raw field failed") },
        3 => match get::<O>(&f, lossy) { Ok(r) => check(match (k, &r.k) { (Some(m), Some(v)) => keeps(m, v), (None, None) => true, _ => false }, "raw optional field"), Err(_) => check(false, "raw optional field failed") },
        _ => match if lossy { f.extract_inner_lossy::<Vec<Value>>("k") } else { f.extract_inner("k") } { Ok(v) => match k { Some(M::A(a, _)) => check(a.len() == v.len() && a.iter().zip(&v).all(|(a, v)| keeps(a, v)), "raw elements"), _ => check(false, "not a sequence") }, Err(_) => check(!matches!(k, Some(M::A(..))), "raw elements failed") },
    }
}
/// every kind of value, alone and inside
fn kinds() -> Figment {
    let x = match choice("kind", KINDS + 2) { 9 => M::A(vec![], 0), 10 => M::D(vec![], 0), k => { let s = scalar("v", k); if let S2::F64(b) = s { assume(!f64::from_bits(b).is_nan()); } M::S(s, 0) } };
    let x = match choice("in", 5) { 0 => x, 1 => M::A(vec![x], 0), 2 => M::D(vec![("a".into(), x)], 0), 3 => M::A(vec![M::S(scalar("w", 0), 0), x], 0), _ => M::D(vec![("a".into(), M::S(scalar("w", 0), 0)), ("b".into(), x)], 0) };
    Figment::from(Cfg::default().put(["default", "mine"][choice("profile", 2)], "k", x).provider("p0")).select("mine")
}
fn choose<A: figment::value::magic::Magic, B: DeserializeOwned>(f: &Figment, ea: impl Fn(&A, &A) -> bool, eb: impl Fn(&B, &B) -> bool) {
    let (a, b, e) = (f.extract_inner::<A>("k"), f.extract_inner::<B>("k"), f.extract_inner::<Either<A, B>>("k"));
    match (a, b, e) {
        (Ok(a), _, Ok(Either::Left(x))) => { reach("left"); check(ea(&a, &x), "the left value differs"); }
        (Err(_), Ok(b), Ok(Either::Right(x))) => { reach("right"); check(eb(&b, &x), "the right value differs"); }
        (Err(_), Err(_), Err(_)) => reach("both fail"),
        (Ok(_), _, _) => check(false, "the left form was not chosen"),
        (_, _, Ok(_)) => check(false, "a form was chosen that does not extract"),
        _ => check(false, "a form that extracts was not chosen"),
    }
}
fn either() {
    let f = if flip("kinds") { kinds() } else { two().0 };
    let te = |a: &Tagged<u32>, b: &Tagged<u32>| **a == **b && same_tag(a.tag(), b.tag());
    let pe = |a: &RelativePathBuf, b: &RelativePathBuf| a.original() == b.original() && a.relative() == b.relative();
    fn eq<T: PartialEq>(a: &T, b: &T) -> bool { a == b }
    match choice("type", 13) {
        6 => choose::<Tagged<u32>, Value>(&f, te, eq), 7 => choose::<RelativePathBuf, Value>(&f, pe, eq), 8 => choose::<RelativePathBuf, Option<u32>>(&f, pe, eq), 9 => choose::<Tagged<u32>, ()>(&f, te, eq), 10 => choose::<RelativePathBuf, char>(&f, pe, eq), 11 => choose::<Tagged<u32>, En>(&f, te, eq), 12 => choose::<Tagged<u32>, Vec<Option<Value>>>(&f, te, eq),
        0 => choose::<Tagged<u32>, String>(&f, te, eq),
        1 => choose::<Tagged<u32>, BTreeMap<String, Value>>(&f, te, eq),
        2 => choose::<RelativePathBuf, Vec<u32>>(&f, pe, eq),
        3 => choose::<Tagged<Vec<u32>>, Value>(&f, |a, b| **a == **b && same_tag(a.tag(), b.tag()), eq),
        4 => choose::<Tagged<bool>, Option<u32>>(&f, |a, b| **a == **b && same_tag(a.tag(), b.tag()), eq),
        _ => choose::<RelativePathBuf, bool>(&f, pe, eq),
    }
}
/// a tagged value that is serialized back keeps its tag and value
fn again() {
    let (f, t) = two();
    let x = match f.extract_inner::<Tagged<Value>>("k") { Ok(x) => x, Err(_) => { check(get(&t, "k").is_none(), "raw tagged value failed"); return } };
    let tag = x.tag();
    reach("again");
    let g = f.clone().merge(Serialized::global("k2", &x)).merge(Serialized::global("k3", vec![&x]));
    let m = get(&t, "k").unwrap();
    let y = g.extract_inner::<Tagged<Value>>("k2");
    check(y.map_or(false, |y| same_tag(y.tag(), tag) && m.agrees(&y)), "a serialized tagged value changed");
    let y = g.extract_inner::<Vec<Tagged<Value>>>("k3");
    check(y.map_or(false, |y| y.len() == 1 && same_tag(y[0].tag(), tag) && m.agrees(&y[0])), "a serialized tagged element changed");
    let fresh = Figment::from(Serialized::default("k", Tagged::from(7u32)));
    let y = fresh.extract_inner::<Tagged<u32>>("k").expect("fresh");
    check(*y == 7 && fresh.get_metadata(y.tag()).is_some() && same_tag(y.tag(), fresh.find_value("k").unwrap().tag()), "a default-tagged value takes the provider's tag");
}
/// long and deep values, from many providers
fn scaled() {
    let (w, over) = (choice("large", LARGE), choice("over", 3));
    let o = [Op::Merge, Op::Adjoin][choice("op", 2)];
    let c = Cfg::default().put("default", "k", large(w, 0, 0));
    let d = if over == 0 { Cfg::default() } else { Cfg::default().put(["default", "mine"][over - 1], "k", large(w, 1, 1)) };
    let f = o.apply(Figment::new().merge(c.provider("p0")), d.provider("p1")).select("mine");
    let t = c.combine(&d, o).effective("mine");
    let m = get(&t, "k").unwrap();
    let keeps = |v: &Value| m.agrees(v) && m.attributed(v, &|o, v| of(&f, &v.tag(), o));
    reach("scaled");
    match choice("as", 5) {
        0 => both::<Value>(&f, Some(m)),
        1 => { let v: Value = f.extract_inner("k").expect("raw"); check(keeps(&v), "raw value differs"); let v: Value = f.extract_inner_lossy("k").expect("raw"); check(keeps(&v), "raw value differs"); }
        2 => { let x: Tagged<Value> = f.extract_inner("k").expect("tagged"); check(keeps(&x), "tagged raw value differs"); }
        3 => match f.extract_inner::<Vec<Tagged<Value>>>("k") { Ok(v) => match m { M::A(a, _) => check(a.len() == v.len() && a.iter().zip(&v).all(|(a, v)| a.agrees(v) && a.attributed(v, &|o, v| of(&f, &v.tag(), o)) && owner(a).map_or(true, |o| of(&f, &v.tag(), o))), "tagged elements"), _ => check(false, "not a sequence") }, Err(_) => check(!matches!(m, M::A(..)), "tagged elements failed") },
        _ => match f.extract_inner::<BTreeMap<String, Tagged<Value>>>("k") { Ok(v) => match m { M::D(d, _) => check(d.len() == v.len() && d.iter().all(|(k, a)| v.get(k).map_or(false, |v| a.agrees(v) && a.attributed(v, &|o, v| of(&f, &v.tag(), o)) && owner(a).map_or(true, |o| of(&f, &v.tag(), o)))), "tagged map values"), _ => check(false, "not a map") }, Err(_) => check(!matches!(m, M::D(..)), "tagged map failed") },
    }
}
fn body() { match choice("part", 6) { 0 => tagged(), 1 => nested(), 2 => raw(), 3 => either(), 4 => again(), _ => scaled() } }
entry!(body);
vfs_exports!();

// C25: the boolean and ordered-map helpers.
use figment::error::{Actual, Kind};
use figment::providers::{Json, Format, Serialized};
use figment::value::{Dict, Num, Value};
use figment::Figment;
use serde::{Deserialize, Serialize};
use sym::model::*;
use sym::*;

#[derive(Deserialize)]
struct B { #[serde(deserialize_with = "figment::util::bool_from_str_or_int")] k: bool }
#[derive(Deserialize, Serialize, PartialEq, Debug)]
struct T { #[serde(with = "figment::util::vec_tuple_map")] k: Vec<(String, u32)> }

fn low(b: u8) -> u8 { b | (((b >= b'A') & (b <= b'Z')) as u8) << 5 }
fn word_is(s: &[u8], w: &str) -> bool { if s.len() != w.len() { return false; } let mut ok = true; for i in 0..s.len() { ok &= low(s[i]) == w.as_bytes()[i]; } ok }
fn expect(v: Value, want: Option<bool>) {
    let how = choice("how", 3);
    let got = match how { 0 => Figment::from(("k", v)).extract::<B>(), 1 => Figment::from(("k", v)).extract_lossy::<B>(), _ => { let mut d = Dict::new(); d.insert("k".into(), v); Value::from(d).deserialize::<B>() } };
    match (got, want) {
        (Ok(b), Some(w)) => { reach("accepted"); check(b.k == w, "another boolean"); }
        (Err(e), None) => { reach("rejected"); check(matches!(e.kind, Kind::InvalidType(..) | Kind::InvalidValue(..)), "kind of the error"); check(e.path == ["k"], "path of the error"); }
        (Ok(_), None) => check(false, "a value that is no boolean was accepted"),
        (Err(_), Some(_)) => check(false, "a documented form was rejected"),
    }
}
fn texts() {
    let s = match choice("form", 3) {
        0 => ascii("s", 0, tier(6, 8)),
        1 => text({ let mut v = utf8("s", 2); v.extend(if flip("w") { &b"rue"[..] } else { &b""[..] }); v }),
        _ => { let w = ["true", "false"][choice("word", 2)]; let mut v: Vec<u8> = w.bytes().collect(); let i = choice("at", 5); if i < v.len() { v[i] = ascii_n("c", 1).as_bytes()[0]; } else { v.push(ascii_n("c", 1).as_bytes()[0]); } text(v) }
    };
    let (t, f) = (word_is(s.as_bytes(), "true"), word_is(s.as_bytes(), "false"));
    expect(Value::from(s), if t { Some(true) } else if f { Some(false) } else { None });
}
fn numbers() {
    macro_rules! int { ($t:ty, $x:expr) => { { let x = $x as $t; expect(Value::from(x), if x == 0 { Some(false) } else if x == 1 { Some(true) } else { None }) } } }
    match choice("kind", 14) {
        0 => int!(u8, u8("x")), 1 => int!(u16, u16("x")), 2 => int!(u32, u32("x")), 3 => int!(u64, u64("x")), 4 => int!(u128, u128("x")), 5 => int!(usize, u64("x")),
        6 => int!(i8, u8("x")), 7 => int!(i16, u16("x")), 8 => int!(i32, u32("x")), 9 => int!(i64, u64("x")), 10 => int!(i128, u128("x")), 11 => int!(isize, u64("x")),
        12 => expect(Value::from(Num::F64(f64::from_bits(u64("x")))), None), _ => expect(Value::from(Num::F32(f32::from_bits(u32("x")))), None),
    }
}
fn others() {
    match choice("kind", 6) {
        0 => { let b = bool("x"); expect(Value::from(b), Some(b)) }
        1 => expect(Value::from(ascii_n("x", 1).as_bytes()[0] as char), None),
        2 => expect(M::S(scalar("x", 3), 0).value(), None), 3 => expect(M::S(scalar("x", 4), 0).value(), None),
        4 => expect(Value::from(vec![1u8]), None), _ => expect(Value::from(figment::util::map!["a" => 1u8]), None),
    }
}
/// absent and misplaced
fn absent() { let r = Figment::new().extract::<B>(); check(r.map_err(|e| e.missing()).err() == Some(true), "an absent boolean"); let _: Actual = Actual::Unit; reach("absent"); }

fn pairs() {
    let n = choice("n", tier(4, 5) as u8);
    let mut v: Vec<(String, u32)> = vec![];
    for _ in 0..n { let k = if flip("empty") { String::new() } else { ascii_n("k", 1) }; for (o, _) in &v { assume(!same(o.as_bytes(), k.as_bytes())); } v.push((k, u32("x"))); }
    let t = T { k: v };
    // into a map with the same associations
    let val = Value::serialize(&t).expect("serializes");
    let d = val.as_dict().unwrap().get("k").unwrap();
    let d = match d { Value::Dict(_, d) => d, _ => { check(false, "not a map"); return } };
    reach("pairs");
    let mut ok = d.len() == t.k.len();
    for (k, x) in &t.k { ok &= matches!(d.get(k), Some(Value::Num(_, Num::U32(y))) if y == x); }
    check(ok, "associations of the map");
    // and back
    let back = match choice("how", 3) { 0 => val.deserialize::<T>(), 1 => Figment::from(Serialized::defaults(&t)).extract::<T>(), _ => Figment::from(Serialized::default("k", d)).extract_lossy::<T>() };
    match back {
        Ok(b) => { let mut ok = b.k.len() == t.k.len(); for (k, x) in &t.k { let mut found = false; for (l, y) in &b.k { found |= same(k.as_bytes(), l.as_bytes()) && x == y; } ok &= found; } check(ok, "pairs read back"); let mut sorted = true; for w in b.k.windows(2) { sorted &= w[0].0 < w[1].0; } check(sorted, "pairs in key order"); }
        Err(_) => check(false, "pairs cannot be read back"),
    }
}
/// other shapes are errors, as is a wrong element
fn shapes() {
    let v = match choice("v", 5) { 0 => Value::from(u32("x")), 1 => Value::from(vec![1u8, 2]), 2 => Value::from(ascii_n("s", 2)), 3 => Value::from(figment::util::map!["a" => Value::from(1u8), "b" => Value::from("x")]), _ => Value::from(figment::value::Empty::Unit) };
    let bad = Figment::from(("k", v)).extract::<T>();
    reach("shapes");
    check(bad.is_err(), "a value that is no map of numbers was accepted");
    let src = Figment::from(Json::string("{\"k\": {\"b\": 2, \"a\": 1}}"));
    check(src.extract::<T>() == Ok(T { k: vec![("a".into(), 1), ("b".into(), 2)] }), "from a source");
}
/// many pairs, long keys, and long texts that are no booleans
fn scaled() {
    let n = [8, 20, 40][choice("n", 3)];
    if flip("bool") { let mut s = ["true", "false", "1"][choice("w", 3)].repeat(n); s.push_str(&ascii_n("c", 1)); let s = if flip("pad") { format!("{}{}", " ".repeat(n), "true") } else { s }; return expect(Value::from(s), None); }
    let mut v: Vec<(String, u32)> = (0..n).map(|i| { let mut k = nth_key((i * 7 + 3) % n); if i == 5 { k.push_str(&"long".repeat(20)); } if i == 6 { k.push_str(&ascii_n("k", 1)); } (k, if i % 9 == 0 { u32("x") } else { i as u32 }) }).collect();
    // distinct keys: 7 and n are coprime except for multiples of 7
    v.dedup_by(|a, b| a.0 == b.0);
    let t = T { k: v };
    let val = Value::serialize(&t).expect("serializes");
    let d = match val.as_dict().unwrap().get("k").unwrap() { Value::Dict(_, d) => d, _ => { check(false, "not a map"); return } };
    let mut ok = d.len() == t.k.len();
    for (k, x) in &t.k { ok &= matches!(d.get(k), Some(Value::Num(_, Num::U32(y))) if y == x); }
    reach("scaled");
    check(ok, "associations of a long map");
    match Figment::from(Serialized::defaults(&t)).extract::<T>() {
        Ok(b) => { let mut ok = b.k.len() == t.k.len(); for (k, x) in &t.k { ok &= b.k.iter().any(|(l, y)| same(k.as_bytes(), l.as_bytes()) && x == y); } for w in b.k.windows(2) { ok &= w[0].0 < w[1].0; } check(ok, "many pairs read back in key order"); }
        Err(_) => check(false, "many pairs cannot be read back"),
    }
}
fn body() { match choice("part", 7) { 0 => texts(), 1 => numbers(), 2 => others(), 3 => absent(), 4 => pairs(), 5 => shapes(), _ => scaled() } }
entry!(body);
vfs_exports!();

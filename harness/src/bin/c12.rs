// C12: serialize, store, deserialize is the identity.
use figment::providers::Serialized;
use figment::value::{Num, Value};
use figment::Figment;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use sym::model::*;
use sym::*;

#[derive(Serialize, Deserialize, PartialEq, Clone, Copy)]
struct Unit;
#[derive(Serialize, Deserialize, PartialEq, Clone)]
struct New<T>(T);
#[derive(Serialize, Deserialize, PartialEq, Clone)]
struct Tup<T>(T, u8);
#[derive(Serialize, Deserialize, PartialEq, Clone)]
struct Rec<T> { first: T, second: Option<T>, n: u8 }
#[derive(Serialize, Deserialize, PartialEq, Clone)]
enum En<T> { Nothing, Newtype(T), Pair(T, u8), Fields { x: T, y: u8 }, Empty {}, None0() }
#[derive(Serialize, Deserialize, PartialEq, Clone)]
struct Top<T> { k: T }
#[derive(Serialize, Deserialize, PartialEq, Clone, Copy)]
enum Flat { One, Two, A }

/// equality that treats floats by their bits
trait Same { fn same(&self, o: &Self) -> bool; }
macro_rules! eq { ($($t:ty),*) => { $(impl Same for $t { fn same(&self, o: &Self) -> bool { self == o } })* } }
eq!(bool, char, u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, (), Unit, Flat);
impl Same for usize { fn same(&self, o: &Self) -> bool { self == o } }
impl Same for isize { fn same(&self, o: &Self) -> bool { self == o } }
impl Same for f32 { fn same(&self, o: &Self) -> bool { (self.to_bits() == o.to_bits()) | (self.is_nan() & o.is_nan()) } }
impl Same for f64 { fn same(&self, o: &Self) -> bool { (self.to_bits() == o.to_bits()) | (self.is_nan() & o.is_nan()) } }
impl Same for String { fn same(&self, o: &Self) -> bool { sym::same(self.as_bytes(), o.as_bytes()) } }
impl<T: Same> Same for Option<T> { fn same(&self, o: &Self) -> bool { match (self, o) { (Some(a), Some(b)) => a.same(b), (None, None) => true, _ => false } } }
impl<T: Same> Same for Vec<T> { fn same(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.same(b)) } }
impl<T: Same, U: Same> Same for (T, U) { fn same(&self, o: &Self) -> bool { self.0.same(&o.0) && self.1.same(&o.1) } }
impl<T: Same> Same for [T; 2] { fn same(&self, o: &Self) -> bool { self[0].same(&o[0]) && self[1].same(&o[1]) } }
impl<T: Same> Same for BTreeMap<String, T> { fn same(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.0.same(b.0) && a.1.same(b.1)) } }
impl<T: Same> Same for New<T> { fn same(&self, o: &Self) -> bool { self.0.same(&o.0) } }
impl<T: Same> Same for Top<T> { fn same(&self, o: &Self) -> bool { self.k.same(&o.k) } }
impl<T: Same> Same for Tup<T> { fn same(&self, o: &Self) -> bool { self.0.same(&o.0) && self.1 == o.1 } }
impl<T: Same> Same for Rec<T> { fn same(&self, o: &Self) -> bool { self.first.same(&o.first) && self.second.same(&o.second) && self.n == o.n } }
impl<T: Same> Same for En<T> { fn same(&self, o: &Self) -> bool { match (self, o) { (En::Nothing, En::Nothing) | (En::Empty {}, En::Empty {}) | (En::None0(), En::None0()) => true, (En::Newtype(a), En::Newtype(b)) => a.same(b), (En::Pair(a, x), En::Pair(b, y)) => a.same(b) && x == y, (En::Fields { x: a, y: x }, En::Fields { x: b, y }) => a.same(b) && x == y, _ => false } } }

/// identical values: kinds, contents; floats by bits
fn vsame(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Num(_, Num::F32(x)), Value::Num(_, Num::F32(y))) => x.same(y),
        (Value::Num(_, Num::F64(x)), Value::Num(_, Num::F64(y))) => x.same(y),
        (Value::Array(_, x), Value::Array(_, y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| vsame(a, b)),
        (Value::Dict(_, x), Value::Dict(_, y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| a.0 == b.0 && vsame(a.1, b.1)),
        _ => a == b,
    }
}
fn rt<T: Serialize + DeserializeOwned + Same>(x: T) {
    let v = match Value::serialize(&x) { Ok(v) => v, Err(_) => { check(false, "cannot be serialized"); return } };
    reach("roundtrip");
    match v.deserialize::<T>() { Ok(y) => check(x.same(&y), "direct round trip changed the value"), Err(_) => check(false, "cannot be read back directly") }
    let f = Figment::from(Serialized::default("k", &x));
    match f.extract_inner::<T>("k") { Ok(y) => check(x.same(&y), "round trip through a figment changed the value"), Err(_) => check(false, "cannot be extracted back") }
    match f.extract_inner::<Value>("k") { Ok(y) => check(vsame(&v, &y), "the stored value is not the serialized value"), Err(_) => check(false, "the value cannot be extracted raw") }
    let f = Figment::new().join(Serialized::globals(Top { k: &x }));
    match f.extract::<Top<T>>() { Ok(y) => check(x.same(&y.k), "round trip inside a struct changed the value"), Err(_) => check(false, "cannot be extracted back from a struct") }
}

fn g_long() -> String { let mut b = vec![b'q'; 200]; b.extend(utf8("v", 1 + choice("w", 2))); text(b) }
/// long and deep structures
fn scaled() {
    match choice("shape", 9) {
        0 => rt((0..70).map(|_| u16("v")).collect::<Vec<_>>()), 1 => rt(g_long()), 2 => rt((0..70).map(|i| (nth_key(i), u8("v"))).collect::<BTreeMap<_, _>>()),
        3 => rt((0..20).map(|i| match i % 4 { 0 => En::Nothing, 1 => En::Newtype(u16("v")), 2 => En::Pair(u16("v"), 1), _ => En::Fields { x: u16("v"), y: 2 } }).collect::<Vec<_>>()),
        4 => rt((0..12).map(|i| Rec { first: (0..i).map(|_| u8("v")).collect::<Vec<_>>(), second: if i % 2 == 0 { Some(vec![]) } else { None }, n: i as u8 }).collect::<Vec<_>>()),
        5 => { let mut m = BTreeMap::new(); m.insert(g_long(), vec![Some(u8("v")); 20]); rt(m) }
        6 => rt(New(New(New(New(New(New(New(New(New(New(vec![u8("v")]))))))))))), 7 => rt(vec![vec![vec![vec![vec![vec![vec![vec![u32("v"), 7]]]]]]]]),
        _ => rt(En::Newtype(En::Newtype(En::Fields { x: En::Newtype(En::Pair(Rec { first: Tup(Some(g_bool()), 1), second: None, n: 9 }, 3)), y: 1 }))),
    }
    reach("scaled");
}
fn g_bool() -> bool { bool("v") }
fn g_char() -> char { match choice("c", 3) { 0 => { let c = u8("v"); assume(c < 128); c as char } 1 => text(utf8("v", 2)).chars().next().unwrap(), _ => text(utf8("v", 4)).chars().next().unwrap() } }
fn g_string() -> String { match choice("s", 4) { 0 => String::new(), 1 => ascii_n("v", 3), 2 => text(utf8("v", 2)), _ => "1".into() } }
/// one wrapper around a base
fn wrap1<T: Serialize + DeserializeOwned + Same + Clone>(g: impl Fn() -> T) {
    match choice("wrap", 13) {
        0 => rt(g()), 1 => rt(Some(g())), 2 => rt(match choice("n", 3) { 0 => vec![], 1 => vec![g()], _ => vec![g(), g()] }), 3 => rt((g(), g())), 4 => { let mut m = BTreeMap::new(); m.insert(ascii("key", 0, 1), g()); if flip("two") { m.insert("zz".into(), g()); } rt(m) }
        5 => rt(New(g())), 6 => rt(Tup(g(), u8("n"))), 7 => rt(Rec { first: g(), second: if flip("some") { Some(g()) } else { None }, n: u8("n") }),
        8 => rt(En::Newtype(g())), 9 => rt(En::Pair(g(), u8("n"))), 10 => rt(En::Fields { x: g(), y: u8("n") }),
        11 => rt(match choice("unit", 3) { 0 => En::Nothing, 1 => En::Empty {}, _ => En::<T>::None0() }), _ => rt([g(), g()]),
    }
}
fn bases() { match choice("base", 3) { 0 => wrap1(|| u16("v")), 1 => wrap1(g_string), _ => wrap1(|| [Flat::One, Flat::Two, Flat::A][choice("variant", 3)]) } }
/// every type of up to three constructors, every presence, length and variant
fn types() {
    let n = choice("depth", tier(4, 5) as u8);
    let t = dynty::any(n, if n < 3 { dynty::BASES.len() } else { 2 });
    dynty::set(&t);
    let x = dynty::make(&t, n > 2 && !flip("short"));
    reach("types");
    rt(dynty::Dyn(x));
}
impl Same for dynty::Dyn { fn same(&self, o: &Self) -> bool { self.0.same(&o.0) } }
fn num(name: &str) -> Num {
    match choice("num", 14) { 0 => Num::U8(u8(name)), 1 => Num::U16(u16(name)), 2 => Num::U32(u32(name)), 3 => Num::U64(u64(name)), 4 => Num::U128(u128(name)), 5 => Num::USize(u64(name) as usize), 6 => Num::I8(u8(name) as i8), 7 => Num::I16(u16(name) as i16), 8 => Num::I32(u32(name) as i32), 9 => Num::I64(u64(name) as i64), 10 => Num::I128(u128(name) as i128), 11 => Num::ISize(u64(name) as isize), 12 => Num::F32(f32::from_bits(u32(name))), _ => Num::F64(f64::from_bits(u64(name))) }
}
/// configuration values are preserved by serialization and extraction
fn values() {
    let v = match choice("sort", 4) { 0 => { let mut t = vec![]; for k in ["a", "b"] { if let Some(m) = slot(k, 0, if k == "a" { 1 } else { 0 }, &[0, 1, 3, 4]) { t.push((k.to_string(), m)); } } M::D(t, 0).value() } 1 => { let n = num("v"); match choice("at", 3) { 0 => Value::from(n), 1 => Value::from(vec![Value::from(n)]), _ => Value::from(figment::util::map!["x" => Value::from(n)]) } }
        2 => M::value(&match (scalar("v", choice("kind", KINDS)), choice("at", 3)) { (s, 0) => M::S(s, 0), (s, 1) => M::A(vec![M::S(s, 0), M::S(S::U32(1), 0)], 0), (s, _) => M::D(vec![("x".into(), M::S(s, 0))], 0) }),
        _ => if flip("wide") { Value::from(text(utf8("c", 2 + choice("w", 3))).chars().next().unwrap()) } else { large(choice("large", LARGE), 0, 0).value() } };
    reach("values");
    // sizes are stored as 64-bit integers, which compare equal
    match Value::serialize(&v) { Ok(w) => check(vsame(&v, &w), "serializing a value changed it"), Err(_) => check(false, "a value cannot be serialized") }
    match v.deserialize::<Value>() { Ok(w) => check(vsame(&v, &w), "deserializing a value as value changed it"), Err(_) => check(false, "a value cannot be deserialized as value") }
    let f = Figment::from(Serialized::default("k", &v));
    match f.extract_inner::<Value>("k") { Ok(w) => check(vsame(&v, &w), "extracting a value changed it"), Err(_) => check(false, "a value cannot be extracted") }
    match f.find_value("k") { Ok(w) => check(vsame(&v, &w), "finding a value changed it"), Err(_) => check(false, "a value cannot be found") }
    match f.extract::<BTreeMap<String, Value>>() { Ok(w) => check(w.len() == 1 && vsame(&v, &w["k"]), "extracting a map of values changed one"), Err(_) => check(false, "a map of values cannot be extracted") }
    match f.extract_inner_lossy::<Value>("k") { Ok(w) => check(vsame(&v, &w), "lossily extracting a value changed it"), Err(_) => check(false, "a value cannot be extracted lossily") }
    let f = Figment::from(prov::p("p").put("default", "k", v.clone()));
    match f.extract_inner::<Vec<Value>>("k") { Ok(w) => check(v.as_array().map_or(false, |a| a.len() == w.len() && a.iter().zip(&w).all(|(x, y)| vsame(x, y))), "extracting an array of values changed one"), Err(_) => check(v.as_array().is_none(), "an array of values cannot be extracted") }
    match f.extract_inner::<Option<Value>>("k") { Ok(Some(w)) => check(vsame(&v, &w), "an optional value changed"), Ok(None) => check(matches!(v, Value::Empty(..)), "an optional value disappeared"), Err(_) => check(false, "an optional value cannot be extracted") }
}

/// the shapes serde's attributes give a type
#[derive(Serialize, Deserialize, PartialEq, Clone)]
enum Skips<T> { One(T, #[serde(skip)] u8), Mid(T, #[serde(skip)] u8, T), Gone(#[serde(skip)] u8, #[serde(skip)] u8), Fld { x: T, #[serde(skip)] y: u8 }, #[serde(rename = "a b")] Ren, #[serde(rename = "7")] Num(T) }
#[derive(Serialize, Deserialize, PartialEq, Clone)]
struct TupSkip<T>(T, #[serde(skip)] u8);
#[derive(Serialize, Deserialize, PartialEq, Clone)]
#[serde(rename_all = "kebab-case", default)]
struct Attr<T: Default> { some_field: T, #[serde(rename = "type")] r: u8, #[serde(skip_serializing_if = "Option::is_none")] o: Option<T>, #[serde(skip)] s: u8, #[serde(with = "hex")] h: u8 }
impl<T: Default> Default for Attr<T> { fn default() -> Self { Attr { some_field: T::default(), r: 3, o: None, s: 0, h: 1 } } }
mod hex { use serde::*; pub fn serialize<S: Serializer>(x: &u8, s: S) -> Result<S::Ok, S::Error> { s.serialize_some(&[*x]) } pub fn deserialize<'a, D: Deserializer<'a>>(d: D) -> Result<u8, D::Error> { <Option<[u8; 1]>>::deserialize(d).map(|x| x.unwrap()[0]) } }
#[derive(Serialize, Deserialize, PartialEq, Clone)]
#[serde(transparent)]
struct Trans<T> { inner: T }
#[derive(Serialize, Deserialize, PartialEq, Clone)]
#[serde(tag = "t")]
enum Inside { A { x: u16 }, B, C(Inner) }
#[derive(Serialize, Deserialize, PartialEq, Clone)]
struct Inner { x: u16, y: Vec<u8> }
#[derive(Serialize, Deserialize, PartialEq, Clone)]
#[serde(tag = "t", content = "c")]
enum Beside<T> { A(T), B, C { x: T }, D(T, u8) }
#[derive(Serialize, Deserialize, PartialEq, Clone)]
#[serde(untagged)]
enum Un { A { x: u16, z: bool }, B(u16), C(Vec<u16>), D(bool, bool), E(char) }
#[derive(Serialize, Deserialize, PartialEq, Clone)]
struct Flatten { a: u16, #[serde(flatten)] rest: Inner, #[serde(flatten)] others: BTreeMap<String, bool> }
#[derive(Serialize, Deserialize, PartialEq, Clone)]
#[serde(from = "(u16, bool)", into = "(u16, bool)")]
struct Conv { a: u16, b: bool }
impl From<(u16, bool)> for Conv { fn from(x: (u16, bool)) -> Self { Conv { a: x.0, b: x.1 } } }
impl From<Conv> for (u16, bool) { fn from(x: Conv) -> Self { (x.a, x.b) } }
macro_rules! eqg { ($($t:ident),*) => { $(impl<T: PartialEq> Same for $t<T> { fn same(&self, o: &Self) -> bool { self == o } })* } }
eqg!(Skips, TupSkip, Trans, Beside); eq!(Inside, Un, Flatten, Conv, (u16, u16, u16), (u16, u16, u16, u16, u16));
impl<T: PartialEq + Default> Same for Attr<T> { fn same(&self, o: &Self) -> bool { self == o } }
impl<T: Same> Same for Box<T> { fn same(&self, o: &Self) -> bool { (**self).same(o) } }
impl<T: Same> Same for std::collections::VecDeque<T> { fn same(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.same(b)) } }
impl<T: Same> Same for std::ops::Range<T> { fn same(&self, o: &Self) -> bool { self.start.same(&o.start) && self.end.same(&o.end) } }
impl<T: Same, E: Same> Same for Result<T, E> { fn same(&self, o: &Self) -> bool { match (self, o) { (Ok(a), Ok(b)) => a.same(b), (Err(a), Err(b)) => a.same(b), _ => false } } }
impl Same for std::path::PathBuf { fn same(&self, o: &Self) -> bool { self == o } }
impl Same for std::time::Duration { fn same(&self, o: &Self) -> bool { self == o } }
impl Same for std::collections::BTreeSet<u8> { fn same(&self, o: &Self) -> bool { self == o } }
impl Same for BTreeMap<u8, u16> { fn same(&self, o: &Self) -> bool { self == o } }
impl Same for std::num::NonZeroU16 { fn same(&self, o: &Self) -> bool { self == o } }
impl Same for std::net::Ipv4Addr { fn same(&self, o: &Self) -> bool { self == o } }
fn wrapped<T: Serialize + DeserializeOwned + Same + Clone>(x: T) { match choice("in", 2) { 0 => rt(x), _ => rt((En::Fields { x: x.clone(), y: 1 }, Rec { first: vec![x.clone()], second: None, n: 2 })) } }
fn attributes() {
    let g = || u16("v");
    match choice("type", 17) {
        0 => wrapped(match choice("variant", 6) { 0 => Skips::One(g(), 0), 1 => Skips::Mid(g(), 0, g()), 2 => Skips::Gone(0, 0), 3 => Skips::Fld { x: g(), y: 0 }, 4 => Skips::Ren, _ => Skips::Num(g()) }),
        1 => wrapped(TupSkip(g(), 0)), 2 => wrapped(Attr { some_field: g(), r: u8("r"), o: if flip("some") { Some(g()) } else { None }, s: 0, h: u8("h") }), 3 => wrapped(Trans { inner: g() }),
        4 => wrapped(match choice("variant", 3) { 0 => Inside::A { x: g() }, 1 => Inside::B, _ => Inside::C(Inner { x: g(), y: vec![u8("y")] }) }),
        5 => wrapped(match choice("variant", 4) { 0 => Beside::A(g()), 1 => Beside::B, 2 => Beside::C { x: g() }, _ => Beside::D(g(), 1) }),
        6 => wrapped(match choice("variant", 5) { 0 => Un::A { x: g(), z: g_bool() }, 1 => Un::B(g()), 2 => Un::C(vec![g(), g()]), 3 => Un::D(true, g_bool()), _ => { let c = u8("c"); assume(c < 128); Un::E(c as char) } }),
        7 => { let mut m = BTreeMap::new(); if flip("more") { m.insert("q".to_string(), g_bool()); } wrapped(Flatten { a: g(), rest: Inner { x: g(), y: vec![] }, others: m }) }
        8 => wrapped(Conv { a: g(), b: g_bool() }), 9 => wrapped((g(), g(), g())), 10 => wrapped((g(), 1u16, g(), 2u16, 3u16)), 11 => wrapped(Box::new(Trans { inner: g() })), 12 => wrapped([g()].into_iter().collect::<std::collections::VecDeque<_>>()),
        13 => wrapped(g()..g()), 14 => wrapped(if flip("ok") { Ok(g()) } else { Err(g_bool()) }), 15 => wrapped(std::path::PathBuf::from(ascii("path", 0, 2))), _ => wrapped(std::time::Duration::new(u32("secs") as u64, 7)),
    }
    reach("attributes");
}
fn body() { match choice("part", 5) { 3 => attributes(), 0 => bases(), 1 => types(), 2 => values(), _ => scaled() } }
entry!(body);

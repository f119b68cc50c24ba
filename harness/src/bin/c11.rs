// C11: lossy extraction.
use figment::value::{Empty, Num, Value};
use figment::{Error, Figment};
use serde::Deserialize;
use sym::prov::p;
use sym::*;

#[derive(Deserialize, PartialEq, Clone)]
struct One<T> { f: T }
#[derive(Deserialize, PartialEq, Clone)]
struct New<T>(T);
#[derive(Deserialize, PartialEq, Clone)]
enum En<T> { Var(T), Rec { f: T } }
#[derive(Deserialize, PartialEq, Clone)]
struct Top<T> { k: T }

const ROUTES: u8 = 12;
/// extract a `T` at one of many positions
fn get<T: for<'a> Deserialize<'a> + Clone + PartialEq>(v: &Value, route: usize, lossy: bool) -> Result<T, Error> {
    let wrap = |v: Value| p("a").put("default", "k", v);
    macro_rules! ex { ($v:expr, $t:ty, $path:expr, $map:expr) => {{ let f = Figment::from(wrap($v)); (if lossy { f.extract_inner_lossy::<$t>($path) } else { f.extract_inner::<$t>($path) }).map($map) }} }
    let dict = |v: &Value| Value::from(figment::util::map!["f" => v.clone()]);
    match route {
        0 => ex!(v.clone(), T, "k", |x| x),
        1 => { let f = Figment::from(wrap(v.clone())); (if lossy { f.extract_lossy::<Top<T>>() } else { f.extract::<Top<T>>() }).map(|x| x.k) }
        2 => ex!(v.clone(), Option<T>, "k", |x| x.expect("some")),
        3 => ex!(Value::from(vec![v.clone()]), Vec<T>, "k", |x| x[0].clone()),
        4 => ex!(dict(v), One<T>, "k", |x| x.f),
        5 => ex!(dict(v), T, "k.f", |x| x),
        6 => ex!(v.clone(), New<T>, "k", |x| x.0),
        7 => ex!(Value::from(figment::util::map!["Var" => v.clone()]), En<T>, "k", |x| match x { En::Var(t) => t, En::Rec { f } => f }),
        8 => ex!(Value::from(figment::util::map!["Rec" => dict(v)]), En<T>, "k", |x| match x { En::Var(t) => t, En::Rec { f } => f }),
        9 => ex!(dict(v), std::collections::BTreeMap<String, T>, "k", |mut x| x.remove("f").unwrap()),
        10 => ex!(v.clone(), figment::value::magic::Tagged<T>, "k", |x| x.into_inner()),
        _ => ex!(Value::from(vec![v.clone(), v.clone()]), (T, T), "k", |x| x.1),
    }
}

fn word_is(s: &[u8], w: &str) -> bool { s.len() == w.len() && { let mut ok = true; for (a, b) in s.iter().zip(w.bytes()) { ok &= a.to_ascii_lowercase() == b; } ok } }
fn bool_of(s: &[u8]) -> Option<bool> { if word_is(s, "true") || word_is(s, "yes") || word_is(s, "1") || word_is(s, "on") { Some(true) } else if word_is(s, "false") || word_is(s, "no") || word_is(s, "0") || word_is(s, "off") { Some(false) } else { None } }

fn string_bools() {
    let s = match choice("text", 3) { 0 => ascii("s", 0, 4), 1 => ascii_n("s", 5), _ => return foreign_bools() };
    let r = choice("route", ROUTES);
    let v = Value::from(s.clone());
    match (get::<bool>(&v, r, true), bool_of(s.as_bytes())) {
        (Ok(b), Some(e)) => { reach("bool"); check(b == e, "wrong boolean") }
        (Err(_), None) => reach("nobool"),
        (Ok(_), None) => check(false, "undocumented text accepted as boolean"),
        (Err(_), Some(_)) => check(false, "documented text rejected"),
    }
    check(get::<bool>(&v, r, false).is_err(), "strict extraction coerced a string to a boolean");
    check(v.to_bool_lossy() == bool_of(s.as_bytes()), "to_bool_lossy");
}
/// a documented word with one character replaced by any non-ASCII one is not that word
fn foreign_bools() {
    let w = ["true", "yes", "1", "on", "false", "no", "0", "off"][choice("word", 8)];
    let i = choice("at", w.len() as u8);
    let mut s = String::new();
    s.push_str(&w[..i]); s.push_str(&text(utf8("c", 2 + choice("wide", 2)))); s.push_str(&w[i + 1..]);
    let c = s[i..].chars().next().unwrap(); assume(c as u32 >= 128);
    let v = Value::from(s);
    check(v.to_bool_lossy().is_none(), "to_bool_lossy accepts foreign text");
    check(get::<bool>(&v, choice("route", 3), true).is_err(), "foreign text accepted as boolean");
    reach("foreign");
}
fn number() -> (Value, Option<u128>) {
    macro_rules! u { ($f:ident, $t:ty) => {{ let x = $f("v") as $t; (Value::from(x), Some(x as u128)) }} }
    macro_rules! i { ($f:ident, $t:ty) => {{ let x = $f("v") as $t; (Value::from(x), if x < 0 { None } else { Some(x as u128) }) }} }
    match choice("kind", 14) { 0 => u!(u8, u8), 1 => u!(u16, u16), 2 => u!(u32, u32), 3 => u!(u64, u64), 4 => u!(u128, u128), 5 => u!(u64, usize), 6 => i!(u8, i8), 7 => i!(u16, i16), 8 => i!(u32, i32), 9 => i!(u64, i64), 10 => i!(u128, i128), 11 => i!(u64, isize), 12 => (Value::from(f32::from_bits(u32("v"))), None), _ => (Value::from(f64::from_bits(u64("v"))), None) }
}
fn number_bools() {
    let (v, n) = number();
    let r = choice("route", ROUTES);
    let e = match n { Some(0) => Some(false), Some(1) => Some(true), _ => None };
    match (get::<bool>(&v, r, true), e) { (Ok(b), Some(e)) => { reach("numbool"); check(b == e, "wrong boolean") } (Err(_), None) => reach("nonumbool"), (Ok(_), None) => check(false, "a number other than 0 and 1 accepted as boolean"), (Err(_), Some(_)) => check(false, "0 or 1 rejected") }
    check(get::<bool>(&v, r, false).is_err(), "strict extraction coerced a number to a boolean");
    check(v.to_bool_lossy() == e, "to_bool_lossy");
}
/// numeric strings extract exactly as the number they spell
fn ref_num(s: &str) -> Option<Value> {
    let b = s.as_bytes();
    if b.contains(&b'.') { return s.parse::<f64>().ok().map(Value::from); }
    let (neg, d) = match b.first() { Some(b'-') => (true, &b[1..]), Some(b'+') => (false, &b[1..]), _ => (false, b) };
    if d.is_empty() { return None; }
    let mut v: i64 = 0;
    for c in d { if *c < b'0' || *c > b'9' { return None; } v = v * 10 + (*c - b'0') as i64; }
    Some(if neg { Value::from(-v) } else { Value::from(v as u64) })
}
fn numeric_strings() {
    let s = if flip("dot") { let mut s = String::new(); for _ in 0..3 { s.push_str(["", "1", "5", ".", "-"][choice("c", 5)]); } assume(s.contains('.')); s } else { match choice("sort", 3) { 0 => word("s", b"0123456789", 3), 1 => format!("-{}", word("s", b"0123456789", 1 + choice("n", 3))), _ => { let s = ascii("s", 0, 2); assume(!s.as_bytes().contains(&b'.')); assume(s.as_bytes().iter().all(|b| *b > 32)); s } } };
    let target = choice("target", 13);
    let r = choice("route", if target < 6 { ROUTES } else { 2 });
    let v = Value::from(s.clone());
    let n = ref_num(&s);
    macro_rules! t { ($t:ty) => {{
        let got = get::<$t>(&v, r, true);
        let exp = n.as_ref().and_then(|n| get::<$t>(n, 0, false).ok());
        match (got, exp) { (Ok(a), Some(b)) => { reach("num"); check(a == b, "another number") } (Err(_), None) => reach("nonum"), (Ok(_), None) => check(false, "text accepted as a number it does not spell"), (Err(_), Some(_)) => check(false, "a numeric string was rejected") }
        check(get::<$t>(&v, r, false).is_err(), "strict extraction coerced a string to a number");
    }} }
    match target { 0 => t!(u8), 1 => t!(i8), 2 => t!(u64), 3 => t!(i64), 4 => t!(f64), 5 => t!(i128), 6 => t!(f32), 7 => t!(u16), 8 => t!(u32), 9 => t!(u128), 10 => t!(i16), 11 => t!(i32), _ => t!(usize) }
}
/// strict success implies the same lossy result; other targets are untouched
fn superset() {
    let v = match choice("value", 9) { 0 => Value::from(bool("v")), 1 => { let c = u8("v"); assume(c < 128); Value::from(c as char) } 2 => Value::from(ascii("v", 0, 2)), 3 => number().0, 4 => Value::from(Empty::None), 5 => Value::from(Empty::Unit), 6 => Value::from(vec![Value::from(u8("v"))]), 7 => Value::from(figment::util::map!["f" => Value::from(u8("v"))]), _ => Value::from("1") };
    let r = choice("route", 5);
    macro_rules! t { ($t:ty, $coerces:expr) => {{
        let (a, b) = (get::<$t>(&v, r, false), get::<$t>(&v, r, true));
        match (a, b) { (Ok(x), Ok(y)) => { reach("same"); check(x == y, "lossy extraction changed a strict result") } (Ok(_), Err(_)) => check(false, "lossy extraction rejects what strict accepts"), (Err(_), Ok(_)) => check($coerces, "lossy extraction coerced a type it must not"), (Err(e), Err(g)) => { reach("both"); // NaN payloads are incomparable
            let nan = matches!(e.kind, figment::error::Kind::InvalidType(figment::error::Actual::Float(f), _) if f.is_nan());
            check(nan || e.kind == g.kind || $coerces, "error kinds differ") } }
    }} }
    // Option at a null position has no inner value to look at
    if r == 2 && matches!(v, Value::Empty(..)) { return; }
    match choice("target", 9) { 0 => t!(bool, !matches!(v, Value::Bool(..))), 1 => t!(u8, matches!(v, Value::String(..))), 2 => t!(i64, matches!(v, Value::String(..))), 3 => t!(String, false), 4 => t!(char, false), 5 => t!((), false), 6 => t!(Vec<u8>, false), 7 => t!(One<u8>, false), _ => t!(std::collections::BTreeMap<String, u8>, false) }
}
/// what a text-only source would give for the same value: words for booleans, digits for numbers
fn as_text(v: &Value, bools: usize) -> Value {
    match v {
        Value::Bool(_, b) => match bools { 0 => Value::from(if *b { "on" } else { "oFF" }), 1 => Value::from(if *b { "1" } else { "0" }), _ => Value::from(*b as u8) },
        Value::Num(_, Num::U16(x)) => Value::from(text(vec![b'0' + *x as u8])),
        Value::Array(_, a) => Value::from(a.iter().map(|v| as_text(v, bools)).collect::<Vec<_>>()), Value::Dict(_, d) => Value::from(d.iter().map(|(k, v)| (k.clone(), as_text(v, bools))).collect::<figment::value::Dict>()),
        v => v.clone(),
    }
}
/// every type of up to three constructors around a boolean or a number: lossily extracted from text, it is what strict
/// extraction gives for the value itself
fn types() {
    use sym::dynty::{self, Dyn, Node, Ty};
    fn digits(n: &Node) { match n { Node::U(x) => assume(*x < 10), Node::Some(x) | Node::New(x) => digits(x), Node::Seq(v) | Node::Var(_, v) => v.iter().for_each(digits), Node::Map(m) => m.iter().for_each(|e| digits(&e.1)), _ => {} } }
    let n = choice("depth", tier(4, 5) as u8);
    let t = dynty::around(n, if flip("bool") { Ty::Bool } else { Ty::U16 });
    dynty::set(&t);
    let x = dynty::make(&t, n > 2); digits(&x);
    let v = match Value::serialize(Dyn(x.clone())) { Ok(v) => v, Err(_) => { check(false, "cannot be serialized"); return } };
    let w = as_text(&v, if n < 3 { choice("words", 3) } else { 0 });
    let f = Figment::from(p("a").put("default", "k", v.clone()).put("default", "t", w.clone()));
    reach("types");
    let is = |r: Result<Dyn, Error>| r.map_or(false, |y| y.0.same(&x));
    check(is(f.extract_inner::<Dyn>("k")) && is(f.extract_inner_lossy::<Dyn>("k")), "lossy extraction changed a strict result");
    check(is(f.extract_inner_lossy::<Dyn>("t")), "a coercion is missing somewhere in a type");
    check(is(f.focus("t").extract_lossy::<Dyn>()) || w.as_dict().is_none(), "a coercion is missing at the top");
    check(w == v || f.extract_inner::<Dyn>("t").is_err(), "strict extraction coerced");
}
fn body() { let _ = Num::U8(0); match choice("part", 5) { 4 => types(), 0 => string_bools(), 1 => number_bools(), 2 => numeric_strings(), _ => superset() } }
entry!(body);

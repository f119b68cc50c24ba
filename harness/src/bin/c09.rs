// C09: numeric extraction is exact or an error, whatever width holds the value.
use figment::error::{Actual, Kind};
use figment::value::{Num, Value};
use figment::{Error, Figment};
use sym::prov::p;
use sym::*;

#[derive(Clone, Copy)]
enum Int { U(u128), I(i128) }

fn source() -> (Value, Int, usize) {
    let k = choice("kind", 12);
    macro_rules! s { (u $f:ident $t:ty) => {{ let v = $f("v") as $t; (Value::from(v), Int::U(v as u128), k) }}; (i $f:ident $t:ty) => {{ let v = $f("v") as $t; (Value::from(v), Int::I(v as i128), k) }} }
    match k {
        0 => s!(u u8 u8), 1 => s!(u u16 u16), 2 => s!(u u32 u32), 3 => s!(u u64 u64), 4 => s!(u u128 u128), 5 => s!(u u64 usize),
        6 => s!(i u8 i8), 7 => s!(i u16 i16), 8 => s!(i u32 i32), 9 => s!(i u64 i64), 10 => s!(i u128 i128), _ => s!(i u64 isize),
    }
}

fn actual_ok(k: &Kind, v: Int) -> bool {
    // serde's own reporting of integers beyond 64 bits carries no number; those kinds are only required to be type/value errors
    let (a, wide) = match k { Kind::InvalidType(a, _) | Kind::InvalidValue(a, _) => (a, match v { Int::U(x) => x > u64::MAX as u128, Int::I(x) => x > i64::MAX as i128 || x < i64::MIN as i128 }), _ => return false };
    match (a, v) {
        _ if wide => true,
        (Actual::Unsigned(x), Int::U(y)) => *x == y,
        (Actual::Signed(x), Int::I(y)) => *x == y,
        (Actual::Unsigned(x), Int::I(y)) => y >= 0 && *x == y as u128,
        (Actual::Signed(x), Int::U(y)) => *x >= 0 && *x as u128 == y,
        _ => false,
    }
}

macro_rules! target {
    ($t:ty, $get:expr, $v:expr) => {{
        let r: Result<$t, Error> = $get;
        let k10 = matches!($v, Int::I(_));
        let exp: Option<$t> = match $v { Int::U(x) => <$t>::try_from(x).ok(), Int::I(x) => <$t>::try_from(x).ok() };
        match r {
            Ok(got) => { reach("ok"); check(exp.is_some(), "extraction succeeded although the target cannot represent the value"); check(exp == Some(got), "extracted integer differs from the stored one"); }
            Err(e) => { reach("err"); let known = k10 && stringify!($t).len() >= 3 && (stringify!($t) == "u64" || stringify!($t) == "usize") && matches!($v, Int::I(x) if x > i64::MAX as i128);
                check(exp.is_none(), if known { "KNOWN i128 above i64::MAX not extractable as u64" } else { "extraction failed although the target represents the value" }); check(actual_ok(&e.kind, $v), "error does not carry the actual value"); }
        }
    }};
}

macro_rules! all { ($f:ident, $v:expr) => { match choice("target", 12) {
    0 => target!(u8, $f!(u8), $v), 1 => target!(u16, $f!(u16), $v), 2 => target!(u32, $f!(u32), $v), 3 => target!(u64, $f!(u64), $v), 4 => target!(u128, $f!(u128), $v), 5 => target!(usize, $f!(usize), $v),
    6 => target!(i8, $f!(i8), $v), 7 => target!(i16, $f!(i16), $v), 8 => target!(i32, $f!(i32), $v), 9 => target!(i64, $f!(i64), $v), 10 => target!(i128, $f!(i128), $v), _ => target!(isize, $f!(isize), $v),
} } }

fn ints() {
    let (value, v, _k) = source();
    match choice("route", 5) {
        0 => { let f = Figment::from(p("a").put("default", "k", value)); macro_rules! g { ($t:ty) => { f.extract_inner::<$t>("k") } } all!(g, v) }
        1 => { macro_rules! g { ($t:ty) => { value.deserialize::<$t>() } } all!(g, v) }
        2 => { let f = Figment::from(p("a").put("default", "k", value)); macro_rules! g { ($t:ty) => { f.extract_inner::<Option<$t>>("k").map(|o| o.expect("some")) } } all!(g, v) }
        3 => { let f = Figment::from(p("a").put("default", "k", vec![value])); macro_rules! g { ($t:ty) => { f.extract_inner::<Vec<$t>>("k").map(|o| o[0]) } } all!(g, v) }
        _ => { let f = Figment::from(p("a").put("default", "k", value)); macro_rules! g { ($t:ty) => { f.extract_inner_lossy::<$t>("k") } } all!(g, v) }
    }
}

fn feq(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() }

fn floats() {
    let wide = flip("f64");
    let (value, x) = if wide { let x = f64::from_bits(u64("bits")); assume(!x.is_nan()); (Value::from(x), x) } else { let x = f32::from_bits(u32("bits")); assume(!x.is_nan()); (Value::from(x), x as f64) };
    let direct = flip("direct");
    let f = Figment::from(p("a").put("default", "k", value.clone()));
    reach("float");
    match choice("target", 4) {
        0 => { let r = if direct { value.deserialize::<f64>() } else { f.extract_inner::<f64>("k") }; check(r.is_ok(), "float does not extract as f64"); check(feq(r.unwrap(), x), "float changed"); }
        1 => { let r = if direct { value.deserialize::<f32>() } else { f.extract_inner::<f32>("k") }; check(r.is_ok(), "float does not extract as f32"); if !wide { check(feq(r.unwrap() as f64, x), "f32 changed"); } }
        2 => { let r = if direct { value.deserialize::<u64>().is_err() } else { f.extract_inner::<u64>("k").is_err() }; check(r, "float extracted as integer"); }
        _ => { let r = if direct { value.deserialize::<i32>() } else { f.extract_inner::<i32>("k") }; match r { Ok(_) => check(false, "float extracted as integer"), Err(e) => match e.kind { Kind::InvalidType(Actual::Float(y), _) | Kind::InvalidValue(Actual::Float(y), _) => check(feq(x, y), "error reports another float"), _ => check(false, "float error kind") } } }
    }
}

fn body() { if flip("floats") { floats() } else { ints() } }
entry!(body);

// C10: number conversions, comparisons and parsing.
use figment::error::Actual;
use figment::value::{Num, Value};
use sym::*;

#[derive(Clone, Copy, PartialEq)]
enum K { U(u128, u32), I(i128, u32), F(f64, u32) }

fn num(name: &str) -> (Num, K) {
    macro_rules! u { ($v:ident, $f:ident, $t:ty, $w:expr) => {{ let x = $f(name) as $t; (Num::$v(x), K::U(x as u128, $w)) }} }
    macro_rules! i { ($v:ident, $f:ident, $t:ty, $w:expr) => {{ let x = $f(name) as $t; (Num::$v(x), K::I(x as i128, $w)) }} }
    match choice("kind", 14) {
        0 => u!(U8, u8, u8, 8), 1 => u!(U16, u16, u16, 16), 2 => u!(U32, u32, u32, 32), 3 => u!(U64, u64, u64, 64), 4 => u!(U128, u128, u128, 128), 5 => u!(USize, u64, usize, 65),
        6 => i!(I8, u8, i8, 8), 7 => i!(I16, u16, i16, 16), 8 => i!(I32, u32, i32, 32), 9 => i!(I64, u64, i64, 64), 10 => i!(I128, u128, i128, 128), 11 => i!(ISize, u64, isize, 65),
        12 => { let x = f32::from_bits(u32(name)); (Num::F32(x), K::F(x as f64, 32)) }
        _ => { let x = f64::from_bits(u64(name)); (Num::F64(x), K::F(x, 64)) }
    }
}

fn feq(a: f64, b: f64) -> bool { (a.to_bits() == b.to_bits()) | (a.is_nan() & b.is_nan()) }

fn conversions() {
    let (n, k) = num("v");
    let v = Value::from(n);
    let val = flip("via_value");
    let u128r = if val { v.to_u128() } else { n.to_u128() };
    let i128r = if val { v.to_i128() } else { n.to_i128() };
    let f64r = if val { v.to_f64() } else { n.to_f64() };
    reach("conversions");
    match k {
        K::U(x, w) => {
            check(u128r == Some(x), "to_u128 of an unsigned kind"); check(i128r.is_none(), "to_i128 of an unsigned kind"); check(f64r.is_none(), "to_f64 of an integer");
            check(n.to_u128_lossy() == Some(x), "to_u128_lossy of an unsigned kind");
            check(n.to_u32() == if w <= 32 { Some(x as u32) } else { None }, "to_u32 of an unsigned kind");
            check(matches!(n.to_actual(), Actual::Unsigned(y) if y == x), "to_actual");
        }
        K::I(x, _) => {
            check(u128r.is_none(), "to_u128 of a signed kind"); check(i128r == Some(x), "to_i128 of a signed kind"); check(f64r.is_none(), "to_f64 of an integer");
            check(n.to_u32().is_none(), "to_u32 of a signed kind");
            check(n.to_u128_lossy() == if x >= 0 { Some(x as u128) } else { None }, "to_u128_lossy of a signed kind");
            check(matches!(n.to_actual(), Actual::Signed(y) if y == x), "to_actual");
        }
        K::F(x, _) => {
            check(u128r.is_none() && i128r.is_none() && n.to_u32().is_none() && n.to_u128_lossy().is_none(), "integer conversion of a float");
            check(f64r.map_or(false, |y| feq(x, y)), "to_f64 of a float");
            check(matches!(n.to_actual(), Actual::Float(y) if feq(y, x)), "to_actual");
        }
    }
    check(v.to_num().map_or(false, |m| m.to_actual() == n.to_actual() || matches!(k, K::F(x, _) if x.is_nan())), "Value::to_num");
    check(v.to_empty().is_none() && v.to_bool().is_none() && v.as_str().is_none() && v.to_char().is_none() && v.as_dict().is_none() && v.as_array().is_none(), "another conversion accepts a number");
}

fn compare() {
    let (a, x) = num("a");
    let (b, y) = num("b");
    let eq = if flip("via_value") { Value::from(a) == Value::from(b) } else { a == b };
    match (x, y) {
        (K::U(p, _), K::U(q, _)) => { reach("cmp_u"); check(eq == (p == q), "unsigned comparison") }
        (K::I(p, _), K::I(q, _)) => { reach("cmp_i"); check(eq == (p == q), "signed comparison") }
        (K::F(p, _), K::F(q, _)) => { reach("cmp_f"); check(eq == (p == q), "float comparison") }
        (K::F(..), _) | (_, K::F(..)) => { reach("cmp_mixed"); check(!eq, "a float compares equal to an integer") }
        _ => {}
    }
}

/// the reference: sign, digits, exact value; `None` when not a number
fn reference(s: &str) -> Option<K> {
    let t = s.trim();
    let b = t.as_bytes();
    if b.contains(&b'.') { return t.parse::<f64>().ok().map(|f| K::F(f, 64)); }
    let (neg, d) = match b.first() { Some(b'-') => (true, &b[1..]), Some(b'+') => (false, &b[1..]), _ => (false, b) };
    if d.is_empty() { return None; }
    let mut v: u128 = 0;
    for c in d { if *c < b'0' || *c > b'9' { return None; } v = v.checked_mul(10)?.checked_add((*c as u32).wrapping_sub(48) as u128)?; }
    if neg {
        if v > 1 << 127 { return None; }
        let x = v.wrapping_neg() as i128;
        Some(K::I(x, if x >= -128 { 8 } else if x >= -32768 { 16 } else if x >= -(1 << 31) { 32 } else if x >= -(1 << 63) { 64 } else { 128 }))
    } else { Some(K::U(v, if v < 256 { 8 } else if v < 65536 { 16 } else if v < 1 << 32 { 32 } else if v < 1 << 64 { 64 } else { 128 })) }
}
fn verify(s: &str) {
    let r = s.parse::<Num>();
    let e = reference(s);
    match (&r, e) {
        (Ok(_), None) => check(false, "text that is no number was accepted"),
        (Err(_), Some(_)) => check(false, "a number was rejected"),
        (Err(_), None) => reach("rejected"),
        (Ok(n), Some(k)) => { reach("accepted"); let got = match *n {
            Num::U8(x) => K::U(x as u128, 8), Num::U16(x) => K::U(x as u128, 16), Num::U32(x) => K::U(x as u128, 32), Num::U64(x) => K::U(x as u128, 64), Num::U128(x) => K::U(x, 128), Num::USize(x) => K::U(x as u128, 65),
            Num::I8(x) => K::I(x as i128, 8), Num::I16(x) => K::I(x as i128, 16), Num::I32(x) => K::I(x as i128, 32), Num::I64(x) => K::I(x as i128, 64), Num::I128(x) => K::I(x, 128), Num::ISize(x) => K::I(x as i128, 65),
            Num::F32(x) => K::F(x as f64, 64), Num::F64(x) => K::F(x, 64),
        };
        match (got, k) { (K::U(a, v), K::U(b, w)) => { check(a == b, "another unsigned number"); check(v == w, "not the smallest kind") } (K::I(a, v), K::I(b, w)) => { check(a == b, "another signed number"); check(v == w, "not the smallest kind") } (K::F(a, _), K::F(b, _)) => check(feq(a, b), "another float"), _ => check(false, "another category of number") } }
    }
}
fn free() { let s = ascii("s", 0, tier(4, 5)); verify(&s); }
fn numerals() { let n = 1 + choice("n", tier(4, 6) as u8); let mut s = String::new(); match choice("sign", 3) { 0 => {} 1 => s.push('-'), _ => s.push('+') } s.push_str(&word("d", b"0123456789", n)); verify(&s); }
/// numerals around every kind boundary: the last two digits are free
fn bounds() {
    let pre = ["2", "1", "655", "327", "42949672", "21474836", "184467440737095516", "92233720368547758", "34028236692093846346337460743176821145", "17014118346046923173168730371588410572", "3402823669209384634633746074317682114", "1701411834604692317316873037158841057"][choice("pre", tier(10, 12) as u8)];
    let mut s = String::new();
    if flip("neg") { s.push('-'); }
    s.push_str(pre);
    let n = if pre.len() > 37 { 1 } else { 2 };
    for _ in 0..n { s.push(one_of("d", b"0123456789") as char); }
    verify(&s);
}
/// dotted texts: digits are enumerated, so the float conversion runs on constants
fn floats() {
    let n = tier(5, 7);
    let mut s = String::new();
    for _ in 0..n { s.push_str(["", ".", "9", "1", "e3", "-"][choice("c", 6)]); }
    assume(s.contains('.'));
    verify(&s);
}
fn body() { match choice("part", 6) { 0 => conversions(), 1 => compare(), 2 => free(), 3 => numerals(), 4 => bounds(), _ => floats() } }
entry!(body);

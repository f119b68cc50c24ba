//! Independent reference for the environment-value syntax, written over a
//! vector of characters with explicit positions.
use figment::value::{Empty, Num, Value};

#[derive(Clone, Debug)]
pub enum R { Unit, B(bool), U(u64), I(i64), F(u64), C(char), S(String), A(Vec<R>), D(Vec<(String, R)>) }

impl R {
    pub fn agrees(&self, v: &Value) -> bool {
        match (self, v) {
            (R::Unit, Value::Empty(_, Empty::Unit)) => true,
            (R::B(a), Value::Bool(_, b)) => a == b,
            (R::U(a), Value::Num(_, n)) => match n { Num::U8(x) => *x as u64 == *a, Num::U16(x) => *x as u64 == *a, Num::U32(x) => *x as u64 == *a, Num::U64(x) => x == a, Num::USize(x) => *x as u64 == *a, Num::U128(x) => *x == *a as u128, _ => false },
            (R::I(a), Value::Num(_, n)) => match n { Num::I8(x) => *x as i64 == *a, Num::I16(x) => *x as i64 == *a, Num::I32(x) => *x as i64 == *a, Num::I64(x) => x == a, Num::ISize(x) => *x as i64 == *a, Num::I128(x) => *x == *a as i128, _ => false },
            (R::F(a), Value::Num(_, Num::F64(b))) => *a == b.to_bits(),
            (R::C(a), Value::Char(_, b)) => a == b,
            (R::S(a), Value::String(_, b)) => crate::same(a.as_bytes(), b.as_bytes()),
            (R::A(a), Value::Array(_, b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.agrees(y)),
            (R::D(a), Value::Dict(_, b)) => a.len() == b.len() && a.iter().all(|(k, x)| b.get(k).map_or(false, |y| x.agrees(y))),
            _ => false,
        }
    }
}

pub fn is_ws(c: char) -> bool { c.is_whitespace() }
fn ws(s: &[char], i: &mut usize) { while *i < s.len() && is_ws(s[*i]) { *i += 1; } }

fn hexval(c: char) -> Option<u32> { let x = c as u32; match x { 48..=57 => Some(x - 48), 65..=70 => Some(x - 55), 97..=102 => Some(x - 87), _ => None } }

/// decode the inside of a quoted string
pub fn unescape(s: &[char]) -> Option<String> {
    let mut out = String::new();
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        if c != '\\' {
            if ((c as u32) < 32 && c != '\t') || c as u32 == 127 { return None; }
            out.push(c);
            i += 1;
            continue;
        }
        if i + 1 >= s.len() { return None; }
        let e = s[i + 1];
        i += 2;
        let n = match e { '"' => { out.push('"'); continue } '\\' => { out.push('\\'); continue } 'b' => { out.push('\u{8}'); continue } 'f' => { out.push('\u{c}'); continue } 'n' => { out.push('\n'); continue } 'r' => { out.push('\r'); continue } 't' => { out.push('\t'); continue } 'u' => 4, 'U' => 8, _ => return None };
        let mut v: u64 = 0;
        for _ in 0..n { if i >= s.len() { return None; } v = v * 16 + hexval(s[i])? as u64; i += 1; }
        if v > 0x10ffff || (0xd800 <= v && v < 0xe000) { return None; }
        out.push(unsafe { char::from_u32_unchecked(v as u32) });
    }
    Some(out)
}

fn quoted(s: &[char], i: &mut usize) -> Option<String> {
    let start = *i + 1;
    let mut j = start;
    loop {
        if j >= s.len() { return None; }
        if s[j] == '\\' { j += 2; continue; }
        if s[j] == '"' { break; }
        j += 1;
    }
    *i = j + 1;
    unescape(&s[start..j])
}

fn digits(s: &[char], limit: u128) -> Option<u128> {
    if s.is_empty() { return None; }
    let mut v: u128 = 0;
    for c in s { let d = *c as u32; if d < 48 || d > 57 { return None; } v = v * 10 + (d - 48) as u128; if v > limit { return None; } }
    Some(v)
}

pub fn bare(s: &[char]) -> R {
    let (mut a, mut b) = (0, s.len());
    while a < b && is_ws(s[a]) { a += 1; }
    while b > a && is_ws(s[b - 1]) { b -= 1; }
    let s = &s[a..b];
    let text: String = s.iter().collect();
    let is = |w: &str| w.len() == s.len() && w.chars().zip(s).all(|(x, y)| x == *y);
    if is("true") { return R::B(true); }
    if is("false") { return R::B(false); }
    if s.contains(&'.') { return match text.parse::<f64>() { Ok(f) => R::F(f.to_bits()), Err(_) => R::S(text) }; }
    if !s.is_empty() {
        if s[0] == '-' { if let Some(v) = digits(&s[1..], 1 << 63) { return R::I((v as u64).wrapping_neg() as i64); } }
        else if let Some(v) = digits(if s[0] == '+' { &s[1..] } else { s }, u64::MAX as u128) { return R::U(v as u64); }
    }
    R::S(text)
}

fn value(s: &[char], i: &mut usize) -> Option<R> {
    ws(s, i);
    if *i >= s.len() { return Some(R::Unit); }
    let r = match s[*i] {
        '"' => R::S(quoted(s, i)?),
        '\'' => { if *i + 2 >= s.len() || s[*i + 2] != '\'' { return None; } let c = s[*i + 1]; *i += 3; R::C(c) }
        '[' => {
            *i += 1; ws(s, i);
            let mut v = vec![];
            loop {
                if *i < s.len() && s[*i] == ']' { break; }
                v.push(value(s, i)?);
                ws(s, i);
                if *i < s.len() && s[*i] == ',' { *i += 1; ws(s, i); } else { break; }
            }
            if *i >= s.len() || s[*i] != ']' { return None; }
            *i += 1;
            R::A(v)
        }
        '{' => {
            *i += 1; ws(s, i);
            let mut d: Vec<(String, R)> = vec![];
            loop {
                if *i < s.len() && s[*i] == '}' { break; }
                let key = if *i < s.len() && s[*i] == '"' { quoted(s, i)? } else { let st = *i; while *i < s.len() && (s[*i].is_ascii_alphanumeric() || s[*i] == '_' || s[*i] == '-') { *i += 1; } s[st..*i].iter().collect() };
                ws(s, i);
                if *i >= s.len() || s[*i] != '=' { return None; }
                *i += 1;
                let v = value(s, i)?;
                match d.iter_mut().find(|e| e.0 == key) { Some(e) => e.1 = v, None => d.push((key, v)) }
                ws(s, i);
                if *i < s.len() && s[*i] == ',' { *i += 1; ws(s, i); } else { break; }
            }
            if *i >= s.len() || s[*i] != '}' { return None; }
            *i += 1;
            R::D(d)
        }
        _ => { let st = *i; while *i < s.len() && !matches!(s[*i], ',' | '{' | '}' | '[' | ']') { *i += 1; } bare(&s[st..*i]) }
    };
    ws(s, i);
    Some(r)
}

pub fn parse(text: &str) -> R {
    let s: Vec<char> = text.chars().collect();
    let (mut a, mut b) = (0, s.len());
    while a < b && is_ws(s[a]) { a += 1; }
    while b > a && is_ws(s[b - 1]) { b -= 1; }
    let s = &s[a..b];
    let mut i = 0;
    match value(s, &mut i) { Some(r) if i == s.len() => r, _ => R::S(s.iter().collect()) }
}

// C08: escapes inside quoted strings and keys.
use figment::value::Value;
use sym::refparse::unescape;
use sym::*;

/// parse `"inner"` as a value, as a key and as an array element
fn verify(inner: &str) {
    let chars: Vec<char> = inner.chars().collect();
    // inner must not contain an unescaped quote, or end inside an escape
    let mut i = 0; let mut whole = true;
    while i < chars.len() { if chars[i] == '"' { whole = false; break; } if chars[i] == '\\' { i += 1; if i >= chars.len() { whole = false; } } i += 1; }
    assume(whole);
    let exp = unescape(&chars);
    let q = format!("\"{}\"", inner);
    let role = choice("role", 3);
    let full = match role { 0 => q.clone(), 1 => format!("{{{}=1}}", q), _ => format!("[{}]", q) };
    let v: Value = full.parse().unwrap();
    let got: Option<&str> = match (role, &v) { (0, Value::String(_, s)) => Some(s), (1, Value::Dict(_, d)) if d.len() == 1 => d.keys().next().map(|s| s.as_str()), (2, Value::Array(_, a)) if a.len() == 1 => a[0].as_str(), (_, Value::String(_, s)) => Some(s), _ => None };
    match exp {
        Some(e) => { reach("decoded"); check(role == 0 || !matches!(v, Value::String(..)), "a well-formed quoted text was not accepted"); check(got.map_or(false, |g| same(g.as_bytes(), e.as_bytes())), "decoded text differs"); }
        None => { reach("malformed"); check(matches!(v, Value::String(..)), "a malformed escape was accepted"); check(got.map_or(false, |g| same(g.as_bytes(), full.as_bytes())), "malformed text not kept as written"); }
    }
}
fn piece(out: &mut Vec<u8>) {
    match choice("piece", 7) {
        0 => out.extend(utf8("c", 1)),
        1 => out.extend(utf8("c", 2)),
        2 => out.extend(utf8("c", 3)),
        3 => out.extend(utf8("c", 4)),
        4 => { out.push(b'\\'); out.push(one_of("e", b"\"\\bfnrt")); }
        5 => { out.push(b'\\'); out.push(u8("e") & 127); }
        _ => { out.extend(b"\\u00"); out.push(one_of("h", b"0129afAF")); out.push(one_of("h", b"09dDg")); }
    }
}
fn pieces() { let mut b = vec![]; for _ in 0..tier(2, 3) { piece(&mut b); } verify(&text(b)); }
/// three-piece sequences with fixed kinds around a symbolic middle
fn around() {
    let mut b = vec![];
    let pre = ["", "a", "é", "漢", "😀", "\\n", "\\u00e9"];
    b.extend(pre[choice("pre", 7)].bytes());
    match choice("mid", 3) { 0 => { b.push(b'\\'); b.push(one_of("e", b"\"\\bfnrtx")); } 1 => b.extend(utf8("c", 3)), _ => b.extend(b"\\U0001F600") }
    b.extend(pre[choice("mid2", 7)].bytes());
    b.extend(pre[choice("post", 7)].bytes());
    verify(&text(b));
}
fn free() { let s = ascii("s", 0, tier(3, 4)); verify(&s); }
fn u4() { let mut b = b"\\u".to_vec(); for _ in 0..4 { b.push(u8("h") & 127); } verify(&text(b)); }
fn u4short() { let mut b = b"x\\u".to_vec(); for _ in 0..choice("n", 4) { b.push(one_of("h", b"0aF")); } verify(&text(b)); }
fn u8esc() {
    let mut b = b"\\U".to_vec();
    match choice("zeros", 3) {
        0 => { for _ in 0..3 { b.push(one_of("h", b"01fF")); } b.extend(b"0004"); b.push(one_of("h", b"1g")); }
        1 => { b.extend(b"00"); b.push(one_of("h", b"01g")); for _ in 0..tier(2, 5) { b.push(one_of("h", b"019dF")); } while b.len() < 10 { b.push(b'e'); } }
        _ => { b.extend(b"0000"); for _ in 0..4 { b.push(one_of("h", if THOROUGH { b"0123456789abcdefABCDEFg" } else { b"08dDFfg" })); } }
    }
    verify(&text(b));
}
fn quote(s: &str, style: usize) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        let x = c as u32;
        let h = |n: u32, i: u32| { let d = (n >> (4 * i)) & 15; (if d < 10 { 48 + d } else { 87 + d }) as u8 as char };
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' if style == 0 => o.push_str("\\n"), '\t' if style == 0 => o.push_str("\\t"), '\r' if style == 0 => o.push_str("\\r"), '\u{8}' if style == 0 => o.push_str("\\b"), '\u{c}' if style == 0 => o.push_str("\\f"),
            c if style == 1 || x < 32 || x == 127 => if x < 0x10000 { o.push_str("\\u"); for i in (0..4).rev() { o.push(h(x, i)); } } else { o.push_str("\\U"); for i in (0..8).rev() { o.push(h(x, i)); } },
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn roundtrip() {
    let mut b = vec![];
    let style = choice("style", 2);
    for _ in 0..tier(2, if style == 1 { 2 } else { 3 }) { match choice("c", 5) { k @ 0..=3 => b.extend(utf8("c", if style == 1 { 1 } else { k + 1 })), _ => b.extend("ß".bytes()) } }
    let s = text(b);
    let v: Value = quote(&s, style).parse().unwrap();
    reach("roundtrip");
    check(v.as_str().map_or(false, |g| same(g.as_bytes(), s.as_bytes())), "quoting then parsing does not give the text back");
}
fn wide_roundtrip() { let k = 2 + choice("n", 3); let s = text(utf8("c", k)); let v: Value = quote(&s, 1).parse().unwrap(); reach("wide"); check(v.as_str().map_or(false, |g| same(g.as_bytes(), s.as_bytes())), "\\u/\\U round trip"); }
/// long texts with many escapes
fn scaled() {
    let n = [8, 16, 32, 70][choice("n", 4)];
    let mut b = vec![];
    let unit: &[u8] = [&b"abc"[..], b"\\n", b"\\u00e9", b"\\U0001F600", "é".as_bytes(), b"x\\\\y", b"\\\"", b"\\t\\u0041z"][choice("unit", 8)];
    for i in 0..n { if i == n - 2 { b.push(b'\\'); b.push(one_of("e", b"\"\\bfnrtxu")); } b.extend(unit); if i == 3 { b.push(u8("c") & 127); } }
    reach("scaled");
    verify(&text(b));
}
fn body() { match choice("part", 9) { 0 => pieces(), 1 => around(), 2 => free(), 3 => u4(), 4 => u4short(), 5 => u8esc(), 6 => roundtrip(), 7 => wide_roundtrip(), _ => scaled() } }
entry!(body);

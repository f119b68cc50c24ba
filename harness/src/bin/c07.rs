// C07: environment value syntax against an independent reference parser.
use figment::value::Value;
use sym::refparse::{parse, R};
use sym::*;

fn verify(s: &str) {
    let v: Value = s.parse().unwrap();
    let r = parse(s);
    match &r { R::S(_) => reach("string"), R::A(_) => reach("array"), R::D(_) => reach("dict"), R::U(_) | R::I(_) => reach("int"), R::F(_) => reach("float"), R::C(_) => reach("char"), R::B(_) => reach("bool"), R::Unit => reach("unit") }
    check(r.agrees(&v), "parsed value differs from the reference");
}
/// every ASCII text of bounded length
fn free() { let s = ascii("s", 0, tier(5, 6)); verify(&s); }
/// texts over the structural characters
fn structural() {
    let (n, alpha): (usize, &[u8]) = if flip("b") { (tier(7, 8), b"[],1 ") } else { (tier(7, 8), b"{}=a,") };
    let s = word("s", alpha, n);
    verify(&s);
}
fn mixed() { let s = word("s", b"[]{}=,\"'", tier(6, 7)); verify(&s); }
/// numbers
fn numbers() {
    let n = 1 + choice("n", tier(5, 6) as u8);
    let s = match choice("sort", 2) { 0 => word("s", b"+-019", n), _ => { let d = choice("dot", n as u8 + 1); let a = word("s", b"-05", d.min(n)); let b = word("s", b"05", n - d.min(n)); format!("{}.{}", a, b) } };
    verify(&s);
}
/// boundaries of the 64-bit integers: the last two digits are free
fn extremes() {
    let pre = ["184467440737095516", "-92233720368547758", "92233720368547758", "-00", "000000000000000000000", "-184467440737095516"][choice("pre", 6)];
    let mut s = pre.to_string();
    for _ in 0..2 { s.push(one_of("d", b"0123456789") as char); }
    verify(&s);
}
/// templates: one nesting context around free text
fn context() {
    let inner = ascii("s", 0, tier(3, 4));
    let s = match choice("ctx", 12) {
        0 => format!("[{}]", inner), 1 => format!("{{k={}}}", inner), 2 => format!("\"{}\"", inner), 3 => format!("'{}'", inner), 4 => format!("[1,{}", inner), 5 => format!("[[{}],true]", inner),
        6 => format!("{{a={{b={}}}}}", inner), 7 => format!("{{{}=1}}", inner), 8 => format!("[\"x\"{}]", inner), 9 => format!("tru{}", inner), 10 => format!("  {} ", inner), _ => format!("{{a=1,{}}}", inner),
    };
    verify(&s);
}
/// characters of every UTF-8 length in every role
fn unicode() {
    let c = text(utf8("u", 1 + choice("len", 4)));
    let s = match choice("ctx", 9) { 0 => c.clone(), 1 => format!("{}a", c), 2 => format!("a{}", c), 3 => format!("'{}'", c), 4 => format!("\"{}\"", c), 5 => format!("[{},{}]", c, c), 6 => format!("{{\"{}\"=1}}", c), 7 => format!("{{{}=1}}", c), _ => format!("\"a\"{}", c) };
    verify(&s);
}
fn deep() {
    let mut s = String::new();
    let mut close = vec![];
    for _ in 0..tier(4, 6) { match choice("k", 3) { 0 => { s.push('['); close.push("]") } 1 => { s.push_str("{k="); close.push("}") } _ => { s.push_str("[1, "); close.push(" , -2]") } } }
    s.push_str(["true", "x y", "'c'", "\"q,]\""][choice("leaf", 4)]);
    let cut = choice("cut", 3);
    let mut n = close.len();
    while let Some(c) = close.pop() { n -= 1; if cut == 1 && n == 0 { break; } s.push_str(c); }
    if cut == 2 { s.push_str([" ", "]", "}", ",", "x"][choice("tail", 5)]); }
    verify(&s);
}
/// the round trip: a rendered structure parses to itself
fn built() {
    fn make(depth: usize) -> (String, R) {
        let p = [" ", ""][choice("pad", 2)];
        let (s, r) = match choice("kind", if depth > 0 { 6 } else { 4 }) {
            0 => { let c = ascii_n("c", 1); assume(c.as_bytes()[0] != b'"' && c.as_bytes()[0] != b'\\' && c.as_bytes()[0] >= 32 && c.as_bytes()[0] != 127); (format!("\"{}\"", c), R::S(c)) }
            1 => { let c = utf8("c", 1); (format!("'{}'", c[0] as char), R::C(c[0] as char)) }
            2 => { let d = one_of("d", b"0123456789"); let e = one_of("d", b"0123456789"); if flip("neg") { (format!("-{}{}", d as char, e as char), R::I(-((d - 48) as i64 * 10 + (e - 48) as i64))) } else { (format!("{}{}", d as char, e as char), R::U((d - 48) as u64 * 10 + (e - 48) as u64)) } }
            3 => { if flip("b") { ("true".into(), R::B(true)) } else { ("false".into(), R::B(false)) } }
            4 => { let a = make(depth - 1); let b = make(0); let t = ["", ","][choice("trail", 2)]; (format!("[{},{}{}]", a.0, b.0, t), R::A(vec![a.1, b.1])) }
            _ => { let a = make(depth - 1); let b = make(0); (format!("{{x{}={},\"y.\"={}}}", p, a.0, b.0), R::D(vec![("x".into(), a.1), ("y.".into(), b.1)])) }
        };
        (format!("{}{}{}", p, s, p), r)
    }
    let (s, r) = make(1);
    let v: Value = s.parse().unwrap();
    reach("built");
    check(r.agrees(&v), "a rendered structure does not parse back to itself");
}
/// long and deeply nested values around a free character
fn scaled() {
    let c = text(vec![one_of("c", b"a1.-\"' ,[]{}=\\t")]);
    let n = [9, 17, 33, 65][choice("n", 4)];
    let s = match choice("shape", 10) {
        0 => format!("{}{}{}", "[".repeat(n), c, "]".repeat(n)),
        1 => format!("{}{}{}", "{k=".repeat(n), c, "}".repeat(n)),
        2 => { let mut s = "[".to_string(); for i in 0..n { if i > 0 { s.push_str(", "); } s.push_str(["1", "true", "x", "'y'", "-3"][i % 5]); } s + &c + "]" }
        3 => { let mut s = "{".to_string(); for i in 0..n { s.push_str(&model::nth_key(i)); s.push('='); s.push_str(["1", "true", "x y", "\"q\"", "[2]"][i % 5]); s.push_str(","); } s + &c + "=5}" }
        4 => format!("{}{}", "x".repeat(4 * n), c), 5 => format!("\"{}{}\"", "x".repeat(4 * n), c), 6 => format!("[{}{}, 1]", "x y".repeat(n), c), 7 => format!("{{{}{}=2}}", "k".repeat(2 * n), c),
        8 => format!("{}{}{}", " ".repeat(n), c, "\t".repeat(n)), _ => format!("{{a=[{{b=1}}],c={{d={{e=[[],[{}]]}}}},a=2,f=[1,[2,[3,[4]]]]}}{}", c, " ".repeat(n)),
    };
    reach("scaled");
    verify(&s);
}
fn body() { match choice("part", 10) { 0 => free(), 1 => structural(), 2 => mixed(), 3 => numbers(), 4 => extremes(), 5 => context(), 6 => unicode(), 7 => deep(), 8 => built(), _ => scaled() } }
entry!(body);

// C16: which names the environment provider emits, against a reference chain.
use figment::providers::Env;
use sym::*;
use uncased::Uncased;

fn var_name(b: &[u8]) { let mut ok = true; for c in b { ok &= (*c != b'=') & (*c != 0); } assume(ok); }
fn value(n: usize) -> Vec<u8> { let v = ascii_n("value", n).into_bytes(); let mut ok = true; for c in &v { ok &= *c != 0; } assume(ok); v }
fn set(name: &[u8], value: &[u8]) { var_name(name); env::env().push(name, value, env_exports::slot()); }

#[derive(Clone, Debug)]
enum Step { Split(String), Only(Vec<String>), Ignore(Vec<String>), Filter(u8), Map(usize), FilterMap(u8), Lower(bool) }

fn mapped(k: &str, how: usize) -> String { match how { 0 => k.replace('a', "b_a"), 1 => format!(" {} ", k), 2 => k.to_uppercase(), 3 => String::new(), _ => format!("{}.x", k) } }
fn filtered(k: &str, c: u8) -> bool { k.bytes().any(|b| b == c) }
fn stripped(k: &str, c: u8) -> Option<String> { if !k.is_empty() && k.as_bytes()[0] == c { Some(k[1..].to_string()) } else { None } }

fn configure(mut e: Env, steps: &[Step]) -> Env {
    for s in steps {
        e = match s.clone() {
            Step::Split(p) => e.split(p),
            Step::Only(l) => e.only(&l.iter().map(|s| s.as_str()).collect::<Vec<_>>()),
            Step::Ignore(l) => e.ignore(&l.iter().map(|s| s.as_str()).collect::<Vec<_>>()),
            Step::Filter(c) => e.filter(move |k| filtered(k.as_str(), c)),
            Step::Map(h) => e.map(move |k| mapped(k.as_str(), h).into()),
            Step::FilterMap(c) => e.filter_map(move |k| stripped(k.as_str(), c).map(|s| Uncased::from(s))),
            Step::Lower(b) => e.lowercase(b),
        };
    }
    e
}
fn eqi(a: &str, b: &str) -> bool { a.len() == b.len() && { let mut ok = true; for (x, y) in a.bytes().zip(b.bytes()) { ok &= x.to_ascii_lowercase() == y.to_ascii_lowercase(); } ok } }
/// the name a variable is emitted under, from the documentation
fn reference(name: &str, prefix: Option<&str>, steps: &[Step]) -> Option<String> {
    let mut k = name.trim().to_string();
    if let Some(p) = prefix { if k.len() < p.len() || !k.is_char_boundary(p.len()) || !eqi(&k[..p.len()], p) { return None; } k = k[p.len()..].to_string(); }
    let mut lower = true;
    for s in steps {
        match s {
            Step::Split(p) => k = k.replace(p.as_str(), "."),
            Step::Only(l) => if !l.iter().any(|x| eqi(x, &k)) { return None; },
            Step::Ignore(l) => if l.iter().any(|x| eqi(x, &k)) { return None; },
            Step::Filter(c) => if !filtered(&k, *c) { return None; },
            Step::Map(h) => k = mapped(&k, *h),
            Step::FilterMap(c) => k = stripped(&k, *c)?,
            Step::Lower(b) => lower = *b,
        }
    }
    let k = k.trim().to_string();
    // no empty component
    let mut len = 0;
    for b in k.bytes() { if b == b'.' { if len == 0 { return None; } len = 0; } else { len += 1; } }
    if len == 0 { return None; }
    Some(if lower { k.bytes().map(|b| b.to_ascii_lowercase() as char as u32).count(); text(k.into_bytes().iter().map(|b| b.to_ascii_lowercase()).collect()) } else { k })
}
fn verify(e: &Env, vars: &[(Vec<u8>, Vec<u8>)], prefix: Option<&str>, steps: &[Step]) {
    let got: Vec<(String, String)> = e.iter().map(|(k, v)| (k.as_str().to_string(), v)).collect();
    let mut exp = vec![];
    for (n, v) in vars { if let Some(k) = reference(std::str::from_utf8(n).unwrap(), prefix, steps) { reach("emitted"); exp.push((k, v.clone())); } else { reach("omitted"); } }
    check(got.len() == exp.len(), "number of emitted variables");
    for ((k, v), (x, y)) in got.iter().zip(&exp) { check(same(k.as_bytes(), x.as_bytes()), "emitted name"); check(same(v.as_bytes(), y), "value changed"); }
}
/// any name, any prefix
fn prefixes() {
    let n = match choice("sort", 3) { 0 => ascii("name", 1, tier(3, 4)).into_bytes(), 1 => { let mut v = utf8("name", 2); v.extend(ascii("more", 0, 1).into_bytes()); v } _ => { let mut v = ascii_n("more", 1).into_bytes(); v.extend(utf8("name", 3)); v } };
    let v = value(1);
    set(&n, &v);
    let p = match choice("prefix", 4) { 0 => None, 1 => Some(ascii("p", 0, 2)), 2 => Some("A_".to_string()), _ => Some(text(utf8("p", 2))) };
    let steps: Vec<Step> = match choice("lower", 3) { 0 => vec![], 1 => vec![Step::Lower(false)], _ => vec![Step::Lower(false), Step::Lower(true)] };
    let e = match &p { Some(p) => Env::prefixed(p), None => Env::raw() };
    verify(&configure(e, &steps), &[(n, v)], p.as_deref(), &steps);
    reach("prefixes");
}
/// only and ignore with any listed names, in any letter case
fn lists() {
    let n = ascii("name", 1, 2).into_bytes();
    let (a, b) = (ascii("a", 0, 2), ascii_n("b", 1));
    let v = value(1);
    set(&n, &v);
    let l = vec![a, b];
    let s1 = if flip("only") { Step::Only(l) } else { Step::Ignore(l) };
    let steps = vec![s1];
    verify(&configure(Env::raw(), &steps), &[(n, v)], None, &steps);
    reach("lists");
}
/// the separator: every occurrence, at any place, of any length
fn splits() {
    let v = value(0);
    let (n, sep) = match choice("sort", 4) {
        0 => (word("name", b"_aA.", tier(5, 6)).into_bytes(), "_".to_string()),
        1 => (word("name", b"_a", tier(6, 8)).into_bytes(), "__".to_string()),
        2 => (word("name", b"xXa", 4).into_bytes(), "x".to_string()),
        _ => (ascii("name", 1, 3).into_bytes(), ascii("sep", 1, 1)),
    };
    set(&n, &v);
    let mut steps = vec![Step::Split(sep)];
    if flip("again") { steps.push(Step::Split("a".into())); }
    if flip("nolower") { steps.insert(0, Step::Lower(false)); }
    verify(&configure(Env::raw(), &steps), &[(n, v)], None, &steps);
    reach("splits");
}
/// chains: applied in the order configured
fn chains() {
    let prefix = if flip("prefix") { Some("P_") } else { None };
    let names: [Vec<u8>; 2] = match choice("names", 3) { 0 => [b"P_a_b".to_vec(), word("name", b"aB_p", 3).into_bytes()], 1 => { let mut v = b"p_".to_vec(); v.extend(word("name", b"abB_", 3).into_bytes()); [v, b"B".to_vec()] } _ => [b"P_ab".to_vec(), { let mut v = b" P_".to_vec(); v.extend(word("name", b"a. B", 2).into_bytes()); v }] };
    let mut vars = vec![];
    for n in names { let v = value(1); set(&n, &v); vars.push((n, v)); }
    let mut steps = vec![];
    for i in 0..tier(3, 4) {
        steps.push(match choice("step", if i == 2 { 7 } else { 9 }) {
            0 => Step::Split("_".into()), 1 => Step::Only(vec!["A.B".into(), "b_A".into(), "ab".into()]), 2 => Step::Ignore(vec!["B".into(), "AB".into()]), 3 => Step::Filter(b'a'), 4 => Step::Map(choice("how", 5)), 5 => Step::FilterMap(b'a'),
            6 => Step::Lower(false), 7 => Step::Lower(true), _ => Step::Ignore(vec![]),
        });
    }
    let e = match prefix { Some(p) => Env::prefixed(p), None => Env::raw() };
    // unrelated settings never change names
    let e = if flip("clone") { let e = configure(e, &steps[..1]); configure(e.clone().profile("x").global(), &steps[1..]) } else { configure(e, &steps) };
    verify(&e, &vars, prefix, &steps);
    reach("chains");
}
/// long names, separators, lists and chains; many variables
fn scaled() {
    let c = one_of("c", b"_aB. 0");
    let mut steps: Vec<Step> = vec![];
    let mut prefix = None;
    let mut names: Vec<Vec<u8>> = vec![];
    let n = [5, 17, 40][choice("n", 3)];
    match choice("sort", 6) {
        0 => { let mut s = "X_".repeat(n).into_bytes(); s.push(c); s.extend(b"yZ"); names.push(s); steps.push(Step::Split("_".into())); }
        1 => { let mut s = "A__".repeat(n).into_bytes(); s.push(c); s.extend(b"_B"); names.push(s); steps.push(Step::Split("__".into())); if flip("again") { steps.push(Step::Split("_".into())); } }
        2 => { let l: Vec<String> = (0..n).map(|i| model::nth_key(i).to_uppercase()).collect(); for i in 0..n + 3 { let mut s = model::nth_key(i).into_bytes(); if i == n - 1 { s.push(c); } names.push(s); } steps.push(if flip("only") { Step::Only(l) } else { Step::Ignore(l) }); }
        3 => { let p = "LONG_PREFIX_".repeat(n / 4 + 1); for k in ["", "x", "KEY"] { let mut s = p.to_lowercase().into_bytes(); s.extend(k.bytes()); s.push(c); names.push(s); } let mut s = p.clone().into_bytes(); s.pop(); names.push(s); prefix = Some(p); }
        4 => { for i in 0..n { let mut s = b"S_".to_vec(); s.extend(model::nth_key(i).bytes()); if i == 3 { s.push(c); } names.push(s); } prefix = Some("s_".to_string()); for i in 0..8 { steps.push(match i { 0 => Step::Lower(false), 1 | 5 => Step::Filter(b'k'), 2 | 4 => Step::Ignore(vec!["ka1".into(), "kb2".into()]), 3 => Step::Map(4), 6 => Step::Split("k".into()), _ => Step::Map(1) }); } }
        _ => { let mut s = "component".repeat(n).into_bytes(); s.push(b'_'); s.push(c); s.extend("é".repeat(3).bytes()); names.push(s); steps = vec![Step::Split("_".into()), Step::Lower(flip("lower"))]; }
    }
    let mut vars = vec![];
    for n in names { let v = b"v".repeat(n.len() % 90); set(&n, &v); vars.push((n, v)); }
    let e = match &prefix { Some(p) => Env::prefixed(p), None => Env::raw() };
    verify(&configure(e, &steps), &vars, prefix.as_deref(), &steps);
    reach("scaled");
}
fn body() { match choice("part", 5) { 0 => prefixes(), 1 => lists(), 2 => splits(), 3 => chains(), _ => scaled() } }
entry!(body);
env_exports!();

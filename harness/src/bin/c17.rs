// C17: the data the environment provider supplies.
use figment::providers::Env;
use figment::value::{Dict, Value};
use figment::{Figment, Profile, Provider};
use sym::refparse::{parse, R};
use sym::*;

fn set(name: &[u8], value: &[u8]) { let mut ok = true; for c in name { ok &= (*c != b'=') & (*c != 0); } for c in value { ok &= *c != 0; } assume(ok); env::env().push(name, value, env_exports::slot()); }
/// later variables win; dictionaries are combined
fn merge(a: R, b: R) -> R {
    match (a, b) {
        (R::D(mut x), R::D(y)) => { for (k, v) in y { match x.iter().position(|e| e.0 == k) { Some(i) => { let old = x[i].1.clone(); x[i].1 = merge(old, v) } None => x.push((k, v)) } } R::D(x) }
        (_, b) => b,
    }
}
fn nest(path: &str, v: R) -> R { let mut r = v; let mut cs: Vec<&str> = path.split('.').collect(); while let Some(c) = cs.pop() { r = R::D(vec![(c.to_string(), r)]); } r }

fn verify(e: Env, prof: &str, vars: &[(Option<String>, String)]) {
    let mut exp = R::D(vec![]);
    for (n, v) in vars { if let Some(n) = n { exp = merge(exp, nest(n, parse(v))); } }
    let data = e.data();
    check(data.is_ok(), "data is an error");
    let data = data.unwrap();
    check(data.keys().all(|p| p.as_str().as_str() == prof), "a profile other than the configured one");
    let empty = Dict::new();
    let d = data.get(&Profile::new(prof)).unwrap_or(&empty);
    check(exp.agrees(&Value::from(d.clone())), "data differs from the reference combination");
    check(e.profile.as_str().as_str() == prof && Provider::profile(&e).is_none(), "profile");
    // and through a figment, under that profile
    let f = Figment::from(e).select(prof);
    match f.extract::<Value>() { Ok(v) => check(exp.agrees(&v), "extracted data differs"), Err(_) => check(false, "extraction failed") }
    let other = if prof == "default" || prof == "global" { f.select("unrelated") } else { f.select("default") };
    match other.extract::<Dict>() { Ok(d) => check(d.is_empty() != (prof == "default" || prof == "global") || d.is_empty() && matches!(&exp, R::D(x) if x.is_empty()), "data visible in another profile"), Err(_) => check(false, "extraction failed") }
}
fn with_profile(e: Env) -> (Env, &'static str) { match choice("profile", 4) { 0 => (e, "default"), 1 => (e.global(), "global"), 2 => (e.profile("mine"), "mine"), _ => (e.global().profile("mine"), "mine") } }

/// one variable, any value text
fn values() {
    let v = match choice("sort", 3) { 0 => ascii("v", 0, tier(3, 5)), 1 => word("v", b"[{=,]}1", tier(4, 6)), _ => { let mut b = utf8("v", 3); b.push(u8("w") & 127); text(b) } };
    set(b"K", v.as_bytes());
    reach("values");
    verify(Env::raw(), "default", &[(Some("k".into()), v)]);
}
/// several variables: nesting, conflicts, order
fn conflicts() {
    let n = tier(3, 4);
    let mut vars = vec![];
    for i in 0..n {
        let (name, key) = [("P_A", "a"), ("p_a.b", "a.b"), ("P_A_B", "a.b"), ("P_A_B_C", "a.b.c"), ("p_D", "d")][choice("name", 5)];
        let v = match choice("value", if i == 2 { 2 } else { 3 }) { 0 => if i == 0 { word("v", b"7[x", 1) } else { i.to_string() }, 1 => "{b={c=1,x=2},y=3}".to_string(), _ => format!("[{}]", i) };
        set(name.as_bytes(), v.as_bytes());
        vars.push((Some(key.to_string()), v));
    }
    reach("conflicts");
    verify(Env::prefixed("P_").split("_"), "default", &vars);
}
/// arbitrary dotted names, in every profile
fn names() {
    let (n1, n2) = (word("n1", b"aA.", 3), word("n2", b"aB", 1));
    let key = |n: &str| -> Option<String> { let k = n.to_ascii_lowercase(); if k.split('.').any(|c| c.is_empty()) { None } else { Some(k) } };
    let vars = [(key(&n1), "1".to_string()), (key(&n2), "x".to_string())];
    set(n1.as_bytes(), b"1"); set(n2.as_bytes(), b"x");
    let (e, p) = with_profile(Env::raw());
    let e = match choice("then", 6) { 0 => e, 1 => e.split("~"), 2 => e.filter(|_| true), 3 => e.map(|k| k.into()), 4 => e.ignore(&["zz"]).clone(), _ => e.lowercase(true) };
    reach("names");
    verify(e, p, &vars);
}
/// direct lookup
fn lookup() {
    let (n1, n2) = (ascii("n1", 1, 2), ascii_n("n2", 1));
    let (v1, v2) = (ascii("v1", 0, 2), ascii_n("v2", 1));
    set(n1.as_bytes(), v1.as_bytes()); set(n2.as_bytes(), v2.as_bytes());
    let q = ascii("q", 1, 2);
    assume(q.trim().len() == q.len());
    let eqi = |a: &str| { let a = a.trim(); a.len() == q.len() && { let mut ok = true; for (x, y) in a.bytes().zip(q.bytes()) { ok &= x.to_ascii_lowercase() == y.to_ascii_lowercase(); } ok } };
    let (m1, m2) = (eqi(&n1), eqi(&n2));
    let got = Env::var(&q);
    let is = |v: &str| got.as_ref().map_or(false, |g| same(g.as_bytes(), v.trim().as_bytes()));
    reach("lookup");
    check(match (m1, m2) { (true, true) => is(&v1) | is(&v2), (true, false) => is(&v1), (false, true) => is(&v2), _ => got.is_none() }, "looked-up value");
    let d = ascii("d", 0, 1);
    let or = Env::var_or(&q, d.as_str());
    check(match &got { Some(g) => same(or.as_bytes(), g.as_bytes()), None => same(or.as_bytes(), d.as_bytes()) }, "var_or");
}
/// many names at the top, a few sharing nested ones, in any order
fn tails() {
    let n = [4, 8, 9, 17, 40][choice("n", 5)];
    let mut vars: Vec<(String, String)> = (0..n).map(|i| (format!("P_{}", model::nth_key(i)), model::nth_key(i))).collect();
    for (i, (a, b)) in [("P_x_A", "x.a"), ("P_X_b", "x.b"), ("P_x_c_d", "x.c.d"), ("P_x_c_e", "x.c.e")].iter().enumerate() { let at = [0, n / 2 + 1, vars.len(), vars.len()][(choice("at", 3) + i) % 4]; vars.insert(at.min(vars.len()), (a.to_string(), b.to_string())); }
    let vars: Vec<(Option<String>, String)> = vars.into_iter().map(|(name, key)| { let v = if key == "x.b" { (one_of("v", b"ab1") as char).to_string() } else { "7".into() }; set(name.as_bytes(), v.as_bytes()); (Some(key), v) }).collect();
    reach("tails");
    verify(Env::prefixed("P_").split("_"), "default", &vars);
}
/// many variables, long names, deep keys, long values
fn scaled() {
    let mut vars = vec![];
    let sort = choice("sort", 5);
    if sort == 4 { return tails(); }
    let (n, by) = [(40, ""), (12, "_"), (3, "_"), (34, "_")][sort];
    for i in 0..n {
        let k = model::nth_key(i);
        let (name, key) = match sort { 0 => (format!("P_{}", k), k), 1 => (format!("p_{}_A_b_C_d_e_F_g_{}", k, i % 3 == 0), format!("{}.a.b.c.d.e.f.g.{}", k, i % 3 == 0)), 2 => { let m = [9, 20, 40][i]; (format!("P_{}{}", "a_".repeat(m), k), format!("{}{}", "a.".repeat(m), k)) } _ => (format!("P_s_t_{}", k), format!("s.t.{}", k)) };
        let v = if i % 7 == 3 { format!("{{w={},z=[1,2]}}", if i == 3 { one_of("v", b"ab1") } else { b'c' } as char) } else if i == 5 { format!("{}{}", "y".repeat(100), one_of("v", b"ab1 ]") as char) } else { "17".into() };
        set(name.as_bytes(), v.as_bytes());
        if i % 3 == 1 { set(b"OTHER", b"1"); }
        vars.push((Some(key), v));
    }
    reach("scaled");
    let e = Env::prefixed("P_");
    verify(if by.is_empty() { e } else { e.split(by) }, "default", &vars);
}
fn body() { match choice("part", 5) { 0 => values(), 1 => conflicts(), 2 => names(), 3 => lookup(), _ => scaled() } }
entry!(body);
env_exports!();

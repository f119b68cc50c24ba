// C06: focusing is the same as extracting below the focused key.
use figment::value::Value;
use figment::{Figment, Profile};
use sym::model::*;
use sym::*;

const PROFILES: [&str; 4] = ["default", "mine", "global", "other"];

/// the effective view of a figment below `key` as the documentation promises it
fn same_result(f: &Figment, key: &str, sub: &str, known: bool) {
    let g = f.focus(key);
    let full = format!("{}.{}", key, sub);
    let (a, b) = (f.find_value(&full), g.find_value(sub));
    let lab = |l: &'static str| -> &'static str { if known { "KNOWN layered non-dictionary below focus" } else { l } };
    match (&a, &b) {
        (Ok(x), Ok(y)) => {
            reach("found");
            check(x == y, lab("focused value differs"));
            if !matches!(x, Value::Dict(_, d) if !d.is_empty()) {
                check(x.tag() == y.tag() && x.tag().profile() == y.tag().profile(), lab("focused provenance differs"));
                check(f.get_metadata(x.tag()).map(|m| m.name.to_string()) == g.get_metadata(y.tag()).map(|m| m.name.to_string()), lab("focused metadata differs"));
            }
        }
        (Err(x), Err(y)) => { reach("missing"); check(x.missing() && y.missing(), lab("focused error kind differs")); }
        (Ok(_), Err(_)) => check(false, lab("focusing loses a value")),
        (Err(_), Ok(_)) => check(false, lab("focusing invents a value")),
    }
    check(f.contains(&full) == g.contains(sub), lab("contains differs"));
    let (a, b) = (f.extract_inner::<u32>(&full), g.extract_inner::<u32>(sub));
    match (a, b) { (Ok(x), Ok(y)) => check(x == y, lab("extracted value differs")), (Err(x), Err(y)) => check(std::mem::discriminant(&x.kind) == std::mem::discriminant(&y.kind) && (x.missing() || (x.kind == y.kind && x.profile == y.profile)), lab("extraction error differs")), _ => check(false, lab("extraction outcome differs")) }
}
/// the one class of configurations on which focus is known to deviate: some layer that
/// takes part holds a non-dictionary at (a prefix of) the key while another one holds a dictionary
fn shadowed(c: &Cfg, sel: &str, key: &str) -> bool {
    let ks: Vec<&str> = key.split('.').collect();
    let mut layers = vec!["default"];
    if sel != "default" && sel != "global" { layers.push(sel); }
    layers.push("global");
    let mut blocked = false; let mut dict = false;
    for l in layers {
        let Some(t) = c.tree(l) else { continue };
        let mut state = None;
        for n in 1..=ks.len() { match at(t, &ks[..n]) { None => { state = None; break } Some(M::D(..)) => state = Some(true), Some(_) => { state = Some(false); break } } }
        match state { Some(true) => dict = true, Some(false) => { if dict { blocked = true; } } None => {} }
    }
    blocked
}
/// three layers with every mixture of shapes at the key
fn layers() {
    let sel = ["mine", "default", "other"][choice("sel", 3)];
    let mut c = Cfg::default();
    let n = tier(2, 3);
    let mut used = 0;
    for (i, p) in ["default", "mine", "global"].iter().enumerate() {
        if used == n { break; }
        if !flip("layer") { continue; }
        used += 1;
        if let Some(m) = piece("root", i, 2) { c = c.put(p, "k", m); }
    }
    let mut f = Figment::new();
    for (p, t) in &c.0 { let one = Cfg(vec![(p.clone(), t.clone())]); f = f.merge(one.provider(p)); }
    f = f.select(sel);
    let (key, sub) = [("k", "a"), ("k", "b"), ("k.a", "a"), ("k.a", "b"), ("k", "a.a")][choice("q", 5)];
    if shadowed(&c, sel, key) {
        // known finding: layers whose value at the key is not a dictionary are dropped
        reach("shadowed");
        let mut d = Cfg::default();
        for (p, t) in &c.0 { if let Some(M::D(t, _)) = at(t, &key.split('.').collect::<Vec<_>>()) { d.0.push((p.clone(), t.clone())); } }
        let (eff, got) = (d.effective(sel), f.focus(key).find_value(sub));
        match (at(&eff, &sub.split('.').collect::<Vec<_>>()), &got) { (Some(m), Ok(v)) => check(m.agrees(v), "focus gives a value of no layer"), (None, Err(e)) => check(e.missing(), "focus fails in another way"), (Some(_), _) => check(false, "focus drops a dictionary"), (None, _) => check(false, "focus invents a value") }
        same_result(&f, key, sub, true);
    } else { reach("layers"); same_result(&f, key, sub, false); }
}
/// one layer, arbitrary profile names and arbitrary keys
fn texts() {
    let k = ascii_n("k", 1); let s = ascii_n("s", 1);
    assume(k != "." && s != ".");
    let m = M::D(vec![("b".into(), M::S(scalar("v", 0), 0)), ("c".into(), M::D(vec![("b".into(), M::S(scalar("v", 0), 0))], 0))], 0);
    let prof = ascii_n("p", 1); let sel = ascii_n("sel", 1);
    let c = Cfg::default().put("default", "a", m.clone()).put(&prof, "a", M::D(vec![("b".into(), M::S(scalar("w", 0), 0))], 0));
    let f = Figment::from(c.provider("src")).select(sel.as_str());
    reach("texts");
    same_result(&f, &k, &s, false);
    let g = f.focus(&k);
    check(g.profile() == f.profile(), "selected profile changed");
}
/// absent or non-dictionary keys give an empty configuration; profile, metadata kept; composition
fn structure() {
    let c1 = Cfg::default().put(PROFILES[choice("p1", 4)], "k", piece("x", 0, 2).unwrap_or(M::S(S::None, 0)));
    let c2 = Cfg::default().put(PROFILES[choice("p2", 4)], "k", M::D(vec![("a".into(), M::D(vec![("a".into(), M::S(scalar("v", 0), 1))], 1))], 1));
    let f = Figment::new().merge(c1.provider("one")).join(c2.provider("two")).select(["mine", "none"][choice("sel", 2)]);
    let key = ["k", "k.a", "k.a.a", "missing", "k.b", "k.missing.a"][choice("key", 6)];
    let g = f.focus(key);
    reach("structure");
    check(g.profile() == f.profile(), "selected profile changed");
    let names = |f: &Figment| f.metadata().map(|m| m.name.to_string()).collect::<Vec<_>>();
    check(names(&g) == names(&f), "metadata changed");
    let all = stored(&f);
    let got = stored(&g);
    for (p, d) in all.iter() {
        let v = Value::from(d.clone());
        match v.find(key) { Some(Value::Dict(_, d)) => check(got.get(p) == Some(&d), "a profile's dictionary at the key was not kept"), _ => check(got.get(p).map_or(true, |d| d.is_empty()), "a profile without a dictionary at the key is not empty") }
    }
    check(got.keys().all(|p| all.contains_key(p)), "focus invented a profile");
    if got.is_empty() { reach("empty"); check(g.extract::<Value>().map_or(false, |v| v.as_dict().map_or(false, |d| d.is_empty())), "focus on nothing is not empty"); check(g.extract::<figment::value::Dict>().map_or(false, |d| d.is_empty()), "focus on nothing is an error"); }
    // focus twice = focus on the joined path
    if let Some((x, y)) = key.split_once('.') {
        let h = f.focus(x).focus(y);
        reach("compose");
        check(stored(&h) == got && h.profile() == f.profile() && names(&h) == names(&f), "focusing twice differs from the joined path");
        let (u, v) = (h.find_value("a"), g.find_value("a"));
        check(match (u, v) { (Ok(u), Ok(v)) => u == v && u.tag() == v.tag(), (Err(_), Err(_)) => true, _ => false }, "focusing twice finds another value");
    }
    let _ = Profile::Default;
}
/// a failed provider stays failed
fn failing() {
    let good = Cfg::default().put("default", "k", M::D(vec![("a".into(), M::S(scalar("v", 0), 0))], 0));
    let mut f = Figment::new();
    let n = choice("n", 3);
    for i in 0..=n { f = if flip("bad") { op("op").apply(f, prov::p(["p0", "p1", "p2"][i]).fails(["e0", "e1", "e2"][i])) } else { op("op").apply(f, good.provider(["p0", "p1", "p2"][i])) }; }
    let key = ["k", "missing", "k.a"][choice("key", 3)];
    let g = f.focus(key); let h = g.focus("k");
    let list = |r: Result<Value, figment::Error>| match r { Ok(_) => None, Err(e) => Some(e.into_iter().map(|e| (e.kind.clone(), e.metadata.clone(), e.profile.clone())).collect::<Vec<_>>()) };
    let e = list(f.extract());
    reach("failing");
    if e.is_some() { check(list(g.extract()) == e, "focus changed the provider failure"); check(list(h.extract()) == e && list(g.find_value("a")) == e, "focusing twice changed the provider failure"); check(!g.contains("a"), "failed figment contains"); }
    else { check(g.extract::<Value>().is_ok(), "focus failed"); }
}
/// deep keys, many providers and profiles
fn scaled() {
    let n = [3, 8, 20][choice("depth", 3)];
    let mk = |o: usize, l: &str| { let mut m = M::D(vec![(l.to_string(), M::S(scalar("v", 0), o)), ("q".into(), M::S(scalar("v", 0), o))], o); for _ in 0..n { m = M::D(vec![("a".into(), m), ("s".into(), M::S(scalar("v", 0), o))], o); } m };
    let mut f = Figment::new();
    let o = op("op");
    const N: [&str; 8] = ["p0", "p1", "p2", "p3", "p4", "p5", "p6", "p7"];
    let ps = ["default", "global", "mine", "more", "other", "six", "seven", "eight"];
    for i in 0..8 { let m = if i == 5 { M::S(scalar("v", 0), i) } else { mk(i, ["x", "y", "z"][i % 3]) }; let c = Cfg::default().put(ps[i], "a", m); f = o.apply(f, c.provider(N[i])); }
    let f = f.select(["mine", "eight", "none"][choice("sel", 3)]);
    let d = [1, 2, n - 1, n, n + 1][choice("at", 5)];
    assume(d >= 1 && d <= n + 1);
    let key = vec!["a"; d].join(".");
    let sub = ["s", "a.s", "x", "y", "q", "a.x", "nope"][choice("sub", 7)];
    reach("scaled");
    same_result(&f, &key, sub, false);
    let g = f.focus(&key);
    check(g.metadata().count() == 8 && g.profile() == f.profile(), "focus dropped metadata or the profile");
    if d > 1 { let mut h = f.clone(); for _ in 0..d { h = h.focus("a"); } check(stored(&h) == stored(&g), "focusing component by component differs"); }
}
fn body() { match choice("part", 5) { 0 => layers(), 1 => texts(), 2 => structure(), 3 => failing(), _ => scaled() } }
entry!(body);

// C02: every surviving leaf and array element reports the provider (and layer) that supplied it.
use figment::value::{Map, Value};
use figment::{Figment, Profile};
use sym::model::*;
use sym::*;

const NAMES: [&str; 4] = ["w", "xx", "yyy", "zzzz"];
const PROF: [&str; 3] = ["default", "global", "other"];

/// origin = provider * 4 + profile
fn ok<'a>(f: &'a Figment) -> impl Fn(usize, &Value) -> bool + 'a {
    move |o, v| {
        let t = v.tag();
        let p = t.profile();
        let layer = match o % 4 { 0 => p == Some(Profile::Default), 1 => p == Some(Profile::Global), _ => p.is_none() };
        layer && f.get_metadata(t).map_or(false, |m| m.name == NAMES[o / 4] && m.source.as_ref().and_then(|s| s.custom()) == Some(NAMES[o / 4]))
    }
}
fn all(c: &Cfg, d: &Map<Profile, figment::value::Dict>, f: &Figment) -> bool { let k = ok(f); c.0.len() == d.len() && c.0.iter().all(|(p, t)| d.get(&Profile::new(p)).map_or(false, |x| tree_attributed(t, x, &k))) }
fn verify(f: &Figment, m: &Cfg) {
    check(all(m, &stored(f), f), "a stored value reports another provider or layer");
    let sel = f.profile().as_str().as_str().to_string();
    let eff = m.effective(&sel);
    let k = ok(f);
    for (key, x) in &eff {
        let v = f.find_value(key);
        check(v.is_ok(), "effective value missing");
        check(x.attributed(&v.unwrap(), &k), "an effective value reports another provider or layer");
        if let M::S(_, o) = x {
            let md = f.find_metadata(key);
            check(md.map_or(false, |m| m.name == NAMES[*o / 4]), "find_metadata names another provider");
        }
        if let M::D(d, _) = x { for (k2, y) in d { if let M::S(_, o) = y { check(f.find_metadata(&format!("{}.{}", key, k2)).map_or(false, |m| m.name == NAMES[*o / 4]), "find_metadata names another provider"); } } }
    }
}
fn sc(name: &str, o: usize) -> M { M::S(scalar(name, 0), o) }
fn shape(name: &str, o: usize) -> M {
    match choice(name, 7) {
        0 => sc("v", o),
        1 => M::A(vec![sc("v", o), sc("v", o)], o),
        2 => M::D(vec![("a".into(), sc("v", o))], o),
        3 => M::D(vec![("a".into(), M::A(vec![M::D(vec![("q".into(), sc("v", o))], o), M::A(vec![sc("v", o)], o)], o)), ("b".into(), sc("v", o))], o),
        4 => M::A(vec![], o),
        5 => M::D(vec![], o),
        _ => M::D(vec![("a".into(), M::D(vec![("b".into(), sc("v", o))], o))], o),
    }
}
fn provider(c: &Cfg, i: usize) -> prov::P { c.provider(NAMES[i]).from_source(NAMES[i]) }

/// the wrapper operations that must not change attribution
fn wrap(f: Figment, m: Cfg) -> (Figment, Cfg) {
    match choice("wrap", 6) {
        0 => (f, m),
        1 => (f.clone(), m),
        2 => (Figment::from(&f), m),
        3 => (f.select("other"), m),
        4 => { let o = op("nest"); (o.apply(Figment::new().select("other"), f), m) }
        _ => {
            let g = f.focus("k");
            let c = Cfg(m.0.iter().filter_map(|(p, t)| match get(t, "k") { Some(M::D(d, _)) => Some((p.clone(), d.clone())), _ => None }).collect());
            (g, c)
        }
    }
}

fn pairs() {
    let o = op("op");
    let (p1, p2) = (choice("p1", 3), choice("p2", 3));
    let mk = |i: usize, p: usize, n: &str, extra: &str| Cfg::default().put(PROF[p], "k", shape(n, i * 4 + p)).put(PROF[p], extra, sc("e", i * 4 + p));
    let (a, b) = (mk(0, p1, "left", "l"), mk(1, p2, "right", "r"));
    let f = o.apply(Figment::from(provider(&a, 0)), provider(&b, 1));
    let (f, m) = wrap(f, a.combine(&b, o));
    reach("pairs");
    verify(&f, &m);
}

/// chains of providers, plain or nested inside other figments
fn chains() {
    let n = tier(3, 4);
    let mut f = Figment::new();
    let mut m = Cfg::default();
    let mut i = 0;
    while i < n {
        let o = op("op");
        let mk = |i: usize| { let p = if i == 0 { 0 } else { choice("p", 2) * 2 }; let og = i * 4 + p; Cfg::default().put(PROF[p], "k", match choice("shape", 3) { 0 => sc("v", og), 1 => M::A(vec![sc("v", og)], og), _ => M::D(vec![("a".into(), M::A(vec![sc("v", og)], og))], og) }) };
        let c = mk(i);
        if i + 1 < n && flip("group") {
            let o2 = op("op2");
            let c2 = mk(i + 1);
            let g = o2.apply(Figment::from(provider(&c, i)), provider(&c2, i + 1));
            f = o.apply(f, g);
            m = m.combine(&c.combine(&c2, o2), o);
            i += 2;
        } else {
            f = o.apply(f, provider(&c, i));
            m = m.combine(&c, o);
            i += 1;
        }
    }
    reach("chains");
    verify(&f, &m);
}

/// one provider with data in every profile, and profile names in any case
fn layers() {
    let mut c = Cfg::default();
    let o = op("op");
    let mut d = Cfg::default();
    for p in 0..3 { if flip("has") { c = c.put(PROF[p], "k", M::D(vec![("a".into(), sc("v", p))], p)); } if flip("has2") { d = d.put(PROF[p], "k", M::D(vec![(["a", "b"][choice("key", 2)].into(), sc("v", 4 + p))], 4 + p)); } }
    let upper = flip("upper");
    let rename = |c: &Cfg| if upper { Cfg(c.0.iter().map(|(p, t)| (p.to_uppercase(), t.clone())).collect()) } else { c.clone() };
    let f = o.apply(Figment::from(provider(&rename(&c), 0)), provider(&d, 1));
    let f = match choice("sel", 3) { 0 => f, 1 => f.select("other"), _ => f.select("global") };
    reach("layers");
    verify(&f, &c.combine(&d, o));
}

/// wide, deep and long data, and long histories
fn scaled() {
    let o = op("op");
    if flip("history") {
        let (o2, sh) = (op("op2"), choice("shape", 3));
        let (mut f, mut m) = (Figment::new(), Cfg::default());
        for i in 0..9 {
            let (n, og) = (i % 4, i % 4 * 4 + if i % 5 == 4 { 2 } else { 0 });
            let o = if i % 3 == 2 { o2 } else { o };
            let c = Cfg::default().put(PROF[og % 4], "k", match sh { 0 => M::A(vec![fresh(og), fresh(og)], og), 1 => M::D(wide(i % 4, i % 4 + 3, og), og), _ => M::D(vec![("a".into(), M::A(vec![fresh(og)], og))], og) });
            f = if i % 4 == 3 { o.apply(f, Figment::from(provider(&c, n))) } else { o.apply(f, provider(&c, n)) };
            m = m.combine(&c, o);
        }
        return verify(&f, &m);
    }
    let (w, p2) = (choice("shape", LARGE), choice("p2", 3));
    let (a, b) = (Cfg::default().put("default", "k", large(w, 0, 0)).put("default", "l", fresh(0)), Cfg::default().put(PROF[p2], "k", large(w, 1, 4 + p2)).put(PROF[p2], "r", fresh(4 + p2)));
    let f = o.apply(Figment::from(provider(&a, 0)), provider(&b, 1));
    let m = a.combine(&b, o);
    let (f, m) = match choice("outer", 3) { 0 => (f, m), 1 => (Op::Admerge.apply(Figment::new().select("other"), f), m), _ => (f.focus("k"), Cfg(m.0.iter().filter_map(|(p, t)| match get(t, "k") { Some(M::D(d, _)) => Some((p.clone(), d.clone())), _ => None }).collect())) };
    reach("scaled");
    verify(&f, &m);
}
/// every kind of scalar against every other, in every position
fn kinds() {
    let (o, pos, p2) = (op("op"), choice("pos", 6), choice("p2", 2) * 2);
    let mk = |k: usize, n: &str, og: usize| { let x = match k { 9 => M::A(vec![], og), 10 => M::D(vec![], og), _ => M::S(scalar(n, k), og) }; match pos { 0 => x, 1 => M::A(vec![x, fresh(og)], og), 2 => M::D(vec![("a".into(), x)], og), 3 => M::D(vec![("a".into(), M::A(vec![fresh(og), x], og))], og), 4 => M::A(vec![M::D(vec![("q".into(), x)], og)], og), _ => M::A(vec![M::A(vec![x.clone()], og), x], og) } };
    let (a, b) = (mk(choice("left", KINDS + 2), "l", 0), mk(choice("right", KINDS + 2), "r", 4 + p2));
    let (a, b) = (Cfg::default().put("default", "k", a), Cfg::default().put(PROF[p2], "k", b));
    let f = o.apply(Figment::from(provider(&a, 0)), provider(&b, 1));
    let (f, m) = if flip("nest") { (Op::Adjoin.apply(Figment::new(), f), a.combine(&b, o)) } else { (f, a.combine(&b, o)) };
    reach("kinds");
    verify(&f, &m);
}
/// containers that mix values another provider supplied with values of their own
fn reuse() {
    let big = flip("big");
    let a = Cfg::default().put("default", "k", if big { M::D(vec![("p".into(), fresh(0)), ("q".into(), M::A(vec![fresh(0)], 0))], 0) } else { fresh(0) });
    let f = Figment::from(provider(&a, 0));
    let (old, oldv) = (get(a.tree("default").unwrap(), "k").unwrap().clone(), f.find_value("k").expect("k"));
    let own = M::S(scalar("w", choice("kind", 2)), 4);
    let (n, form) = (1 + choice("n", 4), choice("form", 5));
    let slots: Vec<bool> = (0..n).map(|_| flip("old")).collect();
    let pick = |i: usize| if slots[i] { (old.clone(), oldv.clone()) } else { (own.clone(), own.value()) };
    let map = |r: &[usize]| -> (M, Value) { let (mut m, mut d) = (vec![], Map::new()); for &i in r { let (x, v) = pick(i); m.push((nth_key(i), x)); d.insert(nth_key(i), v); } (M::D(m, 4), Value::from(d)) };
    let all: Vec<usize> = (0..n).collect();
    let list = |v: Vec<(M, Value)>| -> (M, Value) { let (m, v): (Vec<M>, Vec<Value>) = v.into_iter().unzip(); (M::A(m, 4), Value::from(v)) };
    let (m, v) = match form { 0 => map(&all), 1 => list(all.iter().map(|i| pick(*i)).collect()), 2 => { let (m, v) = map(&all); (M::D(vec![("in".into(), m)], 4), Value::from(figment::util::map!["in" => v])) } 3 => list(vec![map(&all[..n / 2]), map(&all[n / 2..])]), _ => { let (m, v) = list(all.iter().map(|i| pick(*i)).collect()); (M::D(vec![("in".into(), m), ("z".into(), own.clone())], 4), Value::from(figment::util::map!["in" => v, "z" => own.value()])) } };
    let o = op("op");
    let p = prov::p(NAMES[1]).from_source(NAMES[1]).put("default", "j", v);
    let g = if flip("nested") { o.apply(f, Figment::from(p)) } else { o.apply(f, p) };
    reach("reuse");
    let c = a.combine(&Cfg::default().put("default", "j", m), o);
    // who supplied a container is not compared: an element is either one's own or taken whole
    fn leaves(m: &M, v: &Value, ok: &dyn Fn(usize, &Value) -> bool) -> bool { match (m, v) { (M::S(s, o), v) => s.agrees(v) & ok(*o, v), (M::A(a, _), Value::Array(_, b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| leaves(x, y, ok)), (M::D(a, _), Value::Dict(_, b)) => a.len() == b.len() && a.iter().all(|(k, x)| b.get(k).map_or(false, |y| leaves(x, y, ok))), _ => false } }
    let k = ok(&g);
    for (key, m) in c.tree("default").unwrap() { let v = g.find_value(key); check(v.map_or(false, |v| leaves(m, &v, &k)), "a container mixing new and taken values"); }
    check(c.agrees(&stored(&g)), "stored data");
}
fn body() { match choice("part", 6) { 0 => pairs(), 1 => chains(), 2 => layers(), 3 => kinds(), 4 => reuse(), _ => scaled() } }
entry!(body);

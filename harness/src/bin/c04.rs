// C04: which profile is selected after any history of operations.
use figment::value::Value;
use figment::{Figment, Profile};
use sym::model::*;
use sym::*;

fn history() {
    let n = tier(3, 4);
    let mut f = if flip("default()") { Figment::default() } else { Figment::new() };
    let mut sel = "default".to_string();
    let mut m = Cfg::default();
    check(f.profile() == "default", "fresh figment");
    for i in 0..n {
        let key = ["a", "b", "c", "d"][i];
        let c = Cfg::default().put(["default", "x", "global"][i % 3], key, M::S(scalar("v", 0), i));
        match choice("step", 9) {
            0 => { let p = ascii_n("name", 1); f = f.select(p.as_str()); sel = p; }
            k @ 1..=4 => {
                let o = OPS[k - 1];
                let p = if flip("name2") { ascii_n("name", 1) } else { ["default", "global"][choice("builtin", 2)].to_string() };
                f = o.apply(f, c.provider("p").selects(p.as_str()));
                m = m.combine(&c, o);
                if o.incoming_wins() { sel = p; }
            }
            k => { let o = OPS[k - 5]; f = o.apply(f, c.provider("p")); m = m.combine(&c, o); }
        }
        check(same(f.profile().as_str().as_str().as_bytes(), sel.as_bytes()), "selected profile differs after a step");
    }
    reach("history");
    check(m.agrees(&stored(&f)), "selection changed stored values");
    check(f.profiles().count() == m.0.len() && m.0.iter().all(|(p, _)| f.profiles().any(|q| q == p.as_str())), "reported profiles differ");
}

/// a figment as provider always sets its profile
fn nested() {
    let o = op("op");
    let (a, b) = (ascii("outer", 0, 2), ascii("inner", 0, 2));
    let (sa, sb) = (flip("sa"), flip("sb"));
    let x = Cfg::default().put("default", "k", M::S(scalar("v", 0), 0));
    let y = Cfg::default().put("other", "k", M::S(scalar("v", 0), 0));
    let mut f = Figment::new(); if sa { f = f.select(a.as_str()); }
    f = f.join(x.provider("x"));
    let mut g = Figment::new(); if sb { g = g.select(b.as_str()); }
    g = g.join(y.provider("y"));
    let byref = flip("by_ref");
    let f = if byref { o.apply(f, &g) } else { o.apply(f, g) };
    let inner = if sb { b } else { "default".into() };
    let outer = if sa { a } else { "default".into() };
    let exp = if o.incoming_wins() { inner } else { outer };
    reach("nested");
    check(same(f.profile().as_str().as_str().as_bytes(), exp.as_bytes()), "profile of a nested figment not adopted / wrongly adopted");
    check(x.combine(&y, o).agrees(&stored(&f)), "stored values");
}

/// a provider that fails still sets the profile; selection changes which values are extracted only
fn effects() {
    let p = ascii_n("p", 1);
    let q = ascii_n("q", 1);
    let (a, b, d) = (u32("a"), u32("b"), u32("d"));
    let f = Figment::from(prov::p("x").put("x", "k", a).put("y", "k", b).put("default", "k", d));
    let before = stored(&f);
    let f = f.select(p.as_str()).select(q.as_str());
    let exp = if q.eq_ignore_ascii_case("x") { a } else if q.eq_ignore_ascii_case("y") { b } else { d };
    reach("effects");
    check(f.profile().as_str().as_str() == q, "latest selection counts");
    check(f.extract_inner::<u32>("k").map_or(false, |v| v == exp), "selection did not pick the layer");
    check(stored(&f) == before, "selection changed data");
    check(f.profiles().count() == 3 && f.profiles().any(|p| p == "x") && f.profiles().any(|p| p == "y") && f.profiles().any(|p| *p == Profile::Default), "profiles of stored data must all be reported");
    let _: Option<Value> = None;
}
/// providers of this crate: only those that declare a profile select one
fn builtin() {
    use figment::providers::{Format, Json, Serialized, Env};
    let o = op("op");
    let f = Figment::new().select("mine");
    let f = match choice("kind", 5) {
        0 => o.apply(f, Serialized::from(figment::util::map!["k" => 1u8], "theirs")),
        1 => o.apply(f, Json::string("{\"k\": 1}").profile("theirs")),
        2 => o.apply(f, Json::string("{\"theirs\": {\"k\": 1}}").nested()),
        3 => o.apply(f, ("k", 1u8)),
        _ => o.apply(f, Env::raw().profile("theirs")),
    };
    reach("builtin");
    check(f.profile() == "mine", "a source that sets no profile changed the selection");
}
/// long histories with long names: the same rules at every length
fn scaled() {
    let (o, o2) = (op("op"), op("op2"));
    let mut f = Figment::new();
    let mut sel = "default".to_string();
    let names = ["x", "a-profile-name-of-some-length", "GLOBAL", "deFault", "y", "a_very_long_profile_name_with_more_than_sixty_four_characters_in_it_indeed"];
    let every = 1 + choice("every", 3);
    for i in 0..16 {
        let o = if i % 3 == 2 { o2 } else { o };
        let mut p = prov::p("p").put(names[i % 6], &nth_key(i), 1u8);
        if i % every == 0 {
            let mut s = names[(i / every) % 6].to_string();
            if i == 14 || i == 15 { s.push_str(&ascii_n("tail", 1)); }
            p = p.selects(s.as_str());
            if o.incoming_wins() { sel = s; }
        } else if i % 5 == 4 { let s = ascii_n("sel", 1); f = f.select(s.as_str()); sel = s; }
        f = if i % 4 == 1 && i % every != 0 { o.apply(f, (nth_key(i), 1u8)) } else { o.apply(f, p) };
        check(same(f.profile().as_str().as_str().as_bytes(), sel.as_bytes()), "selected profile differs after a step of a long history");
    }
    reach("scaled");
    check(f.profiles().count() == stored(&f).len(), "reported profiles");
}
/// every sort of name after every other
fn names() {
    let mut f = if flip("default()") { Figment::default() } else { Figment::new() };
    let mut sel = "default".to_string();
    f = f.merge(prov::p("p").put("default", "k", 1u8).put("y", "k", 2u8));
    for _ in 0..2 {
        let p = any_name("n");
        match choice("step", 10) {
            0 => { f = f.select(p.as_str()); sel = p; }
            9 => { f = f.select(Profile::new(&p)); sel = p; }
            k => { let o = OPS[(k - 1) % 4]; f = if k > 4 { o.apply(f, Figment::new().select(p.as_str())) } else { o.apply(f, prov::p("q").selects(p.as_str())) }; if o.incoming_wins() { sel = p; } }
        }
        check(same(f.profile().as_str().as_str().as_bytes(), sel.as_bytes()), "selected profile differs after a name of some sort");
    }
    reach("names");
    check(f.extract_inner::<u8>("k").map_or(false, |k| (k == 2) == eqi(&sel, "y")) && f.profiles().count() == 2, "selection by a name of some sort");
}
fn body() { match choice("part", 6) { 0 => history(), 1 => nested(), 2 => effects(), 3 => builtin(), 4 => names(), _ => scaled() } }
entry!(body);

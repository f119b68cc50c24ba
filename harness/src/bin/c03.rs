// C03: global over selected over default, everything else invisible.
use figment::value::Value;
use figment::Figment;
use sym::model::*;
use sym::*;

fn sc() -> M { M::S(scalar("v", 0), 0) }
fn shape(name: &str) -> Option<M> {
    Some(match choice(name, 6) {
        0 => return None,
        1 => sc(),
        2 => M::A(vec![sc()], 0),
        3 => M::D(vec![("a".into(), sc())], 0),
        4 => M::D(vec![("b".into(), sc()), ("a".into(), M::D(vec![("x".into(), sc())], 0))], 0),
        _ => M::D(vec![("a".into(), M::D(vec![("y".into(), sc())], 0))], 0),
    })
}
fn verify(f: &Figment, eff: &Tree) {
    let v = f.extract::<Value>();
    check(v.is_ok(), "extraction failed");
    match v { Ok(Value::Dict(_, d)) => check(tree_agrees(eff, &d), "effective configuration differs from default < selected < global"), _ => check(false, "not a dictionary") }
    for k in ["k", "d", "o", "g"] { match get(eff, k) {
        Some(m) => { let v = f.find_value(k); check(v.is_ok(), "lookup failed"); check(m.agrees(&v.unwrap()), "looked-up value differs"); check(f.contains(k), "contains"); }
        None => { check(f.find_value(k).is_err(), "value found although no layer has it"); check(!f.contains(k), "contains a value no layer has"); }
    } }
}

/// values of every kind in the layers
fn kinds() {
    let pos = choice("pos", 4);
    let mk = |k: usize, n: &str| { let x = M::S(scalar(n, k), 0); match pos { 0 => x, 1 => M::A(vec![x], 0), 2 => M::D(vec![("a".into(), x)], 0), _ => M::D(vec![("a".into(), M::D(vec![("x".into(), x), ("y".into(), sc())], 0))], 0) } };
    let mut c = Cfg::default().put("default", "k", mk(choice("default", KINDS), "d"));
    let (s, g) = (choice("one", KINDS + 1), choice("global", 4));
    if s < KINDS as usize { c = c.put("one", "k", mk(s, "o")); }
    if g > 0 { c = c.put("global", "k", mk([0, 3, 4, 8][g], "g")); }
    reach("kinds");
    verify(&Figment::from(c.provider("p")).select("one"), &c.effective("one"));
}
/// the same key in all layers, every selection
fn layers() {
    let mut c = Cfg::default();
    for (p, e) in [("default", "d"), ("one", "o"), ("global", "g"), ("two", "t")] {
        let s = if p == "two" { if flip("two") { Some(sc()) } else { None } } else { shape(p) };
        if let Some(s) = s { c = c.put(p, "k", s); if p != "two" { c = c.put(p, e, sc()); } }
    }
    let sel = ["default", "one", "global", "none"][choice("sel", 4)];
    let f = Figment::from(c.provider("p"));
    let f = match choice("how", 3) { 0 => f.select(sel), 1 => f.merge(prov::p("s").selects(sel)), _ => { f.admerge(Figment::new().select(sel)) } };
    reach("layers");
    verify(&f, &c.effective(sel));
}

/// arbitrary profile names: the layer is selected exactly when the names are equal ignoring case
fn names() {
    let n = tier(2, 3);
    let (p, q, sel) = (ascii("stored", 0, n), ascii_n("stored2", 1), ascii("selected", 0, n));
    let (d, o, t) = (u32("d"), u32("o"), u32("t"));
    assume(!eqi(&p, &q));
    let hasd = flip("default");
    let mut a = prov::p("a").put(p.as_str(), "k", o).put(q.as_str(), "k", t);
    if hasd { a = a.put("default", "k", d); }
    let f = Figment::from(a).select(sel.as_str());
    reach("names");
    let got = f.extract_inner::<u32>("k");
    let exp = if eqi(&p, &sel) { Some(o) } else if eqi(&q, &sel) { Some(t) } else if hasd { Some(d) } else { None };
    match (got, exp) { (Ok(g), Some(e)) => check(g == e, "value of another layer"), (Err(_), None) => {} (Ok(_), None) => check(false, "value appeared from an unselected profile"), (Err(_), Some(_)) => check(false, "value vanished") }
}

/// selecting one of the two built-in profiles in any casing never adds a layer
fn builtin() {
    let g = flip("global");
    let name = if g { "global" } else { "default" };
    let mut s = bytes("sel", name.len());
    let mut same = true;
    for (i, c) in name.bytes().enumerate() { same &= (s[i] == c) | (s[i] == c - 32); }
    assume(same);
    let s = unsafe { String::from_utf8_unchecked(std::mem::take(&mut s)) };
    let (a, b, c) = (u32("d"), u32("g"), u32("o"));
    let (hd, hg) = (flip("hd"), flip("hg"));
    let mut p = prov::p("a").put("other", "k", c);
    if hd { p = p.put("default", "k", a).put("default", "d", a); }
    if hg { p = p.put("global", "k", b).put("global", "g", b); }
    let f = Figment::from(p).select(s.as_str());
    reach("builtin");
    match (f.extract_inner::<u32>("k"), if hg { Some(b) } else if hd { Some(a) } else { None }) { (Ok(x), Some(y)) => check(x == y, "wrong layer"), (Err(_), None) => {} _ => check(false, "presence") }
    check(f.contains("d") == hd, "default key"); check(f.contains("g") == hg, "global key");
}

/// three layers supplied by different operations and providers
fn history() {
    let mut f = Figment::new();
    let mut m = Cfg::default();
    for i in 0..3 {
        let o = if i == 0 { Op::Merge } else { op("op") };
        let p = ["default", "one", "global"][choice("p", 3)];
        let c = Cfg::default().put(p, "k", match choice("shape", 3) { 0 => sc(), 1 => M::D(vec![(["a", "b"][i % 2].into(), sc())], 0), _ => M::A(vec![sc()], 0) });
        f = o.apply(f, c.provider("p"));
        m = m.combine(&c, o);
    }
    let sel = ["default", "one"][choice("sel", 2)];
    reach("history");
    verify(&f.select(sel), &m.effective(sel));
}
/// wide, deep and long layers, among many other profiles with long names
fn scaled() {
    let long = "a-profile-with-quite-a-long-name";
    let sel = ["default", "one", "global", long][choice("sel", 4)];
    let w = choice("shape", LARGE);
    let mut c = Cfg::default();
    for (i, p) in ["default", sel, "global"].iter().enumerate() { if (i != 1 || sel != "default" && sel != "global") && flip("has") { c = c.put(p, "k", if w == 3 { M::D(wide(i, i + 12, 0), 0) } else { large(w, i % 2, 0) }); } }
    for i in 0..10 { c = c.put(&nth_key(i), "k", sc()).put(&nth_key(i), "o", sc()); }
    c = c.put("a-profile-with-quite-a-long-nam", "k", sc());
    let f = Figment::from(c.provider("p")).select(sel);
    reach("scaled");
    verify(&f, &c.effective(sel));
}
/// names that resemble the reserved ones, in every role
fn near() {
    let (p, sel) = (any_name("p"), any_name("sel"));
    let (a, b, c) = (u32("a"), u32("b"), u32("c"));
    let (hd, hg) = (flip("hd"), flip("hg"));
    assume(!eqi(&p, "default") && !eqi(&p, "global"));
    let mut q = prov::p("p").put(p.as_str(), "k", c).put(p.as_str(), "o", c).put("two", "k", 1u8).put("two", "t", 1u8);
    if hd { q = q.put("default", "k", a).put("default", "d", a); }
    if hg { q = q.put("global", "k", b).put("global", "g", b); }
    let f = Figment::from(q);
    let f = match choice("how", 3) { 0 => f.select(sel.as_str()), 1 => f.merge(prov::p("s").selects(sel.as_str())), _ => Figment::from(f).admerge(Figment::new().select(sel.as_str())) };
    reach("near");
    let mine = eqi(&p, &sel);
    let exp = if hg { Some(b) } else if mine { Some(c) } else if hd { Some(a) } else { None };
    match (f.extract_inner::<u32>("k"), exp) { (Ok(x), Some(y)) => check(x == y, "wrong layer for a name like a reserved one"), (Err(_), None) => {} _ => check(false, "presence for a name like a reserved one") }
    check(f.contains("o") == mine && f.contains("d") == hd && f.contains("g") == hg && !f.contains("t"), "which layers are visible for a name like a reserved one");
    check(f.extract::<figment::value::Dict>().map_or(false, |d| d.len() == mine as usize + hd as usize + hg as usize + exp.is_some() as usize), "effective keys for a name like a reserved one");
}
fn body() { match choice("part", 7) { 0 => layers(), 1 => names(), 2 => builtin(), 3 => history(), 4 => kinds(), 5 => near(), _ => scaled() } }
entry!(body);

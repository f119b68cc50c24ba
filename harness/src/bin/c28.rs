// C28: a figment used as a provider contributes everything it holds.
use figment::error::Kind;
use figment::providers::{Env, Format, Json, Serialized};
use figment::value::{Dict, Map, Value};
use figment::{Error, Figment, Metadata, Profile, Provider};
use sym::model::*;
use sym::*;

const NAMES: [&str; 6] = ["p0", "p1", "p2", "p3", "p4", "p5"];
fn num(i: usize) -> M { M::S(S::U32(u32("v")), i) }
fn text(i: usize) -> M { M::S(S::Str(ascii_n("s", 1).into_bytes()), i) }
/// the i-th provider: what it supplies, whether it selects a profile or fails
fn pool(i: usize, k: usize) -> (prov::P, Cfg) {
    let c = Cfg::default();
    let (c, sel) = match k {
        0 => (c.put("default", "k", num(i)).put("default", "d", M::D(vec![("a".into(), num(i)), ("x".into(), M::D(vec![], i))], i)), None),
        1 => (c.put("mine", "k", text(i)).put("mine", "d", M::D(vec![("a".into(), text(i)), ("b".into(), num(i))], i)), Some("mine")),
        2 => (c.put("global", "d", M::D(vec![("b".into(), num(i))], i)).put("default", "l", M::A(vec![num(i), text(i)], i)), None),
        3 => (c.put("other", "k", num(i)).put("default", "l", M::A(vec![num(i)], i)), Some("other")),
        4 => (c, Some("global")),
        _ => (c, None),
    };
    let mut p = c.provider(NAMES[i]).from_source(format!("from {}", NAMES[i]));
    if let Some(s) = sel { p = p.selects(s); }
    if k == 5 { p = p.fails(NAMES[i]); }
    (p, c)
}
fn shown(e: &Error) -> Vec<(Kind, Vec<String>, Option<Profile>, Option<String>)> { e.clone().into_iter().map(|e| (e.kind.clone(), e.path.clone(), e.profile.clone(), e.metadata.as_ref().map(|m| m.name.to_string()))).collect() }
fn eq_err(a: &Error, b: &Error) -> bool { shown(a) == shown(b) }
fn names(f: &Figment) -> Vec<String> { f.metadata().map(|m| m.name.to_string()).collect() }
/// `model` is what both hold; every leaf of `v` has the metadata and profile of the leaf of `w`
fn alike(v: &Value, w: &Value, f: &Figment, g: &Figment) -> bool {
    let own = v.tag() == w.tag() && f.get_metadata(v.tag()) == g.get_metadata(w.tag());
    match (v, w) {
        (Value::Dict(_, a), Value::Dict(_, b)) => own && a.len() == b.len() && a.iter().zip(b).all(|((k, x), (l, y))| k == l && alike(x, y, f, g)),
        (Value::Array(_, a), Value::Array(_, b)) => own && a.len() == b.len() && a.iter().zip(b).all(|(x, y)| alike(x, y, f, g)),
        _ => own,
    }
}
/// `g` holds what `f` does, for every query
fn equivalent(f: &Figment, g: &Figment, cfg: Option<&Cfg>) {
    let (a, b) = (Provider::data(f), Provider::data(g));
    match (&a, &b, cfg) {
        (Ok(a), Ok(b), Some(c)) => {
            check(c.agrees(a), "the original does not hold what was supplied");
            check(c.agrees(b), "values are lost or changed");
            check(a.iter().zip(b).all(|((p, x), (q, y))| p == q && x.iter().zip(y).all(|((k, x), (l, y))| k == l && alike(x, y, f, g))), "provenance is lost or changed");
            check(f.profiles().eq(g.profiles()), "profiles");
            let eff = c.effective(f.profile().as_str().as_str());
            let who = |o: usize, v: &Value| g.get_metadata(v.tag()).map_or(false, |m| m.name == NAMES[o] && m.source.as_ref().map_or(false, |s| s.custom() == Some(&format!("from {}", NAMES[o])[..])));
            let whole: Dict = g.extract().unwrap_or_default();
            check(tree_agrees(&eff, &whole), "extraction result");
            for k in ["k", "d", "l"] { if let Some(m) = get(&eff, k) { check(g.find_value(k).map_or(false, |v| m.agrees(&v) && m.attributed(&v, &who)), "a value found"); } }
        }
        (Err(x), Err(y), None) => check(eq_err(x, y), "errors of the failed providers"),
        _ => check(false, "success and failure differ"),
    }
    for k in ["k", "d.a", "d.b", "l", "d", "absent"] {
        match (f.extract_inner::<u8>(k), g.extract_inner::<u8>(k)) { (Ok(x), Ok(y)) => check(x == y, "extracted value"), (Err(x), Err(y)) => check(eq_err(&x, &y), "extraction error"), _ => check(false, "one extraction fails and the other does not") }
        check(f.find_metadata(k) == g.find_metadata(k) && f.contains(k) == g.contains(k), "metadata of a key");
    }
}

/// an arbitrary figment: two or three providers by any operations
fn build(n: usize) -> (Figment, Option<Cfg>) {
    let (mut f, mut c) = (Figment::new(), Some(Cfg::default()));
    for i in 0..n {
        let k = if i == 2 { tier(2, 0) + choice("kind", tier(2, 6) as u8) } else { choice("kind", 6) };
        let o = if i == 0 { Op::Merge } else if i == 1 && !THOROUGH { [Op::Admerge, Op::Join][choice("op", 2)] } else if THOROUGH { op("op") } else { Op::Adjoin };
        let (p, d) = pool(i, k);
        f = o.apply(f, p);
        c = if k == 5 { None } else { c.map(|c| c.combine(&d, o)) };
    }
    if THOROUGH && flip("select") { f = f.select("global"); }
    (f, c)
}
/// added to an empty figment
fn empty() {
    let (f, c) = build(if flip("longer") { 3 } else { 2 });
    let how = choice("how", 7);
    let g = match how { 0 => Figment::from(f.clone()), 1 => Figment::from(&f), 2 => Figment::new().merge(f.clone()), 3 => Figment::new().admerge(&&f), 4 => Figment::new().join(f.clone()), 5 => Figment::new().adjoin(&f), _ => Figment::from(Figment::from(&f)) };
    reach("empty");
    let keeps = how == 4 || how == 5;
    check(*g.profile() == if keeps { Profile::Default } else { f.profile().clone() }, "selected profile");
    let g = if keeps { g.select(f.profile().clone()) } else { g };
    let mut exp = names(&f); exp.push("Default".into()); if how == 6 { exp.push("Default".into()); }
    check(names(&g) == exp, "metadata of the providers");
    equivalent(&f, &g, c.as_ref());
}
/// added to a figment that has values: as if the combined data were supplied, with each value's own provenance
fn onto() {
    let (base, bc) = pool(3, choice("base", 4));
    let b = Figment::new().merge(&base);
    let (f, c) = build(2);
    let o = op("with");
    let g = match choice("how", 2) { 0 => o.apply(b.clone(), f.clone()), _ => o.apply(b.clone(), &f) };
    let want = if o.incoming_wins() { f.profile().clone() } else { b.profile().clone() };
    reach("onto");
    check(*g.profile() == want, "selected profile of a combination");
    let Some(c) = c else { check(match (Provider::data(&g), Provider::data(&f)) { (Err(x), Err(y)) => eq_err(&x, &y), _ => false }, "errors of a combined figment"); return };
    let both = bc.combine(&c, o);
    let who = |k: usize, v: &Value| g.get_metadata(v.tag()).map_or(false, |m| m.name == NAMES[k] && m.source.as_ref().map_or(false, |s| s.custom() == Some(&format!("from {}", NAMES[k])[..])));
    let d = stored(&g);
    check(both.agrees(&d), "values of a combination");
    for (p, t) in &both.0 {
        let x = &d[&Profile::new(p)];
        check(tree_attributed(t, x, &|k, v| who(k, v) && v.tag().profile().map_or(p != "default" && p != "global", |q| q == **p)), "provenance in a combination");
    }
}
/// values of every kind, in every position, through every way of nesting
fn kinds() {
    let (o, pos) = (op("op"), choice("pos", 4));
    let mk = |k: usize, n: &str, og: usize| { let s = scalar(n, k); if let S::F64(b) = s { assume(b >> 52 & 0x7ff != 0x7ff); /* NaN differs from itself, also inside errors */ } let x = M::S(s, og); match pos { 0 => x, 1 => M::A(vec![num(og), x], og), 2 => M::D(vec![("a".into(), x)], og), _ => M::A(vec![M::D(vec![("q".into(), M::A(vec![x], og))], og)], og) } };
    let (a, b) = (Cfg::default().put("default", "k", mk(choice("left", KINDS), "l", 0)), Cfg::default().put(["default", "mine"][choice("p", 2)], "k", mk(choice("right", KINDS), "r", 1)));
    let mkp = |c: &Cfg, i: usize| c.provider(NAMES[i]).from_source(format!("from {}", NAMES[i]));
    let f = o.apply(Figment::from(mkp(&a, 0)), mkp(&b, 1)).select("mine");
    let g = match choice("how", 3) { 0 => Figment::from(&f), 1 => Figment::new().select("mine").adjoin(f.clone()), _ => Figment::new().admerge(&f) };
    reach("kinds");
    equivalent(&f, &g, Some(&a.combine(&b, o)));
}
/// a provider that answers everything specially
#[derive(Clone)]
struct Odd { n: u8, sel: bool, bad: bool }
impl Provider for Odd {
    fn metadata(&self) -> Metadata { Metadata::from("odd", "src").interpolater(|_, k| k.concat()) }
    fn data(&self) -> Result<Map<Profile, Dict>, Error> { if self.bad { return Err(Error::from("bad").with_path("a.b")); } Ok(figment::util::map![Profile::Global => figment::util::map!["k".to_string() => Value::from(self.n)]]) }
    fn profile(&self) -> Option<Profile> { if self.sel { Some("mine".into()) } else { None } }
}
fn as_is<P: Provider>(mk: impl Fn() -> P) {
    let p = mk();
    let (r, rr) = (&p, &&p);
    let m = |p: &dyn Fn() -> Metadata| { let m = p(); (m.name.to_string(), m.source.clone(), m.interpolate(&Profile::Default, &["x", "y"])) };
    let own = m(&|| p.metadata());
    check(m(&|| <&P as Provider>::metadata(&r)) == own && m(&|| <&&P as Provider>::metadata(&rr)) == own, "metadata of a referenced provider");
    let prof = p.profile();
    check(<&P as Provider>::profile(&r) == prof && <&&P as Provider>::profile(&rr) == prof, "profile of a referenced provider");
    match (p.data(), <&P as Provider>::data(&r), <&&P as Provider>::data(&rr)) { (Ok(a), Ok(b), Ok(c)) => check(a == b && a == c, "data of a referenced provider"), (Err(a), Err(b), Err(c)) => check(a == b && a == c, "error of a referenced provider"), _ => check(false, "a referenced provider fails differently") }
    let base = pool(0, choice("base", 2)).0;
    let o = op("op");
    let (f, g, h) = (o.apply(Figment::from(&base), mk()), o.apply(Figment::from(&base), r), o.apply(Figment::from(&base), rr));
    for g in [g, h] {
        check(f.profile() == g.profile() && names(&f) == names(&g), "profile or metadata after adding a reference");
        for k in ["k", "d.a"] {
            match (f.find_value(k), g.find_value(k)) { (Ok(a), Ok(b)) => check(a == b && f.find_metadata(k).map(|m| m.name.clone()) == g.find_metadata(k).map(|m| m.name.clone()) && f.find_metadata(k).map(|m| m.source.clone()) == g.find_metadata(k).map(|m| m.source.clone()), "value after adding a reference"), (Err(a), Err(b)) => check(eq_err(&a, &b), "error after adding a reference"), _ => check(false, "adding a reference differs") }
        }
    }
}
fn referenced() {
    let which = choice("which", 7);
    if which == 4 { env::env().push(b"PRE_K", &bytes("b", 1), env_exports::slot()); }
    reach("referenced");
    match which {
        0 => { let odd = Odd { n: u8("v"), sel: flip("sel"), bad: flip("bad") }; as_is(|| odd.clone()) }
        1 => { let v = u8("v"); as_is(|| ("k", v)) }
        2 => { let v = u8("v"); as_is(|| Serialized::from(Map::from([("k", v)]), "mine").key("d")) }
        3 => as_is(|| Json::string("{\"k\": 1}").profile("mine")),
        4 => as_is(|| Env::prefixed("PRE_").profile("mine")),
        5 => { let p = pool(1, 1).0; as_is(|| p.clone()) }
        _ => { let f = Figment::from(pool(1, 1).0).merge(pool(2, 2).0); as_is(|| f.clone()) }
    }
}
/// many providers, deeply nested figments
fn scaled() {
    let (n, depth) = ([8, 20, 40][choice("n", 3)], [1, 4, 9][choice("depth", 3)]);
    let (o, w) = (op("op"), op("with"));
    let mut f = Figment::new(); let mut c = Cfg::default();
    for i in 0..n { let d = Cfg::default().put(&["default", "mine", "global"][i % 3].to_string(), "k", M::D(vec![(nth_key(i % 7), M::A(vec![num(i % 6)], i % 6))], i % 6)).put("default", &nth_key(i), num(i % 6)); let mut p = d.provider(NAMES[i % 6]).from_source(format!("from {}", NAMES[i % 6])); if i % 6 == 4 { p = p.selects("mine"); } f = o.apply(f, p); c = c.combine(&d, o); }
    let mut g = f.clone(); let mut exp = names(&f);
    for i in 0..depth { g = if i % 2 == 0 { w.apply(Figment::new().select(f.profile().clone()), &g) } else { w.apply(Figment::new().select(f.profile().clone()), g) }; exp.push("Default".into()); }
    reach("scaled");
    check(names(&g) == exp && g.profile() == f.profile(), "metadata or profile of a nested figment");
    equivalent(&f, &g, Some(&c));
}
fn body() { match choice("part", 5) { 0 => empty(), 1 => onto(), 2 => referenced(), 3 => kinds(), _ => scaled() } }
entry!(body);
env_exports!();

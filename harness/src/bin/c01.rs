// C01: conflict resolution of merge, join, adjoin and admerge.
use figment::Figment;
use sym::model::*;
use sym::*;

const PROFILES: [&str; 3] = ["default", "other", "global"];

fn verify(f: &Figment, m: &Cfg) {
    let d = stored(f);
    check(m.agrees(&d), "stored data differs from the reference combination");
}

/// two providers, one key of every pair of shapes, at depth 0 or below a key
fn shapes() {
    let (p1, p2) = (PROFILES[choice("p1", 3)], PROFILES[choice("p2", 2)]);
    let o = op("op");
    let (a, b) = (slot("left", 0, tier(1, 1), &[0]), slot("right", 1, 1, &[1]));
    let deep = flip("deep");
    let mk = |p: &str, s: Option<M>, org: usize, extra: &str| {
        let mut c = Cfg::default();
        if let Some(s) = s { c = c.put(p, "k", if deep { M::D(vec![("n".to_string(), s)], org) } else { s }); }
        c.put(p, extra, M::S(scalar("extra", 0), org))
    };
    let (x, y) = (mk(p1, a, 0, "l"), mk(p2, b, 1, "r"));
    let f = o.apply(Figment::from(x.provider("x")), y.provider("y"));
    reach("shapes");
    verify(&f, &x.combine(&y, o));
}

/// every pair of scalar kinds (also null, unit, empty text) conflicts the same way
fn kinds() {
    let o = op("op");
    let (ka, kb) = (choice("ka", KINDS), choice("kb", KINDS));
    let wrap = choice("wrap", 3);
    let mk = |s: S, org| { let m = M::S(s, org); match wrap { 0 => m, 1 => M::D(vec![("n".to_string(), m)], org), _ => M::A(vec![m], org) } };
    let x = Cfg::default().put("default", "k", mk(scalar("a", ka), 0));
    let y = Cfg::default().put("default", "k", mk(scalar("b", kb), 1));
    let f = o.apply(Figment::from(x.provider("x")), y.provider("y"));
    reach("kinds");
    verify(&f, &x.combine(&y, o));
}

/// histories of operations
fn history() {
    let n = tier(3, 4);
    let mut f = Figment::new();
    let mut m = Cfg::default();
    for i in 0..n {
        let o = op("op");
        let x = match choice("shape", 4) {
            0 => M::S(scalar("v", 0), i),
            1 => M::A(vec![M::S(scalar("v", 0), i)], i),
            2 => M::D(vec![("n".to_string(), M::A(vec![M::S(scalar("v", 0), i)], i))], i),
            _ => M::D(vec![(["n", "m"][i % 2].to_string(), M::S(scalar("v", 0), i))], i),
        };
        let c = Cfg::default().put("default", "k", x);
        f = o.apply(f, c.provider("p"));
        m = m.combine(&c, o);
    }
    reach("history");
    verify(&f, &m);
}

/// arbitrary keys: only exactly equal keys meet, and none is lost
fn keys() {
    let o = op("op");
    let n = tier(2, 2);
    let w = tier(1, 2);
    let mk = |org: usize, nm: &str| -> Tree { let mut t: Tree = vec![]; for _ in 0..n { let k = ascii(nm, 1, w); if get(&t, &k).is_some() { continue; } t.push((k, M::S(scalar("v", 0), org))); } t };
    let (a, b) = (mk(0, "ka"), mk(1, "kb"));
    let deep = flip("deep");
    let cfg = |t: Tree, org: usize| if deep { Cfg::default().put("default", "k", M::D(t, org)) } else { Cfg(vec![("default".to_string(), t)]) };
    let (x, y) = (cfg(a, 0), cfg(b, 1));
    let f = o.apply(Figment::from(x.provider("x")), y.provider("y"));
    reach("keys");
    verify(&f, &x.combine(&y, o));
}

/// several profiles at once: each is combined on its own
fn profiles() {
    let o = op("op");
    let names = ["default", "global", "one", "two"];
    let full = tier(3, 4);
    let mk = |org: usize, nm: &str| { let mut c = Cfg::default(); for (i, p) in names.iter().enumerate() { match choice(nm, if i < full { 4 } else if org == 0 { 2 } else { 1 }) { 0 => {} 1 => c.0.push((p.to_string(), vec![])), 2 => c = c.put(p, "k", M::S(scalar("v", 0), org)), _ => c = c.put(p, "k", M::A(vec![M::S(scalar("v", 0), org)], org)) } } c };
    let (x, y) = (mk(0, "left"), mk(1, "right"));
    let f = o.apply(Figment::from(x.provider("x")), y.provider("y"));
    reach("profiles");
    verify(&f, &x.combine(&y, o));
}

/// arrays of any mix of lengths, incl. a dict or array inside: order and contents
fn arrays() {
    let o = op("op");
    let (la, lb) = (choice("la", 4), choice("lb", 4));
    let mk = |n: usize, org: usize| M::A((0..n).map(|i| match i { 1 => M::A(vec![M::S(scalar("v", 0), org)], org), 2 => M::D(vec![("q".to_string(), M::S(scalar("v", 0), org))], org), _ => M::S(scalar("v", 0), org) }).collect(), org);
    let x = Cfg::default().put("default", "k", mk(la, 0));
    let y = Cfg::default().put("default", "k", mk(lb, 1));
    let f = o.apply(Figment::from(x.provider("x")), y.provider("y"));
    reach("arrays");
    verify(&f, &x.combine(&y, o));
}

/// wide, deep and long data, many profiles, long histories
fn scaled() {
    let o = op("op");
    match choice("sort", 4) {
        0 => {
            let (wa, wb) = (choice("left", LARGE), choice("right", 2));
            let (a, b) = (large(wa, 0, 0), if wb == 0 { large(wa, 1, 1) } else { large((wa + 1) % 7, 1, 1) });
            let (x, y) = (Cfg::default().put("default", "k", a), Cfg::default().put("default", "k", b));
            let f = o.apply(Figment::from(x.provider("x")), y.provider("y"));
            reach("scaled");
            verify(&f, &x.combine(&y, o));
        }
        1 => {
            let (x, y) = (Cfg(vec![("default".into(), wide(0, 24, 0))]), Cfg(vec![("default".into(), wide(8, 40, 1))]));
            let f = o.apply(Figment::from(x.provider("x")), y.provider("y"));
            verify(&f, &x.combine(&y, o));
        }
        2 => {
            let (mut x, mut y) = (Cfg::default(), Cfg::default());
            for i in 0..12 { if i % 4 != 3 { x = x.put(&nth_key(i), "k", M::D(wide(0, 3, 0), 0)); } if i % 4 != 1 { y = y.put(&nth_key(i), "k", M::D(wide(1, 5, 1), 1)); } }
            let f = o.apply(Figment::from(x.provider("x")), y.provider("y"));
            verify(&f, &x.combine(&y, o));
        }
        _ => {
            let (o2, sh) = (op("op2"), choice("shape", 3));
            let (mut f, mut m) = (Figment::new(), Cfg::default());
            for i in 0..10 {
                let o = if i % 3 == 2 { o2 } else { o };
                let c = Cfg::default().put("default", "k", match sh { 0 => M::A(vec![fresh(i), fresh(i)], i), 1 => M::D(wide(i % 4, i % 4 + 3, i), i), _ => M::D(vec![("a".into(), if i == 6 { fresh(i) } else { M::A(vec![fresh(i)], i) })], i) }).put("default", &nth_key(i), fresh(i));
                f = o.apply(f, c.provider("p")); m = m.combine(&c, o);
            }
            verify(&f, &m);
        }
    }
}
fn body() { match choice("part", 7) { 0 => shapes(), 1 => kinds(), 2 => history(), 3 => keys(), 4 => profiles(), 5 => arrays(), _ => scaled() } }
entry!(body);

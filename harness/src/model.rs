//! An independent reference model of configuration trees: who supplied what,
//! and how two trees combine.  Written from the documentation, not the code.
use crate::*;
use figment::value::{Dict, Empty, Map, Num, Value};
use figment::{Figment, Profile};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op { Merge, Join, Adjoin, Admerge }
pub const OPS: [Op; 4] = [Op::Merge, Op::Join, Op::Adjoin, Op::Admerge];
impl Op {
    pub fn incoming_wins(self) -> bool { matches!(self, Op::Merge | Op::Admerge) }
    pub fn concatenates(self) -> bool { matches!(self, Op::Adjoin | Op::Admerge) }
    #[track_caller]
    pub fn apply<P: figment::Provider>(self, f: Figment, p: P) -> Figment {
        match self { Op::Merge => f.merge(p), Op::Join => f.join(p), Op::Adjoin => f.adjoin(p), Op::Admerge => f.admerge(p) }
    }
}
pub fn op(name: &str) -> Op { OPS[choice(name, 4)] }

/// scalars: contents may be symbolic, the kind is concrete
#[derive(Clone, Debug)]
pub enum S { U32(u32), I64(i64), Str(Vec<u8>), Bool(bool), Char(u8), None, Unit, F64(u64) }
impl S {
    pub fn value(&self) -> Value {
        match self {
            S::U32(x) => Value::from(*x), S::I64(x) => Value::from(*x), S::Str(b) => Value::from(unsafe { String::from_utf8_unchecked(b.clone()) }),
            S::Bool(b) => Value::from(*b), S::Char(c) => Value::from(*c as char), S::None => Value::from(Empty::None), S::Unit => Value::from(Empty::Unit), S::F64(x) => Value::from(f64::from_bits(*x)),
        }
    }
    pub fn agrees(&self, v: &Value) -> bool {
        match (self, v) {
            (S::U32(x), Value::Num(_, Num::U32(y))) => x == y, (S::I64(x), Value::Num(_, Num::I64(y))) => x == y, (S::Str(b), Value::String(_, s)) => same(b, s.as_bytes()),
            (S::Bool(a), Value::Bool(_, b)) => a == b, (S::Char(a), Value::Char(_, b)) => *a as u32 == *b as u32,
            (S::None, Value::Empty(_, Empty::None)) | (S::Unit, Value::Empty(_, Empty::Unit)) => true, (S::F64(x), Value::Num(_, Num::F64(y))) => *x == y.to_bits(), _ => false,
        }
    }
}
pub fn scalar(name: &str, kind: usize) -> S {
    match kind {
        0 => S::U32(u32(name)), 1 => S::Str(ascii_n(name, 1).into_bytes()), 2 => S::Bool(bool(name)), 3 => S::None, 4 => S::Unit, 5 => S::I64(u64(name) as i64), 6 => { let c = u8(name); assume(c < 128); S::Char(c) }
        7 => S::Str(vec![]), _ => S::F64(u64(name)),
    }
}
pub const KINDS: u8 = 9;

/// a tree; `usize` is the index of the provider that supplied the node
#[derive(Clone, Debug)]
pub enum M { S(S, usize), A(Vec<M>, usize), D(Vec<(String, M)>, usize) }

pub type Tree = Vec<(String, M)>;

impl M {
    pub fn value(&self) -> Value {
        match self { M::S(s, _) => s.value(), M::A(v, _) => Value::from(v.iter().map(|x| x.value()).collect::<Vec<Value>>()), M::D(d, _) => Value::from(dict(d)) }
    }
    pub fn combine(&self, b: &M, op: Op) -> M {
        match (self, b) {
            (M::D(x, o), M::D(y, p)) => M::D(combine(x, y, op), if op.incoming_wins() { *p } else { *o }),
            (M::A(x, o), M::A(y, _)) if op.concatenates() => M::A(x.iter().chain(y.iter()).cloned().collect(), *o),
            _ => if op.incoming_wins() { b.clone() } else { self.clone() },
        }
    }
    /// structure and contents agree (no short-circuit on symbolic contents)
    pub fn agrees(&self, v: &Value) -> bool {
        match (self, v) {
            (M::S(s, _), v) => s.agrees(v),
            (M::A(a, _), Value::Array(_, b)) => { if a.len() != b.len() { return false; } let mut ok = true; for i in 0..a.len() { ok &= a[i].agrees(&b[i]); } ok }
            (M::D(a, _), Value::Dict(_, b)) => tree_agrees(a, b),
            _ => false,
        }
    }
    /// every leaf and array element reports the metadata of its provider
    pub fn provenance(&self, v: &Value, f: &Figment, names: &[&str]) -> bool {
        let here = |o: usize| f.get_metadata(v.tag()).map_or(false, |m| m.name == names[o]);
        match (self, v) {
            (M::S(_, o), _) => here(*o),
            (M::A(a, o), Value::Array(_, b)) => (!a.is_empty() || here(*o)) && a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.provenance(y, f, names)),
            (M::D(a, o), Value::Dict(_, b)) => (!a.is_empty() || here(*o)) && a.iter().all(|(k, x)| b.get(k).map_or(false, |y| x.provenance(y, f, names))),
            _ => false,
        }
    }
    /// every leaf, array element and empty container satisfies `ok(origin, value)`
    pub fn attributed(&self, v: &Value, ok: &dyn Fn(usize, &Value) -> bool) -> bool {
        match (self, v) {
            (M::S(_, o), _) => ok(*o, v),
            (M::A(a, o), Value::Array(_, b)) => (!a.is_empty() || ok(*o, v)) && a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.attributed(y, ok) && x.wholly(y, ok)),
            (M::D(a, o), Value::Dict(_, b)) => (!a.is_empty() || ok(*o, v)) && a.len() == b.len() && a.iter().all(|(k, x)| b.get(k).map_or(false, |y| x.attributed(y, ok))),
            _ => false,
        }
    }
    /// an array element comes whole from one provider: so do the containers in it
    fn wholly(&self, v: &Value, ok: &dyn Fn(usize, &Value) -> bool) -> bool {
        match (self, v) {
            (M::S(..), _) => true,
            (M::A(a, o), Value::Array(_, b)) => ok(*o, v) && a.iter().zip(b).all(|(x, y)| x.wholly(y, ok)),
            (M::D(a, o), Value::Dict(_, b)) => ok(*o, v) && a.iter().all(|(k, x)| b.get(k).map_or(false, |y| x.wholly(y, ok))),
            _ => false,
        }
    }
    pub fn get(&self, k: &str) -> Option<&M> { match self { M::D(d, _) => get(d, k), _ => None } }
}
pub fn get<'a>(d: &'a Tree, k: &str) -> Option<&'a M> { d.iter().find(|e| e.0 == k).map(|e| &e.1) }
pub fn dict(d: &Tree) -> Dict { d.iter().map(|(k, v)| (k.clone(), v.value())).collect() }
pub fn combine(a: &Tree, b: &Tree, op: Op) -> Tree {
    let mut out: Tree = vec![];
    for (k, x) in a { match get(b, k) { Some(y) => out.push((k.clone(), x.combine(y, op))), None => out.push((k.clone(), x.clone())) } }
    for (k, y) in b { if get(a, k).is_none() { out.push((k.clone(), y.clone())); } }
    out
}
pub fn tree_agrees(a: &Tree, b: &Dict) -> bool {
    if a.len() != b.len() { return false; }
    let mut ok = true;
    for (k, x) in a { match b.get(k) { Some(y) => ok &= x.agrees(y), None => return false } }
    ok
}
pub fn tree_provenance(a: &Tree, b: &Dict, f: &Figment, names: &[&str]) -> bool { a.iter().all(|(k, x)| b.get(k).map_or(false, |y| x.provenance(y, f, names))) }

pub fn tree_attributed(a: &Tree, b: &Dict, ok: &dyn Fn(usize, &Value) -> bool) -> bool { a.len() == b.len() && a.iter().all(|(k, x)| b.get(k).map_or(false, |y| x.attributed(y, ok))) }

/// look a dotted path up in the model
pub fn at<'a>(d: &'a Tree, path: &[&str]) -> Option<&'a M> {
    let mut cur = get(d, path[0])?;
    for k in &path[1..] { cur = cur.get(k)?; }
    Some(cur)
}

/// per-profile data
#[derive(Clone, Debug, Default)]
pub struct Cfg(pub Vec<(String, Tree)>);
impl Cfg {
    pub fn tree(&self, p: &str) -> Option<&Tree> { self.0.iter().find(|e| e.0 == p).map(|e| &e.1) }
    pub fn put(mut self, p: &str, k: &str, m: M) -> Cfg {
        match self.0.iter_mut().find(|e| e.0 == p) { Some(e) => e.1.push((k.to_string(), m)), None => self.0.push((p.to_string(), vec![(k.to_string(), m)])) }
        self
    }
    pub fn data(&self) -> Map<Profile, Dict> { self.0.iter().map(|(p, t)| (Profile::new(p), dict(t))).collect() }
    pub fn combine(&self, b: &Cfg, op: Op) -> Cfg {
        let mut out = vec![];
        for (p, x) in &self.0 { out.push((p.clone(), match b.tree(p) { Some(y) => combine(x, y, op), None => x.clone() })); }
        for (p, y) in &b.0 { if self.tree(p).is_none() { out.push((p.clone(), y.clone())); } }
        Cfg(out)
    }
    /// the effective configuration under a selected profile
    pub fn effective(&self, sel: &str) -> Tree {
        let mut t = self.tree("default").cloned().unwrap_or_default();
        if sel != "default" && sel != "global" { if let Some(x) = self.tree(sel) { t = combine(&t, x, Op::Merge); } }
        if let Some(g) = self.tree("global") { t = combine(&t, g, Op::Merge); }
        t
    }
    pub fn agrees(&self, d: &Map<Profile, Dict>) -> bool {
        if self.0.len() != d.len() { return false; }
        let mut ok = true;
        for (p, t) in &self.0 { match d.get(&Profile::new(p)) { Some(x) => ok &= tree_agrees(t, x), None => return false } }
        ok
    }
    pub fn provider(&self, name: &str) -> prov::P { let mut q = prov::p(name); q.data = self.data(); q }
}
/// the figment's full stored data
pub fn stored(f: &Figment) -> Map<Profile, Dict> { figment::Provider::data(f).expect("no provider failed") }

/// a shape for one slot, chosen exhaustively; `None` is an absent key
pub fn slot(name: &str, org: usize, depth: usize, kinds: &[usize]) -> Option<M> {
    let scal = |n: &str| { let k = if kinds.len() == 1 { kinds[0] } else { kinds[choice("kind", kinds.len() as u8)] }; M::S(scalar(n, k), org) };
    match choice(name, if depth > 0 { 6 } else { 4 }) {
        0 => None,
        1 => Some(scal(name)),
        2 => Some(M::A(vec![], org)),
        3 => Some(M::A(vec![scal(name), scal(name)], org)),
        4 => Some(M::D(vec![], org)),
        _ => { let mut d = vec![]; for k in ["a", "b"] { if let Some(m) = slot(k, org, depth - 1, kinds) { d.push((k.to_string(), m)); } } assume(!d.is_empty()); Some(M::D(d, org)) }
    }
}

/// a coarser shape: absent, scalar, array or dictionary with keys `a` (recursive) and `b`
pub fn piece(name: &str, org: usize, depth: usize) -> Option<M> {
    match choice(name, if depth > 0 { 4 } else { 3 }) { 0 => None, 1 => Some(M::S(scalar("v", 0), org)), 2 => Some(M::A(vec![M::S(scalar("v", 0), org)], org)),
        _ => { let mut d = vec![]; for k in ["a", "b"] { if let Some(m) = piece(k, org, if k == "a" { depth - 1 } else { 0 }) { d.push((k.to_string(), m)); } } Some(M::D(d, org)) } }
}

/// names of every sort: short and arbitrary, reserved, nearly reserved, empty, non-ASCII, long
pub const SORTS: u8 = 14;
pub fn any_name(n: &str) -> String {
    match choice("sort", SORTS) {
        0 => ascii_n(n, 1), 1 => "default".into(), 2 => "global".into(), 3 => "DeFault".into(), 4 => format!("default{}", ascii_n(n, 1)), 5 => format!("{}global", ascii_n(n, 1)), 6 => format!("global{}", ascii_n(n, 1)), 7 => format!("{}default", ascii_n(n, 1)),
        8 => String::new(), 9 => "defaul".into(), 10 => "lobal".into(), 11 => text({ let mut v = utf8(n, 2); v.push(b'k'); v }), 12 => "GLOBAL".into(), _ => "a-profile-name-of-some-length".into(),
    }
}
/// equal ignoring ASCII case, without short-circuiting
pub fn eqi(a: &str, b: &str) -> bool { let (a, b) = (a.as_bytes(), b.as_bytes()); if a.len() != b.len() { return false; } let mut ok = true; for i in 0..a.len() { ok &= a[i].to_ascii_lowercase() == b[i].to_ascii_lowercase(); } ok }

/// Large shapes of few paths: wide, deep, long.  `side` makes two of them overlap in part.
pub const LARGE: u8 = 7;
pub fn nth_key(i: usize) -> String { text(vec![b'k', b'a' + (i / 10) as u8, b'0' + (i % 10) as u8]) }
pub fn fresh(o: usize) -> M { M::S(scalar("v", 0), o) }
pub fn wide(lo: usize, hi: usize, o: usize) -> Tree { (lo..hi).map(|i| (nth_key(i), fresh(o))).collect() }
/// `n` nested dictionaries, each with a key of its own (`l` or `r`) and one both sides have
pub fn deep(n: usize, side: usize, o: usize) -> M {
    let mut m = fresh(o);
    for i in 0..n { m = M::D(vec![("a".into(), m), (["l", "r"][side].into(), fresh(o)), ("x".into(), if i % 3 == 0 { M::A(vec![fresh(o)], o) } else { fresh(o) })], o); }
    m
}
pub fn large(which: usize, side: usize, o: usize) -> M {
    match which {
        0 => M::D(wide(side * 30, side * 30 + 70, o), o),
        1 => deep(40, side, o),
        2 => M::A((0..70 + 3 * side).map(|i| match i { 3 => M::D(vec![("q".into(), fresh(o))], o), 67 => M::A(vec![fresh(o)], o), _ => fresh(o) }).collect(), o),
        3 => { let mut s = vec![b'y'; 300 + side]; s[290] = ascii_n("v", 1).into_bytes()[0]; M::S(S::Str(s), o) }
        4 => M::D((0..6).map(|i| (nth_key(i + side), M::D(wide(side * 3, side * 3 + 6, o), o))).collect(), o),
        5 => { let mut m = fresh(o); for i in 0..40 { m = if i % 2 == 0 { M::A(vec![m, fresh(o)], o) } else { M::D(vec![("a".into(), m)], o) }; } m }
        _ => M::D(vec![(text([b'z'; 140].to_vec()), M::A(vec![fresh(o); 6], o)), (text([b'z'; 141].to_vec()), M::D(vec![(["l", "r"][side].into(), fresh(o))], o))], o),
    }
}

//! Hash-consed bit-vector term DAG with constant folding, byte-domain tables
//! and per-term variable support.  Variables are all 8 bits wide.
use std::collections::HashMap;
use std::rc::Rc;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, Var, Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt,
    FAdd, FSub, FMul, FDiv, FEq, FLt, FLe, FUno, FExt, FTrunc, UI2F, SI2F, F2UI, F2SI,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u16, pub a: u32, pub b: u32, pub c: u32 }

#[derive(Clone, Debug)]
pub enum V { C(u128), S(T), A(Rc<Vec<V>>) }

pub struct Terms {
    pub nodes: Vec<Node>,
    map: HashMap<Node, T>,
    pub consts: Vec<u128>,
    cmap: HashMap<u128, u32>,
    pub sup: Vec<u32>,              // per node: support id
    pub sups: Vec<Rc<[u32]>>,
    supmap: HashMap<Rc<[u32]>, u32>,
    unioncache: HashMap<(u32, u32), u32>,
    tables: HashMap<T, [u64; 4]>,
    pub nvars: u32,
    pub varnames: Vec<String>,
}

static mut TERMS: Option<Terms> = None;
#[allow(static_mut_refs)]
pub fn tm() -> &'static mut Terms {
    unsafe {
        if TERMS.is_none() { TERMS = Some(Terms::new()); }
        TERMS.as_mut().unwrap()
    }
}

#[inline(always)]
pub fn mask(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
#[inline(always)]
pub fn sext(v: u128, w: u32) -> i128 {
    if w == 0 { return 0; }
    let s = 128 - w; ((v << s) as i128) >> s
}

fn fold(op: Op, w: u32, ow: u32, a: u128, b: u128) -> Option<u128> {
    // ow: operand width
    let m = mask(w);
    Some(match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 { return Some(if x < 0 { 1 } else { m }) } else { (x.wrapping_div(y) as u128) & m }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let s = sext(a, w); let sh = if b >= w as u128 { w - 1 } else { b as u32 }; ((s >> sh) as u128) & m }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, ow) < sext(b, ow)) as u128,
        Op::Sle => (sext(a, ow) <= sext(b, ow)) as u128,
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
            if w == 64 {
                let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
                let r = match op { Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, _ => x / y };
                r.to_bits() as u128
            } else {
                let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                let r = match op { Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, _ => x / y };
                r.to_bits() as u128
            }
        }
        Op::FEq | Op::FLt | Op::FLe | Op::FUno => {
            let (x, y) = if ow == 64 { (f64::from_bits(a as u64), f64::from_bits(b as u64)) }
                else { (f32::from_bits(a as u32) as f64, f32::from_bits(b as u32) as f64) };
            (match op { Op::FEq => x == y, Op::FLt => x < y, Op::FLe => x <= y, _ => x.is_nan() || y.is_nan() }) as u128
        }
        _ => return None,
    })
}

fn fold1(op: Op, w: u32, ow: u32, a: u128, lo: u32) -> u128 {
    let m = mask(w);
    match op {
        Op::Extract => (a >> lo) & m,
        Op::ZExt => a,
        Op::SExt => (sext(a, ow) as u128) & m,
        Op::FExt => (f32::from_bits(a as u32) as f64).to_bits() as u128,
        Op::FTrunc => (f64::from_bits(a as u64) as f32).to_bits() as u128,
        Op::UI2F => if w == 64 { (a as f64).to_bits() as u128 } else { (a as f32).to_bits() as u128 },
        Op::SI2F => { let s = sext(a, ow); if w == 64 { (s as f64).to_bits() as u128 } else { (s as f32).to_bits() as u128 } }
        Op::F2UI => { let f = if ow == 64 { f64::from_bits(a as u64) } else { f32::from_bits(a as u32) as f64 }; (f as u128) & m }
        Op::F2SI => { let f = if ow == 64 { f64::from_bits(a as u64) } else { f32::from_bits(a as u32) as f64 }; (f as i128 as u128) & m }
        _ => unreachable!(),
    }
}

impl Terms {
    fn new() -> Self {
        let mut t = Terms { nodes: vec![], map: HashMap::new(), consts: vec![], cmap: HashMap::new(), sup: vec![],
            sups: vec![], supmap: HashMap::new(), unioncache: HashMap::new(), tables: HashMap::new(), nvars: 0, varnames: vec![] };
        let e: Rc<[u32]> = Rc::from(vec![]);
        t.sups.push(e.clone()); t.supmap.insert(e, 0);
        t.constant(1, 0); // term 0 is never symbolic: memory uses 0 for "concrete"
        t
    }
    fn supid(&mut self, v: Vec<u32>) -> u32 {
        let r: Rc<[u32]> = Rc::from(v);
        if let Some(&i) = self.supmap.get(&r) { return i; }
        let i = self.sups.len() as u32; self.sups.push(r.clone()); self.supmap.insert(r, i); i
    }
    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 { return a; }
        if a == 0 { return b; }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.unioncache.get(&k) { return r; }
        let mut v: Vec<u32> = self.sups[a as usize].iter().chain(self.sups[b as usize].iter()).copied().collect();
        v.sort_unstable(); v.dedup();
        let r = self.supid(v); self.unioncache.insert(k, r); r
    }
    fn intern(&mut self, n: Node) -> T {
        if let Some(&t) = self.map.get(&n) { return t; }
        let s = match n.op {
            Op::Const => 0,
            Op::Var => self.supid(vec![n.a]),
            Op::Extract | Op::ZExt | Op::SExt | Op::FExt | Op::FTrunc | Op::UI2F | Op::SI2F | Op::F2UI | Op::F2SI => self.sup[n.a as usize],
            Op::Ite => { let s = self.union(self.sup[n.a as usize], self.sup[n.b as usize]); self.union(s, self.sup[n.c as usize]) }
            _ => self.union(self.sup[n.a as usize], self.sup[n.b as usize]),
        };
        let t = self.nodes.len() as T;
        self.nodes.push(n); self.sup.push(s); self.map.insert(n, t); t
    }
    pub fn constant(&mut self, w: u32, v: u128) -> T {
        let v = v & mask(w);
        let ci = match self.cmap.get(&v) { Some(&i) => i, None => { let i = self.consts.len() as u32; self.consts.push(v); self.cmap.insert(v, i); i } };
        self.intern(Node { op: Op::Const, w: w as u16, a: ci, b: 0, c: 0 })
    }
    pub fn new_var(&mut self, name: &str) -> T {
        let i = self.nvars; self.nvars += 1; self.varnames.push(name.to_string());
        self.intern(Node { op: Op::Var, w: 8, a: i, b: 0, c: 0 })
    }
    pub fn var(&mut self, i: u32) -> T { self.intern(Node { op: Op::Var, w: 8, a: i, b: 0, c: 0 }) }
    #[inline] pub fn w(&self, t: T) -> u32 { self.nodes[t as usize].w as u32 }
    #[inline] pub fn kval(&self, t: T) -> Option<u128> {
        let n = &self.nodes[t as usize]; if n.op == Op::Const { Some(self.consts[n.a as usize]) } else { None }
    }
    #[inline] pub fn support(&self, t: T) -> Rc<[u32]> { self.sups[self.sup[t as usize] as usize].clone() }
    /// to term
    pub fn t(&mut self, v: &V, w: u32) -> T {
        match v { V::C(c) => self.constant(w, *c), V::S(t) => { debug_assert_eq!(self.w(*t), w); *t } V::A(_) => panic!("aggregate as term") }
    }
    pub fn v(&self, t: T) -> V { match self.kval(t) { Some(c) => V::C(c), None => V::S(t) } }

    pub fn not(&mut self, t: T) -> T { let o = self.constant(1, 1); self.bin(Op::Xor, t, o) }

    pub fn bin(&mut self, op: Op, a: T, b: T) -> T {
        let (mut a, mut b) = (a, b);
        let ow = self.w(a);
        debug_assert_eq!(ow, self.w(b), "{:?}", op);
        let w = match op { Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FEq | Op::FLt | Op::FLe | Op::FUno => 1, _ => ow };
        if let (Some(x), Some(y)) = (self.kval(a), self.kval(b)) {
            if let Some(r) = fold(op, w, ow, x, y) { return self.constant(w, r); }
        }
        // commutative: constant on right, else ordered
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            let ka = self.kval(a).is_some(); let kb = self.kval(b).is_some();
            if (ka && !kb) || (!ka && !kb && a > b) { std::mem::swap(&mut a, &mut b); }
        }
        let kb = self.kval(b);
        let full = mask(ow);
        match op {
            Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if kb == Some(0) => return a,
            Op::And | Op::Mul if kb == Some(0) => return b,
            Op::And if kb == Some(full) => return a,
            Op::Or if kb == Some(full) => return b,
            Op::Mul | Op::UDiv | Op::SDiv if kb == Some(1) => return a,
            Op::And | Op::Or if a == b => return a,
            Op::Sub | Op::Xor if a == b => return self.constant(w, 0),
            Op::Eq | Op::Ule | Op::Sle if a == b => return self.constant(1, 1),
            Op::Ult | Op::Slt if a == b => return self.constant(1, 0),
            Op::Ult if kb == Some(0) => return self.constant(1, 0),
            Op::Ule if kb == Some(full) => return self.constant(1, 1),
            Op::Ult if kb == Some(1) => { let z = self.constant(ow, 0); return self.bin(Op::Eq, a, z) }
            Op::Shl | Op::LShr if kb.map_or(false, |k| k >= ow as u128) => return self.constant(w, 0),
            _ => {}
        }
        let na = self.nodes[a as usize];
        // double negation
        if op == Op::Xor && ow == 1 && kb == Some(1) && na.op == Op::Xor && self.kval(na.b) == Some(1) { return na.a; }
        if op == Op::Add {
            if let Some(k) = kb {
                if na.op == Op::Add { if let Some(k2) = self.kval(na.b) { let c = self.constant(w, k.wrapping_add(k2)); return self.bin(Op::Add, na.a, c) } }
                if na.op == Op::Sub { if let Some(k2) = self.kval(na.b) { let c = self.constant(w, k.wrapping_sub(k2)); return self.bin(Op::Add, na.a, c) } }
            }
        }
        if op == Op::Sub { if let Some(k) = kb { let c = self.constant(w, (0u128).wrapping_sub(k)); return self.bin(Op::Add, a, c) } }
        if matches!(op, Op::And | Op::Or | Op::Xor) {
            if let Some(k) = kb {
                if na.op == op { if let Some(k2) = self.kval(na.b) {
                    let r = fold(op, w, ow, k, k2).unwrap(); let c = self.constant(w, r); return self.bin(op, na.a, c) } }
            }
        }
        if op == Op::And {
            if let Some(k) = kb {
                // low mask -> zext(extract)
                if k & (k + 1) == 0 {
                    let n = 128 - k.leading_zeros();
                    if na.op == Op::ZExt && self.w(na.a) <= n { return a; }
                    let e = self.extract(a, 0, n); return self.zext(e, w);
                }
                if na.op == Op::ZExt {
                    let iw = self.w(na.a);
                    let c = self.constant(iw, k); let x = self.bin(Op::And, na.a, c); return self.zext(x, w);
                }
            }
            if na.op == Op::ZExt && self.nodes[b as usize].op == Op::ZExt {
                let nb = self.nodes[b as usize];
                if self.w(na.a) == self.w(nb.a) { let x = self.bin(Op::And, na.a, nb.a); return self.zext(x, w); }
            }
        }
        if op == Op::LShr {
            if let Some(k) = kb { let k = k as u32; let e = self.extract(a, k, ow - k); return self.zext(e, w) }
        }
        if op == Op::Shl {
            if let Some(k) = kb { let k = k as u32; let e = self.extract(a, 0, ow - k); let z = self.constant(k, 0); return self.concat(e, z) }
        }
        if op == Op::Or || op == Op::Add || op == Op::Xor {
            // (x << k) | zext(y) with disjoint bits -> concat
            for (p, q) in [(a, b), (b, a)] {
                let np = self.nodes[p as usize]; let nq = self.nodes[q as usize];
                if np.op == Op::Concat && self.kval(np.b) == Some(0) {
                    let lw = self.w(np.b);
                    if nq.op == Op::ZExt && self.w(nq.a) <= lw {
                        let lo = self.zext(nq.a, lw); return self.concat(np.a, lo);
                    }
                    if let Some(k) = self.kval(q) { if k & !mask(lw) == 0 { let lo = self.constant(lw, k); return self.concat(np.a, lo); } }
                }
            }
        }
        if op == Op::Eq {
            if let Some(k) = kb {
                if ow == 1 { return if k == 1 { a } else { self.not(a) } }
                match na.op {
                    Op::ZExt => {
                        let iw = self.w(na.a);
                        if k & !mask(iw) != 0 { return self.constant(1, 0); }
                        let c = self.constant(iw, k); return self.bin(Op::Eq, na.a, c);
                    }
                    Op::SExt => {
                        let iw = self.w(na.a);
                        let kk = k & mask(iw);
                        if (sext(kk, iw) as u128) & mask(ow) != k { return self.constant(1, 0); }
                        let c = self.constant(iw, kk); return self.bin(Op::Eq, na.a, c);
                    }
                    Op::Concat => {
                        let lw = self.w(na.b); let hw = self.w(na.a);
                        let lo = self.constant(lw, k & mask(lw)); let hi = self.constant(hw, k >> lw);
                        let x = self.bin(Op::Eq, na.a, hi); let y = self.bin(Op::Eq, na.b, lo);
                        return self.bin(Op::And, x, y);
                    }
                    Op::Ite => {
                        let (kb1, kc1) = (self.kval(na.b), self.kval(na.c));
                        if kb1.is_some() || kc1.is_some() {
                            let x = self.bin(Op::Eq, na.b, b); let y = self.bin(Op::Eq, na.c, b);
                            return self.ite(na.a, x, y);
                        }
                    }
                    Op::Add => if let Some(k2) = self.kval(na.b) {
                        let c = self.constant(ow, k.wrapping_sub(k2)); return self.bin(Op::Eq, na.a, c);
                    },
                    Op::Xor => if let Some(k2) = self.kval(na.b) {
                        let c = self.constant(ow, k ^ k2); return self.bin(Op::Eq, na.a, c);
                    },
                    _ => {}
                }
            } else if ow == 1 {
                let x = self.bin(Op::Xor, a, b); return self.not(x);
            } else {
                let nb = self.nodes[b as usize];
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Eq, na.a, nb.a); }
                if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                    let x = self.bin(Op::Eq, na.a, nb.a); let y = self.bin(Op::Eq, na.b, nb.b); return self.bin(Op::And, x, y);
                }
            }
        }
        if matches!(op, Op::Ult | Op::Ule) {
            if let Some(k) = kb {
                if na.op == Op::ZExt {
                    let iw = self.w(na.a);
                    if k > mask(iw) { return self.constant(1, 1); }
                    let c = self.constant(iw, k); return self.bin(op, na.a, c);
                }
                if na.op == Op::Ite && self.kval(na.b).is_some() && self.kval(na.c).is_some() {
                    let x = self.bin(op, na.b, b); let y = self.bin(op, na.c, b); return self.ite(na.a, x, y);
                }
            } else if let Some(k) = self.kval(a) {
                let nb = self.nodes[b as usize];
                if nb.op == Op::ZExt {
                    let iw = self.w(nb.a);
                    if k > mask(iw) { return self.constant(1, 0); }
                    let c = self.constant(iw, k); return self.bin(op, c, nb.a);
                }
                if nb.op == Op::Ite && self.kval(nb.b).is_some() && self.kval(nb.c).is_some() {
                    let x = self.bin(op, a, nb.b); let y = self.bin(op, a, nb.c); return self.ite(nb.a, x, y);
                }
            } else {
                let nb = self.nodes[b as usize];
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(op, na.a, nb.a); }
            }
        }
        if matches!(op, Op::Slt | Op::Sle) {
            // zext operands are non-negative
            let nb = self.nodes[b as usize];
            let nna = na.op == Op::ZExt || self.kval(a).map_or(false, |k| sext(k, ow) >= 0);
            let nnb = nb.op == Op::ZExt || self.kval(b).map_or(false, |k| sext(k, ow) >= 0);
            if nna && nnb { return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b); }
            if na.op == Op::Ite && self.kval(na.b).is_some() && self.kval(na.c).is_some() && kb.is_some() {
                let x = self.bin(op, na.b, b); let y = self.bin(op, na.c, b); return self.ite(na.a, x, y);
            }
        }
        if op == Op::And && ow == 1 {
            // x & !x
            if na.op == Op::Xor && na.a == b && self.kval(na.b) == Some(1) { return self.constant(1, 0); }
            let nb = self.nodes[b as usize];
            if nb.op == Op::Xor && nb.a == a && self.kval(nb.b) == Some(1) { return self.constant(1, 0); }
        }
        if op == Op::Or && ow == 1 {
            if na.op == Op::Xor && na.a == b && self.kval(na.b) == Some(1) { return self.constant(1, 1); }
            let nb = self.nodes[b as usize];
            if nb.op == Op::Xor && nb.a == a && self.kval(nb.b) == Some(1) { return self.constant(1, 1); }
        }
        self.intern(Node { op, w: w as u16, a, b, c: 0 })
    }

    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(k) = self.kval(c) { return if k != 0 { a } else { b } }
        if a == b { return a; }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.kval(a), self.kval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => { let n = self.not(c); return self.bin(Op::And, n, b) }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => { let n = self.not(c); return self.bin(Op::Or, n, a) }
                _ => {}
            }
        }
        let nc = self.nodes[c as usize];
        if nc.op == Op::Xor && self.kval(nc.b) == Some(1) { return self.ite(nc.a, b, a); }
        // ite(c, x, ite(c, y, z)) -> ite(c, x, z)
        let nb = self.nodes[b as usize];
        if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        let na = self.nodes[a as usize];
        if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        self.intern(Node { op: Op::Ite, w: w as u16, a: c, b: a, c: b })
    }
    pub fn zext(&mut self, a: T, w: u32) -> T {
        let ow = self.w(a);
        if ow == w { return a; }
        if let Some(k) = self.kval(a) { return self.constant(w, k); }
        let n = self.nodes[a as usize];
        if n.op == Op::ZExt { return self.zext(n.a, w); }
        self.intern(Node { op: Op::ZExt, w: w as u16, a, b: 0, c: 0 })
    }
    pub fn sext(&mut self, a: T, w: u32) -> T {
        let ow = self.w(a);
        if ow == w { return a; }
        if let Some(k) = self.kval(a) { return self.constant(w, sext(k, ow) as u128); }
        let n = self.nodes[a as usize];
        if n.op == Op::ZExt { return self.zext(n.a, w); }
        if n.op == Op::SExt { return self.sext(n.a, w); }
        self.intern(Node { op: Op::SExt, w: w as u16, a, b: 0, c: 0 })
    }
    pub fn extract(&mut self, a: T, lo: u32, w: u32) -> T {
        let ow = self.w(a);
        if lo == 0 && w == ow { return a; }
        if let Some(k) = self.kval(a) { return self.constant(w, k >> lo); }
        let n = self.nodes[a as usize];
        match n.op {
            Op::Extract => return self.extract(n.a, lo + n.b, w),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { return self.constant(w, 0); }
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                let e = self.extract(n.a, lo, iw - lo); return self.zext(e, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                if lo < iw { let e = self.extract(n.a, lo, iw - lo); return self.sext(e, w); }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw { return self.extract(n.b, lo, w); }
                if lo >= lw { return self.extract(n.a, lo - lw, w); }
                let h = self.extract(n.a, 0, lo + w - lw); let l = self.extract(n.b, lo, lw - lo);
                return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor => {
                if self.kval(n.b).is_some() || w == 1 {
                    let x = self.extract(n.a, lo, w); let y = self.extract(n.b, lo, w); return self.bin(n.op, x, y);
                }
            }
            Op::Ite => {
                if self.kval(n.b).is_some() || self.kval(n.c).is_some() {
                    let x = self.extract(n.b, lo, w); let y = self.extract(n.c, lo, w); return self.ite(n.a, x, y);
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w); let y = self.extract(n.b, 0, w); return self.bin(n.op, x, y);
            }
            _ => {}
        }
        self.intern(Node { op: Op::Extract, w: w as u16, a, b: lo, c: 0 })
    }
    /// a is the high part
    pub fn concat(&mut self, a: T, b: T) -> T {
        let w = self.w(a) + self.w(b);
        if let (Some(x), Some(y)) = (self.kval(a), self.kval(b)) { let bw = self.w(b); return self.constant(w, (x << bw) | y); }
        if self.kval(a) == Some(0) { return self.zext(b, w); }
        let na = self.nodes[a as usize]; let nb = self.nodes[b as usize];
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && nb.b + self.w(b) == na.b {
            return self.extract(na.a, nb.b, w);
        }
        if na.op == Op::ZExt && self.kval(b) != Some(0) || na.op == Op::ZExt {
            // concat(zext(x), b) = zext(concat(x,b))
            let c = self.concat(na.a, b); return self.zext(c, w);
        }
        if nb.op == Op::Concat {
            // right assoc -> try to merge extracts: concat(a, concat(c,d)) = concat(concat(a,c), d)
            let nc = self.nodes[nb.a as usize];
            if na.op == Op::Extract && nc.op == Op::Extract && na.a == nc.a && nc.b + self.w(nb.a) == na.b {
                let h = self.concat(a, nb.a); return self.concat(h, nb.b);
            }
        }
        self.intern(Node { op: Op::Concat, w: w as u16, a, b, c: 0 })
    }
    pub fn un(&mut self, op: Op, a: T, w: u32) -> T {
        let ow = self.w(a);
        if let Some(k) = self.kval(a) { return self.constant(w, fold1(op, w, ow, k, 0)); }
        self.intern(Node { op, w: w as u16, a, b: 0, c: 0 })
    }

    /// topological list of the sub-DAG
    fn topo(&self, t: T, out: &mut Vec<T>, idx: &mut HashMap<T, u32>) {
        let mut st = vec![(t, false)];
        while let Some((x, done)) = st.pop() {
            if idx.contains_key(&x) { continue; }
            if done { idx.insert(x, out.len() as u32); out.push(x); continue; }
            st.push((x, true));
            let n = self.nodes[x as usize];
            match n.op {
                Op::Const | Op::Var => {}
                Op::Extract | Op::ZExt | Op::SExt | Op::FExt | Op::FTrunc | Op::UI2F | Op::SI2F | Op::F2UI | Op::F2SI => st.push((n.a, false)),
                Op::Ite => { st.push((n.a, false)); st.push((n.b, false)); st.push((n.c, false)); }
                _ => { st.push((n.a, false)); st.push((n.b, false)); }
            }
        }
    }
    pub fn prog(&self, t: T) -> Prog {
        let mut out = vec![]; let mut idx = HashMap::new();
        self.topo(t, &mut out, &mut idx);
        let mut ins = Vec::with_capacity(out.len());
        for &x in &out {
            let n = self.nodes[x as usize];
            let g = |y: u32| *idx.get(&y).unwrap();
            let w = n.w as u32;
            ins.push(match n.op {
                Op::Const => PI { op: n.op, w, ow: 0, a: 0, b: 0, c: 0, k: self.consts[n.a as usize] },
                Op::Var => PI { op: n.op, w, ow: 0, a: n.a, b: 0, c: 0, k: 0 },
                Op::Extract | Op::ZExt | Op::SExt | Op::FExt | Op::FTrunc | Op::UI2F | Op::SI2F | Op::F2UI | Op::F2SI =>
                    PI { op: n.op, w, ow: self.w(n.a), a: g(n.a), b: n.b, c: 0, k: 0 },
                Op::Ite => PI { op: n.op, w, ow: w, a: g(n.a), b: g(n.b), c: g(n.c), k: 0 },
                Op::Concat => PI { op: n.op, w, ow: self.w(n.b), a: g(n.a), b: g(n.b), c: 0, k: 0 },
                _ => PI { op: n.op, w, ow: self.w(n.a), a: g(n.a), b: g(n.b), c: 0, k: 0 },
            });
        }
        Prog { ins, regs: vec![] }
    }
    pub fn eval(&self, t: T, m: &[u8]) -> u128 {
        if let Some(k) = self.kval(t) { return k; }
        let mut p = self.prog(t);
        p.run(|v| *m.get(v as usize).unwrap_or(&0))
    }
    /// truth table of a width-1 term with single-var support
    pub fn table(&mut self, t: T) -> [u64; 4] {
        if let Some(r) = self.tables.get(&t) { return *r; }
        let n = self.nodes[t as usize];
        let r = if n.op == Op::Xor && n.w == 1 && self.kval(n.b) == Some(1) {
            let r = self.table(n.a); [!r[0], !r[1], !r[2], !r[3]]
        } else {
            let mut p = self.prog(t);
            let mut r = [0u64; 4];
            for x in 0..256usize { if p.run(|_| x as u8) & 1 == 1 { r[x >> 6] |= 1 << (x & 63); } }
            r
        };
        self.tables.insert(t, r); r
    }
}

#[derive(Clone, Copy)]
pub struct PI { op: Op, w: u32, ow: u32, a: u32, b: u32, c: u32, k: u128 }
pub struct Prog { ins: Vec<PI>, regs: Vec<u128> }
impl Prog {
    pub fn run<F: Fn(u32) -> u8>(&mut self, f: F) -> u128 {
        self.regs.clear();
        for i in &self.ins {
            let r = match i.op {
                Op::Const => i.k,
                Op::Var => f(i.a) as u128,
                Op::Extract => (self.regs[i.a as usize] >> i.b) & mask(i.w),
                Op::ZExt | Op::SExt | Op::FExt | Op::FTrunc | Op::UI2F | Op::SI2F | Op::F2UI | Op::F2SI => fold1(i.op, i.w, i.ow, self.regs[i.a as usize], 0),
                Op::Ite => if self.regs[i.a as usize] != 0 { self.regs[i.b as usize] } else { self.regs[i.c as usize] },
                Op::Concat => (self.regs[i.a as usize] << i.ow) | self.regs[i.b as usize],
                _ => fold(i.op, i.w, i.ow, self.regs[i.a as usize], self.regs[i.b as usize]).unwrap(),
            };
            self.regs.push(r);
        }
        *self.regs.last().unwrap()
    }
}

// ---- V-level helpers -------------------------------------------------------
pub fn vbin(op: Op, w: u32, a: &V, b: &V) -> V {
    if let (V::C(x), V::C(y)) = (a, b) {
        let rw = match op { Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FEq | Op::FLt | Op::FLe | Op::FUno => 1, _ => w };
        return V::C(fold(op, rw, w, *x, *y).unwrap());
    }
    let m = tm();
    let (x, y) = (m.t(a, w), m.t(b, w));
    let r = m.bin(op, x, y); m.v(r)
}
pub fn vnot(a: &V) -> V { vbin(Op::Xor, 1, a, &V::C(1)) }
pub fn vite(c: &V, w: u32, a: &V, b: &V) -> V {
    match c {
        V::C(k) => if *k != 0 { a.clone() } else { b.clone() },
        V::S(ct) => {
            match (a, b) {
                (V::A(x), V::A(_)) if x.is_empty() => a.clone(),
                _ => { let m = tm(); let (x, y) = (m.t(a, w), m.t(b, w)); let r = m.ite(*ct, x, y); m.v(r) }
            }
        }
        _ => panic!("bad ite cond"),
    }
}
pub fn vzext(a: &V, w: u32) -> V { match a { V::C(_) => a.clone(), V::S(t) => { let r = tm().zext(*t, w); tm().v(r) } _ => panic!() } }
pub fn vsext(a: &V, ow: u32, w: u32) -> V { match a { V::C(k) => V::C((sext(*k, ow) as u128) & mask(w)), V::S(t) => { let r = tm().sext(*t, w); tm().v(r) } _ => panic!() } }
pub fn vextract(a: &V, lo: u32, w: u32) -> V { match a { V::C(k) => V::C((*k >> lo) & mask(w)), V::S(t) => { let r = tm().extract(*t, lo, w); tm().v(r) } _ => panic!() } }
pub fn vun(op: Op, ow: u32, a: &V, w: u32) -> V { match a { V::C(k) => V::C(fold1(op, w, ow, *k, 0)), V::S(t) => { let r = tm().un(op, *t, w); tm().v(r) } _ => panic!() } }

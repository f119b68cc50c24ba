//! Symbolic executor over LLVM IR.
use crate::ir::*;
use crate::mem::*;
use crate::term::*;
use crate::z3::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame { pub f: Rc<Func>, pub blk: u32, pub ip: u32, pub regs: Vec<V>, pub allocas: Vec<u64>, pub ret: u32, pub inv: Option<(u32, u32)>, pub lp: Option<(u64, u32)> }

#[derive(Clone)]
pub struct Thread { pub stack: Vec<Rc<Frame>>, pub tls: Rc<BTreeMap<u32, u64>>, pub wait: Wait }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Wait { Run, Join, Futex(u64), Done }

#[derive(Clone)]
pub struct St {
    pub mem: Mem,
    pub stack: Vec<Rc<Frame>>,
    pub tls: Rc<BTreeMap<u32, u64>>,
    pub tid: usize,
    pub keys: u32,
    pub raised: Rc<Vec<String>>,
    pub threads: Vec<Option<Rc<Thread>>>, // parked threads; None at tid
    pub yielded: bool,                    // scheduling decision already taken for the current instruction
    pub switches: u32,
    pub dom: Vec<[u64; 4]>,
    pub ent: Vec<bool>,
    pub una: Vec<T>,
    pub multi: Vec<T>,
    pub eqs: Vec<(T, u128)>,
    pub model: Vec<u8>,
    pub inputs: Vec<(Rc<str>, Rc<Vec<T>>)>,
    pub log: Vec<(Rc<str>, Rc<Vec<V>>)>,
    pub reach: Vec<Rc<str>>,
    pub sched: Vec<u8>,
    pub asserts: u32,
    pub steps: u64,
    pub forks: u32,
}

pub enum Stop { End, Viol(String, Option<Vec<u8>>), Incomplete(String), Dead }
pub type R<X> = Result<X, Stop>;

#[derive(Default, Clone)]
pub struct Counts {
    pub paths: u64, pub infeasible: u64, pub steps: u64, pub forks: u64, pub asserts_sym: u64, pub asserts_const: u64,
    pub path_confirm: u64, pub domain_prunes: u64, pub audits: u64, pub concretize: u64, pub symloads: u64, pub maxsteps: u64,
    pub assumes_killed: u64, pub switches: u64, pub fmt_stubs: u64,
}

pub struct Viol { pub msg: String, pub inputs: Vec<(String, Vec<u8>)>, pub trace: Vec<String>, pub sched: Vec<u8> }
pub struct PathOut { pub inputs: Vec<(String, Vec<u8>)>, pub log: Vec<(String, Vec<u8>)>, pub reach: Vec<String>, pub steps: u64, pub sched: Vec<u8> }

pub struct Ex {
    pub m: Module,
    pub z: Z3,
    pub work: Vec<St>,
    pub ginit: HashMap<u32, Rc<Obj>>,
    pub progs: HashMap<T, Prog>,
    pub ext: Vec<Option<crate::ext::Ext>>,
    pub used: BTreeSet<u32>,
    pub cnt: Counts,
    pub viols: Vec<Viol>,
    pub incomplete: Vec<String>,
    pub inc_inputs: Vec<Vec<(String, Vec<u8>)>>,
    pub paths: Vec<PathOut>,
    pub keep_paths: usize,
    pub rng: u64,
    pub reach: BTreeMap<String, u64>,
    pub path_limit: u64,
    pub conc_limit: u32,
    pub max_switches: u32,
    pub pins: Vec<(String, u8)>,
    pub varmap: HashMap<String, T>,
    pub trace: bool,
    pub stub_fmt: bool,
}

const FULL: [u64; 4] = [!0; 4];
fn and4(a: [u64; 4], b: [u64; 4]) -> [u64; 4] { [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]] }
fn not4(a: [u64; 4]) -> [u64; 4] { [!a[0], !a[1], !a[2], !a[3]] }
fn empty4(a: [u64; 4]) -> bool { a == [0; 4] }
fn has4(a: &[u64; 4], v: u8) -> bool { a[v as usize >> 6] >> (v & 63) & 1 == 1 }
fn first4(a: &[u64; 4]) -> Option<u8> { for i in 0..4 { if a[i] != 0 { return Some((i as u32 * 64 + a[i].trailing_zeros()) as u8); } } None }

pub fn viol<X>(s: impl Into<String>) -> R<X> { Err(Stop::Viol(s.into(), None)) }
pub fn incompl<X>(s: impl Into<String>) -> R<X> { Err(Stop::Incomplete(s.into())) }

impl St {
    fn domv(&self, x: u32) -> [u64; 4] { self.dom.get(x as usize).copied().unwrap_or(FULL) }
    fn entv(&self, x: u32) -> bool { self.ent.get(x as usize).copied().unwrap_or(false) }
    fn setdom(&mut self, x: u32, d: [u64; 4]) { let n = x as usize + 1; if self.dom.len() < n { self.dom.resize(n, FULL); } self.dom[x as usize] = d; }
    fn setent(&mut self, x: u32) { let n = x as usize + 1; if self.ent.len() < n { self.ent.resize(n, false); } self.ent[x as usize] = true; }
    fn setmodel(&mut self, x: u32, v: u8) { let n = x as usize + 1; if self.model.len() < n { self.model.resize(n, 0); } self.model[x as usize] = v; }
    #[inline] pub fn top(&mut self) -> &mut Frame { Rc::make_mut(self.stack.last_mut().unwrap()) }
    pub fn pcs(&self) -> Vec<T> { let mut v = self.una.clone(); v.extend(&self.multi); v }
}

impl Ex {
    pub fn new(m: Module, rlimit: u32) -> Ex {
        let ext = m.fns.iter().map(|f| crate::ext::lookup(&f.name, f.range.is_some())).collect();
        Ex { m, z: Z3::new(rlimit), work: vec![], ginit: HashMap::new(), progs: HashMap::new(), ext, used: BTreeSet::new(), cnt: Counts::default(),
            viols: vec![], incomplete: vec![], inc_inputs: vec![], paths: vec![], keep_paths: 48, rng: 0x9E3779B97F4A7C15, reach: BTreeMap::new(), path_limit: 30_000_000, conc_limit: 4096,
            max_switches: 2, pins: vec![], varmap: HashMap::new(), trace: false, stub_fmt: false }
    }
    pub fn initial(&mut self, entry: &str) -> St {
        let id = self.m.find_fn(entry).unwrap_or_else(|| panic!("no entry {}", entry));
        let base = 1 + self.m.fns.len() as u64;
        let mut st = St { mem: Mem::new(base, self.m.nstatic()), stack: vec![], tls: Rc::new(BTreeMap::new()), tid: 0, keys: 0, raised: Rc::new(vec![]), threads: vec![None], yielded: false, switches: 0,
            dom: vec![], ent: vec![], una: vec![], multi: vec![], eqs: vec![], model: vec![], inputs: vec![], log: vec![], reach: vec![], sched: vec![], asserts: 0, steps: 0, forks: 0 };
        let f = self.m.func(id).unwrap();
        self.used.insert(id);
        st.stack.push(Rc::new(Frame { regs: vec![V::C(0); f.nregs as usize], f, blk: 0, ip: 0, allocas: vec![], ret: NODST, inv: None, lp: None }));
        st
    }
    pub fn rnd(&mut self) -> u64 { self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17; self.rng }

    // ---- constraints ------------------------------------------------------
    pub fn eval(&mut self, t: T, model: &[u8]) -> u128 {
        if let Some(k) = tm().kval(t) { return k; }
        let p = self.progs.entry(t).or_insert_with(|| tm().prog(t));
        p.run(|v| *model.get(v as usize).unwrap_or(&0))
    }
    fn split(c: T, out: &mut Vec<T>) {
        let n = tm().nodes[c as usize];
        if n.w == 1 && n.op == Op::And { Self::split(n.a, out); Self::split(n.b, out); return; }
        if n.op == Op::Xor && tm().kval(n.b) == Some(1) {
            let i = tm().nodes[n.a as usize];
            if i.op == Op::Or && i.w == 1 { let x = tm().not(i.a); let y = tm().not(i.b); Self::split(x, out); Self::split(y, out); return; }
        }
        out.push(c);
    }
    /// constraints connected (by shared variables) to the given set
    fn slice(&self, st: &St, cs: &[T]) -> Vec<T> {
        let mut vars: BTreeSet<u32> = BTreeSet::new();
        for &c in cs { vars.extend(tm().support(c).iter()); }
        let mut out: Vec<T> = cs.to_vec();
        let mut inb = vec![false; st.multi.len()];
        loop {
            let mut ch = false;
            for (i, &m) in st.multi.iter().enumerate() {
                if inb[i] { continue; }
                let s = tm().support(m);
                if s.iter().any(|v| vars.contains(v)) { inb[i] = true; out.push(m); let n = vars.len(); vars.extend(s.iter()); if vars.len() > n { ch = true; } }
            }
            if !ch { break; }
        }
        for &u in &st.una { if vars.contains(&tm().support(u)[0]) { out.push(u); } }
        out
    }
    /// is `pc && c` satisfiable?  Some(delta model) if so.
    fn feasible(&mut self, st: &St, c: T) -> R<Option<Vec<(u32, u8)>>> {
        if let Some(k) = tm().kval(c) { return Ok(if k != 0 { Some(vec![]) } else { None }); }
        if self.eval(c, &st.model) != 0 { return Ok(Some(vec![])); }
        let mut parts = vec![]; Self::split(c, &mut parts);
        // exact domain reasoning
        let mut loc: Vec<(u32, [u64; 4])> = vec![]; let mut exact = true;
        for &p in &parts {
            if let Some(k) = tm().kval(p) { if k == 0 { return Ok(None); } continue; }
            let s = tm().support(p);
            if s.len() == 1 {
                let x = s[0]; let t = tm().table(p);
                if st.entv(x) { exact = false; }
                match loc.iter_mut().find(|l| l.0 == x) { Some(l) => l.1 = and4(l.1, t), None => loc.push((x, and4(st.domv(x), t))) }
            } else { exact = false; }
        }
        if loc.iter().any(|l| empty4(l.1)) { self.cnt.domain_prunes += 1; self.z.stats.domain += 1; return Ok(None); }
        if exact { self.z.stats.domain += 1; return Ok(Some(loc.iter().map(|l| (l.0, first4(&l.1).unwrap())).collect())); }
        let q = self.slice(st, &parts);
        match self.z.check(q) {
            Res::Unsat => Ok(None),
            Res::Sat(m) => Ok(Some(m.to_vec())),
            Res::Unknown => incompl("solver gave up on a branch query"),
        }
    }
    /// add a constraint known to be satisfiable with model delta
    fn add(&mut self, st: &mut St, c: T, delta: &[(u32, u8)]) {
        for &(x, v) in delta { st.setmodel(x, v); }
        let mut parts = vec![]; Self::split(c, &mut parts);
        for p in parts {
            if tm().kval(p).is_some() { continue; }
            let s = tm().support(p);
            if s.len() == 1 {
                let t = tm().table(p); let d = st.domv(s[0]); let nd = and4(d, t);
                if nd != d { st.setdom(s[0], nd); st.una.push(p); }
            } else if !st.multi.contains(&p) { st.multi.push(p); for &x in s.iter() { st.setent(x); } }
        }
    }
    /// assume without forking: returns false when infeasible
    pub fn assume(&mut self, st: &mut St, c: T) -> R<bool> {
        match self.feasible(st, c)? { None => Ok(false), Some(d) => { self.add(st, c, &d); Ok(true) } }
    }
    pub fn decide(&mut self, st: &mut St, v: &V) -> R<bool> {
        let c = match v { V::C(k) => return Ok(*k & 1 != 0), V::S(t) => *t, _ => panic!("decide aggregate") };
        if st.multi.contains(&c) { return Ok(true); }
        let nc = tm().not(c);
        if st.multi.contains(&nc) { return Ok(false); }
        let cur = self.eval(c, &st.model) != 0;
        let (good, bad) = if cur { (c, nc) } else { (nc, c) };
        match self.feasible(st, bad)? {
            None => Ok(cur),
            Some(d) => {
                let mut o = st.clone();
                self.add(&mut o, bad, &d); o.forks += 1;
                self.work.push(o);
                self.add(st, good, &[]); st.forks += 1;
                self.cnt.forks += 1;
                Ok(cur)
            }
        }
    }
    pub fn conc(&mut self, st: &mut St, v: &V, w: u32) -> R<u128> {
        let t = match v { V::C(k) => return Ok(*k), V::S(t) => *t, _ => panic!("conc aggregate") };
        if let Some(e) = st.eqs.iter().find(|e| e.0 == t) { return Ok(e.1); }
        let val = self.eval(t, &st.model);
        let k = tm().constant(w, val);
        let eq = tm().bin(Op::Eq, t, k); let ne = tm().not(eq);
        if let Some(d) = self.feasible(st, ne)? {
            self.cnt.concretize += 1;
            let mut o = st.clone();
            self.add(&mut o, ne, &d); o.forks += 1;
            if o.forks > self.conc_limit { return incompl("too many forks on a path (concretisation)"); }
            self.work.push(o);
            self.add(st, eq, &[]); st.forks += 1; self.cnt.forks += 1;
        }
        st.eqs.push((t, val));
        Ok(val)
    }

    // ---- memory -----------------------------------------------------------
    fn materialize(&mut self, st: &mut St, id: u64) -> bool {
        if id < st.mem.base || id >= st.mem.nstatic { return false; }
        let g = (id - st.mem.base) as u32;
        let o = match self.ginit.get(&g) {
            Some(o) => o.clone(),
            None => {
                let gl = &self.m.globals[g as usize];
                let o = if gl.range.is_none() { let mut o = Obj::new(8); o.shared = true; o } else {
                    let (ty, v) = self.m.global_init(g);
                    let mut d = vec![]; flatten(&ty, &v, &mut d);
                    let gl = &self.m.globals[g as usize];
                    Obj { data: d, sym: None, ro: gl.constant, heap: false, shared: !gl.constant && !gl.tls }
                };
                let o = Rc::new(o); self.ginit.insert(g, o.clone()); o
            }
        };
        st.mem.put(id, o); true
    }
    /// check access and return (id, offset)
    fn acc(&mut self, st: &mut St, addr: u64, n: usize, wr: bool) -> R<(u64, usize)> {
        let id = addr >> SHIFT; let off = (addr & ((1 << SHIFT) - 1)) as usize;
        let ok = match st.mem.get(id) { Some(_) => true, None => self.materialize(st, id) };
        if !ok { return viol(format!("memory: access to invalid address {:#x} (object {}, {} bytes) in {}", addr, id, n, self.where_(st))); }
        let o = st.mem.get(id).unwrap();
        if off + n > o.data.len() { return viol(format!("memory: out of bounds access at offset {} of {} bytes ({} bytes) in {}", off, o.data.len(), n, self.where_(st))); }
        if wr && o.ro { return viol(format!("memory: write to constant in {}", self.where_(st))); }
        Ok((id, off))
    }
    pub fn where_(&self, st: &St) -> String { st.stack.iter().rev().take(4).map(|f| f.f.name.clone()).collect::<Vec<_>>().join(" < ") }
    pub fn rd_bits(&mut self, st: &mut St, addr: u64, bits: u32) -> R<V> {
        let n = ((bits + 7) / 8) as usize;
        let (id, o) = self.acc(st, addr, n, false)?;
        let ob = st.mem.get(id).unwrap();
        if !ob.has_sym(o, n) {
            let mut k = 0u128; for i in (0..n).rev() { k = k << 8 | ob.data[o + i] as u128; }
            return Ok(V::C(k & mask(bits)));
        }
        let mut t = 0; let mut have = false;
        for i in 0..n {
            let b = ob.get(o + i); let b = if b == 0 { tm().constant(8, ob.data[o + i] as u128) } else { b };
            if have { t = tm().concat(b, t); } else { t = b; have = true; }
        }
        if bits as usize != n * 8 { t = tm().extract(t, 0, bits); }
        Ok(tm().v(t))
    }
    pub fn wr_bits(&mut self, st: &mut St, addr: u64, bits: u32, v: &V) -> R<()> {
        let n = ((bits + 7) / 8) as usize;
        let (id, o) = self.acc(st, addr, n, true)?;
        let ob = st.mem.get_mut(id).unwrap();
        match v {
            V::C(k) => { for i in 0..n { ob.data[o + i] = (k >> (8 * i)) as u8; } if let Some(s) = &mut ob.sym { for i in 0..n { s[o + i] = 0; } } }
            V::S(t) => {
                let t = if bits as usize != n * 8 { tm().zext(*t, n as u32 * 8) } else { *t };
                for i in 0..n { let e = tm().extract(t, 8 * i as u32, 8); ob.set_t(o + i, e); }
            }
            _ => panic!("store aggregate"),
        }
        Ok(())
    }
    pub fn load(&mut self, st: &mut St, ty: &Ty, addr: u64) -> R<V> {
        match ty {
            Ty::I(_) | Ty::F(_) | Ty::Ptr => self.rd_bits(st, addr, ty.bits()),
            Ty::Vec(n, t) if t.bits() % 8 != 0 => {
                let v = self.rd_bits(st, addr, n * t.bits())?;
                Ok(V::A(Rc::new((0..*n).map(|i| vextract(&v, i * t.bits(), t.bits())).collect())))
            }
            Ty::Arr(n, t) => { let s = t.size(); let mut v = vec![]; for i in 0..*n { v.push(self.load(st, t, addr + i * s)?); } Ok(V::A(Rc::new(v))) }
            Ty::Vec(n, t) => { let s = t.size(); let mut v = vec![]; for i in 0..*n as u64 { v.push(self.load(st, t, addr + i * s)?); } Ok(V::A(Rc::new(v))) }
            Ty::St(ts, _) => { let mut v = vec![]; for (i, t) in ts.iter().enumerate() { v.push(self.load(st, t, addr + ty.field_off(i))?); } Ok(V::A(Rc::new(v))) }
            t => panic!("load {:?}", t),
        }
    }
    pub fn store(&mut self, st: &mut St, ty: &Ty, addr: u64, v: &V) -> R<()> {
        match (ty, v) {
            (Ty::I(_) | Ty::F(_) | Ty::Ptr, _) => self.wr_bits(st, addr, ty.bits(), v),
            (Ty::Vec(n, t), V::A(a)) if t.bits() % 8 != 0 => {
                let mut x = a[0].clone(); let mut w = t.bits();
                for i in 1..*n as usize { x = vconcat(&a[i], t.bits(), &x, w); w += t.bits(); }
                self.wr_bits(st, addr, w, &x)
            }
            (Ty::Arr(_, t), V::A(a)) | (Ty::Vec(_, t), V::A(a)) => { let s = t.size(); for (i, x) in a.iter().enumerate() { self.store(st, t, addr + i as u64 * s, x)?; } Ok(()) }
            (Ty::St(ts, _), V::A(a)) => { for (i, x) in a.iter().enumerate() { self.store(st, &ts[i], addr + ty.field_off(i), x)?; } Ok(()) }
            _ => panic!("store {:?}", ty),
        }
    }
    /// load through a symbolic pointer whose values all lie in one object
    fn symload(&mut self, st: &mut St, ty: &Ty, at: T) -> R<Option<V>> {
        if !matches!(ty, Ty::I(_) | Ty::Ptr | Ty::F(_)) { return Ok(None); }
        let s = tm().support(at);
        if s.len() != 1 { return Ok(None); }
        let x = s[0]; let d = st.domv(x);
        let p = self.progs.entry(at).or_insert_with(|| tm().prog(at));
        let mut vals: Vec<u64> = vec![];
        for v in 0..=255u8 { if has4(&d, v) { vals.push(p.run(|_| v) as u64); } }
        vals.sort_unstable(); vals.dedup();
        if vals.is_empty() || vals[0] >> SHIFT != vals[vals.len() - 1] >> SHIFT { return Ok(None); }
        let id = vals[0] >> SHIFT;
        if st.mem.get(id).is_none() && !self.materialize(st, id) { return Ok(None); }
        let bits = ty.bits(); let n = ((bits + 7) / 8) as usize;
        if ((vals[vals.len() - 1] & ((1 << SHIFT) - 1)) as usize) + n > st.mem.get(id).unwrap().data.len() { return Ok(None); }
        let mut items = vec![];
        for a in vals { let v = self.rd_bits(st, a, bits)?; items.push((a, v)); }
        self.cnt.symloads += 1;
        fn build(at: T, it: &[(u64, V)], bits: u32) -> V {
            if it.len() == 1 { return it[0].1.clone(); }
            if it.iter().all(|x| match (&x.1, &it[0].1) { (V::C(a), V::C(b)) => a == b, (V::S(a), V::S(b)) => a == b, _ => false }) { return it[0].1.clone(); }
            let mid = it.len() / 2;
            let l = build(at, &it[..mid], bits); let r = build(at, &it[mid..], bits);
            let k = tm().constant(64, it[mid].0 as u128);
            let c = tm().bin(Op::Ult, at, k); let c = tm().v(c);
            vite(&c, bits, &l, &r)
        }
        Ok(Some(build(at, &items, bits)))
    }
    pub fn bytes(&mut self, st: &mut St, addr: u64, n: usize) -> R<Vec<V>> {
        if n == 0 { return Ok(vec![]); }
        let (id, o) = self.acc(st, addr, n, false)?;
        let ob = st.mem.get(id).unwrap();
        Ok((0..n).map(|i| ob.byte(o + i)).collect())
    }
    pub fn cbytes(&mut self, st: &mut St, addr: u64, n: usize) -> R<Vec<u8>> {
        let b = self.bytes(st, addr, n)?; let mut o = vec![];
        for x in b { o.push(self.conc(st, &x, 8)? as u8); }
        Ok(o)
    }
    pub fn memcpy(&mut self, st: &mut St, d: u64, s: u64, n: usize) -> R<()> {
        if n == 0 || d == s { return Ok(()); }
        let (si, so) = self.acc(st, s, n, false)?;
        let (di, do_) = self.acc(st, d, n, true)?;
        let src = st.mem.get(si).unwrap().clone();
        let dst = st.mem.get_mut(di).unwrap();
        dst.data[do_..do_ + n].copy_from_slice(&src.data[so..so + n]);
        match (&src.sym, &mut dst.sym) {
            (None, None) => {}
            (None, Some(ds)) => for i in 0..n { ds[do_ + i] = 0; },
            (Some(ss), ds) => {
                if ds.is_none() { if ss[so..so + n].iter().all(|x| *x == 0) { return Ok(()); } *ds = Some(vec![0; dst.data.len()]); }
                ds.as_mut().unwrap()[do_..do_ + n].copy_from_slice(&ss[so..so + n]);
            }
        }
        Ok(())
    }
    pub fn memset(&mut self, st: &mut St, d: u64, v: &V, n: usize) -> R<()> {
        if n == 0 { return Ok(()); }
        let (di, o) = self.acc(st, d, n, true)?;
        let dst = st.mem.get_mut(di).unwrap();
        for i in 0..n { match v { V::C(k) => dst.set_c(o + i, *k as u8), V::S(t) => dst.set_t(o + i, *t), _ => panic!() } }
        Ok(())
    }
    pub fn free_stack(st: &mut St, f: &Frame) { for &a in &f.allocas { st.mem.del(a >> SHIFT); } }

    // ---- execution --------------------------------------------------------
    fn goto(&mut self, st: &mut St, to: u32) {
        let f = st.top();
        let from = f.blk;
        let fp: *const Func = &*f.f;
        let b = unsafe { &(&(*fp).blocks)[to as usize] };
        if b.phis.len() == 1 {
            let p = &b.phis[0];
            let v = val(f, &p.2.iter().find(|x| x.0 == from).unwrap().1);
            f.regs[p.0 as usize] = v;
        } else if !b.phis.is_empty() {
            let vs: Vec<V> = b.phis.iter().map(|p| val(f, &p.2.iter().find(|x| x.0 == from).unwrap().1)).collect();
            for (p, v) in b.phis.iter().zip(vs) { f.regs[p.0 as usize] = v; }
        }
        f.blk = to; f.ip = 0;
    }
    /// finish a call instruction of the current frame with a value
    fn finish_call(&mut self, st: &mut St, dst: u32, inv: Option<(u32, u32)>, v: Option<V>) {
        if dst != NODST { if let Some(v) = v { st.top().regs[dst as usize] = v; } }
        match inv { Some((n, _)) => self.goto(st, n), None => st.top().ip += 1 }
    }
    pub fn unwind(&mut self, st: &mut St, ex: u64) -> R<()> {
        loop {
            let f = match st.stack.pop() { Some(f) => f, None => return viol("uncaught panic") };
            Self::free_stack(st, &f);
            if st.stack.is_empty() { return viol(format!("uncaught panic out of {}", f.f.name)); }
            if let Some((_, u)) = f.inv { st.top().lp = Some((ex, 1)); self.goto(st, u); return Ok(()); }
        }
    }
    pub fn push_call(&mut self, st: &mut St, fid: u32, args: Vec<V>, dst: u32, inv: Option<(u32, u32)>) -> R<()> {
        let f = match self.m.func(fid) { Some(f) => f, None => return incompl(format!("call of unknown external function {}", self.m.fns[fid as usize].name)) };
        self.used.insert(fid);
        if st.stack.len() > 3000 { return viol("stack overflow (call depth over 3000)"); }
        let mut regs = vec![V::C(0); f.nregs as usize];
        for (i, a) in args.into_iter().enumerate() { if i < f.nparams as usize { regs[i] = a; } }
        st.stack.push(Rc::new(Frame { f, blk: 0, ip: 0, regs, allocas: vec![], ret: dst, inv, lp: None }));
        Ok(())
    }

    /// run one state to the end of its path
    pub fn run(&mut self, mut st: St) {
        loop {
            match self.step(&mut st) {
                Ok(()) => {}
                Err(Stop::Dead) => { self.cnt.infeasible += 1; self.cnt.steps += st.steps; return; }
                Err(Stop::End) => { self.finish(st); return; }
                Err(Stop::Viol(m, model)) => {
                    // confirm the path itself with the solver
                    let model = match model { Some(m) => m, None => match self.confirm(&st) { Ok(m) => m, Err(e) => { self.incomplete.push(e); return; } } };
                    let inputs = self.inputs(&st, &model);
                    let trace: Vec<String> = st.stack.iter().rev().take(12).map(|f| f.f.name.clone()).chain(st.raised.iter().map(|n| format!("[panic] {}", n))).collect();
                    if !m.contains(": KNOWN ") || !self.viols.iter().any(|v| v.msg == m) { self.viols.push(Viol { msg: m, inputs, trace, sched: st.sched.clone() }); }
                    self.cnt.paths += 1; self.cnt.steps += st.steps;
                    return;
                }
                Err(Stop::Incomplete(m)) => {
                    let md = st.model.clone();
                    let ins = self.inputs(&st, &md);
                    let near: Vec<String> = ins.iter().map(|(n, b)| format!("{}={}", n, b.iter().map(|x| format!("{:02x}", x)).collect::<String>())).collect();
                    self.incomplete.push(format!("{} [in {}] near {}", m, self.where_(&st), near.join(" ")));
                    if self.inc_inputs.len() < 64 { self.inc_inputs.push(ins); }
                    self.cnt.steps += st.steps;
                    return;
                }
            }
        }
    }
    pub fn confirm(&mut self, st: &St) -> Result<Vec<u8>, String> {
        self.cnt.path_confirm += 1;
        let pcs = st.pcs();
        if pcs.is_empty() { return Ok(st.model.clone()); }
        match self.z.check(pcs) {
            Res::Sat(m) => { let mut md = st.model.clone(); for &(x, v) in m.iter() { if md.len() <= x as usize { md.resize(x as usize + 1, 0); } md[x as usize] = v; } Ok(md) }
            Res::Unsat => Err("explored path has an unsatisfiable path condition (engine error)".into()),
            Res::Unknown => Err("solver gave up on a path condition".into()),
        }
    }
    pub fn inputs(&mut self, st: &St, model: &[u8]) -> Vec<(String, Vec<u8>)> {
        st.inputs.iter().map(|(n, ts)| (n.to_string(), ts.iter().map(|t| self.eval(*t, model) as u8).collect())).collect()
    }
    fn finish(&mut self, st: St) {
        self.cnt.paths += 1; self.cnt.steps += st.steps; self.cnt.maxsteps = self.cnt.maxsteps.max(st.steps);
        let model = match self.confirm(&st) { Ok(m) => m, Err(e) => { self.incomplete.push(e); return; } };
        for r in &st.reach { *self.reach.entry(r.to_string()).or_insert(0) += 1; }
        let n = self.cnt.paths;
        let slot = if self.paths.len() < self.keep_paths { self.paths.len() } else { (self.rnd() % n) as usize };
        if slot < self.keep_paths {
            let inputs = self.inputs(&st, &model);
            let log = st.log.iter().map(|(n, b)| (n.to_string(), b.iter().map(|v| match v { V::C(k) => *k as u8, V::S(t) => self.eval(*t, &model) as u8, _ => 0 }).collect())).collect();
            let p = PathOut { inputs, log, reach: st.reach.iter().map(|r| r.to_string()).collect(), steps: st.steps, sched: st.sched.clone() };
            if slot == self.paths.len() { self.paths.push(p) } else { self.paths[slot] = p; }
        }
    }

    pub fn step(&mut self, st: &mut St) -> R<()> {
        st.steps += 1;
        if st.steps > self.path_limit { return incompl("instruction limit of a path reached"); }
        let f = Rc::make_mut(st.stack.last_mut().unwrap());
        let fp: *const Func = &*f.f;
        let ins = unsafe { &(&(&(*fp).blocks)[f.blk as usize].ins)[f.ip as usize] };
        macro_rules! set { ($v:expr) => {{ let v = $v; let f = st.top(); f.regs[ins.dst as usize] = v; f.ip += 1; return Ok(()); }} }
        match &ins.k {
            IK::Bin(op, t, a, b) => {
                let (a, b) = (val(f, a), val(f, b));
                let r = elem2(t, &a, &b, |w, x, y| vbin(*op, w, x, y));
                f.regs[ins.dst as usize] = r; f.ip += 1; Ok(())
            }
            IK::Icmp(p, t, a, b) => {
                let (a, b) = (val(f, a), val(f, b));
                let r = elem2(t, &a, &b, |w, x, y| icmp(*p, w, x, y));
                f.regs[ins.dst as usize] = r; f.ip += 1; Ok(())
            }
            IK::Fcmp(p, t, a, b) => { let (a, b) = (val(f, a), val(f, b)); let r = elem2(t, &a, &b, |w, x, y| fcmp(p, w, x, y)); f.regs[ins.dst as usize] = r; f.ip += 1; Ok(()) }
            IK::Fneg(t, a) => { let a = val(f, a); let w = t.bits(); let r = vbin(Op::Xor, w, &a, &V::C(1 << (w - 1))); f.regs[ins.dst as usize] = r; f.ip += 1; Ok(()) }
            IK::Cast(_, _, Ty::I(w), _) if *w > 128 => incompl(format!("integer of {} bits in {}", w, f.f.name)),
            IK::Load(Ty::I(w), _, _) if *w > 128 => incompl(format!("integer of {} bits in {}", w, f.f.name)),
            IK::Cast(k, t, t2, a) => { let a = val(f, a); let r = cast(*k, t, t2, &a); f.regs[ins.dst as usize] = r; f.ip += 1; Ok(()) }
            IK::Load(t, p, at) => {
                let pv = val(f, p);
                if let V::S(a) = pv { if let Some(v) = self.symload(st, t, a)? { set!(v) } }
                let a = self.conc(st, &pv, 64)? as u64;
                if self.sched_point(st, a, *at)? { return Ok(()); }
                let v = self.load(st, t, a)?; set!(v)
            }
            IK::Store(t, v, p, at) => {
                let v = val(f, v); let pv = val(f, p);
                let a = self.conc(st, &pv, 64)? as u64;
                if self.sched_point(st, a, *at)? { return Ok(()); }
                self.store(st, t, a, &v)?; st.top().ip += 1; Ok(())
            }
            IK::Gep(b, off, dy) => {
                let mut r = vbin(Op::Add, 64, &val(f, b), &V::C(*off as u128));
                for (o, w, sc) in dy {
                    let x = val(f, o); let x = if *w < 64 { vsext(&x, *w, 64) } else if *w > 64 { vextract(&x, 0, 64) } else { x };
                    let x = vbin(Op::Mul, 64, &x, &V::C(*sc as u128));
                    r = vbin(Op::Add, 64, &r, &x);
                }
                f.regs[ins.dst as usize] = r; f.ip += 1; Ok(())
            }
            IK::Alloca(sz, c) => {
                let c = val(f, c); let n = match c { V::C(k) => k as u64, _ => panic!("symbolic alloca") };
                let a = st.mem.alloc((sz * n) as usize, false);
                let f = st.top(); f.allocas.push(a); f.regs[ins.dst as usize] = V::C(a as u128); f.ip += 1; Ok(())
            }
            IK::Select(ct, t, c, a, b) => {
                let (c, a, b) = (val(f, c), val(f, a), val(f, b));
                let r = match (ct, &c) {
                    (Ty::Vec(..), V::A(cs)) => {
                        let et = t.elem(0); let (V::A(x), V::A(y)) = (&a, &b) else { panic!() };
                        V::A(Rc::new(cs.iter().enumerate().map(|(i, c)| vite(c, et.bits(), &x[i], &y[i])).collect()))
                    }
                    (_, V::C(k)) => if *k & 1 != 0 { a } else { b },
                    _ => match t {
                        Ty::I(w) => vite(&c, *w, &a, &b),
                        Ty::F(w) => vite(&c, *w, &a, &b),
                        Ty::Vec(_, et) => { let (V::A(x), V::A(y)) = (&a, &b) else { panic!() }; V::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| vite(&c, et.bits(), p, q)).collect())) }
                        _ => if self.decide(st, &c)? { a } else { b },
                    },
                };
                set!(r)
            }
            IK::ExtractValue(a, ix) => { let mut v = val(f, a); for &i in ix { v = match &v { V::A(x) => x[i].clone(), _ => panic!("extractvalue") }; } f.regs[ins.dst as usize] = v; f.ip += 1; Ok(()) }
            IK::InsertValue(a, b, ix) => { let a = val(f, a); let b = val(f, b); let r = insert(&a, ix, b); f.regs[ins.dst as usize] = r; f.ip += 1; Ok(()) }
            IK::ExtractElem(a, i) => {
                let a = val(f, a); let iv = val(f, i); let i = self.conc(st, &iv, 64)? as usize;
                match &a { V::A(x) => set!(x[i].clone()), _ => panic!() }
            }
            IK::InsertElem(a, b, i) => { let a = val(f, a); let b = val(f, b); let iv = val(f, i); let i = self.conc(st, &iv, 64)? as usize; set!(insert(&a, &[i], b)) }
            IK::Shuffle(_, a, b, mk) => {
                let (a, b) = (val(f, a), val(f, b));
                let (V::A(x), V::A(y)) = (&a, &b) else { panic!() };
                let n = x.len();
                let r = V::A(Rc::new(mk.iter().map(|&i| if (i as usize) < n { x[i as usize].clone() } else { y[i as usize - n].clone() }).collect()));
                f.regs[ins.dst as usize] = r; f.ip += 1; Ok(())
            }
            IK::Br(l) => { self.goto(st, *l); Ok(()) }
            IK::CondBr(c, a, b) => { let c = val(f, c); let t = self.decide(st, &c)?; self.goto(st, if t { *a } else { *b }); Ok(()) }
            IK::Switch(t, v, d, cs) => {
                let v = val(f, v);
                match v {
                    V::C(k) => { let to = cs.iter().find(|c| c.0 == k).map_or(*d, |c| c.1); self.goto(st, to); Ok(()) }
                    V::S(tt) => {
                        let w = t.bits();
                        let mut tg: Vec<(u32, T)> = vec![];
                        for &(k, l) in cs.iter() {
                            let kt = tm().constant(w, k); let e = tm().bin(Op::Eq, tt, kt);
                            match tg.iter_mut().find(|x| x.0 == l) { Some(x) => x.1 = tm().bin(Op::Or, x.1, e), None => tg.push((l, e)) }
                        }
                        for (l, c) in tg { if l == *d { continue; } let cv = tm().v(c); if self.decide(st, &cv)? { self.goto(st, l); return Ok(()); } }
                        self.goto(st, *d); Ok(())
                    }
                    _ => panic!(),
                }
            }
            IK::Call(c) => self.call(st, c, ins.dst),
            IK::Ret(v) => {
                let v = v.as_ref().map(|o| val(f, o));
                let fr = st.stack.pop().unwrap();
                Self::free_stack(st, &fr);
                if st.stack.is_empty() { return self.thread_exit(st); }
                self.finish_call(st, fr.ret, fr.inv, v); Ok(())
            }
            IK::Unreachable => viol(format!("reached `unreachable` in {}", self.where_(st))),
            IK::Resume(v) => {
                let v = val(f, v);
                let ex = match &v { V::A(x) => match &x[0] { V::C(k) => *k as u64, _ => panic!() }, _ => panic!() };
                self.unwind(st, ex)
            }
            IK::LandingPad(catch) => { let (ex, _) = f.lp.take().expect("landingpad"); let r = V::A(Rc::new(vec![V::C(ex as u128), V::C(*catch as u128)])); f.regs[ins.dst as usize] = r; f.ip += 1; Ok(()) }
            IK::Rmw(o, t, p, v) => {
                let (pv, v) = (val(f, p), val(f, v));
                let a = self.conc(st, &pv, 64)? as u64;
                if self.sched_point(st, a, true)? { return Ok(()); }
                let w = t.bits();
                let old = self.rd_bits(st, a, w)?;
                let new = match &**o {
                    "xchg" => v, "add" => vbin(Op::Add, w, &old, &v), "sub" => vbin(Op::Sub, w, &old, &v), "and" => vbin(Op::And, w, &old, &v), "or" => vbin(Op::Or, w, &old, &v), "xor" => vbin(Op::Xor, w, &old, &v),
                    "nand" => { let x = vbin(Op::And, w, &old, &v); vbin(Op::Xor, w, &x, &V::C(mask(w))) }
                    "umax" => { let c = vbin(Op::Ult, w, &old, &v); vite(&c, w, &v, &old) } "umin" => { let c = vbin(Op::Ult, w, &v, &old); vite(&c, w, &v, &old) }
                    o => return incompl(format!("atomicrmw {}", o)),
                };
                self.wr_bits(st, a, w, &new)?; set!(old)
            }
            IK::CmpXchg(t, p, c, n) => {
                let (pv, c, n) = (val(f, p), val(f, c), val(f, n));
                let a = self.conc(st, &pv, 64)? as u64;
                if self.sched_point(st, a, true)? { return Ok(()); }
                let w = t.bits();
                let old = self.rd_bits(st, a, w)?;
                let eq = vbin(Op::Eq, w, &old, &c);
                let ok = self.decide(st, &eq)?;
                if ok { self.wr_bits(st, a, w, &n)?; }
                set!(V::A(Rc::new(vec![old, V::C(ok as u128)])))
            }
            IK::Fence => { f.ip += 1; Ok(()) }
            IK::Freeze(v) => { let v = val(f, v); f.regs[ins.dst as usize] = v; f.ip += 1; Ok(()) }
        }
    }

    fn call(&mut self, st: &mut St, c: &Rc<CallI>, dst: u32) -> R<()> {
        let f = st.top();
        let fid = match &c.callee {
            Callee::Fn(i) => *i,
            Callee::Intr(n) => {
                let args: Vec<V> = c.args.iter().map(|a| val(f, a)).collect();
                let r = self.intrinsic(st, n, c, args)?;
                self.finish_call(st, dst, c.inv, r); return Ok(());
            }
            Callee::Asm => { self.finish_call(st, dst, c.inv, Some(c.ret.zero())); return Ok(()); }
            Callee::Ind(o) => {
                let v = val(f, o); let a = self.conc(st, &v, 64)? as u64;
                let i = (a >> SHIFT).wrapping_sub(1);
                if a & ((1 << SHIFT) - 1) != 0 || i >= self.m.fns.len() as u64 { return viol(format!("indirect call of invalid function pointer {:#x} in {}", a, self.where_(st))); }
                i as u32
            }
        };
        let f = st.top();
        let args: Vec<V> = c.args.iter().map(|a| val(f, a)).collect();
        if let Some(e) = self.ext[fid as usize] {
            self.used.insert(fid);
            return crate::ext::call(self, st, e, fid, args, c, dst);
        }
        self.push_call(st, fid, args, dst, c.inv)
    }
    pub fn ext_ret(&mut self, st: &mut St, dst: u32, inv: Option<(u32, u32)>, v: Option<V>) -> R<()> { self.finish_call(st, dst, inv, v); Ok(()) }

    fn intrinsic(&mut self, st: &mut St, n: &str, c: &CallI, a: Vec<V>) -> R<Option<V>> {
        let n = &n[5..];
        if n.starts_with("lifetime") || n.starts_with("experimental.noalias") || n.starts_with("dbg") || n.starts_with("assume") || n.starts_with("prefetch") || n.starts_with("x86.sse2.pause") || n.starts_with("invariant") || n.starts_with("donothing") { return Ok(Some(V::C(0))); }
        if n.starts_with("memcpy") || n.starts_with("memmove") {
            let k = self.conc(st, &a[2], 64)? as usize; let d = self.conc(st, &a[0], 64)? as u64; let s = self.conc(st, &a[1], 64)? as u64;
            self.memcpy(st, d, s, k)?; return Ok(None);
        }
        if n.starts_with("memset") { let k = self.conc(st, &a[2], 64)? as usize; let d = self.conc(st, &a[0], 64)? as u64; self.memset(st, d, &a[1], k)?; return Ok(None); }
        if n.starts_with("expect") { return Ok(Some(a[0].clone())); }
        if n.starts_with("is.constant") { return Ok(Some(V::C(0))); }
        if n.starts_with("objectsize") { return Ok(Some(V::C(mask(c.ret.bits())))); }
        if n.starts_with("trap") { return viol("llvm.trap"); }
        if n.starts_with("threadlocal.address") {
            let ga = match &a[0] { V::C(k) => *k as u64, _ => panic!() };
            let id = ga >> SHIFT; let g = (id - st.mem.base) as u32;
            if let Some(x) = st.tls.get(&g) { return Ok(Some(V::C(*x as u128))); }
            if st.mem.get(id).is_none() { self.materialize(st, id); }
            let o = st.mem.get(id).unwrap().clone();
            let na = st.mem.alloc(o.data.len(), false);
            let mut oo = (*o).clone(); oo.shared = false; oo.ro = false;
            st.mem.put(na >> SHIFT, Rc::new(oo));
            Rc::make_mut(&mut st.tls).insert(g, na);
            return Ok(Some(V::C(na as u128)));
        }
        if n.starts_with("vector.reduce.") {
            let op = n[14..].split('.').next().unwrap();
            let (t, V::A(x)) = (&c.argt[0], &a[0]) else { panic!() }; let w = t.elem(0).bits();
            let mut r = x[0].clone();
            for y in &x[1..] { r = match op { "or" => vbin(Op::Or, w, &r, y), "and" => vbin(Op::And, w, &r, y), "add" => vbin(Op::Add, w, &r, y), "xor" => vbin(Op::Xor, w, &r, y), "umax" => { let c = vbin(Op::Ult, w, &r, y); vite(&c, w, y, &r) } "umin" => { let c = vbin(Op::Ult, w, y, &r); vite(&c, w, y, &r) } _ => return incompl(format!("intrinsic {}", n)) }; }
            return Ok(Some(r));
        }
        if n.starts_with("x86.sse2.pmovmskb") {
            let V::A(x) = &a[0] else { panic!() };
            let mut r = vextract(&x[0], 7, 1); let mut w = 1;
            for y in &x[1..] { let b = vextract(y, 7, 1); r = vconcat(&b, 1, &r, w); w += 1; }
            return Ok(Some(vzext(&r, 32)));
        }
        if let Some((op, _)) = n.split_once(".with.overflow") {
            let w = c.argt[0].bits();
            let (x, y) = (&a[0], &a[1]);
            let (r, o) = match op {
                "uadd" => { let r = vbin(Op::Add, w, x, y); let o = vbin(Op::Ult, w, &r, x); (r, o) }
                "usub" => { let r = vbin(Op::Sub, w, x, y); let o = vbin(Op::Ult, w, x, y); (r, o) }
                "sadd" | "ssub" => {
                    let o2 = if op == "sadd" { Op::Add } else { Op::Sub };
                    let r = vbin(o2, w, x, y);
                    let sx = vextract(x, w - 1, 1); let sy = vextract(y, w - 1, 1); let sr = vextract(&r, w - 1, 1);
                    let d1 = vbin(Op::Xor, 1, &sx, &sr);
                    let d2 = vbin(Op::Xor, 1, &sx, &sy); let d2 = if op == "sadd" { vnot(&d2) } else { d2 };
                    let o = vbin(Op::And, 1, &d1, &d2); (r, o)
                }
                // multiplication by a constant c > 0 overflows exactly when x is beyond MAX/c (or below MIN/c)
                "umul" if matches!((x, y), (V::C(c), V::S(_)) | (V::S(_), V::C(c)) if *c != 0) => {
                    let (s, k) = match (x, y) { (V::C(c), s) => (s, *c), (s, V::C(c)) => (s, *c), _ => unreachable!() };
                    (vbin(Op::Mul, w, x, y), vbin(Op::Ult, w, &V::C(mask(w) / k), s))
                }
                "smul" if matches!((x, y), (V::C(c), V::S(_)) | (V::S(_), V::C(c)) if *c != 0 && (*c >> (w - 1)) & 1 == 0) => {
                    let (s, k) = match (x, y) { (V::C(c), s) => (s, *c), (s, V::C(c)) => (s, *c), _ => unreachable!() };
                    let max = mask(w) >> 1;
                    let min = (if w == 128 { i128::MIN } else { -(1i128 << (w - 1)) }) / k as i128;
                    let hi = vbin(Op::Slt, w, &V::C(max / k), s); let lo = vbin(Op::Slt, w, s, &V::C(min as u128 & mask(w)));
                    (vbin(Op::Mul, w, x, y), vbin(Op::Or, 1, &hi, &lo))
                }
                "umul" => {
                    let r = vbin(Op::Mul, w, x, y);
                    let o = if w <= 64 { let p = vbin(Op::Mul, 2 * w, &vzext(x, 2 * w), &vzext(y, 2 * w)); let h = vextract(&p, w, w); vnot(&vbin(Op::Eq, w, &h, &V::C(0))) }
                        else { match (x, y) { (V::C(p), V::C(q)) => V::C((p.checked_mul(*q).is_none()) as u128),
                            // exact: y != 0 && x > MAX / y
                            _ => { let q = vbin(Op::UDiv, w, &V::C(mask(w)), y); let g = vbin(Op::Ult, w, &q, x); let nz = vnot(&vbin(Op::Eq, w, y, &V::C(0))); vbin(Op::And, 1, &g, &nz) } } };
                    (r, o)
                }
                "smul" => {
                    let r = vbin(Op::Mul, w, x, y);
                    if w > 64 { match (x, y) { (V::C(p), V::C(q)) => (r, V::C(((*p as i128).checked_mul(*q as i128).is_none()) as u128)),
                        _ => return incompl("symbolic 128-bit signed multiplication") } }
                    else { let p = vbin(Op::Mul, 2 * w, &vsext(x, w, 2 * w), &vsext(y, w, 2 * w)); let rr = vsext(&r, w, 2 * w); (r, vnot(&vbin(Op::Eq, 2 * w, &p, &rr))) }
                }
                _ => return incompl(format!("intrinsic {}", n)),
            };
            return Ok(Some(V::A(Rc::new(vec![r, o]))));
        }
        let base = n.split('.').next().unwrap();
        let t = &c.ret;
        let r = match base {
            "umax" => elem2(t, &a[0], &a[1], |w, x, y| vite(&vbin(Op::Ult, w, x, y), w, y, x)),
            "umin" => elem2(t, &a[0], &a[1], |w, x, y| vite(&vbin(Op::Ult, w, x, y), w, x, y)),
            "smax" => elem2(t, &a[0], &a[1], |w, x, y| vite(&vbin(Op::Slt, w, x, y), w, y, x)),
            "smin" => elem2(t, &a[0], &a[1], |w, x, y| vite(&vbin(Op::Slt, w, x, y), w, x, y)),
            "usub" => elem2(t, &a[0], &a[1], |w, x, y| vite(&vbin(Op::Ult, w, x, y), w, &V::C(0), &vbin(Op::Sub, w, x, y))),
            "uadd" => elem2(t, &a[0], &a[1], |w, x, y| { let s = vbin(Op::Add, w, x, y); vite(&vbin(Op::Ult, w, &s, x), w, &V::C(mask(w)), &s) }),
            "abs" => elem2(t, &a[0], &a[0], |w, x, _| vite(&vbin(Op::Slt, w, x, &V::C(0)), w, &vbin(Op::Sub, w, &V::C(0), x), x)),
            "ucmp" | "scmp" => {
                let w = c.argt[0].bits(); let op = if base == "ucmp" { Op::Ult } else { Op::Slt };
                let lt = vbin(op, w, &a[0], &a[1]); let gt = vbin(op, w, &a[1], &a[0]); let rw = t.bits();
                let x = vite(&gt, rw, &V::C(1), &V::C(0)); vite(&lt, rw, &V::C(mask(rw)), &x)
            }
            "bswap" => { let w = t.bits(); let n = w / 8; let mut r = vextract(&a[0], w - 8, 8); let mut cw = 8; for i in 1..n { let b = vextract(&a[0], w - 8 - 8 * i, 8); r = vconcat(&b, 8, &r, cw); cw += 8; } r }
            "bitreverse" => { let w = t.bits(); let mut r = vextract(&a[0], w - 1, 1); let mut cw = 1; for i in 1..w { let b = vextract(&a[0], w - 1 - i, 1); r = vconcat(&b, 1, &r, cw); cw += 1; } r }
            "ctpop" => elem2(t, &a[0], &a[0], |w, x, _| match x { V::C(k) => V::C(k.count_ones() as u128), _ => { let mut s = V::C(0); for i in 0..w { s = vbin(Op::Add, w, &s, &vzext(&vextract(x, i, 1), w)); } s } }),
            "cttz" => elem2(t, &a[0], &a[0], |w, x, _| match x { V::C(k) => V::C(if *k == 0 { w as u128 } else { k.trailing_zeros() as u128 }), _ => { let mut s = V::C(w as u128); for i in (0..w).rev() { s = vite(&vextract(x, i, 1), w, &V::C(i as u128), &s); } s } }),
            "ctlz" => elem2(t, &a[0], &a[0], |w, x, _| match x { V::C(k) => V::C(if *k == 0 { w as u128 } else { (k.leading_zeros() - (128 - w)) as u128 }), _ => { let mut s = V::C(w as u128); for i in 0..w { s = vite(&vextract(x, i, 1), w, &V::C((w - 1 - i) as u128), &s); } s } }),
            "fshl" | "fshr" => {
                let w = t.bits();
                let s = vbin(Op::URem, w, &a[2], &V::C(w as u128));
                let inv = vbin(Op::Sub, w, &V::C(w as u128), &s);
                if base == "fshl" { vbin(Op::Or, w, &vbin(Op::Shl, w, &a[0], &s), &vbin(Op::LShr, w, &a[1], &inv)) }
                else { vbin(Op::Or, w, &vbin(Op::Shl, w, &a[0], &inv), &vbin(Op::LShr, w, &a[1], &s)) }
            }
            "copysign" => { let w = t.bits(); let m = vbin(Op::And, w, &a[0], &V::C(mask(w - 1))); let g = vbin(Op::And, w, &a[1], &V::C(1 << (w - 1))); vbin(Op::Or, w, &m, &g) }
            "sadd" | "ssub" if n.contains(".sat") => elem2(t, &a[0], &a[1], |w, x, y| {
                let r = vbin(if base == "sadd" { Op::Add } else { Op::Sub }, w, x, y);
                let (sx, sy, sr) = (vextract(x, w - 1, 1), vextract(y, w - 1, 1), vextract(&r, w - 1, 1));
                let d1 = vbin(Op::Xor, 1, &sx, &sr); let d2 = vbin(Op::Xor, 1, &sx, &sy); let d2 = if base == "sadd" { vnot(&d2) } else { d2 };
                let o = vbin(Op::And, 1, &d1, &d2); let sat = vite(&sx, w, &V::C(1 << (w - 1)), &V::C(mask(w - 1)));
                vite(&o, w, &sat, &r)
            }),
            "fabs" => { let w = t.bits(); vbin(Op::And, w, &a[0], &V::C(mask(w - 1))) }
            "fptoui" | "fptosi" => { // saturating
                let fw = c.argt[0].bits(); let w = t.bits(); let x = &a[0];
                let (lo, hi): (f64, f64) = if base == "fptoui" { (0.0, (2f64).powi(w as i32)) } else { (-(2f64).powi(w as i32 - 1), (2f64).powi(w as i32 - 1)) };
                let kf = |v: f64| V::C(if fw == 64 { v.to_bits() as u128 } else { (v as f32).to_bits() as u128 });
                let nan = vbin(Op::FUno, fw, x, x);
                let toolow = vbin(Op::FLt, fw, x, &kf(lo)); let toohigh = vbin(Op::FLe, fw, &kf(hi), x);
                let (minv, maxv) = if base == "fptoui" { (0, mask(w)) } else { (1u128 << (w - 1), mask(w - 1)) };
                let cv = vun(if base == "fptoui" { Op::F2UI } else { Op::F2SI }, fw, x, w);
                let r = vite(&toohigh, w, &V::C(maxv), &cv); let r = vite(&toolow, w, &V::C(minv), &r); vite(&nan, w, &V::C(0), &r)
            }
            _ => return incompl(format!("unsupported intrinsic llvm.{}", n)),
        };
        Ok(Some(r))
    }

    // ---- green threads ----------------------------------------------------
    /// returns true if the instruction must be re-fetched (another thread was scheduled)
    fn sched_point(&mut self, st: &mut St, addr: u64, atomic: bool) -> R<bool> {
        if st.threads.len() == 1 { return Ok(false); }
        let id = addr >> SHIFT;
        if id >= st.mem.nstatic { return Ok(false); }
        if st.mem.get(id).is_none() { self.materialize(st, id); }
        let sh = st.mem.get(id).map_or(false, |o| o.shared);
        let _ = atomic;
        if !sh { return Ok(false); }
        if st.yielded { st.yielded = false; return Ok(false); }
        st.yielded = true;
        if st.switches >= self.max_switches { st.yielded = false; return Ok(false); }
        for t in 0..st.threads.len() {
            if t == st.tid { continue; }
            if !matches!(st.threads[t], Some(ref th) if th.wait == Wait::Run) { continue; }
            let mut o = st.clone();
            o.switches += 1; o.yielded = false;
            self.cnt.switches += 1;
            self.switch_to(&mut o, t, Wait::Run);
            self.work.push(o);
        }
        st.yielded = false;
        Ok(false)
    }
    pub fn switch_to(&mut self, st: &mut St, t: usize, w: Wait) {
        let cur = Thread { stack: std::mem::take(&mut st.stack), tls: st.tls.clone(), wait: w };
        let old = st.tid;
        st.threads[old] = Some(Rc::new(cur));
        let n = st.threads[t].take().unwrap();
        let n = (*n).clone();
        st.stack = n.stack; st.tls = n.tls; st.tid = t; st.yielded = true;
        st.sched.push(t as u8);
    }
    /// the current thread cannot continue: pick any runnable one (forking)
    pub fn block(&mut self, st: &mut St, w: Wait) -> R<()> {
        let run: Vec<usize> = (0..st.threads.len()).filter(|&t| t != st.tid && matches!(st.threads[t], Some(ref th) if th.wait == Wait::Run)).collect();
        if run.is_empty() {
            // main waiting for join with every other thread done?
            let alldone = (1..st.threads.len()).all(|t| t == st.tid || matches!(st.threads[t], Some(ref th) if th.wait == Wait::Done));
            if let Some(Some(m)) = st.threads.get(0) { if m.wait == Wait::Join && alldone && w == Wait::Done {
                self.switch_to(st, 0, Wait::Done);
                // complete the join call
                st.yielded = false; st.top().ip += 1; return Ok(());
            } }
            return viol(format!("deadlock ({:?})", w));
        }
        for &t in &run[1..] { let mut o = st.clone(); self.switch_to(&mut o, t, w); self.cnt.switches += 1; self.work.push(o); }
        self.switch_to(st, run[0], w);
        Ok(())
    }
    fn thread_exit(&mut self, st: &mut St) -> R<()> {
        if st.tid == 0 { return Err(Stop::End); }
        self.block(st, Wait::Done)
    }
}

#[inline] pub fn val(f: &Frame, o: &Opnd) -> V { match o { Opnd::R(r) => f.regs[*r as usize].clone(), Opnd::K(v) => v.clone() } }
fn insert(a: &V, ix: &[usize], b: V) -> V {
    if ix.is_empty() { return b; }
    match a { V::A(x) => { let mut y = (**x).clone(); y[ix[0]] = insert(&x[ix[0]], &ix[1..], b); V::A(Rc::new(y)) } _ => panic!("insert") }
}
#[inline] fn elem2(t: &Ty, a: &V, b: &V, f: impl Fn(u32, &V, &V) -> V) -> V {
    match t {
        Ty::Vec(_, et) => { let (V::A(x), V::A(y)) = (a, b) else { panic!("vector operand") }; let w = et.bits(); V::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| f(w, p, q)).collect())) }
        _ => f(t.bits(), a, b),
    }
}
pub fn icmp(p: Pred, w: u32, a: &V, b: &V) -> V {
    match p {
        Pred::Eq => vbin(Op::Eq, w, a, b), Pred::Ne => vnot(&vbin(Op::Eq, w, a, b)),
        Pred::Ult => vbin(Op::Ult, w, a, b), Pred::Ule => vbin(Op::Ule, w, a, b), Pred::Ugt => vbin(Op::Ult, w, b, a), Pred::Uge => vbin(Op::Ule, w, b, a),
        Pred::Slt => vbin(Op::Slt, w, a, b), Pred::Sle => vbin(Op::Sle, w, a, b), Pred::Sgt => vbin(Op::Slt, w, b, a), Pred::Sge => vbin(Op::Sle, w, b, a),
    }
}
fn fcmp(p: &str, w: u32, a: &V, b: &V) -> V {
    let uno = || vbin(Op::FUno, w, a, b);
    let or = |x: V, y: V| vbin(Op::Or, 1, &x, &y);
    let and = |x: V, y: V| vbin(Op::And, 1, &x, &y);
    match p {
        "false" => V::C(0), "true" => V::C(1),
        "oeq" => vbin(Op::FEq, w, a, b), "olt" => vbin(Op::FLt, w, a, b), "ole" => vbin(Op::FLe, w, a, b), "ogt" => vbin(Op::FLt, w, b, a), "oge" => vbin(Op::FLe, w, b, a),
        "one" => and(vnot(&vbin(Op::FEq, w, a, b)), vnot(&uno())), "ord" => vnot(&uno()), "uno" => uno(),
        "ueq" => or(uno(), vbin(Op::FEq, w, a, b)), "une" => vnot(&vbin(Op::FEq, w, a, b)),
        "ult" => vnot(&vbin(Op::FLe, w, b, a)), "ule" => vnot(&vbin(Op::FLt, w, b, a)), "ugt" => vnot(&vbin(Op::FLe, w, a, b)), "uge" => vnot(&vbin(Op::FLt, w, a, b)),
        _ => panic!("fcmp {}", p),
    }
}
pub fn vconcat(hi: &V, hw: u32, lo: &V, lw: u32) -> V {
    match (hi, lo) { (V::C(a), V::C(b)) => V::C(a << lw | b), _ => { let (x, y) = (tm().t(hi, hw), tm().t(lo, lw)); let r = tm().concat(x, y); tm().v(r) } }
}
fn cast(k: CastK, t: &Ty, t2: &Ty, a: &V) -> V {
    if let (CastK::Bit, Ty::Vec(n, e), Ty::I(_) | Ty::F(_) | Ty::Ptr) = (k, t, t2) {
        let V::A(x) = a else { panic!() }; let mut r = x[0].clone(); let mut w = e.bits();
        for i in 1..*n as usize { r = vconcat(&x[i], e.bits(), &r, w); w += e.bits(); }
        return r;
    }
    if let (CastK::Bit, Ty::I(_) | Ty::F(_), Ty::Vec(n, e)) = (k, t, t2) {
        let w = e.bits(); return V::A(Rc::new((0..*n).map(|i| vextract(a, i * w, w)).collect()));
    }
    if let (CastK::Bit, Ty::Vec(n1, e1), Ty::Vec(..)) = (k, t, t2) {
        let i = cast(CastK::Bit, t, &Ty::I(n1 * e1.bits()), a);
        return cast(CastK::Bit, &Ty::I(n1 * e1.bits()), t2, &i);
    }
    if let (Ty::Vec(_, e1), Ty::Vec(_, e2)) = (t, t2) { let V::A(x) = a else { panic!() }; return V::A(Rc::new(x.iter().map(|v| cast(k, e1, e2, v)).collect())); }
    let (w, w2) = (t.bits(), t2.bits());
    match k {
        CastK::Trunc => vextract(a, 0, w2), CastK::ZExt => vzext(a, w2), CastK::SExt => vsext(a, w, w2), CastK::Bit => a.clone(),
        CastK::FpTrunc => vun(Op::FTrunc, w, a, w2), CastK::FpExt => vun(Op::FExt, w, a, w2),
        CastK::FpToUi => vun(Op::F2UI, w, a, w2), CastK::FpToSi => vun(Op::F2SI, w, a, w2), CastK::UiToFp => vun(Op::UI2F, w, a, w2), CastK::SiToFp => vun(Op::SI2F, w, a, w2),
    }
}
impl Ex { pub fn slice_pub(&self, st: &St, cs: &[T]) -> Vec<T> { self.slice(st, cs) } }

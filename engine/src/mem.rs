//! Persistent (copy-on-write) object memory.  An address is `id << SHIFT | offset`.
use crate::ir::*;
use crate::term::*;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub sym: Option<Vec<T>>, pub ro: bool, pub heap: bool, pub shared: bool }
impl Obj {
    pub fn new(n: usize) -> Obj { Obj { data: vec![0; n], sym: None, ro: false, heap: false, shared: false } }
    pub fn get(&self, o: usize) -> T { match &self.sym { Some(s) => s[o], None => 0 } }
    pub fn set_c(&mut self, o: usize, b: u8) { self.data[o] = b; if let Some(s) = &mut self.sym { s[o] = 0; } }
    pub fn set_t(&mut self, o: usize, t: T) {
        if let Some(k) = tm().kval(t) { self.set_c(o, k as u8); return; }
        let n = self.data.len();
        self.sym.get_or_insert_with(|| vec![0; n])[o] = t;
    }
    pub fn byte(&self, o: usize) -> V { let t = self.get(o); if t == 0 { V::C(self.data[o] as u128) } else { V::S(t) } }
    pub fn has_sym(&self, o: usize, n: usize) -> bool { match &self.sym { None => false, Some(s) => s[o..o + n].iter().any(|x| *x != 0) } }
}

pub const CH: usize = 32;
#[derive(Clone)]
pub struct Chunk { s: [Option<Rc<Obj>>; CH] }
impl Chunk { fn new() -> Chunk { Chunk { s: std::array::from_fn(|_| None) } } }

#[derive(Clone)]
pub struct Mem { chunks: Vec<Rc<Chunk>>, pub next: u64, pub base: u64, pub nstatic: u64, empty: Rc<Chunk> }

impl Mem {
    pub fn new(base: u64, nstatic: u64) -> Mem { Mem { chunks: vec![], next: nstatic, base, nstatic, empty: Rc::new(Chunk::new()) } }
    #[inline] pub fn get(&self, id: u64) -> Option<&Rc<Obj>> {
        let i = id.wrapping_sub(self.base) as usize;
        self.chunks.get(i / CH).and_then(|c| c.s[i % CH].as_ref())
    }
    pub fn put(&mut self, id: u64, o: Rc<Obj>) {
        let i = (id - self.base) as usize;
        while self.chunks.len() <= i / CH { self.chunks.push(self.empty.clone()); }
        Rc::make_mut(&mut self.chunks[i / CH]).s[i % CH] = Some(o);
    }
    pub fn del(&mut self, id: u64) {
        let i = (id - self.base) as usize;
        let c = Rc::make_mut(&mut self.chunks[i / CH]);
        c.s[i % CH] = None;
        if c.s.iter().all(|x| x.is_none()) { self.chunks[i / CH] = self.empty.clone(); }
    }
    #[inline] pub fn get_mut(&mut self, id: u64) -> Option<&mut Obj> {
        let i = id.wrapping_sub(self.base) as usize;
        let c = self.chunks.get_mut(i / CH)?;
        c.s[i % CH].as_ref()?;
        Some(Rc::make_mut(Rc::make_mut(c).s[i % CH].as_mut().unwrap()))
    }
    pub fn alloc(&mut self, n: usize, heap: bool) -> u64 {
        let id = self.next; self.next += 1;
        let mut o = Obj::new(n); o.heap = heap;
        self.put(id, Rc::new(o));
        id << SHIFT
    }
    pub fn live_heap(&self) -> usize { self.chunks.iter().map(|c| c.s.iter().filter(|o| o.as_ref().map_or(false, |o| o.heap)).count()).sum() }
}

/// flatten a constant initialiser into bytes
pub fn flatten(ty: &Ty, v: &V, out: &mut Vec<u8>) {
    match ty {
        Ty::Arr(_, t) => { if let V::A(a) = v { for x in a.iter() { flatten(t, x, out); } } else { panic!("flatten arr") } }
        Ty::Vec(_, t) => { if let V::A(a) = v { for x in a.iter() { flatten(t, x, out); } } else { panic!("flatten vec") } }
        Ty::St(ts, _) => {
            if let V::A(a) = v {
                let st = out.len();
                for (i, x) in a.iter().enumerate() { let o = st + ty.field_off(i) as usize; while out.len() < o { out.push(0); } flatten(&ts[i], x, out); }
                let e = st + ty.size() as usize; while out.len() < e { out.push(0); }
            } else { panic!("flatten struct") }
        }
        _ => { let n = ty.store_size() as usize; if let V::C(k) = v { for i in 0..n { out.push((k >> (8 * i)) as u8); } } else { panic!("flatten scalar") }
            for _ in n..ty.size() as usize { out.push(0); } }
    }
}

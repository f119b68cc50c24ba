//! Lazy parser for textual LLVM IR (whole-program module emitted by rustc).
use crate::term::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, I(u32), F(u32), Ptr, Arr(u64, Rc<Ty>), St(Rc<Vec<Ty>>, bool), Vec(u32, Rc<Ty>), Meta, Label, FnTy(bool) }

fn up(x: u64, a: u64) -> u64 { (x + a - 1) / a * a }
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::I(n) => { let b = ((*n as u64 + 7) / 8).next_power_of_two(); b.min(16) }
            Ty::F(n) => (*n / 8) as u64,
            Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::St(v, p) => if *p { 1 } else { v.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 / 8).next_power_of_two().max(1),
            _ => 1,
        }
    }
    pub fn bits(&self) -> u32 { match self { Ty::I(n) | Ty::F(n) => *n, Ty::Ptr => 64, _ => panic!("bits of {:?}", self) } }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::I(n) => (*n as u64 + 7) / 8,
            Ty::F(n) => (*n / 8) as u64,
            Ty::Ptr => 8,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void => 0,
            Ty::Arr(n, t) => n * t.size(),
            Ty::St(v, p) => {
                let mut o = 0;
                for t in v.iter() { if !*p { o = up(o, t.align()); } o += t.size(); }
                if *p { o } else { up(o, self.align()) }
            }
            _ => up(self.store_size(), self.align()),
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::St(v, p) => {
                let mut o = 0;
                for (j, t) in v.iter().enumerate() { if !*p { o = up(o, t.align()); } if j == i { return o; } o += t.size(); }
                panic!()
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => i as u64 * t.size(),
            _ => panic!(),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty { match self { Ty::St(v, _) => &v[i], Ty::Arr(_, t) | Ty::Vec(_, t) => t, _ => panic!() } }
    pub fn zero(&self) -> V {
        match self {
            Ty::Arr(n, t) => V::A(Rc::new((0..*n).map(|_| t.zero()).collect())),
            Ty::Vec(n, t) => V::A(Rc::new((0..*n).map(|_| t.zero()).collect())),
            Ty::St(v, _) => V::A(Rc::new(v.iter().map(|t| t.zero()).collect())),
            _ => V::C(0),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opnd { R(u32), K(V) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK { Trunc, ZExt, SExt, Bit, FpTrunc, FpExt, FpToUi, FpToSi, UiToFp, SiToFp }

#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Ind(Opnd), Intr(Rc<str>), Asm }

#[derive(Clone, Debug)]
pub struct CallI { pub callee: Callee, pub args: Vec<Opnd>, pub argt: Vec<Ty>, pub ret: Ty, pub inv: Option<(u32, u32)> }

#[derive(Clone, Debug)]
pub enum IK {
    Bin(Op, Ty, Opnd, Opnd),
    Icmp(Pred, Ty, Opnd, Opnd),
    Fcmp(Rc<str>, Ty, Opnd, Opnd),
    Fneg(Ty, Opnd),
    Cast(CastK, Ty, Ty, Opnd),
    Load(Ty, Opnd, bool),
    Store(Ty, Opnd, Opnd, bool),
    Gep(Opnd, u64, Vec<(Opnd, u32, u64)>),
    Alloca(u64, Opnd),
    Select(Ty, Ty, Opnd, Opnd, Opnd),
    ExtractValue(Opnd, Vec<usize>),
    InsertValue(Opnd, Opnd, Vec<usize>),
    ExtractElem(Opnd, Opnd),
    InsertElem(Opnd, Opnd, Opnd),
    Shuffle(Ty, Opnd, Opnd, Vec<u32>),
    Br(u32), CondBr(Opnd, u32, u32), Switch(Ty, Opnd, u32, Rc<Vec<(u128, u32)>>),
    Call(Rc<CallI>),
    Ret(Option<Opnd>), Unreachable, Resume(Opnd), LandingPad(bool),
    Rmw(Rc<str>, Ty, Opnd, Opnd), CmpXchg(Ty, Opnd, Opnd, Opnd), Fence, Freeze(Opnd),
}
#[derive(Clone, Debug)]
pub struct Inst { pub dst: u32, pub k: IK }
pub const NODST: u32 = u32::MAX;

#[derive(Debug)]
pub struct Block { pub phis: Vec<(u32, Ty, Vec<(u32, Opnd)>)>, pub ins: Vec<Inst>, pub name: String }
#[derive(Debug)]
pub struct Func { pub name: String, pub id: u32, pub nparams: u32, pub nregs: u32, pub blocks: Vec<Block>, pub ret: Ty, pub varargs: bool }

pub struct FnEnt { pub name: String, pub range: Option<(usize, usize)>, pub parsed: Option<Rc<Func>>, pub ext_weak: bool }
pub struct Global { pub name: String, pub range: Option<(usize, usize)>, pub constant: bool, pub tls: bool, pub ext_weak: bool }

pub enum Sym { F(u32), G(u32), Alias(String) }
pub const SHIFT: u32 = 28;

pub struct Module {
    pub text: &'static str,
    pub fns: Vec<FnEnt>,
    pub globals: Vec<Global>,
    pub syms: HashMap<String, Sym>,
    pub types: HashMap<String, Ty>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> { Id(&'a str), Loc(&'a str), Glob(&'a str), Num(&'a str), Str(&'a str), CStr(&'a str), P(u8), Ell, Meta, Attr, NL, Eof, Label(&'a str) }

struct Lex<'a> { s: &'a [u8], t: &'a str, p: usize, end: usize }

fn isid(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }

impl<'a> Lex<'a> {
    fn new(t: &'a str, p: usize, end: usize) -> Self { Lex { s: t.as_bytes(), t, p, end } }
    fn next(&mut self) -> Tok<'a> {
        loop {
            if self.p >= self.end { return Tok::Eof; }
            let c = self.s[self.p];
            match c {
                b' ' | b'\t' | b'\r' => { self.p += 1; }
                b'\n' => { self.p += 1; return Tok::NL; }
                b';' => { while self.p < self.end && self.s[self.p] != b'\n' { self.p += 1; } }
                b'%' | b'@' => {
                    self.p += 1;
                    let n = if self.s[self.p] == b'"' {
                        let st = self.p + 1; let mut e = st; while self.s[e] != b'"' { e += 1; }
                        self.p = e + 1; &self.t[st..e]
                    } else {
                        let st = self.p; while self.p < self.end && isid(self.s[self.p]) { self.p += 1; } &self.t[st..self.p]
                    };
                    return if c == b'%' { Tok::Loc(n) } else { Tok::Glob(n) };
                }
                b'!' => {
                    self.p += 1;
                    while self.p < self.end && (isid(self.s[self.p])) { self.p += 1; }
                    return Tok::Meta;
                }
                b'#' => { self.p += 1; while self.p < self.end && self.s[self.p].is_ascii_digit() { self.p += 1; } return Tok::Attr; }
                b'"' => {
                    let st = self.p + 1; let mut e = st; while self.s[e] != b'"' { e += 1; }
                    self.p = e + 1;
                    if self.p < self.end && self.s[self.p] == b':' { self.p += 1; return Tok::Label(&self.t[st..e]); }
                    return Tok::Str(&self.t[st..e]);
                }
                b'.' if self.s[self.p..].starts_with(b"...") => { self.p += 3; return Tok::Ell; }
                b'-' | b'+' | b'0'..=b'9' => {
                    let st = self.p; self.p += 1;
                    while self.p < self.end && (self.s[self.p].is_ascii_alphanumeric() || self.s[self.p] == b'.' || ((self.s[self.p] == b'+' || self.s[self.p] == b'-') && self.s[self.p - 1] == b'e')) { self.p += 1; }
                    if self.p < self.end && self.s[self.p] == b':' { let r = &self.t[st..self.p]; self.p += 1; return Tok::Label(r); }
                    return Tok::Num(&self.t[st..self.p]);
                }
                c if isid(c) => {
                    let st = self.p; while self.p < self.end && isid(self.s[self.p]) { self.p += 1; }
                    let r = &self.t[st..self.p];
                    if r == "c" && self.p < self.end && self.s[self.p] == b'"' {
                        let st = self.p + 1; let mut e = st; while self.s[e] != b'"' { e += 1; }
                        self.p = e + 1; return Tok::CStr(&self.t[st..e]);
                    }
                    if self.p < self.end && self.s[self.p] == b':' { self.p += 1; return Tok::Label(r); }
                    return Tok::Id(r);
                }
                _ => { self.p += 1; return Tok::P(c); }
            }
        }
    }
    fn peek(&mut self) -> Tok<'a> { let p = self.p; let t = self.next(); self.p = p; t }
    fn is(&mut self, c: u8) -> bool { let p = self.p; if self.next() == Tok::P(c) { true } else { self.p = p; false } }
    fn isw(&mut self, w: &str) -> bool { let p = self.p; if self.next() == Tok::Id(w) { true } else { self.p = p; false } }
    fn exp(&mut self, c: u8) { let p = self.p; let t = self.next(); if t != Tok::P(c) { panic!("expected {:?} got {:?} near: {}", c as char, t, self.ctx(p)); } }
    fn ctx(&self, p: usize) -> &str { let e = (p + 160).min(self.end); let mut b = p.saturating_sub(120); while !self.t.is_char_boundary(b) { b += 1; } let mut e2 = e; while !self.t.is_char_boundary(e2) { e2 -= 1; } &self.t[b..e2] }
    fn skip_paren(&mut self) { // after '(' consumed
        let mut d = 1; while d > 0 { match self.next() { Tok::P(b'(') => d += 1, Tok::P(b')') => d -= 1, Tok::Eof => panic!("eof"), _ => {} } }
    }
    fn to_nl(&mut self) { loop { match self.next() { Tok::NL | Tok::Eof => return, _ => {} } } }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text: &'static str = Box::leak(String::from_utf8_lossy(&std::fs::read(path).expect("read ll")).into_owned().into_boxed_str());
        let mut m = Module { text, fns: vec![], globals: vec![], syms: HashMap::new(), types: HashMap::new() };
        let b = text.as_bytes();
        let mut p = 0; let n = b.len();
        let mut tydefs = vec![];
        while p < n {
            let e = memchr(b, p, b'\n');
            let line = &text[p..e];
            if line.starts_with("define ") {
                // end at "\n}"
                let mut q = e;
                loop { if b[q] == b'\n' && b[q + 1] == b'}' { break; } q += 1; q = memchr(b, q, b'\n'); }
                let name = fname(line);
                m.add_fn(name, Some((p, q + 2)), false);
                p = q + 2; continue;
            } else if line.starts_with("declare ") {
                let name = fname(line);
                m.add_fn(name, None, line.contains("extern_weak"));
            } else if line.starts_with('@') {
                let mut lx = Lex::new(text, p, e);
                let name = match lx.next() { Tok::Glob(g) => g.to_string(), _ => panic!() };
                lx.exp(b'=');
                let rest = &text[lx.p..e];
                if let Some(_) = rest.split_whitespace().find(|w| *w == "alias") {
                    // last @name on line
                    let i = rest.rfind('@').unwrap(); let mut l2 = Lex::new(rest, i, rest.len());
                    if let Tok::Glob(t) = l2.next() { m.syms.insert(name, Sym::Alias(t.to_string())); }
                } else {
                    let mut constant = false; let mut tls = false; let mut ew = false; let mut external = false;
                    loop {
                        match lx.next() {
                            Tok::Id("constant") => { constant = true; break; }
                            Tok::Id("global") => break,
                            Tok::Id("thread_local") => { tls = true; if lx.is(b'(') { lx.skip_paren(); } }
                            Tok::Id("extern_weak") => { ew = true; external = true; }
                            Tok::Id("external") => external = true,
                            Tok::P(b'(') => lx.skip_paren(),
                            Tok::Eof => panic!("global {}", line),
                            _ => {}
                        }
                    }
                    let id = m.globals.len() as u32;
                    m.globals.push(Global { name: name.clone(), range: if external { None } else { Some((lx.p, e)) }, constant, tls, ext_weak: ew });
                    if external { // remember type for external data
                        m.globals[id as usize].range = None;
                    }
                    m.syms.insert(name, Sym::G(id));
                }
            } else if line.starts_with('%') {
                tydefs.push((p, e));
            }
            p = e + 1;
        }
        for (s, e) in tydefs {
            let mut lx = Lex::new(text, s, e);
            if let Tok::Loc(n) = lx.next() { lx.exp(b'='); lx.isw("type"); let t = m.ty(&mut lx); m.types.insert(n.to_string(), t); }
        }
        m
    }
    fn add_fn(&mut self, name: String, range: Option<(usize, usize)>, ew: bool) {
        let id = self.fns.len() as u32;
        self.fns.push(FnEnt { name: name.clone(), range, parsed: None, ext_weak: ew });
        self.syms.insert(name, Sym::F(id));
    }
    pub fn fn_addr(id: u32) -> u64 { (1 + id as u64) << SHIFT }
    pub fn glob_addr(&self, id: u32) -> u64 { (1 + self.fns.len() as u64 + id as u64) << SHIFT }
    pub fn nstatic(&self) -> u64 { 1 + self.fns.len() as u64 + self.globals.len() as u64 }
    pub fn find_fn(&self, n: &str) -> Option<u32> {
        match self.syms.get(n) { Some(Sym::F(i)) => Some(*i), Some(Sym::Alias(a)) => self.find_fn(a), _ => None }
    }
    pub fn sym_addr(&self, n: &str) -> u64 {
        match self.syms.get(n) {
            Some(Sym::F(i)) => { if self.fns[*i as usize].ext_weak { 0 } else { Self::fn_addr(*i) } }
            Some(Sym::G(i)) => { if self.globals[*i as usize].ext_weak { 0 } else { self.glob_addr(*i) } }
            Some(Sym::Alias(a)) => self.sym_addr(a),
            None => panic!("unknown symbol @{}", n),
        }
    }

    fn ty(&self, lx: &mut Lex) -> Ty {
        let p = lx.p;
        let mut t = match lx.next() {
            Tok::Id("void") => Ty::Void, Tok::Id("ptr") => Ty::Ptr, Tok::Id("double") => Ty::F(64), Tok::Id("float") => Ty::F(32),
            Tok::Id("half") => Ty::F(16), Tok::Id("fp128") => Ty::F(128),
            Tok::Id("metadata") => Ty::Meta, Tok::Id("label") => Ty::Label,
            Tok::Id(s) if s.starts_with('i') && s[1..].bytes().all(|c| c.is_ascii_digit()) => Ty::I(s[1..].parse().unwrap()),
            Tok::Loc(n) => self.types.get(n).cloned().unwrap_or_else(|| panic!("type {}", n)),
            Tok::P(b'[') => { let n = match lx.next() { Tok::Num(n) => n.parse().unwrap(), t => panic!("{:?}", t) }; lx.isw("x"); let t = self.ty(lx); lx.exp(b']'); Ty::Arr(n, Rc::new(t)) }
            Tok::P(b'{') => { let v = self.tylist(lx, b'}'); Ty::St(Rc::new(v), false) }
            Tok::P(b'<') => {
                if lx.is(b'{') { let v = self.tylist(lx, b'}'); lx.exp(b'>'); Ty::St(Rc::new(v), true) }
                else { let n = match lx.next() { Tok::Num(n) => n.parse().unwrap(), t => panic!("{:?}", t) }; lx.isw("x"); let t = self.ty(lx); lx.exp(b'>'); Ty::Vec(n, Rc::new(t)) }
            }
            t => panic!("type? {:?} near {}", t, lx.ctx(p)),
        };
        // function type
        if lx.peek() == Tok::P(b'(') {
            let q = lx.p; lx.next();
            // only a function type if followed by types; caller contexts with '(' after type are fn types
            let st = lx.p; lx.skip_paren();
            let va = lx.t[st..lx.p].contains("...");
            let _ = q; t = Ty::FnTy(va);
        }
        t
    }
    fn tylist(&self, lx: &mut Lex, end: u8) -> Vec<Ty> {
        let mut v = vec![];
        if lx.is(end) { return v; }
        loop { v.push(self.ty(lx)); if lx.is(b',') { continue; } lx.exp(end); return v; }
    }
    fn skip_attrs(&self, lx: &mut Lex) {
        loop {
            let p = lx.p;
            match lx.next() {
                Tok::Id(w) => {
                    if matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "sub" | "add" | "xor" | "icmp" | "asm" | "splat" | "blockaddress" | "dso_local_equivalent" | "no_cfi") { lx.p = p; return; }
                    if w == "align" && !matches!(lx.peek(), Tok::P(b'(')) { lx.next(); continue; }
                    if lx.is(b'(') { lx.skip_paren(); }
                }
                Tok::Str(_) => { if lx.is(b'=') { lx.next(); } }
                Tok::Attr => {}
                _ => { lx.p = p; return; }
            }
        }
    }
    fn cstr(s: &str) -> Vec<u8> {
        let b = s.as_bytes(); let mut o = vec![]; let mut i = 0;
        let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
        while i < b.len() { if b[i] == b'\\' { if b[i + 1] == b'\\' { o.push(b'\\'); i += 2; } else { o.push(h(b[i + 1]) << 4 | h(b[i + 2])); i += 3; } } else { o.push(b[i]); i += 1; } }
        o
    }
    fn num(s: &str, ty: &Ty) -> u128 {
        match ty {
            Ty::I(w) => {
                if let Some(h) = s.strip_prefix("u0x") { return u128::from_str_radix(h, 16).unwrap() & mask(*w); }
                if let Some(h) = s.strip_prefix("s0x") { return u128::from_str_radix(h, 16).unwrap() & mask(*w); }
                if let Some(r) = s.strip_prefix('-') { (0u128.wrapping_sub(r.parse::<u128>().unwrap())) & mask(*w) } else { s.parse::<u128>().unwrap() & mask(*w) }
            }
            Ty::F(w) => {
                if let Some(h) = s.strip_prefix("0x") {
                    let bits = u64::from_str_radix(h, 16).unwrap();
                    return if *w == 64 { bits as u128 } else { (f64::from_bits(bits) as f32).to_bits() as u128 };
                }
                let neg = s.starts_with('-');
                let body = s.trim_start_matches(|c| c == '+' || c == '-');
                let f: f64 = match body { "inf" => f64::INFINITY, "qnan" | "nan" => f64::NAN, b => b.parse().unwrap_or_else(|_| panic!("float {}", s)) };
                let f = if neg { -f } else { f };
                if *w == 64 { f.to_bits() as u128 } else { (f as f32).to_bits() as u128 }
            }
            Ty::Ptr => s.parse().unwrap(),
            _ => panic!("num {} of {:?}", s, ty),
        }
    }
    /// constant of the given type (no locals)
    fn konst(&self, lx: &mut Lex, ty: &Ty) -> V {
        let p = lx.p;
        match lx.next() {
            Tok::Num(n) => V::C(Self::num(n, ty)),
            Tok::Id("true") => V::C(1), Tok::Id("false") => V::C(0),
            Tok::Id("null") => V::C(0),
            Tok::Id("undef") | Tok::Id("poison") | Tok::Id("zeroinitializer") | Tok::Id("none") => ty.zero(),
            Tok::Glob(g) => V::C(self.sym_addr(g) as u128),
            Tok::CStr(s) => V::A(Rc::new(Self::cstr(s).into_iter().map(|b| V::C(b as u128)).collect())),
            Tok::P(b'[') | Tok::P(b'{') => {
                let close = if lx.s[lx.p - 1] == b'[' { b']' } else { b'}' };
                V::A(Rc::new(self.klist(lx, close)))
            }
            Tok::P(b'<') => {
                if lx.is(b'{') { let v = self.klist(lx, b'}'); lx.exp(b'>'); V::A(Rc::new(v)) } else { V::A(Rc::new(self.klist(lx, b'>'))) }
            }
            Tok::Id("splat") => { lx.exp(b'('); let t = self.ty(lx); let v = self.konst(lx, &t); lx.exp(b')');
                match ty { Ty::Vec(n, _) => V::A(Rc::new(vec![v; *n as usize])), _ => panic!() } }
            Tok::Id("getelementptr") => {
                loop { match lx.peek() { Tok::Id(_) => { lx.next(); if lx.peek() == Tok::P(b'(') && { let q = lx.p; let r = lx.s[lx.p - 7..lx.p].ends_with(b"inrange"); lx.p = q; r } { lx.next(); lx.skip_paren(); } } _ => break } }
                lx.exp(b'(');
                let sty = self.ty(lx); lx.exp(b',');
                let pt = self.ty(lx); let base = match self.konst(lx, &pt) { V::C(k) => k as u64, _ => panic!() };
                let mut off = 0u64; let mut cur = sty; let mut first = true;
                while lx.is(b',') {
                    lx.isw("inrange");
                    let it = self.ty(lx); let iv = match self.konst(lx, &it) { V::C(k) => sext(k, it.bits()) as i64, _ => panic!() };
                    if first { off = off.wrapping_add((iv as u64).wrapping_mul(cur.size())); first = false; }
                    else { off = off.wrapping_add(match &cur { Ty::St(..) => cur.field_off(iv as usize), _ => (iv as u64).wrapping_mul(cur.elem(0).size()) }); cur = cur.elem(if let Ty::St(..) = cur { iv as usize } else { 0 }).clone(); }
                }
                lx.exp(b')');
                V::C(base.wrapping_add(off) as u128)
            }
            Tok::Id("inttoptr") | Tok::Id("ptrtoint") | Tok::Id("bitcast") | Tok::Id("trunc") => {
                lx.exp(b'('); let t = self.ty(lx); let v = self.konst(lx, &t); if !lx.isw("to") { panic!() } let tt = self.ty(lx); lx.exp(b')');
                match v { V::C(k) => V::C(k & mask(tt.bits())), v => v }
            }
            Tok::Id(op @ ("sub" | "add" | "xor")) => {
                while let Tok::Id(_) = lx.peek() { lx.next(); }
                lx.exp(b'('); let t = self.ty(lx); let a = self.konst(lx, &t); lx.exp(b','); let t2 = self.ty(lx); let b = self.konst(lx, &t2); lx.exp(b')');
                vbin(match op { "sub" => Op::Sub, "add" => Op::Add, _ => Op::Xor }, t.bits(), &a, &b)
            }
            t => panic!("const? {:?} near {}", t, lx.ctx(p)),
        }
    }
    fn klist(&self, lx: &mut Lex, end: u8) -> Vec<V> {
        let mut v = vec![];
        if lx.is(end) { return v; }
        loop { let t = self.ty(lx); v.push(self.konst(lx, &t)); if lx.is(b',') { continue; } lx.exp(end); return v; }
    }
    pub fn global_init(&self, id: u32) -> (Ty, V) {
        let g = &self.globals[id as usize];
        let (s, e) = g.range.unwrap_or_else(|| panic!("external global {} accessed", g.name));
        let mut lx = Lex::new(self.text, s, e);
        let t = self.ty(&mut lx); let v = self.konst(&mut lx, &t);
        (t, v)
    }

    pub fn func(&mut self, id: u32) -> Option<Rc<Func>> {
        if let Some(f) = &self.fns[id as usize].parsed { return Some(f.clone()); }
        let (s, e) = self.fns[id as usize].range?;
        let f = Rc::new(self.parse_fn(id, s, e));
        self.fns[id as usize].parsed = Some(f.clone());
        Some(f)
    }

    fn parse_fn(&self, id: u32, s: usize, e: usize) -> Func {
        let mut lx = Lex::new(self.text, s, e);
        lx.next(); // define
        // skip linkage/attrs up to type
        let ret = self.ret_ty(&mut lx);
        let name = match lx.next() { Tok::Glob(n) => n.to_string(), t => panic!("{:?}", t) };
        let mut names: HashMap<String, u32> = HashMap::new();
        let mut nreg = 0u32; let mut unn = 0u32; let mut varargs = false;
        lx.exp(b'(');
        if !lx.is(b')') {
            loop {
                if lx.peek() == Tok::Ell { lx.next(); varargs = true; lx.exp(b')'); break; }
                let _t = self.ty(&mut lx); self.skip_attrs(&mut lx);
                let n = match lx.peek() { Tok::Loc(n) => { lx.next(); n.to_string() } _ => unn.to_string() };
                if n.bytes().all(|c| c.is_ascii_digit()) { unn += 1; }
                names.insert(n, nreg); nreg += 1;
                if lx.is(b',') { continue; } lx.exp(b')'); break;
            }
        }
        let nparams = nreg;
        // to '{' at end of the define line
        loop { match lx.next() { Tok::P(b'{') => { if lx.peek() == Tok::NL { break; } } Tok::Eof => panic!(), _ => {} } }
        lx.next();
        let mut bnames: HashMap<String, u32> = HashMap::new();
        let mut blocks: Vec<Block> = vec![];
        macro_rules! bid { ($n:expr) => {{ let n: &str = $n; match bnames.get(n) { Some(&i) => i, None => { let i = bnames.len() as u32; bnames.insert(n.to_string(), i); i } } }} }
        macro_rules! reg { ($n:expr) => {{ let n: &str = $n; match names.get(n) { Some(&i) => i, None => { let i = nreg; nreg += 1; names.insert(n.to_string(), i); i } } }} }
        macro_rules! val { ($t:expr) => {{ let p = lx.p; match lx.next() { Tok::Loc(n) => Opnd::R(reg!(n)), Tok::Meta => { loop { match lx.peek() { Tok::P(b'(') => { lx.next(); lx.skip_paren(); } _ => break } } Opnd::K(V::C(0)) }, _ => { lx.p = p; Opnd::K(self.konst(&mut lx, $t)) } } }} }
        macro_rules! tv { () => {{ let t = self.ty(&mut lx); let v = val!(&t); (t, v) }} }
        macro_rules! lab { () => {{ if !lx.isw("label") { panic!("label near {}", lx.ctx(lx.p)); } match lx.next() { Tok::Loc(n) => bid!(n), t => panic!("{:?}", t) } }} }
        let mut order: Vec<u32> = vec![];
        let mut cur: Option<Block> = None; let mut curid = 0;
        let mut done: HashMap<u32, Block> = HashMap::new();
        loop {
            let t = lx.next();
            let mut dst = NODST;
            let opn: &str = match t {
                Tok::NL => continue,
                Tok::Eof => break,
                Tok::P(b'}') => break,
                Tok::Label(n) => {
                    if let Some(b) = cur.take() { done.insert(curid, b); }
                    curid = bid!(n); order.push(curid);
                    cur = Some(Block { phis: vec![], ins: vec![], name: n.to_string() });
                    lx.to_nl(); continue;
                }
                Tok::Loc(n) => {
                    if cur.is_none() { let bn = "\u{1}entry"; curid = bid!(bn); order.push(curid); cur = Some(Block { phis: vec![], ins: vec![], name: "entry".into() }); }
                    dst = reg!(n); lx.exp(b'=');
                    match lx.next() { Tok::Id(w) => w, t => panic!("{:?}", t) }
                }
                Tok::Id(w) => {
                    if cur.is_none() { let bn = "\u{1}entry"; curid = bid!(bn); order.push(curid); cur = Some(Block { phis: vec![], ins: vec![], name: "entry".into() }); }
                    w
                }
                t => panic!("inst? {:?} near {}", t, lx.ctx(lx.p)),
            };
            let mut opn = opn;
            while matches!(opn, "tail" | "musttail" | "notail") { opn = match lx.next() { Tok::Id(w) => w, _ => panic!() }; }
            let blk = cur.as_mut().unwrap();
            let k = match opn {
                "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" => {
                    while let Tok::Id(w) = lx.peek() { if matches!(w, "nuw" | "nsw" | "exact" | "disjoint" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { lx.next(); } else { break; } }
                    let (t, a) = tv!(); lx.exp(b','); let b = val!(&t);
                    let op = match opn { "add" => Op::Add, "sub" => Op::Sub, "mul" => Op::Mul, "udiv" => Op::UDiv, "sdiv" => Op::SDiv, "urem" => Op::URem, "srem" => Op::SRem,
                        "and" => Op::And, "or" => Op::Or, "xor" => Op::Xor, "shl" => Op::Shl, "lshr" => Op::LShr, "ashr" => Op::AShr,
                        "fadd" => Op::FAdd, "fsub" => Op::FSub, "fmul" => Op::FMul, _ => Op::FDiv };
                    IK::Bin(op, t, a, b)
                }
                "fneg" => { let (t, a) = tv!(); IK::Fneg(t, a) }
                "icmp" => {
                    lx.isw("samesign");
                    let p = match lx.next() { Tok::Id(w) => w, _ => panic!() };
                    let p = if p == "samesign" { match lx.next() { Tok::Id(w) => w, _ => panic!() } } else { p };
                    let (t, a) = tv!(); lx.exp(b','); let b = val!(&t);
                    let pr = match p { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => panic!("{}", p) };
                    IK::Icmp(pr, t, a, b)
                }
                "fcmp" => {
                    let mut p = match lx.next() { Tok::Id(w) => w, _ => panic!() };
                    while matches!(p, "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { p = match lx.next() { Tok::Id(w) => w, _ => panic!() }; }
                    let (t, a) = tv!(); lx.exp(b','); let b = val!(&t);
                    IK::Fcmp(Rc::from(p), t, a, b)
                }
                "trunc" | "zext" | "sext" | "bitcast" | "inttoptr" | "ptrtoint" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "addrspacecast" | "ptrtoaddr" => {
                    while let Tok::Id(w) = lx.peek() { if matches!(w, "nuw" | "nsw" | "nneg") { lx.next(); } else { break; } }
                    let (t, a) = tv!(); if !lx.isw("to") { panic!("to near {}", lx.ctx(lx.p)); } let t2 = self.ty(&mut lx);
                    let ck = match opn { "trunc" => CastK::Trunc, "zext" => CastK::ZExt, "sext" => CastK::SExt, "bitcast" | "addrspacecast" => CastK::Bit,
                        "inttoptr" | "ptrtoint" | "ptrtoaddr" => { let (a, b) = (t.bits(), t2.bits()); if a > b { CastK::Trunc } else if a < b { CastK::ZExt } else { CastK::Bit } }
                        "fptrunc" => CastK::FpTrunc, "fpext" => CastK::FpExt, "fptoui" => CastK::FpToUi, "fptosi" => CastK::FpToSi, "uitofp" => CastK::UiToFp, _ => CastK::SiToFp };
                    IK::Cast(ck, t, t2, a)
                }
                "load" => {
                    let mut at = false;
                    loop { if lx.isw("atomic") { at = true; } else if lx.isw("volatile") {} else { break; } }
                    let t = self.ty(&mut lx); lx.exp(b','); let (_, p) = tv!(); IK::Load(t, p, at)
                }
                "store" => {
                    let mut at = false;
                    loop { if lx.isw("atomic") { at = true; } else if lx.isw("volatile") {} else { break; } }
                    let (t, v) = tv!(); lx.exp(b','); let (_, p) = tv!(); IK::Store(t, v, p, at)
                }
                "getelementptr" => {
                    while let Tok::Id(w) = lx.peek() { if matches!(w, "inbounds" | "nuw" | "nusw") { lx.next(); } else { break; } }
                    let sty = self.ty(&mut lx); lx.exp(b','); let (_, base) = tv!();
                    let mut off = 0u64; let mut dynv = vec![]; let mut curt = sty; let mut first = true;
                    loop {
                        let q = lx.p;
                        if !lx.is(b',') { break; }
                        if lx.peek() == Tok::Meta { lx.p = q; break; }
                        let (it, iv) = tv!();
                        let (scale, isst) = if first { (curt.size(), false) } else if let Ty::St(..) = curt { (0, true) } else { (curt.elem(0).size(), false) };
                        if isst { let i = match &iv { Opnd::K(V::C(k)) => *k as usize, _ => panic!() }; off = off.wrapping_add(curt.field_off(i)); curt = curt.elem(i).clone(); }
                        else {
                            match iv { Opnd::K(V::C(k)) => off = off.wrapping_add((sext(k, it.bits()) as i64 as u64).wrapping_mul(scale)), o => dynv.push((o, it.bits(), scale)) }
                            if !first { curt = curt.elem(0).clone(); }
                        }
                        first = false;
                    }
                    IK::Gep(base, off, dynv)
                }
                "alloca" => {
                    lx.isw("inalloca");
                    let t = self.ty(&mut lx);
                    let q = lx.p; let mut cnt = Opnd::K(V::C(1));
                    if lx.is(b',') { if let Tok::Id(w) = lx.peek() { if w != "align" && w != "addrspace" { let (_, c) = tv!(); cnt = c; } else { lx.p = q; } } else { lx.p = q; } }
                    IK::Alloca(t.size(), cnt)
                }
                "select" => {
                    while let Tok::Id(w) = lx.peek() { if matches!(w, "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { lx.next(); } else { break; } }
                    let (ct, c) = tv!(); lx.exp(b','); let (t, a) = tv!(); lx.exp(b','); let (_, b) = tv!(); IK::Select(ct, t, c, a, b)
                }
                "extractvalue" => { let (_, a) = tv!(); let mut ix = vec![]; loop { let q = lx.p; if lx.is(b',') { if let Tok::Num(n) = lx.peek() { lx.next(); ix.push(n.parse().unwrap()); continue; } lx.p = q; } break; } IK::ExtractValue(a, ix) }
                "insertvalue" => { let (_, a) = tv!(); lx.exp(b','); let (_, b) = tv!(); let mut ix = vec![]; loop { let q = lx.p; if lx.is(b',') { if let Tok::Num(n) = lx.peek() { lx.next(); ix.push(n.parse().unwrap()); continue; } lx.p = q; } break; } IK::InsertValue(a, b, ix) }
                "extractelement" => { let (_, a) = tv!(); lx.exp(b','); let (_, i) = tv!(); IK::ExtractElem(a, i) }
                "insertelement" => { let (_, a) = tv!(); lx.exp(b','); let (_, b) = tv!(); lx.exp(b','); let (_, i) = tv!(); IK::InsertElem(a, b, i) }
                "shufflevector" => {
                    let (t, a) = tv!(); lx.exp(b','); let (_, b) = tv!(); lx.exp(b','); let (_mt, mv) = tv!();
                    let mk = match mv { Opnd::K(V::A(v)) => v.iter().map(|x| match x { V::C(k) => *k as u32, _ => 0 }).collect(), _ => panic!() };
                    IK::Shuffle(t, a, b, mk)
                }
                "br" => {
                    if lx.peek() == Tok::Id("label") { let l = lab!(); IK::Br(l) }
                    else { let (_, c) = tv!(); lx.exp(b','); let a = lab!(); lx.exp(b','); let b = lab!(); IK::CondBr(c, a, b) }
                }
                "switch" => {
                    let (t, v) = tv!(); lx.exp(b','); let d = lab!(); lx.exp(b'[');
                    let mut cs = vec![];
                    loop {
                        match lx.peek() { Tok::NL => { lx.next(); continue; } Tok::P(b']') => { lx.next(); break; } _ => {} }
                        let (_, c) = tv!(); lx.exp(b','); let l = lab!();
                        match c { Opnd::K(V::C(k)) => cs.push((k, l)), _ => panic!() }
                    }
                    IK::Switch(t, v, d, Rc::new(cs))
                }
                "phi" => {
                    while let Tok::Id(w) = lx.peek() { if matches!(w, "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { lx.next(); } else { break; } }
                    let t = self.ty(&mut lx); let mut v = vec![];
                    loop { lx.exp(b'['); let a = val!(&t); lx.exp(b','); let l = match lx.next() { Tok::Loc(n) => bid!(n), t => panic!("{:?}", t) }; lx.exp(b']'); v.push((l, a)); let q = lx.p; if lx.is(b',') { if lx.peek() == Tok::P(b'[') { continue; } lx.p = q; } break; }
                    blk.phis.push((dst, t, v)); lx.to_nl(); continue;
                }
                "call" | "invoke" => {
                    let ret = self.ret_ty(&mut lx);
                    // optional function type: ret_ty may have consumed FnTy
                    let (ret, _va) = (ret, false);
                    let callee = match lx.next() {
                        Tok::Glob(g) => {
                            if g.starts_with("llvm.") { Callee::Intr(Rc::from(g)) } else {
                                match self.find_fn(g) { Some(f) => Callee::Fn(f), None => panic!("callee {}", g) } }
                        }
                        Tok::Loc(n) => Callee::Ind(Opnd::R(reg!(n))),
                        Tok::Id("asm") => { loop { match lx.peek() { Tok::P(b'(') => break, _ => { lx.next(); } } } Callee::Asm }
                        Tok::Id("inttoptr") | Tok::Id("null") | Tok::Id("undef") | Tok::Id("poison") => Callee::Ind(Opnd::K(V::C(0))),
                        t => panic!("callee {:?} near {}", t, lx.ctx(lx.p)),
                    };
                    lx.exp(b'(');
                    let mut args = vec![]; let mut argt = vec![];
                    if !lx.is(b')') {
                        loop { let t = self.ty(&mut lx); self.skip_attrs(&mut lx);
                            let v = if t == Ty::Meta { // metadata argument: skip
                                let mut d = 0; loop { match lx.peek() { Tok::P(b'(') => { d += 1; lx.next(); } Tok::P(b')') => { if d == 0 { break; } d -= 1; lx.next(); } Tok::P(b',') if d == 0 => break, Tok::Eof => panic!(), _ => { lx.next(); } } }
                                Opnd::K(V::C(0)) } else { val!(&t) };
                            args.push(v); argt.push(t);
                            if lx.is(b',') { continue; } lx.exp(b')'); break; }
                    }
                    let mut inv = None;
                    if opn == "invoke" {
                        loop { match lx.next() { Tok::Id("to") => break, Tok::Eof => panic!("invoke"), _ => {} } }
                        let n = lab!(); loop { match lx.next() { Tok::Id("unwind") => break, Tok::Eof => panic!(), _ => {} } } let u = lab!();
                        inv = Some((n, u));
                    }
                    IK::Call(Rc::new(CallI { callee, args, argt, ret, inv }))
                }
                "ret" => { if lx.peek() == Tok::Id("void") { lx.next(); IK::Ret(None) } else { let (_, v) = tv!(); IK::Ret(Some(v)) } }
                "unreachable" => IK::Unreachable,
                "resume" => { let (_, v) = tv!(); IK::Resume(v) }
                "landingpad" => {
                    let _ = self.ty(&mut lx);
                    let mut catch = false;
                    loop {
                        let q = lx.p;
                        match lx.next() {
                            Tok::NL => { let q2 = lx.p; match lx.next() { Tok::Id("cleanup") | Tok::Id("catch") | Tok::Id("filter") => { lx.p = q2; } _ => { lx.p = q; break; } } }
                            Tok::Id("cleanup") => {}
                            Tok::Id("catch") | Tok::Id("filter") => { catch = true; }
                            Tok::Eof => break,
                            _ => {}
                        }
                    }
                    IK::LandingPad(catch)
                }
                "atomicrmw" => {
                    lx.isw("volatile");
                    let o = match lx.next() { Tok::Id(w) => Rc::from(w), _ => panic!() };
                    let (_, p) = tv!(); lx.exp(b','); let (t, v) = tv!(); IK::Rmw(o, t, p, v)
                }
                "cmpxchg" => {
                    loop { if lx.isw("weak") || lx.isw("volatile") {} else { break; } }
                    let (_, p) = tv!(); lx.exp(b','); let (t, c) = tv!(); lx.exp(b','); let (_, n) = tv!(); IK::CmpXchg(t, p, c, n)
                }
                "fence" => IK::Fence,
                "freeze" => { let (_, v) = tv!(); IK::Freeze(v) }
                o => panic!("instruction {} near {}", o, lx.ctx(lx.p)),
            };
            blk.ins.push(Inst { dst, k });
            lx.to_nl();
        }
        if let Some(b) = cur.take() { done.insert(curid, b); }
        let nb = bnames.len();
        // an entry without label may be referenced in phis by its number
        for i in 0..nb as u32 { blocks.push(match done.remove(&i) { Some(b) => b, None => Block { phis: vec![], ins: vec![], name: "?".into() } }); }
        // entry must be block index of order[0]
        let entry = order[0];
        if entry != 0 { panic!("entry not first in {}", name); }
        // implicit entry name: references to "%N" as entry label in phi
        let mut f = Func { name, id, nparams, nregs: nreg, blocks, ret, varargs };
        if f.blocks[0].name == "entry" && bnames.contains_key("\u{1}entry") {
            let missing: Vec<u32> = (0..nb as u32).filter(|i| f.blocks[*i as usize].name == "?").collect();
            if missing.len() == 1 {
                let miss = missing[0];
                for b in f.blocks.iter_mut() { for p in b.phis.iter_mut() { for l in p.2.iter_mut() { if l.0 == miss { l.0 = 0; } } } }
            } else if missing.len() > 1 { panic!("missing blocks in {}", f.name); }
        }
        f
    }
    /// parse "[attrs] type" in define/call position, consuming an optional function type
    fn ret_ty(&self, lx: &mut Lex) -> Ty {
        loop {
            let p = lx.p;
            match lx.next() {
                Tok::Id(w) => {
                    let isty = matches!(w, "void" | "ptr" | "double" | "float" | "half" | "fp128") || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()));
                    if isty { lx.p = p; break; }
                    if w == "align" { if lx.peek() != Tok::P(b'(') { lx.next(); continue; } }
                    if lx.is(b'(') { lx.skip_paren(); }
                }
                Tok::Str(_) => { if lx.is(b'=') { lx.next(); } }
                Tok::Attr => {}
                Tok::Num(_) => {}
                _ => { lx.p = p; break; }
            }
        }
        // parse the type but do not swallow "(…)" unless it is a varargs fn type followed by callee
        let p = lx.p;
        let t = self.ty(lx);
        if let Ty::FnTy(_) = t {
            // re-parse the return type alone
            let after = lx.p;
            let mut l2 = Lex::new(lx.t, p, lx.end);
            let r = self.ty_noparen(&mut l2);
            lx.p = after;
            return r;
        }
        t
    }
    fn ty_noparen(&self, lx: &mut Lex) -> Ty {
        match lx.next() {
            Tok::Id("void") => Ty::Void, Tok::Id("ptr") => Ty::Ptr, Tok::Id("double") => Ty::F(64), Tok::Id("float") => Ty::F(32),
            Tok::Id(s) if s.starts_with('i') => Ty::I(s[1..].parse().unwrap()),
            t => panic!("ret type {:?}", t),
        }
    }
}

fn memchr(b: &[u8], p: usize, c: u8) -> usize { match b[p..].iter().position(|x| *x == c) { Some(i) => p + i, None => b.len() } }
fn fname(line: &str) -> String {
    let i = line.find('@').unwrap();
    let mut lx = Lex::new(line, i, line.len());
    match lx.next() { Tok::Glob(n) => n.to_string(), _ => panic!() }
}

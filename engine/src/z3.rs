//! Minimal FFI to libz3 (C API) and the query layer: translation of terms,
//! independence slicing, caching, statistics, optional SMT-LIB2 dumping.
use crate::term::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Solver = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_set_param_value(c: *mut c_void, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: *mut c_void) -> Ctx;
    fn Z3_mk_simple_solver(c: Ctx) -> Solver;
    fn Z3_mk_solver(c: Ctx) -> Solver;
    fn Z3_mk_tactic(c: Ctx, n: *const c_char) -> *mut c_void;
    fn Z3_tactic_inc_ref(c: Ctx, t: *mut c_void);
    fn Z3_tactic_try_for(c: Ctx, t: *mut c_void, ms: c_uint) -> *mut c_void;
    fn Z3_mk_solver_from_tactic(c: Ctx, t: *mut c_void) -> Solver;
    fn Z3_solver_dec_ref(c: Ctx, s: Solver);
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_push(c: Ctx, s: Solver);
    fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> *mut c_void;
    fn Z3_solver_set_params(c: Ctx, s: Solver, p: *mut c_void);
    fn Z3_solver_to_string(c: Ctx, s: Solver) -> *const c_char;
    fn Z3_mk_params(c: Ctx) -> *mut c_void;
    fn Z3_params_inc_ref(c: Ctx, p: *mut c_void);
    fn Z3_params_set_uint(c: Ctx, p: *mut c_void, k: *mut c_void, v: c_uint);
    fn Z3_model_inc_ref(c: Ctx, m: *mut c_void);
    fn Z3_model_dec_ref(c: Ctx, m: *mut c_void);
    fn Z3_model_eval(c: Ctx, m: *mut c_void, t: Ast, complete: bool, out: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Ctx, a: Ast, out: *mut u64) -> bool;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> *mut c_void;
    fn Z3_mk_bv_sort(c: Ctx, w: c_uint) -> Sort;
    fn Z3_mk_const(c: Ctx, s: *mut c_void, t: Sort) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, t: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, t: Sort) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, i: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_fpa_sort_32(c: Ctx) -> Sort;
    fn Z3_mk_fpa_sort_64(c: Ctx) -> Sort;
    fn Z3_mk_fpa_to_fp_bv(c: Ctx, bv: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_ieee_bv(c: Ctx, t: Ast) -> Ast;
    fn Z3_mk_fpa_to_fp_float(c: Ctx, rm: Ast, t: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_fp_signed(c: Ctx, rm: Ast, t: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_fp_unsigned(c: Ctx, rm: Ast, t: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_ubv(c: Ctx, rm: Ast, t: Ast, n: c_uint) -> Ast;
    fn Z3_mk_fpa_to_sbv(c: Ctx, rm: Ast, t: Ast, n: c_uint) -> Ast;
    fn Z3_mk_fpa_rne(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtz(c: Ctx) -> Ast;
    fn Z3_mk_fpa_add(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_sub(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_mul(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_div(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_lt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_leq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_is_nan(c: Ctx, a: Ast) -> Ast;
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, c: *mut c_uint, d: *mut c_uint);
}

pub enum Res { Unsat, Sat(Rc<Vec<(u32, u8)>>), Unknown }

#[derive(Default, Clone)]
pub struct Stats { pub queries: u64, pub cached: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub ns: u64, pub domain: u64, pub retried: u64 }

pub struct Z3 {
    c: Ctx, s: Solver,
    cache: HashMap<T, Ast>,
    qcache: HashMap<Vec<T>, Option<Rc<Vec<(u32, u8)>>>>,
    pub stats: Stats,
    pub dump: Option<(String, u64)>,
    pub dumped: u64,
}

fn has_fp(root: T) -> bool {
    let mut seen = std::collections::HashSet::new();
    let mut st = vec![root];
    while let Some(x) = st.pop() {
        if !seen.insert(x) { continue; }
        let n = tm().nodes[x as usize];
        match n.op {
            Op::Const | Op::Var => {}
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FEq | Op::FLt | Op::FLe | Op::FUno | Op::FExt | Op::FTrunc | Op::UI2F | Op::SI2F | Op::F2UI | Op::F2SI => return true,
            Op::Extract | Op::ZExt | Op::SExt => st.push(n.a),
            Op::Ite => st.extend([n.a, n.b, n.c]),
            _ => st.extend([n.a, n.b]),
        }
    }
    false
}

impl Z3 {
    pub fn new(rlimit: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap(); let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            let s = if std::env::var("FIGSYM_Z3_FULL").is_ok() { Z3_mk_solver(c) } else { Z3_mk_simple_solver(c) };
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c); Z3_params_inc_ref(c, p);
            let t = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), rlimit);
            Z3_solver_set_params(c, s, p);
            Z3 { c, s, cache: HashMap::new(), qcache: HashMap::new(), stats: Stats::default(), dump: None, dumped: 0 }
        }
    }
    pub fn version() -> String { let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0); unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d); } format!("{}.{}.{}", a, b, c) }

    fn num(&self, w: u32, v: u128) -> Ast {
        unsafe {
            let s = Z3_mk_bv_sort(self.c, w);
            if w <= 64 { Z3_mk_unsigned_int64(self.c, v as u64, s) }
            else { let st = CString::new(format!("{}", v)).unwrap(); Z3_mk_numeral(self.c, st.as_ptr(), s) }
        }
    }
    // width-1 terms are Bool
    fn tr(&mut self, root: T) -> Ast {
        let mut st = vec![(root, false)];
        while let Some((x, done)) = st.pop() {
            if self.cache.contains_key(&x) { continue; }
            let n = tm().nodes[x as usize];
            let kids: Vec<T> = match n.op {
                Op::Const | Op::Var => vec![],
                Op::Extract | Op::ZExt | Op::SExt | Op::FExt | Op::FTrunc | Op::UI2F | Op::SI2F | Op::F2UI | Op::F2SI => vec![n.a],
                Op::Ite => vec![n.a, n.b, n.c],
                _ => vec![n.a, n.b],
            };
            if !done { st.push((x, true)); for k in kids { st.push((k, false)); } continue; }
            let a = unsafe { self.mk(n) };
            self.cache.insert(x, a);
        }
        self.cache[&root]
    }
    fn bv(&self, t: T) -> Ast { // as bit-vector even if width 1
        let a = self.cache[&t];
        if tm().w(t) == 1 { unsafe { Z3_mk_ite(self.c, a, self.num(1, 1), self.num(1, 0)) } } else { a }
    }
    unsafe fn fp(&self, t: T) -> Ast {
        let a = self.cache[&t];
        let s = if tm().w(t) == 64 { Z3_mk_fpa_sort_64(self.c) } else { Z3_mk_fpa_sort_32(self.c) };
        Z3_mk_fpa_to_fp_bv(self.c, a, s)
    }
    unsafe fn mk(&mut self, n: Node) -> Ast {
        let c = self.c; let w = n.w as u32;
        let g = |t: T| self.cache[&t];
        match n.op {
            Op::Const => { let k = tm().consts[n.a as usize]; if w == 1 { if k != 0 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else { self.num(w, k) } }
            Op::Var => { let s = CString::new(format!("v{}_{}", n.a, tm().varnames[n.a as usize])).unwrap();
                Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, 8)) }
            Op::And if w == 1 => { let v = [g(n.a), g(n.b)]; Z3_mk_and(c, 2, v.as_ptr()) }
            Op::Or if w == 1 => { let v = [g(n.a), g(n.b)]; Z3_mk_or(c, 2, v.as_ptr()) }
            Op::Xor if w == 1 => { if tm().kval(n.b) == Some(1) { Z3_mk_not(c, g(n.a)) } else { Z3_mk_xor(c, g(n.a), g(n.b)) } }
            Op::Ite => Z3_mk_ite(c, g(n.a), g(n.b), g(n.c)),
            Op::Eq => Z3_mk_eq(c, g(n.a), g(n.b)),
            Op::Concat => Z3_mk_concat(c, self.bv(n.a), self.bv(n.b)),
            Op::Extract => {
                let e = Z3_mk_extract(c, n.b + w - 1, n.b, g(n.a));
                if w == 1 { Z3_mk_eq(c, e, self.num(1, 1)) } else { e }
            }
            Op::ZExt => { let iw = tm().w(n.a); Z3_mk_zero_ext(c, w - iw, self.bv(n.a)) }
            Op::SExt => { let iw = tm().w(n.a); Z3_mk_sign_ext(c, w - iw, self.bv(n.a)) }
            Op::FAdd => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_add(c, Z3_mk_fpa_rne(c), self.fp(n.a), self.fp(n.b))),
            Op::FSub => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sub(c, Z3_mk_fpa_rne(c), self.fp(n.a), self.fp(n.b))),
            Op::FMul => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_mul(c, Z3_mk_fpa_rne(c), self.fp(n.a), self.fp(n.b))),
            Op::FDiv => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_div(c, Z3_mk_fpa_rne(c), self.fp(n.a), self.fp(n.b))),
            Op::FEq => Z3_mk_fpa_eq(c, self.fp(n.a), self.fp(n.b)),
            Op::FLt => Z3_mk_fpa_lt(c, self.fp(n.a), self.fp(n.b)),
            Op::FLe => Z3_mk_fpa_leq(c, self.fp(n.a), self.fp(n.b)),
            Op::FUno => { let v = [Z3_mk_fpa_is_nan(c, self.fp(n.a)), Z3_mk_fpa_is_nan(c, self.fp(n.b))]; Z3_mk_or(c, 2, v.as_ptr()) }
            Op::FExt => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), self.fp(n.a), Z3_mk_fpa_sort_64(c))),
            Op::FTrunc => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), self.fp(n.a), Z3_mk_fpa_sort_32(c))),
            Op::UI2F | Op::SI2F => {
                let s = if w == 64 { Z3_mk_fpa_sort_64(c) } else { Z3_mk_fpa_sort_32(c) };
                let x = self.bv(n.a);
                let f = if n.op == Op::UI2F { Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), x, s) } else { Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), x, s) };
                Z3_mk_fpa_to_ieee_bv(c, f)
            }
            Op::F2UI => Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), self.fp(n.a), w),
            Op::F2SI => Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), self.fp(n.a), w),
            op => {
                let (a, b) = (self.bv(n.a), self.bv(n.b));
                let r = match op {
                    Op::Add => Z3_mk_bvadd(c, a, b), Op::Sub => Z3_mk_bvsub(c, a, b), Op::Mul => Z3_mk_bvmul(c, a, b),
                    Op::UDiv => Z3_mk_bvudiv(c, a, b), Op::URem => Z3_mk_bvurem(c, a, b), Op::SDiv => Z3_mk_bvsdiv(c, a, b), Op::SRem => Z3_mk_bvsrem(c, a, b),
                    Op::And => Z3_mk_bvand(c, a, b), Op::Or => Z3_mk_bvor(c, a, b), Op::Xor => Z3_mk_bvxor(c, a, b),
                    Op::Shl => Z3_mk_bvshl(c, a, b), Op::LShr => Z3_mk_bvlshr(c, a, b), Op::AShr => Z3_mk_bvashr(c, a, b),
                    Op::Ult => return Z3_mk_bvult(c, a, b), Op::Ule => return Z3_mk_bvule(c, a, b),
                    Op::Slt => return Z3_mk_bvslt(c, a, b), Op::Sle => return Z3_mk_bvsle(c, a, b),
                    _ => unreachable!(),
                };
                if w == 1 { Z3_mk_eq(c, r, self.num(1, 1)) } else { r }
            }
        }
    }

    /// Decide the conjunction of `cs` (all width-1 terms).
    pub fn check(&mut self, mut cs: Vec<T>) -> Res {
        cs.sort_unstable(); cs.dedup();
        if let Some(r) = self.qcache.get(&cs) {
            self.stats.cached += 1;
            return match r { Some(m) => Res::Sat(m.clone()), None => Res::Unsat };
        }
        let t0 = Instant::now();
        let res = unsafe {
            Z3_solver_push(self.c, self.s);
            let mut sup: Vec<u32> = vec![];
            for &t in &cs { let a = self.tr(t); Z3_solver_assert(self.c, self.s, a); sup.extend(tm().support(t).iter()); }
            sup.sort_unstable(); sup.dedup();
            let mut r = Z3_solver_check(self.c, self.s);
            let mut from = self.s;
            if r == 0 {
                // the incremental core gave up: decide by bit-blasting
                self.stats.retried += 1;
                let fp = cs.iter().any(|&t| has_fp(t));
                let name = CString::new(if fp { "qffpbv" } else { "qfbv" }).unwrap();
                let t = Z3_mk_tactic(self.c, name.as_ptr()); Z3_tactic_inc_ref(self.c, t);
                let t = Z3_tactic_try_for(self.c, t, 120_000); Z3_tactic_inc_ref(self.c, t);
                let s2 = Z3_mk_solver_from_tactic(self.c, t); Z3_solver_inc_ref(self.c, s2);
                for &t in &cs { let a = self.tr(t); Z3_solver_assert(self.c, s2, a); }
                r = Z3_solver_check(self.c, s2);
                from = s2;
            }
            if let Some((dir, every)) = &self.dump {
                if self.stats.queries % every == 0 {
                    let st = CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().to_string();
                    let f = format!("{}/q{}_{}_{}.smt2", dir, std::process::id(), self.stats.queries, match r { 1 => "sat", -1 => "unsat", _ => "unknown" });
                    let _ = std::fs::write(f, format!("(set-logic ALL)\n{}\n(check-sat)\n", st));
                    self.dumped += 1;
                }
            }
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, from);
                    Z3_model_inc_ref(self.c, m);
                    let mut v = vec![];
                    for &x in &sup {
                        let t = tm().var(x); let a = self.tr(t);
                        let mut o: Ast = std::ptr::null_mut();
                        let mut val = 0u64;
                        if Z3_model_eval(self.c, m, a, true, &mut o) && Z3_get_numeral_uint64(self.c, o, &mut val) { v.push((x, val as u8)); }
                        else { panic!("model eval failed"); }
                    }
                    Z3_model_dec_ref(self.c, m);
                    self.stats.sat += 1;
                    Res::Sat(Rc::new(v))
                }
                -1 => { self.stats.unsat += 1; Res::Unsat }
                _ => { self.stats.unknown += 1; Res::Unknown }
            };
            if from != self.s { Z3_solver_dec_ref(self.c, from); }
            Z3_solver_pop(self.c, self.s, 1);
            out
        };
        self.stats.queries += 1;
        self.stats.ns += t0.elapsed().as_nanos() as u64;
        match &res { Res::Sat(m) => { self.qcache.insert(cs, Some(m.clone())); } Res::Unsat => { self.qcache.insert(cs, None); } _ => {} }
        res
    }
}

//! Models of the harness interface and of the C library functions reached.
use crate::exec::*;
use crate::ir::*;
use crate::term::*;
use crate::z3::Res;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ext {
    Make, Assume, Assert, Reach, Log, Spawn, Join, Conc, IsSym,
    Malloc, Calloc, Realloc, Free, PosixMemalign, Memcmp, Bcmp, Strlen, Memchr, Memrchr,
    FmtStub, Fmt128, Write, Writev, Errno, Abort, Syscall, Raise, DelEx, Zero, One, Sysconf, Backtrace, StrerrorR, AtExit, KeyCreate, SetSpec, GetSpec,
}

pub fn lookup(n: &str, defined: bool) -> Option<Ext> {
    use Ext::*;
    let e = match n {
        "__sym_make" => Make, "__sym_assume" => Assume, "__sym_assert" => Assert, "__sym_reach" => Reach, "__sym_log" => Log,
        "__sym_spawn" => Spawn, "__sym_join" => Join, "__sym_conc" => Conc, "__sym_is_sym" => IsSym,
        "memcmp" => Memcmp, "bcmp" => Bcmp, "strlen" => Strlen, "memchr" => Memchr, "memrchr" => Memrchr,
        "malloc" => Malloc, "calloc" => Calloc, "realloc" => Realloc, "free" => Free, "posix_memalign" => PosixMemalign,
        _ if defined && n.starts_with("_RNvX") && (n.contains("4core3fmt3num") || n.contains("4core3fmt5float")) && (n.ends_with("7Display3fmt") || n.ends_with("5Debug3fmt")) => FmtStub,
        _ if defined && n.ends_with("4core3fmt3numo10__fmt_inner") => Fmt128,
        _ if defined => return None,
        "write" => Write, "writev" => Writev, "__errno_location" => Errno, "abort" => Abort, "syscall" => Syscall,
        "_Unwind_RaiseException" => Raise, "_Unwind_DeleteException" => DelEx,
        "_Unwind_Backtrace" => Backtrace,
        "poll" | "sigaction" | "signal" | "sigaltstack" | "mprotect" | "munmap" | "pthread_attr_destroy" | "pthread_attr_init" | "pthread_key_delete"
        | "_Unwind_GetIP" | "_Unwind_GetIPInfo" | "_Unwind_SetGR" | "_Unwind_SetIP" | "_Unwind_GetTextRelBase" | "dl_iterate_phdr" | "getauxval" | "close" | "getenv" | "sched_yield" => Zero,
        "pthread_key_create" => KeyCreate, "pthread_setspecific" => SetSpec, "pthread_getspecific" => GetSpec,
        "pthread_self" | "gettid" | "getpid" => One,
        "sysconf" => Sysconf,
        "__xpg_strerror_r" => StrerrorR,
        "__cxa_thread_atexit_impl" => AtExit,
        _ => return None,
    };
    Some(e)
}

fn name(ex: &mut Ex, st: &mut St, p: &V, l: &V) -> R<String> {
    let p = ex.conc(st, p, 64)? as u64; let l = ex.conc(st, l, 64)? as usize;
    Ok(String::from_utf8_lossy(&ex.cbytes(st, p, l)?).into_owned())
}

pub fn call(ex: &mut Ex, st: &mut St, e: Ext, fid: u32, a: Vec<V>, c: &CallI, dst: u32) -> R<()> {
    use Ext::*;
    let mut ret: Option<V> = None;
    match e {
        Make => {
            let p = ex.conc(st, &a[0], 64)? as u64; let n = ex.conc(st, &a[1], 64)? as usize;
            let nm = name(ex, st, &a[2], &a[3])?;
            let occ = st.inputs.iter().filter(|i| i.0.as_ref() == nm).count();
            let mut ts = vec![];
            for i in 0..n {
                let key = format!("{}#{}[{}]", nm, occ, i);
                let t = match ex.varmap.get(&key) { Some(t) => *t, None => { let t = tm().new_var(&key); ex.varmap.insert(key, t); t } };
                ts.push(t);
                ex.wr_bits(st, p + i as u64, 8, &V::S(t))?;
            }
            let pin = if occ == 0 && n == 1 { ex.pins.iter().find(|p| p.0 == nm).map(|p| p.1) } else { None };
            let t0 = ts.first().copied();
            st.inputs.push((Rc::from(nm), Rc::new(ts)));
            if let (Some(k), Some(t)) = (pin, t0) { if let V::S(c) = vbin(Op::Eq, 8, &V::S(t), &V::C(k as u128)) { if !ex.assume(st, c)? { return Err(Stop::Dead) } } }
        }
        Assume => {
            let z = vnot(&vbin(Op::Eq, 64, &a[0], &V::C(0)));
            match z { V::C(k) => if k == 0 { return Err(Stop::Dead) }, V::S(t) => if !ex.assume(st, t)? { ex.cnt.assumes_killed += 1; return Err(Stop::Dead) }, _ => panic!() }
        }
        Assert => {
            let nm = name(ex, st, &a[1], &a[2])?;
            st.asserts += 1;
            let bad = vbin(Op::Eq, 64, &a[0], &V::C(0));
            match bad {
                V::C(0) => ex.cnt.asserts_const += 1,
                V::C(_) => return viol(format!("assertion failed: {}", nm)),
                V::S(t) => {
                    ex.cnt.asserts_sym += 1;
                    let q = ex.slice_pub(st, &[t]);
                    match ex.z.check(q) {
                        Res::Unsat => {}
                        Res::Sat(m) => {
                            let mut md = st.model.clone();
                            for &(x, v) in m.iter() { if md.len() <= x as usize { md.resize(x as usize + 1, 0); } md[x as usize] = v; }
                            return Err(Stop::Viol(format!("assertion failed: {}", nm), Some(md)));
                        }
                        Res::Unknown => return incompl(format!("solver gave up on assertion {}", nm)),
                    }
                }
                _ => panic!(),
            }
        }
        Reach => { let nm = name(ex, st, &a[0], &a[1])?; st.reach.push(Rc::from(nm)); }
        Log => {
            let nm = name(ex, st, &a[0], &a[1])?;
            let p = ex.conc(st, &a[2], 64)? as u64; let n = ex.conc(st, &a[3], 64)? as usize;
            let b = ex.bytes(st, p, n)?; st.log.push((Rc::from(nm), Rc::new(b)));
        }
        Conc => { let v = ex.conc(st, &a[0], 64)?; ret = Some(V::C(v)); }
        IsSym => ret = Some(V::C(1)),
        // opt-in formatting stub: a symbolic number formats to the empty text
        FmtStub => {
            let bits = fmt_bits(&ex.m.fns[fid as usize].name);
            if ex.stub_fmt && bits > 0 {
                let p = ex.conc(st, &a[0], 64)? as u64;
                if let V::S(_) = ex.rd_bits(st, p, bits)? { ex.cnt.fmt_stubs += 1; return ex.ext_ret(st, dst, c.inv, Some(V::C(0))); }
            }
            return ex.push_call(st, fid, a, dst, c.inv);
        }
        // decimal digits of a concrete u128 (the standard library's code uses 256-bit products)
        Fmt128 => {
            let n = ex.conc(st, &a[0], 128)?; let p = ex.conc(st, &a[1], 64)? as u64; let len = ex.conc(st, &a[2], 64)? as usize;
            let d = n.to_string(); if d.len() > len { return viol("formatting buffer too small"); }
            for (i, b) in d.bytes().enumerate() { ex.wr_bits(st, p + (len - d.len() + i) as u64, 8, &V::C(b as u128))?; }
            ret = Some(V::C((len - d.len()) as u128));
        }
        Spawn => {
            let fa = ex.conc(st, &a[0], 64)? as u64; let id = ((fa >> SHIFT) - 1) as u32;
            let f = ex.m.func(id).unwrap(); ex.used.insert(id);
            let mut regs = vec![V::C(0); f.nregs as usize]; regs[0] = a[1].clone();
            let fr = Frame { f, blk: 0, ip: 0, regs, allocas: vec![], ret: NODST, inv: None, lp: None };
            st.threads.push(Some(Rc::new(Thread { stack: vec![Rc::new(fr)], tls: Rc::new(Default::default()), wait: Wait::Run })));
        }
        Join => {
            if st.threads.iter().enumerate().any(|(i, t)| i != st.tid && matches!(t, Some(th) if th.wait != Wait::Done)) { return ex.block(st, Wait::Join); }
        }
        Malloc => { let n = ex.conc(st, &a[0], 64)? as usize; if n > 1 << 24 { return viol(format!("allocation of {} bytes", n)); } ret = Some(V::C(st.mem.alloc(n, true) as u128)); }
        Calloc => { let n = (ex.conc(st, &a[0], 64)? * ex.conc(st, &a[1], 64)?) as usize; if n > 1 << 24 { return viol(format!("allocation of {} bytes", n)); } ret = Some(V::C(st.mem.alloc(n, true) as u128)); }
        PosixMemalign => {
            let n = ex.conc(st, &a[2], 64)? as usize; let p = ex.conc(st, &a[0], 64)? as u64; if n > 1 << 24 { return viol(format!("allocation of {} bytes", n)); }
            let x = st.mem.alloc(n, true); ex.wr_bits(st, p, 64, &V::C(x as u128))?; ret = Some(V::C(0));
        }
        Realloc => {
            let p = ex.conc(st, &a[0], 64)? as u64; let n = ex.conc(st, &a[1], 64)? as usize; if n > 1 << 24 { return viol(format!("allocation of {} bytes", n)); }
            if p == 0 { ret = Some(V::C(st.mem.alloc(n, true) as u128)); } else {
                let old = match st.mem.get(p >> SHIFT) { Some(o) if o.heap => o.data.len(), _ => return viol("realloc of invalid pointer") };
                let x = st.mem.alloc(n, true);
                ex.memcpy(st, x, p, old.min(n))?;
                st.mem.del(p >> SHIFT); ret = Some(V::C(x as u128));
            }
        }
        Free => {
            let p = ex.conc(st, &a[0], 64)? as u64;
            if p != 0 { match st.mem.get(p >> SHIFT) { Some(o) if o.heap && p & ((1 << SHIFT) - 1) == 0 => st.mem.del(p >> SHIFT), _ => return viol(format!("free of invalid pointer in {}", ex.where_(st))) } }
        }
        Memcmp | Bcmp => {
            let n = ex.conc(st, &a[2], 64)? as usize; let p = ex.conc(st, &a[0], 64)? as u64; let q = ex.conc(st, &a[1], 64)? as u64;
            let x = ex.bytes(st, p, n)?; let y = ex.bytes(st, q, n)?;
            if e == Bcmp {
                let mut t = V::C(1);
                for i in 0..n { let q = vbin(Op::Eq, 8, &x[i], &y[i]); t = vbin(Op::And, 1, &t, &q); if let V::C(0) = t { break; } }
                ret = Some(vzext(&vnot(&t), 32));
            } else {
                let mut r = V::C(0);
                for i in (0..n).rev() {
                    let eq = vbin(Op::Eq, 8, &x[i], &y[i]); let lt = vbin(Op::Ult, 8, &x[i], &y[i]);
                    let d = vite(&lt, 32, &V::C(mask(32)), &V::C(1));
                    r = vite(&eq, 32, &r, &d);
                }
                ret = Some(r);
            }
        }
        Strlen => {
            let p = ex.conc(st, &a[0], 64)? as u64; let mut n = 0u64;
            loop {
                let b = ex.rd_bits(st, p + n, 8)?;
                let z = vbin(Op::Eq, 8, &b, &V::C(0));
                if ex.decide(st, &z)? { break; }
                n += 1;
            }
            ret = Some(V::C(n as u128));
        }
        Memchr | Memrchr => {
            let p = ex.conc(st, &a[0], 64)? as u64; let n = ex.conc(st, &a[2], 64)? as usize;
            let ch = vextract(&a[1], 0, 8);
            let b = ex.bytes(st, p, n)?; ret = Some(V::C(0));
            let order: Vec<usize> = if e == Memchr { (0..n).collect() } else { (0..n).rev().collect() };
            for i in order { let q = vbin(Op::Eq, 8, &b[i], &ch); if ex.decide(st, &q)? { ret = Some(V::C((p + i as u64) as u128)); break; } }
        }
        Write => { let n = ex.conc(st, &a[2], 64)?; ret = Some(V::C(n)); }
        Writev => {
            let p = ex.conc(st, &a[1], 64)? as u64; let n = ex.conc(st, &a[2], 32)? as u64; let mut tot = 0;
            for i in 0..n { let l = ex.rd_bits(st, p + 16 * i + 8, 64)?; tot += ex.conc(st, &l, 64)?; }
            ret = Some(V::C(tot));
        }
        Errno => {
            let k = u32::MAX;
            let x = match st.tls.get(&k) { Some(x) => *x, None => { let x = st.mem.alloc(4, false); Rc::make_mut(&mut st.tls).insert(k, x); x } };
            ret = Some(V::C(x as u128));
        }
        Abort => return viol(format!("abort() in {}", ex.where_(st))),
        Syscall => {
            let n = ex.conc(st, &a[0], 64)?;
            match n {
                318 => { let p = ex.conc(st, &a[1], 64)? as u64; let l = ex.conc(st, &a[2], 64)? as usize; for i in 0..l { ex.wr_bits(st, p + i as u64, 8, &V::C((i as u128 * 37 + 11) & 255))?; } ret = Some(V::C(l as u128)); }
                186 => ret = Some(V::C(1)),
                24 => ret = Some(V::C(0)),
                202 => {
                    let p = ex.conc(st, &a[1], 64)? as u64; let op = ex.conc(st, &a[2], 64)? & 127; let v = ex.conc(st, &a[3], 64)? & mask(32);
                    if op == 0 || op == 9 {
                        let cur = ex.rd_bits(st, p, 32)?; let cur = ex.conc(st, &cur, 32)?;
                        if cur == v { return ex.block(st, Wait::Futex(p)); }
                        ret = Some(V::C(mask(64)));
                    } else {
                        let mut n = 0;
                        for t in st.threads.iter_mut() { if let Some(th) = t { if th.wait == Wait::Futex(p) { Rc::make_mut(th).wait = Wait::Run; n += 1; } } }
                        ret = Some(V::C(n));
                    }
                }
                n => return incompl(format!("system call {}", n)),
            }
        }
        KeyCreate => { st.keys += 1; let k = st.keys; let p = ex.conc(st, &a[0], 64)? as u64; ex.wr_bits(st, p, 32, &V::C(k as u128))?; ret = Some(V::C(0)); }
        SetSpec => { let k = ex.conc(st, &a[0], 32)? as u32; let v = ex.conc(st, &a[1], 64)? as u64; Rc::make_mut(&mut st.tls).insert(0x8000_0000 + k, v); ret = Some(V::C(0)); }
        GetSpec => { let k = ex.conc(st, &a[0], 32)? as u32; ret = Some(V::C(st.tls.get(&(0x8000_0000 + k)).copied().unwrap_or(0) as u128)); }
        Raise => {
            st.raised = Rc::new(st.stack.iter().rev().take(12).map(|f| f.f.name.clone()).collect()); let x = ex.conc(st, &a[0], 64)? as u64; return ex.unwind(st, x); }
        DelEx => {}
        Zero => ret = Some(V::C(0)),
        One => ret = Some(V::C(1)),
        Sysconf => { let n = ex.conc(st, &a[0], 32)?; ret = Some(V::C(match n { 30 => 4096, 84 | 83 => 8, 69 | 70 => 1024, _ => mask(64) })); }
        Backtrace => ret = Some(V::C(5)),
        StrerrorR => {
            let p = ex.conc(st, &a[1], 64)? as u64; let en = ex.conc(st, &a[0], 32)?;
            let s = format!("{}\0", errstr(en as i32));
            for (i, b) in s.bytes().enumerate() { ex.wr_bits(st, p + i as u64, 8, &V::C(b as u128))?; }
            ret = Some(V::C(0));
        }
        AtExit => ret = Some(V::C(0)),
    }
    let _ = fid;
    if let (Some(V::C(_)) | None, Ty::Void) = (&ret, &c.ret) { ret = None; }
    ex.ext_ret(st, dst, c.inv, ret)
}
fn fmt_bits(n: &str) -> u32 {
    let r = if let Some(i) = n.find("4core3fmt3num") { { let r = &n[i + 13..]; r.strip_prefix("3imp").unwrap_or(r) } } else if let Some(i) = n.find("4core3fmt5float") { &n[i + 15..] } else { return 0 };
    match r.as_bytes().first() { Some(b'o' | b'n') => 128, Some(b'y' | b'x' | b'j' | b'i' | b'd') => 64, Some(b'm' | b'l' | b'f') => 32, Some(b't' | b's') => 16, Some(b'h' | b'a') => 8, _ => 0 }
}
fn errstr(e: i32) -> &'static str { match e { 1 => "Operation not permitted", 2 => "No such file or directory", 13 => "Permission denied", 17 => "File exists", 20 => "Not a directory", 21 => "Is a directory", 22 => "Invalid argument", 40 => "Too many levels of symbolic links", 39 => "Directory not empty", 9 => "Bad file descriptor", _ => "Unknown error" } }

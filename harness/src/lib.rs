//! Harness support.  Under `cfg(figsym)` the functions are intercepted by the
//! symbolic engine; natively they replay concrete values from a file.

#[cfg(figsym)]
mod imp {
    extern "C" {
        fn __sym_make(p: *mut u8, n: usize, name: *const u8, nl: usize);
        fn __sym_assume(c: u64);
        fn __sym_assert(c: u64, name: *const u8, nl: usize);
        fn __sym_reach(name: *const u8, nl: usize);
        fn __sym_log(name: *const u8, nl: usize, p: *const u8, n: usize);
        fn __sym_conc(v: u64) -> u64;
        fn __sym_spawn(f: extern "C" fn(usize), arg: usize);
        fn __sym_join();
    }
    #[inline(always)] pub fn make(p: &mut [u8], name: &str) { unsafe { __sym_make(p.as_mut_ptr(), p.len(), name.as_ptr(), name.len()) } }
    #[inline(always)] pub fn assume(c: bool) { unsafe { __sym_assume(c as u64) } }
    #[inline(always)] pub fn check(c: bool, name: &str) { unsafe { __sym_assert(c as u64, name.as_ptr(), name.len()) } }
    #[inline(always)] pub fn reach(name: &str) { unsafe { __sym_reach(name.as_ptr(), name.len()) } }
    #[inline(always)] pub fn log(name: &str, b: &[u8]) { unsafe { __sym_log(name.as_ptr(), name.len(), b.as_ptr(), b.len()) } }
    #[inline(always)] pub fn conc(v: u64) -> u64 { unsafe { __sym_conc(v) } }
    #[inline(always)] pub fn spawn(f: extern "C" fn(usize), arg: usize) { unsafe { __sym_spawn(f, arg) } }
    #[inline(always)] pub fn join() { unsafe { __sym_join() } }
}

#[cfg(not(figsym))]
pub mod imp {
    use std::sync::Mutex;
    pub struct Replay { pub inputs: Vec<(String, Vec<u8>)>, pub pos: std::collections::HashMap<String, usize>, pub threads: Vec<std::thread::JoinHandle<()>> }
    pub static RP: Mutex<Option<Replay>> = Mutex::new(None);
    pub static OUT: Mutex<String> = Mutex::new(String::new());
    pub struct AssumeFailed;
    fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
    pub fn emit(s: String) { let mut o = OUT.lock().unwrap_or_else(|e| e.into_inner()); o.push_str(&s); o.push('\n'); }
    pub fn make(p: &mut [u8], name: &str) {
        let mut g = RP.lock().unwrap();
        let r = g.as_mut().unwrap();
        let n = r.pos.entry(name.to_string()).or_insert(0);
        let v = r.inputs.iter().filter(|i| i.0 == name).nth(*n);
        *n += 1;
        match v { Some(v) if v.1.len() == p.len() => p.copy_from_slice(&v.1), _ => { emit(format!("NOINPUT {}", name)); p.fill(0) } }
    }
    pub fn assume(c: bool) { if !c { emit("ASSUME".into()); crate::native::finish(3) } }
    pub fn check(c: bool, name: &str) { if !c { emit(format!("FAIL {}", name)); crate::native::finish(1) } }
    pub fn reach(name: &str) { emit(format!("REACH {}", name)) }
    pub fn log(name: &str, b: &[u8]) { emit(format!("LOG {} {}", name, hex(b))) }
    pub fn conc(v: u64) -> u64 { v }
    pub fn spawn(f: extern "C" fn(usize), arg: usize) { let h = std::thread::spawn(move || f(arg)); RP.lock().unwrap().as_mut().unwrap().threads.push(h); }
    pub fn join() { let v = std::mem::take(&mut RP.lock().unwrap().as_mut().unwrap().threads); for h in v { if h.join().is_err() { emit("PANIC in thread".into()); crate::native::finish(2) } } }
}

pub use imp::{assume, check, join, log, make, reach, spawn};

pub fn u8(name: &str) -> u8 { let mut b = [0; 1]; make(&mut b, name); b[0] }
pub fn u16(name: &str) -> u16 { let mut b = [0; 2]; make(&mut b, name); u16::from_le_bytes(b) }
pub fn u32(name: &str) -> u32 { let mut b = [0; 4]; make(&mut b, name); u32::from_le_bytes(b) }
pub fn u64(name: &str) -> u64 { let mut b = [0; 8]; make(&mut b, name); u64::from_le_bytes(b) }
pub fn u128(name: &str) -> u128 { let mut b = [0; 16]; make(&mut b, name); u128::from_le_bytes(b) }
pub fn bool(name: &str) -> bool { let b = u8(name); assume(b < 2); b & 1 == 1 }
/// a concrete choice in 0..n, explored exhaustively (the engine forks on it)
pub fn choice(name: &str, n: u8) -> usize { let b = u8(name); assume(b < n); imp::conc(b as u64) as usize }
pub fn flip(name: &str) -> bool { choice(name, 2) == 1 }
/// arbitrary bytes of exactly n
pub fn bytes(name: &str, n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; if n > 0 { make(&mut v, name); } v }
/// arbitrary ASCII string of exactly n characters
pub fn ascii_n(name: &str, n: usize) -> String { let v = bytes(name, n); let mut ok = true; for b in &v { ok &= *b < 128; } assume(ok); unsafe { String::from_utf8_unchecked(v) } }
/// arbitrary ASCII string of length lo..=hi
pub fn ascii(name: &str, lo: usize, hi: usize) -> String { let n = lo + choice("len", (hi - lo + 1) as u8); ascii_n(name, n) }
/// one char of the given alphabet, symbolic (no fork)
pub fn one_of(name: &str, alpha: &[u8]) -> u8 { let b = u8(name); let mut ok = false; for a in alpha { ok |= b == *a; } assume(ok); b }
pub fn word(name: &str, alpha: &[u8], n: usize) -> String { let mut v = vec![]; for _ in 0..n { v.push(one_of(name, alpha)); } unsafe { String::from_utf8_unchecked(v) } }
pub fn is_ascii_alnum(b: u8) -> bool { (b'0' <= b) & (b <= b'9') | (b'a' <= (b | 32)) & ((b | 32) <= b'z') }
/// byte equality without short-circuiting
pub fn same(a: &[u8], b: &[u8]) -> bool { if a.len() != b.len() { return false; } let mut ok = true; for i in 0..a.len() { ok &= a[i] == b[i]; } ok }
pub fn logs(name: &str, s: &str) { log(name, s.as_bytes()) }
pub fn logd<T: std::fmt::Debug>(name: &str, t: &T) { log(name, format!("{:?}", t).as_bytes()) }

pub mod vfs;
pub mod env;

#[cfg(figsym)]
pub fn start() { std::panic::set_hook(Box::new(|_| {})); }

#[cfg(not(figsym))]
pub mod native {
    use super::imp::*;
    use std::io::Write;
    pub fn finish(code: i32) -> ! {
        let o = OUT.lock().unwrap_or_else(|e| e.into_inner()).clone();
        let so = std::io::stdout(); let mut l = so.lock(); let _ = l.write_all(o.as_bytes()); let _ = l.flush();
        unsafe { libc::_exit(code) }
    }
    fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
    /// each argument is a replay file: lines `name hex`.  Output per file:
    /// `BEGIN path`, events, then `OK` | `FAIL name` | `PANIC msg` | `ASSUME`, `END code`.
    pub fn main2(f: extern "C-unwind" fn()) {
        for path in std::env::args().skip(1) {
            let text = std::fs::read_to_string(&path).expect("replay file");
            let inputs: Vec<(String, Vec<u8>)> = text.lines().filter(|l| !l.is_empty() && !l.starts_with('#')).map(|l| { let (n, h) = l.split_once(' ').unwrap_or((l, "")); (n.to_string(), unhex(h.trim())) }).collect();
            println!("BEGIN {}", path);
            let _ = std::io::stdout().flush();
            unsafe {
                let pid = libc::fork();
                if pid == 0 {
                    libc::alarm(60);
                    *RP.lock().unwrap() = Some(Replay { inputs, pos: Default::default(), threads: vec![] });
                    std::panic::set_hook(Box::new(|i| {
                        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
                        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
                        *LAST.lock().unwrap_or_else(|e| e.into_inner()) = format!("{} at {}", m.replace('\n', " "), l);
                    }));
                    match std::panic::catch_unwind(|| f()) {
                        Ok(()) => { emit("OK".into()); finish(0) }
                        Err(_) => { let m = LAST.lock().unwrap_or_else(|e| e.into_inner()).clone(); emit(format!("PANIC {}", m)); finish(2) }
                    }
                }
                let mut st = 0; libc::waitpid(pid, &mut st, 0);
                println!("END {}", if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { 128 + libc::WTERMSIG(st) });
            }
        }
    }
    pub static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
}

#[macro_export]
macro_rules! entry {
    ($f:path) => {
        #[cfg(figsym)] #[no_mangle] pub extern "C" fn sym_main() { $crate::start(); $f(); }
        #[cfg(figsym)] fn main() { sym_main() }
        #[cfg(not(figsym))] extern "C-unwind" fn sym_main_native() { $f(); }
        #[cfg(not(figsym))] fn main() { $crate::native::main2(sym_main_native) }
    };
}

/// Deeper bounds are compiled in for the thorough tier.
pub const THOROUGH: bool = match option_env!("FSH_TIER") { Some(t) => t.len() == 8, None => false };
pub const fn tier(quick: usize, thorough: usize) -> usize { if THOROUGH { thorough } else { quick } }

pub mod prov;
pub mod model;
pub mod dynty;
pub mod refparse;

/// a UTF-8 character of exactly n bytes, arbitrary within that length class
pub fn utf8(name: &str, n: usize) -> Vec<u8> {
    let v = bytes(name, n);
    let cont = |b: u8| b & 0xc0 == 0x80;
    let ok = match n {
        1 => v[0] < 128,
        2 => (v[0] >= 0xc2) & (v[0] < 0xe0) & cont(v[1]),
        3 => (v[0] & 0xf0 == 0xe0) & cont(v[1]) & cont(v[2]) & !((v[0] == 0xe0) & (v[1] < 0xa0)) & !((v[0] == 0xed) & (v[1] >= 0xa0)),
        _ => (v[0] >= 0xf0) & (v[0] < 0xf5) & cont(v[1]) & cont(v[2]) & cont(v[3]) & !((v[0] == 0xf0) & (v[1] < 0x90)) & !((v[0] == 0xf4) & (v[1] >= 0x90)),
    };
    assume(ok);
    v
}
pub fn text(b: Vec<u8>) -> String { unsafe { String::from_utf8_unchecked(b) } }

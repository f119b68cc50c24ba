//! An environment under the harness's control: `environ` and its accessors.
use libc::*;
pub struct Env { pub vars: Vec<Vec<u8>>, pub ptrs: Vec<*const c_char> }
static mut E: Option<Env> = None;
#[allow(static_mut_refs)]
pub fn env() -> &'static mut Env { unsafe { if E.is_none() { E = Some(Env { vars: vec![], ptrs: vec![std::ptr::null()] }); } E.as_mut().unwrap() } }
pub type Slot = *mut *const *const c_char;
impl Env {
    /// rebuild the pointer array: entries are `NAME=value` with a NUL
    fn sync(&mut self, slot: Slot) { self.ptrs = self.vars.iter().map(|v| v.as_ptr() as *const c_char).collect(); self.ptrs.push(std::ptr::null()); unsafe { *slot = self.ptrs.as_ptr(); } }
    fn at(&self, name: &[u8]) -> Option<usize> { for (i, v) in self.vars.iter().enumerate() { if v.len() > name.len() && v[name.len()] == b'=' && crate::same(&v[..name.len()], name) { return Some(i); } } None }
    /// append without looking for an existing variable
    pub fn push(&mut self, name: &[u8], value: &[u8], slot: Slot) { let mut e = name.to_vec(); e.push(b'='); e.extend_from_slice(value); e.push(0); self.vars.push(e); self.sync(slot); }
    pub fn get(&self, name: &[u8]) -> Option<&[u8]> { self.at(name).map(|i| &self.vars[i][name.len() + 1..self.vars[i].len() - 1]) }
}
unsafe fn cstr<'a>(p: *const c_char) -> &'a [u8] { std::ffi::CStr::from_ptr(p).to_bytes() }
unsafe fn err() -> c_int { *__errno_location() = EINVAL; -1 }
pub unsafe fn getenv(n: *const c_char) -> *mut c_char { let e = env(); let n = cstr(n); match e.at(n) { Some(i) if !n.is_empty() => e.vars[i].as_ptr().add(n.len() + 1) as *mut c_char, _ => std::ptr::null_mut() } }
pub unsafe fn setenv(n: *const c_char, v: *const c_char, over: c_int, slot: Slot) -> c_int {
    let e = env(); let n = cstr(n); if n.is_empty() || n.contains(&b'=') { return err(); }
    let mut s = n.to_vec(); s.push(b'='); s.extend_from_slice(cstr(v)); s.push(0);
    match e.at(n) { Some(i) => if over != 0 { e.vars[i] = s }, None => e.vars.push(s) }
    e.sync(slot); 0
}
pub unsafe fn unsetenv(n: *const c_char, slot: Slot) -> c_int { let e = env(); let n = cstr(n); if n.is_empty() || n.contains(&b'=') { return err(); } while let Some(i) = e.at(n) { e.vars.remove(i); } e.sync(slot); 0 }
#[macro_export]
macro_rules! env_exports {
    () => { mod env_exports {
        use libc::*; use $crate::env as e;
        #[allow(non_upper_case_globals)] #[no_mangle] pub static mut environ: *const *const c_char = std::ptr::null();
        pub fn slot() -> e::Slot { &raw mut environ }
        #[no_mangle] pub unsafe extern "C" fn getenv(n: *const c_char) -> *mut c_char { e::getenv(n) }
        #[no_mangle] pub unsafe extern "C" fn setenv(n: *const c_char, v: *const c_char, o: c_int) -> c_int { e::setenv(n, v, o, slot()) }
        #[no_mangle] pub unsafe extern "C" fn unsetenv(n: *const c_char) -> c_int { e::unsetenv(n, slot()) }
    } };
}

//! An in-memory file system standing in for the real one, under the C library's
//! names: used identically by the symbolic engine and by native replay, so that
//! no replayed input can touch a real file.  Inactive until `enable`.
use crate::imp;
use libc::*;

#[derive(Clone)]
pub struct Node { pub parent: usize, pub name: Vec<u8>, pub dir: bool, pub data: Vec<u8>, pub alive: bool }
struct Fd { node: usize, pos: usize, open: bool }
pub struct Vfs { pub on: bool, pub nodes: Vec<Node>, fds: Vec<Fd>, pub cwd: usize, pub reads: usize, dirent: dirent64, pub created: Vec<usize>, pub entered: Vec<usize>, pub removed: Vec<usize> }
static mut FS: Option<Vfs> = None;
pub fn on() -> bool { unsafe { (*(&raw const FS)).as_ref().map_or(false, |v| v.on) } }
#[allow(static_mut_refs)]
pub fn fs() -> &'static mut Vfs { unsafe { FS.as_mut().expect("vfs") } }
pub fn enable() {
    let v = Vfs { on: true, nodes: vec![Node { parent: 0, name: vec![], dir: true, data: vec![], alive: true }], fds: vec![], cwd: 0, reads: 0, dirent: unsafe { std::mem::zeroed() }, created: vec![], entered: vec![], removed: vec![] };
    unsafe { *(&raw mut FS) = Some(v) }
}
fn err(e: i32) -> i32 { unsafe { *__errno_location() = e } -1 }
const FD0: i32 = 1000;

impl Vfs {
    pub fn child(&self, d: usize, name: &[u8]) -> Option<usize> { for i in 1..self.nodes.len() { let n = &self.nodes[i]; if n.alive && n.parent == d && n.name.len() == name.len() && n.name == name { return Some(i); } } None }
    fn add(&mut self, parent: usize, name: &[u8], dir: bool) -> usize { self.nodes.push(Node { parent, name: name.to_vec(), dir, data: vec![], alive: true }); self.nodes.len() - 1 }
    /// walk all but the last component: (directory, last name, trailing slash)
    fn parent_of(&self, base: usize, path: &[u8]) -> Result<(usize, Option<Vec<u8>>, bool), i32> {
        if path.is_empty() { return Err(ENOENT); }
        let mut cur = if path[0] == b'/' { 0 } else { base };
        let mut comps: Vec<Vec<u8>> = vec![]; let mut c = vec![];
        for &b in path { if b == b'/' { if !c.is_empty() { comps.push(std::mem::take(&mut c)); } } else { c.push(b) } }
        let slash = c.is_empty();
        if !c.is_empty() { comps.push(c); }
        let last = match comps.pop() { Some(l) => l, None => return Ok((0, None, true)) };
        for c in &comps { cur = self.step(cur, c)?; }
        if !self.nodes[cur].dir { return Err(ENOTDIR); }
        Ok((cur, Some(last), slash))
    }
    fn step(&self, cur: usize, c: &[u8]) -> Result<usize, i32> {
        if !self.nodes[cur].dir { return Err(ENOTDIR); }
        if c.len() == 1 && c[0] == b'.' { return Ok(cur); }
        if c.len() == 2 && c[0] == b'.' && c[1] == b'.' { return Ok(self.nodes[cur].parent); }
        self.child(cur, c).ok_or(ENOENT)
    }
    fn lookup(&self, base: usize, path: &[u8]) -> Result<usize, i32> {
        let (d, last, slash) = self.parent_of(base, path)?;
        let n = match last { None => d, Some(l) => self.step(d, &l)? };
        if slash && !self.nodes[n].dir { return Err(ENOTDIR); }
        Ok(n)
    }
    pub fn path(&self, n: usize) -> Vec<u8> { if n == 0 { return b"/".to_vec(); } let mut p = if self.nodes[n].parent == 0 { vec![] } else { self.path(self.nodes[n].parent) }; p.push(b'/'); p.extend_from_slice(&self.nodes[n].name); p }
    pub fn inside(&self, mut n: usize, d: usize) -> bool { loop { if n == d { return true; } if n == 0 { return false; } n = self.nodes[n].parent; } }
    pub fn find(&self, path: &str) -> Option<usize> { self.lookup(0, path.as_bytes()).ok() }
    pub fn mkdirs(&mut self, path: &str) -> usize { let mut cur = 0; for c in path.split('/').filter(|c| !c.is_empty()) { cur = match self.child(cur, c.as_bytes()) { Some(n) => n, None => self.add(cur, c.as_bytes(), true) }; } cur }
    pub fn put(&mut self, path: &str, data: &[u8]) -> usize { let (d, f) = path.rsplit_once('/').unwrap(); let d = self.mkdirs(d); let n = match self.child(d, f.as_bytes()) { Some(n) => n, None => self.add(d, f.as_bytes(), false) }; self.nodes[n].data = data.to_vec(); n }
    pub fn alive(&self) -> Vec<usize> { (0..self.nodes.len()).filter(|&i| { let mut n = i; loop { if !self.nodes[n].alive { return false; } if n == 0 { return true; } n = self.nodes[n].parent; } }).collect() }
    fn base(&self, fd: i32) -> usize { if fd == AT_FDCWD { self.cwd } else { self.fds[(fd - FD0) as usize].node } }
    fn newfd(&mut self, node: usize) -> i32 { self.fds.push(Fd { node, pos: 0, open: true }); FD0 + self.fds.len() as i32 - 1 }
    fn open(&mut self, base: usize, path: &[u8], flags: i32) -> Result<i32, i32> {
        let (d, last, slash) = self.parent_of(base, path)?;
        let n = match &last { None => Ok(d), Some(l) => self.step(d, l) };
        let n = match n {
            Ok(n) => { if flags & O_CREAT != 0 && flags & O_EXCL != 0 { return Err(EEXIST); } n }
            Err(e) => { if e != ENOENT || flags & O_CREAT == 0 { return Err(e); } if slash { return Err(EISDIR); } let n = self.add(d, last.as_ref().unwrap(), false); self.created.push(n); n }
        };
        let dir = self.nodes[n].dir;
        if slash && !dir { return Err(ENOTDIR); }
        if dir && flags & O_ACCMODE != O_RDONLY { return Err(EISDIR); }
        if !dir && flags & O_DIRECTORY != 0 { return Err(ENOTDIR); }
        if !dir && flags & O_TRUNC != 0 { self.nodes[n].data.clear(); self.created.push(n); }
        Ok(self.newfd(n))
    }
    fn remove(&mut self, base: usize, path: &[u8], dir: bool) -> Result<(), i32> {
        let (d, last, _) = self.parent_of(base, path)?;
        let n = match last { None => return Err(EBUSY), Some(l) => self.step(d, &l)? };
        if dir && !self.nodes[n].dir { return Err(ENOTDIR); }
        if !dir && self.nodes[n].dir { return Err(EISDIR); }
        if dir { for i in 1..self.nodes.len() { if self.nodes[i].alive && self.nodes[i].parent == n { return Err(ENOTEMPTY); } } }
        self.nodes[n].alive = false; self.removed.push(n); Ok(())
    }
    fn mode(&self, n: usize) -> u32 { if self.nodes[n].dir { S_IFDIR | 0o755 } else { S_IFREG | 0o644 } }
}
unsafe fn cstr<'a>(p: *const c_char) -> &'a [u8] { std::ffi::CStr::from_ptr(p).to_bytes() }
fn done(r: Result<(), i32>) -> c_int { match r { Ok(()) => 0, Err(e) => err(e) } }

pub unsafe fn open_at(fd: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if !on() { return imp_syscall(SYS_openat, fd as usize, p as usize, flags as usize, mode as usize) as c_int; }
    let v = fs(); let b = v.base(fd); match v.open(b, cstr(p), flags) { Ok(f) => f, Err(e) => err(e) }
}
pub unsafe fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    if fd < FD0 { return imp_syscall(SYS_read, fd as usize, b as usize, n, 0) as ssize_t; }
    let v = fs(); v.reads += 1; let f = &mut v.fds[(fd - FD0) as usize]; let node = &v.nodes[f.node];
    if node.dir { return err(EISDIR) as ssize_t; }
    let k = (node.data.len() - f.pos).min(n);
    std::ptr::copy_nonoverlapping(node.data.as_ptr().add(f.pos), b as *mut u8, k); f.pos += k; k as ssize_t
}
pub unsafe fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    if fd < FD0 { return imp_syscall(SYS_write, fd as usize, b as usize, n, 0) as ssize_t; }
    let v = fs(); let f = &mut v.fds[(fd - FD0) as usize]; v.nodes[f.node].data.extend_from_slice(std::slice::from_raw_parts(b as *const u8, n)); f.pos += n; n as ssize_t
}
pub unsafe fn lseek(fd: c_int, off: i64, whence: c_int) -> i64 {
    if fd < FD0 { return imp_syscall(SYS_lseek, fd as usize, off as usize, whence as usize, 0); }
    let v = fs(); let f = &mut v.fds[(fd - FD0) as usize]; let l = v.nodes[f.node].data.len() as i64;
    let p = match whence { SEEK_SET => off, SEEK_CUR => f.pos as i64 + off, _ => l + off }; f.pos = p as usize; p
}
pub unsafe fn close(fd: c_int) -> c_int { if fd < FD0 { return imp_syscall(SYS_close, fd as usize, 0, 0, 0) as c_int; } let f = &mut fs().fds[(fd - FD0) as usize]; assert!(f.open, "closed twice"); f.open = false; 0 }
pub unsafe fn fcntl(fd: c_int, c: c_int, a: usize) -> c_int { if fd < FD0 { return imp_syscall(SYS_fcntl, fd as usize, c as usize, a, 0) as c_int; } 0 }
pub unsafe fn statx(fd: c_int, p: *const c_char, flags: c_int, mask: c_uint, buf: *mut libc::statx) -> c_int {
    if !on() { return imp_syscall5(SYS_statx, fd as usize, p as usize, flags as usize, mask as usize, buf as usize) as c_int; }
    if p.is_null() || buf.is_null() { return err(EFAULT); } // the standard library's probe
    let v = fs(); let path = cstr(p);
    let n = if path.is_empty() && flags & AT_EMPTY_PATH != 0 { Ok(v.base(fd)) } else { v.lookup(v.base(fd), path) };
    match n { Ok(n) => { std::ptr::write_bytes(buf as *mut u8, 0, std::mem::size_of::<libc::statx>()); (*buf).stx_mode = v.mode(n) as u16; (*buf).stx_size = v.nodes[n].data.len() as u64; (*buf).stx_ino = n as u64 + 1; (*buf).stx_mask = 0xfff; 0 } Err(e) => err(e) }
}
unsafe fn fill(n: Result<usize, i32>, buf: *mut libc::stat64) -> c_int { match n { Ok(n) => { std::ptr::write_bytes(buf as *mut u8, 0, std::mem::size_of::<libc::stat64>()); (*buf).st_mode = fs().mode(n); (*buf).st_size = fs().nodes[n].data.len() as i64; (*buf).st_ino = n as u64 + 1; 0 } Err(e) => err(e) } }
pub unsafe fn stat(p: *const c_char, buf: *mut libc::stat64) -> c_int { if !on() { return imp_syscall(SYS_stat, p as usize, buf as usize, 0, 0) as c_int; } let v = fs(); fill(v.lookup(v.cwd, cstr(p)), buf) }
pub unsafe fn fstat(fd: c_int, buf: *mut libc::stat64) -> c_int { if fd < FD0 { return imp_syscall(SYS_fstat, fd as usize, buf as usize, 0, 0) as c_int; } let n = fs().base(fd); fill(Ok(n), buf) }
pub unsafe fn mkdir(p: *const c_char, mode: c_uint) -> c_int {
    if !on() { return imp_syscall(SYS_mkdir, p as usize, mode as usize, 0, 0) as c_int; }
    let v = fs();
    let r = v.parent_of(v.cwd, cstr(p)).and_then(|(d, last, _)| match last { None => Err(EEXIST), Some(l) => match v.step(d, &l) { Ok(_) => Err(EEXIST), Err(ENOENT) => { let n = v.add(d, &l, true); v.created.push(n); Ok(()) } Err(e) => Err(e) } });
    done(r)
}
pub unsafe fn chdir(p: *const c_char) -> c_int { if !on() { return imp_syscall(SYS_chdir, p as usize, 0, 0, 0) as c_int; } let v = fs(); match v.lookup(v.cwd, cstr(p)) { Ok(n) if v.nodes[n].dir => { v.cwd = n; v.entered.push(n); 0 } Ok(_) => err(ENOTDIR), Err(e) => err(e) } }
pub unsafe fn getcwd(b: *mut c_char, n: size_t) -> *mut c_char {
    if !on() { return if imp_syscall(SYS_getcwd, b as usize, n, 0, 0) < 0 { std::ptr::null_mut() } else { b }; }
    let v = fs(); let mut p = v.path(v.cwd); p.push(0); if p.len() > n { err(ERANGE); return std::ptr::null_mut(); }
    std::ptr::copy_nonoverlapping(p.as_ptr(), b as *mut u8, p.len()); b
}
pub unsafe fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    assert!(on() && out.is_null());
    let v = fs(); let n = match v.lookup(v.cwd, cstr(p)) { Ok(n) => n, Err(e) => { err(e); return std::ptr::null_mut(); } };
    let mut p = v.path(n); p.push(0); let m = libc::malloc(p.len()) as *mut u8; std::ptr::copy_nonoverlapping(p.as_ptr(), m, p.len()); m as *mut c_char
}
pub unsafe fn unlinkat(fd: c_int, p: *const c_char, flags: c_int) -> c_int { if !on() { err(EPERM); return -1; } let v = fs(); let b = v.base(fd); done(v.remove(b, cstr(p), flags & AT_REMOVEDIR != 0)) }
// directory streams: the pointer is the descriptor
pub unsafe fn fdopendir(fd: c_int) -> *mut DIR { fd as usize as *mut DIR }
pub unsafe fn opendir(p: *const c_char) -> *mut DIR { let f = open_at(AT_FDCWD, p, O_RDONLY | O_DIRECTORY, 0); if f < 0 { std::ptr::null_mut() } else { fdopendir(f) } }
pub unsafe fn dirfd(d: *mut DIR) -> c_int { d as usize as c_int }
pub unsafe fn closedir(d: *mut DIR) -> c_int { close(dirfd(d)) }
pub unsafe fn readdir(d: *mut DIR) -> *mut dirent64 {
    let v = fs(); let f = &mut v.fds[(dirfd(d) - FD0) as usize];
    loop {
        f.pos += 1; if f.pos >= v.nodes.len() { return std::ptr::null_mut(); }
        let n = &v.nodes[f.pos]; if !n.alive || n.parent != f.node { continue; }
        v.dirent.d_ino = f.pos as u64 + 1; v.dirent.d_type = if n.dir { DT_DIR } else { DT_REG };
        for (i, b) in n.name.iter().enumerate() { v.dirent.d_name[i] = *b as c_char; } v.dirent.d_name[n.name.len()] = 0;
        return &mut v.dirent;
    }
}
pub unsafe fn clock_gettime(c: c_int, t: *mut timespec) -> c_int { if !on() { return imp_syscall(SYS_clock_gettime, c as usize, t as usize, 0, 0) as c_int; } (*t).tv_sec = 1000; (*t).tv_nsec = 0; 0 }

#[cfg(figsym)]
unsafe fn imp_syscall(_n: c_long, _a: usize, _b: usize, c: usize, _d: usize) -> i64 { let _ = imp::conc; if _n == SYS_write { return c as i64; } if _n == SYS_close { return 0; } panic!("real file system reached") }
#[cfg(figsym)]
unsafe fn imp_syscall5(_n: c_long, _a: usize, _b: usize, _c: usize, _d: usize, _e: usize) -> i64 { panic!("real file system reached") }
#[cfg(not(figsym))]
unsafe fn imp_syscall(n: c_long, a: usize, b: usize, c: usize, d: usize) -> i64 { let _ = imp::conc; libc::syscall(n, a, b, c, d) }
#[cfg(not(figsym))]
unsafe fn imp_syscall5(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize) -> i64 { libc::syscall(n, a, b, c, d, e) }

/// place in a binary that uses the file system
#[macro_export]
macro_rules! vfs_exports {
    () => { mod vfs_exports {
        use libc::*; use $crate::vfs as v;
        #[no_mangle] pub unsafe extern "C" fn open64(p: *const c_char, f: c_int, m: c_uint) -> c_int { v::open_at(AT_FDCWD, p, f, m) }
        #[no_mangle] pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, f: c_int, m: c_uint) -> c_int { v::open_at(d, p, f, m) }
        #[no_mangle] pub unsafe extern "C" fn open(p: *const c_char, f: c_int, m: c_uint) -> c_int { v::open_at(AT_FDCWD, p, f, m) }
        #[no_mangle] pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, f: c_int, m: c_uint) -> c_int { v::open_at(d, p, f, m) }
        #[no_mangle] pub unsafe extern "C" fn read(d: c_int, b: *mut c_void, n: size_t) -> ssize_t { v::read(d, b, n) }
        #[no_mangle] pub unsafe extern "C" fn write(d: c_int, b: *const c_void, n: size_t) -> ssize_t { v::write(d, b, n) }
        #[no_mangle] pub unsafe extern "C" fn lseek64(d: c_int, o: i64, w: c_int) -> i64 { v::lseek(d, o, w) }
        #[no_mangle] pub unsafe extern "C" fn close(d: c_int) -> c_int { v::close(d) }
        #[no_mangle] pub unsafe extern "C" fn fcntl(d: c_int, c: c_int, a: usize) -> c_int { v::fcntl(d, c, a) }
        #[no_mangle] pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, f: c_int, m: c_uint, b: *mut libc::statx) -> c_int { v::statx(d, p, f, m, b) }
        #[no_mangle] pub unsafe extern "C" fn stat64(p: *const c_char, b: *mut libc::stat64) -> c_int { v::stat(p, b) }
        #[no_mangle] pub unsafe extern "C" fn lstat64(p: *const c_char, b: *mut libc::stat64) -> c_int { v::stat(p, b) }
        #[no_mangle] pub unsafe extern "C" fn fstat64(d: c_int, b: *mut libc::stat64) -> c_int { v::fstat(d, b) }
        #[no_mangle] pub unsafe extern "C" fn mkdir(p: *const c_char, m: c_uint) -> c_int { v::mkdir(p, m) }
        #[no_mangle] pub unsafe extern "C" fn chdir(p: *const c_char) -> c_int { v::chdir(p) }
        #[no_mangle] pub unsafe extern "C" fn getcwd(b: *mut c_char, n: size_t) -> *mut c_char { v::getcwd(b, n) }
        #[no_mangle] pub unsafe extern "C" fn realpath(p: *const c_char, o: *mut c_char) -> *mut c_char { v::realpath(p, o) }
        #[no_mangle] pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int { v::unlinkat(AT_FDCWD, p, 0) }
        #[no_mangle] pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int { v::unlinkat(AT_FDCWD, p, AT_REMOVEDIR) }
        #[no_mangle] pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, f: c_int) -> c_int { v::unlinkat(d, p, f) }
        #[no_mangle] pub unsafe extern "C" fn fdopendir(d: c_int) -> *mut DIR { v::fdopendir(d) }
        #[no_mangle] pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut DIR { v::opendir(p) }
        #[no_mangle] pub unsafe extern "C" fn dirfd(d: *mut DIR) -> c_int { v::dirfd(d) }
        #[no_mangle] pub unsafe extern "C" fn closedir(d: *mut DIR) -> c_int { v::closedir(d) }
        #[no_mangle] pub unsafe extern "C" fn readdir64(d: *mut DIR) -> *mut dirent64 { v::readdir(d) }
        #[no_mangle] pub unsafe extern "C" fn clock_gettime(c: c_int, t: *mut timespec) -> c_int { v::clock_gettime(c, t) }
    } };
}

// C21: the relative path between two paths.
use figment::util::diff_paths;
use figment::{Metadata, Source};
use std::path::{Path, PathBuf};
use sym::*;

fn comps(p: &str) -> Vec<&str> { p.split('/').filter(|c| !c.is_empty() && *c != ".").collect() }
/// lexical location reached by following `path` from the components `from`; `ups` counts levels above the start
fn follow(from: &[&str], path: &str, abs: bool) -> (usize, Vec<String>) {
    let mut ups = 0; let mut at: Vec<String> = from.iter().map(|s| s.to_string()).collect();
    for c in comps(path) { if c == ".." { if at.pop().is_none() && !abs { ups += 1; } } else { at.push(c.to_string()); } }
    (ups, at)
}
fn eq(a: &str, b: &str) -> bool { same(a.as_bytes(), b.as_bytes()) }
fn verify(path: &str, base: &str) {
    let (pa, ba) = (path.starts_with('/'), base.starts_with('/'));
    let got = diff_paths(path, base);
    if pa != ba { reach("mixed"); check(got.is_none(), "absolute and relative mixed"); return; }
    let d = match got { Some(d) => d, None => { check(false, "no relative path"); return } };
    let d = d.to_str().unwrap();
    check(!d.starts_with('/'), "the result is absolute");
    let b = comps(base);
    if comps(path).iter().any(|c| *c == "..") || path.starts_with("./") || path == "." {
        reach("dots");
        let (u1, l1) = follow(&b, d, pa); let (u2, l2) = follow(&[], path, pa);
        check(u1 == u2 && l1.len() == l2.len() && l1.iter().zip(&l2).all(|(a, b)| eq(a, b)), "following it from the base leads elsewhere");
        return;
    }
    reach("plain");
    let p = comps(path);
    let k = p.iter().zip(&b).take_while(|(a, b)| eq(a, b)).count();
    let mut want: Vec<&str> = vec![".."; b.len() - k];
    want.extend(&p[k..]);
    check(eq(d, &want.join("/")), "the relative path");
}
fn texts() {
    let n = choice("np", tier(7, 8) as u8); let path = word("p", b"/.ab", n);
    let m = choice("nb", tier(5, 6) as u8); let base = word("b", b"/ab", m);
    verify(&path, &base);
}
fn sequences() {
    let abs = flip("abs"); let mut path = String::new(); let mut base = String::new();
    if abs { path.push('/'); base.push('/'); }
    for i in 0..choice("np", tier(6, 7) as u8) { if i > 0 { path.push('/'); } path.push_str(["..", "a", "bc", "."][choice("c", 4)]); }
    for i in 0..choice("nb", tier(4, 5) as u8) { if i > 0 { base.push('/'); } base.push_str(["a", "bc"][choice("d", 2)]); }
    verify(&path, &base);
}
/// any characters: only separators matter
fn names() {
    let abs = flip("abs"); let r = if abs { "/" } else { "" };
    let n = |s: &str| { let v = utf8(s, 1 + choice("w", 2)); let t = text(v); assume((t.as_bytes()[0] != b'/') & (t.as_bytes()[0] != b'.') & (t.as_bytes()[0] != 0)); t };
    let (a, b, c) = (n("a"), n("b"), n("c"));
    let path = match choice("shape", 4) { 0 => format!("{}{}/{}", r, a, c), 1 => format!("{}{}", r, a), 2 => format!("{}{}//{}/{}/", r, a, b, c), _ => format!("{}k/{}/{}", r, a, c) };
    let base = match choice("base", 3) { 0 => format!("{}{}", r, b), 1 => format!("{}{}/{}", r, b, a), _ => format!("{}k/{}/", r, b) };
    verify(&path, &base);
}
/// displayed file sources
fn shown() {
    vfs::enable();
    let cwd = ["/", "/a", "/a/bc", "/bc/a/a", "/a/a"][choice("cwd", 5)];
    vfs::fs().cwd = vfs::fs().mkdirs(cwd);
    let mut p = String::new();
    if flip("abs") { p.push('/'); }
    for i in 0..choice("n", tier(5, 6) as u8) { if i > 0 { p.push('/'); } p.push_str(["..", "a", "bc"][choice("c", 3)]); }
    assume(p.len() > 1 && Path::new(&p) != Path::new(cwd));
    let s = Source::File(PathBuf::from(&p));
    let t = s.to_string();
    let abs = p.starts_with('/');
    let count = |p: &str| comps(p).len() + p.starts_with('/') as usize;
    if t == p { reach("original"); if abs { let r = diff_paths(&p, cwd); check(r.map_or(true, |r| count(r.to_str().unwrap()) >= count(&p)), "the shorter relative path is not shown"); } }
    else {
        reach("relative");
        check(count(&t) < count(&p), "a relative path is shown that is not shorter");
        check(abs && follow(&comps(cwd), &t, true) == follow(&[], &p, true), "the displayed path leads elsewhere");
    }
    let m = Metadata::from("x", Path::new(&p));
    check(m.source.as_ref().map_or(false, |s| s.to_string() == t && s.file_path() == Some(Path::new(&p))), "metadata source");
}
/// long paths and names
fn scaled() {
    let n = [8, 16, 17, 40][choice("n", 4)];
    let c = text(vec![one_of("c", b"abz")]);
    let r = if flip("abs") { "/" } else { "" };
    let long = flip("long");
    let a = if long { "a".repeat(70) } else { "a".to_string() };
    let (p, b) = match choice("shape", 7) {
        0 => (format!("{}{}", format!("{}/", a).repeat(n), c), "a/".repeat(n)), 1 => (format!("{}/x", c), format!("{}/b", a).repeat(n)), 2 => (format!("{}{}/x", "k/".repeat(n), c), format!("{}a/y/z", "k/".repeat(n))),
        3 => (format!("{}{}", "k/".repeat(n), c), format!("{}{}", "k/".repeat(n), c)), 4 => (format!("{}{}{}", "../".repeat(n), a, c), "b/c/".repeat(3)), 5 => (format!("{}{}/{}", "k//".repeat(n), a, c), "k/./".repeat(n).replace("./", "") + "q"), _ => ("q/".repeat(n) + &c, String::new()),
    };
    reach("scaled");
    verify(&format!("{}{}", r, p), &format!("{}{}", r, b));
}
fn body() { match choice("part", 5) { 0 => texts(), 1 => sequences(), 2 => names(), 3 => shown(), _ => scaled() } }
entry!(body);
vfs_exports!();

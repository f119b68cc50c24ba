// C20: a jail never creates or enters anything outside its directory.
use figment::Jail;
use sym::*;

/// lexical resolution from directory `base`; `Err` when it leaves the root it starts from
fn resolve(base: &[&str], path: &str) -> (Vec<String>, bool) {
    let abs = path.starts_with('/');
    let mut cur: Vec<String> = if abs { vec![] } else { base.iter().map(|s| s.to_string()).collect() };
    let mut left = false;
    for c in path.split('/') {
        match c { "" | "." => {} ".." => if !abs && cur.len() == base.len() { left = true; } else { cur.pop(); }, c => cur.push(c.to_string()) }
    }
    (cur, left)
}
/// run `f` in a jail whose directory holds the file `b` and the directories `a` and `a/b`
fn jailed(f: impl FnOnce(&mut Jail)) {
    vfs::enable();
    vfs::fs().mkdirs("/tmp/out"); vfs::fs().put("/tmp/b", b"x"); vfs::fs().put("/tmp/out/b", b"x");
    vfs::fs().cwd = vfs::fs().mkdirs("/home/a");
    let mut ran = false;
    let r = Jail::try_with(|jail| {
        let dir = jail.directory().to_str().unwrap().to_string();
        vfs::fs().mkdirs(&format!("{}/a/b", dir)); vfs::fs().put(&format!("{}/b", dir), b"old");
        f(jail); ran = true; Ok(())
    });
    check(r.is_ok() && ran, "jail failed");
}
fn attempt(mk: impl FnOnce(&str) -> String) {
    let what = choice("what", 4);
    jailed(move |jail| {
        let dir = jail.directory().to_str().unwrap().to_string();
        let root = vfs::fs().find(&dir).unwrap();
        check(vfs::fs().cwd == root, "a jail starts in its directory");
        let path = mk(&dir);
        let v = vfs::fs();
        v.created.clear(); v.entered.clear(); v.removed.clear();
        let ok = match what { 0 => jail.create_file(&path, "new").is_ok(), 1 => jail.create_binary(&path, b"new").is_ok(), 2 => jail.create_dir(&path).is_ok(), _ => jail.change_dir(&path).is_ok() };
        let v = vfs::fs();
        for n in v.created.iter().chain(&v.entered).chain(&v.removed) { check(v.inside(*n, root), "a location outside the jail was created or entered"); }
        if what != 3 { check(v.cwd == root, "creating changed the directory"); }
        let base: Vec<&str> = dir.split('/').filter(|c| !c.is_empty()).collect();
        let (loc, left) = resolve(&base, &path);
        let inside = loc.len() >= base.len() && loc.iter().zip(&base).all(|(a, b)| a == b);
        if path.starts_with('/') && !inside { reach("refused"); check(!ok, "an absolute path outside the jail was accepted"); check(v.created.is_empty() && v.entered.is_empty(), "a refused path had an effect"); return; }
        if left { reach("clamped"); return; }
        // what the location allows
        let rel: Vec<&str> = loc[base.len()..].iter().map(|s| s.as_str()).collect();
        let isdir = |r: &[&str]| matches!(r, [] | ["a"] | ["a", "b"]);
        let isfile = |r: &[&str]| matches!(r, ["b"]);
        let through_file = (1..=rel.len()).any(|i| isfile(&rel[..i]));
        let at = v.find(&format!("/{}", loc.join("/")));
        match what {
            0 | 1 => {
                let possible = !isdir(&rel) && (rel.len() == 1 || isdir(&rel[..rel.len() - 1])) && !path.ends_with('/') && !path.ends_with("/.");
                if possible { reach("file"); check(ok, "a path inside the jail was refused"); check(at.map_or(false, |n| !v.nodes[n].dir && v.nodes[n].data == b"new"), "the file is not where the path leads"); check(v.created.iter().all(|n| Some(*n) == at), "something else was created"); }
            }
            2 => if !through_file { reach("dir"); check(ok, "a path inside the jail was refused"); check(at.map_or(false, |n| v.nodes[n].dir), "the directory is not where the path leads"); check(v.created.iter().all(|n| v.inside(at.unwrap(), *n)), "something else was created"); },
            _ => if isdir(&rel) { reach("entered"); check(ok, "a path inside the jail was refused"); check(Some(v.cwd) == at, "entered another directory"); } else { check(!ok && v.cwd == root, "entered a directory that does not exist"); },
        }
    })
}
/// every text over the significant characters
fn free() { let s = { let n = 1 + choice("n", tier(5, 6) as u8); word("p", b"/.ab", n) }; attempt(move |_| s); }
/// component sequences
fn comps() {
    let mut s = String::new();
    let abs = choice("start", 4);
    for i in 0..tier(5, 6) { let c = choice("c", 6); if c < 5 { if i > 0 { s.push('/'); } s.push_str(["..", ".", "a", "b", ""][c]); } }
    attempt(move |d| match abs { 0 => s, 1 => format!("{}/{}", d, s), 2 => format!("{}/../{}", d, s), _ => format!("/tmp/{}", s) });
}
/// around the jail's own path
fn absolute() {
    let s = ascii("p", 0, 2); let mut ok = true; for b in s.bytes() { ok &= b != 0; } assume(ok);
    let how = choice("how", 6);
    attempt(move |d| { let name = d.rsplit('/').next().unwrap(); match how { 0 => format!("{}{}", d, s), 1 => format!("/{}{}", s, d), 2 => format!("{}/{}", d, s), 3 => format!("{}/../{}/{}", d, name, s), 4 => format!("//tmp//{}/./{}", name, s), _ => d[..d.len() - 1].to_string() } });
}
/// long paths
fn scaled() {
    let n = [8, 16, 17, 33][choice("n", 4)];
    let c = word("c", b"ab./", 1);
    let how = choice("how", 7);
    attempt(move |d| match how {
        0 => format!("{}a/b/{}", "a/../".repeat(n), c), 1 => format!("{}tmp/out/{}", "../".repeat(n), c), 2 => format!("{}/{}..{}/a", d, "a/b/../../".repeat(n), c), 3 => format!("a/b{}/{}", "/..".repeat(n), c),
        4 => format!("{}{}{}", "./".repeat(n), c, "/.".repeat(n)), 5 => format!("{}/{}{}", d, "x/".repeat(n), c), _ => format!("{}{}/{}tmp/{}", d, "/a/..".repeat(n), "../".repeat(n), c),
    });
}
fn body() { match choice("part", 4) { 0 => free(), 1 => comps(), 2 => absolute(), _ => scaled() } }
entry!(body);
vfs_exports!();

// C19: a jail leaves the environment and the working directory as it found them.
use figment::Jail;
use std::panic::{catch_unwind, AssertUnwindSafe};
use sym::*;

const NAMES: [&str; 4] = ["A", "AB", "B", "TMPDIR"];
type Vars = Vec<Option<Vec<u8>>>;
fn value(n: usize, valid: bool) -> Vec<u8> { let v = bytes("v", n); let mut ok = true; for b in &v { ok &= (*b != 0) & (!valid | (*b < 128)); } assume(ok); v }
/// the environment is exactly `m`
fn agrees(m: &Vars, label: &str) {
    let mut ok = env::env().vars.len() == m.iter().filter(|v| v.is_some()).count();
    for (n, v) in NAMES.iter().zip(m) { ok &= match (env::env().get(n.as_bytes()), v) { (None, None) => true, (Some(a), Some(b)) => same(a, b), _ => false }; }
    check(ok, label);
}
fn begin() -> (Vars, usize) {
    vfs::enable();
    vfs::fs().mkdirs("/tmp"); vfs::fs().mkdirs("/alt");
    let set = choice("set", 4);
    let here = ["/home/a", "/", "/tmp", "/home"][set];
    vfs::fs().cwd = vfs::fs().mkdirs(here);
    let m: Vars = vec![Some(value(1, false)), if set & 1 == 1 { Some(value(2, false)) } else { None }, if set & 2 == 2 { Some(vec![]) } else { None }, if set == 2 { Some(b"/alt".to_vec()) } else { None }];
    for (n, v) in NAMES.iter().zip(&m) { if let Some(v) = v { env::env().push(n.as_bytes(), v, env_exports::slot()); } }
    (m, vfs::fs().cwd)
}
/// one jail with `steps` operations; afterwards everything is back
fn jail(steps: usize, before: &Vars, home: usize, how: usize, expect: bool) {
    let alive = vfs::fs().alive().len();
    let mut dir = String::new();
    let mut now = before.clone();
    let mut reached = false;
    let mut left = false;
    let run = |j: &mut Jail| {
        dir = j.directory().to_str().unwrap().to_string();
        check(vfs::fs().path(vfs::fs().cwd) == dir.as_bytes(), "a jail starts in its directory");
        agrees(before, "entering a jail changed the environment");
        for _ in 0..steps {
            match choice("step", 7) {
                s @ 0..=3 => { let v = if s == 3 { b"/nowhere".to_vec() } else { value(1, true) }; j.set_env(NAMES[s], text(v.clone())); now[s] = Some(v); }
                4 => { j.clear_env(); now = vec![None; 4]; }
                5 => { let at = if left { format!("{}/", dir) } else { String::new() }; check(j.create_dir(format!("{}d/e", at)).is_ok() && j.change_dir(format!("{}d", at)).is_ok(), "change_dir"); left = false; check(j.create_file("f", "x").is_ok(), "create_file"); }
                // code under test may move elsewhere on its own
                _ => { check(std::env::set_current_dir(if left { "/alt" } else { "/" }).is_ok(), "leaving"); left = true; }
            }
            agrees(&now, "the environment inside the jail");
        }
        reached = true;
        match how { 0 => Ok(()), 1 => Err("expected".to_string().into()), 2 => panic!("expected"), 3 => { j.set_env("X\0Y", 1); Ok(()) } 4 => { j.set_env("NEW", "a\0b"); Ok(()) } _ => { j.set_env("", "empty"); Ok(()) } }
    };
    let r = if expect { catch_unwind(AssertUnwindSafe(|| { Jail::expect_with(run); Ok(()) })) } else { catch_unwind(AssertUnwindSafe(|| Jail::try_with(run))) };
    check(reached, "the closure was not run");
    match how {
        0 => check(matches!(r, Ok(Ok(()))), "success is reported"),
        1 if !expect => check(matches!(r, Ok(Err(e)) if e.to_string().contains("expected")), "the closure's error is reported"),
        _ => check(r.is_err(), "the panic is passed on"),
    }
    let v = vfs::fs();
    check(v.find(&dir).is_none() && v.alive().len() == alive, "the temporary directory remains");
    check(v.cwd == home, "the working directory");
    agrees(before, "the environment after the jail");
}
fn once() {
    let (m, home) = begin();
    let how = choice("how", 6);
    let n = if how < 3 { tier(3, 4) } else { 1 };
    let expect = how < 3 && flip("expect");
    jail(n, &m, home, how, expect);
    reach("restored");
    jail(0, &m, home, 0, false);
}
/// several jails in a row, each ending in its own way
fn again() {
    let (m, home) = begin();
    for i in 0..tier(2, 3) { let how = choice("how", 4); jail(if i == 0 { 1 } else { tier(1, 2) }, &m, home, how, false); }
    reach("again");
}
/// entering fails: no effect, and the lock is free
fn fails() {
    vfs::enable();
    vfs::fs().mkdirs("/tmp");
    vfs::fs().cwd = vfs::fs().mkdirs("/home");
    let home = vfs::fs().cwd;
    let x = value(2, false);
    env::env().push(b"TMPDIR", b"/nowhere", env_exports::slot());
    env::env().push(b"A", &x, env_exports::slot());
    for _ in 0..2 { let r = catch_unwind(AssertUnwindSafe(|| Jail::try_with(|_| { check(false, "entered without a directory"); Ok(()) }))); check(matches!(r, Ok(Err(_))), "failing to enter is an error"); }
    check(vfs::fs().cwd == home && vfs::fs().created.is_empty(), "failing to enter changed the directory");
    unsafe { env::unsetenv(c"TMPDIR".as_ptr(), env_exports::slot()); }
    jail(1, &vec![Some(x), None, None, None], home, 0, false);
    reach("fails");
}
/// many variables, long values, many changes
fn scaled() {
    vfs::enable(); vfs::fs().mkdirs("/tmp");
    vfs::fs().cwd = vfs::fs().mkdirs("/a/rather/deep/directory/to/start/from");
    let home = vfs::fs().cwd;
    let n = [9, 20, 40][choice("n", 3)];
    let mut before: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    for i in 0..n { let v = if i == 4 { vec![b'x'; 300] } else if i == n - 2 { value(1, false) } else { vec![b'0' + (i % 10) as u8; i % 5] }; before.push((model::nth_key(i).into_bytes(), v)); }
    for (n, v) in &before { env::env().push(n, v, env_exports::slot()); }
    let ok = |m: &Vec<(Vec<u8>, Vec<u8>)>| { let mut ok = env::env().vars.len() == m.len(); for (n, v) in m { ok &= env::env().get(n).map_or(false, |x| same(x, v)); } ok };
    let (how, sort) = (choice("how", 3), choice("sort", 4));
    let mut reached = false;
    let r = catch_unwind(AssertUnwindSafe(|| Jail::try_with(|j| {
        match sort {
            0 => { for i in 0..n { j.set_env(model::nth_key(i), "changed"); } }
            1 => { for i in 0..3 * n { j.set_env(model::nth_key(i), i % 7); } }
            2 => { j.clear_env(); for i in 0..n { j.set_env(model::nth_key(n - i), "later"); } j.clear_env(); j.set_env(model::nth_key(1), "last"); }
            _ => { for _ in 0..n { j.set_env("REPEATED", "1"); j.set_env(model::nth_key(n - 1), "2"); } for i in 0..6 { check(j.create_dir("sub").is_ok() && j.change_dir("sub").is_ok() && j.create_file(model::nth_key(i), "content").is_ok(), "nested directories"); } }
        }
        reached = true;
        match how { 0 => Ok(()), 1 => Err("expected".to_string().into()), _ => panic!("expected") }
    })));
    reach("scaled");
    check(reached && match how { 0 => matches!(r, Ok(Ok(()))), 1 => matches!(r, Ok(Err(_))), _ => r.is_err() }, "outcome");
    check(ok(&before), "the environment after the jail");
    let v = vfs::fs();
    check(v.cwd == home && v.find("/tmp").map_or(false, |t| !v.nodes.iter().any(|x| x.alive && x.parent == t)), "the directory after the jail");
}
fn body() { match choice("part", 4) { 0 => once(), 1 => again(), 2 => fails(), _ => scaled() } }
entry!(body);
vfs_exports!();
env_exports!();

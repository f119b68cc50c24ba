// C22: relative paths resolve against the directory of the file that declared them.
use figment::providers::{Format, Json, Serialized, Toml};
use figment::value::magic::RelativePathBuf;
use figment::value::Value;
use figment::Figment;
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};
use sym::model::*;
use sym::*;

fn bytes_of(p: &Path) -> &[u8] { use std::os::unix::ffi::OsStrExt; p.as_os_str().as_bytes() }
/// `text` joined to the directory of `file`
fn expected(file: Option<&str>, text: &str) -> Vec<u8> {
    match file {
        Some(f) if !text.starts_with('/') => { let dir = match f.rsplit_once('/') { Some(("", _)) => "/", Some((d, _)) => d, None => "" }; let mut v = dir.as_bytes().to_vec(); if !v.is_empty() && *v.last().unwrap() != b'/' { v.push(b'/'); } v.extend_from_slice(text.as_bytes()); v }
        _ => text.as_bytes().to_vec(),
    }
}
fn verify(r: &RelativePathBuf, file: Option<&str>, text: &str) {
    check(same(bytes_of(r.original()), text.as_bytes()), "original text changed");
    check(same(bytes_of(&r.relative()), &expected(file, text)), "resolved path");
    check(match (r.metadata_path(), file) { (Some(p), Some(f)) => same(bytes_of(p), f.as_bytes()), (None, None) => true, _ => false }, "declaring file");
}
#[derive(Deserialize, Clone)] struct In { p: RelativePathBuf, #[allow(dead_code)] n: Option<u8> }
#[derive(Deserialize)] struct New(RelativePathBuf);
#[derive(Deserialize)] #[serde(rename_all = "lowercase")] enum En { One(RelativePathBuf) }

const FILES: [&str; 12] = ["/cfg/app.toml", "/app.toml", "/x/y/z.json", "local.toml", "sub/local.toml", "/cfg/conf", "/cfg/.conf", "/x.d/conf", "conf", "/x/a.b.c", "/conf.", "/x.d/y.d/x.d"];
/// any text, at any position, from any source
fn positions() {
    vfs::enable();
    let v = vfs::fs(); v.put("/cfg/app.toml", b""); v.put("/x/y/z.json", b"");
    let text = match choice("sort", 3) { 0 => ascii("t", 0, 2), 1 => word("t", b"./a", 3), _ => text(utf8("t", 2)) };
    let which = choice("source", 14);
    let file = if which < 12 { Some(FILES[which]) } else { None };
    let mut p = prov::p("s");
    p.source = match which { 12 => None, 13 => Some(figment::Source::Custom("/cfg/app.toml".into())), i => Some(figment::Source::File(FILES[i].into())) };
    let tv = Value::from(text.clone());
    let map = |v: Value| Value::from(figment::util::map!["p" => v]);
    let prof = ["default", "global", "mine"][choice("profile", 3)];
    let pos = choice("pos", 9);
    let val = match pos { 0 | 8 => tv, 1 => Value::from(vec![Value::from("other"), tv]), 2 => map(tv), 3 => Value::from(vec![map(tv)]), 4 | 5 => tv, 6 => Value::from(figment::util::map!["one" => tv]), _ => map(map(tv)) };
    let f = Figment::from(p.put(prof, "k", val)).merge(prov::p("t").from_source(figment::Source::File("/x/other.toml".into())).put("default", "unrelated", "q")).select("mine");
    let r: Result<RelativePathBuf, figment::Error> = match pos { 0 => f.extract_inner("k"), 1 => f.extract_inner::<Vec<RelativePathBuf>>("k").map(|v| v[1].clone()), 2 => f.extract_inner::<In>("k").map(|i| i.p), 3 => f.extract_inner::<Vec<In>>("k").map(|i| i[0].p.clone()), 4 => f.extract_inner::<Option<RelativePathBuf>>("k").map(|o| o.unwrap()), 5 => f.extract_inner::<New>("k").map(|n| n.0), 6 => f.extract_inner::<En>("k").map(|En::One(p)| p), 7 => f.focus("k").extract_inner("p.p"), _ => f.extract_inner_lossy("k") };
    reach("positions");
    match r { Ok(r) => verify(&r, file, &text), Err(_) => check(false, "a text does not extract as a path") }
}
/// after any merges, each path resolves against its own file
fn merges() {
    vfs::enable();
    let n = tier(3, 3);
    let mut f = Figment::new(); let mut m = Cfg::default();
    for i in 0..n {
        let o = op("op");
        let t = |s: &str| M::S(S::Str(format!("{}{}", s, i).into_bytes()), i);
        let one = Cfg::default().put(if flip("global") { "global" } else { "default" }, "k", match choice("shape", 3) { 0 => M::D(vec![("p".into(), t("p"))], i), 1 => M::A(vec![t("e")], i), _ => M::D(vec![("p".into(), t("p")), (["q", "r", "s"][i].into(), t("q"))], i) });
        f = o.apply(f, one.provider("x").from_source(figment::Source::File(FILES[i].into()))); m = m.combine(&one, o);
    }
    reach("merges");
    fn each(f: &Figment, path: &str, m: &M) {
        match m {
            M::S(S::Str(t), o) => { let r: Result<RelativePathBuf, _> = f.extract_inner(path); match r { Ok(r) => verify(&r, Some(FILES[*o]), std::str::from_utf8(t).unwrap()), Err(_) => check(false, "path does not extract") } }
            M::D(d, _) => for (k, m) in d { each(f, &format!("{}.{}", path, k), m) },
            M::A(a, _) => { let r: Result<Vec<RelativePathBuf>, _> = f.extract_inner(path); match r { Ok(r) => { check(r.len() == a.len(), "elements"); for (r, m) in r.iter().zip(a) { if let M::S(S::Str(t), o) = m { verify(r, Some(FILES[*o]), std::str::from_utf8(t).unwrap()) } } } Err(_) => check(false, "paths do not extract") } }
            _ => {}
        }
    }
    for (k, x) in &m.effective("default") { each(&f, k, x); }
}
#[derive(Serialize)] struct Orig { #[serde(serialize_with = "RelativePathBuf::serialize_original")] p: RelativePathBuf }
#[derive(Serialize)] struct Rel { #[serde(serialize_with = "RelativePathBuf::serialize_relative")] p: RelativePathBuf }
#[derive(Serialize)] struct Full { p: RelativePathBuf }
/// serializing and extracting again
fn serialize() {
    vfs::enable();
    let t = match choice("sort", 2) { 0 => ascii("t", 0, 1), _ => word("t", b"./a", 3) };
    let which = choice("file", 12);
    let file = FILES[which];
    let f = Figment::from(prov::p("s").from_source(figment::Source::File(file.into())).put("default", "p", t.as_str()));
    let r: RelativePathBuf = f.extract_inner("p").expect("path");
    let abs = String::from_utf8(expected(Some(file), &t)).unwrap();
    reach("serialize");
    match choice("how", 5) {
        // the full form keeps everything
        0 => { let r2: RelativePathBuf = Figment::from(Serialized::defaults(Full { p: r })).extract_inner("p").expect("path"); verify(&r2, Some(file), &t); }
        1 => { let r2: RelativePathBuf = Figment::from(Serialized::default("p", r)).merge(prov::p("u").from_source(figment::Source::File("/other/u.toml".into())).put("default", "z", 1u8)).extract_inner("p").expect("path"); verify(&r2, Some(file), &t); }
        // original form: the text, not bound to a file any more
        2 => { let r2: RelativePathBuf = Figment::from(Serialized::defaults(Orig { p: r })).extract_inner("p").expect("path"); verify(&r2, None, &t); }
        // relative form: the resolved path
        3 => { let f = Figment::from(Serialized::defaults(Rel { p: r })); let r2: RelativePathBuf = f.extract_inner("p").expect("path"); check(same(bytes_of(&r2.relative()), abs.as_bytes()) && same(bytes_of(r2.original()), abs.as_bytes()), "relative form"); let s: PathBuf = f.extract_inner("p").expect("text"); check(same(bytes_of(&s), abs.as_bytes()), "relative form as text"); }
        // never from a source: nothing to resolve against, until extracted from one
        _ => { let plain = RelativePathBuf::from(t.as_str()); check(same(bytes_of(&plain.relative()), t.as_bytes()) && plain.metadata_path().is_none(), "a plain path"); let r2: RelativePathBuf = Figment::from(Serialized::default("p", plain)).extract_inner("p").expect("path"); verify(&r2, None, &t); }
    }
}
/// the crate's file sources
fn files() {
    vfs::enable();
    let v = vfs::fs();
    let t = { let s = ascii_n("t", 1); let b = s.as_bytes()[0]; assume((b >= 32) & (b < 127) & (b != b'"') & (b != b'\\')); s };
    v.cwd = v.mkdirs("/w/deep");
    let (dir, f) = match choice("which", 3) {
        0 => { v.put("/w/c.toml", format!("p = \"{}\"", t).as_bytes()); ("/w/c.toml", Figment::from(Toml::file("c.toml"))) }
        1 => { v.put("/w/deep/c.json", format!("{{\"p\": \"{}\"}}", t).as_bytes()); ("/w/deep/c.json", Figment::from(Json::file("c.json"))) }
        _ => { v.put("/o/c.json", format!("{{\"p\": \"{}\"}}", t).as_bytes()); v.put("/w/deep/d.json", b"{\"z\": 1}"); ("/o/c.json", Figment::from(Json::file("d.json")).merge(Json::file("/o/c.json"))) }
    };
    let r: Result<RelativePathBuf, _> = f.extract_inner("p");
    reach("files");
    match r { Ok(r) => verify(&r, Some(dir), &t), Err(_) => check(false, "path does not extract") }
}
/// deep directories, long texts, many files
fn scaled() {
    vfs::enable();
    let n = [6, 17, 40][choice("n", 3)];
    let long = match choice("text", 3) { 0 => { let mut s = "sub/".repeat(n); s.push_str(&ascii_n("t", 1)); s } 1 => { let mut s = "../".repeat(n); s.push_str(&ascii_n("t", 1)); s } _ => { let mut s = "f".repeat(4 * n); s.push_str(&text(utf8("t", 2))); s } };
    let dir = |i: usize| format!("{}/{}", "/deep".repeat(n), nth_key(i));
    let mut f = Figment::new(); let o = op("op");
    for i in 0..n { let one = prov::p("x").from_source(figment::Source::File(format!("{}/c.toml", dir(i)).into())).put("default", &nth_key(i), Value::from(vec![if i == 2 { long.clone() } else { nth_key(i) }])).put("default", "all", Value::from(vec![nth_key(i)])); f = o.apply(f, one); }
    reach("scaled");
    for i in [0, 2, n - 1] {
        let r: Result<Vec<RelativePathBuf>, _> = f.extract_inner(&nth_key(i));
        match r { Ok(r) => { check(r.len() == 1, "elements"); verify(&r[0], Some(&format!("{}/c.toml", dir(i))), if i == 2 { &long } else { "" }.to_string().as_str().get(..).filter(|s| !s.is_empty()).unwrap_or(&nth_key(i))) } Err(_) => check(false, "paths do not extract") }
    }
    let all: Vec<RelativePathBuf> = f.extract_inner("all").expect("all");
    let own: Vec<usize> = if o.concatenates() { (0..n).collect() } else if o.incoming_wins() { vec![n - 1] } else { vec![0] };
    check(all.len() == own.len(), "elements of several files");
    for (r, i) in all.iter().zip(own) { verify(r, Some(&format!("{}/c.toml", dir(i))), &nth_key(i)); }
}
fn body() { match choice("part", 5) { 0 => positions(), 1 => merges(), 2 => serialize(), 3 => files(), _ => scaled() } }
entry!(body);
vfs_exports!();

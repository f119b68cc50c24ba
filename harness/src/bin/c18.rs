// C18: which file a file source reads, and what it supplies.
use figment::error::Kind;
use figment::providers::{Data, Format, Json, Toml};
use figment::value::{Dict, Value};
use figment::{Figment, Profile, Provider};
use sym::*;

const DIRS: [&str; 4] = ["", "/a", "/a/b", "/a/b/c"];
fn json(i: usize) -> String { format!("{{\"k\": {}}}", i) }

/// nearest regular file at or above the current directory
fn search() {
    vfs::enable();
    let v = vfs::fs();
    let cwd = choice("cwd", 4);
    let mut at = vfs::fs().mkdirs("/a/b/c");
    for _ in cwd..3 { at = v.nodes[at].parent; }
    v.cwd = at;
    // (argument, path below each directory)
    let (arg, below) = [("f.json", "f.json"), ("sub/f.json", "sub/f.json"), ("./f.json", "f.json"), ("sub/../f.json", "f.json"), ("/a/f.json", "f.json"), ("../f.json", "f.json")][choice("path", 6)];
    v.mkdirs("/sub"); for d in &DIRS[1..] { v.mkdirs(&format!("{}/sub", d)); }
    let mut file = [false; 4];
    for i in 0..4 { match choice("at", 3) { 0 => {} 1 => { file[i] = true; v.put(&format!("{}/{}", DIRS[i], below), json(i + 1).as_bytes()); } _ => { v.mkdirs(&format!("{}/{}", DIRS[i], below)); } } }
    let absolute = arg.starts_with('/');
    let search = if flip("set_search") { Some(flip("search")) } else { None };
    let required = choice("required", 3);
    let mut src = Json::file(arg);
    if let Some(s) = search { src = src.search(s); }
    if required > 0 { src = src.required(required == 1); }
    if flip("reorder") { src = src.profile("default"); }
    let up = |i: usize| if arg == "../f.json" { if i == 0 { 0 } else { i - 1 } } else { i };
    let hit = if absolute { if file[1] { Some(1) } else { None } } else if search == Some(false) { if file[up(cwd)] { Some(up(cwd)) } else { None } } else { (0..=cwd).rev().map(up).find(|i| file[*i]) };
    let md = src.metadata();
    let got = src.data();
    match hit {
        Some(i) => {
            reach("read");
            let d = match got { Ok(d) => d, Err(_) => { check(false, "an existing file was not read"); return } };
            check(d.len() == 1 && d.get(&Profile::Default).map_or(false, |d| d.len() == 1 && d.get("k").and_then(|v| v.to_num()).and_then(|n| n.to_u128_lossy()) == Some(i as u128 + 1)), "another file was read");
            let p = md.source.as_ref().and_then(|s| s.file_path());
            check(p.map_or(false, |p| v.find(&if p.is_absolute() { p.to_str().unwrap().to_string() } else { format!("{}/{}", DIRS[cwd], p.to_str().unwrap()) }) == v.find(&format!("{}/{}", DIRS[i], below))), "metadata names another file");
        }
        None => {
            reach("missing");
            // nothing was read: no file that exists may be named, and the configured path is
            check(md.source.as_ref().and_then(|s| s.file_path()).map_or(false, |p| p.to_str() == Some(arg)), "metadata of a missing file names another path");
            match got {
                Ok(d) => { check(required != 1, "a missing required file is no error"); check(d.values().all(|d| d.is_empty()), "a missing file supplies values"); }
                Err(e) => { check(required == 1, "a missing optional file is an error"); check(e.to_string().contains(arg), "the error does not name the file"); }
            }
            let f = Figment::new().merge(("z", 1u8)).merge(src);
            match f.extract::<Dict>() { Ok(d) => { check(required != 1 && d.len() == 1, "missing file through a figment") } Err(e) => { check(required == 1 && e.metadata.map_or(false, |m| m.name == "JSON file"), "missing required file through a figment") } }
        }
    }
    check(v.created.is_empty() && v.entered.is_empty() && v.removed.is_empty(), "reading a source changed the file system");
}
/// nested sources map top-level keys to profiles; others use their single profile
fn profiles() {
    let kind = choice("from", 3);
    let nm = |n: &str| { let s = ascii_n(n, 1); let b = s.as_bytes()[0]; assume((b >= b'a') & (b <= b'z') | (b >= b'A') & (b <= b'Z')); s };
    let (p1, k1) = (nm("p1"), "k");
    let p2 = ["default", "global", "Mine"][choice("p2", 3)];
    let x = one_of("x", b"123456789");
    let text = if kind == 2 { format!("[{}]\n{} = {}\n[{}]\nz = 2\n", p1, k1, x as char, p2) } else { format!("{{\"{}\": {{\"{}\": {}}}, \"{}\": {{\"z\": 2}}}}", p1, k1, x as char, p2) };
    fn build<F: Format>(kind: usize, text: &str, how: usize, prof: &str) -> Data<F> {
        let s = if kind == 1 { vfs::enable(); vfs::fs().put("/d/f.json", text.as_bytes()); F::file("/d/f.json") } else { F::string(text) };
        match how { 0 => s, 1 => s.nested(), 2 => s.profile(prof), 3 => s.nested().profile(prof), 4 => s.profile(prof).nested(), _ => s.profile("old").profile(prof) }
    }
    let how = choice("how", 6);
    let prof = if flip("fixed") { "global".to_string() } else { ascii("prof", 0, 1) };
    let f = if kind == 2 { Figment::from(build::<Toml>(kind, &text, how, &prof)) } else { Figment::from(build::<Json>(kind, &text, how, &prof)) };
    let d = match Provider::data(&f) { Ok(d) => d, Err(_) => { check(false, "well-formed source failed"); return } };
    let val = |v: Option<&Value>, n: u128| v.and_then(|v| v.to_num().and_then(|n| n.to_u128_lossy())) == Some(n);
    reach("profiles");
    check(f.profile() == "default", "a file source selected a profile");
    if how == 1 || how == 4 {
        let (a, b) = (d.get(&Profile::new(&p1)), d.get(&Profile::new(p2)));
        check(d.len() == 2, "number of profiles");
        check(a.map_or(false, |d| d.len() == 1 && val(d.get("k"), (x - b'0') as u128)), "first profile");
        check(b.map_or(false, |d| d.len() == 1 && val(d.get("z"), 2)), "second profile");
    } else {
        let e = if how == 0 { "default".to_string() } else { prof };
        check(d.len() == 1 && d.keys().next().map_or(false, |p| same(p.as_str().as_str().as_bytes(), e.as_bytes())), "the configured profile");
        let d = d.values().next().unwrap();
        let sub = |k: &str| d.get(k).and_then(|v| v.as_dict());
        check(d.len() == 2 && sub(&p1).map_or(false, |d| d.len() == 1 && val(d.get("k"), (x - b'0') as u128)) && sub(p2).map_or(false, |d| val(d.get("z"), 2)), "contents");
    }
}
/// any content: what a source supplies is what the format's parser says, malformed content is an error
fn contents() {
    let pieces = ["{", "}", "\"k\"", ":", "1", ",", "[", "]"];
    let n = tier(4, 5);
    let mut s = String::new();
    let whole = flip("template");
    if whole { s.push_str("{\"k\":"); }
    for _ in 0..n { let c = choice("piece", 9); if c < 8 { s.push_str(pieces[c]); } }
    if whole { s.push('}'); }
    vfs::enable();
    vfs::fs().put("/d/f.json", s.as_bytes());
    let file = flip("file");
    let src = if file { Json::file("/d/f.json") } else { Json::string(&s) };
    let ok = json_object(s.as_bytes());
    let f = Figment::new().merge(("z", 1u8)).merge(src);
    reach("contents");
    match f.extract::<Dict>() {
        Ok(d) => { check(ok, "malformed content was accepted"); check(d.contains_key("z"), "contents"); }
        Err(e) => { check(!ok, "well-formed content was rejected"); check(e.count() == 1 && matches!(e.kind, Kind::Message(_)), "kind"); check(e.metadata.map_or(false, |m| m.name == if file { "JSON file" } else { "JSON source string" } && m.source.as_ref().and_then(|s| s.file_path()).is_some() == file), "metadata of the malformed source"); }
    }
}
/// a JSON object over the pieces above
fn json_object(s: &[u8]) -> bool {
    fn value(s: &[u8], i: usize) -> Option<usize> {
        match s.get(i)? {
            b'1' => { let mut j = i; while s.get(j) == Some(&b'1') { j += 1; } Some(j) }
            b'"' => if s.get(i..i + 3)? == b"\"k\"" { Some(i + 3) } else { None },
            b'[' => { let mut j = i + 1; if s.get(j) == Some(&b']') { return Some(j + 1); } loop { j = value(s, j)?; match s.get(j)? { b',' => j += 1, b']' => return Some(j + 1), _ => return None } } }
            b'{' => object(s, i),
            _ => None,
        }
    }
    fn object(s: &[u8], i: usize) -> Option<usize> {
        if s.get(i) != Some(&b'{') { return None; }
        let mut j = i + 1;
        if s.get(j) == Some(&b'}') { return Some(j + 1); }
        loop {
            if s.get(j..j + 4)? != b"\"k\":" { return None; }
            j = value(s, j + 4)?;
            match s.get(j)? { b',' => j += 1, b'}' => return Some(j + 1), _ => return None }
        }
    }
    object(s, 0) == Some(s.len())
}
/// any depth of directories, long contents and many profiles
fn scaled() {
    vfs::enable();
    if flip("contents") {
        let (n, nested) = ([9, 40, 70][choice("n", 3)], flip("nested"));
        let x = one_of("x", b"123456789") as char;
        let mut s = String::from("{");
        for i in 0..n { if i > 0 { s.push(','); } s.push('"'); s.push_str(&model::nth_key(i)); s.push_str("\": {\"k\": "); s.push(if i == n - 2 { x } else { '7' }); s.push('}'); }
        s.push('}');
        vfs::fs().put("/d/f.json", s.as_bytes());
        let src = if flip("file") { Json::file("/d/f.json") } else { Json::string(&s) };
        let d = (if nested { src.nested() } else { src }).data();
        reach("scaled");
        let is = |i: usize, v: &Dict| v.len() == 1 && v.get("k").and_then(|v| v.to_num()).and_then(|n| n.to_u128_lossy()) == Some(if i == n - 2 { (x as u8 - b'0') as u128 } else { 7 });
        match d { Err(_) => check(false, "a long source failed"), Ok(d) => if nested { check(d.len() == n && (0..n).all(|i| d.get(&Profile::new(&model::nth_key(i))).map_or(false, |d| is(i, d))), "profiles of a long nested source") } else { let d = d.get(&Profile::Default); check(d.map_or(false, |d| d.len() == n && (0..n).all(|i| d.get(&model::nth_key(i)).and_then(|v| v.as_dict()).map_or(false, |d| is(i, d)))), "a long source") } }
        return;
    }
    let depth = [5, 8, 9, 16, 17, 20, 33][choice("depth", 7)];
    let (at, second) = ([depth, depth - 1, depth / 2, 2, 1, 0][choice("at", 6)], flip("second"));
    let dir = |n: usize| "/dd".repeat(n);
    let v = vfs::fs();
    v.cwd = v.mkdirs(&dir(depth));
    v.put(&format!("{}/conf/f.json", dir(at)), json(7).as_bytes());
    if second && at > 0 { v.put(&format!("{}/conf/f.json", dir(at - 1)), json(8).as_bytes()); }
    v.mkdirs(&format!("{}/conf", dir(depth)));
    let search = flip("search");
    let src = if search { Json::file("conf/f.json") } else { Json::file("conf/f.json").search(false) };
    let md = src.metadata();
    let got = src.data().map(|d| d.get(&Profile::Default).and_then(|d| d.get("k")).and_then(|v| v.to_num()).and_then(|n| n.to_u128_lossy()));
    let hit = search || at == depth;
    check(got.map_or(false, |g| g == if hit { Some(7) } else { None }), "nearest file above a deep directory");
    if hit { check(md.source.as_ref().and_then(|s| s.file_path()).map_or(false, |p| v.find(&if p.is_absolute() { p.to_str().unwrap().to_string() } else { format!("{}/{}", dir(depth), p.to_str().unwrap()) }) == v.find(&format!("{}/conf/f.json", dir(at)))), "metadata of a distant file"); }
}
/// whole texts at the edges of the formats: empty, blank, not tables, nested or not
fn texts() {
    // text, accepted plainly, accepted as nested, number of top-level keys
    let json = [("", false, false, 0), (" ", false, false, 0), ("\n\t ", false, false, 0), ("{}", true, true, 0), (" {} \n", true, true, 0), ("null", false, false, 0), ("1", false, false, 0), ("\"k\"", false, false, 0), ("[]", false, false, 0), ("[{}]", false, false, 0), ("{\"k\":1}", true, false, 1), ("{\"k\":{}}", true, true, 1), ("{\"k\":{\"z\":1},\"m\":{}}", true, true, 2), ("{\"k\":{},\"m\":[]}", true, false, 2), ("{\"k\":null}", true, false, 1), ("{} {}", false, false, 0), ("{},", false, false, 0), ("{\"k\":{}", false, false, 0), ("{k:{}}", false, false, 0), ("\u{feff}{}", false, false, 0)];
    let toml = [("", true, true, 0), (" ", true, true, 0), ("\n\n", true, true, 0), ("# c", true, true, 0), ("k", false, false, 0), ("k = ", false, false, 0), ("k = 1", true, false, 1), ("[k]", true, true, 1), ("[k]\nz = 1\n[m]", true, true, 2), ("k = {}\nm = []", true, false, 2), ("k = 1\nk = 2", false, false, 0), ("[k", false, false, 0), ("{}", false, false, 0)];
    let is_toml = flip("toml");
    let (s, plain, nest, n) = if is_toml { toml[choice("text", 13)] } else { json[choice("text", 20)] };
    let (file, how, nested) = (flip("file"), choice("how", 3), flip("nested"));
    fn data<F: Format>(file: bool, s: &str, how: usize, nested: bool) -> (Result<figment::value::Map<Profile, Dict>, figment::Error>, Data<F>) {
        let d = if file { vfs::enable(); vfs::fs().put("/d/f.x", s.as_bytes()); F::file("/d/f.x") } else { F::string(s) };
        let d = if nested { d.nested() } else { d };
        let d = match how { 0 => d, 1 => if nested { d.required(true) } else { d.profile("mine") }, _ => d.required(true).search(false) };
        (d.data(), d)
    }
    let (got, f) = if is_toml { let (g, d) = data::<Toml>(file, s, how, nested); (g, Figment::from(d)) } else { let (g, d) = data::<Json>(file, s, how, nested); (g, Figment::from(d)) };
    reach("texts");
    check(got.is_ok() == if nested { nest } else { plain }, "an edge text is accepted or refused wrongly");
    match got {
        Ok(d) => { check(if nested { d.len() == n } else { d.len() == 1 && d.get(&Profile::new(if how == 1 { "mine" } else { "default" })).map_or(false, |d| d.len() == n) }, "what an edge text supplies"); check(f.select("zz").extract::<Dict>().is_ok(), "an edge text through a figment"); }
        Err(e) => { check(e.count() == 1, "errors of an edge text"); match f.select("zz").extract::<Dict>() { Ok(_) => check(false, "the error of an edge text was lost"), Err(e) => check(e.metadata.map_or(false, |m| m.name.ends_with(if file { "file" } else { "source string" })), "metadata of an edge text") } }
    }
}
fn body() { match choice("part", 5) { 0 => search(), 1 => profiles(), 2 => contents(), 3 => texts(), _ => scaled() } }
entry!(body);
vfs_exports!();

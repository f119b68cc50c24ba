// C27: what a displayed error, key and source say.
use figment::error::{Actual, Error, Kind, OneOf};
use figment::providers::{Env, Format, Json, Serialized};
use figment::{Figment, Metadata, Profile, Source};
use serde::Deserialize;
use std::path::Path;
use sym::*;

/// printable ASCII
fn print(n: &str, k: usize) -> String { let s = ascii_n(n, k); let mut ok = true; for b in s.bytes() { ok &= (b >= 32) & (b < 127); } assume(ok); s }
fn quoted(s: &str) -> String { let mut o = vec![b'"']; for b in s.bytes() { if b == b'"' || b == b'\\' { o.push(b'\\'); } o.push(b); } o.push(b'"'); text(o) }
const ALTS: [&[&str]; 9] = [&[], &["one"], &["one", "two"], &["b", "a", "c"], &["d", "c", "b", "a", "b"], &["a", "b", "c", "d", "e", "f", "g", "h"], &["i", "h", "g", "f", "e", "d", "c", "b", "a"], &["a-rather-long-alternative-of-forty-or-so-characters", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"],
    &["01", "02", "03", "04", "05", "06", "07", "08", "09", "10", "11", "12", "13", "14", "15", "16", "17", "18", "19", "20", "21", "22", "23", "24", "25", "26", "27", "28", "29", "30", "31", "32", "33"]];
fn alternatives(a: &[&str]) -> String {
    match a.len() { 0 => "none".into(), 1 => format!("`{}`", a[0]), 2 => format!("`{}` or `{}`", a[0], a[1]), _ => { let mut s = String::from("one of "); for (i, x) in a.iter().enumerate() { if i > 0 { s.push_str(", "); } s.push('`'); s.push_str(x); s.push('`'); } s } }
}
fn actual() -> (Actual, String) {
    match choice("actual", 19) {
        0 => (Actual::Bool(true), "bool true".into()), 1 => (Actual::Unsigned(u128::MAX), "unsigned int `340282366920938463463374607431768211455`".into()), 2 => (Actual::Signed(-7), "signed int `-7`".into()), 3 => (Actual::Float(1.5), "float `1.5`".into()),
        4 => (Actual::Char('x'), "char 'x'".into()), 5 => { let s = print("s", 2); (Actual::Str(s.clone()), format!("string {}", quoted(&s))) } 6 => (Actual::Bytes(vec![1, 2]), "bytes [1, 2]".into()), 7 => (Actual::Unit, "unit".into()), 8 => (Actual::Option, "option".into()),
        9 => (Actual::NewtypeStruct, "new-type struct".into()), 10 => (Actual::Seq, "sequence".into()), 11 => (Actual::Map, "map".into()), 12 => (Actual::Enum, "enum".into()), 13 => (Actual::UnitVariant, "unit variant".into()), 14 => (Actual::NewtypeVariant, "new-type variant".into()),
        15 => (Actual::TupleVariant, "tuple variant".into()), 16 => (Actual::StructVariant, "struct variant".into()), 17 => (Actual::Bool(false), "bool false".into()), _ => { let s = print("o", 1); (Actual::Other(s.clone()), s) }
    }
}
fn kind() -> (Kind, String) {
    match choice("kind", 12) {
        0 => { let m = ascii("m", 0, 2); (Kind::Message(m.clone()), m) }
        1 => { let (a, t) = actual(); let e = ascii_n("e", 1); (Kind::InvalidType(a, e.clone()), format!("invalid type: found {}, expected {}", t, e)) }
        2 => { let (a, t) = actual(); let e = ascii_n("e", 1); (Kind::InvalidValue(a, e.clone()), format!("invalid value {}, expected {}", t, e)) }
        3 => { let e = ascii_n("e", 1); (Kind::InvalidLength(42, e.clone()), format!("invalid length 42, expected {}", e)) }
        4 => { let (v, a) = (ascii_n("v", 1), ALTS[choice("alts", 9)]); (Kind::UnknownVariant(v.clone(), a), format!("unknown variant: found `{}`, expected `{}`", v, alternatives(a))) }
        5 => { let (v, a) = (ascii_n("v", 1), ALTS[choice("alts", 9)]); (Kind::UnknownField(v.clone(), a), format!("unknown field: found `{}`, expected `{}`", v, alternatives(a))) }
        6 => { let v = ascii_n("v", 1); (Kind::MissingField(v.clone().into()), format!("missing field `{}`", v)) }
        7 => (Kind::DuplicateField("dup"), "duplicate field `dup`".into()),
        8 => (Kind::ISizeOutOfRange(isize::MIN), "signed integer `-9223372036854775808` is out of range".into()),
        9 => (Kind::USizeOutOfRange(usize::MAX), "unsigned integer `18446744073709551615` is out of range".into()),
        10 => { let (a, t) = actual(); (Kind::Unsupported(a), format!("unsupported type `{}`", t)) }
        _ => { let (a, t) = actual(); let e = ascii_n("e", 1); (Kind::UnsupportedKey(a, e.clone().into()), format!("unsupported type `{}` for key: must be `{}`", t, e)) }
    }
}
/// metadata: (metadata, name, source text, how it writes keys)
fn metadata() -> Option<(Metadata, String, Option<String>, usize)> {
    let name = print("name", 1);
    let m = Metadata::named(name.clone());
    let (m, src) = match choice("source", 7) {
        6 => (m.source(Source::Custom(String::new())), Some(String::new())),
        0 => return None, 1 => (m, None),
        2 => { let t = print("src", 1); (m.source(Source::Custom(t.clone())), Some(t)) }
        3 => (m.source(Path::new("/w/x.toml")), Some("x.toml".to_string())), 4 => (m.source(Path::new("/v/w")), Some("/v/w".to_string())),
        _ => { let l = std::panic::Location::caller(); (m.source(l), Some(format!("{}:{}:{}", l.file(), l.line(), l.column()))) }
    };
    let how = choice("interpolater", 3);
    let m = match how { 0 => m, 1 => m.interpolater(|p, k| format!("<{}|{}|{}>", p, k.len(), k.concat())), _ => m.interpolater(|_, _| String::new()) };
    Some((m, name, src, how))
}
/// one error and the text it must have (without predecessors)
fn error(plain: bool) -> (Error, String) {
    let (k, mut t) = if plain { let m = print("m", 1); (Kind::Message(m.clone()), m) } else { kind() };
    let mut e = Error::from(k);
    let md = if plain { match choice("meta", 3) { 0 => Some((Metadata::from("n", "src"), "n".to_string(), Some("src".to_string()), 0)), 1 => Some((Metadata::named("n"), "n".to_string(), None, 0)), _ => None } } else { metadata() };
    e.metadata = md.as_ref().map(|m| m.0.clone());
    let prof = match choice("profile", if plain { 2 } else { 3 }) { 0 => None, 1 => Some("global".to_string()), _ => Some(ascii_n("prof", 1)) };
    e.profile = prof.as_ref().map(|p| Profile::new(p));
    let n = if plain { 2 * choice("deep", 2) } else { choice("depth", 3) };
    let path: Vec<String> = (0..n).map(|i| if i == 0 { print("key", 1) } else { "0".to_string() }).collect();
    e.path = path.clone();
    if let (Some(p), Some((m, _, _, how))) = (&prof, &md) {
        let mut key = vec![];
        match how { 0 => { key.extend_from_slice(p.as_bytes()); key.push(b'.'); key.extend_from_slice(path.join(".").as_bytes()) } 1 => { key.extend_from_slice(format!("<{}|{}|", p, n).as_bytes()); key.extend_from_slice(path.concat().as_bytes()); key.push(b'>') } _ => {} }
        let key = text(key);
        check(same(m.interpolate(&Profile::new(p), &path).as_bytes(), key.as_bytes()), "interpolation");
        if n > 0 { if prof.as_ref().map_or(false, |p| p.len() == 1) { let b = p.as_bytes()[0]; assume((b >= 32) & (b < 127)); } t.push_str(" for key "); t.push_str(&quoted(&key)); }
    }
    if let Some((_, name, src, _)) = &md { t.push_str(" in "); if let Some(s) = src { t.push_str(s); t.push(' '); } t.push_str(name); }
    (e, t)
}
fn cwd() { vfs::enable(); vfs::fs().cwd = vfs::fs().mkdirs("/w"); }
fn single() {
    cwd();
    let (e, t) = error(false);
    reach("single");
    check(same(e.to_string().as_bytes(), t.as_bytes()), "displayed error");
    check(same(format!("{}", e.kind).as_bytes(), &t.as_bytes()[..format!("{}", e.kind).len()]), "displayed kind");
}
fn chained() {
    cwd();
    let n = tier(2, 3);
    let (mut e, mut t) = error(true);
    for _ in 0..n { let (f, u) = if flip("plain") { error(true) } else { (Error::from("x"), "x".to_string()) }; e = e.chain(f); t = format!("{}\n{}", u, t); }
    reach("chained");
    check(same(e.to_string().as_bytes(), t.as_bytes()), "displayed chain");
    let shown = e.to_string();
    let mut lines: Vec<String> = vec![]; for e in e { check(e.count() == 1, "an item of the chain"); lines.push(e.to_string()); }
    check(same(shown.as_bytes(), lines.join("\n").as_bytes()), "order of the chain");
}
fn alts() {
    let a = ALTS[choice("alts", 9)];
    reach("alternatives");
    check(OneOf(a).to_string() == alternatives(a), "alternatives");
    #[derive(Deserialize, Debug)] enum E3 { #[allow(dead_code)] Aa, #[allow(dead_code)] Bb, #[allow(dead_code)] Cc }
    let e = Figment::from(("k", "zz")).extract_inner::<E3>("k").unwrap_err();
    check(e.to_string().starts_with("unknown variant: found `zz`, expected `one of `Aa`, `Bb`, `Cc``"), "variants in an error");
}
/// errors of the crate's own sources
fn sources() {
    cwd();
    let k = one_of("k", b"abcXYZ_1");
    let key = text(vec![k, b'b']);
    let up = |b: u8| b & !((((b >= b'a') & (b <= b'z')) as u8) << 5);
    let prof = ["default", "global", "mine"][choice("profile", 3)];
    let which = choice("which", 6);
    if which < 2 { let mut n = if which == 1 { b"pre_".to_vec() } else { vec![] }; n.extend(key.bytes()); env::env().push(&n, b"x", env_exports::slot()); }
    if which == 2 { vfs::fs().put("/w/cfg.json", format!("{{\"{}\": \"x\"}}", key).as_bytes()); }
    let at = line!() + 1;
    let f = match which { 0 => Figment::from(Env::raw().profile(prof)), 1 => Figment::from(Env::prefixed("pre_").profile(prof)), 2 => Figment::from(Json::file("cfg.json").profile(prof)), 3 => Figment::from(Json::string(&format!("{{\"{}\": \"x\"}}", key)).profile(prof)), 4 => Figment::from(Serialized::from("x", prof).key(&key)), _ => Figment::from(prov::p("own").put(prof, &key, "x").from_source("s")) };
    let col = |s: &str| s.split(&format!("c27.rs:{}:", at)).count() == 2;
    let low: String = if which < 2 { text(key.bytes().map(|b| b | ((((b >= b'A') & (b <= b'Z')) as u8) << 5)).collect()) } else { key.clone() };
    let e = f.select("mine").extract_inner::<u8>(&low).unwrap_err().to_string();
    let head = "invalid type: found string \"x\", expected u8 for key ";
    let full = format!("{}.{}", prof, key);
    let upper = text(key.bytes().map(up).collect());
    let shown = match which { 0 => format!("{}\"{}\" in environment variable(s)", head, upper), 1 => format!("{}\"{}\" in `PRE_` environment variable(s)", head, upper), 2 => format!("{}\"{}\" in cfg.json JSON file", head, full), 3 => format!("{}\"{}\" in JSON source string", head, full), 5 => format!("{}\"{}\" in s own", head, full), _ => format!("{}\"{}\" in ", head, full) };
    reach("sources");
    if which == 4 { check(same(&e.as_bytes()[..shown.len()], shown.as_bytes()) && col(&e) && e.ends_with(" &str"), "displayed error of a serialized source"); } else { check(same(e.as_bytes(), shown.as_bytes()), "displayed error of a source"); }
}
/// long chains, paths and texts
fn scaled() {
    cwd();
    let n = [4, 6, 9, 17, 40][choice("n", 5)];
    let x = print("x", 1);
    assume(x != ".");
    reach("scaled");
    if flip("path") {
        let mut e = Error::from(Kind::MissingField(x.clone().into()));
        let (long, named) = (flip("long"), flip("named"));
        let keys: Vec<String> = (0..n).map(|i| if i == n - 1 { x.clone() } else if long && i == 1 { "p".repeat(90) } else { ["a", "b", "c"][i % 3].to_string() }).collect();
        e.profile = Some(Profile::new("prod"));
        e.path = keys.clone();
        e.metadata = Some(if named { Metadata::named("m".repeat(70)).interpolater(|p, k| format!("{}/{}", p, k.join("/"))) } else { Metadata::from("n", "s") });
        let key = if named { format!("prod/{}", keys.join("/")) } else { format!("prod.{}", keys.join(".")) };
        check(same(e.to_string().as_bytes(), format!("missing field `{}` for key {} in {}", x, quoted(&key), if named { "m".repeat(70) } else { "s n".into() }).as_bytes()), "displayed deep key");
        // path prepending keeps order
        let mut f = Error::from("e"); for k in &keys { f = f.with_path(k); }
        check(f.path == keys, "with_path order");
        check(Error::from("e").with_path(&keys.join(".")).path.join(".") == keys.join("."), "with_path of a dotted text");
        return;
    }
    let mut e = Error::from(x.clone()); let mut lines = vec![x.clone()];
    for i in 1..n { let t = ["one", "two", "three"][i % 3]; e = if i % 4 == 3 { lines.push(x.clone()); e.chain(Error::from(x.clone())) } else { lines.push(t.into()); e.chain(Error::from(t.to_string())) }; }
    lines.reverse();
    check(e.count() == n, "count of a long chain");
    check(same(e.to_string().as_bytes(), lines.join("\n").as_bytes()), "displayed long chain");
    let items: Vec<String> = e.into_iter().map(|e| e.to_string()).collect();
    check(items.len() == n && items.iter().zip(&lines).all(|(a, b)| same(a.as_bytes(), b.as_bytes())), "items of a long chain");
}
fn body() { match choice("part", 5) { 0 => single(), 1 => chained(), 2 => alts(), 3 => sources(), _ => scaled() } }
entry!(body);
vfs_exports!();
env_exports!();

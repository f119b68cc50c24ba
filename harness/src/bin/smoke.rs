//! Not a property: exercises parts of std that an edit of figment may start to use,
//! to see that the engine follows them (run by hand: engine/smoke.sh).
use sym::*;
use std::collections::*;
use std::rc::Rc;
use std::sync::{Arc, Mutex, RwLock, OnceLock};
use std::cell::*;
use std::fmt::Write;
use std::borrow::Cow;

fn s(n: usize) -> String { word("s", b"ab.=1 _-", n) }

fn body() {
    let out: String = match choice("part", 34) {
        0 => { let x = s(3); let mut m = HashMap::new(); for (i, c) in x.chars().enumerate() { m.entry(c).or_insert_with(Vec::new).push(i); } let mut v: Vec<_> = m.into_iter().collect(); v.sort(); format!("{:?}", v) }
        1 => { let x = s(4); let mut v: Vec<char> = x.chars().collect(); v.sort_by(|a, b| b.cmp(a)); v.dedup(); v.reverse(); v.into_iter().collect() }
        2 => { let x = s(4); let mut v: Vec<&str> = x.split('.').collect(); v.sort_unstable(); v.retain(|s| !s.is_empty()); v.join("/") }
        3 => { let x = s(3); x.to_uppercase() + &x.to_lowercase() }
        4 => { let x = s(3); x.replace("a", "xyz") + &x.replacen('b', "", 1) }
        5 => { let x = s(3); x.splitn(2, '=').map(|p| p.trim()).collect::<Vec<_>>().concat() }
        6 => { let x = s(4); format!("{:?}", x.rsplit_once('.').map(|(a, b)| (b, a))) }
        7 => { let x = s(3); x.char_indices().filter(|(_, c)| c.is_alphanumeric()).map(|(i, c)| format!("{}{}", i, c)).collect() }
        8 => { let x = s(3); x.bytes().rev().map(|b| (b ^ 1) as char).collect() }
        9 => { let x = s(3); let mut d = VecDeque::new(); for c in x.chars() { if c == 'a' { d.push_front(c) } else { d.push_back(c) } } d.iter().collect() }
        10 => { let x = s(3); let h: HashSet<char> = x.chars().collect(); h.len().to_string() }
        11 => { let x = s(3); let b: BTreeSet<char> = x.chars().collect(); format!("{:?}", b.range('b'..).collect::<Vec<_>>()) }
        12 => { let x = s(3); let mut b = BTreeMap::new(); for (i, c) in x.chars().enumerate() { *b.entry(c).or_insert(0) += i; } let r = b.split_off(&'a'); format!("{:?} {:?}", b, r) }
        13 => { let x = s(2); let r: Rc<RefCell<Vec<String>>> = Rc::default(); let q = r.clone(); q.borrow_mut().push(x); let f = r.borrow().join(","); f + &Rc::strong_count(&r).to_string() }
        14 => { let x = s(2); let m = Arc::new(Mutex::new(x)); { m.lock().unwrap().push('!'); } let g = m.lock().unwrap().clone(); g }
        15 => { static L: OnceLock<String> = OnceLock::new(); let x = s(2); L.get_or_init(|| "init".into()).clone() + &x }
        16 => { let x = s(3); let c: Cow<str> = if x.starts_with('a') { Cow::Borrowed(&x[1..]) } else { Cow::Owned(format!("-{}", x)) }; c.into_owned() }
        17 => { let x = s(3); format!("{:>6}|{:<6}|{:^6}|{:#?}|{:.2}", x, x, x, Some(&x), x) }
        18 => { let x = s(3); match x.parse::<i32>() { Ok(n) => format!("ok {}", n), Err(e) => e.to_string() } }
        19 => { let x = s(3); match x.parse::<f32>() { Ok(n) => format!("ok {}", n.is_nan()), Err(e) => e.to_string() } }
        20 => { let x = s(3); let v: Result<Vec<u8>, String> = x.chars().map(|c| c.to_digit(10).map(|d| d as u8).ok_or_else(|| format!("bad {}", c))).collect(); format!("{:?}", v) }
        21 => { let x = s(4); x.as_bytes().chunks(2).map(|c| String::from_utf8_lossy(c).into_owned()).collect::<Vec<_>>().join("|") }
        22 => { let x = s(3); x.chars().zip(x.chars().skip(1)).filter(|(a, b)| a < b).count().to_string() }
        23 => { let x = s(3); let p = x.chars().position(|c| c == '.'); format!("{:?} {:?} {:?}", p, x.find(".="), x.rfind(|c: char| c.is_whitespace())) }
        24 => { let x = s(3); let r = std::panic::catch_unwind(|| { if x.len() == 3 && x.starts_with('a') { panic!("boom {}", x) } 1 }); r.is_ok().to_string() }
        25 => { let x = s(3); let mut o = String::new(); write!(o, "{:?}", x).unwrap(); for c in x.escape_debug() { o.insert(0, c); } o.truncate(4); o }
        26 => { let x = s(3); let p = std::path::Path::new(&x); format!("{:?} {:?} {:?}", p.file_stem(), p.extension(), p.parent()) }
        27 => { let x = s(3); let f: Box<dyn Fn(&str) -> String> = if x.contains('a') { Box::new(|s| s.repeat(2)) } else { Box::new(|s| s.to_string()) }; f(&x) }
        28 => { let x = s(3); let mut it = x.chars().peekable(); let mut o = String::new(); while let Some(c) = it.next() { if it.peek() == Some(&'.') { o.push('D') } else { o.push(c) } } o }
        29 => { let n = u64("n"); assume(n < 1000); let a = n.checked_sub(5).unwrap_or(7); let b = n.leading_zeros() + n.count_ones(); if a % 7 == 3 { format!("{}", b > 60) } else { (n.pow(2) / 3 > 100).to_string() } }
        30 => { let x = s(3); let l: LinkedList<char> = x.chars().collect(); let h: BinaryHeap<char> = l.into_iter().collect(); h.into_sorted_vec().into_iter().collect() }
        31 => { let x = s(3); let mut v: Vec<String> = x.split(' ').map(String::from).collect(); v.sort_by_key(|s| std::cmp::Reverse(s.len())); v.dedup_by(|a, b| a == b); v.drain(..1).chain(["z".to_string()]).collect() }
        32 => { let r = RwLock::new(s(2)); { r.write().unwrap().make_ascii_uppercase(); } let x = r.read().unwrap().clone(); x.strip_prefix('A').map(|s| s.to_string()).unwrap_or(x) }
        _ => { let x = s(3); let (a, b): (Vec<char>, Vec<char>) = x.chars().partition(|c| c.is_ascii_digit()); let m = x.chars().max_by_key(|c| *c as u32 % 5); let f = x.chars().fold(0u32, |a, c| a.wrapping_mul(31).wrapping_add(c as u32)); format!("{} {} {:?} {}", a.len(), b.len(), m, x.chars().any(|c| c == 'a') as u8 + (f > 5) as u8) }
    };
    reach("done");
    logs("out", &out);
}
entry!(body);

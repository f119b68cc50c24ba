//! Types built at run time.  `Dyn` (de)serializes as whatever type `set` was given, making the
//! calls to serde that derived implementations make, so that every type up to a depth can be
//! explored without compiling each.
use crate::model::nth_key;
use crate::*;
use serde::de::{DeserializeSeed, EnumAccess, Error as _, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;

pub const FIELDS: [&str; 4] = ["first", "second", "n", "rest"];
pub const VARIANTS: [&str; 4] = ["Nothing", "Newtype", "Pair", "Fields"];

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Bool, Char, U8, U16, U32, U64, U128, USize, I8, I16, I32, I64, I128, ISize, F32, F64, Str, Unit, UnitStruct, Opt(Box<Ty>), Seq(Box<Ty>), Tuple(Vec<Ty>), Map(Box<Ty>), Struct(Vec<Ty>), New(Box<Ty>), TupleStruct(Vec<Ty>), Enum(Vec<Var>) }
#[derive(Clone, Debug, PartialEq)]
pub enum Var { Unit, New(Ty), Tuple(Vec<Ty>), Struct(Vec<Ty>) }
#[derive(Clone, Debug)]
pub enum Node { Bool(bool), Char(char), U(u128), I(i128), F(u64), G(u32), Str(Vec<u8>), Unit, None, Some(Box<Node>), Seq(Vec<Node>), Map(Vec<(String, Node)>), New(Box<Node>), Var(usize, Vec<Node>) }

impl Node {
    /// equal, without short-circuiting on contents; floats by bits, any NaN like another
    pub fn same(&self, o: &Node) -> bool {
        fn all(a: &[Node], b: &[Node]) -> bool { if a.len() != b.len() { return false; } let mut ok = true; for i in 0..a.len() { ok &= a[i].same(&b[i]); } ok }
        match (self, o) {
            (Node::Bool(a), Node::Bool(b)) => a == b, (Node::Char(a), Node::Char(b)) => a == b, (Node::U(a), Node::U(b)) => a == b, (Node::I(a), Node::I(b)) => a == b,
            (Node::F(a), Node::F(b)) => (a == b) | (f64::from_bits(*a).is_nan() & f64::from_bits(*b).is_nan()), (Node::G(a), Node::G(b)) => (a == b) | (f32::from_bits(*a).is_nan() & f32::from_bits(*b).is_nan()), (Node::Str(a), Node::Str(b)) => crate::same(a, b), (Node::Unit, Node::Unit) | (Node::None, Node::None) => true,
            (Node::Some(a), Node::Some(b)) | (Node::New(a), Node::New(b)) => a.same(b), (Node::Seq(a), Node::Seq(b)) => all(a, b), (Node::Var(i, a), Node::Var(j, b)) => i == j && all(a, b),
            (Node::Map(a), Node::Map(b)) => { if a.len() != b.len() { return false; } let mut ok = true; for i in 0..a.len() { ok &= crate::same(a[i].0.as_bytes(), b[i].0.as_bytes()) && a[i].1.same(&b[i].1); } ok }
            _ => false,
        }
    }
}

static mut TY: Option<Ty> = None;
/// from now on a `Dyn` is of this type
pub fn set(t: &Ty) { unsafe { *std::ptr::addr_of_mut!(TY) = Some(t.clone()) } }
fn ty() -> &'static Ty { unsafe { (*std::ptr::addr_of!(TY)).as_ref().expect("type") } }
#[derive(Clone, Debug)]
pub struct Dyn(pub Node);
impl PartialEq for Dyn { fn eq(&self, o: &Dyn) -> bool { self.0.same(&o.0) } }
impl<'de> Deserialize<'de> for Dyn { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Dyn, D::Error> { ty().deserialize(d).map(Dyn) } }
impl Serialize for Dyn { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { At(ty(), &self.0).serialize(s) } }

struct At<'a>(&'a Ty, &'a Node);
impl Serialize for At<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match (self.0, self.1) {
            (Ty::Bool, Node::Bool(b)) => s.serialize_bool(*b), (Ty::Char, Node::Char(c)) => s.serialize_char(*c), (Ty::U8, Node::U(x)) => s.serialize_u8(*x as u8), (Ty::U16, Node::U(x)) => s.serialize_u16(*x as u16), (Ty::U32, Node::U(x)) => s.serialize_u32(*x as u32), (Ty::U64, Node::U(x)) => s.serialize_u64(*x as u64), (Ty::U128, Node::U(x)) => s.serialize_u128(*x), (Ty::USize, Node::U(x)) => (*x as usize).serialize(s),
            (Ty::I8, Node::I(x)) => s.serialize_i8(*x as i8), (Ty::I16, Node::I(x)) => s.serialize_i16(*x as i16), (Ty::I64, Node::I(x)) => s.serialize_i64(*x as i64), (Ty::I128, Node::I(x)) => s.serialize_i128(*x), (Ty::ISize, Node::I(x)) => (*x as isize).serialize(s), (Ty::F32, Node::G(x)) => s.serialize_f32(f32::from_bits(*x)),
            (Ty::I32, Node::I(x)) => s.serialize_i32(*x as i32), (Ty::F64, Node::F(x)) => s.serialize_f64(f64::from_bits(*x)), (Ty::Str, Node::Str(b)) => s.serialize_str(unsafe { std::str::from_utf8_unchecked(b) }),
            (Ty::Unit, Node::Unit) => s.serialize_unit(), (Ty::UnitStruct, Node::Unit) => s.serialize_unit_struct("Unit"), (Ty::Opt(_), Node::None) => s.serialize_none(), (Ty::Opt(t), Node::Some(x)) => s.serialize_some(&At(t, x)),
            (Ty::Seq(t), Node::Seq(v)) => { let mut q = s.serialize_seq(Some(v.len()))?; for x in v { q.serialize_element(&At(t, x))?; } q.end() }
            (Ty::Tuple(ts), Node::Seq(v)) => { let mut q = s.serialize_tuple(v.len())?; for (t, x) in ts.iter().zip(v) { q.serialize_element(&At(t, x))?; } q.end() }
            (Ty::Map(t), Node::Map(v)) => { let mut q = s.serialize_map(Some(v.len()))?; for (k, x) in v { q.serialize_entry(k, &At(t, x))?; } q.end() }
            (Ty::Struct(ts), Node::Seq(v)) => { let mut q = s.serialize_struct("Rec", v.len())?; for (i, (t, x)) in ts.iter().zip(v).enumerate() { q.serialize_field(FIELDS[i], &At(t, x))?; } q.end() }
            (Ty::New(t), Node::New(x)) => s.serialize_newtype_struct("New", &At(t, x)),
            (Ty::TupleStruct(ts), Node::Seq(v)) => { let mut q = s.serialize_tuple_struct("Tup", v.len())?; for (t, x) in ts.iter().zip(v) { q.serialize_field(&At(t, x))?; } q.end() }
            (Ty::Enum(vs), Node::Var(i, v)) => match &vs[*i] {
                Var::Unit => s.serialize_unit_variant("En", *i as u32, VARIANTS[*i]), Var::New(t) => s.serialize_newtype_variant("En", *i as u32, VARIANTS[*i], &At(t, &v[0])),
                Var::Tuple(ts) => { let mut q = s.serialize_tuple_variant("En", *i as u32, VARIANTS[*i], v.len())?; for (t, x) in ts.iter().zip(v) { q.serialize_field(&At(t, x))?; } q.end() }
                Var::Struct(ts) => { let mut q = s.serialize_struct_variant("En", *i as u32, VARIANTS[*i], v.len())?; for (j, (t, x)) in ts.iter().zip(v).enumerate() { q.serialize_field(FIELDS[j], &At(t, x))?; } q.end() }
            },
            _ => Err(serde::ser::Error::custom("harness: node of another type")),
        }
    }
}

impl<'de, 'a> DeserializeSeed<'de> for &'a Ty {
    type Value = Node;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Node, D::Error> {
        let v = V(self, None);
        match self {
            Ty::Bool => bool::deserialize(d).map(Node::Bool), Ty::Char => char::deserialize(d).map(Node::Char), Ty::U8 => u8::deserialize(d).map(|x| Node::U(x as u128)), Ty::U16 => u16::deserialize(d).map(|x| Node::U(x as u128)), Ty::U32 => u32::deserialize(d).map(|x| Node::U(x as u128)), Ty::U64 => u64::deserialize(d).map(|x| Node::U(x as u128)), Ty::U128 => u128::deserialize(d).map(Node::U), Ty::USize => usize::deserialize(d).map(|x| Node::U(x as u128)),
            Ty::I8 => i8::deserialize(d).map(|x| Node::I(x as i128)), Ty::I16 => i16::deserialize(d).map(|x| Node::I(x as i128)), Ty::I64 => i64::deserialize(d).map(|x| Node::I(x as i128)), Ty::I128 => i128::deserialize(d).map(Node::I), Ty::ISize => isize::deserialize(d).map(|x| Node::I(x as i128)), Ty::F32 => f32::deserialize(d).map(|x| Node::G(x.to_bits())),
            Ty::I32 => i32::deserialize(d).map(|x| Node::I(x as i128)), Ty::F64 => f64::deserialize(d).map(|x| Node::F(x.to_bits())), Ty::Str => String::deserialize(d).map(|s| Node::Str(s.into_bytes())), Ty::Unit => <()>::deserialize(d).map(|_| Node::Unit),
            Ty::UnitStruct => d.deserialize_unit_struct("Unit", v), Ty::Opt(_) => d.deserialize_option(v), Ty::Seq(_) => d.deserialize_seq(v), Ty::Tuple(ts) => d.deserialize_tuple(ts.len(), v), Ty::Map(_) => d.deserialize_map(v),
            Ty::Struct(ts) => d.deserialize_struct("Rec", &FIELDS[..ts.len()], v), Ty::New(_) => d.deserialize_newtype_struct("New", v), Ty::TupleStruct(ts) => d.deserialize_tuple_struct("Tup", ts.len(), v), Ty::Enum(vs) => d.deserialize_enum("En", &VARIANTS[..vs.len()], v),
        }
    }
}
/// visits a value of the type, or the contents of one of its variants
struct V<'a>(&'a Ty, Option<&'a [Ty]>);
impl<'a> V<'a> {
    fn parts(&self) -> Option<&'a [Ty]> { match (self.1, self.0) { (Some(p), _) => Some(p), (_, Ty::Tuple(t) | Ty::Struct(t) | Ty::TupleStruct(t)) => Some(t), _ => None } }
    fn named(&self) -> bool { matches!(self.0, Ty::Struct(_)) || self.1.is_some() }
}
impl<'de, 'a> Visitor<'de> for V<'a> {
    type Value = Node;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(match self.0 { Ty::UnitStruct => "unit struct", Ty::Opt(_) => "option", Ty::Seq(_) => "a sequence", Ty::Map(_) => "a map", Ty::Enum(_) => "an enum", Ty::New(_) => "tuple struct", _ => "a structure" }) }
    fn visit_unit<E: serde::de::Error>(self) -> Result<Node, E> { match self.0 { Ty::UnitStruct => Ok(Node::Unit), Ty::Opt(_) => Ok(Node::None), _ => Err(E::invalid_type(serde::de::Unexpected::Unit, &self)) } }
    fn visit_none<E: serde::de::Error>(self) -> Result<Node, E> { match self.0 { Ty::Opt(_) => Ok(Node::None), _ => Err(E::invalid_type(serde::de::Unexpected::Option, &self)) } }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Node, D::Error> { match self.0 { Ty::Opt(t) => t.deserialize(d).map(|x| Node::Some(Box::new(x))), _ => Err(D::Error::invalid_type(serde::de::Unexpected::Option, &self)) } }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Node, D::Error> { match self.0 { Ty::New(t) => t.deserialize(d).map(|x| Node::New(Box::new(x))), _ => Err(D::Error::invalid_type(serde::de::Unexpected::NewtypeStruct, &self)) } }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Node, A::Error> {
        if let Some(ts) = self.parts() {
            let mut out = vec![];
            for (i, t) in ts.iter().enumerate() { out.push(match a.next_element_seed(t)? { Some(x) => x, None => return Err(A::Error::invalid_length(i, &self)) }); }
            return Ok(Node::Seq(out));
        }
        match self.0 {
            Ty::Seq(t) => { let mut out = vec![]; while let Some(x) = a.next_element_seed(&**t)? { out.push(x); } Ok(Node::Seq(out)) }
            Ty::New(t) => match a.next_element_seed(&**t)? { Some(x) => Ok(Node::New(Box::new(x))), None => Err(A::Error::invalid_length(0, &self)) },
            _ => Err(A::Error::invalid_type(serde::de::Unexpected::Seq, &self)),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Node, A::Error> {
        if let (Some(ts), true) = (self.parts(), self.named()) {
            let mut out: Vec<Option<Node>> = ts.iter().map(|_| None).collect();
            while let Some(i) = a.next_key_seed(Ident(&FIELDS[..ts.len()], false))? {
                if i == ts.len() { a.next_value::<IgnoredAny>()?; } else if out[i].is_some() { return Err(A::Error::duplicate_field(FIELDS[i])); } else { out[i] = Some(a.next_value_seed(&ts[i])?); }
            }
            let mut all = vec![];
            for (i, x) in out.into_iter().enumerate() { all.push(match (x, &ts[i]) { (Some(x), _) => x, (None, Ty::Opt(_)) => Node::None, _ => return Err(A::Error::missing_field(FIELDS[i])) }); }
            return Ok(Node::Seq(all));
        }
        match self.0 {
            Ty::Map(t) => { let mut out = vec![]; while let Some(k) = a.next_key::<String>()? { out.push((k, a.next_value_seed(&**t)?)); } Ok(Node::Map(out)) }
            _ => Err(A::Error::invalid_type(serde::de::Unexpected::Map, &self)),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Node, A::Error> {
        let vs = match self.0 { Ty::Enum(v) => v, _ => return Err(A::Error::invalid_type(serde::de::Unexpected::Enum, &self)) };
        let (i, x) = a.variant_seed(Ident(&VARIANTS[..vs.len()], true))?;
        Ok(Node::Var(i, match &vs[i] {
            Var::Unit => { x.unit_variant()?; vec![] } Var::New(t) => vec![x.newtype_variant_seed(t)?],
            Var::Tuple(ts) => match x.tuple_variant(ts.len(), V(self.0, Some(ts)))? { Node::Seq(v) => v, _ => unreachable!() },
            Var::Struct(ts) => match x.struct_variant(&FIELDS[..ts.len()], V(self.0, Some(ts)))? { Node::Seq(v) => v, _ => unreachable!() },
        }))
    }
}
/// a field or variant name; unknown fields give the number of fields
struct Ident(&'static [&'static str], bool);
impl<'de> DeserializeSeed<'de> for Ident { type Value = usize; fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<usize, D::Error> { d.deserialize_identifier(self) } }
impl<'de> Visitor<'de> for Ident {
    type Value = usize;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(if self.1 { "variant identifier" } else { "field identifier" }) }
    fn visit_str<E: serde::de::Error>(self, s: &str) -> Result<usize, E> { match self.0.iter().position(|f| *f == s) { Some(i) => Ok(i), None if self.1 => Err(E::unknown_variant(s, self.0)), None => Ok(self.0.len()) } }
    fn visit_u64<E: serde::de::Error>(self, i: u64) -> Result<usize, E> { if (i as usize) < self.0.len() { Ok(i as usize) } else { Err(E::invalid_value(serde::de::Unexpected::Unsigned(i), &self)) } }
}

/// how a type may be built around others; the last two only around nothing
pub const WRAPS: u8 = 11;
pub fn wrap(k: usize, t: Ty) -> Ty {
    match k {
        0 => Ty::Opt(Box::new(t)), 1 => Ty::Seq(Box::new(t)), 2 => Ty::Tuple(vec![t, Ty::U8]), 3 => Ty::Map(Box::new(t)), 4 => Ty::Struct(vec![t, Ty::Opt(Box::new(Ty::U8)), Ty::U8]), 5 => Ty::New(Box::new(t)), 6 => Ty::TupleStruct(vec![Ty::U8, t]),
        k => { let mut v = vec![Var::Unit, Var::New(Ty::U8), Var::Tuple(vec![Ty::U8, Ty::U8]), Var::Struct(vec![Ty::U8])]; match k { 7 => v[1] = Var::New(t), 8 => v[2] = Var::Tuple(vec![Ty::U8, t]), 9 => v[3] = Var::Struct(vec![t, Ty::Opt(Box::new(Ty::U8))]), _ => {} } Ty::Enum(v) }
    }
}
/// stored as nothing: an option around it reads back as absent
pub fn empty(t: &Ty) -> bool { match t { Ty::Unit | Ty::UnitStruct | Ty::Opt(_) => true, Ty::New(t) => empty(t), _ => false } }
pub const BASES: [Ty; 19] = [Ty::U16, Ty::Str, Ty::UnitStruct, Ty::F64, Ty::Bool, Ty::Char, Ty::I32, Ty::U64, Ty::Unit, Ty::U8, Ty::U32, Ty::U128, Ty::USize, Ty::I8, Ty::I16, Ty::I64, Ty::I128, Ty::ISize, Ty::F32];
/// any type of exactly `n` constructors around one of the first `bases` base types
pub fn any(n: usize, bases: usize) -> Ty { if n == 0 { BASES[choice("base", bases as u8)].clone() } else { let k = choice("wrap", WRAPS); let t = any(n - 1, if k == 10 { 1 } else { bases }); assume(k != 0 || !empty(&t)); wrap(k, t) } }

/// any type of exactly `n` constructors around the given one
pub fn around(n: usize, t: Ty) -> Ty { if n == 0 { t } else { let k = choice("wrap", WRAPS - 1); let t = around(n - 1, t); assume(k != 0 || !empty(&t)); wrap(k, t) } }
/// every position in a value: its path, its type, and whether it is a required field of a struct
pub struct Pos<'a> { pub path: Vec<String>, pub ty: &'a Ty, pub field: bool }
pub fn positions<'a>(t: &'a Ty, n: &Node) -> Vec<Pos<'a>> { let mut out = vec![]; walk(t, n, vec![], false, &mut out); out }
fn walk<'a>(t: &'a Ty, n: &Node, path: Vec<String>, field: bool, out: &mut Vec<Pos<'a>>) {
    let sub = |k: &str| { let mut p = path.clone(); p.push(k.to_string()); p };
    let below = |ts: &'a [Ty], v: &[Node], names: bool, at: Option<&str>, out: &mut Vec<Pos<'a>>| for (i, (t, x)) in ts.iter().zip(v).enumerate() { let mut p = path.clone(); if let Some(a) = at { p.push(a.into()); } p.push(if names { FIELDS[i].to_string() } else { i.to_string() }); walk(t, x, p, names && !matches!(t, Ty::Opt(_)), out) };
    match (t, n) {
        (Ty::Opt(t), Node::Some(x)) => return walk(t, x, path, false, out), (Ty::Opt(_), _) => return, (Ty::New(t), Node::New(x)) => return walk(t, x, path, field, out),
        _ => out.push(Pos { path: path.clone(), ty: t, field }),
    }
    match (t, n) {
        (Ty::Seq(t), Node::Seq(v)) => for (i, x) in v.iter().enumerate() { walk(t, x, sub(&i.to_string()), false, out) }
        (Ty::Map(t), Node::Map(v)) => for (k, x) in v { walk(t, x, sub(k), false, out) }
        (Ty::Tuple(ts) | Ty::TupleStruct(ts), Node::Seq(v)) => below(ts, v, false, None, out), (Ty::Struct(ts), Node::Seq(v)) => below(ts, v, true, None, out),
        (Ty::Enum(vs), Node::Var(i, v)) => match &vs[*i] { Var::Unit => {} Var::New(t) => walk(t, &v[0], sub(VARIANTS[*i]), false, out), Var::Tuple(ts) => below(ts, v, false, Some(VARIANTS[*i]), out), Var::Struct(ts) => below(ts, v, true, Some(VARIANTS[*i]), out) },
        _ => {}
    }
}
/// the value at a path is replaced, or removed from the dictionary it is in
pub fn replace(v: figment::value::Value, path: &[String], with: &Option<figment::value::Value>) -> figment::value::Value {
    use figment::value::Value;
    if path.is_empty() { return with.clone().expect("a value"); }
    match v {
        Value::Dict(t, mut d) => { if path.len() == 1 && with.is_none() { d.remove(&path[0]); } else { let x = d.remove(&path[0]).expect("key"); d.insert(path[0].clone(), replace(x, &path[1..], with)); } Value::Dict(t, d) }
        Value::Array(t, mut a) => { let i: usize = path[0].parse().expect("index"); a[i] = replace(a[i].clone(), &path[1..], with); Value::Array(t, a) }
        v => v,
    }
}

/// a value of the type: contents arbitrary, presence, lengths and variants enumerated.
/// `full` takes the longest way down so that the innermost part is there.
pub fn make(t: &Ty, full: bool) -> Node {
    match t {
        Ty::Bool => Node::Bool(bool("b")), Ty::Char => { let c = u8("c"); assume(c < 128); Node::Char(c as char) } Ty::U8 => Node::U(u8("u8") as u128), Ty::U16 => Node::U(u16("u16") as u128), Ty::U32 => Node::U(u32("u32") as u128), Ty::U64 => Node::U(u64("u64") as u128), Ty::U128 => Node::U(u128("u128")), Ty::USize => Node::U(u64("usize") as u128),
        Ty::I8 => Node::I(u8("i8") as i8 as i128), Ty::I16 => Node::I(u16("i16") as i16 as i128), Ty::I32 => Node::I(u32("i32") as i32 as i128), Ty::I64 => Node::I(u64("i64") as i64 as i128), Ty::I128 => Node::I(u128("i128") as i128), Ty::ISize => Node::I(u64("isize") as i64 as i128), Ty::F32 => Node::G(u32("f32")), Ty::F64 => Node::F(u64("f64")),
        Ty::Str => Node::Str(ascii_n("s", 1).into_bytes()), Ty::Unit | Ty::UnitStruct => Node::Unit,
        // the neighbours of what is explored are small and fixed
        Ty::Opt(t) if **t == Ty::U8 => if full || flip("second") { Node::Some(Box::new(Node::U(u8("u8") as u128))) } else { Node::None },
        Ty::Opt(t) => if full || flip("some") { Node::Some(Box::new(make(t, full))) } else { Node::None },
        Ty::Seq(t) => { let n = if full { 2 } else { choice("len", 3) }; Node::Seq((0..n).map(|i| make(t, full || i > 0)).collect()) }
        Ty::Map(t) => { let n = if full { 2 } else { choice("len", 3) }; Node::Map((0..n).map(|i| (if i == 0 { let k = ascii_n("key", 1); assume(k.as_bytes()[0] < b'k'); k } else { nth_key(i) }, make(t, full || i > 0))).collect()) }
        Ty::Tuple(ts) | Ty::Struct(ts) | Ty::TupleStruct(ts) => Node::Seq(ts.iter().map(|t| make(t, full)).collect()), Ty::New(t) => Node::New(Box::new(make(t, full))),
        Ty::Enum(vs) => {
            let inner = vs.iter().position(|v| match v { Var::New(t) => *t != Ty::U8, Var::Tuple(t) => t[1] != Ty::U8, Var::Struct(t) => t.len() > 1, Var::Unit => false }).unwrap_or(0);
            let i = if full { inner } else if inner > 0 { [inner, 0][choice("variant", 2)] } else { choice("variant", 4) };
            Node::Var(i, match &vs[i] { Var::Unit => vec![], Var::New(t) => vec![make(t, full)], Var::Tuple(ts) | Var::Struct(ts) => ts.iter().map(|t| make(t, full)).collect() })
        }
    }
}

//! A dynamic type for every shape of serde's data model: types (`Ty`), values
//! (`M`), serialization, type-directed deserialization and the value tree a
//! serialized value must become.  Used by C10 (round trips) and C13 (errors).
use crate::util::*;
use figment::value::{Dict, Empty, Num, Tag, Value};
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, Serializer};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Bool, U8, U16, U32, U64, U128, I8, I16, I32, I64, I128, F32, F64, Char, Str, Bytes, Unit, UnitStruct,
    Opt(Box<Ty>), Seq(Box<Ty>), Tuple(Vec<Ty>), TupleStruct(Vec<Ty>), Newtype(Box<Ty>), Map(Box<Ty>), Struct(Vec<Ty>), Enum(Vec<Var>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Var { Unit, New(Ty), Tuple(Vec<Ty>), Struct(Vec<Ty>) }

#[derive(Clone, Debug)]
pub enum M {
    Bool(bool), Num(Num), Char(char), Str(String), Bytes(Vec<u8>), Unit, UnitStruct, None, Some(Box<M>), Seq(Vec<M>), Tuple(Vec<M>), TupleStruct(Vec<M>),
    Newtype(Box<M>), Map(Vec<(String, M)>), Struct(Vec<M>), UnitVar(usize), NewVar(usize, Box<M>), TupleVar(usize, Vec<M>), StructVar(usize, Vec<M>),
}

/// field and variant names in use; some look like other kinds of values
static SETS: [([&str; 6], [&str; 6]); 4] = [
    (["alpha", "b", "Gamma", "delta_x", "é", "type"], ["First", "second", "Third", "4th", "É", "a b"]),
    (["1", "true", "0", "-1", "null", "A"], ["1", "0", "true", "-7", "false", "off"]),
    (["a.b", "", " a", "A", "a", "x.0"], ["a.b", "", "1.5", "A", "a", "None"]),
    (["tag", "name", "__figment", "[0]", "{}", "Default"], ["Unit", "default", "global", "[]", "{}", "\"q\""]),
];
static SET: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub fn name_set(k: usize) { SET.store(k % SETS.len(), std::sync::atomic::Ordering::Relaxed) }
fn set() -> &'static ([&'static str; 6], [&'static str; 6]) { &SETS[SET.load(std::sync::atomic::Ordering::Relaxed)] }
pub fn fnames() -> &'static [&'static str; 6] { &set().0 }
pub fn vnames() -> &'static [&'static str; 6] { &set().1 }
const STRINGS: [&str; 10] = ["", "x", "true", "1", "null", "é∂", "a.b", "\n\"\\", " padded ", "[1,2]"];
const MKEYS: [&str; 8] = ["k", "", "a.b", "É", "1", "key two", "alpha", "null"];

pub fn num_bits(n: &Num) -> (u8, u128) {
    match *n {
        Num::U8(v) => (0, v as u128), Num::U16(v) => (1, v as u128), Num::U32(v) => (2, v as u128), Num::U64(v) => (3, v as u128), Num::U128(v) => (4, v), Num::USize(v) => (5, v as u128),
        Num::I8(v) => (6, v as i128 as u128), Num::I16(v) => (7, v as i128 as u128), Num::I32(v) => (8, v as i128 as u128), Num::I64(v) => (9, v as i128 as u128), Num::I128(v) => (10, v as u128), Num::ISize(v) => (11, v as i128 as u128),
        Num::F32(v) => (12, v.to_bits() as u128), Num::F64(v) => (13, v.to_bits() as u128),
    }
}
impl PartialEq for M {
    fn eq(&self, o: &M) -> bool {
        use M::*;
        match (self, o) {
            (Bool(a), Bool(b)) => a == b, (Num(a), Num(b)) => num_bits(a) == num_bits(b), (Char(a), Char(b)) => a == b, (Str(a), Str(b)) => a == b, (Bytes(a), Bytes(b)) => a == b,
            (Unit, Unit) | (UnitStruct, UnitStruct) | (None, None) => true,
            (Some(a), Some(b)) | (Newtype(a), Newtype(b)) => a == b,
            (Seq(a), Seq(b)) | (Tuple(a), Tuple(b)) | (TupleStruct(a), TupleStruct(b)) | (Struct(a), Struct(b)) => a == b,
            (Map(a), Map(b)) => a == b, (UnitVar(a), UnitVar(b)) => a == b, (NewVar(a, x), NewVar(b, y)) => a == b && x == y,
            (TupleVar(a, x), TupleVar(b, y)) | (StructVar(a, x), StructVar(b, y)) => a == b && x == y,
            _ => false,
        }
    }
}

// ---- generation
fn int_edge(r: &mut Rng) -> u128 {
    let e: [u128; 12] = [0, 1, 127, 128, 255, 256, 65535, 65536, u32::MAX as u128, u64::MAX as u128, 1 << 64, u128::MAX];
    match r.below(3) { 0 => r.odd_int().unwrap_or(*r.pick(&e)), 1 => r.next() as u128, _ => ((r.next() as u128) << 64 | r.next() as u128) >> r.below(128) }
}
/// `inner` is true directly under an option, where unit-like and optional types cannot be told apart
pub fn gen_ty(r: &mut Rng, depth: usize, inner: bool) -> Ty {
    let many = |r: &mut Rng, lo: usize, hi: usize| -> Vec<Ty> { let n = lo + r.below(hi - lo + 1); (0..n).map(|_| gen_ty(r, depth.saturating_sub(1), false)).collect() };
    loop {
        let k = if depth == 0 { r.below(18) } else { r.below(34) };
        return match k {
            0 => Ty::Bool, 1 => Ty::U8, 2 => Ty::U16, 3 => Ty::U32, 4 => Ty::U64, 5 => Ty::U128, 6 => Ty::I8, 7 => Ty::I16, 8 => Ty::I32, 9 => Ty::I64, 10 => Ty::I128, 11 => Ty::F32, 12 => Ty::F64,
            13 => Ty::Char, 14 => Ty::Str, 15 => Ty::Bytes,
            16 | 17 if inner => continue,
            16 => Ty::Unit, 17 => Ty::UnitStruct,
            18 | 19 if inner => continue,
            18 | 19 => Ty::Opt(Box::new(gen_ty(r, depth - 1, true))),
            20 | 21 => Ty::Seq(Box::new(gen_ty(r, depth - 1, false))),
            22 => Ty::Tuple(many(r, 0, 4)), 23 => Ty::TupleStruct(many(r, 0, 4)), 24 => Ty::Newtype(Box::new(gen_ty(r, depth - 1, inner))),
            25 | 26 => Ty::Map(Box::new(gen_ty(r, depth - 1, false))),
            27..=29 => Ty::Struct(many(r, 0, 5)),
            _ => { let n = 1 + r.below(4); Ty::Enum((0..n).map(|_| match r.below(4) { 0 => Var::Unit, 1 => Var::New(gen_ty(r, depth - 1, false)), 2 => Var::Tuple(many(r, 0, 3)), _ => Var::Struct(many(r, 0, 3)) }).collect()) }
        };
    }
}
fn leaf(t: &Ty) -> bool { !matches!(t, Ty::Opt(_) | Ty::Seq(_) | Ty::Tuple(_) | Ty::TupleStruct(_) | Ty::Newtype(_) | Ty::Map(_) | Ty::Struct(_) | Ty::Enum(_)) }
pub fn gen_m(r: &mut Rng, t: &Ty) -> M {
    let all = |r: &mut Rng, v: &Vec<Ty>| v.iter().map(|t| gen_m(r, t)).collect::<Vec<_>>();
    match t {
        Ty::Bool => M::Bool(r.chance(1, 2)),
        Ty::U8 => M::Num(Num::U8(int_edge(r) as u8)), Ty::U16 => M::Num(Num::U16(int_edge(r) as u16)), Ty::U32 => M::Num(Num::U32(int_edge(r) as u32)), Ty::U64 => M::Num(Num::U64(int_edge(r) as u64)), Ty::U128 => M::Num(Num::U128(int_edge(r))),
        Ty::I8 => M::Num(Num::I8(int_edge(r) as i8)), Ty::I16 => M::Num(Num::I16(int_edge(r) as i16)), Ty::I32 => M::Num(Num::I32(int_edge(r) as i32)), Ty::I64 => M::Num(Num::I64(int_edge(r) as i64)), Ty::I128 => M::Num(Num::I128(int_edge(r) as i128)),
        Ty::F32 => M::Num(Num::F32(*r.pick(&[0.0, -0.0, 1.5, f32::MAX, f32::MIN_POSITIVE, f32::INFINITY, 0.1, -3.25e-7]))),
        Ty::F64 => M::Num(Num::F64(if r.chance(1, 2) { *r.pick(&[0.0, -0.0, 0.1, f64::MAX, f64::EPSILON, f64::NEG_INFINITY, 1e300]) } else { r.next() as i64 as f64 / 1024.0 })),
        Ty::Char => M::Char(if r.chance(1, 5) { r.odd_char() } else { *r.pick(&['a', 'é', '0', '\u{10ffff}', '\0', ' ']) }), Ty::Str => M::Str(if r.chance(1, 5) { r.odd_text() } else { r.pick(&STRINGS).to_string() }),
        Ty::Bytes => { let n = r.size(3, 400); M::Bytes((0..n).map(|_| r.next() as u8).collect()) }
        Ty::Unit => M::Unit, Ty::UnitStruct => M::UnitStruct,
        Ty::Opt(t) => if r.chance(1, 3) { M::None } else { M::Some(Box::new(gen_m(r, t))) },
        Ty::Seq(t) => { let n = if leaf(t) && r.chance(1, 20) { r.below(400) } else { r.below(4) }; M::Seq((0..n).map(|_| gen_m(r, t)).collect()) }
        Ty::Tuple(v) => M::Tuple(all(r, v)), Ty::TupleStruct(v) => M::TupleStruct(all(r, v)), Ty::Newtype(t) => M::Newtype(Box::new(gen_m(r, t))),
        Ty::Map(t) => {
            let n = if leaf(t) && r.chance(1, 20) { r.below(200) } else { r.below(4) };
            let mut m: std::collections::BTreeMap<String, M> = Default::default();
            for i in 0..n { let k = if n > 4 { format!("k{}", i) } else if r.chance(1, 6) { r.odd_text() } else { r.pick(&MKEYS).to_string() }; let v = gen_m(r, t); m.insert(k, v); }
            M::Map(m.into_iter().collect())
        }
        Ty::Struct(v) => M::Struct(all(r, v)),
        Ty::Enum(vs) => { let i = r.below(vs.len()); match &vs[i] { Var::Unit => M::UnitVar(i), Var::New(t) => M::NewVar(i, Box::new(gen_m(r, t))), Var::Tuple(v) => M::TupleVar(i, all(r, v)), Var::Struct(v) => M::StructVar(i, all(r, v)) } }
    }
}

// ---- the value tree a serialized value becomes
fn arr(v: &[M]) -> Value { Value::Array(Tag::Default, v.iter().map(tree).collect()) }
fn fields(v: &[M]) -> Value { Value::Dict(Tag::Default, v.iter().enumerate().map(|(i, m)| (fnames()[i].to_string(), tree(m))).collect()) }
fn under(k: usize, v: Value) -> Value { Value::Dict(Tag::Default, std::iter::once((vnames()[k].to_string(), v)).collect()) }
pub fn tree(m: &M) -> Value {
    let t = Tag::Default;
    match m {
        M::Bool(b) => Value::Bool(t, *b), M::Num(n) => Value::Num(t, *n), M::Char(c) => Value::Char(t, *c), M::Str(s) => Value::String(t, s.clone()),
        M::Bytes(b) => Value::Array(t, b.iter().map(|b| Value::Num(t, Num::U8(*b))).collect()),
        M::Unit | M::UnitStruct => Value::Empty(t, Empty::Unit), M::None => Value::Empty(t, Empty::None),
        M::Some(m) | M::Newtype(m) => tree(m),
        M::Seq(v) | M::Tuple(v) | M::TupleStruct(v) => arr(v),
        M::Map(v) => Value::Dict(t, v.iter().map(|(k, m)| (k.clone(), tree(m))).collect()),
        M::Struct(v) => fields(v),
        M::UnitVar(k) => Value::String(t, vnames()[*k].into()), M::NewVar(k, m) => under(*k, tree(m)), M::TupleVar(k, v) => under(*k, arr(v)), M::StructVar(k, v) => under(*k, fields(v)),
    }
}
pub fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::String(_, a), Value::String(_, b)) => a == b, (Value::Char(_, a), Value::Char(_, b)) => a == b, (Value::Bool(_, a), Value::Bool(_, b)) => a == b,
        (Value::Num(_, a), Value::Num(_, b)) => num_bits(a) == num_bits(b),
        (Value::Empty(_, a), Value::Empty(_, b)) => matches!((a, b), (Empty::None, Empty::None) | (Empty::Unit, Empty::Unit)),
        (Value::Dict(_, a), Value::Dict(_, b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).map_or(false, |w| same(v, w))),
        (Value::Array(_, a), Value::Array(_, b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
        _ => false,
    }
}

impl Serialize for M {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            M::Bool(b) => s.serialize_bool(*b),
            M::Num(n) => match *n {
                Num::U8(v) => s.serialize_u8(v), Num::U16(v) => s.serialize_u16(v), Num::U32(v) => s.serialize_u32(v), Num::U64(v) => s.serialize_u64(v), Num::U128(v) => s.serialize_u128(v), Num::USize(v) => s.serialize_u64(v as u64),
                Num::I8(v) => s.serialize_i8(v), Num::I16(v) => s.serialize_i16(v), Num::I32(v) => s.serialize_i32(v), Num::I64(v) => s.serialize_i64(v), Num::I128(v) => s.serialize_i128(v), Num::ISize(v) => s.serialize_i64(v as i64),
                Num::F32(v) => s.serialize_f32(v), Num::F64(v) => s.serialize_f64(v),
            },
            M::Char(c) => s.serialize_char(*c), M::Str(x) => s.serialize_str(x), M::Bytes(b) => s.serialize_bytes(b), M::Unit => s.serialize_unit(), M::UnitStruct => s.serialize_unit_struct("US"),
            M::None => s.serialize_none(), M::Some(m) => s.serialize_some(&**m),
            M::Seq(v) => { let mut q = s.serialize_seq(if v.len() % 2 == 0 { Some(v.len()) } else { None })?; for m in v { q.serialize_element(m)?; } q.end() }
            M::Tuple(v) => { let mut q = s.serialize_tuple(v.len())?; for m in v { q.serialize_element(m)?; } q.end() }
            M::TupleStruct(v) => { let mut q = s.serialize_tuple_struct("TS", v.len())?; for m in v { q.serialize_field(m)?; } q.end() }
            M::Newtype(m) => s.serialize_newtype_struct("NT", &**m),
            M::Map(v) => { let mut q = s.serialize_map(if v.len() % 2 == 0 { Some(v.len()) } else { None })?; for (i, (k, m)) in v.iter().enumerate() { if i % 2 == 0 { q.serialize_entry(k, m)?; } else { q.serialize_key(k)?; q.serialize_value(m)?; } } q.end() }
            M::Struct(v) => { let mut q = s.serialize_struct("ST", v.len())?; for (i, m) in v.iter().enumerate() { q.serialize_field(fnames()[i], m)?; } q.end() }
            M::UnitVar(k) => s.serialize_unit_variant("EN", *k as u32, vnames()[*k]),
            M::NewVar(k, m) => s.serialize_newtype_variant("EN", *k as u32, vnames()[*k], &**m),
            M::TupleVar(k, v) => { let mut q = s.serialize_tuple_variant("EN", *k as u32, vnames()[*k], v.len())?; for m in v { q.serialize_field(m)?; } q.end() }
            M::StructVar(k, v) => { let mut q = s.serialize_struct_variant("EN", *k as u32, vnames()[*k], v.len())?; for (i, m) in v.iter().enumerate() { q.serialize_field(fnames()[i], m)?; } q.end() }
        }
    }
}

// ---- type-directed deserialization, as serde's derive does it
pub struct Want<'t>(pub &'t Ty);
struct Fields<'t>(&'t [Ty], usize);     // 0 tuple, 1 tuple struct, 2 struct
struct Name(&'static [&'static str], usize);

impl<'de, 't> DeserializeSeed<'de> for Want<'t> {
    type Value = M;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<M, D::Error> {
        Ok(match self.0 {
            Ty::Bool => M::Bool(bool::deserialize(d)?),
            Ty::U8 => M::Num(Num::U8(u8::deserialize(d)?)), Ty::U16 => M::Num(Num::U16(u16::deserialize(d)?)), Ty::U32 => M::Num(Num::U32(u32::deserialize(d)?)), Ty::U64 => M::Num(Num::U64(u64::deserialize(d)?)), Ty::U128 => M::Num(Num::U128(u128::deserialize(d)?)),
            Ty::I8 => M::Num(Num::I8(i8::deserialize(d)?)), Ty::I16 => M::Num(Num::I16(i16::deserialize(d)?)), Ty::I32 => M::Num(Num::I32(i32::deserialize(d)?)), Ty::I64 => M::Num(Num::I64(i64::deserialize(d)?)), Ty::I128 => M::Num(Num::I128(i128::deserialize(d)?)),
            Ty::F32 => M::Num(Num::F32(f32::deserialize(d)?)), Ty::F64 => M::Num(Num::F64(f64::deserialize(d)?)),
            Ty::Char => M::Char(char::deserialize(d)?), Ty::Str => M::Str(String::deserialize(d)?), Ty::Bytes => d.deserialize_bytes(BytesV)?,
            Ty::Unit => { <()>::deserialize(d)?; M::Unit }
            Ty::UnitStruct => d.deserialize_unit_struct("US", UnitV)?,
            Ty::Opt(t) => d.deserialize_option(OptV(t))?,
            Ty::Seq(t) => d.deserialize_seq(SeqV(t))?,
            Ty::Tuple(v) => d.deserialize_tuple(v.len(), Fields(v, 0))?, Ty::TupleStruct(v) => d.deserialize_tuple_struct("TS", v.len(), Fields(v, 1))?,
            Ty::Newtype(t) => d.deserialize_newtype_struct("NT", NewV(t))?,
            Ty::Map(t) => d.deserialize_map(MapV(t))?,
            Ty::Struct(v) => d.deserialize_struct("ST", &fnames()[..v.len()], Fields(v, 2))?,
            Ty::Enum(v) => d.deserialize_enum("EN", &vnames()[..v.len()], EnumV(v))?,
        })
    }
}
struct BytesV;
impl<'de> Visitor<'de> for BytesV {
    type Value = M;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("bytes") }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<M, A::Error> { let mut v = vec![]; while let Some(b) = a.next_element()? { v.push(b); } Ok(M::Bytes(v)) }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<M, E> { Ok(M::Bytes(v.to_vec())) }
}
struct UnitV;
impl<'de> Visitor<'de> for UnitV { type Value = M; fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("unit struct US") } fn visit_unit<E>(self) -> Result<M, E> { Ok(M::UnitStruct) } }
struct OptV<'t>(&'t Ty);
impl<'de, 't> Visitor<'de> for OptV<'t> {
    type Value = M;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("option") }
    fn visit_unit<E>(self) -> Result<M, E> { Ok(M::None) }
    fn visit_none<E>(self) -> Result<M, E> { Ok(M::None) }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<M, D::Error> { Ok(M::Some(Box::new(Want(self.0).deserialize(d)?))) }
}
struct SeqV<'t>(&'t Ty);
impl<'de, 't> Visitor<'de> for SeqV<'t> {
    type Value = M;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a sequence") }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<M, A::Error> { let mut v = vec![]; while let Some(m) = a.next_element_seed(Want(self.0))? { v.push(m); } Ok(M::Seq(v)) }
}
struct NewV<'t>(&'t Ty);
impl<'de, 't> Visitor<'de> for NewV<'t> {
    type Value = M;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("tuple struct NT") }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<M, D::Error> { Ok(M::Newtype(Box::new(Want(self.0).deserialize(d)?))) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<M, A::Error> { match a.next_element_seed(Want(self.0))? { Some(m) => Ok(M::Newtype(Box::new(m))), None => Err(de::Error::invalid_length(0, &"NT")) } }
}
struct MapV<'t>(&'t Ty);
impl<'de, 't> Visitor<'de> for MapV<'t> {
    type Value = M;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a map") }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<M, A::Error> { let mut v = vec![]; while let Some(k) = a.next_key::<String>()? { v.push((k, a.next_value_seed(Want(self.0))?)); } v.sort_by(|a, b| a.0.cmp(&b.0)); Ok(M::Map(v)) }
}
fn made(v: Vec<M>, k: usize) -> M { match k { 0 => M::Tuple(v), 1 => M::TupleStruct(v), _ => M::Struct(v) } }
impl<'de, 't> Visitor<'de> for Fields<'t> {
    type Value = M;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(["a tuple", "tuple struct TS", "struct ST"][self.1]) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<M, A::Error> {
        let mut v = vec![];
        for (i, t) in self.0.iter().enumerate() { match a.next_element_seed(Want(t))? { Some(m) => v.push(m), None => return Err(de::Error::invalid_length(i, &"more")) } }
        Ok(made(v, self.1))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<M, A::Error> {
        if self.1 != 2 { return Err(de::Error::invalid_type(de::Unexpected::Map, &self)); }
        let mut v: Vec<Option<M>> = vec![None; self.0.len()];
        while let Some(i) = a.next_key_seed(Name(fnames(), self.0.len()))? {
            match i { Some(i) if v[i].is_some() => return Err(de::Error::duplicate_field(fnames()[i])), Some(i) => v[i] = Some(a.next_value_seed(Want(&self.0[i]))?), None => { a.next_value::<de::IgnoredAny>()?; } }
        }
        let mut out = vec![];
        for (i, m) in v.into_iter().enumerate() {
            out.push(match m { Some(m) => m, None if matches!(self.0[i], Ty::Opt(_)) => M::None, None => return Err(de::Error::missing_field(fnames()[i])) });
        }
        Ok(made(out, 2))
    }
}
impl<'de> DeserializeSeed<'de> for Name { type Value = Option<usize>; fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Option<usize>, D::Error> { d.deserialize_identifier(self) } }
impl<'de> Visitor<'de> for Name {
    type Value = Option<usize>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("identifier") }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Option<usize>, E> { Ok(if (v as usize) < self.1 { Some(v as usize) } else { None }) }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Option<usize>, E> { Ok(self.0[..self.1].iter().position(|f| *f == v)) }
}
struct EnumV<'t>(&'t [Var]);
impl<'de, 't> Visitor<'de> for EnumV<'t> {
    type Value = M;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("enum EN") }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<M, A::Error> {
        let (i, v) = a.variant_seed(VarName(self.0.len()))?;
        Ok(match &self.0[i] {
            Var::Unit => { v.unit_variant()?; M::UnitVar(i) }
            Var::New(t) => M::NewVar(i, Box::new(v.newtype_variant_seed(Want(t))?)),
            Var::Tuple(t) => match v.tuple_variant(t.len(), Fields(t, 0))? { M::Tuple(x) => M::TupleVar(i, x), _ => unreachable!() },
            Var::Struct(t) => match v.struct_variant(&fnames()[..t.len()], Fields(t, 2))? { M::Struct(x) => M::StructVar(i, x), _ => unreachable!() },
        })
    }
}
struct VarName(usize);
impl<'de> DeserializeSeed<'de> for VarName { type Value = usize; fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<usize, D::Error> { d.deserialize_identifier(self) } }
impl<'de> Visitor<'de> for VarName {
    type Value = usize;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("variant identifier") }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<usize, E> { if (v as usize) < self.0 { Ok(v as usize) } else { Err(E::invalid_value(de::Unexpected::Unsigned(v), &"variant index")) } }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<usize, E> { vnames()[..self.0].iter().position(|f| *f == v).ok_or_else(|| E::unknown_variant(v, vnames())) }
}

thread_local! { static TY: RefCell<Ty> = RefCell::new(Ty::Unit); }
/// a value of the type last given to `with_ty`
#[derive(Debug, PartialEq, Clone)]
pub struct Dyn(pub M);
impl<'de> Deserialize<'de> for Dyn { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Dyn, D::Error> { let t = TY.with(|t| t.borrow().clone()); Want(&t).deserialize(d).map(Dyn) } }
pub fn with_ty<T>(t: &Ty, f: impl FnOnce() -> T) -> T { TY.with(|x| *x.borrow_mut() = t.clone()); f() }
pub fn is_struct(t: &Ty) -> bool { matches!(t, Ty::Struct(_) | Ty::Map(_)) }
pub fn as_dict(v: &Value) -> Option<&Dict> { v.as_dict() }

//! An independent model of value trees with explicit provenance.
use crate::util::Rng;
use figment::value::{Dict, Empty, Map, Num, Tag, Value};
use figment::{Error, Metadata, Profile, Provider};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Leaf(usize, Leaf),
    Dict(usize, BTreeMap<String, T>),
    Arr(usize, Vec<T>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Leaf { S(String), C(char), B(bool), U8(u8), U64(u64), I32(i32), I64(i64), F(f64), U128(u128), None, Unit }

pub type TD = BTreeMap<String, T>;
/// provider data: folded profile name -> tree
pub type TP = BTreeMap<String, TD>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op { Join, Adjoin, Merge, Admerge }
pub const OPS: [Op; 4] = [Op::Join, Op::Adjoin, Op::Merge, Op::Admerge];
impl Op {
    pub fn keeps(self) -> bool { matches!(self, Op::Join | Op::Adjoin) }
    pub fn concats(self) -> bool { matches!(self, Op::Adjoin | Op::Admerge) }
    pub fn apply<P: Provider>(self, f: figment::Figment, p: P) -> figment::Figment {
        match self { Op::Join => f.join(p), Op::Adjoin => f.adjoin(p), Op::Merge => f.merge(p), Op::Admerge => f.admerge(p) }
    }
}

impl T {
    pub fn src(&self) -> usize { match self { T::Leaf(s, _) | T::Dict(s, _) | T::Arr(s, _) => *s } }
    pub fn set_src(&mut self, n: usize) {
        match self {
            T::Leaf(s, _) => *s = n,
            T::Dict(s, d) => { *s = n; for v in d.values_mut() { v.set_src(n) } }
            T::Arr(s, d) => { *s = n; for v in d.iter_mut() { v.set_src(n) } }
        }
    }
    pub fn value(&self) -> Value {
        match self {
            T::Leaf(_, l) => l.value(),
            T::Dict(_, d) => Value::Dict(Tag::Default, dict(d)),
            T::Arr(_, v) => Value::Array(Tag::Default, v.iter().map(|t| t.value()).collect()),
        }
    }
    /// strict structural equality with a figment value (number widths included, tags excluded)
    pub fn same(&self, v: &Value) -> bool {
        match (self, v) {
            (T::Leaf(_, l), v) => l.same(v),
            (T::Dict(_, d), Value::Dict(_, e)) => same_dict(d, e),
            (T::Arr(_, a), Value::Array(_, b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y)),
            _ => false,
        }
    }
    pub fn show(&self) -> String {
        match self {
            T::Leaf(s, l) => format!("{:?}@{}", l, s),
            T::Dict(s, d) => format!("{}@{}", show(d), s),
            T::Arr(s, a) => format!("[{}]@{}", a.iter().map(|t| t.show()).collect::<Vec<_>>().join(","), s),
        }
    }
}

pub fn show(d: &TD) -> String { format!("{{{}}}", d.iter().map(|(k, v)| format!("{:?}:{}", k, v.show())).collect::<Vec<_>>().join(",")) }
pub fn show_p(d: &TP) -> String { d.iter().map(|(k, v)| format!("<{}>{}", k, show(v))).collect::<Vec<_>>().join(" ") }
pub fn dict(d: &TD) -> Dict { d.iter().map(|(k, v)| (k.clone(), v.value())).collect() }
pub fn pmap(p: &TP) -> Map<Profile, Dict> { p.iter().map(|(k, d)| (Profile::new(k), dict(d))).collect() }
pub fn same_dict(d: &TD, e: &Dict) -> bool {
    d.len() == e.len() && d.iter().all(|(k, t)| e.get(k).map_or(false, |v| t.same(v)))
}

impl Leaf {
    pub fn value(&self) -> Value {
        let t = Tag::Default;
        match self {
            Leaf::S(s) => Value::String(t, s.clone()), Leaf::C(c) => Value::Char(t, *c), Leaf::B(b) => Value::Bool(t, *b),
            Leaf::U8(n) => Value::Num(t, Num::U8(*n)), Leaf::U64(n) => Value::Num(t, Num::U64(*n)), Leaf::I32(n) => Value::Num(t, Num::I32(*n)),
            Leaf::I64(n) => Value::Num(t, Num::I64(*n)), Leaf::F(f) => Value::Num(t, Num::F64(*f)), Leaf::U128(n) => Value::Num(t, Num::U128(*n)),
            Leaf::None => Value::Empty(t, Empty::None), Leaf::Unit => Value::Empty(t, Empty::Unit),
        }
    }
    pub fn same(&self, v: &Value) -> bool {
        match (self, v) {
            (Leaf::S(a), Value::String(_, b)) => a == b,
            (Leaf::C(a), Value::Char(_, b)) => a == b,
            (Leaf::B(a), Value::Bool(_, b)) => a == b,
            (Leaf::U8(a), Value::Num(_, Num::U8(b))) => a == b,
            (Leaf::U64(a), Value::Num(_, Num::U64(b))) => a == b,
            (Leaf::U128(a), Value::Num(_, Num::U128(b))) => a == b,
            (Leaf::I32(a), Value::Num(_, Num::I32(b))) => a == b,
            (Leaf::I64(a), Value::Num(_, Num::I64(b))) => a == b,
            (Leaf::F(a), Value::Num(_, Num::F64(b))) => a.to_bits() == b.to_bits(),
            (Leaf::None, Value::Empty(_, Empty::None)) => true,
            (Leaf::Unit, Value::Empty(_, Empty::Unit)) => true,
            _ => false,
        }
    }
}

// ---- the documented conflict table
pub fn c_val(a: &T, b: &T, o: Op) -> T {
    match (a, b) {
        (T::Dict(sa, x), T::Dict(sb, y)) => T::Dict(if o.keeps() { *sa } else { *sb }, c_map(x, y, o)),
        (T::Arr(sa, x), T::Arr(_, y)) if o.concats() => T::Arr(*sa, x.iter().chain(y).cloned().collect()),
        _ => if o.keeps() { a.clone() } else { b.clone() },
    }
}
pub fn c_map(a: &TD, b: &TD, o: Op) -> TD {
    let mut r = TD::new();
    for (k, v) in a { r.insert(k.clone(), match b.get(k) { Some(w) => c_val(v, w, o), None => v.clone() }); }
    for (k, v) in b { if !a.contains_key(k) { r.insert(k.clone(), v.clone()); } }
    r
}
pub fn c_prof(a: &TP, b: &TP, o: Op) -> TP {
    let mut r = TP::new();
    for (k, v) in a { r.insert(k.clone(), match b.get(k) { Some(w) => c_map(v, w, o), None => v.clone() }); }
    for (k, v) in b { if !a.contains_key(k) { r.insert(k.clone(), v.clone()); } }
    r
}
/// layering of profiles on reading
pub fn layered(p: &TP, sel: &str) -> TD {
    let e = TD::new();
    let mut r = p.get("default").unwrap_or(&e).clone();
    if sel != "default" && sel != "global" { r = c_map(&r, p.get(sel).unwrap_or(&e), Op::Merge); }
    c_map(&r, p.get("global").unwrap_or(&e), Op::Merge)
}
pub fn lookup<'a>(d: &'a TD, path: &[&str]) -> Option<&'a T> {
    let mut cur = d.get(path[0])?;
    for k in &path[1..] { match cur { T::Dict(_, d) => cur = d.get(*k)?, _ => return None } }
    Some(cur)
}

// ---- generation
pub const KEYS: [&str; 5] = ["a", "b", "key", "A", "k1"];
pub fn gen_leaf(r: &mut Rng) -> Leaf {
    if let (true, Some(n)) = (r.chance(1, 6), r.odd_int()) {
        return match r.below(5) { 0 => Leaf::U8(n as u8), 1 => Leaf::U64(n as u64), 2 => Leaf::I32(-(n as i32)), 3 => Leaf::F(n as f64), _ => Leaf::I64(n as i64) };
    }
    match r.below(14) {
        12 => Leaf::S(r.odd_text()), 13 => Leaf::C(r.odd_char()),
        0 => Leaf::S("".into()), 1 => Leaf::S(["x", "true", "1", "é", "a.b", "hello world"][r.below(6)].into()), 2 => Leaf::C(*r.pick(&['x', '1', 'é'])),
        3 => Leaf::B(r.chance(1, 2)), 4 => Leaf::U8(r.below(256) as u8), 5 => Leaf::U64(r.next()), 6 => Leaf::I32(r.next() as i32),
        7 => Leaf::I64(r.next() as i64), 8 => Leaf::F((r.next() as i32) as f64 / 8.0), 9 => Leaf::U128((r.next() as u128) << 64 | r.next() as u128),
        10 => Leaf::None, _ => Leaf::Unit,
    }
}
pub fn gen_t(r: &mut Rng, depth: usize) -> T {
    match r.below(if depth == 0 { 3 } else { 8 }) {
        0..=2 => T::Leaf(0, gen_leaf(r)),
        3 | 4 => { let n = if depth > 1 { r.below(4) } else { r.size(4, 40) }; T::Arr(0, (0..n).map(|_| gen_t(r, depth.saturating_sub(1))).collect()) }
        _ => T::Dict(0, gen_d(r, depth - 1)),
    }
}
pub fn gen_key(r: &mut Rng) -> String {
    if r.chance(1, 9) { r.odd() } else { r.pick(&KEYS).to_string() }
}
pub fn gen_prof(r: &mut Rng) -> String {
    if r.chance(1, 12) { r.odd().to_ascii_lowercase() } else if r.chance(1, 12) { let w = *r.pick(&["default", "global"]); r.near(w).replace('.', "").to_ascii_lowercase() } else { r.pick(&PROFILES).to_string() }
}
pub fn gen_d(r: &mut Rng, depth: usize) -> TD {
    let n = if depth > 1 { r.below(5) } else { r.size(5, 20) };
    (0..n).map(|i| (if i > 8 { format!("k{}", i) } else { gen_key(r) }, gen_t(r, depth))).collect()
}
pub const PROFILES: [&str; 5] = ["default", "global", "debug", "release", "other"];
pub fn gen_p(r: &mut Rng, depth: usize) -> TP {
    let n = 1 + r.below(4);
    (0..n).map(|_| (gen_prof(r), gen_d(r, depth))).collect()
}
pub fn recase(r: &mut Rng, s: &str) -> String {
    s.chars().map(|c| if r.chance(1, 4) { c.to_ascii_uppercase() } else { c }).collect()
}

/// every path (dictionary components only) in a tree, shortest first
pub fn paths(d: &TD) -> Vec<Vec<String>> {
    let mut out = vec![];
    fn go(d: &TD, pre: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
        for (k, v) in d {
            pre.push(k.clone());
            out.push(pre.clone());
            if let T::Dict(_, e) = v { go(e, pre, out); }
            pre.pop();
        }
    }
    go(d, &mut vec![], &mut out);
    out
}

#[derive(Clone)]
pub struct TestP { pub id: usize, pub data: Result<TP, String>, pub sel: Option<String>, pub casing: u64 }
impl Provider for TestP {
    fn metadata(&self) -> Metadata { Metadata::named(format!("p{}", self.id)).source(format!("src{}", self.id)) }
    fn data(&self) -> Result<Map<Profile, Dict>, Error> {
        let mut r = Rng::new(self.casing);
        match &self.data {
            Ok(p) => Ok(p.iter().map(|(k, d)| (Profile::new(&if self.casing == 0 { k.clone() } else { recase(&mut r, k) }), dict(d))).collect()),
            Err(e) => Err(Error::from(e.clone())),
        }
    }
    fn profile(&self) -> Option<Profile> { self.sel.as_ref().map(|s| Profile::new(s)) }
}

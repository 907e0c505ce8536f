//! C11 (numeric conversions) and C12 (lossy interpretation).
use crate::shapes::*;
use crate::util::*;
use figment::providers::Serialized;
use figment::value::{Empty, Num, Tag, Value};
use figment::Figment;
use serde::de::DeserializeOwned;
use std::fmt::Debug;

/// mathematical value of an integer: sign and magnitude
#[derive(Clone, Copy, PartialEq, Debug)]
struct Z { neg: bool, mag: u128 }
fn zu(v: u128) -> Z { Z { neg: false, mag: v } }
fn zi(v: i128) -> Z { Z { neg: v < 0, mag: v.unsigned_abs() } }
/// class (0 unsigned, 1 signed, 2 float), integer value
fn math(n: &Num) -> (u8, Option<Z>) {
    match *n {
        Num::U8(v) => (0, Some(zu(v.into()))), Num::U16(v) => (0, Some(zu(v.into()))), Num::U32(v) => (0, Some(zu(v.into()))), Num::U64(v) => (0, Some(zu(v.into()))), Num::U128(v) => (0, Some(zu(v))), Num::USize(v) => (0, Some(zu(v as u128))),
        Num::I8(v) => (1, Some(zi(v.into()))), Num::I16(v) => (1, Some(zi(v.into()))), Num::I32(v) => (1, Some(zi(v.into()))), Num::I64(v) => (1, Some(zi(v.into()))), Num::I128(v) => (1, Some(zi(v))), Num::ISize(v) => (1, Some(zi(v as i128))),
        Num::F32(_) | Num::F64(_) => (2, None),
    }
}
/// the same tree, integers compared by class and value
pub fn same_tree(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Num(_, a), Value::Num(_, b)) => match (math(a), math(b)) { ((2, _), (2, _)) => wide(a).to_bits() == wide(b).to_bits() || wide(a).is_nan() && wide(b).is_nan(), (x, y) => x == y },
        (Value::Dict(_, a), Value::Dict(_, b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).map_or(false, |w| same_tree(v, w))),
        (Value::Array(_, a), Value::Array(_, b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_tree(x, y)),
        _ => same(a, b),
    }
}
fn wide(n: &Num) -> f64 { match *n { Num::F32(v) => v as f64, Num::F64(v) => v, _ => 0.0 } }
pub fn edges() -> Vec<Num> {
    let mut o = vec![];
    let mut mags: Vec<u128> = vec![0, 1, 2, 7];
    for b in [7u32, 8, 15, 16, 23, 24, 31, 32, 52, 53, 63, 64, 100, 126, 127] { for d in [-2i128, -1, 0, 1, 2] { mags.push(((1u128 << b) as i128).wrapping_add(d) as u128); } }
    mags.extend([u128::MAX, u128::MAX - 1, u128::MAX / 3]);
    for &m in &mags {
        o.extend([Num::U8(m as u8), Num::U16(m as u16), Num::U32(m as u32), Num::U64(m as u64), Num::U128(m), Num::USize(m as usize)]);
        for v in [m as i128, (m as i128).wrapping_neg()] { o.extend([Num::I8(v as i8), Num::I16(v as i16), Num::I32(v as i32), Num::I64(v as i64), Num::I128(v), Num::ISize(v as isize)]); }
    }
    for f in [0.0f32, -0.0, 1.0, -1.0, 0.1, 16777217.0, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, f32::INFINITY, f32::NEG_INFINITY, f32::NAN] { o.push(Num::F32(f)); }
    for f in [0.0f64, -0.0, 1.0, -1.0, 0.1, 0.1f32 as f64, 9007199254740993.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::INFINITY, f64::NEG_INFINITY, f64::NAN] { o.push(Num::F64(f)); }
    o.sort_by_key(num_bits);
    o.dedup_by_key(|n| num_bits(n));
    o
}
fn random(r: &mut Rng) -> Num {
    let m = ((r.next() as u128) << 64 | r.next() as u128) >> r.below(128);
    let m = match r.below(6) { 0 => r.odd_int().unwrap_or(m), _ => m };
    match r.below(14) {
        0 => Num::U8(m as u8), 1 => Num::U16(m as u16), 2 => Num::U32(m as u32), 3 => Num::U64(m as u64), 4 => Num::U128(m), 5 => Num::USize(m as usize),
        6 => Num::I8(m as i8), 7 => Num::I16(m as i16), 8 => Num::I32(m as i32), 9 => Num::I64(m as i64), 10 => Num::I128((m as i128).wrapping_neg()), 11 => Num::ISize(m as isize),
        12 => Num::F32(f32::from_bits(m as u32)), _ => Num::F64(f64::from_bits(m as u64)),
    }
}

macro_rules! ints { ($c:ident, $n:ident, $v:ident, $($t:ident $z:ident $w:ident),*) => {$({
    let (class, z) = math(&$n);
    let f = Figment::from(("k", $v.clone()));
    for (route, r) in [("extract_inner", f.extract_inner::<$t>("k")), ("extract_inner_lossy", f.extract_inner_lossy::<$t>("k")), ("Value::deserialize", $v.deserialize::<$t>())] {
        match (&r, z) {
            (Ok(x), Some(z)) => { $c.check(&format!("{} as {}", route, stringify!($t)), $z(*x as $w) == z, || format!("{:?}", z), || format!("{}", x)); }
            (Ok(x), None) => { $c.check(&format!("{} of a float as {}", route, stringify!($t)), false, || "failure".into(), || format!("{}", x)); }
            (Err(e), Some(z)) => {
                let fits = if z.neg { z.mag <= (<$t>::MIN as i128).unsigned_abs() && (<$t>::MIN as i128) < 0 } else { z.mag <= <$t>::MAX as u128 };
                let small = z.mag <= i64::MAX as u128 && !matches!($n, Num::U128(_) | Num::I128(_));
                let own = concat!(stringify!($t), "!") == format!("{}!", name(&$n));
                $c.check(&format!("{} as {}", route, stringify!($t)), !(fits && (small || own)), || format!("{:?}", z), || e.to_string());
            }
            (Err(_), None) => {}
        }
    }
    let _ = class;
})*} }
fn name(n: &Num) -> &'static str { ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64"][num_bits(n).0 as usize] }

fn one(c: &mut Ctx, n: Num) {
    c.case(format!("{:?}", n), true);
    let v = Value::Num(Tag::Default, n);
    let (class, z) = math(&n);
    let w = num_bits(&n).0;
    c.eq("to_u32", if w <= 2 { z } else { None }, n.to_u32().map(|v| zu(v.into())));
    c.eq("to_u128", if class == 0 { z } else { None }, n.to_u128().map(zu));
    c.eq("Value::to_u128", if class == 0 { z } else { None }, v.to_u128().map(zu));
    c.eq("to_i128", if class == 1 { z } else { None }, n.to_i128().map(zi));
    c.eq("Value::to_i128", if class == 1 { z } else { None }, v.to_i128().map(zi));
    c.eq("to_u128_lossy", z.filter(|z| !z.neg), n.to_u128_lossy().map(zu));
    c.eq("to_f64", if class == 2 { Some(wide(&n).to_bits()) } else { None }, n.to_f64().map(f64::to_bits));
    c.eq("Value::to_f64", if class == 2 { Some(wide(&n).to_bits()) } else { None }, v.to_f64().map(f64::to_bits));
    c.eq("to_num", Some(num_bits(&n)), v.to_num().map(|n| num_bits(&n)));
    { use figment::error::Actual::*; let a = n.to_actual(); c.check("to_actual", match (a, class) { (Unsigned(x), 0) => Some(zu(x)) == z, (Signed(x), 1) => Some(zi(x)) == z, (Float(x), 2) => x.to_bits() == wide(&n).to_bits(), _ => false }, || format!("{:?} class {}", z, class), || format!("{:?}", n.to_actual())); }
    ints!(c, n, v, u8 zu u128, u16 zu u128, u32 zu u128, u64 zu u128, u128 zu u128, usize zu u128, i8 zi i128, i16 zi i128, i32 zi i128, i64 zi i128, i128 zi i128, isize zi i128);
    let f = Figment::from(("k", v.clone()));
    if class == 2 { let r = f.extract_inner::<f64>("k"); c.check("extract as f64", matches!(&r, Ok(x) if x.to_bits() == wide(&n).to_bits() || (x.is_nan() && wide(&n).is_nan())), || format!("{:?}", wide(&n)), || format!("{:?}", r)); }
    for (route, r) in [("Value::deserialize to a value", v.deserialize::<Value>()), ("extract as a value", f.extract_inner::<Value>("k")), ("extract_lossy as a value", f.extract_inner_lossy::<Value>("k")), ("extracted with its neighbours", f.extract::<std::collections::BTreeMap<String, Value>>().map(|mut m| m.remove("k").unwrap())), ("read as a list", Figment::from(("k", vec![v.clone()])).extract_inner::<Vec<Value>>("k").map(|mut l| l.remove(0)))] {
        c.check(route, r.as_ref().map_or(false, |r| r.to_num().map_or(false, |m| { let ((ca, za), (cb, zb)) = (math(&n), math(&m)); ca == cb && if ca == 2 { wide(&n).to_bits() == wide(&m).to_bits() || wide(&n).is_nan() } else { za == zb } })), || format!("{:?}", n), || format!("{:?}", r));
    }
    let s = Value::serialize(&v).map(|v| v.to_num().map(|n| num_bits(&n)));
    // a pointer-sized number is serialized as its 64-bit counterpart
    let (w, b) = num_bits(&n);
    let nan = matches!(n, Num::F32(x) if x.is_nan()) || matches!(n, Num::F64(x) if x.is_nan());
    c.check("serialized again", nan || matches!(s, Ok(Some(x)) if x == (match w { 5 => 3, 11 => 9, w => w }, b)), || format!("{:?}", (w, b)), || format!("{:?}", s));
}

pub fn run11(c: &mut Ctx) {
    c.rule("all numbers of the 14 representations around every power-of-two boundary up to 128 bits, through every conversion and every integer target type; equality of all pairs of them; then random numbers; every case is non-trivial");
    let e = edges();
    c.exh(&format!("{} boundary numbers; {} pairs for equality", e.len(), e.len() * e.len()));
    for n in &e { one(c, *n); if c.full() { return; } }
    let eq = |a: &Num, b: &Num| { let (ca, za) = math(a); let (cb, zb) = math(b); ca == cb && if ca == 2 { wide(a) == wide(b) } else { za == zb } };
    let pair = |c: &mut Ctx, a: &Num, b: &Num| {
        c.case(format!("{:?} == {:?}", a, b), true);
        c.eq("equality", eq(a, b), a == b);
        c.eq("equality of values", eq(a, b), Value::from(*a) == Value::from(*b));
    };
    for a in &e { for b in &e { pair(c, a, b); if c.full() { return; } } }
    for _ in 0..c.scale(3000, 100000) {
        let n = random(&mut c.rng);
        one(c, n);
        let b = if c.rng.chance(1, 2) { random(&mut c.rng) } else { match n { Num::U8(v) => Num::I8(v as i8), Num::U64(v) => Num::I64(v as i64), Num::U128(v) => Num::I128(v as i128), Num::U32(v) => Num::U64(v as u64 | 1 << 32), Num::F32(v) => Num::F64(v as f64), Num::I32(v) => Num::U32(v as u32), Num::F64(v) => Num::F32(v as f32), n => Num::U16(num_bits(&n).1 as u16) } };
        pair(c, &n, &b);
        if c.full() { return; }
    }
    // strings that spell integers
    for n in &e { if let (class, Some(z)) = math(n) {
        let s = format!("{}{}", if z.neg { "-" } else { "" }, z.mag);
        c.case(format!("{:?} as a number", s), true);
        let p: Result<Num, _> = s.parse();
        let want = if z.neg { class == 1 } else { true };
        c.check("parsed", matches!(&p, Ok(p) if math(p).1 == Some(z)) || !want, || format!("{:?}", z), || format!("{:?}", p));
        let p: Value = s.parse().unwrap();
        let got = match &p { Value::Num(_, n) => math(n).1, _ => None };
        // the value grammar reads up to the 64-bit types; other spellings stay strings
        c.check("parsed as a value", got == Some(z) || matches!(&p, Value::String(_, t) if *t == s), || format!("{:?}", z), || format!("{:?}", p));
    } }
}

// ---- C12
fn spelled(s: &str) -> Option<(u8, u128)> {
    let t = s.trim();
    if t.contains('.') { return t.parse::<f64>().ok().map(|f| (2, f.to_bits() as u128)); }
    let (neg, digits) = match t.strip_prefix('-') { Some(d) => (true, d), None => (false, t.strip_prefix('+').unwrap_or(t)) };
    if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) { return None; }
    let mut v: u128 = 0;
    for b in digits.bytes() { v = v.checked_mul(10)?.checked_add((b - b'0') as u128)?; }
    if neg { if v > 1 << 127 { return None; } return Some((1, (v as i128).wrapping_neg() as u128)); }
    Some((0, v))
}
fn class_bits(n: &Num) -> (u8, u128) { match num_bits(n) { (w, b) if w <= 5 => (0, b), (w, b) if w <= 11 => (1, b), _ => (2, wide(n).to_bits() as u128) } }
fn bool_of(v: &Value) -> Option<bool> {
    match v {
        Value::Bool(_, b) => Some(*b),
        Value::Num(_, n) => match math(n).1 { Some(Z { neg: false, mag: 0 }) => Some(false), Some(Z { neg: false, mag: 1 }) => Some(true), _ => None },
        Value::String(_, s) => { let s = s.to_ascii_lowercase(); if ["true", "yes", "on", "1"].contains(&&*s) { Some(true) } else if ["false", "no", "off", "0"].contains(&&*s) { Some(false) } else { None } }
        _ => None,
    }
}
const WORDS: [&str; 40] = ["true", "yes", "on", "1", "false", "no", "off", "0", "TRUE", "Yes", "oN", "FALSE", "nO", "oFF", "tru", "truee", " true", "yes ", "01", "00", "+1", "-0", "1.0", "y", "t", "n", "", "ｔrue", "ſ", "enable", "0x1", "١", "oñ", "ON\u{0}", "Ｏn", "İ", "K", "true\u{301}", "null", "off\n"];
const NUMS: [&str; 44] = ["7", " 7", "7 ", "\t7\n", "-7", "- 7", "+7", "--7", "256", "65536", "4294967296", "18446744073709551616", "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "-128", "-129", "-170141183460469231731687303715884105728", "-170141183460469231731687303715884105729", "-0", "007", "1_000", "0x10", "1e5", "1.5", "-1.5", ".5", "5.", "1.5e3", "0.1", "16777217.0", "9007199254740993.0", "1.7976931348623157e308", "1.0e400", "inf", "NaN", "1.2.3", "1,5", "٣", "½", "", " ", ".", "-", "-.5"];

fn lossy_of<T: DeserializeOwned + Debug>(c: &mut Ctx, v: &Value) {
    let f = Figment::from(("k", v.clone()));
    let (s, l) = (f.extract_inner::<T>("k"), f.extract_inner_lossy::<T>("k"));
    if let Ok(x) = &s { c.check(&format!("lossy accepts what strict accepts as {}", std::any::type_name::<T>()), matches!(&l, Ok(y) if format!("{:?}", y) == format!("{:?}", x)), || format!("{:?}", x), || format!("{:?}", l)); }
}
fn val(c: &mut Ctx, v: &Value) {
    c.case(format!("value {:?}", v), bool_of(v).is_some() || matches!(v, Value::Num(..)) || matches!(v, Value::String(_, s) if spelled(s).is_some()));
    c.eq("to_bool_lossy", bool_of(v), v.to_bool_lossy());
    let want = match v { Value::Num(_, n) => Some(class_bits(n)), Value::String(_, s) => spelled(s), _ => None };
    let got = v.to_num_lossy();
    c.eq("to_num_lossy", want, got.map(|n| class_bits(&n)));
    if let Value::Num(_, n) = v { c.eq("a stored number is unchanged", Some(num_bits(n)), got.map(|n| num_bits(&n))); }
    let f = Figment::from(("k", v.clone()));
    let (s, l) = (f.extract_inner::<bool>("k"), f.extract_inner_lossy::<bool>("k"));
    c.check("strict extraction of a bool", match v { Value::Bool(_, b) => matches!(&s, Ok(x) if x == b), _ => s.is_err() }, || "only booleans".into(), || format!("{:?}", s));
    c.check("lossy extraction of a bool", match bool_of(v) { Some(b) => matches!(&l, Ok(x) if *x == b), None => l.is_err() }, || format!("{:?}", bool_of(v)), || format!("{:?}", l));
    macro_rules! num { ($($t:ident),*) => {$({
        let (s, l) = (f.extract_inner::<$t>("k"), f.extract_inner_lossy::<$t>("k"));
        if !matches!(v, Value::Num(..)) { c.check(concat!("strict extraction of a ", stringify!($t)), s.is_err(), || "only numbers".into(), || format!("{:?}", s)); }
        else { c.check(concat!("lossy extraction of a ", stringify!($t)), format!("{:?}", s.as_ref().ok()) == format!("{:?}", l.as_ref().ok()), || format!("{:?}", s), || format!("{:?}", l)); }
        if let (Value::String(..), Some(n)) = (v, got) {
            // the same as extracting that number strictly
            let e = Value::from(n).deserialize::<$t>();
            c.check(concat!("lossy extraction of a spelled ", stringify!($t)), format!("{:?}", e.as_ref().ok()) == format!("{:?}", l.as_ref().ok()), || format!("{:?}", e), || format!("{:?}", l));
        } else if got.is_none() { c.check(concat!("lossy extraction of a ", stringify!($t)), l.is_err(), || "failure".into(), || format!("{:?}", l)); }
    })*} }
    num!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
    // through the magic types and containers the reading is the same
    {
        use figment::value::magic::Tagged;
        let f = Figment::from(("k", figment::util::map!["x" => v.clone(), "y" => Value::from(vec![v.clone()]), "z" => Value::from(figment::util::map!["w" => v.clone()])]));
        macro_rules! route { ($($t:ty),*) => {$({
            #[derive(serde::Deserialize, Debug)] #[allow(dead_code)] struct X { x: Tagged<$t> }
            #[derive(serde::Deserialize, Debug)] struct Y { y: Vec<Tagged<$t>> }
            #[derive(serde::Deserialize, Debug)] struct Z { z: Tagged<std::collections::BTreeMap<String, $t>> }
            let n = stringify!($t);
            for lossy in [false, true] {
                let want = if lossy { f.extract_inner_lossy::<$t>("k.x").ok() } else { f.extract_inner::<$t>("k.x").ok() };
                fn go<T: DeserializeOwned>(f: &Figment, k: &str, lossy: bool) -> Option<T> { if lossy { f.extract_inner_lossy(k).ok() } else { f.extract_inner(k).ok() } }
                let got = [
                    ("Tagged", go::<Tagged<$t>>(&f, "k.x", lossy).map(|t| t.into_inner())),
                    ("Option<Tagged>", go::<Option<Tagged<$t>>>(&f, "k.x", lossy).and_then(|t| t.map(|t| t.into_inner())).filter(|_| !matches!(v, Value::Empty(..)))),
                    ("a field Tagged", go::<X>(&f, "k", lossy).map(|t| t.x.into_inner())),
                    ("a sequence of Tagged", go::<Y>(&f, "k", lossy).and_then(|t| t.y.into_iter().next()).map(|t| t.into_inner())),
                    ("a Tagged map", go::<Z>(&f, "k", lossy).and_then(|t| t.z.into_inner().remove("w"))),
                ];
                for (what, g) in got { c.check(&format!("{} {} as {}", if lossy { "lossy" } else { "strict" }, n, what), format!("{:?}", g) == format!("{:?}", want), || format!("{:?}", want), || format!("{:?}", g)); }
            }
        })*} }
        route!(bool, u8, i64, f64);
    }
    lossy_of::<String>(c, v); lossy_of::<char>(c, v); lossy_of::<Option<String>>(c, v); lossy_of::<Vec<u8>>(c, v); lossy_of::<Option<bool>>(c, v); lossy_of::<Option<u8>>(c, v); lossy_of::<()>(c, v); lossy_of::<Value>(c, v); lossy_of::<std::collections::BTreeMap<String, bool>>(c, v);
    let (s, l) = (f.extract_inner::<Value>("k"), f.extract_inner_lossy::<Value>("k"));
    c.check("lossy extraction of an untyped value", matches!((&s, &l), (Ok(a), Ok(b)) if same(a, b) && (same(a, v) || a == v)), || format!("{:?}", s), || format!("{:?}", l));
}
/// replace booleans and numbers by random spellings of them
fn respell(r: &mut Rng, t: &Ty, v: &mut Value) {
    match (t, &mut *v) {
        (Ty::Bool, Value::Bool(_, b)) => { let s = if *b { ["TrUe", "yes", "ON", "1"] } else { ["false", "nO", "Off", "0"] }; *v = match r.below(6) { 0 => Value::from(*b as u8), 1 => Value::from(*b as i64), 2 => return, _ => Value::from(*r.pick(&s)) } }
        (Ty::U8 | Ty::U16 | Ty::U32 | Ty::U64 | Ty::U128 | Ty::I8 | Ty::I16 | Ty::I32 | Ty::I64 | Ty::I128, Value::Num(_, n)) => {
            let z = math(n).1.unwrap();
            // 128-bit types accept every spelled number, the others those of at most 64 bits
            *v = Value::from(format!("{}{}{}{}", ["", " "][r.below(2)], if z.neg { "-" } else { "" }, z.mag, ["", "\n"][r.below(2)]));
        }
        (Ty::F64, Value::Num(_, Num::F64(f))) if f.is_finite() => *v = Value::from(format!("{:?}", f)).find("").map(|v| match &v { Value::String(_, s) if !s.contains('.') => Value::from(*f), _ => v }).unwrap(),
        (Ty::Opt(t), v) if !matches!(v, Value::Empty(_, Empty::None)) => respell(r, t, v),
        (Ty::Newtype(t), v) => respell(r, t, v),
        (Ty::Seq(t), Value::Array(_, a)) => a.iter_mut().for_each(|v| respell(r, t, v)),
        (Ty::Map(t), Value::Dict(_, d)) => d.values_mut().for_each(|v| respell(r, t, v)),
        (Ty::Tuple(ts) | Ty::TupleStruct(ts), Value::Array(_, a)) => ts.iter().zip(a).for_each(|(t, v)| respell(r, t, v)),
        (Ty::Struct(ts), Value::Dict(_, d)) => ts.iter().enumerate().for_each(|(i, t)| respell(r, t, d.get_mut(fnames()[i]).unwrap())),
        (Ty::Enum(vs), Value::Dict(_, d)) => {
            let (k, v) = d.iter_mut().next().unwrap();
            match (&vs[vnames().iter().position(|x| x == k).unwrap()], v) {
                (Var::New(t), v) => respell(r, t, v),
                (Var::Tuple(ts), Value::Array(_, a)) => ts.iter().zip(a).for_each(|(t, v)| respell(r, t, v)),
                (Var::Struct(ts), Value::Dict(_, d)) => ts.iter().enumerate().for_each(|(i, t)| respell(r, t, d.get_mut(fnames()[i]).unwrap())),
                _ => {}
            }
        }
        _ => {}
    }
}

pub fn run12(c: &mut Ctx) {
    c.rule("words and near-words for booleans, spellings and near-spellings of numbers (with case changes, whitespace, unicode look-alikes), all boundary numbers and every other kind of value against a direct model, strictly and lossily, for every bool and number target; then random values of random types: what strict extraction accepts lossy accepts equally, and booleans and numbers replaced by spellings are recovered by lossy extraction and refused by strict; non-trivial: the value has a lossy reading, or the type contains a boolean or number");
    for w in WORDS.iter().chain(&NUMS) { val(c, &Value::from(*w)); }
    for n in edges() { val(c, &Value::Num(Tag::Default, n)); if c.full() { return; } }
    let t = Tag::Default;
    for v in [Value::Bool(t, true), Value::Bool(t, false), Value::Char(t, '1'), Value::Char(t, 't'), Value::Empty(t, Empty::None), Value::Empty(t, Empty::Unit), Value::from(vec![1u8]), Value::from(vec![true]), Value::from(figment::util::map!["true" => 1]), Value::from(Vec::<u8>::new())] { val(c, &v); }
    for _ in 0..c.scale(4000, 100000) {
        let mut r = Rng(c.rng.next());
        let mut s: String = if r.chance(1, 8) { r.odd_text() } else if r.chance(1, 2) { r.pick(&WORDS).to_string() } else { r.pick(&NUMS).to_string() };
        for _ in 0..r.below(3) {
            let cs: Vec<char> = s.chars().collect();
            let i = r.below(cs.len() + 1);
            s = match r.below(3) { 0 => s.chars().map(|ch| if r.chance(1, 2) { ch.to_ascii_uppercase() } else { ch.to_ascii_lowercase() }).collect(),
                1 => { let mut v = cs; v.insert(i, if r.chance(1, 4) { r.odd_char() } else { *r.pick(&[' ', '0', '1', '.', '-', 'e', '9', '\u{a0}', '٠', 'ſ']) }); v.into_iter().collect() }
                _ => { let mut v = cs; if i < v.len() { v.remove(i); } v.into_iter().collect() } };
        }
        val(c, &Value::from(s));
        if c.full() { return; }
    }
    for i in 0..c.scale(6000, 120000) {
        let mut r = Rng(c.rng.next());
        name_set(if i % 2 == 0 { 0 } else { r.below(4) });
        let d = r.below(4);
        let t = gen_ty(&mut r, d, false);
        let m = gen_m(&mut r, &t);
        let good = tree(&m);
        let mut bad = good.clone();
        respell(&mut r, &t, &mut bad);
        let changed = !same(&good, &bad);
        c.case(format!("type {:?} value {:?}", t, bad), changed);
        let f = Figment::from(Serialized::default("k", &bad));
        let (s, l) = with_ty(&t, || (f.extract_inner::<Dyn>("k"), f.extract_inner_lossy::<Dyn>("k")));
        // 65..127-bit spellings are stored wider than some targets take
        let wide = |l: &Result<Dyn, figment::Error>| l.is_err() && format!("{:?}", m).contains("128(");
        c.check("lossy extraction recovers the value", matches!(&l, Ok(x) if x.0 == m) || wide(&l) || neg_zero(&m), || format!("{:?}", m), || format!("{:?}", l));
        if changed { c.check("strict extraction refuses spellings", s.is_err(), || "failure".into(), || format!("{:?}", s)); } else { c.check("strict and lossy agree", s == l, || format!("{:?}", s), || format!("{:?}", l)); }
        // a random other type: whatever strict accepts
        let t2 = gen_ty(&mut r, d, false);
        let (s, l) = with_ty(&t2, || (f.extract_inner::<Dyn>("k"), f.extract_inner_lossy::<Dyn>("k")));
        if let Ok(x) = &s { c.check("lossy accepts what strict accepts", matches!(&l, Ok(y) if y == x), || format!("{:?}", x), || format!("{:?}", l)); }
        if c.full() { return; }
    }
}
fn neg_zero(m: &M) -> bool { format!("{:?}", m).contains("-0.0") }

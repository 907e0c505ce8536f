//! C10: round trips through figments and value trees.
use crate::shapes::*;
use crate::util::*;
use figment::providers::Serialized;
use figment::value::{Dict, Value};
use figment::{Error, Figment, Profile};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::fmt::Debug;

fn emsg<T: Debug>(r: &Result<T, Error>) -> String { match r { Ok(v) => format!("{:?}", v), Err(e) => format!("Err({})", e) } }

/// one concrete value through every documented route
fn rt<T: Serialize + for<'de> Deserialize<'de> + PartialEq + Debug + Clone>(c: &mut Ctx, v: T) {
    c.case(format!("{} {:?}", std::any::type_name::<T>(), v), true);
    let ok = |r: &Result<T, Error>| matches!(r, Ok(x) if *x == v);
    let f = Figment::new().merge(Serialized::default("some.key", v.clone())).merge(Serialized::default("some.other", 1));
    let routes: Vec<(&str, Result<T, Error>)> = vec![
        ("extract_inner", f.extract_inner("some.key")), ("extract_inner_lossy", f.extract_inner_lossy("some.key")),
        ("extract of an enclosing map", f.extract_inner::<Enc<T>>("some").map(|m| m.key)),
        ("Value round trip", Value::serialize(v.clone()).and_then(|x| x.deserialize())),
        ("through Value and a figment", f.extract_inner::<Value>("some.key").and_then(|x| x.deserialize())),
        ("global", Figment::from(Serialized::global("k", v.clone())).extract_inner("k")),
        ("profile", Figment::from(Serialized::from(v.clone(), "Prof").key("k")).select("prof").extract_inner("k")),
        ("key/value tuple provider", Figment::from(("k", v.clone())).extract_inner("k")),
    ];
    for (name, r) in routes { c.check(name, ok(&r), || format!("{:?}", v), || emsg(&r)); }
}
#[derive(Deserialize)] struct Enc<T> { key: T }

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)] struct Unit;
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)] struct New(u64);
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)] struct Pair(i8, Option<String>);
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)] enum E { A, B(u8), C(i16, String), D { x: f64, y: Vec<E> }, F(Box<E>), G(Option<bool>), H(()), #[serde(rename = "renamed one")] I }
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone, Default)] struct Big { #[serde(rename = "re-name")] a: u128, b: i128, #[serde(default)] c: Vec<(u8, char)>, d: BTreeMap<String, Option<f32>>, e: Option<Box<Big>> }
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)] #[serde(tag = "t", content = "c")] enum Adj { P(u8, u8), Q { z: String }, R }
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)] #[serde(tag = "kind")] enum Int { P { a: u32 }, Q }
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)] #[serde(untagged)] enum Unt { N(i64), S(String), L(Vec<Unt>) }
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)] struct Flat { x: bool, #[serde(flatten)] rest: BTreeMap<String, i32> }
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)] struct Tup { #[serde(with = "figment::util::vec_tuple_map")] v: Vec<(String, i32)> }

fn concrete(c: &mut Ctx) {
    for v in [0u8, 255] { rt(c, v); } for v in [0u16, 256, u16::MAX] { rt(c, v); } for v in [0u32, 65536, u32::MAX] { rt(c, v); } for v in [0u64, 1 << 32, u64::MAX] { rt(c, v); } for v in [0u128, 1 << 64, u128::MAX] { rt(c, v); } for v in [0usize, usize::MAX] { rt(c, v); }
    for v in [i8::MIN, -1, 0, i8::MAX] { rt(c, v); } for v in [i16::MIN, -129, i16::MAX] { rt(c, v); } for v in [i32::MIN, -1, i32::MAX] { rt(c, v); } for v in [i64::MIN, -1, i64::MAX] { rt(c, v); } for v in [i128::MIN, -1, i64::MIN as i128 - 1, i128::MAX] { rt(c, v); } for v in [isize::MIN, isize::MAX] { rt(c, v); }
    for v in [0.0f32, f32::MIN, f32::MAX, f32::INFINITY, 0.1] { rt(c, v); } for v in [0.0f64, f64::MIN, f64::MAX, f64::NEG_INFINITY, 0.1, 1e-310] { rt(c, v); }
    for v in [true, false] { rt(c, v); } for v in ['a', 'é', '\0', '\u{10ffff}', '1'] { rt(c, v); }
    for v in ["", "true", "1", " x ", "a.b", "é\n\t\"\\", "{a=1}", "[1]"] { rt(c, v.to_string()); rt(c, Some(v.to_string())); rt(c, vec![v.to_string()]); }
    rt(c, ()); rt(c, Unit); rt(c, New(7)); rt(c, Some(New(9))); rt(c, Pair(-1, None)); rt(c, Pair(3, Some("x".into()))); rt(c, (1u8, 'c', "s".to_string(), None::<bool>, [1i32, 2, 3])); rt(c, None::<u8>); rt(c, Some(3u8)); rt(c, vec![Some(1), None, Some(3)]);
    rt(c, Vec::<u8>::new()); rt(c, vec![vec![1u8], vec![], vec![2, 3]]); rt(c, VecDeque::from(vec![1, 2])); rt(c, BTreeSet::from([3, 1])); rt(c, [[1u16; 3]; 2]); rt(c, BTreeMap::<String, u8>::new());
    rt(c, BTreeMap::from([("".to_string(), 1), ("a.b".into(), 2), ("É".into(), 3)])); rt(c, HashMap::from([("k".to_string(), BTreeMap::from([('x'.to_string(), vec![1])]))]));
    for v in [E::A, E::B(0), E::C(-5, "q".into()), E::D { x: -0.5, y: vec![E::A, E::D { x: 1.0, y: vec![] }, E::C(1, "".into())] }, E::F(Box::new(E::F(Box::new(E::A)))), E::G(None), E::G(Some(true)), E::H(()), E::I] { rt(c, v.clone()); rt(c, Some(v.clone())); rt(c, vec![v.clone(), E::A]); rt(c, BTreeMap::from([("m".to_string(), v)])); }
    let big = Big { a: u128::MAX, b: i128::MIN, c: vec![(1, 'x'), (2, 'é')], d: BTreeMap::from([("n".into(), None), ("s".into(), Some(1.5))]), e: None };
    rt(c, big.clone()); rt(c, Big { e: Some(Box::new(big)), ..Default::default() });
    rt(c, Adj::P(1, 2)); rt(c, Adj::Q { z: "x".into() }); rt(c, Adj::R); rt(c, Int::P { a: 5 }); rt(c, Int::Q); rt(c, Unt::L(vec![Unt::N(-4), Unt::S("q".into())])); rt(c, Flat { x: true, rest: BTreeMap::from([("p".into(), 1)]) }); rt(c, Tup { v: vec![("a".into(), 1), ("z".into(), 26)] });
    rt(c, Profile::new("Debug")); rt(c, std::path::PathBuf::from("/a/b")); rt(c, std::time::Duration::new(3, 5)); rt(c, Ok::<u8, String>(1)); rt(c, 1u8..5u8); rt(c, Box::new(1u8)); rt(c, std::num::Wrapping(300u16)); rt(c, std::net::IpAddr::from([127, 0, 0, 1]));
    rt(c, Value::from(vec![1u8, 2])); rt(c, Value::from(BTreeMap::from([("a", Value::from('x')), ("b", Value::from(1u128 << 100))])));
}
/// values that are already value trees: every kind of number at every boundary, texts as parsed
fn trees(c: &mut Ctx) {
    use figment::value::{Empty, Num, Tag};
    let mut vs: Vec<Value> = vec![Value::Empty(Tag::Default, Empty::Unit), Value::from("2"), Value::from('2'), Value::from(false)];
    for n in crate::nums::edges() {
        vs.push(Value::Num(Tag::Default, n));
        if let Some(i) = n.to_i128() {
            vs.push(i.to_string().parse().unwrap());
            vs.push(format!("[{}, {{a = {}}}, \"{}\"]", i, i, i).parse().unwrap());
        }
    }
    for v in vs {
        c.case(format!("the value {:?}", v), false);
        let f = Figment::new().merge(Serialized::default("some.key", v.clone()));
        let g = Figment::new().merge(("k", v.clone()));
        let routes: Vec<(&str, Result<Value, Error>)> = vec![("Value::serialize", Value::serialize(&v)), ("find_value", f.find_value("some.key")), ("extract_inner", f.extract_inner("some.key")), ("extract_inner_lossy", g.extract_inner_lossy("k")), ("nested serialize", Value::serialize(vec![&v]).map(|x| x.as_array().unwrap()[0].clone()))];
        for (n, r) in routes { c.check(n, matches!(&r, Ok(x) if crate::nums::same_tree(x, &v)), || format!("{:?}", v), || emsg(&r)); }
    }
}
fn bad_keys(c: &mut Ctx) {
    macro_rules! bad { ($($e:expr),* $(,)?) => {$(
        c.case(format!("map with key {}", stringify!($e)), true);
        let m = HashMap::from([($e, 1u8)]);
        let a = Value::serialize(&m);
        c.check("a key that is not a string is rejected", a.is_err(), || "error".into(), || emsg(&a));
        let b = Figment::from(Serialized::default("k", &m)).extract::<Dict>();
        c.check("a provider with such a map fails", b.is_err(), || "error".into(), || emsg(&b));
        let b = Value::serialize(vec![Some(&m)]);
        c.check("also nested", b.is_err(), || "error".into(), || emsg(&b));
    )*} }
    bad!(1u8, -1i64, 1u128, 'c', true, (), (1, 2), vec![1], None::<u8>, Some(3u8), BTreeMap::from([("a", 1)]), NewK(1), (String::new(),), E2::B("x".into()));
    // keys that serialize as strings are kept
    c.case("string-like keys", true);
    let m = HashMap::from([(E2::A, 1u8)]);
    c.eq("unit variant key", Ok(1), Value::serialize(&m).map_err(|e| e.to_string()).map(|v| v.find_ref("A").and_then(|v| v.to_u128()).unwrap_or(99)));
    let m = HashMap::from([(Some(NewS("q".into())), 2u8)]);
    c.eq("newtype string key", Ok(2), Value::serialize(&m).map_err(|e| e.to_string()).map(|v| v.find_ref("q").and_then(|v| v.to_u128()).unwrap_or(99)));
}
#[derive(Serialize, Hash, PartialEq, Eq)] struct NewK(u8);
#[derive(Serialize, Hash, PartialEq, Eq)] struct NewS(String);
#[derive(Serialize, Hash, PartialEq, Eq)] enum E2 { A, B(String) }

pub fn run(c: &mut Ctx) {
    c.rule("about 200 concrete values of ordinary and derived types through eight routes, 14 kinds of non-string map keys; then random types of serde's data model (depth <= 4, every shape, option not directly around unit or option) with random values, serialized and compared with the value tree they must become, and read back by type-directed deserialization through figment and value; non-trivial: the type is compound");
    concrete(c);
    bad_keys(c);
    trees(c);
    for i in 0..c.scale(20000, 400000) {
        let mut r = Rng(c.rng.next());
        name_set(if i % 2 == 0 { 0 } else { r.below(4) });
        let d = 1 + r.below(4);
        let t = gen_ty(&mut r, d, false);
        let m = gen_m(&mut r, &t);
        c.case(format!("names {:?} type {:?} value {:?}", (fnames(), vnames()), t, m), matches!(t, Ty::Opt(_) | Ty::Seq(_) | Ty::Tuple(_) | Ty::TupleStruct(_) | Ty::Newtype(_) | Ty::Map(_) | Ty::Struct(_) | Ty::Enum(_)));
        let want = tree(&m);
        let v = match guard(c, "serialize", || Value::serialize(&m)) { Some(Ok(v)) => v, Some(Err(e)) => { c.check("serialize", false, || format!("{:?}", want), || e.to_string()); continue; } None => continue };
        if !c.check("the value tree", same(&want, &v), || format!("{:?}", want), || format!("{:?}", v)) { if c.full() { break; } continue; }
        let back = guard(c, "Value::deserialize", || with_ty(&t, || v.deserialize::<Dyn>()));
        if let Some(b) = &back { c.check("Value::deserialize", matches!(b, Ok(x) if x.0 == m), || format!("{:?}", m), || emsg(b)); }
        let key = ["k", "a.b", "x.y.z"][r.below(3)];
        let prof = ["default", "global", "Custom"][r.below(3)];
        let mut f = Figment::new().merge(Serialized::default("zz", 1));
        if i % 3 == 0 { f = f.merge(Serialized::default(key, "something else")); }
        f = f.merge(Serialized::from(&m, prof).key(key)).join(Serialized::default("other.k", vec![1])).select(prof);
        if i % 2 == 0 { f = f.join(Serialized::from(BTreeMap::from([(key.split('.').next().unwrap(), 7)]), prof)); }
        for lossy in [false, true] {
            let got = guard(c, "extract", || with_ty(&t, || if lossy { f.extract_inner_lossy::<Dyn>(key) } else { f.extract_inner::<Dyn>(key) }));
            if let Some(g) = got { c.check(if lossy { "extract_inner_lossy" } else { "extract_inner" }, matches!(&g, Ok(x) if x.0 == m), || format!("{:?}", m), || emsg(&g)); }
        }
        let fv = f.find_value(key);
        c.check("find_value", fv.as_ref().map_or(false, |v| same(&want, v)), || format!("{:?}", want), || emsg(&fv));
        let ev = f.extract_inner::<Value>(key);
        c.check("extract as Value", ev.as_ref().map_or(false, |v| same(&want, v)), || format!("{:?}", want), || emsg(&ev));
        // without a key: only dictionaries can be whole providers
        let whole = with_ty(&t, || Figment::from(Serialized::defaults(&m)).extract::<Dyn>());
        match want { Value::Dict(..) => { c.check("whole provider", matches!(&whole, Ok(x) if x.0 == m), || format!("{:?}", m), || emsg(&whole)); }
            _ => { c.check("a provider that is not a map is refused", whole.is_err(), || "error".into(), || emsg(&whole)); } }
        if c.full() { break; }
    }
}

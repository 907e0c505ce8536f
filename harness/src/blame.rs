//! C13: what an extraction error says about the offending value.
use crate::shapes::*;
use crate::util::*;
use figment::error::{Error, Kind};
use figment::providers::Serialized;
use figment::value::{Dict, Map, Num, Tag, Value};
use figment::{Figment, Metadata, Profile, Provider};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
enum Fault { Type, Missing(&'static str), Short, Variant, Range }

/// every position of the tree at which extraction can be made to fail, with the fault
fn spots(t: &Ty, v: &Value, here: &mut Vec<String>, out: &mut Vec<(Vec<String>, Fault)>) {
    let kids = |ts: &[Ty], v: &Value, here: &mut Vec<String>, out: &mut Vec<(Vec<String>, Fault)>| {
        if let Value::Array(_, a) = v { for (i, (t, v)) in ts.iter().zip(a).enumerate() { here.push(i.to_string()); spots(t, v, here, out); here.pop(); } }
        if let Value::Dict(_, d) = v { for (i, t) in ts.iter().enumerate() { if let Some(v) = d.get(fnames()[i]) { here.push(fnames()[i].into()); spots(t, v, here, out); here.pop(); } if !matches!(t, Ty::Opt(_)) { out.push((here.clone(), Fault::Missing(fnames()[i]))); } } }
    };
    match t {
        Ty::Opt(t) => if !matches!(v, Value::Empty(..)) { spots(t, v, here, out) },
        Ty::Newtype(t) => spots(t, v, here, out),
        Ty::Bytes => out.push((here.clone(), Fault::Type)),
        Ty::Seq(t) => { out.push((here.clone(), Fault::Type)); if let Value::Array(_, a) = v { for (i, v) in a.iter().enumerate() { here.push(i.to_string()); spots(t, v, here, out); here.pop(); } } }
        Ty::Map(t) => { out.push((here.clone(), Fault::Type)); if let Value::Dict(_, d) = v { for (k, v) in d { here.push(k.clone()); spots(t, v, here, out); here.pop(); } } }
        Ty::Tuple(ts) | Ty::TupleStruct(ts) => { out.push((here.clone(), Fault::Type)); if !ts.is_empty() { out.push((here.clone(), Fault::Short)); } kids(ts, v, here, out); }
        Ty::Struct(ts) => { out.push((here.clone(), Fault::Type)); kids(ts, v, here, out); }
        Ty::Enum(vs) => {
            out.push((here.clone(), Fault::Type));
            out.push((here.clone(), Fault::Variant));
            if let Value::Dict(_, d) = v {
                let (k, v) = d.iter().next().unwrap();
                here.push(k.clone());
                match &vs[vnames().iter().position(|x| x == k).unwrap()] {
                    Var::Unit => {}
                    Var::New(t) => spots(t, v, here, out),
                    Var::Tuple(ts) => { out.push((here.clone(), Fault::Type)); if !ts.is_empty() { out.push((here.clone(), Fault::Short)); } kids(ts, v, here, out); }
                    Var::Struct(ts) => { out.push((here.clone(), Fault::Type)); kids(ts, v, here, out); }
                }
                here.pop();
            }
        }
        Ty::U8 | Ty::I8 | Ty::U16 | Ty::I16 | Ty::U32 | Ty::I32 => { out.push((here.clone(), Fault::Type)); out.push((here.clone(), Fault::Range)); }
        _ => out.push((here.clone(), Fault::Type)),
    }
}
fn at<'v>(v: &'v mut Value, p: &[String]) -> &'v mut Value {
    if p.is_empty() { return v; }
    match v { Value::Dict(_, d) => at(d.get_mut(&p[0]).unwrap(), &p[1..]), Value::Array(_, a) => at(&mut a[p[0].parse::<usize>().unwrap()], &p[1..]), _ => unreachable!() }
}
fn spoil(v: &mut Value, f: &Fault) {
    let t = Tag::Default;
    match f {
        Fault::Type => *v = if matches!(v, Value::Bool(..)) { Value::Num(t, Num::U8(7)) } else { Value::Bool(t, true) },
        Fault::Missing(k) => { if let Value::Dict(_, d) = v { d.remove(*k); } }
        Fault::Short => { if let Value::Array(_, a) = v { a.pop(); } }
        Fault::Variant => *v = Value::String(t, "no such variant".into()),
        Fault::Range => *v = Value::Num(t, Num::I64(1 << 40)),
    }
}

struct P { name: String, prof: String, data: Dict }
impl Provider for P {
    fn metadata(&self) -> Metadata { Metadata::named(self.name.clone()) }
    fn data(&self) -> Result<Map<Profile, Dict>, Error> { Ok(Profile::new(&self.prof).collect(self.data.clone())) }
}
fn wrap(p: &[String], v: Value) -> Value { p.iter().rev().fold(v, |v, k| Value::Dict(Tag::Default, std::iter::once((k.clone(), v)).collect())) }
fn plain(k: &str) -> bool { !k.is_empty() && !k.contains('.') }

fn kind_ok(f: &Fault, k: &Kind) -> bool {
    match f {
        Fault::Type => matches!(k, Kind::InvalidType(..)), Fault::Missing(n) => matches!(k, Kind::MissingField(m) if m == n), Fault::Short => matches!(k, Kind::InvalidLength(..)),
        Fault::Variant => matches!(k, Kind::UnknownVariant(v, _) if v == "no such variant"), Fault::Range => matches!(k, Kind::InvalidValue(..) | Kind::InvalidType(..)),
    }
}

pub fn run(c: &mut Ctx) {
    c.rule("random struct types (every serde shape, depth <= 4) with a random value, one fault (wrong type, missing field, short tuple, unknown variant, integer out of range) at a random position of the tree; the faulty subtree is supplied by a second provider in the default, global or selected custom profile; extraction of the whole, of sub-keys and of focused sub-trees, strict and lossy: kind, path, metadata name and profile compared; one wrong element in long arrays (up to 5000), wide dictionaries and nests of up to 60 arrays and dictionaries; non-trivial: the fault is at depth >= 2");
    keys(c);
    big(c);
    for _ in 0..c.scale(8000, 150000) {
        let mut r = Rng(c.rng.next());
        let d = 1 + r.below(4);
        let n = 1 + r.below(3);
        let t = Ty::Struct((0..n).map(|_| gen_ty(&mut r, d, false)).collect());
        let m = gen_m(&mut r, &t);
        let good = tree(&m);
        let mut all = vec![];
        spots(&t, &good, &mut vec![], &mut all);
        if all.is_empty() { continue; }
        for _ in 0..2 {
            let (path, fault) = r.pick(&all).clone();
            if path.is_empty() && matches!(fault, Fault::Type) { continue; }
            let mut bad = good.clone();
            spoil(at(&mut bad, &path), &fault);
            // the dictionary part of the path, at which a provider can come in
            let mut v = &bad;
            let mut dicts = 0;
            for k in &path { match v { Value::Dict(_, d) => { dicts += 1; v = match d.get(k) { Some(v) => v, None => break } } _ => break } }
            let k = if dicts == 0 { 0 } else { r.below(dicts + 1) };
            let sub = at(&mut bad.clone(), &path[..k]).clone();
            // a provider that supplies only what the faulty subtree replaces must not leave a field behind
            let keep = match (&fault, k == path.len()) { (Fault::Missing(_), _) => false, _ => true };
            let base = if keep { good.clone() } else { bad.clone() };
            let prof = *r.pick(&["default", "global", "custom"]);
            // the wrapped tree lies under an outer key half of the time
            let outer: Vec<String> = if r.chance(1, 2) { vec!["outer".into(), "in ner".into()] } else { vec![] };
            // dictionaries replaced by other kinds merge as wholes; a dictionary replaced by a dictionary would be unioned
            let f0 = Figment::new().merge(P { name: "first".into(), prof: "default".into(), data: wrap(&outer, base).into_dict().unwrap() });
            let f = f0.merge(P { name: "second".into(), prof: prof.into(), data: match wrap(&outer, wrap(&path[..k], sub)) { Value::Dict(_, d) => d, _ => continue } }).merge(Serialized::default("unrelated", 1)).select("custom");
            c.case(format!("type {:?} value {:?} fault {:?} at {:?} from {} with profile {} (second provider from depth {}, outer {:?})", t, good, fault, path, "second", prof, k, outer), path.len() >= 2);
            let full: Vec<String> = outer.iter().chain(&path).cloned().collect();
            let root_fault = full.is_empty();
            let want_prof = if root_fault { None } else { Some(prof) };
            let mut chk = |c: &mut Ctx, what: &str, want_path: &[String], e: Result<Dyn, Error>| {
                let e = match e { Err(e) => e, Ok(v) => { c.check(what, false, || "an error".into(), || format!("{:?}", v)); return } };
                let show = || format!("kind {:?} path {:?} from {:?} profile {:?}", e.kind, e.path, e.metadata.as_ref().map(|m| m.name.clone()), e.profile);
                let ok = kind_ok(&fault, &e.kind) && e.path == want_path && e.count() == 1 && e.missing() == matches!(fault, Fault::Missing(_))
                    && want_prof.map_or(true, |p| e.metadata.as_ref().map_or(false, |m| m.name == "second") && e.profile == Some(Profile::new(p)));
                c.check(what, ok, || format!("kind of {:?}, path {:?}, provider second, profile {:?}", fault, want_path, want_prof), show);
            };
            // whole figment
            if outer.is_empty() {
                for lossy in [false, true] { if let Some(e) = guard(c, "extract", || with_ty(&t, || if lossy { f.extract_lossy::<Dyn>() } else { f.extract::<Dyn>() })) { chk(c, if lossy { "extract_lossy" } else { "extract" }, &full, e); } }
            } else {
                #[derive(serde::Deserialize, Debug)] struct O { outer: BTreeMap<String, Dyn> }
                if let Some(e) = guard(c, "extract", || with_ty(&t, || f.extract::<O>().map(|mut o| o.outer.remove("in ner").unwrap()))) { chk(c, "extract of the enclosing struct", &full, e); }
                for lossy in [false, true] { if let Some(e) = guard(c, "extract_inner", || with_ty(&t, || if lossy { f.extract_inner_lossy::<Dyn>("outer.in ner") } else { f.extract_inner::<Dyn>("outer.in ner") })) { chk(c, if lossy { "extract_inner_lossy" } else { "extract_inner" }, &full, e); } }
                if let Some(e) = guard(c, "focus", || with_ty(&t, || f.focus("outer.in ner").extract::<Dyn>())) {
                    // the focused root is not a value of its own
                    if !path.is_empty() { chk(c, "focus + extract", &path, e); } else { c.check("focus + extract", matches!(&e, Err(e) if e.path.is_empty() && kind_ok(&fault, &e.kind)), || "error at the focused root".into(), || format!("{:?}", e)); }
                }
                if let Some(e) = guard(c, "focus", || with_ty(&t, || f.focus("outer").extract_inner::<Dyn>("in ner"))) { chk(c, "focus + extract_inner", &full[1..], e); }
            }
            // each dictionary prefix of the path as a sub-key
            let mut ty = &t;
            let mut pre: Vec<String> = vec![];
            for (i, key) in path.iter().enumerate().take(dicts) {
                ty = match (ty, good_at(&good, &path[..i])) { (Ty::Struct(ts), _) => match fnames().iter().position(|f| f == key) { Some(j) if j < ts.len() => &ts[j], _ => break }, (Ty::Map(t), _) => t, _ => break };
                if !plain(key) { break; }
                pre.push(key.clone());
                let s = outer.iter().chain(&pre).cloned().collect::<Vec<_>>().join(".");
                let lossy = r.chance(1, 2);
                if i >= path.len() { break; }
                let stripped = ty.clone();
                if let Some(e) = guard(c, "extract_inner", || with_ty(&stripped, || if lossy { f.extract_inner_lossy::<Dyn>(&s) } else { f.extract_inner::<Dyn>(&s) })) { chk(c, &format!("extract_inner{}({:?})", if lossy { "_lossy" } else { "" }, s), &full, e); }
                let rest: Vec<String> = path[pre.len()..].to_vec();
                if !rest.is_empty() && matches!(ty, Ty::Struct(_) | Ty::Map(_)) {
                    if let Some(e) = guard(c, "focus", || with_ty(&stripped, || f.focus(&s).extract::<Dyn>())) { chk(c, &format!("focus({:?}).extract", s), &rest, e); }
                }
            }
            // a key that is not there
            for s in ["nope", "unrelated.x", "outer.nope.deeper", "nope.", "nope ", "outer.nope.", "nope..x"] {
                let e = f.extract_inner::<Dict>(s);
                c.check(&format!("extract_inner({:?})", s), matches!(&e, Err(e) if e.missing() && matches!(&e.kind, Kind::MissingField(n) if n == s)), || "missing".into(), || format!("{:?}", e));
            }
            if c.full() { return; }
        }
    }
}
fn good_at<'v>(v: &'v Value, p: &[String]) -> Option<&'v Value> { if p.is_empty() { return Some(v); } match v { Value::Dict(_, d) => good_at(d.get(&p[0])?, &p[1..]), _ => None } }

/// a key that is at fault: the error names the key and the provider of its value
fn keys(c: &mut Ctx) {
    use serde::Deserialize;
    #[derive(Deserialize, Debug)] #[serde(deny_unknown_fields)] #[allow(dead_code)] struct Known { a: Option<u8>, b: Option<u8> }
    #[derive(Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord)] #[allow(non_camel_case_types)] enum Key { a, b }
    for depth in 0..4usize {
        for prof in ["default", "global", "custom"] {
            for second in [true, false] {
                for v in [Value::from(1u8), Value::from("one"), Value::from(vec![1, 2]), Value::from(std::iter::once(("deep".to_string(), Value::from(1u8))).collect::<Dict>()), Value::Empty(Tag::Default, figment::value::Empty::Unit), Value::from(true)] {
                    let outer: Vec<String> = (0..depth).map(|i| ["o ut", "in", "x"][i].to_string()).collect();
                    let d = |k: &str, v: Value| wrap(&outer, Value::Dict(Tag::Default, std::iter::once((k.to_string(), v)).collect())).into_dict().unwrap();
                    let (good, bad) = (P { name: "good".into(), prof: "default".into(), data: d("a", 1u8.into()) }, P { name: "bad".into(), prof: prof.into(), data: d("zz", v.clone()) });
                    let f = if second { Figment::new().merge(good).merge(bad) } else { Figment::new().merge(bad).merge(good) }.select("custom");
                    c.case(format!("an unknown key \"zz\" = {:?} under {:?} of profile {} beside a known one of another provider, bad one second: {}", v, outer, prof, second), depth >= 1);
                    let full: Vec<String> = outer.iter().cloned().chain(["zz".to_string()]).collect();
                    let mut chk = |c: &mut Ctx, what: &str, want: &[String], e: Option<Error>, kind: fn(&Kind) -> bool| {
                        let e = match e { Some(e) => e, None => { c.check(what, false, || "an error".into(), || "success".into()); return } };
                        c.check(what, kind(&e.kind) && e.path == want && e.metadata.as_ref().map_or(false, |m| m.name == "bad") && e.profile == Some(Profile::new(prof)),
                            || format!("path {:?}, provider bad, profile {}", want, prof), || format!("kind {:?} path {:?} from {:?} profile {:?}", e.kind, e.path, e.metadata.as_ref().map(|m| m.name.clone()), e.profile));
                    };
                    let unk: fn(&Kind) -> bool = |k| matches!(k, Kind::UnknownField(n, _) if n == "zz");
                    let unv: fn(&Kind) -> bool = |k| matches!(k, Kind::UnknownVariant(n, _) if n == "zz");
                    if depth == 0 {
                        chk(c, "extract of a struct that denies unknown fields", &full, f.extract::<Known>().err(), unk);
                        chk(c, "extract_lossy of a struct that denies unknown fields", &full, f.extract_lossy::<Known>().err(), unk);
                        chk(c, "extract of a map with enum keys", &full, f.extract::<BTreeMap<Key, Value>>().err(), unv);
                    } else {
                        let key = outer.join(".");
                        chk(c, "extract_inner of a struct that denies unknown fields", &full, f.extract_inner::<Known>(&key).err(), unk);
                        chk(c, "extract_inner_lossy of a struct that denies unknown fields", &full, f.extract_inner_lossy::<Known>(&key).err(), unk);
                        chk(c, "extract_inner of a map with enum keys", &full, f.extract_inner::<BTreeMap<Key, Value>>(&key).err(), unv);
                        chk(c, "focus.extract of a struct that denies unknown fields", &full[depth..], f.focus(&key).extract::<Known>().err(), unk);
                    }
                    if c.full() { return; }
                }
            }
        }
    }
}

/// one wrong value in long arrays, wide dictionaries and deep nests
fn big(c: &mut Ctx) {
    for _ in 0..c.scale(60, 1500) {
        let mut r = Rng(c.rng.next());
        let n = 1 + match r.below(4) { 0 => r.below(20), 1 => r.below(300), 2 => 900 + r.below(300), _ => r.below(5000) };
        let at = match r.below(3) { 0 => n - 1, _ => r.below(n) };
        let prof = *r.pick(&["default", "global", "custom"]);
        let mut a = vec![Value::from(1u8); n];
        a[at] = Value::from(true);
        let wide: Dict = (0..n).map(|i| (format!("k{}", i), if i == at { Value::from(true) } else { Value::from(1u8) })).collect();
        // a nest of arrays and dictionaries around one wrong value
        let d = 1 + r.below(60);
        let (mut v, mut path) = (Value::from(true), vec![]);
        for _ in 0..d {
            if r.chance(1, 2) { let i = r.below(4); let mut a = vec![Value::from(1u8); i]; a.push(v); v = Value::from(a); path.insert(0, i.to_string()); }
            else { let k = r.odd_text(); v = Value::Dict(Tag::Default, std::iter::once((k.clone(), v)).collect()); path.insert(0, k); }
        }
        c.case(format!("one wrong value at {} of {} elements, and one at {:?}, profile {}", at, n, path, prof), true);
        let data: Dict = [("list".to_string(), Value::from(a)), ("wide".to_string(), Value::Dict(Tag::Default, wide)), ("nest".to_string(), v)].into_iter().collect();
        let f = Figment::new().merge(P { name: "good".into(), prof: "default".into(), data: std::iter::once(("list".to_string(), Value::from(vec![1u8]))).collect() })
            .merge(P { name: "bad".into(), prof: prof.into(), data }).select("custom");
        let chk = |c: &mut Ctx, what: &str, want: Vec<String>, e: Option<Error>| {
            let ok = e.as_ref().map_or(false, |e| e.path == want && e.count() == 1 && matches!(e.kind, Kind::InvalidType(..)) && e.metadata.as_ref().map_or(false, |m| m.name == "bad") && e.profile == Some(Profile::new(prof)));
            c.check(what, ok, || format!("path {:?} from bad, profile {}", want, prof), || format!("{:?}", e.as_ref().map(|e| (&e.kind, &e.path, &e.profile, e.metadata.as_ref().map(|m| &m.name)))));
        };
        let s = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
        if let Some(e) = guard(c, "extract_inner", || f.extract_inner::<Vec<u8>>("list").err()) { chk(c, "a long array", s(&["list", &at.to_string()]), e); }
        if let Some(e) = guard(c, "extract_inner", || f.extract_inner::<BTreeMap<String, i128>>("wide").err()) { chk(c, "a wide dictionary", s(&["wide", &format!("k{}", at)]), e); }
        if let Some(e) = guard(c, "extract_inner", || f.extract_inner::<Nest>("nest").err()) { let mut w = s(&["nest"]); w.extend(path.clone()); chk(c, "a deep nest", w, e); }
        if c.full() { return; }
    }
}
/// numbers, in arrays and dictionaries of such
struct Nest;
impl<'de> serde::Deserialize<'de> for Nest {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Nest, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Nest;
            fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("a nest") }
            fn visit_u8<E>(self, _: u8) -> Result<Nest, E> { Ok(Nest) }
            fn visit_u64<E>(self, _: u64) -> Result<Nest, E> { Ok(Nest) }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Nest, A::Error> { while let Some(Nest) = a.next_element()? {} Ok(Nest) }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Nest, A::Error> { while let Some((String { .. }, Nest)) = a.next_entry()? {} Ok(Nest) }
        }
        d.deserialize_any(V)
    }
}

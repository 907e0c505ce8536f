//! C23: the serde helpers.
use crate::files::Scratch;
use crate::util::*;
use figment::providers::{Format, Json, Serialized, Toml};
use figment::value::magic::{Either, RelativePathBuf, Tagged};
use figment::value::{Dict, Map, Value};
use figment::{Error, Figment};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Deserialize, Debug)]
struct Flag { #[serde(deserialize_with = "figment::util::bool_from_str_or_int")] b: bool }
#[derive(Deserialize, Serialize, Debug)]
struct Pairs { #[serde(with = "figment::util::vec_tuple_map")] m: Vec<(String, i64)> }
#[derive(Deserialize, Serialize, Debug)]
struct Nested { #[serde(with = "figment::util::vec_tuple_map")] m: Vec<(u8, Vec<(String, Option<bool>)>)> }
#[derive(Deserialize, Serialize, Debug)]
struct Paths {
    #[serde(serialize_with = "RelativePathBuf::serialize_original")] o: RelativePathBuf,
    #[serde(serialize_with = "RelativePathBuf::serialize_relative")] r: RelativePathBuf,
}

fn word(r: &mut Rng) -> String {
    let w = *r.pick(&["true", "false", "true", "false", "yes", "no", "1", "0", "on", "t", "f", "null", "truth", "falsey"]);
    let w: String = match r.below(8) { 0 | 1 => w.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect(), 2 => w.to_uppercase(), 3 => r.near(w), 4 => w.replace('s', "\u{17f}"), 5 => format!("{}{}", w, r.pick(&[" ", "\0", "\n", "\u{a0}", "\u{200b}"])), 6 => r.odd_text(), _ => w.into() };
    w
}
fn flags(c: &mut Ctx) {
    let parse = |w: &str| match w.to_ascii_lowercase().as_str() { "true" => Some(true), "false" => Some(false), _ => None };
    for _ in 0..c.scale(1500, 30000) {
        let mut r = Rng(c.rng.next());
        let n = match r.below(5) { 0 => r.below(4) as i64 - 1, 1 => (1i64 << r.below(64)).wrapping_add(r.below(3) as i64 - 1), 2 => i64::MIN + r.below(3) as i64, 3 => r.odd_int().map(|n| n as i64).unwrap_or(2), _ => r.next() as i64 >> r.below(64) };
        let int = |n: i128| match n { 0 => Some(false), 1 => Some(true), _ => None };
        let w = word(&mut r);
        // what is given, as a value of a given type, and what the flag is
        let (v, want, via_json): (Value, Option<bool>, Option<serde_json::Value>) = match r.below(19) {
            0 => { let b = r.chance(1, 2); (b.into(), Some(b), Some(b.into())) }
            1 | 2 | 3 | 4 => (w.clone().into(), parse(&w), Some(w.clone().into())),
            5 => ((n as u8).into(), int(n as u8 as i128), Some((n as u8).into())), 6 => ((n as i8).into(), int(n as i8 as i128), Some((n as i8).into())),
            7 => ((n as u16).into(), int(n as u16 as i128), None), 8 => ((n as i16).into(), int(n as i16 as i128), None),
            9 => ((n as u32).into(), int(n as u32 as i128), None), 10 => ((n as i32).into(), int(n as i32 as i128), None),
            11 => ((n as u64).into(), int(n as u64 as i128), Some((n as u64).into())), 12 | 13 => (n.into(), int(n as i128), Some(n.into())),
            14 => ((n as usize).into(), int(n as usize as i128), None), 15 => ((n as isize).into(), int(n as i128), None),
            16 => { let f = *r.pick(&[0.0, 1.0, -0.0, 0.5, 2.0]); (f.into(), None, Some(f.into())) }
            17 => { let k = r.below(3); (Value::from(vec![1u8; k]), None, Some(serde_json::json!(vec![1u8; k]))) }
            _ => (Value::from(figment::util::map!["b" => 1]), None, Some(serde_json::json!({ "b": 1 }))),
        };
        c.case(format!("flag from {:?}", v), true);
        let f = Figment::from(Serialized::default("b", &v));
        let got = guard(c, "flag", || f.extract::<Flag>().ok().map(|x| x.b)).unwrap_or(None);
        c.eq("the flag", want, got);
        if let Some(j) = via_json {
            let t = serde_json::json!({ "b": j }).to_string();
            c.eq("the flag, read by another format", want, serde_json::from_str::<Flag>(&t).ok().map(|x| x.b));
            c.eq("the flag, from a JSON source", want, Figment::from(Json::string(&t)).extract::<Flag>().ok().map(|x| x.b));
        }
    }
}
fn pairs(c: &mut Ctx) {
    // more pairs than any size class of the code
    let n = 70_000i64;
    let m: Vec<(String, i64)> = (0..n).map(|i| (format!("{:05}", i), i)).collect();
    c.case(format!("{} pairs (\"00000\", 0), (\"00001\", 1), ...", n), true);
    let text = format!("{{\"m\":{{{}}}}}", m.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    let read = |p: Option<Pairs>| p.map(|p| (p.m.len(), p.m == m));
    c.eq("every pair is read", Some((n as usize, true)), read(serde_json::from_str(&text).ok()));
    c.check("every pair is written", serde_json::to_string(&Pairs { m: m.clone() }).ok() == Some(text), || format!("{} pairs", n), || "others".into());
    let f = Figment::from(Serialized::defaults(Pairs { m: m.clone() }));
    c.eq("every pair passes through a figment", Some((n as usize, true)), read(f.extract().ok()));
    for _ in 0..c.scale(500, 10000) {
        let mut r = Rng(c.rng.next());
        let n = r.size(6, 60);
        let m: Vec<(String, i64)> = (0..n).map(|_| (if r.chance(1, 2) { format!("k{}", r.below(9)) } else { r.odd_text() }, r.next() as i64 >> r.below(64))).collect();
        c.case(format!("pairs {:?}", m), true);
        // a streaming reader: every entry, in order
        let body: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", serde_json::to_string(k).unwrap(), v)).collect();
        let text = format!("{{\"m\":{{{}}}}}", body.join(","));
        let got: Option<Vec<(String, i64)>> = serde_json::from_str::<Pairs>(&text).ok().map(|p| p.m);
        c.eq("pairs in the map's order", Some(m.clone()), got);
        c.eq("a map of the pairs", Some(text.clone()), serde_json::to_string(&Pairs { m: m.clone() }).ok());
        // a figment: each key once
        let map: BTreeMap<String, i64> = m.iter().cloned().collect();
        let sorted: Vec<(String, i64)> = map.iter().map(|(k, v)| (k.clone(), *v)).collect();
        c.eq("pairs of a dictionary", Some(sorted.clone()), Figment::from(("m", map.clone())).extract::<Pairs>().ok().map(|p| p.m));
        let again = Figment::from(Serialized::defaults(Pairs { m: m.clone() }));
        c.eq("pairs through a figment", Some(sorted), again.extract::<Pairs>().ok().map(|p| p.m));
        // one wrong entry is an error
        if n > 0 {
            let i = r.below(n);
            let mut b = body.clone();
            b[i] = format!("{}:\"x\"", serde_json::to_string(&m[i].0).unwrap());
            let bad = format!("{{\"m\":{{{}}}}}", b.join(","));
            c.check("a wrong entry", serde_json::from_str::<Pairs>(&bad).is_err(), || "an error".into(), || "Ok".into());
        }
        let nested: Vec<(u8, Vec<(String, Option<bool>)>)> = (0..r.below(4) as u8).map(|i| (i * 60, (0..r.below(3)).map(|j| (format!("{}", j), *r.pick(&[None, Some(true)]))).collect())).collect();
        let back = serde_json::to_string(&Nested { m: nested.clone() }).ok().and_then(|t| serde_json::from_str::<Nested>(&t).ok()).map(|x| x.m);
        c.eq("nested pairs", Some(nested), back);
    }
}
fn paths(c: &mut Ctx) {
    let s = Scratch::new("helps");
    std::fs::create_dir_all(s.0.join("etc/deep")).unwrap();
    for _ in 0..c.scale(150, 3000) {
        let mut r = Rng(c.rng.next());
        let mut p = || { let o = r.odd_text(); let o: String = o.chars().filter(|c| *c != '\0').collect(); [*r.pick(&["x", "a/b", "../up", "", ".", "/abs/p", "./q", "d/", "a//b"]), "/", &o][..if r.chance(1, 3) { 3 } else { 1 }].concat() };
        let (o, q) = (p(), p());
        let doc = serde_json::json!({ "o": o, "r": q }).to_string();
        let file = s.0.join(*r.pick(&["etc/c.json", "etc/deep/c.json", "c.json"]));
        std::fs::write(&file, &doc).unwrap();
        let fromfile = r.chance(3, 4);
        c.case(format!("{} from {}", doc, if fromfile { file.display().to_string() } else { "a string".into() }), true);
        let f = if fromfile { Figment::from(Json::file(&file)) } else { Figment::from(Json::string(&doc)) };
        let Ok(cfg) = f.extract::<Paths>() else { c.check("paths", false, || "Ok".into(), || "an error".into()); continue };
        let rel = if fromfile { file.parent().unwrap().join(&q).display().to_string() } else { q.clone() };
        let want = serde_json::json!({ "o": o, "r": rel });
        c.eq("the paths written by serialization", Some(want.clone()), serde_json::to_value(&cfg).ok());
        let g = Figment::from(Serialized::defaults(&cfg)).merge(Toml::string(""));
        c.eq("the original path", Ok(o.clone()), g.extract_inner::<String>("o").map_err(|e| e.to_string()));
        c.eq("the resolved path", Ok(rel.clone()), g.extract_inner::<String>("r").map_err(|e| e.to_string()));
    }
}
fn plain(r: &mut Rng, deep: usize) -> serde_json::Value {
    use serde_json::json;
    match r.below(if deep == 0 { 6 } else { 9 }) {
        0 => r.odd_text().into(), 1 => r.pick(&["true", "1", "a", "2.5", "One", "-7"]).to_string().into(), 2 => (r.next() >> r.below(64)).into(), 3 => (r.next() as i64 >> r.below(64)).into(), 4 => r.chance(1, 2).into(), 5 => json!(*r.pick(&[0.0, 1.5, -2.0, 1e9])),
        6 => { let n = r.below(4); (0..n).map(|_| plain(r, deep - 1)).collect::<Vec<_>>().into() }
        7 => { let n = r.below(4); (0..n).map(|_| r.below(300) as u64).collect::<Vec<_>>().into() }
        _ => { let n = r.below(4); let mut m = serde_json::Map::new(); for _ in 0..n { m.insert(r.pick(&["a", "b", "One", "___figment_relative_path_", "value", "tag", ""]).to_string(), plain(r, deep - 1)); } m.into() }
    }
}
#[derive(Deserialize, Debug, Clone, PartialEq)]
enum Name { One, Two(u8), #[serde(rename = "a")] Three { b: bool } }
fn one<A, B>(c: &mut Ctx, what: &str, f: &Figment) where A: figment::value::magic::Magic + std::fmt::Debug, B: serde::de::DeserializeOwned + std::fmt::Debug {
    let show = |e: Result<Either<A, B>, Error>| match e { Ok(e) => format!("{:?}", e), Err(_) => "an error".into() };
    let want = match f.extract_inner::<A>("k") { Ok(a) => Ok(Either::Left(a)), Err(_) => f.extract_inner::<B>("k").map(Either::Right) };
    let (want, got) = (show(want), guard(c, what, || show(f.extract_inner::<Either<A, B>>("k"))));
    if let Some(got) = got { c.eq(what, want, got); }
}
fn eithers(c: &mut Ctx) {
    let s = Scratch::new("either");
    for _ in 0..c.scale(1000, 20000) {
        let mut r = Rng(c.rng.next());
        let v = plain(&mut r, 3);
        let doc = serde_json::json!({ "k": v }).to_string();
        let file = s.0.join("e.json");
        std::fs::write(&file, &doc).unwrap();
        let kind = r.below(3);
        c.case(format!("either of {} from {}", doc, ["a file", "a string", "a typed value"][kind]), true);
        let f = match kind { 0 => Figment::from(Json::file(&file)), 1 => Figment::from(Json::string(&doc)), _ => Figment::from(Serialized::default("k", &v)) };
        one::<RelativePathBuf, Vec<u8>>(c, "path or bytes", &f);
        one::<RelativePathBuf, Value>(c, "path or value", &f);
        one::<RelativePathBuf, Dict>(c, "path or dictionary", &f);
        one::<Tagged<usize>, String>(c, "tagged number or text", &f);
        one::<Tagged<u8>, i64>(c, "tagged byte or integer", &f);
        one::<Tagged<String>, Vec<bool>>(c, "tagged text or flags", &f);
        one::<Tagged<Name>, BTreeMap<String, f64>>(c, "tagged choice or map", &f);
        one::<Tagged<Vec<u8>>, BTreeSet<String>>(c, "tagged bytes or texts", &f);
        one::<Tagged<bool>, Name>(c, "tagged flag or choice", &f);
        one::<Tagged<u8>, Option<bool>>(c, "tagged byte or optional flag", &f);
        one::<Tagged<Map<String, u8>>, Vec<Option<String>>>(c, "tagged map or optional texts", &f);
    }
}
pub fn run(c: &mut Ctx) {
    c.rule("flags from words one edit or one case away from the documented ones, integers of every width, and values of other kinds, read by figment and by serde_json; maps of any keys with repeats, read and written by serde_json and through figments; paths from files and strings serialized by each helper; values of every kind read as a magic value or something else, against reading each alone; every case is non-trivial");
    flags(c); pairs(c); paths(c); eithers(c);
}

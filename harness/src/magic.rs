//! C17 (magic values), C18 (relative paths between paths), C20 (profile names).
use crate::files::Scratch;
use crate::util::*;
use figment::providers::{Format, Json, Serialized, Toml};
use figment::util::diff_paths;
use figment::value::magic::{RelativePathBuf, Tagged};
use figment::value::{Dict, Map, Tag, Value};
use figment::{Error, Figment, Metadata, Profile, Provider, Source};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::path::{Component, Path, PathBuf};

#[derive(Deserialize, Serialize, Debug, Clone)]
struct Cfg { p: RelativePathBuf, list: Vec<RelativePathBuf>, opt: Option<RelativePathBuf>, map: BTreeMap<String, RelativePathBuf>, e: Choice, t: Tagged<u64>, ts: Tagged<String>, tl: Tagged<Vec<u8>>, td: Option<Tagged<BTreeMap<String, i8>>>, tp: Tagged<RelativePathBuf>, tt: Tagged<Tagged<bool>>, pair: (RelativePathBuf, Tagged<char>), te: Tagged<Choice>, inner: Sub }
#[derive(Deserialize, Serialize, Debug, Clone)]
struct Sub { q: RelativePathBuf, t: Tagged<Option<u8>> }
#[derive(Deserialize, Serialize, Debug, Clone)]
enum Choice { New(RelativePathBuf), Two(RelativePathBuf, u8), Named { at: RelativePathBuf, n: Tagged<u8> } }

/// (original, relative) of every path and (source, content) of every tagged value, in order
fn facts(c: &Cfg) -> (Vec<(PathBuf, PathBuf, Option<PathBuf>)>, Vec<(Tag, String)>) {
    let mut p = vec![&c.p];
    p.extend(&c.list); p.extend(&c.opt); p.extend(c.map.values()); p.push(&*c.tp); p.push(&c.pair.0); p.push(&c.inner.q);
    let mut t = vec![(c.t.tag(), format!("{}", *c.t)), (c.ts.tag(), c.ts.to_string()), (c.tl.tag(), format!("{:?}", *c.tl)), (c.tp.tag(), format!("{:?}", c.tp.original())), (c.tt.tag(), format!("{}", **c.tt)), (c.tt.clone().into_inner().tag(), format!("{}", **c.tt)), (c.pair.1.tag(), format!("{}", *c.pair.1)), (c.inner.t.tag(), format!("{:?}", *c.inner.t))];
    if let Some(d) = &c.td { t.push((d.tag(), format!("{:?}", **d))); }
    for e in [&c.e, &*c.te] { match e { Choice::New(x) | Choice::Two(x, _) => p.push(x), Choice::Named { at, n } => { p.push(at); t.push((n.tag(), format!("{}", **n))); } } }
    t.push((c.te.tag(), "te".into()));
    (p.iter().map(|p| (p.original().to_path_buf(), p.relative(), p.metadata_path().map(|p| p.to_path_buf()))).collect(), t)
}
const RAW: [&str; 14] = ["x", "a/b.txt", "../up", "./here", "", ".", "/abs/path", "/", "a//b/", "é x", "..", "/abs/../x", "~/q", "x/.."];

struct Custom(Dict, Option<Source>, &'static str);
impl Provider for Custom {
    fn metadata(&self) -> Metadata { let m = Metadata::named("custom"); match &self.1 { Some(s) => m.source(s.clone()), None => m } }
    fn data(&self) -> Result<Map<Profile, Dict>, Error> { Ok(Profile::new(self.2).collect(self.0.clone())) }
}

/// unusual text that every format can spell
fn plain(r: &mut Rng) -> String { r.odd_text().chars().filter(|c| !c.is_control() && !format!("{:?}", c).contains('\\')).collect() }
pub fn run17(c: &mut Ctx) {
    c.rule("a configuration with relative paths and tagged values in fields, options, sequences, maps, tuples, enum variants and inside one another, with 14 path shapes, supplied by a TOML or JSON file (found by search, absolute or relative without search), a string, a typed value or a custom source, whole or with single fields from a second file elsewhere; every path and tag is compared with the source that supplied it, directly and after 1..3 rounds of serialization into another figment; every case is non-trivial");
    let s = Scratch::new("magic");
    for d in ["one/deep", "two", "one/conf"] { std::fs::create_dir_all(s.0.join(d)).unwrap(); }
    for round in 0..c.scale(1500, 30000) {
        let mut r = Rng(c.rng.next());
        let mut pick = || if r.chance(1, 8) { plain(&mut r) } else { r.pick(&RAW).to_string() };
        let nl = round % 3;
        let list: Vec<String> = (0..nl).map(|_| pick()).collect();
        let (p, opt, m1, m2, tp, pr, q, e1, e2) = (pick(), pick(), pick(), pick(), pick(), pick(), pick(), pick(), pick());
        let ek = r.below(3);
        let ev = match ek { 0 => serde_json::json!({ "New": e1 }), 1 => serde_json::json!({ "Two": [e1, 4] }), _ => serde_json::json!({ "Named": { "at": e1, "n": 9 } }) };
        let mut doc = serde_json::json!({ "p": p, "list": list, "map": { "a": m1, "b b": m2 }, "e": ev, "t": 42, "ts": "str", "tl": [1, 2, 3], "td": { "k": -3, "": 4 }, "tp": tp, "tt": true, "pair": [pr, "c"], "te": { "New": e2 }, "inner": { "q": q } });
        if r.chance(1, 2) { doc["opt"] = opt.clone().into(); }
        if r.chance(1, 2) { doc.as_object_mut().unwrap().remove("td"); }
        doc["inner"]["t"] = if r.chance(1, 2) { 7.into() } else { 8.into() };
        let toml = |v: &serde_json::Value| -> String { fn w(v: &serde_json::Value) -> String { match v { serde_json::Value::Object(m) => format!("{{ {} }}", m.iter().map(|(k, v)| format!("{:?} = {}", k, w(v))).collect::<Vec<_>>().join(", ")), serde_json::Value::Array(a) => format!("[{}]", a.iter().map(w).collect::<Vec<_>>().join(", ")), v => v.to_string() } } v.as_object().unwrap().iter().map(|(k, v)| format!("{:?} = {}\n", k, w(v))).collect() };
        // ---- first source
        let kind = r.below(8);
        std::env::set_current_dir(s.0.join("one/deep")).unwrap();
        std::fs::write(s.0.join("one/cfg.toml"), toml(&doc)).unwrap();
        std::fs::write(s.0.join("one/conf/cfg.json"), doc.to_string()).unwrap();
        std::fs::write(s.0.join("one/deep/here.toml"), toml(&doc)).unwrap();
        let val: Dict = Value::serialize(&doc).unwrap().into_dict().unwrap();
        let (f, base): (Figment, Option<PathBuf>) = match kind {
            0 => (Figment::from(Toml::file("cfg.toml")), Some(s.0.join("one"))),
            1 => (Figment::from(Json::file(s.0.join("one/conf/cfg.json"))), Some(s.0.join("one/conf"))),
            2 => (Figment::from(Toml::file("here.toml").search(false)), Some("".into())),
            3 => (Figment::from(Toml::string(&toml(&doc))), None),
            4 => (Figment::from(Serialized::defaults(&doc)), None),
            5 => (Figment::from(Custom(val, Some(Source::File(s.0.join("two/absent.cfg"))), "global")), Some(s.0.join("two"))),
            6 => (Figment::from(Custom(val, Some(Source::File(s.0.join("two"))), "default")), Some(s.0.join("two"))),
            _ => (Figment::from(Custom(val, Some(Source::Custom("/some/thing".into())), "Prof")).select("prof"), None),
        };
        // ---- one field from elsewhere
        let over = r.chance(1, 2);
        let p2 = r.pick(&RAW).to_string();
        std::fs::write(s.0.join("two/more.toml"), format!("p = {:?}\nt = 43\n[inner]\nq = {:?}\n", p2, p2)).unwrap();
        let f = if over { f.merge(Toml::file(s.0.join("two/more.toml")).profile("global")) } else { f };
        c.case(format!("source kind {} {}{}", kind, doc, if over { format!(" with p, inner.q = {:?} and t = 43 from two/more.toml", p2) } else { String::new() }), true);
        let cfg: Cfg = match guard(c, "extract", || f.extract()) { Some(Ok(x)) => x, Some(Err(e)) => { c.check("extract", false, || "Ok".into(), || e.to_string()); continue; } None => continue };
        // ---- model
        let rel = |b: &Option<PathBuf>, o: &str| -> (PathBuf, PathBuf) { (o.into(), match b { _ if Path::new(o).has_root() => o.into(), Some(b) => b.join(o), None => o.into() }) };
        let two = Some(s.0.join("two"));
        let mut want = vec![if over { rel(&two, &p2) } else { rel(&base, &p) }];
        want.extend(list.iter().map(|x| rel(&base, x)));
        if doc.get("opt").is_some() { want.push(rel(&base, &opt)); }
        want.extend([rel(&base, &m1), rel(&base, &m2), rel(&base, &tp), rel(&base, &pr), if over { rel(&two, &p2) } else { rel(&base, &q) }, rel(&base, &e1), rel(&base, &e2)]);
        let (paths, tags) = facts(&cfg);
        c.eq("original and relative paths", want.iter().map(|(o, r)| (o.as_os_str().to_owned(), r.clone())).collect::<Vec<_>>(), paths.iter().map(|(o, r, _)| (o.as_os_str().to_owned(), r.clone())).collect::<Vec<_>>());
        let expect = |key: &str| f.find_value(key).unwrap().tag();
        let mut wt: Vec<(Tag, String)> = vec![(expect("t"), if over { "43" } else { "42" }.into()), (expect("ts"), "str".into()), (expect("tl"), "[1, 2, 3]".into()), (expect("tp"), format!("{:?}", tp)), (expect("tt"), "true".into()), (expect("tt"), "true".into()), (expect("pair"), "c".into()), (expect("inner.t"), format!("Some({})", doc["inner"]["t"]))];
        if doc.get("td").is_some() { wt.push((expect("td"), "{\"\": 4, \"k\": -3}".into())); }
        if ek == 2 { wt.push((expect("e.Named.n"), "9".into())); }
        wt.push((expect("te"), "te".into()));
        let same = |a: &Vec<(Tag, String)>, b: &Vec<(Tag, String)>| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| format!("{:?}", x.0) == format!("{:?}", y.0) && x.1 == y.1);
        c.check("tags and contents", same(&wt, &tags), || format!("{:?}", wt), || format!("{:?}", tags));
        for (t, what) in &tags { c.check("the tag denotes a provider", f.get_metadata(*t).is_some(), || "metadata".into(), || what.clone()); }
        // ---- serialized into other figments
        let mut cur = cfg.clone();
        for k in 1..=1 + r.below(3) {
            std::env::set_current_dir(if k % 2 == 0 { s.0.join("two") } else { s.0.clone() }).unwrap();
            let g = match r.below(4) {
                0 => Figment::from(Serialized::defaults(cur.clone())),
                1 => Figment::from(Serialized::from(cur.clone(), "other")).merge(Serialized::default("unrelated", 1)).select("other"),
                2 => Figment::from(Toml::string("")).merge(Serialized::globals(&cur)),
                _ => { let t = serde_json::to_string(&Value::serialize(&cur).unwrap()).unwrap(); std::fs::write(s.0.join("two/again.json"), t).unwrap(); Figment::from(Json::file(s.0.join("two/again.json"))) }
            };
            let via_file = g.metadata().any(|m| m.name == "JSON file");
            let next: Cfg = match guard(c, "extract again", || if k == 2 { g.extract_lossy() } else { g.extract() }) { Some(Ok(x)) => x, Some(Err(e)) => { c.check("extract again", false, || "Ok".into(), || e.to_string()); break; } None => break };
            let (p2s, t2s) = facts(&next);
            // a path that had no source yet resolves against the first file it passes through
            for (a, b) in paths.iter().zip(&p2s) {
                let keeps = a.2.is_some() || !via_file;
                if keeps && facts(&cur).0.iter().zip(&p2s).all(|(x, y)| x.1 == y.1 || x.2.is_none()) { if a.2.is_some() { c.eq(&format!("path after {} rounds", k), (a.0.as_os_str(), &a.1), (b.0.as_os_str(), &b.1)); } else { c.eq(&format!("original after {} rounds", k), a.0.as_os_str(), b.0.as_os_str()); } }
                else { c.eq(&format!("original after {} rounds", k), a.0.as_os_str(), b.0.as_os_str()); }
                if a.2.is_some() { c.eq(&format!("first source after {} rounds", k), (&a.1, &a.2), (&b.1, &b.2)); }
            }
            c.eq("number of paths", paths.len(), p2s.len());
            c.check(&format!("tags after {} rounds", k), same(&tags, &t2s), || format!("{:?}", tags), || format!("{:?}", t2s));
            cur = next;
        }
        // values made by hand have no source until extracted
        let h = Figment::from(Serialized::defaults(BTreeMap::from([("t", Tagged::from(5u8))])));
        let t: Result<Tagged<u8>, _> = h.extract_inner("t");
        c.check("a fresh tagged value gets the tag of its provider", matches!(&t, Ok(t) if **t == 5 && h.get_metadata(t.tag()).is_some()), || "provider tag".into(), || format!("{:?}", t));
        let h = Figment::from(Serialized::default("p", RelativePathBuf::from(&p)));
        let t: Result<RelativePathBuf, _> = h.extract_inner("p");
        c.check("a fresh relative path resolves against nothing", matches!(&t, Ok(t) if t.original() == Path::new(&p) && t.relative() == Path::new(&p)), || p.clone(), || format!("{:?}", t));
        if c.full() { break; }
    }
    let _ = std::env::set_current_dir("/");
}

// ---- C18
fn resolve(p: &Path) -> (bool, Vec<String>) {
    let abs = p.has_root();
    let mut st: Vec<String> = vec![];
    for c in p.components() {
        match c {
            Component::Normal(s) => st.push(s.to_str().unwrap().into()),
            Component::ParentDir => match st.last() { Some(l) if l != ".." => { st.pop(); } _ if abs => {} _ => st.push("..".into()) },
            _ => {}
        }
    }
    (abs, st)
}
fn pair(c: &mut Ctx, path: &str, base: &str) {
    let (p, b) = (Path::new(path), Path::new(base));
    let dotted = b.components().any(|c| matches!(c, Component::CurDir | Component::ParentDir));
    c.case(format!("diff_paths({:?}, {:?})", path, base), !dotted && p.has_root() == b.has_root());
    let got = match guard(c, "diff_paths", || diff_paths(path, base)) { Some(g) => g, None => return };
    if p.has_root() != b.has_root() { c.eq("one absolute and one relative", None, got); return; }
    if dotted { return; }
    let d = match got { Some(d) => d, None => { c.check("a path exists", false, || "Some".into(), || "None".into()); return; } };
    c.eq("resolves to the target", resolve(p), resolve(&b.join(&d)));
    c.check("the result is relative", d.is_relative(), || "relative".into(), || format!("{:?}", d));
    let (pc, bc): (Vec<_>, Vec<_>) = (p.components().collect(), b.components().collect());
    let common = pc.iter().zip(&bc).take_while(|(a, b)| a == b).count();
    let ups = |it: &[Component]| it.iter().filter(|c| matches!(c, Component::ParentDir)).count();
    let dc: Vec<_> = d.components().collect();
    let most = bc.len() - common + ups(&pc[common..]);
    c.check("no more parent steps than needed", ups(&dc) <= most, || format!("at most {}", most), || format!("{:?}", d));
}
pub fn run18(c: &mut Ctx) {
    c.rule("all pairs of paths of up to 4 components over {a, b, .., .} and of up to 5 over {a, b}, absolute and relative; then random longer pairs with shared prefixes, repeated separators, unicode and dots; non-trivial: both absolute or both relative and the base without dot components");
    let gen = |alpha: &[&str], max: usize| -> Vec<String> {
        let mut all: Vec<Vec<String>> = vec![vec![]];
        let mut from = 0;
        for _ in 0..max { let to = all.len(); for i in from..to { for a in alpha { let mut v = all[i].clone(); v.push(a.to_string()); all.push(v); } } from = to; }
        all.iter().flat_map(|v| [v.join("/"), format!("/{}", v.join("/"))]).collect()
    };
    let a = gen(&["a", "b", "..", "."], if c.thorough { 5 } else { 4 });
    let bs: Vec<String> = gen(&["a", "b", "c"], 3);
    for p in &a { for b in &bs { pair(c, p, b); } if c.full() { return; } }
    let b5 = gen(&["a", "b"], 5);
    for p in &b5 { for b in &b5 { pair(c, p, b); } if c.full() { return; } }
    c.exh(&format!("targets of up to {} components over {{a, b, .., .}} x bases of up to 3 over {{a, b, c}}; pairs of up to 5 over {{a, b}}", if c.thorough { 5 } else { 4 }));
    for _ in 0..c.scale(20000, 400000) {
        let mut r = Rng(c.rng.next());
        let odd = r.odd_name();
        let names = [&*odd, "a", "b", "aa", "é", "..", ".", "...", "a b", "x"];
        let mk = |r: &mut Rng, dots: bool, n: usize| -> Vec<String> { (0..n).map(|_| loop { let s = *r.pick(&names); if dots || (s != ".." && s != ".") { break s.to_string(); } }).collect() };
        let n = r.below(5);
        let pre = mk(&mut r, false, n);
        let (n, m) = (r.below(6), r.below(6));
        let mut p = pre.clone(); p.extend(mk(&mut r, true, n));
        let dots = r.chance(1, 8);
        let mut b = if r.chance(5, 6) { pre.clone() } else { vec![] }; b.extend(mk(&mut r, dots, m));
        let abs = r.chance(1, 2);
        let sep = |r: &mut Rng, v: &[String], abs: bool| { let mut s = if abs { "/".to_string() } else { String::new() }; for (i, x) in v.iter().enumerate() { if i > 0 { s += if r.chance(1, 8) { "//" } else { "/" }; } s += x; } if r.chance(1, 8) && !s.is_empty() { s.push('/'); } s };
        let flip = r.chance(1, 16);
        let (ps, bs) = (sep(&mut r, &p, abs), sep(&mut r, &b, abs != flip));
        pair(c, &ps, &bs);
        if c.full() { return; }
    }
}

// ---- C20
fn low(s: &str) -> String { s.to_ascii_lowercase() }
fn hash<T: std::hash::Hash>(t: &T) -> u64 { use std::hash::{DefaultHasher, Hasher}; let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }
fn two(c: &mut Ctx, a: &str, b: &str) {
    c.case(format!("{:?} and {:?}", a, b), !a.is_empty());
    let (x, y) = (Profile::new(a), Profile::from(b));
    let want = low(a) == low(b);
    let got = [x == y, y == x, &x == y, x == &y, x == *b, x == b, *b == x, b == x, x == *a && a == x, !(x != y), !(x != b), !(b != x), x.as_str() == y.as_str(), x.as_str() == b];
    let mut w = [want; 14];
    w[8] = true;
    c.eq("equality by every comparison", w, got);
    use std::cmp::Ordering::*;
    c.eq("ordering agrees with equality", want, x.cmp(&y) == Equal);
    c.eq("partial ordering is the ordering", Some(x.cmp(&y)), x.partial_cmp(&y));
    c.eq("ordering is antisymmetric", x.cmp(&y), y.cmp(&x).reverse());
    c.eq("ordering ignores case", Profile::new(&low(a)).cmp(&Profile::new(&b.to_ascii_uppercase())), x.cmp(&y));
    if want { c.eq("equal profiles hash equally", hash(&x), hash(&y)); }
    // as keys
    let h: HashSet<Profile> = [x.clone()].into();
    c.eq("found in a hash set", want, h.contains(&y));
    let m: Map<Profile, u8> = BTreeMap::from([(x.clone(), 1)]);
    c.eq("found in an ordered map", want, m.contains_key(&y));
    let pre = low(a).starts_with(&low(b));
    c.eq("starts_with", pre, x.starts_with(b));
}
fn single(c: &mut Ctx, s: &str) {
    c.case(format!("profile {:?}", s), !s.is_empty());
    let p = Profile::new(s);
    let custom = low(s) != "default" && low(s) != "global";
    c.eq("is_custom", custom, p.is_custom());
    c.eq("equals Default", low(s) == "default", p == Profile::Default && Profile::Default == p);
    c.eq("equals Global", low(s) == "global", p == Profile::Global && Profile::Global == p);
    c.eq("the name is retained: as_str", s, p.as_str().as_str());
    c.eq("the name is retained: Display", s.to_string(), p.to_string());
    c.eq("the name is retained: String", s.to_string(), String::from(p.clone()));
    c.eq("the name is retained: conversions", s.to_string(), String::from(Profile::from(s.to_string())));
    let f = Figment::new().merge(Serialized::from(BTreeMap::from([("q", 1u8)]), s)).select(s);
    let t = f.find_value("q").map(|v| v.tag().profile());
    let want = match &*low(s) { "default" => Some(Profile::Default), "global" => Some(Profile::Global), _ => None };
    c.check("kind of the tag of data emitted to the profile", matches!(&t, Ok(t) if *t == want), || format!("{:?}", want), || format!("{:?}", t));
    let v = Value::serialize(&p);
    c.check("the name is retained: serialized", matches!(&v, Ok(v) if v.as_str() == Some(s)), || s.into(), || format!("{:?}", v));
    if let Ok(v) = v { let q = v.deserialize::<Profile>(); c.check("the name is retained: deserialized", matches!(&q, Ok(q) if q.as_str().as_str() == s), || s.into(), || format!("{:?}", q)); }
}
const NAMES: [&str; 22] = ["default", "global", "debug", "release", "", "a", "A", "é", "É", "ß", "ss", "k", "K", "defaul", "defaultt", "global ", " global", "dev-1", "DEV_1", "i", "İ", "x.y"];
pub fn run20(c: &mut Ctx) {
    c.rule("all pairs of 22 names (empty, near-default, unicode pairs that only full case folding identifies) in up to four casings through every comparison, ordering, hashing and container; random names; data emitted under one casing and selected under another through figments of 1..3 providers, strictly compared with a model; environment selection; every name kept verbatim; non-trivial: the name is not empty");
    let mut all: Vec<String> = vec![];
    for n in NAMES { for s in [n.to_string(), n.to_ascii_uppercase(), n.chars().enumerate().map(|(i, ch)| if i % 2 == 0 { ch.to_ascii_uppercase() } else { ch }).collect(), n.to_uppercase()] { if !all.contains(&s) { all.push(s); } } }
    c.exh(&format!("{} names, {} pairs", all.len(), all.len() * all.len()));
    for a in &all { single(c, a); for b in &all { two(c, a, b); } if c.full() { return; } }
    for i in 0..c.scale(4000, 80000) {
        let mut r = Rng(c.rng.next());
        let n = r.below(6);
        let a: String = (0..n).map(|_| *r.pick(&['a', 'B', 'z', 'Z', '_', '[', '`', '{', '@', 'é', 'É', '0', 'K', '\u{212a}', 'ſ', 's'])).collect();
        let a = if r.chance(1, 8) { r.odd_text() } else if r.chance(1, 6) { let w = *r.pick(&["default", "global", "Debug"]); r.near(w) } else { a };
        let mut b: String = crate::tree::recase(&mut r, &a);
        if r.chance(1, 3) { b = b.chars().rev().collect(); } else if r.chance(1, 3) { b.push('a'); }
        single(c, &a);
        two(c, &a, &b);
        // transitivity over three names
        let z: String = crate::tree::recase(&mut r, &b).chars().take(4).collect();
        let (x, y, w) = (Profile::new(&a), Profile::new(&b), Profile::new(&z));
        let mut v = vec![x.clone(), y.clone(), w.clone()];
        v.sort();
        c.check("ordering is transitive", v[0] <= v[1] && v[1] <= v[2] && v[0] <= v[2], || "sorted".into(), || format!("{:?}", v));
        // data under any casing of its name
        if i % 2 == 0 {
            let odd = low(&r.odd_text());
            let near = { let w = *r.pick(&["default", "global", "alpha"]); low(&r.near(w)) };
            let names = ["default", "global", "alpha", "beta", "é", &*odd, &*near];
            let k = 1 + r.below(3);
            let mut f = Figment::new();
            let mut model: HashMap<String, BTreeMap<String, u64>> = HashMap::new();
            let mut desc = vec![];
            for id in 0..k {
                let n = r.pick(&names).to_string();
                let cased = crate::tree::recase(&mut r, &n);
                let key = *r.pick(&["a", "b"]);
                f = f.merge(Serialized::from(BTreeMap::from([(key, id as u64)]), cased.as_str()));
                model.entry(n).or_default().insert(key.into(), id as u64);
                desc.push(format!("{}:{}={}", cased, key, id));
            }
            let chosen = *r.pick(&names);
            let sel = crate::tree::recase(&mut r, chosen);
            c.case(format!("{} selected {}", desc.join(" "), sel), true);
            let mut want = model.get("default").cloned().unwrap_or_default();
            if !["default", "global"].contains(&&*low(&sel)) { want.extend(model.get(&low(&sel)).cloned().unwrap_or_default()); }
            want.extend(model.get("global").cloned().unwrap_or_default());
            let got = f.clone().select(sel.as_str()).extract::<BTreeMap<String, u64>>();
            c.check("data under any casing", matches!(&got, Ok(g) if *g == want), || format!("{:?}", want), || format!("{:?}", got));
            c.eq("the number of profiles", model.keys().filter(|k| !["default", "global"].contains(&k.as_str())).count(), f.profiles().filter(|p| p.is_custom()).count());
            let d = f.data().map(|d| d.len());
            c.check("profiles emitted", matches!(&d, Ok(n) if *n == model.len()), || format!("{}", model.len()), || format!("{:?}", d));
            // kinds of tags follow the kind of the profile, whatever its casing
            for (n, kv) in &model { for key in kv.keys() {
                let v = f.clone().select(sel.as_str()).find_value(key);
                if let Ok(v) = v { if want.get(key) == kv.get(key) && (n == "global" || n == "default") && model.values().filter(|m| m.contains_key(key)).count() == 1 { c.eq("profile of the tag", Some(Profile::new(n)), v.tag().profile()); } }
            } }
        }
        if c.full() { return; }
    }
    // from the environment
    for (name, val) in [("FIG_PROFILE_X", "Debug"), ("fig_profile_x", "GLOBAL"), (" FIG_PROFILE_X ", "q"), ("FIG_PROFILE_XX", "no")] {
        c.case(format!("{:?} = {:?}", name, val), true);
        std::env::set_var(name, val);
        let want = if name.trim().eq_ignore_ascii_case("fig_profile_x") { Some(val.to_string()) } else { None };
        c.eq("from_env", want.clone(), Profile::from_env("FIG_PROFILE_X").map(String::from));
        c.eq("from_env_or", want.unwrap_or("dflt".into()), String::from(Profile::from_env_or("fig_Profile_x", "dflt")));
        std::env::remove_var(name);
    }
}

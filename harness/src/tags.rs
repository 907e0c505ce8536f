//! C04: tags.
use crate::tree::*;
use crate::util::*;
use figment::value::{Tag, Value};
use figment::{Figment, Metadata, Profile, Provider};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};

fn h(t: Tag) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut h); h.finish() }
/// the tags one provider gives to values emitted to each profile
fn tags_of(f: &Figment) -> BTreeMap<String, Tag> {
    f.data().unwrap().into_iter().flat_map(|(p, d)| d.into_iter().map(move |(k, v)| (format!("{}:{}", p.as_str().as_str().to_ascii_lowercase(), k), v.tag()))).collect()
}
fn mk(id: usize, profs: &[&str]) -> TestP {
    let d: TP = profs.iter().map(|p| (p.to_string(), [(format!("k{}", id), T::Leaf(0, Leaf::U8(1)))].into_iter().collect())).collect();
    TestP { id, data: Ok(d), sel: None, casing: 0 }
}
fn kind(p: &str) -> Option<Profile> { if p.eq_ignore_ascii_case("default") { Some(Profile::Default) } else if p.eq_ignore_ascii_case("global") { Some(Profile::Global) } else { None } }

struct Known { tag: Tag, prov: usize, prof: String }

fn check_known(c: &mut Ctx, all: &[Known]) -> bool {
    for a in all {
        let d = || format!("provider {} profile {}", a.prov, a.prof);
        if !c.check(&format!("{}: distinct from the default tag", d()), !a.tag.is_default() && a.tag != Tag::Default, || "not default".into(), || format!("{:?}", a.tag)) { return false; }
        if !c.eq(&format!("{}: profile()", d()), kind(&a.prof), a.tag.profile()) { return false; }
    }
    for a in all { for b in all {
        let same = a.prov == b.prov;
        let w = || format!("{} == {}", a.prov, b.prov);
        if !c.check(&format!("equality of tags of {}:{} and {}:{}", a.prov, a.prof, b.prov, b.prof), (a.tag == b.tag) == same, w, || format!("{:?} {:?}", a.tag, b.tag)) { return false; }
        if !c.check(&format!("ordering of tags of {}:{} and {}:{}", a.prov, a.prof, b.prov, b.prof),
            (a.tag.cmp(&b.tag) == std::cmp::Ordering::Equal) == same && a.tag.cmp(&b.tag) == b.tag.cmp(&a.tag).reverse() && a.tag.partial_cmp(&b.tag) == Some(a.tag.cmp(&b.tag)), w, || format!("{:?}", a.tag.cmp(&b.tag))) { return false; }
        if same && h(a.tag) != h(b.tag) { return c.check(&format!("hashes of {}:{} and {}:{}", a.prov, a.prof, b.prov, b.prof), false, || "equal hashes".into(), || "different".into()); }
    } }
    // the order is one order of providers whatever the profile
    for a in all { for b in all { for x in all { if x.prov == a.prov {
        if x.tag.cmp(&b.tag) != a.tag.cmp(&b.tag) { return c.check("ordering is independent of the profile", false, || format!("{:?}", a.tag.cmp(&b.tag)), || format!("{:?} for {}:{} {}:{}", x.tag.cmp(&b.tag), x.prov, x.prof, b.prov, b.prof)); }
    } } } }
    true
}

struct Sel;
impl Provider for Sel {
    fn metadata(&self) -> Metadata { Metadata::named("sel") }
    fn data(&self) -> Result<figment::value::Map<Profile, figment::value::Dict>, figment::Error> { Ok(Default::default()) }
}

pub fn run(c: &mut Ctx) {
    c.rule("figments of several providers emitting to default, global and custom profiles (any casing): pairwise comparison, ordering, hashing and profile of every tag; concurrent figment construction on 8 threads; tags rebuilt from arbitrary 64-bit patterns; non-trivial: every case");
    let profs = ["default", "global", "debug", "release", "Global", "DEFAULT", "globally", "defaults", "globals", "global1", "a-global", "globa", "defaul", "default ", "glob\u{e4}l", ""];
    for round in 0..c.scale(30, 400) {
        let mut r = Rng(c.rng.next());
        let n = 2 + r.below(5);
        let mut f = Figment::new();
        let mut sets = vec![];
        for id in 0..n {
            let k = 1 + r.below(4);
            let ps: Vec<&str> = (0..k).map(|_| *r.pick(&profs)).collect();
            f = r.pick(&OPS).apply(f, mk(id, &ps));
            sets.push(format!("{}:{:?}", id, ps));
            if r.chance(1, 3) { f = f.merge(Sel); }
        }
        c.case(format!("round {} {}", round, sets.join(" ")), true);
        let all: Vec<Known> = tags_of(&f).into_iter().map(|(k, tag)| { let (p, id) = k.split_once(':').unwrap(); Known { tag, prov: id[1..].parse().unwrap(), prof: p.into() } }).collect();
        check_known(c, &all);
        if c.full() { return; }
    }
    // tags from any bit pattern: identity is the provider id, the rest is the kind of profile
    let real = tags_of(&Figment::from(mk(1, &["default", "global", "debug"])));
    let raw = |t: Tag| match Value::serialize(&t) { Ok(Value::Num(_, n)) => n.to_u128().map(|n| n as u64), _ => None };
    let bits: Vec<Option<u64>> = real.values().map(|t| raw(*t)).collect();
    if let [Some(a), Some(b), Some(d)] = bits[..] {
        let (cu, de, gl) = (a, b, d); // debug, default, global
        let mask = (cu ^ de) | (gl ^ de) | (cu ^ gl);
        c.exh("profile kinds x 64 single-bit and extreme provider ids");
        let mk = |id: u64, k: u64| serde_json::from_value::<Tag>(serde_json::json!((id & !mask) | (k & mask))).ok();
        let ids: Vec<u64> = (0..64).map(|i| 1u64 << i).chain([0, u64::MAX, u64::MAX >> 1, 0x5555_5555_5555_5555, 3]).collect();
        for &i in &ids { for &j in &ids { for k in [cu, de, gl] { for l in [cu, de, gl] {
            if let (Some(x), Some(y)) = (mk(i, k), mk(j, l)) {
                c.case(format!("tags of provider ids {:#x} and {:#x}", i & !mask, j & !mask), true);
                let same = i & !mask == j & !mask;
                c.check("equality by provider id", (x == y) == same, || same.to_string(), || format!("{:?} {:?}", x, y));
                c.check("order by provider id", x.cmp(&y) == (i & !mask).cmp(&(j & !mask)), || format!("{:?}", (i & !mask).cmp(&(j & !mask))), || format!("{:?}", x.cmp(&y)));
                if same { c.check("hash by provider id", h(x) == h(y), || "equal".into(), || "different".into()); }
                let want = if k == de { Some(Profile::Default) } else if k == gl { Some(Profile::Global) } else { None };
                c.eq("profile by kind", want, x.profile());
                c.check("is_default only for the default tag", !x.is_default() || (i & !mask == 0 && k == de), || "false".into(), || "true".into());
                c.eq("raw form survives", Some((i & !mask) | (k & mask)), raw(x));
                if c.full() { return; }
            }
        } } } }
    }
    c.case("Tag::Default", true);
    c.check("the default tag is default", Tag::Default.is_default() && Tag::default() == Tag::Default && Tag::default().is_default() && Tag::Default.profile() == Some(Profile::Default), || "yes".into(), || "no".into());
    // concurrency
    for round in 0..c.scale(15, 300) {
        c.case(format!("8 threads x 300 additions, round {}", round), true);
        let hs: Vec<_> = (0..8).map(|t| std::thread::spawn(move || {
            let mut out = vec![];
            for i in 0..300 { let f = Figment::from(mk(t * 1000 + i, &["default"])); out.extend(tags_of(&f).into_values()); }
            out
        })).collect();
        let all: Vec<Tag> = hs.into_iter().flat_map(|h| h.join().unwrap()).collect();
        let set: BTreeSet<Tag> = all.iter().cloned().collect();
        let hset: HashSet<Tag> = all.iter().cloned().collect();
        c.eq("distinct tags from concurrent additions", 2400, set.len());
        c.eq("distinct tags by hash", 2400, hset.len());
        if c.full() { return; }
    }
}

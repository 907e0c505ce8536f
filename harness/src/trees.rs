//! C01, C02, C03, C19: combination, layering, provenance, figment as provider.
use crate::tree::*;
use crate::util::*;
use figment::value::{Dict, Tag, Value};
use figment::{Figment, Profile, Provider};
use std::collections::BTreeMap;

/// what a figment should contain
#[derive(Clone)]
pub struct Model { pub p: TP, pub sel: String, pub adds: usize, pub kinds: bool }

fn fold(s: &str) -> String { s.to_ascii_lowercase() }

impl Model {
    pub fn new() -> Model { Model { p: TP::new(), sel: "default".into(), adds: 0, kinds: true } }
    pub fn add(&mut self, id: usize, data: &TP, sel: Option<&str>, o: Op) {
        let mut d = data.clone();
        for t in d.values_mut() { for v in t.values_mut() { v.set_src(id); } }
        self.p = c_prof(&self.p, &d, o);
        if let Some(s) = sel { if !o.keeps() { self.sel = fold(s); } }
        self.adds += 1;
    }
    pub fn add_figment(&mut self, m: &Model, o: Op) {
        self.p = c_prof(&self.p, &m.p, o);
        if !o.keeps() { self.sel = m.sel.clone(); }
        self.adds += m.adds + 1;
    }
}

fn name_of(f: &Figment, t: Tag) -> Option<String> { f.get_metadata(t).map(|m| m.name.to_string()) }

/// provenance of a whole tree, node by node
fn check_tags(c: &mut Ctx, f: &Figment, t: &T, v: &Value, at: &str) -> bool {
    let exp = Some(format!("p{}", t.src()));
    let got = name_of(f, v.tag());
    if exp != got {
        let i = c.current.clone();
        c.violation("attribution of a value", &format!("{} at {}", i, at), &format!("{:?}", exp), &format!("{:?}", got));
        return false;
    }
    match (t, v) {
        (T::Dict(_, d), Value::Dict(_, e)) => d.iter().all(|(k, t)| e.get(k).map_or(true, |v| check_tags(c, f, t, v, &format!("{}.{}", at, k)))),
        (T::Arr(_, d), Value::Array(_, e)) => d.iter().zip(e).enumerate().all(|(i, (t, v))| check_tags(c, f, t, v, &format!("{}[{}]", at, i))),
        _ => true,
    }
}
fn check_kind(c: &mut Ctx, v: &Value, prof: &str, at: &str) -> bool {
    let exp = match prof { "default" => Some(Profile::Default), "global" => Some(Profile::Global), _ => None };
    let got = v.tag().profile();
    if exp != got {
        let i = c.current.clone();
        c.violation("profile kind recorded for a value", &format!("{} at {}", i, at), &format!("{:?}", exp), &format!("{:?}", got));
        return false;
    }
    match v {
        Value::Dict(_, e) => e.iter().all(|(k, v)| check_kind(c, v, prof, &format!("{}.{}", at, k))),
        Value::Array(_, e) => e.iter().all(|v| check_kind(c, v, prof, at)),
        _ => true,
    }
}

fn raw(f: &Figment) -> Option<BTreeMap<String, Dict>> {
    f.data().ok().map(|m| m.into_iter().map(|(k, v)| (fold(k.as_str().as_str()), v)).collect())
}

/// collected data, profile by profile
pub fn check_data(c: &mut Ctx, f: &Figment, m: &Model) -> bool {
    let r = match raw(f) { Some(r) => r, None => return c.check("collected data", false, || show_p(&m.p), || "error".into()) };
    if r.keys().ne(m.p.keys()) { return c.check("profiles present", false, || format!("{:?}", m.p.keys()), || format!("{:?}", r.keys())); }
    for (k, d) in &m.p {
        if !same_dict(d, &r[k]) { return c.check(&format!("data of profile {}", k), false, || show(d), || format!("{:?}", r[k])); }
    }
    let mut ps: Vec<String> = f.profiles().map(|p| fold(p.as_str().as_str())).collect();
    ps.sort();
    let mut want: Vec<String> = m.p.keys().cloned().collect();
    want.sort();
    c.eq("profiles()", want, ps) && c.eq("selected profile", m.sel.clone(), fold(f.profile().as_str().as_str()))
}
pub fn check_prov(c: &mut Ctx, f: &Figment, m: &Model) -> bool {
    let r = match raw(f) { Some(r) => r, None => return false };
    for (p, d) in &m.p {
        for (k, t) in d {
            if let Some(v) = r.get(p).and_then(|e| e.get(k)) {
                if !check_tags(c, f, t, v, &format!("{}:{}", p, k)) { return false; }
                if m.kinds && !check_kind(c, v, p, &format!("{}:{}", p, k)) { return false; }
            }
        }
    }
    true
}
/// reading through the selected profile
pub fn check_read(c: &mut Ctx, f: &Figment, p: &TP, sel: &str, prov: bool) -> bool {
    let want = layered(p, sel);
    let all: Result<Dict, _> = f.extract();
    match &all {
        Ok(d) if same_dict(&want, d) => {}
        o => return c.check("whole extraction", false, || show(&want), || format!("{:?}", o)),
    }
    let all: Result<Dict, _> = f.extract_lossy();
    match &all {
        Ok(d) if same_dict(&want, d) => {}
        o => return c.check("whole lossy extraction", false, || show(&want), || format!("{:?}", o)),
    }
    for path in paths(&want) {
        let key = path.join(".");
        if path.iter().any(|k| k.is_empty() || k.contains('.')) { continue; }
        let ps: Vec<&str> = path.iter().map(|s| s.as_str()).collect();
        let t = lookup(&want, &ps).unwrap();
        match f.find_value(&key) {
            Ok(v) if t.same(&v) => {
                if prov {
                    if !check_tags(c, f, t, &v, &key) { return false; }
                    let md = f.find_metadata(&key).map(|m| m.name.to_string());
                    if !c.eq(&format!("find_metadata({})", key), Some(format!("p{}", t.src())), md) { return false; }
                }
            }
            o => return c.check(&format!("find_value({})", key), false, || t.show(), || format!("{:?}", o)),
        }
        if !c.eq(&format!("contains({})", key), true, f.contains(&key)) { return false; }
        let i: Result<Value, _> = f.extract_inner(&key);
        match i { Ok(v) if t.same(&v) => {}, o => return c.check(&format!("extract_inner({})", key), false, || t.show(), || format!("{:?}", o)) }
        let i: Result<Value, _> = f.extract_inner_lossy(&key);
        match i { Ok(v) if t.same(&v) => {}, o => return c.check(&format!("extract_inner_lossy({})", key), false, || t.show(), || format!("{:?}", o)) }
    }
    for k in KEYS { if !want.contains_key(k) && !c.eq(&format!("contains({}) of an absent key", k), false, f.contains(k)) { return false; } }
    true
}

fn small() -> Vec<T> {
    let l = |n: u8| T::Leaf(0, Leaf::U8(n));
    let d = |kv: Vec<(&str, T)>| T::Dict(0, kv.into_iter().map(|(k, v)| (k.to_string(), v)).collect());
    vec![
        l(1), T::Leaf(0, Leaf::S("s".into())), T::Leaf(0, Leaf::None), T::Leaf(0, Leaf::Unit), T::Leaf(0, Leaf::B(false)),
        T::Arr(0, vec![]), T::Arr(0, vec![l(1)]), T::Arr(0, vec![l(2), l(1)]), T::Arr(0, vec![d(vec![("x", l(3))]), d(vec![])]),
        T::Arr(0, vec![T::Arr(0, vec![l(4)])]),
        d(vec![]), d(vec![("x", l(1))]), d(vec![("y", l(2))]), d(vec![("x", T::Arr(0, vec![l(7)])), ("y", l(3))]),
        d(vec![("x", d(vec![("z", l(1)), ("w", T::Arr(0, vec![l(5)]))]))]), d(vec![("x", d(vec![("z", T::Arr(0, vec![l(6)])), ("w", T::Arr(0, vec![]))]))]),
    ]
}

struct Step { op: Op, kind: Kind }
enum Kind { P { data: TP, sel: Option<String>, casing: u64, dup: bool }, F(Vec<Step>), Sel(String) }

fn show_steps(s: &[Step]) -> String {
    s.iter().map(|s| match &s.kind {
        Kind::P { data, sel, .. } => format!("{:?}({}{})", s.op, show_p(data), sel.as_ref().map_or(String::new(), |s| format!(" selects {}", s))),
        Kind::F(f) => format!("{:?}(figment[{}])", s.op, show_steps(f)),
        Kind::Sel(p) => format!("select({})", p),
    }).collect::<Vec<_>>().join("; ")
}

fn build(steps: &[Step], next: &mut usize) -> (Figment, Model) {
    let (mut f, mut m) = (Figment::new(), Model::new());
    for s in steps {
        match &s.kind {
            Kind::P { data, sel, casing, dup } => {
                // a provider may report the very metadata of an earlier one
                let id = if *dup && *next > 0 { *next - 1 } else { *next += 1; *next - 1 };
                let q = TestP { id, data: Ok(data.clone()), sel: sel.clone(), casing: *casing };
                f = match *casing % 3 { 1 => s.op.apply(f, &q), 2 => s.op.apply(f, &&q), _ => s.op.apply(f, q) };
                m.add(id, data, sel.as_deref(), s.op);
            }
            Kind::F(inner) => {
                let (g, n) = build(inner, next);
                f = match *next % 3 { 0 => s.op.apply(f, g), 1 => s.op.apply(f, &g), _ => s.op.apply(f, &&g) };
                m.add_figment(&n, s.op);
            }
            Kind::Sel(p) => { f = f.select(p.as_str()); m.sel = fold(p); }
        }
    }
    (f, m)
}

fn gen_steps(r: &mut Rng, depth: usize, inner: bool) -> Vec<Step> {
    let n = 1 + r.size(4, 12);
    (0..n).map(|_| {
        let op = *r.pick(&OPS);
        let kind = match r.below(10) {
            0 => Kind::Sel({ let p = gen_prof(r); recase(r, &p) }),
            1 | 2 if inner => Kind::F(gen_steps(r, depth, false)),
            _ => Kind::P { data: gen_p(r, depth), sel: if r.chance(1, 3) { let p = gen_prof(r); Some(recase(r, &p)) } else { None }, casing: if r.chance(1, 3) { r.next() } else { 0 }, dup: r.chance(1, 8) },
        };
        Step { op, kind }
    }).collect()
}

fn check_all(c: &mut Ctx, prop: &str, f: &Figment, m: &Model) -> bool {
    match prop {
        "C01" => check_data(c, f, m),
        "C02" => {
            let sels: Vec<String> = PROFILES.iter().map(|s| s.to_string()).chain(["missing".to_string(), "DeBuG".into(), "GLOBAL".into()]).chain(m.p.keys().cloned()).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
            let before = format!("{:?}", raw(f));
            for s in &sels {
                let g = f.clone().select(s.as_str());
                if !check_read(c, &g, &m.p, &fold(s), false) { return false; }
                // reading twice, then going back
                let g = g.select(m.sel.as_str());
                if !check_read(c, &g, &m.p, &m.sel, false) { return false; }
            }
            let after = format!("{:?}", raw(f));
            c.eq("data unchanged by reading", before, after)
        }
        "C03" => check_prov(c, f, m) && {
            let sels = ["default", "global", "debug"];
            sels.iter().all(|s| { let g = f.clone().select(*s); check_read(c, &g, &m.p, s, true) })
        },
        _ => check_data(c, f, m) && check_prov(c, f, m) && check_read(c, f, &m.p, &m.sel.clone(), true) && c.eq("metadata count", m.adds, f.metadata().count()),
    }
}

/// where each provider was added, as its metadata records it
fn places(c: &mut Ctx) {
    fn of(f: &Figment, name: &str) -> Vec<(String, u32)> {
        f.metadata().filter(|m| m.name == name).map(|m| m.provide_location.map_or(("nowhere".to_string(), 0), |l| (l.file().to_string(), l.line()))).collect()
    }
    let file = || file!().to_string();
    for kind in 0..5usize {
        let p = |id: usize| { let data = match kind { 0 => Ok(TP::new()), 1 => Err("bad".to_string()), _ => Ok([("default".to_string(), [("k".to_string(), T::Leaf(0, Leaf::U8(id as u8)))].into_iter().collect())].into_iter().collect::<TP>()) }; TestP { id, data, sel: if kind == 3 { Some("debug".into()) } else { None }, casing: 0 } };
        c.case(format!("where providers are added (kind {})", kind), true);
        let mut want: Vec<(usize, u32)> = vec![];
        let mut f = { want.push((0, line!())); Figment::from(p(0)) };
        f = { want.push((1, line!())); f.join(p(1)) };
        f = { want.push((2, line!())); f.adjoin(p(2)) };
        f = { want.push((3, line!())); f.merge(p(3)) };
        f = { want.push((4, line!())); f.admerge(p(4)) };
        f = { want.push((5, line!())); f.merge(&p(5)) };
        // several on one chain of calls
        let (q, r) = (p(6), p(7));
        f = f
            .join({ want.push((6, line!())); q })
            .merge({ want.push((7, line!())); &r });
        let f = f.select("other");
        let g = { want.push((8, line!())); Figment::from(p(8)) };
        let g = { want.push((9, line!())); g.adjoin(&f) };
        for (i, line) in &want {
            let name = if *i == 9 { f.metadata().count(); continue } else { format!("p{}", i) };
            c.eq(&format!("where {} was added", name), vec![(file(), *line)], of(&g, &name));
            if kind != 1 { let h = g.clone().focus("nope"); c.eq(&format!("where {} was added, focused", name), vec![(file(), *line)], of(&h, &name)); }
        }
        let n = g.metadata().filter(|m| m.provide_location.map_or(false, |l| l.file() == file!() && l.line() == want[9].1)).count();
        c.eq("additions recorded at the figment's own", 1, n);
        if c.full() { return; }
    }
}
pub fn run(c: &mut Ctx, prop: &str) {
    if prop == "C03" { places(c); }
    let vals = small();
    let fig = prop == "C19";
    // small scope: every pair of small values, all operations, at three places
    c.rule("all pairs of 16 small value trees x 4 operations x {root, nested, other profile}; where each of ten additions is recorded to have been made; plus random histories of 1..4 providers (possibly selecting profiles, re-cased, or figments themselves) of depth <= 3; non-trivial: at least one key conflicts");
    c.exh("pairs of 16 small trees x 4 operations x 3 positions");
    for a in &vals { for b in &vals { for op in OPS { for place in 0..3 {
        let wrap = |t: &T| -> TP {
            let mut d = TD::new();
            match place {
                0 => { d.insert("k".into(), t.clone()); }
                1 => { let mut e = TD::new(); e.insert("k".into(), t.clone()); let mut g = TD::new(); g.insert("in".into(), T::Dict(0, e)); d.insert("out".into(), T::Dict(0, g)); }
                _ => { d.insert("k".into(), t.clone()); }
            }
            let mut p = TP::new();
            p.insert(if place == 2 { "debug".into() } else { "default".into() }, d);
            p
        };
        let (mut pa, mut pb) = (wrap(a), wrap(b));
        pa.entry("default".into()).or_default().insert("onlya".into(), a.clone());
        pb.entry("default".into()).or_default().insert("onlyb".into(), b.clone());
        if place == 1 { pb.entry("global".into()).or_default().insert("onlyb".into(), a.clone()); }
        let mk = |d: TP| Kind::P { data: d, sel: None, casing: 0, dup: false };
        let steps = if fig { vec![Step { op, kind: mk(pa) }, Step { op, kind: Kind::F(vec![Step { op: Op::Merge, kind: mk(pb) }]) }] }
            else { vec![Step { op, kind: mk(pa) }, Step { op, kind: mk(pb) }] };
        c.case(show_steps(&steps), true);
        let mut n = 0;
        let (f, m) = build(&steps, &mut n);
        check_all(c, prop, &f, &m);
        if c.full() { return; }
    } } } }
    // selection tables
    for op in OPS { for s0 in [None, Some("debug")] { for s1 in [None, Some("release"), Some("Default")] {
        let steps = vec![
            Step { op: Op::Merge, kind: Kind::P { data: TP::new(), sel: s0.map(String::from), casing: 0, dup: false } },
            Step { op, kind: if fig { Kind::F(vec![Step { op: Op::Merge, kind: Kind::P { data: TP::new(), sel: s1.map(String::from), casing: 0, dup: false } }]) } else { Kind::P { data: TP::new(), sel: s1.map(String::from), casing: 0, dup: false } } }];
        c.case(show_steps(&steps), true);
        let mut n = 0;
        let (f, m) = build(&steps, &mut n);
        check_all(c, prop, &f, &m);
    } } }
    let rounds = if prop == "C02" { c.scale(900, 25000) } else { c.scale(2500, 60000) };
    for _ in 0..rounds {
        let depth = 1 + c.rng.below(3);
        let mut r = Rng(c.rng.next());
        let mut steps = gen_steps(&mut r, depth, true);
        if fig && !steps.iter().any(|s| matches!(s.kind, Kind::F(_))) { let s = gen_steps(&mut r, depth, true); steps.push(Step { op: *r.pick(&OPS), kind: Kind::F(s) }); }
        c.case(show_steps(&steps), steps.len() > 1);
        let mut n = 0;
        let (f, m) = build(&steps, &mut n);
        check_all(c, prop, &f, &m);
        if c.full() { return; }
    }
}

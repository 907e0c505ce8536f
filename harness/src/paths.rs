//! C06 (dotted paths) and C07 (focus).
use crate::tree::*;
use crate::util::*;
use figment::util::nest;
use figment::value::{Dict, Tag, Value};
use figment::{Figment, Provider};
use std::collections::BTreeMap;

const PK: [&str; 7] = ["a", "b", "c", "a b", "é", "0", "A"];

fn gen_d2(r: &mut Rng, depth: usize) -> TD {
    let n = r.below(5);
    (0..n).map(|_| (if r.chance(1, 10) { r.odd() } else { r.pick(&PK).to_string() }, gen_t2(r, depth))).collect()
}
fn gen_t2(r: &mut Rng, depth: usize) -> T {
    match r.below(if depth == 0 { 3 } else { 9 }) {
        0 | 1 => T::Leaf(0, gen_leaf(r)),
        2 => { let n = r.below(3); T::Arr(0, (0..n).map(|_| gen_t2(r, depth.saturating_sub(1))).collect()) }
        _ => T::Dict(0, gen_d2(r, depth - 1)),
    }
}
/// descending one component at a time; an empty component ends the path
fn find<'a>(t: &'a T, path: &[&str]) -> Option<&'a T> {
    if path.is_empty() || path[0].is_empty() { return Some(t); }
    match t { T::Dict(_, d) => find(d.get(path[0])?, &path[1..]), _ => None }
}
fn ok(t: Option<&T>, v: Option<&Value>) -> bool { match (t, v) { (Some(t), Some(v)) => t.same(v), (None, None) => true, _ => false } }
fn show_o(t: Option<&T>) -> String { t.map_or("absent".into(), |t| t.show()) }

fn check_path(c: &mut Ctx, root: &T, f: &Figment, key: &str) -> bool {
    let want = find(root, &key.split('.').collect::<Vec<_>>());
    let v = root.value();
    c.case(format!("{} at {:?}", root.show(), key), want.is_some() && key.contains('.'));
    let r = v.find_ref(key);
    if !ok(want, r) { let r = format!("{:?}", r); return c.check("Value::find_ref", false, || show_o(want), || r.clone()); }
    let o = v.clone().find(key);
    if !ok(want, o.as_ref()) { return c.check("Value::find", false, || show_o(want), || format!("{:?}", o)); }
    let fv = f.find_value(key);
    if !ok(want, fv.as_ref().ok()) { return c.check("Figment::find_value", false, || show_o(want), || format!("{:?}", fv)); }
    if let Err(e) = &fv {
        if !c.check("find_value of a missing path", e.missing() && e.kind.to_string().contains(key) && e.count() == 1, || format!("missing field {}", key), || e.to_string()) { return false; }
    }
    if !c.eq("contains", want.is_some(), f.contains(key)) { return false; }
    let ei = f.extract_inner::<Value>(key);
    if !ok(want, ei.as_ref().ok()) { return c.check("extract_inner", false, || show_o(want), || format!("{:?}", ei)); }
    if let Err(e) = &ei { if !c.check("extract_inner of a missing path", e.missing(), || "missing".into(), || e.to_string()) { return false; } }
    let el = f.extract_inner_lossy::<Value>(key);
    if el.is_ok() != ei.is_ok() || (el.is_ok() && !ok(want, el.as_ref().ok())) { return c.check("extract_inner_lossy", false, || format!("{:?}", ei), || format!("{:?}", el)); }
    let md = f.find_metadata(key).map(|m| m.name.to_string());
    let wmd = match want { None => None, Some(_) if key.split('.').next() == Some("") => None, Some(t) => Some(format!("p{}", t.src())) };
    c.eq("find_metadata", wmd, md)
}

pub fn run6(c: &mut Ctx) {
    c.rule("random trees of depth <= 4 over 7 keys (spaces, unicode, digits) with every path of up to 4 components from the keys, absent keys and empty components; nest() of every such path; non-trivial: a present path of at least two components");
    c.exh("all paths of <= 3 components over the key alphabet per tree");
    for _ in 0..c.scale(60, 1500) {
        let mut r = Rng(c.rng.next());
        let d = gen_d2(&mut r, 3);
        let root = T::Dict(0, d.clone());
        let p: TP = [("default".to_string(), d.clone())].into_iter().collect();
        let f = Figment::from(TestP { id: 0, data: Ok(p), sel: None, casing: 0 });
        let odd: Vec<String> = (0..5).map(|i| { let k = *r.pick(&PK); match i { 0 => r.odd(), 1 => r.odd(), 2 => format!("{} ", k), 3 => format!(" {}", k), _ => k.to_uppercase() } }).collect();
        let comps: Vec<&str> = PK.iter().cloned().chain(["zz", ""]).chain(odd.iter().map(|s| s.as_str())).collect();
        for a in &comps {
            check_path(c, &root, &f, a);
            for b in &comps {
                check_path(c, &root, &f, &format!("{}.{}", a, b));
                if c.full() { return; }
            }
        }
        for _ in 0..60 {
            let n = 3 + r.below(3);
            let n = if r.chance(1, 10) { r.size(12, 300) } else { n };
            let k = (0..n).map(|_| *r.pick(&comps)).collect::<Vec<_>>().join(".");
            check_path(c, &root, &f, &k);
        }
        for p in paths(&d) { check_path(c, &root, &f, &p.join(".")); let mut q = p.clone(); q.push("zz".into()); check_path(c, &root, &f, &q.join(".")); }
        // a tree that is not a dictionary at the root
        let t = gen_t2(&mut r, 1);
        for k in ["", "a", "a.b", "."] {
            c.case(format!("{} at {:?}", t.show(), k), false);
            let w = find(&t, &k.split('.').collect::<Vec<_>>());
            let v = t.value();
            c.check("find_ref at the root", ok(w, v.find_ref(k)), || show_o(w), || format!("{:?}", v.find_ref(k)));
            c.check("find at the root", ok(w, v.clone().find(k).as_ref()), || show_o(w), || format!("{:?}", v.clone().find(k)));
        }
        if c.full() { return; }
    }
    // nest
    for _ in 0..c.scale(3000, 30000) {
        let mut r = Rng(c.rng.next());
        let n = 1 + r.size(5, 40);
        let comps: Vec<String> = (0..n).map(|_| match r.below(10) { 0 => "".to_string(), 1 => r.odd(), _ => r.pick(&PK).to_string() }).collect();
        let key = comps.join(".");
        let t = gen_t2(&mut r, 2);
        c.case(format!("nest({:?}, {})", key, t.show()), n > 1);
        let mut want = t.clone();
        let end = comps.iter().position(|k| k.is_empty()).unwrap_or(n);
        for k in comps[..end].iter().rev() { want = T::Dict(0, [(k.to_string(), want)].into_iter().collect()); }
        if let Some(v) = guard(c, "nest", || nest(&key, t.value())) {
            c.check("nest", want.same(&v), || want.show(), || format!("{:?}", v));
            c.check("lookup of a nested path", v.find_ref(&key).map_or(false, |v| t.same(v)), || t.show(), || format!("{:?}", v.find_ref(&key)));
        }
        if c.full() { return; }
    }
}

// ---- C07
fn raw(f: &Figment) -> Option<BTreeMap<String, Dict>> {
    f.data().ok().map(|m| m.into_iter().map(|(k, v)| (k.as_str().as_str().to_ascii_lowercase(), v)).collect())
}
/// wherever the profile's data binds a component of the path, it binds it to a dictionary
fn dict_path(d: &TD, p: &[&str]) -> bool {
    if p.is_empty() { return true; }
    match d.get(p[0]) { None => true, Some(T::Dict(_, e)) => dict_path(e, &p[1..]), _ => false }
}
fn tags(v: &Value, out: &mut Vec<Tag>) {
    out.push(v.tag());
    match v { Value::Dict(_, d) => d.values().for_each(|v| tags(v, out)), Value::Array(_, d) => d.iter().for_each(|v| tags(v, out)), _ => {} }
}
fn check_focus(c: &mut Ctx, f: &Figment, p: &TP, key: &str) -> bool {
    let comps: Vec<&str> = key.split('.').collect();
    let g = f.focus(key);
    // exactly the dictionary at the key, in every profile
    let mut want = TP::new();
    for (prof, d) in p { if let Some(T::Dict(_, e)) = find(&T::Dict(0, d.clone()), &comps) { want.insert(prof.clone(), e.clone()); } }
    let before = raw(f);
    match raw(&g) {
        Some(r) if r.len() == want.len() && want.iter().all(|(k, d)| r.get(k).map_or(false, |e| same_dict(d, e))) => {}
        o => return c.check("data of the focused figment", false, || show_p(&want), || format!("{:?}", o)),
    }
    // attribution is untouched
    let (ro, rg) = (raw(f).unwrap(), raw(&g).unwrap());
    for (k, d) in &rg {
        let orig = Value::Dict(Tag::Default, ro[k].clone());
        let at = match orig.find_ref(key) { Some(Value::Dict(_, d)) => d.clone(), _ => continue };
        for (n, v) in d {
            let (mut a, mut b) = (vec![], vec![]);
            tags(v, &mut a);
            if let Some(w) = at.get(n) { tags(w, &mut b); }
            if format!("{:?}", a) != format!("{:?}", b) { return c.check("tags in the focused figment", false, || format!("{:?}", b), || format!("{:?}", a)); }
        }
    }
    if !c.eq("selected profile carries over", f.profile().clone(), g.profile().clone()) { return false; }
    let mut sels: Vec<&str> = vec!["default", "global", "debug", "other"];
    sels.extend(p.keys().map(|k| k.as_str()).filter(|k| !PROFILES.contains(k)));
    let names = |f: &Figment| f.metadata().map(|m| m.name.to_string()).collect::<Vec<_>>();
    if !c.eq("metadata carries over", names(f), names(&g)) { return false; }
    for sel in sels {
        let (fs, gs) = (f.clone().select(sel), g.clone().select(sel));
        let lay = layered(&want, sel);
        match gs.extract::<Dict>() { Ok(d) if same_dict(&lay, &d) => {}, o => return c.check(&format!("focused extraction with profile {}", sel), false, || show(&lay), || format!("{:?}", o)) }
        if !p.values().all(|d| dict_path(d, &comps)) || comps.iter().any(|k| k.is_empty()) { continue; }
        for path in paths(&lay).into_iter().chain([vec!["zz".to_string()], vec!["a".into(), "zz".into()]]) {
            if path.iter().any(|k| k.is_empty()) { continue; }
            let s = path.join(".");
            let full = format!("{}.{}", key, s);
            let (a, b) = (fs.find_value(&full), gs.find_value(&s));
            let same = match (&a, &b) { (Ok(x), Ok(y)) => { let (mut ta, mut tb) = (vec![], vec![]); tags(x, &mut ta); tags(y, &mut tb); format!("{:?}{:?}", x, ta) == format!("{:?}{:?}", y, tb) } (Err(x), Err(y)) => x.missing() && y.missing(), _ => false };
            if !same { return c.check(&format!("focus({}).find_value({}) with profile {}", key, s, sel), false, || format!("{:?}", a), || format!("{:?}", b)); }
            let (ma, mb) = (fs.find_metadata(&full).map(|m| m.name.to_string()), gs.find_metadata(&s).map(|m| m.name.to_string()));
            if !c.eq(&format!("metadata of {} with profile {}", full, sel), ma, mb) { return false; }
        }
    }
    c.eq("the original is unchanged", format!("{:?}", before), format!("{:?}", raw(f)))
}

pub fn run7(c: &mut Ctx) {
    c.rule("random figments of 1..4 providers over up to 5 profiles, focused on every bound path, on absent paths, on paths to non-dictionaries and twice; failing providers; non-trivial: some profile holds a dictionary at the key");
    for _ in 0..c.scale(250, 5000) {
        let mut r = Rng(c.rng.next());
        let mut f = Figment::new();
        let mut m = TP::new();
        let n = 1 + r.below(4);
        for id in 0..n {
            let np = 1 + r.below(3);
            let mut d: TP = (0..np).map(|_| (gen_prof(&mut r), gen_d2(&mut r, 3))).collect();
            let op = *r.pick(&OPS);
            f = op.apply(f, TestP { id, data: Ok(d.clone()), sel: if r.chance(1, 4) { Some("debug".into()) } else { None }, casing: 0 });
            for t in d.values_mut() { for v in t.values_mut() { v.set_src(id); } }
            m = c_prof(&m, &d, op);
        }
        if r.chance(1, 2) { f = f.select(["debug", "release", "missing", "GLOBAL"][r.below(4)]); }
        let mut keys: Vec<String> = m.values().flat_map(|d| paths(d)).map(|p| p.join(".")).collect();
        keys.sort();
        keys.dedup();
        if keys.len() > 24 { for i in 0..24 { let j = i + r.below(keys.len() - i); keys.swap(i, j); } keys.truncate(24); }
        keys.extend(["zz".to_string(), "a.zz".into(), "".into(), r.odd(), format!("a.{}", r.odd()), format!("{} ", keys.first().cloned().unwrap_or_default())]);
        for k in &keys {
            let nt = m.values().any(|d| matches!(find(&T::Dict(0, d.clone()), &k.split('.').collect::<Vec<_>>()), Some(T::Dict(..))));
            c.case(format!("{} focus({:?})", show_p(&m), k), nt);
            check_focus(c, &f, &m, k);
            if c.full() { return; }
        }
        // focusing in two steps is focusing on the joined key
        for k in keys.iter().filter(|k| k.contains('.') && k.split('.').all(|s| !s.is_empty())) {
            let (a, b) = k.split_at(k.find('.').unwrap());
            c.case(format!("{} focus({:?}).focus({:?})", show_p(&m), a, &b[1..]), true);
            let (x, y) = (f.focus(k), f.focus(a).focus(&b[1..]));
            c.eq("two-step focus", format!("{:?}", raw(&x)), format!("{:?}", raw(&y)));
        }
        // pending errors carry over
        let g = f.clone().merge(TestP { id: 90, data: Err("boom".into()), sel: None, casing: 0 }).merge(TestP { id: 91, data: Err("bang".into()), sel: None, casing: 0 });
        c.case(format!("failing figment, focus {:?}", keys[0]), true);
        let (a, b) = (g.extract::<Dict>(), g.focus(&keys[0]).extract::<Dict>());
        c.eq("errors carry over", format!("{:?}", a.map_err(|e| e.into_iter().map(|e| (e.to_string(), e.metadata.map(|m| m.name), e.profile)).collect::<Vec<_>>())),
            format!("{:?}", b.map_err(|e| e.into_iter().map(|e| (e.to_string(), e.metadata.map(|m| m.name), e.profile)).collect::<Vec<_>>())));
        if c.full() { return; }
    }
}

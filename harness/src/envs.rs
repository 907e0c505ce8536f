//! C09: environment provider.
use crate::parse::{reference, G};
use crate::util::*;
use figment::providers::Env;
use figment::value::{Dict, Value};
use figment::{Figment, Profile, Provider};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
enum Cfg { Filter(usize), Map(usize), FilterMap(usize), Lower(bool), Split(String), Ignore(Vec<String>), Only(Vec<String>), Profile(String), Global }

fn low(s: &str) -> String { s.to_ascii_lowercase() }
// user functions, on the name as seen at that point
fn filt(i: usize, k: &str) -> bool { match i { 0 => k.len() % 2 == 0, 1 => !low(k).contains('o'), 2 => low(k).starts_with("app"), _ => !k.contains('.') } }
fn mapf(i: usize, k: &str) -> String { match i { 0 => format!("x{}", k), 1 => k.replace("__", "."), 2 => k.chars().rev().collect(), 3 => format!("{}.t", k), 4 => k.to_ascii_uppercase(), 5 => format!(" {} ", k), _ => k.get(1..).unwrap_or("").to_string() } }
fn fmapf(i: usize, k: &str) -> Option<String> { match i { 0 => k.strip_prefix(|c: char| c.eq_ignore_ascii_case(&'a')).map(|s| s.to_string()), 1 => Some(k.replace('B', "b")), _ => if k.len() > 3 { Some(format!("{}.q", k.chars().next().unwrap())) } else { None } } }

fn apply(e: Env, c: &Cfg) -> Env {
    match c.clone() {
        Cfg::Filter(i) => e.filter(move |k| filt(i, k.as_str())),
        Cfg::Map(i) => e.map(move |k| mapf(i, k.as_str()).into()),
        Cfg::FilterMap(i) => e.filter_map(move |k| fmapf(i, k.as_str()).map(|s| s.into())),
        Cfg::Lower(b) => e.lowercase(b),
        Cfg::Split(s) => e.split(s),
        Cfg::Ignore(v) => e.ignore(&v.iter().map(|s| s.as_str()).collect::<Vec<_>>()),
        Cfg::Only(v) => e.only(&v.iter().map(|s| s.as_str()).collect::<Vec<_>>()),
        Cfg::Profile(p) => e.profile(p.as_str()),
        Cfg::Global => e.global(),
    }
}
struct Model { prefix: Option<String>, cfg: Vec<Cfg> }
impl Model {
    fn name(&self, var: &str) -> Option<String> {
        let mut k = var.trim().to_string();
        if k.is_empty() && var.is_empty() { return None; }
        if let Some(p) = &self.prefix {
            if k.len() < p.len() || !k.is_char_boundary(p.len()) || !k[..p.len()].eq_ignore_ascii_case(p) { return None; }
            k = k[p.len()..].to_string();
        }
        for c in &self.cfg {
            match c {
                Cfg::Filter(i) => if !filt(*i, &k) { return None; },
                Cfg::Map(i) => k = mapf(*i, &k),
                Cfg::FilterMap(i) => k = fmapf(*i, &k)?,
                Cfg::Split(s) => k = k.replace(s.as_str(), "."),
                Cfg::Ignore(v) => if v.iter().any(|x| x.eq_ignore_ascii_case(&k)) { return None; },
                Cfg::Only(v) => if !v.iter().any(|x| x.eq_ignore_ascii_case(&k)) { return None; },
                _ => {}
            }
        }
        let mut k = k.trim().to_string();
        if k.split('.').any(|s| s.is_empty()) { return None; }
        let lower = self.cfg.iter().rev().find_map(|c| if let Cfg::Lower(b) = c { Some(*b) } else { None }).unwrap_or(true);
        if lower { k = low(&k); }
        Some(k)
    }
    fn profile(&self) -> String {
        self.cfg.iter().rev().find_map(|c| match c { Cfg::Profile(p) => Some(low(p)), Cfg::Global => Some("global".into()), _ => None }).unwrap_or("default".into())
    }
}
/// dictionaries that meet are combined; otherwise the later value is kept
fn put(d: &mut BTreeMap<String, G>, k: &str, v: G) {
    match (d.get_mut(k), v) {
        (Some(G::D(a)), G::D(b)) => for (k, v) in b { put(a, &k, v); },
        (_, v) => { d.insert(k.into(), v); }
    }
}
fn nested(path: &[&str], v: G) -> G { path.iter().rev().fold(v, |v, k| G::D(std::iter::once((k.to_string(), v)).collect())) }

const NAMES: [&str; 32] = ["A_B", "A_B_C", "A__B", "A_B_C_D", "APP_A", "APP_A_B", "APP_FOO", "APP_BAR", "app_foo_bar", "App_Baz__Qux", "OTHER", "A", "FOO.BAR", "FOO..BAR", ".LEAD", "TRAIL.", " SPACED ", "APP_", "APP", "BOB", "Émile", "a.b.c", "__", "APP_A_B_C", "x", "\t", "Foo_Bar", "APP_É", "APP_APP_Z", "appfoo", "APP_ odd", "GLOBAL_ß"];
const VALS: [&str; 14] = ["1", "true", "hi", "[1,2]", "{a=1}", "\"q\\n\"", "", " x ", "-4", "1.5", "{b={c=[1]}}", "[oops", "{b=2,c={d=3}}", "{}"];

pub fn run(c: &mut Ctx) {
    c.rule("the process environment is replaced by 1..8 of 32 names (dots, spaces, unicode, any case) with 14 kinds of values; random provider with or without prefix and 0..6 configuration calls in any order; the listed names, the nested data, the profile and Env::var are compared with a direct model; non-trivial: some variable is emitted");
    let saved: Vec<_> = std::env::vars_os().collect();
    for _ in 0..c.scale(6000, 120000) {
        let mut r = Rng(c.rng.next());
        let n = 1 + r.below(8);
        let mut vars: BTreeMap<String, String> = BTreeMap::new();
        for _ in 0..n { 
            let k = match r.below(13) { 12 => { let n = 2 + r.size(8, 90); let sep = *r.pick(&["_", "__", ".", "O"]); (0..n).map(|i| ["A", "b", "É", "xY"][(i + r.below(4)) % 4]).collect::<Vec<_>>().join(sep) } 0 => r.odd_name(), 1 => format!("APP_{}", r.odd_name()), 2 => format!("FOO_{}_{}", r.odd_name(), r.below(3)), _ => r.pick(&NAMES).to_string() };
            let v = match r.below(6) { 0 => r.odd_text().replace('\0', ""), 1 => crate::parse::gen_text(&mut r).replace('\0', ""), _ => r.pick(&VALS).to_string() };
            vars.insert(k, v);
         }
        let m = 0 + r.below(7);
        let cfg: Vec<Cfg> = (0..m).map(|_| match r.below(12) {
            0 | 1 => Cfg::Filter(r.below(4)), 2 | 3 => Cfg::Map(r.below(7)), 4 => Cfg::FilterMap(r.below(3)), 5 | 6 => Cfg::Lower(r.chance(1, 2)),
            7 => Cfg::Split(if r.chance(1, 5) { r.odd_name() } else { ["_", "__", ".", "O"][r.below(4)].into() }),
            8 => Cfg::Ignore((0..1 + r.below(3)).map(|_| { if r.chance(1, 8) { r.odd_name() } else { let s = *r.pick(&["foo", "BAR", "app_foo", "a.b.c", "Foo.Bar", "émile", "Émile", "x"]); s.into() } }).collect()),
            9 => Cfg::Only((0..1 + r.below(4)).map(|_| { let s = *r.pick(&["foo", "BAR", "app_foo", "a.b.c", "Foo.Bar", "foo_bar", "Baz", "x", "other"]); s.into() }).collect()),
            10 => Cfg::Profile(if r.chance(1, 5) { r.odd_text() } else { ["debug", "DEFAULT", "Global", "custom"][r.below(4)].into() }), _ => Cfg::Global,
        }).collect();
        let prefix = match r.below(3) { 0 => None, _ => Some(["APP_", "app_", "APP", "App_", "", "É", "A", "__", "FOO_"][r.below(9)].to_string()) };
        let prefix = if r.chance(1, 12) { let k = vars.keys().next().unwrap(); let n = r.below(k.chars().count() + 1); Some(k.chars().take(n).collect()) } else { prefix };
        let model = Model { prefix: prefix.clone(), cfg: cfg.clone() };
        let mut want: Vec<(String, String)> = vars.iter().filter_map(|(k, v)| model.name(k).map(|k| (k, v.clone()))).collect();
        want.sort();
        c.case(format!("env {:?} prefix {:?} {:?}", vars, prefix, cfg), !want.is_empty());
        let real: Vec<_> = std::env::vars_os().map(|x| x.0).collect();
        for k in real { std::env::remove_var(k); }
        for (k, v) in &vars { std::env::set_var(k, v); }
        // a variable whose name or value is not unicode is seen in its lossy form
        if r.chance(1, 8) {
            use std::os::unix::ffi::OsStringExt;
            std::env::set_var(std::ffi::OsString::from_vec(b"caf\xff".to_vec()), std::ffi::OsString::from_vec(b"a\xfe1".to_vec()));
            vars.insert("caf\u{fffd}".into(), "a\u{fffd}1".into());
            want = vars.iter().filter_map(|(k, v)| model.name(k).map(|k| (k, v.clone()))).collect();
            want.sort();
        }
        let env = match &prefix { None => Env::raw(), Some(p) => Env::prefixed(p) };
        let env = cfg.iter().fold(env, apply);
        let got = guard(c, "iter", || env.iter().map(|(k, v)| (k.as_str().to_string(), v)).collect::<Vec<(String, String)>>());
        let Some(order) = got else { continue };
        let mut g = order.clone(); g.sort();
        if !c.eq("variables listed", want.clone(), g) { if c.full() { break; } continue; }
        // nested data
        let data = match guard(c, "data", || env.data()) { Some(Ok(d)) => d, Some(Err(e)) => { c.check("data", false, || "data".into(), || e.to_string()); continue; } None => continue };
        let mut tree = BTreeMap::new();
        // in the order of the environment
        for (k, v) in &order { let p: Vec<&str> = k.split('.').collect(); put(&mut tree, p[0], nested(&p[1..], reference(v))); }
        let ps: Vec<String> = data.keys().map(|p| low(p.as_str().as_str())).collect();
        if !c.eq("profiles emitted to", vec![model.profile()], ps) { continue; }
        let d: &Dict = data.get(&Profile::new(&model.profile())).or_else(|| data.values().next()).unwrap();
        let v = Value::from(d.clone());
        c.check("nested data", G::D(tree.clone()).same(&v), || format!("{:?}", tree), || format!("{:?}", v));
        let f = Figment::new().merge(env.clone());
        let sel = f.clone().select(model.profile().as_str());
        for (k, _) in &want {
            let (mut at, mut g) = (Some(&tree), None);
            for p in k.split('.') { g = at.and_then(|d| d.get(p)); at = match g { Some(G::D(d)) => Some(d), _ => None }; }
            let o = sel.find_value(k).ok();
            c.check(&format!("find_value({})", k), match (g, &o) { (Some(g), Some(v)) => g.same(v), (None, None) => true, _ => false }, || format!("{:?}", g), || format!("{:?}", o));
        }
        // lookup of one variable, ignoring case and surrounding whitespace of its name
        let probe = if r.chance(1, 2) { let ks: Vec<&String> = vars.keys().collect(); crate::tree::recase(&mut r, ks[c.rng.below(ks.len())].trim()) } else { r.pick(&NAMES).to_string() };
        let probe = probe.as_str();
        let hits: Vec<&String> = vars.iter().filter(|(k, _)| k.trim().eq_ignore_ascii_case(probe)).map(|x| x.1).collect();
        if hits.len() <= 1 {
            c.eq(&format!("Env::var({:?})", probe), hits.first().map(|v| v.trim().to_string()), Env::var(probe));
            c.eq(&format!("Env::var_or({:?})", probe), hits.first().map_or("dflt".into(), |v| v.trim().to_string()), Env::var_or(probe, "dflt"));
        }
        if c.full() { break; }
    }
    let real: Vec<_> = std::env::vars_os().map(|x| x.0).collect();
    for k in real { std::env::remove_var(k); }
    for (k, v) in saved { std::env::set_var(k, v); }
}
